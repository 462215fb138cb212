package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// What the REST operations are in terms of the service. The sources of the
// fields of a request are: "body.X" a field of the body, "param.X" an
// optional parameter, "path" the ID in the path; "list" before it: all
// elements of the list, converted.
type restCall struct {
	method string
	args   [][2]string
}

type restOp struct {
	calls  []restCall
	status int64
	// the answer: its fields and the fields of the answers of the calls
	body    string // type of the body, "" for no type
	answers [][2]string
}

var restOps = map[string]restOp{
	"CreateLog": {
		calls:  []restCall{{"CreateLog", [][2]string{{"Tags", "body.Tags"}}}},
		status: 201, body: "Log", answers: [][2]string{{"", "CreateLog."}},
	},
	"UpdateLog": {
		calls:  []restCall{{"UpdateLog", [][2]string{{"ID", "path"}, {"Tags", "body.Tags"}}}},
		status: 200, body: "Log", answers: [][2]string{{"", "UpdateLog."}},
	},
	"DeleteLogs": {
		calls:  []restCall{{"DeleteLogs", [][2]string{{"Condition", "body.FilterCondition"}}}},
		status: 200, body: "DeleteLogsResponse", answers: [][2]string{{"Deleted", "len DeleteLogs.DeletedIDs"}},
	},
	"QueryLogs": {
		calls:  []restCall{{"QueryLogs", [][2]string{{"Condition", "param.LogsCondFilter"}, {"PageID", "param.FromPageId"}, {"Limit", "param.Limit"}}}},
		status: 200, body: "QueryLogsResult", answers: [][2]string{{"Items", "list QueryLogs.Logs"}, {"Total", "QueryLogs.Total"}, {"NextPageId", "opt QueryLogs.NextPageID"}},
	},
	"CreateRecords": {
		calls:  []restCall{{"AppendRecords", [][2]string{{"LogID", "path"}, {"Records", "list body.Records"}}}},
		status: 201, body: "CreateRecordsResponse", answers: [][2]string{{"Added", "AppendRecords.Added"}},
	},
	"QueryRecords": {
		calls: []restCall{
			{"QueryRecords", [][2]string{{"LogsCondition", "param.LogsCondFilter"}, {"Condition", "param.RecordsCondFilter"}, {"LogIDs", "param.LogIds"}, {"Descending", "param.Desc"}, {"StartRecordID", "param.FromPageId"}, {"Limit", "param.Limit"}}},
			{"CountRecords", [][2]string{{"LogsCondition", "param.LogsCondFilter"}, {"Condition", "param.RecordsCondFilter"}, {"LogIDs", "param.LogIds"}}},
		},
		status: 200, body: "QueryRecordsResult", answers: [][2]string{{"Items", "list QueryRecords.Records"}, {"Total", "CountRecords.Count"}, {"NextPageId", "opt QueryRecords.NextPageID"}},
	},
	"Ping": {status: 200},
}

// The elements: type made, fields of it and of what they are made from.
var restElems = map[string][][2]string{
	"api/genpublic/v1.Log":      {{"Id", "ID"}, {"Tags", "Tags"}, {"CreatedAt", "time CreatedAt"}, {"UpdatedAt", "time UpdatedAt"}},
	"api/genpublic/v1.Record":   {{"Id", "ID"}, {"LogId", "LogID"}, {"Payload", "Payload"}, {"CreatedAt", "time CreatedAt"}},
	"api/gen/solaris/v1.Record": {{"Payload", "Payload"}},
}

func restMapping(p *lib.Prog, r *lib.Report) {
	si := ifaceOf(p, "api/genpublic/v1", "ServerInterface")
	if si == nil {
		r.Bad("anchor", "ServerInterface", token.NoPos, nil, "the REST interface is not there")
		return
	}
	var roots []*ssa.Function
	seen := map[string]bool{}
	for _, f := range implementers(p, []string{restPkg}, si) {
		roots = append(roots, f)
		seen[f.Name()] = true
	}
	for n := range restOps {
		if !seen[n] {
			r.Bad("anchor", "REST "+n, token.NoPos, nil, "the operation %s of the REST interface is not there", n)
		}
	}
	v := visits{strict: true}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool {
		k := lib.PkgOf(g)
		return k != restPkg && k != "golibs/cast"
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		op, name := restOps[root.Name()], lib.Name(root)
		var body *eng.Val // the body of the request
		path, params := func() (a, b *eng.Val) {
			for i, x := range root.Params {
				if isStr(x.Type()) {
					a = e.In.Param(root, i)
				} else if _, ok := x.Type().Underlying().(*types.Struct); ok {
					b = e.In.Param(root, i)
				}
			}
			return
		}()
		cv := newConverter(r, e, name, v, restElems)
		elem := cv.elem
		// source tells whether x is what the table says
		source := func(st *eng.State, x *eng.Val, want string) bool {
			x = lib.Strip(x)
			switch {
			case want == "path":
				return x == path
			case strings.HasPrefix(want, "body."):
				n, of := loadedFrom(x)
				return body != nil && of == body && n == want[5:]
			case strings.HasPrefix(want, "param."):
				pt := resultField(st, params, want[6:])
				if st.IsNil(pt) {
					b, ok := st.Eval(x)
					n, isInt := eng.ConstInt(x)
					s, isS := eng.ConstString(x)
					return x.K == eng.KNil || x.K == eng.KZero || st.IsNil(x) || ok && !b || isInt && n == 0 || isS && s == ""
				}
				return x.K == eng.KLoad && x.Args[0] == pt
			}
			return false
		}
		answer := func(st *eng.State, want string) *eng.Val {
			call, field, _ := strings.Cut(want, ".")
			t, ok := st.TS["answer:"+call]
			if !ok {
				return nil
			}
			if field == "" {
				return t.V[0]
			}
			return resultField(st, t.V[0], field)
		}
		allOf := cv.allOf
		checkBody := func(st *eng.State, pos token.Pos, args []*eng.Val) {
			if op.body == "" || len(args) < 2 {
				return
			}
			b := lib.Strip(args[1])
			r.Check(strings.HasSuffix(elemKey(b.Typ), "."+op.body), "answer", name+": body", pos, st, "%s answers with %s", name, b.Typ)
			for _, c := range op.calls {
				if !st.Has("answer:" + c.method) {
					return // reported at the exit
				}
			}
			for _, a := range op.answers {
				if a[0] == "" { // all of it
					src, bad := elem(st, b)
					r.Check(src == answer(st, a[1]) && bad == "", "answer", name+": "+op.body, pos, st, "%s: the %s of the answer is not the one the service has given", name, bad)
					continue
				}
				x := lib.Strip(resultField(st, b, a[0]))
				how, src, ok := strings.Cut(a[1], " ")
				if !ok {
					how, src = "", a[1]
				}
				want := answer(st, src)
				good := false
				switch how {
				case "":
					good = x == lib.Strip(want)
				case "len":
					good = x == st.Len(want) || lib.Linear(x).Sub(lib.Linear(st.Len(want))).IsConst() && lib.Linear(x).Sub(lib.Linear(st.Len(want))).C == 0
				case "list":
					good = allOf(st, x, want)
				case "opt":
					empty, ek := emptyKnown(st, want)
					if st.IsNil(x) || x.K == eng.KZero {
						good = ek && empty
					} else {
						good = st.Load(x, types.Typ[types.String]) == want
					}
				}
				r.Check(good, "answer", name+": "+a[0], pos, st, "%s: the %s of the answer is not %s: %s", name, a[0], a[1], x)
			}
		}
		return eng.Hooks{
			Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) { v.branch(st, cond, taken) },
			Store:  cv.store,
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind == eng.CKDefer {
					return nil
				}
				n := c.Name()
				if m, ok := strings.CutPrefix(n, "(*github.com/gin-gonic/gin.Context)."); ok {
					switch {
					case strings.Contains(m, "Bind") && len(c.Args) > 1:
						addr := lib.Strip(c.Args[1])
						body = e.In.NamedSym("the body", ptrElem(addr.Typ))
						er := e.In.NamedSym("bad body", c.Common.Signature().Results().At(0).Type())
						return &eng.Result{Outcomes: []eng.Outcome{
							{Rets: []*eng.Val{e.In.Nil()}, Do: func(s *eng.State) { s.Store(addr, body); s.Set("bound", "") }},
							{Rets: []*eng.Val{er}, Do: func(s *eng.State) { s.Assume(e.Eq(er, e.In.Nil()), false); s.Set("failed", "bad body") }},
						}}
					case m == "JSON" || m == "String" || m == "Data" || m == "IndentedJSON" || m == "PureJSON" || m == "XML" || m == "Status" || m == "Redirect" || strings.HasPrefix(m, "Abort"):
						if len(c.Args) < 2 {
							break
						}
						k := st.Get("answers")
						st.Set("answers", k+"+", c.Args[1:]...)
						if status, known := eng.ConstInt(c.Args[1]); known && status < 400 && !st.Has("failed") {
							checkBody(st, c.Pos(), c.Args[1:])
						}
					}
					return nil
				}
				if c.Fn != nil && lib.PkgOf(c.Fn) == "api/gen/solaris/v1" && len(c.Args) == 1 {
					if m, ok := strings.CutPrefix(c.Fn.Name(), "Get"); ok {
						return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{resultField(st, c.Args[0], m)}}}}
					}
				}
				if m, ok := strings.CutPrefix(n, "(*"+apiPkg+".Service)."); ok && len(c.Args) == 3 {
					call := -1
					for i := range op.calls {
						if op.calls[i].method == m {
							call = i
						}
					}
					if call < 0 {
						r.Check(false, "request", name+": "+m, c.Pos(), st, "%s asks the service for %s", name, m)
						return nil
					}
					r.Check(!st.Has("failed"), "request", name+": "+m+" after a failure", c.Pos(), st, "%s goes on after %s", name, st.Get("failed"))
					for _, a := range op.calls[call].args {
						f := resultField(st, c.Args[2], a[0])
						src, isList := strings.CutPrefix(a[1], "list ")
						var ok bool
						if isList {
							ok = body != nil && allOf(st, f, resultField(st, body, strings.TrimPrefix(src, "body.")))
							st.Del("made")
						} else {
							ok = source(st, f, src)
						}
						r.Check(ok, "request", fmt.Sprintf("%s: %s %s", name, m, a[0]), c.Pos(), st, "%s: the %s of the request to the service is not %s: %s", name, a[0], a[1], f)
					}
					res := e.In.NamedSym("answer of "+m, c.Common.Signature().Results().At(0).Type())
					er := e.In.NamedSym("failure of "+m, c.Common.Signature().Results().At(1).Type())
					return &eng.Result{Outcomes: []eng.Outcome{
						{Rets: []*eng.Val{res, e.In.Nil()}, Do: func(s *eng.State) { s.Assume(e.Eq(res, e.In.Nil()), false); s.Set("answer:"+m, "", res) }},
						{Rets: []*eng.Val{e.In.Nil(), er}, Do: func(s *eng.State) { s.Assume(e.Eq(er, e.In.Nil()), false); s.Set("failed", "failed "+m) }},
					}}
				}
				return nil
			},
			After: cv.after,
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				t := st.TS["answers"]
				r.Check(t.S == "+", "one-answer", name, pos, st, "%s answers %d times", name, len(t.S))
				if t.S != "+" {
					return
				}
				status, known := eng.ConstInt(t.V[0])
				why := st.Get("failed")
				for _, c := range op.calls {
					for _, a := range c.args {
						if strings.Contains(a[1], "body.") && !st.Has("bound") && why == "" {
							why = "no body"
						}
					}
				}
				if why != "" {
					r.Check(!known || status >= 400, "failure", name+": "+why, pos, st, "%s reports success (%d) after %s", name, status, why)
					return
				}
				r.Check(known && status == op.status, "answer", name+": status", pos, st, "%s answers %s, not %d", name, t.V[0], op.status)
				for _, c := range op.calls {
					r.Check(st.Has("answer:"+c.method), "answer", name+": "+c.method, pos, st, "%s answers without %s", name, c.method)
					if !st.Has("answer:" + c.method) {
						return
					}
				}
			},
		}
	}
	j.Do(nil)
	r.Floor("one-answer", len(restOps))
	r.Floor("request", 12)
	r.Floor("answer", 20)
	r.Floor("converted", 2)
}

func init() {
	register("C34", func(p *lib.Prog, r *lib.Report) {
		restMapping(p, r)
		serviceMapping(p, r)
	}, "Fields, lists and answers of the REST operations and the service compared with a table of what they stand for.")
}

// serviceMapping: the service hands the requests to the storages and gives
// their answers out as they are.
func serviceMapping(p *lib.Prog, r *lib.Report) {
	si := ifaceOf(p, "api/gen/solaris/v1", "ServiceServer")
	if si == nil {
		r.Bad("anchor", "ServiceServer", token.NoPos, nil, "the service interface is not there")
		return
	}
	type fwd struct {
		method string // of the storage
		fields []string
	}
	ops := map[string]fwd{
		"CreateLog":     {"Logs).CreateLog", []string{"Tags"}},
		"UpdateLog":     {"Logs).UpdateLog", []string{"ID", "Tags"}},
		"DeleteLogs":    {"Logs).DeleteLogs", []string{"Condition"}},
		"AppendRecords": {"Log).AppendRecords", []string{"LogID", "Records"}},
		"CountRecords":  {"Log).CountRecords", nil},
	}
	var roots []*ssa.Function
	for _, f := range implementers(p, []string{apiPkg}, si) {
		if _, ok := ops[f.Name()]; ok {
			roots = append(roots, f)
		}
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != apiPkg }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		op, name := ops[root.Name()], lib.Name(root)
		req := e.In.Param(root, 2)
		var sums []ssa.Value // results of the counting
		return eng.Hooks{
			Store: func(st *eng.State, fr *eng.Frame, addr, v *eng.Val, in ssa.Instruction) {
				if addr.K == eng.KField && addr.Args[0] == req {
					r.Check(false, "forwarded", name+": "+addr.Name, in.Pos(), st, "%s changes the %s of the request", name, addr.Name)
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind == eng.CKDefer {
					return nil
				}
				n := c.Name()
				switch {
				case n == errPkg+".GRPCWrap" || strings.HasSuffix(n, "errors.GRPCWrap"):
					if st.IsNil(c.Args[0]) {
						return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Nil()}}}}
					}
					er := e.In.NamedSym("wrapped error", c.Args[0].Typ)
					ok := []eng.Outcome{{Rets: []*eng.Val{er}, Do: func(s *eng.State) { s.Assume(e.Eq(er, e.In.Nil()), false) }}}
					return &eng.Result{Outcomes: ok}
				case strings.HasSuffix(n, "storage."+op.method):
					q := c.Args[len(c.Args)-1]
					for _, f := range op.fields {
						r.Check(q == req || ofParam(resultField(st, q, f), req, f), "forwarded", name+": "+f, c.Pos(), st, "%s: the %s of the request does not get to the storage", name, f)
					}
					if root.Name() == "DeleteLogs" {
						m, known := st.Eval(resultField(st, q, "MarkOnly"))
						r.Check(known && m, "forwarded", name+": MarkOnly", c.Pos(), st, "%s removes the logs for good while they are in use, it must only mark them", name)
					}
					if root.Name() == "CountRecords" {
						return nil
					}
					sig := c.Common.Signature().Results()
					var good, bad []*eng.Val
					for i := 0; i < sig.Len()-1; i++ {
						x := e.In.NamedSym("result "+itoa(i)+" of the storage", sig.At(i).Type())
						good, bad = append(good, x), append(bad, e.In.Zero(sig.At(i).Type()))
					}
					er := e.In.NamedSym("storage error", sig.At(sig.Len()-1).Type())
					return &eng.Result{Outcomes: []eng.Outcome{
						{Rets: append(append([]*eng.Val{}, good...), e.In.Nil()), Do: func(s *eng.State) {
							k := s.Get("asked")
							s.Set("asked", k+"+", good...)
						}},
						{Rets: append(bad, er), Do: func(s *eng.State) { s.Assume(e.Eq(er, e.In.Nil()), false) }},
					}}
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if v, ok := c.Instr.(ssa.Value); ok && root.Name() == "CountRecords" && strings.HasSuffix(c.Name(), "storage."+op.method) {
					sums = append(sums, v)
					k := st.Get("asked")
					st.Set("asked", (k + "++")[:min(len(k)+1, 2)], rets...)
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				if !st.IsNil(rets[1]) {
					return
				}
				t, ok := st.TS["asked"]
				if root.Name() == "CountRecords" {
					for i, f := range []string{"Total", "Count"} {
						x := lib.Strip(resultField(st, rets[0], f))
						r.Check(sumOf(st, x, sums, i, len(t.S) > 0), "counted", name+": "+f, pos, st, "%s: the %s is not the sum over the logs: %s", name, f, x)
					}
					return
				}
				r.Check(ok && len(t.S) == 1, "forwarded", name+": once", pos, st, "%s reports success, but the storage was asked %d times", name, len(t.S))
				if ok {
					r.Check(rets[0] == t.V[0], "forwarded", name+": answer", pos, st, "%s does not give out the answer of the storage: %s", name, rets[0])
				}
			},
		}
	}
	j.Do(nil)
	r.Floor("forwarded", 14)
	r.Floor("counted", 2)
}

// sumOf tells that x is the sum of the results of the calls.
func sumOf(st *eng.State, x *eng.Val, calls []ssa.Value, result int, some bool) bool {
	var isSum func(v ssa.Value, d int) bool
	isSum = func(v ssa.Value, d int) bool {
		ph, ok := v.(*ssa.Phi)
		if !ok || d > 3 {
			return false
		}
		steps := 0
		for _, ed := range ph.Edges {
			switch y := ed.(type) {
			case *ssa.Const:
				if y.Int64() != 0 {
					return false
				}
			case *ssa.BinOp:
				a, b := y.X, y.Y
				if b == ssa.Value(ph) {
					a, b = b, a
				}
				ex, isEx := b.(*ssa.Extract)
				if cv, isCv := b.(*ssa.Convert); isCv {
					ex, isEx = cv.X.(*ssa.Extract)
				}
				if y.Op != token.ADD || a != ssa.Value(ph) || !isEx || ex.Index != result {
					return false
				}
				found := false
				for _, c := range calls {
					found = found || ex.Tuple == c
				}
				if !found {
					return false
				}
				steps++
			default:
				return false
			}
		}
		return steps > 0
	}
	l := lib.Linear(x)
	if l.IsConst() {
		return l.C == 0 && !some
	}
	if l.C != 0 {
		return false
	}
	for v, k := range l.Coef {
		v = lib.Strip(v)
		if t := st.TS["asked"]; k != 1 || len(t.V) == 3 && v == lib.Strip(t.V[1-result]) {
			return false
		}
		if t := st.TS["asked"]; len(t.S) > 1 && hasVal(t.V, v) && len(l.Coef) == 1 {
			return false // the last one only
		}
		if v.K == eng.KSym {
			if ph, ok := v.Ref.(*ssa.Phi); ok {
				if !isSum(ph, 0) {
					return false
				}
				continue
			}
		}
	}
	return true
}
