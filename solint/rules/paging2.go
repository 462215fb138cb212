package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// ofParam: the value is the field of the parameter.
func ofParam(v, param *eng.Val, field string) bool {
	v = lib.Strip(v)
	if v.K == eng.KFld {
		return v.Name == field && v.Args[0] == param
	}
	if v.K == eng.KLoad && v.Args[0].K == eng.KField {
		return v.Args[0].Name == field && v.Args[0].Args[0] == param
	}
	// a getter of the generated code
	return v.K == eng.KCall && strings.HasSuffix(v.Name, ".Get"+field) && len(v.Args) == 1 && v.Args[0] == param
}

// boolField evaluates the field of the parameter.
func boolField(st *eng.State, param *eng.Val, field string) (val, known bool) {
	found, b := false, false
	st.EachFact(func(f *eng.Val, v bool) {
		for f.K == eng.KUn && f.Op == token.NOT {
			f, v = f.Args[0], !v
		}
		if ofParam(f, param, field) {
			found, b = true, v
		}
	})
	return b, found
}

// lastOf: the value is the ID of the last element of the list.
func lastOf(st *eng.State, id, list *eng.Val) bool {
	x, k, ok := cutAt(id)
	if !ok || x != list {
		return false
	}
	d := lib.Linear(st.Len(list)).Sub(lib.Linear(k))
	return d.IsConst() && d.C == 1
}

// servicePaging: the API gives out the pages of records and logs and knows
// where the next ones begin.
func servicePaging(p *lib.Prog, r *lib.Report) {
	si := ifaceOf(p, "api/gen/solaris/v1", "ServiceServer")
	if si == nil {
		r.Bad("anchor", "ServiceServer", token.NoPos, nil, "the service interface is not there")
		return
	}
	var roots []*ssa.Function
	for _, f := range implementers(p, []string{apiPkg}, si) {
		switch f.Name() {
		case "QueryRecords", "CountRecords", "QueryLogs":
			roots = append(roots, f)
		}
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != apiPkg }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		req := e.In.Param(root, 2)
		recordsQuery := func(st *eng.State, v *eng.Val, pos token.Pos, how string) {
			for _, m := range [][2]string{{"Condition", "Condition"}, {"Descending", "Descending"}, {"StartID", "StartRecordID"}, {"Limit", "Limit"}} {
				f := resultField(st, v, m[0])
				if m[0] == "Limit" && root.Name() == "CountRecords" {
					continue
				}
				r.Check(ofParam(f, req, m[1]), "asks-for-what-was-asked", name+": "+how+" "+m[0], pos, st, "%s: the %s of the request (%s) does not get to the storage: %s", name, m[1], m[0], f.String())
			}
		}
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind == eng.CKDefer {
					return nil
				}
				if c.Common.IsInvoke() && c.Common.Method.Pkg() != nil && strings.HasSuffix(c.Common.Method.Pkg().Path(), "container/iterable") {
					return &eng.Result{Opaque: true}
				}
				switch n := c.Name(); {
				case strings.HasSuffix(n, "storage.Log).QueryRecords"), strings.HasSuffix(n, "storage.Log).CountRecords"):
					recordsQuery(st, c.Args[len(c.Args)-1], c.Pos(), c.Common.Method.Name())
				case strings.HasSuffix(n, "storage.Logs).QueryLogs"):
					q := c.Args[len(c.Args)-1]
					cond := "LogsCondition"
					if root.Name() == "QueryLogs" {
						cond = "Condition"
						for _, m := range [][2]string{{"Page", "PageID"}, {"Limit", "Limit"}} {
							f := resultField(st, q, m[0])
							r.Check(ofParam(f, req, m[1]), "asks-for-what-was-asked", name+": QueryLogs "+m[0], c.Pos(), st, "%s: the %s of the request does not get to the storage: %s", name, m[1], f.String())
						}
					}
					f := resultField(st, q, "Condition")
					r.Check(ofParam(f, req, cond), "asks-for-what-was-asked", name+": QueryLogs Condition", c.Pos(), st, "%s: the %s of the request does not get to the storage: %s", name, cond, f.String())
					d, known := st.Eval(resultField(st, q, "Deleted"))
					r.Check(known && !d, "asks-for-what-was-asked", name+": QueryLogs Deleted", c.Pos(), st, "%s asks for deleted logs", name)
				case n == "builtin.append" && len(c.Args) > 1:
					for _, v := range st.VarArgs(c.Args[1]) {
						st.Del("got:" + itoa(lib.Strip(v).ID))
					}
				case c.Fn != nil && strings.HasSuffix(n, ".Init") && len(c.Args) == 4 && strings.Contains(n, "Mixer"):
					mergeOrder(r, name, st, c, req)
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				n := c.Name()
				if c.Common.IsInvoke() {
					n = "." + c.Common.Method.Name()
					if strings.Contains(c.Name(), "storage.") {
						n = c.Name()
					}
				}
				switch {
				case strings.HasSuffix(n, "storage.Log).QueryRecords"):
					st.Set("page", "", rets...)
				case strings.HasSuffix(n, "storage.Logs).QueryLogs"):
					st.Set("listed", "", rets...)
				case strings.HasSuffix(n, ".Next") && len(rets) == 2 && c.Common.IsInvoke():
					st.Set("next:"+itoa(rets[1].ID), "", rets[0])
					st.Del("drained")
				case strings.HasSuffix(n, ".HasNext") && len(rets) == 1 && c.Common.IsInvoke():
					st.Set("has:"+itoa(rets[0].ID), "")
				}
			},
			Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
				c := cond
				for c.K == eng.KUn && c.Op == token.NOT {
					c, taken = c.Args[0], !taken
				}
				if t, ok := st.TS["next:"+itoa(c.ID)]; ok {
					if taken {
						st.Set("got:"+itoa(t.V[0].ID), "", t.V[0])
					} else {
						st.Set("drained", "")
					}
				}
				if st.Has("has:"+itoa(c.ID)) && !taken {
					st.Set("drained", "")
				}
			},
			Store: func(st *eng.State, fr *eng.Frame, addr, v *eng.Val, in ssa.Instruction) {
				if addr.K == eng.KField && v.Typ != nil && strings.HasSuffix(lib.TypeKey(v.Typ), "storage.QueryRecordsRequest") {
					recordsQuery(st, v, in.Pos(), "merged")
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				if st.IsNil(rets[0]) {
					return
				}
				if t, ok := st.TS["listed"]; ok {
					if root.Name() == "QueryLogs" {
						r.Check(rets[0] == t.V[0], "page-as-is", name, pos, st, "%s does not give out the page of the storage as it is", name)
					} else {
						empty, known := emptyKnown(st, resultField(st, t.V[0], "NextPageID"))
						r.Check(known && empty, "no-more-logs", name, pos, st, "%s goes on though there may be more logs than it has got", name)
					}
				}
				if root.Name() != "QueryRecords" {
					return
				}
				L, N := resultField(st, rets[0], "Records"), resultField(st, rets[0], "NextPageID")
				empty, ek := emptyKnown(st, N)
				isEmpty := ek && empty
				if t, ok := st.TS["page"]; ok { // of one log
					res, more := t.V[0], t.V[1]
					r.Check(L == res, "page-as-is", name, pos, st, "%s does not give out the records it has got", name)
					if isEmpty {
						m, known := st.Eval(more)
						none, nk := st.Eval(e.Eq(st.Len(res), e.In.Int(0)))
						if lo, hi := st.Bounds(st.Len(res)); !nk && hi != nil && *hi <= 0 {
							_, none, nk = lo, true, true
						}
						r.Check(known && !m || nk && none, "no-next-page-means-all", name, pos, st, "%s tells that there are no more records though there may be", name)
						return
					}
					desc, dk := boolField(st, req, "Descending")
					good := false
					if N.K == eng.KCall || N.K == eng.KSym {
						var fn string
						var arg *eng.Val
						if n, ok := st.TS["id:"+itoa(N.ID)]; ok {
							fn, arg = n.S, n.V[0]
						}
						good = arg != nil && lastOf(st, arg, res) && dk && (fn == "golibs/ulidutils.NextID" && !desc || fn == "golibs/ulidutils.PrevID" && desc)
					}
					r.Check(good, "next-page", name, pos, st, "%s: the next page does not begin right behind the last record: %s", name, N.String())
					return
				}
				if _, ok := st.TS["merged"]; !ok && !st.Has("drained") && len(st.KeysPrefix("got:")) == 0 && isEmpty {
					r.Check(false, "no-next-page-means-all", name, pos, st, "%s tells that there are no more records though there may be", name)
					return
				}
				for _, k := range st.KeysPrefix("got:") {
					v := st.TS[k].V[0]
					r.Check(isIDOf(N, v), "none-lost", name, pos, st, "%s takes a record and neither gives it out nor begins the next page with it", name)
				}
				if isEmpty {
					r.Check(st.Has("drained"), "no-next-page-means-all", name, pos, st, "%s tells that there are no more records though there may be", name)
				} else {
					ok := false
					for _, k := range st.KeysPrefix("got:") {
						ok = ok || isIDOf(N, st.TS[k].V[0])
					}
					r.Check(ok, "next-page", name, pos, st, "%s: the next page does not begin with the first record not given out: %s", name, N.String())
				}
			},
		}
	}
	inner := j.Hooks
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		h := inner(e, root)
		after := h.After
		h.After = func(st *eng.State, c *eng.Call, rets []*eng.Val) {
			if n := c.Name(); n == "golibs/ulidutils.NextID" || n == "golibs/ulidutils.PrevID" {
				st.Set("id:"+itoa(rets[0].ID), n, c.Args[0])
			}
			after(st, c, rets)
		}
		return h
	}
	j.Do(nil)
	r.Floor("next-page", 2)
	r.Floor("no-next-page-means-all", 2)
	r.Floor("asks-for-what-was-asked", 10)
}

func isIDOf(n, rec *eng.Val) bool {
	n = lib.Strip(n)
	return n.K == eng.KLoad && n.Args[0].K == eng.KField && n.Args[0].Name == "ID" && n.Args[0].Args[0] == rec || n.K == eng.KFld && n.Name == "ID" && n.Args[0] == rec
}

// mergeOrder: the logs are merged in the order asked for.
func mergeOrder(r *lib.Report, name string, st *eng.State, c *eng.Call, req *eng.Val) {
	desc, known := boolField(st, req, "Descending")
	f := lib.Strip(c.Args[1])
	dir := ""
	if f.Fn != nil {
		dir = idOrder(f.Fn)
	}
	want := "ascending"
	if desc {
		want = "descending"
	}
	r.Check(known && dir == want, "merged-in-order", name, c.Pos(), st, "%s merges the logs by %s order when %s is asked for", name, dir, want)
}

// idOrder tells the order a comparison of two elements by their IDs has.
func idOrder(f *ssa.Function) string {
	if len(f.Blocks) != 1 || len(f.Params) != 2 {
		return "?"
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return "?"
	}
	side := func(v ssa.Value) int {
		for i, pa := range f.Params {
			if fieldReadOf(v, "ID") == ssa.Value(pa) {
				return i + 1
			}
		}
		return 0
	}
	b, ok := ret.Results[0].(*ssa.BinOp)
	if !ok {
		return "?"
	}
	x, y := b.X, b.Y
	op := b.Op
	if cl, ok := x.(*ssa.Call); ok && len(cl.Call.Args) == 2 && strings.HasSuffix(lib.CallName(cl), ".Compare") {
		if k, ok := y.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
			x, y = cl.Call.Args[0], cl.Call.Args[1]
		}
	}
	i, k := side(x), side(y)
	if i*k != 2 {
		return "?"
	}
	less := op == token.LSS || op == token.LEQ
	if !less && op != token.GTR && op != token.GEQ {
		return "?"
	}
	if less == (i == 1) {
		return "ascending"
	}
	return "descending"
}

// fieldReadOf: v reads the field of some value; that value.
func fieldReadOf(v ssa.Value, field string) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name() == field {
			return fa.X
		}
	}
	if f, ok := v.(*ssa.Field); ok && fieldName(f) == field {
		return f.X
	}
	if c, ok := v.(*ssa.Call); ok && len(c.Call.Args) == 1 && strings.HasSuffix(lib.CallName(c), ".Get"+field) {
		return c.Call.Args[0]
	}
	return nil
}
