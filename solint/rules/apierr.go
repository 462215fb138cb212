package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

const errPkg = "golibs/errors"

// kinds: what each kind of error must look like for a gRPC client.
var kinds = map[string]int64{
	"ErrExist": 6, "ErrNotExist": 5, "ErrInvalid": 3, "ErrNotAuthorized": 7, "ErrInternal": 13, "ErrDataLoss": 15,
	"ErrExhausted": 8, "ErrUnimplemented": 12, "ErrConflict": 9, "ErrCanceled": 1,
}

// pairsOf reads the content of a package level table (map, or list of pairs)
// from the package initialiser.
func pairsOf(p *lib.Prog, g *ssa.Global) map[string]string {
	res := map[string]string{}
	name := func(v ssa.Value) string {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.Convert:
				v = x.X
				continue
			case *ssa.Const:
				if x.Value == nil {
					return "nil"
				}
				return x.Value.ExactString()
			case *ssa.UnOp:
				if gg, ok := x.X.(*ssa.Global); ok {
					return gg.Name()
				}
			}
			return "?"
		}
	}
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(f.Name(), "init") {
			continue
		}
		src := map[ssa.Value]bool{}
		eachInstr(f, func(in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				v := s.Val
				if sl, ok := v.(*ssa.Slice); ok {
					v = sl.X
				}
				src[v] = true
			}
		})
		type row struct{ k, v string }
		rows := map[ssa.Value]map[int]string{}
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if src[x.Map] {
					res[name(x.Key)] = name(x.Value)
				}
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if ia, ok := fa.X.(*ssa.IndexAddr); ok && (src[ia.X] || ia.X == ssa.Value(g)) {
						if rows[ia] == nil {
							rows[ia] = map[int]string{}
						}
						rows[ia][fa.Field] = name(x.Val)
					}
				}
			}
		})
		for _, r := range rows {
			a, b := r[0], r[1]
			if strings.HasPrefix(b, "Err") {
				res[a], res[b] = b, a
			} else {
				res[a] = b
			}
		}
	}
	return res
}

func eachInstr(f *ssa.Function, do func(in ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			do(in)
		}
	}
}

// tableOf finds the package level variable an abstract value was taken from.
func tableOf(v *eng.Val) (*ssa.Global, string) {
	var g *ssa.Global
	how := ""
	var from func(x ssa.Value, d int)
	from = func(x ssa.Value, d int) {
		if d > 10 || g != nil || x == nil {
			return
		}
		switch x := x.(type) {
		case *ssa.Global:
			g = x
		case *ssa.UnOp:
			from(x.X, d+1)
		case *ssa.Lookup:
			how = "lookup"
			from(x.X, d+1)
		case *ssa.Next:
			how = "range"
			from(x.Iter, d+1)
		case *ssa.Range:
			from(x.X, d+1)
		case *ssa.Extract:
			from(x.Tuple, d+1)
		case *ssa.IndexAddr:
			how = "range"
			from(x.X, d+1)
		case *ssa.FieldAddr:
			from(x.X, d+1)
		case *ssa.Field:
			from(x.X, d+1)
		}
	}
	v.Walk(func(y *eng.Val) bool {
		if y.K == eng.KGlobal && g == nil {
			if gl, ok := y.Ref.(*ssa.Global); ok {
				g = gl
			}
		}
		if y.K == eng.KIndex || y.K == eng.KIdx {
			how = "range"
		}
		if y.Ref != nil && g == nil {
			from(y.Ref, 0)
		}
		return true
	})
	return g, how
}

func sentinels(p *lib.Prog) map[string]*ssa.Global {
	res := map[string]*ssa.Global{}
	if sp := p.SSAPkg(errPkg); sp != nil {
		for n, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && strings.HasPrefix(n, "Err") && g.Type().(*types.Pointer).Elem().String() == "error" {
				res[n] = g
			}
		}
	}
	return res
}

// grpcTables decides the translation between kinds and gRPC codes.
func grpcTables(p *lib.Prog, r *lib.Report) {
	sent := sentinels(p)
	names := []string{}
	for n := range sent {
		names = append(names, n)
	}
	sort.Strings(names)
	toCode, toErr := map[string]string{}, map[string]string{}
	put := func(m map[string]string, k, v, site string, pos token.Pos, st *eng.State) {
		if old, ok := m[k]; ok && old != v {
			r.Bad("kind-table", site+": "+k, pos, st, "%s is translated both to %s and to %s", k, old, v)
			return
		}
		m[k] = v
	}
	kindOf := func(st *eng.State, v *eng.Val) string {
		for _, n := range names {
			if globalVal(st, sent[n]) == v {
				return n
			}
		}
		return ""
	}
	nextOk := func(st *eng.State) (exhausted bool) {
		exhausted = true
		for _, k := range st.KeysPrefix("next:") {
			if st.TS[k].S == "more" {
				exhausted = false
			}
		}
		return
	}
	type fnSpec struct {
		name string
		do   func(st *eng.State, root *ssa.Function, ret *eng.Val)
	}
	isCode := func(v *eng.Val) bool { // status.Code(err)
		v = lib.Strip(v)
		return v.K == eng.KCall && strings.HasSuffix(v.Name, "grpc/status.Code") || v.K == eng.KSym && callOf(v) == "google.golang.org/grpc/status.Code"
	}
	statusCode := func(st *eng.State, root *ssa.Function, ret *eng.Val) {
		name := lib.Name(root)
		errv := st.E.In.Param(root, 0)
		ret = lib.Strip(ret)
		is := func(n string) bool {
			b, ok := st.Eval(st.E.In.Node(eng.KCall, 0, "errors.Is", types.Typ[types.Bool], errv, globalVal(st, sent[n])))
			return ok && b
		}
		if isCode(ret) {
			b, ok := st.Eval(st.E.Eq(ret, st.E.In.Int(2)))
			r.Check(ok && !b, "grpc-code", name+": code of a status error", root.Pos(), st, "%s returns the gRPC code of an error that is not a gRPC status error", name)
			return
		}
		if n, ok := eng.ConstInt(ret); ok {
			hit := false
			for _, x := range names {
				if is(x) {
					hit = true
					put(toCode, x, itoa(int(n)), name, root.Pos(), st)
				}
			}
			if !hit && !st.IsNil(errv) {
				r.Check(n == 13 && nextOk(st), "grpc-code", name+": code of an unknown error", root.Pos(), st, "%s returns the code %d for an error without looking at all the kinds, or not Internal for an unknown one", name, n)
			}
			return
		}
		g, how := tableOf(ret)
		if g == nil {
			r.Bad("grpc-code", name+": unknown result", root.Pos(), st, "%s returns the code %s whose source is not known", name, ret)
			return
		}
		ok := false
		if how == "lookup" {
			if lk, y := ret.Ref.(*ssa.Lookup); y {
				ok = lookupOK(st, ret, lk)
			}
		} else {
			ok = st.Has("of:" + g.Name())
		}
		r.Check(ok, "grpc-code", name+": code from the table", root.Pos(), st, "%s returns a code of the table for an error that is not of that kind", name)
		for k, v := range pairsOf(p, g) {
			if strings.HasPrefix(k, "Err") {
				put(toCode, k, v, name, root.Pos(), st)
			}
		}
	}
	fromGRPC := func(st *eng.State, root *ssa.Function, ret *eng.Val) {
		name := lib.Name(root)
		if k := kindOf(st, ret); k != "" || st.IsNil(ret) {
			if k == "" {
				k = "nil"
			}
			hit := false
			st.EachFact(func(f *eng.Val, b bool) {
				if b && f.K == eng.KBin && f.Op == token.EQL && isCode(f.Args[0]) {
					if n, ok := eng.ConstInt(f.Args[1]); ok {
						hit = true
						put(toErr, itoa(int(n)), k, name, root.Pos(), st)
					}
				}
			})
			if !hit {
				r.Check(k == "ErrInternal" || k == "nil" && st.IsNil(st.E.In.Param(root, 0)), "grpc-kind", name+": kind of an unknown code", root.Pos(), st, "%s turns an unknown gRPC code into %s", name, k)
				put(toErr, "default", k, name, root.Pos(), st)
			}
			return
		}
		g, how := tableOf(ret)
		ok := false
		if lk, y := ret.Ref.(*ssa.Lookup); y && how == "lookup" {
			ok = lookupOK(st, ret, lk)
		} else if how == "range" {
			ok = st.Has("same")
		}
		r.Check(ok && g != nil, "grpc-kind", name+": kind from the table", root.Pos(), st, "%s returns an error of the table for another gRPC code", name)
		if g != nil {
			for k, v := range pairsOf(p, g) {
				if !strings.HasPrefix(k, "Err") {
					put(toErr, k, v, name, root.Pos(), st)
				}
			}
		}
	}
	wrap := func(st *eng.State, root *ssa.Function, ret *eng.Val) {
		name := lib.Name(root)
		errv := st.E.In.Param(root, 0)
		if ret == errv {
			// known not to be Unknown: nil or already a status error
			ok := st.IsNil(errv) || st.AnyFact(func(f *eng.Val, b bool) bool {
				if b || f.K != eng.KBin || f.Op != token.EQL || !isCode(f.Args[0]) {
					return false
				}
				n, isC := eng.ConstInt(f.Args[1])
				return isC && n == 2
			})
			r.Check(ok, "grpc-wrap", name+": error as it is", root.Pos(), st, "%s returns an error which is not a gRPC status error as it is", name)
			return
		}
		if st.IsNil(ret) {
			r.Check(st.IsNil(errv), "grpc-wrap", name+": nil", root.Pos(), st, "%s drops the error", name)
			return
		}
		ok := ret.K == eng.KCall && ret.Name == "status" && len(ret.Args) > 0 && lib.Strip(ret.Args[0]).K == eng.KSym && callOf(lib.Strip(ret.Args[0])) == errPkg+".GRPCStatusCode"
		r.Check(ok, "grpc-wrap", name+": new status", root.Pos(), st, "%s does not make the status error from the code of the kind", name)
	}
	is := func(st *eng.State, root *ssa.Function, ret *eng.Val) {
		name := lib.Name(root)
		direct, viaCode := "", ""
		ev := func(n *eng.Val) string {
			if b, ok := st.Eval(n); ok {
				if b {
					return "t"
				}
				return "f"
			}
			return ""
		}
		errv, tgt := st.E.In.Param(root, 0), st.E.In.Param(root, 1)
		viaN := (*eng.Val)(nil)
		look := func(f *eng.Val) {
			if f.K == eng.KCall && f.Name == "errors.Is" && f.Args[1] == tgt && callOf(f.Args[0]) == errPkg+".FromGRPCError" {
				viaN = f
			}
		}
		st.EachFact(func(f *eng.Val, b bool) { look(f) })
		ret.Walk(func(x *eng.Val) bool { look(x); return true })
		dN := st.E.In.Node(eng.KCall, 0, "errors.Is", types.Typ[types.Bool], errv, tgt)
		direct = ev(dN)
		if viaN != nil {
			viaCode = ev(viaN)
		}
		ok := false
		if b, isC := constBool(ret); isC {
			if b {
				ok = direct == "t" || viaCode == "t"
			} else {
				ok = direct == "f" && viaCode == "f"
			}
		} else if ret == viaN {
			ok = direct == "f"
		} else if ret == dN {
			ok = viaCode == "f"
		}
		r.Check(ok, "grpc-is", name, root.Pos(), st, "%s must hold exactly when the error is of the kind or its gRPC code means the kind", name)
	}
	for _, s := range []fnSpec{{"GRPCStatusCode", statusCode}, {"FromGRPCError", fromGRPC}, {"GRPCWrap", wrap}, {"Is", is}} {
		f := r.Need(errPkg + "." + s.name)
		if f == nil {
			continue
		}
		do := s.do
		j := &lib.Job{P: p, R: r, Roots: []*ssa.Function{f}, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool {
			n := lib.Name(g)
			return n == errPkg+".GRPCStatusCode" || n == errPkg+".FromGRPCError"
		}}
		j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
			return eng.Hooks{
				Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
					for cond.K == eng.KUn && cond.Op == token.NOT {
						cond, taken = cond.Args[0], !taken
					}
					if cond.K == eng.KCall && cond.Name == "errors.Is" && cond.Args[0] == e.In.Param(root, 0) {
						if g, _ := tableOf(cond.Args[1]); g != nil && taken {
							st.Set("of:"+g.Name(), "")
						}
					}
					if cond.K == eng.KBin && cond.Op == token.EQL && (isCode(cond.Args[0]) || isCode(cond.Args[1])) && taken {
						st.Set("same", "")
					}
					if lk, ok := cond.Ref.(*ssa.Lookup); ok && lk.CommaOk && taken {
						st.Set("found:"+lk.Name(), "")
					}
					if ex, ok := in.Cond.(*ssa.Extract); ok && ex.Index == 0 {
						if _, ok := ex.Tuple.(*ssa.Next); ok {
							s := "end"
							if taken {
								s = "more"
							}
							st.Set("next:"+ex.Name(), s)
						}
					}
				},
				Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) { do(st, root, rets[0]) },
			}
		}
		j.Do(nil)
	}
	for k, c := range kinds {
		if sent[k] == nil {
			r.Bad("anchor", errPkg+"."+k, token.NoPos, nil, "the error kind %s is not there", k)
			continue
		}
		code := toCode[k]
		if code == "" && k == "ErrInternal" {
			code = "13"
		}
		r.Check(code == itoa(int(c)), "kind-table", "code of "+k, sent[k].Pos(), nil, "the gRPC code of %s is %q, it must be %d", k, code, c)
		back, ok := toErr[itoa(int(c))]
		if !ok {
			back = toErr["default"]
			if back == "" {
				back = "ErrInternal"
			}
		}
		r.Check(back == k, "kind-table", "kind of code "+itoa(int(c)), sent[k].Pos(), nil, "a client decodes the gRPC code of %s as %s", k, back)
	}
	for _, n := range names {
		if _, ok := kinds[n]; !ok && toCode[n] == "" {
			r.Note("%s has no gRPC code, it is reported as an internal error", n)
		}
	}
	if v, ok := toErr["0"]; ok {
		r.Check(v == "nil", "kind-table", "kind of code 0", token.NoPos, nil, "the gRPC code OK is decoded as %s", v)
	}
}

func constBool(v *eng.Val) (bool, bool) {
	if v.K == eng.KConst && v.Const.Kind() == constant.Bool {
		return constant.BoolVal(v.Const), true
	}
	return false, false
}

// callOf is the name of the function whose result v is.
func callOf(v *eng.Val) string {
	if v.K == eng.KCall {
		return v.Name
	}
	if v.K == eng.KSym && v.Ref != nil {
		if c, ok := v.Ref.(*ssa.Call); ok {
			return lib.CallName(c)
		}
	}
	return ""
}

// lookupOK: the presence of the looked up key is known on the path.
func lookupOK(st *eng.State, v *eng.Val, lk *ssa.Lookup) bool {
	if !lk.CommaOk {
		return st.IsNonNil(v)
	}
	return st.Has("found:" + lk.Name())
}

func globalVal(st *eng.State, g *ssa.Global) *eng.Val {
	return st.Load(st.E.In.Global(g), g.Type().(*types.Pointer).Elem())
}
