package rules

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// predLeaf is the predicate of a node or of a list of nodes from an index on.
type predLeaf struct {
	kind string
	node *eng.Val
	from int64
}

// predField finds the predicate a builder leaves in its receiver.
func predField(f *ssa.Function) (name string, t types.Type) {
	if f.Signature.Recv() == nil {
		return "", nil
	}
	pt, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer)
	if !ok {
		return "", nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if isPredicate(s.Field(i).Type()) {
			return s.Field(i).Name(), s.Field(i).Type()
		}
	}
	return "", nil
}

// evalTree: the predicate built of a condition is the OR of the ANDs of its
// parts, negated where the condition is, and compares what it says.
func evalTree(p *lib.Prog, r *lib.Report) {
	kind := map[*ssa.Function]string{}
	values := map[*ssa.Function]bool{}
	var roots []*ssa.Function
	found := map[string]bool{}
	var like *ssa.Function
	for _, f := range p.InPkg(qlp) {
		sig := f.Signature
		n := sig.Results().Len()
		if n == 1 && f.Parent() == nil && isBoolT(sig.Results().At(0).Type()) && sig.Params().Len() >= 2 && sig.Recv() == nil && isStr(sig.Params().At(0).Type()) && isStr(sig.Params().At(1).Type()) {
			like = f
		}
		ai, k := astParam(f)
		if ai < 0 || f.Parent() != nil || len(f.Blocks) == 0 || n == 0 || sig.Results().At(n-1).Type().String() != "error" {
			continue
		}
		if k == "Param" && n == 2 && isValueFn(sig.Results().At(0).Type()) {
			values[f] = true
			continue
		}
		fld, _ := predField(f)
		if fld != "" && n == 1 && builderArg(f) < 0 || n == 2 && isPredicate(sig.Results().At(0).Type()) {
			kind[f] = k
			found[strings.TrimPrefix(k, "[]")] = true
			roots = append(roots, f)
		}
	}
	for _, n := range []string{"Expression", "OrCondition", "XCondition", "Condition"} {
		if !found[n] {
			r.Bad("anchor", "evaluator: "+n, token.NoPos, nil, "no function of %s builds the predicate of: %s", qlp, n)
		}
	}
	memo := map[*ssa.Function]*predicate{}
	var mu sync.Mutex // the roots are walked at the same time
	shape := func(f *ssa.Function) *predicate {
		mu.Lock()
		defer mu.Unlock()
		if memo[f] == nil {
			memo[f] = predicateOf(p, r, f, like)
		}
		return memo[f]
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool {
		return lib.PkgOf(g) != qlp || kind[g] != "" || values[g] || g == like || strings.HasSuffix(lib.Name(g), "Param).Name") || strings.HasSuffix(lib.Name(g), "Param).ID") || strings.HasSuffix(lib.Name(g), ").check")
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		ai, node := astParam(root)
		in := e.In.Param(root, ai)
		leaves := map[*eng.Val]predLeaf{}
		vals := map[*eng.Val]string{} // values of the parameters of the condition
		str := types.Typ[types.String]
		cs := func(s string) *eng.Val { return e.In.Const(constantString(s), str) }
		fieldAddr := func(recv *eng.Val, f *ssa.Function) (*eng.Val, types.Type) {
			n, t := predField(f)
			return e.In.Node(eng.KField, 0, n, types.NewPointer(t), recv), t
		}
		leafOf := func(st *eng.State, k string, a *eng.Val) predLeaf {
			switch k {
			case "Expression":
				return predLeaf{"[]OrCondition", resultField(st, a, "Or"), 0}
			case "OrCondition":
				return predLeaf{"[]XCondition", resultField(st, a, "And"), 0}
			case "[]OrCondition", "[]XCondition":
				if a.K == eng.KSlice && a.Args[1].K != eng.KNil && a.Args[2].K == eng.KNil {
					if n, ok := eng.ConstInt(a.Args[1]); ok {
						return predLeaf{k, a.Args[0], n}
					}
				}
			}
			return predLeaf{k, a, 0}
		}
		// captured is the content of a captured variable
		captured := func(st *eng.State, c *eng.Val, i int) *eng.Val {
			return st.Load(c.Args[i], ptrElem(c.Args[i].Typ))
		}
		// flatten finds the parts combined by the operation
		var flatten func(st *eng.State, f *eng.Val, op string) ([]predLeaf, bool)
		flatten = func(st *eng.State, f *eng.Val, op string) (res []predLeaf, ok bool) {
			f = lib.Strip(f)
			if l, isLeaf := leaves[f]; isLeaf {
				return []predLeaf{l}, true
			}
			if (f.K != eng.KClosure && f.K != eng.KFunc) || f.Fn == nil {
				return nil, false
			}
			o, of := shape(f.Fn).logic()
			if o == "true" && op == "and" || o == "false" && op == "or" {
				return nil, true
			}
			if o != "same" && o != op || o == "" {
				return nil, false
			}
			for _, i := range of {
				x, ok := flatten(st, captured(st, f, i), op)
				if !ok {
					return nil, false
				}
				res = append(res, x...)
			}
			return res, true
		}
		opConst := func(st *eng.State) (string, bool) { t, ok := st.TS["op"]; return t.S, ok }
		return eng.Hooks{
			Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
				for cond.K == eng.KUn && cond.Op == token.NOT {
					cond, taken = cond.Args[0], !taken
				}
				if ofParam(cond, in, "Not") {
					st.Set("not", map[bool]string{true: "1", false: ""}[taken])
				}
				if cond.K != eng.KBin || cond.Op != token.EQL || !taken {
					return
				}
				for k := 0; k < 2; k++ {
					x, c := bare(cond.Args[k]), cond.Args[1-k]
					s, ok := eng.ConstString(c)
					if !ok {
						continue
					}
					for x.K == eng.KCall && x.Name == "strings.ToUpper" {
						x = lib.Strip(x.Args[0])
					}
					if ofParam(x, in, "Op") {
						st.Set("op", s)
					} else if vals[x] != "" {
						st.Set("is:"+vals[x], s)
					}
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind == eng.CKDefer {
					return nil
				}
				sig := c.Common.Signature()
				res := sig.Results()
				failed := func(rets ...*eng.Val) eng.Outcome {
					er := e.In.NamedSym("failed", res.At(res.Len()-1).Type())
					return eng.Outcome{Rets: append(rets, er), Do: func(s *eng.State) { s.Assume(e.Eq(er, e.In.Nil()), false) }}
				}
				if c.Name() == "strings.ToUpper" {
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Node(eng.KCall, 0, c.Name(), str, c.Args[0])}}}}
				}
				if k := kind[c.Fn]; k != "" {
					i, _ := astParam(c.Fn)
					l := leafOf(st, k, c.Args[i])
					sym := e.In.NamedSym("predicate of "+l.kind+" "+itoa(l.node.ID)+"+"+itoa(int(l.from)), nil)
					leaves[sym] = l
					if res.Len() == 2 {
						return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{sym, e.In.Nil()}}, failed(e.In.Nil())}}
					}
					addr, _ := fieldAddr(c.Args[0], c.Fn)
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Nil()}, Do: func(s *eng.State) { s.Store(addr, sym) }}, failed()}}
				}
				if node == "Condition" {
					isVal := values[c.Fn]
					isConst := c.Fn == nil && c.FnVal != nil && fieldIs(c.FnVal, "ValueF")
					if !isVal && !isConst {
						return nil
					}
					var a *eng.Val
					if isVal {
						i, _ := astParam(c.Fn)
						a = c.Args[i]
					} else {
						a = c.Args[0]
					}
					which := "another parameter"
					if isCopyOf(st, a, in, "FirstParam") {
						which = "first"
					} else if ofParam(a, in, "SecondParam") {
						which = "second"
					}
					if isConst {
						which = "constant " + which
					}
					sym := e.In.NamedSym("value of "+which+" "+itoa(a.ID), res.At(0).Type())
					vals[sym] = which
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{sym, e.In.Nil()}}, failed(e.In.Nil())}}
				}
				return nil
			},
			Exit: func(st *eng.State, rets []*eng.Val, i ssa.Instruction) {
				pos := eng.InstrPos(i)
				if !st.IsNil(rets[len(rets)-1]) {
					return
				}
				var f *eng.Val
				if len(rets) == 2 {
					f = rets[0]
				} else {
					addr, t := fieldAddr(e.In.Param(root, 0), root)
					f = st.Load(addr, t)
				}
				f = lib.Strip(f)
				switch node {
				case "Expression", "OrCondition", "[]OrCondition", "[]XCondition":
					if _, isPtr := in.Typ.Underlying().(*types.Pointer); isPtr && st.IsNil(in) {
						// no expression: everything matches
						r.Check(isLogic(shape, f, "true"), "predicate", name+": nothing", pos, st, "%s: nothing is asked for, but not everything matches", name)
						return
					}
					l := leafOf(st, node, in)
					op := map[string]string{"[]OrCondition": "or", "[]XCondition": "and"}[l.kind]
					if b, known := st.Eval(e.Eq(st.Len(l.node), e.In.Int(0))); known && b {
						r.Check(isLogic(shape, f, "true") || leaves[f] == l, "predicate", name+": nothing", pos, st, "%s: no condition, but not everything matches", name)
						return
					}
					ls, ok := flatten(st, f, op)
					if !ok {
						r.Check(false, "predicate", name+": "+op, pos, st, "%s does not combine the parts by %s: %s", name, op, strings.ToUpper(op), f)
						return
					}
					// the indexes that are there
					var idx []int64
					rest := int64(-1)
					for _, x := range ls {
						if x == l {
							rest = 0
							continue
						}
						if x.kind == l.kind && x.node == l.node {
							rest = x.from
							continue
						}
						el := x.node
						if x.kind == "[]XCondition" && x.from == 0 && (el.K == eng.KLoad && el.Args[0].K == eng.KField && el.Args[0].Name == "And") {
							el = el.Args[0].Args[0]
						} else if x.kind != "XCondition" {
							ok = false
							continue
						}
						ll, at, isEl := elementIn(st, el)
						n, isConst := int64(0), false
						if isEl {
							n, isConst = eng.ConstInt(at)
						}
						if !isEl || !isConst || ll != l.node {
							ok = false
							continue
						}
						idx = append(idx, n)
					}
					sort.Slice(idx, func(a, b int) bool { return idx[a] < idx[b] })
					next := int64(0)
					for _, n := range idx {
						if n == next {
							next++
						} else if n > next {
							ok = false
						}
					}
					all := rest >= 0 && rest <= next || lib.Entails(st, lib.Lin{C: next}.Sub(lib.Linear(st.Len(l.node))))
					r.Check(ok && all, "predicate", name+": "+op, pos, st, "%s leaves out parts of the condition or takes others (%d of them, the rest from %d)", name, len(idx), rest)
				case "XCondition":
					not := false
					for n := 0; n < 8; n++ {
						if _, isLeaf := leaves[f]; isLeaf || f.Fn == nil || f.K != eng.KClosure {
							break
						}
						o, of := shape(f.Fn).logic()
						if o != "not" && o != "same" {
							break
						}
						not = not != (o == "not")
						f = lib.Strip(captured(st, f, of[0]))
					}
					l, isLeaf := leaves[f]
					good := isLeaf && l.from == 0
					if st.IsNonNil(resultField(st, in, "Expr")) {
						good = good && l.kind == "[]OrCondition" && inField(l.node, in, "Expr", "Or")
					} else {
						good = good && l.kind == "Condition" && ofParam(l.node, in, "Cond")
					}
					r.Check(good, "predicate", name+": part", pos, st, "%s does not give the predicate of its part: %s", name, f)
					t, known := st.TS["not"]
					r.Check(known && (t.S != "") == not, "predicate", name+": NOT", pos, st, "%s negates what is not negated or the other way round", name)
				case "Condition":
					conditionPredicate(r, e, st, pos, name, shape, like, f, vals, captured, func() (string, bool) {
						if b, known := st.Eval(e.Eq(resultField(st, in, "Op"), cs(""))); known && b {
							return "", true
						}
						return opConst(st)
					})
				}
			},
		}
	}
	j.Do(nil)
	r.Floor("predicate", 8)
}

func isLogic(shape func(*ssa.Function) *predicate, f *eng.Val, op string) bool {
	if f.Fn == nil {
		return false
	}
	o, _ := shape(f.Fn).logic()
	return o == op
}

// conditionPredicate: the predicate does what the operator says with the
// values of the parameters.
func conditionPredicate(r *lib.Report, e *eng.Engine, st *eng.State, pos token.Pos, name string, shape func(*ssa.Function) *predicate, like *ssa.Function, f *eng.Val,
	vals map[*eng.Val]string, captured func(st *eng.State, c *eng.Val, i int) *eng.Val, opOf func() (string, bool)) {
	op, known := opOf()
	what := name + ": " + op
	if !known {
		r.Check(false, "predicate", name+": operator", pos, st, "%s does not look at the operator", name)
		return
	}
	if op == "" {
		what = name + ": value"
	}
	if f.Fn == nil {
		r.Check(false, "predicate", what, pos, st, "%s does not give a predicate for the operator %q: %s", name, op, f)
		return
	}
	sh := shape(f.Fn)
	is := func(i int, want string) bool {
		return i >= 0 && f.K == eng.KClosure && vals[bare(captured(st, f, i))] == want
	}
	bad := func(why string) {
		r.Check(false, "predicate", what, pos, st, "%s: the predicate of the operator %q %s%s", name, op, why, map[bool]string{true: " (it " + sh.bad + ")"}[sh.bad != ""])
	}
	ok := func() { r.Ok("predicate", what, pos) }
	switch op {
	case "<", "<=", ">", ">=", "=", "!=":
		got, x, y := sh.comparison()
		mirror := map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "=": "=", "!=": "!="}
		switch {
		case got == "":
			bad("does not compare two values")
		case is(x, "first") && is(y, "second") && got == op || is(x, "second") && is(y, "first") && mirror[got] == op:
			r.Check(sh.failing(), "predicate", what+", no value", pos, st, "%s: the predicate of %q is true when a value cannot be calculated", name, op)
			ok()
		case is(x, "first") && is(y, "second") || is(x, "second") && is(y, "first"):
			bad("compares by another one")
		default:
			bad("compares something else")
		}
	case "IN":
		if v, l := sh.member(); is(v, "first") && is(l, "constant second") {
			ok()
		} else if isLogic(shape, f, "false") && emptyList(st, vals, "constant second") {
			ok()
		} else {
			bad("does not tell whether the value is in the list")
		}
	case "LIKE":
		pat, knownPat := st.TS["is:constant second"]
		if v, l := sh.match(like); is(v, "first") && is(l, "constant second") {
			ok()
		} else if v, s, k := sh.same(); k == "eq" && is(v, "first") && knownPat && s == pat.S && !strings.Contains(s, "%") {
			ok()
		} else if isLogic(shape, f, "true") && knownPat && pat.S != "" && strings.Trim(pat.S, "%") == "" {
			ok()
		} else {
			bad("does not match the value with the pattern")
		}
	case "":
		if v, _, k := sh.same(); k == "bool" && is(v, "first") {
			ok()
		} else {
			bad("is not the value of the parameter")
		}
	default:
		bad("is not known")
	}
}

// emptyList tells that the list of constants is known to be empty.
func emptyList(st *eng.State, vals map[*eng.Val]string, which string) bool {
	found := false
	st.EachFact(func(f *eng.Val, b bool) {
		if b && f.K == eng.KBin && f.Op == token.EQL {
			for k := 0; k < 2; k++ {
				n, ok := eng.ConstInt(f.Args[1-k])
				if x := f.Args[k]; ok && n == 0 && x.K == eng.KLen && vals[bare(x.Args[0])] == which {
					found = true
				}
			}
		}
	})
	return found
}

// bare removes conversions and type assertions.
func bare(v *eng.Val) *eng.Val {
	for {
		x := lib.Strip(v)
		if x.K == eng.KTA {
			x = x.Args[0]
		} else if x.K == eng.KExtract && x.Name == "0" && x.Args[0].K == eng.KTA {
			x = x.Args[0].Args[0]
		}
		if x == v {
			return v
		}
		v = x
	}
}
