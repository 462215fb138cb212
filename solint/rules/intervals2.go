package rules

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

func isIntervals(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isInterval(s.Elem())
}

func isIntervalGroups(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isIntervals(s.Elem())
}

// astName returns the name of the node of the syntax tree a type points to.
func astName(t types.Type) string {
	k := lib.TypeKey(ptrElem(t))
	for _, n := range []string{"Expression", "OrCondition", "XCondition", "Condition"} {
		if k == qlp+"."+n {
			return n
		}
	}
	return ""
}

// astArg returns the index of the parameter that is a node of the tree.
func astArg(f *ssa.Function) (int, string) {
	for i, p := range f.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && pt != nil {
			if n := astName(p.Type()); n != "" {
				return i, n
			}
		}
	}
	return -1, ""
}

// builderRules: the intervals of an expression are made of the ones of its
// parts: a union for OR, intersections for AND, the complement for NOT.
func builderRules(p *lib.Prog, r *lib.Report) {
	var nodes []*ssa.Function
	kind := map[*ssa.Function]string{} // what a function does with intervals
	for _, f := range p.InPkg(qlp) {
		sig := f.Signature
		if f.Parent() != nil || sig.Results().Len() == 0 || !isIntervals(sig.Results().At(0).Type()) {
			continue
		}
		if _, n := astArg(f); n != "" && sig.Results().Len() == 2 {
			kind[f] = n
			if n != "Condition" {
				nodes = append(nodes, f)
			}
			continue
		}
		if sig.Results().Len() == 1 && sig.Params().Len() == 1 {
			switch {
			case isIntervals(sig.Params().At(0).Type()):
				kind[f] = "union"
			case isIntervalGroups(sig.Params().At(0).Type()):
				kind[f] = "intersect"
			}
		}
	}
	// the ones that do it themselves
	for f, k := range kind {
		if k == "union" && !callsBasis(f, ".Union", kind, map[*ssa.Function]bool{}) || k == "intersect" && !callsBasis(f, ".Intersect", kind, map[*ssa.Function]bool{}) {
			delete(kind, f)
		}
	}
	found := map[string]int{}
	for _, k := range kind {
		found[k]++
	}
	for _, k := range []string{"Expression", "OrCondition", "XCondition", "Condition", "union", "intersect"} {
		if found[k] == 0 {
			r.Bad("anchor", "interval builder: "+k, token.NoPos, nil, "no function of %s builds the intervals of: %s", qlp, k)
		}
	}
	noInline := func(root, g *ssa.Function) bool {
		return lib.PkgOf(g) != qlp || kind[g] != ""
	}
	v := visits{}
	j := &lib.Job{P: p, R: r, Roots: nodes, NoHavoc: true, NoInline: noInline}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		ai, node := astArg(root)
		in := e.In.Param(root, ai)
		list := map[string]string{"Expression": "Or", "OrCondition": "And"}[node]
		want := map[string]string{"Expression": "OrCondition", "OrCondition": "XCondition"}[node]
		empty := func(st *eng.State, x *eng.Val) bool {
			if x.K == eng.KNil || st.IsNil(x) {
				return true
			}
			b, known := st.Eval(e.Eq(st.Len(x), e.In.Int(0)))
			return known && b || lib.Entails(st, lib.Lin{}.Sub(lib.Linear(st.Len(x))))
		}
		// pending: the intervals of the part before are neither kept nor empty
		settle := func(st *eng.State, pos token.Pos, end bool) {
			t, ok := st.TS["pend"]
			if !ok {
				return
			}
			st.Del("pend")
			st.Set("some", "")
			if node == "Expression" && empty(st, t.V[0]) {
				return
			}
			r.Check(false, "expression", name+": every part", pos, st, "%s loses the intervals of a part", name)
		}
		return eng.Hooks{
			Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
				v.branch(st, cond, taken)
				if wholeSeen(st) {
					st.Set("everything", "")
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				k := kind[c.Fn]
				switch {
				case k == "Expression" || k == "OrCondition" || k == "XCondition" || k == "Condition":
					i, _ := astArg(c.Fn)
					a := c.Args[i]
					if node == "XCondition" {
						f := map[string]string{"Expression": "Expr", "Condition": "Cond"}[k]
						r.Check(f != "" && ofParam(a, in, f), "expression", name+": part", c.Pos(), st, "%s builds the intervals of something else: %s", name, a)
						return nil
					}
					settle(st, c.Pos(), false)
					l, next := v.use(st, a)
					r.Check(k == want && l != nil && ofParam(l, in, list) && next, "expression", name+": part", c.Pos(), st, "%s does not go through its parts one by one: %s", name, a)
				case k == "union" || k == "intersect":
					if node == "XCondition" && k == "intersect" {
						// the complement
						t, ok := st.TS["part"]
						if !ok {
							return nil
						}
						g := c.Args[len(c.Args)-1]
						x, seen := st.TS["negof"]
						all := seen && v.done(st, x.V[0]) || empty(st, t.V[0])
						r.Check(all && !st.Has("unkept"), "expression", name+": complement", c.Pos(), st, "%s does not exclude every interval of the condition negated", name)
						if !seen {
							es := st.VarArgs(g)
							r.Check(len(es) == 1 && wholeList(st, es[0]), "expression", name+": everything", c.Pos(), st, "%s: the opposite of nothing is not everything: %s", name, g)
						}
					}
				case c.Name() == "builtin.append" && len(c.Args) > 1:
					t, ok := st.TS["pend"]
					at := c.Common.Args[0].Type()
					if ok && (isIntervals(at) && c.Args[1] == t.V[0] || isIntervalGroups(at) && hasVal(st.VarArgs(c.Args[1]), t.V[0])) {
						st.Set("kept", "", c.Args[0])
						st.Del("pend")
						st.Set("some", "")
					}
					if n, ok := st.TS["neg"]; ok && isIntervalGroups(at) && hasVal(st.VarArgs(c.Args[1]), n.V[0]) {
						st.Del("unkept")
					}
				case strings.HasSuffix(c.Name(), ".Negate"):
					if l, next := v.use(st, c.Args[len(c.Args)-1]); l != nil {
						t := st.TS["part"]
						r.Check(next && !st.Has("unkept") && len(t.V) > 0 && madeOf(l, t.V[0]), "expression", name+": complement", c.Pos(), st, "%s does not exclude every interval of the condition negated: %s", name, l)
						st.Set("negof", "", l)
						st.Set("unkept", "")
					}
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				k := kind[c.Fn]
				noteWhole(st, c, rets)
				switch {
				case k == "union" || k == "intersect":
					st.Set("result", k, rets[0])
				case strings.HasSuffix(c.Name(), ".Negate"):
					st.Set("neg", "", rets[0])
				case k != "" && node == "XCondition":
					st.Set("part", k, rets[0], rets[1])
				case k != "":
					st.Set("pend", "", rets[0], rets[1])
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, instr ssa.Instruction) {
				pos := eng.InstrPos(instr)
				if !st.IsNil(rets[1]) {
					return
				}
				res := rets[0]
				if node == "XCondition" {
					t, ok := st.TS["part"]
					if !ok {
						r.Check(false, "expression", name+": part", pos, st, "%s does not look at the condition", name)
						return
					}
					ex := st.IsNonNil(resultField(st, in, "Expr"))
					r.Check(ex == (t.S == "Expression"), "expression", name+": part", pos, st, "%s builds the intervals of the other part", name)
					not, known := st.Eval(resultField(st, in, "Not"))
					switch {
					case known && !not:
						r.Check(madeOf(res, t.V[0]) || empty(st, res) && empty(st, t.V[0]), "expression", name+": as it is", pos, st, "%s does not give the intervals of the condition: %s", name, res)
					case known:
						x := st.TS["result"]
						r.Check(x.S == "intersect" && x.V[0] == res || empty(st, res) && st.Has("everything"), "expression", name+": complement", pos, st, "%s does not give the complement: %s", name, res)
					default:
						r.Check(false, "expression", name+": NOT", pos, st, "%s does not look whether the condition is negated", name)
					}
					return
				}
				if t, ok := st.TS["pend"]; ok && node == "OrCondition" && empty(st, t.V[0]) && empty(st, res) {
					return // nothing is left
				}
				settle(st, pos, true)
				x := st.TS["result"]
				k := map[string]string{"Expression": "union", "OrCondition": "intersect"}[node]
				l := resultField(st, in, list)
				r.Check(x.S == k && x.V[0] == res || empty(st, res) && !st.Has("some"), "expression", name+": "+k, pos, st, "%s does not give the %s of its parts: %s", name, k, res)
				r.Check(v.done(st, l), "expression", name+": all parts", pos, st, "%s leaves out parts of the expression", name)
			},
		}
	}
	j.Do(nil)
	var us, is []*ssa.Function
	for f, k := range kind {
		if k == "union" {
			us = append(us, f)
		} else if k == "intersect" {
			is = append(is, f)
		}
	}
	var cs []*ssa.Function
	for f, k := range kind {
		if k == "Condition" {
			cs = append(cs, f)
		}
	}
	comparisonRules(p, r, cs)
	unionRules(p, r, us)
	intersectRules(p, r, is)
	r.Floor("expression", 8)
	r.Floor("combine", 6)
}

// callsBasis tells whether the function calls the operation, itself or by a
// helper that is none of the known functions.
func callsBasis(f *ssa.Function, op string, known map[*ssa.Function]string, seen map[*ssa.Function]bool) bool {
	seen[f] = true
	found := false
	eachInstr(f, func(in ssa.Instruction) {
		if found || !strings.HasSuffix(lib.CallName(in), op) {
			c, ok := in.(ssa.CallInstruction)
			if !ok || found {
				return
			}
			g := c.Common().StaticCallee()
			found = g != nil && lib.PkgOf(g) == lib.PkgOf(f) && known[g] == "" && !seen[g] && callsBasis(g, op, known, seen)
			return
		}
		found = true
	})
	return found
}

func hasVal(vs []*eng.Val, v *eng.Val) bool {
	for _, x := range vs {
		if x == v {
			return true
		}
	}
	return false
}

// madeOf tells that l is x or a copy of it.
func madeOf(l, x *eng.Val) bool {
	l = lib.Strip(l)
	if l == x {
		return true
	}
	return l.K == eng.KCall && l.Name == "append" && len(l.Args) == 2 && (l.Args[0].K == eng.KNil || l.Args[0].K == eng.KZero) && l.Args[1] == x
}

// wholeList tells that the list consists of the interval with all values.
func wholeList(st *eng.State, v *eng.Val) bool {
	es := st.VarArgs(v)
	return len(es) == 1 && st.Has("whole:"+itoa(es[0].ID))
}

// noteWhole remembers the intervals and comparisons that speak of the ends of
// the basis.
func noteWhole(st *eng.State, c *eng.Call, rets []*eng.Val) {
	a := c.Args
	if strings.HasSuffix(c.Name(), ".IsClosed") && len(rets) == 1 {
		st.Set("isclosed", "", rets[0])
	}
	if len(a) < 2 || len(rets) != 1 {
		return
	}
	x, y := a[len(a)-2], a[len(a)-1]
	switch {
	case strings.HasSuffix(c.Name(), ".Closed") && fieldIs(x, "Min") && fieldIs(y, "Max"):
		st.Set("whole:"+itoa(rets[0].ID), "")
	case isCmp(c) && fieldIs(y, "Min") && fieldIs(x, "L"):
		st.Set("atmin", "", rets[0])
	case isCmp(c) && fieldIs(y, "Max") && fieldIs(x, "R"):
		st.Set("atmax", "", rets[0])
	}
}

// wholeSeen tells that an interval is known to contain all the values.
func wholeSeen(st *eng.State) bool {
	for _, k := range []string{"atmin", "atmax"} {
		t, ok := st.TS[k]
		if !ok {
			return false
		}
		if b, known := st.Eval(st.E.Eq(t.V[0], st.E.In.Int(0))); !known || !b {
			return false
		}
	}
	t, ok := st.TS["isclosed"]
	if !ok {
		return false
	}
	b, known := st.Eval(t.V[0])
	return known && b
}

// unionRules: overlapping neighbours of the sorted list become one, all the
// others stay.
func unionRules(p *lib.Prog, r *lib.Report, roots []*ssa.Function) {
	w := visits{base: 1}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != qlp }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		list := e.In.Param(root, len(root.Params)-1)
		first := func(v *eng.Val) bool {
			l, idx, ok := elementOf(v)
			n := lib.Lin{}
			if ok {
				n = lib.Linear(idx)
			}
			return ok && l == list && n.IsConst() && n.C == 0
		}
		// current is the interval that may still grow
		current := func(st *eng.State, x *eng.Val) bool {
			t, ok := st.TS["union"]
			if !ok {
				return first(x)
			}
			b, known := st.Eval(t.V[1])
			if !known {
				return false
			}
			if b {
				return x == t.V[0]
			}
			return x == t.V[3] && st.Has("out")
		}
		return eng.Hooks{
			Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) { w.branch(st, cond, taken) },
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				n := c.Name()
				switch {
				case strings.HasSuffix(n, ".Union"):
					a := c.Args[len(c.Args)-2:]
					l, next := w.use(st, a[1])
					r.Check(l == list && next, "combine", name+": one by one", c.Pos(), st, "%s does not go through the intervals one by one: %s", name, a[1])
					r.Check(st.Has("sorted"), "combine", name+": sorted", c.Pos(), st, "%s joins neighbours of a list that is not sorted", name)
					r.Check(current(st, a[0]) && !st.Has("final"), "combine", name+": neighbours", c.Pos(), st, "%s does not join with the interval before", name)
				case strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort"):
					st.Set("sorted", "")
				case n == "builtin.append" && isIntervals(c.Common.Args[0].Type()) && len(c.Args) > 1:
					for _, x := range st.VarArgs(c.Args[1]) {
						if t, ok := st.TS["union"]; ok && !st.Has("out") {
							if b, known := st.Eval(t.V[1]); known && !b {
								r.Check(x == t.V[2], "combine", name+": kept", c.Pos(), st, "%s does not keep the interval before: %s", name, x)
								st.Set("out", "")
								continue
							}
						}
						r.Check(current(st, x) && !st.Has("final"), "combine", name+": last", c.Pos(), st, "%s does not keep the last interval: %s", name, x)
						st.Set("final", "")
					}
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				a := c.Args
				switch n := c.Name(); {
				case strings.HasSuffix(n, ".Union"):
					st.Set("union", "", rets[0], rets[1], a[len(a)-2], a[len(a)-1])
					st.Del("out")
				case strings.HasSuffix(n, ".StartsBefore"):
					st.Set("before", "", a[len(a)-2], a[len(a)-1], rets[0])
				}
			},
			Leave: func(st *eng.State, fr *eng.Frame, rets []*eng.Val) {
				if fr.Site == nil || !strings.HasPrefix(lib.CallName(fr.Site), "sort.") || len(fr.Fn.Params) != 2 {
					return
				}
				t, ok := st.TS["before"]
				good := ok && rets[0] == t.V[2]
				for k := 0; k < 2 && good; k++ {
					l, idx, isElem := elementOf(t.V[k])
					good = isElem && l == list && idx == e.Env(st, fr, fr.Fn.Params[k])
				}
				r.Check(good, "combine", name+": order", fr.Fn.Pos(), st, "%s does not sort the intervals by their beginnings", name)
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				if b, known := st.Eval(e.Eq(st.Len(list), e.In.Int(0))); known && b {
					return
				}
				r.Check(st.Has("final"), "combine", name+": last", pos, st, "%s loses the last interval", name)
				r.Check(w.done(st, list), "combine", name+": all", pos, st, "%s does not look at all the intervals", name)
				r.Check(rets[0].K != eng.KNil && rets[0].K != eng.KSlice, "combine", name+": result", pos, st, "%s does not give what it has collected: %s", name, rets[0])
			},
		}
	}
	j.Do(nil)
}

// intersectRules: every interval of a group is intersected with every one of
// the next group.
func intersectRules(p *lib.Prog, r *lib.Report, roots []*ssa.Function) {
	v, w := visits{}, visits{base: 1}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != qlp }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		groups := e.In.Param(root, len(root.Params)-1)
		settle := func(st *eng.State, pos token.Pos) {
			t, ok := st.TS["inter"]
			if !ok {
				return
			}
			b, known := st.Eval(t.V[1])
			r.Check(known && b == st.Has("kept"), "combine", name+": kept", pos, st, "%s loses an intersection or keeps one that is none", name)
			st.Del("inter")
			st.Del("kept")
		}
		return eng.Hooks{
			Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
				v.branch(st, cond, taken)
				w.branch(st, cond, taken)
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				n := c.Name()
				switch {
				case strings.HasSuffix(n, ".Intersect"):
					settle(st, c.Pos())
					a := c.Args[len(c.Args)-2:]
					var ls [2]*eng.Val
					for k := range a {
						l, next := v.use(st, a[k])
						r.Check(next, "combine", name+": each", c.Pos(), st, "%s does not go through the intervals one by one: %s", name, a[k])
						ls[k] = l
					}
					if ls[0] == nil || ls[1] == nil {
						return nil
					}
					group := 0
					for k := range ls {
						g, idx, ok := elementIn(st, ls[k])
						if !ok || g != groups {
							continue
						}
						if i := lib.Linear(idx); i.IsConst() && i.C == 0 {
							continue
						}
						group++
						_, next := w.use(st, ls[k])
						r.Check(next, "combine", name+": groups", c.Pos(), st, "%s does not go through the groups one by one", name)
					}
					r.Check(group == 1, "combine", name+": with the next", c.Pos(), st, "%s does not intersect what it has with the next group", name)
				case n == "builtin.append" && isIntervals(c.Common.Args[0].Type()) && len(c.Args) > 1:
					for _, x := range st.VarArgs(c.Args[1]) {
						t, ok := st.TS["inter"]
						r.Check(ok && x == t.V[0] && !st.Has("kept"), "combine", name+": kept", c.Pos(), st, "%s keeps something that is not the intersection: %s", name, x)
						st.Set("kept", "")
					}
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if strings.HasSuffix(c.Name(), ".Intersect") {
					st.Set("inter", "", rets...)
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				settle(st, pos)
				if b, known := st.Eval(e.Eq(st.Len(groups), e.In.Int(0))); known && b {
					return
				}
				r.Check(w.done(st, groups), "combine", name+": all", pos, st, "%s does not use all the groups", name)
				for k := range st.TS {
					if strings.HasPrefix(k, "visit:") && k != "visit:"+itoa(groups.ID) {
						r.Check(st.Has("done:"+strings.TrimPrefix(k, "visit:")), "combine", name+": every pair", pos, st, "%s does not intersect every interval with every other", name)
					}
				}
				if g, idx, ok := elementOf(rets[0]); ok && g == groups {
					i := lib.Linear(idx)
					n := lib.Linear(st.Len(groups))
					one := lib.Entails(st, lib.Lin{C: 1}.Sub(n))
					r.Check(i.IsConst() && i.C == 0 && one, "combine", name+": result", pos, st, "%s gives only one of the groups: %s", name, rets[0])
				}
			},
		}
	}
	j.Do(nil)
}

// comparisonRules: a comparison of the parameter gives the intervals for its
// operation and its value, any other condition gives everything.
func comparisonRules(p *lib.Prog, r *lib.Report, roots []*ssa.Function) {
	converter := func(f *ssa.Function) bool {
		if f == nil || lib.PkgOf(f) != qlp {
			return false
		}
		sig := f.Signature
		return sig.Results().Len() == 1 && isIntervals(sig.Results().At(0).Type()) && sig.Params().Len() == 2 && isStr(sig.Params().At(0).Type())
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool {
		return lib.PkgOf(g) != qlp || converter(g) || g.Signature.Results().Len() > 0 && isFuncT(g.Signature.Results().At(0).Type())
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		ai, _ := astArg(root)
		in := e.In.Param(root, ai)
		return eng.Hooks{
			Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
				for cond.K == eng.KUn && cond.Op == token.NOT {
					cond, taken = cond.Args[0], !taken
				}
				if taken {
					return
				}
				if cond.K == eng.KBin && cond.Op == token.EQL && isStr(cond.Args[0].Typ) {
					// the name of the parameter is not the one looked for
					for k := 0; k < 2; k++ {
						if fr.Fn == root && cond.Args[k].K != eng.KConst && !strings.Contains(cond.Args[k].String(), in.String()) {
							st.Set("other", "")
						}
					}
				}
				ref := cond.Ref
				if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 1 {
					ref = ex.Tuple
				}
				if l, ok := ref.(*ssa.Lookup); ok && ofParam(lib.Strip(e.Env(st, fr, l.Index)), in, "Op") {
					st.Set("other", "")
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if converter(c.Fn) {
					a := c.Args[len(c.Args)-2:]
					r.Check(ofParam(a[0], in, "Op"), "comparison", name+": operation", c.Pos(), st, "%s gives the intervals of another operation: %s", name, a[0])
					t, ok := st.TS["value"]
					r.Check(ok && a[1].Contains(t.V[0]), "comparison", name+": value", c.Pos(), st, "%s gives the intervals for another value: %s", name, a[1])
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				noteWhole(st, c, rets)
				if converter(c.Fn) {
					st.Set("result", "", rets[0])
				}
				if c.Fn == nil && len(c.Args) == 2 && len(rets) == 2 && ofParam(c.Args[0], in, "SecondParam") {
					st.Set("value", "", rets[0])
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, i ssa.Instruction) {
				pos := eng.InstrPos(i)
				if !st.IsNil(rets[1]) {
					return
				}
				if t, ok := st.TS["result"]; ok {
					r.Check(t.V[0] == rets[0], "comparison", name+": result", pos, st, "%s does not give the intervals of the comparison: %s", name, rets[0])
					return
				}
				p2 := resultField(st, in, "SecondParam")
				other := st.Has("other") || st.IsNil(resultField(st, p2, "Const"))
				r.Check(other && wholeList(st, rets[0]), "comparison", name+": others", pos, st, "%s gives %s for a condition it should look at, or less than everything for another one", name, rets[0])
			},
		}
	}
	j.Do(nil)
	r.Floor("comparison", 4)
}

// idRangeRules: the range of record IDs made for an interval of times has
// exactly the IDs of the milliseconds that are in the interval.
func idRangeRules(p *lib.Prog, r *lib.Report) {
	isRange := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || s.NumFields() != 2 {
			return false
		}
		for i := 0; i < 2; i++ {
			if !strings.HasSuffix(s.Field(i).Type().String(), ".ULID") {
				return false
			}
		}
		return true
	}
	var roots []*ssa.Function
	for _, f := range p.InPkg(lfs) {
		sig := f.Signature
		if f.Parent() != nil || sig.Results().Len() != 1 {
			continue
		}
		sl, ok := sig.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok || !isRange(sl.Elem()) {
			continue
		}
		for i := 0; i < sig.Params().Len(); i++ {
			if isIntervals(sig.Params().At(i).Type()) {
				roots = append(roots, f)
			}
		}
	}
	if len(roots) == 0 {
		r.Bad("anchor", lfs+": intervals to ID ranges", token.NoPos, nil, "no function turns intervals of times into ranges of record IDs")
		return
	}
	const ms = 1000000
	w, z := visits{}, visits{}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool {
		return lib.PkgOf(g) != lfs && !strings.HasSuffix(lib.Name(g), ".IsOpen") && !strings.HasSuffix(lib.Name(g), ".IsClosed") && !strings.HasSuffix(lib.Name(g), ".IsOpenL") && !strings.HasSuffix(lib.Name(g), ".IsOpenR")
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		var tis, ci *eng.Val
		for i, pa := range root.Params {
			if isIntervals(pa.Type()) {
				tis = e.In.Param(root, i)
			} else {
				ci = e.In.Param(root, i)
			}
		}
		fn := func(n string, t types.Type, a ...*eng.Val) *eng.Val { return e.In.Node(eng.KCall, 0, n, t, a...) }
		// shift takes a time apart: a base and the nanoseconds added to it
		var shift func(v *eng.Val) (*eng.Val, lib.Lin)
		shift = func(v *eng.Val) (*eng.Val, lib.Lin) {
			v = lib.Strip(v)
			if v.K == eng.KCall && v.Name == "time+" {
				b, l := shift(v.Args[0])
				m := lib.Linear(v.Args[1])
				return b, l.Sub(lib.Lin{}.Sub(m))
			}
			return v, lib.Lin{}
		}
		// millis takes the time of an ID apart
		millis := func(v *eng.Val) (base *eng.Val, ns int64, ok bool) {
			l := lib.Linear(lib.Strip(v))
			if len(l.Coef) != 1 {
				return nil, 0, false
			}
			for x, k := range l.Coef {
				x = lib.Strip(x)
				if k != 1 || x.K != eng.KCall || x.Name != "millis" {
					return nil, 0, false
				}
				b, s := shift(x.Args[0])
				return b, s.C + l.C*ms, s.IsConst()
			}
			return nil, 0, false
		}
		type border struct {
			base *eng.Val
			ns   int64
			last bool
		}
		ids := map[*eng.Val]border{} // the IDs with a known time
		idSym := func(b border, t types.Type) *eng.Val {
			v := e.In.NamedSym("id of "+itoa(b.base.ID)+"+"+strconv.FormatInt(b.ns, 10)+"ns last:"+strconv.FormatBool(b.last), t)
			ids[v] = b
			return v
		}
		side := func(st *eng.State, t *eng.Val, in string) (bool, bool) {
			return st.Eval(st.FieldOf(t, in, types.Typ[types.Bool]))
		}
		settle := func(st *eng.State, pos token.Pos) {
			t, ok := st.TS["part"]
			if !ok {
				return
			}
			b, known := st.Eval(t.V[1])
			r.Check(known && b == st.Has("kept"), "id-range", name+": kept", pos, st, "%s loses the range of an interval or keeps one that is none", name)
			st.Del("part")
			st.Del("kept")
		}
		return eng.Hooks{
			Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
				w.branch(st, cond, taken)
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				a := c.Args
				one := func(v *eng.Val) *eng.Result { return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{v}}}} }
				switch n := c.Name(); {
				case n == "(time.Time).Add":
					return one(fn("time+", c.Common.Signature().Results().At(0).Type(), a[0], a[1]))
				case n == "(time.Time).UnixMilli":
					return one(fn("millis", types.Typ[types.Int64], a[0]))
				case strings.HasSuffix(n, "ulid.ULID).SetTime") || strings.HasSuffix(n, "ULID).SetTime"):
					at := a[0]
					t := ptrElem(c.Common.Args[0].Type())
					v := fn("id of another time", t, a[1])
					if b, ns, ok := millis(a[1]); ok {
						v = idSym(border{base: b, ns: ns}, t)
					}
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Nil()}, Do: func(s *eng.State) { s.Store(at, v) }}}}
				case strings.HasSuffix(n, "ULID).SetEntropy"):
					at := a[0]
					old := st.Load(at, nil)
					v := fn("random", old.Typ, old)
					t, ok := st.TS["bytes"]
					whole := false
					if ok && len(t.V) == 1 {
						n, known := constOf(st, st.Len(t.V[0]))
						whole = known && n == 10 // the random part of an ID
					}
					if b, known := ids[old]; known && whole && t.S == "ff" && z.done(st, t.V[0]) {
						b.last = true
						v = idSym(b, old.Typ)
					}
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Nil()}, Do: func(s *eng.State) { s.Store(at, v) }}}}
				case strings.HasSuffix(n, ".Intersect") && len(a) >= 2:
					settle(st, c.Pos())
					good := false
					for k := 0; k < 2; k++ {
						x, y := a[len(a)-2+k], a[len(a)-1-k]
						l, next := w.use(st, x)
						if l != tis {
							continue
						}
						t, ok := st.TS["chunk"]
						good = next && ok && t.V[0] == y
					}
					r.Check(good, "id-range", name+": chunk", c.Pos(), st, "%s does not cut every interval to the times of the chunk: %s", name, c.Args)
				case n == "builtin.append" && len(a) > 1:
					sl, ok := c.Common.Args[0].Type().Underlying().(*types.Slice)
					if !ok || !isRange(sl.Elem()) {
						return nil
					}
					for _, v := range st.VarArgs(a[1]) {
						t, ok := st.TS["part"]
						if !ok {
							r.Check(false, "id-range", name+": kept", c.Pos(), st, "%s keeps a range of no interval", name)
							continue
						}
						st.Set("kept", "")
						rs := sl.Elem().Underlying().(*types.Struct)
						for k, f := range []struct{ border, in string }{{"L", "LIn"}, {"R", "RIn"}} {
							x := st.FieldOf(v, rs.Field(k).Name(), rs.Field(k).Type())
							what := name + ": " + map[string]string{"L": "first", "R": "last"}[f.border]
							id, ok := ids[x]
							if !ok {
								r.Check(false, "id-range", what, c.Pos(), st, "%s: the border of the range is not known: %s", name, x)
								continue
							}
							r.Check(id.last == (f.border == "R"), "id-range", what, c.Pos(), st, "%s does not include all the IDs of the last millisecond, or none of the first: %s", name, x)
							ns := id.ns
							part := id.base == st.FieldOf(t.V[0], f.border, id.base.Typ)
							incl, known := side(st, t.V[0], f.in)
							want := map[string]map[bool]int64{"L": {true: ms - 1, false: ms}, "R": {true: 0, false: -1}}[f.border][incl]
							r.Check(part && known && ns == want, "id-range", what, c.Pos(), st, "%s: the border of the range is %dns off the border of the interval (which belongs to it: %v, known: %v), %dns would be right: records at the border are lost or added", name, ns, incl, known, want)
						}
					}
				}
				return nil
			},
			Store: func(st *eng.State, fr *eng.Frame, addr, v *eng.Val, in ssa.Instruction) {
				if addr.K != eng.KIndex || v.Typ == nil || !types.Identical(v.Typ.Underlying(), types.Typ[types.Byte]) {
					return
				}
				l, next := z.use(st, addr)
				if b, known := st.Eval(e.Eq(v, e.In.Int(255))); known && b && next {
					st.Set("bytes", "ff", l)
				} else {
					st.Set("bytes", "other")
				}
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				a := c.Args
				switch n := c.Name(); {
				case strings.HasSuffix(n, ".Intersect"):
					st.Set("part", "", rets...)
				case strings.HasSuffix(n, ".Closed") && len(a) >= 2 && ci != nil:
					x, y := a[len(a)-2].String(), a[len(a)-1].String()
					if strings.Contains(x, ".Min") && strings.Contains(y, ".Max") && strings.Contains(x, ci.String()) && strings.Contains(y, ci.String()) {
						st.Set("chunk", "", rets[0])
					}
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				settle(st, pos)
				r.Check(w.done(st, tis), "id-range", name+": all", pos, st, "%s leaves out intervals", name)
			},
		}
	}
	j.Do(nil)
	r.Floor("id-range", 4)
}
