package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

const ivPkg = "pkg/intervals"

// ordered models the comparison function of a basis: the order of the values
// is embedded into the integers, so a comparison is a difference.
type ordered struct{ e *eng.Engine }

func (o ordered) ord(v *eng.Val) *eng.Val {
	return o.e.In.Node(eng.KCall, 0, "ord", types.Typ[types.Int], v)
}

func (o ordered) diff(a, b *eng.Val) *eng.Val {
	return o.e.In.Node(eng.KBin, token.SUB, "", types.Typ[types.Int], o.ord(a), o.ord(b))
}

func isCmp(c *eng.Call) bool {
	if c.Fn != nil || len(c.Args) != 2 || c.Common.IsInvoke() {
		return false
	}
	v := c.Common.Value
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name() == "CmpF"
		}
	}
	if f, ok := v.(*ssa.Field); ok {
		return fieldName(f) == "CmpF"
	}
	return false
}

func (o ordered) call(st *eng.State, c *eng.Call) *eng.Result {
	if isCmp(c) {
		return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{o.diff(c.Args[0], c.Args[1])}}}}
	}
	return nil
}

// sharpen turns a != b with a <= b known into a < b.
func sharpen(e *eng.Engine, st *eng.State) (*eng.State, bool) {
	st = st.Clone()
	type pr struct{ a, b *eng.Val }
	var ne []pr
	st.EachFact(func(f *eng.Val, b bool) {
		if !b && f.K == eng.KBin && f.Op == token.EQL && len(f.Args) == 2 && f.Args[0].Typ != nil && lib.IsInt(f.Args[0].Typ) {
			ne = append(ne, pr{f.Args[0], f.Args[1]})
		}
	})
	for _, x := range ne {
		d := lib.Linear(x.b).Sub(lib.Linear(x.a))
		if lib.Entails(st, d) {
			if !st.Assume(e.Less(x.a, x.b), true) {
				return st, false
			}
		} else if lib.Entails(st, lib.Linear(x.a).Sub(lib.Linear(x.b))) {
			if !st.Assume(e.Less(x.b, x.a), true) {
				return st, false
			}
		}
	}
	return st, true
}

// impossible: the branch facts of the path contradict each other.
func impossible(e *eng.Engine, st *eng.State) bool {
	if st.Has("dead") {
		return true
	}
	st, ok := sharpen(e, st)
	if !ok {
		return true
	}
	bad := false
	st.EachFact(func(f *eng.Val, b bool) {
		if bad || f.K != eng.KBin || f.Op != token.LSS || !lib.IsInt(f.Args[0].Typ) {
			return
		}
		d := lib.Linear(f.Args[1]).Sub(lib.Linear(f.Args[0]))
		if b { // d >= 1; the opposite: -d >= 0
			n := lib.Lin{Coef: map[*eng.Val]int64{}}.Sub(d)
			bad = lib.Entails(st, n)
		} else { // d <= 0; the opposite: d-1 >= 0
			d.C--
			bad = lib.Entails(st, d)
		}
	})
	return bad
}

type ivShape struct {
	name     string
	lin, rin bool
}

var ivShapes = []ivShape{{"open", false, false}, {"left-open", false, true}, {"right-open", true, false}, {"closed", true, true}}

// ivOf assumes that an interval is well formed and of the given shape.
func (o ordered) assume(st *eng.State, iv *eng.Val, s ivShape, t types.Type, min, max *eng.Val) {
	tt := t.Underlying().(*types.Struct).Field(0).Type()
	L, R := st.FieldOf(iv, "L", tt), st.FieldOf(iv, "R", tt)
	st.Assume(st.FieldOf(iv, "LIn", types.Typ[types.Bool]), s.lin)
	st.Assume(st.FieldOf(iv, "RIn", types.Typ[types.Bool]), s.rin)
	le := func(a, b *eng.Val) { st.Assume(o.e.Less(o.ord(b), o.ord(a)), false) }
	le(min, L)
	le(R, max)
	if s.lin != s.rin {
		st.Assume(o.e.Less(o.ord(L), o.ord(R)), true)
	} else {
		le(L, R)
	}
}

// wellFormed decides that an interval value keeps the invariant.
func (o ordered) wellFormed(st *eng.State, iv *eng.Val, t types.Type, min, max *eng.Val) bool {
	tt := t.Underlying().(*types.Struct).Field(0).Type()
	L, R := st.FieldOf(iv, "L", tt), st.FieldOf(iv, "R", tt)
	li, ri := st.FieldOf(iv, "LIn", types.Typ[types.Bool]), st.FieldOf(iv, "RIn", types.Typ[types.Bool])
	st, ok := sharpen(o.e, st)
	if !ok {
		return true
	}
	gap := func(a, b *eng.Val, k int64) bool { // b - a >= k
		d := lib.Linear(o.ord(b)).Sub(lib.Linear(o.ord(a)))
		d.C -= k
		return lib.Entails(st, d)
	}
	if !gap(min, L, 0) || !gap(R, max, 0) || !gap(L, R, 0) {
		return false
	}
	lv, lk := st.Eval(li)
	rv, rk := st.Eval(ri)
	if lk && rk && lv == rv {
		return true
	}
	return gap(L, R, 1)
}

// intervalPanics decides that the constructors of the intervals never meet the
// bounds they refuse: neither in the algebra, given well formed intervals
// (which is what the algebra returns), nor where the conditions are turned
// into the intervals.
func intervalPanics(p *lib.Prog, r *lib.Report, user string) {
	intervalUsers(p, r, user)
	isBasis := func(f *ssa.Function) bool {
		pk, n := lib.RecvType(f)
		return n == "Basis" && strings.HasSuffix(pk, ivPkg)
	}
	for _, f := range p.InPkg(ivPkg) {
		if !isBasis(f) || f.Parent() != nil {
			continue
		}
		var ivs []int
		for i, prm := range f.Params {
			if isInterval(prm.Type()) {
				ivs = append(ivs, i)
			}
		}
		if len(ivs) == 0 {
			continue
		}
		combos := [][]ivShape{nil}
		for range ivs {
			var nx [][]ivShape
			for _, c := range combos {
				for _, s := range ivShapes {
					nx = append(nx, append(append([]ivShape{}, c...), s))
				}
			}
			combos = nx
		}
		for _, combo := range combos {
			what := ""
			for _, s := range combo {
				what += " " + s.name
			}
			runIntervals(p, r, f, lib.Name(f)+" of"+what, func(e *eng.Engine, st *eng.State) {
				o := ordered{e}
				min, max := basisEnds(st, e, e.In.Param(f, 0), f.Params[0].Type())
				st.Assume(e.Less(o.ord(min), o.ord(max)), true)
				for k, i := range ivs {
					o.assume(st, e.In.Param(f, i), combo[k], f.Params[i].Type(), min, max)
				}
			}, func(e *eng.Engine, st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				o := ordered{e}
				min, max := basisEnds(st, e, e.In.Param(f, 0), f.Params[0].Type())
				good := func(v *eng.Val, t types.Type) {
					r.Check(o.wellFormed(st, v, t, min, max), "ordered", lib.Name(f)+" of"+what, in.Pos(), st, "%s of%s returns an interval with the borders out of the order or of the basis", lib.Name(f), what)
				}
				if len(rets) == 2 { // with a flag
					if v, k := st.Eval(rets[1]); k && !v {
						return
					}
				}
				for i, v := range rets {
					t := f.Signature.Results().At(i).Type()
					if isInterval(t) {
						good(v, t)
					} else if sl, ok := t.(*types.Slice); ok && isInterval(sl.Elem()) {
						els, k := intervalList(st, v)
						r.Check(k, "ordered", lib.Name(f)+" of"+what, in.Pos(), st, "the intervals returned by %s are not known", lib.Name(f))
						for _, x := range els {
							good(x, sl.Elem())
						}
					}
				}
			})
		}
		r.AddFunc(f)
	}
}

// intervalUsers: the functions that call the constructors give them ordered
// borders.
func intervalUsers(p *lib.Prog, r *lib.Report, pkg string) {
	ctor := func(f *ssa.Function) bool {
		if f == nil {
			return false
		}
		pk, n := lib.RecvType(f)
		return n == "Basis" && strings.HasSuffix(pk, ivPkg) && f.Signature.Results().Len() == 1 && isInterval(f.Signature.Results().At(0).Type())
	}
	n := 0
	for _, f := range p.InPkg(pkg) {
		uses := false
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && ctor(c.Common().StaticCallee()) {
				uses = true
			}
		})
		if !uses {
			continue
		}
		n++
		what := lib.Name(f)
		e := eng.New(p.SSA)
		e.MaxSteps = 1500000
		o := ordered{e}
		e.NoInline = func(g *ssa.Function) bool { return !ctor(g) }
		e.Hooks = eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Fn != nil && !ctor(c.Fn) {
					if pk, n := lib.RecvType(c.Fn); n == "Basis" && strings.HasSuffix(pk, ivPkg) {
						min, max := basisEnds(st, e, c.Args[0], c.Fn.Params[0].Type())
						for i, prm := range c.Fn.Params {
							if !isInterval(prm.Type()) {
								continue
							}
							if _, known := st.Eval(st.FieldOf(c.Args[i], "LIn", types.Typ[types.Bool])); known {
								r.Check(o.wellFormed(st, c.Args[i], prm.Type(), min, max), "ordered", what+" -> "+c.Fn.Name(), c.Pos(), st, "%s gives %s an interval out of the basis", what, c.Fn.Name())
							}
						}
					}
				}
				if ctor(c.Fn) { // the ends of a basis are in order
					b := c.Args[0]
					t := c.Fn.Params[0].Type()
					min, max := basisEnds(st, e, b, t)
					st.Assume(e.Less(o.ord(min), o.ord(max)), true)
				}
				return o.call(st, c)
			},
			Panic: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
				r.Check(impossible(e, st), "no-panic", what, in.Pos(), st, "%s: the panic in %s can be reached", what, lib.Name(in.Parent()))
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) { r.Ok("no-panic", what, f.Pos()) },
		}
		e.Run(f, nil)
		r.Covered(e, f)
	}
	if n == 0 {
		r.Bad("anchor", "interval users", token.NoPos, nil, "nothing in %s builds the intervals", pkg)
	}
}

func isInterval(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Interval" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), ivPkg)
}

func basisEnds(st *eng.State, e *eng.Engine, b *eng.Val, t types.Type) (min, max *eng.Val) {
	if pt, ok := t.(*types.Pointer); ok {
		b = st.Load(b, pt.Elem())
		t = pt.Elem()
	}
	tt := t.Underlying().(*types.Struct).Field(0).Type()
	return st.FieldOf(b, "Min", tt), st.FieldOf(b, "Max", tt)
}

func runIntervals(p *lib.Prog, r *lib.Report, f *ssa.Function, name string, init func(e *eng.Engine, st *eng.State), after func(e *eng.Engine, st *eng.State, rets []*eng.Val, in ssa.Instruction)) {
	e := eng.New(p.SSA)
	e.MaxSteps = 1500000
	o := ordered{e}
	e.Hooks = eng.Hooks{
		Call: func(st *eng.State, c *eng.Call) *eng.Result { return o.call(st, c) },
		Panic: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
			r.Check(impossible(e, st), "no-panic", name, in.Pos(), st, "%s: the panic in %s can be reached", name, lib.Name(in.Parent()))
		},
		Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
			r.Ok("no-panic", name, in.Pos())
			if after != nil {
				after(e, st, rets, in)
			}
		},
	}
	e.Run(f, func(st *eng.State) { init(e, st) })
	r.Covered(e, f)
}

// inside lists the inequalities (each >= 0) that say "x is inside iv"; ok is
// false when it is not known whether a border belongs to the interval.
func (o ordered) inside(st *eng.State, iv *eng.Val, t types.Type, x *eng.Val) (ls [2]lib.Lin, ok bool) {
	tt := t.Underlying().(*types.Struct).Field(0).Type()
	lv, lk := st.Eval(st.FieldOf(iv, "LIn", types.Typ[types.Bool]))
	rv, rk := st.Eval(st.FieldOf(iv, "RIn", types.Typ[types.Bool]))
	lo := lib.Linear(x).Sub(lib.Linear(o.ord(st.FieldOf(iv, "L", tt))))
	hi := lib.Linear(o.ord(st.FieldOf(iv, "R", tt))).Sub(lib.Linear(x))
	if !lv {
		lo.C--
	}
	if !rv {
		hi.C--
	}
	return [2]lib.Lin{lo, hi}, lk && rk
}

// assumeLin adds l >= 0 (l = -1-l >= 0 for the opposite) to the facts.
func (o ordered) assumeLin(st *eng.State, l lib.Lin, holds bool) {
	// l >= 0 is written as !(sum < 0)
	v := o.e.In.Int(l.C)
	for a, k := range l.Coef {
		for ; k > 0; k-- {
			v = o.e.In.Node(eng.KBin, token.ADD, "", types.Typ[types.Int], v, a)
		}
		for ; k < 0; k++ {
			v = o.e.In.Node(eng.KBin, token.SUB, "", types.Typ[types.Int], v, a)
		}
	}
	if !st.Assume(o.e.Less(v, o.e.In.Int(0)), !holds) {
		st.Set("dead", "1")
	}
}

// outside calls f for each way x can be outside the interval.
func (o ordered) outside(st *eng.State, ls [2]lib.Lin, f func(st *eng.State) bool) bool {
	for _, l := range ls {
		s := st.Clone()
		o.assumeLin(s, l, false)
		if !f(s) {
			return false
		}
	}
	return true
}

func (o ordered) within(st *eng.State, ls [2]lib.Lin) *eng.State {
	s := st.Clone()
	for _, l := range ls {
		o.assumeLin(s, l, true)
	}
	return s
}

func entailsAll(st *eng.State, ls [2]lib.Lin) bool {
	return st.Has("dead") || lib.Entails(st, ls[0]) && lib.Entails(st, ls[1])
}

// outsideAll: x outside every interval of the list.
func (o ordered) outsideAll(st *eng.State, ls [][2]lib.Lin, f func(st *eng.State) bool) bool {
	if len(ls) == 0 {
		return f(st)
	}
	return o.outside(st, ls[0], func(s *eng.State) bool { return o.outsideAll(s, ls[1:], f) })
}

func intervalList(st *eng.State, v *eng.Val) ([]*eng.Val, bool) {
	if st.IsNil(v) {
		return nil, true
	}
	if v.K == eng.KCall && v.Name == "append" && len(v.Args) == 2 {
		a, ok1 := intervalList(st, v.Args[0])
		b, ok2 := intervalList(st, v.Args[1])
		return append(append([]*eng.Val{}, a...), b...), ok1 && ok2
	}
	els := st.VarArgs(v)
	n, k := eng.ConstInt(st.Len(v))
	return els, k && int(n) == len(els)
}

// intervalAlgebra decides that the operations on the intervals are exact for
// every value of the basis.
func intervalAlgebra(p *lib.Prog, r *lib.Report) {
	shapes := func(n int) [][]ivShape {
		combos := [][]ivShape{nil}
		for i := 0; i < n; i++ {
			var nx [][]ivShape
			for _, c := range combos {
				for _, s := range ivShapes {
					nx = append(nx, append(append([]ivShape{}, c...), s))
				}
			}
			combos = nx
		}
		return combos
	}
	for _, m := range []string{"Intersect", "Union", "Negate", "Before", "After", "StartsBefore", "EndsAfter", "Open", "OpenL", "OpenR", "Closed"} {
		var f *ssa.Function
		for _, g := range p.InPkg(ivPkg) {
			if pk, n := lib.RecvType(g); n == "Basis" && strings.HasSuffix(pk, ivPkg) && g.Name() == m && g.Parent() == nil {
				f = g
			}
		}
		if f == nil {
			r.Need("(" + ivPkg + ".Basis)." + m)
			continue
		}
		nIv := 0
		for _, prm := range f.Params {
			if isInterval(prm.Type()) {
				nIv++
			}
		}
		for _, combo := range shapes(nIv) {
			what := lib.Name(f)
			for _, s := range combo {
				what += " " + s.name
			}
			ivT := func(i int) types.Type { return f.Params[i].Type() }
			x := func(e *eng.Engine) *eng.Val { return e.In.NamedSym("x", types.Typ[types.Int]) }
			init := func(e *eng.Engine, st *eng.State) {
				o := ordered{e}
				min, max := basisEnds(st, e, e.In.Param(f, 0), f.Params[0].Type())
				st.Assume(e.Less(o.ord(min), o.ord(max)), true)
				if nIv == 0 {
					return
				}
				for k := range combo {
					o.assume(st, e.In.Param(f, k+1), combo[k], ivT(k+1), min, max)
				}
			}
			var exit func(e *eng.Engine, st *eng.State, rets []*eng.Val, in ssa.Instruction)
			exit = func(e *eng.Engine, st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				// a result that was not branched on can be both
				for _, v := range rets {
					if _, known := st.Eval(v); !known && types.Identical(v.Typ, types.Typ[types.Bool]) {
						for _, b := range []bool{true, false} {
							if s := st.Clone(); s.Assume(v, b) {
								exit(e, s, rets, in)
							}
						}
						return
					}
				}
				o := ordered{e}
				st, ok := sharpen(e, st)
				if !ok || impossible(e, st) {
					return
				}
				min, max := basisEnds(st, e, e.In.Param(f, 0), f.Params[0].Type())
				xv := x(e)
				st.Assume(e.Less(xv, o.ord(min)), false)
				st.Assume(e.Less(o.ord(max), xv), false)
				var args [][2]lib.Lin
				for k := range combo {
					ls, ok := o.inside(st, e.In.Param(f, k+1), ivT(k+1), xv)
					if !ok {
						r.Bad("exact", what, in.Pos(), st, "%s: the borders of the argument are not known", what)
						return
					}
					args = append(args, ls)
				}
				dead := func(s *eng.State) bool { return impossible(e, s) }
				check := func(ok bool, how string) {
					r.Check(ok, "exact", what, in.Pos(), st, "%s: %s", what, how)
				}
				flag := func(v *eng.Val) (val, ok bool) {
					val, ok = st.Eval(v)
					check(ok, "the result is not decided on the path")
					return
				}
				tt := func(k int) types.Type { return ivT(k).Underlying().(*types.Struct).Field(0).Type() }
				end := func(k int, n string) *eng.Val { return o.ord(st.FieldOf(e.In.Param(f, k), n, tt(k))) }
				le := func(a, b *eng.Val, k int64) bool {
					d := lib.Linear(b).Sub(lib.Linear(a))
					d.C -= k
					return lib.Entails(st, d)
				}
				switch m {
				case "Intersect", "Union":
					found, ok := flag(rets[1])
					if !ok {
						return
					}
					if !found {
						check(dead(o.within(o.within(st, args[0]), args[1])), "there is a value in both the intervals, but the operation says they do not meet")
						return
					}
					res, ok := o.inside(st, rets[0], f.Signature.Results().At(0).Type(), xv)
					check(ok, "it is not known whether the borders belong to the result")
					in := o.within(st, res)
					if m == "Intersect" {
						check(entailsAll(in, args[0]) && entailsAll(in, args[1]), "the result has a value that is not in both the intervals")
						check(entailsAll(o.within(o.within(st, args[0]), args[1]), res), "a value of both the intervals is not in the result")
						return
					}
					check(entailsAll(o.within(st, args[0]), res) && entailsAll(o.within(st, args[1]), res), "a value of an interval is not in the result")
					check(o.outsideAll(in, args, dead), "the result has a value that is in none of the intervals")
				case "Negate":
					list, ok := intervalList(st, rets[0])
					check(ok, "the resulting intervals are not known")
					var res [][2]lib.Lin
					for _, v := range list {
						ls, ok := o.inside(st, v, ivT(1), xv)
						check(ok, "it is not known whether the borders belong to the result")
						check(dead(o.within(o.within(st, ls), args[0])), "the complement has a value of the interval")
						res = append(res, ls)
					}
					check(o.outside(st, args[0], func(s *eng.State) bool { return o.outsideAll(s, res, dead) }), "a value out of the interval is not in the complement")
				case "Before", "After":
					v, ok := flag(rets[0])
					a, b := 1, 2
					if m == "After" {
						a, b = 2, 1
					}
					// a's end is before b's start
					touch := int64(1)
					if !combo[a-1].rin || !combo[b-1].lin {
						touch = 0
					}
					if !ok {
						return
					}
					if v {
						check(le(end(a, "R"), end(b, "L"), touch), "the intervals may share a value")
					} else {
						check(le(end(b, "L"), end(a, "R"), 1-touch), "the intervals share nothing, but are said to meet")
					}
				case "StartsBefore", "EndsAfter":
					v, ok := flag(rets[0])
					if !ok {
						return
					}
					a, b, n := 1, 2, "L"
					if m == "EndsAfter" {
						a, b, n = 2, 1, "R"
					}
					in1, in2 := combo[0].lin, combo[1].lin
					if n == "R" {
						in1, in2 = combo[0].rin, combo[1].rin
					}
					touch := int64(1)
					if in1 && !in2 {
						touch = 0
					}
					if v {
						check(le(end(a, n), end(b, n), touch), "the order of the borders is wrong")
					} else {
						check(le(end(b, n), end(a, n), 1-touch), "the order of the borders is wrong")
					}
				default: // a constructor
					t := f.Signature.Results().At(0).Type()
					ls, ok := o.inside(st, rets[0], t, xv)
					check(ok, "it is not known whether the borders belong to the interval")
					L, R := o.ord(e.In.Param(f, 1)), o.ord(e.In.Param(f, 2))
					lo, hi := lib.Linear(xv).Sub(lib.Linear(L)), lib.Linear(R).Sub(lib.Linear(xv))
					if m == "Open" || m == "OpenL" {
						lo.C--
					}
					if m == "Open" || m == "OpenR" {
						hi.C--
					}
					want := [2]lib.Lin{lo, hi}
					check(entailsAll(o.within(st, ls), want) && entailsAll(o.within(st, want), ls), "the interval has other values than between the borders")
				}
			}
			runExact(p, r, f, init, exit)
		}
		r.AddFunc(f)
	}
}

func runExact(p *lib.Prog, r *lib.Report, f *ssa.Function, init func(e *eng.Engine, st *eng.State), exit func(e *eng.Engine, st *eng.State, rets []*eng.Val, in ssa.Instruction)) {
	e := eng.New(p.SSA)
	e.MaxSteps = 1500000
	o := ordered{e}
	e.Hooks = eng.Hooks{
		Call: func(st *eng.State, c *eng.Call) *eng.Result { return o.call(st, c) },
		Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) { exit(e, st, rets, in) },
	}
	e.Run(f, func(st *eng.State) { init(e, st) })
	r.Covered(e, f)
}

// conditionIntervals decides that "param op value" is turned into the
// intervals of exactly the basis values for which it is true.
func conditionIntervals(p *lib.Prog, r *lib.Report, rule string) {
	var fs []*ssa.Function
	for _, f := range p.InPkg("pkg/ql") {
		// a function of an operation and a value that returns intervals
		sig := f.Signature
		if f.Parent() != nil || sig.Results().Len() != 1 || sig.Params().Len() != 2 || sig.Recv() == nil {
			continue
		}
		sl, ok := sig.Results().At(0).Type().(*types.Slice)
		if !ok || !isInterval(sl.Elem()) || !types.Identical(sig.Params().At(0).Type(), types.Typ[types.String]) {
			continue
		}
		fs = append(fs, f)
	}
	if len(fs) == 0 {
		r.Bad("anchor", "the condition to intervals", token.NoPos, nil, "no function of pkg/ql turns an operation and a value into intervals")
	}
	for _, f := range fs {
		r.AddFunc(f)
		sl := f.Signature.Results().At(0).Type().(*types.Slice)
		for _, op := range []string{"<", "<=", ">", ">=", "=", "!="} {
			what := lib.Name(f) + " " + op
			e := eng.New(p.SSA)
			e.MaxSteps = 1500000
			o := ordered{e}
			ends := func(st *eng.State) (min, max *eng.Val) {
				t := f.Params[0].Type()
				v := e.In.Param(f, 0)
				if pt, ok := t.(*types.Pointer); ok {
					t = pt.Elem()
					v = st.Load(v, t)
				}
				s := t.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if n, ok := s.Field(i).Type().(*types.Named); ok && n.Obj().Name() == "Basis" {
						return basisEnds(st, e, st.FieldOf(v, s.Field(i).Name(), n), n)
					}
				}
				return nil, nil
			}
			e.Hooks = eng.Hooks{
				Call: func(st *eng.State, c *eng.Call) *eng.Result { return o.call(st, c) },
				Panic: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
					r.Check(impossible(e, st), rule, what, in.Pos(), st, "%s: the panic in %s can be reached", what, lib.Name(in.Parent()))
				},
			}
			exit := func(st *eng.State, rets []*eng.Val) {
				if impossible(e, st) {
					r.Ok(rule, what, f.Pos())
					return
				}
				st, _ = sharpen(e, st)
				min, max := ends(st)
				xv := e.In.NamedSym("x", types.Typ[types.Int])
				st.Assume(e.Less(xv, o.ord(min)), false)
				st.Assume(e.Less(o.ord(max), xv), false)
				vo := lib.Linear(o.ord(e.In.Param(f, 2)))
				x := lib.Linear(xv)
				k := func(l lib.Lin, n int64) lib.Lin { l.C += n; return l }
				// the alternatives of "x op val" and of its opposite
				lt, gt, le, ge := k(vo.Sub(x), -1), k(x.Sub(vo), -1), vo.Sub(x), x.Sub(vo)
				var yes, no [][]lib.Lin
				switch op {
				case "<":
					yes, no = [][]lib.Lin{{lt}}, [][]lib.Lin{{ge}}
				case "<=":
					yes, no = [][]lib.Lin{{le}}, [][]lib.Lin{{gt}}
				case ">":
					yes, no = [][]lib.Lin{{gt}}, [][]lib.Lin{{le}}
				case ">=":
					yes, no = [][]lib.Lin{{ge}}, [][]lib.Lin{{lt}}
				case "=":
					yes, no = [][]lib.Lin{{le, ge}}, [][]lib.Lin{{lt}, {gt}}
				case "!=":
					yes, no = [][]lib.Lin{{lt}, {gt}}, [][]lib.Lin{{le, ge}}
				}
				list, ok := intervalList(st, rets[0])
				check := func(ok bool, how string) {
					r.Check(ok, rule, what, f.Pos(), st, "%s: %s", what, how)
				}
				check(ok, "the resulting intervals are not known")
				var res [][2]lib.Lin
				for _, v := range list {
					ls, ok := o.inside(st, v, sl.Elem(), xv)
					check(ok, "it is not known whether the borders belong to the result")
					res = append(res, ls)
				}
				with := func(s *eng.State, alt []lib.Lin) *eng.State {
					s = s.Clone()
					for _, l := range alt {
						o.assumeLin(s, l, true)
					}
					return s
				}
				dead := func(s *eng.State) bool { return impossible(e, s) }
				for _, alt := range yes {
					check(o.outsideAll(with(st, alt), res, dead), "a value for which the condition is true is not in the intervals")
				}
				for _, alt := range no {
					for _, ls := range res {
						check(dead(o.within(with(st, alt), ls)), "the intervals have a value for which the condition is false")
					}
				}
			}
			sts, rets := e.RunWith(f, []*eng.Val{e.In.Param(f, 0), e.In.Const(constant.MakeString(op), types.Typ[types.String]), e.In.Param(f, 2)}, nil, func() *eng.State {
				st := e.NewState()
				min, max := ends(st)
				st.Assume(e.Less(o.ord(min), o.ord(max)), true)
				return st
			}())
			for i, st := range sts {
				exit(st, rets[i])
			}
			r.Covered(e, f)
		}
	}
}

func init() {
	register("C19", func(p *lib.Prog, r *lib.Report) {
		intervalAlgebra(p, r)
		conditionIntervals(p, r, "condition")
		builderRules(p, r)
		idRangeRules(p, r)
		r.Floor("condition", 6)
		r.Floor("exact", 40)
	}, "")
}
