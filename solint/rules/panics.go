package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// isIndexing: an operation that panics when an index is out of range.
func isIndexing(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.IndexAddr:
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if _, ok := x.Index.(*ssa.Const); ok {
				_, arr := p.Elem().Underlying().(*types.Array)
				return !arr
			}
		}
		return true
	case *ssa.Index:
		_, c := x.Index.(*ssa.Const)
		_, arr := x.X.Type().Underlying().(*types.Array)
		return !(c && arr)
	case *ssa.Lookup:
		_, m := x.X.Type().Underlying().(*types.Map)
		return !m
	case *ssa.Slice:
		return x.Low != nil || x.High != nil
	}
	return false
}

// lenOf is the abstract length of an indexed operand.
func lenOf(st *eng.State, v *eng.Val, t types.Type) *eng.Val {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return st.E.In.Int(a.Len())
	}
	return st.Len(v)
}

// lessCallback: the function compares elements by index for a sort or a search
// and gets valid indexes from it.
func lessCallback(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			for _, ref := range *mc.Referrers() {
				if c, ok := ref.(*ssa.Call); ok {
					switch lib.CallName(c) {
					case "sort.Slice", "sort.SliceStable", "sort.Search", "sort.SliceIsSorted":
						return true
					}
				}
			}
		}
	}
	return false
}

// nonNegFields lists the integer fields that only ever get non-negative
// constants and increments.
func nonNegFields(p *lib.Prog, pkgs ...string) map[string]bool {
	bad, all := map[string]bool{}, map[string]bool{}
	for _, f := range p.InPkg(pkgs...) {
		eachInstr(f, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			k := fieldKey(fa)
			all[k] = true
			switch v := s.Val.(type) {
			case *ssa.Const:
				if b, ok := v.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 || v.Int64() < 0 {
					bad[k] = true
				}
			case *ssa.BinOp:
				c, ok := v.Y.(*ssa.Const)
				u, ok2 := v.X.(*ssa.UnOp)
				if !ok || !ok2 || v.Op != token.ADD || c.Int64() < 0 {
					bad[k] = true
					return
				}
				fb, ok := u.X.(*ssa.FieldAddr)
				if !ok || fieldKey(fb) != k {
					bad[k] = true
				}
			default:
				bad[k] = true
			}
		})
	}
	for k := range bad {
		delete(all, k)
	}
	return all
}

func fieldKey(fa *ssa.FieldAddr) string {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	return lib.TypeKey(t) + "." + itoa(fa.Field)
}

// stuckFields tells which fields never change once their object is built.
func stuckFields(p *lib.Prog) func(fa *ssa.FieldAddr) bool {
	mut := map[string]bool{}
	whole := map[string]bool{}
	fresh := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Alloc:
				return true
			case *ssa.FieldAddr:
				v = x.X
				continue
			}
			return false
		}
	}
	for _, f := range p.Funcs {
		gen := strings.HasPrefix(lib.PkgOf(f), "api/gen")
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				if gen || fresh(x.Addr) {
					return
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					mut[fieldKey(fa)] = true
				} else {
					whole[lib.TypeKey(x.Val.Type())] = true
				}
			case *ssa.FieldAddr:
				for _, ref := range *x.Referrers() {
					switch y := ref.(type) {
					case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef:
					case *ssa.Store:
						if y.Val == x {
							mut[fieldKey(x)] = true
						}
					case *ssa.IndexAddr:
					default:
						if !gen {
							mut[fieldKey(x)] = true
						}
					}
				}
			}
		})
	}
	return func(fa *ssa.FieldAddr) bool {
		t := fa.X.Type().Underlying().(*types.Pointer).Elem()
		return !mut[fieldKey(fa)] && !whole[lib.TypeKey(t)]
	}
}

func operands(i ssa.Instruction) (x, idx ssa.Value) {
	switch y := i.(type) {
	case *ssa.IndexAddr:
		return y.X, y.Index
	case *ssa.Index:
		return y.X, y.Index
	case *ssa.Lookup:
		return y.X, y.Index
	}
	return nil, nil
}

func fieldName(f *ssa.Field) string {
	return f.X.Type().Underlying().(*types.Struct).Field(f.Field).Name()
}

func appendsRecords(name string) bool {
	return strings.HasSuffix(name, "chunkfs.Chunk).AppendRecords") || strings.HasSuffix(name, "localLog).appendRecords")
}

// distinctChars: elements with different values have different indexes.
func distinctChars(e *eng.Engine, st *eng.State) *eng.State {
	type el struct{ s, i, c *eng.Val }
	var els []el
	st.EachFact(func(f *eng.Val, b bool) {
		if b && f.K == eng.KBin && f.Op == token.EQL && f.Args[1].K == eng.KConst && f.Args[0].K == eng.KIdx && len(f.Args[0].Args) == 2 {
			els = append(els, el{f.Args[0].Args[0], f.Args[0].Args[1], f.Args[1]})
		}
	})
	res := st
	for _, a := range els {
		for _, b := range els {
			if a.s == b.s && a.c != b.c && a.i != b.i && lib.Entails(st, lib.Linear(b.i).Sub(lib.Linear(a.i))) {
				if res == st {
					res = st.Clone()
				}
				res.Assume(e.Less(a.i, b.i), true)
			}
		}
	}
	return res
}

// localBounds proves an index or slice expression inside its function.
func localBounds(b *lib.Bounds, i ssa.Instruction) bool {
	blk := i.Block()
	if x, idx := operands(i); idx != nil {
		l := b.Lin(idx)
		up := b.Len(x).Sub(l)
		up.C--
		return b.Holds(l, blk) && b.Holds(up, blk)
	}
	x := i.(*ssa.Slice)
	hi := b.Len(x.X)
	if x.High != nil {
		h := b.Lin(x.High)
		if !b.Holds(hi.Sub(h), blk) || !b.Holds(h, blk) {
			return false
		}
		hi = h
	}
	if x.Low != nil {
		l := b.Lin(x.Low)
		return b.Holds(l, blk) && b.Holds(hi.Sub(l), blk)
	}
	return true
}

// enumIndex: a package-level table, which nothing else is assigned to, is
// indexed by an enumeration all of whose constants are inside the table.
func enumIndex(p *lib.Prog, x ssa.Value, idx ssa.Value) bool {
	for {
		c, ok := idx.(*ssa.Convert)
		if !ok {
			break
		}
		idx = c.X
	}
	nt, ok := idx.Type().(*types.Named)
	if !ok || nt.Obj().Pkg() == nil {
		return false
	}
	var g *ssa.Global
	switch y := x.(type) {
	case *ssa.UnOp:
		g, _ = y.X.(*ssa.Global)
	case *ssa.Global:
		g = y
	}
	if g == nil {
		return false
	}
	n := int64(-1)
	switch t := g.Type().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Array:
		n = t.Len()
	case *types.Slice:
		stores := 0
		for _, f := range p.InPkg(strings.TrimPrefix(strings.TrimPrefix(g.Pkg.Pkg.Path(), lib.Mod), "/")) {
			eachInstr(f, func(in ssa.Instruction) {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					stores++
				}
			})
		}
		for _, b := range g.Pkg.Func("init").Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || s.Addr != g {
					continue
				}
				if sl, ok := s.Val.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
					if pt, ok := sl.X.Type().Underlying().(*types.Pointer); ok {
						if a, ok := pt.Elem().Underlying().(*types.Array); ok {
							n = a.Len()
						}
					}
				}
			}
		}
		if stores > 1 {
			return false
		}
	}
	if n < 0 {
		return false
	}
	cnt := 0
	sc := nt.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		c, ok := sc.Lookup(name).(*types.Const)
		if !ok || !types.Identical(c.Type(), nt) {
			continue
		}
		v, ok := constant.Int64Val(c.Val())
		if !ok || v < 0 || v >= n {
			return false
		}
		cnt++
	}
	return cnt > 0
}

// inBounds checks every index and slice expression of the packages.
func inBounds(p *lib.Prog, r *lib.Report, ds []*dialectFn, skip func(f *ssa.Function) bool, pkgs ...string) {
	byFn := map[*ssa.Function]*dialectFn{}
	for _, d := range ds {
		byFn[d.fn] = d
	}
	var mu sync.Mutex
	met := map[ssa.Instruction]bool{}
	undecided := map[string]bool{}
	nonNeg := nonNegFields(p, pkgs...)
	stuck := stuckFields(p)
	low := func(v ssa.Value) (int64, bool) {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && nonNeg[fieldKey(fa)] {
				return 0, true
			}
		}
		return 0, false
	}
	written := func(v ssa.Value, b *lib.Bounds) []lib.Lin {
		// the chunk writes at most the given records
		fld, ok := v.(*ssa.Field)
		if !ok {
			return nil
		}
		e, ok := fld.X.(*ssa.Extract)
		if !ok || e.Index != 0 {
			return nil
		}
		c, ok := e.Tuple.(*ssa.Call)
		if !ok || !appendsRecords(lib.CallName(c)) || !strings.HasSuffix(fieldName(fld), "Written") {
			return nil
		}
		w := b.Lin(v)
		return []lib.Lin{w, b.Len(c.Call.Args[len(c.Call.Args)-1]).Sub(w)}
	}
	proved := map[ssa.Instruction]bool{}
	hasIdx := map[*ssa.Function]bool{}
	for _, f := range p.InPkg(pkgs...) {
		if skip(f) {
			continue
		}
		var b *lib.Bounds
		eachInstr(f, func(i ssa.Instruction) {
			if !isIndexing(i) {
				return
			}
			if b == nil {
				b = lib.NewBounds(f, stuck, low, written)
			}
			if x, idx := operands(i); idx != nil && enumIndex(p, x, idx) || localBounds(b, i) {
				proved[i] = true
				r.Ok("in-range", lib.Name(f)+": index "+exprOf(i), i.Pos())
			} else {
				hasIdx[f] = true
			}
		})
		r.AddFunc(f)
	}
	rel := p.Reaching(func(f *ssa.Function, i ssa.Instruction) bool { return hasIdx[f] })
	isI := func(v *eng.Val) bool {
		if v.K == eng.KLen {
			return true
		}
		if _, ok := eng.ConstInt(v); ok {
			return true
		}
		if v.Typ == nil {
			return false
		}
		b, ok := v.Typ.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	j := &lib.Job{P: p, R: r, Roots: p.Roots(pkgs...), Relevant: rel, NoHavoc: true,
		NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != lib.PkgOf(root) || skip(g) },
		KeepFact: func(f *eng.Val) bool {
			for f.K == eng.KUn && f.Op == token.NOT {
				f = f.Args[0]
			}
			return f.K == eng.KBin && len(f.Args) == 2 && (isI(f.Args[0]) || isI(f.Args[1]))
		}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		atMost := func(st *eng.State, a, b *eng.Val) { st.Assume(e.Less(b, a), false) }
		return eng.Hooks{
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if len(rets) == 0 || len(c.Args) == 0 {
					return
				}
				switch strings.SplitN(c.Name(), "[", 2)[0] {
				case "slices.BinarySearch", "slices.BinarySearchFunc", "sort.SearchStrings", "sort.SearchInts":
					atMost(st, e.In.Int(0), rets[0])
					atMost(st, rets[0], st.Len(c.Args[0]))
				case "sort.Search":
					atMost(st, e.In.Int(0), rets[0])
					atMost(st, rets[0], c.Args[0])
				case "slices.Clone":
					st.Assume(e.Eq(st.Len(rets[0]), st.Len(c.Args[0])), true)
				case "strings.Index", "strings.IndexByte", "strings.LastIndex", "strings.LastIndexByte", "bytes.Index", "bytes.IndexByte", "slices.Index", "slices.IndexFunc", "strings.IndexRune", "strings.IndexAny", "strings.IndexFunc":
					atMost(st, e.In.Int(-1), rets[0])
					st.Assume(e.Less(rets[0], st.Len(c.Args[0])), true)
				}
				if appendsRecords(c.Name()) {
					w := st.FieldOf(rets[0], "Written", types.Typ[types.Int])
					atMost(st, e.In.Int(0), w)
					atMost(st, w, st.Len(c.Args[len(c.Args)-1]))
				}
			},
			Instr: func(st *eng.State, fr *eng.Frame, i ssa.Instruction) {
				f := i.Parent()
				if !isIndexing(i) || skip(f) || !hasIdx[f] || proved[i] {
					return
				}
				mu.Lock()
				met[i] = true
				mu.Unlock()
				var know func(v ssa.Value, d int)
				know = func(v ssa.Value, d int) {
					if d > 4 {
						return
					}
					switch x := v.(type) {
					case *ssa.UnOp:
						if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && nonNeg[fieldKey(fa)] {
							atMost(st, e.In.Int(0), e.Env(st, fr, x))
						}
					case *ssa.BinOp:
						know(x.X, d+1)
						know(x.Y, d+1)
					case *ssa.Convert:
						know(x.X, d+1)
					}
				}
				st = distinctChars(e, st)
				check := func(lo, idx, hi *eng.Val, hiIncl bool, what string) {
					l := lib.Linear(idx)
					k := int64(1)
					if hiIncl {
						k = 0
					}
					up := lib.Linear(hi).Sub(l)
					up.C -= k
					low := l
					if lo != nil {
						low = l.Sub(lib.Linear(lo))
					}
					ok, ok2 := lib.Entails(st, up), lib.Entails(st, low)
					why := "may be too big"
					if !ok2 {
						why = "may be negative"
					}
					if (ok || widened(st, up)) && (ok2 || widened(st, low)) && !(ok && ok2) {
						mu.Lock()
						undecided[lib.Name(f)+": "+what+" "+exprOf(i)] = true
						mu.Unlock()
						return
					}
					r.Check(ok && ok2, "in-range", lib.Name(f)+": "+what+" "+exprOf(i), i.Pos(), st, "%s: the %s %s of %s %s", name, what, idx, hi, why)
				}
				index := func(x, idx ssa.Value) {
					know(idx, 0)
					ln := lenOf(st, e.Env(st, fr, x), x.Type())
					check(nil, e.Env(st, fr, idx), ln, false, "index")
				}
				switch x := i.(type) {
				case *ssa.IndexAddr:
					index(x.X, x.Index)
				case *ssa.Index:
					index(x.X, x.Index)
				case *ssa.Lookup:
					index(x.X, x.Index)
				case *ssa.Slice:
					ln := lenOf(st, e.Env(st, fr, x.X), x.X.Type())
					var lo *eng.Val
					if x.Low != nil {
						know(x.Low, 0)
						lo = e.Env(st, fr, x.Low)
					}
					if x.High != nil {
						know(x.High, 0)
						hi := e.Env(st, fr, x.High)
						check(lo, hi, ln, true, "upper bound")
						ln = hi
					}
					if lo != nil {
						check(nil, lo, ln, true, "lower bound")
					}
				}
			},
		}
	}
	j.Init = func(e *eng.Engine, root *ssa.Function, st *eng.State) { assumeChecked(p, e, root, st, byFn[root]) }
	j.Do(nil)
	// what no root leads to is decided on its own
	left := func(f func(g *ssa.Function, i ssa.Instruction)) {
		for _, g := range p.InPkg(pkgs...) {
			if hasIdx[g] && !skip(g) {
				eachInstr(g, func(i ssa.Instruction) {
					if isIndexing(i) && !proved[i] && !met[i] {
						f(g, i)
					}
				})
			}
		}
	}
	j.Roots = nil
	left(func(g *ssa.Function, i ssa.Instruction) {
		if len(j.Roots) == 0 || j.Roots[len(j.Roots)-1] != g {
			j.Roots = append(j.Roots, g)
		}
	})
	j.Do(nil)
	for _, k := range sortedKeys(undecided) {
		r.Note("in-range: not decided, the value comes from a loop: %s", k)
	}
	left(func(g *ssa.Function, i ssa.Instruction) {
		if i.Block() != nil && reachable(i.Block()) {
			r.Bad("in-range", lib.Name(g)+": index "+exprOf(i), i.Pos(), nil, "%s: the index is not decided, the code is not reached by the analysis", lib.Name(g))
		}
	})
}

// widened: the goal is about values a loop gave, which the analysis does not
// know well enough to tell, and no guard of the path is about just that and
// falls short. (The first round of each loop is walked with the true values.)
func widened(st *eng.State, goal lib.Lin) bool {
	loopy := false
	for a := range goal.Coef {
		loopy = loopy || fromLoop(a, 0)
	}
	if !loopy {
		return false
	}
	weak := false
	st.EachFact(func(f *eng.Val, b bool) {
		if f.K != eng.KBin || len(f.Args) != 2 || f.Op != token.LSS {
			return
		}
		d := lib.Linear(f.Args[1]).Sub(lib.Linear(f.Args[0]))
		if b {
			d.C--
		} else {
			d = lib.Linear(f.Args[0]).Sub(lib.Linear(f.Args[1]))
		}
		if d = d.Sub(goal); d.IsConst() && d.C > 0 {
			weak = true
		}
	})
	return !weak
}

func fromLoop(v *eng.Val, d int) bool {
	if v.K == eng.KSym && (v.Name == "loop" || strings.HasPrefix(v.Name, "lw")) {
		return true
	}
	if d > 8 {
		return false
	}
	for _, a := range v.Args {
		if fromLoop(a, d+1) {
			return true
		}
	}
	return false
}

// reachable: there is a way to the block from the start.
func reachable(b *ssa.BasicBlock) bool {
	return b == b.Parent().Blocks[0] || b.Idom() != nil
}

func exprOf(i ssa.Instruction) string {
	n := 0
	for _, b := range i.Parent().Blocks {
		for _, x := range b.Instrs {
			if isIndexing(x) {
				n++
				if x == i {
					return itoa(n)
				}
			}
		}
	}
	return "?"
}

func init() {
	register("C14", func(p *lib.Prog, r *lib.Report) {
		skip := func(f *ssa.Function) bool {
			file := p.File(f)
			return strings.HasSuffix(file, "testcntnr.go") || strings.HasSuffix(file, "testsuite.go") || lessCallback(f)
		}
		ds := dialects(p, "pkg/ql")
		inBounds(p, r, ds, skip, apiPkg, restPkg, "pkg/ql", lfs, "pkg/storage/buntdb", "pkg/storage/postgres", "pkg/storage/cache", "pkg/intervals", "golibs/ulidutils", "golibs/container", "golibs/container/iterable", "golibs/container/lru", "golibs/cast")
		intervalPanics(p, r, "pkg/ql")
		req := []string{apiPkg, restPkg, "pkg/ql", lfs, "pkg/storage/buntdb", "pkg/storage/postgres", "pkg/storage/cache", "golibs/ulidutils", "golibs/cast"}
		noPanics(p, r, skip, req...)
		boundedAllocs(p, r, skip, req...)
		nesting(p, r, "pkg/ql")
		optionalParts(p, r, ds, "pkg/ql", restPkg)
		typedValues(p, r, ds, skip, req[:len(req)-1]...)
		checkedParams(p, r, "pkg/ql")
		constantIDs(p, r)
		divisions(p, r, skip, req...)
	}, "")
}
