package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

const iterPkg = "golibs/container/iterable"

// structFields finds the fields of a struct type by their types.
func structFields(t *types.Struct, ok func(types.Type) bool) (res []*types.Var) {
	for i := 0; i < t.NumFields(); i++ {
		if ok(t.Field(i).Type()) {
			res = append(res, t.Field(i))
		}
	}
	return res
}

func isFuncT(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }

// iterMethod: a call of HasNext or Next of some iterator, by whatever type.
func iterMethod(c *eng.Call) string {
	if !c.Common.IsInvoke() || c.Common.Method.Pkg() == nil || !strings.HasSuffix(c.Common.Method.Pkg().Path(), "container/iterable") {
		return ""
	}
	return c.Common.Method.Name()
}

// mixerRules: the merging iterator takes an element of a source only when it
// has given away the one before, gives out the one that comes first, and ends
// only when both sources have.
func mixerRules(p *lib.Prog, r *lib.Report) {
	var roots []*ssa.Function
	for _, f := range p.InPkg(iterPkg) {
		if lib.IsTemplate(f) || f.Signature.Recv() == nil || f.Name() != "Next" && f.Name() != "HasNext" {
			continue
		}
		if mixerOf(f) != nil {
			roots = append(roots, f)
		}
	}
	if len(roots) < 2 {
		r.Bad("anchor", iterPkg+".Mixer", token.NoPos, nil, "the merging iterator is not found")
		return
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != iterPkg }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		m := mixerOf(root)
		name := lib.Name(root)
		recv := e.In.Param(root, 0)
		fa := func(base *eng.Val, f *types.Var) *eng.Val {
			return e.In.Node(eng.KField, 0, f.Name(), types.NewPointer(f.Type()), base)
		}
		get := func(st *eng.State, base *eng.Val, f *types.Var) *eng.Val { return st.Load(fa(base, f), f.Type()) }
		src := [2]*eng.Val{fa(recv, m.src[0]), fa(recv, m.src[1])}
		loaded := func(st *eng.State, i int) (val, known bool) { return st.Eval(get(st, src[i], m.load)) }
		// first: the element of the source i comes before that of the other one
		first := func(st *eng.State, i int) bool {
			if l, ok := loaded(st, i); !ok || !l {
				return false
			}
			if l, ok := loaded(st, 1-i); ok && !l {
				return true
			}
			a, b := get(st, src[i], m.elem), get(st, src[1-i], m.elem)
			for _, k := range st.KeysPrefix("sel:") {
				t := st.TS[k]
				v, known := st.Eval(t.V[0])
				if known && (v && t.V[1] == a && t.V[2] == b || !v && t.V[1] == b && t.V[2] == a) {
					return true
				}
			}
			return false
		}
		entry := e.In.Node(eng.KLoad, 0, "", m.state.Type(), fa(recv, m.state))
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if iterMethod(c) == "Next" {
					for i := range src {
						if lib.Strip(c.Args[0]) == get(st, src[i], m.it) {
							l, known := loaded(st, i)
							r.Check(known && !l, "none-overwritten", name, c.Pos(), st, "%s takes an element from a source whose last one is not given out yet: it is lost", name)
						}
					}
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				switch iterMethod(c) {
				case "Next":
					for i := range src {
						if lib.Strip(c.Args[0]) == get(st, src[i], m.it) {
							st.Set("took:"+itoa(i), "", rets...)
						}
					}
				case "HasNext":
					for i := range src {
						if lib.Strip(c.Args[0]) == get(st, src[i], m.it) {
							st.Set("has:"+itoa(i), "", rets[0])
						}
					}
				}
				if c.Fn == nil && !c.Common.IsInvoke() && c.FnVal != nil && c.FnVal.K == eng.KLoad && len(rets) == 1 && len(c.Args) == 2 {
					st.Set("sel:"+itoa(rets[0].ID), "", rets[0], c.Args[0], c.Args[1])
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				// what is taken is kept until it is given out
				out := -1
				if len(rets) == 2 {
					ok, known := st.Eval(rets[1])
					if !known || ok {
						for i := range src {
							if rets[0] == get(st, src[i], m.elem) {
								out = i
							}
							if t, found := st.TS["took:"+itoa(i)]; found && rets[0] == t.V[0] {
								out = i
							}
						}
						r.Check(out >= 0, "gives-out-what-it-has", name, pos, st, "%s gives out something else than an element of a source: %s", name, rets[0])
					}
				}
				for i := range src {
					t, ok := st.TS["took:"+itoa(i)]
					if !ok {
						continue
					}
					had, known := st.Eval(t.V[1])
					l := get(st, src[i], m.load)
					if !known || !had {
						lv, lk := st.Eval(l)
						r.Check(l == t.V[1] || lk && !lv, "nothing-made-up", name, pos, st, "%s keeps an element the source did not give it", name)
					}
					if known && !had {
						continue
					}
					kept := get(st, src[i], m.elem) == t.V[0] && (l == t.V[1] || isTrue(st, l))
					r.Check(kept || out == i, "none-lost", name, pos, st, "%s takes an element from a source and neither keeps it nor gives it out", name)
				}
				state := get(st, recv, m.state)
				n, isConst := eng.ConstInt(state)
				at := func(k int64) bool { // the state it was called in
					b, known := st.Eval(e.Eq(entry, e.In.Int(k)))
					if known {
						return b
					}
					for _, o := range []int64{m.idle, m.chosen[0], m.chosen[1], m.end} { // there are no others
						if b, known := st.Eval(e.Eq(entry, e.In.Int(o))); o != k && (!known || b) {
							return false
						}
					}
					return true
				}
				if out >= 0 {
					l, known := loaded(st, out)
					r.Check(known && !l && isConst && n == m.idle, "none-twice", name, pos, st, "%s gives an element out and keeps it for the next time", name)
					// it was the first one
					if !at(m.of(out)) {
						t := st.Clone()
						t.Store(fa(src[out], m.load), e.In.Bool(true)) // as it was before it was given out
						r.Check(first(t, out), "first-one", name, pos, st, "%s gives out an element though the one of the other source may come before it", name)
					} else {
						r.Ok("first-one", name, pos)
					}
				} else if isConst && !at(n) {
					switch n {
					case m.of(0), m.of(1):
						i := 0
						if n == m.of(1) {
							i = 1
						}
						r.Check(first(st, i), "first-one", name, pos, st, "%s chooses an element though the one of the other source may come before it", name)
					case m.end:
						l1, k1 := loaded(st, 0)
						l2, k2 := loaded(st, 1)
						r.Check(k1 && k2 && !l1 && !l2, "ends-with-both", name, pos, st, "%s ends though a source has an element", name)
					}
				}
				if len(rets) == 2 && out < 0 || len(rets) == 1 {
					b, known := st.Eval(rets[len(rets)-1])
					if known && !b {
						r.Check(isConst && n == m.end || at(m.end), "ends-with-both", name, pos, st, "%s tells that there is nothing more though there may be", name)
					} else if !known {
						r.Check(rets[len(rets)-1] == e.Not(e.Eq(state, e.In.Int(m.end))), "ends-with-both", name, pos, st, "%s: whether there is more does not follow from the state: %s", name, rets[len(rets)-1])
					} else {
						r.Check(len(rets) == 1 && !(isConst && (n == m.end || n == m.idle)), "ends-with-both", name, pos, st, "%s tells that there is more though there is not", name)
					}
				}
			},
		}
	}
	j.Do(nil)
	r.Floor("first-one", 2)
	r.Floor("none-lost", 2)
}

// mixerEnds: what the merging iterator begins with, and that it closes both
// of its sources.
func mixerEnds(p *lib.Prog, r *lib.Report) {
	var roots []*ssa.Function
	for _, f := range p.InPkg(iterPkg) {
		if !lib.IsTemplate(f) && f.Signature.Recv() != nil && (f.Name() == "Init" || f.Name() == "Reset" || f.Name() == "Close") && mixerOf(f) != nil {
			roots = append(roots, f)
		}
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != iterPkg }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		m := mixerOf(root)
		name := lib.Name(root)
		recv := e.In.Param(root, 0)
		fa := func(base *eng.Val, f *types.Var) *eng.Val {
			return e.In.Node(eng.KField, 0, f.Name(), types.NewPointer(f.Type()), base)
		}
		get := func(st *eng.State, base *eng.Val, f *types.Var) *eng.Val { return st.Load(fa(base, f), f.Type()) }
		src := [2]*eng.Val{fa(recv, m.src[0]), fa(recv, m.src[1])}
		it := func(i int) *eng.Val { return e.In.Node(eng.KLoad, 0, "", m.it.Type(), fa(src[i], m.it)) }
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if !c.Common.IsInvoke() || c.Common.Method.Name() != root.Name() {
					return nil
				}
				for i := range src {
					if lib.Strip(c.Args[0]) == it(i) {
						st.Set("done:"+itoa(i), "")
					}
				}
				return nil
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				if root.Name() == "Close" {
					for i := range src {
						r.Check(st.Has("done:"+itoa(i)) || st.IsNil(it(i)), "closes-both", name, pos, st, "%s leaves a source open", name)
					}
					return
				}
				if len(rets) > 0 && !st.IsNil(rets[len(rets)-1]) {
					if c := st.Clone(); !c.Assume(e.Eq(rets[len(rets)-1], e.In.Nil()), true) || root.Name() == "Reset" && !(st.Has("done:0") && st.Has("done:1")) {
						return
					}
				}
				n, isConst := eng.ConstInt(get(st, recv, m.state))
				r.Check(isConst && n == m.idle, "begins-anew", name, pos, st, "%s leaves a choice made before", name)
				for i := range src {
					l, known := st.Eval(get(st, src[i], m.load))
					r.Check(known && !l, "begins-anew", name, pos, st, "%s leaves an element taken before", name)
				}
				if root.Name() == "Init" {
					a, b := get(st, src[0], m.it), get(st, src[1], m.it)
					p2, p3 := e.In.Param(root, 2), e.In.Param(root, 3)
					r.Check(a == p2 && b == p3 || a == p3 && b == p2, "merges-both", name, pos, st, "%s does not merge the iterators it gets", name)
				}
			},
		}
	}
	j.Do(nil)
	r.Floor("closes-both", 1)
	r.Floor("begins-anew", 2)
	r.Floor("merges-both", 1)
}

func isTrue(st *eng.State, v *eng.Val) bool { b, ok := st.Eval(v); return ok && b }

// mixer is the merging iterator, its fields found by their types and its
// states by what Next does in them.
type mixer struct {
	src            [2]*types.Var
	state          *types.Var
	it, load, elem *types.Var
	chosen         [2]int64
	idle, end      int64
}

func (m *mixer) of(i int) int64 { return m.chosen[i] }

func mixerOf(f *ssa.Function) *mixer {
	pt, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	iter := func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Name() == "Iterator" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "container/iterable")
	}
	m := &mixer{}
	srcs := structFields(s, func(t types.Type) bool {
		q, ok := t.Underlying().(*types.Struct)
		return ok && len(structFields(q, iter)) == 1
	})
	ints := structFields(s, isIntT)
	if len(srcs) != 2 || len(ints) != 1 || len(structFields(s, isFuncT)) != 1 {
		return nil
	}
	m.src = [2]*types.Var{srcs[0], srcs[1]}
	m.state = ints[0]
	q := srcs[0].Type().Underlying().(*types.Struct)
	its, loads := structFields(q, iter), structFields(q, isBoolT)
	if len(loads) != 1 || q.NumFields() != 3 {
		return nil
	}
	m.it, m.load = its[0], loads[0]
	for i := 0; i < 3; i++ {
		if v := q.Field(i); v != m.it && v != m.load {
			m.elem = v
		}
	}
	m.idle, m.chosen, m.end = 0, [2]int64{1, 2}, 3
	return m
}

// pageIterator: the iterator over the pages of a log asks for the next page
// only when the current one is used up, and remembers where it goes on.
func pageIterator(p *lib.Prog, r *lib.Report) {
	type iter struct{ buf, pos, next, query, eof *types.Var }
	var roots []*ssa.Function
	its := map[*ssa.Function]*iter{}
	for _, f := range p.InPkg(apiPkg) {
		if f.Signature.Recv() == nil || f.Name() != "Next" && f.Name() != "HasNext" {
			continue
		}
		pt, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		s, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		bufs, poss, nexts := structFields(s, isLogs), structFields(s, isIntT), structFields(s, isStr)
		qs := structFields(s, func(t types.Type) bool { return strings.HasSuffix(lib.TypeKey(t), "storage.QueryRecordsRequest") })
		if len(bufs) == 1 && len(poss) == 1 && len(nexts) == 1 && len(qs) == 1 {
			roots = append(roots, f)
			its[f] = &iter{bufs[0], poss[0], nexts[0], qs[0], nil}
			if b := structFields(s, isBoolT); len(b) == 1 {
				its[f].eof = b[0]
			}
		}
	}
	if len(roots) < 2 {
		r.Bad("anchor", apiPkg+": iterator", token.NoPos, nil, "the iterator over the pages of a log is not found")
		return
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != apiPkg }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		m := its[root]
		name := lib.Name(root)
		recv := e.In.Param(root, 0)
		fa := func(f *types.Var) *eng.Val {
			return e.In.Node(eng.KField, 0, f.Name(), types.NewPointer(f.Type()), recv)
		}
		get := func(st *eng.State, f *types.Var) *eng.Val { return st.Load(fa(f), f.Type()) }
		used := func(st *eng.State) bool { // nothing is left in the buffer
			return lib.Entails(st, lib.Linear(get(st, m.pos)).Sub(lib.Linear(st.Len(get(st, m.buf)))))
		}
		ofBase := func(v *eng.Val, field string) bool {
			v = lib.Strip(v)
			return v.K == eng.KLoad && v.Args[0].K == eng.KField && v.Args[0].Name == field && v.Args[0].Args[0] == fa(m.query) ||
				v.K == eng.KFld && v.Name == field && v.Args[0].K == eng.KLoad && v.Args[0].Args[0] == fa(m.query)
		}
		desc := func(st *eng.State) (val, known bool) {
			st.EachFact(func(f *eng.Val, b bool) {
				for f.K == eng.KUn && f.Op == token.NOT {
					f, b = f.Args[0], !b
				}
				if ofBase(f, "Descending") {
					val, known = b, true
				}
			})
			return
		}
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if t, ok := st.TS["read"]; ok && c.Fn == nil && !c.Common.IsInvoke() {
					for _, a := range c.Args {
						if a == t.V[2] {
							st.Set("told", "")
						}
					}
				}
				if c.Kind == eng.CKDefer || !strings.HasSuffix(c.Name(), "storage.Log).QueryRecords") {
					return nil
				}
				q := c.Args[len(c.Args)-1]
				// at the time of the call nothing may be left in what was the buffer
				ok := used(st) || st.Has("usedup")
				r.Check(ok, "none-overwritten", name, c.Pos(), st, "%s reads on though the records read before are not given out yet: they are lost", name)
				sid := resultField(st, q, "StartID")
				r.Check(sid == get(st, m.next), "goes-on-behind", name, c.Pos(), st, "%s does not read on where it stopped: %s", name, sid.String())
				for _, f := range []string{"Condition", "LogID", "Descending"} {
					r.Check(ofBase(resultField(st, q, f), f), "asks-for-what-was-asked", name+": "+f, c.Pos(), st, "%s does not ask for the %s it was made for", name, f)
				}
				return nil
			},
			Store: func(st *eng.State, fr *eng.Frame, addr, v *eng.Val, in ssa.Instruction) {
				if addr == fa(m.buf) || addr == fa(m.pos) {
					if used(st) && !st.Has("usedup") {
						st.Set("usedup", "")
					}
				}
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				switch n := c.Name(); {
				case strings.HasSuffix(n, "storage.Log).QueryRecords"):
					st.Set("read", "", rets...)
					st.Del("usedup")
				case n == "golibs/ulidutils.NextID" || n == "golibs/ulidutils.PrevID":
					st.Set("id:"+itoa(rets[0].ID), n, c.Args[0])
				case n == "(context.Context).Err":
					st.Set("ctxerr:"+itoa(rets[0].ID), "")
				}
			},
			Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
				c := cond
				for c.K == eng.KUn && c.Op == token.NOT {
					c, taken = c.Args[0], !taken
				}
				if c.K == eng.KBin && c.Op == token.EQL && !taken {
					for _, x := range c.Args {
						if st.Has("ctxerr:" + itoa(x.ID)) {
							st.Set("cancelled", "")
						}
					}
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				buf, at := get(st, m.buf), get(st, m.pos)
				nothing := func(st *eng.State) bool { // the log has no records behind
					t, ok := st.TS["read"]
					if !ok {
						return false
					}
					b, k := st.Eval(e.Eq(st.Len(t.V[0]), e.In.Int(0)))
					return !st.IsNil(t.V[2]) || st.IsNil(t.V[0]) || k && b
				}
				if t, ok := st.TS["read"]; ok && !st.IsNil(t.V[2]) {
					r.Check(st.Has("told"), "tells-errors", name, pos, st, "%s hides that the reading failed", name)
				}
				atEnd := false
				if m.eof != nil {
					end := get(st, m.eof)
					b, known := st.Eval(end)
					was := end.K == eng.KLoad && end.Args[0] == fa(m.eof)
					atEnd = was && known && b
					if !was && (!known || b) {
						c := st.Clone()
						if c.Assume(end, true) {
							r.Check(nothing(c), "ends-at-the-end", name, pos, st, "%s takes it for the end though there may be records: %s", name, end)
						}
					}
				}
				if b, known := st.Eval(rets[len(rets)-1]); !known || !b {
					c := st.Clone()
					if c.Assume(rets[len(rets)-1], false) {
						if m.eof != nil {
							end := get(c, m.eof)
							b, known := c.Eval(end)
							atEnd = end.K == eng.KLoad && end.Args[0] == fa(m.eof) && known && b
						}
						r.Check(nothing(c) || atEnd || st.Has("cancelled"), "ends-at-the-end", name+": result", pos, st, "%s tells that there is nothing more though there may be", name)
					}
				}
				if t, ok := st.TS["read"]; ok && !st.IsNonNil(t.V[2]) {
					// what was read is in the buffer from its beginning on
					none := st.IsNil(t.V[0]) || func() bool { b, k := st.Eval(e.Eq(st.Len(t.V[0]), e.In.Int(0))); return k && b }()
					n, isConst := eng.ConstInt(at)
					ok := none || buf == t.V[0] && isConst && (n == 0 && len(rets) == 1 || n <= 1 && len(rets) == 2)
					r.Check(ok, "none-lost", name, pos, st, "%s reads records and does not keep all of them: %s from %s", name, buf, at)
				}
				if len(rets) == 1 {
					if b, ok := st.Eval(rets[0]); !ok || b {
						more := lib.Linear(st.Len(buf)).Sub(lib.Linear(at))
						more.C--
						c := st.Clone()
						c.Assume(rets[0], true)
						r.Check(lib.Entails(c, more), "has-next", name, pos, st, "%s tells that there is a record though there may be none", name)
					}
					return
				}
				if b, ok := st.Eval(rets[1]); ok && !b {
					return
				}
				v := lib.Strip(rets[0])
				if v.K == eng.KLoad {
					v = v.Args[0]
				}
				if v.K != eng.KIndex && v.K != eng.KIdx || v.Args[0] != buf {
					r.Check(false, "gives-out-what-it-has", name, pos, st, "%s gives out something else than a record of the buffer: %s", name, rets[0])
					return
				}
				k := v.Args[1]
				one := lib.Linear(at).Sub(lib.Linear(k))
				r.Check(one.IsConst() && one.C == 1, "one-by-one", name, pos, st, "%s gives out the record %s of the buffer and goes on with %s", name, k, at)
				// and the one it gives out is the one it stood at
				begin := e.In.Node(eng.KLoad, 0, "", m.pos.Type(), fa(m.pos))
				n, isConst := eng.ConstInt(k)
				r.Check(k == begin && !st.Has("read") || isConst && n == 0 && st.Has("read"), "one-by-one", name+": from", pos, st, "%s does not give out the record it stands at: %s", name, k)
				next := get(st, m.next)
				good := false
				if t, ok := st.TS["id:"+itoa(next.ID)]; ok {
					d, known := desc(st)
					good = isIDOf(t.V[0], rets[0]) && known && (t.S == "golibs/ulidutils.NextID" && !d || t.S == "golibs/ulidutils.PrevID" && d)
				} else if x, i, ok := cutAt(next); ok && x == buf {
					d := lib.Linear(i).Sub(lib.Linear(k))
					good = d.IsConst() && d.C == 1
				}
				r.Check(good, "goes-on-behind", name, pos, st, "%s gives out %s and will read on from %s", name, rets[0], next)
			},
		}
	}
	j.Do(nil)
	r.Floor("one-by-one", 1)
	r.Floor("goes-on-behind", 2)
}

func init() {
	register("C27", func(p *lib.Prog, r *lib.Report) {
		mixerRules(p, r)
		mixerEnds(p, r)
		pageIterator(p, r)
	}, "")
}
