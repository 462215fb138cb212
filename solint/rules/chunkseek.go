package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// idSearch tells what the condition of a search over the records looks for:
// how the ID of a record compares with the one given.
func idSearch(cb *eng.Val) string {
	cb = lib.Strip(cb)
	if cb.Fn == nil || len(cb.Fn.Blocks) != 1 || len(cb.Fn.Params) != 1 {
		return ""
	}
	f := cb.Fn
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok {
		return ""
	}
	b, ok := ret.Results[0].(*ssa.BinOp)
	if !ok {
		return ""
	}
	op, x, y := b.Op, b.X, b.Y
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}
	if _, isC := x.(*ssa.Const); isC {
		x, y, op = y, x, flip[op]
	}
	cl, ok := x.(*ssa.Call)
	k, kok := y.(*ssa.Const)
	if !ok || !kok || k.Value == nil || len(cl.Call.Args) != 2 || !strings.HasSuffix(lib.CallName(cl), ".Compare") {
		return ""
	}
	switch n := k.Int64(); { // Compare gives -1, 0 or 1
	case n == 0:
	case n == -1 && op == token.GTR:
		op = token.GEQ
	case n == 1 && op == token.GEQ:
		op = token.GTR
	case n == 1 && op == token.EQL:
		op = token.GTR
	case n == -1 && op == token.NEQ:
		op = token.GEQ
	default:
		return ""
	}
	// which side is the record's
	var ofIdx func(v ssa.Value, d int) bool
	ofIdx = func(v ssa.Value, d int) bool {
		if d > 12 || v == nil {
			return false
		}
		if v == ssa.Value(f.Params[0]) {
			return true
		}
		switch v := v.(type) {
		case *ssa.Alloc:
			for _, r := range *v.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(v) && ofIdx(s.Val, d+1) {
					return true
				}
			}
		case ssa.Instruction:
			for _, o := range v.Operands(nil) {
				if ofIdx(*o, d+1) {
					return true
				}
			}
		}
		return false
	}
	l, r := ofIdx(cl.Call.Args[0], 0), ofIdx(cl.Call.Args[1], 0)
	switch {
	case l && !r:
		return op.String()
	case r && !l:
		return flip[op].String()
	}
	return ""
}

// chunkSeek decides where the reading of a chunk begins, how it goes on and
// where it ends.
func chunkSeek(p *lib.Prog, r *lib.Report) {
	_, codec := entrySize(p)
	_, total := chunkCounters(p)
	rt, ok := structOf(p, cfs, "ChunkReader").(*types.Struct)
	next, seek, has, open := p.Func(rdrT+"Next"), p.Func(rdrT+"SetStartID"), p.Func(rdrT+"HasNext"), p.Func(chkT+"OpenChunkReader")
	if !ok || codec == nil || total == "" || next == nil || seek == nil || has == nil || open == nil {
		r.Note("the reader of a chunk is not visible to the analysis")
		return
	}
	var ints []string
	chunkF := ""
	for i := 0; i < rt.NumFields(); i++ {
		f := rt.Field(i)
		if isIntT(f.Type()) {
			ints = append(ints, f.Name())
		}
		if strings.HasSuffix(lib.TypeKey(f.Type()), ".Chunk") {
			chunkF = f.Name()
		}
	}
	// the place is what the index is read at
	place, step := "", ""
	for _, f := range p.InPkg(cfs) {
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() != codec || len(c.Common().Args) < 2 {
				return
			}
			for _, n := range ints {
				if b := fieldReadOf(c.Common().Args[1], n); b != nil && strings.HasSuffix(lib.TypeKey(b.Type()), ".ChunkReader") {
					place = n
				}
			}
		})
	}
	if len(ints) == 2 {
		for _, n := range ints {
			if n != place {
				step = n
			}
		}
	}
	if place == "" || step == "" || chunkF == "" {
		r.Note("the place and the direction of a chunk reader are not told apart")
		return
	}
	intT := types.Typ[types.Int]
	j := &lib.Job{P: p, R: r, Roots: []*ssa.Function{next, seek, has, open}, NoHavoc: true, KeepFact: func(v *eng.Val) bool { return true }, NoInline: func(root, f *ssa.Function) bool {
		return lib.PkgOf(f) != cfs
	}}
	j.Init = func(e *eng.Engine, root *ssa.Function, st *eng.State) {
		if root == open {
			return
		}
		// the reader goes by one
		self := e.In.Param(root, 0)
		s := st.Load(e.In.Node(eng.KField, 0, step, nil, self), intT)
		pl := st.Load(e.In.Node(eng.KField, 0, place, nil, self), intT)
		st.Set("from", "", pl, s)
		c := st.Load(e.In.Node(eng.KField, 0, chunkF, nil, self), fieldType(root.Params[0].Type(), chunkF))
		st.Assume(e.Less(st.Load(e.In.Node(eng.KField, 0, total, nil, c), intT), e.In.Int(0)), false)
	}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		fld := func(st *eng.State, obj *eng.Val, n string) *eng.Val {
			return st.Load(e.In.Node(eng.KField, 0, n, nil, obj), intT)
		}
		self := e.In.Param(root, 0)
		totalOfReader := func(st *eng.State) *eng.Val {
			c := st.Load(e.In.Node(eng.KField, 0, chunkF, nil, self), fieldType(root.Params[0].Type(), chunkF))
			return fld(st, c, total)
		}
		is := func(v *eng.Val, want lib.Lin) bool {
			d := lib.Linear(v).Sub(want)
			return d.IsConst() && d.C == 0
		}
		plus := func(l lib.Lin, n int64) lib.Lin { return lib.Lin{C: l.C + n, Coef: l.Coef} }
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind == eng.CKCall && c.Name() == mmT+"Buffer" && root == next {
					t, ok := st.TS["entry"]
					if ok {
						off, sz := st.FieldOf(t.V[0], "offset", nil), st.FieldOf(t.V[0], "size", nil)
						if off != nil && sz != nil {
							r.Check(lib.Strip(off) == lib.Strip(c.Args[1]) && lib.Strip(sz) == lib.Strip(c.Args[2]), "record-read-whole", name, c.Pos(), st, "%s reads %s bytes at %s, the index says %s at %s", name, c.Args[2], c.Args[1], sz, off)
						}
					}
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				switch {
				case c.Name() == "sort.Search":
					st.Set("search", idSearch(c.Args[1]), rets[0], c.Args[0])
				case c.Name() == mmT+"Buffer":
					st.Set("data:"+itoa(rets[0].ID), "")
				}
			},
			Enter: func(st *eng.State, fr *eng.Frame) {
				if fr.Fn == codec && root == next {
					idx := e.Env(st, fr, fr.Fn.Params[1])
					r.Check(idx == st.TS["from"].V[0], "records-one-by-one", name, fr.Fn.Pos(), st, "%s does not read the record it has come to", name)
				}
			},
			Leave: func(st *eng.State, fr *eng.Frame, rets []*eng.Val) {
				if fr.Fn == codec && root == next {
					st.Set("entry", "", rets[0])
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				switch root {
				case open:
					if len(rets) != 2 || !st.IsNil(rets[1]) {
						return
					}
					obj := rets[0]
					desc, known := st.Eval(e.In.Param(root, 1))
					if !known {
						r.Note("the direction of a chunk reader is not clear")
						return
					}
					pl, s := fld(st, obj, place), fld(st, obj, step)
					if desc {
						r.Check(is(s, lib.Lin{C: -1}) && is(pl, plus(lib.Linear(fld(st, self, total)), -1)), "reading-begins", name, pos, st, "a descending reader must begin with the last record and go back one by one: it begins with %s and goes by %s", pl, s)
					} else {
						r.Check(is(s, lib.Lin{C: 1}) && is(pl, lib.Lin{}), "reading-begins", name, pos, st, "an ascending reader must begin with the first record and go on one by one: it begins with %s and goes by %s", pl, s)
					}
				case has:
					pl, t := lib.Linear(fld(st, self, place)), lib.Linear(totalOfReader(st))
					for _, b := range []bool{true, false} {
						s := st.Clone()
						if v, known := s.Eval(rets[0]); known && v != b || !known && !s.Assume(rets[0], b) {
							continue
						}
						in := lib.Entails(s, pl) && lib.Entails(s, plus(t.Sub(pl), -1))
						out := lib.Entails(s, lib.Lin{C: -1}.Sub(pl)) || lib.Entails(s, pl.Sub(t))
						r.Check(b && in || !b && out, "reading-ends", name, pos, s, "%s says %t although the place %s may be %s the records of the chunk", name, b, pl.String(), map[bool]string{true: "outside of", false: "among"}[b])
					}
				case next:
					t := st.TS["from"]
					ok, known := st.Eval(rets[1])
					if !known {
						return
					}
					pl := fld(st, self, place)
					if !ok {
						r.Check(pl == t.V[0], "records-one-by-one", name, pos, st, "%s gives no record but goes on to %s", name, pl)
						return
					}
					en, read := st.TS["entry"]
					if !read {
						r.Check(false, "records-one-by-one", name, pos, st, "%s gives a record that is not the next one", name)
						return
					}
					r.Check(is(pl, lib.LinearSum(t.V[0], t.V[1])), "records-one-by-one", name, pos, st, "%s goes from %s to %s instead of one record further", name, t.V[0], pl)
					id, ed := st.FieldOf(rets[0], "ID", nil), st.FieldOf(en.V[0], "ID", nil)
					if id != nil && ed != nil {
						r.Check(id == ed, "record-read-whole", name, pos, st, "%s gives the ID %s with the record, the index has %s", name, id, ed)
					}
					if d := st.FieldOf(rets[0], "UnsafePayload", nil); d != nil {
						r.Check(st.Has("data:"+itoa(lib.Strip(d).ID)), "record-read-whole", name, pos, st, "%s does not give the payload the index points at, but %s", name, d)
					}
				case seek:
					t, ok := st.TS["search"]
					if !ok || t.S == "" {
						r.Note("%s: what is searched for is not clear to the analysis", name)
						return
					}
					s := lib.Linear(st.TS["from"].V[1])
					var desc bool
					if v, known := st.Eval(e.Eq(st.TS["from"].V[1], e.In.Int(-1))); known {
						desc = v
					} else if v, known := st.Eval(e.Eq(st.TS["from"].V[1], e.In.Int(1))); known {
						desc = !v
					} else if lib.Entails(st, lib.Lin{C: -1}.Sub(s)) {
						desc = true
					} else if !lib.Entails(st, s) {
						r.Note("%s: the direction is not clear to the analysis", name)
						return
					}
					pl, n, f, all := fld(st, self, place), rets[0], lib.Linear(t.V[0]), lib.Linear(totalOfReader(st))
					x := lib.Linear(t.V[1]).Sub(all)
					r.Check(x.IsConst() && x.C == 0, "start-found", name, pos, st, "%s looks for the start among %s records only", name, t.V[1])
					if desc {
						r.Check(t.S == ">" && is(pl, plus(f, -1)), "start-found", name, pos, st, "reading backwards must begin with the last record that is not behind the start: %s looks for the first ID %s the start and goes to %s", name, t.S, pl)
						r.Check(is(n, plus(lib.Linear(pl), 1)), "start-found", name, pos, st, "%s tells %s records are left, reading backwards from %s", name, n, pl)
					} else {
						r.Check(t.S == ">=" && is(pl, f), "start-found", name, pos, st, "the reading must begin with the first record that is not before the start: %s looks for the first ID %s the start and goes to %s", name, t.S, pl)
						r.Check(is(n, all.Sub(lib.Linear(pl))), "start-found", name, pos, st, "%s tells %s records are left from %s on", name, n, pl)
					}
				}
			},
		}
	}
	j.Do(nil)
	r.Floor("reading-begins", 1)
	r.Floor("reading-ends", 1)
	r.Floor("records-one-by-one", 1)
}
