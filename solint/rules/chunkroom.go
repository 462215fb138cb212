package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// entrySize is the number of bytes an entry of the records index takes, as the
// reader of the index steps through it.
func entrySize(p *lib.Prog) (int64, *ssa.Function) {
	for _, f := range p.InPkg(cfs) {
		if f.Signature.Recv() == nil {
			continue
		}
		if _, ok := f.Signature.Recv().Type().Underlying().(*types.Slice); !ok {
			continue
		}
		reads, k := false, int64(0)
		eachInstr(f, func(in ssa.Instruction) {
			if n := lib.CallName(in); strings.HasPrefix(n, "(encoding/binary.") && strings.Contains(n, ".Uint") {
				reads = true
			}
			if b, ok := in.(*ssa.BinOp); ok && b.Op == token.MUL && k == 0 {
				for _, x := range []ssa.Value{b.X, b.Y} {
					if c, ok := x.(*ssa.Const); ok && c.Value != nil {
						k = c.Int64()
					}
				}
			}
		})
		if reads && k > 0 {
			return k, f
		}
	}
	return 0, nil
}

// ssaSum is a linear form over SSA values; len(Payload) of any record is the
// term nil.
type ssaSum struct {
	c    int64
	coef map[ssa.Value]int64
}

func lenSum(v ssa.Value) ssaSum {
	s := ssaSum{coef: map[ssa.Value]int64{}}
	var add func(v ssa.Value, k int64)
	add = func(v ssa.Value, k int64) {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.Int {
				s.c += k * x.Int64()
				return
			}
		case *ssa.Convert:
			add(x.X, k)
			return
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD:
				add(x.X, k)
				add(x.Y, k)
				return
			case token.SUB:
				add(x.X, k)
				add(x.Y, -k)
				return
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && fieldReadOf(x.Call.Args[0], "Payload") != nil {
				s.coef[nil] += k
				return
			}
		}
		s.coef[v] += k
	}
	add(v, 1)
	for v, k := range s.coef {
		if k == 0 {
			delete(s.coef, v)
		}
	}
	return s
}

func (s ssaSum) only(v ssa.Value) bool { return len(s.coef) == 1 && s.coef[v] == 1 }

// accounting is a function that tells how many of the records fit and the room
// they need.
type accounting struct {
	fn       *ssa.Function
	cnt, sum int
}

// findAccounting finds the function and checks that what it counts is what the
// records need: their payload and an index entry for each of them.
func findAccounting(p *lib.Prog, r *lib.Report, k int64) *accounting {
	for _, f := range p.InPkg(cfs) {
		rs := f.Signature.Results()
		if rs.Len() != 2 || !isIntT(rs.At(0).Type()) || !isIntT(rs.At(1).Type()) {
			continue
		}
		// the accumulator
		var acc *ssa.Phi
		var step ssaSum
		eachInstr(f, func(in ssa.Instruction) {
			ph, ok := in.(*ssa.Phi)
			if !ok || !isIntT(ph.Type()) {
				return
			}
			for _, e := range ph.Edges {
				if s := lenSum(e); s.coef[ph] == 1 && len(s.coef) == 2 && s.coef[nil] == 1 {
					acc, step = ph, s
				}
			}
		})
		if acc == nil {
			continue
		}
		name := lib.Name(f)
		r.AddFunc(f)
		r.Check(step.c == k, "room-counted", name, acc.Pos(), nil, "%s counts %d bytes besides the payload for a record, but its index entry takes %d", name, step.c, k)
		a := &accounting{fn: f, cnt: -1}
		type pair struct{ a, b ssa.Value }
		var pairs []pair
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			x, y := ret.Results[0], ret.Results[1]
			px, ok1 := x.(*ssa.Phi)
			py, ok2 := y.(*ssa.Phi)
			switch {
			case ok1 && px.Block() == b && ok2 && py.Block() == b:
				for i := range px.Edges {
					pairs = append(pairs, pair{px.Edges[i], py.Edges[i]})
				}
			case ok1 && px.Block() == b:
				for _, e := range px.Edges {
					pairs = append(pairs, pair{e, y})
				}
			case ok2 && py.Block() == b:
				for _, e := range py.Edges {
					pairs = append(pairs, pair{x, e})
				}
			default:
				pairs = append(pairs, pair{x, y})
			}
		}
		for _, pr := range pairs {
			for i, v := range []ssa.Value{pr.a, pr.b} {
				if s := lenSum(v); s.coef[acc] == 1 {
					a.sum, a.cnt = i, 1-i
				}
			}
		}
		if a.cnt < 0 {
			continue
		}
		// the counter of the same loop
		isCounter := func(v ssa.Value) (rounds int64, ok bool) {
			s := lenSum(v)
			for x, c := range s.coef {
				ph, isPh := x.(*ssa.Phi)
				if len(s.coef) != 1 || c != 1 || !isPh || ph.Block() != acc.Block() {
					return 0, false
				}
				for i, e := range ph.Edges {
					if es := lenSum(e); len(es.coef) == 0 {
						return s.c + es.c, true
					} else if i == len(ph.Edges)-1 {
						return 0, false
					}
				}
			}
			return 0, false
		}
		for _, pr := range pairs {
			cv, sv := pr.a, pr.b
			if a.sum == 0 {
				cv, sv = sv, cv
			}
			s := lenSum(sv)
			if s.coef[acc] != 1 {
				if c, z := lenSum(cv), s; len(c.coef)+len(z.coef) == 0 {
					r.Check(c.c == 0 || z.c > 0, "room-counted", name, f.Pos(), nil, "%s says %d records need %d bytes", name, c.c, z.c)
				}
				continue
			}
			m := s.coef[nil] // rounds counted beyond the accumulator
			if s.c != m*k || len(s.coef) != 1 && !(len(s.coef) == 2 && m != 0) {
				r.Bad("room-counted", name, sv.Pos(), nil, "%s does not give back the room it has counted", name)
				continue
			}
			if n, ok := isCounter(cv); ok {
				r.Check(n <= m, "room-counted", name, cv.Pos(), nil, "%s gives back %d record(s) more than it has counted the room for", name, n-m)
				continue
			}
			if c, ok := cv.(*ssa.Call); ok && lib.CallName(c) == "builtin.len" && m == 0 {
				r.Ok("room-counted", name, cv.Pos())
				continue
			}
			r.Note("%s: the number of records is not a loop counter; not compared with the room", name)
		}
		return a
	}
	return nil
}

// chunkRoom proves that what is appended to a chunk lies between its last
// record and its records index, and the full check of an opened chunk.
func chunkRoom(p *lib.Prog, r *lib.Report) {
	k, codec := entrySize(p)
	if k == 0 {
		r.Note("the size of an index entry is not visible to the analysis")
		return
	}
	acct := findAccounting(p, r, k)
	if acct == nil {
		r.Note("no function counts the room records need; room for what is written is not proved")
	} else {
		appendPlaces(p, r, k, acct)
		r.Floor("room-proved", 1)
	}
	fullCheck(p, r, k, codec)
}

// chunkCounters finds the free offset and the number of records of a chunk.
func chunkCounters(p *lib.Prog) (free, total string) {
	st, ok := structOf(p, cfs, "Chunk").(*types.Struct)
	if !ok {
		return
	}
	var ints []string
	for i := 0; i < st.NumFields(); i++ {
		if isIntT(st.Field(i).Type()) {
			ints = append(ints, st.Field(i).Name())
		}
	}
	if len(ints) != 2 {
		return
	}
	// the number of records is what multiplies the size of an entry
	for _, f := range p.InPkg(cfs) {
		eachInstr(f, func(in ssa.Instruction) {
			b, ok := in.(*ssa.BinOp)
			if !ok || b.Op != token.MUL {
				return
			}
			x := b.X
			for {
				if c, ok := x.(*ssa.Convert); ok {
					x = c.X
					continue
				}
				break
			}
			for i, n := range ints {
				if base := fieldReadOf(x, n); base != nil && strings.HasSuffix(lib.TypeKey(base.Type()), ".Chunk") {
					total, free = n, ints[1-i]
				}
			}
		})
	}
	return
}

func appendPlaces(p *lib.Prog, r *lib.Report, k int64, acct *accounting) {
	free, total := chunkCounters(p)
	root := p.Func(chkT + "AppendRecords")
	if root == nil || total == "" {
		r.Note("the counters of a chunk are not told apart; room for what is written is not proved")
		return
	}
	j := &lib.Job{P: p, R: r, Roots: []*ssa.Function{root}, KeepFact: func(v *eng.Val) bool { return true }, NoInline: func(root, f *ssa.Function) bool {
		return lib.PkgOf(f) != cfs
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		self := e.In.Param(root, 0)
		intT := types.Typ[types.Int]
		fld := func(st *eng.State, n string) *eng.Val {
			return st.Load(e.In.Node(eng.KField, 0, n, nil, self), intT)
		}
		size := func(st *eng.State) *eng.Val {
			ep := st.Get("ep")
			if ep == "" {
				ep = "0"
			}
			return e.In.NamedSym("filesize:"+ep, types.Typ[types.Int64])
		}
		scaled := func(v *eng.Val) lib.Lin { // k*v
			return lib.Linear(e.In.Node(eng.KBin, token.MUL, "", intT, v, e.In.Int(k)))
		}
		// left is what would be left in a file of that size
		left := func(st *eng.State, sz *eng.Val) (lib.Lin, bool) {
			t, ok := st.TS["need"]
			if !ok {
				return lib.Lin{}, false
			}
			l := lib.Linear(sz).Sub(lib.Linear(fld(st, free))).Sub(scaled(fld(st, total))).Sub(lib.Linear(t.V[1]))
			return l, true
		}
		bufOf := func(st *eng.State, v *eng.Val) (t eng.TS, ok bool) {
			v = lib.Strip(v)
			for v.K == eng.KSlice || v.K == eng.KConv || v.K == eng.KIndex {
				if x, has := st.TS["buf:"+itoa(v.ID)]; has {
					return x, true
				}
				v = v.Args[0]
			}
			t, ok = st.TS["buf:"+itoa(v.ID)]
			return
		}
		wrote := func(st *eng.State, dst *eng.Val, pos token.Pos) {
			t, ok := bufOf(st, dst)
			if !ok {
				return
			}
			need, has := st.TS["need"]
			off, ln := lib.Linear(t.V[1]), lib.Linear(t.V[2])
			if off.IsConst() || constLen(t.V[1]) || !has {
				return // the header
			}
			r.Check(st.Has("room"), "room-proved", name, pos, st, "records are written although the file is not known to have room for them between the last record and the index: %s bytes for %s records", need.V[1], need.V[0])
			if d := off.Sub(lib.Linear(fld(st, free))); d.IsConst() {
				r.Check(d.C == 0, "written-in-place", name, pos, st, "the payload is not written right behind the last record, but %d bytes further", d.C)
				return
			}
			// the new entries come right before the ones that are there
			end := off
			for x, c := range ln.Coef {
				end.Coef[x] += c
				if end.Coef[x] == 0 {
					delete(end.Coef, x)
				}
			}
			end.C += ln.C
			d := end.Sub(lib.Linear(size(st))).Sub(lib.Lin{Coef: map[*eng.Val]int64{}})
			tot := scaled(fld(st, total))
			for x, c := range tot.Coef {
				d.Coef[x] += c
				if d.Coef[x] == 0 {
					delete(d.Coef, x)
				}
			}
			d.C += tot.C
			n := ln.Sub(scaled(need.V[0]))
			good := d.IsConst() && d.C == 0
			if good && !(n.IsConst() && n.C == 0) { // the list of the counted records
				good = false
				for x, c := range ln.Coef {
					if x.K == eng.KLen && c == k && len(ln.Coef) == 1 && ln.C == 0 {
						good = true
						if sl := x.Args[0]; sl.K == eng.KSlice && sl.Args[2].K != eng.KNil {
							h := lib.Linear(sl.Args[2]).Sub(lib.Linear(need.V[0]))
							good = h.IsConst() && h.C == 0
						}
					}
				}
			}
			r.Check(good, "written-in-place", name, pos, st, "the new index entries (%s bytes at %s) do not lie right before the existing ones", t.V[2], t.V[1])
		}
		return eng.Hooks{
			Leave: func(st *eng.State, fr *eng.Frame, rets []*eng.Val) {
				if fr.Fn == acct.fn {
					st.Set("need", "", rets[acct.cnt], rets[acct.sum])
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind != eng.CKCall {
					return nil
				}
				switch n := c.Name(); n {
				case mmT + "Size":
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{size(st)}}}}
				case mmT + "Grow":
					l, ok := left(st, c.Args[1])
					room := ok && notNegative(st, l)
					ev := e.In.Sym(c.Frame.Ctx, c.Instr.(ssa.Value), "err", types.Universe.Lookup("error").Type())
					arg := c.Args[1]
					return &eng.Result{Outcomes: []eng.Outcome{
						{Rets: []*eng.Val{e.In.Nil()}, Do: func(s *eng.State) {
							s.Set("ep", s.Get("ep")+"1")
							s.Del("room")
							if room {
								s.Set("room", "")
							}
							s.Assume(e.Eq(size(s), arg), true)
						}},
						{Rets: []*eng.Val{ev}, Do: func(s *eng.State) { s.Assume(e.Eq(ev, e.In.Nil()), false) }},
					}}
				default:
					if i, ok := isMMWrite(n); ok && i < len(c.Args) {
						if n == "builtin.copy" {
							if _, isBuf := bufOf(st, c.Args[1]); isBuf {
								return nil // the index moves
							}
						}
						wrote(st, c.Args[i], c.Pos())
					}
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if c.Name() == mmT+"Buffer" {
					st.Set("buf:"+itoa(rets[0].ID), "", rets[0], c.Args[1], c.Args[2], rets[1])
				}
			},
			Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
				if st.Has("room") {
					return
				}
				if l, ok := left(st, size(st)); ok && lib.Entails(st, l) {
					st.Set("room", "")
				}
			},
			Store: func(st *eng.State, fr *eng.Frame, a, v *eng.Val, in ssa.Instruction) {
				if a.K != eng.KField || a.Args[0] != self || a.Name != total {
					return
				}
				need, ok := st.TS["need"]
				if !ok {
					return
				}
				d := lib.Linear(v).Sub(lib.Linear(fld(st, total))).Sub(lib.Linear(need.V[0]))
				good := d.IsConst() && d.C == 0
				if !good && d.C == 0 {
					lens := 0
					for x, c := range d.Coef {
						if x.K == eng.KLen && c == 1 {
							lens++
							if sl := x.Args[0]; sl.K == eng.KSlice && sl.Args[2].K != eng.KNil {
								h := lib.Linear(sl.Args[2]).Sub(lib.Linear(need.V[0]))
								good = h.IsConst() && h.C == 0
							} else {
								good = true
							}
						}
					}
					good = good && lens == 1 && len(d.Coef) == 2
				}
				r.Check(good, "total-counts-written", name, eng.InstrPos(in), st, "the number of records becomes %s, which is not what there was and the records written", v)
			},
		}
	}
	j.Do(nil)
}

// rounded replaces c*(x/c) by what it is at least: x-(c-1).
func rounded(l lib.Lin) lib.Lin {
	for again := true; again; {
		again = false
		for q, m := range l.Coef {
			if q.K != eng.KBin || q.Op != token.QUO {
				continue
			}
			c, ok := eng.ConstInt(lib.Strip(q.Args[1]))
			if !ok || c <= 0 || m <= 0 || m%c != 0 {
				continue
			}
			x := lib.Linear(q.Args[0])
			n := lib.Lin{C: l.C - (m/c)*(c-1), Coef: map[*eng.Val]int64{}}
			for y, d := range l.Coef {
				if y != q {
					n.Coef[y] += d
				}
			}
			n.C += (m / c) * x.C
			for y, d := range x.Coef {
				n.Coef[y] += (m / c) * d
			}
			for y, d := range n.Coef {
				if d == 0 {
					delete(n.Coef, y)
				}
			}
			l, again = n, true
			break
		}
	}
	return l
}

// notNegative is Entails for forms with the lesser of two values in them.
func notNegative(st *eng.State, l lib.Lin) bool {
	l = rounded(l)
	for x, c := range l.Coef {
		if x.K != eng.KCall || x.Name != "min" || c <= 0 {
			continue
		}
		if lib.Entails(st, l) {
			return true
		}
		for _, a := range x.Args {
			m := lib.Lin{C: l.C, Coef: map[*eng.Val]int64{}}
			for y, d := range l.Coef {
				if y != x {
					m.Coef[y] += d
				}
			}
			al := lib.Linear(a)
			m.C += c * al.C
			for y, d := range al.Coef {
				m.Coef[y] += c * d
			}
			for y, d := range m.Coef {
				if d == 0 {
					delete(m.Coef, y)
				}
			}
			if !notNegative(st, m) {
				return false
			}
		}
		return true
	}
	return lib.Entails(st, l)
}

// fullCheck: opening with the full check succeeds only when all entries of the
// index, from the first one on, were seen to be in order, adjacent and within
// the room of the payload.
func fullCheck(p *lib.Prog, r *lib.Report, k int64, codec *ssa.Function) {
	root := p.Func(chkT + "Open")
	free, total := chunkCounters(p)
	if root == nil || codec == nil || total == "" || len(root.Params) != 2 {
		r.Note("the full check of a chunk is not visible to the analysis")
		return
	}
	j := &lib.Job{P: p, R: r, Roots: []*ssa.Function{root}, KeepFact: func(v *eng.Val) bool { return true }, NoInline: func(root, f *ssa.Function) bool {
		return lib.PkgOf(f) != cfs
	}}
	j.Init = func(e *eng.Engine, root *ssa.Function, st *eng.State) {
		st.Assume(e.In.Param(root, 1), true)
	}
	w := visits{}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		self := e.In.Param(root, 0)
		totalV := func(st *eng.State) *eng.Val {
			return st.Load(e.In.Node(eng.KField, 0, total, nil, self), types.Typ[types.Int])
		}
		raw := func(v *eng.Val) bool { // read from the index
			f := false
			v.Walk(func(x *eng.Val) bool {
				f = f || x.K == eng.KCall && strings.HasPrefix(x.Name, "(encoding/binary.")
				return !f
			})
			return f
		}
		seen := func(st *eng.State, pos token.Pos) {
			if !st.Has("entry") {
				return
			}
			for _, c := range []struct{ key, what string }{{"ordered", "the order of the IDs"}, {"adjacent", "that it begins where the one before ends"}, {"inroom", "that it ends before the index"}} {
				r.Check(st.Has("ok:"+c.key), "full-check-complete", name, pos, st, "the full check of a chunk does not look at %s for every entry of the index", c.what)
				st.Del("ok:" + c.key)
			}
			st.Del("entry")
		}
		return eng.Hooks{
			Enter: func(st *eng.State, fr *eng.Frame) {
				if fr.Fn != codec || len(fr.Fn.Params) < 2 {
					return
				}
				buf, idx := e.Env(st, fr, fr.Fn.Params[0]), e.Env(st, fr, fr.Fn.Params[1])
				t, ok := st.TS["buf:"+itoa(lib.Strip(buf).ID)]
				if !ok || lib.Linear(t.V[2]).IsConst() {
					return // a single entry
				}
				seen(st, fr.Fn.Pos())
				st.Set("entry", "", idx)
				l := lib.Linear(idx)
				next := w.counter(l)
				if last, ok := st.TS["last"]; ok && l.IsConst() {
					d := l.Sub(lib.Linear(last.V[0]))
					next = d.IsConst() && d.C == 1
				}
				st.Set("last", "", idx)
				r.Check(next, "full-check-complete", name, fr.Fn.Pos(), st, "the full check of a chunk does not go through the index one by one from the first entry: %s", idx)
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if c.Name() == mmT+"Buffer" {
					st.Set("buf:"+itoa(rets[0].ID), "", rets[0], c.Args[1], c.Args[2])
				}
			},
			Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
				for cond.K == eng.KUn && cond.Op == token.NOT {
					cond, taken = cond.Args[0], !taken
				}
				if cond.K != eng.KBin {
					return
				}
				a, b := cond.Args[0], cond.Args[1]
				switch cond.Op {
				case token.LSS:
					// the end of the index: place - total >= 0
					d := lib.Linear(a).Sub(lib.Linear(b))
					if taken {
						d = lib.Linear(b).Sub(lib.Linear(a))
						d.C--
					}
					place, ok := totalOf(d, lib.Linear(totalV(st)))
					if t, stored := st.TS["tot"]; stored && !ok {
						place, ok = totalOf(d, lib.Linear(t.V[0]))
					}
					if ok {
						last, has := st.TS["last"]
						next := false
						if has {
							d := place.Sub(lib.Linear(last.V[0]))
							next = d.IsConst() && d.C == 1
						}
						if next || !place.IsConst() && w.counter(place) {
							st.Set("end", "")
						}
					}
					cmp := false
					for _, x := range cond.Args {
						cmp = cmp || x.K == eng.KCall && strings.HasSuffix(x.Name, ".Compare")
					}
					if cmp && st.Has("entry") {
						st.Set("ok:ordered", "")
					} else if st.Has("entry") && (raw(a) || raw(b)) {
						st.Set("ok:inroom", "")
					}
				case token.EQL:
					if st.Has("entry") && taken && (raw(a) || raw(b)) {
						st.Set("ok:adjacent", "")
						if t, ok := st.TS["entry"]; ok && t.V[0] == e.In.Int(0) {
							_, c1 := eng.ConstInt(a)
							_, c2 := eng.ConstInt(b)
							r.Check(c1 || c2, "full-check-complete", name, eng.InstrPos(in), st, "the full check of a chunk does not compare the place of the first record with the end of the header, but with %s", a)
						}
					}
				}
			},
			Store: func(st *eng.State, fr *eng.Frame, a, v *eng.Val, in ssa.Instruction) {
				if a.K == eng.KField && a.Args[0] == self && a.Name == total {
					st.Set("tot", "", v)
				}
				if a.K == eng.KField && a.Args[0] == self && a.Name == free {
					st.Set("free", "", v)
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				if len(rets) == 0 || !st.IsNil(rets[len(rets)-1]) {
					return
				}
				opened := false
				for range st.KeysPrefix("buf:") {
					opened = true
				}
				if !opened {
					return // it was open already
				}
				seen(st, eng.InstrPos(in))
				t := totalV(st)
				empty, known := st.Eval(e.Eq(t, e.In.Int(0)))
				if known && empty || lib.Entails(st, lib.Lin{Coef: map[*eng.Val]int64{}}.Sub(lib.Linear(t))) {
					return
				}
				fv := lib.Lin{C: -1}
				if t, ok := st.TS["free"]; ok {
					fv = lib.Linear(t.V[0])
				}
				parts := 0
				for x, k := range fv.Coef {
					if k == 1 && raw(x) {
						parts++
					}
				}
				r.Check(fv.C == 0 && parts == 2 && len(fv.Coef) == 2, "goes-on-behind-last", name, eng.InstrPos(in), st, "%s takes %s for the end of the records, which is not the place of the last record and its size: the next append writes over a record or leaves a hole", name, fv.String())
				r.Check(st.Has("end"), "full-check-complete", name, eng.InstrPos(in), st, "%s succeeds although the full check has not come to the end of the index", name)
			},
		}
	}
	j.Do(nil)
	r.Floor("full-check-complete", 1)
	r.Floor("goes-on-behind-last", 1)
}

// totalOf takes place-total apart.
func totalOf(d, total lib.Lin) (place lib.Lin, ok bool) {
	if len(total.Coef) != 1 || total.C != 0 {
		return
	}
	for v, n := range total.Coef {
		if d.Coef[v] != -n {
			return
		}
	}
	place = lib.Lin{C: d.C, Coef: map[*eng.Val]int64{}}
	for v, n := range d.Coef {
		if total.Coef[v] == 0 {
			place.Coef[v] = n
		}
	}
	return place, true
}
