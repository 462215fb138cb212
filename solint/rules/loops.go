package rules

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// visits follows loops over lists: that the elements are used one by one from
// the first one on, and that a list is left only when all of it was used.
// base is the index of the first one to look at.
type visits struct {
	base int64
	// strict: a round of the loop that does not use the element leaves it out
	strict bool
}

// elementOf takes list[index] apart: a value, an address or what is loaded.
func elementOf(v *eng.Val) (list, idx *eng.Val, ok bool) {
	v = lib.Strip(v)
	if v.K == eng.KLoad {
		v = v.Args[0]
	}
	if (v.K == eng.KIndex || v.K == eng.KIdx) && len(v.Args) == 2 {
		return v.Args[0], v.Args[1], true
	}
	return nil, nil, false
}

// elementIn is elementOf for lists whose beginning may be cut off.
func elementIn(st *eng.State, v *eng.Val) (list, idx *eng.Val, ok bool) {
	list, idx, ok = elementOf(v)
	for ok && list.K == eng.KSlice && list.Args[1].K != eng.KNil {
		low := lib.Linear(list.Args[1])
		if !low.IsConst() {
			break
		}
		list = list.Args[0]
		if i := lib.Linear(idx); i.IsConst() {
			idx = st.E.In.Int(i.C + low.C)
		} else {
			idx = st.E.In.Node(eng.KBin, token.ADD, "", idx.Typ, idx, st.E.In.Int(low.C))
		}
	}
	return list, idx, ok
}

// induction tells whether the loop variable goes up by one from -off.
func induction(ph *ssa.Phi, off, base int64) bool {
	steps := 0
	for _, e := range ph.Edges {
		switch x := e.(type) {
		case *ssa.Const:
			n, ok := constant.Int64Val(x.Value)
			if !ok || n+off != base {
				return false
			}
		case *ssa.BinOp:
			c, ok := x.Y.(*ssa.Const)
			if x.Op != token.ADD || x.X != ssa.Value(ph) || !ok {
				return false
			}
			if n, ok := constant.Int64Val(c.Value); !ok || n != 1 {
				return false
			}
			steps++
		default:
			return false
		}
	}
	return steps > 0
}

// counter tells whether l is the place of a loop that goes up from the base by one.
func (w visits) counter(l lib.Lin) bool {
	if l.IsConst() {
		return l.C == w.base
	}
	if len(l.Coef) != 1 {
		return false
	}
	for v, k := range l.Coef {
		ph, ok := v.Ref.(*ssa.Phi)
		if v.K != eng.KSym || k != 1 || !ok || !induction(ph, l.C, w.base) {
			return false
		}
	}
	return true
}

// use notes that v, an element of a list, is worked on; it returns the list
// and whether it is the next one in turn.
func (w visits) use(st *eng.State, v *eng.Val) (list *eng.Val, next bool) {
	list, idx, ok := elementIn(st, v)
	if !ok {
		return nil, false
	}
	key := "visit:" + itoa(list.ID)
	l := lib.Linear(idx)
	if t, busy := st.TS[key]; busy && !st.Has("done:"+itoa(list.ID)) {
		if l.IsConst() {
			last := lib.Linear(t.V[1])
			next = last.IsConst() && (l.C == last.C || l.C == last.C+1)
		} else {
			next = w.counter(l)
		}
	} else {
		next = w.counter(l)
	}
	st.Del("done:" + itoa(list.ID))
	st.Del("open:" + itoa(list.ID))
	st.Set(key, "", list, idx)
	return list, next
}

// branch notes the lists whose ends are reached.
func (w visits) branch(st *eng.State, cond *eng.Val, taken bool) {
	for cond.K == eng.KUn && cond.Op == token.NOT {
		cond, taken = cond.Args[0], !taken
	}
	if cond.K != eng.KBin || len(cond.Args) != 2 {
		return
	}
	if w.strict && cond.Op == token.LSS {
		if n := bare(cond.Args[1]); n.K == eng.KLen && w.counter(lib.Linear(cond.Args[0])) {
			k := itoa(n.Args[0].ID)
			if st.Has("open:" + k) {
				st.Set("skip:"+k, "")
			}
			if st.Del("open:" + k); taken {
				st.Set("open:"+k, "")
			}
		}
	}
	if !(cond.Op == token.LSS && !taken || cond.Op == token.EQL && taken) {
		return
	}
	if n := lib.Linear(cond.Args[1]); n.IsConst() && w.counter(lib.Linear(cond.Args[0])) && !lib.Linear(cond.Args[0]).IsConst() {
		// lists with known lengths
		for _, k := range st.KeysPrefix("visit:") {
			list := st.TS[k].V[0]
			if l := lib.Linear(st.Len(list)); l.IsConst() && l.C == n.C {
				st.Set("done:"+itoa(list.ID), "")
			}
		}
		return
	}
	d := lib.Linear(cond.Args[0]).Sub(lib.Linear(cond.Args[1]))
	for v, k := range d.Coef {
		if v.K != eng.KLen {
			continue
		}
		x := lib.Linear(cond.Args[0]).Sub(lib.Linear(cond.Args[1]))
		if k > 0 && cond.Op == token.EQL {
			x = lib.Linear(cond.Args[1]).Sub(lib.Linear(cond.Args[0]))
		}
		delete(x.Coef, v)
		list := v.Args[0]
		if x.IsConst() && x.C > w.base { // behind the elements counted by constants
			if t, ok := st.TS["visit:"+itoa(list.ID)]; ok {
				last := lib.Linear(t.V[1])
				if last.IsConst() && last.C+1 >= x.C {
					st.Set("done:"+itoa(list.ID), "")
				}
			}
			continue
		}
		if w.counter(x) {
			st.Set("done:"+itoa(list.ID), "")
		}
	}
}

// done tells that every element of the list was used.
func (w visits) done(st *eng.State, list *eng.Val) bool {
	if st.Has("skip:" + itoa(list.ID)) {
		return false
	}
	if st.Has("done:" + itoa(list.ID)) {
		return true
	}
	l := lib.Linear(st.Len(list))
	l.C = w.base - l.C
	for v := range l.Coef {
		l.Coef[v] = -l.Coef[v]
	}
	return !st.Has("visit:"+itoa(list.ID)) && lib.Entails(st, l)
}
