package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// converter follows how values of some types are made from others, field by
// field, and how lists are filled with them.
type converter struct {
	r    *lib.Report
	e    *eng.Engine
	name string
	v    visits
	// The elements: type made, fields of it and of what they are made from:
	// "time X": X.AsTime() when X is there, "new X": timestamppb.New(X),
	// "parse X": what ulid.Parse(X) gave, "text X": X.String().
	elems   map[string][][2]string
	appends map[ssa.Value]bool // that put converted elements into lists
}

func newConverter(r *lib.Report, e *eng.Engine, name string, v visits, elems map[string][][2]string) *converter {
	return &converter{r, e, name, v, elems, map[ssa.Value]bool{}}
}

func elemKey(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return lib.TypeKey(t)
}

// loadedFrom: what is loaded from where.
func loadedFrom(x *eng.Val) (field string, of *eng.Val) {
	x = lib.Strip(x)
	if x.K == eng.KFld {
		return x.Name, x.Args[0]
	}
	if x.K == eng.KLoad && x.Args[0].K == eng.KField {
		return x.Args[0].Name, x.Args[0].Args[0]
	}
	return "", nil
}

// elem finds what x is made from: the element and whether all of it is there.
func (cv *converter) elem(st *eng.State, x *eng.Val) (src *eng.Val, bad string) {
	x = lib.Strip(x)
	fs := cv.elems[elemKey(x.Typ)]
	for pass := 0; pass < 2; pass++ {
		for _, m := range fs {
			f := lib.Strip(resultField(st, x, m[0]))
			how, want, ok := strings.Cut(m[1], " ")
			if !ok {
				how, want = "", m[1]
			}
			switch how {
			case "time":
				if src == nil {
					continue
				}
				from := resultField(st, src, want)
				if f.K == eng.KCall && strings.HasSuffix(f.Name, ".AsTime") && f.Args[0] == from {
					continue
				}
				if st.IsNil(from) && !hasCall(f) {
					continue
				}
				bad = m[0]
				continue
			case "new", "parse", "text":
				fn := map[string]string{"new": "timestamppb.New", "parse": ".Parse", "text": ".String"}[how]
				if f.K != eng.KCall || !strings.HasSuffix(f.Name, fn) || len(f.Args) == 0 {
					bad = m[0]
					continue
				}
				f = lib.Strip(f.Args[0])
			}
			n, of := loadedFrom(f)
			if n == "" && strings.HasSuffix(f.Name, ".Get"+want) && f.K == eng.KCall {
				n, of = want, f.Args[0]
			}
			if n != want || of == nil || src != nil && of != src {
				bad = m[0]
				continue
			}
			src = of
		}
		if pass == 0 {
			bad = ""
		}
	}
	return src, bad
}

// grown tells that x is the list after some rounds of a loop that appends to it.
func (cv *converter) grown(x *eng.Val) bool {
	ph, ok := x.Ref.(*ssa.Phi)
	return ok && x.K == eng.KSym && grownBy(ph, cv.appends)
}

// isMade tells that x is the list the elements were put into.
func (cv *converter) isMade(st *eng.State, x *eng.Val, t eng.TS) bool {
	if x == t.V[0] || cv.grown(x) {
		return true
	}
	at, ok := st.TS["madeat"]
	return ok && st.Load(at.V[0], x.Typ) == x
}

// allOf: the list x has all elements of the list l, converted.
func (cv *converter) allOf(st *eng.State, x, l *eng.Val) bool {
	x = lib.Strip(x)
	if t, ok := st.TS["made"]; ok {
		return cv.isMade(st, x, t) && t.V[1] == l && t.S == "" && cv.v.done(st, l)
	}
	empty, known := st.Eval(cv.e.Eq(st.Len(l), cv.e.In.Int(0)))
	return known && empty || cv.v.done(st, l)
}

// put: the element x gets into the list, at the place at if that is known.
func (cv *converter) put(st *eng.State, pos token.Pos, list, x *eng.Val, at *eng.Val) {
	if _, ok := cv.elems[elemKey(x.Typ)]; !ok {
		return
	}
	src, bad := cv.elem(st, x)
	what := elemKey(x.Typ)
	what = what[strings.LastIndex(what, ".")+1:]
	if z := lib.Strip(x); src == nil && (z.K == eng.KZero || z.K == eng.KNil) {
		// nothing: the list is good for nothing
		l := list
		if t, ok := st.TS["made"]; ok {
			l = t.V[1]
		}
		st.Set("made", "!", list, l)
		return
	}
	if src == nil {
		cv.r.Check(false, "converted", cv.name+": "+what, pos, st, "%s makes a %s from nothing that is known", cv.name, what)
		return
	}
	cv.r.Check(bad == "", "converted", cv.name+": "+what, pos, st, "%s: the %s of the %s is not the one of what it is made from", cv.name, bad, what)
	l, next := cv.v.use(st, src)
	if l == nil {
		return
	}
	state := ""
	if t, ok := st.TS["made"]; ok && t.V[1] == l {
		state = t.S
	}
	if !next {
		state = "!"
	}
	if at != nil {
		_, idx, _ := elementIn(st, src)
		if d := lib.Linear(at).Sub(lib.Linear(idx)); !d.IsConst() || d.C != 0 {
			state = "!"
		}
	}
	st.Set("made", state, list, l)
}

func (cv *converter) store(st *eng.State, fr *eng.Frame, addr, x *eng.Val, in ssa.Instruction) {
	if addr.K == eng.KIndex && x.Typ != nil && !isArray(addr.Args[0]) {
		cv.put(st, in.Pos(), addr.Args[0], x, addr.Args[1])
	}
	if t, ok := st.TS["made"]; ok && t.V[0] == x {
		st.Set("madeat", "", addr)
	} else if at, ok := st.TS["madeat"]; ok && at.V[0] == addr {
		st.Del("madeat")
	}
}

func (cv *converter) after(st *eng.State, c *eng.Call, rets []*eng.Val) {
	e := cv.e
	if c.Name() != "builtin.append" || len(c.Args) < 2 {
		return
	}
	for _, x := range st.VarArgs(c.Args[1]) {
		if _, ok := cv.elems[elemKey(x.Typ)]; ok {
			if i, ok := c.Instr.(ssa.Value); ok {
				cv.appends[i] = true
			}
		}
		before, had := st.TS["made"]
		cv.put(st, c.Pos(), rets[0], x, nil)
		if t, ok := st.TS["made"]; ok && !had {
			if b, known := st.Eval(e.Eq(st.Len(c.Args[0]), e.In.Int(0))); !known || !b {
				st.Set("made", "!", t.V...)
			}
		} else if ok && !cv.isMade(st, c.Args[0], before) && t.V[1] == before.V[1] {
			if b, known := st.Eval(e.Eq(st.Len(c.Args[0]), e.In.Int(0))); !known || !b {
				st.Set("made", "!", t.V...)
			}
		}
	}
}

func hasCall(v *eng.Val) (found bool) {
	v.Walk(func(x *eng.Val) bool {
		found = found || x.K == eng.KCall
		return true
	})
	return found
}

// grownBy tells that the variable of a loop is a list that is empty before it
// and to which only these appends add.
func grownBy(ph *ssa.Phi, appends map[ssa.Value]bool) bool {
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] || appends[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value == nil
		case *ssa.MakeSlice:
			c, isC := x.Len.(*ssa.Const)
			return isC && c.Int64() == 0
		case *ssa.Slice: // an array of no elements, or make with constants
			if x.High != nil {
				c, isC := x.High.(*ssa.Const)
				return isC && c.Int64() == 0
			}
			if a, isA := x.X.(*ssa.Alloc); isA {
				t, isArr := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				return isArr && t.Len() == 0
			}
			return false
		case *ssa.ChangeType:
			return ok(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	return ok(ph)
}

// isArray tells that x is the place of an array.
func isArray(x *eng.Val) bool {
	p, ok := x.Typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}
