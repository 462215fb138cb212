package lib

import (
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
)

// Entails decides whether goal >= 0 follows from the branch facts of the path
// over linear terms (Fourier-Motzkin on the facts that share a term with the
// goal). It answers false when it cannot tell.
func Entails(st *eng.State, goal Lin) bool {
	if goal.IsConst() {
		return goal.C >= 0
	}
	type con = Lin // con >= 0
	var cons []con
	neg := func(l Lin, k int64) Lin { // k - l
		r := Lin{C: k - l.C, Coef: map[*eng.Val]int64{}}
		for x, c := range l.Coef {
			r.Coef[x] = -c
		}
		return r
	}
	plus := func(l Lin, k int64) Lin {
		r := Lin{C: l.C + k, Coef: l.Coef}
		return r
	}
	cons = append(cons, neg(goal, -1))
	var all []con
	st.EachFact(func(f *eng.Val, b bool) {
		if f.K != eng.KBin || len(f.Args) != 2 {
			return
		}
		switch f.Op {
		case token.LSS:
			d := Linear(f.Args[1]).Sub(Linear(f.Args[0])) // b-a
			if b {
				all = append(all, plus(d, -1))
			} else {
				all = append(all, neg(d, 0))
			}
		case token.EQL:
			if !isInt(f.Args[0]) && !isInt(f.Args[1]) {
				return
			}
			d := Linear(f.Args[0]).Sub(Linear(f.Args[1]))
			if b {
				all = append(all, d, neg(d, 0))
			} else {
				// x != 0 with x >= 0 known by construction
				for _, s := range []Lin{d, neg(d, 0)} {
					if len(s.Coef) == 1 {
						for x, c := range s.Coef {
							if lb, ok := lowest(st, x, 0); ok && c > 0 && c*lb+s.C == 0 {
								all = append(all, plus(s, -1))
							}
						}
					}
				}
			}
		}
	})
	for _, c := range all {
		if c.IsConst() && c.C < 0 {
			return true // the path is not possible
		}
	}
	known := map[*eng.Val]bool{}
	used := make([]bool, len(all))
	addAtom := func(x *eng.Val) {
		if known[x] {
			return
		}
		known[x] = true
		one := func(v *eng.Val) Lin { return Lin{Coef: map[*eng.Val]int64{v: 1}} }
		if lb, ok := lowest(st, x, 0); ok {
			cons = append(cons, plus(one(x), -lb))
		}
		if x.K == eng.KCall && (x.Name == "min" || x.Name == "max") {
			for _, a := range x.Args {
				d := Linear(a).Sub(one(x))
				if x.Name == "max" {
					d = neg(d, 0)
				}
				cons = append(cons, d)
			}
		}
		if x.K == eng.KBin && x.Op == token.QUO {
			if n, ok := eng.ConstInt(x.Args[1]); ok && n > 0 {
				a := Linear(x.Args[0])
				if Entails2(st, a) {
					s := Lin{C: a.C, Coef: map[*eng.Val]int64{}}
					for k, c := range a.Coef {
						s.Coef[k] = c
					}
					s.Coef[x] -= n
					cons = append(cons, s, plus(neg(s, 0), n-1))
				}
			}
		}
		if x.K == eng.KBin && x.Op == token.REM {
			if n, ok := eng.ConstInt(x.Args[1]); ok && n > 0 && Entails2(st, Linear(x.Args[0])) {
				cons = append(cons, one(x), neg(one(x), n-1))
			}
		}
		if x.K == eng.KBin && x.Op == token.SHR {
			cons = append(cons, one(x))
		}
		if lenOfAppend(x) {
			ap := x.Args[0]
			d := one(x).Sub(Linear(st.Len(ap.Args[0])))
			if len(ap.Args) > 1 {
				d = d.Sub(Linear(st.Len(ap.Args[1])))
			}
			cons = append(cons, d, neg(d, 0))
		}
	}
	for round := 0; round < 4; round++ {
		for i := 0; i < len(cons); i++ {
			for x := range cons[i].Coef {
				addAtom(x)
			}
		}
		for i, f := range all {
			if used[i] || f.IsConst() {
				continue
			}
			for x := range f.Coef {
				if known[x] {
					used[i] = true
					cons = append(cons, f)
					break
				}
			}
		}
		if len(cons) > 60 {
			break
		}
	}
	return infeasible(cons)
}

// Entails2 is a shallow form for side conditions (no recursion into itself).
func Entails2(st *eng.State, goal Lin) bool {
	if goal.IsConst() {
		return goal.C >= 0
	}
	s := goal.C
	for x, c := range goal.Coef {
		if c < 0 {
			return false
		}
		lb, ok := lowest(st, x, 0)
		if !ok {
			return false
		}
		s += c * lb
	}
	return s >= 0
}

func lenOfAppend(x *eng.Val) bool {
	return x.K == eng.KLen && x.Args[0].K == eng.KCall && x.Args[0].Name == "append" && len(x.Args[0].Args) > 0
}

func isInt(v *eng.Val) bool {
	if _, ok := eng.ConstInt(v); ok {
		return true
	}
	if v.K == eng.KLen {
		return true
	}
	if v.Typ == nil {
		return false
	}
	b, ok := v.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// lowest is a constant lower bound of a term.
func lowest(st *eng.State, v *eng.Val, d int) (int64, bool) {
	if d > 8 {
		return 0, false
	}
	if n, ok := eng.ConstInt(v); ok {
		return n, true
	}
	best, ok := int64(math.MinInt64), false
	if lo, _ := st.Bounds(v); lo != nil {
		best, ok = *lo, true
	}
	use := func(n int64, k bool) {
		if k && (!ok || n > best) {
			best, ok = n, true
		}
	}
	switch v.K {
	case eng.KLen:
		use(0, true)
	case eng.KConv, eng.KMI:
		n, k := lowest(st, v.Args[0], d+1)
		use(n, k)
	case eng.KCall:
		if v.Name == "min" || v.Name == "max" {
			m, k := int64(0), true
			for i, a := range v.Args {
				n, y := lowest(st, a, d+1)
				if v.Name == "max" {
					use(n, y)
					continue
				}
				k = k && y
				if i == 0 || n < m {
					m = n
				}
			}
			if v.Name == "min" {
				use(m, k)
			}
		}
		if v.Name == "cap" {
			use(0, true)
		}
	case eng.KBin:
		a, ka := lowest(st, v.Args[0], d+1)
		b, kb := lowest(st, v.Args[1], d+1)
		switch v.Op {
		case token.ADD:
			use(a+b, ka && kb)
		case token.QUO, token.SHR, token.REM:
			use(0, ka && a >= 0 && kb && b > 0)
		case token.AND:
			use(0, ka && a >= 0 || kb && b >= 0)
		case token.MUL:
			use(a*b, ka && kb && a >= 0 && b >= 0)
		case token.SUB:
			if n, c := eng.ConstInt(v.Args[1]); c {
				use(a-n, ka)
			}
		}
	case eng.KSym:
		if v.Ref != nil {
			n, k := ssaLow(v.Ref, nil)
			use(n, k)
			if c, y := v.Ref.(*ssa.Call); y {
				switch CallName(c) {
				case "sort.Search", "slices.BinarySearch", "slices.BinarySearchFunc", "sort.SearchInts", "sort.SearchStrings":
					use(0, v.Name == "" || v.Name == "#0")
				}
			}
		}
	}
	if v.Typ != nil {
		if b, y := v.Typ.Underlying().(*types.Basic); y && b.Info()&types.IsUnsigned != 0 {
			use(0, true)
		}
	}
	return best, ok
}

// ssaLow bounds an SSA value from below by induction over its definition.
func ssaLow(v ssa.Value, seen map[ssa.Value]bool) (int64, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return x.Int64(), true
			}
		}
	case *ssa.Convert:
		return ssaLow(x.X, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "copy") {
			return 0, true
		}
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil {
			switch x.Op {
			case token.ADD:
				if n := c.Int64(); n >= 0 {
					lb, ok := ssaLow(x.X, seen)
					if lb == math.MaxInt64 {
						return lb, ok
					}
					return lb + n, ok
				}
			case token.SUB:
				if n := c.Int64(); n >= 0 {
					lb, ok := ssaLow(x.X, seen)
					if ok && lb != math.MaxInt64 && !dependsOnAny(x.X, seen, 0) {
						return lb - n, true
					}
					return 0, false
				}
			case token.QUO, token.SHR, token.REM:
				lb, ok := ssaLow(x.X, seen)
				return 0, ok && lb >= 0
			}
		}
		if x.Op == token.ADD || x.Op == token.MUL {
			a, oka := ssaLow(x.X, seen)
			b, okb := ssaLow(x.Y, seen)
			return 0, oka && okb && a >= 0 && b >= 0
		}
	case *ssa.Phi:
		if seen[x] {
			return math.MaxInt64, true
		}
		s2 := map[ssa.Value]bool{x: true}
		for k := range seen {
			s2[k] = true
		}
		best := int64(math.MaxInt64)
		for _, e := range x.Edges {
			n, ok := ssaLow(e, s2)
			if !ok {
				return 0, false
			}
			if n < best {
				best = n
			}
		}
		return best, true
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		return 0, true
	}
	return 0, false
}

func dependsOnAny(v ssa.Value, seen map[ssa.Value]bool, d int) bool {
	if seen[v] {
		return true
	}
	if d > 10 {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	switch v.(type) {
	case *ssa.Phi, *ssa.BinOp, *ssa.Convert:
		var ops [4]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			if *o != nil && dependsOnAny(*o, seen, d+1) {
				return true
			}
		}
	}
	return false
}

// infeasible: the constraints (each >= 0) contradict each other.
func infeasible(cons []Lin) bool {
	for step := 0; step < 24; step++ {
		// pick the variable with the fewest combinations
		type pn struct{ p, n int }
		cnt := map[*eng.Val]*pn{}
		for _, c := range cons {
			if c.IsConst() {
				if c.C < 0 {
					return true
				}
				continue
			}
			for x, k := range c.Coef {
				if cnt[x] == nil {
					cnt[x] = &pn{}
				}
				if k > 0 {
					cnt[x].p++
				} else {
					cnt[x].n++
				}
			}
		}
		var pick *eng.Val
		bestc := 1 << 30
		for x, k := range cnt {
			if c := k.p * k.n; c < bestc || c == bestc && pick != nil && x.ID < pick.ID {
				bestc, pick = c, x
			}
		}
		if pick == nil {
			return false
		}
		var next, pos, neg []Lin
		for _, c := range cons {
			switch k := c.Coef[pick]; {
			case k > 0:
				pos = append(pos, c)
			case k < 0:
				neg = append(neg, c)
			default:
				if !c.IsConst() || c.C < 0 {
					next = append(next, c)
				}
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				a, b := p.Coef[pick], -n.Coef[pick]
				r := Lin{C: p.C*b + n.C*a, Coef: map[*eng.Val]int64{}}
				for x, k := range p.Coef {
					r.Coef[x] += k * b
				}
				for x, k := range n.Coef {
					r.Coef[x] += k * a
				}
				for x, k := range r.Coef {
					if k == 0 {
						delete(r.Coef, x)
					}
				}
				next = append(next, r)
			}
		}
		if len(next) > 1500 {
			return false
		}
		cons = next
	}
	return false
}

// IsInt tells whether t is an integer type.
func IsInt(t types.Type) bool { return t != nil && intType(t) }
