package lib

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
)

// Bounds proves linear inequalities between the integers of one function: the
// terms are SSA values and lengths, the facts are the conditions that dominate
// a point and inductive invariants of the phi nodes (guessed from templates
// and checked by induction, Houdini style).
type Bounds struct {
	F     *ssa.Function
	Stuck func(fa *ssa.FieldAddr) bool // the field does not change while F runs
	Low   func(v ssa.Value) (int64, bool)
	Extra func(v ssa.Value, b *Bounds) []Lin // contracts of a call result (each >= 0)

	atoms map[string]*eng.Val
	vals  map[*eng.Val]ssa.Value // integer atoms
	lens  map[*eng.Val]ssa.Value // atoms that are the length of a value
	inv   []inv
	order map[*ssa.BasicBlock][]Lin
}

type inv struct {
	b    *ssa.BasicBlock
	l    Lin // >= 0
	dead bool
}

func NewBounds(f *ssa.Function, stuck func(*ssa.FieldAddr) bool, low func(ssa.Value) (int64, bool), extra func(ssa.Value, *Bounds) []Lin) *Bounds {
	b := &Bounds{F: f, Stuck: stuck, Low: low, Extra: extra, atoms: map[string]*eng.Val{}, vals: map[*eng.Val]ssa.Value{}, lens: map[*eng.Val]ssa.Value{}, order: map[*ssa.BasicBlock][]Lin{}}
	b.induct()
	return b
}

func (b *Bounds) atom(key string, v ssa.Value, isLen bool) *eng.Val {
	if a, ok := b.atoms[key]; ok {
		return a
	}
	a := &eng.Val{ID: len(b.atoms) + 1, K: eng.KSym, Name: key}
	b.atoms[key] = a
	if isLen {
		b.lens[a] = v
	} else {
		b.vals[a] = v
	}
	return a
}

func konst(n int64) Lin { return Lin{C: n, Coef: map[*eng.Val]int64{}} }

func addL(a, c Lin, k int64) Lin {
	r := Lin{C: a.C + k*c.C, Coef: map[*eng.Val]int64{}}
	for x, n := range a.Coef {
		r.Coef[x] = n
	}
	for x, n := range c.Coef {
		r.Coef[x] += k * n
	}
	for x, n := range r.Coef {
		if n == 0 {
			delete(r.Coef, x)
		}
	}
	return r
}

func plusL(a Lin, k int64) Lin { return Lin{C: a.C + k, Coef: a.Coef} }

// key names a value; two values with one key are equal.
func (b *Bounds) key(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if k, ok := b.place(x.X); ok {
				return "*" + k
			}
		}
	case *ssa.Field:
		return b.key(x.X) + "." + fmt.Sprint(x.Field)
	case *ssa.ChangeType:
		return b.key(x.X)
	case *ssa.Const:
		return "c" + x.String()
	}
	return v.Name()
}

// place names an address whose content does not change.
func (b *Bounds) place(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if !b.Stuck(x) {
			return "", false
		}
		return b.key(x.X) + "." + fmt.Sprint(x.Field), true
	}
	return "", false
}

func intType(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsInteger != 0
}

// Lin is the linear form of an integer.
func (b *Bounds) Lin(v ssa.Value) Lin { return b.lin(v, 0) }

func (b *Bounds) lin(v ssa.Value, d int) Lin {
	one := func() Lin {
		return Lin{Coef: map[*eng.Val]int64{b.atom("v:"+b.key(v), v, false): 1}}
	}
	if d > 12 {
		return one()
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(x.Value); ok && n < 1<<48 && n > -(1<<48) {
				return konst(n)
			}
		}
	case *ssa.Convert:
		if intType(x.X.Type()) && intType(x.Type()) && wide(x.X.Type(), x.Type()) {
			return b.lin(x.X, d+1)
		}
	case *ssa.ChangeType:
		return b.lin(x.X, d+1)
	case *ssa.BinOp:
		if !intType(x.Type()) || unsignedT(x.Type()) && x.Op == token.SUB {
			return one()
		}
		switch x.Op {
		case token.ADD:
			return addL(b.lin(x.X, d+1), b.lin(x.Y, d+1), 1)
		case token.SUB:
			return addL(b.lin(x.X, d+1), b.lin(x.Y, d+1), -1)
		case token.MUL:
			l, r := b.lin(x.X, d+1), b.lin(x.Y, d+1)
			if r.IsConst() {
				return addL(konst(0), l, r.C)
			}
			if l.IsConst() {
				return addL(konst(0), r, l.C)
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return b.Len(x.Call.Args[0])
		}
	}
	return one()
}

// wide: the conversion keeps every value (or is between word-sized integers,
// whose wrapping is not looked at).
func wide(from, to types.Type) bool {
	size := func(t types.Type) int {
		switch t.Underlying().(*types.Basic).Kind() {
		case types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32:
			return 4
		}
		return 8
	}
	f, t := size(from), size(to)
	if unsignedT(to) && !unsignedT(from) {
		return false
	}
	return t > f || t == f && unsignedT(from) == unsignedT(to) || f < 8 && t == 8
}

func unsignedT(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsUnsigned != 0
}

// Len is the length of a string, slice, array or pointer to an array.
func (b *Bounds) Len(v ssa.Value) Lin { return b.len(v, 0) }

func (b *Bounds) len(v ssa.Value, d int) Lin {
	t := v.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return konst(a.Len())
	}
	one := func() Lin {
		return Lin{Coef: map[*eng.Val]int64{b.atom("len:"+b.key(v), v, true): 1}}
	}
	if d > 8 {
		return one()
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return konst(0)
		}
		if x.Value.Kind() == constant.String {
			return konst(int64(len(constant.StringVal(x.Value))))
		}
	case *ssa.MakeSlice:
		return b.lin(x.Len, d+1)
	case *ssa.ChangeType:
		return b.len(x.X, d+1)
	case *ssa.Convert:
		// string <-> []byte
		if bytesOrString(x.X.Type()) && bytesOrString(x.Type()) {
			return b.len(x.X, d+1)
		}
	case *ssa.Slice:
		hi := konst(0)
		if x.High != nil {
			hi = b.lin(x.High, d+1)
		} else {
			hi = b.len(x.X, d+1)
		}
		if x.Low != nil {
			hi = addL(hi, b.lin(x.Low, d+1), -1)
		}
		return hi
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return addL(b.len(x.X, d+1), b.len(x.Y, d+1), 1)
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(x.Call.Args) == 2 {
			return addL(b.len(x.Call.Args[0], d+1), b.len(x.Call.Args[1], d+1), 1)
		}
		if strings.HasPrefix(CallName(x), "slices.Clone") {
			return b.len(x.Call.Args[0], d+1)
		}
		if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 {
			if k := sameLenParam(f); k >= 0 {
				return b.len(x.Call.Args[k], d+1)
			}
		}
	}
	return one()
}

// sameLenParam is the parameter every return of f has the length of, or -1.
func sameLenParam(f *ssa.Function) int {
	res := -1
	for _, blk := range f.Blocks {
		for _, in := range blk.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			k := -1
			for i, p := range f.Params {
				if r.Results[0] == p {
					k = i
				}
				if m, ok := r.Results[0].(*ssa.MakeSlice); ok {
					if c, ok := m.Len.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && c.Call.Args[0] == p {
							k = i
						}
					}
				}
			}
			if k < 0 || res >= 0 && res != k {
				return -1
			}
			res = k
		}
	}
	return res
}

func bytesOrString(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		e, ok := u.Elem().Underlying().(*types.Basic)
		return ok && e.Kind() == types.Uint8
	}
	return false
}

// cond turns a branch condition into inequalities (each >= 0).
func (b *Bounds) cond(v ssa.Value, val bool) []Lin {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return b.cond(x.X, !val)
		}
	case *ssa.BinOp:
		if _, isStr := x.X.Type().Underlying().(*types.Basic); !isStr {
			return nil
		}
		bt := x.X.Type().Underlying().(*types.Basic)
		if bt.Info()&types.IsString != 0 {
			// s == "" and s != ""
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				c, ok := p[1].(*ssa.Const)
				if !ok || c.Value == nil {
					continue
				}
				n := int64(len(constant.StringVal(c.Value)))
				l := b.Len(p[0])
				eq := (x.Op == token.EQL) == val
				if x.Op != token.EQL && x.Op != token.NEQ {
					continue
				}
				if eq {
					return []Lin{plusL(l, -n), addL(konst(n), l, -1)}
				}
				if n == 0 {
					return []Lin{plusL(l, -1)}
				}
			}
			return nil
		}
		if bt.Info()&types.IsInteger == 0 {
			return nil
		}
		a, c := b.Lin(x.X), b.Lin(x.Y)
		op := x.Op
		if !val {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		d := addL(a, c, -1) // a - c
		n := addL(c, a, -1)
		switch op {
		case token.LSS:
			return []Lin{plusL(n, -1)}
		case token.LEQ:
			return []Lin{n}
		case token.GTR:
			return []Lin{plusL(d, -1)}
		case token.GEQ:
			return []Lin{d}
		case token.EQL:
			return []Lin{d, n}
		case token.NEQ:
			// x != bound, where the bound is the lowest or the highest value
			for _, s := range []Lin{d, n} {
				if b.nonNeg(s) {
					return []Lin{plusL(s, -1)}
				}
			}
		}
	}
	return nil
}

// nonNeg: l >= 0 follows from what the atoms are (no facts).
func (b *Bounds) nonNeg(l Lin) bool {
	var cons []Lin
	cons = append(cons, plusL(addL(konst(0), l, -1), -1))
	seen := map[*eng.Val]bool{}
	for i := 0; i < len(cons) && i < 40; i++ {
		for x := range cons[i].Coef {
			if !seen[x] {
				seen[x] = true
				cons = append(cons, b.side(x, true)...)
			}
		}
	}
	return infeasible(cons)
}

// facts lists the conditions that hold whenever blk is executed.
func (b *Bounds) facts(blk *ssa.BasicBlock) []Lin {
	if r, ok := b.order[blk]; ok {
		return r
	}
	var res []Lin
	for d := blk; d != nil; d = d.Idom() {
		res = append(res, b.entry(d)...)
	}
	b.order[blk] = res
	return res
}

// entry: the condition under which the only predecessor goes to d.
func (b *Bounds) entry(d *ssa.BasicBlock) []Lin {
	if len(d.Preds) != 1 {
		return nil
	}
	return b.edge(d.Preds[0], d)
}

func (b *Bounds) edge(p, d *ssa.BasicBlock) []Lin {
	if len(p.Instrs) == 0 {
		return nil
	}
	i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return nil
	}
	return b.cond(i.Cond, p.Succs[0] == d)
}

// side lists what is known about an atom by its definition.
func (b *Bounds) side(x *eng.Val, shallow bool) []Lin {
	one := Lin{Coef: map[*eng.Val]int64{x: 1}}
	var res []Lin
	if v, ok := b.lens[x]; ok {
		res = append(res, one)
		if b.Extra != nil {
			res = append(res, b.Extra(v, b)...)
		}
		return res
	}
	v := b.vals[x]
	if v == nil {
		return res
	}
	if unsignedT(v.Type()) {
		res = append(res, one)
	}
	if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
		res = append(res, addL(konst(255), one, -1))
	}
	if b.Low != nil {
		if n, ok := b.Low(v); ok {
			res = append(res, plusL(one, -n))
		}
	}
	if b.Extra != nil {
		res = append(res, b.Extra(v, b)...)
	}
	le := func(a, c Lin) { res = append(res, addL(c, a, -1)) }
	args := func(c *ssa.Call) []ssa.Value { return c.Call.Args }
	call, _ := v.(*ssa.Call)
	first := true
	if e, ok := v.(*ssa.Extract); ok {
		call, _ = e.Tuple.(*ssa.Call)
		first = e.Index == 0
	}
	if call != nil && first {
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "copy":
				res = append(res, one)
				le(one, b.Len(args(call)[0]))
				le(one, b.Len(args(call)[1]))
			case "cap":
				le(b.Len(args(call)[0]), one)
			case "min":
				all := true
				for _, a := range args(call) {
					le(one, b.Lin(a))
					all = all && b.shallowNonNeg(b.Lin(a), shallow)
				}
				if all {
					res = append(res, one)
				}
			case "max":
				for _, a := range args(call) {
					le(b.Lin(a), one)
				}
			}
		}
		switch strings.SplitN(CallName(call), "[", 2)[0] {
		case "slices.BinarySearch", "slices.BinarySearchFunc", "sort.SearchStrings", "sort.SearchInts":
			res = append(res, one)
			le(one, b.Len(args(call)[0]))
		case "sort.Search":
			res = append(res, one)
			le(one, b.Lin(args(call)[0]))
		case "strings.Index", "strings.IndexByte", "strings.LastIndex", "strings.LastIndexByte", "bytes.Index", "bytes.IndexByte", "slices.Index", "slices.IndexFunc", "strings.IndexRune", "strings.IndexAny", "strings.IndexFunc":
			res = append(res, plusL(one, 1))
			le(plusL(one, 1), b.Len(args(call)[0]))
		}
	}
	if o, ok := v.(*ssa.BinOp); ok {
		k, isC := o.Y.(*ssa.Const)
		var n int64
		if isC && k.Value != nil && k.Value.Kind() == constant.Int {
			n, isC = constant.Int64Val(k.Value)
		} else {
			isC = false
		}
		switch {
		case o.Op == token.SHR && isC && n > 0 && n < 32:
			n = 1 << uint(n)
			fallthrough
		case o.Op == token.QUO && isC && n > 0:
			a := b.Lin(o.X)
			if b.shallowNonNeg(a, shallow) {
				q := addL(konst(0), one, n)
				res = append(res, one, addL(a, q, -1), plusL(addL(q, a, -1), n-1))
			}
		case o.Op == token.REM && isC && n > 0:
			if b.shallowNonNeg(b.Lin(o.X), shallow) {
				res = append(res, one, addL(konst(n-1), one, -1))
			}
		case o.Op == token.AND && isC && n >= 0:
			res = append(res, one, addL(konst(n), one, -1))
		case o.Op == token.REM && !isC:
			// the remainder of a length
			a := b.Lin(o.Y)
			if b.shallowNonNeg(b.Lin(o.X), shallow) {
				res = append(res, one, plusL(addL(a, one, -1), -1))
			}
		}
	}
	return res
}

func (b *Bounds) shallowNonNeg(l Lin, shallow bool) bool {
	if l.C < 0 {
		return false
	}
	for x, c := range l.Coef {
		if c < 0 {
			return false
		}
		if _, ok := b.lens[x]; ok {
			continue
		}
		v := b.vals[x]
		if v != nil && unsignedT(v.Type()) {
			continue
		}
		if n, ok := ssaLow(v, nil); ok && n >= 0 {
			continue
		}
		if b.Low != nil {
			if n, ok := b.Low(v); ok && n >= 0 {
				continue
			}
		}
		return false
	}
	return true
}

// Holds proves goal >= 0 whenever blk is executed.
func (b *Bounds) Holds(goal Lin, blk *ssa.BasicBlock) bool {
	return b.prove(goal, b.facts(blk), blk)
}

func (b *Bounds) prove(goal Lin, facts []Lin, at *ssa.BasicBlock) bool {
	if goal.IsConst() && goal.C >= 0 {
		return true
	}
	cons := []Lin{plusL(addL(konst(0), goal, -1), -1)}
	all := append([]Lin{}, facts...)
	for _, i := range b.inv {
		if !i.dead && i.b.Dominates(at) {
			all = append(all, i.l)
		}
	}
	known := map[*eng.Val]bool{}
	used := make([]bool, len(all))
	for _, c := range all {
		if c.IsConst() && c.C < 0 {
			return true
		}
	}
	for round := 0; round < 5; round++ {
		for i := 0; i < len(cons) && len(cons) < 80; i++ {
			for x := range cons[i].Coef {
				if !known[x] {
					known[x] = true
					cons = append(cons, b.side(x, false)...)
				}
			}
		}
		for i, f := range all {
			if used[i] || f.IsConst() {
				continue
			}
			for x := range f.Coef {
				if known[x] {
					used[i] = true
					cons = append(cons, f)
					break
				}
			}
		}
		if len(cons) > 80 {
			break
		}
	}
	return infeasible(cons)
}

// induct guesses and checks invariants of the phi nodes.
func (b *Bounds) induct() {
	type pv struct {
		phi *ssa.Phi
		l   Lin // the atom
		len bool
	}
	byBlock := map[*ssa.BasicBlock][]pv{}
	var lenVals []ssa.Value
	seenLen := map[string]bool{}
	addLen := func(v ssa.Value) {
		k := b.key(v)
		if !seenLen[k] {
			seenLen[k] = true
			lenVals = append(lenVals, v)
		}
	}
	for _, blk := range b.F.Blocks {
		for _, in := range blk.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if intType(x.Type()) {
					byBlock[blk] = append(byBlock[blk], pv{x, b.Lin(x), false})
				} else if isLenType(x.Type()) {
					byBlock[blk] = append(byBlock[blk], pv{x, b.Len(x), true})
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && len(lenVals) < 12 {
					addLen(x.Call.Args[0])
				}
			case *ssa.IndexAddr:
				if len(lenVals) < 12 {
					addLen(x.X)
				}
			}
		}
	}
	val := func(p pv, i int) Lin {
		if p.len {
			return b.Len(p.phi.Edges[i])
		}
		return b.Lin(p.phi.Edges[i])
	}
	outside := func(l Lin, blk *ssa.BasicBlock) bool {
		for x := range l.Coef {
			v := b.vals[x]
			if v == nil {
				v = b.lens[x]
			}
			in, ok := v.(ssa.Instruction)
			if !ok {
				continue
			}
			if _, ok := v.(*ssa.Phi); ok && in.Block() == blk {
				return false
			}
			if !in.Block().Dominates(blk) || in.Block() == blk {
				return false
			}
		}
		return true
	}
	for _, blk := range b.F.Blocks {
		ps := byBlock[blk]
		if len(ps) > 8 {
			ps = ps[:8]
		}
		add := func(l Lin) { b.inv = append(b.inv, inv{b: blk, l: l}) }
		for n, p := range ps {
			if p.len {
				add(plusL(p.l, -1))
			} else {
				add(p.l)
				add(plusL(p.l, 1))
				add(plusL(p.l, -1))
			}
			for i := range p.phi.Edges {
				v := val(p, i)
				if !outside(v, blk) {
					continue
				}
				add(addL(p.l, v, -1)) // p >= init
				add(addL(v, p.l, -1)) // p <= init
				add(plusL(addL(v, p.l, -1), 1))
			}
			for _, x := range lenVals {
				if ix, ok := x.(ssa.Instruction); ok && (ix.Block() == blk || !ix.Block().Dominates(blk)) {
					continue
				}
				l := b.Len(x)
				if outside(l, blk) {
					add(addL(l, p.l, -1))
					add(plusL(addL(l, p.l, -1), -1))
					if p.len {
						add(addL(p.l, l, -1))
					}
				}
			}
			for m, q := range ps {
				if m == n {
					continue
				}
				d := addL(q.l, p.l, -1) // q - p
				add(d)
				add(plusL(d, 1))
				add(plusL(d, -1))
				if m > n {
					for i := range p.phi.Edges {
						for _, k := range []int64{1, -1} {
							s := addL(p.l, q.l, k)
							v := addL(val(p, i), val(q, i), k)
							if outside(v, blk) {
								e := addL(s, v, -1)
								add(e)
								add(addL(konst(0), e, -1))
							}
						}
					}
				}
			}
		}
	}
	if len(b.inv) > 600 {
		b.inv = b.inv[:600]
	}
	for changed := true; changed; {
		changed = false
		for n := range b.inv {
			c := &b.inv[n]
			if c.dead {
				continue
			}
			for i, pred := range c.b.Preds {
				g := konst(c.l.C)
				for x, k := range c.l.Coef {
					s := Lin{Coef: map[*eng.Val]int64{x: 1}}
					for _, p := range byBlock[c.b] {
						if p.l.Coef[x] == 1 && len(p.l.Coef) == 1 && p.l.C == 0 {
							s = val(p, i)
						}
					}
					g = addL(g, s, k)
				}
				f := append(append([]Lin{}, b.facts(pred)...), b.edge(pred, c.b)...)
				if !b.prove(g, f, pred) {
					c.dead = true
					changed = true
					break
				}
			}
		}
	}
}

func isLenType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// IsLen tells whether the term is the length of something.
func (b *Bounds) IsLen(a *eng.Val) bool { _, ok := b.lens[a]; return ok }

// LenAtoms lists the lengths met so far, and those of the parameters and what
// the function reads.
func (b *Bounds) LenAtoms() (res []*eng.Val) {
	for _, blk := range b.F.Blocks {
		for _, in := range blk.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					b.Len(c.Call.Args[0])
				}
			}
		}
	}
	for a := range b.lens {
		res = append(res, a)
	}
	return
}
