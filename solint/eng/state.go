package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TS is one client typestate entry.
type TS struct {
	S string
	V []*Val
}

// Trace is the chain of branch decisions and notes of the current path.
type Trace struct {
	Prev *Trace
	Pos  token.Pos
	Note string
	N    int
}

// State is the abstract state of one path.
type State struct {
	E     *Engine
	mem   map[*Val]*Val
	facts map[*Val]bool
	nilf  map[*Val]bool
	TS    map[string]TS
	Tr    *Trace
}

func (e *Engine) NewState() *State {
	return &State{E: e, mem: map[*Val]*Val{}, facts: map[*Val]bool{}, nilf: map[*Val]bool{}, TS: map[string]TS{}}
}

func (s *State) Clone() *State {
	n := &State{E: s.E, Tr: s.Tr,
		mem:   make(map[*Val]*Val, len(s.mem)),
		facts: make(map[*Val]bool, len(s.facts)),
		nilf:  make(map[*Val]bool, len(s.nilf)),
		TS:    make(map[string]TS, len(s.TS))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.nilf {
		n.nilf[k] = v
	}
	for k, v := range s.TS {
		n.TS[k] = v
	}
	return n
}

// Note adds a line to the path trace.
func (s *State) Note(pos token.Pos, f string, a ...any) {
	n := 0
	if s.Tr != nil {
		n = s.Tr.N
	}
	s.Tr = &Trace{Prev: s.Tr, Pos: pos, Note: fmt.Sprintf(f, a...), N: n + 1}
}

// Key canonically identifies the state (trace excluded).
func (s *State) Key() string {
	var sb strings.Builder
	type kv struct{ a, b int }
	put := func(tag byte, l []kv) {
		sort.Slice(l, func(i, j int) bool { return l[i].a < l[j].a })
		sb.WriteByte(tag)
		for _, x := range l {
			fmt.Fprintf(&sb, "%d=%d;", x.a, x.b)
		}
	}
	var l []kv
	for k, v := range s.mem {
		l = append(l, kv{k.ID, v.ID})
	}
	put('m', l)
	l = nil
	for k, v := range s.facts {
		b := 0
		if v {
			b = 1
		}
		l = append(l, kv{k.ID, b})
	}
	put('f', l)
	l = nil
	for k, v := range s.nilf {
		b := 0
		if v {
			b = 1
		}
		l = append(l, kv{k.ID, b})
	}
	put('n', l)
	ks := make([]string, 0, len(s.TS))
	for k := range s.TS {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t := s.TS[k]
		sb.WriteString("|" + k + "=" + t.S)
		for _, v := range t.V {
			fmt.Fprintf(&sb, ",%d", v.ID)
		}
	}
	return sb.String()
}

// ---------- typestate helpers

func (s *State) Set(k, v string, vals ...*Val) { s.TS[k] = TS{S: v, V: vals} }
func (s *State) Get(k string) string           { return s.TS[k].S }
func (s *State) Has(k string) bool             { _, ok := s.TS[k]; return ok }
func (s *State) Del(k string)                  { delete(s.TS, k) }
func (s *State) KeysPrefix(p string) []string {
	var r []string
	for k := range s.TS {
		if strings.HasPrefix(k, p) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// ---------- memory

func addrRoot(a *Val) *Val {
	for a.K == KField || a.K == KIndex {
		a = a.Args[0]
	}
	return a
}

// AddrRoot is the object an address is based on.
func AddrRoot(a *Val) *Val { return addrRoot(a) }

func isUnder(a, base *Val) bool {
	for a.K == KField || a.K == KIndex {
		a = a.Args[0]
		if a == base {
			return true
		}
	}
	return false
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func fieldIndexType(t types.Type, name string) types.Type {
	if t == nil {
		return nil
	}
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

// FieldOf projects a struct value.
func (s *State) FieldOf(v *Val, name string, t types.Type) *Val {
	switch v.K {
	case KAgg:
		for i, n := range v.Names {
			if n == name {
				return v.Args[i]
			}
		}
		if len(v.Args) > len(v.Names) {
			return s.FieldOf(v.Args[len(v.Args)-1], name, t)
		}
	case KZero:
		if t != nil {
			return s.E.In.Zero(t)
		}
	case KLoad:
		if s.E.loads < 50 { // cells may hold the loads of one another
			s.E.loads++
			x := s.Load(s.E.In.Node(KField, 0, name, nil, v.Args[0]), t)
			s.E.loads--
			return x
		}
	}
	return s.E.In.Node(KFld, 0, name, t, v)
}

// Load reads an abstract cell.
func (s *State) Load(addr *Val, t types.Type) *Val {
	in := s.E.In
	base := s.loadBase(addr, t)
	// overrides of individual fields
	if t != nil {
		if st, ok := t.Underlying().(*types.Struct); ok {
			var names []string
			var vals []*Val
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				fa := in.Node(KField, 0, f.Name(), nil, addr)
				if s.hasUnder(fa) {
					names = append(names, f.Name())
					vals = append(vals, s.Load(fa, f.Type()))
				}
			}
			if len(names) > 0 {
				if base.K == KAgg { // flatten
					for i, n := range base.Names {
						dup := false
						for _, m := range names {
							if m == n {
								dup = true
							}
						}
						if !dup {
							names = append(names, n)
							vals = append(vals, base.Args[i])
						}
					}
					base = base.Args[len(base.Args)-1]
				}
				return in.Agg(t, names, append(vals, base))
			}
		}
	}
	return base
}

func (s *State) hasUnder(a *Val) bool {
	if _, ok := s.mem[a]; ok {
		return true
	}
	for k := range s.mem {
		if isUnder(k, a) {
			return true
		}
	}
	return false
}

func (in *Interner) Agg(t types.Type, names []string, args []*Val) *Val {
	type nv struct {
		n string
		v *Val
	}
	l := make([]nv, len(names))
	for i := range names {
		l[i] = nv{names[i], args[i]}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n < l[j].n })
	ns := make([]string, len(l))
	as := make([]*Val, len(l), len(l)+1)
	for i := range l {
		ns[i], as[i] = l[i].n, l[i].v
	}
	if len(args) > len(names) {
		as = append(as, args[len(args)-1])
	}
	return in.mk("agg:"+typKey(t)+":"+strings.Join(ns, ",")+argKey(as), func() *Val {
		return &Val{K: KAgg, Name: "agg", Names: ns, Args: as, Typ: t}
	})
}

func (s *State) loadBase(addr *Val, t types.Type) *Val {
	in := s.E.In
	if v, ok := s.mem[addr]; ok {
		return v
	}
	switch addr.K {
	case KField:
		b := addr.Args[0]
		if bv := s.baseCell(b); bv != nil {
			return s.FieldOf(bv, addr.Name, t)
		}
	case KIndex:
		b := addr.Args[0]
		if bv := s.baseCell(b); bv != nil {
			return in.Node(KIdx, 0, "", t, bv, addr.Args[1])
		}
		// may alias another written element
		for k := range s.mem {
			if k.K == KIndex && k.Args[0] == b {
				if k.Args[1].K == KConst && addr.Args[1].K == KConst {
					continue
				}
				return in.Node(KIdx, 0, "w", t, in.NamedSym(fmt.Sprintf("elems%d", b.ID), nil), addr.Args[1])
			}
		}
	case KGlobal:
		if v := s.E.globalInit(addr); v != nil {
			return v
		}
	}
	if r := addrRoot(addr); r.K == KAlloc && t != nil {
		if _, hv := s.mem[r]; !hv {
			return in.Zero(t)
		}
	}
	return in.Node(KLoad, 0, "", t, addr)
}

// baseCell returns the struct/array value stored as a whole at b (or at an
// enclosing cell), nil when nothing is known.
func (s *State) baseCell(b *Val) *Val {
	if v, ok := s.mem[b]; ok {
		return v
	}
	if b.K == KField {
		if o := s.baseCell(b.Args[0]); o != nil {
			return s.FieldOf(o, b.Name, nil)
		}
	}
	return nil
}

// Store writes an abstract cell.
func (s *State) Store(addr, v *Val) {
	for k := range s.mem {
		if isUnder(k, addr) {
			delete(s.mem, k)
		}
	}
	s.mem[addr] = v
}

// Forget drops every fact about the given symbol (it is being redefined).
func (s *State) Forget(x *Val) {
	for k := range s.facts {
		if k.Contains(x) {
			delete(s.facts, k)
		}
	}
	for k := range s.nilf {
		if k.Contains(x) {
			delete(s.nilf, k)
		}
	}
	for k := range s.mem {
		if k != x && k.Contains(x) {
			delete(s.mem, k)
		}
	}
}

// Havoc forgets what is known about memory below base (other goroutines may
// have changed it). tag makes the fresh symbols distinguishable.
func (s *State) Havoc(base *Val, ctx int, tag ssa.Value, skip func(*Val) bool) {
	seen := map[*Val]bool{}
	var todo []*Val
	add := func(a *Val) {
		if seen[a] || (skip != nil && skip(a)) {
			return
		}
		if a.K == KField || a.K == KIndex {
			if isUnder(a, base) {
				seen[a] = true
				todo = append(todo, a)
			}
		}
	}
	for k := range s.mem {
		add(k)
	}
	scan := func(v *Val) {
		v.Walk(func(x *Val) bool {
			if x.K == KLoad {
				add(x.Args[0])
			}
			return true
		})
	}
	for k := range s.facts {
		scan(k)
	}
	for k := range s.nilf {
		scan(k)
	}
	sort.Slice(todo, func(i, j int) bool { return todo[i].ID < todo[j].ID })
	for _, a := range todo {
		n := s.E.In.Sym(ctx, tag, fmt.Sprintf("hv%d", a.ID), nil)
		n.Typ = nil
		s.Forget(n)
		s.mem[a] = n
	}
}

// ---------- facts

func (s *State) NilKnown(v *Val) (isNil, known bool) {
	if v.K == KNil {
		return true, true
	}
	if v.K == KConv && len(v.Args) == 1 {
		return s.NilKnown(v.Args[0])
	}
	if v.IsNonNilKind() {
		return false, true
	}
	if v.K == KCall && v.Name == "grpcwrap" {
		return s.NilKnown(v.Args[0])
	}
	if v.K == KLoad && v.Args[0].K == KGlobal && isErrSentinel(v.Args[0]) {
		return false, true
	}
	if v.K == KCall && nonNilCalls[v.Name] {
		return false, true
	}
	if v.K == KSlice {
		return s.NilKnown(v.Args[0])
	}
	if c := s.E.errOf[v]; c != nil && s.ctxDone(c) {
		return false, true
	}
	if v.K == KSym && v.Call != nil && isConstructor(v.Call) {
		return false, true
	}
	b, ok := s.nilf[v]
	if !ok && v.K == KSym && v.Name == "#0" && v.Call != nil && valueXorError(v.Call) {
		res := v.Call.Signature().Results()
		err := s.E.In.Sym(v.Ctx, v.Ref, fmt.Sprintf("#%d", res.Len()-1), res.At(res.Len()-1).Type())
		if eb, known := s.nilf[err]; known {
			return !eb, true
		}
	}
	return b, ok
}

// ctxDone: the path took the "context is done" branch of ctx.
func (s *State) ctxDone(ctx *Val) bool {
	done := s.E.In.Node(KCall, 0, "(context.Context).Done", nil, ctx)
	if s.facts[s.E.In.Node(KCall, 0, "received", types.Typ[types.Bool], done)] {
		return true
	}
	return false
}

// isConstructor: library functions NewX with the single pointer result never
// return nil.
func isConstructor(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || f.Blocks != nil || f.Signature.Results().Len() != 1 || !strings.HasPrefix(f.Name(), "New") {
		return false
	}
	_, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer)
	return ok
}

// valueXorError: library constructors that return a usable value exactly when
// the error is nil.
func valueXorError(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || f.Signature.Results().Len() < 2 {
		return false
	}
	n := SSAName(f)
	return strings.HasPrefix(n, "os.") || strings.HasPrefix(n, "archive/zip.") || strings.HasPrefix(n, "(*archive/zip.")
}

// IsNil / IsNonNil: definitely so on this path.
func (s *State) IsNil(v *Val) bool    { n, k := s.NilKnown(v); return k && n }
func (s *State) IsNonNil(v *Val) bool { n, k := s.NilKnown(v); return k && !n }

func constInt(v *Val) (int64, bool) {
	if v.K == KConst && v.Const.Kind() == constant.Int {
		return constant.Int64Val(v.Const)
	}
	return 0, false
}

// ConstInt exposes integer constants.
func ConstInt(v *Val) (int64, bool) { return constInt(v) }

func ConstString(v *Val) (string, bool) {
	if v.K == KConst && v.Const.Kind() == constant.String {
		return constant.StringVal(v.Const), true
	}
	return "", false
}

// Eval decides a boolean value on this path.
func (s *State) Eval(v *Val) (val, known bool) {
	switch v.K {
	case KConst:
		if v.Const.Kind() == constant.Bool {
			return constant.BoolVal(v.Const), true
		}
	case KUn:
		if v.Op == token.NOT {
			b, k := s.Eval(v.Args[0])
			return !b, k
		}
	case KBin:
		a, b := v.Args[0], v.Args[1]
		switch v.Op {
		case token.EQL:
			if b.K == KNil {
				return s.NilKnown(a)
			}
			if a == b {
				return true, true
			}
			if a.K == KConst && b.K == KConst && a.Const.Kind() == b.Const.Kind() {
				return constant.Compare(a.Const, token.EQL, b.Const), true
			}
			if m, n, ok := foldPair(a, b); ok {
				return m == n, true
			}
			if x, ok := s.facts[v]; ok {
				return x, true
			}
			if b.K == KConst {
				for k, t := range s.facts {
					if t && k.K == KBin && k.Op == token.EQL && k.Args[0] == a && k.Args[1].K == KConst && k.Args[1] != b {
						return false, true
					}
				}
				if n, ok := constInt(b); ok {
					lo, hi := s.Bounds(a)
					if (lo != nil && n < *lo) || (hi != nil && n > *hi) {
						return false, true
					}
					if lo != nil && hi != nil && *lo == n && *hi == n {
						return true, true
					}
				}
			}
			if x, ok := s.facts[s.E.less(a, b)]; ok && !x {
				if y, ok := s.facts[s.E.less(b, a)]; ok && !y {
					return true, true
				}
			}
			if s.facts[s.E.less(a, b)] || s.facts[s.E.less(b, a)] {
				return false, true
			}
			return false, false
		case token.LSS:
			if a == b {
				return false, true
			}
			if a.K == KConst && b.K == KConst && a.Const.Kind() == b.Const.Kind() && a.Const.Kind() != constant.Bool {
				return constant.Compare(a.Const, token.LSS, b.Const), true
			}
			if m, n, ok := foldPair(a, b); ok {
				return m < n, true
			}
			if x, ok := s.facts[v]; ok {
				return x, true
			}
			if x, ok := s.facts[s.E.less(b, a)]; ok && x {
				return false, true
			}
			if s.facts[s.E.eq(a, b)] {
				return false, true
			}
			if n, ok := foldSigned(b); ok {
				lo, hi := s.Bounds(a)
				if hi != nil && *hi < n {
					return true, true
				}
				if lo != nil && *lo >= n {
					return false, true
				}
			}
			if n, ok := foldSigned(a); ok {
				lo, hi := s.Bounds(b)
				if lo != nil && n < *lo {
					return true, true
				}
				if hi != nil && n >= *hi {
					return false, true
				}
			}
			return false, false
		}
	case KCall:
		if v.Name == "errors.Is" {
			if isNil, ok := s.NilKnown(v.Args[0]); ok && isNil {
				return false, true
			}
			if v.Args[0] == v.Args[1] && s.IsNonNil(v.Args[0]) {
				return true, true
			}
			if w := unwrapErrorf(v.Args[0]); w != nil {
				for _, x := range w {
					if x == v.Args[1] {
						return true, true
					}
				}
			}
			if c := v.Args[0]; c.K == KCall && c.Name == "errorf" {
				// it is what one of the wrapped ones is
				all := true
				for _, a := range c.Args {
					for a.K == KMI {
						a = a.Args[0]
					}
					if a.K == KConst || a.Typ == nil {
						continue
					}
					t, ok := s.Eval(s.E.In.Node(KCall, 0, "errors.Is", v.Typ, a, v.Args[1]))
					if ok && t {
						return true, true
					}
					all = all && ok
				}
				if all {
					return false, true
				}
			}
		}
	}
	x, ok := s.facts[v]
	return x, ok
}

// unwrapErrorf lists the wrapped operands of an errorf value, recursively.
func unwrapErrorf(v *Val) []*Val {
	if v.K == KCall && v.Name == "errorf" {
		var r []*Val
		for _, a := range v.Args {
			for a.K == KMI {
				a = a.Args[0]
			}
			r = append(r, a)
			r = append(r, unwrapErrorf(a)...)
		}
		return r
	}
	return nil
}

// Bounds derives integer bounds of v from constants and branch facts.
func (s *State) Bounds(v *Val) (lo, hi *int64) {
	setLo := func(n int64) {
		if lo == nil || n > *lo {
			lo = &n
		}
	}
	setHi := func(n int64) {
		if hi == nil || n < *hi {
			hi = &n
		}
	}
	if n, ok := constInt(v); ok {
		return &n, &n
	}
	if v.K == KLen {
		setLo(0)
		if c := v.Args[0]; c.K == KCall && c.Name == "append" && len(c.Args) == 2 {
			a, ah := s.Bounds(s.Len(c.Args[0]))
			b, bh := s.Bounds(s.Len(c.Args[1]))
			if a != nil && b != nil {
				setLo(*a + *b)
			}
			if ah != nil && bh != nil {
				setHi(*ah + *bh)
			}
		}
	}
	if v.K == KConv && len(v.Args) == 1 {
		l, h := s.Bounds(v.Args[0])
		return l, h
	}
	for k, t := range s.facts {
		if k.K != KBin {
			continue
		}
		a, b := k.Args[0], k.Args[1]
		if k.Op == token.EQL && t && a == v {
			if n, ok := constInt(b); ok {
				setLo(n)
				setHi(n)
			}
		}
		if k.Op == token.LSS {
			if a == v {
				if n, ok := constInt(b); ok {
					if t {
						setHi(n - 1)
					} else {
						setLo(n)
					}
				}
			}
			if b == v {
				if n, ok := constInt(a); ok {
					if t {
						setLo(n + 1)
					} else {
						setHi(n)
					}
				}
			}
		}
	}
	// x != lo / x != hi sharpen by one
	for k, t := range s.facts {
		if k.K == KBin && k.Op == token.EQL && !t && k.Args[0] == v {
			if n, ok := constInt(k.Args[1]); ok {
				if lo != nil && *lo == n {
					m := n + 1
					lo = &m
				}
				if hi != nil && *hi == n {
					m := n - 1
					hi = &m
				}
			}
		}
	}
	return
}

// Assume records that v is val; false when that contradicts the path.
func (s *State) Assume(v *Val, val bool) bool {
	if b, k := s.Eval(v); k {
		return b == val
	}
	switch v.K {
	case KUn:
		if v.Op == token.NOT {
			return s.Assume(v.Args[0], !val)
		}
	case KBin:
		if v.Op == token.EQL && v.Args[1].K == KNil {
			s.nilf[v.Args[0]] = val
			if x := v.Args[0]; x.K == KSym && x.Call != nil && valueXorError(x.Call) {
				// remember the twin result: the error may be forgotten later
				res := x.Call.Signature().Results()
				if last := res.Len() - 1; x.Name == fmt.Sprintf("#%d", last) {
					t := s.E.In.Sym(x.Ctx, x.Ref, "#0", res.At(0).Type())
					if s.E.isNilable(t) {
						s.nilf[t] = !val
					}
				}
			}
			return true
		}
		if v.Op == token.EQL && val {
			if isNil, ok := s.NilKnown(v.Args[1]); ok && s.E.isNilable(v.Args[1]) {
				if n2, ok2 := s.NilKnown(v.Args[0]); ok2 && n2 != isNil {
					return false
				}
				if v.Args[0].K == KSym || v.Args[0].K == KParam || v.Args[0].K == KLoad {
					s.nilf[v.Args[0]] = isNil
				}
			}
		}
	case KCall:
		if v.Name == "errors.Is" && val {
			s.nilf[v.Args[0]] = false
		}
		if c := v.Args[0]; v.Name == "errors.Is" && c.K == KCall && c.Name == "errorf" && len(c.Args) == 1 && c != v.Args[1] && c.Args[0].K != KConst {
			s.facts[v] = val
			return s.Assume(s.E.In.Node(KCall, 0, "errors.Is", v.Typ, stripMI(c.Args[0]), v.Args[1]), val)
		}
	}
	s.facts[v] = val
	return true
}

func (e *Engine) isNilable(v *Val) bool {
	if v.Typ == nil {
		return false
	}
	switch v.Typ.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func (e *Engine) eq(a, b *Val) *Val {
	if a.K == KNil {
		a, b = b, a
	} else if a.K == KConst && b.K != KNil && b.K != KConst {
		a, b = b, a
	} else if b.K != KConst && b.K != KNil && a.ID > b.ID {
		a, b = b, a
	}
	return e.In.Node(KBin, token.EQL, "", types.Typ[types.Bool], a, b)
}

func (e *Engine) less(a, b *Val) *Val {
	return e.In.Node(KBin, token.LSS, "", types.Typ[types.Bool], a, b)
}
func (e *Engine) not(a *Val) *Val {
	if a.K == KUn && a.Op == token.NOT {
		return a.Args[0]
	}
	if a.K == KConst && a.Const.Kind() == constant.Bool {
		return e.In.Bool(!constant.BoolVal(a.Const))
	}
	return e.In.Node(KUn, token.NOT, "", types.Typ[types.Bool], a)
}

// Eq, Less, Not build canonical conditions.
func (e *Engine) Eq(a, b *Val) *Val   { return e.eq(a, b) }
func (e *Engine) Less(a, b *Val) *Val { return e.less(a, b) }
func (e *Engine) Not(a *Val) *Val     { return e.not(a) }

func (e *Engine) binop(op token.Token, a, b *Val, t types.Type, bothConst bool) *Val {
	isInt := func(v *Val) bool { _, ok := constInt(v); return ok }
	switch op {
	case token.EQL, token.NEQ:
		// len(x)==0 on strings: x==""
		r := e.eq(a, b)
		if op == token.NEQ {
			return e.not(r)
		}
		return r
	case token.LSS, token.GEQ, token.GTR, token.LEQ:
		neg := false
		switch op {
		case token.GTR:
			a, b = b, a
		case token.GEQ:
			neg = true
		case token.LEQ:
			a, b = b, a
			neg = true
		}
		var r *Val
		// normal forms for lengths: 0<len(x) <=> len(x)!=0 ; len(x)<1 <=> len(x)==0
		if n, ok := constInt(a); ok && n == 0 && b.K == KLen {
			r = e.not(e.eq(b, e.In.Int(0)))
		} else if n, ok := constInt(b); ok && n == 1 && a.K == KLen {
			r = e.eq(a, e.In.Int(0))
		} else {
			r = e.less(a, b)
		}
		if neg {
			return e.not(r)
		}
		return r
	}
	if bothConst && a.K == KConst && b.K == KConst {
		if op == token.SHL || op == token.SHR {
			if n, ok := constInt(b); ok && n >= 0 && n < 64 && isInt(a) {
				return e.In.Const(constant.Shift(a.Const, op, uint(n)), t)
			}
		} else if a.Const.Kind() == b.Const.Kind() {
			o := op
			if isInt(a) && (op == token.QUO) {
				o = token.QUO_ASSIGN
			}
			if n, ok := constInt(b); !(ok && n == 0 && (op == token.QUO || op == token.REM)) {
				if op == token.LAND || op == token.LOR || op == token.ADD || isInt(a) {
					return e.In.Const(constant.BinaryOp(a.Const, o, b.Const), t)
				}
			}
		}
	}
	if n, ok := constInt(b); ok && n == 0 && (op == token.ADD || op == token.SUB) {
		return a
	}
	if n, ok := constInt(a); ok && n == 0 && op == token.ADD {
		return b
	}
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if t != nil {
			if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				break
			}
		}
		if a.ID > b.ID {
			a, b = b, a
		}
	}
	return e.In.Node(KBin, op, "", t, a, b)
}

// isErrSentinel: package-level error variables by Go convention (ErrX, errX,
// io.EOF, ...) are never nil.
func isErrSentinel(g *Val) bool {
	t := g.Typ
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	return types.Identical(p.Elem(), types.Universe.Lookup("error").Type())
}

// EachFact visits the branch facts of the path.
func (s *State) EachFact(f func(v *Val, val bool)) {
	for k, b := range s.facts {
		f(k, b)
	}
}

// AnyFact tells whether some branch fact satisfies f.
func (s *State) AnyFact(f func(v *Val, val bool) bool) bool {
	for k, b := range s.facts {
		if f(k, b) {
			return true
		}
	}
	return false
}

// Cell reads a memory cell that was written on this path.
func (s *State) Cell(a *Val) (*Val, bool) { v, ok := s.mem[a]; return v, ok }

// EachCell visits the cells written on this path.
func (s *State) EachCell(f func(a, v *Val)) {
	for k, v := range s.mem {
		f(k, v)
	}
}

func (s *State) drop(v *Val) {
	for v.K == KUn && v.Op == token.NOT {
		v = v.Args[0]
	}
	delete(s.facts, v)
	if v.K == KBin && v.Op == token.EQL && v.Args[1].K == KNil {
		delete(s.nilf, v.Args[0])
	}
}

// Dump renders the state for debugging.
func (s *State) Dump() string {
	var l []string
	for k, v := range s.mem {
		l = append(l, "  mem "+k.String()+" = "+v.String())
	}
	for k, v := range s.facts {
		l = append(l, fmt.Sprintf("  fact %s = %v", k, v))
	}
	for k, v := range s.nilf {
		l = append(l, fmt.Sprintf("  nil %s = %v", k, v))
	}
	for k, v := range s.TS {
		l = append(l, fmt.Sprintf("  ts %s = %s %v", k, v.S, v.V))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// forgetMapLens drops what is known about the number of elements of the map
// (of every map, when m is nil).
func (s *State) forgetMapLens(m *Val) {
	old := map[*Val]bool{}
	for k := range s.facts {
		k.Walk(func(x *Val) bool {
			if x.K == KLen && (m == nil && isMapVal(x.Args[0]) || x.Args[0] == m && m != nil) {
				old[x] = true
			}
			return true
		})
	}
	for x := range old {
		s.Forget(x)
	}
}

func isMapVal(v *Val) bool {
	if v.Typ == nil {
		return true
	}
	_, ok := v.Typ.Underlying().(*types.Map)
	return ok
}

// foldInt evaluates sums of constants, which are kept symbolic to not unroll
// the loops.
func foldInt(v *Val, d int) (int64, bool) {
	if n, ok := constInt(v); ok {
		return n, n < 1<<40 && n > -(1<<40)
	}
	if v.K != KBin || d > 4 || (v.Op != token.ADD && v.Op != token.SUB) {
		return 0, false
	}
	a, ok := foldInt(v.Args[0], d+1)
	if !ok {
		return 0, false
	}
	b, ok := foldInt(v.Args[1], d+1)
	if v.Op == token.SUB {
		b = -b
	}
	return a + b, ok
}

func foldPair(a, b *Val) (int64, int64, bool) {
	if a.K != KBin && b.K != KBin {
		return 0, 0, false
	}
	if !signedInt(a.Typ) && !signedInt(b.Typ) {
		return 0, 0, false
	}
	m, ok := foldInt(a, 0)
	if !ok {
		return 0, 0, false
	}
	n, ok := foldInt(b, 0)
	return m, n, ok
}

func foldSigned(v *Val) (int64, bool) {
	if n, ok := constInt(v); ok {
		return n, ok
	}
	if v.K == KBin && signedInt(v.Typ) {
		return foldInt(v, 0)
	}
	return 0, false
}

func signedInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
