package lib

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
)

// Taint is a flow-insensitive, interprocedural def-use propagation over the
// whole module: values are followed through copies, slices, conversions, local
// variables, struct fields, calls, returns and closures.
type Taint struct {
	P *Prog
	// Pass decides whether a value derived from a tainted operand by this
	// instruction is tainted (conversions, binary operations, external calls).
	Pass func(f *ssa.Function, in ssa.Instruction, arg ssa.Value) bool
	// Sink sees every use of a tainted value.
	Sink func(f *ssa.Function, in ssa.Instruction, arg ssa.Value)
	// Block stops the propagation into a function (a sanitizer).
	Block func(f *ssa.Function) bool
	// Stop keeps a value out of the propagation.
	Stop func(v ssa.Value) bool

	seen    map[ssa.Value]bool
	fields  map[string]bool
	q       []ssa.Value
	callers map[*ssa.Function][]ssa.CallInstruction
	loads   map[string][]ssa.Value
	impls   map[string][]*ssa.Function
	Visited map[*ssa.Function]bool
	why     map[ssa.Value]ssa.Value
}

func (t *Taint) init() {
	t.seen, t.fields = map[ssa.Value]bool{}, map[string]bool{}
	t.callers, t.loads = map[*ssa.Function][]ssa.CallInstruction{}, map[string][]ssa.Value{}
	t.impls = map[string][]*ssa.Function{}
	t.Visited = map[*ssa.Function]bool{}
	t.why = map[ssa.Value]ssa.Value{}
	for _, f := range t.P.Funcs {
		if f.Signature.Recv() != nil {
			t.impls[f.Name()] = append(t.impls[f.Name()], f)
		}
	}
	for _, f := range t.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range t.Targets(ci.Common()) {
						t.callers[g] = append(t.callers[g], ci)
					}
				}
				switch x := in.(type) {
				case *ssa.FieldAddr:
					k := FieldAddrKey(x)
					for _, r := range *x.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
							t.loads[k] = append(t.loads[k], u)
						}
					}
				case *ssa.Field:
					t.loads[FieldKey(x)] = append(t.loads[FieldKey(x)], x)
				}
			}
		}
	}
}

// FieldKey names the field a Field instruction reads.
func FieldKey(x *ssa.Field) string { return fieldKey(x.X.Type(), x.Field) }

// FieldAddrKey names the field a FieldAddr instruction addresses.
func FieldAddrKey(x *ssa.FieldAddr) string {
	t := x.X.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return fieldKey(t, x.Field)
}

func fieldKey(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	n := "struct"
	if nt, ok := types.Unalias(t).(*types.Named); ok {
		n = strings.TrimPrefix(nt.Origin().Obj().Pkg().Path(), Mod+"/") + "." + nt.Obj().Name()
	}
	return n + "." + st.Field(i).Name()
}

// Targets resolves the in-module callees of a call (by static callee, or all
// implementations of an interface method).
func (t *Taint) Targets(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		if eng.InModule(f) && len(f.Blocks) > 0 {
			return []*ssa.Function{f}
		}
		return nil
	}
	if c.IsInvoke() {
		var r []*ssa.Function
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, f := range t.impls[c.Method.Name()] {
			if it != nil && types.Implements(f.Signature.Recv().Type(), it) {
				r = append(r, f)
			}
		}
		return r
	}
	return nil
}

// Run propagates from the sources.
func (t *Taint) Run(sources []ssa.Value) {
	t.init()
	for _, s := range sources {
		t.add(s, nil)
	}
	for len(t.q) > 0 {
		v := t.q[0]
		t.q = t.q[1:]
		t.flow(v)
	}
}

// Tainted tells whether a value was reached.
func (t *Taint) Tainted(v ssa.Value) bool { return t.seen[v] }

func (t *Taint) add(v, from ssa.Value) {
	if v == nil || t.seen[v] || t.Stop != nil && t.Stop(v) {
		return
	}
	t.seen[v] = true
	t.why[v] = from
	t.q = append(t.q, v)
}

func (t *Taint) pass(f *ssa.Function, in ssa.Instruction, v ssa.Value) bool {
	return t.Pass == nil || t.Pass(f, in, v)
}

func (t *Taint) taintAddr(f *ssa.Function, a ssa.Value, from ssa.Value) {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			t.field(FieldAddrKey(x), from)
			return
		case *ssa.IndexAddr:
			a = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				a = x.X
				continue
			}
		case *ssa.Slice:
			a = x.X
			continue
		}
		break
	}
	t.add(a, from)
}

func (t *Taint) field(k string, from ssa.Value) {
	if t.fields[k] {
		return
	}
	t.fields[k] = true
	for _, l := range t.loads[k] {
		t.add(l, from)
	}
}

func (t *Taint) flow(v ssa.Value) {
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, in := range *refs {
		f := in.Parent()
		if f == nil {
			continue
		}
		t.Visited[f] = true
		if t.Sink != nil {
			t.Sink(f, in, v)
		}
		switch x := in.(type) {
		case *ssa.Phi:
			t.add(x, v)
		case *ssa.ChangeType:
			t.add(x, v)
		case *ssa.MakeInterface:
			t.add(x, v)
		case *ssa.ChangeInterface:
			t.add(x, v)
		case *ssa.TypeAssert:
			t.add(x, v)
		case *ssa.Extract:
			t.add(x, v)
		case *ssa.Slice:
			if x.X == v {
				t.add(x, v)
			}
		case *ssa.Convert:
			if t.pass(f, in, v) {
				t.add(x, v)
			}
		case *ssa.BinOp:
			if t.pass(f, in, v) {
				t.add(x, v)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL || t.pass(f, in, v) {
				t.add(x, v)
			}
		case *ssa.Index:
			if x.X == v && t.pass(f, in, v) {
				t.add(x, v)
			}
		case *ssa.IndexAddr:
			if x.X == v && t.pass(f, in, v) {
				t.add(x, v)
			}
		case *ssa.Lookup:
			if x.X == v && t.pass(f, in, v) {
				t.add(x, v)
			}
		case *ssa.Range:
			t.add(x, v)
		case *ssa.Next:
			t.add(x, v)
		case *ssa.Store:
			if x.Val == v {
				t.taintAddr(f, x.Addr, v)
			}
		case *ssa.MapUpdate:
			if x.Value == v {
				t.taintAddr(f, x.Map, v)
			}
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v {
					t.add(fn.FreeVars[i], v)
				}
			}
		case *ssa.Return:
			for i, r := range x.Results {
				if r != v {
					continue
				}
				for _, c := range t.callers[f] {
					val := c.Value()
					if val == nil {
						continue
					}
					if len(x.Results) == 1 {
						t.add(val, v)
					} else {
						for _, cr := range *val.Referrers() {
							if e, ok := cr.(*ssa.Extract); ok && e.Index == i {
								t.add(e, v)
							}
						}
					}
				}
			}
		case ssa.CallInstruction:
			c := x.Common()
			tg := t.Targets(c)
			for _, g := range tg {
				if t.Block != nil && t.Block(g) {
					continue
				}
				for i, a := range c.Args {
					if a != v {
						continue
					}
					k := i
					if c.IsInvoke() {
						k++
					}
					if k < len(g.Params) {
						t.add(g.Params[k], v)
					}
				}
				if c.IsInvoke() && c.Value == v && len(g.Params) > 0 {
					t.add(g.Params[0], v)
				}
			}
			if len(tg) == 0 && t.pass(f, in, v) {
				if val := x.Value(); val != nil {
					t.add(val, v)
				}
			}
		}
	}
}

// Path renders how the taint arrived.
func (t *Taint) Path(v ssa.Value) []string {
	var r []string
	for v != nil && len(r) < 30 {
		pos := v.Pos()
		if f := v.Parent(); f != nil && pos.IsValid() {
			r = append(r, t.P.Pos(pos)+": "+Name(f)+": "+v.Name()+" "+v.String())
		}
		v = t.why[v]
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}
