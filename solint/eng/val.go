// Package eng is a path-sensitive, interprocedural dataflow engine over the
// SSA form of the analysed module. Values are abstract symbols (no concrete
// data, no solver): the only facts kept about them are nil/non-nil, boolean
// truth and equalities/orderings that were branched on. In-module callees are
// inlined (up to a depth bound), so extracting a helper, inlining one or
// re-ordering independent statements does not change what a rule sees.
package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind int

const (
	KConst Kind = iota
	KNil
	KSym
	KParam
	KFree
	KGlobal
	KFunc
	KClosure
	KAlloc
	KField // address of a field
	KIndex // address of an element
	KLoad  // initial content of an address
	KFld   // field of a struct value
	KIdx   // element of a value / map lookup
	KBin
	KUn
	KCall
	KMI
	KTA
	KTuple
	KExtract
	KAgg
	KSlice
	KConv
	KLen
	KZero
)

// Val is an interned abstract value.
type Val struct {
	ID    int
	K     Kind
	Op    token.Token
	Name  string
	Args  []*Val
	Names []string // KAgg field names
	Typ   types.Type
	Const constant.Value
	Fn    *ssa.Function
	Ref   ssa.Value // defining SSA value of KSym/KAlloc/KExtract-of-sym
	Call  *ssa.CallCommon
	Ctx   int // context (inlining instance) of KSym/KAlloc
	Depth int
}

type Interner struct {
	tab   map[string]*Val
	n     int
	types map[types.Type]int
}

func NewInterner() *Interner {
	return &Interner{tab: map[string]*Val{}, types: map[types.Type]int{}}
}

func (in *Interner) mk(key string, f func() *Val) *Val {
	if v, ok := in.tab[key]; ok {
		return v
	}
	v := f()
	in.n++
	v.ID = in.n
	d := 0
	for _, a := range v.Args {
		if a.Depth >= d {
			d = a.Depth + 1
		}
	}
	v.Depth = d
	in.tab[key] = v
	return v
}

func argKey(args []*Val) string {
	var sb strings.Builder
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.ID)
	}
	return sb.String()
}

func typKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, nil)
}

func (in *Interner) Const(c constant.Value, t types.Type) *Val {
	if c == nil {
		return in.Nil()
	}
	return in.mk("c:"+c.Kind().String()+":"+c.ExactString(), func() *Val { return &Val{K: KConst, Const: c, Typ: t} })
}
func (in *Interner) Int(n int64) *Val { return in.Const(constant.MakeInt64(n), types.Typ[types.Int]) }
func (in *Interner) Bool(b bool) *Val { return in.Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func (in *Interner) Nil() *Val {
	return in.mk("nil", func() *Val { return &Val{K: KNil} })
}
func (in *Interner) Zero(t types.Type) *Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.Bool(false)
		case u.Info()&types.IsString != 0:
			return in.Const(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return in.Const(constant.MakeInt64(0), t)
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return in.Nil()
	}
	return in.mk("zero:"+typKey(t), func() *Val { return &Val{K: KZero, Typ: t} })
}
func (in *Interner) Sym(ctx int, ref ssa.Value, sub string, t types.Type) *Val {
	return in.mk(fmt.Sprintf("s:%d:%p:%s", ctx, ref, sub), func() *Val {
		return &Val{K: KSym, Ctx: ctx, Ref: ref, Name: sub, Typ: t}
	})
}
func (in *Interner) NamedSym(name string, t types.Type) *Val {
	return in.mk("ns:"+name, func() *Val { return &Val{K: KSym, Name: name, Typ: t} })
}
func (in *Interner) Param(fn *ssa.Function, i int) *Val {
	p := fn.Params[i]
	return in.mk(fmt.Sprintf("p:%p:%d", fn, i), func() *Val { return &Val{K: KParam, Name: p.Name(), Typ: p.Type(), Ref: p} })
}
func (in *Interner) Free(fn *ssa.Function, i int) *Val {
	p := fn.FreeVars[i]
	return in.mk(fmt.Sprintf("fv:%p:%d", fn, i), func() *Val { return &Val{K: KFree, Name: p.Name(), Typ: p.Type(), Ref: p} })
}
func (in *Interner) Global(g *ssa.Global) *Val {
	return in.mk(fmt.Sprintf("g:%s.%s", g.Pkg.Pkg.Path(), g.Name()), func() *Val {
		return &Val{K: KGlobal, Name: g.Pkg.Pkg.Path() + "." + g.Name(), Typ: g.Type(), Ref: g}
	})
}
func (in *Interner) Func(f *ssa.Function) *Val {
	return in.mk(fmt.Sprintf("f:%p", f), func() *Val { return &Val{K: KFunc, Fn: f, Name: f.String(), Typ: f.Signature} })
}
func (in *Interner) Closure(f *ssa.Function, b []*Val) *Val {
	return in.mk(fmt.Sprintf("cl:%p%s", f, argKey(b)), func() *Val {
		return &Val{K: KClosure, Fn: f, Args: b, Name: f.String(), Typ: f.Signature}
	})
}
func (in *Interner) Alloc(ctx int, a ssa.Value, t types.Type) *Val {
	return in.mk(fmt.Sprintf("a:%d:%p", ctx, a), func() *Val { return &Val{K: KAlloc, Ctx: ctx, Ref: a, Typ: t, Name: a.Name()} })
}
func (in *Interner) Node(k Kind, op token.Token, name string, t types.Type, args ...*Val) *Val {
	key := fmt.Sprintf("n:%d:%d:%s", k, op, name)
	if k == KMI || k == KTA || k == KConv {
		key += ":" + typKey(t)
	}
	key += argKey(args)
	return in.mk(key, func() *Val { return &Val{K: k, Op: op, Name: name, Typ: t, Args: args} })
}

// IsNonNilKind tells whether the value can never be nil by construction.
func (v *Val) IsNonNilKind() bool {
	switch v.K {
	case KConst, KGlobal, KFunc, KClosure, KAlloc, KField, KIndex, KMI, KAgg:
		return true
	}
	return false
}

// Walk visits v and all its components.
func (v *Val) Walk(f func(*Val) bool) {
	if !f(v) {
		return
	}
	for _, a := range v.Args {
		a.Walk(f)
	}
}

func (v *Val) Contains(x *Val) bool {
	found := false
	v.Walk(func(y *Val) bool {
		if y == x {
			found = true
		}
		return !found
	})
	return found
}

// StructuralDepth guards against unbounded growth.
func (v *Val) String() string {
	if v == nil {
		return "<nil>"
	}
	a := func(i int) string { return v.Args[i].String() }
	switch v.K {
	case KConst:
		return v.Const.String()
	case KNil:
		return "nil"
	case KZero:
		return "zero(" + types.TypeString(v.Typ, shortQual) + ")"
	case KSym:
		if v.Ref != nil {
			if c, ok := v.Ref.(*ssa.Call); ok {
				return "call:" + CalleeName(&c.Call) + v.Name
			}
			return v.Ref.Name() + v.Name
		}
		return v.Name
	case KParam, KFree:
		return v.Name
	case KGlobal:
		return "&" + v.Name[strings.LastIndex(v.Name, "/")+1:]
	case KFunc, KClosure:
		return "func:" + v.Name[strings.LastIndex(v.Name, "/")+1:]
	case KAlloc:
		return "&local:" + v.Name
	case KField:
		return "&" + strings.TrimPrefix(a(0), "&") + "." + v.Name
	case KIndex:
		return "&" + strings.TrimPrefix(a(0), "&") + "[" + a(1) + "]"
	case KLoad:
		return strings.TrimPrefix(a(0), "&")
	case KFld:
		return a(0) + "." + v.Name
	case KIdx:
		return a(0) + "[" + a(1) + "]"
	case KBin:
		return "(" + a(0) + v.Op.String() + a(1) + ")"
	case KUn:
		return v.Op.String() + a(0)
	case KLen:
		return "len(" + a(0) + ")"
	case KMI, KTA, KConv:
		return a(0)
	case KExtract:
		return a(0) + "#" + v.Name
	}
	var s []string
	for i, x := range v.Args {
		n := ""
		if i < len(v.Names) {
			n = v.Names[i] + ":"
		}
		s = append(s, n+x.String())
	}
	return v.Name + "(" + strings.Join(s, ",") + ")"
}

func shortQual(p *types.Package) string { return p.Name() }

// CalleeName renders a callee for reports.
func CalleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return types.TypeString(c.Value.Type(), shortQual) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return FuncName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return c.Value.Name()
}

// FuncName is a short stable name: pkg.(Recv).Name or pkg.Name.
func FuncName(f *ssa.Function) string {
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	s := o.String()
	if i := strings.LastIndex(s, "/"); i >= 0 {
		pre := ""
		if strings.HasPrefix(s, "(*") {
			pre = "(*"
		} else if strings.HasPrefix(s, "(") {
			pre = "("
		}
		s = pre + s[i+1:]
	}
	return s
}
