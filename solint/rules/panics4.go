package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/lib"
)

// goTypes maps the declared types of the dialects' parameters to what their
// functions return.
var goTypes = map[string]string{"VTString": "string", "VTTime": "time.Time", "VTBool": "bool", "VTStrings": "[]string"}

type typedParams struct {
	p       *lib.Prog
	byConst map[int64]string // the declared type -> the Go type
	keyType map[string]string
	inLike  string // what the parameters that accept IN and LIKE return
	inFlag  int64
}

func newTypedParams(p *lib.Prog, ds []*dialectFn) *typedParams {
	t := &typedParams{p: p, byConst: map[int64]string{}, keyType: map[string]string{}}
	for n, g := range goTypes {
		if c, ok := p.ConstInt("pkg/ql", n); ok {
			t.byConst[c] = g
		}
	}
	t.inFlag, _ = p.ConstInt("pkg/ql", "PfInLike")
	for _, d := range ds {
		if d.field != "ValueF" {
			continue
		}
		g := t.byConst[d.typ]
		if old, ok := t.keyType[d.key]; ok && old != g {
			g = "?"
		}
		t.keyType[d.key] = g
		if t.inFlag != 0 && d.flags&t.inFlag != 0 {
			if t.inLike != "" && t.inLike != t.byConst[d.typ] {
				t.inLike = "?"
			} else if t.inLike == "" {
				t.inLike = t.byConst[d.typ]
			}
		}
	}
	return t
}

// tells whether the condition guarantees a value of the Go type.
func (t *typedParams) evidence(cond ssa.Value, truth bool, want string) bool {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, truth = u.X, !truth
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return false
	}
	x, y := b.X, b.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok || k.Value == nil {
		return false
	}
	eq := (b.Op == token.EQL) == truth
	if n, ok := k.Type().(*types.Named); ok && n.Obj().Name() == "ValueType" {
		return eq && t.byConst[k.Int64()] == want
	}
	if k.Value.Kind() == constant.String {
		s := constant.StringVal(k.Value)
		return eq && (s == qlConst(t.p, "ArrayParamID") || s == qlConst(t.p, "StringParamID")) && t.keyType[s] == want
	}
	if and, ok := x.(*ssa.BinOp); ok && and.Op == token.AND && k.Value.Kind() == constant.Int && k.Int64() == 0 {
		if m, ok := and.Y.(*ssa.Const); ok && m.Int64() == t.inFlag {
			return !eq && t.inLike == want
		}
	}
	return false
}

// known: what runs before the block guarantees a value of the type.
func (t *typedParams) known(b *ssa.BasicBlock, want string, depth int) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) == 1 {
			pr := d.Preds[0]
			if i, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); ok && t.evidence(i.Cond, pr.Succs[0] == d, want) {
				return true
			}
		}
	}
	f := b.Parent()
	if depth > 3 {
		return false
	}
	if f.Parent() != nil {
		found := false
		eachInstr(f.Parent(), func(in ssa.Instruction) {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				found = found || t.known(in.Block(), want, depth+1)
			}
		})
		return found
	}
	sites, good := 0, true
	for _, g := range t.p.Funcs {
		if lib.PkgOf(g) != lib.PkgOf(f) {
			continue
		}
		eachInstr(g, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			callee := c.Common().StaticCallee()
			if callee == nil || callee != f && callee.Origin() != f && (f.Origin() == nil || callee.Origin() != f.Origin()) {
				return
			}
			if g == f {
				return
			}
			sites++
			good = good && t.known(in.Block(), want, depth+1)
		})
	}
	return sites > 0 && good
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// typedValues: a value of a dialect's parameter has the declared type, and is
// taken for what it is.
func typedValues(p *lib.Prog, r *lib.Report, ds []*dialectFn, skip func(f *ssa.Function) bool, pkgs ...string) {
	t := newTypedParams(p, ds)
	n := 0
	for _, d := range ds {
		if d.field != "ValueF" {
			continue
		}
		n++
		want := t.byConst[d.typ]
		what := d.dialect + "[" + d.key + "]"
		r.AddFunc(d.fn)
		eachInstr(d.fn, func(in ssa.Instruction) {
			ret, ok := in.(*ssa.Return)
			if !ok || len(ret.Results) != 2 {
				return
			}
			if c, ok := ret.Results[1].(*ssa.Const); !ok || c.Value != nil {
				return // a failure
			}
			mi, ok := ret.Results[0].(*ssa.MakeInterface)
			r.Check(ok && typeName(mi.X.Type()) == want && want != "", "declared-type", what, in.Pos(), nil, "%s does not return the value of the type it is declared with", what)
		})
	}
	if n == 0 {
		r.Bad("anchor", "dialects", token.NoPos, nil, "no dialect entry with the value function is found")
	}
	for _, f := range p.InPkg(pkgs...) {
		if skip(f) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			ta, ok := in.(*ssa.TypeAssert)
			if !ok || ta.CommaOk || !ta.Pos().IsValid() {
				return
			}
			want := typeName(ta.AssertedType)
			r.Check(t.known(ta.Block(), want, 0), "type-assertion", lib.Name(f)+": "+want, in.Pos(), nil, "%s takes a value for the type %s, which nothing before guarantees", lib.Name(f), want)
		})
	}
}

// checkedParams: the function that gives the value of a parameter is called
// only for the parameter its entry accepts.
func checkedParams(p *lib.Prog, r *lib.Report, pkg string) {
	isEntry := func(t types.Type) bool {
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		n, ok := t.(*types.Named)
		return ok && n.Obj().Name() == "ParamDialect"
	}
	isParam := func(t types.Type) bool {
		pt, ok := t.(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := pt.Elem().(*types.Named)
		return ok && n.Obj().Name() == "Param" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), pkg)
	}
	lookup := func(v ssa.Value) bool { // from the dialect, not given by the caller
		for {
			switch x := v.(type) {
			case *ssa.Extract:
				_, ok := x.Tuple.(*ssa.Lookup)
				return ok
			case *ssa.Lookup:
				return true
			case *ssa.Field:
				v = x.X
				continue
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					v = fa.X
					continue
				}
				v = x.X
				continue
			case *ssa.Alloc:
				for _, ref := range *x.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == x {
						if _, isP := s.Val.(*ssa.Parameter); !isP {
							v = s.Val
						} else {
							return false
						}
					}
				}
				if _, ok := v.(*ssa.Alloc); ok {
					return false
				}
				continue
			}
			return false
		}
	}
	n := 0
	for _, f := range p.InPkg(pkg) {
		checks := map[ssa.Value][]*ssa.Call{}
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			callee := c.Call.StaticCallee()
			if callee != nil && callsField(callee, "CheckF", 0) {
				for _, a := range c.Call.Args {
					if isParam(a.Type()) {
						checks[a] = append(checks[a], c)
					}
				}
			}
		})
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			uses := false
			callee := c.Call.StaticCallee()
			if callee == nil && !c.Call.IsInvoke() {
				uses = loadsField(c.Call.Value, "ValueF") && lookup(c.Call.Value)
			} else if callee != nil && callsField(callee, "ValueF", 0) {
				for _, a := range c.Call.Args {
					if isEntry(a.Type()) && lookup(a) {
						uses = true
					}
				}
			}
			if !uses {
				return
			}
			n++
			for _, a := range c.Call.Args {
				if !isParam(a.Type()) {
					continue
				}
				ok := false
				for _, k := range checks[a] {
					ok = ok || refusedBefore(k, c.Block())
				}
				r.Check(ok, "checked-parameter", lib.Name(f)+" value "+itoa(n), in.Pos(), nil, "%s takes the value of a parameter its dialect entry has not accepted", lib.Name(f))
			}
		})
	}
	if n == 0 {
		r.Bad("anchor", "parameter values", token.NoPos, nil, "no use of the value function of a dialect entry is found in %s", pkg)
	}
}

func loadsField(v ssa.Value, name string) bool {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Field:
			return fieldName(x) == name
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name() == name
			}
		}
		return false
	}
}

// callsField: the function, its closures or what it calls in the package calls
// the function held by a field of that name.
func callsField(f *ssa.Function, name string, d int) bool {
	if d > 3 || len(f.Blocks) == 0 {
		return false
	}
	ok := false
	eachInstr(f, func(in ssa.Instruction) {
		if c, is := in.(ssa.CallInstruction); is {
			if g := c.Common().StaticCallee(); g != nil {
				if lib.PkgOf(g) == lib.PkgOf(f) && g != f {
					ok = ok || callsField(g, name, d+1)
				}
				for _, a := range c.Common().Args { // handed over
					ok = ok || loadsField(a, name)
				}
			} else if !c.Common().IsInvoke() && loadsField(c.Common().Value, name) {
				ok = true
			}
		}
	})
	for _, a := range f.AnonFuncs {
		ok = ok || callsField(a, name, d+1)
	}
	return ok
}

// constantIDs: what marks a constant cannot be written as an identifier.
func constantIDs(p *lib.Prog, r *lib.Report) {
	tp := p.TypesPkg("pkg/ql")
	f := p.Func("(pkg/ql.Param).ID")
	if tp == nil || f == nil {
		r.Bad("anchor", "(pkg/ql.Param).ID", token.NoPos, nil, "the function that tells the constants from the identifiers is not there")
		return
	}
	n := 0
	eachInstr(f, func(in ssa.Instruction) {
		ret, ok := in.(*ssa.Return)
		if !ok {
			return
		}
		var vals []ssa.Value
		var add func(v ssa.Value)
		add = func(v ssa.Value) {
			if ph, ok := v.(*ssa.Phi); ok {
				for _, e := range ph.Edges {
					add(e)
				}
				return
			}
			vals = append(vals, v)
		}
		add(ret.Results[0])
		for _, v := range vals {
			c, ok := v.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.String {
				continue
			}
			n++
			s := constant.StringVal(c.Value)
			odd := strings.IndexFunc(s, func(c rune) bool {
				return !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z')
			}) >= 0
			r.Check(odd, "constant-id", s, in.Pos(), nil, "the identifier %q is taken for a constant", s)
		}
	})
	r.Floor("constant-id", 2)
}

// divisions: nothing is divided by a number that may be zero.
func divisions(p *lib.Prog, r *lib.Report, skip func(f *ssa.Function) bool, pkgs ...string) {
	stuck := stuckFields(p)
	for _, f := range p.InPkg(pkgs...) {
		if skip(f) {
			continue
		}
		n := 0
		eachInstr(f, func(in ssa.Instruction) {
			b, ok := in.(*ssa.BinOp)
			if !ok || b.Op != token.QUO && b.Op != token.REM || !lib.IsInt(b.Type()) {
				return
			}
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) != 0 {
				return
			}
			n++
			bs := lib.NewBounds(f, stuck, func(v ssa.Value) (int64, bool) { return 0, false }, nil)
			l := bs.Lin(b.Y)
			l.C--
			r.Check(bs.Holds(l, in.Block()), "division", lib.Name(f)+": division "+itoa(n), in.Pos(), nil, "%s divides by a number that may be zero", lib.Name(f))
		})
	}
}
