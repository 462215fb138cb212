package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// optField: a field of the parsed condition, or of a REST request, that is nil
// when the user did not write the part.
func optField(t types.Type, i int) (string, bool) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "", false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return "", false
	}
	if _, ok := s.Field(i).Type().Underlying().(*types.Pointer); !ok {
		return "", false
	}
	pkg := n.Obj().Pkg().Path()
	if strings.HasSuffix(pkg, "/pkg/ql") {
		if s.Tag(i) == "" {
			return "", false
		}
	} else if !strings.HasSuffix(pkg, "api/genpublic/v1") {
		return "", false
	}
	return n.Obj().Name() + "." + s.Field(i).Name(), true
}

// optLoad: the value is what an optional field holds.
func optLoad(v ssa.Value) (name string, base ssa.Value, isAddr bool, ok bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, is := x.X.(*ssa.FieldAddr); is && x.Op == token.MUL {
			n, ok := optField(fa.X.Type(), fa.Field)
			return n, fa.X, true, ok
		}
	case *ssa.Field:
		n, ok := optField(x.X.Type(), x.Field)
		return n, x.X, false, ok
	}
	return "", nil, false, false
}

// oneOf: the grammar sets exactly one of the two fields.
var oneOf = map[string]string{"Const.Number": "String", "Const.String": "Number", "XCondition.Cond": "Expr", "XCondition.Expr": "Cond"}

// dialectFn is a function of a dialect's entry.
type dialectFn struct {
	dialect, key, field string
	fn                  *ssa.Function
	typ                 int64 // the entry's declared type
	flags               int64
	check               *ssa.Function
}

// dialects reads the entries of the dialects from the package's initializer.
func dialects(p *lib.Prog, pkg string) (res []*dialectFn) {
	for _, u := range dialectEntries(p, pkg) {
		for f, fn := range u.fns {
			res = append(res, &dialectFn{dialect: u.dialect, key: u.key, field: f, fn: fn, typ: u.nums["Type"], flags: u.nums["Flags"], check: u.fns["CheckF"]})
		}
	}
	return
}

type dialectEntry struct {
	dialect, key string
	fns          map[string]*ssa.Function
	nums         map[string]int64
}

func dialectEntries(p *lib.Prog, pkg string) (res []*dialectEntry) {
	sp := p.SSAPkg(pkg)
	if sp == nil || sp.Func("init") == nil {
		return nil
	}
	type entry struct {
		fns  map[string]*ssa.Function
		nums map[string]int64
	}
	entries := map[ssa.Value]*entry{}
	names := map[ssa.Value]string{}
	type upd struct {
		m, v ssa.Value
		key  string
	}
	var upds []upd
	for _, b := range sp.Func("init").Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if g, ok := x.Addr.(*ssa.Global); ok {
					names[x.Val] = g.Name()
				}
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || !strings.HasPrefix(lib.TypeKey(fa.X.Type().Underlying().(*types.Pointer).Elem()), pkg+".ParamDialect") {
					continue
				}
				e := entries[fa.X]
				if e == nil {
					e = &entry{map[string]*ssa.Function{}, map[string]int64{}}
					entries[fa.X] = e
				}
				n := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
				v := x.Val
				for {
					if ct, ok := v.(*ssa.ChangeType); ok {
						v = ct.X
						continue
					}
					break
				}
				switch y := v.(type) {
				case *ssa.Function:
					e.fns[n] = y
				case *ssa.MakeClosure:
					e.fns[n] = y.Fn.(*ssa.Function)
				case *ssa.Const:
					if y.Value != nil && y.Value.Kind() == constant.Int {
						e.nums[n] = y.Int64()
					}
				}
			case *ssa.MapUpdate:
				k, ok := x.Key.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				u, ok := x.Value.(*ssa.UnOp)
				if !ok {
					continue
				}
				upds = append(upds, upd{x.Map, u.X, constant.StringVal(k.Value)})
			}
		}
	}
	for _, u := range upds {
		d := &dialectEntry{dialect: names[u.m], key: u.key, fns: map[string]*ssa.Function{}, nums: map[string]int64{}}
		if e := entries[u.v]; e != nil {
			d.fns, d.nums = e.fns, e.nums
		}
		res = append(res, d)
	}
	return
}

func paramIndex(f *ssa.Function, name string) int {
	for i, prm := range f.Params {
		t := prm.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Name() == name {
			return i
		}
	}
	return -1
}

// optionalParts: the optional parts of a condition and of a REST request are
// only used where they are known to be there.
func optionalParts(p *lib.Prog, r *lib.Report, ds []*dialectFn, pkgs ...string) {
	byFn := map[*ssa.Function]*dialectFn{}
	for _, d := range ds {
		byFn[d.fn] = d
	}
	has := map[*ssa.Function]bool{}
	site := func(in ssa.Instruction) (v ssa.Value) {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op == token.MUL {
				v = x.X
			}
		}
		return
	}
	sites := func(in ssa.Instruction) (vs []ssa.Value) {
		if v := site(in); v != nil {
			if _, _, _, ok := optLoad(v); ok {
				vs = append(vs, v)
			}
			return
		}
		if c, ok := in.(ssa.CallInstruction); ok {
			callee := c.Common().StaticCallee()
			if callee == nil || len(callee.Blocks) == 0 || !strings.HasPrefix(lib.PkgOf(callee), "pkg/ql") && lib.PkgOf(callee) != "" {
				return
			}
			for _, a := range c.Common().Args {
				if _, _, _, ok := optLoad(a); ok {
					vs = append(vs, a)
				}
			}
		}
		return
	}
	var roots []*ssa.Function
	for _, f := range p.InPkg(pkgs...) {
		eachInstr(f, func(in ssa.Instruction) {
			if len(sites(in)) > 0 {
				has[f] = true
			}
		})
		if has[f] {
			roots = append(roots, f)
			r.AddFunc(f)
		}
	}
	idOf := func(f *ssa.Function) bool {
		pk, n := lib.RecvType(f)
		return strings.HasSuffix(pk, "pkg/ql") && (n == "Param") && f.Name() == "ID"
	}
	// present assumes that a part is there.
	part := func(st *eng.State, base *eng.Val, isPtr bool, t types.Type, name string) *eng.Val {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				if isPtr {
					base = st.Load(base, t)
				}
				return st.FieldOf(base, name, s.Field(i).Type())
			}
		}
		return nil
	}
	elem := func(t types.Type) (types.Type, bool) {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			return pt.Elem(), true
		}
		return t, false
	}
	keyed := func(e *eng.Engine, f *ssa.Function, st *eng.State, d *dialectFn, prm *eng.Val) {
		i := paramIndex(f, "Param")
		if i < 0 {
			return
		}
		t, ptr := elem(f.Params[i].Type())
		c := part(st, prm, ptr, t, "Const")
		ct, _ := elem(c.Typ)
		if d.key == stringID(p) {
			st.Assume(e.Eq(c, e.In.Nil()), false)
			s := part(st, c, true, ct, "String")
			st.Assume(e.Eq(s, e.In.Nil()), false)
		} else {
			st.Assume(e.Eq(c, e.In.Nil()), true)
		}
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true,
		NoInline: func(root, g *ssa.Function) bool { return !idOf(g) },
		KeepFact: func(f *eng.Val) bool {
			for f.K == eng.KUn && f.Op == token.NOT {
				f = f.Args[0]
			}
			return f.K == eng.KBin && (f.Op == token.EQL || f.Op == token.LSS)
		},
	}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		return eng.Hooks{Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
			if in.Parent() != root {
				return
			}
			for _, v := range sites(in) {
				name, base, isAddr, _ := optLoad(v)
				val := e.Env(st, fr, v)
				ok := st.IsNonNil(val)
				if !ok && oneOf[name] != "" {
					t, _ := elem(base.Type())
					if sib := part(st, e.Env(st, fr, base), isAddr, t, oneOf[name]); sib != nil && st.IsNil(sib) {
						ok = true
					}
				}
				r.Check(ok, "optional-part", lib.Name(root)+": "+name, in.Pos(), st, "%s uses %s, which may be missing in the request", lib.Name(root), name)
			}
		}}
	}
	j.Init = func(e *eng.Engine, root *ssa.Function, st *eng.State) {
		d := byFn[root]
		if d == nil {
			return
		}
		i := paramIndex(root, "Param")
		if i < 0 {
			return
		}
		keyed(e, root, st, d, e.In.Param(root, i))
		assumeChecked(p, e, root, st, d)
	}
	j.Do(nil)
}

// checkedParts tells which optional parts of its parameter are there when a
// check accepts it.
type checked struct {
	parts []string
	lens  map[string]int64 // "Part.List" -> the least length of the list
}

func checkedParts(p *lib.Prog, f *ssa.Function) (res checked) {
	i := paramIndex(f, "Param")
	if i < 0 {
		return
	}
	e := eng.New(p.SSA)
	e.NoInline = func(g *ssa.Function) bool { return true }
	t := f.Params[i].Type()
	ptr := false
	if pt, ok := t.(*types.Pointer); ok {
		t, ptr = pt.Elem(), true
	}
	s := t.Underlying().(*types.Struct)
	ok := map[string]bool{}
	for k := 0; k < s.NumFields(); k++ {
		if _, is := s.Field(k).Type().(*types.Pointer); is {
			ok[s.Field(k).Name()] = true
		}
	}
	n := 0
	lens := map[string]int64{}
	e.Hooks = eng.Hooks{Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
		ret, is := in.(*ssa.Return)
		if !is || fr.Fn != f {
			return
		}
		v := e.Env(st, fr, ret.Results[len(ret.Results)-1])
		if st.IsNonNil(v) {
			return
		}
		n++
		b := e.In.Param(f, i)
		if ptr {
			b = st.Load(b, t)
		}
		cur := map[string]int64{}
		eachList(st, b, s, func(k string, l *eng.Val) {
			if lo, _ := st.Bounds(l); lo != nil && *lo > 0 {
				cur[k] = *lo
			}
		})
		if n == 1 {
			lens = cur
		}
		for k := range lens {
			if cur[k] < lens[k] {
				lens[k] = cur[k]
			}
		}
		for k := range ok {
			for q := 0; q < s.NumFields(); q++ {
				if s.Field(q).Name() == k && !st.IsNonNil(st.FieldOf(b, k, s.Field(q).Type())) {
					delete(ok, k)
				}
			}
		}
	}}
	e.Run(f, nil)
	if n > 0 {
		for k := range ok {
			res.parts = append(res.parts, k)
		}
		res.lens = lens
	}
	return
}

// eachList visits the lengths of the lists in the optional parts of a struct.
func eachList(st *eng.State, b *eng.Val, s *types.Struct, f func(k string, l *eng.Val)) {
	for q := 0; q < s.NumFields(); q++ {
		pt, is := s.Field(q).Type().(*types.Pointer)
		if !is {
			continue
		}
		in, is := pt.Elem().Underlying().(*types.Struct)
		if !is {
			continue
		}
		v := st.FieldOf(b, s.Field(q).Name(), pt)
		for w := 0; w < in.NumFields(); w++ {
			if sl, is := in.Field(w).Type().(*types.Slice); is {
				f(s.Field(q).Name()+"."+in.Field(w).Name(), st.Len(st.FieldOf(st.Load(v, pt.Elem()), in.Field(w).Name(), sl)))
			}
		}
	}
}

// assumeChecked adds what the check of the entry guarantees for the parameter
// of its other functions.
func assumeChecked(p *lib.Prog, e *eng.Engine, root *ssa.Function, st *eng.State, d *dialectFn) {
	i := paramIndex(root, "Param")
	if d == nil || i < 0 || d.check == nil || d.field == "CheckF" || d.field == "TranslateF" {
		return
	}
	t := root.Params[i].Type()
	b := e.In.Param(root, i)
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
		b = st.Load(b, t)
	}
	s := t.Underlying().(*types.Struct)
	c := checkedParts(p, d.check)
	for q := 0; q < s.NumFields(); q++ {
		for _, n := range c.parts {
			if s.Field(q).Name() == n {
				st.Assume(e.Eq(st.FieldOf(b, n, s.Field(q).Type()), e.In.Nil()), false)
			}
		}
	}
	eachList(st, b, s, func(k string, l *eng.Val) {
		if n := c.lens[k]; n > 0 {
			st.Assume(e.Less(l, e.In.Int(n)), false)
		}
	})
}

func stringID(p *lib.Prog) string { return qlConst(p, "StringParamID") }

func qlConst(p *lib.Prog, name string) string {
	tp := p.TypesPkg("pkg/ql")
	if tp == nil {
		return ""
	}
	c, ok := tp.Scope().Lookup(name).(*types.Const)
	if !ok || c.Val().Kind() != constant.String {
		return ""
	}
	return constant.StringVal(c.Val())
}
