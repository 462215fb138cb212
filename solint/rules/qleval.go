package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// A predicate is what a function func(T) bool computes, out of the functions
// it has captured: its paths with their conditions and results.
type predicate struct {
	fn    *ssa.Function
	paths []predPath
	atoms map[*eng.Val]predAtom
	free  map[*eng.Val]int // the contents of the captured variables
	bad   string
}

type predAtom struct {
	free int
	kind byte // b: a boolean result, v: a value, e: its error
}

type predPath struct {
	conds []predCond
	ret   *eng.Val
	all   map[int]bool // captured lists that were looked through
}

type predCond struct {
	v *eng.Val
	b bool
}

// env assigns results to the atoms.
type predEnv struct {
	b, e map[int]bool
	x, y int
	ord  int // x compared to y
}

func isPredicate(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 1 && s.Results().Len() == 1 && isBoolT(s.Results().At(0).Type())
}

// isValueFn tells that the function gives a value of a parameter and an error.
func isValueFn(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 2 && s.Results().Len() == 2 && lib.TypeKey(ptrElem(s.Params().At(0).Type())) == qlp+".Param" && s.Results().At(1).Type().String() == "error"
}

// predicateOf runs through the function once.
func predicateOf(p *lib.Prog, r *lib.Report, fn, like *ssa.Function) *predicate {
	res := &predicate{fn: fn, atoms: map[*eng.Val]predAtom{}, free: map[*eng.Val]int{}}
	v := visits{}
	j := &lib.Job{P: p, R: r, Roots: []*ssa.Function{fn}, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool {
		return lib.PkgOf(g) != qlp || g == like || strings.HasPrefix(lib.Name(g), "("+qlp+".Param)") || strings.HasPrefix(lib.Name(g), "("+qlp+".Const)")
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		own := e.In.Param(root, len(root.Params)-1)
		return eng.Hooks{
			Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
				v.branch(st, cond, taken)
				key := "cond:" + itoa(100+len(st.KeysPrefix("cond:")))
				if cond.K == eng.KBin && cond.Op == token.EQL {
					for _, x := range cond.Args {
						if _, _, ok := elementOf(x); ok {
							v.use(st, x)
							key = "cond:last" // of the elements
						}
					}
				}
				if cond.K == eng.KBin && cond.Op == token.LSS && (cond.Args[0].K == eng.KLen || cond.Args[1].K == eng.KLen) {
					return // the loop's own
				}
				if len(st.KeysPrefix("cond:")) > 12 {
					return
				}
				s := ""
				if taken {
					s = "true"
				}
				st.Set(key, s, cond)
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind == eng.CKDefer {
					return nil
				}
				rs := c.Common.Signature().Results()
				if strings.HasPrefix(c.Name(), "builtin.") {
					return nil
				}
				if c.Fn == nil && c.FnVal != nil {
					f := c.FnVal
					i := -1
					if f.K == eng.KLoad && f.Args[0].K == eng.KFree {
						for k := range fn.FreeVars {
							if e.In.Free(fn, k) == f.Args[0] {
								i = k
							}
						}
					}
					if i < 0 || len(c.Args) == 0 || c.Args[len(c.Args)-1] != own {
						res.bad = "calls something else, or for another value"
						return nil
					}
					var rets []*eng.Val
					for k := 0; k < rs.Len(); k++ {
						a := predAtom{free: i, kind: 'b'}
						if rs.Len() == 2 {
							a.kind = "ve"[k]
						}
						x := e.In.NamedSym("result "+itoa(i)+"."+itoa(k), rs.At(k).Type())
						res.atoms[x] = a
						rets = append(rets, x)
					}
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: rets}}}
				}
				if rs.Len() == 1 && !strings.HasPrefix(c.Name(), "builtin.") && (c.Fn == like || c.Fn == nil || lib.PkgOf(c.Fn) != qlp) {
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Node(eng.KCall, 0, c.Name(), rs.At(0).Type(), c.Args...)}}}}
				}
				return nil
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				if len(res.paths) > 64 {
					res.bad = "has too many paths"
					return
				}
				pp := predPath{ret: rets[0], all: map[int]bool{}}
				for _, k := range st.KeysPrefix("cond:") {
					t := st.TS[k]
					pp.conds = append(pp.conds, predCond{t.V[0], t.S != ""})
				}
				for k := range fn.FreeVars {
					x := st.Load(e.In.Free(fn, k), ptrElem(fn.FreeVars[k].Type()))
					res.free[x] = k
					if _, ok := fn.FreeVars[k].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice); ok {
						pp.all[k] = v.done(st, x)
					}
				}
				res.paths = append(res.paths, pp)
			},
		}
	}
	j.Do(nil)
	return res
}

// value finds the atom of a value, whatever type it is asserted to have.
func (p *predicate) value(v *eng.Val) (predAtom, bool) {
	for v.K == eng.KTA || v.K == eng.KConv || v.K == eng.KMI || v.K == eng.KExtract && v.Name == "0" {
		v = v.Args[0]
	}
	a, ok := p.atoms[v]
	return a, ok
}

// eval evaluates a boolean value; known is false if the environment does not
// decide it.
func (p *predicate) eval(v *eng.Val, env predEnv) (res, known bool) {
	switch v.K {
	case eng.KConst:
		if v.Const.Kind() == constant.Bool {
			return constant.BoolVal(v.Const), true
		}
	case eng.KUn:
		b, ok := p.eval(v.Args[0], env)
		return !b, ok && v.Op == token.NOT
	case eng.KBin:
		n, ok := p.order(v.Args[0], v.Args[1], env)
		if !ok {
			return false, false
		}
		return holds(n, v.Op)
	case eng.KCall:
		if len(v.Args) != 2 {
			return false, false
		}
		n, ok := p.order(v.Args[0], v.Args[1], env)
		switch {
		case strings.HasSuffix(v.Name, ".Before"):
			return n < 0, ok
		case strings.HasSuffix(v.Name, ".After"):
			return n > 0, ok
		case strings.HasSuffix(v.Name, ".Equal"):
			return n == 0, ok
		}
		return false, false
	}
	if a, ok := p.value(v); ok {
		b, known := env.b[a.free]
		return b, known
	}
	return false, false
}

func holds(n int, op token.Token) (res, known bool) {
	switch op {
	case token.EQL:
		return n == 0, true
	case token.NEQ:
		return n != 0, true
	case token.LSS:
		return n < 0, true
	case token.LEQ:
		return n <= 0, true
	case token.GTR:
		return n > 0, true
	case token.GEQ:
		return n >= 0, true
	}
	return false, false
}

// order compares two values, an error with nil, or the result of a comparison with 0.
func (p *predicate) order(a, b *eng.Val, env predEnv) (int, bool) {
	for k := 0; k < 2; k++ {
		x, y, sign := a, b, 1
		if k == 1 {
			x, y, sign = b, a, -1
		}
		if at, ok := p.value(x); ok && at.kind == 'e' && y.K == eng.KNil {
			failed, known := env.e[at.free]
			if failed {
				return 1, known
			}
			return 0, known
		}
		if n, ok := eng.ConstInt(y); ok && n == 0 && x.K == eng.KCall && len(x.Args) == 2 && (strings.HasSuffix(x.Name, ".Compare") || strings.HasSuffix(x.Name, "cmp.Compare")) {
			c, known := p.order(x.Args[0], x.Args[1], env)
			return sign * c, known
		}
	}
	x, ok1 := p.value(a)
	y, ok2 := p.value(b)
	if !ok1 || !ok2 || x.kind != 'v' || y.kind != 'v' {
		return 0, false
	}
	switch {
	case x.free == y.free:
		return 0, true
	case x.free == env.x && y.free == env.y:
		return env.ord, true
	case x.free == env.y && y.free == env.x:
		return -env.ord, true
	}
	return 0, false
}

// result is what the predicate gives in the environment.
func (p *predicate) result(env predEnv) (res, known bool) {
	n := 0
	for _, pp := range p.paths {
		consistent := true
		for _, c := range pp.conds {
			b, ok := p.eval(c.v, env)
			if !ok {
				return false, false
			}
			consistent = consistent && b == c.b
		}
		if !consistent {
			continue
		}
		b, ok := p.eval(pp.ret, env)
		if !ok || n > 0 && b != res {
			return false, false
		}
		res = b
		n++
	}
	return res, n > 0
}

// frees lists the captured functions of a kind that are called.
func (p *predicate) frees(kind byte) (res []int) {
	seen := map[int]bool{}
	for _, a := range p.atoms {
		if a.kind == kind && !seen[a.free] {
			seen[a.free] = true
			for i := 0; i <= len(res); i++ {
				if i == len(res) || res[i] > a.free {
					res = append(res[:i], append([]int{a.free}, res[i:]...)...)
					break
				}
			}
		}
	}
	return
}

// logic tells whether the predicate is the combination of others: and, or,
// not, same, true, false.
func (p *predicate) logic() (op string, of []int) {
	of = p.frees('b')
	if p.bad != "" || len(of) > 6 || len(p.frees('v')) > 0 {
		return "", nil
	}
	can := map[string]bool{"and": len(of) > 1, "or": len(of) > 1, "not": len(of) == 1, "same": len(of) == 1, "true": true, "false": true}
	for m := 0; m < 1<<len(of); m++ {
		env := predEnv{b: map[int]bool{}}
		any, all := false, true
		for i, f := range of {
			x := m>>i&1 == 1
			env.b[f] = x
			any, all = any || x, all && x
		}
		res, known := p.result(env)
		if !known {
			return "", nil
		}
		for k, want := range map[string]bool{"and": all, "or": any, "not": !any, "same": any, "true": true, "false": false} {
			can[k] = can[k] && res == want
		}
	}
	for _, k := range []string{"true", "false", "and", "or", "not", "same"} {
		if can[k] {
			return k, of
		}
	}
	return "", nil
}

// failing tells that the predicate is false when one of its values cannot be
// calculated.
func (p *predicate) failing() bool {
	vs := p.frees('v')
	for m := 1; m < 1<<len(vs); m++ {
		for ord := -1; ord <= 1; ord++ {
			env := predEnv{e: map[int]bool{}, ord: ord, b: map[int]bool{}}
			for i, f := range vs {
				env.e[f] = m>>i&1 == 1
			}
			if len(vs) == 2 {
				env.x, env.y = vs[0], vs[1]
			}
			if res, known := p.result(env); !known || res {
				return false
			}
		}
	}
	return true
}

// comparison tells the operator of a predicate that compares two values.
func (p *predicate) comparison() (op string, x, y int) {
	vs := p.frees('v')
	if p.bad != "" || len(vs) != 2 || len(p.frees('b')) > 0 {
		return "", 0, 0
	}
	var got [3]bool
	for ord := -1; ord <= 1; ord++ {
		env := predEnv{e: map[int]bool{vs[0]: false, vs[1]: false}, x: vs[0], y: vs[1], ord: ord}
		res, known := p.result(env)
		if !known {
			return "", 0, 0
		}
		got[ord+1] = res
	}
	for _, k := range []struct {
		op  string
		tok token.Token
	}{{"<", token.LSS}, {"<=", token.LEQ}, {">", token.GTR}, {">=", token.GEQ}, {"=", token.EQL}, {"!=", token.NEQ}} {
		same := true
		for ord := -1; ord <= 1; ord++ {
			w, _ := holds(ord, k.tok)
			same = same && w == got[ord+1]
		}
		if same {
			return k.op, vs[0], vs[1]
		}
	}
	return "", 0, 0
}

// single is a predicate of one value: what its result is when the value is
// there; all paths must agree.
func (p *predicate) single() (val int, rets []predPath) {
	vs := p.frees('v')
	if p.bad != "" || len(vs) != 1 || len(p.frees('b')) > 0 {
		return -1, nil
	}
	env := predEnv{e: map[int]bool{vs[0]: false}}
	for _, pp := range p.paths {
		ok := true
		for _, c := range pp.conds {
			if b, known := p.eval(c.v, env); known && b != c.b {
				ok = false
			}
		}
		if ok {
			rets = append(rets, pp)
		}
	}
	return vs[0], rets
}

// failedFalse tells that a predicate of one value is false if there is none.
func (p *predicate) failedFalse(val int) bool {
	env := predEnv{e: map[int]bool{val: true}}
	for _, pp := range p.paths {
		ok := true
		for _, c := range pp.conds {
			if b, known := p.eval(c.v, env); known && b != c.b {
				ok = false
			}
		}
		if !ok {
			continue
		}
		if b, known := p.eval(pp.ret, env); !known || b {
			return false
		}
	}
	return true
}

// freeOf finds the captured variable a value is the content of.
func (p *predicate) freeOf(v *eng.Val) int {
	v = lib.Strip(v)
	if k, ok := p.free[v]; ok {
		return k
	}
	return -1
}

// member tells that the predicate is "the value is in the list".
func (p *predicate) member() (val, list int) {
	val, paths := p.single()
	if val < 0 || !p.failedFalse(val) {
		return -1, -1
	}
	list = -1
	set := func(l int) bool {
		if l < 0 || list >= 0 && list != l {
			return false
		}
		list = l
		return true
	}
	isVal := func(v *eng.Val) bool { a, ok := p.value(v); return ok && a.kind == 'v' && a.free == val }
	for _, pp := range paths {
		if r := pp.ret; r.K == eng.KCall && strings.HasSuffix(strings.Split(r.Name, "[")[0], "slices.Contains") && len(r.Args) == 2 {
			if !isVal(r.Args[1]) || !set(p.freeOf(r.Args[0])) {
				return -1, -1
			}
			continue
		}
		b, known := p.eval(pp.ret, predEnv{})
		if !known {
			return -1, -1
		}
		hit := -1
		for _, c := range pp.conds {
			if c.v.K != eng.KBin || c.v.Op != token.EQL || !c.b {
				continue
			}
			for k := 0; k < 2; k++ {
				if l, _, ok := elementOf(c.v.Args[k]); ok && isVal(c.v.Args[1-k]) {
					hit = p.freeOf(l)
				}
			}
		}
		if b && !set(hit) {
			return -1, -1
		}
		if !b {
			if hit >= 0 {
				return -1, -1
			}
			done := -1
			for l, d := range pp.all {
				if d {
					done = l
				}
			}
			if !set(done) {
				return -1, -1
			}
		}
	}
	return val, list
}

// match tells that the predicate is "the value matches the pattern".
func (p *predicate) match(like *ssa.Function) (val, pat int) {
	val, paths := p.single()
	pat = -1
	if val < 0 || !p.failedFalse(val) || like == nil {
		return -1, -1
	}
	for _, pp := range paths {
		r := pp.ret
		if r.K != eng.KCall || r.Name != lib.Name(like) || len(r.Args) != len(like.Params) {
			return -1, -1
		}
		a, ok := p.value(r.Args[0])
		if n, known := eng.ConstInt(r.Args[len(r.Args)-1]); !ok || a.kind != 'v' || len(r.Args) == 3 && (!known || n != '%') {
			return -1, -1
		}
		pat = p.freeOf(r.Args[1])
	}
	return val, pat
}

// same tells that the predicate is the value itself (bool), or that the value
// equals a constant (eq).
func (p *predicate) same() (val int, eq string, kind string) {
	val, paths := p.single()
	if val < 0 || !p.failedFalse(val) {
		return -1, "", ""
	}
	for _, pp := range paths {
		a, ok := p.value(pp.ret)
		if ok && a.kind == 'v' && a.free == val && kind != "eq" {
			kind = "bool"
			continue
		}
		if pp.ret.K == eng.KBin && pp.ret.Op == token.EQL && kind != "bool" {
			for k := 0; k < 2; k++ {
				a, ok := p.value(pp.ret.Args[k])
				s, isConst := eng.ConstString(pp.ret.Args[1-k])
				if ok && a.kind == 'v' && isConst && (kind == "" || eq == s) {
					kind, eq = "eq", s
				}
			}
			if kind == "eq" {
				continue
			}
		}
		return -1, "", ""
	}
	return val, eq, kind
}
