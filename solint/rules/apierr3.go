package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/lib"
)

// badCondition: what the condition parser and translator refuse is an invalid
// request: each error made there, or returned from a foreign call, wraps
// ErrInvalid (an error of the package itself is decided where it is made).
func badCondition(p *lib.Prog, r *lib.Report, pkg string) {
	errT := types.Universe.Lookup("error").Type()
	isErr := func(t types.Type) bool { return types.Identical(t, errT) }
	// good tells whether the value is nil, or of a kind decided elsewhere.
	var good func(v ssa.Value, seen map[ssa.Value]bool) bool
	call := func(c *ssa.Call, seen map[ssa.Value]bool) bool {
		if lib.CallName(c) == "fmt.Errorf" {
			args, ok := varArgs(c.Call.Args[1])
			if !ok {
				return false
			}
			k, ok := c.Call.Args[0].(*ssa.Const)
			if !ok || k.Value == nil {
				return false
			}
			vs := verbs(constant.StringVal(k.Value))
			for i, a := range args {
				a = stripIface(a)
				if isErr(a.Type()) && i < len(vs) && vs[i] == 'w' && good(a, seen) {
					return true
				}
			}
			return false
		}
		callee := c.Call.StaticCallee()
		if callee == nil {
			return !c.Call.IsInvoke() // a function of the dialect
		}
		return lib.PkgOf(callee) == pkg
	}
	good = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := stripIface(v).(type) {
		case *ssa.Const:
			return x.Value == nil
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !good(e, seen) {
					return false
				}
			}
			return true
		case *ssa.Call:
			return call(x, seen)
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				return call(c, seen)
			}
			return false
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			if g, ok := x.X.(*ssa.Global); ok {
				return g.Name() == "ErrInvalid"
			}
			if a, ok := x.X.(*ssa.Alloc); ok {
				for _, ref := range *a.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == a && !good(s.Val, seen) {
						return false
					}
				}
				return true
			}
			return false
		case *ssa.Parameter, *ssa.FreeVar:
			return false
		}
		return false
	}
	// anonymous functions called by the storage's evaluation are included: a
	// dialect function gets its values from the request.
	for _, f := range p.InPkg(pkg) {
		if strings.HasSuffix(p.File(f), "_test.go") {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			ret, ok := in.(*ssa.Return)
			if !ok {
				return
			}
			for _, v := range ret.Results {
				if !isErr(v.Type()) {
					continue
				}
				if c, ok := v.(*ssa.Const); ok && c.Value == nil {
					continue
				}
				r.Check(good(v, map[ssa.Value]bool{}), "invalid-kind", lib.Name(f), ret.Pos(), nil, "%s returns an error that is not known to be ErrInvalid", lib.Name(f))
			}
		})
	}
}
