package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// errSpec configures the error propagation analysis.
type errSpec struct {
	rule   string
	pkgs   []string
	roots  func(f *ssa.Function) bool // nil: every entry point of the packages
	skip   func(c *eng.Call) bool     // calls whose error does not matter, by meaning of the callee
	excuse func(st *eng.State, c *eng.Call, root *ssa.Function, err *eng.Val) bool
	onCall func(st *eng.State, c *eng.Call, rets []*eng.Val)
	inline func(root, f *ssa.Function) bool // in-module functions of other packages to look into
}

// harmless: failures of these calls are not failures of the operation.
// afterwards: the call is made by a deferred function that does not look at its result.
func afterwards(c *eng.Call) bool {
	v, ok := c.Instr.(ssa.Value)
	if !ok || v.Referrers() == nil || len(*v.Referrers()) > 0 {
		return false
	}
	for fr := c.Frame; fr != nil; fr = fr.Parent {
		if _, ok := fr.Site.(*ssa.Defer); ok {
			return true
		}
	}
	return false
}

func harmless(n string) bool {
	switch n {
	case "(*github.com/oklog/ulid/v2.ULID).SetTime", "(*github.com/oklog/ulid/v2.ULID).SetEntropy",
		"(*os.File).Close", "(io.Closer).Close", "(io.ReadCloser).Close", "os.Remove", "(*github.com/jmoiron/sqlx.Tx).Rollback", "(*database/sql.Tx).Rollback", "(*github.com/tidwall/buntdb.Tx).Rollback",
		"(*github.com/jmoiron/sqlx.Rows).Close", "(*database/sql.Rows).Close", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune",
		"(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteByte", "fmt.Fprintf", "fmt.Printf", "fmt.Println", "fmt.Fprintln", "fmt.Fprint", "(context.Context).Err",
		"fmt.Errorf", "errors.New", "errors.Join", "errors.Unwrap", "golibs/errors.GRPCWrap", "google.golang.org/grpc/status.Errorf", "google.golang.org/grpc/status.Error", "golibs/errors.FromGRPCError":
		return true
	}
	return strings.HasSuffix(n, ").Errorf") || strings.HasSuffix(n, "Logger).Close")
}

// marshalsAlways: json.Marshal of strings, numbers but floats and maps or
// slices of them does not fail.
func marshalsAlways(c *eng.Call) bool {
	if c.Name() != "encoding/json.Marshal" || len(c.Common.Args) != 1 {
		return false
	}
	mi, ok := c.Common.Args[0].(*ssa.MakeInterface)
	if !ok {
		return false
	}
	var plain func(t types.Type) bool
	plain = func(t types.Type) bool {
		if types.NewMethodSet(t).Lookup(nil, "MarshalJSON") != nil || types.NewMethodSet(t).Lookup(nil, "MarshalText") != nil {
			return false
		}
		switch t := t.Underlying().(type) {
		case *types.Basic:
			return t.Info()&(types.IsString|types.IsInteger|types.IsBoolean) != 0
		case *types.Map:
			return plain(t.Key()) && plain(t.Elem())
		case *types.Slice:
			return plain(t.Elem())
		}
		return false
	}
	return plain(mi.X.Type())
}

// errProp checks that no entry point reports success on a path on which a
// failing call it depends on was not recognised as an expected outcome.
func errProp(p *lib.Prog, r *lib.Report, s errSpec) {
	pk := map[string]bool{}
	for _, k := range s.pkgs {
		pk[k] = true
	}
	isErr := func(c *ssa.CallCommon) bool {
		res := c.Signature().Results()
		return res.Len() > 0 && res.At(res.Len()-1).Type().String() == "error"
	}
	errFn := func(f *ssa.Function) bool {
		res := f.Signature.Results()
		return res.Len() > 0 && res.At(res.Len()-1).Type().String() == "error"
	}
	takesErr := func(f *ssa.Function) bool {
		for _, x := range f.Params {
			if x.Type().String() == "error" {
				return true
			}
		}
		return false
	}
	var roots []*ssa.Function
	for _, f := range p.InPkg(s.pkgs...) {
		if errFn(f) && len(f.Blocks) > 0 && !strings.Contains(f.Synthetic, "wrapper") && !strings.Contains(f.Synthetic, "thunk") && (s.roots == nil || s.roots(f)) {
			roots = append(roots, f)
		}
	}
	rel := p.Reaching(func(f *ssa.Function, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return takesErr(f) && pk[lib.PkgOf(f)] || ok && pk[lib.PkgOf(f)] && isErr(ci.Common()) && !harmless(lib.CallName(in))
	})
	looked := func(root, f *ssa.Function) bool {
		return f == root || pk[lib.PkgOf(f)] && (!errFn(f) || takesErr(f)) || s.inline != nil && s.inline(root, f)
	}
	j := &lib.Job{P: p, R: r, Roots: roots, KeepFact: lib.KeepNil, NoHavoc: true, Relevant: rel, NoInline: func(root, f *ssa.Function) bool { return !looked(root, f) }}
	j.Init = func(e *eng.Engine, root *ssa.Function, st *eng.State) {
		for i, x := range root.Params {
			if x.Type().String() == "error" {
				st.Set("err:param:"+itoa(i), "its argument\x00error argument "+x.Name(), e.In.Param(root, i))
				r.Ok(s.rule, lib.Name(root)+": error argument "+x.Name(), root.Pos())
			}
		}
	}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		settled := func(st *eng.State, err *eng.Val) bool {
			return st.IsNil(err) || errIsKnown(st, err) || st.Has("is:"+itoa(err.ID))
		}
		key := func(c *eng.Call) string {
			return "err:" + itoa(c.Frame.Ctx) + ":" + itoa(int(c.Pos()))
		}
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if t, ok := st.TS[key(c)]; ok && c.Kind == eng.CKCall {
					if !settled(st, t.V[0]) && !(s.excuse != nil && s.excuse(st, c, root, t.V[0])) {
						r.Bad(s.rule, name+": "+lib.Site(c), c.Pos(), st, "the error of %s in the previous iteration is dropped", c.Name())
					}
					st.Del(key(c))
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if n := c.Name(); strings.HasSuffix(n, ".Rows).Next") && len(c.Args) > 0 && len(rets) == 1 {
					st.Set("rows:"+itoa(c.Args[0].ID), lib.Site(c), rets[0])
					r.Ok("rows-error-checked", name+": "+lib.Site(c), c.Pos())
				}
				if s.onCall != nil {
					s.onCall(st, c, rets)
				}
				if c.Kind == eng.CKGo || c.InDefer || !isErr(c.Common) || len(rets) == 0 {
					return
				}
				if afterwards(c) {
					return // the same as deferring the call itself
				}
				n := c.Name()
				if c.Fn != nil && looked(root, c.Fn) && (rel[c.Fn] || takesErr(c.Fn)) && len(c.Fn.Blocks) > 0 {
					return // looked into
				}
				if strings.HasSuffix(n, ".Rows).Err") && len(c.Args) > 0 {
					st.Del("rows:" + itoa(c.Args[0].ID))
				}
				if harmless(n) || marshalsAlways(c) || s.skip != nil && s.skip(c) {
					return
				}
				if strings.HasPrefix(n, "dyn:") && c.Fn != nil {
					return
				}
				ev := rets[len(rets)-1]
				if ev.K == eng.KNil || ev.K == eng.KTuple {
					return
				}
				st.Set(key(c), c.Name()+"\x00"+lib.Site(c), ev)
				r.Ok(s.rule, name+": "+lib.Site(c), c.Pos())
			},
			Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
				defer func() {
					for _, k := range st.KeysPrefix("err:") {
						if settled(st, st.TS[k].V[0]) {
							st.Del(k)
						}
					}
					for _, k := range st.KeysPrefix("is:") {
						st.Del(k)
					}
				}()
				for cond.K == eng.KUn && cond.Op == token.NOT {
					cond, taken = cond.Args[0], !taken
				}
				if cond.K == eng.KCall && taken && cond.Name == "errors.Is" {
					st.Set("is:"+itoa(cond.Args[0].ID), "", cond.Args[0])
				}
				if cond.K == eng.KBin && cond.Op == token.EQL && taken {
					for i, a := range cond.Args {
						if b := cond.Args[1-i]; b.K == eng.KLoad && b.Args[0].K == eng.KGlobal {
							st.Set("is:"+itoa(a.ID), "", a)
						}
					}
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				er := rets[len(rets)-1]
				if st.IsNonNil(er) {
					return
				}
				for _, k := range st.KeysPrefix("rows:") {
					if t := st.TS[k]; t.S[0] == 0 {
						r.Bad("rows-error-checked", name+": "+t.S[1:], root.Pos(), st, "%s reports success after the rows ended without asking whether they ended because of an error", name)
					}
				}
				for _, k := range st.KeysPrefix("err:") {
					t := st.TS[k]
					ev := t.V[0]
					if er.Contains(ev) || settled(st, ev) {
						continue
					}
					parts := strings.SplitN(t.S, "\x00", 2)
					if s.excuse != nil && s.excuse(st, nil, root, ev) {
						continue
					}
					r.Bad(s.rule, name+": "+parts[1], root.Pos(), st, "%s may report success although %s failed", name, parts[0])
				}
			},
		}
	}
	j.Do(nil)
}
