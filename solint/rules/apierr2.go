package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

const apiPkg, restPkg = "pkg/api", "pkg/api/rest"

func errFn(f *ssa.Function) bool {
	res := f.Signature.Results()
	return res.Len() > 0 && res.At(res.Len()-1).Type().String() == "error"
}

// implementers: the methods of the module's types that implement the
// interface, embedded (generated) defaults left out.
func implementers(p *lib.Prog, pkgs []string, iface *types.Interface) []*ssa.Function {
	var res []*ssa.Function
	names := map[string]*types.Func{}
	for i := 0; i < iface.NumMethods(); i++ {
		names[iface.Method(i).Name()] = iface.Method(i)
	}
	for _, f := range p.InPkg(pkgs...) {
		if f.Signature.Recv() == nil || f.Synthetic != "" || names[f.Name()] == nil || len(f.Blocks) == 0 {
			continue
		}
		rt := f.Signature.Recv().Type()
		if types.Implements(rt, iface) || types.Implements(types.NewPointer(rt), iface) {
			res = append(res, f)
		}
	}
	return res
}

func ifaceOf(p *lib.Prog, pkg, name string) *types.Interface {
	n := p.Named(pkg, name)
	if n == nil {
		return nil
	}
	i, _ := n.Underlying().(*types.Interface)
	return i
}

// grpcErrors: every error leaving the gRPC service has the code of its kind.
func grpcErrors(p *lib.Prog, r *lib.Report) {
	si := ifaceOf(p, "api/gen/solaris/v1", "ServiceServer")
	if si == nil {
		r.Bad("anchor", "ServiceServer", token.NoPos, nil, "the service interface is not there")
		return
	}
	roots := implementers(p, []string{apiPkg}, si)
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, KeepFact: lib.KeepNil, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != apiPkg || !errFn(g) }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		return eng.Hooks{
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if er := lib.ErrRet(c, rets); er != nil && er.K == eng.KSym && !harmless(c.Name()) {
					st.Set("e:"+itoa(er.ID), lib.Site(c), er)
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				er := rets[len(rets)-1]
				if st.IsNil(er) {
					return
				}
				ok := er.K == eng.KCall && er.Name == "grpcwrap"
				if er.K == eng.KCall && er.Name == "status" {
					// a status made here: not in place of an error whose kind is known by somebody else
					ok = true
					for _, k := range st.KeysPrefix("e:") {
						if v := st.TS[k].V[0]; st.IsNonNil(v) && !errIsKnown(st, v) {
							ok = false
						}
					}
				}
				r.Check(ok, "status-error", name, root.Pos(), st, "%s returns the error %s, which is not the gRPC status of its kind", name, er)
			},
		}
	}
	j.Do(nil)
	r.Floor("status-error", si.NumMethods()-1)
	for i := 0; i < si.NumMethods(); i++ {
		m := si.Method(i)
		if !m.Exported() {
			continue
		}
		found := false
		for _, f := range roots {
			found = found || f.Name() == m.Name()
		}
		r.Check(found, "served", "ServiceServer."+m.Name(), token.NoPos, nil, "no type of pkg/api implements %s, the generated default refuses it", m.Name())
	}
}

// keepKind: an error made from another one wraps it, or another kind.
func keepKind(p *lib.Prog, r *lib.Report, pkgs ...string) {
	errT := types.Universe.Lookup("error").Type()
	isErr := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			case *ssa.Call:
				if x.Call.IsInvoke() && x.Call.Method.Name() == "Error" && types.Identical(x.Call.Value.Type(), errT) {
					return true
				}
			}
			return types.Implements(v.Type(), errT.Underlying().(*types.Interface))
		}
	}
	wraps := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			}
			return types.Implements(v.Type(), errT.Underlying().(*types.Interface))
		}
	}
	onlyPanics := func(v ssa.Value) bool {
		q := []ssa.Value{v}
		n := 0
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			for _, ref := range *x.Referrers() {
				switch y := ref.(type) {
				case *ssa.MakeInterface:
					q = append(q, y)
				case *ssa.ChangeInterface:
					q = append(q, y)
				case *ssa.Panic:
					n++
				case *ssa.DebugRef:
				default:
					return false
				}
			}
		}
		return n > 0
	}
	for _, f := range p.InPkg(pkgs...) {
		if strings.HasSuffix(p.File(f), "testcntnr.go") || strings.HasSuffix(p.File(f), "testsuite.go") {
			continue
		}
		n := 0
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			switch lib.CallName(c) {
			case "fmt.Errorf":
				args, ok := varArgs(c.Call.Args[1])
				if !ok {
					return
				}
				var errArgs []int
				for i, a := range args {
					if a != nil && isErr(a) {
						errArgs = append(errArgs, i)
					}
				}
				if len(errArgs) == 0 {
					return
				}
				if onlyPanics(c) {
					return
				}
				n++
				fm := ""
				if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value != nil {
					fm = k.Value.ExactString()
				} else {
					return
				}
				good := false
				for i, verb := range verbs(fm) {
					if verb == 'w' && i < len(args) && args[i] != nil && wraps(args[i]) {
						good = true
					}
				}
				r.Check(good, "kind-kept", lib.Name(f)+": fmt.Errorf "+itoa(n), c.Pos(), nil, "%s makes an error of another one without wrapping it or a kind of error, the kind is lost", lib.Name(f))
				r.AddFunc(f)
			case "errors.New":
				if containsErrText(c.Call.Args[0], 0) && !onlyPanics(c) {
					r.Bad("kind-kept", lib.Name(f)+": errors.New", c.Pos(), nil, "%s makes an error of the text of another one, the kind is lost", lib.Name(f))
				}
			}
		})
	}
}

func containsErrText(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return containsErrText(x.X, d+1) || containsErrText(x.Y, d+1)
	case *ssa.Call:
		if x.Call.IsInvoke() && x.Call.Method.Name() == "Error" {
			return true
		}
		if lib.CallName(x) == "fmt.Sprintf" {
			if as, ok := varArgs(x.Call.Args[1]); ok {
				for _, a := range as {
					if a == nil {
						continue
					}
					if types.Implements(stripIface(a).Type(), types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) || containsErrText(stripIface(a), d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func stripIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		return v
	}
}

// varArgs lists the values a call passes as its variadic arguments.
func varArgs(v ssa.Value) ([]ssa.Value, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	res := make([]ssa.Value, at.Len())
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, rr := range *ia.Referrers() {
			if s, ok := rr.(*ssa.Store); ok && s.Addr == ia {
				res[int(k.Int64())] = s.Val
			}
		}
	}
	return res, true
}

func verbs(f string) []byte {
	var res []byte
	for i := 0; i+1 < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j < len(f) && f[j] != '%' {
			res = append(res, f[j])
		}
		i = j
	}
	return res
}

// backendKinds: the errors of the databases and object stores are translated
// before they leave the backend.
func backendKinds(p *lib.Prog, r *lib.Report) {
	type be struct {
		pkg     string
		call    func(n string) bool
		missing string // the backend's own not-found error
		mapper  string // or the function that translates
	}
	for _, b := range []be{
		{"pkg/storage/buntdb", func(n string) bool {
			return n == "(*github.com/tidwall/buntdb.Tx).Get" || n == "(*github.com/tidwall/buntdb.Tx).Delete"
		}, "github.com/tidwall/buntdb.ErrNotFound", ""},
		{"pkg/storage/postgres", func(n string) bool {
			for _, x := range []string{".ExecContext", ".GetContext", ".QueryxContext", ".SelectContext", ".QueryContext", ".Exec", ".Queryx", ".Get", ".Select"} {
				if strings.HasSuffix(n, x) && (strings.Contains(n, "sqlx.") || strings.Contains(n, "sql.") || strings.Contains(n, "postgres.Db")) {
					return true
				}
			}
			return false
		}, "", "pkg/storage/postgres.MapError"},
		{"golibs/sss/s3", func(n string) bool { return strings.Contains(n, "ObjectWithContext") }, "", "golibs/sss/s3.toError"},
	} {
		var roots []*ssa.Function
		for _, f := range p.Roots(b.pkg) {
			if f.Signature.Recv() != nil && f.Signature.Results().Len() > 0 && f.Signature.Results().At(f.Signature.Results().Len()-1).Type().String() == "error" && !strings.HasSuffix(p.File(f), "testcntnr.go") {
				if _, n := lib.RecvType(f); n == "Storage" {
					roots = append(roots, f)
				}
			}
		}
		mapper := p.Func(b.mapper)
		j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, KeepFact: lib.KeepNil, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != b.pkg || g == mapper }}
		j.Relevant = p.Reaching(func(f *ssa.Function, in ssa.Instruction) bool {
			return lib.PkgOf(f) == b.pkg && b.call(lib.CallName(in))
		})
		var missG *ssa.Global
		if b.missing != "" {
			for _, sp := range p.SSA.AllPackages() {
				if sp.Pkg.Path() == b.missing[:strings.LastIndex(b.missing, ".")] {
					missG, _ = sp.Members["ErrNotFound"].(*ssa.Global)
				}
			}
		}
		j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
			name := lib.Name(root)
			return eng.Hooks{
				After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
					if er := lib.ErrRet(c, rets); er != nil && b.call(c.Name()) {
						r.Ok("backend-kind", name+": "+lib.Site(c), c.Pos())
						st.Set("be:"+itoa(er.ID), name+": "+lib.Site(c), er)
					}
				},
				Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
					er := rets[len(rets)-1]
					if st.IsNil(er) {
						return
					}
					for _, k := range st.KeysPrefix("be:") {
						t := st.TS[k]
						ev := t.V[0]
						raw := false // reaches the result without the mapper
						var walk func(v *eng.Val)
						walk = func(v *eng.Val) {
							if v == ev {
								raw = true
							}
							for _, a := range v.Args {
								walk(a)
							}
						}
						walk(er)
						if !raw {
							continue
						}
						if missG != nil {
							b, ok := st.Eval(st.E.In.Node(eng.KCall, 0, "errors.Is", types.Typ[types.Bool], ev, globalVal(st, missG)))
							raw = !(ok && !b)
						}
						r.Check(!raw, "backend-kind", t.S, root.Pos(), st, "%s returns the error of the backend without translating it, so a missing object is reported as an internal error", name)
					}
				},
			}
		}
		j.Do(nil)
		if mapper != nil {
			mapperKinds(p, r, mapper)
		}
	}
	r.Floor("backend-kind", 10)
}

// mapperKinds: a translator of database errors keeps nil and never loses a failure, and knows the missing row.
func mapperKinds(p *lib.Prog, r *lib.Report, f *ssa.Function) {
	sent := sentinels(p)
	name := lib.Name(f)
	notExist := false
	j := &lib.Job{P: p, R: r, Roots: []*ssa.Function{f}, NoHavoc: true}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		return eng.Hooks{Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, f *eng.Val, b bool) {
			for f.K == eng.KUn && f.Op == token.NOT {
				f, b = f.Args[0], !b
			}
			if !b {
				return
			}
			n := int64(0)
			if f.K == eng.KBin && f.Op == token.EQL {
				n, _ = eng.ConstInt(f.Args[1])
				if x, ok := eng.ConstInt(f.Args[0]); ok {
					n = x
				}
			}
			if f.K == eng.KCall && f.Name == "errors.Is" && strings.Contains(f.Args[1].String(), "ErrNoRows") || n == 404 || f.K == eng.KBin && f.Op == token.EQL && (strings.Contains(f.String(), "NoSuchKey") || strings.Contains(f.String(), "ErrNoRows")) {
				st.Set("missing", "")
			}
		}, Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
			er, arg := rets[0], st.E.In.Param(root, 0)
			if st.IsNil(er) {
				r.Check(st.IsNil(arg), "mapper", name+": nil", root.Pos(), st, "%s turns a failure into success", name)
				return
			}
			if er == globalVal(st, sent["ErrNotExist"]) {
				notExist = true
				ok := st.Has("missing")
				r.Check(ok, "mapper", name+": not exist", root.Pos(), st, "%s reports a missing object for another failure", name)
			}
		}}
	}
	j.Do(nil)
	r.Check(notExist, "mapper", name+": missing object", f.Pos(), nil, "%s never reports a missing object as ErrNotExist", name)
}

// restErrors: each REST handler answers once, with the status of the kind.
func restErrors(p *lib.Prog, r *lib.Report) {
	si := ifaceOf(p, "api/genpublic/v1", "ServerInterface")
	if si == nil {
		r.Bad("anchor", "ServerInterface", token.NoPos, nil, "the REST interface is not there")
		return
	}
	sent := sentinels(p)
	roots := implementers(p, []string{restPkg}, si)
	table := []struct {
		kind   string
		status int64
	}{{"ErrNotExist", 404}, {"ErrInvalid", 400}, {"ErrExist", 409}, {"ErrConflict", 409}}
	answer := func(c *eng.Call) (int, bool) { // index of the status argument
		n := c.Name()
		if !strings.HasPrefix(n, "(*github.com/gin-gonic/gin.Context).") {
			return 0, false
		}
		switch n[strings.LastIndex(n, ".")+1:] {
		case "JSON", "String", "Data", "XML", "YAML", "HTML", "IndentedJSON", "PureJSON", "SecureJSON", "JSONP", "AsciiJSON", "ProtoBuf", "Render", "AbortWithStatus", "AbortWithStatusJSON", "AbortWithError", "Redirect", "DataFromReader", "TOML":
			return 1, true
		}
		return 0, false
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != restPkg }}
	j.Relevant = p.Reaching(func(f *ssa.Function, in ssa.Instruction) bool {
		n := lib.CallName(in)
		return lib.PkgOf(f) == restPkg && (takesError(f) || strings.HasPrefix(n, "(*github.com/gin-gonic/gin.Context).") || strings.HasPrefix(n, "(*pkg/api.Service)."))
	})
	j.KeepFact = lib.KeepNil
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				i, ok := answer(c)
				if !ok {
					return nil
				}
				if st.Has("answered") {
					r.Bad("one-answer", name, c.Pos(), st, "%s may answer twice", name)
				}
				st.Set("answered", "")
				code, isC := eng.ConstInt(c.Args[i])
				if !isC {
					r.Bad("status", name+": "+lib.Site(c), c.Pos(), st, "%s answers with the status %s, which is not known here", name, c.Args[i])
					return nil
				}
				var errs []*eng.Val
				for _, k := range st.KeysPrefix("e:") {
					ev := st.TS[k].V[0]
					if !st.IsNil(ev) {
						errs = append(errs, ev)
					}
				}
				if code < 400 {
					r.Check(len(errs) == 0, "success-answer", name, c.Pos(), st, "%s answers with success although a call on the way may have failed", name)
					return nil
				}
				if len(errs) != 1 {
					r.Check(len(errs) == 1, "status", name+": "+lib.Site(c), c.Pos(), st, "%s answers with the status %d without a failure", name, code)
					return nil
				}
				ev := errs[0]
				if t, ok := st.TS["as:"+itoa(ev.ID)]; ok {
					ev = t.V[0]
				}
				anyTrue, match, excluded := false, false, true
				for _, t := range table {
					b, ok := st.Eval(st.E.In.Node(eng.KCall, 0, "errors.Is", types.Typ[types.Bool], ev, globalVal(st, sent[t.kind])))
					if ok && b {
						anyTrue = true
						match = match || t.status == code
					}
					excluded = excluded && ok && !b
				}
				switch {
				case anyTrue:
					r.Check(match, "status", name+": status of the kind", c.Pos(), st, "%s answers with %d for an error of a kind that has another status", name, code)
				case code >= 500:
					r.Check(excluded, "status", name+": internal error", c.Pos(), st, "%s answers with %d for an error that may be of a kind which has its own status", name, code)
				default:
					r.Check(code != 404 && code != 400 && code != 409, "status", name+": status of the kind", c.Pos(), st, "%s answers with %d for an error that is not of that kind", name, code)
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				n := c.Name()
				er := lib.ErrRet(c, rets)
				if er == nil {
					return
				}
				if strings.HasPrefix(n, "(*pkg/api.Service).") {
					st.Set("e:"+itoa(er.ID), lib.Site(c), er)
				}
				// an error made of the request
				if c.Fn != nil && lib.PkgOf(c.Fn) == restPkg && takesGin(c.Fn) && !st.IsNil(er) {
					for _, k := range st.KeysPrefix("e:") {
						if strings.HasPrefix(st.TS[k].S, "bind ") {
							st.Del(k)
						}
					}
					st.Set("e:"+itoa(er.ID), "request "+lib.Site(c), er)
					b, ok := st.Eval(st.E.In.Node(eng.KCall, 0, "errors.Is", types.Typ[types.Bool], er, globalVal(st, sent["ErrInvalid"])))
					r.Check(ok && b, "bad-request", name+": "+lib.Site(c), c.Pos(), st, "%s does not report a malformed request as invalid", lib.Name(c.Fn))
				}
				if strings.HasPrefix(n, "(*github.com/gin-gonic/gin.Context).Bind") || strings.HasPrefix(n, "(*github.com/gin-gonic/gin.Context).ShouldBind") {
					st.Set("e:"+itoa(er.ID), "bind "+lib.Site(c), er)
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				r.Check(st.Has("answered"), "one-answer", name, root.Pos(), st, "%s may end without an answer", name)
			},
		}
	}
	j.Do(nil)
	r.Floor("one-answer", si.NumMethods())
	r.Floor("success-answer", si.NumMethods())
	r.Floor("bad-request", 3)
}

func takesError(f *ssa.Function) bool {
	for _, x := range f.Params {
		if x.Type().String() == "error" {
			return true
		}
	}
	return false
}

func takesGin(f *ssa.Function) bool {
	for _, x := range f.Params {
		if strings.HasSuffix(x.Type().String(), "gin.Context") {
			return true
		}
	}
	return false
}

func init() {
	register("C13", func(p *lib.Prog, r *lib.Report) {
		grpcTables(p, r)
		grpcErrors(p, r)
		restErrors(p, r)
		keepKind(p, r, "pkg/storage", "pkg/storage/buntdb", "pkg/storage/postgres", "pkg/storage/cache", lfs, cfs, apiPkg, restPkg, "pkg/ql", "pkg/intervals", "golibs/sss/s3", "golibs/sss/inmem", "golibs/kvs/inmem", "golibs/kvs/redis")
		r.Floor("kind-kept", 40)
		backendKinds(p, r)
		badCondition(p, r, "pkg/ql")
		r.Floor("invalid-kind", 20)
	}, "")
}
