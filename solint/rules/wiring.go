package rules

import (
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

func init() {
	register("C23", func(p *lib.Prog, r *lib.Report) {
		wiring(p, r)
		configBuilt(p, r)
		served(p, r)
	}, "")
}

const linkerPkg = "github.com/logrange/linker."

type injField struct {
	name, comp string
	typ        types.Type
	optional   bool
	exported   bool
}

// injected are the fields the components of type t need.
func injected(t types.Type) (fs []injField) {
	s := ptrStruct(t)
	if s == nil || !isPtr(t) {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		tag, ok := reflect.StructTag(s.Tag(i)).Lookup("inject")
		if !ok {
			continue
		}
		ps := strings.Split(tag, ",")
		f := injField{name: s.Field(i).Name(), comp: ps[0], typ: s.Field(i).Type(), exported: s.Field(i).Exported()}
		for _, x := range ps[1:] {
			f.optional = f.optional || strings.HasPrefix(strings.TrimSpace(x), "optional")
		}
		fs = append(fs, f)
	}
	return
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// wiring decides that what is started is complete.
func wiring(p *lib.Prog, r *lib.Report) {
	rel := p.ReachingStop(func(f *ssa.Function, in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && strings.HasPrefix(lib.CallName(c.(ssa.Instruction)), "(*"+linkerPkg+"Injector)")
	}, func(*ssa.Function) bool { return false })
	called := map[*ssa.Function]bool{}
	for f := range rel {
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g != f && lib.PkgOf(f) == lib.PkgOf(g) {
					called[g] = true
				}
			}
		})
	}
	var roots []*ssa.Function
	for f := range rel {
		if lib.PkgOf(f) == "pkg/server" && ctxParam(f) >= 0 && !called[f] && f.Parent() == nil {
			roots = append(roots, f)
		}
	}
	if len(roots) == 0 {
		r.Bad("anchor", "server.Run", token.NoPos, nil, "nothing starts the components of the server")
		return
	}
	type comp struct {
		name string
		v    *eng.Val
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, Relevant: rel, KeepFact: func(*eng.Val) bool { return true }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		valOf := func(v *eng.Val) *eng.Val {
			for v.K == eng.KConv || v.K == eng.KMI {
				v = v.Args[0]
			}
			return v
		}
		comps := func(st *eng.State) (cs []comp) {
			seen := map[*eng.Val]bool{}
			for _, k := range st.KeysPrefix("comp ") {
				x := st.TS[k]
				v := valOf(x.V[0])
				if seen[v] {
					continue
				}
				seen[v] = true
				n := ""
				if s, ok := eng.ConstString(lib.Strip(x.V[1])); ok {
					n = s
				}
				cs = append(cs, comp{n, v})
			}
			return
		}
		typeOf := func(v *eng.Val) types.Type {
			return v.Typ
		}
		started := func(st *eng.State, pos token.Pos) {
			if st.Has("unseen") {
				return
			}
			cs := comps(st)
			is := func(v *eng.Val) bool {
				for _, c := range cs {
					if c.v == v {
						return true
					}
				}
				return false
			}
			for _, c := range cs {
				t := typeOf(c.v)
				if t == nil {
					r.Note("%s: the type of a component is not seen", name)
					continue
				}
				for _, f := range injected(t) {
					n := 0
					for _, d := range cs {
						dt := typeOf(d.v)
						if dt == nil || f.comp != "" && d.name != f.comp {
							continue
						}
						if types.AssignableTo(dt, f.typ) {
							n++
						}
					}
					w := typeName(t) + "." + f.name
					r.Check(f.exported, "injectable", w, pos, st, "the field cannot be set: the start panics")
					r.Check(n > 0 || f.optional, "wired", w, pos, st, "no component is registered for the field: the start panics")
					r.Check(n < 2, "wired", w+" one", pos, st, "%d components fit the field: the start panics", n)
				}
			}
			for _, k := range st.KeysPrefix("made ") {
				v := st.TS[k].V[0]
				closed := false
				for _, c := range st.KeysPrefix("close ") {
					st.TS[c].V[0].Walk(func(x *eng.Val) bool { closed = closed || x == v; return true })
				}
				if len(injected(v.Typ)) > 0 {
					r.Check(is(v), "same-instance", typeName(v.Typ), pos, st, "the %s is not registered: what it needs is never set", typeName(v.Typ))
				} else {
					r.Check(is(v) || closed, "lifecycle", typeName(v.Typ), pos, st, "the %s is not registered: it is never started or stopped", typeName(v.Typ))
				}
			}
			// every setting reaches what is started
			for i, q := range root.Params {
				cf := ptrStruct(q.Type())
				if cf == nil || !isPtr(q.Type()) {
					continue
				}
				used := map[string]bool{}
				for _, c := range cs {
					argsOf(st, e, c.v).Walk(func(x *eng.Val) bool {
						if x.K == eng.KField && x.Args[0] == e.In.Param(root, i) {
							used[x.Name] = true
						}
						return true
					})
				}
				for k := 0; k < cf.NumFields(); k++ {
					if cf.Field(k).Exported() {
						r.Check(used[cf.Field(k).Name()], "configured", cf.Field(k).Name(), pos, st, "the setting %s reaches nothing that is started", cf.Field(k).Name())
					}
				}
			}
			// what serves the requests serves with what is wired
			for _, need := range []string{"grpc", "http"} {
				k := "serves " + need
				r.Check(st.Has(k), "serves", need, pos, st, "nothing is registered that serves %s requests", need)
				if st.Has(k) && len(st.TS[k].V) > 0 {
					v := st.TS[k].V[0]
					found := false
					v.Walk(func(x *eng.Val) bool {
						if is(x) && len(injected(x.Typ)) > 0 {
							found = true
						}
						if x.K == eng.KAlloc || x.K == eng.KField {
							if y, ok := st.Cell(x); ok {
								y.Walk(func(z *eng.Val) bool {
									found = found || is(z) && len(injected(z.Typ)) > 0
									return true
								})
							}
						}
						return true
					})
					for _, fn := range map[string][]string{"grpc": {"RegisterServiceServer", "RegisterHealthServer"}, "http": {"RegisterHandlersWithOptions|RegisterHandlers"}}[need] {
						calls := false
						v.Walk(func(x *eng.Val) bool {
							if (x.K == eng.KClosure || x.K == eng.KFunc) && x.Fn != nil {
								for g := range callsFrom(x.Fn) {
									eachInstr(g, func(in ssa.Instruction) {
										if c, ok := in.(ssa.CallInstruction); ok {
											cn := lib.CallName(c.(ssa.Instruction))
											for _, w := range strings.Split(fn, "|") {
												calls = calls || strings.HasSuffix(cn, "."+w)
											}
										}
									})
								}
							}
							return true
						})
						r.Check(calls, "serves", need+" "+fn, pos, st, "the %s server does not serve what %s registers", need, fn)
					}
					r.Check(found, "serves", need+" wired", pos, st, "the %s requests are served by something that is not registered", need)
				}
			}
		}
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				n := c.Name()
				if c.Kind == eng.CKDefer || c.Kind == eng.CKCall {
					if strings.HasSuffix(n, ".Close") || strings.HasSuffix(n, ".Shutdown") && !strings.Contains(n, linkerPkg) {
						if len(c.Args) > 0 {
							st.Set("close "+vid(c.Args[0]), "", c.Args[0])
						}
						if c.Kind == eng.CKCall && !st.Has("down") && st.Has("up") {
							r.Bad("order", name+" closed", c.Pos(), st, "something is closed before the components are stopped")
						}
					}
				}
				if c.Kind != eng.CKCall || !strings.HasPrefix(n, "(*"+linkerPkg+"Injector)") {
					return nil
				}
				switch n[strings.LastIndexByte(n, '.')+1:] {
				case "Register":
					r.Check(!st.Has("up"), "order", name+" register", c.Pos(), st, "a component is registered after the start: it is never started")
					ts := c.Common.Signature().Params().At(0).Type().(*types.Slice).Elem()
					sl := c.Args[1]
					unseen := func() *eng.Result {
						r.Note("%s: it is not seen what is registered, what is wired is not decided", name)
						st.Set("unseen", "")
						return nil
					}
					var lit bool
					if x, ok := c.Common.Args[1].(*ssa.Slice); ok {
						al, _ := x.X.(*ssa.Alloc)
						lit = al != nil && al.Comment == "varargs"
					}
					if !lit || sl.K != eng.KSlice || sl.Args[0].K != eng.KAlloc {
						return unseen()
					}
					cnt := 0
					for i := int64(0); i < 64; i++ {
						a := e.In.Node(eng.KIndex, 0, "", nil, sl.Args[0], e.In.Int(i))
						x := st.Load(a, ts)
						v := st.FieldOf(x, "Value", nil)
						if v == nil || v.K != eng.KMI {
							break
						}
						nm := st.FieldOf(x, "Name", types.Typ[types.String])
						st.Set("comp "+vid(valOf(v)), "", v, nm)
						t := typeOf(valOf(v))
						if t != nil {
							switch tn := t.String(); {
							case strings.HasSuffix(tn, "pkg/grpc.Server"):
								st.Set("serves grpc", "", argsOf(st, e, valOf(v)))
							case strings.HasSuffix(tn, "pkg/http.Router"):
								st.Set("serves http", "", argsOf(st, e, valOf(v)))
							}
						}
						cnt++
					}
					if cnt == 0 {
						return unseen()
					}
				case "Init":
					r.Check(!st.Has("up"), "order", name+" once", c.Pos(), st, "the components are started twice")
					k := ctxParam(root)
					r.Check(lib.Strip(c.Args[1]) == e.In.Param(root, k), "order", name+" context", c.Pos(), st, "the components are not started with the context of the server")
					started(st, c.Pos())
					st.Set("up", "")
				case "Shutdown":
					r.Check(st.Has("up"), "order", name+" stopped", c.Pos(), st, "the components are stopped before they were started")
					r.Check(st.Has("ended"), "order", name+" ended", c.Pos(), st, "the components are stopped although the context has not ended: the server does not stay")
					st.Set("down", "")
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if c.Kind != eng.CKCall || c.Fn == nil || !eng.InModule(c.Fn) {
					return
				}
				for _, v := range rets {
					if v.Typ == nil || !isPtr(v.Typ) || ptrStruct(v.Typ) == nil || strings.Contains(v.Typ.String(), linkerPkg) {
						continue
					}
					if len(injected(v.Typ)) > 0 || hasMethod(v.Typ, "Init") || hasMethod(v.Typ, "Shutdown") {
						st.Set("made "+vid(v), "", v)
						var as []*eng.Val
						for _, a := range c.Args {
							as = append(as, a)
						}
						st.Set("args "+vid(v), "", as...)
					} else if c.Fn.Signature.Recv() == nil {
						var as []*eng.Val
						as = append(as, c.Args...)
						st.Set("args "+vid(v), "", as...)
					}
				}
			},
			Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
					if ch := lib.Strip(e.Env(st, fr, u.X)); ch.K == eng.KCall && ch.Name == ctxDone {
						st.Set("ended", "")
					}
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				if st.Has("up") {
					r.Check(st.Has("down"), "order", name+" always", in.Pos(), st, "the server ends without stopping its components")
				} else {
					r.Check(len(rets) == 0 || !st.IsNil(rets[len(rets)-1]), "order", name+" started", in.Pos(), st, "the server ends without an error although it was never started")
				}
			},
		}
	}
	j.Do(nil)
	r.Floor("order", 3)
}

// argsOf: everything the value was made of, as one value that can be walked.
func argsOf(st *eng.State, e *eng.Engine, v *eng.Val) *eng.Val {
	seen := map[*eng.Val]bool{}
	var all []*eng.Val
	var add func(x *eng.Val)
	add = func(x *eng.Val) {
		x.Walk(func(y *eng.Val) bool {
			if seen[y] {
				return false
			}
			seen[y] = true
			all = append(all, y)
			for _, a := range st.TS["args "+vid(y)].V {
				add(a)
			}
			if y.K == eng.KAlloc || y.K == eng.KField || y.K == eng.KLoad {
				a := y
				if y.K == eng.KLoad {
					a = y.Args[0]
				}
				st.EachCell(func(c, w *eng.Val) {
					if c == a || under(c, a) {
						add(w)
					}
				})
			}
			return true
		})
	}
	add(v)
	return e.In.Node(eng.KCall, 0, "madeof", nil, all...)
}

func under(c, a *eng.Val) bool {
	for c.K == eng.KField || c.K == eng.KIndex {
		c = c.Args[0]
		if c == a {
			return true
		}
	}
	return false
}

// configBuilt: what is set in the environment wins over the file, and the file
// over the defaults.
func configBuilt(p *lib.Prog, r *lib.Report) {
	is := func(n, m string) bool {
		return strings.Contains(n, "golibs/config.") && strings.HasSuffix(n, ")."+m)
	}
	var roots []*ssa.Function
	for _, f := range p.InPkg("pkg/server") {
		rs := f.Signature.Results()
		if f.Parent() == nil && rs.Len() == 2 && errT(rs.At(1).Type()) && strings.HasSuffix(rs.At(0).Type().String(), "pkg/server.Config") && len(f.Params) == 1 && isStr(f.Params[0].Type()) {
			roots = append(roots, f)
		}
	}
	if len(roots) == 0 {
		r.Bad("anchor", "server.BuildConfig", token.NoPos, nil, "nothing makes the configuration of the server from a file")
		return
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, KeepFact: func(*eng.Val) bool { return true }, NoInline: func(root, g *ssa.Function) bool {
		return lib.PkgOf(g) != lib.PkgOf(root) || strings.Contains(strings.ToLower(g.Name()), "default")
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		recv := func(c *eng.Call) *eng.Val {
			if len(c.Args) > 0 {
				return lib.Strip(c.Args[0])
			}
			return nil
		}
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind != eng.CKCall {
					return nil
				}
				n := c.Name()
				switch {
				case is(n, "ApplyOther"):
					k := vid(recv(c))
					r.Check(!st.Has("env "+k), "config-order", name+" file", c.Pos(), st, "the file is applied after the environment: what the environment sets is lost")
					from := lib.Strip(c.Args[1])
					r.Check(st.Has("file "+vid(from)), "config-order", name+" read", c.Pos(), st, "what is applied was not read from the file")
					st.Set("other "+k, "")
				case is(n, "ApplyEnvVariables"):
					k := vid(recv(c))
					p0, ok := eng.ConstString(lib.Strip(c.Args[1]))
					r.Check(ok && p0 == "SOLARIS", "config-order", name+" names", c.Pos(), st, "the environment variables of solaris begin with SOLARIS")
					st.Set("env "+k, "")
				case is(n, "LoadFromFile"), is(n, "LoadFromJSONFile"), is(n, "LoadFromYAMLFile"):
					k := vid(recv(c))
					r.Check(!st.Has("env "+k), "config-order", name+" file", c.Pos(), st, "the file is read after the environment: what the environment sets is lost")
					r.Check(lib.Strip(c.Args[1]) == e.In.Param(root, 0), "config-order", name+" given", c.Pos(), st, "another file is read than the one given")
					st.Set("file "+k, "")
					st.Set("other "+k, "")
				case is(n, "Value"):
					k := vid(recv(c))
					r.Check(st.Has("env "+k), "config-order", name+" environment", c.Pos(), st, "what is set in the environment is not used")
					r.Check(st.Has("other "+k), "config-order", name+" used", c.Pos(), st, "what is set in the file is not used")
					r.Check(st.Has("default "+k), "config-order", name+" default", c.Pos(), st, "what is not set has not its default")
					st.Set("value", "")
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				n := c.Name()
				if strings.HasPrefix(n, "golibs/config.NewEnricher") && len(rets) == 1 {
					dflt := false
					c.Args[0].Walk(func(x *eng.Val) bool {
						if x.Call != nil || x.K == eng.KCall {
							dflt = true
						}
						return true
					})
					if dflt {
						st.Set("default "+vid(lib.Strip(rets[0])), "")
					}
				}
				if is(n, "LoadFromFile") || is(n, "LoadFromJSONFile") || is(n, "LoadFromYAMLFile") {
					st.Set("read", "", rets[len(rets)-1])
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				er := rets[len(rets)-1]
				if st.IsNil(er) {
					r.Check(st.Has("value"), "config-order", name+" result", in.Pos(), st, "the configuration is not the one that was built")
				}
				if x, ok := st.TS["read"]; ok && !st.IsNil(x.V[0]) {
					r.Check(!st.IsNil(er), "config-told", name, in.Pos(), st, "the server starts although its configuration could not be read")
				} else if !ok {
					r.Check(!st.IsNil(er), "config-told", name+" read", in.Pos(), st, "the file was not read")
				}
			},
		}
	}
	j.Do(nil)
	r.Floor("config-order", 5)
}

// served: the transports register what they serve before they serve, and do
// not start when that fails.
func served(p *lib.Prog, r *lib.Report) {
	serves := func(f *ssa.Function) (ok bool) {
		for g := range callsFrom(f) {
			eachInstr(g, func(in ssa.Instruction) {
				if c, is := in.(ssa.CallInstruction); is {
					n := lib.CallName(c.(ssa.Instruction))
					ok = ok || strings.HasSuffix(n, "grpc.Server).Serve") || strings.HasSuffix(n, "http.Server).ListenAndServe") || strings.HasSuffix(n, "http.Server).Serve")
				}
			})
		}
		return
	}
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if f.Name() == "Init" && f.Signature.Recv() != nil && f.Synthetic == "" && serves(f) {
			roots = append(roots, f)
		}
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, KeepFact: func(*eng.Val) bool { return true }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		registrar := func(c *eng.Call) bool {
			if c.Fn != nil || c.Common.IsInvoke() || c.FnVal == nil {
				return false
			}
			s := c.Common.Signature()
			return s.Results().Len() == 1 && errT(s.Results().At(0).Type()) && s.Params().Len() == 1 && (strings.HasSuffix(s.Params().At(0).Type().String(), "grpc.Server") || strings.HasSuffix(s.Params().At(0).Type().String(), "gin.Engine"))
		}
		up := func(st *eng.State, pos token.Pos) {
			x, ok := st.TS["reg"]
			if !ok {
				none := st.Has("none")
				r.Check(none, "registered-first", name, pos, st, "it serves before what it serves was registered")
				return
			}
			r.Check(st.IsNil(x.V[0]), "registered-first", name, pos, st, "it serves although what it serves could not be registered")
		}
		return eng.Hooks{
			Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
				for cond.K == eng.KUn && cond.Op == token.NOT {
					cond, taken = cond.Args[0], !taken
				}
				if cond.K != eng.KBin || cond.Op != token.EQL || !taken {
					return
				}
				for _, a := range cond.Args {
					if a.Typ != nil && a.K != eng.KNil {
						if _, is := a.Typ.Underlying().(*types.Signature); is {
							st.Set("none", "")
						}
					}
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				n := c.Name()
				direct := strings.HasSuffix(n, "grpc.Server).Serve") || strings.HasSuffix(n, "http.Server).ListenAndServe") || strings.HasSuffix(n, "http.Server).Serve")
				if c.Kind == eng.CKGo && (direct || c.Fn != nil && serves(c.Fn)) {
					up(st, c.Pos())
					st.Set("serving", "")
				} else if c.Kind == eng.CKCall && direct {
					r.Bad("registered-first", name+" blocks", c.Pos(), st, "the start does not end while it serves: nothing after it is started")
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if c.Kind == eng.CKCall && registrar(c) {
					st.Set("reg", "", rets[0])
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				er := rets[len(rets)-1]
				r.Check(st.Has("serving") || !st.IsNil(er), "registered-first", name+" serves", in.Pos(), st, "it says that it was started, but serves nothing")
				if x, ok := st.TS["reg"]; ok && !st.IsNil(x.V[0]) {
					r.Check(!st.IsNil(er), "registered-first", name+" told", in.Pos(), st, "what it serves could not be registered, and nobody is told")
				}
			},
		}
	}
	j.Do(nil)
	r.Floor("registered-first", 4)
}

func ptrStruct(t types.Type) *types.Struct {
	s, _ := deref(t).Underlying().(*types.Struct)
	return s
}

func vid(v *eng.Val) string { return strconv.Itoa(int(v.ID)) }

// callsFrom: the functions of the module f may run, calls of unknown functions
// left out.
func callsFrom(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var add func(g *ssa.Function)
	add = func(g *ssa.Function) {
		if g == nil || seen[g] || len(g.Blocks) == 0 || !eng.InModule(g) {
			return
		}
		seen[g] = true
		eachInstr(g, func(in ssa.Instruction) {
			for _, o := range in.Operands(nil) {
				if h, ok := (*o).(*ssa.Function); ok {
					add(h)
				}
			}
		})
	}
	add(f)
	return seen
}
