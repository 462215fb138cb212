package rules

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

var wholeChunk = map[string][][2]string{lfs + ".ChunkInfo": {{"ID", "ID"}, {"Min", "Min"}, {"Max", "Max"}, {"RecordsCount", "RecordsCount"}}}

// jsonNames: every field of a stored type comes back from its JSON.
func jsonNames(p *lib.Prog, r *lib.Report) {
	for _, tn := range [][2]string{{bunt, "logEntry"}, {bunt, "chnkEntry"}} {
		n := p.Named(tn[0], tn[1])
		if n == nil {
			r.Bad("anchor", tn[0]+"."+tn[1], token.NoPos, nil, "the type is not there")
			continue
		}
		seen := map[string]string{}
		var walk func(t types.Type, d int)
		walk = func(t types.Type, d int) {
			if q, ok := t.Underlying().(*types.Pointer); ok {
				t = q.Elem()
			}
			s, ok := t.Underlying().(*types.Struct)
			if !ok || d > 4 {
				return
			}
			if m := methodOf(t, "MarshalJSON"); m != nil && d > 0 {
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				f, tag := s.Field(i), reflect.StructTag(s.Tag(i))
				js, opts, _ := strings.Cut(tag.Get("json"), ",")
				if f.Embedded() && js == "" {
					walk(f.Type(), d+1)
					continue
				}
				if js == "" {
					js = f.Name()
				}
				what := tn[1] + "." + f.Name()
				if !f.Exported() {
					// the bookkeeping of generated messages
					r.Check(lib.TypeKey(t) == "api/gen/solaris/v1.Log", "json", what, f.Pos(), nil, "the field %s of what is stored is not exported: it is lost", f.Name())
					continue
				}
				_ = opts
				r.Check(tag.Get("json") != "-", "json", what, f.Pos(), nil, "the field %s of what is stored is left out of it", f.Name())
				key := strings.ToLower(js)
				r.Check(seen[key] == "", "json", what+" and its name", f.Pos(), nil, "the fields %s and %s are stored under one name: one of them is lost", f.Name(), seen[key])
				seen[key] = f.Name()
			}
		}
		walk(n, 0)
	}
	r.Floor("json", 9)
}

func methodOf(t types.Type, name string) *types.Func {
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if f := ms.At(i).Obj(); f.Name() == name {
			return f.(*types.Func)
		}
	}
	return nil
}

// buntKept: what the embedded storage keeps and gives back.
func buntKept(p *lib.Prog, r *lib.Report) {
	entryT, chunkT := p.Named(bunt, "logEntry"), p.Named(bunt, "chnkEntry")
	if entryT == nil || chunkT == nil {
		return
	}
	under := func(t types.Type) types.Type {
		if q, ok := t.Underlying().(*types.Pointer); ok {
			return q.Elem()
		}
		return t
	}
	var roots []*ssa.Function
	for _, i := range [][2]string{{"pkg/storage", "Logs"}, {lfs, "LogsMetaStorage"}} {
		if it := ifaceOf(p, i[0], i[1]); it != nil {
			for _, f := range implementers(p, []string{bunt}, it) {
				if f.Name() != "QueryLogs" {
					roots = append(roots, f)
				}
			}
		}
	}
	v := visits{strict: true}
	isNow := func(x *eng.Val) bool {
		x = lib.Strip(x)
		now := false
		x.Walk(func(y *eng.Val) bool {
			now = now || madeBy(y, "time.Now") || strings.HasSuffix(y.Name, "timestamppb.Now") || strings.HasSuffix(y.Name, "time.Now") || strings.HasPrefix(y.String(), "google.golang.org/protobuf/types/known/timestamppb.Now(")
			return !now
		})
		return now
	}
	logFields := []string{"ID", "Tags", "CreatedAt", "UpdatedAt"}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != lib.PkgOf(root) }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		cv := newConverter(r, e, name, v, wholeChunk)
		// the fields of the log of an entry
		logIn := func(st *eng.State, entry *eng.Val) *eng.Val { return st.FieldOf(entry, "Log", nil) }
		entryAt := func(st *eng.State, x *eng.Val) *eng.Val {
			x = lib.Strip(x)
			if _, ok := x.Typ.Underlying().(*types.Pointer); ok {
				x = st.Load(x, under(x.Typ))
			}
			return x
		}
		// entrySym: the entry that was read, which x is a part of
		entrySym := func(x *eng.Val) (s *eng.Val) {
			x.Walk(func(y *eng.Val) bool {
				if y.K == eng.KSym && strings.HasPrefix(y.Name, "read ") {
					s = y
				}
				return s == nil
			})
			return
		}
		same := func(st *eng.State, x, entry *eng.Val, field string) bool { // x is the field of the log read
			f, of := loadedFrom(x)
			return f == field && of != nil && entrySym(of) == entry
		}
		return eng.Hooks{
			Store:  cv.store,
			Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) { v.branch(st, cond, taken) },
			Leave: func(st *eng.State, fr *eng.Frame, rets []*eng.Val) {
				if fr.Site != nil && strings.HasPrefix(lib.CallName(fr.Site), btx) && root.Name() == "GetChunks" {
					r.Check(!st.Has("unlisted"), "given-back", name+": every chunk", fr.Fn.Pos(), st, "%s reads a chunk and leaves it out", name)
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind == eng.CKDefer {
					return nil
				}
				switch c.Name() {
				case "golibs/cast.ByteArrayToString", "golibs/cast.StringToByteArray":
					return madeNode(e, c, "cast", c.Args[0])
				case "encoding/json.Marshal":
					x := entryAt(st, c.Args[0])
					n := e.In.Node(eng.KCall, 0, "json.Marshal", c.Common.Signature().Results().At(0).Type(), x)
					switch {
					case types.Identical(x.Typ, entryT):
						l := logIn(st, x)
						vs := []*eng.Val{x, l}
						for _, f := range logFields {
							vs = append(vs, lib.Strip(resultField(st, l, f)))
						}
						st.Set("json:"+itoa(n.ID), "log", vs...)
					case types.Identical(x.Typ, chunkT):
						st.Set("json:"+itoa(n.ID), "chunk", x)
					}
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{n, e.In.Nil()}}}}
				case "encoding/json.Unmarshal":
					ptr := lib.Strip(c.Args[1])
					t := under(ptr.Typ)
					s := e.In.NamedSym("read "+lib.TypeKey(under(t)), t)
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Nil()}, Do: func(st *eng.State) {
						st.Store(ptr, s)
						if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
							st.Assume(e.Eq(s, e.In.Nil()), false)
							st.Forget(st.Load(s, under(t)))
						}
						src := st.TS["source"]
						st.Set("read", "", append([]*eng.Val{s}, src.V...)...)
						if types.Identical(under(t), chunkT) {
							st.Set("unlisted", "")
						}
					}}}}
				case btx + "Get":
					_, ids := keyParts(st, c.Args[1])
					st.Set("source", "", ids...)
				case btx + "Set":
					pos := c.Pos()
					j := lib.Strip(c.Args[2])
					for (j.K == eng.KConv || j.K == eng.KCall && j.Name != "json.Marshal") && len(j.Args) == 1 {
						j = lib.Strip(j.Args[0])
					}
					m, ok := st.TS["json:"+itoa(j.ID)]
					r.Check(ok, "stored", name+": what", pos, st, "%s stores something that is no JSON of a log or a chunk: %s", name, j)
					if !(ok) {
						return nil
					}
					_, ids := keyParts(st, c.Args[1])
					if m.S == "chunk" {
						src, bad := cv.elem(st, st.FieldOf(m.V[0], "ChunkInfo", p.Named(lfs, "ChunkInfo")))
						r.Check(src != nil && bad == "", "stored", name+": chunk", pos, st, "%s: the %s of the chunk it stores is not the one it was given", name, bad)
						if !(src != nil && bad == "") {
							return nil
						}
						l, next := v.use(st, src)
						r.Check(l == e.In.Param(root, 3) && next, "stored", name+": which", pos, st, "%s does not store the chunks it was given, one by one", name)
						r.Check(len(ids) == 2 && ids[0] == e.In.Param(root, 2) && ofParam(ids[1], src, "ID"), "stored", name+": key", pos, st, "%s stores a chunk under the key of another one: %v", name, ids)
						return nil
					}
					id, tags, created, updated := m.V[2], m.V[3], m.V[4], m.V[5]
					rd, _ := st.TS["read"]
					r.Check(len(ids) == 1 && (ids[0] == id || len(rd.V) == 2 && ids[0] == rd.V[1] && same(st, id, rd.V[0], "ID") || strings.HasSuffix(ids[0].String(), ".ID") && entrySym(ids[0]) != nil && entrySym(ids[0]) == entrySym(id)), "stored", name+": key", pos, st, "%s stores a log under the key of another one: %v", name, ids)
					req := e.In.Param(root, 2)
					r.Check(isNow(updated), "stored", name+": UpdatedAt", pos, st, "%s does not store the time of the change: %s", name, updated)
					if root.Name() == "CreateLog" {
						r.Check(st.IsNil(req) || ofParam(tags, req, "Tags"), "stored", name+": Tags", pos, st, "%s does not store the tags of the request: %s", name, tags)
						r.Check(isNow(created), "stored", name+": CreatedAt", pos, st, "%s does not store the time as CreatedAt: %s", name, created)
						return nil
					}
					t, ok := st.TS["read"]
					r.Check(ok && len(t.V) == 2, "stored", name+": changes what is there", pos, st, "%s stores a log without reading what is there", name)
					if !(ok && len(t.V) == 2) {
						return nil
					}
					r.Check(same(st, created, t.V[0], "CreatedAt"), "stored", name+": CreatedAt", pos, st, "%s changes the time the log was created: %s", name, created)
					r.Check(same(st, id, t.V[0], "ID") || id == t.V[1], "stored", name+": ID", pos, st, "%s changes the ID of the log: %s", name, id)
					if root.Name() == "UpdateLog" {
						r.Check(st.IsNil(req) || ofParam(tags, req, "Tags"), "stored", name+": Tags", pos, st, "%s does not store the tags of the request: %s", name, tags)
						r.Check(ofParam(t.V[1], req, "ID"), "stored", name+": which", pos, st, "%s changes another log than the one of the request", name)
					} else {
						r.Check(same(st, tags, t.V[0], "Tags"), "stored", name+": Tags", pos, st, "%s changes the tags of the log: %s", name, tags)
					}
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				cv.after(st, c, rets)
				if c.Name() == "builtin.append" && len(c.Args) > 1 {
					for _, x := range st.VarArgs(c.Args[1]) {
						if elemKey(x.Typ) == lfs+".ChunkInfo" {
							st.Del("unlisted")
						}
					}
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				if st.IsNonNil(rets[len(rets)-1]) {
					return
				}
				switch root.Name() {
				case "UpsertChunkInfos":
					r.Check(v.done(st, e.In.Param(root, 3)), "stored", name+": every chunk", pos, st, "%s does not store all the chunks it was given", name)
				case "CreateLog", "UpdateLog":
					x := lib.Strip(rets[0])
					good, bad := false, "log"
					for _, k := range st.KeysPrefix("json:") {
						m := st.TS[k]
						good = true
						for i, f := range logFields {
							if lib.Strip(resultField(st, x, f)) != m.V[2+i] {
								good, bad = false, f
							}
						}
					}
					r.Check(good, "given-back", name, pos, st, "%s: the %s it gives back is not the one it has stored", name, bad)
				case "GetLogByID":
					x := lib.Strip(rets[0])
					t, ok := st.TS["read"]
					ok = ok && len(t.V) == 2 && t.V[1] == e.In.Param(root, 2)
					r.Check(ok, "given-back", name+": which", pos, st, "%s does not read the log it is asked for", name)
					if ok {
						for _, f := range logFields {
							r.Check(same(st, lib.Strip(resultField(st, x, f)), t.V[0], f), "given-back", name+": "+f, pos, st, "%s: the %s of the log is not the one that was read", name, f)
						}
					}
				case "GetLastChunk":
					t, ok := st.TS["read"]
					src, bad := cv.elem(st, lib.Strip(rets[0]))
					r.Check(ok && src != nil && bad == "" && entrySym(src) == t.V[0], "given-back", name, pos, st, "%s: the %s of the chunk is not the one that was read", name, bad)
				}
			},
		}
	}
	j.Do(nil)
	r.Floor("stored", 14)
	r.Floor("given-back", 8)
}
