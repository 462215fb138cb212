package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

const cacheP = "pkg/storage/cache"

// ecache decides the protocol of the value caches.
func ecache(p *lib.Prog, r *lib.Report) {
	tk := lruP + ".ECache"
	ro := roles(p, r, lruP, "ECache", map[string]func(types.Type) bool{
		"items":    func(t types.Type) bool { return lib.TypeKey(t) == mapK },
		"inflight": mapOf(isChanT),
		"maxSize":  isIntT,
		"createNewF": func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Signature)
			return ok && s.Results().Len() == 2
		},
	})
	if ro == nil {
		return
	}
	var roots []*ssa.Function
	for _, f := range p.Roots(lruP) {
		if f.Signature.Recv() != nil && lib.TypeKey(f.Params[0].Type()) == tk {
			roots = append(roots, f)
		}
	}
	read := func(v ssa.Value, role string) bool { return fieldRead(v, tk, ro[role]) }
	j := &lib.Job{P: p, R: r, Roots: roots, NoInline: func(root, f *ssa.Function) bool { return lib.PkgOf(f) != lruP }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		nres := root.Signature.Results().Len()
		creates := nres == 2
		self := e.In.Param(root, 0)
		load := func(st *eng.State, role string) *eng.Val {
			return st.Load(e.In.Node(eng.KField, 0, ro[role], nil, self), fieldType(root.Params[0].Type(), ro[role]))
		}
		known := func(st *eng.State, v *eng.Val, want bool) bool {
			b, ok := st.Eval(v)
			return ok && b == want
		}
		// own: it was looked up after the creation that it is still registered
		own := func(st *eng.State, want bool) bool {
			i, ok := st.TS["infl"]
			t, ok2 := st.TS["chk"]
			return ok && ok2 && known(st, e.Eq(t.V[0], i.V[1]), want)
		}
		return eng.Hooks{
			Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if read(x.Map, "inflight") {
						st.Set("infl", "", e.Env(st, fr, x.Key), e.Env(st, fr, x.Value))
					}
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind == eng.CKDefer {
					return nil
				}
				switch c.Name() {
				case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
					st.Set("locked", "")
					st.Del("chk")
					return nil
				case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
					st.Del("locked")
					return nil
				case "builtin.close":
					if t, ok := st.TS["infl"]; ok && t.V[1] == c.Args[0] {
						st.Set("inflclosed", "")
					}
					return nil
				case "builtin.clear":
					if read(c.Common.Args[0], "inflight") {
						st.Set("cleared", "")
					}
				case "builtin.delete":
					if !read(c.Common.Args[0], "inflight") {
						return nil
					}
					if st.Has("created") {
						r.Check(own(st, true), "stale-creation-dropped", name, c.Pos(), st, "%s removes the registration of the key although it may belong to a newer creation", name)
						st.Set("infldel", "")
					} else {
						st.Set("invalid", "", c.Args[1])
					}
				}
				switch m := mapCall(c); m {
				case "Add":
					if st.Has("created") {
						t, i := st.TS["created"], st.TS["infl"]
						r.Check(st.IsNil(t.V[1]), "only-created-cached", name, c.Pos(), st, "%s caches a value which creation failed", name)
						r.Check(own(st, true) && i.V != nil && i.V[0] == c.Args[1], "stale-creation-dropped", name, c.Pos(), st, "%s caches a value although its key may have been removed while the value was being created: the stale value is returned forever", name)
						st.Set("added", "", c.Args[1])
						st.Del("len")
					}
					return &eng.Result{Opaque: true}
				case "Remove":
					if t, ok := st.TS["first"]; ok && t.V[0] == c.Args[1] {
						st.Set("evicted", "")
					}
					st.Set("removed", "", c.Args[1])
					return &eng.Result{Opaque: true}
				case "":
				default:
					return &eng.Result{Opaque: true}
				}
				if c.Fn == nil && !c.Common.IsInvoke() && read(c.Common.Value, "createNewF") {
					r.Check(st.Has("infl") && !st.Has("created") && !st.Has("locked"), "creation-registered", name, c.Pos(), st, "%s must register the creation of the value before and release the lock for it", name)
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if c.Kind == eng.CKDefer {
					return
				}
				switch mapCall(c) {
				case "First":
					st.Set("first", "", rets[0])
				case "Len":
					st.Set("len", "", rets[0])
				case "Get":
					st.Set("got", "", c.Args[1], rets[0], rets[1])
				}
				if c.Fn == nil && !c.Common.IsInvoke() && read(c.Common.Value, "createNewF") && len(rets) == 2 {
					st.Set("created", "", rets[0], rets[1])
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				switch {
				case creates && st.Has("created"):
					t := st.TS["created"]
					r.Check(st.Has("inflclosed"), "creation-unregistered", name, pos, st, "%s does not wake up who waits for the value it has created", name)
					r.Check(st.Has("infldel") || own(st, false), "creation-unregistered", name, pos, st, "%s leaves its creation registered: the key can never be read again", name)
					r.Check(st.IsNil(t.V[1]) || rets[1] == t.V[1] || st.IsNonNil(rets[1]), "creation-error-returned", name, pos, st, "%s hides the creation error", name)
					r.Check(!st.IsNil(rets[1]) || rets[0] == t.V[0], "returned-is-created", name, pos, st, "%s returns another value than the created one", name)
					if st.Has("added") {
						l, ok := st.TS["len"]
						fits := ok && (known(st, e.Less(load(st, "maxSize"), l.V[0]), false) || known(st, e.Less(l.V[0], load(st, "maxSize")), true))
						r.Check(st.Has("evicted") || fits, "cache-bounded", name, pos, st, "%s adds a value without keeping the cache within its size", name)
					}
				case creates:
					t, ok := st.TS["got"]
					r.Check(ok && (known(st, t.V[2], true) || st.IsNonNil(rets[1])), "hit-found", name, pos, st, "%s returns a value that was neither found nor created", name)
				case nres == 1 && len(root.Params) == 2: // Remove
					t, ok := st.TS["invalid"]
					r.Check(ok, "removal-invalidates-creation", name, pos, st, "%s does not invalidate the value which is being created for the key: a stale value is cached after the removal", name)
					g, okG := st.TS["got"]
					if ok && okG && known(st, g.V[2], true) {
						rm, okR := st.TS["removed"]
						r.Check(okR && rm.V[0] == t.V[0] && g.V[0] == t.V[0], "removed", name, pos, st, "%s leaves the value of the removed key cached", name)
					} else if ok && !okG {
						rm, okR := st.TS["removed"]
						r.Check(okR && rm.V[0] == t.V[0], "removed", name, pos, st, "%s leaves the value of the removed key cached", name)
					}
				case nres == 1: // Clear
					r.Check(st.Has("cleared") || st.Has("invalid"), "removal-invalidates-creation", name, pos, st, "%s does not invalidate the values which are being created", name)
				}
			},
		}
	}
	// the registration is looked up again after the creation
	base := j.Hooks
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		h := base(e, root)
		instr := h.Instr
		h.Instr = func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
			instr(st, fr, in)
			lk, ok := in.(*ssa.Lookup)
			if ok && read(lk.X, "inflight") && st.Has("created") && st.Has("locked") {
				t := lk.Type()
				if tu, isT := t.(*types.Tuple); isT {
					t = tu.At(0).Type()
				}
				st.Set("chk", "", e.In.Sym(fr.Ctx, lk, "#0", t))
			}
		}
		return h
	}
	j.Do(nil)
}

// cachedStorage decides that whatever changes the stored metadata removes it
// from the caches afterwards.
func cachedStorage(p *lib.Prog, r *lib.Report) {
	isCache := func(elem func(types.Type) bool) func(types.Type) bool {
		return func(t types.Type) bool {
			if lib.TypeKey(t) != lruP+".Cache" && lib.TypeKey(t) != lruP+".ECache" {
				return false
			}
			n, ok := deref(t).(*types.Named)
			if !ok || n.TypeArgs().Len() == 0 {
				return false
			}
			return elem(n.TypeArgs().At(n.TypeArgs().Len() - 1))
		}
	}
	isSlice := func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
	ro := roles(p, r, cacheP, "CachedStorage", map[string]func(types.Type) bool{
		"logsCache":   isCache(isPtr),
		"chunksCache": isCache(isSlice),
	})
	if ro == nil {
		return
	}
	var roots []*ssa.Function
	for _, f := range p.Roots(cacheP) {
		roots = append(roots, f)
	}
	removeOf := func(c *eng.Call) (role string, key *eng.Val) {
		if c.Fn == nil || c.Fn.Name() != "Remove" || len(c.Args) != 2 {
			return
		}
		for i, a := range c.Args[:1] {
			_ = i
			a.Walk(func(x *eng.Val) bool {
				if x.K == eng.KField || x.K == eng.KFld {
					for k, n := range ro {
						if x.Name == n {
							role = k
						}
					}
				}
				return role == ""
			})
		}
		return role, c.Args[1]
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoInline: func(root, f *ssa.Function) bool { return lib.PkgOf(f) != cacheP }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		isIDs := func(v *eng.Val) bool {
			return (v.K == eng.KLoad && v.Args[0].K == eng.KField || v.K == eng.KFld) && strings.HasSuffix(v.String(), "DeletedIDs")
		}
		endIter := func(st *eng.State, pos token.Pos) {
			if st.Has("iter") {
				for role := range ro {
					done := false
					for _, k := range st.KeysPrefix("rm:" + role + ":") {
						v := st.TS[k].V[0]
						done = done || v.K == eng.KLoad && v.Args[0].K == eng.KIndex && isIDs(v.Args[0].Args[0]) || v.K == eng.KIdx && isIDs(v.Args[0])
						st.Del(k)
					}
					r.Check(done, "deleted-invalidated", name+": "+role, pos, st, "%s keeps a deleted log in %s: it is still served", name, ro[role])
				}
				st.Del("iter")
			}
		}
		return eng.Hooks{
			Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
				c := cond
				neg := false
				for c.K == eng.KUn && c.Op == token.NOT {
					c, neg = c.Args[0], !neg
				}
				if c.K == eng.KBin && c.Op == token.LSS && c.Args[1].K == eng.KLen && isIDs(c.Args[1].Args[0]) {
					endIter(st, eng.InstrPos(in))
					if taken == neg {
						st.Set("exhausted", "")
					} else {
						st.Set("iter", "")
					}
				}
				if c.K == eng.KBin && c.Op == token.EQL && c.Args[0].K == eng.KLen && isIDs(c.Args[0].Args[0]) && taken != neg {
					st.Set("exhausted", "")
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind == eng.CKDefer {
					return nil
				}
				if role, k := removeOf(c); role != "" {
					st.Set("rm:"+role+":"+itoa(k.ID), "", k)
					if c.Fn != nil {
						return &eng.Result{Opaque: true}
					}
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if !c.Common.IsInvoke() {
					return
				}
				n := c.Common.Method.Name()
				er := lib.ErrRet(c, rets)
				if er == nil {
					return
				}
				switch n {
				case "UpdateLog", "DeleteLogs", "UpsertChunkInfos":
					// only what is removed afterwards counts
					for _, k := range st.KeysPrefix("rm:") {
						st.Del(k)
					}
					st.Set("mut", n, append([]*eng.Val{er}, append(append([]*eng.Val{}, c.Args...), rets...)...)...)
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				endIter(st, pos)
				t, ok := st.TS["mut"]
				if !ok || st.IsNonNil(t.V[0]) {
					return
				}
				has := func(role string, match func(k *eng.Val) bool) bool {
					for _, k := range st.KeysPrefix("rm:" + role + ":") {
						if match(st.TS[k].V[0]) {
							return true
						}
					}
					return false
				}
				switch t.S {
				case "UpdateLog":
					id := func(k *eng.Val) bool {
						return (k.K == eng.KLoad && k.Args[0].K == eng.KField && k.Args[0].Name == "ID" || k.K == eng.KFld && k.Name == "ID")
					}
					r.Check(has("logsCache", id), "changed-invalidated", name, pos, st, "%s changes a log in the storage but leaves the old one in the cache", name)
				case "UpsertChunkInfos":
					r.Check(has("chunksCache", func(k *eng.Val) bool {
						for _, a := range t.V[1:] {
							if a == k {
								return true
							}
						}
						return false
					}), "changed-invalidated", name, pos, st, "%s changes the chunks of a log in the storage but leaves the old ones in the cache", name)
				case "DeleteLogs":
					r.Check(st.Has("exhausted"), "deleted-invalidated", name, pos, st, "%s does not go through all the deleted logs to forget them", name)
				}
			},
		}
	}
	j.Do(nil)

	// the chunks are kept ordered, and the last of them is the last one
	sorted := false
	for _, f := range p.InPkg(cacheP) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				n := lib.CallName(in)
				if !strings.HasPrefix(n, "sort.") && !strings.HasPrefix(n, "slices.Sort") {
					continue
				}
				sorted = true
				c := in.(ssa.CallInstruction).Common()
				if len(c.Args) < 2 {
					continue
				}
				var cl *ssa.Function
				switch x := c.Args[1].(type) {
				case *ssa.MakeClosure:
					cl, _ = x.Fn.(*ssa.Function)
				case *ssa.Function:
					cl = x
				}
				if cl == nil || len(cl.Params) != 2 {
					continue
				}
				if asc, decided := ascending(p, cl, "ID"); decided {
					r.Check(asc, "chunks-ordered", lib.Name(lib.Outer(f)), in.Pos(), nil, "the cached chunks are not sorted in the ascending order of their IDs")
				}
			}
		}
	}
	if !sorted {
		r.Bad("chunks-ordered", cacheP, token.NoPos, nil, "the cached chunks are not sorted: the last of them may not be the last chunk of the log")
	}
	lastChunk(p, r)
}

// ascending evaluates a comparison function: true when it orders its elements
// by the first parameter being less.
func ascending(p *lib.Prog, cl *ssa.Function, field string) (asc, decided bool) {
	e := eng.New(p.SSA)
	free := make([]*eng.Val, len(cl.FreeVars))
	for i := range free {
		free[i] = e.In.Free(cl, i)
	}
	args := []*eng.Val{e.In.Param(cl, 0), e.In.Param(cl, 1)}
	_, rets := e.RunWith(cl, args, free, e.NewState())
	if len(rets) != 1 || len(rets[0]) != 1 {
		return
	}
	v, neg := rets[0][0], false
	for v.K == eng.KUn && v.Op == token.NOT {
		v, neg = v.Args[0], !neg
	}
	if v.K == eng.KBin && v.Op == token.LSS || v.K == eng.KCall && (v.Name == "strings.Compare" || v.Name == "cmp.Compare" || v.Name == "(time.Time).Before" || v.Name == "(time.Time).After" || v.Name == "(time.Time).Compare") {
		a, b := v.Args[0], v.Args[1]
		if v.Name == "(time.Time).After" && v.K == eng.KCall {
			a, b = b, a
		}
		for _, x := range v.Args {
			if by := fieldOfVal(x); by != "" && by != field {
				return false, true // by something else
			}
		}
		if a.Contains(args[0]) && b.Contains(args[1]) {
			return !neg, true
		}
		if a.Contains(args[1]) && b.Contains(args[0]) {
			return neg, true
		}
	}
	return
}

// fieldOfVal: the field the value was read from, if it is a plain read.
func fieldOfVal(v *eng.Val) string {
	for v.K == eng.KConv {
		v = v.Args[0]
	}
	if v.K == eng.KFld {
		return v.Name
	}
	if v.K == eng.KLoad && v.Args[0].K == eng.KField {
		return v.Args[0].Name
	}
	return ""
}

func lastChunk(p *lib.Prog, r *lib.Report) {
	for _, f := range p.Roots(cacheP) {
		if f.Name() != "GetLastChunk" {
			continue
		}
		j := &lib.Job{P: p, R: r, Roots: []*ssa.Function{f}, NoInline: func(root, f *ssa.Function) bool { return lib.PkgOf(f) != cacheP }}
		j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
			return eng.Hooks{Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				if len(rets) != 2 || st.IsNonNil(rets[1]) {
					return
				}
				rets[0].Walk(func(x *eng.Val) bool {
					if x.K == eng.KIndex || x.K == eng.KIdx {
						d := lib.Linear(x.Args[1]).Sub(lib.Linear(st.Len(x.Args[0])))
						r.Check(d.IsConst() && d.C == -1, "last-chunk", lib.Name(root), eng.InstrPos(in), st, "%s must return the last of the ordered chunks", lib.Name(root))
						return false
					}
					return true
				})
			}}
		}
		j.Do(nil)
	}
}

// cachedImmutable checks that nobody changes the objects the caches hand out.
func cachedImmutable(p *lib.Prog, r *lib.Report) {
	getters := lib.NameSet("(pkg/storage.Logs).GetLogByID", "(pkg/storage/logfs.LogsMetaStorage).GetChunks")
	var src []ssa.Value
	n := 0
	for _, f := range p.Funcs {
		if strings.HasSuffix(p.File(f), "_test.go") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !(getters(lib.CallName(in)) || strings.HasPrefix(lib.CallName(in), "(*"+lruP+".ECache") && strings.HasSuffix(lib.CallName(in), ".GetOrCreate") && lib.PkgOf(f) == cacheP) {
					continue
				}
				if c.Call.IsInvoke() && lib.PkgOf(f) == cacheP {
					continue // a value the cache has just got from the storage
				}
				n++
				r.Ok("cached-unchanged", lib.Name(f), in.Pos())
				for _, ref := range *c.Referrers() {
					if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 {
						src = append(src, ex)
					}
				}
			}
		}
	}
	bad := func(f *ssa.Function, in ssa.Instruction) {
		r.Bad("cached-unchanged", lib.Name(f), eng.InstrPos(in), nil, "%s changes an object it got from the cache: everybody else sees the change, and it is lost when the cache forgets the object", lib.Name(f))
	}
	var written func(a ssa.Value, d int) ssa.Instruction
	written = func(a ssa.Value, d int) ssa.Instruction {
		if a.Referrers() == nil || d > 4 {
			return nil
		}
		for _, ref := range *a.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Addr == a {
					return x
				}
			case *ssa.FieldAddr:
				if w := written(x, d+1); w != nil {
					return w
				}
			case *ssa.IndexAddr:
				if w := written(x, d+1); w != nil {
					return w
				}
			case *ssa.UnOp: // a container loaded from the object
				if x.Op != token.MUL {
					continue
				}
				for _, r2 := range *x.Referrers() {
					switch y := r2.(type) {
					case *ssa.MapUpdate:
						if y.Map == ssa.Value(x) {
							return y
						}
					case *ssa.Call:
						if b, ok := y.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && y.Call.Args[0] == ssa.Value(x) {
							return y
						}
					}
				}
			}
		}
		return nil
	}
	t := &lib.Taint{P: p,
		Pass: func(f *ssa.Function, in ssa.Instruction, arg ssa.Value) bool {
			if c, ok := in.(*ssa.Call); ok {
				if b, isB := c.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" && c.Call.Args[0] == arg {
					return true
				}
			}
			return false
		},
		Sink: func(f *ssa.Function, in ssa.Instruction, arg ssa.Value) {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if isPtr(arg.Type()) {
					if w := written(x, 0); w != nil {
						bad(f, w)
					}
				}
			case *ssa.IndexAddr:
				if _, ok := arg.Type().Underlying().(*types.Slice); ok && x.X == arg {
					if w := written(x, 0); w != nil {
						bad(f, w)
					}
				}
			case *ssa.Store:
				if x.Addr == arg && isPtr(arg.Type()) {
					if _, isAlloc := arg.(*ssa.Alloc); !isAlloc {
						bad(f, in)
					}
				}
			case *ssa.Call:
				n := lib.CallName(in)
				if _, ok := arg.Type().Underlying().(*types.Slice); !ok && !strings.HasPrefix(n, "sort.") {
					return
				}
				b, isB := x.Call.Value.(*ssa.Builtin)
				switch {
				case isB && (b.Name() == "append" || b.Name() == "copy" || b.Name() == "clear") && x.Call.Args[0] == arg:
					bad(f, in)
				case strings.HasPrefix(n, "sort.") && !strings.HasPrefix(n, "sort.Search") && !strings.HasSuffix(n, "IsSorted"),
					strings.HasPrefix(n, "slices.Sort"), n == "slices.Reverse", n == "slices.Insert", strings.HasPrefix(n, "slices.Delete"), strings.HasPrefix(n, "slices.Compact"):
					if x.Call.Args[0] == arg {
						bad(f, in)
					}
				}
			}
		},
		Stop: func(v ssa.Value) bool {
			// what the cache gets from the storage is not shared yet
			ex, ok := v.(*ssa.Extract)
			if !ok {
				return false
			}
			c, ok := ex.Tuple.(*ssa.Call)
			return ok && c.Call.IsInvoke() && lib.PkgOf(c.Parent()) == cacheP
		},
		Block: func(f *ssa.Function) bool { return strings.HasSuffix(p.File(f), "_test.go") },
	}
	t.Run(src)
	for f := range t.Visited {
		r.AddFunc(f)
	}
}

func init() {
	register("C10", func(p *lib.Prog, r *lib.Report) {
		ecache(p, r)
		cachedStorage(p, r)
		cachedImmutable(p, r)
		r.Floor("stale-creation-dropped", 1)
		r.Floor("changed-invalidated", 2)
		r.Floor("deleted-invalidated", 2)
		r.Floor("cached-unchanged", 3)
	}, "")
	_ = token.NoPos
}
