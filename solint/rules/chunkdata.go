package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

const mmT = "(*golibs/files.MMFile)."

// mmapWrites: calls that write into their first argument.
var writesFirst = lib.NameSet("builtin.copy", "builtin.clear", "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64",
	"(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64")

func isMMWrite(n string) (int, bool) {
	if n == "builtin.copy" || n == "builtin.clear" {
		return 0, true
	}
	if strings.HasPrefix(n, "(encoding/binary.") && strings.Contains(n, ").Put") {
		return 1, true
	}
	return 0, false
}

// chunkData walks the methods of Chunk and ChunkReader with the memory mapping
// kept symbolic.
func chunkData(p *lib.Prog, r *lib.Report, on func(rule string) bool) {
	ct := p.Named(cfs, "Chunk")
	if ct == nil {
		r.Bad("anchor", "Chunk", token.NoPos, nil, "type not found")
		return
	}
	cst := ct.Underlying().(*types.Struct)
	lockF := fieldOfType(cst, "lock", isMutex)
	mmF := fieldOfType(cst, "mmf", func(t types.Type) bool { return strings.HasSuffix(t.String(), "files.MMFile") })
	if lockF == "" || mmF == "" {
		r.Bad("anchor", "Chunk", token.NoPos, nil, "the lock or the mapped file is not there")
		return
	}
	counters := map[string]bool{}
	for i := 0; i < cst.NumFields(); i++ {
		if f := cst.Field(i); isIntT(f.Type()) {
			counters[f.Name()] = true
		}
	}
	isChunkField := func(a *eng.Val) bool {
		if a.K != eng.KField || !(a.Name == mmF || counters[a.Name]) {
			return false
		}
		t := a.Args[0].Typ
		return t != nil && strings.HasSuffix(deref(t).String(), "chunkfs.Chunk")
	}
	isChunkLock := func(a *eng.Val) bool {
		if a.K != eng.KField || a.Name != lockF {
			return false
		}
		t := a.Args[0].Typ
		return t != nil && strings.HasSuffix(deref(t).String(), "chunkfs.Chunk")
	}
	var roots []*ssa.Function
	for _, tn := range []string{"Chunk", "ChunkReader"} {
		for _, f := range p.Methods(cfs, tn) {
			if tn == "ChunkReader" || f.Object().Exported() || f.Name() == "isOpened" {
				roots = append(roots, f)
			}
		}
	}
	appendFn, openFn := r.Need(chkT+"AppendRecords"), r.Need(chkT+"OpenChunkReader")
	r.Need(chkT + "Open")
	if appendFn == nil || openFn == nil {
		return
	}
	const rdr = "(*pkg/storage/chunkfs.ChunkReader)."
	j := &lib.Job{P: p, R: r, Roots: roots, NoInline: func(root, f *ssa.Function) bool {
		k := lib.PkgOf(f)
		return k == "golibs/files" || k == "golibs/ulidutils" || k == "golibs/logging"
	}}
	j.Init = func(e *eng.Engine, root *ssa.Function, st *eng.State) {
		if strings.HasPrefix(lib.Name(root), rdr) {
			st.Set("lk", "r")
		}
		st.Set("ep", "0")
	}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		isReader := strings.HasPrefix(name, rdr)
		bufOf := func(st *eng.State, v *eng.Val) (eng.TS, bool) {
			var t eng.TS
			ok := false
			v.Walk(func(x *eng.Val) bool {
				if t2, has := st.TS["buf:"+itoa(x.ID)]; has {
					t, ok = t2, true
				}
				// do not look into indexes
				return !ok && (x.K == eng.KSlice || x.K == eng.KIndex || x.K == eng.KConv || x == v)
			})
			return t, ok
		}
		chk := func(ok bool, rule string, pos token.Pos, st *eng.State, f string, a ...any) {
			if on(rule) {
				r.Check(ok, rule, name, pos, st, f, a...)
			}
		}
		origin := func(f string, ty types.Type, base *eng.Val) *eng.Val {
			return e.In.Node(eng.KLoad, 0, "", ty, e.In.Node(eng.KField, 0, f, nil, base))
		}
		_ = origin
		sizeOf := func(x *eng.Val, ep string) bool {
			f := false
			x.Walk(func(y *eng.Val) bool {
				if y.K == eng.KSym && y.Name == "mmfsize:"+ep {
					f = true
				}
				return !f
			})
			return f
		}
		hasField := func(x *eng.Val, pred func(n string) bool) bool {
			f := false
			x.Walk(func(y *eng.Val) bool {
				if y.K == eng.KLoad && y.Args[0].K == eng.KField && pred(y.Args[0].Name) {
					f = true
				}
				return !f
			})
			return f
		}
		wrote := func(st *eng.State, dst *eng.Val, val *eng.Val, pos token.Pos) {
			t, ok := bufOf(st, dst)
			if !ok {
				return
			}
			chk(st.Get("lk") == "w", "mapping-changed-under-write-lock", pos, st, "the mapped file is written without the chunk's write lock")
			if name == chkT+"Open" {
				fresh := st.AnyFact(func(f *eng.Val, b bool) bool { return !b && f.K == eng.KCall && f.Name == "bytes.Equal" })
				chk(fresh, "open-does-not-rewrite", pos, st, "opening a chunk writes into its file although the file was not seen to lack the format header")
				return
			}
			if isReader || name == chkT+"OpenChunkReader" || name == chkT+"Close" {
				chk(false, "read-path-does-not-write", pos, st, "%s writes into the mapped file", name)
				return
			}
			chk(!st.Has("pub"), "published-last", pos, st, "the mapped file is written after the records counter in the header was published: a crash in between exposes records that are not written")
			if _, hdr := eng.ConstInt(t.V[1]); hdr || constLen(t.V[1]) {
				if val == nil {
					chk(false, "published-value", pos, st, "the header is overwritten with something else than the records counter")
					return
				}
				st.Set("pub", "", lib.Strip(val))
			} else {
				st.Set("wr", "")
				room := st.Has("fits") || st.Has("grown") && st.Has("maxok")
				chk(room, "room-ensured", pos, st, "records are written although the chunk was not seen to have room for them (or to be allowed to grow to it)")
			}
		}
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				n := c.Name()
				if c.Kind == eng.CKGo {
					return nil
				}
				if c.Kind == eng.CKDefer {
					return nil
				}
				switch n {
				case "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock":
					if isChunkLock(c.Args[0]) {
						chk(!st.Has("lk"), "lock-balanced", c.Pos(), st, "the chunk lock is taken twice")
						st.Set("lk", "w")
					}
				case "(*sync.RWMutex).RLock":
					if isChunkLock(c.Args[0]) {
						chk(!st.Has("lk"), "lock-balanced", c.Pos(), st, "the chunk lock is taken twice")
						st.Set("lk", "r")
					}
				case "(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock":
					if isChunkLock(c.Args[0]) {
						chk(st.Get("lk") == "w", "lock-balanced", c.Pos(), st, "releases a write lock it does not hold")
						st.Del("lk")
					}
				case "(*sync.RWMutex).RUnlock":
					if isChunkLock(c.Args[0]) {
						chk(st.Get("lk") == "r", "lock-balanced", c.Pos(), st, "releases a read lock it does not hold")
						st.Del("lk")
					}
				case "golibs/files.NewMMFile":
					res := c.Common.Signature().Results()
					v, ev := e.In.Sym(c.Frame.Ctx, c.Instr.(ssa.Value), "mm", res.At(0).Type()), e.In.Sym(c.Frame.Ctx, c.Instr.(ssa.Value), "err", res.At(1).Type())
					return &eng.Result{Outcomes: []eng.Outcome{
						{Rets: []*eng.Val{v, e.In.Nil()}, Do: func(s *eng.State) { s.Assume(e.Eq(v, e.In.Nil()), false) }},
						{Rets: []*eng.Val{e.In.Nil(), ev}, Do: func(s *eng.State) { s.Assume(e.Eq(ev, e.In.Nil()), false) }},
					}}
				case mmT + "Size":
					chk(st.Has("lk"), "mapping-under-lock", c.Pos(), st, "the mapped file is used without the chunk lock")
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.NamedSym("mmfsize:"+st.Get("ep"), types.Typ[types.Int64])}}}}
				case mmT + "Buffer":
					chk(st.Has("lk"), "mapping-under-lock", c.Pos(), st, "the mapped file is used without the chunk lock")
					if !isReader {
						chk(st.IsNonNil(c.Args[0]), "closed-chunk-refused", c.Pos(), st, "the mapped file is used although the chunk may be closed")
					}
					return &eng.Result{Opaque: true}
				case mmT + "Grow":
					chk(st.Get("lk") == "w", "mapping-changed-under-write-lock", c.Pos(), st, "the mapped file is re-mapped without the chunk's write lock")
					chk(!st.Has("wr") && !st.Has("pub"), "published-last", c.Pos(), st, "the file is re-mapped in the middle of an append")
					a := c.Args[1]
					isMax := func(v *eng.Val) bool {
						return v.K == eng.KLoad && v.Args[0].K == eng.KField && v.Args[0].Name == "MaxChunkSize"
					}
					ok := isMax(a) || a.K == eng.KCall && a.Name == "min" && (isMax(a.Args[0]) || isMax(a.Args[1])) ||
						st.AnyFact(func(f *eng.Val, b bool) bool {
							return !b && f.K == eng.KBin && f.Op == token.LSS && isMax(f.Args[0]) && f.Args[1] == a ||
								b && f.K == eng.KBin && f.Op == token.LSS && isMax(f.Args[1]) && f.Args[0] == a
						})
					chk(ok, "growth-bounded", c.Pos(), st, "the chunk grows to %s, which is not known to be within MaxChunkSize", a)
					errT := types.Universe.Lookup("error").Type()
					ev := e.In.Sym(c.Frame.Ctx, c.Instr.(ssa.Value), "err", errT)
					return &eng.Result{Outcomes: []eng.Outcome{
						{Rets: []*eng.Val{e.In.Nil()}, Do: func(s *eng.State) { s.Set("ep", "1"); s.Set("grown", "") }},
						{Rets: []*eng.Val{ev}, Do: func(s *eng.State) { s.Assume(e.Eq(ev, e.In.Nil()), false) }},
					}}
				case mmT + "Close":
					chk(st.Get("lk") == "w", "mapping-changed-under-write-lock", c.Pos(), st, "the mapped file is closed without the chunk's write lock")
					st.Set("mmclosed", "")
					return &eng.Result{Opaque: true}
				}
				if k, ok := isMMWrite(n); ok && k < len(c.Args) {
					var v *eng.Val
					if k == 1 {
						v = c.Args[2]
					}
					if n == "builtin.copy" {
						d, ok1 := bufOf(st, c.Args[0])
						s, ok2 := bufOf(st, c.Args[1])
						if ok1 && ok2 && st.Has("grown") {
							good := sizeOf(s.V[1], "0") && !sizeOf(s.V[1], "1") && sizeOf(d.V[1], "1") && !sizeOf(d.V[1], "0") && s.V[2] == d.V[2] && hasField(s.V[2], func(n string) bool { return counters[n] })
							chk(good, "records-index-moved", c.Pos(), st, "after the chunk grew the records index is not moved as a whole from the old end of the file to the new one")
							if good {
								st.Set("moved", "")
							}
							return nil
						}
					}
					wrote(st, c.Args[k], v, c.Pos())
				}
				return nil
			},
			Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
				for cond.K == eng.KUn && cond.Op == token.NOT {
					cond, taken = cond.Args[0], !taken
				}
				if cond.K != eng.KBin || cond.Op != token.LSS || taken {
					return
				}
				a, b := cond.Args[0], cond.Args[1]
				isCnt := func(n string) bool { return counters[n] }
				if sizeOf(a, "0") && hasField(a, isCnt) { // !(available < needed)
					st.Set("fits", "")
				}
				if hasField(a, func(n string) bool { return n == "MaxChunkSize" }) && hasField(b, isCnt) { // !(max < size after the write)
					st.Set("maxok", "")
				}
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if c.Name() == mmT+"Buffer" {
					st.Set("buf:"+itoa(rets[0].ID), "", rets[0], c.Args[1], c.Args[2], rets[1])
				}
			},
			Load: func(st *eng.State, fr *eng.Frame, a *eng.Val, in ssa.Instruction) {
				if isChunkField(a) && a.Args[0].K != eng.KAlloc {
					chk(st.Has("lk"), "mapping-under-lock", eng.InstrPos(in), st, "chunk field %s is read without the chunk lock", a.Name)
				}
			},
			Store: func(st *eng.State, fr *eng.Frame, a, v *eng.Val, in ssa.Instruction) {
				if isChunkField(a) && a.Args[0].K != eng.KAlloc {
					chk(st.Get("lk") == "w", "mapping-changed-under-write-lock", eng.InstrPos(in), st, "chunk field %s is changed without the chunk's write lock", a.Name)
					if counters[a.Name] && !st.Has("old:"+a.Name) {
						st.Set("old:"+a.Name, "", a, st.Load(a, deref(in.(*ssa.Store).Addr.Type())))
					}
					if a.Name == mmF && st.IsNil(v) && !st.IsNil(st.Load(a, deref(in.(*ssa.Store).Addr.Type()))) {
						chk(st.Has("mmclosed"), "unmapped-before-dropped", eng.InstrPos(in), st, "the mapped file is dropped without being closed")
					}
				}
				if a.K == eng.KIndex {
					if _, ok := bufOf(st, a.Args[0]); ok {
						wrote(st, a, nil, eng.InstrPos(in))
					}
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				var err *eng.Val
				if n := len(rets); n > 0 && root.Signature.Results().At(n-1).Type().String() == "error" {
					err = rets[n-1]
				}
				okExit := err == nil || st.IsNil(err)
				switch {
				case name == chkT+"OpenChunkReader":
					if okExit {
						chk(st.Get("lk") == "r", "reader-holds-lock", root.Pos(), st, "a reader is handed out without the chunk's read lock: an append or close may re-map the memory under it")
					} else {
						chk(!st.Has("lk"), "lock-balanced", root.Pos(), st, "OpenChunkReader fails but keeps the chunk locked")
					}
				case name == rdr+"Close":
					chk(!st.Has("lk"), "lock-balanced", root.Pos(), st, "closing a reader does not release the chunk")
				case isReader:
					chk(st.Get("lk") == "r", "lock-balanced", root.Pos(), st, "%s releases the chunk while the reader stays in use", name)
				default:
					chk(!st.Has("lk"), "lock-balanced", root.Pos(), st, "%s returns with the chunk locked", name)
				}
				switch name {
				case chkT + "AppendRecords":
					if !okExit {
						chk(!st.Has("pub"), "failed-append-changes-nothing", root.Pos(), st, "AppendRecords fails after the records counter was published")
						for _, k := range st.KeysPrefix("old:") {
							t := st.TS[k]
							now := st.Load(t.V[0], t.V[1].Typ)
							chk(now == t.V[1], "failed-append-changes-nothing", root.Pos(), st, "AppendRecords fails but leaves %s changed: the next append starts from a wrong position", t.V[0])
						}
						chk(true, "failed-append-changes-nothing", root.Pos(), st, "")
						return
					}
					if st.Has("grown") {
						empty := st.AnyFact(func(f *eng.Val, b bool) bool {
							if f.K != eng.KBin || !hasField(f, func(n string) bool { return counters[n] }) {
								return false
							}
							n, isC := eng.ConstInt(f.Args[1])
							return isC && n == 0 && f.Op == token.EQL && b
						})
						chk(empty || st.Has("moved"), "records-index-moved", root.Pos(), st, "the chunk grew but its records index was not moved to the new end of the file")
					}
					if !st.Has("wr") && len(st.KeysPrefix("old:")) == 0 && !st.Has("pub") {
						return
					}
					t, ok := st.TS["pub"]
					chk(ok, "append-published", root.Pos(), st, "AppendRecords succeeds but the records counter in the header is not updated")
					if ok {
						found := false
						for _, k := range st.KeysPrefix("old:") {
							v := st.TS[k].V
							if lib.Strip(st.Load(v[0], v[1].Typ)) == t.V[0] && t.V[0] != lib.Strip(v[1]) {
								found = true
							}
						}
						chk(found, "published-value", root.Pos(), st, "the published records counter %s is not the chunk's new total", t.V[0])
					}
				case chkT + "Open":
					if err == nil {
						return
					}
					c := e.In.Param(root, 0)
					mm := st.Load(e.In.Node(eng.KField, 0, mmF, nil, c), nil)
					if okExit {
						chk(st.IsNonNil(mm), "open-all-or-nothing", root.Pos(), st, "Open succeeds but the chunk is not mapped")
					} else {
						chk(st.IsNil(mm), "open-all-or-nothing", root.Pos(), st, "Open fails but the chunk stays mapped, so it will be taken for an opened one")
					}
				}
			},
		}
	}
	j.Do(nil)
}

// constLen: the value is the length of a constant (format header) table.
func constLen(v *eng.Val) bool {
	v = lib.Strip(v)
	return v.K == eng.KLen && v.Args[0].K == eng.KLoad && v.Args[0].Args[0].K == eng.KGlobal
}

func init() {
	only := onlyRules
	register("C05", func(p *lib.Prog, r *lib.Report) {
		rules := []string{"published-last", "published-value", "append-published", "failed-append-changes-nothing", "records-index-moved", "open-does-not-rewrite", "read-path-does-not-write"}
		chunkData(p, r, only(rules...))
		r.Floor("published-last", 1)
		r.Floor("published-value", 1)
		r.Floor("append-published", 1)
		r.Floor("records-index-moved", 1)
		r.Floor("open-does-not-rewrite", 1)
		r.Floor("failed-append-changes-nothing", 1)
	}, "")
	register("C06", func(p *lib.Prog, r *lib.Report) {
		chunkData(p, r, only("mapping-under-lock", "mapping-changed-under-write-lock", "lock-balanced", "reader-holds-lock", "closed-chunk-refused", "unmapped-before-dropped", "open-all-or-nothing"))
		readerUse(p, r, func(string) bool { return true })
		payloadCopied(p, r)
		r.Floor("reader-closed-before-release", 1)
		r.Floor("reader-used-while-open", 1)
		r.Floor("mapping-under-lock", 4)
		r.Floor("mapping-changed-under-write-lock", 2)
		r.Floor("reader-holds-lock", 1)
		r.Floor("closed-chunk-refused", 2)
	}, "")
	register("C07", func(p *lib.Prog, r *lib.Report) {
		chunkData(p, r, only("growth-bounded", "room-ensured"))
		mmFile(p, r)
		metaCodec(p, r)
		chunkRoom(p, r)
		r.Floor("growth-bounded", 1)
		r.Floor("room-ensured", 1)
	}, "")
}

func onlyRules(rules ...string) func(string) bool {
	m := map[string]bool{}
	for _, x := range rules {
		m[x] = true
	}
	return func(s string) bool { return m[s] }
}
