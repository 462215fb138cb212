package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// appendRules: the records of a request go to the chunks one after another
// under the lock of the log, and every chunk written is registered.
func appendRules(p *lib.Prog, r *lib.Report) {
	it := ifaceOf(p, "pkg/storage", "Log")
	var roots []*ssa.Function
	if it != nil {
		for _, f := range implementers(p, []string{lfs}, it) {
			if f.Name() == "AppendRecords" {
				roots = append(roots, f)
			}
		}
	}
	if len(roots) == 0 {
		r.Bad("anchor", lfs+": AppendRecords", token.NoPos, nil, "the appending to a log is not found")
		return
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != lib.PkgOf(root) }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		req := e.In.Param(root, 2)
		isCI := func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && strings.HasSuffix(lib.TypeKey(s.Elem()), "logfs.ChunkInfo")
		}
		counters := map[*ssa.Phi]bool{}
		locked := func(st *eng.State, c *eng.Call, what string) {
			r.Check(st.Has("locked"), "one-at-a-time", name+": "+what, c.Pos(), st, "%s: %s without the lock of the log: appends at the same time mix up the chunks", name, what)
		}
		written := func(st *eng.State) (zero bool) { // nothing was written by the last append
			t, ok := st.TS["arr"]
			if !ok || st.IsNonNil(t.V[1]) {
				return true
			}
			b, known := st.Eval(e.Less(e.In.Int(0), t.V[4]))
			return known && !b
		}
		settle := func(st *eng.State, pos token.Pos) {
			if _, ok := st.TS["arr"]; !ok {
				return
			}
			if !written(st) {
				r.Check(!st.Has("unlisted"), "registered", name, pos, st, "%s writes records to a chunk that is not registered: they are lost", name)
				r.Check(!st.Has("uncut"), "in-order", name+": once", pos, st, "%s does not go on behind the records written", name)
			}
			if !written(st) && st.Has("uncounted") {
				st.Set("miscounted", "")
			}
			st.Del("arr")
			st.Del("uncounted")
			st.Del("unlisted")
			st.Del("uncut")
		}
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind == eng.CKDefer {
					return nil
				}
				switch n := c.Name(); {
				case n == "(*sync.Mutex).Lock" || n == "(*sync.RWMutex).Lock":
					if t, ok := st.TS["locker"]; ok && c.Args[0].Contains(t.V[0]) {
						st.Set("locked", "", c.Args[0])
					}
				case n == "(*sync.Mutex).Unlock" || n == "(*sync.RWMutex).Unlock":
					if t, ok := st.TS["locked"]; ok && t.V[0] == c.Args[0] {
						st.Del("locked")
						st.Del("last") // may be not the last anymore
					}
				case strings.HasSuffix(n, ".Release") && strings.Contains(n, "ReleasableCache"):
					if t, ok := st.TS["locker"]; ok && (c.Args[1] == t.V[0] || st.Load(c.Args[1], nil) == t.V[0]) {
						r.Check(!st.Has("locked"), "one-at-a-time", name+": release", c.Pos(), st, "%s gives the lock of the log back while it is locked", name)
						st.Del("locker")
					}
				case strings.HasSuffix(n, "LogsMetaStorage).GetLastChunk") || strings.HasSuffix(n, "LogsMetaStorage).GetChunks"):
					locked(st, c, "asks for the chunks")
					r.Check(ofParam(c.Args[len(c.Args)-1], req, "LogID"), "registered", name+": log", c.Pos(), st, "%s looks at the chunks of another log", name)
				case strings.HasSuffix(n, "Chunk).AppendRecords"):
					locked(st, c, "writes")
					recs := c.Args[1]
					if !st.Has("begun") {
						r.Check(ofParam(recs, req, "Records"), "in-order", name+": first", c.Pos(), st, "%s does not begin with the records of the request", name)
					} else {
						t := st.TS["rest"]
						part := recs.K == eng.KSlice && len(t.V) == 2 && recs.Args[0] == t.V[0] && recs.Args[1] == t.V[1] && recs.Args[2].K == eng.KNil
						r.Check(part || recs.K == eng.KSym && recs.Ref != nil || ofParam(recs, req, "Records") && !st.Has("cutonce"), "in-order", name+": next", c.Pos(), st, "%s does not go on with the rest of the records: %s", name, recs)
					}
					st.Set("begun", "")
				case strings.HasSuffix(n, ".GetOpenedChunk"):
					settle(st, c.Pos())
					id, fresh := c.Args[2], c.Args[3]
					b, known := st.Eval(fresh)
					ok := false
					if t, found := st.TS["newid:"+itoa(id.ID)]; found {
						ok = known && b && t.S == ""
						st.Set("newid:"+itoa(id.ID), "used", t.V...)
					} else if t, found := st.TS["last"]; found {
						n, isN := st.Eval(e.Eq(st.FieldOf(t.V[0], "RecordsCount", types.Typ[types.Int]), e.In.Int(0)))
						ok = id == st.FieldOf(t.V[0], "ID", types.Typ[types.String]) && known && !b && isN && !n && !st.Has("begun")
					}
					r.Check(ok, "right-chunk", name, c.Pos(), st, "%s writes neither to the last chunk of the log nor to a new one of its own: %s, new=%v", name, id, fresh)
					st.Set("open", "", id, fresh)
				case n == "builtin.append" && len(c.Args) > 1 && isCI(c.Common.Args[0].Type()):
					for _, v := range st.VarArgs(c.Args[1]) {
						t, ok := st.TS["arr"]
						if !ok {
							r.Check(false, "registered", name, c.Pos(), st, "%s registers a chunk nothing was written to", name)
							continue
						}
						checkInfo(r, name, st, c.Pos(), v, t.V)
						st.Del("unlisted")
					}
					st.Set("listed", "")
					st.Del("stored")
				case strings.HasSuffix(n, "LogsMetaStorage).UpsertChunkInfos"):
					locked(st, c, "registers")
					settle(st, c.Pos())
					a := c.Args[len(c.Args)-3:]
					r.Check(ofParam(a[1], req, "LogID"), "registered", name+": log", c.Pos(), st, "%s registers the chunks for another log", name)
					cx := lib.Strip(a[0])
					_, free := st.TS["free:"+itoa(cx.ID)]
					r.Check(free, "registered", name+": always", c.Pos(), st, "%s gives up the registration when the client goes away, though the data is written: %s", name, cx)
					r.Check(a[2].K != eng.KSlice && a[2].K != eng.KNil, "registered", name+": all", c.Pos(), st, "%s registers only a part of the chunks written", name)
					st.Set("stored", "")
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				switch n := c.Name(); {
				case strings.HasSuffix(n, ".GetOrCreate"):
					if ofParam(c.Args[len(c.Args)-1], req, "LogID") {
						st.Set("locker", "", rets[0])
					}
				case strings.HasSuffix(n, "LogsMetaStorage).GetLastChunk"):
					st.Set("last", "", rets[0])
				case detached(n):
					st.Set("free:"+itoa(lib.Strip(rets[0]).ID), "")
				case n == "golibs/ulidutils.NewID":
					st.Set("newid:"+itoa(rets[0].ID), "")
				case strings.HasSuffix(n, "Chunk).AppendRecords"):
					o, ok := st.TS["open"]
					if !ok {
						return
					}
					st.Set("arr", "", rets[0], rets[1], o.V[0], o.V[1], st.FieldOf(rets[0], "Written", types.Typ[types.Int]), c.Args[1])
					st.Set("unlisted", "")
					st.Set("uncounted", "")
					st.Set("uncut", "")
				}
			},
			Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
				t, ok := st.TS["arr"]
				if !ok {
					return
				}
				if b, ok := in.(*ssa.BinOp); ok && b.Op == token.ADD && isIntT(b.Type()) {
					for _, xy := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
						ph := phiOf(xy[0])
						if ph == nil || lib.Strip(e.Env(st, fr, xy[1])) != lib.Strip(t.V[4]) {
							continue
						}
						r.Check(st.Has("uncounted"), "reports-what-it-did", name+": count", b.Pos(), st, "%s counts the records written twice", name)
						counters[ph] = true
						st.Del("uncounted")
						break
					}
					return
				}
				s, ok := in.(*ssa.Slice)
				if !ok || !isLogs(s.Type()) || s.Low == nil {
					return
				}
				x := e.Env(st, fr, s.X)
				good := x == t.V[5] && lib.Strip(e.Env(st, fr, s.Low)) == lib.Strip(t.V[4]) && s.High == nil
				if b, ok := s.Low.(*ssa.BinOp); ok && !good && b.Op == token.ADD && s.High == nil && ofParam(x, req, "Records") && st.Has("uncut") && !st.Has("uncounted") && !st.Has("miscounted") {
					// behind all that was counted so far
					for _, xy := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
						ph := phiOf(xy[0])
						good = good || ph != nil && counters[ph] && lib.Strip(e.Env(st, fr, xy[1])) == lib.Strip(t.V[4])
					}
				}
				r.Check(good, "in-order", name+": rest", s.Pos(), st, "%s does not go on right behind the records written", name)
				st.Del("uncut")
				st.Set("cutonce", "")
				st.Set("rest", "", x, e.Env(st, fr, s.Low))
			},
			Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
				if !st.Has("listed") || st.Has("miscounted") {
					return
				}
				// after a chunk was listed, neither the number of the records nor of the chunks can be 0
				cond.Walk(func(v *eng.Val) bool {
					ph, _ := v.Ref.(*ssa.Phi)
					cnt := v.K == eng.KSym && ph != nil && counters[ph] && isIntT(v.Typ)
					cis := v.K == eng.KLen && v.Args[0].Typ != nil && isCI(v.Args[0].Typ)
					if (cnt || cis) && lib.Entails(st, lib.Lin{}.Sub(lib.Linear(v))) {
						st.Set("impossible", "")
					}
					return true
				})
			},
			Store: func(st *eng.State, fr *eng.Frame, addr, v *eng.Val, in ssa.Instruction) {
				if addr.K != eng.KIndex || v.Typ == nil || !isStr(v.Typ) {
					return
				}
				x, k, ok := cutAt(v)
				for ok && x.K == eng.KSlice && x.Args[1].K == eng.KNil {
					x = x.Args[0]
				}
				if at, is := in.(*ssa.Store); is && ok {
					if ix, is := at.Addr.(*ssa.IndexAddr); is && isArrayPtr(ix.X.Type()) {
						return // appended
					}
				}
				if ok {
					r.Check(ofParam(x, req, "Records") && k == addr.Args[1], "reports-what-it-did", name+": IDs", in.Pos(), st, "%s does not report the ID of the record at its place: %s", name, v)
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				if st.Has("impossible") {
					return
				}
				settle(st, pos)
				r.Check(!st.Has("locked"), "one-at-a-time", name+": exit", pos, st, "%s leaves the log locked", name)
				if st.Has("impossible") {
					return
				}
				r.Check(!st.Has("listed") || st.Has("stored"), "registered", name+": stored", pos, st, "%s does not register the chunks written", name)
				if st.IsNonNil(rets[1]) {
					return
				}
				if !st.Has("listed") {
					none, known := st.Eval(e.Eq(st.Len(resultField(st, req, "Records")), e.In.Int(0)))
					if !st.IsNil(rets[1]) {
						c := st.Clone()
						if !c.Assume(e.Eq(rets[1], e.In.Nil()), true) {
							return
						}
						none, known = c.Eval(e.Eq(st.Len(resultField(c, req, "Records")), e.In.Int(0)))
					}
					r.Check(known && none, "reports-what-it-did", name+": nothing", pos, st, "%s reports success though nothing was written", name)
					return
				}
				added := lib.Linear(lib.Strip(resultField(st, rets[0], "Added")))
				ok, lens := added.C == 0 && len(added.Coef) > 0, 0
				for v, k := range added.Coef {
					if v.K == eng.KLen && (k == -1 || k == 1 && ofParam(v.Args[0], req, "Records")) {
						lens++
						continue
					}
					ok = ok && (k == 1 && (v.K == eng.KSym || v.K == eng.KFld && v.Name == "Written"))
				}
				if t := st.TS["rest"]; len(t.V) == 2 {
					rest := lib.Linear(st.Len(t.V[0])).Sub(lib.Linear(t.V[1]))
					diff := lib.Linear(st.Len(resultField(st, req, "Records"))).Sub(rest).Sub(added)
					if diff.IsConst() && diff.C == 0 {
						return
					}
				}
				r.Check(ok && (lens == 2 || lens == 0 && !st.Has("miscounted")), "reports-what-it-did", name+": count", pos, st, "%s does not report the number of records written", name)
			},
		}
	}
	j.Do(nil)
	r.Floor("right-chunk", 1)
	for _, k := range []string{"one-at-a-time", "registered", "in-order", "reports-what-it-did", "info"} {
		r.Floor(k, 2)
	}
}

func detached(n string) bool {
	return n == "context.WithoutCancel" || n == "context.Background" || n == "context.TODO"
}

// checkInfo checks the description of a chunk written: arr holds the result,
// the error, the chunk, whether it is new, the number written, the records.
func checkInfo(r *lib.Report, name string, st *eng.State, pos token.Pos, v *eng.Val, arr []*eng.Val) {
	f := func(n string) *eng.Val { return resultField(st, v, n) }
	res := func(n string) *eng.Val { return st.FieldOf(arr[0], n, f("Min").Typ) }
	r.Check(f("ID") == arr[2], "info", name+": ID", pos, st, "%s registers another chunk than the one written: %s", name, f("ID"))
	r.Check(f("Max") == res("LastID"), "info", name+": Max", pos, st, "%s registers a wrong last ID: %s", name, f("Max"))
	fresh, known := st.Eval(arr[3])
	cnt := lib.Linear(f("RecordsCount")).Sub(lib.Linear(arr[4]))
	switch {
	case known && fresh:
		r.Check(f("Min") == res("StartID"), "info", name+": Min", pos, st, "%s registers a wrong first ID of a new chunk: %s", name, f("Min"))
		r.Check(cnt.IsConst() && cnt.C == 0, "info", name+": count", pos, st, "%s registers a wrong number of records of a new chunk: %s", name, f("RecordsCount"))
	case known:
		t := st.TS["last"]
		if len(t.V) == 0 {
			return
		}
		r.Check(f("Min") == st.FieldOf(t.V[0], "Min", f("Min").Typ), "info", name+": Min", pos, st, "%s changes the first ID of a chunk: %s", name, f("Min"))
		old := cnt.Sub(lib.Linear(st.FieldOf(t.V[0], "RecordsCount", types.Typ[types.Int])))
		r.Check(old.IsConst() && old.C == 0, "info", name+": count", pos, st, "%s registers a wrong number of records: %s", name, f("RecordsCount"))
	}
}

// appendGate: records are taken only for a log known to be there.
func appendGate(p *lib.Prog, r *lib.Report) {
	si := ifaceOf(p, "api/gen/solaris/v1", "ServiceServer")
	var roots []*ssa.Function
	if si != nil {
		for _, f := range implementers(p, []string{apiPkg}, si) {
			if f.Name() == "AppendRecords" {
				roots = append(roots, f)
			}
		}
	}
	if len(roots) == 0 {
		r.Bad("anchor", "ServiceServer.AppendRecords", token.NoPos, nil, "the service is not found")
		return
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != apiPkg }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		req := e.In.Param(root, 2)
		return eng.Hooks{
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				switch n := c.Name(); {
				case strings.HasSuffix(n, "storage.Logs).GetLogByID"):
					if ofParam(c.Args[len(c.Args)-1], req, "LogID") {
						st.Set("looked", "", rets[1])
					}
				case strings.HasSuffix(n, "storage.Log).AppendRecords"):
					st.Set("appended", "", rets...)
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind != eng.CKDefer && strings.HasSuffix(c.Name(), "storage.Log).AppendRecords") {
					t, ok := st.TS["looked"]
					r.Check(ok && st.IsNil(t.V[0]), "log-known", name, c.Pos(), st, "%s takes records for a log it does not know to exist", name)
					r.Check(c.Args[len(c.Args)-1] == req, "log-known", name+": request", c.Pos(), st, "%s appends something else than the request", name)
				}
				return nil
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				if st.IsNonNil(rets[1]) {
					return
				}
				t, ok := st.TS["appended"]
				if l, looked := st.TS["looked"]; looked && !ok && !st.IsNil(l.V[0]) { // an error of the lookup, wrapped
					return
				}
				r.Check(ok && rets[0] == t.V[0] && (rets[1].Contains(t.V[1]) || st.IsNil(rets[1]) && st.IsNil(t.V[1])), "log-known", name+": result", pos, st, "%s reports success without the result of the appending", name)
			},
		}
	}
	j.Do(nil)
	r.Floor("log-known", 2)
}

func init() {
	register("C08", func(p *lib.Prog, r *lib.Report) {
		appendRules(p, r)
		appendGate(p, r)
	}, "")
}

// phiOf returns the loop variable v stands for.
func phiOf(v ssa.Value) *ssa.Phi {
	for {
		switch x := v.(type) {
		case *ssa.Phi:
			return x
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
}

func isArrayPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}
