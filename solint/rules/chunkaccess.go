package rules

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// fieldOfType finds the unique struct field satisfying pred (by type), or the
// one with the preferred name when there are several.
func fieldOfType(st *types.Struct, prefer string, pred func(t types.Type) bool) string {
	var l []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if pred(f.Type()) {
			if f.Name() == prefer {
				return prefer
			}
			l = append(l, f.Name())
		}
	}
	if len(l) == 1 {
		return l[0]
	}
	return ""
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isChan(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := t.Underlying().(*types.Map); return ok }
func isMutex(t types.Type) bool {
	s := t.String()
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// blockingOp tells whether the instruction may block on a channel.
func blockingOp(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Send:
		return true
	case *ssa.Select:
		return x.Blocking
	case *ssa.UnOp:
		return x.Op == token.ARROW
	}
	return false
}

// accessFSM decides the exclusive access automaton of ChunkAccessor.
func accessFSM(p *lib.Prog, r *lib.Report) {
	ca := p.Named(cfs, "ChunkAccessor")
	if ca == nil {
		r.Bad("anchor", "ChunkAccessor", token.NoPos, nil, "type not found")
		return
	}
	cst := ca.Underlying().(*types.Struct)
	mapF := fieldOfType(cst, "chunks", isMap)
	closedF := fieldOfType(cst, "closed", isBool)
	lockF := fieldOfType(cst, "lock", isMutex)
	if mapF == "" || lockF == "" {
		r.Bad("anchor", "ChunkAccessor", token.NoPos, nil, "the table of records or its lock is not there")
		return
	}
	var recT *types.Struct
	for i := 0; i < cst.NumFields(); i++ {
		if cst.Field(i).Name() == mapF {
			recT, _ = deref(cst.Field(i).Type().Underlying().(*types.Map).Elem()).Underlying().(*types.Struct)
		}
	}
	if recT == nil {
		r.Bad("anchor", "ChunkAccessor", token.NoPos, nil, "the records are not structs")
		return
	}
	stF, opF, wF := fieldOfType(recT, "state", isIntT), fieldOfType(recT, "opened", isBool), fieldOfType(recT, "waiterCh", isChan)
	if stF == "" || opF == "" || wF == "" {
		r.Bad("anchor", "ChunkAccessor record", token.NoPos, nil, "the record lost its state, opened or waiter field")
		return
	}
	ms := map[string]*ssa.Function{}
	var roots []*ssa.Function
	for _, n := range []string{"SetWriting", "SetIdle", "setDeleting", "openChunk", "closeChunk", "Shutdown"} {
		if f := r.Need(caT + n); f != nil {
			ms[n] = f
			roots = append(roots, f)
		}
	}
	if len(roots) < 6 {
		return
	}
	// every other method is an entry point as well (it may only touch the
	// records under the lock)
	for _, f := range p.Methods(cfs, "ChunkAccessor") {
		if ms[f.Name()] == nil && !onlyForOthers(p, f) {
			roots = append(roots, f)
		}
	}
	var mu sync.Mutex
	grants := map[string]map[int64]bool{"w": {}, "d": {}, "i": {}}
	grant := func(k string, v *eng.Val) {
		mu.Lock()
		defer mu.Unlock()
		if v == nil {
			grants[k][-999] = true
			return
		}
		if n, ok := eng.ConstInt(v); ok {
			grants[k][n] = true
		} else {
			grants[k][-999] = true
		}
	}
	single := func(k string) (int64, bool) {
		if len(grants[k]) != 1 {
			return 0, false
		}
		for n := range grants[k] {
			return n, n != -999
		}
		return 0, false
	}
	for pass := 1; pass <= 2; pass++ {
		pass := pass
		var W, D, I int64
		if pass == 2 {
			var a, b, c bool
			W, a = single("w")
			D, b = single("d")
			I, c = single("i")
			r.Check(a && b && c && W != D && W != I && D != I, "distinct-states", "ChunkAccessor", ca.Obj().Pos(), nil,
				"granting write access, granting deletion and going idle must leave the record in three distinct fixed states (found %v)", grants)
			if !(a && b && c) {
				return
			}
		}
		rep := r
		if pass == 1 {
			rep = lib.NewReport(p)
		}
		j := &lib.Job{P: p, R: rep, Roots: roots}
		j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
			name := lib.Name(root)
			chk := func(ok bool, rule string, pos token.Pos, st *eng.State, f string, a ...any) {
				if pass == 2 {
					r.Check(ok, rule, name, pos, st, f, a...)
				}
			}
			fld := func(rec *eng.Val, n string) *eng.Val { return e.In.Node(eng.KField, 0, n, nil, rec) }
			isTable := func(m *eng.Val) bool {
				return m.K == eng.KLoad && m.Args[0].K == eng.KField && m.Args[0].Name == mapF
			}
			locked := func(st *eng.State) bool { return st.Has("locked") }
			recOf := func(a *eng.Val) *eng.Val {
				if a.K == eng.KField && (a.Name == stF || a.Name == opF || a.Name == wF) {
					return a.Args[0]
				}
				return nil
			}
			shared := func(st *eng.State, rec *eng.Val) bool {
				return rec.K != eng.KAlloc || st.Has("ins:"+itoa(rec.ID))
			}
			// initial: what was observed in the field before this path wrote it
			initial := func(rec *eng.Val, f string, t types.Type) *eng.Val {
				return e.In.Node(eng.KLoad, 0, "", t, fld(rec, f))
			}
			knownState := func(st *eng.State, rec *eng.Val, n int64) bool {
				v := initial(rec, stF, types.Typ[types.Int])
				lo, hi := st.Bounds(v)
				if lo != nil && hi != nil && *lo == n && *hi == n {
					return true
				}
				return st.AnyFact(func(f *eng.Val, b bool) bool {
					if !b || f.K != eng.KBin || f.Op != token.EQL || f.Args[0] != v {
						return false
					}
					k, ok := eng.ConstInt(f.Args[1])
					return ok && k == n
				})
			}
			goneIdle := func(st *eng.State, rec *eng.Val) bool {
				t, ok := st.TS["stored:"+itoa(rec.ID)]
				if !ok {
					return knownState(st, rec, I)
				}
				n, isC := eng.ConstInt(t.V[0])
				return isC && (n == I || n != W && n != D && knownState(st, rec, I))
			}
			unlock := func(st *eng.State, pos token.Pos) {
				for _, k := range st.KeysPrefix("dropped:") {
					rec := st.TS[k].V[0]
					b, known := st.Eval(st.Load(fld(rec, opF), types.Typ[types.Bool]))
					chk(known && !b && goneIdle(st, rec), "record-dropped-when-free", pos, st, "the record of a chunk is dropped although it may be opened, written or being deleted")
					st.Del(k)
				}
				for _, k := range st.KeysPrefix("dirty:") {
					rec := st.TS[k].V[0]
					w := fld(rec, wF)
					nilNow := false
					if v, ok := st.Cell(w); ok {
						nilNow = st.IsNil(v)
					} else {
						nilNow = st.IsNil(initial(rec, wF, nil))
					}
					closed := st.Has("woken:" + itoa(rec.ID))
					wasNil := st.IsNil(initial(rec, wF, nil))
					chk(nilNow && (closed || wasNil), "waiters-woken", pos, st, "the state of a record changes but its waiters are not woken (or the closed channel stays in the record)")
					st.Del(k)
				}
				for _, k := range st.KeysPrefix("woken:") {
					st.Del(k)
				}
				st.Del("locked")
			}
			return eng.Hooks{
				Call: func(st *eng.State, c *eng.Call) *eng.Result {
					if c.Kind != eng.CKCall {
						return nil
					}
					switch c.Name() {
					case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
						if c.Args[0].K == eng.KField && c.Args[0].Name == lockF {
							st.Set("locked", "")
							st.Del("closedv")
						}
					case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
						if c.Args[0].K == eng.KField && c.Args[0].Name == lockF {
							chk(locked(st), "under-lock", c.Pos(), st, "unlocks a lock it does not hold")
							unlock(st, c.Pos())
						}
					case "builtin.delete":
						if isTable(c.Args[0]) {
							chk(locked(st), "under-lock", c.Pos(), st, "the table is changed without the lock")
							for _, k := range st.KeysPrefix("lk:") {
								t := st.TS[k]
								if t.V[2] != c.Args[1] {
									continue
								}
								rec := t.V[0]
								op := st.Load(fld(rec, opF), types.Typ[types.Bool])
								b, known := st.Eval(op)
								if okv, known := st.Eval(t.V[1]); known && !okv {
									continue
								}
								if known && !b && goneIdle(st, rec) {
									chk(true, "record-dropped-when-free", c.Pos(), st, "")
								} else {
									// it must be free at the latest when others can see it
									st.Set("dropped:"+itoa(rec.ID), "", rec)
								}
								st.Set("deleted:"+itoa(rec.ID), "")
							}
						}
					case "builtin.close":
						a := c.Args[0]
						if a.K == eng.KLoad && a.Args[0].K == eng.KField && a.Args[0].Name == wF {
							rec := a.Args[0].Args[0]
							chk(locked(st), "under-lock", c.Pos(), st, "waiters are woken without the lock")
							st.Set("woken:"+itoa(rec.ID), "")
						}
					}
					return nil
				},
				Load: func(st *eng.State, fr *eng.Frame, a *eng.Val, in ssa.Instruction) {
					if rec := recOf(a); rec != nil && shared(st, rec) {
						chk(locked(st), "under-lock", eng.InstrPos(in), st, "a record is read without the lock")
					}
					if a.K == eng.KField && a.Name == closedF && a.Args[0].K == eng.KParam {
						chk(locked(st), "under-lock", eng.InstrPos(in), st, "the closed flag is read without the lock")
						st.Set("closedv", "", st.Load(a, types.Typ[types.Bool]))
					}
				},
				Store: func(st *eng.State, fr *eng.Frame, a, v *eng.Val, in ssa.Instruction) {
					rec := recOf(a)
					if rec == nil {
						return
					}
					if shared(st, rec) {
						chk(locked(st), "under-lock", eng.InstrPos(in), st, "a record is changed without the lock")
						switch a.Name {
						case stF:
							st.Set("dirty:"+itoa(rec.ID), "", rec)
							st.Set("stored:"+itoa(rec.ID), "", v)
						case opF:
							if b, k := st.Eval(v); k && b {
								for _, k := range st.KeysPrefix("lk:") {
									if st.TS[k].V[0] == rec {
										st.Set("opening", "", st.TS[k].V[2])
									}
								}
								if !st.Has("opening") {
									for _, k := range st.KeysPrefix("ins:") {
										if st.TS[k].V[0] == rec {
											st.Set("opening", "", st.TS[k].V[1])
										}
									}
								}
							} else if k && !b {
								for _, kk := range st.KeysPrefix("lk:") {
									if t := st.TS[kk]; t.V[0] == rec {
										if o, ok := st.TS["opening"]; ok && o.V[0] == t.V[2] {
											st.Del("opening")
										}
									}
								}
							}
						}
					} else if a.Name == stF {
						st.Set("stored:"+itoa(rec.ID), "", v)
					}
				},
				Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
					if blockingOp(in) {
						chk(!locked(st), "no-blocking-under-lock", eng.InstrPos(in), st, "waits on a channel while holding the lock")
						return
					}
					switch x := in.(type) {
					case *ssa.MapUpdate:
						if isTable(e.Env(st, fr, x.Map)) {
							chk(locked(st), "under-lock", x.Pos(), st, "the table is changed without the lock")
							rec, key := e.Env(st, fr, x.Value), e.Env(st, fr, x.Key)
							fresh := false
							for _, k := range st.KeysPrefix("lk:") {
								t := st.TS[k]
								if b, known := st.Eval(t.V[1]); t.V[2] == key && known && !b {
									fresh = true
								}
							}
							chk(fresh && rec.K == eng.KAlloc, "never-replaces-record", x.Pos(), st, "a record is put into the table without knowing that there is none for the chunk: the present holder would be lost")
							st.Set("ins:"+itoa(rec.ID), "", rec, key)
							if o := st.Load(fld(rec, opF), types.Typ[types.Bool]); o != nil {
								if b, k := st.Eval(o); k && b {
									st.Set("opening", "", key)
								}
							}
						}
					case *ssa.Lookup:
						if isTable(e.Env(st, fr, x.X)) {
							chk(locked(st), "under-lock", x.Pos(), st, "the table is read without the lock")
							key := e.Env(st, fr, x.Index)
							if x.CommaOk {
								t := x.Type().(*types.Tuple)
								rec := e.In.Sym(fr.Ctx, x, "#0", t.At(0).Type())
								okv := e.In.Sym(fr.Ctx, x, "#1", t.At(1).Type())
								for _, pre := range []string{"stored:", "dirty:", "woken:", "deleted:"} {
									st.Del(pre + itoa(rec.ID))
								}
								for _, k := range st.KeysPrefix("ins:") {
									st.Del(k)
								}
								for _, k := range st.KeysPrefix("lk:") {
									st.Del(k)
								}
								st.Set("lk:"+itoa(rec.ID), "", rec, okv, key)
							}
						}
					}
				},
				Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
					o, ok := st.TS["opening"]
					if !ok {
						return
					}
					for cond.K == eng.KUn && cond.Op == token.NOT {
						cond, taken = cond.Args[0], !taken
					}
					if taken {
						return
					}
					for _, k := range st.KeysPrefix("lk:") {
						t := st.TS[k]
						if t.V[2] == o.V[0] && (cond == t.V[1] || cond == initial(t.V[0], opF, types.Typ[types.Bool])) {
							st.Del("opening") // seen to be closed
						}
					}
				},
				Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
					pos := eng.InstrPos(in)
					chk(!locked(st), "lock-released", pos, st, "%s returns with the lock held", name)
					// the last observation of the record
					var rec, okv *eng.Val
					for _, k := range st.KeysPrefix("lk:") {
						rec, okv = st.TS[k].V[0], st.TS[k].V[1]
					}
					var ins *eng.Val
					for _, k := range st.KeysPrefix("ins:") {
						ins = st.TS[k].V[0]
					}
					stored := func(v *eng.Val) *eng.Val {
						if t, ok := st.TS["stored:"+itoa(v.ID)]; ok {
							return t.V[0]
						}
						return nil
					}
					notClosed := func() bool {
						if closedF == "" {
							return true
						}
						t, ok := st.TS["closedv"]
						if !ok {
							return false
						}
						b, k := st.Eval(t.V[0])
						return k && !b
					}
					is := func(v *eng.Val, n int64) bool {
						if v == nil {
							return false
						}
						k, ok := eng.ConstInt(v)
						return ok && k == n
					}
					absent, present := false, false
					if okv != nil {
						b, k := st.Eval(okv)
						absent, present = k && !b, k && b
					}
					touched := ins != nil || (rec != nil && stored(rec) != nil)
					switch root {
					case ms["SetWriting"]:
						if !st.IsNil(rets[0]) {
							chk(st.IsNonNil(rets[0]) && !touched, "refusal-changes-nothing", pos, st, "a refused write access request leaves the record changed")
							return
						}
						var now *eng.Val
						if absent && ins != nil {
							now = stored(ins)
						} else if rec != nil {
							now = stored(rec)
						}
						if pass == 1 {
							grant("w", now)
							return
						}
						ok := absent && ins != nil && is(now, W) || present && rec != nil && knownState(st, rec, I) && is(now, W)
						chk(ok, "write-granted-only-when-free", pos, st, "write access is granted although the chunk was not known to be free (absent or idle), or the record is not marked as written")
						chk(notClosed(), "no-grant-after-shutdown", pos, st, "write access may be granted after the shutdown")
					case ms["setDeleting"]:
						b, known := st.Eval(rets[0])
						if known && !b {
							chk(!touched, "refusal-changes-nothing", pos, st, "a refused deletion request leaves the record changed")
							return
						}
						var now *eng.Val
						if ins != nil {
							now = stored(ins)
						}
						if pass == 1 {
							grant("d", now)
							return
						}
						chk(known && absent && ins != nil && is(now, D), "delete-granted-only-when-unused", pos, st, "deletion is granted although the chunk may be in use, or the record is not marked as being deleted")
						chk(notClosed(), "no-grant-after-shutdown", pos, st, "deletion may be granted after the shutdown")
					case ms["openChunk"]:
						if !st.IsNil(rets[0]) {
							chk(st.IsNonNil(rets[0]) && !st.Has("opening"), "refusal-changes-nothing", pos, st, "a refused open leaves the chunk marked as opened")
							return
						}
						if pass == 1 {
							return
						}
						ok := false
						if absent && ins != nil {
							b, k := st.Eval(st.Load(fld(ins, opF), types.Typ[types.Bool]))
							ok = is(stored(ins), I) && k && b
						} else if present && rec != nil {
							b, k := st.Eval(st.Load(fld(rec, opF), types.Typ[types.Bool]))
							b0, k0 := st.Eval(initial(rec, opF, types.Typ[types.Bool]))
							ok = knownState(st, rec, I) && stored(rec) == nil && k && b && k0 && !b0
						}
						chk(ok, "open-granted-only-when-idle", pos, st, "a chunk is opened although it may be written, being deleted or opened already")
						chk(notClosed(), "no-grant-after-shutdown", pos, st, "a chunk may be opened after the shutdown")
					case ms["SetIdle"]:
						if absent || rec == nil {
							return
						}
						now := stored(rec)
						same := pass == 2 && now == nil && knownState(st, rec, I)
						if now == nil && pass == 1 {
							return // unchanged on this path
						}
						if pass == 1 {
							grant("i", now)
							return
						}
						chk(is(now, I) || same, "release-makes-idle", pos, st, "releasing the exclusive access does not make the record idle")
						b, k := st.Eval(st.Load(fld(rec, opF), types.Typ[types.Bool]))
						del := st.Has("deleted:" + itoa(rec.ID))
						chk(k && b != del, "record-kept-iff-opened", pos, st, "after the exclusive access is released the record must stay exactly when the chunk is opened")
					case ms["closeChunk"]:
						if !st.IsNil(rets[0]) || pass == 1 {
							return
						}
						ok := present && rec != nil
						if ok {
							b, k := st.Eval(st.Load(fld(rec, opF), types.Typ[types.Bool]))
							ok = k && !b
						}
						chk(ok, "close-clears-opened", pos, st, "closing a chunk leaves it marked as opened")
						if ok {
							del := st.Has("deleted:" + itoa(rec.ID))
							idle := knownState(st, rec, I)
							chk(del == idle, "record-kept-iff-busy", pos, st, "after a close the record must stay exactly when somebody holds the exclusive access")
						}
					}
				},
			}
		}
		j.Do(nil)
	}
	// nobody else touches the table or the records
	for _, f := range p.Funcs {
		if lib.IsTemplate(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				s, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
				if !ok {
					continue
				}
				if types.Identical(s, cst) && s.Field(fa.Field).Name() == mapF || types.Identical(s, recT) {
					t, n := lib.RecvType(lib.Outer(f))
					_ = t
					own := t == cfs && (n == "ChunkAccessor" || types.Identical(structOf(p, t, n), recT)) || strings.HasPrefix(lib.Outer(f).Name(), "New") || reachedOnlyFrom(p, lib.Outer(f), ms)
					r.Check(own, "records-encapsulated", lib.Name(f), fa.Pos(), nil, "the access records are touched outside of ChunkAccessor")
				}
			}
		}
	}
}

// onlyForOthers: f is an unexported method that is called, and only by
// other methods of its type.
func onlyForOthers(p *lib.Prog, f *ssa.Function) bool {
	if token.IsExported(f.Name()) {
		return false
	}
	pkg, typ := lib.RecvType(f)
	called := false
	for _, g := range p.Funcs {
		eachInstr(g, func(in ssa.Instruction) {
			for _, o := range in.Operands(nil) {
				if *o != ssa.Value(f) {
					continue
				}
				c, ok := in.(*ssa.Call)
				op, ot := lib.RecvType(lib.Outer(g))
				if ok && c.Call.StaticCallee() == f && op == pkg && ot == typ && lib.Outer(g) != f {
					called = true
				} else {
					f = nil
				}
			}
		})
		if f == nil {
			return false
		}
	}
	return called
}

func structOf(p *lib.Prog, pkg, n string) types.Type {
	if nt := p.Named(pkg, n); nt != nil {
		return nt.Underlying()
	}
	return types.Typ[types.Invalid]
}

// reachedOnlyFrom: every static caller chain of f starts in one of the methods.
func reachedOnlyFrom(p *lib.Prog, f *ssa.Function, ms map[string]*ssa.Function) bool {
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, g := range p.Funcs {
		for _, c := range lib.Callees(g) {
			callers[c] = append(callers[c], lib.Outer(g))
		}
	}
	ok := map[*ssa.Function]bool{}
	for _, m := range ms {
		ok[m] = true
	}
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if ok[g] || seen[g] {
			return true
		}
		seen[g] = true
		if len(callers[g]) == 0 {
			return false
		}
		for _, c := range callers[g] {
			if t, n := lib.RecvType(c); t == cfs && n == "ChunkAccessor" {
				continue
			}
			if !visit(c) {
				return false
			}
		}
		return true
	}
	return visit(f)
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func init() {
	register("C03", func(p *lib.Prog, r *lib.Report) {
		accessFSM(p, r)
		for rule, n := range map[string]int{"write-granted-only-when-free": 1, "delete-granted-only-when-unused": 1, "open-granted-only-when-idle": 1, "release-makes-idle": 1,
			"under-lock": 5, "waiters-woken": 1, "close-clears-opened": 1, "record-dropped-when-free": 1, "refusal-changes-nothing": 2, "never-replaces-record": 2} {
			r.Floor(rule, n)
		}
	}, "every method of ChunkAccessor is walked over all its paths; the obligations are checked at every table access, record access, unlock and return")
}
