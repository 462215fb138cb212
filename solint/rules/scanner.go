package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// scannerFlow decides the replication and sweeping bookkeeping of the Scanner.
func scannerFlow(p *lib.Prog, r *lib.Report) {
	up, del := replT+"UploadChunk", replT+"DeleteChunk"
	isEv := func(n string) bool { return n == up || n == del }
	rel := p.Reaching(func(f *ssa.Function, in ssa.Instruction) bool {
		n := lib.CallName(in)
		return (isEv(n) || n == "os.Create" || n == "os.WriteFile" || n == "os.OpenFile" || n == "(*encoding/json.Encoder).Encode") && lib.PkgOf(f) == cfs && !strings.Contains(lib.Name(f), "Replicator")
	})
	relUp := p.Reaching(func(f *ssa.Function, in ssa.Instruction) bool {
		return lib.CallName(in) == up && lib.PkgOf(f) == cfs
	})
	heads := map[ssa.Instruction]bool{}
	for f := range relUp {
		for in := range lib.LoopEntry(f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			g := ci.Common().StaticCallee()
			return lib.CallName(in) == up || g != nil && relUp[g] && lib.PkgOf(g) == cfs
		}) {
			heads[in] = true
		}
	}
	var sites []ssa.CallInstruction
	for _, s := range p.Sites(isEv) {
		if lib.PkgOf(s.Parent()) == cfs && strings.Contains(lib.Name(s.Parent()), "Scanner") {
			sites = append(sites, s)
		}
	}
	var roots []*ssa.Function
	for _, f := range p.Roots(cfs) {
		if strings.Contains(lib.Name(f), "Scanner") && f.Parent() == nil {
			roots = append(roots, f)
		}
	}
	cfgLoad := func(v *eng.Val, n string) bool {
		f := false
		v.Walk(func(x *eng.Val) bool {
			if (x.K == eng.KLoad && x.Args[0].K == eng.KField && x.Args[0].Name == n) || x.K == eng.KFld && x.Name == n {
				f = true
			}
			return !f
		})
		return f
	}
	j := &lib.Job{P: p, R: r, Roots: roots, Relevant: rel, KeepFact: lib.KeepNil, NoInline: func(root, f *ssa.Function) bool {
		t, n := lib.RecvType(f)
		return t == cfs && n != "Scanner" && n != "scanInfos" && n != "scanInfo" && n != ""
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		chk := func(ok bool, rule string, pos token.Pos, st *eng.State, f string, a ...any) {
			r.Check(ok, rule, name, pos, st, f, a...)
		}
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				n := c.Name()
				if c.Kind != eng.CKCall {
					return nil
				}
				switch n {
				case "time.Now":
					return &eng.Result{Opaque: true}
				case up:
					chk(st.Has("quiet"), "upload-after-quiet-period", c.Pos(), st, "a chunk is uploaded without checking that it was not modified for RemoteSyncThreshold")
					st.Del("just")
					st.Set("iter-up", "")
					st.Set("dirty", "")
					for _, k := range st.KeysPrefix("now:") {
						t := st.TS[k]
						st.Set(k, "before", t.V...)
					}
				case del:
					chk(st.Has("over"), "sweep-only-over-limit", c.Pos(), st, "chunks are removed locally although the folder was not seen to exceed SweepMaxThresholdSize")
					chk(!st.Has("under"), "sweep-stops", c.Pos(), st, "the sweep goes on below SweepMinThresholdSize")
				case "builtin.delete":
					t, ok := st.TS["del"]
					chk(ok && sameID(t.V[0], c.Args[1]) && st.IsNil(t.V[1]), "forgotten-only-when-removed", c.Pos(), st, "a chunk is dropped from the bookkeeping although its removal did not succeed: it will never be replicated again")
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				switch c.Name() {
				case "time.Now":
					st.Set("now:"+itoa(rets[0].ID), "", rets[0])
				case up:
					st.Set("up", "", c.Args[2], rets[0])
				case del:
					st.Set("del", "", c.Args[2], rets[0])
				case "os.Create", "os.WriteFile", "os.OpenFile":
					st.Del("dirty")
				}
			},
			Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
				for cond.K == eng.KUn && cond.Op == token.NOT {
					cond, taken = cond.Args[0], !taken
				}
				if cond.K == eng.KBin && cond.Op == token.LSS {
					a, b := cond.Args[0], cond.Args[1]
					switch {
					case cfgLoad(b, "RemoteSyncThreshold"):
						if taken {
							st.Set("just", "")
						} else {
							st.Set("quiet", "")
						}
					case cfgLoad(a, "RemoteSyncThreshold") && taken:
						st.Set("quiet", "")
					case cfgLoad(b, "SweepMaxThresholdSize") && !taken, cfgLoad(a, "SweepMaxThresholdSize") && taken:
						st.Set("over", "")
					case cfgLoad(b, "SweepMinThresholdSize") && taken, cfgLoad(a, "SweepMinThresholdSize") && !taken:
						st.Set("under", "")
					}
				}
				if cond.K == eng.KCall && taken && len(cond.Args) == 2 {
					a, b := cond.Args[0], cond.Args[1]
					if cond.Name == "(time.Time).Before" {
						a, b = b, a
					} else if cond.Name != "(time.Time).After" {
						return
					}
					if cfgLoad(a, "SyncTime") && cfgLoad(b, "Mtime") {
						st.Set("just", "")
					}
				}
			},
			Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
				if heads[in] && lib.PkgOf(fr.Fn) == cfs {
					if st.Has("iter") {
						chk(st.Has("just") || st.Has("iter-up"), "nothing-left-unreplicated", eng.InstrPos(in), st, "a chunk is skipped by the replication although it was neither modified recently nor replicated after its last modification")
					}
					st.Set("iter", "")
					for _, k := range []string{"just", "iter-up", "quiet", "up"} {
						st.Del(k)
					}
				}
			},
			Store: func(st *eng.State, fr *eng.Frame, a, v *eng.Val, in ssa.Instruction) {
				inUp := false
				for x := fr; x != nil; x = x.Parent {
					inUp = inUp || relUp[x.Fn] && hasLoop(heads, x.Fn)
				}
				if a.K != eng.KField || a.Name != "SyncTime" || !inUp {
					return
				}
				if st.IsNil(v) || v.K == eng.KLoad || v.K == eng.KFld {
					return
				}
				tv := st.Load(v, nil)
				t, ok := st.TS["up"]
				chk(ok && st.IsNil(t.V[1]), "synced-only-when-uploaded", eng.InstrPos(in), st, "a chunk is marked as replicated although its upload is not known to have succeeded")
				n, isNow := st.TS["now:"+itoa(tv.ID)]
				chk(isNow && n.S == "before", "sync-time-before-upload", eng.InstrPos(in), st, "the replication time is taken after the upload started: a modification in between is taken for a replicated one")
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				chk(!st.Has("dirty") || hasLoop(heads, root), "bookkeeping-persisted", root.Pos(), st, "the results of the replication are not written to the scan file afterwards")
			},
		}
	}
	j.Do(sites)
	laterKept(p, r)
	sweptSize(p, r)
	sweepEnds(p, r)
	readFirst(p, r)
	oldestFirst(p, r)
	syncTimeReal(p, r)
	r.Floor("synced-only-when-uploaded", 1)
	r.Floor("forgotten-only-when-removed", 1)
	r.Floor("sweep-only-over-limit", 1)
	r.Floor("nothing-left-unreplicated", 1)
	r.Floor("upload-after-quiet-period", 1)
}

// laterKept: what is known about a chunk from two sources is put together so
// that its last modification is not forgotten.
func laterKept(p *lib.Prog, r *lib.Report) {
	isInfos := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && strings.HasSuffix(lib.TypeKey(m.Elem()), ".scanInfo")
	}
	var roots []*ssa.Function
	for _, f := range p.InPkg(cfs) {
		looks, puts := false, false
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Lookup:
				looks = looks || isInfos(x.X.Type())
			case *ssa.MapUpdate:
				puts = puts || isInfos(x.Map.Type())
			}
		})
		if looks && puts && f.Parent() == nil {
			roots = append(roots, f)
		}
	}
	j := &lib.Job{P: p, R: r, Roots: roots, KeepFact: func(v *eng.Val) bool { return true }, NoInline: func(root, f *ssa.Function) bool {
		return lib.PkgOf(f) != cfs
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		return eng.Hooks{
			Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.Lookup:
					if isInfos(x.X.Type()) {
						st.Del("old")
						st.Del("cmp")
					}
				case *ssa.Extract:
					if lk, ok := x.Tuple.(*ssa.Lookup); ok && isInfos(lk.X.Type()) {
						if t := e.Env(st, fr, lk); t.K == eng.KTuple && len(t.Args) == 2 {
							st.Set("old", "", t.Args[0], t.Args[1])
						}
					}
				case *ssa.MapUpdate:
					if !isInfos(x.Map.Type()) {
						return
					}
					t, ok := st.TS["old"]
					if !ok {
						return
					}
					if there, known := st.Eval(t.V[1]); !known || !there {
						return
					}
					v := e.Env(st, fr, x.Value)
					m, om := st.FieldOf(v, "Mtime", nil), st.FieldOf(t.V[0], "Mtime", nil)
					if m == nil || om == nil || m == om && st.FieldOf(v, "ID", nil) == st.FieldOf(t.V[0], "ID", nil) {
						return // the entry itself, with something else changed
					}
					c, compared := st.TS["cmp"]
					good := false
					if compared {
						// c.V[0] is not earlier than c.V[1]
						good = m == c.V[0]
					}
					r.Check(good, "last-change-kept", lib.Name(root), x.Pos(), st, "two facts about a chunk are put together, but the modification time that stays (%s) is not the later one: its changes may never be replicated", m)
				}
			},
			Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
				for cond.K == eng.KUn && cond.Op == token.NOT {
					cond, taken = cond.Args[0], !taken
				}
				a, b := cond, cond
				switch {
				case cond.K == eng.KCall && len(cond.Args) == 2 && cond.Name == "(time.Time).After":
					a, b = cond.Args[0], cond.Args[1]
				case cond.K == eng.KCall && len(cond.Args) == 2 && cond.Name == "(time.Time).Before":
					a, b = cond.Args[1], cond.Args[0]
				default:
					return
				}
				if t, ok := st.TS["old"]; !ok || !(a.Contains(t.V[0]) || b.Contains(t.V[0])) {
					return
				}
				if !ofInfo(a, "Mtime") && !ofInfo(b, "Mtime") {
					return
				}
				if taken {
					st.Set("cmp", "", a, b)
				} else {
					st.Set("cmp", "", b, a)
				}
			},
		}
	}
	if len(roots) > 0 {
		j.Do(nil)
	}
}

func ofInfo(v *eng.Val, field string) bool {
	f := false
	v.Walk(func(x *eng.Val) bool {
		f = f || (x.K == eng.KField || x.K == eng.KFld) && x.Name == field
		return !f
	})
	return f
}

// sweptSize: the size of the folder goes down by the chunks that were removed,
// and by those only.
func sweptSize(p *lib.Prog, r *lib.Report) {
	for _, f := range p.InPkg(cfs) {
		var del *ssa.Call
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && lib.CallName(c) == replT+"DeleteChunk" {
				del = c
			}
		})
		if del == nil {
			continue
		}
		// the block reached only when it was removed
		var gone *ssa.BasicBlock
		eachInstr(f, func(in ssa.Instruction) {
			i, ok := in.(*ssa.If)
			if !ok {
				return
			}
			b, ok := i.Cond.(*ssa.BinOp)
			if !ok || b.X != ssa.Value(del) && b.Y != ssa.Value(del) {
				return
			}
			if b.Op == token.EQL {
				gone = i.Block().Succs[0]
			} else if b.Op == token.NEQ {
				gone = i.Block().Succs[1]
			}
		})
		if gone == nil || len(gone.Preds) != 1 {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			i, ok := in.(*ssa.If)
			if !ok {
				return
			}
			b, ok := i.Cond.(*ssa.BinOp)
			if !ok {
				return
			}
			var v ssa.Value
			for k, x := range []ssa.Value{b.X, b.Y} {
				if readsField(x, "SweepMinThresholdSize", 0) {
					v = []ssa.Value{b.Y, b.X}[k]
				}
			}
			if v == nil {
				return
			}
			for x := range lenSum(v).coef {
				ph, ok := x.(*ssa.Phi)
				if !ok {
					continue
				}
				name := lib.Name(f)
				r.AddFunc(f)
				for k, e := range ph.Edges {
					s := lenSum(e)
					if s.coef[ph] != 1 {
						continue
					}
					removed := gone == ph.Block().Preds[k] || gone.Dominates(ph.Block().Preds[k])
					r.Check(removed == (len(s.coef) > 1), "swept-size-true", name, e.Pos(), nil, "the size of the folder must go down by the size of a chunk exactly when the chunk was removed: the sweep stops too early or goes too far")
				}
			}
		})
	}
}

// readFirst: what a file tells about a replication is read before the file is
// removed.
func readFirst(p *lib.Prog, r *lib.Report) {
	reads := func(c ssa.CallInstruction, v ssa.Value) bool {
		n := lib.CallName(c)
		com := c.Common()
		if n == "os.ReadFile" || n == "os.Open" {
			return com.Args[0] == v
		}
		g := com.StaticCallee()
		if g == nil || lib.PkgOf(g) != cfs {
			return false
		}
		found := false
		for i, a := range com.Args {
			if a != v || i >= len(g.Params) {
				continue
			}
			eachInstr(g, func(in ssa.Instruction) {
				if m := lib.CallName(in); m == "os.ReadFile" || m == "os.Open" {
					found = found || in.(ssa.CallInstruction).Common().Args[0] == ssa.Value(g.Params[i])
				}
			})
		}
		return found
	}
	for _, f := range p.InPkg(cfs) {
		var removed []*ssa.Call
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && lib.CallName(in) == "os.Remove" {
				removed = append(removed, c)
			}
		})
		for _, rm := range removed {
			v := rm.Call.Args[0]
			eachInstr(f, func(in ssa.Instruction) {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !reads(c, v) {
					return
				}
				before := rm.Block() != in.Block() && rm.Block().Dominates(in.Block())
				if rm.Block() == in.Block() {
					at := map[ssa.Instruction]int{}
					for i, x := range in.Block().Instrs {
						at[x] = i
					}
					before = at[rm] < at[in]
				}
				r.AddFunc(f)
				r.Check(!before, "read-before-removed", lib.Name(f), in.Pos(), nil, "the file is read after it was removed: what it tells of the replication is lost")
			})
		}
	}
	r.Floor("read-before-removed", 1)
}

// oldestFirst: the sweep begins with the chunks that were not modified for the
// longest time.
func oldestFirst(p *lib.Prog, r *lib.Report) {
	n := 0
	for _, f := range p.InPkg(cfs) {
		sweeps := false
		eachInstr(f, func(in ssa.Instruction) {
			if lib.CallName(in) == replT+"DeleteChunk" && strings.Contains(lib.Name(f), "Scanner") {
				h, _ := loopOf(in.Block())
				sweeps = sweeps || h != nil
			}
		})
		if !sweeps {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			if k := lib.CallName(in); !strings.HasPrefix(k, "sort.Slice") && !strings.HasPrefix(k, "slices.Sort") {
				return
			}
			c := in.(ssa.CallInstruction).Common()
			if len(c.Args) < 2 {
				return
			}
			var cl *ssa.Function
			switch x := c.Args[1].(type) {
			case *ssa.MakeClosure:
				cl, _ = x.Fn.(*ssa.Function)
			case *ssa.Function:
				cl = x
			}
			if cl == nil || len(cl.Params) != 2 {
				return
			}
			if asc, decided := ascending(p, cl, "Mtime"); decided {
				n++
				r.AddFunc(f)
				r.Check(asc, "oldest-first", lib.Name(f), in.Pos(), nil, "the sweep does not begin with the chunk that was not modified for the longest time")
			}
		})
	}
	r.Note("%d order(s) of the sweep decided", n)
}

// sweepEnds: the sweep goes on until the folder is below the minimum.
func sweepEnds(p *lib.Prog, r *lib.Report) {
	for _, f := range p.InPkg(cfs) {
		if !strings.Contains(lib.Name(f), "Scanner") {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			if lib.CallName(in) != replT+"DeleteChunk" {
				return
			}
			head, body := loopOf(in.Block())
			if head == nil {
				return
			}
			name := lib.Name(f)
			r.AddFunc(f)
			for b := range body {
				i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok || body[b.Succs[0]] && body[b.Succs[1]] {
					continue
				}
				why := b == head || dependsOn(i.Cond, func(v ssa.Value) bool {
					if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							s := ptrElem(fa.X.Type()).Underlying().(*types.Struct)
							return s.Field(fa.Field).Name() == "SweepMinThresholdSize"
						}
					}
					if fl, ok := v.(*ssa.Field); ok {
						return fl.X.Type().Underlying().(*types.Struct).Field(fl.Field).Name() == "SweepMinThresholdSize"
					}
					if c, ok := v.(*ssa.Call); ok {
						if c.Call.IsInvoke() {
							return c.Call.Method.Name() == "Err" // the context
						}
						g := c.Call.StaticCallee()
						reads := false
						if g != nil && lib.PkgOf(g) == cfs {
							eachInstr(g, func(in ssa.Instruction) {
								if fa, ok := in.(*ssa.FieldAddr); ok {
									s := ptrElem(fa.X.Type()).Underlying().(*types.Struct)
									reads = reads || s.Field(fa.Field).Name() == "SweepMinThresholdSize"
								}
							})
						}
						return reads || lib.CallName(c) == "builtin.len"
					}
					return false
				})
				r.Check(why, "sweep-goes-on", name, eng.InstrPos(i), nil, "%s gives up before the folder is below SweepMinThresholdSize or all its chunks were looked at", name)
			}
		})
	}
	r.Floor("sweep-goes-on", 1)
}

// loopOf: the innermost natural loop of a block.
func loopOf(b *ssa.BasicBlock) (head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	for _, h := range b.Parent().Blocks {
		if !h.Dominates(b) {
			continue
		}
		m := map[*ssa.BasicBlock]bool{h: true}
		var add func(x *ssa.BasicBlock)
		add = func(x *ssa.BasicBlock) {
			if !m[x] {
				m[x] = true
				for _, q := range x.Preds {
					add(q)
				}
			}
		}
		back := false
		for _, q := range h.Preds {
			if h.Dominates(q) {
				back = true
				add(q)
			}
		}
		if back && m[b] && (head == nil || len(m) < len(body)) {
			head, body = h, m
		}
	}
	return
}

// dependsOn: the value is computed from one that satisfies the predicate.
func dependsOn(v ssa.Value, pred func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int) bool
	walk = func(v ssa.Value, d int) bool {
		if v == nil || seen[v] || d > 12 {
			return false
		}
		seen[v] = true
		if pred(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			return walk(x.X, d+1) || walk(x.Y, d+1)
		case *ssa.UnOp:
			return walk(x.X, d+1)
		case *ssa.Convert:
			return walk(x.X, d+1)
		case *ssa.ChangeType:
			return walk(x.X, d+1)
		case *ssa.Extract:
			return walk(x.Tuple, d+1)
		case *ssa.FieldAddr:
			return walk(x.X, d+1)
		case *ssa.Field:
			return walk(x.X, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e, d+1) {
					return true
				}
			}
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if walk(a, d+1) {
					return true
				}
			}
		}
		return false
	}
	return walk(v, 0)
}

// syncTimeReal: the time of a replication is a time that has been, not one
// that was made up.
func syncTimeReal(p *lib.Prog, r *lib.Report) {
	var madeUp func(v ssa.Value, d int) bool
	madeUp = func(v ssa.Value, d int) bool {
		if d > 6 || v == nil {
			return false
		}
		switch x := v.(type) {
		case *ssa.Call:
			n := lib.CallName(x)
			if n == "(time.Time).Add" || n == "(time.Time).AddDate" {
				return true
			}
			if n == "(time.Time).Sub" || n == "time.Now" {
				return false
			}
		case *ssa.Alloc:
			for _, u := range *x.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == v && madeUp(s.Val, d+1) {
					return true
				}
			}
			return false
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, o := range in.Operands(nil) {
				if madeUp(*o, d+1) {
					return true
				}
			}
		}
		return false
	}
	for _, f := range p.InPkg(cfs) {
		eachInstr(f, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !strings.HasSuffix(lib.FieldAddrKey(fa), ".scanInfo.SyncTime") {
				return
			}
			r.Check(!madeUp(s.Val, 0), "sync-time-real", lib.Name(f), s.Pos(), nil, "%s marks a chunk as replicated at another time than it was", lib.Name(f))
		})
	}
}

func readsField(v ssa.Value, field string, d int) bool {
	if d > 6 {
		return false
	}
	if fieldReadOf(v, field) != nil {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && readsField(*o, field, d+1) {
			return true
		}
	}
	return false
}

// sameID: both values are the same abstract value.
func sameID(a, b *eng.Val) bool { return a == b }

func hasLoop(heads map[ssa.Instruction]bool, f *ssa.Function) bool {
	for in := range heads {
		if in.Parent() == f {
			return true
		}
	}
	return false
}

func init() {
	register("C32", scannerFlow, "")
}
