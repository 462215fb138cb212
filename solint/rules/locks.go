package rules

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// lockedType is a struct whose mutable fields are protected by its mutex.
type lockedType struct {
	key     string // module-relative type name
	lock    string
	rw      bool
	mutable map[string]bool // fields that change after construction
}

// lockedTypes finds the structs with exactly one mutex and infers, from every
// function of the module, which of their fields (or the containers behind
// them) are changed after construction.
func lockedTypes(p *lib.Prog, exempt map[string]string) map[string]*lockedType {
	res := map[string]*lockedType{}
	fieldsOf := map[string]*types.Struct{}
	for _, pk := range p.Pkgs {
		if pk.Types == nil {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			k := lib.TypeKey(tn.Type())
			if _, no := exempt[k]; no {
				continue
			}
			var locks []*types.Var
			for i := 0; i < st.NumFields(); i++ {
				if isMutex(st.Field(i).Type()) {
					locks = append(locks, st.Field(i))
				}
			}
			if len(locks) != 1 || st.NumFields() < 2 {
				continue
			}
			res[k] = &lockedType{key: k, lock: locks[0].Name(), rw: strings.HasSuffix(locks[0].Type().String(), "RWMutex"), mutable: map[string]bool{}}
			fieldsOf[k] = st
		}
	}
	// containers without a lock of their own that change through their methods
	mutating := map[string]bool{}
	for _, f := range p.Funcs {
		if f.Signature.Recv() == nil || len(f.Params) == 0 {
			continue
		}
		rk := lib.TypeKey(f.Params[0].Type())
		if rk == "" || res[rk] != nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if a := addrBase(x.Addr); a == f.Params[0] || loadOf(a) == f.Params[0] {
						mutating[rk] = true
					}
				}
			}
		}
	}
	mark := func(a ssa.Value) {
		if fa, ok := a.(*ssa.FieldAddr); ok {
			k := lib.TypeKey(fa.X.Type())
			lt := res[k]
			if lt == nil || freshAlloc(fa.X) {
				return
			}
			n := fieldsOf[k].Field(fa.Field).Name()
			if n != lt.lock {
				lt.mutable[n] = true
			}
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					a := x.Addr
					for {
						if ia, ok := a.(*ssa.IndexAddr); ok {
							if l := loadOf(ia.X); l != nil {
								a = l
							} else {
								a = ia.X
							}
							continue
						}
						break
					}
					mark(a)
				case *ssa.MapUpdate:
					if l := loadOf(x.Map); l != nil {
						mark(l)
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						if l := loadOf(x.Call.Args[0]); l != nil {
							mark(l)
						}
					}
				}
			}
		}
	}
	for k, st := range fieldsOf {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			fk := lib.TypeKey(f.Type())
			if _, ptr := f.Type().Underlying().(*types.Pointer); ptr && mutating[fk] && res[fk] == nil {
				res[k].mutable[f.Name()] = true
			}
			if strings.HasPrefix(fk, "sync/atomic.") {
				delete(res[k].mutable, f.Name())
			}
		}
	}
	for k, lt := range res {
		if len(lt.mutable) == 0 {
			delete(res, k)
		}
	}
	return res
}

func addrBase(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		default:
			return a
		}
	}
}

// loadOf: the address v was loaded from.
func loadOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return x.X
			}
			return nil
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
}

// freshAlloc: the object was created in this function (a constructor).
func freshAlloc(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return freshAlloc(x.X)
	}
	return false
}

// lockDiscipline checks that mutable state shared between goroutines is
// touched only under its lock, that locks are given back on every exit, and
// that nobody blocks on a channel while holding one.
func lockDiscipline(p *lib.Prog, r *lib.Report, pkgs []string, exempt map[string]string, atomicFields map[string]bool) {
	lts := lockedTypes(p, exempt)
	inPk := map[string]bool{}
	for _, k := range pkgs {
		inPk[k] = true
	}
	var keys []string
	for k, lt := range lts {
		if !inPk[k[:strings.LastIndex(k, ".")]] {
			delete(lts, k)
			continue
		}
		for f := range lt.mutable {
			if atomicFields[k+"."+f] {
				delete(lt.mutable, f)
			}
		}
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		var fs []string
		for f := range lts[k].mutable {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		r.Note("%s: lock %s guards %s", k, lts[k].lock, strings.Join(fs, ", "))
	}
	isLockCall := func(n string) bool {
		return strings.HasPrefix(n, "(*sync.Mutex).") || strings.HasPrefix(n, "(*sync.RWMutex).")
	}
	touches := func(f *ssa.Function, in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			return lts[lib.TypeKey(x.X.Type())] != nil
		case *ssa.Field:
			return lts[lib.TypeKey(x.X.Type())] != nil
		}
		return isLockCall(lib.CallName(in))
	}
	rel := p.Reaching(touches)
	roots := p.Roots(pkgs...)
	j := &lib.Job{P: p, R: r, Roots: roots, Relevant: rel, KeepFact: lib.KeepOutcome, NoHavoc: true, NoInline: func(root, f *ssa.Function) bool {
		return lib.PkgOf(f) != lib.PkgOf(root)
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		type guard struct {
			lt   *lockedType
			base *eng.Val
		}
		guardOf := func(a *eng.Val) (g guard, field string, ok bool) {
			for a.K == eng.KIndex {
				a = a.Args[0]
			}
			if a.K != eng.KField || a.Args[0].Typ == nil {
				return
			}
			lt := lts[lib.TypeKey(a.Args[0].Typ)]
			if lt == nil || !lt.mutable[a.Name] {
				return
			}
			if eng.AddrRoot(a).K == eng.KAlloc {
				return // being constructed
			}
			return guard{lt, a.Args[0]}, a.Name, true
		}
		held := func(st *eng.State, g guard) string {
			return st.Get("lk:" + itoa(e.In.Node(eng.KField, 0, g.lt.lock, nil, g.base).ID))
		}
		lockID := func(a *eng.Val) string {
			if a.K == eng.KField {
				return itoa(e.In.Node(eng.KField, 0, a.Name, nil, a.Args[0]).ID)
			}
			return itoa(a.ID)
		}
		need := func(st *eng.State, g guard, field string, write bool, pos token.Pos) {
			h := held(st, g)
			ok := h == "w" || h == "r" && !write
			how := "read"
			if write {
				how = "changed"
			}
			r.Check(ok, "guarded-field", lib.Name(root)+": "+g.lt.key+"."+field, pos, st, "%s.%s is %s without holding %s (path from %s)", g.lt.key, field, how, g.lt.lock, name)
		}
		inner := func(st *eng.State, fr *eng.Frame, v ssa.Value, write bool, pos token.Pos) {
			val := e.Env(st, fr, v)
			if t, ok := st.TS["in:"+itoa(val.ID)]; ok {
				lt := lts[t.S[:strings.LastIndex(t.S, "#")]]
				need(st, guard{lt, t.V[0]}, t.S[strings.LastIndex(t.S, "#")+1:], write, pos)
			}
		}
		return eng.Hooks{
			Load: func(st *eng.State, fr *eng.Frame, addr *eng.Val, in ssa.Instruction) {
				g, f, ok := guardOf(addr)
				if !ok {
					return
				}
				need(st, g, f, false, eng.InstrPos(in))
				if u, isU := in.(*ssa.UnOp); isU {
					switch deref(u.X.Type()).Underlying().(type) {
					case *types.Map, *types.Slice, *types.Pointer:
						v := st.Load(addr, u.Type())
						if v.K != eng.KNil && v.K != eng.KZero {
							st.Set("in:"+itoa(v.ID), g.lt.key+"#"+f, g.base, v)
						}
					}
				}
			},
			Store: func(st *eng.State, fr *eng.Frame, addr, v *eng.Val, in ssa.Instruction) {
				if g, f, ok := guardOf(addr); ok {
					need(st, g, f, true, eng.InstrPos(in))
				}
				// the bitmap lives in the buffer the blocks are stored in
				if fn := in.Parent(); addr.K == eng.KIndex && eng.AddrRoot(addr).K != eng.KAlloc && fn.Signature.Recv() != nil && lib.TypeKey(fn.Params[0].Type()) == "golibs/container/bytes.Blocks" {
					held := false
					for _, k := range st.KeysPrefix("lk:") {
						held = held || st.TS[k].S == "w"
					}
					r.Check(held, "guarded-bitmap", name, eng.InstrPos(in), st, "%s changes the map of the used blocks without holding the lock: two callers get the same block", name)
				}
			},
			Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					inner(st, fr, x.Map, true, eng.InstrPos(in))
				case *ssa.Lookup:
					inner(st, fr, x.X, false, eng.InstrPos(in))
				case *ssa.Range:
					inner(st, fr, x.X, false, eng.InstrPos(in))
				case *ssa.Select:
					if x.Blocking {
						for _, k := range st.KeysPrefix("lk:") {
							r.Bad("no-blocking-under-lock", name, eng.InstrPos(in), st, "%s waits on channels while holding %s", name, st.TS[k].S)
						}
					}
				case *ssa.Send:
					if ks := st.KeysPrefix("lk:"); len(ks) > 0 {
						r.Bad("no-blocking-under-lock", name, eng.InstrPos(in), st, "%s sends to a channel while holding a lock", name)
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						if ks := st.KeysPrefix("lk:"); len(ks) > 0 {
							r.Bad("no-blocking-under-lock", name, eng.InstrPos(in), st, "%s receives from a channel while holding a lock", name)
						}
					}
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				n := c.Name()
				if c.Kind == eng.CKDefer {
					return nil
				}
				if isLockCall(n) && len(c.Args) > 0 && c.Args[0].K == eng.KField && c.Args[0].Args[0].Typ != nil && exempt[lib.TypeKey(c.Args[0].Args[0].Typ)] != "" {
					return nil
				}
				switch n {
				case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
					k := "lk:" + lockID(c.Args[0])
					h := st.Get(k)
					r.Check(h == "", "lock-pairing", name, c.Pos(), st, "%s locks a mutex it holds already: it waits for itself forever", name)
					m := "w"
					if strings.HasSuffix(n, "RLock") {
						m = "r"
					}
					st.Set(k, m, c.Args[0])
				case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
					k := "lk:" + lockID(c.Args[0])
					m := "w"
					if strings.HasSuffix(n, "RUnlock") {
						m = "r"
					}
					r.Check(st.Get(k) == m, "lock-pairing", name, c.Pos(), st, "%s unlocks a mutex it does not hold (in that mode)", name)
					st.Del(k)
				case "time.Sleep", "(*sync.WaitGroup).Wait":
					if ks := st.KeysPrefix("lk:"); len(ks) > 0 {
						r.Bad("no-blocking-under-lock", name, c.Pos(), st, "%s sleeps while holding a lock", name)
					}
				case "builtin.delete", "builtin.clear":
					if t, ok := st.TS["in:"+itoa(c.Args[0].ID)]; ok {
						i := strings.LastIndex(t.S, "#")
						need(st, guard{lts[t.S[:i]], t.V[0]}, t.S[i+1:], true, c.Pos())
					}
				}
				// methods of a guarded container
				if len(c.Args) > 0 && c.Fn != nil && c.Fn.Signature.Recv() != nil {
					if t, ok := st.TS["in:"+itoa(c.Args[0].ID)]; ok {
						i := strings.LastIndex(t.S, "#")
						need(st, guard{lts[t.S[:i]], t.V[0]}, t.S[i+1:], true, c.Pos())
					}
				}
				return nil
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				for _, k := range st.KeysPrefix("lk:") {
					r.Bad("lock-pairing", name, root.Pos(), st, "%s returns with %s locked: everybody else waits forever", name, st.TS[k].V[0])
				}
				r.Ok("lock-pairing", name, root.Pos())
			},
		}
	}
	j.Do(nil)
}

func init() {
	register("C21", func(p *lib.Prog, r *lib.Report) {
		lockDiscipline(p, r, []string{"golibs/kvs/inmem", "golibs/sss/inmem", "golibs/container/lru", "golibs/container/bytes", "golibs/timeout", "golibs/context", cfs, lfs, "golibs/logging"}, map[string]string{
			cfs + ".Chunk": "decided by C06: the lock is handed over to readers",
		}, map[string]bool{})
		r.Floor("guarded-field", 20)
		r.Floor("lock-pairing", 20)
		r.Floor("guarded-bitmap", 2)
	}, "")
}
