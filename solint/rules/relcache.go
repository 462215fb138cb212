package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

const lruP = "golibs/container/lru"
const mapK = "golibs/container/iterable.Map"

// roles resolves the fields of a struct by what they are: by name first, by
// the only field of a matching type otherwise.
func roles(p *lib.Prog, r *lib.Report, rel, typ string, want map[string]func(t types.Type) bool) map[string]string {
	n := p.Named(rel, typ)
	if n == nil {
		r.Bad("anchor", rel+"."+typ, token.NoPos, nil, "the type %s.%s is not there", rel, typ)
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		r.Bad("anchor", rel+"."+typ, token.NoPos, nil, "%s.%s is not a structure", rel, typ)
		return nil
	}
	res := map[string]string{}
	for role, pred := range want {
		cnt := 0
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Name() == role && pred(f.Type()) {
				res[role], cnt = role, 1
				break
			}
			if pred(f.Type()) {
				res[role] = f.Name()
				cnt++
			}
		}
		if cnt != 1 {
			r.Bad("anchor", rel+"."+typ+"."+role, token.NoPos, nil, "cannot find the field %s of %s.%s", role, rel, typ)
			return nil
		}
	}
	return res
}

func fieldType(t types.Type, name string) types.Type {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

func mapOf(elem func(types.Type) bool) func(types.Type) bool {
	return func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && elem(m.Elem())
	}
}
func isChanT(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }
func isPtr(t types.Type) bool   { _, ok := t.Underlying().(*types.Pointer); return ok }
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}
func funcResults(n int) func(types.Type) bool {
	return func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Signature)
		return ok && s.Results().Len() == n
	}
}

// fieldRead: v was loaded from the named field of the given type (SSA view).
func fieldRead(v ssa.Value, typ, field string) bool {
	fa, ok := loadOf(v).(*ssa.FieldAddr)
	if !ok || lib.TypeKey(fa.X.Type()) != typ {
		return false
	}
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	return ok && st.Field(fa.Field).Name() == field
}

// mapCall names a call of an iterable.Map method.
func mapCall(c *eng.Call) string {
	if c.Fn != nil && c.Fn.Signature.Recv() != nil && len(c.Fn.Params) > 0 && lib.TypeKey(c.Fn.Params[0].Type()) == mapK {
		return c.Fn.Name()
	}
	return ""
}

// releasable decides the protocol of the cache of borrowed objects.
func releasable(p *lib.Prog, r *lib.Report) {
	tk := lruP + ".ReleasableCache"
	ro := roles(p, r, lruP, "ReleasableCache", map[string]func(types.Type) bool{
		"allKnown":   mapOf(isPtr),
		"inflight":   mapOf(isChanT),
		"lruCache":   func(t types.Type) bool { return lib.TypeKey(t) == mapK },
		"closed":     isBoolT,
		"maxSize":    isIntT,
		"waiter":     isChanT,
		"createNewF": funcResults(2),
		"onDeleteF":  funcResults(0),
	})
	rh := roles(p, r, lruP, "rHolder", map[string]func(types.Type) bool{
		"refCounter": isIntT,
		"value":      func(t types.Type) bool { return !isIntT(t) },
	})
	if ro == nil || rh == nil {
		return
	}
	var roots []*ssa.Function
	for _, f := range p.Roots(lruP) {
		if f.Signature.Recv() != nil && lib.TypeKey(f.Params[0].Type()) == tk {
			roots = append(roots, f)
		}
	}
	read := func(v ssa.Value, role string) bool { return fieldRead(v, tk, ro[role]) }
	keep := func(v *eng.Val) bool { return true }
	j := &lib.Job{P: p, R: r, Roots: roots, KeepFact: keep, NoInline: func(root, f *ssa.Function) bool {
		return lib.PkgOf(f) != lruP
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		creates := root.Signature.Results().Len() == 2
		self := e.In.Param(root, 0)
		holderT := fieldType(root.Params[0].Type(), ro["allKnown"]).Underlying().(*types.Map).Elem()
		load := func(st *eng.State, role string) *eng.Val {
			return st.Load(e.In.Node(eng.KField, 0, ro[role], nil, self), fieldType(root.Params[0].Type(), ro[role]))
		}
		known := func(st *eng.State, v *eng.Val, want bool) bool {
			b, ok := st.Eval(v)
			return ok && b == want
		}
		holder := func(st *eng.State, h *eng.Val, role string) *eng.Val {
			return st.Load(e.In.Node(eng.KField, 0, rh[role], nil, h), fieldType(holderT, rh[role]))
		}
		sweepDone := func(st *eng.State, pos token.Pos) {
			t, ok := st.TS["first"]
			if !ok {
				return
			}
			a, l, d := st.Has("rmAll"), st.Has("rmLru"), st.Has("cb") || st.IsNil(load(st, "onDeleteF"))
			if a || l || st.Has("cb") {
				r.Check(a && l && d, "eviction-complete", name, pos, st, "an evicted element must be removed from the idle list and from the known elements, and be handed to the delete callback: %s (%s)", t.V[0], name)
			}
			for _, k := range []string{"first", "rmAll", "rmLru", "cb"} {
				st.Del(k)
			}
		}
		// room: less than maxSize elements are known or being created
		room := func(st *eng.State) (res, refuted bool) {
			want := lib.LinearSum(st.Len(load(st, "allKnown")), st.Len(load(st, "inflight"))).Sub(lib.Linear(load(st, "maxSize")))
			st.EachFact(func(v *eng.Val, val bool) {
				if v.K != eng.KBin || v.Op != token.LSS {
					return
				}
				a, b := lib.Linear(v.Args[0]), lib.Linear(v.Args[1])
				d, c := a.Sub(b), int64(1) // a-b+1 <= 0
				if !val {
					d, c = b.Sub(a), 0 // b-a <= 0
				}
				// want+1 <= 0 follows when (want+1)-(d+c) is a constant <= 0
				x := want.Sub(d)
				if x.IsConst() && x.C+1-c <= 0 {
					res = true
				}
				{
					n := lib.Lin{C: 0, Coef: map[*eng.Val]int64{}}
					n = n.Sub(want)
					m := lib.Lin{C: 0, Coef: map[*eng.Val]int64{}}
					if val {
						m = a.Sub(b)
					} else {
						m = b.Sub(a)
					}
					// -want <= 0, i.e. used >= maxSize
					k := int64(0)
					if val {
						k = 1
					}
					if y := n.Sub(m); y.IsConst() && y.C-k <= 0 {
						refuted = true
					}
				}
			})
			return
		}
		return eng.Hooks{
			Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					k, v := e.Env(st, fr, x.Key), e.Env(st, fr, x.Value)
					switch {
					case read(x.Map, "inflight"):
						ok, _ := room(st)
						r.Check(ok, "creation-within-capacity", name, eng.InstrPos(in), st, "%s starts a creation although it is not established that less than the maximum number of elements exist", name)
						r.Check(known(st, load(st, "closed"), false), "no-creation-when-closed", name, eng.InstrPos(in), st, "%s starts a creation in a cache that may be closed", name)
						st.Set("infl", "", k, v)
					case read(x.Map, "allKnown"):
						t, okT := st.TS["created"]
						ok := okT && st.IsNil(t.V[2]) && st.Has("infl") && st.TS["infl"].V[0] == k && t.V[0] == k
						r.Check(ok, "only-created-published", name, eng.InstrPos(in), st, "%s makes an element known that was not created successfully for this key", name)
						n, isC := eng.ConstInt(holder(st, v, "refCounter"))
						r.Check(isC && n == 1 && (!okT || holder(st, v, "value") == t.V[1]), "published-borrowed", name, eng.InstrPos(in), st, "%s publishes a new element that does not hold the created value with exactly one reference", name)
						st.Set("pub", "", v)
					}
				case *ssa.UnOp:
					if creates && x.Op == token.ARROW {
						r.Bad("wait-on-the-right-event", name, eng.InstrPos(in), st, "%s waits without watching its context", name)
					}
				case *ssa.Next:
					rg, ok := x.Iter.(*ssa.Range)
					if !ok || !read(rg.X, "inflight") {
						return
					}
					r.Check(st.Get("iter") != "open", "close-wakes-everybody", name, eng.InstrPos(in), st, "%s does not close the channel of every creation in progress", name)
					st.Set("iter", "next")
				case *ssa.Extract:
					if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 && read(lk.X, "inflight") {
						if t := e.Env(st, fr, lk); t.K == eng.KTuple && len(t.Args) == 2 {
							st.Set("lookup:"+itoa(t.Args[0].ID), "", t.Args[1])
						}
					}
					nx, ok := x.Tuple.(*ssa.Next)
					if !ok || x.Index != 2 {
						return
					}
					if rg, ok := nx.Iter.(*ssa.Range); ok && read(rg.X, "inflight") {
						st.Set("iter", "open")
						st.Set("iterv", "", e.Env(st, fr, nx))
					}
				case *ssa.Select:
					if !x.Blocking || !creates {
						return
					}
					good, done := true, false
					for _, s := range x.States {
						c := e.Env(st, fr, s.Chan)
						if c.K == eng.KCall && c.Name == "(context.Context).Done" {
							done = true
							continue
						}
						t, look := st.TS["lookup:"+itoa(c.ID)]
						look = look && known(st, t.V[0], true)
						_, full := room(st)
						if !(look || c == load(st, "waiter") && full) {
							good = false
						}
					}
					r.Check(good && done, "wait-on-the-right-event", name, eng.InstrPos(in), st, "%s must wait for the creation of the same key or, when the cache is full, for a released place, and for its context", name)
				}
			},
			Store: func(st *eng.State, fr *eng.Frame, addr, v *eng.Val, in ssa.Instruction) {
				if addr.K != eng.KField {
					return
				}
				if addr.Name == ro["waiter"] && addr.Args[0] == self {
					old := load(st, "waiter")
					if v.K == eng.KNil {
						if !st.Has("wclosed") {
							st.Set("wnil", "", old)
						}
						return
					}
					t, seen := st.TS["opened:"+itoa(old.ID)]
					r.Check(st.IsNil(old) || st.Has("wclosed") || seen && known(st, t.V[0], false), "waiter-kept", name, eng.InstrPos(in), st, "%s replaces the wait channel somebody may wait on", name)
				}
				if addr.Name == rh["refCounter"] && addr.Args[0].K != eng.KAlloc {
					old := holder(st, addr.Args[0], "refCounter")
					d := lib.Linear(v).Sub(lib.Linear(old))
					want := int64(-1)
					if creates {
						want = 1
					}
					r.Check(d.IsConst() && d.C == want && !st.Has("cnt"), "one-reference", name, eng.InstrPos(in), st, "%s must change the reference counter by %d exactly once", name, want)
					st.Set("cnt", "", addr.Args[0], v)
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind == eng.CKDefer {
					return nil
				}
				n := c.Name()
				switch n {
				case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
					st.Set("locked", "")
					return nil
				case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
					st.Del("locked")
					if st.Has("wclosed") {
						r.Check(st.IsNil(load(st, "waiter")), "waiter-reset", name, c.Pos(), st, "%s closes the wait channel but leaves it registered: it will be closed twice", name)
					}
					return nil
				case "builtin.close":
					a := c.Args[0]
					if t, ok := st.TS["infl"]; ok && t.V[1] == a {
						st.Set("inflclosed", "")
					} else if read(c.Common.Args[0], "waiter") || a == load(st, "waiter") {
						st.Set("wclosed", "")
					}
					if st.Get("iter") == "open" {
						st.Set("iter", "closed")
					}
					return nil
				case "builtin.delete":
					if read(c.Common.Args[0], "inflight") {
						if t, ok := st.TS["infl"]; ok {
							r.Check(t.V[0] == c.Args[1], "creation-unregistered", name, c.Pos(), st, "%s removes the registration of another key", name)
							st.Set("infldel", "")
						}
					} else if read(c.Common.Args[0], "allKnown") {
						t, ok := st.TS["first"]
						r.Check(ok && t.V[0] == c.Args[1], "eviction-complete", name, c.Pos(), st, "%s forgets an element that is not the first idle one", name)
						st.Set("rmAll", "")
					}
					return nil
				}
				switch m := mapCall(c); m {
				case "Remove":
					if t, ok := st.TS["first"]; ok && t.V[0] == c.Args[1] {
						st.Set("rmLru", "")
					} else {
						st.Set("idleRm", "", c.Args[1])
					}
					return &eng.Result{Opaque: true}
				case "Add":
					t, ok := st.TS["cnt"]
					z := ok && known(st, e.Eq(t.V[1], e.In.Int(0)), true) && !creates
					r.Check(z, "idle-only-when-released", name, c.Pos(), st, "%s puts an element on the idle list although somebody may still use it", name)
					st.Set("idle", "")
					return &eng.Result{Opaque: true}
				case "First":
					sweepDone(st, c.Pos())
					return &eng.Result{Opaque: true}
				case "":
				default:
					return &eng.Result{Opaque: true}
				}
				if c.Fn == nil && read(c.Common.Value, "createNewF") {
					t, ok := st.TS["infl"]
					r.Check(ok && !st.Has("created") && len(c.Args) > 1 && t.V[0] == c.Args[1], "creation-registered", name, c.Pos(), st, "%s creates an element without having registered the creation of this key", name)
					r.Check(!st.Has("locked"), "creation-unlocked", name, c.Pos(), st, "%s creates an element while holding the lock of the cache", name)
				}
				if c.Fn == nil && read(c.Common.Value, "onDeleteF") {
					ok := false
					if t, has := st.TS["first"]; has && c.Args[0] == t.V[0] {
						ok = true // an idle element is evicted
						st.Set("cb", "")
					}
					if t, has := st.TS["created"]; has && st.IsNil(t.V[2]) && c.Args[0] == t.V[0] && c.Args[1] == t.V[1] && known(st, load(st, "closed"), true) && !st.Has("pub") {
						ok = true // created for a closed cache
						st.Set("undone", "")
					}
					if t, has := st.TS["cnt"]; has && !creates && known(st, e.Eq(t.V[1], e.In.Int(0)), true) && known(st, load(st, "closed"), true) {
						ok = c.Args[1] == holder(st, t.V[0], "value") // the last reference is given back to a closed cache
						st.Set("undone", "")
					}
					r.Check(ok, "delete-only-unused", name, c.Pos(), st, "%s hands an element to the delete callback that may be used, was never created, or is deleted by somebody else", name)
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if c.Kind == eng.CKDefer {
					return
				}
				if c.Fn != nil && strings.HasPrefix(c.Fn.Name(), "IsOpened") && len(c.Args) == 1 {
					st.Set("opened:"+itoa(lib.Strip(c.Args[0]).ID), "", rets[0])
				}
				if mapCall(c) == "First" {
					st.Set("first", "", rets[0])
				}
				if c.Fn == nil && !c.Common.IsInvoke() && len(c.Args) > 1 && read(c.Common.Value, "createNewF") {
					st.Set("created", "", c.Args[1], rets[0], rets[1])
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				sweepDone(st, pos)
				closed := load(st, "closed")
				waiterWoken := func() bool {
					if t, ok := st.TS["wnil"]; ok && !st.Has("wclosed") {
						return st.IsNil(t.V[0])
					}
					return st.Has("wclosed") || st.IsNil(load(st, "waiter"))
				}
				if !waiterWoken() && st.Has("wnil") {
					r.Bad("waiter-kept", name, pos, st, "%s forgets the wait channel without closing it", name)
				}
				switch {
				case creates && st.Has("created"):
					t := st.TS["created"]
					if known(st, closed, true) {
						r.Check(st.IsNonNil(rets[1]), "closed-reported", name, pos, st, "%s returns success from a closed cache", name)
						if !st.IsNonNil(t.V[2]) {
							r.Check(st.Has("undone") || st.IsNil(load(st, "onDeleteF")), "created-not-leaked", name, pos, st, "%s drops an element it has created: nobody will delete it", name)
						}
						return
					}
					r.Check(st.Has("inflclosed") && st.Has("infldel"), "creation-unregistered", name, pos, st, "%s leaves its creation registered: everybody who needs the key waits forever", name)
					if st.IsNonNil(t.V[2]) {
						r.Check(waiterWoken(), "freed-place-announced", name, pos, st, "%s does not wake up who waits for a free place when the creation fails", name)
						r.Check(st.IsNonNil(rets[1]), "creation-error-returned", name, pos, st, "%s hides the creation error", name)
						return
					}
					if t2, ok := st.TS["pub"]; ok && !st.IsNonNil(rets[1]) {
						r.Check(st.FieldOf(rets[0], "rh", nil) == t2.V[0], "returned-is-known", name, pos, st, "%s returns another element than the one it registered", name)
					} else {
						r.Check(!st.IsNil(t.V[2]) || ok, "created-not-leaked", name, pos, st, "%s neither registers nor returns the created element", name)
					}
				case creates:
					if !st.IsNonNil(rets[1]) {
						t, ok := st.TS["cnt"]
						r.Check(ok && st.FieldOf(rets[0], "rh", nil) == t.V[0], "borrow-counted", name, pos, st, "%s returns an element without counting the reference", name)
						shared := func(n *eng.Val) bool { // others have it, too
							if known(st, e.Eq(n, e.In.Int(1)), false) {
								return true
							}
							if n.K != eng.KBin || n.Op != token.ADD || len(n.Args) != 2 {
								return false
							}
							old := n.Args[0] // the count before: n is old+1
							if old.K == eng.KConst {
								old = n.Args[1]
							}
							return known(st, e.Eq(old, e.In.Int(0)), false)
						}
						if ok && !shared(t.V[1]) {
							_, rm := st.TS["idleRm"]
							r.Check(rm, "borrowed-not-idle", name, pos, st, "%s borrows an idle element but leaves it on the idle list: it can be deleted while it is used", name)
						}
					} else {
						r.Check(!st.Has("cnt"), "borrow-counted", name, pos, st, "%s counts a reference but returns an error", name)
						r.Check(!st.Has("infl"), "creation-unregistered", name, pos, st, "%s returns with a creation registered which it does not make", name)
					}
				case st.Has("cnt"):
					t := st.TS["cnt"]
					z, zk := st.Eval(e.Eq(t.V[1], e.In.Int(0)))
					if zk && !z {
						return
					}
					if known(st, closed, true) {
						r.Check(st.Has("undone") || st.IsNil(load(st, "onDeleteF")), "released-is-deleted", name, pos, st, "%s gives back the last reference to a closed cache, but the element is not deleted", name)
						return
					}
					r.Check(st.Has("idle"), "released-is-idle", name, pos, st, "%s gives back the last reference but the element is not put on the idle list: it is never evicted", name)
					_, full := room(st)
					r.Check(waiterWoken() || full, "freed-place-announced", name, pos, st, "%s does not wake up who waits for a free place", name)
				case len(rets) == 1 && !st.IsNonNil(rets[0]) && known(st, closed, true): // Close
					r.Check(st.Has("iter") && waiterWoken(), "close-wakes-everybody", name, pos, st, "%s does not wake up everybody who waits", name)
				}
			},
		}
	}
	j.Do(nil)
}

func init() {
	register("C11", func(p *lib.Prog, r *lib.Report) {
		releasable(p, r)
	}, "")
}
