package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

func init() {
	register("C25", distLock, "")
}

const (
	dlP = kvsP + "/distlock"
	tmP = "golibs/timeout"
)

// distLock decides the distributed lock: when it is held, that it is given
// back, and that the lease is renewed only by the one who holds it.
func distLock(p *lib.Prog, r *lib.Report) {
	it := ifaceOf(p, "golibs/sync", "Locker")
	if it == nil {
		r.Bad("anchor", "sync.Locker", token.NoPos, nil, "the interface is not there")
		return
	}
	var roots []*ssa.Function
	var lockT types.Type
	for _, f := range implementers(p, []string{dlP}, it) {
		roots = append(roots, f)
		lockT = f.Params[0].Type()
	}
	if lockT == nil {
		r.Bad("anchor", "lockers", token.NoPos, nil, "no implementation of sync.Locker in %s", dlP)
		return
	}
	lockS := lockT.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	tokenF, keyF := "", ""
	for i := 0; i < lockS.NumFields(); i++ {
		f := lockS.Field(i)
		if isChanT(f.Type()) && tokenF == "" {
			tokenF = f.Name()
		}
		if isStr(f.Type()) && (keyF == "" || f.Name() == "key") {
			keyF = f.Name()
		}
	}
	// the renewals
	renews := map[*ssa.Function]bool{}
	for _, f := range p.InPkg(dlP) {
		eachInstr(f, func(in ssa.Instruction) {
			if strings.HasSuffix(lib.CallName(in), "kvs.Storage).CasByVersion") && f.Parent() == nil {
				renews[f] = true
			}
		})
		if f.Name() == "NewLocker" && f.Parent() == nil && len(f.Blocks) > 0 && f.Synthetic == "" {
			roots = append(roots, f)
		}
	}
	for f := range renews {
		roots = append(roots, f)
	}
	if len(renews) == 0 {
		r.Bad("anchor", "renewal", token.NoPos, nil, "nothing renews the lease in %s", dlP)
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, KeepFact: lib.KeepNil, NoInline: func(root, f *ssa.Function) bool {
		return lib.PkgOf(f) != dlP || renews[f] && f != root
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		return lockHooks(p, r, e, root, renews, tokenF, keyF)
	}
	j.Do(nil)
	r.Floor("acquired", 3)
	r.Floor("given-back", 4)
	r.Floor("renewed", 3)
	r.Floor("key", 5)
	r.Floor("waits", 3)
}

func lockHooks(p *lib.Prog, r *lib.Report, e *eng.Engine, root *ssa.Function, renews map[*ssa.Function]bool, tokenF, keyF string) eng.Hooks {
	name := lib.Name(root)
	op := root.Name()
	self := e.In.Param(root, 0)
	renewal := renews[root]
	isToken := func(ch *eng.Val) bool { return ofParam(ch, self, tokenF) }
	isKey := func(v *eng.Val) bool { return ofParam(lib.Strip(v), self, keyF) }
	lease := func(v *eng.Val) bool {
		n, _ := loadedFrom(v)
		return n != "" && strings.HasSuffix(lib.TypeKey(v.Typ), "time.Duration")
	}
	// expires: a point in time that is the lease from now
	expires := func(st *eng.State, v *eng.Val) bool {
		v = lib.Strip(v)
		if v.K == eng.KCall && strings.HasPrefix(v.Name, "golibs/cast.Ptr") {
			v = v.Args[0]
		} else if x := st.Load(v, nil); v.K == eng.KAlloc && x != nil {
			v = x
		}
		v = lib.Strip(v)
		return v.K == eng.KCall && v.Name == "(time.Time).Add" && lib.Strip(v.Args[0]).K == eng.KSym && lease(lib.Strip(v.Args[1]))
	}
	record := func(st *eng.State, c *eng.Call, what string) *eng.Val {
		rec := c.Args[len(c.Args)-1]
		fld := func(n string, t types.Type) *eng.Val { return lib.Strip(st.FieldOf(rec, n, t)) }
		r.Check(isKey(fld("Key", types.Typ[types.String])), "key", name+": "+what, c.Pos(), st, "%s: %s is about another key than the one of the lock", name, what)
		var pt types.Type
		if t, ok := rec.Typ.Underlying().(*types.Struct); ok {
			for i := 0; i < t.NumFields(); i++ {
				if t.Field(i).Name() == "ExpiresAt" {
					pt = t.Field(i).Type()
				}
			}
		}
		r.Check(expires(st, fld("ExpiresAt", pt)), "lease", name+": "+what, c.Pos(), st, "%s: %s does not end by itself after the lease: the lock of a process that is gone is never given back", name, what)
		return rec
	}
	shut := func(st *eng.State) bool { return st.Get("open?") == "no" }
	created := func(st *eng.State) (ok, known bool) {
		t, was := st.TS["created"]
		if !was {
			return false, true
		}
		if st.IsNil(t.V[1]) {
			return true, true
		}
		return false, st.IsNonNil(t.V[1])
	}
	// held: everything that belongs to a lock that is held
	held := func(st *eng.State) string {
		ok, _ := created(st)
		switch {
		case !st.Has("token"):
			return "another goroutine may hold it"
		case st.Get("cnt") != "1":
			return "it is not marked as locked"
		case !ok:
			return "the key was not created"
		case !st.Has("renewing"):
			return "the lease is not renewed"
		case !st.Has("future"):
			return "the renewal cannot be called off"
		}
		return ""
	}
	took := func(st *eng.State, pos token.Pos) {
		r.Check(!st.Has("token"), "acquired", name+": token", pos, st, "%s takes the token twice", name)
		st.Set("token", "")
	}
	return eng.Hooks{
		Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Select:
				takes, ctx, done := false, false, false
				for _, s := range x.States {
					ch := lib.Strip(e.Env(st, fr, s.Chan))
					switch {
					case isToken(ch) && s.Dir == types.RecvOnly:
						takes = true
					case ch.K == eng.KCall && ch.Name == "(context.Context).Done":
						ctx = ctx || len(root.Params) > 1 && ch.Args[0] == e.In.Param(root, 1) || op == "Lock"
					default:
						done = done || s.Dir == types.RecvOnly
					}
				}
				if !takes {
					return
				}
				if op == "TryLock" {
					r.Check(!x.Blocking, "waits", name+": never", x.Pos(), st, "%s waits for the lock", name)
				} else {
					r.Check(ctx, "waits", name+": context", x.Pos(), st, "%s waits for the lock without watching its context", name)
				}
				r.Check(done, "waits", name+": shutdown", x.Pos(), st, "%s does not notice the shutdown", name)
			case *ssa.UnOp:
				if x.Op == token.ARROW && isToken(lib.Strip(e.Env(st, fr, x.X))) {
					r.Check(op == "Lock", "waits", name+": context", x.Pos(), st, "%s waits for the lock without watching its context", name)
					took(st, x.Pos())
				}
			case *ssa.Send:
				ch := lib.Strip(e.Env(st, fr, x.Chan))
				if op == "NewLocker" {
					st.Set("sent", st.Get("sent")+"1", ch)
					return
				}
				if !isToken(ch) {
					return
				}
				ok, known := created(st)
				r.Check(st.Has("token"), "given-back", name+": once", x.Pos(), st, "%s gives back the token it does not have: two can hold the lock", name)
				r.Check(st.Get("cnt") != "1", "given-back", name+": unlocked", x.Pos(), st, "%s gives the token back while the lock is marked as locked: the next one panics", name)
				r.Check(known && !ok && !st.Has("mine") || st.Has("deleted"), "given-back", name+": key", x.Pos(), st, "%s gives the token back while the key is there", name)
				st.Del("token")
			}
		},
		Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
			for cond.K == eng.KUn && cond.Op == token.NOT {
				cond, taken = cond.Args[0], !taken
			}
			for _, k := range []string{"open?", "future"} {
				if t, ok := st.TS[k]; ok && len(t.V) > 0 && t.V[0] == cond {
					st.Set(k, map[bool]string{true: "yes", false: "no"}[taken], t.V...)
				}
			}
			if cond.K != eng.KBin || cond.Op != token.EQL || !taken {
				return
			}
			a, b := cond.Args[0], cond.Args[1]
			if _, isC := eng.ConstInt(a); isC {
				a, b = b, a
			}
			n, ok := eng.ConstInt(b)
			sel, is := a.Ref.(*ssa.Select)
			chs := e.SelChans(a)
			if !ok || !is || int(n) >= len(sel.States) || len(chs) != len(sel.States) {
				return
			}
			if sel.States[n].Dir == types.RecvOnly && isToken(lib.Strip(chs[n])) {
				took(st, sel.Pos())
			}
		},
		Call: func(st *eng.State, c *eng.Call) *eng.Result {
			if c.Kind == eng.CKDefer {
				return nil
			}
			n := c.Name()
			// counter: the operation on the counter of the lock
			counter := func() bool {
				return len(c.Args) > 0 && c.Args[0].K == eng.KField && c.Args[0].Args[0] == self
			}
			switch {
			case (strings.HasPrefix(n, "sync/atomic.CompareAndSwap") || strings.HasPrefix(n, "(*sync/atomic.") && strings.HasSuffix(n, ").CompareAndSwap")) && counter() && len(c.Args) == 3:
				from, ok1 := eng.ConstInt(lib.Strip(c.Args[1]))
				to, ok2 := eng.ConstInt(lib.Strip(c.Args[2]))
				if !ok1 || !ok2 {
					return nil
				}
				yes := eng.Outcome{Rets: []*eng.Val{e.In.Bool(true)}, Do: func(st *eng.State) {
					st.Set("cnt", itoa(int(to)))
					if from == 1 && to == 0 && !st.Has("token") {
						// the one who holds the lock gives it back
						st.Set("token", "")
						st.Set("mine", "")
					}
				}}
				return &eng.Result{Outcomes: []eng.Outcome{yes, {Rets: []*eng.Val{e.In.Bool(false)}}}}
			case (strings.HasPrefix(n, "sync/atomic.Store") || strings.HasPrefix(n, "(*sync/atomic.Int") && strings.HasSuffix(n, ").Store")) && counter() && len(c.Args) == 2:
				if v, ok := eng.ConstInt(lib.Strip(c.Args[1])); ok {
					st.Set("cnt", itoa(int(v)))
				}
			case n == "time.Now" || n == "golibs/chans.IsOpened":
			case strings.HasPrefix(n, "golibs/cast.Ptr"):
				return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Node(eng.KCall, 0, n, c.Common.Signature().Results().At(0).Type(), c.Args...)}}}}
			case n == "(time.Time).Add":
				return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Node(eng.KCall, 0, n, c.Common.Signature().Results().At(0).Type(), c.Args...)}}}}
			case strings.HasSuffix(n, "kvs.Storage).Create"):
				r.Check(st.Has("token") && st.Get("cnt") == "1", "acquired", name+": locally first", c.Pos(), st, "%s creates the key without being the only one in the process who does", name)
				if st.Has("created") {
					r.Check(st.Has("waited"), "waits", name+": change", c.Pos(), st, "%s turns around all the time while another one holds the lock", name)
					t := st.TS["ctxerr"]
					r.Check(len(t.V) > 0 && st.IsNil(t.V[0]), "waits", name+": gives up", c.Pos(), st, "%s goes on though its context may be over", name)
				}
				record(st, c, "create")
			case strings.HasSuffix(n, "kvs.Storage).WaitForVersionChange"):
				r.Check(op != "TryLock" && !renewal, "waits", name+": never", c.Pos(), st, "%s waits for the key", name)
				if op != "Lock" {
					r.Check(len(root.Params) > 1 && c.Args[len(c.Args)-3] == e.In.Param(root, 1), "waits", name+": context", c.Pos(), st, "%s waits for the key without watching its context", name)
				}
				r.Check(isKey(c.Args[len(c.Args)-2]), "key", name+": wait", c.Pos(), st, "%s waits for another key", name)
				t, ok := st.TS["created"]
				r.Check(ok && c.Args[len(c.Args)-1] == t.V[0], "waits", name+": version", c.Pos(), st, "%s waits for the change of another version than the one there is", name)
				st.Set("waited", "")
				st.Del("ctxerr")
			case strings.HasSuffix(n, "kvs.Storage).Delete"):
				r.Check(st.Has("mine"), "given-back", name+": whose", c.Pos(), st, "%s deletes the key without holding the lock", name)
				r.Check(isKey(c.Args[len(c.Args)-1]), "key", name+": delete", c.Pos(), st, "%s deletes another key", name)
				st.Set("deleted", "")
			case strings.HasSuffix(n, "kvs.Storage).Put") || strings.HasSuffix(n, "kvs.Storage).PutMany"):
				r.Check(false, "acquired", name+": overwrites", c.Pos(), st, "%s overwrites the key whoever holds it", name)
			case strings.HasSuffix(n, "kvs.Storage).CasByVersion"):
				rec := record(st, c, "renewal")
				ver := lib.Strip(st.FieldOf(rec, "Version", types.Typ[types.String]))
				good := false
				for i, x := range root.Params {
					good = good || renewal && isStr(x.Type()) && ver == e.In.Param(root, i)
				}
				r.Check(good, "renewed", name+": version", c.Pos(), st, "%s renews whatever version there is: not its own", name)
			case n == tmP+".Call":
				// every so often before the lease is over
				d := lib.Strip(c.Args[1])
				k := int64(0)
				if d.K == eng.KBin && d.Op == token.QUO {
					k, _ = eng.ConstInt(d.Args[1])
					d = lib.Strip(d.Args[0])
				}
				r.Check(lease(d) && k >= 2, "renewed", name+": in time", c.Pos(), st, "%s does not renew the lease before it is over", name)
				ver := (*eng.Val)(nil)
				if t, ok := st.TS["created"]; ok && st.IsNil(t.V[1]) {
					ver = t.V[0]
				} else if t, ok := st.TS["renewal"]; ok {
					if st.IsNil(t.V[1]) {
						ver = lib.Strip(st.FieldOf(t.V[0], "Version", types.Typ[types.String]))
					} else if st.IsNonNil(t.V[1]) {
						// once again
						for i, x := range root.Params {
							if isStr(x.Type()) {
								ver = e.In.Param(root, i)
							}
						}
					}
				}
				r.Check(ver != nil && renewsWith(st, c.Args[0], renews, ver), "renewed", name+": what", c.Pos(), st, "%s does not renew the version of the key it has", name)
				st.Set("renewing", "")
			}
			return nil
		},
		After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
			switch n := c.Name(); {
			case strings.HasSuffix(n, "kvs.Storage).Create"):
				st.Set("created", "", rets...)
				st.Del("waited")
			case strings.HasSuffix(n, "kvs.Storage).CasByVersion"):
				st.Set("renewal", "", rets...)
			case n == "golibs/chans.IsOpened":
				st.Set("open?", "", rets[0])
			case n == "(context.Context).Err":
				st.Set("ctxerr", "", rets[0])
			case n == tmP+".Call":
				st.Set("future?", "", rets[0])
			case strings.HasPrefix(n, "(*sync/atomic.Value).") && (strings.HasSuffix(n, "Store") || strings.HasSuffix(n, "CompareAndSwap")):
				if t, ok := st.TS["future?"]; ok && c.Args[len(c.Args)-1].Contains(t.V[0]) {
					st.Set("future", "", rets...)
				}
			case strings.HasSuffix(n, "timeout.Future).Cancel"):
				if t, ok := st.TS["future?"]; ok && c.Args[0].Contains(t.V[0]) {
					st.Set("cancelled", "")
				}
			}
		},
		Store: func(st *eng.State, fr *eng.Frame, addr, v *eng.Val, in ssa.Instruction) {
			if addr.K != eng.KField {
				return
			}
			if op == "NewLocker" {
				if addr.Name == tokenF {
					st.Set("chan", "", v)
				}
				if addr.Name == keyF {
					ok := false
					for i := 1; i < len(root.Params); i++ {
						ok = ok || v.Contains(e.In.Param(root, i))
					}
					r.Check(ok, "key", name, in.Pos(), st, "%s: the key of the lock does not depend on its name", name)
					st.Set("key", "")
				}
			}
			if t, ok := st.TS["future?"]; ok && addr.Args[0] == self && v.Contains(t.V[0]) {
				st.Set("future", "")
			}
		},
		Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
			pos := eng.InstrPos(in)
			switch {
			case op == "NewLocker":
				ch := st.TS["chan"]
				sent := st.TS["sent"]
				ok := len(ch.V) == 1 && len(sent.V) == 1 && sent.S == "1" && lib.Strip(ch.V[0]) == sent.V[0]
				if ok {
					mk, is := lib.Strip(ch.V[0]).Ref.(*ssa.MakeChan)
					if is {
						n, isC := mk.Size.(*ssa.Const)
						is = isC && n.Int64() == 1
					}
					ok = is
				}
				r.Check(ok, "acquired", name+": one token", pos, st, "%s: the lock does not begin with exactly one token", name)
				r.Check(st.Has("key"), "key", name+": set", pos, st, "%s: the lock has no key", name)
			case renewal:
				t, ok := st.TS["renewal"]
				if ok && st.IsNonNil(t.V[1]) {
					return
				}
				r.Check(ok && st.Has("renewing"), "renewed", name+": again", pos, st, "%s does not go on renewing the lease", name)
				kept := st.Has("cancelled")
				if f, has := st.TS["future"]; has && !kept {
					kept = len(f.V) == 0 || f.S == "yes"
				}
				r.Check(kept, "renewed", name+": called off", pos, st, "%s: nobody can call the next renewal off", name)
			case op == "Unlock":
				r.Check(st.Has("mine") && !st.Has("token"), "given-back", name+": token", pos, st, "%s returns without giving the lock back, or gives back what is not locked", name)
				r.Check(st.Has("deleted"), "given-back", name+": deleted", pos, st, "%s leaves the key: nobody gets the lock until the lease is over", name)
			default:
				won := len(rets) == 0
				known := true
				if len(rets) > 0 {
					x := rets[len(rets)-1]
					if isBoolT(root.Signature.Results().At(0).Type()) {
						won, known = st.Eval(x)
					} else {
						won, known = st.IsNil(x), st.IsNil(x) || st.IsNonNil(x)
					}
				}
				why := held(st)
				if !known || won {
					r.Check(why == "", "acquired", name, pos, st, "%s reports the lock as taken though %s", name, why)
				}
				if !known || !won {
					ok, sure := created(st)
					r.Check(sure && !ok || st.Has("deleted"), "acquired", name+": failed", pos, st, "%s reports a failure though the key was created", name)
					r.Check(!st.Has("token") || shut(st), "given-back", name, pos, st, "%s reports a failure but keeps the token: nobody in the process gets the lock anymore", name)
				}
			}
		},
	}
}

// renewsWith: the function calls a renewal for the version.
func renewsWith(st *eng.State, f *eng.Val, renews map[*ssa.Function]bool, ver *eng.Val) bool {
	f = lib.Strip(f)
	if f.K != eng.KClosure || f.Fn == nil {
		return false
	}
	res := false
	eachInstr(f.Fn, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || !renews[c.Call.StaticCallee()] {
			return
		}
		for _, a := range c.Call.Args {
			if !isStr(a.Type()) {
				continue
			}
			fld := ""
			for {
				if u, is := a.(*ssa.UnOp); is && u.Op == token.MUL {
					a = u.X
				} else if x, is := a.(*ssa.FieldAddr); is {
					fld = x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Name()
					a = x.X
				} else if x, is := a.(*ssa.Field); is {
					fld = x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
					a = x.X
				} else {
					break
				}
			}
			for i, fv := range f.Fn.FreeVars {
				if a != ssa.Value(fv) || i >= len(f.Args) {
					continue
				}
				b := f.Args[i]
				if q, is := fv.Type().Underlying().(*types.Pointer); is && b.K == eng.KAlloc {
					b = st.Load(b, q.Elem())
				}
				if b != nil && fld != "" {
					b = st.FieldOf(b, fld, types.Typ[types.String])
				}
				res = res || b != nil && lib.Strip(b) == ver
			}
		}
	})
	return res
}
