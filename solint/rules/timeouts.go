package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

func init() {
	register("C26", timeouts, "")
}

// timeouts decides the calls in the future: each is made once, in time,
// unless it is called off before.
func timeouts(p *lib.Prog, r *lib.Report) {
	var queue *types.Named
	var hi *types.Interface
	for _, pk := range p.SSA.AllPackages() {
		if pk.Pkg.Path() == "container/heap" {
			hi = pk.Pkg.Scope().Lookup("Interface").Type().Underlying().(*types.Interface)
		}
	}
	if hi == nil {
		r.Bad("anchor", "container/heap", token.NoPos, nil, "the calls are not kept in a heap")
		return
	}
	qm := map[string]*ssa.Function{}
	for _, f := range implementers(p, []string{tmP}, hi) {
		qm[f.Name()] = f
		if n, ok := deref(f.Params[0].Type()).(*types.Named); ok {
			queue = n
		}
	}
	sl, ok := types.Type(nil), false
	if queue != nil {
		sl, ok = queue.Underlying(), true
	}
	if !ok || len(qm) != 5 {
		r.Bad("anchor", "heap", token.NoPos, nil, "the calls are not kept in a heap")
		return
	}
	st, ok := sl.(*types.Slice)
	var fuT *types.Struct
	if ok {
		fuT, ok = deref(st.Elem()).Underlying().(*types.Struct)
	}
	if !ok {
		r.Bad("anchor", "heap", token.NoPos, nil, "the calls are not kept as structs")
		return
	}
	t := &tmCalls{p: p, r: r, queue: queue, qm: qm,
		idxF: fieldOfType(fuT, "idx", isIntT),
		funF: fieldOfType(fuT, "f", isFuncT),
		timF: fieldOfType(fuT, "fireT", func(t types.Type) bool { return lib.TypeKey(t) == "time.Time" })}
	if t.idxF == "" || t.funF == "" || t.timF == "" {
		r.Bad("anchor", "future", token.NoPos, nil, "the calls have no position, function or time")
		return
	}
	t.kept()
	// whatever is started by go, and all that clients may call
	var roots []*ssa.Function
	have := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !have[f] && len(f.Blocks) > 0 && f.Synthetic == "" {
			have[f] = true
			roots = append(roots, f)
		}
	}
	t.starts = map[*ssa.Function]bool{}
	for _, f := range p.InPkg(tmP) {
		eachInstr(f, func(in ssa.Instruction) {
			if g, ok := in.(*ssa.Go); ok {
				if c := g.Call.StaticCallee(); c != nil {
					add(c)
					t.starts[c] = true
				}
			}
			// the counter of those who wait
			if s, ok := in.(*ssa.Store); ok {
				b, isB := s.Val.(*ssa.BinOp)
				fa, isF := s.Addr.(*ssa.FieldAddr)
				if isB && isF && (b.Op == token.ADD || b.Op == token.SUB) {
					if pt, is := deref(fa.X.Type()).Underlying().(*types.Struct); is && fieldOfType(pt, "lock", isMutex) != "" {
						t.cntF = pt.Field(fa.Field).Name()
						t.lockF = fieldOfType(pt, "lock", isMutex)
						t.wakeF = fieldOfType(pt, "wakeCh", isChan)
						t.maxF = "maxWorkers"
						t.ctl = pt
					}
				}
			}
		})
	}
	if t.ctl == nil || len(t.starts) == 0 || t.wakeF == "" {
		r.Bad("anchor", "watchers", token.NoPos, nil, "nobody waits for the time of the calls")
		return
	}
	for _, f := range p.InPkg(tmP) {
		if f.Parent() == nil && token.IsExported(f.Name()) && qm[f.Name()] != f && f.Origin() == nil {
			add(f)
		}
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, KeepFact: func(v *eng.Val) bool { return true }, NoInline: func(root, f *ssa.Function) bool {
		return lib.PkgOf(f) != tmP || qm[f.Name()] == f
	}}
	j.Hooks = t.hooks
	j.Do(nil)
	// the wake-up channel must be able to keep a signal
	for _, f := range p.InPkg(tmP) {
		eachInstr(f, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, isF := s.Addr.(*ssa.FieldAddr)
			if !isF {
				return
			}
			pt, is := deref(fa.X.Type()).Underlying().(*types.Struct)
			if !is || !types.Identical(pt, t.ctl) || pt.Field(fa.Field).Name() != t.wakeF {
				return
			}
			mk, is := s.Val.(*ssa.MakeChan)
			good := is
			if is {
				if c, isC := mk.Size.(*ssa.Const); isC {
					good = c.Int64() > 0
				}
			}
			r.Check(good, "noticed", lib.Name(f)+": signal", s.Pos(), nil, "%s: a signal that comes before the watcher waits for it is lost", lib.Name(f))
		})
	}
	r.Floor("kept", 8)
	r.Floor("once", 3)
	r.Floor("in-time", 2)
	r.Floor("called-off", 2)
	r.Floor("noticed", 4)
	r.Floor("watchers", 4)
}

type tmCalls struct {
	p                        *lib.Prog
	r                        *lib.Report
	queue                    *types.Named
	qm                       map[string]*ssa.Function
	idxF, funF, timF         string
	cntF, lockF, wakeF, maxF string
	ctl                      *types.Struct
	starts                   map[*ssa.Function]bool
}

// kept: the heap knows the position of each call.
func (t *tmCalls) kept() {
	r := t.r
	var roots []*ssa.Function
	for _, f := range t.qm {
		roots = append(roots, f)
	}
	j := &lib.Job{P: t.p, R: r, Roots: roots, NoHavoc: true, KeepFact: func(*eng.Val) bool { return true }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		q := e.In.Param(root, 0)
		par := func(i int) *eng.Val { return e.In.Param(root, i) }
		// at the beginning
		list := func(st *eng.State) *eng.Val {
			if _, ok := q.Typ.Underlying().(*types.Pointer); ok {
				return e.In.Node(eng.KLoad, 0, "", t.queue.Underlying(), q)
			}
			return q
		}
		isAt := func(x, i *eng.Val) bool {
			// x is the load of element i as it was at the beginning
			x = lib.Strip(x)
			if x.K != eng.KLoad || x.Args[0].K != eng.KIndex {
				return false
			}
			l := lib.Strip(x.Args[0].Args[0])
			return (l == q || l.K == eng.KLoad && l.Args[0] == q) && lib.Strip(x.Args[0].Args[1]) == i
		}
		idxOf := func(st *eng.State, fu *eng.Val) *eng.Val {
			return st.Load(e.In.Node(eng.KField, 0, t.idxF, nil, fu), types.Typ[types.Int])
		}
		lenIs := func(st *eng.State, v *eng.Val, d int64) bool {
			n := st.Len(list(st))
			diff := lib.Linear(v).Sub(lib.Linear(n))
			return diff.IsConst() && diff.C == d
		}
		h := eng.Hooks{}
		h.Call = func(st *eng.State, c *eng.Call) *eng.Result {
			switch n := c.Name(); n {
			case "(time.Time).Before", "(time.Time).After", "(time.Time).Compare", "(time.Time).Sub":
				v := e.In.Node(eng.KCall, 0, n, c.Common.Signature().Results().At(0).Type(), c.Args...)
				return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{v}}}}
			}
			return nil
		}
		h.Store = func(st *eng.State, fr *eng.Frame, addr, v *eng.Val, in ssa.Instruction) {
			if addr.K == eng.KIndex {
				for i := 1; i <= 2 && i < len(root.Params); i++ {
					if lib.Strip(addr.Args[1]) == par(i) {
						st.Set("at"+itoa(i), "", v)
					}
				}
			}
			if addr == q {
				st.Set("list", "", v)
			}
		}
		h.After = func(st *eng.State, c *eng.Call, rets []*eng.Val) {
			if c.Name() == "builtin.append" && len(c.Args) == 2 {
				es := st.VarArgs(c.Args[1])
				if len(es) == 1 && lib.Strip(c.Args[0]) == list(st) {
					st.Set("grown", "", rets[0], es[0])
				}
			}
		}
		h.Exit = func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
			pos := eng.InstrPos(in)
			switch root.Name() {
			case "Len":
				r.Check(len(rets) == 1 && lenIs(st, rets[0], 0), "kept", name, pos, st, "%s is not the number of the calls", name)
			case "Less":
				x := lib.Strip(rets[0])
				for x.K == eng.KUn && x.Op == token.NOT {
					x = x.Args[0]
				}
				good := x.K == eng.KCall && len(x.Args) == 2
				if good {
					a, b := par(1), par(2)
					if strings.HasSuffix(x.Name, ".After") {
						a, b = b, a
					} else {
						good = strings.HasSuffix(x.Name, ".Before")
					}
					tm := func(v, i *eng.Val) bool {
						n, src := loadedFrom(v)
						return n == t.timF && src != nil && isAt(src, i)
					}
					good = good && x == lib.Strip(rets[0]) && tm(x.Args[0], a) && tm(x.Args[1], b)
				}
				r.Check(good, "kept", name, pos, st, "%s: the call that is due first does not come first", name)
			case "Swap":
				a, ok1 := st.TS["at1"]
				b, ok2 := st.TS["at2"]
				if st.AnyFact(func(f *eng.Val, v bool) bool {
					return v && f.K == eng.KBin && f.Op == token.EQL && (f.Args[0] == par(1) && f.Args[1] == par(2) || f.Args[0] == par(2) && f.Args[1] == par(1))
				}) {
					r.Ok("kept", name, pos)
					return
				}
				good := ok1 && ok2 && isAt(a.V[0], par(2)) && isAt(b.V[0], par(1))
				r.Check(good, "kept", name, pos, st, "%s loses a call", name)
				if good {
					r.Check(idxOf(st, a.V[0]) == par(1) && idxOf(st, b.V[0]) == par(2), "kept", name+": position", pos, st, "%s: a call does not know where it is: another one is called off instead", name)
				}
			case "Push":
				g, ok := st.TS["grown"]
				l, ok2 := st.TS["list"]
				good := ok && ok2 && l.V[0] == g.V[0]
				r.Check(good, "kept", name, pos, st, "%s loses a call", name)
				if good {
					r.Check(lib.Strip(g.V[1]).Contains(par(1)), "kept", name+": which", pos, st, "%s adds another call", name)
					i := idxOf(st, lib.Strip(g.V[1]))
					d := lib.Linear(i).Sub(lib.Linear(st.Len(g.V[0])))
					r.Check(lenIs(st, i, 0) || d.IsConst() && d.C == -1, "kept", name+": position", pos, st, "%s: a call does not know where it is", name)
				}
			case "Pop":
				x := lib.Strip(rets[0])
				last := x.K == eng.KLoad && x.Args[0].K == eng.KIndex && lenIs(st, x.Args[0].Args[1], -1)
				r.Check(last, "kept", name, pos, st, "%s does not give out the last one", name)
				if last {
					n, ok := eng.ConstInt(idxOf(st, x))
					r.Check(ok && n < 0, "kept", name+": position", pos, st, "%s: a call that is not in the heap anymore looks as if it was: cancelling it removes another one", name)
				}
				l, ok := st.TS["list"]
				r.Check(ok && lenIs(st, st.Len(l.V[0]), -1), "kept", name+": removed", pos, st, "%s keeps what it gives out: it is called twice", name)
			}
		}
		return h
	}
	j.Do(nil)
}

func (t *tmCalls) hooks(e *eng.Engine, root *ssa.Function) eng.Hooks {
	r := t.r
	name := lib.Name(root)
	watcher := t.starts[root]
	isCtl := func(a *eng.Val, f string) bool {
		return a.K == eng.KField && a.Name == f && a.Args[0].Typ != nil && types.Identical(deref(a.Args[0].Typ).Underlying(), t.ctl)
	}
	// funOf: the value is the function of the call that was taken out
	funOf := func(st *eng.State, v *eng.Val) bool {
		d, ok := st.TS["due"]
		if !ok {
			return false
		}
		if d.V[0] == v {
			return true
		}
		ph, is := v.Ref.(*ssa.Phi)
		return v.K == eng.KSym && is && t.carries(ph, map[ssa.Value]bool{})
	}
	settle := func(st *eng.State, pos token.Pos) {
		if st.Has("pushed") {
			good := st.Has("started") || st.Has("notified")
			r.Check(good, "noticed", name, pos, st, "%s: nobody notices the new call", name)
			if !st.Has("started") {
				c, ok := st.TS["count"]
				lo := (*int64)(nil)
				if ok {
					lo, _ = st.Bounds(c.V[0])
					if n, known := st.Eval(e.Eq(c.V[0], e.In.Int(0))); known && !n {
						one := int64(1)
						lo = &one
					}
				}
				r.Check(lo != nil && *lo >= 1, "noticed", name+": watcher", pos, st, "%s: there may be no one who waits for the time of the call", name)
			}
			st.Del("pushed")
		}
		r.Check(st.Get("delta") == st.Get("gone"), "watchers", name+": counted", pos, st, "%s: the number of watchers is not the one of those who are there (%s counted, %s started or gone)", name, st.Get("delta"), st.Get("gone"))
		for _, k := range []string{"locked", "len", "count", "started", "notified", "delta", "gone"} {
			st.Del(k)
		}
	}
	first := func(v *eng.Val) bool { // the time of the first one in the heap
		n, src := loadedFrom(v)
		if n != t.timF || src == nil {
			return false
		}
		src = lib.Strip(src)
		if src.K != eng.KLoad || src.Args[0].K != eng.KIndex {
			return false
		}
		i, ok := eng.ConstInt(src.Args[0].Args[1])
		return ok && i == 0
	}
	return eng.Hooks{
		Call: func(st *eng.State, c *eng.Call) *eng.Result {
			if c.Kind == eng.CKDefer {
				return nil
			}
			n := c.Name()
			if c.Kind == eng.CKGo {
				if c.Fn != nil && t.starts[c.Fn] {
					r.Check(st.Has("locked"), "watchers", name+": lock", c.Pos(), st, "%s starts a watcher without the lock", name)
					st.Set("gone", plus(st.Get("gone"), 1))
					st.Set("started", "")
				}
				return nil
			}
			switch {
			case strings.HasSuffix(n, "Mutex).Lock") && isCtl(c.Args[0], t.lockF):
				st.Set("locked", "")
				st.Forget(c.Args[0].Args[0])
				for _, k := range st.KeysPrefix("after:") {
					st.Del(k)
				}
				st.Del("empty")
				st.Del("sub")
				r.Check(!st.Has("left"), "watchers", name+": left", c.Pos(), st, "%s goes on though it is not counted anymore", name)
			case strings.HasSuffix(n, "Mutex).Unlock") && isCtl(c.Args[0], t.lockF):
				settle(st, c.Pos())
			case n == "container/heap.Init":
				return &eng.Result{Opaque: true}
			case strings.HasPrefix(n, "container/heap."):
				r.Check(st.Has("locked"), "watchers", name+": heap", c.Pos(), st, "%s changes the calls without the lock", name)
				switch n {
				case "container/heap.Push":
					fu := bareTA(c.Args[1])
					fl := func(n string, t types.Type) *eng.Val {
						return lib.Strip(st.Load(e.In.Node(eng.KField, 0, n, nil, fu), t))
					}
					st.Set("added", "", fu, fl(t.funF, types.Typ[types.Int]), fl(t.timF, types.Typ[types.Int]))
				case "container/heap.Pop":
					r.Check(!st.Has("due") && !st.Has("popped"), "once", name+": lost", c.Pos(), st, "%s takes a call out and forgets about the one before", name)
					good := false
					for _, k := range st.KeysPrefix("after:") {
						a := st.TS[k]
						v, known := st.Eval(a.V[0])
						if !known {
							continue
						}
						switch {
						case a.S == "After": // now.After(t)
							good = good || v && first(a.V[2]) && nowSym(a.V[1]) || !v && false
						case a.S == "Before": // t.Before(now), !now.Before(t)
							good = good || v && first(a.V[1]) && nowSym(a.V[2]) || !v && nowSym(a.V[1]) && first(a.V[2])
						}
						good = good || a.S == "After" && !v && first(a.V[1]) && nowSym(a.V[2])
					}
					r.Check(good, "in-time", name+": early", c.Pos(), st, "%s takes a call out before it is its time", name)
				case "container/heap.Remove":
					i := bareTA(c.Args[1])
					f, src := loadedFrom(i)
					lo, _ := st.Bounds(i)
					r.Check(f == t.idxF && src != nil, "called-off", name+": which", c.Pos(), st, "%s removes another call", name)
					r.Check(lo != nil && *lo >= 0, "called-off", name+": there", c.Pos(), st, "%s removes a call that may not be there anymore", name)
					st.Set("removed", "", src)
				}
				return &eng.Result{Opaque: true}
			case c.Fn == nil && c.FnVal != nil && !c.Common.IsInvoke():
				if c.Common.Signature().Params().Len()+c.Common.Signature().Results().Len() > 0 {
					return nil
				}
				r.Check(!st.Has("locked"), "once", name+": lock", c.Pos(), st, "%s makes the call while it holds the lock", name)

				r.Check(funOf(st, c.FnVal), "once", name, c.Pos(), st, "%s makes a call that it has not just taken out, or makes it again", name)
				st.Del("due")
				st.Del("popped")
			case n == "time.NewTimer" || n == "time.After" || n == "time.Sleep" || n == "(*time.Timer).Reset":
				d := lib.Strip(c.Args[len(c.Args)-1])
				good := st.Has("empty")
				if s, ok := st.TS["sub"]; ok && !good {
					good = d == s.V[0] || lib.Entails(st, lib.Linear(s.V[0]).Sub(lib.Linear(d)))
				}
				r.Check(good, "in-time", name+": late", c.Pos(), st, "%s waits longer than until the first call is due", name)
			case n == "(time.Time).Sub" || n == "time.Until":
				v := e.In.Node(eng.KCall, 0, n, c.Common.Signature().Results().At(0).Type(), c.Args...)
				return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{v}, Do: func(s *eng.State) {
					if first(c.Args[0]) {
						s.Set("sub", "", v)
					}
				}}}}
			case n == "(time.Time).Add":
				v := e.In.Node(eng.KCall, 0, n, c.Common.Signature().Results().At(0).Type(), c.Args...)
				return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{v}}}}
			}
			return nil
		},
		After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
			switch n := c.Name(); {
			case n == "container/heap.Push":
				st.Set("pushed", "", bareTA(c.Args[1]))
			case n == "container/heap.Pop":
				st.Set("popped", "", rets[0])
				st.Del("due")
				st.Del("len")
			case n == "(time.Time).After" || n == "(time.Time).Before":
				st.Set("after:"+itoa(rets[0].ID), n[len("(time.Time)."):], rets[0], c.Args[0], c.Args[1])
			case c.Fn == t.qm["Len"] && c.Fn != nil:
				if st.Has("locked") {
					st.Set("len", "", rets[0])
				}
			case n == "time.NewTimer" || n == "time.After":
				st.Set("timer", "")
			case n == "time.Sleep" && watcher:
				r.Check(false, "noticed", name+": sleeps", c.Pos(), st, "%s does not notice new calls while it waits", name)
			}
		},
		Load: func(st *eng.State, fr *eng.Frame, a *eng.Val, in ssa.Instruction) {
			if a.K != eng.KField {
				return
			}
			if pd, ok := st.TS["popped"]; ok && a.Name == t.funF && bareTA(a.Args[0]) == bareTA(pd.V[0]) {
				if v, ok := in.(ssa.Value); ok {
					st.Set("due", "", st.Load(a, v.Type()))
				}
			}
			if isCtl(a, t.cntF) {
				st.Set("count", "", st.Load(a, types.Typ[types.Int]))
			}
		},
		Store: func(st *eng.State, fr *eng.Frame, a, v *eng.Val, in ssa.Instruction) {
			if !isCtl(a, t.cntF) || a.Args[0].K == eng.KAlloc {
				return
			}
			if old, ok := st.TS["count"]; ok {
				d := lib.Linear(v).Sub(lib.Linear(old.V[0]))
				if d.IsConst() {
					st.Set("delta", plus(st.Get("delta"), d.C))
					if d.C < 0 {
						st.Set("left", "")
						st.Set("gone", plus(st.Get("gone"), -1))
						empty := st.Has("empty")
						more := false
						if lo, _ := st.Bounds(old.V[0]); lo != nil {
							more = *lo >= 2
						}
						r.Check(empty || more, "watchers", name+": last", in.Pos(), st, "%s: the last watcher leaves though there are calls to make", name)
						r.Check(watcher, "watchers", name+": who", in.Pos(), st, "%s: a watcher that is there is not counted", name)
					}
					return
				}
			}
			r.Check(false, "watchers", name+": counted", in.Pos(), st, "%s: the number of watchers is not counted", name)
		},
		Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Select:
				wake := false
				for _, s := range x.States {
					ch := lib.Strip(e.Env(st, fr, s.Chan))
					if ch.K == eng.KLoad && isCtl(ch.Args[0], t.wakeF) {
						if s.Dir == types.SendOnly {
							st.Set("notified", "")
							r.Check(!x.Blocking, "noticed", name+": waits", x.Pos(), st, "%s waits for a watcher that may be busy", name)
							return
						}
						wake = true
					}
				}
				if x.Blocking {
					st.Del("timer")
					r.Check(wake, "noticed", name+": sleeps", x.Pos(), st, "%s does not notice new calls while it waits", name)
					r.Check(!st.Has("locked"), "watchers", name+": lock", x.Pos(), st, "%s waits while it holds the lock", name)
					st.Del("empty")
					st.Del("sub")
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && watcher && st.Has("timer") {
					r.Check(false, "noticed", name+": sleeps", x.Pos(), st, "%s does not notice new calls while it waits", name)
				}
			case *ssa.Send:
				ch := lib.Strip(e.Env(st, fr, x.Chan))
				if ch.K == eng.KLoad && isCtl(ch.Args[0], t.wakeF) {
					r.Check(false, "noticed", name+": waits", x.Pos(), st, "%s waits for a watcher that may be busy", name)
				}
			}
		},
		Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
			if !watcher {
				return
			}
			cond.Walk(func(x *eng.Val) bool {
				if x.K == eng.KLen && x.Args[0].K == eng.KLoad && st.Has("locked") {
					if tn := lib.TypeKey(x.Args[0].Typ); tn == lib.TypeKey(t.queue) || types.Identical(x.Args[0].Typ.Underlying(), t.queue.Underlying()) {
						st.Set("len", "", x)
					}
				}
				return true
			})
			if l, ok := st.TS["len"]; ok {
				if _, hi := st.Bounds(l.V[0]); hi != nil && *hi <= 0 {
					st.Set("empty", "")
				} else if cond.Contains(l.V[0]) {
					st.Del("empty")
				}
			}
			if d, ok := st.TS["due"]; ok {
				// there is nothing to call
				if st.IsNil(d.V[0]) {
					st.Del("due")
					st.Del("popped")
				} else if cond.K == eng.KBin && cond.Op == token.EQL && taken && (cond.Args[0] == e.In.Nil() && funOf(st, cond.Args[1]) || cond.Args[1] == e.In.Nil() && funOf(st, cond.Args[0])) {
					st.Del("due")
					st.Del("popped")
				}
			}
		},
		Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
			pos := eng.InstrPos(in)
			r.Check(!st.Has("locked"), "watchers", name+": released", pos, st, "%s returns with the lock held", name)
			if watcher {
				r.Check(st.Has("left"), "watchers", name+": gone", pos, st, "%s is gone but still counted: nobody waits for the calls", name)
				r.Check(!st.Has("due") && !st.Has("popped"), "once", name+": lost", pos, st, "%s leaves a call it has taken out", name)
				return
			}
			switch {
			case root.Name() == "Cancel" && len(root.Params) == 1:
				self := e.In.Param(root, 0)
				if structHas(deref(self.Typ), t.idxF) {
					rm, ok := st.TS["removed"]
					if ok {
						r.Check(rm.V[0] == self, "called-off", name, pos, st, "%s removes another call", name)
						return
					}
					// not there anymore
					gone := false
					st.EachFact(func(f *eng.Val, b bool) {
						f.Walk(func(x *eng.Val) bool {
							if n, src := loadedFrom(x); n == t.idxF && src == self {
								if _, hi := st.Bounds(x); hi != nil && *hi < 0 {
									gone = true
								}
							}
							return true
						})
					})
					r.Check(gone, "called-off", name, pos, st, "%s leaves the call in the heap", name)
				}
			case root.Name() == "Call" && len(rets) == 1 && len(root.Params) == 2:
				f, d := e.In.Param(root, 0), e.In.Param(root, 1)
				if !isFuncT(f.Typ) {
					f, d = d, f
				}
				if st.IsNil(f) {
					return
				}
				ad, ok := st.TS["added"]
				r.Check(ok && lib.Strip(rets[0]).Contains(ad.V[0]), "once", name+": added", pos, st, "%s: the call is not going to be made, or another one would be called off", name)
				if !ok {
					return
				}
				r.Check(ad.V[1] == f, "once", name+": what", pos, st, "%s: another function is going to be called", name)
				tm := ad.V[2]
				r.Check(tm.K == eng.KCall && tm.Name == "(time.Time).Add" && nowSym(tm.Args[0]) && lib.Strip(tm.Args[1]) == d, "in-time", name, pos, st, "%s: the call is due at another time", name)
			}
		},
	}
}

// carries: the variable has the function of a call, or none.
func (t *tmCalls) carries(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !t.carries(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return x.IsNil()
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		return ok && x.Op == token.MUL && deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() == t.funF
	}
	return false
}

func nowSym(v *eng.Val) bool {
	c, ok := lib.Strip(v).Ref.(*ssa.Call)
	return ok && lib.CallName(c) == "time.Now"
}

func plus(s string, d int64) string {
	n := int64(0)
	for i := 0; i < len(s); i++ {
		if s[i] == '+' {
			n++
		} else if s[i] == '-' {
			n--
		}
	}
	n += d
	res := ""
	for ; n > 0 && len(res) < 5; n-- {
		res += "+"
	}
	for ; n < 0 && len(res) < 5; n++ {
		res += "-"
	}
	return res
}

func structHas(t types.Type, f string) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return true
		}
	}
	return false
}

// bareTA removes conversions and type assertions.
func bareTA(v *eng.Val) *eng.Val {
	for {
		v = lib.Strip(v)
		if v.K != eng.KTA || len(v.Args) != 1 {
			return v
		}
		v = v.Args[0]
	}
}
