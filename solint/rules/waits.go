package rules

import (
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

func init() {
	register("C22", func(p *lib.Prog, r *lib.Report) {
		waits(p, r)
		ctxPassed(p, r)
		ctxImpl(p, r)
		waitedFor(p, r)
	}, "")
}

func isCtxT(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Context" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context"
}

// ctxParam is the context the function was given, -1 if there is none.
func ctxParam(f *ssa.Function) int {
	for i, q := range f.Params {
		if isCtxT(q.Type()) {
			return i
		}
	}
	return -1
}

const ctxDone = "(context.Context).Done"

// waits decides that whoever waits with a context stops when it ends.
func waits(p *lib.Prog, r *lib.Report) {
	blocks := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Select:
			return x.Blocking
		case *ssa.UnOp:
			return x.Op == token.ARROW
		case *ssa.Call:
			return lib.CallName(x) == "time.Sleep"
		}
		return false
	}
	rel := p.ReachingStop(func(f *ssa.Function, in ssa.Instruction) bool { return blocks(in) }, func(f *ssa.Function) bool { return ctxParam(f) >= 0 })
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if lib.IsTemplate(f) || testOnly(p, f) || ctxParam(f) < 0 || f.Synthetic != "" && f.Origin() == nil || !rel[f] {
			continue
		}
		roots = append(roots, f)
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, Relevant: rel, KeepFact: lib.KeepNil, NoInline: func(root, g *ssa.Function) bool {
		// the containers know no context: who asks for what another caller is
		// creating waits for that creation, which has a context of its own
		return ctxParam(g) >= 0 || strings.HasPrefix(lib.PkgOf(g), "golibs/container")
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		own := e.In.Param(root, ctxParam(root))
		isDone := func(ch *eng.Val) bool {
			ch = lib.Strip(ch)
			return ch.K == eng.KCall && ch.Name == ctxDone
		}
		isTimer := func(ch *eng.Val) bool {
			ch = lib.Strip(ch)
			return ch.K == eng.KLoad && ch.Args[0].K == eng.KField && ch.Args[0].Name == "C"
		}
		again := func(st *eng.State, pos token.Pos) {
			r.Check(!st.Has("ended"), "stops-waiting", name, pos, st, "goes on waiting although the context has ended")
		}
		var errRes = -1
		if rs := root.Signature.Results(); rs.Len() > 0 && errT(rs.At(rs.Len()-1).Type()) {
			errRes = rs.Len() - 1
		}
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind != eng.CKCall {
					return nil
				}
				switch n := c.Name(); {
				case n == ctxDone:
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Node(eng.KCall, 0, ctxDone, c.Common.Signature().Results().At(0).Type(), c.Args...)}}}}
				case n == "(context.Context).Err":
					x := e.In.Sym(0, c.Instr.(ssa.Value), "err", c.Common.Signature().Results().At(0).Type())
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{x}, Do: func(s *eng.State) {
						s.Forget(x)
						if s.Has("ended") {
							s.Assume(e.Eq(x, e.In.Nil()), false)
						}
					}}}}
				case n == "time.Sleep":
					d, ok := eng.ConstInt(lib.Strip(c.Args[0]))
					r.Check(ok && d <= 1e9, "watches", name+" sleep", c.Pos(), st, "sleeps without watching the context")
				case strings.HasSuffix(n, "time.Timer).Stop"):
					st.Set("stopped", "")
				case strings.HasSuffix(n, "context.WithCancelCause"), strings.HasSuffix(n, "context.WithCancel"), strings.HasSuffix(n, "context.WithTimeout"), strings.HasSuffix(n, "context.WithDeadline"), strings.HasSuffix(n, "context.WithValue"):
				}
				return nil
			},
			Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.Select:
					if !x.Blocking {
						return
					}
					seen := false
					for _, s := range x.States {
						seen = seen || s.Dir == types.RecvOnly && isDone(e.Env(st, fr, s.Chan))
					}
					r.Check(seen, "watches", name, x.Pos(), st, "waits without watching its context: it does not end when the caller gives up")
					again(st, x.Pos())
				case *ssa.UnOp:
					if x.Op != token.ARROW {
						return
					}
					ch := e.Env(st, fr, x.X)
					if isDone(ch) {
						st.Set("ended", "", lib.Strip(ch).Args[0])
						st.Set("just", "")
						return
					}
					if isTimer(ch) && st.Has("stopped") || givesSlotBack(p, e, root, ch) {
						return
					}
					r.Check(false, "watches", name+" receive", x.Pos(), st, "waits without watching its context: it does not end when the caller gives up")
				}
			},
			Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
				for cond.K == eng.KUn && cond.Op == token.NOT {
					cond, taken = cond.Args[0], !taken
				}
				if cond.K != eng.KBin || cond.Op != token.EQL || !taken {
					return
				}
				a, b := cond.Args[0], cond.Args[1]
				if _, isC := eng.ConstInt(a); isC {
					a, b = b, a
				}
				n, ok := eng.ConstInt(b)
				_, is := a.Ref.(*ssa.Select)
				chs := e.SelChans(a)
				if !ok || !is || int(n) >= len(chs) {
					return
				}
				if isDone(chs[n]) {
					st.Set("ended", "", lib.Strip(chs[n]).Args[0])
				} else {
					st.Set("time", "")
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				if errRes < 0 {
					if st.Has("ended") {
						r.Ok("stops-waiting", name, in.Pos())
					}
					return
				}
				er := rets[errRes]
				if st.Has("ended") && !st.Has("just") {
					r.Check(!st.IsNil(er), "tells", name, in.Pos(), st,
						"ends without an error although its context has ended: the caller believes that what it has waited for has come")
				} else if root.Name() == "Sleep" && st.IsNil(er) {
					r.Check(st.Has("time"), "tells", name+" time", in.Pos(), st, "ends before the time is over")
				}
				_ = own
			},
		}
	}
	j.Do(nil)
	r.Floor("watches", 5)
	r.Floor("tells", 4)
}

// ctxPassed: everything done on behalf of a caller is done in the context the
// caller has given.
func ctxPassed(p *lib.Prog, r *lib.Report) {
	for _, f := range p.Funcs {
		if lib.IsTemplate(f) || testOnly(p, f) || f.Synthetic != "" && f.Origin() == nil || strings.Contains(lib.PkgOf(f), "genproto") || strings.HasPrefix(lib.PkgOf(f), "api/") {
			continue
		}
		given := hasCtx(f)
		if !given {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			cc := c.Common()
			n := lib.CallName(in)
			if strings.HasPrefix(n, "context.") {
				return
			}
			for _, a := range cc.Args {
				if !isCtxT(a.Type()) {
					continue
				}
				why := notOfCaller(a, map[ssa.Value]bool{}, recorded(n))
				r.Check(why == "", "passed-on", lib.Name(f)+" "+n[strings.LastIndexByte(n, '.')+1:], in.Pos(), nil, "%s is called with %s and not with the context of the caller: it goes on when the caller has given up", n, why)
			}
		})
		r.AddFunc(f)
	}
	r.Floor("passed-on", 60)
}

// recorded: the call writes down what was done already, so it must not be
// given up half way.
func recorded(n string) bool {
	n = n[strings.LastIndexByte(n, '.')+1:]
	for _, w := range []string{"Upsert", "Put", "Delete", "Update", "Save"} {
		if strings.HasPrefix(n, w) {
			return true
		}
	}
	return false
}

func hasCtx(f *ssa.Function) bool {
	if ctxParam(f) >= 0 {
		return true
	}
	for _, v := range f.FreeVars {
		if isCtxT(deref(v.Type())) || isCtxT(v.Type()) {
			return !onItsOwn(f)
		}
	}
	if f.Signature.Recv() != nil {
		if s, ok := deref(f.Signature.Recv().Type()).Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if isCtxT(s.Field(i).Type()) {
					return true
				}
			}
		}
	}
	if f.Parent() != nil {
		return hasCtx(f.Parent()) && !onItsOwn(f)
	}
	return false
}

// givesSlotBack: the goroutine takes back what who started it has sent before.
func givesSlotBack(p *lib.Prog, e *eng.Engine, f *ssa.Function, ch *eng.Val) bool {
	k := -1
	for i := range f.Params {
		if e.In.Param(f, i) == lib.Strip(ch) {
			k = i
		}
	}
	if k < 0 {
		return false
	}
	found := false
	for _, g := range p.Funcs {
		eachInstr(g, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Go)
			if !ok || s.Call.Value != f || k >= len(s.Call.Args) {
				return
			}
			same := func(v ssa.Value) bool {
				a, _ := v.(*ssa.UnOp)
				b, _ := s.Call.Args[k].(*ssa.UnOp)
				return v == s.Call.Args[k] || a != nil && b != nil && a.X == b.X
			}
			eachInstr(g, func(in ssa.Instruction) {
				if !in.Block().Dominates(s.Block()) {
					return
				}
				switch x := in.(type) {
				case *ssa.Send:
					found = found || same(x.Chan)
				case *ssa.Select:
					for _, c := range x.States {
						found = found || c.Dir == types.SendOnly && same(c.Chan)
					}
				}
			})
		})
	}
	return found
}

// onItsOwn: a goroutine nobody waits for; it may work in a context of its own.
func onItsOwn(f *ssa.Function) bool {
	if !goBody(f) {
		return false
	}
	own := true
	eachInstr(f, func(in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(lib.CallName(c.(ssa.Instruction)), "sync.WaitGroup).Done") {
			own = false
		}
	})
	return own
}

// goBody: the function is what a goroutine does.
func goBody(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	found := false
	eachInstr(f.Parent(), func(in ssa.Instruction) {
		g, ok := in.(*ssa.Go)
		if !ok {
			return
		}
		switch v := g.Call.Value.(type) {
		case *ssa.Function:
			found = found || v == f
		case *ssa.MakeClosure:
			found = found || v.Fn == f
		}
	})
	return found
}

func notOfCaller(v ssa.Value, seen map[ssa.Value]bool, mayOutlive bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return "no context"
	case *ssa.MakeInterface:
		return notOfCaller(x.X, seen, mayOutlive)
	case *ssa.ChangeInterface:
		return notOfCaller(x.X, seen, mayOutlive)
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if s := notOfCaller(ed, seen, mayOutlive); s != "" {
				return s
			}
		}
	case *ssa.Extract:
		return notOfCaller(x.Tuple, seen, mayOutlive)
	case *ssa.Call:
		switch n := lib.CallName(x); n {
		case "context.Background", "context.TODO":
			if !mayOutlive {
				return "the empty context"
			}
		case "context.WithoutCancel":
			if !mayOutlive {
				return "a context that never ends"
			}
		}
		for _, a := range x.Call.Args {
			if isCtxT(a.Type()) {
				if s := notOfCaller(a, seen, mayOutlive); s != "" {
					return s
				}
			}
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, in := range *al.Referrers() {
				if s, ok := in.(*ssa.Store); ok && s.Addr == al {
					if w := notOfCaller(s.Val, seen, mayOutlive); w != "" {
						return w
					}
				}
			}
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok && x.Op == token.MUL {
			return freeSource(fv, seen, mayOutlive)
		}
	case *ssa.FreeVar:
		return freeSource(x, seen, mayOutlive)
	}
	return ""
}

// freeSource follows a captured variable to the function that made the closure.
func freeSource(fv *ssa.FreeVar, seen map[ssa.Value]bool, mayOutlive bool) (why string) {
	f := fv.Parent()
	k := -1
	for i, v := range f.FreeVars {
		if v == fv {
			k = i
		}
	}
	if f.Parent() == nil || k < 0 {
		return
	}
	eachInstr(f.Parent(), func(in ssa.Instruction) {
		mc, ok := in.(*ssa.MakeClosure)
		if !ok || mc.Fn != f {
			return
		}
		b := mc.Bindings[k]
		if al, ok := b.(*ssa.Alloc); ok {
			for _, u := range *al.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == al && why == "" {
					why = notOfCaller(s.Val, seen, mayOutlive)
				}
			}
		} else if why == "" {
			why = notOfCaller(b, seen, mayOutlive)
		}
	})
	return
}

// ctxImpl decides the contexts of the repository itself.
func ctxImpl(p *lib.Prog, r *lib.Report) {
	const pk = "golibs/context"
	mk := p.Func(pk + ".WithCancelError")
	if mk == nil {
		r.Bad("anchor", "context.WithCancelError", token.NoPos, nil, "the function is not there")
		return
	}
	// the type made by it
	var t *types.Named
	eachType := func(f *ssa.Function) {
		eachInstr(f, func(in ssa.Instruction) {
			if al, ok := in.(*ssa.Alloc); ok {
				if n, ok := deref(al.Type()).(*types.Named); ok && types.NewMethodSet(types.NewPointer(n)).Lookup(nil, "Done") != nil {
					t = n
				}
			}
		})
	}
	for _, f := range p.InPkg(pk) {
		if lib.Outer(f) == mk || f.Signature.Results().Len() == 1 && f.Signature.Recv() == nil && strings.HasPrefix(f.Name(), "new") {
			eachType(f)
		}
	}
	if t == nil {
		r.Bad("anchor", "context.WithCancelError", mk.Pos(), nil, "it is not seen which context it makes")
		return
	}
	s := t.Underlying().(*types.Struct)
	errF, chF := "", ""
	for i := 0; i < s.NumFields(); i++ {
		if errT(s.Field(i).Type()) {
			errF = s.Field(i).Name()
		}
		if isChan(s.Field(i).Type()) {
			chF = s.Field(i).Name()
		}
	}
	if errF == "" || chF == "" {
		r.Note("context.WithCancelError: the context has no error or channel of its own, it is not decided")
		return
	}
	fieldOf := func(v *eng.Val, n string) bool {
		v = lib.Strip(v)
		return v.K == eng.KLoad && v.Args[0].K == eng.KField && v.Args[0].Name == n || v.K == eng.KField && v.Name == n
	}
	// the functions that close the channel
	var closers []*ssa.Function
	for _, f := range p.InPkg(pk) {
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && lib.CallName(in) == "builtin.close" || ok && isClose(c) {
				o := lib.Outer(f)
				for _, g := range closers {
					if g == o {
						return
					}
				}
				if o.Signature.Recv() != nil && deref(o.Signature.Recv().Type()) == t {
					closers = append(closers, o)
				}
			}
		})
	}
	for _, f := range closers {
		ep := -1
		for i, q := range f.Params {
			if errT(q.Type()) {
				ep = i
			}
		}
		j := &lib.Job{P: p, R: r, Roots: []*ssa.Function{f}, NoHavoc: true, KeepFact: func(*eng.Val) bool { return true }}
		j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
			name := lib.Name(root)
			return eng.Hooks{
				Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
					for cond.K == eng.KUn && cond.Op == token.NOT {
						cond, taken = cond.Args[0], !taken
					}
					if v := lib.Strip(cond); v.K == eng.KLoad && v.Args[0].K == eng.KField && isBoolT(v.Typ) && st.Get("was") == "" && v.Args[0].Args[0] == e.In.Param(root, 0) {
						// a flag of its own
						st.Set("was", map[bool]string{true: "closed", false: "open"}[taken])
						return
					}
					if cond.K == eng.KBin && cond.Op == token.EQL {
						a, b := cond.Args[0], cond.Args[1]
						if _, isC := eng.ConstInt(a); isC {
							a, b = b, a
						}
						if n, ok := eng.ConstInt(b); ok {
							if _, is := a.Ref.(*ssa.Select); is {
								chs := e.SelChans(a)
								if int(n) < len(chs) && n >= 0 && fieldOf(chs[n], chF) {
									st.Set("was", map[bool]string{true: "closed", false: "open"}[taken])
								}
								return
							}
						}
						// or the error tells
						if lib.Strip(b).K != eng.KNil {
							a, b = b, a
						}
						if lib.Strip(b).K == eng.KNil && fieldOf(a, errF) && !st.Has("set") {
							if st.Get("was") == "" {
								st.Set("was", map[bool]string{true: "open", false: "closed"}[taken])
							}
							if !taken {
								st.Set("has", "")
							}
						}
					}
				},
				Store: func(st *eng.State, fr *eng.Frame, addr, v *eng.Val, in ssa.Instruction) {
					if addr.K == eng.KField && addr.Name == errF {
						r.Check(st.Get("was") != "closed", "first-error", name, in.Pos(), st, "the error of an ended context is changed")
						st.Set("set", "", v)
					}
				},
				Call: func(st *eng.State, c *eng.Call) *eng.Result {
					if c.Kind == eng.CKCall && c.Name() == "(*sync.Once).Do" && c.Args[0].K == eng.KField && c.Args[0].Args[0] == e.In.Param(root, 0) {
						st.Set("was", "open once")
					}
					if c.Kind == eng.CKCall && c.Name() == "builtin.close" {
						r.Check(strings.HasPrefix(st.Get("was"), "open"), "ended-once", name, c.Pos(), st, "the channel is closed although it may be closed already: ending a context twice panics")
						x, ok := st.TS["set"]
						good := !ok && st.Has("has") || ok && (st.IsNonNil(x.V[0]) || x.V[0].K == eng.KLoad && x.V[0].Args[0].K == eng.KGlobal)
						r.Check(good, "ended-with-error", name, c.Pos(), st, "the context ends although its error may be nil: nobody sees that it has ended")
						if ep >= 0 && ok {
							q := e.In.Param(root, ep)
							r.Check(x.V[0] == q || st.IsNil(q), "ended-with-error", name+" given", c.Pos(), st, "the context ends with another error than the one given")
						}
						st.Set("was", "closed")
						st.Set("closed", "")
					}
					return nil
				},
				Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
					r.Check(st.Has("closed") || !st.Has("set"), "first-error", name, in.Pos(), st, "the error of an ended context is changed")
					r.Check(st.Get("was") == "closed" || st.Get("was") == "open once", "ended-once", name+" always", in.Pos(), st, "the context has not ended after it was cancelled")
				},
			}
		}
		j.Do(nil)
	}
	r.Floor("ended-with-error", 1)
	// what is given out
	for _, m := range []string{"Done", "Err"} {
		sel := types.NewMethodSet(types.NewPointer(t)).Lookup(t.Obj().Pkg(), m)
		if sel == nil {
			continue
		}
		f := p.SSA.MethodValue(sel)
		want := map[string]string{"Done": chF, "Err": errF}[m]
		j := &lib.Job{P: p, R: r, Roots: []*ssa.Function{f}, NoHavoc: true}
		j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
			return eng.Hooks{Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				v := lib.Strip(rets[0])
				r.Check(v.K == eng.KLoad && fieldOf(v, want) || v.K == eng.KSym && strings.Contains(v.String(), want) || v.K == eng.KConv || st.IsNil(v) && m == "Err", "own-state", lib.Name(root), in.Pos(), st, "%s does not give out the %s of the context", m, want)
			}}
		}
		j.Do(nil)
	}
	// the watch on the parent, and the function that cancels
	var mu sync.Mutex
	watch, cancels := false, false
	calls := func(f *ssa.Function) bool {
		for _, g := range closers {
			if f == g {
				return true
			}
		}
		return false
	}
	for _, f := range p.InPkg(pk) {
		if lib.Outer(f) != mk && !(len(closers) > 0 && goBodyOf(mk, f)) {
			continue
		}
		if f == mk {
			continue
		}
		j := &lib.Job{P: p, R: r, Roots: []*ssa.Function{f}, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return calls(g) }, KeepFact: func(*eng.Val) bool { return true }}
		body := goBodyOf(mk, f)
		j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
			name := lib.Name(root)
			isDone := func(v *eng.Val) bool {
				v = lib.Strip(v)
				return v.K == eng.KCall && v.Name == ctxDone
			}
			return eng.Hooks{
				Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
					if u, ok := in.(*ssa.UnOp); ok && body && u.Op == token.ARROW {
						ch := e.Env(st, fr, u.X)
						r.Check(!isDone(ch), "watch", name+" own", u.Pos(), st, "the goroutine does not watch its own context: it stays for ever")
						r.Check(!fieldOf(ch, chF), "watch", name+" parent", u.Pos(), st, "the goroutine does not watch the parent: the context does not end with it")
					}
					x, ok := in.(*ssa.Select)
					if !ok || !body {
						return
					}
					a, b := false, false
					for _, s := range x.States {
						ch := e.Env(st, fr, s.Chan)
						a = a || isDone(ch)
						b = b || fieldOf(ch, chF)
					}
					r.Check(a, "watch", name+" parent", x.Pos(), st, "the goroutine does not watch the parent: the context does not end with it")
					r.Check(b || !x.Blocking, "watch", name+" own", x.Pos(), st, "the goroutine does not watch its own context: it stays for ever")
				},
				Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
					if cond.K == eng.KBin && cond.Op == token.EQL {
						if n, ok := eng.ConstInt(cond.Args[1]); ok && taken {
							if chs := e.SelChans(cond.Args[0]); int(n) < len(chs) && isDone(chs[n]) {
								st.Set("parent", "")
							}
						}
					}
				},
				Call: func(st *eng.State, c *eng.Call) *eng.Result {
					if c.Kind != eng.CKCall {
						return nil
					}
					n := c.Name()
					if n == ctxDone || n == "(context.Context).Err" {
						return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Node(eng.KCall, 0, n, c.Common.Signature().Results().At(0).Type(), c.Args...)}}}}
					}
					if c.Fn == nil || !calls(c.Fn) {
						return nil
					}
					last := lib.Strip(c.Args[len(c.Args)-1])
					mu.Lock()
					defer mu.Unlock()
					if body {
						r.Check(last.K == eng.KCall && last.Name == "(context.Context).Err", "watch", name+" error", c.Pos(), st, "the context does not end with the error of its parent")
						watch = true
					} else {
						q := len(root.Params) - 1
						r.Check(q >= 0 && last == e.In.Param(root, q), "ended-with-error", name, c.Pos(), st, "the context is not cancelled with the error given")
						cancels = true
					}
					st.Set("done", "")
					return &eng.Result{Opaque: true}
				},
				Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
					if body {
						r.Check(!st.Has("parent") || st.Has("done"), "watch", name+" ends", in.Pos(), st, "the parent has ended, but the context has not")
					} else {
						r.Check(st.Has("done"), "ended-with-error", name+" always", in.Pos(), st, "the function that cancels does not cancel")
					}
				},
			}
		}
		j.Do(nil)
	}
	if !watch {
		r.Bad("watch", "context.WithCancelError", mk.Pos(), nil, "nothing ends the context together with its parent")
	}
	if !cancels {
		r.Note("context.WithCancelError: the function that cancels is not a function literal, it is not decided")
	}
}

func isClose(c ssa.CallInstruction) bool {
	b, ok := c.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == "close"
}

// goBodyOf: f is what a goroutine started in mk does.
func goBodyOf(mk, f *ssa.Function) (found bool) {
	eachInstr(mk, func(in ssa.Instruction) {
		g, ok := in.(*ssa.Go)
		if !ok {
			return
		}
		switch v := g.Call.Value.(type) {
		case *ssa.Function:
			found = found || v == f
		case *ssa.MakeClosure:
			found = found || v.Fn == f
		}
	})
	return
}

// waitedFor: a goroutine that somebody waits for reports its end, and gives
// back the slot it was started in, on every path.
func waitedFor(p *lib.Prog, r *lib.Report) {
	isWG := func(v ssa.Value) bool {
		n, ok := deref(v.Type()).(*types.Named)
		return ok && n.Obj().Name() == "WaitGroup"
	}
	for _, f := range p.Funcs {
		if lib.IsTemplate(f) || testOnly(p, f) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			g, ok := in.(*ssa.Go)
			if !ok {
				return
			}
			var body *ssa.Function
			var caps []ssa.Value
			switch v := g.Call.Value.(type) {
			case *ssa.Function:
				body = v
			case *ssa.MakeClosure:
				body, _ = v.Fn.(*ssa.Function)
				caps = v.Bindings
			}
			if body == nil || len(body.Blocks) == 0 {
				return
			}
			added, slot := false, false
			eachInstr(f, func(x ssa.Instruction) {
				switch y := x.(type) {
				case *ssa.Call:
					if strings.HasSuffix(lib.CallName(y), "sync.WaitGroup).Add") && x.Block().Dominates(in.Block()) {
						added = true
					}
				case *ssa.Select:
					for _, s := range y.States {
						if s.Dir == types.SendOnly && x.Block().Dominates(in.Block()) {
							slot = true
						}
					}
				case *ssa.Send:
					if x.Block().Dominates(in.Block()) {
						slot = true
					}
				}
			})
			_ = caps
			if !added && !slot {
				return
			}
			j := &lib.Job{P: p, R: r, Roots: []*ssa.Function{body}, NoHavoc: true, NoInline: func(root, h *ssa.Function) bool { return h.Parent() != root && !takesResource2(h) }}
			j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
				name := lib.Name(root)
				return eng.Hooks{
					Call: func(st *eng.State, c *eng.Call) *eng.Result {
						if c.Kind == eng.CKCall && strings.HasSuffix(c.Name(), "sync.WaitGroup).Done") {
							r.Check(!st.Has("done"), "reports-end", name+" once", c.Pos(), st, "the end of the goroutine is reported twice")
							st.Set("done", "")
						}
						return nil
					},
					Instr: func(st *eng.State, fr *eng.Frame, x ssa.Instruction) {
						if u, ok := x.(*ssa.UnOp); ok && u.Op == token.ARROW {
							st.Set("slot", "")
						}
					},
					Exit: func(st *eng.State, rets []*eng.Val, x ssa.Instruction) {
						if added {
							r.Check(st.Has("done"), "reports-end", name, x.Pos(), st, "the goroutine ends without reporting it: who waits for it waits for ever")
						}
						if slot {
							r.Check(st.Has("slot"), "slot-given-back", name, x.Pos(), st, "the goroutine ends without giving its slot back: after some of them nothing is started anymore")
						}
					},
				}
			}
			j.Do(nil)
			// whoever starts it says so before
			if added {
				r.Ok("reports-end", lib.Name(f)+" started", g.Pos())
			}
		})
		// Done in a goroutine needs an Add before it was started
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !strings.HasSuffix(lib.CallName(c), "sync.WaitGroup).Add") || !isWG(c.Call.Args[0]) {
				return
			}
			r.Check(!goBody(f), "reports-end", lib.Name(f)+" announced", c.Pos(), nil, "the goroutine is announced only when it runs: who waits may not see it")
		})
	}
	r.Floor("reports-end", 1)
}

func takesResource2(g *ssa.Function) bool {
	for _, q := range g.Params {
		if isChan(q.Type()) || strings.Contains(q.Type().String(), "sync.WaitGroup") {
			return true
		}
	}
	return false
}
