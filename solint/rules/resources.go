package rules

import (
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

func init() {
	register("C30", resources, "")
}

// endings are the methods that give a resource back.
var endings = []string{"Close", "Rollback", "Commit"}

// giveBack tells how a value of the type is given back: "close" by a method of
// its own, "release" by the cache it was borrowed from, "" if it is nothing
// that has to be given back.
func giveBack(t types.Type) string {
	if t == nil {
		return ""
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "Releasable" {
		return "release"
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Struct:
	default:
		return ""
	}
	ms := types.NewMethodSet(t)
	for _, n := range endings {
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj()
			if m.Name() != n {
				continue
			}
			s := m.Type().(*types.Signature)
			if s.Params().Len() == 0 && (s.Results().Len() == 0 || s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), types.Universe.Lookup("error").Type())) {
				return "close"
			}
		}
	}
	return ""
}

// notOwned are calls whose result needs no closing although it has a Close.
func notOwned(n string) bool {
	return strings.HasPrefix(n, "compress/") || strings.HasPrefix(n, "archive/zip.New") || strings.HasPrefix(n, "log") || strings.Contains(n, "NopCloser") || strings.Contains(n, "ReadSeekCloser") || strings.Contains(n, "QueryRow")
}

// cancelOf: the call gives a context and the function that cancels it.
func cancelOf(sig *types.Signature) bool {
	if sig.Results().Len() != 2 {
		return false
	}
	_, ok := sig.Results().At(1).Type().Underlying().(*types.Signature)
	return ok && strings.HasSuffix(sig.Results().At(0).Type().String(), "context.Context")
}

// resources decides that what is opened is given back on every path.
func resources(p *lib.Prog, r *lib.Report) {
	own := owners(p)
	acquires := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		_, _, ok = resourceOf(own, c.Common(), lib.CallName(in))
		return ok
	}
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if lib.IsTemplate(f) || testOnly(p, f) {
			continue
		}
		has := false
		eachInstr(f, func(in ssa.Instruction) {
			has = has || acquires(in)
		})
		if has {
			roots = append(roots, f)
		}
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, MaxDepth: 4, KeepFact: lib.KeepNil, NoInline: func(root, g *ssa.Function) bool {
		return own[g] != nil || !takesResource(root, g)
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks { return resHooks(r, e, root, own) }
	j.Do(nil)
	r.Floor("given-back", 20)
	r.Floor("one-connection", 4)
	resFields(p, r, own)
}

// takesResource: a resource of the root may be given back in g.
func takesResource(root, g *ssa.Function) bool {
	if g.Parent() != nil || g.Synthetic != "" {
		return true
	}
	for _, q := range g.Params {
		t := q.Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok && giveBack(t) == "" {
			t = pt.Elem()
		}
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
		if giveBack(t) != "" {
			return true
		}
		if _, ok := t.Underlying().(*types.Signature); ok && len(g.Blocks) < 6 {
			return true
		}
	}
	return false
}

// fromPool: the call takes a connection from the pool of a database.
func fromPool(n string) bool {
	i := strings.Index(n, ".DB).")
	if i < 0 || !strings.Contains(n[:i], "sql") {
		return false
	}
	m := n[i+5:]
	return strings.HasPrefix(m, "Query") || strings.HasPrefix(m, "NamedQuery") || strings.HasPrefix(m, "Begin") || strings.HasPrefix(m, "Conn")
}

// testOnly: code that only the tests use.
func testOnly(p *lib.Prog, f *ssa.Function) bool {
	fn := p.File(f)
	return strings.HasSuffix(fn, "tstsuite.go") || strings.HasSuffix(fn, "testsuite.go") || strings.HasSuffix(fn, "testcntnr.go")
}

// acquired: the call gives something that has to be given back; which result,
// and which one is the error (-1: none).
func resourceOf(own map[*ssa.Function]map[int]bool, c *ssa.CallCommon, n string) (res, er int, ok bool) {
	if c == nil {
		return
	}
	sig := c.Signature()
	rs := sig.Results()
	er = -1
	if rs.Len() > 0 && errT(rs.At(rs.Len()-1).Type()) {
		er = rs.Len() - 1
	}
	if cancelOf(sig) && (c.IsInvoke() || c.StaticCallee() != nil) {
		return 1, -1, true
	}
	g := c.StaticCallee()
	switch {
	case g != nil && len(g.Blocks) > 0 && own[origin(g)] != nil:
		for i := range own[origin(g)] {
			return i, er, true
		}
	case g != nil && own[g] != nil:
		for i := range own[g] {
			return i, er, true
		}
	case g != nil && eng.InModule(g):
		if er > 0 && giveBack(rs.At(0).Type()) == "release" {
			return 0, er, true
		}
		return
	case g == nil && !c.IsInvoke():
		return
	case er > 0 && !notOwned(n):
		for i := 0; i < er; i++ {
			if giveBack(rs.At(i).Type()) != "" {
				return i, er, true
			}
		}
	}
	return
}

func origin(g *ssa.Function) *ssa.Function { return g }

func errT(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// owners finds the functions of the module that hand out what they have
// acquired, and by which result.
func owners(p *lib.Prog) map[*ssa.Function]map[int]bool {
	own := map[*ssa.Function]map[int]bool{}
	fs := p.Funcs
	for changed := true; changed; {
		changed = false
		for _, f := range fs {
			if lib.IsTemplate(f) || testOnly(p, f) || f.Signature.Results().Len() == 0 {
				continue
			}
			eachInstr(f, func(in ssa.Instruction) {
				ret, ok := in.(*ssa.Return)
				if !ok {
					return
				}
				for i, v := range ret.Results {
					if giveBack(v.Type()) == "" && !givesBackFrom(v) || own[f][i] {
						continue
					}
					if giveBack(f.Signature.Results().At(i).Type()) == "" {
						continue
					}
					if handsOut(own, v, map[ssa.Value]bool{}) {
						if own[f] == nil {
							own[f] = map[int]bool{}
						}
						own[f][i] = true
						changed = true
					}
				}
			})
		}
	}
	return own
}

func givesBackFrom(v ssa.Value) bool {
	m, ok := v.(*ssa.MakeInterface)
	return ok && giveBack(m.X.Type()) != ""
}

// handsOut: the value is, or holds, what was acquired.
func handsOut(own map[*ssa.Function]map[int]bool, v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return handsOut(own, x.X, seen)
	case *ssa.ChangeInterface:
		return handsOut(own, x.X, seen)
	case *ssa.ChangeType:
		return handsOut(own, x.X, seen)
	case *ssa.TypeAssert:
		return handsOut(own, x.X, seen)
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if handsOut(own, ed, seen) {
				return true
			}
		}
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		i, _, ok := resourceOf(own, c.Common(), lib.CallName(c))
		return ok && i == x.Index && !cancelOf(c.Common().Signature())
	case *ssa.Call:
		i, _, ok := resourceOf(own, x.Common(), lib.CallName(x))
		return ok && i == 0
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return handsOut(own, x.X, seen)
		}
	case *ssa.FieldAddr:
		return false
	case *ssa.Alloc:
		for _, in := range *x.Referrers() {
			switch y := in.(type) {
			case *ssa.Store:
				if y.Addr == x && handsOut(own, y.Val, seen) {
					return true
				}
			case *ssa.FieldAddr:
				for _, u := range *y.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == y && giveBack(s.Val.Type()) != "" && handsOut(own, s.Val, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// partOf: v is x, or what is embedded in it.
func partOf(v, x *eng.Val) bool {
	for i := 0; i < 8 && v != nil; i++ {
		v = lib.Strip(v)
		if v == x {
			return true
		}
		switch v.K {
		case eng.KLoad, eng.KField, eng.KExtract:
			v = v.Args[0]
		default:
			return false
		}
	}
	return false
}

// rootOf an address.
func rootOf(a *eng.Val) *eng.Val {
	for a != nil && (a.K == eng.KField || a.K == eng.KIndex || a.K == eng.KSlice) {
		a = a.Args[0]
	}
	return a
}

func resHooks(r *lib.Report, e *eng.Engine, root *ssa.Function, own map[*ssa.Function]map[int]bool) eng.Hooks {
	name := lib.Name(root)
	var mu sync.Mutex
	fails := map[ssa.Instruction]*eng.Val{}
	failure := func(in ssa.Instruction, t types.Type) *eng.Val {
		mu.Lock()
		defer mu.Unlock()
		if fails[in] == nil {
			fails[in] = e.In.Sym(0, in.(ssa.Value), "failed", t)
		}
		return fails[in]
	}
	what := func(k string) string { return k[strings.LastIndexByte(k, '|')+1:] }
	// free: whoever holds v now is responsible for it
	free := func(st *eng.State, v *eng.Val) {
		if v == nil {
			return
		}
		for _, k := range st.KeysPrefix("open|") {
			x := st.TS[k].V[0]
			if v == x || v.Contains(x) || heldBy(st, v, x) {
				st.Del(k)
			}
		}
	}
	end := func(st *eng.State, v *eng.Val) bool {
		for _, k := range st.KeysPrefix("open|") {
			if partOf(v, st.TS[k].V[0]) {
				st.Del(k)
				return true
			}
		}
		return false
	}
	return eng.Hooks{
		Call: func(st *eng.State, c *eng.Call) *eng.Result {
			if c.Kind == eng.CKGo {
				for _, a := range c.Args {
					free(st, a)
				}
				for _, b := range c.Bind {
					free(st, b)
				}
				free(st, c.FnVal)
				return nil
			}
			if c.Kind == eng.CKDefer {
				return nil
			}
			n := c.Name()
			short := n[strings.LastIndexByte(n, '.')+1:]
			if i := strings.IndexByte(short, '['); i > 0 {
				short = short[:i]
			}
			for _, m := range endings {
				if short == m && len(c.Args) == 1 {
					if end(st, c.Args[0]) {
						return opaqueErr(e, c)
					}
				}
			}
			if strings.HasPrefix(short, "Release") {
				for _, a := range c.Args {
					if end(st, a) {
						return opaqueErr(e, c)
					}
					if a.K == eng.KAlloc {
						if v := st.Load(a, nil); v != nil && end(st, v) {
							return opaqueErr(e, c)
						}
						for _, k := range st.KeysPrefix("in|") {
							if t := st.TS[k]; t.V[0] == a && end(st, t.V[1]) {
								return opaqueErr(e, c)
							}
						}
					}
				}
			}
			if c.FnVal != nil {
				for _, k := range st.KeysPrefix("open|") {
					if t := st.TS[k]; t.S == "cancel" && partOf(c.FnVal, t.V[0]) {
						st.Del(k)
						return opaqueErr(e, c)
					}
				}
			}
			switch {
			case n == "builtin.append", strings.HasSuffix(n, ".Serve"), strings.HasSuffix(n, ".NewDb"), strings.HasSuffix(n, ".Cleanup"), strings.HasPrefix(n, "context.AfterFunc"), strings.HasPrefix(n, "crypto/tls.New"):
				for _, a := range c.Args {
					free(st, a)
				}
				for _, a := range c.Args {
					for _, v := range st.VarArgs(a) {
						free(st, v)
					}
				}
			}
			if strings.HasSuffix(n, "Rows).Next") {
				// the last row gone, they are closed
				for _, k := range st.KeysPrefix("open|") {
					if partOf(c.Args[0], st.TS[k].V[0]) {
						x := st.TS[k].V[0]
						y := e.In.Bool(true)
						return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{y}},
							{Rets: []*eng.Val{e.In.Bool(false)}, Do: func(s *eng.State) { end(s, x) }}}}
					}
				}
			}
			in, ok := c.Instr.(*ssa.Call)
			if !ok {
				return nil
			}
			if i := strings.Index(n, ".DB)."); i > 0 && strings.Contains(n[:i], "sql") {
				switch m := n[i+5:]; {
				case strings.HasPrefix(m, "Exec"), strings.HasPrefix(m, "Get"), strings.HasPrefix(m, "Select"), strings.HasPrefix(m, "Ping"):
					for _, k := range st.KeysPrefix("open|") {
						r.Check(!fromPool(st.TS[k].S), "one-connection", name+" "+short, c.Pos(), st, "asks the pool for a connection while the one of %s is not given back: requests that do so at the same time wait for each other for ever", what(k))
					}
				}
			}
			i, er, ok := resourceOf(own, in.Common(), n)
			if !ok || c.Fn != nil && c.Fn.Parent() == root && len(c.Bind) > 0 {
				return nil
			}
			sig := c.Common.Signature().Results()
			kind := giveBack(sig.At(i).Type())
			if cancelOf(c.Common.Signature()) {
				kind = "cancel"
			}
			if fromPool(n) {
				kind = n
			}
			if fromPool(n) {
				held := ""
				for _, k := range st.KeysPrefix("open|") {
					if fromPool(st.TS[k].S) {
						held = what(k)
					}
				}
				r.Check(held == "", "one-connection", name+" "+short, c.Pos(), st, "asks the pool for a connection while the one of %s is not given back: requests that do so at the same time wait for each other for ever", held)
			}
			site := itoa(int(c.Pos()))
			key := "open|" + site + "|" + short
			if _, open := st.TS[key]; open {
				r.Bad("given-back", name+" "+short, c.Pos(), st, "what was acquired by %s in the round before is not given back", short)
				st.Del(key)
			}
			rets := make([]*eng.Val, sig.Len())
			var bad []*eng.Val
			for q := range rets {
				rets[q] = e.In.Sym(0, in, "res"+itoa(q), sig.At(q).Type())
				bad = append(bad, e.In.Zero(sig.At(q).Type()))
			}
			x := rets[i]
			out := []eng.Outcome{{Rets: rets, Do: func(s *eng.State) {
				s.Set(key, kind, x)
				if kind != "cancel" && kind != "release" {
					s.Assume(e.Eq(x, e.In.Nil()), false)
				}
			}}}
			if er >= 0 {
				rets[er] = e.In.Nil()
				f := failure(in, sig.At(er).Type())
				bad[er] = f
				out = append(out, eng.Outcome{Rets: bad, Do: func(s *eng.State) { s.Assume(e.Eq(f, e.In.Nil()), false) }})
			}
			return &eng.Result{Outcomes: out}
		},
		Store: func(st *eng.State, fr *eng.Frame, addr, v *eng.Val, in ssa.Instruction) {
			b := rootOf(addr)
			for _, k := range st.KeysPrefix("open|") {
				x := st.TS[k].V[0]
				if v != x && !v.Contains(x) && !heldBy(st, v, x) {
					continue
				}
				if b != nil && b.K == eng.KAlloc {
					st.Set("in|"+itoa(b.ID)+"|"+itoa(x.ID), "", b, x)
					if b != rootOf(v) && v != x && v.K == eng.KAlloc {
						st.Set("in|"+itoa(b.ID)+"|"+itoa(v.ID), "", b, v)
					}
				} else {
					st.Del(k)
				}
			}
		},
		Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				free(st, e.Env(st, fr, x.Value))
			case *ssa.Send:
				free(st, e.Env(st, fr, x.X))
			}
		},
		Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
			for _, v := range rets {
				free(st, v)
			}
			for _, k := range st.KeysPrefix("open|") {
				r.Bad("given-back", name+" "+what(k), in.Pos(), st, "returns without giving back what was acquired by %s: nobody can close it anymore", what(k))
			}
			eachInstr(root, func(x ssa.Instruction) {
				if c, ok := x.(*ssa.Call); ok {
					if _, _, ok := resourceOf(own, c.Common(), lib.CallName(c)); ok {
						n := lib.CallName(c)
						n = n[strings.LastIndexByte(n, '.')+1:]
						if i := strings.IndexByte(n, '['); i > 0 {
							n = n[:i]
						}
						r.Ok("given-back", name+" "+n, c.Pos())
					}
				}
			})
		},
	}
}

// heldBy: v is, or has in it, an allocated object that holds x.
func heldBy(st *eng.State, v, x *eng.Val) bool {
	held := map[*eng.Val]bool{x: true}
	for more := true; more; {
		more = false
		for _, k := range st.KeysPrefix("in|") {
			if t := st.TS[k]; held[t.V[1]] && !held[t.V[0]] {
				held[t.V[0]] = true
				more = true
			}
		}
	}
	found := false
	v.Walk(func(y *eng.Val) bool {
		found = found || held[y]
		return !found
	})
	return found
}

// opaqueErr: the call is not walked into.
func opaqueErr(e *eng.Engine, c *eng.Call) *eng.Result { return &eng.Result{Opaque: true} }

// resFields: what an object has acquired for itself its Close or Shutdown
// gives back.
func resFields(p *lib.Prog, r *lib.Report, own map[*ssa.Function]map[int]bool) {
	type held struct {
		t *types.Named
		f int
	}
	fields := map[held]token.Pos{}
	var order []held
	for _, f := range p.Funcs {
		if lib.IsTemplate(f) || testOnly(p, f) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || giveBack(s.Val.Type()) != "close" || !handsOut(own, s.Val, map[ssa.Value]bool{}) {
				return
			}
			n, ok := deref(fa.X.Type()).(*types.Named)
			if !ok {
				return
			}
			if h := (held{n, fa.Field}); !fields[h].IsValid() {
				fields[h] = in.Pos()
				order = append(order, h)
			}
		})
	}
	for _, h := range order {
		st := h.t.Underlying().(*types.Struct)
		fld := st.Field(h.f).Name()
		name := h.t.Obj().Name() + "." + fld
		var end *ssa.Function
		for _, m := range []string{"Close", "Shutdown", "Stop"} {
			if sel := types.NewMethodSet(types.NewPointer(h.t)).Lookup(h.t.Obj().Pkg(), m); sel != nil && len(sel.Index()) == 1 {
				end = p.SSA.MethodValue(sel)
				break
			}
		}
		if end == nil || len(end.Blocks) == 0 {
			if st.Field(h.f).Embedded() {
				r.Ok("held-given-back", name, fields[h]) // its Close is the object's
				continue
			}
			r.Bad("held-given-back", name, fields[h], nil, "the object keeps what it has acquired in %s, but there is no Close or Shutdown that gives it back", fld)
			continue
		}
		j := &lib.Job{P: p, R: r, Roots: []*ssa.Function{end}, NoHavoc: true, KeepFact: func(*eng.Val) bool { return true }, NoInline: func(root, g *ssa.Function) bool {
			return lib.PkgOf(g) != lib.PkgOf(root)
		}}
		j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
			recv := e.In.Param(root, 0)
			ofRecv := func(v *eng.Val, only string) bool {
				v = lib.Strip(v)
				for v.K == eng.KLoad && v.Args[0].K == eng.KField {
					if v.Args[0].Args[0] == recv {
						return only == "" || v.Args[0].Name == only
					}
					v = v.Args[0].Args[0]
				}
				return false
			}
			return eng.Hooks{
				Call: func(s *eng.State, c *eng.Call) *eng.Result {
					if c.Kind == eng.CKDefer {
						return nil
					}
					n := c.Name()
					for _, m := range endings {
						if strings.HasSuffix(n, "."+m) && len(c.Args) == 1 && ofRecv(c.Args[0], fld) {
							s.Set("done", "")
							return &eng.Result{Opaque: true}
						}
					}
					return nil
				},
				Branch: func(s *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
					// closed already: the object says so
					for cond.K == eng.KUn && cond.Op == token.NOT {
						cond, taken = cond.Args[0], !taken
					}
					if s.Has("done") {
						return
					}
					if cond.K == eng.KBin && (cond.Op == token.EQL || cond.Op == token.NEQ) {
						a, b := lib.Strip(cond.Args[0]), lib.Strip(cond.Args[1])
						if a.K == eng.KNil {
							a, b = b, a
						}
						isNil := b.K == eng.KNil && (cond.Op == token.EQL) == taken
						if isNil && (a == recv || ofRecv(a, "")) {
							s.Set("closed", "")
						}
						if b.K != eng.KNil && (ofRecv(a, "") || ofRecv(b, "")) {
							s.Set("closed", "")
						}
					} else if taken && (ofRecv(cond, "") || cond.K == eng.KSym || cond.K == eng.KCall) {
						s.Set("closed", "")
					}
				},
				Exit: func(s *eng.State, rets []*eng.Val, in ssa.Instruction) {
					r.Check(s.Has("done") || s.Has("closed"), "held-given-back", name, in.Pos(), s, "%s of the object ends without giving back what it keeps in %s", root.Name(), fld)
					if s.Has("done") {
						r.Ok("held-given-back", name+" done", in.Pos())
					}
				},
			}
		}
		j.Do(nil)
		r.AddFunc(end)
	}
	r.Floor("held-given-back", 8)
}
