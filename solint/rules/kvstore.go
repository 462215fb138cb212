package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

const kvsP = "golibs/kvs"

// isErr tells that the error is, or wraps, the named one of golibs/errors.
func isErr(st *eng.State, v *eng.Val, name string) (found bool) {
	var walk func(v *eng.Val, d int)
	walk = func(v *eng.Val, d int) {
		v.Walk(func(x *eng.Val) bool {
			if x.K == eng.KGlobal && strings.HasSuffix(x.String(), "."+name) {
				found = true
			}
			return !found
		})
		if d < 3 {
			v.Walk(func(x *eng.Val) bool {
				if x.K == eng.KSlice {
					for _, a := range st.VarArgs(x) {
						walk(a, d+1)
					}
				}
				return !found
			})
		}
	}
	walk(v, 0)
	return
}

// errorf keeps what an error wraps.
func errorf(e *eng.Engine, c *eng.Call) *eng.Result {
	if c.Name() != "fmt.Errorf" || c.Kind == eng.CKDefer {
		return nil
	}
	n := e.In.Node(eng.KCall, 0, "fmt.Errorf", c.Common.Signature().Results().At(0).Type(), c.Args...)
	return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{n}, Do: func(st *eng.State) { st.Assume(e.Eq(n, e.In.Nil()), false) }}}}
}

// kvRecords decides the key-value storage in memory: what its operations look
// at, change and tell, and that who waits for a change is told of it.
func kvRecords(p *lib.Prog, r *lib.Report) {
	const inm = kvsP + "/inmem"
	it := ifaceOf(p, kvsP, "Storage")
	recT := p.Named(kvsP, "Record")
	if it == nil || recT == nil {
		r.Bad("anchor", "kvs.Storage", token.NoPos, nil, "the interface is not there")
		return
	}
	isRecs := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		el := m.Elem()
		if q, ok := el.Underlying().(*types.Pointer); ok {
			el = q.Elem()
		}
		return types.Identical(el, recT)
	}
	isWaits := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		q, ok := m.Elem().Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		s, ok := q.Elem().Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			if isChanT(s.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	v := visits{strict: true}
	roots := implementers(p, []string{inm}, it)
	j := &lib.Job{P: p, R: r, Roots: roots, KeepFact: func(*eng.Val) bool { return true }, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != inm }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name, op := lib.Name(root), root.Name()
		strT := types.Typ[types.String]
		field := func(st *eng.State, rec *eng.Val, f string) *eng.Val {
			return lib.Strip(st.FieldOf(rec, f, fieldType(recT, f)))
		}
		// state of the record found: absent, expired, live or ""
		status := func(st *eng.State, t eng.TS) string {
			rec, ok := t.V[1], t.V[2]
			b, known := st.Eval(ok)
			switch {
			case !known:
				return ""
			case !b:
				return "absent"
			}
			exp := field(st, rec, "ExpiresAt")
			if st.IsNil(exp) {
				return "live"
			}
			return st.Get("age:" + itoa(exp.ID))
		}
		// a comparison of the expiration with the time
		aged := func(st *eng.State, f *eng.Val, val bool) {
			for f.K == eng.KUn && f.Op == token.NOT {
				f, val = f.Args[0], !val
			}
			if f.K != eng.KCall || len(f.Args) != 2 || !strings.HasPrefix(f.Name, "(time.Time).") {
				return
			}
			for _, k := range st.KeysPrefix("rec:") {
				exp := field(st, st.TS[k].V[1], "ExpiresAt")
				of := func(x *eng.Val) (is bool) {
					x.Walk(func(y *eng.Val) bool {
						is = is || y == exp
						return !is
					})
					return
				}
				a, b := of(f.Args[0]), of(f.Args[1])
				if a == b {
					continue
				}
				if strings.HasSuffix(f.Name, ".After") {
					a = b
				} else if !strings.HasSuffix(f.Name, ".Before") {
					continue
				}
				// a: the question was whether the expiration is before the time
				st.Set("age:"+itoa(exp.ID), map[bool]string{true: "expired", false: "live"}[a == val], exp)
			}
		}
		found := func(st *eng.State, key *eng.Val) (t eng.TS, s string) {
			t, ok := st.TS["rec:"+itoa(key.ID)]
			if !ok {
				if st.Has("gone:" + itoa(key.ID)) {
					return t, "absent"
				}
				return t, ""
			}
			return t, status(st, t)
		}
		same := func(st *eng.State, a, b *eng.Val) (eq, known bool) { return st.Eval(e.Eq(a, b)) }
		forget := func(st *eng.State) {
			for _, pre := range []string{"rec:", "gone:", "ws:", "age:", "last", "fresh:"} {
				for _, k := range st.KeysPrefix(pre) {
					st.Del(k)
				}
			}
		}
		// what the symbol stood for in the round before
		other := func(st *eng.State, pre string, x *eng.Val) {
			for _, k := range st.KeysPrefix(pre) {
				t := st.TS[k]
				if len(t.V) < 2 || t.V[1] != x {
					continue
				}
				st.Del(k)
			}
		}
		// passed over: a live record that should have been given out
		kept := func(st *eng.State, pos token.Pos) {
			t, ok := st.TS["last"]
			if !ok || op != "GetMany" && op != "ListKeys" {
				return
			}
			if status(st, t) == "live" {
				out := op == "GetMany"
				if op == "ListKeys" {
					m, known := false, false
					if g, ok := st.TS["match:"+itoa(t.V[0].ID)]; ok {
						m, known = st.Eval(g.V[0])
					}
					out = !known || m
				}
				r.Check(!out, "found-given", name, pos, st, "%s leaves a record out that is there", name)
			}
			st.Del("last")
		}
		settle := func(st *eng.State) { // nobody waits
			for _, k := range st.KeysPrefix("ws:") {
				t := st.TS[k]
				if t.S != "" || len(t.V) < 2 {
					continue
				}
				none := st.IsNil(t.V[1])
				if len(t.V) > 2 {
					b, known := st.Eval(t.V[2])
					none = none || known && !b
				}
				if none {
					st.Del("owe:" + itoa(t.V[0].ID))
				}
			}
		}
		unlock := func(st *eng.State, pos token.Pos) {
			settle(st)
			r.Check(len(st.KeysPrefix("owe:")) == 0, "waiters-told", name, pos, st, "%s changes a record and does not wake up those who wait for that", name)
			r.Check(len(st.KeysPrefix("left:")) == 0, "waiters-told", name+": closed", pos, st, "%s forgets the waiters without waking them up", name)
			r.Check(len(st.KeysPrefix("shut:")) == 0, "waiters-told", name+": entry", pos, st, "%s closes the channel of the waiters and leaves it there: it is closed again later", name)
		}
		chanOf := func(st *eng.State, ch *eng.Val) *eng.Val { // the waiters a channel belongs to
			_, ws := loadedFrom(ch)
			return ws
		}
		chanAt := func(st *eng.State, ws, ch *eng.Val) bool { // the channel the waiters have got
			q, ok := ws.Typ.(*types.Pointer)
			if !ok {
				return false
			}
			s, ok := q.Elem().Underlying().(*types.Struct)
			for i := 0; ok && i < s.NumFields(); i++ {
				if isChanT(s.Field(i).Type()) && st.Load(e.In.Node(eng.KField, 0, s.Field(i).Name(), nil, ws), ch.Typ) == ch {
					return true
				}
			}
			return false
		}
		mapped := func(st *eng.State, ch *eng.Val) *eng.Val { // the key it is registered for
			for _, k := range st.KeysPrefix("ws:") {
				t := st.TS[k]
				if len(t.V) < 2 {
					continue
				}
				w := t.V[1]
				if chanOf(st, ch) == w {
					return t.V[0]
				}
				var eq bool
				st.EachFact(func(f *eng.Val, val bool) {
					for f.K == eng.KUn && f.Op == token.NOT {
						f, val = f.Args[0], !val
					}
					if f.K != eng.KBin || f.Op != token.EQL || !val || len(f.Args) != 2 {
						return
					}
					for i := 0; i < 2; i++ {
						a, b := lib.Strip(f.Args[i]), lib.Strip(f.Args[1-i])
						if (a == ch || a == chanOf(st, ch) || chanAt(st, a, ch)) && (b == w || chanOf(st, b) == w) {
							eq = true
						}
					}
				})
				if eq || chanAt(st, w, ch) {
					return t.V[0]
				}
			}
			return nil
		}
		isLock := func(c *eng.Call) string {
			if i := strings.Index(c.Name(), "utex)."); i >= 0 && strings.HasPrefix(c.Name(), "(*sync.") {
				return c.Name()[i+6:]
			}
			return ""
		}
		return eng.Hooks{
			Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
				v.branch(st, cond, taken)
				aged(st, cond, taken)
				for cond.K == eng.KUn && cond.Op == token.NOT {
					cond, taken = cond.Args[0], !taken
				}
				if cond.K == eng.KBin && cond.Op == token.EQL && !taken {
					for i, x := range cond.Args {
						if strings.Contains(x.String(), "context.Context.Err") && st.IsNil(cond.Args[1-i]) {
							st.Set("ctx failed", "")
						}
					}
				}
			},
			Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				switch x := in.(type) {
				case *ssa.Next:
					if rg, ok := x.Iter.(*ssa.Range); ok && isRecs(rg.X.Type()) {
						kept(st, pos)
						st.Set("ranged", "")
					}
				case *ssa.Lookup:
					settle(st)
					key := e.Env(st, fr, x.Index)
					typ := x.Type()
					if tu, ok := typ.(*types.Tuple); ok {
						typ = tu.At(0).Type()
					}
					got := []*eng.Val{key, e.In.Sym(fr.Ctx, x, "#0", typ)}
					if x.CommaOk {
						got = append(got, e.In.Sym(fr.Ctx, x, "#1", x.Type().(*types.Tuple).At(1).Type()))
					}
					switch {
					case isRecs(x.X.Type()):
						kept(st, pos)
						v.use(st, key)
						other(st, "rec:", got[1])
						st.Del("gone:" + itoa(key.ID))
						st.Del("rec:" + itoa(key.ID))
						st.Del("last")
						st.Del("age:" + itoa(field(st, got[1], "ExpiresAt").ID))
						if x.CommaOk {
							st.Set("rec:"+itoa(key.ID), "", got...)
							st.Set("last", "", got...)
						}
					case isWaits(x.X.Type()):
						other(st, "ws:", got[1])
						st.Set("ws:"+itoa(key.ID), "", got...)
					}
				case *ssa.Alloc:
					st.Set("fresh:"+fr.Fn.Name()+x.Name(), "")
				case *ssa.MapUpdate:
					key, val := e.Env(st, fr, x.Key), e.Env(st, fr, x.Value)
					if isWaits(x.Map.Type()) {
						t, ok := st.TS["ws:"+itoa(key.ID)]
						free := ok && (t.S == "none" || len(t.V) > 1 && st.IsNil(t.V[1]))
						if ok && len(t.V) > 2 {
							b, known := st.Eval(t.V[2])
							free = free || known && !b
						}
						r.Check(free, "waiters-kept", name, pos, st, "%s replaces the waiters that are registered: nobody wakes them up", name)
						st.Set("ws:"+itoa(key.ID), "new", key, val)
						return
					}
					if !isRecs(x.Map.Type()) {
						return
					}
					if _, isPtr := val.Typ.Underlying().(*types.Pointer); isPtr {
						val = st.Load(val, recT)
					}
					t, s := found(st, key)
					ver := field(st, val, "Version")
					r.Check(madeBy(ver, "golibs/ulidutils.NewID") && st.Has("newid"), "new-version", name, pos, st, "%s stores a record without a version of its own: %s", name, ver)
					st.Del("newid")
					k := field(st, val, "Key")
					r.Check(k == lib.Strip(key), "stored", name+": key", pos, st, "%s stores a record under another key than its own", name)
					from := map[string]*eng.Val{}
					for _, f := range []string{"Key", "Value", "ExpiresAt"} {
						if n, of := loadedFrom(field(st, val, f)); n == f {
							from[f] = of
						}
					}
					r.Check(from["Key"] != nil && from["Key"] == from["Value"] && from["Key"] == from["ExpiresAt"], "stored", name+": what", pos, st, "%s stores something else than the record it was given", name)
					if o := from["Key"]; o != nil && op == "PutMany" {
						l, next := v.use(st, o)
						r.Check(l == e.In.Param(root, 2) && next, "stored", name+": which", pos, st, "%s does not store the records it was given, one by one", name)
					} else if o != nil && len(root.Params) > 2 {
						r.Check(o == e.In.Param(root, 2), "stored", name+": which", pos, st, "%s stores another record than the one it was given", name)
					}
					switch op {
					case "Create":
						r.Check(s == "absent" || s == "expired", "create-only-new", name, pos, st, "%s stores a record though there may be one", name)
					case "CasByVersion":
						eq, known := false, false
						if t.V != nil {
							eq, known = same(st, field(st, t.V[1], "Version"), field(st, e.In.Param(root, 2), "Version"))
						}
						r.Check(s == "live" && known && eq, "cas", name, pos, st, "%s replaces a record without seeing that it is there and has the version expected", name)
					case "Put", "PutMany":
					default:
						r.Check(false, "stored", name+": at all", pos, st, "%s stores a record", name)
					}
					st.Set("stored", "", key, val, ver)
					if s != "absent" && !(op == "Create" && s == "expired") {
						st.Set("owe:"+itoa(key.ID), "", key)
					}
					st.Del("rec:" + itoa(key.ID))
				case *ssa.Select:
					if op != "WaitForVersionChange" {
						return
					}
					key, want := e.In.Param(root, 2), e.In.Param(root, 3)
					t, s := found(st, key)
					eq, known := false, false
					if t.V != nil {
						eq, known = same(st, field(st, t.V[1], "Version"), want)
					}
					r.Check(s == "live" && known && eq, "wait", name+": for what", pos, st, "%s waits though the record may be gone or changed already", name)
					r.Check(x.Blocking, "wait", name+": blocking", pos, st, "%s does not wait but turns around all the time", name)
					ctx, told, timer := false, false, false
					for _, sst := range x.States {
						ch := lib.Strip(e.Env(st, fr, sst.Chan))
						switch {
						case ch.K == eng.KCall && ch.Name == "(context.Context).Done":
							ctx = ctx || ch.Args[0] == e.In.Param(root, 1)
						case mapped(st, ch) == key:
							told = true
						case st.IsNil(ch):
						default:
							if f, tm := loadedFrom(ch); f == "C" && tm != nil {
								if d, ok := st.TS["timer:"+itoa(tm.ID)]; ok && t.V != nil {
									exp := field(st, t.V[1], "ExpiresAt")
									d.V[0].Walk(func(y *eng.Val) bool {
										timer = timer || y == exp
										return !timer
									})
								}
							}
						}
					}
					r.Check(ctx, "wait", name+": context", pos, st, "%s waits without watching its context", name)
					r.Check(told, "wait", name+": registered", pos, st, "%s waits without being registered to be told of the change, since it has looked at the record", name)
					r.Check(timer || t.V != nil && st.IsNil(field(st, t.V[1], "ExpiresAt")), "wait", name+": expiration", pos, st, "%s does not notice that the record expires", name)
				case *ssa.Store:
					if op == "GetMany" {
						val, addr := lib.Strip(e.Env(st, fr, x.Val)), e.Env(st, fr, x.Addr)
						l, ok := st.TS["last"]
						if addr.K != eng.KIndex || !ok {
							return
						}
						if q, isPtr := val.Typ.Underlying().(*types.Pointer); !isPtr || !types.Identical(q.Elem(), recT) {
							return
						}
						_, idx, isEl := elementIn(st, l.V[0])
						fresh := true
						if a, ok := x.Val.(*ssa.Alloc); ok {
							fresh = st.Has("fresh:" + fr.Fn.Name() + a.Name())
							st.Del("fresh:" + fr.Fn.Name() + a.Name())
						}
						at := fresh && isEl && lib.Linear(idx).Sub(lib.Linear(addr.Args[1])).IsConst() && lib.Linear(idx).Sub(lib.Linear(addr.Args[1])).C == 0
						r.Check(at && st.Load(val, recT) == l.V[1] && status(st, l) == "live", "given-out", name, pos, st, "%s gives out a record that may have expired, or in another place, or overwrites it later", name)
						st.Del("last")
					}
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind == eng.CKDefer {
					return nil
				}
				switch isLock(c) {
				case "Lock", "RLock":
					forget(st)
					return nil
				case "Unlock", "RUnlock":
					kept(st, c.Pos())
					unlock(st, c.Pos())
					return nil
				}
				switch n := c.Name(); n {
				case "(time.Time).Before", "(time.Time).After":
					x := e.In.Node(eng.KCall, 0, n, types.Typ[types.Bool], c.Args...)
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{x}}}}
				case "time.Until", "(time.Time).Sub", "(time.Time).Add":
					x := e.In.Node(eng.KCall, 0, n, c.Common.Signature().Results().At(0).Type(), c.Args...)
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{x}}}}
				case "fmt.Errorf":
					return errorf(e, c)
				case "builtin.delete":
					key := c.Args[1]
					switch {
					case isRecs(c.Args[0].Typ):
						_, s := found(st, key)
						ok := s == "expired" || op == "Delete" && s == "live" && key == e.In.Param(root, 2)
						r.Check(ok, "deleted", name, c.Pos(), st, "%s removes a record that is neither the one to delete nor expired", name)
						if s == "live" {
							st.Set("deleted", "")
						}
						if l, ok := st.TS["last"]; ok && l.V[0] == key {
							st.Del("last")
						}
						st.Set("owe:"+itoa(key.ID), "", key)
						st.Del("rec:" + itoa(key.ID))
						st.Set("gone:"+itoa(key.ID), "")
					case isWaits(c.Args[0].Typ):
						if !st.Has("shut:" + itoa(key.ID)) {
							st.Set("left:"+itoa(key.ID), "", key)
						}
						st.Del("shut:" + itoa(key.ID))
						st.Del("owe:" + itoa(key.ID))
						t := st.TS["ws:"+itoa(key.ID)]
						if len(t.V) == 0 {
							t.V = append(t.V, key)
						}
						st.Set("ws:"+itoa(key.ID), "none", t.V...)
					}
				case "builtin.close":
					k := mapped(st, lib.Strip(c.Args[0]))
					left := k != nil && st.Has("left:"+itoa(k.ID))
					r.Check(k != nil && !st.Has("shut:"+itoa(k.ID)) && (left || st.TS["ws:"+itoa(k.ID)].S != "none"), "waiters-told", name+": which", c.Pos(), st, "%s closes a channel that may not be registered any more: it may be closed already, and the one registered stays open", name)
					switch {
					case left:
						st.Del("left:" + itoa(k.ID))
					case k != nil:
						st.Set("shut:"+itoa(k.ID), "", k)
					}
				}
				if strings.HasSuffix(c.Name(), ".Match") && len(c.Args) == 2 {
					m := e.In.Node(eng.KCall, 0, "match", types.Typ[types.Bool], c.Args...)
					st.Set("match:"+itoa(c.Args[1].ID), "", m)
					if t, ok := st.TS["glob"]; ok {
						r.Check(t.V[0] == e.In.Param(root, 2) && c.Args[0] == t.V[1], "given-out", name+": pattern", c.Pos(), st, "%s matches the keys with another pattern than it was given", name)
					}
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{m}}}}
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				switch c.Name() {
				case "(context.Context).Err":
					if st.Has("ctx failed") { // it stays so
						st.Assume(e.Eq(rets[0], e.In.Nil()), false)
					}
				case "golibs/ulidutils.NewID":
					st.Set("newid", "")
				case "time.NewTimer":
					st.Set("timer:"+itoa(rets[0].ID), "", c.Args[0])
				case "github.com/gobwas/glob.Compile":
					st.Set("glob", "", c.Args[0], rets[0])
				case "builtin.append":
					if op != "ListKeys" || len(c.Args) < 2 {
						return
					}
					for _, x := range st.VarArgs(c.Args[1]) {
						if x.Typ == nil || !types.Identical(x.Typ.Underlying(), strT) {
							continue
						}
						_, s := found(st, x)
						m, known := false, false
						if g, ok := st.TS["match:"+itoa(x.ID)]; ok {
							m, known = st.Eval(g.V[0])
						}
						r.Check(s == "live" && known && m, "given-out", name, c.Pos(), st, "%s lists a key that may have expired or does not match", name)
						st.Del("last")
					}
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				er := rets[len(rets)-1]
				// whether there was a lookup of a waiters' entry that settles what is owed
				stored, has := st.TS["stored"]
				param := func(i int) *eng.Val { return e.In.Param(root, i) }
				if !st.IsNil(er) {
					r.Check(!has && !st.Has("deleted"), "failed", name, pos, st, "%s reports a failure though it has changed a record", name)
				}
				var key *eng.Val
				switch op {
				case "Create", "CasByVersion":
					key = field(st, param(2), "Key")
				case "Get", "Delete", "WaitForVersionChange":
					key = param(2)
				}
				var t eng.TS
				s := ""
				if key != nil {
					t, s = found(st, key)
				}
				if isErr(st, er, "ErrNotExist") {
					r.Check(key != nil && (s == "absent" || s == "expired"), "told", name+": ErrNotExist", pos, st, "%s tells that a record does not exist that may be there", name)
				}
				if isErr(st, er, "ErrExist") {
					r.Check(op == "Create" && s == "live" && rets[0] == field(st, t.V[1], "Version"), "told", name+": ErrExist", pos, st, "%s tells that a record exists that may not, or not its version", name)
				}
				versions := func(want bool) bool {
					if t.V == nil || s != "live" {
						return false
					}
					w := param(len(root.Params) - 1)
					if op == "CasByVersion" {
						w = field(st, w, "Version")
					}
					eq, known := same(st, field(st, t.V[1], "Version"), w)
					return known && eq == want
				}
				if isErr(st, er, "ErrConflict") {
					r.Check(op == "CasByVersion" && versions(false), "told", name+": ErrConflict", pos, st, "%s tells of a conflict though the version may be the one expected", name)
				}
				if !st.IsNil(er) {
					if !st.IsNonNil(er) {
						r.Check(false, "told", name+": unknown", pos, st, "%s may or may not report success: %s", name, er)
					}
					return
				}
				switch op {
				case "Create":
					r.Check(has && rets[0] == stored.V[2], "told", name, pos, st, "%s reports success without giving the version of the record it has stored", name)
				case "Put", "CasByVersion":
					good := has
					for _, f := range []string{"Key", "Value", "Version", "ExpiresAt"} {
						good = good && field(st, lib.Strip(rets[0]), f) == field(st, stored.V[1], f)
					}
					r.Check(good, "told", name, pos, st, "%s reports success without giving the record it has stored", name)
				case "PutMany":
					r.Check(v.done(st, param(2)), "stored", name+": every one", pos, st, "%s reports success though it has not stored all the records", name)
				case "Get":
					r.Check(s == "live" && rets[0] == t.V[1], "given-out", name, pos, st, "%s gives out a record that may have expired, or another one", name)
				case "GetMany":
					r.Check(v.done(st, param(2)), "given-out", name+": every one", pos, st, "%s does not look for all the records", name)
				case "Delete":
					r.Check(st.Has("deleted"), "told", name, pos, st, "%s reports success though it has deleted nothing", name)
				case "ListKeys":
					r.Check(st.Has("ranged"), "given-out", name+": every one", pos, st, "%s does not look at the records", name)
				case "WaitForVersionChange":
					r.Check(versions(false), "wait", name+": changed", pos, st, "%s tells that the version has changed though it may not", name)
				}
			},
		}
	}
	j.Do(nil)
	for rule, n := range map[string]int{"told": 7, "stored": 8, "new-version": 3, "cas": 1, "create-only-new": 1, "waiters-told": 8, "wait": 6, "deleted": 1, "given-out": 4} {
		r.Floor(rule, n)
	}
}

func init() {
	register("C24", func(p *lib.Prog, r *lib.Report) {
		kvRecords(p, r)
	}, `C24 walks every operation of the in-memory key-value storage over all paths. What an operation knows about
a record (not there, expired, live, the version compared) is what it has looked up since it took the lock; a record
is stored, replaced, removed, given out or told of only on paths where that is known. Every change owes a wake-up:
before the lock is given back the channel of those who wait for the key is closed, exactly once, and taken out,
or known not to be there. Waiting: the waiter is registered in the critical section that has looked at the record,
watches its context, the channel and the expiration, and comes back only for a reason it has seen.`)
}
