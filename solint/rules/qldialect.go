package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// dialectRules: the evaluator and the translator accept the same conditions
// about the same things, and read the fields that are named.
func dialectRules(p *lib.Prog, r *lib.Report) {
	es := dialectEntries(p, qlp)
	of := map[string]string{} // the type the dialect is about
	sp := p.SSAPkg(qlp)
	for _, m := range sp.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		if mt, ok := ptrElem(g.Type()).Underlying().(*types.Map); ok && strings.HasPrefix(lib.TypeKey(mt.Elem()), qlp+".ParamDialect") {
			if n, ok := mt.Elem().(*types.Named); ok && n.TypeArgs().Len() == 1 {
				of[g.Name()] = n.TypeArgs().At(0).String()
			}
		}
	}
	constFlag := int64(0)
	if c, ok := sp.Members["PfConstValue"].(*ssa.NamedConst); ok {
		constFlag = c.Value.Int64()
	}
	byKey := map[string]map[string]*dialectEntry{}
	for _, d := range es {
		if byKey[d.dialect] == nil {
			byKey[d.dialect] = map[string]*dialectEntry{}
		}
		byKey[d.dialect][d.key] = d
	}
	for a, ea := range byKey {
		for b, eb := range byKey {
			if a == b || of[a] != of[b] {
				continue
			}
			for k, x := range ea {
				y := eb[k]
				same := y != nil && x.nums["Flags"]&^constFlag == y.nums["Flags"]&^constFlag
				r.Check(same, "same-conditions", a+", "+b+": "+k, token.NoPos, nil, "%q may be used in other ways in the conditions of %s than of %s: what one storage accepts the other refuses", k, a, b)
			}
		}
	}
	r.Floor("same-conditions", 2)
	// the fields
	key := map[*ssa.Function]*dialectEntry{}
	var roots []*ssa.Function
	for _, d := range es {
		if f := d.fns["ValueF"]; f != nil && len(f.Params) == 2 {
			key[f] = d
			roots = append(roots, f)
		}
	}
	v := visits{}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return true }}
	strID, arrID := qlConst(p, "StringParamID"), qlConst(p, "ArrayParamID")
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		d := key[root]
		name := d.dialect + ": " + d.key
		prm, obj := e.In.Param(root, 0), e.In.Param(root, 1)
		field := func(x *eng.Val, f string) bool { return ofParam(x, obj, f) }
		return eng.Hooks{
			Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
				v.branch(st, cond, taken)
			},
			Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
				if l, ok := in.(*ssa.Lookup); ok {
					st.Set("lookup", "", e.Env(st, fr, l.X), e.Env(st, fr, l.Index))
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				n := c.Name()
				if c.Kind == eng.CKDefer {
					return nil
				}
				if strings.HasPrefix(n, "(pkg/ql.Param).") || strings.HasPrefix(n, "(pkg/ql.Const).") || strings.HasSuffix(n, ".AsTime") {
					res := e.In.Node(eng.KCall, 0, n, c.Common.Signature().Results().At(0).Type(), c.Args...)
					if strings.HasSuffix(n, "Const).Value") {
						v.use(st, c.Args[0])
						if x := lib.Strip(c.Args[0]); x.K == eng.KLoad && x.Args[0].K == eng.KLoad {
							v.use(st, x.Args[0])
						}
						if d.key == arrID {
							r.Check(!st.Has("pend"), "field", name+": elements", c.Pos(), st, "%s: an element of the list is left out", name)
							st.Set("pend", "", res)
						}
					}
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{res}}}}
				}
				if strings.HasSuffix(n, ".GetID") || strings.HasSuffix(n, ".GetTags") || strings.HasSuffix(n, ".GetCreatedAt") {
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{resultField(st, c.Args[0], n[strings.LastIndex(n, ".Get")+4:])}}}}
				}
				if n == "builtin.append" && len(c.Args) == 2 {
					if t, ok := st.TS["pend"]; ok {
						r.Check(hasVal(st.VarArgs(c.Args[1]), t.V[0]), "field", name+": elements", c.Pos(), st, "%s: an element of the list is left out", name)
						l := lib.Strip(c.Args[0])
						acc, had := st.TS["acc"]
						r.Check(!had || acc.V[0] == l || l.K == eng.KSym, "field", name+": elements", c.Pos(), st, "%s: the elements before are lost", name)
						st.Del("pend")
					}
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if c.Name() == "builtin.append" {
					st.Set("acc", "", rets[0])
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				if !st.IsNil(rets[1]) {
					return
				}
				pos := eng.InstrPos(in)
				x := lib.Strip(rets[0])
				for x.K == eng.KMI {
					x = lib.Strip(x.Args[0])
				}
				text := x.String()
				ok := false
				switch d.key {
				case "logID":
					ok = field(x, "ID")
				case "ctime":
					ok = x.K == eng.KCall && strings.HasSuffix(x.Name, ".AsTime") && field(x.Args[0], "CreatedAt") || st.IsNil(resultField(st, obj, "CreatedAt")) && (x.K == eng.KZero || x.K == eng.KAgg || x.K == eng.KLoad || x.K == eng.KSym)
				case strID:
					ok = x.K == eng.KCall && strings.HasSuffix(x.Name, "Const).Value") && strings.Contains(text, prm.String()+".Const") || strings.Contains(text, ".String") && strings.Contains(text, prm.String()+".Const")
				case arrID:
					l := resultField(st, prm, "Array")
					ok = v.done(st, l) && !st.Has("pend")
				case "tag":
					l, isL := x.Ref.(*ssa.Lookup)
					if ex, isEx := x.Ref.(*ssa.Extract); isEx && ex.Index == 0 {
						l, isL = ex.Tuple.(*ssa.Lookup)
					}
					if isL && l != nil {
						t := st.TS["lookup"]
						k := ""
						if len(t.V) == 2 {
							k = lib.Strip(t.V[1]).String()
						}
						ok = len(t.V) == 2 && field(t.V[0], "Tags") && strings.Contains(k, ".Params[0]") && (strings.Contains(k, "Param).Name") || strings.Contains(k, ".String"))
					} else if s, isS := eng.ConstString(x); isS && s == "" {
						n, known := st.Eval(e.Eq(st.Len(resultField(st, obj, "Tags")), e.In.Int(0)))
						ok = known && n || st.IsNil(resultField(st, obj, "Tags")) || st.Has("lookup")
					}
				default:
					ok = true
				}
				r.Check(ok, "field", name, pos, st, "%s: the value is not the one the condition names: %s", name, x)
			},
		}
	}
	j.Do(nil)
	r.Floor("field", 4)
}

// columnRules: the translated parameters name the columns of what the
// conditions are about, and lists have all their elements.
func columnRules(p *lib.Prog, r *lib.Report) {
	key := map[*ssa.Function]*dialectEntry{}
	var roots []*ssa.Function
	for _, d := range dialectEntries(p, qlp) {
		if f := d.fns["TranslateF"]; f != nil && builderArg(f) >= 0 {
			key[f] = d
			roots = append(roots, f)
		}
	}
	strID, arrID := qlConst(p, "StringParamID"), qlConst(p, "ArrayParamID")
	v := visits{}
	opaque := func(g *ssa.Function) bool {
		_, k := astParam(g)
		return lib.PkgOf(g) != qlp || k != "" || strings.HasSuffix(lib.Name(g), "Param).Name") || strings.HasSuffix(lib.Name(g), "Param).ID")
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return opaque(g) }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		d := key[root]
		name := d.dialect + ": " + d.key
		prm := e.In.Param(root, len(root.Params)-1)
		sb := e.In.Param(root, builderArg(root))
		appends := map[ssa.Value]bool{}
		add := func(st *eng.State, s string) {
			if t := st.Get("out"); len(t) < 120 {
				st.Set("out", t+s)
			}
		}
		write := func(st *eng.State, pos token.Pos, x *eng.Val) {
			x = lib.Strip(x)
			if s, ok := eng.ConstString(x); ok {
				add(st, s)
				return
			}
			if n, ok := eng.ConstInt(x); ok {
				add(st, string(rune(n)))
				return
			}
			if x.K == eng.KBin && x.Op == token.ADD {
				// pieces
				st.Set("pos", "")
			}
			for x.K == eng.KCall && x.Name == "strings.ReplaceAll" && len(x.Args) == 3 {
				x = lib.Strip(x.Args[0])
			}
			text := x.String()
			if d.key == arrID && x.K == eng.KCall && x.Name == "strings.Join" && len(x.Args) == 2 {
				// all elements at once
				sep, _ := eng.ConstString(x.Args[1])
				l, isL := st.TS["listed"]
				ph, grown := lib.Strip(x.Args[0]).Ref.(*ssa.Phi)
				grown = grown && lib.Strip(x.Args[0]).K == eng.KSym && grownBy(ph, appends)
				if isL && l.S == "" && strings.TrimSpace(sep) == "," && (grown || l.V[0] == lib.Strip(x.Args[0])) && v.done(st, l.V[1]) {
					add(st, "L")
					st.Set("joined", "")
					return
				}
			}
			switch {
			case d.key == arrID:
				// the element: *list[i].String
				var el *eng.Val
				x.Walk(func(y *eng.Val) bool {
					if l, _, ok := elementIn(st, y); ok && el == nil && ofParam(l, prm, "Array") {
						el = y
					}
					return true
				})
				if el == nil {
					add(st, "?")
					return
				}
				started := st.Has("some")
				_, next := v.use(st, el)
				b := strings.NewReplacer("'", "", "(", "", " ", "").Replace(st.Get("out"))
				r.Check(next && b == map[bool]string{true: ",", false: ""}[started], "columns", name+": elements", pos, st, "%s: the elements are not written one by one, with commas between them: %q", name, st.Get("out"))
				st.Set("some", "")
				st.Set("out", "")
			case d.key == strID && strings.Contains(text, prm.String()+".Const") && (strings.Contains(text, ".String") || strings.Contains(text, "Const).Value")):
				add(st, "*")
			default:
				add(st, "?")
			}
		}
		return eng.Hooks{
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if d.key != arrID || c.Name() != "builtin.append" || len(c.Args) < 2 {
					return
				}
				for _, x := range st.VarArgs(c.Args[1]) {
					var el *eng.Val
					text := ""
					for _, p := range textOf(st, x, nil) {
						if p.v == nil {
							text += p.s
							continue
						}
						p.v.Walk(func(y *eng.Val) bool {
							if l, _, ok := elementIn(st, y); ok && el == nil && ofParam(l, prm, "Array") {
								el = y
								text += "*"
							}
							return true
						})
					}
					if el == nil {
						continue
					}
					if i, ok := c.Instr.(ssa.Value); ok {
						appends[i] = true
					}
					was, more := st.TS["listed"]
					l, next := v.use(st, el)
					state := was.S
					if !next || text != "'*'" {
						state = "!"
					}
					if to := lib.Strip(c.Args[0]); !more || was.V[0] != to {
						ph, ok := to.Ref.(*ssa.Phi)
						none, known := st.Eval(e.Eq(st.Len(to), e.In.Int(0)))
						if !(ok && to.K == eng.KSym && grownBy(ph, appends)) && !(known && none) {
							state = "!"
						}
					}
					st.Set("listed", state, rets[0], l)
				}
			},
			Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
				v.branch(st, cond, taken)
				for cond.K == eng.KUn && cond.Op == token.NOT {
					cond, taken = cond.Args[0], !taken
				}
				if cond.K == eng.KBin && len(cond.Args) == 2 && st.Has("some") {
					a, b := cond.Args[0], cond.Args[1]
					if n, ok := eng.ConstInt(a); ok && n == 0 && cond.Op == token.LSS && !taken && v.counter(lib.Linear(b)) {
						st.Set("impossible", "")
					}
					if n, ok := eng.ConstInt(b); ok && n == 0 && cond.Op == token.EQL && taken && v.counter(lib.Linear(a)) {
						st.Set("impossible", "")
					}
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind == eng.CKDefer || st.Has("impossible") {
					return nil
				}
				n := c.Name()
				if m, ok := strings.CutPrefix(n, "(*strings.Builder)."); ok && strings.HasPrefix(m, "Write") && c.Args[0] == sb {
					for _, x := range written(st, c.Args[1]) {
						if x.v == nil {
							add(st, x.s)
						} else {
							write(st, c.Pos(), x.v)
						}
					}
					return nil
				}
				if n == "strings.ReplaceAll" {
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Node(eng.KCall, 0, n, types.Typ[types.String], c.Args...)}}}}
				}
				if c.Fn != nil && builderArg(c.Fn) >= 0 {
					if i, k := astParam(c.Fn); k == "Param" {
						if strings.HasSuffix(c.Args[i].String(), ".Function.Params[0]") && strings.HasPrefix(c.Args[i].String(), prm.String()) {
							add(st, "<name>")
							return nil
						}
					}
					if opaque(c.Fn) {
						add(st, "?")
					}
				}
				return nil
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				if st.IsNonNil(rets[0]) || st.Has("impossible") {
					return
				}
				pos := eng.InstrPos(in)
				out := strings.Join(strings.Fields(st.Get("out")), " ")
				l := resultField(st, prm, "Array")
				ok := true
				switch d.key {
				case "logID":
					ok = out == "id"
				case "tag":
					ok = strings.ReplaceAll(out, " ", "") == "tags->><name>"
				case strID:
					ok = out == "'*'"
				case arrID:
					if st.Has("joined") {
						ok = out == "(L)" && v.done(st, l)
					} else if !st.Has("some") {
						none, known := st.Eval(e.Eq(st.Len(l), e.In.Int(0)))
						in := strings.Trim(out, "() ")
						ok = (known && none || lib.Entails(st, lib.Lin{}.Sub(lib.Linear(st.Len(l))))) && strings.HasPrefix(out, "(") && in != ""
					} else {
						ok = strings.Trim(out, " '") == ")" && v.done(st, l)
					}
				}
				r.Check(ok, "columns", name, pos, st, "%s is translated to something else, or not completely: %q", name, out)
			},
		}
	}
	j.Do(nil)
	r.Floor("columns", 4)
}
