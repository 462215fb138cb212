package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// astParam is astArg that also finds lists of nodes and parameters.
func astParam(f *ssa.Function) (int, string) {
	for i, p := range f.Params {
		if n := astKind(p.Type()); n != "" {
			return i, n
		}
	}
	return -1, ""
}

// astKind names the kind of a node of the syntax tree or a list of them.
func astKind(t types.Type) string {
	if s, ok := t.Underlying().(*types.Slice); ok {
		if pt, ok := s.Elem().Underlying().(*types.Pointer); ok {
			if n := astKind(pt); n != "" {
				return "[]" + n
			}
		}
		return ""
	}
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		return ""
	}
	if n := astName(t); n != "" {
		return n
	}
	if lib.TypeKey(ptrElem(t)) == qlp+".Param" {
		return "Param"
	}
	return ""
}

func builderArg(f *ssa.Function) int {
	for i, a := range f.Params {
		if q, ok := a.Type().Underlying().(*types.Pointer); ok && lib.TypeKey(q.Elem()) == "strings.Builder" {
			return i
		}
	}
	return -1
}

// sqlTree: the translation has all the parts of a condition, each once, in
// order, with the operators between them that the condition has.
func sqlTree(p *lib.Prog, r *lib.Report) {
	kind := map[*ssa.Function]string{}
	var roots []*ssa.Function
	found := map[string]bool{}
	for _, f := range p.InPkg(qlp) {
		if _, n := astParam(f); n != "" && f.Parent() == nil && builderArg(f) >= 0 && len(f.Blocks) > 0 {
			kind[f] = n
			found[n] = true
			roots = append(roots, f)
		}
	}
	for _, n := range []string{"Expression", "OrCondition", "XCondition", "Condition", "Param"} {
		if !found[n] {
			r.Bad("anchor", "translator: "+n, token.NoPos, nil, "no function of %s writes the SQL text of: %s", qlp, n)
		}
	}
	v := visits{}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool {
		return lib.PkgOf(g) != qlp || kind[g] != "" || strings.HasSuffix(lib.Name(g), "Param).Name") || strings.HasSuffix(lib.Name(g), "Param).ID")
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		ai, node := astParam(root)
		in := e.In.Param(root, ai)
		sb := e.In.Param(root, builderArg(root))
		join := map[string]string{"Expression": "OR", "OrCondition": "AND", "[]Param": ",", "[]OrCondition": "OR", "[]XCondition": "AND"}[node]
		field := map[string]string{"Expression": "Or", "OrCondition": "And"}[node]
		isList := join != ""
		// the list of the node
		list := func(l *eng.Val) bool {
			if field == "" {
				return l == in
			}
			return ofParam(l, in, field)
		}
		isOp := func(x *eng.Val) bool { return ofParam(x, in, "Op") }
		write := func(st *eng.State, pos token.Pos, x *eng.Val) {
			x = lib.Strip(x)
			for x.K == eng.KCall && (x.Name == "strings.ToUpper" || x.Name == "strings.ToLower" || x.Name == "strings.TrimSpace") && len(x.Args) > 0 {
				x = lib.Strip(x.Args[0])
			}
			t := st.TS["out"]
			w := ""
			if s, ok := eng.ConstString(x); ok {
				w = strings.ToUpper(s)
			} else if n, ok := eng.ConstInt(x); ok {
				w = string(rune(n))
			} else if isOp(x) {
				w = " op "
			} else if nameCall(x) {
				w = " name "
			} else {
				w = " ? "
			}
			if len(t.S) > 80 {
				return
			}
			st.Set("out", t.S+w)
		}
		flat := func(st *eng.State) string {
			s := st.Get("out")
			for _, c := range "()," {
				s = strings.ReplaceAll(s, string(c), " "+string(c)+" ")
			}
			return strings.Join(strings.Fields(s), " ")
		}
		between := func(st *eng.State) string {
			return strings.Join(strings.FieldsFunc(flat(st), func(c rune) bool { return c == ' ' || c == '(' || c == ')' }), " ")
		}
		// boundless removes the brackets around a child
		child := func(s, c string) string {
			for {
				x := strings.ReplaceAll(s, "( "+c+" )", c)
				if x == s {
					return s
				}
				s = x
			}
		}
		return eng.Hooks{
			Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
				v.branch(st, cond, taken)
				for cond.K == eng.KUn && cond.Op == token.NOT {
					cond, taken = cond.Args[0], !taken
				}
				if cond.K == eng.KBin && len(cond.Args) == 2 {
					a, b := cond.Args[0], cond.Args[1]
					switch {
					case cond.Op == token.EQL && (fieldIs(a, "TranslateF") || fieldIs(b, "TranslateF")):
						if taken {
							st.Set("plain", "")
						}
					case cond.Op == token.LSS && !taken && st.Has("some"):
						// the place in the list is behind the first one already
						if n, ok := eng.ConstInt(a); ok && n == 0 && v.counter(lib.Linear(b)) {
							st.Set("impossible", "")
						}
					case cond.Op == token.EQL && taken && st.Has("some"):
						if n, ok := eng.ConstInt(b); ok && n == 0 && v.counter(lib.Linear(a)) {
							st.Set("impossible", "")
						}
					}
				}
				if nil2 := cond; fieldIs(nil2, "Not") && ofParam(nil2, in, "Not") {
					st.Set("not", map[bool]string{true: "NOT", false: ""}[taken])
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind == eng.CKDefer || st.Has("impossible") {
					return nil
				}
				n := c.Name()
				if m, ok := strings.CutPrefix(n, "(*strings.Builder)."); ok && strings.HasPrefix(m, "Write") {
					if c.Args[0] != sb {
						r.Check(false, "structure", name+": text", c.Pos(), st, "%s writes somewhere else", name)
					}
					for _, x := range written(st, c.Args[1]) {
						if x.v == nil {
							write(st, c.Pos(), e.In.Const(constantString(x.s), types.Typ[types.String]))
						} else {
							write(st, c.Pos(), x.v)
						}
					}
					return nil
				}
				if (n == "strings.ToUpper" || n == "strings.TrimSpace") && len(c.Args) == 1 {
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Node(eng.KCall, 0, n, types.Typ[types.String], c.Args[0])}}}}
				}
				if (n == "fmt.Fprint" || n == "fmt.Fprintf" || n == "io.WriteString" || n == "fmt.Fprintln") && lib.Strip(c.Args[0]) == sb {
					for _, x := range textOf(st, fprinted(e, st, n, c.Args[1:]), nil) {
						if x.v == nil {
							write(st, c.Pos(), e.In.Const(constantString(x.s), types.Typ[types.String]))
						} else {
							write(st, c.Pos(), x.v)
						}
					}
					return nil
				}
				if k := kind[c.Fn]; k != "" {
					i, _ := astParam(c.Fn)
					a := c.Args[i]
					r.Check(c.Args[builderArg(c.Fn)] == sb, "structure", name+": text", c.Pos(), st, "%s writes a part somewhere else", name)
					if isList {
						started := st.Has("some")
						l, next := v.use(st, a)
						r.Check(l != nil && list(l) && next && strings.TrimPrefix(node, "[]") != "" && "[]"+k == childList(node), "structure", name+": parts", c.Pos(), st, "%s does not translate its parts one by one: %s", name, a)
						want := ""
						if started {
							want = join
						}
						r.Check(between(st) == want, "structure", name+": between", c.Pos(), st, "%s writes %q before a part where %q belongs", name, between(st), want)
						st.Set("some", "")
						st.Set("out", "")
						return nil
					}
					w := " ? "
					switch node {
					case "XCondition":
						if k == "Expression" && ofParam(a, in, "Expr") || k == "[]OrCondition" && inField(a, in, "Expr", "Or") {
							w = " expr "
						} else if k == "Condition" && ofParam(a, in, "Cond") {
							w = " cond "
						}
					case "Condition":
						if k == "Param" {
							if isCopyOf(st, a, in, "FirstParam") {
								w = " first "
							} else if ofParam(a, in, "SecondParam") {
								w = " second "
							}
						}
					case "Param":
						if k == "[]Param" && inField(a, in, "Function", "Params") {
							w = " params "
						}
					}
					st.Set("out", st.Get("out")+w)
					return nil
				}
				if c.Fn == nil && c.FnVal != nil && fieldIs(c.FnVal, "TranslateF") {
					ok := node == "Param"
					whole := false
					for _, x := range c.Args {
						x = lib.Strip(x)
						whole = whole || x.K == eng.KLoad && x.Args[0] == in
					}
					r.Check(ok && whole && hasVal(c.Args, sb), "structure", name+": dialect", c.Pos(), st, "%s translates another parameter", name)
					st.Set("out", st.Get("out")+" dialect ")
				}
				return nil
			},
			Exit: func(st *eng.State, rets []*eng.Val, i ssa.Instruction) {
				pos := eng.InstrPos(i)
				if st.IsNonNil(rets[len(rets)-1]) || st.Has("impossible") {
					return
				}
				out := flat(st)
				if isList {
					r.Check(between(st) == "", "structure", name+": between", pos, st, "%s writes %q behind the last part", name, out)
					l := in
					if field != "" {
						l = resultField(st, in, field)
					}
					r.Check(v.done(st, l), "structure", name+": all parts", pos, st, "%s leaves out parts", name)
					return
				}
				want := "?"
				switch node {
				case "XCondition":
					nt, known := st.TS["not"]
					if !known {
						r.Check(false, "structure", name+": NOT", pos, st, "%s does not look whether the condition is negated", name)
						return
					}
					c := "cond"
					if st.IsNonNil(resultField(st, in, "Expr")) {
						c = "expr"
						want = "( expr )"
						out = strings.Replace(child(out, c), c, want, 1)
						r.Check(strings.Contains(flat(st), "( expr )"), "structure", name+": brackets", pos, st, "%s does not put the expression in brackets: %s", name, flat(st))
					} else {
						want = c
						out = child(out, c)
					}
					if nt.S != "" {
						want = nt.S + " " + want
					}
				case "Condition":
					want = "first op second"
					if b, known := st.Eval(e.Eq(resultField(st, in, "Op"), e.In.Const(constantString(""), types.Typ[types.String]))); known && b {
						want = "first"
					}
				case "Param":
					want = "dialect"
					if st.Has("plain") {
						want = "name"
						if st.IsNonNil(resultField(st, in, "Function")) {
							want = "name ( params )"
						}
					}
				}
				r.Check(out == want, "structure", name+": "+want, pos, st, "%s writes %q where %q belongs", name, out, want)
			},
		}
	}
	j.Do(nil)
	r.Floor("structure", 12)
}

func childList(node string) string {
	switch node {
	case "Expression":
		return "[]OrCondition"
	case "OrCondition":
		return "[]XCondition"
	}
	return node
}

func constantString(s string) constant.Value { return constant.MakeString(s) }

// fprinted is the text a printing function writes.
func fprinted(e *eng.Engine, st *eng.State, n string, args []*eng.Val) *eng.Val {
	str := types.Typ[types.String]
	switch n {
	case "fmt.Fprintf":
		return e.In.Node(eng.KCall, 0, "fmt.Sprintf", str, append([]*eng.Val{args[0]}, st.VarArgs(args[1])...)...)
	case "io.WriteString":
		return args[0]
	}
	return e.In.Node(eng.KCall, 0, "fmt.Sprint", str, st.VarArgs(args[0])...)
}

// inField tells that v is node.field.sub.
func inField(v, node *eng.Val, field, sub string) bool {
	v = lib.Strip(v)
	if v.K == eng.KLoad && v.Args[0].K == eng.KField && v.Args[0].Name == sub {
		return ofParam(v.Args[0].Args[0], node, field)
	}
	return v.K == eng.KFld && v.Name == sub && ofParam(v.Args[0], node, field)
}

// isCopyOf tells that the pointer is the address of node.field or of a copy of it.
func isCopyOf(st *eng.State, ptr, node *eng.Val, field string) bool {
	if ptr.K == eng.KField && ptr.Name == field && ptr.Args[0] == node {
		return true
	}
	if ptr.K != eng.KAlloc {
		return false
	}
	return ofParam(st.Load(ptr, ptrElem(ptr.Typ)), node, field)
}

func init() {
	register("C18", func(p *lib.Prog, r *lib.Report) {
		sqlTree(p, r)
		evalTree(p, r)
		dialectRules(p, r)
		columnRules(p, r)
	}, "")
}
