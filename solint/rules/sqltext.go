package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"solint/eng"
	"solint/lib"
)

// withBuilders follows what is written into strings.Builder and bytes.Buffer:
// String() returns a value that keeps the pieces in the order they were
// written (a piece written again and again by the same statement counts once),
// which textOf takes apart.
func withBuilders(e *eng.Engine, h eng.Hooks) eng.Hooks {
	str := types.Typ[types.String]
	bld := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		k := lib.TypeKey(p.Elem())
		return k == "strings.Builder" || k == "bytes.Buffer"
	}
	write := func(st *eng.State, c *eng.Call, sb, v *eng.Val) {
		key := "sb:" + itoa(sb.ID)
		t := st.TS[key]
		site := "|" + itoa(int(c.Instr.Pos()))
		if c.Frame != nil {
			site += "@" + itoa(c.Frame.Ctx)
		}
		if strings.Contains(t.S+"|", site+"|") {
			return
		}
		vals := append([]*eng.Val{}, t.V...)
		for _, p := range textOf(st, v, sbParts(st)) {
			if p.v == nil {
				vals = append(vals, e.In.Const(constant.MakeString(p.s), str))
			} else {
				vals = append(vals, equalConst(st, p.v))
			}
		}
		st.Set(key, t.S+site, vals...)
	}
	e.Grown = true
	prev := h.Call
	h.Call = func(st *eng.State, c *eng.Call) *eng.Result {
		n := c.Name()
		one := func(v *eng.Val) *eng.Result { return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{v}}}} }
		if m, ok := strings.CutPrefix(n, "(*strings.Builder)."); ok || strings.HasPrefix(n, "(*bytes.Buffer).") {
			if !ok {
				m = strings.TrimPrefix(n, "(*bytes.Buffer).")
			}
			sb := lib.Strip(c.Args[0])
			t := st.TS["sb:"+itoa(sb.ID)]
			if c.Kind == eng.CKDefer {
				return nil
			}
			if prev != nil {
				if r := prev(st, c); r != nil {
					return r
				}
			}
			switch m {
			case "WriteString", "WriteByte", "WriteRune", "Write":
				v := c.Args[1]
				if x, ok := eng.ConstInt(v); ok && m != "WriteString" {
					v = e.In.Const(constant.MakeString(string(rune(x))), str)
				}
				write(st, c, sb, v)
				var rets []*eng.Val
				res := c.Common.Signature().Results()
				for i := 0; i < res.Len(); i++ {
					if i == res.Len()-1 {
						rets = append(rets, e.In.Nil())
					} else {
						rets = append(rets, st.Len(c.Args[1]))
					}
				}
				return &eng.Result{Outcomes: []eng.Outcome{{Rets: rets}}}
			case "String":
				v := e.In.Node(eng.KCall, 0, "sbtext", str, t.V...)
				if len(t.V) == 0 {
					return one(e.In.Const(constant.MakeString(""), str))
				}
				for _, p := range textOf(st, v, sbParts(st)) {
					if p.v == nil && p.s != "" {
						st.Assume(e.Eq(v, e.In.Const(constant.MakeString(""), str)), false)
						st.Assume(e.Less(e.In.Int(0), e.In.Node(eng.KLen, 0, "", types.Typ[types.Int], v)), true)
						break
					}
				}
				return one(v)
			case "Len":
				if len(t.V) == 0 {
					return one(e.In.Int(0))
				}
				v := e.In.Node(eng.KCall, 0, "sblen", types.Typ[types.Int], t.V...)
				if ps, _ := sbParts(st)(e.In.Node(eng.KCall, 0, "sbtext", str, t.V...)); len(ps) > 0 {
					for _, p := range ps {
						if p.v == nil && p.s != "" {
							st.Assume(e.Less(e.In.Int(0), v), true)
							break
						}
					}
				}
				return one(v)
			case "Reset":
				st.Del("sb:" + itoa(sb.ID))
			}
			return nil
		}
		if prev != nil {
			if r := prev(st, c); r != nil {
				return r
			}
		}
		if c.Kind == eng.CKDefer {
			return nil
		}
		if (n == "fmt.Fprintf" || n == "fmt.Fprint" || n == "io.WriteString") && len(c.Args) > 1 {
			if sb := lib.Strip(c.Args[0]); sb.Typ != nil && bld(sb.Typ) {
				v := c.Args[1]
				if n == "fmt.Fprintf" {
					v = e.In.Node(eng.KCall, 0, "fmt.Sprintf", str, append([]*eng.Val{c.Args[1]}, st.VarArgs(c.Args[2])...)...)
				} else if n == "fmt.Fprint" {
					v = e.In.Node(eng.KCall, 0, "fmt.Sprint", str, st.VarArgs(c.Args[1])...)
				}
				write(st, c, sb, v)
			}
			return nil
		}
		// a function that writes into it: what it writes is one piece
		if c.Fn == nil || !inlinable(c) || e.NoInline != nil && e.NoInline(c.Fn) {
			for _, a := range c.Args {
				if sb := lib.Strip(a); sb.Typ != nil && bld(sb.Typ) {
					write(st, c, sb, e.In.Node(eng.KCall, 0, "fragment:"+n, str, c.Args...))
				}
			}
		}
		return nil
	}
	return h
}

// equalConst: the value itself, or the constant it is known to equal.
func equalConst(st *eng.State, v *eng.Val) *eng.Val {
	res := v
	st.EachFact(func(f *eng.Val, b bool) {
		if b && f.K == eng.KBin && f.Op == token.EQL {
			for i := range f.Args {
				if _, isC := eng.ConstString(f.Args[1-i]); isC && f.Args[i] == v {
					res = f.Args[1-i]
				}
			}
		}
	})
	return res
}

func inlinable(c *eng.Call) bool { return c.Fn != nil && len(c.Fn.Blocks) > 0 && eng.InModule(c.Fn) }

// sbParts expands the builders' texts for textOf.
func sbParts(st *eng.State) func(v *eng.Val) ([]part, bool) {
	var known func(v *eng.Val) ([]part, bool)
	known = func(v *eng.Val) ([]part, bool) {
		if v.K != eng.KCall || v.Name != "sbtext" {
			return nil, false
		}
		var res []part
		for _, a := range v.Args {
			res = append(res, textOf(st, a, known)...)
		}
		return res, true
	}
	return known
}

// tok is a token of a SQL text: a word (lower case), a quoted string ('), a
// parameter ($, with its number or the value that gives it), a piece written
// elsewhere (hole) or punctuation.
type tok struct {
	kind byte // w word, s string, $ parameter, h hole, p punctuation
	s    string
	v    *eng.Val
	verb byte
}

func sqlTokens(parts []part) (res []tok, quoted []*eng.Val, open bool) {
	var str *strings.Builder
	dollar := false
	flush := func() {
		if dollar {
			dollar = false
			res = append(res, tok{kind: 'p', s: "$"})
		}
	}
	for _, p := range parts {
		if p.v != nil {
			switch {
			case str != nil:
				quoted = append(quoted, p.v)
			case dollar:
				res = append(res, tok{kind: '$', v: lib.Strip(p.v)})
				dollar = false
			default:
				res = append(res, tok{kind: 'h', v: lib.Strip(p.v), verb: p.verb})
			}
			continue
		}
		for i := 0; i < len(p.s); {
			c := p.s[i]
			if str != nil {
				if c == '\'' {
					if i+1 < len(p.s) && p.s[i+1] == '\'' {
						str.WriteString("'")
						i += 2
						continue
					}
					res = append(res, tok{kind: 's', s: str.String()})
					str = nil
				} else {
					str.WriteByte(c)
				}
				i++
				continue
			}
			word := func() string {
				k := i
				for k < len(p.s) && (p.s[k] == '_' || p.s[k] == '.' || p.s[k] >= 'a' && p.s[k] <= 'z' || p.s[k] >= 'A' && p.s[k] <= 'Z' || p.s[k] >= '0' && p.s[k] <= '9') {
					k++
				}
				w := p.s[i:k]
				i = k
				return strings.ToLower(w)
			}
			if dollar && c >= '0' && c <= '9' {
				res = append(res, tok{kind: '$', s: word()})
				dollar = false
				continue
			}
			flush()
			switch {
			case c == '\'':
				str = &strings.Builder{}
				i++
			case c == '"':
				i++
			case c == '$':
				dollar = true
				i++
			case c == ' ' || c == '\n' || c == '\t':
				i++
			case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9':
				res = append(res, tok{kind: 'w', s: word()})
			default:
				if i+1 < len(p.s) && strings.Contains("<= >= != <> || ->", p.s[i:i+2]) && p.s[i+1] != ' ' && c != ' ' {
					res = append(res, tok{kind: 'p', s: p.s[i : i+2]})
					i += 2
					continue
				}
				res = append(res, tok{kind: 'p', s: string(c)})
				i++
			}
		}
	}
	flush()
	return res, quoted, str != nil
}

func (t tok) is(w string) bool { return (t.kind == 'w' || t.kind == 'p') && t.s == w }

// clause returns the tokens between the top-level keyword and the next one of
// the stops; found tells whether the keyword is there.
func clause(ts []tok, from string, stops ...string) (res []tok, found bool) {
	d := 0
	for _, t := range ts {
		switch {
		case t.is("("):
			d++
		case t.is(")"):
			d--
		}
		if d == 0 && !found && t.is(from) {
			found = true
			continue
		}
		if found {
			if d == 0 {
				for _, s := range stops {
					if t.is(s) {
						return res, true
					}
				}
			}
			res = append(res, t)
		}
	}
	return res, found
}

// conjuncts splits a condition at its top-level ANDs, through the parentheses
// around it; a condition with a top-level OR (or a piece that may have one) is
// one conjunct, and loose tells that such a piece stands without parentheses
// next to something else.
func conjuncts(ts []tok) (res [][]tok, loose bool) {
	for len(ts) > 1 && ts[0].is("(") && closes(ts) == len(ts)-1 {
		ts = ts[1 : len(ts)-1]
	}
	d, from, or, hole := 0, 0, false, false
	var parts [][]tok
	for i, t := range ts {
		switch {
		case t.is("("):
			d++
		case t.is(")"):
			d--
		case d == 0 && t.is("or"):
			or = true
		case d == 0 && t.kind == 'h':
			hole = true
		case d == 0 && t.is("and"):
			parts = append(parts, ts[from:i])
			from = i + 1
		}
	}
	parts = append(parts, ts[from:])
	if or {
		return [][]tok{ts}, hole && len(ts) > 1
	}
	if hole && len(ts) > 1 {
		loose = true
	}
	if len(parts) == 1 {
		return parts, loose
	}
	for _, p := range parts {
		q, l := conjuncts(p)
		res = append(res, q...)
		loose = loose || l
	}
	return res, loose
}

func closes(ts []tok) int {
	d := 0
	for i, t := range ts {
		if t.is("(") {
			d++
		}
		if t.is(")") {
			d--
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

// sqlCall finds the text and the arguments of a call that runs a statement.
func sqlCall(st *eng.State, c *eng.Call) (q *eng.Val, args []*eng.Val, ok bool) {
	n := c.Name()
	if !strings.Contains(n, "sqlx.") && !strings.Contains(n, "database/sql.") {
		return nil, nil, false
	}
	sig := c.Common.Signature()
	off := 0
	if sig.Recv() != nil && !c.Common.IsInvoke() {
		off = 1
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if sig.Params().At(i).Name() == "query" && isStr(sig.Params().At(i).Type()) && len(c.Args) > i {
			k := i + off
			if k >= len(c.Args) {
				return nil, nil, false
			}
			q = c.Args[k]
			if k+1 < len(c.Args) {
				args = c.Args[k+1:]
			}
			return q, args, true
		}
	}
	return nil, nil, false
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// argOf finds the argument of a parameter; nil if that is not decided.
func argOf(st *eng.State, t tok, args []*eng.Val) *eng.Val {
	if len(args) != 1 {
		return nil
	}
	all := lib.Strip(args[0])
	if t.v == nil {
		n := 0
		for _, c := range t.s {
			n = n*10 + int(c-'0')
		}
		for i := 0; i < 20; i++ {
			if all.K == eng.KCall && all.Name == "append" {
				if len(st.VarArgs(lib.Strip(all))) > 0 {
					break
				}
				if x := lib.Strip(all.Args[0]); len(st.VarArgs(x)) == 0 && (x.K == eng.KSlice || x.K == eng.KNil) {
					// the first ones are those appended
					all = all.Args[1]
					break
				}
				all = lib.Strip(all.Args[0])
			} else if t, ok := st.TS["grown:"+itoa(all.ID)]; ok {
				all = lib.Strip(t.V[0])
			}
		}
		vs := st.VarArgs(all)
		if n < 1 || n > len(vs) {
			return nil
		}
		return lib.Strip(vs[n-1])
	}
	// len(A)-k: the element k from the end of A
	back, v := int64(0), t.v
	for v.K == eng.KBin && len(v.Args) == 2 {
		n, ok := eng.ConstInt(v.Args[1])
		if !ok {
			return nil
		}
		switch v.Op.String() {
		case "-":
			back += n
		case "+":
			back -= n
		default:
			return nil
		}
		v = v.Args[0]
	}
	if v.K != eng.KLen || back < 0 {
		return nil
	}
	a := lib.Strip(v.Args[0])
	// A is a part of the arguments
	found := false
	for x := all; ; x = lib.Strip(x.Args[0]) {
		if x == a {
			found = true
			break
		}
		if x.K != eng.KCall || x.Name != "append" {
			break
		}
	}
	if !found {
		return nil
	}
	for a.K == eng.KCall && a.Name == "append" && len(a.Args) == 2 {
		vs := st.VarArgs(a.Args[1])
		if len(vs) == 0 {
			return nil
		}
		if back < int64(len(vs)) {
			return lib.Strip(vs[int64(len(vs))-1-back])
		}
		back -= int64(len(vs))
		a = lib.Strip(a.Args[0])
	}
	return nil
}
