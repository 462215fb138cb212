package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

const pgPkg = "pkg/storage/postgres"

// sqlStmt is a statement run on some path.
type sqlStmt struct {
	st     *eng.State
	c      *eng.Call
	toks   []tok
	quoted []*eng.Val
	open   bool
	args   []*eng.Val
	kind   string // select, insert, update, delete
	table  string
	where  [][]tok
	loose  bool
}

func (q *sqlStmt) text() string {
	var sb strings.Builder
	for _, t := range q.toks {
		if sb.Len() > 0 {
			sb.WriteString(" ")
		}
		switch t.kind {
		case 'h':
			sb.WriteString("{...}")
		case '$':
			sb.WriteString("$" + t.s)
		case 's':
			sb.WriteString("'" + t.s + "'")
		default:
			sb.WriteString(t.s)
		}
	}
	return sb.String()
}

// pgWalk walks the operations of the SQL storage and hands every statement
// they run to f.
func pgWalk(p *lib.Prog, r *lib.Report, f func(e *eng.Engine, root *ssa.Function, q *sqlStmt), more func(e *eng.Engine, root *ssa.Function, h eng.Hooks) eng.Hooks) {
	var roots []*ssa.Function
	for _, i := range [][2]string{{"pkg/storage", "Logs"}, {lfs, "LogsMetaStorage"}} {
		it := ifaceOf(p, i[0], i[1])
		if it == nil {
			r.Bad("anchor", i[1], token.NoPos, nil, "the interface is not there")
			return
		}
		roots = append(roots, implementers(p, []string{pgPkg}, it)...)
	}
	if len(roots) < 8 {
		r.Bad("anchor", pgPkg, token.NoPos, nil, "only %d operations of the SQL storage are found", len(roots))
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != lib.PkgOf(root) }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		h := eng.Hooks{}
		if more != nil {
			h = more(e, root, h)
		}
		prev := h.Call
		h.Call = func(st *eng.State, c *eng.Call) *eng.Result {
			if q, args, ok := sqlCall(st, c); ok {
				s := &sqlStmt{st: st, c: c, args: args}
				s.toks, s.quoted, s.open = sqlTokens(textOf(st, q, sbParts(st)))
				s.split()
				f(e, root, s)
			}
			if prev != nil {
				return prev(st, c)
			}
			return nil
		}
		return withBuilders(e, h)
	}
	j.Do(nil)
}

func (q *sqlStmt) split() {
	if len(q.toks) == 0 {
		return
	}
	q.kind = q.toks[0].s
	key := map[string]string{"select": "from", "delete": "from", "insert": "into", "update": "update"}[q.kind]
	d := 0
	for i, t := range q.toks {
		if t.is("(") {
			d++
		} else if t.is(")") {
			d--
		}
		if d == 0 && key != "" && t.is(key) && i+1 < len(q.toks) {
			q.table = q.toks[i+1].s
			break
		}
	}
	if w, ok := clause(q.toks, "where", "order", "limit", "offset", "returning", "group", "having", "for"); ok {
		q.where, q.loose = conjuncts(w)
	}
}

// alive tells whether a condition demands deleted = false; asked is the
// parameter it is compared with otherwise.
func (q *sqlStmt) alive(conj [][]tok) (ok bool, asked *eng.Val) {
	for _, c := range conj {
		// the column may be qualified
		col := func(t tok) bool { return t.kind == 'w' && (t.s == "deleted" || strings.HasSuffix(t.s, ".deleted")) }
		switch {
		case len(c) == 2 && c[0].is("not") && col(c[1]):
			return true, nil
		case len(c) == 3 && (c[1].is("=") || c[1].is("is")) && col(c[0]) && c[2].is("false"), len(c) == 3 && c[1].is("=") && col(c[2]) && c[0].is("false"):
			return true, nil
		case len(c) == 4 && c[1].is("is") && c[2].is("not") && col(c[0]) && c[3].is("true"):
			return true, nil
		case len(c) == 3 && (c[1].is("!=") || c[1].is("<>")) && col(c[0]) && c[2].is("true"):
			return true, nil
		case len(c) == 3 && c[1].is("=") && col(c[0]) && c[2].kind == '$':
			v := argOf(q.st, c[2], q.args)
			if v == nil {
				continue
			}
			if b, known := q.st.Eval(v); known && !b || v.K == eng.KConst && v.Const.Kind() == constant.Bool && !constant.BoolVal(v.Const) {
				return true, nil
			}
			return false, v
		case len(c) > 3 && c[0].is("exists") && c[1].is("("), len(c) > 4 && c[1].is("in") && c[2].is("("):
			sub := c[2 : len(c)-1]
			if c[1].is("in") {
				sub = c[3 : len(c)-1]
			}
			if w, found := clause(sub, "where", "order", "limit"); found {
				cs, _ := conjuncts(w)
				if ok, _ := q.alive(cs); ok {
					return true, nil
				}
			}
		}
	}
	return false, nil
}

// has tells whether the condition has the comparison of the column with a
// parameter by the operator.
func (q *sqlStmt) has(col, op string) (tok, bool) {
	for _, c := range q.where {
		if len(c) == 3 && (c[0].is(col) || c[0].kind == 'w' && strings.HasSuffix(c[0].s, "."+col)) && c[1].is(op) && c[2].kind == '$' {
			return c[2], true
		}
	}
	return tok{}, false
}

func mentions(ts []tok, w string) bool {
	for _, t := range ts {
		if t.is(w) {
			return true
		}
	}
	return false
}

// pgDeleted: what the SQL storage does with deleted logs.
func pgDeleted(p *lib.Prog, r *lib.Report) {
	pgWalk(p, r, func(e *eng.Engine, root *ssa.Function, q *sqlStmt) {
		name := lib.Name(root)
		what := q.kind + " " + q.table
		st := q.st
		pos := q.c.Pos()
		if q.kind == "insert" {
			if q.table == "log" && root.Name() == "CreateLog" {
				r.Check(madeBy(q.inserted("id"), "golibs/ulidutils.NewID"), "new-id", name, pos, st, "%s stores a new log under an ID that may be taken", name)
			}
			return
		}
		if q.kind != "select" && q.kind != "update" && q.kind != "delete" || q.table != "log" && q.table != "chunk" {
			r.Check(false, "statement", name, pos, st, "%s runs a statement this check does not understand: %s", name, q.text())
			return
		}
		if q.loose {
			r.Check(false, "condition-in-brackets", name+": "+what, pos, st, "%s: the user's condition stands next to others without brackets, an OR in it takes them off: %s", name, q.text())
		} else if strings.Contains(q.text(), "{...}") {
			r.Ok("condition-in-brackets", name+": "+what, pos)
		}
		switch q.kind {
		case "select", "update":
			ok, asked := q.alive(q.where)
			if !ok && asked != nil {
				ok = fieldIs(asked, "Deleted")
			}
			r.Check(ok, map[string]string{"log": "visible", "chunk": "chunks-of-deleted"}[q.table], name+": "+what, pos, st, "%s may touch deleted logs: %s", name, q.text())
			if q.kind == "update" {
				set, _ := clause(q.toks, "set", "where", "returning")
				for i, t := range set {
					if t.is("deleted") && i+2 < len(set) && set[i+1].is("=") {
						v := set[i+2].is("true")
						if set[i+2].kind == '$' {
							if a := argOf(st, set[i+2], q.args); a != nil {
								b, known := st.Eval(a)
								v = known && b
							}
						}
						r.Check(v, "stays-deleted", name, pos, st, "%s may bring a deleted log back: %s", name, q.text())
					}
				}
			}
		case "delete":
			some := false
			for _, c := range q.where {
				for _, t := range c {
					some = some || t.kind == 'h' || t.kind == '$'
				}
			}
			r.Check(some, "some-logs-only", name, pos, st, "%s deletes everything: %s", name, q.text())
			r.Check(st.Has("physically"), "mark-only", name, pos, st, "%s removes data though the request may ask to mark the log only", name)
		}
		if q.kind == "delete" || q.kind == "update" && mentions(q.toks, "deleted") && func() bool { s, _ := clause(q.toks, "set", "where"); return mentions(s, "deleted") }() {
			ret, ok := clause(q.toks, "returning")
			r.Check(ok && (mentions(ret, "id") || mentions(ret, "*")), "reported", name, pos, st, "%s does not learn what is deleted: %s", name, q.text())
		}
	}, func(e *eng.Engine, root *ssa.Function, h eng.Hooks) eng.Hooks {
		h.Branch = func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
			c := cond
			for c.K == eng.KUn && c.Op == token.NOT {
				c, taken = c.Args[0], !taken
			}
			if fieldIs(c, "MarkOnly") && !taken {
				st.Set("physically", "")
			}
		}
		return h
	})
	r.Floor("visible", 3)
	r.Floor("chunks-of-deleted", 2)
	// the chunks go with their log
	schema := false
	for _, s := range constStrings(p, pgPkg) {
		if !strings.Contains(strings.ToLower(s), "create table") {
			continue
		}
		ts, _, _ := sqlTokens([]part{{s: s}})
		for i, t := range ts {
			if t.is("references") && i+7 < len(ts) && ts[i+1].is("log") {
				k := i + 2
				for k < len(ts) && !ts[k].is("on") && !ts[k].is(",") {
					k++
				}
				schema = schema || k+2 < len(ts) && ts[k].is("on") && ts[k+1].is("delete") && ts[k+2].is("cascade")
			}
		}
	}
	r.Check(schema, "chunks-go-too", pgPkg+": schema", token.NoPos, nil, "the chunks of a removed log are left behind: no cascade in the schema")
}

// inserted finds the value of a column of an insert.
func (q *sqlStmt) inserted(col string) *eng.Val {
	cols, _ := clause(q.toks, q.table, "values", "select")
	vals, _ := clause(q.toks, "values", "on", "returning")
	k := -1
	n := 0
	for _, t := range cols {
		if t.kind == 'w' {
			if t.is(col) {
				k = n
			}
			n++
		}
	}
	n = 0
	for _, t := range vals {
		if t.is(",") {
			n++
		}
		if n == k && t.kind == '$' {
			if v := argOf(q.st, t, q.args); v != nil {
				return v
			}
		}
	}
	return q.st.E.In.Nil()
}

// constStrings lists the string constants used in a package.
func constStrings(p *lib.Prog, pkg string) (res []string) {
	seen := map[string]bool{}
	for _, f := range p.InPkg(pkg) {
		eachInstr(f, func(in ssa.Instruction) {
			var ops []*ssa.Value
			for _, o := range in.Operands(ops) {
				if c, ok := (*o).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
					if s := constant.StringVal(c.Value); !seen[s] {
						seen[s] = true
						res = append(res, s)
					}
				}
			}
		})
	}
	return
}

// sqlPieces: nothing of a request becomes a part of a statement's text.
func sqlPieces(p *lib.Prog, r *lib.Report) {
	pgWalk(p, r, func(e *eng.Engine, root *ssa.Function, q *sqlStmt) {
		name := lib.Name(root)
		r.Ok("text-is-constant", name+": "+q.kind, q.c.Pos())
		r.Check(!q.open && len(q.quoted) == 0, "constants-apart", name+": "+q.kind, q.c.Pos(), q.st, "%s composes a SQL string constant by hand: %s", name, q.text())
		for _, t := range q.toks {
			switch {
			case t.kind == '$' && t.v != nil:
				r.Check(intTyped(t.v), "constants-apart", name+": "+q.kind, q.c.Pos(), q.st, "%s: the number of a parameter is not a number: %s", name, q.text())
			case t.kind == 'h':
				r.Check(intTyped(t.v) || t.v.K == eng.KCall && strings.HasPrefix(t.v.Name, "fragment:pkg/ql.") || t.v.K == eng.KCall && strings.HasPrefix(t.v.Name, "fragment:(pkg/ql."),
					"text-is-constant", name+": "+q.kind, q.c.Pos(), q.st, "%s: a value becomes a part of the statement's text: %s", name, q.text())
			}
		}
	}, nil)
	r.Floor("text-is-constant", 8)
}

func intTyped(v *eng.Val) bool {
	if v.K == eng.KLen {
		return true
	}
	if v.Typ == nil {
		return false
	}
	b, ok := v.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

const qlp = "pkg/ql"

// qlTexts: what the conditions' translator writes is made of constants, the
// names it knows and properly quoted values, and is complete.
func qlTexts(p *lib.Prog, r *lib.Report) {
	sbParam := func(f *ssa.Function) int {
		for i, a := range f.Params {
			if q, ok := a.Type().Underlying().(*types.Pointer); ok && lib.TypeKey(q.Elem()) == "strings.Builder" {
				return i
			}
		}
		return -1
	}
	var roots []*ssa.Function
	helper := func(f *ssa.Function) bool { // looked at where it is called
		if f.Parent() != nil || token.IsExported(f.Name()) {
			return false
		}
		for _, a := range f.Params {
			t := a.Type()
			if s, ok := t.Underlying().(*types.Slice); ok {
				t = s.Elem()
			}
			if strings.HasPrefix(lib.TypeKey(t), qlp+".Param") || astKind(t) != "" {
				return false
			}
		}
		return true
	}
	for _, f := range p.InPkg(qlp) {
		if helper(f) {
			continue
		}
		if sbParam(f) >= 0 && len(f.Blocks) > 0 && f.Synthetic == "" || sbParam(f) >= 0 && len(f.TypeArgs()) > 0 {
			roots = append(roots, f)
		}
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool {
		return lib.PkgOf(g) != qlp || sbParam(g) >= 0 && !helper(g) || strings.HasSuffix(lib.Name(g), "Param).Name") || strings.HasSuffix(lib.Name(g), "Param).ID") || g.Name() == "Parse"
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		sb := e.In.Param(root, sbParam(root))
		h := eng.Hooks{}
		h.Branch = func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
			c := cond
			for c.K == eng.KUn && c.Op == token.NOT {
				c, taken = c.Args[0], !taken
			}
			if c.K == eng.KBin && c.Op == token.EQL && taken && (fieldIs(c.Args[0], "TranslateF") || fieldIs(c.Args[1], "TranslateF")) {
				st.Set("plain", "")
			}
		}
		h.Exit = func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
			if len(rets) > 0 {
				if er := rets[len(rets)-1]; st.IsNonNil(er) {
					return
				}
			}
			pos := eng.InstrPos(in)
			t := st.TS["sb:"+itoa(sb.ID)]
			parts := textOf(st, e.In.Node(eng.KCall, 0, "sbtext", types.Typ[types.String], t.V...), sbParts(st))
			toks, quoted, open := sqlTokens(parts)
			q := &sqlStmt{toks: toks}
			r.Check(!open, "closed-quotes", name, pos, st, "%s leaves a quote open: %s", name, q.text())
			for _, v := range quoted {
				v = lib.Strip(v)
				ok := v.K == eng.KCall && v.Name == "strings.ReplaceAll" && len(v.Args) == 3
				if ok {
					a, ok1 := eng.ConstString(v.Args[1])
					b, ok2 := eng.ConstString(v.Args[2])
					ok = ok1 && ok2 && a == "'" && b == "''"
				}
				r.Check(ok, "escaped", name, pos, st, "%s writes a value between quotes without escaping the quotes in it", name)
			}
			d, low := 0, 0
			for _, t := range toks {
				switch {
				case t.is("("):
					d++
				case t.is(")"):
					d--
					low = min(low, d)
				case t.kind == '$':
					r.Check(false, "known-words", name, pos, st, "%s writes a parameter of the statement: %s", name, q.text())
				case t.kind == 'h':
					v := t.v
					ok := v.K == eng.KCall && strings.HasPrefix(v.Name, "fragment:") && (strings.Contains(v.Name, qlp+".") || !strings.Contains(v.Name, "/")) ||
						fieldIs(v, "Identifier") || fieldIs(v, "Name") ||
						nameCall(v) && st.Has("plain")
					r.Check(ok, "known-words", name, pos, st, "%s writes a value of the condition as it is: %s", name, q.text())
				}
			}
			r.Check(d == 0 && low == 0, "closed-brackets", name, pos, st, "%s leaves a bracket unpaired: %s", name, q.text())
		}
		return withBuilders(e, h)
	}
	j.Do(nil)
	r.Floor("closed-brackets", 5)
	r.Floor("escaped", 1)
	// constants never go as they are
	consts := []string{qlConst(p, "StringParamID"), qlConst(p, "ArrayParamID")}
	des := dialectEntries(p, qlp)
	for _, d := range des {
		tr := false
		for _, x := range des {
			tr = tr || x.dialect == d.dialect && x.fns["TranslateF"] != nil
		}
		for _, c := range consts {
			if tr && d.key == c {
				r.Check(d.fns["TranslateF"] != nil, "quoted-constants", d.dialect+": "+c, token.NoPos, nil, "the dialect %s has no translation for %s: the text of a constant becomes a part of the statement", d.dialect, c)
			}
		}
	}
	r.Floor("quoted-constants", 2)
	// a name is a word
	word := false
	for _, re := range lexerRules(p, qlp) {
		if re[0] == "Ident" {
			word = onlyWords(re[1])
			r.Check(word, "names-are-words", qlp+": Ident", token.NoPos, nil, "an identifier of a condition may have characters that mean something in SQL: %s", re[1])
		}
	}
	r.Check(word, "names-are-words", qlp+": lexer", token.NoPos, nil, "the rule of the identifiers is not found")
}

func nameCall(v *eng.Val) bool {
	c, ok := v.Ref.(*ssa.Call)
	return v.K == eng.KSym && ok && strings.HasSuffix(lib.CallName(c), "Param).Name")
}

// lexerRules reads the rules given to the lexer by the package's initializer.
func lexerRules(p *lib.Prog, pkg string) (res [][2]string) {
	sp := p.SSAPkg(pkg)
	if sp == nil || sp.Func("init") == nil {
		return
	}
	fields := map[ssa.Value]*[2]string{}
	eachInstr(sp.Func("init"), func(in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || !strings.HasSuffix(lib.TypeKey(fa.X.Type().Underlying().(*types.Pointer).Elem()), "lexer.SimpleRule") {
			return
		}
		c, ok := s.Val.(*ssa.Const)
		if !ok || c.Value == nil {
			return
		}
		if fields[fa.X] == nil {
			fields[fa.X] = &[2]string{}
		}
		if fa.Field < 2 {
			fields[fa.X][fa.Field] = constant.StringVal(c.Value)
		}
	})
	for _, f := range fields {
		res = append(res, *f)
	}
	return
}

// onlyWords: whatever the expression matches consists of letters, digits and
// underscores.
func onlyWords(re string) bool {
	t, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return false
	}
	var ok func(t *syntax.Regexp) bool
	ok = func(t *syntax.Regexp) bool {
		in := func(lo, hi rune) bool {
			for _, r := range [][2]rune{{'a', 'z'}, {'A', 'Z'}, {'0', '9'}, {'_', '_'}} {
				if lo >= r[0] && hi <= r[1] {
					return true
				}
			}
			return false
		}
		switch t.Op {
		case syntax.OpLiteral:
			for _, c := range t.Rune {
				if !in(c, c) {
					return false
				}
			}
			return t.Flags&syntax.FoldCase == 0
		case syntax.OpCharClass:
			for i := 0; i+1 < len(t.Rune); i += 2 {
				if !in(t.Rune[i], t.Rune[i+1]) {
					return false
				}
			}
			return true
		case syntax.OpConcat, syntax.OpAlternate, syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat, syntax.OpCapture:
			for _, s := range t.Sub {
				if !ok(s) {
					return false
				}
			}
			return true
		case syntax.OpEmptyMatch, syntax.OpBeginText, syntax.OpEndText, syntax.OpWordBoundary:
			return true
		}
		return false
	}
	return ok(t)
}

func init() {
	register("C15", func(p *lib.Prog, r *lib.Report) {
		sqlPieces(p, r)
		qlTexts(p, r)
	}, "")
}
