package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// What the records of the SQL storage become.
var metaElems = map[string][][2]string{
	lfs + ".ChunkInfo":       {{"ID", "ID"}, {"Min", "parse Min"}, {"Max", "parse Max"}, {"RecordsCount", "RecordsCount"}},
	"api/gen/solaris/v1.Log": {{"ID", "ID"}, {"Tags", "Tags"}, {"CreatedAt", "new CreatedAt"}, {"UpdatedAt", "new UpdatedAt"}},
}

// node models a call that makes a value of another one.
func madeNode(e *eng.Engine, c *eng.Call, name string, arg *eng.Val) *eng.Result {
	res := c.Common.Signature().Results()
	n := e.In.Node(eng.KCall, 0, name, res.At(0).Type(), arg)
	if res.Len() == 1 {
		return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{n}}}}
	}
	er := e.In.NamedSym("failed "+name, res.At(1).Type())
	return &eng.Result{Outcomes: []eng.Outcome{
		{Rets: []*eng.Val{n, e.In.Nil()}},
		{Rets: []*eng.Val{e.In.Zero(res.At(0).Type()), er}, Do: func(s *eng.State) { s.Assume(e.Eq(er, e.In.Nil()), false) }},
	}}
}

// jsonOf: x is the JSON of something.
func jsonOf(x *eng.Val) *eng.Val {
	x = lib.Strip(x)
	for (x.K == eng.KConv || x.K == eng.KCall && strings.HasSuffix(x.Name, "ByteArrayToString")) && len(x.Args) == 1 {
		x = lib.Strip(x.Args[0])
	}
	if x.K == eng.KCall && x.Name == "json.Marshal" {
		return lib.Strip(x.Args[0])
	}
	return nil
}

// assigned finds the value of a column of an update.
func (q *sqlStmt) assigned(col string) *eng.Val {
	set, _ := clause(q.toks, "set", "where", "returning")
	for i, t := range set {
		if t.is(col) && i+2 < len(set) && set[i+1].is("=") && set[i+2].kind == '$' {
			return argOf(q.st, set[i+2], q.args)
		}
	}
	return nil
}

// pgKept: what the SQL storage keeps and gives back.
func pgKept(p *lib.Prog, r *lib.Report) {
	v := visits{strict: true}
	now := func(x *eng.Val) bool {
		x = lib.Strip(x)
		return madeBy(x, "time.Now") || x.K == eng.KCall && strings.Contains(x.String(), "time.Now")
	}
	tagsOf := func(st *eng.State, x, log *eng.Val) bool {
		if x == nil {
			return false
		}
		if s, ok := eng.ConstString(lib.Strip(x)); ok && s == "{}" {
			b, known := st.Eval(st.E.Eq(st.Len(resultField(st, log, "Tags")), st.E.In.Int(0)))
			return known && b
		}
		j := jsonOf(x)
		return j != nil && ofParam(j, log, "Tags")
	}
	pgWalk(p, r, func(e *eng.Engine, root *ssa.Function, q *sqlStmt) {
		name, st, pos := lib.Name(root), q.st, q.c.Pos()
		switch root.Name() {
		case "CreateLog":
			if q.kind != "insert" || q.table != "log" {
				return
			}
			log := e.In.Param(root, 2)
			tags := q.inserted("tags")
			r.Check(tagsOf(st, tags, log), "stored", name+": tags", pos, st, "%s does not store the tags of the request: %s", name, tags)
			for _, col := range []string{"created_at", "updated_at"} {
				t := q.inserted(col)
				r.Check(now(t), "stored", name+": "+col, pos, st, "%s does not store the time as %s: %s", name, col, t)
			}
			st.Set("inserted", "", q.inserted("id"), tags, q.inserted("created_at"), q.inserted("updated_at"))
		case "UpdateLog":
			if q.kind != "update" || q.table != "log" {
				return
			}
			log := e.In.Param(root, 2)
			tags := q.assigned("tags")
			r.Check(tagsOf(st, tags, log), "stored", name+": tags", pos, st, "%s does not store the tags of the request: %v", name, tags)
			t := q.assigned("updated_at")
			r.Check(t != nil && now(t), "stored", name+": updated_at", pos, st, "%s does not store the time of the update: %v", name, t)
			set, _ := clause(q.toks, "set", "where", "returning")
			r.Check(!mentions(set, "created_at") && !mentions(set, "id"), "stored", name+": the rest", pos, st, "%s changes what an update must keep: %s", name, q.text())
			id := false
			if t, ok := q.has("id", "="); ok {
				a := argOf(st, t, q.args)
				id = a != nil && ofParam(a, log, "ID")
			}
			r.Check(id, "stored", name+": which", pos, st, "%s does not update the log of the request: %s", name, q.text())
		case "UpsertChunkInfos":
			if q.kind != "insert" || q.table != "chunk" {
				return
			}
			var cols []string
			ts, _ := clause(q.toks, q.table, "values", "select")
			for _, t := range ts {
				if t.kind == 'w' {
					cols = append(cols, t.s)
				}
			}
			row := endRow(st)
			list := e.In.Param(root, 3)
			if row == "" && st.Get("first") == "" {
				return // nothing to do, or another way than the one this check knows
			}
			if row == "" {
				row = st.Get("first")
			}
			r.Check(row == strings.Join(cols, ","), "stored", name+": columns", pos, st, "%s: the values of a chunk are (%s), the columns are (%s)", name, row, strings.Join(cols, ","))
			r.Check(st.Get("rows") != "!" && v.done(st, list), "stored", name+": every chunk", pos, st, "%s does not store all chunks", name)
			vals, _ := clause(q.toks, "values", "on", "returning")
			var ps []*eng.Val
			for _, t := range vals {
				if t.kind == '$' {
					if t.v == nil {
						t.v = e.In.Int(int64(numOf(t.s)))
					}
					ps = append(ps, t.v)
				}
			}
			r.Check(inPlaces(v, ps, len(cols)), "stored", name+": places", pos, st, "%s: the columns (%s) do not get the parameters in order: %v", name, strings.Join(cols, ","), ps)
			upd, ok := clause(q.toks, "set", "where", "returning")
			set := map[string]bool{}
			if ok {
				for c, x := range assignments(upd) {
					set[c] = x == "excluded."+c || x == "excluded . "+c
				}
			}
			for _, c := range []string{"min", "max", "records"} {
				r.Check(set[c], "stored", name+": "+c+" of a known chunk", pos, st, "%s does not replace the %s of a chunk that is there: %s", name, c, q.text())
			}
		}
	}, func(e *eng.Engine, root *ssa.Function, h eng.Hooks) eng.Hooks {
		name := lib.Name(root)
		cv := newConverter(r, e, name, v, metaElems)
		rowAppends := map[ssa.Value]bool{}
		h.Store = cv.store
		h.Branch = func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
			v.branch(st, cond, taken)
			if cond.K == eng.KBin && cond.Op == token.LSS && v.counter(lib.Linear(cond.Args[0])) {
				endRow(st)
			}
		}
		lost := func(st *eng.State, pos token.Pos) {
			r.Check(!st.Has("scanned"), "rows", name, pos, st, "%s reads a row and leaves it out", name)
		}
		h.Call = func(st *eng.State, c *eng.Call) *eng.Result {
			if c.Kind == eng.CKDefer {
				return nil
			}
			n := c.Name()
			if root.Name() == "UpsertChunkInfos" {
				for _, a := range c.Args {
					if !isText(a) || a.K == eng.KConst {
						continue
					}
					var ps []*eng.Val
					dollar := false
					for _, t := range textOf(st, a, nil) {
						if t.v != nil {
							if dollar {
								ps = append(ps, t.v)
							}
							dollar = false
							continue
						}
						for i, x := range strings.Split(t.s, "$") {
							if n := len(x) - len(strings.TrimLeft(x, "0123456789")); i > 0 && n > 0 {
								ps = append(ps, e.In.Int(int64(numOf(x[:n]))))
							}
						}
						dollar = strings.HasSuffix(t.s, "$")
					}
					if len(ps) > 1 {
						r.Check(inPlaces(v, ps, len(ps)), "stored", name+": places of a chunk", c.Pos(), st, "%s: the values of a chunk do not get the parameters in order: %v", name, ps)
					}
				}
			}
			switch {
			case n == "encoding/json.Marshal":
				x := lib.Strip(c.Args[0])
				if m, ok := x.Typ.Underlying().(*types.Map); ok && isStr(m.Key()) && isStr(m.Elem()) { // cannot fail
					n := e.In.Node(eng.KCall, 0, "json.Marshal", c.Common.Signature().Results().At(0).Type(), x)
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{n, e.In.Nil()}}}}
				}
				return madeNode(e, c, "json.Marshal", x)
			case strings.HasSuffix(n, "timestamppb.New"):
				return madeNode(e, c, "timestamppb.New", c.Args[0])
			case strings.Contains(n, "oklog/ulid") && (strings.HasSuffix(n, ".Parse") || strings.HasSuffix(n, ".ParseStrict")):
				return madeNode(e, c, "ulid.Parse", c.Args[0])
			case strings.Contains(n, "oklog/ulid") && strings.HasSuffix(n, ".String"):
				return madeNode(e, c, "ulid.String", c.Args[0])
			case strings.Contains(n, "sqlx.") && strings.HasSuffix(n, ".Next"):
				lost(st, c.Pos())
			case strings.Contains(n, "sqlx.") && (strings.HasSuffix(n, ".GetContext") || strings.HasSuffix(n, ".StructScan")):
				for _, a := range c.Args {
					a = lib.Strip(a)
					if es := st.VarArgs(a); len(es) > 0 {
						a = lib.Strip(es[0])
					}
					pt, ok := a.Typ.Underlying().(*types.Pointer)
					if !ok || !strings.HasPrefix(lib.TypeKey(pt.Elem()), pgPkg+".") || strings.HasSuffix(lib.TypeKey(pt.Elem()), ".Storage") || strings.HasSuffix(lib.TypeKey(pt.Elem()), ".Db") {
						continue
					}
					row := e.In.NamedSym("row of "+lib.TypeKey(pt.Elem()), pt.Elem())
					er := e.In.NamedSym("failed reading", c.Common.Signature().Results().At(0).Type())
					return &eng.Result{Outcomes: []eng.Outcome{
						{Rets: []*eng.Val{e.In.Nil()}, Do: func(s *eng.State) {
							s.Store(a, row)
							s.Set("row is read", "", row)
							if strings.HasSuffix(n, ".StructScan") {
								s.Set("scanned", "", row)
							}
						}},
						{Rets: []*eng.Val{er}, Do: func(s *eng.State) { s.Assume(e.Eq(er, e.In.Nil()), false) }},
					}}
				}
			}
			return nil
		}
		h.After = func(st *eng.State, c *eng.Call, rets []*eng.Val) {
			cv.after(st, c, rets)
			if c.Name() != "builtin.append" || len(c.Args) < 2 {
				return
			}
			for _, x := range st.VarArgs(c.Args[1]) {
				if t, ok := st.TS["scanned"]; ok && t.V[0] == x {
					st.Del("scanned")
					if i, ok := c.Instr.(ssa.Value); ok {
						rowAppends[i] = true
					}
					st.Set("list", "", rets[0])
				}
				if root.Name() != "UpsertChunkInfos" {
					continue
				}
				x = lib.Strip(x)
				col, el := "?", (*eng.Val)(nil)
				logID := e.In.Param(root, 2)
				of := x
				if x.K == eng.KCall && len(x.Args) > 0 && strings.HasSuffix(x.Name, ".String") {
					of = lib.Strip(x.Args[0])
				}
				f, src := loadedFrom(of)
				switch {
				case x == logID:
					col = "log_id"
				case f == "ID" && of == x, f == "RecordsCount" && of == x:
					col, el = map[string]string{"ID": "id", "RecordsCount": "records"}[f], src
				case (f == "Min" || f == "Max") && of != x:
					col, el = strings.ToLower(f), src
				}
				if el != nil {
					if t, had := st.TS["el"]; had && t.V[0] != el {
						st.Set("rows", "!") // a row of two chunks
					} else if !had {
						if _, next := v.use(st, el); !next {
							st.Set("rows", "!")
						}
						st.Set("el", "", el)
					}
				}
				if row := st.Get("row"); len(row) < 200 {
					if row != "" {
						row += ","
					}
					st.Set("row", row+col)
				}
			}
		}
		// rowsRead: the list has all the rows that were read
		rowsRead := func(st *eng.State, l *eng.Val) bool {
			if ph, isPhi := l.Ref.(*ssa.Phi); isPhi && l.K == eng.KSym && grownBy(ph, rowAppends) {
				return true
			}
			lt, ok := st.TS["list"]
			return ok && lt.V[0] == l
		}
		h.Exit = func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
			pos := eng.InstrPos(in)
			if len(rets) != 2 || st.IsNonNil(rets[1]) {
				return
			}
			x := rets[0]
			switch root.Name() {
			case "CreateLog":
				t, ok := st.TS["inserted"]
				if !ok {
					r.Check(false, "given-back", name, pos, st, "%s reports success, but has stored nothing", name)
					return
				}
				log := e.In.Param(root, 2)
				r.Check(lib.Strip(resultField(st, x, "ID")) == lib.Strip(t.V[0]), "given-back", name+": ID", pos, st, "%s gives back another ID than it has stored", name)
				r.Check(ofParam(resultField(st, x, "Tags"), log, "Tags"), "given-back", name+": Tags", pos, st, "%s gives back other tags than it has stored", name)
				for i, f := range []string{"CreatedAt", "UpdatedAt"} {
					ts := lib.Strip(resultField(st, x, f))
					r.Check(ts.K == eng.KCall && len(ts.Args) == 1 && lib.Strip(ts.Args[0]) == lib.Strip(t.V[2+i]), "given-back", name+": "+f, pos, st, "%s gives back another time than it has stored: %s", name, ts)
				}
			case "GetLogByID", "UpdateLog", "GetLastChunk":
				t, ok := st.TS["row is read"]
				src, bad := cv.elem(st, x)
				if src != nil && src.K == eng.KAlloc {
					src = st.Load(src, ptrElem(src.Typ))
				}
				good := ok && src == t.V[0]
				if src != nil && src.K == eng.KIndex && len(src.Args) == 2 {
					// the first one of the rows
					n, isC := eng.ConstInt(src.Args[1])
					good = isC && n == 0 && rowsRead(st, src.Args[0])
				}
				r.Check(good && bad == "", "given-back", name, pos, st, "%s: the %s it gives back is not the one that was read", name, bad)
			case "GetChunks":
				lost(st, pos)
				if t, ok := st.TS["made"]; ok {
					l := t.V[1]
					rows := rowsRead(st, l)
					r.Check(rows && cv.allOf(st, x, l), "given-back", name, pos, st, "%s does not give back all the chunks it has read", name)
				}
			}
		}
		return h
	})
	r.Floor("stored", 12)
	r.Floor("given-back", 7)
	r.Floor("rows", 1)
	r.Floor("converted", 1)
}

// endRow ends the row of values that is being made, and returns it.
func endRow(st *eng.State) string {
	row := st.Get("row")
	if row == "" {
		return ""
	}
	if f := st.Get("first"); f != "" && f != row {
		st.Set("rows", "!")
	} else if f == "" {
		st.Set("first", row)
	}
	st.Del("row")
	st.Del("el")
	return row
}

func numOf(s string) (n int) {
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0
		}
		n = n*10 + int(c-'0')
	}
	return n
}

// inPlaces tells that rows of n parameters get the arguments in order.
func inPlaces(w visits, ps []*eng.Val, n int) bool {
	if n == 0 || len(ps) == 0 || len(ps)%n != 0 {
		return false
	}
	for i, p := range ps {
		base := lib.Linear(ps[i-i%n])
		d := lib.Linear(p).Sub(base)
		if !d.IsConst() || d.C != int64(i%n) {
			return false
		}
		if i%n != 0 {
			continue
		}
		if base.IsConst() {
			if base.C%int64(n) != 1%int64(n) || i == 0 && len(ps) > n && base.C != 1 {
				return false
			}
			continue
		}
		for v, k := range base.Coef {
			ph, isPhi := v.Ref.(*ssa.Phi)
			switch {
			case len(base.Coef) != 1:
				return false
			case v.K == eng.KLen && k == 1 && base.C == 1: // behind the arguments so far
			case v.K != eng.KSym || !isPhi:
				return false
			case k == int64(n): // the place of the element
				for c := int64(-1); c <= 1; c++ {
					if induction(ph, c, 0) && base.C-c*k == 1 {
						k = 0
					}
				}
				if k != 0 {
					return false
				}
			case k == 1: // goes up by n
				if !inSteps(ph, base.C, int64(n)) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// inSteps tells whether the variable goes up by n, from 1-off.
func inSteps(ph *ssa.Phi, off, n int64) bool {
	steps := false
	for _, e := range ph.Edges {
		d := int64(0)
		for {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD {
				break
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok {
				return false
			}
			d += c.Int64()
			e = b.X
		}
		if c, ok := e.(*ssa.Const); ok {
			if c.Int64()+d+off != 1 {
				return false
			}
		} else if e != ssa.Value(ph) || d != n {
			return false
		} else {
			steps = true
		}
	}
	return steps
}

// assignments of an upsert: column by column, or lists of them.
func assignments(ts []tok) map[string]string {
	res := map[string]string{}
	text := func(ts []tok) (s string) {
		for _, t := range ts {
			if t.kind != 'p' || t.s == "." {
				s += t.s
			}
		}
		return
	}
	split := func(ts []tok) (res [][]tok) {
		d := 0
		var cur []tok
		for _, t := range ts {
			if t.is("(") {
				d++
			} else if t.is(")") {
				d--
			}
			if t.is(",") && d == 0 {
				res, cur = append(res, cur), nil
				continue
			}
			cur = append(cur, t)
		}
		return append(res, cur)
	}
	inner := func(ts []tok) []tok {
		if len(ts) > 1 && ts[0].is("(") && closes(ts) == len(ts)-1 {
			return ts[1 : len(ts)-1]
		}
		return ts
	}
	for _, a := range split(ts) {
		for i, t := range a {
			if !t.is("=") {
				continue
			}
			l, rr := split(inner(a[:i])), split(inner(a[i+1:]))
			for k := range l {
				if k < len(rr) {
					res[text(l[k])] = text(rr[k])
				}
			}
			break
		}
	}
	return res
}

func init() {
	register("C33", func(p *lib.Prog, r *lib.Report) {
		pgKept(p, r)
		buntKept(p, r)
		jsonNames(p, r)
	}, "")
}
