package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// emptyKnown tells whether the text is known to be empty.
func emptyKnown(st *eng.State, v *eng.Val) (empty, known bool) {
	e := st.E
	if s, ok := eng.ConstString(v); ok {
		return s == "", true
	}
	if b, ok := st.Eval(e.Eq(v, e.In.Zero(types.Typ[types.String]))); ok {
		return b, true
	}
	if lo, hi := st.Bounds(st.Len(v)); hi != nil && *hi == 0 {
		return true, true
	} else if lo != nil && *lo > 0 {
		return false, true
	}
	return false, false
}

// resultField reads the fields of a result that is a pointer to a struct or a struct.
func resultField(st *eng.State, v *eng.Val, field string) *eng.Val {
	t := v.Typ
	var ft types.Type
	if t != nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == field {
					ft = s.Field(i).Type()
				}
			}
		}
	}
	if v.Typ != nil {
		if _, ok := v.Typ.Underlying().(*types.Pointer); ok {
			return st.Load(st.E.In.Node(eng.KField, 0, field, types.NewPointer(ft), v), ft)
		}
	}
	return st.FieldOf(v, field, ft)
}

// cutAt takes X[k].ID apart.
func cutAt(v *eng.Val) (x, k *eng.Val, ok bool) {
	if v.K == eng.KFld && v.Name == "ID" {
		v = v.Args[0]
	} else if v.K == eng.KLoad && v.Args[0].K == eng.KField && v.Args[0].Name == "ID" {
		v = v.Args[0].Args[0]
	} else {
		return nil, nil, false
	}
	if v.K == eng.KLoad {
		v = v.Args[0]
	}
	if (v.K == eng.KIndex || v.K == eng.KIdx) && len(v.Args) == 2 {
		x, k = v.Args[0], v.Args[1]
		if n, isC := eng.ConstInt(k); isC && n == 0 && x.K == eng.KSlice && x.Args[1].K != eng.KNil {
			return x.Args[0], x.Args[1], true
		}
		return x, k, true
	}
	return nil, nil, false
}

// pageResult checks a page of results: L, and N where the next one begins.
// left tells that matching elements are not in the collection.
func pageResult(r *lib.Report, name string, st *eng.State, pos token.Pos, L, N *eng.Val, complete func(x *eng.Val) bool) {
	in := st.E.In
	for L.K == eng.KCall && strings.HasPrefix(L.Name, "conv:") {
		L = L.Args[0]
	}
	if empty, known := emptyKnown(st, N); known && empty {
		whole := L.K != eng.KSlice || L.Args[1].K == eng.KNil && L.Args[2].K == eng.KNil
		if !whole && L.K == eng.KSlice {
			// a cut that cuts nothing off
			whole = L.Args[1].K == eng.KNil && lib.Entails(st, lib.Linear(L.Args[2]).Sub(lib.Linear(st.Len(L.Args[0]))))
		}
		r.Check(whole && complete(L), "no-next-page-means-all", name, pos, st, "%s tells that there is no next page though elements may be left out", name)
		return
	}
	x, k, ok := cutAt(N)
	if !ok {
		r.Check(false, "next-page", name, pos, st, "%s: the next page begins neither at the first element left out nor is there none: %s", name, N.String())
		return
	}
	good := L.K == eng.KSlice && L.Args[0] == x && L.Args[1].K == eng.KNil && L.Args[2] == k
	r.Check(good, "next-page", name, pos, st, "%s: the page does not end where the next one begins: %s, %s", name, L.String(), N.String())
	one := lib.Linear(k)
	one.C--
	r.Check(lib.Entails(st, one), "pages-advance", name, pos, st, "%s may give out empty pages forever: the size of a page may be 0", name)
	_ = in
}

// buntPaging: the listing of the embedded storage.
func buntPaging(p *lib.Prog, r *lib.Report) {
	entryT := p.Named(bunt, "logEntry")
	it := ifaceOf(p, "pkg/storage", "Logs")
	if entryT == nil || it == nil {
		r.Bad("anchor", bunt, token.NoPos, nil, "the storage is not found")
		return
	}
	isE := func(t types.Type) bool {
		if t == nil {
			return false
		}
		if q, ok := t.Underlying().(*types.Pointer); ok {
			t = q.Elem()
		}
		return types.Identical(t, entryT)
	}
	var roots []*ssa.Function
	for _, f := range implementers(p, []string{bunt}, it) {
		if f.Name() == "QueryLogs" {
			roots = append(roots, f)
		}
	}
	if len(roots) == 0 {
		r.Bad("anchor", bunt+": QueryLogs", token.NoPos, nil, "the listing is not found")
		return
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != lib.PkgOf(root) }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		entry := func(v *eng.Val) *eng.Val {
			v = lib.Strip(v)
			var s *eng.Val
			v.Walk(func(x *eng.Val) bool {
				if x.K == eng.KSym && isE(x.Typ) {
					s = x
				}
				return s == nil
			})
			return s
		}
		settle := func(st *eng.State) {
			if st.Has("cur") {
				st.Del("cur")
				leftOut(st)
			}
		}
		return eng.Hooks{
			Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
				c := cond
				for c.K == eng.KUn && c.Op == token.NOT {
					c, taken = c.Args[0], !taken
				}
				if st.Has("cur") {
					overSize(st, c, taken)
				}
				if fieldIs(c, "Deleted") && taken && entry(c) != nil {
					st.Del("cur") // it is not to be listed
				}
				if t, ok := st.TS["matches"]; ok && t.V[0] == c && !taken {
					st.Del("cur")
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind == eng.CKDefer {
					return nil
				}
				switch n := c.Name(); {
				case n == "builtin.append" && len(c.Args) > 1:
					t, ok := st.TS["cur"]
					for _, v := range st.VarArgs(c.Args[1]) {
						if s := entry(v); s != nil && ok && t.V[0] == s {
							st.Del("cur")
							if ns, _ := c.Instr.(ssa.Value); ns != nil {
								st.Set("collects", "")
							}
						}
					}
				case strings.HasPrefix(n, btx+"Ascend") || strings.HasPrefix(n, btx+"Descend"):
					r.Check(n == btx+"AscendRange" || n == btx+"AscendGreaterOrEqual", "in-order", name, c.Pos(), st, "%s goes through the logs by %s, not in the order of their IDs", name, n[len(btx):])
					lo := textOf(st, c.Args[2], nil)
					ok := len(lo) == 2 && lo[0].v == nil && lo[1].v != nil && fieldIs(lo[1].v, "Page")
					r.Check(ok, "starts-at-page", name, c.Pos(), st, "%s does not begin at the log the page begins with", name)
					if n == btx+"AscendRange" {
						hi := textOf(st, c.Args[3], nil)
						last := len(hi) > 0
						if last {
							h := hi[len(hi)-1]
							last = h.v == nil && h.s[len(h.s)-1] > 'Z' || h.v != nil && strings.Contains(h.v.String(), "MaxULID")
						}
						r.Check(last, "to-the-end", name, c.Pos(), st, "%s does not go through all the logs", name)
					}
					// any number of elements have been visited before
					widenCaptured(st, c)
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				switch c.Name() {
				case "encoding/json.Unmarshal":
					ptr := lib.Strip(c.Args[1])
					s := st.Load(ptr, nil)
					if isE(s.Typ) {
						settle(st)
						st.Set("cur", "", s)
						st.Del("matches")
						st.Del("over")
					}
				case "slices.Sort", "sort.Strings":
					st.Set("sorted:"+itoa(c.Args[0].ID), "")
				case "slices.BinarySearch":
					if st.Has("sorted:"+itoa(c.Args[0].ID)) && fieldIs(c.Args[1], "Page") {
						st.Set("start:"+itoa(rets[0].ID), "", c.Args[0])
					}
				case "sort.SearchStrings":
					if st.Has("sorted:"+itoa(c.Args[0].ID)) && fieldIs(c.Args[1], "Page") {
						st.Set("start:"+itoa(rets[0].ID), "", c.Args[0])
					}
				case btx + "Get":
					// the ID is an element of the sorted list from the page on
					_, holes := keyParts(st, c.Args[1])
					if len(holes) == 1 {
						r.Check(fromPage(st, holes[0]), "starts-at-page", name, c.Pos(), st, "%s does not go through the IDs in their order beginning with the page: %s", name, holes[0].String())
					}
				default:
					// the condition compiled by the query language
					if c.Fn == nil && len(c.Args) > 0 && len(rets) == 1 && isBoolT(rets[0].Typ) {
						if t, ok := st.TS["cur"]; ok {
							for _, a := range c.Args {
								if entry(a) == t.V[0] {
									st.Set("matches", "", rets[0])
								}
							}
						}
					}
				}
			},
			Leave: func(st *eng.State, fr *eng.Frame, rets []*eng.Val) {
				if fr.Site != nil && strings.HasPrefix(lib.CallName(fr.Site), btx) {
					settle(st)
					if len(rets) == 1 && isBoolT(rets[0].Typ) {
						if b, ok := st.Eval(rets[0]); !ok || !b {
							if !ok {
								c := rets[0]
								neg := false
								for c.K == eng.KUn && c.Op == token.NOT {
									c, neg = c.Args[0], !neg
								}
								st.Del("over")
								overSize(st, c, neg)
							}
							leftOut(st)
						}
					}
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				if st.IsNonNil(rets[1]) {
					return
				}
				settle(st)
				pageResult(r, name, st, eng.InstrPos(in), resultField(st, rets[0], "Logs"), resultField(st, rets[0], "NextPageID"), func(x *eng.Val) bool {
					if !st.Has("left") {
						return true
					}
					// an element is left out only by a collection with more than
					// one page: and this one has not as many
					for _, k := range st.TS["left"].V {
						if lib.Entails(st, lib.Linear(k).Sub(lib.Linear(st.Len(x)))) {
							return true
						}
					}
					return false
				})
			},
		}
	}
	j.Do(nil)
}

// leftOut records that an element is not collected, and the size the
// collection is known to be over then: it does not shrink while it is filled.
func leftOut(st *eng.State) {
	if _, ok := st.TS["over"]; !ok {
		st.Set("left", "")
		return
	}
	if t, ok := st.TS["left"]; ok && (len(t.V) == 0 || t.V[0] == st.TS["over"].V[0]) {
		return
	} else if ok {
		st.Set("left", "")
		return
	}
	st.Set("left", "", st.TS["over"].V...)
}

// overSize notes that a branch found the collection to have more elements than
// a number.
func overSize(st *eng.State, c *eng.Val, taken bool) {
	if c.K != eng.KBin || c.Op != token.LSS {
		return
	}
	if c.Args[1].K == eng.KLen && isLogs(c.Args[1].Args[0].Typ) && taken {
		st.Set("over", "", c.Args[0])
	}
	if c.Args[0].K == eng.KLen && isLogs(c.Args[0].Args[0].Typ) && !taken { // at least as many: over one less
		st.Set("over", "", st.E.In.Node(eng.KBin, token.SUB, "", types.Typ[types.Int], c.Args[1], st.E.In.Int(1)))
	}
}

// isLogs: a list of logs or records.
func isLogs(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	k := lib.TypeKey(s.Elem())
	return strings.HasSuffix(k, ".Log") || strings.HasSuffix(k, ".Record")
}

// widenCaptured forgets what is known of the variables the callbacks of the
// call change: they may have been called any number of times before.
func widenCaptured(st *eng.State, c *eng.Call) {
	for _, a := range c.Args {
		a = lib.Strip(a)
		if a.K != eng.KClosure {
			continue
		}
		for i, fv := range a.Fn.FreeVars {
			if i >= len(a.Args) || fv.Referrers() == nil {
				continue
			}
			for _, in := range *fv.Referrers() {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(fv) {
					v := st.E.In.Sym(c.Frame.Ctx, fv, "visited", s.Val.Type())
					st.Forget(v)
					st.Store(a.Args[i], v)
					break
				}
			}
		}
	}
}

// fromPage: the value is an element of a sorted list beginning with the page.
func fromPage(st *eng.State, id *eng.Val) bool {
	ok := false
	id.Walk(func(x *eng.Val) bool {
		if x.K == eng.KSlice && x.Args[2].K == eng.KNil {
			if t, found := st.TS["start:"+itoa(x.Args[1].ID)]; found && t.V[0] == x.Args[0] {
				ok = true
			}
		}
		return !ok
	})
	if ok {
		return true
	}
	sorted := false
	id.Walk(func(x *eng.Val) bool {
		sorted = sorted || st.Has("sorted:"+itoa(x.ID))
		return !sorted
	})
	return sorted && st.AnyFact(func(f *eng.Val, b bool) bool {
		return !b && f.K == eng.KBin && f.Op == token.LSS && f.Args[0] == id && fieldIs(f.Args[1], "Page")
	})
}

// pgPaging: the listing of the SQL storage, and the order of the chunks.
func pgPaging(p *lib.Prog, r *lib.Report) {
	pgWalk(p, r, func(e *eng.Engine, root *ssa.Function, q *sqlStmt) {
		st, name, pos := q.st, lib.Name(root), q.c.Pos()
		if q.kind != "select" || mentions(q.toks, "count") {
			return
		}
		order, ordered := clause(q.toks, "order", "limit", "offset", "for")
		by := ""
		if ordered && len(order) >= 2 && order[0].is("by") {
			by = order[1].s
			if i := strings.LastIndex(by, "."); i >= 0 {
				by = by[i+1:]
			}
			if len(order) > 2 {
				by += " " + order[2].s
			}
		}
		if q.table == "chunk" {
			what := map[string]string{"GetLastChunk": "id desc", "GetChunks": "id"}[root.Name()]
			if what != "" {
				r.Check(by == what || by == what+" asc", "chunks-in-order", name, pos, st, "%s has to go through the chunks in the order of their IDs (%s): %s", name, what, q.text())
			}
			return
		}
		lim, limited := clause(q.toks, "limit", "offset", "for")
		if q.table != "log" || root.Name() != "QueryLogs" {
			return
		}
		r.Check(by == "id" || by == "id asc", "in-order", name, pos, st, "%s goes through the logs by %q, not in the order of their IDs", name, by)
		k, ok := q.has("id", ">=")
		if ok {
			v := argOf(st, k, q.args)
			ok = v != nil && fieldIs(v, "Page")
		}
		r.Check(ok, "starts-at-page", name, pos, st, "%s does not begin at the log the page begins with: %s", name, q.text())
		st.Set("paged", "")
		if limited {
			var v *eng.Val
			if len(lim) == 1 && lim[0].kind == '$' {
				v = argOf(st, lim[0], q.args)
			} else if len(lim) == 1 && lim[0].kind == 'h' {
				v = lim[0].v
			}
			r.Check(v != nil, "to-the-end", name, pos, st, "%s: how many logs are read is not clear: %s", name, q.text())
			if v != nil {
				st.Set("paged", "", v)
			}
		}
	}, func(e *eng.Engine, root *ssa.Function, h eng.Hooks) eng.Hooks {
		name := lib.Name(root)
		if root.Name() != "QueryLogs" {
			return h
		}
		h.Call = func(st *eng.State, c *eng.Call) *eng.Result {
			if c.Kind != eng.CKDefer && isConverter(c.Fn) {
				return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Node(eng.KCall, 0, "conv:"+c.Name(), c.Fn.Signature.Results().At(0).Type(), c.Args[0])}}}}
			}
			return nil
		}
		h.Exit = func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
			if st.IsNonNil(rets[1]) {
				return
			}
			t, ok := st.TS["paged"]
			if !ok {
				return
			}
			pageResult(r, name, st, eng.InstrPos(in), resultField(st, rets[0], "Logs"), resultField(st, rets[0], "NextPageID"), func(x *eng.Val) bool {
				if len(t.V) == 0 {
					return true
				}
				more := lib.Linear(t.V[0]).Sub(lib.Linear(st.Len(x)))
				more.C--
				return lib.Entails(st, more) // fewer than asked for
			})
		}
		return h
	})
	for _, f := range p.InPkg(pgPkg) {
		if isConverter(f) {
			r.AddFunc(f)
			r.Check(convertsAll(f), "converts-all", lib.Name(f), f.Pos(), nil, "%s may leave elements out", lib.Name(f))
		}
	}
	r.Floor("chunks-in-order", 2)
}

// isConverter: a function that makes a list of a list.
func isConverter(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 || !eng.InModule(f) {
		return false
	}
	s := f.Signature
	if s.Params().Len() != 1 || s.Results().Len() != 1 || s.Recv() != nil {
		return false
	}
	_, sl := s.Params().At(0).Type().Underlying().(*types.Slice)
	return sl && isLogs(s.Results().At(0).Type())
}

// convertsAll: no way through the loop leaves an element out.
func convertsAll(f *ssa.Function) bool {
	looped := false
	for _, h := range f.Blocks {
		for _, b := range h.Preds {
			if !h.Dominates(b) {
				continue
			}
			looped = true
			// from the head to the back edge without adding
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(x *ssa.BasicBlock) bool
			walk = func(x *ssa.BasicBlock) bool {
				if seen[x] || !h.Dominates(x) {
					return false
				}
				seen[x] = true
				for _, in := range x.Instrs {
					if c, ok := in.(*ssa.Call); ok && lib.CallName(c) == "builtin.append" {
						return false
					}
					if s, ok := in.(*ssa.Store); ok {
						if _, ok := s.Addr.(*ssa.IndexAddr); ok {
							return false
						}
					}
				}
				if x == b {
					return true
				}
				for _, n := range x.Succs {
					if n != h && walk(n) {
						return true
					}
				}
				return false
			}
			if walk(h) {
				return false
			}
		}
	}
	return looped
}

func init() {
	register("C17", func(p *lib.Prog, r *lib.Report) {
		buntPaging(p, r)
		pgPaging(p, r)
		servicePaging(p, r)
		recordPaging(p, r)
		chunkOrder(p, r)
		deletesEveryPage(p, r)
		chunkSeek(p, r)
	}, "")
}
