package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// recordPaging: the log tells that there may be more records unless it has
// read all of them, and it begins with the chunk the start belongs to.
func recordPaging(p *lib.Prog, r *lib.Report) {
	it := ifaceOf(p, "pkg/storage", "Log")
	if it == nil {
		r.Bad("anchor", "storage.Log", token.NoPos, nil, "the interface is not there")
		return
	}
	var roots []*ssa.Function
	for _, f := range implementers(p, []string{lfs}, it) {
		if f.Name() == "QueryRecords" || f.Name() == "CountRecords" {
			roots = append(roots, f)
		}
	}
	if len(roots) < 2 {
		r.Bad("anchor", lfs+": QueryRecords", token.NoPos, nil, "the reading of the log is not found")
		return
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool {
		return lib.PkgOf(g) != lib.PkgOf(root) || choosesRanges(g)
	}}
	j.KeepFact = func(v *eng.Val) bool { // the IDs are not told apart
		keep := true
		v.Walk(func(x *eng.Val) bool {
			if x.K == eng.KCall && strings.HasSuffix(x.Name, ".Compare") || x.K == eng.KSym && x.Typ != nil && isBoolT(x.Typ) {
				keep = false
			}
			return keep
		})
		return keep
	}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		req := e.In.Param(root, 2)
		dropped := func(st *eng.State, pos token.Pos) {
			if st.Has("cur") {
				r.Check(st.Has("beyond"), "every-record", name, pos, st, "%s leaves a record out that is not behind the end of the range", name)
				st.Del("cur")
			}
		}
		return eng.Hooks{
			Leave: func(st *eng.State, fr *eng.Frame, rets []*eng.Val) {
				if t, ok := st.TS["range"]; ok && t.S == itoa(fr.Ctx) {
					st.Del("range")
					st.Del("placed")
				}
				if t, ok := st.TS["cur"]; ok && t.S == itoa(fr.Ctx) {
					dropped(st, fr.Fn.Pos())
				}
			},
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Kind == eng.CKDefer {
					return nil
				}
				if strings.HasSuffix(c.Name(), ".GetOpenedChunk") {
					st.Set("opened", "")
					st.Del("placed")
				}
				switch n := c.Name(); {
				case strings.HasSuffix(n, ".GetOpenedChunk") && !st.Has("later"):
					firstChunk(r, name, st, c, req)
				case n == "builtin.copy":
					st.Set("copied:"+itoa(c.Args[0].ID), "", c.Args[1])
				case n == "builtin.append" && len(c.Args) > 1 && isLogs(c.Common.Args[0].Type()):
					if c.Frame.Fn == root && len(st.VarArgs(c.Args[1])) == 0 {
						if none, known := st.Eval(e.Eq(st.Len(c.Args[1]), e.In.Int(0))); known && none {
							st.Del("joined")
						} else {
							st.Set("joined", "")
						}
					}
					if t, ok := st.TS["cur"]; ok {
						for _, v := range st.VarArgs(c.Args[1]) {
							sameRecord(r, name, st, c.Pos(), v, t.V[0], req)
						}
						st.Del("cur")
					}
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				switch n := c.Name(); {
				case n == "sort.Search":
					st.Assume(e.Less(rets[0], e.In.Int(0)), false)
					st.Assume(e.Less(c.Args[0], rets[0]), false)
					st.Set("search:"+itoa(rets[0].ID), searchKind(c.Args[1]), rets[0])
				case strings.HasSuffix(n, ".HasNext"):
					st.Set("has:"+itoa(rets[0].ID), "")
				case strings.HasSuffix(n, ".GetChunks"):
					st.Set("chunks", "", rets[0])
				case strings.HasSuffix(n, "Reader).Next"):
					dropped(st, c.Pos())
					if st.Has("range") {
						r.Check(st.Has("placed"), "begins-with-range", name, c.Pos(), st, "%s reads records for a range without having gone to its start: records between the ranges are given out", name)
					}
					st.Del("unread")
					st.Del("beyond")
					st.Set("cur", itoa(c.Frame.Ctx), rets[0])
				case strings.HasSuffix(n, "Reader).SetStartID"):
					st.Del("unread") // it goes elsewhere then: the limits have been noted
					st.Set("placed", "")
				}
			},
			Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
				c, taken0 := cond, taken
				for c.K == eng.KUn && c.Op == token.NOT {
					c, taken = c.Args[0], !taken
				}
				if c.K == eng.KBin && (c.Op == token.EQL || c.Op == token.LSS) {
					for i, x := range c.Args {
						n, isN := eng.ConstInt(c.Args[1-i])
						if !isN || n != 0 || x.K != eng.KLen || x.Args[0].Typ == nil || taken != (c.Op == token.EQL) {
							continue
						}
						if s, ok := x.Args[0].Typ.Underlying().(*types.Slice); ok && strings.HasSuffix(lib.TypeKey(s.Elem()), "Range") {
							st.Set("noranges", "")
						}
					}
				}
				filter := false
				c.Walk(func(x *eng.Val) bool {
					filter = filter || ofParam(x, req, "Condition")
					return !filter
				})
				if filter && (c.K == eng.KBin && c.Op == token.EQL && !taken || c.K == eng.KBin && c.Op == token.LSS && taken) {
					st.Set("filtered", "")
				}
				if b, ok := in.Cond.(*ssa.BinOp); ok && (indexesChunks(b.X) || indexesChunks(b.Y)) && !body(in)[in.Block().Succs[map[bool]int{true: 0, false: 1}[taken0]]] {
					st.Set("alldone", "")
				}
				if c.K == eng.KBin && c.Op == token.EQL && taken {
					for i, x := range c.Args {
						n, isN := eng.ConstInt(c.Args[1-i])
						if !isN || n != 0 {
							continue
						}
						if x.K == eng.KLen && isIntervals(x.Args[0].Typ) {
							st.Set("nointervals", "")
						}
						if x.K == eng.KCall && strings.HasSuffix(x.Name, ".Compare") && rangeStart(x) {
							st.Set("placed", "") // from the first one on
						}
					}
					if rangeStart(c) {
						st.Set("placed", "")
					}
				}
				if st.Has("has:" + itoa(c.ID)) {
					if taken {
						st.Set("unread", "")
					}
					return
				}
				if t, ok := st.TS["cur"]; ok && c.K == eng.KBin && c.Op == token.LSS {
					// behind the end of the range
					for i, x := range c.Args {
						if x.K == eng.KCall && strings.HasSuffix(x.Name, ".Compare") && len(x.Args) == 2 && x.Args[0].Contains(t.V[0]) && x.Args[1].K != eng.KGlobal {
							desc, dk := boolField(st, req, "Descending")
							if n, ok := eng.ConstInt(c.Args[1-i]); ok && n == 0 && taken && dk && desc == (i == 0) {
								st.Set("beyond", "")
							}
						}
					}
				}
				if st.Has("unread") && c.K == eng.KBin && c.Op == token.LSS && root.Name() == "QueryRecords" {
					lo, hi := c.Args[0], c.Args[1]
					// a reading loop looks at the bounds
					if recordsLen(lo) != nil {
						if t, ok := st.TS["limit"]; ok && fr.Fn != root && st.Has("joined") && st.Has("later") {
							r.Check(hi != t.V[0], "limit-for-all", name, eng.InstrPos(in), st, "%s reads as many records from a later chunk as were asked for altogether: it gives out more than the limit: %s %s", name, hi, lo)
						}
						limitedBy(st, hi)
					} else if b, ok := in.Cond.(*ssa.BinOp); ok && isIntT(lo.Typ) && isIntT(hi.Typ) {
						ld, ok := b.X.(*ssa.UnOp)
						if b.Op != token.LSS && b.Op != token.GEQ {
							ld, ok = b.Y.(*ssa.UnOp)
						}
						if ok && ld.Op == token.MUL {
							if _, fld := ld.X.(*ssa.FieldAddr); !fld {
								st.Set("size", "", e.Env(st, fr, ld.X), hi)
								return
							}
						}
						// no list is there yet
						if n, ok := eng.ConstInt(lo); ok && n == 0 {
							if t, ok := st.TS["limit"]; ok && fr.Fn != root && st.Has("joined") && st.Has("later") {
								r.Check(hi != t.V[0], "limit-for-all", name, eng.InstrPos(in), st, "%s reads as many records from a later chunk as were asked for altogether: it gives out more than the limit: %s %s", name, hi, lo)
							}
							limitedBy(st, hi)
						}
					}
				}
			},
			Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
				if ia, ok := in.(*ssa.IndexAddr); ok {
					if s, ok := ia.X.Type().Underlying().(*types.Slice); ok && strings.HasSuffix(lib.TypeKey(s.Elem()), "Range") {
						i := e.Env(st, fr, ia.Index)
						if t, ok := st.TS["range"]; !ok || t.V[0] != i {
							st.Set("range", itoa(fr.Ctx), i)
							st.Del("placed")
						}
					}
				}
				b, ok := in.(*ssa.BinOp)
				if ok && root.Name() == "CountRecords" && b.Op == token.ADD && fr.Fn != root {
					if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && k.Uint64() == 1 && types.Identical(b.Type().Underlying(), types.Typ[types.Uint64]) {
						st.Del("cur")
					}
				}
				if ok && fr.Fn == root && b.Op == token.ADD && root.Name() == "CountRecords" && types.Identical(b.Type().Underlying(), types.Typ[types.Uint64]) {
					if st.Has("adds") {
						st.Set("adds", "2")
					} else {
						st.Set("adds", "1")
					}
				}
				if !ok || b.Op != token.ADD && b.Op != token.SUB || fr.Fn != root {
					return
				}
				ph, ok := b.X.(*ssa.Phi)
				if !ok || !indexesChunks(ph) {
					return
				}
				carried := false
				for _, x := range ph.Edges {
					carried = carried || x == ssa.Value(b)
				}
				if !carried {
					return
				}
				st.Set("later", "")
				if st.TS["adds"].S != "2" && !st.Has("opened") {
					skipped(r, name, st, b.Pos(), e.Env(st, fr, ph), req)
				}
				st.Del("adds")
				st.Del("opened")
				st.Del("noranges")
				d, ok := constOf(st, e.Env(st, fr, b.Y))
				if b.Op == token.SUB {
					d = -d
				}
				desc, dk := boolField(st, req, "Descending")
				r.Check(ok && dk && (desc && d == -1 || !desc && d == 1), "chunk-by-chunk", name, b.Pos(), st, "%s does not go through the chunks one by one in the order asked for", name)
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				if len(rets) != 3 || st.IsNonNil(rets[2]) {
					return
				}
				pos := eng.InstrPos(in)
				allRead := func() {
					t, ok := st.TS["chunks"]
					none, known := false, false
					if ok {
						none, known = st.Eval(e.Eq(st.Len(t.V[0]), e.In.Int(0)))
					}
					r.Check(st.Has("alldone") || known && none || st.Has("filtered") && st.Has("nointervals"), "all-chunks-looked-at", name, pos, st, "%s ends though it has not looked at all the chunks, and does not tell that there may be more", name)
				}
				if root.Name() != "QueryRecords" {
					allRead()
					return
				}
				more, known := st.Eval(rets[1])
				if known && more {
					return
				}
				if !known {
					st = st.Clone()
					if !st.Assume(rets[1], false) {
						return
					}
				}
				allRead()
				if t, ok := st.TS["size"]; ok {
					lo, hi := st.Load(t.V[0], t.V[1].Typ), t.V[1]
					less := lib.Linear(hi).Sub(lib.Linear(lo))
					less.C--
					r.Check(lib.Entails(st, less), "no-more-means-all", name+": size", pos, st, "%s tells that there are no more records though the size of the records may have made it stop", name)
				}
				if t, ok := st.TS["limit"]; ok {
					under := lib.Linear(t.V[0]).Sub(lib.Linear(st.Len(rets[0])))
					under.C--
					r.Check(lib.Entails(st, under), "no-more-means-all", name+": limit", pos, st, "%s tells that there are no more records though the limit may have made it stop", name)
				}
			},
		}
	}
	j.Do(nil)
	r.Floor("no-more-means-all", 2)
	r.Floor("first-chunk", 2)
	r.Floor("record-as-stored", 3)
}

// sameRecord: what is given out is the record read.
func sameRecord(r *lib.Report, name string, st *eng.State, pos token.Pos, v, read, req *eng.Val) {
	from := func(f string, x *eng.Val) bool {
		ok := false
		x.Walk(func(y *eng.Val) bool {
			ok = ok || y.K == eng.KFld && y.Name == f && y.Args[0] == read || y.K == eng.KLoad && y.Args[0].K == eng.KField && y.Args[0].Name == f && y.Args[0].Args[0] == read
			return !ok
		})
		return ok
	}
	v = lib.Strip(v)
	id, lid, pl := resultField(st, v, "ID"), resultField(st, v, "LogID"), resultField(st, v, "Payload")
	r.Check(from("ID", id), "record-as-stored", name+": ID", pos, st, "%s gives out a record by another ID: %s", name, id.String())
	r.Check(ofParam(lid, req, "LogID"), "record-as-stored", name+": LogID", pos, st, "%s gives out a record of another log: %s", name, lid.String())
	if at := resultField(st, v, "CreatedAt"); at != nil {
		r.Check(from("ID", at), "record-as-stored", name+": CreatedAt", pos, st, "%s gives a record another time than the one of its ID: %s", name, at.String())
	}
	src := st.TS["copied:"+itoa(pl.ID)].V
	full := len(src) == 1 && from("UnsafePayload", src[0]) && src[0].K != eng.KSlice
	if full {
		eq, known := st.Eval(st.E.Eq(st.Len(pl), st.Len(src[0])))
		full = known && eq
	} else if pl.K == eng.KCall && (pl.Name == "bytes.Clone" || pl.Name == "slices.Clone") {
		full = from("UnsafePayload", pl)
	}
	r.Check(full, "record-as-stored", name+": Payload", pos, st, "%s does not give out a copy of the whole payload: %s", name, pl.String())
}

// skipped: a chunk is left out only when the condition excludes it or it is
// before the start.
func skipped(r *lib.Report, name string, st *eng.State, pos token.Pos, idx, req *eng.Val) {
	ok := st.Has("filtered") && st.Has("noranges")
	desc, dk := boolField(st, req, "Descending")
	never := lib.Linear(idx)
	never.C -= 1 << 40
	ok = ok || lib.Entails(st, never) // the path cannot be taken
	for _, key := range st.KeysPrefix("search:") {
		t := st.TS[key]
		d := lib.Linear(t.V[0]).Sub(lib.Linear(idx)) // Search - idx
		d.C--                                        // idx < Search
		if desc {
			d = lib.Linear(idx).Sub(lib.Linear(t.V[0])) // idx > Search-1
		}
		ok = ok || dk && lib.Entails(st, d)
	}
	r.Check(ok, "every-chunk", name, pos, st, "%s leaves a chunk out that may have matching records", name)
}

// rangeStart: a comparison of the start of a range with no ID at all.
func rangeStart(v *eng.Val) bool {
	first, zero := false, false
	for _, x := range v.Args {
		f := fieldOfVal(x)
		first = first || f != ""
		zero = zero || x.K == eng.KGlobal || x.K == eng.KLoad && x.Args[0].K == eng.KGlobal
	}
	return first && zero
}

// body: the loop a branch is in.
func body(in *ssa.If) map[*ssa.BasicBlock]bool {
	_, m := loopOf(in.Block())
	return m
}

// limitedBy notes the limit of a reading loop: what is left of a number after the
// records read before.
func limitedBy(st *eng.State, hi *eng.Val) {
	for hi.K == eng.KBin && hi.Op == token.SUB && recordsLen(hi.Args[1]) != nil {
		hi = hi.Args[0]
	}
	st.Set("limit", "", hi)
}

// recordsLen: the list of records the value is the length of.
func recordsLen(v *eng.Val) *eng.Val {
	if v.K == eng.KLen && isLogs(v.Args[0].Typ) {
		return v.Args[0]
	}
	return nil
}

// choosesRanges: a function that computes ranges or intervals.
func choosesRanges(f *ssa.Function) bool {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
		if n, ok := t.(*types.Named); ok && (strings.Contains(n.Obj().Name(), "Range") || strings.Contains(n.Obj().Name(), "Interval")) {
			return true
		}
	}
	return false
}

// indexesChunks: the value is an index of a list of chunks.
func indexesChunks(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, in := range *v.Referrers() {
		if ia, ok := in.(*ssa.IndexAddr); ok && ia.Index == v {
			if s, ok := ia.X.Type().Underlying().(*types.Slice); ok && strings.HasSuffix(lib.TypeKey(s.Elem()), ".ChunkInfo") {
				return true
			}
		}
	}
	return false
}

func constOf(st *eng.State, v *eng.Val) (int64, bool) {
	lo, hi := st.Bounds(v)
	if lo != nil && hi != nil && *lo == *hi {
		return *lo, true
	}
	return 0, false
}

// searchKind tells which chunk a search finds: the first one whose Min or Max
// is over (or not under) the ID looked for.
func searchKind(cb *eng.Val) string {
	cb = lib.Strip(cb)
	if cb.Fn == nil || len(cb.Fn.Blocks) != 1 {
		return ""
	}
	f := cb.Fn
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok {
		return ""
	}
	b, ok := ret.Results[0].(*ssa.BinOp)
	if !ok {
		return ""
	}
	cl, ok := b.X.(*ssa.Call)
	k, kok := b.Y.(*ssa.Const)
	if !ok || !kok || k.Value == nil || k.Int64() != 0 || len(cl.Call.Args) != 2 || !strings.HasSuffix(lib.CallName(cl), ".Compare") {
		return ""
	}
	for _, fld := range []string{"Min", "Max"} {
		if fieldReadOf(cl.Call.Args[0], fld) != nil {
			return fld + " " + b.Op.String()
		}
		if fieldReadOf(cl.Call.Args[1], fld) != nil {
			flip := map[token.Token]string{token.LSS: ">", token.LEQ: ">=", token.GTR: "<", token.GEQ: "<="}
			return fld + " " + flip[b.Op]
		}
	}
	return ""
}

// firstChunk checks the chunk the reading begins with.
func firstChunk(r *lib.Report, name string, st *eng.State, c *eng.Call, req *eng.Val) {
	_, k, ok := cutAt(c.Args[2])
	desc, dk := boolField(st, req, "Descending")
	if !ok || !dk {
		r.Check(false, "first-chunk", name, c.Pos(), st, "%s: the chunk the reading begins with is not clear: %s", name, c.Args[2].String())
		return
	}
	started := false
	good := false
	d := lib.Linear(k)
	for _, key := range st.KeysPrefix("search:") {
		t := st.TS[key]
		started = true
		x := d.Sub(lib.Linear(t.V[0]))
		if desc {
			x.C++
		}
		y := lib.Linear(t.V[0]).Sub(d)
		if desc {
			y.C--
		}
		if (desc && t.S == "Min >" || !desc && t.S == "Max >=") && lib.Entails(st, x) && lib.Entails(st, y) {
			good = true
		}
	}
	if !started {
		good = !desc && d.IsConst() && d.C == 0
		if desc {
			for v := range d.Coef {
				x := lib.Linear(v).Sub(d)
				good = good || v.K == eng.KLen && x.IsConst() && x.C == 1
			}
		}
	}
	r.Check(good, "first-chunk", name, c.Pos(), st, "%s does not begin with the chunk that holds the start (descending=%v): %s", name, desc, c.Args[2].String())
}

// chunkOrder: the embedded storage gives out the chunks in their order.
func chunkOrder(p *lib.Prog, r *lib.Report) {
	it := ifaceOf(p, lfs, "LogsMetaStorage")
	if it == nil {
		r.Bad("anchor", "LogsMetaStorage", token.NoPos, nil, "the interface is not there")
		return
	}
	var roots []*ssa.Function
	for _, f := range implementers(p, []string{bunt}, it) {
		if f.Name() == "GetChunks" || f.Name() == "GetLastChunk" {
			roots = append(roots, f)
		}
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != lib.PkgOf(root) }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				n := c.Name()
				if c.Kind != eng.CKDefer && (strings.HasPrefix(n, btx+"Ascend") || strings.HasPrefix(n, btx+"Descend")) {
					dir := "up"
					if strings.HasPrefix(n, btx+"Descend") {
						dir = "down"
					}
					st.Set("dir", dir)
					r.Check(dir == "up" || root.Name() == "GetLastChunk", "chunks-in-order", name, c.Pos(), st, "%s goes through the chunks from the last one on", name)
				}
				return nil
			},
			Leave: func(st *eng.State, fr *eng.Frame, rets []*eng.Val) {
				if fr.Site == nil || !strings.HasPrefix(lib.CallName(fr.Site), btx) || len(rets) != 1 {
					return
				}
				b, known := st.Eval(rets[0])
				if root.Name() == "GetLastChunk" {
					down := st.TS["dir"].S == "down"
					r.Check(known && b != down, "last-chunk", name, fr.Fn.Pos(), st, "%s does not give the last chunk: it goes through them %s and the callback gives %v", name, st.TS["dir"].S, b)
				}
			},
		}
	}
	j.Do(nil)
	r.Floor("chunks-in-order", 1)
	r.Floor("last-chunk", 1)
}

// deletesEveryPage: what is deleted by a condition is every page of it.
func deletesEveryPage(p *lib.Prog, r *lib.Report) {
	it := ifaceOf(p, "pkg/storage", "Logs")
	if it == nil {
		return
	}
	isPaged := func(f *ssa.Function) int {
		if f == nil || f.Signature.Results().Len() == 0 || !strings.HasSuffix(lib.TypeKey(ptrElem(f.Signature.Results().At(0).Type())), ".QueryLogsResult") {
			return -1
		}
		for i, pa := range f.Params {
			if strings.HasSuffix(lib.TypeKey(pa.Type()), "storage.QueryLogsRequest") {
				return i
			}
		}
		return -1
	}
	var roots []*ssa.Function
	for _, f := range implementers(p, []string{bunt, pgPkg}, it) {
		if f.Name() == "DeleteLogs" {
			roots = append(roots, f)
		}
	}
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != lib.PkgOf(root) || isPaged(g) >= 0 }}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		last := func(st *eng.State, res *eng.Val) bool {
			if empty, known := emptyKnown(st, resultField(st, res, "NextPageID")); known && empty {
				return true
			}
			none, known := st.Eval(e.Eq(st.Len(st.TS["page"].V[2]), e.In.Int(0)))
			return known && none
		}
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				i := isPaged(c.Fn)
				if c.Kind == eng.CKDefer || i < 0 {
					return nil
				}
				if first, ok := st.TS["first"]; ok {
					for k, v := range first.V {
						if k == i {
							for _, fld := range []string{"Condition", "Deleted"} {
								if x, y := resultField(st, v, fld), resultField(st, c.Args[i], fld); x != nil && y != nil {
									same, known := st.Eval(e.Eq(x, y))
									r.Check(x == y || known && same, "deletes-every-page", name+": same "+fld, c.Pos(), st, "%s asks for the next page with another %s", name, fld)
								}
							}
						} else if b, ok := c.Args[k].Typ.(*types.Basic); ok && v.Typ != nil && types.Identical(b, v.Typ) {
							same, known := st.Eval(e.Eq(v, c.Args[k]))
							r.Check(v == c.Args[k] || known && same, "deletes-every-page", name+": same request", c.Pos(), st, "%s asks for the next page in another way than for the first one: %s", name, c.Args[k])
						}
					}
				} else {
					st.Set("first", "", c.Args...)
				}
				if t, ok := st.TS["page"]; ok {
					pg := resultField(st, c.Args[i], "Page")
					r.Check(pg == resultField(st, t.V[0], "NextPageID") || pg == t.V[1], "deletes-every-page", name+": next", c.Pos(), st, "%s does not go on with the next page", name)
				} else if f := resultField(st, c.Args[i], "Page"); f != nil {
					empty, known := emptyKnown(st, f)
					r.Check(known && empty, "deletes-every-page", name+": first", c.Pos(), st, "%s does not begin with the first page", name)
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if isPaged(c.Fn) >= 0 {
					st.Set("page", "", rets[0], resultField(st, rets[0], "NextPageID"), resultField(st, rets[0], "Logs"))
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				if t, ok := st.TS["page"]; ok && !st.IsNonNil(rets[1]) {
					empty, known := emptyKnown(st, t.V[1])
					r.Check(last(st, t.V[0]) || known && empty, "deletes-every-page", name+": end", eng.InstrPos(in), st, "%s leaves pages of matching logs alone", name)
				}
			},
		}
	}
	j.Do(nil)
	r.Floor("deletes-every-page", 3)
}

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
