package rules

import (
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

const bunt = "pkg/storage/buntdb"
const btx = "(*github.com/tidwall/buntdb.Tx)."

// buntWalk walks the operations of the embedded metadata storage and decides
// both what they do with deleted logs and how they use transactions.
func buntWalk(p *lib.Prog, r *lib.Report, deleted, txs bool) {
	entryT, chunkT := p.Named(bunt, "logEntry"), p.Named(bunt, "chnkEntry")
	if entryT == nil || chunkT == nil {
		r.Bad("anchor", bunt+": entries", token.NoPos, nil, "the entry types are not there")
		return
	}
	is := func(t types.Type, n *types.Named) bool {
		if t == nil {
			return false
		}
		if q, ok := t.Underlying().(*types.Pointer); ok {
			t = q.Elem()
		}
		return types.Identical(t, n)
	}
	var roots []*ssa.Function
	meta := map[*ssa.Function]bool{}
	for _, i := range [][2]string{{"pkg/storage", "Logs"}, {lfs, "LogsMetaStorage"}} {
		it := ifaceOf(p, i[0], i[1])
		if it == nil {
			r.Bad("anchor", i[1], token.NoPos, nil, "the interface is not there")
			return
		}
		for _, f := range implementers(p, []string{bunt}, it) {
			roots = append(roots, f)
			meta[f] = i[1] == "LogsMetaStorage"
		}
	}
	var mu sync.Mutex
	tables := map[string]string{} // key prefix -> log, chunk
	run := func(r *lib.Report, final bool) {
		j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, NoInline: func(root, g *ssa.Function) bool { return lib.PkgOf(g) != lib.PkgOf(root) }}
		j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
			return buntHooks(p, r, e, root, meta[root], deleted && final, txs && final, is, entryT, chunkT, tables, &mu)
		}
		j.Do(nil)
	}
	run(lib.NewReport(p), false)
	logs, chunks := 0, 0
	for _, k := range tables {
		if k == "log" {
			logs++
		} else {
			chunks++
		}
	}
	if logs != 1 || chunks != 1 {
		r.Bad("anchor", bunt+": keys", token.NoPos, nil, "the keys of the logs and the chunks are not recognised: %v", tables)
		return
	}
	run(r, true)
}

func buntHooks(p *lib.Prog, r *lib.Report, e *eng.Engine, root *ssa.Function, meta, deleted, txs bool, is func(t types.Type, n *types.Named) bool, entryT, chunkT *types.Named, tables map[string]string, mu *sync.Mutex) eng.Hooks {
	name := lib.Name(root)
	str, boolT := types.Typ[types.String], types.Typ[types.Bool]
	kind := func(st *eng.State, key *eng.Val) (string, []*eng.Val) {
		pre, holes := keyParts(st, key)
		mu.Lock()
		defer mu.Unlock()
		return tables[pre], holes
	}
	logOf := func(v *eng.Val) *eng.Val { // the entry a *Log was taken from
		v = lib.Strip(v)
		for i := 0; i < 4; i++ {
			if v.K == eng.KFld && is(v.Args[0].Typ, entryT) {
				return v.Args[0]
			}
			if is(v.Typ, entryT) && v.K == eng.KSym {
				return v
			}
			if v.K == eng.KLoad && v.Args[0].K == eng.KField {
				v = v.Args[0].Args[0]
				continue
			}
			break
		}
		return nil
	}
	// the ID of the log an expression stands for: S.Log.ID is the ID the entry S
	// was read by
	idOf := func(st *eng.State, id *eng.Val) *eng.Val {
		id = lib.Strip(id)
		if (id.K == eng.KLoad || id.K == eng.KFld) && strings.HasSuffix(id.String(), ".ID") {
			var s *eng.Val
			id.Walk(func(x *eng.Val) bool {
				if x.K == eng.KSym && is(x.Typ, entryT) {
					s = x
				}
				return s == nil
			})
			if s != nil {
				if t, ok := st.TS["entry:"+itoa(s.ID)]; ok && len(t.V) > 1 {
					return t.V[1]
				}
			}
		}
		return id
	}
	alive := func(st *eng.State, tx, id *eng.Val) bool {
		return st.Has("alive:" + itoa(tx.ID) + ":" + itoa(id.ID))
	}
	shown := func(st *eng.State, v *eng.Val, pos token.Pos, how string) {
		if s := logOf(v); s != nil && deleted {
			r.Check(st.Has("live:"+itoa(s.ID)) || st.Has("asked"), "visible", name+": "+how, pos, st, "%s may give out a log without seeing that it is not deleted", name)
		}
	}
	sent := sentinels(p)
	foreign := func(st *eng.State, er *eng.Val) { // it is not one of the server's own errors
		for _, g := range sent {
			st.Assume(e.In.Node(eng.KCall, 0, "errors.Is", boolT, er, globalVal(st, g)), false)
		}
	}
	useTx := func(st *eng.State, c *eng.Call) {
		if !txs {
			return
		}
		tx := c.Args[0]
		if s := st.Get("tx:" + itoa(tx.ID)); s != "" {
			r.Check(s == "open", "open-transaction", name+": "+c.Name()[strings.LastIndex(c.Name(), ".")+1:], c.Pos(), st, "%s uses a transaction after it was completed", name)
		}
	}
	return eng.Hooks{
		Branch: func(st *eng.State, fr *eng.Frame, in *ssa.If, cond *eng.Val, taken bool) {
			c := cond
			for c.K == eng.KUn && c.Op == token.NOT {
				c, taken = c.Args[0], !taken
			}
			if c.K == eng.KCall && c.Name == "errors.Is" && taken && strings.HasSuffix(c.Args[1].String(), "ErrNotFound") {
				if t, ok := st.TS["kept:"+itoa(c.Args[0].ID)]; ok { // it was not there
					st.Del("chunk:" + itoa(t.V[0].ID))
				}
			}
			if s := logOf(c); s != nil && fieldIs(c, "Deleted") {
				if !taken {
					st.Set("live:"+itoa(s.ID), "", s)
					if t, ok := st.TS["entry:"+itoa(s.ID)]; ok && len(t.V) > 1 {
						st.Set("alive:"+itoa(t.V[0].ID)+":"+itoa(t.V[1].ID), "", t.V...)
					}
				}
				return
			}
			if fieldIs(c, "Deleted") && taken {
				st.Set("asked", "")
			}
			if fieldIs(c, "MarkOnly") && !taken {
				st.Set("asked", "")
				st.Set("physically", "")
			}
		},
		Call: func(st *eng.State, c *eng.Call) *eng.Result {
			if c.Kind == eng.CKDefer {
				return nil
			}
			switch c.Name() {
			case "builtin.append":
				if len(c.Args) > 1 {
					for _, v := range st.VarArgs(c.Args[1]) {
						shown(st, v, c.Pos(), "listed")
						st.Del("unreported:" + itoa(idOf(st, v).ID))
					}
				}
			case "(*github.com/tidwall/buntdb.DB).Begin":
				if txs {
					r.Check(len(st.KeysPrefix("open:")) == 0, "one-transaction", name, c.Pos(), st, "%s begins a transaction while another one is open: they wait for each other forever", name)
				}
			case btx + "Commit", btx + "Rollback":
				t := itoa(c.Args[0].ID)
				if c.Name() == btx+"Rollback" && st.Get("tx:"+t) == "open" && st.Has("changed:"+t) {
					st.Set("rolledback", "")
				}
				if c.Name() == btx+"Commit" {
					if txs {
						useTx(st, c)
						if st.Has("changed:" + t) {
							r.Check(!st.Has("committed"), "atomic", name, c.Pos(), st, "%s commits its changes in several transactions: a failure in between leaves it half done", name)
							st.Set("committed", "")
						}
					}
				}
				if deleted && c.Name() == btx+"Commit" {
					for _, k := range st.KeysPrefix("gone:") {
						id := strings.TrimPrefix(k, "gone:")
						r.Check(st.Has("ranged:"+id) && !st.Has("chunk:"+id), "chunks-go-too", name, c.Pos(), st, "%s removes a log and leaves its chunks", name)
					}
				}
				st.Del("changed:" + t)
				st.Del("open:" + t)
				st.Set("tx:"+t, "closed")
			case btx + "Get", btx + "Ascend", btx + "AscendRange", btx + "DescendRange", btx + "AscendGreaterOrEqual", btx + "DescendLessOrEqual", btx + "Descend", btx + "AscendKeys":
				useTx(st, c)
				st.Set("source", "", c.Args[0])
				i := 1
				if c.Name() != btx+"Get" {
					i = 2
				}
				k, ids := kind(st, c.Args[i])
				if c.Name() == btx+"Get" && k == "log" && len(ids) == 1 {
					id := idOf(st, ids[0])
					st.Set("source", "", c.Args[0], id)
					st.Del("alive:" + itoa(c.Args[0].ID) + ":" + itoa(id.ID))
				}
				if k == "chunk" && len(ids) > 0 && c.Name() != btx+"Get" && len(c.Args) > 3 {
					// all the chunks of the log: from the lowest to the highest
					lo, hi := textOf(st, c.Args[2], nil), textOf(st, c.Args[3], nil)
					if len(lo) > 0 && len(hi) > 0 && lo[len(lo)-1].v == nil && hi[len(hi)-1].v == nil && lo[len(lo)-1].s < hi[len(hi)-1].s && strings.HasPrefix(hi[len(hi)-1].s, lo[len(lo)-1].s) {
						st.Set("ranged:"+itoa(idOf(st, ids[0]).ID), "")
						st.Set("ranging", "", idOf(st, ids[0]))
					}
				}
			case "encoding/json.Marshal":
				return nil
			case btx + "Set":
				useTx(st, c)
				tx := c.Args[0]
				st.Set("changed:"+itoa(tx.ID), "")
				if txs {
					if w := st.Get("open:" + itoa(tx.ID)); w != "" {
						r.Check(w == "writable", "writable", name+": Set", c.Pos(), st, "%s writes in a read-only transaction", name)
					}
				}
				m, ok := st.TS["marshalled"]
				if !ok {
					r.Check(false, "anchor", name+": Set", c.Pos(), st, "%s: what is stored is not recognised", name)
					return nil
				}
				E := m.V[0]
				pre, ids := keyParts(st, c.Args[1])
				k := "chunk"
				if is(E.Typ, entryT) {
					k = "log"
				}
				mu.Lock()
				tables[pre] = k
				mu.Unlock()
				if !deleted || len(ids) == 0 {
					return nil
				}
				id := idOf(st, ids[0])
				if k == "chunk" {
					r.Check(alive(st, tx, id), "no-chunks-for-deleted", name, c.Pos(), st, "%s stores a chunk without seeing in the same transaction that its log exists and is not deleted", name)
					return nil
				}
				if s := logOf(st.FieldOf(E, "Log", nil)); s != nil {
					r.Check(alive(st, tx, id) || st.Has("live:"+itoa(s.ID)), "stays-deleted", name, c.Pos(), st, "%s changes a log without seeing in the same transaction that it is not deleted", name)
					if st.Has("unmarked:" + itoa(id.ID)) {
						st.Del("unmarked:" + itoa(id.ID))
					}
					d, known := st.Eval(st.FieldOf(E, "Deleted", boolT))
					if known && d {
						st.Set("unreported:"+itoa(id.ID), "", id)
					}
				} else {
					r.Check(madeBy(id, "golibs/ulidutils.NewID"), "new-id", name, c.Pos(), st, "%s stores a new log under an ID that may be taken", name)
				}
				_ = str
			case btx + "Delete":
				useTx(st, c)
				tx := c.Args[0]
				st.Set("changed:"+itoa(tx.ID), "")
				if txs {
					if w := st.Get("open:" + itoa(tx.ID)); w != "" {
						r.Check(w == "writable", "writable", name+": Delete", c.Pos(), st, "%s deletes in a read-only transaction", name)
					}
				}
				if deleted {
					r.Check(st.Has("physically"), "mark-only", name, c.Pos(), st, "%s removes data though the request may ask to mark the log only", name)
				}
				ref, ok := c.Instr.(ssa.Value)
				if !ok {
					return nil
				}
				res := c.Common.Signature().Results()
				val, er := e.In.Sym(c.Frame.Ctx, ref, "#0", res.At(0).Type()), e.In.Sym(c.Frame.Ctx, ref, "#1", res.At(1).Type())
				return &eng.Result{Outcomes: []eng.Outcome{
					{Rets: []*eng.Val{val, e.In.Nil()}},
					{Rets: []*eng.Val{val, er}, Do: func(st *eng.State) {
						st.Forget(er)
						st.Assume(e.Eq(er, e.In.Nil()), false)
						foreign(st, er)
					}},
				}}
			}
			return nil
		},
		After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
			if n := c.Name(); len(rets) > 0 && (n == "(context.Context).Err" || strings.HasPrefix(n, btx)) && !st.IsNil(rets[len(rets)-1]) {
				foreign(st, rets[len(rets)-1])
			}
			switch c.Name() {
			case "(*github.com/tidwall/buntdb.DB).Begin":
				t := itoa(rets[0].ID)
				w := "?"
				if b, ok := st.Eval(c.Args[1]); ok {
					w = map[bool]string{true: "writable", false: "read-only"}[b]
				}
				st.Set("open:"+t, w, rets[1])
				st.Set("tx:"+t, "open")
			case "encoding/json.Marshal":
				v := lib.Strip(c.Args[0])
				if v.K == eng.KAlloc || is(v.Typ, entryT) && v.Typ.Underlying() != entryT.Underlying() {
					v = st.Load(v, nil)
				}
				st.Set("marshalled", "", v)
			case "encoding/json.Unmarshal":
				ptr := lib.Strip(c.Args[1])
				s := st.Load(ptr, nil)
				if is(s.Typ, entryT) {
					src := st.TS["source"]
					st.Set("entry:"+itoa(s.ID), "", src.V...)
					st.Del("live:" + itoa(s.ID))
				}
				if is(s.Typ, chunkT) && deleted {
					if t, ok := st.TS["ranging"]; ok {
						st.Set("chunk:"+itoa(t.V[0].ID), "")
					}
				}
			case btx + "AscendRange":
				st.Del("ranging")
			case btx + "Delete":
				k, ids := kind(st, c.Args[1])
				er := rets[1]
				if !st.IsNil(er) {
					if k == "chunk" && len(ids) == 2 {
						st.Set("kept:"+itoa(er.ID), "", idOf(st, ids[0]))
					}
					return
				}
				switch {
				case k == "log" && len(ids) == 1:
					id := idOf(st, ids[0])
					st.Set("gone:"+itoa(id.ID), "", er)
					st.Set("unreported:"+itoa(id.ID), "", er)
				case k == "chunk" && len(ids) == 2:
					st.Del("chunk:" + itoa(idOf(st, ids[0]).ID))
				}
			}
		},
		Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
			pos := eng.InstrPos(in)
			er := rets[len(rets)-1]
			failed := st.IsNonNil(er)
			if txs {
				for _, k := range st.KeysPrefix("open:") {
					t := st.TS[k]
					r.Check(len(t.V) > 0 && st.IsNonNil(t.V[0]), "completed", name, pos, st, "%s leaves its transaction open: the next one waits for it forever", name)
				}
				if !failed {
					r.Check(!st.Has("rolledback"), "committed", name, pos, st, "%s reports success though its changes are rolled back", name)
				}
				if !st.IsNil(er) {
					r.Check(!st.Has("committed"), "failed-changes-nothing", name, pos, st, "%s reports a failure though it has changed the storage", name)
				}
			}
			if !deleted || failed {
				return
			}
			if len(rets) == 2 {
				shown(st, rets[0], pos, "returned")
			}
			if meta {
				seen := false
				for _, k := range st.KeysPrefix("alive:") {
					seen = seen || strings.HasSuffix(k, ":"+itoa(e.In.Param(root, 2).ID))
				}
				r.Check(seen, "chunks-of-deleted", name, pos, st, "%s succeeds without seeing that the log exists and is not deleted", name)
			}
			r.Check(len(st.KeysPrefix("unreported:")) == 0, "reported", name, pos, st, "%s deletes a log and does not report it as deleted", name)
		},
	}
}

// fieldIs: the value is the field of some struct.
func fieldIs(v *eng.Val, name string) bool {
	v = lib.Strip(v)
	return v.K == eng.KFld && v.Name == name || v.K == eng.KLoad && v.Args[0].K == eng.KField && v.Args[0].Name == name
}

// madeBy: the value is the result of a call of fn.
func madeBy(v *eng.Val, fn string) bool {
	c, ok := v.Ref.(*ssa.Call)
	return v.K == eng.KSym && ok && lib.CallName(c) == fn
}

func init() {
	register("C16", func(p *lib.Prog, r *lib.Report) {
		buntWalk(p, r, true, false)
		pgDeleted(p, r)
	}, "")
	register("C20", func(p *lib.Prog, r *lib.Report) {
		buntWalk(p, r, false, true)
	}, "")
}
