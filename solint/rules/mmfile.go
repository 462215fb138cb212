package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// mmFile decides the mapped file: the recorded size is the mapped size, the
// file is extended before it is mapped, nothing slices outside of the mapping,
// a failed growth leaves the file closed.
func mmFile(p *lib.Prog, r *lib.Report) {
	const pk = "golibs/files"
	mt := p.Named(pk, "MMFile")
	if mt == nil {
		r.Bad("anchor", "MMFile", token.NoPos, nil, "type not found")
		return
	}
	ms := mt.Underlying().(*types.Struct)
	mf := fieldOfType(ms, "mf", func(t types.Type) bool { return strings.HasSuffix(t.String(), ".MMap") })
	sz := fieldOfType(ms, "size", isIntT)
	ff := fieldOfType(ms, "f", func(t types.Type) bool { return t.String() == "*os.File" })
	if mf == "" || sz == "" || ff == "" {
		r.Bad("anchor", "MMFile", mt.Obj().Pos(), nil, "the mapping, size or file field is not there")
		return
	}
	roots := p.Methods(pk, "MMFile")
	if f := r.Need(pk + ".NewMMFile"); f != nil {
		roots = append(roots, f)
	}
	var exported []*ssa.Function
	for _, f := range roots {
		if f.Object().Exported() {
			exported = append(exported, f)
		}
	}
	fieldLoad := func(v *eng.Val, n string) bool {
		v = lib.Strip(v)
		return v.K == eng.KLoad && v.Args[0].K == eng.KField && v.Args[0].Name == n
	}
	j := &lib.Job{P: p, R: r, Roots: exported}
	j.Init = func(e *eng.Engine, root *ssa.Function, st *eng.State) {
		if root.Name() == "Grow" {
			recv := e.In.Param(root, 0)
			for i := 0; i < ms.NumFields(); i++ {
				if n := ms.Field(i).Name(); n == ff || n == mf {
					v := st.Load(e.In.Node(eng.KField, 0, n, ms.Field(i).Type(), recv), ms.Field(i).Type())
					st.Assume(e.Eq(v, e.In.Nil()), false)
				}
			}
		}
	}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				switch c.Name() {
				case "github.com/edsrzf/mmap-go.MapRegion":
					n := lib.Strip(c.Args[1])
					ok := n.K == eng.KCall && n.Name == "(io/fs.FileInfo).Size"
					if t, has := st.TS["trunc"]; has && lib.Strip(t.V[0]) == n && st.IsNil(t.V[1]) {
						ok = true
					}
					r.Check(ok, "file-covers-mapping", name, c.Pos(), st, "%s bytes are mapped although the file is not known to be that long: touching the tail kills the process", n)
					st.Set("map", "", n)
				case "(*os.File).Truncate":
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				switch c.Name() {
				case "(*os.File).Truncate":
					st.Set("trunc", "", c.Args[1], rets[0])
				case "github.com/edsrzf/mmap-go.MapRegion":
					st.Set("map", "", lib.Strip(c.Args[1]), rets[0], rets[1])
				case "(*github.com/edsrzf/mmap-go.MMap).Unmap":
					st.Set("unmapped", "")
				}
			},
			Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
				x, ok := in.(*ssa.Slice)
				if !ok {
					return
				}
				v := e.Env(st, fr, x.X)
				if !fieldLoad(v, mf) {
					return
				}
				bound := func(y ssa.Value) *eng.Val {
					if y == nil {
						return nil
					}
					return lib.Strip(e.Env(st, fr, y))
				}
				lo, hi := bound(x.Low), bound(x.High)
				good := lo != nil && hi != nil
				lowOK, highOK, endOK := false, false, false
				if good {
					eq := func(a, b *eng.Val) bool { return lib.Linear(a).Sub(lib.Linear(b)).String() == "0" }
					st.EachFact(func(f *eng.Val, b bool) {
						if f.K != eng.KBin || f.Op != token.LSS {
							return
						}
						l, g := f.Args[0], f.Args[1]
						if n, isC := eng.ConstInt(g); isC && n <= 0 && !b && eq(l, lo) { // !(lo < 0)
							lowOK = lowOK || n == 0
						}
						if b && eq(l, lo) && fieldLoad(g, sz) {
							highOK = true
						}
						if b && eq(l, hi) && fieldLoad(g, sz) {
							endOK = true
						}
					})
					d := lib.Linear(hi)
					if len(d.Coef) == 1 && d.C == 0 {
						for k, c := range d.Coef {
							if c == 1 && fieldLoad(k, sz) {
								endOK = true
							}
						}
					}
				}
				if good { // or it follows from what is known
					for x := range lib.Linear(hi).Coef {
						endOK = endOK || fieldLoad(x, sz) && lib.Entails(st, lib.Linear(x).Sub(lib.Linear(hi)))
					}
					st.EachFact(func(f *eng.Val, b bool) {
						if endOK || f.K != eng.KBin {
							return
						}
						for _, x := range f.Args {
							if x = lib.Strip(x); fieldLoad(x, sz) {
								endOK = endOK || lib.Entails(st, lib.Linear(x).Sub(lib.Linear(hi)))
							}
						}
					})
				}
				r.Check(lowOK && highOK, "mapping-in-bounds", name, x.Pos(), st, "the mapping is sliced from %s, which is not known to be within it", lo)
				r.Check(endOK, "mapping-in-bounds", name, x.Pos(), st, "the mapping is sliced up to %s, which is not known to be within it", hi)
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				n := len(rets)
				if n == 0 || root.Signature.Results().At(n-1).Type().String() != "error" {
					return
				}
				if root.Name() != "Grow" && root.Name() != "NewMMFile" {
					return
				}
				var obj *eng.Val
				if root.Name() == "Grow" {
					obj = e.In.Param(root, 0)
				} else {
					obj = rets[0]
				}
				fld := func(n string) *eng.Val {
					for i := 0; i < ms.NumFields(); i++ {
						if ms.Field(i).Name() == n {
							return st.Load(e.In.Node(eng.KField, 0, n, ms.Field(i).Type(), obj), ms.Field(i).Type())
						}
					}
					return nil
				}
				if st.IsNil(rets[n-1]) {
					t, ok := st.TS["map"]
					if !ok {
						return
					}
					r.Check(lib.Strip(fld(sz)) == t.V[0], "mapped-size-recorded", name, root.Pos(), st, "the file is mapped for %s bytes but its size is recorded as %s", t.V[0], fld(sz))
					r.Check(len(t.V) > 2 && fld(mf) == t.V[1] && st.IsNil(t.V[2]), "mapped-size-recorded", name, root.Pos(), st, "success is reported although mapping the file is not known to have succeeded")
					if root.Name() == "Grow" {
						r.Check(st.Has("unmapped"), "old-mapping-dropped", name, root.Pos(), st, "the file is mapped again without dropping the old mapping")
					}
					return
				}
				if root.Name() == "Grow" && st.Has("unmapped") {
					s := lib.Linear(fld(sz))
					r.Check(st.IsNil(fld(mf)) || len(st.TS["map"].V) > 2 && fld(mf) == st.TS["map"].V[1], "failed-growth-closes", name, root.Pos(), st, "growing fails and the released mapping stays in use")
					r.Check(s.IsConst() && s.C <= 0, "failed-growth-closes", name, root.Pos(), st, "growing fails after the mapping was released, but the file still claims %s mapped bytes", fld(sz))
				}
			},
		}
	}
	j.Do(nil)
	r.Floor("file-covers-mapping", 2)
	r.Floor("mapping-in-bounds", 1)
	r.Floor("mapped-size-recorded", 2)
	r.Floor("failed-growth-closes", 1)
}

// metaCodec compares the layout the records index is written with and the one
// it is read with.
func metaCodec(p *lib.Prog, r *lib.Report) {
	count := func(f *ssa.Function, sub string) int {
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c := lib.CallName(in); strings.HasPrefix(c, "(encoding/binary.") && strings.Contains(c, sub) {
					n++
				}
			}
		}
		return n
	}
	var wr, rd []*ssa.Function
	for _, f := range p.InPkg(cfs) {
		if f.Signature.Recv() == nil {
			continue
		}
		if _, ok := f.Signature.Recv().Type().Underlying().(*types.Slice); !ok {
			continue
		}
		if count(f, ".PutUint") > 0 {
			wr = append(wr, f)
		}
		if count(f, ".Uint") > 0 {
			rd = append(rd, f)
		}
	}
	if len(wr) != 1 || len(rd) != 1 {
		r.Note("record index codec: no single reader/writer pair of methods on the index buffer type; not compared")
		return
	}
	type span struct{ off, width int64 }
	layout := map[string]map[string]bool{"w": {}, "r": {}}
	var mu sync.Mutex
	collect := func(kind string, f *ssa.Function) {
		j := &lib.Job{P: p, R: r, Roots: []*ssa.Function{f}}
		j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
			buf, idx := e.In.Param(root, 0), e.In.Param(root, 1)
			add := func(field, how string, s *eng.Val, w int64) {
				lo := lib.Linear(s.Args[1])
				if s.Args[2].K != eng.KNil {
					if d := lib.Linear(s.Args[2]).Sub(lo); d.IsConst() {
						w = d.C
					}
				}
				mu.Lock()
				defer mu.Unlock()
				layout[kind][fmt.Sprintf("%s %s at [%s, width %d]", field, how, lo.Render(func(v *eng.Val) string {
					if v == idx {
						return "idx"
					}
					if v.K == eng.KLen && v.Args[0] == buf {
						return "len"
					}
					return v.String()
				}), w)] = true
			}
			isBuf := func(v *eng.Val) bool { v = lib.Strip(v); return v.K == eng.KSlice && v.Args[0] == buf }
			field := func(v *eng.Val) string {
				n := ""
				v.Walk(func(x *eng.Val) bool {
					if x.K == eng.KField || x.K == eng.KFld {
						n = x.Name
						return false
					}
					return n == ""
				})
				return n
			}
			return eng.Hooks{
				Call: func(st *eng.State, c *eng.Call) *eng.Result {
					n := c.Name()
					if n == "builtin.copy" {
						d, s := c.Args[0], c.Args[1]
						if isBuf(d) {
							add(field(s), "bytes", lib.Strip(d), -1)
						} else if isBuf(s) {
							add(field(d), "bytes", lib.Strip(s), -1)
						}
					}
					if strings.HasPrefix(n, "(encoding/binary.") && strings.Contains(n, ".PutUint") && isBuf(c.Args[1]) {
						add(field(c.Args[2]), strings.Replace(strings.TrimPrefix(n, "(encoding/binary."), ".PutUint", ".Uint", 1), lib.Strip(c.Args[1]), -1)
					}
					return nil
				},
				Store: func(st *eng.State, fr *eng.Frame, a, v *eng.Val, in ssa.Instruction) {
					x := lib.Strip(v)
					if a.K == eng.KField && x.K == eng.KCall && strings.HasPrefix(x.Name, "(encoding/binary.") && len(x.Args) > 1 && isBuf(x.Args[1]) {
						add(a.Name, strings.TrimPrefix(x.Name, "(encoding/binary."), lib.Strip(x.Args[1]), -1)
					}
				},
			}
		}
		j.Do(nil)
	}
	collect("w", wr[0])
	collect("r", rd[0])
	keys := func(m map[string]bool) string {
		var l []string
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return strings.Join(l, "; ")
	}
	if len(layout["w"]) == 0 || len(layout["r"]) == 0 {
		r.Note("record index codec: the layout is not visible to the analysis")
		return
	}
	r.Note("index layout %s", keys(layout["w"]))
	r.Check(keys(layout["w"]) == keys(layout["r"]), "index-codec-agrees", lib.Name(wr[0])+" / "+lib.Name(rd[0]), wr[0].Pos(), nil, "the records index is written as {%s} but read as {%s}", keys(layout["w"]), keys(layout["r"]))
}
