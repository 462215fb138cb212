package rules

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

const rdrT = "(*pkg/storage/chunkfs.ChunkReader)."

// readerUse checks the users of chunk readers and borrowed chunks: opened
// readers are used only while open and closed exactly once before the chunk is
// released; every borrowed chunk is released exactly once.
func readerUse(p *lib.Prog, r *lib.Report, on func(rule string) bool) {
	isEv := func(n string) bool {
		return n == chkT+"OpenChunkReader" || strings.HasPrefix(n, rdrT) || n == provT+"GetOpenedChunk" || n == provT+"ReleaseChunk"
	}
	var sites []ssa.CallInstruction
	pk := map[string]bool{}
	for _, s := range p.Sites(isEv) {
		k := lib.PkgOf(s.Parent())
		if k != cfs {
			sites = append(sites, s)
			pk[k] = true
		}
	}
	rel := p.Reaching(func(f *ssa.Function, in ssa.Instruction) bool {
		return isEv(lib.CallName(in)) && lib.PkgOf(f) != cfs
	})
	var pkgs []string
	for k := range pk {
		pkgs = append(pkgs, k)
	}
	j := &lib.Job{P: p, R: r, Roots: p.Roots(pkgs...), Relevant: rel, KeepFact: lib.KeepNil, NoInline: func(root, f *ssa.Function) bool {
		k := lib.PkgOf(f)
		return k == cfs || k == "golibs/container/lru"
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		chk := func(ok bool, rule string, pos token.Pos, st *eng.State, f string, a ...any) {
			if on(rule) {
				r.Check(ok, rule, name, pos, st, f, a...)
			}
		}
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				n := c.Name()
				if c.Kind == eng.CKDefer {
					return nil
				}
				if strings.HasPrefix(n, rdrT) {
					k := "rd:" + itoa(c.Args[0].ID)
					t, ok := st.TS[k]
					if !ok {
						if c.Args[0].K == eng.KParam {
							return nil
						}
						chk(false, "reader-used-while-open", c.Pos(), st, "a chunk reader that was not opened on this path (or is closed already) is used")
						return nil
					}
					chk(st.IsNil(t.V[1]) || st.IsNonNil(t.V[0]), "reader-used-while-open", c.Pos(), st, "the reader is used although opening it may have failed")
					if n == rdrT+"Close" {
						st.Del(k)
					}
				}
				if n == chkT+"OpenChunkReader" {
					if b, ok := borrowed(st, c.Args[0]); ok {
						chk(st.IsNil(b.V[1]), "borrowed-before-use", c.Pos(), st, "the chunk is used although borrowing it may have failed")
					}
				}
				if n == provT+"GetOpenedChunk" {
					for _, k := range st.KeysPrefix("rc:") {
						if t := st.TS[k]; t.V[0].Ref != nil && t.V[0].Ref == resultOf(c) {
							chk(st.IsNonNil(t.V[1]), "borrowed-chunk-released", c.Pos(), st, "the chunk borrowed in the previous iteration is not released")
							st.Del(k)
						}
					}
				}
				if n == provT+"ReleaseChunk" {
					v := st.Load(c.Args[1], nil)
					var key string
					for _, k := range st.KeysPrefix("rc:") {
						if st.TS[k].V[0] == v || v != nil && st.TS[k].V[0].Contains(v) || v != nil && v.Contains(st.TS[k].V[0]) {
							key = k
						}
					}
					if key == "" {
						chk(c.Args[1].K == eng.KParam, "borrowed-chunk-released", c.Pos(), st, "releases a chunk that was not borrowed on this path or was released already")
						return nil
					}
					for _, k := range st.KeysPrefix("rd:") {
						t := st.TS[k]
						chk(st.IsNonNil(t.V[1]), "reader-closed-before-release", c.Pos(), st, "the chunk is released while its reader is open: the cache may close the chunk under the reader")
					}
					chk(true, "reader-closed-before-release", c.Pos(), st, "")
					st.Del(key)
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				switch c.Name() {
				case chkT + "OpenChunkReader":
					st.Set("rd:"+itoa(rets[0].ID), "", rets[0], rets[1])
				case provT + "GetOpenedChunk":
					st.Set("rc:"+itoa(rets[0].ID), "", rets[0], rets[1])
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				for _, k := range st.KeysPrefix("rd:") {
					t := st.TS[k]
					ret := false
					for _, v := range rets {
						ret = ret || v == t.V[0]
					}
					chk(ret || st.IsNonNil(t.V[1]), "reader-closed", root.Pos(), st, "%s returns with a chunk reader open: appends to and closing of the chunk block forever", name)
				}
				for _, k := range st.KeysPrefix("rc:") {
					t := st.TS[k]
					ret := false
					for _, v := range rets {
						ret = ret || v == t.V[0]
					}
					chk(ret || st.IsNonNil(t.V[1]), "borrowed-chunk-released", root.Pos(), st, "%s returns without releasing the chunk it borrowed: the cache slot is never reused", name)
				}
				chk(true, "reader-closed", root.Pos(), st, "")
				chk(true, "borrowed-chunk-released", root.Pos(), st, "")
			},
			Panic: nil,
		}
	}
	j.Do(sites)
}

// borrowed: the value is derived from a borrowed chunk.
func borrowed(st *eng.State, v *eng.Val) (eng.TS, bool) {
	for _, k := range st.KeysPrefix("rc:") {
		if v.Contains(st.TS[k].V[0]) {
			return st.TS[k], true
		}
	}
	return eng.TS{}, false
}

// payloadCopied follows the mapped payloads out of the reader: they may be
// measured, compared and copied, but not kept.
func payloadCopied(p *lib.Prog, r *lib.Report) {
	var src []ssa.Value
	key := cfs + ".UnsafeRecord.UnsafePayload"
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if lib.FieldAddrKey(x) == key {
						for _, ref := range *x.Referrers() {
							if u, ok := ref.(*ssa.UnOp); ok {
								src = append(src, u)
							}
						}
					}
				case *ssa.Field:
					if lib.FieldKey(x) == key {
						src = append(src, x)
					}
				}
			}
		}
	}
	t := &lib.Taint{P: p}
	bad := func(f *ssa.Function, in ssa.Instruction, v ssa.Value, what string) {
		r.Bad("payload-copied-out", lib.Name(f), eng.InstrPos(in), nil, "%s keeps the mapped payload itself (%s): after the reader is closed the memory may be re-mapped; flow: %s", lib.Name(f), what, strings.Join(t.Path(v), " | "))
	}
	t.Pass = func(f *ssa.Function, in ssa.Instruction, a ssa.Value) bool {
		switch x := in.(type) {
		case *ssa.Convert:
			// []byte <-> string copies, named []byte types do not
			return strings.Contains(x.Type().String(), "unsafe.Pointer")
		case *ssa.BinOp, *ssa.Index, *ssa.Lookup:
			return false
		case *ssa.IndexAddr:
			return false
		case ssa.CallInstruction:
			n := lib.CallName(in)
			switch n {
			case "builtin.append":
				// append(b, payload...) copies the bytes; append(list, payload) goes through a store
				return len(x.Common().Args) > 0 && x.Common().Args[0] == a
			case "builtin.len", "builtin.cap", "builtin.copy", "bytes.Clone", "slices.Clone", "bytes.Equal", "bytes.Compare":
				return false
			}
			return strings.HasPrefix(n, "bytes.") || strings.HasPrefix(n, "unsafe.") || strings.HasPrefix(n, "builtin.")
		}
		return true
	}
	t.Sink = func(f *ssa.Function, in ssa.Instruction, v ssa.Value) {
		switch x := in.(type) {
		case *ssa.Store:
			if x.Val != v {
				return
			}
			a := x.Addr
			for {
				if ia, ok := a.(*ssa.IndexAddr); ok {
					a = ia.X
					continue
				}
				break
			}
			if fa, ok := a.(*ssa.FieldAddr); ok {
				if k := lib.FieldAddrKey(fa); k != key {
					bad(f, in, v, "stored into "+k)
				}
				return
			}
			if _, ok := a.(*ssa.Global); ok {
				bad(f, in, v, "stored into a global")
			}
		case *ssa.MapUpdate:
			bad(f, in, v, "stored into a map")
		case *ssa.Send:
			bad(f, in, v, "sent to a channel")
		case *ssa.Go:
			bad(f, in, v, "handed to a goroutine")
		case *ssa.Return:
			if f.Object() != nil && f.Object().Exported() && lib.PkgOf(f) == lfs {
				bad(f, in, v, "returned")
			}
		}
	}
	t.Run(src)
	for _, s := range src {
		r.Ok("payload-copied-out", lib.Name(s.Parent()), s.Pos())
		r.AddFunc(s.Parent())
	}
	r.Floor("payload-copied-out", 1)
}

// resultOf is the SSA value of a call instruction.
func resultOf(c *eng.Call) ssa.Value {
	v, _ := c.Instr.(ssa.Value)
	return v
}
