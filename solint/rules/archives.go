package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

func init() {
	register("C28", archives, "")
}

const filesPkg = "golibs/files"

// pathFns are functions of paths and names that are kept as terms.
var pathFns = map[string]bool{
	"path/filepath.Join": true, "path.Join": true, "path/filepath.Clean": true, "path.Clean": true, "path/filepath.Base": true, "path.Base": true,
	"path/filepath.Dir": true, "path.Dir": true, "path/filepath.ToSlash": true, "path/filepath.FromSlash": true, "path/filepath.IsLocal": true,
	"strings.TrimLeft": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.TrimRight": true, "strings.Trim": true,
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.TrimSpace": true,
	"path/filepath.Split": true, "path.Split": true, "path/filepath.Rel": true, "path/filepath.Localize": true,
}

// pathTerm keeps a function of paths as a term.
func pathTerm(st *eng.State, e *eng.Engine, c *eng.Call) *eng.Result {
	n := c.Name()
	if !pathFns[n] || c.Kind == eng.CKDefer {
		return nil
	}
	args := c.Args
	if strings.HasSuffix(n, ".Join") && len(args) == 1 {
		args = nil
		for _, a := range st.VarArgs(c.Args[0]) {
			args = append(args, lib.Strip(a))
		}
		if len(args) == 0 {
			return nil
		}
	}
	sig := c.Common.Signature().Results()
	node := func(name string, i int) *eng.Val { return e.In.Node(eng.KCall, 0, name, sig.At(i).Type(), args...) }
	switch {
	case strings.HasSuffix(n, ".Split"):
		return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{node(n+".dir", 0), node(n+".base", 1)}}}}
	case sig.Len() == 2:
		er := e.In.NamedSym("failed "+n, sig.At(1).Type())
		return &eng.Result{Outcomes: []eng.Outcome{
			{Rets: []*eng.Val{node(n, 0), e.In.Nil()}},
			{Rets: []*eng.Val{e.In.Zero(sig.At(0).Type()), er}, Do: func(s *eng.State) { s.Assume(e.Eq(er, e.In.Nil()), false) }},
		}}
	}
	return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{node(n, 0)}}}}
}

// entryName: v is the name of an entry of an archive.
func entryName(v *eng.Val) (entry *eng.Val) {
	v = lib.Strip(v)
	if v.K != eng.KLoad || v.Args[0].K != eng.KField || v.Args[0].Name != "Name" {
		return nil
	}
	a := v.Args[0].Args[0]
	if a.K == eng.KField && a.Name == "FileHeader" {
		a = a.Args[0]
	}
	if strings.Contains(valType(a), "archive/zip.File") {
		return a
	}
	return nil
}

func valType(v *eng.Val) string {
	if v.Typ == nil {
		return ""
	}
	return deref(v.Typ).String()
}

// nameIn finds the entry whose name the path is made of.
func nameIn(v *eng.Val) (entry *eng.Val) {
	v.Walk(func(x *eng.Val) bool {
		if y := entryName(x); y != nil {
			entry = y
		}
		return entry == nil
	})
	return
}

// whole: the path keeps the whole name of the entry.
func whole(v *eng.Val) bool {
	v = lib.Strip(v)
	if entryName(v) != nil {
		return true
	}
	if v.K == eng.KBin && v.Op == token.ADD {
		return whole(v.Args[0]) != whole(v.Args[1])
	}
	if v.K != eng.KCall || len(v.Args) == 0 {
		return false
	}
	switch n := v.Name; {
	case strings.HasSuffix(n, ".Join"):
		k := 0
		for i, a := range v.Args {
			a = lib.Strip(a)
			if whole(a) {
				k++
			} else if hasDir(a) && i+1 < len(v.Args) {
				b := lib.Strip(v.Args[i+1])
				if b.K == eng.KCall && (strings.HasSuffix(b.Name, ".base") || strings.HasSuffix(b.Name, ".Base")) && whole(b.Args[0]) {
					k++
				}
			}
		}
		return k == 1
	case strings.HasSuffix(n, ".Base"), strings.HasSuffix(n, ".base"), strings.HasSuffix(n, ".Dir"), strings.HasSuffix(n, ".dir"), strings.HasSuffix(n, ".IsLocal"):
		return false
	}
	if pathFns[v.Name] {
		return whole(v.Args[0])
	}
	return false
}

// hasDir: the path ends with the directory of the entry.
func hasDir(v *eng.Val) bool {
	v = lib.Strip(v)
	if v.K != eng.KCall {
		return false
	}
	if strings.HasSuffix(v.Name, ".dir") || strings.HasSuffix(v.Name, ".Dir") {
		return whole(v.Args[0])
	}
	return strings.HasSuffix(v.Name, ".Join") && hasDir(v.Args[len(v.Args)-1])
}

// checkedLocal: it is known that the name of the entry stays inside.
func checkedLocal(st *eng.State, entry *eng.Val) bool {
	return st.AnyFact(func(f *eng.Val, b bool) bool {
		for f.K == eng.KUn && f.Op == token.NOT {
			f, b = f.Args[0], !b
		}
		if f.K != eng.KCall || !b || nameIn(f) != entry {
			return false
		}
		if strings.HasSuffix(f.Name, ".IsLocal") {
			x := lib.Strip(f.Args[0])
			for x.K == eng.KCall && len(x.Args) > 0 && (strings.HasPrefix(x.Name, "strings.TrimLeft") || strings.HasPrefix(x.Name, "strings.TrimPrefix") || strings.HasSuffix(x.Name, ".Clean") || strings.HasSuffix(x.Name, "Slash")) {
				x = lib.Strip(x.Args[0])
			}
			return entryName(x) == entry
		}
		if f.Name == "strings.HasPrefix" {
			// of the composed path, with the separator
			x := lib.Strip(f.Args[0])
			joined := x.K == eng.KCall && (strings.HasSuffix(x.Name, ".Join") || strings.HasSuffix(x.Name, ".Clean")) && whole(x)
			ps := textOf(st, f.Args[1], nil)
			last := len(ps) > 1 && ps[len(ps)-1].v == nil && strings.HasSuffix(ps[len(ps)-1].s, "/")
			return joined && last && nameIn(f.Args[1]) == nil
		}
		return false
	})
}

// newFiles are the calls that make a file or directory with the name given.
var newFiles = map[string]int{"os.Create": 0, "os.OpenFile": 0, "os.Mkdir": 0, "os.MkdirAll": 0, "os.WriteFile": 0, "os.Symlink": 1, "os.Link": 1, "os.Rename": 1,
	"os.Remove": 0, "os.RemoveAll": 0, "os.Chmod": 0, "os.Truncate": 0}

// archives decides packing and unpacking: nothing is left out or mixed up, and
// nothing is written outside of the folder.
func archives(p *lib.Prog, r *lib.Report) {
	var roots, packers []*ssa.Function
	for _, f := range p.InPkg(filesPkg) {
		if f.Parent() != nil || f.Origin() != nil || len(f.Blocks) == 0 {
			continue
		}
		uses := false
		closure := false
		for g := range reachedFrom(f) {
			eachInstr(g, func(in ssa.Instruction) {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				n := lib.CallName(in)
				uses = uses || n == "(*archive/zip.File).Open" || n == "(*archive/zip.Writer).Create" || n == "os.Create" || n == "io.Copy"
				if (n == "path/filepath.Walk" || n == "path/filepath.WalkDir") && g == f {
					var w *ssa.Function
					switch a := c.Common().Args[1].(type) {
					case *ssa.MakeClosure:
						w = a.Fn.(*ssa.Function)
					case *ssa.Function:
						w = a
					case *ssa.ChangeType:
						if m, is := a.X.(*ssa.MakeClosure); is {
							w = m.Fn.(*ssa.Function)
						}
					}
					closure = true
					if w == nil {
						return
					}
					packs := false
					for h := range reachedFrom(w) {
						eachInstr(h, func(in ssa.Instruction) {
							packs = packs || lib.CallName(in) == "(*archive/zip.Writer).Create"
						})
					}
					if packs {
						packers = append(packers, w)
					}
				}
			})
		}
		if token.IsExported(f.Name()) && uses && !closure {
			roots = append(roots, f)
		}
		if token.IsExported(f.Name()) && f.Signature.Recv() == nil && closure && uses {
			roots = append(roots, f)
		}
	}
	if len(packers) == 0 || len(roots) < 3 {
		r.Bad("anchor", filesPkg, token.NoPos, nil, "packing and unpacking is not there")
		return
	}
	// the iterator gives out every entry once
	var iters []*ssa.Function
	if it := ifaceOf(p, filesPkg, "ZipIterator"); it != nil {
		for _, f := range implementers(p, []string{filesPkg}, it) {
			if f.Name() == "Next" {
				iters = append(iters, f)
			}
		}
	}
	all := append(append(append([]*ssa.Function{}, roots...), packers...), iters...)
	isPacker := map[*ssa.Function]bool{}
	for _, f := range packers {
		isPacker[f] = true
	}
	isIter := map[*ssa.Function]bool{}
	for _, f := range iters {
		isIter[f] = true
	}
	j := &lib.Job{P: p, R: r, Roots: all, NoHavoc: true, KeepFact: func(*eng.Val) bool { return true }, NoInline: func(root, f *ssa.Function) bool {
		return lib.PkgOf(f) != filesPkg || isIter[f] && f != root
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		if isIter[root] {
			return zipNext(r, e, root)
		}
		return archHooks(r, e, root, isPacker[root], func(c *eng.Call, n string) bool {
			return strings.HasSuffix(n, "files.ZipIterator).Next") || isIter[c.Fn] && c.Fn != nil
		})
	}
	j.Do(nil)
	r.Floor("inside", 2)
	r.Floor("unpacked", 4)
	r.Floor("packed", 3)
	r.Floor("every-entry", 2)
	r.Floor("closed", 2)
}

func zipNext(r *lib.Report, e *eng.Engine, root *ssa.Function) eng.Hooks {
	name := lib.Name(root)
	return eng.Hooks{Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
		pos := eng.InstrPos(in)
		x := lib.Strip(rets[0])
		self := e.In.Param(root, 0)
		if st.IsNil(x) {
			// all have been given out
			done := st.AnyFact(func(f *eng.Val, b bool) bool {
				if f.K != eng.KBin {
					return false
				}
				has := false
				f.Walk(func(y *eng.Val) bool { has = has || y.K == eng.KLen; return true })
				return has && f.Contains(self)
			})
			end := false
			st.EachFact(func(f *eng.Val, b bool) {
				f.Walk(func(y *eng.Val) bool {
					if y.K == eng.KLen {
						f.Walk(func(z *eng.Val) bool {
							if z.K == eng.KLoad && z.Args[0].K == eng.KField && z.Args[0].Args[0] == self && z.Typ != nil && isIntT(z.Typ) {
								end = end || lib.Entails(st, lib.Linear(z).Sub(lib.Linear(y)))
							}
							return true
						})
					}
					return true
				})
			})
			r.Check(done && end, "every-entry", name+": end", pos, st, "%s ends before every entry was given out", name)
			return
		}
		ok := false
		if x.K == eng.KLoad && x.Args[0].K == eng.KIndex {
			i := lib.Linear(x.Args[0].Args[1])
			if t, is := deref(self.Typ).Underlying().(*types.Struct); is {
				for k := 0; k < t.NumFields(); k++ {
					if !isIntT(t.Field(k).Type()) {
						continue
					}
					a := e.In.Node(eng.KField, 0, t.Field(k).Name(), nil, self)
					was := lib.Linear(e.In.Node(eng.KLoad, 0, "", t.Field(k).Type(), a))
					d, now := i.Sub(was), lib.Linear(st.Load(a, t.Field(k).Type())).Sub(was)
					ok = ok || d.IsConst() && d.C == 0 && now.IsConst() && now.C == 1
				}
			}
		}
		r.Check(ok, "every-entry", name, pos, st, "%s leaves an entry out or gives it out again", name)
	}}
}

func archHooks(r *lib.Report, e *eng.Engine, root *ssa.Function, packer bool, isNext func(*eng.Call, string) bool) eng.Hooks {
	name := lib.Name(root)
	nextEntry := func(st *eng.State, pos token.Pos) {
		if t, ok := st.TS["entry"]; ok && t.S != "done" && !st.IsNil(t.V[0]) {
			r.Check(false, "unpacked", name+": every entry", pos, st, "%s leaves an entry of the archive out", name)
		}
		st.Del("entry")
	}
	isDir := func(st *eng.State, entry *eng.Val) bool {
		return st.AnyFact(func(f *eng.Val, b bool) bool {
			for f.K == eng.KUn && f.Op == token.NOT {
				f, b = f.Args[0], !b
			}
			if f.K != eng.KCall || !b || !f.Contains(entry) {
				return false
			}
			if strings.HasSuffix(f.Name, ".IsDir") {
				return true
			}
			s, isS := eng.ConstString(lib.Strip(f.Args[len(f.Args)-1]))
			return f.Name == "strings.HasSuffix" && isS && s == "/" && entryName(f.Args[0]) == entry
		})
	}
	return eng.Hooks{
		Call: func(st *eng.State, c *eng.Call) *eng.Result {
			if c.Kind == eng.CKDefer {
				return nil
			}
			n := c.Name()
			if res := pathTerm(st, e, c); res != nil {
				return res
			}
			if i, ok := newFiles[n]; ok && i < len(c.Args) {
				if en := nameIn(c.Args[i]); en != nil {
					r.Check(checkedLocal(st, en), "inside", name+": "+n, c.Pos(), st, "%s makes a file or folder of whatever name the archive says: it may be outside of the folder", name)
				}
			}
			if packer && c.Fn == nil && c.FnVal != nil && !c.Common.IsInvoke() && len(c.Args) == 1 && !strings.HasPrefix(n, "builtin.") {
				r.Check(lib.Strip(c.Args[0]) == e.In.Param(root, 0), "packed", name+": test", c.Pos(), st, "%s tests another name than the one of the file", name)
			}
			switch {
			case strings.HasSuffix(n, ").IsDir") && len(c.Args) == 1, n == "(*archive/zip.File).FileInfo", n == "(*archive/zip.FileHeader).FileInfo", n == "(io/fs.FileMode).IsDir" || strings.HasSuffix(n, ").Mode") && len(c.Args) == 1:
				a := c.Args[0]
				if a.K == eng.KField && a.Name == "FileHeader" {
					a = a.Args[0]
				}
				return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Node(eng.KCall, 0, n, c.Common.Signature().Results().At(0).Type(), a)}}}}
			case isNext(c, n):
				nextEntry(st, c.Pos())
			case n == "io.Copy" || n == "io.CopyBuffer" || n == "io.CopyN":
				return nil
			}
			return nil
		},
		After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
			if c.Kind == eng.CKDefer {
				return
			}
			failed := func() bool {
				x := lib.ErrRet(c, rets)
				return x != nil && st.IsNonNil(x)
			}
			switch n := c.Name(); {
			case isNext(c, n):
				st.Set("entry", "", rets[0])
			case n == "archive/zip.NewWriter":
				st.Set("written:"+itoa(lib.Strip(c.Args[0]).ID), "")
			case n == "(*archive/zip.File).Open":
				if !failed() {
					st.Set("from:"+itoa(lib.Strip(rets[0]).ID), "entry", c.Args[0])
				}
			case n == "os.Open" || n == "os.OpenFile" || n == "os.Create" || n == "os.ReadFile":
				if n == "os.Open" {
					st.Set("from:"+itoa(lib.Strip(rets[0]).ID), "file", c.Args[0])
				} else {
					st.Set("to:"+itoa(lib.Strip(rets[0]).ID), "file", c.Args[0])
					st.Set("open:"+itoa(lib.Strip(rets[0]).ID), "", rets[0], rets[1])
				}
			case strings.HasSuffix(n, "zip.Writer).Create") || strings.HasSuffix(n, "files.ZipWriter).Create"):
				st.Set("to:"+itoa(lib.Strip(rets[0]).ID), "entry", c.Args[1])
			case strings.HasSuffix(n, "os.File).Close") && len(rets) == 1:
				if t, ok := st.TS["open:"+itoa(lib.Strip(c.Args[0]).ID)]; ok {
					if c.InDefer {
						st.Set("open:"+itoa(lib.Strip(c.Args[0]).ID), "ignored", t.V...)
					} else {
						st.Set("closed:"+itoa(lib.Strip(c.Args[0]).ID), "", rets[0])
						st.Del("open:" + itoa(lib.Strip(c.Args[0]).ID))
					}
				}
			case n == "io.Copy" || n == "io.CopyBuffer":
				to, ok1 := st.TS["to:"+itoa(lib.Strip(c.Args[0]).ID)]
				from, ok2 := st.TS["from:"+itoa(lib.Strip(c.Args[1]).ID)]
				if ok1 {
					st.Set("written:"+itoa(lib.Strip(c.Args[0]).ID), "")
				}
				if t, ok := st.TS["entry"]; ok && ok1 {
					// from the entry to a file or entry of its whole name
					good := ok2 && from.S == "entry" && lib.Strip(from.V[0]) == lib.Strip(t.V[0])
					r.Check(good, "unpacked", name+": content", c.Pos(), st, "%s writes the content of another entry", name)
					good = whole(to.V[0]) && nameIn(to.V[0]) == t.V[0]
					r.Check(good, "unpacked", name+": name", c.Pos(), st, "%s writes an entry to a file of another name, or of a part of its name", name)
					under := false
					for i, p := range root.Params {
						under = under || isStr(p.Type()) && to.V[0].Contains(e.In.Param(root, i))
					}
					r.Check(under, "unpacked", name+": where", c.Pos(), st, "%s writes an entry not where it is asked to", name)
					st.Set("entry", "copied", t.V[0], rets[1])
				}
				if packer {
					path := e.In.Param(root, 0)
					good := ok2 && from.S == "file" && lib.Strip(from.V[0]) == path
					r.Check(good, "packed", name+": content", c.Pos(), st, "%s packs the content of another file", name)
					r.Check(ok1 && to.S == "entry" && relName(to.V[0], path), "packed", name+": name", c.Pos(), st, "%s packs a file with a name that others in the folder may have as well", name)
					st.Set("packed", "", rets[1])
				}
			}
		},
		Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
			t, ok := st.TS["entry"]
			if !ok {
				return
			}
			if t.S == "copied" && st.IsNil(t.V[1]) || t.S == "" && isDir(st, t.V[0]) {
				st.Set("entry", "done", t.V...)
			}
		},
		Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
			pos := eng.InstrPos(in)
			if len(rets) == 0 {
				return
			}
			er := rets[len(rets)-1]
			if !isErrorT(er, root) || st.IsNonNil(er) {
				return
			}
			if packer {
				ok := false
				if t, is := st.TS["packed"]; is {
					ok = st.IsNil(t.V[0]) || er == t.V[0]
				} else {
					ok = unwanted(st, e, root)
				}
				r.Check(ok, "packed", name, pos, st, "%s leaves a file out", name)
				n := len(root.Params)
				r.Check(n == 0 || st.IsNil(e.In.Param(root, n-1)) || er == e.In.Param(root, n-1), "packed", name+": errors", pos, st, "%s leaves out what cannot be read", name)
				return
			}
			if t, ok := st.TS["entry"]; ok && t.S == "done" {
				r.Check(false, "unpacked", name+": every entry", pos, st, "%s ends before the last entry of the archive", name)
			}
			nextEntry(st, pos)
			if len(rets) > 1 {
				return // the caller goes on with it
			}
			for _, k := range st.KeysPrefix("open:") {
				t := st.TS[k]
				if st.IsNonNil(t.V[1]) {
					continue // it was not created
				}
				if st.Has("written:" + k[len("open:"):]) {
					r.Check(false, "closed", name, pos, st, "%s reports success though what it has written may not be in the file: it does not look at the result of closing it", name)
				}
			}
			for _, k := range st.KeysPrefix("closed:") {
				t := st.TS[k]
				if !st.Has("written:" + k[len("closed:"):]) {
					continue
				}
				r.Check(st.IsNil(t.V[0]) || er == t.V[0], "closed", name, pos, st, "%s reports success though the file it has written may not have been closed", name)
			}
		},
	}
}

func isErrorT(v *eng.Val, root *ssa.Function) bool {
	res := root.Signature.Results()
	return res.Len() > 0 && types.Identical(res.At(res.Len()-1).Type(), types.Universe.Lookup("error").Type())
}

// relName: the name is what is left of the path without a folder that does
// not depend on it.
func relName(v, path *eng.Val) bool {
	v = lib.Strip(v)
	switch {
	case v == path:
		return true
	case v.K == eng.KSlice:
		if lib.Strip(v.Args[0]) != path || v.Args[2].K != eng.KNil {
			return false
		}
		k := v.Args[1]
		return k.K == eng.KLen && !k.Contains(path) || k.K == eng.KBin && !k.Contains(path) || k.K == eng.KConst || k.K == eng.KNil || k.K == eng.KCall || k.K == eng.KLoad && !k.Contains(path)
	case v.K == eng.KCall && strings.HasSuffix(v.Name, ".Rel") && len(v.Args) == 2:
		return !v.Args[0].Contains(path) && relName(v.Args[1], path)
	case v.K == eng.KCall && (strings.HasPrefix(v.Name, "strings.Trim") || strings.HasSuffix(v.Name, "Slash") || strings.HasSuffix(v.Name, ".Clean")):
		return relName(v.Args[0], path)
	}
	return false
}

// unwanted: the file is left out because the caller said so.
func unwanted(st *eng.State, e *eng.Engine, root *ssa.Function) bool {
	path := e.In.Param(root, 0)
	flat, deeper := false, false
	res := st.AnyFact(func(f *eng.Val, b bool) bool {
		for f.K == eng.KUn && f.Op == token.NOT {
			f, b = f.Args[0], !b
		}
		if f.K == eng.KCall && strings.HasSuffix(f.Name, ".IsDir") && b {
			return true
		}
		if f.K == eng.KCall && strings.HasPrefix(f.Name, "dyn:") {
			return !b // not wanted by the test
		}
		free := false
		f.Walk(func(x *eng.Val) bool { free = free || x.K == eng.KFree; return true })
		if free && !b && (f.K == eng.KFree || f.K == eng.KLoad) {
			flat = true
		}
		if f.Contains(path) && (f.K == eng.KBin && (f.Op != token.EQL || !b || isEmptyText(f.Args[0]) || isEmptyText(f.Args[1])) || f.K == eng.KCall && b) {
			deeper = true
		}
		return false
	})
	return res || flat && deeper
}

// reachedFrom are the function, its closures and all it calls in its package.
func reachedFrom(f *ssa.Function) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if res[f] || len(f.Blocks) == 0 {
			return
		}
		res[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, g := range lib.Callees(f) {
			if lib.PkgOf(g) == lib.PkgOf(f) {
				walk(g)
			}
		}
	}
	walk(f)
	return res
}

func isEmptyText(v *eng.Val) bool {
	s, ok := eng.ConstString(lib.Strip(v))
	return ok && s == ""
}
