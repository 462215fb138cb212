package rules

import (
	"go/token"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

const (
	cfs   = "pkg/storage/chunkfs"
	lfs   = "pkg/storage/logfs"
	caT   = "(*pkg/storage/chunkfs.ChunkAccessor)."
	replT = "(*pkg/storage/chunkfs.Replicator)."
	provT = "(*pkg/storage/chunkfs.Provider)."
	chkT  = "(*pkg/storage/chunkfs.Chunk)."
	sssT  = "(golibs/sss.Storage)."
)

// pathClass classifies a file path expression: "chunk" (the data file of the
// returned chunk id), "aux" (archive, temporary or bookkeeping file) or
// "unknown".
func pathClass(v *eng.Val) (string, *eng.Val) {
	v = lib.Strip(v)
	switch v.K {
	case eng.KBin:
		if v.Op == token.ADD {
			for _, a := range v.Args {
				if s, ok := eng.ConstString(a); ok && s != "" {
					return "aux", v
				}
			}
		}
	case eng.KCall:
		if strings.HasPrefix(v.Name, "dyn:") && len(v.Args) == 1 {
			return "chunk", v.Args[0]
		}
		if v.Name == "path/filepath.Join" && len(v.Args) > 0 {
			last := lib.Strip(v.Args[len(v.Args)-1])
			if last.K == eng.KConst {
				return "aux", v
			}
			if c, _ := pathClass(last); c == "aux" {
				return "aux", v
			}
			return "chunk", last
		}
		if v.Name == "fmt.Sprintf" {
			return "aux", v
		}
	}
	return "unknown", v
}

var fileMutators = lib.NameSet("os.Remove", "os.RemoveAll", "os.Rename", "os.Create", "os.OpenFile", "os.WriteFile", "os.Truncate", "os.Link", "os.Symlink")

func chunkEvents(n string) bool {
	return fileMutators(n) || strings.HasPrefix(n, sssT) || n == caT+"SetWriting" || n == caT+"setDeleting" || n == caT+"SetIdle" || n == caT+"openChunk" || n == caT+"closeChunk" || n == chkT+"AppendRecords"
}

// chunkFlow walks every entry point of the chunk storage and checks the file
// effects, archive hand-over and exclusive access obligations named in on.
func chunkFlow(p *lib.Prog, r *lib.Report, on func(rule string) bool) {
	sync, _ := p.ConstInt(cfs, "RFRemoteSync")
	rdel, _ := p.ConstInt(cfs, "RFRemoteDelete")
	if sync == 0 || rdel == 0 {
		r.Bad("anchor", "RFRemoteSync/RFRemoteDelete", token.NoPos, nil, "the delete flags are not there")
		return
	}
	sites := p.Sites(chunkEvents)
	var in []ssa.CallInstruction
	for _, s := range sites {
		if k := lib.PkgOf(s.Parent()); k == cfs || k == lfs {
			if strings.Contains(lib.Name(s.Parent()), "ChunkAccessor") {
				continue
			}
			in = append(in, s)
		}
	}
	isEvent := func(f *ssa.Function, i ssa.Instruction) bool {
		n := lib.CallName(i)
		return chunkEvents(n) || n == replT+"DeleteChunk" || n == "os.Open" || n == "io.Copy" || strings.HasPrefix(n, "archive/zip.") || strings.HasPrefix(n, "(*archive/zip.") || n == "(*os.File).Close"
	}
	rel := p.Reaching(isEvent)
	relLogs := p.ReachingStop(isEvent, func(f *ssa.Function) bool { return lib.PkgOf(f) != lfs })
	check := func(ok bool, rule string, c *eng.Call, st *eng.State, f string, a ...any) {
		if on(rule) {
			r.Check(ok, rule, lib.Site(c), c.Pos(), st, f, a...)
		}
	}
	held := func(st *eng.State, id *eng.Val) bool {
		for _, k := range []string{"w", "d", "o"} {
			if t, ok := st.TS["acq:"+k]; ok && (id == nil || t.V[0] == id) && acquired(st, t) {
				return true
			}
		}
		return false
	}
	// one entry per opened/created file, archive, copy
	find := func(st *eng.State, pre string, match func(v []*eng.Val) bool) ([]*eng.Val, bool) {
		for _, k := range st.KeysPrefix(pre) {
			if t := st.TS[k]; match(t.V) {
				return t.V, true
			}
		}
		return nil, false
	}
	// written tells whether all content of the file at path was written
	// successfully: copied without error and closed without error.
	written := func(st *eng.State, path *eng.Val) (src *eng.Val, ok bool, why string) {
		f, found := find(st, "wfile:", func(v []*eng.Val) bool { return v[1] == path })
		if !found {
			return nil, false, "its content was not produced on this path"
		}
		cp, found := find(st, "copy:", func(v []*eng.Val) bool { return v[0] == f[0] })
		if !found || !st.IsNil(cp[2]) {
			return nil, false, "copying its content is not known to have succeeded"
		}
		cl, found := find(st, "fclose:", func(v []*eng.Val) bool { return v[0] == f[0] })
		if !found || !st.IsNil(cl[1]) {
			return nil, false, "closing it is not known to have succeeded"
		}
		return cp[1], true, ""
	}
	j := &lib.Job{P: p, R: r, Roots: p.Roots(cfs), Relevant: rel, KeepFact: lib.KeepOutcome}
	j.NoInline = func(root, f *ssa.Function) bool {
		t, n := lib.RecvType(f)
		if t != cfs {
			return false
		}
		// the access FSM is decided on its own; the exported operations of the
		// collaborators are entry points of their own
		_, rn := lib.RecvType(lib.Outer(root))
		return n == "ChunkAccessor" || (n == "Provider" || n == "Replicator") && rn != n && f.Object() != nil && f.Object().Exported() && f.Name() != "GetFileNameByID"
	}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				n := c.Name()
				if c.Kind != eng.CKCall {
					return nil
				}
				switch n {
				case "os.Remove", "os.RemoveAll":
					cl, id := pathClass(c.Args[0])
					if cl == "aux" {
						check(true, "removal-classified", c, st, "")
						return nil
					}
					if cl == "chunk" && isBookkeeping(st, id) {
						check(true, "removal-classified", c, st, "")
						return nil
					}
					check(cl == "chunk", "removal-classified", c, st, "removes %s, which is neither an auxiliary file nor a chunk file derived from a chunk id", c.Args[0])
					if cl != "chunk" {
						return nil
					}
					check(removalJustified(st, id, sync), "local-removal-safe", c, st,
						"the data file of chunk %s is removed although on this path its upload did not succeed, it was not observed empty or corrupted, and the caller asked for a sync", id)
					check(held(st, id), "exclusive-file-access", c, st, "the chunk file of %s is removed without holding exclusive access to it", id)
					if n == "os.RemoveAll" {
						check(false, "local-removal-safe", c, st, "recursive removal in the chunk storage")
					}
				case "os.Rename":
					cl, id := pathClass(c.Args[1])
					cl0, _ := pathClass(c.Args[0])
					check(cl0 != "chunk", "local-removal-safe", c, st, "a chunk file is moved away")
					if cl == "chunk" {
						_, ok, why := written(st, c.Args[0])
						check(ok, "install-complete", c, st, "%s becomes the chunk file of %s but %s", c.Args[0], id, why)
						check(held(st, id), "exclusive-file-access", c, st, "the chunk file of %s is replaced without holding exclusive access", id)
					} else if cl == "unknown" {
						check(false, "removal-classified", c, st, "renames to %s", c.Args[1])
					}
				case "os.Create", "os.WriteFile", "os.OpenFile", "os.Truncate":
					cl, id := pathClass(c.Args[0])
					if n == "os.OpenFile" {
						if fl, ok := eng.ConstInt(c.Args[1]); ok && fl&0x240 == 0 { // neither O_CREAT nor O_TRUNC
							return nil
						}
					}
					if cl == "chunk" {
						// only a file that was just seen not to exist may be created in place
						fresh := false
						for _, k := range st.KeysPrefix("stat:") {
							v := st.TS[k].V
							if v[1] == c.Args[0] && st.AnyFact(func(f *eng.Val, b bool) bool {
								return b && f.K == eng.KCall && f.Name == "errors.Is" && f.Args[0] == v[2]
							}) {
								fresh = true
							}
						}
						check(fresh, "chunk-file-written-in-place", c, st, "the chunk file of %s is created or truncated in place: a crash or error leaves a partial file under its final name", id)
					} else if cl == "unknown" {
						check(false, "removal-classified", c, st, "creates %s", c.Args[0])
					}
				case sssT + "Delete":
					ok := st.AnyFact(func(f *eng.Val, b bool) bool { return !b && isFlagTest(f, rdel) }) || flagConst(st, rdel)
					check(ok, "remote-removal-requested", c, st, "the remote copy is deleted without the caller asking for it")
				case sssT + "Put":
					key, rd := c.Args[2], lib.Strip(c.Args[3])
					ok, why := func() (bool, string) {
						rf, found := find(st, "rfile:", func(v []*eng.Val) bool { return v[0] == rd })
						if !found {
							return false, "the uploaded reader is not a local file opened on this path"
						}
						if st.Has("putused:" + itoa(rd.ID)) {
							return false, "the uploaded file handle was already read"
						}
						zf, found := find(st, "wfile:", func(v []*eng.Val) bool { return v[1] == rf[1] })
						if !found {
							return false, "the archive was not produced on this path"
						}
						zw, found := find(st, "zw:", func(v []*eng.Val) bool { return v[1] == zf[0] })
						if !found {
							return false, "no zip writer was opened on the uploaded file"
						}
						ent, found := find(st, "zent:", func(v []*eng.Val) bool { return v[1] == zw[0] })
						if !found {
							return false, "no entry was added to the archive"
						}
						if !st.IsNil(ent[3]) {
							return false, "adding the archive entry is not known to have succeeded"
						}
						cp, found := find(st, "copy:", func(v []*eng.Val) bool { return v[0] == ent[0] })
						if !found || !st.IsNil(cp[2]) {
							return false, "copying the chunk data into the archive is not known to have succeeded"
						}
						src, found := find(st, "rfile:", func(v []*eng.Val) bool { return v[0] == cp[1] })
						if !found {
							return false, "the archive entry is not copied from the chunk file"
						}
						cl, id := pathClass(src[1])
						if cl != "chunk" {
							return false, "the archive entry is not copied from the chunk file"
						}
						if !key.Contains(id) {
							return false, "the object key is not derived from the id of the archived chunk"
						}
						zc, found := find(st, "zclose:", func(v []*eng.Val) bool { return v[0] == zw[0] })
						if !found || !st.IsNil(zc[1]) {
							return false, "finishing the archive (zip Close) is not known to have succeeded before the upload"
						}
						fc, found := find(st, "fclose:", func(v []*eng.Val) bool { return v[0] == zf[0] })
						if !found || !st.IsNil(fc[1]) {
							return false, "closing the archive file is not known to have succeeded before the upload"
						}
						if !held(st, id) {
							return false, "the chunk is not held exclusively"
						}
						return true, ""
					}()
					check(ok, "upload-complete", c, st, "the upload may store an incomplete or foreign archive: %s", why)
				case replT + "DeleteChunk":
					if lib.Name(root) != replT+"DeleteChunk" {
						fl, ok := eng.ConstInt(c.Args[3])
						check(ok && fl&sync != 0 && fl&rdel == 0, "internal-deletion-syncs", c, st, "a chunk is deleted on behalf of the system with flags %s: it must be synced to the remote storage first and never deleted there", c.Args[3])
					}
				case chkT + "AppendRecords":
					t, ok := st.TS["acq:w"]
					g, got := st.TS["opened"]
					check(ok && acquired(st, t) && got && g.V[0] == t.V[0], "append-under-write-access", c, st, "records are appended to a chunk without holding its write access")
					return &eng.Result{Opaque: true}
				case caT + "SetIdle":
					ok := false
					for _, k := range []string{"w", "d"} {
						if t, has := st.TS["acq:"+k]; has && t.V[0] == c.Args[1] && acquired(st, t) {
							ok = true
							st.Del("acq:" + k)
							break
						}
					}
					check(ok, "release-only-own-access", c, st, "exclusive access to %s is released by a path that did not obtain it", c.Args[1])
				case caT + "closeChunk":
					if t, has := st.TS["acq:o"]; has && t.V[0] == c.Args[1] {
						check(!st.IsNonNil(t.V[1]), "release-only-own-access", c, st, "the opening of %s is taken back though it was refused: another user of the chunk loses the access", c.Args[1])
						st.Del("acq:o")
					}
				}
				return nil
			},
			After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				set := func(pre string, vals ...*eng.Val) { st.Set(pre+itoa(vals[0].ID), "", vals...) }
				switch c.Name() {
				case "os.Stat", "os.Lstat":
					set("stat:", rets[0], c.Args[0], rets[1])
				case "os.Create":
					set("wfile:", rets[0], c.Args[0])
				case "os.OpenFile":
					set("wfile:", rets[0], c.Args[0])
				case "os.Open":
					set("rfile:", rets[0], c.Args[0])
				case "archive/zip.NewWriter":
					set("zw:", rets[0], lib.Strip(c.Args[0]))
				case "(*archive/zip.Writer).Create":
					set("zent:", lib.Strip(rets[0]), c.Args[0], c.Args[1], rets[1])
				case "(*archive/zip.Writer).Close":
					set("zclose:", c.Args[0], rets[0])
				case "(*os.File).Close":
					set("fclose:", c.Args[0], rets[0])
				case "io.Copy", "io.CopyBuffer":
					set("copy:", lib.Strip(c.Args[0]), lib.Strip(c.Args[1]), rets[1])
				case "archive/zip.NewReader":
					set("zr:", rets[0], lib.Strip(c.Args[0]))
				case "(*archive/zip.File).Open":
					set("zopen:", lib.Strip(rets[0]), c.Args[0])
				case sssT + "Get":
					set("get:", lib.Strip(rets[0]), c.Args[2], rets[1])
				case sssT + "Put":
					st.Set("put", "", c.Args[2], rets[0])
					if rd := lib.Strip(c.Args[3]); rd != nil {
						st.Set("putused:"+itoa(rd.ID), "")
					}
				case "os.Rename":
					if cl, id := pathClass(c.Args[1]); cl == "chunk" {
						st.Set("installed", "", id, rets[0], c.Args[0])
					}
				case "os.Remove":
					if cl, id := pathClass(c.Args[0]); cl == "chunk" {
						st.Set("removed", "", id, rets[0])
					}
				case caT + "SetWriting":
					st.Set("acq:w", "", c.Args[2], rets[0])
				case caT + "openChunk":
					st.Set("acq:o", "", c.Args[2], rets[0])
				case caT + "setDeleting":
					st.Set("acq:d", "", c.Args[1], rets[0])
				case provT + "GetOpenedChunk":
					st.Set("opened", "", c.Args[2])
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				name := lib.Name(root)
				if on("access-released") {
					for _, k := range []string{"w", "d"} {
						if t, ok := st.TS["acq:"+k]; ok {
							r.Check(refused(st, t), "access-released", name, root.Pos(), st, "%s returns while it may still hold the exclusive access to %s", name, t.V[0])
						}
					}
					if t, ok := st.TS["acq:o"]; ok && len(rets) > 0 {
						err := rets[len(rets)-1]
						r.Check(st.IsNil(err) || refused(st, t), "access-released", name, root.Pos(), st, "%s fails but leaves chunk %s marked as opened", name, t.V[0])
					}
					r.Ok("access-released", name, root.Pos())
				}
				if on("download-complete") && name == replT+"DownloadChunk" && st.IsNil(rets[0]) {
					if !st.Has("installed") {
						ok := false
						for _, k := range st.KeysPrefix("stat:") {
							v := st.TS[k].V
							if cl, _ := pathClass(v[1]); cl == "chunk" && st.IsNil(v[2]) {
								ok = true
							}
						}
						r.Check(ok, "download-complete", name, root.Pos(), st, "success is reported although nothing was installed and the file was not seen to exist")
						return
					}
					ok, why := func() (bool, string) {
						t := st.TS["installed"]
						if !st.IsNil(t.V[1]) {
							return false, "moving the file to its final name is not known to have succeeded"
						}
						src, ok, why := written(st, t.V[2])
						if !ok {
							return false, why
						}
						zo, found := find(st, "zopen:", func(v []*eng.Val) bool { return v[0] == src })
						if !found {
							return false, "the file is not copied from an archive entry"
						}
						zr, found := find(st, "zr:", func(v []*eng.Val) bool { return zo[1].Contains(v[0]) })
						if !found {
							return false, "the archive entry does not come from the downloaded archive"
						}
						rf, found := find(st, "rfile:", func(v []*eng.Val) bool { return v[0] == zr[1] })
						if !found {
							return false, "the archive is not the downloaded file"
						}
						s2, ok, why := written(st, rf[1])
						if !ok {
							return false, "of the downloaded archive: " + why
						}
						g, found := find(st, "get:", func(v []*eng.Val) bool { return v[0] == s2 })
						if !found {
							return false, "the archive is not copied from the remote object"
						}
						if !g[1].Contains(t.V[0]) || !st.IsNil(g[2]) {
							return false, "the object key is not derived from the chunk id"
						}
						return true, ""
					}()
					r.Check(ok, "download-complete", name, root.Pos(), st, "success is reported although the local chunk file may be incomplete: %s", why)
				}
				if on("delete-reports") && name == replT+"DeleteChunk" && st.IsNil(rets[0]) {
					t, ok := st.TS["removed"]
					r.Check(ok && (st.IsNil(t.V[1]) || errIsKnown(st, t.V[1])), "delete-reports", name, root.Pos(), st, "DeleteChunk reports success although the local file removal was not performed or failed")
				}
			},
		}
	}
	j2 := *j
	j.Do(inPkg(in, cfs))
	j2.Roots, j2.Relevant = p.Roots(lfs), relLogs
	j2.Do(inPkg(in, lfs))
}

func inPkg(sites []ssa.CallInstruction, pkg string) []ssa.CallInstruction {
	var r []ssa.CallInstruction
	for _, s := range sites {
		if lib.PkgOf(s.Parent()) == pkg {
			r = append(r, s)
		}
	}
	return r
}

func itoa(n int) string {
	return strconv.Itoa(n)
}

// acquired: the acquisition is known to have succeeded on this path.
func acquired(st *eng.State, t eng.TS) bool {
	v := t.V[1]
	if v.Typ != nil && v.Typ.String() == "bool" {
		b, k := st.Eval(v)
		return k && b
	}
	return st.IsNil(v)
}

// refused: the acquisition is known to have failed on this path.
func refused(st *eng.State, t eng.TS) bool {
	v := t.V[1]
	if v.Typ != nil && v.Typ.String() == "bool" {
		b, k := st.Eval(v)
		return k && !b
	}
	return st.IsNonNil(v)
}

func errIsKnown(st *eng.State, err *eng.Val) bool {
	return st.AnyFact(func(f *eng.Val, b bool) bool {
		return b && f.K == eng.KCall && f.Name == "errors.Is" && f.Args[0] == err
	})
}

// isFlagTest: v is the canonical condition (x & flag) == 0.
func isFlagTest(v *eng.Val, flag int64) bool {
	if v.K != eng.KBin || v.Op != token.EQL {
		return false
	}
	a := lib.Strip(v.Args[0])
	if n, ok := eng.ConstInt(v.Args[1]); !ok || a.K != eng.KBin || a.Op != token.AND || (n != 0 && n != flag) {
		return false
	}
	for _, x := range a.Args {
		if n, ok := eng.ConstInt(x); ok && n == flag {
			return true
		}
	}
	return false
}

func flagConst(st *eng.State, flag int64) bool { return false }

func removalJustified(st *eng.State, id *eng.Val, sync int64) bool {
	// uploaded
	if t, ok := st.TS["put"]; ok && t.V[0].Contains(id) && st.IsNil(t.V[1]) {
		return true
	}
	ok := false
	st.EachFact(func(f *eng.Val, b bool) {
		if isFlagTest(f, sync) && !b {
			if n, isC := eng.ConstInt(f.Args[1]); isC && n == sync {
				ok = true
			}
		}
		if f.K == eng.KBin { // nothing in it
			for _, s := range f.Args {
				if s.K == eng.KCall && s.Name == "(io/fs.FileInfo).Size" && lib.Entails(st, lib.Linear(st.E.In.Int(0)).Sub(lib.Linear(s))) {
					if t, has := st.TS["stat:"+itoa(s.Args[0].ID)]; has {
						if cl, x := pathClass(t.V[1]); cl == "chunk" && x == id && st.IsNil(t.V[2]) {
							ok = true
						}
					}
				}
			}
		}
		if !b {
			return
		}
		// seen to be empty
		if f.K == eng.KBin && f.Op == token.EQL {
			if n, isC := eng.ConstInt(f.Args[1]); isC && n == 0 {
				if s := f.Args[0]; s.K == eng.KCall && s.Name == "(io/fs.FileInfo).Size" {
					if t, has := st.TS["stat:"+itoa(s.Args[0].ID)]; has {
						if cl, x := pathClass(t.V[1]); cl == "chunk" && x == id && st.IsNil(t.V[2]) {
							ok = true
						}
					}
				}
			}
			// the caller did not ask for a sync
			if isFlagTest(f, sync) {
				if n, isC := eng.ConstInt(f.Args[1]); isC && n == 0 {
					ok = true
				}
			}
		}
		// found to be corrupted
		if f.K == eng.KCall && f.Name == "errors.Is" && strings.Contains(f.Args[1].String(), "orrupted") {
			ok = true
		}
	})
	return ok
}

// isBookkeeping: the file name was recognised by its extension.
func isBookkeeping(st *eng.State, name *eng.Val) bool {
	return st.AnyFact(func(f *eng.Val, b bool) bool {
		if !b {
			return false
		}
		if f.K == eng.KBin && f.Op == token.EQL && f.Args[0].K == eng.KCall && f.Args[0].Name == "path/filepath.Ext" && f.Args[0].Args[0] == name {
			s, ok := eng.ConstString(f.Args[1])
			return ok && s != ""
		}
		return f.K == eng.KCall && f.Name == "strings.HasSuffix" && f.Args[0] == name
	})
}

func init() {
	only := func(rules ...string) func(string) bool {
		m := map[string]bool{}
		for _, x := range rules {
			m[x] = true
		}
		return func(s string) bool { return m[s] }
	}
	register("C01", func(p *lib.Prog, r *lib.Report) {
		chunkFlow(p, r, only("removal-classified", "local-removal-safe", "remote-removal-requested", "delete-reports", "internal-deletion-syncs"))
		r.Floor("internal-deletion-syncs", 1)
		r.Floor("local-removal-safe", 1)
		r.Floor("removal-classified", 3)
		r.Floor("remote-removal-requested", 1)
	}, "")
	register("C02", func(p *lib.Prog, r *lib.Report) {
		chunkFlow(p, r, only("upload-complete", "download-complete", "install-complete", "chunk-file-written-in-place"))
		r.Floor("upload-complete", 1)
		r.Floor("download-complete", 1)
	}, "")
	register("C04", func(p *lib.Prog, r *lib.Report) {
		chunkFlow(p, r, only("exclusive-file-access", "append-under-write-access", "release-only-own-access", "access-released"))
		r.Floor("append-under-write-access", 1)
		r.Floor("release-only-own-access", 3)
		r.Floor("access-released", 3)
	}, "")
}
