package rules

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

func init() {
	register("C12", func(p *lib.Prog, r *lib.Report) {
		if len(p.InPkg("pkg/storage/buntdb")) == 0 || len(p.InPkg("pkg/api")) == 0 {
			r.Bad("anchor", "storage", token.NoPos, nil, "the storage packages are not there")
			return
		}
		registers := p.Reaching(func(f *ssa.Function, in ssa.Instruction) bool {
			return strings.HasSuffix(lib.CallName(in), ".UpsertChunkInfos")
		})
		probe := lib.NameSet("os.Stat", "os.Lstat", caT+"closeChunk", cfs+".createScanInfo")
		errProp(p, r, errSpec{
			rule: "error-propagated",
			pkgs: []string{"pkg/storage/buntdb", "pkg/storage/postgres", "pkg/storage/cache", lfs, cfs, "pkg/api", "pkg/api/rest", "golibs/sss/s3", "golibs/sss/inmem"},
			roots: func(f *ssa.Function) bool {
				return !strings.HasSuffix(p.File(f), "testcntnr.go") && !strings.HasSuffix(p.File(f), "testsuite.go")
			},
			// probes of the file system and best-effort bookkeeping: their failure is not a failure of the operation
			skip: func(c *eng.Call) bool { return probe(c.Name()) },
			// what is registered matters: the helpers that do it are looked into
			inline: func(root, f *ssa.Function) bool { return lib.PkgOf(root) == lfs && lib.PkgOf(f) == lfs && registers[f] },
			onCall: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
				if strings.HasSuffix(c.Name(), ".UpsertChunkInfos") {
					st.Set("registered", "", rets[0])
				}
			},
			// a part of the records is written and registered: the result tells how many
			excuse: func(st *eng.State, c *eng.Call, root *ssa.Function, err *eng.Val) bool {
				t, ok := st.TS["registered"]
				return ok && st.IsNil(t.V[0]) && lib.PkgOf(root) == lfs
			},
		})
		r.Floor("error-propagated", 60)
		r.Floor("rows-error-checked", 2)
	}, "")
}
