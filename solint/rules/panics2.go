package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

// infraFailures are the calls whose failure cannot be caused by what a request
// says: the database in memory, own values that are marshaled, the log of the
// chunks after the data is on the disk, the construction of a cache, a chunk
// of this process that cannot be read any more.
var infraFailures = lib.NameSet(
	"(*github.com/tidwall/buntdb.DB).Begin", "(*github.com/tidwall/buntdb.Tx).Commit", "(*github.com/tidwall/buntdb.Tx).Rollback",
	"encoding/json.Marshal", "encoding/json.Unmarshal", "(*golibs/container/bytes.MMFile).Buffer",
	"(pkg/storage/logfs.LogsMetaStorage).UpsertChunkInfos", "golibs/container/lru.NewReleasableCache", "golibs/container/lru.NewCache")

// errSource follows an error to the calls it comes from.
func errSource(v ssa.Value, seen map[ssa.Value]bool, f func(c *ssa.Call, v ssa.Value) bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return f(c, v)
		}
	case *ssa.Call:
		return f(x, v)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value == nil {
				continue
			}
			if !errSource(e, seen, f) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			n := 0
			for _, ref := range *a.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
					if k, ok := s.Val.(*ssa.Const); ok && k.Value == nil {
						continue
					}
					n++
					if !errSource(s.Val, seen, f) {
						return false
					}
				}
			}
			return n > 0
		}
	case *ssa.MakeInterface, *ssa.ChangeInterface:
		return errSource(stripIface(v), seen, f)
	}
	return false
}

// failed: the block runs only when err is not nil; the errors it depends on.
func failedErrs(b *ssa.BasicBlock) (res []ssa.Value) {
	errT := types.Universe.Lookup("error").Type()
	for d := b.Idom(); d != nil; d = d.Idom() {
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok || !types.Identical(c.X.Type(), errT) {
			continue
		}
		k, ok := c.Y.(*ssa.Const)
		if !ok || k.Value != nil {
			continue
		}
		t := d.Succs[0]
		if c.Op == token.EQL {
			t = d.Succs[1]
		}
		if len(t.Preds) == 1 && t.Dominates(b) {
			res = append(res, c.X)
		}
	}
	return
}

// noPanics checks the explicit panics of the packages: each one is for a
// failure of the server itself.
func noPanics(p *lib.Prog, r *lib.Report, skip func(f *ssa.Function) bool, pkgs ...string) {
	// the functions that only run when the server is built
	build := map[*ssa.Function]bool{}
	isBuild := func(f *ssa.Function) bool {
		n := lib.Outer(f).Name()
		return strings.HasPrefix(n, "New") || strings.HasPrefix(n, "MustGet") || n == "init" || n == "Init" || strings.HasPrefix(n, "init#")
	}
	for _, f := range p.InPkg(pkgs...) {
		if f.Parent() == nil && isBuild(f) {
			build[f] = true
		}
	}
	for _, f := range p.InPkg(pkgs...) {
		if skip(f) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			pn, ok := in.(*ssa.Panic)
			if !ok || !pn.Pos().IsValid() {
				return
			}
			name := lib.Name(f)
			if build[f] {
				r.Ok("no-panic", name, pn.Pos())
				return
			}
			good := ownFailure(p, r, pn.Block(), map[*ssa.Function]bool{})
			r.Check(good, "no-panic", name, pn.Pos(), nil, "%s panics for a reason other than a failure of the server's own storage", name)
		})
		r.AddFunc(f)
	}
}

// ownFailure: the block runs only when something of the server's own, its
// storage for example, failed.
func ownFailure(p *lib.Prog, r *lib.Report, b *ssa.BasicBlock, busy map[*ssa.Function]bool) bool {
	f := b.Parent()
	for _, e := range failedErrs(b) {
		if ownError(p, r, f, e, busy) {
			return true
		}
	}
	if busy[f] || len(failedErrs(b)) > 0 {
		return false
	}
	// it is up to the callers
	busy[f] = true
	defer delete(busy, f)
	cs := callsOf(p, f)
	for _, c := range cs {
		if !ownFailure(p, r, c.Block(), busy) {
			return false
		}
	}
	return len(cs) > 0
}

// callsOf: the calls of f, nothing if it can be called in another way.
func callsOf(p *lib.Prog, f *ssa.Function) (res []*ssa.Call) {
	for _, g := range p.Funcs {
		ok := true
		eachInstr(g, func(in ssa.Instruction) {
			var c *ssa.Call
			if x, is := in.(*ssa.Call); is && x.Call.StaticCallee() == f {
				c = x
				res = append(res, x)
			}
			for _, o := range in.Operands(nil) {
				if *o == f && (c == nil || o != &c.Call.Value) {
					ok = false
				}
			}
		})
		if !ok {
			return nil
		}
	}
	return res
}

// ownError: the error comes from the server's own storage.
func ownError(p *lib.Prog, r *lib.Report, f *ssa.Function, e ssa.Value, busy map[*ssa.Function]bool) bool {
	if x, ok := e.(*ssa.Parameter); ok {
		k := -1
		for i, y := range f.Params {
			if x == y {
				k = i
			}
		}
		cs := callsOf(p, f)
		if busy[f] || k < 0 {
			return false
		}
		busy[f] = true
		defer delete(busy, f)
		for _, c := range cs {
			if a, ok := c.Call.Args[k].(*ssa.Const); ok && a.Value == nil {
				continue
			}
			if !ownError(p, r, c.Parent(), c.Call.Args[k], busy) {
				return false
			}
		}
		return len(cs) > 0
	}
	return errSource(e, map[ssa.Value]bool{}, func(c *ssa.Call, v ssa.Value) bool {
		n := strings.SplitN(lib.CallName(c), "[", 2)[0]
		if infraFailures(n) {
			return true
		}
		switch n {
		case "github.com/oklog/ulid/v2.Parse":
			return storedIDs(p, r, f)
		case "fmt.Errorf":
			good := 0
			args, _ := varArgs(c.Call.Args[len(c.Call.Args)-1])
			for _, a := range args {
				if takesErrType(a) {
					if !ownError(p, r, f, a, busy) {
						return false
					}
					good++
				}
			}
			return good > 0
		}
		g := c.Call.StaticCallee()
		if g == nil || len(g.Blocks) == 0 || lib.PkgOf(g) == "" || busy[g] {
			return false
		}
		busy[g] = true
		defer delete(busy, g)
		n2 := 0
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			x := ret.Results[len(ret.Results)-1]
			if k, ok := x.(*ssa.Const); ok && k.Value == nil {
				continue
			}
			if !ownError(p, r, g, x, busy) {
				return false
			}
			n2++
		}
		return n2 > 0
	})
}

func takesErrType(v ssa.Value) bool {
	return types.Identical(stripIface(v).Type(), types.Universe.Lookup("error").Type())
}

// storedIDs: every caller gives f the ID of a stored record.
func storedIDs(p *lib.Prog, r *lib.Report, f *ssa.Function) bool {
	all := true
	n := 0
	for _, g := range p.Funcs {
		eachInstr(g, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() != f {
				return
			}
			n++
			ok = false
			v := c.Common().Args[0]
			if u, is := v.(*ssa.UnOp); is && u.Op == token.MUL {
				if fa, is := u.X.(*ssa.FieldAddr); is && strings.HasSuffix(fieldOwner(fa), "solaris/v1.Record") {
					st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					ok = st.Field(fa.Field).Name() == "ID"
				}
			}
			r.Check(ok, "stored-id", lib.Name(g)+" -> "+lib.Name(f), in.Pos(), nil, "%s gives %s, which panics for a malformed ID, something else than the ID of a stored record", lib.Name(g), lib.Name(f))
			all = all && ok
		})
	}
	return all && n > 0
}

func fieldOwner(fa *ssa.FieldAddr) string {
	return lib.TypeKey(fa.X.Type().Underlying().(*types.Pointer).Elem())
}

// boundedAllocs: what is allocated is limited by something that is in memory
// already.
func boundedAllocs(p *lib.Prog, r *lib.Report, skip func(f *ssa.Function) bool, pkgs ...string) {
	stuck := stuckFields(p)
	for _, f := range p.InPkg(pkgs...) {
		if skip(f) {
			continue
		}
		var b *lib.Bounds
		n := 0
		eachInstr(f, func(in ssa.Instruction) {
			var sizes []ssa.Value
			switch x := in.(type) {
			case *ssa.MakeSlice:
				sizes = []ssa.Value{x.Len, x.Cap}
			case *ssa.MakeChan:
				sizes = []ssa.Value{x.Size}
			case *ssa.MakeMap:
				if x.Reserve != nil {
					sizes = []ssa.Value{x.Reserve}
				}
			case *ssa.Call:
				switch strings.SplitN(lib.CallName(x), "[", 2)[0] {
				case "slices.Grow", "strings.Repeat", "bytes.Repeat", "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
					sizes = []ssa.Value{x.Call.Args[1]}
				}
			}
			for _, s := range sizes {
				if _, ok := s.(*ssa.Const); ok {
					continue
				}
				n++
				if b == nil {
					b = lib.NewBounds(f, stuck, func(v ssa.Value) (int64, bool) { return 0, false }, nil)
				}
				ok := b.Holds(b.Lin(s), in.Block()) && limited(b, s, in.Block())
				r.Check(ok, "allocation", lib.Name(f)+": allocation "+itoa(n), in.Pos(), nil, "%s allocates by the number that is not known to be limited by the data in memory, or may be negative", lib.Name(f))
			}
		})
	}
}

// limited: the number is a length, a constant multiple of lengths, or is not
// more than a constant.
func limited(b *lib.Bounds, v ssa.Value, blk *ssa.BasicBlock) bool {
	l := b.Lin(v)
	onlyLens := true
	for a := range l.Coef {
		if !b.IsLen(a) {
			onlyLens = false
		}
	}
	if onlyLens {
		return true
	}
	for _, c := range []int64{1 << 10, 1 << 16, 1 << 20} {
		k := lib.Lin{C: c, Coef: map[*eng.Val]int64{}}
		if b.Holds(k.Sub(l), blk) {
			return true
		}
	}
	for _, a := range b.LenAtoms() {
		k := lib.Lin{C: 16, Coef: map[*eng.Val]int64{a: 1}}
		if b.Holds(k.Sub(l), blk) {
			return true
		}
	}
	// a counter of a loop over a list
	return false
}

// nesting: the recursive parser and what walks its result see an expression
// only after its depth has been limited.
func nesting(p *lib.Prog, r *lib.Report, pkg string) {
	isParse := func(n string) bool {
		return strings.Contains(n, "participle/v2.Parser[") && strings.Contains(n, ").Parse")
	}
	n := 0
	for _, f := range p.InPkg(pkg) {
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !isParse(lib.CallName(c)) {
				return
			}
			n++
			text := c.Call.Args[len(c.Call.Args)-1]
			for _, a := range c.Call.Args {
				if k, ok := a.(*ssa.Const); (!ok || k.Value == nil) && types.Identical(a.Type(), types.Typ[types.String]) {
					text = a
				}
			}
			good := false
			for d := c.Block(); d != nil && !good; d = d.Idom() {
				for _, x := range d.Instrs {
					g, ok := x.(*ssa.Call)
					if !ok || g == c || g.Call.StaticCallee() == nil || len(g.Call.Args) == 0 {
						continue
					}
					uses := false
					for _, a := range g.Call.Args {
						uses = uses || a == text
					}
					if uses && limits(g.Call.StaticCallee(), 0) && refusedBefore(g, c.Block()) {
						good = true
					}
				}
			}
			// the depth may be counted right here
			if !good && limitsDepth(f) {
				good = true
			}
			r.Check(good, "nesting", lib.Name(f), c.Pos(), nil, "%s gives the recursive parser an expression whose nesting is not limited", lib.Name(f))
		})
	}
	if n == 0 {
		r.Bad("anchor", "expression parser", token.NoPos, nil, "no call of the parser in %s", pkg)
	}
}

// refusedBefore: the block is reached only when the error of the call is nil.
func refusedBefore(c *ssa.Call, b *ssa.BasicBlock) bool {
	var errs []ssa.Value
	if types.Identical(c.Type(), types.Universe.Lookup("error").Type()) {
		errs = append(errs, c)
	}
	for _, ref := range *c.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && types.Identical(e.Type(), types.Universe.Lookup("error").Type()) {
			errs = append(errs, e)
		}
	}
	for _, e := range errs {
		for _, ref := range *e.Referrers() {
			cmp, ok := ref.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, r2 := range *cmp.Referrers() {
				i, ok := r2.(*ssa.If)
				if !ok {
					continue
				}
				t := i.Block().Succs[1]
				if cmp.Op == token.EQL {
					t = i.Block().Succs[0]
				}
				if len(t.Preds) == 1 && t.Dominates(b) {
					return true
				}
			}
		}
	}
	return false
}

// limits: the function or what it calls limits the depth.
func limits(f *ssa.Function, d int) bool {
	if limitsDepth(f) {
		return true
	}
	ok := false
	if d < 3 {
		eachInstr(f, func(in ssa.Instruction) {
			if c, is := in.(*ssa.Call); is && c.Call.StaticCallee() != nil && lib.PkgOf(c.Call.StaticCallee()) == lib.PkgOf(f) {
				ok = ok || limits(c.Call.StaticCallee(), d+1)
			}
		})
	}
	return ok
}

// limitsDepth: the function counts the opening brackets in its loop, and leaves
// it with an error when the count is over a constant. The counter grows by one
// at each bracket and is compared before it is forgotten.
func limitsDepth(f *ssa.Function) bool {
	ok := false
	eachInstr(f, func(in ssa.Instruction) {
		i, is := in.(*ssa.If)
		if !is {
			return
		}
		cmp, is := i.Cond.(*ssa.BinOp)
		if !is {
			return
		}
		k, is := cmp.Y.(*ssa.Const)
		if !is || k.Value == nil || k.Value.Kind() != constant.Int || k.Int64() < 1 || k.Int64() > 100000 {
			return
		}
		var over *ssa.BasicBlock
		switch cmp.Op {
		case token.GTR, token.GEQ:
			over = i.Block().Succs[0]
		case token.LEQ, token.LSS:
			over = i.Block().Succs[1]
		default:
			return
		}
		if !counts(cmp.X) {
			return
		}
		// the exceeding leads to a failure
		for _, x := range over.Instrs {
			if ret, is := x.(*ssa.Return); is {
				for _, v := range ret.Results {
					if types.Identical(v.Type(), types.Universe.Lookup("error").Type()) {
						if c, is := v.(*ssa.Const); !is || c.Value != nil {
							ok = true
						}
					}
				}
			}
		}
	})
	return ok
}

// counts: the value is the number of the opening brackets met so far, perhaps
// less the closing ones.
func counts(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	grows := false
	var from func(x ssa.Value) bool
	from = func(x ssa.Value) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		switch y := x.(type) {
		case *ssa.Phi:
			for i, e := range y.Edges {
				if c, ok := e.(*ssa.Const); ok {
					// the start of the count, not a reset
					if c.Value == nil || c.Int64() < 0 || !y.Block().Preds[i].Dominates(y.Block()) {
						return false
					}
					continue
				}
				if !from(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			c, ok := y.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int || c.Int64() != 1 || y.Op != token.ADD && y.Op != token.SUB {
				return false
			}
			if y.Op == token.ADD && opening(y.Block()) {
				grows = true
			}
			return from(y.X)
		}
		return false
	}
	return from(v) && grows
}

// opening: the block runs for an opening bracket.
func opening(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		for _, pr := range d.Preds {
			i, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			c, ok := i.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			k, ok := c.Y.(*ssa.Const)
			if ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == '(' && (c.Op == token.EQL && pr.Succs[0] == d || c.Op == token.NEQ && pr.Succs[1] == d) {
				return true
			}
		}
	}
	return false
}
