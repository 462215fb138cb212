// Package lib holds what the property rules share: the loaded program, the
// report, anchors, relevance and path classification helpers.
package lib

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"solint/eng"
)

const Mod = "github.com/solarisdb/solaris"

// Prog is the analysed program.
type Prog struct {
	Dir    string
	Pkgs   []*packages.Package
	SSA    *ssa.Program
	Funcs  []*ssa.Function // every in-module source function, closures included
	byName map[string]*ssa.Function
	byPkg  map[string]*packages.Package
	spkg   map[string]*ssa.Package
	Fset   *token.FileSet
}

// Load type-checks and builds SSA for the whole module with the flags of the
// real build.
func Load(dir string) (*Prog, error) {
	env := os.Environ()
	path := os.Getenv("PATH")
	if _, err := os.Stat("/opt/veriftools/go1.23.12/bin/go"); err == nil {
		path = "/opt/veriftools/go1.23.12/bin:" + path
		os.Setenv("PATH", path)
	}
	env = append(env, "PATH="+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=1")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: env}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Dir: dir, Pkgs: pk, byName: map[string]*ssa.Function{}, byPkg: map[string]*packages.Package{}, spkg: map[string]*ssa.Package{}}
	var errs []string
	for _, x := range pk {
		for _, e := range x.Errors {
			errs = append(errs, e.Error())
		}
		p.byPkg[strings.TrimPrefix(strings.TrimPrefix(x.PkgPath, Mod), "/")] = x
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pk) < 20 {
		return nil, fmt.Errorf("only %d packages loaded", len(pk))
	}
	prog, sp := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	p.Fset = prog.Fset
	for i, s := range sp {
		if s != nil {
			p.spkg[strings.TrimPrefix(strings.TrimPrefix(pk[i].PkgPath, Mod), "/")] = s
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if !eng.InModule(f) || len(f.Blocks) == 0 {
			continue
		}
		if f.Synthetic != "" && f.Origin() == nil && !strings.HasPrefix(f.Synthetic, "range-over-func") {
			continue
		}
		if strings.HasSuffix(p.File(f), ".pb.go") || strings.HasSuffix(p.File(f), ".gen.go") {
			continue
		}
		p.Funcs = append(p.Funcs, f)
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	for _, f := range p.Funcs {
		if f.Parent() == nil {
			n := eng.SSAName(f)
			if _, ok := p.byName[n]; !ok || f.TypeParams().Len() > 0 || len(f.TypeArgs()) > 0 {
				p.byName[n] = f
			}
		}
	}
	return p, nil
}

// File is the source file of a function.
func (p *Prog) File(f *ssa.Function) string {
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Origin() != nil {
		g = g.Origin()
	}
	return p.SSA.Fset.Position(g.Pos()).Filename
}

// Func finds a function or method by module-relative full name, e.g.
// "(*pkg/storage/chunkfs.Chunk).AppendRecords".
func (p *Prog) Func(name string) *ssa.Function { return p.byName[name] }

// PkgOf is the module-relative package path a function belongs to.
func PkgOf(f *ssa.Function) string {
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Origin() != nil {
		g = g.Origin()
	}
	var pp string
	if g.Pkg != nil {
		pp = g.Pkg.Pkg.Path()
	} else if o := g.Object(); o != nil && o.Pkg() != nil {
		pp = o.Pkg().Path()
	}
	return strings.TrimPrefix(strings.TrimPrefix(pp, Mod), "/")
}

// Outer is the outermost named function a closure belongs to.
func Outer(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// Name is the module-relative name (closures get their owner's name).
func Name(f *ssa.Function) string {
	n := eng.SSAName(Outer(f))
	if f.Parent() != nil {
		n += "$func"
	}
	return n
}

// InPkg lists the source functions of a package (closures included).
func (p *Prog) InPkg(pkgs ...string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.Funcs {
		for _, k := range pkgs {
			if PkgOf(f) == k && !isGenericTemplate(f) {
				r = append(r, f)
			}
		}
	}
	return r
}

func isGenericTemplate(f *ssa.Function) bool {
	o := Outer(f)
	if o.TypeParams().Len() > 0 && len(o.TypeArgs()) == 0 {
		return true
	}
	for _, t := range o.TypeArgs() {
		if hasTypeParam(t, 0) {
			return true // an instance inside of another template
		}
	}
	return false
}

func hasTypeParam(t types.Type, d int) bool {
	if d > 6 {
		return false
	}
	switch x := types.Unalias(t).(type) {
	case *types.TypeParam:
		return true
	case *types.Pointer:
		return hasTypeParam(x.Elem(), d+1)
	case *types.Slice:
		return hasTypeParam(x.Elem(), d+1)
	case *types.Map:
		return hasTypeParam(x.Key(), d+1) || hasTypeParam(x.Elem(), d+1)
	case *types.Chan:
		return hasTypeParam(x.Elem(), d+1)
	case *types.Named:
		if a := x.TypeArgs(); a != nil {
			for i := 0; i < a.Len(); i++ {
				if hasTypeParam(a.At(i), d+1) {
					return true
				}
			}
		}
	}
	return false
}

// TypeKey names a type by its module-relative package and name (type
// arguments and pointers dropped).
func TypeKey(t types.Type) string {
	for {
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			t = p.Elem()
			continue
		}
		break
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return ""
	}
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), Mod), "/") + "." + n.Obj().Name()
}

// IsTemplate tells whether f is an uninstantiated generic function.
func IsTemplate(f *ssa.Function) bool { return isGenericTemplate(f) }

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// TypesPkg gives the go/types package at a module relative path.
func (p *Prog) TypesPkg(rel string) *types.Package {
	if x := p.byPkg[rel]; x != nil {
		return x.Types
	}
	return nil
}

// Package gives the loaded package at a module relative path.
func (p *Prog) Package(rel string) *packages.Package { return p.byPkg[rel] }

// SSAPkg gives the SSA package at a module relative path.
func (p *Prog) SSAPkg(rel string) *ssa.Package { return p.spkg[rel] }

// Named finds a named type.
func (p *Prog) Named(rel, name string) *types.Named {
	tp := p.TypesPkg(rel)
	if tp == nil {
		return nil
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// ConstInt is the value of a package level integer constant.
func (p *Prog) ConstInt(rel, name string) (int64, bool) {
	tp := p.TypesPkg(rel)
	if tp == nil {
		return 0, false
	}
	c, ok := tp.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constVal(c)
}

// Methods lists the declared methods (SSA) of a named type, pointer receivers
// included.
func (p *Prog) Methods(rel, name string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil || isGenericTemplate(f) {
			continue
		}
		if t, n := RecvType(f); t == rel && n == name {
			r = append(r, f)
		}
	}
	return r
}

// RecvType is the (package, type name) of a method's receiver.
func RecvType(f *ssa.Function) (string, string) {
	sig := f.Signature
	if sig.Recv() == nil {
		return "", ""
	}
	t := sig.Recv().Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "", ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), Mod), "/"), n.Obj().Name()
}

// Callees lists the in-module functions f may call directly, reference or
// close over.
func Callees(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if g, ok := (*o).(*ssa.Function); ok && eng.InModule(g) {
					r = append(r, unwrapSynth(g))
				}
			}
		}
	}
	return r
}

func unwrapSynth(g *ssa.Function) *ssa.Function { return g }

// Reaching computes the functions from which an instruction satisfying pred
// can be reached through static calls, references and closures.
func (p *Prog) Reaching(pred func(f *ssa.Function, in ssa.Instruction) bool) map[*ssa.Function]bool {
	return p.ReachingStop(pred, nil)
}

// ReachingStop is Reaching that does not look through the functions in stop.
func (p *Prog) ReachingStop(pred func(f *ssa.Function, in ssa.Instruction) bool, stop func(f *ssa.Function) bool) map[*ssa.Function]bool {
	rev := map[*ssa.Function][]*ssa.Function{}
	var q []*ssa.Function
	res := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var all []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		all = append(all, f)
		for _, c := range Callees(f) {
			visit(c)
		}
	}
	for _, f := range p.Funcs {
		visit(f)
	}
	for _, f := range all {
		for _, c := range Callees(f) {
			rev[c] = append(rev[c], f)
		}
		hit := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if pred(f, in) {
					hit = true
				}
			}
		}
		if hit {
			res[f] = true
			q = append(q, f)
		}
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		if stop != nil && stop(f) {
			continue
		}
		for _, c := range rev[f] {
			if !res[c] {
				res[c] = true
				q = append(q, c)
			}
		}
	}
	return res
}

// CallName resolves the callee name of a call instruction without a path
// context.
func CallName(in ssa.Instruction) string {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	cc := ci.Common()
	if cc.IsInvoke() {
		return eng.ObjName(cc.Method)
	}
	if f := cc.StaticCallee(); f != nil {
		return eng.SSAName(f)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

// Sites lists every call instruction whose resolved callee satisfies pred.
func (p *Prog) Sites(pred func(name string) bool) []ssa.CallInstruction {
	var r []ssa.CallInstruction
	for _, f := range p.Funcs {
		if isGenericTemplate(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if n := CallName(in); n != "" && pred(n) {
					r = append(r, in.(ssa.CallInstruction))
				}
			}
		}
	}
	return r
}

// Roots lists the functions of the packages that can be entered from outside:
// exported ones, those without in-package callers, goroutine bodies and
// function values.
func (p *Prog) Roots(pkgs ...string) []*ssa.Function {
	in := map[string]bool{}
	for _, k := range pkgs {
		in[k] = true
	}
	called := map[*ssa.Function]bool{}
	valued := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, isCall := i.(ssa.CallInstruction)
				var callee *ssa.Function
				if isCall {
					callee = ci.Common().StaticCallee()
				}
				if callee != nil {
					if _, isGo := i.(*ssa.Go); isGo {
						valued[callee] = true
					} else {
						called[callee] = true
					}
				}
				var ops [16]*ssa.Value
				for _, o := range i.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Function); ok && g != callee {
						valued[target(g)] = true
					}
				}
			}
		}
	}
	var r []*ssa.Function
	for _, f := range p.Funcs {
		if !in[PkgOf(f)] || isGenericTemplate(f) {
			continue
		}
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		if f.Parent() != nil {
			// closures run where they are called; a goroutine body or an
			// escaping one is a root of its own
			if valued[f] && escapes(f) {
				r = append(r, f)
			}
			continue
		}
		o := f.Object()
		if (o != nil && o.Exported()) || !called[f] || valued[f] {
			r = append(r, f)
		}
	}
	return r
}

// target unwraps bound-method and thunk wrappers.
func target(g *ssa.Function) *ssa.Function {
	if g.Synthetic != "" {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok {
					if t := c.Call.StaticCallee(); t != nil {
						return t
					}
				}
			}
		}
	}
	return g
}

// Parallel runs f for every root on all cores.
func Parallel(roots []*ssa.Function, f func(fn *ssa.Function)) {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	ch := make(chan *ssa.Function)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var pan any
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for fn := range ch {
				func() {
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							buf := make([]byte, 4096)
							buf = buf[:runtime.Stack(buf, false)]
							pan = fmt.Sprintf("%s: %v\n%s", fn, r, buf)
							mu.Unlock()
						}
					}()
					f(fn)
				}()
			}
		}()
	}
	for _, r := range roots {
		ch <- r
	}
	close(ch)
	wg.Wait()
	if pan != nil {
		panic(pan)
	}
}

// escapes: the closure is used for something else than being called or
// deferred right away by its parent.
func escapes(f *ssa.Function) bool {
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				// a closure without free variables is used as the function itself
				if c, isCall := in.(*ssa.Call); isCall && onlyCalled(&c.Call, f) {
					continue
				}
				if ci, isCall := in.(ssa.CallInstruction); isCall && ci.Common().Value == ssa.Value(f) {
					if _, isGo := in.(*ssa.Go); isGo {
						return true
					}
					continue
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if *o == ssa.Value(f) {
						return true
					}
				}
				continue
			}
			for _, ref := range *mc.Referrers() {
				switch x := ref.(type) {
				case *ssa.Defer:
					if x.Call.Value != ssa.Value(mc) {
						return true
					}
				case *ssa.Call:
					if x.Call.Value != ssa.Value(mc) && !onlyCalled(&x.Call, mc) {
						return true
					}
				case *ssa.DebugRef:
				default:
					return true
				}
			}
		}
	}
	return false
}

// onlyCalled: the call passes v to a function of the same package which does
// nothing with it but calling it, so that v is walked together with its caller.
func onlyCalled(c *ssa.CallCommon, v ssa.Value) bool {
	g := c.StaticCallee()
	if g == nil || c.Value == v {
		return false
	}
	f, ok := v.(*ssa.Function)
	if mc, isMC := v.(*ssa.MakeClosure); isMC {
		f, ok = mc.Fn.(*ssa.Function)
	}
	if !ok || len(g.Blocks) == 0 || PkgOf(g) != PkgOf(f) || f.Signature.Recv() != nil {
		return false
	}
	n := 0
	for i, a := range c.Args {
		if a != v {
			continue
		}
		n++
		if i >= len(g.Params) {
			return false
		}
		for _, ref := range *g.Params[i].Referrers() {
			switch x := ref.(type) {
			case *ssa.Call:
				if x.Call.Value != ssa.Value(g.Params[i]) {
					return false
				}
			case *ssa.Defer:
				if x.Call.Value != ssa.Value(g.Params[i]) {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	return n == 1
}
