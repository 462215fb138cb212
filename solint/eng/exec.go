package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ModPath = "github.com/solarisdb/solaris/"

type CallKind int

const (
	CKCall CallKind = iota
	CKDefer
	CKGo
)

// Call describes a resolved call.
type Call struct {
	Common  *ssa.CallCommon
	Instr   ssa.Instruction
	Frame   *Frame
	Fn      *ssa.Function // statically resolved target, if any
	FnVal   *Val          // abstract function value for dynamic calls
	Bind    []*Val        // closure bindings of Fn
	Args    []*Val        // receiver first
	Kind    CallKind
	name    string
	InDefer bool
}

// Name is the resolved, module-relative full name of the callee:
// "os.Remove", "(*pkg/storage/chunkfs.Replicator).DeleteChunk",
// "(golibs/sss.Storage).Put" for interface calls.
func (c *Call) Name() string {
	if c.name == "" {
		c.name = callName(c)
	}
	return c.name
}

func (c *Call) Pos() token.Pos { return InstrPos(c.Instr) }

// InstrPos finds the best source position of an instruction.
func InstrPos(i ssa.Instruction) token.Pos {
	if i == nil {
		return token.NoPos
	}
	if p := i.Pos(); p.IsValid() {
		return p
	}
	if i.Parent() == nil {
		return token.NoPos
	}
	if i.Block() != nil {
		// nearest earlier instruction with a position
		ins := i.Block().Instrs
		at := -1
		for k, x := range ins {
			if x == i {
				at = k
			}
		}
		for k := at; k >= 0; k-- {
			if p := ins[k].Pos(); p.IsValid() {
				return p
			}
		}
	}
	return i.Parent().Pos()
}

func ObjName(o types.Object) string {
	f, ok := o.(*types.Func)
	if !ok {
		return o.Name()
	}
	return strings.ReplaceAll(f.Origin().FullName(), ModPath, "")
}

// SSAName is the module-relative full name of a function.
func SSAName(fn *ssa.Function) string {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	if o := f.Object(); o != nil {
		return ObjName(o)
	}
	return strings.ReplaceAll(f.String(), ModPath, "")
}

func callName(c *Call) string {
	if c.Fn != nil {
		return SSAName(c.Fn)
	}
	if c.Common.IsInvoke() {
		return ObjName(c.Common.Method)
	}
	if b, ok := c.Common.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if c.FnVal != nil {
		return "dyn:" + c.FnVal.String()
	}
	return "dyn:" + c.Common.Value.Name()
}

type deferRec struct {
	common *ssa.CallCommon
	instr  ssa.Instruction
	fnv    *Val
	args   []*Val
}

// Frame is one inlined activation.
type Frame struct {
	Fn     *ssa.Function
	Ctx    int
	Parent *Frame
	Site   ssa.Instruction
	Free   []*Val
	env    map[ssa.Value]*Val
	defers []deferRec
	depth  int
}

// Env gives the abstract value of an SSA value in the frame.
func (e *Engine) Env(st *State, fr *Frame, v ssa.Value) *Val { return e.val(st, fr, v) }

// SelChans are the channels of the select statement the index is of.
func (e *Engine) SelChans(idx *Val) []*Val { return e.selCh[idx] }

type Outcome struct {
	Rets []*Val
	Do   func(*State)
}

// Result says how to treat a call.
type Result struct {
	Inline   bool          // force inlining of Fn / Target
	Target   *ssa.Function // inline this function instead
	Opaque   bool
	Outcomes []Outcome
	Multi    []*ssa.Function // inline each alternative (fork)
}

type Hooks struct {
	Call   func(st *State, c *Call) *Result
	After  func(st *State, c *Call, rets []*Val)
	Instr  func(st *State, fr *Frame, in ssa.Instruction)
	Load   func(st *State, fr *Frame, addr *Val, in ssa.Instruction)
	Store  func(st *State, fr *Frame, addr, v *Val, in ssa.Instruction)
	Branch func(st *State, fr *Frame, in *ssa.If, cond *Val, taken bool)
	Exit   func(st *State, rets []*Val, in ssa.Instruction)
	Panic  func(st *State, fr *Frame, in ssa.Instruction)
	Enter  func(st *State, fr *Frame)
	Leave  func(st *State, fr *Frame, rets []*Val)
}

type ctxKey struct {
	parent int
	site   ssa.Instruction
	fn     *ssa.Function
}

type Engine struct {
	In       *Interner
	Hooks    Hooks
	MaxDepth int
	MaxSteps int
	Steps    int
	Overflow bool
	NoInline func(fn *ssa.Function) bool
	// Relevant, when set, limits inlining to the functions the rule cares
	// about (and trivial ones); the others only have their side effects on
	// fields applied.
	Relevant func(fn *ssa.Function) bool
	// LockHavoc: forget heap knowledge below the owner of a lock when it is
	// acquired.
	LockHavoc bool
	loads     int
	Grown     bool // remember what growing slices began with
	// Inlined records every function body that was walked.
	Inlined map[*ssa.Function]bool
	// Cuts records in-module callees treated as opaque (recursion/depth).
	Cuts map[string]bool

	// Trace, for debugging, sees every new block state.
	Trace func(fn *ssa.Function, b *ssa.BasicBlock, st *State, env map[ssa.Value]*Val)
	// KeepFact, when set, decides which branch facts are remembered.
	KeepFact func(v *Val) bool

	ctxs    map[ctxKey]int
	parents []int
	live    map[*ssa.Function]*liveInfo
	gcache  map[*ssa.Global]*Val
	prog    *ssa.Program
	ginit   map[*ssa.Global][]ssa.Value
	cheapC  map[*ssa.Function]bool
	mods    map[*ssa.Function]map[string]bool
	stored  map[string]bool
	selCh   map[*Val][]*Val // select index symbol -> channels
	errOf   map[*Val]*Val   // result of ctx.Err() -> ctx
}

func New(prog *ssa.Program) *Engine {
	return &Engine{In: NewInterner(), MaxDepth: 10, MaxSteps: 3000000, LockHavoc: true,
		Inlined: map[*ssa.Function]bool{}, Cuts: map[string]bool{},
		ctxs: map[ctxKey]int{}, parents: []int{-1}, live: map[*ssa.Function]*liveInfo{},
		gcache: map[*ssa.Global]*Val{}, prog: prog,
		cheapC: map[*ssa.Function]bool{}, mods: map[*ssa.Function]map[string]bool{},
		selCh: map[*Val][]*Val{}, errOf: map[*Val]*Val{}}
}

func (e *Engine) ctx(parent int, site ssa.Instruction, fn *ssa.Function) int {
	k := ctxKey{parent, site, fn}
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	e.parents = append(e.parents, parent)
	c := len(e.parents) - 1
	e.ctxs[k] = c
	return c
}

func (e *Engine) within(c, anc int) bool {
	for c >= 0 {
		if c == anc {
			return true
		}
		c = e.parents[c]
	}
	return false
}

// globalInit resolves a global that is assigned exactly once in the program
// (by its package initialiser) to the assigned value, when that is a function
// or another global's value.
func (e *Engine) globalInit(addr *Val) *Val {
	g, ok := addr.Ref.(*ssa.Global)
	if !ok {
		return nil
	}
	if v, ok := e.gcache[g]; ok {
		return v
	}
	e.gcache[g] = nil
	if e.ginit == nil {
		e.ginit = map[*ssa.Global][]ssa.Value{}
		for _, p := range e.prog.AllPackages() {
			var visit func(f *ssa.Function)
			visit = func(f *ssa.Function) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok {
							if gg, ok := s.Addr.(*ssa.Global); ok {
								e.ginit[gg] = append(e.ginit[gg], s.Val)
							}
						}
					}
				}
				for _, a := range f.AnonFuncs {
					visit(a)
				}
			}
			for _, m := range p.Members {
				if f, ok := m.(*ssa.Function); ok {
					visit(f)
				}
				if t, ok := m.(*ssa.Type); ok {
					for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
						ms := e.prog.MethodSets.MethodSet(tt)
						for i := 0; i < ms.Len(); i++ {
							if fo, ok := ms.At(i).Obj().(*types.Func); ok {
								if f := e.prog.FuncValue(fo); f != nil {
									visit(f)
								}
							}
						}
					}
				}
			}
		}
	}
	vs := e.ginit[g]
	uniq := map[ssa.Value]bool{}
	for _, v := range vs {
		uniq[v] = true
	}
	if len(uniq) != 1 {
		return nil
	}
	var r *Val
	switch x := vs[0].(type) {
	case *ssa.Function:
		r = e.In.Func(x)
	case *ssa.Const:
		r = e.In.Const(x.Value, x.Type())
		if x.Value == nil {
			r = nil
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g2, ok := x.X.(*ssa.Global); ok {
				a2 := e.In.Global(g2)
				if v := e.globalInit(a2); v != nil {
					r = v
				} else {
					r = e.In.Node(KLoad, 0, "", x.Type(), a2)
				}
			}
		}
	}
	e.gcache[g] = r
	return r
}

// ---------- liveness

type liveInfo struct {
	in   []map[ssa.Value]bool // live at block entry (phis of the block excluded)
	head map[int]bool         // loop headers
}

func (e *Engine) liveness(fn *ssa.Function) *liveInfo {
	if l, ok := e.live[fn]; ok {
		return l
	}
	n := len(fn.Blocks)
	li := &liveInfo{in: make([]map[ssa.Value]bool, n), head: map[int]bool{}}
	for i := range li.in {
		li.in[i] = map[ssa.Value]bool{}
	}
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range li.in[s.Index] {
					cur[v] = true
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
						_ = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, ph)
					for k, p := range s.Preds {
						if p == b && k <= pi {
							if isReg(ph.Edges[k]) {
								cur[ph.Edges[k]] = true
							}
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if *o != nil && isReg(*o) {
						cur[*o] = true
					}
				}
			}
			// phis defined here are live-in (assigned on the edge)
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					cur[ph] = true
				} else {
					break
				}
			}
			for v := range cur {
				if !li.in[i][v] {
					li.in[i][v] = true
					changed = true
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li.head[s.Index] = true
			}
		}
	}
	e.live[fn] = li
	return li
}

func isReg(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, *ssa.FreeVar:
		return false
	}
	return true
}

// ---------- values

func (e *Engine) val(st *State, fr *Frame, v ssa.Value) *Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.In.Zero(x.Type())
		}
		return e.In.Const(x.Value, x.Type())
	case *ssa.Function:
		return e.In.Func(x)
	case *ssa.Global:
		return e.In.Global(x)
	case *ssa.Builtin:
		return e.In.NamedSym("builtin."+x.Name(), x.Type())
	case *ssa.FreeVar:
		for i, f := range fr.Fn.FreeVars {
			if f == x {
				return fr.Free[i]
			}
		}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	return e.In.Sym(fr.Ctx, v, "?", v.Type())
}

func (e *Engine) limit(fr *Frame, ref ssa.Value, v *Val) *Val {
	if v.Depth > 20 {
		return e.In.Sym(fr.Ctx, ref, "deep", ref.Type())
	}
	return v
}

// ---------- execution

type exit struct {
	st   *State
	rets []*Val
	in   ssa.Instruction
}

type item struct {
	b      *ssa.BasicBlock
	idx    int
	st     *State
	env    map[ssa.Value]*Val
	defers []deferRec
}

// Run analyses fn as a root with opaque parameters.
func (e *Engine) Run(fn *ssa.Function, init func(*State)) {
	st := e.NewState()
	if init != nil {
		init(st)
	}
	var args, free []*Val
	for i := range fn.Params {
		args = append(args, e.In.Param(fn, i))
	}
	for i := range fn.FreeVars {
		free = append(free, e.In.Free(fn, i))
	}
	exits := e.exec(fn, args, free, st, nil, nil)
	if e.Hooks.Exit != nil {
		for _, x := range exits {
			e.Hooks.Exit(x.st, x.rets, x.in)
		}
	}
}

// RunWith analyses fn with given arguments and returns its exits.
func (e *Engine) RunWith(fn *ssa.Function, args, free []*Val, st *State) (sts []*State, rets [][]*Val) {
	for _, x := range e.exec(fn, args, free, st, nil, nil) {
		sts = append(sts, x.st)
		rets = append(rets, x.rets)
	}
	return
}

func (e *Engine) exec(fn *ssa.Function, args, free []*Val, st *State, parent *Frame, site ssa.Instruction) []exit {
	pc := 0
	depth := 0
	if parent != nil {
		pc = parent.Ctx
		depth = parent.depth + 1
	}
	ctx := e.ctx(pc, site, fn)
	e.Inlined[fn] = true
	base := &Frame{Fn: fn, Ctx: ctx, Parent: parent, Site: site, Free: free, depth: depth}
	env := map[ssa.Value]*Val{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	if e.Hooks.Enter != nil {
		base.env = env
		e.Hooks.Enter(st, base)
	}
	li := e.liveness(fn)
	var exits []exit
	exitSeen := map[string]bool{}
	visited := map[string]bool{}
	headCount := map[int]int{}
	work := []item{{b: fn.Blocks[0], st: st, env: env}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if e.Overflow {
			return exits
		}
		if it.idx == 0 {
			e.gc(it, li, base)
			k := fmt.Sprintf("%d#%s#%s", it.b.Index, envKey(it.env, it.defers), it.st.Key())
			if visited[k] {
				continue
			}
			visited[k] = true
			headCount[it.b.Index]++
			if e.Trace != nil {
				e.Trace(fn, it.b, it.st, it.env)
			}
		}
		fr := &Frame{Fn: fn, Ctx: ctx, Parent: parent, Site: site, Free: free, env: it.env, defers: it.defers, depth: depth}
		succ, ex := e.runBlock(fr, it)
		for i := range succ {
			work = append(work, succ[i])
		}
		for _, x := range ex {
			e.gcExit(&x, base)
			k := valsKey(x.rets) + x.st.Key()
			if !exitSeen[k] {
				exitSeen[k] = true
				if e.Hooks.Leave != nil {
					e.Hooks.Leave(x.st, fr, x.rets)
				}
				exits = append(exits, x)
			}
		}
	}
	return exits
}

func valsKey(v []*Val) string {
	var sb strings.Builder
	for _, x := range v {
		fmt.Fprintf(&sb, "%d,", x.ID)
	}
	return sb.String()
}

func envKey(env map[ssa.Value]*Val, d []deferRec) string {
	type kv struct {
		n string
		v int
	}
	l := make([]kv, 0, len(env))
	for k, v := range env {
		l = append(l, kv{k.Name(), v.ID})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n < l[j].n })
	var sb strings.Builder
	for _, x := range l {
		fmt.Fprintf(&sb, "%s=%d,", x.n, x.v)
	}
	for _, x := range d {
		fmt.Fprintf(&sb, "D%p:%s", x.instr, valsKey(x.args))
	}
	return sb.String()
}

// gc drops environment entries that are dead and facts/cells about symbols of
// this activation nobody can reach any more.
func (e *Engine) gc(it item, li *liveInfo, fr *Frame) {
	live := li.in[it.b.Index]
	for k := range it.env {
		if !live[k] {
			delete(it.env, k)
		}
	}
	var roots []*Val
	for _, v := range it.env {
		roots = append(roots, v)
	}
	for _, d := range it.defers {
		roots = append(roots, d.args...)
		if d.fnv != nil {
			roots = append(roots, d.fnv)
		}
	}
	roots = append(roots, fr.Free...)
	e.sweep(it.st, roots, fr.Ctx)
}

func (e *Engine) gcExit(x *exit, fr *Frame) {
	e.sweep(x.st, x.rets, fr.Ctx)
}

func (e *Engine) sweep(st *State, roots []*Val, ctx int) {
	own := func(v *Val) bool {
		return (v.K == KSym && v.Ref != nil || v.K == KAlloc) && e.within(v.Ctx, ctx)
	}
	alive := map[*Val]bool{}
	var mark func(v *Val)
	var pend []*Val
	mark = func(v *Val) {
		v.Walk(func(x *Val) bool {
			if own(x) && !alive[x] {
				alive[x] = true
				pend = append(pend, x)
			}
			return true
		})
	}
	for _, r := range roots {
		mark(r)
	}
	for _, t := range st.TS {
		for _, v := range t.V {
			mark(v)
		}
	}
	rooted := map[*Val][]*Val{} // own root -> cells
	for a, v := range st.mem {
		r := addrRoot(a)
		var o *Val
		r.Walk(func(x *Val) bool {
			if own(x) {
				o = x
			}
			return o == nil
		})
		if o == nil {
			mark(a)
			mark(v)
		} else {
			rooted[o] = append(rooted[o], a)
		}
	}
	for len(pend) > 0 {
		x := pend[len(pend)-1]
		pend = pend[:len(pend)-1]
		for _, a := range rooted[x] {
			mark(a)
			mark(st.mem[a])
		}
	}
	for o, as := range rooted {
		if !alive[o] {
			for _, a := range as {
				delete(st.mem, a)
			}
		}
	}
	dead := func(v *Val) bool {
		d := false
		v.Walk(func(x *Val) bool {
			if own(x) && !alive[x] {
				d = true
			}
			return !d
		})
		return d
	}
	for k := range st.facts {
		if dead(k) {
			delete(st.facts, k)
		}
	}
	for k := range st.nilf {
		if dead(k) {
			delete(st.nilf, k)
		}
	}
}

// noteRecv remembers, on a taken select case, that the channel of a context
// was received from.
func (e *Engine) noteRecv(st *State, cond *Val, taken bool) {
	if !taken || cond.K != KBin || cond.Op != token.EQL {
		return
	}
	chs := e.selCh[cond.Args[0]]
	if n, ok := constInt(cond.Args[1]); ok && int(n) < len(chs) && n >= 0 {
		if ch := chs[n]; ch.K == KCall && ch.Name == "(context.Context).Done" {
			st.facts[e.In.Node(KCall, 0, "received", types.Typ[types.Bool], ch)] = true
		}
	}
}

func (e *Engine) runBlock(fr *Frame, it item) (next []item, exits []exit) {
	st := it.st
	b := it.b
	for i := it.idx; i < len(b.Instrs); i++ {
		e.Steps++
		if e.Steps > e.MaxSteps {
			e.Overflow = true
			return
		}
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			if e.Hooks.Instr != nil {
				e.Hooks.Instr(st, fr, in)
			}
			return []item{e.edge(fr, b, b.Succs[0], 0, st, fr.env)}, exits
		case *ssa.If:
			cond := e.val(st, fr, x.Cond)
			for k := 0; k < 2; k++ {
				taken := k == 0
				if v, known := st.Eval(cond); known {
					if v != taken {
						continue
					}
					ns := st
					e.noteRecv(ns, cond, taken)
					if e.Hooks.Branch != nil {
						e.Hooks.Branch(ns, fr, x, cond, taken)
					}
					next = append(next, e.edge(fr, b, b.Succs[k], k, ns, cloneEnv(fr.env)))
					continue
				}
				ns := st.Clone()
				if !ns.Assume(cond, taken) {
					continue
				}
				e.noteRecv(ns, cond, taken)
				if e.KeepFact != nil && !e.KeepFact(cond) {
					ns.drop(cond)
				}
				if p := InstrPos(in); p.IsValid() {
					w := "false"
					if taken {
						w = "true"
					}
					ns.Note(p, "branch %s is %s", cond, w)
				}
				if e.Hooks.Branch != nil {
					e.Hooks.Branch(ns, fr, x, cond, taken)
				}
				next = append(next, e.edge(fr, b, b.Succs[k], k, ns, cloneEnv(fr.env)))
			}
			return
		case *ssa.Return:
			if e.Hooks.Instr != nil {
				e.Hooks.Instr(st, fr, in)
			}
			rets := make([]*Val, len(x.Results))
			for k, r := range x.Results {
				rets[k] = e.val(st, fr, r)
			}
			return next, append(exits, exit{st, rets, in})
		case *ssa.Panic:
			if e.Hooks.Panic != nil {
				e.Hooks.Panic(st, fr, in)
			}
			return
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			d := fr.defers[len(fr.defers)-1]
			rest := append([]deferRec(nil), fr.defers[:len(fr.defers)-1]...)
			c := &Call{Common: d.common, Instr: d.instr, Frame: fr, Args: d.args, FnVal: d.fnv, Kind: CKCall, InDefer: true}
			e.resolve(c)
			outs := e.doCall(st, c, nil)
			for _, o := range outs {
				next = append(next, item{b: b, idx: i, st: o.st, env: cloneEnv(fr.env), defers: rest})
			}
			return
		case *ssa.Defer:
			c := e.mkCall(st, fr, &x.Call, x)
			c.Kind = CKDefer
			if e.Hooks.Call != nil {
				e.Hooks.Call(st, c)
			}
			// a defer inside a loop: the first and the last executions stand for all of them
			ds, n := []deferRec(nil), 0
			for _, d := range fr.defers {
				if d.instr == ssa.Instruction(x) {
					if n++; n > 1 || sameVals(d.args, c.Args) {
						continue
					}
				}
				ds = append(ds, d)
			}
			fr.defers = append(ds, deferRec{common: &x.Call, instr: x, fnv: c.FnVal, args: c.Args})
			continue
		case *ssa.Go:
			c := e.mkCall(st, fr, &x.Call, x)
			c.Kind = CKGo
			if e.Hooks.Call != nil {
				e.Hooks.Call(st, c)
			}
			// whatever the goroutine captures may change under us
			e.havocArgs(st, fr, x, append(append([]*Val(nil), c.Args...), c.Bind...), nil)
			continue
		case *ssa.Call:
			c := e.mkCall(st, fr, &x.Call, x)
			outs := e.doCall(st, c, x)
			if len(outs) == 1 {
				st = outs[0].st
				fr.env[x] = e.pack(x.Type(), outs[0].rets)
				continue
			}
			for _, o := range outs {
				env := cloneEnv(fr.env)
				env[x] = e.pack(x.Type(), o.rets)
				next = append(next, item{b: b, idx: i + 1, st: o.st, env: env, defers: fr.defers})
			}
			return
		}
		e.step(st, fr, in)
	}
	return
}

func sameVals(a, b []*Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func cloneEnv(m map[ssa.Value]*Val) map[ssa.Value]*Val {
	n := make(map[ssa.Value]*Val, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (e *Engine) pack(t types.Type, rets []*Val) *Val {
	if tu, ok := t.(*types.Tuple); ok {
		if tu.Len() == 0 {
			return e.In.NamedSym("void", nil)
		}
		return e.In.Node(KTuple, 0, "", nil, rets...)
	}
	if len(rets) == 1 {
		return rets[0]
	}
	return e.In.NamedSym("void", nil)
}

// edge moves along b->s assigning phis; numeric/structural loop-carried
// values are widened to opaque symbols on back edges.
func (e *Engine) edge(fr *Frame, b, s *ssa.BasicBlock, k int, st *State, env map[ssa.Value]*Val) item {
	pi := -1
	n := 0
	for i, p := range s.Preds {
		if p == b {
			// the k-th successor of b that is s: for If with both arms to s
			if pi < 0 || n <= k {
				pi = i
			}
			n++
		}
	}
	if len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] {
		idxs := []int{}
		for i, p := range s.Preds {
			if p == b {
				idxs = append(idxs, i)
			}
		}
		pi = idxs[min(k, len(idxs)-1)]
	}
	back := s.Dominates(b)
	type as struct {
		p *ssa.Phi
		v *Val
	}
	var asg []as
	for _, in := range s.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := e.val(st, &Frame{Fn: fr.Fn, Ctx: fr.Ctx, Free: fr.Free, env: env}, p.Edges[pi])
		if back && (e.mustWiden(v, p.Type()) || sumOf(p.Edges[pi], p, 4) && v.K != KConst) {
			w := e.In.Sym(fr.Ctx, p, "loop", p.Type())
			if e.Grown {
				st.grown(w, v)
			}
			v = w
		}
		asg = append(asg, as{p, v})
	}
	for _, a := range asg {
		if a.v.K == KSym && a.v.Ref == a.p {
			st.Forget(a.v)
		}
		env[a.p] = a.v
	}
	if back {
		for a, v := range st.mem {
			if e.mustWiden(v, v.Typ) && (addrRoot(a).K == KAlloc || v.Depth > 4) {
				w := e.In.NamedSym(fmt.Sprintf("lw%d", a.ID), v.Typ)
				st.mem[a] = w
			}
		}
	}
	return item{b: s, st: st, env: env, defers: fr.defers}
}

// grown remembers what a slice that grows in a loop began with, and what the
// first pass added.
func (st *State) grown(w, v *Val) {
	var elems []*Val
	for v.K == KCall && v.Name == "append" && len(v.Args) == 2 {
		elems = append(append([]*Val{}, st.VarArgs(v.Args[1])...), elems...)
		v = v.Args[0]
	}
	if v == w || len(elems) == 0 || len(elems) > 8 {
		return
	}
	st.Set(fmt.Sprintf("grown:%d", w.ID), "", append([]*Val{v}, elems...)...)
}

// sumOf tells whether v is computed by arithmetic, even when the terms happen
// to be trivial (0+x): x is of one round, the sum goes through all of them.
func sumOf(v ssa.Value, head *ssa.Phi, depth int) bool {
	switch b := v.(type) {
	case *ssa.Phi:
		if b == head || depth == 0 {
			return false
		}
		for _, x := range b.Edges {
			if sumOf(x, head, depth-1) {
				return true
			}
		}
	case *ssa.BinOp:
		switch b.Op {
		case token.ADD, token.SUB, token.MUL:
			return true
		}
	}
	return false
}

func (e *Engine) mustWiden(v *Val, t types.Type) bool {
	if v.K == KBin && v.Op != token.EQL && v.Op != token.LSS {
		return true
	}
	if v.K == KConst && v.Const.Kind() == constant.Int {
		return false
	}
	if v.K == KCall && v.Name == "append" {
		return true
	}
	switch v.K {
	case KSlice, KAgg, KCall, KIdx, KConv:
		return v.Depth > 4
	}
	return v.Depth > 8
}

func (e *Engine) mkCall(st *State, fr *Frame, cc *ssa.CallCommon, in ssa.Instruction) *Call {
	c := &Call{Common: cc, Instr: in, Frame: fr}
	if cc.IsInvoke() {
		c.Args = append(c.Args, e.val(st, fr, cc.Value))
	} else {
		c.FnVal = e.val(st, fr, cc.Value)
	}
	for _, a := range cc.Args {
		c.Args = append(c.Args, e.val(st, fr, a))
	}
	e.resolve(c)
	return c
}

func (e *Engine) resolve(c *Call) {
	cc := c.Common
	if cc.IsInvoke() {
		r := c.Args[0]
		if r.K == KMI && !types.IsInterface(r.Typ) {
			if sel := e.prog.MethodSets.MethodSet(r.Typ).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
				if f := e.prog.MethodValue(sel); f != nil {
					c.Fn = f
					c.Args = append([]*Val{r.Args[0]}, c.Args[1:]...)
				}
			}
		}
		return
	}
	if f := cc.StaticCallee(); f != nil && c.FnVal == nil {
		c.Fn = f
		return
	}
	if c.FnVal != nil {
		v := c.FnVal
		for v.K == KConv && len(v.Args) == 1 {
			v = v.Args[0]
		}
		if v.K == KFunc || v.K == KClosure {
			c.Fn = v.Fn
			c.Bind = v.Args
		}
	}
}

// InModule tells whether the function's body belongs to the analysed module.
func InModule(f *ssa.Function) bool {
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Origin() != nil {
		g = g.Origin()
	}
	if g.Pkg != nil {
		return strings.HasPrefix(g.Pkg.Pkg.Path()+"/", ModPath)
	}
	if o := g.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path()+"/", ModPath)
	}
	return false
}

func (e *Engine) recursive(fr *Frame, fn *ssa.Function) bool {
	for ; fr != nil; fr = fr.Parent {
		if fr.Fn == fn {
			return true
		}
	}
	return false
}

func (e *Engine) doCall(st *State, c *Call, res *ssa.Call) []exit {
	in := e.In
	if b, ok := c.Common.Value.(*ssa.Builtin); ok && !c.Common.IsInvoke() {
		if e.Hooks.Call != nil {
			if r := e.Hooks.Call(st, c); r != nil && r.Outcomes != nil {
				return e.outcomes(st, r.Outcomes)
			}
		}
		return e.builtin(st, c, b, res)
	}
	var r *Result
	if e.Hooks.Call != nil {
		r = e.Hooks.Call(st, c)
	}
	if r != nil && r.Outcomes != nil {
		outs := e.outcomes(st, r.Outcomes)
		return e.after(c, outs)
	}
	if r != nil && len(r.Multi) > 0 {
		var outs []exit
		for _, f := range r.Multi {
			if len(f.Blocks) == 0 || e.recursive(c.Frame, f) {
				continue
			}
			outs = append(outs, e.exec(f, c.Args, nil, st.Clone(), c.Frame, c.Instr)...)
		}
		if len(outs) > 0 {
			return e.after(c, outs)
		}
	}
	fn := c.Fn
	if r != nil && r.Target != nil {
		fn = r.Target
	}
	if (r == nil || !r.Opaque) && fn == nil && c.FnVal != nil && c.FnVal.K == KLoad && basicSig(c.Common.Signature()) {
		// a configured function of plain values: deterministic
		v := in.Node(KCall, 0, "dyn:"+c.FnVal.Args[0].Name, c.Common.Signature().Results().At(0).Type(), c.Args...)
		return e.after(c, []exit{{st: st, rets: []*Val{v}}})
	}
	if c.Common.IsInvoke() && fn == nil && pureInvoke[c.Name()] {
		v := in.Node(KCall, 0, c.Name(), c.Common.Signature().Results().At(0).Type(), c.Args...)
		return e.after(c, []exit{{st: st, rets: []*Val{v}}})
	}
	if e.LockHavoc && len(c.Args) == 1 {
		switch c.Name() {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
			if a := c.Args[0]; a.K == KField && addrRoot(a).K != KAlloc {
				var ref ssa.Value
				if v, ok := c.Instr.(ssa.Value); ok {
					ref = v
				}
				st.Havoc(a.Args[0], c.Frame.Ctx, ref, func(x *Val) bool {
					// only mutable plain fields of the lock owner; injected
					// collaborators are configured once
					return !e.Mutable(x)
				})
				st.forgetMapLens(nil)
			}
		}
	}
	if (r == nil || !r.Opaque) && fn != nil {
		if m := e.model(st, c); m != nil {
			return e.after(c, e.outcomes(st, m))
		}
	}
	inline := fn != nil && len(fn.Blocks) > 0 && InModule(fn)
	if inline && e.Relevant != nil && (r == nil || !r.Inline && r.Target == nil) && !e.Relevant(fn) && !e.cheap(fn) && !e.relevantArg(c) {
		inline = false
	}
	if r != nil && r.Opaque {
		inline = false
	}
	if inline && (r == nil || !r.Inline) && e.NoInline != nil && e.NoInline(fn) {
		inline = false
	}
	if inline && (e.recursive(c.Frame, fn) || c.Frame.depth >= e.MaxDepth) {
		e.Cuts[FuncName(fn)] = true
		inline = false
	}
	if inline {
		p := InstrPos(c.Instr)
		if p.IsValid() && fn.Synthetic == "" {
			st.Note(p, "call %s", FuncName(fn))
		}
		return e.after(c, e.exec(fn, c.Args, c.Bind, st, c.Frame, c.Instr))
	}
	// opaque
	if fn != nil && len(fn.Blocks) > 0 && InModule(fn) {
		e.applyMods(st, c, fn)
	}
	states := []*State{st}
	var failed map[*State]*Val
	if reportsErr[c.Name()] {
		states, failed = e.callback(st, c)
	} else if !readsOnly[c.Name()] {
		states = e.havocArgs(st, c.Frame, c.Instr, c.Args, c)
	}
	var outs []exit
	for _, s := range states {
		if v := failed[s]; v != nil {
			outs = append(outs, exit{st: s, rets: []*Val{v}})
			continue
		}
		sig := c.Common.Signature()
		var rets []*Val
		var ref ssa.Value
		if v, ok := c.Instr.(ssa.Value); ok {
			ref = v
		}
		for i := 0; i < sig.Results().Len(); i++ {
			sub := ""
			if sig.Results().Len() > 1 {
				sub = fmt.Sprintf("#%d", i)
			}
			v := in.Sym(c.Frame.Ctx, ref, sub, sig.Results().At(i).Type())
			v.Call = c.Common
			if c.Name() == "(context.Context).Err" {
				e.errOf[v] = c.Args[0]
			}
			if ref == nil {
				v = in.NamedSym(fmt.Sprintf("r%p%s", c.Instr, sub), sig.Results().At(i).Type())
			}
			s.Forget(v)
			rets = append(rets, v)
		}
		outs = append(outs, exit{st: s, rets: rets})
	}
	return e.after(c, outs)
}

func (e *Engine) after(c *Call, outs []exit) []exit {
	if e.Hooks.After != nil {
		for _, o := range outs {
			e.Hooks.After(o.st, c, o.rets)
		}
	}
	return outs
}

func (e *Engine) outcomes(st *State, os []Outcome) []exit {
	var r []exit
	for i, o := range os {
		s := st
		if i < len(os)-1 {
			s = st.Clone()
		}
		if o.Do != nil {
			o.Do(s)
		}
		r = append(r, exit{st: s, rets: o.Rets})
	}
	return r
}

// syncHigherOrder are external functions that call their function arguments
// before returning.
var syncHigherOrder = map[string]bool{
	"sort.Search": true, "sort.Slice": true, "sort.SliceStable": true, "slices.SortFunc": true, "slices.BinarySearchFunc": true,
	"(*sync.Once).Do": true, "strings.Map": true, "strings.FieldsFunc": true, "filepath.Walk": true, "path/filepath.Walk": true,
	"path/filepath.WalkDir": true, "slices.IndexFunc": true, "slices.ContainsFunc": true,
	"(*github.com/tidwall/buntdb.Tx).Ascend": true, "(*github.com/tidwall/buntdb.Tx).AscendRange": true,
	"(*github.com/tidwall/buntdb.Tx).AscendGreaterOrEqual": true, "(*github.com/tidwall/buntdb.Tx).AscendKeys": true,
	"(*github.com/tidwall/buntdb.Tx).Descend": true, "(*github.com/tidwall/buntdb.Tx).DescendRange": true,
	"(*github.com/tidwall/buntdb.Tx).DescendLessOrEqual": true, "(*github.com/tidwall/buntdb.Tx).DescendKeys": true,
	"(*github.com/tidwall/buntdb.Tx).AscendEqual": true,
	"(*github.com/tidwall/buntdb.DB).Update":      true, "(*github.com/tidwall/buntdb.DB).View": true,
}

// reportsErr are those of them that give back the error of their function.
var reportsErr = map[string]bool{
	"(*github.com/tidwall/buntdb.DB).Update": true, "(*github.com/tidwall/buntdb.DB).View": true,
	"path/filepath.WalkDir": true, "path/filepath.Walk": true,
}

// callback runs the function given to one of reportsErr: it may not be run at
// all because of an error (or, for walks, nothing to walk over), and its error
// is what is given back.
func (e *Engine) callback(st *State, c *Call) (states []*State, failed map[*State]*Val) {
	failed = map[*State]*Val{}
	in := e.In
	var fn *Val
	for _, a := range c.Args {
		for a.K == KMI || a.K == KConv {
			a = a.Args[0]
		}
		if (a.K == KClosure || a.K == KFunc) && len(a.Fn.Blocks) > 0 && InModule(a.Fn) && !e.recursive(c.Frame, a.Fn) {
			fn = a
		}
	}
	if fn == nil {
		return e.havocArgs(st, c.Frame, c.Instr, c.Args, nil), failed
	}
	not := st.Clone()
	errT := types.Universe.Lookup("error").Type()
	if strings.Contains(c.Name(), "buntdb") {
		v := in.NamedSym(fmt.Sprintf("begin%p", c.Instr), errT)
		not.Forget(v)
		not.Assume(e.Eq(v, in.Nil()), false)
		failed[not] = v
	}
	states = append(states, not)
	var as []*Val
	for _, p := range fn.Fn.Params {
		v := in.Sym(c.Frame.Ctx, p, "cb", p.Type())
		st.Forget(v)
		as = append(as, v)
	}
	for _, x := range e.exec(fn.Fn, as, fn.Args, st, c.Frame, c.Instr) {
		er := x.rets[len(x.rets)-1]
		bad := x.st.Clone()
		if !x.st.IsNil(er) && bad.Assume(e.Eq(er, in.Nil()), false) {
			failed[bad] = er
			states = append(states, bad)
		}
		if !x.st.IsNonNil(er) && x.st.Assume(e.Eq(er, in.Nil()), true) {
			states = append(states, x.st)
		}
	}
	return states, failed
}

// havocArgs forgets local cells an opaque callee can reach, and walks closures
// handed to known synchronous higher-order functions (zero or one time).
func (e *Engine) havocArgs(st *State, fr *Frame, at ssa.Instruction, args []*Val, c *Call) []*State {
	states := []*State{st}
	if c != nil && syncHigherOrder[c.Name()] {
		for _, a := range args {
			for a.K == KMI || a.K == KConv {
				a = a.Args[0]
			}
			if (a.K == KClosure || a.K == KFunc) && len(a.Fn.Blocks) > 0 && InModule(a.Fn) && !e.recursive(fr, a.Fn) {
				var ns []*State
				for _, s := range states {
					ns = append(ns, s.Clone())
					var as []*Val
					for i, p := range a.Fn.Params {
						v := e.In.Sym(fr.Ctx, a.Fn.Params[i], "cb", p.Type())
						s.Forget(v)
						as = append(as, v)
					}
					for _, x := range e.exec(a.Fn, as, a.Args, s, fr, at) {
						ns = append(ns, x.st)
					}
				}
				states = ns
			}
		}
		return states
	}
	var roots []*Val
	seen := map[*Val]bool{}
	var add func(v *Val)
	add = func(v *Val) {
		v.Walk(func(x *Val) bool {
			if (x.K == KAlloc || x.K == KField || x.K == KIndex) && addrRoot(x).K == KAlloc {
				if !seen[x] {
					seen[x] = true
					roots = append(roots, x)
				}
				return false
			}
			// a loaded value does not give access to the cell it came from
			return x.K != KLoad && x.K != KCall && x.K != KSym
		})
	}
	for _, a := range args {
		add(a)
	}
	if len(roots) == 0 {
		return states
	}
	if c != nil && (pureName(c.Name()) || isLogging(c) || strings.HasPrefix(c.Name(), "(*sync.")) {
		return states
	}
	for i := 0; i < len(roots); i++ {
		r := roots[i]
		for a, v := range st.mem {
			if a == r || isUnder(a, r) {
				add(v)
			}
		}
	}
	var ref ssa.Value
	if v, ok := at.(ssa.Value); ok {
		ref = v
	}
	for _, r := range roots {
		if e.isReadOnlyAlloc(r, args) {
			continue
		}
		if c != nil && c.Fn != nil && InModule(c.Fn) && len(c.Fn.Blocks) > 0 {
			var pt types.Type
			if r.K == KAlloc {
				pt = r.Typ
			}
			if pt != nil {
				if stt, ok := derefType(pt).Underlying().(*types.Struct); ok {
					m := e.FieldMods(c.Fn)
					for i := 0; i < stt.NumFields(); i++ {
						f := stt.Field(i)
						if !m[f.Name()] {
							continue
						}
						fa := e.In.Node(KField, 0, f.Name(), nil, r)
						n := e.In.Sym(fr.Ctx, ref, fmt.Sprintf("hf%d", fa.ID), f.Type())
						st.Forget(n)
						st.Store(fa, n)
					}
					continue
				}
			}
		}
		for a := range st.mem {
			if a == r || isUnder(a, r) {
				delete(st.mem, a)
			}
		}
		var nt types.Type
		if r.Typ != nil {
			nt = derefType(r.Typ)
		}
		n := e.In.Sym(fr.Ctx, ref, fmt.Sprintf("ha%d", r.ID), nt)
		st.Forget(n)
		st.mem[r] = n
	}
	return states
}

// variadic argument arrays and composite literals passed by value slices stay
// readable: only pointers to named locals are considered modified.
func (e *Engine) isReadOnlyAlloc(r *Val, args []*Val) bool {
	if a, ok := addrRoot(r).Ref.(*ssa.Alloc); ok {
		if a.Comment == "varargs" || a.Comment == "slicelit" {
			return true
		}
	}
	return false
}

func isLogging(c *Call) bool {
	n := c.Name()
	return strings.HasPrefix(n, "(golibs/logging.") || strings.HasPrefix(n, "golibs/logging.")
}

// readsOnly: functions that look at what they are given and keep nothing of it
var readsOnly = map[string]bool{"encoding/json.Marshal": true, "encoding/json.MarshalIndent": true, "reflect.DeepEqual": true, "google.golang.org/protobuf/proto.Marshal": true, "google.golang.org/protobuf/proto.Size": true}

var nonNilCalls = map[string]bool{"errorf": true, "ctxderived": true}

var purePkgs = []string{"strings.", "strconv.", "path/filepath.", "path.", "bytes.", "unicode.", "math.", "errors.", "fmt.Sprint", "fmt.Errorf",
	"(time.Time).", "(time.Duration).", "time.Duration", "encoding/binary.", "(encoding/binary.", "google.golang.org/grpc/status.", "(*strings.", "utf8.",
	"(github.com/oklog/ulid/v2.ULID).", "github.com/oklog/ulid/v2.Time", "(context.Context).Value", "github.com/oklog/ulid/v2.Parse", "slices.Contains", "google.golang.org/protobuf/types/known/timestamppb.", "(*google.golang.org/protobuf/types/known/timestamppb.Timestamp)."}

func pureName(n string) bool {
	switch n {
	case "strings.NewReader", "strings.NewReplacer", "bytes.NewBuffer", "bytes.NewReader", "errors.Join":
		return true
	}
	if strings.HasPrefix(n, "(*strings.Builder)") || strings.HasPrefix(n, "(*bytes.Buffer)") || strings.HasPrefix(n, "encoding/binary.Read") {
		return false
	}
	if strings.HasPrefix(n, "(encoding/binary.") && strings.Contains(n, "Put") {
		return false
	}
	if syncHigherOrder[n] || strings.HasPrefix(n, "path/filepath.EvalSymlinks") || strings.HasPrefix(n, "path/filepath.Glob") {
		return false
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// VarArgs expands the elements of a variadic slice value.
func (s *State) VarArgs(v *Val) []*Val {
	if v.K != KSlice || v.Args[0].K != KAlloc {
		return nil
	}
	base := v.Args[0]
	var out []*Val
	for i := int64(0); i < 64; i++ {
		x, ok := s.mem[s.E.In.Node(KIndex, 0, "", nil, base, s.E.In.Int(i))]
		if !ok {
			break
		}
		out = append(out, x)
	}
	return out
}

// model gives results for well-known side-effect free functions.
func (e *Engine) model(st *State, c *Call) []Outcome {
	n := c.Name()
	in := e.In
	errT := types.Universe.Lookup("error").Type()
	one := func(v *Val) []Outcome { return []Outcome{{Rets: []*Val{v}}} }
	switch n {
	case "fmt.Errorf":
		args := []*Val{}
		f, isC := ConstString(c.Args[0])
		va := st.VarArgs(c.Args[1])
		if isC && strings.Contains(f, "%w") {
			// operands of %w, in order
			k := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				j := i + 1
				for j < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[j])) {
					j++
				}
				if j < len(f) && f[j] != '%' {
					if f[j] == 'w' && k < len(va) {
						args = append(args, va[k])
					}
					k++
				}
				i = j
			}
		}
		return one(in.Node(KCall, 0, "errorf", errT, args...))
	case "errors.New":
		return one(in.Node(KCall, 0, "errorf", errT, c.Args[0]))
	case "google.golang.org/grpc/status.Error", "google.golang.org/grpc/status.Errorf":
		if code, ok := ConstInt(c.Args[0]); ok && code == 0 {
			return one(in.Nil())
		}
		return one(in.Node(KCall, 0, "status", errT, c.Args[0]))
	case "errors.Is", "golibs/errors.Is":
		return one(in.Node(KCall, 0, "errors.Is", types.Typ[types.Bool], stripMI(c.Args[0]), stripMI(c.Args[1])))
	case "golibs/errors.GRPCWrap":
		return one(in.Node(KCall, 0, "grpcwrap", errT, c.Args[0]))
	case "context.Background", "context.TODO":
		return one(in.NamedSym("ctx.Background", c.Common.Signature().Results().At(0).Type()))
	case "context.WithoutCancel":
		return one(in.Node(KCall, 0, "ctx.WithoutCancel", c.Common.Signature().Results().At(0).Type(), c.Args[0]))
	}
	if c.Fn != nil && !InModule(c.Fn) && pureName(n) && c.Common.Signature().Results().Len() == 1 {
		args := c.Args
		if c.Common.Signature().Variadic() && len(args) > 0 {
			if va := st.VarArgs(args[len(args)-1]); va != nil {
				args = append(append([]*Val(nil), args[:len(args)-1]...), va...)
			}
		}
		v := in.Node(KCall, 0, n, c.Common.Signature().Results().At(0).Type(), args...)
		return one(e.limitAt(c, v))
	}
	return nil
}

// pureInvoke: accessors of immutable snapshots.
var pureInvoke = map[string]bool{
	"(context.Context).Done": true,
	"(io/fs.FileInfo).Name":  true, "(io/fs.FileInfo).Size": true, "(io/fs.FileInfo).IsDir": true, "(io/fs.FileInfo).ModTime": true,
	"(io/fs.DirEntry).Name": true, "(io/fs.DirEntry).IsDir": true,
}

func (e *Engine) limitAt(c *Call, v *Val) *Val {
	if v.Depth > 20 {
		if r, ok := c.Instr.(ssa.Value); ok {
			return e.In.Sym(c.Frame.Ctx, r, "deep", v.Typ)
		}
	}
	return v
}

func stripMI(v *Val) *Val {
	for v.K == KMI {
		v = v.Args[0]
	}
	return v
}

func (e *Engine) builtin(st *State, c *Call, b *ssa.Builtin, res *ssa.Call) []exit {
	in := e.In
	var t types.Type
	if res != nil {
		t = res.Type()
	}
	ret := func(v *Val) []exit {
		if e.Hooks.After != nil {
			e.Hooks.After(st, c, []*Val{v})
		}
		return []exit{{st: st, rets: []*Val{v}}}
	}
	if b.Name() == "delete" || b.Name() == "clear" {
		st.forgetMapLens(c.Args[0])
	}
	switch b.Name() {
	case "len", "cap":
		a := c.Args[0]
		if b.Name() == "len" {
			return ret(st.Len(a))
		}
		return ret(in.Node(KCall, 0, "cap", t, a))
	case "min", "max":
		return ret(e.limit(c.Frame, res, in.Node(KCall, 0, b.Name(), t, c.Args...)))
	case "copy", "clear":
		// the destination's content is not known any more
		d := c.Args[0]
		for (d.K == KSlice || d.K == KConv) && len(d.Args) > 0 {
			d = d.Args[0]
		}
		for k := range st.mem {
			if k != d && isUnder(k, d) {
				delete(st.mem, k)
			}
		}
		if d.K == KAlloc || d.K == KField || d.K == KIndex {
			var et types.Type
			if d.Typ != nil {
				et = derefType(d.Typ)
			}
			n := in.Sym(c.Frame.Ctx, res, fmt.Sprintf("cp%d", d.ID), et)
			st.Forget(n)
			st.mem[d] = n
		}
	case "append":
		v := in.Node(KCall, 0, "append", t, c.Args...)
		if v.Depth > 6 {
			v = in.Sym(c.Frame.Ctx, res, "app", t)
			st.Forget(v)
		}
		return ret(v)
	}
	if t == nil {
		return ret(in.NamedSym("void", nil))
	}
	if tu, ok := t.(*types.Tuple); ok && tu.Len() == 0 {
		return ret(in.NamedSym("void", nil))
	}
	v := in.Sym(c.Frame.Ctx, res, "", t)
	st.Forget(v)
	return ret(v)
}

// Len is the abstract length.
func (st *State) Len(a *Val) *Val {
	in := st.E.In
	for a.K == KConv && len(a.Args) == 1 {
		a = a.Args[0]
	}
	if s, ok := ConstString(a); ok {
		return in.Int(int64(len(s)))
	}
	if a.K == KNil {
		return in.Int(0)
	}
	if a.K == KSlice && a.Args[1].K == KNil && a.Args[2].K == KNil && a.Args[0].K == KAlloc {
		if at, ok := derefType(a.Args[0].Typ).Underlying().(*types.Array); ok {
			return in.Int(at.Len())
		}
	}
	if a.K == KAlloc {
		if at, ok := derefType(a.Typ).Underlying().(*types.Array); ok {
			return in.Int(at.Len())
		}
	}
	if a.K == KSlice && a.Args[1].K == KNil && a.Args[2].K != KNil {
		return a.Args[2]
	}
	if a.K == KSlice && a.Args[0].K != KAlloc {
		lo, hi := a.Args[1], a.Args[2]
		if hi.K == KNil {
			hi = st.Len(a.Args[0])
		}
		if lo.K == KNil {
			return hi
		}
		return st.E.binop(token.SUB, hi, lo, types.Typ[types.Int], true)
	}
	return in.Node(KLen, 0, "", types.Typ[types.Int], a)
}

func (e *Engine) step(st *State, fr *Frame, instr ssa.Instruction) {
	in := e.In
	if e.Hooks.Instr != nil {
		e.Hooks.Instr(st, fr, instr)
	}
	set := func(v ssa.Value, r *Val) { fr.env[v] = e.limit(fr, v, r) }
	switch x := instr.(type) {
	case *ssa.Alloc:
		a := in.Alloc(fr.Ctx, x, x.Type())
		for k := range st.mem {
			if k == a || isUnder(k, a) {
				delete(st.mem, k)
			}
		}
		st.Forget(a)
		fr.env[x] = a
	case *ssa.Store:
		a, v := e.val(st, fr, x.Addr), e.val(st, fr, x.Val)
		if e.Hooks.Store != nil {
			e.Hooks.Store(st, fr, a, v, instr)
		}
		st.Store(a, v)
	case *ssa.UnOp:
		a := e.val(st, fr, x.X)
		switch x.Op {
		case token.MUL:
			if e.Hooks.Load != nil {
				e.Hooks.Load(st, fr, a, instr)
			}
			set(x, st.Load(a, x.Type()))
		case token.NOT:
			set(x, e.not(a))
		case token.ARROW:
			v := in.Sym(fr.Ctx, x, "", x.Type())
			st.Forget(v)
			if a.K == KCall && a.Name == "(context.Context).Done" {
				st.facts[in.Node(KCall, 0, "received", types.Typ[types.Bool], a)] = true
			}
			if tu, ok := x.Type().(*types.Tuple); ok {
				v0 := in.Sym(fr.Ctx, x, "#0", tu.At(0).Type())
				v1 := in.Sym(fr.Ctx, x, "#1", tu.At(1).Type())
				st.Forget(v0)
				st.Forget(v1)
				v = in.Node(KTuple, 0, "", nil, v0, v1)
			}
			set(x, v)
		default:
			if a.K == KConst && x.Op == token.SUB {
				set(x, in.Const(constant.UnaryOp(token.SUB, a.Const, 0), x.Type()))
			} else {
				set(x, in.Node(KUn, x.Op, "", x.Type(), a))
			}
		}
	case *ssa.BinOp:
		a, b := e.val(st, fr, x.X), e.val(st, fr, x.Y)
		_, c1 := x.X.(*ssa.Const)
		_, c2 := x.Y.(*ssa.Const)
		set(x, e.binop(x.Op, a, b, x.Type(), c1 && c2 || (a.K == KConst && b.K == KConst && (x.Op == token.AND || x.Op == token.OR))))
	case *ssa.FieldAddr:
		st0 := derefType(x.X.Type()).Underlying().(*types.Struct)
		set(x, in.Node(KField, 0, st0.Field(x.Field).Name(), nil, e.val(st, fr, x.X)))
	case *ssa.Field:
		st0 := x.X.Type().Underlying().(*types.Struct)
		set(x, st.FieldOf(e.val(st, fr, x.X), st0.Field(x.Field).Name(), x.Type()))
	case *ssa.IndexAddr:
		b := e.val(st, fr, x.X)
		ix := e.val(st, fr, x.Index)
		if b.K == KSlice && b.Args[1].K == KNil && b.Args[0].K == KAlloc {
			b = b.Args[0]
		}
		set(x, in.Node(KIndex, 0, "", nil, b, ix))
	case *ssa.Index:
		set(x, in.Node(KIdx, 0, "", x.Type(), e.val(st, fr, x.X), e.val(st, fr, x.Index)))
	case *ssa.Lookup:
		v := in.Sym(fr.Ctx, x, "#0", x.Type())
		if x.CommaOk {
			tu := x.Type().(*types.Tuple)
			v0 := in.Sym(fr.Ctx, x, "#0", tu.At(0).Type())
			v1 := in.Sym(fr.Ctx, x, "#1", tu.At(1).Type())
			st.Forget(v0)
			st.Forget(v1)
			set(x, in.Node(KTuple, 0, "", nil, v0, v1))
			return
		}
		st.Forget(v)
		set(x, v)
	case *ssa.Extract:
		t := e.val(st, fr, x.Tuple)
		if t.K == KTuple && x.Index < len(t.Args) {
			set(x, t.Args[x.Index])
		} else {
			set(x, in.Node(KExtract, 0, fmt.Sprint(x.Index), x.Type(), t))
		}
	case *ssa.MakeInterface:
		set(x, in.Node(KMI, 0, "", x.X.Type(), e.val(st, fr, x.X)))
	case *ssa.ChangeInterface:
		set(x, e.val(st, fr, x.X))
	case *ssa.ChangeType:
		set(x, e.val(st, fr, x.X))
	case *ssa.Convert:
		v := e.val(st, fr, x.X)
		if v.K == KConst && v.Const.Kind() == constant.Int {
			if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				set(x, in.Const(v.Const, x.Type()))
				return
			}
		}
		set(x, in.Node(KConv, 0, "", x.Type(), v))
	case *ssa.MultiConvert:
		set(x, in.Node(KConv, 0, "", x.Type(), e.val(st, fr, x.X)))
	case *ssa.SliceToArrayPointer:
		set(x, in.Node(KConv, 0, "", x.Type(), e.val(st, fr, x.X)))
	case *ssa.TypeAssert:
		v := e.val(st, fr, x.X)
		r := in.Node(KTA, 0, "", x.AssertedType, v)
		okv := in.Node(KCall, 0, "isType:"+typKey(x.AssertedType), types.Typ[types.Bool], v)
		if v.K == KMI {
			var match bool
			if types.IsInterface(x.AssertedType) {
				match = types.Implements(v.Typ, x.AssertedType.Underlying().(*types.Interface))
				r = v
			} else {
				match = types.Identical(v.Typ, x.AssertedType)
				if match {
					r = v.Args[0]
				}
			}
			okv = in.Bool(match)
		} else if v.K == KNil {
			okv = in.Bool(false)
		}
		if x.CommaOk {
			set(x, in.Node(KTuple, 0, "", nil, r, okv))
		} else {
			set(x, r)
		}
	case *ssa.MakeClosure:
		var bs []*Val
		for _, b := range x.Bindings {
			bs = append(bs, e.val(st, fr, b))
		}
		fr.env[x] = in.Closure(x.Fn.(*ssa.Function), bs)
	case *ssa.MakeMap, *ssa.MakeChan:
		v := instr.(ssa.Value)
		a := in.Alloc(fr.Ctx, v, v.Type())
		st.Forget(a)
		fr.env[v] = a
	case *ssa.MakeSlice:
		a := in.Alloc(fr.Ctx, x, x.Type())
		for k := range st.mem {
			if isUnder(k, a) {
				delete(st.mem, k)
			}
		}
		st.Forget(a)
		ln := e.val(st, fr, x.Len)
		st.Assume(e.eq(in.Node(KLen, 0, "", types.Typ[types.Int], a), ln), true)
		fr.env[x] = a
	case *ssa.Slice:
		b := e.val(st, fr, x.X)
		g := func(v ssa.Value) *Val {
			if v == nil {
				return in.Nil()
			}
			return e.val(st, fr, v)
		}
		lo, hi := g(x.Low), g(x.High)
		if b.K != KAlloc && lo.K == KNil && hi.K == KNil {
			set(x, b)
			return
		}
		set(x, in.Node(KSlice, 0, "", x.Type(), b, lo, hi))
	case *ssa.Range:
		v := in.Sym(fr.Ctx, x, "", x.Type())
		fr.env[x] = v
	case *ssa.Next:
		tu := x.Type().(*types.Tuple)
		var vs []*Val
		for i := 0; i < tu.Len(); i++ {
			v := in.Sym(fr.Ctx, x, fmt.Sprintf("#%d", i), tu.At(i).Type())
			st.Forget(v)
			vs = append(vs, v)
		}
		fr.env[x] = in.Node(KTuple, 0, "", nil, vs...)
	case *ssa.Select:
		tu := x.Type().(*types.Tuple)
		var vs []*Val
		for i := 0; i < tu.Len(); i++ {
			v := in.Sym(fr.Ctx, x, fmt.Sprintf("#%d", i), tu.At(i).Type())
			st.Forget(v)
			vs = append(vs, v)
		}
		var chs []*Val
		for _, s := range x.States {
			chs = append(chs, e.val(st, fr, s.Chan))
		}
		e.selCh[vs[0]] = chs
		if x.Blocking {
			// index in [0, n)
			st.Assume(e.less(vs[0], in.Int(0)), false)
			st.Assume(e.less(vs[0], in.Int(int64(len(x.States)))), true)
		}
		fr.env[x] = in.Node(KTuple, 0, "", nil, vs...)
	case *ssa.MapUpdate:
		st.forgetMapLens(e.val(st, fr, x.Map))
	case *ssa.Send:
	default:
		if v, ok := instr.(ssa.Value); ok {
			s := in.Sym(fr.Ctx, v, "", v.Type())
			st.Forget(s)
			fr.env[v] = s
		}
	}
}

func basicSig(sig *types.Signature) bool {
	if sig.Results().Len() != 1 {
		return false
	}
	ok := func(t types.Type) bool { _, b := t.Underlying().(*types.Basic); return b }
	for i := 0; i < sig.Params().Len(); i++ {
		if !ok(sig.Params().At(i).Type()) {
			return false
		}
	}
	return ok(sig.Results().At(0).Type())
}

// cheap functions are always inlined: straight-line or lightly branching
// helpers without loops whose callees are cheap or external.
// relevantArg: the callee is given a function the rule cares about.
func (e *Engine) relevantArg(c *Call) bool {
	for _, a := range c.Args {
		if (a.K == KClosure || a.K == KFunc) && a.Fn.Parent() != nil && e.Relevant(a.Fn) {
			return true
		}
	}
	return false
}

func (e *Engine) cheap(fn *ssa.Function) bool {
	return e.cheapD(fn, 0)
}

func (e *Engine) cheapD(fn *ssa.Function, d int) bool {
	if v, ok := e.cheapC[fn]; ok {
		return v
	}
	if d > 3 {
		return false
	}
	e.cheapC[fn] = false
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	if n > 60 || len(fn.Blocks) > 6 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go, *ssa.Defer:
				return false
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && InModule(f) && len(f.Blocks) > 0 {
					if strings.HasPrefix(SSAName(f), "golibs/logging.") {
						continue
					}
					if !e.cheapD(f, d+1) {
						return false
					}
				}
			}
		}
	}
	e.cheapC[fn] = true
	return true
}

// FieldMods lists the field names fn may store to, transitively.
func (e *Engine) FieldMods(fn *ssa.Function) map[string]bool {
	if m, ok := e.mods[fn]; ok {
		return m
	}
	m := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						m[FieldAddrName(fa)] = true
					} else if _, ok := x.Addr.(*ssa.Alloc); !ok {
						if p, ok := x.Addr.Type().Underlying().(*types.Pointer); ok {
							if stt, ok := p.Elem().Underlying().(*types.Struct); ok {
								for i := 0; i < stt.NumFields(); i++ {
									m[stt.Field(i).Name()] = true
								}
							}
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && InModule(g) {
						visit(g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	visit(fn)
	e.mods[fn] = m
	return m
}

// FieldAddrName is the name of the addressed field.
func FieldAddrName(fa *ssa.FieldAddr) string {
	return derefType(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
}

func (e *Engine) applyMods(st *State, c *Call, fn *ssa.Function) {
	m := e.FieldMods(fn)
	if len(m) == 0 {
		return
	}
	var ref ssa.Value
	if v, ok := c.Instr.(ssa.Value); ok {
		ref = v
	}
	hit := map[*Val]bool{}
	touch := func(a *Val) {
		if a.K == KField && m[a.Name] && addrRoot(a).K != KAlloc {
			hit[a] = true
		}
	}
	for k := range st.mem {
		touch(k)
	}
	scan := func(v *Val) {
		v.Walk(func(x *Val) bool {
			if x.K == KLoad {
				touch(x.Args[0])
			}
			return true
		})
	}
	for k := range st.facts {
		scan(k)
	}
	for k := range st.nilf {
		scan(k)
	}
	var l []*Val
	for a := range hit {
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	for _, a := range l {
		n := e.In.Sym(c.Frame.Ctx, ref, fmt.Sprintf("md%d", a.ID), nil)
		st.Forget(n)
		st.mem[a] = n
	}
}

// Mutable tells whether the addressed field is stored to anywhere outside of
// composite literals of fresh objects.
func (e *Engine) Mutable(a *Val) bool {
	if e.stored == nil {
		e.stored = map[string]bool{}
		e.eachFunc(func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
							if _, fresh := fa.X.(*ssa.Alloc); !fresh {
								e.stored[FieldAddrName(fa)] = true
							}
						}
					}
				}
			}
		})
	}
	for a.K == KField || a.K == KIndex {
		if a.K == KField && e.stored[a.Name] {
			return true
		}
		a = a.Args[0]
	}
	return false
}

func (e *Engine) eachFunc(f func(*ssa.Function)) {
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		f(fn)
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Function); ok && InModule(g) {
						visit(g)
					}
				}
			}
		}
	}
	for _, p := range e.prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path()+"/", ModPath) {
			continue
		}
		for _, m := range p.Members {
			if fn, ok := m.(*ssa.Function); ok {
				visit(fn)
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := e.prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						if fo, ok := ms.At(i).Obj().(*types.Func); ok {
							visit(e.prog.FuncValue(fo))
						}
					}
				}
			}
		}
	}
}
