package lib

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
)

// Job runs the engine over a set of roots with one hook set.
type Job struct {
	P        *Prog
	R        *Report
	Roots    []*ssa.Function
	Relevant map[*ssa.Function]bool // functions worth inlining (nil: all)
	MaxDepth int
	MaxSteps int
	NoInline func(root, fn *ssa.Function) bool
	NoHavoc  bool
	KeepFact func(v *eng.Val) bool
	Init     func(e *eng.Engine, root *ssa.Function, st *eng.State)
	Hooks    func(e *eng.Engine, root *ssa.Function) eng.Hooks
}

// Do runs the job; functions holding a relevant site that no root reached are
// walked as roots of their own, so that no site escapes.
func (j *Job) Do(sites []ssa.CallInstruction) {
	visited := map[*ssa.Function]bool{}
	mu := make(chan struct{}, 1)
	run := func(roots []*ssa.Function) {
		Parallel(roots, func(fn *ssa.Function) {
			e := eng.New(j.P.SSA)
			if j.MaxDepth > 0 {
				e.MaxDepth = j.MaxDepth
			}
			e.MaxSteps = 1500000
			if j.MaxSteps > 0 {
				e.MaxSteps = j.MaxSteps
			}
			e.LockHavoc = !j.NoHavoc
			if j.NoInline != nil {
				e.NoInline = func(f *ssa.Function) bool { return !isGetter(f) && j.NoInline(fn, f) }
			}
			e.KeepFact = j.KeepFact
			if os.Getenv("SOLINT_TRACE") != "" && strings.Contains(Name(fn), os.Getenv("SOLINT_TRACE")) {
				cnt := map[*ssa.BasicBlock]int{}
				last := map[*ssa.BasicBlock]string{}
				e.Trace = func(f *ssa.Function, b *ssa.BasicBlock, st *eng.State, env map[ssa.Value]*eng.Val) {
					cnt[b]++
					if cnt[b]%200 == 0 {
						s := st.Dump()
						for k, v := range env {
							s += "\n  env " + k.Name() + " = " + v.String()
						}
						last[b] += "--\n" + s + "\n"
						if len(last[b]) > 20000 {
							last[b] = last[b][10000:]
						}
					}
				}
				defer func() {
					var bl []*ssa.BasicBlock
					for b := range cnt {
						bl = append(bl, b)
					}
					sort.Slice(bl, func(i, k int) bool { return cnt[bl[i]] > cnt[bl[k]] })
					for i, b := range bl {
						if i > 12 {
							break
						}
						fmt.Println("TRACE", Name(fn), Name(b.Parent()), b.Index, b.Comment, cnt[b])
						if i == 0 {
							fmt.Println(last[b])
						}
					}
				}()
			}
			if j.Relevant != nil {
				rel := j.Relevant
				e.Relevant = func(f *ssa.Function) bool { return rel[f] }
			}
			h := j.Hooks(e, fn)
			ex := h.Exit
			h.Exit = func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				j.R.AddPaths(1)
				if ex != nil {
					ex(st, rets, in)
				}
			}
			e.Hooks = h
			var init func(*eng.State)
			if j.Init != nil {
				init = func(st *eng.State) { j.Init(e, fn, st) }
			}
			e.Run(fn, init)
			j.R.Covered(e, fn)
			if os.Getenv("SOLINT_STEPS") != "" && e.Steps > 20000 {
				fmt.Println("STEPS", Name(fn), e.Steps)
			}
			mu <- struct{}{}
			for f := range e.Inlined {
				visited[f] = true
			}
			<-mu
		})
	}
	var roots []*ssa.Function
	for _, f := range j.Roots {
		if j.Relevant == nil || j.Relevant[f] {
			roots = append(roots, f)
		}
	}
	run(roots)
	var rest []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, s := range sites {
		f := s.Parent()
		if !visited[f] && !seen[f] {
			seen[f] = true
			rest = append(rest, f)
		}
	}
	if len(rest) > 0 {
		run(rest)
	}
}

// NameSet builds a predicate over callee names.
func NameSet(names ...string) func(string) bool {
	m := map[string]bool{}
	var pre []string
	for _, n := range names {
		if strings.HasSuffix(n, "*") {
			pre = append(pre, strings.TrimSuffix(n, "*"))
		} else {
			m[n] = true
		}
	}
	return func(s string) bool {
		if m[s] {
			return true
		}
		for _, p := range pre {
			if strings.HasPrefix(s, p) {
				return true
			}
		}
		return false
	}
}

// CallsTo is a Reaching predicate: a call, go or defer of a named callee.
func CallsTo(pred func(string) bool) func(f *ssa.Function, in ssa.Instruction) bool {
	return func(f *ssa.Function, in ssa.Instruction) bool {
		n := CallName(in)
		return n != "" && pred(n)
	}
}

// Site names the construct of an event: enclosing function -> callee.
func Site(c *eng.Call) string {
	return Name(c.Instr.Parent()) + " -> " + c.Name()
}

// Strip removes interface and numeric conversions.
func Strip(v *eng.Val) *eng.Val {
	for (v.K == eng.KMI || v.K == eng.KConv) && len(v.Args) == 1 {
		v = v.Args[0]
	}
	return v
}

// ErrRet is the error result of a call, if the last result is one.
func ErrRet(c *eng.Call, rets []*eng.Val) *eng.Val {
	if len(rets) == 0 {
		return nil
	}
	res := c.Common.Signature().Results()
	if res.Len() == 0 || res.At(res.Len()-1).Type().String() != "error" {
		return nil
	}
	return rets[len(rets)-1]
}

// KeepOutcome keeps the branch facts about call outcomes (nil-ness, booleans,
// errors.Is, equality with constants) and drops orderings and lengths, which
// the effect rules never need.
func KeepOutcome(v *eng.Val) bool {
	for v.K == eng.KUn && v.Op == token.NOT {
		v = v.Args[0]
	}
	if v.K != eng.KBin {
		return true
	}
	if v.Op != token.EQL {
		for _, x := range v.Args { // is there something in it?
			if x.K == eng.KCall && x.Name == "(io/fs.FileInfo).Size" {
				return v.Op == token.LSS
			}
		}
		return false
	}
	if v.Args[1].K == eng.KNil {
		return true
	}
	if v.Args[1].K != eng.KConst {
		return false
	}
	drop := false
	v.Args[0].Walk(func(x *eng.Val) bool {
		if x.K == eng.KLen || x.K == eng.KCall && strings.HasSuffix(x.Name, ".Compare") {
			drop = true
		}
		return !drop
	})
	return !drop
}

// KeepNil keeps only the nil-ness facts (and errors.Is on them).
func KeepNil(v *eng.Val) bool {
	for v.K == eng.KUn && v.Op == token.NOT {
		v = v.Args[0]
	}
	if v.K == eng.KCall && v.Name == "errors.Is" {
		return true
	}
	return v.K == eng.KBin && v.Op == token.EQL && v.Args[1].K == eng.KNil
}

// isGetter: straight-line code without calls; walking it is cheaper than
// forgetting what it returns.
func isGetter(f *ssa.Function) bool {
	generated := len(f.Blocks) == 3 && strings.HasPrefix(f.Name(), "Get") && strings.HasPrefix(PkgOf(f), "api/gen/") // of a message that may be nil
	if len(f.Blocks) != 1 && !generated || f.Signature.Results().Len() == 0 {
		return false
	}
	var ins []ssa.Instruction
	for _, b := range f.Blocks {
		ins = append(ins, b.Instrs...)
	}
	for _, in := range ins {
		switch x := in.(type) {
		case ssa.CallInstruction, *ssa.MapUpdate, *ssa.Send, *ssa.Panic:
			return false
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.Alloc); !ok || a.Heap {
				return false
			}
		}
	}
	return true
}
