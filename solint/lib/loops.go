package lib

import "golang.org/x/tools/go/ssa"

// LoopEntry finds the first instruction of the header of every loop of f whose
// body holds an instruction satisfying pred (the innermost such loop).
func LoopEntry(f *ssa.Function, pred func(in ssa.Instruction) bool) map[ssa.Instruction]bool {
	res := map[ssa.Instruction]bool{}
	type loop struct {
		head *ssa.BasicBlock
		body map[*ssa.BasicBlock]bool
	}
	loops := map[*ssa.BasicBlock]*loop{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := loops[s]
			if l == nil {
				l = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
				loops[s] = l
			}
			q := []*ssa.BasicBlock{b}
			for len(q) > 0 {
				x := q[0]
				q = q[1:]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				q = append(q, x.Preds...)
			}
		}
	}
	for _, b := range f.Blocks {
		hit := false
		for _, in := range b.Instrs {
			if pred(in) {
				hit = true
			}
		}
		if !hit {
			continue
		}
		var best *loop
		for _, l := range loops {
			if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
				best = l
			}
		}
		if best == nil {
			continue
		}
		for _, in := range best.head.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				res[in] = true
				break
			}
		}
	}
	return res
}
