package eng

import (
	"fmt"
	"go/token"
)

// TraceLines renders the tail of a path for a report.
func (s *State) TraceLines(fset *token.FileSet, max int) []string {
	var r []string
	for t := s.Tr; t != nil && len(r) < max; t = t.Prev {
		p := fset.Position(t.Pos)
		r = append(r, fmt.Sprintf("%s:%d: %s", p.Filename, p.Line, t.Note))
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}
