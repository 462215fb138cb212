// Package rules holds one rule set per property.
package rules

import "solint/lib"

// Rule decides one property.
type Rule struct {
	Run     func(p *lib.Prog, r *lib.Report)
	Explain string
	Assume  []string
}

// Table maps property ids to their rules.
var Table = map[string]*Rule{}

func register(id string, run func(p *lib.Prog, r *lib.Report), explain string, assume ...string) {
	Table[id] = &Rule{Run: run, Explain: explain, Assume: append(assume, commonAssume...)}
}

var commonAssume = []string{
	"go/packages with the build's flags parses everything the binary contains; test files are not analysed",
	"external libraries behave as their documentation says; reflection and unsafe are outside of the analysed effects",
}
