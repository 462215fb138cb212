package lib

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
)

func constVal(c *types.Const) (int64, bool) {
	if c.Val().Kind() == constant.Int {
		return constant.Int64Val(c.Val())
	}
	return 0, false
}

// Obl is one obligation: an instance of a rule at a construct.
type Obl struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"pos"`
	OK        bool     `json:"ok"`
	Detail    string   `json:"detail,omitempty"`
	Trace     []string `json:"trace,omitempty"`
	Paths     int      `json:"paths"`
}

// Report collects what a property's rules decided.
type Report struct {
	P      *Prog
	mu     sync.Mutex
	obl    map[string]*Obl
	funcs  map[string]bool
	steps  int
	paths  int
	floors map[string]int
	notes  []string
}

func NewReport(p *Prog) *Report {
	return &Report{P: p, obl: map[string]*Obl{}, funcs: map[string]bool{}, floors: map[string]int{}}
}

func (r *Report) get(rule, construct string, pos token.Pos) *Obl {
	k := rule + " @ " + construct
	o := r.obl[k]
	if o == nil {
		o = &Obl{Rule: rule, Construct: construct, Pos: r.P.Pos(pos), OK: true}
		r.obl[k] = o
	}
	o.Paths++
	return o
}

// Ok records a discharged obligation (on one path).
func (r *Report) Ok(rule, construct string, pos token.Pos) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.get(rule, construct, pos)
}

// Bad records a violated (or undecidable) obligation.
func (r *Report) Bad(rule, construct string, pos token.Pos, st *eng.State, f string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	o := r.get(rule, construct, pos)
	if o.OK || (st != nil && len(o.Trace) == 0) {
		o.OK = false
		o.Detail = fmt.Sprintf(f, a...)
		o.Pos = r.P.Pos(pos)
		if st != nil {
			o.Trace = nil
			for _, l := range st.TraceLines(r.P.Fset, 60) {
				o.Trace = append(o.Trace, strings.TrimPrefix(l, r.P.Dir+"/"))
			}
		}
	}
}

// Check is Ok or Bad.
func (r *Report) Check(ok bool, rule, construct string, pos token.Pos, st *eng.State, f string, a ...any) {
	if ok {
		r.Ok(rule, construct, pos)
	} else {
		r.Bad(rule, construct, pos, st, f, a...)
	}
}

// Floor demands at least n instances of a rule: a rule that matches nothing
// must not pass silently.
func (r *Report) Floor(rule string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.floors[rule] = n
}

func (r *Report) Note(f string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.notes = append(r.notes, fmt.Sprintf(f, a...))
}

// Need resolves an anchor function; a missing one is a violation.
func (r *Report) Need(name string) *ssa.Function {
	f := r.P.Func(name)
	if f == nil {
		r.Bad("anchor", name, token.NoPos, nil, "the anchor function %s is not there (or has no body); the rule cannot be decided", name)
	}
	return f
}

// Covered records what an engine walked.
func (r *Report) Covered(e *eng.Engine, root *ssa.Function) {
	r.mu.Lock()
	r.steps += e.Steps
	for f := range e.Inlined {
		r.funcs[Name(f)] = true
	}
	over := e.Overflow
	r.mu.Unlock()
	if over {
		r.Bad("undecided", Name(root), root.Pos(), nil, "the path budget was exhausted while analysing %s", Name(root))
	}
}

func (r *Report) AddPaths(n int) {
	r.mu.Lock()
	r.paths += n
	r.mu.Unlock()
}

// AddFunc records a function walked by a structural rule.
func (r *Report) AddFunc(f *ssa.Function) {
	r.mu.Lock()
	r.funcs[Name(f)] = true
	r.mu.Unlock()
}

// Finish applies the floors.
func (r *Report) Finish() {
	cnt := map[string]int{}
	for _, o := range r.obl {
		cnt[o.Rule]++
	}
	var rules []string
	for k := range r.floors {
		rules = append(rules, k)
	}
	sort.Strings(rules)
	for _, k := range rules {
		if cnt[k] < r.floors[k] {
			r.Bad("coverage-floor", k, token.NoPos, nil, "rule %q matched %d instances, at least %d are expected: the code it is anchored on moved out of its reach", k, cnt[k], r.floors[k])
		}
	}
}

// All lists the obligations, violations first.
func (r *Report) All() []*Obl {
	var l []*Obl
	for _, o := range r.obl {
		l = append(l, o)
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].OK != l[j].OK {
			return !l[i].OK
		}
		if l[i].Rule != l[j].Rule {
			return l[i].Rule < l[j].Rule
		}
		return l[i].Construct < l[j].Construct
	})
	return l
}

// Stats gives the measured coverage.
func (r *Report) Stats() (funcs []string, steps, paths int, perRule map[string]int, notes []string) {
	for f := range r.funcs {
		funcs = append(funcs, f)
	}
	sort.Strings(funcs)
	perRule = map[string]int{}
	for _, o := range r.obl {
		perRule[o.Rule]++
	}
	return funcs, r.steps, r.paths, perRule, r.notes
}
