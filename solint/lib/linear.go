package lib

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"solint/eng"
)

// Lin is a linear form over abstract values.
type Lin struct {
	C    int64
	Coef map[*eng.Val]int64
}

// Linear normalises sums, differences and products with constants, so that
// re-associated expressions compare equal.
func Linear(v *eng.Val) Lin {
	l := Lin{Coef: map[*eng.Val]int64{}}
	l.add(v, 1)
	for k, c := range l.Coef {
		if c == 0 {
			delete(l.Coef, k)
		}
	}
	return l
}

// LinearSum is Linear of a sum.
func LinearSum(vs ...*eng.Val) Lin {
	l := Lin{Coef: map[*eng.Val]int64{}}
	for _, v := range vs {
		if v != nil {
			l.add(v, 1)
		}
	}
	for k, c := range l.Coef {
		if c == 0 {
			delete(l.Coef, k)
		}
	}
	return l
}

func (l *Lin) add(v *eng.Val, k int64) {
	for (v.K == eng.KConv || v.K == eng.KMI) && len(v.Args) == 1 {
		v = v.Args[0]
	}
	if n, ok := eng.ConstInt(v); ok {
		l.C += k * n
		return
	}
	if v.K == eng.KNil { // an omitted slice bound
		return
	}
	if v.K == eng.KBin {
		switch v.Op {
		case token.ADD:
			l.add(v.Args[0], k)
			l.add(v.Args[1], k)
			return
		case token.SUB:
			l.add(v.Args[0], k)
			l.add(v.Args[1], -k)
			return
		case token.MUL:
			a, b := Linear(v.Args[0]), Linear(v.Args[1])
			if len(b.Coef) == 0 {
				a, b = b, a
			}
			if len(a.Coef) == 0 {
				l.C += k * a.C * b.C
				for x, c := range b.Coef {
					l.Coef[x] += k * a.C * c
				}
				return
			}
		}
	}
	if v.K == eng.KUn && v.Op == token.SUB {
		l.add(v.Args[0], -k)
		return
	}
	l.Coef[v] += k
}

// Sub is the difference of two forms.
func (l Lin) Sub(m Lin) Lin {
	r := Lin{C: l.C - m.C, Coef: map[*eng.Val]int64{}}
	for k, c := range l.Coef {
		r.Coef[k] += c
	}
	for k, c := range m.Coef {
		r.Coef[k] -= c
	}
	for k, c := range r.Coef {
		if c == 0 {
			delete(r.Coef, k)
		}
	}
	return r
}

// IsConst tells whether the form is a plain number.
func (l Lin) IsConst() bool { return len(l.Coef) == 0 }

// String renders the form canonically; name renders the symbols.
func (l Lin) String() string { return l.Render(func(v *eng.Val) string { return v.String() }) }

func (l Lin) Render(name func(v *eng.Val) string) string {
	var s []string
	for k, c := range l.Coef {
		s = append(s, fmt.Sprintf("%d*%s", c, name(k)))
	}
	sort.Strings(s)
	return strings.Join(append(s, fmt.Sprint(l.C)), " + ")
}
