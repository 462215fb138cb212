package rules

import (
	"go/token"
	"strings"

	"solint/eng"
	"solint/lib"
)

// part of a composed string: a constant, or a value written with a verb.
type part struct {
	s    string
	v    *eng.Val
	verb byte
}

// textOf takes a composed string apart: concatenation, Sprintf of a constant
// format, and (through known) values composed elsewhere.
func textOf(st *eng.State, v *eng.Val, known func(v *eng.Val) ([]part, bool)) []part {
	var res []part
	add := func(ps ...part) {
		for _, p := range ps {
			if p.v == nil && len(res) > 0 && res[len(res)-1].v == nil {
				res[len(res)-1].s += p.s
				continue
			}
			if p.v == nil && p.s == "" {
				continue
			}
			res = append(res, p)
		}
	}
	var walk func(v *eng.Val, verb byte, d int)
	walk = func(v *eng.Val, verb byte, d int) {
		for v.K == eng.KMI || v.K == eng.KConv && isText(v.Args[0]) {
			v = v.Args[0]
		}
		if known != nil {
			if ps, ok := known(v); ok {
				add(ps...)
				return
			}
		}
		if d > 12 {
			add(part{v: v, verb: verb})
			return
		}
		if s, ok := eng.ConstString(v); ok {
			add(part{s: s})
			return
		}
		if n, ok := eng.ConstInt(v); ok {
			add(part{s: itoa(int(n))})
			return
		}
		switch {
		case v.K == eng.KBin && v.Op == token.ADD && isText(v):
			walk(v.Args[0], verb, d+1)
			walk(v.Args[1], verb, d+1)
			return
		case v.K == eng.KCall && (v.Name == "fmt.Sprintf" || v.Name == "fmt.Fprintf"):
			f, ok := eng.ConstString(v.Args[0])
			if !ok {
				break
			}
			args := v.Args[1:]
			if len(args) == 1 && args[0].K == eng.KSlice {
				args = st.VarArgs(args[0])
			}
			k := 0
			for i := 0; i < len(f); i++ {
				if f[i] != '%' || i+1 == len(f) {
					add(part{s: f[i : i+1]})
					continue
				}
				i++
				for i < len(f)-1 && strings.ContainsRune("+-# 0123456789.", rune(f[i])) {
					i++
				}
				if f[i] == '%' {
					add(part{s: "%"})
					continue
				}
				if k >= len(args) {
					add(part{s: "%!"})
					continue
				}
				if f[i] == 's' || f[i] == 'v' || f[i] == 'd' {
					walk(args[k], f[i], d+1)
				} else {
					add(part{v: args[k], verb: f[i]})
				}
				k++
			}
			return
		case v.K == eng.KCall && v.Name == "strings.Join" && len(v.Args) == 2:
			sep, ok := eng.ConstString(v.Args[1])
			elems := elemsOf(st, v.Args[0])
			if ok && lib.Strip(v.Args[0]).K == eng.KNil {
				return
			}
			if !ok || len(elems) == 0 {
				break
			}
			for i, x := range elems {
				if i > 0 {
					add(part{s: sep})
				}
				walk(x, verb, d+1)
			}
			return
		case v.K == eng.KCall && v.Name == "fmt.Sprint" && len(v.Args) == 1:
			walk(v.Args[0], 'v', d+1)
			return
		case v.K == eng.KCall && (v.Name == "strconv.Itoa" || v.Name == "strconv.FormatInt"):
			walk(v.Args[0], 'd', d+1)
			return
		case v.K == eng.KCall && (v.Name == "strings.TrimSpace" || v.Name == "strings.ToLower"):
			walk(v.Args[0], verb, d+1)
			return
		}
		add(part{v: v, verb: verb})
	}
	walk(v, 's', 0)
	return res
}

// elemsOf lists the elements of a slice that is written out, or is filled by
// append: of what a loop adds, the first pass.
func elemsOf(st *eng.State, v *eng.Val) (res []*eng.Val) {
	for i := 0; i < 20; i++ {
		v = lib.Strip(v)
		if v.K == eng.KCall && v.Name == "append" && len(v.Args) == 2 {
			res = append(append([]*eng.Val{}, st.VarArgs(v.Args[1])...), res...)
			v = v.Args[0]
			continue
		}
		if t, ok := st.TS["grown:"+itoa(v.ID)]; ok {
			res = append(append([]*eng.Val{}, t.V[1:]...), res...)
			v = t.V[0]
			continue
		}
		return append(append([]*eng.Val{}, st.VarArgs(v)...), res...)
	}
	return nil
}

func isText(v *eng.Val) bool {
	if _, ok := eng.ConstString(v); ok {
		return true
	}
	return v.Typ != nil && v.Typ.Underlying().String() == "string"
}

// keyParts: the leading constant of a composed key and the values in it.
func keyParts(st *eng.State, v *eng.Val) (prefix string, holes []*eng.Val) {
	for i, p := range textOf(st, v, nil) {
		if p.v == nil {
			if i == 0 {
				prefix = p.s
			}
			continue
		}
		holes = append(holes, lib.Strip(p.v))
	}
	return
}

// written is the text a Write* method of a builder adds for v: a number is a
// character there.
func written(st *eng.State, v *eng.Val) []part {
	if n, ok := eng.ConstInt(lib.Strip(v)); ok {
		return []part{{s: string(rune(n))}}
	}
	return textOf(st, v, nil)
}
