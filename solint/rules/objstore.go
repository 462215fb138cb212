package rules

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"solint/eng"
	"solint/lib"
)

func init() {
	register("C29", objStore, "")
}

const sssP = "golibs/sss"

// textFns are functions of texts and readers that are kept as terms.
var textFns = map[string]bool{
	"strings.Index": true, "strings.IndexByte": true, "strings.IndexRune": true, "strings.LastIndex": true, "strings.LastIndexByte": true, "strings.Split": true,
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.Trim": true, "strings.TrimSpace": true,
	"strings.TrimPrefix": true, "strings.TrimLeft": true, "strings.TrimSuffix": true, "strings.Count": true,
	"strings.Cut": true, "strings.CutPrefix": true, "strings.SplitN": true, "strings.SplitAfterN": true, "path.Split": true,
	"bytes.Clone": true, "bytes.NewReader": true, "bytes.NewBuffer": true, "strings.NewReader": true, "bytes.NewBufferString": true,
	"io.NopCloser": true, "io/ioutil.NopCloser": true,
	"github.com/aws/aws-sdk-go/aws.String": true, "github.com/aws/aws-sdk-go/aws.Int64": true, "github.com/aws/aws-sdk-go/aws.StringValue": true,
	"github.com/aws/aws-sdk-go/aws.BoolValue": true, "github.com/aws/aws-sdk-go/aws.ReadSeekCloser": true, "github.com/aws/aws-sdk-go/aws.Bool": true,
}

// asTerm keeps a function without effects as a term.
func asTerm(e *eng.Engine, c *eng.Call, fns map[string]bool) *eng.Result {
	n := c.Name()
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	if c.Kind == eng.CKDefer || c.Kind == eng.CKGo || !fns[n] && n != "slices.Clone" {
		return nil
	}
	sig := c.Common.Signature().Results()
	var rets []*eng.Val
	for i := 0; i < sig.Len(); i++ {
		name := n
		if sig.Len() > 1 {
			name += "#" + itoa(i)
		}
		rets = append(rets, e.In.Node(eng.KCall, 0, name, sig.At(i).Type(), c.Args...))
	}
	return &eng.Result{Outcomes: []eng.Outcome{{Rets: rets}}}
}

func isTerm(v *eng.Val, names ...string) bool {
	if v.K != eng.KCall {
		return false
	}
	for _, n := range names {
		if v.Name == n {
			return true
		}
	}
	return false
}

func isConstText(v *eng.Val, s string) bool {
	v = lib.Strip(v)
	if t, ok := eng.ConstString(v); ok {
		return t == s
	}
	if n, ok := eng.ConstInt(v); ok {
		return len(s) == 1 && n == int64(s[0])
	}
	return false
}

// behind: v is what is left of x behind its first character, the slash.
func behind(v, x *eng.Val) bool {
	v = lib.Strip(v)
	switch {
	case v.K == eng.KSlice && v.Args[0] == x && v.Args[2].K == eng.KNil:
		n, ok := eng.ConstInt(v.Args[1])
		return ok && n == 1
	case isTerm(v, "strings.TrimPrefix", "strings.TrimLeft"):
		return v.Args[0] == x && isConstText(v.Args[1], "/")
	}
	return false
}

// objStore decides the object stores: what is kept is what was given, under
// the key given, and what is listed is what is there.
func objStore(p *lib.Prog, r *lib.Report) {
	it := ifaceOf(p, sssP, "Storage")
	if it == nil {
		r.Bad("anchor", "sss.Storage", token.NoPos, nil, "the interface is not there")
		return
	}
	roots := implementers(p, []string{sssP, sssP + "/inmem", sssP + "/s3"}, it)
	keyOK, pathOK := p.Func(sssP+".IsKeyValid"), p.Func(sssP+".IsPathValid")
	if keyOK == nil || pathOK == nil {
		r.Bad("anchor", "sss.IsKeyValid", token.NoPos, nil, "the tests of keys and paths are not there")
		return
	}
	validKeys(p, r, keyOK, pathOK)
	j := &lib.Job{P: p, R: r, Roots: roots, NoHavoc: true, KeepFact: func(*eng.Val) bool { return true }, NoInline: func(root, g *ssa.Function) bool {
		return !strings.HasPrefix(lib.PkgOf(g), sssP) && lib.PkgOf(g) != "golibs/container"
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks { return objHooks(r, e, root, keyOK, pathOK) }
	j.Do(nil)
	for rule, n := range map[string]int{"checked": 8, "key": 7, "kept": 2, "given-out": 2, "listed": 6, "deleted": 2} {
		r.Floor(rule, n)
	}
}

// objects: a map that holds the objects.
func isObjects(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	el := m.Elem().Underlying()
	if s, ok := el.(*types.Slice); ok {
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte && isStr(m.Key())
	}
	return isStr(m.Key()) && isStr(m.Elem())
}

func objHooks(r *lib.Report, e *eng.Engine, root *ssa.Function, keyOK, pathOK *ssa.Function) eng.Hooks {
	name, op := lib.Name(root), root.Name()
	var asked *eng.Val // the key or path
	var from *eng.Val  // what to store
	for i, q := range root.Params {
		switch {
		case i == 0:
		case isStr(q.Type()):
			asked = e.In.Param(root, i)
		case types.IsInterface(q.Type()) && strings.HasSuffix(q.Type().String(), "io.Reader"):
			from = e.In.Param(root, i)
		}
	}
	v := visits{strict: true}
	boolT := types.Typ[types.Bool]
	checked := func(st *eng.State, pos token.Pos) {
		if asked == nil {
			return
		}
		f := keyOK
		if op == "List" {
			f = pathOK
		}
		ok := isTrue(st, e.In.Node(eng.KCall, 0, lib.Name(f), boolT, asked))
		r.Check(ok, "checked", name, pos, st, "%s goes on with a key or path that was not tested to be valid", name)
	}
	// the whole content read from the reader given
	var whole func(st *eng.State, x *eng.Val, d int) bool
	whole = func(st *eng.State, x *eng.Val, d int) bool {
		for x.K == eng.KConv || x.K == eng.KMI {
			x = x.Args[0]
		}
		x = lib.Strip(x)
		if d > 6 {
			return false
		}
		if t, ok := st.TS["read:"+itoa(x.ID)]; ok {
			return t.V[0] == from && st.IsNil(t.V[1])
		}
		if t, ok := st.TS["copied:"+itoa(x.ID)]; ok {
			return sameLen(st, x, t.V[0]) && whole(st, t.V[0], d+1)
		}
		switch {
		case isTerm(x, "bytes.Clone", "slices.Clone"):
			return whole(st, x.Args[0], d+1)
		case x.K == eng.KCall && x.Name == "append" && len(x.Args) == 2:
			b := lib.Strip(x.Args[0])
			n := lib.Linear(st.Len(b))
			return (b.K == eng.KNil || n.IsConst() && n.C == 0) && whole(st, x.Args[1], d+1)
		}
		return false
	}
	// the object that was found
	var found func(st *eng.State, x *eng.Val, d int) bool
	found = func(st *eng.State, x *eng.Val, d int) bool {
		for x.K == eng.KConv || x.K == eng.KMI {
			x = x.Args[0]
		}
		x = lib.Strip(x)
		if d > 6 {
			return false
		}
		if t, ok := st.TS["got:"+itoa(x.ID)]; ok {
			return t.V[0] == asked && len(t.V) > 1 && isTrue(st, t.V[1])
		}
		if t, ok := st.TS["copied:"+itoa(x.ID)]; ok {
			return sameLen(st, x, t.V[0]) && found(st, t.V[0], d+1)
		}
		if t, ok := st.TS["body:"+itoa(x.ID)]; ok {
			return st.IsNil(t.V[0])
		}
		switch {
		case isTerm(x, "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "bytes.NewBufferString", "io.NopCloser", "io/ioutil.NopCloser", "bytes.Clone", "slices.Clone"):
			return found(st, x.Args[0], d+1)
		case x.K == eng.KLoad && x.Args[0].K == eng.KField && x.Args[0].Name == "Body":
			t, ok := st.TS["result"]
			return ok && x.Args[0].Args[0] == t.V[0] && st.IsNil(t.V[1])
		case x.K == eng.KCall && x.Name == "append" && len(x.Args) == 2:
			b := lib.Strip(x.Args[0])
			n := lib.Linear(st.Len(b))
			return (b.K == eng.KNil || n.IsConst() && n.C == 0) && found(st, x.Args[1], d+1)
		}
		return false
	}
	// below: v is the key or the sub-path right below the path, for the key k
	slash := func(st *eng.State, k *eng.Val) (idx *eng.Val, rel *eng.Val) {
		st.EachFact(func(f *eng.Val, b bool) {
			f.Walk(func(x *eng.Val) bool {
				if isTerm(x, "strings.Index", "strings.IndexByte", "strings.IndexRune") && isConstText(x.Args[1], "/") && relTo(st, x.Args[0], k, asked) {
					idx, rel = x, x.Args[0]
				}
				return true
			})
		})
		return
	}
	below := func(st *eng.State, v, k *eng.Val) bool {
		v = lib.Strip(v)
		if idx, _ := slash(st, k); idx != nil {
			if placeKnown(st, idx) < 0 { // no further slash
				if v == k {
					return true
				}
				if v.K == eng.KSlice && v.Args[0] == k && isZero(v.Args[1]) {
					d := lib.Linear(v.Args[2]).Sub(lib.Linear(st.Len(k)))
					return v.Args[2].K == eng.KNil || d.IsConst() && d.C == 0
				}
				return false
			}
			if v.K == eng.KSlice && v.Args[0] == k && isZero(v.Args[1]) {
				if placeKnown(st, idx) <= 0 {
					return false
				}
				d := lib.Linear(v.Args[2]).Sub(lib.LinearSum(st.Len(asked), idx))
				return d.IsConst() && d.C == 1
			}
			ps := textOf(st, v, nil)
			if len(ps) < 2 || lib.Strip(ps[0].v) != asked || placeKnown(st, idx) <= 0 {
				return false
			}
			x := ps[1].v
			if x == nil {
				return false
			}
			x = lib.Strip(x)
			if x.K == eng.KSlice && relTo(st, x.Args[0], k, asked) && isZero(x.Args[1]) {
				d := lib.Linear(x.Args[2]).Sub(lib.Linear(idx))
				return d.IsConst() && (len(ps) == 2 && d.C == 1 || len(ps) == 3 && ps[2].v == nil && ps[2].s == "/" && d.C == 0)
			}
			return false
		}
		// strings.Cut
		ok := false
		st.EachFact(func(f *eng.Val, b bool) {
			if !isTerm(f, "strings.Cut#2") || !isConstText(f.Args[1], "/") || !relTo(st, f.Args[0], k, asked) {
				return
			}
			if !b {
				ok = ok || v == k
				return
			}
			ps := textOf(st, v, nil)
			if len(ps) == 3 && ps[0].v != nil && lib.Strip(ps[0].v) == asked && ps[1].v != nil && ps[2].v == nil && ps[2].s == "/" {
				x := lib.Strip(ps[1].v)
				ok = ok || isTerm(x, "strings.Cut#0") && x.Args[0] == f.Args[0]
			}
		})
		return ok
	}
	// the round of the loop over the keys is over
	roundDone := func(st *eng.State, pos token.Pos) {
		t, ok := st.TS["round"]
		for _, n := range st.KeysPrefix("listed:") {
			r.Check(st.Has("marked:"+n[len("listed:"):]), "listed", name+": once", pos, st, "%s may list a sub-path more than once: it does not note what it has listed", name)
			st.Del(n)
		}
		for _, n := range st.KeysPrefix("marked:") {
			st.Del(n)
		}
		if t.S == "in set" {
			return
		}
		if !ok || t.S != "" {
			return
		}
		k := t.V[0]
		out := hasPrefixKnown(st, k, asked, false)
		r.Check(out, "listed", name+": all", pos, st, "%s leaves out a key that is below the path", name)
	}
	collect := func(st *eng.State, x *eng.Val, pos token.Pos, deduped bool) {
		t := st.TS["round"]
		if t.S == "over" {
			sym := x
			for sym.K == eng.KMI {
				sym = sym.Args[0]
			}
			nx, ok := sym.Ref.(*ssa.Next)
			if ok {
				rg, is := nx.Iter.(*ssa.Range)
				if ok = is; is {
					_, ok = rg.X.(*ssa.MakeMap)
				}
			}
			r.Check(ok, "listed", name+": names", pos, st, "%s lists something else than what was found: %s", name, x)
			return
		}
		k := t.V[0]
		good := below(st, x, k)
		r.Check(good, "listed", name+": names", pos, st, "%s lists something else than the key or the sub-path right below the path: %s", name, x)
		r.Check(hasPrefixKnown(st, k, asked, true), "listed", name+": prefix", pos, st, "%s lists a key that is not below the path", name)
		r.Check(deduped, "listed", name+": once", pos, st, "%s may list a sub-path more than once", name)
		st.Set("round", "done", t.V...)
		st.Set("listed:"+itoa(x.ID), "")
	}
	isS3 := func(n string) string {
		i := strings.Index(n, "aws-sdk-go/service/s3.S3).")
		if i < 0 {
			return ""
		}
		return n[i+len("aws-sdk-go/service/s3.S3)."):]
	}
	inputField := func(st *eng.State, in *eng.Val, f string) *eng.Val {
		in = lib.Strip(in)
		t, ok := deref(in.Typ).Underlying().(*types.Struct)
		if !ok {
			return in
		}
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == f {
				return lib.Strip(st.Load(e.In.Node(eng.KField, 0, f, nil, in), t.Field(i).Type()))
			}
		}
		return in
	}
	text := func(st *eng.State, x *eng.Val) *eng.Val {
		if isTerm(x, "github.com/aws/aws-sdk-go/aws.String") {
			return lib.Strip(x.Args[0])
		}
		if x.K == eng.KField || x.K == eng.KAlloc {
			return lib.Strip(st.Load(x, types.Typ[types.String]))
		}
		return nil
	}
	endPage := func(st *eng.State, pos token.Pos) {
		t, ok := st.TS["page"]
		if !ok || st.IsNonNil(t.V[1]) {
			return
		}
		for _, f := range []string{"CommonPrefixes", "Contents"} {
			done := false
			for _, k := range st.KeysPrefix("visit:") {
				l := st.TS[k].V[0]
				if l.K == eng.KLoad && l.Args[0].K == eng.KField && l.Args[0].Name == f && l.Args[0].Args[0] == t.V[0] {
					done = done || v.done(st, l)
				}
			}
			if !done {
				l := st.Load(e.In.Node(eng.KField, 0, f, nil, t.V[0]), nil)
				done = v.done(st, l) && !st.Has("skip:"+itoa(l.ID))
				// nothing was in it
				done = done || st.AnyFact(func(c *eng.Val, b bool) bool {
					if c.K != eng.KBin || c.Op != token.LSS || b {
						return false
					}
					n := bare(c.Args[1])
					if n.K != eng.KLen || n.Args[0].K != eng.KLoad || n.Args[0].Args[0].K != eng.KField || n.Args[0].Args[0].Name != f || n.Args[0].Args[0].Args[0] != t.V[0] {
						return false
					}
					return v.counter(lib.Linear(c.Args[0])) && !st.Has("skip:"+itoa(n.Args[0].ID))
				})
			}
			r.Check(done, "listed", name+": "+f, pos, st, "%s leaves out some of the %s of an answer", name, f)
		}
	}
	return eng.Hooks{
		Call: func(st *eng.State, c *eng.Call) *eng.Result {
			n := c.Name()
			if c.Fn == keyOK || c.Fn == pathOK {
				return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Node(eng.KCall, 0, lib.Name(c.Fn), boolT, c.Args...)}}}}
			}
			if res := asTerm(e, c, textFns); res != nil {
				return res
			}
			if c.Kind == eng.CKDefer {
				return nil
			}
			if i := strings.Index(n, "Input).Set"); i > 0 && strings.Contains(n, "service/s3.") && len(c.Args) == 2 {
				st.Store(e.In.Node(eng.KField, 0, n[i+len("Input).Set"):], nil, lib.Strip(c.Args[0])), e.In.Node(eng.KCall, 0, "github.com/aws/aws-sdk-go/aws.String", types.NewPointer(c.Args[1].Typ), c.Args[1]))
				return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{c.Args[0]}}}}
			}
			if m := isS3(n); m != "" {
				checked(st, c.Pos())
				var in *eng.Val
				for _, a := range c.Args {
					if a.Typ != nil && strings.HasSuffix(deref(a.Typ).String(), "Input") {
						in = a
					}
				}
				if in == nil || asked == nil {
					r.Check(false, "key", name+": "+m, c.Pos(), st, "%s asks the bucket for something unknown", name)
					return nil
				}
				b := text(st, inputField(st, in, "Bucket"))
				okB := b != nil && b.K == eng.KLoad && b.Args[0].K == eng.KField && b.Args[0].Args[0] == e.In.Param(root, 0)
				want := map[string]string{"Get": "GetObject", "Put": "PutObject", "List": "ListObjects", "Delete": "DeleteObject"}[op]
				if op == "Get" && strings.HasPrefix(m, "HeadObject") || op == "Delete" && strings.HasPrefix(m, "HeadObject") {
					want = "HeadObject"
				}
				r.Check(okB && strings.HasPrefix(m, want), "key", name+": bucket", c.Pos(), st, "%s does something else, or in another bucket", name)
				kf := "Key"
				if op == "List" {
					kf = "Prefix"
				}
				x := text(st, inputField(st, in, kf))
				r.Check(x != nil && behind(x, asked), "key", name+": "+kf, c.Pos(), st, "%s works on another key than the one asked for: %s", name, inputField(st, in, kf))
				switch op {
				case "Put":
					body := inputField(st, in, "Body")
					for isTerm(body, "github.com/aws/aws-sdk-go/aws.ReadSeekCloser", "bytes.NewReader") || body.K == eng.KMI {
						body = lib.Strip(body.Args[0])
					}
					r.Check(body == from || whole(st, body, 0), "kept", name, c.Pos(), st, "%s stores something else than it is given", name)
				case "List":
					d := text(st, inputField(st, in, "Delimiter"))
					r.Check(d != nil && isConstText(d, "/"), "listed", name+": delimiter", c.Pos(), st, "%s lists what is deeper than right below the path", name)
					mk := "Marker"
					nx := "NextMarker"
					if strings.Contains(m, "V2") {
						mk, nx = "ContinuationToken", "NextContinuationToken"
					}
					cur := inputField(st, in, mk)
					if t, ok := st.TS["page"]; ok {
						endPage(st, c.Pos())
						good := cur.K == eng.KLoad && cur.Args[0].K == eng.KField && cur.Args[0].Name == nx && cur.Args[0].Args[0] == t.V[0]
						r.Check(good, "listed", name+": pages", c.Pos(), st, "%s does not ask for the next page of the list, but for %s", name, cur)
					} else {
						r.Check(cur.K == eng.KNil, "listed", name+": first page", c.Pos(), st, "%s does not begin with the first page of the list: %s", name, cur)
					}
				}
				// the library does not change what it is asked for
				rt := c.Common.Signature().Results()
				if rt.Len() == 2 {
					res := e.In.NamedSym("answer of "+m, rt.At(0).Type())
					er := e.In.NamedSym("failed "+m, rt.At(1).Type())
					st.Forget(res)
					st.Forget(er)
					return &eng.Result{Outcomes: []eng.Outcome{
						{Rets: []*eng.Val{res, e.In.Nil()}, Do: func(s *eng.State) { s.Assume(e.Eq(res, e.In.Nil()), false) }},
						{Rets: []*eng.Val{e.In.Zero(rt.At(0).Type()), er}, Do: func(s *eng.State) { s.Assume(e.Eq(er, e.In.Nil()), false) }},
					}}
				}
			}
			return nil
		},
		After: func(st *eng.State, c *eng.Call, rets []*eng.Val) {
			if c.Kind == eng.CKDefer {
				return
			}
			n := c.Name()
			switch {
			case n == "io.ReadAll" || n == "io/ioutil.ReadAll":
				st.Set("read:"+itoa(lib.Strip(rets[0]).ID), "", lib.Strip(c.Args[0]), rets[1])
			case n == "io.Copy":
				st.Set("filled:"+itoa(lib.Strip(c.Args[0]).ID), "", lib.Strip(c.Args[1]), rets[1])
			case n == "(*bytes.Buffer).ReadFrom":
				st.Set("filled:"+itoa(lib.Strip(c.Args[0]).ID), "", lib.Strip(c.Args[1]), rets[1])
			case n == "(*bytes.Buffer).Bytes" || n == "(*bytes.Buffer).String":
				if t, ok := st.TS["filled:"+itoa(lib.Strip(c.Args[0]).ID)]; ok {
					st.Set("read:"+itoa(lib.Strip(rets[0]).ID), "", t.V...)
				}
			case n == "builtin.copy" && len(c.Args) == 2:
				st.Set("copied:"+itoa(lib.Strip(c.Args[0]).ID), "", lib.Strip(c.Args[1]))
			case n == "builtin.delete" && isObjects(c.Common.Args[0].Type()):
				checked(st, c.Pos())
				r.Check(op == "Delete" && lib.Strip(c.Args[1]) == asked, "key", name+": delete", c.Pos(), st, "%s removes another object than the one asked for", name)
				st.Set("gone", "")
			case n == "builtin.append" && op == "List" && len(c.Args) == 2:
				for _, x := range st.VarArgs(c.Args[1]) {
					x = lib.Strip(x)
					if _, ok := st.TS["round"]; ok {
						collect(st, x, c.Pos(), st.Has("seen-new:"+itoa(x.ID)))
						continue
					}
					if t, ok := st.TS["page"]; ok {
						ps := textOf(st, x, nil)
						good := len(ps) == 2 && ps[0].v == nil && ps[0].s == "/" && ps[1].v != nil
						if good {
							y := lib.Strip(ps[1].v)
							if isTerm(y, "github.com/aws/aws-sdk-go/aws.StringValue") {
								y = lib.Strip(y.Args[0])
							} else if y.K == eng.KLoad {
								y = y.Args[0]
							}
							good = y.K == eng.KLoad && y.Args[0].K == eng.KField && (y.Args[0].Name == "Prefix" || y.Args[0].Name == "Key")
							if good {
								l, _ := v.use(st, y.Args[0].Args[0])
								good = l != nil && l.Contains(t.V[0])
								good = good && (l.K == eng.KLoad && l.Args[0].K == eng.KField && (l.Args[0].Name == "CommonPrefixes") == (y.Args[0].Name == "Prefix"))
							}
						}
						r.Check(good, "listed", name+": names", c.Pos(), st, "%s lists something else than what was found, as a key of the store: %s", name, x)
					}
				}
			}
			if m := isS3(n); m != "" && len(rets) == 2 {
				st.Set("result", "", lib.Strip(rets[0]), rets[1])
				if op == "List" {
					for _, k := range append(append(append(st.KeysPrefix("visit:"), st.KeysPrefix("done:")...), st.KeysPrefix("skip:")...), st.KeysPrefix("open:")...) {
						st.Del(k)
					}
					st.Set("page", "", lib.Strip(rets[0]), rets[1])
				}
			}
		},
		Instr: func(st *eng.State, fr *eng.Frame, in ssa.Instruction) {
			pos := eng.InstrPos(in)
			switch x := in.(type) {
			case *ssa.Lookup:
				tu, comma := x.Type().(*types.Tuple)
				key := lib.Strip(e.Env(st, fr, x.Index))
				if isObjects(x.X.Type()) {
					checked(st, pos)
					typ := x.Type()
					got := []*eng.Val{key}
					if comma {
						typ = tu.At(0).Type()
						got = append(got, e.In.Sym(fr.Ctx, x, "#1", tu.At(1).Type()))
					}
					s := e.In.Sym(fr.Ctx, x, "#0", typ)
					st.Set("got:"+itoa(s.ID), "", got...)
					if comma {
						st.Set("here:"+itoa(got[1].ID), "", key)
					}
					return
				}
				if m, ok := x.X.Type().Underlying().(*types.Map); ok && isStr(m.Key()) && op == "List" {
					// a set of what was listed
					var s *eng.Val
					switch {
					case comma:
						s = e.In.Sym(fr.Ctx, x, "#1", tu.At(1).Type())
					case isBoolT(m.Elem()):
						s = e.In.Sym(fr.Ctx, x, "#0", x.Type())
					default:
						return
					}
					st.Set("seen:"+itoa(s.ID), "", key, lib.Strip(e.Env(st, fr, x.X)))
				}
			case *ssa.Next:
				if rg, ok := x.Iter.(*ssa.Range); ok && isObjects(rg.X.Type()) {
					checked(st, pos)
					if t, ok := st.TS["round"]; ok {
						// known to be listed already
						if t.S == "" {
							seen(st, below, t)
						}
						roundDone(st, pos)
					}
					tu := x.Type().(*types.Tuple)
					k, ok := e.In.Sym(fr.Ctx, x, "#1", tu.At(1).Type()), e.In.Sym(fr.Ctx, x, "#0", tu.At(0).Type())
					st.Set("round", "", k, ok)
					for _, n := range append(st.KeysPrefix("seen-new:"), st.KeysPrefix("seen:")...) {
						st.Del(n)
					}
					st.Set("ranged", "")
				}
			case *ssa.MapUpdate:
				key, val := lib.Strip(e.Env(st, fr, x.Key)), e.Env(st, fr, x.Value)
				if isObjects(x.Map.Type()) && op != "List" {
					checked(st, pos)
					r.Check(op == "Put" && key == asked, "key", name+": store", pos, st, "%s stores under another key than the one asked for", name)
					r.Check(whole(st, val, 0), "kept", name, pos, st, "%s stores something else than all it is given, or what may be changed by others: %s", name, val)
					st.Set("stored", "")
					return
				}
				if m, ok := x.Map.Type().Underlying().(*types.Map); ok && op == "List" && isStr(m.Key()) {
					if t, ok := st.TS["round"]; ok && t.S != "done" {
						// the set is what is listed, or the list is filled next
						if below(st, key, t.V[0]) {
							st.Set("round", "in set", t.V...)
						}
						st.Set("marked:"+itoa(key.ID), "")
					} else if ok {
						st.Set("marked:"+itoa(key.ID), "")
					}
				}
			}
		},
		Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
			v.branch(st, cond, taken)
			for cond.K == eng.KUn && cond.Op == token.NOT {
				cond, taken = cond.Args[0], !taken
			}
			if t, ok := st.TS["seen:"+itoa(cond.ID)]; ok && !taken {
				st.Set("seen-new:"+itoa(t.V[0].ID), "")
			}
			if t, ok := st.TS["round"]; ok && cond == t.V[1] && !taken {
				st.Set("round", "over", t.V...)
			} else if ok && t.S == "" {
				if seen(st, below, t); hasPrefixKnown(st, t.V[0], asked, false) {
					st.Set("round", "done", t.V...)
				}
			}
		},
		Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
			pos := eng.InstrPos(in)
			er := rets[len(rets)-1]
			failed := st.IsNonNil(er)
			if _, known := st.NilKnown(er); !known {
				// a call's own answer
				failed = false
			}
			absent := func() bool {
				return st.AnyFact(func(f *eng.Val, b bool) bool {
					t, ok := st.TS["here:"+itoa(f.ID)]
					return ok && !b && t.V[0] == asked
				})
			}
			switch {
			case failed && isErr(st, er, "ErrNotExist"):
				_, s3 := st.TS["result"]
				r.Check(absent() || s3, "given-out", name+": not there", pos, st, "%s tells that there is no such object though there may be one", name)
				fallthrough
			case failed:
				r.Check(!st.Has("stored") && !st.Has("gone"), "failed", name, pos, st, "%s reports a failure though it has changed the store", name)
				return
			}
			res, s3 := st.TS["result"]
			switch op {
			case "Get":
				r.Check(found(st, rets[0], 0), "given-out", name, pos, st, "%s gives out something else than the object asked for: %s", name, rets[0])
			case "Put":
				r.Check(st.Has("stored") || s3 && (st.IsNil(res.V[1]) || er == res.V[1]), "stored", name, pos, st, "%s reports success though it has stored nothing", name)
			case "Delete":
				r.Check(st.Has("gone") || absent() || s3 && (st.IsNil(res.V[1]) || er == res.V[1]), "deleted", name, pos, st, "%s reports success though the object is still there", name)
			case "List":
				if _, ok := st.TS["page"]; ok {
					endPage(st, pos)
					last := false
					st.EachFact(func(f *eng.Val, b bool) {
						for f.K == eng.KUn && f.Op == token.NOT {
							f, b = f.Args[0], !b
						}
						has := false
						f.Walk(func(x *eng.Val) bool {
							has = has || x.K == eng.KField && (x.Name == "IsTruncated") && x.Args[0] == res.V[0]
							return !has
						})
						if has && (f.K == eng.KLoad || f.K == eng.KCall) && !b {
							last = true
						}
						if has && f.K == eng.KBin && f.Op == token.EQL && b && (f.Args[0].K == eng.KNil || f.Args[1].K == eng.KNil) {
							last = true
						}
					})
					r.Check(last, "listed", name+": all pages", pos, st, "%s ends before the last page of the list", name)
				} else {
					t, ok := st.TS["round"]
					r.Check(ok && t.S == "over", "listed", name+": to the end", pos, st, "%s ends before all keys were looked at", name)
				}
				x := lib.Strip(rets[0])
				r.Check((x.K != eng.KSlice || x.Args[0].K == eng.KAlloc) && x.K != eng.KNil, "listed", name+": result", pos, st, "%s gives out a part of the list only", name)
			}
		},
	}
}

func sameLen(st *eng.State, a, b *eng.Val) bool {
	x, y := lib.Linear(st.Len(a)), lib.Linear(st.Len(b))
	d := x.Sub(y)
	return d.IsConst() && d.C == 0 || lib.Entails(st, d) && lib.Entails(st, y.Sub(x))
}

// placeKnown tells whether the place of something searched for was found.
func placeKnown(st *eng.State, idx *eng.Val) int {
	if lib.Entails(st, lib.Lin{C: -1}.Sub(lib.Linear(idx))) {
		return -1
	}
	if lib.Entails(st, lib.Linear(idx)) {
		return 1
	}
	if st.AnyFact(func(f *eng.Val, b bool) bool {
		if f.K != eng.KBin || f.Op != token.EQL || b {
			return false
		}
		d := lib.Linear(f.Args[0]).Sub(lib.Linear(f.Args[1]))
		l := lib.Linear(idx)
		if d.C < 0 {
			d = lib.Linear(f.Args[1]).Sub(lib.Linear(f.Args[0]))
		}
		d = d.Sub(l)
		return d.IsConst() && d.C == 1
	}) {
		return 1
	}
	return 0
}

func isZero(v *eng.Val) bool {
	n, ok := eng.ConstInt(v)
	return v.K == eng.KNil || ok && n == 0
}

// relTo: x is what is left of the key behind the path.
func relTo(st *eng.State, x, k, path *eng.Val) bool {
	x = lib.Strip(x)
	switch {
	case x.K == eng.KSlice && x.Args[0] == k && x.Args[2].K == eng.KNil:
		d := lib.Linear(x.Args[1]).Sub(lib.Linear(st.Len(path)))
		return d.IsConst() && d.C == 0
	case isTerm(x, "strings.TrimPrefix", "strings.CutPrefix#0"):
		return x.Args[0] == k && x.Args[1] == path
	}
	return false
}

// hasPrefixKnown: it is known that the key is, or is not, below the path.
func hasPrefixKnown(st *eng.State, k, path *eng.Val, want bool) bool {
	return st.AnyFact(func(f *eng.Val, b bool) bool {
		for f.K == eng.KUn && f.Op == token.NOT {
			f, b = f.Args[0], !b
		}
		return isTerm(f, "strings.HasPrefix", "strings.CutPrefix#1") && f.Args[0] == k && f.Args[1] == path && b == want
	})
}

// seen: what the round is for is known to be listed, or was put into the set
// that is listed.
func seen(st *eng.State, below func(st *eng.State, v, k *eng.Val) bool, t eng.TS) {
	done := st.AnyFact(func(f *eng.Val, b bool) bool {
		s, ok := st.TS["seen:"+itoa(f.ID)]
		return ok && b && below(st, s.V[0], t.V[0])
	})
	if done {
		st.Set("round", "done", t.V...)
	}
}

// validKeys decides what keys and paths are valid.
func validKeys(p *lib.Prog, r *lib.Report, keyOK, pathOK *ssa.Function) {
	j := &lib.Job{P: p, R: r, Roots: []*ssa.Function{keyOK, pathOK}, NoHavoc: true, KeepFact: func(*eng.Val) bool { return true }, NoInline: func(root, g *ssa.Function) bool {
		return lib.PkgOf(g) != sssP || g == pathOK
	}}
	j.Hooks = func(e *eng.Engine, root *ssa.Function) eng.Hooks {
		name := lib.Name(root)
		in := e.In.Param(root, 0)
		boolT := types.Typ[types.Bool]
		// the index of a part of the path: from the front or from the back
		part := func(st *eng.State, v *eng.Val) (i lib.Lin, list *eng.Val, ok bool) {
			l, idx, is := elementIn(st, v)
			if !is || !isTerm(lib.Strip(l), "strings.Split") {
				return
			}
			l = lib.Strip(l)
			if l.Args[0] != in || !isConstText(l.Args[1], "/") {
				return
			}
			return lib.Linear(idx), l, true
		}
		empty := func(f *eng.Val) *eng.Val {
			if f.K == eng.KBin && f.Op == token.EQL {
				for i := range f.Args {
					a := bare(f.Args[i])
					if isConstText(f.Args[1-i], "") {
						return lib.Strip(f.Args[i])
					}
					if n, ok := eng.ConstInt(f.Args[1-i]); ok && n == 0 && a.K == eng.KLen {
						return lib.Strip(a.Args[0])
					}
				}
			}
			return nil
		}
		type known struct{ nonEmpty, first, last, middle, bad bool }
		look := func(st *eng.State) (k known) {
			st.EachFact(func(f *eng.Val, b bool) {
				for f.K == eng.KUn && f.Op == token.NOT {
					f, b = f.Args[0], !b
				}
				if x := empty(f); x != nil {
					if x == in {
						k.nonEmpty = k.nonEmpty || !b
						k.bad = k.bad || b
						return
					}
					if i, l, ok := part(st, x); ok {
						d := i.Sub(lib.Linear(st.Len(l)))
						first, last := i.IsConst() && i.C == 0, d.IsConst() && d.C == -1
						k.first = k.first || first && b
						k.last = k.last || last && b
						k.bad = k.bad || (first || last) && !b || !first && !last && b
					}
					return
				}
				switch {
				case isTerm(f, "strings.HasPrefix") && f.Args[0] == in && isConstText(f.Args[1], "/"):
					k.first = k.first || b
					k.nonEmpty = k.nonEmpty || b
					k.bad = k.bad || !b
				case isTerm(f, "strings.HasSuffix") && f.Args[0] == in && isConstText(f.Args[1], "/"):
					k.last = k.last || b
					k.nonEmpty = k.nonEmpty || b
					k.bad = k.bad || !b
				case isTerm(f, "strings.Contains") && f.Args[0] == in && isConstText(f.Args[1], "//"):
					k.middle = k.middle || !b
					k.bad = k.bad || b
				case f.K == eng.KBin && f.Op == token.EQL:
					for i := range f.Args {
						a := f.Args[i]
						if !isConstText(f.Args[1-i], "/") {
							continue
						}
						if l, idx, ok := elementOf(a); ok && l == in {
							x := lib.Linear(idx)
							d := x.Sub(lib.Linear(st.Len(in)))
							first, last := x.IsConst() && x.C == 0, d.IsConst() && d.C == -1
							k.first = k.first || first && b
							k.last = k.last || last && b
							k.nonEmpty = k.nonEmpty || b
							k.bad = k.bad || (first || last) && !b
						}
					}
				}
			})
			// the loop over the parts
			if t, ok := st.TS["loop"]; ok && !st.Has("left out") && !st.Has("busy") && t.S != "" {
				end, _ := strconv.Atoi(t.S)
				off, err := strconv.Atoi(st.Get("off"))
				k.middle = err != nil || end+off >= -1
			}
			return
		}
		lastPart := func(x *eng.Val) bool { // what follows the last slash
			x = lib.Strip(x)
			for isTerm(x, "strings.Trim", "strings.TrimSpace") {
				x = lib.Strip(x.Args[0])
			}
			if isTerm(x, "path.Split#1") {
				return x.Args[0] == in
			}
			if x.K != eng.KSlice || x.Args[0] != in || x.Args[2].K != eng.KNil {
				return false
			}
			return behindSlash(x.Args[1], in)
		}
		folder := func(x *eng.Val) bool {
			x = lib.Strip(x)
			if isTerm(x, "path.Split#0") {
				return x.Args[0] == in
			}
			return x.K == eng.KSlice && x.Args[0] == in && isZero(x.Args[1]) && behindSlash(x.Args[2], in)
		}
		return eng.Hooks{
			Call: func(st *eng.State, c *eng.Call) *eng.Result {
				if c.Fn == pathOK {
					return &eng.Result{Outcomes: []eng.Outcome{{Rets: []*eng.Val{e.In.Node(eng.KCall, 0, lib.Name(c.Fn), boolT, c.Args...)}}}}
				}
				return asTerm(e, c, textFns)
			},
			Branch: func(st *eng.State, fr *eng.Frame, i *ssa.If, cond *eng.Val, taken bool) {
				for cond.K == eng.KUn && cond.Op == token.NOT {
					cond, taken = cond.Args[0], !taken
				}
				if cond.K == eng.KBin && (cond.Op == token.LSS || cond.Op == token.LEQ) {
					l := lib.Linear(cond.Args[0])
					var q *ssa.Phi
					if !l.IsConst() {
						for x := range l.Coef {
							if x.K == eng.KSym {
								q, _ = x.Ref.(*ssa.Phi)
							}
						}
						if len(l.Coef) != 1 || q == nil {
							return
						}
					}
					n := lib.Linear(cond.Args[1])
					if cond.Op == token.LEQ {
						n.C++
					}
					// the list and how far it goes
					var list *eng.Val
					for x := range n.Coef {
						if x.K == eng.KLen {
							list = x.Args[0]
						}
					}
					if list == nil {
						return
					}
					list = lib.Strip(list)
					if !isTerm(list, "strings.Split") || list.Args[0] != in {
						return
					}
					n2 := n.Sub(lib.Linear(st.Len(list)))
					if !n2.IsConst() {
						return
					}
					if st.Has("busy") {
						st.Set("left out", "")
					}
					st.Del("busy")
					if taken {
						from, ok := l.C, q == nil
						for s := int64(-1); s <= 1 && q != nil; s++ {
							if induction(q, l.C, s) {
								from, ok = s, true
							}
						}
						if !ok {
							st.Set("left out", "")
						}
						st.Set("busy", itoa(int(from)), cond.Args[0])
						st.Set("loop", "")
					} else {
						st.Set("loop", itoa(int(n2.C)))
						if !st.Has("off") && !lib.Entails(st, lib.Lin{C: 2}.Sub(lib.Linear(st.Len(list)))) {
							st.Set("left out", "")
						}
					}
					return
				}
				if x := empty(cond); x != nil && !taken && st.Has("busy") {
					if i, _, ok := part(st, x); ok {
						t := st.TS["busy"]
						if d := i.Sub(lib.Linear(t.V[0])); d.IsConst() {
							st.Del("busy")
							st.Set("off", itoa(int(d.C)))
							if from, _ := strconv.Atoi(t.S); int64(from)+d.C > 1 {
								st.Set("left out", "")
							}
						}
					}
				}
			},
			Exit: func(st *eng.State, rets []*eng.Val, in ssa.Instruction) {
				pos := eng.InstrPos(in)
				yes, no := st.Clone(), st.Clone()
				canYes, canNo := true, true
				if val, known := st.Eval(rets[0]); known {
					canYes, canNo = val, !val
				}
				canYes = canYes && yes.Assume(rets[0], true)
				canNo = canNo && no.Assume(rets[0], false)
				if root == pathOK {
					if canYes {
						k := look(yes)
						r.Check(k.nonEmpty && k.first && k.last && k.middle, "valid", name+": yes", pos, yes, "%s takes a path that does not begin or end with a slash or has an empty part for valid", name)
					}
					if canNo {
						r.Check(look(no).bad, "valid", name+": no", pos, no, "%s refuses a path without a reason", name)
					}
					return
				}
				isPath := func(s *eng.State, want bool) bool {
					return s.AnyFact(func(f *eng.Val, b bool) bool {
						for f.K == eng.KUn && f.Op == token.NOT {
							f, b = f.Args[0], !b
						}
						return isTerm(f, lib.Name(pathOK)) && folder(f.Args[0]) && b == want
					})
				}
				blank := func(s *eng.State, want bool) bool {
					return s.AnyFact(func(f *eng.Val, b bool) bool {
						for f.K == eng.KUn && f.Op == token.NOT {
							f, b = f.Args[0], !b
						}
						x := empty(f)
						if x == nil || b != want || !lastPart(x) {
							return false
						}
						return isTerm(x, "strings.Trim", "strings.TrimSpace")
					})
				}
				if canYes {
					r.Check(isPath(yes, true) && blank(yes, false), "valid", name+": yes", pos, yes, "%s takes a key with a blank name or in no valid path for valid", name)
				}
				if canNo {
					noSlash := no.AnyFact(func(f *eng.Val, b bool) bool {
						has := false
						f.Walk(func(x *eng.Val) bool {
							if isTerm(x, "strings.LastIndex", "strings.LastIndexByte") {
								has = has || placeKnown(no, x) < 0
							}
							has = has || isTerm(x, "strings.Contains") && !b
							return !has
						})
						return has
					})
					r.Check(isPath(no, false) || blank(no, true) || noSlash, "valid", name+": no", pos, no, "%s refuses a key without a reason", name)
				}
			},
		}
	}
	j.Do(nil)
	r.Floor("valid", 4)
}

// behindSlash: the place behind the last slash of x.
func behindSlash(i, x *eng.Val) bool {
	l := lib.Linear(i)
	if len(l.Coef) != 1 || l.C != 1 {
		return false
	}
	for v, k := range l.Coef {
		return k == 1 && isTerm(v, "strings.LastIndex", "strings.LastIndexByte") && v.Args[0] == x && isConstText(v.Args[1], "/")
	}
	return false
}
