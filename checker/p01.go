package main

import (
	"go/types"
	"sort"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P01"] = checkP01 }

// rewriting describes t as a rewriting of another string: the replacements, in
// order if there are several, or at once.
func (c *Ctx) rewriting(in *psa.Interp, st *psa.State, t *T) (base *T, how string) {
	return c.rewritten(in, st, st.Norm(t))
}

// rewritten is rewriting of a term as it is.
func (c *Ctx) rewritten(in *psa.Interp, st *psa.State, t *T) (base *T, how string) {
	var steps []string
	for {
		switch {
		case t.Op == "replace":
			parts := strings.SplitN(t.Aux.(string), "\x00", 2)
			steps = append([]string{parts[0] + "→" + parts[1]}, steps...)
			t = st.Norm(t.Args[0])
			continue
		case t.Op == "call" && t.Callee() == "(*strings.Replacer).Replace" && len(steps) == 0:
			r := st.Norm(t.Args[0])
			if !isCall(r, "strings.NewReplacer") {
				return t, "?"
			}
			l := in.Resolve(st, r.Args[0])
			if l.Op != "list" || len(l.Args)%2 != 0 {
				return t, "?"
			}
			var ps []string
			for i := 0; i < len(l.Args); i += 2 {
				a, ok1 := l.Args[i].ConstString()
				b, ok2 := l.Args[i+1].ConstString()
				if !ok1 || !ok2 {
					return t, "?"
				}
				ps = append(ps, a+"→"+b)
			}
			sort.Strings(ps)
			return st.Norm(t.Args[1]), "at once " + strings.Join(ps, " ")
		}
		break
	}
	return t, strings.Join(steps, " then ")
}

// isEscape decides whether t is x with ~ written ~0 and sep written ~1.
func (c *Ctx) isEscape(in *psa.Interp, st *psa.State, t, x *T, sep string) (bool, string) {
	base, how := c.rewriting(in, st, t)
	ok := how == "~→~0 then "+sep+"→~1" || how == "at once "+sortedPair("~→~0", sep+"→~1")
	return ok && base == st.Norm(x), how + " of " + str(base)
}

// isUnescape decides the inverse.
func (c *Ctx) isUnescape(in *psa.Interp, st *psa.State, t, x *T, sep string) (bool, string) {
	base, how := c.rewriting(in, st, t)
	ok := how == "~1→"+sep+" then ~0→~" || how == "at once "+sortedPair("~0→~", "~1→"+sep)
	return ok && base == st.Norm(x), how + " of " + str(base)
}

func sortedPair(a, b string) string {
	if b < a {
		a, b = b, a
	}
	return a + " " + b
}

func checkP01(c *Ctx) {
	c.explain = "Reading and writing of JSON pointers, fragments and references are interpreted for arbitrary tokens. The rewritings which escape and unescape a token are taken from the code as terms and compared with those of RFC 6901; the place of the percent escaping, what is read from the URL and what the JSON codec does are compared as terms, too."
	c.rule("escape", "a written token has ~ written ~0 and / written ~1, and follows a slash", 3)
	c.rule("unescape", "a read fragment starts with a slash, and its tokens are what is between the slashes with ~1 read as / and ~0 as ~, in this order", 3)
	c.rule("print", "a pointer is written as its URL without fragment, a number sign and the fragment with percent signs escaped once", 3)
	c.rule("parse", "a pointer is read from a URL: its tokens are those of the decoded fragment, everything else is that of the URL", 4)
	c.rule("codec", "pointers are JSON strings: what is written is their text, what is read is parsed", 4)
	c.rule("go", "references to Go types name the package by host and path and the type by the fragment, and only references with a scheme are external", 4)
	c.rule("set", "sets of pointers are keyed by the text of the pointers and lose none", 4)
	c.rule("errors", "what cannot be read is reported", 4)
	c.rule("tokens", "the tokens of a fragment are counted, named, copied, replaced and extended as what they are", 20)
	c.fragmentText()
	c.fragmentTokens()
	c.pointerCopies()
	c.pointerText()
	c.pointerCodec()
	c.pointerSets()
}

// withSplit answers strings.Split for a text of which the pieces are known.
func withSplit(in *psa.Interp, sep string, holes ...*T) func(*psa.State, string, []*T, *psa.Call) []psa.Ret {
	hole := map[*T]bool{}
	for _, h := range holes {
		hole[h] = true
	}
	return func(st *psa.State, name string, args []*psa.Term, call *psa.Call) []psa.Ret {
		if name != "strings.Split" && name != "strings.SplitN" && name != "strings.FieldsFunc" {
			return nil
		}
		if s, ok := st.Norm(args[1]).ConstString(); !ok || s != sep {
			return nil
		}
		if name == "strings.SplitN" {
			if n, ok := st.Norm(args[2]).ConstInt(); !ok || n >= 0 {
				return nil
			}
		}
		t := st.Norm(args[0])
		segs := []*psa.Term{t}
		if t.Op == "concat" {
			segs = t.Args
		}
		parts := []*psa.Term{in.T.Str("")}
		for _, g := range segs {
			if s, ok := g.ConstString(); ok {
				for i, x := range strings.Split(s, sep) {
					if i > 0 {
						parts = append(parts, in.T.Str(""))
					}
					parts[len(parts)-1] = in.T.Concat(parts[len(parts)-1], in.T.Str(x))
				}
				continue
			}
			if !hole[g] {
				return nil
			}
			parts[len(parts)-1] = in.T.Concat(parts[len(parts)-1], g)
		}
		return []psa.Ret{{St: st, Kind: "ret", Val: in.T.Mk("slice", nil, call.Typ, arrayOf(in, st, parts), in.T.Int(int64(len(parts))))}}
	}
}

// arrayOf makes an array holding the given strings.
func arrayOf(in *psa.Interp, st *psa.State, xs []*T) *T {
	typ := types.NewArray(types.Typ[types.String], int64(len(xs)))
	a := st.NewObj("array", typ)
	for i, x := range xs {
		st.Store(in.ElemAddr(a, in.T.Int(int64(i)), types.NewPointer(types.Typ[types.String])), x)
	}
	return a
}

func (c *Ctx) fragmentText() {
	in := c.interp()
	strT := types.Typ[types.String]
	A, B := in.T.Sym("TOKEN-A", strT), in.T.Sym("TOKEN-B", strT)
	// reading
	fn := c.fn("pointer", "NewFragment")
	c.opaque(in, "internal/pointer")
	split := withSplit(in, "/", A, B)
	in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
		return split(st, name, args, call)
	}
	T := in.T
	for _, x := range []struct {
		what string
		text *psa.Term
		toks []*psa.Term
		bad  bool
	}{
		{"no text", T.Str(""), nil, false},
		{"/‹A›", T.Concat(T.Str("/"), A), []*psa.Term{A}, false},
		{"/‹A›/‹B›", T.Concat(T.Concat(T.Concat(T.Str("/"), A), T.Str("/")), B), []*psa.Term{A, B}, false},
		{"/‹A›//‹B›", T.Concat(T.Concat(T.Concat(T.Str("/"), A), T.Str("//")), B), []*psa.Term{A, T.Str(""), B}, false},
		{"x/‹A›", T.Concat(T.Str("x/"), A), nil, true},
	} {
		n := 0
		for _, p := range c.run(in, fn, []*psa.Term{x.text}, nil, nil) {
			at := c.ipos(p.At)
			if x.bad {
				c.expect(fails(p), "errors", "fragment", at, "a fragment which does not start with a slash is accepted")
				n++
				continue
			}
			if p.Kind != "ret" || fails(p) {
				c.violate("unescape", x.what, at, "the fragment "+x.what+" is refused "+c.where(p))
				continue
			}
			n++
			l := in.Resolve(p.St, p.Results[0])
			if l.Op != "list" && l.Op != "nil" && l.Op != "zero" || len(l.Args) != len(x.toks) {
				c.violate("unescape", x.what, at, "the tokens of the fragment "+x.what+" are "+str(l))
				continue
			}
			for i, tok := range x.toks {
				if tok == T.Str("") {
					c.expect(p.St.Norm(l.Args[i]) == tok, "unescape", x.what, at, "an empty token is read as %s", str(l.Args[i]))
					continue
				}
				ok, how := c.isUnescape(in, p.St, l.Args[i], tok, "/")
				c.expect(ok, "unescape", x.what, at, "token %d of %s is read as %s", i, x.what, how)
			}
		}
		c.expect(n > 0, "unescape", x.what, c.pos(fn.Pos()), "the fragment %s cannot be read", x.what)
	}
	// writing
	in = c.interp()
	c.opaque(in, "internal/pointer")
	T = in.T
	A, B = in.T.Sym("TOKEN-A", strT), in.T.Sym("TOKEN-B", strT)
	fs := c.method("pointer", "Fragment", "String")
	for _, toks := range [][]*psa.Term{nil, {A}, {A, B}} {
		for _, p := range c.run(in, fs, []*psa.Term{T.Mk("list", nil, c.typ("pointer", "Fragment"), toks...)}, nil, nil) {
			at := c.ipos(p.At)
			if p.Kind != "ret" {
				c.violate("escape", "String", at, "writing a fragment panics")
				continue
			}
			r := p.St.Norm(p.Results[0])
			if len(toks) == 0 {
				c.expect(r == T.Str(""), "escape", "String", at, "the empty fragment is written as %s", str(r))
				continue
			}
			ok := r.Op == "concat" && len(r.Args) == 2*len(toks)
			how := str(r)
			for i := 0; ok && i < len(toks); i++ {
				ok = r.Args[2*i] == T.Str("/")
				if ok {
					ok, how = c.isEscape(in, p.St, r.Args[2*i+1], toks[i], "/")
				}
			}
			c.expect(ok, "escape", "String", at, "a fragment of %d tokens is written with %s", len(toks), how)
		}
	}
}

func (c *Ctx) pointerText() {
	ptrT := c.typ("pointer", "Pointer")
	// writing
	in := c.interp()
	c.opaque(in, "internal/pointer")
	T := in.T
	fn := c.method("pointer", "Pointer", "String")
	strT := types.Typ[types.String]
	url := T.Sym("URLTEXT", strT)
	frag := T.Sym("FRAGTEXT", strT)
	clean := false
	in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
		switch shortName(name) {
		case "(*net/url.URL).String", "(net/url.URL).String":
			ut := importedType(c, "net/url", "URL")
			u := st.Load(args[0], ut)
			clean = str(st.Norm(c.field(in, u, ut, "Fragment"))) == `""` && str(st.Norm(c.field(in, u, ut, "RawFragment"))) == `""`
			return []psa.Ret{{St: st, Kind: "ret", Val: url}}
		case "(internal/pointer.Fragment).String":
			if st.Norm(args[0]) == c.field(in, in.Param(fn.Params[0]), ptrT, "Fragment") {
				return []psa.Ret{{St: st, Kind: "ret", Val: frag}}
			}
		}
		return nil
	}
	for _, p := range c.run(in, fn, nil, nil, nil) {
		at := c.ipos(p.At)
		if p.Kind != "ret" {
			c.violate("print", "String", at, "writing a pointer panics")
			continue
		}
		r := p.St.Norm(p.Results[0])
		ok := r.Op == "concat" && len(r.Args) == 3 && r.Args[0] == url && r.Args[1] == T.Str("#")
		how := str(r)
		if ok {
			base, h := c.rewriting(in, p.St, r.Args[2])
			ok, how = base == frag && (h == "%→%25" || h == "at once %→%25"), "a fragment rewritten by "+h
		}
		c.expect(ok, "print", "String", at, "a pointer is written as %s", how)
		c.expect(clean, "print", "URL", at, "the URL of a pointer is written with a fragment of its own")
		c.ok("print")
	}
	// reading
	in = c.interp()
	c.opaque(in, "internal/pointer.Parse")
	T = in.T
	pf := c.fn("pointer", "Parse")
	urlT := importedType(c, "net/url", "URL")
	for _, x := range []*psa.Term{T.Str(""), T.Str("#"), in.Param(pf.Params[0])} {
		st := in.NewState()
		if !x.IsConst() {
			st.Assume(T.Eq(x, T.Str("")), false)
			st.Assume(T.Eq(x, T.Str("#")), false)
		}
		n := 0
		for _, p := range c.run(in, pf, []*psa.Term{x}, nil, st) {
			at := c.ipos(p.At)
			if p.Kind != "ret" {
				c.violate("parse", "Parse", at, "reading a pointer panics")
				continue
			}
			for _, e := range calls(p, "net/url.Parse", "internal/pointer.NewFragment") {
				if p.St.Nil(T.Extract(e.Res, 1, nil)) != 1 {
					c.expect(mayFail(p) && p.St.Norm(p.Results[1]) == p.St.Norm(T.Extract(e.Res, 1, nil)) || fails(p), "errors", "Parse", at, "a failure of %s is not reported", callee(e))
				}
			}
			if !succeeded(p) {
				c.expect(!c.causeless(in, p), "errors", "Parse", at, "a pointer is refused without a reason %s", c.where(p))
				continue
			}
			n++
			f := p.St.Norm(c.field(in, p.Results[0], ptrT, "Fragment"))
			u := p.St.Norm(c.field(in, p.Results[0], ptrT, "URL"))
			if x.IsConst() {
				es := calls(p, "net/url.Parse")
				c.expect(len(es) > 0 || (f.Op == "nil" || f.Op == "zero" || f.Op == "list" && len(f.Args) == 0) && u.Op == "zero", "parse", "empty", at, "the empty reference is read as %s %s", str(u), str(f))
				if len(es) == 0 {
					continue
				}
			}
			ups := calls(p, "net/url.Parse")
			if len(ups) != 1 || p.St.Norm(ups[0].Arg(0)) != p.St.Norm(x) {
				c.violate("parse", "Parse", at, "a reference is not read as one URL")
				continue
			}
			pu := T.Extract(ups[0].Res, 0, types.NewPointer(urlT))
			// nothing of the URL is changed before it is taken over
			read := false
			for _, e := range p.Events {
				switch {
				case e.Kind == "call" && callee(e) == "internal/pointer.NewFragment":
					read = true
				case e.Kind == "store" && e.Args[0] != pu && contains(p.St.Norm(e.Args[0]), p.St.Norm(pu)):
					emptied := read && isEmptyText(p.St.Norm(e.Args[1]))
					c.expect(emptied, "parse", "url", c.ipos(e.Instr), "a part of the URL of a pointer is changed to %s", str(e.Args[1]))
				}
			}
			cl, i := callOf(f)
			ok := cl != nil && i == 0 && shortName(cl.Callee()) == "internal/pointer.NewFragment" && p.St.Norm(cl.Args[0]) == p.St.Norm(c.load(in, p.St, pu, urlT, "Fragment"))
			c.expect(ok, "parse", "fragment", at, "the tokens of a pointer are %s", str(f))
			same := u == p.St.Norm(p.St.Load(pu, urlT))
			if !same {
				same = true
				for _, n := range []string{"Scheme", "Opaque", "User", "Host", "Path", "RawPath", "RawQuery"} {
					same = same && p.St.Norm(c.field(in, u, urlT, n)) == p.St.Norm(c.load(in, p.St, pu, urlT, n))
				}
			}
			c.expect(same, "parse", "url", at, "the URL of a pointer is %s", str(u))
		}
		c.expect(n > 0, "parse", "Parse", c.pos(pf.Pos()), "references cannot be read")
	}
	// go pointers
	in = c.interp()
	c.opaque(in, "internal/pointer.NewGoPointer", "(internal/pointer.Pointer).PkgPath", "(internal/pointer.Pointer).IsExternal")
	T = in.T
	gf := c.fn("pointer", "NewGoPointer")
	for _, p := range c.run(in, gf, nil, nil, nil) {
		if p.Kind != "ret" {
			continue
		}
		want := T.Concat(T.Concat(T.Concat(T.Str("go://"), in.Param(gf.Params[0])), T.Str("#/")), in.Param(gf.Params[1]))
		cl, i := callOf(p.St.Norm(p.Results[0]))
		ok := cl != nil && i == 0 && shortName(cl.Callee()) == "internal/pointer.Parse" && p.St.Norm(cl.Args[0]) == want
		c.expect(ok, "go", "NewGoPointer", c.ipos(p.At), "the reference to a Go type is %s", str(p.Results[0]))
		e, _ := callOf(p.St.Norm(p.Results[1]))
		c.expect(e == cl || p.St.Nil(p.Results[1]) == 0, "errors", "NewGoPointer", c.ipos(p.At), "a failure is not reported")
	}
	pp := c.method("pointer", "Pointer", "PkgPath")
	urlOf := func(fn *ssa.Function) *psa.Term { return c.field(in, in.Param(fn.Params[0]), ptrT, "URL") }
	for _, p := range c.run(in, pp, nil, nil, nil) {
		r := p.St.Norm(p.Results[0])
		ok := r.Op == "concat" && len(r.Args) == 2 && r.Args[0].Op == "call" && strings.HasSuffix(r.Args[0].Callee(), "url.URL).Hostname") && r.Args[1] == p.St.Norm(c.field(in, urlOf(pp), urlT, "Path"))
		host := r.Op == "concat" && len(r.Args) == 2 && r.Args[0] == p.St.Norm(c.field(in, urlOf(pp), urlT, "Host")) && r.Args[1] == p.St.Norm(c.field(in, urlOf(pp), urlT, "Path"))
		c.expect(ok || host, "go", "PkgPath", c.ipos(p.At), "the package of a reference is %s", str(r))
	}
	ie := c.method("pointer", "Pointer", "IsExternal")
	for _, p := range c.run(in, ie, nil, nil, nil) {
		sch := c.field(in, urlOf(ie), urlT, "Scheme")
		for _, s := range split(p, T.Eq(sch, T.Str(""))) {
			none := s.Truth(T.Eq(sch, T.Str("")))
			got := s.Truth(s.Norm(p.Results[0]))
			c.expect(got >= 0 && got != none, "go", "IsExternal", c.ipos(p.At), "a reference is external if %s", str(p.Results[0]))
		}
	}
}

func (c *Ctx) pointerCodec() {
	ptrT := c.typ("pointer", "Pointer")
	in := c.interp()
	c.opaque(in, "(*internal/pointer.Pointer).MarshalJSON", "(*internal/pointer.Pointer).UnmarshalJSON", "(internal/pointer.Pointer).MarshalJSON")
	T := in.T
	mf := c.method("pointer", "Pointer", "MarshalJSON")
	for _, p := range c.run(in, mf, nil, nil, nil) {
		if p.Kind != "ret" {
			continue
		}
		cl, i := callOf(p.St.Norm(p.Results[0]))
		self := in.Param(mf.Params[0])
		if _, isPtr := mf.Params[0].Type().Underlying().(*types.Pointer); isPtr {
			self = p.St.Norm(p.St.Load(self, ptrT))
		}
		ok := cl != nil && i == 0 && cl.Callee() == "encoding/json.Marshal" && isCall(strip(p.St.Norm(cl.Args[0])), "(internal/pointer.Pointer).String") && p.St.Norm(strip(p.St.Norm(cl.Args[0])).Args[0]) == self
		c.expect(ok, "codec", "MarshalJSON", c.ipos(p.At), "a pointer is encoded as %s", str(p.Results[0]))
		e, j := callOf(p.St.Norm(p.Results[1]))
		c.expect(e == cl && j == 1, "codec", "MarshalJSON", c.ipos(p.At), "a failure of encoding is not reported")
	}
	uf := c.method("pointer", "Pointer", "UnmarshalJSON")
	n := 0
	decoded := T.Sym("DECODED", types.Typ[types.String])
	in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
		if name != "encoding/json.Unmarshal" {
			return nil
		}
		e := T.Mk("call", psa.CallAux{Name: name, Site: call.Site, N: call.N}, call.Typ, args...)
		st.Emit(&psa.Event{Kind: "call", Callee: name, Fn: f, Args: args, Res: e, Instr: call.Instr, In: call.In})
		st2 := st.Clone()
		st.Assume(T.Eq(e, T.Nil()), true)
		st2.Assume(T.Eq(e, T.Nil()), false)
		st.Store(strip(args[1]), decoded)
		return []psa.Ret{{St: st, Kind: "ret", Val: e}, {St: st2, Kind: "ret", Val: e}}
	}
	self := in.Param(uf.Params[0])
	for _, p := range c.run(in, uf, nil, nil, nil) {
		at := c.ipos(p.At)
		if p.Kind != "ret" {
			continue
		}
		for _, e := range calls(p, "encoding/json.Unmarshal", "internal/pointer.Parse") {
			er := e.Res
			if e.Res.Typ != nil {
				if tup, ok := e.Res.Typ.(*types.Tuple); ok && tup.Len() == 2 {
					er = T.Extract(e.Res, 1, nil)
				}
			}
			if p.St.Nil(er) != 1 {
				c.expect(fails(p) || mayFail(p) && p.St.Norm(p.Results[0]) == p.St.Norm(er), "errors", "UnmarshalJSON", at, "a failure of %s is not reported", callee(e))
			}
		}
		if !succeeded(p) {
			c.expect(!c.causeless(in, p), "errors", "UnmarshalJSON", at, "a pointer is refused without a reason %s", c.where(p))
			continue
		}
		data := in.Param(uf.Params[1])
		if p.St.Nil(data) == 1 {
			continue // nothing to read
		}
		n++
		v := p.St.Norm(p.St.Load(self, ptrT))
		cl, i := callOf(v)
		ok := cl != nil && i == 0 && shortName(cl.Callee()) == "internal/pointer.Parse" && p.St.Norm(cl.Args[0]) == decoded
		c.expect(ok, "codec", "UnmarshalJSON", at, "a pointer is decoded as %s", str(v))
	}
	c.expect(n > 0, "codec", "UnmarshalJSON", c.pos(uf.Pos()), "pointers cannot be decoded")
}

func (c *Ctx) pointerSets() {
	ptrT := c.typ("pointer", "Pointer")
	const ps = "(internal/pointer.Pointer).String"
	in := c.interp()
	c.opaque(in, "internal/pointer.NewPointers", "(internal/pointer.Pointers).Merge")
	T := in.T
	fn := c.fn("pointer", "NewPointers")
	a, b := T.Sym("POINTERA", ptrT), T.Sym("POINTERB", ptrT)
	sa := in.NewState() // equal texts are equal pointers
	sa.Assume(T.Eq(T.Call("("+modPath+"/internal/pointer.Pointer).String", types.Typ[types.String], a), T.Call("("+modPath+"/internal/pointer.Pointer).String", types.Typ[types.String], b)), false)
	for _, p := range c.run(in, fn, []*psa.Term{T.Mk("list", nil, types.NewSlice(ptrT), a, b)}, nil, sa) {
		at := c.ipos(p.At)
		if p.Kind != "ret" {
			c.violate("set", "NewPointers", at, "making a set of pointers panics")
			continue
		}
		m := p.St.Norm(p.Results[0])
		ks, vs, base := p.St.MapEntries(m)
		for _, x := range []*psa.Term{a, b} {
			ok := false
			for i := range ks {
				if isCall(p.St.Norm(ks[i]), ps) && p.St.Norm(ks[i]).Args[0] == x {
					ok = p.St.Norm(vs[i]) == x
				}
			}
			c.expect(ok && base == nil, "set", "NewPointers", at, "a pointer of the list is not in the set under its text: %s", strings.Join(strs(ks), ", "))
		}
		c.expect(len(ks) == 2, "set", "NewPointers", at, "the set of two pointers has %d entries", len(ks))
	}
	mf := c.method("pointer", "Pointers", "Merge")
	mt := mf.Signature.Results().At(0).Type().Underlying().(*types.Map)
	st := in.NewState()
	m1, k1, v1 := mapOf(in, st, "ONE", mt, 1)
	m2, k2, v2 := mapOf(in, st, "TWO", mt, 1)
	st.Assume(T.Eq(k1[0], k2[0]), false)
	for _, p := range c.run(in, mf, []*psa.Term{m1, m2}, nil, st) {
		at := c.ipos(p.At)
		if p.Kind != "ret" {
			c.violate("set", "Merge", at, "merging sets of pointers panics")
			continue
		}
		ks, vs, base := p.St.MapEntries(p.St.Norm(p.Results[0]))
		has := func(k, v *psa.Term) bool {
			for i := range ks {
				if p.St.Norm(ks[i]) == p.St.Norm(k) && p.St.Norm(vs[i]) == v {
					return true
				}
			}
			return false
		}
		c.expect(base == nil && has(k1[0], v1[0]), "set", "Merge", at, "a pointer of the first set is lost")
		c.expect(base == nil && has(k2[0], v2[0]), "set", "Merge", at, "a pointer of the second set is lost")
		c.expect(len(ks) <= 2, "set", "Merge", at, "pointers are invented")
	}
}

func strs(ts []*T) (out []string) {
	for _, t := range ts {
		out = append(out, str(t))
	}
	return
}

// emptied decides whether what is known says that a text which is not empty
// is, with some of its characters written otherwise.
func (c *Ctx) emptied(in *psa.Interp, st *psa.State) bool {
	for k, v := range st.FactTerms() {
		if k.Op != "eq" && !(v.Op == "const" && isText(v)) {
			continue
		}
		var t *T
		if yes, ok := v.ConstBool(); ok && yes && k.Op == "eq" {
			switch "" {
			case constText(k.Args[1]):
				t = k.Args[0]
			case constText(k.Args[0]):
				t = k.Args[1]
			}
		} else if constText(v) == "" {
			t = k
		}
		if t == nil {
			continue
		}
		base, how := c.rewritten(in, st, t)
		if base == t || strings.Contains(how, "?") || strings.HasSuffix(how, "→") || strings.Contains(how, "→ ") {
			continue
		}
		if st.Truth(in.T.Eq(base, in.T.Str(""))) == 0 {
			return true
		}
	}
	return false
}

// constText is the text of a constant.
func constText(t *T) string {
	s, ok := t.ConstString()
	if !ok {
		return "?"
	}
	return s
}

// fragmentTokens decides what the fragments of a few tokens answer.
func (c *Ctx) fragmentTokens() {
	strT := types.Typ[types.String]
	frT := c.typ("pointer", "Fragment")
	for n := 0; n <= 4; n++ {
		in := c.interp()
		c.opaque(in, "internal/pointer")
		T := in.T
		P, Q, R := T.Sym("PATH", strT), T.Sym("PATH-2", strT), T.Sym("PATH-3", strT)
		split := withSplit(in, "/", P, Q, R)
		in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
			return split(st, name, args, call)
		}
		all := tokensOf(in, n)
		X, Y := T.Sym("TOKEN-X", strT), T.Sym("TOKEN-Y", strT)
		what := []string{"no token", "one token", "two tokens", "three tokens", "four tokens"}[n]
		run := func(m string, args ...*psa.Term) []*psa.Path {
			fn := c.method("pointer", "Fragment", m)
			st := in.NewState()
			for _, x := range append([]*psa.Term{X, Y, P, Q, R}, all...) {
				st.Assume(T.Eq(x, T.Str("")), false)
			}
			for _, x := range append([]*psa.Term{P}, args...) {
				if x == P || x.Op == "concat" && x.Args[0] == P {
					st.Assume(T.Call("strings.HasPrefix", types.Typ[types.Bool], x, T.Str("/")), false)
				}
			}
			p := T.Mk("list", nil, frT, all...)
			var out []*psa.Path
			for _, q := range c.run(in, fn, append([]*psa.Term{p}, args...), nil, st) {
				if c.emptied(in, q.St) {
					continue
				}
				if q.Kind != "ret" {
					c.violate("tokens", m, c.ipos(q.At), m+" of a fragment of "+what+" panics")
					continue
				}
				out = append(out, q)
			}
			if len(out) == 0 {
				c.violate("tokens", m, c.pos(fn.Pos()), m+" of a fragment of "+what+" never returns")
			}
			return out
		}
		truth := func(p *psa.Path, t *psa.Term) int { return p.St.Truth(p.St.Norm(t)) }
		// list decides that t is a fragment of the given tokens
		list := func(p *psa.Path, m string, t *psa.Term, want ...*psa.Term) {
			l := in.Resolve(p.St, t)
			ok := (l.Op == "list" || l.Op == "nil" || l.Op == "zero") && len(l.Args) == len(want)
			for i := 0; ok && i < len(want); i++ {
				ok = p.St.Norm(l.Args[i]) == p.St.Norm(want[i])
			}
			c.expect(ok, "tokens", m, c.ipos(p.At), "%s of a fragment of %s is %s", m, what, str(l))
		}
		for _, p := range run("IsEmpty") {
			w := 0
			if n == 0 {
				w = 1
			}
			c.expect(truth(p, p.Results[0]) == w, "tokens", "IsEmpty", c.ipos(p.At), "a fragment of %s is empty if %s", what, str(p.Results[0]))
		}
		for _, p := range run("Len") {
			k, ok := p.St.Norm(p.Results[0]).ConstInt()
			c.expect(ok && k == int64(n), "tokens", "Len", c.ipos(p.At), "the length of a fragment of %s is %s", what, str(p.Results[0]))
		}
		for _, m := range []string{"Head", "Tail", "Last"} {
			for _, p := range run(m) {
				if n == 0 {
					c.expect(truth(p, p.Results[1]) == 0, "tokens", m, c.ipos(p.At), "%s of the empty fragment is %s", m, str(p.Results[0]))
					continue
				}
				w := all[0]
				if m != "Head" {
					w = all[n-1]
				}
				c.expect(truth(p, p.Results[1]) == 1 && p.St.Norm(p.Results[0]) == w, "tokens", m, c.ipos(p.At), "%s of a fragment of %s is %s", m, what, str(p.Results[0]))
			}
		}
		for _, p := range run("Clone") {
			list(p, "Clone", p.Results[0], all...)
		}
		for k := int64(-1); k <= int64(n); k++ {
			for _, p := range run("Replace", T.Int(k), X) {
				if k < 0 || k == int64(n) {
					c.expect(fails(p), "tokens", "Replace", c.ipos(p.At), "token %d of a fragment of %s is replaced", k, what)
					continue
				}
				if !succeeded(p) {
					c.violate("tokens", "Replace", c.ipos(p.At), "replacing a token of a fragment of "+what+" fails")
					continue
				}
				w := append([]*psa.Term{}, all...)
				w[k] = X
				list(p, "Replace", p.Results[0], w...)
			}
		}
		for _, ext := range [][]*psa.Term{nil, {X}, {X, Y}} {
			for _, p := range run("RawDescendant", T.Mk("list", nil, types.NewSlice(strT), ext...)) {
				list(p, "RawDescendant", p.Results[0], append(append([]*psa.Term{}, all...), ext...)...)
			}
		}
		for k := 1; k <= 3; k++ {
			for _, lead := range []string{"", "/"} {
				segs := []*psa.Term{P, Q, R}[:k]
				arg := T.Str(lead)
				for i, x := range segs {
					if i > 0 {
						arg = T.Concat(arg, T.Str("/"))
					}
					arg = T.Concat(arg, x)
				}
				for _, p := range run("Descendant", arg) {
					if !succeeded(p) {
						c.violate("tokens", "Descendant", c.ipos(p.At), "a descendant of a fragment of "+what+" is refused "+c.where(p))
						continue
					}
					l := in.Resolve(p.St, p.Results[0])
					if l.Op != "list" || len(l.Args) != n+k {
						c.violate("tokens", "Descendant", c.ipos(p.At), "a descendant of a fragment of "+what+" is "+str(l)+" "+c.where(p))
						continue
					}
					list(p, "Descendant", p.Results[0], append(append([]*psa.Term{}, all...), l.Args[n:]...)...)
					for i, x := range segs {
						ok, how := c.isUnescape(in, p.St, l.Args[n+i], x, "/")
						c.expect(ok, "tokens", "Descendant", c.ipos(p.At), "the token of a descendant is read as %s", how)
					}
				}
			}
		}
	}
}

// tokensOf yields n tokens.
func tokensOf(in *psa.Interp, n int) (xs []*psa.Term) {
	for i := 0; i < n; i++ {
		xs = append(xs, in.T.Sym("TOKEN-"+string(rune('A'+i)), types.Typ[types.String]))
	}
	return xs
}

// pointerCopies decides what copies, new pointers and pointers which must be
// readable are.
func (c *Ctx) pointerCopies() {
	ptrT := c.typ("pointer", "Pointer")
	frT := c.typ("pointer", "Fragment")
	for n := 0; n <= 4; n++ {
		in := c.interp()
		c.opaque(in, "internal/pointer")
		T := in.T
		all := tokensOf(in, n)
		fn := c.method("pointer", "Pointer", "Clone")
		urlT := importedType(c, "net/url", "URL")
		url := T.Sym("URL", urlT)
		for _, p := range c.run(in, fn, []*psa.Term{T.Mk("agg", nil, ptrT, url, T.Mk("list", nil, frT, all...))}, nil, nil) {
			at := c.ipos(p.At)
			if p.Kind != "ret" {
				c.violate("tokens", "Pointer.Clone", at, "copying a pointer panics")
				continue
			}
			u := p.St.Norm(c.field(in, p.Results[0], ptrT, "URL"))
			l := in.Resolve(p.St, c.field(in, p.Results[0], ptrT, "Fragment"))
			ok := (l.Op == "list" || l.Op == "nil" || l.Op == "zero") && len(l.Args) == n
			for i := 0; ok && i < n; i++ {
				ok = p.St.Norm(l.Args[i]) == all[i]
			}
			c.expect(u == url && ok, "tokens", "Pointer.Clone", at, "the copy of a pointer is %s %s", str(u), str(l))
		}
	}
	in := c.interp()
	c.opaque(in, "internal/pointer.NewPointer")
	fn := c.fn("pointer", "NewPointer")
	for _, p := range c.run(in, fn, nil, nil, nil) {
		u := p.St.Norm(c.field(in, p.Results[0], ptrT, "URL"))
		l := in.Resolve(p.St, c.field(in, p.Results[0], ptrT, "Fragment"))
		k, ok := p.St.Norm(in.T.Len(l)).ConstInt()
		c.expect(p.Kind == "ret" && u.Op == "zero" && ok && k == 0, "tokens", "NewPointer", c.ipos(p.At), "a new pointer is %s %s", str(u), str(l))
	}
	in = c.interp()
	c.opaque(in, "internal/pointer.MustParse")
	fn = c.fn("pointer", "MustParse")
	for _, p := range c.run(in, fn, nil, nil, nil) {
		for _, e := range calls(p, "internal/pointer.Parse") {
			failed := p.St.Nil(in.T.Extract(e.Res, 1, nil)) != 1
			c.expect(failed == (p.Kind == "panic"), "errors", "MustParse", c.ipos(p.At), "a reference which cannot be read is given, or one which can is not")
		}
		if p.Kind != "ret" {
			continue
		}
		cl, i := callOf(p.St.Norm(p.Results[0]))
		c.expect(cl != nil && i == 0 && shortName(cl.Callee()) == "internal/pointer.Parse" && p.St.Norm(cl.Args[0]) == in.Param(fn.Params[0]), "parse", "MustParse", c.ipos(p.At), "what must be readable is read as %s", str(p.Results[0]))
	}
}

func isEmptyText(t *T) bool {
	s, ok := t.ConstString()
	return ok && s == "" || isZeroTerm(t)
}
