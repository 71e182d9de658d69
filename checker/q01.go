package main

import (
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["Q01"] = checkQ01 }

// seg is a piece of a pattern: literal text, a variable, or arbitrary text
// (named, without variables in it).
type seg struct {
	text string
	any  bool
}

func lit(s string) seg { return seg{text: s} }
func any1(n string) seg {
	return seg{text: n, any: true}
}

func checkQ01(c *Ctx) {
	c.explain = "Route matching is interpreted for pattern skeletons in which arbitrary text, variables, wildcards and methods alternate. The regular expression which decides the match is obtained as a term over the arbitrary pieces of text; it has to be the anchored concatenation of the quoted pieces and of the groups for the variables, and its match with the route has to be the answer unless the methods differ."
	c.rule("expression", "the expression a route is matched with is anchored at both ends, takes literal text literally, a variable as one segment and a star as anything", 20)
	c.rule("method", "a pattern with a method rejects the operations of other methods, and nothing else is rejected because of its method", 50)
	c.rule("answer", "the answer is whether the route matches the expression of this very pattern", 50)
	c.rule("errors", "an expression which does not compile is reported, and only that", 20)
	A, B, C := any1("A"), any1("B"), any1("C")
	bodies := [][]seg{
		{lit("/"), A},
		{lit("*")},
		{lit("/"), A, lit("/{id}/"), B, lit("/*")},
		{lit("/"), A, lit("*"), B, lit("/{userName2}.x/"), C},
		{lit("/{ab}{cd}/"), A},
		{lit("/{id}:"), A, lit("?(+)[].$")},
		{lit("/"), A, lit("/{not a name}/{}/{/"), B},
		{lit("/{theIdentifierOfTheCustomerInTheOldSystem2024}/{x1}/**"), A},
		{lit("/{Id}/{user_name}/{a}/{2nd}"), A},
	}
	for _, b := range bodies {
		c.routeMatch("", "", b)
	}
	for _, m := range httpMethods {
		for i, spell := range []string{m, strings.ToUpper(m), strings.ToUpper(m[:1]) + m[1:]} {
			c.routeMatch(spell, m, bodies[2*i%len(bodies)])
			if i == 0 {
				c.routeMatch(spell, m, []seg{lit("post:/"), A, lit("/unlock:"), B})
			}
		}
	}
	c.count("skeletons of patterns", len(bodies)+3*len(httpMethods))
	c.floor("skeletons of patterns", 20)
}

// holeName is what stands for arbitrary text when expressions are compared.
func holeName(n string) string { return "HOLE" + n + "HOLE" }

func (c *Ctx) routeMatch(prefix, method string, body []seg) {
	in := c.interp()
	fn := c.fn("route", "Match")
	c.opaque(in, fname(fn), "internal/route")
	if len(fn.Params) != 3 {
		c.fatal("anchor", "route.Match no longer takes a pattern, a method and a path")
	}
	strT := types.Typ[types.String]
	rest := in.T.Str("")
	want := ""
	holes := map[*T]string{}
	vars := regexp.MustCompile(`\{[a-z][a-zA-Z0-9]+\}|\*`)
	for _, s := range body {
		if s.any {
			h := in.T.Sym("TEXT-"+s.text, strT)
			holes[h] = s.text
			rest = in.T.Concat(rest, h)
			want += holeName(s.text)
			continue
		}
		rest = in.T.Concat(rest, in.T.Str(s.text))
		last := 0
		for _, ij := range vars.FindAllStringIndex(s.text, -1) {
			want += regexp.QuoteMeta(s.text[last:ij[0]])
			if s.text[ij[0]] == '*' {
				want += ".*"
			} else {
				want += "[^/]+"
			}
			last = ij[1]
		}
		want += regexp.QuoteMeta(s.text[last:])
	}
	want = canonRegex("^" + want + "$")
	pattern := rest
	name := str2(body)
	if prefix != "" {
		pattern = in.T.Concat(in.T.Str(prefix+":"), rest)
		name = prefix + ":" + name
	}
	meth, path := in.Param(fn.Params[1]), in.Param(fn.Params[2])
	in.Model = func(st *psa.State, n string, f *ssa.Function, args []*T, call *psa.Call) []psa.Ret {
		if n != "(*regexp.Regexp).FindAllStringIndex" {
			return nil
		}
		src := c.regexSource(in, st, args[0])
		re, err := regexp.Compile(src)
		if src == "" || err != nil {
			return nil
		}
		if k, ok := st.Norm(args[2]).ConstInt(); !ok || k >= 0 {
			return nil
		}
		// arbitrary text holds no variables, nor does it complete one
		var res []*T
		pre := in.T.Str("")
		intT := types.NewSlice(types.Typ[types.Int])
		s := st.Norm(args[1])
		segs := []*T{s}
		if s.Op == "concat" {
			segs = s.Args
		}
		for _, g := range segs {
			if t, ok := g.ConstString(); ok {
				for _, ij := range re.FindAllStringIndex(t, -1) {
					res = append(res, in.T.Mk("list", nil, intT, in.T.Len(in.T.Concat(pre, in.T.Str(t[:ij[0]]))), in.T.Len(in.T.Concat(pre, in.T.Str(t[:ij[1]])))))
				}
			} else if _, ok := holes[g]; !ok {
				return nil
			}
			pre = in.T.Concat(pre, g)
		}
		return []psa.Ret{{St: st, Kind: "ret", Val: in.T.Mk("list", nil, call.Typ, res...)}}
	}
	matched := 0
	for _, p := range c.run(in, fn, []*T{pattern, meth, path}, nil, nil) {
		if p.Kind != "ret" {
			c.violate("errors", "Match", c.pos(fn.Pos()), "matching "+name+" panics "+c.where(p))
			continue
		}
		at := c.ipos(p.At)
		// the methods
		same := -1
		if prefix != "" {
			same = ciEqual(in, p, meth, method)
		}
		noMethod := truth(p, in.T.Eq(meth, in.T.Str("")))
		// compilation
		var compiled *T
		failed := false
		for _, e := range p.Events {
			if e.Kind == "call" && (e.Callee == "regexp.Compile" || e.Callee == "regexp.CompilePOSIX" || e.Callee == "regexp.MustCompile") {
				compiled = e.Res
				if p.St.Nil(in.T.Extract(e.Res, 1, nil)) == 0 {
					failed = true
				}
				c.expect(e.Callee == "regexp.Compile", "expression", "syntax", c.ipos(e.Instr), "patterns are compiled with %s", e.Callee)
			}
		}
		if p.St.Nil(p.Results[1]) != 1 {
			c.expect(failed, "errors", "Match", at, "matching %s fails although nothing failed %s", name, c.where(p))
			c.expect(str3(in, p, p.Results[0]) == "false", "errors", "Match", at, "a failure to match %s comes with a match", name)
			continue
		}
		c.expect(!failed, "errors", "Match", at, "a pattern which does not compile is not reported %s", c.where(p))
		if failed {
			continue
		}
		ans := p.St.Norm(p.Results[0])
		if b, ok := ans.ConstBool(); ok && !isMatch(ans) {
			// decided without matching: only because of the method
			c.expect(!b, "answer", "Match", at, "%s matches whatever the route is %s", name, c.where(p))
			c.expect(b || same == 0 && noMethod == 0, "method", "Match", at, "%s rejects an operation although the methods do not differ %s", name, c.where(p))
			continue
		}
		if prefix != "" {
			c.expect(same == 1 || noMethod == 1, "method", "Match", at, "%s does not look at the method of an operation %s", name, c.where(p))
		} else {
			c.ok("method")
		}
		if !isMatch(ans) || p.St.Norm(ans.Args[1]) != path {
			c.violate("answer", "Match", at, "matching "+name+" answers "+str(ans)+" "+c.where(p))
			continue
		}
		matched++
		re := p.St.Norm(ans.Args[0])
		cl, i := callOf(re)
		if cl != nil && i == 0 && strings.HasPrefix(cl.Callee(), "regexp.") {
			got := canonRegex(c.regexText(in, p.St, cl.Args[0], holes))
			c.expect(got == want, "expression", name, at, "%s is matched as %s instead of %s", name, got, want)
			c.ok("answer")
			continue
		}
		// an expression kept from before: it has to be the one of this pattern
		key := cacheKey(re)
		if key == nil {
			c.violate("answer", "Match", at, "matching "+name+" uses "+str(re)+" "+c.where(p))
			continue
		}
		k := p.St.Norm(key)
		kt := c.regexText(in, p.St, k, holes)
		good := k == pattern || canonRegex(kt) == want || canonRegex("^"+kt+"$") == want || k == rest
		c.expect(good, "answer", "cache", at, "the expression kept for another pattern may be used for %s: it is looked up as %s", name, str(k))
		_ = compiled
	}
	// what is kept is what the pattern compiles to
	for _, p := range c.run(in, fn, []*T{pattern, meth, path}, nil, nil) {
		for _, e := range p.Events {
			syncMap := e.Kind == "call" && (e.Callee == "(*sync.Map).Store" || e.Callee == "(*sync.Map).LoadOrStore" || e.Callee == "(*sync.Map).Swap")
			if e.Kind != "mapset" && !syncMap || len(e.Args) < 3 {
				continue
			}
			v := strip(p.St.Norm(e.Args[2]))
			cl, i := callOf(v)
			if cl == nil || i != 0 || !strings.HasPrefix(cl.Callee(), "regexp.") {
				continue
			}
			k := strip(p.St.Norm(e.Args[1]))
			kt, rt := c.regexText(in, p.St, k, holes), c.regexText(in, p.St, cl.Args[0], holes)
			good := k == pattern || k == rest || kt == rt || "^"+kt+"$" == rt || "^(?:"+kt+")$" == rt
			c.expect(good, "answer", "cache", c.ipos(e.Instr), "for %s the expression %s is kept as %s", name, rt, str(k))
		}
	}
	c.expect(matched > 0, "answer", "Match", c.pos(fn.Pos()), "%s is never matched with a route", name)
}

func str2(body []seg) string {
	s := ""
	for _, b := range body {
		if b.any {
			s += "‹" + b.text + "›"
		} else {
			s += b.text
		}
	}
	return s
}

func str3(in *psa.Interp, p *psa.Path, t *T) string {
	t = p.St.Norm(t)
	if b, ok := t.ConstBool(); ok {
		if b {
			return "true"
		}
		return "false"
	}
	if t.Op == "zero" {
		return "false"
	}
	return str(t)
}

func isMatch(t *T) bool { return t.Op == "call" && t.Callee() == "(*regexp.Regexp).MatchString" }

// cacheKey is the key of the map entry t was read from.
func cacheKey(t *T) *T {
	t = strip(t)
	if t.Op == "as" {
		t = t.Args[0]
	}
	if t.Op == "extract" {
		t = t.Args[0]
	}
	if t.Op == "call" && (t.Callee() == "(*sync.Map).Load" || t.Callee() == "(*sync.Map).LoadOrStore") && len(t.Args) > 1 {
		return strip(t.Args[1])
	}
	if t.Op == "lookup" || t.Op == "mapget" {
		return t.Args[1]
	}
	return nil
}

// regexSource is the constant source of a compiled expression.
func (c *Ctx) regexSource(in *psa.Interp, st *psa.State, t *T) string {
	cl, i := callOf(st.Norm(t))
	if cl == nil || i != 0 || cl.Callee() != "regexp.MustCompile" && cl.Callee() != "regexp.Compile" {
		return ""
	}
	s, _ := st.Norm(cl.Args[0]).ConstString()
	return s
}

// regexText writes an expression with names for the arbitrary text in it.
func (c *Ctx) regexText(in *psa.Interp, st *psa.State, t *T, holes map[*T]string) string {
	t = st.Norm(t)
	segs := []*T{t}
	if t.Op == "concat" {
		segs = t.Args
	}
	r := ""
	for _, g := range segs {
		if s, ok := g.ConstString(); ok {
			r += s
			continue
		}
		if g.Op == "call" && g.Callee() == "regexp.QuoteMeta" && len(g.Args) == 1 {
			if n, ok := holes[st.Norm(g.Args[0])]; ok {
				r += holeName(n)
				continue
			}
		}
		return "an expression with " + str(g) + " in it"
	}
	return r
}

// canonRegex brings an expression into a form in which groups do not matter.
func canonRegex(s string) string {
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return s
	}
	var w func(r *syntax.Regexp) *syntax.Regexp
	w = func(r *syntax.Regexp) *syntax.Regexp {
		for i, x := range r.Sub {
			r.Sub[i] = w(x)
		}
		switch r.Op {
		case syntax.OpCapture:
			return r.Sub[0]
		case syntax.OpConcat:
			var sub []*syntax.Regexp
			for _, x := range r.Sub {
				switch {
				case x.Op == syntax.OpEmptyMatch:
				case x.Op == syntax.OpConcat:
					sub = append(sub, x.Sub...)
				case x.Op == syntax.OpLiteral && len(sub) > 0 && sub[len(sub)-1].Op == syntax.OpLiteral && sub[len(sub)-1].Flags&syntax.FoldCase == x.Flags&syntax.FoldCase:
					l := *sub[len(sub)-1]
					l.Rune = append(append([]rune(nil), l.Rune...), x.Rune...)
					sub[len(sub)-1] = &l
				default:
					sub = append(sub, x)
				}
			}
			r.Sub = sub
		case syntax.OpBeginText:
			r.Flags = 0
		case syntax.OpEndText:
			r.Flags = syntax.WasDollar
		case syntax.OpPlus, syntax.OpStar:
			r.Flags &^= syntax.NonGreedy
		}
		return r
	}
	re = w(re)
	re = w(re.Simplify())
	return re.String()
}

// ciEqual decides whether method equals want up to case on a path.
func ciEqual(in *psa.Interp, p *psa.Path, method *T, want string) int {
	res := -1
	for f, v := range p.St.FactTerms() {
		b, ok := v.ConstBool()
		if !ok {
			continue
		}
		hit := false
		switch {
		case f.Op == "call" && f.Callee() == "strings.EqualFold" && len(f.Args) == 2:
			for i := 0; i < 2; i++ {
				if s, ok := f.Args[i].ConstString(); ok && strings.EqualFold(s, want) && lowered(f.Args[1-i]) == method {
					hit = true
				}
			}
		case f.Op == "eq":
			for i := 0; i < 2; i++ {
				if s, ok := f.Args[i].ConstString(); ok && lowered(f.Args[1-i]) == method {
					o := f.Args[1-i]
					if o.Op == "call" && (o.Callee() == "strings.ToLower" && s == strings.ToLower(want) || o.Callee() == "strings.ToUpper" && s == strings.ToUpper(want)) {
						hit = true
					}
				}
			}
		}
		if hit {
			if b {
				res = 1
			} else if res != 1 {
				res = 0
			}
		}
	}
	return res
}

func lowered(t *T) *T {
	if t.Op == "call" && (t.Callee() == "strings.ToLower" || t.Callee() == "strings.ToUpper") {
		return t.Args[0]
	}
	return t
}
