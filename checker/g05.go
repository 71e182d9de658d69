package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["G05"] = checkG05 }

// goPointers answers calls about pointers whose text is known.
type goPointers struct {
	c  *Ctx
	in *psa.Interp
}

// mk makes the pointer go://pkg#/seg/seg.
func (g goPointers) mk(scheme, pkg string, segs ...string) *T {
	T := g.in.T
	pt := g.c.typ("pointer", "Pointer")
	st := pt.Underlying().(*types.Struct)
	ut := st.Field(0).Type()
	us := ut.Underlying().(*types.Struct)
	host, path := pkg, ""
	if i := strings.Index(pkg, "/"); i >= 0 {
		host, path = pkg[:i], pkg[i:]
	}
	var fs []*T0
	for i := 0; i < us.NumFields(); i++ {
		switch us.Field(i).Name() {
		case "Scheme":
			fs = append(fs, T.Str(scheme))
		case "Host":
			fs = append(fs, T.Str(host))
		case "Path":
			fs = append(fs, T.Str(path))
		default:
			fs = append(fs, T.Zero(us.Field(i).Type()))
		}
	}
	return T.Mk("agg", nil, pt, T.Mk("agg", nil, ut, fs...), g.frag(segs))
}

func (g goPointers) frag(segs []string) *T {
	var ss []*T
	for _, s := range segs {
		ss = append(ss, g.in.T.Str(s))
	}
	return g.in.T.Mk("list", nil, g.c.typ("pointer", "Fragment"), ss...)
}

// segs reads a fragment of known text.
func (g goPointers) segs(st *psa.State, f *T) ([]string, bool) {
	l := g.in.Resolve(st, f)
	if isZeroTerm(l) || l.Op == "nil" {
		return nil, true
	}
	if l.Op != "list" {
		return nil, false
	}
	out := []string{}
	for _, a := range l.Args {
		s, ok := st.Norm(a).ConstString()
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

// text is the text of a pointer, if it is known.
func (g goPointers) text(st *psa.State, p *T) (string, bool) {
	pt := g.c.typ("pointer", "Pointer")
	u := g.c.field(g.in, p, pt, "URL")
	ut := pt.Underlying().(*types.Struct).Field(0).Type()
	get := func(n string) string {
		s, ok := st.Norm(g.c.field(g.in, u, ut, n)).ConstString()
		if !ok {
			return "?"
		}
		return s
	}
	segs, ok := g.segs(st, st.Norm(g.c.field(g.in, p, pt, "Fragment")))
	if !ok {
		return "", false
	}
	t := get("Host") + get("Path")
	if s := get("Scheme"); s != "" {
		t = s + "://" + t
	}
	t += "#"
	for _, s := range segs {
		t += "/" + s
	}
	return t, !strings.Contains(t, "?")
}

func (g goPointers) model(st *psa.State, name string, args []*T, call *psa.Call) []psa.Ret {
	T := g.in.T
	ret := func(v *T0) []psa.Ret { return []psa.Ret{{St: st, Kind: "ret", Val: v}} }
	pair := func(v *T0) []psa.Ret { return ret(T.Mk("agg", nil, call.Typ, v, T.Nil())) }
	parse := func(s string) *T0 {
		scheme := ""
		if i := strings.Index(s, "://"); i >= 0 {
			scheme, s = s[:i], s[i+3:]
		}
		i := strings.Index(s, "#/")
		if i < 0 {
			return nil
		}
		return g.mk(scheme, s[:i], strings.Split(s[i+2:], "/")...)
	}
	consts := func() (out []string, ok bool) {
		for _, a := range args {
			s, ok := st.Norm(a).ConstString()
			if !ok {
				return nil, false
			}
			out = append(out, s)
		}
		return out, true
	}
	switch n := shortName(name); n {
	case "internal/pointer.NewGoPointer":
		if cs, ok := consts(); ok && len(cs) == 2 {
			return pair(g.mk("go", cs[0], strings.Split(cs[1], "/")...))
		}
	case "internal/pointer.Parse", "internal/pointer.MustParse":
		if cs, ok := consts(); ok && len(cs) == 1 {
			if p := parse(cs[0]); p != nil {
				if strings.HasSuffix(n, "MustParse") {
					return ret(p)
				}
				return pair(p)
			}
		}
	case "(internal/pointer.Pointer).String":
		if s, ok := g.text(st, st.Norm(args[0])); ok {
			return ret(T.Str(s))
		}
	case "(internal/pointer.Pointer).Clone", "(internal/pointer.Fragment).Clone":
		return ret(st.Norm(args[0]))
	case "(internal/pointer.Fragment).Descendant", "(internal/pointer.Fragment).RawDescendant":
		segs, ok := g.segs(st, args[0])
		if !ok {
			return nil
		}
		var more []string
		if strings.HasSuffix(n, "RawDescendant") {
			more, ok = g.segs(st, args[1])
		} else if s, isC := st.Norm(args[1]).ConstString(); isC {
			more = strings.Split(strings.TrimPrefix(s, "/"), "/")
		} else {
			ok = false
		}
		if !ok {
			return nil
		}
		f := g.frag(append(append([]string(nil), segs...), more...))
		if strings.HasSuffix(n, "RawDescendant") {
			return ret(f)
		}
		return pair(f)
	case "(*net/url.URL).Hostname":
		u := st.Load(args[0], nil)
		ut := g.c.typ("pointer", "Pointer").Underlying().(*types.Struct).Field(0).Type()
		return ret(st.Norm(g.c.field(g.in, u, ut, "Host")))
	}
	return nil
}

// iterate models typeutil.Map.Iterate: the entries in any order; two are tried.
func (w *goWorld) iterate(st *psa.State, args []*T, call *psa.Call, backwards bool) []psa.Ret {
	ks, vs, base := st.MapEntries(w.shadow)
	if base != nil {
		return nil
	}
	outs := []psa.Ret{{St: st, Kind: "ret", Val: w.in.T.Nil()}}
	for n := range ks {
		i := n
		if backwards {
			i = len(ks) - 1 - n
		}
		id, _ := ks[i].ConstString()
		var g *gty
		for _, x := range w.all {
			if x.id == id {
				g = x
			}
		}
		if g == nil {
			return nil
		}
		var next []psa.Ret
		for _, o := range outs {
			if o.Kind != "ret" {
				next = append(next, o)
				continue
			}
			rs := call.Do(o.St, args[1], g.val, vs[i])
			if rs == nil {
				return nil
			}
			next = append(next, rs...)
		}
		outs = next
	}
	for i := range outs {
		if outs[i].Kind == "ret" {
			outs[i].Val = w.in.T.Nil()
		}
	}
	return outs
}

// places computes what has to be known after the collection: for every type
// (the first identical one) the texts of its places.
func places(w *goWorld, roots ...*gty) map[*gty]map[string]bool {
	out := map[*gty]map[string]bool{}
	var walk func(text string, g *gty, path []*gty)
	walk = func(text string, g *gty, path []*gty) {
		u := g.underlying()
		r := w.rep(u)
		if out[r] == nil {
			out[r] = map[string]bool{}
		}
		out[r][text] = true
		for _, x := range path {
			if sameType(x, u) {
				return
			}
		}
		path = append(path[:len(path):len(path)], u)
		next := func(t string, e *gty) {
			walk(t, e, path)
			if e.kind == "Named" && !e.nopkg {
				walk(e.place(), e, path)
			}
		}
		switch u.kind {
		case "Struct":
			for _, f := range u.fields {
				if f.exported == 1 {
					next(text+"/"+f.name, f.typ)
				}
			}
		case "Pointer":
			next(text+"/*", u.elem)
		case "Slice", "Array", "Map", "Chan":
			next(text+"/[]", u.elem)
		}
	}
	for _, r := range roots {
		walk(r.place(), r, nil)
	}
	return out
}

func (g *gty) place() string { return "go://" + g.pkgPath() + "#/" + g.name }

// denotes follows a text from its type.
func denotes(w *goWorld, text string) *gty {
	i := strings.Index(text, "#/")
	if i < 0 {
		return nil
	}
	segs := strings.Split(text[i+2:], "/")
	var g *gty
	for _, x := range w.all {
		if x.kind == "Named" && !x.nopkg && x.place() == text[:i+2]+segs[0] {
			g = x
		}
	}
	for _, s := range segs[1:] {
		if g == nil {
			return nil
		}
		u := g.underlying()
		g = nil
		switch {
		case s == "*" && u.kind == "Pointer", s == "[]" && (u.kind == "Slice" || u.kind == "Array" || u.kind == "Map" || u.kind == "Chan"):
			g = u.elem
		case u.kind == "Struct":
			for _, f := range u.fields {
				if f.name == s && f.exported == 1 {
					g = f.typ
				}
			}
		}
	}
	if g == nil {
		return nil
	}
	return w.rep(g.underlying())
}

func (c *Ctx) collected(rule, at string, w *goWorld, gp goPointers, st *psa.State, shadow *T, what string, roots ...*gty) {
	want := places(w, roots...)
	got := map[string]*gty{}
	ks, vs, base := st.MapEntries(shadow)
	if base != nil {
		c.violate(rule, "points", at, "what is known of types is not decided for "+what)
		return
	}
	for i := range ks {
		id, _ := ks[i].ConstString()
		var g *gty
		for _, x := range w.all {
			if x.id == id {
				g = x
			}
		}
		l := w.in.Resolve(st, strip(vs[i]))
		if g == nil || l.Op != "list" {
			c.violate(rule, "points", at, fmt.Sprintf("the places of a type of %s are not decided: %s", what, str(l)))
			return
		}
		for _, p := range l.Args {
			text, ok := gp.text(st, st.Norm(w.in.T.Field(p, 0, c.typ("pointer", "Pointer"))))
			if !ok {
				c.violate(rule, "points", at, fmt.Sprintf("a place of a type of %s is not decided: %s", what, str(p)))
				return
			}
			if old := got[text]; old != nil && old != w.rep(g) {
				c.violate(rule, "unique", at, "the place "+text+" of "+what+" is that of two types")
			}
			got[text] = w.rep(g)
			if d := denotes(w, text); d != w.rep(g) && w.rep(g).underlying() == w.rep(g) {
				c.violate(rule, "place", at, "in "+what+", the place "+text+" is taken for another type than is there")
			} else {
				c.ok(rule)
			}
		}
	}
	var ts []string
	for g, m := range want {
		for t := range m {
			if got[t] != g {
				ts = append(ts, t)
			} else {
				c.ok(rule)
			}
		}
	}
	sort.Strings(ts)
	if len(ts) > 0 {
		c.violate(rule, "missing", at, fmt.Sprintf("of %s, nothing is known at %s", what, strings.Join(ts, ", ")))
	}
}

func (c *Ctx) collectWorld(back bool) (*psa.Interp, *goWorld, goPointers) {
	in := c.interp()
	c.opaque(in, "internal/oapi/scan/types", "internal/pointer", "internal/oapi/spec")
	w := c.goWorld(in)
	w.pointsT = c.typ("types", "points")
	gp := goPointers{c, in}
	in.Rec = 12
	in.MaxSteps = 400000
	in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
		if rs := gp.model(st, name, args, call); rs != nil {
			return rs
		}
		if rs := sorting(in, st, name, args, call); rs != nil {
			return rs
		}
		if name == typeMap+"Iterate" && w.shadow != nil {
			return w.iterate(st, args, call, back)
		}
		return w.model(st, name, f, args, call)
	}
	return in, w, gp
}

func checkG05(c *Ctx) {
	c.explain = "The collection of types is interpreted on types of every sort, in packages of our making; what is then known of each place is compared with what is there. The search for the type of a place and the choice among the places of a type are interpreted on arbitrary, respectively sample, places."
	c.rule("collect", "every place reached from a type through exported fields, pointers and elements is known, and belongs to the type found there", 40)
	c.rule("scan", "the types which pointers into a package name are collected, and no others", 6)
	c.rule("find", "a place is resolved to the type it belongs to, else refused", 4)
	c.rule("pick", "among the places of a type, the shortest is referred to, the first in order of text if there are several", 4)
	str := func() *gty { return basic(types.String) }
	f := func(n string, t *gty) *gfield {
		x := fld(n, t, nil)
		x.embedded = -1
		return x
	}
	fn := c.fn("types", "collectTypes")
	for _, x := range []struct {
		what string
		mk   func(in *psa.Interp) *gty
	}{
		{"a named string", func(*psa.Interp) *gty { return named("T", str()) }},
		{"a struct", func(*psa.Interp) *gty {
			h := f("hidden", str())
			h.exported = 0
			return named("T", strukt(f("A", str()), h, f("B", basic(types.Int))))
		}},
		{"a struct of everything", func(in *psa.Interp) *gty {
			return named("T", strukt(f("P", ptr(str())), f("S", slice(basic(types.Int))), f("M", gmap(basic(types.Bool))), f("R", array(basic(types.Int8), in.T.Int(3))),
				f("I", &gty{kind: "Interface"}), f("F", &gty{kind: "Signature"}), f("C", &gty{kind: "Chan", elem: str()})))
		}},
		{"a struct of named types", func(in *psa.Interp) *gty {
			n := named("Inner", strukt(f("X", str()), f("Y", ptr(basic(types.Int)))))
			n.pkg = "other.com/q"
			e := named("error", &gty{kind: "Interface"})
			e.nopkg = true
			return named("T", strukt(f("N", n), f("P", ptr(n)), f("L", slice(named("L", slice(n)))), f("E", e), f("S", named("S", str()))))
		}},
		{"a struct which contains itself", func(*psa.Interp) *gty {
			g := named("T", strukt(f("A", str()), nil, nil))
			g.elem.fields[1] = f("Next", ptr(g))
			g.elem.fields[2] = f("All", slice(g))
			return g
		}},
		{"structs which contain each other", func(*psa.Interp) *gty {
			a := named("A", strukt(nil, f("X", str())))
			b := named("B", strukt(f("Back", ptr(a)), f("Y", basic(types.Int))))
			a.elem.fields[0] = f("B", ptr(b))
			return a
		}},
		{"a slice of itself", func(*psa.Interp) *gty {
			g := named("L", slice(nil))
			g.elem.elem = g
			return g
		}},
		{"a named pointer", func(*psa.Interp) *gty { return named("P", ptr(named("T", strukt(f("A", str()))))) }},
		{"two types of one structure", func(*psa.Interp) *gty {
			s := strukt(f("A", str()))
			return named("T", strukt(f("X", named("X", s)), f("Y", named("Y", s)), f("Z", s)))
		}},
		{"anonymous structs", func(*psa.Interp) *gty {
			return named("T", strukt(f("X", strukt(f("Y", slice(strukt(f("Z", gmap(ptr(str()))))))))))
		}},
	} {
		in, w, gp := c.collectWorld(false)
		g := w.add(x.mk(in))
		st := in.NewState()
		w.shadow = st.NewMap("SHADOW", types.NewMap(types.Typ[types.String], anyType))
		args := make([]*T, len(fn.Params))
		for i, q := range fn.Params {
			if types.IsInterface(q.Type()) {
				args[i] = in.T.Mk("iface", nil, g.obj.Typ, g.obj)
			} else {
				args[i] = in.T.Sym("POINTMAP", q.Type())
				st.Assume(in.T.Eq(args[i], in.T.Nil()), false)
			}
		}
		n := 0
		for _, p := range c.run(in, fn, args, nil, st) {
			if !c.expect(p.Kind == "ret", "collect", "panic", c.ipos(p.At), "collecting %s panics %s", x.what, c.where(p)) {
				continue
			}
			if !c.expect(p.St.Nil(p.Results[0]) == 1, "collect", "error", c.ipos(p.At), "collecting %s fails %s", x.what, c.where(p)) {
				continue
			}
			n++
			c.collected("collect", c.ipos(p.At), w, gp, p.St, w.shadow, x.what, g)
		}
		c.expect(n > 0, "collect", "collectTypes", c.pos(fn.Pos()), "%s is never collected", x.what)
		c.sample("%s: %d paths, %d types", x.what, n, len(w.all))
	}
	c.scanTypes()
	c.findTypes()
	c.resolveTypes()
	c.pickPoint()
}

// scanTypes decides which types of a package are collected.
func (c *Ctx) scanTypes() {
	in, w, gp := c.collectWorld(false)
	fn := c.method("types", "Scanner", "Scan")
	T := in.T
	f := func(n string, t *gty) *gfield { return fld(n, t, nil) }
	tT := w.add(named("T", strukt(f("A", basic(types.Bool)))))
	uT := w.add(named("U", ptr(basic(types.Int64))))
	vT := w.add(named("V", slice(basic(types.Int8))))
	xT := w.add(named("W", gmap(basic(types.Uint8))))
	st := in.NewState()
	w.shadow = st.NewMap("SHADOW", types.NewMap(types.Typ[types.String], anyType))
	w.scanned = "example.com/p"
	w.scope = map[string]*gty{"T": tT, "U": uT, "V": vT, "W": xT}
	for _, g := range w.scope {
		g.pkg = w.scanned
	}
	var kv []*T0
	add := func(scheme, pkg string, segs ...string) {
		p := gp.mk(scheme, pkg, segs...)
		t, _ := gp.text(st, p)
		kv = append(kv, T.Str(t), p)
	}
	add("go", "example.com/q", "V")
	add("go", w.scanned, "T")
	add("http", w.scanned, "V")
	add("golang", w.scanned, "V")
	add("g", w.scanned, "V")
	for _, p := range []string{"", "p", "com/p", "e/p", "Example.com/P", "example.com/p/p", "example.com/p/v2", "vendor/example.com/p", "example.com", "example.com/pp"} {
		add("go", p, "V")
	}
	add("go", w.scanned, "Missing")
	add("", w.scanned, "W")
	add("go", w.scanned)
	add("go", w.scanned, "U", "*")
	sc := c.typ("types", "Scanner")
	recv := st.NewObj("SCANNER", sc)
	i := fieldIndex(sc, "Pointers")
	if i < 0 {
		c.fatal("anchor", "field Pointers of types.Scanner is gone")
	}
	pt := sc.Underlying().(*types.Struct).Field(i).Type()
	st.Store(in.FieldAddr(recv, i, types.NewPointer(pt)), st.NewMap("POINTERS", pt, kv...))
	pkg := T.Sym("PKG", fn.Params[1].Type())
	st.Assume(T.Eq(pkg, T.Nil()), false)
	n := 0
	for _, p := range c.run(in, fn, []*T0{recv, pkg}, nil, st) {
		if !c.expect(p.Kind == "ret" && p.St.Nil(p.Results[0]) == 1, "scan", "Scan", c.ipos(p.At), "scanning a package fails %s", c.where(p)) {
			continue
		}
		n++
		c.collected("scan", c.ipos(p.At), w, gp, p.St, w.shadow, "a package", tT, uT)
		ks, _, _ := p.St.MapEntries(w.shadow)
		for _, k := range ks {
			id, _ := k.ConstString()
			for _, g := range []*gty{vT, xT} {
				c.expect(id != w.rep(g.elem).id, "scan", "others", c.ipos(p.At), "a type is collected which no pointer names: %s", g.name)
			}
		}
	}
	c.expect(n > 0, "scan", "Scan", c.pos(fn.Pos()), "a package is never scanned")
}

// findTypes decides the search for the type of a place.
func (c *Ctx) findTypes() {
	for _, back := range []bool{false, true} {
		in, w, _ := c.collectWorld(back)
		c.opaque(in, "internal/oapi/scan/types")
		fn := c.method("types", "pointmap", "findType")
		T := in.T
		pT, ptT := c.typ("pointer", "Pointer"), c.typ("types", "point")
		a, b, d := w.add(strukt()), w.add(slice(basic(types.Int))), w.add(basic(types.String))
		st := in.NewState()
		w.shadow = st.NewMap("SHADOW", types.NewMap(types.Typ[types.String], anyType))
		text := func(p *T0) *T0 {
			return T.Call("("+modPath+"/internal/pointer.Pointer).String", types.Typ[types.String], p)
		}
		sym := func(n string) *T0 { return T.Sym(n, pT) }
		own := map[*gty][]*T0{a: {sym("A1"), sym("A2")}, b: {sym("B1")}, d: {}}
		var all []*T0
		for _, g := range []*gty{a, b, d} {
			var ps []*T0
			for _, p := range own[g] {
				for _, o := range all {
					st.Assume(T.Eq(text(p), text(o)), false)
				}
				all = append(all, p)
				ps = append(ps, T.Mk("agg", nil, ptT, p))
			}
			st.MapSet(w.shadow, T.Str(g.id), T.Mk("iface", nil, w.pointsT, T.Mk("list", nil, w.pointsT, ps...)))
		}
		q := sym("QUERY")
		args := make([]*T0, len(fn.Params))
		for i, p := range fn.Params {
			if types.Identical(p.Type(), pT) {
				args[i] = q
			} else {
				args[i] = T.Sym("POINTMAP", p.Type())
			}
		}
		seen := map[string]bool{}
		for _, p := range c.run(in, fn, args, nil, st) {
			at := c.ipos(p.At)
			if !c.expect(p.Kind == "ret", "find", "panic", at, "looking for a place panics %s", c.where(p)) {
				continue
			}
			cases(in, p.St, func(k *cs) {
				var want *gty
				for _, g := range []*gty{a, b, d} {
					for _, o := range own[g] {
						if k.St.Truth(T.Eq(text(q), text(o))) == 1 {
							want = g
						}
					}
				}
				for _, g := range []*gty{a, b, d} {
					for _, o := range own[g] {
						if want == nil && k.is(T.Eq(text(q), text(o))) {
							want = g
						}
					}
				}
				found := k.St.Truth(p.Results[1])
				if want == nil {
					seen["none"] = true
					c.expect(found == 0, "find", "absent", at, "a place which is not known is found %s", c.where(p))
					return
				}
				seen[want.id] = true
				got := w.typeOf(k.St, p.Results[0])
				c.expect(found == 1 && got == want, "find", "found", at, "a place is not resolved to its type but to %s (%d) %s", str(p.Results[0]), found, c.where(p))
			})
		}
		c.expect(len(seen) == 3, "find", "findType", c.pos(fn.Pos()), "only %d ways to look for a place", len(seen))
	}
}

// pickPoint decides which of several places a reference uses.
func (c *Ctx) pickPoint() {
	for _, x := range []struct {
		want string
		pts  [][]string
	}{
		{"go://p.com#/B", [][]string{{"p.com", "A", "x"}, {"p.com", "B"}}},
		{"go://p.com#/B", [][]string{{"p.com", "B"}, {"p.com", "A", "x"}}},
		{"go://p.com#/A", [][]string{{"p.com", "B"}, {"p.com", "A"}, {"p.com", "A", "x"}}},
		{"go://p.com#/A", [][]string{{"p.com", "C"}, {"p.com", "B"}, {"p.com", "A"}}},
		{"go://long.example.com/p#/T", [][]string{{"a.com", "T", "x"}, {"long.example.com/p", "T"}, {"long.example.com/p", "U"}}},
		{"go://a.com#/Z", [][]string{{"b.com", "A"}, {"a.com", "Z"}}},
		{"go://p.com#/A/*", [][]string{{"p.com", "A", "x"}, {"p.com", "A", "[]"}, {"p.com", "A", "*"}}},
	} {
		in, w, gp := c.collectWorld(false)
		fn := c.fnLike("types", "type2schema", "*internal/oapi/spec.Schema,error")
		s := strukt(fld("Inner", basic(types.Bool), w.tagOf(nil)))
		g := w.add(slice(s))
		st := in.NewState()
		w.shadow = st.NewMap("SHADOW", types.NewMap(types.Typ[types.String], anyType))
		ptT := c.typ("types", "point")
		arr := st.NewObj("POINTS", types.NewArray(ptT, int64(len(x.pts))))
		for i, q := range x.pts {
			st.Store(in.ElemAddr(arr, in.T.Int(int64(i)), types.NewPointer(ptT)), in.T.Mk("agg", nil, ptT, gp.mk("go", q[0], q[1:]...)))
		}
		st.MapSet(w.shadow, in.T.Str(s.id), in.T.Mk("iface", nil, w.pointsT, in.T.Mk("slice", nil, w.pointsT, arr, in.T.Int(int64(len(x.pts))))))
		n := 0
		for _, p := range c.run(in, fn, c.convertArgs(in, fn, g, w.tagOf(nil)), nil, st) {
			at := c.ipos(p.At)
			ov := false
			for f, v := range p.St.FactTerms() {
				if b, ok := v.ConstBool(); f.Op == "has" && ok && b {
					ov = true // overridden
				}
			}
			if ov {
				continue
			}
			if !c.expect(p.Kind == "ret" && p.St.Nil(p.Results[1]) == 1, "pick", "reference", at, "a type with several places is not referred to %s", c.where(p)) {
				continue
			}
			n++
			items := c.schemaFields(in, p.St, p.Results[0])["Items"]
			if !c.expect(items != nil, "pick", "reference", at, "a slice has no items") {
				continue
			}
			ref := c.schemaFields(in, p.St, items)["Ref"]
			text := "nothing"
			if ref != nil {
				text, _ = gp.text(p.St, p.St.Norm(p.St.Load(ref, c.typ("pointer", "Pointer"))))
			}
			c.expect(text == x.want, "pick", "reference", at, "among %v, %q is referred to instead of %q", x.pts, text, x.want)
		}
		c.expect(n > 0, "pick", "reference", c.pos(fn.Pos()), "a type with several places is never referred to")
	}
}

// resolveTypes decides the answers to references, one after another.
func (c *Ctx) resolveTypes() {
	in := c.interp()
	T := in.T
	c.opaque(in)
	gp := goPointers{c, in}
	fn := c.method("types", "Scanner", "Resolve")
	find := c.method("types", "pointmap", "findType")
	conv := c.fnLike("types", "type2schema", "*internal/oapi/spec.Schema,error")
	typeT := find.Signature.Results().At(0).Type()
	schemaT := conv.Signature.Results().At(0).Type()
	var places *T0
	pointed := func(t types.Type) types.Type {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
		return t
	}
	content := func(st *psa.State, p *ssa.Parameter, v *T0) *T0 {
		if t := pointed(p.Type()); t != p.Type() {
			return st.Norm(st.Load(v, t))
		}
		return v
	}
	in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
		switch f {
		case find:
			x, ok := gp.text(st, args[len(args)-1])
			if !ok {
				return nil
			}
			places = st.Norm(args[0])
			known := T.Sym("known "+x, tBool)
			yes, no := st.Clone(), st
			var out []psa.Ret
			if yes.Assume(known, true) {
				out = append(out, psa.Ret{St: yes, Kind: "ret", Val: T.Mk("agg", nil, call.Typ, T.Mk("iface", nil, tString, T.Str("TYPE "+x)), T.Bool(true))})
			}
			if no.Assume(known, false) {
				out = append(out, psa.Ret{St: no, Kind: "ret", Val: T.Mk("agg", nil, call.Typ, T.Zero(typeT), T.Bool(false))})
			}
			return out
		case conv:
			t, m, seen, tags := "", false, false, true
			for i, p := range conv.Params {
				a := st.Norm(args[i])
				switch {
				case types.IsInterface(p.Type()):
					t, _ = strip(a).ConstString()
				case types.Identical(pointed(p.Type()), pointed(find.Params[0].Type())):
					m = places != nil && (a == places || content(st, find.Params[0], places) == content(st, p, a))
				default:
					l := in.Resolve(st, a)
					empty := l.Op == "nil" || isZeroTerm(l) || l.Op == "list" && len(l.Args) == 0
					if _, ok := p.Type().Underlying().(*types.Slice); ok {
						seen = !empty
					} else {
						tags = tags && empty
					}
				}
			}
			c.expect(m, "find", "places", c.ipos(call.Instr), "a schema is made with other places than those collected")
			c.expect(!seen, "find", "path", c.ipos(call.Instr), "a schema is made as if inside another type")
			c.expect(tags, "find", "tags", c.ipos(call.Instr), "a schema is made with the tags of a field")
			s := T.Sym("SCHEMA "+t, schemaT)
			st.Assume(T.Eq(s, T.Nil()), false)
			return forkErr(in, st, call, "no schema of "+t, s)
		}
		return gp.model(st, name, args, call)
	}
	mk := c.fn("types", "NewScanner")
	start := in.NewState()
	n := 0
	for _, p := range c.run(in, mk, nil, nil, start) {
		if p.Kind != "ret" {
			continue
		}
		recv := p.Results[0]
		var ask func(st *psa.State, left []*T0)
		ask = func(st *psa.State, left []*T0) {
			if len(left) == 0 {
				n++
				return
			}
			x, _ := gp.text(st, left[0])
			for _, q := range c.run(in, fn, []*T0{recv, left[0]}, nil, st) {
				at := c.ipos(q.At)
				if !c.expect(q.Kind == "ret", "find", "Resolve", at, "resolving %s can end in a %s %s", x, q.Kind, c.where(q)) {
					continue
				}
				known := q.St.Truth(T.Sym("known "+x, tBool)) == 1
				bad := q.St.Nil(T.Sym("no schema of TYPE "+x, errType)) == 0
				if known && !bad {
					c.expect(q.St.Nil(q.Results[1]) == 1 && q.St.Norm(q.Results[0]) == T.Sym("SCHEMA TYPE "+x, schemaT), "find", "Resolve", at, "%s is resolved to %s %s", x, str(q.St.Norm(q.Results[0])), c.where(q))
				} else {
					c.expect(q.St.Nil(q.Results[1]) == 0, "find", "Resolve", at, "%s is resolved although it is not known or has no schema %s", x, c.where(q))
				}
				ask(q.St, left[1:])
			}
		}
		a, b, d := gp.mk("go", "example.com/p", "T"), gp.mk("go", "example.com/q", "T"), gp.mk("go", "example.com/p", "T", "A")
		ask(p.St, []*T0{a, b, d, a})
	}
	c.expect(n > 0, "find", "Resolve", c.pos(fn.Pos()), "nothing is resolved")
}
