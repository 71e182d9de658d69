package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["X01"] = checkX01 }

// object makes a struct in memory with the given fields set.
func (c *Ctx) object(in *psa.Interp, st *psa.State, name string, typ types.Type, fields map[string]*T) *T {
	o := st.NewObj(name, typ)
	s := typ.Underlying().(*types.Struct)
	for n, v := range fields {
		i := fieldIndex(typ, n)
		if i < 0 {
			c.fatal("anchor", fmt.Sprintf("field %s of %s is gone", n, typ))
		}
		st.Store(in.FieldAddr(o, i, types.NewPointer(s.Field(i).Type())), v)
	}
	return o
}

// unknowns gives the fields of an object which are not among known values of
// their own, of which nothing is known but that those named by sure are there.
func (c *Ctx) unknowns(in *psa.Interp, st *psa.State, name string, o *T, typ types.Type, known map[string]*T, sure ...string) {
	s := typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if _, ok := known[f.Name()]; ok || !f.Exported() {
			continue
		}
		v := in.T.Sym(f.Name()+" of "+name, f.Type())
		for _, n := range sure {
			if n == f.Name() {
				st.Assume(in.T.Eq(v, in.T.Nil()), false)
			}
		}
		st.Store(in.FieldAddr(o, i, types.NewPointer(f.Type())), v)
	}
}

// listTerm makes a slice.
func listTerm(in *psa.Interp, et types.Type, xs ...*T) *T {
	return in.T.Mk("list", nil, types.NewSlice(et), xs...)
}

// comments makes a package whose files have groups of comments.
func (c *Ctx) commented(in *psa.Interp, st *psa.State, path string, files [][][]*T) *T {
	pt := importedType(c, "golang.org/x/tools/go/packages", "Package")
	ft, gt, ct := importedType(c, "go/ast", "File"), importedType(c, "go/ast", "CommentGroup"), importedType(c, "go/ast", "Comment")
	ptr := func(t types.Type) types.Type { return types.NewPointer(t) }
	mk := func(name string, typ types.Type, known map[string]*T) *T {
		o := c.object(in, st, name, typ, known)
		c.unknowns(in, st, name, o, typ, known, "TypesInfo", "Fset", "Name")
		return o
	}
	var fs []*T
	for i, groups := range files {
		var gs []*T
		for j, comments := range groups {
			var cs []*T
			for k, text := range comments {
				cs = append(cs, mk(fmt.Sprintf("COMMENT-%s-%d-%d-%d", path, i, j, k), ct, map[string]*T{"Text": text}))
			}
			gs = append(gs, mk(fmt.Sprintf("GROUP-%s-%d-%d", path, i, j), gt, map[string]*T{"List": listTerm(in, ptr(ct), cs...)}))
		}
		fs = append(fs, mk(fmt.Sprintf("FILE-%s-%d", path, i), ft, map[string]*T{"Comments": listTerm(in, ptr(gt), gs...)}))
	}
	tp := in.T.Sym("TYPES-"+path, types.NewPointer(importedType(c, "go/types", "Package")))
	st.Assume(in.T.Eq(tp, in.T.Nil()), false)
	return mk("PACKAGE-"+path, pt, map[string]*T{"PkgPath": in.T.Str(path), "ID": in.T.Str(path), "Syntax": listTerm(in, ptr(ft), fs...), "Types": tp})
}

type x01 struct {
	c  *Ctx
	in *psa.Interp
	w  *words
	st *psa.State
	// texts of the pointers which were made: different ones for different
	// pointers.
	texts map[*T]string
}

func (c *Ctx) x01() *x01 {
	in := c.interp()
	c.opaque(in, "internal/oapi/scan/cmds", "(internal/pointer.Fragment).Last", "(internal/pointer.Fragment).Tail", "(internal/pointer.Fragment).Head", "(internal/pointer.Fragment).Len", "(internal/pointer.Fragment).IsEmpty",
		"(internal/oapi/resolver.Exports).Get", "(internal/pointer.Pointers).Merge", "internal/pointer.NewPointers")
	x := &x01{c, in, &words{in: in, is: map[*T]bool{}}, in.NewState(), map[*T]string{}}
	in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
		if name == "(*go/types.Package).Path" {
			if t := strip(args[0]); t.Op == "sym" {
				s := t.String()
				const pre = "TYPES-"
				if len(s) > len(pre) && s[:len(pre)] == pre {
					return []psa.Ret{{St: st, Kind: "ret", Val: in.T.Str(s[len(pre):])}}
				}
			}
		}
		if rs := sorting(in, st, name, args, call); rs != nil {
			return rs
		}
		if rs := x.pointers(st, name, args, call); rs != nil {
			return rs
		}
		return x.w.model(st, name, args, call)
	}
	return x
}

// scanned runs the scanner over packages in turn.
func (x *x01) scanned(pkgs ...*T) (recv *T, out []*psa.Path) {
	c, in := x.c, x.in
	mk, scan := c.fn("cmds", "NewScanner"), c.method("cmds", "Scanner", "Scan")
	out = c.run(in, mk, nil, nil, x.st)
	if len(out) != 1 || out[0].Kind != "ret" {
		c.fatal("undecided", "making a scanner has no single outcome")
	}
	recv = out[0].Results[0]
	for _, pkg := range pkgs {
		var next []*psa.Path
		for _, p := range out {
			if p.Fn == scan && !succeeded(p) {
				next = append(next, p)
				continue
			}
			next = append(next, c.run(in, scan, []*T{recv, pkg}, nil, p.St)...)
		}
		out = next
	}
	return recv, out
}

// pointers models the making of pointers: each text either is refused, or is a
// pointer with a short or an empty fragment.
func (x *x01) pointers(st *psa.State, name string, args []*T, call *psa.Call) []psa.Ret {
	T := x.in.T
	var key string
	switch shortName(name) {
	case "internal/pointer.Parse":
		key = "P " + str(st.Norm(args[0]))
	case "internal/pointer.NewGoPointer":
		key = "G " + str(st.Norm(args[0])) + " " + str(st.Norm(args[1]))
	case "(internal/pointer.Pointer).String":
		if s := x.texts[st.Norm(args[0])]; s != "" {
			return []psa.Ret{{St: st, Kind: "ret", Val: T.Str(s)}}
		}
		return nil
	default:
		return nil
	}
	bad := T.Sym("refused "+key, tBool)
	var out []psa.Ret
	no := st.Clone()
	if no.Assume(bad, true) {
		err := T.Sym("ERR "+key, call.Typ.(*types.Tuple).At(1).Type())
		no.Assume(T.Eq(err, T.Nil()), false)
		out = append(out, psa.Ret{St: no, Kind: "ret", Val: T.Mk("agg", nil, call.Typ, x.mk(key, 0), err)})
	}
	if !st.Assume(bad, false) {
		return out
	}
	bare := T.Sym("bare "+key, tBool)
	for i, b := range []bool{true, false} {
		s := st.Clone()
		if s.Assume(bare, b) {
			out = append(out, psa.Ret{St: s, Kind: "ret", Val: T.Mk("agg", nil, call.Typ, x.mk(key, i*2), T.Nil())})
		}
	}
	return out
}

// mk makes the pointer of a text.
func (x *x01) mk(key string, n int) *T {
	T := x.in.T
	pt := x.c.typ("pointer", "Pointer")
	ut := pt.Underlying().(*types.Struct).Field(0).Type()
	var segs []*T0
	for i := 0; i < n; i++ {
		segs = append(segs, T.Sym(fmt.Sprintf("segment %d of %s", i, key), tString))
	}
	p := T.Mk("agg", nil, pt, T.Sym("URL "+key, ut), T.Mk("list", nil, x.c.typ("pointer", "Fragment"), segs...))
	x.texts[p] = fmt.Sprintf("text of %s/%d", key, n)
	return p
}

// pointerFor is the pointer a text of a command stands for, and the name it
// gives; ok is false if it is refused.
func (x *x01) pointerFor(k *cs, text *T, pkg string) (ptr, name *T, ok bool) {
	T := x.in.T
	in := func(s string) bool {
		if t, ok := text.ConstString(); ok {
			return strings.Contains(t, s)
		}
		return k.is(T.Call("strings.Contains", tBool, text, T.Str(s)))
	}
	key := "G " + str(T.Str(pkg)) + " " + str(text)
	if in("://") || in("#") {
		key = "P " + str(text)
	}
	if k.is(T.Sym("refused "+key, tBool)) {
		return nil, nil, false
	}
	n := 2
	name = T.Sym("segment 1 of "+key, tString)
	if k.is(T.Sym("bare "+key, tBool)) {
		n, name = 0, text
	}
	return x.mk(key, n), name, true
}

// x01pkg is a package of a scenario: the texts of the comments of its groups in
// its files, and the commands they make: argument lists.
type x01pkg struct {
	path  string
	files [][][]*T
	cmds  [][]*T
}

// commands checks what a scanner knows after it has seen the packages. Expected
// is failure if bad is set.
func (x *x01) commands(what string, bad bool, pkgs ...x01pkg) {
	c, in := x.c, x.in
	var ps []*T
	for _, p := range pkgs {
		ps = append(ps, c.commented(in, x.st, p.path, p.files))
	}
	// Components are exported in the order of their packages.
	pkgs = append([]x01pkg(nil), pkgs...)
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].path < pkgs[j].path })
	scan := c.method("cmds", "Scanner", "Scan")
	recv, out := x.scanned(ps...)
	at := c.pos(scan.Pos())
	expPaths := 0
	exported, pointers := c.method("cmds", "Scanner", "ExportedComponents"), c.method("cmds", "Map", "Pointers")
	et := c.typ("resolver", "Pointer")
	seenOK, seenErr := false, false
	for _, p := range out {
		if p.Kind != "ret" {
			c.violate("commands", what, c.ipos(p.At), "scanning "+what+" can end in a "+p.Kind+" "+c.where(p))
			continue
		}
		// What should the scan say?
		cases(in, p.St, func(k *cs) {
			refused := bad
			for _, pk := range pkgs {
				for _, cmd := range pk.cmds {
					if len(cmd) == 0 {
						continue
					}
					if _, _, ok := x.pointerFor(k, cmd[len(cmd)-1], pk.path); !ok {
						refused = true
					}
				}
			}
			q := *p
			q.St = k.St.Clone()
			if refused {
				seenErr = true
				c.expect(fails(&q), "commands", what, at, "a comment which is no valid command is accepted: %s %s", what, c.where(p))
			} else {
				seenOK = true
				c.expect(!mayFail(&q), "commands", what, at, "valid commands are refused: %s %s", what, c.where(p))
			}
		})
		if fails(p) || !succeeded(p) {
			continue
		}
		// The exported components.
		for _, e := range c.run(in, exported, []*T{recv}, nil, p.St) {
			if e.Kind != "ret" {
				c.violate("exports", what, c.ipos(e.At), "listing the exported components of "+what+" can end in a "+e.Kind)
				continue
			}
			expPaths++
			cases(in, e.St, func(k *cs) {
				type exp struct{ name, ptr *T }
				var want []exp
				dup := false
				for _, pk := range pkgs {
					for _, cmd := range pk.cmds {
						if len(cmd) == 0 {
							continue
						}
						ptr, name, ok := x.pointerFor(k, cmd[len(cmd)-1], pk.path)
						if !ok {
							return
						}
						if len(cmd) > 1 {
							name = cmd[0]
						}
						for _, w := range want {
							if w.name == name || k.is(in.T.Eq(w.name, name)) || x.samePointer(k, w.ptr, ptr) {
								dup = true
							}
						}
						want = append(want, exp{name, ptr})
					}
				}
				q := *e
				q.St = k.St.Clone()
				if dup {
					c.expect(fails(&q), "exports", what, c.pos(exported.Pos()), "two exports of one name or of one reference are accepted: %s %s", what, c.where(e))
					return
				}
				if !c.expect(!mayFail(&q), "exports", what, c.pos(exported.Pos()), "different exports are refused: %s %s", what, c.where(e)) {
					return
				}
				xs, ok := x.elems(k.St, e.Results[0])
				if !c.expect(ok && len(xs) == len(want), "exports", what, c.pos(exported.Pos()), "%d components are exported, not %d: %s %s", len(xs), len(want), what, c.where(e)) {
					return
				}
				for i, w := range want {
					g := xs[i]
					ent := c.field(in, g, et, "Entity")
					entT := c.typ("resolver", "Entity")
					c.expect(k.same(c.field(in, ent, entT, "Name"), w.name), "exports", what, c.pos(exported.Pos()), "export %d is named %s, not %s: %s %s", i, str(k.St.Norm(c.field(in, ent, entT, "Name"))), str(w.name), what, c.where(e))
					kind, isC := k.St.Norm(c.field(in, ent, entT, "Entity")).ConstInt()
					wantKind, _ := c.constInt(in, "spec", "SchemaKind").ConstInt()
					c.expect(isC && kind == wantKind, "exports", what, c.pos(exported.Pos()), "export %d is no schema: %s", i, what)
					c.expect(x.samePointer(k, c.field(in, g, et, "Pointer"), w.ptr), "exports", what, c.pos(exported.Pos()), "export %d refers to %s, not %s: %s", i, str(k.St.Norm(c.field(in, g, et, "Pointer"))), str(w.ptr), what)
				}
			})
		}
		// The references of the commands.
		rt := c.typ("cmds", "Scanner")
		for _, e := range c.run(in, pointers, []*T{c.load(in, p.St, recv, rt, "Commands")}, nil, p.St) {
			if e.Kind != "ret" {
				c.violate("references", what, c.ipos(e.At), "listing the references of "+what+" can end in a "+e.Kind)
				continue
			}
			cases(in, e.St, func(k *cs) {
				ks, vs, base := k.St.MapEntries(k.St.Norm(e.Results[0]))
				if !c.expect(base == nil, "references", what, c.pos(pointers.Pos()), "the references of %s are not known", what) {
					return
				}
				n := map[int]bool{}
				for _, pk := range pkgs {
					for _, cmd := range pk.cmds {
						if len(cmd) == 0 {
							continue
						}
						ptr, _, ok := x.pointerFor(k, cmd[len(cmd)-1], pk.path)
						if !ok {
							return
						}
						text := x.text(ptr)
						found := false
						for i := range ks {
							if ks[i] == text || k.is(in.T.Eq(ks[i], text)) {
								n[i], found = true, true
								c.expect(x.samePointer(k, vs[i], ptr), "references", what, c.pos(pointers.Pos()), "the reference %s is listed under the text of %s: %s", str(vs[i]), str(ptr), what)
							}
						}
						c.expect(found, "references", what, c.pos(pointers.Pos()), "the reference %s of a command is not listed: %s %s", str(ptr), what, c.where(e))
					}
				}
				c.expect(len(n) == len(ks), "references", what, c.pos(pointers.Pos()), "references are listed which no command has: %s", what)
			})
		}
	}
	c.count("scenarios", 1)
	c.count("paths", len(out)+expPaths)
	c.expect(seenOK || bad, "commands", what, at, "no path accepts %s", what)
	c.expect(seenErr || !bad, "commands", what, at, "no path refuses %s", what)
}

// text is the text of a pointer.
func (x *x01) text(p *T) *T { return x.in.T.Str(x.texts[p]) }

// samePointer reports pointers of the same text.
func (x *x01) samePointer(k *cs, a, b *T) bool { return k.St.Norm(a) == k.St.Norm(b) }

// elems lists the elements of a slice of known length.
func (x *x01) elems(st *psa.State, l *T) ([]*T, bool) {
	l = x.in.Resolve(st, l)
	if isZeroTerm(l) || l.Op == "nil" {
		return nil, true
	}
	if l.Op != "list" {
		return nil, false
	}
	return l.Args, true
}

func checkX01(c *Ctx) {
	c.explain = "The scanner of commands is interpreted on packages whose files have comments of every form, made of known keywords and arbitrary names and references; the exported components and the references it knows afterwards are compared with what the comments say."
	c.rule("commands", "scanning fails exactly if a comment which begins with //openapi is no valid command", 8)
	c.rule("exports", "each //openapi:schema command exports its reference under its name, in order of packages and places, and no two have one name or reference", 8)
	c.rule("references", "the references of the commands are listed, each under its text", 8)
	text := func(x *x01, ps ...interface{}) *T {
		r := x.in.T.Str("")
		for _, p := range ps {
			switch v := p.(type) {
			case string:
				r = x.in.T.Concat(r, x.in.T.Str(v))
			case *T:
				r = x.in.T.Concat(r, v)
			}
		}
		return r
	}
	one := func(t ...*T) [][][]*T { return [][][]*T{{t}} }
	const pa, pb = "example.com/p", "example.com/q"
	type cmd = [][]*T
	{
		x := c.x01()
		a := x.w.word(x.st, "A")
		x.commands("an export of one word", false, x01pkg{pa, one(text(x, "//openapi:schema ", a)), cmd{{a}}})
	}
	{
		x := c.x01()
		a, b := x.w.word(x.st, "A"), x.w.word(x.st, "B")
		x.commands("an export of a reference under a name", false, x01pkg{pa, one(text(x, "//openapi:schema ", a, " ", b)), cmd{{a, b}}})
	}
	{
		x := c.x01()
		a := x.w.word(x.st, "A")
		x.commands("an export with blanks behind it", false, x01pkg{pa, one(text(x, "//openapi:schema ", a, "  ")), cmd{{a}}})
	}
	for _, t := range [][]interface{}{
		{"//openapi:schema"}, {"//openapi:schema "}, {"//openapi:schema ", 0, " ", 1, " ", 2}, {"//openapi:schemas ", 0}, {"//openapi:Schema ", 0}, {"//openapi:type ", 0, " ", 1}, {"//openapi:", " ", 0},
	} {
		x := c.x01()
		ws := []*T{x.w.word(x.st, "A"), x.w.word(x.st, "B"), x.w.word(x.st, "C")}
		what := ""
		for i, p := range t {
			if n, ok := p.(int); ok {
				t[i] = ws[n]
				what += ws[n].String()
			} else {
				what += p.(string)
			}
		}
		x.commands("the comment "+what, true, x01pkg{pa, one(text(x, "// text"), text(x, t...)), nil})
	}
	{
		x := c.x01()
		a, d := x.w.word(x.st, "A"), x.w.word(x.st, "D")
		t := func(ps ...interface{}) *T { return text(x, ps...) }
		x.commands("comments which are no commands", false, x01pkg{pa, [][][]*T{
			{{t("// openapi:schema ", a), t("//"), t("//x")}, {}, {t("//go:generate openapi:schema ", a), t("//openap"), t("/* openapi:schema X */")}},
			{},
			{{t("//openapi"), t("//\topenapi:schema ", d), t("//  openapi:schema ", d), t("//Openapi:schema ", d), t("///openapi:schema ", d), t("// "), t("//openapi ", d), t("//openapi:schema ", a)}},
		}, cmd{{a}}})
	}
	{
		x := c.x01()
		k := func(s string) *T { return x.in.T.Str(s) }
		t := func(ps ...interface{}) *T { return text(x, ps...) }
		x.commands("exports in many places", false,
			x01pkg{pb, [][][]*T{{{t("//openapi:schema Z")}, {t("// text"), t("//openapi:schema Y C")}}, {{t("//openapi:schema X go://example.com/o#/B")}}}, cmd{{k("Z")}, {k("Y"), k("C")}, {k("X"), k("go://example.com/o#/B")}}},
			x01pkg{"example.com/r", [][][]*T{{{t("// text")}}}, nil})
	}
	{
		x := c.x01()
		a := x.w.word(x.st, "A")
		x.commands("one word in two packages", false,
			x01pkg{pb, one(text(x, "//openapi:schema ", a)), cmd{{a}}},
			x01pkg{pa, one(text(x, "//openapi:schema ", a)), cmd{{a}}})
	}
	{
		x := c.x01()
		a, b := x.w.word(x.st, "A"), x.w.word(x.st, "B")
		ref := x.in.T.Str("R")
		x.commands("two names in two packages", false,
			x01pkg{pb, one(text(x, "//openapi:schema ", a, " R")), cmd{{a, ref}}},
			x01pkg{pa, one(text(x, "//openapi:schema ", b, " R")), cmd{{b, ref}}})
	}
	{
		x := c.x01()
		a, b := x.w.word(x.st, "A"), x.w.word(x.st, "B")
		x.st.Assume(x.in.T.Eq(a, b), false)
		x.commands("two references in one package", false,
			x01pkg{pa, [][][]*T{{{text(x, "//openapi:schema M ", a)}, {text(x, "//openapi:schema N ", b)}}}, cmd{{x.in.T.Str("M"), a}, {x.in.T.Str("N"), b}}})
	}
	{
		x := c.x01()
		a := x.w.word(x.st, "A")
		x.commands("one reference twice", false,
			x01pkg{pa, [][][]*T{{{text(x, "//openapi:schema M ", a)}, {text(x, "//openapi:schema N ", a)}}}, cmd{{x.in.T.Str("M"), a}, {x.in.T.Str("N"), a}}})
	}
}
