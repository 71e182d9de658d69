package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"text/template/parse"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["F01"] = checkF01 }

var bytesT = types.NewSlice(types.Typ[types.Byte])

// encoding answers for the encoders, the templates and quoting.
type encoding struct {
	c  *Ctx
	in *psa.Interp
	g  *T // the document in its library wrapping
	d  *T // its content
}

// unknown are the keys which stand for any other one.
var unknown = map[string]bool{"KEY": true, "KEY-2": true}

// orderedKeys is the order in which the sections of a document come.
var orderedKeys = []string{"openapi", "info", "components", "paths"}

func (x *encoding) model(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
	in := x.in
	T := in.T
	bytes := func(t *T0) *T0 { return T.Mk("conv", nil, bytesT, t) }
	switch shortName(name) {
	case gabsC + "Data":
		if st.Norm(args[0]) == x.g {
			return []psa.Ret{{St: st, Kind: "ret", Val: x.d}}
		}
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		var out []psa.Ret
		for _, r := range x.json(st, args[0], call) {
			if r.Kind != "ret" {
				out = append(out, r)
				continue
			}
			txt, err := T.Extract(r.Val, 0, nil), T.Extract(r.Val, 1, nil)
			if r.St.Nil(err) != 1 {
				out = append(out, psa.Ret{St: r.St, Kind: "ret", Val: T.Mk("agg", nil, call.Typ, T.Zero(bytesT), err)})
				continue
			}
			t := r.St.Norm(txt)
			if len(args) == 3 {
				t = T.Mk("indented", nil, tString, t, r.St.Norm(args[1]), r.St.Norm(args[2]))
			}
			out = append(out, psa.Ret{St: r.St, Kind: "ret", Val: T.Mk("agg", nil, call.Typ, bytes(t), T.Nil())})
		}
		return out
	case "encoding/json.Indent":
		t := T.Mk("indented", nil, tString, in.TextOf(st, args[1]), st.Norm(args[2]), st.Norm(args[3]))
		if in.BufAppend(st, args[0], t) {
			return []psa.Ret{{St: st, Kind: "ret", Val: T.Nil()}}
		}
	case "gopkg.in/yaml.v2.Marshal":
		var out []psa.Ret
		for _, r := range x.yaml(st, args[0], call) {
			if r.Kind != "ret" {
				out = append(out, r)
				continue
			}
			v, err := T.Extract(r.Val, 0, nil), T.Extract(r.Val, 1, nil)
			if r.St.Nil(err) != 1 {
				out = append(out, psa.Ret{St: r.St, Kind: "ret", Val: T.Mk("agg", nil, call.Typ, T.Zero(bytesT), err)})
				continue
			}
			out = append(out, forkErr(in, r.St, call, "encoding as yaml", bytes(T.Mk("yaml", nil, tString, v)))...)
		}
		return out
	case "strconv.CanBackquote":
		return []psa.Ret{{St: st, Kind: "ret", Val: T.Mk("canbackquote", nil, tBool, st.Norm(args[0]))}}
	case "strconv.Quote":
		return []psa.Ret{{St: st, Kind: "ret", Val: T.Mk("quoted", nil, tString, st.Norm(args[0]))}}
	case "(*text/template.Template).Execute":
		return x.template(st, args, call)
	}
	return sorting(in, st, name, args, call)
}

// json is the encoding of a value: its text and an error.
func (x *encoding) json(st *psa.State, v *T, call *psa.Call) []psa.Ret {
	in := x.in
	T := in.T
	ret := func(st *psa.State, t *T0) []psa.Ret {
		return []psa.Ret{{St: st, Kind: "ret", Val: T.Mk("agg", nil, nil, t, T.Nil())}}
	}
	v = st.Norm(v)
	if p, ok := v.Typ.(*types.Pointer); ok && v.Op == "iface" { // pointers stand for what they point to
		v = st.Norm(st.Load(v.Args[0], p.Elem()))
	}
	switch {
	case v.Op == "iface" && v.Typ == tString:
		if s, ok := st.Norm(v.Args[0]).ConstString(); ok {
			return ret(st, T.Str(quoted(s)))
		}
		if k := st.Norm(v.Args[0]); k.Op == "sym" {
			return ret(st, T.Sym(quoted(str(k)), tString))
		}
	case v.Op == "iface" && types.Identical(v.Typ, mapAny):
		ks, vs, base := st.MapEntries(v.Args[0])
		if base != nil {
			return nil
		}
		r := []*T0{T.Str("{")}
		idx := make([]int, len(ks))
		for i := range idx {
			idx[i] = i
		}
		sort.Slice(idx, func(i, j int) bool { return str(ks[idx[i]]) < str(ks[idx[j]]) })
		for n, i := range idx {
			s, ok := ks[i].ConstString()
			if !ok {
				return nil
			}
			if n > 0 {
				r = append(r, T.Str(","))
			}
			r = append(r, T.Str(quoted(s)+":"), x.sub(vs[i]))
		}
		all := T.Str("")
		for _, t := range append(r, T.Str("}")) {
			all = T.Concat(all, t)
		}
		return ret(st, all)
	case v.Op == "sym":
		var out []psa.Ret
		e := T.Sym("encoding "+str(v), errType)
		no := st.Clone()
		if st.Assume(T.Eq(e, T.Nil()), true) {
			out = append(out, ret(st, x.sub(v))...)
		}
		if no.Assume(T.Eq(e, T.Nil()), false) {
			out = append(out, psa.Ret{St: no, Kind: "ret", Val: T.Mk("agg", nil, nil, T.Str(""), e)})
		}
		return out
	case v.Op == "iface" && x.hasMethod(v.Typ, "MarshalJSON"):
		var out []psa.Ret
		for _, r := range call.Method(st, v, nil, "MarshalJSON") {
			if r.Kind == "ret" {
				t := x.in.TextOf(r.St, T.Extract(r.Val, 0, nil))
				r.Val = T.Mk("agg", nil, nil, t, T.Extract(r.Val, 1, nil))
			}
			out = append(out, r)
		}
		return out
	}
	return nil
}

// sub is the text of a value of the document.
func (x *encoding) sub(v *T) *T { return x.in.T.Sym("‹"+str(v)+"›", tString) }

func (x *encoding) hasMethod(t types.Type, name string) bool {
	return types.NewMethodSet(t).Lookup(nil, name) != nil
}

// yaml is what YAML is made of: a list of entries, and an error.
func (x *encoding) yaml(st *psa.State, v *T, call *psa.Call) []psa.Ret {
	T := x.in.T
	v = st.Norm(v)
	if v.Op != "iface" {
		return nil
	}
	pair := func(ks, vs []*T0) []psa.Ret {
		var l []*T0
		for i := range ks {
			l = append(l, T.Mk("agg", nil, nil, ks[i], vs[i]))
		}
		return []psa.Ret{{St: st, Kind: "ret", Val: T.Mk("agg", nil, nil, T.Mk("list", nil, nil, l...), T.Nil())}}
	}
	switch {
	case types.Identical(v.Typ, mapAny):
		ks, vs, base := st.MapEntries(v.Args[0])
		if base != nil {
			return nil
		}
		return pair(ks, vs)
	case x.hasMethod(v.Typ, "MarshalYAML"):
		var out []psa.Ret
		for _, r := range call.Method(st, v, nil, "MarshalYAML") {
			if r.Kind != "ret" {
				out = append(out, r)
				continue
			}
			err := T.Extract(r.Val, 1, nil)
			if r.St.Nil(err) != 1 {
				out = append(out, r)
				continue
			}
			in := *x
			for _, q := range in.yaml(r.St, r.St.Norm(T.Extract(r.Val, 0, nil)), call) {
				out = append(out, q)
			}
		}
		return out
	case v.Typ.String() == "gopkg.in/yaml.v2.MapSlice":
		l := x.in.Resolve(st, v.Args[0])
		var ks, vs []*T0
		if l.Op == "list" {
			it := v.Typ.Underlying().(*types.Slice).Elem()
			for _, a := range l.Args {
				k, w := st.Norm(x.c.field(x.in, st.Norm(a), it, "Key")), st.Norm(x.c.field(x.in, st.Norm(a), it, "Value"))
				ks, vs = append(ks, st.Norm(strip(k))), append(vs, w)
			}
		} else if l.Op != "nil" && !isZeroTerm(l) {
			return nil
		}
		return pair(ks, vs)
	}
	return nil
}

// template executes a text template whose text is known.
func (x *encoding) template(st *psa.State, args []*T, call *psa.Call) []psa.Ret {
	in := x.in
	T := in.T
	text, funcs := "", map[string]*T0{}
	names := map[string]interface{}{}
	var walk func(t *T0)
	walk = func(t *T0) {
		t = st.Norm(t)
		for t.Op == "extract" {
			t = st.Norm(t.Args[0])
		}
		if t.Op != "call" {
			return
		}
		switch {
		case t.Callee() == "text/template.Must":
			walk(t.Args[0])
		case strings.HasSuffix(t.Callee(), ".Parse"):
			text, _ = st.Norm(t.Args[1]).ConstString()
			walk(t.Args[0])
		case strings.HasSuffix(t.Callee(), ".Funcs"):
			ks, vs, _ := st.MapEntries(t.Args[1])
			for i, k := range ks {
				if s, ok := k.ConstString(); ok {
					funcs[s] = strip(st.Norm(vs[i]))
					names[s] = ""
				}
			}
			walk(t.Args[0])
		}
	}
	walk(args[0])
	trees, err := parse.Parse("t", text, "", "", names, map[string]interface{}{"print": "", "printf": ""})
	data := st.Norm(args[2])
	if text == "" || err != nil || trees["t"] == nil || data.Op != "iface" {
		return nil
	}
	type out struct {
		st *psa.State
		t  *T0
	}
	ok := true
	var arg func(o out, n parse.Node) *T0
	arg = func(o out, n parse.Node) *T0 {
		switch n := n.(type) {
		case *parse.StringNode:
			return T.Str(n.Text)
		case *parse.DotNode:
			return data
		case *parse.FieldNode:
			v, typ := data.Args[0], data.Typ
			if p, isP := typ.(*types.Pointer); isP {
				v, typ = o.st.Load(v, p.Elem()), p.Elem()
			}
			for _, f := range n.Ident {
				if fieldIndex(typ, f) < 0 {
					return nil
				}
				s := typ.Underlying().(*types.Struct)
				v = o.st.Norm(x.c.field(in, o.st.Norm(v), typ, f))
				typ = s.Field(fieldIndex(typ, f)).Type()
			}
			if !isBasic(typ) {
				return nil
			}
			return v
		}
		return nil
	}
	outs := []out{{st, T.Str("")}}
	for _, n := range trees["t"].Root.Nodes {
		var next []out
		for _, o := range outs {
			switch n := n.(type) {
			case *parse.TextNode:
				next = append(next, out{o.st, T.Concat(o.t, T.Str(string(n.Text)))})
			case *parse.CommentNode:
				next = append(next, o)
			case *parse.ActionNode:
				if len(n.Pipe.Decl) > 0 {
					ok = false
					break
				}
				vals := []out{{o.st, nil}}
				for _, cmd := range n.Pipe.Cmds {
					var nv []out
					for _, v := range vals {
						if id, isF := cmd.Args[0].(*parse.IdentifierNode); isF {
							var as []*T0
							for _, a := range cmd.Args[1:] {
								as = append(as, arg(v, a))
							}
							if v.t != nil {
								as = append(as, v.t)
							}
							if id.Ident == "printf" && len(as) == 2 && as[0] == T.Str("%q") && as[1] != nil {
								nv = append(nv, out{v.st, T.Mk("quoted", nil, tString, v.st.Norm(as[1]))})
								continue
							}
							fn := funcs[id.Ident]
							for _, a := range as {
								ok = ok && a != nil
							}
							if fn == nil || !ok {
								ok = false
								break
							}
							for _, r := range call.Do(v.st, fn, as...) {
								if r.Kind != "ret" {
									ok = false
									break
								}
								nv = append(nv, out{r.St, r.St.Norm(r.Val)})
							}
						} else if a := arg(v, cmd.Args[0]); a != nil && len(cmd.Args) == 1 && v.t == nil {
							nv = append(nv, out{v.st, a})
						} else {
							ok = false
						}
					}
					vals = nv
				}
				for _, v := range vals {
					if ok {
						next = append(next, out{v.st, T.Concat(o.t, v.t)})
					}
				}
			default:
				ok = false
			}
		}
		outs = next
	}
	if !ok {
		return nil
	}
	var rets []psa.Ret
	for _, o := range outs {
		e := T.Sym("executing the template", errType)
		no := o.st.Clone()
		if o.st.Assume(T.Eq(e, T.Nil()), true) {
			if !in.BufAppend(o.st, args[1], o.t) {
				return nil
			}
			rets = append(rets, psa.Ret{St: o.st, Kind: "ret", Val: T.Nil()})
		}
		if no.Assume(T.Eq(e, T.Nil()), false) {
			rets = append(rets, psa.Ret{St: no, Kind: "ret", Val: e})
		}
	}
	return rets
}

// flat writes a text with its unknown parts as names.
func flat(st *psa.State, t *T) string {
	t = st.Norm(t)
	if s, ok := t.ConstString(); ok {
		return s
	}
	switch t.Op {
	case "concat":
		s := ""
		for _, a := range t.Args {
			s += flat(st, a)
		}
		return s
	case "fmt":
		if t.Aux != "q" {
			break
		}
		fallthrough
	case "quoted":
		return "\x01" + flat(st, t.Args[0]) + "\x02"
	case "sym":
		return str(t)
	}
	return "?" + str(t) + "?"
}

// entryText is an entry of a JSON object.
var entryText = regexp.MustCompile(`^(,?)("(?:[^"\\]|\\.)*"):(‹[^‹›]*›)`)

// quoted is the JSON of a text.
func quoted(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func checkF01(c *Ctx) {
	c.explain = "Formatting is interpreted, encoders and template included, for documents of arbitrary sections in each format and in others; the text which comes out is compared with the entries of the document."
	c.rule("format", "each format name stands for its encoding, and other names are refused", 8)
	c.rule("entries", "what is written is an object of exactly the entries of the document", 12)
	c.rule("order", "openapi, info, components and paths come in this order, and the order is always the same", 12)
	c.rule("go", "the Go file is one of package main which holds the JSON document as the constant OpenAPIJsonSpec", 3)
	c.rule("errors", "what cannot be encoded is reported", 6)
	c.rule("offered", "the command line offers only formats which exist", 1)
	in := c.interp()
	T := in.T
	fn := c.fn("root", "Format")
	ot := c.typ("root", "OAPI")
	ctT := c.typ("container", "Container")
	gT := ctT.Underlying().(*types.Struct).Field(fieldIndex(ctT, "c")).Type()
	c.opaque(in, "oapi", "internal/container")
	docs := [][]string{
		{"paths", "components", "info", "openapi"},
		{"openapi", "tags", "info", "components", "servers", "paths", "aaa"},
		{"info", "zzz"},
		{"info"},
		{},
		{"paths", "", "openapi"},
		{"KEY", "openapi"},
		{"KEY", "components", "KEY-2"},
		{"x,y:z", "a\"b", "info", "<é\n\x01>"},
	}
	forms := map[string]string{"json": "json", "json:pretty": "pretty", "yaml": "yaml", "yml": "yaml", "go": "go", "xml": "", "": "", "JSON": "", "json:": ""}
	for n, keys := range docs {
		// which texts a form has, by the order of the map
		seen := map[string]map[string]bool{}
		for back := 0; back < 2; back++ {
			for form, kind := range forms {
				what := fmt.Sprintf("format %q of document %d", form, n+1)
				c.formatted(in, fn, ot, ctT, gT, form, kind, what, keys, back == 1, seen)
			}
		}
		for form, ts := range seen {
			c.expect(len(ts) <= 1, "order", form, c.pos(fn.Pos()), "the order of the entries in format %q is that of a map", form)
		}
	}
	_, enums := c.flagBindings()
	for _, f := range enums["format"] {
		c.expect(forms[f] != "", "offered", f, c.pos(fn.Pos()), "the command line offers the format %q, which does not exist", f)
	}
	_ = T
}

func (c *Ctx) formatted(in *psa.Interp, fn *ssa.Function, ot, ctT types.Type, gT types.Type, form, kind, what string, keys []string, back bool, seen map[string]map[string]bool) {
	T := in.T
	at := c.pos(fn.Pos())
	st := in.NewState()
	g := T.Sym("GABS", gT)
	st.Assume(T.Eq(g, T.Nil()), false)
	var kv []*T0
	val := map[string]*T0{}
	for i := range keys {
		k := keys[i]
		if back {
			k = keys[len(keys)-1-i]
		}
		val[k] = T.Sym(fmt.Sprintf("VALUE-%d-OF-%d", slices.Index(keys, k)+1, len(keys)), anyType)
		if unknown[k] {
			key := T.Sym(k, tString)
			for _, o := range append(append([]string{}, orderedKeys...), keys...) {
				if !unknown[o] {
					st.Assume(T.Eq(key, T.Str(o)), false)
				} else if o != k {
					st.Assume(T.Eq(key, T.Sym(o, tString)), false)
				}
			}
			kv = append(kv, key, val[k])
			continue
		}
		kv = append(kv, T.Str(k), val[k])
	}
	d := T.Mk("iface", nil, mapAny, st.NewMap(fmt.Sprintf("DOC %v %v", keys, back), mapAny, kv...))
	x := &encoding{c: c, in: in, g: g, d: d}
	in.Model = x.model
	s := ot.Underlying().(*types.Struct)
	fs := make([]*T0, s.NumFields())
	set := false
	for i := range fs {
		fs[i] = T.Zero(s.Field(i).Type())
		if types.Identical(s.Field(i).Type(), ctT) {
			fs[i] = T.Mk("agg", nil, ctT, c.containerFields(in, g, T.Str(""))...)
			set = true
		}
	}
	if !set {
		c.fatal("anchor", "the document of a result is gone")
	}
	done := 0
	for _, p := range c.run(in, fn, []*T0{T.Str(form), T.Mk("agg", nil, ot, fs...)}, nil, st) {
		if !c.expect(p.Kind == "ret", "format", what, c.ipos(p.At), "%s can end in a %s", what, p.Kind) {
			continue
		}
		if kind == "" {
			c.expect(fails(p), "format", what, at, "the unknown format %q is accepted", form)
			continue
		}
		bad := hasFailed(in, p.St, "encoding as yaml") || hasFailed(in, p.St, "executing the template")
		for _, k := range keys {
			bad = bad || hasFailed(in, p.St, "encoding "+str(val[k]))
		}
		if bad {
			c.expect(fails(p), "errors", what, at, "%s succeeds although something cannot be encoded %s", what, c.where(p))
			continue
		}
		if !c.expect(!mayFail(p), "errors", what, at, "%s fails without a reason %s", what, c.where(p)) {
			continue
		}
		done++
		r := in.TextOf(p.St, p.Results[0])
		var entries []string // key, value
		text := ""
		if kind == "pretty" {
			ok := r.Op == "indented" && r.Args[1] == T.Str("") && r.Args[2] == T.Str("  ")
			if !c.expect(ok, "format", what, at, "%s is %s, not an indented document", what, str(r)) {
				continue
			}
			r = r.Args[0]
		}
		switch kind {
		case "yaml":
			if !c.expect(r.Op == "yaml" && r.Args[0].Op == "list", "format", what, at, "%s is %s, not YAML", what, str(r)) {
				continue
			}
			for _, a := range r.Args[0].Args {
				k, _ := a.Args[0].ConstString()
				if a.Args[0].Op == "sym" {
					k = str(a.Args[0])
				}
				entries = append(entries, quoted(k), "‹"+str(a.Args[1])+"›")
			}
			text = strings.Join(entries, " ")
		default:
			text = flat(p.St, r)
			body := text
			if kind == "go" {
				var ok bool
				if body, ok = c.goFile(p, r, what, at); !ok {
					continue
				}
			}
			if !c.expect(strings.HasPrefix(body, "{") && strings.HasSuffix(body, "}"), "format", what, at, "%s is %s, not an object", what, body) {
				continue
			}
			text = body
			body = body[1 : len(body)-1]
			for n := 0; body != ""; n++ {
				m := entryText.FindStringSubmatch(body)
				if m == nil || (m[1] != "") != (n > 0) {
					entries = append(entries, body, "")
					break
				}
				entries = append(entries, m[2], m[3])
				body = body[len(m[0]):]
			}
		}
		if seen[form] == nil {
			seen[form] = map[string]bool{}
		}
		if len(keys) == 0 || !unknown[keys[0]] { // else it depends on the key
			seen[form][text] = true
		}
		var got []string
		pos := map[string]int{}
		bad = len(entries) != 2*len(keys)
		for i := 0; i+1 < len(entries); i += 2 {
			var k string
			bad = json.Unmarshal([]byte(entries[i]), &k) != nil || bad
			bad = bad || val[k] == nil || entries[i+1] != "‹"+str(val[k])+"›"
			pos[k] = i
			got = append(got, k)
		}
		c.expect(!bad && len(pos) == len(keys), "entries", what, at, "%s has the entries %s", what, strings.Join(entries, " "))
		last := -1
		for _, k := range orderedKeys {
			if i, ok := pos[k]; ok {
				c.expect(i > last, "order", what, at, "the entries of %s come in the order %s", what, strings.Join(got, ", "))
				last = i
			}
		}
	}
	c.expect(done > 0 || kind == "", "format", what, at, "%s is never written", what)
}

// goFile takes the JSON document out of a Go file.
func (c *Ctx) goFile(p *psa.Path, r *T, what, at string) (body string, ok bool) {
	text := flat(p.St, r)
	var src string
	if i, j := strings.IndexByte(text, 1), strings.LastIndexByte(text, 2); i >= 0 && j > i {
		body, src = text[i+1:j], text[:i]+`"x"`+text[j+1:]
	} else if i, j := strings.IndexByte(text, '`'), strings.LastIndexByte(text, '`'); i >= 0 && j > i {
		body, src = text[i+1:j], text[:i+1]+"x"+text[j:]
		// a raw string cannot hold everything
		raw := false
		for t, v := range p.St.FactTerms() {
			if b, _ := v.ConstBool(); b && t.Op == "canbackquote" && flat(p.St, t.Args[0]) == body {
				raw = true
			}
		}
		if !c.expect(raw, "go", what, at, "the document is put into a raw string although it may hold a backquote") {
			return "", false
		}
	}
	f, err := parser.ParseFile(token.NewFileSet(), "", or(src, text), 0)
	ok = err == nil && f.Name.Name == "main" && len(f.Decls) == 1
	if ok {
		g, isGen := f.Decls[0].(*ast.GenDecl)
		ok = isGen && g.Tok == token.CONST && len(g.Specs) == 1
		if ok {
			v := g.Specs[0].(*ast.ValueSpec)
			ok = len(v.Names) == 1 && v.Names[0].Name == "OpenAPIJsonSpec" && len(v.Values) == 1
			if ok {
				l, isLit := v.Values[0].(*ast.BasicLit)
				ok = isLit && l.Kind == token.STRING
				if ok && src == "" {
					body, _ = strconv.Unquote(l.Value)
				} else {
					ok = ok && (l.Value == `"x"` || l.Value == "`x`")
				}
			}
		}
	}
	return body, c.expect(ok, "go", what, at, "the Go file is %s", text)
}

func or(a, b string) string {
	if a != "" {
		return a
	}
	return b
}
