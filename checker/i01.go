package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["I01"] = checkI01 }

const (
	jsonUn = "encoding/json.Unmarshal"
	yamlUn = "gopkg.in/yaml.v2.Unmarshal"
)

var mapIface = types.NewMap(anyType, anyType)
var errType = types.Universe.Lookup("error").Type()

// forkErr answers v, or fails for the given reason.
func forkErr(in *psa.Interp, st *psa.State, call *psa.Call, why string, v *T) []psa.Ret {
	T := in.T
	e := T.Sym(why, errType)
	yes, no := st.Clone(), st
	var out []psa.Ret
	pair := func(v, e *T0) *T0 {
		if v == nil {
			return e
		}
		return T.Mk("agg", nil, call.Typ, v, e)
	}
	if yes.Assume(T.Eq(e, T.Nil()), true) {
		out = append(out, psa.Ret{St: yes, Kind: "ret", Val: pair(v, T.Nil())})
	}
	if no.Assume(T.Eq(e, T.Nil()), false) {
		z := v
		if v != nil {
			z = T.Zero(v.Typ)
		}
		out = append(out, psa.Ret{St: no, Kind: "ret", Val: pair(z, e)})
	}
	return out
}

// hasFailed reports that the event named why is known to have failed.
func hasFailed(in *psa.Interp, st *psa.State, why string) bool {
	return st.Truth(in.T.Eq(in.T.Sym(why, errType), in.T.Nil())) == 0
}

// ydoc is a document as a decoder makes it: objects are maps with string keys
// (str) or with arbitrary ones, whose scalars are unknown.
type ydoc struct {
	str   bool
	keys  []string // #name is a key which is a number
	elems []*ydoc
	list  bool
	leaf  string
}

func yobj(str bool, kv ...interface{}) *ydoc {
	k := &ydoc{str: str}
	for i := 0; i < len(kv); i += 2 {
		k.keys, k.elems = append(k.keys, kv[i].(string)), append(k.elems, kv[i+1].(*ydoc))
	}
	return k
}
func ylist(xs ...*ydoc) *ydoc { return &ydoc{list: true, elems: xs} }
func yleaf(n string) *ydoc    { return &ydoc{leaf: n} }

func yscalar(in *psa.Interp, n string) *T {
	if n == "null" {
		return in.T.Nil()
	}
	typ := types.Typ[types.String]
	switch n[0] {
	case 'n':
		typ = types.Typ[types.Float64]
	case 'b':
		typ = types.Typ[types.Bool]
	}
	return in.T.Mk("iface", nil, typ, in.T.Sym(n, typ))
}

// keyText is the text of a key, which is any.
func keyText(in *psa.Interp, k string) *T {
	if n, ok := strings.CutPrefix(k, "#"); ok {
		return in.T.Sym("text of "+n, tString)
	}
	return in.T.Sym("key "+k, tString)
}

// build makes the value (not its interface) and its type.
func (d *ydoc) build(in *psa.Interp, st *psa.State, name string) *T {
	switch {
	case d.leaf != "":
		return yscalar(in, d.leaf)
	case d.list:
		typ := types.NewSlice(anyType)
		a := st.NewObj(name, types.NewArray(anyType, int64(len(d.elems))))
		for i, e := range d.elems {
			st.Store(in.ElemAddr(a, in.T.Int(int64(i)), types.NewPointer(anyType)), e.build(in, st, fmt.Sprintf("%s.%d", name, i)))
		}
		return in.T.Mk("iface", nil, typ, in.T.Mk("slice", nil, typ, a, in.T.Int(int64(len(d.elems)))))
	}
	mt := mapIface
	if d.str {
		mt = mapAny
	}
	var kv []*T
	for i, e := range d.elems {
		k := keyText(in, d.keys[i])
		for _, o := range d.keys[:i] {
			st.Assume(in.T.Eq(k, keyText(in, o)), false)
		}
		if n, ok := strings.CutPrefix(d.keys[i], "#"); ok {
			k = in.T.Mk("iface", nil, types.Typ[types.Int], in.T.Sym(n, types.Typ[types.Int]))
		} else if !d.str {
			k = in.T.Mk("iface", nil, types.Typ[types.String], k)
		}
		kv = append(kv, k, e.build(in, st, name+"."+d.keys[i]))
	}
	return in.T.Mk("iface", nil, mt, st.NewMap(name, mt, kv...))
}

// holds compares a value with the document as JSON has it: all objects have
// string keys.
func (d *ydoc) holds(in *psa.Interp, st *psa.State, v *T) string {
	v = st.Norm(v)
	if d.leaf != "" {
		if w := st.Norm(yscalar(in, d.leaf)); v != w {
			return fmt.Sprintf("%s stands for the scalar %s", str(v), str(w))
		}
		return ""
	}
	if v.Op != "iface" {
		return str(v) + " is of no known type"
	}
	if d.list {
		if !types.Identical(v.Typ, types.NewSlice(anyType)) {
			return fmt.Sprintf("a list is a %s", v.Typ)
		}
		l := in.Resolve(st, v.Args[0])
		if l.Op != "list" || len(l.Args) != len(d.elems) {
			return "a list of " + fmt.Sprint(len(d.elems)) + " is " + str(l)
		}
		for i, e := range d.elems {
			if s := e.holds(in, st, l.Args[i]); s != "" {
				return s
			}
		}
		return ""
	}
	if !types.Identical(v.Typ, mapAny) {
		return fmt.Sprintf("an object is a %s", v.Typ)
	}
	ks, vs, base := st.MapEntries(v.Args[0])
	if base != nil {
		return "an object has unknown entries"
	}
	if len(ks) != len(d.keys) {
		return fmt.Sprintf("an object of %d entries has %d", len(d.keys), len(ks))
	}
	for i, k := range d.keys {
		w := keyText(in, k)
		found := false
		for j := range ks {
			if st.Norm(ks[j]) == w {
				found = true
				if s := d.elems[i].holds(in, st, vs[j]); s != "" {
					return s
				}
			}
		}
		if !found {
			return "the key " + k + " of an object is missing"
		}
	}
	return ""
}

// wrapped is what a container holds.
func (c *Ctx) wrapped(in *psa.Interp, st *psa.State, v *T) *T {
	g := in.Resolve(st, c.field(in, st.Norm(v), c.typ("container", "Container"), "c"))
	if !isCall(g, "github.com/Jeffail/gabs/v2.Wrap") {
		return nil
	}
	return st.Norm(g.Args[0])
}

func checkI01(c *Ctx) {
	c.explain = "Reading is interpreted for files of every extension and documents of every kind, directories for arbitrary files in them, with every operation failing or not; what comes out is compared with what was read. The accessors of documents are compared with those of the library they wrap."
	c.rule("file", "a file is read as YAML or JSON by its extension, remembers its path, and others are refused", 8)
	c.rule("document", "a document is what its decoder yields; it is an object or refused", 6)
	c.rule("keys", "every object of a document, at any depth, has its keys as text", 4)
	c.rule("directory", "a directory yields the files which its patterns match, in their order, and fails if one of them cannot be read", 4)
	c.rule("children", "the children of an object are its entries, nothing has none, anything else is refused", 4)
	c.rule("access", "documents are looked at, searched and written by the library on their own content", 6)
	c.rule("nothing", "nothing is what is nil, and what is a nil map, list or pointer", 10)
	c.rule("setting", "making, copying, setting and replacing copy what is given, put the copy where it belongs and tell when they cannot", 8)
	c.rule("order", "sorting documents yields all of them by path and leaves the original list alone", 2)
	c.readFiles()
	c.readDirs()
	c.keysAsText()
	c.childrenMap()
	c.accessors()
	c.isNil()
	c.setting()
	c.sortDocs()
}

// decoders answers for the decoders: the data is a document, another value or
// malformed.
func (c *Ctx) decoders(in *psa.Interp, docs map[string]*ydoc) func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
	T := in.T
	return func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
		switch shortName(name) {
		case "io/ioutil.ReadFile", "os.ReadFile":
			n, ok := st.Norm(args[0]).ConstString()
			if !ok {
				return nil
			}
			return forkErr(in, st, call, "reading "+n, T.Sym("CONTENT "+n, types.NewSlice(types.Typ[types.Byte])))
		case jsonUn, yamlUn:
			d := docs[name]
			ptr := st.Norm(args[1])
			target := strip(ptr)
			pt, ok := ptr.Typ.(*types.Pointer)
			if d == nil || !ok || ptr.Op != "iface" {
				return nil
			}
			st.Emit(&psa.Event{Kind: "call", Callee: "DECODE " + name, Args: []*T0{st.Norm(args[0])}, Instr: call.Instr})
			_, isMap := pt.Elem().Underlying().(*types.Map)
			var out []psa.Ret
			e := T.Sym("malformed "+name, errType)
			bad := st.Clone()
			if bad.Assume(T.Eq(e, T.Nil()), false) {
				out = append(out, psa.Ret{St: bad, Kind: "ret", Val: e})
			}
			if !st.Assume(T.Eq(e, T.Nil()), true) {
				return out
			}
			// a document which is no object does not fit into one
			scalar := st.Clone()
			e = T.Sym("no object "+name, errType)
			if scalar.Assume(T.Eq(e, T.Nil()), false) {
				v := T.Nil()
				if isMap {
					v = e
				} else {
					scalar.Store(target, yscalar(in, "scalar"))
				}
				out = append(out, psa.Ret{St: scalar, Kind: "ret", Val: v})
			}
			if st.Assume(T.Eq(e, T.Nil()), true) {
				v := d.build(in, st, "DOC"+name)
				if isMap {
					v = v.Args[0]
				} else if name == yamlUn {
					return nil
				}
				st.Store(target, v)
				out = append(out, psa.Ret{St: st, Kind: "ret", Val: T.Nil()})
			}
			return out
		case "fmt.Sprint", "fmt.Sprintf":
			l := in.Resolve(st, args[len(args)-1])
			if len(args) == 2 {
				if s, _ := st.Norm(args[0]).ConstString(); s != "%v" && s != "%d" {
					return nil
				}
			}
			if l.Op == "list" && len(l.Args) == 1 {
				if t, ok := c.keyText(in, st, l.Args[0]); ok {
					return []psa.Ret{{St: st, Kind: "ret", Val: t}}
				}
			}
		case "strconv.Itoa":
			if t, ok := c.keyText(in, st, args[0]); ok {
				return []psa.Ret{{St: st, Kind: "ret", Val: t}}
			}
		}
		return nil
	}
}

// keyText is the text of a key which is a number.
func (c *Ctx) keyText(in *psa.Interp, st *psa.State, k *T) (*T, bool) {
	k = st.Norm(strip(st.Norm(k)))
	if k.Op != "sym" || k.Typ != types.Typ[types.Int] {
		return nil, false
	}
	return in.T.Sym("text of "+str(k), tString), true
}

func testDoc(str bool) *ydoc {
	return yobj(true,
		"a", yobj(str, "k", yleaf("s1"), "l", ylist(yobj(str, "x", yleaf("n1"), "y", yleaf("null")), yleaf("b1"), ylist(yobj(str, "z", yleaf("s2"))))),
		"b", yleaf("s3"),
		"c", yobj(str))
}

func (c *Ctx) readFiles() {
	ctT := c.typ("container", "Container")
	yd := testDoc(false)
	yd.elems[0].keys = append(yd.elems[0].keys, "#num")
	yd.elems[0].elems = append(yd.elems[0].elems, yobj(false, "#deep", yleaf("s4")))
	docs := map[string]*ydoc{jsonUn: testDoc(true), yamlUn: yd}
	judge := func(rule, what string, fn *ssa.Function, in *psa.Interp, ps []*psa.Path, dec string, data *T, name string) {
		at := c.pos(fn.Pos())
		okSeen := false
		for _, p := range ps {
			if !c.expect(p.Kind == "ret", rule, what, c.ipos(p.At), "reading can end in a %s", p.Kind) {
				continue
			}
			bad := name != "" && hasFailed(in, p.St, "reading "+name)
			used := ""
			for _, e := range p.Events {
				if n, ok := strings.CutPrefix(e.Callee, "DECODE "); ok && e.Kind == "call" {
					used += n
					c.expect(strip(e.Args[0]) == data, rule, what, c.ipos(e.Instr), "what is decoded is %s, not %s", str(e.Args[0]), str(data))
				}
			}
			if !bad && dec == "" {
				bad = true
			} else if !bad {
				bad = hasFailed(in, p.St, "malformed "+dec) || hasFailed(in, p.St, "no object "+dec)
				c.expect(used == dec || mayFail(p), rule, what, c.ipos(p.At), "%s is decoded by %s, not by %s", what, used, dec)
			}
			if bad {
				c.expect(fails(p), "document", what, at, "reading succeeds although it should not %s", c.where(p))
				continue
			}
			if !c.expect(!mayFail(p), rule, what, at, "reading fails without a reason %s", c.where(p)) {
				continue
			}
			okSeen = true
			v := c.wrapped(in, p.St, p.Results[0])
			if !c.expect(v != nil, "document", what, at, "what is read is not wrapped") {
				continue
			}
			s := docs[dec].holds(in, p.St, v)
			c.expect(s == "", "document", what, at, "what is read is not the document: %s", s)
			if name != "" {
				pt := p.St.Norm(c.field(in, p.St.Norm(p.Results[0]), ctT, "path"))
				c.expect(pt == in.T.Str(name), "file", what, at, "the path of %s is %s", name, str(pt))
			}
		}
		c.expect(okSeen || dec == "", rule, what, at, "%s is never read", what)
	}
	for dec, n := range map[string]string{jsonUn: "ReadJSON", yamlUn: "ReadYAML"} {
		in := c.interp()
		c.opaque(in, "internal/container")
		in.Rec = 9
		in.Model = c.decoders(in, docs)
		fn := c.fn("container", n)
		data := in.T.Sym("DATA", types.NewSlice(types.Typ[types.Byte]))
		judge("document", n, fn, in, c.run(in, fn, []*T{data}, nil, nil), dec, data, "")
	}
	fn := c.fn("container", "ReadFile")
	for name, dec := range map[string]string{"/d/x.yaml": yamlUn, "/d/x.yml": yamlUn, "/d/x.json": jsonUn, "d.json/x.txt": "", "/d/x": "", "x.json.bak": "", "x.yaml.json": jsonUn, "x.json.yml": yamlUn, "yaml": "", "/d.yaml/json": ""} {
		in := c.interp()
		c.opaque(in, "internal/container")
		in.Rec = 9
		in.Model = c.decoders(in, docs)
		judge("file", "file "+name, fn, in, c.run(in, fn, []*T{in.T.Str(name)}, nil, nil), dec, in.T.Sym("CONTENT "+name, types.NewSlice(types.Typ[types.Byte])), name)
	}
}

func (c *Ctx) readDirs() {
	fn := c.fn("container", "ReadDir")
	at := c.pos(fn.Pos())
	ctT := c.typ("container", "Container")
	def := []string{"*.yaml", "*.yml", "*.json"}
	for i, pats := range [][]string{nil, {"oapi.yaml", "oapi.json"}, {"b.yml", "*.x"}, nil, {"c.yml", "a.yml"}} {
		what := fmt.Sprintf("patterns %s %d", strings.Join(pats, " "), i)
		// how many files each pattern matches
		n := [][]int{{2, 1, 1}, {0, 2}, {1, 2}, {0, 1, 0}, {0, 0}}[i]
		in := c.interp()
		T := in.T
		c.opaque(in, "internal/container")
		in.Rec = 9
		c.opaqueAlso(in, "internal/container.ReadFile")
		want := pats
		if pats == nil {
			what, want = fmt.Sprint("default patterns ", i), def
		}
		dir := T.Sym("DIR", tString)
		files := func(s string) []string {
			for i, w := range want {
				if s == w {
					return []string{s + "-1", s + "-2"}[:n[i]]
				}
			}
			return []string{s}
		}
		file := func(s string) *T0 { return T.Sym("FILE "+s, tString) }
		in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
			switch shortName(name) {
			case "path/filepath.Join":
				l := in.Resolve(st, args[0])
				if l.Op != "list" || len(l.Args) != 2 {
					return nil
				}
				base, how := c.rewriting(in, st, l.Args[0])
				s, ok := st.Norm(l.Args[1]).ConstString()
				if base != dir || !ok {
					return nil
				}
				// the directory stands for itself
				esc := how == `at once *→\* ?→\? [→\[ \→\\` || strings.HasPrefix(how, `\→\\ then `) && sameSet(strings.Split(how, " then "), []string{`\→\\`, `*→\*`, `?→\?`, `[→\[`})
				if !esc {
					return []psa.Ret{{St: st, Kind: "ret", Val: T.Sym("unquoted", tString)}}
				}
				return []psa.Ret{{St: st, Kind: "ret", Val: T.Sym("IN DIR "+s, tString)}}
			case "path/filepath.Glob":
				s, ok := strings.CutPrefix(str(st.Norm(args[0])), "IN DIR ")
				if !ok {
					return nil
				}
				var vs []*T0
				for i, x := range files(s) {
					vs = append(vs, file(x))
					if i > 0 && !st.Assume(T.Cmp(token.LSS, vs[i-1], vs[i]), true) {
						return []psa.Ret{}
					}
				}
				return forkErr(in, st, call, "glob "+s, listTerm(in, tString, vs...))
			case "internal/container.ReadFile":
				s := strings.TrimPrefix(str(st.Norm(args[0])), "FILE ")
				return forkErr(in, st, call, "reading "+s, T.Sym("DOC "+s, ctT))
			}
			return nil
		}
		var ps []*T0
		for _, s := range pats {
			ps = append(ps, T.Str(s))
		}
		okSeen := false
		arg := listTerm(in, tString, ps...)
		if pats == nil {
			arg = T.Zero(types.NewSlice(tString))
		}
		for _, p := range c.run(in, fn, []*T0{dir, arg}, nil, nil) {
			if !c.expect(p.Kind == "ret", "directory", what, c.ipos(p.At), "reading a directory can end in a %s", p.Kind) {
				continue
			}
			bad := false
			var ws []string
			for _, s := range want {
				bad = bad || hasFailed(in, p.St, "glob "+s)
				for _, x := range files(s) {
					ws = append(ws, "DOC "+x)
				}
			}
			for _, s := range ws {
				bad = bad || hasFailed(in, p.St, "reading "+strings.TrimPrefix(s, "DOC "))
			}
			if bad {
				c.expect(fails(p), "directory", what, at, "reading a directory succeeds although a file cannot be read %s", c.where(p))
				continue
			}
			if !c.expect(!mayFail(p), "directory", what, at, "reading a directory fails without a reason %s", c.where(p)) {
				continue
			}
			okSeen = true
			l := in.Resolve(p.St, p.Results[0])
			var gs []string
			if l.Op == "list" {
				for _, a := range l.Args {
					gs = append(gs, str(p.St.Norm(a)))
				}
			}
			c.expect(strings.Join(gs, ", ") == strings.Join(ws, ", "), "directory", what, at, "the documents are %s, not %s", strings.Join(gs, ", "), strings.Join(ws, ", "))
		}
		c.expect(okSeen, "directory", what, at, "no directory is read")
	}
}
