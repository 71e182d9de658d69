package main

import (
	"fmt"
	"go/types"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["G01"] = checkG01 }

// tagOption is one option of the oapi struct tag: the field it sets and how its
// text is read.
type tagOption struct{ opt, field, kind string }

var oapiOptions = []tagOption{
	{"inline", "Inline", "bool"}, {"omitempty", "OmitEmpty", "bool"}, {"nullable", "Nullable", "bool"},
	{"readonly", "ReadOnly", "bool"}, {"writeonly", "WriteOnly", "bool"}, {"deprecated", "Deprecated", "bool"},
	{"required", "Required", "bool"}, {"unique", "UniqItems", "bool"},
	{"pattern", "Pattern", "string"}, {"format", "Format", "string"}, {"type", "Type", "string"},
	{"min", "Min", "float"}, {"max", "Max", "float"}, {"emin", "EMin", "float"}, {"emax", "EMax", "float"}, {"mulof", "MulOf", "float"},
	{"minlen", "MinLen", "int"}, {"maxlen", "MaxLen", "int"}, {"minitems", "MinItems", "int"}, {"maxitems", "MaxItems", "int"},
	{"minprops", "MinProps", "int"}, {"maxprops", "MaxProps", "int"},
}

var jsonOptions = []tagOption{{"inline", "Inline", "bool"}, {"omitempty", "OmitEmpty", "bool"}}

// tagWorld answers the tag library: the tags a field has, their names and
// options.
type tagWorld struct {
	c    *Ctx
	in   *psa.Interp
	tags map[string]*aTag // by key
}

type aTag struct {
	name *T
	opts map[string]*T
	ptr  *T
}

func (w *tagWorld) model(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
	T := w.in.T
	if name != "github.com/vmihailenco/tagparser.Parse" {
		return nil
	}
	v := st.Norm(args[0])
	key := ""
	psa.Walk(v, func(x *psa.Term) bool {
		if x.Op == "call" && x.Callee() == "(*github.com/fatih/structtag.Tags).Get" {
			key, _ = st.Norm(x.Args[1]).ConstString()
		}
		return true
	})
	if cl, _ := callOf(v); key == "" || cl == nil || cl.Callee() != "(*github.com/fatih/structtag.Tag).Value" {
		key = "" // not all of a tag
	}
	t := w.tags[key]
	if t == nil {
		t = &aTag{name: T.Sym("NAME OF "+str(v), tString)}
	}
	tt := importedType(w.c, "github.com/vmihailenco/tagparser", "Tag")
	stt := tt.Underlying().(*types.Struct)
	o := st.NewObj("tag "+key, tt)
	var kv []*psa.Term
	for k, v := range t.opts {
		kv = append(kv, T.Str(k), v)
	}
	for i := 0; i < stt.NumFields(); i++ {
		a := w.in.FieldAddr(o, i, types.NewPointer(stt.Field(i).Type()))
		switch stt.Field(i).Name() {
		case "Name":
			st.Store(a, t.name)
		case "Options":
			st.Store(a, st.NewMap("options "+key, stt.Field(i).Type(), kv...))
		}
	}
	return []psa.Ret{{St: st, Kind: "ret", Val: o}}
}

func checkG01(c *Ctx) {
	c.explain = "Parsing of struct tags is interpreted for every documented option on its own and for every pair of options, each with an arbitrary text, and for every combination of json and oapi names; the fields of the parsed tag are compared with what the options stand for."
	c.rule("option", "each option sets the field it stands for, to the value its text denotes", 22)
	c.rule("others", "no option sets anything else, and an option which is absent sets nothing", 22)
	c.rule("malformed", "a text which is no number or truth value is reported", 15)
	c.rule("name", "the oapi name wins over the json name, and the name - of either ignores the field", 4)
	c.rule("pairs", "options do not disturb each other", 200)
	c.rule("json", "the json tag only names the field and knows inline and omitempty", 4)
	c.rule("errors", "a tag which cannot be parsed is reported", 1)
	for i, o := range oapiOptions {
		c.tagOptions("option", "oapi", o)
		for _, p := range oapiOptions[i+1:] {
			c.tagOptions("pairs", "oapi", o, p)
		}
	}
	for _, o := range oapiOptions {
		ours := o
		ours.kind = "none"
		for _, j := range jsonOptions {
			if j.opt == o.opt {
				ours = o
			}
		}
		c.tagOptions("json", "json", ours)
	}
	c.tagNames()
}

// tagThere reports whether the tag with the key was there on the path: 1, 0, -1.
func tagThere(in *psa.Interp, p *psa.Path, key string) (there int, asked bool) {
	for _, e := range calls(p, "(*github.com/fatih/structtag.Tags).Get") {
		if k, _ := p.St.Norm(e.Arg(1)).ConstString(); k == key {
			return p.St.Nil(in.T.Extract(e.Res, 1, nil)), true
		}
	}
	return -1, false
}

// emptyTags reports a path on which there is no text to parse.
func emptyTags(in *psa.Interp, p *psa.Path) bool {
	return p.St.Truth(in.T.Eq(in.Param(p.Fn.Params[0]), in.T.Str(""))) == 1 || p.St.Truth(in.T.Eq(in.T.Len(in.Param(p.Fn.Params[0])), in.T.Int(0))) == 1
}

func (c *Ctx) tagOptions(rule, key string, os ...tagOption) {
	opts := map[string]*T{}
	what := ""
	// texts of options
	tmp := map[string]string{}
	for _, o := range os {
		tmp[o.opt] = "TEXT-" + o.opt
		if what != "" {
			what += ","
		}
		what += o.opt
	}
	construct := what
	if len(os) > 1 {
		construct = os[0].opt
	}
	tags := map[string]*aTag{"json": {}, "oapi": {}}
	tags[key].opts = opts
	tagT := c.typ("tag", "Tag")
	stt := tagT.Underlying().(*types.Struct)
	n, bad := 0, 0
	c.runTags(tags, func(in *psa.Interp) {
		for k, v := range tmp {
			opts[k] = in.T.Sym(v, types.Typ[types.String])
		}
		tags["json"].name, tags["oapi"].name = in.T.Str(""), in.T.Str("")
	}, func(in *psa.Interp, p *psa.Path) {
		T := in.T
		at := c.ipos(p.At)
		there, asked := tagThere(in, p, key)
		if emptyTags(in, p) || fails(p) && !asked {
			return
		}
		// the state with no other failure
		malformed := []*psa.Term{}
		for _, o := range os {
			v := opts[o.opt]
			for _, e := range p.Events {
				if e.Kind != "call" || len(e.Args) == 0 || p.St.Norm(e.Args[0]) != v {
					continue
				}
				if er := T.Extract(e.Res, 1, nil); isTup2(e.Res) {
					malformed = append(malformed, er)
				}
			}
		}
		isBad := false
		for _, er := range malformed {
			switch p.St.Nil(er) {
			case 0:
				isBad = true
			case -1:
				if !fails(p) && !(mayFail(p) && p.St.Norm(p.Results[1]) == p.St.Norm(er)) {
					c.violate("malformed", construct, at, "a malformed text of the option "+what+" is accepted")
				}
			}
		}
		if isBad {
			bad++
			c.expect(fails(p) || mayFail(p), "malformed", construct, at, "a malformed text of the option %s is accepted %s", what, c.where(p))
			return
		}
		if fails(p) {
			ok := true // every reader succeeded
			for _, er := range malformed {
				ok = ok && p.St.Nil(er) == 1
			}
			if ok {
				c.violate(rule, construct, at, "the option "+what+" is refused although its text is fine "+c.where(p))
			}
		}
		if !succeeded(p) {
			return
		}
		if !asked {
			c.violate(rule, construct, at, "the "+key+" tag is not looked at")
			return
		}
		if there != 1 {
			// absent: nothing is set
			for i := 0; i < stt.NumFields(); i++ {
				v := p.St.Norm(T.Field(p.Results[0], i, stt.Field(i).Type()))
				c.expect(isZeroTerm(v), "others", stt.Field(i).Name(), at, "without a tag %s is %s", stt.Field(i).Name(), str(v))
			}
			return
		}
		n++
		for i := 0; i < stt.NumFields(); i++ {
			fld := stt.Field(i)
			v := p.St.Norm(T.Field(p.Results[0], i, fld.Type()))
			var o *tagOption
			for j := range os {
				if os[j].field == fld.Name() && os[j].kind != "none" {
					o = &os[j]
				}
			}
			if o == nil {
				r := "others"
				if rule == "pairs" {
					r = rule
				}
				c.expect(isZeroTerm(v), r, fld.Name(), at, "the option %s sets %s to %s", what, fld.Name(), str(v))
				continue
			}
			got := v
			if pt, ok := fld.Type().(*types.Pointer); ok {
				if v.Op == "nil" || isZeroTerm(v) {
					c.violate(rule, o.opt, at, fmt.Sprintf("the option %s does not set %s %s", o.opt, fld.Name(), c.where(p)))
					continue
				}
				got = p.St.Norm(p.St.Load(v, pt.Elem()))
			}
			c.expect(c.reads(in, p.St, got, opts[o.opt], o.kind), rule, o.opt, at, "the option %s sets %s to %s", o.opt, fld.Name(), str(got))
		}
	})
	if len(os) == 1 {
		c.expect(n > 0, rule, construct, "", "the option %s is never read", what)
		if os[0].kind != "string" && os[0].kind != "none" {
			c.expect(bad > 0, "malformed", construct, "", "a malformed text of the option %s is never refused", what)
		}
	}
}

func isTup2(t *T) bool {
	tup, ok := t.Typ.(*types.Tuple)
	return ok && tup.Len() == 2 && psa.IsErrorType(tup.At(1).Type())
}

func isZeroTerm(v *T) bool {
	switch v.Op {
	case "zero", "nil":
		return true
	case "const":
		if s, ok := v.ConstString(); ok {
			return s == ""
		}
		if n, ok := v.ConstInt(); ok {
			return n == 0
		}
		if b, ok := v.ConstBool(); ok {
			return !b
		}
	case "list":
		return len(v.Args) == 0
	}
	return false
}

// reads decides that v is what text denotes.
func (c *Ctx) reads(in *psa.Interp, st *psa.State, v, text *T, kind string) bool {
	T := in.T
	parsed := func(fns ...string) bool {
		for x := v; x.Op == "conv"; x = x.Args[0] {
			if b, ok := x.Typ.Underlying().(*types.Basic); !ok || b.Kind() != types.Int64 && b.Kind() != types.Int && b.Kind() != types.Float64 {
				return false
			}
		}
		cl, i := callOf(v)
		if cl == nil || i != 0 || st.Norm(cl.Args[0]) != text {
			return false
		}
		for _, f := range fns {
			if cl.Callee() != f {
				continue
			}
			switch f {
			case "strconv.ParseInt":
				b, ok1 := cl.Args[1].ConstInt()
				n, ok2 := cl.Args[2].ConstInt()
				return ok1 && ok2 && b == 10 && (n == 64 || n == 0)
			case "strconv.ParseFloat":
				n, ok := cl.Args[1].ConstInt()
				return ok && n == 64
			}
			return true
		}
		return false
	}
	switch kind {
	case "string":
		return v == text
	case "int":
		return parsed("strconv.Atoi", "strconv.ParseInt")
	case "float":
		return parsed("strconv.ParseFloat")
	case "bool":
		b, isC := v.ConstBool()
		switch st.Truth(T.Eq(text, T.Str(""))) {
		case 1:
			return isC && b
		case 0:
			return !isC && parsed("strconv.ParseBool")
		}
	}
	return false
}

func (c *Ctx) runTags(tags map[string]*aTag, prep func(*psa.Interp), f func(in *psa.Interp, p *psa.Path)) {
	in := c.interp()
	prep(in)
	fn := c.fn("tag", "Parse")
	c.opaque(in, fname(fn))
	w := &tagWorld{c: c, in: in, tags: tags}
	in.Model = w.model
	n := 0
	for _, p := range c.run(in, fn, nil, nil, nil) {
		if p.Kind != "ret" {
			c.violate("errors", "Parse", c.ipos(p.At), "parsing a tag panics "+c.where(p))
			continue
		}
		for _, e := range calls(p, "github.com/fatih/structtag.Parse") {
			err := in.T.Extract(e.Res, 1, nil)
			if p.St.Nil(err) != 1 {
				c.expect(fails(p) || mayFail(p) && p.St.Norm(p.Results[1]) == p.St.Norm(err), "errors", "Parse", c.ipos(p.At), "a tag which cannot be parsed is not reported")
			}
		}
		n++
		f(in, p)
	}
	c.expect(n > 0, "errors", "Parse", c.pos(fn.Pos()), "tags cannot be parsed")
}

// tagNames decides names: of the json tag, of the oapi tag, or none.
func (c *Ctx) tagNames() {
	tagT := c.typ("tag", "Tag")
	for _, j := range []string{"", "-", "name"} {
		for _, o := range []string{"", "-", "name"} {
			for _, opt := range []bool{false, true} {
				tags := map[string]*aTag{"json": {opts: map[string]*T{}}, "oapi": {opts: map[string]*T{}}}
				names := map[string]*T{}
				n := 0
				c.runTags(tags, func(in *psa.Interp) {
					for k, s := range map[string]string{"json": j, "oapi": o} {
						tags[k].name = in.T.Str(s)
						if s == "name" {
							tags[k].name = in.T.Sym("the "+k+" name", tString)
						}
						names[k] = tags[k].name
						if opt { // what else the tag says does not matter
							tags[k].opts["omitempty"] = in.T.Str("")
						}
					}
				}, func(in *psa.Interp, p *psa.Path) {
					if !succeeded(p) || emptyTags(in, p) {
						return
					}
					for _, n := range names {
						if _, ok := n.ConstString(); !ok && (p.St.Truth(in.T.Eq(n, in.T.Str(""))) == 1 || p.St.Truth(in.T.Eq(n, in.T.Str("-"))) == 1) {
							return // another of these cases
						}
					}
					jt, _ := tagThere(in, p, "json")
					ot, _ := tagThere(in, p, "oapi")
					if jt == 1 && j == "-" && ot < 0 {
						ot = 0 // the field is ignored anyway
					}
					n++
					at := c.ipos(p.At)
					ign := p.St.Norm(c.field(in, p.Results[0], tagT, "Ignore"))
					b, ok := ign.ConstBool()
					if ign.Op == "zero" {
						b, ok = false, true
					}
					want := jt == 1 && j == "-" || ot == 1 && o == "-"
					c.expect(ok && b == want, "name", "-", at, "with json name %q and oapi name %q the field is ignored: %s", j, o, str(ign))
					if want {
						return
					}
					wn := in.T.Str("")
					if jt == 1 {
						wn = names["json"]
					}
					if ot == 1 && o != "" {
						wn = names["oapi"]
					}
					got := p.St.Norm(c.field(in, p.Results[0], tagT, "Name"))
					c.expect(got == wn, "name", "name", at, "with json name %q and oapi name %q the field is called %s", j, o, str(got))
				})
				c.expect(n > 0, "name", "name", "", "names are never read")
			}
		}
	}
}
