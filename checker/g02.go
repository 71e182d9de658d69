package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["G02"] = checkG02
	checks["G03"] = checkG03
	checks["G04"] = checkG04
}

// schemaRun interprets the conversion of one type and compares the schema with
// the one the type stands for.
type schemaRun struct {
	c    *Ctx
	in   *psa.Interp
	w    *goWorld
	rule string
	what string
	at   string
	k    *cs
	p    *psa.Path
}

// expectation is a schema which is wanted.
type expectation struct {
	ref  *T // it refers to this type, and nothing else
	base *T // it is this schema, but for what is set
	set  map[string]func(*T) bool
	bad  bool // it cannot be made
}

func (r *schemaRun) eq(want *T) func(*T) bool {
	return func(v *T) bool {
		if r.k.St.Norm(v) == r.k.St.Norm(want) {
			return true
		}
		if isZeroTerm(r.k.St.Norm(want)) {
			return isZeroTerm(v) || r.k.St.Nil(v) == 1
		}
		if b, ok := want.ConstBool(); ok {
			t := r.k.St.Truth(v)
			return t >= 0 && (t == 1) == b
		}
		return false
	}
}

// flag compares a truth value, deciding both.
func (r *schemaRun) flag(want *T) func(*T) bool {
	return func(v *T) bool {
		if isZeroTerm(v) {
			return !r.k.is(want)
		}
		if b, ok := v.ConstBool(); ok {
			return r.k.is(want) == b
		}
		return r.k.St.Norm(v) == r.k.St.Norm(want) || r.k.is(want) == r.k.is(v)
	}
}

// ptrTo compares the values of two pointers; a nil one is wanted as nil.
func (r *schemaRun) samePtr(want *T) func(*T) bool {
	return func(v *T) bool {
		if r.k.isNil(want) {
			return v.Op == "nil" || isZeroTerm(v) || r.k.St.Nil(v) == 1
		}
		if r.k.St.Norm(v) == r.k.St.Norm(want) {
			return true
		}
		if isZeroTerm(v) || r.k.St.Nil(v) == 1 {
			return false
		}
		return r.k.St.Norm(r.k.St.Load(v, nil)) == r.k.St.Norm(r.k.St.Load(want, nil))
	}
}

func (r *schemaRun) tagAttr(tg *T, name string) *T {
	return r.k.St.Norm(r.c.field(r.in, tg, r.c.typ("tag", "Tag"), name))
}

// nullable is what a composite type is, unless the tag says so.
func (r *schemaRun) nullable(tg *T, def bool) *T {
	n := r.tagAttr(tg, "Nullable")
	if r.k.isNil(n) {
		return r.in.T.Bool(def)
	}
	return r.k.St.Norm(r.k.St.Load(n, types.Typ[types.Bool]))
}

type basicKind struct {
	typ, format string
	unsigned    bool
}

var basicKinds = map[types.BasicKind]basicKind{
	types.Bool: {"boolean", "", false}, types.String: {"string", "", false},
	types.Int: {"integer", "int32", false}, types.Int8: {"integer", "int32", false}, types.Int16: {"integer", "int32", false}, types.Int32: {"integer", "int32", false}, types.Int64: {"integer", "int64", false},
	types.Uint: {"integer", "int32", true}, types.Uint8: {"integer", "int32", true}, types.Uint16: {"integer", "int32", true}, types.Uint32: {"integer", "int32", true}, types.Uint64: {"integer", "int64", true},
	types.Float32: {"number", "float", false}, types.Float64: {"number", "double", false},
}

// typeNames are the values of the type option.
var typeNames = map[string]struct {
	kind   types.BasicKind
	format string
	plain  string
}{
	"string": {types.String, "", ""}, "float32": {types.Float32, "", ""}, "float": {types.Float32, "", ""}, "float64": {types.Float64, "", ""}, "double": {types.Float64, "", ""},
	"uint": {types.Uint, "", ""}, "uint8": {types.Uint8, "", ""}, "uint16": {types.Uint16, "", ""}, "uint32": {types.Uint32, "", ""}, "uint64": {types.Uint64, "", ""},
	"int": {types.Int, "", ""}, "int8": {types.Int8, "", ""}, "int16": {types.Int16, "", ""}, "int32": {types.Int32, "", ""}, "integer": {types.Int32, "", ""}, "int64": {types.Int64, "", ""},
	"bool": {types.Bool, "", ""}, "base64": {types.String, "binary", ""}, "uuid": {types.String, "uuid", ""}, "password": {types.String, "password", ""},
	"number": {0, "", "number"}, "object": {0, "", "object"},
}

func (r *schemaRun) basic(k types.BasicKind, tg *T) *expectation {
	b, ok := basicKinds[k]
	if !ok {
		return &expectation{bad: true}
	}
	T := r.in.T
	e := &expectation{set: map[string]func(*T0) bool{"Type": r.eq(T.Str(b.typ))}}
	if b.format != "" {
		e.set["Format"] = r.eq(T.Str(b.format))
	}
	limit := func(field, excl, attr, eattr string, zero bool) {
		et, t := r.tagAttr(tg, eattr), r.tagAttr(tg, attr)
		switch {
		case !r.k.isNil(et):
			e.set[field] = r.samePtr(et)
			e.set[excl] = r.eq(T.Bool(true))
		case !r.k.isNil(t):
			e.set[field] = r.samePtr(t)
		case zero:
			e.set[field] = func(v *T0) bool {
				if isZeroTerm(v) || r.k.St.Nil(v) == 1 {
					return false
				}
				x := r.k.St.Norm(r.k.St.Load(v, types.Typ[types.Float64]))
				return isZeroTerm(x) || x.String() == "f:0" || strings.HasSuffix(x.String(), "f:0") || x.String() == "0"
			}
		}
	}
	switch b.typ {
	case "integer", "number":
		limit("Minimum", "ExclusiveMinimum", "Min", "EMin", b.unsigned)
		limit("Maximum", "ExclusiveMaximum", "Max", "EMax", false)
		e.set["MultipleOf"] = r.samePtr(r.tagAttr(tg, "MulOf"))
	case "string":
		e.set["MaxLength"] = r.samePtr(r.tagAttr(tg, "MaxLen"))
		e.set["MinLength"] = r.samePtr(r.tagAttr(tg, "MinLen"))
		e.set["Pattern"] = r.eq(r.tagAttr(tg, "Pattern"))
	}
	return e
}

// timeType is the place of the one type which is overridden from the start.
const timeType = "go://time#/Time"

// isRef tells whether a schema refers to another one.
func (r *schemaRun) isRef(e *expectation) bool {
	if e.base == nil {
		return e.ref != nil
	}
	spec := r.c.typ("spec", "Schema")
	return !r.k.isNil(r.c.field(r.in, r.c.field(r.in, e.base, spec, "Refable"), r.c.typ("spec", "Refable"), "Ref"))
}

// reference is what refers to a type: the override of the type, or its place.
func (r *schemaRun) reference(g *gty) *expectation {
	k := r.w.known(g)
	if k == nil {
		return &expectation{bad: true}
	}
	pt := r.w.points[k][0]
	text := r.in.T.Call("("+modPath+"/internal/pointer.Pointer).String", types.Typ[types.String], r.k.St.Norm(r.in.T.Field(pt, 0, r.c.typ("pointer", "Pointer"))))
	for f, v := range r.k.St.FactTerms() {
		if f.Op != "has" || len(f.Args) != 2 || r.k.St.Norm(f.Args[1]) != text {
			continue
		}
		if b, ok := v.ConstBool(); ok && b {
			m := f.Args[0]
			if m.Op == "mapver" {
				m = m.Args[0]
			}
			over, _ := r.k.St.MapGet(m, text, r.c.typ("spec", "Schema"))
			return &expectation{base: over, set: map[string]func(*T0) bool{}}
		} else if ok {
			return &expectation{ref: r.in.T.Field(pt, 0, r.c.typ("pointer", "Pointer"))}
		}
	}
	ref := &expectation{ref: r.in.T.Field(pt, 0, r.c.typ("pointer", "Pointer"))}
	switch r.k.St.Truth(r.in.T.Eq(text, r.in.T.Str(timeType))) {
	case 1:
		return &expectation{set: map[string]func(*T0) bool{"Type": r.eq(r.in.T.Str("string"))}}
	case 0:
		return ref
	}
	r.c.violate(r.rule, "override", r.at, "the overridden types are not consulted for a reference to a type")
	return ref
}

// T0 is a term; a name for it which locals cannot hide.
type T0 = psa.Term

// conv is the schema a type stands for.
func (r *schemaRun) conv(g *gty, tg *T, path []*gty) *expectation {
	T := r.in.T
	g = g.underlying()
	for _, x := range path {
		if sameType(x, g) {
			return r.reference(g)
		}
	}
	path = append(path[:len(path):len(path)], g)
	elem := func() *expectation {
		if sameType(g, g.elem) {
			return &expectation{bad: true}
		}
		return r.conv(g.elem, tg, path)
	}
	switch g.kind {
	case "Basic":
		return r.basic(g.bk, tg)
	case "Struct":
		if len(path) == 1 {
			return r.object(g, path)
		}
		return r.reference(g)
	case "Map":
		e := elem()
		if e.bad {
			return e
		}
		return &expectation{set: map[string]func(*T0) bool{
			"Type": r.eq(T.Str("object")), "AdditionalProperties": r.sub(e), "Nullable": r.flag(r.nullable(tg, true)),
			"MinProperties": r.samePtr(r.tagAttr(tg, "MinProps")), "MaxProperties": r.samePtr(r.tagAttr(tg, "MaxProps"))}}
	case "Slice", "Array":
		e := elem()
		if e.bad {
			return e
		}
		x := &expectation{set: map[string]func(*T0) bool{
			"Type": r.eq(T.Str("array")), "Items": r.sub(e), "Nullable": r.flag(r.nullable(tg, g.kind == "Slice")),
			"MinItems": r.samePtr(r.tagAttr(tg, "MinItems")), "MaxItems": r.samePtr(r.tagAttr(tg, "MaxItems")),
			"UniqueItems": r.flag(r.tagAttr(tg, "UniqItems"))}}
		if g.kind == "Array" && r.k.is(T.Mk("lt", nil, types.Typ[types.Bool], T.Int(0), g.n)) {
			x.set["MaxItems"] = func(v *T0) bool {
				return !isZeroTerm(v) && r.k.St.Nil(v) != 1 && r.k.St.Norm(r.k.St.Load(v, types.Typ[types.Int64])) == r.k.St.Norm(g.n)
			}
		}
		return x
	case "Pointer":
		e := elem()
		if e.bad {
			return e
		}
		null := r.nullable(tg, true)
		if !r.isRef(e) {
			e.set["Nullable"] = r.flag(null)
			return e
		}
		if e.base != nil {
			e.set["Nullable"] = func(*T0) bool { return true } // means nothing beside a reference
		}
		if !r.k.is(null) {
			return e
		}
		none := &expectation{set: map[string]func(*T0) bool{"Type": r.eq(T.Str("object")), "Nullable": r.eq(T.Bool(true))}}
		return &expectation{set: map[string]func(*T0) bool{"OneOf": func(v *T0) bool {
			l := r.in.Resolve(r.k.St, v)
			if l.Op != "list" || len(l.Args) != 2 {
				return false
			}
			for _, o := range [][2]int{{0, 1}, {1, 0}} {
				if r.holds(l.Args[o[0]], e) == "" && r.holds(l.Args[o[1]], none) == "" {
					return true
				}
			}
			return false
		}}}
	}
	return &expectation{bad: true}
}

// fieldsOf lists the fields the schema of a struct has.
func (r *schemaRun) fieldsOf(g *gty, path []*gty) (out []*gfield) {
	for _, x := range path {
		if x == g {
			return nil
		}
	}
	path = append(path[:len(path):len(path)], g)
	tri := func(v int, n string, f *gfield) bool {
		if v >= 0 {
			return v == 1
		}
		return r.k.is(r.in.T.Sym(n+" of "+f.sym.String(), types.Typ[types.Bool]))
	}
	for _, f := range g.fields {
		if r.k.is(r.tagAttr(f.tag, "Ignore")) || !tri(f.exported, "exported", f) {
			continue
		}
		u := f.typ.underlying()
		if u.kind == "Pointer" {
			u = u.elem.underlying()
		}
		if u.kind == "Struct" {
			inl := r.tagAttr(f.tag, "Inline")
			is := false
			if r.k.isNil(inl) {
				is = tri(f.embedded, "embedded", f)
			} else {
				is = r.k.is(r.k.St.Norm(r.k.St.Load(inl, types.Typ[types.Bool])))
			}
			if is {
				out = append(out, r.fieldsOf(u, path)...)
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

func (r *schemaRun) object(g *gty, path []*gty) *expectation {
	T := r.in.T
	fs := r.fieldsOf(g, nil)
	type prop struct {
		name *T0
		e    *expectation
		f    *gfield
	}
	var props []prop
	var req []*T0
	for _, f := range fs {
		var e *expectation
		tn := r.tagAttr(f.tag, "Type")
		if r.k.empty(tn) {
			e = r.conv(f.typ, f.tag, path)
		} else {
			s, ok := tn.ConstString()
			t, known := typeNames[strings.Trim(s, " ")]
			switch {
			case !ok || !known:
				e = &expectation{bad: true}
			case t.plain != "":
				e = &expectation{set: map[string]func(*T0) bool{"Type": r.eq(T.Str(t.plain))}}
			default:
				e = r.basic(t.kind, f.tag)
				if t.format != "" {
					e.set["Format"] = r.eq(T.Str(t.format))
				}
			}
		}
		if e.bad {
			return e
		}
		name := r.tagAttr(f.tag, "Name")
		if r.k.empty(name) {
			name = T.Str(f.name)
		}
		if r.k.is(r.tagAttr(f.tag, "Required")) {
			req = append(req, name)
		}
		if !r.isRef(e) {
			e.set["Deprecated"] = r.flag(r.tagAttr(f.tag, "Deprecated"))
			e.set["ReadOnly"] = r.flag(r.tagAttr(f.tag, "ReadOnly"))
			e.set["WriteOnly"] = r.flag(r.tagAttr(f.tag, "WriteOnly"))
			if fm := r.tagAttr(f.tag, "Format"); !r.k.empty(fm) {
				e.set["Format"] = r.eq(fm)
			}
			if n := r.tagAttr(f.tag, "Nullable"); !r.k.isNil(n) {
				e.set["Nullable"] = r.flag(r.k.St.Norm(r.k.St.Load(n, types.Typ[types.Bool])))
			}
		}
		props = append(props, prop{name, e, f})
	}
	return &expectation{set: map[string]func(*T0) bool{
		"Type": r.eq(T.Str("object")),
		"Properties": func(v *T0) bool {
			ks, vs, base := r.k.St.MapEntries(v)
			names := map[*T0]int{}
			for _, p := range props {
				names[r.k.St.Norm(p.name)]++
			}
			if base != nil || len(ks) != len(names) {
				r.c.violate(r.rule, "properties", r.at, fmt.Sprintf("%s has the properties %s", r.what, strings.Join(strs(ks), ", ")))
				return true
			}
			for _, p := range props {
				found := false
				for i := range ks {
					if r.k.St.Norm(ks[i]) != r.k.St.Norm(p.name) {
						continue
					}
					found = true
					if names[r.k.St.Norm(ks[i])] > 1 {
						continue // which of them prevails is not said
					}
					if why := r.holds(vs[i], p.e); why != "" {
						r.c.violate(r.rule, "property", r.at, fmt.Sprintf("the property of a field (%s) of %s: %s", p.f.typ.kind, r.what, why))
					} else {
						r.c.ok(r.rule)
					}
				}
				if !found {
					r.c.violate(r.rule, "properties", r.at, fmt.Sprintf("%s has the properties %s, but not %s", r.what, strings.Join(strs(ks), ", "), str(p.name)))
				}
			}
			return true
		},
		"Required": func(v *T0) bool {
			l := r.in.Resolve(r.k.St, v)
			if len(req) == 0 {
				return l.Op == "nil" || l.Op == "zero" || l.Op == "list" && len(l.Args) == 0
			}
			if l.Op != "list" || len(l.Args) != len(req) {
				return false
			}
			for i := range req {
				if r.k.St.Norm(l.Args[i]) != r.k.St.Norm(req[i]) {
					return false
				}
			}
			return true
		},
	}}
}

func (r *schemaRun) sub(e *expectation) func(*T0) bool {
	return func(v *T0) bool {
		why := r.holds(v, e)
		if why != "" {
			r.c.violate(r.rule, "element", r.at, "the element of "+r.what+": "+why)
		}
		return true
	}
}

// holds says what is wrong with a schema.
func (r *schemaRun) holds(s *T, e *expectation) string {
	st := r.k.St
	s = st.Norm(s)
	if s.Op == "nil" || st.Nil(s) == 1 {
		return "there is no schema"
	}
	got := r.c.schemaFields(r.in, st, s)
	if e.ref != nil {
		for n, v := range got {
			if n == "Ref" {
				x := st.Norm(st.Load(v, r.c.typ("pointer", "Pointer")))
				if x != st.Norm(e.ref) {
					return "it refers to " + str(x) + " instead of " + str(e.ref)
				}
			} else if t := st.Truth(v); !(t == 0) {
				return "a reference has " + n
			}
		}
		if got["Ref"] == nil {
			return "it is no reference to " + str(e.ref) + " but has " + keysOf(got)
		}
		return ""
	}
	typ := r.c.typ("spec", "Schema")
	stt := typ.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		n := stt.Field(i).Name()
		v := got[n]
		if v == nil {
			v = r.in.T.Zero(stt.Field(i).Type())
		}
		if ok := e.set[n]; ok != nil {
			if !ok(v) {
				return "it has " + n + " " + str(v)
			}
			continue
		}
		if e.base != nil {
			want := st.Norm(r.in.T.Field(e.base, i, stt.Field(i).Type()))
			have := st.Norm(r.c.load(r.in, st, s, typ, n))
			if have != want {
				return "it has " + n + " " + str(have) + " instead of that of the override"
			}
			continue
		}
		if n == "Refable" {
			if got["Ref"] != nil {
				return "it refers to something"
			}
			continue
		}
		if got[n] != nil && st.Truth(got[n]) != 0 {
			return "it has " + n + " " + str(v)
		}
	}
	return ""
}

func keysOf(m map[string]*T) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}

// convertArgs are the arguments of the conversion of a type with a tag.
func (c *Ctx) convertArgs(in *psa.Interp, fn *ssa.Function, g *gty, tg *T) []*T {
	args := make([]*T, len(fn.Params))
	seen := 0
	for i, q := range fn.Params {
		switch {
		case shortName(q.Type().String()) == "go/types.Type":
			args[i] = g.val
			seen++
		case shortName(q.Type().String()) == "tag.Tag":
			args[i] = tg
			seen++
		case types.TypeString(q.Type().Underlying(), nil) == "[]go/types.Type":
			args[i] = in.T.Zero(q.Type())
		}
	}
	if seen != 2 {
		c.fatal("anchor", fname(fn)+" no longer converts a type with a tag")
	}
	return args
}

// convert runs the conversion of a type; mk makes it.
func (c *Ctx) convert(rule, what string, mk func(r *schemaRun) (g *gty, tg *T)) {
	in := c.interp()
	fn := c.fnLike("types", "type2schema", "*internal/oapi/spec.Schema,error")
	c.opaque(in, "internal/oapi/scan/types", "internal/oapi/spec")
	w := c.goWorld(in)
	w.pointsT = c.typ("types", "points")
	r := &schemaRun{c: c, in: in, w: w, rule: rule, what: what}
	g, tg := mk(r)
	w.add(g)
	for _, x := range w.all {
		if _, off := w.points[x]; !off && x.kind != "Named" {
			w.points[x] = []*T{in.T.Sym("POINT-"+x.id, c.typ("types", "point"))}
		}
	}
	in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
		return w.model(st, name, f, args, call)
	}
	in.Rec = 9
	args := c.convertArgs(in, fn, g, tg)
	n := 0
	for _, p := range c.run(in, fn, args, nil, nil) {
		r.at, r.p = c.ipos(p.At), p
		if p.Kind != "ret" {
			c.violate(rule, "panic", r.at, "converting "+what+" panics "+c.where(p))
			continue
		}
		n++
		cases(in, p.St, func(k *cs) {
			r.k = k
			e := r.conv(g, tg, nil)
			failed := k.St.Nil(p.Results[1])
			if failed == -1 {
				c.violate(rule, "error", r.at, "it is open whether converting "+what+" fails")
				return
			}
			if e.bad {
				c.expect(failed == 0, rule, "refused", r.at, "%s is converted although it has no schema", what)
				return
			}
			if failed == 0 {
				c.violate(rule, "refused", r.at, what+" cannot be converted "+c.where(p))
				return
			}
			why := r.holds(p.Results[0], e)
			c.expect(why == "", rule, "schema", r.at, "the schema of %s: %s %s", what, why, c.where(p))
		})
	}
	c.expect(n > 0, rule, "schema", c.pos(fn.Pos()), "%s is never converted", what)
	c.sample("%s: %d paths", what, n)
}

func checkG02(c *Ctx) {
	c.explain = "The conversion of Go types is interpreted for every basic kind, and for a field of every type a tag can name, each with an arbitrary tag; the resulting schema is compared, attribute by attribute, with the one the kind and the tag stand for."
	c.rule("kinds", "every basic kind has its type and format, unsigned ones the minimum 0, and the limits of the tag", 20)
	c.rule("unsupported", "kinds which JSON does not have are refused", 3)
	c.rule("named", "the type option stands for the type it names, whatever the field has", 20)
	var ks []int
	for k := range basicKinds {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	for _, k := range ks {
		c.convert("kinds", types.Typ[types.BasicKind(k)].Name(), func(r *schemaRun) (*gty, *T) { return basic(types.BasicKind(k)), r.w.anyTag("TAG", nil) })
	}
	for _, k := range []types.BasicKind{types.Complex64, types.Complex128, types.Uintptr, types.UnsafePointer, types.Invalid} {
		c.convert("unsupported", types.Typ[k].Name(), func(r *schemaRun) (*gty, *T) { return basic(k), r.w.anyTag("TAG", nil) })
	}
	for _, k := range []string{"Chan", "Signature", "Interface"} {
		c.convert("unsupported", k, func(r *schemaRun) (*gty, *T) { return &gty{kind: k}, r.w.anyTag("TAG", nil) })
	}
	var ns []string
	for n := range typeNames {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range append(ns, " int64 ", "nothing known") {
		c.convert("named", "a field of type option "+n, func(r *schemaRun) (*gty, *T) {
			tg := r.w.anyTag("TAG", map[string]*T{"Type": r.in.T.Str(n), "Name": r.in.T.Str(""), "Ignore": r.in.T.Bool(false), "Inline": r.in.T.Nil()})
			return strukt(fld("Field", basic(types.Bool), tg)), r.w.tagOf(nil)
		})
	}
	c.convert("named", "a struct field with a type option", func(r *schemaRun) (*gty, *T) {
		tg := r.w.tagOf(map[string]*T{"Type": r.in.T.Str("string")})
		return strukt(fld("Field", strukt(fld("Inner", basic(types.Bool), r.w.tagOf(nil))), tg)), r.w.tagOf(nil)
	})
}

func checkG03(c *Ctx) {
	c.explain = "The conversion of Go types is interpreted for maps, slices, arrays, pointers and structs in one another, with an arbitrary tag; the resulting schema is compared, attribute by attribute and level by level, with the one the type and the tag stand for."
	c.rule("composite", "maps are objects with additional properties, slices and arrays are arrays of their elements, and the limits of the tag apply", 6)
	c.rule("pointer", "a pointer is what it points to, nullable unless the tag says otherwise; a nullable reference is one of the reference and null", 4)
	c.rule("reference", "a struct inside another type, and a type which is being converted, is referred to by its place, unless it is overridden", 4)
	c.rule("unknown", "a type of which no place is known is refused", 2)
	str := func() *gty { return basic(types.String) }
	one := func(r *schemaRun) *gty { return strukt(fld("Inner", basic(types.Bool), r.w.tagOf(nil))) }
	lim := func(r *schemaRun, on ...string) *T { // only some attributes are open
		m := map[string]*T{}
		any := r.w.anyTag("TAG", nil)
		for _, n := range on {
			m[n] = r.c.field(r.in, any, r.c.typ("tag", "Tag"), n)
		}
		return r.w.tagOf(m)
	}
	i64 := types.Typ[types.Int64]
	for _, x := range []struct {
		rule, what string
		mk         func(r *schemaRun) (*gty, *T)
	}{
		{"composite", "a map of strings", func(r *schemaRun) (*gty, *T) { return gmap(str()), r.w.anyTag("TAG", nil) }},
		{"composite", "a slice of integers", func(r *schemaRun) (*gty, *T) { return slice(basic(types.Int)), r.w.anyTag("TAG", nil) }},
		{"composite", "an array of strings", func(r *schemaRun) (*gty, *T) { return array(str(), r.in.T.Sym("LENGTH", i64)), r.w.anyTag("TAG", nil) }},
		{"composite", "an array without elements", func(r *schemaRun) (*gty, *T) { return array(str(), r.in.T.Int(0)), r.w.anyTag("TAG", nil) }},
		{"composite", "a slice of slices", func(r *schemaRun) (*gty, *T) {
			return slice(slice(str())), lim(r, "MinItems", "MaxItems", "UniqItems", "Nullable", "MaxLen")
		}},
		{"composite", "a map of slices of arrays", func(r *schemaRun) (*gty, *T) {
			return gmap(slice(array(str(), r.in.T.Int(4)))), lim(r, "MinItems", "MaxProps", "MinProps", "Nullable")
		}},
		{"composite", "a named slice of named strings", func(r *schemaRun) (*gty, *T) {
			return named("L", slice(named("S", str()))), lim(r, "MinItems", "Nullable", "Pattern")
		}},
		{"pointer", "a pointer to a string", func(r *schemaRun) (*gty, *T) { return ptr(str()), r.w.anyTag("TAG", nil) }},
		{"pointer", "a pointer to a slice", func(r *schemaRun) (*gty, *T) { return ptr(slice(str())), lim(r, "MaxItems", "Nullable") }},
		{"pointer", "a pointer to a struct", func(r *schemaRun) (*gty, *T) { return ptr(one(r)), r.w.anyTag("TAG", nil) }},
		{"pointer", "a pointer to a pointer to a struct", func(r *schemaRun) (*gty, *T) { return ptr(ptr(one(r))), lim(r, "Nullable") }},
		{"pointer", "a slice of pointers to structs", func(r *schemaRun) (*gty, *T) { return slice(ptr(one(r))), lim(r, "Nullable", "MinItems") }},
		{"pointer", "a map of pointers to integers", func(r *schemaRun) (*gty, *T) { return gmap(ptr(basic(types.Int64))), lim(r, "Nullable", "Min", "EMax") }},
		{"reference", "a slice of structs", func(r *schemaRun) (*gty, *T) { return slice(one(r)), r.w.anyTag("TAG", nil) }},
		{"reference", "a map of structs", func(r *schemaRun) (*gty, *T) { return gmap(named("S", one(r))), lim(r, "Nullable") }},
		{"reference", "an array of structs", func(r *schemaRun) (*gty, *T) { return array(one(r), r.in.T.Int(3)), lim(r, "Nullable") }},
		{"reference", "a slice of itself", func(r *schemaRun) (*gty, *T) {
			g := named("L", slice(nil))
			g.elem.elem = g
			return g, lim(r, "Nullable")
		}},
		{"reference", "a map of pointers to itself", func(r *schemaRun) (*gty, *T) {
			g := named("M", gmap(ptr(nil)))
			g.elem.elem.elem = g
			return g, lim(r, "Nullable")
		}},
		{"unknown", "a slice of structs nobody knows", func(r *schemaRun) (*gty, *T) {
			s := one(r)
			r.w.points[s] = nil
			return slice(s), lim(r, "Nullable")
		}},
		{"unknown", "a map of channels", func(r *schemaRun) (*gty, *T) { return gmap(&gty{kind: "Chan"}), lim(r, "Nullable") }},
		{"unknown", "a slice of pointers to functions", func(r *schemaRun) (*gty, *T) { return slice(ptr(&gty{kind: "Signature"})), lim(r, "Nullable") }},
		{"unknown", "an array of interfaces", func(r *schemaRun) (*gty, *T) {
			return array(&gty{kind: "Interface"}, r.in.T.Int(2)), lim(r, "Nullable")
		}},
	} {
		c.convert(x.rule, x.what, x.mk)
	}
}

func checkG04(c *Ctx) {
	c.explain = "The conversion of Go structs is interpreted for fields of every sort - plain, tagged, unexported, embedded, inlined, recursive - with arbitrary tags; the properties, their names, which are required, and the attributes of each property are compared with those the fields stand for."
	c.rule("fields", "every exported field which is not ignored is a property under its tag name or its own name", 8)
	c.rule("attributes", "required, deprecated, read only, write only, format and nullable of the tag are those of the property", 4)
	c.rule("inline", "the fields of embedded and inlined structs are properties of the struct itself, those of other structs are not", 6)
	c.rule("recursive", "structs which embed or contain themselves are converted, too", 3)
	c.rule("errors", "what cannot be converted is reported", 3)
	str := func() *gty { return basic(types.String) }
	lim := func(r *schemaRun, name string, on ...string) *T {
		m := map[string]*T{}
		any := r.w.anyTag(name, nil)
		for _, n := range on {
			m[n] = r.c.field(r.in, any, r.c.typ("tag", "Tag"), n)
		}
		return r.w.tagOf(m)
	}
	nameIs := func(r *schemaRun, n string, on ...string) *T {
		m := map[string]*T{"Name": r.in.T.Str(n)}
		any := r.w.anyTag(n, nil)
		for _, n := range on {
			m[n] = r.c.field(r.in, any, r.c.typ("tag", "Tag"), n)
		}
		return r.w.tagOf(m)
	}
	no := func(r *schemaRun) *T { return r.w.tagOf(nil) }
	for _, x := range []struct {
		rule, what string
		mk         func(r *schemaRun) *gty
	}{
		{"fields", "a struct without fields", func(r *schemaRun) *gty { return strukt() }},
		{"fields", "a struct of one field", func(r *schemaRun) *gty {
			f := fld("Field", str(), lim(r, "A", "Name", "Ignore", "Required", "Inline"))
			f.exported, f.embedded = -1, -1
			return named("T", strukt(f))
		}},
		{"fields", "a struct of three fields", func(r *schemaRun) *gty {
			a, b, d := fld("A", str(), nameIs(r, "a", "Ignore", "Required")), fld("B", basic(types.Int), nameIs(r, "", "Ignore", "Required")), fld("C", basic(types.Bool), nameIs(r, "c", "Ignore", "Required"))
			b.exported = -1
			return strukt(a, b, d)
		}},
		{"fields", "a struct with slices, maps and arrays", func(r *schemaRun) *gty {
			return strukt(fld("A", slice(str()), nameIs(r, "", "MinItems")), fld("B", gmap(basic(types.Int)), nameIs(r, "", "MaxProps")), fld("C", array(str(), r.in.T.Int(2)), nameIs(r, "", "Nullable")))
		}},
		{"fields", "a struct of structs", func(r *schemaRun) *gty {
			in := named("Other", strukt(fld("X", str(), no(r))))
			return strukt(fld("A", in, nameIs(r, "a", "Required", "Nullable", "Deprecated")), fld("B", ptr(in), nameIs(r, "", "Nullable", "Deprecated", "Format")))
		}},
		{"fields", "a struct with a slice of pointers to structs", func(r *schemaRun) *gty {
			return strukt(fld("A", slice(ptr(named("Other", strukt(fld("X", str(), no(r)))))), nameIs(r, "a", "Nullable")))
		}},
		{"attributes", "a struct with an arbitrarily tagged string", func(r *schemaRun) *gty {
			return strukt(fld("A", str(), r.w.anyTag("A", map[string]*T{"Type": r.in.T.Str(""), "Ignore": r.in.T.Bool(false)})))
		}},
		{"attributes", "a struct with an arbitrarily tagged integer", func(r *schemaRun) *gty {
			return strukt(fld("A", basic(types.Uint32), r.w.anyTag("A", map[string]*T{"Type": r.in.T.Str(""), "Ignore": r.in.T.Bool(false), "Name": r.in.T.Str("a")})))
		}},
		{"attributes", "a struct with an arbitrarily tagged slice", func(r *schemaRun) *gty {
			return strukt(fld("A", slice(str()), r.w.anyTag("A", map[string]*T{"Type": r.in.T.Str(""), "Ignore": r.in.T.Bool(false), "Name": r.in.T.Str("a"), "Pattern": r.in.T.Str("")})))
		}},
		{"attributes", "a struct with an arbitrarily tagged pointer", func(r *schemaRun) *gty {
			return strukt(fld("A", ptr(basic(types.Bool)), r.w.anyTag("A", map[string]*T{"Type": r.in.T.Str(""), "Ignore": r.in.T.Bool(false), "Name": r.in.T.Str("a")})))
		}},
		{"attributes", "a struct with two tagged fields", func(r *schemaRun) *gty {
			return strukt(fld("A", str(), nameIs(r, "a", "Format", "ReadOnly", "Nullable")), fld("B", str(), nameIs(r, "b", "Deprecated", "WriteOnly", "Format")))
		}},
		{"inline", "a struct with a struct which may be inlined", func(r *schemaRun) *gty {
			f := fld("A", named("Other", strukt(fld("X", str(), no(r)), fld("Y", str(), nameIs(r, "why", "Required")))), nameIs(r, "a", "Inline", "Ignore"))
			f.embedded, f.exported = -1, -1
			return strukt(f, fld("B", str(), no(r)))
		}},
		{"inline", "a struct with a pointer which may be inlined", func(r *schemaRun) *gty {
			f := fld("A", ptr(named("Other", strukt(fld("X", basic(types.Int), no(r))))), nameIs(r, "", "Inline"))
			f.embedded = -1
			return strukt(fld("B", str(), nameIs(r, "", "Required")), f)
		}},
		{"inline", "a struct with an empty struct which may be inlined", func(r *schemaRun) *gty {
			f := fld("A", strukt(), nameIs(r, "a", "Inline"))
			f.embedded = -1
			return strukt(f, fld("B", str(), no(r)))
		}},
		{"inline", "a struct with nested embedded structs", func(r *schemaRun) *gty {
			in := named("Inner", strukt(fld("Z", str(), nameIs(r, "z", "Ignore", "Required"))))
			return strukt(fld("A", str(), no(r)), emb("Mid", named("Mid", strukt(emb("Inner", ptr(in), no(r)), fld("Y", str(), no(r)))), no(r)), fld("C", str(), no(r)))
		}},
		{"inline", "a struct with deeply embedded structs", func(r *schemaRun) *gty {
			in := named("E0", strukt(fld("Z", str(), nameIs(r, "z", "Required"))))
			for _, n := range []string{"E1", "E2", "E3", "E4", "E5"} {
				in = named(n, strukt(fld("F"+n, basic(types.Int), no(r)), emb(in.name, ptr(in), no(r))))
			}
			return in
		}},
		{"inline", "a struct with an embedded string", func(r *schemaRun) *gty { return strukt(emb("S", named("S", str()), nameIs(r, "", "Inline"))) }},
		{"inline", "a struct embedding one struct twice", func(r *schemaRun) *gty {
			in := named("Inner", strukt(fld("Z", str(), no(r))))
			return strukt(emb("A", named("A", strukt(emb("Inner", in, no(r)))), no(r)), fld("B", in, nameIs(r, "", "Inline")))
		}},
		{"inline", "a struct with a slice to be inlined", func(r *schemaRun) *gty {
			return strukt(fld("S", slice(strukt(fld("Z", str(), no(r)))), nameIs(r, "", "Inline")))
		}},
		{"recursive", "a struct embedding a pointer to itself", func(r *schemaRun) *gty {
			g := named("T", strukt(fld("A", str(), nameIs(r, "a", "Required")), nil, fld("B", str(), no(r))))
			g.elem.fields[1] = emb("T", ptr(g), nameIs(r, "t", "Inline"))
			return g
		}},
		{"recursive", "a struct containing pointers to itself", func(r *schemaRun) *gty {
			g := named("T", strukt(fld("A", str(), no(r)), nil, nil))
			g.elem.fields[1] = fld("Next", ptr(g), nameIs(r, "", "Nullable", "Required"))
			g.elem.fields[2] = fld("All", slice(g), no(r))
			return g
		}},
		{"recursive", "structs embedding each other", func(r *schemaRun) *gty {
			a := named("A", strukt(fld("X", str(), no(r)), nil))
			b := named("B", strukt(fld("Y", str(), no(r)), emb("A", ptr(a), no(r))))
			a.elem.fields[1] = emb("B", ptr(b), no(r))
			return a
		}},
		{"errors", "a struct with a channel", func(r *schemaRun) *gty {
			return strukt(fld("A", str(), no(r)), fld("C", &gty{kind: "Chan"}, nameIs(r, "", "Ignore")), fld("B", str(), no(r)))
		}},
		{"errors", "a struct with an unknown struct", func(r *schemaRun) *gty {
			s := strukt(fld("X", str(), no(r)))
			r.w.points[s] = nil
			return strukt(fld("A", s, no(r)), fld("B", str(), no(r)))
		}},
		{"errors", "a struct with an unknown type option", func(r *schemaRun) *gty {
			return strukt(fld("A", str(), r.w.tagOf(map[string]*T{"Type": r.in.T.Str("nothing known")})), fld("B", str(), no(r)))
		}},
		{"errors", "a struct with an interface", func(r *schemaRun) *gty {
			f := fld("A", &gty{kind: "Interface"}, no(r))
			f.exported = -1
			return strukt(f, fld("B", str(), no(r)))
		}},
	} {
		c.convert(x.rule, x.what, func(r *schemaRun) (*gty, *T) { return x.mk(r), r.w.tagOf(nil) })
	}
	c.badTags()
}

// badTags decides that a tag which cannot be parsed is reported.
func (c *Ctx) badTags() {
	in := c.interp()
	fn := c.fnLike("types", "type2schema", "*internal/oapi/spec.Schema,error")
	c.opaque(in, "internal/oapi/scan/types", "internal/oapi/spec")
	w := c.goWorld(in)
	w.pointsT = c.typ("types", "points")
	w.tagFails = true
	in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
		return w.model(st, name, f, args, call)
	}
	in.Rec = 9
	no := w.tagOf(nil)
	g := w.add(strukt(fld("A", basic(types.String), no), emb("E", strukt(fld("X", basic(types.Int), no)), no), fld("B", basic(types.String), no)))
	args := c.convertArgs(in, fn, g, no)
	n := 0
	for _, p := range c.run(in, fn, args, nil, nil) {
		if p.Kind != "ret" {
			c.violate("errors", "tag", c.ipos(p.At), "a tag which cannot be parsed makes the conversion panic")
			continue
		}
		broken := false
		for f, v := range p.St.FactTerms() {
			if strings.Contains(f.String(), "tag error of ") && f.Op == "eq" {
				if b, ok := v.ConstBool(); ok && !b {
					broken = true
				}
			}
		}
		if broken {
			n++
			c.expect(fails(p), "errors", "tag", c.ipos(p.At), "a tag which cannot be parsed is not reported")
		}
	}
	c.expect(n > 2, "errors", "tag", c.pos(fn.Pos()), "only %d ways to meet a broken tag", n)
}
