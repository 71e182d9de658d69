package main

import (
	"fmt"
	"go/types"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

// gty is a Go type the scanned program might have.
type gty struct {
	kind   string // Basic, Named, Struct, Pointer, Slice, Array, Map, Chan, Interface, Signature
	bk     types.BasicKind
	elem   *gty
	n      *T // length of an array
	fields []*gfield
	name   string // of a named type
	nopkg  bool   // named without a package: error
	pkg    string // path of its package

	sym, val, obj *T
	id            string
}

// gfield is a field of a struct type.
type gfield struct {
	name               string
	typ                *gty
	exported, embedded int // 1, 0, -1 unknown
	tag                *T  // what parsing its tag yields
	noTag              bool

	sym, raw *T
}

// goWorld answers the calls the scanner makes to go/types, for types of our
// making.
type goWorld struct {
	c    *Ctx
	in   *psa.Interp
	syms map[*T]*gty
	objs map[*T]*gty
	vars map[*T]*gfield
	raws map[*T]*gfield
	all  []*gty
	// points are what has been collected for a type, nil if nothing is known of
	// it.
	points   map[*gty][]*T
	pointsT  types.Type
	shadow   *T // the map of types, if it is written
	tagFails bool
	scanned  string // the path of the scanned package
	scope    map[string]*gty
	pkgs     map[*T]string
}

func (c *Ctx) goWorld(in *psa.Interp) *goWorld {
	w := &goWorld{c: c, in: in, syms: map[*T]*gty{}, objs: map[*T]*gty{}, vars: map[*T]*gfield{}, raws: map[*T]*gfield{}, points: map[*gty][]*T{}, pkgs: map[*T]string{}}
	return w
}

// add makes the terms of a type and of everything in it.
func (w *goWorld) add(g *gty) *gty {
	if g == nil || g.sym != nil {
		return g
	}
	T := w.in.T
	g.id = fmt.Sprintf("type%d", len(w.all)+1)
	w.all = append(w.all, g)
	tt := types.NewPointer(importedType(w.c, "go/types", g.kind))
	g.sym = T.Sym(g.id+":"+g.kind, tt)
	g.val = T.Mk("iface", nil, tt, g.sym)
	w.syms[g.sym] = g
	if g.kind == "Named" {
		ot := types.NewPointer(importedType(w.c, "go/types", "TypeName"))
		g.obj = T.Sym(g.id+":object", ot)
		w.objs[g.obj] = g
	}
	w.add(g.elem)
	for i, f := range g.fields {
		f.sym = T.Sym(fmt.Sprintf("%s:field%d", g.id, i), types.NewPointer(importedType(w.c, "go/types", "Var")))
		f.raw = T.Sym(fmt.Sprintf("%s:tag%d", g.id, i), types.Typ[types.String])
		w.vars[f.sym] = f
		w.raws[f.raw] = f
		w.add(f.typ)
	}
	return g
}

func basic(k types.BasicKind) *gty         { return &gty{kind: "Basic", bk: k} }
func slice(e *gty) *gty                    { return &gty{kind: "Slice", elem: e} }
func array(e *gty, n *T) *gty              { return &gty{kind: "Array", elem: e, n: n} }
func gmap(e *gty) *gty                     { return &gty{kind: "Map", elem: e} }
func ptr(e *gty) *gty                      { return &gty{kind: "Pointer", elem: e} }
func named(n string, u *gty) *gty          { return &gty{kind: "Named", name: n, elem: u} }
func strukt(fs ...*gfield) *gty            { return &gty{kind: "Struct", fields: fs} }
func fld(n string, t *gty, tag *T) *gfield { return &gfield{name: n, typ: t, exported: 1, tag: tag} }
func emb(n string, t *gty, tag *T) *gfield {
	return &gfield{name: n, typ: t, exported: 1, embedded: 1, tag: tag}
}
func (g *gty) underlying() *gty {
	if g.kind == "Named" {
		return g.elem.underlying()
	}
	return g
}

func (g *gty) pkgPath() string {
	if g.pkg == "" {
		return "example.com/pkg"
	}
	return g.pkg
}

func sameType(a, b *gty) bool {
	if a == b {
		return true
	}
	if a.kind != b.kind {
		return false
	}
	switch a.kind {
	case "Basic":
		return a.bk == b.bk
	case "Slice", "Pointer", "Map":
		return sameType(a.elem, b.elem)
	case "Array":
		return a.n == b.n && sameType(a.elem, b.elem)
	}
	return false
}

func rootOf(t *T) *T {
	t = strip(t)
	for t != nil && t.Op == "addr" {
		t = t.Args[0]
	}
	return t
}

func (w *goWorld) typeOf(st *psa.State, t *T) *gty { return w.syms[rootOf(st.Norm(t))] }

const typeMap = "(*golang.org/x/tools/go/types/typeutil.Map)."

func (w *goWorld) model(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
	T := w.in.T
	ret := func(v *psa.Term) []psa.Ret { return []psa.Ret{{St: st, Kind: "ret", Val: v}} }
	tri := func(v int, n string, x *psa.Term) *psa.Term {
		if v >= 0 {
			return T.Bool(v == 1)
		}
		return T.Sym(n+" of "+x.String(), types.Typ[types.Bool])
	}
	switch {
	case strings.Contains(name, "go/types.") && len(args) > 0 && strings.Contains(name, ")."):
		m := name[strings.LastIndex(name, ".")+1:]
		r := rootOf(args[0])
		if g := w.syms[r]; g != nil {
			switch m {
			case "Underlying":
				return ret(g.underlying().val)
			case "Elem":
				if g.elem != nil && g.kind != "Named" {
					return ret(g.elem.val)
				}
			case "Kind":
				if g.kind == "Basic" {
					return ret(T.Int(int64(g.bk)))
				}
			case "Len":
				if g.n != nil {
					return ret(g.n)
				}
			case "NumFields":
				return ret(T.Int(int64(len(g.fields))))
			case "Field", "Tag":
				i, ok := st.Norm(args[1]).ConstInt()
				if !ok || int(i) >= len(g.fields) || i < 0 {
					return nil
				}
				if m == "Field" {
					return ret(g.fields[i].sym)
				}
				return ret(g.fields[i].raw)
			case "Obj":
				return ret(g.obj)
			case "String":
				return ret(T.Str(g.id))
			}
		}
		if g := w.objs[r]; g != nil {
			switch m {
			case "Name":
				return ret(T.Str(g.name))
			case "Type":
				return ret(g.val)
			case "Exported":
				return ret(T.Sym("exported "+r.String(), tBool))
			case "Pkg":
				if g.nopkg {
					return ret(T.Nil())
				}
				p := T.Sym("PKG:"+g.pkgPath(), call.Typ)
				w.pkgs[p] = g.pkgPath()
				st.Assume(T.Eq(p, T.Nil()), false)
				return ret(p)
			}
		}
		if v := w.vars[r]; v != nil {
			switch m {
			case "Name":
				return ret(T.Str(v.name))
			case "Type":
				return ret(v.typ.val)
			case "Exported":
				return ret(tri(v.exported, "exported", r))
			case "Embedded", "Anonymous":
				return ret(tri(v.embedded, "embedded", r))
			}
		}
		if m == "Path" && w.pkgs[r] != "" {
			return ret(T.Str(w.pkgs[r]))
		}
		if w.scope != nil {
			switch {
			case m == "Path":
				return ret(T.Str(w.scanned))
			case m == "Lookup":
				if n, ok := st.Norm(args[1]).ConstString(); ok {
					if g := w.scope[n]; g != nil {
						return ret(T.Mk("iface", nil, g.obj.Typ, g.obj))
					}
					return ret(T.Nil())
				}
			}
		}
	case name == "go/types.Identical" || name == "go/types.IdenticalIgnoreTags":
		a, b := w.typeOf(st, args[0]), w.typeOf(st, args[1])
		if a != nil && b != nil {
			return ret(T.Bool(sameType(a, b)))
		}
	case name == typeMap+"At":
		g := w.typeOf(st, args[1])
		if g == nil {
			return nil
		}
		if w.shadow != nil {
			v, has := st.MapGet(w.shadow, T.Str(w.rep(g).id), anyType)
			if st.Truth(has) == 1 {
				return ret(v)
			}
			return ret(T.Nil())
		}
		g = w.known(g)
		if g == nil {
			return ret(T.Nil())
		}
		return ret(T.Mk("iface", nil, w.pointsT, T.Mk("list", nil, w.pointsT, w.points[g]...)))
	case name == typeMap+"Set" && w.shadow != nil:
		g := w.typeOf(st, args[1])
		if g == nil {
			return nil
		}
		st.MapSet(w.shadow, T.Str(w.rep(g).id), args[2])
		return ret(T.Nil())
	case shortName(name) == "tag.Parse":
		fd := w.raws[st.Norm(args[0])]
		if fd == nil {
			return nil
		}
		okv := []psa.Ret{{St: st, Kind: "ret", Val: T.Mk("agg", nil, call.Typ, fd.tag, T.Nil())}}
		if w.tagFails {
			st2 := st.Clone()
			e := T.Sym("tag error of "+fd.name, types.Universe.Lookup("error").Type())
			st2.Assume(T.Eq(e, T.Nil()), false)
			okv = append(okv, psa.Ret{St: st2, Kind: "ret", Val: T.Mk("agg", nil, call.Typ, T.Sym("partial tag", w.c.typ("tag", "Tag")), e)})
		}
		return okv
	}
	return nil
}

// rep is the first type identical to g.
func (w *goWorld) rep(g *gty) *gty {
	for _, x := range w.all {
		if sameType(x, g) {
			return x
		}
	}
	return g
}

func (w *goWorld) known(g *gty) *gty {
	for _, x := range w.all {
		if w.points[x] != nil && sameType(x, g) {
			return x
		}
	}
	return nil
}

// tagOf makes a tag of which the given attributes are known and the others are
// absent.
func (w *goWorld) tagOf(attrs map[string]*T) *T {
	tt := w.c.typ("tag", "Tag")
	st := tt.Underlying().(*types.Struct)
	var fs []*T
	for i := 0; i < st.NumFields(); i++ {
		v := attrs[st.Field(i).Name()]
		if v == nil {
			v = w.in.T.Zero(st.Field(i).Type())
		}
		fs = append(fs, v)
	}
	return w.in.T.Mk("agg", nil, tt, fs...)
}

// anyTag makes an arbitrary tag, except for the given attributes.
func (w *goWorld) anyTag(name string, attrs map[string]*T) *T {
	tt := w.c.typ("tag", "Tag")
	st := tt.Underlying().(*types.Struct)
	var fs []*T
	for i := 0; i < st.NumFields(); i++ {
		v := attrs[st.Field(i).Name()]
		if v == nil {
			v = w.in.T.Sym(name+"."+st.Field(i).Name(), st.Field(i).Type())
		}
		fs = append(fs, v)
	}
	return w.in.T.Mk("agg", nil, tt, fs...)
}

// schema reads the fields of a schema which are set.
func (c *Ctx) schemaFields(in *psa.Interp, st *psa.State, s *T) map[string]*T {
	out := map[string]*T{}
	typ := c.typ("spec", "Schema")
	stt := typ.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		v := st.Norm(c.load(in, st, s, typ, f.Name()))
		if f.Name() == "Refable" {
			v = st.Norm(c.field(in, v, f.Type(), "Ref"))
			if !isZeroTerm(v) {
				out["Ref"] = v
			}
			continue
		}
		if !isZeroTerm(v) && st.Nil(v) != 1 {
			out[f.Name()] = v
		}
	}
	return out
}

// wantSchema compares the fields of a schema with those wanted; the values are
// compared by same, nil standing for a value which is decided elsewhere.
func wantSchema(k *cs, c *Ctx, got map[string]*T, want map[string]func(v *T) bool, rule, construct, at, what string) {
	for n, ok := range want {
		v := got[n]
		if v == nil {
			v = k.in.T.Nil()
		}
		c.expect(ok(v), rule, construct, at, "%s has %s %s", what, n, str(v))
	}
	for n, v := range got {
		if want[n] == nil && !isZeroTerm(v) {
			if b, isB := v.Typ.(*types.Basic); isB && b.Kind() == types.Bool && k.St.Truth(v) == 0 {
				continue
			}
			c.violate(rule, construct, at, what+" has "+n+" "+str(v))
		}
	}
}
