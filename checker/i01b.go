package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

// keysAsText decides the conversion of decoded YAML on its own.
func (c *Ctx) keysAsText() {
	// what Make wraps
	fn := c.fn("container", "Make")
	at := c.pos(fn.Pos())
	docs := map[string]*ydoc{
		"an object with number keys": yobj(false, "#one", yobj(false, "#two", yleaf("s1")), "k", ylist(yobj(false, "#three", yleaf("n1")))),
		"a list of objects":          ylist(yobj(false, "#one", yleaf("s1")), yobj(true, "k", yobj(false, "#two", yleaf("n1")))),
		"text keys":                  yobj(true, "k", yobj(true, "l", yobj(false, "#one", ylist(ylist(yobj(false, "m", yleaf("b1"))))))),
		"a scalar":                   yleaf("s1"),
		"nothing":                    yleaf("null"),
	}
	for what, d := range docs {
		in := c.interp()
		T := in.T
		c.opaque(in, "internal/container")
		in.Rec = 9
		st := in.NewState()
		dec := c.decoders(in, nil)
		in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
			if shortName(name) == "encoding/json.Marshal" {
				s := d.holds(in, st, args[0])
				st.Emit(&psa.Event{Kind: "call", Callee: "ENCODE", Args: []*T0{T.Str(s)}, Instr: call.Instr})
				return forkErr(in, st, call, "unwritable", T.Sym("BYTES", types.NewSlice(types.Typ[types.Byte])))
			}
			if name == jsonUn && st.Norm(args[0]) == T.Sym("BYTES", types.NewSlice(types.Typ[types.Byte])) {
				// what has been encoded can be decoded again into anything
				if pt, ok := st.Norm(args[1]).Typ.(*types.Pointer); ok && isAnyType(pt.Elem()) {
					st.Store(strip(st.Norm(args[1])), T.Sym("DECODED", pt.Elem()))
					return []psa.Ret{{St: st, Kind: "ret", Val: T.Nil()}}
				}
			}
			return dec(st, name, f, args, call)
		}
		n := 0
		for _, p := range c.run(in, fn, []*T0{d.build(in, st, "VALUE")}, nil, st) {
			if !c.expect(p.Kind == "ret", "keys", what, c.ipos(p.At), "making a document can end in a %s", p.Kind) {
				continue
			}
			for _, e := range p.Events {
				if e.Kind == "call" && e.Callee == "ENCODE" {
					n++
					s, _ := e.Args[0].ConstString()
					c.expect(s == "", "keys", what, c.ipos(e.Instr), "%s is not encoded with its keys as text: %s", what, s)
				}
			}
			c.expect(fails(p) == hasFailed(in, p.St, "unwritable") || !mayFail(p), "keys", what, at, "the document of %s cannot be made without a reason %s", what, c.where(p))
		}
		c.expect(n > 0, "keys", what, at, "%s is not encoded", what)
	}
}

// childrenMap decides what the children of a document are.
func (c *Ctx) childrenMap() {
	fn := c.method("container", "Container", "ChildrenMap")
	at := c.pos(fn.Pos())
	ctT := c.typ("container", "Container")
	for _, what := range []string{"object", "empty object", "null", "list", "text"} {
		in := c.interp()
		T := in.T
		c.opaque(in, "internal/container")
		in.Rec = 9
		st := in.NewState()
		gT := ctT.Underlying().(*types.Struct).Field(fieldIndex(ctT, "c")).Type()
		g := T.Sym("GABS", gT)
		st.Assume(T.Eq(g, T.Nil()), false)
		path := T.Sym("PATH", tString)
		n := 2
		if what == "empty object" {
			n = 0
		}
		kids, keys, vals := mapOf(in, st, "CHILDREN", types.NewMap(tString, gT), n)
		var data *T0
		switch what {
		case "null":
			data = T.Nil()
		case "list":
			data = T.Mk("iface", nil, types.NewSlice(anyType), listTerm(in, anyType, T.Nil()))
		case "text":
			data = yscalar(in, "scalar")
		default:
			m, _, _ := mapOf(in, st, "DATA", mapAny, n)
			data = T.Mk("iface", nil, mapAny, m)
		}
		in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
			switch name {
			case gabsC + "Data":
				if st.Norm(args[0]) == g {
					return []psa.Ret{{St: st, Kind: "ret", Val: data}}
				}
			case gabsC + "ChildrenMap":
				if st.Norm(args[0]) != g {
					return nil
				}
				if strings.Contains(what, "object") {
					return []psa.Ret{{St: st, Kind: "ret", Val: kids}}
				}
				return []psa.Ret{{St: st, Kind: "ret", Val: st.NewMap("NONE", types.NewMap(tString, gT))}}
			}
			return nil
		}
		recv := T.Mk("agg", nil, ctT, c.containerFields(in, g, path)...)
		n2 := 0
		for _, p := range c.run(in, fn, []*T0{recv}, nil, st) {
			if !c.expect(p.Kind == "ret", "children", what, c.ipos(p.At), "listing the children of a document which is %s can end in a %s", what, p.Kind) {
				continue
			}
			n2++
			if what == "list" || what == "text" {
				c.expect(fails(p), "children", what, at, "the children of a %s are not refused", what)
				continue
			}
			if !c.expect(!mayFail(p), "children", what, at, "the children of a document which is %s are refused", what) {
				continue
			}
			ks, vs, base := p.St.MapEntries(p.Results[0])
			want := keys
			if what == "null" {
				want = nil
			}
			if !c.expect(base == nil && len(ks) == len(want), "children", what, at, "a document which is %s has %d children, not %d", what, len(ks), len(want)) {
				continue
			}
			for i, k := range want {
				ok := false
				for j := range ks {
					if p.St.Norm(ks[j]) == k {
						ok = in.Resolve(p.St, c.field(in, p.St.Norm(vs[j]), ctT, "c")) == vals[i]
						pt := p.St.Norm(c.field(in, p.St.Norm(vs[j]), ctT, "path"))
						c.expect(pt == path, "children", what, at, "the path of a child is %s", str(pt))
					}
				}
				c.expect(ok, "children", what, at, "the entry %s of an object is not its child of that name", str(k))
			}
		}
		c.expect(n2 > 0, "children", what, at, "nothing is listed")
	}
}

// containerFields are the fields of a container.
func (c *Ctx) containerFields(in *psa.Interp, g, path *T) []*T {
	ctT := c.typ("container", "Container")
	s := ctT.Underlying().(*types.Struct)
	out := make([]*T, s.NumFields())
	for i := range out {
		out[i] = in.T.Zero(s.Field(i).Type())
	}
	for n, v := range map[string]*T0{"c": g, "path": path} {
		i := fieldIndex(ctT, n)
		if i < 0 {
			c.fatal("anchor", "field "+n+" of a container is gone")
		}
		out[i] = v
	}
	return out
}

// accessors decides the methods which hand over to the library.
func (c *Ctx) accessors() {
	ctT := c.typ("container", "Container")
	gT := ctT.Underlying().(*types.Struct).Field(fieldIndex(ctT, "c")).Type()
	strs := []types.Type{tString, tString}
	for _, a := range []struct {
		name, lib string
		args      []types.Type
		data      bool // it works on the content
	}{
		{"ExistsP", gabsC + "ExistsP", strs[:1], false},
		{"Data", gabsC + "Data", nil, false},
		{"Flatten", gabsC + "Flatten", nil, false},
		{"Bytes", gabsC + "Bytes", nil, false},
		{"Path", gabsC + "Path", strs[:1], false},
		{"MarshalJSON", "encoding/json.Marshal", nil, true},
		{"MarshalIndentJSON", "encoding/json.MarshalIndent", strs, true},
		{"MarshalYAML", "gopkg.in/yaml.v2.Marshal", nil, true},
		{"FilePath", "", nil, false},
	} {
		fn := c.method("container", "Container", a.name)
		at := c.pos(fn.Pos())
		in := c.interp()
		T := in.T
		c.opaque(in, "internal/container")
		in.Rec = 9
		st := in.NewState()
		g := T.Sym("GABS", gT)
		st.Assume(T.Eq(g, T.Nil()), false)
		data := T.Sym("CONTENT", anyType)
		in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
			if name == gabsC+"Data" && st.Norm(args[0]) == g && a.data {
				return []psa.Ret{{St: st, Kind: "ret", Val: data}}
			}
			return nil
		}
		path := T.Sym("PATH", tString)
		args := []*T0{T.Mk("agg", nil, ctT, c.containerFields(in, g, path)...)}
		for i, t := range a.args {
			args = append(args, T.Sym(fmt.Sprintf("ARG%d", i), t))
		}
		ps := c.run(in, fn, args, nil, st)
		c.expect(len(ps) > 0, "access", a.name, at, "%s has no outcome", a.name)
		for _, p := range ps {
			if !c.expect(p.Kind == "ret", "access", a.name, c.ipos(p.At), "%s can end in a %s", a.name, p.Kind) {
				continue
			}
			if a.lib == "" {
				c.expect(p.St.Norm(p.Results[0]) == path, "access", a.name, at, "%s yields %s", a.name, str(p.Results[0]))
				continue
			}
			var hit *psa.Event
			for _, e := range p.Events {
				if e.Kind == "call" && e.Callee == a.lib {
					hit = e
				}
			}
			if !c.expect(hit != nil, "access", a.name, at, "%s does not use %s", a.name, a.lib) {
				continue
			}
			want := append([]*T0{g}, args[1:]...)
			if a.data {
				want[0] = data
			}
			ok := len(hit.Args) == len(want)
			for i := 0; ok && i < len(want); i++ {
				ok = p.St.Norm(strip(p.St.Norm(hit.Args[i]))) == want[i]
			}
			c.expect(ok, "access", a.name, c.ipos(hit.Instr), "%s gives the wrong arguments to %s", a.name, a.lib)
			if a.name == "Path" {
				r := p.St.Norm(p.Results[0])
				c.expect(in.Resolve(p.St, c.field(in, r, ctT, "c")) == p.St.Norm(hit.Res) && p.St.Norm(c.field(in, r, ctT, "path")) == path, "access", a.name, at, "Path yields something else than what is found")
				continue
			}
			for i, r := range p.Results {
				w := hit.Res
				if len(p.Results) > 1 {
					w = T.Extract(hit.Res, i, nil)
				}
				same := p.St.Norm(r) == p.St.Norm(w)
				if i == 1 { // errors may be wrapped
					same = same || p.St.Nil(r) != -1 && p.St.Nil(r) == p.St.Nil(w)
				}
				if i == 0 && len(p.Results) > 1 {
					same = same || fails(p)
				}
				c.expect(same, "access", a.name, at, "%s yields something else than what %s does %s", a.name, a.lib, c.where(p))
			}
		}
	}
}

// sortDocs decides the order of documents.
func (c *Ctx) sortDocs() {
	fn := c.method("container", "Containers", "Sort")
	at := c.pos(fn.Pos())
	ctT := c.typ("container", "Container")
	gT := ctT.Underlying().(*types.Struct).Field(fieldIndex(ctT, "c")).Type()
	lt := c.typ("container", "Containers")
	for _, order := range [][]string{{"/b", "/a", "/c"}, {"/c", "/b", "/a"}, {"/a", "/b"}, {"/x"}, {}} {
		what := strings.Join(order, " ")
		in := c.interp()
		T := in.T
		c.opaque(in, "internal/container")
		in.Rec = 9
		in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
			return sorting(in, st, name, args, call)
		}
		st := in.NewState()
		doc := func(p string) *T0 {
			return T.Mk("agg", nil, ctT, c.containerFields(in, T.Sym("DOC"+p, gT), T.Str(p))...)
		}
		a := st.NewObj("LIST", types.NewArray(ctT, int64(len(order))))
		for i, p := range order {
			st.Store(in.ElemAddr(a, T.Int(int64(i)), types.NewPointer(ctT)), doc(p))
		}
		recv := T.Mk("slice", nil, lt, a, T.Int(int64(len(order))))
		names := func(p *psa.Path, l *T0) string {
			l = in.Resolve(p.St, l)
			var out []string
			if l.Op == "list" {
				for _, x := range l.Args {
					x = p.St.Norm(x)
					s, _ := p.St.Norm(c.field(in, x, ctT, "path")).ConstString()
					if p.St.Norm(c.field(in, x, ctT, "c")) != T.Sym("DOC"+s, gT) {
						s = "?"
					}
					out = append(out, s)
				}
			}
			return strings.Join(out, " ")
		}
		sorted := append([]string{}, order...)
		for i := range sorted {
			for j := i; j > 0 && sorted[j] < sorted[j-1]; j-- {
				sorted[j], sorted[j-1] = sorted[j-1], sorted[j]
			}
		}
		ps := c.run(in, fn, []*T0{recv}, nil, st)
		c.expect(len(ps) > 0, "order", what, at, "sorting has no outcome")
		for _, p := range ps {
			if !c.expect(p.Kind == "ret", "order", what, c.ipos(p.At), "sorting can end in a %s", p.Kind) {
				continue
			}
			c.expect(names(p, p.Results[0]) == strings.Join(sorted, " "), "order", what, at, "documents %s are sorted to %s", what, names(p, p.Results[0]))
			c.expect(names(p, recv) == what, "order", what, at, "sorting changes the list it is given, to %s", names(p, recv))
		}
	}
}

// isNil decides which documents count as nothing.
func (c *Ctx) isNil() {
	fn := c.method("container", "Container", "IsNil")
	at := c.pos(fn.Pos())
	ctT := c.typ("container", "Container")
	lists, ptr := types.NewSlice(anyType), types.NewPointer(ctT)
	for _, x := range []struct {
		what string
		kind reflect.Kind
		want bool
		make func(in *psa.Interp, st *psa.State) *T
	}{
		{"nothing", reflect.Invalid, true, func(in *psa.Interp, st *psa.State) *T { return in.T.Nil() }},
		{"a map which is nil", reflect.Map, true, func(in *psa.Interp, st *psa.State) *T { return in.T.Mk("iface", nil, mapAny, in.T.Zero(mapAny)) }},
		{"a list which is nil", reflect.Slice, true, func(in *psa.Interp, st *psa.State) *T { return in.T.Mk("iface", nil, lists, in.T.Zero(lists)) }},
		{"a pointer which is nil", reflect.Ptr, true, func(in *psa.Interp, st *psa.State) *T { return in.T.Mk("iface", nil, ptr, in.T.Zero(ptr)) }},
		{"an object", reflect.Map, false, func(in *psa.Interp, st *psa.State) *T {
			m, _, _ := mapOf(in, st, "DATA", mapAny, 2)
			return in.T.Mk("iface", nil, mapAny, m)
		}},
		{"an empty object", reflect.Map, false, func(in *psa.Interp, st *psa.State) *T {
			return in.T.Mk("iface", nil, mapAny, st.NewMap("DATA", mapAny))
		}},
		{"a list", reflect.Slice, false, func(in *psa.Interp, st *psa.State) *T {
			return in.T.Mk("iface", nil, lists, listTerm(in, anyType, in.T.Nil()))
		}},
		{"an empty list", reflect.Slice, false, func(in *psa.Interp, st *psa.State) *T {
			l := in.T.Mk("list", nil, lists)
			st.Assume(in.T.Eq(l, in.T.Nil()), false)
			return in.T.Mk("iface", nil, lists, l)
		}},
		{"a text", reflect.String, false, func(in *psa.Interp, st *psa.State) *T {
			return in.T.Mk("iface", nil, tString, in.T.Sym("TEXT", tString))
		}},
		{"an empty text", reflect.String, false, func(in *psa.Interp, st *psa.State) *T { return in.T.Mk("iface", nil, tString, in.T.Str("")) }},
		{"a number", reflect.Float64, false, func(in *psa.Interp, st *psa.State) *T {
			f := types.Typ[types.Float64]
			return in.T.Mk("iface", nil, f, in.T.Sym("NUMBER", f))
		}},
		{"a truth value", reflect.Bool, false, func(in *psa.Interp, st *psa.State) *T {
			return in.T.Mk("iface", nil, tBool, in.T.Sym("BOOL", tBool))
		}},
	} {
		in := c.interp()
		T := in.T
		c.opaque(in, "internal/container")
		st := in.NewState()
		gT := ctT.Underlying().(*types.Struct).Field(fieldIndex(ctT, "c")).Type()
		g := T.Sym("GABS", gT)
		st.Assume(T.Eq(g, T.Nil()), false)
		data := x.make(in, st)
		var val *T0
		in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
			ret := func(v *T0) []psa.Ret { return []psa.Ret{{St: st, Kind: "ret", Val: v}} }
			if len(args) == 0 {
				return nil
			}
			a := st.Norm(args[0])
			switch name {
			case gabsC + "Data":
				if a == g {
					return ret(data)
				}
			case "reflect.ValueOf":
				if a == st.Norm(data) {
					val = T.Sym("VALUE", call.Instr.(ssa.Value).Type())
					return ret(val)
				}
			}
			if val == nil || a != val {
				return nil
			}
			switch name {
			case "(reflect.Value).Kind":
				return ret(T.Int(int64(x.kind)))
			case "(reflect.Value).IsValid":
				return ret(T.Bool(x.kind != reflect.Invalid))
			case "(reflect.Value).IsNil":
				switch x.kind {
				case reflect.Map, reflect.Slice, reflect.Ptr:
					return ret(T.Bool(x.want))
				}
				return []psa.Ret{{St: st, Kind: "panic", Val: T.Nil()}}
			}
			return nil
		}
		recv := T.Mk("agg", nil, ctT, c.containerFields(in, g, T.Sym("PATH", tString))...)
		n := 0
		for _, p := range c.run(in, fn, []*T0{recv}, nil, st) {
			n++
			if !c.expect(p.Kind == "ret" && len(p.Results) == 1, "nothing", x.what, c.ipos(p.At), "asking whether %s is nothing can end in a %s", x.what, p.Kind) {
				continue
			}
			c.expect(p.St.Truth(p.Results[0]) == map[bool]int{true: 1, false: 0}[x.want], "nothing", x.what, at, "whether %s is nothing is answered with %s", x.what, str(p.St.Norm(p.Results[0])))
		}
		c.expect(n > 0, "nothing", x.what, at, "there is no answer for %s", x.what)
	}
}

func isAnyType(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}
