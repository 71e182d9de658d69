package main

import (
	"fmt"
	"go/types"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P02"] = checkP02 }

// skel is a document whose shape is known and whose keys and scalars are not.
type skel struct {
	keys  []string // names of the keys of an object
	elems []*skel
	list  bool
	leaf  string
	val   *T
	syms  []*T
}

// build makes the value of a skeleton, as decoded JSON.
func (k *skel) build(c *Ctx, in *psa.Interp, st *psa.State, key func(string) *T) *T {
	switch {
	case k.leaf != "":
		typ := types.Typ[types.String]
		switch k.leaf[0] {
		case 'n':
			typ = types.Typ[types.Float64]
		case 'b':
			typ = types.Typ[types.Bool]
		}
		k.val = in.T.Mk("iface", nil, typ, in.T.Sym(k.leaf, typ))
		if k.leaf == "null" {
			k.val = in.T.Nil()
		}
	case k.list:
		var xs []*T
		for _, e := range k.elems {
			xs = append(xs, e.build(c, in, st, key))
		}
		typ := types.NewSlice(anyType)
		a := st.NewObj(fmt.Sprintf("array%p", k), types.NewArray(anyType, int64(len(xs))))
		for i, x := range xs {
			st.Store(in.ElemAddr(a, in.T.Int(int64(i)), types.NewPointer(anyType)), x)
		}
		k.val = in.T.Mk("iface", nil, typ, in.T.Mk("slice", nil, typ, a, in.T.Int(int64(len(xs)))))
	default:
		var kv []*T
		for i, e := range k.elems {
			s := key(k.keys[i])
			for _, o := range k.syms {
				st.Assume(in.T.Eq(s, o), false)
			}
			k.syms = append(k.syms, s)
			kv = append(kv, s, e.build(c, in, st, key))
		}
		k.val = in.T.Mk("iface", nil, mapAny, st.NewMap(fmt.Sprintf("object%p", k), mapAny, kv...))
	}
	return k.val
}

// leaves lists the scalars of a document with the path to them.
func (k *skel) leaves(in *psa.Interp, path []*T, f func(path []*T, leaf *T)) {
	path = path[:len(path):len(path)]
	if k.leaf != "" {
		f(path, k.val)
		return
	}
	for i, e := range k.elems {
		if k.list {
			e.leaves(in, append(path, in.T.Str(fmt.Sprint(i))), f)
		} else {
			e.leaves(in, append(path, k.syms[i]), f)
		}
	}
}

func obj(kv ...interface{}) *skel {
	k := &skel{}
	for i := 0; i < len(kv); i += 2 {
		k.keys, k.elems = append(k.keys, kv[i].(string)), append(k.elems, kv[i+1].(*skel))
	}
	return k
}
func arr(xs ...*skel) *skel { return &skel{list: true, elems: xs} }
func leaf(n string) *skel   { return &skel{leaf: n} }

const dotPath = "internal/container.SliceToDotPath"

func checkP02(c *Ctx) {
	c.explain = "The escaping of dot paths is taken from the code as terms and compared with the one gabs reads. The extraction of keys is interpreted over documents of known shape - objects and lists nested in one another - whose keys, and whose scalars, are arbitrary: the entries it yields are compared with the scalars found under the key."
	c.rule("escape", "each segment of a dot path has ~ written ~0 and then . written ~1, and segments are joined by dots", 3)
	c.rule("found", "every scalar under the key is listed once, with the path which leads to it and its value", 6)
	c.rule("only", "nothing else is listed", 4)
	c.rule("scalar", "a document which is a scalar is refused", 1)
	strT := types.Typ[types.String]
	// escaping
	in := c.interp()
	c.opaque(in, dotPath)
	T := in.T
	fn := c.fn("container", "SliceToDotPath")
	a, b := T.Sym("SEGMENT-A", strT), T.Sym("SEGMENT-B", strT)
	for _, segs := range [][]*psa.Term{{a}, {a, b}, {b, T.Str(""), a}} {
		for _, p := range c.run(in, fn, []*psa.Term{T.Mk("list", nil, types.NewSlice(strT), segs...)}, nil, nil) {
			at := c.ipos(p.At)
			if p.Kind != "ret" {
				c.violate("escape", "SliceToDotPath", at, "writing a dot path panics")
				continue
			}
			r := p.St.Norm(p.Results[0])
			parts := []*psa.Term{r}
			if r.Op == "concat" {
				parts = r.Args
			}
			// the text between the segments
			want := ""
			got := ""
			var esc []*psa.Term
			for i, s := range segs {
				if i > 0 {
					want += "."
				}
				if !s.IsConst() {
					want += "\x00"
				}
			}
			for _, x := range parts {
				if s, ok := x.ConstString(); ok {
					got += s
				} else {
					got += "\x00"
					esc = append(esc, x)
				}
			}
			ok, how := got == want, "joined as "+strings.ReplaceAll(got, "\x00", "‹segment›")
			i := 0
			for _, s := range segs {
				if ok && !s.IsConst() {
					ok, how = c.isEscape(in, p.St, esc[i], s, ".")
					i++
				}
			}
			c.expect(ok, "escape", "SliceToDotPath", at, "the segments of a dot path are %s", how)
		}
	}
	// extraction
	for _, x := range []struct {
		what string
		doc  func() *skel
	}{
		{"an object of scalars", func() *skel { return obj("A", leaf("1"), "B", leaf("2")) }},
		{"objects in an object", func() *skel { return obj("A", obj("B", leaf("1"), "C", leaf("2")), "D", leaf("3")) }},
		{"siblings", func() *skel { return obj("A", obj("B", leaf("1")), "D", obj("E", leaf("2"))) }},
		{"deep objects", func() *skel { return obj("A", obj("B", obj("C", obj("D", leaf("1"))))) }},
		{"lists in an object", func() *skel { return obj("A", arr(obj("B", leaf("1")), leaf("2"), obj("C", leaf("3")))) }},
		{"deep lists", func() *skel { return obj("A", arr(obj("B", arr(obj("C", arr(leaf("1"))), obj("D", leaf("2")))))) }},
		{"other scalars", func() *skel {
			return obj("A", leaf("number"), "B", arr(obj("C", leaf("bool")), obj("D", leaf("null"))))
		}},
		{"objects in a list of lists", func() *skel { return arr(arr(obj("A", leaf("1")), leaf("2")), obj("B", leaf("3"))) }},
	} {
		in := c.interp()
		c.opaque(in, "internal/container.ExtractKey", "internal/container.Container.Data")
		in.Rec = 6
		fn := c.fn("container", "ExtractKey")
		itemT := c.typ("container", "MapItem")
		doc := x.doc()
		st := in.NewState()
		v := doc.build(c, in, st, func(n string) *psa.Term { return in.T.Sym("KEY-"+n, strT) })
		key := c.paramOfKind(in, fn, types.String)
		in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
			switch shortName(name) {
			case "(internal/container.Container).Data", gabsC + "Data":
				return []psa.Ret{{St: st, Kind: "ret", Val: v}}
			}
			return nil
		}
		n := 0
		for _, p := range c.run(in, fn, nil, nil, st) {
			at := c.ipos(p.At)
			if p.Kind != "ret" {
				c.violate("found", x.what, at, "looking for a key panics "+c.where(p))
				continue
			}
			if !succeeded(p) {
				c.violate("found", x.what, at, "looking for a key in "+x.what+" fails "+c.where(p))
				continue
			}
			n++
			cases(in, p.St, func(k *cs) {
				res := in.Resolve(k.St, p.Results[0])
				if res.Op != "list" && res.Op != "nil" && res.Op != "zero" {
					c.violate("found", x.what, at, "what is found is "+str(res))
					return
				}
				used := map[*psa.Term]bool{}
				doc.leaves(in, nil, func(path []*psa.Term, lf *psa.Term) {
					under := k.is(in.T.Eq(path[len(path)-1], key))
					cnt := 0
					for _, el := range res.Args {
						pt, _ := callOf(k.St.Norm(c.field(in, el, itemT, "Key")))
						if !isCall(pt, dotPath) {
							continue
						}
						l := in.Resolve(k.St, pt.Args[0])
						if l.Op != "list" || len(l.Args) != len(path) {
							continue
						}
						same := true
						for i := range path {
							same = same && k.St.Norm(l.Args[i]) == k.St.Norm(path[i])
						}
						if same && k.St.Norm(c.field(in, el, itemT, "Val")) == lf {
							cnt++
							used[el] = true
						}
					}
					if under {
						c.expect(cnt == 1, "found", x.what, at, "a scalar %s under the key is listed %d times, among %s", strings.Join(strs(path), " . "), cnt, str(res))
					} else {
						c.expect(cnt == 0, "only", x.what, at, "a scalar which is not under the key is listed")
					}
				})
				c.expect(len(used) == len(res.Args), "only", x.what, at, "something is listed which is not in the document under this path: %s", str(res))
			})
		}
		c.expect(n > 0, "found", x.what, c.pos(fn.Pos()), "nothing is found in %s", x.what)
	}
	in = c.interp()
	c.opaque(in, "internal/container.ExtractKey")
	in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
		switch shortName(name) {
		case "(internal/container.Container).Data", gabsC + "Data":
			return []psa.Ret{{St: st, Kind: "ret", Val: in.T.Mk("iface", nil, strT, in.T.Sym("SCALAR", strT))}}
		}
		return nil
	}
	for _, p := range c.run(in, c.fn("container", "ExtractKey"), nil, nil, nil) {
		c.expect(fails(p), "scalar", "ExtractKey", c.ipos(p.At), "a document which is a scalar is not refused %s", p.Kind)
	}
}

// paramOfKind finds the only parameter with a basic type of the kind.
func (c *Ctx) paramOfKind(in *psa.Interp, fn *ssa.Function, k types.BasicKind) *T {
	var out []*T
	for _, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == k {
			out = append(out, in.Param(p))
		}
	}
	if len(out) != 1 {
		c.fatal("anchor", fmt.Sprintf("%s no longer takes one %v", fname(fn), types.Typ[k]))
	}
	return out[0]
}
