package main

import (
	"fmt"
	"go/types"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["L01"] = checkL01 }

// refdoc is a file found in the directory of a package.
type refdoc struct {
	name string
	// refs are the texts of its references; "" stands for a value which is no
	// text.
	refs []string

	val *T
}

const l01pkg = "example.com/p"

// rewritten is the text a reference of the package has in the end.
func rewritten(s string) string {
	if strings.HasPrefix(s, "go://#") {
		return "go://" + l01pkg + s[len("go://"):]
	}
	return s
}

func checkL01(c *Ctx) {
	c.explain = "The scanner of specification files is interpreted on a package whose directory holds arbitrary documents with references of every kind; what it stores, writes back and merges is compared with the documents and references."
	c.rule("files", "the documents of a package which have an openapi key are kept, and nothing else", 8)
	c.rule("references", "each of their references is listed under its text, local Go references as ones to the package", 8)
	c.rule("local", "a local Go reference is replaced in its place by one to the package, others are kept", 8)
	c.rule("errors", "the scan fails exactly if the directory, a document or a reference cannot be read or written", 8)
	c.rule("merge", "the merged specification is that of all documents kept, collisions being refused", 2)
	scan := c.method("specs", "Scanner", "Scan")
	for n, docs := range [][]*refdoc{
		{{name: "D1", refs: []string{"go://#/T"}}},
		{{name: "D1", refs: []string{"go://#/T/A", "", "#/components/schemas/X", "go://example.com/q#/U"}}, {name: "D2", refs: []string{"http://example.com/x#/y", "go://#/T"}}},
		{{name: "D1", refs: []string{"go:///elsewhere#/T", "go://host#/N", "go:/a#/O", "http://#/T"}}},
		{{name: "D1", refs: []string{"::bad"}}},
		{{name: "D1", refs: []string{"go://#/T"}}, {name: "D2", refs: []string{"::bad"}}},
		{{name: "D1"}, {name: "D2"}, {name: "D3", refs: []string{"go://#/T"}}},
		{},
	} {
		c.specFiles(scan, fmt.Sprintf("package %d", n+1), docs)
	}
	c.specMerge()
}

// l01model answers for pointers, directories and documents.
func (c *Ctx) l01model(in *psa.Interp, docs []*refdoc) func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
	gp := goPointers{c, in}
	T := in.T
	item := c.typ("container", "MapItem")
	errT := types.Universe.Lookup("error").Type()
	doc := func(st *psa.State, t *T0) *refdoc {
		for _, d := range docs {
			if st.Norm(d.val) == st.Norm(strip(t)) {
				return d
			}
		}
		return nil
	}
	return func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
		// fork answers v, or fails for the given reason.
		fork := func(why string, v *T0) []psa.Ret {
			e := T.Sym(why, errT)
			yes, no := st.Clone(), st
			var out []psa.Ret
			pair := func(e *T0) *T0 {
				if v == nil {
					return e
				}
				return T.Mk("agg", nil, call.Typ, v, e)
			}
			if yes.Assume(T.Eq(e, T.Nil()), true) {
				out = append(out, psa.Ret{St: yes, Kind: "ret", Val: pair(T.Nil())})
			}
			if no.Assume(T.Eq(e, T.Nil()), false) {
				out = append(out, psa.Ret{St: no, Kind: "ret", Val: pair(e)})
			}
			return out
		}
		one := func(v *T0) []psa.Ret { return []psa.Ret{{St: st, Kind: "ret", Val: v}} }
		switch shortName(name) {
		case "internal/pkgutil.GetPkgPath":
			return fork("no directory", T.Sym("DIR", tString))
		case "internal/container.ReadDir":
			if st.Norm(args[0]) != T.Sym("DIR", tString) {
				return nil
			}
			st.Emit(&psa.Event{Kind: "call", Callee: "READDIR", Args: []*T0{in.Resolve(st, args[1])}, Instr: call.Instr})
			var vs []*T0
			for _, d := range docs {
				vs = append(vs, d.val)
			}
			return fork("unreadable directory", T.Mk("list", nil, c.typ("container", "Containers"), vs...))
		case "(internal/container.Container).ExistsP":
			d, k := doc(st, args[0]), st.Norm(args[1])
			if s, _ := k.ConstString(); d == nil || s != "openapi" {
				return nil
			}
			return one(T.Sym("openapi in "+d.name, tBool))
		case "internal/container.ExtractKey":
			d := doc(st, args[0])
			if s, _ := st.Norm(args[1]).ConstString(); d == nil || s != "$ref" {
				return nil
			}
			var items []*T0
			s := item.Underlying().(*types.Struct)
			for i, r := range d.refs {
				var fs []*T0
				for j := 0; j < s.NumFields(); j++ {
					switch s.Field(j).Name() {
					case "Key":
						fs = append(fs, l01key(in, d, i))
					case "Val":
						if r == "" {
							fs = append(fs, T.Mk("iface", nil, types.Typ[types.Float64], T.Sym("number", types.Typ[types.Float64])))
						} else {
							fs = append(fs, T.Mk("iface", nil, tString, T.Str(r)))
						}
					default:
						fs = append(fs, T.Int(int64(i)))
					}
				}
				items = append(items, T.Mk("agg", nil, item, fs...))
			}
			return fork("keys of "+d.name, T.Mk("list", nil, c.typ("container", "MapSlice"), items...))
		case "internal/pointer.Parse":
			if s, _ := st.Norm(args[0]).ConstString(); s == "::bad" {
				e := T.Sym("bad reference", errT)
				st.Assume(T.Eq(e, T.Nil()), false)
				return one(T.Mk("agg", nil, call.Typ, T.Zero(c.typ("pointer", "Pointer")), e))
			}
		case "(internal/container.Container).SetP":
			d := doc(st, args[0])
			if d == nil {
				return nil
			}
			st.Emit(&psa.Event{Kind: "call", Callee: "SET", Args: []*T0{d.val, st.Norm(args[1]), st.Norm(args[2])}, Instr: call.Instr})
			return fork("writing "+str(st.Norm(args[1])), nil)
		}
		if rs := sorting(in, st, name, args, call); rs != nil {
			return rs
		}
		return gp.model(st, name, args, call)
	}
}

func l01key(in *psa.Interp, d *refdoc, i int) *T {
	return in.T.Sym(fmt.Sprintf("place %d of %s", i, d.name), tString)
}

func (c *Ctx) specFiles(scan *ssa.Function, what string, docs []*refdoc) {
	in := c.interp()
	T := in.T
	c.opaque(in, "internal/oapi/scan/specs", "(internal/pointer.Pointer).PkgPath", "(internal/pointer.Fragment).Len", "(internal/pointer.Fragment).IsEmpty", "(internal/pointer.Fragment).Head", "(internal/pointer.Pointers).Merge", "internal/pointer.NewPointers", "internal/pointer.NewPointer")
	st := in.NewState()
	for _, d := range docs {
		d.val = T.Sym(d.name, c.typ("container", "Container"))
	}
	in.Model = c.l01model(in, docs)
	sc := c.typ("specs", "Scanner")
	at := c.pos(scan.Pos())
	mk := c.run(in, c.fn("specs", "NewScanner"), nil, nil, st)
	if len(mk) != 1 || mk[0].Kind != "ret" {
		c.fatal("undecided", "making a scanner has no single outcome")
	}
	recv := mk[0].Results[0]
	tp := T.Sym("TYPES", types.NewPointer(importedType(c, "go/types", "Package")))
	mk[0].St.Assume(T.Eq(tp, T.Nil()), false)
	pt, known := importedType(c, "golang.org/x/tools/go/packages", "Package"), map[string]*T0{"PkgPath": T.Str(l01pkg), "ID": T.Str(l01pkg), "Types": tp}
	pkg := c.object(in, mk[0].St, "PACKAGE", pt, known)
	c.unknowns(in, mk[0].St, "the package", pkg, pt, known, "TypesInfo", "Fset")
	seenOK := false
	// what earlier packages have left
	was := T.Sym("EARLIER", c.typ("container", "Container"))
	i := fieldIndex(sc, "Containers")
	if i < 0 {
		c.fatal("anchor", "field Containers of the scanner is gone")
	}
	mk[0].St.Store(in.FieldAddr(recv, i, types.NewPointer(c.typ("container", "Containers"))), T.Mk("list", nil, c.typ("container", "Containers"), was))
	for _, p := range c.run(in, scan, []*T0{recv, pkg}, nil, mk[0].St) {
		if p.Kind != "ret" {
			c.violate("errors", what, c.ipos(p.At), "scanning for specifications can end in a "+p.Kind+" "+c.where(p))
			continue
		}
		failed := func(why string) bool {
			return p.St.Truth(T.Eq(T.Sym(why, types.Universe.Lookup("error").Type()), T.Nil())) == 0
		}
		bad := failed("no directory") || failed("unreadable directory")
		kept := []*refdoc{}
		unknown := false
		for _, d := range docs {
			bad = bad || failed("keys of "+d.name)
			switch p.St.Truth(T.Sym("openapi in "+d.name, tBool)) {
			case 1:
				kept = append(kept, d)
			case -1:
				unknown = true
			}
		}
		if !bad {
			for _, d := range kept {
				for i, r := range d.refs {
					bad = bad || r == "::bad" || failed("writing "+str(l01key(in, d, i)))
				}
			}
		}
		if bad {
			c.expect(fails(p), "errors", what, at, "a scan succeeds although something could not be read or written %s", c.where(p))
			continue
		}
		if !c.expect(!mayFail(p), "errors", what, at, "a scan fails without a reason %s", c.where(p)) {
			continue
		}
		seenOK = true
		if !c.expect(!unknown, "files", what, at, "a document is not asked whether it is a specification %s", c.where(p)) {
			continue
		}
		// the files looked for
		n := 0
		for _, e := range p.Events {
			if e.Kind == "call" && e.Callee == "READDIR" {
				n++
				var names []string
				if e.Args[0].Op == "list" {
					for _, a := range e.Args[0].Args {
						s, _ := a.ConstString()
						names = append(names, s)
					}
				}
				c.expect(sameSet(names, []string{"oapi.yaml", "oapi.yml", "oapi.json"}), "files", what, c.ipos(e.Instr), "specifications are looked for as %s", strings.Join(names, ", "))
			}
		}
		c.expect(n == 1, "files", what, at, "the directory of a package is read %d times", n)
		// the documents kept
		got := in.Resolve(p.St, c.load(in, p.St, recv, sc, "Containers"))
		var gs []string
		if got.Op == "list" {
			for _, g := range got.Args {
				gs = append(gs, str(p.St.Norm(g)))
			}
		}
		ws := []string{str(was)}
		for _, d := range kept {
			ws = append(ws, str(d.val))
		}
		c.expect(got.Op == "list" && sameSet(gs, ws), "files", what, at, "the documents kept are %s, not %s %s", strings.Join(gs, ", "), strings.Join(ws, ", "), c.where(p))
		// the references
		ks, vs, base := p.St.MapEntries(c.load(in, p.St, recv, sc, "Pointers"))
		gp := goPointers{c, in}
		have := map[string]bool{}
		for i, k := range ks {
			s, _ := k.ConstString()
			t, ok := gp.text(p.St, vs[i])
			c.expect(ok && t == s, "references", what, at, "a reference to %s is listed under %s", t, s)
			have[s] = true
		}
		c.expect(base == nil, "references", what, at, "the references are not known")
		final := map[[2]string]string{}
		for _, e := range p.Events {
			if e.Kind != "call" || e.Callee != "SET" {
				continue
			}
			s, isC := strip(e.Args[2]).ConstString()
			if !isC {
				s = "?"
			}
			final[[2]string{str(e.Args[0]), str(e.Args[1])}] = s
		}
		want := map[string]bool{}
		for _, d := range docs {
			isKept := false
			for _, x := range kept {
				isKept = isKept || x == d
			}
			for i, r := range d.refs {
				key := [2]string{str(d.val), str(l01key(in, d, i))}
				v, set := final[key]
				delete(final, key)
				if !isKept {
					continue
				}
				if r == "" {
					c.expect(!set, "local", what, at, "a value which is no reference is overwritten with %s", v)
					continue
				}
				w := rewritten(r)
				want[w] = true
				c.expect(have[w], "references", what, at, "the reference %s is not listed %s", w, c.where(p))
				if set || w != r {
					c.expect(v == w, "local", what, at, "the reference %s becomes %q, not %s %s", r, v, w, c.where(p))
				} else {
					c.ok("local")
				}
			}
		}
		for k := range final {
			c.violate("local", what, at, "something is written to "+k[1])
		}
		for h := range have {
			c.expect(want[h], "references", what, at, "the reference %s is listed which no document has", h)
		}
	}
	bad := false
	for _, d := range docs {
		bad = bad || len(docs) == 1 && len(d.refs) == 1 && d.refs[0] == "::bad"
	}
	c.expect(seenOK || bad, "errors", what, at, "no scan succeeds")
}

// sameSet compares lists without regard to order.
func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

// specMerge decides what the scanner merges.
func (c *Ctx) specMerge() {
	in := c.interp()
	T := in.T
	fn := c.method("specs", "Scanner", "Merge")
	at := c.pos(fn.Pos())
	c.opaque(in, "internal/oapi/scan/specs", "(internal/container.Containers).Sort", "(internal/container.Containers).Len", "(internal/container.Containers).Less", "(internal/container.Containers).Swap")
	in.Model = c.l01model(in, nil)
	st := in.NewState()
	sc, ct := c.typ("specs", "Scanner"), c.typ("container", "Container")
	d := []*T0{T.Sym("D1", ct), T.Sym("D2", ct), T.Sym("D3", ct)}
	recv := c.object(in, st, "SCANNER", sc, map[string]*T0{"Containers": T.Mk("list", nil, c.typ("container", "Containers"), d...)})
	n := 0
	for _, p := range c.run(in, fn, []*T0{recv}, nil, st) {
		if !c.expect(p.Kind == "ret", "merge", "Merge", c.ipos(p.At), "merging can end in a %s", p.Kind) {
			continue
		}
		ms := calls(p, "(internal/container.Containers).Merge")
		if !c.expect(len(ms) == 1, "merge", "Merge", at, "the documents are merged %d times", len(ms)) {
			continue
		}
		n++
		l := in.Resolve(p.St, ms[0].Args[0])
		var got, want []string
		if l.Op == "list" {
			for _, a := range l.Args {
				got = append(got, str(p.St.Norm(a)))
			}
		}
		for _, x := range d {
			want = append(want, str(x))
		}
		c.expect(sameSet(got, want), "merge", "Merge", at, "the documents merged are %s, not %s", strings.Join(got, ", "), strings.Join(want, ", "))
		c.expect(c.policy(in, p.St.Norm(ms[0].Args[1])) == "error", "merge", "Merge", at, "colliding specifications are not refused")
		doc, err := T.Extract(ms[0].Res, 0, nil), T.Extract(ms[0].Res, 1, nil)
		c.expect(p.St.Norm(p.Results[0]) == p.St.Norm(doc) || p.St.Nil(err) == 0, "merge", "Merge", at, "what is merged is not returned")
		c.expect(p.St.Norm(p.Results[1]) == p.St.Norm(err) || fails(p) && p.St.Nil(err) == 0 || !mayFail(p) && p.St.Nil(err) == 1, "merge", "Merge", at, "the failure to merge is not returned")
	}
	c.expect(n > 0, "merge", "Merge", at, "the documents are never merged")
}
