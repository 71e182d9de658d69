package main

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["X02"] = checkX02 }

// imp is a package of an import graph.
type imp struct {
	path    string
	imports []*imp
	errors  int
	plain   bool // its scan succeeds, and it is none of the standard library

	unknown bool // its path is any

	obj *T
}

// pathOf is the path of p.
func (x *x02) pathOf(p *imp) *T {
	if p.unknown {
		return x.in.T.Sym("path "+p.path, types.Typ[types.String])
	}
	return x.in.T.Str(p.path)
}

// x02 is an import graph to be scanned.
type x02 struct {
	c    *Ctx
	in   *psa.Interp
	st   *psa.State
	all  []*imp
	back bool // the other order of maps
}

func (x *x02) add(p *imp) *T {
	if p.obj != nil {
		return p.obj
	}
	c, in, st := x.c, x.in, x.st
	pt := importedType(c, "golang.org/x/tools/go/packages", "Package")
	et := importedType(c, "golang.org/x/tools/go/packages", "Error")
	var kv []*T
	for _, i := range p.imports {
		kv = append(kv, x.pathOf(i), x.add(i))
	}
	if x.back {
		for i, j := 0, len(kv)-2; i < j; i, j = i+2, j-2 {
			kv[i], kv[i+1], kv[j], kv[j+1] = kv[j], kv[j+1], kv[i], kv[i+1]
		}
	}
	mt := types.NewMap(types.Typ[types.String], types.NewPointer(pt))
	var es []*T
	for i := 0; i < p.errors; i++ {
		es = append(es, in.T.Sym(fmt.Sprintf("error %d of %s", i, p.path), et))
	}
	fs := map[string]*T{"PkgPath": x.pathOf(p), "ID": x.pathOf(p), "Imports": st.NewMap("IMPORTS-"+p.path, mt, kv...), "Errors": listTerm(in, et, es...)}
	p.obj = c.object(in, st, "PACKAGE-"+p.path, pt, fs)
	if p.unknown {
		c.unknowns(in, st, p.path, p.obj, pt, fs, "Types", "TypesInfo", "Fset")
	}
	x.all = append(x.all, p)
	return p.obj
}

func (x *x02) scanErr(p *imp) *T {
	return x.in.T.Sym("scan error of "+p.path, types.Universe.Lookup("error").Type())
}

// std decides whether p belongs to the standard library; -1 if that was not
// asked.
func (x *x02) std(st *psa.State, p *imp, facts bool) int {
	if p.plain && !facts {
		return 0
	}
	if v := st.Truth(x.in.T.Sym("std "+p.path, tBool)); v >= 0 {
		return v
	}
	for f := range st.FactTerms() {
		if f.Op == "has" {
			if f.Args[len(f.Args)-1] == x.pathOf(p) {
				return st.Truth(f)
			}
		}
	}
	return -1
}

func (x *x02) model(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
	T := x.in.T
	find := func(t *T0) *imp {
		for _, p := range x.all {
			if st.Norm(p.obj) == st.Norm(strip(t)) {
				return p
			}
		}
		return nil
	}
	if strings.HasSuffix(name, ".Scan") && f == nil || shortName(name) == "(internal/pkgutil.Scanner).Scan" {
		p := find(args[len(args)-1])
		if p == nil {
			return nil
		}
		st.Emit(&psa.Event{Kind: "call", Callee: "SCAN", Args: []*T0{p.obj}, Instr: call.Instr})
		e := x.scanErr(p)
		if p.plain {
			return []psa.Ret{{St: st, Kind: "ret", Val: T.Nil()}}
		}
		no := st.Clone()
		var out []psa.Ret
		if st.Assume(T.Eq(e, T.Nil()), true) {
			out = append(out, psa.Ret{St: st, Kind: "ret", Val: T.Nil()})
		}
		if no.Assume(T.Eq(e, T.Nil()), false) {
			out = append(out, psa.Ret{St: no, Kind: "ret", Val: e})
		}
		return out
	}
	return nil
}

func checkX02(c *Ctx) {
	c.explain = "The walk over the packages of a scan is interpreted on import graphs whose packages may or may not belong to the standard library and may or may not fail; the packages which are scanned, and the outcome, are compared with the graph. The place of a package's files is interpreted on packages in modules and outside."
	c.rule("reach", "a walk which succeeds scans every package reachable through imports once, and none of the standard library", 8)
	c.rule("errors", "the walk fails exactly if a package has errors or its scan fails", 8)
	c.rule("order", "the packages are scanned in an order which does not depend on that of a map", 2)
	c.rule("place", "the directory of a package is that of its module and its path in there, else that in the GOPATH", 4)
	c.rule("std", "the packages of the standard library are those the go tool lists as std", 1)

	mk := func(n int) (roots []*imp, what string) {
		switch n {
		case 0:
			d := &imp{path: "example.com/d"}
			cc := &imp{path: "example.com/c", imports: []*imp{d}}
			b := &imp{path: "example.com/b", imports: []*imp{cc}}
			return []*imp{{path: "example.com/a", imports: []*imp{b, cc}}}, "a diamond"
		case 1:
			d := &imp{path: "example.com/d", errors: 1, plain: true}
			return []*imp{{path: "example.com/a", imports: []*imp{d}}, {path: "example.com/b", errors: 2, plain: true}}, "packages with errors"
		case 2:
			d := &imp{path: "example.com/d", plain: true}
			return []*imp{d, {path: "example.com/a", imports: []*imp{d}, plain: true}, {path: "example.com/z"}, d}, "packages which are listed twice"
		case 3:
			deep := &imp{path: "example.com/6", plain: true}
			for i := 5; i > 0; i-- {
				deep = &imp{path: fmt.Sprintf("example.com/%d", i), plain: true, imports: []*imp{deep}}
			}
			return []*imp{deep}, "a chain"
		case 4:
			r := &imp{path: "example.com/r", plain: true}
			for _, i := range []string{"m", "k", "z", "a"} {
				r.imports = append(r.imports, &imp{path: "example.com/" + i, plain: true})
			}
			return []*imp{r}, "a fan"
		case 5:
			return nil, "no package"
		case 6:
			low := &imp{path: "LOW", unknown: true}
			return []*imp{{path: "TOP", unknown: true, imports: []*imp{{path: "MIDDLE", unknown: true, imports: []*imp{low}}}}}, "any packages which import each other"
		case 7:
			low := &imp{path: "LOW", unknown: true, plain: true}
			return []*imp{{path: "ONE", unknown: true, imports: []*imp{low}}, {path: "OTHER", unknown: true, imports: []*imp{low}}, low}, "any packages which import the same"
		case 8:
			return []*imp{{path: "ONE", unknown: true}, {path: "OTHER", unknown: true, errors: 1}}, "any packages"
		}
		return nil, ""
	}
	fn := c.fn("pkgutil", "Scan")
	at := c.pos(fn.Pos())
	for n := 0; n < 9; n++ {
		orders := map[string]string{}
		for _, back := range []bool{false, true} {
			in := c.interp()
			c.opaque(in, "internal/pkgutil")
			x := &x02{c: c, in: in, st: in.NewState(), back: back}
			in.Rec = 9
			std := x.stdModel()
			in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
				if rs := sorting(in, st, name, args, call); rs != nil {
					return rs
				}
				if rs := std(st, name, f, args, call); rs != nil {
					return rs
				}
				return x.model(st, name, f, args, call)
			}
			roots, what := mk(n)
			var ps []*T
			for _, r := range roots {
				ps = append(ps, x.add(r))
			}
			for i, p := range x.all {
				if p.unknown {
					x.st.Assume(in.T.Eq(x.pathOf(p), in.T.Str("")), false)
					for _, q := range x.all[:i] {
						x.st.Assume(in.T.Eq(x.pathOf(p), x.pathOf(q)), false)
					}
				}
			}
			scanner := in.T.Sym("SCANNER", fn.Params[1].Type())
			x.st.Assume(in.T.Eq(scanner, in.T.Nil()), false)
			arg := listTerm(in, types.NewPointer(importedType(c, "golang.org/x/tools/go/packages", "Package")), ps...)
			out := c.run(in, fn, []*T{arg, scanner}, nil, x.st)
			good := 0
			for _, p := range out {
				if !c.expect(p.Kind == "ret", "reach", what, c.ipos(p.At), "the walk over %s can end in a %s %s", what, p.Kind, c.where(p)) {
					continue
				}
				good++
				c.walked(x, p, what, at, roots, orders)
			}
			c.expect(good > 0, "reach", what, at, "the walk over %s has no outcome", what)
		}
	}
	c.places()
	c.stdList()
}

// walked compares one outcome of a walk with the graph.
func (c *Ctx) walked(x *x02, p *psa.Path, what, at string, roots []*imp, orders map[string]string) {
	for _, i := range x.all {
		if i.plain && x.std(p.St, i, true) == 1 {
			return
		}
	}
	var seq []*imp
	times := map[*imp]int{}
	for _, e := range p.Events {
		if e.Kind == "call" && e.Callee == "SCAN" {
			for _, i := range x.all {
				if i.obj == e.Args[0] {
					seq = append(seq, i)
					times[i]++
				}
			}
		}
	}
	want := map[*imp]bool{}
	var need []string
	var visit func(i *imp)
	visit = func(i *imp) {
		if want[i] {
			return
		}
		switch x.std(p.St, i, false) {
		case 1:
			return
		case -1:
			need = append(need, i.path)
		}
		want[i] = true
		for _, j := range i.imports {
			visit(j)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	bad := false
	var key []string
	for i := range want {
		bad = bad || i.errors > 0 || !i.plain && p.St.Truth(x.in.T.Eq(x.scanErr(i), x.in.T.Nil())) == 0
	}
	for _, i := range x.all {
		key = append(key, fmt.Sprint(i.path, x.std(p.St, i, false), p.St.Truth(x.in.T.Eq(x.scanErr(i), x.in.T.Nil()))))
	}
	if bad {
		c.expect(fails(p), "errors", what, at, "the walk over %s succeeds although a package has errors or cannot be scanned %s", what, c.where(p))
	} else {
		if !c.expect(len(need) == 0, "reach", what, at, "the walk over %s does not look at %s %s", what, strings.Join(need, ", "), c.where(p)) {
			return
		}
		c.expect(p.St.Nil(p.Results[len(p.Results)-1]) == 1, "errors", what, at, "the walk over %s fails without a reason %s", what, c.where(p))
		for _, i := range x.all {
			n := 0
			if want[i] {
				n = 1
			}
			c.expect(times[i] == n, "reach", what, at, "package %s is scanned %d times, not %d, in the walk over %s %s", i.path, times[i], n, what, c.where(p))
		}
	}
	var names []string
	for _, i := range seq {
		names = append(names, i.path)
	}
	s := strings.Join(names, " ")
	sort.Strings(key)
	k := strings.Join(key, " ")
	if o, ok := orders[k]; ok && x.back && !bad {
		c.expect(o == s, "order", what, at, "the order of the scanned packages of %s depends on that of a map: %s or %s", what, o, s)
	}
	orders[k] = s
}

// stdModel answers whether a package belongs to the standard library.
func (x *x02) stdModel() func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
	return func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
		if f == nil || !x.isStd(f) {
			return nil
		}
		for _, p := range x.all {
			for _, a := range args {
				a = st.Norm(strip(a))
				if st.Norm(p.obj) != a && st.Norm(x.pathOf(p)) != a {
					continue
				}
				if p.plain {
					return []psa.Ret{{St: st, Kind: "ret", Val: x.in.T.Bool(false)}}
				}
				t := x.in.T.Sym("std "+p.path, tBool)
				no := st.Clone()
				var out []psa.Ret
				if st.Assume(t, true) {
					out = append(out, psa.Ret{St: st, Kind: "ret", Val: x.in.T.Bool(true)})
				}
				if no.Assume(t, false) {
					out = append(out, psa.Ret{St: no, Kind: "ret", Val: x.in.T.Bool(false)})
				}
				return out
			}
		}
		return nil
	}
}

// isStd recognises functions which tell packages of the standard library:
// predicates which look into a variable of their package.
func (x *x02) isStd(f *ssa.Function) bool {
	if f.Parent() != nil || f.Pkg == nil || f.Pkg != x.c.pkg("pkgutil") || resultString(f) != "bool" {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var reads func(f *ssa.Function) bool
	reads = func(f *ssa.Function) bool {
		if f == nil || seen[f] || f.Pkg != x.c.pkg("pkgutil") {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok && g.Pkg == f.Pkg {
						return true
					}
				}
				if ci, ok := i.(ssa.CallInstruction); ok && reads(ci.Common().StaticCallee()) {
					return true
				}
			}
		}
		return false
	}
	return reads(f)
}

// places decides the directories of packages.
func (c *Ctx) places() {
	fn := c.fn("pkgutil", "GetPkgPath")
	at := c.pos(fn.Pos())
	pt := importedType(c, "golang.org/x/tools/go/packages", "Package")
	mt := importedType(c, "golang.org/x/tools/go/packages", "Module")
	type tc struct{ mod, dir, pkg, want string }
	for _, t := range []tc{
		{"example.com/m", "/src/m", "example.com/m/sub/x", "/src/m/sub/x"},
		{"example.com/m", "/src/m", "example.com/m", "/src/m"},
		{"example.com/m", "/src/m", "example.com/m/example.com/m/x", "/src/m/example.com/m/x"},
		{"m", "/src/m", "m/am/m", "/src/m/am/m"},
		{"m", "", "m/x", ""},
		{"", "", "example.com/m/x", "GOPATH"},
	} {
		in := c.interp()
		c.opaque(in, "internal/pkgutil")
		st := in.NewState()
		fs := map[string]*T{"PkgPath": in.T.Str(t.pkg)}
		if t.mod != "" {
			ms := map[string]*T{"Path": in.T.Str(t.mod), "Dir": in.T.Str(t.dir)}
			fs["Module"] = c.object(in, st, "MODULE", mt, ms)
			c.unknowns(in, st, "the module", fs["Module"], mt, ms)
		} else {
			fs["Module"] = in.T.Nil()
		}
		pkg := c.object(in, st, "PACKAGE", pt, fs)
		c.unknowns(in, st, "the package", pkg, pt, fs, "Types", "TypesInfo", "Fset")
		exists, missing := in.T.Sym("EXISTS", tBool), in.T.Sym("MISSING", types.Universe.Lookup("error").Type())
		st.Assume(in.T.Eq(missing, in.T.Nil()), false)
		in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
			if name == "path/filepath.Join" {
				l := in.Resolve(st, args[0])
				if l.Op != "list" {
					return nil
				}
				var ps []string
				for _, a := range l.Args {
					s, ok := st.Norm(a).ConstString()
					if !ok {
						return nil
					}
					ps = append(ps, s)
				}
				return []psa.Ret{{St: st, Kind: "ret", Val: in.T.Str(path.Join(ps...))}}
			}
			one := func(v *T) []psa.Ret { return []psa.Ret{{St: st, Kind: "ret", Val: v}} }
			switch name {
			case "path/filepath.FromSlash", "path/filepath.ToSlash":
				return one(args[0])
			case "os.Stat", "os.Lstat":
				no := st.Clone()
				st.Assume(exists, true)
				no.Assume(exists, false)
				info := in.T.Sym("INFO", call.Typ.(*types.Tuple).At(0).Type())
				return []psa.Ret{{St: st, Kind: "ret", Val: in.T.Mk("agg", nil, call.Typ, info, in.T.Nil())}, {St: no, Kind: "ret", Val: in.T.Mk("agg", nil, call.Typ, in.T.Nil(), missing)}}
			case "os.IsNotExist", "errors.Is":
				switch st.Norm(args[0]) {
				case missing:
					return one(in.T.Bool(true))
				case in.T.Nil():
					return one(in.T.Bool(false))
				}
			}
			return nil
		}
		n := 0
		what := fmt.Sprintf("package %s in module %s at %s", t.pkg, t.mod, t.dir)
		for _, p := range c.run(in, fn, []*T{pkg}, nil, st) {
			if !c.expect(p.Kind == "ret", "place", what, c.ipos(p.At), "asking for the directory of %s can end in a %s", what, p.Kind) {
				continue
			}
			switch {
			case t.want == "":
				n++
				c.expect(fails(p), "place", what, at, "%s has a directory", what)
			case t.want == "GOPATH":
				if p.St.Truth(exists) == 0 {
					c.expect(fails(p), "place", what, at, "%s has a directory although there is none", what)
					continue
				}
				n++
				if !c.expect(!mayFail(p), "place", what, at, "%s has no directory although there is one", what) {
					continue
				}
				v := strip(p.St.Norm(p.Results[0]))
				ok := isCall(v, "path/filepath.Join")
				if ok {
					l := in.Resolve(p.St, v.Args[0])
					k := len(l.Args)
					ok = l.Op == "list" && k >= 2
					var tail []string
					for i := 1; ok && i < k; i++ {
						s, isC := p.St.Norm(l.Args[i]).ConstString()
						ok = ok && isC
						tail = append(tail, s)
					}
					ok = ok && path.Join(tail...) == "src/"+t.pkg
				}
				c.expect(ok, "place", what, at, "the directory of %s is %s, not src/%s of the GOPATH", what, str(v), t.pkg)
			default:
				n++
				s, isC := p.St.Norm(p.Results[0]).ConstString()
				c.expect(isC && s == t.want && p.St.Nil(p.Results[1]) == 1, "place", what, at, "the directory of %s is %s, not %s %s", what, str(p.St.Norm(p.Results[0])), t.want, c.where(p))
			}
		}
		c.expect(n > 0, "place", what, at, "the directory of %s is never told", what)
	}
}

// stdList decides what belongs to the standard library: what loading std lists.
func (c *Ctx) stdList() {
	p := c.pkg("pkgutil")
	pt := importedType(c, "golang.org/x/tools/go/packages", "Package")
	pred := c.fn("pkgutil", "IsStdLibPkg")
	at := c.pos(pred.Pos())
	in := c.interp()
	c.opaque(in, "internal/pkgutil")
	st := in.NewState()
	path := func(name string) *T { return in.T.Sym("path of "+name, types.Typ[types.String]) }
	mkPkg := func(name string) *T {
		return c.object(in, st, "PACKAGE-"+name, pt, map[string]*T{"PkgPath": path(name), "ID": path(name), "Name": in.T.Str("name")})
	}
	a, b, other := mkPkg("STD-A"), mkPkg("STD-B"), mkPkg("OTHER")
	for i, x := range []string{"", "STD-A", "STD-B", "OTHER"} {
		for _, y := range []string{"STD-A", "STD-B", "OTHER"}[i:] {
			l := path(x)
			if x == "" {
				l = in.T.Str("")
			}
			st.Assume(in.T.Eq(l, path(y)), false)
		}
	}
	loads := 0
	in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
		if name != "golang.org/x/tools/go/packages.Load" {
			return nil
		}
		l := in.Resolve(st, args[1])
		if l.Op == "list" && len(l.Args) == 1 {
			if s, _ := st.Norm(l.Args[0]).ConstString(); s == "std" {
				loads++
				return []psa.Ret{{St: st, Kind: "ret", Val: in.T.Mk("agg", nil, call.Typ, listTerm(in, types.NewPointer(pt), a, b), in.T.Nil())}}
			}
		}
		return nil
	}
	// The initialisers run from empty package variables.
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			st.Store(in.Global(g), in.T.Zero(g.Type().(*types.Pointer).Elem()))
		}
	}
	outs := []*psa.State{st}
	var inits []*ssa.Function
	for _, m := range p.Members {
		if f, ok := m.(*ssa.Function); ok && f.Synthetic != "" && f.Name() == "init" {
			inits = append(inits, f)
		}
	}
	for _, f := range inits {
		var next []*psa.State
		for _, s := range outs {
			for _, q := range c.run(in, f, nil, nil, s) {
				if q.Kind == "ret" {
					next = append(next, q.St)
				}
			}
		}
		outs = next
	}
	n := 0
	for _, s := range outs {
		for _, t := range []struct {
			pkg  *T
			want int
		}{{a, 1}, {b, 1}, {other, 0}} {
			for _, q := range c.run(in, pred, []*T{t.pkg}, nil, s.Clone()) {
				n++
				c.expect(q.Kind == "ret" && q.St.Truth(q.Results[0]) == t.want, "std", "IsStdLibPkg", at, "a package is held for one of the standard library although it is not, or the other way round: %s", str(t.pkg))
			}
		}
	}
	c.expect(n > 0 && loads > 0, "std", "IsStdLibPkg", at, "the packages of the standard library are not asked for")
}
