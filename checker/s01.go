package main

import (
	"go/token"
	"go/types"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["S01"] = checkS01 }

func checkS01(c *Ctx) {
	c.explain = "Every order the repository sorts by (types which implement sort.Interface, functions handed to sort.Slice) is interpreted on arbitrary elements, both ways round; the operations which sort are interpreted on lists of arbitrary elements, a model of insertion sort calling the code of the repository."
	c.rule("strict", "no element is before itself and no two elements are each before the other", 2)
	c.rule("complete", "elements none of which is before the other have the same text", 1)
	c.rule("swap", "exchanging two elements exchanges exactly these, and all elements are counted", 1)
	c.rule("sorted", "what sorts gives all elements in the order", 1)
	c.rule("least", "of several references to a type the shortest is picked, and the first by text of those", 1)
	c.sortTypes()
	c.sortFuncs()
	c.sortItems()
	c.pickLeast()
	c.assume = append(c.assume, "package sort sorts as documented when given a strict order")
}

// swapTerm is t with a and b exchanged.
func swapTerm(in *psa.Interp, t, a, b *T) *T {
	memo := map[*T]*T{}
	var walk func(t *T) *T
	walk = func(t *T) *T {
		switch t {
		case a:
			return b
		case b:
			return a
		}
		if t == nil || len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*T, len(t.Args))
		same := true
		for i, x := range t.Args {
			args[i] = walk(x)
			same = same && args[i] == x
		}
		r := t
		if !same {
			switch t.Op {
			case "eq":
				r = in.T.Eq(args[0], args[1])
			default:
				r = in.T.Mk(t.Op, t.Aux, t.Typ, args...)
			}
		}
		memo[t] = r
		return r
	}
	return walk(t)
}

// textOfPointers takes the text of a pointer as a function of the pointer.
func textOfPointers(in *psa.Interp) func(*psa.State, string, *ssa.Function, []*psa.Term, *psa.Call) []psa.Ret {
	return func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
		if shortName(name) != "(internal/pointer.Pointer).String" {
			return nil
		}
		return []psa.Ret{{St: st, Kind: "ret", Val: in.T.Call(name, types.Typ[types.String], args...)}}
	}
}

func isText(t *T) bool {
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// sameText decides whether some text of the element a is known to be that of b.
func sameText(in *psa.Interp, st *psa.State, a, b *T) bool {
	found := false
	seen := map[*T]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if t == nil || seen[t] || found {
			return
		}
		seen[t] = true
		if isText(t) && contains(t, a) && !contains(t, b) {
			u := st.Norm(swapTerm(in, t, a, b))
			if st.Truth(in.T.Eq(t, u)) == 1 || st.Truth(in.T.Cmp(token.LSS, t, u)) == 0 && st.Truth(in.T.Cmp(token.LSS, u, t)) == 0 {
				found = true
				return
			}
		}
		for _, x := range t.Args {
			walk(x)
		}
	}
	for k := range st.FactTerms() {
		walk(k)
	}
	return found
}

// contradictory decides whether what is known to be before what goes round.
func contradictory(st *psa.State) bool {
	type edge struct{ strict, known bool }
	id := map[*T]int{}
	node := func(t *T) int {
		t = st.Norm(t)
		if _, ok := id[t]; !ok {
			id[t] = len(id)
		}
		return id[t]
	}
	type rel struct {
		a, b   int
		strict bool
	}
	var rels []rel
	var apart [][2]int
	for k, v := range st.FactTerms() {
		yes, ok := v.ConstBool()
		if !ok || k.Op != "lt" && k.Op != "eq" {
			continue
		}
		a, b := node(k.Args[0]), node(k.Args[1])
		switch {
		case k.Op == "lt" && yes:
			rels = append(rels, rel{a, b, true})
		case k.Op == "lt":
			rels = append(rels, rel{b, a, false})
		case yes:
			rels = append(rels, rel{a, b, false}, rel{b, a, false})
		default:
			apart = append(apart, [2]int{a, b})
		}
	}
	n := len(id)
	m := make([][]edge, n)
	for i := range m {
		m[i] = make([]edge, n)
	}
	for _, r := range rels {
		e := &m[r.a][r.b]
		e.known, e.strict = true, e.strict || r.strict
	}
	for round := 0; round < 2; round++ {
		for k := 0; k < n; k++ {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if m[i][k].known && m[k][j].known {
						m[i][j].known = true
						m[i][j].strict = m[i][j].strict || m[i][k].strict || m[k][j].strict
					}
				}
			}
		}
		for _, x := range apart {
			for _, y := range [][2]int{x, {x[1], x[0]}} {
				if e := &m[y[0]][y[1]]; e.known {
					e.strict = true
				}
			}
		}
	}
	for i := range m {
		if m[i][i].known && m[i][i].strict {
			return true
		}
	}
	for _, x := range apart {
		if m[x[0]][x[1]].known && m[x[1]][x[0]].known {
			return true
		}
	}
	return false
}

// both runs less(i,j) and less(j,i) one after the other.
func (c *Ctx) both(in *psa.Interp, st *psa.State, less func(st *psa.State, swapped bool) []*psa.Path, visit func(st *psa.State, p *psa.Path, ij, ji int)) {
	for _, p := range less(st, false) {
		if p.Kind != "ret" {
			continue
		}
		for _, s := range split(p, p.Results[0]) {
			ij := s.Truth(s.Norm(p.Results[0]))
			for _, q := range less(s, true) {
				if q.Kind != "ret" {
					continue
				}
				for _, s2 := range split(q, q.Results[0]) {
					visit(s2, q, ij, s2.Truth(s2.Norm(q.Results[0])))
				}
			}
		}
	}
}

// sortTypes decides the orders given by methods.
func (c *Ctx) sortTypes() {
	for _, pkg := range c.spkgs {
		for _, name := range pkg.Pkg.Scope().Names() {
			tn, ok := pkg.Pkg.Scope().Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			lt, ok := tn.Type().(*types.Named)
			if !ok || lt.TypeParams().Len() > 0 {
				continue
			}
			sl, ok := lt.Underlying().(*types.Slice)
			if !ok {
				continue
			}
			ms := map[string]*ssa.Function{}
			for _, m := range []string{"Len", "Less", "Swap"} {
				if sel := c.prog.MethodSets.MethodSet(lt).Lookup(pkg.Pkg, m); sel != nil {
					ms[m] = c.prog.MethodValue(sel)
				}
			}
			if len(ms) < 3 || ms["Less"].Signature.Params().Len() != 2 || ms["Swap"].Signature.Params().Len() != 2 {
				continue
			}
			what := lt.Obj().Pkg().Name() + "." + name
			et := sl.Elem()
			in := c.interp()
			c.opaque(in, pkgShort(pkg.Pkg), pkgShort(c.pkg("pointer").Pkg))
			T := in.T
			in.Model = textOfPointers(in)
			E := []*psa.Term{T.Sym("ELEM-0", et), T.Sym("ELEM-1", et), T.Sym("ELEM-2", et)}
			mk := func() (*psa.State, *psa.Term, *psa.Term) {
				st := in.NewState()
				a := st.NewObj("LIST", types.NewArray(et, 3))
				for i, x := range E {
					st.Store(in.ElemAddr(a, T.Int(int64(i)), types.NewPointer(et)), x)
				}
				return st, T.Mk("slice", nil, lt, a, T.Int(3)), a
			}
			st, l, _ := mk()
			for _, p := range c.run(in, ms["Len"], []*psa.Term{l}, nil, st) {
				n, ok := p.St.Norm(p.Results[0]).ConstInt()
				c.expect(p.Kind == "ret" && ok && n == 3, "swap", what+".Len", c.ipos(p.At), "three elements are counted as %s", str(p.Results[0]))
			}
			for _, x := range [][2]int64{{0, 2}, {2, 1}, {1, 1}} {
				st, l, a := mk()
				for _, p := range c.run(in, ms["Swap"], []*psa.Term{l, T.Int(x[0]), T.Int(x[1])}, nil, st) {
					if p.Kind != "ret" {
						c.violate("swap", what+".Swap", c.ipos(p.At), "exchanging elements panics")
						continue
					}
					w := append([]*psa.Term{}, E...)
					w[x[0]], w[x[1]] = w[x[1]], w[x[0]]
					for i := range w {
						got := p.St.Norm(p.St.Load(in.ElemAddr(a, T.Int(int64(i)), types.NewPointer(et)), et))
						c.expect(got == w[i], "swap", what+".Swap", c.ipos(p.At), "after exchanging elements %d and %d of a %s, element %d is %s", x[0], x[1], what, i, str(got))
					}
				}
			}
			less := ms["Less"]
			for _, x := range [][2]int64{{0, 1}, {2, 0}, {1, 2}} {
				st, l, _ := mk()
				i, j := x[0], x[1]
				n := 0
				c.both(in, st, func(st *psa.State, swapped bool) []*psa.Path {
					a, b := i, j
					if swapped {
						a, b = b, a
					}
					return c.run(in, less, []*psa.Term{l, T.Int(a), T.Int(b)}, nil, st)
				}, func(st *psa.State, p *psa.Path, ij, ji int) {
					n++
					at := c.ipos(p.At)
					c.expect(ij >= 0 && ji >= 0 && !(ij == 1 && ji == 1), "strict", what+".Less", at, "two elements of a %s are each before the other %s", what, c.where(p))
					c.expect(ij != 0 || ji != 0 || sameText(in, st, E[i], E[j]), "complete", what+".Less", at, "two different elements of a %s are in no order %s", what, c.where(p))
					k := 3 - i - j
					for f := range st.FactTerms() {
						c.expect(!contains(f, E[k]), "strict", what+".Less", at, "the order of elements %d and %d depends on element %d", i, j, k)
					}
				})
				c.expect(n > 0, "strict", what+".Less", c.pos(less.Pos()), "the order of %s cannot be told", what)
			}
			// what is before what is before a third is before that
			st, l, _ = mk()
			chain := []*psa.State{st}
			for _, x := range [][2]int64{{0, 1}, {1, 2}} {
				var next []*psa.State
				for _, st := range chain {
					for _, p := range c.run(in, less, []*psa.Term{l, T.Int(x[0]), T.Int(x[1])}, nil, st) {
						if p.Kind != "ret" {
							continue
						}
						for _, s := range split(p, p.Results[0]) {
							if s.Truth(s.Norm(p.Results[0])) == 1 {
								next = append(next, s)
							}
						}
					}
				}
				chain = next
			}
			for _, st := range chain {
				for _, p := range c.run(in, less, []*psa.Term{l, T.Int(0), T.Int(2)}, nil, st) {
					if p.Kind != "ret" {
						continue
					}
					for _, s := range split(p, p.Results[0]) {
						c.expect(s.Truth(s.Norm(p.Results[0])) == 1 || contradictory(s), "strict", what+".Less", c.ipos(p.At), "an element of a %s which is before a second which is before a third need not be before the third %s", what, c.where(p))
					}
				}
			}
			st, l, _ = mk()
			for _, p := range c.run(in, less, []*psa.Term{l, T.Int(1), T.Int(1)}, nil, st) {
				c.expect(p.Kind == "ret" && p.St.Truth(p.St.Norm(p.Results[0])) == 0, "strict", what+".Less", c.ipos(p.At), "an element of a %s is before itself", what)
			}
		}
	}
}

// sortFuncs decides the orders given by functions handed to sort.Slice.
func (c *Ctx) sortFuncs() {
	for _, f := range c.ourFuncs() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				switch calleeOf(ci.Common()) {
				case "sort.Slice", "sort.SliceStable":
				default:
					continue
				}
				for _, mc := range closuresOf(ci.Common().Args[1], f) {
					fn, ok := mc.Fn.(*ssa.Function)
					if !ok || len(fn.Params) != 2 {
						continue
					}
					in := c.interp()
					open := []string{fname(fn)}
					if fn.Synthetic != "" {
						// a method taken as a value
						in.Model = textOfPointers(in)
						for _, b := range fn.Blocks {
							for _, i := range b.Instrs {
								if ci, ok := i.(ssa.CallInstruction); ok {
									if f := ci.Common().StaticCallee(); f != nil && f.Pkg != nil && c.isOurs(f) {
										open = append(open, pkgShort(f.Pkg.Pkg), pkgShort(c.pkg("pointer").Pkg))
									}
								}
							}
						}
					}
					c.opaque(in, open...)
					I, J := in.T.Sym("I", types.Typ[types.Int]), in.T.Sym("J", types.Typ[types.Int])
					var free []*psa.Term
					for _, v := range fn.FreeVars {
						free = append(free, in.Free(v))
					}
					n := 0
					c.both(in, captured(in, fn), func(st *psa.State, swapped bool) []*psa.Path {
						if swapped {
							return c.run(in, fn, []*psa.Term{J, I}, free, st)
						}
						return c.run(in, fn, []*psa.Term{I, J}, free, st)
					}, func(st *psa.State, p *psa.Path, ij, ji int) {
						n++
						c.expect(ij >= 0 && ji >= 0 && !(ij == 1 && ji == 1), "strict", fname(f), c.ipos(p.At), "two elements are each before the other %s", c.where(p))
					})
					c.expect(n > 0, "strict", fname(f), c.pos(fn.Pos()), "the order cannot be told")
					for _, p := range c.run(in, fn, []*psa.Term{I, I}, free, captured(in, fn)) {
						c.expect(p.Kind != "ret" || p.St.Truth(p.St.Norm(p.Results[0])) == 0, "strict", fname(f), c.ipos(p.At), "an element is before itself")
					}
				}
			}
		}
	}
}

// sortItems decides what sorting and listing the entries of a map gives.
func (c *Ctx) sortItems() {
	itT := c.typ("container", "MapItem")
	lt := c.typ("container", "MapSlice")
	for _, m := range []string{"Sort", "Values"} {
		fn := c.method("container", "MapSlice", m)
		for n := 0; n <= 4; n++ {
			in := c.interp()
			T := in.T
			c.opaque(in, "internal/container")
			in.Rec = 9
			in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
				return sorting(in, st, name, args, call)
			}
			st := in.NewState()
			var E []*psa.Term
			a := st.NewObj("LIST", types.NewArray(itT, int64(n)))
			for i := 0; i < n; i++ {
				E = append(E, T.Sym("ITEM-"+string(rune('0'+i)), itT))
				st.Store(in.ElemAddr(a, T.Int(int64(i)), types.NewPointer(itT)), E[i])
			}
			done := 0
			for _, p := range c.run(in, fn, []*psa.Term{T.Mk("slice", nil, lt, a, T.Int(int64(n)))}, nil, st) {
				at := c.ipos(p.At)
				if p.Kind != "ret" {
					c.violate("sorted", m, at, m+" of a list of entries panics "+c.where(p))
					continue
				}
				done++
				l := in.Resolve(p.St, p.Results[0])
				if (l.Op != "list" && l.Op != "nil" && l.Op != "zero") || len(l.Args) != n {
					c.violate("sorted", m, at, m+" of "+string(rune('0'+n))+" entries is "+str(l)+" "+c.where(p))
					continue
				}
				var got []int
				for _, x := range l.Args {
					x = p.St.Norm(x)
					for i, e := range E {
						if m == "Sort" && x == e || m == "Values" && x == p.St.Norm(c.field(in, e, itT, "Val")) {
							got = append(got, i)
						}
					}
				}
				seen := map[int]bool{}
				for _, i := range got {
					seen[i] = true
				}
				c.expect(len(seen) == n, "sorted", m, at, "%s loses entries: %s", m, str(l))
				for k := 1; k < len(got); k++ {
					x, y := E[got[k]], E[got[k-1]] // x must not be before y
					ix, iy := c.field(in, x, itT, "Index"), c.field(in, y, itT, "Index")
					kx, ky := c.field(in, x, itT, "Key"), c.field(in, y, itT, "Key")
					before := p.St.Truth(T.Cmp(token.LSS, ix, iy))
					same := p.St.Truth(T.Eq(ix, iy))
					bykey := p.St.Truth(T.Cmp(token.LSS, kx, ky))
					c.expect(before == 0 && (same == 0 || bykey == 0) || same == 1 && bykey == 0, "sorted", m, at, "%s gives entries out of order %s", m, c.where(p))
				}
			}
			c.expect(done > 0, "sorted", m, c.pos(fn.Pos()), "%s of a list of entries cannot be told", m)
		}
	}
}

// pickLeast decides which of the references to a type is taken.
func (c *Ctx) pickLeast() {
	fn := c.method("types", "pointmap", "pick")
	lt := c.typ("types", "points")
	pt := c.typ("types", "point")
	ptrT := c.typ("pointer", "Pointer")
	strT := types.Typ[types.String]
	for n := 0; n <= 4; n++ {
		in := c.interp()
		T := in.T
		c.opaque(in, pkgShort(c.pkg("types").Pkg), pkgShort(c.pkg("pointer").Pkg))
		in.Rec = 9
		var E []*psa.Term
		st := in.NewState()
		a := st.NewObj("LIST", types.NewArray(pt, int64(n)))
		text := func(e *psa.Term) *psa.Term {
			return T.Call("("+modPath+"/internal/pointer.Pointer).String", strT, c.field(in, e, pt, "Pointer"))
		}
		size := func(e *psa.Term) *psa.Term {
			return T.Len(c.field(in, c.field(in, e, pt, "Pointer"), ptrT, "Fragment"))
		}
		for i := 0; i < n; i++ {
			E = append(E, T.Sym("POINT-"+string(rune('0'+i)), pt))
			st.Store(in.ElemAddr(a, T.Int(int64(i)), types.NewPointer(pt)), E[i])
		}
		in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
			switch shortName(name) {
			case "(*golang.org/x/tools/go/types/typeutil.Map).At":
				if n == 0 {
					return []psa.Ret{{St: st, Kind: "ret", Val: T.Nil()}}
				}
				return []psa.Ret{{St: st, Kind: "ret", Val: T.Mk("iface", nil, lt, T.Mk("slice", nil, lt, a, T.Int(int64(n))))}}
			}
			if rs := textOfPointers(in)(st, name, f, args, call); rs != nil {
				return rs
			}
			return sorting(in, st, name, args, call)
		}
		typ := in.Param(fn.Params[1])
		st.Assume(T.Eq(typ, T.Nil()), false)
		for _, p := range c.run(in, fn, nil, nil, st) {
			at := c.ipos(p.At)
			if p.Kind != "ret" {
				c.violate("least", "pick", at, "picking a reference panics "+c.where(p))
				continue
			}
			ok := p.St.Truth(p.St.Norm(p.Results[1]))
			if n == 0 {
				c.expect(ok == 0, "least", "pick", at, "a reference is picked where there is none")
				continue
			}
			got := -1
			for i, e := range E {
				if p.St.Norm(p.Results[0]) == e {
					got = i
				}
			}
			if ok != 1 || got < 0 {
				c.violate("least", "pick", at, "of references to a type "+str(p.Results[0])+" is picked "+c.where(p))
				continue
			}
			sizes, ok1 := orderOf(in, p.St, E, size)
			texts, ok2 := orderOf(in, p.St, E, text)
			if !ok1 || !ok2 {
				continue // no references are like that
			}
			for i := range E {
				if i == got {
					continue
				}
				less := sizes[got][i] == 2 || sizes[got][i] == 1 && texts[got][i] > 0
				c.expect(less, "least", "pick", at, "another than the least reference to a type is picked %s", c.where(p))
			}
			c.ok("least")
		}
	}
}

// orderOf yields what the state knows of the order of the values key has for
// xs: 2 where the one is before the other, 1 where it is not behind it, 0 where
// that is not known. It tells if there are such values.
func orderOf(in *psa.Interp, st *psa.State, xs []*psa.Term, key func(*psa.Term) *psa.Term) ([][]int, bool) {
	n := len(xs)
	rel := make([][]int, n)
	for i := range rel {
		rel[i] = make([]int, n)
		rel[i][i] = 1
	}
	put := func(i, j, v int) {
		if rel[i][j] < v {
			rel[i][j] = v
		}
	}
	for i := range xs {
		for j := range xs {
			if i == j {
				continue
			}
			switch st.Truth(in.T.Cmp(token.LSS, key(xs[i]), key(xs[j]))) {
			case 1:
				put(i, j, 2)
			case 0:
				put(j, i, 1)
			}
			if st.Truth(in.T.Eq(key(xs[i]), key(xs[j]))) == 1 {
				put(i, j, 1)
			}
		}
	}
	for again := true; again; {
		again = false
		for k := range xs {
			for i := range xs {
				for j := range xs {
					if rel[i][k] > 0 && rel[k][j] > 0 && rel[i][j] < max(rel[i][k], rel[k][j]) {
						rel[i][j] = max(rel[i][k], rel[k][j])
						again = true
					}
				}
			}
		}
		for i := range xs {
			for j := range xs {
				if rel[i][j] == 1 && i != j && st.Truth(in.T.Eq(key(xs[i]), key(xs[j]))) == 0 {
					rel[i][j], again = 2, true
				}
			}
		}
	}
	for i := range xs {
		if rel[i][i] == 2 {
			return nil, false
		}
	}
	return rel, true
}
