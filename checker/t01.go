package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["T01"] = checkT01 }

// ring is a set of functions which call each other.
type ring struct {
	fns []*ssa.Function
	in  map[*ssa.Function]bool
}

// rings lists the functions which can call themselves, through others or
// not.
func (c *Ctx) rings(fns []*ssa.Function) []*ring { return c.ringsAmong(fns, fns) }

// ringsAmong is rings for some of the functions of a program.
func (c *Ctx) ringsAmong(fns, all []*ssa.Function) []*ring {
	own := map[*ssa.Function]bool{}
	for _, f := range fns {
		own[f] = true
	}
	taken := takenBy(all)
	succ := map[*ssa.Function][]*ssa.Function{}
	for _, f := range fns {
		succ[f] = c.targets(f, all, own, taken)
	}
	// Tarjan
	index, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var out []*ring
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		index[f] = len(index) + 1
		low[f] = index[f]
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, g := range succ[f] {
			if g == f {
				self = true
			}
			if index[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && index[g] < low[f] {
				low[f] = index[g]
			}
		}
		if low[f] == index[f] {
			r := &ring{in: map[*ssa.Function]bool{}}
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				r.fns = append(r.fns, g)
				r.in[g] = true
				if g == f {
					break
				}
			}
			if len(r.fns) > 1 || self {
				sort.Slice(r.fns, func(i, j int) bool { return r.fns[i].RelString(nil) < r.fns[j].RelString(nil) })
				out = append(out, r)
			}
		}
	}
	for _, f := range fns {
		if index[f] == 0 {
			visit(f)
		}
	}
	return out
}

// targets lists the functions of ours a function can call.
func (c *Ctx) targets(f *ssa.Function, fns []*ssa.Function, own, taken map[*ssa.Function]bool) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(g *ssa.Function) {
		if g != nil && own[g] && !seen[g] {
			seen[g] = true
			out = append(out, g)
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if cc.IsInvoke() {
				iface, _ := cc.Value.Type().Underlying().(*types.Interface)
				for _, g := range fns {
					if recv := g.Signature.Recv(); recv != nil && g.Name() == cc.Method.Name() && iface != nil && (types.Implements(recv.Type(), iface) || types.Implements(types.NewPointer(recv.Type()), iface)) {
						add(g)
					}
				}
				continue
			}
			if g := cc.StaticCallee(); g != nil {
				if o := g.Origin(); o != nil {
					g = o
				}
				add(g)
				if c.isOurs(g) {
					continue
				}
				// library functions call what they are given
				for i, a := range cc.Args {
					switch x := a.(type) {
					case *ssa.MakeClosure:
						add(x.Fn.(*ssa.Function))
					case *ssa.Function:
						add(x)
					case *ssa.MakeInterface:
						k := i
						if g.Signature.Recv() != nil {
							k--
						}
						if k < 0 || k >= g.Signature.Params().Len() {
							continue
						}
						iface, ok := g.Signature.Params().At(k).Type().Underlying().(*types.Interface)
						if !ok {
							continue
						}
						for i := 0; i < iface.NumMethods(); i++ {
							if sel := c.prog.MethodSets.MethodSet(x.X.Type()).Lookup(nil, iface.Method(i).Name()); sel != nil {
								if obj, ok := sel.Obj().(*types.Func); ok {
									add(c.prog.FuncValue(obj))
								}
							}
						}
					}
				}
				continue
			}
			if _, ok := cc.Value.(*ssa.Builtin); ok {
				continue
			}
			gs, known := c.heldBy(cc.Value, f, fns, map[ssa.Value]bool{})
			if !known {
				gs = nil
				for _, g := range fns {
					if taken[g] && types.Identical(g.Signature, cc.Value.Type().Underlying()) {
						gs = append(gs, g)
					}
				}
			}
			for _, g := range gs {
				add(g)
			}
		}
	}
	return out
}

// takenBy lists the functions used as values.
func takenBy(fns []*ssa.Function) map[*ssa.Function]bool {
	taken := map[*ssa.Function]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					taken[mc.Fn.(*ssa.Function)] = true
				}
				var callee ssa.Value
				if ci, ok := ins.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && (*op != callee) {
						taken[g] = true
					}
				}
			}
		}
	}
	return taken
}

// heldBy lists the functions a value may be; known is false if there may be
// others.
func (c *Ctx) heldBy(v ssa.Value, f *ssa.Function, fns []*ssa.Function, seen map[ssa.Value]bool) (out []*ssa.Function, known bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	all := func(vs ...ssa.Value) (out []*ssa.Function, known bool) {
		known = true
		for _, x := range vs {
			p := f
			if ins, ok := x.(ssa.Instruction); ok {
				p = ins.Parent()
			}
			if a, ok := x.(*ssa.Parameter); ok {
				p = a.Parent()
			}
			if a, ok := x.(*ssa.FreeVar); ok {
				p = a.Parent()
			}
			gs, ok := c.heldBy(x, p, fns, seen)
			out, known = append(out, gs...), known && ok
		}
		return
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}, true
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}, true
	case *ssa.Const:
		return nil, true
	case *ssa.ChangeType:
		return all(x.X)
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			if g := cl.Call.StaticCallee(); g != nil && !c.isOurs(g) {
				return nil, true // a function of the library
			}
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			if !c.isOurs(g) {
				return nil, true
			}
			var vs []ssa.Value
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					vs = append(vs, r.Results[0])
				}
			}
			return all(vs...)
		}
	case *ssa.Phi:
		return all(x.Edges...)
	case *ssa.UnOp:
		switch cell := x.X.(type) {
		case *ssa.Alloc:
			var vs []ssa.Value
			for _, r := range *cell.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Addr != ssa.Value(cell) {
						return nil, false
					}
					vs = append(vs, y.Val)
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.MakeClosure:
					for k, b := range y.Bindings {
						if b == ssa.Value(cell) {
							w := writtenTo(y.Fn.(*ssa.Function), k)
							if len(w) == 0 {
								return nil, false
							}
							vs = append(vs, w...)
						}
					}
				default:
					return nil, false
				}
			}
			return all(vs...)
		case *ssa.FreeVar:
			for k, fv := range f.FreeVars {
				if fv == cell {
					w := writtenTo(f, k)
					if len(w) == 0 {
						return nil, false
					}
					return all(w...)
				}
			}
		}
	case *ssa.FreeVar:
		for k, fv := range f.FreeVars {
			if fv == x && f.Parent() != nil {
				var vs []ssa.Value
				for _, b := range f.Parent().Blocks {
					for _, ins := range b.Instrs {
						if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
							vs = append(vs, mc.Bindings[k])
						}
					}
				}
				return all(vs...)
			}
		}
	case *ssa.Parameter:
		p := x.Parent()
		k := -1
		for i, q := range p.Params {
			if q == x {
				k = i
			}
		}
		if k < 0 || takenBy(fns)[p] {
			return nil, false
		}
		var vs []ssa.Value // what functions of ours pass
		for _, g := range fns {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == p {
						vs = append(vs, ci.Common().Args[k])
					}
				}
			}
		}
		return all(vs...)
	}
	return nil, false
}

func checkT01(c *Ctx) {
	c.explain = "Every set of functions which can call each other is listed from the call graph, and every loop of every function. A set of functions is interpreted from one function until it is called again: on every such path what is passed has to be a part of what was given, a shorter list or text, a smaller distance from a bound, or something added to what was visited already, after it was not found there. On every path through a loop a distance which cannot be negative has to shrink, or something is added to what was visited."
	c.assume = append(c.assume, "documents are trees, there are finitely many types, packages and references to visit, and library functions end")
	c.rule("recursion", "functions which call themselves get closer to an end", 5)
	c.rule("loops", "loops get closer to an end", 15)
	fns, _ := c.reachable()
	for _, fn := range fns {
		if fn.Synthetic == "" {
			c.funcs[fn] = true
		}
	}
	rs := c.rings(fns)
	for _, r := range rs {
		var bad []verdict
		good := false
		for _, cut := range c.cuts(r, fns) {
			bad = nil
			good = true
			for _, f := range cut {
				if v := c.reentries(f, r); v.bad != "" {
					good = false
					bad = append(bad, v)
				}
			}
			if good {
				break
			}
		}
		name := fname(r.fns[0])
		if len(r.fns) > 1 {
			name += " and others"
		}
		if good {
			c.ok("recursion")
		} else if len(bad) > 0 {
			c.violate("recursion", fname(bad[0].fn), bad[0].at, bad[0].bad)
		} else {
			c.violate("recursion", name, c.pos(r.fns[0].Pos()), "these functions call each other without an end")
		}
	}
	c.count("sets of functions which call each other", len(rs))
	for _, fn := range fns {
		c.loops(fn)
	}
}

type verdict struct {
	fn      *ssa.Function
	at, bad string
}

// cuts lists the ways to break a ring: the functions without which no other
// ones call each other.
func (c *Ctx) cuts(r *ring, fns []*ssa.Function) (out [][]*ssa.Function) {
	for _, f := range r.fns {
		var rest []*ssa.Function
		for _, g := range fns {
			if g != f && r.in[g] {
				rest = append(rest, g)
			}
		}
		if len(c.ringsAmong(rest, fns)) == 0 {
			out = append(out, []*ssa.Function{f})
		}
	}
	if len(out) == 0 {
		out = append(out, r.fns)
	}
	return
}

// measure is why a path to a recursive call cannot go on for ever; reasons
// which hold for all calls of a function decide.
type measure struct {
	kind string
	i    int
}

// reentries judges all calls of f which can happen while f runs.
const tooLarge = "the analysis is too large: "

func (c *Ctx) reentries(f *ssa.Function, r *ring) verdict {
	v := c.reentered(f, r, false)
	if v.bad != "" {
		if w := c.reentered(f, r, true); w.bad == "" || !strings.HasPrefix(w.bad, tooLarge) {
			return w
		}
	}
	return v
}

func (c *Ctx) reentered(f *ssa.Function, r *ring, wide bool) verdict {
	// what is passed on by others is told by those which handle lists and maps
	handles := func(g *ssa.Function) bool {
		if g.Parent() != nil {
			return true
		}
		for _, p := range g.Params {
			switch p.Type().Underlying().(type) {
			case *types.Slice, *types.Map:
				return true
			}
		}
		return false
	}
	interp := func(unroll bool) *psa.Interp {
		in := c.interp()
		in.NoUnroll = !unroll
		in.MaxSteps = 1500000
		in.Pure = func(name string) bool { return ourPure[shortName(name)] }
		in.Opaque = func(g *ssa.Function, stack []*ssa.Function) bool {
			return g == f && len(stack) > 0 || !c.isOurs(g) || !r.in[g] && (api[fname(g)] || !wide && !handles(g))
		}
		return in
	}
	var common map[measure]bool
	v := verdict{fn: f, at: c.pos(f.Pos())}
	n := 0
	seen := map[string]bool{}
	in := interp(false)
	in.Probe = func(st *psa.State, e *psa.Event) {
		if !isEntry(e, f) {
			return
		}
		got := c.measures(in, st, f, e, nil)
		key := c.ipos(e.Instr)
		for m := range got {
			key += " " + m.kind + str(in.T.Int(int64(m.i)))
		}
		n++
		if !seen[key] {
			seen[key] = true
		}
		if common == nil {
			common = got
		} else {
			for m := range common {
				if !got[m] {
					delete(common, m)
				}
			}
		}
		if len(common) == 0 && v.bad == "" {
			var as []string
			for _, a := range e.Args {
				as = append(as, str(a))
			}
			v.at = c.ipos(e.Instr)
			v.bad = "nothing shows that this call of itself ends: " + shorten(strings.Join(as, ", "), 300)
			if cs := st.Conds(); len(cs) > 0 && len(cs) < 12 {
				v.bad += " [" + strings.Join(cs, "; ") + "]"
			}
		}
	}
	in.Run(f, nil, nil, captured(in, f))
	in.Probe = nil
	if in.Overflow != "" {
		v.bad = tooLarge + in.Overflow
	}
	if v.bad != "" {
		return v
	}
	if n == 0 {
		v.bad = "the calls of itself cannot be followed"
		return v
	}
	c.count("recursive calls judged", n)
	for m := range common {
		if m.kind != "list" {
			return v
		}
	}
	// lists of what was visited: once more, with a list of some
	for m := range common {
		in := interp(true)
		args := make([]*T, len(f.Params))
		for i, p := range f.Params {
			args[i] = in.Param(p)
		}
		lt := f.Params[m.i].Type()
		et := lt.Underlying().(*types.Slice).Elem()
		var els []*T
		for i := 0; i < 40; i++ {
			els = append(els, in.T.Sym("VISITED"+strconv.Itoa(i), et))
		}
		args[m.i] = in.T.Mk("list", nil, lt, els...)
		v.bad = ""
		seenOnce := false
		in.Probe = func(st *psa.State, e *psa.Event) {
			if !isEntry(e, f) {
				return
			}
			seenOnce = true
			if why := c.fresh(in, st, e, args, m.i, els); why != "" && v.bad == "" {
				v.at = c.ipos(e.Instr)
				v.bad = why
			}
		}
		in.Run(f, args, nil, captured(in, f))
		in.Probe = nil
		if in.Overflow != "" {
			v.bad = tooLarge + in.Overflow
		}
		if !seenOnce {
			v.bad = "the calls of itself cannot be followed"
		}
		if v.bad == "" {
			return v
		}
	}
	return v
}

// earlier reports that an event came before another one.
func earlier(a, b *psa.Event) bool {
	for e := b.Prev; e != nil; e = e.Prev {
		if e == a {
			return true
		}
	}
	return false
}

func isEntry(e *psa.Event, f *ssa.Function) bool {
	return (e.Kind == "call" || e.Kind == "go" || e.Kind == "defer") && e.Fn == f
}

// measures lists why a recursive call gets closer to an end.
func (c *Ctx) measures(in *psa.Interp, st *psa.State, f *ssa.Function, e *psa.Event, _ []*T) map[measure]bool {
	out := map[measure]bool{}
	for i, p := range f.Params {
		if i >= len(e.Args) {
			continue
		}
		was, is := in.Param(p), st.Norm(e.Args[i])
		if is == was {
			continue
		}
		if partOf(st, is, was, 0) == 2 {
			out[measure{"part", i}] = true
		}
		switch p.Type().Underlying().(type) {
		case *types.Slice:
			b := newBounds(in, st)
			d := b.length(was).add(b.length(is), -1)
			d.k--
			if b.nonneg(d, 4) {
				out[measure{"shorter", i}] = true
			}
			if l := in.Resolve(st, is); l.Op == "cat" && len(l.Args) >= 2 && st.Norm(l.Args[0]) == was {
				out[measure{"list", i}] = true
			}
		case *types.Basic:
			b := newBounds(in, st)
			if isIntT(p.Type()) {
				d := b.linear(is).add(b.linear(was), -1)
				if len(d.c) != 0 || d.k == 0 {
					continue
				}
				lo, hi, ok := st.Range(was)
				if ok && (d.k > 0 && hi < inf || d.k < 0 && lo > -inf) {
					out[measure{"bound", i}] = true
				}
				continue
			}
			d := b.length(was).add(b.length(is), -1)
			d.k--
			if b.nonneg(d, 4) {
				out[measure{"shorter", i}] = true
			}
		}
	}
	if m := visited(in, st, nil, func(m *T) bool {
		return samePlace(in, st, f, e, m)
	}, func(k *T) bool {
		for i, p := range f.Params {
			if in.Param(p) == k && i < len(e.Args) {
				return notIn(st, e.Args[i])
			}
		}
		return false
	}); m {
		out[measure{"visited", 0}] = true
	}
	return out
}

// samePlace: what m was reached from is passed on as it was.
func samePlace(in *psa.Interp, st *psa.State, f *ssa.Function, e *psa.Event, m *T) bool {
	ok := true
	hasPart(m, func(t *T) bool {
		for i, p := range f.Params {
			if in.Param(p) == t && (i >= len(e.Args) || st.Norm(e.Args[i]) != t) {
				ok = false
			}
		}
		if t.Op == "alloc" || t.Op == "make" || t.Op == "call" && !psa.IsPure(t.Callee()) {
			ok = false // made while f runs
		}
		return false
	})
	return ok
}

// notIn: some map does not have the key.
func notIn(st *psa.State, k *T) bool {
	k = st.Norm(k)
	for f, v := range st.FactTerms() {
		if yes, ok := v.ConstBool(); ok && !yes && (f.Op == "has" || f.Op == "lookup") && st.Norm(f.Args[1]) == k {
			return true
		}
	}
	return false
}

// visited reports that the path puts a key into a map which did not have it.
func visited(in *psa.Interp, st *psa.State, from *psa.Event, same func(m *T) bool, other func(k *T) bool) bool {
	started := from == nil
	for _, e := range st.Events() {
		if e == from {
			started = true
		}
		if !started || e.Kind != "mapset" {
			continue
		}
		m, k := st.Norm(e.Args[0]), st.Norm(e.Args[1])
		if !same(m) {
			continue
		}
		gone := false
		for _, d := range st.Events() {
			if (d.Kind == "mapdel" || d.Kind == "mapset" && d != e && st.Norm(d.Args[1]) == k) && st.Norm(d.Args[0]) == m && earlier(e, d) {
				gone = true
			}
		}
		if gone {
			continue
		}
		for f, v := range st.FactTerms() {
			if yes, ok := v.ConstBool(); ok && !yes && (f.Op == "has" || f.Op == "lookup") && sameMap(in, st, f.Args[0], m) && st.Norm(f.Args[1]) == k {
				if f.Op == "has" || st.Truth(e.Args[2]) == 1 {
					return true
				}
			}
		}
		if other(k) && (!types.Identical(typeOfT(e.Args[2]), tBool) || st.Truth(e.Args[2]) == 1) {
			return true
		}
	}
	return false
}

// sameMap: x is the map m, or what it held at some time.
func sameMap(in *psa.Interp, st *psa.State, x, m *T) bool {
	x = st.Norm(x)
	if x == m {
		return true
	}
	if r := in.Root(x); r != nil && r == m {
		return true
	}
	return (x.Op == "loopmem" || x.Op == "buf" || x.Op == "mapof") && hasPart(x, func(t *T) bool { return t == m })
}

// partOf is 2 for what is inside of a document, 1 for the document.
func partOf(st *psa.State, t, whole *T, depth int) int {
	t = st.Norm(t)
	if t == whole {
		return 1
	}
	if depth > 40 || len(t.Args) == 0 {
		return 0
	}
	up := func(k int) int {
		n := partOf(st, t.Args[0], whole, depth+1)
		if n == 0 {
			return 0
		}
		if k > n {
			return k
		}
		return n
	}
	switch t.Op {
	case "as", "iface", "conv", "clip", "sliceof", "content":
		return up(1)
	case "lookup", "elem":
		return up(2)
	case "slice", "sub":
		return up(1)
	case "loopmem", "loopphi":
		for _, v := range st.Interp().BackOn(st, t) {
			if t.Op == "loopphi" && v != t && !hasPart(v, func(x *T) bool { return x == t }) && partOf(st, v, whole, depth+5) == 0 {
				return 0
			}
		}
		if r := st.Interp().Root(t); r != nil {
			return partOf(st, r, whole, depth+1)
		}
		return up(1)
	case "field":
		if t.Args[0].Typ != nil {
			if _, ok := t.Args[0].Typ.Underlying().(*types.Struct); ok {
				return up(1)
			}
		}
	case "extract":
		if t.Args[0].Op == "lookup" {
			return partOf(st, t.Args[0], whole, depth+1)
		}
	}
	if cl, i := callOf(t); cl != nil && i <= 0 && len(cl.Args) > 0 {
		switch cl.Callee() {
		case "(*github.com/Jeffail/gabs/v2.Container).Data", "github.com/Jeffail/gabs/v2.Wrap":
			return partOf(st, cl.Args[0], whole, depth+1)
		case "(*github.com/Jeffail/gabs/v2.Container).ChildrenMap", "(*github.com/Jeffail/gabs/v2.Container).Children":
			return partOf(st, cl.Args[0], whole, depth+1)
		}
	}
	return 0
}

// like reports that a is b with x in place of y.
func like(st *psa.State, a, b, x, y *T, depth int) bool {
	a, b = st.Norm(a), st.Norm(b)
	if a == x && b == y || a == b {
		return true
	}
	if depth > 30 || a.Op != b.Op || a.Aux != b.Aux || len(a.Args) != len(b.Args) || len(a.Args) == 0 {
		return false
	}
	for i := range a.Args {
		if a.Args[i] == nil || b.Args[i] == nil {
			if a.Args[i] != b.Args[i] {
				return false
			}
			continue
		}
		if !like(st, a.Args[i], b.Args[i], x, y, depth+1) {
			return false
		}
	}
	return true
}

// differs: the path shows that a visited element is not the key.
func differs(st *psa.State, el, key *T) bool {
	for f, v := range st.FactTerms() {
		if yes, ok := v.ConstBool(); !ok || yes || len(f.Args) != 2 {
			continue
		}
		if f.Op != "eq" && !isCall(f, "go/types.Identical") && !isCall(f, "reflect.DeepEqual") {
			continue
		}
		for i, a := range f.Args {
			if b := f.Args[1-i]; psa.Contains(a, el) && like(st, a, b, el, key, 0) && a != b {
				return true
			}
		}
	}
	return false
}

// fresh tells why a list of what was visited may not stop a recursive call:
// what the call adds was not compared with all of the list.
func (c *Ctx) fresh(in *psa.Interp, st *psa.State, e *psa.Event, args []*T, at int, els []*T) string {
	l := in.Resolve(st, e.Args[at])
	if l.Op != "list" {
		return "the list of what was visited is " + shorten(str(l), 200)
	}
	var added []*T
	kept := 0
	for _, x := range l.Args {
		old := false
		for _, y := range els {
			old = old || st.Norm(x) == y
		}
		if old {
			kept++
		} else {
			added = append(added, st.Norm(x))
		}
	}
	if kept < len(els) {
		return "a part of what was visited is forgotten: " + shorten(str(l), 200)
	}
	if len(added) == 0 {
		return "nothing is added to the list of what was visited"
	}
	for _, k := range added {
		all := true
		for _, y := range els {
			all = all && differs(st, y, k)
		}
		if all {
			return ""
		}
		for i, p := range args {
			if k != p || i == at {
				continue
			}
			all := true
			for _, y := range append([]*T{k}, els...) {
				all = all && differs(st, y, st.Norm(e.Args[i]))
			}
			if all {
				return ""
			}
		}
	}
	return "what is added to the list of what was visited was not compared with all of the list: " + shorten(str(l), 200)
}

// loops judges the loops of a function.
func (c *Ctx) loops(fn *ssa.Function) {
	heads := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				heads[s] = true
			}
		}
	}
	todo := map[*ssa.BasicBlock]bool{}
	for h := range heads {
		if waits(h) {
			c.ok("loops")
		} else {
			todo[h] = true
		}
	}
	if len(todo) == 0 {
		return
	}
	var why map[*ssa.BasicBlock]verdict
	for _, wide := range []bool{false, true} {
		in := c.interp()
		in.NoUnroll = true
		in.MaxSteps = 400000
		in.Pure = func(name string) bool { return ourPure[shortName(name)] }
		in.Opaque = func(f *ssa.Function, stack []*ssa.Function) bool {
			if !wide || !c.isOurs(f) || api[fname(f)] {
				return f != fn || len(stack) > 0
			}
			for _, s := range stack {
				if s == f {
					return true
				}
			}
			return false
		}
		why = map[*ssa.BasicBlock]verdict{}
		paths := map[*ssa.BasicBlock][]*psa.Path{}
		for _, p := range c.run(in, fn, nil, nil, captured(in, fn)) {
			if p.Kind == "back" && p.Fn == fn && todo[p.Loop] {
				paths[p.Loop] = append(paths[p.Loop], p)
			}
		}
		for h := range todo {
			if v := c.ends(in, h, paths[h]); v.bad != "" {
				why[h] = v
			} else {
				delete(todo, h)
				c.ok("loops")
			}
		}
		if len(todo) == 0 {
			return
		}
	}
	for _, b := range fn.Blocks {
		if todo[b] {
			c.violate("loops", fname(fn), why[b].at, why[b].bad)
		}
	}
}

// waits: the loop goes over a map or a text, or waits for something to happen.
func waits(h *ssa.BasicBlock) bool {
	for _, ins := range h.Instrs {
		switch x := ins.(type) {
		case *ssa.Next:
			return true
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return true
			}
		}
	}
	return false
}

// ends decides whether a loop ends, from the paths through it.
func (c *Ctx) ends(in *psa.Interp, h *ssa.BasicBlock, ps []*psa.Path) verdict {
	var rest []*psa.Path
	for _, p := range ps {
		var from *psa.Event
		for _, e := range p.Events {
			if e.Kind == "loop" && e.Instr.Block() == h {
				from = e
			}
		}
		if from != nil && visited(in, p.St, from, func(m *T) bool {
			inside := false
			for _, e := range p.Events {
				inside = inside || e.Res == m && earlier(from, e)
			}
			return !inside && m.Op != "make"
		}, func(*T) bool { return false }) {
			continue
		}
		rest = append(rest, p)
	}
	groups := map[int][]*psa.Path{}
	for _, p := range rest {
		k := p.St.Entry(p.Site)
		groups[k] = append(groups[k], p)
	}
	for _, g := range groups {
		if p := c.ranks(in, h, g); p != nil {
			return verdict{at: c.ipos(p.At), bad: "nothing shows that this loop ends " + c.where(p)}
		}
	}
	return verdict{}
}

// ranks looks for a distance which shrinks on all paths through a loop; if
// there is none it answers with one of them.
func (c *Ctx) ranks(in *psa.Interp, h *ssa.BasicBlock, rest []*psa.Path) *psa.Path {
	var cand []*linear
	b := newBounds(in, rest[0].St)
	cand = append(cand, b.facts...)
	for t := range rest[0].Next {
		cand = append(cand, b.about(t)...)
		if _, ok := typeOfT(t).(*types.Slice); ok || types.Identical(t.Typ, tString) {
			cand = append(cand, b.length(t))
		}
	}
	var worst *psa.Path
	for _, f := range cand {
		all := true
		for _, p := range rest {
			if !c.shrinks(in, h, p, f) {
				all = false
				worst = p
				break
			}
		}
		if all {
			return nil
		}
	}
	if worst == nil {
		worst = rest[0]
	}
	return worst
}

// shrinks: f is not negative on a path through a loop, and less at its end.
func (c *Ctx) shrinks(in *psa.Interp, h *ssa.BasicBlock, p *psa.Path, f *linear) bool {
	b := newBounds(in, p.St)
	if !b.nonneg(f, 4) {
		return false
	}
	next := &linear{f.k, map[*T]int64{}}
	for t, n := range f.c {
		l := c.after(in, b, h, p, t)
		if l == nil {
			return false
		}
		next = next.add(l, n)
	}
	d := f.add(next, -1)
	d.k--
	return b.nonneg(d, 4)
}

// after is what a number is at the end of a path through a loop, nil if that
// is not known.
func (c *Ctx) after(in *psa.Interp, b *bounds, h *ssa.BasicBlock, p *psa.Path, t *T) *linear {
	if v := p.Next[t]; v != nil {
		return b.linear(v)
	}
	if t.Op == "len" {
		if v := p.Next[t.Args[0]]; v != nil {
			return b.length(v)
		}
	}
	var from *psa.Event
	for _, e := range p.Events {
		if e.Kind == "loop" && e.Instr.Block() == h {
			from = e
		}
	}
	now := p.St.Since(p.Site)
	if hasPart(t, func(x *T) bool {
		switch x.Op {
		case "mapkey", "strkey":
			return p.St.RangesIn(x, now)
		case "loopphi", "loopmem":
			if a, ok := x.Aux.(psa.LoopAux); !ok || !now[a.Site] {
				return false // of a loop before this one, or around it
			}
			if p.Next[x] != nil {
				return true
			}
			for _, v := range in.BackOn(p.St, x) {
				if p.St.Norm(v) != x {
					return true
				}
			}
		case "call":
			if a, ok := x.Aux.(psa.CallAux); ok && a.Site == 0 {
				return false
			}
			for _, e := range p.Events {
				if e.Res == x && (from == nil || earlier(from, e)) {
					return true
				}
			}
		}
		return false
	}) {
		return nil
	}
	return &linear{0, map[*T]int64{t: 1}}
}

func shorten(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
