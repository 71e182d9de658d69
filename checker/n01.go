package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["N01"] = checkN01 }

// hazards decides the instructions which could panic.
type hazards struct {
	c       *Ctx
	own     map[*ssa.Function]bool
	roots   map[*ssa.Function]bool
	dynamic map[*ssa.Function]bool
	callers map[*ssa.Function]map[*ssa.Function]bool
	callees map[*ssa.Function]map[*ssa.Function]bool
	sorted  map[*ssa.Function]bool // called by package sort with positions
	sites   map[ssa.Instruction]*site
	fields  map[string]bool
	runs    int
}

type site struct {
	ins  ssa.Instruction
	fn   *ssa.Function
	rule string
	seen bool
	bad  string
}

func checkN01(c *Ctx) {
	c.explain = "Every position in a list or text, every part taken of one, every conversion which may fail, every entry put into a map, every use of a value which may be absent and every explicit panic in what a scan can run is enumerated; each is shown to be safe on every path of its function, or else on every path of each of its callers."
	c.assume = append(c.assume, "comments start with two characters (// or /*), os.Args has the name of the program, package sort asks for positions which exist, and what a container holds stays the same until something is written")
	c.assume = append(c.assume, "objects found in the scope of a package belong to that package")
	c.rule("range", "positions are within the list or text, and lists which are made have room for their elements", 12)
	c.rule("absent", "values which may be absent are not used unless they are there", 6)
	c.rule("maps", "nothing is put into a map which was not made", 4)
	c.rule("conversions", "no conversion of an interface value can fail", 0)
	c.rule("panics", "nothing panics on purpose", 0)
	fns, roots := c.reachable()
	h := &hazards{c: c, own: map[*ssa.Function]bool{}, roots: roots, dynamic: map[*ssa.Function]bool{}, callers: map[*ssa.Function]map[*ssa.Function]bool{}, sorted: map[*ssa.Function]bool{}, sites: map[ssa.Instruction]*site{}, callees: map[*ssa.Function]map[*ssa.Function]bool{}, fields: map[string]bool{}}
	for _, fn := range fns {
		h.own[fn] = true
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				h.refs(fn, ins)
			}
		}
	}
	// positions are asked for by package sort, or by those who call it
	for _, fn := range fns {
		for g := range h.callers[fn] {
			if g.Synthetic == "" && fn.Parent() == nil {
				delete(h.sorted, fn)
			}
		}
		if len(h.callers[fn]) == 0 && sortMethod(fn) {
			h.sorted[fn] = true
		}
	}
	for _, fn := range fns {
		if fn.Synthetic != "" {
			continue
		}
		c.funcs[fn] = true
		h.decide(fn)
	}
	var all []*site
	for _, s := range h.sites {
		all = append(all, s)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].ins.Pos() < all[j].ins.Pos() })
	for _, s := range all {
		c.expect(s.bad == "", s.rule, fname(s.fn), c.ipos(s.ins), "%s", s.bad)
	}
	c.counts["interpretations"] = h.runs
}

// refs notes who calls whom.
func (h *hazards) refs(fn *ssa.Function, ins ssa.Instruction) {
	call := func(f *ssa.Function) {
		if h.callers[f] == nil {
			h.callers[f] = map[*ssa.Function]bool{}
		}
		h.callers[f][fn] = true
		if h.callees[fn] == nil {
			h.callees[fn] = map[*ssa.Function]bool{}
		}
		if h.own[f] {
			h.callees[fn][f] = true
		}
	}
	ci, isCall := ins.(ssa.CallInstruction)
	if isCall {
		if f := ci.Common().StaticCallee(); f != nil {
			call(f)
		}
		n := calleeOf(ci.Common())
		for _, a := range ci.Common().Args {
			switch n {
			case "sort.Slice", "sort.SliceStable", "sort.Search":
				switch x := a.(type) {
				case *ssa.MakeClosure:
					h.sorted[x.Fn.(*ssa.Function)] = true
				case *ssa.Function:
					h.sorted[x] = true
				}
			case "sort.Sort", "sort.Stable":
				if mi, ok := a.(*ssa.MakeInterface); ok {
					for _, m := range []string{"Less", "Swap"} {
						if sel := h.c.prog.MethodSets.MethodSet(mi.X.Type()).Lookup(nil, m); sel != nil {
							if f := h.c.prog.MethodValue(sel); f != nil {
								h.sorted[f] = true
								for g := range map[*ssa.Function]bool{f: true} {
									if obj, ok := g.Object().(*types.Func); ok {
										if d := h.c.prog.FuncValue(obj); d != nil {
											h.sorted[d] = true
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for _, op := range ins.Operands(nil) {
		if f, ok := (*op).(*ssa.Function); ok && !(isCall && ci.Common().Value == *op) {
			if _, ok := ins.(*ssa.MakeClosure); !ok {
				h.dynamic[f] = true
			}
		}
	}
	if mc, ok := ins.(*ssa.MakeClosure); ok {
		f := mc.Fn.(*ssa.Function)
		call(f)
		if closureCallsItself(f) {
			if h.callers[f] == nil {
				h.callers[f] = map[*ssa.Function]bool{}
			}
			h.callers[f][f] = true
		}
	}
}

// closureCallsItself reports calls of captured functions of the own kind.
func closureCallsItself(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == nil && !ci.Common().IsInvoke() {
				if types.Identical(ci.Common().Value.Type().Underlying(), f.Signature) {
					return true
				}
			}
		}
	}
	return false
}

// decide looks at the hazards of one function.
func (h *hazards) decide(fn *ssa.Function) {
	mine := map[ssa.Instruction]*site{}
	h.examine(fn, []*ssa.Function{fn}, false, func(ins ssa.Instruction, rule string) *site {
		s := mine[ins]
		if s == nil {
			s = &site{ins: ins, fn: fn, rule: rule}
			mine[ins] = s
			h.sites[ins] = s
		}
		return s
	})
	left := func() map[ssa.Instruction]*site {
		out := map[ssa.Instruction]*site{}
		for ins, s := range mine {
			if s.bad != "" {
				out[ins] = s
			}
		}
		return out
	}
	if todo := left(); len(todo) > 0 {
		// what the functions called by this one answer
		for _, s := range todo {
			s.bad = ""
		}
		h.examine(fn, []*ssa.Function{fn}, true, func(ins ssa.Instruction, rule string) *site { return todo[ins] })
	}
	if todo := left(); len(todo) > 0 {
		h.above([]*ssa.Function{fn}, todo)
	}
}

// above looks at the hazards of the last function of a chain of callers once
// more, in the context of its callers.
func (h *hazards) above(chain []*ssa.Function, todo map[ssa.Instruction]*site) {
	top := chain[0]
	if len(chain) > 4 || h.roots[top] || h.dynamic[top] {
		return
	}
	var cs []*ssa.Function
	for g := range h.callers[top] {
		if h.own[g] {
			cs = append(cs, g)
		}
	}
	if len(cs) == 0 {
		return
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].RelString(nil) < cs[j].RelString(nil) })
	for _, s := range todo {
		s.bad = ""
	}
	for _, g := range cs {
		if g == top && len(chain) > 1 && chain[1] == g {
			continue
		}
		entered := false
		again := map[ssa.Instruction]*site{}
		up := append([]*ssa.Function{g}, chain...)
		for _, wide := range []bool{false, true} {
			again = map[ssa.Instruction]*site{}
			entered = h.examine(g, up, wide, func(ins ssa.Instruction, rule string) *site {
				s := todo[ins]
				if s == nil {
					return nil
				}
				if again[ins] == nil {
					again[ins] = &site{ins: s.ins, fn: s.fn, rule: s.rule}
				}
				return again[ins]
			})
			good := entered
			for _, s := range again {
				good = good && s.bad == ""
			}
			if good {
				break
			}
		}
		next := map[ssa.Instruction]*site{}
		for ins, s := range again {
			if s.bad != "" {
				next[ins] = s
			}
		}
		if !entered {
			for _, s := range todo {
				s.bad = "this cannot be followed from " + fname(g)
			}
			return
		}
		if len(next) > 0 {
			h.above(up, next)
			for ins, s := range next {
				if s.bad != "" {
					todo[ins].bad = s.bad
				}
			}
		}
	}
}

// examine interprets a function, with those of the chain, and judges the
// hazards of the last of the chain; it reports whether that one was entered.
func (h *hazards) examine(fn *ssa.Function, chain []*ssa.Function, wide bool, at func(ssa.Instruction, string) *site) bool {
	c := h.c
	h.runs++
	target := chain[len(chain)-1]
	in := c.interp()
	in.NoUnroll = true
	in.MaxSteps = 400000
	in.Pure = func(name string) bool { return ourPure[shortName(name)] }
	open := map[*ssa.Function]int{}
	for _, f := range chain {
		open[f]++
	}
	if wide {
		for f := range h.callees[target] {
			if open[f] == 0 {
				open[f] = 1
			}
		}
		for f := range h.own {
			if open[f] == 0 && !api[fname(f)] {
				open[f] = 1
			}
		}
	}
	// what a container holds stays the same until something is written
	in.Model = func(st *psa.State, name string, f *ssa.Function, args []*T, call *psa.Call) []psa.Ret {
		switch shortName(name) {
		case "(internal/container.Container).Data", "(*github.com/Jeffail/gabs/v2.Container).Data":
			return []psa.Ret{{St: st, Kind: "ret", Val: in.T.Call("data", anyType, args[0], in.T.Sym("memory "+strconv.Itoa(writes(st)), anyType))}}
		}
		return nil
	}
	in.Rec = open[target]
	in.Opaque = func(f *ssa.Function, stack []*ssa.Function) bool {
		if c.isOurs(f) && noReturn(f, 0) {
			return false
		}
		if open[f] == 0 {
			return true
		}
		n := 0
		for _, s := range stack {
			if s == f {
				n++
			}
		}
		return n >= open[f]
	}
	entered := len(chain) == 1
	judge := func(st *psa.State, e *psa.Event) {
		if e.In != target || len(chain) > 1 && e.Depth == 0 {
			return
		}
		entered = true
		rule, bad := h.hazard(in, st, e)
		if rule == "" {
			return
		}
		s := at(e.Instr, rule)
		if s == nil {
			return
		}
		s.seen = true
		if bad != "" && s.bad == "" {
			s.bad = bad
			if cs := st.Conds(); len(cs) > 0 && len(cs) < 12 {
				s.bad += " [" + strings.Join(cs, "; ") + "]"
			}
		}
	}
	in.Run(fn, nil, nil, captured(in, fn)) // how loops change their values
	in.Overflow = ""
	in.Probe = judge
	c.run(in, fn, nil, nil, captured(in, fn))
	in.Probe = nil
	return entered
}

// captured is what is known of the variables a closure captured: those which
// only ever hold the closure itself, and those which only ever hold made maps.
func captured(in *psa.Interp, fn *ssa.Function) *psa.State {
	st := in.NewState()
	if fn.Parent() == nil {
		return st
	}
	var free []*T
	for _, v := range fn.FreeVars {
		free = append(free, in.Free(v))
	}
	for i, v := range fn.FreeVars {
		vals := writtenTo(fn, i)
		self, made := len(vals) > 0, len(vals) > 0
		for _, x := range vals {
			if mc, ok := x.(*ssa.MakeClosure); !ok || mc.Fn != ssa.Value(fn) {
				self = false
			}
			if _, ok := x.(*ssa.MakeMap); !ok {
				made = false
			}
		}
		switch {
		case self:
			st.Store(free[i], in.Closure(fn, free...))
		case made:
			st.Assume(in.T.Eq(st.Load(free[i], v.Type().(*types.Pointer).Elem()), in.T.Nil()), false)
		}
	}
	return st
}

// writtenTo lists everything stored in a captured variable, if that is known:
// the variable is only used for reading, for writing and by closures.
func writtenTo(fn *ssa.Function, i int) (out []ssa.Value) {
	v := ssa.Value(fn.FreeVars[i])
	for f := fn; ; {
		fv, ok := v.(*ssa.FreeVar)
		if !ok {
			break
		}
		k := -1
		for j, g := range f.FreeVars {
			if g == fv {
				k = j
			}
		}
		p := f.Parent()
		if k < 0 || p == nil {
			return nil
		}
		v = nil
		for _, b := range p.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
					v = mc.Bindings[k]
				}
			}
		}
		f = p
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return nil
	}
	known := true
	var uses func(v ssa.Value)
	uses = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr != v {
					known = false
				}
				out = append(out, x.Val)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for k, b := range x.Bindings {
					if b == v {
						uses(x.Fn.(*ssa.Function).FreeVars[k])
					}
				}
			default:
				known = false
			}
		}
	}
	uses(al)
	if !known {
		return nil
	}
	return out
}

// madeField reports a field of a structure of ours which every place which
// makes one fills with a map.
func (h *hazards) madeField(v *T) bool {
	v = strip(v)
	name := loaded(v)
	if name == "" {
		return false
	}
	if known, ok := h.fields[name]; ok {
		return known
	}
	t := v.Args[0].Typ
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	named, ok := t.(*types.Named)
	if !ok {
		return false
	}
	good := true
	made := func(x ssa.Value) bool {
		for {
			ct, ok := x.(*ssa.ChangeType)
			if !ok {
				break
			}
			x = ct.X
		}
		_, ok := x.(*ssa.MakeMap)
		return ok
	}
	for _, fn := range h.c.ourFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Alloc:
					if holds(x.Type().(*types.Pointer).Elem(), named) {
						good = good && filled(x, v.Aux.(int), named, made)
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.Field == v.Aux.(int) && types.Identical(fa.X.Type(), types.NewPointer(named)) {
						good = good && made(x.Val)
					}
				case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
					t := x.(ssa.Value).Type()
					if e, ok := t.Underlying().(interface{ Elem() types.Type }); ok && holds(e.Elem(), named) {
						good = false
					}
				}
				for _, op := range ins.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && holds(k.Type(), named) {
						good = false // the value without anything in it
					}
				}
			}
		}
	}
	for _, p := range h.c.prog.AllPackages() {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && p.Func("init") != nil && h.c.isOurs(p.Func("init")) && holds(g.Type().(*types.Pointer).Elem(), named) {
				good = good && setUp(p.Func("init"), g, v.Aux.(int), named, made)
			}
		}
	}
	h.fields[name] = good
	return good
}

// holds reports that values of type t have one of named in them.
func holds(t types.Type, named *types.Named) bool {
	if types.Identical(t, named) {
		return true
	}
	switch x := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if holds(x.Field(i).Type(), named) {
				return true
			}
		}
	case *types.Array:
		return holds(x.Elem(), named)
	}
	return false
}

// setUp reports that a global structure gets a map in its field, or all of its
// value from another one, when the program starts.
func setUp(init *ssa.Function, g *ssa.Global, i int, named *types.Named, made func(ssa.Value) bool) bool {
	if !types.Identical(g.Type().(*types.Pointer).Elem(), named) {
		return false
	}
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			if s.Addr == ssa.Value(g) {
				return true
			}
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(g) && fa.Field == i && made(s.Val) {
				return true
			}
		}
	}
	return false
}

// filled reports that a new structure gets a map in its field, or all of its
// value from another one, right where it is made.
func filled(al *ssa.Alloc, i int, named *types.Named, made func(ssa.Value) bool) bool {
	if !types.Identical(al.Type().(*types.Pointer).Elem(), named) {
		return false
	}
	for _, r := range *al.Referrers() {
		if r.Block() != al.Block() {
			continue
		}
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(al) {
				return true
			}
		case *ssa.FieldAddr:
			if x.Field != i {
				continue
			}
			for _, r2 := range *x.Referrers() {
				if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(x) && s.Block() == al.Block() && made(s.Val) {
					return true
				}
			}
		}
	}
	return false
}

// hasEntry reports that something was found in a map, so that it is not nil.
func hasEntry(st *psa.State, m, k *T) bool {
	if k.Op == "mapkey" && k.Args[0] == m {
		return true
	}
	for f, v := range st.FactTerms() {
		yes, _ := v.ConstBool()
		switch {
		case !yes:
		case f.Op == "more" && len(f.Args) == 1 && len(f.Args[0].Args) == 1 && st.Norm(f.Args[0].Args[0]) == m:
			return true
		case f.Op == "has" && f.Args[0] == m && f.Args[1].Op != "mapkey":
			return true
		}
	}
	return false
}

// onlyHolds reports values of shared maps which only ever get values of the
// type asked for.
func (h *hazards) onlyHolds(st *psa.State, e *psa.Event) bool {
	ta, ok := e.Instr.(*ssa.TypeAssert)
	cl, i := callOf(e.Args[0])
	if !ok || cl == nil || i != 0 || len(cl.Args) == 0 {
		return false
	}
	switch cl.Callee() {
	case "(*sync.Map).Load", "(*sync.Map).LoadAndDelete":
		for f, v := range st.FactTerms() {
			if yes, _ := v.ConstBool(); yes && f.Op == "extract" && f.Args[0] == cl && f.Aux == 1 {
				ok = false // found
			}
		}
		if ok {
			return false
		}
	case "(*sync.Map).LoadOrStore":
	default:
		return false
	}
	g, ok := cl.Args[0].Aux.(*ssa.Global)
	if !ok {
		return false
	}
	for _, fn := range h.c.ourFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					ci, ok := ins.(ssa.CallInstruction)
					if !ok {
						return false
					}
					cc := ci.Common()
					switch calleeOf(cc) {
					case "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap":
						mi, ok := cc.Args[2].(*ssa.MakeInterface)
						if !ok || !types.Identical(mi.X.Type(), ta.AssertedType) {
							return false
						}
					case "(*sync.Map).Load", "(*sync.Map).Delete", "(*sync.Map).LoadAndDelete", "(*sync.Map).Range", "(*sync.Map).Clear":
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

// writes counts what may have written to memory so far.
func writes(st *psa.State) (n int) {
	for _, e := range st.Events() {
		switch e.Kind {
		case "store":
			if root, _ := st.Interp().Addr(e.Args[0]); root.Op != "alloc" {
				n++
			}
		case "mapset", "mapdel", "append", "copy", "loop", "go", "defer", "send":
			n++
		case "call":
			if nm := shortName(e.Callee); !psa.Reads(e.Callee) && !psa.IsPure(e.Callee) && !ourPure[nm] {
				n++
			}
		}
	}
	return
}

// hazard judges an event: by which rule, and what may go wrong.
func (h *hazards) hazard(in *psa.Interp, st *psa.State, e *psa.Event) (rule, bad string) {
	switch e.Kind {
	case "index":
		v, i := e.Args[0], e.Args[1]
		if n, ok := i.ConstInt(); ok && n >= 0 {
			switch t := typeOfT(v).(type) {
			case *types.Array:
				if n < t.Len() {
					return "", ""
				}
			case *types.Pointer:
				if a, ok := t.Elem().Underlying().(*types.Array); ok && n < a.Len() {
					return "", ""
				}
			}
			if v.Op == "list" && n < int64(len(v.Args)) {
				return "", ""
			}
		}
		if h.sorted[e.In] && i.Op == "sym" || h.sorted[e.In] && i.Op == "param" {
			return "range", ""
		}
		if newBounds(in, st).index(v, i) {
			return "range", ""
		}
		return "range", "position " + str(i) + " of " + str(v) + " may not exist"
	case "make":
		b := newBounds(in, st)
		n, m := b.linear(e.Args[0]), b.linear(e.Args[1])
		if b.nonneg(n, 4) && b.nonneg(m.add(n, -1), 4) {
			return "range", ""
		}
		return "range", "a list of " + str(e.Args[0]) + " elements with room for " + str(e.Args[1]) + " cannot always be made"
	case "slice":
		if e.Args[3] != nil && e.Args[3] != e.Args[2] {
			b := newBounds(in, st)
			if !b.slice(e.Args[0], e.Args[2], e.Args[3]) {
				return "range", "the capacity given may not exist"
			}
		}
		if newBounds(in, st).slice(e.Args[0], e.Args[1], e.Args[2]) {
			return "range", ""
		}
		return "range", "the part from " + str(e.Args[1]) + " to " + str(e.Args[2]) + " of " + str(e.Args[0]) + " may not exist"
	case "assert":
		if st.Truth(e.Args[1]) == 1 {
			return "conversions", ""
		}
		if h.onlyHolds(st, e) {
			return "conversions", ""
		}
		return "conversions", str(e.Args[0]) + " may hold something else"
	case "panic":
		if e.In.Pkg != nil && e.In.Pkg.Pkg.Name() == "main" {
			return "", "" // how the command refuses what it was asked for
		}
		return "panics", "this panics"
	case "grow":
		switch st.Nil(e.Args[0]) {
		case 0:
			return "maps", ""
		}
		if hasEntry(st, e.Args[0], e.Args[1]) || h.madeField(e.Args[0]) {
			return "maps", ""
		}
		return "maps", "the map " + str(e.Args[0]) + " may be nil"
	case "deref":
		v := e.Args[0]
		if e.Fn != nil && h.c.isOurs(e.Fn) {
			return "", ""
		}
		why := h.absent(in, st, v)
		if why == "" {
			return "", ""
		}
		if st.Nil(v) == 0 {
			return "absent", ""
		}
		return "absent", str(v) + " is used, but " + why
	}
	return "", ""
}

// mayBeNil are library functions which answer with nil if there is nothing.
var mayBeNil = map[string]string{
	"(*go/types.Scope).Lookup": "there may be no such name", "(*go/types.object).Pkg": "predeclared types belong to no package",
	"(go/types.Object).Pkg": "predeclared types belong to no package", "(*go/types.TypeName).Pkg": "predeclared types belong to no package",
	"(*github.com/Jeffail/gabs/v2.Container).Search": "", "(*golang.org/x/tools/go/types/typeutil.Map).At": "there may be no such type",
	"(*go/types.Signature).Recv": "functions have no receiver",
}

// optional reports pointers read from fields of structures of ours which only
// some of them have.
func (h *hazards) optional(v *T, p *types.Pointer) bool {
	f := loaded(v)
	if !strings.HasPrefix(f, modPath) {
		return false
	}
	switch x := p.Elem().(type) {
	case *types.Basic:
		return true
	case *types.Named:
		return x.Obj().Pkg() != nil && pkgShort(x.Obj().Pkg()) == "internal/oapi/spec"
	}
	return false
}

// found reports that the same was asked for before, through the object or what
// it is made of, and was there.
func found(in *psa.Interp, st *psa.State, cl *T) bool {
	method := func(c *T) string { return c.Callee()[strings.LastIndex(c.Callee(), ".")+1:] }
	recv := func(c *T) *T {
		if len(c.Args) == 0 {
			return nil
		}
		root, _ := in.Addr(strip(c.Args[0]))
		return strip(root)
	}
	for f, v := range st.FactTerms() {
		if yes, ok := v.ConstBool(); !ok || yes || f.Op != "eq" {
			continue
		}
		for i, a := range f.Args {
			if c, _ := callOf(a); c != nil && f.Args[1-i].Op == "nil" && method(c) == method(cl) && recv(c) == recv(cl) && recv(c) != nil && len(c.Args) == len(cl.Args) && len(c.Args) == 1 {
				return true
			}
		}
	}
	return false
}

// declared reports objects of the scope of a package.
func declared(v *T) bool {
	cl, _ := callOf(v)
	if cl == nil || cl.Callee() != "(*go/types.Scope).Lookup" {
		return false
	}
	sc, _ := callOf(cl.Args[0])
	return sc != nil && sc.Callee() == "(*go/types.Package).Scope"
}

// absent tells why a value may be missing.
func (h *hazards) absent(in *psa.Interp, st *psa.State, v *T) string {
	if v.Op == "iface" || v.Op == "alloc" || v.Op == "addr" || v.Op == "global" {
		return ""
	}
	if v.Op == "lookup" {
		return "the map may not hold it"
	}
	if st.Nil(v) == 1 {
		return "it is nil"
	}
	if v.Typ != nil {
		// packages built without modules
		s := v.String()
		if p, ok := v.Typ.(*types.Pointer); ok && strings.HasSuffix(p.Elem().String(), "go/packages.Module") && (v.Op == "load" || v.Op == "field" || strings.Contains(s, "Module")) {
			return "there may be no module"
		}
		if p, ok := v.Typ.(*types.Pointer); ok && h.optional(v, p) {
			return "it may not be given"
		}
	}
	if cl, i := callOf(v); cl != nil {
		if why := mayBeNil[cl.Callee()]; why != "" {
			if found(in, st, cl) {
				return ""
			}
			if strings.HasSuffix(cl.Callee(), ".Pkg") && len(cl.Args) > 0 && declared(cl.Args[0]) {
				return ""
			}
			return why
		}
		if v.Op == "extract" || i > 0 {
			// what comes with an error or with false
			if tup, ok := v.Args[0].Typ.(*types.Tuple); ok && tup.Len() > 1 {
				last := tup.At(tup.Len() - 1).Type()
				t := st.Norm(in.T.Extract(v.Args[0], tup.Len()-1, last))
				switch {
				case psa.IsErrorType(last):
					if st.Nil(t) != 1 {
						return "the call may have failed"
					}
				case types.Identical(last, tBool):
					if st.Truth(t) != 1 {
						return "there may be none"
					}
				}
			}
		}
	}
	return ""
}

// sortMethod: the function is Less or Swap of something which can be sorted.
func sortMethod(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil || fn.Name() != "Less" && fn.Name() != "Swap" {
		return false
	}
	ms := types.NewMethodSet(r.Type())
	for name, want := range map[string]string{"Len": "func() int", "Less": "func(int, int) bool", "Swap": "func(int, int)"} {
		sel := ms.Lookup(nil, name)
		if sel == nil {
			return false
		}
		sig := sel.Type().(*types.Signature)
		if anonymous(sig) != want {
			return false
		}
	}
	return true
}

// anonymous is the type of a function without the names of its parameters.
func anonymous(sig *types.Signature) string {
	bare := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, bare(sig.Params()), bare(sig.Results()), false).String()
}
