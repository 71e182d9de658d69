package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C01"] = checkC01 }

// safeTypes are library types made for concurrent use.
var safeTypes = []string{"sync.", "sync/atomic.", "github.com/sirupsen/logrus.", "regexp.", "log.", "net/http.", "strings.Replacer", "text/template.", "context.", "go/token."}

func safeType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := types.TypeString(t, nil)
	for _, p := range safeTypes {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// spot is a kind of memory reachable from a package-level variable: the
// variable, a field, the elements of a kind of list, or a kind of map.
type spot struct {
	g   *ssa.Global
	key string
}

func (s spot) String() string {
	return shortName(s.g.Pkg.Pkg.Path()) + "." + s.g.Name() + " (" + shortName(s.key) + ")"
}

type access struct {
	spot
	write bool
}

func typeKeys(t types.Type) []string {
	n := types.TypeString(t, nil)
	ks := []string{"value " + n}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			ks = append(ks, "field "+n+"."+s.Field(i).Name())
		}
	}
	return ks
}

// addrKeys names the memory an address leads to.
func addrKeys(a ssa.Value) []string {
	t := a.Type().Underlying().(*types.Pointer).Elem()
	switch x := a.(type) {
	case *ssa.Global:
		if _, ok := t.Underlying().(*types.Struct); ok {
			return append(typeKeys(t), "variable")
		}
		return []string{"variable"}
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		s := st.Underlying().(*types.Struct)
		ks := []string{"field " + types.TypeString(st, nil) + "." + s.Field(x.Field).Name()}
		if _, ok := t.Underlying().(*types.Struct); ok {
			ks = append(ks, typeKeys(t)...)
		}
		return ks
	case *ssa.IndexAddr:
		return append([]string{"elements " + types.TypeString(t, nil)}, typeKeys(t)...)
	}
	return typeKeys(t)
}

// valueKeys names the memory a library function reaches through a value.
func valueKeys(v ssa.Value) []string {
	switch u := v.Type().Underlying().(type) {
	case *types.Map:
		return []string{"map " + types.TypeString(v.Type(), nil)}
	case *types.Slice:
		return []string{"elements " + types.TypeString(u.Elem(), nil)}
	case *types.Pointer:
		return addrKeys(v)
	case *types.Interface:
		if m, ok := v.(*ssa.MakeInterface); ok {
			return valueKeys(m.X)
		}
	}
	return nil
}

type concurrency struct {
	c        *Ctx
	flow     *psa.Flow
	funcs    []*ssa.Function
	own      map[*ssa.Function]bool
	callers  map[*ssa.Function]map[*ssa.Function]bool
	taken    map[*ssa.Function]bool
	accesses map[ssa.Instruction][]access
	mutated  map[spot]bool
	locks    map[*ssa.Function]bool // functions which lock themselves
	settled  map[*ssa.Function]bool
	seen     map[spot][]held
	judged   map[spot]map[ssa.Instruction]bool
}

// held is what was locked at an access: name of the lock -> exclusively.
type held struct {
	locks map[string]bool
	write bool
	at    string
	in    string
}

func lockCall(name string) (op string, ok bool) {
	for _, p := range []string{"(*sync.Mutex).", "(*sync.RWMutex).", "(sync.Locker)."} {
		if strings.HasPrefix(name, p) {
			return strings.TrimPrefix(name, p), true
		}
	}
	if name == "(*sync.Once).Do" {
		return "Do", true
	}
	return "", false
}

// reachable lists what a user of the library or the tool can make run, after
// initialisation.
func (c *Ctx) reachable() (out []*ssa.Function, roots map[*ssa.Function]bool) {
	roots = map[*ssa.Function]bool{}
	all := c.ourFuncs()
	for _, fn := range all {
		pkg := fn.Pkg
		if pkg == nil || fn.Parent() != nil || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		path := pkg.Pkg.Path()
		switch {
		case pkg.Pkg.Name() == "main":
			if fn.Name() == "main" {
				roots[fn] = true
			}
		case !strings.Contains(path+"/", "/internal/"):
			if token.IsExported(fn.Name()) {
				roots[fn] = true
			}
		}
	}
	// methods of types put into interfaces may run
	dyn := map[*ssa.Function]bool{}
	var work []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if o := fn.Origin(); o != nil {
			fn = o
		}
		if !seen[fn] {
			seen[fn] = true
			work = append(work, fn)
		}
	}
	for fn := range roots {
		add(fn)
	}
	methods := func(t types.Type) {
		ms := c.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if m := c.prog.MethodValue(ms.At(i)); m != nil && !dyn[m] {
				dyn[m] = true
				add(m)
			}
		}
	}
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
				switch x := ins.(type) {
				case *ssa.MakeClosure:
					add(x.Fn.(*ssa.Function))
				case *ssa.MakeInterface:
					methods(x.X.Type())
				}
			}
		}
	}
	for _, fn := range all {
		if seen[fn] {
			out = append(out, fn)
		}
	}
	return out, roots
}

func checkC01(c *Ctx) {
	c.explain = "Package-level variables are followed through the whole program to the instructions which read or write what they lead to. Whatever is written after initialisation needs a lock common to all accesses, held exclusively by writers; the locks held are found by abstract interpretation of the functions, callees and closures included."
	c.rule("shared", "Whatever is reachable from a package-level variable and written after initialisation is only accessed with one common lock held, exclusively when it is written", 3)
	c.rule("balance", "Whatever a function locks it unlocks on every way out, once, and it does not lock what it holds", 0)
	c.rule("goroutine", "A goroutine shares nothing with its creator which one of them writes without a lock", 0)
	c.assume = append(c.assume, "library functions listed as reading do not write through their arguments", "values the caller of the library shares between calls are not written by the library (A01)")
	x := &concurrency{c: c, own: map[*ssa.Function]bool{}, callers: map[*ssa.Function]map[*ssa.Function]bool{}, taken: map[*ssa.Function]bool{},
		accesses: map[ssa.Instruction][]access{}, mutated: map[spot]bool{}, locks: map[*ssa.Function]bool{}, settled: map[*ssa.Function]bool{}, seen: map[spot][]held{}, judged: map[spot]map[ssa.Instruction]bool{}}
	fns, roots := c.reachable()
	x.funcs = fns
	for _, fn := range fns {
		x.own[fn] = true
		c.funcs[fn] = true
	}
	in := c.interp()
	x.flow = psa.NewFlow(c.prog, fns, func(g *ssa.Global) bool {
		return g.Pkg == nil || !c.ours[g.Pkg] || in.Plain(nil, g) || safeType(g.Type().Underlying().(*types.Pointer).Elem())
	})
	c.counts["functions reachable"] = len(fns)
	c.floor("functions reachable", 50)
	globals := map[*ssa.Global]bool{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && c.ours[g.Pkg] {
						globals[g] = true
					}
				}
				x.collect(fn, ins)
			}
		}
	}
	c.counts["package-level variables used"] = len(globals)
	for g := range globals {
		w := false
		for _, as := range x.accesses {
			for _, a := range as {
				w = w || a.write && a.g == g
			}
		}
		if !w {
			c.ok("shared") // not written after initialisation
		}
	}
	for _, as := range x.accesses {
		for _, a := range as {
			if a.write {
				x.mutated[a.spot] = true
			}
		}
	}
	for ins, as := range x.accesses {
		var keep []access
		for _, a := range as {
			if x.mutated[a.spot] {
				keep = append(keep, a)
			}
		}
		if len(keep) == 0 {
			delete(x.accesses, ins)
			continue
		}
		x.accesses[ins] = keep
	}
	for s := range x.mutated {
		c.sample("written after initialisation: %s", s)
	}
	for ins, as := range x.accesses {
		c.sample("access of %s in %s, %s", as[0].spot, fname(ins.Parent()), c.ipos(ins))
	}
	x.solve(roots)
	x.goroutines()
}

func (x *concurrency) collect(fn *ssa.Function, ins ssa.Instruction) {
	put := func(v ssa.Value, keys []string, write bool) {
		for g := range x.flow.Of(v) {
			for _, k := range keys {
				x.accesses[ins] = append(x.accesses[ins], access{spot{g, k}, write})
			}
		}
	}
	switch i := ins.(type) {
	case *ssa.Store:
		put(i.Addr, addrKeys(i.Addr), true)
	case *ssa.UnOp:
		if i.Op == token.MUL {
			put(i.X, addrKeys(i.X), false)
		}
	case *ssa.MapUpdate:
		put(i.Map, valueKeys(i.Map), true)
	case *ssa.Lookup:
		put(i.X, valueKeys(i.X), false)
	case *ssa.Range:
		put(i.X, valueKeys(i.X), false)
	}
	ci, ok := ins.(ssa.CallInstruction)
	if !ok {
		return
	}
	for _, g := range x.flow.Callees(ci) {
		if x.own[g] {
			if x.callers[g] == nil {
				x.callers[g] = map[*ssa.Function]bool{}
			}
			x.callers[g][fn] = true
		}
	}
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		for n, a := range cc.Args {
			put(a, valueKeys(a), n == 0 && (b.Name() == "delete" || b.Name() == "clear" || b.Name() == "copy"))
		}
		return
	}
	name := calleeOf(cc)
	if op, ok := lockCall(name); ok {
		_ = op
		x.locks[fn] = true
		return
	}
	for _, g := range x.flow.Callees(ci) {
		if x.own[g] {
			return
		}
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	for _, a := range args {
		if safeType(a.Type()) {
			continue
		}
		put(a, valueKeys(a), !psa.Reads(name))
	}
}

func calleeOf(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.FullName()
	}
	if f := cc.StaticCallee(); f != nil {
		return psa.FuncName(f)
	}
	return "dyn"
}

// solve interprets the functions which lock or access shared memory.  A
// function which is not in order alone (say, because its callers lock for it)
// is judged as part of its callers.
func (x *concurrency) solve(roots map[*ssa.Function]bool) {
	c := x.c
	work := map[*ssa.Function]bool{}
	for _, fn := range x.funcs {
		if x.locks[fn] {
			work[fn] = true
		}
	}
	for ins := range x.accesses {
		work[ins.Parent()] = true
	}
	inl := map[*ssa.Function]bool{}
	done := map[*ssa.Function]bool{}
	for len(work) > 0 {
		var fns []*ssa.Function
		for fn := range work {
			fns = append(fns, fn)
		}
		sort.Slice(fns, func(i, j int) bool {
			if x.locks[fns[i]] != x.locks[fns[j]] {
				return x.locks[fns[i]]
			}
			return fname(fns[i]) < fname(fns[j])
		})
		fn := fns[0]
		delete(work, fn)
		if done[fn] {
			continue
		}
		done[fn] = true
		bad, res := x.run(fn, inl)
		if len(bad) == 0 {
			x.settled[fn] = true
			for s, hs := range res {
				x.seen[s] = append(x.seen[s], hs...)
			}
			continue
		}
		// push up
		up := map[*ssa.Function]bool{}
		for g := range x.callers[fn] {
			up[g] = true
		}
		if p := fn.Parent(); p != nil {
			up[p] = true
		}
		delete(up, fn)
		blocked := roots[fn] || len(up) == 0 || len(done) > 60 || !x.lockedAbove(fn, inl)
		for g := range up {
			if done[g] && !inl[g] && !x.settled[g] {
				blocked = true
			}
		}
		if blocked {
			for _, b := range bad {
				c.violate(b.Rule, b.Construct, b.Pos, b.Msg)
			}
			continue
		}
		inl[fn] = true
		if fn.Parent() != nil {
			// whoever is handed the closure is judged as part of its callers, too
			for g := range x.callers[fn] {
				if g != fn.Parent() && !roots[g] {
					inl[g] = true
				}
			}
		}
		for g := range up {
			// judge again, with this function inlined
			if x.settled[g] {
				delete(x.settled, g)
			}
			delete(done, g)
			work[g] = true
		}
	}
	unseen := map[string]ssa.Instruction{}
	for ins, as := range x.accesses {
		for _, a := range as {
			ok := x.judged[a.spot][ins]
			if !ok && (a.write || inl[ins.Parent()]) {
				unseen[a.spot.String()] = ins
			}
		}
	}
	for s, ins := range unseen {
		c.violate("shared", s, c.ipos(ins), "undecided: the access is not reached from any function which was judged")
	}
	var spots []spot
	for s := range x.mutated {
		spots = append(spots, s)
	}
	sort.Slice(spots, func(i, j int) bool { return spots[i].String() < spots[j].String() })
	for _, s := range spots {
		hs := x.seen[s]
		var common map[string]bool
		for _, h := range hs {
			n := map[string]bool{}
			for l, excl := range h.locks {
				if h.write && !excl {
					continue
				}
				if common == nil || common[l] {
					n[l] = true
				}
			}
			common = n
		}
		if len(hs) == 0 {
			continue // reported where it is accessed
		}
		c.expect(len(common) > 0, "shared", s.String(), hs[0].at, "the accesses hold no common lock: %s", describe(hs))
	}
}

// lockedAbove reports that some function from which fn is reached locks, itself
// or through a function which returns holding what it locked.
func (x *concurrency) lockedAbove(fn *ssa.Function, inl map[*ssa.Function]bool) bool {
	holds := map[*ssa.Function]bool{}
	for g := range inl {
		if len(x.mayLock(g, map[*ssa.Function]bool{})) > 0 || x.locks[g] {
			for h := range x.callers[g] {
				holds[h] = true
			}
			if g.Parent() != nil {
				holds[g.Parent()] = true
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var up func(g *ssa.Function) bool
	up = func(g *ssa.Function) bool {
		if g == nil || seen[g] {
			return false
		}
		seen[g] = true
		if x.locks[g] || holds[g] {
			return true
		}
		for h := range x.callers[g] {
			if up(h) {
				return true
			}
		}
		return up(g.Parent())
	}
	return up(fn)
}

func describe(hs []held) string {
	m := map[string]bool{}
	for _, h := range hs {
		var ls []string
		for l := range h.locks {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		m[fmt.Sprintf("%s in %s (%v)", h.at, h.in, ls)] = true
	}
	var out []string
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// run interprets a function with the given callees inlined and lists what is
// wrong with it and the locks held at its accesses.
func (x *concurrency) run(fn *ssa.Function, inl map[*ssa.Function]bool) (bad []Violation, res map[spot][]held) {
	c := x.c
	in := psa.New(c.prog)
	in.Reads = true
	in.NoUnroll = true
	in.MaxSteps = 2000000
	in.Opaque = func(g *ssa.Function, _ []*ssa.Function) bool { return !inl[g] }
	T := in.T
	in.Model = func(st *psa.State, name string, g *ssa.Function, args []*T0, call *psa.Call) []psa.Ret {
		op, ok := lockCall(name)
		if !ok {
			return nil
		}
		emit := func(st *psa.State, k string, write bool) {
			st.Emit(&psa.Event{Kind: k, Args: []*T0{strip(args[0]), T.Bool(write)}, Instr: call.Instr, In: call.In})
		}
		unit := func(st *psa.State) []psa.Ret { return []psa.Ret{{St: st, Kind: "ret", Val: T.Nil()}} }
		switch op {
		case "Lock":
			emit(st, "lock", true)
		case "RLock":
			emit(st, "lock", false)
		case "Unlock":
			emit(st, "unlock", true)
		case "RUnlock":
			emit(st, "unlock", false)
		case "TryLock", "TryRLock":
			b := T.Call(name, types.Typ[types.Bool], T.Int(int64(call.Site)), T.Int(int64(call.N)))
			s2 := st.Clone()
			var out []psa.Ret
			if st.Assume(b, true) {
				emit(st, "lock", op == "TryLock")
				out = append(out, psa.Ret{St: st, Kind: "ret", Val: T.Bool(true)})
			}
			if s2.Assume(b, false) {
				out = append(out, psa.Ret{St: s2, Kind: "ret", Val: T.Bool(false)})
			}
			return out
		case "Do":
			emit(st, "lock", true)
			var out []psa.Ret
			rs := call.Do(st, args[1])
			if rs == nil {
				rs = unit(st)
			}
			for _, r := range rs {
				if r.Kind != "ret" {
					out = append(out, r)
					continue
				}
				emit(r.St, "unlock", true)
				emit(r.St, "once", true) // what was done is seen from here on
				r.Val = T.Nil()
				out = append(out, r)
			}
			return out
		default:
			return nil
		}
		return unit(st)
	}
	note := func(rule, construct, pos, msg string) {
		bad = append(bad, Violation{rule, construct, pos, msg})
	}
	res = map[spot][]held{}
	var args, free []*T0
	for _, p := range fn.Params {
		args = append(args, in.Param(p))
	}
	for _, p := range fn.FreeVars {
		free = append(free, T.Sym("free "+p.Name(), p.Type()))
	}
	paths := in.Run(fn, args, free, nil)
	if in.Overflow != "" {
		note("shared", fname(fn), c.pos(fn.Pos()), "undecided: "+in.Overflow)
		return
	}
	c.counts["paths"] += len(paths)
	where := fname(fn)
	for _, p := range paths {
		locks := map[string]bool{} // name -> exclusively
		onces := map[string]bool{}
		heads := map[ssa.Instruction]string{}
		for _, e := range p.Events {
			at := c.ipos(e.Instr)
			switch e.Kind {
			case "lock":
				l, ok := x.lockName(in, e.Args[0])
				if !ok {
					note("balance", where, at, "it is not known which lock this is")
				}
				if _, h := locks[l]; h {
					note("balance", where, at, "locks "+l+" while holding it")
				}
				w, _ := e.Args[1].ConstBool()
				locks[l] = w
				c.counts["locks taken"]++
			case "unlock":
				l, _ := x.lockName(in, e.Args[0])
				w, _ := e.Args[1].ConstBool()
				if h, ok := locks[l]; !ok || h != w {
					note("balance", where, at, "unlocks "+l+" without holding it this way")
				}
				delete(locks, l)
			case "once":
				l, _ := x.lockName(in, e.Args[0])
				onces[l] = true
			case "loop":
				heads[e.Instr] = lockText(locks)
			case "call":
				if e.Fn != nil && len(locks) > 0 {
					for l := range x.mayLock(e.Fn, map[*ssa.Function]bool{}) {
						if _, h := locks[l]; h {
							note("balance", where, at, "calls "+fname(e.Fn)+", which locks "+l+", while holding it")
						}
					}
				}
			}
			for _, a := range x.accesses[e.Instr] {
				if e.Kind != "read" && e.Kind != "store" && e.Kind != "mapset" && e.Kind != "mapdel" && e.Kind != "copy" && e.Kind != "call" {
					continue
				}
				if len(e.Args) > 0 && !x.leadsTo(in, e, a.g) {
					continue
				}
				if x.judged[a.spot] == nil {
					x.judged[a.spot] = map[ssa.Instruction]bool{}
				}
				x.judged[a.spot][e.Instr] = true
				h := held{locks: map[string]bool{}, write: a.write, at: at, in: fname(e.In)}
				n := 0
				for l, w := range locks {
					h.locks[l] = w
					if w || !a.write {
						n++
					}
				}
				for l := range onces {
					if !a.write {
						h.locks[l] = false
						n++
					}
				}
				if n == 0 {
					what := "reads"
					if a.write {
						what = "writes"
					}
					note("shared", a.spot.String(), at, fname(e.In)+" "+what+" it without a lock, reached from "+where)
				}
				res[a.spot] = append(res[a.spot], h)
			}
		}
		switch p.Kind {
		case "ret":
			if len(locks) > 0 {
				note("balance", where, c.ipos(p.At), "returns holding "+lockText(locks))
			}
		case "back":
			if p.Loop != nil && heads[p.Loop.Instrs[0]] != lockText(locks) {
				note("balance", where, c.ipos(p.At), "holds "+lockText(locks)+" at the end of an iteration, "+heads[p.Loop.Instrs[0]]+" at its begin")
			}
		}
	}
	return bad, res
}

func lockText(m map[string]bool) string {
	var ls []string
	for l, w := range m {
		ls = append(ls, fmt.Sprintf("%s %v", l, w))
	}
	sort.Strings(ls)
	return "[" + strings.Join(ls, ", ") + "]"
}

// lockName names a lock which is a package-level variable or a part of one.
func (x *concurrency) lockName(in *psa.Interp, t *T) (string, bool) {
	ok := false
	root, _ := in.Addr(t)
	psa.Walk(root, func(y *T) bool {
		if y.Op == "global" {
			ok = true
		}
		return true
	})
	return shortName(t.String()), ok || root.Op == "alloc"
}

// leadsTo reports that what an event accesses may belong to the variable.
func (x *concurrency) leadsTo(in *psa.Interp, e *psa.Event, g *ssa.Global) bool {
	if e.Kind == "call" {
		return true
	}
	root, _ := in.Addr(e.Args[0])
	known, found := true, false
	psa.Walk(root, func(y *T) bool {
		switch y.Op {
		case "global":
			if y == in.Global(g) {
				found = true
			}
		case "sym", "param", "free", "call", "deref", "out", "outmem", "loopphi", "loopmem", "opaque":
			known = false
		}
		return true
	})
	return found || !known
}

// mayLock lists the package-level locks a function may take.
func (x *concurrency) mayLock(fn *ssa.Function, seen map[*ssa.Function]bool) map[string]bool {
	out := map[string]bool{}
	if seen[fn] || !x.own[fn] {
		return out
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok {
				for l := range x.mayLock(mc.Fn.(*ssa.Function), seen) {
					out[l] = true
				}
			}
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if op, ok := lockCall(calleeOf(ci.Common())); ok && !strings.Contains(op, "nlock") && len(ci.Common().Args) > 0 {
				if g, ok := ci.Common().Args[0].(*ssa.Global); ok {
					out[shortName(psa.New(x.c.prog).Global(g).String())] = true
				}
			}
			for _, g := range x.flow.Callees(ci) {
				for l := range x.mayLock(g, seen) {
					out[l] = true
				}
			}
		}
	}
	return out
}
