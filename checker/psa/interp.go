package psa

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Deadline ends every interpretation, if it is set; so does memory of more than
// MaxMemory bytes.
var (
	Deadline  time.Time
	MaxMemory uint64 = 16 << 30

	exhausted bool
)

func overBudget() string {
	if !Deadline.IsZero() && time.Now().After(Deadline) {
		exhausted = true
		return "no answer in time"
	}
	var m runtime.MemStats
	if runtime.ReadMemStats(&m); m.HeapAlloc > MaxMemory {
		exhausted = true
		return "not enough memory"
	}
	if exhausted {
		return "not enough memory"
	}
	return ""
}

// Restart forgets that time or memory ran out.
func Restart(deadline time.Time) { Deadline, exhausted = deadline, false }

// Interp holds the configuration and the shared tables of one analysis.
type Interp struct {
	Prog *ssa.Program
	T    *Interner

	// Opaque says which functions with a body are not interpreted.
	Opaque func(fn *ssa.Function, stack []*ssa.Function) bool
	// Model may replace the effect of a call.  It returns the possible
	// outcomes, or nil to leave the call alone.
	Model func(s *State, name string, fn *ssa.Function, args []*Term, c *Call) []Ret
	// Sorts is asked like Model for calls of package sort which Model leaves
	// alone.
	Sorts func(s *State, name string, args []*Term, c *Call) []Ret
	// Reads asks for events of reading memory, too.
	Reads bool
	// Probe is shown every event with the state at that moment, and uses of
	// pointers and interfaces as events of kind "deref".
	Probe func(s *State, e *Event)
	// Kept is what was put into maps and lists which are not made here, for
	// those who ask what a value holds.
	Kept map[*Term][]*Term
	// MaxDepth bounds the inlining depth.
	MaxDepth int
	// Rec is how many further activations of a function which is being
	// interpreted are interpreted, too.
	Rec int
	// NoUnroll summarises loops even when their iterations are known.
	NoUnroll bool
	// MaxSteps bounds the interpreted instructions of one Run.
	MaxSteps int
	// NoHavoc lists callees (by name) which do not write through their arguments.
	Pure     func(name string) bool
	ReadOnly func(name string) bool

	Steps    int
	Overflow string
	// Back holds, for every summarised loop value, the values it has at the
	// end of an iteration.
	Back    map[*Term][]*Term
	backs   map[backKey][]*Term
	entries int
	moreIn  map[*Term]moreAt
	always  map[backKey]map[*Term]*Term

	closures map[*ssa.Function]map[*Term]bool

	siteIDs map[string]int
	globals map[*ssa.Global]*Term
	initSt  *State
	mutated map[*ssa.Global]bool
	escapes map[*ssa.Global]bool // whose address is passed around
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	params  map[string]*Term

	// Funcs counts interpreted functions.
	Funcs map[*ssa.Function]int
}

// Call describes a call being interpreted.
type Call struct {
	Instr ssa.CallInstruction
	In    *ssa.Function
	Site  int
	N     int
	Typ   types.Type // result type (possibly a tuple)
	// Do calls a function value from a model.
	Do func(st *State, fnv *Term, args ...*Term) []Ret
	// Method calls a method of an interface value from a model.
	Method func(st *State, recv *Term, pkg *types.Package, name string, args ...*Term) []Ret
}

// Ret is one outcome of a call.
type Ret struct {
	St   *State
	Kind string // "ret", "panic", "exit", "back"
	Val  *Term  // tuple for several results
	At   ssa.Instruction
	Fn   *ssa.Function
	Loop *ssa.BasicBlock
	Site int             // the loop, as LoopAux tells it
	Next map[*Term]*Term // summarised loop values at the end of an iteration
}

// Loop is a natural loop.
type Loop struct {
	Header *ssa.BasicBlock
	Body   map[*ssa.BasicBlock]bool
}

// New makes an interpreter.
func New(prog *ssa.Program) *Interp {
	return &Interp{Prog: prog, T: newInterner(), MaxDepth: 40, MaxSteps: 4000000,
		Back: map[*Term][]*Term{}, backs: map[backKey][]*Term{}, moreIn: map[*Term]moreAt{}, always: map[backKey]map[*Term]*Term{}, siteIDs: map[string]int{}, globals: map[*ssa.Global]*Term{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, params: map[string]*Term{}, Funcs: map[*ssa.Function]int{}}
}

func (in *Interp) deref(root *Term) *Term {
	var et types.Type
	switch root.Op {
	case "alloc", "make":
		if root.Typ != nil {
			return in.T.zeroOf(root.Typ)
		}
	}
	if p, ok := under(root.Typ).(*types.Pointer); ok {
		et = p.Elem()
	}
	if root.Op == "sliceof" {
		return root.Args[0]
	}
	return in.T.mk("deref", nil, et, root)
}

func (in *Interp) site(ctx string, i ssa.Instruction) int {
	k := fmt.Sprintf("%s|%p", ctx, i)
	n, ok := in.siteIDs[k]
	if !ok {
		n = len(in.siteIDs) + 1
		in.siteIDs[k] = n
	}
	return n
}

func (in *Interp) fnLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := in.loops[fn]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := m[s]
			if l == nil {
				l = &Loop{Header: s, Body: map[*ssa.BasicBlock]bool{s: true}}
				m[s] = l
			}
			var stack []*ssa.BasicBlock
			if !l.Body[b] {
				l.Body[b] = true
				stack = append(stack, b)
			}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				for _, p := range x.Preds {
					if !l.Body[p] {
						l.Body[p] = true
						stack = append(stack, p)
					}
				}
			}
		}
	}
	in.loops[fn] = m
	return m
}

// frame is one activation.
type frame struct {
	in    *Interp
	fn    *ssa.Function
	ctx   string
	stack []*ssa.Function
	depth int
}

// item is a point of execution inside a frame.
type item struct {
	b      *ssa.BasicBlock
	i      int
	prev   *ssa.BasicBlock
	env    map[ssa.Value]*Term
	st     *State
	defers []*deferred
	havoc  map[*ssa.BasicBlock]bool
	unroll map[*ssa.BasicBlock]int
	snap   *item // header snapshot for a switch to widening
}

type deferred struct {
	call ssa.CallInstruction
	fnv  *Term
	args []*Term
}

func (it *item) fork() *item {
	n := *it
	n.env = make(map[ssa.Value]*Term, len(it.env))
	for k, v := range it.env {
		n.env[k] = v
	}
	n.st = it.st.Clone()
	return &n
}

func withBlock(m map[*ssa.BasicBlock]bool, b *ssa.BasicBlock, v bool) map[*ssa.BasicBlock]bool {
	n := map[*ssa.BasicBlock]bool{}
	for k, x := range m {
		n[k] = x
	}
	if v {
		n[b] = true
	} else {
		delete(n, b)
	}
	return n
}

// Path is one way through the entry function.
type Path struct {
	Kind    string // ret, panic, exit, back (end of an arbitrary loop iteration)
	Results []*Term
	St      *State
	At      ssa.Instruction
	Fn      *ssa.Function
	Loop    *ssa.BasicBlock
	Site    int
	Next    map[*Term]*Term // for back: what the loop values become
	Events  []*Event
}

// Run interprets fn with the given arguments (nil entries become symbols).
func (in *Interp) Run(fn *ssa.Function, args []*Term, free []*Term, st *State) []*Path {
	in.Steps = 0
	in.entries = 0
	if st == nil {
		st = in.NewState()
	}
	full := make([]*Term, len(fn.Params))
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			full[i] = args[i]
		} else {
			full[i] = in.Param(p)
		}
	}
	fv := make([]*Term, len(fn.FreeVars))
	for i, p := range fn.FreeVars {
		if i < len(free) && free[i] != nil {
			fv[i] = free[i]
		} else {
			fv[i] = in.Free(p)
		}
	}
	rets := in.call(fn, full, fv, st, "", nil, 0)
	var out []*Path
	for _, r := range rets {
		p := &Path{Kind: r.Kind, St: r.St, At: r.At, Fn: r.Fn, Loop: r.Loop, Site: r.Site, Next: r.Next}
		if r.Kind == "ret" {
			sig := fn.Signature.Results()
			switch sig.Len() {
			case 0:
			case 1:
				p.Results = []*Term{r.St.Norm(r.Val)}
			default:
				for i := 0; i < sig.Len(); i++ {
					p.Results = append(p.Results, r.St.Norm(in.T.Extract(r.Val, i, sig.At(i).Type())))
				}
			}
		}
		p.Events = r.St.Events()
		out = append(out, p)
	}
	return out
}

// Param is the symbol of a parameter.
func (in *Interp) Param(p *ssa.Parameter) *Term {
	return in.T.mk("param", p.Parent().RelString(nil)+"."+p.Name(), p.Type())
}

// NewState returns the state after package initialisation.
func (in *Interp) NewState() *State {
	if in.initSt != nil {
		return in.initSt.Clone()
	}
	return newState(in)
}

// call interprets fn.
func (in *Interp) call(fn *ssa.Function, args, free []*Term, st *State, ctx string, stack []*ssa.Function, depth int) []Ret {
	f := &frame{in: in, fn: fn, ctx: ctx, stack: append(stack[:len(stack):len(stack)], fn), depth: depth}
	in.Funcs[fn]++
	env := make(map[ssa.Value]*Term)
	for i, p := range fn.Params {
		env[p] = args[i]
		if args[i].Typ == nil {
			args[i].Typ = p.Type()
		}
	}
	for i, p := range fn.FreeVars {
		env[p] = free[i]
	}
	it := &item{b: fn.Blocks[0], env: env, st: st, havoc: map[*ssa.BasicBlock]bool{}, unroll: map[*ssa.BasicBlock]int{}}
	outs, _ := f.run([]*item{it}, nil)
	return outs
}

// run explores items; with a loop given, items leaving it are returned.
func (f *frame) run(items []*item, within *Loop) (outs []Ret, exits []*item) {
	for len(items) > 0 {
		it := items[len(items)-1]
		items = items[:len(items)-1]
		if f.in.Overflow != "" {
			return
		}
		if within != nil && it.i == 0 && !within.Body[it.b] {
			exits = append(exits, it)
			continue
		}
		next, rets, ex := f.step(it)
		outs = append(outs, rets...)
		items = append(items, next...)
		for _, e := range ex {
			items = append(items, e)
		}
	}
	return
}

// step runs it to the end of its block or to a fork.
func (f *frame) step(it *item) (next []*item, outs []Ret, ex []*item) {
	in := f.in
	if it.i == 0 {
		// block entry
		loops := in.fnLoops(f.fn)
		if l := loops[it.b]; l != nil {
			back := it.prev != nil && l.Body[it.prev] && it.b.Dominates(it.prev)
			if back && it.havoc[it.b] {
				// end of an arbitrary iteration: record phi values
				pi := predIndex(it.b, it.prev)
				becomes := map[*Term]*Term{}
				for _, ins := range it.b.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					cur := it.env[phi]
					if cur != nil && (cur.Op == "loopphi") {
						becomes[cur] = it.st.Norm(f.val(it, phi.Edges[pi]))
						in.addBack(it.st, cur, becomes[cur])
					}
				}
				return nil, []Ret{{St: it.st, Kind: "back", Next: becomes, Fn: f.fn, Loop: it.b, Site: in.site(f.ctx, it.b.Instrs[0]), At: it.prev.Instrs[len(it.prev.Instrs)-1], Val: in.T.Nil()}}, nil
			}
			if !it.havoc[it.b] {
				n := map[*ssa.BasicBlock]int{}
				for k, v := range it.unroll {
					n[k] = v
				}
				if back {
					n[it.b]++
				} else {
					n[it.b] = 0
				}
				it.unroll = n
				if !headerDecides(it.b, l) || n[it.b] > 260 || in.NoUnroll {
					return f.widen(it, l)
				}
				s := it.fork()
				s.snap = nil
				it.snap = s
			}
		}
		// phis
		if it.prev != nil && !(it.havoc[it.b] && loops[it.b] != nil) {
			f.phis(it)
		}
	}
	for ; it.i < len(it.b.Instrs); it.i++ {
		ins := it.b.Instrs[it.i]
		in.Steps++
		if in.Steps > in.MaxSteps {
			in.Overflow = fmt.Sprintf("more than %d steps in %s", in.MaxSteps, f.fn)
			return nil, nil, nil
		}
		if in.Steps%4096 == 0 || exhausted {
			if what := overBudget(); what != "" {
				in.Overflow = what
				return nil, nil, nil
			}
		}
		if in.Reads {
			f.read(it, ins)
		}
		switch x := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			return f.goTo(it, it.b.Succs[0]), nil, nil
		case *ssa.If:
			c := f.val(it, x.Cond)
			switch it.st.Truth(c) {
			case 1:
				return f.goTo(it, it.b.Succs[0]), nil, nil
			case 0:
				return f.goTo(it, it.b.Succs[1]), nil, nil
			}
			if l := in.fnLoops(f.fn)[it.b]; l != nil && !it.havoc[it.b] && it.snap != nil && it.snap.b == it.b {
				return f.widen(it.snap, l)
			}
			a, b := it.fork(), it
			if b.st.Assume(c, false) {
				next = append(next, f.goTo(b, b.b.Succs[1])...)
			}
			if a.st.Assume(c, true) {
				next = append(next, f.goTo(a, a.b.Succs[0])...)
			}
			return next, nil, nil
		case *ssa.Return:
			var vs []*Term
			for _, r := range x.Results {
				vs = append(vs, it.st.Norm(f.val(it, r)))
			}
			var v *Term
			switch len(vs) {
			case 0:
				v = in.T.Nil()
			case 1:
				v = vs[0]
			default:
				v = in.T.mk("agg", nil, f.fn.Signature.Results(), vs...)
			}
			return nil, []Ret{{St: it.st, Kind: "ret", Val: v, At: x, Fn: f.fn}}, nil
		case *ssa.Panic:
			it.st.emit(&Event{Kind: "panic", Args: []*Term{f.val(it, x.X)}, Instr: x, In: f.fn, Depth: f.depth})
			return nil, []Ret{{St: it.st, Kind: "panic", At: x, Fn: f.fn}}, nil
		case *ssa.Call:
			rets := f.doCall(it, x, x.Common(), f.callee(it, x.Common()), f.args(it, x.Common()))
			var conts []Ret
			for _, r := range rets {
				if r.Kind == "ret" {
					conts = append(conts, r)
				} else {
					outs = append(outs, r)
				}
			}
			if len(conts) == 0 {
				return nil, outs, nil
			}
			if len(conts) == 1 {
				it.st = conts[0].St
				it.env[x] = conts[0].Val
				if len(outs) > 0 {
					it.i++
					return []*item{it}, outs, nil
				}
				continue
			}
			for k, r := range conts {
				n := it
				if k < len(conts)-1 {
					c := *it
					c.env = make(map[ssa.Value]*Term, len(it.env))
					for kk, v := range it.env {
						c.env[kk] = v
					}
					n = &c
				}
				n.st = r.St
				n.env[x] = r.Val
				n.i = it.i
				next = append(next, n)
			}
			for _, n := range next {
				n.i++
			}
			// forks inside a header disable unrolling of it
			return next, outs, nil
		case *ssa.Defer:
			d := &deferred{call: x, fnv: f.callee(it, x.Common()), args: f.args(it, x.Common())}
			it.defers = append(it.defers[:len(it.defers):len(it.defers)], d)
			it.st.emit(&Event{Kind: "defer", Callee: calleeName(x.Common(), d.fnv), Args: d.args, Instr: x, In: f.fn, Depth: f.depth})
		case *ssa.RunDefers:
			if len(it.defers) == 0 {
				continue
			}
			d := it.defers[len(it.defers)-1]
			it.defers = it.defers[:len(it.defers)-1]
			rets := f.doCall(it, d.call, d.call.Common(), d.fnv, d.args)
			for _, r := range rets {
				if r.Kind != "ret" {
					outs = append(outs, r)
					continue
				}
				c := *it
				c.env = make(map[ssa.Value]*Term, len(it.env))
				for kk, v := range it.env {
					c.env[kk] = v
				}
				c.st = r.St
				next = append(next, &c)
			}
			return next, outs, nil
		case *ssa.Go:
			fnv := f.callee(it, x.Common())
			it.st.emit(&Event{Kind: "go", Callee: calleeName(x.Common(), fnv), Args: append([]*Term{fnv}, f.args(it, x.Common())...), Instr: x, In: f.fn, Depth: f.depth})
		case *ssa.Lookup:
			if forks := f.lookup(it, x); forks != nil {
				return forks, nil, nil
			}
			f.simple(it, ins)
		default:
			f.simple(it, ins)
		}
	}
	return nil, nil, nil
}

// lookup distinguishes the entries of a fully known map for an unknown key.
// read emits an event for reading memory.
func (f *frame) read(it *item, ins ssa.Instruction) {
	var v ssa.Value
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			v = x.X
		}
	case *ssa.Lookup:
		v = x.X
	case *ssa.Range:
		v = x.X
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			v = r.X
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "append" || b.Name() == "copy") {
			v = x.Call.Args[len(x.Call.Args)-1]
		}
	}
	if v == nil {
		return
	}
	it.st.emit(&Event{Kind: "read", Args: []*Term{it.st.Norm(f.val(it, v))}, Instr: ins, In: f.fn, Depth: f.depth})
}

func (f *frame) lookup(it *item, x *ssa.Lookup) []*item {
	T := f.in.T
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		return nil
	}
	m, k := it.st.Norm(f.val(it, x.X)), it.st.Norm(f.val(it, x.Index))
	if m.Op == "nil" {
		return nil
	}
	if _, tracked := it.st.heap[m]; !tracked {
		return nil
	}
	keys, vals, base := it.st.MapEntries(m)
	if base != nil || len(keys) > 40 {
		return nil
	}
	amb := 0
	for _, kk := range keys {
		if kk == k {
			return nil
		}
		switch it.st.Truth(T.Eq(kk, k)) {
		case 1:
			return nil
		case -1:
			amb++
		}
	}
	if amb == 0 {
		return nil
	}
	var out []*item
	put := func(n *item, v *Term, ok bool) {
		if x.CommaOk {
			n.env[x] = T.mk("agg", nil, x.Type(), n.st.Norm(v), T.Bool(ok))
		} else {
			n.env[x] = n.st.Norm(v)
		}
		n.i++
		out = append(out, n)
	}
	rest := it.fork()
	feasible := true
	for i, kk := range keys {
		if it.st.Truth(T.Eq(kk, k)) == 0 {
			continue
		}
		n := it.fork()
		if n.st.Assume(T.Eq(kk, k), true) {
			put(n, vals[i], true)
		}
		feasible = feasible && rest.st.Assume(T.Eq(kk, k), false)
	}
	if feasible {
		put(rest, T.zeroOf(mt.Elem()), false)
	}
	return out
}

func headerDecides(h *ssa.BasicBlock, l *Loop) bool {
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	_ = ifi
	return l.Body[h.Succs[0]] != l.Body[h.Succs[1]]
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return 0
}

// backKey tells apart the values a summarised loop value takes in loops
// entered on different ways.
type backKey struct {
	t  *Term
	id int
}

// entry notes which loops a path has entered, and on which way.
type entry struct {
	site, id int
	prev     *entry
}

// RangesIn reports that the key of a range is of one of the given loops.
func (s *State) RangesIn(k *Term, loops map[int]bool) bool {
	for f, m := range s.in.moreIn {
		if f.Aux == k.Aux {
			return loops[m.site]
		}
	}
	return true
}

// Root is the memory a summarised content is of.
func (in *Interp) Root(t *Term) *Term {
	a, ok := t.Aux.(LoopAux)
	if !ok || t.Op != "loopmem" {
		return nil
	}
	var id int
	if n, _ := fmt.Sscanf(a.Path, "#%d", &id); n != 1 || id < 0 || id >= len(in.T.all) {
		return nil
	}
	return in.T.all[id]
}

// Entry tells apart the ways a loop was entered.
func (s *State) Entry(site int) int {
	for e := s.entered; e != nil; e = e.prev {
		if e.site == site {
			return e.id
		}
	}
	return 0
}

// Since lists a loop and those entered after it.
func (s *State) Since(site int) map[int]bool {
	out := map[int]bool{}
	for e := s.entered; e != nil; e = e.prev {
		out[e.site] = true
		if e.site == site {
			return out
		}
	}
	return out
}

func (s *State) enteredBy(t *Term) int {
	a, ok := t.Aux.(LoopAux)
	for e := s.entered; ok && e != nil; e = e.prev {
		if e.site == a.Site {
			return e.id
		}
	}
	return 0
}

// Always tells what a fact is at the end of every iteration of the loop that t
// is a summarised value of.
func (in *Interp) Always(s *State, t, f *Term) *Term {
	return in.always[backKey{t, s.enteredBy(t)}][f]
}

type moreAt struct {
	site int
	next *ssa.Next
}

// RangeOf is the map range which the loop that t is a summarised value of goes
// over, if the path is inside of one of its iterations.
func (in *Interp) RangeOf(s *State, t *Term) (*Term, *ssa.Next) {
	a, ok := t.Aux.(LoopAux)
	if !ok {
		return nil, nil
	}
	for f, v := range s.facts {
		if yes, _ := v.ConstBool(); yes && f.Op == "more" && in.moreIn[f].site == a.Site {
			return s.Norm(f.Args[0].Args[0]), in.moreIn[f].next
		}
	}
	return nil, nil
}

// BackOn is Back for the way the path of s entered the loop.
func (in *Interp) BackOn(s *State, t *Term) []*Term {
	return in.backs[backKey{t, s.enteredBy(t)}]
}

func (in *Interp) addBack(s *State, t, v *Term) {
	k := backKey{t, s.enteredBy(t)}
	if all, ok := in.always[k]; !ok {
		in.always[k] = map[*Term]*Term{}
		for f, v := range s.facts {
			in.always[k][f] = v
		}
	} else {
		for f, v := range all {
			if s.facts[f] != v {
				delete(all, f)
			}
		}
	}
	have := false
	for _, x := range in.backs[k] {
		have = have || x == v
	}
	if !have {
		in.backs[k] = append(in.backs[k], v)
	}
	for _, x := range in.Back[t] {
		if x == v {
			return
		}
	}
	in.Back[t] = append(in.Back[t], v)
}

func (f *frame) phis(it *item) {
	pi := predIndex(it.b, it.prev)
	var vals []*Term
	var phis []*ssa.Phi
	for _, ins := range it.b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, it.st.Norm(f.val(it, phi.Edges[pi])))
	}
	for i, p := range phis {
		it.env[p] = vals[i]
	}
}

func (f *frame) goTo(it *item, b *ssa.BasicBlock) []*item {
	it.prev = it.b
	it.b = b
	it.i = 0
	// leaving loops forgets their mode
	for h, l := range f.in.fnLoops(f.fn) {
		if it.havoc[h] && !l.Body[b] {
			it.havoc = withBlock(it.havoc, h, false)
			it.st.loops--
		}
	}
	it.snap = nil
	return []*item{it}
}

// widen summarises loop l, entered by it (positioned at the header).
func (f *frame) widen(it *item, l *Loop) (next []*item, outs []Ret, exits []*item) {
	in := f.in
	h := l.Header
	site := in.site(f.ctx, h.Instrs[0])
	base := it
	pi := predIndex(h, base.prev)
	type memLoc struct {
		root *Term
		key  string
	}
	mods := map[memLoc]bool{}
	in.entries++
	base.st.entered = &entry{site, in.entries, base.st.entered}
	entryPhi := map[*ssa.Phi]*Term{}
	for _, ins := range h.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		entryPhi[phi] = base.st.Norm(f.val(base, phi.Edges[pi]))
	}
	for round := 0; ; round++ {
		if in.Overflow != "" {
			return
		}
		n := base.fork()
		n.havoc = withBlock(n.havoc, h, true)
		n.st.loops++
		n.snap = nil
		k := 0
		var phiTerms []*Term
		for _, ins := range h.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			t := in.T.mk("loopphi", LoopAux{What: phi.Comment, Site: site, Path: fmt.Sprint("/", k)}, phi.Type(), entryPhi[phi])
			n.env[phi] = t
			phiTerms = append(phiTerms, t)
			k++
		}
		// widen memory
		roots := map[*Term][]string{}
		for m := range mods {
			roots[m.root] = append(roots[m.root], m.key)
		}
		var rs []*Term
		for r := range roots {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].ID < rs[j].ID })
		for _, r := range rs {
			keys := roots[r]
			sort.Strings(keys)
			o := n.st.obj(r).clone()
			whole := false
			for _, kx := range keys {
				if strings.HasPrefix(kx, "{") || strings.Contains(kx, "[") || kx == "" {
					whole = true
				}
			}
			if whole {
				ent := in.snapshot(n.st, r)
				t := in.T.mk("loopmem", LoopAux{What: rootName(r), Site: site, Path: fmt.Sprintf("#%d", r.ID)}, contentType(r, o), ent)
				o = &Obj{IsMap: o.IsMap, Base: t, Over: map[string]*Term{}}
			} else {
				for _, kx := range keys {
					ent := o.Over[kx]
					var typ types.Type
					if ent == nil {
						p := in.parsePath(kx)
						ent = n.st.load(r, p, nil)
					}
					typ = ent.Typ
					if typ == nil || ent.Op == "nil" {
						typ = in.typeAt(r, o, in.parsePath(kx))
					}
					o.Over[kx] = in.T.mk("loopmem", LoopAux{What: rootName(r), Site: site, Path: fmt.Sprintf("#%d%s", r.ID, kx)}, typ, ent)
				}
			}
			n.st.heap[r] = o
		}
		n.st.emit(&Event{Kind: "loop", Args: phiTerms, Instr: h.Instrs[0], In: f.fn, Depth: f.depth})
		start := n.st
		_ = start
		head := n.st.Clone()
		n.i = 0
		// run the body; the header itself is inside
		o2, ex2 := f.runLoop(n, l)
		// what did the iterations change?
		grown := false
		for _, r := range o2 {
			if r.Kind != "back" || r.Fn != f.fn || r.Loop != h {
				continue
			}
			for root, ob := range r.St.heap {
				hb, ok := head.heap[root]
				if !ok {
					if root.Op == "alloc" || root.Op == "make" {
						continue // allocated inside
					}
					if root.Op == "buf" && root.Args[0].Op == "alloc" && head.heap[root.Args[0]] == nil {
						continue // likewise
					}
					hb = &Obj{Base: in.deref(root)}
				}
				if hb == ob {
					continue
				}
				keys := map[string]bool{}
				for kx, v := range ob.Over {
					if hb.Over[kx] != v {
						keys[kx] = true
					}
				}
				for kx := range hb.Over {
					if _, ok := ob.Over[kx]; !ok {
						keys[kx] = true
					}
				}
				if ob.Base != hb.Base {
					keys[""] = true
				}
				for kx := range keys {
					whole := strings.HasPrefix(kx, "{") || strings.Contains(kx, "[") || kx == ""
					if whole && hb.Base != nil && hb.Base.Op == "loopmem" && hb.Base.Aux.(LoopAux).Site == site {
						in.addBack(r.St, hb.Base, in.snapshot(r.St, root))
						continue
					}
					if hv := hb.Over[kx]; !whole && hv != nil && hv.Op == "loopmem" && hv.Aux.(LoopAux).Site == site {
						if ob.Over[kx] != nil {
							in.addBack(r.St, hv, r.St.Norm(ob.Over[kx]))
						}
						continue
					}
					ml := memLoc{root, kx}
					if !mods[ml] {
						mods[ml] = true
						grown = true
					}
				}
			}
		}
		if grown && round < 12 {
			continue
		}
		outs = append(outs, o2...)
		return nil, outs, ex2
	}
}

func contentType(r *Term, o *Obj) types.Type {
	if o.Base != nil && o.Base.Typ != nil {
		return o.Base.Typ
	}
	if p, ok := under(r.Typ).(*types.Pointer); ok {
		return p.Elem()
	}
	return r.Typ
}

func rootName(r *Term) string { return r.str(3) }

// snapshot is a term describing the whole content of an object.
func (in *Interp) snapshot(st *State, root *Term) *Term {
	o := st.obj(root)
	var args []*Term
	if o.Base != nil {
		args = append(args, o.Base)
	}
	var ks []string
	for k := range o.Over {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasPrefix(k, "{") {
			var id int
			fmt.Sscanf(k, "{%d}", &id)
			args = append(args, in.T.mk("entry", nil, nil, in.T.all[id], o.Over[k]))
			continue
		}
		if i := strings.IndexByte(k, '['); i == 0 && strings.IndexByte(k, ']') == len(k)-1 {
			var id int
			fmt.Sscanf(k, "[%d]", &id)
			args = append(args, in.T.mk("entry", nil, nil, in.T.all[id], o.Over[k]))
			continue
		}
		args = append(args, in.T.mk("entry", k, nil, in.T.Str(k), o.Over[k]))
	}
	return in.T.mk("content", o.IsMap, contentType(root, o), args...)
}

func (in *Interp) parsePath(k string) []PE {
	var out []PE
	for len(k) > 0 {
		if k[0] == '.' {
			j := 1
			for j < len(k) && k[j] >= '0' && k[j] <= '9' {
				j++
			}
			var n int
			fmt.Sscan(k[1:j], &n)
			out = append(out, PE{Field: n})
			k = k[j:]
			continue
		}
		j := strings.IndexByte(k, ']')
		var id int
		fmt.Sscan(k[1:j], &id)
		out = append(out, PE{Field: -1, Idx: in.T.all[id]})
		k = k[j+1:]
	}
	return out
}

func (in *Interp) typeAt(r *Term, o *Obj, p []PE) types.Type {
	t := contentType(r, o)
	for _, e := range p {
		switch u := under(t).(type) {
		case *types.Struct:
			if e.Field >= 0 && e.Field < u.NumFields() {
				t = u.Field(e.Field).Type()
				continue
			}
		case *types.Array:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		}
		return nil
	}
	return t
}

// runLoop runs an iteration starting at the header with phis already set.
func (f *frame) runLoop(n *item, l *Loop) (outs []Ret, exits []*item) {
	// enter header without re-evaluating phis
	n.prev = nil
	items := []*item{n}
	for len(items) > 0 {
		it := items[len(items)-1]
		items = items[:len(items)-1]
		if f.in.Overflow != "" {
			return
		}
		if it.i == 0 && !l.Body[it.b] {
			exits = append(exits, it)
			continue
		}
		nx, rets, ex := f.step(it)
		outs = append(outs, rets...)
		items = append(items, nx...)
		items = append(items, ex...)
	}
	return
}

// ---- operands ----

func (f *frame) val(it *item, v ssa.Value) *Term {
	in := f.in
	switch x := v.(type) {
	case *ssa.Const:
		return in.T.Const(x)
	case *ssa.Function:
		return in.T.mk("fn", x, x.Type())
	case *ssa.Global:
		return in.Global(x)
	case *ssa.Builtin:
		return in.T.mk("builtin", x.Name(), x.Type())
	}
	if t, ok := it.env[v]; ok {
		return t
	}
	return in.T.mk("sym", fmt.Sprintf("%s.%s", f.fn.RelString(nil), v.Name()), v.Type())
}

// Global is the address of a package-level variable.
func (in *Interp) Global(g *ssa.Global) *Term {
	return in.T.mk("global", g, g.Type())
}

func (f *frame) args(it *item, c *ssa.CallCommon) []*Term {
	var out []*Term
	for _, a := range c.Args {
		out = append(out, it.st.Norm(f.val(it, a)))
	}
	return out
}

// deref shows a use of a pointer or interface to the probe.
func (f *frame) deref(st *State, v *Term, at ssa.Instruction) { f.derefBy(st, v, at, nil) }

func (f *frame) derefBy(st *State, v *Term, at ssa.Instruction, by *ssa.Function) {
	if f.in.Probe != nil && v != nil {
		f.in.Probe(st, &Event{Kind: "deref", Fn: by, Args: []*Term{v}, Instr: at, In: f.fn, Depth: f.depth, Prev: st.last})
	}
}

func (f *frame) callee(it *item, c *ssa.CallCommon) *Term {
	return it.st.Norm(f.val(it, c.Value))
}

func calleeName(c *ssa.CallCommon, fnv *Term) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if fn := c.StaticCallee(); fn != nil {
		return FuncName(fn)
	}
	if fnv != nil {
		switch fnv.Op {
		case "fn", "closure":
			return FuncName(fnv.Aux.(*ssa.Function))
		}
	}
	return "dyn"
}

// FuncName is the full name of a function.
func FuncName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.RelString(nil)
}

func (f *frame) simple(it *item, ins ssa.Instruction) {
	in := f.in
	T := in.T
	st := it.st
	set := func(v ssa.Value, t *Term) {
		if t.Typ == nil {
			t.Typ = v.Type()
		}
		it.env[v] = t
	}
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		s := in.site(f.ctx, x)
		st.counts[s]++
		et := x.Type().Underlying().(*types.Pointer).Elem()
		t := T.mk("alloc", CallAux{Name: x.Comment, Site: s, N: st.counts[s]}, et)
		st.heap[t] = &Obj{Base: T.zeroOf(et), Over: map[string]*Term{}}
		if isBufType(et) {
			in.bufSet(st, t, T.Str(""))
		}
		it.env[x] = t
	case *ssa.BinOp:
		set(x, f.binop(st, x.Op, st.Norm(f.val(it, x.X)), st.Norm(f.val(it, x.Y)), x))
	case *ssa.UnOp:
		v := st.Norm(f.val(it, x.X))
		switch x.Op {
		case token.NOT:
			set(x, T.Not(v))
		case token.MUL:
			f.deref(st, v, x)
			root, path := in.addr(v)
			r := st.load(root, path, x.Type())
			set(x, st.Norm(r))
		case token.ARROW:
			s := in.site(f.ctx, x)
			st.counts[s]++
			set(x, T.mk("recv", CallAux{Site: s, N: st.counts[s]}, x.Type(), v))
		case token.SUB:
			if n, ok := v.ConstInt(); ok {
				set(x, T.Int(-n))
				return
			}
			set(x, T.mk("neg", nil, x.Type(), v))
		default:
			set(x, T.mk("unop", x.Op.String(), x.Type(), v))
		}
	case *ssa.ChangeType:
		set(x, f.convert(f.val(it, x.X), x.Type()))
	case *ssa.Convert:
		set(x, f.convert(st.Norm(f.val(it, x.X)), x.Type()))
	case *ssa.MultiConvert:
		set(x, f.convert(st.Norm(f.val(it, x.X)), x.Type()))
	case *ssa.ChangeInterface:
		set(x, f.val(it, x.X))
	case *ssa.SliceToArrayPointer:
		set(x, T.mk("conv", nil, x.Type(), f.val(it, x.X)))
	case *ssa.MakeInterface:
		v := f.val(it, x.X)
		v = st.Norm(v)
		set(x, T.mk("iface", nil, x.X.Type(), v))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, f.val(it, b))
		}
		ct := T.mk("closure", x.Fn.(*ssa.Function), x.Type(), bs...)
		if in.closures == nil {
			in.closures = map[*ssa.Function]map[*Term]bool{}
		}
		if in.closures[x.Fn.(*ssa.Function)] == nil {
			in.closures[x.Fn.(*ssa.Function)] = map[*Term]bool{}
		}
		in.closures[x.Fn.(*ssa.Function)][ct] = true
		set(x, ct)
	case *ssa.MakeMap:
		s := in.site(f.ctx, x)
		st.counts[s]++
		t := T.mk("make", CallAux{Name: "map", Site: s, N: st.counts[s]}, x.Type())
		st.heap[t] = &Obj{IsMap: true, Over: map[string]*Term{}}
		it.env[x] = t
	case *ssa.MakeChan:
		s := in.site(f.ctx, x)
		st.counts[s]++
		it.env[x] = T.mk("make", CallAux{Name: "chan", Site: s, N: st.counts[s]}, x.Type())
	case *ssa.MakeSlice:
		s := in.site(f.ctx, x)
		st.counts[s]++
		ln := st.Norm(f.val(it, x.Len))
		if f.in.Probe != nil {
			f.in.Probe(st, &Event{Kind: "make", Args: []*Term{ln, st.Norm(f.val(it, x.Cap))}, Instr: x, In: f.fn, Depth: f.depth, Prev: st.last})
		}
		if n, ok := ln.ConstInt(); ok && n == 0 {
			it.env[x] = T.mk("list", nil, x.Type())
			return
		}
		t := T.mk("make", CallAux{Name: "slice", Site: s, N: st.counts[s]}, x.Type())
		st.heap[t] = &Obj{Base: T.mk("zero", nil, x.Type()), Over: map[string]*Term{}}
		it.env[x] = T.mk("slice", nil, x.Type(), t, ln)
	case *ssa.Slice:
		set(x, f.slice(it, x))
	case *ssa.FieldAddr:
		v := st.Norm(f.val(it, x.X))
		f.deref(st, v, x)
		root, path := in.addr(v)
		set(x, in.mkAddr(root, append(path[:len(path):len(path)], PE{Field: x.Field}), x.Type()))
	case *ssa.Field:
		v := st.Norm(f.val(it, x.X))
		set(x, st.Norm(T.Field(v, x.Field, x.Type())))
	case *ssa.IndexAddr:
		v := st.Norm(f.val(it, x.X))
		idx := st.Norm(f.val(it, x.Index))
		var root *Term
		var path []PE
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			root, path = in.addr(v)
		} else if v.Op == "slice" {
			root, path = in.addr(v.Args[0])
			if len(v.Args) > 2 {
				idx = f.binop(st, token.ADD, v.Args[2], idx, nil)
			}
		} else {
			root = T.mk("sliceof", nil, nil, v)
		}
		st.emit(&Event{Kind: "index", Args: []*Term{v, idx}, Instr: x, In: f.fn, Depth: f.depth})
		set(x, in.mkAddr(root, append(path[:len(path):len(path)], PE{Field: -1, Idx: idx}), x.Type()))
	case *ssa.Index:
		v, idx := st.Norm(f.val(it, x.X)), st.Norm(f.val(it, x.Index))
		st.emit(&Event{Kind: "index", Args: []*Term{v, idx}, Instr: x, In: f.fn, Depth: f.depth})
		if s, ok := v.ConstString(); ok {
			if n, ok := idx.ConstInt(); ok && n >= 0 && int(n) < len(s) {
				set(x, T.Int(int64(s[n])))
				return
			}
		}
		if isBytesOrString(x.X.Type()) {
			if b := T.StrIndex(v, idx); b != nil {
				set(x, b)
				return
			}
		}
		set(x, T.Elem(v, idx, x.Type()))
	case *ssa.Lookup:
		m, k := st.Norm(f.val(it, x.X)), st.Norm(f.val(it, x.Index))
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			v, ok := st.MapGet(m, k, mt.Elem())
			if x.CommaOk {
				set(x, T.mk("agg", nil, x.Type(), st.Norm(v), ok))
			} else if st.Truth(ok) == 0 {
				set(x, T.zeroOf(mt.Elem()))
			} else {
				set(x, st.Norm(v))
			}
			return
		}
		st.emit(&Event{Kind: "index", Args: []*Term{m, k}, Instr: x, In: f.fn, Depth: f.depth})
		if s, ok := m.ConstString(); ok {
			if n, ok := k.ConstInt(); ok && n >= 0 && int(n) < len(s) {
				set(x, T.Int(int64(s[n])))
				return
			}
		}
		if b := T.StrIndex(m, k); b != nil {
			set(x, b)
			return
		}
		if n, ok := k.ConstInt(); ok && n == 0 && m.Op == "concat" && st.Truth(T.Eq(m.Args[0], T.Str(""))) == 0 {
			m = m.Args[0]
		}
		set(x, T.Elem(m, k, x.Type()))
	case *ssa.Range:
		s := in.site(f.ctx, x)
		st.counts[s]++
		t := T.mk("iter", CallAux{Site: s, N: st.counts[s]}, nil, st.Norm(f.val(it, x.X)))
		st.heap[t] = &Obj{Base: T.Int(0), Over: map[string]*Term{"": T.Int(0)}}
		it.env[x] = t
	case *ssa.Next:
		f.next(it, x)
	case *ssa.Select:
		s := in.site(f.ctx, x)
		st.counts[s]++
		set(x, T.mk("select", CallAux{Site: s, N: st.counts[s]}, x.Type()))
	case *ssa.TypeAssert:
		f.typeAssert(it, x)
	case *ssa.Extract:
		v := st.Norm(f.val(it, x.Tuple))
		set(x, st.Norm(T.Extract(v, x.Index, x.Type())))
	case *ssa.Send:
		st.emit(&Event{Kind: "send", Args: []*Term{f.val(it, x.Chan), f.val(it, x.X)}, Instr: x, In: f.fn, Depth: f.depth})
	case *ssa.Store:
		a, v := st.Norm(f.val(it, x.Addr)), st.Norm(f.val(it, x.Val))
		f.deref(st, a, x)
		root, path := in.addr(a)
		st.store(root, path, v)
		st.emit(&Event{Kind: "store", Args: []*Term{a, v}, Instr: x, In: f.fn, Depth: f.depth})
	case *ssa.MapUpdate:
		m, k, v := st.Norm(f.val(it, x.Map)), st.Norm(f.val(it, x.Key)), st.Norm(f.val(it, x.Value))
		if f.in.Probe != nil {
			f.in.Probe(st, &Event{Kind: "grow", Args: []*Term{m, k, v}, Instr: x, In: f.fn, Depth: f.depth, Prev: st.last})
		}
		st.mapSet(m, k, v)
		st.emit(&Event{Kind: "mapset", Args: []*Term{m, k, v}, Instr: x, In: f.fn, Depth: f.depth})
	default:
		if v, ok := ins.(ssa.Value); ok {
			s := in.site(f.ctx, ins)
			st.counts[s]++
			it.env[v] = T.mk("unknown", CallAux{Name: fmt.Sprintf("%T", ins), Site: s, N: st.counts[s]}, v.Type())
		}
	}
}

// addr splits an address into the object and the path inside it.
func (in *Interp) addr(t *Term) (*Term, []PE) {
	if t.Op == "addr" {
		return t.Args[0], in.parsePath(t.Aux.(string))
	}
	if t.Op == "conv" {
		return in.addr(t.Args[0])
	}
	return t, nil
}

// Free is what a captured variable is when a closure is interpreted alone.
func (in *Interp) Free(v *ssa.FreeVar) *Term { return in.T.mk("free", v.Name(), v.Type()) }

// Closure is a function with the variables it captured.
func (in *Interp) Closure(fn *ssa.Function, free ...*Term) *Term {
	return in.T.mk("closure", fn, fn.Signature, free...)
}

// Closures lists the closures made of fn so far.
func (in *Interp) Closures(fn *ssa.Function) []*Term {
	var out []*Term
	for t := range in.closures[fn] {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// Addr splits an address for callers outside the package.
func (in *Interp) Addr(t *Term) (root *Term, path []PE) { return in.addr(t) }

func (in *Interp) mkAddr(root *Term, path []PE, typ types.Type) *Term {
	if len(path) == 0 {
		return root
	}
	return in.T.mk("addr", pathKey(path), typ, root)
}

// FieldAddr is the address of a field.
func (in *Interp) FieldAddr(root *Term, field int, typ types.Type) *Term {
	r, p := in.addr(root)
	return in.mkAddr(r, append(p[:len(p):len(p)], PE{Field: field}), typ)
}

// ElemAddr is the address of an element of an array.
func (in *Interp) ElemAddr(root, idx *Term, typ types.Type) *Term {
	r, p := in.addr(root)
	return in.mkAddr(r, append(p[:len(p):len(p)], PE{Field: -1, Idx: idx}), typ)
}

func (f *frame) convert(v *Term, to types.Type) *Term {
	if v.IsConst() {
		tb, _ := under(to).(*types.Basic)
		switch {
		case tb != nil && tb.Info()&types.IsString != 0:
			if _, ok := v.ConstString(); ok {
				return v
			}
			if n, ok := v.ConstInt(); ok {
				return f.in.T.Str(string(rune(n)))
			}
		case tb != nil && tb.Info()&types.IsInteger != 0:
			if _, ok := v.ConstInt(); ok {
				return v
			}
		case tb != nil && tb.Info()&types.IsFloat != 0:
			if n, ok := v.ConstInt(); ok {
				return f.in.T.mk("const", fmt.Sprintf("f:%d", n), types.Typ[types.Float64])
			}
			return v
		case tb != nil && tb.Info()&types.IsBoolean != 0:
			return v
		}
		return f.in.T.mk("conv", nil, to, v)
	}
	from := v.Typ
	if from != nil {
		uf, ut := under(from), under(to)
		if types.Identical(uf, ut) {
			return v // a change of name only
		}
		bf, ok1 := uf.(*types.Basic)
		bt, ok2 := ut.(*types.Basic)
		if ok1 && ok2 && bf.Info()&types.IsInteger != 0 && bt.Info()&types.IsInteger != 0 {
			if intSize(bt) >= intSize(bf) {
				return v // nothing is cut off
			}
			return f.in.T.mk("conv", nil, to, v)
		}
		// []byte(string([]byte)) and back
		if v.Op == "conv" && v.Args[0].Typ != nil && types.Identical(under(v.Args[0].Typ), ut) {
			return v.Args[0]
		}
		switch uf.(type) {
		case *types.Slice, *types.Map, *types.Pointer, *types.Signature, *types.Struct:
			if !isBytesOrString(uf) || !isBytesOrString(ut) {
				return v
			}
		}
	}
	if v.Op == "nil" || v.Op == "alloc" || v.Op == "list" || v.Op == "cat" {
		return v
	}
	return f.in.T.mk("conv", nil, to, v)
}

func intSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func isBytesOrString(t types.Type) bool {
	switch u := t.(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Byte || b.Kind() == types.Rune)
	}
	return false
}

func (f *frame) binop(st *State, op token.Token, a, b *Term, x *ssa.BinOp) *Term {
	T := f.in.T
	switch op {
	case token.EQL:
		return T.Eq(a, b)
	case token.NEQ:
		return T.Not(T.Eq(a, b))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		return T.Cmp(op, a, b)
	case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR, token.XOR, token.SHL, token.SHR:
		if op == token.ADD {
			str := false
			for _, t := range []*Term{a, b} {
				if bt, ok := under(t.Typ).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
					str = true
				}
			}
			if str {
				return T.Concat(a, b)
			}
		}
		m, ok1 := a.ConstInt()
		n, ok2 := b.ConstInt()
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return T.Int(m + n)
			case token.SUB:
				return T.Int(m - n)
			case token.MUL:
				return T.Int(m * n)
			case token.AND:
				return T.Int(m & n)
			case token.OR:
				return T.Int(m | n)
			case token.XOR:
				return T.Int(m ^ n)
			case token.QUO:
				if n != 0 {
					return T.Int(m / n)
				}
			case token.REM:
				if n != 0 {
					return T.Int(m % n)
				}
			case token.SHL:
				if n >= 0 && n < 63 {
					return T.Int(m << uint(n))
				}
			case token.SHR:
				if n >= 0 && n < 63 {
					return T.Int(m >> uint(n))
				}
			}
		}
		if ok2 && n == 0 && (op == token.ADD || op == token.SUB || op == token.OR) {
			return a
		}
		if ok1 && m == 0 && (op == token.ADD || op == token.OR) {
			return b
		}
		// (x + c) - c'
		if ok2 && (op == token.ADD || op == token.SUB) && a.Op == "bin" && (a.Aux == "+" || a.Aux == "-") {
			if c, ok := a.Args[1].ConstInt(); ok {
				if a.Aux == "-" {
					c = -c
				}
				if op == token.SUB {
					n = -n
				}
				c += n
				switch {
				case c == 0:
					return a.Args[0]
				case c > 0:
					return T.mk("bin", "+", a.Typ, a.Args[0], T.Int(c))
				default:
					return T.mk("bin", "-", a.Typ, a.Args[0], T.Int(-c))
				}
			}
		}
		var typ types.Type = a.Typ
		if x != nil {
			typ = x.Type()
		}
		return T.mk("bin", op.String(), typ, a, b)
	}
	return T.mk("bin", op.String(), a.Typ, a, b)
}

func (f *frame) slice(it *item, x *ssa.Slice) *Term {
	T := f.in.T
	st := it.st
	v := st.Norm(f.val(it, x.X))
	opt := func(o ssa.Value) *Term {
		if o == nil {
			return nil
		}
		return st.Norm(f.val(it, o))
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo != nil {
		if n, ok := lo.ConstInt(); ok && n == 0 {
			lo = nil
		}
	}
	if lo != nil || hi != nil {
		st.emit(&Event{Kind: "slice", Args: []*Term{v, lo, hi, mx}, Instr: x, In: f.fn, Depth: f.depth})
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		arr := p.Elem().Underlying().(*types.Array)
		if lo == nil && hi == nil {
			return T.mk("slice", nil, x.Type(), v, T.Int(arr.Len()))
		}
		if lo == nil && hi != nil {
			return T.mk("slice", nil, x.Type(), v, hi)
		}
	}
	if s, ok := v.ConstString(); ok {
		l, h := int64(0), int64(len(s))
		okk := true
		if lo != nil {
			n, o := lo.ConstInt()
			l, okk = n, okk && o
		}
		if hi != nil {
			n, o := hi.ConstInt()
			h, okk = n, okk && o
		}
		if okk && l >= 0 && l <= h && h <= int64(len(s)) {
			return T.Str(s[l:h])
		}
	}
	if v.Op == "list" || v.Op == "slice" || v.Op == "cat" {
		if l := f.in.listOf(st, v); l != nil {
			a, h := int64(0), int64(len(l.Args))
			okk := true
			if lo != nil {
				n, o := lo.ConstInt()
				a, okk = n, okk && o
			}
			if hi != nil {
				n, o := hi.ConstInt()
				h, okk = n, okk && o
			}
			if okk && a >= 0 && a <= h && h <= int64(len(l.Args)) && (lo != nil || hi != nil) {
				return T.mk("list", nil, v.Typ, l.Args[a:h]...)
			}
		}
	}
	if v.Op == "cat" && lo == nil && hi != nil {
		if k, ok := T.fromEnd(v, hi); ok {
			if r := T.dropEnd(v, k); r != nil {
				return r
			}
		}
	}
	if v.Op == "concat" {
		r, ok := v, true
		if hi != nil && hi != T.Len(v) {
			r, _, ok = T.cutAt(r, hi)
		}
		if ok && lo != nil {
			_, r, ok = T.cutAt(r, lo)
		}
		if ok {
			return r
		}
	}
	if lo == nil && (hi == nil || hi == T.Len(v)) {
		if mx != nil {
			return T.mk("clip", nil, x.Type(), v)
		}
		return v
	}
	if v.Op == "clip" && lo == nil && hi == T.Len(v.Args[0]) {
		return v
	}
	if hi == T.Len(v) {
		hi = nil
	}
	return T.mk("sub", nil, x.Type(), v, lo, hi)
}

// listOf turns a slice over a tracked array into the list of its elements.
func (in *Interp) listOf(st *State, v *Term) *Term {
	switch v.Op {
	case "list":
		// elements may have been replaced in place
		root := in.T.mk("sliceof", nil, nil, v)
		o, tracked := st.heap[root]
		if !tracked || len(o.Over) == 0 {
			return v
		}
		var et types.Type
		if sl, ok := under(v.Typ).(*types.Slice); ok {
			et = sl.Elem()
		}
		var args []*Term
		for i := range v.Args {
			args = append(args, st.Norm(st.load(root, []PE{{Field: -1, Idx: in.T.Int(int64(i))}}, et)))
		}
		return in.T.mk("list", nil, v.Typ, args...)
	case "nil":
		return in.T.mk("list", nil, v.Typ)
	case "clip":
		return in.listOf(st, v.Args[0])
	case "slice":
		n, ok := v.Args[1].ConstInt()
		if !ok || n > 300 {
			return nil
		}
		root, path := in.addr(v.Args[0])
		if _, tracked := st.heap[root]; !tracked {
			return nil
		}
		var et types.Type
		if sl, ok := under(v.Typ).(*types.Slice); ok {
			et = sl.Elem()
		}
		var args []*Term
		for i := int64(0); i < n; i++ {
			args = append(args, st.Norm(st.load(root, append(path[:len(path):len(path)], PE{Field: -1, Idx: in.T.Int(i)}), et)))
		}
		return in.T.mk("list", nil, v.Typ, args...)
	}
	return nil
}

// Resolve replaces slices over tracked arrays by lists, at the top level.
func (in *Interp) Resolve(st *State, v *Term) *Term {
	v = st.Norm(v)
	if v.Op == "slice" || v.Op == "list" {
		if l := in.listOf(st, v); l != nil {
			return l
		}
	}
	return v
}

func (f *frame) next(it *item, x *ssa.Next) {
	in := f.in
	T := in.T
	st := it.st
	iter := f.val(it, x.Iter)
	coll := iter.Args[0]
	tup := x.Type().(*types.Tuple)
	mkt := func(ok, k, v *Term) {
		it.env[x] = T.mk("agg", nil, tup, ok, k, v)
	}
	o := st.obj(iter)
	pos, haspos := o.Over[""].ConstInt()
	if !x.IsString {
		keys, vals, base := st.MapEntries(coll)
		if (base == nil || coll.Op == "nil") && haspos {
			allConst := true
			for i, k := range keys {
				for _, l := range keys[:i] {
					if !(k.IsConst() && l.IsConst()) && st.Truth(T.Eq(k, l)) != 0 {
						allConst = false
					}
				}
			}
			if allConst {
				if int(pos) < len(keys) {
					st.store(iter, nil, T.Int(pos+1))
					mkt(T.Bool(true), keys[pos], vals[pos])
				} else {
					mkt(T.Bool(false), T.zeroOf(tup.At(1).Type()), T.zeroOf(tup.At(2).Type()))
				}
				return
			}
		}
	}
	s := in.site(f.ctx, x)
	st.counts[s]++
	ca := CallAux{Site: s, N: st.counts[s]}
	ok := T.mk("more", ca, types.Typ[types.Bool], iter)
	in.moreIn[ok] = moreAt{in.site(f.ctx, x.Block().Instrs[0]), x}
	var k, v *Term
	if x.IsString {
		k = T.mk("strkey", ca, types.Typ[types.Int], coll)
		v = T.mk("strelem", ca, types.Typ[types.Rune], coll)
	} else {
		mt := under(coll.Typ)
		var kt, vt types.Type = tup.At(1).Type(), tup.At(2).Type()
		if m, isMap := mt.(*types.Map); isMap {
			kt, vt = m.Key(), m.Elem()
		}
		k = T.mk("mapkey", ca, kt, coll)
		v = T.mk("lookup", nil, vt, coll, k)
		st.facts[T.mk("has", nil, types.Typ[types.Bool], coll, k)] = T.Bool(true)
	}
	mkt(ok, k, v)
}

func (f *frame) typeAssert(it *item, x *ssa.TypeAssert) {
	T := f.in.T
	st := it.st
	v := st.Norm(f.val(it, x.X))
	var ok *Term
	val := v
	isIface := types.IsInterface(x.AssertedType)
	switch {
	case v.Op == "nil":
		ok = T.Bool(false)
	case v.Op == "iface":
		if isIface {
			ok = T.Bool(types.Implements(v.Typ, x.AssertedType.Underlying().(*types.Interface)))
		} else {
			ok = T.Bool(types.Identical(v.Typ, x.AssertedType))
			val = v.Args[0]
		}
	default:
		if k, known := st.kinds[v]; known && !isIface {
			ok = T.Bool(types.Identical(k, x.AssertedType))
		} else if isIface && x.X.Type() != nil && types.Implements(x.X.Type(), x.AssertedType.Underlying().(*types.Interface)) {
			ok = T.Not(T.Eq(v, T.Nil()))
		} else {
			ok = T.mk("is", nil, x.AssertedType, v)
		}
		if !isIface {
			val = T.mk("assert", nil, x.AssertedType, v)
			// type-indexed: keep distinct types apart
			val = T.mk("as", f.in.T.typeStr(x.AssertedType), x.AssertedType, v)
		}
	}
	if x.CommaOk {
		switch st.Truth(ok) {
		case 0:
			val = T.zeroOf(x.AssertedType)
			ok = T.Bool(false)
		case 1:
			ok = T.Bool(true)
		}
		it.env[x] = T.mk("agg", nil, x.Type(), val, ok)
		return
	}
	st.emit(&Event{Kind: "assert", Args: []*Term{v, ok}, Instr: x, In: f.fn, Depth: f.depth})
	if st.Truth(ok) == -1 {
		st.Assume(ok, true)
	}
	it.env[x] = val
}

// AllFunctions lists functions of the program.
func AllFunctions(prog *ssa.Program) map[*ssa.Function]bool { return ssautil.AllFunctions(prog) }
