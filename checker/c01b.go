package main

import (
	"go/types"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

// goroutines judges what goroutines share with the functions starting them.
func (x *concurrency) goroutines() {
	c := x.c
	for _, fn := range x.funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				g, ok := ins.(*ssa.Go)
				if !ok {
					continue
				}
				c.counts["goroutines"]++
				x.goroutine(fn, g)
			}
		}
	}
}

func (x *concurrency) goroutine(fn *ssa.Function, g *ssa.Go) {
	c := x.c
	cc := g.Common()
	var body *ssa.Function
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		body = mc.Fn.(*ssa.Function)
	} else {
		body = cc.StaticCallee()
	}
	if cc.IsInvoke() || body == nil || len(body.Blocks) == 0 {
		return // a method of a library value, or a function of the library
	}
	in := psa.New(c.prog)
	in.NoUnroll = true
	in.MaxSteps = 2000000
	in.Opaque = func(h *ssa.Function, _ []*ssa.Function) bool { return !x.own[h] }
	T := in.T
	in.Model = func(st *psa.State, name string, h *ssa.Function, args []*T0, call *psa.Call) []psa.Ret {
		if op, ok := lockCall(name); ok && op != "Do" {
			k := "lock"
			if op == "Unlock" || op == "RUnlock" {
				k = "unlock"
			}
			st.Emit(&psa.Event{Kind: k, Args: []*T0{strip(args[0])}, Instr: call.Instr, In: call.In})
			return []psa.Ret{{St: st, Kind: "ret", Val: T.Nil()}}
		}
		return nil
	}
	var args, free []*T0
	for _, p := range body.Params {
		args = append(args, in.Param(p))
	}
	for _, p := range body.FreeVars {
		free = append(free, T.Sym("free "+p.Name(), p.Type()))
	}
	paths := in.Run(body, args, free, nil)
	if in.Overflow != "" {
		c.violate("goroutine", fname(body), c.pos(body.Pos()), "undecided: "+in.Overflow)
		return
	}
	for _, p := range paths {
		n := 0
		for _, e := range p.Events {
			switch e.Kind {
			case "lock":
				n++
			case "unlock":
				n--
			case "store", "mapset", "mapdel", "copy":
				root, path := in.Addr(e.Args[0])
				shared := false
				psa.Walk(root, func(y *T0) bool {
					if y.Op == "alloc" || y.Op == "makemap" || y.Op == "makeslice" {
						return false
					}
					for _, f := range append(append([]*T0{}, free...), args...) {
						if y == f {
							shared = true
						}
					}
					return true
				})
				if shared && n == 0 && e.Kind == "store" {
					for _, pe := range path {
						for _, a := range args {
							if pe.Idx == a {
								shared = false // each goroutine its own element
							}
						}
					}
				}
				c.expect(!shared || n > 0, "goroutine", fname(body), c.ipos(e.Instr), "the goroutine writes what it shares with its creator without a lock")
			}
		}
	}
	// variables it reads are not written after it has been started
	mc, ok := cc.Value.(*ssa.MakeClosure)
	if !ok {
		return
	}
	after := reach(g)
	for i, b := range mc.Bindings {
		a, ok := b.(*ssa.Alloc)
		if !ok {
			continue
		}
		bad := false
		var at ssa.Instruction
		for _, r := range *a.Referrers() {
			s, ok := r.(*ssa.Store)
			if !ok || s.Addr != ssa.Value(a) || !after(s) {
				continue
			}
			if !sameIteration(a, g, s) {
				continue
			}
			bad, at = true, s
		}
		if _, ok := a.Type().Underlying().(*types.Pointer); ok {
			c.expect(!bad, "goroutine", fname(body)+" "+body.FreeVars[i].Name(), c.ipos(at), "a variable the goroutine uses is written after the goroutine was started")
		}
	}
}

// sameIteration reports that a store after a goroutine may be to the variable
// the goroutine uses: one made anew in each iteration is another one.
func sameIteration(a *ssa.Alloc, g *ssa.Go, s *ssa.Store) bool {
	// a store which is only reached through the allocation is to a new variable
	seen := map[*ssa.BasicBlock]bool{}
	ab := a.Block()
	if ab == ab.Parent().Blocks[0] {
		return true
	}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] || b == ab {
			return false
		}
		seen[b] = true
		if b == s.Block() {
			return true
		}
		for _, n := range b.Succs {
			if walk(n) {
				return true
			}
		}
		return false
	}
	if g.Block() == s.Block() && before(g, s) {
		return true
	}
	for _, n := range g.Block().Succs {
		if walk(n) {
			return true
		}
	}
	return false
}

func before(a, b ssa.Instruction) bool {
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// reach answers whether an instruction may run after the given one.
func reach(from ssa.Instruction) func(ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				walk(n)
			}
		}
	}
	walk(from.Block())
	return func(i ssa.Instruction) bool {
		return seen[i.Block()] || i.Block() == from.Block() && before(from, i) && i != from
	}
}
