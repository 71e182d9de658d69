package main

import (
	"go/types"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["M01"] = checkM01
}

const gabsC = "(*github.com/Jeffail/gabs/v2.Container)."

var anyType = types.NewInterfaceType(nil, nil).Complete()

// mapOf makes a map of distinct arbitrary keys with arbitrary values.
func mapOf(in *psa.Interp, st *psa.State, name string, mt *types.Map, n int) (m *T, keys, vals []*T) {
	var kv []*T
	for i := 0; i < n; i++ {
		k := in.T.Sym(name+"KEY"+string(rune('A'+i)), mt.Key())
		v := in.T.Sym(name+"VAL"+string(rune('A'+i)), mt.Elem())
		for _, o := range keys {
			st.Assume(in.T.Eq(k, o), false)
		}
		keys, vals = append(keys, k), append(vals, v)
		kv = append(kv, k, v)
	}
	return st.NewMap(name, mt, kv...), keys, vals
}

var mapAny = types.NewMap(types.Typ[types.String], anyType)

func (c *Ctx) opaqueAlso(in *psa.Interp, names ...string) {
	old := in.Opaque
	in.Opaque = func(fn *ssa.Function, stack []*ssa.Function) bool {
		n := fname(fn)
		for _, x := range names {
			if n == x {
				return true
			}
		}
		return old(fn, stack)
	}
}

func checkM01(c *Ctx) {
	c.explain = "Merging is interpreted for a source document of two arbitrary entries, at the top and - through its recursive step - at an arbitrary depth; on every successful path the effects on the destination are compared, entry by entry, with what has to become of it. The policies, and the merging of a list of documents, are interpreted on their own."
	c.rule("missing", "an entry which the destination does not have is set to the value of the source", 4)
	c.rule("objects", "an entry which is an object in both documents is merged the same way, one level down", 4)
	c.rule("collision", "any other entry which both have becomes what the policy says of the existing and the new value, and its error is reported", 4)
	c.rule("errors", "a merge fails only if something it calls does", 4)
	c.rule("copy", "what is merged in is a copy of the source", 2)
	c.rule("policies", "strict refuses, default keeps the existing value, override takes the new one", 3)
	c.rule("list", "merging a list of documents merges each of them, in order, into a new document, and reports failures", 3)
	for n, w := range map[string]string{"MergeStrict": "error", "MergeDefault": "destination", "MergeOverride": "source"} {
		in := c.interp()
		c.opaque(in, "internal/container")
		fn := c.fn("container", n)
		got := c.policy(in, in.T.Mk("fn", fn, fn.Signature))
		c.expect(got == w, "policies", n, c.pos(fn.Pos()), "%s yields %s, not %s", n, got, w)
	}

	in := c.interp()
	c.opaque(in, "internal/container")
	c.opaqueAlso(in, "internal/container.mmap")
	fn := c.method("container", "Container", "Merge")
	dst, src, pol := in.Param(fn.Params[0]), in.Param(fn.Params[1]), in.Param(fn.Params[2])
	ctT := c.typ("container", "Container")
	dg := c.field(in, dst, ctT, "c")
	sg := c.field(in, src, ctT, "c")
	var keys, vals []*T
	in.Model = func(st *psa.State, name string, f *ssa.Function, args []*T, call *psa.Call) []psa.Ret {
		if name != "encoding/json.Unmarshal" || len(args) != 2 {
			return nil
		}
		fromSrc := flows(in, st, args[0])[sg]
		if !fromSrc {
			for t := range flows(in, st, args[0]) {
				if t.Op == "call" && strings.HasSuffix(t.Callee(), ".Data") && t.Args[0] == sg {
					fromSrc = true
				}
			}
		}
		if !fromSrc {
			return nil
		}
		var m *T
		m, keys, vals = mapOf(in, st, "SRC", mapAny, 2)
		st.Emit(&psa.Event{Kind: "call", Callee: name, Fn: f, Args: args, Instr: call.Instr, In: call.In})
		st.Store(strip(args[1]), in.T.Mk("iface", nil, mapAny, m))
		return []psa.Ret{{St: st, Kind: "ret", Val: in.T.Nil()}}
	}
	var step *psa.Event
	var stepSt *psa.State
	n := 0
	for _, p := range c.run(in, fn, nil, nil, nil) {
		on := map[*ssa.Function]bool{}
		for _, e := range p.Events {
			if e.Kind == "enter" {
				on[e.Fn] = true
			}
			if e.Kind == "call" && e.Fn != nil && on[e.Fn] && len(e.Fn.Blocks) > 0 && step == nil && e.Fn != fn && c.isOurs(e.Fn) {
				step, stepSt = e, p.St
			}
		}
		if !succeeded(p) {
			c.expect(!c.causeless(in, p), "errors", fname(fn), c.ipos(p.At), "a merge fails without a reason %s", c.where(p))
			continue
		}
		un := 0
		for _, e := range calls(p, "encoding/json.Unmarshal") {
			if flows(in, p.St, e.Args[0])[sg] {
				un++
			}
		}
		if !c.expect(un == 1, "copy", "Merge", c.ipos(p.At), "what is merged in is not a deep copy of the source %s", c.where(p)) {
			continue
		}
		n++
		c.mergeStep(in, p, dg, pol, nil, keys, vals, step)
	}
	c.expect(n > 0, "missing", "Merge", c.pos(fn.Pos()), "merging never succeeds")
	if !c.expect(step != nil, "objects", "recursion", c.pos(fn.Pos()), "objects are not merged recursively") {
		return
	}
	// at an arbitrary depth
	in.Model = nil
	st := stepSt.Clone()
	st.Forget()
	args := make([]*T, len(step.Fn.Params))
	var path *T
	for i, q := range step.Fn.Params {
		args[i] = step.Args[i]
		switch u := q.Type().Underlying().(type) {
		case *types.Map:
			args[i], keys, vals = mapOf(in, st, "SUB", u, 2)
		case *types.Slice:
			path = in.T.Sym("PATH", q.Type())
			args[i] = path
		}
	}
	var free []*T
	if v, ok := step.Instr.(ssa.CallInstruction); ok && !v.Common().IsInvoke() && len(step.Fn.FreeVars) > 0 {
		free = c.closureArgs(in, stepSt, step.Fn)
	}
	if path == nil || len(free) != len(step.Fn.FreeVars) {
		c.violate("undecided", fname(step.Fn), c.pos(step.Fn.Pos()), "the recursive step of merging does not take a map and a path")
		return
	}
	n = 0
	for _, p := range c.run(in, step.Fn, args, free, st) {
		if succeeded(p) {
			n++
			c.mergeStep(in, p, dg, pol, path, keys, vals, step)
		}
	}
	c.expect(n > 0, "missing", "step", c.pos(step.Fn.Pos()), "merging of nested objects never succeeds")
	c.mergeList()
}

// closureArgs finds the captured values of the closure over fn.
func (c *Ctx) closureArgs(in *psa.Interp, st *psa.State, fn *ssa.Function) []*T {
	for _, t := range in.Closures(fn) {
		return t.Args
	}
	return nil
}

// mergeStep compares the effects of merging two entries with what is expected.
func (c *Ctx) mergeStep(in *psa.Interp, p *psa.Path, dg, pol, path *T, keys, vals []*T, step *psa.Event) {
	at := c.ipos(p.At)
	isPath := func(t, k *T) bool {
		t = in.Resolve(p.St, t)
		if path != nil {
			return t.Op == "cat" && len(t.Args) == 2 && t.Args[0] == path && t.Args[1].Op == "list" && len(t.Args[1].Args) == 1 && t.Args[1].Args[0] == k
		}
		return t.Op == "list" && len(t.Args) == 1 && t.Args[0] == k
	}
	okErr := func(e *psa.Event, i int) bool { return p.St.Nil(in.T.Extract(e.Res, i, nil)) == 1 }
	used := map[*psa.Event]bool{}
	cases(in, p.St, func(x *cs) {
		for i, k := range keys {
			v := vals[i]
			var exists, existing *T
			var sets, recs, dyns []*psa.Event
			for _, e := range p.Events {
				if e.Kind != "call" {
					continue
				}
				onDst := len(e.Args) > 0 && p.St.Norm(e.Args[0]) == dg
				switch n := e.Callee; {
				case n == gabsC+"Exists" && onDst && isPath(e.Args[1], k):
					exists = e.Res
				case (n == gabsC+"Search" || n == gabsC+"S") && onDst && isPath(e.Args[1], k):
					if exists == nil {
						exists = in.T.Not(in.T.Eq(e.Res, in.T.Nil()))
					}
					for _, d := range p.Events {
						if d.Kind == "call" && d.Callee == gabsC+"Data" && p.St.Norm(d.Args[0]) == p.St.Norm(e.Res) {
							existing = d.Res
						}
					}
				case n == gabsC+"Set" && onDst && isPath(e.Args[2], k):
					sets = append(sets, e)
				case n == "dyn" && p.St.Norm(e.Args[0]) == pol && len(e.Args) == 3 && sameVal(p, e.Args[2], v):
					dyns = append(dyns, e)
				case step != nil && e.Fn == step.Fn && recArg(e, func(t *T) bool { return isPath(t, k) }):
					recs = append(recs, e)
				}
			}
			for _, l := range [][]*psa.Event{sets, recs, dyns} {
				for _, e := range l {
					used[e] = true
				}
			}
			if exists == nil {
				c.violate("missing", "entry", at, "an entry is handled without looking whether the destination has it "+c.where(p))
				continue
			}
			if !x.is(exists) {
				c.expect(len(sets) == 1 && len(recs) == 0 && sameVal(p, sets[0].Args[1], v), "missing", "entry", at, "an entry missing in the destination is not set to the value of the source %s", c.where(p))
				if len(sets) == 1 {
					c.expect(okErr(sets[0], 1), "missing", "error", at, "a failure to set an entry is ignored")
				}
				continue
			}
			bothMaps := existing != nil && x.is(in.T.Mk("is", nil, mapAny, v)) && x.is(in.T.Mk("is", nil, mapAny, existing))
			if bothMaps {
				ok := len(recs) == 1 && len(sets) == 0 && len(dyns) == 0 && recArg(recs[0], func(t *T) bool { return sameVal(p, t, v) })
				c.expect(ok, "objects", "entry", at, "an entry which is an object in both documents is not merged recursively %s", c.where(p))
				if ok {
					c.expect(p.St.Nil(recs[0].Res) == 1, "objects", "error", at, "a failure to merge nested objects is ignored")
				}
				continue
			}
			ok := len(dyns) == 1 && len(sets) == 1 && len(recs) == 0 && existing != nil
			if ok {
				ok = sameVal(p, dyns[0].Args[1], existing) && p.St.Norm(strip(sets[0].Args[1])) == p.St.Norm(in.T.Extract(dyns[0].Res, 0, nil))
			}
			c.expect(ok, "collision", "entry", at, "an entry which both documents have does not become what the policy says of the existing and the new value %s", c.where(p))
			if ok {
				c.expect(okErr(sets[0], 1) && okErr(dyns[0], 1), "collision", "error", at, "a collision or a failure to set an entry is ignored %s", c.where(p))
			}
		}
		for _, e := range p.Events {
			if e.Kind == "call" && !used[e] && (e.Callee == gabsC+"Set" || e.Callee == gabsC+"SetP" || strings.Contains(e.Callee, gabsC+"Delete") || strings.Contains(e.Callee, gabsC+"Array")) {
				c.violate("collision", "other", c.ipos(e.Instr), "something else is written: "+str(e.Res))
			}
		}
	})
}

func recArg(e *psa.Event, f func(*T) bool) bool {
	for _, a := range e.Args {
		if f(a) {
			return true
		}
	}
	return false
}

// sameVal compares values apart from their static type.
func sameVal(p *psa.Path, a, b *T) bool {
	bare := func(t *T) *T {
		t = strip(p.St.Norm(t))
		for t.Op == "as" || t.Op == "assert" {
			t = strip(t.Args[0])
		}
		return t
	}
	return bare(a) == bare(b)
}

// mergeList decides the merging of a list of documents.
func (c *Ctx) mergeList() {
	in := c.interp()
	c.opaque(in)
	fn := c.method("container", "Containers", "Merge")
	isSelf := fname(fn)
	old := in.Opaque
	in.Opaque = func(f *ssa.Function, s []*ssa.Function) bool { return fname(f) != isSelf && old(f, s) }
	ctT := c.typ("container", "Container")
	docs := []*T{in.T.Sym("DOC1", ctT), in.T.Sym("DOC2", ctT), in.T.Sym("DOC3", ctT)}
	list := in.T.Mk("list", nil, fn.Params[0].Type(), docs...)
	pol := in.Param(fn.Params[1])
	n := 0
	for _, p := range c.run(in, fn, []*T{list, pol}, nil, nil) {
		if !succeeded(p) {
			c.expect(!c.causeless(in, p), "errors", fname(fn), c.ipos(p.At), "a merge fails without a reason %s", c.where(p))
			continue
		}
		n++
		at := c.ipos(p.At)
		ms := calls(p, "(internal/container.Container).Merge")
		ok := len(ms) == 3
		for i := range ms {
			ok = ok && i < 3 && p.St.Norm(ms[i].Args[1]) == docs[i] && p.St.Norm(ms[i].Args[0]) == p.St.Norm(p.Results[0])
		}
		if !c.expect(ok, "list", "Containers", at, "the documents are not all merged, in order, into the one returned %s", c.where(p)) {
			continue
		}
		c.expect(isEmptyContainer(p.St.Norm(p.Results[0])), "list", "new", at, "documents are merged into %s", str(p.Results[0]))
		for _, e := range ms {
			c.expect(p.St.Nil(e.Res) == 1, "list", "error", c.ipos(e.Instr), "a failure to merge a document is ignored")
			c.expect(c.keepsPolicy(in, p, e.Args[2], pol), "list", "policy", c.ipos(e.Instr), "documents are not merged with the policy given, with values which are the same in both being no collision")
		}
	}
	c.expect(n > 0, "list", "Containers", c.pos(fn.Pos()), "merging a list never succeeds")
}

// keepsPolicy reports that f settles collisions of equal values on its own, by
// keeping them, and leaves all others to the policy.
func (c *Ctx) keepsPolicy(in *psa.Interp, p *psa.Path, f, pol *T) bool {
	f = strip(p.St.Norm(f))
	if f.Op != "closure" && f.Op != "fn" {
		return false
	}
	fn := f.Aux.(*ssa.Function)
	if len(fn.Params) != 2 {
		return false
	}
	var free []*T
	if f.Op == "closure" {
		free = f.Args
	}
	a, b := in.Param(fn.Params[0]), in.Param(fn.Params[1])
	n := 0
	for _, q := range c.run(in, fn, nil, free, p.St.Clone()) {
		if q.Kind != "ret" || len(q.Results) != 2 {
			return false
		}
		deep := q.St.Truth(in.T.Call("reflect.DeepEqual", types.Typ[types.Bool], a, b))
		if t := q.St.Truth(in.T.Call("reflect.DeepEqual", types.Typ[types.Bool], b, a)); deep < 0 {
			deep = t
		}
		var dyn *psa.Event
		for _, e := range q.Events {
			if e.Kind == "call" && e.Callee == "dyn" && q.St.Norm(e.Args[0]) == pol && len(e.Args) == 3 && q.St.Norm(e.Args[1]) == a && q.St.Norm(e.Args[2]) == b {
				dyn = e
			}
		}
		n++
		if dyn != nil {
			if deep != 0 {
				return false
			}
			if q.St.Norm(q.Results[0]) != q.St.Norm(in.T.Extract(dyn.Res, 0, nil)) && q.St.Nil(q.Results[1]) == 1 || q.St.Nil(q.Results[1]) == 1 && q.St.Nil(in.T.Extract(dyn.Res, 1, nil)) != 1 {
				return false
			}
			continue
		}
		if r := q.St.Norm(q.Results[0]); deep != 1 && q.St.Truth(in.T.Eq(a, b)) != 1 || r != a && r != b || q.St.Nil(q.Results[1]) != 1 {
			return false
		}
	}
	return n > 0
}
