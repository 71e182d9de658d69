package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["O01"] = checkO01
}

var httpMethods = []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}

const (
	fnPaths    = "internal/oapi.Paths"
	fnMatch    = "(internal/oapi.FlattenPaths).Match"
	fnRoute    = "internal/route.Match"
	fnChildren = "(internal/container.Container).ChildrenMap"
)

// okOrErr answers a call with a value and nil, or with an error.
func okOrErr(in *psa.Interp, st *psa.State, name string, fn *ssa.Function, args []*T, call *psa.Call, val func(*psa.State) *T) []psa.Ret {
	st2 := st.Clone()
	e := in.T.Mk("call", psa.CallAux{Name: name, Site: call.Site, N: call.N}, call.Typ, args...)
	for _, s := range []*psa.State{st, st2} {
		s.Emit(&psa.Event{Kind: "call", Callee: name, Fn: fn, Args: args, Res: e, Instr: call.Instr, In: call.In})
	}
	tup := call.Typ.(*types.Tuple)
	er := in.T.Extract(e, tup.Len()-1, tup.At(tup.Len()-1).Type())
	v := val(st)
	st.Assume(in.T.Eq(er, in.T.Nil()), true)
	st2.Assume(in.T.Eq(er, in.T.Nil()), false)
	return []psa.Ret{
		{St: st, Kind: "ret", Val: in.T.Mk("agg", nil, call.Typ, v, er)},
		{St: st2, Kind: "ret", Val: in.T.Mk("agg", nil, call.Typ, in.T.Nil(), er)},
	}
}

func checkO01(c *Ctx) {
	c.explain = "The listing of operations, the selection by route pattern and the application of default operations are each interpreted for collections of two arbitrary elements, path by path; results and effects are compared with what has to happen for every element."
	c.rule("operations", "the operations listed are those under the eight HTTP methods of each path item, with their method, route, place and content", 20)
	c.rule("selection", "the operations selected by a pattern are exactly those whose method and route it matches", 4)
	c.rule("apply", "every default operation is merged into every operation its pattern selects, filling only what is missing, and put back in its place", 4)
	c.rule("errors", "failures are reported", 6)
	c.listOperations()
	c.selectOperations()
	c.applyDefaults()
}

func (c *Ctx) listOperations() {
	in := c.interp()
	fn := c.fn("ioapi", "Paths")
	c.opaque(in, fname(fn))
	ctT := c.typ("container", "Container")
	doc := in.Param(fn.Params[0])
	fpT := c.typ("ioapi", "FlattenPath")
	type entry struct{ key, val *T }
	items := map[*T][]entry{}
	var pathItems []entry
	mk := func(st *psa.State, name string, n int, mt *types.Map) (*T, []entry) {
		m, ks, vs := mapOf(in, st, name, mt, n)
		var es []entry
		for i := range ks {
			es = append(es, entry{ks[i], vs[i]})
		}
		return m, es
	}
	in.Model = func(st *psa.State, name string, f *ssa.Function, args []*T, call *psa.Call) []psa.Ret {
		if shortName(name) != fnChildren {
			return nil
		}
		mt := call.Typ.(*types.Tuple).At(0).Type().(*types.Map)
		of := st.Norm(args[0])
		if isCall(of, ctPath) && st.Norm(of.Args[0]) == doc {
			if k, _ := of.Args[1].ConstString(); k == "paths" {
				return okOrErr(in, st, name, f, args, call, func(s *psa.State) *T {
					m, es := mk(s, "ITEM", 2, mt)
					pathItems = es
					return m
				})
			}
		}
		for i, e := range pathItems {
			if of == e.val {
				return okOrErr(in, st, name, f, args, call, func(s *psa.State) *T {
					m, es := mk(s, fmt.Sprintf("OP%d", i), 2-i, mt)
					items[e.val] = es
					return m
				})
			}
		}
		return nil
	}
	n := 0
	for _, p := range c.run(in, fn, nil, nil, nil) {
		if !succeeded(p) {
			c.expect(!c.causeless(in, p), "errors", fname(fn), c.ipos(p.At), "%s fails without a reason %s", fname(fn), c.where(p))
			continue
		}
		n++
		at := c.ipos(p.At)
		for _, e := range calls(p, fnChildren) {
			c.expect(p.St.Nil(in.T.Extract(e.Res, 1, nil)) == 1, "errors", "Paths", c.ipos(e.Instr), "a failure to list operations is ignored %s", c.where(p))
		}
		res := in.Resolve(p.St, p.Results[0])
		var elems []*T
		switch res.Op {
		case "list":
			elems = res.Args
		case "nil":
		default:
			c.violate("operations", "Paths", at, "the list of operations is "+str(res))
			continue
		}
		used := map[*T]bool{}
		for _, pi := range pathItems {
			for _, op := range items[pi.val] {
				k := p.St.Norm(op.key)
				is, undecided := false, false
				for _, m := range httpMethods {
					switch p.St.Truth(in.T.Eq(op.key, in.T.Str(m))) {
					case 1:
						is = true
					case -1:
						undecided = true
					}
				}
				var el *T
				for _, x := range elems {
					if p.St.Norm(c.field(in, x, fpT, "Operation")) == op.val {
						el = x
					}
				}
				if is {
					undecided = false
				}
				if undecided && el == nil {
					c.violate("operations", "method", at, "operations of some method are left out "+c.where(p))
					continue
				}
				if undecided {
					c.violate("operations", "method", at, "members of a path item which are no operations are listed as such "+c.where(p))
					continue
				}
				c.expect(is == (el != nil), "operations", "method", at, "the member %s of a path item is listed as an operation: %v", str(k), el != nil)
				if el == nil {
					continue
				}
				used[el] = true
				f := func(n string) *T { return p.St.Norm(c.field(in, el, fpT, n)) }
				key := in.T.Call(modPath+"/internal/container.SliceToDotPath", types.Typ[types.String], in.T.Mk("list", nil, types.NewSlice(types.Typ[types.String]), in.T.Str("paths"), pi.key, k))
				c.expect(f("Method") == k && f("Path") == p.St.Norm(pi.key), "operations", "fields", at, "an operation is listed with method %s and route %s", str(f("Method")), str(f("Path")))
				g := f("Key")
				ok := g == key
				if cl, _ := callOf(g); !ok && cl != nil && len(cl.Args) == 1 {
					l := in.Resolve(p.St, cl.Args[0])
					ok = shortName(cl.Callee()) == "internal/container.SliceToDotPath" && l.Op == "list" && len(l.Args) == 3 && l.Args[0] == in.T.Str("paths") && p.St.Norm(l.Args[1]) == p.St.Norm(pi.key) && p.St.Norm(l.Args[2]) == k
				}
				c.expect(ok, "operations", "place", at, "the place of an operation is %s", str(g))
			}
		}
		c.expect(len(used) == len(elems), "operations", "extra", at, "something is listed which is no operation, or twice: %s", str(res))
	}
	_ = ctT
	c.expect(n > 0, "operations", "Paths", c.pos(fn.Pos()), "the operations are never listed")
}

func (c *Ctx) selectOperations() {
	in := c.interp()
	fn := c.method("ioapi", "FlattenPaths", "Match")
	c.opaque(in, fname(fn))
	fpT := c.typ("ioapi", "FlattenPath")
	ops := []*T{in.T.Sym("OPER1", fpT), in.T.Sym("OPER2", fpT), in.T.Sym("OPER3", fpT)}
	var pat *T
	for _, q := range fn.Params[1:] {
		if isBasic(q.Type()) {
			pat = in.Param(q)
		}
	}
	n := 0
	args := make([]*T, len(fn.Params))
	args[0] = in.T.Mk("list", nil, fn.Params[0].Type(), ops...)
	for _, p := range c.run(in, fn, args, nil, nil) {
		if !succeeded(p) {
			c.expect(!c.causeless(in, p), "errors", fname(fn), c.ipos(p.At), "%s fails without a reason %s", fname(fn), c.where(p))
			continue
		}
		n++
		at := c.ipos(p.At)
		var want []*T
		ok := true
		for _, o := range ops {
			var ev *psa.Event
			for _, e := range calls(p, fnRoute) {
				if p.St.Norm(e.Args[1]) == p.St.Norm(c.field(in, o, fpT, "Method")) && p.St.Norm(e.Args[2]) == p.St.Norm(c.field(in, o, fpT, "Path")) && e.Args[0] == pat {
					ev = e
				}
			}
			if ev == nil {
				ok = false
				continue
			}
			c.expect(p.St.Nil(in.T.Extract(ev.Res, 1, nil)) == 1, "errors", "Match", c.ipos(ev.Instr), "a bad pattern is ignored %s", c.where(p))
			switch p.St.Truth(in.T.Extract(ev.Res, 0, types.Typ[types.Bool])) {
			case 1:
				want = append(want, o)
			case -1:
				ok = false
			}
		}
		if !c.expect(ok, "selection", "Match", at, "an operation is not matched against the pattern %s", c.where(p)) {
			continue
		}
		res := in.Resolve(p.St, p.Results[0])
		var got []*T
		if res.Op == "list" {
			got = res.Args
		}
		same := len(got) == len(want) && (res.Op == "list" || res.Op == "nil")
		for i := range want {
			same = same && p.St.Norm(got[i]) == want[i]
		}
		c.expect(same, "selection", "Match", at, "of the operations, %d of which match, those selected are %s", len(want), str(res))
	}
	c.expect(n > 0, "selection", "Match", c.pos(fn.Pos()), "operations are never selected")
}

func (c *Ctx) applyDefaults() {
	in := c.interp()
	fn := c.fn("ioapi", "SetPathsDefaults")
	c.opaque(in, fname(fn))
	in.ReadOnly = func(name string) bool {
		return shortName(name) == fnMake || shortName(name) == "(internal/container.Container).SetP" || shortName(name) == ctMerge
	}
	fpT := c.typ("ioapi", "FlattenPath")
	doc := in.Param(fn.Params[0])
	ops := []*T{in.T.Sym("OPER1", fpT), in.T.Sym("OPER2", fpT)}
	st := in.NewState()
	defs, keys, vals := mapOf(in, st, "DEF", fn.Params[1].Type().Underlying().(*types.Map), 2)
	in.Model = func(st *psa.State, name string, f *ssa.Function, args []*T, call *psa.Call) []psa.Ret {
		switch shortName(name) {
		case fnPaths:
			t := call.Typ.(*types.Tuple).At(0).Type()
			return okOrErr(in, st, name, f, args, call, func(*psa.State) *T { return in.T.Mk("list", nil, t, ops...) })
		case fnMatch:
			t := call.Typ.(*types.Tuple).At(0).Type()
			l := in.Resolve(st, args[0])
			if l.Op != "list" {
				return nil
			}
			return okOrErr(in, st, name, f, args, call, func(*psa.State) *T { return in.T.Mk("list", nil, t, selected(in, st, st.Norm(args[1]), fpT)...) })
		}
		return nil
	}
	n := 0
	for _, p := range c.run(in, fn, []*T{doc, defs}, nil, st) {
		if !succeeded(p) {
			c.expect(!c.causeless(in, p), "errors", fname(fn), c.ipos(p.At), "%s fails without a reason %s", fname(fn), c.where(p))
			continue
		}
		n++
		at := c.ipos(p.At)
		var errs []string
		for _, e := range p.Events {
			if e.Kind != "call" || e.Res == nil || !c.ourCallee(e) {
				continue
			}
			sig := e.Fn.Signature
			if !hasErr(sig) {
				continue
			}
			er := e.Res
			if sig.Results().Len() > 1 {
				er = in.T.Extract(e.Res, sig.Results().Len()-1, nil)
			}
			if p.St.Nil(er) != 1 {
				errs = append(errs, callee(e))
			}
		}
		sort.Strings(errs)
		c.expect(len(errs) == 0, "errors", "SetPathsDefaults", at, "a failure is ignored: %s %s", strings.Join(errs, ", "), c.where(p))
		merges, sets := calls(p, ctMerge), calls(p, fnSetP)
		c.expect(len(merges) == len(keys)*len(ops), "apply", "count", at, "%d of %d default operations are applied %s", len(merges), len(keys)*len(ops), c.where(p))
		idx := map[*psa.Event]int{}
		for i, e := range p.Events {
			idx[e] = i
		}
		for i, k := range keys {
			matched := false
			for _, e := range calls(p, fnMatch) {
				if p.St.Norm(e.Args[1]) == k {
					matched = true
					l := in.Resolve(p.St, e.Args[0])
					c.expect(l.Op == "list" && len(l.Args) == len(ops) && l.Args[0] == ops[0] && l.Args[1] == ops[1], "apply", "selection", c.ipos(e.Instr), "the operations a pattern selects from are %s", str(l))
				}
			}
			if !c.expect(matched, "apply", "selection", at, "a default operation is applied without its pattern %s", c.where(p)) {
				continue
			}
			for _, o := range selected(in, p.St, k, fpT) {
				oper := p.St.Norm(c.field(in, o, fpT, "Operation"))
				key := p.St.Norm(c.field(in, o, fpT, "Key"))
				var m *psa.Event
				for _, e := range merges {
					cl, r := callOf(p.St.Norm(e.Args[1]))
					if p.St.Norm(e.Args[0]) == oper && cl != nil && r == 0 && shortName(cl.Callee()) == fnMake && p.St.Norm(strip(cl.Args[0])) == vals[i] {
						m = e
					}
				}
				if !c.expect(m != nil, "apply", "merge", at, "a default operation is not merged into an operation its pattern selects %s", c.where(p)) {
					continue
				}
				c.expect(c.policy(in, p.St.Norm(m.Args[2])) == "destination", "apply", "policy", c.ipos(m.Instr), "default operations replace what an operation says")
				set := false
				for _, e := range sets {
					if idx[e] > idx[m] && p.St.Norm(e.Args[0]) == doc && p.St.Norm(e.Args[1]) == key && p.St.Norm(strip(e.Args[2])) == oper {
						set = true
					}
				}
				c.expect(set, "apply", "place", at, "an operation with defaults is not put back in its place %s", c.where(p))
			}
		}
		for _, e := range sets {
			ok := false
			for _, o := range append(selected(in, p.St, keys[0], fpT), selected(in, p.St, keys[1], fpT)...) {
				if p.St.Norm(e.Args[1]) == p.St.Norm(c.field(in, o, fpT, "Key")) && p.St.Norm(strip(e.Args[2])) == p.St.Norm(c.field(in, o, fpT, "Operation")) {
					ok = true
				}
			}
			c.expect(ok && p.St.Norm(e.Args[0]) == doc, "apply", "place", c.ipos(e.Instr), "something else is written into the document: %s", str(e.Args[1]))
		}
	}
	c.expect(n > 0, "apply", "SetPathsDefaults", c.pos(fn.Pos()), "defaults are never applied")
}

// selected stands for the operations a pattern selects.
func selected(in *psa.Interp, st *psa.State, pattern *T, typ types.Type) []*T {
	return []*T{in.T.Sym("SELECTED1 by "+str(pattern), typ), in.T.Sym("SELECTED2 by "+str(pattern), typ)}
}

func (c *Ctx) ourCallee(e *psa.Event) bool { return e.Fn != nil && c.isOurs(e.Fn) }
