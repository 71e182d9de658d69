package main

import (
	"go/types"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["R01"] = func(c *Ctx) { c.resolver(false) }
	checks["R03"] = func(c *Ctx) { c.resolver(true) }
}

const (
	fnSetP    = "(internal/container.Container).SetP"
	fnReplace = "(internal/container.Container).Replace"
	fnParse   = "internal/pointer.Parse"
	fnExt     = "(internal/pointer.Pointer).IsExternal"
	fnPtrStr  = "(internal/pointer.Pointer).String"
	fnGet     = "(internal/oapi/resolver.Exports).Get"
)

// resolver checks what resolution does with one arbitrary reference, at an
// arbitrary depth.
func (c *Ctx) resolver(exports bool) {
	c.explain = "Resolution is interpreted path by path. Its recursive step is identified from the recursive call, then interpreted for an arbitrary container and an arbitrary chain of references being resolved, over two references found in the container (one nested, one which is the whole container or nested as well); the effects on the containers along every successful path are compared with what each reference has to become."
	if exports {
		c.rule("stored", "a resolved exported component is stored in the document at the component's path, and the reference becomes the local pointer to that place", 2)
		c.rule("recursive", "a recursive reference to an exported schema becomes the local pointer to the place of that schema", 1)
		c.rule("lookup", "the exported component of a reference is the one with the same pointer text", 2)
		c.rule("place", "dot path and fragment of a named component are built from kind and name alike", 2)
		c.exportRules()
	} else {
		c.rule("entry", "resolution works on a copy of the document and returns that copy", 2)
		c.rule("references", "all references of the container are visited, in the container being resolved", 4)
		c.rule("local", "references which are local to the document, or are no strings, are left alone", 2)
		c.rule("inline", "an external reference becomes the resolved value of its target, whose own references are resolved first, with the target on the chain", 2)
		c.rule("recursion", "a reference on the chain is not followed again: it becomes an empty object unless it is an exported schema", 2)
		c.rule("effects", "nothing else is written", 2)
		c.rule("errors", "resolution fails only if something it calls does", 2)
	}

	// the recursive step
	in := c.interp()
	c.opaque(in, "internal/oapi/resolver")
	top := c.fn("resolver", "Resolve")
	in.Model = c.resolverModel(in, nil)
	ps := c.run(in, top, nil, nil, nil)
	var step *psa.Event
	var stepSt *psa.State
	var doc *T
	for _, p := range ps {
		if !exports && mayFail(p) && len(calls(p, fnExtract)) == 0 {
			c.expect(!c.causeless(in, p), "errors", "Resolve", c.ipos(p.At), "resolution fails without a reason %s", c.where(p))
		}
		on := map[*ssa.Function]bool{}
		for _, e := range p.Events {
			if e.Kind == "enter" {
				on[e.Fn] = true
			}
			if e.Kind == "call" && e.Fn != nil && on[e.Fn] && step == nil {
				step, stepSt = e, p.St
			}
		}
		if !succeeded(p) {
			continue
		}
		cl := calls(p, "(internal/container.Container).Clone")
		ok := len(cl) >= 1 && p.St.Norm(cl[0].Args[0]) == in.Param(top.Params[0])
		if !exports {
			c.expect(ok, "entry", "Resolve", c.ipos(p.At), "the document is not copied before it is resolved")
			if ok {
				doc = in.T.Extract(cl[0].Res, 0, nil)
				c.expect(p.St.Norm(p.Results[0]) == p.St.Norm(doc), "entry", "Resolve", c.ipos(p.At), "what is returned is not the resolved copy: %s", str(p.Results[0]))
			}
		}
	}
	if !c.expect(step != nil, firstRule(exports), "recursion", c.pos(top.Pos()), "resolution does not resolve the references of what it inserts (no recursive step found)") {
		return
	}
	_ = doc
	fn := step.Fn
	ctT := c.typ("container", "Container")
	ptrT := c.typ("pointer", "Pointer")

	for _, rootRef := range []bool{false, true} {
		in := in
		st := stepSt.Clone()
		st.Forget()
		args := make([]*T, len(fn.Params))
		var cur *T
		var chain *T
		for i, p := range fn.Params {
			switch {
			case types.Identical(p.Type(), ctT):
				cur = in.T.Sym("CURRENT", ctT)
				args[i] = cur
			case isChain(p.Type(), ptrT):
				chain = in.T.Sym("CHAIN", p.Type())
				args[i] = chain
			case isBasic(p.Type()):
				args[i] = in.T.Sym("N"+p.Name(), p.Type())
			default:
				args[i] = step.Args[i]
			}
		}
		if cur == nil || chain == nil {
			c.violate("undecided", fname(fn), c.pos(fn.Pos()), "the recursive step does not take a container and a chain of pointers")
			return
		}
		keyT := types.Typ[types.String]
		k1 := in.T.Concat(in.T.Sym("PARENT1", keyT), in.T.Str(".$ref"))
		k2 := in.T.Concat(in.T.Sym("PARENT2", keyT), in.T.Str(".$ref"))
		if rootRef {
			k1 = in.T.Str("$ref")
		}
		anyT := types.NewInterfaceType(nil, nil)
		v1, v2 := in.T.Sym("REF1", anyT), in.T.Sym("REF2", anyT)
		items := []refItem{{k1, v1}, {k2, v2}}
		if rootRef {
			items = items[:1]
		}
		in.Model = c.resolverModel(in, items)
		n := 0
		for _, p := range c.run(in, fn, args, nil, st.Clone()) {
			if !succeeded(p) {
				c.expect(exports || !c.causeless(in, p), "errors", fname(fn), c.ipos(p.At), "resolving a container fails without a reason %s", c.where(p))
				continue
			}
			n++
			c.stepRules(in, p, fn, args, cur, chain, items, exports)
		}
		c.expect(n > 0, firstRule(exports), "step", c.pos(fn.Pos()), "the recursive step never succeeds")
		if !exports && !rootRef {
			c.chainRule(in, fn, args, chain, items[:1], st)
		}
	}
}

// chainRule interprets the step for a chain of three pointers: a reference is
// followed only if it is none of them.
func (c *Ctx) chainRule(in *psa.Interp, fn *ssa.Function, args []*T, chain *T, items []refItem, st *psa.State) {
	ptrT := c.typ("pointer", "Pointer")
	elT := chain.Typ.Underlying().(*types.Slice).Elem()
	elems := []*T{in.T.Sym("CHAIN0", elT), in.T.Sym("CHAIN1", elT), in.T.Sym("CHAIN2", elT)}
	list := in.T.Mk("list", nil, chain.Typ, elems...)
	as := append([]*T{}, args...)
	for i := range as {
		if as[i] == chain {
			as[i] = list
		}
	}
	in.Model = c.resolverModel(in, items)
	n := 0
	for _, p := range c.run(in, fn, as, nil, st.Clone()) {
		for _, e := range p.Events {
			if e.Kind != "call" || e.Fn != fn {
				continue
			}
			n++
			var ptr *T
			for _, q := range calls(p, fnParse) {
				ptr = in.T.Extract(q.Res, 0, ptrT)
			}
			for i, el := range elems {
				ok := false
				if ptr != nil {
					for f, v := range p.St.FactTerms() {
						b, isb := v.ConstBool()
						if !isb || b || f.Op != "eq" {
							continue
						}
						for j := range f.Args {
							x, y := f.Args[j], f.Args[1-j]
							// the chain holds pointers or their texts
							isEl := y == el && isTextType(el.Typ) || isCall(y, fnPtrStr) && y.Args[0] == el
							if isEl && isCall(x, fnPtrStr) && p.St.Norm(x.Args[0]) == p.St.Norm(ptr) {
								ok = true
							}
						}
					}
				}
				c.expect(ok, "recursion", "chain", c.ipos(e.Instr), "a reference is followed without being compared with element %d of a chain of 3: endless resolution of recursive types", i)
			}
			ch := in.Resolve(p.St, chainArg(e, fn, ptrT))
			ok := ch.Op == "list" && len(ch.Args) == 4 && ch.Args[0] == elems[0] && ch.Args[1] == elems[1] && ch.Args[2] == elems[2] && p.St.Norm(link(ch.Args[3], elT)) == p.St.Norm(ptr)
			c.expect(ok, "recursion", "chain", c.ipos(e.Instr), "the chain passed on is %s", str(ch))
		}
	}
	c.expect(n > 0, "recursion", "chain", c.pos(fn.Pos()), "no reference is followed")
}

func chainArg(e *psa.Event, fn *ssa.Function, ptrT types.Type) *T {
	for i, q := range fn.Params {
		if isChain(q.Type(), ptrT) {
			return e.Args[i]
		}
	}
	return nil
}

func firstRule(exports bool) string {
	if exports {
		return "stored"
	}
	return "inline"
}

type refItem struct{ key, val *T }

func isSliceOf(t, elem types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), elem)
}

// isChain: the chain of references being resolved holds pointers or their texts.
func isChain(t, ptrT types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && (types.Identical(s.Elem(), ptrT) || isTextType(s.Elem()))
}

func isTextType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// link is the pointer an element of the chain stands for.
func link(el *T, elT types.Type) *T {
	if isTextType(elT) && isCall(el, fnPtrStr) {
		return el.Args[0]
	}
	return el
}

func isBasic(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// resolverModel makes the references of a container known: the given items.
func (c *Ctx) resolverModel(in *psa.Interp, items []refItem) func(*psa.State, string, *ssa.Function, []*T, *psa.Call) []psa.Ret {
	itemT := c.typ("container", "MapItem")
	return func(st *psa.State, name string, fn *ssa.Function, args []*T, call *psa.Call) []psa.Ret {
		switch shortName(name) {
		case fnExtract:
			if items == nil {
				return nil
			}
			s := itemT.Underlying().(*types.Struct)
			var list []*T
			for i, it := range items {
				var fs []*T
				for j := 0; j < s.NumFields(); j++ {
					switch s.Field(j).Name() {
					case "Key":
						fs = append(fs, it.key)
					case "Val":
						fs = append(fs, it.val)
					case "Index":
						fs = append(fs, in.T.Int(int64(i)))
					default:
						fs = append(fs, in.T.Zero(s.Field(j).Type()))
					}
				}
				list = append(list, in.T.Mk("agg", nil, itemT, fs...))
			}
			lt := call.Typ.(*types.Tuple).At(0).Type()
			st2 := st.Clone()
			e := in.T.Mk("call", psa.CallAux{Name: name, Site: call.Site, N: call.N}, call.Typ, args...)
			st.Emit(&psa.Event{Kind: "call", Callee: name, Fn: fn, Args: args, Res: e, Instr: call.Instr, In: call.In})
			st2.Emit(&psa.Event{Kind: "call", Callee: name, Fn: fn, Args: args, Res: e, Instr: call.Instr, In: call.In})
			er := in.T.Extract(e, 1, types.Universe.Lookup("error").Type())
			st2.Assume(in.T.Eq(er, in.T.Nil()), false)
			return []psa.Ret{
				{St: st, Kind: "ret", Val: in.T.Mk("agg", nil, call.Typ, in.T.Mk("list", nil, lt, list...), in.T.Nil())},
				{St: st2, Kind: "ret", Val: in.T.Mk("agg", nil, call.Typ, in.T.Nil(), er)},
			}
		case fnGet:
			// answered by an uninterpreted function of its arguments
			st.Emit(&psa.Event{Kind: "call", Callee: name, Fn: fn, Args: args, Instr: call.Instr, In: call.In})
			e := in.T.Call(name, call.Typ, args...)
			tup := call.Typ.(*types.Tuple)
			return []psa.Ret{{St: st, Kind: "ret", Val: in.T.Mk("agg", nil, call.Typ, in.T.Extract(e, 0, tup.At(0).Type()), in.T.Extract(e, 1, tup.At(1).Type()))}}
		}
		return nil
	}
}

// stepRules compares the effects of one successful path of the recursive step
// with what has to become of the references.
func (c *Ctx) stepRules(in *psa.Interp, p *psa.Path, fn *ssa.Function, args []*T, cur, chain *T, items []refItem, exports bool) {
	tt := in.T
	at := c.ipos(p.At)
	ptrT := c.typ("pointer", "Pointer")
	if !exports {
		ex := calls(p, fnExtract)
		ok := len(ex) == 1 && p.St.Norm(ex[0].Args[0]) == cur
		k := ""
		if len(ex) > 0 {
			k, _ = ex[0].Args[1].ConstString()
		}
		c.expect(ok && k == "$ref", "references", fname(fn), at, "the references visited are not the $ref values of the container being resolved")
		c.expect(len(p.Results) == 2 && p.St.Norm(p.Results[0]) == cur, "references", "result", at, "what is returned is not the container being resolved")
	}
	effects := calls(p, fnSetP, fnReplace, "(internal/container.Container).Merge")
	used := map[*psa.Event]bool{}
	find := func(m func(e *psa.Event) bool) *psa.Event {
		for _, e := range effects {
			if !used[e] && m(e) {
				used[e] = true
				return e
			}
		}
		return nil
	}
	set := func(ct, key, parent *T, x *cs, val func(v *T) bool, isRoot bool) *psa.Event {
		return find(func(e *psa.Event) bool {
			if x.St.Norm(e.Args[0]) != ct {
				return false
			}
			n := callee(e)
			switch {
			case isRoot:
				return n == fnReplace && val(e.Args[1])
			case n == fnSetP:
				return x.St.Norm(e.Args[1]) == key && val(e.Args[2])
			}
			return false
		})
	}
	descr := func() string {
		var s []string
		for _, e := range effects {
			var as []string
			for _, a := range e.Args {
				as = append(as, str(a))
			}
			s = append(s, e.Callee[strings.LastIndex(e.Callee, ".")+1:]+"("+strings.Join(as, ", ")+")")
		}
		return strings.Join(s, "; ")
	}
	recs := 0
	cases(in, p.St, func(x *cs) {
		used = map[*psa.Event]bool{}
		for _, it := range items {
			sT := types.Typ[types.String]
			if !x.is(tt.Mk("is", nil, sT, it.val)) {
				continue // not a string
			}
			// the pointer
			var ptr *T
			for _, e := range calls(p, fnParse) {
				if a := x.St.Norm(e.Args[0]); a.Op == "as" && a.Args[0] == it.val {
					ptr = tt.Extract(e.Res, 0, ptrT)
				}
			}
			if ptr == nil {
				c.violate(firstRule(exports), "parse", at, "a reference is not parsed "+c.where(p))
				continue
			}
			var ext *T
			for _, e := range calls(p, fnExt) {
				if x.St.Norm(e.Args[0]) == x.St.Norm(ptr) {
					ext = e.Res
				}
			}
			if ext == nil {
				c.violate(firstRule(exports), "external", at, "it is not decided whether a reference is external "+c.where(p))
				continue
			}
			if !x.is(ext) {
				if !exports {
					c.ok("local")
				}
				continue
			}
			isRoot := it.key == tt.Str("$ref")
			parent := tt.Str("")
			if it.key.Op == "concat" {
				parent = it.key.Args[0]
			}
			// export?
			var get *T
			for _, e := range calls(p, fnGet) {
				if x.St.Norm(e.Args[1]) == x.St.Norm(ptr) {
					get = tt.Call(e.Callee, nil, e.Args...)
				}
			}
			inChain := c.onChain(in, x, p, ptr, chain)
			exported := false
			var comp *T
			if get != nil {
				ok := x.St.Norm(tt.Extract(get, 1, types.Typ[types.Bool]))
				exported = x.is(ok)
				comp = tt.Extract(get, 0, c.typ("resolver", "Pointer"))
			}
			local := func(v *T) bool { return c.isLocalPtr(in, x, v, comp) }
			if inChain {
				schema := false
				if exported {
					k := c.promoted(in, c.field(in, comp, c.typ("resolver", "Pointer"), "Entity"), c.typ("resolver", "Entity"), "Entity")
					schema = x.is(tt.Eq(k, c.kindConst(in, "SchemaKind")))
				}
				if exported && schema {
					e := set(cur, it.key, nil, x, local, false)
					if exports {
						c.expect(e != nil, "recursive", "schema", at, "a recursive reference to an exported schema does not become the local pointer to it: %s %s", descr(), c.where(p))
					}
					continue
				}
				if get == nil && !exports {
					// exported schemas may still be looked up: the caller has to ask
					c.expect(len(calls(p, fnGet)) > 0, "recursion", "export", at, "a recursive reference is handled without looking for an exported component")
				}
				e := set(cur, parent, nil, x, func(v *T) bool { return isEmptyContainer(strip(v)) }, isRoot)
				if !exports {
					c.expect(e != nil, "recursion", "empty", at, "a recursive reference does not become an empty object: %s %s", descr(), c.where(p))
				}
				continue
			}
			// followed
			var rec *psa.Event
			for _, e := range p.Events {
				if e.Kind == "call" && e.Fn == fn {
					for i, q := range fn.Params {
						if isChain(q.Type(), ptrT) {
							ch := in.Resolve(x.St, e.Args[i])
							if ch.Op == "cat" && len(ch.Args) == 2 && ch.Args[0] == chain && ch.Args[1].Op == "list" && len(ch.Args[1].Args) == 1 && x.same(link(ch.Args[1].Args[0], q.Type().Underlying().(*types.Slice).Elem()), ptr) {
								rec = e
							}
						}
					}
				}
			}
			if rec == nil {
				if !exports {
					c.violate("inline", "followed", at, "an external reference is not followed with itself on the chain: "+descr()+" "+c.where(p))
				}
				continue
			}
			recs++
			val := tt.Extract(rec.Res, 0, nil)
			if !exports {
				// what is resolved further is the target of this reference
				var tgt *T
				for i, q := range fn.Params {
					if types.Identical(q.Type(), c.typ("container", "Container")) {
						tgt = rec.Args[i]
					}
				}
				ok := false
				for t := range flows(in, x.St, tgt) {
					if t.Op == "call" && t.Callee() == "dyn" && len(t.Args) == 2 && x.same(t.Args[1], ptr) {
						ok = true
					}
				}
				mk, i := callOf(tgt)
				c.expect(ok && mk != nil && i == 0 && shortName(mk.Callee()) == fnMake, "inline", "target", c.ipos(rec.Instr), "what is inserted for a reference is not a copy of its target: %s", str(tgt))
				for i, q := range fn.Params {
					if !types.Identical(q.Type(), c.typ("container", "Container")) && !isChain(q.Type(), ptrT) && !isBasic(q.Type()) {
						c.expect(x.same(rec.Args[i], args[i]), "inline", "state", c.ipos(rec.Instr), "nested references are resolved in another context")
					}
				}
				er := tt.Extract(rec.Res, 1, nil)
				c.expect(x.St.Nil(er) == 1, "inline", "error", c.ipos(rec.Instr), "a failure to resolve a nested reference is ignored")
			}
			isVal := func(v *T) bool { return x.same(strip(v), val) }
			if !exported {
				e := set(cur, parent, nil, x, isVal, isRoot)
				if !exports {
					c.expect(e != nil, "inline", "value", at, "an external reference does not become the resolved value of its target: %s %s", descr(), c.where(p))
				}
				continue
			}
			// exported component
			want := c.entityPath(in, comp)
			var st *psa.Event
			for _, w := range want {
				if st == nil {
					st = find(func(e *psa.Event) bool {
						return callee(e) == fnSetP && x.St.Norm(e.Args[0]) != cur && x.same(e.Args[1], w) && isVal(e.Args[2]) && c.isDocument(args, e.Args[0])
					})
				}
			}
			up := set(cur, it.key, nil, x, local, false)
			if exports {
				c.expect(st != nil, "stored", "component", at, "an exported component is not stored at its place in the document: %s %s", descr(), c.where(p))
				c.expect(up != nil, "stored", "reference", at, "the reference to an exported component does not become the local pointer to it: %s %s", descr(), c.where(p))
			}
		}
		if !exports {
			var extra []string
			for _, e := range effects {
				if !used[e] {
					extra = append(extra, callee(e)+" "+str(e.Args[1]))
				}
			}
			// effects of exported components are judged by the other property
			c.expect(len(extra) == 0 || len(calls(p, fnGet)) > 0 && c.anyExported(in, x, p), "effects", fname(fn), at, "unexpected writes: %s %s", strings.Join(extra, "; "), c.where(p))
		}
	})
	c.count("references followed on paths", recs)
}

func (c *Ctx) anyExported(in *psa.Interp, x *cs, p *psa.Path) bool {
	for _, e := range calls(p, fnGet) {
		g := in.T.Call(e.Callee, nil, e.Args...)
		if x.St.Truth(in.T.Extract(g, 1, types.Typ[types.Bool])) == 1 {
			return true
		}
	}
	return false
}

// onChain decides from the path whether the reference is on the chain.
func (c *Ctx) onChain(in *psa.Interp, x *cs, p *psa.Path, ptr, chain *T) bool {
	for f, v := range x.St.FactTerms() {
		b, ok := v.ConstBool()
		if !ok || !b || f.Op != "eq" {
			continue
		}
		hasPtr, hasChain := false, false
		for _, a := range f.Args {
			if isCall(a, fnPtrStr) && x.same(a.Args[0], ptr) {
				hasPtr = true
			}
			if isCall(a, fnPtrStr) && psa.Contains(a.Args[0], chain) {
				hasChain = true
			}
			if isTextType(chain.Typ.Underlying().(*types.Slice).Elem()) && psa.Contains(a, chain) && !isCall(a, fnPtrStr) {
				hasChain = true
			}
		}
		if hasPtr && hasChain {
			return true
		}
	}
	return false
}

func isEmptyContainer(t *T) bool {
	if isCall(t, "internal/container.New") {
		return true
	}
	return t.Op == "make" || t.Op == "zero" && strings.HasPrefix(str(t), "zero(struct{}")
}

func (c *Ctx) kindConst(in *psa.Interp, name string) *T {
	o := c.pkg("spec").Pkg.Scope().Lookup(name)
	k, ok := o.(*types.Const)
	if !ok {
		c.fatal("anchor", "constant spec."+name+" is gone")
	}
	return in.T.Const(ssa.NewConst(k.Val(), k.Type()))
}

// isDocument reports that ct is the document held by the receiver of the step.
func (c *Ctx) isDocument(args []*T, ct *T) bool {
	for _, a := range args {
		if psa.Contains(a, ct) && ct != a {
			return true
		}
		if ct.Op == "field" && psa.Contains(ct, a) {
			return true
		}
	}
	return false
}

// entityPath is the dot path of an exported component.
func (c *Ctx) entityPath(in *psa.Interp, comp *T) []*T {
	rp, re := c.typ("resolver", "Pointer"), c.typ("resolver", "Entity")
	ent := c.field(in, comp, rp, "Entity")
	kind := c.field(in, ent, re, "Entity")
	name := c.field(in, ent, re, "Name")
	st := types.Typ[types.String]
	path := in.T.Call(modPath+"/internal/oapi/spec.Entity.Path", st, kind)
	for _, f := range []string{"(" + modPath + "/internal/oapi/spec.Entity).Path"} {
		path = in.T.Call(f, st, kind)
	}
	esc := in.T.Call(modPath+"/internal/container.SliceToDotPath", st, in.T.Mk("list", nil, types.NewSlice(st), name))
	return []*T{in.T.Concat(in.T.Concat(path, in.T.Str(".")), esc)}
}

// isLocalPtr reports the text of a pointer which has nothing but the fragment
// of the component.
func (c *Ctx) isLocalPtr(in *psa.Interp, x *cs, v, comp *T) bool {
	v = strip(v)
	if comp == nil || !isCall(v, fnPtrStr) {
		return false
	}
	ptrT := c.typ("pointer", "Pointer")
	fr := x.St.Norm(c.field(in, v.Args[0], ptrT, "Fragment"))
	url := x.St.Norm(c.field(in, v.Args[0], ptrT, "URL"))
	if !(url.Op == "zero" || url.Op == "field" && isCall(url.Args[0], "internal/pointer.NewPointer")) {
		return false
	}
	rp, re := c.typ("resolver", "Pointer"), c.typ("resolver", "Entity")
	ent := c.field(in, comp, rp, "Entity")
	kind, name := c.field(in, ent, re, "Entity"), c.field(in, ent, re, "Name")
	if !strings.HasSuffix(fr.Callee(), "pointer.Fragment).RawDescendant") || len(fr.Args) != 2 {
		return false
	}
	arg := in.Resolve(x.St, fr.Args[1])
	if arg.Op == "list" && len(arg.Args) == 1 {
		arg = arg.Args[0]
	}
	base := fr.Args[0]
	return x.same(arg, name) && strings.HasSuffix(base.Callee(), "spec.Entity).Fragment") && len(base.Args) == 1 && x.same(base.Args[0], kind)
}

// exportRules checks the parts resolution relies on for exported components.
func (c *Ctx) exportRules() {
	// lookup by pointer text
	in := c.interp()
	c.opaque(in, "internal/oapi/resolver")
	get := c.method("resolver", "Exports", "Get")
	want := in.Param(get.Params[1])
	for _, p := range c.run(in, get, nil, nil, nil) {
		if p.Kind != "ret" {
			continue
		}
		b, ok := p.Results[1].ConstBool()
		if !c.expect(ok, "lookup", "Get", c.ipos(p.At), "whether a component was found is not decided: %s", str(p.Results[1])) {
			continue
		}
		if !b {
			c.ok("lookup")
			continue
		}
		r := p.Results[0]
		inner := c.field(in, r, c.typ("resolver", "Pointer"), "Pointer")
		found := false
		for f, v := range p.St.FactTerms() {
			if t, ok := v.ConstBool(); ok && t && f.Op == "eq" && isCall(f.Args[0], fnPtrStr) && isCall(f.Args[1], fnPtrStr) {
				a, b := f.Args[0].Args[0], f.Args[1].Args[0]
				if a == want && b == inner || b == want && a == inner {
					found = true
				}
			}
		}
		c.expect(found && psa.Contains(r, in.Param(get.Params[0])), "lookup", "Get", c.ipos(p.At), "a component is returned whose pointer is not the one asked for %s", c.where(p))
	}
	// place
	re := c.typ("resolver", "Entity")
	for _, m := range []string{"Path", "Fragment"} {
		in := c.interp()
		c.opaque(in, "internal/oapi/resolver")
		fn := c.method("resolver", "Entity", m)
		recv := in.Param(fn.Params[0])
		if _, ok := fn.Params[0].Type().(*types.Pointer); ok {
			recv = in.NewState().Load(recv, re)
		}
		kind, name := c.field(in, recv, re, "Entity"), c.field(in, recv, re, "Name")
		for _, p := range c.run(in, fn, nil, nil, nil) {
			if p.Kind != "ret" {
				continue
			}
			r := p.Results[0]
			st := types.Typ[types.String]
			switch m {
			case "Path":
				path := in.T.Call("("+modPath+"/internal/oapi/spec.Entity).Path", st, kind)
				esc := in.T.Call(modPath+"/internal/container.SliceToDotPath", st, in.T.Mk("list", nil, types.NewSlice(st), name))
				w := in.T.Concat(in.T.Concat(path, in.T.Str(".")), esc)
				alt := strings.Replace(str(w), "SliceToDotPath", "SliceToDotPath", 1)
				c.expect(r == w || str(r) == alt, "place", "Path", c.ipos(p.At), "the dot path of a component is %s", str(r))
			default:
				ok := strings.HasSuffix(r.Callee(), "Fragment).RawDescendant") && len(r.Args) == 2
				if ok {
					arg := in.Resolve(p.St, r.Args[1])
					if arg.Op == "list" && len(arg.Args) == 1 {
						arg = arg.Args[0]
					}
					ok = arg == name && strings.HasSuffix(r.Args[0].Callee(), "spec.Entity).Fragment") && r.Args[0].Args[0] == kind
				}
				c.expect(ok, "place", "Fragment", c.ipos(p.At), "the fragment of a component is %s", str(r))
			}
		}
	}
}
