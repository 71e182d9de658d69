package main

import (
	"fmt"
	"go/types"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["R04"] = checkR04
	checks["K02"] = checkK02
	checks["R02"] = checkR02
}

const (
	fnLoad     = "golang.org/x/tools/go/packages.Load"
	fnScan     = "internal/pkgutil.Scan"
	fnCmds     = "internal/oapi/scan/cmds.NewScanner"
	fnSpecs    = "internal/oapi/scan/specs.NewScanner"
	fnTypes    = "internal/oapi/scan/types.NewScanner"
	fnExports  = "(*internal/oapi/scan/cmds.Scanner).ExportedComponents"
	fnMerge    = "(*internal/oapi/scan/specs.Scanner).Merge"
	fnRoot     = "internal/oapi.MergeWithRoot"
	fnDefaults = "internal/oapi.SetPathsDefaults"
	fnResolve  = "internal/oapi/resolver.Resolve"
	fnExtract  = "internal/container.ExtractKey"
	fnMake     = "internal/container.Make"
)

// pipeline is one successful way through a scan.
type pipeline struct {
	in   *psa.Interp
	p    *psa.Path
	at   map[*psa.Event]int
	load *psa.Event
	pkgs *T
	// by scanner constructor
	scans    map[string]*psa.Event
	scanners map[string]*T
	ev       map[string][]*psa.Event
}

func newPipeline(in *psa.Interp, p *psa.Path) *pipeline {
	pl := &pipeline{in: in, p: p, at: map[*psa.Event]int{}, scans: map[string]*psa.Event{}, scanners: map[string]*T{}, ev: map[string][]*psa.Event{}}
	for i, e := range p.Events {
		pl.at[e] = i
		if e.Kind != "call" {
			continue
		}
		n := callee(e)
		pl.ev[n] = append(pl.ev[n], e)
		switch n {
		case fnLoad:
			pl.load = e
			pl.pkgs = in.T.Extract(e.Res, 0, nil)
		case fnCmds, fnSpecs, fnTypes:
			pl.scanners[n] = e.Res
		case fnScan:
			s := strip(e.Args[1])
			if cl, _ := callOf(s); cl != nil {
				pl.scans[shortName(cl.Callee())] = e
			}
		}
	}
	return pl
}

func (pl *pipeline) one(name string) *psa.Event {
	if l := pl.ev[name]; len(l) == 1 {
		return l[0]
	}
	return nil
}

func (c *Ctx) scanRun(opts ...string) (in *psa.Interp, fn *ssa.Function, args map[string]*T, ps []*psa.Path) {
	return c.scanWith(nil, opts...)
}

// scanWith interprets a scan with the given options; prep may choose the value
// of an option.
func (c *Ctx) scanWith(prep func(in *psa.Interp, st *psa.State, opt string) *T, opts ...string) (in *psa.Interp, fn *ssa.Function, args map[string]*T, ps []*psa.Path) {
	in = c.interp()
	c.opaque(in, "oapi")
	in.Kept = map[*T][]*T{}
	in.Probe = func(st *psa.State, e *psa.Event) {
		if e.Kind == "mapset" {
			in.Kept[e.Args[0]] = append(in.Kept[e.Args[0]], e.Args[1], e.Args[2])
		}
	}
	fn = c.fn("root", "Scan")
	args = map[string]*T{}
	var list []*T
	var st *psa.State
	if prep != nil {
		st = in.NewState()
	}
	for _, o := range opts {
		name := strings.TrimSuffix(o, " before")
		with := c.fn("root", name)
		a := in.Param(with.Params[0])
		if name != o {
			a = in.T.Sym(o, with.Params[0].Type())
		}
		if prep != nil {
			if v := prep(in, st, o); v != nil {
				a = v
			}
		}
		args[o] = a
		rs := in.Run(with, []*T{a}, nil, st)
		if len(rs) != 1 || rs[0].Kind != "ret" {
			c.fatal("undecided", o+" does not have a single outcome")
		}
		list = append(list, rs[0].Results[0])
		st = rs[0].St
	}
	lt := fn.Params[1].Type()
	ps = c.run(in, fn, []*T{nil, in.T.Mk("list", nil, lt, list...)}, nil, st)
	return
}

func checkR04(c *Ctx) {
	c.explain = "The exported scan entry point is interpreted path by path with its stages (loading, the three package scans, merging, defaults, resolution) uninterpreted; every successful path has to contain all stages, connected by dataflow and in the order they depend on each other, and the document returned has to be the resolved one."
	c.rule("stages", "every successful scan loads the packages, scans them for commands, specification files and types, merges, applies root and defaults, resolves, and returns the resolved document", 30)
	c.rule("order", "each stage runs after the stages whose result it needs", 12)
	c.rule("pointers", "the types to collect are those referenced from commands, from the merged document (specification files, root, defaults) and from the overrides", 5)
	c.rule("errors", "a scan fails only if a stage does", 5)
	in, fn, args, ps := c.scanRun("WithDir", "WithOverride", "WithDefOps", "WithRootSchema")
	collected := map[*T]bool{}
	n := 0
	for _, p := range ps {
		if mayFail(p) {
			c.expect(!c.causeless(in, p), "errors", "Scan", c.ipos(p.At), "a scan fails although no stage does %s", c.where(p))
		}
		if !succeeded(p) {
			continue
		}
		n++
		if pl := c.pipelineRules(in, fn, p, args["WithOverride"]); pl != nil {
			if e := pl.one(fnTypes); e != nil {
				collected[p.St.Norm(e.Args[0])] = true
			}
		}
	}
	c.collecting(in, ps, collected)
	c.expect(n > 0, "stages", "Scan", c.pos(fn.Pos()), "no successful path")
	c.collectsEach()
	// nothing is skipped for the lack of options either
	in, fn, _, ps = c.scanRun()
	for _, p := range ps {
		if succeeded(p) {
			c.pipelineRules(in, fn, p, nil)
		}
	}
}

func (c *Ctx) pipelineRules(in *psa.Interp, fn *ssa.Function, p *psa.Path, or *T) *pipeline {
	tt := in.T
	pl := newPipeline(in, p)
	at := c.ipos(p.At)
	need := func(what string, e *psa.Event) bool {
		return c.expect(e != nil, "stages", what, at, "a successful scan does not do exactly one %s %s", what, c.where(p))
	}
	if !need("packages.Load", pl.one(fnLoad)) || !need("ExportedComponents", pl.one(fnExports)) || !need("specs Merge", pl.one(fnMerge)) ||
		!need("MergeWithRoot", pl.one(fnRoot)) || !need("SetPathsDefaults", pl.one(fnDefaults)) || !need("Resolve", pl.one(fnResolve)) ||
		!need("command scan", pl.scans[fnCmds]) || !need("specification scan", pl.scans[fnSpecs]) || !need("type scan", pl.scans[fnTypes]) {
		return nil
	}
	exports, merge, root, defs, res := pl.one(fnExports), pl.one(fnMerge), pl.one(fnRoot), pl.one(fnDefaults), pl.one(fnResolve)
	for _, s := range []string{fnCmds, fnSpecs, fnTypes} {
		e := pl.scans[s]
		c.expect(p.St.Norm(e.Args[0]) == p.St.Norm(pl.pkgs), "stages", s, c.ipos(e.Instr), "the scan does not cover the loaded packages")
	}
	doc := tt.Extract(merge.Res, 0, nil)
	isDoc := func(t *T) bool { return p.St.Norm(strip(t)) == p.St.Norm(doc) }
	from := func(t, scanner *T) bool { return p.St.Norm(t) == scanner || psa.Contains(p.St.Norm(t), scanner) }
	c.expect(from(exports.Args[0], pl.scanners[fnCmds]), "stages", "exports", c.ipos(exports.Instr), "the exported components are not those of the command scan")
	c.expect(from(merge.Args[0], pl.scanners[fnSpecs]), "stages", "merge", c.ipos(merge.Instr), "the merged specifications are not those of the specification scan")
	c.expect(isDoc(root.Args[1]), "stages", "root", c.ipos(root.Instr), "the root document is not merged into the merged specifications")
	c.expect(isDoc(defs.Args[0]), "stages", "defaults", c.ipos(defs.Instr), "the defaults are not applied to the merged specifications")
	c.expect(isDoc(res.Args[0]), "stages", "resolve", c.ipos(res.Instr), "the document resolved is not the merged one")
	c.expect(p.St.Norm(res.Args[1]) == p.St.Norm(tt.Extract(exports.Res, 0, nil)), "stages", "resolve", c.ipos(res.Instr), "references are not resolved with the exported components")

	before := func(a, b *psa.Event, why string) {
		c.expect(a != nil && b != nil && pl.at[a] < pl.at[b], "order", why, c.ipos(b.Instr), "%s %s", why, c.where(p))
	}
	before(pl.scans[fnCmds], exports, "the exported components are read before the commands are scanned")
	before(pl.scans[fnSpecs], merge, "the specifications are merged before they are scanned")
	before(root, defs, "the defaults are applied before the root document is merged in")
	before(defs, res, "references are resolved before the defaults are applied")
	before(pl.scans[fnTypes], res, "references are resolved before the types are scanned")

	// pointers of the type scanner
	nt := pl.one(fnTypes)
	if c.expect(nt != nil, "pointers", "NewScanner", at, "there is not one type scanner") {
		fl := flows(in, p.St, nt.Args[0])
		has := map[string]bool{}
		for t := range fl {
			if t.Op == "call" && strings.HasSuffix(t.Callee(), ".Pointers") && len(t.Args) > 0 && flows(in, p.St, t.Args[0])[pl.scanners[fnCmds]] {
				has["commands"] = true
			}
			if t.Op == "field" && fieldNameOf(t) == "Pointers" && psa.Contains(t, pl.scanners[fnSpecs]) {
				has["specs"] = true
			}
			if isCall(t, fnExtract) {
				if k, _ := t.Args[1].ConstString(); k != "$ref" {
					continue
				}
				e := eventOf(p, t)
				switch {
				case flows(in, p.St, t.Args[0])[doc]:
					has["document"] = true
					if e != nil {
						before(defs, e, "the references of the document are collected before the defaults are applied")
						before(root, e, "the references of the document are collected before the root document is merged in")
					}
				case or != nil && flows(in, p.St, t.Args[0])[or]:
					has["overrides"] = true
				}
			}
		}
		want := []string{"commands", "document"}
		if or != nil {
			want = append(want, "overrides")
		}
		for _, w := range want {
			c.expect(has[w], "pointers", w, c.ipos(nt.Instr), "types referenced from the %s are not collected %s", w, c.where(p))
		}
		before(pl.scans[fnCmds], firstCall(p, ".Pointers"), "the pointers of the commands are read before the commands are scanned")
	}
	// the result
	if len(p.Results) == 2 {
		o := p.Results[0]
		typ := c.typ("root", "OAPI")
		r0 := tt.Extract(res.Res, 0, nil)
		c.expect(p.St.Norm(c.field(in, o, typ, "c")) == p.St.Norm(r0), "stages", "result", at, "the document returned is %s, not the resolved one", str(c.field(in, o, typ, "c")))
		c.expect(flows(in, p.St, c.field(in, o, typ, "o"))[r0], "stages", "result", at, "the model returned is not decoded from the resolved document")
	}
	return pl
}

// collecting: what collects references in a loop keeps what it had and adds
// each reference which is one.
func (c *Ctx) collecting(in *psa.Interp, ps []*psa.Path, collected map[*T]bool) {
	setT := c.typ("pointer", "Pointers")
	acc := map[*T]bool{}
	for t := range collected {
		for f := range flows(in, nil, t) {
			if (f.Op == "loopphi" || f.Op == "loopmem") && f.Typ != nil && types.Identical(f.Typ.Underlying(), setT.Underlying()) {
				acc[f] = true
			}
		}
	}
	for f := range acc {
		for _, b := range in.Back[f] {
			c.expect(flows(in, nil, b)[f], "pointers", "collected", "", "collecting references forgets those collected before: %s", str(b))
		}
	}
	for _, p := range ps {
		if p.Kind != "back" {
			continue
		}
		for f, v := range p.Next {
			if !acc[f] {
				continue
			}
			for _, e := range p.Events {
				if e.Kind != "call" || callee(e) != "internal/pointer.Parse" || !inLoop(in, p, e.Res) {
					continue
				}
				ref := in.T.Extract(e.Res, 0, nil)
				if otherScheme(p.St, ref) {
					continue // no type
				}
				c.expect(p.St.Nil(in.T.Extract(e.Res, 1, nil)) == 1 && psa.Contains(v, p.St.Norm(ref)), "pointers", "collected", c.ipos(e.Instr), "a reference is read but not collected %s", c.where(p))
			}
		}
	}
}

// collectsEach: with two overrides, every reference of the document and of each
// override is among those the types are scanned for, wherever it stands among
// values which are none.
func (c *Ctx) collectsEach() {
	item := c.typ("container", "MapItem")
	ctT := c.typ("container", "Container")
	var doc *T
	var overs []*T
	// refs are the values under $ref, by document: true for text
	refs := []bool{true, false, true}
	text := func(in *psa.Interp, of string, i int) *T {
		return in.T.Sym(fmt.Sprintf("REF %d of %s", i, of), tString)
	}
	in, fn, _, ps := c.scanWith(func(in *psa.Interp, st *psa.State, opt string) *T {
		T := in.T
		if opt != "WithOverride" {
			return nil
		}
		typ := c.fn("root", "WithOverride").Params[0].Type()
		schema := typ.Underlying().(*types.Map).Elem()
		overs = []*T0{T.Sym("OVERRIDE 1", schema), T.Sym("OVERRIDE 2", schema)}
		doc = T.Sym("MERGED", ctT)
		of := func(st *psa.State, t *T0) string {
			for x := range flows(in, st, t) {
				switch x {
				case doc:
					return "MERGED"
				case overs[0]:
					return "OVERRIDE 1"
				case overs[1]:
					return "OVERRIDE 2"
				}
			}
			return ""
		}
		in.Model = func(st *psa.State, name string, f *ssa.Function, args []*T0, call *psa.Call) []psa.Ret {
			switch shortName(name) {
			case fnMerge:
				return forkErr(in, st, call, "merging", doc)
			case fnMake:
				if w := of(st, args[0]); w != "" {
					return forkErr(in, st, call, "making "+w, T.Sym("MADE OF "+w, ctT))
				}
			case fnExtract:
				if k, _ := st.Norm(args[1]).ConstString(); k != "$ref" {
					return nil
				}
				w := of(st, args[0])
				if s, ok := strings.CutPrefix(str(st.Norm(args[0])), "MADE OF "); ok {
					w = s
				}
				if w == "" {
					return nil
				}
				var items []*T0
				s := item.Underlying().(*types.Struct)
				for i, isText := range refs {
					var fs []*T0
					for j := 0; j < s.NumFields(); j++ {
						switch {
						case s.Field(j).Name() == "Val" && isText:
							fs = append(fs, T.Mk("iface", nil, tString, text(in, w, i)))
						case s.Field(j).Name() == "Val":
							fs = append(fs, T.Mk("iface", nil, types.Typ[types.Float64], T.Sym("number", types.Typ[types.Float64])))
						default:
							fs = append(fs, T.Sym(fmt.Sprintf("%s %d of %s", s.Field(j).Name(), i, w), s.Field(j).Type()))
						}
					}
					items = append(items, T.Mk("agg", nil, item, fs...))
				}
				return forkErr(in, st, call, "references of "+w, T.Mk("list", nil, c.typ("container", "MapSlice"), items...))
			case "internal/pointer.Parse":
				if x := st.Norm(args[0]); x.Op == "sym" {
					return forkErr(in, st, call, "reading "+str(x), T.Sym("POINTER "+str(x), c.typ("pointer", "Pointer")))
				}
			}
			return nil
		}
		return st.NewMap("OVERRIDES", typ, T.Str("go://some.where/else#/Key"), overs[0], T.Str("go://another.where/else#/Key"), overs[1])
	}, "WithDir", "WithOverride")
	n := 0
	for _, p := range ps {
		if !succeeded(p) {
			continue
		}
		pl := newPipeline(in, p)
		e := pl.one(fnTypes)
		if e == nil {
			continue
		}
		n++
		has := map[*T]bool{}
		var add func(t *T)
		add = func(t *T) {
			for x := range flows(in, p.St, t) {
				if has[x] {
					continue
				}
				has[x] = true
				_, vs, base := p.St.MapEntries(x)
				for _, v := range vs {
					add(v)
				}
				if base != nil && base != x {
					add(base)
				}
			}
		}
		add(e.Args[0])
		for _, w := range []string{"MERGED", "OVERRIDE 1", "OVERRIDE 2"} {
			for i, isText := range refs {
				ref := in.T.Sym("POINTER "+str(text(in, w, i)), c.typ("pointer", "Pointer"))
				if isText && !otherScheme(p.St, ref) {
					c.expect(has[ref], "pointers", "every", c.ipos(e.Instr), "the types referenced by %s of %s are not collected %s", str(text(in, w, i)), w, c.where(p))
				}
			}
		}
	}
	c.expect(n > 0, "pointers", "every", c.pos(fn.Pos()), "no successful path")
}

// otherScheme reports references known to be local or of another scheme.
func otherScheme(st *psa.State, ref *T) bool {
	for f, v := range st.FactTerms() {
		if yes, ok := v.ConstBool(); !ok || yes || !psa.Contains(f, ref) {
			continue
		}
		if isCall(f, "(internal/pointer.Pointer).IsExternal") {
			return true
		}
		if f.Op == "eq" {
			for _, a := range f.Args {
				if s, _ := a.ConstString(); s == "go" {
					return true
				}
			}
		}
	}
	return false
}

// inLoop reports values which depend on the loop whose iteration a path ends.
func inLoop(in *psa.Interp, p *psa.Path, t *T) bool {
	for f := range p.Next {
		if psa.Contains(p.St.Norm(t), f) {
			return true
		}
	}
	return false
}

func fieldNameOf(t *T) string {
	i, _ := t.Aux.(int)
	typ := t.Args[0].Typ
	if typ == nil {
		return ""
	}
	if s, ok := typ.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return ""
}

func eventOf(p *psa.Path, t *T) *psa.Event {
	for _, e := range p.Events {
		if e.Kind == "call" && e.Res == t {
			return e
		}
	}
	return nil
}

func firstCall(p *psa.Path, suffix string) *psa.Event {
	for _, e := range p.Events {
		if e.Kind == "call" && strings.HasSuffix(e.Callee, suffix) {
			return e
		}
	}
	return nil
}

// callbackRules interprets the function which answers references.
func (c *Ctx) callbackRules(in *psa.Interp, p *psa.Path, pl *pipeline, res *psa.Event, or *T) {
	cb := strip(p.St.Norm(res.Args[2]))
	if !c.expect(cb.Op == "closure" || cb.Op == "fn", "callback", "function", c.ipos(res.Instr), "the function answering references is not known") {
		return
	}
	fn := cb.Aux.(*ssa.Function)
	var free []*T
	if cb.Op == "closure" {
		free = cb.Args
	}
	ptr := in.Param(fn.Params[len(fn.Params)-1])
	n := map[string]int{}
	for _, q := range c.run(in, fn, nil, free, p.St.Clone()) {
		if q.Kind != "ret" {
			continue
		}
		// consulted: 1 if there is an override, -1 if there is none, else 0
		over := 0
		for a, v := range q.St.FactTerms() {
			if b, ok := v.ConstBool(); a.Op == "has" && ok && psa.Contains(a, ptr) && psa.Contains(a, or) {
				over = -1
				if b {
					over = 1
				}
			}
		}
		if fails(q) {
			c.expect(over == -1, "callback", "override", c.ipos(q.At), "a reference is refused although there may be an override of it %s", c.where(q))
			other := q.St.Truth(in.T.Eq(c.promoted(in, ptr, c.typ("pointer", "Pointer"), "Scheme"), in.T.Str("go"))) == 0
			c.expect(other || !c.causeless(in, q), "callback", "error", c.ipos(q.At), "a reference of scheme go is refused for no reason %s", c.where(q))
			n["error"]++
			continue
		}
		if !succeeded(q) {
			continue
		}
		r := strip(q.Results[0])
		// the override of this very reference
		key := false
		if r.Op == "lookup" {
			for _, a := range r.Args[1:] {
				if isCall(a, "(internal/pointer.Pointer).String") && len(a.Args) == 1 && a.Args[0] == ptr {
					key = true
				}
			}
		}
		if r.Op == "lookup" {
			c.expect(p.St.Norm(r.Args[0]) == or, "callback", "override", c.ipos(q.At), "the override used is not one of the overrides given: %s", str(r))
			c.expect(key, "callback", "override", c.ipos(q.At), "the override used is not the one of the reference: %s", str(r))
			c.expect(over == 1, "callback", "override", c.ipos(q.At), "an override is used which is not known to exist")
			n["override"]++
			continue
		}
		cl, i := callOf(r)
		ok := cl != nil && i == 0 && strings.HasSuffix(cl.Callee(), "types.Scanner).Resolve")
		if !c.expect(ok, "callback", "type", c.ipos(q.At), "a reference is answered with %s", str(r)) {
			continue
		}
		n["type"]++
		c.expect(cl.Args[0] == pl.scanners[fnTypes] || psa.Contains(cl.Args[0], pl.scanners[fnTypes]), "callback", "type", c.ipos(q.At), "a reference is resolved with another scanner than the one which collected the types")
		c.expect(q.St.Norm(cl.Args[1]) == ptr, "callback", "type", c.ipos(q.At), "another reference than the one asked for is resolved: %s", str(cl.Args[1]))
		c.expect(over == -1, "callback", "override", c.ipos(q.At), "a type is resolved although its override was not consulted")
		scheme := c.promoted(in, ptr, c.typ("pointer", "Pointer"), "Scheme")
		c.expect(q.St.Truth(in.T.Eq(scheme, in.T.Str("go"))) == 1, "callback", "scheme", c.ipos(q.At), "references of another scheme than go are resolved as go types")
	}
	for _, k := range []string{"error", "type", "override"} {
		c.expect(n[k] > 0, "callback", k, c.pos(fn.Pos()), "references are never answered by: %s", k)
	}
}

func checkR02(c *Ctx) {
	c.explain = "The exported scan entry point is interpreted with its stages uninterpreted; the function it hands to the resolver is then interpreted on its own, for an arbitrary reference, path by path."
	c.rule("callback", "a reference is answered by the override registered under its text if there is one, else by the type scanner for the go scheme, else by an error", 8)
	in, fn, args, ps := c.scanRun("WithDir", "WithOverride", "WithDefOps", "WithRootSchema")
	n := 0
	for _, p := range ps {
		if !succeeded(p) {
			continue
		}
		n++
		pl := newPipeline(in, p)
		res := pl.one(fnResolve)
		if c.expect(res != nil, "callback", "Resolve", c.ipos(p.At), "a successful scan does not resolve the references once %s", c.where(p)) {
			c.callbackRules(in, p, pl, res, args["WithOverride"])
		}
	}
	c.expect(n > 0, "callback", "Scan", c.pos(fn.Pos()), "no successful path")
}

func checkK02(c *Ctx) {
	c.explain = "The scan of the command line tool is interpreted together with the scan entry point and its options, down to the uninterpreted stages; the values which reach the stages are compared with the fields of the configuration. The entry point is also interpreted with no options at all."
	c.rule("wiring", "directory, context, overrides, defaults and each root section reach the stage they configure unchanged", 20)
	c.rule("mode", "packages are loaded with syntax, types, imports, dependencies, names and modules", 6)
	c.rule("default", "without options the working directory is scanned, with empty root and no defaults", 3)
	c.rule("errors", "the scan of the command fails only if a stage does", 5)
	c.rule("library", "each option of the library reaches its stage", 8)
	c.rule("last", "of an option which is given twice, the last one counts", 8)

	cfgT := c.typ("config", "Config")
	in := c.interp()
	c.opaque(in, "oapi")
	fn := c.fnLike("cmd", "scan", "oapi.OAPI,error")
	n := 0
	for _, p := range c.run(in, fn, nil, nil, nil) {
		if !succeeded(p) {
			c.expect(!c.causeless(in, p), "errors", fname(fn), c.ipos(p.At), "the scan of the command fails although no stage does %s", c.where(p))
			continue
		}
		n++
		cfg := c.paramOf(in, p.St, fn, cfgT)
		get := func(f string) *T { return p.St.Norm(c.field(in, cfg, cfgT, f)) }
		cases(in, p.St, func(x *cs) {
			dir := get("Dir")
			if x.empty(dir) {
				dir = nil
			}
			or := get("Overrides")
			if x.is(in.T.Eq(in.T.Len(or), in.T.Int(0))) {
				or = nil
			}
			ops := get("Operations")
			if x.is(in.T.Eq(in.T.Len(ops), in.T.Int(0))) {
				ops = nil
			}
			root := map[string]*T{}
			for _, f := range []string{"Info", "Servers", "Components", "Security", "Tags", "ExternalDocs"} {
				root[f] = get(f)
			}
			var ctx *T
			for _, q := range fn.Params {
				if strings.HasSuffix(q.Type().String(), "context.Context") {
					ctx = in.Param(q)
				}
			}
			c.wiring("wiring", in, p, x, ctx, dir, or, ops, root, nil)
		})
	}
	c.expect(n > 0, "wiring", "scan", c.pos(fn.Pos()), "no successful path")

	in, sfn, args, ps := c.scanRun("WithDir", "WithOverride", "WithDefOps", "WithRootSchema")
	for _, p := range ps {
		if succeeded(p) {
			c.wiring("library", in, p, &cs{St: p.St, in: in}, in.Param(sfn.Params[0]), args["WithDir"], args["WithOverride"], args["WithDefOps"], nil, args["WithRootSchema"])
		}
	}
	in, sfn, args, ps = c.scanRun("WithDir before", "WithOverride before", "WithDefOps before", "WithRootSchema before", "WithDir", "WithOverride", "WithDefOps", "WithRootSchema")
	for _, p := range ps {
		if succeeded(p) {
			c.wiring("last", in, p, &cs{St: p.St, in: in}, in.Param(sfn.Params[0]), args["WithDir"], args["WithOverride"], args["WithDefOps"], nil, args["WithRootSchema"])
		}
	}
	in, sfn, _, ps = c.scanRun()
	for _, p := range ps {
		if succeeded(p) {
			c.wiring("default", in, p, &cs{St: p.St, in: in}, in.Param(sfn.Params[0]), nil, nil, nil, nil, nil)
		}
	}
}

func (c *Ctx) wiring(rule string, in *psa.Interp, p *psa.Path, x *cs, ctx, dir, or, ops *T, root map[string]*T, rootVal *T) {
	tt := in.T
	pl := newPipeline(in, p)
	load, mr, sd, res := pl.one(fnLoad), pl.one(fnRoot), pl.one(fnDefaults), pl.one(fnResolve)
	at := c.ipos(p.At)
	if load == nil || mr == nil || sd == nil || res == nil {
		c.violate(rule, "stages", at, "a stage is missing "+c.where(p))
		return
	}
	pcfg := importedType(c, "golang.org/x/tools/go/packages", "Config")
	if pcfg == nil {
		c.fatal("anchor", "packages.Config is not used any more")
	}
	if dir == nil {
		for _, e := range calls(p, "os.Getwd") {
			dir = tt.Extract(e.Res, 0, nil)
		}
	}
	lc := strip(load.Args[0])
	g := c.load(in, x.St, lc, pcfg, "Dir")
	c.expect(dir != nil && x.same(g, dir), rule, "dir", c.ipos(load.Instr), "packages are loaded from %s, not from %s %s", str(g), str(dir), c.where(p))
	g = strip(c.load(in, x.St, lc, pcfg, "Context"))
	c.expect(ctx != nil && x.same(g, ctx), rule, "context", c.ipos(load.Instr), "packages are loaded with context %s", str(g))
	pat := in.Resolve(x.St, load.Args[1])
	okPat := pat.Op == "nil" || pat.Op == "list" && (len(pat.Args) == 0 || len(pat.Args) == 1 && pat.Args[0] == tt.Str("."))
	c.expect(okPat, rule, "pattern", c.ipos(load.Instr), "something else than the package in the directory is loaded: %s", str(pat))
	mode, ok := c.load(in, x.St, lc, pcfg, "Mode").ConstInt()
	for _, m := range []struct {
		n string
		m packages.LoadMode
	}{{"NeedName", packages.NeedName}, {"NeedSyntax", packages.NeedSyntax}, {"NeedTypes", packages.NeedTypes}, {"NeedImports", packages.NeedImports}, {"NeedDeps", packages.NeedDeps}, {"NeedModule", packages.NeedModule}} {
		bit, okb := c.importedConst("golang.org/x/tools/go/packages", m.n)
		c.expect(ok && okb && mode&bit != 0, "mode", m.n, c.ipos(load.Instr), "packages are loaded without %s", m.n)
	}
	// defaults
	d := x.St.Norm(sd.Args[1])
	if ops != nil {
		c.expect(x.same(d, ops), rule, "operations", c.ipos(sd.Instr), "the default operations applied are %s", str(d))
	} else {
		keys, _, base := x.St.MapEntries(d)
		c.expect(x.St.Nil(d) == 1 || len(keys) == 0 && base == nil || x.St.Truth(tt.Eq(tt.Len(d), tt.Int(0))) == 1, rule, "operations", c.ipos(sd.Instr), "default operations are applied though none are given: %s", str(d))
	}
	// root
	ot := c.typ("spec", "OpenAPI")
	got := x.St.Norm(mr.Args[0])
	switch {
	case rootVal != nil:
		s := ot.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			c.expect(x.same(c.field(in, got, ot, n), c.field(in, rootVal, ot, n)), rule, "root "+n, c.ipos(mr.Instr), "section %s of the root document is lost", n)
		}
	default:
		s := ot.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			g := x.St.Norm(c.field(in, got, ot, n))
			if w := root[n]; w != nil {
				c.expect(x.same(g, w), rule, "root "+n, c.ipos(mr.Instr), "section %s of the root document is %s", n, str(g))
				continue
			}
			z := tt.Zero(s.Field(i).Type())
			c.expect(g == z || x.St.Truth(tt.Eq(g, z)) == 1, rule, "root "+n, c.ipos(mr.Instr), "section %s of the root document is invented: %s", n, str(g))
		}
	}
	// overrides: seen by the callback
	cb := strip(p.St.Norm(res.Args[2]))
	if cb.Op != "closure" {
		c.violate(rule, "overrides", c.ipos(res.Instr), "the function answering references is not known")
		return
	}
	fn := cb.Aux.(*ssa.Function)
	seen := false
	for _, q := range c.run(in, fn, nil, cb.Args, x.St.Clone()) {
		if q.Kind != "ret" || fails(q) {
			continue
		}
		if r := strip(q.Results[0]); r.Op == "lookup" {
			seen = true
			m := q.St.Norm(r.Args[0])
			if or != nil {
				c.expect(m == x.St.Norm(or), rule, "overrides", c.ipos(q.At), "the overrides used are %s", str(m))
			} else if keys, _, base := q.St.MapEntries(m); !(q.St.Nil(m) == 1 || len(keys) == 0 && base == nil || q.St.Truth(tt.Eq(tt.Len(m), tt.Int(0))) == 1) {
				// an empty set of overrides is none
				c.violate(rule, "overrides", c.ipos(q.At), "overrides are used though none are given: "+str(m))
			}
		}
	}
	c.expect(seen || or == nil, rule, "overrides", c.ipos(res.Instr), "overrides given=%v used=%v", or != nil, seen)
}

// importedType finds a type of a dependency.
func importedType(c *Ctx, path, name string) types.Type {
	for _, p := range c.prog.AllPackages() {
		if p.Pkg.Path() == path {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func (c *Ctx) importedConst(path, name string) (int64, bool) {
	for _, p := range c.prog.AllPackages() {
		if p.Pkg.Path() == path {
			if o, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				in := psa.New(c.prog)
				return in.T.Const(ssa.NewConst(o.Val(), o.Type())).ConstInt()
			}
		}
	}
	return 0, false
}
