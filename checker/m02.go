package main

import (
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["M02"] = checkM02
}

const (
	ctMerge = "(internal/container.Container).Merge"
	ctPath  = "(internal/container.Container).Path"
	ctIsNil = "(internal/container.Container).IsNil"
	ctData  = "(internal/container.Container).Data"
)

var rootPolicies = map[string]string{
	"info": "source", "components": "error",
	"paths": "destination", "externalDocs": "destination", "security": "destination", "servers": "destination", "tags": "destination",
}

// origin is the section of a document a value was read from.
type origin struct {
	doc *T
	key string
}

func checkM02(c *Ctx) {
	c.explain = "The merge of the merged specifications with the root document is interpreted with the containers uninterpreted, once per section; what is merged into the document on every successful path, in which order and with which policy, is compared with the table of section policies."
	c.rule("section", "each section of the root document reaches the document, with the policy of that section deciding collisions with what the specifications say", 20)
	c.rule("absent", "an absent section of the root document changes nothing", 7)
	c.rule("errors", "every failure to merge is reported", 20)
	c.rule("only", "nothing but the sections of the table is merged", 7)
	fn := c.fn("ioapi", "MergeWithRoot")
	for key, want := range rootPolicies {
		c.rootSection(fn, key, want)
	}
}

func (c *Ctx) rootSection(fn *ssa.Function, key, want string) {
	in := c.interp()
	c.opaque(in, fname(fn))
	ctT := c.typ("container", "Container")
	doc := c.paramOf(in, in.NewState(), fn, ctT)
	rootT := c.typ("spec", "OpenAPI")
	root := c.paramOf(in, in.NewState(), fn, rootT)
	// which section of which document a container is
	orig := func(p *psa.State, t *T) (o origin, ok bool) {
		t = p.Norm(t)
		if !isCall(t, ctPath) || len(t.Args) != 2 {
			return
		}
		k, isConst := t.Args[1].ConstString()
		if !isConst {
			return
		}
		b := p.Norm(t.Args[0])
		if b == doc {
			return origin{doc, k}, true
		}
		if cl, i := callOf(b); cl != nil && i == 0 && shortName(cl.Callee()) == fnMake && p.Norm(strip(cl.Args[0])) == root {
			return origin{root, k}, true
		}
		return
	}
	in.ReadOnly = func(name string) bool { return shortName(name) == fnMake }
	in.Model = func(st *psa.State, name string, f *ssa.Function, args []*T, call *psa.Call) []psa.Ret {
		switch shortName(name) {
		case ctIsNil:
			// only the section looked at may be absent
			if o, ok := orig(st, args[0]); ok && o.key != key {
				return []psa.Ret{{St: st, Kind: "ret", Val: in.T.Bool(false)}}
			}
		}
		return nil
	}
	sectionOf := func(p *psa.Path, t *T) (o origin, ok bool) {
		// Make(map{key: section.Data()}) or Make(map{key: section})
		cl, i := callOf(p.St.Norm(t))
		if cl == nil || i != 0 || shortName(cl.Callee()) != fnMake {
			return
		}
		m := strip(p.St.Norm(cl.Args[0]))
		ks, vs, base := p.St.MapEntries(m)
		if len(ks) != 1 || base != nil {
			return
		}
		k, _ := ks[0].ConstString()
		v := strip(p.St.Norm(vs[0]))
		if isCall(v, ctData) {
			v = v.Args[0]
		}
		o, ok = orig(p.St, v)
		if ok && o.key != k {
			c.violate("section", k, c.ipos(p.At), "section "+o.key+" is merged as section "+k)
		}
		return
	}
	n := 0
	for _, p := range c.run(in, fn, nil, nil, nil) {
		if !succeeded(p) {
			c.expect(!c.causeless(in, p), "errors", fname(fn), c.ipos(p.At), "the sections are not merged without a reason %s", c.where(p))
			continue
		}
		n++
		at := c.ipos(p.At)
		for _, e := range p.Events {
			if e.Kind != "call" {
				continue
			}
			switch callee(e) {
			case ctMerge:
				c.expect(p.St.Nil(e.Res) == 1, "errors", "Merge", c.ipos(e.Instr), "a failure to merge is ignored %s", c.where(p))
			case fnMake:
				c.expect(p.St.Nil(in.T.Extract(e.Res, 1, nil)) == 1, "errors", "Make", c.ipos(e.Instr), "a failure to read a section is ignored %s", c.where(p))
			}
		}
		// what is merged onto a container, in order
		type part struct {
			o   origin
			pol string
			e   *psa.Event
		}
		onto := map[*T][]part{}
		var final []part
		for _, e := range calls(p, ctMerge) {
			to, from, pol := p.St.Norm(e.Args[0]), p.St.Norm(e.Args[1]), c.policy(in, p.St.Norm(e.Args[2]))
			if o, ok := sectionOf(p, from); ok {
				if to == doc {
					final = append(final, part{o, pol, e})
					if o.doc == doc {
						c.violate("section", o.key, c.ipos(e.Instr), "a section of the document is merged with itself")
					}
				} else {
					onto[to] = append(onto[to], part{o, pol, e})
				}
				continue
			}
			if to == doc && isEmptyContainer(from) {
				// a container collected before
				ps := onto[from]
				for i, q := range ps {
					if q.o.doc != root {
						continue
					}
					k := pol
					for j, r := range ps {
						if r.o.doc != doc || r.o.key != q.o.key {
							continue
						}
						c.expect(pol == "source", "section", q.o.key, c.ipos(e.Instr), "the merged section does not replace the one of the document (%s wins)", pol)
						k = q.pol
						if j > i {
							k = map[string]string{"source": "destination", "destination": "source"}[r.pol]
							if k == "" {
								k = r.pol
							}
						}
					}
					if n := nilCall(in, p, doc, q.o.key, orig); p.St.Truth(n) == 1 {
						k = rootPolicies[q.o.key] // nothing to collide with
					}
					final = append(final, part{q.o, k, e})
				}
				continue
			}
			if to != doc && isEmptyContainer(to) {
				c.violate("section", "payload", c.ipos(e.Instr), "something else than a section is merged: "+str(from))
				continue
			}
			c.violate("only", "payload", c.ipos(e.Instr), "something else than a section is merged into the document: "+str(from))
		}
		seen := map[string]int{}
		for _, f := range final {
			if rootPolicies[f.o.key] == "" {
				c.violate("only", f.o.key, c.ipos(f.e.Instr), "section "+f.o.key+" is merged, which has no policy")
				continue
			}
			seen[f.o.key]++
			if f.o.key == key {
				c.expect(f.pol == want, "section", key, c.ipos(f.e.Instr), "collisions in section %s are decided by %s, not by %s %s", key, f.pol, want, c.where(p))
			}
		}
		c.ok("only")
		isNil := nilCall(in, p, root, key, orig)
		switch {
		case isNil != nil && p.St.Truth(isNil) == 1:
			c.expect(seen[key] == 0, "absent", key, at, "section %s is merged although the root document does not have it", key)
		default:
			c.expect(seen[key] == 1, "section", key, at, "section %s of the root document is lost %s", key, c.where(p))
		}
	}
	c.expect(n > 0, "section", key, c.pos(fn.Pos()), "merging with the root document never succeeds")
}

// nilCall finds the condition that the section of a document is absent.
func nilCall(in *psa.Interp, p *psa.Path, doc *T, key string, orig func(*psa.State, *T) (origin, bool)) *T {
	for _, e := range p.Events {
		if e.Kind == "call" && strings.HasSuffix(callee(e), ".IsNil") {
			if o, ok := orig(p.St, e.Args[0]); ok && o.doc == doc && o.key == key {
				return e.Res
			}
		}
	}
	return in.T.Bool(false)
}
