package main

import (
	"go/types"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

// setting decides what making, copying and changing documents does.
func (c *Ctx) setting() {
	ctT := c.typ("container", "Container")
	gT := ctT.Underlying().(*types.Struct).Field(fieldIndex(ctT, "c")).Type()
	for _, op := range []string{"SetP", "Replace", "Make", "Clone"} {
		var fn *ssa.Function
		if op == "Make" {
			fn = c.fn("container", "Make")
		} else {
			fn = c.method("container", "Container", op)
		}
		at := c.pos(fn.Pos())
		kinds := []string{"value", "document", "reference"}
		if op == "Clone" {
			kinds = kinds[:1]
		}
		for _, kind := range kinds {
			in := c.interp()
			T := in.T
			c.opaque(in, "internal/container")
			in.Rec = 9
			st := in.NewState()
			self, other := T.Sym("GABS", gT), T.Sym("OTHER", gT)
			st.Assume(T.Eq(self, T.Nil()), false)
			st.Assume(T.Eq(other, T.Nil()), false)
			content := T.Mk("iface", nil, tString, T.Sym("CONTENT", tString))
			given := content
			doc := T.Mk("agg", nil, ctT, c.containerFields(in, other, T.Sym("OTHERPATH", tString))...)
			switch kind {
			case "document":
				given = T.Mk("iface", nil, ctT, doc)
			case "reference":
				a := st.NewObj("DOC", ctT)
				st.Store(a, doc)
				given = T.Mk("iface", nil, types.NewPointer(ctT), a)
			}
			path := T.Sym("PATH", tString)
			copied := T.Mk("iface", nil, tString, T.Sym("COPY", tString))
			in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
				switch {
				case name == gabsC+"Data":
					g := st.Norm(args[0])
					if g == self && op == "Clone" || g == other && op != "Clone" {
						return []psa.Ret{{St: st, Kind: "ret", Val: content}}
					}
				case name == "encoding/json.Unmarshal":
					cl, i := callOf(st.Norm(args[0]))
					if cl == nil || i != 0 || cl.Callee() != "encoding/json.Marshal" || st.Norm(cl.Args[0]) != content {
						return nil
					}
					st.Emit(&psa.Event{Kind: "call", Callee: name, Fn: f, Args: args, Res: T.Nil(), Instr: call.Instr, In: call.In})
					st.Store(strip(args[1]), copied)
					return []psa.Ret{{St: st, Kind: "ret", Val: T.Nil()}}
				}
				return nil
			}
			recv := T.Mk("agg", nil, ctT, c.containerFields(in, self, T.Sym("FILE", tString))...)
			var args []*psa.Term
			switch op {
			case "SetP":
				args = []*psa.Term{recv, path, given}
			case "Replace":
				args = []*psa.Term{recv, given}
			case "Make":
				args = []*psa.Term{given}
			case "Clone":
				args = []*psa.Term{recv}
			}
			good := 0
			for _, p := range c.run(in, fn, args, nil, st) {
				pat := c.ipos(p.At)
				if p.Kind != "ret" {
					c.violate("setting", op, pat, op+" of a "+kind+" panics "+c.where(p))
					continue
				}
				encoded := 0
				for _, f := range c.failures(in, p, nil) {
					if f.name == "encoding/json.Marshal" && p.St.Nil(f.err) == 1 {
						encoded++
					}
					if p.St.Nil(f.err) != 1 && !infallible(f.name, f.args) {
						c.expect(fails(p) || mayFail(p), "setting", op, pat, "%s succeeds although %s has failed %s", op, f.name, c.where(p))
					}
				}
				hits := calls(p, gabsC+"SetP", gabsC+"Set", gabsC+"SetIndex", gabsC+"Delete", gabsC+"DeleteP")
				if encoded == 0 {
					c.expect(len(hits) == 0, "setting", op, pat, "%s changes a document although the %s cannot be copied", op, kind)
					continue
				}
				switch op {
				case "SetP", "Replace":
					lib, want := gabsC+"SetP", []*psa.Term{self, copied, path}
					if op == "Replace" {
						lib, want = gabsC+"Set", want[:2]
					}
					ok := len(hits) == 1 && callee(hits[0]) == shortName(lib)
					for i := 0; ok && i < len(want); i++ {
						ok = p.St.Norm(hits[0].Args[i]) == want[i]
					}
					if op == "Replace" && ok && len(hits[0].Args) > 2 {
						l := in.Resolve(p.St, hits[0].Args[2])
						ok = len(l.Args) == 0
					}
					if !c.expect(ok, "setting", op, pat, "%s of a %s does not put a copy of it into the document %s", op, kind, c.where(p)) {
						continue
					}
					if e := T.Extract(hits[0].Res, 1, errType); p.St.Nil(e) != 1 {
						c.expect(fails(p) || p.St.Norm(p.Results[0]) == p.St.Norm(e), "setting", op, pat, "%s succeeds although the document refuses the value", op)
					} else {
						c.expect(succeeded(p), "setting", op, pat, "%s fails although it did what was asked", op)
					}
					good++
				default:
					if !c.expect(succeeded(p), "setting", op, pat, "%s of a %s fails without a reason %s", op, kind, c.where(p)) {
						continue
					}
					good++
					w := p.St.Norm(c.field(in, p.Results[0], ctT, "c"))
					cl, _ := callOf(w)
					c.expect(cl != nil && cl.Callee() == "github.com/Jeffail/gabs/v2.Wrap" && p.St.Norm(cl.Args[0]) == copied && len(hits) == 0, "setting", op, pat, "%s of a %s is a document of %s", op, kind, str(w))
				}
			}
			c.expect(good > 0, "setting", op, at, "%s of a %s never succeeds", op, kind)
		}
	}
}
