package main

import (
	"fmt"
	"go/types"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

type T = psa.Term

// opaque keeps the known API of our packages uninterpreted, except the
// functions of the packages (short names) or functions given; helpers which are
// not part of that API are always interpreted.
func (c *Ctx) opaque(in *psa.Interp, open ...string) {
	in.Pure = func(name string) bool { return ourPure[shortName(name)] }
	isOpen := map[string]bool{}
	for _, o := range open {
		isOpen[o] = true
	}
	in.Opaque = func(fn *ssa.Function, _ []*ssa.Function) bool {
		if !c.isOurs(fn) {
			return true
		}
		n := fname(fn)
		if isOpen[n] || isOpen["*"] {
			return false
		}
		if fn.Pkg != nil && isOpen[pkgShort(fn.Pkg.Pkg)] {
			return false
		}
		return api[n]
	}
}

// ourPure lists functions of ours which are functions of their arguments (that
// they do not write is decided by A01).
var ourPure = map[string]bool{
	"(internal/oapi/spec.Entity).Path": true, "(internal/oapi/spec.Entity).Fragment": true, "(internal/oapi/spec.Entity).String": true,
	"internal/container.SliceToDotPath": true, "internal/container.DotPathToSlice": true,
	"(internal/pointer.Pointer).String": true, "(internal/pointer.Pointer).IsExternal": true, "(internal/pointer.Fragment).RawDescendant": true,
}

// closedTo keeps everything with a body opaque except closures.
func closuresOnly(fn *ssa.Function, _ []*ssa.Function) bool { return fn.Parent() == nil }

func pkgShort(p *types.Package) string {
	s := strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "/")
	if s == "" {
		return "oapi"
	}
	return s
}

// callee is the short name of the callee of an event.
func callee(e *psa.Event) string { return shortName(e.Callee) }

// calls lists the calls of a path to the named functions.
func calls(p *psa.Path, names ...string) []*psa.Event {
	var out []*psa.Event
	for _, e := range p.Events {
		if e.Kind != "call" && e.Kind != "enter" {
			continue
		}
		n := callee(e)
		for _, x := range names {
			if n == x {
				out = append(out, e)
			}
		}
	}
	return out
}

func isCall(t *T, name string) bool {
	return t != nil && t.Op == "call" && shortName(t.Callee()) == name
}

// strip removes interface and conversion wrappers.
func strip(t *T) *T {
	for t != nil && (t.Op == "iface" || t.Op == "conv" || t.Op == "clip") {
		t = t.Args[0]
	}
	return t
}

// callOf returns the call a value comes from: the call itself or the
// projection of a tuple.
func callOf(t *T) (*T, int) {
	t = strip(t)
	if t == nil {
		return nil, 0
	}
	if t.Op == "call" {
		return t, 0
	}
	if t.Op == "extract" && t.Args[0].Op == "call" {
		return t.Args[0], t.Aux.(int)
	}
	return nil, 0
}

// isRes reports that t is result i of a call to name.
func isRes(t *T, name string, i int) bool {
	cl, n := callOf(t)
	return cl != nil && shortName(cl.Callee()) == name && n == i
}

func str(t *T) string {
	if t == nil {
		return "-"
	}
	return shortName(strings.ReplaceAll(t.String(), modPath+"/", ""))
}

// flows collects everything t may be made of: its subterms, and what loops put
// into summarised values.
func flows(in *psa.Interp, st *psa.State, ts ...*T) map[*T]bool {
	seen := map[*T]bool{}
	var w func(t *T)
	w = func(t *T) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			w(a)
		}
		for _, b := range in.Back[t] {
			w(b)
		}
		for _, b := range in.Kept[t] {
			w(b)
		}
		if st != nil {
			switch t.Op {
			case "alloc", "make", "global":
				base, over := st.Content(t)
				w(base)
				for _, v := range over {
					w(v)
				}
			}
		}
	}
	for _, t := range ts {
		w(t)
	}
	return seen
}

// succeeded reports that the path can return with a nil error (last result),
// and assumes so from then on.
func succeeded(p *psa.Path) bool {
	if p.Kind != "ret" {
		return false
	}
	n := len(p.Results)
	if n == 0 {
		return true
	}
	last := p.Results[n-1]
	if !psa.IsErrorType(last.Typ) && p.Fn != nil && !hasErr(p.Fn.Signature) {
		return true
	}
	switch p.St.Nil(last) {
	case 1:
		return true
	case 0:
		return false
	}
	return p.St.AssumeNil(last)
}

// mayFail reports a path which returns an error that is not known to be nil.
func mayFail(p *psa.Path) bool {
	n := len(p.Results)
	return p.Kind == "ret" && n > 0 && p.St.Nil(p.Results[n-1]) != 1
}

// fails reports a path returning a non-nil error.
func fails(p *psa.Path) bool {
	n := len(p.Results)
	return p.Kind == "ret" && n > 0 && p.St.Nil(p.Results[n-1]) == 0
}

// errResult reports functions whose last result is an error.
func hasErr(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && psa.IsErrorType(sig.Results().At(n-1).Type())
}

// fieldIndex finds a field of a struct by name.
func fieldIndex(t types.Type, name string) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// field reads a field of a struct value by name.
func (c *Ctx) field(in *psa.Interp, v *T, typ types.Type, name string) *T {
	i := fieldIndex(typ, name)
	if i < 0 {
		c.fatal("anchor", fmt.Sprintf("field %s of %s is gone", name, typ))
	}
	st := typ.Underlying().(*types.Struct)
	return in.T.Field(v, i, st.Field(i).Type())
}

// load reads field name of the struct ptr points to, in state st.
func (c *Ctx) load(in *psa.Interp, st *psa.State, ptr *T, typ types.Type, name string) *T {
	i := fieldIndex(typ, name)
	if i < 0 {
		c.fatal("anchor", fmt.Sprintf("field %s of %s is gone", name, typ))
	}
	s := typ.Underlying().(*types.Struct)
	return st.Load(in.FieldAddr(ptr, i, types.NewPointer(s.Field(i).Type())), s.Field(i).Type())
}

// truth evaluates a condition on a path.
func truth(p *psa.Path, cond *T) int { return p.St.Truth(cond) }

// split enumerates the valuations of the atoms consistent with the path, each
// in a copy of its state.
func split(p *psa.Path, atoms ...*T) []*psa.State {
	out := []*psa.State{p.St.Clone()}
	for _, a := range atoms {
		var next []*psa.State
		for _, s := range out {
			switch s.Truth(a) {
			case 0, 1:
				next = append(next, s)
			default:
				x, y := s.Clone(), s
				if x.Assume(a, true) {
					next = append(next, x)
				}
				if y.Assume(a, false) {
					next = append(next, y)
				}
			}
		}
		out = next
	}
	return out
}

// where describes a path for a message.
func (c *Ctx) where(p *psa.Path) string {
	var conds []string
	for _, f := range p.St.Conds() {
		conds = append(conds, shortName(strings.ReplaceAll(f, modPath+"/", "")))
	}
	if len(conds) > 6 {
		conds = append(conds[:6], "…")
	}
	return fmt.Sprintf("on the path ending at %s [%s]", c.ipos(p.At), strings.Join(conds, "; "))
}

// promoted reads a possibly promoted field of a struct value by name.
func (c *Ctx) promoted(in *psa.Interp, v *T, typ types.Type, name string) *T {
	var pkg *types.Package
	if n, ok := typ.(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	o, idx, _ := types.LookupFieldOrMethod(typ, true, pkg, name)
	if _, ok := o.(*types.Var); !ok {
		c.fatal("anchor", fmt.Sprintf("field %s of %s is gone", name, typ))
	}
	for _, i := range idx {
		st := typ.Underlying().(*types.Struct)
		typ = st.Field(i).Type()
		v = in.T.Field(v, i, typ)
		if _, ok := typ.Underlying().(*types.Struct); !ok {
			break
		}
	}
	return v
}

// causeless reports a path which fails although nothing it calls has failed.
func (c *Ctx) causeless(in *psa.Interp, p *psa.Path) bool {
	if !mayFail(p) || !psa.IsErrorType(p.Results[len(p.Results)-1].Typ) && !(p.Fn != nil && hasErr(p.Fn.Signature)) {
		return false
	}
	last := p.St.Norm(p.Results[len(p.Results)-1])
	for _, e := range p.Events {
		ci, ok := e.Instr.(ssa.CallInstruction)
		if e.Kind != "call" || !ok || e.Res == nil {
			continue
		}
		n := callee(e)
		if strings.HasPrefix(n, "errors.") || strings.HasPrefix(n, "github.com/pkg/errors.") || n == "fmt.Errorf" {
			continue
		}
		rs := ci.Common().Signature().Results()
		if rs.Len() == 0 || !psa.IsErrorType(rs.At(rs.Len()-1).Type()) {
			continue
		}
		t := e.Res
		if rs.Len() > 1 {
			t = in.T.Extract(t, rs.Len()-1, rs.At(rs.Len()-1).Type())
		}
		if p.St.Nil(t) == 0 || contains(last, p.St.Norm(t)) {
			return false
		}
	}
	return true
}
