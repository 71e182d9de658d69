package main

import (
	"go/constant"
	"go/types"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

// cs evaluates an expectation in a state; atoms it asks for are decided by
// case distinction.
type cs struct {
	St *psa.State
	in *psa.Interp
}

type need struct{ atom *T }

// is decides an atom.
func (x *cs) is(t *T) bool {
	switch x.St.Truth(t) {
	case 1:
		return true
	case 0:
		return false
	}
	panic(need{t})
}

// empty decides s == "".
func (x *cs) empty(s *T) bool { return x.is(x.in.T.Eq(s, x.in.T.Str(""))) }

// isNil decides v == nil.
func (x *cs) isNil(v *T) bool { return x.is(x.in.T.Eq(v, x.in.T.Nil())) }

// same reports equality in the state.
func (x *cs) same(a, b *T) bool {
	a, b = x.in.Resolve(x.St, a), x.in.Resolve(x.St, b)
	return a == b || x.St.Truth(x.in.T.Eq(a, b)) == 1
}

// cases runs f in every case of the atoms it asks for.
func cases(in *psa.Interp, st *psa.State, f func(*cs)) {
	var atom *T
	func() {
		defer func() {
			if r := recover(); r != nil {
				n, ok := r.(need)
				if !ok {
					panic(r)
				}
				atom = n.atom
			}
		}()
		f(&cs{St: st.Clone(), in: in})
	}()
	if atom == nil {
		return
	}
	for _, v := range []bool{true, false} {
		s := st.Clone()
		if s.Assume(atom, v) && s.Truth(atom) != -1 {
			cases(in, s, f)
		}
	}
}

// abs is the expected absolute form of path p relative to base.
func (x *cs) abs(p, base *T) *T {
	if x.is(x.in.T.Call("path/filepath.IsAbs", types.Typ[types.Bool], p)) {
		return p
	}
	return x.join(base, p)
}

func (x *cs) join(ts ...*T) *T {
	return x.in.T.Call("path/filepath.Join", types.Typ[types.String], x.in.T.Mk("list", nil, types.NewSlice(types.Typ[types.String]), ts...))
}

// constant reads a named integer constant of one of our packages.
func (c *Ctx) constInt(in *psa.Interp, pkg, name string) *T {
	o := c.pkg(pkg).Pkg.Scope().Lookup(name)
	k, ok := o.(*types.Const)
	if !ok {
		c.fatal("anchor", "constant "+pkg+"."+name+" is gone")
	}
	n, _ := constant.Int64Val(constant.ToInt(k.Val()))
	return in.T.Int(n)
}

// fnLike finds a function or method of a package by name, else the only one
// with the given result types.
func (c *Ctx) fnLike(pkg, name, results string) *ssa.Function {
	p := c.pkg(pkg)
	var byName, byRes []*ssa.Function
	for _, f := range c.ourFuncs() {
		if f.Pkg != p || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if f.Name() == name {
			byName = append(byName, f)
		}
		if resultString(f) == results {
			byRes = append(byRes, f)
		}
	}
	pick := byName
	if len(pick) != 1 {
		pick = byRes
	}
	if len(pick) != 1 {
		c.fatal("anchor", "function "+pkg+"."+name+" is gone")
	}
	c.funcs[pick[0]] = true
	return pick[0]
}

func resultString(f *ssa.Function) string {
	var rs []string
	r := f.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		rs = append(rs, shortName(types.TypeString(r.At(i).Type(), nil)))
	}
	return strings.Join(rs, ",")
}

// paramOf finds the parameter of fn (receiver included) with the given type
// (or a pointer to it): its value.
func (c *Ctx) paramOf(in *psa.Interp, st *psa.State, fn *ssa.Function, typ types.Type) *T {
	for _, p := range fn.Params {
		t := p.Type()
		if types.Identical(t, typ) {
			return in.Param(p)
		}
		if pt, ok := t.(*types.Pointer); ok && types.Identical(pt.Elem(), typ) {
			return st.Load(in.Param(p), typ)
		}
	}
	c.fatal("anchor", fname(fn)+" no longer takes a "+typ.String())
	return nil
}

// mentions reports a term built with the string constant s.
func mentions(t *T, s string) bool {
	found := false
	psa.Walk(t, func(x *T) bool {
		if v, ok := x.ConstString(); ok && strings.Contains(v, s) {
			found = true
		}
		return !found
	})
	return found
}

// policy classifies a merge collision function: "destination", "source" or
// "error" for what it yields.
func (c *Ctx) policy(in *psa.Interp, t *T) string {
	t = strip(t)
	if t == nil || t.Op != "fn" && t.Op != "closure" {
		return "unknown"
	}
	fn := t.Aux.(*ssa.Function)
	if len(fn.Params) != 2 || len(fn.Blocks) == 0 {
		return "unknown"
	}
	var free []*T
	if t.Op == "closure" {
		free = t.Args
	}
	res := ""
	for _, p := range c.run(in, fn, nil, free, nil) {
		k := "unknown"
		switch {
		case fails(p):
			k = "error"
		case succeeded(p) && len(p.Results) == 2:
			for i, n := range []string{"destination", "source"} {
				if p.St.Norm(p.Results[0]) == in.Param(fn.Params[i]) {
					k = n
				}
			}
		}
		if res != "" && res != k {
			return "unknown"
		}
		res = k
	}
	return res
}
