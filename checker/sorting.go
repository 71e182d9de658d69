package main

import (
	"go/token"
	"go/types"

	"oapiverif/psa"
)

// sorting models the sort functions on slices of known length: it asks the
// comparison of the code as often as it takes, and swaps the elements.
func sorting(in *psa.Interp, st *psa.State, name string, args []*T, call *psa.Call) []psa.Ret {
	T0 := in.T
	var less func(st *psa.State, i, j int64) []psa.Ret
	var swap func(st *psa.State, i, j int64) []*psa.State
	done := func(st *psa.State) psa.Ret { return psa.Ret{St: st, Kind: "ret", Val: T0.Nil()} }
	inPlace := func(v *T) func(st *psa.State, i, j int64) []*psa.State {
		return func(st *psa.State, i, j int64) []*psa.State {
			v := st.Norm(v)
			base := v
			if v.Op == "slice" {
				base = v.Args[0]
			} else {
				base = T0.Mk("sliceof", nil, nil, v)
			}
			et := v.Typ.Underlying().(*types.Slice).Elem()
			a, b := in.ElemAddr(base, T0.Int(i), types.NewPointer(et)), in.ElemAddr(base, T0.Int(j), types.NewPointer(et))
			x, y := st.Load(a, et), st.Load(b, et)
			st.Store(a, y)
			st.Store(b, x)
			return []*psa.State{st}
		}
	}
	elem := func(st *psa.State, v *T, i int64) *T {
		v = st.Norm(v)
		base := v
		if v.Op == "slice" {
			base = v.Args[0]
		} else {
			base = T0.Mk("sliceof", nil, nil, v)
		}
		et := v.Typ.Underlying().(*types.Slice).Elem()
		return st.Norm(st.Load(in.ElemAddr(base, T0.Int(i), types.NewPointer(et)), et))
	}
	if len(args) == 0 {
		return nil
	}
	v := strip(args[0])
	if (name == "sort.Sort" || name == "sort.Stable") && args[0].Op == "iface" && args[0].Typ.String() == "sort.StringSlice" || name == "(sort.StringSlice).Sort" {
		name = "sort.Strings"
	}
	switch name {
	case "sort.Sort", "sort.Stable":
		less = func(st *psa.State, i, j int64) []psa.Ret {
			return call.Method(st, args[0], nil, "Less", T0.Int(i), T0.Int(j))
		}
		swap = func(st *psa.State, i, j int64) (out []*psa.State) {
			for _, r := range call.Method(st, args[0], nil, "Swap", T0.Int(i), T0.Int(j)) {
				out = append(out, r.St)
			}
			return out
		}
	case "sort.Slice", "sort.SliceStable":
		less = func(st *psa.State, i, j int64) []psa.Ret { return call.Do(st, args[1], T0.Int(i), T0.Int(j)) }
		swap = inPlace(v)
	case "sort.Strings":
		less = func(st *psa.State, i, j int64) []psa.Ret {
			a, b := elem(st, v, i), elem(st, v, j)
			if a == nil || b == nil {
				return nil
			}
			return []psa.Ret{{St: st, Kind: "ret", Val: T0.Cmp(token.LSS, a, b)}}
		}
		swap = inPlace(v)
	default:
		return nil
	}
	l := in.Resolve(st, v)
	if l.Op != "list" || len(l.Args) > 8 {
		return nil
	}
	if name == "sort.Strings" {
		unknown := 0
		for _, e := range l.Args {
			if !st.Norm(e).IsConst() {
				unknown++
			}
		}
		if unknown > 3 {
			return nil
		}
	}
	n := int64(len(l.Args))
	failed := false
	var outs []psa.Ret
	var insert func(st *psa.State, i, j int64)
	insert = func(st *psa.State, i, j int64) {
		switch {
		case failed:
			return
		case i >= n:
			outs = append(outs, done(st))
			return
		case j == 0:
			insert(st, i+1, i+1)
			return
		}
		rs := less(st, j, j-1)
		if rs == nil {
			failed = true
			return
		}
		for _, r := range rs {
			if r.Kind != "ret" {
				outs = append(outs, r)
				continue
			}
			yes, no := r.St, r.St.Clone()
			if yes.Assume(r.Val, true) {
				for _, s := range swap(yes, j, j-1) {
					insert(s, i, j-1)
				}
			}
			if no.Assume(r.Val, false) {
				insert(no, i+1, i+1)
			}
		}
	}
	insert(st.Clone(), 1, 1)
	if failed || len(outs) == 0 {
		return nil
	}
	return outs
}
