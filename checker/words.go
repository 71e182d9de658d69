package main

import (
	"go/types"
	"strings"

	"oapiverif/psa"
)

// words models string functions on texts made of constants and of words:
// unknown texts which are not empty and have no white space in them.
type words struct {
	in *psa.Interp
	is map[*T]bool
}

func (w *words) word(st *psa.State, name string) *T {
	t := w.in.T.Sym(name, tString)
	w.is[t] = true
	st.Assume(w.in.T.Eq(t, w.in.T.Str("")), false)
	return t
}

// parts splits a text into its constants and words.
func (w *words) parts(t *T) ([]*T, bool) {
	ps := []*T{t}
	if t.Op == "concat" {
		ps = t.Args
	}
	for _, p := range ps {
		if _, ok := p.ConstString(); !ok && !w.is[p] {
			return nil, false
		}
	}
	return ps, true
}

func (w *words) join(ps []*T) *T {
	r := w.in.T.Str("")
	for _, p := range ps {
		r = w.in.T.Concat(r, p)
	}
	return r
}

// trim removes characters of the set from the sides.
func (w *words) trim(ps []*T, set string, left, right bool) []*T {
	ps = append([]*T(nil), ps...)
	for left && len(ps) > 0 {
		s, ok := ps[0].ConstString()
		if !ok {
			break
		}
		if s = strings.TrimLeft(s, set); s != "" {
			ps[0] = w.in.T.Str(s)
			break
		}
		ps = ps[1:]
	}
	for right && len(ps) > 0 {
		s, ok := ps[len(ps)-1].ConstString()
		if !ok {
			break
		}
		if s = strings.TrimRight(s, set); s != "" {
			ps[len(ps)-1] = w.in.T.Str(s)
			break
		}
		ps = ps[:len(ps)-1]
	}
	return ps
}

// split splits at a white space separator.
func (w *words) split(ps []*T, sep string, n int) []*T {
	var out []*T
	cur := w.in.T.Str("")
	for _, p := range ps {
		s, ok := p.ConstString()
		if !ok {
			cur = w.in.T.Concat(cur, p)
			continue
		}
		for {
			i := strings.Index(s, sep)
			if i < 0 || n > 0 && len(out) == n-1 {
				break
			}
			out = append(out, w.in.T.Concat(cur, w.in.T.Str(s[:i])))
			cur, s = w.in.T.Str(""), s[i+len(sep):]
		}
		cur = w.in.T.Concat(cur, w.in.T.Str(s))
	}
	return append(out, cur)
}

var (
	tString = types.Typ[types.String]
	tBool   = types.Typ[types.Bool]
	tInt    = types.Typ[types.Int]
)

const blanks = " \t\n\r\v\f"

func (w *words) model(st *psa.State, name string, args []*T, call *psa.Call) []psa.Ret {
	if !strings.HasPrefix(name, "strings.") || len(args) == 0 {
		return nil
	}
	T := w.in.T
	ret := func(v *T0) []psa.Ret { return []psa.Ret{{St: st, Kind: "ret", Val: v}} }
	ps, ok := w.parts(st.Norm(args[0]))
	if !ok {
		return nil
	}
	arg := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		a := st.Norm(args[i])
		if n, ok := a.ConstInt(); ok && n > 0 && n < 128 {
			return string(rune(n)), true
		}
		return a.ConstString()
	}
	b, bok := arg(1)
	blank := bok && b != "" && strings.Trim(b, blanks) == ""
	list := func(ts []*T0) []psa.Ret { return ret(T.Mk("list", nil, call.Typ, ts...)) }
	switch strings.TrimPrefix(name, "strings.") {
	case "TrimSpace":
		return ret(w.join(w.trim(ps, blanks, true, true)))
	case "Trim":
		if blank {
			return ret(w.join(w.trim(ps, b, true, true)))
		}
	case "TrimLeft":
		if blank {
			return ret(w.join(w.trim(ps, b, true, false)))
		}
	case "TrimRight":
		if blank {
			return ret(w.join(w.trim(ps, b, false, true)))
		}
	case "Split":
		if blank {
			return list(w.split(ps, b, -1))
		}
	case "SplitN":
		if n, ok := st.Norm(args[2]).ConstInt(); ok && blank && n != 0 {
			return list(w.split(ps, b, int(n)))
		}
	case "Cut":
		if blank {
			ss := w.split(ps, b, 2)
			if len(ss) == 1 {
				ss = append(ss, T.Str(""))
			}
			return ret(T.Mk("agg", nil, call.Typ, ss[0], ss[1], T.Bool(len(w.split(ps, b, 2)) == 2)))
		}
	case "Fields":
		var qs, out []*T0
		for _, p := range ps {
			if s, ok := p.ConstString(); ok {
				p = T.Str(strings.Map(func(r rune) rune {
					if strings.ContainsRune(blanks, r) {
						return ' '
					}
					return r
				}, s))
			}
			qs = append(qs, p)
		}
		for _, f := range w.split(qs, " ", -1) {
			if s, ok := f.ConstString(); !ok || s != "" {
				out = append(out, f)
			}
		}
		return list(out)
	case "ContainsRune", "ContainsAny", "Contains", "Index", "IndexByte", "IndexRune":
		if !bok || len(ps) != 1 || !w.is[ps[0]] || strings.HasSuffix(name, "ContainsAny") && len(b) != 1 {
			return nil
		}
		if strings.Trim(b, blanks) != b {
			if strings.Contains(name, "Contains") {
				return ret(T.Bool(false))
			}
			return ret(T.Int(-1))
		}
		has := T.Call("strings.Contains", tBool, ps[0], T.Str(b))
		if strings.Contains(name, "Contains") {
			return ret(has)
		}
		no := st.Clone()
		var out []psa.Ret
		if st.Assume(has, true) {
			i := T.Sym("index of "+b+" in "+ps[0].String(), tInt)
			st.Assume(T.Mk("lt", nil, tBool, i, T.Int(0)), false)
			out = append(out, psa.Ret{St: st, Kind: "ret", Val: i})
		}
		if no.Assume(has, false) {
			out = append(out, psa.Ret{St: no, Kind: "ret", Val: T.Int(-1)})
		}
		return out
	}
	return nil
}
