package main

import (
	"go/types"
	"regexp/syntax"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

// linear is a sum of integer terms with coefficients, and a constant.
type linear struct {
	k int64
	c map[*T]int64
}

func (l *linear) add(m *linear, f int64) *linear {
	out := &linear{l.k + f*m.k, map[*T]int64{}}
	for t, n := range l.c {
		out.c[t] = n
	}
	for t, n := range m.c {
		if out.c[t] += f * n; out.c[t] == 0 {
			delete(out.c, t)
		}
	}
	return out
}

// bounds proves inequalities between the integers of a path.
type bounds struct {
	in    *psa.Interp
	st    *psa.State
	facts []*linear // each at least 0
	busy  map[*T]bool
}

func newBounds(in *psa.Interp, st *psa.State) *bounds {
	b := &bounds{in: in, st: st, busy: map[*T]bool{}}
	for f, v := range st.FactTerms() {
		yes, isB := v.ConstBool()
		if !isB {
			continue
		}
		switch {
		case f.Op == "lt":
			x, y := b.linear(f.Args[0]), b.linear(f.Args[1])
			if t := f.Args[0].Typ; t != nil && !isIntT(t) {
				continue
			}
			if yes {
				b.fact(y.add(x, -1), -1)
			} else {
				b.fact(x.add(y, -1), 0)
			}
		case f.Op == "eq" && yes:
			if t := f.Args[0].Typ; t != nil && isIntT(t) {
				x, y := b.linear(f.Args[0]), b.linear(f.Args[1])
				b.fact(x.add(y, -1), 0)
				b.fact(y.add(x, -1), 0)
			}
		case yes:
			if cl, _ := callOf(f); cl != nil && len(cl.Args) == 2 {
				switch cl.Callee() {
				case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
					b.fact(b.length(cl.Args[0]).add(b.length(cl.Args[1]), -1), 0)
				}
			}
		}
	}
	return b
}

func (b *bounds) fact(l *linear, k int64) {
	l.k += k
	b.facts = append(b.facts, l)
}

func isIntT(t types.Type) bool {
	x, ok := t.Underlying().(*types.Basic)
	return ok && x.Info()&types.IsInteger != 0
}

func (b *bounds) linear(t *T) *linear {
	if t == nil {
		return &linear{0, map[*T]int64{}}
	}
	t = b.st.Norm(t)
	if n, ok := t.ConstInt(); ok {
		return &linear{n, map[*T]int64{}}
	}
	switch t.Op {
	case "bin":
		switch t.Aux {
		case "+":
			return b.linear(t.Args[0]).add(b.linear(t.Args[1]), 1)
		case "-":
			return b.linear(t.Args[0]).add(b.linear(t.Args[1]), -1)
		case "*":
			x, y := b.linear(t.Args[0]), b.linear(t.Args[1])
			if len(x.c) == 0 {
				return (&linear{0, map[*T]int64{}}).add(y, x.k)
			}
			if len(y.c) == 0 {
				return (&linear{0, map[*T]int64{}}).add(x, y.k)
			}
		}
	case "conv":
		if t.Typ != nil && isIntT(t.Typ) && t.Args[0].Typ != nil && isIntT(t.Args[0].Typ) {
			from, to := t.Args[0].Typ.Underlying().(*types.Basic), t.Typ.Underlying().(*types.Basic)
			if from.Info()&types.IsUnsigned == to.Info()&types.IsUnsigned && to.Kind() == types.Int {
				return b.linear(t.Args[0])
			}
			if n, ok := b.st.Norm(t.Args[0]).ConstInt(); ok && n >= 0 {
				return &linear{n, map[*T]int64{}}
			}
		}
	case "len":
		return b.length(t.Args[0])
	}
	return &linear{0, map[*T]int64{t: 1}}
}

// length is the length of a text or list.
func (b *bounds) length(v *T) *linear {
	v = b.st.Norm(v)
	T := b.in.T
	atom := func(t *psa.Term) *linear {
		l := T.Len(t)
		if n, ok := b.st.Norm(l).ConstInt(); ok {
			return &linear{n, map[*psa.Term]int64{}}
		}
		return &linear{0, map[*psa.Term]int64{l: 1}}
	}
	if b.busy[v] {
		return atom(v)
	}
	b.busy[v] = true
	defer delete(b.busy, v)
	switch v.Op {
	case "nil":
		return &linear{0, map[*psa.Term]int64{}}
	case "list":
		return &linear{int64(len(v.Args)), map[*psa.Term]int64{}}
	case "slice":
		return b.linear(v.Args[1])
	case "clip", "conv":
		if v.Op == "clip" || v.Typ != nil && !isBytes(v.Typ) || isBytes(v.Args[0].Typ) {
			return b.length(v.Args[0])
		}
		return b.length(v.Args[0]) // []byte(text) and back
	case "sub":
		var hi *linear
		if v.Args[2] == nil {
			hi = b.length(v.Args[0])
		} else {
			hi = b.linear(v.Args[2])
		}
		return hi.add(b.linear(v.Args[1]), -1)
	case "cat", "concat":
		out := &linear{0, map[*psa.Term]int64{}}
		for _, a := range v.Args {
			out = out.add(b.length(a), 1)
		}
		return out
	case "const":
		if s, ok := v.ConstString(); ok {
			return &linear{int64(len(s)), map[*psa.Term]int64{}}
		}
	}
	if cl, _ := callOf(v); cl != nil && len(cl.Args) == 1 {
		switch cl.Callee() {
		case "strings.ToLower", "strings.ToUpper":
			return b.length(cl.Args[0])
		}
	}
	return atom(v)
}

func isBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	e, ok := s.Elem().Underlying().(*types.Basic)
	return ok && e.Kind() == types.Uint8
}

// nonneg proves that l is at least 0.
func (b *bounds) nonneg(l *linear, depth int) bool {
	if len(l.c) == 0 {
		return l.k >= 0
	}
	if depth == 0 {
		return false
	}
	// the interval of every part
	sum, ok := l.k, true
	for t, n := range l.c {
		lo, hi := b.interval(t)
		if n > 0 && lo > -inf {
			sum += n * lo
		} else if n < 0 && hi < inf {
			sum += n * hi
		} else {
			ok = false
		}
	}
	if ok && sum >= 0 {
		return true
	}
	for t, n := range l.c {
		for _, f := range append(b.about(t), b.facts...) {
			m := f.c[t]
			if m == 0 || m > 0 != (n > 0) || n%m != 0 {
				continue
			}
			// l = (n/m) f + rest, and f is at least 0
			if b.nonneg(l.add(f, -n/m), depth-1) {
				return true
			}
		}
	}
	return false
}

const inf = int64(1) << 40

func (b *bounds) interval(t *T) (lo, hi int64) {
	lo, hi = -inf, inf
	if l, h, ok := b.st.Range(t); ok {
		lo, hi = l, h
	}
	if x, ok := typeOfT(t).(*types.Basic); ok && x.Info()&types.IsUnsigned != 0 && lo < 0 {
		lo = 0
	}
	if t.Op == "len" {
		if lo < 0 {
			lo = 0
		}
		if v := b.st.Norm(t.Args[0]); lo == 0 {
			if n := leastLen(b, v); n > 0 {
				lo = n
			}
			if v.Op == "elem" {
				if cl, i := callOf(b.st.Norm(v.Args[0])); cl != nil && i <= 0 && strings.HasPrefix(cl.Callee(), "(*regexp.Regexp).FindAll") && strings.HasSuffix(cl.Callee(), "Index") {
					lo = 2
				}
			}
		}
	}
	if cl, i := callOf(t); cl != nil && i <= 0 {
		switch cl.Callee() {
		case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexAny", "strings.IndexRune", "strings.IndexFunc":
			if lo < -1 {
				lo = -1
			}
		default: // lengths and counts
			n := cl.Callee()[strings.LastIndex(cl.Callee(), ".")+1:]
			if lo < 0 && (n == "Len" || n == "Count" || n == "Cap" || strings.HasPrefix(n, "Num")) {
				lo = 0
			}
		}
	}
	return
}

func typeOfT(t *T) types.Type {
	if t.Typ == nil {
		return nil
	}
	return t.Typ.Underlying()
}

// leastLen is the least length of what a library function makes.
func leastLen(b *bounds, v *T) int64 {
	if strings.HasSuffix(loaded(v), "go/ast.Comment.Text") {
		return 2 // they start with // or /*
	}
	if v.Op == "deref" {
		if g, ok := v.Args[0].Aux.(*ssa.Global); ok && g.RelString(nil) == "os.Args" {
			return 1
		}
	}
	if cl, i := callOf(v); cl != nil && i <= 0 {
		switch cl.Callee() {
		case "strings.Split", "strings.SplitAfter":
			if s, ok := b.st.Norm(cl.Args[1]).ConstString(); ok && s != "" {
				return 1
			}
		case "strings.SplitN":
			s, ok := b.st.Norm(cl.Args[1]).ConstString()
			n, ok2 := b.st.Norm(cl.Args[2]).ConstInt()
			if ok && ok2 && s != "" && n != 0 {
				return 1
			}
		}
	}
	return 0
}

// about are further inequalities about a value: how loops change it, and what
// library functions promise.
func (b *bounds) about(t *T) (out []*linear) {
	one := func() *linear { return &linear{0, map[*T]int64{t: 1}} }
	if (t.Op == "loopphi" || t.Op == "loopmem") && len(t.Args) > 0 && !b.busy[t] {
		b.busy[t] = true
		up, down := true, true
		for _, v := range b.in.BackOn(b.st, t) {
			d := b.linear(v).add(one(), -1)
			if d.c[t] != 0 {
				up, down = false, false
				continue
			}
			if !(len(d.c) == 0 && d.k >= 0) {
				up = false
			}
			if !(len(d.c) == 0 && d.k <= 0) {
				down = false
			}
		}
		delete(b.busy, t)
		if len(b.in.BackOn(b.st, t)) > 0 {
			out = append(out, b.counted(t)...)
			out = append(out, b.meets(t)...)
			out = append(out, b.chosen(t)...)
			first := b.linear(t.Args[0])
			if up {
				out = append(out, one().add(first, -1))
			}
			if down {
				out = append(out, first.add(one(), -1))
			}
		}
	}
	if (t.Op == "loopphi" || t.Op == "loopmem") && len(t.Args) > 0 && !b.busy[t] {
		b.busy[t] = true
		out = append(out, b.behind(t)...)
		delete(b.busy, t)
	}
	if m := matchOf(b, t); m != nil {
		out = append(out, one(), b.length(m.text).add(one(), -1))
		start, end := &linear{0, map[*T]int64{m.start: 1}}, &linear{0, map[*T]int64{m.end: 1}}
		d := end.add(start, -1)
		d.k -= m.least
		out = append(out, d)
		d = b.length(m.text).add(start, -1)
		d.k -= m.least
		out = append(out, d)
		d = end.add(&linear{m.least, nil}, -1)
		out = append(out, d)
	}
	if cl, i := callOf(t); cl != nil && i <= 0 && len(cl.Args) >= 2 {
		switch cl.Callee() {
		case "strings.Index", "strings.LastIndex": // found: the text fits behind it
			out = append(out, b.length(cl.Args[0]).add(one(), -1))
			if lo, _, ok := b.st.Range(t); ok && lo >= 0 {
				out = append(out, b.length(cl.Args[0]).add(one(), -1).add(b.length(cl.Args[1]), -1))
			}
		case "strings.IndexByte", "strings.LastIndexByte", "strings.IndexAny", "strings.IndexRune", "strings.IndexFunc":
			out = append(out, b.length(cl.Args[0]).add(one(), -1).add(&linear{1, nil}, -1))
		}
	}
	if t.Op == "len" {
		v := b.st.Norm(t.Args[0])
		if cl, i := callOf(v); cl != nil && i <= 0 && len(cl.Args) == 2 {
			switch cl.Callee() {
			case "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
				out = append(out, b.length(cl.Args[0]).add(one(), -1))
			}
		}
	}
	return
}

// chosen: what only ever becomes the counter of its loop is where that one has
// been.
func (b *bounds) chosen(t *T) (out []*linear) {
	one := &linear{0, map[*T]int64{t: 1}}
	var of *T
	for _, v := range b.in.BackOn(b.st, t) {
		v = b.st.Norm(v)
		if v == t {
			continue
		}
		if v.Op != "loopphi" || of != nil && of != v {
			return nil
		}
		of = v
	}
	if of == nil || b.busy[of] {
		return nil
	}
	first := b.linear(t.Args[0])
	b.busy[t] = true
	if b.nonneg(b.linear(of), 2) && b.nonneg(first, 2) {
		out = append(out, one)
	}
	delete(b.busy, t)
	for f, v := range b.st.FactTerms() {
		_ = v
		if f.Op != "lt" || f.Args[0] != of {
			continue
		}
		n := f.Args[1]
		yes := b.in.Always(b.st, t, f)
		if yes == nil || hasPart(n, func(x *T) bool { return x.Op == "loopphi" || x.Op == "loopmem" }) {
			continue
		}
		if is, ok := yes.ConstBool(); !ok || !is {
			continue
		}
		last := b.linear(n)
		last = last.add(&linear{1, nil}, -1)
		b.busy[t] = true
		if b.nonneg(last.add(first, -1), 3) {
			out = append(out, last.add(one, -1))
		}
		delete(b.busy, t)
	}
	return out
}

// meets: what goes up or down by one until it is equal to something does not
// get past it.
func (b *bounds) meets(t *T) (out []*linear) {
	one := &linear{0, map[*T]int64{t: 1}}
	step := int64(0)
	for _, v := range b.in.BackOn(b.st, t) {
		d := b.linear(v).add(one, -1)
		if len(d.c) != 0 || d.k != 1 && d.k != -1 || step != 0 && d.k != step {
			return nil
		}
		step = d.k
	}
	for f, v := range b.st.FactTerms() {
		if yes, ok := v.ConstBool(); !ok || yes || f.Op != "eq" || b.in.Always(b.st, t, f) != v {
			continue
		}
		for i, a := range f.Args {
			n := f.Args[1-i]
			if a != t || hasPart(n, func(x *T) bool { return x.Op == "loopphi" || x.Op == "loopmem" }) {
				continue
			}
			d := b.linear(n).add(b.linear(t.Args[0]), -1)
			if b.nonneg((&linear{}).add(d, step), 2) {
				left := (&linear{-1, nil}).add(b.linear(n).add(one, -1), step)
				out = append(out, left)
			}
		}
	}
	return
}

// hasPart reports a part of a term.
func hasPart(t *T, is func(*T) bool) bool {
	if t == nil {
		return false
	}
	if is(t) {
		return true
	}
	for _, a := range t.Args {
		if hasPart(a, is) {
			return true
		}
	}
	return false
}

// counted: what grows by at most one for every entry of a map stays below the
// number of its entries.
func (b *bounds) counted(t *T) []*linear {
	one := &linear{0, map[*T]int64{t: 1}}
	if n, ok := b.st.Norm(t.Args[0]).ConstInt(); !ok || n > 0 {
		return nil
	}
	for _, v := range b.in.BackOn(b.st, t) {
		if d := b.linear(v).add(one, -1); len(d.c) != 0 || d.k > 1 {
			return nil
		}
	}
	m, next := b.in.RangeOf(b.st, t)
	if m == nil {
		return nil
	}
	// as long as nothing is put into it meanwhile
	seen := map[*ssa.BasicBlock]bool{}
	var grows func(bl *ssa.BasicBlock) bool
	grows = func(bl *ssa.BasicBlock) bool {
		if seen[bl] || !next.Block().Dominates(bl) {
			return false
		}
		seen[bl] = true
		for _, ins := range bl.Instrs {
			if mu, ok := ins.(*ssa.MapUpdate); ok && types.Identical(mu.Map.Type(), m.Typ) {
				return true
			}
		}
		for _, s := range bl.Succs {
			if grows(s) {
				return true
			}
		}
		return false
	}
	if grows(next.Block()) {
		return nil
	}
	d := b.length(m).add(one, -1)
	d.k--
	return []*linear{d}
}

// match is the place of a regular expression in a text.
type match struct {
	all, at    *T // the places, and which of them
	text       *T
	least      int64
	start, end *T
}

// matchOf recognises the start or end of one of the matches of a regular
// expression.
func matchOf(b *bounds, t *T) *match {
	if t.Op != "elem" || t.Args[0].Op != "elem" {
		return nil
	}
	n, ok := b.st.Norm(t.Args[1]).ConstInt()
	all := b.st.Norm(t.Args[0].Args[0])
	cl, i := callOf(all)
	if !ok || n > 1 || n < 0 || cl == nil || i > 0 {
		return nil
	}
	switch cl.Callee() {
	case "(*regexp.Regexp).FindAllStringIndex", "(*regexp.Regexp).FindAllIndex":
	default:
		return nil
	}
	m := &match{all: all, at: t.Args[0].Args[1], text: b.st.Norm(cl.Args[1])}
	if mk, _ := callOf(b.st.Norm(cl.Args[0])); mk != nil && mk.Callee() == "regexp.MustCompile" {
		if s, ok := b.st.Norm(mk.Args[0]).ConstString(); ok {
			if re, err := syntax.Parse(s, syntax.Perl); err == nil {
				m.least = leastMatch(re)
			}
		}
	}
	m.start = b.st.Norm(b.in.T.Elem(t.Args[0], b.in.T.Int(0), t.Typ))
	m.end = b.st.Norm(b.in.T.Elem(t.Args[0], b.in.T.Int(1), t.Typ))
	return m
}

// leastMatch is the least number of bytes an expression matches.
func leastMatch(re *syntax.Regexp) int64 {
	sum := func() (n int64) {
		for _, s := range re.Sub {
			n += leastMatch(s)
		}
		return
	}
	switch re.Op {
	case syntax.OpLiteral:
		return int64(len(re.Rune))
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpConcat:
		return sum()
	case syntax.OpPlus:
		return leastMatch(re.Sub[0])
	case syntax.OpRepeat:
		return int64(re.Min) * leastMatch(re.Sub[0])
	case syntax.OpAlternate:
		least := int64(-1)
		for _, s := range re.Sub {
			if n := leastMatch(s); least < 0 || n < least {
				least = n
			}
		}
		if least > 0 {
			return least
		}
	}
	return 0
}

// behind: a variable which holds the end of the match before this one, or what
// it held at first, is not behind the start of this one.
func (b *bounds) behind(t *T) (out []*linear) {
	aux, ok := t.Aux.(psa.LoopAux)
	if n, isN := b.st.Norm(t.Args[0]).ConstInt(); !ok || !isN || n != 0 {
		return nil
	}
	var m *match
	for _, v := range b.in.BackOn(b.st, t) {
		v = b.st.Norm(v)
		if v == t {
			continue
		}
		n := matchOf(b, v)
		if n == nil || v != n.end || m != nil && (m.all != n.all || m.at != n.at) {
			return nil
		}
		m = n
	}
	if m == nil {
		return nil
	}
	one := &linear{0, map[*T]int64{t: 1}}
	out = append(out, one, b.length(m.text).add(one, -1))
	// the matches are visited in their order
	at := b.linear(m.at)
	for p, f := range at.c {
		a, ok := p.Aux.(psa.LoopAux)
		if f != 1 || len(at.c) != 1 || p.Op != "loopphi" || !ok || a.Site != aux.Site || len(b.in.BackOn(b.st, p)) == 0 {
			return out
		}
		for _, v := range b.in.BackOn(b.st, p) {
			d := b.linear(v).add(&linear{1, map[*T]int64{p: 1}}, -1)
			if len(d.c) != 0 || d.k < 0 {
				return out
			}
		}
		out = append(out, (&linear{0, map[*T]int64{m.start: 1}}).add(one, -1))
	}
	return out
}

// within proves 0 <= i and i + more <= length of v.
func (b *bounds) index(v, i *T) bool {
	l := b.linear(i)
	if !b.nonneg(l, 4) {
		return false
	}
	n := b.length(v)
	if p, ok := typeOfT(v).(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			n = &linear{a.Len(), map[*T]int64{}}
		}
	}
	if a, ok := typeOfT(v).(*types.Array); ok {
		n = &linear{a.Len(), map[*T]int64{}}
	}
	d := n.add(l, -1)
	d.k--
	return b.nonneg(d, 4)
}

func (b *bounds) slice(v, lo, hi *T) bool {
	n := b.length(v)
	if a, ok := typeOfT(v).(*types.Array); ok {
		n = &linear{a.Len(), map[*T]int64{}}
	}
	l, h := b.linear(lo), n
	if hi != nil {
		h = b.linear(hi)
		if !b.nonneg(n.add(h, -1), 4) { // capacities are not relied on
			return false
		}
	}
	return b.nonneg(l, 4) && b.nonneg(h.add(l, -1), 4)
}

// loaded names the field a value was read from, as go/ast.Comment.Text.
func loaded(v *T) string {
	if v.Op != "field" || len(v.Args) != 1 || v.Args[0].Typ == nil {
		return ""
	}
	t := v.Args[0].Typ
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	i, ok2 := v.Aux.(int)
	if !ok || !ok2 || i >= st.NumFields() {
		return ""
	}
	return types.TypeString(t, nil) + "." + st.Field(i).Name()
}
