// Package psa is a path-sensitive abstract interpreter over Go SSA.
//
// It works on the compiler's intermediate representation only: nothing of the
// analysed program is executed and no solver is involved.  Values are
// hash-consed provenance terms (constants, parameters, results of opaque
// calls, fields of them, ...), branch conditions are decided from finite facts
// (known constant, nil / not nil, dynamic type, boolean atoms), callees with a
// body are interpreted in the context of their caller, and loops whose bounds
// are not literal are widened: everything a loop body changes is replaced by a
// fresh summary value before the body is interpreted once, for an arbitrary
// iteration.
package psa

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an interned abstract value.
type Term struct {
	ID   int
	Op   string
	Aux  interface{}
	Typ  types.Type
	Args []*Term
}

type termKey struct {
	op   string
	aux  interface{}
	typ  string
	args string
}

// Interner hash-conses terms.
type Interner struct {
	tab   map[termKey]*Term
	all   []*Term
	types map[types.Type]string
}

func newInterner() *Interner {
	return &Interner{tab: map[termKey]*Term{}, types: map[types.Type]string{}}
}

func (in *Interner) typeStr(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := in.types[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	in.types[t] = s
	return s
}

func (in *Interner) mk(op string, aux interface{}, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	for _, a := range args {
		if a == nil {
			sb.WriteString("_,")
			continue
		}
		sb.WriteString(strconv.Itoa(a.ID))
		sb.WriteByte(',')
	}
	k := termKey{op: op, aux: aux, args: sb.String()}
	switch op {
	case "const", "nil", "zero", "iface", "is", "conv", "make":
		k.typ = in.typeStr(typ)
	}
	if t, ok := in.tab[k]; ok {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	t := &Term{ID: len(in.all), Op: op, Aux: aux, Typ: typ, Args: append([]*Term(nil), args...)}
	in.all = append(in.all, t)
	in.tab[k] = t
	return t
}

// CallAux identifies an opaque call occurrence.
type CallAux struct {
	Name string // full name of the callee, "dyn" for unknown function values
	Site int    // 0 for pure functions
	N    int
}

// LoopAux identifies a value summarised at a loop header.
type LoopAux struct {
	What string
	Site int
	Path string
}

// IsConst reports a constant.
func (t *Term) IsConst() bool { return t != nil && t.Op == "const" }

// ConstString returns the string constant.
func (t *Term) ConstString() (string, bool) {
	if t == nil || t.Op != "const" {
		return "", false
	}
	v, ok := t.Aux.(string)
	if !ok || !strings.HasPrefix(v, "s:") {
		return "", false
	}
	return v[2:], true
}

// ConstInt returns the integer constant.
func (t *Term) ConstInt() (int64, bool) {
	if t == nil || t.Op != "const" {
		return 0, false
	}
	v, ok := t.Aux.(string)
	if !ok || !strings.HasPrefix(v, "i:") {
		return 0, false
	}
	n, err := strconv.ParseInt(v[2:], 10, 64)
	return n, err == nil
}

// ConstBool returns the boolean constant.
func (t *Term) ConstBool() (val, ok bool) {
	if t == nil || t.Op != "const" {
		return false, false
	}
	switch t.Aux {
	case "b:true":
		return true, true
	case "b:false":
		return false, true
	}
	return false, false
}

// Callee returns the name of an opaque call.
func (t *Term) Callee() string {
	if t == nil || t.Op != "call" {
		return ""
	}
	return t.Aux.(CallAux).Name
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	args := func() string {
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, a.str(d-1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.Op {
	case "const":
		s := t.Aux.(string)
		if strings.HasPrefix(s, "s:") {
			return strconv.Quote(s[2:])
		}
		return s[2:]
	case "nil":
		return "nil"
	case "zero":
		return "zero(" + types.TypeString(t.Typ, qual) + ")"
	case "param", "sym", "free":
		return fmt.Sprint(t.Aux)
	case "call":
		a := t.Aux.(CallAux)
		return short(a.Name) + "(" + args() + ")"
	case "extract":
		return t.Args[0].str(d-1) + "#" + fmt.Sprint(t.Aux)
	case "field":
		return t.Args[0].str(d-1) + "." + fieldName(t)
	case "addr":
		return "&" + t.Args[0].str(d-1) + fmt.Sprint(t.Aux)
	case "alloc":
		return "new@" + fmt.Sprint(t.Aux)
	case "fn":
		return t.Aux.(*ssa.Function).Name()
	case "iface":
		return t.Args[0].str(d)
	case "deref":
		return "*" + t.Args[0].str(d-1)
	case "loopphi", "loopmem":
		a := t.Aux.(LoopAux)
		return "loop:" + a.What + a.Path
	case "list":
		return "[" + args() + "]"
	case "agg":
		return "{" + args() + "}"
	}
	s := t.Op
	if t.Aux != nil {
		s += ":" + fmt.Sprint(t.Aux)
	}
	return s + "(" + args() + ")"
}

func fieldName(t *Term) string {
	i, _ := t.Aux.(int)
	if st, ok := under(t.Args[0].Typ).(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return fmt.Sprint(t.Aux)
}

func qual(p *types.Package) string { return p.Name() }

func short(n string) string {
	i := strings.LastIndex(n, "/")
	if i < 0 {
		return n
	}
	pre := ""
	if strings.HasPrefix(n, "(*") {
		pre = "(*"
	} else if strings.HasPrefix(n, "(") {
		pre = "("
	}
	return pre + n[i+1:]
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// ---- constructors ----

func (in *Interner) Str(s string) *Term {
	return in.mk("const", "s:"+s, types.Typ[types.String])
}
func (in *Interner) Int(n int64) *Term {
	return in.mk("const", "i:"+strconv.FormatInt(n, 10), types.Typ[types.Int])
}
func (in *Interner) Bool(b bool) *Term {
	return in.mk("const", "b:"+strconv.FormatBool(b), types.Typ[types.Bool])
}
func (in *Interner) Nil() *Term { return in.mk("nil", nil, nil) }

// Sym makes a named symbolic value.
func (in *Interner) Sym(name string, typ types.Type) *Term { return in.mk("sym", name, typ) }

// Const converts an SSA constant.  Equal values of different named types are
// the same term: conversions between them do not change the value.
func (in *Interner) Const(c *ssa.Const) *Term {
	if c.Value == nil {
		return in.zeroOf(c.Type())
	}
	return in.constVal(c.Value, c.Type())
}

func (in *Interner) constVal(v constant.Value, typ types.Type) *Term {
	switch v.Kind() {
	case constant.Bool:
		return in.Bool(constant.BoolVal(v))
	case constant.String:
		return in.Str(constant.StringVal(v))
	}
	b, _ := under(typ).(*types.Basic)
	if b != nil && b.Info()&types.IsInteger != 0 {
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			return in.mk("const", "i:"+i.ExactString(), types.Typ[types.Int])
		}
	}
	return in.mk("const", "f:"+v.ExactString(), types.Typ[types.Float64])
}

func (in *Interner) zeroOf(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.Bool(false)
		case u.Info()&types.IsString != 0:
			return in.Str("")
		case u.Info()&types.IsInteger != 0:
			return in.Int(0)
		case u.Info()&types.IsNumeric != 0:
			return in.mk("const", "f:0", types.Typ[types.Float64])
		}
		return in.Nil()
	case *types.Struct, *types.Array:
		return in.mk("zero", nil, t)
	case *types.Tuple:
		var args []*Term
		for i := 0; i < u.Len(); i++ {
			args = append(args, in.zeroOf(u.At(i).Type()))
		}
		return in.mk("agg", nil, t, args...)
	}
	return in.Nil()
}

// Field projects field i of struct value v.
func (in *Interner) Field(v *Term, i int, typ types.Type) *Term {
	switch v.Op {
	case "agg":
		if i < len(v.Args) {
			return v.Args[i]
		}
	case "zero":
		return in.zeroOf(typ)
	}
	return in.mk("field", i, typ, v)
}

// Elem projects element idx of array/slice value v.
func (in *Interner) Elem(v, idx *Term, typ types.Type) *Term {
	if n, ok := idx.ConstInt(); ok {
		switch v.Op {
		case "list", "agg":
			if int(n) < len(v.Args) && n >= 0 {
				return v.Args[n]
			}
		case "zero":
			return in.zeroOf(typ)
		}
	}
	if v.Op == "zero" {
		return in.zeroOf(typ)
	}
	if v.Op == "cat" {
		if n, ok := idx.ConstInt(); ok && n >= 0 {
			if f := v.Args[0]; f.Op == "list" && int(n) < len(f.Args) {
				return f.Args[n]
			}
		}
		if k, ok := in.fromEnd(v, idx); ok {
			if l := v.Args[len(v.Args)-1]; l.Op == "list" && k >= 1 && k <= len(l.Args) {
				return l.Args[len(l.Args)-k]
			}
		}
	}
	return in.mk("elem", nil, typ, v, idx)
}

// fromEnd recognises the index len(v)-k.
func (in *Interner) fromEnd(v, idx *Term) (int, bool) {
	if idx.Op == "bin" && idx.Aux == "-" && idx.Args[0] == in.Len(v) {
		if k, ok := idx.Args[1].ConstInt(); ok {
			return int(k), true
		}
	}
	return 0, false
}

// dropEnd removes the last k elements of a concatenation.
func (in *Interner) dropEnd(v *Term, k int) *Term {
	if v.Op != "cat" {
		return nil
	}
	l := v.Args[len(v.Args)-1]
	if l.Op != "list" || k > len(l.Args) || k < 0 {
		return nil
	}
	segs := append([]*Term(nil), v.Args[:len(v.Args)-1]...)
	segs = append(segs, in.mk("list", nil, l.Typ, l.Args[:len(l.Args)-k]...))
	return in.Cat(v.Typ, segs...)
}

func segsOf(t *Term) []*Term {
	if t.Op == "concat" {
		return t.Args
	}
	return []*Term{t}
}

// tail splits a string into the part before its last constant segment and that
// segment.
func (in *Interner) tail(t *Term) (*Term, string, bool) {
	if t.Op != "concat" {
		return nil, "", false
	}
	s, ok := t.Args[len(t.Args)-1].ConstString()
	if !ok {
		return nil, "", false
	}
	return in.join(t.Args[:len(t.Args)-1]), s, true
}

func (in *Interner) join(ts []*Term) *Term {
	r := in.Str("")
	for _, t := range ts {
		r = in.Concat(r, t)
	}
	return r
}

// after returns what follows prefix p in string v.
func (in *Interner) after(v, p *Term) (*Term, bool) {
	vs, ps := segsOf(v), segsOf(p)
	if len(ps) > len(vs) {
		return nil, false
	}
	for i, x := range ps {
		if vs[i] == x {
			continue
		}
		a, ok1 := vs[i].ConstString()
		b, ok2 := x.ConstString()
		if ok1 && ok2 && i == len(ps)-1 && strings.HasPrefix(a, b) {
			return in.Concat(in.Str(a[len(b):]), in.join(vs[i+1:])), true
		}
		return nil, false
	}
	return in.join(vs[len(ps):]), true
}

// cutAt splits string v at a position given as a constant, as the length of a
// prefix of v or as such a length plus or minus a constant.
func (in *Interner) cutAt(v, pos *Term) (before, after *Term, ok bool) {
	segs := segsOf(v)
	left := in.Str("")
	k := int64(0)
	l := pos
	if l.Op == "bin" && (l.Aux == "+" || l.Aux == "-") {
		if n, isC := l.Args[1].ConstInt(); isC {
			k = n
			if l.Aux == "-" {
				k = -n
			}
			l = l.Args[0]
		} else {
			return nil, nil, false
		}
	}
	right := v
	if n, isC := l.ConstInt(); isC {
		k += n
	} else if l.Op == "len" {
		r, isP := in.after(v, l.Args[0])
		if !isP {
			return nil, nil, false
		}
		left, right = l.Args[0], r
	} else {
		return nil, nil, false
	}
	switch {
	case k == 0:
		return left, right, true
	case k > 0:
		segs = segsOf(right)
		s, isC := segs[0].ConstString()
		if !isC || int64(len(s)) < k {
			return nil, nil, false
		}
		return in.Concat(left, in.Str(s[:k])), in.Concat(in.Str(s[k:]), in.join(segs[1:])), true
	}
	segs = segsOf(left)
	s, isC := segs[len(segs)-1].ConstString()
	if !isC || int64(len(s)) < -k {
		return nil, nil, false
	}
	n := len(s) + int(k)
	return in.Concat(in.join(segs[:len(segs)-1]), in.Str(s[:n])), in.Concat(in.Str(s[n:]), right), true
}

// StrIndex is byte pos of string v, if it is known.
func (in *Interner) StrIndex(v, pos *Term) *Term {
	if _, r, ok := in.cutAt(v, pos); ok {
		if s, isC := segsOf(r)[0].ConstString(); isC && len(s) > 0 {
			return in.Int(int64(s[0]))
		}
	}
	return nil
}

// Extract projects a tuple.
func (in *Interner) Extract(v *Term, i int, typ types.Type) *Term {
	if v.Op == "agg" && i < len(v.Args) {
		return v.Args[i]
	}
	return in.mk("extract", i, typ, v)
}

// Not negates a condition.
func (in *Interner) Not(t *Term) *Term {
	if b, ok := t.ConstBool(); ok {
		return in.Bool(!b)
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return in.mk("not", nil, types.Typ[types.Bool], t)
}

func stripIface(t *Term) *Term {
	for t != nil && t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// catStr is the text of the given parts, one after the other.
func (in *Interner) catStr(xs []*Term) *Term {
	t := in.Str("")
	for _, x := range xs {
		t = in.Concat(t, x)
	}
	return t
}

// Eq builds a canonical equality.
func (in *Interner) Eq(a, b *Term) *Term {
	if a == b {
		return in.Bool(true)
	}
	// len(x) == 0 for strings is x == ""
	a, b = in.canonLen(a, b)
	b, a = in.canonLen(b, a)
	if a == b {
		return in.Bool(true)
	}
	if a.IsConst() && b.IsConst() {
		return in.Bool(a == b)
	}
	if isObj := func(t *Term) bool { return t.Op == "alloc" || t.Op == "global" }; isObj(a) && isObj(b) {
		return in.Bool(false)
	}
	if a.Op == "iface" && b.Op == "iface" && a.Typ != nil && b.Typ != nil {
		if !types.Identical(a.Typ, b.Typ) {
			return in.Bool(false)
		}
		if types.Comparable(a.Typ) && !types.IsInterface(a.Typ) {
			return in.Eq(a.Args[0], b.Args[0])
		}
	}
	if a.Op == "iface" && b.Op == "nil" || b.Op == "iface" && a.Op == "nil" {
		return in.Bool(false)
	}
	if a.IsConst() || a.Op == "nil" || (b.ID < a.ID && !b.IsConst() && b.Op != "nil") {
		a, b = b, a
	}
	if bv, ok := b.ConstBool(); ok {
		if bv {
			return a
		}
		return in.Not(a)
	}
	if b.Op == "nil" && in.structNonNil(a) {
		return in.Bool(false)
	}
	// x[0] == 'c' asks how x begins
	if a.Op == "elem" && isText(a.Args[0]) {
		if n, ok := a.Args[1].ConstInt(); ok && n == 0 {
			if ch, ok := b.ConstInt(); ok && ch >= 0 && ch < 128 {
				return in.Call("strings.HasPrefix", types.Typ[types.Bool], a.Args[0], in.Str(string(rune(ch))))
			}
		}
	}
	if str, ok := b.ConstString(); ok {
		// a text is empty as soon as it is with all of its ~ written ~0
		if a.Op == "replace" && str == "" {
			if parts := strings.SplitN(a.Aux.(string), "\x00", 2); len(parts) == 2 && parts[0] != "" && parts[1] != "" {
				return in.Eq(a.Args[0], b)
			}
		}
		if a.Op == "concat" && str == "" {
			for _, x := range a.Args {
				if p, ok := x.ConstString(); ok && p != "" {
					return in.Bool(false)
				}
			}
		}
		// "x" + … == "x…" is decided by what follows
		if a.Op == "concat" && len(a.Args) > 1 {
			n := len(a.Args) - 1
			if p, ok := a.Args[0].ConstString(); ok {
				if !strings.HasPrefix(str, p) {
					return in.Bool(false)
				}
				return in.Eq(in.catStr(a.Args[1:]), in.Str(str[len(p):]))
			}
			if p, ok := a.Args[n].ConstString(); ok {
				if !strings.HasSuffix(str, p) {
					return in.Bool(false)
				}
				return in.Eq(in.catStr(a.Args[:n]), in.Str(str[:len(str)-len(p)]))
			}
		}
	}
	return in.mk("eq", nil, types.Typ[types.Bool], a, b)
}

// isText decides whether a term stands for a text.
func isText(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (in *Interner) canonLen(a, b *Term) (*Term, *Term) {
	if a.Op == "len" {
		if n, ok := b.ConstInt(); ok && n == 0 {
			if bt, ok := under(a.Args[0].Typ).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				return a.Args[0], in.Str("")
			}
		}
	}
	return a, b
}

// structNonNil reports values which are never nil by construction.
func (in *Interner) structNonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "addr", "closure", "fn", "iface", "make", "global", "slice", "cat":
		return true
	case "list":
		return len(t.Args) > 0
	case "call":
		switch t.Callee() {
		case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf",
			"fmt.Sprintf", "fmt.Sprint", "strings.Join", "net/url.ParseQuery", "bytes.NewBuffer", "bytes.NewBufferString", "bytes.NewReader",
			"regexp.MustCompile", "reflect.TypeOf", "strings.NewReplacer", "context.Background":
			return true
		}
	case "conv":
		return in.structNonNil(t.Args[0])
	}
	return false
}

// Cmp builds an ordering a < b (op LSS) etc. in canonical form.
func (in *Interner) Cmp(op token.Token, a, b *Term) *Term {
	switch op {
	case token.GTR:
		return in.Cmp(token.LSS, b, a)
	case token.GEQ:
		return in.Not(in.Cmp(token.LSS, a, b))
	case token.LEQ:
		return in.Not(in.Cmp(token.LSS, b, a))
	}
	if x, ok := a.ConstInt(); ok {
		if y, ok := b.ConstInt(); ok {
			return in.Bool(x < y)
		}
		// 0 < len(x)  <=>  !(len(x) == 0) ; c < x <=> !(x < c+1)
		if b.Op == "len" && x == 0 {
			return in.Not(in.Eq(b, in.Int(0)))
		}
		if b.Op == "len" && x < 0 {
			return in.Bool(true)
		}
		if isInt(b.Typ) {
			return in.Not(in.Cmp(token.LSS, b, in.Int(x+1)))
		}
	}
	if y, ok := b.ConstInt(); ok && a.Op == "len" {
		if y == 1 {
			return in.Eq(a, in.Int(0))
		}
		if y <= 0 {
			return in.Bool(false)
		}
	}
	if x, ok := a.ConstString(); ok {
		if y, ok := b.ConstString(); ok {
			return in.Bool(x < y)
		}
	}
	if a == b {
		return in.Bool(false)
	}
	return in.mk("lt", nil, types.Typ[types.Bool], a, b)
}

func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// Len builds the length of v.
func (in *Interner) Len(v *Term) *Term {
	switch v.Op {
	case "nil":
		return in.Int(0)
	case "list":
		return in.Int(int64(len(v.Args)))
	case "const":
		if s, ok := v.ConstString(); ok {
			return in.Int(int64(len(s)))
		}
	case "slice":
		return v.Args[1]
	case "cat":
		n := int64(0)
		for _, a := range v.Args {
			if a.Op != "list" {
				return in.mk("len", nil, types.Typ[types.Int], v)
			}
			n += int64(len(a.Args))
		}
		return in.Int(n)
	}
	return in.mk("len", nil, types.Typ[types.Int], v)
}

// Cat concatenates slice values into canonical segments.
func (in *Interner) Cat(typ types.Type, segs ...*Term) *Term {
	var out []*Term
	var push func(t *Term)
	push = func(t *Term) {
		switch {
		case t.Op == "nil":
		case t.Op == "cat":
			for _, a := range t.Args {
				push(a)
			}
		case t.Op == "list":
			if len(t.Args) == 0 {
				return
			}
			if n := len(out); n > 0 && out[n-1].Op == "list" {
				out[n-1] = in.mk("list", nil, typ, append(append([]*Term(nil), out[n-1].Args...), t.Args...)...)
				return
			}
			out = append(out, t)
		default:
			out = append(out, t)
		}
	}
	for _, s := range segs {
		push(s)
	}
	switch len(out) {
	case 0:
		return in.Nil()
	case 1:
		return out[0]
	}
	return in.mk("cat", nil, typ, out...)
}

// Concat concatenates strings.
func (in *Interner) Concat(a, b *Term) *Term {
	var segs []*Term
	add := func(t *Term) {
		ts := []*Term{t}
		if t.Op == "concat" {
			ts = t.Args
		}
		for _, x := range ts {
			if s, ok := x.ConstString(); ok {
				if s == "" {
					continue
				}
				if n := len(segs); n > 0 {
					if p, ok := segs[n-1].ConstString(); ok {
						segs[n-1] = in.Str(p + s)
						continue
					}
				}
			}
			segs = append(segs, x)
		}
	}
	add(a)
	add(b)
	switch len(segs) {
	case 0:
		return in.Str("")
	case 1:
		return segs[0]
	}
	return in.mk("concat", nil, types.Typ[types.String], segs...)
}

// Walk visits t and its subterms once.
func Walk(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
}

// Contains reports whether x is a subterm of t.
func Contains(t, x *Term) bool {
	found := false
	Walk(t, func(s *Term) bool {
		if s == x {
			found = true
		}
		return !found
	})
	return found
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// Mk builds a term, for callers outside of the package.
func (in *Interner) Mk(op string, aux interface{}, typ types.Type, args ...*Term) *Term {
	return in.mk(op, aux, typ, args...)
}

// Zero is the zero value of a type.
func (in *Interner) Zero(t types.Type) *Term { return in.zeroOf(t) }

// Call builds the term of a pure call.
func (in *Interner) Call(name string, typ types.Type, args ...*Term) *Term {
	return in.mk("call", CallAux{Name: name}, typ, args...)
}
