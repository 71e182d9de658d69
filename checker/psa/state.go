package psa

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// PE is an element of an access path: a field or an index.
type PE struct {
	Field int // -1 for an index
	Idx   *Term
}

func peString(e PE) string {
	if e.Field >= 0 {
		return fmt.Sprintf(".%d", e.Field)
	}
	return fmt.Sprintf("[%d]", e.Idx.ID)
}

// Obj is the abstract content of a memory object; immutable once published.
type Obj struct {
	Base  *Term            // content where nothing was stored
	Over  map[string]*Term // stored values by path
	IsMap bool
	Keys  []*Term // map keys in order of insertion
}

func (o *Obj) clone() *Obj {
	n := &Obj{Base: o.Base, IsMap: o.IsMap, Over: make(map[string]*Term, len(o.Over)+1), Keys: append([]*Term(nil), o.Keys...)}
	for k, v := range o.Over {
		n.Over[k] = v
	}
	return n
}

// Event is something that happens along a path.
type Event struct {
	Kind   string // call, store, mapset, mapdel, loop, panic, go, defer, send, enter, leave
	Callee string
	Fn     *ssa.Function // static callee, if any
	Args   []*Term
	Res    *Term
	Instr  ssa.Instruction
	In     *ssa.Function
	Prev   *Event
	Depth  int
	Loops  int // number of enclosing widened loops at this point
}

// Arg returns argument i or nil.
func (e *Event) Arg(i int) *Term {
	if i < 0 || i >= len(e.Args) {
		return nil
	}
	return e.Args[i]
}

// State is the abstract machine state of one path.
type State struct {
	in      *Interp
	heap    map[*Term]*Obj
	facts   map[*Term]*Term // term -> known value (a constant, or nil)
	neq     map[*Term]map[*Term]bool
	kinds   map[*Term]types.Type // interface value -> dynamic type
	counts  map[int]int
	last    *Event
	loops   int
	entered *entry
}

func newState(in *Interp) *State {
	return &State{in: in, heap: map[*Term]*Obj{}, facts: map[*Term]*Term{}, neq: map[*Term]map[*Term]bool{}, kinds: map[*Term]types.Type{}, counts: map[int]int{}}
}

// Clone copies the state.
func (s *State) Clone() *State {
	n := &State{in: s.in, last: s.last, loops: s.loops, entered: s.entered,
		heap:   make(map[*Term]*Obj, len(s.heap)),
		facts:  make(map[*Term]*Term, len(s.facts)),
		neq:    make(map[*Term]map[*Term]bool, len(s.neq)),
		kinds:  make(map[*Term]types.Type, len(s.kinds)),
		counts: make(map[int]int, len(s.counts)),
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.neq {
		n.neq[k] = v
	}
	for k, v := range s.kinds {
		n.kinds[k] = v
	}
	for k, v := range s.counts {
		n.counts[k] = v
	}
	return n
}

func (s *State) emit(e *Event) *Event {
	e.Prev = s.last
	e.Loops = s.loops
	if s.in.Probe != nil {
		s.in.Probe(s, e)
	}
	s.last = e
	return e
}

// Events lists the events in order.
func (s *State) Events() []*Event {
	var out []*Event
	for e := s.last; e != nil; e = e.Prev {
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---- facts ----

// Norm replaces t by its known value, if there is one.
func (s *State) Norm(t *Term) *Term {
	if v, ok := s.facts[t]; ok {
		return v
	}
	return t
}

// ordered reports values of which one is before another or the same.
func ordered(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	b, ok := under(t.Typ).(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsString) != 0
}

// known is what the facts say of a condition without any thought.
func (s *State) known(c *Term) int {
	if c.Op == "not" {
		if v := s.known(c.Args[0]); v >= 0 {
			return 1 - v
		}
		return -1
	}
	if v, ok := s.facts[c]; ok {
		c = v
	}
	if b, ok := c.ConstBool(); ok {
		if b {
			return 1
		}
		return 0
	}
	return -1
}

// before is what the facts say of a < b.
func (s *State) before(a, b *Term) int { return s.known(s.in.T.Cmp(40, a, b)) }

// Truth decides a condition: 1 true, 0 false, -1 unknown.
func (s *State) Truth(c *Term) int {
	if b, ok := c.ConstBool(); ok {
		if b {
			return 1
		}
		return 0
	}
	if v, ok := s.facts[c]; ok {
		if b, ok := v.ConstBool(); ok {
			if b {
				return 1
			}
			return 0
		}
	}
	switch c.Op {
	case "not":
		if v := s.Truth(c.Args[0]); v >= 0 {
			return 1 - v
		}
	case "eq":
		a, b := s.Norm(c.Args[0]), s.Norm(c.Args[1])
		if a != c.Args[0] || b != c.Args[1] {
			if v := s.Truth(s.in.T.Eq(a, b)); v >= 0 {
				return v
			}
		}
		if s.neq[a][b] || s.neq[b][a] {
			return 0
		}
		if ordered(a) && !a.IsConst() && !b.IsConst() {
			x, y := s.before(a, b), s.before(b, a)
			if x == 1 || y == 1 {
				return 0
			}
			if x == 0 && y == 0 {
				return 1
			}
		}
		if b.Op == "nil" {
			switch s.Nil(a) {
			case 1:
				return 1
			case 0:
				return 0
			}
		}
		if a.Op == "nil" {
			switch s.Nil(b) {
			case 1:
				return 1
			case 0:
				return 0
			}
		}
		// len(x) == 0 where x is known
		if a.Op == "len" {
			x := s.Norm(a.Args[0])
			if x != a.Args[0] {
				return s.Truth(s.in.T.Eq(s.in.T.Len(x), b))
			}
			if n, ok := b.ConstInt(); ok && n == 0 && catNonEmpty(x) {
				return 0
			}
		}
		// "x" + … == ""
		if str, ok := b.ConstString(); ok && a.Op == "concat" {
			if len(a.Args) > 0 {
				if p, ok := a.Args[0].ConstString(); ok && !strings.HasPrefix(str, p) {
					return 0
				}
				if p, ok := a.Args[len(a.Args)-1].ConstString(); ok && !strings.HasSuffix(str, p) {
					return 0
				}
			}
		}
	case "lt":
		a, b := s.Norm(c.Args[0]), s.Norm(c.Args[1])
		if a != c.Args[0] || b != c.Args[1] {
			n := s.in.T.Cmp(40, a, b) // token.LSS
			if n != c {
				return s.Truth(n)
			}
		}
		// one of three: before, the same, after
		if ordered(a) && !a.IsConst() && !b.IsConst() {
			switch s.before(b, a) {
			case 1:
				return 0
			case 0:
				switch s.Truth(s.in.T.Eq(a, b)) {
				case 0:
					return 1
				case 1:
					return 0
				}
			default:
				if s.known(s.in.T.Eq(a, b)) == 1 {
					return 0
				}
			}
		}
		// lengths: bounds known from other facts
		if lo, hi, ok := s.Range(a); ok {
			if lo2, hi2, ok2 := s.Range(b); ok2 {
				if hi < lo2 {
					return 1
				}
				if lo >= hi2 {
					return 0
				}
			}
		}
	case "is":
		x := c.Args[0]
		if x.Op == "iface" || x.Op == "nil" {
			return -1
		}
		if t, ok := s.kinds[x]; ok {
			if types.Identical(t, c.Typ) {
				return 1
			}
			if !types.IsInterface(c.Typ) {
				return 0
			}
			if types.Implements(t, under(c.Typ).(*types.Interface)) {
				return 1
			}
			return 0
		}
		if s.Nil(x) == 1 {
			return 0
		}
	}
	return -1
}

func catNonEmpty(x *Term) bool {
	switch x.Op {
	case "list":
		return len(x.Args) > 0
	case "cat":
		for _, a := range x.Args {
			if a.Op == "list" && len(a.Args) > 0 {
				return true
			}
		}
	}
	return false
}

const inf = int64(1) << 40

// Range bounds an integer term from constants and facts.
func (s *State) Range(t *Term) (lo, hi int64, ok bool) {
	lo, hi = -inf, inf
	if n, isC := t.ConstInt(); isC {
		return n, n, true
	}
	if t.Op == "len" {
		lo = 0
		for v := range s.neq[t] {
			if n, ok := v.ConstInt(); ok && n == 0 {
				lo = 1
			}
		}
		if v := s.Norm(t.Args[0]); v.Op == "concat" {
			n := int64(0)
			for _, p := range v.Args {
				if c, ok := p.ConstString(); ok {
					n += int64(len(c))
				}
			}
			if n > lo {
				lo = n
			}
		}
		if catNonEmpty(s.Norm(t.Args[0])) && lo < 1 {
			lo = 1
		}
		if str := t.Args[0]; len(s.neq[str]) > 0 && lo < 1 {
			for v := range s.neq[str] {
				if c, ok := v.ConstString(); ok && c == "" {
					lo = 1
				}
			}
		}
	}
	if t.Op == "bin" && len(t.Args) == 2 {
		l1, h1, ok1 := s.Range(t.Args[0])
		l2, h2, ok2 := s.Range(t.Args[1])
		if ok1 && ok2 {
			switch t.Aux {
			case "+":
				return clamp(l1 + l2), clamp(h1 + h2), true
			case "-":
				return clamp(l1 - h2), clamp(h1 - l2), true
			}
		}
	}
	for f, v := range s.facts {
		if f.Op != "lt" {
			continue
		}
		b, isB := v.ConstBool()
		if !isB {
			continue
		}
		if f.Args[0] == t {
			if n, isC := f.Args[1].ConstInt(); isC {
				if b && n-1 < hi {
					hi = n - 1
				}
				if !b && n > lo {
					lo = n
				}
			}
		}
		if f.Args[1] == t {
			if n, isC := f.Args[0].ConstInt(); isC {
				if b && n+1 > lo {
					lo = n + 1
				}
				if !b && n < hi {
					hi = n
				}
			}
		}
	}
	// skip values excluded at the lower end
	for changed := true; changed; {
		changed = false
		for v := range s.neq[t] {
			if n, ok := v.ConstInt(); ok && n == lo {
				lo++
				changed = true
			}
		}
	}
	return lo, hi, true
}

func clamp(n int64) int64 {
	if n > inf {
		return inf
	}
	if n < -inf {
		return -inf
	}
	return n
}

// Nil decides nil-ness: 1 nil, 0 not nil, -1 unknown.
func (s *State) Nil(t *Term) int {
	t = s.Norm(t)
	if t.Op == "nil" {
		return 1
	}
	if s.in.T.structNonNil(t) || t.IsConst() {
		return 0
	}
	for v := range s.neq[t] {
		if v.Op == "nil" {
			return 0
		}
	}
	if _, ok := s.kinds[t]; ok {
		return 0
	}
	if v, ok := s.facts[s.in.T.mk("eq", nil, types.Typ[types.Bool], t, s.in.T.Nil())]; ok {
		if b, ok := v.ConstBool(); ok {
			if b {
				return 1
			}
			return 0
		}
	}
	switch t.Op {
	case "conv":
		return s.Nil(t.Args[0])
	case "call":
		switch t.Callee() {
		case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack":
			return s.Nil(t.Args[0])
		}
	case "deref":
		if g := t.Args[0]; g.Op == "global" {
			if gl, ok := g.Aux.(*ssa.Global); ok && isErrorType(gl.Type().(*types.Pointer).Elem()) {
				return 0 // sentinel errors
			}
		}
	case "cat":
		return 0
	}
	return -1
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// IsErrorType reports the predeclared error type.
func IsErrorType(t types.Type) bool { return isErrorType(t) }

// Assume records that c has value v; false if that contradicts known facts.
func (s *State) Assume(c *Term, v bool) bool {
	switch s.Truth(c) {
	case 1:
		return v
	case 0:
		return !v
	}
	switch c.Op {
	case "not":
		return s.Assume(c.Args[0], !v)
	case "eq":
		a, b := c.Args[0], c.Args[1]
		if v {
			if b.IsConst() || b.Op == "nil" {
				s.become(a, b)
			} else if a.IsConst() || a.Op == "nil" {
				s.become(b, a)
			}
			if b.IsConst() && a.Op == "conv" {
				s.facts[a.Args[0]] = b
			}
		} else {
			s.addNeq(a, b)
		}
	case "is":
		if v && !types.IsInterface(c.Typ) {
			s.kinds[c.Args[0]] = c.Typ
		}
		if v {
			s.addNeq(c.Args[0], s.in.T.Nil())
		}
	}
	s.facts[c] = s.in.T.Bool(v)
	return true
}

// become records that t is the constant v, and is so different from v what is
// different from t.
func (s *State) become(t, v *Term) {
	s.facts[t] = v
	for x := range s.neq[t] {
		if !x.IsConst() && x.Op != "nil" {
			s.addNeq(x, v)
		}
	}
	var others []*Term
	for x, n := range s.neq {
		if n[t] {
			others = append(others, x)
		}
	}
	for _, x := range others {
		s.addNeq(x, v)
	}
}

func (s *State) addNeq(a, b *Term) {
	if !(b.IsConst() || b.Op == "nil") {
		a, b = b, a
	}
	n := map[*Term]bool{b: true}
	for k := range s.neq[a] {
		n[k] = true
	}
	s.neq[a] = n
}

// Facts lists the known facts, for diagnostics.
func (s *State) Facts() []string {
	var out []string
	for k, v := range s.facts {
		out = append(out, k.String()+" = "+v.String())
	}
	sort.Strings(out)
	return out
}

// FactTerms returns the boolean atoms assumed on this path.
func (s *State) FactTerms() map[*Term]*Term { return s.facts }

// ---- memory ----

func (s *State) obj(root *Term) *Obj {
	if o, ok := s.heap[root]; ok {
		return o
	}
	return &Obj{Base: s.in.deref(root)}
}

// project follows a path through a value.
func (s *State) project(v *Term, path []PE) *Term {
	for _, e := range path {
		if e.Field >= 0 {
			var ft types.Type
			if st, ok := under(v.Typ).(*types.Struct); ok && e.Field < st.NumFields() {
				ft = st.Field(e.Field).Type()
			}
			v = s.in.T.Field(v, e.Field, ft)
			continue
		}
		var et types.Type
		switch u := under(v.Typ).(type) {
		case *types.Array:
			et = u.Elem()
		case *types.Slice:
			et = u.Elem()
		}
		v = s.in.T.Elem(v, e.Idx, et)
	}
	return v
}

func pathKey(p []PE) string {
	var sb strings.Builder
	for _, e := range p {
		sb.WriteString(peString(e))
	}
	return sb.String()
}

// load reads the value of type typ at root+path.
func (s *State) load(root *Term, path []PE, typ types.Type) *Term {
	o := s.obj(root)
	key := pathKey(path)
	if v, ok := o.Over[key]; ok {
		return v
	}
	// deeper stores: build the aggregate
	deeper := false
	for k := range o.Over {
		if strings.HasPrefix(k, key) && len(k) > len(key) && (k[len(key)] == '.' || k[len(key)] == '[') {
			deeper = true
		}
	}
	if deeper {
		switch u := under(typ).(type) {
		case *types.Struct:
			var args []*Term
			for i := 0; i < u.NumFields(); i++ {
				args = append(args, s.load(root, append(path[:len(path):len(path)], PE{Field: i}), u.Field(i).Type()))
			}
			return s.in.T.mk("agg", nil, typ, args...)
		case *types.Array:
			if u.Len() <= 64 {
				var args []*Term
				for i := int64(0); i < u.Len(); i++ {
					args = append(args, s.load(root, append(path[:len(path):len(path)], PE{Field: -1, Idx: s.in.T.Int(i)}), u.Elem()))
				}
				return s.in.T.mk("list", nil, typ, args...)
			}
		}
	}
	// a symbolic index may hit any stored element
	for i, e := range path {
		if e.Field < 0 {
			_, isC := e.Idx.ConstInt()
			pre := pathKey(path[:i]) + "["
			var hits []*Term
			for k, v := range o.Over {
				if strings.HasPrefix(k, pre) {
					idx := k[len(pre):]
					idx = idx[:strings.IndexByte(idx, ']')]
					var id int
					fmt.Sscan(idx, &id)
					_, otherC := s.in.T.all[id].ConstInt()
					if !isC || !otherC {
						hits = append(hits, v)
					}
				}
			}
			if len(hits) > 0 {
				sort.Slice(hits, func(a, b int) bool { return hits[a].ID < hits[b].ID })
				base := s.project(o.Base, path)
				return s.in.T.mk("oneof", key, typ, append(hits, base)...)
			}
		}
	}
	// longest stored prefix
	for i := len(path) - 1; i >= 0; i-- {
		if v, ok := o.Over[pathKey(path[:i])]; ok {
			return s.withType(s.project(v, path[i:]), typ)
		}
	}
	return s.withType(s.project(o.Base, path), typ)
}

func (s *State) withType(t *Term, typ types.Type) *Term {
	if t.Typ == nil {
		t.Typ = typ
	}
	return t
}

// store writes a value at root+path.
func (s *State) store(root *Term, path []PE, v *Term) {
	o := s.obj(root).clone()
	key := pathKey(path)
	for k := range o.Over {
		if strings.HasPrefix(k, key) && len(k) > len(key) && (k[len(key)] == '.' || k[len(key)] == '[') {
			delete(o.Over, k)
		}
	}
	if key == "" {
		o.Base = v
		delete(o.Over, "")
		if len(o.Over) > 0 {
			o.Over = map[string]*Term{}
		}
		o.Over[""] = v
	} else {
		o.Over[key] = v
		// a stored aggregate above: keep precise by pushing it below
		for i := len(path) - 1; i >= 0; i-- {
			pk := pathKey(path[:i])
			if pv, ok := o.Over[pk]; ok {
				// split prefix value: the prefix becomes base for the rest
				delete(o.Over, pk)
				s.split(o, path[:i], pv, path[i:])
				break
			}
		}
	}
	s.heap[root] = o
}

// split spreads value pv stored at prefix so that the path below keeps its own
// entry.
func (s *State) split(o *Obj, prefix []PE, pv *Term, rest []PE) {
	if len(rest) == 0 {
		return
	}
	full := pathKey(append(prefix[:len(prefix):len(prefix)], rest...))
	switch u := under(pv.Typ).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			p := append(prefix[:len(prefix):len(prefix)], PE{Field: i})
			fv := s.project(pv, []PE{{Field: i}})
			if rest[0].Field == i {
				if pathKey(p) != full {
					s.split(o, p, fv, rest[1:])
				}
				continue
			}
			o.Over[pathKey(p)] = fv
		}
	default:
		if len(prefix) == 0 {
			o.Base = pv
			return
		}
		if u, ok := under(pv.Typ).(*types.Array); ok && u.Len() <= 64 {
			for i := int64(0); i < u.Len(); i++ {
				pe := PE{Field: -1, Idx: s.in.T.Int(i)}
				p := append(prefix[:len(prefix):len(prefix)], pe)
				if pathKey(p) == full {
					continue
				}
				o.Over[pathKey(p)] = s.project(pv, []PE{pe})
			}
		}
	}
}

// MapGet looks a key up: the value, and the presence as a condition term.
func (s *State) MapGet(m, k *Term, vt types.Type) (*Term, *Term) {
	m = s.Norm(m)
	in := s.in.T
	k = s.Norm(k)
	if m.Op == "nil" {
		return in.zeroOf(vt), in.Bool(false)
	}
	o, tracked := s.heap[m]
	if tracked {
		if v, ok := o.Over[fmt.Sprintf("{%d}", k.ID)]; ok {
			if v.Op == "deleted" {
				return in.zeroOf(vt), in.Bool(false)
			}
			return v, in.Bool(true)
		}
		amb := false
		for _, kk := range o.Keys {
			if kk == k {
				continue
			}
			switch s.Truth(in.Eq(kk, k)) {
			case 1:
				if v := o.Over[fmt.Sprintf("{%d}", kk.ID)]; v.Op != "deleted" && v.Op != "oneof" {
					return v, in.Bool(true)
				}
				amb = true
			case -1:
				amb = true
			}
		}
		if !amb {
			if o.Base == nil {
				return in.zeroOf(vt), in.Bool(false)
			}
			return in.mk("lookup", nil, vt, o.Base, k), in.mk("has", nil, types.Typ[types.Bool], o.Base, k)
		}
		// may be any of the entries
		var args []*Term
		for _, kk := range o.Keys {
			args = append(args, o.Over[fmt.Sprintf("{%d}", kk.ID)])
		}
		ver := in.mk("mapver", s.mapVersion(m), nil, m)
		if o.Base != nil {
			args = append(args, o.Base)
		}
		return in.mk("lookup", nil, vt, append([]*Term{ver, k}, args...)...), in.mk("has", nil, types.Typ[types.Bool], ver, k)
	}
	return in.mk("lookup", nil, vt, m, k), in.mk("has", nil, types.Typ[types.Bool], m, k)
}

func (s *State) mapVersion(m *Term) string {
	o := s.heap[m]
	var ss []string
	for _, k := range o.Keys {
		ss = append(ss, fmt.Sprintf("%d=%d", k.ID, o.Over[fmt.Sprintf("{%d}", k.ID)].ID))
	}
	return strings.Join(ss, ",")
}

func (s *State) mapSet(m, k, v *Term) {
	m, k = s.Norm(m), s.Norm(k)
	o, ok := s.heap[m]
	if !ok {
		o = &Obj{IsMap: true, Base: m}
	}
	o = o.clone()
	o.IsMap = true
	key := fmt.Sprintf("{%d}", k.ID)
	if _, ok := o.Over[key]; !ok {
		for _, kk := range o.Keys {
			if s.Truth(s.in.T.Eq(kk, k)) == 1 {
				key, k, ok = fmt.Sprintf("{%d}", kk.ID), kk, true
				break
			}
		}
		if !ok {
			o.Keys = append(o.Keys, k)
		}
	}
	// what may be the same key may be overwritten
	for _, kk := range o.Keys {
		if kk != k && s.Truth(s.in.T.Eq(kk, k)) != 0 {
			old := o.Over[fmt.Sprintf("{%d}", kk.ID)]
			if old != v {
				o.Over[fmt.Sprintf("{%d}", kk.ID)] = s.in.T.mk("oneof", "map", v.Typ, old, v)
			}
		}
	}
	o.Over[key] = v
	s.heap[m] = o
}

// MapEntries returns what is known about the content of map m.
func (s *State) MapEntries(m *Term) (keys, vals []*Term, base *Term) {
	m = s.Norm(m)
	o, ok := s.heap[m]
	if !ok {
		return nil, nil, m
	}
	for _, k := range o.Keys {
		v := o.Over[fmt.Sprintf("{%d}", k.ID)]
		if v.Op == "deleted" {
			continue
		}
		keys = append(keys, k)
		vals = append(vals, v)
	}
	return keys, vals, o.Base
}

// Content returns what is known to be stored in an object.
func (s *State) Content(root *Term) (base *Term, over []*Term) {
	o, ok := s.heap[root]
	if !ok {
		return nil, nil
	}
	var ks []string
	for k := range o.Over {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		over = append(over, o.Over[k])
		if strings.HasPrefix(k, "{") {
			var id int
			fmt.Sscanf(k, "{%d}", &id)
			over = append(over, s.in.T.all[id])
		}
	}
	return o.Base, over
}

// Load reads memory at an address.
func (s *State) Load(addr *Term, typ types.Type) *Term {
	root, path := s.in.addr(addr)
	return s.Norm(s.load(root, path, typ))
}

// Store writes memory at an address.
func (s *State) Store(addr, v *Term) {
	root, path := s.in.addr(addr)
	s.store(root, path, v)
}

// Conds lists the branch conditions assumed on this path, in a readable form.
func (s *State) Conds() []string {
	var ts []*Term
	for k := range s.facts {
		switch k.Op {
		case "eq", "lt", "is", "has":
			ts = append(ts, k)
		case "call", "extract", "field":
			if _, ok := s.facts[k].ConstBool(); ok {
				ts = append(ts, k)
			}
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	var out []string
	for _, t := range ts {
		b, _ := s.facts[t].ConstBool()
		pre := ""
		if !b {
			pre = "not "
		}
		str := t.str(4)
		if t.Op == "eq" {
			str = t.Args[0].str(3) + " == " + t.Args[1].str(3)
		}
		if len(str) > 120 {
			str = str[:117] + "..."
		}
		out = append(out, pre+str)
	}
	return out
}

// NewObj makes a fresh object with the given content.
func (s *State) NewObj(name string, typ types.Type) *Term {
	t := s.in.T.mk("alloc", CallAux{Name: name, Site: -1}, typ)
	s.heap[t] = &Obj{Base: s.in.T.zeroOf(typ), Over: map[string]*Term{}}
	return t
}

// NewMap makes a fresh map with the given entries only.
func (s *State) NewMap(name string, typ types.Type, kv ...*Term) *Term {
	t := s.in.T.mk("make", CallAux{Name: name, Site: -1}, typ)
	s.heap[t] = &Obj{IsMap: true, Over: map[string]*Term{}}
	for i := 0; i+1 < len(kv); i += 2 {
		s.mapSet(t, kv[i], kv[i+1])
	}
	return t
}

// MapSet stores an entry of a map.
func (s *State) MapSet(m, k, v *Term) { s.mapSet(m, k, v) }

// AssumeNil assumes that t is nil.
func (s *State) AssumeNil(t *Term) bool {
	return s.Assume(s.in.T.Eq(s.Norm(t), s.in.T.Nil()), true)
}

// Forget drops the branch facts and the trace, keeping memory.
func (s *State) Forget() {
	s.facts = map[*Term]*Term{}
	s.neq = map[*Term]map[*Term]bool{}
	s.kinds = map[*Term]types.Type{}
	s.last = nil
	s.loops = 0
}

// Interp is what interprets.
func (s *State) Interp() *Interp { return s.in }

// Emit records an event, for models.
func (s *State) Emit(e *Event) { s.emit(e) }
