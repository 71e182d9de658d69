package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

// orders judges what loops without a fixed order - over maps, and over lists
// filled by such loops - make of it.
type orders struct {
	c       *Ctx
	own     map[*ssa.Function]bool
	callers map[*ssa.Function][]ssa.CallInstruction
	dynamic map[*ssa.Function]bool // used as a value
	exempt  map[*ssa.Function]string
	roots   map[*ssa.Function]bool
	effects map[*ssa.Function][]effect
	seenU   map[ssa.Value]bool
	loops   int
	lists   int
}

// effect is something a function writes: to what a parameter or captured
// variable leads to (index, or -1 for anything else), under the keys given by
// the parameters.
type effect struct {
	param int
	free  int
	keys  []int
	what  string
}

func natural(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{}
	for _, p := range h.Preds {
		if !h.Dominates(p) {
			continue
		}
		body[h] = true
		work := []*ssa.BasicBlock{p}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if body[b] {
				continue
			}
			body[b] = true
			work = append(work, b.Preds...)
		}
	}
	return body
}

// loopOf is the innermost loop around a block.
func loopOf(b *ssa.BasicBlock) (*ssa.BasicBlock, map[*ssa.BasicBlock]bool) {
	for h := b; h != nil; h = h.Idom() {
		if body := natural(h); len(body) > 0 && body[b] {
			return h, body
		}
	}
	return nil, nil
}

func isErr(t types.Type) bool { return psa.IsErrorType(t) }

func unwrapV(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		default:
			return v
		}
	}
}

// rootVal is what an address or container lies in: a parameter, captured
// variable, allocation, or what was loaded from one.
func rootVal(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.Index:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			v = x.X
		case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Convert, *ssa.TypeAssert:
			v = unwrapV(v)
		case *ssa.Extract:
			if _, ok := x.Tuple.(*ssa.TypeAssert); !ok {
				return v
			}
			v = x.Tuple
		default:
			return v
		}
	}
}

// loop is a loop without a fixed order.
type uloop struct {
	fn   *ssa.Function
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	key  map[ssa.Value]bool // which are different in each iteration
	dep  map[ssa.Value]bool // which depend on the iteration
	at   ssa.Instruction
	// the position in a list, which only ends the loop
	index ssa.Value
}

func (l *uloop) derive() {
	cells := map[ssa.Value]bool{}
	for again := true; again; {
		again = false
		mark := func(v ssa.Value) {
			if !l.dep[v] {
				l.dep[v] = true
				again = true
			}
		}
		for b := range l.body {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if a, ok := rootVal(s.Addr).(*ssa.Alloc); ok && l.dep[s.Val] && !cells[a] && l.body[a.Block()] {
						cells[a] = true
						again = true
					}
				}
				v, ok := ins.(ssa.Value)
				if !ok || l.dep[v] {
					continue
				}
				if _, ok := v.(*ssa.Alloc); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if l.dep[*op] || cells[*op] {
						mark(v)
						break
					}
				}
			}
		}
	}
}

// fresh reports memory made in the iteration or belonging to its element.
func (l *uloop) fresh(v ssa.Value) bool {
	r := rootVal(v)
	if l.dep[r] || l.dep[v] {
		// a value which depends on the element may still be one from outside
		if phi, ok := r.(*ssa.Phi); ok && phi.Block() == l.head {
			return false
		}
		return true
	}
	switch x := r.(type) {
	case *ssa.Alloc:
		return l.body[x.Block()]
	case *ssa.MakeMap:
		return l.body[x.Block()]
	case *ssa.MakeSlice:
		return l.body[x.Block()]
	case *ssa.Call:
		return l.body[x.Block()]
	}
	return false
}

// injective reports that v is different in each iteration.
func (l *uloop) injective(v ssa.Value) bool {
	v = unwrapV(v)
	if l.key[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return x.Op == token.ADD && (l.injective(x.X) && !l.dep[x.Y] || l.injective(x.Y) && !l.dep[x.X])
	case *ssa.Call:
		// text of a path with the key in it
		n := calleeOf(x.Common())
		if strings.HasPrefix(n, "strconv.") || strings.HasSuffix(n, "SliceToDotPath") || strings.HasSuffix(n, ".Quote") || strings.HasSuffix(n, ".String") {
			for _, a := range x.Call.Args {
				if l.injective(a) || l.listWith(a) {
					return true
				}
			}
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, a := range x.Call.Args[1:] {
				if l.injective(a) || l.listWith(a) {
					return true
				}
			}
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			return l.oneStore(a)
		}
	case *ssa.Slice:
		return l.listWith(x)
	}
	return false
}

func (l *uloop) oneStore(a *ssa.Alloc) bool {
	n := 0
	ok := false
	for _, r := range *a.Referrers() {
		if s, is := r.(*ssa.Store); is && s.Addr == ssa.Value(a) {
			n++
			ok = l.injective(s.Val)
		}
	}
	return n == 1 && ok
}

// listWith reports a list literal which holds an injective value.
func (l *uloop) listWith(v ssa.Value) bool {
	s, ok := unwrapV(v).(*ssa.Slice)
	if !ok {
		return false
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *a.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) && l.injective(st.Val) {
					return true
				}
			}
		}
	}
	return false
}

// guarded reports that a block only runs for one element: behind a comparison
// of its key.
func (l *uloop) guarded(b *ssa.BasicBlock) bool {
	for d := b; d != nil && l.body[d] || d == b; d = d.Idom() {
		p := d.Idom()
		if p == nil || !l.body[p] {
			return false
		}
		if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
			if cmp, ok := i.Cond.(*ssa.BinOp); ok && (l.injective(cmp.X) && !l.dep[cmp.Y] || l.injective(cmp.Y) && !l.dep[cmp.X]) {
				if cmp.Op == token.EQL && p.Succs[0] == d && len(d.Preds) == 1 || cmp.Op == token.NEQ && p.Succs[1] == d && len(d.Preds) == 1 {
					return true
				}
			}
		}
	}
	return false
}

func (o *orders) bad(l *uloop, at ssa.Instruction, format string, args ...interface{}) {
	o.c.violate("order", fname(l.fn), o.c.ipos(at), fmt.Sprintf(format, args...)+fmt.Sprintf(" (loop without a fixed order at %s)", o.c.ipos(l.at)))
}

// canonical sets do not depend on the order in which they are filled.
func (o *orders) canonical(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Pointers" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "internal/pointer")
}

func (o *orders) judge(l *uloop) {
	c := o.c
	if o.exempt[l.fn] != "" {
		c.counts["loops decided elsewhere"]++
		c.sample("the loop at %s is decided by %s", c.ipos(l.at), o.exempt[l.fn])
		return
	}
	o.loops++
	c.ok("order")
	l.derive()
	var lists []ssa.Value
	cellLists := map[ssa.Value]bool{}
	// update is what an accumulator becomes
	var update func(acc func(ssa.Value) bool, v ssa.Value, seen map[ssa.Value]bool) (list, ok bool)
	update = func(acc func(ssa.Value) bool, v ssa.Value, seen map[ssa.Value]bool) (bool, bool) {
		if seen[v] || acc(v) || isErr(v.Type()) {
			return false, true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return false, true
		case *ssa.Phi:
			if !l.body[x.Block()] {
				return false, !l.dep[x]
			}
			list := false
			for i, e := range x.Edges {
				if !l.body[x.Block().Preds[i]] {
					continue
				}
				li, ok := update(acc, e, seen)
				if !ok {
					return false, false
				}
				list = list || li
			}
			return list, true
		case *ssa.BinOp:
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && x.Op == token.ADD && acc(unwrapV(x.X)) {
				return false, !l.dep[x.Y] || true
			}
			if x.Op == token.OR || x.Op == token.AND {
				return false, true
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				_, ok := update(acc, x.Call.Args[0], seen)
				return true, ok
			}
			if o.canonical(x.Type()) {
				return false, true
			}
		case *ssa.Extract:
			if o.canonical(x.Type()) {
				return false, true
			}
		case *ssa.ChangeType:
			return update(acc, x.X, seen)
		}
		return false, !l.dep[v]
	}
	for b := range l.body {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				if b != l.head {
					continue
				}
				for i, e := range x.Edges {
					if !l.body[b.Preds[i]] {
						continue
					}
					list, ok := update(func(v ssa.Value) bool { return v == ssa.Value(x) }, e, map[ssa.Value]bool{})
					if !ok && !l.key[x] && !o.counter(x, l) {
						o.bad(l, x, "the value of %s depends on the order", x.Comment)
					}
					if list {
						lists = append(lists, x)
					}
				}
			case *ssa.Store:
				if l.fresh(x.Addr) && !isErr(x.Val.Type()) && !o.message(x) && !o.canonical(x.Val.Type()) {
					if w := o.carried(l, x.Val, false, map[ssa.Value]bool{}); w != "" {
						o.bad(l, x, "what is kept of an element depends on %s", w)
					}
				}
				if l.fresh(x.Addr) || isErr(x.Val.Type()) {
					continue
				}
				if _, ok := x.Val.(*ssa.Const); ok {
					continue
				}
				a := x.Addr
				list, ok := update(func(v ssa.Value) bool {
					u, ok := v.(*ssa.UnOp)
					return ok && u.Op == token.MUL && sameAddr(u.X, a)
				}, x.Val, map[ssa.Value]bool{})
				if !ok && !l.guarded(b) {
					o.bad(l, x, "what is stored depends on the order")
				}
				if list {
					if al, is := a.(*ssa.Alloc); is {
						cellLists[al] = true
					} else {
						o.bad(l, x, "a list in this order is kept")
					}
				}
			case *ssa.MapUpdate:
				if w := o.carried(l, x.Value, false, map[ssa.Value]bool{}); w != "" && !o.canonical(x.Map.Type()) {
					o.bad(l, x, "what is kept of an element depends on %s", w)
				}
				if l.fresh(x.Map) || l.injective(x.Key) || !l.dep[x.Value] {
					continue
				}
				if o.canonical(x.Map.Type()) {
					continue
				}
				o.bad(l, x, "which value is kept under a key depends on the order")
			case *ssa.Return:
				for _, r := range x.Results {
					if l.dep[r] && !isErr(r.Type()) && !l.guarded(b) {
						o.bad(l, x, "what is returned depends on the order")
					}
				}
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select:
				o.bad(l, ins, "an effect depends on the order")
			case *ssa.Call:
				o.call(l, x)
			case *ssa.If:
				if w := o.carried(l, x.Cond, true, map[ssa.Value]bool{}); w != "" && !o.failing(l, x) {
					o.bad(l, x, "what is done depends on %s, so on the elements before", w)
				}
			}
			// values which leave the loop
			if v, ok := ins.(ssa.Value); ok && l.dep[v] && !isErr(v.Type()) {
				if phi, ok := v.(*ssa.Phi); ok && phi.Block() == l.head {
					continue
				}
				if v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if r.Block() != nil && !l.body[r.Block()] && r.Parent() == l.fn {
						if o.leaves(r) || l.guarded(b) {
							continue
						}
						if ret, ok := r.(*ssa.Return); ok && l.guarded(ret.Block()) {
							continue
						}
						if list, ok := update(func(ssa.Value) bool { return false }, v, map[ssa.Value]bool{}); ok && list {
							lists = append(lists, v)
							continue
						}
						if o.tupleErr(v, r) {
							continue
						}
						o.bad(l, r, "what is used behind the loop depends on the order")
					}
				}
			}
		}
	}
	for _, v := range lists {
		o.list(v, l, l.body)
	}
	for a := range cellLists {
		o.cellList(a, l)
	}
}

// carried reports that a value depends on what earlier iterations have done;
// deep also counts sets which do not depend on the order at the end.
func (o *orders) carried(l *uloop, v ssa.Value, deep bool, seen map[ssa.Value]bool) string {
	if seen[v] || isErr(v.Type()) {
		return ""
	}
	seen[v] = true
	ins, ok := v.(ssa.Instruction)
	if !ok || ins.Block() == nil || !l.body[ins.Block()] {
		return ""
	}
	written := func(a ssa.Value) bool {
		if l.fresh(a) {
			return false
		}
		for b := range l.body {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if sameAddr(x.Addr, a) {
						return true
					}
				case *ssa.MapUpdate:
					if sameCell(x.Map, a) {
						return true
					}
				}
			}
		}
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == l.head {
			if l.key[x] || o.canonical(x.Type()) && !deep {
				return ""
			}
			return "how many there were or what they left in " + x.Comment
		}
	case *ssa.Lookup:
		if l.injective(x.Index) || !written(x.X) {
			return o.carried(l, x.Index, deep, seen)
		}
		return "the entries stored so far"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if written(x.X) {
				return "what was stored so far"
			}
			return ""
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && written(x.Call.Args[0]) {
			return "the number of entries stored so far"
		}
	case *ssa.Next, *ssa.Range:
		return ""
	}
	for _, op := range ins.Operands(nil) {
		if *op == nil {
			continue
		}
		if w := o.carried(l, *op, deep, seen); w != "" {
			return w
		}
	}
	return ""
}

// sameCell reports that two values are loaded from the same place.
func sameCell(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok && ok2 && x.Op == token.MUL && y.Op == token.MUL && sameAddr(x.X, y.X)
}

// failing reports that one way of a branch only leads to errors or panics.
func (o *orders) failing(l *uloop, i *ssa.If) bool {
	if i.Block() == l.head {
		return l.index != nil // the end of the loop
	}
	for _, s := range i.Block().Succs {
		all := true
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if seen[b] {
				return
			}
			seen[b] = true
			if l.body[b] && l.head == b {
				all = false
				return
			}
			switch x := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return:
				fails := false
				for _, r := range x.Results {
					if isErr(r.Type()) && neverNil(r) {
						fails = true
					}
				}
				all = all && fails
			case *ssa.Panic:
			}
			for _, n := range b.Succs {
				walk(n)
			}
		}
		walk(s)
		if all {
			return true
		}
	}
	return false
}

// neverNil reports a value made by a constructor of errors.
func neverNil(v ssa.Value) bool { return neverNilIn(v, map[ssa.Value]bool{}) }

func neverNilIn(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true // decided by the other edges
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		n := calleeOf(x.Common())
		return strings.HasSuffix(n, "rrorf") || strings.HasSuffix(n, "errors.New") || strings.Contains(n, "Wrap") || strings.Contains(n, "WithStack")
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp: // a result variable, set before in this block
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			var last ssa.Value
			for _, i := range x.Block().Instrs {
				if i == ssa.Instruction(x) {
					break
				}
				if s, ok := i.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					last = s.Val
				}
			}
			return last != nil && neverNilIn(last, seen)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !neverNilIn(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// tupleErr reports a use which only takes the error of a call.
func (o *orders) tupleErr(v ssa.Value, r ssa.Instruction) bool {
	e, ok := r.(*ssa.Extract)
	return ok && isErr(e.Type())
}

// leaves reports instructions which only make an error or a message.
func (o *orders) leaves(r ssa.Instruction) bool {
	if v, ok := r.(ssa.Value); ok && isErr(v.Type()) {
		return true
	}
	if mi, ok := r.(*ssa.MakeInterface); ok { // arguments of messages
		for _, u := range *mi.Referrers() {
			st, ok := u.(*ssa.Store)
			if !ok || !o.message(st) {
				return false
			}
		}
		return true
	}
	return false
}

// message reports that a value is stored into the arguments of a message.
func (o *orders) message(st *ssa.Store) bool {
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	a, ok := ia.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *a.Referrers() {
		s, ok := r.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, u := range *s.Referrers() {
			ci, ok := u.(ssa.CallInstruction)
			if !ok || !talks(calleeOf(ci.Common())) {
				return false
			}
		}
	}
	return true
}

// talks reports functions which make errors or log.
func talks(n string) bool {
	n = shortName(n)
	return strings.HasPrefix(n, "github.com/pkg/errors.") || strings.HasPrefix(n, "errors.") || n == "fmt.Errorf" ||
		strings.HasPrefix(n, "internal/logging.") || strings.HasPrefix(n, "(internal/logging.") || strings.Contains(n, "sirupsen/logrus")
}

// counter reports an index which counts iterations.
func (o *orders) counter(x *ssa.Phi, l *uloop) bool {
	b, ok := x.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && func() bool {
		for i, e := range x.Edges {
			if !l.body[x.Block().Preds[i]] {
				continue
			}
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD {
				return false
			}
		}
		return true
	}()
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok && ok2 && x.Field == y.Field && sameAddr(x.X, y.X)
}

func (o *orders) call(l *uloop, x *ssa.Call) {
	cc := x.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "delete", "clear":
			if !l.fresh(cc.Args[0]) && !(b.Name() == "delete" && l.injective(cc.Args[1])) {
				o.bad(l, x, "%s in this order", b.Name())
			}
		}
		return
	}
	n := calleeOf(cc)
	if talks(n) {
		return
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	f := cc.StaticCallee()
	if f != nil && o.own[f] {
		for _, e := range o.effectsOf(f) {
			switch {
			case e.param >= 0 && e.param < len(args):
				if l.fresh(args[e.param]) || o.canonical(args[e.param].Type()) {
					continue
				}
				keyed := false
				for _, k := range e.keys {
					keyed = keyed || k < len(args) && (l.injective(args[k]) || l.listWith(args[k]))
				}
				if keyed {
					for k, a := range args {
						if w := o.carried(l, a, false, map[ssa.Value]bool{}); w != "" && k != e.param {
							o.bad(l, x, "what %s is given depends on %s", fname(f), w)
						}
					}
					continue
				}
			case e.free >= 0:
				if mc, ok := cc.Value.(*ssa.MakeClosure); ok && l.fresh(mc.Bindings[e.free]) {
					continue
				}
			}
			o.bad(l, x, "%s %s in this order", fname(f), e.what)
			return
		}
		return
	}
	if f == nil && !cc.IsInvoke() {
		o.bad(l, x, "an unknown function is called in this order")
		return
	}
	if psa.Reads(n) || psa.IsPure(n) || reads01(n) {
		return
	}
	if w, ok := keyedWriter(n); ok {
		if l.fresh(args[0]) {
			return
		}
		for _, a := range args[w:] {
			if l.injective(a) || l.listWith(a) {
				return
			}
		}
	}
	for _, a := range args {
		if !psa.HasRefs(a.Type()) || l.fresh(a) {
			continue
		}
		if strings.HasPrefix(n, "encoding/json.Unmarshal") || n == "gopkg.in/yaml.v2.Unmarshal" {
			continue
		}
		o.bad(l, x, "%s is called in this order", shortName(n))
		return
	}
}

// reads01 are further library functions without effects.
func reads01(n string) bool {
	return strings.HasPrefix(n, "(*golang.org/x/tools/go/packages.") || strings.HasPrefix(n, "(go/ast.") || strings.HasPrefix(n, "(*go/ast.") || strings.HasPrefix(n, "(go/token.") ||
		strings.HasPrefix(n, "(*go/token.") || n == "(fmt.Stringer).String" || n == "encoding/json.Unmarshal" || strings.HasPrefix(n, "(encoding/json.")
}

// keyedWriter are library functions which write under a path: the position of
// the path among the arguments.
func keyedWriter(n string) (int, bool) {
	switch strings.TrimPrefix(n, gabsC) {
	case "SetP", "Set", "SetJSONPointer", "Array", "ArrayP", "Object", "ObjectP":
		return 1, strings.HasPrefix(n, gabsC)
	case "Delete", "DeleteP":
		return 1, strings.HasPrefix(n, gabsC)
	}
	return 0, false
}

// effectsOf lists what a function of ours writes outside of itself.
func (o *orders) effectsOf(f *ssa.Function) []effect {
	if e, ok := o.effects[f]; ok {
		return e
	}
	o.effects[f] = nil // recursion adds nothing of its own
	var out []effect
	pidx, fidx := map[ssa.Value]int{}, map[ssa.Value]int{}
	for i, p := range f.Params {
		pidx[p] = i
	}
	for i, p := range f.FreeVars {
		fidx[p] = i
	}
	keyParams := func(vs ...ssa.Value) (ks []int) {
		for _, v := range vs {
			v = unwrapV(v)
			if i, ok := pidx[v]; ok {
				ks = append(ks, i)
			}
			if u, ok := v.(*ssa.UnOp); ok {
				if al, ok := u.X.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if s, ok := r.(*ssa.Store); ok {
							if i, ok := pidx[s.Val]; ok {
								ks = append(ks, i)
							}
						}
					}
				}
			}
		}
		return
	}
	add := func(target ssa.Value, what string, keys ...ssa.Value) {
		r := rootVal(target)
		if al, ok := r.(*ssa.Alloc); ok {
			// a parameter kept in a variable
			var from ssa.Value
			for _, u := range *al.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
					if _, ok := pidx[s.Val]; ok && target != ssa.Value(al) {
						if _, isField := target.(*ssa.FieldAddr); !isField || derefs(target, al) {
							from = s.Val
						}
					}
				}
			}
			if from == nil || !derefs(target, al) {
				return
			}
			r = from
		}
		if p, ok := r.(*ssa.Parameter); ok {
			out = append(out, effect{pidx[p], -1, keyParams(keys...), what})
			return
		}
		if p, ok := r.(*ssa.FreeVar); ok {
			out = append(out, effect{-1, fidx[p], nil, what})
			return
		}
		switch r.(type) {
		case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Const:
			return
		case *ssa.Call, *ssa.Extract, *ssa.Phi, *ssa.Lookup:
			// made by a callee or taken from somewhere: from the parameters, if at all
			if g, ok := r.(*ssa.Call); ok && o.makes(g) {
				return
			}
			for p, i := range pidx {
				if psa.HasRefs(p.Type()) {
					out = append(out, effect{i, -1, keyParams(keys...), what})
				}
			}
			return
		}
		out = append(out, effect{-1, -1, nil, what})
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if isErr(x.Val.Type()) {
					continue
				}
				add(x.Addr, "writes")
			case *ssa.MapUpdate:
				add(x.Map, "writes", x.Key)
			case *ssa.Go, *ssa.Send:
				out = append(out, effect{-1, -1, nil, "communicates"})
			case *ssa.Defer:
			case *ssa.Call:
				cc := x.Common()
				n := calleeOf(cc)
				if talks(n) {
					continue
				}
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete":
						add(cc.Args[0], "deletes", cc.Args[1])
					case "copy", "clear":
						add(cc.Args[0], "writes")
					}
					continue
				}
				args := cc.Args
				if cc.IsInvoke() {
					args = append([]ssa.Value{cc.Value}, args...)
				}
				g := cc.StaticCallee()
				switch {
				case g != nil && o.own[g]:
					for _, e := range o.effectsOf(g) {
						switch {
						case e.param >= 0 && e.param < len(args):
							var ks []ssa.Value
							for _, k := range e.keys {
								if k < len(args) {
									ks = append(ks, args[k])
								}
							}
							add(args[e.param], e.what, ks...)
						case e.free >= 0:
							if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
								add(mc.Bindings[e.free], e.what)
							}
						default:
							out = append(out, e)
						}
					}
				case g == nil && !cc.IsInvoke():
					mcs := closuresOf(cc.Value, f)
					if mcs == nil {
						out = append(out, effect{-1, -1, nil, "calls an unknown function"})
					}
					for _, mc := range mcs {
						h := mc.Fn.(*ssa.Function)
						if h == f {
							continue
						}
						for _, e := range o.effectsOf(h) {
							switch {
							case e.param >= 0 && e.param < len(args):
								add(args[e.param], e.what)
							case e.free >= 0 && mc.Parent() == f:
								add(mc.Bindings[e.free], e.what)
							default:
								out = append(out, effect{-1, -1, nil, e.what})
							}
						}
					}
				case psa.Reads(n) || psa.IsPure(n) || reads01(n):
				default:
					if w, ok := keyedWriter(n); ok {
						add(args[0], "writes", args[w:]...)
						continue
					}
					for _, a := range args {
						if psa.HasRefs(a.Type()) {
							if _, isFn := a.Type().Underlying().(*types.Signature); !isFn {
								add(a, "writes through "+shortName(n))
							}
						}
					}
				}
			}
		}
	}
	o.effects[f] = out
	return out
}

// closuresOf are the functions a variable can hold, if all of them are written
// in the function around it.
func closuresOf(v ssa.Value, f *ssa.Function) []*ssa.MakeClosure {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return []*ssa.MakeClosure{x}
	case *ssa.UnOp:
		cell := x.X
		for {
			fv, ok := cell.(*ssa.FreeVar)
			if !ok {
				break
			}
			// the variable of the function around
			i := -1
			for k, g := range f.FreeVars {
				if g == fv {
					i = k
				}
			}
			p := f.Parent()
			if i < 0 || p == nil {
				return nil
			}
			cell = nil
			for _, b := range p.Blocks {
				for _, ins := range b.Instrs {
					if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
						cell = mc.Bindings[i]
					}
				}
			}
			f = p
		}
		al, ok := cell.(*ssa.Alloc)
		if !ok {
			return nil
		}
		var out []*ssa.MakeClosure
		for _, r := range *al.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				mc, ok := y.Val.(*ssa.MakeClosure)
				if !ok || y.Addr != ssa.Value(al) {
					return nil
				}
				out = append(out, mc)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				// captured: nobody else is to assign it
				for i, b := range y.Bindings {
					if b == ssa.Value(al) {
						for _, u := range *y.Fn.(*ssa.Function).FreeVars[i].Referrers() {
							switch u.(type) {
							case *ssa.UnOp, *ssa.MakeClosure, *ssa.DebugRef:
							default:
								return nil
							}
						}
					}
				}
			default:
				return nil
			}
		}
		return out
	}
	return nil
}

// derefs reports that target lies behind a pointer, map or slice kept in al.
func derefs(target ssa.Value, al *ssa.Alloc) bool {
	v := target
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			return true
		case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Convert, *ssa.TypeAssert:
			v = unwrapV(v)
		case *ssa.Field:
			v = x.X
		default:
			return false
		}
	}
}

// makes reports calls whose result is new.
func (o *orders) makes(x *ssa.Call) bool {
	n := shortName(calleeOf(x.Common()))
	return strings.HasPrefix(n, "internal/container.New") || strings.HasPrefix(n, "internal/container.Make") || strings.HasPrefix(n, "github.com/Jeffail/gabs/v2.New") ||
		strings.Contains(n, "bytes.NewBuffer") || strings.Contains(n, ".Clone")
}

var sorters = map[string]bool{"sort.Strings": true, "sort.Ints": true, "sort.Float64s": true, "sort.Sort": true, "sort.Stable": true, "sort.Slice": true, "sort.SliceStable": true}

// cellList follows a list kept in a local variable.
func (o *orders) cellList(a ssa.Value, l *uloop) {
	for _, r := range *a.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL && !l.body[u.Block()] {
			o.list(u, l, l.body)
		}
	}
}

// sorts are the calls which bring a list in order.
func (o *orders) sorts(v ssa.Value) (out []*ssa.Call) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.MakeInterface:
				walk(x)
			case *ssa.ChangeType:
				walk(x)
			case *ssa.Store: // a wrapper with the list in a field, or the variable sorted
				if x.Val == v {
					if al, ok := rootVal(x.Addr).(*ssa.Alloc); ok {
						for _, u := range *al.Referrers() {
							if ld, ok := u.(*ssa.UnOp); ok {
								walk(ld)
							}
							if mi, ok := u.(*ssa.MakeInterface); ok {
								walk(mi)
							}
						}
					}
				}
			case *ssa.Call:
				n := calleeOf(x.Common())
				if sorters[n] {
					if o.total(x) {
						out = append(out, x)
					}
					continue
				}
				if f := x.Common().StaticCallee(); f != nil && o.own[f] {
					for i, a := range x.Call.Args {
						if a == v && i < len(f.Params) {
							for _, s := range o.sorts(f.Params[i]) {
								if s.Block() == f.Blocks[0] {
									out = append(out, x)
									break
								}
							}
						}
					}
				}
			}
		}
	}
	walk(v)
	return
}

// total reports that a sort brings different elements in one order only, as
// far as its comparison can tell: it compares texts, or the list is one of
// plain values.
func (o *orders) total(x *ssa.Call) bool {
	n := calleeOf(x.Common())
	if n == "sort.Strings" || n == "sort.Ints" || n == "sort.Float64s" {
		return true
	}
	var less *ssa.Function
	switch n {
	case "sort.Slice", "sort.SliceStable":
		switch f := x.Call.Args[1].(type) {
		case *ssa.MakeClosure:
			less = f.Fn.(*ssa.Function)
		case *ssa.Function:
			less = f
		}
	default:
		if mi, ok := x.Call.Args[0].(*ssa.MakeInterface); ok {
			sel := o.c.prog.MethodSets.MethodSet(mi.X.Type()).Lookup(nil, "Less")
			if sel != nil {
				less = o.c.prog.MethodValue(sel)
			}
		}
	}
	if less == nil {
		return false
	}
	return comparesText(less, 0)
}

func comparesText(f *ssa.Function, depth int) bool {
	if depth > 4 {
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.BinOp:
				if t, ok := x.X.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 && (x.Op == token.LSS || x.Op == token.GTR) {
					return true
				}
			case *ssa.Call:
				if g := x.Common().StaticCallee(); g != nil && (g.RelString(nil) == "strings.Compare" || len(g.Blocks) > 0 && comparesText(g, depth+1)) {
					return true
				}
			}
		}
	}
	return false
}

// list judges the uses of a list whose order is not fixed.
func (o *orders) list(v ssa.Value, l *uloop, skip map[*ssa.BasicBlock]bool) {
	if o.seenU[v] || v.Referrers() == nil {
		return
	}
	o.seenU[v] = true
	o.lists++
	o.c.ok("order")
	fn := v.Parent()
	if o.exempt[fn] != "" {
		return
	}
	sorts := o.sorts(v)
	ordered := func(r ssa.Instruction) bool {
		for _, s := range sorts {
			if s.Block() == r.Block() && before(s, r) || s.Block() != r.Block() && s.Block().Dominates(r.Block()) {
				return true
			}
		}
		return false
	}
	isSort := func(r ssa.Instruction) bool {
		for _, s := range sorts {
			if ssa.Instruction(s) == r {
				return true
			}
		}
		return false
	}
	fail := func(r ssa.Instruction, what string) {
		o.c.violate("order", fname(fn), o.c.ipos(r), fmt.Sprintf("%s a list whose order is that of a map (loop at %s)", what, o.c.ipos(l.at)))
	}
	for _, r := range *v.Referrers() {
		if skip[r.Block()] && r.Parent() == fn || ordered(r) || isSort(r) {
			continue
		}
		switch x := r.(type) {
		case *ssa.Phi:
			o.list(x, l, skip)
		case *ssa.ChangeType:
			if !o.onlySorted(x, sorts) {
				o.list(x, l, skip)
			}
		case *ssa.MakeInterface:
			if o.onlySorted(x, sorts) {
				continue
			}
			if o.leaves(x) {
				continue
			}
			fail(x, "hands on")
		case *ssa.Slice:
			if x.Low == nil && x.High == nil {
				o.list(x, l, skip)
			} else {
				fail(x, "takes a part of")
			}
		case *ssa.BinOp, *ssa.DebugRef, *ssa.If:
		case *ssa.Return:
			o.returned(fn, x, v, l, fail)
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				for _, u := range *al.Referrers() {
					if ld, ok := u.(*ssa.UnOp); ok && ld.Op == token.MUL && !ordered(ld) {
						o.list(ld, l, skip)
					}
				}
				continue
			}
			if al, ok := rootVal(x.Addr).(*ssa.Alloc); ok && len(sorts) > 0 && !al.Heap {
				continue // a wrapper for sorting
			}
			fail(x, "keeps")
		case *ssa.IndexAddr:
			if x.X != v {
				continue
			}
			h, body := loopOf(x.Block())
			if _, isConst := x.Index.(*ssa.Const); isConst || h == nil {
				fail(x, "picks an element of")
				continue
			}
			nl := &uloop{fn: fn, head: h, body: body, key: map[ssa.Value]bool{}, dep: map[ssa.Value]bool{}, at: l.at}
			for _, u := range *x.Referrers() {
				if ld, ok := u.(*ssa.UnOp); ok && ld.Op == token.MUL {
					nl.key[ld], nl.dep[ld] = true, true
				}
			}
			nl.dep[x] = true
			idx := x.Index
			if b, ok := idx.(*ssa.BinOp); ok {
				idx = b.X // range loops count before the body
			}
			nl.index = idx
			o.judge(nl)
		case *ssa.Index:
			fail(x, "picks an element of")
		case *ssa.MakeClosure:
			fail(x, "captures")
		case ssa.CallInstruction:
			o.passed(x, v, l, fail, skip)
		}
	}
}

// onlySorted reports a conversion which is only used for sorting.
func (o *orders) onlySorted(v ssa.Value, sorts []*ssa.Call) bool {
	for _, r := range *v.Referrers() {
		ok := false
		for _, s := range sorts {
			if ssa.Instruction(s) == r {
				ok = true
			}
		}
		if mi, is := r.(*ssa.MakeInterface); is && o.onlySorted(mi, sorts) {
			ok = true
		}
		if !ok {
			return false
		}
	}
	return true
}

func (o *orders) returned(fn *ssa.Function, x *ssa.Return, v ssa.Value, l *uloop, fail func(ssa.Instruction, string)) {
	if o.roots[fn] || o.dynamic[fn] || fn.Parent() != nil {
		fail(x, "returns")
		return
	}
	for i, r := range x.Results {
		if r != v {
			continue
		}
		for _, ci := range o.callers[fn] {
			call, ok := ci.(*ssa.Call)
			if !ok || o.exempt[call.Parent()] != "" {
				continue
			}
			if len(x.Results) == 1 {
				o.list(call, l, nil)
				continue
			}
			for _, u := range *call.Referrers() {
				if e, ok := u.(*ssa.Extract); ok && e.Index == i {
					o.list(e, l, nil)
				}
			}
		}
	}
}

func (o *orders) passed(ci ssa.CallInstruction, v ssa.Value, l *uloop, fail func(ssa.Instruction, string), skip map[*ssa.BasicBlock]bool) {
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if val, ok := ci.(ssa.Value); ok {
				o.list(val, l, skip)
			}
		case "copy":
			if cc.Args[1] == v {
				o.list(cc.Args[0], l, skip)
			}
		}
		return
	}
	n := calleeOf(cc)
	if talks(n) {
		return
	}
	f := cc.StaticCallee()
	if f != nil && o.own[f] && len(f.Params) == len(cc.Args) {
		for i, a := range cc.Args {
			if a == v {
				o.list(f.Params[i], l, nil)
			}
		}
		return
	}
	if sorters[n] {
		fail(ci, "sorts, by a comparison which leaves ties,")
		return
	}
	fail(ci, "passes to "+shortName(n))
}
