package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// A01: what is given to a function is left as it is, and copies share nothing
// with what they were made from.  A flow-insensitive points-to analysis of each
// function (what it was given, what lies behind that, what it makes), joined by
// summaries of its writes, its results and what it puts where.

func init() { checks["A01"] = checkA01 }

// mem is a piece of memory as one function sees it: what (part path of)
// parameter idx refers to (P), what part below of that refers to (p) and all
// what lies behind that (q), the same for captured variables (F, f, h), for package-level variables (G, g),
// what the function makes itself (S), and what calls give it (M; its parts are
// not told apart).
type mem struct {
	kind        byte
	idx         int
	path, below string
	at          interface{}
}

func (m mem) param() bool    { return m.kind == 'P' || m.kind == 'p' || m.kind == 'q' }
func (m mem) captured() bool { return m.kind == 'F' || m.kind == 'f' || m.kind == 'h' }
func (m mem) outer() bool    { return m.param() || m.captured() }

func made(m mem) bool { return m.kind == 'S' || m.kind == 'M' }

// next is what lies behind a memory of the outside.
var next = map[byte]byte{'P': 'p', 'p': 'q', 'q': 'q', 'F': 'f', 'f': 'h', 'h': 'h', 'G': 'g', 'g': 'g'}

// ref is a reference in part path of a value, to part off of a memory (or any
// part, if it is *).
type ref struct {
	path string
	to   mem
	off  string
}

type refset map[ref]bool
type mems map[mem]bool

// summary is what callers need to know of a function.
type summary struct {
	writes  map[mem]token.Pos
	flows   map[mem]refset
	made    map[mem]map[string]bool // parts where something made is put
	under   map[mem]mems            // and what lies behind that
	results []refset                // made things are left out
	behind  []mems                  // what lies behind made results
	fresh   []map[string]bool
}

type aliases struct {
	c       *Ctx
	fns     []*ssa.Function
	own     map[*ssa.Function]bool
	sum     map[*ssa.Function]*summary
	taken   map[*ssa.Function]bool
	changed bool
}

// aframe is the analysis of one function.
type aframe struct {
	a       *aliases
	fn      *ssa.Function
	pts     map[ssa.Value]refset
	content map[mem]refset
	writes  map[mem]token.Pos
	mixed   map[mem]bool // memory whose parts are not told apart any more
	changed bool
}

// keepers are functions which exist to change what they are given: the
// parameters (the receiver is 0) they may change.
var keepers = map[string][]int{
	"(internal/container.Container).SetP":              {0},
	"(internal/container.Container).Replace":           {0},
	"(internal/container.Container).Merge":             {0},
	"(internal/container.Containers).Swap":             {0},
	"(internal/container.MapSlice).Swap":               {0},
	"(internal/oapi/scan/types.points).Swap":           {0},
	"internal/oapi/resolver.SetEntity":                 {0},
	"internal/oapi/resolver.ReplacePtr":                {0},
	"internal/oapi/resolver.ReplacePtrWithEmptyObject": {0},
	"internal/oapi/resolver.UpdatePtr":                 {0},
	"internal/oapi/resolver.UpdatePtrToLocal":          {0},
	"internal/oapi.MergeWithRoot":                      {1},
	"internal/oapi.SetPathsDefaults":                   {0},
	"internal/pkgutil.Scan":                            {1},
}

// copies are functions whose results (by position) share nothing with what they
// are given.
var copies = map[string][]int{
	"internal/container.Make":                   {0},
	"(internal/container.Container).Clone":      {0},
	"(internal/container.Containers).Merge":     {0},
	"(*internal/oapi/scan/specs.Scanner).Merge": {0},
	"internal/oapi/resolver.Resolve":            {0},
	"(internal/pointer.Fragment).Clone":         {0},
	"(internal/pointer.Pointer).Clone":          {0},
	"(internal/oapi/scan/types.point).Clone":    {0},
	"(internal/pointer.Fragment).Replace":       {0},
	"(internal/pointer.Fragment).Descendant":    {0},
	"(internal/pointer.Fragment).RawDescendant": {0},
}

// storers change their receiver and share nothing with what they put there.
var storers = map[string][]int{
	"(internal/container.Container).SetP":    {2},
	"(internal/container.Container).Replace": {1},
	"(internal/container.Container).Merge":   {1},
	"internal/oapi.MergeWithRoot":            {0},
	"internal/oapi.SetPathsDefaults":         {1},
}

func checkA01(c *Ctx) {
	c.rule("kept", "a function changes nothing of what it is given, except functions which exist to change it: setters and merges their receiver, methods with pointer receivers that receiver, options the options, scans of packages the scanner", 60)
	c.rule("copied", "what copying functions give shares no memory with what they were given", 7)
	c.rule("stored", "what is set, replaced or merged into a document is a copy of what was given", 4)
	c.rule("loaded", "nothing writes to packages, types or syntax it has loaded", 100)
	c.explain = "each function of the repository is analysed with a flow-insensitive points-to analysis: memory is what a parameter or captured variable refers to, what lies behind it, and what is made at each place; calls are joined by summaries of what callees write, return and store until nothing changes; library functions are taken from a table of reading ones, all others write what they are given"
	a := &aliases{c: c, own: map[*ssa.Function]bool{}, sum: map[*ssa.Function]*summary{}, taken: map[*ssa.Function]bool{}}
	for f := range ssautil.AllFunctions(c.prog) {
		if len(f.Blocks) > 0 && c.isOurs(f) && f.Name() != "init" {
			a.fns = append(a.fns, f)
			a.own[f] = true
		}
	}
	sort.Slice(a.fns, func(i, j int) bool { return a.fns[i].RelString(nil) < a.fns[j].RelString(nil) })
	for _, f := range a.fns {
		a.sum[f] = &summary{writes: map[mem]token.Pos{}, flows: map[mem]refset{}, made: map[mem]map[string]bool{}, under: map[mem]mems{}}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					a.taken[mc.Fn.(*ssa.Function)] = true
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if ci, ok := ins.(ssa.CallInstruction); !ok || ci.Common().Value != *op {
							a.taken[g] = true
						}
					}
				}
			}
		}
	}
	frames := map[*ssa.Function]*aframe{}
	rounds := 0
	for a.changed = true; a.changed; rounds++ {
		a.changed = false
		for _, f := range a.fns {
			fr := frames[f]
			if fr == nil {
				fr = &aframe{a: a, fn: f, pts: map[ssa.Value]refset{}, content: map[mem]refset{}, writes: map[mem]token.Pos{}, mixed: map[mem]bool{}}
				frames[f] = fr
			}
			fr.solve()
			fr.export()
		}
		if rounds > 100 {
			c.violate("undecided", "summaries", "", "the analysis does not come to an end")
			return
		}
	}
	for _, f := range a.fns {
		name := fname(f)
		if f.Parent() != nil || !api[name] || f.Synthetic != "" {
			continue
		}
		c.funcs[f] = true
		a.judge(name, f, frames[f])
	}
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s := shortened(ins); s != nil {
					c.violate("kept", "append in "+fname(f), c.ipos(ins), fname(f)+" appends to the first part of a list kept elsewhere ("+c.pos(s.Pos())+"), which overwrites the rest of it")
				}
				if change(ins) {
					c.violate("loaded", fname(f), c.ipos(ins), fname(f)+" writes to a loaded package, type or syntax")
				}
			}
		}
		c.ok("loaded")
	}
	c.assume = append(c.assume, "library functions in the table of reading ones change nothing reachable from their arguments, and results of those in the table of copying ones share nothing with them; encoding and decoding makes copies")
}

func contains01(xs []int, i int) bool {
	for _, x := range xs {
		if x == i {
			return true
		}
	}
	return false
}

// mayChange reports the parameters a function exists to change.
func mayChange(name string, f *ssa.Function, i int) bool {
	if contains01(keepers[name], i) {
		return true
	}
	if i == 0 && f.Signature.Recv() != nil {
		if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			return true
		}
	}
	return false
}

func (a *aliases) judge(name string, f *ssa.Function, fr *aframe) {
	c := a.c
	s := a.sum[f]
	for i, p := range f.Params {
		if !refs(p.Type()) || mayChange(name, f, i) {
			continue
		}
		bad := token.NoPos
		found := false
		for m, pos := range s.writes {
			if m.param() && m.idx == i {
				found = true
				if bad == token.NoPos || pos < bad {
					bad = pos
				}
			}
		}
		if found {
			c.violate("kept", name+" "+paramName(f, i), c.pos(bad), fmt.Sprintf("%s changes what it is given as %s", name, paramName(f, i)))
		} else {
			c.ok("kept")
		}
	}
	for _, r := range copies[name] {
		if got := a.leadsOut(f, fr, r); len(got) > 0 {
			c.violate("copied", name, c.pos(f.Pos()), fmt.Sprintf("result %d of %s shares memory with %s", r, name, a.names(f, got)))
		} else {
			c.ok("copied")
		}
	}
	for _, v := range storers[name] {
		bad := false
		for to, from := range s.flows {
			if to.param() && to.idx != v {
				for r := range from {
					if r.to.param() && r.to.idx == v {
						bad = true
					}
				}
			}
		}
		for to, ms := range s.under {
			for m := range ms {
				bad = bad || to.param() && to.idx != v && m.param() && m.idx == v
			}
		}
		if bad {
			c.violate("stored", name, c.pos(f.Pos()), fmt.Sprintf("%s puts what it is given as %s into %s without copying it", name, paramName(f, v), paramName(f, 1-min(v, 1))))
		} else {
			c.ok("stored")
		}
	}
}

func paramName(f *ssa.Function, i int) string {
	if i == 0 && f.Signature.Recv() != nil {
		return "receiver"
	}
	if f.Signature.Recv() == nil {
		i++
	}
	return fmt.Sprintf("parameter %d", i)
}

func (a *aliases) names(f *ssa.Function, ms mems) string {
	out := map[string]bool{}
	for m := range ms {
		switch m.kind {
		case 'P', 'p', 'q':
			out["its "+paramName(f, m.idx)] = true
		case 'G', 'g':
			out["the package-level variable "+m.at.(*ssa.Global).Name()] = true
		default:
			out["a captured variable"] = true
		}
	}
	var s []string
	for n := range out {
		s = append(s, n)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

// leadsOut lists what of the outside a result shares, on the ways out which
// report no error.
func (a *aliases) leadsOut(f *ssa.Function, fr *aframe, r int) mems {
	out := mems{}
	for _, b := range f.Blocks {
		x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || r >= len(x.Results) || reports(x) {
			continue
		}
		for m := range fr.reach(fr.of(x.Results[r])) {
			if !made(m) {
				out[m] = true
			}
		}
	}
	return out
}

// reports reports a return which is only reached with an error.
func reports(x *ssa.Return) bool {
	for _, r := range x.Results {
		if !isErr(r.Type()) {
			continue
		}
		if neverNil(r) {
			return true
		}
		if r.Referrers() == nil {
			continue
		}
		for _, u := range *r.Referrers() {
			cmp, ok := u.(*ssa.BinOp)
			if !ok || cmp.Op != token.NEQ && cmp.Op != token.EQL {
				continue
			}
			if k, ok := cmp.Y.(*ssa.Const); !ok || !k.IsNil() {
				continue
			}
			for _, w := range *cmp.Referrers() {
				i, ok := w.(*ssa.If)
				if !ok {
					continue
				}
				s := i.Block().Succs[0]
				if cmp.Op == token.EQL {
					s = i.Block().Succs[1]
				}
				if len(s.Preds) == 1 && s.Dominates(x.Block()) {
					return true
				}
			}
		}
	}
	return false
}

// refs reports values which can lead to memory others see.  Errors do not
// count, nor do packages, types and syntax: nothing may change these at all.
func refs(t types.Type) bool {
	if isErr(t) || isLoaded(t) {
		return false
	}
	return psa.HasRefs(t) || isFunc(t)
}

// isLoaded reports what stands for packages, types and syntax, and lists of them.
func isLoaded(t types.Type) bool {
	for {
		switch x := t.(type) {
		case *types.Pointer:
			t = x.Elem()
			continue
		case *types.Slice:
			t = x.Elem()
			continue
		case *types.Map:
			t = x.Elem()
			continue
		case *types.Named:
			if p := x.Obj().Pkg(); p != nil {
				switch p.Path() {
				case "golang.org/x/tools/go/packages", "go/types", "go/ast", "go/token", "context":
					return true
				}
			}
		}
		return false
	}
}

// change reports an instruction which writes to a package, type or syntax.
func change(ins ssa.Instruction) bool {
	s, ok := ins.(*ssa.Store)
	if !ok {
		return false
	}
	for v := s.Addr; ; {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if isLoaded(x.X.Type().Underlying().(*types.Pointer).Elem()) {
				_, own := rootVal(x.X).(*ssa.Alloc)
				return !own
			}
			v = x.X
			continue
		case *ssa.IndexAddr:
			if l, ok := x.X.(*ssa.UnOp); ok {
				v = l.X
				continue
			}
		}
		return false
	}
}

// shortened reports an append to the first part of a list which is kept
// somewhere, unless what it gives replaces the list there.
func shortened(ins ssa.Instruction) *ssa.Slice {
	isAppend := func(v ssa.Value) *ssa.Call {
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return call
			}
		}
		return nil
	}
	v, ok := ins.(ssa.Value)
	if !ok || isAppend(v) == nil {
		return nil
	}
	// where the list appended to comes from
	var part *ssa.Slice
	var from ssa.Value
	seen := map[ssa.Value]bool{}
	var back func(v ssa.Value)
	back = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				back(e)
			}
		case *ssa.ChangeType:
			back(x.X)
		case *ssa.Slice:
			if x.High == nil || x.Max != nil && x.Max == x.High {
				back(x.X)
				return
			}
			switch y := x.X.(type) {
			case *ssa.UnOp:
				switch y.X.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
					part, from = x, y.X
				}
			case *ssa.Lookup:
				part, from = x, y
			}
		default:
			if call := isAppend(v); call != nil {
				back(call.Call.Args[0])
			}
		}
	}
	back(v)
	if part == nil {
		return nil
	}
	// where what it gives goes to
	kept := false
	done := map[ssa.Value]bool{}
	var on func(v ssa.Value)
	on = func(v ssa.Value) {
		if done[v] || v.Referrers() == nil {
			return
		}
		done[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Store:
				kept = kept || x.Val == v && alikeAddr(x.Addr, from)
			case *ssa.MapUpdate:
				l, ok := from.(*ssa.Lookup)
				kept = kept || ok && x.Value == v && x.Map == l.X && x.Key == l.Index
			case *ssa.Phi:
				on(x)
			case *ssa.ChangeType:
				on(x)
			case *ssa.Slice:
				on(x)
			case *ssa.Call:
				if isAppend(x) != nil && x.Call.Args[0] == v {
					on(x)
				}
			}
		}
	}
	on(v)
	if kept {
		return nil
	}
	return part
}

// alikeAddr reports addresses written the same way.
func alikeAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && alikeAddr(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && x.Index == y.Index && alikeAddr(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && alikeAddr(x.X, y.X)
	}
	return false
}

func isFunc(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

// parts lists the parts of a value of type t which are references; those of
// large structs are not told apart.
func parts(t types.Type) []string {
	if !refs(t) {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []string
		for i := 0; i < u.NumFields(); i++ {
			for _, p := range parts(u.Field(i).Type()) {
				out = append(out, fmt.Sprintf(".%d%s", i, p))
			}
		}
		if len(out) > 6 {
			return []string{""}
		}
		return out
	case *types.Array:
		return parts(u.Elem())
	}
	return []string{""}
}

// target is the type of what a reference of type t leads to.
func target(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Map:
		if refs(u.Key()) {
			return nil
		}
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

// partType is the type of part p of a value of type t.
func partType(t types.Type, p string) types.Type {
	for p != "" {
		switch u := t.Underlying().(type) {
		case *types.Array:
			t = u.Elem()
		case *types.Struct:
			i := 0
			n, _ := fmt.Sscanf(p, ".%d", &i)
			if n != 1 || i >= u.NumFields() {
				return nil
			}
			t = u.Field(i).Type()
			p = strings.TrimPrefix(p, fmt.Sprintf(".%d", i))
		default:
			return nil
		}
	}
	return t
}

// within takes the references of part p of a value out of those of the value.
func within(rs refset, p string) refset {
	out := refset{}
	for r := range rs {
		switch {
		case r.path == p || strings.HasPrefix(r.path, p+"."):
			out[ref{r.path[len(p):], r.to, r.off}] = true
		case r.path == "" || strings.HasPrefix(p, r.path+"."):
			out[ref{"", r.to, r.off}] = true
		}
	}
	return out
}

// short cuts the path of a part: a path without its end stands for all parts
// there.
func short(p string) string {
	n := 0
	for i := range p {
		if p[i] == '.' {
			if n++; n > 4 {
				return p[:i]
			}
		}
	}
	return p
}

func (fr *aframe) add(m mem, xs refset) {
	if len(xs) == 0 {
		return
	}
	s := fr.content[m]
	if s == nil {
		s = refset{}
		fr.content[m] = s
	}
	for x := range xs {
		x.path, x.off = short(x.path), short(x.off)
		if m.kind == 'M' || fr.mixed[m] {
			x.path = ""
		}
		if fr.mixed[m] {
			x.off = "*"
		}
		if !s[x] {
			s[x] = true
			fr.changed = true
		}
	}
	if len(s) > 40 && !fr.mixed[m] { // too much to tell its parts apart
		fr.mixed[m] = true
		fr.content[m] = refset{}
		fr.add(m, s)
	}
}

func (fr *aframe) put(v ssa.Value, xs refset) {
	s := fr.pts[v]
	if s == nil {
		s = refset{}
		fr.pts[v] = s
	}
	whole := false // has no parts
	switch v.Type().Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		whole = true
	}
	for x := range xs {
		x.path, x.off = short(x.path), short(x.off)
		if whole {
			x.path = ""
		}
		if !s[x] {
			s[x] = true
			fr.changed = true
		}
	}
}

func (fr *aframe) set(v ssa.Value, xs refset) {
	if len(xs) > 0 && refs(v.Type()) {
		fr.put(v, xs)
	}
}

func off(a, b string) string {
	if a == "*" || b == "*" {
		return "*"
	}
	return a + b
}

func to(m mem) refset { return refset{ref{"", m, ""}: true} }

func union(xs ...refset) refset {
	out := refset{}
	for _, x := range xs {
		for m := range x {
			out[m] = true
		}
	}
	return out
}

func given(kind byte, i int, t types.Type) refset {
	out := refset{}
	for _, p := range parts(t) {
		out[ref{p, mem{kind: kind, idx: i, path: p}, ""}] = true
	}
	return out
}

// of is what a value refers to.
func (fr *aframe) of(v ssa.Value) refset {
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == x {
				return given('P', i, x.Type())
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == x {
				return given('F', i, x.Type())
			}
		}
	case *ssa.Global:
		return to(mem{kind: 'G', at: x})
	case *ssa.Function:
		return to(mem{kind: 'S', at: x})
	}
	return fr.pts[v]
}

// holds is what a memory holds.
func (fr *aframe) holds(m mem) refset {
	out := refset{}
	var t types.Type
	switch m.kind {
	case 'P':
		t = fr.fn.Params[m.idx].Type()
	case 'F':
		t = fr.fn.FreeVars[m.idx].Type()
	case 'p', 'q', 'f', 'h', 'G', 'g':
		x := m
		x.kind = next[m.kind]
		out[ref{"", x, ""}] = true
	}
	if t != nil {
		if t = partType(t, m.path); t != nil {
			t = target(t)
		}
		deep := mem{next[m.kind], m.idx, m.path, "", m.at}
		if t == nil {
			out[ref{"", deep, ""}] = true
		} else {
			for _, p := range parts(t) {
				deep.below = p
				out[ref{p, deep, ""}] = true
			}
		}
	}
	for x := range fr.content[m] {
		out[x] = true
	}
	return out
}

// load is what the memory under the addresses holds.
func (fr *aframe) load(addrs refset) refset {
	out := refset{}
	for a := range addrs {
		if a.off == "*" {
			for r := range fr.holds(a.to) {
				out[ref{"", r.to, r.off}] = true
			}
			continue
		}
		for r := range within(fr.holds(a.to), a.off) {
			out[r] = true
		}
	}
	return out
}

// reach is everything references lead to.
func (fr *aframe) reach(rs refset) mems {
	out := mems{}
	var work []mem
	add := func(m mem) {
		if !out[m] {
			out[m] = true
			work = append(work, m)
		}
	}
	for r := range rs {
		add(r.to)
	}
	for len(work) > 0 {
		m := work[len(work)-1]
		work = work[:len(work)-1]
		for r := range fr.holds(m) {
			add(r.to)
		}
	}
	return out
}

func refsTo(ms mems) refset {
	out := refset{}
	for m := range ms {
		out[ref{"", m, ""}] = true
	}
	return out
}

func (fr *aframe) write(rs refset, at token.Pos) {
	for r := range rs {
		if _, ok := fr.writes[r.to]; !ok {
			fr.writes[r.to] = at
			fr.changed = true
		}
	}
}

func (fr *aframe) store(addrs, xs refset) {
	for a := range addrs {
		ys := refset{}
		for x := range xs {
			if a.off == "*" {
				x.path = ""
			} else {
				x.path = a.off + x.path
			}
			ys[x] = true
		}
		fr.add(a.to, ys)
	}
}

func (fr *aframe) solve() {
	for fr.changed = true; fr.changed; {
		fr.changed = false
		for _, b := range fr.fn.Blocks {
			for _, ins := range b.Instrs {
				fr.step(ins)
			}
		}
	}
}

// val is what v puts into memory where it is stored.
func (fr *aframe) val(v ssa.Value) refset {
	if !refs(v.Type()) {
		return nil
	}
	return fr.of(v)
}

func (fr *aframe) step(ins ssa.Instruction) {
	site := func(v ssa.Value) refset { return to(mem{kind: 'S', at: v}) }
	switch x := ins.(type) {
	case *ssa.Alloc:
		fr.set(x, site(x))
	case *ssa.MakeMap:
		fr.set(x, site(x))
	case *ssa.MakeSlice:
		fr.set(x, site(x))
	case *ssa.MakeChan:
		fr.set(x, site(x))
	case *ssa.FieldAddr:
		out := refset{}
		for r := range fr.of(x.X) {
			if r.off != "*" && (r.to.kind == 'S' || r.to.kind == 'P' || r.to.kind == 'F') {
				r.off += fmt.Sprintf(".%d", x.Field)
			}
			out[r] = true
		}
		fr.set(x, out)
	case *ssa.IndexAddr:
		fr.set(x, fr.of(x.X))
	case *ssa.Field:
		fr.set(x, within(fr.of(x.X), fmt.Sprintf(".%d", x.Field)))
	case *ssa.Index:
		fr.set(x, fr.of(x.X))
	case *ssa.Slice:
		fr.set(x, fr.of(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			fr.set(x, fr.of(e))
		}
	case *ssa.ChangeType:
		fr.set(x, fr.of(x.X))
	case *ssa.ChangeInterface:
		fr.set(x, fr.of(x.X))
	case *ssa.MakeInterface:
		if refs(x.X.Type()) {
			fr.set(x, fr.of(x.X))
		}
	case *ssa.Convert:
		if refs(x.X.Type()) {
			fr.set(x, fr.of(x.X))
		} else {
			fr.set(x, site(x))
		}
	case *ssa.SliceToArrayPointer:
		fr.set(x, fr.of(x.X))
	case *ssa.TypeAssert:
		if x.CommaOk {
			fr.put(x, fr.of(x.X))
		} else {
			fr.set(x, fr.of(x.X))
		}
	case *ssa.Lookup:
		if x.CommaOk {
			fr.put(x, fr.load(fr.of(x.X)))
		} else {
			fr.set(x, fr.load(fr.of(x.X)))
		}
	case *ssa.Range:
		if refs(x.X.Type()) {
			fr.put(x, fr.of(x.X))
		}
	case *ssa.Next:
		fr.put(x, fr.load(fr.of(x.Iter)))
	case *ssa.Extract:
		if ci, ok := x.Tuple.(*ssa.Call); ok {
			fr.result(ci, x.Index, x)
			return
		}
		fr.set(x, fr.pts[x.Tuple])
	case *ssa.UnOp:
		switch {
		case x.Op == token.ARROW && x.CommaOk:
			fr.put(x, fr.load(fr.of(x.X)))
		case x.Op == token.MUL || x.Op == token.ARROW:
			if rs, ok := fr.local(x); ok {
				fr.set(x, rs)
				return
			}
			fr.set(x, fr.load(fr.of(x.X)))
		}
	case *ssa.Select:
		for _, s := range x.States {
			if s.Send != nil {
				fr.store(fr.of(s.Chan), fr.val(s.Send))
			} else {
				fr.put(x, fr.load(fr.of(s.Chan)))
			}
		}
	case *ssa.Send:
		fr.store(fr.of(x.Chan), fr.val(x.X))
	case *ssa.Store:
		fr.write(fr.of(x.Addr), x.Pos())
		fr.store(fr.of(x.Addr), fr.val(x.Val))
	case *ssa.MapUpdate:
		fr.write(fr.of(x.Map), x.Pos())
		fr.store(fr.of(x.Map), union(fr.val(x.Key), fr.val(x.Value)))
	case *ssa.MakeClosure:
		fr.set(x, site(x))
		for _, b := range x.Bindings {
			fr.store(site(x), fr.of(b))
		}
		if g := x.Fn.(*ssa.Function); fr.a.own[g] { // it may be called any time
			fr.apply(x, g, nil, x.Bindings)
		}
	}
	if ci, ok := ins.(ssa.CallInstruction); ok {
		fr.call(ci)
	}
}

// callees are our functions a call may run, and whether these are all.
// local is what a local variable holds where it is read as a whole, if its
// address goes nowhere and it is set as a whole once, before anything else: a
// part replaced on the way is the new part only.
func (fr *aframe) local(l *ssa.UnOp) (refset, bool) {
	v, ok := l.X.(*ssa.Alloc)
	if !ok || v.Referrers() == nil {
		return nil, false
	}
	before := func(a, b ssa.Instruction) bool {
		if a.Block() != b.Block() {
			return a.Block().Dominates(b.Block())
		}
		for _, i := range a.Block().Instrs {
			if i == a || i == b {
				return i == a
			}
		}
		return false
	}
	var whole *ssa.Store
	var set []*ssa.Store // parts
	for _, u := range *v.Referrers() {
		switch y := u.(type) {
		case *ssa.Store:
			if whole != nil || y.Val == v {
				return nil, false
			}
			whole = y
		case *ssa.FieldAddr:
			for _, w := range *y.Referrers() {
				switch z := w.(type) {
				case *ssa.Store:
					if z.Val == y {
						return nil, false
					}
					set = append(set, z)
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return nil, false
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	if whole == nil || len(set) == 0 || !before(whole, l) {
		return nil, false
	}
	out := refset{}
	gone := map[string]bool{}
	for _, s := range set {
		if !before(whole, s) {
			return nil, false
		}
		p := fmt.Sprintf(".%d", s.Addr.(*ssa.FieldAddr).Field)
		if before(s, l) {
			gone[p] = true
		}
		for r := range fr.val(s.Val) {
			r.path = p + r.path
			out[r] = true
		}
	}
	for r := range fr.val(whole.Val) {
		first := r.path
		if i := strings.Index(strings.TrimPrefix(first, "."), "."); i >= 0 {
			first = first[:i+1]
		}
		if !gone[first] {
			out[r] = true
		}
	}
	return out, true
}

func (fr *aframe) callees(ci ssa.CallInstruction) (out []*ssa.Function, all bool) {
	c := ci.Common()
	if s := c.StaticCallee(); s != nil {
		if o := s.Origin(); o != nil && !fr.a.own[s] {
			s = o
		}
		if fr.a.own[s] {
			return []*ssa.Function{s}, true
		}
		return nil, false
	}
	if c.IsInvoke() {
		it, ok := c.Value.Type().Underlying().(*types.Interface)
		for _, g := range fr.a.fns {
			if ok && g.Signature.Recv() != nil && g.Name() == c.Method.Name() && len(g.Params) == len(c.Args)+1 && types.Implements(g.Signature.Recv().Type(), it) {
				out = append(out, g)
			}
		}
		return out, c.Method.Pkg() != nil && fr.a.c.ours[fr.a.c.prog.Package(c.Method.Pkg())]
	}
	for _, g := range fr.a.fns {
		if fr.a.taken[g] && g.Signature.Recv() == nil && types.Identical(g.Signature, c.Signature()) {
			out = append(out, g)
		}
	}
	return out, true
}

func argsOf(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

func (fr *aframe) call(ci ssa.CallInstruction) {
	c := ci.Common()
	v, _ := ci.(*ssa.Call)
	args := argsOf(c)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			base, clipped := args[0], false
			if s, ok := base.(*ssa.Slice); ok && s.Max != nil && s.Max == s.High {
				clipped = true
			}
			got := to(mem{kind: 'S', at: ci})
			var held refset
			if elems(base.Type()) {
				held = fr.load(fr.of(base))
				if len(args) > 1 {
					held = union(held, fr.load(fr.of(args[1])))
				}
			}
			fr.store(got, held)
			if v != nil {
				fr.set(v, got)
			}
			if clipped {
				return
			}
			fr.write(fr.of(base), ci.Pos())
			fr.store(fr.of(base), held)
			if v != nil {
				fr.set(v, fr.of(base))
			}
		case "copy":
			fr.write(fr.of(args[0]), ci.Pos())
			if elems(args[0].Type()) {
				fr.store(fr.of(args[0]), fr.load(fr.of(args[1])))
			}
		case "delete", "clear":
			fr.write(fr.of(args[0]), ci.Pos())
		default:
			if v != nil {
				for _, x := range args {
					fr.set(v, fr.of(x))
				}
			}
		}
		return
	}
	gs, ours := fr.callees(ci)
	for _, g := range gs {
		binds, fnv := fr.closure(c, g)
		if len(binds) == 0 {
			fr.applyTo(ci, g, args, nil, fnv)
		}
		for _, b := range binds {
			fr.applyTo(ci, g, args, b, fnv)
		}
	}
	if !ours {
		fr.library(ci, args)
	}
	if v != nil {
		if _, tup := v.Type().(*types.Tuple); !tup {
			fr.result(v, 0, v)
		}
	}
}

// elems reports lists whose elements can lead to shared memory.
func elems(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return refs(s.Elem())
	}
	return true
}

// mapped translates what a callee names to what it is here.
func (fr *aframe) mapped(m mem, args []ssa.Value, bind []ssa.Value, fnv refset) refset {
	var rs refset
	switch m.kind {
	case 'P', 'p', 'q':
		if m.idx >= len(args) {
			return nil
		}
		rs = fr.val(args[m.idx])
	case 'F', 'f', 'h':
		if bind == nil {
			return refsTo(fr.reach(fr.load(fnv)))
		}
		if m.idx >= len(bind) || bind[m.idx] == nil {
			return nil
		}
		rs = fr.of(bind[m.idx])
	case 'G', 'g':
		return to(m)
	default:
		return nil
	}
	rs = within(rs, m.path)
	switch next[m.kind] {
	case 'p', 'f':
		return rs
	}
	rs = within(fr.load(rs), m.below)
	if next[m.kind] == m.kind {
		return refsTo(fr.reach(fr.load(rs)))
	}
	return rs
}

// apply adds what running g does: args are nil where a closure is made, bind
// where one is called.
func (fr *aframe) apply(at ssa.Instruction, g *ssa.Function, args, bind []ssa.Value) {
	fr.applyTo(at, g, args, bind, nil)
}

// closure is what a called value leads to: what is captured where it is made
// here, or anything behind it.
func (fr *aframe) closure(c *ssa.CallCommon, g *ssa.Function) (binds [][]ssa.Value, other refset) {
	if c.IsInvoke() || c.StaticCallee() != nil {
		return nil, nil
	}
	other = refset{}
	for r := range fr.of(c.Value) {
		mc, ok := r.to.at.(*ssa.MakeClosure)
		switch {
		case ok && r.to.kind == 'S':
			if mc.Fn == g {
				binds = append(binds, mc.Bindings)
			}
		case r.to.captured():
			if b := fr.sibling(g); b != nil {
				binds = append(binds, b)
			}
		default:
			other[r] = true
		}
	}
	return
}

// sibling lists what g captures as the function itself captures it, if both are
// made in the same function.
func (fr *aframe) sibling(g *ssa.Function) []ssa.Value {
	p := fr.fn.Parent()
	if p == nil || g.Parent() != p {
		return nil
	}
	var mine, its []ssa.Value
	for _, b := range p.Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok {
				if mc.Fn == fr.fn {
					mine = mc.Bindings
				}
				if mc.Fn == g {
					its = mc.Bindings
				}
			}
		}
	}
	out := make([]ssa.Value, len(its))
	for i, x := range its {
		for j, y := range mine {
			if x == y && j < len(fr.fn.FreeVars) {
				out[i] = fr.fn.FreeVars[j]
			}
		}
	}
	return out
}

func (fr *aframe) applyTo(at ssa.Instruction, g *ssa.Function, args, bind []ssa.Value, fnv refset) {
	s := fr.a.sum[g]
	captured := func(m mem) bool { return bind == nil && m.captured() } // known where it is made
	for m, at := range s.writes {
		if !captured(m) {
			fr.write(fr.mapped(m, args, bind, nil), at)
		}
	}
	for m, from := range s.flows {
		if captured(m) {
			continue
		}
		t := fr.mapped(m, args, bind, nil)
		for r := range from {
			xs := refset{}
			for x := range fr.mapped(r.to, args, bind, fnv) {
				xs[ref{r.path + x.path, x.to, off(x.off, r.off)}] = true
			}
			fr.store(t, xs)
		}
	}
	for m, ps := range s.made {
		if captured(m) {
			continue
		}
		t := fr.mapped(m, args, bind, nil)
		got := mem{'M', -1 - m.idx, "", "", at}
		for p := range ps {
			fr.store(t, refset{ref{p, got, ""}: true})
		}
		fr.add(got, to(got))
		for y := range s.under[m] {
			fr.add(got, fr.mapped(y, args, bind, fnv))
		}
	}
}

// result gives v what result i of a call leads to.
func (fr *aframe) result(ci *ssa.Call, i int, v ssa.Value) {
	if !refs(v.Type()) {
		return
	}
	c := ci.Common()
	args := argsOf(c)
	gs, ours := fr.callees(ci)
	got := mem{kind: 'M', idx: i, at: ci}
	for _, g := range gs {
		s := fr.a.sum[g]
		if i >= len(s.results) {
			continue
		}
		binds, fnv := fr.closure(c, g)
		if len(binds) == 0 {
			binds = append(binds, nil)
		}
		for _, b := range binds {
			for r := range s.results[i] {
				xs := refset{}
				for x := range fr.mapped(r.to, args, b, fnv) {
					xs[ref{r.path + x.path, x.to, off(x.off, r.off)}] = true
				}
				fr.set(v, xs)
			}
			for m := range s.behind[i] {
				fr.add(got, fr.mapped(m, args, b, fnv))
			}
		}
		for p := range s.fresh[i] {
			fr.set(v, refset{ref{p, got, ""}: true})
			fr.add(got, to(got))
		}
	}
	if ours {
		return
	}
	fr.set(v, to(got))
	if copying(calleeOf(c)) {
		return
	}
	for _, a := range args {
		fr.set(v, fr.val(a))
		fr.add(got, refsTo(fr.reach(fr.val(a))))
	}
}

// library adds what a library function does to its arguments.
func (fr *aframe) library(ci ssa.CallInstruction, args []ssa.Value) {
	n := calleeOf(ci.Common())
	// functions among the arguments are called with what the others lead to
	others := refset{}
	for _, a := range args {
		if !isFunc(a.Type()) {
			others = union(others, refsTo(fr.reach(fr.val(a))))
		}
	}
	for _, a := range args {
		var g *ssa.Function
		switch x := a.(type) {
		case *ssa.MakeClosure:
			g = x.Fn.(*ssa.Function)
		case *ssa.Function:
			g = x
		}
		if g == nil || !fr.a.own[g] {
			continue
		}
		s := fr.a.sum[g]
		for m, at := range s.writes {
			if m.param() {
				fr.write(others, at)
			}
		}
		for m, from := range s.flows {
			for r := range from {
				if !r.to.param() {
					continue
				}
				t := others
				if m.captured() {
					if mc, ok := a.(*ssa.MakeClosure); ok {
						t = fr.mapped(m, nil, mc.Bindings, nil)
					}
				}
				fr.store(t, others)
			}
		}
	}
	if psa.Reads(n) || copying(n) || reading(n) {
		return
	}
	switch {
	case strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") || n == "slices.Reverse":
		// through the methods of the list, or its own cells
		if len(args) > 0 {
			if mi, ok := args[0].(*ssa.MakeInterface); ok && n != "sort.Slice" && n != "sort.SliceStable" {
				if g := fr.a.c.prog.LookupMethod(mi.X.Type(), nil, "Swap"); g != nil && fr.a.own[g] {
					fr.apply(ci, g, []ssa.Value{mi.X}, nil)
					return
				}
			}
			fr.write(fr.of(args[0]), ci.Pos())
		}
		return
	case setting(n):
		// a part of the first argument becomes one of the others
		if len(args) > 0 {
			all := refsTo(fr.reach(fr.val(args[0])))
			fr.write(all, ci.Pos())
			for _, a := range args[1:] {
				fr.store(all, fr.val(a))
			}
		}
		return
	case n == "encoding/json.Unmarshal" || strings.HasPrefix(n, "gopkg.in/yaml.v2.Unmarshal"):
		if len(args) > 1 {
			fr.write(refsTo(fr.reach(fr.val(args[1]))), ci.Pos())
		}
		return
	}
	all := refset{}
	for _, a := range args {
		all = union(all, refsTo(fr.reach(fr.val(a))))
	}
	fr.write(all, ci.Pos())
	for _, a := range args {
		fr.store(fr.val(a), all)
	}
}

// setting are library functions which put their other arguments into the first.
func setting(n string) bool {
	for _, p := range []string{"(*github.com/Jeffail/gabs/v2.Container).Set", "(*github.com/Jeffail/gabs/v2.Container).Delete", "(*github.com/Jeffail/gabs/v2.Container).Array", "(*github.com/Jeffail/gabs/v2.Container).Object",
		"(*golang.org/x/tools/go/types/typeutil.Map).Set", "(*golang.org/x/tools/go/types/typeutil.Map).Delete", "(*bytes.Buffer).", "(*strings.Builder)."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// reading are further library functions which change nothing they are given.
func reading(n string) bool {
	for _, p := range []string{"(reflect.Value).", "(*github.com/sirupsen/logrus.", "github.com/sirupsen/logrus."} {
		if strings.HasPrefix(n, p) && !strings.Contains(n, ").Set") {
			return true
		}
	}
	return false
}

// copying are library functions whose results share nothing with what they are
// given.
func copying(n string) bool {
	for _, p := range []string{"encoding/json.Marshal", "encoding/json.Valid", "gopkg.in/yaml.v2.Marshal", "strings.", "strconv.", "path.", "path/filepath.", "fmt.Sprint", "os.Getwd", "os.Stat",
		"net/url.", "(*net/url.URL)", "io/ioutil.ReadFile", "os.ReadFile", "(go/types.Type).String", "errors.", "github.com/pkg/errors.", "fmt.Errorf", "regexp.QuoteMeta", "(*regexp.Regexp).Match", "encoding/json.Compact"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// export renews the summary of a function.
func (fr *aframe) export() {
	s := fr.a.sum[fr.fn]
	for m, at := range fr.writes {
		if !m.outer() {
			continue
		}
		if _, ok := s.writes[m]; !ok {
			s.writes[m] = at
			fr.a.changed = true
		}
	}
	for m, xs := range fr.content {
		if !m.outer() {
			continue
		}
		add := func(r ref) {
			r.path, r.off = short(r.path), short(r.off)
			if made(r.to) || r.to == m {
				return
			}
			if s.flows[m] == nil {
				s.flows[m] = refset{}
			}
			if !s.flows[m][r] {
				s.flows[m][r] = true
				fr.a.changed = true
			}
		}
		for x := range xs {
			add(x)
			if !made(x.to) {
				continue
			}
			if s.made[m] == nil {
				s.made[m], s.under[m] = map[string]bool{}, mems{}
			}
			if p := short(x.path); !s.made[m][p] {
				s.made[m][p] = true
				fr.a.changed = true
			}
			for y := range fr.reach(to(x.to)) {
				if !made(y) && !s.under[m][y] {
					s.under[m][y] = true
					fr.a.changed = true
				}
			}
		}
	}
	n := fr.fn.Signature.Results().Len()
	for len(s.results) < n {
		s.results = append(s.results, refset{})
		s.behind = append(s.behind, mems{})
		s.fresh = append(s.fresh, map[string]bool{})
	}
	for _, b := range fr.fn.Blocks {
		x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || reports(x) {
			continue
		}
		for i, v := range x.Results {
			for r := range fr.val(v) {
				if !made(r.to) {
					if !s.results[i][r] {
						s.results[i][r] = true
						fr.a.changed = true
					}
					continue
				}
				if !s.fresh[i][r.path] {
					s.fresh[i][r.path] = true
					fr.a.changed = true
				}
				for y := range fr.reach(to(r.to)) {
					if !made(y) && !s.behind[i][y] {
						s.behind[i][y] = true
						fr.a.changed = true
					}
				}
			}
		}
	}
}
