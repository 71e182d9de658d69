package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["D01"] = checkD01 }

// chance lists library functions whose answers differ from run to run.
var chance = []string{"time.Now", "time.Since", "math/rand.", "(*math/rand.", "math/rand/v2.", "crypto/rand.", "os.Getpid", "os.Getppid", "os.Hostname", "runtime.NumGoroutine", "(reflect.Value).Pointer",
	"(reflect.Value).UnsafeAddr", "runtime.Stack", "io/ioutil.TempFile", "io/ioutil.TempDir", "os.CreateTemp", "os.MkdirTemp", "hash/maphash."}

func checkD01(c *Ctx) {
	c.explain = "Every loop over a map, every list such a loop fills and every other source of chance in what a scan or formatting can run is enumerated; what the loop makes of the order - accumulated lists, stored values, calls, early exits - is followed to where it is brought into order or does not matter. The functions in which the order is brought about by more than this are interpreted with their maps in several orders."
	c.rule("order", "nothing depends on the order in which a map is walked: lists are sorted before they are used, entries are stored under the keys they come from, and no entry is picked by being first or last", 2)
	c.rule("chance", "no time, random number, address or race enters a document", 40)
	c.rule("same", "the same data in maps of different order gives the same result", 4)
	fns, roots := c.reachable()
	o := &orders{c: c, own: map[*ssa.Function]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, dynamic: map[*ssa.Function]bool{}, exempt: map[*ssa.Function]string{},
		roots: roots, effects: map[*ssa.Function][]effect{}, seenU: map[ssa.Value]bool{}}
	for _, fn := range fns {
		o.own[fn] = true
		c.funcs[fn] = true
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						o.callers[f] = append(o.callers[f], ci)
					}
				}
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						if ci, ok := ins.(ssa.CallInstruction); !ok || ci.Common().Value != *op {
							o.dynamic[f] = true
						}
					}
				}
			}
		}
	}
	c.exemptions(o)
	for _, fn := range fns {
		c.chances(fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				o.source(fn, ins)
			}
		}
	}
	c.counts["loops without order judged"] = o.loops
	c.counts["lists without order judged"] = o.lists
	c.sameExtract()
	c.sameDefaults()
	c.sameClone()
}

// exemptions are the functions whose order is decided on their results: by the
// interpretations of this check, or by the properties which fix the result.
func (c *Ctx) exemptions(o *orders) {
	mark := func(why string, open bool, fns ...*ssa.Function) {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function, pkg *ssa.Package)
		walk = func(f *ssa.Function, pkg *ssa.Package) {
			if f == nil || seen[f] || !o.own[f] {
				return
			}
			if !open && len(seen) > 0 && api[fname(f)] {
				return // interpreted as a call there
			}
			root := f
			for root.Parent() != nil {
				root = root.Parent()
			}
			if root.Pkg != pkg {
				return
			}
			seen[f] = true
			o.exempt[f] = why
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							walk(g, pkg)
						}
					}
				}
			}
		}
		for _, f := range fns {
			if f != nil {
				walk(f, f.Pkg)
			}
		}
	}
	methods := func(pkg, typ string) (out []*ssa.Function) {
		n, ok := c.pkg(pkg).Members[typ].(*ssa.Type)
		if !ok {
			return nil
		}
		t, ok := n.Type().(*types.Named)
		if !ok {
			return nil
		}
		for i := 0; i < t.NumMethods(); i++ {
			out = append(out, c.prog.FuncValue(t.Method(i)))
		}
		return
	}
	mark("D01 (same)", true, c.fn("container", "ExtractKey"), c.fn("container", "Make"))
	mark("D01 (same)", false, c.fn("ioapi", "SetPathsDefaults"))
	mark("M01", true, c.method("container", "Container", "Merge"))
	mark("X02", false, c.fn("pkgutil", "Scan"))
	mark("X01", false, c.method("cmds", "Scanner", "ExportedComponents"))
	mark("F01", true, append(append(methods("container", "MapSlice"), methods("container", "Sorter")...), c.fn("container", "SortMapMarhsaler"))...)
	mark("G05", true, methods("types", "pointmap")...)
	if f := c.method("types", "Scanner", "Scan"); f != nil {
		mark("G05", true, f)
	}
}

// source judges one source of disorder.
func (o *orders) source(fn *ssa.Function, ins ssa.Instruction) {
	c := o.c
	if r, ok := ins.(*ssa.Range); ok {
		if _, ok := r.X.Type().Underlying().(*types.Map); !ok {
			return
		}
		for _, u := range *r.Referrers() {
			nx, ok := u.(*ssa.Next)
			if !ok {
				continue
			}
			h, body := loopOf(nx.Block())
			l := &uloop{fn: fn, head: h, body: body, key: map[ssa.Value]bool{}, dep: map[ssa.Value]bool{nx: true}, at: ins}
			if h == nil {
				// taken once: some entry of the map
				for _, e := range *nx.Referrers() {
					if x, ok := e.(*ssa.Extract); ok && x.Index > 0 && len(*x.Referrers()) > 0 {
						o.bad(l, x, "some entry of a map is picked")
					}
				}
				continue
			}
			for _, e := range *nx.Referrers() {
				if x, ok := e.(*ssa.Extract); ok {
					switch x.Index {
					case 0:
					case 1:
						l.key[x] = true
						l.dep[x] = true
					default:
						l.dep[x] = true
					}
				}
			}
			delete(l.dep, nx)
			o.judge(l)
		}
		return
	}
	ci, ok := ins.(*ssa.Call)
	if !ok {
		return
	}
	n := calleeOf(ci.Common())
	switch {
	case n == "(*golang.org/x/tools/go/types/typeutil.Map).Iterate", n == "(*sync.Map).Range":
		if o.exempt[fn] != "" {
			c.counts["loops decided elsewhere"]++
			return
		}
		if mc, ok := ci.Call.Args[1].(*ssa.MakeClosure); ok {
			f := mc.Fn.(*ssa.Function)
			for _, e := range o.effectsOf(f) {
				if e.free >= 0 || e.param < 0 {
					c.violate("order", fname(fn), c.ipos(ins), "what is done to the entries of a map depends on their order: "+e.what)
				}
			}
		}
		o.loops++
	case n == "(*golang.org/x/tools/go/types/typeutil.Map).Keys", n == "(reflect.Value).MapKeys", n == "(*os.File).Readdir", n == "(*os.File).Readdirnames", n == gabsC+"Children":
		if o.exempt[fn] == "" {
			o.list(ci, &uloop{fn: fn, at: ins}, nil)
		}
	}
}

// chances looks for what differs from run to run.
func (c *Ctx) chances(fn *ssa.Function) {
	isMain := fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" || fn.Parent() != nil && fn.Parent().Pkg.Pkg.Name() == "main"
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Go:
				c.expect(isMain, "chance", fname(fn), c.ipos(ins), "what a goroutine does is not ordered with the rest of the scan")
			case *ssa.Select:
				n := len(x.States)
				if !x.Blocking {
					n++
				}
				c.expect(n < 2, "chance", fname(fn), c.ipos(ins), "which case is taken is left to chance")
			case ssa.CallInstruction:
				n := calleeOf(x.Common())
				hit := ""
				for _, p := range chance {
					if n == p || strings.HasSuffix(p, ".") && strings.HasPrefix(n, p) {
						hit = n
					}
				}
				if hit != "" {
					if cl, ok := ins.(*ssa.Call); ok && onlyMessages(cl, map[ssa.Value]bool{}) {
						hit = ""
					}
				}
				c.expect(hit == "", "chance", fname(fn), c.ipos(ins), "%s differs from run to run", shortName(hit))
				if strings.HasPrefix(n, "fmt.") {
					for _, a := range x.Common().Args {
						if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.String(), "%p") {
							c.violate("chance", fname(fn), c.ipos(ins), "addresses differ from run to run")
						}
					}
				}
			}
		}
	}
}

// onlyMessages reports that a value is only logged or thrown away.
func onlyMessages(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MakeInterface:
			if !onlyMessages(x, seen) {
				return false
			}
		case *ssa.Store:
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok {
				return false
			}
			al, ok := ia.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			for _, u := range *al.Referrers() {
				if s, ok := u.(*ssa.Slice); ok {
					for _, w := range *s.Referrers() {
						if ci, ok := w.(ssa.CallInstruction); !ok || !talks(calleeOf(ci.Common())) {
							return false
						}
					}
				}
			}
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			n := calleeOf(x.Common())
			if n == "time.Since" || strings.HasPrefix(n, "(time.") {
				if cv, ok := r.(ssa.Value); !ok || !onlyMessages(cv, seen) {
					return false
				}
				continue
			}
			if !talks(n) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// orders2 are the orders of up to three entries which are tried.
func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// jumble reorders the entries of all objects.
func (k *skel) jumble(p []int) *skel {
	n := &skel{list: k.list, leaf: k.leaf}
	for i := range k.elems {
		j := i
		if !k.list {
			for m, x := range p {
				// the order of the first entries is that of p
				if m == i && x < len(k.elems) && len(k.elems) == len(p) {
					j = x
				}
			}
			if len(k.elems) == 2 && p[0] != 0 {
				j = 1 - i
			}
		}
		n.elems = append(n.elems, k.elems[j].jumble(p))
		if !k.list {
			n.keys = append(n.keys, k.keys[j])
		}
	}
	return n
}

func (c *Ctx) sameExtract() {
	fn := c.fn("container", "ExtractKey")
	at := c.pos(fn.Pos())
	for _, x := range []struct {
		what string
		doc  func() *skel
	}{
		{"siblings", func() *skel {
			return obj("b", obj("k", leaf("1"), "x", leaf("0")), "a", obj("y", obj("k", leaf("2"))), "c", obj("k", leaf("3")))
		}},
		{"lists of objects", func() *skel {
			return obj("l", arr(obj("b", obj("k", leaf("1")), "a", obj("k", leaf("2")))), "k", leaf("3"), "m", arr(obj("k", leaf("4"))))
		}},
	} {
		results := map[string]string{}
		for _, p := range permutations(3) {
			in := c.interp()
			c.opaque(in, "internal/container", "internal/container.ExtractKey", "internal/container.Container.Data")
			in.Rec = 6
			st := in.NewState()
			v := x.doc().jumble(p).build(c, in, st, func(n string) *T { return in.T.Str(n) })
			in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
				switch shortName(name) {
				case "(internal/container.Container).Data", gabsC + "Data":
					return []psa.Ret{{St: st, Kind: "ret", Val: v}}
				}
				return sorting(in, st, name, args, call)
			}
			var args []*T
			for _, q := range fn.Params {
				if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					args = append(args, in.T.Str("k"))
				} else {
					args = append(args, in.Param(q))
				}
			}
			for _, q := range c.run(in, fn, args, nil, st) {
				r := q.Kind
				if q.Kind == "ret" {
					r = "fails"
					if succeeded(q) {
						l := in.Resolve(q.St, q.Results[0])
						r = ""
						for _, e := range l.Args {
							r += str(in.Resolve(q.St, q.St.Norm(e))) + "; "
						}
						if l.Op != "list" {
							r = str(l)
						}
					}
				}
				results[r] = fmt.Sprint(p)
			}
		}
		var rs []string
		for r := range results {
			rs = append(rs, r)
		}
		c.expect(len(rs) == 1, "same", "ExtractKey "+x.what, at, "looking for a key in %s yields %d different lists, as maps are walked", x.what, len(rs))
	}
}

func (c *Ctx) sameDefaults() {
	fn := c.fn("ioapi", "SetPathsDefaults")
	at := c.pos(fn.Pos())
	results := map[string]bool{}
	fpT := c.typ("ioapi", "FlattenPath")
	for _, p := range permutations(3) {
		for _, swap := range []bool{false, true} {
			in := c.interp()
			T := in.T
			c.opaque(in, fname(fn))
			in.ReadOnly = func(name string) bool {
				return shortName(name) == fnMake || shortName(name) == "(internal/container.Container).SetP" || shortName(name) == ctMerge
			}
			st := in.NewState()
			mt := fn.Params[1].Type().Underlying().(*types.Map)
			names := []string{"/b", "/a", "/c"}
			var kv []*T0
			for _, i := range p {
				kv = append(kv, T.Str(names[i]), T.Sym("DEFAULT "+names[i], mt.Elem()))
			}
			defs := st.NewMap("DEF", fn.Params[1].Type(), kv...)
			ops := []*T0{T.Sym("OPER1", fpT), T.Sym("OPER2", fpT)}
			if swap {
				ops[0], ops[1] = ops[1], ops[0]
			}
			in.Model = func(st *psa.State, name string, f *ssa.Function, args []*T0, call *psa.Call) []psa.Ret {
				var l *T0
				switch shortName(name) {
				case fnPaths, fnMatch:
					l = T.Mk("list", nil, call.Typ.(*types.Tuple).At(0).Type(), ops...)
				default:
					return sorting(in, st, name, args, call)
				}
				return okOrErr(in, st, name, f, args, call, func(*psa.State) *T0 { return l })
			}
			n := 0
			for _, q := range c.run(in, fn, []*T0{in.Param(fn.Params[0]), defs}, nil, st) {
				if !succeeded(q) {
					continue
				}
				n++
				// the sequence of defaults merged into each operation
				r := ""
				for _, op := range []string{"OPER1", "OPER2"} {
					o := q.St.Norm(c.field(in, T.Sym(op, fpT), fpT, "Operation"))
					r += op + ":"
					for _, e := range calls(q, ctMerge) {
						if q.St.Norm(e.Args[0]) == o {
							cl, _ := callOf(q.St.Norm(e.Args[1]))
							if cl != nil && len(cl.Args) > 0 {
								r += " " + str(q.St.Norm(strip(cl.Args[0])))
							}
						}
					}
					r += "; "
				}
				results[r] = true
			}
			if n == 0 {
				results["none"] = true
			}
		}
	}
	c.expect(len(results) == 1 && !results["none"], "same", "SetPathsDefaults", at, "the order in which default operations are applied to an operation depends on that of a map: %s", strings.Join(sortedKeys(results), " | "))
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// sameClone decides documents with keys of one text and several types.
func (c *Ctx) sameClone() {
	fn := c.fn("container", "Make")
	at := c.pos(fn.Pos())
	anyMap := types.NewMap(anyType, anyType)
	results := map[string]bool{}
	for _, p := range permutations(3) {
		in := c.interp()
		T := in.T
		c.opaque(in, "internal/container", fname(fn))
		in.Rec = 4
		st := in.NewState()
		keys := []*T0{T.Mk("iface", nil, types.Typ[types.Int], T.Int(1)), T.Mk("iface", nil, tString, T.Str("1")), T.Mk("iface", nil, tString, T.Str("x"))}
		var kv []*T0
		for _, i := range p {
			kv = append(kv, keys[i], T.Mk("iface", nil, tString, T.Str(fmt.Sprintf("value %d", i))))
		}
		doc := T.Mk("iface", nil, anyMap, st.NewMap("DOC", anyMap, kv...))
		in.Model = func(st *psa.State, name string, f *ssa.Function, args []*T0, call *psa.Call) []psa.Ret {
			if name == "encoding/json.Marshal" {
				// what is encoded, in order of keys
				v := st.Norm(strip(args[0]))
				var ks, vs []*T0
				if v.Typ != nil {
					if _, ok := v.Typ.Underlying().(*types.Map); ok {
						ks, vs, _ = st.MapEntries(v)
					}
				}
				m := map[string]bool{}
				for i := range ks {
					m[str(st.Norm(ks[i]))+"="+str(st.Norm(vs[i]))] = true
				}
				results[strings.Join(sortedKeys(m), ", ")] = true
			}
			if name == "fmt.Sprintf" && len(args) == 2 {
				if f, ok := st.Norm(args[0]).ConstString(); ok && f == "%T" {
					if l := in.Resolve(st, args[1]); l.Op == "list" && len(l.Args) == 1 {
						if v := st.Norm(l.Args[0]); v.Op == "iface" {
							return []psa.Ret{{St: st, Kind: "ret", Val: T.Str(v.Typ.String())}}
						}
					}
				}
			}
			return sorting(in, st, name, args, call)
		}
		n := 0
		for _, q := range c.run(in, fn, []*T0{doc}, nil, st) {
			if q.Kind == "ret" {
				n++
			}
		}
		if n == 0 {
			results["none"] = true
		}
	}
	c.expect(len(results) == 1 && !results["none"], "same", "Make", at, "what an object with the keys 1 and \"1\" is read as depends on the order of a map: %s", strings.Join(sortedKeys(results), " | "))
}
