package psa

import (
	"fmt"
	"go/types"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// doCall interprets a call.
func (f *frame) doCall(it *item, ci ssa.CallInstruction, c *ssa.CallCommon, fnv *Term, args []*Term) []Ret {
	in := f.in
	T := in.T
	st := it.st
	site := in.site(f.ctx, ci)
	var rtyp types.Type = c.Signature().Results()
	if c.Signature().Results().Len() == 1 {
		rtyp = c.Signature().Results().At(0).Type()
	}
	call := &Call{Instr: ci, In: f.fn, Site: site, Typ: rtyp}
	call.Do = func(st *State, fnv *Term, args ...*Term) []Ret { return f.apply(st, ci, site, fnv, args) }
	call.Method = func(st *State, recv *Term, pkg *types.Package, m string, args ...*Term) []Ret {
		recv = st.Norm(recv)
		if recv.Op != "iface" {
			return nil
		}
		sel := in.Prog.MethodSets.MethodSet(recv.Typ).Lookup(pkg, m)
		if sel == nil {
			return nil
		}
		fn := in.Prog.MethodValue(sel)
		if fn == nil {
			return nil
		}
		return f.apply(st, ci, site, T.mk("fn", fn, fn.Signature), append([]*Term{recv.Args[0]}, args...))
	}

	var fn *ssa.Function
	var free []*Term
	name := ""
	switch {
	case c.IsInvoke():
		recv := fnv
		f.deref(st, recv, ci)
		name = c.Method.FullName()
		var dyn types.Type
		v := recv
		if recv.Op == "iface" {
			dyn, v = recv.Typ, recv.Args[0]
		} else if k, ok := st.kinds[recv]; ok {
			dyn = k
			v = T.mk("as", T.typeStr(k), k, recv)
		}
		args = append([]*Term{v}, args...)
		if dyn != nil {
			sel := in.Prog.MethodSets.MethodSet(dyn).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel != nil {
				fn = in.Prog.MethodValue(sel)
				if fn != nil {
					name = FuncName(fn)
				}
			}
		} else {
			args[0] = recv
		}
	default:
		if b, ok := c.Value.(*ssa.Builtin); ok {
			return f.builtin(it, ci, b.Name(), c, args, rtyp)
		}
		fn = c.StaticCallee()
		if fn == nil {
			switch fnv.Op {
			case "fn":
				fn = fnv.Aux.(*ssa.Function)
			case "closure":
				fn = fnv.Aux.(*ssa.Function)
				free = fnv.Args
			}
		} else if fnv.Op == "closure" {
			free = fnv.Args
		}
		if fn != nil {
			name = FuncName(fn)
		} else {
			name = "dyn"
			args = append([]*Term{fnv}, args...)
		}
	}
	for i := range args {
		args[i] = st.Norm(args[i])
	}
	if fn != nil && fn.Signature.Recv() != nil && !c.IsInvoke() && len(args) > 0 {
		if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			f.derefBy(st, args[0], ci, fn)
		}
	}
	if in.Model != nil {
		call.N = st.counts[site] + 1
		if rs := in.Model(st, name, fn, args, call); rs != nil {
			st.counts[site]++
			return rs
		}
	}
	if in.Sorts != nil && (strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "(sort.")) {
		call.N = st.counts[site] + 1
		if rs := in.Sorts(st, name, args, call); rs != nil {
			st.counts[site]++
			return rs
		}
	}
	if v := in.fold(st, name, args, rtyp); v != nil {
		return []Ret{{St: st, Kind: "ret", Val: v}}
	}
	if v := f.buffer(st, name, args, rtyp); v != nil {
		return []Ret{{St: st, Kind: "ret", Val: v}}
	}
	if isExit(name) {
		st.emit(&Event{Kind: "call", Callee: name, Fn: fn, Args: args, Instr: ci, In: f.fn, Depth: f.depth})
		return []Ret{{St: st, Kind: "exit", At: ci, Fn: f.fn}}
	}
	if fn != nil && len(fn.Blocks) > 0 && f.depth < in.MaxDepth && !f.onStack(fn) && (in.Opaque == nil || !in.Opaque(fn, f.stack)) &&
		len(args) == len(fn.Params) && len(free) == len(fn.FreeVars) {
		st.emit(&Event{Kind: "enter", Callee: name, Fn: fn, Args: args, Instr: ci, In: f.fn, Depth: f.depth})
		rets := in.call(fn, append([]*Term(nil), args...), free, st, f.ctx+">"+strconv.Itoa(site), f.stack, f.depth+1)
		for i := range rets {
			if rets[i].Kind == "ret" {
				rets[i].St.emit(&Event{Kind: "leave", Callee: name, Fn: fn, Args: args, Res: rets[i].Val, Instr: ci, In: f.fn, Depth: f.depth})
			}
		}
		return rets
	}
	return []Ret{{St: st, Kind: "ret", Val: f.opaque(st, ci, name, fn, args, rtyp, site)}}
}

// apply calls a function value with a body.
func (f *frame) apply(st *State, ci ssa.CallInstruction, site int, fnv *Term, args []*Term) []Ret {
	fnv = stripIface(st.Norm(fnv))
	if fnv.Op != "fn" && fnv.Op != "closure" {
		return nil
	}
	fn := fnv.Aux.(*ssa.Function)
	var free []*Term
	if fnv.Op == "closure" {
		free = fnv.Args
	}
	if len(fn.Blocks) == 0 || len(args) != len(fn.Params) || len(free) != len(fn.FreeVars) || f.onStack(fn) || f.depth >= f.in.MaxDepth {
		return nil
	}
	st.counts[site]++
	return f.in.call(fn, append([]*Term(nil), args...), free, st, f.ctx+">"+strconv.Itoa(site)+"."+strconv.Itoa(st.counts[site]), f.stack, f.depth+1)
}

func (f *frame) onStack(fn *ssa.Function) bool {
	n := 0
	for _, s := range f.stack {
		if s == fn {
			if n++; n > f.in.Rec {
				return true
			}
		}
	}
	return false
}

func isExit(name string) bool {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "syscall.Exit",
		"(*github.com/sirupsen/logrus.Logger).Fatal", "(*github.com/sirupsen/logrus.Logger).Fatalf", "(*github.com/sirupsen/logrus.Logger).Fatalln",
		"github.com/sirupsen/logrus.Fatal", "github.com/sirupsen/logrus.Fatalf", "github.com/sirupsen/logrus.Exit":
		return true
	}
	return false
}

var pureFns = map[string]bool{
	"path/filepath.Join": true, "path/filepath.IsAbs": true, "path/filepath.Ext": true, "path/filepath.Dir": true, "path/filepath.Base": true, "path/filepath.Clean": true,
	"path.Join": true, "path.IsAbs": true, "path.Ext": true, "path.Dir": true, "path.Base": true, "path.Clean": true,
	"regexp.QuoteMeta": true, "fmt.Sprintf": true, "fmt.Sprint": true, "go/types.Identical": true,
	"(*go/types.Var).Type": true, "(*go/types.Var).Name": true, "(*go/types.Var).Exported": true, "(*go/types.Var).Embedded": true,
	"(*go/types.object).Name": true, "(*go/types.object).Type": true, "(*go/types.object).Exported": true, "(*go/types.object).Pkg": true,
	"(*go/types.Struct).NumFields": true, "(*go/types.Struct).Field": true, "(*go/types.Struct).Tag": true,
	"(*go/types.Pointer).Elem": true, "(*go/types.Slice).Elem": true, "(*go/types.Array).Elem": true, "(*go/types.Map).Elem": true, "(*go/types.Map).Key": true,
	"(*go/types.Array).Len": true, "(*go/types.Basic).Kind": true, "(go/types.Type).Underlying": true, "(go/types.Type).String": true,
	"(*go/types.Named).Obj": true, "(*go/types.Named).Underlying": true, "(go/types.Object).Name": true, "(go/types.Object).Type": true, "(go/types.Object).Pkg": true,
	"(*go/types.Package).Path": true, "(*go/types.Package).Scope": true, "(*go/types.Package).Name": true, "(*go/types.Scope).Lookup": true,
	"reflect.ValueOf": true, "reflect.TypeOf": true, "(reflect.Value).Kind": true, "(reflect.Value).IsNil": true, "reflect.DeepEqual": true,
	"(*github.com/Jeffail/gabs/v2.Container).Data": false,
	"(*net/url.URL).String":                        true, "(*net/url.URL).Hostname": true, "(net/url.URL).String": true,
	"(error).Error": true, "strconv.CanBackquote": true, "strconv.Quote": true, "strconv.Itoa": true, "strconv.ParseBool": true, "strconv.ParseFloat": true, "strconv.Atoi": true, "strconv.ParseInt": true, "strconv.Unquote": true,
	"unicode/utf8.ValidString": true, "github.com/vmihailenco/tagparser.Parse": true, "go/token.IsExported": true, "go/ast.IsExported": true,
}

// IsPure reports functions whose result depends on their arguments only.
func IsPure(name string) bool {
	if p, ok := pureFns[name]; ok {
		return p
	}
	return strings.HasPrefix(name, "strings.") && name != "strings.NewReader" && !strings.HasPrefix(name, "strings.(")
}

var readOnlyPrefixes = []string{
	"fmt.", "strings.", "strconv.", "errors.", "github.com/pkg/errors.", "path/filepath.", "path.", "encoding/json.Marshal",
	"gopkg.in/yaml.v2.Marshal", "reflect.", "(reflect.", "regexp.", "(*regexp.Regexp).", "go/types.", "(*go/types.", "(go/types.", "os.", "io/ioutil.",
	"net/url.", "(*net/url.", "(error).", "(*github.com/Jeffail/gabs/v2.Container).", "github.com/Jeffail/gabs/v2.Wrap", "github.com/Jeffail/gabs/v2.New",
	"golang.org/x/tools/go/packages.Load", "(*github.com/fatih/structtag", "github.com/fatih/structtag", "github.com/vmihailenco", "context.", "(context.",
	"(*sync.", "sync.", "os/signal.", "(*text/template", "text/template", "(*bytes.Buffer)", "bytes.", "github.com/sirupsen/logrus", "(*github.com/sirupsen/logrus", "(github.com/sirupsen/logrus",
	"runtime.", "unicode", "go/build", "(*golang.org/x/tools/go/types/typeutil.Map)", "(*golang.org/x/tools/go/packages",
}

func (in *Interp) readOnly(name string) bool {
	if in.ReadOnly != nil && in.ReadOnly(name) {
		return true
	}
	for _, p := range readOnlyPrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// opaque models a call whose body is not interpreted.
func (f *frame) opaque(st *State, ci ssa.CallInstruction, name string, fn *ssa.Function, args []*Term, rtyp types.Type, site int) *Term {
	in := f.in
	T := in.T
	norm := make([]*Term, len(args))
	for i, a := range args {
		norm[i] = in.Resolve(st, a)
	}
	var t *Term
	if IsPure(name) || in.Pure != nil && in.Pure(name) {
		t = T.mk("call", CallAux{Name: name}, rtyp, norm...)
	} else {
		st.counts[site]++
		t = T.mk("call", CallAux{Name: name, Site: site, N: st.counts[site]}, rtyp, norm...)
	}
	st.emit(&Event{Kind: "call", Callee: name, Fn: fn, Args: norm, Res: t, Instr: ci, In: f.fn, Depth: f.depth})
	in.bufEscape(st, norm)
	switch {
	case in.readOnly(name):
	case strings.HasPrefix(name, "sort.") && len(norm) > 0 && in.Resolve(st, unwrap(norm[0])).Op == "list":
		// a permutation of known elements: any order stands for the others
	default:
		in.havocArgs(st, args, t)
	}
	if tup, ok := rtyp.(*types.Tuple); ok {
		if tup.Len() == 0 {
			return T.Nil()
		}
		var parts []*Term
		for i := 0; i < tup.Len(); i++ {
			parts = append(parts, st.Norm(T.Extract(t, i, tup.At(i).Type())))
		}
		return T.mk("agg", nil, rtyp, parts...)
	}
	return t
}

func unwrap(t *Term) *Term {
	for t.Op == "iface" || t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

// havocArgs forgets the content of everything an opaque call can write to.
func (in *Interp) havocArgs(st *State, args []*Term, call *Term) {
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "alloc", "make", "param", "sym", "free", "deref", "field", "lookup", "extract", "call", "global":
			if o, ok := st.heap[t]; ok && (t.Op == "alloc" || t.Op == "make" || isPtr(t.Typ) || t.Op == "global") {
				for _, v := range o.Over {
					visit(v)
				}
				n := &Obj{IsMap: o.IsMap, Over: map[string]*Term{}}
				n.Base = in.T.mk("out", nil, contentType(t, o), call, t)
				st.heap[t] = n
				return
			}
		case "addr":
			// only what is below the address
			root, path := in.addr(t)
			o, ok := st.heap[root]
			if !ok || len(path) == 0 {
				visit(root)
				return
			}
			for _, e := range path {
				if e.Field < 0 {
					visit(root)
					return
				}
			}
			key := pathKey(path)
			for k, v := range o.Over {
				if strings.HasPrefix(k, key) && (len(k) == len(key) || k[len(key)] == '.' || k[len(key)] == '[') {
					visit(v)
				}
			}
			typ := in.typeAt(root, o, path)
			if typ == nil {
				visit(root)
				return
			}
			st.store(root, path, in.T.mk("out", key, typ, call, root))
			return
		case "closure":
			fn := t.Aux.(*ssa.Function)
			for i, a := range t.Args {
				w := in.captures(fn, i)
				switch {
				case w.cell:
					visit(a)
				case len(w.content) > 0:
					seen[a] = true
					if o, ok := st.heap[a]; ok {
						for k, v := range o.Over {
							if w.content[-1] || w.under(k) {
								visit(v)
							}
						}
					}
				}
			}
			return
		}
		switch t.Op {
		case "iface", "slice", "list", "cat", "agg", "conv", "clip":
			for _, a := range t.Args {
				visit(a)
			}
		}
	}
	for _, a := range args {
		visit(a)
	}
}

// written tells what is written through a pointer: what it points to, or what
// is reached through fields of that (-1 stands for all of them).
type written struct {
	cell    bool
	content map[int]bool
}

// under decides whether a key of an object is below a field written through.
func (w written) under(key string) bool {
	for f := range w.content {
		k := peString(PE{Field: f})
		if strings.HasPrefix(key, k) && (len(key) == len(k) || key[len(k)] == '.' || key[len(k)] == '[') {
			return true
		}
	}
	return !strings.HasPrefix(key, ".")
}

// captures reports whether a closure may write the captured variable i, or
// something reached through it.
func (in *Interp) captures(fn *ssa.Function, i int) written {
	if i >= len(fn.FreeVars) {
		return written{cell: true, content: map[int]bool{-1: true}}
	}
	return in.writes(fn.FreeVars[i], 0)
}

// writes reports whether what a value points to is written, or something
// reached through it, by the function the value belongs to.
func (in *Interp) writes(v ssa.Value, depth int) (w written) {
	w.content = map[int]bool{}
	type item struct {
		v     ssa.Value
		deep  bool
		field int
	}
	seen := map[item]bool{}
	var work []item
	push := func(v ssa.Value, deep bool, field int) {
		it := item{v, deep, field}
		if !seen[it] {
			seen[it] = true
			work = append(work, it)
		}
	}
	hit := func(it item) {
		if it.deep {
			w.content[it.field] = true
		} else {
			w.cell = true
		}
	}
	through := func(it item, x written) {
		if x.cell {
			hit(it)
		}
		for f := range x.content {
			if it.deep || it.field >= 0 {
				f = it.field
			}
			w.content[f] = true
		}
	}
	push(v, false, -1)
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		refs := it.v.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.FieldAddr:
				f := it.field
				if !it.deep && f < 0 {
					f = x.Field
				}
				push(x, it.deep, f)
			case *ssa.IndexAddr:
				push(x, it.deep, it.field)
			case *ssa.UnOp, *ssa.Lookup, *ssa.Extract, *ssa.TypeAssert, *ssa.Range, *ssa.Next, *ssa.Field, *ssa.Index:
				push(x.(ssa.Value), true, it.field)
			case *ssa.Slice, *ssa.Phi, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Convert:
				push(x.(ssa.Value), it.deep, it.field)
			case *ssa.Store:
				if x.Addr == it.v {
					hit(it)
				} else if !it.deep {
					w.cell = true // the address escapes
				}
			case *ssa.MapUpdate:
				if x.Map == it.v {
					hit(it)
				}
			case *ssa.MakeClosure:
				for j, b := range x.Bindings {
					if b == it.v {
						through(it, in.captures(x.Fn.(*ssa.Function), j))
					}
				}
			case ssa.CallInstruction:
				n := ""
				if f := x.Common().StaticCallee(); f != nil {
					n = FuncName(f)
				}
				if b, ok := x.Common().Value.(*ssa.Builtin); ok {
					n = "builtin." + b.Name()
				}
				if in.readOnly(n) || n == "builtin.len" {
					continue
				}
				if !in.mayWrite(it.v.Type()) {
					continue
				}
				// the method behind a method value does what it does
				if f := x.Common().StaticCallee(); f != nil && len(f.Blocks) > 0 && depth < 3 {
					for j, a := range x.Common().Args {
						if a != it.v || j >= len(f.Params) {
							continue
						}
						through(it, in.writes(f.Params[j], depth+1))
					}
					if cl, ok := x.(*ssa.Call); ok && in.mayWrite(cl.Type()) {
						push(cl, true, it.field)
					}
					continue
				}
				hit(it)
			}
		}
	}
	return
}

// mayWrite reports types through which a callee can write.
func (in *Interp) mayWrite(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if in.mayWrite(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func isPtr(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Slice:
		return true
	}
	return false
}

func (f *frame) builtin(it *item, ci ssa.CallInstruction, name string, c *ssa.CallCommon, args []*Term, rtyp types.Type) []Ret {
	in := f.in
	T := in.T
	st := it.st
	ret := func(t *Term) []Ret {
		if t.Typ == nil {
			t.Typ = rtyp
		}
		return []Ret{{St: st, Kind: "ret", Val: t}}
	}
	switch name {
	case "len":
		v := st.Norm(args[0])
		if _, ok := under(v.Typ).(*types.Map); ok {
			if keys, _, base := st.MapEntries(v); base == nil && v.Op != "nil" {
				all := true
				for i, k := range keys {
					for _, l := range keys[:i] {
						if !(k.IsConst() && l.IsConst()) && st.Truth(T.Eq(k, l)) != 0 {
							all = false
						}
					}
				}
				if all {
					return ret(T.Int(int64(len(keys))))
				}
			}
		}
		if v.Op == "clip" {
			v = v.Args[0]
		}
		return ret(st.Norm(T.Len(v)))
	case "cap":
		return ret(T.mk("cap", nil, rtyp, args[0]))
	case "append":
		a := in.Resolve(st, args[0])
		if len(args) == 1 {
			return ret(a)
		}
		b := in.Resolve(st, args[1])
		st.emit(&Event{Kind: "append", Args: []*Term{args[0], b}, Instr: ci, In: f.fn, Depth: f.depth})
		if a.Op == "clip" {
			a = in.Resolve(st, a.Args[0])
		}
		if b.Op == "clip" {
			b = in.Resolve(st, b.Args[0])
		}
		if bt, ok := under(b.Typ).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			b = T.mk("conv", nil, rtyp, b)
		}
		r := T.Cat(rtyp, a, b)
		if r.Op == "nil" && a.Op == "list" {
			r = a
		}
		return ret(r)
	case "copy":
		d, s := args[0], in.Resolve(st, args[1])
		st.emit(&Event{Kind: "copy", Args: []*Term{d, s}, Instr: ci, In: f.fn, Depth: f.depth})
		if d.Op == "slice" {
			root, path := in.addr(d.Args[0])
			if len(path) == 0 {
				o := st.obj(root).clone()
				o.Over = map[string]*Term{}
				o.Base = s
				if s.Op == "slice" {
					o.Base = st.obj(s.Args[0]).Base
				}
				st.heap[root] = o
			}
		}
		return ret(T.mk("copied", nil, rtyp, d, s))
	case "delete":
		m, k := st.Norm(args[0]), st.Norm(args[1])
		st.emit(&Event{Kind: "mapdel", Args: []*Term{m, k}, Instr: ci, In: f.fn, Depth: f.depth})
		o, ok := st.heap[m]
		if !ok {
			o = &Obj{IsMap: true, Base: m}
		}
		o = o.clone()
		o.IsMap = true
		key := fmt.Sprintf("{%d}", k.ID)
		if _, ok := o.Over[key]; !ok {
			o.Keys = append(o.Keys, k)
		}
		o.Over[key] = T.mk("deleted", nil, nil)
		st.heap[m] = o
		return ret(T.Nil())
	case "panic":
		st.emit(&Event{Kind: "panic", Args: args, Instr: ci, In: f.fn, Depth: f.depth})
		return []Ret{{St: st, Kind: "panic", At: ci, Fn: f.fn}}
	case "recover":
		return ret(T.Nil())
	case "print", "println", "close", "clear":
		st.emit(&Event{Kind: "call", Callee: "builtin." + name, Args: args, Instr: ci, In: f.fn, Depth: f.depth})
		return ret(T.Nil())
	case "min", "max":
		return ret(T.mk(name, nil, rtyp, args...))
	case "ssa:wrapnilchk":
		return ret(args[0])
	}
	return ret(T.mk("builtin."+name, nil, rtyp, args...))
}

// fold evaluates string functions on constants, and gives a few functions
// their algebraic form.
func (in *Interp) fold(st *State, name string, args []*Term, rtyp types.Type) *Term {
	T := in.T
	str := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		return args[i].ConstString()
	}
	list := func(ss []string) *Term {
		var ts []*Term
		for _, s := range ss {
			ts = append(ts, T.Str(s))
		}
		return T.mk("list", nil, rtyp, ts...)
	}
	a, aok := str(0)
	b, bok := str(1)
	switch name {
	case "(*strings.Replacer).Replace":
		if !bok || args[0].Op != "call" || args[0].Callee() != "strings.NewReplacer" {
			break
		}
		l := in.Resolve(st, args[0].Args[0])
		if l.Op != "list" || len(l.Args)%2 != 0 {
			break
		}
		var ps []string
		for _, x := range l.Args {
			s, ok := x.ConstString()
			if !ok {
				return nil
			}
			ps = append(ps, s)
		}
		return T.Str(strings.NewReplacer(ps...).Replace(b))
	case "strings.TrimSpace":
		if aok {
			return T.Str(strings.TrimSpace(a))
		}
	case "strings.ToLower", "strings.ToUpper", "regexp.QuoteMeta":
		// these work piece by piece
		f := map[string]func(string) string{"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "regexp.QuoteMeta": regexp.QuoteMeta}[name]
		if aok {
			return T.Str(f(a))
		}
		if args[0].Op == "concat" {
			r := T.Str("")
			for _, x := range args[0].Args {
				if s, ok := x.ConstString(); ok {
					r = T.Concat(r, T.Str(f(s)))
					continue
				}
				r = T.Concat(r, T.mk("call", CallAux{Name: name}, rtyp, x))
			}
			return r
		}
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix":
		if aok && bok {
			switch name[len("strings."):] {
			case "Trim":
				return T.Str(strings.Trim(a, b))
			case "TrimLeft":
				return T.Str(strings.TrimLeft(a, b))
			case "TrimRight":
				return T.Str(strings.TrimRight(a, b))
			case "TrimPrefix":
				return T.Str(strings.TrimPrefix(a, b))
			default:
				return T.Str(strings.TrimSuffix(a, b))
			}
		}
		if p, tl, ok := T.tail(args[0]); ok && name == "strings.TrimSuffix" && bok && strings.HasSuffix(tl, b) {
			return T.Concat(p, T.Str(tl[:len(tl)-len(b)]))
		}
		if name == "strings.TrimPrefix" && bok && args[0].Op == "concat" {
			if p, ok := args[0].Args[0].ConstString(); ok && strings.HasPrefix(p, b) {
				r := T.Str(p[len(b):])
				for _, x := range args[0].Args[1:] {
					r = T.Concat(r, x)
				}
				return r
			}
		}
	case "strings.HasPrefix":
		if aok && bok {
			return T.Bool(strings.HasPrefix(a, b))
		}
		if bok && args[0].Op == "concat" {
			if p, ok := args[0].Args[0].ConstString(); ok {
				if strings.HasPrefix(p, b) {
					return T.Bool(true)
				}
				if !strings.HasPrefix(b, p) {
					return T.Bool(false)
				}
			} else if len(b) == 1 && st.Truth(T.Eq(args[0].Args[0], T.Str(""))) == 0 {
				return T.Call(name, rtyp, args[0].Args[0], args[1])
			}
		}
	case "strings.HasSuffix":
		if aok && bok {
			return T.Bool(strings.HasSuffix(a, b))
		}
		if _, tl, ok := T.tail(args[0]); ok && bok {
			if strings.HasSuffix(tl, b) {
				return T.Bool(true)
			}
			if !strings.HasSuffix(b, tl) {
				return T.Bool(false)
			}
		}
	case "strings.LastIndex", "strings.LastIndexByte":
		if name == "strings.LastIndexByte" {
			if n, ok := args[1].ConstInt(); ok {
				b, bok = string(rune(n)), n < 128
			}
		}
		if aok && bok {
			return T.Int(int64(strings.LastIndex(a, b)))
		}
		if p, tl, ok := T.tail(args[0]); ok && bok {
			if i := strings.LastIndex(tl, b); i >= 0 {
				return T.Len(T.Concat(p, T.Str(tl[:i])))
			}
		}
	case "strings.Contains":
		if aok && bok {
			return T.Bool(strings.Contains(a, b))
		}
	case "strings.EqualFold":
		if aok && bok {
			return T.Bool(strings.EqualFold(a, b))
		}
		for i, k := range args[:2] {
			// texts beginning with different letters differ
			x, ok := k.ConstString()
			sl := args[1-i]
			if !ok || x == "" || sl.Op != "sub" || len(sl.Args) != 3 {
				continue
			}
			y, ok := segsOf(sl.Args[0])[0].ConstString()
			if !ok || y == "" || x[0] >= 0x80 || y[0] >= 0x80 || strings.EqualFold(x[:1], y[:1]) {
				continue
			}
			if lo := sl.Args[1]; lo != nil && lo != T.Int(0) {
				continue
			}
			if hi := sl.Args[2]; hi != nil && st.Truth(T.mk("lt", nil, types.Typ[types.Bool], hi, T.Int(1))) == 0 {
				return T.Bool(false)
			}
		}
	case "strings.Index", "strings.IndexByte":
		if name == "strings.IndexByte" {
			if n, ok := args[1].ConstInt(); ok {
				b, bok = string(rune(n)), n < 128
			}
		}
		if aok && bok {
			return T.Int(int64(strings.Index(a, b)))
		}
		if bok {
			if s, ok := segsOf(args[0])[0].ConstString(); ok && strings.Contains(s, b) {
				return T.Int(int64(strings.Index(s, b)))
			}
		}
	case "strings.CutPrefix":
		if has := in.fold(st, "strings.HasPrefix", args, types.Typ[types.Bool]); has != nil && bok {
			if yes, _ := has.ConstBool(); yes {
				return T.mk("agg", nil, rtyp, in.fold(st, "strings.TrimPrefix", args, types.Typ[types.String]), has)
			}
			return T.mk("agg", nil, rtyp, args[0], has)
		}
	case "strings.Cut":
		if s, ok := segsOf(args[0])[0].ConstString(); ok && bok {
			if x, y, found := strings.Cut(s, b); found {
				return T.mk("agg", nil, rtyp, T.Str(x), T.Concat(T.Str(y), T.join(segsOf(args[0])[1:])), T.Bool(true))
			}
		}
	case "strings.Split":
		if aok && bok {
			return list(strings.Split(a, b))
		}
		if p, tl, ok := T.tail(args[0]); ok && bok && b != "" {
			if ss := strings.Split(tl, b); len(ss) > 1 {
				head := T.Concat(p, T.Str(ss[0]))
				return T.Cat(rtyp, T.mk("call", CallAux{Name: name}, rtyp, head, args[1]), list(ss[1:]))
			}
		}
	case "strings.Fields":
		if aok {
			return list(strings.Fields(a))
		}
	case "strings.Join":
		isSplit := func(t *Term) bool {
			return t.Op == "call" && t.Callee() == "strings.Split" && t.Args[1] == args[1]
		}
		if isSplit(args[0]) && bok {
			return args[0].Args[0]
		}
		if c := args[0]; c.Op == "cat" && bok {
			var r *Term
			for _, x := range c.Args {
				switch {
				case isSplit(x):
					if r != nil {
						r = T.Concat(r, args[1])
					} else {
						r = T.Str("")
					}
					r = T.Concat(r, x.Args[0])
				case x.Op == "list" && len(x.Args) > 0:
					for _, y := range x.Args {
						if r != nil {
							r = T.Concat(r, args[1])
						} else {
							r = T.Str("")
						}
						r = T.Concat(r, y)
					}
				default:
					return nil
				}
			}
			return r
		}
		l := in.listOf(st, args[0])
		if l != nil && bok {
			r := T.Str("")
			for i, x := range l.Args {
				if i > 0 {
					r = T.Concat(r, args[1])
				}
				r = T.Concat(r, x)
			}
			return r
		}
	case "strings.Replace", "strings.ReplaceAll":
		c, cok := str(2)
		if aok && bok && cok {
			n := int64(-1)
			if name == "strings.Replace" {
				var ok bool
				if n, ok = args[3].ConstInt(); !ok {
					return nil
				}
			}
			return T.Str(strings.Replace(a, b, c, int(n)))
		}
		// canonical form of a full replacement
		all := name == "strings.ReplaceAll"
		if !all {
			n, ok := args[3].ConstInt()
			all = ok && n < 0
		}
		if all && bok && cok {
			return T.mk("replace", b+"\x00"+c, types.Typ[types.String], args[0])
		}
	case "strconv.Itoa":
		if n, ok := args[0].ConstInt(); ok {
			return T.Str(strconv.FormatInt(n, 10))
		}
	case "strconv.FormatInt":
		n, ok := args[0].ConstInt()
		if b, ok2 := args[1].ConstInt(); ok && ok2 && b >= 2 && b <= 36 {
			return T.Str(strconv.FormatInt(n, int(b)))
		}
	case "path/filepath.Ext":
		if aok {
			return T.Str(filepath.Ext(a))
		}
	case "fmt.Sprintf":
		return in.sprintf(st, a, aok, args)
	case "fmt.Sprint":
		l := in.listOf(st, args[0])
		if l != nil && len(l.Args) == 1 {
			x := stripIface(l.Args[0])
			if bt, ok := under(x.Typ).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				return x
			}
			if n, ok := x.ConstInt(); ok {
				return T.Str(strconv.FormatInt(n, 10))
			}
		}
	case "errors.Is", "errors.As":
		return nil
	}
	return nil
}

// sprintf turns formats with %s, %v and %d of known kinds into concatenations.
func (in *Interp) sprintf(st *State, format string, ok bool, args []*Term) *Term {
	if !ok || len(args) != 2 {
		return nil
	}
	l := in.listOf(st, args[1])
	if l == nil {
		return nil
	}
	T := in.T
	r := T.Str("")
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			j := strings.IndexByte(format[i:], '%')
			if j < 0 {
				j = len(format) - i
			}
			r = T.Concat(r, T.Str(format[i:i+j]))
			i += j - 1
			continue
		}
		i++
		if i >= len(format) {
			return nil
		}
		if format[i] == '%' {
			r = T.Concat(r, T.Str("%"))
			continue
		}
		if n >= len(l.Args) {
			return nil
		}
		x := l.Args[n]
		n++
		inner := stripIface(x)
		isStr := false
		plain := false
		if x.Op == "iface" {
			if bt, ok := x.Typ.(*types.Basic); ok {
				plain = true
				isStr = bt.Info()&types.IsString != 0
			}
			if bt, ok := under(x.Typ).(*types.Basic); ok && bt.Info()&types.IsString != 0 && !hasMethod(in.Prog, x.Typ, "String") && !hasMethod(in.Prog, x.Typ, "Error") {
				isStr, plain = true, true
			}
		}
		switch format[i] {
		case 's', 'v':
			if isStr && plain {
				r = T.Concat(r, inner)
				continue
			}
			if c, ok := inner.ConstInt(); ok && plain && format[i] == 'v' {
				r = T.Concat(r, T.Str(strconv.FormatInt(c, 10)))
				continue
			}
			r = T.Concat(r, T.mk("fmt", string(format[i]), types.Typ[types.String], inner))
		case 'd':
			if c, ok := inner.ConstInt(); ok {
				r = T.Concat(r, T.Str(strconv.FormatInt(c, 10)))
				continue
			}
			r = T.Concat(r, T.mk("fmt", "d", types.Typ[types.String], inner))
		case 'q':
			if c, ok := inner.ConstString(); ok && isStr {
				r = T.Concat(r, T.Str(strconv.Quote(c)))
				continue
			}
			r = T.Concat(r, T.mk("fmt", "q", types.Typ[types.String], inner))
		default:
			return nil
		}
	}
	if n != len(l.Args) {
		return nil
	}
	return r
}

func hasMethod(prog *ssa.Program, t types.Type, name string) bool {
	ms := prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// Init interprets the package initialisers of the given packages and keeps the
// resulting values of package-level variables that nothing else writes.
func (in *Interp) Init(pkgs []*ssa.Package) {
	st := newState(in)
	in.mutated = map[*ssa.Global]bool{}
	isOurs := map[*ssa.Package]bool{}
	for _, p := range pkgs {
		isOurs[p] = true
	}
	saved := in.Opaque
	in.Opaque = func(fn *ssa.Function, stack []*ssa.Function) bool {
		return fn.Pkg == nil || !isOurs[fn.Pkg] || fn.Name() == "init" && len(stack) > 0 && fn.Synthetic != ""
	}
	for _, p := range pkgs {
		ini := p.Func("init")
		if ini == nil {
			continue
		}
		s := st.Clone()
		if g, ok := p.Members["init$guard"].(*ssa.Global); ok {
			s.store(in.Global(g), nil, in.T.Bool(false))
		}
		rets := in.call(ini, nil, nil, s, "init:"+p.Pkg.Path(), nil, 0)
		var ok []Ret
		for _, r := range rets {
			if r.Kind == "ret" {
				ok = append(ok, r)
			}
		}
		if len(ok) == 0 {
			continue
		}
		first := ok[0].St
		for root, o := range first.heap {
			same := true
			for _, r := range ok[1:] {
				x := r.St.heap[root]
				if x == nil || x.Base != o.Base || len(x.Over) != len(o.Over) {
					same = false
					break
				}
				for k, v := range o.Over {
					if x.Over[k] != v {
						same = false
					}
				}
			}
			if same {
				st.heap[root] = o
			}
		}
	}
	in.Opaque = saved
	st.last = nil
	st.facts = map[*Term]*Term{}
	// variables written outside of initialisers are unknown
	for fn := range AllFunctions(in.Prog) {
		if fn.Pkg == nil || !isOurs[fn.Pkg] {
			continue
		}
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if g := rootGlobal(s.Addr); g != nil {
					in.mutated[g] = true
				}
			}
		}
	}
	for g := range in.mutated {
		delete(st.heap, in.Global(g))
	}
	// maps updated through a loaded global outside of initialisers
	for fn := range AllFunctions(in.Prog) {
		if fn.Pkg == nil || !isOurs[fn.Pkg] || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				mu, ok := ins.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				ld, ok := mu.Map.(*ssa.UnOp)
				if !ok {
					continue
				}
				if g := rootGlobal(ld.X); g != nil {
					in.mutated[g] = true
					if o, ok := st.heap[in.Global(g)]; ok {
						if m, ok := o.Over[""]; ok {
							if mo, ok := st.heap[m]; ok {
								n := mo.clone()
								n.Base = in.T.mk("deref", "later", m.Typ, in.Global(g))
								st.heap[m] = n
							}
						}
					}
				}
			}
		}
	}
	in.changedLater(st, isOurs)
	in.initSt = st
}

// changedLater forgets what is reachable from variables whose content is
// written to outside of initialisers, other than by updates of a map they hold.
func (in *Interp) changedLater(st *State, isOurs map[*ssa.Package]bool) {
	flow := flowOf(in.Prog, isOurs)
	for g, ws := range flow.Writes {
		other := false
		if in.Plain(st, g) {
			continue // its content leads nowhere
		}
		for _, w := range ws {
			if mu, ok := w.(*ssa.MapUpdate); ok {
				if ld, ok := mu.Map.(*ssa.UnOp); ok && rootGlobal(ld.X) == g {
					continue
				}
			}
			if s, ok := w.(*ssa.Store); ok && rootGlobal(s.Addr) == g {
				continue
			}
			other = true
		}
		if !other {
			continue
		}
		in.mutated[g] = true
		seen := map[*Term]bool{}
		var visit func(t *Term)
		visit = func(t *Term) {
			if t == nil || seen[t] {
				return
			}
			seen[t] = true
			if o, ok := st.heap[t]; ok {
				n := o.clone()
				n.Base = in.T.mk("deref", "later", contentType(t, o), t)
				for _, v := range o.Over {
					visit(v)
				}
				if !o.IsMap {
					n.Over = map[string]*Term{}
				}
				st.heap[t] = n
			}
			for _, a := range t.Args {
				visit(a)
			}
		}
		visit(in.Global(g))
	}
}

// Plain reports that what a variable holds after initialisation, and always,
// leads to no memory but its own.
func (in *Interp) Plain(st *State, g *ssa.Global) bool {
	if in.mutated[g] {
		return false
	}
	if st == nil {
		st = in.initSt
	}
	if in.escapes == nil {
		in.escapes = map[*ssa.Global]bool{}
		for fn := range AllFunctions(in.Prog) {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if h, ok := (*op).(*ssa.Global); ok && addressUsed(ins, h) {
							in.escapes[h] = true
						}
					}
				}
			}
		}
	}
	if in.escapes[g] {
		return false
	}
	plain := true
	v := st.Load(in.Global(g), g.Type().Underlying().(*types.Pointer).Elem())
	Walk(v, func(t *Term) bool {
		switch t.Op {
		case "const", "nil", "zero", "agg", "struct", "fn":
		case "iface":
		default:
			plain = false
		}
		return plain
	})
	return plain
}

// addressUsed reports that the use of an address is another one than reading
// or writing what it leads to.
func addressUsed(ins ssa.Instruction, a ssa.Value) bool {
	switch x := ins.(type) {
	case *ssa.UnOp, *ssa.DebugRef:
		return false
	case *ssa.Store:
		return x.Val == a
	case *ssa.FieldAddr:
		for _, r := range *x.Referrers() {
			if addressUsed(r, x) {
				return true
			}
		}
		return false
	}
	return true
}

// Mutated reports package-level variables written outside of initialisers.
func (in *Interp) Mutated(g *ssa.Global) bool { return in.mutated[g] }

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

var flows = map[*ssa.Program]*Flow{}

// flowOf follows package-level variables through all functions other than
// initialisers.
func flowOf(prog *ssa.Program, isOurs map[*ssa.Package]bool) *Flow {
	if f := flows[prog]; f != nil {
		return f
	}
	var fns []*ssa.Function
	for fn := range AllFunctions(prog) {
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg != nil && isOurs[root.Pkg] && len(fn.Blocks) > 0 && fn.Name() != "init" && !strings.HasPrefix(fn.Name(), "init#") {
			fns = append(fns, fn)
		}
	}
	flows[prog] = NewFlow(prog, fns, func(g *ssa.Global) bool { return g.Pkg == nil || !isOurs[g.Pkg] })
	return flows[prog]
}
