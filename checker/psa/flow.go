package psa

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Flow follows what is reachable from package-level variables through the
// values of a program: their addresses, what is loaded from them, the parts of
// that, through calls, results, closures and local variables.
type Flow struct {
	prog  *ssa.Program
	funcs []*ssa.Function
	ours  func(*ssa.Function) bool
	// from holds the variables a value leads to; content those which the
	// content of a local variable (or captured one) leads to
	from, content map[ssa.Value]map[*ssa.Global]bool
	results       map[*ssa.Function]map[int]map[*ssa.Global]bool
	callees       map[ssa.CallInstruction][]*ssa.Function
	changed       bool
	// Writes are the instructions which write to something reachable from a
	// variable.
	Writes map[*ssa.Global][]ssa.Instruction
}

// HasRefs reports whether values of type t may share memory with others.
func HasRefs(t types.Type) bool {
	seen := map[types.Type]bool{}
	var walk func(t types.Type) bool
	walk = func(t types.Type) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if p, ok := t.(*types.Pointer); ok && p.Elem().String() == "net/url.Userinfo" {
			return false // cannot be changed
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return u.Kind() == types.UnsafePointer
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if walk(u.Field(i).Type()) {
					return true
				}
			}
			return false
		case *types.Array:
			return walk(u.Elem())
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				if walk(u.At(i).Type()) {
					return true
				}
			}
			return false
		case *types.Signature:
			return false
		}
		return true
	}
	return walk(t)
}

// NewFlow analyses the given functions.
func NewFlow(prog *ssa.Program, funcs []*ssa.Function, skip func(*ssa.Global) bool) *Flow {
	f := &Flow{prog: prog, funcs: funcs, from: map[ssa.Value]map[*ssa.Global]bool{}, content: map[ssa.Value]map[*ssa.Global]bool{},
		results: map[*ssa.Function]map[int]map[*ssa.Global]bool{}, callees: map[ssa.CallInstruction][]*ssa.Function{}, Writes: map[*ssa.Global][]ssa.Instruction{}}
	own := map[*ssa.Function]bool{}
	for _, fn := range funcs {
		own[fn] = true
	}
	f.ours = func(fn *ssa.Function) bool { return own[fn] }
	taken := map[*ssa.Function]bool{}
	for _, fn := range funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Global:
						if !skip(x) {
							f.from[x] = map[*ssa.Global]bool{x: true}
						}
					case *ssa.Function:
						if ci, ok := ins.(ssa.CallInstruction); !ok || ci.Common().Value != *op {
							taken[x] = true
						}
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					taken[mc.Fn.(*ssa.Function)] = true
				}
			}
		}
	}
	for _, fn := range funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				if s := c.StaticCallee(); s != nil {
					f.callees[ci] = []*ssa.Function{s}
					continue
				}
				if c.IsInvoke() {
					for _, g := range funcs {
						if g.Signature.Recv() != nil && g.Name() == c.Method.Name() && len(g.Params) == len(c.Args)+1 {
							if it, ok := c.Value.Type().Underlying().(*types.Interface); ok && types.Implements(g.Signature.Recv().Type(), it) {
								f.callees[ci] = append(f.callees[ci], g)
							}
						}
					}
					continue
				}
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				for g := range taken {
					if own[g] && types.Identical(g.Signature, c.Signature()) {
						f.callees[ci] = append(f.callees[ci], g)
					}
				}
			}
		}
	}
	for f.changed = true; f.changed; {
		f.changed = false
		for _, fn := range funcs {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					f.step(fn, ins)
				}
			}
		}
	}
	for _, fn := range funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for g := range f.written(ins) {
					f.Writes[g] = append(f.Writes[g], ins)
				}
			}
		}
	}
	return f
}

// Callees are our functions a call may call.
func (f *Flow) Callees(ci ssa.CallInstruction) []*ssa.Function { return f.callees[ci] }

// Of lists the variables a value leads to.
func (f *Flow) Of(v ssa.Value) map[*ssa.Global]bool { return f.from[v] }

func (f *Flow) add(m map[ssa.Value]map[*ssa.Global]bool, v ssa.Value, gs map[*ssa.Global]bool) {
	if len(gs) == 0 {
		return
	}
	s := m[v]
	if s == nil {
		s = map[*ssa.Global]bool{}
		m[v] = s
	}
	for g := range gs {
		if !s[g] {
			s[g] = true
			f.changed = true
		}
	}
}

// cell is the local variable an address lies in.
func cell(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				if s, ok := x.X.(*ssa.Slice); ok {
					v = s.X
					continue
				}
				return nil
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil
		}
	}
}

func (f *Flow) step(fn *ssa.Function, ins ssa.Instruction) {
	flow := func(to ssa.Value, xs ...ssa.Value) {
		if !HasRefs(to.Type()) {
			return
		}
		for _, x := range xs {
			f.add(f.from, to, f.from[x])
		}
	}
	switch x := ins.(type) {
	case *ssa.FieldAddr:
		flow(x, x.X)
	case *ssa.IndexAddr:
		flow(x, x.X)
	case *ssa.Field:
		flow(x, x.X)
	case *ssa.Index:
		flow(x, x.X)
	case *ssa.Lookup:
		flow(x, x.X)
	case *ssa.Slice:
		flow(x, x.X)
		if c := cell(x.X); c != nil && HasRefs(x.Type()) {
			f.add(f.content, x, f.content[c])
		}
	case *ssa.Phi:
		flow(x, x.Edges...)
	case *ssa.ChangeType:
		flow(x, x.X)
	case *ssa.ChangeInterface:
		flow(x, x.X)
	case *ssa.MakeInterface:
		if HasRefs(x.X.Type()) {
			flow(x, x.X)
		}
	case *ssa.Convert:
		flow(x, x.X)
	case *ssa.TypeAssert:
		flow(x, x.X)
	case *ssa.Extract:
		if c, ok := x.Tuple.(ssa.CallInstruction); ok {
			for _, g := range f.callees[c] {
				if HasRefs(x.Type()) {
					f.add(f.from, x, f.results[g][x.Index])
				}
			}
			return
		}
		if n, ok := x.Tuple.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok {
				flow(x, r.X)
			}
			return
		}
		flow(x, x.Tuple)
	case *ssa.UnOp:
		flow(x, x.X)
		if c := cell(x.X); c != nil && HasRefs(x.Type()) {
			f.add(f.from, x, f.content[c])
		}
	case *ssa.Store:
		if c := cell(x.Addr); c != nil {
			f.add(f.content, c, f.from[x.Val])
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if i < len(g.FreeVars) {
				f.add(f.from, g.FreeVars[i], f.from[b])
				if c := cell(b); c != nil {
					f.add(f.content, g.FreeVars[i], f.content[c])
					f.add(f.content, c, f.content[g.FreeVars[i]])
				}
			}
		}
	case *ssa.Return:
		for i, r := range x.Results {
			if len(f.from[r]) == 0 {
				continue
			}
			if f.results[fn] == nil {
				f.results[fn] = map[int]map[*ssa.Global]bool{}
			}
			s := f.results[fn][i]
			if s == nil {
				s = map[*ssa.Global]bool{}
				f.results[fn][i] = s
			}
			for g := range f.from[r] {
				if !s[g] {
					s[g] = true
					f.changed = true
				}
			}
		}
	}
	if ci, ok := ins.(ssa.CallInstruction); ok {
		c := ci.Common()
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, args...)
		}
		if b, ok := c.Value.(*ssa.Builtin); ok {
			if v, ok := ins.(ssa.Value); ok && b.Name() == "append" {
				flow(v, c.Args...)
				for _, a := range c.Args {
					if HasRefs(a.Type()) && elemRefs(a.Type()) {
						f.add(f.from, v, f.content[a])
					}
				}
			}
			return
		}
		for _, g := range f.callees[ci] {
			if len(args) == len(g.Params) {
				for i, a := range args {
					f.add(f.from, g.Params[i], f.from[a])
				}
			}
			if v, ok := ins.(ssa.Value); ok && HasRefs(v.Type()) {
				if _, tup := v.Type().(*types.Tuple); !tup {
					f.add(f.from, v, f.results[g][0])
				}
			}
		}
	}
}

func elemRefs(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return HasRefs(s.Elem())
	}
	return true
}

// reading are prefixes of library functions which do not write through their
// arguments.
var reading = []string{
	"strings.", "fmt.", "errors.", "github.com/pkg/errors.", "regexp.", "(*regexp.", "(*text/template.Template).Execute", "(*text/template.Template).Lookup", "(*text/template.Template).Name",
	"slices.Contains", "slices.Index", "slices.Equal", "slices.BinarySearch", "slices.Clone", "slices.Sorted", "slices.Values", "slices.All", "slices.Max", "slices.Min", "slices.Concat",
	"maps.Keys", "maps.Values", "maps.Clone", "maps.Equal", "maps.All",
	"encoding/json.Marshal", "gopkg.in/yaml.v2.Marshal", "reflect.", "sort.Search", "sort.SliceIsSorted", "sort.StringsAreSorted", "sort.IsSorted", "path.", "path/filepath.", "strconv.",
	"go/types.", "(*go/types.", "(go/types.", "go/ast.", "os.", "io.Copy", "io/ioutil.", "(*strings.Replacer).", "net/url.", "(*net/url.", "(sync", "(*sync", "sync", "context.", "(context.", "os/signal.",
	"(*github.com/Jeffail/gabs/v2.Container).Data", "(*github.com/Jeffail/gabs/v2.Container).Path", "(*github.com/Jeffail/gabs/v2.Container).Exists", "(*github.com/Jeffail/gabs/v2.Container).Search",
	"(*github.com/Jeffail/gabs/v2.Container).Children", "(*github.com/Jeffail/gabs/v2.Container).Bytes", "(*github.com/Jeffail/gabs/v2.Container).String", "(*github.com/Jeffail/gabs/v2.Container).Flatten",
	"github.com/Jeffail/gabs/v2.Wrap", "(*golang.org/x/tools/go/types/typeutil.Map).At", "(*golang.org/x/tools/go/types/typeutil.Map).Iterate", "(*golang.org/x/tools/go/types/typeutil.Map).Len",
	"golang.org/x/tools/go/packages.Load", "(error).", "text/template.Must", "bytes.", "unicode", "runtime.",
	"(*math/big.", "(*time.", "(time.", "time.", "github.com/fatih/structtag.", "github.com/vmihailenco", "(*github.com/fatih/structtag.Tags).Get",
}

// Reads reports library functions which only read what their arguments lead to.
func Reads(name string) bool {
	for _, p := range reading {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// written lists what an instruction writes to.
func (f *Flow) written(ins ssa.Instruction) map[*ssa.Global]bool {
	switch x := ins.(type) {
	case *ssa.Store:
		return f.from[x.Addr]
	case *ssa.MapUpdate:
		return f.from[x.Map]
	}
	ci, ok := ins.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	c := ci.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "clear", "copy":
			return f.from[c.Args[0]]
		}
		return nil
	}
	if len(f.callees[ci]) > 0 && (f.ours(f.callees[ci][0]) || c.StaticCallee() == nil) {
		return nil
	}
	if Reads(calleeName(c, nil)) {
		return nil
	}
	out := map[*ssa.Global]bool{}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	for _, a := range args {
		for g := range f.from[a] {
			out[g] = true
		}
	}
	return out
}
