package main

import (
	"fmt"
	"go/types"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["E01"] = checkE01 }

// infallible are callees whose errors say nothing about a failed step: writing
// to memory, making errors, asking what an error is, and closing.
func infallible(name string, args []*T) bool {
	switch {
	case strings.HasPrefix(name, "(*bytes.Buffer)."), strings.HasPrefix(name, "(*strings.Builder)."),
		strings.HasPrefix(name, "errors."), strings.HasPrefix(name, "github.com/pkg/errors."), name == "fmt.Errorf",
		name == "encoding/json.Unmarshal" && len(args) > 0 && isRes(args[0], "encoding/json.Marshal", 0), // what has just been written
		strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "strconv."), strings.HasSuffix(name, ".Close"),
		name == "os.Stat", name == "os.Lstat", strings.HasSuffix(name, ").Err"), strings.HasSuffix(name, ").Unwrap"), strings.HasSuffix(name, ").Cause"):
		return true
	case strings.HasPrefix(name, "fmt.Fprint"):
		return true // to a buffer or a stream for people
	}
	return false
}

// droppable lists the steps whose error may be dropped, with the reason.
var droppable = []struct{ pkg, callee, why string }{
	{"internal/container", "gopkg.in/yaml.v2.Marshal", "printing for logs"},
	{"internal/oapi/spec", "encoding/json.Marshal", "the example of a time"},
	{"", "(*github.com/fatih/structtag.Tags).Get", "the error says that there is no such tag"},
	{"internal/oapi/scan/types", "(internal/pointer.Fragment).Descendant", "cannot fail: the path is rooted"},
	{"internal/oapi/scan/types", "internal/pointer.NewGoPointer", "made of parts which are well-formed"},
	{"internal/oapi/scan/specs", "internal/pointer.NewGoPointer", "made of parts which are well-formed"},
	{"internal/oapi/spec", "internal/pointer.NewFragment", "the text is rooted"},
}

// contains reports that x holds t.
func contains(x, t *T) bool {
	seen := map[*T]bool{}
	var walk func(x *T) bool
	walk = func(x *T) bool {
		if x == nil || seen[x] {
			return false
		}
		if x == t {
			return true
		}
		seen[x] = true
		if x.Op == "out" || x.Op == "outmem" {
			return false // what a call has written is not what it returns
		}
		for _, a := range x.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(x)
}

// noReturn reports functions which end the program on every path.
func noReturn(fn *ssa.Function, depth int) bool {
	if len(fn.Blocks) == 0 || depth > 3 {
		return false
	}
	ends := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if x, ok := i.(*ssa.Call); ok {
				if f := x.Common().StaticCallee(); f != nil && (f.RelString(nil) == "os.Exit" || noReturn(f, depth+1)) {
					ends[b] = true
				}
			}
		}
	}
	if len(ends) == 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] || ends[b] {
			return true
		}
		seen[b] = true
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return false
			}
		}
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(fn.Blocks[0])
}

// step is a call which can fail.
type failing struct {
	err  *T
	name string
	args []*T
	at   ssa.Instruction
}

// failures lists the calls of a path which can fail: of the whole path, or of
// the last iteration of the loop the path ends.
func (c *Ctx) failures(in *psa.Interp, p *psa.Path, tainted map[*T]bool) []failing {
	var out []failing
	for _, e := range p.Events {
		switch e.Kind {
		case "loop":
			if p.Kind == "back" && p.Loop != nil && len(p.Loop.Instrs) > 0 && e.Instr == p.Loop.Instrs[0] {
				out = nil
			}
			for _, t := range e.Args {
				if tainted[t] {
					out = append(out, failing{t, "an earlier iteration", nil, e.Instr})
				}
			}
		case "call":
			ci, ok := e.Instr.(ssa.CallInstruction)
			if !ok || e.Res == nil {
				continue
			}
			rs := ci.Common().Signature().Results()
			if rs.Len() == 0 || !psa.IsErrorType(rs.At(rs.Len()-1).Type()) {
				continue
			}
			t := e.Res
			if rs.Len() > 1 {
				t = in.T.Extract(t, rs.Len()-1, rs.At(rs.Len()-1).Type())
			}
			out = append(out, failing{p.St.Norm(t), callee(e), e.Args, e.Instr})
		}
	}
	return out
}

// lost reports that the error is forgotten at the end of the path.
func (c *Ctx) lost(in *psa.Interp, p *psa.Path, f failing) bool {
	if p.St.Nil(f.err) == 1 {
		return false
	}
	switch p.Kind {
	case "ret":
		if n := len(p.Results); n > 0 && psa.IsErrorType(p.Results[n-1].Typ) || p.Fn != nil && hasErr(p.Fn.Signature) {
			if fails(p) {
				return false
			}
		}
		for _, r := range p.Results {
			if contains(p.St.Norm(r), f.err) {
				return false
			}
		}
	case "back":
		for _, v := range p.Next {
			if contains(v, f.err) {
				return false
			}
		}
	default:
		return false
	}
	// kept somewhere, or told which error it is
	after := false
	for _, e := range p.Events {
		if e.Kind == "call" && e.Instr == f.at {
			after = true
			continue
		}
		if !after && f.name != "an earlier iteration" {
			continue
		}
		switch e.Kind {
		case "store", "mapset":
			v := e.Args[len(e.Args)-1]
			if !contains(p.St.Norm(v), f.err) {
				continue
			}
			if e.Kind == "mapset" || contains(p.St.Norm(p.St.Load(e.Args[0], v.Typ)), f.err) {
				return false
			}
		case "call":
			n := callee(e)
			holds := false
			for _, a := range e.Args {
				holds = holds || contains(p.St.Norm(a), f.err)
			}
			if !holds {
				continue
			}
			if n == "errors.Is" || n == "errors.As" {
				if p.St.Truth(e.Res) == 1 {
					return false
				}
				continue
			}
			if e.Fn != nil && c.isOurs(e.Fn) && !strings.HasPrefix(n, "internal/logging.") {
				return false
			}
		}
	}
	for t, v := range p.St.FactTerms() { // err == ErrX
		if yes, ok := v.ConstBool(); ok && yes && t.Op == "eq" && contains(t, f.err) && p.St.Nil(f.err) == 0 {
			return false
		}
	}
	return true
}

func checkE01(c *Ctx) {
	c.explain = "Every function is interpreted with the functions it calls uninterpreted. Every error which comes out of a step must be known to be nil, handed on, or turned into a failure at the end of every path and of every iteration."
	c.rule("failures", "no function goes on or succeeds after a failed step", 60)
	for _, fn := range c.ourFuncs() {
		if fn.Pkg == nil {
			continue
		}
		c.funcs[fn] = true
		if !callsFallible(fn) {
			continue
		}
		in := c.interp()
		in.NoUnroll = true
		in.Opaque = func(f *ssa.Function, _ []*ssa.Function) bool {
			return f.Parent() == nil && !(c.isOurs(f) && noReturn(f, 0))
		}
		pkg := pkgShort(fn.Pkg.Pkg)
		ps := c.run(in, fn, nil, nil, nil)
		// loop values which may hold an error
		tainted := map[*T]bool{}
		may := func(p *psa.Path, v *T) bool {
			if v.Op == "loopphi" {
				return tainted[v] && p.St.Nil(v) != 1
			}
			return p.St.Nil(v) != 1
		}
		for n := -1; n != len(tainted); {
			n = len(tainted)
			for _, p := range ps {
				for t, v := range p.Next {
					if psa.IsErrorType(t.Typ) && v != t && may(p, v) {
						tainted[t] = true
					}
				}
				for _, e := range p.Events {
					if e.Kind != "loop" {
						continue
					}
					for _, t := range e.Args {
						if t != nil && psa.IsErrorType(t.Typ) && len(t.Args) > 0 && may(p, p.St.Norm(t.Args[0])) {
							tainted[t] = true
						}
					}
				}
			}
		}
		for _, p := range ps {
			for _, f := range c.failures(in, p, tainted) {
				if infallible(f.name, f.args) || c.mayDrop(pkg, f.name) {
					continue
				}
				c.expect(!c.lost(in, p, f), "failures", fmt.Sprintf("%s in %s", f.name, fname(fn)), c.ipos(f.at), "%s goes on although %s has failed %s", fname(fn), f.name, c.where(p))
			}
		}
	}
}

func (c *Ctx) mayDrop(pkg, callee string) bool {
	for _, d := range droppable {
		if (d.pkg == pkg || d.pkg == "") && d.callee == callee {
			return true
		}
	}
	return false
}

// callsFallible reports functions which call something that can fail.
func callsFallible(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if x, ok := i.(ssa.CallInstruction); ok {
				rs := x.Common().Signature().Results()
				if rs.Len() > 0 && types.Identical(rs.At(rs.Len()-1).Type(), errType) {
					return true
				}
			}
		}
	}
	return false
}
