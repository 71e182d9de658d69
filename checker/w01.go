package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["W01"] = checkW01 }

// vocabulary lists the words by which texts may be told apart, by what they
// mean.
var vocabulary = map[string]string{
	"methods of operations":            "get put post delete options head patch trace",
	"keys of documents":                "ref paths openapi extends components info externalDocs security servers tags",
	"commands":                         "openapi root schema",
	"specification files":              "oapi json yaml yml",
	"output formats":                   "json pretty yaml yml go stdout stderr",
	"flags and levels":                 "oapi dir config output format loglevel nolog panic fatal error warn warning info debug trace",
	"schemes and places of packages":   "go GOPATH src std",
	"tags":                             "json oapi inline omitempty nullable readonly writeonly deprecated unique required maxlen minlen maxitems minitems maxprops minprops pattern format type max min emax emin mulof",
	"types of tags and schemas":        "string float float32 float64 double uint uint8 uint16 uint32 uint64 int int8 int16 int32 int64 integer bool boolean base64 binary uuid password number object array date data time",
	"methods of routes":                "ACL BASELINE CONTROL BIND CHECKIN CHECKOUT CONNECT COPY DELETE GET HEAD LABEL LINK LOCK MERGE MKACTIVITY MKCALENDAR MKCOL MKREDIRECTREF MKWORKSPACE MOVE OPTIONS ORDERPATCH PATCH POST PRI PROPFIND PROPPATCH PUT REBIND REPORT SEARCH TRACE UNBIND UNCHECKOUT UNLINK UNLOCK UPDATE UPDATEREDIRECTREF VERSION",
	"types with a schema of their own": "go time Time",
}

// punctuation lists the other characters by which texts may be told apart.
const punctuation = "|-_.,:;/\\#%~$*?[]{}()^+= \t\n\r\"'`"

// special is a constant which inputs are told apart by.
type special struct {
	text string
	num  constant.Value
	size bool // the length of a text
	how  string
	fn   *ssa.Function
	at   ssa.Instruction
}

var comparing = map[token.Token]bool{token.EQL: true, token.NEQ: true, token.LSS: true, token.LEQ: true, token.GTR: true, token.GEQ: true}

var classRE = regexp.MustCompile(`\[[^\]]*\]`)

var wordRE = regexp.MustCompile(`[\pL\pN]+`)

func checkW01(c *Ctx) {
	c.explain = "Every constant of the reachable code which a text or a size is compared with, looked up by, searched for or cut at, is compared with the vocabulary of the tool, and numbers with the sizes which the other checks explore."
	c.rule("words", "texts are told apart by words of the documented vocabulary only", 60)
	c.rule("case", "texts which differ in case are different", 20)
	c.rule("sizes", "sizes are told apart by small numbers only", 20)
	known := map[string]bool{}
	for _, ws := range vocabulary {
		for _, w := range strings.Fields(ws) {
			known[w] = true
		}
	}
	fns, _ := c.reachable()
	seen := map[*ssa.Function]bool{}
	for _, fn := range fns {
		seen[fn] = true
	}
	for _, fn := range c.ourFuncs() {
		if !seen[fn] && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
			fns = append(fns, fn)
		}
	}
	for _, fn := range fns {
		c.funcs[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					c.folding(ci)
				}
				for _, s := range c.specials(fn, i) {
					c.special(s, known)
				}
			}
		}
	}
}

// folding reports functions which make texts of different case the same.
func (c *Ctx) folding(ci ssa.CallInstruction) {
	f := ci.Common().StaticCallee()
	if f == nil || f.Pkg == nil {
		return
	}
	p := f.Pkg.Pkg.Path()
	if p != "strings" && p != "bytes" && p != "unicode" {
		return
	}
	ok := true
	if p := ci.Parent().Pkg; p == c.pkg("route") || p == c.pkg("logging") {
		return // methods and levels are written either way
	}
	switch f.Name() {
	case "ToLower", "ToUpper", "Title", "ToTitle", "EqualFold", "SimpleFold", "ToLowerSpecial", "ToUpperSpecial", "ToTitleSpecial", "To":
		ok = f.Signature.Recv() != nil
	}
	c.expect(ok, "case", fname(ci.Parent()), c.ipos(ci), "%s.%s makes texts which differ in case the same", p, f.Name())
}

func (c *Ctx) special(s special, known map[string]bool) {
	at := c.ipos(s.at)
	if s.num != nil {
		limit := int64(4)
		if s.size {
			limit = 16 // as long as a word
		}
		ok := false
		if s.num.Kind() == constant.Int {
			if k, exact := constant.Int64Val(s.num); exact {
				ok = -limit <= k && k <= limit
			}
		} else if k, exact := constant.Float64Val(s.num); exact {
			ok = -1 <= k && k <= 1
		}
		if !ok && (c.harmless(s.at) || ofArray(s.at, s.num)) {
			ok = true
		}
		c.expect(ok, "sizes", fname(s.fn), at, "%s: a size is told apart by %s", s.how, s.num)
		return
	}
	bad := ""
	for _, w := range wordRE.FindAllString(classRE.ReplaceAllString(s.text, ""), -1) {
		if !known[w] && !known[strings.TrimLeft(w, "0123456789")] && !digits(w) {
			bad = w
		}
	}
	if bad == "" {
		for _, r := range wordRE.ReplaceAllString(s.text, "") {
			if !strings.ContainsRune(punctuation, r) {
				bad = string(r)
			}
		}
	}
	c.expect(bad == "", "words", fname(s.fn), at, "%s: a text is told apart by %q, and %q is none of the documented words", s.how, s.text, bad)
	c.sample("%s %q at %s", s.how, s.text, at)
}

func digits(w string) bool { return strings.Trim(w, "0123456789") == "" && len(w) <= 3 }

// harmless reports a comparison which decides nothing but how much room is
// made: what depends on it makes memory, or computes a number for that.
func (c *Ctx) harmless(i ssa.Instruction) bool {
	v, ok := i.(ssa.Value)
	if !ok || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		f, ok := r.(*ssa.If)
		if !ok {
			return false
		}
		for _, b := range f.Block().Succs {
			if len(b.Preds) > 1 {
				// where both ways meet: what differs there are capacities
				for _, i := range b.Instrs {
					p, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					if !onlyRoom(p, 0) {
						return false
					}
				}
				continue
			}
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Jump, *ssa.MakeSlice, *ssa.MakeMap, *ssa.BinOp, *ssa.DebugRef, *ssa.Alloc, *ssa.Slice:
				case *ssa.Phi:
					if !onlyRoom(x, 0) {
						return false
					}
				default:
					return false
				}
			}
			if len(b.Succs) != 1 {
				return false
			}
			for _, i := range b.Succs[0].Instrs {
				p, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				if !onlyRoom(p, 0) {
					return false
				}
			}
		}
	}
	return true
}

// ofArray reports whether an index is compared with the length of the array it
// is used for.
func ofArray(i ssa.Instruction, num constant.Value) bool {
	b, ok := i.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			var t types.Type
			switch x := r.(type) {
			case *ssa.IndexAddr:
				if p, ok := x.X.Type().Underlying().(*types.Pointer); ok && x.Index == v {
					t = p.Elem()
				}
			case *ssa.Index:
				if x.Index == v {
					t = x.X.Type()
				}
			}
			if t == nil {
				continue
			}
			if a, ok := t.Underlying().(*types.Array); ok && constant.Compare(num, token.EQL, constant.MakeInt64(a.Len())) {
				return true
			}
		}
	}
	return false
}

// onlyRoom reports values which are used as capacities only, or are empty
// slices and maps.
func onlyRoom(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	if p, ok := v.(*ssa.Phi); ok {
		empty := true
		for _, e := range p.Edges {
			switch x := e.(type) {
			case *ssa.MakeMap:
			case *ssa.MakeSlice:
				k, ok := x.Len.(*ssa.Const)
				empty = empty && ok && k.Int64() == 0
			case *ssa.Const:
				empty = empty && x.IsNil()
			default:
				empty = false
			}
		}
		if empty {
			return true
		}
	}
	rs := v.Referrers()
	if rs == nil {
		return false
	}
	for _, r := range *rs {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.MakeSlice:
			if x.Len == v {
				return false
			}
		case *ssa.MakeMap:
		case *ssa.BinOp:
			if comparing[x.Op] || !onlyRoom(x, depth+1) {
				return false
			}
		case *ssa.Phi:
			if !onlyRoom(x, depth+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// constOf is the constant a value is: also that of a package variable which
// is set once, by its declaration.
func constOf(v ssa.Value) constant.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			if b, ok := x.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsNumeric == 0 || x.Type().Underlying().(*types.Basic) == nil {
				return nil
			}
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			g, ok := x.X.(*ssa.Global)
			if x.Op != token.MUL || !ok || g.Pkg == nil {
				return nil
			}
			init := g.Pkg.Func("init")
			if init == nil {
				return nil
			}
			for _, b := range init.Blocks {
				for _, i := range b.Instrs {
					if s, ok := i.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
						if k, ok := s.Val.(*ssa.Const); ok {
							return k.Value
						}
					}
				}
			}
			return nil
		case *ssa.Const:
			return x.Value
		}
		return nil
	}
}

// specials lists the constants by which an instruction tells inputs apart.
func (c *Ctx) specials(fn *ssa.Function, i ssa.Instruction) (out []special) {
	text := func(v ssa.Value, how string) {
		if k := constOf(v); k != nil && k.Kind() == constant.String {
			out = append(out, special{text: constant.StringVal(k), how: how, fn: fn, at: i})
		}
		// what is put together of constants and other texts
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			for _, v := range []ssa.Value{b.X, b.Y} {
				if k := constOf(v); k != nil && k.Kind() == constant.String {
					out = append(out, special{text: constant.StringVal(k), how: how, fn: fn, at: i})
				}
			}
		}
	}
	num := func(v, other ssa.Value, how string) {
		b, ok := v.Type().(*types.Basic)
		if !ok || b.Info()&types.IsNumeric == 0 {
			return // of a type with its own constants
		}
		k := constOf(v)
		if k == nil || k.Kind() != constant.Int && k.Kind() != constant.Float {
			return
		}
		if b.Kind() == types.Uint8 || b.Kind() == types.Int32 || b.Kind() == types.UntypedRune {
			if n, ok := constant.Int64Val(k); ok {
				out = append(out, special{text: string(rune(n)), how: how, fn: fn, at: i})
			}
			return
		}
		out = append(out, special{num: k, size: ofText(other), how: how, fn: fn, at: i})
	}
	switch x := i.(type) {
	case *ssa.BinOp:
		if !comparing[x.Op] {
			return
		}
		text(x.X, "comparison")
		text(x.Y, "comparison")
		num(x.X, x.Y, "comparison")
		num(x.Y, x.X, "comparison")
	case *ssa.Lookup:
		text(x.Index, "key")
	case *ssa.MapUpdate:
		if n, ok := x.Map.Type().(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return // a table of a library
		}
		text(x.Key, "key")
	case *ssa.Store:
		switch a := x.Addr.(type) {
		case *ssa.IndexAddr:
			text(x.Val, "list")
		case *ssa.FieldAddr:
			_ = a
			if b, ok := x.Val.Type().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				num(x.Val, nil, "field")
			}
		}
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok && x.High != nil {
			k := len(out)
			num(x.High, nil, "cut")
			if len(out) > k && onlyCompared(x) {
				out[k].size = true // the start of a text
			}
		}
	case ssa.CallInstruction:
		cc := x.Common()
		sig := cc.Signature()
		if f := cc.StaticCallee(); f != nil && !c.telling(f) {
			return
		}
		if cc.StaticCallee() == nil && !cc.IsInvoke() {
			if _, ok := cc.Value.(*ssa.Builtin); ok {
				return
			}
		}
		if n := sig.Params().Len(); sig.Variadic() && n > 0 {
			if s, ok := sig.Params().At(n - 1).Type().(*types.Slice); ok && types.IsInterface(s.Elem()) {
				return // a message
			}
		}
		for _, a := range cc.Args {
			text(a, "call")
			if f := cc.StaticCallee(); f != nil && c.isOurs(f) {
				if b, ok := a.Type().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					num(a, nil, "call")
				}
			}
		}
	}
	return
}

// telling reports functions which may tell texts apart by a constant they are
// given.
func (c *Ctx) telling(f *ssa.Function) bool {
	if c.isOurs(f) {
		return !noReturn(f, 0)
	}
	if f.Pkg == nil {
		return true
	}
	p := f.Pkg.Pkg.Path()
	for _, x := range []string{"fmt", "errors", "log", "github.com/pkg/errors", "github.com/sirupsen/logrus", "github.com/alecthomas/kingpin", "encoding/json", "gopkg.in/yaml.v2", "io", "os/signal", "bufio", "text/template"} {
		if p == x || strings.HasPrefix(p, x+"/") {
			return false
		}
	}
	return true
}

// onlyCompared reports texts which are compared and nothing else.
func onlyCompared(v *ssa.Slice) bool {
	if b, ok := v.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			if !comparing[x.Op] {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// ofText reports the length of a text or a place in it.
func ofText(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return false
	}
	t, ok := call.Call.Args[0].Type().Underlying().(*types.Basic)
	return ok && t.Info()&types.IsString != 0
}
