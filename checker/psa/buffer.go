package psa

import (
	"go/types"
	"strings"
)

// Buffers (strings.Builder, bytes.Buffer) are modelled by their content, a
// string kept in the heap next to the buffer. A buffer which is handed to code
// that is not interpreted has unknown content from then on.

func (in *Interp) bufRoot(addr *Term) *Term {
	return in.T.mk("buf", nil, types.Typ[types.String], addr)
}

// isBuf reports addresses of buffers.
func isBuf(t *Term) bool {
	if t == nil || t.Typ == nil {
		return false
	}
	if t.Op == "alloc" {
		return isBufType(t.Typ)
	}
	p, ok := under(t.Typ).(*types.Pointer)
	return ok && isBufType(p.Elem())
}

func isBufType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "strings.Builder", "bytes.Buffer":
		return true
	}
	return false
}

// bufContent is the content of the buffer at addr.
func (in *Interp) bufContent(st *State, addr *Term) *Term {
	root := in.bufRoot(addr)
	if o := st.heap[root]; o != nil {
		return st.Norm(o.Base)
	}
	if addr.Op == "call" && (addr.Callee() == "bytes.NewBuffer" || addr.Callee() == "bytes.NewBufferString") {
		return in.textOf(st, addr.Args[0])
	}
	if r, _ := in.addr(addr); r.Op == "alloc" {
		return in.T.Str("")
	}
	return in.T.mk("bufcontent", nil, types.Typ[types.String], addr)
}

// BufContent is the content of a buffer for callers outside the package.
func (in *Interp) BufContent(st *State, addr *Term) *Term { return in.bufContent(st, stripIface(addr)) }

// BufAppend writes to a buffer, for callers outside the package.
func (in *Interp) BufAppend(st *State, addr, text *Term) bool {
	addr = stripIface(st.Norm(addr))
	if !isBuf(addr) {
		return false
	}
	in.bufSet(st, addr, in.T.Concat(in.bufContent(st, addr), text))
	return true
}

// TextOf is the text of a byte slice.
func (in *Interp) TextOf(st *State, v *Term) *Term { return in.textOf(st, st.Norm(v)) }

func (in *Interp) bufSet(st *State, addr, v *Term) {
	root := in.bufRoot(addr)
	if o := st.heap[root]; o != nil && o.Base.Op == "bufescaped" {
		return
	}
	st.heap[root] = &Obj{Base: v, Over: map[string]*Term{}}
}

// bufEscape forgets the contents of buffers among the arguments.
func (in *Interp) bufEscape(st *State, args []*Term) {
	for _, a := range args {
		a = stripIface(a)
		if !isBuf(a) {
			continue
		}
		st.heap[in.bufRoot(a)] = &Obj{Base: in.T.mk("bufescaped", nil, types.Typ[types.String], a), Over: map[string]*Term{}}
	}
}

// textOf is the text of a byte slice.
func (in *Interp) textOf(st *State, v *Term) *Term {
	f := &frame{in: in}
	T := in.T
	if v.Op == "nil" {
		return T.Str("")
	}
	if v.Op == "conv" && isStringTerm(v.Args[0]) {
		return v.Args[0]
	}
	if _, ok := v.ConstString(); ok {
		return v
	}
	if v.Op == "cat" {
		r := T.Str("")
		for _, x := range v.Args {
			r = T.Concat(r, in.textOf(st, st.Norm(x)))
		}
		return r
	}
	if v.Op == "call" && v.Callee() == "bytes.Join" {
		if l := in.listOf(st, v.Args[0]); l != nil {
			r := T.Str("")
			for i, x := range l.Args {
				if i > 0 {
					r = T.Concat(r, in.textOf(st, st.Norm(v.Args[1])))
				}
				r = T.Concat(r, in.textOf(st, st.Norm(x)))
			}
			return r
		}
	}
	if l := f.in.listOf(st, v); l != nil {
		var b []byte
		for _, x := range l.Args {
			n, ok := x.ConstInt()
			if !ok {
				return f.convert(v, types.Typ[types.String])
			}
			b = append(b, byte(n))
		}
		return T.Str(string(b))
	}
	return f.convert(v, types.Typ[types.String])
}

func isStringTerm(t *Term) bool {
	if _, ok := t.ConstString(); ok {
		return true
	}
	b, ok := under(t.Typ).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// buffer models the methods of buffers and the functions writing to them.
func (f *frame) buffer(st *State, name string, args []*Term, rtyp types.Type) *Term {
	in := f.in
	T := in.T
	var addr, text *Term
	method := ""
	switch {
	case strings.HasPrefix(name, "(*strings.Builder)."), strings.HasPrefix(name, "(*bytes.Buffer)."):
		method = name[strings.LastIndex(name, ".")+1:]
		addr = args[0]
	case name == "fmt.Fprintf", name == "fmt.Fprint", name == "io.WriteString":
		addr = stripIface(args[0])
		if !isBuf(addr) {
			return nil
		}
		switch name {
		case "fmt.Fprintf":
			text = in.fold(st, "fmt.Sprintf", args[1:], types.Typ[types.String])
		case "fmt.Fprint":
			text = in.fold(st, "fmt.Sprint", args[1:], types.Typ[types.String])
		default:
			text = args[1]
		}
		if text == nil {
			return nil
		}
	default:
		return nil
	}
	switch method {
	case "WriteString":
		text = args[1]
	case "Write":
		text = in.textOf(st, args[1])
	case "WriteByte", "WriteRune":
		n, ok := args[1].ConstInt()
		if ok {
			text = T.Str(string(rune(n)))
		} else {
			text = T.mk("fmt", "c", types.Typ[types.String], args[1])
		}
	case "String":
		return in.bufContent(st, addr)
	case "Bytes":
		c := in.bufContent(st, addr)
		return T.mk("conv", nil, rtyp, c)
	case "Len":
		return T.Len(in.bufContent(st, addr))
	case "Grow":
		return T.mk("agg", nil, rtyp)
	case "Reset":
		in.bufSet(st, addr, T.Str(""))
		return T.mk("agg", nil, rtyp)
	case "Truncate":
		c := in.bufContent(st, addr)
		if b, _, ok := T.cutAt(c, args[1]); ok {
			in.bufSet(st, addr, b)
			return T.mk("agg", nil, rtyp)
		}
		return nil
	case "":
	default:
		return nil
	}
	in.bufSet(st, addr, T.Concat(in.bufContent(st, addr), text))
	n := T.Len(text)
	if tup, ok := rtyp.(*types.Tuple); ok {
		if tup.Len() == 2 {
			return T.mk("agg", nil, rtyp, n, T.Nil())
		}
		return T.mk("agg", nil, rtyp)
	}
	return T.Nil() // WriteByte
}
