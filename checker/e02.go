package main

import (
	"fmt"
	"go/token"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["E02"] = checkE02 }

// Flags of os.OpenFile.
const (
	oWronly, oRdwr, oAppend, oCreate, oExcl, oTrunc = 0x1, 0x2, 0x400, 0x40, 0x80, 0x200
)

// a write of the program: where to and what.
type written struct {
	to, what *T
	at       ssa.Instruction
	ok       *T // error of it
}

// writes lists the writes of a path and the files it makes.
func (c *Ctx) writes(in *psa.Interp, p *psa.Path) (ws []written, opened []*psa.Event) {
	T := in.T
	for _, e := range p.Events {
		if e.Kind != "call" {
			continue
		}
		arg := func(i int) *T0 { return p.St.Norm(e.Args[i]) }
		last := func() *T0 {
			if ci, ok := e.Instr.(ssa.CallInstruction); ok && ci.Common().Signature().Results().Len() > 1 {
				return T.Extract(e.Res, 1, errType)
			}
			return e.Res
		}
		switch n := callee(e); n {
		case "os.OpenFile", "os.Create":
			opened = append(opened, e)
		case "io/ioutil.WriteFile", "os.WriteFile":
			opened = append(opened, e)
			ws = append(ws, written{T.Mk("file", nil, nil, arg(0)), in.TextOf(p.St, arg(1)), e.Instr, e.Res})
		case "io.Copy":
			ws = append(ws, written{c.sink(arg(0)), c.source(in, p, arg(1)), e.Instr, last()})
		case "(*os.File).Write", "(io.Writer).Write", "(*os.File).WriteString", "io.WriteString", "(*bufio.Writer).Write":
			ws = append(ws, written{c.sink(arg(0)), in.TextOf(p.St, arg(1)), e.Instr, last()})
		case "(*bytes.Buffer).WriteTo", "(*bytes.Reader).WriteTo":
			ws = append(ws, written{c.sink(arg(1)), c.source(in, p, arg(0)), e.Instr, last()})
		case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
			ws = append(ws, written{c.sink(arg(0)), e.Res, e.Instr, T.Nil()})
		case "fmt.Print", "fmt.Printf", "fmt.Println":
			ws = append(ws, written{T.Sym("os.Stdout", nil), e.Res, e.Instr, T.Nil()})
		}
	}
	return
}

// sink is what a writer writes to: a stream or a file.
func (c *Ctx) sink(w *T) *T {
	w = strip(w)
	if w.Op == "extract" && (isCall(w.Args[0], "os.OpenFile") || isCall(w.Args[0], "os.Create")) {
		return w
	}
	return w
}

// source is the text a reader delivers.
func (c *Ctx) source(in *psa.Interp, p *psa.Path, r *T) *T {
	r = strip(p.St.Norm(r))
	switch {
	case isCall(r, "bytes.NewBuffer"), isCall(r, "bytes.NewReader"), isCall(r, "bytes.NewBufferString"), isCall(r, "strings.NewReader"):
		return in.TextOf(p.St, p.St.Norm(r.Args[0]))
	}
	return in.BufContent(p.St, r)
}

func checkE02(c *Ctx) {
	c.explain = "The main function of the tool is interpreted with its stages uninterpreted: what ends the program, what has been opened and written by then, and what has been written where when it ends well."
	c.rule("failing", "a run in which a stage fails ends with a non-zero status", 4)
	c.rule("untouched", "the output is neither opened nor written before the document is complete", 4)
	c.rule("written", "a run which ends well has written the formatted document, all of it and once, to its destination", 3)
	c.rule("destination", "stdout and stderr stand for the streams and every other destination for the file of this name, which is created and emptied", 3)
	c.rule("stages", "the document is the one which was scanned with the configuration, in the configured format", 2)
	c.rule("interrupt", "the scan runs under a context which the signals cancel", 1)
	in := c.interp()
	main := c.fn("cmd", "main")
	conf := c.fnLike("cmd", "getConfig", "cmd/oapi.Config,string,error")
	full := c.fnLike("cmd", "full", "internal/oapi/config.Config,error")
	cfgT := c.typ("config", "Config")
	c.opaque(in)
	was := in.Opaque
	in.Opaque = func(f *ssa.Function, s []*ssa.Function) bool {
		if f == conf || f == full {
			return true
		}
		return was(f, s)
	}
	at := c.pos(main.Pos())
	ends := map[string]int{}
	for _, p := range c.run(in, main, nil, nil, nil) {
		var cfg, config, doc, data *T
		var scanned *psa.Event
		failed := ""
		for _, f := range c.failures(in, p, nil) {
			if infallible(f.name, f.args) {
				continue
			}
			if p.St.Nil(f.err) == 0 {
				failed = f.name
			} else if p.St.Nil(f.err) != 1 && p.Kind == "ret" {
				c.expect(false, "failing", f.name, c.ipos(f.at), "the program can end well although %s has failed %s", f.name, c.where(p))
			}
		}
		formatted := -1
		for i, e := range p.Events {
			if e.Kind != "call" {
				continue
			}
			switch {
			case e.Fn == conf:
				cfg = in.T.Extract(e.Res, 0, nil)
			case e.Fn == full:
				config = in.T.Extract(e.Res, 0, cfgT)
				c.expect(cfg != nil && contains(p.St.Norm(e.Args[0]), cfg) || p.St.Norm(e.Args[0]) == cfg, "stages", "full", c.ipos(e.Instr), "the configuration is not made of the command line")
			case callee(e) == "oapi.Scan":
				c.expect(scanned == nil, "stages", "scan", c.ipos(e.Instr), "the program scans twice")
				scanned = e
				doc = in.T.Extract(e.Res, 0, nil)
			case callee(e) == "oapi.Format":
				c.expect(data == nil, "stages", "format", c.ipos(e.Instr), "the document is formatted twice")
				data = in.T.Extract(e.Res, 0, bytesT)
				formatted = i
				ok := config != nil && p.St.Norm(e.Args[0]) == p.St.Norm(c.field(in, config, cfgT, "Format")) && p.St.Norm(e.Args[1]) == doc
				c.expect(ok, "stages", "format", c.ipos(e.Instr), "%s is formatted as %s", str(e.Args[1]), str(e.Args[0]))
			}
		}
		ws, opened := c.writes(in, p)
		for i, e := range p.Events { // nothing is touched before
			switch callee(e) {
			case "os.Remove", "os.RemoveAll", "os.Truncate", "os.Rename":
				c.expect(formatted >= 0 && formatted < i, "untouched", callee(e), c.ipos(e.Instr), "files are changed before the document is complete")
			}
			for _, o := range opened {
				if o == e {
					c.expect(formatted >= 0 && formatted < i, "untouched", callee(e), c.ipos(e.Instr), "the output is opened before the document is complete")
				}
			}
			for _, w := range ws {
				if w.at == e.Instr && w.to.Op != "sym" {
					c.expect(formatted >= 0 && formatted < i || strings.Contains(str(w.to), "os.Stderr"), "untouched", callee(e), c.ipos(e.Instr), "the output is written before the document is complete")
				}
			}
		}
		switch p.Kind {
		case "exit", "panic":
			ends[p.Kind]++
			code := "1"
			for _, e := range p.Events {
				if callee(e) == "os.Exit" {
					code = str(p.St.Norm(e.Args[0]))
				}
			}
			c.expect(code != "0", "failing", failed, c.ipos(p.At), "the program ends with status 0 although %s has failed %s", failed, c.where(p))
			c.expect(failed != "", "failing", "no reason", c.ipos(p.At), "the program fails without a reason %s", c.where(p))
			if failed == "" || strings.HasPrefix(failed, "io.") || strings.Contains(failed, ".Write") {
				continue
			}
			// what has failed leaves the output alone
			for _, w := range ws {
				c.expect(strings.Contains(str(w.to), "os.Stderr"), "untouched", failed, c.ipos(w.at), "something is written although %s has failed", failed)
			}
		case "ret":
			if !c.expect(failed == "", "failing", failed, c.ipos(p.At), "the program ends well although %s has failed %s", failed, c.where(p)) {
				continue
			}
			ends["ret"]++
			if !c.expect(config != nil && data != nil, "stages", "all", at, "the program ends well without a document %s", c.where(p)) {
				continue
			}
			c.interrupted(in, p, scanned, at)
			out := p.St.Norm(c.field(in, config, cfgT, "Output"))
			if !c.expect(len(ws) == 1, "written", fmt.Sprint(len(ws)), c.ipos(p.At), "the program ends well with %d writes %s", len(ws), c.where(p)) {
				continue
			}
			w := ws[0]
			all := in.TextOf(p.St, p.St.Norm(data))
			c.expect(w.what == all, "written", "document", c.ipos(w.at), "%s is written, not the document", str(w.what))
			c.expect(p.St.Nil(p.St.Norm(w.ok)) == 1, "written", "failing", c.ipos(w.at), "the program ends well although writing has failed")
			c.destination(in, p, w, out, opened)
		}
	}
	c.expect(ends["ret"] > 0, "written", "ends", at, "the program never ends well")
	c.expect(ends["exit"]+ends["panic"] > 0, "failing", "ends", at, "the program never fails")
}

// destination decides that a write goes where the configuration says.
func (c *Ctx) destination(in *psa.Interp, p *psa.Path, w written, out *T, opened []*psa.Event) {
	t0 := in.T
	at := c.ipos(w.at)
	is := func(s string) int { return p.St.Truth(t0.Eq(out, t0.Str(s))) }
	to := str(w.to)
	stream := func(n string) bool {
		return strings.HasPrefix(to, "*") && strings.HasSuffix(strings.TrimSuffix(to, "()"), ":"+n)
	}
	switch {
	case is("stdout") == 1 || is("") == 1:
		c.expect(stream("os.Stdout") && len(opened) == 0, "destination", "stdout", at, "the document goes to %s, not to stdout", to)
	case is("stderr") == 1:
		c.expect(stream("os.Stderr") && len(opened) == 0, "destination", "stderr", at, "the document goes to %s, not to stderr", to)
	case is("stdout") == 0 && is("stderr") == 0:
		var name *T
		ok := len(opened) == 1
		if ok {
			e := opened[0]
			name = p.St.Norm(e.Args[0])
			switch n := callee(e); n {
			case "os.OpenFile":
				fl, known := p.St.Norm(e.Args[1]).ConstInt()
				ok = known && fl&oCreate != 0 && fl&oTrunc != 0 && fl&(oWronly|oRdwr) != 0 && fl&(oAppend|oExcl) == 0
				if perm, known := p.St.Norm(e.Args[2]).ConstInt(); !known || perm&0600 != 0600 {
					ok = false
				}
				ok = ok && w.to == t0.Extract(e.Res, 0, nil)
			case "os.Create":
				ok = w.to == t0.Extract(e.Res, 0, nil)
			default:
				ok = w.to.Op == "file"
			}
		}
		c.expect(ok && name == out, "destination", "file", at, "the document goes to %s, not to the file of the configuration, created and emptied", to)
	default:
		c.expect(false, "destination", "undecided", at, "the document goes to %s whatever the destination is %s", to, c.where(p))
	}
}

// interrupted decides that the signals cancel the context of the scan.
func (c *Ctx) interrupted(in *psa.Interp, p *psa.Path, scan *psa.Event, at string) {
	if !c.expect(scan != nil, "stages", "scan", at, "nothing is scanned %s", c.where(p)) {
		return
	}
	ctx := strip(p.St.Norm(scan.Args[0]))
	mk, n := callOf(ctx)
	if mk == nil || n != 0 {
		c.expect(false, "interrupt", "context", c.ipos(scan.Instr), "the context of the scan is %s, which nothing cancels", str(ctx))
		return
	}
	if shortName(mk.Callee()) == "os/signal.NotifyContext" {
		c.expect(bothSignals(in, p, mk.Args[1]), "interrupt", "signals", at, "not both signals cancel the scan")
		return
	}
	ok := false
	cancel := in.T.Extract(mk, 1, nil)
	for _, e := range p.Events {
		if e.Kind != "go" || len(e.Args) == 0 {
			continue
		}
		fn, isFn := e.Args[0].Aux.(*ssa.Function)
		if !isFn || !receives(fn, 0) {
			continue
		}
		var free []*T
		if e.Args[0].Op == "closure" {
			free = e.Args[0].Args
		}
		good, ran := true, false
		for _, q := range c.run(in, fn, e.Args[1:], free, p.St.Clone()) {
			if q.Kind != "ret" {
				continue
			}
			ran = true
			called := false
			for _, x := range q.Events[len(p.Events):] {
				called = called || x.Kind == "call" && x.Callee == "dyn" && q.St.Norm(x.Args[0]) == cancel
			}
			good = good && called
		}
		ok = ok || ran && good
	}
	notified := false
	for _, e := range p.Events {
		if callee(e) == "os/signal.Notify" {
			notified = bothSignals(in, p, e.Args[1])
		}
	}
	c.expect(ok && notified, "interrupt", "signals", at, "the signals do not cancel the scan")
}

// receives reports functions which wait for a channel.
func receives(fn *ssa.Function, depth int) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
			case *ssa.Select:
				return true
			case *ssa.Call:
				if f := x.Common().StaticCallee(); f != nil && depth < 3 && receives(f, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// bothSignals reports that SIGTERM and the interrupt are among signals (no
// signals stand for all).
func bothSignals(in *psa.Interp, p *psa.Path, v *T) bool {
	l := in.Resolve(p.St, p.St.Norm(v))
	if l.Op == "nil" || l.Op == "list" && len(l.Args) == 0 {
		return true
	}
	term, intr := false, false
	for _, a := range l.Args {
		s := str(strip(p.St.Norm(a)))
		term = term || s == "15"
		intr = intr || s == "2" || strings.Contains(s, "os.Interrupt")
	}
	return term && intr
}
