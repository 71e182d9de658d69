package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["H01"] = checkH01 }

const logrusPath = "github.com/sirupsen/logrus"

func checkH01(c *Ctx) {
	c.explain = "The function which reads the command line and the main function are interpreted for every value of the enumerated flags, with the stages failing or not and the logging package open, so that what reaches the logger is seen; the logging package is interpreted for arbitrary messages."
	c.rule("arguments", "the command line is what follows the name of the program", 1)
	c.rule("formats", "every value --format takes is a format documents can be written in, and every such format can be asked for", 2)
	c.rule("levels", "every value --loglevel takes is a level of the logger, which is set to it, or stands for none", 2)
	c.rule("told", "with a level, the reason of a failing run is handed to the logger as a fatal message before the program ends; without, nothing is logged", 2)
	c.rule("streams", "messages go to where the logger puts them by itself, never to the standard output", 2)
	c.rule("severity", "messages are handed on as they are at the severity of their name, which is that of the logger", 6)
	_, enums := c.flagBindings()
	byDefault := c.commandLine()
	c.formats(enums["format"])
	levels := enums["loglevel"]
	has := false
	for _, l := range levels {
		has = has || l == byDefault
	}
	if !has { // what it is without the flag
		levels = append(append([]string{}, levels...), byDefault)
	}
	c.mainLog(levels)
	c.onlyMainPrints()
	c.severities()
}

// commandLine decides what is parsed and gives the level which is the default.
func (c *Ctx) commandLine() (byDefault string) {
	in := c.interp()
	c.opaque(in)
	fn := c.fnLike("cmd", "getConfig", "cmd/oapi.Config,string,error")
	n := 0
	for _, p := range c.run(in, fn, nil, nil, nil) {
		for _, e := range p.Events {
			if e.Kind == "call" && strings.HasSuffix(callee(e), "kingpin.FlagClause).Default") && flagName(e.Args[0]) == "loglevel" {
				byDefault = "?"
				if l := in.Resolve(p.St, e.Args[1]); l.Op == "list" && len(l.Args) > 0 {
					byDefault, _ = p.St.Norm(l.Args[0]).ConstString()
				}
			}
			if e.Kind != "call" || !strings.HasSuffix(callee(e), "kingpin.Application).Parse") {
				continue
			}
			n++
			a := p.St.Norm(e.Args[1])
			ok := a.Op == "sub" && len(a.Args) >= 2 && strings.Contains(str(a.Args[0]), "global:os.Args") && a.Args[1] == in.T.Int(1) &&
				(len(a.Args) < 3 || a.Args[2] == nil || a.Args[2] == in.T.Len(a.Args[0]))
			c.expect(ok, "arguments", fname(fn), c.ipos(e.Instr), "the command line which is parsed is %s", str(a))
			cl, i := callOf(p.St.Norm(p.Results[2]))
			c.expect(p.Kind != "ret" || cl == e.Res && i == 1, "arguments", fname(fn), c.ipos(e.Instr), "a command line which cannot be parsed is not reported")
		}
	}
	c.expect(n > 0, "arguments", fname(fn), c.pos(fn.Pos()), "the command line is not parsed")
	return
}

// formats decides that the formats of the flag are those of the documents.
func (c *Ctx) formats(names []string) {
	fn := c.fn("root", "Format")
	c.expect(len(names) > 0, "formats", "flag", c.pos(fn.Pos()), "--format takes no values")
	known := func(f func(in *psa.Interp) *T) (yes bool) {
		in := c.interp()
		c.opaque(in, fname(fn))
		for _, p := range c.run(in, fn, []*psa.Term{f(in), in.Param(fn.Params[1])}, nil, nil) {
			if p.Kind == "ret" && !fails(p) {
				yes = true
			}
		}
		return
	}
	strT := types.Typ[types.String]
	for _, n := range names {
		n := n
		c.expect(known(func(in *psa.Interp) *T { return in.T.Str(n) }), "formats", n, c.pos(fn.Pos()), "--format %s can be asked for, and no document is written in it", n)
	}
	// every text the function compares the format with
	seen := map[string]bool{}
	in := c.interp()
	c.opaque(in, fname(fn))
	F := in.T.Sym("FORMAT", strT)
	for _, p := range c.run(in, fn, []*psa.Term{F, in.Param(fn.Params[1])}, nil, nil) {
		if v, ok := p.St.Norm(F).ConstString(); ok && !fails(p) {
			seen[v] = true
		}
	}
	var all []string
	for s := range seen {
		all = append(all, s)
	}
	sort.Strings(all)
	for _, s := range all {
		has := false
		for _, n := range names {
			has = has || n == s
		}
		c.expect(has, "formats", s, c.pos(fn.Pos()), "documents can be written as %s, which --format does not take", s)
	}
}

// mainLog decides what the main function logs for every level.
func (c *Ctx) mainLog(levels []string) {
	main := c.fn("cmd", "main")
	conf := c.fnLike("cmd", "getConfig", "cmd/oapi.Config,string,error")
	full := c.fnLike("cmd", "full", "internal/oapi/config.Config,error")
	cmdT := c.typ("cmd", "Config")
	at := c.pos(main.Pos())
	fields, _ := c.flagBindings()
	c.expect(len(levels) > 0, "levels", "flag", at, "--loglevel takes no values")
	known := map[string]bool{"panic": true, "fatal": true, "error": true, "warn": true, "warning": true, "info": true, "debug": true, "trace": true}
	for _, level := range levels {
		in := c.interp()
		T := in.T
		c.opaque(in, pkgShort(c.pkg("logging").Pkg))
		was := in.Opaque
		in.Opaque = func(f *ssa.Function, s []*ssa.Function) bool { return f == conf || f == full || was(f, s) }
		given := T.Sym("FLAGS", cmdT)
		st := in.NewState()
		st.Assume(T.Eq(c.field(in, given, cmdT, fields["loglevel"]), T.Str(level)), true)
		ok := true
		in.Model = func(st *psa.State, name string, f *ssa.Function, args []*psa.Term, call *psa.Call) []psa.Ret {
			if f != conf {
				return nil
			}
			return []psa.Ret{{St: st, Kind: "ret", Val: T.Mk("agg", nil, call.Typ, given, T.Str(""), T.Nil())}}
		}
		logs, parsedAny, toldAny := 0, false, false
		for _, p := range c.run(in, main, nil, nil, st) {
			var parsed *T0 // the level the text stands for
			var set, logger *T0
			refused := false
			var msgs []*psa.Event
			for _, e := range p.Events {
				if e.Kind != "call" {
					continue
				}
				n := callee(e)
				switch {
				case n == logrusPath+".ParseLevel":
					text, _ := p.St.Norm(e.Args[0]).ConstString()
					c.expect(text == level, "levels", level, c.ipos(e.Instr), "for --loglevel %s the level of the logger is that of %s", level, str(e.Args[0]))
					parsed, parsedAny = T.Extract(e.Res, 0, nil), true
					refused = refused || p.St.Nil(T.Extract(e.Res, 1, errType)) == 0
				case strings.HasSuffix(n, "logrus.Logger).SetLevel"), n == logrusPath+".SetLevel":
					set = p.St.Norm(e.Args[len(e.Args)-1])
					if len(e.Args) > 1 {
						logger = e.Args[0]
					}
				case strings.Contains(n, "logrus.Logger).") || strings.HasPrefix(n, logrusPath+".") && n != logrusPath+".New" && n != logrusPath+".StandardLogger":
					msgs = append(msgs, e)
				}
			}
			if refused && known[level] {
				continue // does not happen
			}
			if len(msgs) > 0 {
				logs++
				c.expect(set != nil && parsed != nil && set == p.St.Norm(parsed), "levels", level, c.ipos(msgs[0].Instr), "with --loglevel %s messages are logged at level %s", level, str(set))
				for _, m := range msgs {
					name := callee(m)
					if strings.HasSuffix(name, ".SetOutput") || strings.HasSuffix(name, ".SetFormatter") || strings.HasSuffix(name, ".AddHook") {
						c.expect(!strings.HasSuffix(name, ".SetOutput") || !strings.Contains(str(p.St.Norm(m.Args[len(m.Args)-1])), "os.Stdout"), "streams", name, c.ipos(m.Instr), "messages go to the standard output")
						continue
					}
					c.expect(logger == nil || m.Args[0] == logger, "levels", level, c.ipos(m.Instr), "a message goes to another logger than the one which was set up")
				}
			}
			if !known[level] {
				ok = c.expect(len(msgs) == 0, "levels", level, c.ipos(p.At), "with --loglevel %s something is logged, although there is no such level", level) && ok
			}
			// what is told
			for _, f := range c.failures(in, p, nil) {
				if infallible(f.name, f.args) || p.St.Nil(f.err) != 0 || p.Kind != "exit" {
					continue
				}
				told := false
				for _, m := range msgs {
					fatal := strings.Contains(callee(m), ".Fatal")
					for _, a := range m.Args {
						if n, isInt := p.St.Norm(strip(a)).ConstInt(); isInt && n == c.logrusLevel("FatalLevel") {
							fatal = true
						}
					}
					for _, a := range m.Args {
						l := in.Resolve(p.St, a)
						if fatal && (contains(a, f.err) || contains(l, f.err)) {
							told = true
						}
					}
				}
				toldAny = toldAny || told
				if known[level] {
					c.expect(told, "told", f.name, c.ipos(p.At), "the program ends because %s has failed, without a message (--loglevel %s)", f.name, level)
				}
			}
			for _, e := range p.Events {
				if e.Kind == "store" && len(e.Args) == 2 && strings.Contains(str(p.St.Norm(e.Args[1])), "global:os.Stdout") {
					root, path := in.Addr(e.Args[0])
					c.expect(root.Op == "alloc" || len(path) == 0, "streams", "store", c.ipos(e.Instr), "the standard output is put into %s", str(e.Args[0]))
				}
			}
			c.ok("streams")
		}
		if known[level] {
			c.expect(parsedAny && logs > 0, "levels", level, at, "with --loglevel %s nothing is ever logged", level)
			c.expect(toldAny, "told", level, at, "with --loglevel %s no failure is ever told", level)
		} else if ok {
			c.expect(!parsedAny, "levels", level, at, "--loglevel takes %s, which is no level of the logger", level)
			c.ok("told")
		}
	}
}

// logrusLevel is the number of a level of the logger.
func (c *Ctx) logrusLevel(name string) int64 {
	for _, p := range c.prog.AllPackages() {
		if p.Pkg.Path() == logrusPath {
			if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				n, _ := constant.Int64Val(k.Val())
				return n
			}
		}
	}
	return -1
}

// onlyMainPrints decides that nothing but the main package knows the standard output.
func (c *Ctx) onlyMainPrints() {
	cmd := c.pkg("cmd")
	n := 0
	fns, _ := c.reachable()
	for _, f := range fns {
		n++
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					switch calleeOf(ci.Common()) {
					case "fmt.Print", "fmt.Printf", "fmt.Println":
						c.violate("streams", fname(f), c.ipos(i), "something is printed among the document on the standard output")
					}
				}
				if f.Pkg == cmd || f.Parent() != nil && f.Parent().Pkg == cmd {
					continue
				}
				for _, o := range i.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && g.Name() == "Stdout" {
						c.violate("streams", fname(f), c.ipos(i), "the standard output is used outside of the main package")
					}
				}
			}
		}
	}
	c.count("functions", n)
	c.ok("streams")
}

// severities decides the functions of package logging.
func (c *Ctx) severities() {
	lp := c.pkg("logging")
	lvlT := c.typ("logging", "Level")
	num := func(name string) int64 {
		k, ok := lp.Pkg.Scope().Lookup(name).(*types.Const)
		if !ok {
			c.violate("severity", name, "", "the severity "+name+" is gone")
			return -1
		}
		n, _ := constant.Int64Val(k.Val())
		return n
	}
	names := []string{"PanicLevel", "FatalLevel", "ErrorLevel", "WarnLevel", "InfoLevel", "DebugLevel", "TraceLevel"}
	for _, n := range names {
		c.expect(num(n) == c.logrusLevel(n), "severity", n, c.pos(lp.Pkg.Scope().Lookup(n).Pos()), "%s is %d for us and %d for the logger", n, num(n), c.logrusLevel(n))
	}
	// what is logged is what is handed on
	anyT := types.NewSlice(types.NewInterfaceType(nil, nil))
	for _, f := range []string{"Debug", "Info", "Warn", "Fatal", "Log"} {
		fn := c.fn("logging", f)
		in := c.interp()
		T := in.T
		c.opaque(in, pkgShort(lp.Pkg))
		log, msg, args := in.Param(fn.Params[0]), in.Param(fn.Params[len(fn.Params)-2]), in.Param(fn.Params[len(fn.Params)-1])
		want := T.Int(0)
		if f == "Log" {
			want = in.Param(fn.Params[1])
		}
		st := in.NewState()
		st.Assume(T.Eq(log, T.Nil()), false)
		for _, p := range c.run(in, fn, nil, nil, st) {
			n := 0
			for _, e := range p.Events {
				if e.Kind != "call" || !strings.HasSuffix(callee(e), ".Printf") || len(e.Args) != 4 {
					continue
				}
				n++
				lvl := p.St.Norm(e.Args[1])
				ok := lvl == want
				if f != "Log" {
					k, isInt := lvl.ConstInt()
					ok = isInt && k == num(f+"Level")
				}
				c.expect(ok && p.St.Norm(e.Args[0]) == log, "severity", f, c.ipos(e.Instr), "%s logs at level %s of %s", f, str(lvl), str(e.Args[0]))
				c.expect(p.St.Norm(e.Args[2]) == msg && p.St.Norm(e.Args[3]) == args, "severity", f, c.ipos(e.Instr), "%s logs %s %s", f, str(e.Args[2]), str(e.Args[3]))
			}
			c.expect(p.Kind == "ret" && n == 1, "severity", f, c.ipos(p.At), "%s logs %d messages", f, n)
		}
	}
	// a logger hands on to the function it was made of
	fn := c.fn("logging", "NewLogger")
	void := c.fn("logging", "Void")
	for _, nothing := range []bool{false, true} {
		in := c.interp()
		T := in.T
		c.opaque(in, pkgShort(lp.Pkg))
		f := in.Param(fn.Params[0])
		lvl, msg, args := T.Sym("LEVEL", lvlT), T.Sym("MESSAGE", types.Typ[types.String]), T.Sym("ARGS", anyT)
		st := in.NewState()
		mk := fn
		if nothing {
			mk = void
		} else {
			st.Assume(T.Eq(f, T.Nil()), false)
		}
		logFn := c.fn("logging", "Log")
		n := 0
		for _, p := range c.run(in, mk, nil, nil, st) {
			if p.Kind != "ret" {
				c.violate("severity", fname(mk), c.ipos(p.At), "making a logger panics")
				continue
			}
			for _, q := range c.run(in, logFn, []*psa.Term{p.St.Norm(p.Results[0]), lvl, msg, args}, nil, p.St) {
				n++
				calls := 0
				for _, e := range q.Events {
					if e.Kind != "call" {
						continue
					}
					calls++
					ok := callee(e) == "dyn" && len(e.Args) >= 3
					if ok {
						a := e.Args[len(e.Args)-3:]
						ok = q.St.Norm(a[0]) == lvl && q.St.Norm(a[1]) == msg && q.St.Norm(a[2]) == args
					}
					c.expect(ok && !nothing, "severity", fname(mk), c.ipos(e.Instr), "a message is handed on as %s", fmt.Sprint(strs(e.Args)))
				}
				want := 1
				if nothing {
					want = 0
				}
				c.expect(q.Kind == "ret" && calls == want, "severity", fname(mk), c.ipos(q.At), "a message is handed on %d times %s", calls, c.where(q))
			}
		}
		c.expect(n > 0, "severity", fname(mk), c.pos(mk.Pos()), "no message is ever handed on")
	}
	// the names of the levels
	pl := c.fn("logging", "ParseLevel")
	for name, want := range map[string]string{"panic": "PanicLevel", "fatal": "FatalLevel", "error": "ErrorLevel", "warn": "WarnLevel", "warning": "WarnLevel", "info": "InfoLevel", "debug": "DebugLevel", "trace": "TraceLevel", "INFO": "InfoLevel", "loud": ""} {
		in := c.interp()
		c.opaque(in, fname(pl))
		for _, p := range c.run(in, pl, []*psa.Term{in.T.Str(name)}, nil, nil) {
			if want == "" {
				c.expect(fails(p), "severity", "ParseLevel", c.ipos(p.At), "%s is taken for a level", name)
				continue
			}
			k, ok := p.St.Norm(p.Results[0]).ConstInt()
			c.expect(succeeded(p) && ok && k == num(want), "severity", "ParseLevel", c.ipos(p.At), "%s is read as level %s", name, str(p.Results[0]))
		}
	}
}
