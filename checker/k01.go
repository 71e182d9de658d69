package main

import (
	"go/types"
	"strings"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["K01"] = checkK01 }

// flagBindings derives which field of the command line structure each flag
// writes, from the kingpin calls of the function building it.
func (c *Ctx) flagBindings() (fields map[string]string, enums map[string][]string) {
	fields, enums = map[string]string{}, map[string][]string{}
	in := c.interp()
	c.opaque(in)
	fn := c.fnLike("cmd", "getConfig", "cmd/oapi.Config,string,error")
	cfgT := c.typ("cmd", "Config")
	ps := c.run(in, fn, nil, nil, nil)
	c.expect(len(ps) > 0, "flags", fname(fn), c.pos(fn.Pos()), "no path")
	for _, p := range ps {
		if p.Kind != "ret" {
			continue
		}
		var root *T
		defaults := map[string]bool{}
		parsed := false
		for _, e := range p.Events {
			if e.Kind != "call" {
				continue
			}
			n := callee(e)
			switch {
			case strings.HasSuffix(n, ".Default") && strings.Contains(n, "kingpin"):
				if len(e.Args) > 1 {
					l := in.Resolve(p.St, e.Args[1])
					if !(l.Op == "nil" || l.Op == "list" && len(l.Args) == 0) {
						defaults[flagName(e.Args[0])] = true
					}
				}
			case strings.HasSuffix(n, "Var") && strings.Contains(n, "kingpin"):
				name := flagName(e.Args[0])
				r, path := in.Addr(e.Args[1])
				if name == "" || len(path) != 1 || path[0].Field < 0 {
					c.violate("flags", fname(fn), c.ipos(e.Instr), "a flag is bound to something which is not a field of the configuration")
					continue
				}
				if root == nil {
					root = r
				}
				fnm := cfgT.Underlying().(*types.Struct).Field(path[0].Field).Name()
				if old, ok := fields[name]; ok && old != fnm {
					c.violate("flags", name, c.ipos(e.Instr), "flag "+name+" is bound twice")
				}
				c.expect(r == root, "flags", name, c.ipos(e.Instr), "flag %s is bound to another object than the configuration returned", name)
				fields[name] = fnm
				if len(e.Args) > 2 {
					l := in.Resolve(p.St, e.Args[2])
					enums[name] = nil
					for _, a := range l.Args {
						s, _ := a.ConstString()
						enums[name] = append(enums[name], s)
					}
				}
			case strings.HasSuffix(n, ".Parse") && strings.Contains(n, "kingpin"):
				parsed = true
			}
		}
		c.expect(parsed, "flags", fname(fn), c.ipos(p.At), "the command line is not parsed")
		seen := map[string]string{}
		for _, n := range []string{"config", "dir", "format", "output", "loglevel"} {
			f, ok := fields[n]
			if !c.expect(ok, "flags", n, c.pos(fn.Pos()), "flag --%s is bound to no field", n) {
				continue
			}
			if o, dup := seen[f]; dup {
				c.violate("flags", n, c.pos(fn.Pos()), "flags --"+n+" and --"+o+" share the field "+f)
			}
			seen[f] = n
			if n != "loglevel" {
				c.expect(!defaults[n], "flags", n, c.pos(fn.Pos()), "flag --%s has a default value, which always beats the configuration file", n)
			}
			// what is returned is what the flag wrote
			if len(p.Results) > 0 && root != nil {
				i := fieldIndex(cfgT, f)
				want := p.St.Load(in.FieldAddr(root, i, types.NewPointer(types.Typ[types.String])), types.Typ[types.String])
				got := c.field(in, p.Results[0], cfgT, f)
				c.expect(p.St.Norm(got) == p.St.Norm(want), "flags", n, c.ipos(p.At), "the value of --%s is not the one returned (field %s)", n, f)
			}
		}
	}
	return
}

// flagName finds the constant name given to Flag in the receiver chain.
func flagName(t *T) string {
	name := ""
	psa.Walk(t, func(x *T) bool {
		if name != "" {
			return false
		}
		if x.Op == "call" && strings.HasSuffix(x.Callee(), ".Flag") && len(x.Args) >= 2 {
			name, _ = x.Args[1].ConstString()
			return false
		}
		return x.Op != "out"
	})
	return name
}

func checkK01(c *Ctx) {
	c.explain = "The function which turns the parsed command line into the effective configuration is interpreted path by path (the file reader is uninterpreted, helpers are inlined). On every successful path the working directory, format and output are compared with a decision table over the emptiness of the flag and file values; the file reader itself is interpreted to check the base file: found relative to the file's directory, merged under the file's own values, before decoding."
	c.rule("flags", "each command line flag writes its own field of the returned configuration and carries no default (except the log level)", 15)
	c.rule("precedence", "on every successful path: dir, format, output = flag, else file, else default; relative flag values are taken from the working directory, relative file values from the directory of the file (output: from the effective dir)", 100)
	c.rule("carried", "all other fields are those of the file, untouched", 100)
	c.rule("file", "the configuration file is read iff --config is given, at that path made absolute", 50)
	c.rule("errors", "a configuration is refused only if something which reads it fails", 4)
	c.rule("extends", "a base file is read relative to the directory of the extending file and merged below it before decoding; the path of the file is recorded", 3)

	flags, _ := c.flagBindings()
	cmdT := c.typ("cmd", "Config")
	cfgT := c.typ("config", "Config")

	fn := c.fnLike("cmd", "full", "internal/oapi/config.Config,error")
	in := c.interp()
	c.opaque(in)
	var file, fileErr *T
	in.Model = func(st *psa.State, name string, f *ssa.Function, args []*T, call *psa.Call) []psa.Ret {
		return nil
	}
	ps := c.run(in, fn, nil, nil, nil)
	tt := in.T
	empty := tt.Str("")
	for _, p := range ps {
		if !succeeded(p) {
			c.expect(!c.causeless(in, p), "errors", fname(fn), c.ipos(p.At), "the configuration is refused without a reason %s", c.where(p))
			continue
		}
		ff := c.paramOf(in, p.St, fn, cmdT)
		flag := func(n string) *T { return p.St.Norm(c.field(in, ff, cmdT, flags[n])) }
		// working directory
		var wd *T
		for _, e := range calls(p, "os.Getwd") {
			wd = tt.Extract(e.Res, 0, types.Typ[types.String])
		}
		if !c.expect(wd != nil, "precedence", "wd", c.ipos(p.At), "the working directory is not consulted %s", c.where(p)) {
			continue
		}
		reads := calls(p, "internal/oapi/config.ReadFile")
		file, fileErr = nil, nil
		if len(reads) > 1 {
			c.violate("file", fname(fn), c.ipos(reads[1].Instr), "the configuration file is read more than once")
		}
		if len(reads) == 1 {
			file = tt.Extract(reads[0].Res, 0, cfgT)
			fileErr = tt.Extract(reads[0].Res, 1, types.Universe.Lookup("error").Type())
			c.expect(p.St.Nil(fileErr) == 1, "file", "error", c.ipos(reads[0].Instr), "succeeds although the configuration file cannot be read %s", c.where(p))
		}
		for _, st := range []*psa.State{p.St} {
			cases(in, st, func(x *cs) {
				cf := flag("config")
				given := !x.empty(cf)
				c.expect(given == (file != nil), "file", "read", c.ipos(p.At), "the configuration file is read=%v although --config given=%v", file != nil, given)
				if file != nil && given {
					c.expect(x.same(reads[0].Args[0], x.abs(cf, wd)), "file", "path", c.ipos(reads[0].Instr), "the configuration file is read from %s, not from %s", str(reads[0].Args[0]), str(x.abs(cf, wd)))
				}
				get := func(f string) *T {
					if file == nil {
						i := fieldIndex(cfgT, f)
						return tt.Zero(cfgT.Underlying().(*types.Struct).Field(i).Type())
					}
					return x.St.Norm(c.field(in, file, cfgT, f))
				}
				got := func(f string) *T { return x.St.Norm(c.field(in, p.Results[0], cfgT, f)) }
				// dir
				dir := wd
				if d := flag("dir"); !x.empty(d) {
					dir = x.abs(d, wd)
				} else if d := get("Dir"); !x.empty(d) {
					base := tt.Call("path/filepath.Dir", types.Typ[types.String], get("FilePath"))
					dir = x.abs(d, base)
					if file != nil && !x.same(got("Dir"), dir) {
						// the path given to the reader is the same thing
						dir = x.abs(d, tt.Call("path/filepath.Dir", types.Typ[types.String], x.St.Norm(reads[0].Args[0])))
					}
				}
				c.expect(x.same(got("Dir"), dir), "precedence", "dir", c.ipos(p.At), "the execution directory is %s instead of %s %s", str(got("Dir")), str(dir), c.where(p))
				// format
				var format *T
				if f := flag("format"); !x.empty(f) {
					format = f
				} else if f := get("Format"); !x.empty(f) {
					format = f
				} else {
					format = tt.Str("json:pretty")
				}
				c.expect(x.same(got("Format"), format), "precedence", "format", c.ipos(p.At), "the format is %s instead of %s %s", str(got("Format")), str(format), c.where(p))
				// output
				dest := func(o, base *T) *T {
					for _, s := range []string{"stdout", "stderr"} {
						if x.is(tt.Eq(o, tt.Str(s))) {
							return tt.Str(s)
						}
					}
					return x.abs(o, base)
				}
				var out *T
				if o := flag("output"); !x.empty(o) {
					out = dest(o, wd)
				} else if o := get("Output"); !x.empty(o) {
					out = dest(o, dir)
				} else {
					out = tt.Str("stdout")
				}
				g := got("Output")
				c.expect(x.same(g, out) || out == tt.Str("stdout") && x.same(g, empty), "precedence", "output", c.ipos(p.At), "the output is %s instead of %s %s", str(g), str(out), c.where(p))
				s := cfgT.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					switch n := s.Field(i).Name(); n {
					case "Dir", "Format", "Output", "FilePath":
					default:
						c.expect(x.same(got(n), get(n)), "carried", n, c.ipos(p.At), "field %s of the file becomes %s %s", n, str(got(n)), c.where(p))
					}
				}
			})
		}
	}
	c.count("paths of the configuration function", len(ps))
	c.k01Extends()
}

func (c *Ctx) k01Extends() {
	cfgT := c.typ("config", "Config")
	for _, r := range []struct{ fn, reader string }{
		{"ReadFile", "internal/container.ReadFile"}, {"ReadYAML", "internal/container.ReadYAML"}, {"ReadJSON", "internal/container.ReadJSON"},
	} {
		in := c.interp()
		c.opaque(in)
		tt := in.T
		fn := c.fn("config", r.fn)
		arg := in.Param(fn.Params[0])
		nbase := 0
		for _, p := range c.run(in, fn, nil, nil, nil) {
			if !succeeded(p) {
				c.expect(!c.causeless(in, p), "errors", r.fn, c.ipos(p.At), "the configuration is refused without a reason %s", c.where(p))
				continue
			}
			first := calls(p, r.reader)
			if !c.expect(len(first) >= 1 && p.St.Norm(first[0].Args[0]) == arg, "extends", r.fn, c.ipos(p.At), "the given configuration is not what is read") {
				continue
			}
			cx := tt.Extract(first[0].Res, 0, nil)
			var base, merge *psa.Event
			bi, mi, di := -1, -1, -1
			for i, e := range p.Events {
				if e.Kind != "call" || e == first[0] {
					continue
				}
				switch n := callee(e); {
				case n == "internal/container.ReadFile" || n == "internal/container.ReadYAML" || n == "internal/container.ReadJSON":
					base, bi = e, i
				case strings.HasSuffix(n, "container.Container).Merge"):
					merge, mi = e, i
				case n == "encoding/json.Unmarshal" || strings.Contains(n, "json.Decoder).Decode"):
					di = i
				}
			}
			c.expect(di >= 0, "extends", r.fn, c.ipos(p.At), "the configuration is not decoded %s", c.where(p))
			if base == nil {
				// only when there is nothing to extend
				none := false
				for a, v := range p.St.FactTerms() {
					if b, ok := v.ConstBool(); mentions(a, "extends") && (ok && !b || v.Op == "nil") {
						none = true
					}
					if s, ok := v.ConstString(); ok && s == "" && mentions(a, "extends") {
						none = true
					}
				}
				c.expect(none, "extends", r.fn, c.ipos(p.At), "a base file named by extends is not read %s", c.where(p))
				c.expect(merge == nil, "extends", r.fn, c.ipos(p.At), "something else is merged into the configuration")
			} else {
				nbase++
				dir := tt.Str("")
				if r.fn == "ReadFile" {
					dir = tt.Call("path/filepath.Dir", types.Typ[types.String], arg)
				}
				var bp *T
				psa.Walk(base.Args[0], func(x *T) bool {
					if x.Op == "as" && mentions(x, "extends") {
						bp = x
						return false
					}
					return true
				})
				if c.expect(bp != nil, "extends", r.fn, c.ipos(base.Instr), "the base file is not the one named by extends: %s", str(base.Args[0])) {
					cases(in, p.St, func(x *cs) {
						want := x.abs(bp, dir)
						c.expect(x.same(base.Args[0], want), "extends", r.fn, c.ipos(base.Instr), "the base file is read from %s instead of %s", str(base.Args[0]), str(want))
					})
				}
				ok := merge != nil && p.St.Nil(tt.Extract(base.Res, 1, nil)) == 1
				if c.expect(ok, "extends", r.fn, c.ipos(base.Instr), "the base file is not merged %s", c.where(p)) {
					nc := tt.Extract(base.Res, 0, nil)
					c.expect(psa.Contains(merge.Args[0], cx) && !psa.Contains(merge.Args[0], nc), "extends", r.fn, c.ipos(merge.Instr), "the merge does not go into the extending file")
					c.expect(psa.Contains(merge.Args[1], nc), "extends", r.fn, c.ipos(merge.Instr), "the merge does not take the base file")
					c.expect(c.policy(in, merge.Args[2]) == "destination", "extends", r.fn, c.ipos(merge.Instr), "the base file is merged with policy %s: values of the extending file must win", str(merge.Args[2]))
					c.expect(bi < mi && mi < di, "extends", r.fn, c.ipos(merge.Instr), "the base file is merged after the configuration was decoded")
				}
			}
			if di >= 0 {
				e := p.Events[di]
				c.expect(flows(in, p.St, e.Args[0])[cx], "extends", r.fn, c.ipos(e.Instr), "what is decoded is not the configuration read")
			}
			if r.fn == "ReadFile" {
				got := p.St.Norm(c.field(in, p.Results[0], cfgT, "FilePath"))
				c.expect(got == arg, "extends", "FilePath", c.ipos(p.At), "the path recorded for the configuration is %s, not the file read", str(got))
			}
		}
		c.expect(nbase > 0, "extends", r.fn, c.pos(fn.Pos()), "no path reads the base file named by extends")
	}
}
