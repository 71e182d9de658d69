package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"oapiverif/psa"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/buypal/oapi-go"

var checks = map[string]func(*Ctx){}

type stop struct{}

// Violation is one broken obligation.
type Violation struct {
	Rule, Construct, Pos, Msg string
}

func (v Violation) key() string { return v.Rule + " " + v.Construct }

// Ctx is the context of one check.
type Ctx struct {
	id    string
	start time.Time
	repo  string
	verif string

	fset  *token.FileSet
	pkgs  []*packages.Package
	prog  *ssa.Program
	spkgs []*ssa.Package
	ours  map[*ssa.Package]bool
	byRel map[string]*ssa.Package

	viol     []Violation
	seen     map[string]bool
	counts   map[string]int
	minimum  map[string]int
	rules    map[string]string
	samples  []string
	assume   []string
	funcs    map[*ssa.Function]bool
	explain  string
	discharg int
	oblig    int
}

func newCtx(id string) *Ctx {
	c := &Ctx{id: id, start: time.Now(), repo: env("OAPI_REPO", "/repo"), verif: env("OAPI_VERIF", "/verif"),
		seen: map[string]bool{}, counts: map[string]int{}, minimum: map[string]int{}, rules: map[string]string{},
		funcs: map[*ssa.Function]bool{}, byRel: map[string]*ssa.Package{}, ours: map[*ssa.Package]bool{}}
	return c
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// shared has the program, once it is loaded.
var shared *Ctx

// loadRepo type-checks the module and builds its SSA form.
func (c *Ctx) loadRepo() {
	if l := shared; l != nil {
		c.fset, c.pkgs, c.prog, c.spkgs, c.ours, c.byRel = l.fset, l.pkgs, l.prog, l.spkgs, l.ours, l.byRel
		c.counts["packages"] = len(l.pkgs)
		c.floor("packages", 16)
		return
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: c.repo}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		c.fatal("load", "the module does not load: "+err.Error())
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			c.violate("load", p.PkgPath, e.Pos, e.Msg)
		}
	}
	if len(c.viol) > 0 {
		panic(stop{})
	}
	c.pkgs = pkgs
	if len(pkgs) > 0 {
		c.fset = pkgs[0].Fset
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	c.prog = prog
	for i, p := range spkgs {
		if p == nil {
			c.fatal("load", "no SSA for "+pkgs[i].PkgPath)
		}
		c.ours[p] = true
		c.spkgs = append(c.spkgs, p)
		rel := strings.TrimPrefix(strings.TrimPrefix(p.Pkg.Path(), modPath), "/")
		if rel == "" {
			rel = "oapi"
		}
		c.byRel[rel] = p
		c.byRel[filepath.Base(rel)] = p
	}
	// the root package and internal/oapi share a base name
	for _, p := range c.spkgs {
		switch p.Pkg.Path() {
		case modPath:
			c.byRel["root"] = p
		case modPath + "/internal/oapi":
			c.byRel["ioapi"] = p
		case modPath + "/cmd/oapi":
			c.byRel["cmd"] = p
		}
	}
	c.counts["packages"] = len(pkgs)
	c.floor("packages", 16)
	shared = c
}

func (c *Ctx) fatal(rule, msg string) {
	c.violate(rule, "-", "", msg)
	panic(stop{})
}

// interp makes an interpreter over the loaded program.
func (c *Ctx) interp() *psa.Interp {
	in := psa.New(c.prog)
	in.Init(c.spkgs)
	in.Sorts = func(st *psa.State, name string, args []*T, call *psa.Call) []psa.Ret {
		return sorting(in, st, name, args, call)
	}
	return in
}

func (c *Ctx) isOurs(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil { // a method value or promoted method
		return c.ours[fn.Prog.Package(fn.Object().Pkg())]
	}
	return fn.Pkg != nil && c.ours[fn.Pkg]
}

// pkg finds one of our packages by short name.
func (c *Ctx) pkg(name string) *ssa.Package {
	p := c.byRel[name]
	if p == nil {
		c.fatal("anchor", "package "+name+" is gone")
	}
	return p
}

// fn finds a package-level function.
func (c *Ctx) fn(pkg, name string) *ssa.Function {
	p := c.pkg(pkg)
	f := p.Func(name)
	if f == nil || len(f.Blocks) == 0 {
		c.fatal("anchor", "function "+pkg+"."+name+" is gone")
	}
	c.funcs[f] = true
	return f
}

// tryFn is fn without complaint.
func (c *Ctx) tryFn(pkg, name string) *ssa.Function {
	p := c.byRel[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// typ finds a named type.
func (c *Ctx) typ(pkg, name string) *types.Named {
	p := c.pkg(pkg)
	m := p.Type(name)
	if m == nil {
		if n := c.place(p, name); n != nil {
			return n
		}
		c.fatal("anchor", "type "+pkg+"."+name+" is gone")
	}
	return m.Type().(*types.Named)
}

// place finds the types of the places of types by what they are: a reference
// with a type of its own, and a list of those.
func (c *Ctx) place(p *ssa.Package, name string) *types.Named {
	if name != "point" && name != "points" {
		return nil
	}
	var found []*types.Named
	for _, m := range p.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		n, ok := t.Type().(*types.Named)
		if !ok {
			continue
		}
		var el types.Type = n
		if name == "points" {
			sl, ok := n.Underlying().(*types.Slice)
			if !ok {
				continue
			}
			el = sl.Elem()
		}
		s, ok := el.Underlying().(*types.Struct)
		if _, named := el.(*types.Named); !ok || !named {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); f.Embedded() && types.Identical(f.Type(), c.typ("pointer", "Pointer")) {
				found = append(found, n)
			}
		}
	}
	if len(found) != 1 {
		return nil
	}
	return found[0]
}

// method finds a declared method (on T or *T).
func (c *Ctx) method(pkg, typ, name string) *ssa.Function {
	f := c.tryMethod(c.typ(pkg, typ), name)
	if f == nil && pkg == "types" && typ == "pointmap" && name == "pick" {
		f = c.picking(c.typ(pkg, typ))
	}
	if f == nil {
		c.fatal("anchor", "method "+pkg+"."+typ+"."+name+" is gone")
	}
	c.funcs[f] = true
	return f
}

// picking finds the method which picks one of the places of a type.
func (c *Ctx) picking(n *types.Named) *ssa.Function {
	var found []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		s := n.Method(i).Type().(*types.Signature)
		if s.Params().Len() == 1 && s.Results().Len() == 2 &&
			types.Identical(s.Results().At(0).Type(), c.typ("types", "point")) &&
			types.Identical(s.Results().At(1).Type(), types.Typ[types.Bool]) {
			found = append(found, c.prog.FuncValue(n.Method(i)))
		}
	}
	if len(found) != 1 {
		return nil
	}
	return found[0]
}

func (c *Ctx) tryMethod(n *types.Named, name string) *ssa.Function {
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return c.prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

// ourFuncs lists all our functions with a body, closures included, in a stable
// order.
func (c *Ctx) ourFuncs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(c.prog) {
		if len(f.Blocks) == 0 || !c.isOurs(f) || f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		if o := f.Origin(); o != nil && o != f {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].RelString(nil), out[j].RelString(nil)
		if a != b {
			return a < b
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

func (c *Ctx) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := c.fset.Position(p)
	rel, err := filepath.Rel(c.repo, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (c *Ctx) ipos(i ssa.Instruction) string {
	if i == nil {
		return ""
	}
	p := i.Pos()
	if !p.IsValid() && i.Block() != nil {
		for _, x := range i.Block().Instrs {
			if x.Pos().IsValid() {
				p = x.Pos()
			}
		}
	}
	if !p.IsValid() && i.Parent() != nil {
		p = i.Parent().Pos()
	}
	return c.pos(p)
}

// name is the short name of a function, for messages and keys.
func fname(f *ssa.Function) string {
	if f == nil {
		return "-"
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "oapi")
	return s
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	return strings.ReplaceAll(s, modPath, "oapi")
}

func (c *Ctx) violate(rule, construct, pos, msg string) {
	k := rule + "|" + construct + "|" + msg
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.viol = append(c.viol, Violation{rule, construct, pos, msg})
}

// ok records a discharged obligation.
func (c *Ctx) ok(rule string) {
	c.counts["obligation:"+rule]++
	c.oblig++
	c.discharg++
}

// expect records an obligation.
func (c *Ctx) expect(cond bool, rule, construct, pos, format string, args ...interface{}) bool {
	c.counts["obligation:"+rule]++
	c.oblig++
	if cond {
		c.discharg++
		return true
	}
	c.violate(rule, construct, pos, fmt.Sprintf(format, args...))
	return false
}

func (c *Ctx) sample(format string, args ...interface{}) {
	if len(c.samples) < 40 {
		c.samples = append(c.samples, fmt.Sprintf(format, args...))
	}
}

func (c *Ctx) count(name string, n int)   { c.counts[name] += n }
func (c *Ctx) floor(name string, min int) { c.minimum[name] = min }

// rule describes a rule for the evidence file.
func (c *Ctx) rule(name, text string, min int) {
	c.rules[name] = text
	c.minimum["obligation:"+name] = min
}

func (c *Ctx) floors() {
	if len(c.viol) > 0 {
		return
	}
	var ks []string
	for k := range c.minimum {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if c.counts[k] < c.minimum[k] {
			c.violate("vacuous", k, "", fmt.Sprintf("only %d instances of %s were found where at least %d are expected: the rule no longer sees the code it is about", c.counts[k], k, c.minimum[k]))
		}
	}
}

type finding struct{ key, text string }

// known reads the committed list of known findings.
func (c *Ctx) known() []finding {
	var out []finding
	f, err := os.Open(filepath.Join(c.verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		pre := "finding: property=" + c.id + " key=\""
		if !strings.HasPrefix(l, pre) {
			continue
		}
		l = l[len(pre):]
		i := strings.Index(l, "\" ")
		if i < 0 {
			continue
		}
		out = append(out, finding{l[:i], l[i+2:]})
	}
	return out
}

func (c *Ctx) finish() int {
	known := map[string]string{}
	for _, k := range c.known() {
		known[k.key] = k.text
	}
	var bad []Violation
	nknown := 0
	for _, v := range c.viol {
		if t, ok := known[v.key()]; ok {
			nknown++
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.id, t, v.Pos)
			continue
		}
		bad = append(bad, v)
	}
	replay := filepath.Join(c.verif, "evidence", c.id+".violations.txt")
	os.MkdirAll(filepath.Dir(replay), 0755)
	if len(bad) > 0 {
		var sb strings.Builder
		for _, v := range bad {
			fmt.Fprintf(&sb, "%s: rule %s: %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
		}
		lines := strings.SplitAfter(sb.String(), "\n")
		if len(lines) > 40 {
			lines = append(lines[:40], fmt.Sprintf("... %d more\n", len(lines)-40))
		}
		fmt.Print(strings.Join(lines, ""))
		os.WriteFile(replay, []byte(sb.String()), 0644)
	} else {
		os.Remove(replay)
	}
	c.evidence(bad, nknown)
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
		return 1
	}
	fmt.Printf("%s: held: %d obligations over %d functions, %.1f s\n", c.id, c.oblig, len(c.funcs), time.Since(c.start).Seconds())
	return 0
}

func (c *Ctx) evidence(bad []Violation, nknown int) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var fs []string
	for f := range c.funcs {
		fs = append(fs, fname(f))
	}
	sort.Strings(fs)
	cov := map[string]interface{}{
		"explanation":        c.explain,
		"rules":              c.rules,
		"counts":             c.counts,
		"obligations":        c.oblig,
		"discharged":         c.discharg,
		"functions_analysed": fs,
		"samples":            c.samples,
		"known_findings":     nknown,
	}
	if c.explain == "" {
		cov["explanation"] = "the check stopped before its analysis began"
	}
	if len(bad) > 0 {
		var l []string
		for _, v := range bad {
			l = append(l, fmt.Sprintf("%s: %s: %s: %s", v.Pos, v.Rule, v.Construct, v.Msg))
		}
		cov["violations"] = l
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(c.start).Seconds(), "violations": len(bad), "assumptions": append([]string{}, c.assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(c.verif, "evidence", c.id+".json"), append(b, '\n'), 0644)
}

// run interprets fn and complains if that does not finish.
func (c *Ctx) run(in *psa.Interp, fn *ssa.Function, args []*psa.Term, free []*psa.Term, st *psa.State) []*psa.Path {
	ps := in.Run(fn, args, free, st)
	if in.Overflow != "" {
		c.violate("undecided", fname(fn), c.pos(fn.Pos()), "the analysis is too large: "+in.Overflow)
		in.Overflow = ""
		return nil
	}
	for f := range in.Funcs {
		c.funcs[f] = true
	}
	return ps
}
