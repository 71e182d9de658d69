package main

import (
	"fmt"
	"strings"
	"time"

	"oapiverif/psa"

	"golang.org/x/tools/go/ssa"
)

// dump prints the paths of a function, for the author of a check.
func dump(args []string) {
	c := newCtx("dump")
	c.loadRepo()
	var fn *ssa.Function
	if i := strings.IndexByte(args[1], '.'); i > 0 {
		fn = c.method(args[0], args[1][:i], args[1][i+1:])
	} else {
		fn = c.fn(args[0], args[1])
	}
	in := c.interp()
	c.opaque(in, args[2:]...)
	if len(args) > 2 && false {
		in.Opaque = func(f *ssa.Function, _ []*ssa.Function) bool {
			for _, p := range args[2:] {
				if strings.Contains(f.RelString(nil), p) {
					return true
				}
			}
			return false
		}
	}
	t := time.Now()
	ps := in.Run(fn, nil, nil, nil)
	fmt.Println(len(ps), "paths", in.Steps, "steps", in.Overflow, time.Since(t))
	for i, p := range ps {
		if i > 6 {
			break
		}
		fmt.Printf("--- path %d %s %v at %s\n", i, p.Kind, cuts(p.Results), c.ipos(p.At))
		for _, e := range p.Events {
			if e.Kind == "store" || e.Kind == "index" || e.Kind == "enter" || e.Kind == "leave" {
				continue
			}
			var as []string
			for _, a := range e.Args {
				as = append(as, cut(str(a)))
			}
			fmt.Printf("   %*s%s %s(%s) [%s]\n", e.Depth*2, "", e.Kind, shortName(e.Callee), strings.Join(as, ", "), c.ipos(e.Instr))
		}
	}
	_ = psa.IsPure
}

func cut(s string) string {
	if len(s) > 90 {
		return s[:87] + "..."
	}
	return s
}

func cuts(ts []*psa.Term) (out []string) {
	for _, t := range ts {
		s := str(t)
		if len(s) > 400 {
			s = s[:400]
		}
		out = append(out, s)
	}
	return
}
