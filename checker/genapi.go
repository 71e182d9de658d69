package main

import (
	"fmt"
	"sort"
)

// genAPI prints the table of exported functions; its output was confirmed and
// frozen in api.go.
func genAPI() {
	c := newCtx("gen")
	c.loadRepo()
	var out []string
	for _, f := range c.ourFuncs() {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		out = append(out, fname(f))
	}
	sort.Strings(out)
	fmt.Println("package main\n\n// api lists the functions which are part of the interface between packages.\n// A function which is not listed is interpreted inside its callers.\nvar api = map[string]bool{")
	for _, n := range out {
		fmt.Printf("\t%q: true,\n", n)
	}
	fmt.Println("}")
}
