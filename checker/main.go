// Command oapiverif decides the properties of /verif/properties.jsonl for the
// source tree in /repo, statically: the type-checked program is loaded, put
// into SSA form and analysed; nothing of it is executed.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"

	"oapiverif/psa"
)

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "genapi":
		genAPI()
	case "dump":
		dump(os.Args[2:])
	case "checkall": // every check over one load of the program, for campaigns
		rc := 0
		for _, id := range os.Args[2:] {
			rc |= runCheck(id)
		}
		os.Exit(rc)
	case "check":
		if len(os.Args) != 3 {
			usage()
		}
		os.Exit(runCheck(os.Args[2]))
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: oapiverif list | check ID | dump PKG FUNC")
	os.Exit(2)
}

// runCheck runs one check; whatever goes wrong inside is an undecided
// obligation and so a violation.
func runCheck(id string) (rc int) {
	c := newCtx(id)
	psa.Restart(time.Now().Add(7 * time.Minute))
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); ok {
					return
				}
				fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
				c.violate("undecided", "internal", "", fmt.Sprintf("the analysis failed: %v", r))
			}
		}()
		fn, ok := checks[id]
		if !ok {
			c.violate("undecided", "internal", "", "no such check: "+id)
			return
		}
		c.loadRepo()
		fn(c)
		c.floors()
	}()
	return c.finish()
}
