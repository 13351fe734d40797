package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type ssaFn = ssa.Function

func main() {
	prop := flag.String("property", "", "property id, comma separated list, or 'all'")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository to analyse")
	dbg := flag.Bool("debug", false, "dump the outcomes of a function")
	list := flag.Bool("list", false, "list the checks")
	flag.Parse()
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, checks[id].Title)
		}
		return
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	P, err := Load(*repo)
	if *dbg {
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debugMain(P, flag.Args())
		return
	}
	if *prop == "all" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		rc := 0
		for _, id := range ids {
			if runCheck(P, err, checks[id], *tier, seed) != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	}
	ch := checks[*prop]
	if ch == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	os.Exit(runCheck(P, err, ch, *tier, seed))
}
