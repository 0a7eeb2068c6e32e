// goelandcheck decides properties of the Goéland prover from its source.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	t0 := time.Now()
	prop := flag.String("property", "", "property to decide (all: every one)")
	tier := flag.String("tier", "quick", "quick or thorough")
	root := flag.String("root", "/verif", "directory that holds known-findings.txt and evidence/")
	dump := flag.Bool("shape", false, "print the shapes of the functions given as arguments")
	ssaf := flag.Bool("ssa", false, "print the SSA of the functions given as arguments")
	op := flag.String("opaque", "", "with -shape: comma-separated functions that are not looked into")
	ev := flag.String("event", "", "with -shape: comma-separated functions recorded as events")
	bl := flag.Bool("baseline", false, "print the list of functions for funcs.txt")
	flag.Parse()
	go watch()
	if *dump || *ssaf {
		*prop = "all"
	}
	if f := os.Getenv("CHK_PROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	p, err := load(*prop)
	if *bl {
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		dumpBaseline(p)
		return
	}
	if *dump || *ssaf {
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		dumpFuncs(p, flag.Args(), *ssaf, strings.Split(*op, ","), strings.Split(*ev, ","))
		return
	}
	sort.Slice(properties, func(i, j int) bool { return properties[i].id < properties[j].id })
	rc := 0
	n := 0
	for _, pr := range properties {
		if pr.id == *prop || *prop == "all" {
			n++
			if r := runProperty(*root, pr, p, err, *tier, t0); r != 0 {
				rc = r
			}
		}
	}
	if n == 0 {
		fmt.Println("unknown property", *prop)
		rc = 2
	}
	os.Exit(rc)
}
