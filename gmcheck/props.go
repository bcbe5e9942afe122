package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"
)

type propDef struct {
	id  string
	run func(R *Report)
}

var props []*propDef

func register(id string, run func(R *Report)) {
	props = append(props, &propDef{id, run})
}

func mainProps(args []string) int {
	fs := flag.NewFlagSet("gmcheck", flag.ExitOnError)
	id := fs.String("prop", "", "property id")
	repo := fs.String("repo", "/repo", "repository")
	dir := fs.String("verif", "/verif", "framework directory")
	tier := fs.String("tier", "quick", "tier")
	fs.Parse(args)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	P, err := Load(*repo, *dir+"/stubs")
	code := 0
	time.AfterFunc(13*time.Minute, func() {
		fmt.Printf("VIOLATION property=%s replay=evidence/%s.json\n  not decided: the analysis takes too long\n", *id, *id)
		os.Exit(1)
	})
	for _, d := range props {
		if *id != "all" && !strings.Contains(","+*id+",", ","+d.id+",") {
			continue
		}
		t0 := start
		if *id != d.id {
			t0 = time.Now()
		}
		var R *Report
		if err != nil {
			fmt.Printf("VIOLATION property=%s replay=evidence/%s.json\n  the current source cannot be analysed: %v\n", d.id, d.id, err)
			return 1
		}
		R = newReport(P, d.id)
		resetTerms()
		memInit = nil
		capEnabled = false
		P.initGlobals()
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("GMCHECK_PANIC") != "" {
						panic(r)
					}
					R.bad("analysis", "analyser", fmt.Sprintf("the analysis failed: %v", r), 0)
				}
			}()
			d.run(R)
		}()
		if c := R.finish(*dir, *tier, seed, t0); c > code {
			code = c
		}
	}
	return code
}
