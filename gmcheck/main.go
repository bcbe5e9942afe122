package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	if pf := os.Getenv("GMPROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		if n, _ := strconv.Atoi(os.Getenv("GMSTOP")); n > 0 {
			time.AfterFunc(time.Duration(n)*time.Second, func() { pprof.StopCPUProfile(); os.Exit(3) })
		}
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) > 1 && os.Args[1][0] == '-' {
		rc := mainProps(os.Args[1:])
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	P, err := Load("/repo", "/verif/stubs")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	debugMain(P, os.Args[1:])
}

func debugMain(P *Program, args []string) {
	if len(args) > 0 && args[0] == "seq" {
		dbgAll(P, len(args) > 1)
		return
	}
	var list []string
	for _, f := range P.funcs {
		list = append(list, fnName(f))
	}
	if len(args) == 0 {
		for _, n := range list {
			fmt.Println(n)
		}
		return
	}
	for _, f := range P.funcs {
		if fnName(f) != args[0] && f.String() != args[0] {
			continue
		}
		e := NewEngine(P)
		e.wantChk = true
		var exits []Exit
		w := e.guard(func() { exits = e.Run(f, freshParams(f), newState()) })
		fmt.Println(f, "abort:", w, "steps", e.steps)
		for _, x := range exits {
			fmt.Println("-- exit", []string{"return", "panic", "back", "loopexit", "UNDECIDED"}[x.kind], x.why, x.res, P.pos(x.pos))
			for _, ev := range eventsSince(x.st.ev, nil) {
				fmt.Println("   ev", ev.kind, ev.name, ev.args, "=>", ev.res)
				if ev.loop != nil {
					for _, v := range ev.loop.vars {
						fmt.Println("      var", v.head, "init", v.init, "mode", v.mode, v.cell)
					}
					for _, b := range ev.loop.backs {
						fmt.Println("      back updates", b.updates)
						for _, ev := range b.events {
							fmt.Println("        ev", ev.kind, ev.name, ev.args, "=>", ev.res)
						}
					}
				}
			}
			for _, t := range x.st.facts.terms() {
				fmt.Println("   fact", t)
			}
			for _, a := range x.st.facts.all {
				fmt.Println("   forall", a.it, "<", a.hi, a.body)
			}
		}
		for _, c := range e.checks {
			fmt.Println("check", c.kind, P.pos(c.pos), c.proved, c.detail)
		}
		for _, c := range e.lossy {
			fmt.Println("narrow", P.pos(c.pos), c.proved, c.detail)
		}
	}
}
