package main

import (
	"fmt"
	"time"
)

func dbgAll(P *Program, verbose bool) {
	for _, f := range P.funcs {
		e := NewEngine(P)
		e.wantChk = true
		var exits []Exit
		t0 := time.Now()
		w := e.guard(func() { exits = e.Run(f, freshParams(f), newState()) })
		und := map[string]int{}
		kinds := map[exitKind]int{}
		for _, x := range exits {
			kinds[x.kind]++
			if x.kind == xUndecided {
				und[x.why]++
			}
		}
		fmt.Println(f, "abort:", w, "steps", e.steps, "exits", kinds, und, time.Since(t0).Milliseconds(), "ms")
		if verbose {
			for _, c := range e.checks {
				if !c.proved {
					fmt.Println("     check", c.kind, P.pos(c.pos), c.detail)
				}
			}
			for _, c := range e.lossy {
				if !c.proved {
					fmt.Println("     narrow", P.pos(c.pos), c.proved, c.detail)
				}
			}
		}
	}
}
