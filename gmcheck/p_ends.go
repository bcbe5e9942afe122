package main

// Every loop ends: a measure is found for each loop of each function.

import (
	"fmt"
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func propEnds(pkgs []string, min int) func(R *Report) {
	return func(R *Report) {
		R.P.initCaps()
		capEnabled = true
		var fns []*ssa.Function
		for fn := range R.P.allFns {
			if fn.Pkg == nil || fn.Blocks == nil || fn.Synthetic != "" {
				continue
			}
			for _, p := range pkgs {
				if fn.Pkg.Pkg.Path() == R.P.modPath+"/"+p && hasLoop(fn) {
					fns = append(fns, fn)
				}
			}
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		for _, fn := range fns {
			fn := fn
			h := R.harness("loops-end", fn.RelString(fn.Pkg.Pkg))
			h.noChk = true // panics are the matter of other properties
			h.e.strong = nil
			h.run(func() {
				st := h.start()
				var free []*Term
				for _, v := range fn.FreeVars {
					free = append(free, param("free_"+v.Name(), v.Type()))
				}
				for _, x := range h.e.callFn(nil, nil, fn, freshParams(fn), free, st) {
					if x.kind == xUndecided && !h.contra(x.st.facts) {
						h.fail(x.why, x.pos)
					}
				}
				for _, li := range h.e.loopRecs {
					if li.fn != fn {
						continue
					}
					h.paths++
					if !li.ends {
						h.fail("no bound on the number of iterations", li.loop.header.Instrs[0].Pos())
					}
				}
			})
		}
		R.noRecursion(pkgs)
		if len(fns) < min {
			R.bad("loops-end", "coverage", fmt.Sprintf("only %d functions with loops found", len(fns)), token.NoPos)
		}
	}
}

// towardsRoot: functions which follow the parent links of the dictionary and
// call themselves with the parent of a node.
var towardsRoot = map[string]bool{"(*Node).Word": true}

// noRecursion: no function reaches itself by static calls.
func (R *Report) noRecursion(pkgs []string) {
	in := func(fn *ssa.Function) bool {
		if fn == nil || fn.Pkg == nil {
			return false
		}
		for _, p := range pkgs {
			if fn.Pkg.Pkg.Path() == R.P.modPath+"/"+p {
				return true
			}
		}
		return false
	}
	callees := func(fn *ssa.Function) (r []*ssa.Function) {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); in(f) {
						r = append(r, f)
					}
				}
			}
		}
		return
	}
	n := 0
	for fn := range R.P.allFns {
		if !in(fn) || fn.Blocks == nil {
			continue
		}
		n++
		seen := map[*ssa.Function]bool{}
		work := callees(fn)
		for len(work) > 0 {
			g := work[0]
			work = work[1:]
			if seen[g] {
				continue
			}
			seen[g] = true
			work = append(work, callees(g)...)
		}
		if seen[fn] && !towardsRoot[fn.RelString(fn.Pkg.Pkg)] {
			R.bad("no-recursion", fn.String(), "may call itself without end", fn.Pos())
		}
	}
	R.ok("no-recursion", "call graph", fmt.Sprintf("%d functions", n))
}

// hasLoop: some block can reach itself.
func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func init() {
	register("C16", propEnds([]string{"pkg/common", "pkg/storage", "pkg/dag", "pkg/opencorpora", "internal/index", "internal/grammemes", "cmd/opencorpora_update"}, 30))
}
