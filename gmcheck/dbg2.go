package main

import (
	"fmt"
	"os"
)

var dbgLoad = os.Getenv("GMLOAD") != ""

func dbgNode(n *Mem, addr *Term) {
	if !dbgLoad {
		return
	}
	fmt.Println("   stop at", n.id, n.kind, n.addr, "for", addr)
	if n.kind == MLoop {
		for _, w := range n.loop.writes {
			fmt.Println("       w", w.kind, w.addr, w.fuzzy, w.must, w.val)
		}
	}
}
