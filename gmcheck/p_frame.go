package main

// Frame conditions: reading and writing touch the object concerned and nothing
// else; package-level state never changes.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// partOf: the address lies in the object itself, not behind a pointer, slice
// or map it holds.
func partOf(addr, recv *Term) bool {
	for addr.op == OFieldAddr {
		addr = addr.args[0]
	}
	return addr == recv
}

// strayWrites: effects on memory that is neither new nor part of recv.
func strayWrites(x Exit, m0 *Mem, recv *Term) []string {
	var r []string
	f := x.st.facts
	var one func(k memKind, addr *Term, lm *loopMem, typ types.Type)
	one = func(k memKind, addr *Term, lm *loopMem, typ types.Type) {
		switch {
		case k == MLoop:
			for _, w := range lm.writes {
				one(w.kind, w.addr, nil, w.typ)
			}
		case (k == MStore) && partOf(addr, recv):
		case k == MMapSet && addr.op == OMapGet && ownMapValues(addr.args[0], x.st.mem):
		case k == MMapSet && addr.op == OLoopVar && addr.s == anyMapValue && ownMapValues(addr.args[0], x.st.mem):
		default:
			r = append(r, memOutside(k, addr, lm, typ)...)
		}
	}
	for m := x.st.mem; m != nil && m != m0; m = m.prev {
		if m.kind == MStore && m.val != nil && pointee(m.addr) != nil {
			was := load(f, m.prev, m.addr, pointee(m.addr))
			if a, b := renorm(f, was), renorm(f, m.val); a == b || f.eval(tEq(a, b)) == 1 {
				continue
			}
		}
		one(m.kind, m.addr, m.loop, m.typ)
	}
	return r
}

func propFrame(pkgs ...string) func(R *Report) {
	return func(R *Report) {
		R.codecMethods("writer-leaves-object", true, true, false, pkgs, func(h *H, c codec, m string, fn *ssa.Function) {
			xs, st0, T, recv := h.codecRun(c, m)
			xs, _ = returns(xs)
			for _, x := range xs {
				h.paths++
				if w := writesOutside(x, st0.mem); len(w) > 0 && !h.contra(x.st.facts) {
					h.fail("writing the object "+w[0]+pathNote(x), x.pos)
				}
				if m == "MarshalBinary" {
					if v := x.res[0]; v.op != ONil && !ownObject(v) && !h.contra(x.st.facts) {
						h.fail("the bytes returned share memory with other data"+pathNote(x), x.pos)
					}
				}
			}
			_, _ = T, recv
		})
		R.codecMethods("reader-touches-target-only", true, false, true, pkgs, func(h *H, c codec, m string, fn *ssa.Function) {
			xs, st0, T, recv := h.codecRun(c, m)
			xs, _ = returns(xs)
			for _, x := range xs {
				h.paths++
				if w := strayWrites(x, st0.mem, recv); len(w) > 0 && !h.contra(x.st.facts) {
					h.fail("reading "+w[0]+", which is not part of the object read"+pathNote(x), x.pos)
					continue
				}
				h.ownParts(x, st0, T, recv, typeShort(T), 0)
			}
		})
		R.globalState(pkgs)
	}
}

// ownParts: slices and maps of the object read are new, or still the previous ones.
func (h *H) ownParts(x Exit, st0 *State, T types.Type, addr *Term, what string, depth int) {
	v := renorm(x.st.facts, load(x.st.facts, x.st.mem, addr, T))
	was := load(st0.facts, st0.mem, addr, T)
	switch u := T.Underlying().(type) {
	case *types.Slice, *types.Map:
		r := v
		for r.op == OField {
			r = r.args[0]
		}
		if v == was || r.op == OCall || v.op == ONil || ownObject(v) {
			return // OCall: read by the nested reader, which has its own obligation
		}
		if !h.contra(x.st.facts) {
			h.fail("after reading, "+what+" shares memory with other data ("+v.String()+")"+pathNote(x), x.pos)
		}
	case *types.Basic:
		if throughUnsafe(v, 0) && !h.contra(x.st.facts) {
			h.fail("after reading, "+what+" may share memory with other data: it is made through an unsafe pointer"+pathNote(x), x.pos)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields() && depth < 3; i++ {
			h.ownParts(x, st0, u.Field(i).Type(), tFieldAddr(addr, i, types.NewPointer(u.Field(i).Type())), what+"."+u.Field(i).Name(), depth+1)
		}
	}
}

// throughUnsafe: the value was reached through an unsafe pointer.
func throughUnsafe(t *Term, depth int) bool {
	if depth > 20 {
		return false
	}
	if t.typ != nil && t.typ.Underlying() == types.Typ[types.UnsafePointer] {
		return true
	}
	for _, a := range t.args {
		if throughUnsafe(a, depth+1) {
			return true
		}
	}
	return false
}

// globalState: no function except package initialisers writes a package-level
// variable or memory reached through one.
func (R *Report) globalState(pkgs []string) {
	n := 0
	var fns []*ssa.Function
	for fn := range R.P.allFns {
		in := false
		for _, p := range pkgs {
			if fn.Pkg != nil && fn.Pkg.Pkg.Path() == R.P.modPath+"/"+p {
				in = true
			}
		}
		if in && fn.Name() != "init" && !strings.HasPrefix(fn.Name(), "init#") {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		if fn.Parent() != nil && fn.Parent().Name() == "init" {
			continue
		}
		n++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, pos := globalWrite(in); g != nil {
					R.bad("no-shared-state", fn.String(), fmt.Sprintf("writes the package-level variable %s", g.Name()), pos)
				}
			}
		}
		R.seen[fn] = true
	}
	R.ok("no-shared-state", "package functions", fmt.Sprintf("%d functions", n))
	if n < 40 {
		R.bad("no-shared-state", "coverage", fmt.Sprintf("only %d functions found", n), token.NoPos)
	}
}

// globalWrite: the package variable whose memory the instruction writes.
func globalWrite(in ssa.Instruction) (*ssa.Global, token.Pos) {
	switch x := in.(type) {
	case *ssa.Store:
		if g := globalRoot(x.Addr, 0); g != nil {
			return g, x.Pos()
		}
	case *ssa.MapUpdate:
		if g := globalRoot(x.Map, 0); g != nil {
			return g, x.Pos()
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && len(x.Call.Args) > 0 {
			switch b.Name() {
			case "copy", "delete", "append", "clear":
				// append may write into the spare capacity of its argument
				if g := globalRoot(x.Call.Args[0], 0); g != nil {
					return g, x.Pos()
				}
			}
		}
	}
	return nil, token.NoPos
}

// globalRoot follows addresses, loads and slices back to a package variable.
func globalRoot(v ssa.Value, d int) *ssa.Global {
	if d > 20 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return globalRoot(x.X, d+1)
	case *ssa.IndexAddr:
		return globalRoot(x.X, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return globalRoot(x.X, d+1)
		}
	case *ssa.Slice:
		return globalRoot(x.X, d+1)
	case *ssa.Lookup:
		return globalRoot(x.X, d+1)
	case *ssa.Extract:
		return globalRoot(x.Tuple, d+1)
	case *ssa.ChangeType:
		return globalRoot(x.X, d+1)
	case *ssa.Field:
		return globalRoot(x.X, d+1)
	case *ssa.Index:
		return globalRoot(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if g := globalRoot(e, d+4); g != nil {
				return g
			}
		}
	}
	return nil
}

func init() {
	register("C15", propFrame("pkg/storage", "pkg/dag", "internal/index"))
}
