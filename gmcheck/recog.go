package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Recognition of helper contracts. A repository function func(a, b []T) bool
// whose body is shown to return true exactly on equal sequences is treated as
// sequence equality at its call sites; a sort.Interface whose Less/Swap/Len are
// shown to be "<", exchange and length makes sort.Sort an ascending sort.

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (e *Engine) asSeqEq(fn *ssa.Function, args []*Term, st *State) *Term {
	if len(args) != 2 || !e.P.isSeqEqFn(fn) {
		return nil
	}
	return e.seqEq(st, args[0], args[1])
}

func (P *Program) isSeqEqFn(fn *ssa.Function) bool {
	sg := fn.Signature
	if sg.Results().Len() != 1 || len(fn.Params) != 2 {
		return false
	}
	if b, ok := sg.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	t0, t1 := fn.Params[0].Type(), fn.Params[1].Type()
	if !isSlice(t0) || !isSlice(t1) {
		return false
	}
	if v, ok := P.seqEqOK[fn]; ok {
		return v == 1
	}
	P.seqEqOK[fn] = 0
	ok, _ := P.verifySeqEq(fn)
	if ok {
		P.seqEqOK[fn] = 1
	}
	return ok
}

// verifySeqEq decides: returns true  <=>  same length and same elements.
func (P *Program) verifySeqEq(fn *ssa.Function) (ok bool, why string) {
	e := NewEngine(P)
	e.noSeqEq = true
	var exits []Exit
	if w := e.guard(func() { exits = e.Run(fn, freshParams(fn), newState()) }); w != "" {
		return false, w
	}
	a, b := freshParams(fn)[0], freshParams(fn)[1]
	et := elemType(fn.Params[0].Type())
	elem := func(x, i *Term) *Term {
		return load(&Facts{}, initMem(), tIndexAddr(x, i, types.NewPointer(et)), et)
	}
	for _, x := range splitResults(exits) {
		if x.kind == xUndecided {
			return false, x.why
		}
		if x.kind != xReturn {
			return false, "may panic at " + P.pos(x.pos)
		}
		for m := x.st.mem; m != nil; m = m.prev {
			switch m.kind {
			case MInit:
			case MStore:
				if !ownAddr(m.addr) {
					return false, "writes memory"
				}
			case MLoop:
				for _, w := range m.loop.writes {
					if w.kind != MStore || w.addr == nil || !ownAddr(w.addr) {
						return false, "writes memory"
					}
				}
			default:
				return false, "writes memory"
			}
		}
		f := x.st.facts
		lib := e.seqEq(x.st, a, b)
		switch f.eval(x.res[0]) {
		case 1:
			if f.eval(lib) == 1 {
				continue
			}
			j := mk(OBound, types.Typ[types.Int], false, 1, "", nil, nil, nil)
			g := f.assume(tLe(tInt(0), j), true).assume(tLt(j, tLen(a)), true)
			if !(&H{}).prove(f, nil, func(f *Facts) bool { return f.proveEqInt(tLen(a), tLen(b)) }) {
				return false, "returns true for sequences of different length (" + P.pos(x.pos) + ")"
			}
			same := tEq(elem(a, j), elem(b, j))
			if !(&H{}).prove(g, []*Term{same}, func(f *Facts) bool { return f.eval(renorm(f, same)) == 1 }) {
				return false, "returns true without every element having been compared (" + P.pos(x.pos) + ")"
			}
		case 0:
			if f.eval(lib) == 0 || f.proveNeInt(tLen(a), tLen(b)) || (&H{}).contra(f) {
				continue
			}
			// a witness index whose elements differ
			found := false
			for _, t := range f.terms() {
				if t.op == ONot && (t.args[0].op == OEq || t.args[0].op == OEq0) {
					for _, i := range elemIndexes(t.args[0], a, b) {
						d := tEq(elem(a, i), elem(b, i))
						if (t.args[0] == d || f.eval(d) == 0) && f.proveLe(tInt(0), i) && f.proveLt(i, tLen(a)) {
							found = true
						}
					}
				}
			}
			if !found {
				return false, "returns false without two elements or the lengths differing (" + P.pos(x.pos) + ")"
			}
		default:
			return false, "result not decided (" + P.pos(x.pos) + ")"
		}
	}
	if len(exits) == 0 {
		return false, "no exits"
	}
	return true, ""
}

// ownAddr: a place in a variable of the function itself.
func ownAddr(a *Term) bool {
	for a.op == OFieldAddr || a.op == OIndexAddr {
		a = a.args[0]
	}
	return a.op == OAlloc
}

// splitResults follows both values of an undecided boolean result.
func splitResults(xs []Exit) []Exit {
	var r []Exit
	for _, x := range xs {
		if x.kind != xReturn || len(x.res) == 0 || x.st.facts.eval(x.res[0]) >= 0 {
			r = append(r, x)
			continue
		}
		for _, v := range []bool{true, false} {
			y := x
			y.st = x.st.clone()
			y.st.assume(x.res[0], v)
			if !y.st.facts.bad {
				r = append(r, y)
			}
		}
	}
	return r
}

// elemIndexes: indexes used to address elements of a or b inside t.
func elemIndexes(t, a, b *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var rec func(u *Term)
	rec = func(u *Term) {
		if seen[u] {
			return
		}
		seen[u] = true
		if u.op == OIndexAddr && (u.args[0] == a || u.args[0] == b) {
			r = append(r, u.args[1])
		}
		for _, x := range u.args {
			rec(x)
		}
	}
	rec(t)
	return r
}

func (e *Engine) guard(f func()) (why string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case abortErr:
				why = x.why
			case unrollFail:
				why = "loop analysis failed"
			default:
				panic(r)
			}
			e.discover, e.quietCk, e.watch = 0, 0, nil
		}
	}()
	f()
	return ""
}

// sortAscending: is this sort call one that orders ascending by "<"?
func (e *Engine) sortAscending(name string, args []*Term) bool {
	switch {
	case name == "slices.Sort" || name == "sort.Strings" || name == "sort.Ints" || name == "sort.IntsAreSorted" || name == "sort.StringsAreSorted":
		return true
	case name == "sort.Sort" || name == "sort.Stable" || name == "sort.IsSorted":
		x := args[0]
		if x.op != OIface {
			return false
		}
		return e.P.ascendingInterface(x.typ) == ""
	case strings.HasPrefix(name, "sort.Slice"):
		if len(args) != 2 || args[0].op != OIface {
			return false
		}
		cl := args[1]
		if cl.op != OClosure && cl.op != OFunc {
			return false
		}
		return e.lessClosure(args[0].args[0], cl)
	}
	return false
}

// lessClosure: func(i, j int) bool { return x[i] < x[j] }
func (e *Engine) lessClosure(x, cl *Term) bool {
	fn := cl.obj.(*ssa.Function)
	if !e.P.inRepo(fn) || len(fn.Params) != 2 || fn.Params[0].Type().Underlying() != types.Typ[types.Int] {
		return false
	}
	ps := freshParams(fn)
	sub := NewEngine(e.P)
	// captured variables: cells holding x
	st := newState()
	if e.curMem != nil {
		st.mem = e.curMem
	}
	n := tLen(x)
	for _, p := range ps {
		st.assume(tLe(tInt(0), p), true)
		st.assume(tLt(p, n), true)
	}
	mem := st.mem
	var free []*Term
	if cl.op == OClosure {
		free = cl.args
	}
	var exits []Exit
	if w := sub.guard(func() { exits = sub.callFn(nil, nil, fn, ps, free, st) }); w != "" {
		return false
	}
	et := elemType(x.typ)
	el := func(i *Term, f *Facts) *Term {
		return load(f, mem, tIndexAddr(x, i, types.NewPointer(et)), et)
	}
	for _, z := range exits {
		if z.kind != xReturn {
			return false
		}
		want := tLt(el(ps[0], z.st.facts), el(ps[1], z.st.facts))
		if z.res[0] != want && !(z.st.facts.eval(z.res[0]) >= 0 && z.st.facts.eval(z.res[0]) == z.st.facts.eval(want)) {
			return false
		}
	}
	return len(exits) > 0
}

// ascendingInterface checks Len/Less/Swap of a slice type; "" when they are
// length, "<" on elements and exchange.
func (P *Program) ascendingInterface(t types.Type) string {
	key := types.TypeString(t, nil)
	if v, ok := P.sortOK[key]; ok {
		if v == 1 {
			return ""
		}
		return "not an ascending sort.Interface"
	}
	P.sortOK[key] = 0
	why := P.verifySortInterface(t)
	if why == "" {
		P.sortOK[key] = 1
	}
	return why
}

func (P *Program) verifySortInterface(t types.Type) string {
	if !isSlice(t) {
		return "not a slice type"
	}
	m := func(name string) *ssa.Function { return P.methodOf(t, name) }
	ln, less, swap := m("Len"), m("Less"), m("Swap")
	if ln == nil || less == nil || swap == nil {
		return "no Len/Less/Swap"
	}
	e := NewEngine(P)
	runFn := func(fn *ssa.Function) ([]Exit, []*Term, string) {
		ps := freshParams(fn)
		st := newState()
		for _, p := range ps[1:] {
			st.assume(tLe(tInt(0), p), true)
			st.assume(tLt(p, tLen(ps[0])), true)
		}
		var ex []Exit
		w := e.guard(func() { ex = e.Run(fn, ps, st) })
		for _, x := range ex {
			if x.kind == xUndecided {
				return nil, nil, x.why
			}
			if x.kind != xReturn {
				return nil, nil, "may panic"
			}
		}
		if w == "" && len(ex) == 0 {
			w = "no exits"
		}
		return ex, ps, w
	}
	ex, ps, w := runFn(ln)
	if w != "" {
		return "Len: " + w
	}
	for _, x := range ex {
		if !x.st.facts.proveEqInt(x.res[0], tLen(ps[0])) {
			return "Len does not return the number of elements"
		}
	}
	et := elemType(t)
	ex, ps, w = runFn(less)
	if w != "" {
		return "Less: " + w
	}
	el := func(f *Facts, m *Mem, x, i *Term) *Term {
		return load(f, m, tIndexAddr(x, i, types.NewPointer(et)), et)
	}
	for _, x := range ex {
		f := x.st.facts
		want := tLt(el(f, initMem(), ps[0], ps[1]), el(f, initMem(), ps[0], ps[2]))
		if x.res[0] != want && !(f.eval(x.res[0]) >= 0 && f.eval(x.res[0]) == f.eval(want)) {
			return "Less(i, j) is not x[i] < x[j]"
		}
	}
	ex, ps, w = runFn(swap)
	if w != "" {
		return "Swap: " + w
	}
	for _, x := range ex {
		f := x.st.facts
		if f.proveEqInt(ps[1], ps[2]) {
			continue
		}
		g := f.assume(tEqInt(ps[1], ps[2]), false)
		if el(g, x.st.mem, ps[0], ps[1]) != el(g, initMem(), ps[0], ps[2]) || el(g, x.st.mem, ps[0], ps[2]) != el(g, initMem(), ps[0], ps[1]) {
			return "Swap(i, j) does not exchange x[i] and x[j]"
		}
		// nothing else may be touched
		k := mk(OBound, types.Typ[types.Int], false, 2, "", nil, nil, nil)
		h := g.assume(tEqInt(k, ps[1]), false).assume(tEqInt(k, ps[2]), false)
		if el(h, x.st.mem, ps[0], k) != el(h, initMem(), ps[0], k) {
			return "Swap(i, j) touches other elements"
		}
	}
	return ""
}
