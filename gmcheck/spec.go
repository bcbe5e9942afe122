package main

// Obligations: small scripts that run API functions one after another on a
// symbolic state and prove relations between their results on every abstract
// path, by value numbering, the fact domain and case distinction.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type H struct {
	P      *Program
	e      *Engine
	R      *Report
	n      int
	rule   string
	what   string
	failed int
	paths  int
	noChk  bool // leave run-time checks to other obligations
	soft   bool // results are kept back until commit
	kept   []func()
}

func (h *H) commit() {
	for _, f := range h.kept {
		f()
	}
	h.kept = nil
}

func (R *Report) harness(rule, what string) *H {
	e := NewEngine(R.P)
	h := &H{P: R.P, e: e, R: R, rule: rule, what: what}
	e.strong = h.prove
	return h
}

// run executes a script; any abort inside is a failed obligation.
func (h *H) run(f func()) {
	w := h.e.guard(f)
	if w == timeUp && violated {
		// a violation is known already: what is left is not examined
		h.R.notes = append(h.R.notes, "not examined after the violation: "+h.rule+" "+h.what)
		return
	}
	if w != "" {
		h.fail("not decided: "+w, token.NoPos)
	}
	for _, c := range h.e.sortedChecks() {
		if !c.proved && !h.noChk {
			h.fail(fmt.Sprintf("may panic: %s (%s)", c.kind, c.detail), c.pos)
		}
	}
	if h.failed == 0 && h.paths == 0 {
		h.fail("no path reached the obligation (vacuous)", token.NoPos)
	}
	if h.failed == 0 {
		ok := func() { h.R.ok(h.rule, h.what, fmt.Sprintf("%d paths", h.paths)) }
		if h.soft {
			h.kept = append(h.kept, ok)
		} else {
			ok()
		}
	}
	for fn := range h.e.visited {
		h.R.seen[fn] = true
	}
	h.R.steps += h.e.steps
}

// dump prints a state for debugging.
func (h *H) dump(f *Facts, extra []*Term) {
	if os.Getenv("GMDBG") == "" || !strings.Contains(h.rule+": "+h.what, os.Getenv("GMDBG")) {
		return
	}
	fmt.Println("==== dump", h.rule, h.what)
	f = saturate(f, extra)
	for _, t := range f.terms() {
		fmt.Println("  fact", t)
	}
	for _, a := range f.all {
		fmt.Println("  forall", a.it, "<", a.hi)
		for _, b := range a.body {
			fmt.Println("     ", b)
		}
	}
	for _, t := range extra {
		fmt.Println("  term", t, " => ", renorm(f, t))
	}
	for _, c := range splits(f, extra) {
		fmt.Println("  split", c)
	}
}

func (h *H) fail(detail string, pos token.Pos) {
	h.failed++
	if h.failed <= 3 {
		if h.soft {
			h.kept = append(h.kept, func() { h.R.bad(h.rule, h.what, detail, pos) })
			return
		}
		h.R.bad(h.rule, h.what, detail, pos)
	}
}

type rootMark struct{ n int }

// call runs fn as a separate call of its own; undecided paths fail the script.
func (h *H) call(st *State, fn *ssa.Function, args ...*Term) []Exit {
	h.n++
	e := h.e
	k := [2]interface{}{"root", h.n}
	ctx := &Ctx{id: len(e.ctxs) + 1}
	e.ctxs[k] = ctx
	var out []Exit
	for _, x := range e.callFn(nil, ctx, fn, args, nil, st) {
		if x.st.facts.bad {
			continue
		}
		if x.kind == xUndecided {
			if h.contra(x.st.facts) {
				continue
			}
			h.fail("not decided: "+x.why, x.pos)
			continue
		}
		out = append(out, x)
	}
	return out
}

// meth calls a method on the object recv points to.
func (h *H) meth(st *State, T types.Type, recv *Term, name string, args ...*Term) []Exit {
	fn := h.P.methodOf(T, name)
	if fn == nil || len(fn.Blocks) == 0 {
		panic(abortErr{"method " + name + " of " + typeShort(T) + " not found"})
	}
	r := recv
	if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); !ok {
		r = load(st.facts, st.mem, recv, T)
	}
	return h.call(st, fn, append([]*Term{r}, args...)...)
}

func typeShort(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ptr is an unknown object of type T living before the analysis starts.
func (h *H) ptr(name string, T types.Type) *Term { return param(name, types.NewPointer(T)) }

// freshSlice is a caller's slice with unknown contents, not shared with
// anything else.
func (h *H) freshSlice(st *State, name string, T types.Type, sorted bool) *Term {
	n := param("len_"+name, types.Typ[types.Int])
	st.assume(tLe(tInt(0), n), true)
	s := mk(OMakeSlice, T, true, 1, "arg:"+name, nil, nil, nil, n, n)
	m := newMem(st.mem, MElems)
	m.addr = s
	st.mem = m
	if sorted {
		m = newMem(st.mem, MSort)
		m.addr = s
		st.mem = m
	}
	return s
}

// ---- proving ----

// renorm re-resolves memory reads in t under (stronger) facts f.
func renorm(f *Facts, t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term, int) *Term
	rec = func(u *Term, d int) *Term {
		if d > 40 {
			return u
		}
		if r, ok := memo[u]; ok {
			return r
		}
		memo[u] = u
		r := u
		if v, ok := f.rw[u]; ok {
			r = rec(v, d+1)
			memo[u] = r
			return r
		}
		if len(u.args) > 0 {
			na := make([]*Term, len(u.args))
			ch := false
			for i, a := range u.args {
				if u.op == OCollect && i == 1 || u.op == OMakeSlice {
					// the count is part of the slice's identity in memory
					na[i] = a
					continue
				}
				na[i] = rec(a, d+1)
				if na[i] != a {
					ch = true
				}
			}
			if ch {
				r = rebuild(u, na)
			}
		}
		if v, ok := f.rw[r]; ok {
			r = rec(v, d+1)
		}
		if v, ok := f.sub[r]; ok {
			r = rec(v, d+1)
		} else if r.op == OLin && len(f.sub) > 0 {
			l := toLin(r)
			n := Lin{c: l.c}
			for i, a := range l.at {
				b := a
				if v, ok := f.sub[a]; ok {
					b = v
				}
				n = n.add(toLin(b).scale(l.co[i]))
			}
			if v := fromLin(n); v != r {
				r = rec(v, d+1)
			}
		}
		r = f.pin(r)
		switch r.op {
		case OLoad:
			v := reload(f, r)
			if v != r {
				r = rec(v, d+1)
				break
			}
			if in := r.args[0]; in.op == OIndexAddr && len(f.rw) > 0 {
				// an element of contents known to be those of a string
				if s, ok := f.rw[seqVal(f, r.mem, in.args[0])]; ok && isStringTerm(s) {
					r = rec(tIndexVal(s, in.args[1]), d+1)
				}
			}
		case OIndex:
			for _, at := range f.atoms {
				if at.v && at.t.op == OEq && at.t.args[0].op == OStr && at.t.args[1] == r.args[0] {
					r = tIndexVal(at.t.args[0], r.args[1])
					break
				}
				if at.v && at.t.op == OEq && at.t.args[1].op == OStr && at.t.args[0] == r.args[0] {
					r = tIndexVal(at.t.args[1], r.args[1])
					break
				}
			}
		case OSeqVal:
			if r.mem != nil {
				v := seqVal(f, r.mem, r.args[0])
				if v != r {
					r = rec(v, d+1)
				}
			}
		case OMapGet, OMapHas:
			v, has := mapLookup(f, r.mem, r.args[0], r.args[1], r.typ)
			if r.op == OMapHas {
				v = has
			}
			if v != r && !(v.op == r.op && v.args[0] == r.args[0] && v.args[1] == r.args[1]) {
				r = rec(v, d+1)
			} else {
				r = v
			}
		case OConv:
			if r.s == "string(bytes)" && isStringTerm(r.args[0]) && r.args[0].op != OSeqVal {
				r = r.args[0]
			}
		case OSeqEq:
			r = mkSeqEq(r.args[0], r.args[1])
		case OIte:
			switch f.eval(r.args[0]) {
			case 1:
				r = rec(r.args[1], d+1)
			case 0:
				r = rec(r.args[2], d+1)
			}
		case OPure:
			if r.s == "sorted" {
				// a sequence of one element is sorted, and so is one found to be
				a := r.args[0]
				if f.proveLe(tLen(a), tInt(1)) || f.eval(tIsSorted(a)) == 1 {
					r = a
				}
			}
		}
		memo[u] = r
		return r
	}
	return rec(t, 0)
}

func reload(f *Facts, t *Term) *Term {
	addr := t.args[0]
	m := t.mem
	if in := innerIndex(addr); in.op == OIndexAddr {
		switch in.args[0].op {
		case OAppend, OAppendSl, OCollect, OConv, OSlice:
			if m.kind == MInit {
				m = in.args[0].mem
				if m == nil {
					m = initMem()
				}
			}
		}
	}
	return load(f, m, addr, t.typ)
}

// add assumes c, noticing contradictions.
func addFact(f *Facts, c *Term) *Facts {
	switch f.eval(c) {
	case 0:
		g := f.clone()
		g.bad = true
		return g
	case 1:
		return f
	}
	return f.assume(c, true)
}

// saturate re-resolves the facts under each other, closes them under
// congruence of simple equalities and instantiates quantified facts at the
// iteration counters and index terms at hand.
func saturate(f *Facts, extra []*Term) *Facts {
	for _, c := range f.seqsCompared() {
		g := f.clone()
		if c.op == ONot {
			g.atoms = append(g.atoms, atomFact{c.args[0], false})
		} else {
			g.atoms = append(g.atoms, atomFact{c, true})
		}
		f = g
	}
	for round := 0; round < 3 && !f.bad; round++ {
		before := len(f.les) + len(f.nes) + len(f.atoms)
		f = f.fixShr()
		if f.clash() {
			f = f.clone()
			f.bad = true
			return f
		}
		f = f.withSubs()
		for _, c := range f.terms() {
			d := renorm(f, c)
			if d != c {
				f = addFact(f, d)
				if f.bad {
					return f
				}
			}
		}
		js := indexTerms(f, extra)
		for _, fa := range f.all {
			for _, j := range append(js[:len(js):len(js)], tAddK(fa.hi, -1)) {
				if f.proveLe(tInt(0), j) && f.proveLt(j, fa.hi) {
					for _, b := range fa.body {
						f = addFact(f, renorm(f, subst(b, fa.it, j)))
						if f.bad {
							return f
						}
					}
				}
			}
		}
		if len(f.les)+len(f.nes)+len(f.atoms) == before {
			break
		}
	}
	return f
}

// withSubs orients the integer equalities following from f: the newest atom
// is defined by the older ones.
func (f *Facts) withSubs() *Facts {
	sub := map[*Term]*Term{}
	for _, l := range f.les {
		if len(l.at) == 0 || len(l.at) > 4 {
			continue
		}
		bi := -1
		for i := range l.at {
			if l.co[i] != 1 && l.co[i] != -1 {
				continue
			}
			if bi < 0 || l.at[i].id > l.at[bi].id {
				bi = i
			}
		}
		if bi < 0 {
			continue
		}
		a, c := l.at[bi], l.co[bi]
		if sub[a] != nil || !f.le0(l.neg()) {
			continue
		}
		within := false
		for i := range l.at {
			if i != bi && termContains(l.at[i], a) {
				within = true
			}
		}
		if within {
			continue
		}
		sub[a] = fromLin(l.sub(Lin{at: []*Term{a}, co: []int64{c}}).scale(-c))
	}
	if len(sub) == 0 && f.sub == nil {
		return f
	}
	g := f.clone()
	g.sub = sub
	return g
}

func indexTerms(f *Facts, extra []*Term) []*Term {
	set := map[*Term]bool{}
	seen := map[*Term]bool{}
	bound := map[*Term]bool{}
	for _, fa := range f.all {
		_ = fa
	}
	var visit func(*Term, int)
	visit = func(t *Term, d int) {
		if d > 25 || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OIter:
			set[t] = true
		case OIndexAddr:
			set[t.args[1]] = true
		case OBound:
			if t.typ != nil && t.k >= 0 {
				set[t] = true
			}
		}
		for _, a := range t.args {
			visit(a, d+1)
		}
	}
	for _, c := range f.terms() {
		visit(c, 0)
	}
	for _, c := range extra {
		visit(c, 0)
	}
	var r []*Term
	for t := range set {
		if !bound[t] {
			r = append(r, t)
		}
	}
	sortTerms(r)
	if len(r) > 24 {
		r = r[:24]
	}
	return r
}

// substAll replaces symbol x by y in every fact.
func (f *Facts) substAll(x, y *Term) *Facts {
	g := &Facts{bad: f.bad}
	for _, c := range f.terms() {
		g = addFact(g, subst(c, x, y))
		if g.bad {
			return g
		}
	}
	for _, a := range f.all {
		b := forallFact{it: a.it, hi: subst(a.hi, x, y)}
		for _, t := range a.body {
			b.body = append(b.body, subst(t, x, y))
		}
		g.all = append(g.all[:len(g.all):len(g.all)], b)
	}
	for _, c := range g.terms() {
		g = addFact(g, renorm(g, c))
	}
	return g
}

// leaf prints an undecided case for debugging.
func (h *H) leaf(f *Facts, extra []*Term) {
	if os.Getenv("GMLEAF") == "" || !strings.Contains(h.rule+": "+h.what, os.Getenv("GMDBG")) || len(extra) == 0 {
		return
	}
	fmt.Println("-- leaf")
	for _, t := range f.terms() {
		fmt.Println("  fact", t)
	}
	for _, t := range extra {
		fmt.Println("  term", renorm(f, t))
	}
}

func (h *H) contra(f *Facts) bool {
	return h.prove(f, nil, func(*Facts) bool { return false })
}

// prove: goal holds in every case of f. extra lists terms the goal speaks of.
func (h *H) prove(f *Facts, extra []*Term, goal func(*Facts) bool) bool {
	n := 0
	var rec func(f *Facts, d int) bool
	rec = func(f *Facts, d int) bool {
		n++
		if n > 200 {
			return false
		}
		h.e.checkTime()
		if f.bad || goal(f) {
			return true
		}
		f = saturate(f, extra)
		if f.bad || goal(f) {
			return true
		}
		if d == 0 {
			h.leaf(f, extra)
			return false
		}
		for _, c := range splits(f, extra) {
			if rec(addFact(f, c), d-1) && rec(addFact(f, tNot(c)), d-1) {
				return true
			}
			if n > 200 {
				return false
			}
		}
		h.leaf(f, extra)
		return false
	}
	return rec(f, 3)
}

// splits proposes undecided conditions worth distinguishing.
func splits(f *Facts, extra []*Term) []*Term {
	var r []*Term
	have := map[*Term]bool{}
	add := func(c *Term) {
		if c.op == OBool || have[c] || have[tNot(c)] || f.eval(c) >= 0 {
			return
		}
		have[c] = true
		r = append(r, c)
	}
	// element reads of grown slices
	seen := map[*Term]bool{}
	var visit func(*Term, int)
	visit = func(t *Term, d int) {
		if d > 30 || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OIte {
			add(t.args[0])
		}
		if t.op == OIndexAddr {
			b := t.args[0]
			switch b.op {
			case OAppend, OAppendSl, OCollect:
				add(tLt(t.args[1], tLen(b.args[0])))
			}
		}
		if t.op == OLoad && t.mem != nil && t.args[0].op == OIndexAddr {
			// stores to elements of the same slice
			i := t.args[0]
			for m := t.mem; m != nil; m = m.prev {
				if m.kind == MCopy && m.addr == i.args[0] {
					add(tLt(i.args[1], tLen(m.val)))
				}
				if m.kind == MStore {
					a := innerIndex(m.addr)
					if a.op == OIndexAddr && a.args[0] == i.args[0] {
						add(tEqInt(a.args[1], i.args[1]))
					}
				}
			}
		}
		if (t.op == OMapGet || t.op == OMapHas) && t.mem != nil && t.mem.kind == MMapSet && t.mem.addr == t.args[0] {
			add(tEq(t.mem.key, t.args[1]))
		}
		for _, a := range t.args {
			visit(a, d+1)
		}
	}
	for _, c := range extra {
		visit(c, 0)
	}
	for _, c := range f.terms() {
		visit(c, 0)
	}
	// iteration counters against the range of quantified facts
	js := indexTerms(f, extra)
	for _, fa := range f.all {
		for _, j := range js {
			if f.proveLe(tInt(0), j) {
				add(tLt(j, fa.hi))
			}
		}
	}
	if len(r) > 12 {
		r = r[:12]
	}
	return r
}

// must proves goal on path x, else records a failure.
func (h *H) must(x Exit, label string, extra []*Term, goal func(*Facts) bool) bool {
	h.paths++
	if h.failed >= 3 && !h.soft {
		// the obligation has failed already: nothing more to learn
		h.failed++
		return false
	}
	if h.prove(x.st.facts, extra, goal) {
		return true
	}
	h.dump(x.st.facts, extra)
	h.fail(label+pathNote(x), x.pos)
	return false
}

func pathNote(x Exit) string {
	var fs []string
	for _, t := range x.st.facts.terms() {
		if t.op != OBool {
			fs = append(fs, t.String())
		}
	}
	sort.Strings(fs)
	s := strings.Join(fs, " && ")
	if len(s) > 400 && os.Getenv("GMFULL") == "" {
		s = strings.ToValidUTF8(s[:400], "") + "..."
	}
	if s == "" {
		return ""
	}
	return " [on the path where " + s + "]"
}

// ---- goals ----

func (h *H) intEq(a, b *Term) func(*Facts) bool {
	return func(f *Facts) bool {
		x, y := renorm(f, a), renorm(f, b)
		return x == y || f.proveEqInt(x, y)
	}
}

func (h *H) boolIs(a *Term, v bool) func(*Facts) bool {
	return func(f *Facts) bool {
		x := renorm(f, a)
		r := f.eval(x)
		return r >= 0 && (r == 1) == v
	}
}

// seqSame: slice a in memory ma has the same contents as b in mb.
func (h *H) seqSame(ma *Mem, a *Term, mb *Mem, b *Term) func(*Facts) bool {
	return func(f *Facts) bool {
		va, vb := renorm(f, seqVal(f, ma, renorm(f, a))), renorm(f, seqVal(f, mb, renorm(f, b)))
		return seqTermsEq(f, va, vb)
	}
}

func seqTermsEq(f *Facts, va, vb *Term) bool {
	if va == vb || f.eval(mkSeqEq(va, vb)) == 1 {
		return true
	}
	if va.id > vb.id {
		va, vb = vb, va
	}
	// two empty sequences
	if f.proveEqInt(tLen(va), tInt(0)) && f.proveEqInt(tLen(vb), tInt(0)) {
		return true
	}
	if va.op == OPure && vb.op == OPure && va.s == "sorted" && vb.s == "sorted" && seqExt(f, va.args[0], vb.args[0]) {
		return true
	}
	// transitivity through one fact
	for _, a := range f.atoms {
		if !a.v || a.t.op != OSeqEq {
			continue
		}
		for i := 0; i < 2; i++ {
			if a.t.args[i] != va {
				continue
			}
			o := a.t.args[1-i]
			if o == vb {
				return true
			}
			if f.eval(mkSeqEq(o, vb)) == 1 {
				return true
			}
		}
	}
	return false
}

// seqExt: the two contents are equally long and agree at every position.
func seqExt(f *Facts, va, vb *Term) bool {
	if va == vb {
		return true
	}
	if va.op != OSeqVal || vb.op != OSeqVal || va.args[0].typ == nil || vb.args[0].typ == nil {
		return false
	}
	et := elemType(va.args[0].typ)
	if et == nil || !f.proveEqInt(tLen(va), tLen(vb)) {
		return false
	}
	j := mk(OBound, types.Typ[types.Int], false, 7, "", nil, nil, nil)
	g := f.assume(tLe(tInt(0), j), true).assume(tLt(j, tLen(va)), true)
	if g.bad {
		return true
	}
	el := func(v *Term) *Term {
		m := v.mem
		if m == nil {
			m = initMem()
		}
		return load(g, m, tIndexAddr(v.args[0], j, types.NewPointer(et)), et)
	}
	a, b := el(va), el(vb)
	return (&H{}).prove(g, []*Term{a, b}, func(f *Facts) bool {
		x, y := renorm(f, a), renorm(f, b)
		return x == y || f.eval(tEqVal(x, y)) == 1
	})
}

// valSame: two values of any type, read in their memories, are equal.
func (h *H) valSame(ma *Mem, a *Term, mb *Mem, b *Term) func(*Facts) bool {
	return func(f *Facts) bool {
		x, y := renorm(f, a), renorm(f, b)
		return x == y || f.eval(tEq(x, y)) == 1
	}
}

// writesOutside lists memory effects of a path that touch objects existing
// before it (since mem m0).
func writesOutside(x Exit, m0 *Mem) []string {
	var r []string
	f := x.st.facts
	for m := x.st.mem; m != nil && m != m0; m = m.prev {
		if m.kind == MStore && m.val != nil && pointee(m.addr) != nil {
			// putting back what was there changes nothing
			was := load(f, m.prev, m.addr, pointee(m.addr))
			if a, b := renorm(f, was), renorm(f, m.val); a == b || f.eval(tEq(a, b)) == 1 {
				continue
			}
		}
		r = append(r, memOutside(m.kind, m.addr, m.loop, m.typ)...)
	}
	return r
}

func ownObject(a *Term) bool {
	r := rootOf(a)
	switch r.op {
	case OAlloc, OMakeSlice, OMakeMap:
		return !strings.HasPrefix(r.s, "arg:")
	case OAppend, OAppendSl, OCollect:
		out := map[*Term]bool{}
		if backing(r, out) {
			return false
		}
		for t := range out {
			if strings.HasPrefix(t.s, "arg:") {
				return false
			}
		}
		return true
	case OConv:
		return true
	}
	return false
}

func memOutside(k memKind, addr *Term, loop *loopMem, typ types.Type) []string {
	switch k {
	case MSort:
		if strings.HasPrefix(rootOf(addr).s, "arg:") {
			return nil // sorting the caller's item
		}
		fallthrough
	case MStore, MMapSet, MMapDel, MElems, MCopy:
		if !ownObject(addr) {
			return []string{fmt.Sprintf("writes %v", addr)}
		}
	case MHavocType:
		return []string{"may write any " + typeShort(typ)}
	case MHavocAll:
		return []string{"may write anything"}
	case MLoop:
		var r []string
		for _, w := range loop.writes {
			r = append(r, memOutside(w.kind, w.addr, nil, w.typ)...)
		}
		return r
	}
	return nil
}

func (e *Engine) sortedChecks() []*checkRes {
	var r []*checkRes
	for _, c := range e.checks {
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].pos != r[j].pos {
			return r[i].pos < r[j].pos
		}
		return r[i].kind < r[j].kind
	})
	return r
}
