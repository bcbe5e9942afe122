package main

// Loop summaries. A loop is never executed on unknown bounds: its header is
// given a synthetic iteration counter, every header variable and every
// loop-invariant memory cell is placed in a small lattice
//     const -> step (init + c*it) or tail (init[c*it:]) -> append (init ++ one pattern per iteration) -> free
// and the placement is iterated to a fixpoint over the body's back edges
// (classic widening). Memory written at varying addresses becomes a fill
// pattern. Linear invariants are guessed from the body's guards and kept only
// if inductive; facts established by every completed iteration are kept as
// quantified facts. Loops whose header test is constant at every step are
// walked concretely (bounded by 64).

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type lvMode int

const (
	lvConst lvMode = iota
	lvStep
	lvAppend
	lvTail // init without its first step*it elements
	lvFree
)

type loopVar struct {
	phi  *ssa.Phi // or
	cell *Term    // address
	typ  types.Type
	idx  int
	mode lvMode
	init *Term
	step int64
	pat  []*Term // append pattern (nil entry: unknown)
	head *Term   // value at the head of iteration it
}

type LoopBack struct {
	st      *State
	updates []*Term // by variable
	events  []*Event
}

type LoopInfo struct {
	fn    *ssa.Function
	loop  *Loop
	it    *Term
	vars  []*loopVar
	backs []LoopBack
	head  *State
	entry *State
	key   string
	ends  bool // the number of iterations is bounded
}

type unrollFail struct{ header *ssa.BasicBlock }

func substMany(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(u *Term) *Term {
		if r, ok := m[u]; ok {
			return r
		}
		if len(u.args) == 0 {
			return u
		}
		if r, ok := memo[u]; ok {
			return r
		}
		changed := false
		na := make([]*Term, len(u.args))
		for i, a := range u.args {
			na[i] = rec(a)
			if na[i] != a {
				changed = true
			}
		}
		r := u
		if changed {
			r = rebuild(u, na)
		}
		memo[u] = r
		return r
	}
	return rec(t)
}

func headerIf(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	return ok
}

func (e *Engine) enterLoop(fr *Frame, l *Loop, pred *ssa.BasicBlock, st *State) []Exit {
	if headerIf(l.header) {
		if ex, ok := e.tryUnroll(fr, l, pred, st, 0); ok {
			return ex
		}
	}
	if e.unroll > 0 {
		if ex, ok := e.tryUnroll(fr, l, pred, st, e.unroll); ok {
			return ex
		}
	}
	if e.flagLoop(l) {
		if ex, ok := e.splitEntry(fr, l, pred, st); ok {
			return ex
		}
	}
	return e.summarise(fr, l, pred, st, false)
}

// tryUnroll walks a loop whose header test is decided at every step.
func (e *Engine) tryUnroll(fr *Frame, l *Loop, pred *ssa.BasicBlock, st *State, force int) (exits []Exit, ok bool) {
	saveSteps := e.steps
	nw := len(e.watch)
	d, q := e.discover, e.quietCk
	defer func() {
		if r := recover(); r != nil {
			if f, is := r.(unrollFail); is && f.header == l.header {
				e.watch = e.watch[:nw]
				e.discover, e.quietCk = d, q
				e.steps = saveSteps
				exits, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	e.watch = append(e.watch, watchRec{l.header, fr.ctx})
	maxIt, maxSt := int64(64), 48
	if force > 0 {
		maxIt, maxSt = int64(force), 600
		e.watch = e.watch[:nw]
	}
	type item struct {
		fr   *Frame
		st   *State
		pred *ssa.BasicBlock
	}
	work := []item{{fr, st, pred}}
	for k := int64(0); len(work) > 0; k++ {
		if k > maxIt || len(work) > maxSt {
			panic(unrollFail{l.header})
		}
		var next []item
		for _, w := range work {
			f2 := w.fr.clone()
			// re-establish loop nesting at the header
			for i, a := range f2.active {
				if a.l == l {
					f2.active = f2.active[:i]
					break
				}
			}
			f2.active = append(f2.active, activeLoop{l: l, it: tInt(k)})
			for _, x := range e.runBlock(f2, l.header, w.pred, w.st) {
				if x.kind == xBack && x.loop == l && x.fr.ctx == fr.ctx {
					next = append(next, item{x.fr, x.st, x.pred})
					continue
				}
				exits = append(exits, x)
			}
		}
		work = next
	}
	e.watch = e.watch[:nw]
	if e.discover == 0 {
		e.loopRecs = append(e.loopRecs, &LoopInfo{fn: fr.fn, loop: l, ends: true})
	}
	return exits, true
}

type watchRec struct {
	header *ssa.BasicBlock
	ctx    *Ctx
}

// watched is asked when a branch in block b cannot be decided.
func (e *Engine) watched(fr *Frame, b *ssa.BasicBlock) bool {
	if len(e.watch) == 0 {
		return false
	}
	w := e.watch[len(e.watch)-1]
	// only while this loop is being walked concretely in this frame
	if w.header != b || w.ctx != fr.ctx {
		return false
	}
	for _, a := range fr.active {
		if a.l.header == b {
			return a.it != nil && a.it.op == OInt
		}
	}
	return false
}

func (e *Engine) loopKey(fr *Frame, l *Loop) string {
	return fmt.Sprintf("%s:%p", fr.ctx.key(), l.header)
}

func hasInLoopMem(t *Term, entry int) bool { return termMaxMem(t) > entry }

func mentionsAny(t *Term, xs []*Term) bool {
	for _, x := range xs {
		if termContains(t, x) {
			return true
		}
	}
	return false
}

func (e *Engine) summarise(fr *Frame, l *Loop, pred *ssa.BasicBlock, st *State, split bool) []Exit {
	return e.summariseAs(fr, l, pred, st, split, nil)
}

// latch is a header variable or a cell which, once it has another value than
// the one the loop is entered with, makes all further iterations do nothing:
// an iteration which changes it is then a way out of the loop.
type latch struct {
	phi  int // index, or
	cell *Term
	typ  types.Type
	init *Term
	ends bool // the number of iterations is bounded
	// the variables which go on counting
	phis  map[int]bool
	cells map[*Term]bool
}

func (k *latch) counts(v *loopVar) bool {
	if v.phi != nil {
		return k.phis[v.idx]
	}
	return k.cells[v.cell]
}

func (k *latch) is(v *loopVar) bool {
	if k == nil {
		return false
	}
	if k.cell != nil {
		return v.cell == k.cell
	}
	return v.phi != nil && v.idx == k.phi
}

// unchanged: -1 not known, 0 no, 1 yes
func (k *latch) unchanged(f *Facts, u *Term) int {
	return f.eval(k.cond(u))
}

func (k *latch) cond(u *Term) *Term {
	if k.init.op == OBool {
		if k.init.k == 1 {
			return u
		}
		return tNot(u)
	}
	return tEq(u, k.init)
}

// latchOf looks for a latch among the variables of a loop already summarised.
func (e *Engine) latchOf(l *Loop, vars []*loopVar, backs []Exit, hs, st *State, it *Term, entryMem int, update func(*loopVar, Exit) *Term, writes func(Exit) bool) (*latch, *Term) {
	for _, v := range vars {
		if v.mode != lvFree || v.init == nil {
			continue
		}
		k := &latch{cell: v.cell, typ: v.typ, init: v.init}
		if v.phi != nil {
			k.phi = v.idx
		}
		isBool := v.typ != nil && isBoolType(v.typ)
		var tries []*Term
		switch {
		case v.init.op == OBool || v.init == tNil():
			tries = []*Term{v.init}
		case isBool:
			tries = []*Term{tBool(true), tBool(false)}
		case nilable(v.typ):
			tries = []*Term{tNil()}
		}
		for _, init := range tries {
			k.init = init
			open := st.facts.eval(k.cond(v.init)) < 0
			if st.facts.eval(k.cond(v.init)) == 0 || !e.latches(k, v, vars, backs, hs, update, writes) {
				continue
			}
			if open {
				return nil, k.cond(v.init)
			}
			li := &LoopInfo{loop: l, vars: vars, head: hs}
			for _, b := range backs {
				lb := LoopBack{st: b.st}
				for _, w := range vars {
					lb.updates = append(lb.updates, update(w, b))
				}
				li.backs = append(li.backs, lb)
			}
			k.ends = loopEnds(li, it)
			k.phis, k.cells = map[int]bool{}, map[*Term]bool{}
			for _, w := range vars {
				if w.mode != lvStep && w.mode != lvTail {
					continue
				}
				if w.phi != nil {
					k.phis[w.idx] = true
				} else {
					k.cells[w.cell] = true
				}
			}
			return k, nil
		}
	}
	return nil, nil
}

// latches: once v is not what it was at the start nothing else changes.
func (e *Engine) latches(k *latch, v *loopVar, vars []*loopVar, backs []Exit, hs *State, update func(*loopVar, Exit) *Term, writes func(Exit) bool) bool {
	raised := false
	for _, b := range backs {
		uv := update(v, b)
		if !raised {
			s := b.st.clone()
			raised = s.assume(k.cond(v.head), true) && k.unchanged(s.facts, uv) != 1
		}
		s := b.st.clone()
		if !s.assume(k.cond(v.head), false) {
			continue
		}
		f := s.facts
		if k.unchanged(f, uv) != 0 || writes(b) || len(eventsSince(b.st.ev, hs.ev)) > 0 {
			return false
		}
		for _, w := range vars {
			if w == v {
				continue
			}
			u := update(w, b)
			ok := true
			switch w.mode {
			case lvStep:
				ok = u == tAddK(w.head, w.step) || f.proveEqInt(u, tAddK(w.head, w.step))
			case lvTail:
			default:
				ok = u == w.head || f.eval(tEq(u, w.head)) == 1
			}
			if !ok {
				return false
			}
		}
	}
	return raised
}
func (e *Engine) summariseAs(fr *Frame, l *Loop, pred *ssa.BasicBlock, st *State, split bool, lt *latch) []Exit {
	key := e.loopKey(fr, l)
	outer := fr.iters()
	it := mk(OIter, types.Typ[types.Int], false, 0, key, nil, nil, nil, outer...)
	itArgs := append(append([]*Term(nil), outer...), it)
	inits := e.phiVals(fr, l.header, pred)
	var vars []*loopVar
	for i, v := range inits {
		ph := l.header.Instrs[i].(*ssa.Phi)
		if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && v.op != OBool {
			if r := st.facts.eval(v); r >= 0 {
				v = tBool(r == 1)
			}
		}
		vars = append(vars, &loopVar{phi: ph, typ: ph.Type(), idx: i, init: v})
	}
	entryMem := st.mem.id
	nphi := len(vars)
	var writes []loopWrite
	var cands []*Term // inductive invariant candidates at the head (nil until modes are stable)
	candsReady := false
	var quant []*Term

	freeTerm := func(v *loopVar) *Term {
		if v.phi != nil {
			return mk(OLoopVar, v.typ, false, int64(v.idx), key, nil, nil, nil, itArgs...)
		}
		return mk(OLoopVar, v.typ, false, -1, key+"@"+fmt.Sprint(v.cell.id), nil, nil, nil, itArgs...)
	}
	headVal := func(v *loopVar) *Term {
		switch v.mode {
		case lvConst:
			return v.init
		case lvStep:
			return tAdd(v.init, tScale(it, v.step))
		case lvTail:
			b, lo, hi := sliceParts(v.init)
			return mk(OSlice, v.typ, false, 0, "", nil, nil, nil, b, tAdd(lo, tScale(it, v.step)), hi)
		case lvAppend:
			// the element pattern is over a bound variable of its own
			bv := mk(OBound, types.Typ[types.Int], false, -1, key+fmt.Sprint(v.idx), nil, nil, nil)
			args := []*Term{v.init, it, bv}
			known := true
			for _, p := range v.pat {
				if p == nil {
					known = false
				}
			}
			if known {
				for _, p := range v.pat {
					args = append(args, subst(p, it, bv))
				}
			}
			return mk(OCollect, v.typ, false, int64(len(v.pat)), key+fmt.Sprint(v.idx), nil, st.mem, nil, args...)
		}
		return freeTerm(v)
	}
	headState := func() *State {
		s := st.clone()
		if len(writes) > 0 {
			n := newMem(s.mem, MLoop)
			n.loop = &loopMem{it: it, hi: it, writes: append([]loopWrite(nil), writes...)}
			s.mem = n
		}
		for _, v := range vars {
			v.head = headVal(v)
			if v.cell != nil && (v.mode != lvConst || len(writes) > 0) {
				n := newMem(s.mem, MStore)
				n.addr, n.val = v.cell, v.head
				s.mem = n
			}
		}
		for _, c := range cands {
			s.assume(c, true)
		}
		if len(quant) > 0 {
			g := s.facts.clone()
			g.all = append(g.all, forallFact{it: it, hi: it, body: quant})
			s.facts = g
		}
		return s
	}
	var dead []Exit
	runBody := func(discover bool, hs *State) (backs []Exit, exits []Exit) {
		dead = nil
		f2 := fr.clone()
		f2.active = append(f2.active, activeLoop{l: l, it: it, discover: discover})
		for _, v := range vars[:nphi] {
			e.set(f2, v.phi, v.head)
		}
		all := e.runFrom(f2, l.header, 0, hs)
		for _, x := range all {
			if x.kind == xBack && x.loop == l && x.fr.ctx == fr.ctx && x.fr.fn == fr.fn {
				if lt == nil {
					backs = append(backs, x)
					continue
				}
				var u *Term
				if lt.cell != nil {
					u = load(x.st.facts, x.st.mem, lt.cell, lt.typ)
				} else {
					u = e.phiVals(x.fr, l.header, x.pred)[lt.phi]
				}
				for _, same := range []bool{true, false} {
					y := x
					switch lt.unchanged(x.st.facts, u) {
					case -1:
						y.st = x.st.clone()
						if !y.st.assume(lt.cond(u), same) {
							continue
						}
					case 0:
						if same {
							continue
						}
					case 1:
						if !same {
							continue
						}
					}
					if same {
						backs = append(backs, y)
					} else {
						dead = append(dead, y)
					}
				}
			} else {
				exits = append(exits, x)
			}
		}
		return
	}
	update := func(v *loopVar, b Exit, hs *State) *Term {
		if v.phi != nil {
			return e.phiVals(b.fr, l.header, b.pred)[v.idx]
		}
		return load(b.st.facts, b.st.mem, v.cell, v.typ)
	}
	nodesSince := func(m, head *Mem) []*Mem {
		var r []*Mem
		for ; m != nil && m != head; m = m.prev {
			r = append(r, m)
		}
		return r
	}
	invariantAddr := func(a *Term, vs []*Term) bool {
		if termContains(a, it) || hasInLoopMem(a, entryMem) {
			return false
		}
		return true
	}

	var backs0, exits0 []Exit
	var hs0 *State
	for pass := 0; ; pass++ {
		if pass > 40 {
			return undecided(st, l.header.Instrs[0].Pos(), "loop summary does not settle in "+fr.fn.String())
		}
		hs := headState()
		e.discover++
		backs, exits := runBody(true, hs)
		e.discover--
		for _, x := range exits {
			if x.kind == xUndecided {
				return []Exit{x}
			}
		}
		backs0, exits0, hs0 = backs, exits, hs
		changed := false
		// 1. header variables and cells
		for _, v := range vars {
			if v.mode == lvFree || lt.is(v) {
				continue
			}
			us := make([]*Term, len(backs))
			for i, b := range backs {
				us[i] = update(v, b, hs)
			}
			us = joinAppends(us, backs, v.head, factSet(st.facts), it, entryMem)
			for i, b := range backs {
				if e.raise(v, us[i], b, it, entryMem) {
					changed = true
				}
				if v.mode == lvFree {
					break
				}
			}
		}
		// 2. memory written in the body
		nw, newCells, why := e.bodyWrites(backs, factSet(st.facts), hs.mem, it, entryMem, invariantAddr, nodesSince)
		if why != "" {
			return undecided(st, l.header.Instrs[0].Pos(), why)
		}
		// cells no longer written (their address depended on a value thought
		// constant) are dropped
		kept := vars[:nphi:nphi]
		for _, v := range vars[nphi:] {
			still := false
			for _, c := range newCells {
				if c == v.cell {
					still = true
				}
			}
			if still || pass >= 12 {
				kept = append(kept, v)
			} else {
				changed = true
			}
		}
		vars = kept
		for _, c := range newCells {
			known := false
			for _, v := range vars {
				if v.cell == c {
					known = true
				}
			}
			if !known {
				t := pointee(c)
				vars = append(vars, &loopVar{cell: c, typ: t, idx: 1000 + c.id, init: load(st.facts, st.mem, c, t)})
				changed = true
			}
		}
		if merged, ch := mergeWrites(writes, nw, pass); ch {
			writes = merged
			changed = true
		}
		if changed {
			cands, candsReady, quant = nil, false, nil
			continue
		}
		// 3. invariants
		var lv []*Term
		lv = append(lv, it)
		for _, v := range vars {
			if v.mode == lvFree {
				lv = append(lv, v.head)
			}
		}
		if !candsReady {
			candsReady = true
			cands = e.candidates(backs, exits, vars, lv, it, st, entryMem)
			quant = quantFacts(backs, lv, it, entryMem, st)
			if len(cands) > 0 || len(quant) > 0 {
				continue
			}
		} else {
			var keep []*Term
			for _, c := range cands {
				ok := true
				for _, b := range backs {
					m := map[*Term]*Term{it: tAddK(it, 1)}
					for _, v := range vars {
						if v.mode == lvFree {
							m[v.head] = update(v, b, hs)
						}
					}
					if b.st.facts.eval(substMany(c, m)) != 1 {
						ok = false
						break
					}
				}
				if ok {
					keep = append(keep, c)
				}
			}
			if len(keep) != len(cands) {
				cands = keep
				quant = quantFacts(backs, lv, it, entryMem, st)
				continue
			}
			q2 := quantFacts(backs, lv, it, entryMem, st)
			if n2 := intersectTerms(quant, q2); len(n2) != len(quant) {
				quant = n2 // an assumed fact was not re-established
				continue
			}
		}
		break
	}
	if !split && len(backs0) > 0 {
		// does an invariant hold only when the loop is entered at all?
		if outs, ok := e.walkChain(fr, l, inits, st); ok && len(outs) > 1 {
			var lv []*Term
			lv = append(lv, it)
			for _, v := range vars {
				if v.mode == lvFree {
					lv = append(lv, v.head)
				}
			}
			for _, o := range outs {
				if o.exit {
					continue
				}
				for _, c := range e.candidates(backs0, exits0, vars, lv, it, o.st, entryMem) {
					if st.facts.eval(substMany(c, initSubst(vars, it))) == 1 {
						continue
					}
					ind := true
					for _, b := range backs0 {
						m := map[*Term]*Term{it: tAddK(it, 1)}
						for _, v := range vars {
							if v.mode == lvFree {
								m[v.head] = update(v, b, nil)
							}
						}
						if b.st.facts.eval(substMany(c, m)) != 1 {
							ind = false
							break
						}
					}
					if ind {
						if ex, ok := e.splitEntry(fr, l, pred, st); ok {
							return ex
						}
					}
				}
			}
		}
	}
	if lt == nil && len(backs0) > 0 {
		hs := hs0
		up := func(v *loopVar, b Exit) *Term { return update(v, b, hs) }
		wr := func(b Exit) bool {
			ws, cells, why := e.bodyWrites([]Exit{b}, factSet(st.facts), hs.mem, it, entryMem, invariantAddr, nodesSince)
			for _, c := range cells {
				known := false
				for _, v := range vars {
					known = known || v.cell == c
				}
				if !known {
					return true
				}
			}
			return why != "" || len(ws) > 0
		}
		if len(backs0) > 1 {
			if k, c := e.latchOf(l, vars, backs0, hs, st, it, entryMem, up, wr); k != nil {
				return e.summariseAs(fr, l, pred, st, split, k)
			} else if c != nil {
				var r []Exit
				for _, w := range []bool{true, false} {
					if s := st.clone(); s.assume(c, w) {
						r = append(r, e.summariseAs(fr, l, pred, s, split, nil)...)
					}
				}
				return r
			}
		}
	}
	// final pass: exits go on to the rest of the function
	hs := headState()
	li := &LoopInfo{fn: fr.fn, loop: l, it: it, vars: vars, head: hs, entry: st, key: key}
	hs.addEvent(&Event{kind: "rep", loop: li, pos: l.header.Instrs[0].Pos(), ctx: fr.ctx, fac: hs.facts})
	mark := hs.ev
	backs, exits := runBody(false, hs)
	for _, b := range backs {
		lb := LoopBack{st: b.st, events: eventsSince(b.st.ev, mark)}
		for _, v := range vars {
			lb.updates = append(lb.updates, update(v, b, hs))
		}
		li.backs = append(li.backs, lb)
	}
	for _, b := range dead {
		// nothing happens any more until the loop is left
		f2 := b.fr.clone()
		for i, a := range f2.active {
			if a.l == l {
				f2.active = f2.active[:i]
				break
			}
		}
		it2 := mk(OIter, types.Typ[types.Int], false, 0, key+"!", nil, nil, nil, itArgs...)
		s := b.st.clone()
		s.assume(tLt(it, it2), true)
		us := e.phiVals(b.fr, l.header, b.pred)
		for _, v := range vars {
			var u *Term
			if !lt.counts(v) {
				continue
			}
			switch v.mode {
			case lvStep:
				u = tAdd(v.init, tScale(it2, v.step))
			case lvTail:
				b, lo, hi := sliceParts(v.init)
				u = mk(OSlice, v.typ, false, 0, "", nil, nil, nil, b, tAdd(lo, tScale(it2, v.step)), hi)
			default:
				u = mk(OLoopVar, v.typ, false, int64(v.idx), key+"!", nil, nil, nil, append(append([]*Term(nil), itArgs...), it2)...)
			}
			if v.phi != nil {
				us[v.idx] = u
				continue
			}
			n := newMem(s.mem, MStore)
			n.addr, n.val = v.cell, u
			s.mem = n
		}
		for _, v := range vars[:nphi] {
			e.set(f2, v.phi, us[v.idx])
		}
		f2.active = append(f2.active, activeLoop{l: l, it: it2})
		for _, x := range e.runFrom(f2, l.header, 0, s) {
			if !(x.kind == xBack && x.loop == l && x.fr.ctx == fr.ctx && x.fr.fn == fr.fn) {
				exits = append(exits, x)
			}
		}
	}
	if e.discover == 0 {
		li.ends = loopEnds(li, it) && (lt == nil || lt.ends)
		e.loopRecs = append(e.loopRecs, li)
	}
	return exits
}

// loopEnds looks for a linear measure which every iteration that goes on
// decreases and which is not negative while it does.
func loopEnds(li *LoopInfo, it *Term) bool {
	for _, in := range li.loop.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true // ranging over a string or a map
		}
	}
	if len(li.backs) == 0 {
		return true
	}
	step := func(b LoopBack, t *Term) *Term {
		m := map[*Term]*Term{it: tAddK(it, 1)}
		for i, v := range li.vars {
			if v.mode == lvFree {
				m[v.head] = b.updates[i]
			}
		}
		return substMany(t, m)
	}
	tried := map[string]bool{}
	for _, l := range li.backs[0].st.facts.les {
		e := fromLin(l.neg())
		if k := l.key(); tried[k] {
			continue
		} else {
			tried[k] = true
		}
		ok := true
		for _, b := range li.backs {
			f := b.st.facts
			if f.bad {
				continue
			}
			if !f.proveLe(tInt(0), e) || !f.proveLt(step(b, e), e) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func nilable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer:
		return true
	}
	return false
}

func initSubst(vars []*loopVar, it *Term) map[*Term]*Term {
	m := map[*Term]*Term{it: tInt(0)}
	for _, v := range vars {
		if v.mode == lvFree {
			m[v.head] = v.init
		}
	}
	return m
}

// sliceParts reads a slice or a string as base[lo:hi].
func sliceParts(t *Term) (b, lo, hi *Term) {
	switch t.op {
	case OSlice:
		if t.s != "" {
			return nil, nil, nil
		}
		return t.args[0], t.args[1], t.args[2]
	case OStr, ONil:
		return nil, nil, nil
	}
	if t.typ != nil {
		if _, ok := t.typ.Underlying().(*types.Slice); !ok {
			return nil, nil, nil
		}
		return t, tInt(0), tLen(t)
	}
	return nil, nil, nil
}

// raise moves v up the lattice if update u of back edge b contradicts it.
func (e *Engine) raise(v *loopVar, u *Term, b Exit, it *Term, entryMem int) bool {
	f := b.st.facts
	switch v.mode {
	case lvConst:
		if u == v.init || f.eval(tEq(u, v.init)) == 1 {
			return false
		}
		if v.init.op == OBool && v.typ != nil && isBoolType(v.typ) && f.eval(u) == int(v.init.k) {
			return false
		}
		if isIntTerm(v.init) && isIntTerm(u) {
			d := toLin(u).sub(toLin(v.init))
			if d.isConst() {
				v.mode, v.step = lvStep, d.c
				return true
			}
		}
		if els := appendOnto(u, v.head); els != nil {
			v.mode = lvAppend
			v.pat = cleanPat(els, entryMem)
			return true
		}
		if b, lo, hi := sliceParts(v.init); b != nil && u.op == OSlice && u.args[0] == b && u.args[2] == hi {
			if d := toLin(u.args[1]).sub(toLin(lo)); d.isConst() && d.c > 0 {
				v.mode, v.step = lvTail, d.c
				return true
			}
		}
		v.mode = lvFree
		return true
	case lvTail:
		b, _, hi := sliceParts(v.init)
		if u.op == OSlice && u.args[0] == b && u.args[2] == hi && u.args[1] == tAddK(v.head.args[1], v.step) {
			return false
		}
		v.mode = lvFree
		return true
	case lvStep:
		want := tAddK(v.head, v.step)
		if u == want || f.proveEqInt(u, want) {
			return false
		}
		v.mode = lvFree
		return true
	case lvAppend:
		els := appendOnto(u, v.head)
		if els == nil || len(els) != len(v.pat) {
			v.mode = lvFree
			return true
		}
		els = cleanPat(els, entryMem)
		ch := false
		for i := range els {
			if v.pat[i] == nil {
				continue
			}
			if els[i] != v.pat[i] {
				// the pattern found while other variables were still thought
				// constant is replaced once, afterwards it becomes unknown
				if e.patTries == nil {
					e.patTries = map[string]int{}
				}
				k := fmt.Sprintf("%p/%d", v, i)
				e.patTries[k]++
				if els[i] != nil && e.patTries[k] <= 4 {
					v.pat[i] = els[i]
				} else {
					v.pat[i] = nil
				}
				ch = true
			}
		}
		return ch
	}
	return false
}

// joinAppends: paths of the body which append the same number of elements
// append one pattern, with each element chosen by the conditions of the path.
func joinAppends(us []*Term, backs []Exit, head *Term, base map[*Term]bool, it *Term, entryMem int) []*Term {
	if len(us) < 2 {
		return us
	}
	var pats [][]*Term
	same := true
	for _, u := range us {
		els := appendOnto(u, head)
		if els == nil || len(pats) > 0 && len(els) != len(pats[0]) {
			return us
		}
		pats = append(pats, cleanPat(els, entryMem))
		same = same && u == us[0]
	}
	if same {
		return us
	}
	els := append([]*Term(nil), us[0].args...)
	for i := range pats[0] {
		var g []backVal
		for bi := range backs {
			if pats[bi][i] == nil {
				return us
			}
			g = append(g, backVal{backs[bi].st.facts, pats[bi][i]})
		}
		if els[i+1] = joinVals(g, base, it, entryMem, 0); els[i+1] == nil {
			return us
		}
	}
	u := rebuild(us[0], els)
	r := make([]*Term, len(us))
	for i := range r {
		r[i] = u
	}
	return r
}

func cleanPat(els []*Term, entryMem int) []*Term {
	r := make([]*Term, len(els))
	for i, x := range els {
		if !hasInLoopMem(x, entryMem) {
			r[i] = x
		}
	}
	return r
}

// appendOnto: u == append(base, els...)
func appendOnto(u, base *Term) []*Term {
	if u.op == OAppend && u.args[0] == base {
		return u.args[1:]
	}
	return nil
}

func (e *Engine) bodyWrites(backs []Exit, base map[*Term]bool, head *Mem, it *Term, entryMem int, inv func(*Term, []*Term) bool, nodesSince func(m, h *Mem) []*Mem) (ws []loopWrite, cells []*Term, why string) {
	type wk struct {
		kind memKind
		addr *Term
		key  *Term
	}
	index := map[wk]int{}
	count := map[wk]int{}
	cellSeen := map[*Term]bool{}
	vals := map[int][]*Term{} // value stored per back edge
	for bi, b := range backs {
		nodes := nodesSince(b.st.mem, head) // newest first
		mine := map[wk]bool{}
		for i := len(nodes) - 1; i >= 0; i-- {
			n := nodes[i]
			switch n.kind {
			case MStore:
				if inv(n.addr, nil) {
					if !cellSeen[n.addr] {
						cellSeen[n.addr] = true
						cells = append(cells, n.addr)
					}
					continue
				}
				val := n.val
				if hasInLoopMem(val, entryMem) {
					val = nil
				}
				fuzzy := hasInLoopMem(n.addr, entryMem)
				wa := n.addr
				if fuzzy {
					wa, val = anyAddr(n.addr, entryMem), nil
				}
				k := wk{MStore, wa, nil}
				if _, ok := index[k]; !ok {
					index[k] = len(ws)
					vals[len(ws)] = make([]*Term, len(backs))
					ws = append(ws, loopWrite{kind: MStore, addr: wa, fuzzy: fuzzy})
				}
				if vs := vals[index[k]]; vs != nil {
					vs[bi] = val // later write in the same iteration wins
				}
				mine[k] = true
			case MMapSet, MMapDel:
				ma, mk := anyAddr(n.addr, entryMem), n.key
				if mk != nil && hasInLoopMem(mk, entryMem) {
					mk = nil
				}
				k := wk{n.kind, ma, mk}
				nn := n.val != nil && knownNonNil(n.val)
				ov := n.kind == MMapDel || n.val != nil && ownObject(n.val)
				if j, ok := index[k]; !ok {
					index[k] = len(ws)
					ws = append(ws, loopWrite{kind: n.kind, addr: ma, key: mk, nonNil: nn, ownVal: ov})
				} else {
					ws[j].nonNil = ws[j].nonNil && nn
					ws[j].ownVal = ws[j].ownVal && ov
				}
			case MSort, MElems, MCopy:
				ea := anyAddr(n.addr, entryMem)
				k := wk{MElems, ea, nil}
				if _, ok := index[k]; !ok {
					index[k] = len(ws)
					ws = append(ws, loopWrite{kind: MElems, addr: ea})
				}
			case MHavocType, MHavocAll:
				k := wk{n.kind, nil, nil}
				found := false
				for _, w := range ws {
					if w.kind == n.kind && w.typ == n.typ {
						found = true
					}
				}
				if !found {
					index[k] = len(ws)
					ws = append(ws, loopWrite{kind: n.kind, typ: n.typ})
				}
			case MLoop:
				for _, w := range n.loop.writes {
					if w.kind == MStore && inv(w.addr, nil) && !termContains(w.addr, n.loop.it) {
						if !cellSeen[w.addr] {
							cellSeen[w.addr] = true
							cells = append(cells, w.addr)
						}
						continue
					}
					w2 := w
					w2.val, w2.must, w2.cond, w2.fuzzy = nil, false, nil, true
					if w2.addr != nil {
						w2.addr = anyAddr(w2.addr, entryMem)
					}
					if w2.key != nil && hasInLoopMem(w2.key, entryMem) {
						w2.key = nil
					}
					w := w2
					k := wk{w.kind, w.addr, w.key}
					if j, ok := index[k]; ok {
						delete(vals, j)
						ws[j].val, ws[j].fuzzy = nil, true
						ws[j].nonNil = ws[j].nonNil && w2.nonNil
						ws[j].ownVal = ws[j].ownVal && w2.ownVal
					} else {
						index[k] = len(ws)
						ws = append(ws, w2)
					}
				}
			}
		}
		for k := range mine {
			count[k]++
			if k.kind == MStore && vals[index[k]] != nil && vals[index[k]][bi] == nil {
				vals[index[k]][bi] = unknownVal
			}
		}
	}
	for k, j := range index {
		if k.kind != MStore || vals[j] == nil {
			continue
		}
		must := count[k] == len(backs)
		// one value for all paths of the body: equal, or chosen by conditions
		// decided on every path
		var grp []backVal
		known := true
		cond := []backVal{}
		for bi, v := range vals[j] {
			if v == unknownVal {
				known = false
			}
			if v != nil {
				grp = append(grp, backVal{backs[bi].st.facts, v})
			}
			cond = append(cond, backVal{backs[bi].st.facts, tBool(v != nil)})
		}
		if known && !ws[j].fuzzy {
			ws[j].val = joinVals(grp, base, it, entryMem, 0)
		}
		if ws[j].fuzzy {
			continue
		}
		if must {
			ws[j].must = true
		} else if ws[j].val != nil {
			ws[j].cond = joinVals(cond, base, it, entryMem, 0)
		}
	}
	return
}

func factSet(f *Facts) map[*Term]bool {
	r := map[*Term]bool{}
	for _, t := range f.terms() {
		r[t] = true
	}
	return r
}

type backVal struct {
	f *Facts
	v *Term
}

var unknownVal = mk(OLoopVar, nil, false, -77, "unknown value", nil, nil, nil)

// joinVals gives one term for the values of several paths, chosen by
// conditions each path decides.
func joinVals(g []backVal, base map[*Term]bool, it *Term, entryMem int, depth int) *Term {
	same := true
	for _, x := range g {
		same = same && x.v == g[0].v
	}
	if same {
		return g[0].v
	}
	if depth > 4 {
		return nil
	}
	for _, t := range g[0].f.terms() {
		if base[t] || hasInLoopMem(t, entryMem) || !termContains(t, it) {
			continue
		}
		var yes, no []backVal
		for _, x := range g {
			switch x.f.eval(t) {
			case 1:
				yes = append(yes, x)
			case 0:
				no = append(no, x)
			}
		}
		if len(no) == 0 || len(yes)+len(no) != len(g) {
			continue
		}
		a := joinVals(yes, base, it, entryMem, depth+1)
		b := joinVals(no, base, it, entryMem, depth+1)
		if a != nil && b != nil {
			return tIte(t, a, b)
		}
	}
	return nil
}

// anyMapValue names "some value held by the map args[0]".
const anyMapValue = "any:value of map"

// anyAddr replaces every part of an address that was read from memory the loop
// itself writes by "some value of that type", so that the summary is stable.
func anyAddr(a *Term, entryMem int) *Term {
	if !hasInLoopMem(a, entryMem) {
		return a
	}
	switch a.op {
	case OFieldAddr:
		return tFieldAddr(anyAddr(a.args[0], entryMem), int(a.k), a.typ)
	case OIndexAddr:
		i := a.args[1]
		if hasInLoopMem(i, entryMem) {
			i = mk(OLoopVar, types.Typ[types.Int], false, 0, "any:index", nil, nil, nil)
		}
		return mk(OIndexAddr, a.typ, false, a.k, a.s, nil, nil, nil, anyAddr(a.args[0], entryMem), i)
	}
	if a.op == OMapGet && a.args[0].op == OMakeMap {
		return mk(OLoopVar, a.typ, false, 0, anyMapValue, nil, nil, nil, a.args[0])
	}
	ts := "?"
	if a.typ != nil {
		ts = types.TypeString(a.typ, nil)
	}
	return mk(OLoopVar, a.typ, false, 0, "any:"+ts, nil, nil, nil)
}

// mergeWrites joins the writes of this pass into those already assumed.
func mergeWrites(old, nw []loopWrite, pass int) ([]loopWrite, bool) {
	if pass == 0 {
		return nw, len(nw) > 0
	}
	changed := false
	res := append([]loopWrite(nil), old...)
	match := func(a, b loopWrite) bool {
		return a.kind == b.kind && a.addr == b.addr && a.key == b.key && a.typ == b.typ
	}
	seen := map[int]bool{}
	for _, w := range nw {
		found := false
		for i := range res {
			if match(res[i], w) {
				found = true
				seen[i] = true
				if res[i].val != nil && w.val != res[i].val {
					res[i].val = w.val
					res[i].tries++
					if res[i].tries > 3 {
						res[i].val = nil
					}
					changed = true
				}
				if res[i].must && !w.must {
					res[i].must, res[i].cond = false, w.cond
					changed = true
				} else if !res[i].must && res[i].cond != nil && res[i].cond != w.cond {
					res[i].cond = nil
					changed = true
				}
				if res[i].nonNil && !w.nonNil {
					res[i].nonNil = false
					changed = true
				}
				if res[i].ownVal && !w.ownVal {
					res[i].ownVal = false
					changed = true
				}
				if w.fuzzy && !res[i].fuzzy {
					res[i].fuzzy = true
					changed = true
				}
			}
		}
		if !found {
			res = append(res, w)
			changed = true
		}
	}
	// writes that are no longer made (their address depended on a value
	// thought constant) are dropped
	var out []loopWrite
	for i := range res {
		if i < len(old) && !seen[i] && pass < 12 {
			changed = true
			continue
		}
		out = append(out, res[i])
	}
	return out, changed
}

// candidates: guessed head invariants that hold on entry.
func (e *Engine) candidates(backs, exits []Exit, vars []*loopVar, lv []*Term, it *Term, st *State, entryMem int) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	initMap := map[*Term]*Term{it: tInt(0)}
	for _, v := range vars {
		if v.mode == lvFree {
			initMap[v.head] = v.init
		}
	}
	add := func(c *Term) {
		if c.op == OBool || seen[c] {
			return
		}
		seen[c] = true
		if hasInLoopMem(c, entryMem) || !mentionsAny(c, lv) {
			return
		}
		if st.facts.eval(substMany(c, initMap)) == 1 && st.facts.eval(c) != 1 {
			out = append(out, c)
		}
	}
	scan := func(f *Facts) {
		for _, x := range f.les {
			for k := int64(0); k <= 2; k++ {
				add(tLe(fromLin(x.plus(-k)), tInt(0)))
			}
		}
	}
	for _, b := range backs {
		scan(b.st.facts)
	}
	for _, x := range exits {
		if x.kind == xLoopExit || x.kind == xReturn {
			scan(x.st.facts)
		}
	}
	for _, v := range vars {
		if v.mode != lvFree {
			continue
		}
		if isIntTerm(v.head) {
			// monotone growth from init
			add(tLe(v.init, v.head))
			add(tLe(v.head, v.init))
			continue
		}
		switch v.typ.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Signature:
			add(tEq(v.head, tNil()))
			add(tNot(tEq(v.head, tNil())))
		case *types.Basic:
			if v.init.op == OBool {
				add(tEq(v.head, v.init))
			}
		}
		if _, ok := v.typ.Underlying().(*types.Slice); ok {
			add(tLe(tLen(v.init), tLen(v.head)))
			add(tEqInt(tLen(v.init), tLen(v.head)))
			add(tEqInt(tSub(tLen(v.head), tLen(v.init)), it))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// quantFacts: atoms about the current iteration that hold on every back edge
// and mean the same thing afterwards.
func quantFacts(backs []Exit, lv []*Term, it *Term, entryMem int, st *State) []*Term {
	if len(backs) == 0 {
		return nil
	}
	var out []*Term
	base := map[*Term]bool{}
	for _, t := range st.facts.terms() {
		base[t] = true
	}
	var pool []*Term
	seen := map[*Term]bool{}
	for _, b := range backs {
		for _, t := range b.st.facts.terms() {
			if base[t] || seen[t] || hasInLoopMem(t, entryMem) || !termContains(t, it) {
				continue
			}
			seen[t] = true
			pool = append(pool, t)
			// contents which an inner loop has found to differ
			var a1, a2 *Term
			if t.op == ONot && t.args[0].op == OEq0 {
				a1, a2 = linPair(toLin(t.args[0].args[0]))
			} else if t.op == ONot && t.args[0].op == OEq {
				a1, a2 = t.args[0].args[0], t.args[0].args[1]
			}
			if a1 != nil {
				if eq, _ := b.st.facts.elemPair(a1, a2); eq != nil && eq.op == OSeqEq && termContains(eq, it) && !hasInLoopMem(eq, entryMem) && !seen[tNot(eq)] {
					seen[tNot(eq)] = true
					pool = append(pool, tNot(eq))
				}
			}
		}
	}
	if len(backs) > 1 && len(pool) > 60 {
		pool = pool[:60]
	}
	for _, t := range pool {
		ok := true
		for _, b := range backs {
			if b.st.facts.eval(t) != 1 {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func intersectTerms(a, b []*Term) []*Term {
	m := map[*Term]bool{}
	for _, x := range b {
		m[x] = true
	}
	var r []*Term
	for _, x := range a {
		if m[x] {
			r = append(r, x)
		}
	}
	return r
}
