package main

// Flag loops and zero-trip loops. The condition chain at the head of a loop
// (the header and the pure condition blocks after it) can be walked ahead of
// time: on entry, to keep the loop that is never entered apart from the one
// that is, and on a back edge, when the condition depends on a flag, an error
// or a pointer the body just computed, so that leaving the loop because of it
// is an exit of the iteration that set it.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type chainOut struct {
	fr   *Frame
	st   *State
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	exit bool
}

// pureInstr: evaluating it twice is the same as once.
func (e *Engine) pureInstr(in ssa.Instruction, depth int) bool {
	switch in := in.(type) {
	case *ssa.Phi, *ssa.DebugRef, *ssa.BinOp, *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr,
		*ssa.Convert, *ssa.ChangeType, *ssa.If, *ssa.Jump, *ssa.Extract:
		return true
	case *ssa.UnOp:
		return true
	case *ssa.Lookup:
		_, isMap := in.X.Type().Underlying().(*types.Map)
		return !isMap
	case *ssa.Return:
		return depth > 0
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len"
		}
		fn := in.Call.StaticCallee()
		if fn == nil || depth > 1 || !e.P.inRepo(fn) || len(fn.Blocks) != 1 {
			return false
		}
		for _, x := range fn.Blocks[0].Instrs {
			if !e.pureInstr(x, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (e *Engine) pureCond(b *ssa.BasicBlock) bool {
	if !headerIf(b) {
		return false
	}
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok && i >= 0 {
			continue
		}
		if !e.pureInstr(in, 0) {
			return false
		}
	}
	return true
}

// chainBlocks: the header and the pure condition blocks reached from it only.
func (e *Engine) chainBlocks(l *Loop) map[*ssa.BasicBlock]bool {
	if l.chain != nil {
		return l.chain
	}
	l.chain = map[*ssa.BasicBlock]bool{}
	if !e.pureCond(l.header) {
		return l.chain
	}
	l.chain[l.header] = true
	for changed := true; changed && len(l.chain) < 6; {
		changed = false
		for b := range l.chain {
			for _, s := range b.Succs {
				if l.blocks[s] && !l.chain[s] && s != l.header && len(s.Preds) == 1 && e.pureCond(s) {
					if _, phi := s.Instrs[0].(*ssa.Phi); phi {
						continue
					}
					// a condition of the loop leaves it on one side
					out := false
					for _, q := range s.Succs {
						if !l.blocks[q] {
							out = true
						}
					}
					if out {
						l.chain[s] = true
						changed = true
					}
				}
			}
		}
	}
	return l.chain
}

// flagLoop: a condition of the chain depends on a header variable that is a
// flag, an error or a pointer.
func (e *Engine) flagLoop(l *Loop) bool {
	if l.flag != 0 {
		return l.flag > 0
	}
	l.flag = -1
	ch := e.chainBlocks(l)
	seen := map[ssa.Value]bool{}
	var dep func(v ssa.Value) bool
	dep = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if p, ok := v.(*ssa.Phi); ok && p.Block() == l.header {
			switch t := p.Type().Underlying().(type) {
			case *types.Basic:
				return t.Kind() == types.Bool
			case *types.Interface, *types.Pointer:
				return true
			}
			return false
		}
		in, ok := v.(ssa.Instruction)
		if !ok || !ch[in.Block()] {
			return false
		}
		for _, o := range in.Operands(nil) {
			if *o != nil && dep(*o) {
				return true
			}
		}
		return false
	}
	for b := range ch {
		if dep(b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond) {
			l.flag = 1
		}
	}
	return l.flag > 0
}

// walkChain evaluates the condition chain with the given header values. ok is
// false when it cannot be walked.
func (e *Engine) walkChain(fr *Frame, l *Loop, vals []*Term, st *State) (outs []chainOut, ok bool) {
	ch := e.chainBlocks(l)
	if !ch[l.header] {
		return nil, false
	}
	e.quietCk++
	defer func() { e.quietCk-- }()
	f2 := fr.clone()
	for i, v := range vals {
		e.set(f2, l.header.Instrs[i].(*ssa.Phi), v)
	}
	ok = true
	var rec func(b *ssa.BasicBlock, fr *Frame, st *State)
	rec = func(b *ssa.BasicBlock, fr *Frame, st *State) {
		st = st.clone()
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Call:
				args := []*Term{}
				for _, a := range in.Call.Args {
					args = append(args, e.val(fr, a))
				}
				xs := e.call(fr, st, in, &in.Call, e.val(fr, in.Call.Value), args)
				if len(xs) != 1 || xs[0].kind != xReturn {
					ok = false
					return
				}
				st = xs[0].st
				e.bind(fr, in, xs[0].res)
			case *ssa.If:
				c := e.val(fr, in.Cond)
				v := st.facts.eval(c)
				for k := 0; k < 2; k++ {
					want := k == 0
					if v == 0 && want || v == 1 && !want {
						continue
					}
					s := st.clone()
					if v < 0 && !s.assume(c, want) {
						continue
					}
					to := b.Succs[k]
					switch {
					case !l.blocks[to]:
						outs = append(outs, chainOut{fr: fr.clone(), st: s, from: b, to: to, exit: true})
					case ch[to] && to != l.header:
						rec(to, fr.clone(), s)
					default:
						outs = append(outs, chainOut{fr: fr, st: s, from: b, to: to})
					}
				}
				return
			case ssa.Value:
				if good, _ := e.value(fr, st, in); !good {
					ok = false
					return
				}
				if st.facts.bad {
					return
				}
			default:
				ok = false
				return
			}
		}
	}
	rec(l.header, f2, st)
	return outs, ok
}

// splitEntry keeps the entries that leave the loop at once apart from those
// that start an iteration.
func (e *Engine) splitEntry(fr *Frame, l *Loop, pred *ssa.BasicBlock, st *State) ([]Exit, bool) {
	vals := e.phiVals(fr, l.header, pred)
	outs, ok := e.walkChain(fr, l, vals, st)
	if !ok {
		return nil, false
	}
	var res []Exit
	for _, o := range outs {
		if o.exit {
			res = append(res, e.jump(o.fr, o.from, o.to, o.st)...)
			continue
		}
		res = append(res, e.summarise(fr, l, pred, o.st, true)...)
	}
	return res, true
}

// backEdge is a jump to the header of an active loop.
func (e *Engine) backEdge(fr *Frame, l *Loop, from *ssa.BasicBlock, st *State, a activeLoop) []Exit {
	back := func(s *State) Exit { return Exit{kind: xBack, st: s, fr: fr, loop: l, pred: from} }
	if !e.flagLoop(l) {
		return []Exit{back(st)}
	}
	outs, ok := e.walkChain(fr, l, e.phiVals(fr, l.header, from), st)
	if !ok || len(outs) == 1 && !outs[0].exit {
		return []Exit{back(st)}
	}
	if len(outs) > 1 && a.it != nil && a.it.op == OInt && len(e.watch) > 0 {
		if w := e.watch[len(e.watch)-1]; w.header == l.header && w.ctx == fr.ctx {
			panic(unrollFail{l.header})
		}
	}
	var res []Exit
	for _, o := range outs {
		if !o.exit {
			res = append(res, back(o.st))
			continue
		}
		s := o.st
		if a.it != nil && a.it.op == OIter {
			s = s.clone()
			s.facts = completeIteration(s.facts, a.it)
		}
		res = append(res, e.jump(o.fr, o.from, o.to, s)...)
	}
	return res
}

// completeIteration: what every completed iteration established also holds of
// the current one when its facts say so.
func completeIteration(f *Facts, it *Term) *Facts {
	for i, a := range f.all {
		if a.it != it || a.hi != it {
			continue
		}
		all := true
		for _, b := range a.body {
			if f.eval(b) != 1 {
				all = false
				break
			}
		}
		if all {
			g := f.clone()
			g.all = append([]forallFact(nil), f.all...)
			g.all[i].hi = tAddK(it, 1)
			f = g
		}
	}
	return f
}
