package main

// Locks: whatever an operation of the dictionary index ends with, each lock it
// took has been given back, once, and none is waited for while it is held.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockSet: the locks held, with how they are held.
type lockSet struct {
	mu   []*Term
	read []bool
}

func lockCall(e *Event) (op string, ok bool) {
	if e.kind != "call" || !strings.HasPrefix(e.name, "(*sync.") {
		return "", false
	}
	op = e.name[strings.LastIndexByte(e.name, '.')+1:]
	switch op {
	case "Lock", "Unlock", "RLock", "RUnlock":
		return op, true
	}
	return "", false
}

// run goes through what happened on a way; the problem found, if any.
func (l *lockSet) run(evs []*Event) (why string, pos token.Pos) {
	for _, e := range evs {
		if e.kind == "rep" {
			if e.loop == nil {
				continue
			}
			for j := range e.loop.backs {
				in := &lockSet{mu: append([]*Term(nil), l.mu...), read: append([]bool(nil), l.read...)}
				if why, pos := in.run(e.loop.backs[j].events); why != "" {
					return why, pos
				}
				if len(in.mu) != len(l.mu) {
					return "a lock is taken or given back in one iteration and not in the next", e.pos
				}
			}
			continue
		}
		op, ok := lockCall(e)
		if !ok || len(e.args) == 0 {
			continue
		}
		at := -1
		for i, m := range l.mu {
			if m == e.args[0] || e.fac != nil && e.fac.eval(tEq(m, e.args[0])) == 1 {
				at = i
			}
		}
		read := strings.HasPrefix(op, "R")
		switch {
		case strings.HasSuffix(op, "Unlock") && at < 0:
			return "a lock is given back which is not held", e.pos
		case strings.HasSuffix(op, "Unlock") && l.read[at] != read:
			return "a lock is given back in another way than it was taken", e.pos
		case strings.HasSuffix(op, "Unlock"):
			l.mu = append(l.mu[:at:at], l.mu[at+1:]...)
			l.read = append(l.read[:at:at], l.read[at+1:]...)
		case at >= 0:
			return "a lock is waited for which is held already", e.pos
		default:
			l.mu, l.read = append(l.mu[:len(l.mu):len(l.mu)], e.args[0]), append(l.read[:len(l.read):len(l.read)], read)
		}
	}
	return "", token.NoPos
}

// locking: functions which may take locks or put other locks in place, by
// static calls.
func (P *Program) locking() map[*ssa.Function]bool {
	users := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	for fn := range P.allFns {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), P.modPath) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					g := in.Common().StaticCallee()
					if g == nil {
						continue
					}
					if g.Pkg != nil && g.Pkg.Pkg.Path() == "sync" && strings.HasSuffix(g.Name(), "Lock") {
						work = append(work, fn)
					}
					users[g] = append(users[g], fn)
				case *ssa.MakeClosure:
					g := in.Fn.(*ssa.Function)
					users[g] = append(users[g], fn)
				case *ssa.Store:
					if hasLock(in.Val.Type(), 0) && !ownAlloc(in.Addr) {
						work = append(work, fn)
					}
				}
			}
		}
	}
	r := map[*ssa.Function]bool{}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		if r[fn] {
			continue
		}
		r[fn] = true
		work = append(work, users[fn]...)
	}
	return r
}

// ownAlloc: the address is within a variable of the function.
func ownAlloc(v ssa.Value) bool {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		default:
			_, ok := v.(*ssa.Alloc)
			return ok
		}
	}
}

// hasLock: a value of the type is, points to or holds a lock.
func hasLock(t types.Type, depth int) bool {
	if depth > 4 {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			return true
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasLock(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return hasLock(u.Elem(), depth+1)
	}
	return false
}

// aside: functions which have nothing to do with locks succeed or fail, and
// those looked at on their own are taken at their word while no lock is held.
func aside(locking, own map[*ssa.Function]bool, start *State) func(e *Engine, fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, args []*Term, resT *types.Tuple) (bool, []Exit) {
	return func(e *Engine, fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, args []*Term, resT *types.Tuple) (bool, []Exit) {
		if fn == nil || fr == nil || fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), e.P.modPath) || fn.Blocks == nil {
			return false, nil
		}
		fails := resT.Len() > 0 && isErrorType(resT.At(resT.Len()-1).Type())
		if locking[fn] {
			if !own[fn] {
				return false, nil
			}
			l := &lockSet{}
			if why, _ := l.run(eventsSince(st.ev, start.ev)); why != "" || len(l.mu) > 0 {
				return false, nil
			}
		} else if !fails {
			return false, nil
		}
		for _, p := range fn.Params {
			if _, ok := p.Type().Underlying().(*types.Signature); ok {
				return false, nil
			}
		}
		var out []Exit
		for _, good := range []bool{true, false} {
			if !good && !fails {
				continue
			}
			s := st.clone()
			for _, t := range e.P.modTypes(fn) {
				n := newMem(s.mem, MHavocType)
				n.typ = t
				s.mem = n
			}
			res := []*Term{}
			for i := 0; i < resT.Len(); i++ {
				res = append(res, mk(OPure, resT.At(i).Type(), true, int64(i), "aside:"+e.siteKey(fr, site), nil, nil, nil, fr.iters()...))
			}
			if last := len(res) - 1; fails && good {
				res[last] = tNil()
			} else if fails {
				s.assume(tEq(res[last], tNil()), false)
			}
			out = append(out, Exit{kind: xReturn, st: s, res: res})
		}
		return true, out
	}
}

func propLocks(R *Report) {
	R.P.initCaps()
	capEnabled = true
	index := R.P.modPath + "/" + idxPkg
	var fns []*ssa.Function
	locking := R.P.locking()
	for fn := range locking {
		// what others can call; what these call is looked at on the way
		if fn.Pkg.Pkg.Path() == index && fn.Synthetic == "" && fn.Parent() == nil && token.IsExported(fn.Name()) {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	locks := 0
	for _, fn := range fns {
		fn := fn
		h := R.harness("locks-are-given-back", fn.RelString(fn.Pkg.Pkg))
		h.noChk = true
		h.run(func() {
			st := h.start()
			others := map[*ssa.Function]bool{}
			for _, g := range fns {
				others[g] = g != fn
			}
			h.e.hook = aside(locking, others, st)
			args := freshParams(fn)
			for _, a := range args {
				if p, ok := a.typ.Underlying().(*types.Pointer); ok {
					st.assume(tEq(a, tNil()), false)
					h.wellFormed(st, a, p.Elem())
				}
			}
			for _, x := range h.e.callFn(nil, nil, fn, args, nil, st) {
				h.paths++
				if h.contra(x.st.facts) {
					continue
				}
				if x.kind != xReturn && x.kind != xPanic {
					h.fail(x.why, x.pos)
					continue
				}
				l := &lockSet{}
				evs := eventsSince(x.st.ev, st.ev)
				why, pos := l.run(evs)
				for _, e := range evs {
					if _, ok := lockCall(e); ok {
						locks++
					}
				}
				if why == "" && len(l.mu) > 0 {
					why, pos = "a lock is kept", x.pos
				}
				if why != "" {
					h.fail(why+pathNote(x), pos)
				}
			}
		})
	}
	R.ok("locks-are-given-back", "functions", fmt.Sprintf("%d functions of the index may take locks; %d operations on locks", len(fns), locks))
}

func init() {
	register("C25", propLocks)
}
