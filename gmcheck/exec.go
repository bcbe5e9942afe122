package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Abstract interpreter over SSA. Calls to repository functions are inlined,
// paths are kept apart up to function exit (trace partitioning), loops are
// summarised in loops.go and never unrolled on unknown bounds. There is no
// solver: conditions are decided by the fact domain in facts.go or left open.

type Event struct {
	prev *Event
	n    int
	kind string // "call", "rep", "store", "mapset", "defer"...
	name string // resolved callee
	fn   *ssa.Function
	args []*Term
	res  []*Term
	pos  token.Pos
	mem  *Mem // memory before
	loop *LoopInfo
	fac  *Facts
	ctx  *Ctx
	io   *ioInfo
}

type State struct {
	facts     *Facts
	mem       *Mem
	ev        *Event
	panicking bool
	recovered bool
	depth     int
}

func (s *State) clone() *State { c := *s; return &c }

func (s *State) addEvent(e *Event) {
	e.prev = s.ev
	if s.ev != nil {
		e.n = s.ev.n + 1
	}
	e.mem = s.mem
	s.ev = e
}

func (s *State) assume(c *Term, v bool) bool {
	s.facts = s.facts.assume(c, v)
	return !s.facts.bad
}

func eventsSince(e, stop *Event) []*Event {
	var r []*Event
	for ; e != nil && e != stop; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

type Ctx struct {
	parent *Ctx
	instr  ssa.Instruction
	id     int
	depth  int
}

type exitKind int

const (
	xReturn exitKind = iota
	xPanic
	xBack
	xLoopExit
	xUndecided
)

type Exit struct {
	kind    exitKind
	st      *State
	res     []*Term
	pos     token.Pos
	why     string
	loop    *Loop
	pred    *ssa.BasicBlock
	fr      *Frame
	pval    *Term
	retStmt ssa.Instruction
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	inst *ssa.Defer
}

type activeLoop struct {
	l        *Loop
	it       *Term
	discover bool
}

type Frame struct {
	fn     *ssa.Function
	info   *fnInfo
	regs   []*Term
	tuples map[ssa.Value][]*Term
	ctx    *Ctx
	base   []*Term
	active []activeLoop
	defers []deferred
	parent *Frame
	free   []*Term
}

func (fr *Frame) clone() *Frame {
	c := *fr
	c.regs = append([]*Term(nil), fr.regs...)
	if len(fr.tuples) > 0 {
		c.tuples = make(map[ssa.Value][]*Term, len(fr.tuples))
		for k, v := range fr.tuples {
			c.tuples[k] = v
		}
	} else {
		c.tuples = map[ssa.Value][]*Term{}
	}
	c.active = append([]activeLoop(nil), fr.active...)
	c.defers = append([]deferred(nil), fr.defers...)
	return &c
}

func (fr *Frame) iters() []*Term {
	r := append([]*Term(nil), fr.base...)
	for _, a := range fr.active {
		if a.it != nil {
			r = append(r, a.it)
		}
	}
	return r
}

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	loops map[*ssa.BasicBlock]*Loop
	of    map[*ssa.BasicBlock][]*Loop // enclosing loops, outermost first
	bad   string
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	chain  map[*ssa.BasicBlock]bool
	flag   int
}

// runtime check obligations met on the way
type checkKey struct {
	kind string
	pos  token.Pos
	fn   *ssa.Function
}

type checkRes struct {
	kind   string
	pos    token.Pos
	fn     *ssa.Function
	proved bool
	detail string
	n      int
}

type CallHook func(e *Engine, fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, args []*Term, resT *types.Tuple) (handled bool, exits []Exit)

type Engine struct {
	P        *Program
	infos    map[*ssa.Function]*fnInfo
	ctxs     map[[2]interface{}]*Ctx
	hook     CallHook
	noText   bool
	checks   map[checkKey]*checkRes
	lossy    map[checkKey]*checkRes
	discover int
	steps    int
	maxSteps int
	maxExits int
	maxDepth int
	unroll   int // walk loops up to so many iterations before summarising them
	deep     int // inline recursive calls so deep
	wantChk  bool
	loopRecs []*LoopInfo
	abort    string
	noSeqEq  bool
	visited  map[*ssa.Function]bool
	quietCk  int
	watch    []watchRec
	patTries map[string]int
	curMem   *Mem
	strong   func(f *Facts, extra []*Term, goal func(*Facts) bool) bool
}

type abortErr struct{ why string }

func NewEngine(p *Program) *Engine {
	return &Engine{P: p, infos: map[*ssa.Function]*fnInfo{}, ctxs: map[[2]interface{}]*Ctx{},
		checks: map[checkKey]*checkRes{}, lossy: map[checkKey]*checkRes{}, maxSteps: 3000000, maxExits: 40000, maxDepth: 30,
		visited: map[*ssa.Function]bool{}}
}

func (e *Engine) ctx(parent *Ctx, in ssa.Instruction) *Ctx {
	k := [2]interface{}{parent, in}
	if c := e.ctxs[k]; c != nil {
		return c
	}
	d := 0
	if parent != nil {
		d = parent.depth + 1
	}
	c := &Ctx{parent: parent, instr: in, id: len(e.ctxs) + 1, depth: d}
	e.ctxs[k] = c
	return c
}

func (c *Ctx) key() string {
	if c == nil {
		return "0"
	}
	return fmt.Sprint(c.id)
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i := e.infos[fn]; i != nil {
		return i
	}
	i := &fnInfo{idx: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*Loop{}, of: map[*ssa.BasicBlock][]*Loop{}}
	add := func(v ssa.Value) { i.idx[v] = i.n; i.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := i.loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					i.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// irreducible?
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 1 && !s.Dominates(b) {
				i.bad = "irreducible control flow"
			}
			if state[s] == 0 {
				dfs(s)
			}
		}
		state[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for _, b := range fn.Blocks {
		for _, l := range i.loops {
			if l.blocks[b] {
				i.of[b] = append(i.of[b], l)
			}
		}
		ls := i.of[b]
		for x := 0; x < len(ls); x++ {
			for y := x + 1; y < len(ls); y++ {
				if len(ls[y].blocks) > len(ls[x].blocks) {
					ls[x], ls[y] = ls[y], ls[x]
				}
			}
		}
	}
	e.infos[fn] = i
	return i
}

func undecided(st *State, pos token.Pos, why string) []Exit {
	return []Exit{{kind: xUndecided, st: st, pos: pos, why: why}}
}

// Run analyses fn from its entry with the given arguments and state.
func (e *Engine) Run(fn *ssa.Function, args []*Term, st *State) []Exit {
	return e.callFn(nil, nil, fn, args, nil, st)
}

func newState() *State { return &State{facts: &Facts{}, mem: initMem()} }

func param(name string, t types.Type) *Term {
	return mk(OParam, t, true, 0, name, nil, nil, nil)
}

// freshParams makes symbolic arguments for fn.
func freshParams(fn *ssa.Function) []*Term {
	var r []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		r = append(r, param(n, p.Type()))
	}
	return r
}

func (e *Engine) callFn(parent *Frame, ctx *Ctx, fn *ssa.Function, args, free []*Term, st *State) []Exit {
	if len(fn.Blocks) == 0 {
		return undecided(st, fn.Pos(), "no body for "+fn.String())
	}
	if ctx != nil && ctx.depth > e.maxDepth {
		return undecided(st, fn.Pos(), "inlining too deep at "+fn.String())
	}
	e.visited[fn] = true
	inf := e.info(fn)
	if inf.bad != "" {
		return undecided(st, fn.Pos(), inf.bad+" in "+fn.String())
	}
	fr := &Frame{fn: fn, info: inf, regs: make([]*Term, inf.n), tuples: map[ssa.Value][]*Term{}, ctx: ctx, parent: parent, free: free}
	if parent != nil {
		fr.base = parent.iters()
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.regs[inf.idx[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			fr.regs[inf.idx[p]] = free[i]
		}
	}
	exits := e.runBlock(fr, fn.Blocks[0], nil, st)
	// panics: run deferred calls, maybe recover
	var out []Exit
	for _, x := range exits {
		if x.kind == xPanic && x.fr != nil && x.fr.fn == fn && x.fr.ctx == ctx && len(x.fr.defers) > 0 {
			out = append(out, e.unwind(x)...)
			continue
		}
		out = append(out, x)
	}
	if len(out) > e.maxExits {
		panic(abortErr{"too many paths in " + fn.String()})
	}
	return out
}

func (e *Engine) unwind(x Exit) []Exit {
	fr, st := x.fr.clone(), x.st.clone()
	st.panicking = true
	exits := e.runDefers(fr, st, x.pos)
	var out []Exit
	for _, y := range exits {
		if y.kind != xReturn {
			out = append(out, y)
			continue
		}
		if y.st.recovered {
			s := y.st.clone()
			s.panicking, s.recovered = false, false
			if fr.fn.Recover != nil {
				f2 := fr.clone()
				f2.defers = nil
				out = append(out, e.runBlock(f2, fr.fn.Recover, nil, s)...)
			} else {
				var zs []*Term
				rt := fr.fn.Signature.Results()
				for i := 0; i < rt.Len(); i++ {
					zs = append(zs, tZero(rt.At(i).Type()))
				}
				out = append(out, Exit{kind: xReturn, st: s, res: zs, pos: x.pos, fr: fr})
			}
			continue
		}
		z := x
		z.st = y.st
		z.fr = nil
		out = append(out, z)
	}
	return out
}

func (e *Engine) runDefers(fr *Frame, st *State, pos token.Pos) []Exit {
	exits := []Exit{{kind: xReturn, st: st}}
	ds := fr.defers
	for i := len(ds) - 1; i >= 0; i-- {
		var next []Exit
		for _, x := range exits {
			if x.kind != xReturn {
				next = append(next, x)
				continue
			}
			next = append(next, e.call(fr, x.st, ds[i].inst, ds[i].call, ds[i].fn, ds[i].args)...)
		}
		exits = next
	}
	return exits
}

func (e *Engine) val(fr *Frame, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		return constTerm(c)
	case *ssa.Global:
		return mk(OGlobal, c.Type(), false, 0, "", c, nil, nil)
	case *ssa.Function:
		return mk(OFunc, c.Type(), false, 0, "", c, nil, nil)
	case *ssa.Builtin:
		return mk(OPure, nil, false, 0, "builtin:"+c.Name(), nil, nil, nil)
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic(abortErr{"unknown value " + v.Name() + " in " + fr.fn.String()})
	}
	t := fr.regs[i]
	if t == nil {
		panic(abortErr{"undefined value " + v.Name() + " in " + fr.fn.String()})
	}
	return t
}

func (e *Engine) set(fr *Frame, v ssa.Value, t *Term) { fr.regs[fr.info.idx[v]] = t }

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return tZero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return tBool(constant.BoolVal(c.Value))
	case constant.String:
		return tStr(constant.StringVal(c.Value))
	case constant.Int:
		if _, ok := intBasic(c.Type()); ok {
			if k, exact := constant.Int64Val(c.Value); exact {
				return tInt(k)
			}
		}
	}
	return mk(OConst, c.Type(), true, 0, c.Value.ExactString(), nil, nil, nil)
}

func (e *Engine) tick() {
	e.steps++
	if e.steps > e.maxSteps {
		panic(abortErr{"analysis budget exhausted"})
	}
	if e.steps%256 == 0 {
		e.checkTime()
	}
}

// checkTime ends the analysis of an obligation when time is up: soon once a
// violation is known, late when nothing is decided.
func (e *Engine) checkTime() {
	limit := 10 * time.Minute
	if violated {
		limit = 4 * time.Minute
	}
	if time.Since(startTime) > limit {
		panic(abortErr{timeUp})
	}
}

const timeUp = "analysis time exhausted"

// violated: some obligation of this run has failed for good.
var violated bool

var startTime = time.Now()

// jump transfers control along an edge.
func (e *Engine) jump(fr *Frame, from, to *ssa.BasicBlock, st *State) []Exit {
	// leave loops that do not contain the target
	for len(fr.active) > 0 {
		top := fr.active[len(fr.active)-1]
		if top.l.blocks[to] {
			break
		}
		if top.discover {
			return []Exit{{kind: xLoopExit, st: st, fr: fr, loop: top.l, pred: from}}
		}
		fr = fr.clone()
		fr.active = fr.active[:len(fr.active)-1]
	}
	if l := fr.info.loops[to]; l != nil {
		for _, a := range fr.active {
			if a.l == l {
				return e.backEdge(fr, l, from, st, a)
			}
		}
		return e.enterLoop(fr, l, from, st)
	}
	return e.runBlock(fr, to, from, st)
}

func (e *Engine) phiVals(fr *Frame, b, pred *ssa.BasicBlock) []*Term {
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
		}
	}
	var r []*Term
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, e.val(fr, ph.Edges[pi]))
	}
	return r
}

func (e *Engine) runBlock(fr *Frame, b, pred *ssa.BasicBlock, st *State) []Exit {
	if pred != nil {
		vals := e.phiVals(fr, b, pred)
		if len(vals) > 0 {
			fr = fr.clone()
			for i, v := range vals {
				e.set(fr, b.Instrs[i].(*ssa.Phi), v)
			}
		}
	}
	return e.runFrom(fr, b, 0, st)
}

func (e *Engine) runFrom(fr *Frame, b *ssa.BasicBlock, i int, st *State) []Exit {
	fr = fr.clone()
	st = st.clone()
	for ; i < len(b.Instrs); i++ {
		e.tick()
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := e.val(fr, in.Cond)
			v := st.facts.eval(c)
			if v < 0 && e.watched(fr, b) {
				panic(unrollFail{b})
			}
			var out []Exit
			for k := 0; k < 2; k++ {
				want := k == 0
				if v == 0 && want || v == 1 && !want {
					continue
				}
				s := st
				if v < 0 {
					s = st.clone()
					if !s.assume(c, want) {
						continue
					}
					if want && c.op == OCall && c.obj == &nextInfo && !nextHolds(s, c) {
						continue
					}
				}
				out = append(out, e.jump(fr, b, b.Succs[k], s)...)
			}
			return out
		case *ssa.Jump:
			return e.jump(fr, b, b.Succs[0], st)
		case *ssa.Return:
			var rs []*Term
			for _, r := range in.Results {
				rs = append(rs, e.val(fr, r))
			}
			return []Exit{{kind: xReturn, st: st, res: rs, pos: in.Pos(), fr: fr, retStmt: in}}
		case *ssa.Panic:
			pv := e.val(fr, in.X)
			s := st.clone()
			s.addEvent(&Event{kind: "panic", name: "panic", args: []*Term{pv}, pos: in.Pos(), ctx: fr.ctx})
			return []Exit{{kind: xPanic, st: s, pos: in.Pos(), fr: fr, pval: pv}}
		case *ssa.RunDefers:
			exits := e.runDefers(fr, st, in.Pos())
			return e.resume(exits, fr, b, i+1, nil, func(f2 *Frame) { f2.defers = nil })
		case *ssa.Defer:
			args := []*Term{}
			for _, a := range in.Call.Args {
				args = append(args, e.val(fr, a))
			}
			fr.defers = append(fr.defers, deferred{call: &in.Call, fn: e.val(fr, in.Call.Value), args: args, inst: in})
		case *ssa.Send:
			// hands a value over; changes no memory
		case *ssa.Go:
			return undecided(st, in.Pos(), "go statement")
		case *ssa.Call:
			args := []*Term{}
			for _, a := range in.Call.Args {
				args = append(args, e.val(fr, a))
			}
			fv := e.val(fr, in.Call.Value)
			exits := e.call(fr, st, in, &in.Call, fv, args)
			if len(exits) == 1 && exits[0].kind == xReturn {
				st = exits[0].st
				e.bind(fr, in, exits[0].res)
				continue
			}
			return e.resume(exits, fr, b, i+1, in, nil)
		case *ssa.Store:
			e.store(fr, st, in)
		case *ssa.MapUpdate:
			m := e.val(fr, in.Map)
			k := e.val(fr, in.Key)
			v := e.val(fr, in.Value)
			e.check(st, fr, "nil map write", in.Pos(), st.facts.isNil(m) == 0 || mapNonNilShape(m) || mapValNonNil(st.facts, m), m.String())
			st.addEvent(&Event{kind: "mapset", args: []*Term{m, k, v}, pos: in.Pos(), ctx: fr.ctx, fac: st.facts})
			n := newMem(st.mem, MMapSet)
			n.addr, n.key, n.val = m, k, v
			st.mem = n
		case ssa.Value:
			ok, why := e.value(fr, st, in)
			if !ok {
				return undecided(st, in.Pos(), why)
			}
			if st.facts.bad {
				return nil
			}
		default:
			return undecided(st, in.Pos(), fmt.Sprintf("unsupported instruction %T", in))
		}
	}
	return undecided(st, token.NoPos, "fell off block")
}

func mapNonNilShape(m *Term) bool { return m.op == OMakeMap }

func (e *Engine) bind(fr *Frame, v ssa.Value, res []*Term) {
	if len(res) == 1 {
		e.set(fr, v, res[0])
		return
	}
	fr.tuples[v] = res
	e.set(fr, v, tNil())
}

func (e *Engine) resume(exits []Exit, fr *Frame, b *ssa.BasicBlock, i int, in *ssa.Call, adj func(*Frame)) []Exit {
	var out []Exit
	for _, x := range exits {
		switch x.kind {
		case xReturn:
			f2 := fr.clone()
			if in != nil {
				e.bind(f2, in, x.res)
			}
			if adj != nil {
				adj(f2)
			}
			out = append(out, e.runFrom(f2, b, i, x.st)...)
			if len(out) > e.maxExits {
				panic(abortErr{"too many paths in " + fr.fn.String()})
			}
		case xPanic:
			x.fr = fr
			out = append(out, x)
		default:
			out = append(out, x)
		}
	}
	return out
}

func (e *Engine) check(st *State, fr *Frame, kind string, pos token.Pos, ok bool, detail string) {
	if e.discover > 0 || e.quietCk > 0 {
		return
	}
	if !pos.IsValid() {
		pos = fr.fn.Pos()
	}
	k := checkKey{kind, pos, fr.fn}
	r := e.checks[k]
	if r == nil {
		r = &checkRes{kind: kind, pos: pos, fn: fr.fn, proved: true}
		e.checks[k] = r
	}
	r.n++
	if !ok {
		r.proved = false
		r.detail = detail
	}
}

func (e *Engine) store(fr *Frame, st *State, in *ssa.Store) {
	addr := e.val(fr, in.Addr)
	v := e.val(fr, in.Val)
	e.nilCheck(st, fr, addr, in.Pos())
	st.addEvent(&Event{kind: "store", args: []*Term{addr, v}, pos: in.Pos(), ctx: fr.ctx, fac: st.facts})
	n := newMem(st.mem, MStore)
	n.addr, n.val = addr, v
	st.mem = n
}

func (e *Engine) nilCheck(st *State, fr *Frame, a *Term, pos token.Pos) {
	r := a
	for r.op == OFieldAddr {
		r = r.args[0]
	}
	if r.op == OIndexAddr || knownNonNil(r) {
		return
	}
	if !e.wantChk {
		if st.facts.isNil(r) == 1 {
			e.callCheck(st, fr, pos, r)
		}
		return
	}
	if r.op == OParam {
		return // callers' obligation: receiver/argument validity
	}
	ok := st.facts.isNil(r) == 0
	if !ok && e.strong != nil && e.discover == 0 && e.quietCk == 0 {
		ok = e.strong(st.facts, []*Term{r}, func(f *Facts) bool { q := renorm(f, r); return f.isNil(q) == 0 || knownNonNil(q) })
	}
	e.check(st, fr, "nil dereference", pos, ok, r.String())
	if r.op == ONil {
		st.facts = st.facts.assume(tFalse(), true)
		return
	}
	st.assume(tEq(r, tNil()), false)
}

// boundsCheck proves 0 <= i < n, records the verdict and then assumes it.
func (e *Engine) boundsCheck(st *State, fr *Frame, i, n *Term, pos token.Pos, what string) {
	ok := st.facts.proveLe(tInt(0), i) && st.facts.proveLt(i, n)
	if !ok && e.strong != nil && e.discover == 0 && e.quietCk == 0 {
		if e.strong(st.facts, []*Term{i, n}, func(f *Facts) bool {
			j, m := renorm(f, i), renorm(f, n)
			return f.proveLe(tInt(0), j) && f.proveLt(j, m)
		}) {
			st.assume(tLe(tInt(0), i), true)
			st.assume(tLt(i, n), true)
			ok = true
		}
	}
	e.check(st, fr, "index out of range", pos, ok, fmt.Sprintf("%s: index %v, length %v", what, i, n))
	if !ok {
		st.assume(tLe(tInt(0), i), true)
		st.assume(tLt(i, n), true)
	}
}

func (e *Engine) siteKey(fr *Frame, in ssa.Instruction) string {
	return fmt.Sprintf("%s:%p", fr.ctx.key(), in)
}

func (e *Engine) value(fr *Frame, st *State, v ssa.Value) (bool, string) {
	f := st.facts
	switch in := v.(type) {
	case *ssa.Alloc:
		a := mk(OAlloc, in.Type(), true, 0, e.siteKey(fr, in), nil, nil, nil, fr.iters()...)
		e.set(fr, v, a)
	case *ssa.BinOp:
		t, ok := e.binop(st, fr, in)
		if !ok {
			return false, "unsupported operator " + in.Op.String()
		}
		e.set(fr, v, t)
	case *ssa.UnOp:
		x := e.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			e.nilCheck(st, fr, x, in.Pos())
			e.set(fr, v, load(st.facts, st.mem, x, in.Type()))
		case token.NOT:
			e.set(fr, v, tNot(x))
		case token.SUB:
			if _, ok := intBasic(in.Type()); !ok {
				e.set(fr, v, mk(OPure, in.Type(), false, 0, "neg", nil, nil, nil, x))
				break
			}
			e.set(fr, v, e.wrapTo(st, fr, in.Type(), tScale(x, -1), in.Pos(), false))
		case token.XOR:
			e.set(fr, v, e.wrapTo(st, fr, in.Type(), tAddK(tScale(x, -1), -1), in.Pos(), false))
		default:
			return false, "unsupported operator " + in.Op.String()
		}
	case *ssa.ChangeType:
		e.set(fr, v, retype(e.val(fr, in.X), in.Type()))
	case *ssa.ChangeInterface:
		e.set(fr, v, e.val(fr, in.X))
	case *ssa.Convert:
		t, ok := e.convert(st, fr, in.X.Type(), in.Type(), e.val(fr, in.X), in.Pos())
		if !ok {
			return false, "unsupported conversion"
		}
		e.set(fr, v, f.pin(t))
	case *ssa.MakeInterface:
		e.set(fr, v, mk(OIface, in.X.Type(), true, 0, "", nil, nil, nil, e.val(fr, in.X)))
	case *ssa.Extract:
		tup := fr.tuples[in.Tuple]
		if tup == nil {
			return false, "tuple without components"
		}
		e.set(fr, v, tup[in.Index])
	case *ssa.Field:
		e.set(fr, v, e.field(st, e.val(fr, in.X), in.Field, in.Type()))
	case *ssa.FieldAddr:
		x := e.val(fr, in.X)
		e.nilCheck(st, fr, x, in.Pos())
		e.set(fr, v, tFieldAddr(x, in.Field, in.Type()))
	case *ssa.Index:
		x, i := e.val(fr, in.X), e.val(fr, in.Index)
		e.boundsCheck(st, fr, i, tLen(x), in.Pos(), "index")
		e.set(fr, v, e.indexVal(st, x, i, in.Type()))
	case *ssa.IndexAddr:
		x, i := e.val(fr, in.X), e.val(fr, in.Index)
		n := tLen(x)
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			n = tInt(p.Elem().Underlying().(*types.Array).Len())
		}
		e.boundsCheck(st, fr, i, n, in.Pos(), "index")
		e.set(fr, v, tIndexAddr(x, i, in.Type()))
	case *ssa.Lookup:
		x, k := e.val(fr, in.X), e.val(fr, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			e.boundsCheck(st, fr, k, tLen(x), in.Pos(), "string index")
			e.set(fr, v, tIndexVal(x, k))
			break
		}
		vt := in.X.Type().Underlying().(*types.Map).Elem()
		val, has := mapLookup(f, st.mem, x, k, vt)
		st.addEvent(&Event{kind: "mapget", args: []*Term{x, k}, res: []*Term{val, has}, pos: in.Pos(), ctx: fr.ctx, fac: st.facts})
		if in.CommaOk {
			fr.tuples[v] = []*Term{val, has}
			e.set(fr, v, tNil())
		} else {
			e.set(fr, v, val)
		}
	case *ssa.MakeMap:
		e.set(fr, v, mk(OMakeMap, in.Type(), true, 0, e.siteKey(fr, in), nil, nil, nil, fr.iters()...))
	case *ssa.MakeSlice:
		n := e.val(fr, in.Len)
		args := append([]*Term{n}, fr.iters()...)
		e.check(st, fr, "makeslice length", in.Pos(), st.facts.proveLe(tInt(0), n), n.String())
		st.assume(tLe(tInt(0), n), true)
		full := int64(0)
		if st.facts.proveLe(e.val(fr, in.Cap), n) {
			full = 1 // appending makes a new array
		}
		e.set(fr, v, mk(OMakeSlice, in.Type(), true, full, e.siteKey(fr, in), nil, nil, nil, args...))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, e.val(fr, b))
		}
		e.set(fr, v, mk(OClosure, in.Type(), false, 0, "", in.Fn.(*ssa.Function), nil, nil, bs...))
	case *ssa.Slice:
		return e.slice(fr, st, in)
	case *ssa.TypeAssert:
		return e.typeAssert(fr, st, in)
	case *ssa.Range:
		x := e.val(fr, in.X)
		e.set(fr, v, mk(OPure, nil, false, 0, "range:"+e.siteKey(fr, in), nil, nil, nil, append([]*Term{x}, fr.iters()...)...))
		st.addEvent(&Event{kind: "range", args: []*Term{x}, pos: in.Pos(), ctx: fr.ctx})
	case *ssa.Next:
		it := fr.iters()
		key := e.siteKey(fr, in)
		tup := in.Type().(*types.Tuple)
		rng := e.val(fr, in.Iter)
		mkc := func(i int, t types.Type) *Term {
			if t == nil || t == types.Typ[types.Invalid] {
				t = types.Typ[types.Int]
			}
			return mk(OCall, t, false, int64(i), key, &nextInfo, nil, nil, append([]*Term{rng}, it...)...)
		}
		ok := mkc(0, types.Typ[types.Bool])
		if x := rng.args[0]; x.op == ONil || st.facts.isNil(x) == 1 {
			ok = tFalse() // there is nothing in a nil map
		}
		k := mkc(1, tup.At(1).Type())
		val := mkc(2, tup.At(2).Type())
		fr.tuples[v] = []*Term{ok, k, val}
		e.set(fr, v, tNil())
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert, *ssa.Select, *ssa.MakeChan:
		return false, fmt.Sprintf("unsupported instruction %T", in)
	default:
		return false, fmt.Sprintf("unsupported instruction %T", in)
	}
	return true, ""
}

var nextInfo = callInfo{name: "next"}

// nextHolds: what a range over a map gives is in the map.
func nextHolds(s *State, ok *Term) bool {
	m := ok.args[0].args[0]
	if m.typ == nil {
		return true
	}
	mt, is := m.typ.Underlying().(*types.Map)
	if !is {
		return true
	}
	key := mk(OCall, mt.Key(), false, 1, ok.s, &nextInfo, nil, nil, ok.args...)
	s.assume(tLt(tInt(0), mapLen(s.mem, m)), true)
	if val, has := mapLookup(s.facts, s.mem, m, key, mt.Elem()); !isTrue(has) {
		s.assume(has, true)
		if isIntTerm(val) {
			s.assume(tEqInt(val, mk(OCall, mt.Elem(), false, 2, ok.s, &nextInfo, nil, nil, ok.args...)), true)
		}
	}
	return !s.facts.bad
}

func mapLen(mem *Mem, m *Term) *Term {
	if m.op == OMakeMap && !mapTouched(mem, m) {
		return tInt(0)
	}
	return mk(OLen, nil, false, 0, "map", nil, lastMapMem(mem, m), nil, m)
}

func retype(x *Term, t types.Type) *Term {
	return x
}

func (e *Engine) field(st *State, x *Term, i int, t types.Type) *Term {
	if x.op == OLoad {
		return load(st.facts, x.mem, tFieldAddr(x.args[0], i, types.NewPointer(t)), t)
	}
	return tField(x, i, t)
}

func (e *Engine) indexVal(st *State, x, i *Term, t types.Type) *Term {
	if x.op == OLoad && !isStringTerm(x) {
		return load(st.facts, x.mem, tIndexAddr(x.args[0], i, types.NewPointer(t)), t)
	}
	return tIndexVal(x, i)
}

func (e *Engine) slice(fr *Frame, st *State, in *ssa.Slice) (bool, string) {
	x := e.val(fr, in.X)
	var n *Term
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		n = tInt(p.Elem().Underlying().(*types.Array).Len())
	} else {
		n = tLen(x)
	}
	lo, hi := tInt(0), n
	if in.Low != nil {
		lo = e.val(fr, in.Low)
	}
	if in.High != nil {
		hi = e.val(fr, in.High)
	}
	isStr := isStringTerm(x) || func() bool {
		b, ok := in.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}()
	ok := st.facts.proveLe(tInt(0), lo) && st.facts.proveLe(lo, hi) && st.facts.proveLe(hi, n)
	e.check(st, fr, "slice bounds", in.Pos(), ok, fmt.Sprintf("[%v:%v] of length %v", lo, hi, n))
	if !ok {
		st.assume(tLe(tInt(0), lo), true)
		st.assume(tLe(lo, hi), true)
	}
	full := ""
	if in.Max != nil && st.facts.proveLe(e.val(fr, in.Max), hi) {
		full = "full"
	}
	if lo.op == OInt && lo.k == 0 && hi == n && full == "" {
		if isStr {
			e.set(fr, in, x)
			return true, ""
		}
		if _, isPtr := in.X.Type().Underlying().(*types.Pointer); !isPtr {
			e.set(fr, in, x)
			return true, ""
		}
	}
	if x.op == OStr && lo.op == OInt && hi.op == OInt && lo.k >= 0 && lo.k <= hi.k && hi.k <= int64(len(x.s)) {
		e.set(fr, in, tStr(x.s[lo.k:hi.k]))
		return true, ""
	}
	for x.op == OSlice {
		lo = tAdd(lo, x.args[1])
		hi = tAdd(hi, x.args[1])
		x = x.args[0]
	}
	e.set(fr, in, mk(OSlice, in.Type(), false, 0, full, nil, nil, nil, x, lo, hi))
	return true, ""
}

func (e *Engine) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) (bool, string) {
	x := e.val(fr, in.X)
	var ok, val *Term
	if x.op == OIface {
		var r bool
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			r = types.Implements(x.typ, it)
			val = x
		} else {
			r = types.Identical(x.typ, in.AssertedType)
			val = x.args[0]
		}
		ok = tBool(r)
		if !r {
			val = tZero(in.AssertedType)
		}
	} else if x.op == ONil {
		ok, val = tFalse(), tZero(in.AssertedType)
	} else {
		ts := types.TypeString(in.AssertedType, nil)
		ok = mk(OPure, nil, false, 0, "is:"+ts, nil, nil, nil, x)
		val = mk(OPure, in.AssertedType, false, 0, "as:"+ts, nil, nil, nil, x)
		if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			val = x
		}
	}
	if in.CommaOk {
		fr.tuples[in] = []*Term{val, ok}
		e.set(fr, in, tNil())
		return true, ""
	}
	e.check(st, fr, "type assertion", in.Pos(), st.facts.eval(ok) == 1, x.String())
	if !isTrue(ok) {
		st.assume(ok, true)
	}
	e.set(fr, in, val)
	return true, ""
}

// wrapTo reduces an integer result into type t, using facts first.
func (e *Engine) wrapTo(st *State, fr *Frame, t types.Type, x *Term, pos token.Pos, lossyCheck bool) *Term {
	lo, hi := typeRange(t)
	l := toLin(x)
	if l.isConst() {
		if l.c >= lo && l.c <= hi {
			return x
		}
	}
	ok := (lo <= negInf || st.facts.le0(l.neg().plus(lo))) && (hi >= posInf || st.facts.le0(l.plus(-hi)))
	if lossyCheck && e.discover == 0 {
		if !pos.IsValid() {
			pos = fr.fn.Pos()
		}
		k := checkKey{"narrowing", pos, fr.fn}
		r := e.lossy[k]
		if r == nil {
			r = &checkRes{kind: "narrowing", pos: pos, fn: fr.fn, proved: true}
			e.lossy[k] = r
		}
		r.n++
		if !ok {
			r.proved = false
			r.detail = fmt.Sprintf("%v into %s", x, types.TypeString(t, func(p *types.Package) string { return p.Name() }))
		}
	}
	if ok {
		return x
	}
	return tWrapMod(t, x)
}

func (e *Engine) convert(st *State, fr *Frame, from, to types.Type, x *Term, pos token.Pos) (*Term, bool) {
	fb, fint := intBasic(from)
	_, tint := intBasic(to)
	if fint && tint {
		flo, fhi := typeRange(from)
		tlo, thi := typeRange(to)
		if flo >= tlo && fhi <= thi {
			return x, true
		}
		return e.wrapTo(st, fr, to, x, pos, true), true
	}
	_ = fb
	isStr := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	isBytes := func(t types.Type, k types.BasicKind) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == k
	}
	switch {
	case isStr(from) && isStr(to):
		return x, true
	case isStr(from) && isBytes(to, types.Uint8):
		return mk(OConv, to, false, 0, "bytes", nil, nil, nil, append([]*Term{x}, fr.iters()...)...), true
	case isStr(from) && isBytes(to, types.Int32):
		return mk(OPure, to, false, 0, "runes", nil, nil, nil, x), true
	case isStr(to) && isBytes(from, types.Uint8):
		v := seqVal(st.facts, st.mem, x)
		if v.op == OSeqVal {
			return mk(OConv, to, false, 0, "string(bytes)", nil, nil, nil, v), true
		}
		return v, true
	case isStr(to) && isBytes(from, types.Int32):
		return mk(OConv, to, false, 0, "string(runes)", nil, nil, nil, seqVal(st.facts, st.mem, x)), true
	case isStr(to) && fint:
		return mk(OConv, to, false, 0, "string(rune)", nil, nil, nil, x), true
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x, true
	}
	return mk(OConv, to, true, 0, "conv", nil, nil, nil, x), true
}

func (e *Engine) binop(st *State, fr *Frame, in *ssa.BinOp) (*Term, bool) {
	r, ok := e.binop0(st, fr, in)
	if ok {
		r = st.facts.pin(r)
	}
	return r, ok
}

func (e *Engine) binop0(st *State, fr *Frame, in *ssa.BinOp) (*Term, bool) {
	a, b := e.val(fr, in.X), e.val(fr, in.Y)
	_, isInt := intBasic(in.X.Type())
	switch in.Op {
	case token.EQL:
		return e.eq(st, a, b, in.X.Type()), true
	case token.NEQ:
		return tNot(e.eq(st, a, b, in.X.Type())), true
	}
	if isInt {
		switch in.Op {
		case token.LSS:
			return tLt(a, b), true
		case token.LEQ:
			return tLe(a, b), true
		case token.GTR:
			return tLt(b, a), true
		case token.GEQ:
			return tLe(b, a), true
		case token.ADD:
			return e.wrapTo(st, fr, in.Type(), tAdd(a, b), in.Pos(), false), true
		case token.SUB:
			return e.wrapTo(st, fr, in.Type(), tSub(a, b), in.Pos(), false), true
		case token.MUL:
			if a.op == OInt {
				return e.wrapTo(st, fr, in.Type(), tScale(b, a.k), in.Pos(), false), true
			}
			if b.op == OInt {
				return e.wrapTo(st, fr, in.Type(), tScale(a, b.k), in.Pos(), false), true
			}
		case token.SHL:
			if b.op == OInt && b.k >= 0 && b.k < 62 {
				return e.wrapTo(st, fr, in.Type(), tScale(a, int64(1)<<uint(b.k)), in.Pos(), false), true
			}
		case token.SHR:
			if b.op == OInt && b.k >= 0 && b.k < 62 {
				return tShr(a, b.k), true
			}
		case token.QUO:
			if b.op == OInt && b.k > 0 && b.k&(b.k-1) == 0 && st.facts.proveLe(tInt(0), a) {
				k := int64(0)
				for int64(1)<<uint(k) < b.k {
					k++
				}
				return tShr(a, k), true
			}
			if b.op != OInt || b.k == 0 {
				e.check(st, fr, "division by zero", in.Pos(), st.facts.proveNeInt(b, tInt(0)), b.String())
			}
		case token.REM:
			if b.op == OInt && b.k > 0 && b.k&(b.k-1) == 0 && st.facts.proveLe(tInt(0), a) {
				k := int64(0)
				for int64(1)<<uint(k) < b.k {
					k++
				}
				return tAndMask(a, k), true
			}
		case token.AND:
			for k := 0; k < 2; k++ {
				if b.op == OInt && b.k > 0 && (b.k+1)&b.k == 0 {
					n := int64(0)
					for int64(1)<<uint(n) <= b.k {
						n++
					}
					return tAndMask(a, n), true
				}
				a, b = b, a
			}
			if a.op == OInt && b.op == OInt {
				return tInt(a.k & b.k), true
			}
		case token.OR, token.XOR:
			return tOrXorF(st.facts, in.Op.String(), a, b), true
		case token.AND_NOT:
			if a.op == OInt && b.op == OInt {
				return tInt(a.k &^ b.k), true
			}
			if b.op == OInt && b.k >= 0 && (b.k+1)&b.k == 0 {
				n := int64(0)
				for int64(1)<<uint(n) <= b.k {
					n++
				}
				return tSub(a, tAndMask(a, n)), true
			}
		}
		return mk(OBin, in.Type(), true, 0, in.Op.String(), nil, nil, nil, a, b), true
	}
	if isStringTerm(a) || isStringTerm(b) {
		if in.Op == token.ADD {
			if a.op == OStr && b.op == OStr {
				return tStr(a.s + b.s), true
			}
			if a.op == OStr && a.s == "" {
				return b, true
			}
			if b.op == OStr && b.s == "" {
				return a, true
			}
			return tConcat(a, b, in.Type()), true
		}
	}
	return mk(OBin, in.Type(), true, 0, in.Op.String(), nil, nil, nil, a, b), true
}

// tConcat keeps string concatenation right-nested and flat.
func tConcat(a, b *Term, t types.Type) *Term {
	if a.op == OBin && a.s == "concat" {
		return tConcat(a.args[0], tConcat(a.args[1], b, t), t)
	}
	if a.op == OStr && b.op == OStr {
		return tStr(a.s + b.s)
	}
	if a.op == OStr && b.op == OBin && b.s == "concat" && b.args[0].op == OStr {
		return tConcat(tStr(a.s+b.args[0].s), b.args[1], t)
	}
	return mk(OBin, t, true, 0, "concat", nil, nil, nil, a, b)
}

func (e *Engine) eq(st *State, a, b *Term, t types.Type) *Term {
	if isStringTerm(a) || isStringTerm(b) {
		// comparison with "" is a comparison of length
		for k := 0; k < 2; k++ {
			if b.op == OStr && b.s == "" {
				if a.op == OStr {
					return tBool(a.s == "")
				}
				return tEqInt(tLen(a), tInt(0))
			}
			a, b = b, a
		}
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		// slice == nil
		return tEq(a, b)
	}
	return tEq(a, b)
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	if o := fn.Object(); o != nil {
		if f, ok := o.(*types.Func); ok {
			return f.FullName()
		}
	}
	return fn.String()
}

// call dispatches a call; exits of kind xReturn carry the results.
func (e *Engine) call(fr *Frame, st *State, site ssa.Instruction, cc *ssa.CallCommon, fv *Term, args []*Term) []Exit {
	e.tick()
	var resT *types.Tuple
	if s, ok := cc.Value.Type().Underlying().(*types.Signature); ok && !cc.IsInvoke() {
		resT = s.Results()
	} else if cc.IsInvoke() {
		resT = cc.Method.Type().(*types.Signature).Results()
	} else {
		resT = types.NewTuple()
	}
	if cc.IsInvoke() {
		recv := fv
		if recv.op == OIface {
			fn := e.P.prog.LookupMethod(recv.typ, cc.Method.Pkg(), cc.Method.Name())
			if fn != nil {
				return e.callTarget(fr, st, site, fn, append([]*Term{recv.args[0]}, args...), nil, resT)
			}
		}
		e.callCheck(st, fr, site.Pos(), recv)
		name := cc.Method.FullName()
		return e.external(fr, st, site, name, nil, append([]*Term{recv}, args...), resT)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, site, b.Name(), cc, args)
	}
	switch fv.op {
	case OFunc:
		return e.callTarget(fr, st, site, fv.obj.(*ssa.Function), args, nil, resT)
	case OClosure:
		return e.callTarget(fr, st, site, fv.obj.(*ssa.Function), args, fv.args, resT)
	}
	e.callCheck(st, fr, site.Pos(), fv)
	return e.external(fr, st, site, "dynamic", nil, append([]*Term{fv}, args...), resT)
}

// callCheck: what is used is not nil for certain.
func (e *Engine) callCheck(st *State, fr *Frame, pos token.Pos, v *Term) {
	ok := st.facts.isNil(v) != 1
	if !ok && e.strong != nil && e.discover == 0 && e.quietCk == 0 {
		ok = e.strong(st.facts, []*Term{v}, func(f *Facts) bool { return f.isNil(renorm(f, v)) == 0 })
	}
	e.check(st, fr, "nil dereference", pos, ok, "use of "+v.String())
}

func (e *Engine) callTarget(fr *Frame, st *State, site ssa.Instruction, fn *ssa.Function, args, free []*Term, resT *types.Tuple) []Exit {
	if resT == nil || resT.Len() == 0 {
		resT = fn.Signature.Results()
	}
	if strings.HasPrefix(fn.Synthetic, "bound method wrapper") && len(free) == 1 {
		// a method value: the method with the receiver it was taken of
		if m, ok := fn.Object().(*types.Func); ok {
			if t := e.P.prog.FuncValue(m); t != nil {
				if !types.Identical(t.Params[0].Type(), fn.FreeVars[0].Type()) {
					return e.callFn(fr, e.ctx(fr.ctx, site), fn, args, free, st) // promoted from a part
				}
				fn, args, free = t, append([]*Term{free[0]}, args...), nil
			} else if x := free[0]; x.op == OIface {
				if t := e.P.prog.LookupMethod(x.typ, m.Pkg(), m.Name()); t != nil {
					fn, args, free = t, append([]*Term{x.args[0]}, args...), nil
				}
			} else {
				return e.external(fr, st, site, m.FullName(), nil, append([]*Term{x}, args...), resT)
			}
		}
	}
	name := fnName(fn)
	if e.hook != nil {
		if ok, ex := e.hook(e, fr, st, site, name, fn, args, resT); ok {
			return ex
		}
	}
	if ex, ok := e.prim(fr, st, site, name, fn, args, resT); ok {
		return ex
	}
	if (e.P.inRepo(fn) || plainLib(fn)) && len(fn.Blocks) > 0 {
		depth := 0
		for p := fr; p != nil; p = p.parent {
			if p.fn == fn && fn.Parent() == nil {
				if depth++; depth > e.deep {
					// recursion: opaque
					return e.external(fr, st, site, name, fn, args, resT)
				}
			}
		}
		if !e.noSeqEq {
			if t := e.asSeqEq(fn, args, st); t != nil {
				return []Exit{{kind: xReturn, st: st, res: []*Term{t}}}
			}
		}
		return e.callFn(fr, e.ctx(fr.ctx, site), fn, args, free, st)
	}
	return e.external(fr, st, site, name, fn, args, resT)
}

// plainLib: short library functions analysed like the repository's own.
func plainLib(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	o := fn.Object()
	if o == nil || o.Pkg() == nil {
		return false
	}
	switch o.Pkg().Path() {
	case "encoding/binary":
		return fn.Signature.Recv() != nil && hasPrefixAny(o.Name(), "Uint", "PutUint", "AppendUint")
	case "slices":
		switch o.Name() {
		case "Index", "IndexFunc", "Contains", "ContainsFunc", "EqualFunc", "Clone", "Clip", "Reverse", "Max", "Min":
			return true
		}
	}
	return false
}

// external: a call whose body is not analysed; the results are named by call
// site and iteration.
func (e *Engine) external(fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, args []*Term, resT *types.Tuple) []Exit {
	s := st.clone()
	res := e.opaqueResults(fr, site, name, resT)
	s.addEvent(&Event{kind: "call", name: name, fn: fn, args: args, res: res, pos: site.Pos(), fac: st.facts, ctx: fr.ctx})
	e.externalEffects(s, name, fn, args)
	return []Exit{{kind: xReturn, st: s, res: res}}
}

// readOnlyExternals take pointers or slices without writing through them.
func readOnlyExternal(name string) bool {
	return hasPrefixAny(name, "fmt.", "(fmt.", "log.", "os.", "(*os.", "time.", "(time.", "(*time.", "net/http.", "(*net/http.", "(net/http.",
		"github.com/amarin/logging.", "(github.com/amarin/logging.", "(*github.com/amarin/logging.", "errors.", "(error)",
		"(io.Writer).", "(io.Closer).", "(io.ReadCloser).Close", "compress/", "(*compress/", "bufio.New", "context.",
		"github.com/amarin/binutils.New", "(*github.com/amarin/binutils.BinaryWriter).", "runtime.", "flag.", "path", "sync.", "(*sync.", "strings.", "strconv.", "(*strings.")
}

// externalEffects: what a call to unknown code may write. Objects of
// repository types passed by pointer, and elements of slices passed, get
// unknown contents; a repository function (recursion) writes what its body,
// transitively, may write.
func (e *Engine) externalEffects(s *State, name string, fn *ssa.Function, args []*Term) {
	if fn != nil && e.P.inRepo(fn) {
		for _, t := range e.P.modTypes(fn) {
			n := newMem(s.mem, MHavocType)
			n.typ = t
			s.mem = n
		}
		return
	}
	if readOnlyExternal(name) {
		return
	}
	for _, a := range args {
		if a.op == OIface {
			a = a.args[0]
		}
		if a.typ == nil {
			continue
		}
		switch u := a.typ.Underlying().(type) {
		case *types.Slice:
			if isStringTerm(a) || a.op == ONil {
				continue
			}
			n := newMem(s.mem, MElems)
			n.addr = a
			s.mem = n
		case *types.Pointer:
			if nt, ok := u.Elem().(*types.Named); ok && nt.Obj().Pkg() != nil && !e.P.repoPath(nt.Obj().Pkg().Path()) {
				continue // the library's own object
			}
			if isLocalNonEscaping(a) && pointee(a) != nil {
				// the object itself
				n := newMem(s.mem, MStore)
				n.addr = a
				n.val = mk(OCall, pointee(a), false, int64(newMem(nil, MInit).id), "written by "+name, getCallInfo(name), nil, nil)
				s.mem = n
				continue
			}
			n := newMem(s.mem, MHavocType)
			n.typ = u.Elem()
			s.mem = n
		}
	}
}

var callInfos = map[string]*callInfo{}

func getCallInfo(name string) *callInfo {
	if c := callInfos[name]; c != nil {
		return c
	}
	c := &callInfo{name: name}
	callInfos[name] = c
	return c
}

func (e *Engine) opaqueResults(fr *Frame, site ssa.Instruction, name string, resT *types.Tuple) []*Term {
	var res []*Term
	for i := 0; i < resT.Len(); i++ {
		res = append(res, mk(OCall, resT.At(i).Type(), false, int64(i), e.siteKey(fr, site), getCallInfo(name), nil, nil, fr.iters()...))
	}
	return res
}

func one(st *State, res ...*Term) []Exit { return []Exit{{kind: xReturn, st: st, res: res}} }

func (e *Engine) builtin(fr *Frame, st *State, site ssa.Instruction, name string, cc *ssa.CallCommon, args []*Term) []Exit {
	switch name {
	case "len":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			return one(st, mapLen(st.mem, args[0]))
		}
		return one(st, tLen(args[0]))
	case "cap":
		return one(st, mk(OCap, nil, false, 0, "", nil, nil, nil, args[0]))
	case "append":
		s := st.clone()
		base := args[0]
		if len(args) == 1 {
			return one(s, base)
		}
		x := args[1]
		bt := cc.Args[0].Type()
		// append(base, elems...): the variadic slice is usually a fresh array
		if x.op == ONil {
			return one(s, base)
		}
		if x.op == OSlice && x.args[0].op == OAlloc && x.args[1].op == OInt && x.args[2].op == OInt && x.args[2].k-x.args[1].k <= 16 {
			els := []*Term{base}
			et := elemType(bt)
			for i := x.args[1].k; i < x.args[2].k; i++ {
				els = append(els, load(s.facts, s.mem, tIndexAddr(x.args[0], tInt(i), types.NewPointer(et)), et))
			}
			if len(els) == 1 {
				return one(s, base)
			}
			if base.op == OAppend && base.mem == s.mem {
				els = append(append([]*Term{}, base.args...), els[1:]...)
			}
			t := mk(OAppend, bt, false, int64(len(els)-1), "", nil, s.mem, nil, els...)
			e.appended(s, base, t)
			s.addEvent(&Event{kind: "append", args: []*Term{base, t}, pos: site.Pos(), ctx: fr.ctx, fac: st.facts})
			return one(s, t)
		}
		t := mk(OAppendSl, bt, false, 0, "", nil, s.mem, nil, base, x)
		e.appended(s, base, t)
		s.addEvent(&Event{kind: "append", args: []*Term{base, t}, pos: site.Pos(), ctx: fr.ctx, fac: st.facts})
		return one(s, t)
	case "copy":
		s := st.clone()
		n := newMem(s.mem, MCopy)
		n.addr, n.val = args[0], args[1]
		s.addEvent(&Event{kind: "elems", name: "copy", args: []*Term{args[0], args[1]}, pos: site.Pos(), ctx: fr.ctx})
		s.mem = n
		return one(s, e.opaqueResults(fr, site, "copy", types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Int])))...)
	case "delete":
		s := st.clone()
		s.addEvent(&Event{kind: "mapdel", args: []*Term{args[0], args[1]}, pos: site.Pos(), ctx: fr.ctx})
		n := newMem(s.mem, MMapDel)
		n.addr, n.key = args[0], args[1]
		s.mem = n
		return one(s)
	case "recover":
		if st.panicking && !st.recovered {
			s := st.clone()
			s.recovered = true
			t := mk(OPure, types.Universe.Lookup("any").Type(), false, 0, "recovered", nil, nil, nil)
			s.assume(tEq(t, tNil()), false)
			return one(s, t)
		}
		return one(st, tNil())
	case "print", "println":
		return one(st)
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "min", "max":
		if len(args) == 2 {
			a, b := args[0], args[1]
			if name == "max" {
				a, b = b, a
			}
			switch st.facts.eval(tLe(a, b)) {
			case 1:
				return one(st, a)
			case 0:
				return one(st, b)
			}
			s1, s2 := st.clone(), st.clone()
			s1.assume(tLe(a, b), true)
			s2.assume(tLe(a, b), false)
			return []Exit{{kind: xReturn, st: s1, res: []*Term{a}}, {kind: xReturn, st: s2, res: []*Term{b}}}
		}
	}
	return undecided(st, site.Pos(), "builtin "+name)
}

// appended: appending to a part of a slice, or a second time to the same
// slice, may overwrite what lies behind it.
func (e *Engine) appended(s *State, base, t *Term) {
	clobber := func(x *Term) {
		n := newMem(s.mem, MElems)
		n.addr, n.key, n.val = x, base, t
		s.mem = n
	}
	switch {
	case base.op == ONil || base.op == OConv || base.op == OSlice && base.s == "full":
		return
	case base.op == OMakeSlice && base.k == 1:
		return
	case base.op == OSlice && base.args[0].op == OAlloc:
		if a, ok := pointee(base.args[0]).Underlying().(*types.Array); ok && s.facts.proveLe(tInt(a.Len()), base.args[2]) {
			return
		}
		clobber(base.args[0])
		return
	case base.op == OSlice:
		clobber(base.args[0])
		return
	}
	for ev := s.ev; ev != nil; ev = ev.prev {
		if ev.kind == "append" && ev.args[0] == base {
			clobber(ev.args[1])
		}
	}
}

func mapTouched(m *Mem, x *Term) bool { return lastMapMem(m, x).kind != MInit }

func lastMapMem(m *Mem, x *Term) *Mem {
	for n := m; n != nil; n = n.prev {
		switch n.kind {
		case MInit:
			return n
		case MMapSet, MMapDel:
			if n.addr == x || (sameMapType(n.addr, x) && !mapDisjoint(n.addr, x)) {
				return n
			}
		case MLoop:
			for _, w := range n.loop.writes {
				if (w.kind == MMapSet || w.kind == MMapDel) && sameMapType(w.addr, x) && !mapDisjoint(w.addr, x) {
					return n
				}
			}
		case MHavocAll:
			return n
		}
	}
	return initMem()
}

// prim models the library calls whose effect matters.
func (e *Engine) prim(fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, args []*Term, resT *types.Tuple) ([]Exit, bool) {
	pkg := ""
	if fn != nil && fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	switch name {
	case "fmt.Errorf", "errors.New":
		t := mk(OPure, resT.At(0).Type(), false, 0, name, nil, nil, nil, errArgs(e, fr, st, name, args)...)
		return one(st, t), true
	case "fmt.Sprintf":
		// the address of a function tells which one it is
		if as := errArgs(e, fr, st, "fmt.Errorf", args); len(as) == 2 && as[0].op == OStr && as[0].s == "%p" {
			v := as[1]
			for v.op == OIface {
				v = v.args[0]
			}
			if v.op == OFunc || v.op == OClosure {
				return one(st, tStr("code of "+v.obj.(*ssa.Function).String())), true
			}
		}
	case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.Sort", "sort.Strings", "sort.Ints":
		return e.sortPrim(fr, st, site, name, args), true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		s := st.clone()
		s.addEvent(&Event{kind: "call", name: name, fn: fn, args: args, pos: site.Pos(), ctx: fr.ctx, fac: st.facts})
		return one(s), true
	case "sort.IsSorted", "sort.SliceIsSorted", "sort.IntsAreSorted", "sort.StringsAreSorted":
		x := args[0]
		if x.op == OIface {
			x = x.args[0]
		}
		e.curMem = st.mem
		if isSliceTyped(x) && e.sortAscending(name, args) {
			return one(st, tIsSorted(seqVal(st.facts, st.mem, x))), true
		}
	case "slices.Equal", "bytes.Equal":
		if len(args) == 2 {
			return one(st, e.seqEq(st, args[0], args[1])), true
		}
	}
	if fn != nil && fn.Origin() != nil {
		on := fnName(fn.Origin())
		switch on {
		case "slices.Equal":
			return one(st, e.seqEq(st, args[0], args[1])), true
		case "slices.Grow":
			return one(st, args[0]), true
		case "slices.IsSorted":
			return one(st, tIsSorted(seqVal(st.facts, st.mem, args[0]))), true
		case "slices.Sort":
			return e.sortPrim(fr, st, site, on, args), true
		}
	}
	if t := strPrim(name, args); t != nil {
		return one(st, t), true
	}
	if purePkg[pkg] || pureFn[name] {
		var res []*Term
		for i := 0; i < resT.Len(); i++ {
			res = append(res, mk(OPure, resT.At(i).Type(), false, int64(i), name, nil, nil, nil, pureArgs(st, args)...))
		}
		if resT.Len() == 0 {
			return one(st), true
		}
		s := st.clone()
		s.addEvent(&Event{kind: "pure", name: name, fn: fn, args: args, res: res, pos: site.Pos(), ctx: fr.ctx, fac: st.facts})
		return one(s, res...), true
	}
	return nil, false
}

// strPrim: functions of strings whose result the shape of the arguments
// tells.
func strPrim(name string, args []*Term) *Term {
	if !strings.HasPrefix(name, "strings.") || len(args) == 0 {
		return nil
	}
	a := args[0]
	if len(args) == 1 && a.op == OStr {
		switch name {
		case "strings.TrimSpace":
			return tStr(strings.TrimSpace(a.s))
		case "strings.ToLower":
			return tStr(strings.ToLower(a.s))
		case "strings.ToUpper":
			return tStr(strings.ToUpper(a.s))
		}
	}
	if len(args) != 2 {
		return nil
	}
	b := args[1]
	if name == "strings.Repeat" && a.op == OStr && b.op == OInt && b.k >= 0 && b.k*int64(len(a.s)) < 1000 {
		return tStr(strings.Repeat(a.s, int(b.k)))
	}
	if a.op == OStr && b.op == OStr {
		switch name {
		case "strings.HasPrefix":
			return tBool(strings.HasPrefix(a.s, b.s))
		case "strings.HasSuffix":
			return tBool(strings.HasSuffix(a.s, b.s))
		case "strings.TrimPrefix":
			return tStr(strings.TrimPrefix(a.s, b.s))
		case "strings.TrimSuffix":
			return tStr(strings.TrimSuffix(a.s, b.s))
		case "strings.Contains":
			return tBool(strings.Contains(a.s, b.s))
		case "strings.Index":
			return tInt(int64(strings.Index(a.s, b.s)))
		case "strings.LastIndex":
			return tInt(int64(strings.LastIndex(a.s, b.s)))
		case "strings.Count":
			return tInt(int64(strings.Count(a.s, b.s)))
		case "strings.Trim":
			return tStr(strings.Trim(a.s, b.s))
		case "strings.TrimLeft":
			return tStr(strings.TrimLeft(a.s, b.s))
		case "strings.TrimRight":
			return tStr(strings.TrimRight(a.s, b.s))
		case "strings.EqualFold":
			return tBool(strings.EqualFold(a.s, b.s))
		}
	}
	switch name {
	case "strings.HasPrefix", "strings.TrimPrefix":
		if rest := cutStr(a, b, false); rest != nil {
			if name == "strings.HasPrefix" {
				return tTrue()
			}
			return rest
		}
	case "strings.HasSuffix", "strings.TrimSuffix":
		if rest := cutStr(a, b, true); rest != nil {
			if name == "strings.HasSuffix" {
				return tTrue()
			}
			return rest
		}
	}
	return nil
}

// cutStr: what is left of the concatenation a without its end (or its
// beginning) b; nil when a is not known to end so.
func cutStr(a, b *Term, end bool) *Term {
	xs, ys := concatParts(a), concatParts(b)
	if end {
		revTerms(xs)
		revTerms(ys)
	}
	for len(ys) > 0 {
		y := ys[0]
		if y.op == OStr && y.s == "" {
			ys = ys[1:]
			continue
		}
		if len(xs) == 0 {
			return nil
		}
		x := xs[0]
		switch {
		case x == y:
			xs, ys = xs[1:], ys[1:]
		case x.op == OStr && y.op == OStr && end && strings.HasSuffix(x.s, y.s):
			xs[0], ys = tStr(strings.TrimSuffix(x.s, y.s)), ys[1:]
		case x.op == OStr && y.op == OStr && !end && strings.HasPrefix(x.s, y.s):
			xs[0], ys = tStr(strings.TrimPrefix(x.s, y.s)), ys[1:]
		default:
			return nil
		}
	}
	if end {
		revTerms(xs)
	}
	r := tStr("")
	for i := len(xs) - 1; i >= 0; i-- {
		if r.op == OStr && r.s == "" {
			r = xs[i]
		} else {
			r = tConcat(xs[i], r, a.typ)
		}
	}
	return r
}

func concatParts(t *Term) []*Term {
	if t.op == OBin && t.s == "concat" {
		return append(concatParts(t.args[0]), concatParts(t.args[1])...)
	}
	return []*Term{t}
}

func revTerms(ts []*Term) {
	for i, j := 0, len(ts)-1; i < j; i, j = i+1, j-1 {
		ts[i], ts[j] = ts[j], ts[i]
	}
}

// slices passed to pure functions are named by content
func pureArgs(st *State, args []*Term) []*Term {
	var r []*Term
	for _, a := range args {
		if a.typ != nil {
			if _, ok := a.typ.Underlying().(*types.Slice); ok {
				a = seqVal(st.facts, st.mem, a)
			}
		}
		r = append(r, a)
	}
	return r
}

var purePkg = map[string]bool{"strings": true, "strconv": true, "path": true, "unicode": true, "unicode/utf8": true, "math": true, "path/filepath": true, "math/bits": true, "bytes": true}
var pureFn = map[string]bool{"errors.Is": true, "os.IsNotExist": true, "os.IsExist": true, "fmt.Sprintf": true, "fmt.Sprint": true, "errors.Unwrap": true, "(error).Error": true}

func errArgs(e *Engine, fr *Frame, st *State, name string, args []*Term) []*Term {
	// fmt.Errorf(format, args...): expand the variadic elements
	if name == "fmt.Errorf" && len(args) == 2 && args[1].op == OSlice && args[1].args[0].op == OAlloc && args[1].args[2].op == OInt {
		r := []*Term{args[0]}
		et := types.Universe.Lookup("any").Type()
		for i := int64(0); i < args[1].args[2].k; i++ {
			r = append(r, load(st.facts, st.mem, tIndexAddr(args[1].args[0], tInt(i), types.NewPointer(et)), et))
		}
		return r
	}
	return args
}

// tIsSorted: the contents are in ascending order.
func tIsSorted(seq *Term) *Term {
	if seq.op == OPure && seq.s == "sorted" {
		return tTrue()
	}
	return mk(OPure, types.Typ[types.Bool], false, 0, "issorted", nil, nil, nil, seq)
}

func (e *Engine) sortPrim(fr *Frame, st *State, site ssa.Instruction, name string, args []*Term) []Exit {
	x := args[0]
	if x.op == OIface {
		x = x.args[0]
	}
	s := st.clone()
	s.addEvent(&Event{kind: "sort", name: name, args: append([]*Term{x}, args...), pos: site.Pos(), ctx: fr.ctx, fac: st.facts})
	if isSliceTyped(x) {
		k := MSort
		e.curMem = st.mem
		if !e.sortAscending(name, args) {
			k = MElems
		}
		n := newMem(s.mem, k)
		n.addr = x
		s.mem = n
	} else {
		n := newMem(s.mem, MHavocAll)
		s.mem = n
	}
	return one(s)
}

func isSliceTyped(x *Term) bool {
	switch x.op {
	case OMakeSlice, OAppend, OAppendSl, OCollect, OSlice:
		return true
	}
	if x.typ == nil {
		return false
	}
	_, ok := x.typ.Underlying().(*types.Slice)
	return ok
}

func (e *Engine) seqEq(st *State, a, b *Term) *Term {
	if a == b {
		return tTrue()
	}
	va, vb := seqVal(st.facts, st.mem, a), seqVal(st.facts, st.mem, b)
	return mkSeqEq(va, vb)
}

// mkSeqEq: equality of two contents; of strings it is their equality.
func mkSeqEq(va, vb *Term) *Term {
	if va == vb {
		return tTrue()
	}
	if isStringTerm(va) && isStringTerm(vb) {
		for k := 0; k < 2; k++ {
			if vb.op == OStr && vb.s == "" {
				return tEqInt(tLen(va), tInt(0))
			}
			va, vb = vb, va
		}
		return tEq(va, vb)
	}
	if va.id > vb.id {
		va, vb = vb, va
	}
	return mk(OSeqEq, nil, false, 0, "", nil, nil, nil, va, vb)
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
