package main

// Optimizing the dictionary before it is saved: every word keeps the tag sets
// it has, although variants are given other identifiers.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// optLoop is a loop on the way to an exit, with the loop around it.
type optLoop struct {
	li     *LoopInfo
	parent *optLoop
	back   int // the iteration of the parent it belongs to
	n      int // order
}

// optWrite: the variants of a node are set.
type optWrite struct {
	in  *optLoop // nil: outside of loops
	x   *Term    // place of the node
	val *Term
}

// optCase: what an element of a container may be: the container was filled
// in iteration w of the loop.
type optCase struct {
	t    *Term
	eqs  [][2]*Term
	back *LoopBack
	raw  *Term
}

type optimize struct {
	*dict
	x      Exit
	list   *Term // nodes
	old    *Term // the variants before
	now    *Term // and after
	root   *Term // address of the variants
	loops  []*optLoop
	seen   map[string]*Term
	k      *Term // any node
	vk     *Term // its variants
	asking map[*Term]bool
	dirty  map[*Term]bool // lists changed otherwise than by being added to
}

// hook: the container of variants is taken at its word (C02 to C04).
func (o *optimize) hook(e *Engine, fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, args []*Term, resT *types.Tuple) (bool, []Exit) {
	if ok, xs := textCalls(e, fr, st, site, name, fn, args, resT); ok {
		return ok, xs
	}
	if fn == nil || fn.Signature.Recv() == nil {
		return false, nil
	}
	T := fn.Signature.Recv().Type()
	p, isPtr := T.(*types.Pointer)
	if isPtr {
		T = p.Elem()
	}
	n, ok := T.(*types.Named)
	if !ok || n.Obj().Name() != "VariantsIndex" {
		return false, nil
	}
	tok := args[0]
	if isPtr {
		tok = load(st.facts, st.mem, tok, n)
	}
	one := func(t *Term) (bool, []Exit) { return true, []Exit{{kind: xReturn, st: st.clone(), res: []*Term{t}}} }
	switch fn.Name() {
	case "Index":
		return one(o.variants("Index", resT.At(0).Type(), tok, args[1]))
	case "Get":
		if id := args[1]; id.op == OPure && id.s == "variants:Index" && id.args[0] == tok {
			return one(id.args[1])
		}
		return one(o.variants("Get", resT.At(0).Type(), tok, args[1]))
	case "KnownID":
		return one(o.variants("KnownID", resT.At(0).Type(), tok))
	}
	return false, nil
}

func (o *optimize) variants(op string, T types.Type, args ...*Term) *Term {
	return mk(OPure, T, false, 0, "variants:"+op, nil, nil, nil, args...)
}

// gather lists the loops on the way.
func (o *optimize) gather(evs []*Event, parent *optLoop, back int) {
	for _, e := range evs {
		if e.kind != "rep" {
			continue
		}
		l := &optLoop{li: e.loop, parent: parent, back: back, n: len(o.loops)}
		o.loops = append(o.loops, l)
		for i, b := range e.loop.backs {
			o.gather(b.events, l, i)
		}
	}
}

// nodeField: addr is a field of the node at place x.
func (o *optimize) nodeField(addr *Term) (x *Term, f int) {
	if addr.op == OFieldAddr && addr.args[0].op == OIndexAddr && addr.args[0].args[0] == o.list {
		return addr.args[0].args[1], int(addr.k)
	}
	return nil, 0
}

func (o *optimize) fieldNo(name string) int {
	_, et := o.itemList(o.st)
	u := et.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	panic(abortErr{"Item." + name + " not found"})
}

// writes lists what sets the variants of nodes; anything else written, but
// for what Optimize makes itself, is reported.
func (o *optimize) writes() (ws []optWrite, bad string) {
	node := func(in *optLoop, m *Mem, st *State) string {
		switch m.kind {
		case MLoop:
			return "" // its iterations are looked at
		case MStore:
			if m.addr == o.root {
				if in != nil {
					return "the variants are replaced in a loop"
				}
				return ""
			}
			if x, f := o.nodeField(m.addr); x != nil {
				if f != o.fieldNo("Variants") {
					return "another part of a node is written than its variants"
				}
				ws = append(ws, optWrite{in, x, m.val})
				return ""
			}
			if a := m.addr; a.op == OIndexAddr && a.args[0] == o.list {
				_, et := o.itemList(o.st)
				u := et.Underlying().(*types.Struct)
				var val *Term
				for i := 0; i < u.NumFields(); i++ {
					v := tField(m.val, i, u.Field(i).Type())
					if u.Field(i).Name() == "Variants" {
						val = v
					} else if was := o.listField(o.st, a.args[1], u.Field(i).Name()); v != was && !o.h.prove(st.facts, []*Term{v, was}, o.h.intEq(v, was)) {
						return "another part of a node is written than its variants"
					}
				}
				ws = append(ws, optWrite{in, a.args[1], val})
				return ""
			}
		}
		if m.addr != nil {
			if r := rootOf(m.addr); r.op == OLoopVar {
				if _, ok := o.pushes(r); ok {
					o.dirty[r] = true
					return ""
				}
			}
		}
		if w := memOutside(m.kind, m.addr, m.loop, m.typ); len(w) > 0 {
			return w[0]
		}
		return ""
	}
	for m := o.x.st.mem; m != nil && m != o.st.mem; m = m.prev {
		if w := node(nil, m, o.x.st); w != "" {
			return nil, w
		}
	}
	for _, l := range o.loops {
		for _, b := range l.li.backs {
			for m := b.st.mem; m != nil && m != l.li.head.mem; m = m.prev {
				if w := node(l, m, b.st); w != "" {
					return nil, w
				}
			}
		}
	}
	return
}

type optPush struct {
	l    *optLoop
	back *LoopBack
	els  []*Term
}

// pushes: how the list kept in a loop variable is filled.
func (o *optimize) pushes(v *Term) (ps []optPush, ok bool) {
	for _, l := range o.loops {
		for i, w := range l.li.vars {
			if w.head != v {
				continue
			}
			if n := toLin(tLen(w.init)); !n.isConst() || n.c != 0 {
				return nil, false
			}
			for j := range l.li.backs {
				b := &l.li.backs[j]
				u := b.updates[i]
				var els []*Term
				for u != v && u.op == OAppend {
					els = append(append([]*Term(nil), u.args[1:]...), els...)
					u = u.args[0]
				}
				if u != v {
					return nil, false
				}
				ps = append(ps, optPush{l, b, els})
			}
			return ps, true
		}
	}
	return nil, false
}

type optSet struct {
	l    *optLoop
	back *LoopBack
	key  *Term
	val  *Term
}

// sets: how map m is filled.
func (o *optimize) sets(m *Term) (ss []optSet, ok bool) {
	if m.op != OMakeMap {
		return nil, false
	}
	for n := o.x.st.mem; n != nil && n != o.st.mem; n = n.prev {
		if (n.kind == MMapSet || n.kind == MMapDel) && n.addr == m {
			return nil, false
		}
	}
	for _, l := range o.loops {
		for j := range l.li.backs {
			b := &l.li.backs[j]
			done := map[*Term]bool{}
			for n := b.st.mem; n != nil && n != l.li.head.mem; n = n.prev {
				if n.kind == MMapDel && n.addr == m {
					return nil, false
				}
				if n.kind == MMapSet && n.addr == m && !done[n.key] {
					done[n.key] = true
					ss = append(ss, optSet{l, b, n.key, n.val})
				}
			}
		}
	}
	return ss, true
}

// listOf: the elements put into the list of a key, on top of those it has.
func (o *optimize) listOf(s optSet, m *Term) (els []*Term, ok bool) {
	u := s.val
	for u.op == OAppend {
		els = append(append([]*Term(nil), u.args[1:]...), els...)
		u = u.args[0]
	}
	if u.op == OMapGet && u.args[0] == m && u.args[1] == s.key {
		return els, true
	}
	n := toLin(tLen(u))
	_, has := mapLookup(s.back.st.facts, s.l.li.head.mem, m, s.key, nil)
	return els, n.isConst() && n.c == 0 && s.back.st.facts.eval(has) == 0
}

// rangeVals replaces the values a range over a map gives by what the map has
// for the keys it gives.
func rangeVals(t *Term) *Term {
	done := map[*Term]bool{}
	var find func(u *Term) *Term
	find = func(u *Term) *Term {
		if done[u] {
			return nil
		}
		done[u] = true
		if u.op == OCall && u.obj == &nextInfo && u.k == 2 && u.args[0].args[0].op == OMakeMap {
			return u
		}
		for _, a := range u.args {
			if v := find(a); v != nil {
				return v
			}
		}
		return nil
	}
	for v := find(t); v != nil; v = find(t) {
		m := v.args[0].args[0]
		k := mk(OCall, m.typ.Underlying().(*types.Map).Key(), false, 1, v.s, &nextInfo, nil, nil, v.args...)
		t = subst(t, v, mk(OMapGet, v.typ, false, 0, "", nil, nil, nil, m, k))
		done = map[*Term]bool{}
	}
	return t
}

// place: the element of a list loaded at addr, and the fields taken of it.
func place(addr *Term) (base, i *Term, path []int) {
	for addr.op == OFieldAddr {
		path = append([]int{int(addr.k)}, path...)
		addr = addr.args[0]
	}
	if addr.op == OIndexAddr {
		return addr.args[0], addr.args[1], path
	}
	return nil, nil, nil
}

func fieldsOf(v *Term, path []int) *Term {
	for _, f := range path {
		if v.typ == nil {
			return nil
		}
		u, ok := v.typ.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		v = tField(v, f, u.Field(f).Type())
	}
	return v
}

// cases: what may be at the place of a container which t reads.
func (o *optimize) cases(t *Term) (cs []optCase, is bool, why string) {
	witness := func(l *optLoop, c, i *Term, n int) *Term {
		key := fmt.Sprint(c.id, ":", i.id, ":", n)
		w := o.seen[key]
		if w == nil {
			w = param(fmt.Sprint("w", len(o.seen)), types.Typ[types.Int])
			o.seen[key] = w
		}
		return w
	}
	put := func(l *optLoop, b *LoopBack, c, i, v *Term, n int, eqs ...[2]*Term) string {
		if v == nil || l.parent != nil || hasInLoopMem(v, l.li.head.mem.id-1) {
			return "what is put into a container cannot be told apart"
		}
		w := witness(l, c, i, n)
		var es [][2]*Term
		for _, e := range eqs {
			es = append(es, [2]*Term{e[0], subst(e[1], l.li.it, w)})
		}
		cs = append(cs, optCase{subst(v, l.li.it, w), es, b, v})
		return ""
	}
	if t.op == OLoad {
		base, i, path := place(t.args[0])
		if base == nil {
			return
		}
		if ps, ok := o.pushes(base); ok {
			if o.dirty[base] {
				return nil, true, "a list is changed after it is filled"
			}
			for n, p := range ps {
				for _, e := range p.els {
					if w := put(p.l, p.back, base, i, fieldsOf(e, path), n); w != "" {
						return nil, true, w
					}
				}
			}
			return cs, true, ""
		}
		if base.op == OMapGet && base.args[0].op == OMakeMap {
			ss, ok := o.sets(base.args[0])
			if !ok {
				return nil, true, "a map is filled in an unknown way"
			}
			for n, s := range ss {
				u := s.val
				for u.op == OAppend {
					for _, e := range u.args[1:] {
						if w := put(s.l, s.back, base, i, fieldsOf(e, path), n, [2]*Term{base.args[1], s.key}); w != "" {
							return nil, true, w
						}
					}
					u = u.args[0]
				}
				if k := toLin(tLen(u)); !(u.op == OMapGet && u.args[0] == base.args[0] && u.args[1] == s.key) && !(k.isConst() && k.c == 0) {
					return nil, true, "a list is taken over from elsewhere"
				}
			}
			return cs, true, ""
		}
		return
	}
	if t.op == OMapGet && t.args[0].op == OMakeMap && elemSlice(t.typ) == nil {
		ss, ok := o.sets(t.args[0])
		if !ok {
			return nil, true, "a map is filled in an unknown way"
		}
		for n, s := range ss {
			if w := put(s.l, s.back, t, t, s.val, n, [2]*Term{t.args[1], s.key}); w != "" {
				return nil, true, w
			}
		}
		return cs, true, ""
	}
	return
}

func elemSlice(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// resolve replaces what is read from containers by what was put there, and
// the identifier of a node by its place. f gets every possibility.
func (o *optimize) resolve(ts []*Term, eqs [][2]*Term, f func(ts []*Term, eqs [][2]*Term) string) string {
	if len(eqs) > 20 {
		return "too many containers"
	}
	var find func(t *Term) (*Term, []optCase, string)
	memo := map[*Term]bool{}
	find = func(t *Term) (*Term, []optCase, string) {
		if memo[t] {
			return nil, nil, ""
		}
		memo[t] = true
		for _, a := range t.args {
			if s, cs, why := find(a); s != nil {
				return s, cs, why
			}
		}
		if cs, is, why := o.cases(t); is {
			return t, cs, why
		}
		if t.op == OLoad {
			if x, fn := o.nodeField(t.args[0]); x != nil && fn == o.fieldNo("ID") {
				return t, []optCase{{t: x}}, ""
			}
		}
		return nil, nil, ""
	}
	all := append([]*Term(nil), ts...)
	for _, e := range eqs {
		all = append(all, e[0], e[1])
	}
	for _, t := range all {
		s, cs, why := find(t)
		if s == nil {
			continue
		}
		if why != "" {
			return why
		}
		for _, c := range cs {
			nt := make([]*Term, len(ts))
			for i, u := range ts {
				nt[i] = subst(u, s, c.t)
			}
			var ne [][2]*Term
			for _, e := range append(append([][2]*Term(nil), eqs...), c.eqs...) {
				ne = append(ne, [2]*Term{subst(e[0], s, c.t), subst(e[1], s, c.t)})
			}
			if w := o.resolve(nt, ne, f); w != "" {
				return w
			}
		}
		return ""
	}
	return f(ts, eqs)
}

// sameSets: the variants written to a node stand for the tag sets of those it
// had.
func (o *optimize) sameSets(w optWrite) string {
	return o.resolve([]*Term{rangeVals(w.x), rangeVals(w.val)}, nil, func(ts []*Term, eqs [][2]*Term) string {
		x, y := ts[0], ts[1]
		was := o.listField(o.st, x, "Variants")
		z := o.st.clone()
		for _, e := range eqs {
			z.assume(tEqInt(e[0], e[1]), true)
		}
		same := func(a, b *Term) bool {
			return a == b || o.h.prove(z.facts, []*Term{a, b}, o.h.intEq(a, b))
		}
		if o.now == o.old && same(y, was) {
			return ""
		}
		if y.op != OPure || y.s != "variants:Index" || y.args[0] != o.now {
			return "the variants of a node become others than ones of the variants kept: " + y.String()
		}
		c := y.args[1]
		if c.op != OPure || c.s != "variants:Get" || c.args[0] != o.old || !same(c.args[1], was) {
			return "the variants of a node become those of other tag sets: " + c.String() + " in place of those of " + was.String()
		}
		return ""
	})
}

// covered: the variants of node k, if it has some, are written.
func (o *optimize) covered(w optWrite) string {
	l := w.in
	if l == nil {
		return "variants are written outside of loops"
	}
	writes := func(z *State, b *LoopBack) bool {
		for _, m := range memSince(b.st.mem, l.li.head.mem) {
			if m.kind != MStore {
				continue
			}
			if m.addr.op == OIndexAddr && m.addr.args[0] == o.list && m.addr.args[1] == w.x {
				return true
			}
			if x, _ := o.nodeField(m.addr); x == w.x {
				return true
			}
		}
		return false
	}
	if toLin(w.x).coefOf(l.li.it) != 0 {
		// node by node
		return o.attained(l, o.listField(o.st, w.x, "Variants"), o.vk, writes)
	}
	// the members of a list
	if w.x.op != OLoad {
		return "it cannot be told which nodes are written"
	}
	base, i, _ := place(w.x.args[0])
	if base == nil {
		return "it cannot be told which nodes are written"
	}
	for j := range l.li.backs {
		b := &l.li.backs[j]
		if !writes(b.st, b) && !o.h.contra(b.st.facts) {
			return "nodes of a list are left out" + pathNote(Exit{st: b.st})
		}
	}
	if why := o.whole(l, i, base, false); why != "" {
		return why
	}
	if base = rangeVals(base); base.op != OMapGet {
		return "the list of nodes to be written is made in an unknown way"
	}
	m, key := base.args[0], base.args[1]
	ss, ok := o.sets(m)
	if !ok || len(ss) == 0 {
		return "a map is filled in an unknown way"
	}
	why := "node not listed"
	for _, s := range ss {
		els, _ := o.listOf(s, m)
		if len(els) == 0 {
			continue
		}
		why = o.attained(s.l, s.key, o.vk, func(z *State, b *LoopBack) bool {
			for _, t := range ss {
				if t.back != b || t.key != s.key {
					continue
				}
				els, ok := o.listOf(t, m)
				if !ok {
					return false
				}
				for _, e := range els {
					if e.op != OLoad {
						continue
					}
					x, f := o.nodeField(e.args[0])
					if x == nil || f != o.fieldNo("ID") {
						continue
					}
					if y, _ := o.nodeField(s.key.args[0]); y == x {
						return true
					}
				}
			}
			return false
		})
		if why == "" {
			break
		}
	}
	if why != "" {
		return why
	}
	if l.parent == nil {
		return "not all of the lists are gone through"
	}
	return o.attained(l.parent, key, o.vk, func(z *State, b *LoopBack) bool {
		for _, e := range b.events {
			if e.kind == "rep" && e.loop.loop == l.li.loop {
				return true
			}
		}
		return false
	})
}

func memSince(m, h *Mem) (r []*Mem) {
	for ; m != nil && m != h; m = m.prev {
		r = append(r, m)
	}
	return
}

// whole: the loop goes through all places of a list of which i is the one of
// the iteration.
func (o *optimize) whole(l *optLoop, i, list *Term, nodes bool) string {
	h := o.h
	li := l.li
	c := toLin(i).coefOf(li.it)
	if c != 1 && c != -1 {
		return "a list is not gone through place by place"
	}
	first := subst(i, li.it, tInt(0))
	n := tLen(list)
	low := int64(0)
	if nodes {
		low = 1 // the root has no variants
	}
	var ends []*State
	if l.parent == nil {
		ends = append(ends, o.x.st)
	} else {
		ends = append(ends, l.parent.li.backs[l.back].st)
	}
	for _, st := range ends {
		ok := false
		if c == 1 {
			ok = h.prove(st.facts, []*Term{first}, func(f *Facts) bool { return f.proveLe(renorm(f, first), tInt(low)) }) &&
				h.prove(st.facts, []*Term{i, n}, func(f *Facts) bool { return f.proveLe(renorm(f, n), renorm(f, i)) })
		} else {
			ok = h.prove(st.facts, []*Term{first}, func(f *Facts) bool { return f.proveLe(tAddK(renorm(f, n), -1), renorm(f, first)) }) &&
				h.prove(st.facts, []*Term{i, n}, func(f *Facts) bool { return f.proveLe(renorm(f, i), tInt(low-1)) })
		}
		if !ok && !h.contra(st.facts) {
			return "a list is not gone through to its end" + pathNote(Exit{st: st})
		}
	}
	return ""
}

// attained: in some iteration of the loop g is the target, and what is asked
// for happens in it.
func (o *optimize) attained(l *optLoop, g, target *Term, ok func(z *State, b *LoopBack) bool) string {
	if l.parent != nil {
		return "a container is filled in a loop inside another"
	}
	old := g
	if g.op == OLoad {
		if base, _, _ := place(g.args[0]); base != nil {
			if _, ok := o.pushes(base); ok {
				old = base
			}
		}
	}
	if hasInLoopMem(old, l.li.head.mem.id-1) {
		return "it cannot be told what a container is filled with"
	}
	var inIter func(z *State)
	// there is such an iteration
	switch {
	case g.op == OCall && g.obj == &nextInfo && g.k == 1 && len(g.args) > 0 && g.args[0].op == OPure:
		if why := o.hasKey(g.args[0].args[0], target); why != "" {
			return why
		}
		more := mk(OCall, types.Typ[types.Bool], false, 0, g.s, &nextInfo, nil, nil, g.args...)
		if o.x.st.facts.eval(more) != 0 {
			return "a map is not gone through to its end"
		}
	case g.op == OLoad:
		base, i, path := place(g.args[0])
		if base == nil {
			return "it cannot be told what a container is filled with"
		}
		if why := o.whole(l, i, base, base == o.list); why != "" {
			return why
		}
		switch {
		case base == o.list:
			if target != o.vk {
				return "a node without the variants looked for"
			}
			inIter = func(z *State) {
				z.assume(tEqInt(i, o.k), true)
			}
		case base.op == OPure && base.s == "variants:KnownID" && base.args[0] == o.old:
			if target != o.vk {
				return "variants not known"
			}
		default:
			ps, is := o.pushes(base)
			if !is {
				return "a list is filled in an unknown way"
			}
			why := "nothing is put into a list"
			for _, p := range ps {
				for _, e := range p.els {
					v := fieldsOf(e, path)
					if v == nil {
						continue
					}
					why = o.attained(p.l, v, target, func(z *State, b *LoopBack) bool {
						for _, q := range ps {
							for _, e := range q.els {
								if q.back == b && fieldsOf(e, path) == v {
									return true
								}
							}
						}
						return false
					})
					if why == "" {
						break
					}
				}
				if why == "" {
					break
				}
			}
			if why != "" {
				return why
			}
		}
	default:
		return "it cannot be told what a container is filled with"
	}
	for j := range l.li.backs {
		b := &l.li.backs[j]
		if ok(b.st, b) {
			continue
		}
		z := b.st.clone()
		z.assume(tEqInt(g, target), true)
		z.assume(tEqInt(target, tInt(0)), false)
		z.assume(tEqInt(g, tInt(0)), false)
		if inIter != nil {
			inIter(z)
		}
		for _, m := range o.maps() {
			if o.hasKey(m, target) == "" {
				if _, has := mapLookup(z.facts, l.li.head.mem, m, g, nil); !isFalse(has) {
					z.assume(has, true)
				}
			}
		}
		if !z.facts.bad && !o.h.contra(z.facts) {
			return "a node with variants is left out" + pathNote(Exit{st: z})
		}
	}
	return ""
}

// maps: the maps filled on the way.
func (o *optimize) maps() (ms []*Term) {
	done := map[*Term]bool{}
	for _, l := range o.loops {
		for _, b := range l.li.backs {
			for _, m := range memSince(b.st.mem, l.li.head.mem) {
				if m.kind == MMapSet && m.addr.op == OMakeMap && !done[m.addr] && !termContains(m.addr, l.li.it) {
					done[m.addr] = true
					ms = append(ms, m.addr)
				}
			}
		}
	}
	return
}

// hasKey: the map has the key in the end.
func (o *optimize) hasKey(m, key *Term) string {
	if o.asking[m] {
		return "a map is asked for while it is filled"
	}
	o.asking[m] = true
	defer delete(o.asking, m)
	ss, ok := o.sets(m)
	if !ok {
		return "a map is filled in an unknown way"
	}
	why := "nothing is put into a map"
	for _, s := range ss {
		why = o.attained(s.l, s.key, key, func(z *State, b *LoopBack) bool {
			for _, t := range ss {
				if t.back == b && t.key == s.key {
					return true
				}
			}
			return false
		})
		if why == "" {
			return ""
		}
	}
	return why
}

// noPanicHere: a path to a panic of its own asks for a key which is there.
func (o *optimize) impossible() bool {
	f := o.x.st.facts
	for _, a := range f.atoms {
		if a.v || a.t.op != OMapHas || a.t.args[0].op != OMakeMap {
			continue
		}
		m, key := a.t.args[0], a.t.args[1]
		cs, is, why := o.cases(key)
		if !is || why != "" {
			continue
		}
		all := true
		for _, c := range cs {
			_, has := mapLookup(c.back.st.facts, c.back.st.mem, m, c.raw, nil)
			if c.back.st.facts.eval(has) != 1 {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

func (R *Report) optimizeKeeps() {
	h := R.harness("words-keep-their-tag-sets", "Index.Optimize")
	h.noChk = true
	h.run(func() {
		d := &dict{h: h, T: h.mustType(idxPkg, "Index"), node: h.mustType(idxPkg, "Node")}
		h.e.hook = (&optimize{dict: d}).hook
		d.recv = h.ptr("index", d.T)
		d.st = h.start()
		h.wellFormed(d.st, d.recv, d.T)
		list, _ := d.itemList(d.st)
		u := d.T.Underlying().(*types.Struct)
		var root *Term
		for i := 0; i < u.NumFields(); i++ {
			if n, ok := u.Field(i).Type().(*types.Named); ok && n.Obj().Name() == "VariantsIndex" {
				root = tFieldAddr(d.recv, i, types.NewPointer(n))
			}
		}
		if root == nil {
			panic(abortErr{"the index has no variants"})
		}
		rt := pointee(root)
		for _, x := range h.meth(d.st, d.T, d.recv, "Optimize") {
			h.paths++
			o := &optimize{dict: d, x: x, list: list, root: root, seen: map[string]*Term{}, asking: map[*Term]bool{}, dirty: map[*Term]bool{}}
			o.old = load(d.st.facts, d.st.mem, root, rt)
			o.k = param("k", types.Typ[types.Int])
			o.vk = d.listField(d.st, o.k, "Variants")
			o.gather(eventsSince(x.st.ev, d.st.ev), nil, 0)
			if h.contra(x.st.facts) {
				continue
			}
			if x.kind == xPanic {
				if !o.impossible() {
					h.fail("optimizing panics"+pathNote(x), x.pos)
				}
				continue
			}
			if x.kind != xReturn {
				h.fail("optimizing cannot be decided", x.pos)
				continue
			}
			o.now = load(x.st.facts, x.st.mem, root, rt)
			ws, bad := o.writes()
			if bad != "" {
				h.fail("optimizing does more than giving variants other identifiers: "+bad+pathNote(x), x.pos)
				continue
			}
			for _, w := range ws {
				if why := o.sameSets(w); why != "" {
					h.fail(why+pathNote(x), x.pos)
				}
			}
			if o.now == o.old {
				continue
			}
			why := "the variants are replaced, but none of the nodes has them written"
			for _, w := range ws {
				if why = o.covered(w); why == "" {
					break
				}
			}
			if why != "" {
				h.fail("words may be left with identifiers of variants no longer there: "+why, x.pos)
			}
		}
	})
}

func init() {
	register("C24", func(R *Report) {
		R.P.initCaps()
		capEnabled = true
		R.optimizeKeeps()
		R.knownIDs("ids-listed", "VariantsIndex", "KnownID", "TableNum", "CollectionTableID", 1)
	})
}
