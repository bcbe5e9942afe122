package main

// What is not stored with the dictionary but made anew when it is loaded: the
// words found, and their number, are those of the nodes read.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// itemList: address-independent access to the list of nodes of the index.
func (d *dict) itemList(st *State) (list *Term, et *types.Named) {
	var rec func(addr *Term, T types.Type)
	rec = func(addr *Term, T types.Type) {
		u := T.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			fa := tFieldAddr(addr, i, types.NewPointer(ft))
			switch t := ft.Underlying().(type) {
			case *types.Struct:
				rec(fa, ft)
			case *types.Slice:
				if n, ok := t.Elem().(*types.Named); ok && n.Obj().Name() == "Item" {
					list, et = load(st.facts, st.mem, fa, ft), n
				}
			}
		}
	}
	rec(d.recv, d.T)
	if list == nil {
		panic(abortErr{"no list of items in the index"})
	}
	return
}

// listField: a field of the node at place k.
func (d *dict) listField(st *State, k *Term, name string) *Term {
	list, et := d.itemList(st)
	u := et.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			ft := u.Field(i).Type()
			a := tIndexAddr(list, k, types.NewPointer(et))
			return load(st.facts, st.mem, tFieldAddr(a, i, types.NewPointer(ft)), ft)
		}
	}
	panic(abortErr{"Item." + name + " not found"})
}

// with: memory m with the lists of children in force at the end, which may
// become those of the index only then.
func (d *dict) with(m *Mem) *Mem {
	if d.final == nil {
		return m
	}
	u := d.T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if t, ok := ft.Underlying().(*types.Map); ok {
			if _, ok := t.Elem().Underlying().(*types.Map); ok {
				n := newMem(m, MStore)
				n.addr, n.val = tFieldAddr(d.recv, i, types.NewPointer(ft)), d.final
				return n
			}
		}
	}
	return m
}

// look: what a word of one letter below q is, in memory m.
func (d *dict) look(st *State, m *Mem, q, s *Term) (ok []found, bad []Exit) {
	z := st.clone()
	z.mem = d.with(m)
	return d.outcome(z, "FetchFromItem", q, s)
}

func oneLetter(x *Term) *Term {
	return mk(OAppend, types.NewSlice(types.Typ[types.Rune]), true, 1, "arg", nil, initMem(), nil, tNil(), x)
}

// sameWords: between two memories nothing changes for letter s below q, but
// for the one below p when that is given.
func (d *dict) sameWords(li *LoopInfo, st *State, m0, m1 *Mem, q, s, p, l *Term) string {
	h := d.h
	sts := []*State{st}
	if p != nil {
		a, b := st.clone(), st.clone()
		a.assume(tEqInt(q, p), false)
		b.assume(tEqInt(q, p), true)
		b.assume(tEqInt(s, l), false)
		z := *a
		z.mem = d.with(m0)
		sts = nil
		for _, c := range d.apart(&z, p, q) {
			sts = append(sts, c)
		}
		sts = append(sts, b)
	}
	var cases []*State
	for _, st := range sts {
		y := st.clone()
		y.mem = d.with(m1)
		if m, _ := d.childMaps(y); m != nil && !y.facts.bad {
			keys := []*Term{q}
			if p != nil {
				keys = append(keys, p)
			}
			cases = append(cases, keyCases(li, y, m0, m, keys...)...)
		}
	}
	for _, st := range cases {
		if st.facts.bad {
			continue
		}
		was, wasNot := d.look(st, m0, q, oneLetter(s))
		for _, o := range was {
			is, not := d.look(o.x.st, m1, q, oneLetter(s))
			for _, y := range not {
				if !h.contra(y.st.facts) {
					return "a word already there becomes unknown" + pathNote(y)
				}
			}
			for _, b := range is {
				if !h.prove(b.x.st.facts, []*Term{o.id, b.id}, h.intEq(o.id, b.id)) {
					return "a word already there becomes another node" + pathNote(b.x)
				}
			}
		}
		for _, o := range wasNot {
			is, _ := d.look(o.st, m1, q, oneLetter(s))
			for _, b := range is {
				if !h.contra(b.x.st.facts) {
					return "a word becomes known which is not the one of the node" + pathNote(b.x)
				}
			}
		}
	}
	return ""
}

// count: the number of words in memory m.
func (d *dict) count(st *State, m *Mem) *Term {
	z := st.clone()
	z.mem = m
	xs := d.h.noPanic(d.h.meth(z, d.T, d.recv, "WordsCount"), "WordsCount")
	if len(xs) != 1 {
		panic(abortErr{"WordsCount has several outcomes"})
	}
	return xs[0].res[0]
}

// keyCases distinguishes which of the entries put into map m since m0 the keys
// given are.
func keyCases(li *LoopInfo, st *State, m0 *Mem, m *Term, keys ...*Term) []*State {
	out := []*State{st}
	for n := st.mem; n != nil && n != m0; n = n.prev {
		if n.kind != MMapSet || n.addr != m {
			continue
		}
		for _, k := range keys {
			var next []*State
			for _, s := range out {
				c := renorm(s.facts, tEq(n.key, k))
				for _, v := range []bool{true, false} {
					t := s.clone()
					t.assume(c, v)
					if v && !t.facts.bad {
						t.facts = saturate(t.facts, nil)
						if t.facts.bad || clash(t.facts, m0, m, s.facts, n.key, k) {
							continue
						}
					}
					if !t.facts.bad {
						next = append(next, t)
					}
				}
			}
			out = next
		}
		keys = append(keys[:len(keys):len(keys)], n.key)
	}
	if li != nil {
		for _, s := range out {
			var ts []*Term
			for _, k := range keys {
				was, _ := mapLookup(s.facts, m0, m, k, nil)
				ts = append(ts, was)
			}
			newMaps(li, s, ts...)
		}
	}
	return out
}

// newSince: a is made in the iteration of the loop while b was there when it
// began.
func newSince(li *LoopInfo, a, b *Term) bool {
	if a.op != OMakeMap || b.op != OMapGet || b.mem == nil || b.mem.id > li.head.mem.id {
		return false
	}
	for _, x := range a.args {
		if x == li.it {
			return true
		}
	}
	return false
}

// newMaps states that the maps written to are not nil, and that those made in the iteration are none of those there
// before it.
func newMaps(li *LoopInfo, st *State, ts ...*Term) {
	for n := st.mem; n != nil && n != li.head.mem; n = n.prev {
		if n.kind == MMapSet {
			st.assume(tEq(n.addr, tNil()), false) // else the write has panicked
			ts = append(ts, n.addr, n.val)
		}
	}
	for _, a := range ts {
		for _, b := range ts {
			if a == nil || b == nil || a == b {
				continue
			}
			x, y := renorm(st.facts, a), renorm(st.facts, b)
			if newSince(li, x, y) || x.op == OMakeMap && y.op == OMakeMap && mapDisjoint(x, y) {
				st.assume(tEq(a, b), false)
			}
		}
	}
}

// clash: one of the keys, taken to be equal, is known to be there in memory m0
// and the other known not to be.
func clash(f *Facts, m0 *Mem, m *Term, was *Facts, a, b *Term) bool {
	_, ha := mapLookup(was, m0, m, a, nil)
	_, hb := mapLookup(was, m0, m, b, nil)
	ra, rb := f.eval(renorm(f, ha)), f.eval(renorm(f, hb))
	if x := was.eval(renorm(was, ha)); x >= 0 {
		ra = x
	}
	if x := was.eval(renorm(was, hb)); x >= 0 {
		rb = x
	}
	return ra >= 0 && rb >= 0 && ra != rb
}

// own: the lists of children of two nodes stay two lists.
func (d *dict) own(li *LoopInfo, st *State, q, r *Term) string {
	m0, m1 := li.head.mem, st.mem
	z := st.clone()
	z.mem = d.with(m0)
	z.assume(tEqInt(q, r), false)
	for _, c := range d.apart(z, q, r) {
		y := c.clone()
		y.mem = d.with(m1)
		m, vt := d.childMaps(y)
		if m == nil {
			return ""
		}
		for _, y := range keyCases(li, y, m0, m, q, r) {
			mq, hq := mapLookup(y.facts, y.mem, m, q, vt)
			mr, hr := mapLookup(y.facts, y.mem, m, r, vt)
			y.assume(hq, true)
			y.assume(hr, true)
			if y.facts.bad {
				continue
			}
			if !d.h.prove(y.facts, []*Term{mq, mr}, func(f *Facts) bool {
				a, b := renorm(f, mq), renorm(f, mr)
				return f.eval(renorm(f, tEq(a, b))) == 0 || mapDisjoint(a, b) || newSince(li, a, b) || newSince(li, b, a)
			}) {
				return "two nodes share one list of children" + pathNote(Exit{st: y})
			}
		}
	}
	return ""
}

func (R *Report) dictRebuilt() {
	h := R.harness("words-after-loading", "Items.BinaryReadFrom")
	h.noChk = true
	h.run(func() {
		xs, _, _, recv := h.codecRun(codec{pkg: idxPkg, typ: "Items"}, "BinaryReadFrom")
		d := &dict{h: h, T: h.mustType(idxPkg, "Items"), recv: recv}
		for _, x := range h.okExits(xs) {
			list, _ := d.itemList(x.st)
			n := d.next(x.st)
			h.must(x, "the nodes read are not all there is in the list of nodes", []*Term{list, n}, h.intEq(tLen(list), n))
		}
	})
	h = R.harness("words-after-loading", "Index.BinaryReadFrom")
	h.noChk = true
	h.e.deep = 3
	h.run(func() {
		d := &dict{h: h, T: h.mustType(idxPkg, "Index"), node: h.mustType(idxPkg, "Node")}
		hook := &codecHook{h: h, root: d.T}
		h.e.hook = func(e *Engine, fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, args []*Term, resT *types.Tuple) (bool, []Exit) {
			if ok, xs := textCalls(e, fr, st, site, name, fn, args, resT); ok {
				return ok, xs
			}
			ok, xs := hook.call(e, fr, st, site, name, fn, args, resT)
			if ok && strings.HasSuffix(name, "Items).BinaryReadFrom") {
				for _, x := range xs {
					if x.st != nil {
						d.afterRead(x.st)
					}
				}
			}
			return ok, xs
		}
		d.recv = h.ptr("index", d.T)
		d.st = h.start()
		h.wellFormed(d.st, d.recv, d.T)
		fn := h.mustMethod(idxPkg, "Index", "BinaryReadFrom")
		a := param("stream", fn.Params[1].Type())
		d.st.assume(tEq(a, tNil()), false)
		xs := h.okExits(h.meth(d.st, d.T, d.recv, "BinaryReadFrom", a))
		h.e.hook = textCalls
		h.e.unroll = 4
		done := map[rebuiltKey]*rebuiltLoop{}
		for _, x := range xs {
			h.paths++
			d.rebuilt(x, done)
		}
	})
}

// rebuiltLoop: what a loop does to the words found and to their number.
type rebuiltLoop struct {
	empties, fills, counts bool
	k                      *Term // place of the node of this iteration
	down                   bool  // from the last node to the first
	why, cwhy              string
}

type rebuiltKey struct {
	li           *LoopInfo
	final, count *Term
}

// afterRead: the list of nodes just read is in full use, and its first entry
// stands for the root.
func (d *dict) afterRead(st *State) {
	list, _ := d.itemList(st)
	st.assume(tEqInt(tLen(list), d.next(st)), true)
	st.assume(tLe(tInt(1), tLen(list)), true)
	st.assume(tLe(tLen(list), tInt(1<<31)), true)
	st.assume(tEqInt(d.listField(st, tInt(0), "Variants"), tInt(0)), true)
}

// counted: the number of words when an iteration begins, and when it ends.
func (d *dict) counted(st *State, li *LoopInfo, b LoopBack) (c0, c1 *Term) {
	for i, v := range li.vars {
		if v.head == d.total && i < len(b.updates) {
			return v.head, b.updates[i]
		}
	}
	return d.count(st, li.head.mem), d.count(st, b.st.mem)
}

func (d *dict) examine(li *LoopInfo, idT, letT types.Type) *rebuiltLoop {
	h := d.h
	r := &rebuiltLoop{}
	q, s := param("q", idT), param("s", letT)
	q2 := param("q2", idT)
	// neutral?
	neutral, same, empty := true, true, true
	for _, b := range li.backs {
		st := b.st.clone()
		d.afterRead(st)
		newMaps(li, st)
		if neutral && d.sameWords(li, st, li.head.mem, b.st.mem, q, s, nil, nil) != "" {
			neutral = false
		}
		if empty && !d.staysEmpty(li, st, b.st.mem, q, s) {
			empty = false
		}
		c0, c1 := d.counted(st, li, b)
		if same && !h.prove(st.facts, []*Term{c0, c1}, h.intEq(c0, c1)) {
			same = false
		}
		if w := d.own(li, st, q, q2); w != "" {
			r.why = w
			return r
		}
	}
	r.empties, r.fills, r.counts = !neutral && empty, !neutral && !empty, !same
	if !r.fills && !r.counts {
		return r
	}
	var why0, cwhy0 string
	for i, k := range []func(n *Term) *Term{
		func(*Term) *Term { return li.it },
		func(*Term) *Term { return tAddK(li.it, 1) },
		func(n *Term) *Term { return tAddK(tSub(n, li.it), -1) },
		func(n *Term) *Term { return tSub(n, li.it) },
	} {
		if i == 1 {
			why0, cwhy0 = r.why, r.cwhy
		}
		r.why, r.cwhy = "", ""
		r.k, r.down = k(d.next(li.head)), i >= 2
		for _, b := range li.backs {
			d.examineNode(li, b, r, q, s)
		}
		if r.why == "" && r.cwhy == "" {
			return r
		}
	}
	r.why, r.cwhy = why0, cwhy0
	return r
}

// staysEmpty: when no word is known at the beginning of the iteration none is
// at its end.
func (d *dict) staysEmpty(li *LoopInfo, st *State, m1 *Mem, q, s *Term) bool {
	y := st.clone()
	y.mem = d.with(m1)
	m, _ := d.childMaps(y)
	if m == nil {
		return false
	}
	for _, c := range keyCases(li, y, li.head.mem, m, q) {
		_, not := d.look(c, li.head.mem, q, oneLetter(s))
		for _, o := range not {
			is, _ := d.look(o.st, m1, q, oneLetter(s))
			for _, b := range is {
				if !d.h.contra(b.x.st.facts) {
					return false
				}
			}
		}
	}
	return true
}

// examineNode: the node at place k is found in the end, and counted, and no
// other one is touched.
func (d *dict) examineNode(li *LoopInfo, b LoopBack, r *rebuiltLoop, q, s *Term) {
	h := d.h
	base := b.st.clone()
	d.afterRead(base)
	newMaps(li, base)
	root, other := base.clone(), base.clone()
	root.assume(tEqInt(r.k, tInt(0)), true)
	other.assume(tLt(tInt(0), r.k), true)
	other.assume(tLt(r.k, d.next(other)), true)
	if r.fills && !root.facts.bad && r.why == "" {
		r.why = d.sameWords(li, root, li.head.mem, b.st.mem, q, s, nil, nil)
	}
	if r.fills && !other.facts.bad && r.why == "" {
		p, l := d.listField(other, r.k, "Parent"), d.listField(other, r.k, "Letter")
		// no two nodes of one parent and letter were ever made
		_, news := d.look(other, li.head.mem, p, oneLetter(l))
		for _, z := range news {
			is, not := d.look(z.st, b.st.mem, p, oneLetter(l))
			for _, y := range not {
				if r.why == "" && !h.contra(y.st.facts) {
					r.why = "a node read is not found from its parent" + pathNote(y)
				}
			}
			for _, y := range is {
				if r.why == "" && !h.prove(y.x.st.facts, []*Term{y.id, r.k}, h.intEq(y.id, r.k)) {
					r.why = "another node is found in place of the one read" + pathNote(y.x)
				}
			}
		}
		if r.why == "" {
			r.why = d.sameWords(li, other, li.head.mem, b.st.mem, q, s, p, l)
		}
	}
	for i, st := range []*State{root, other} {
		if !r.counts || st.facts.bad || r.cwhy != "" {
			continue
		}
		c0, c1 := d.counted(st, li, b)
		v := d.listField(st, r.k, "Variants")
		for _, has := range []bool{false, true} {
			z := st.clone()
			z.assume(tEqInt(v, tInt(0)), !has)
			more := int64(0)
			if has {
				more = 1
			}
			if i == 0 && has || z.facts.bad {
				continue
			}
			if !h.prove(z.facts, []*Term{c0, c1}, h.intEq(c1, tAddK(c0, more))) {
				r.cwhy = "the number of words does not count the nodes having variants" + pathNote(Exit{st: z})
			}
		}
	}
}

func (d *dict) rebuilt(x Exit, done map[rebuiltKey]*rebuiltLoop) {
	h := d.h
	idT := h.mustMethod(idxPkg, "Index", "GetItem").Params[1].Type()
	letT := types.Typ[types.Rune]
	q, s := param("q", idT), param("s", letT)
	var filled, counted bool
	d.final = nil
	d.total = d.count(x.st, x.st.mem)
	if m, _ := d.childMaps(x.st); m != nil && m.op == OMakeMap {
		d.final = m
	}
	var none *Mem // a memory in which no word is known
	noneKnown := func(st *State, m *Mem) string {
		is, _ := d.look(st, m, q, oneLetter(s))
		for _, b := range is {
			if h.contra(b.x.st.facts) {
				continue
			}
			if none != nil && d.sameWords(nil, st, none, m, q, s, nil, nil) == "" {
				return ""
			}
			return "words are known which the data read does not have" + pathNote(b.x)
		}
		return ""
	}
	check := func(li *LoopInfo, r *rebuiltLoop) {
		n := d.next(x.st)
		// every node is reached: none is left out at first, nor at the end
		y := x
		y.st = x.st.clone()
		d.afterRead(y.st)
		first := substMany(r.k, map[*Term]*Term{li.it: tInt(0)})
		h.must(y, "nodes read are left out at the beginning", []*Term{first}, func(f *Facts) bool {
			if r.down {
				return f.proveLe(tAddK(n, -1), renorm(f, first))
			}
			return f.proveLe(renorm(f, first), tInt(1))
		})
		h.must(y, "not every node read is looked at", []*Term{r.k}, func(f *Facts) bool {
			if r.down {
				return f.proveLe(renorm(f, r.k), tInt(0))
			}
			return f.proveLe(n, renorm(f, r.k))
		})
	}
	for _, e := range eventsSince(x.st.ev, nil) {
		if e.kind != "rep" {
			continue
		}
		li := e.loop
		key := rebuiltKey{li, d.final, d.total}
		r := done[key]
		if r == nil {
			r = d.examine(li, idT, letT)
			done[key] = r
			if r.why != "" {
				h.fail(r.why, li.loop.header.Instrs[0].Pos())
			}
			if r.cwhy != "" {
				h.fail(r.cwhy, li.loop.header.Instrs[0].Pos())
			}
		}
		if r.why != "" || r.cwhy != "" {
			return
		}
		if r.empties && !filled {
			if w := noneKnown(x.st.clone(), li.entry.mem); w != "" {
				h.fail(w, e.pos)
			}
			none = li.head.mem
		}
		if r.fills || r.empties && filled {
			if filled {
				h.fail("nodes are listed twice", e.pos)
			}
			filled = true
			if w := noneKnown(x.st.clone(), li.entry.mem); w != "" {
				h.fail(w, e.pos)
			}
			check(li, r)
			if w := d.sameWords(nil, x.st, li.head.mem, x.st.mem, q, s, nil, nil); w != "" {
				h.fail("after listing the nodes "+w, x.pos)
			}
		}
		if r.counts {
			if counted {
				h.fail("words are counted twice", e.pos)
			}
			counted = true
			c := d.count(x.st, li.entry.mem)
			end := d.count(x.st, li.head.mem)
			for _, v := range li.vars {
				if v.head == d.total {
					c, end = v.init, v.head
				}
			}
			h.must(x, "the words of the index before are counted", []*Term{c}, h.intEq(c, tInt(0)))
			if !r.fills {
				check(li, r)
			}
			h.must(x, "the number of words changes after counting", []*Term{end, d.total}, h.intEq(end, d.total))
		}
	}
	if !filled {
		h.fail("the words read are not made known"+pathNote(x), x.pos)
	}
	if !counted {
		h.fail("the words read are not counted"+pathNote(x), x.pos)
	}
}
