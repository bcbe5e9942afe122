package main

// The dictionary: words added are found, and nothing else changes.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const idxPkg = "internal/index"

type dict struct {
	final, total *Term // lists of children, and number of words, in the end (words-after-loading)
	h            *H
	T            *types.Named // Index
	node         *types.Named
	recv         *Term
	st           *State

	other *Term // another node
}

// wellFormed assumes what New establishes: pointers and maps inside the index
// are there, and the next node ID is within the list of items.
func (h *H) wellFormed(st *State, addr *Term, T types.Type) {
	u, ok := T.Underlying().(*types.Struct)
	if !ok {
		return
	}
	var list, next *Term
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		fa := tFieldAddr(addr, i, types.NewPointer(ft))
		switch t := ft.Underlying().(type) {
		case *types.Pointer, *types.Map:
			st.assume(tEq(load(st.facts, st.mem, fa, ft), tNil()), false)
		case *types.Struct:
			h.wellFormed(st, fa, ft)
		case *types.Slice:
			if n, ok := t.Elem().(*types.Named); ok && n.Obj().Name() == "Item" {
				list = load(st.facts, st.mem, fa, ft)
			}
		}
		if n, ok := ft.(*types.Named); ok && n.Obj().Name() == "ID" {
			next = load(st.facts, st.mem, fa, ft)
		}
	}
	if list != nil && next != nil {
		st.assume(tLe(tInt(1), next), true)
		st.assume(tLe(next, tLen(list)), true)
		st.assume(tLe(next, tInt(1<<31)), true)
	}
}

func (h *H) dict() *dict {
	d := &dict{h: h, T: h.mustType(idxPkg, "Index"), node: h.mustType(idxPkg, "Node")}
	d.recv = h.ptr("index", d.T)
	d.st = h.start()
	h.wellFormed(d.st, d.recv, d.T)
	return d
}

// letters: a list of n unknown letters.
func letters(n int) *Term {
	T := types.NewSlice(types.Typ[types.Rune])
	args := []*Term{tNil()}
	for i := 0; i < n; i++ {
		args = append(args, param(fmt.Sprintf("letter%d", i), types.Typ[types.Rune]))
	}
	return mk(OAppend, T, true, int64(n), "arg", nil, initMem(), nil, args...)
}

// nodeID: the identifier of the node returned.
func (d *dict) nodeID(x Exit, n *Term) (out []Exit) {
	v := n
	for v.op == OIface {
		v = v.args[0]
	}
	if v.typ == nil || v.op == ONil {
		return nil
	}
	p, ok := v.typ.Underlying().(*types.Pointer)
	if !ok || !types.Identical(p.Elem(), d.node) {
		d.h.fail("the node returned is not a node of the index"+pathNote(x), x.pos)
		return nil
	}
	for _, y := range d.h.noPanic(d.h.meth(x.st, d.node, v, "Id"), "Id") {
		y.pos = x.pos
		out = append(out, y)
	}
	return
}

type found struct {
	x    Exit
	id   *Term
	node *Term
}

// outcome runs a method returning a node and an error.
func (d *dict) outcome(st *State, name string, args ...*Term) (ok []found, bad []Exit) {
	for _, x := range d.h.noPanic(d.h.meth(st, d.T, d.recv, name, args...), name) {
		e := x.res[len(x.res)-1]
		good, fail := d.h.branch(x.st, tEq(e, tNil()))
		if fail != nil {
			y := x
			y.st = fail
			bad = append(bad, y)
		}
		if good != nil {
			y := x
			y.st = good
			if x.res[0].op == ONil {
				if !d.h.contra(good.facts) {
					d.h.fail(name+" returns no node and no error"+pathNote(x), x.pos)
				}
				continue
			}
			for _, z := range d.nodeID(y, x.res[0]) {
				ok = append(ok, found{z, z.res[0], x.res[0]})
			}
		}
	}
	return
}

// textCalls: text made for messages by functions that change nothing is left
// unexamined.
func textCalls(e *Engine, fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, args []*Term, resT *types.Tuple) (bool, []Exit) {
	if fn == nil || !e.P.inRepo(fn) || resT.Len() != 1 || !types.Identical(resT.At(0).Type(), types.Typ[types.String]) {
		return false, nil
	}
	if len(e.P.modTypes(fn)) > 0 {
		return false, nil
	}
	return true, []Exit{{kind: xReturn, st: st, res: e.opaqueResults(fr, site, name, resT)}}
}

func (h *H) newDict(f func(d *dict)) {
	h.e.unroll, h.e.deep = 4, 3
	h.e.hook = textCalls
	h.noChk = true
	h.run(func() { f(h.dict()) })
}

// known assumes that the entry for letter among the children of q is a node.
func (d *dict) known(st *State, q, letter *Term) {
	m, vt := d.childMaps(st)
	if m == nil {
		return
	}
	mq, _ := mapLookup(st.facts, st.mem, m, q, vt)
	et := vt.Underlying().(*types.Map).Elem()
	v, _ := mapLookup(st.facts, st.mem, mq, letter, et)
	st.assume(tLt(v, d.next(st)), true)
}

// childMaps: the map of the maps of children.
func (d *dict) childMaps(st *State) (m *Term, vt types.Type) {
	u := d.T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if t, ok := ft.Underlying().(*types.Map); ok {
			if _, ok := t.Elem().Underlying().(*types.Map); ok {
				m, vt = load(st.facts, st.mem, tFieldAddr(d.recv, i, types.NewPointer(ft)), ft), t.Elem()
			}
		}
	}
	return
}

// apart: the children of different nodes are listed in different maps.
func (d *dict) apart(st *State, p, q *Term) []*State {
	if p == q {
		return []*State{st}
	}
	m, vt := d.childMaps(st)
	if m == nil {
		return []*State{st}
	}
	mp, hp := mapLookup(st.facts, st.mem, m, p, vt)
	mq, hq := mapLookup(st.facts, st.mem, m, q, vt)
	var out []*State
	for i := 0; i < 4; i++ {
		s := st.clone()
		s.assume(hp, i&1 == 0)
		s.assume(hq, i&2 == 0)
		if i == 0 {
			s.assume(tEq(mp, mq), false)
		}
		out = append(out, s)
	}
	return out
}

// chains distinguishes how much of the word is there already below p; the
// nodes along it are different ones, listed in different maps, and there is
// nothing below a node not made yet.
func (d *dict) chains(st *State, p, w *Term, n int) []*State {
	if n == 0 {
		return []*State{st}
	}
	m, vt := d.childMaps(st)
	if m == nil {
		return []*State{st}
	}
	_, at := mapLookup(st.facts, st.mem, m, d.next(st), vt)
	st.assume(at, false)
	st.assume(tLt(p, d.next(st)), true)
	et := vt.Underlying().(*types.Map).Elem()
	var out []*State
	mp, _ := mapLookup(st.facts, st.mem, m, p, vt)
	q, has := mapLookup(st.facts, st.mem, mp, w.args[1], et)
	none := st.clone()
	none.assume(has, false)
	out = append(out, none)
	there := st.clone()
	there.assume(has, true)
	there.assume(tLt(p, q), true)
	there.assume(tLt(q, d.next(st)), true)
	return append(out, d.apart(there, p, q)...)
}

// undisturbed: adding w below p leaves s below q as it was.
func (d *dict) undisturbed(st *State, p, w, q, s *Term) {
	h := d.h
	was, wasNot := d.outcome(st, "FetchFromItem", q, s)
	for _, o := range was {
		ok, _ := d.outcome(o.x.st, "AddToNode", p, w)
		for _, a := range ok {
			still, miss := d.outcome(a.x.st, "FetchFromItem", q, s)
			for _, y := range miss {
				if !h.contra(y.st.facts) {
					h.fail("adding a word makes another one unknown"+pathNote(y), y.pos)
				}
			}
			for _, b := range still {
				h.must(b.x, "adding a word makes another one a different node", []*Term{o.id, b.id}, h.intEq(o.id, b.id))
			}
		}
	}
	for _, o := range wasNot {
		st := o.st.clone()
		if p == q {
			st.assume(tEqInt(w.args[1], s.args[1]), false)
		}
		ok, _ := d.outcome(st, "AddToNode", p, w)
		for _, a := range ok {
			still, _ := d.outcome(a.x.st, "FetchFromItem", q, s)
			for _, b := range still {
				if !h.contra(b.x.st.facts) {
					h.fail("adding a word makes another one known"+pathNote(b.x), b.x.pos)
				}
			}
		}
	}
}

func propDict(R *Report) {
	R.P.initCaps()
	idT := func(h *H) types.Type { return h.mustMethod(idxPkg, "Index", "AddToNode").Params[1].Type() }
	for n := 1; n <= 2; n++ {
		n := n
		h := R.harness("added-is-found", fmt.Sprintf("Index, %d letters", n))
		h.newDict(func(d *dict) {
			p, w := param("parent", idT(h)), letters(n)
			var ok []found
			var bad []Exit
			for _, st := range d.chains(d.st, p, w, n-1) {
				o, b := d.outcome(st, "AddToNode", p, w)
				ok, bad = append(ok, o...), append(bad, b...)
			}
			if len(ok) == 0 {
				h.fail("nothing can be added", token.NoPos)
			}
			for _, a := range ok {
				again, miss := d.outcome(a.x.st, "FetchFromItem", p, w)
				for _, y := range miss {
					if !h.contra(y.st.facts) {
						h.fail("what was just added is not found"+pathNote(y), y.pos)
					}
				}
				for _, b := range again {
					h.must(b.x, "fetching what was just added gives another node", []*Term{a.id, b.id}, h.intEq(a.id, b.id))
				}
			}
			if n > 1 {
				return
			}
			// refused only below an unknown node, or when the entry points to one
			for _, y := range bad {
				h.paths++
				z := y.st.clone()
				z.assume(tEqInt(p, tInt(0)), true)
				for _, e := range eventsSince(y.st.ev, nil) {
					if e.kind == "mapget" && len(e.res) > 0 && isIntTerm(e.res[0]) {
						z.assume(tLt(e.res[0], d.next(y.st)), true)
					}
				}
				if !z.facts.bad && !h.contra(z.facts) {
					h.fail("a word below the root is refused"+pathNote(y), y.pos)
				}
			}
		})
	}
	for _, same := range []bool{true, false} {
		same := same
		h := R.harness("found-after-adding", map[bool]string{true: "Index, below the same node", false: "Index, below another node"}[same])
		h.newDict(func(d *dict) {
			p, w := param("parent", idT(h)), letters(1)
			q, s := param("other", idT(h)), mk(OAppend, w.typ, true, 1, "arg2", nil, initMem(), nil, tNil(), param("another", types.Typ[types.Rune]))
			if same {
				q = p
			} else {
				d.st.assume(tEqInt(p, q), false)
			}
			for _, st := range d.apart(d.st, p, q) {
				d.known(st, q, s.args[1])
				d.undisturbed(st, p, w, q, s)
			}
		})
	}
	R.dictSteps(idT)
	R.dictCounts(idT)
	R.dictReaders(idT)
	R.dictChildren(idT)
	R.dictGet(idT)
	R.dictUnknown(idT)
	R.dictStrings()
	R.dictWord()
	for _, name := range []string{"AddToNode", "FetchFromItem"} {
		name := name
		h := R.harness("never-panics", "Index."+name)
		h.newDict(func(d *dict) {
			h.noChk = false
			p, w := param("parent", idT(h)), letters(1)
			if m, vt := d.childMaps(d.st); m != nil {
				v, has := mapLookup(d.st.facts, d.st.mem, m, p, vt)
				for _, there := range []bool{true, false} {
					st := d.st.clone()
					st.assume(has, there)
					if there {
						st.assume(tEq(v, tNil()), false)
					}
					ok, bad := d.outcome(st, name, p, w)
					h.paths += len(ok) + len(bad)
				}
			}
		})
	}
}

// dictWord: a node spells the letters that lead to it.
func (R *Report) dictWord() {
	root := R.harness("node-spells-its-word", "Node.Word of the root")
	root.newDict(func(d *dict) {
		for _, x := range root.noPanic(root.meth(d.st, d.T, d.recv, "GetItem", tInt(0)), "GetItem") {
			for _, y := range root.noPanic(root.meth(x.st, d.node, x.res[0], "Word"), "Word") {
				root.must(y, "the root does not spell the empty word", []*Term{y.res[0]}, func(f *Facts) bool {
					return root.same(f, y.res[0], tStr(""))
				})
			}
		}
	})
	for n := 1; n <= 2; n++ {
		n := n
		h := R.harness("node-spells-its-word", fmt.Sprintf("Node.Word, %d letters", n))
		h.newDict(func(d *dict) {
			w := letters(n)
			st := d.st
			if n > 1 {
				st = d.chains(st, tInt(0), w, n-1)[0]
			} else {
				_, bad := d.outcome(st, "FetchFromItem", tInt(0), w)
				if len(bad) == 0 {
					h.fail("every word is known", token.NoPos)
					return
				}
				st = bad[0].st
			}
			ok, _ := d.outcome(st, "AddToNode", tInt(0), w)
			h.e.hook = nil
			want := mk(OConv, types.Typ[types.String], false, 0, "string(rune)", nil, nil, nil, w.args[n])
			for i := n - 1; i > 0; i-- {
				want = tConcat(mk(OConv, types.Typ[types.String], false, 0, "string(rune)", nil, nil, nil, w.args[i]), want, types.Typ[types.String])
			}
			for _, a := range ok {
				v := a.node
				for v.op == OIface {
					v = v.args[0]
				}
				for _, x := range h.noPanic(h.meth(a.x.st, d.node, v, "Word"), "Word") {
					h.must(x, "a node does not spell the word it was made for", []*Term{x.res[0]}, func(f *Facts) bool {
						return h.same(f, x.res[0], want)
					})
				}
			}
		})
	}
}

// dictSteps: two letters are the first letter and then the second, for adding
// and for looking up.
func (R *Report) dictSteps(idT func(h *H) types.Type) {
	for _, name := range []string{"AddToNode", "FetchFromItem"} {
		name := name
		h := R.harness("letter-by-letter", "Index."+name)
		h.newDict(func(d *dict) {
			p, w := param("parent", idT(h)), letters(2)
			one := func(i int) *Term {
				return mk(OAppend, w.typ, true, 1, fmt.Sprintf("arg%d", i), nil, initMem(), nil, tNil(), w.args[1+i])
			}
			for _, st := range d.chains(d.st, p, w, 1) {
				whole, miss := d.outcome(st, name, p, w)
				for _, a := range whole {
					s := st.clone()
					s.facts = a.x.st.facts
					first, bad := d.outcome(s, name, p, one(0))
					for _, b := range first {
						second, bad2 := d.outcome(b.x.st, name, b.id, one(1))
						bad = append(bad, bad2...)
						for _, c := range second {
							h.must(c.x, "a word taken letter by letter leads to another node", []*Term{a.id, c.id}, h.intEq(a.id, c.id))
						}
					}
					for _, y := range bad {
						if !h.contra(y.st.facts) {
							h.fail("a word taken letter by letter is refused, taken whole it is not"+pathNote(y), y.pos)
						}
					}
				}
				for _, y := range miss {
					s := st.clone()
					s.facts = y.st.facts
					first, _ := d.outcome(s, name, p, one(0))
					for _, b := range first {
						second, _ := d.outcome(b.x.st, name, b.id, one(1))
						for _, c := range second {
							if !h.contra(c.x.st.facts) {
								h.fail("a word taken whole is refused, taken letter by letter it is not"+pathNote(c.x), c.x.pos)
							}
						}
					}
				}
			}
		})
	}
}

// dictCounts: a word not known before makes one node a letter and no word yet.
func (R *Report) dictCounts(idT func(h *H) types.Type) {
	h := R.harness("counts", "Index.AddToNode")
	h.newDict(func(d *dict) {
		p, w := param("parent", idT(h)), letters(1)
		var run func(st *State, names []string, vals []*Term, f func(st *State, vals []*Term))
		run = func(st *State, names []string, vals []*Term, f func(st *State, vals []*Term)) {
			if len(names) == 0 {
				f(st, vals)
				return
			}
			for _, x := range h.noPanic(h.meth(st, d.T, d.recv, names[0]), names[0]) {
				run(x.st, names[1:], append(vals[:len(vals):len(vals)], x.res[0]), f)
			}
		}
		counts := []string{"NodesCount", "WordsCount"}
		run(d.st, counts, nil, func(st *State, was []*Term) {
			d.known(st, p, w.args[1])
			there, absent := d.outcome(st, "FetchFromItem", p, w)
			each := func(st *State, more int64) {
				ok, _ := d.outcome(st, "AddToNode", p, w)
				for _, a := range ok {
					run(a.x.st, counts, nil, func(st *State, now []*Term) {
						x := a.x
						x.st = st
						h.must(x, "the number of nodes is wrong after adding a word", []*Term{was[0], now[0]}, h.intEq(now[0], tAddK(was[0], more)))
						h.must(x, "the number of words changes before a word has a tag set", []*Term{was[1], now[1]}, h.intEq(now[1], was[1]))
					})
				}
			}
			for _, o := range there {
				each(o.x.st, 0)
			}
			for _, o := range absent {
				each(o.st, 1)
			}
		})
	})
}

// dictReaders: looking up changes nothing, for words of any length.
func (R *Report) dictReaders(idT func(h *H) types.Type) {
	for _, name := range []string{"FetchFromItem", "FetchRunes", "FetchString", "Get", "GetItem", "GetChildrenMap", "Children", "WordsCount", "NodesCount", "TagSetIndex", "Tags"} {
		name := name
		h := R.harness("lookups-change-nothing", "Index."+name)
		h.newDict(func(d *dict) {
			h.e.unroll = 0
			fn := h.mustMethod(idxPkg, "Index", name)
			args := freshParams(fn)
			d.lookup(d.T, d.recv, name, args[1:])
		})
	}
	for _, name := range []string{"Id", "Word", "TagSets", "String"} {
		name := name
		h := R.harness("lookups-change-nothing", "Node."+name)
		h.newDict(func(d *dict) {
			h.e.unroll = 0
			n := h.ptr("node", d.node)
			h.wellFormed(d.st, n, d.node)
			d.lookup(d.node, n, name, nil)
		})
	}
}

func (d *dict) lookup(T types.Type, recv *Term, name string, args []*Term) {
	h := d.h
	xs, _ := returns(h.meth(d.st, T, recv, name, args...))
	for _, x := range xs {
		h.paths++
		if w := writesOutside(x, d.st.mem); len(w) > 0 && !h.contra(x.st.facts) {
			h.fail("looking up "+w[0]+pathNote(x), x.pos)
		}
	}
}

// dictChildren: the children of a node are the nodes fetched below it, each
// under its letter.
func (R *Report) dictChildren(idT func(h *H) types.Type) {
	for _, name := range []string{"GetChildrenMap", "Children"} {
		for _, listed := range []bool{true, false} {
			name, listed := name, listed
			h := R.harness("children-are-what-is-fetched", fmt.Sprintf("Index.%s, listed %v", name, listed))
			h.newDict(func(d *dict) {
				id := tInt(0)
				var args []*Term
				if name == "GetChildrenMap" {
					id = param("parent", idT(h))
					args = append(args, id)
				}
				all, vt := d.childMaps(d.st)
				if all == nil {
					panic(abortErr{"no map of children in the index"})
				}
				kids, has := mapLookup(d.st.facts, d.st.mem, all, id, vt)
				d.st.assume(has, listed)
				kids, _ = mapLookup(d.st.facts, d.st.mem, all, id, vt)
				for _, x := range h.noPanic(h.meth(d.st, d.T, d.recv, name, args...), name) {
					h.paths++
					if h.contra(x.st.facts) {
						continue
					}
					if why := d.childrenOf(x, x.res[0], kids); why != "" {
						h.fail(why+pathNote(x), x.pos)
					}
				}
			})
		}
	}
}

// dictGet: an identifier stands for its node if there is one.
func (R *Report) dictGet(idT func(h *H) types.Type) {
	h := R.harness("identifiers-stand-for-nodes", "Index.Get")
	h.newDict(func(d *dict) {
		id := param("id", idT(h))
		ok, bad := d.outcome(d.st, "Get", id)
		next := d.next(d.st)
		for _, a := range ok {
			h.must(a.x, "a node is given which was not made", []*Term{id, next}, func(f *Facts) bool { return f.proveLt(renorm(f, id), renorm(f, next)) })
			h.must(a.x, "another node is given", []*Term{id, a.id}, h.intEq(id, a.id))
			n := a.node
			for n.op == OIface {
				n = n.args[0]
			}
			h.must(a.x, "a node of another index is given", nil, func(f *Facts) bool { own := d.indexOf(a.x.st, n); return own == d.recv })
		}
		for _, y := range bad {
			h.must(y, "a node is refused", []*Term{id, next}, func(f *Facts) bool { return f.proveLe(renorm(f, next), renorm(f, id)) })
		}
	})
}

// dictUnknown: nothing is added below a node which was not made.
func (R *Report) dictUnknown(idT func(h *H) types.Type) {
	h := R.harness("identifiers-stand-for-nodes", "Index.AddToNode")
	h.newDict(func(d *dict) {
		p := param("parent", idT(h))
		d.st.assume(tLe(tInt(1), p), true)
		d.st.assume(tLe(d.next(d.st), p), true)
		for _, n := range []int{1, 2} {
			ok, _ := d.outcome(d.st, "AddToNode", p, letters(n))
			h.paths++
			for _, a := range ok {
				if !h.contra(a.x.st.facts) {
					h.fail("a word is added below a node which was not made"+pathNote(a.x), a.x.pos)
				}
			}
		}
	})
}

// childrenOf: map m made on the way to x has the letters of kids and their
// nodes.
func (d *dict) childrenOf(x Exit, m, kids *Term) string {
	h := d.h
	o := &optimize{dict: d, x: x}
	o.gather(eventsSince(x.st.ev, d.st.ev), nil, 0)
	ss, ok := o.sets(m)
	if m.op != ONil && !ok {
		return "what is listed cannot be told"
	}
	var l *optLoop
	for _, s := range ss {
		if l != nil && l != s.l {
			return "the children are listed in more than one way"
		}
		l = s.l
	}
	if l == nil {
		if d.st.facts.eval(tEq(kids, tNil())) == 1 || h.prove(x.st.facts, []*Term{kids}, func(f *Facts) bool {
			return f.eval(tEq(renorm(f, kids), tNil())) == 1 || f.proveLe(mapLen(d.st.mem, renorm(f, kids)), tInt(0))
		}) {
			return ""
		}
		return "children are not listed"
	}
	if l.parent != nil {
		return "what is listed cannot be told"
	}
	var next *Term
	for j := range l.li.backs {
		b := &l.li.backs[j]
		if h.contra(b.st.facts) {
			continue
		}
		n := 0
		for _, s := range ss {
			if s.back != b {
				continue
			}
			n++
			k := s.key
			if k.op != OCall || k.obj != &nextInfo || k.k != 1 || k.args[0].op != OPure || k.args[0].args[0] != kids && b.st.facts.eval(tEq(k.args[0].args[0], kids)) != 1 {
				return "a child is listed under a letter which is not its own"
			}
			if next != nil && next != k {
				return "the children are listed in more than one way"
			}
			next = k
			val := mk(OCall, d.idType(kids), false, 2, k.s, &nextInfo, nil, nil, k.args...)
			at, _ := mapLookup(b.st.facts, l.li.head.mem, kids, k, nil)
			got := s.val
			for got.op == OIface {
				got = got.args[0]
			}
			if b.st.facts.eval(tEq(got, tNil())) == 1 {
				return "a letter is listed without its node"
			}
			for _, y := range d.nodeID(Exit{st: b.st, pos: x.pos}, s.val) {
				id := y.res[0]
				if id != val && id != at && !y.st.facts.proveEqInt(id, val) && !y.st.facts.proveEqInt(id, at) {
					return "another node is listed under a letter"
				}
			}
			if own := d.indexOf(b.st, got); own == nil || own != d.recv && b.st.facts.eval(tEq(own, d.recv)) != 1 {
				return "a node of another index is listed"
			}
		}
		if n == 0 {
			return "a child is left out"
		}
	}
	if next == nil {
		return "children are not listed"
	}
	more := mk(OCall, types.Typ[types.Bool], false, 0, next.s, &nextInfo, nil, nil, next.args...)
	if x.st.facts.eval(more) != 0 {
		return "the children are not gone through to the end"
	}
	return ""
}

func (d *dict) idType(kids *Term) types.Type {
	if kids.typ != nil {
		if t, ok := kids.typ.Underlying().(*types.Map); ok {
			return t.Elem()
		}
	}
	return types.Typ[types.Int]
}

// indexOf: the index a node belongs to.
func (d *dict) indexOf(st *State, node *Term) *Term {
	u, ok := d.node.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if p, ok := u.Field(i).Type().(*types.Pointer); ok && types.Identical(p.Elem(), d.T) {
			return load(st.facts, st.mem, tFieldAddr(node, i, types.NewPointer(p)), p)
		}
	}
	return nil
}

// dictStrings: words given as text are the words given as letters.
func (R *Report) dictStrings() {
	for _, n := range [][2]string{{"AddString", "AddRunes"}, {"FetchString", "FetchRunes"}} {
		n := n
		h := R.harness("text-as-letters", "Index."+n[0])
		h.newDict(func(d *dict) {
			word := param("word", types.Typ[types.String])
			root := h.mustMethod(idxPkg, "Index", map[string]string{"AddRunes": "AddToNode", "FetchRunes": "FetchFromItem"}[n[1]])
			h.e.hook = func(e *Engine, fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, args []*Term, resT *types.Tuple) (bool, []Exit) {
				if fn != root {
					return false, nil
				}
				s := st.clone()
				res := []*Term{}
				for i := 0; i < resT.Len(); i++ {
					res = append(res, mk(OPure, resT.At(i).Type(), true, int64(i), "word", nil, nil, nil, args...))
				}
				return true, []Exit{{kind: xReturn, st: s, res: res}}
			}
			for _, x := range h.noPanic(h.meth(d.st, d.T, d.recv, n[0], word), n[0]) {
				if x.res[0].op == ONil { // refused
					z := x.st.clone()
					z.assume(tLt(tInt(0), tLen(word)), true)
					h.paths++
					if !z.facts.bad && !h.contra(z.facts) {
						h.fail("a word is refused", x.pos)
					}
					continue
				}
				runes := mk(OPure, types.NewSlice(types.Typ[types.Rune]), false, 0, "runes", nil, nil, nil, word)
				want := []*Term{d.recv, tInt(0), runes}
				h.must(x, "the letters are not those of the word, or not below the root", nil, func(f *Facts) bool {
					r := renorm(f, x.res[0])
					if r.op != OPure || r.s != "word" || len(r.args) != len(want) {
						return false
					}
					for i := range want {
						if renorm(f, r.args[i]) != want[i] && !(isIntTerm(want[i]) && f.proveEqInt(renorm(f, r.args[i]), want[i])) {
							return false
						}
					}
					return true
				})
			}
		})
	}
}

// next: the next node ID of the index.
func (d *dict) next(st *State) *Term {
	var rec func(addr *Term, T types.Type) *Term
	rec = func(addr *Term, T types.Type) *Term {
		u := T.Underlying().(*types.Struct)
		var list bool
		var next *Term
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			fa := tFieldAddr(addr, i, types.NewPointer(ft))
			switch t := ft.Underlying().(type) {
			case *types.Struct:
				if r := rec(fa, ft); r != nil {
					return r
				}
			case *types.Slice:
				if n, ok := t.Elem().(*types.Named); ok && n.Obj().Name() == "Item" {
					list = true
				}
			}
			if n, ok := ft.(*types.Named); ok && n.Obj().Name() == "ID" {
				next = load(st.facts, st.mem, fa, ft)
			}
		}
		if list {
			return next
		}
		return nil
	}
	if t := rec(d.recv, d.T); t != nil {
		return t
	}
	panic(abortErr{"no list of items in the index"})
}

func init() {
	register("C19", propDict)
}
