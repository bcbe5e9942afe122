package main

// Listings: what a container enumerates is what it holds, all of it, once, in
// order.

import (
	"fmt"
	"go/types"
)

// level of loops: a listing is made of parts, one for each t < n; a part has
// count(t) elements.
type listing struct {
	h     *H
	n     *Term                                                         // number of parts
	count func(f *Facts, m *Mem, t *Term) *Term                         // elements of part t
	elem  func(x Exit, el, t, j *Term, note string)                     // checks element j of part t
	cond  func(f *Facts, m *Mem, t *Term) func(f *Facts) (is, not bool) // a part has one element or none
}

type enumLoop struct {
	li   *LoopInfo
	var_ int
}

// outer: the loop which keeps t in one of its variables.
func (l *listing) outer(evs []*Event, t *Term) (r *enumLoop) {
	for _, e := range evs {
		if e.kind != "rep" {
			continue
		}
		for i, v := range e.loop.vars {
			if v.head == t {
				return &enumLoop{e.loop, i}
			}
		}
	}
	return nil
}

// skips: some iterations add nothing.
func (lp *enumLoop) skips() bool {
	v := lp.li.vars[lp.var_]
	if v.mode == lvFree {
		return true
	}
	for i := range lp.li.backs {
		if lp.li.backs[i].updates[lp.var_] == v.head {
			return true
		}
	}
	return false
}

func freshIndex(name string) *Term { return param(name, types.Typ[types.Int]) }

// written: a list made is changed otherwise than by being added to.
func written(evs []*Event, from, to *Mem, res *Term) bool {
	for m := to; m != nil && m != from; m = m.prev {
		if m.kind != MStore {
			continue
		}
		switch rootOf(m.addr).op {
		case OAppend, OAppendSl, OCollect, OLoopVar:
			return true
		}
	}
	for _, e := range evs {
		if e.kind == "rep" {
			for i := range e.loop.backs {
				b := &e.loop.backs[i]
				if written(b.events, e.loop.head.mem, b.st.mem, res) {
					return true
				}
			}
		}
	}
	return false
}

// list decides a result made part by part.
func (l *listing) list(st *State, x Exit, what string) {
	h := l.h
	h.paths++
	if h.contra(x.st.facts) {
		return
	}
	res := x.res[0]
	et := elemType(res.typ)
	evs := eventsSince(x.st.ev, st.ev)
	if written(evs, st.mem, x.st.mem, res) {
		h.fail(what+": how the list is made cannot be decided"+pathNote(x), x.pos)
		return
	}
	lp := l.outer(evs, res)
	if lp == nil {
		// no part, or a single step
		l.flat(x, res, et, what)
		return
	}
	v := lp.li.vars[lp.var_]
	h.must(x, what+" may stop before the last part", []*Term{lp.li.it}, func(f *Facts) bool { return f.proveLe(renorm(f, l.n), renorm(f, lp.li.it)) })
	h.must(x, what+" starts with something in it", nil, func(f *Facts) bool { return f.proveEqInt(tLen(v.init), tInt(0)) })
	for i := range lp.li.backs {
		b := &lp.li.backs[i]
		u := b.updates[lp.var_]
		y := Exit{kind: xReturn, st: b.st.clone(), pos: x.pos}
		if h.contra(y.st.facts) {
			continue
		}
		t := lp.li.it
		h.must(y, what+" may go beyond the last part", []*Term{t}, func(f *Facts) bool { return f.proveLe(tAddK(t, 1), renorm(f, l.n)) })
		pieces, ok := piecesOf(u, v.head)
		if !ok {
			h.fail(what+" may lose what was listed before"+pathNote(y), x.pos)
			continue
		}
		l.part(y, pieces, t, et, what)
	}
}

// piece of a list: n elements next to one another.
type piece struct {
	n  *Term
	at func(f *Facts, j *Term) *Term
}

// piecesOf: what a list has on top of base.
func piecesOf(u, base *Term) (ps []piece, ok bool) {
	for ; u != base; u = u.args[0] {
		var p piece
		switch w := u; {
		case u.op == OAppend:
			for i := len(u.args) - 1; i > 0; i-- {
				e := u.args[i]
				ps = append([]piece{{tInt(1), func(*Facts, *Term) *Term { return e }}}, ps...)
			}
			continue
		case u.op == OCollect && u.k == 1 && len(u.args) > 3:
			p = piece{u.args[1], func(f *Facts, j *Term) *Term { return renorm(f, subst(w.args[3], w.args[2], j)) }}
		case u.op == OAppendSl:
			if qs, ok := piecesOf(u.args[1], nil); ok {
				ps = append(qs, ps...)
				continue
			}
			v, m := u.args[1], u.mem
			if v.op != OLoad && v.op != OParam && v.op != OMakeSlice || m == nil {
				return nil, false
			}
			et := elemType(v.typ)
			p = piece{tLen(v), func(f *Facts, j *Term) *Term { return load(f, m, tIndexAddr(v, j, types.NewPointer(et)), et) }}
		default:
			if n := toLin(tLen(u)); base == nil && n.isConst() && n.c == 0 {
				return ps, true
			}
			return nil, false
		}
		ps = append([]piece{p}, ps...)
	}
	return ps, true
}

// part decides what is added for part t.
func (l *listing) part(y Exit, ps []piece, t *Term, et types.Type, what string) {
	h := l.h
	n := tInt(0)
	for _, p := range ps {
		n = tAdd(n, p.n)
	}
	if l.cond != nil {
		c := l.cond(y.st.facts, y.st.mem, t)
		k := toLin(n)
		switch {
		case k.isConst() && k.c == 0:
			h.must(y, what+" may leave out an element", nil, func(f *Facts) bool { _, not := c(f); return not })
			return
		case k.isConst() && k.c == 1:
			h.must(y, what+" may have an element which does not belong there", nil, func(f *Facts) bool { is, _ := c(f); return is })
		default:
			h.fail(what+" may have an element more than once"+pathNote(y), y.pos)
			return
		}
	} else {
		want := tInt(1)
		if l.count != nil {
			want = l.count(y.st.facts, y.st.mem, t)
		}
		h.must(y, what+" may leave out elements or have them more than once", []*Term{n, want}, h.intEq(n, want))
	}
	l.elems(y, ps, func(k *Term) (*Term, *Term) { return t, k }, what)
}

// elems: each element is the one which belongs at its place.
func (l *listing) elems(y Exit, ps []piece, place func(k *Term) (t, j *Term), what string) {
	off := tInt(0)
	for _, p := range ps {
		z := y
		z.st = y.st.clone()
		j := freshIndex("j")
		z.st.assume(tLe(tInt(0), j), true)
		z.st.assume(tLt(j, p.n), true)
		if !z.st.facts.bad {
			t, k := place(tAdd(off, j))
			l.elem(z, p.at(z.st.facts, j), t, k, what)
		}
		off = tAdd(off, p.n)
	}
}

// flat: the whole result at once; there are parts of one element each.
func (l *listing) flat(x Exit, res *Term, et types.Type, what string) {
	h := l.h
	y := x
	y.st = x.st.clone()
	if h.prove(y.st.facts, nil, func(f *Facts) bool { return f.proveLe(renorm(f, tLen(res)), tInt(0)) }) {
		if l.count == nil && l.cond == nil {
			h.must(y, what+" may leave out elements", nil, func(f *Facts) bool { return f.proveLe(renorm(f, l.n), tInt(0)) })
			return
		}
		// empty: every part is
		t := freshIndex("t")
		y.st.assume(tLe(tInt(0), t), true)
		y.st.assume(tLt(t, l.n), true)
		if y.st.facts.bad || h.contra(y.st.facts) {
			return
		}
		if l.cond != nil {
			c := l.cond(y.st.facts, y.st.mem, t)
			h.must(y, what+" may leave out an element", nil, func(f *Facts) bool { _, not := c(f); return not })
			return
		}
		n := l.count(y.st.facts, y.st.mem, t)
		h.must(y, what+" may leave out elements", []*Term{n}, func(f *Facts) bool { return f.proveLe(renorm(f, n), tInt(0)) })
		return
	}
	if l.count != nil || l.cond != nil {
		h.fail(what+": how the list is made cannot be decided"+pathNote(x), x.pos)
		return
	}
	n := tLen(res)
	h.must(y, what+" may leave out elements or have them more than once", []*Term{n, l.n}, h.intEq(n, l.n))
	ps, ok := piecesOf(res, nil)
	if !ok && res.op == OMakeSlice {
		m := x.st.mem
		ps, ok = []piece{{n, func(f *Facts, j *Term) *Term { return load(f, m, tIndexAddr(res, j, types.NewPointer(et)), et) }}}, true
	}
	if !ok {
		h.fail(what+": how the list is made cannot be decided"+pathNote(x), x.pos)
		return
	}
	l.elems(y, ps, func(k *Term) (*Term, *Term) { return k, tInt(0) }, what)
}

// sum decides a result which adds up the counts of the parts.
func (l *listing) sum(st *State, x Exit, what string) {
	h := l.h
	h.paths++
	if h.contra(x.st.facts) {
		return
	}
	res := x.res[0]
	lp := l.outer(eventsSince(x.st.ev, st.ev), res)
	if lp == nil {
		h.must(x, what+" may be wrong", []*Term{res}, func(f *Facts) bool {
			return f.proveEqInt(renorm(f, res), tInt(0)) && f.proveLe(renorm(f, l.n), tInt(0))
		})
		return
	}
	v := lp.li.vars[lp.var_]
	h.must(x, what+" may not count the last part", []*Term{lp.li.it}, func(f *Facts) bool { return f.proveLe(renorm(f, l.n), renorm(f, lp.li.it)) })
	h.must(x, what+" may count too much", nil, func(f *Facts) bool { return f.proveEqInt(v.init, tInt(0)) })
	for i := range lp.li.backs {
		b := &lp.li.backs[i]
		u := b.updates[lp.var_]
		y := Exit{kind: xReturn, st: b.st.clone(), pos: x.pos}
		if h.contra(y.st.facts) {
			continue
		}
		t := lp.li.it
		h.must(y, what+" may count beyond the last part", []*Term{t}, func(f *Facts) bool { return f.proveLe(tAddK(t, 1), renorm(f, l.n)) })
		// in the order of the parts or from the last one on
		want := tAdd(v.head, l.count(y.st.facts, y.st.mem, t))
		back := tAdd(v.head, l.count(y.st.facts, y.st.mem, tSub(l.n, tAddK(t, 1))))
		if len(lp.li.backs) == 1 && h.prove(y.st.facts, []*Term{u, back}, h.intEq(u, back)) {
			continue
		}
		h.must(y, what+" may not be the number of elements", []*Term{u, want}, h.intEq(u, want))
	}
}

// decoded: the identifier is made of the number of the table and that in it.
func (h *H) decoded(x Exit, T types.Type, id *Term, table, sub string, t, j *Term, what string) {
	st := x.st.clone()
	for _, p := range []struct {
		name string
		want *Term
	}{{table, t}, {sub, j}} {
		fn := h.P.methodOf(T, p.name)
		if fn == nil {
			panic(abortErr{"method " + p.name + " not found"})
		}
		for _, y := range h.returns(h.call(st.clone(), fn, id), p.name) {
			y.pos = x.pos
			h.must(y, what+" may list identifiers which are not those of the items ("+p.name+")", []*Term{y.res[0], p.want, id}, h.intEq(y.res[0], p.want))
		}
	}
}

func (h *H) returns(xs []Exit, what string) (r []Exit) {
	for _, x := range xs {
		if x.kind == xReturn {
			r = append(r, x)
		}
	}
	return
}

func propEnum(R *Report) {
	R.P.initCaps()
	capEnabled = true
	R.knownIDs("ids-listed", "VariantsIndex", "KnownID", "TableNum", "CollectionTableID", 1)
	R.knownIDs("ids-listed", "TagSetIndex", "TableIDs", "TagSetTableNumber", "TagSetSubID", 0)
	inner := func(h *H, T types.Type, v *Term) func(f *Facts, m *Mem, t *Term) *Term {
		et := elemType(T)
		return func(f *Facts, m *Mem, t *Term) *Term {
			return tLen(load(f, m, tIndexAddr(v, t, types.NewPointer(et)), et))
		}
	}
	h := R.harness("size", "TagSetIndex.Size")
	h.run(func() {
		T := h.mustType(idxPkg, "TagSetIndex")
		st := h.start()
		recv := h.ptr("recv", T)
		v := load(st.facts, st.mem, recv, T)
		l := &listing{h: h, n: tLen(v), count: inner(h, T, v)}
		for _, x := range h.noPanic(h.meth(st, T, recv, "Size"), "Size") {
			l.sum(st, x, "the size")
		}
	})
	h2 := R.harness("ids-listed", "VariantsTable.Following")
	h2.run(func() {
		h := h2
		T := h.mustType(idxPkg, "VariantsTable")
		fn := h.mustMethod(idxPkg, "VariantsTable", "Following")
		st := h.start()
		recv := h.ptr("recv", T)
		v := load(st.facts, st.mem, recv, T)
		a := param("id", fn.Params[1].Type())
		for i, s := range []*State{st.clone(), st.clone()} {
			n := tSub(tLen(v), tAddK(a, 1))
			s.assume(tLe(tInt(0), n), i == 0)
			if i == 1 {
				n = tInt(0)
			}
			l := &listing{h: h, n: n, elem: func(x Exit, el, t, j *Term, what string) {
				want := tAdd(t, tAddK(a, 1))
				h.must(x, what+" may list others than the greater ones", []*Term{el, want}, h.intEq(el, want))
			}}
			for _, x := range h.noPanic(h.meth(s, T, recv, "Following", a), "Following") {
				if lp := l.outer(eventsSince(x.st.ev, s.ev), x.res[0]); lp != nil && lp.skips() {
					// made of all identifiers, leaving out the others
					all := &listing{h: h, n: tLen(v), cond: func(f *Facts, m *Mem, t *Term) func(f *Facts) (is, not bool) {
						return func(f *Facts) (bool, bool) {
							return f.proveLt(renorm(f, a), renorm(f, t)), f.proveLe(renorm(f, t), renorm(f, a))
						}
					}, elem: func(x Exit, el, t, j *Term, what string) {
						h.must(x, what+" may list others than the greater ones", []*Term{el, t}, h.intEq(el, t))
					}}
					all.list(s, x, "the identifiers following one")
					continue
				}
				l.list(s, x, "the identifiers following one")
			}
		}
	})
	h3 := R.harness("tables", "VariantsIndex.Table, Tables")
	h3.run(func() {
		h := h3
		T := h.mustType(idxPkg, "VariantsIndex")
		fn := h.mustMethod(idxPkg, "VariantsIndex", "Table")
		st := h.start()
		recv := h.ptr("recv", T)
		v := load(st.facts, st.mem, recv, T)
		et := elemType(T)
		a := param("id", fn.Params[1].Type())
		for i, s := range []*State{st.clone(), st.clone(), st.clone()} {
			switch i {
			case 0:
				s.assume(tLe(tInt(1), a), true)
				s.assume(tLe(a, tLen(v)), true)
			case 1:
				s.assume(tLe(tInt(1), a), false)
			case 2:
				s.assume(tLe(a, tLen(v)), false)
			}
			for _, x := range h.noPanic(h.meth(s, T, recv, "Table", a), "Table") {
				h.paths++
				r := x.res[0]
				if i > 0 {
					h.must(x, "a table which is not there is not empty", []*Term{r}, func(f *Facts) bool { return f.proveEqInt(tLen(renorm(f, r)), tInt(0)) })
					continue
				}
				w := load(x.st.facts, x.st.mem, tIndexAddr(v, tAddK(a, -1), types.NewPointer(et)), et)
				h.must(x, "another table than that of the number", []*Term{r, w}, func(f *Facts) bool { return renorm(f, r) == renorm(f, w) || h.seqSame(x.st.mem, r, x.st.mem, w)(f) })
			}
		}
		for _, x := range h.noPanic(h.meth(st, T, recv, "Tables"), "Tables") {
			h.paths++
			h.must(x, "Tables gives others than the tables of the index", []*Term{x.res[0], v}, h.seqSame(x.st.mem, x.res[0], x.st.mem, v))
		}
	})
	R.sourceLists()
}

// knownIDs: the identifiers listed are those of all items, table by table.
func (R *Report) knownIDs(rule, typ, name, table, sub string, first int64) {
	h := R.harness(rule, typ+"."+name)
	h.run(func() {
		T := h.mustType(idxPkg, typ)
		idT := elemType(h.mustMethod(idxPkg, typ, name).Signature.Results().At(0).Type())
		st := h.start()
		recv := h.ptr("recv", T)
		v := load(st.facts, st.mem, recv, T)
		et := elemType(T)
		l := &listing{h: h, n: tLen(v),
			count: func(f *Facts, m *Mem, t *Term) *Term {
				return tLen(load(f, m, tIndexAddr(v, t, types.NewPointer(et)), et))
			},
			elem: func(x Exit, el, t, j *Term, what string) {
				h.decoded(x, idT, el, table, sub, tAddK(t, first), j, what)
			}}
		for _, x := range h.noPanic(h.meth(st, T, recv, name), name) {
			l.list(st, x, "the list of identifiers")
		}
	})
}

// sourceLists: lists made of the data model of the source file.
func (R *Report) sourceLists() {
	const oc = "pkg/opencorpora"
	for _, c := range []struct {
		typ, name, list, field string
	}{{"CategoryList", "GrammemeNames", "", "VAttr"}, {"WordForm", "GetTagsFromSet", "G", "VAttr"}} {
		c := c
		h := R.harness("source-lists", c.typ+"."+c.name)
		h.run(func() {
			T := h.mustType(oc, c.typ)
			h.mustMethod(oc, c.typ, c.name)
			st := h.start()
			recv := h.ptr("recv", T)
			v := load(st.facts, st.mem, recv, T)
			if c.list != "" {
				v = h.field(v, c.list)
			}
			l := &listing{h: h, n: tLen(v), elem: func(x Exit, el, t, j *Term, what string) {
				p := load(x.st.facts, st.mem, tIndexAddr(v, t, types.NewPointer(elemType(v.typ))), elemType(v.typ))
				w := h.fieldAt(x, p, c.field)
				h.must(x, what+" may not be those of the elements, in order", []*Term{el, w}, h.valSame(x.st.mem, el, x.st.mem, w))
			}}
			for _, x := range h.returns(h.meth(st, T, recv, c.name), c.name) {
				l.list(st, x, "the names")
			}
		})
	}
	for _, c := range []struct{ typ, list string }{{"LemmaList", ""}, {"Lemmata", "Items"}} {
		c := c
		h := R.harness("source-lists", c.typ+".Search")
		h.run(func() {
			T := h.mustType(oc, c.typ)
			fn := h.mustMethod(oc, c.typ, "Search")
			st := h.start()
			recv := h.ptr("recv", T)
			v := load(st.facts, st.mem, recv, T)
			if c.list != "" {
				v = h.field(v, c.list)
			}
			word := param("word", fn.Params[1].Type())
			at := func(f *Facts, t *Term) *Term {
				return load(f, st.mem, tIndexAddr(v, t, types.NewPointer(elemType(v.typ))), elemType(v.typ))
			}
			l := &listing{h: h, n: tLen(v),
				cond: func(f *Facts, m *Mem, t *Term) func(f *Facts) (is, not bool) {
					p := at(f, t)
					x := Exit{st: &State{facts: f, mem: st.mem}}
					form := h.field(h.fieldAt(x, p, "L"), "Form")
					same, none := tEq(form, word), tEq(p, tNil())
					return func(f *Facts) (bool, bool) {
						a, b := f.eval(renorm(f, none)), f.eval(renorm(f, same))
						return a == 0 && b == 1, a == 1 || b == 0
					}
				},
				elem: func(x Exit, el, t, j *Term, what string) {
					p := at(x.st.facts, t)
					w := load(x.st.facts, st.mem, p, elemType(p.typ))
					h.must(x, what+" may not be those having the word", []*Term{el, w}, h.valSame(x.st.mem, el, x.st.mem, w))
				}}
			for _, x := range h.noPanic(h.meth(st, T, recv, "Search", word), "Search") {
				l.list(st, x, "the lemmas found")
			}
		})
	}
}

// field of a struct value, by name.
func (h *H) field(v *Term, name string) *Term {
	u, ok := v.typ.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return tField(v, i, u.Field(i).Type())
			}
		}
	}
	panic(abortErr{fmt.Sprintf("field %s of %v not found", name, v.typ)})
}

// fieldAt: a field of what p points to.
func (h *H) fieldAt(x Exit, p *Term, name string) *Term {
	T := elemType(p.typ)
	if u, ok := T.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return load(x.st.facts, x.st.mem, tFieldAddr(p, i, types.NewPointer(u.Field(i).Type())), u.Field(i).Type())
			}
		}
	}
	panic(abortErr{fmt.Sprintf("field %s of %v not found", name, T)})
}

func init() { register("C26", propEnum) }
