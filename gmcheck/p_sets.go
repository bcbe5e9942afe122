package main

// What sets mean: comparison, order, membership and extension; and the tags
// index as an ordered list.

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type setType struct{ pkg, name string }

var eqTypes = []setType{{"pkg/storage", "Set8"}, {"pkg/storage", "Set16"}, {"internal/index", "TagSet"}, {"internal/index", "TagSetIDCollection"}}
var sortTypes = append(append([]setType{}, eqTypes...), setType{"internal/index", "CollectionIDList"})
var hasTypes = []setType{{"internal/index", "TagSetIDCollection"}, {"internal/index", "CollectionIDList"}}

func (h *H) elem(f *Facts, m *Mem, x, i *Term) *Term {
	et := elemType(x.typ)
	return load(f, m, tIndexAddr(x, i, types.NewPointer(et)), et)
}

// position is an arbitrary valid index into x.
func position(st *State, name string, x *Term) *Term {
	j := param(name, types.Typ[types.Int])
	st.assume(tLe(tInt(0), j), true)
	st.assume(tLt(j, tLen(x)), true)
	return j
}

func (h *H) same(f *Facts, a, b *Term) bool {
	x, y := renorm(f, a), renorm(f, b)
	return x == y || f.eval(tEq(x, y)) == 1
}

func propSets(R *Report) {
	R.P.initCaps()
	for _, s := range eqTypes {
		s := s
		h := R.harness("equal-iff-same-contents", s.name)
		h.run(func() {
			fn := h.mustMethod(s.pkg, s.name, "EqualTo")
			ok, why := R.P.verifySeqEq(fn)
			h.paths++
			h.e.visited[fn] = true
			if !ok {
				h.fail("EqualTo is not equality of the contents: "+why, fn.Pos())
			}
		})
	}
	R.floor("equal-iff-same-contents", len(eqTypes))
	for _, s := range sortTypes {
		s := s
		h := R.harness("ascending-order", s.name)
		h.run(func() {
			fn := h.mustMethod(s.pkg, s.name, "Less")
			h.e.visited[fn] = true
			h.paths++
			if why := R.P.verifySortInterface(h.mustType(s.pkg, s.name)); why != "" {
				h.fail("not the ascending order of identifiers: "+why, fn.Pos())
			}
			T := h.mustType(s.pkg, s.name)
			if h.P.methodOf(T, "Sort") == nil {
				return
			}
			// s.Sort() rearranges the contents in ascending order, in place
			st := h.start()
			item := h.freshSlice(st, "set", T, false)
			want := mk(OPure, item.typ, false, 0, "sorted", nil, nil, nil, seqVal(st.facts, st.mem, item))
			for _, x := range h.noPanic(h.value(st, s.pkg, s.name, "Sort", item), "Sort") {
				h.must(x, "Sort does not arrange the identifiers in ascending order", []*Term{item}, func(f *Facts) bool {
					return seqTermsEq(f, renorm(f, seqVal(f, x.st.mem, item)), renorm(f, want))
				})
			}
		})
	}
	R.floor("ascending-order", len(sortTypes))
	for _, s := range hasTypes {
		s := s
		h := R.harness("membership", s.name)
		h.run(func() {
			st := h.start()
			T := h.mustType(s.pkg, s.name)
			set, id := param("set", T), param("id", elemType(T))
			for _, x := range h.noPanic(h.value(st, s.pkg, s.name, "Has", set, id), "Has") {
				yes, no := h.branch(x.st, x.res[0])
				if yes != nil {
					h.paths++
					if !h.hasWitness(yes.facts, yes.mem, set, id) && !h.contra(yes.facts) {
						h.fail("Has reports an identifier which is not in the set"+pathNote(x), x.pos)
					}
				}
				if no != nil {
					y := x
					y.st = no.clone()
					j := position(y.st, "j", set)
					el := h.elem(y.st.facts, y.st.mem, set, j)
					h.must(y, "Has misses an identifier of the set", []*Term{el}, func(f *Facts) bool {
						return f.eval(tEqVal(renorm(f, h.elem(f, y.st.mem, set, j)), renorm(f, id))) == 0
					})
				}
			}
		})
	}
	R.floor("membership", len(hasTypes))
	h := R.harness("add", "TagSetIDCollection")
	h.run(func() {
		T := h.mustType("internal/index", "TagSetIDCollection")
		// the set and its extension
		st := h.start()
		set, id := param("set", T), param("id", elemType(T))
		for _, x := range h.noPanic(h.value(st, "internal/index", "TagSetIDCollection", "Has", set, id), "Has") {
			yes, no := h.branch(x.st, x.res[0])
			if yes != nil {
				m0 := yes.mem
				before := seqVal(yes.facts, yes.mem, set)
				for _, y := range h.noPanic(h.value(yes, "internal/index", "TagSetIDCollection", "Add", set, id), "Add") {
					h.must(y, "adding a member changes the collection", []*Term{y.res[0]}, func(f *Facts) bool {
						return seqTermsEq(f, renorm(f, seqVal(f, y.st.mem, renorm(f, y.res[0]))), renorm(f, before))
					})
					h.untouched(y, m0, "Add")
				}
			}
			if no != nil {
				m0 := no.mem
				ap := mk(OAppend, T, true, 1, "spec", nil, m0, nil, set, id)
				want := mk(OPure, T, false, 0, "sorted", nil, nil, nil, seqVal(no.facts, m0, ap))
				for _, y := range h.noPanic(h.value(no, "internal/index", "TagSetIDCollection", "Add", set, id), "Add") {
					h.must(y, "Add does not give the sorted collection of the old members and the new one", []*Term{y.res[0], want}, func(f *Facts) bool {
						return seqTermsEq(f, renorm(f, seqVal(f, y.st.mem, renorm(f, y.res[0]))), renorm(f, want))
					})
					h.untouched(y, m0, "Add")
				}
			}
		}
	})
}

func (h *H) untouched(x Exit, m0 *Mem, what string) {
	h.paths++
	if w := writesOutside(x, m0); len(w) > 0 && !h.contra(x.st.facts) {
		h.fail(what+" "+w[0]+pathNote(x), x.pos)
	}
}

// hasWitness: an index whose element is id is known.
func (h *H) hasWitness(f *Facts, m *Mem, set, id *Term) bool {
	return h.prove(f, []*Term{id}, func(f *Facts) bool {
		for _, t := range f.terms() {
			for _, i := range elemIndexes(t, set, set) {
				if f.proveLe(tInt(0), i) && f.proveLt(i, tLen(set)) && f.eval(tEqVal(renorm(f, h.elem(f, m, set, i)), renorm(f, id))) == 1 {
					return true
				}
			}
		}
		return false
	})
}

func tEqVal(a, b *Term) *Term {
	if isIntTerm(a) && isIntTerm(b) {
		return tEqInt(a, b)
	}
	return tEq(a, b)
}

// ---- the tags index ----

func propTags(R *Report) {
	R.P.initCaps()
	capEnabled = true
	const dag = "pkg/dag"
	var empty *Term
	tag := func() *types.Named { return R.P.Type(dag, "Tag") }
	fieldNo := func(h *H, name string) int {
		u := h.mustType(dag, "Tag").Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return i
			}
		}
		panic(abortErr{"Tag." + name + " not found"})
	}
	field := func(h *H, st *State, v *Term, name string) *Term {
		return h.e.field(st, v, fieldNo(h, name), h.mustType(dag, "TagName"))
	}
	setup := func(h *H) {
		c, ok := R.P.pkg(dag).Members["EmptyTagName"]
		if !ok {
			panic(abortErr{"EmptyTagName not found"})
		}
		k, ok := constOf(c)
		if !ok {
			panic(abortErr{"EmptyTagName is not a constant"})
		}
		empty = tStr(k)
	}
	parentOK := func(h *H, x Exit, got, given *Term, what string) {
		e, ne := h.branch(x.st, tEq(given, tStr("")))
		if e != nil {
			y := x
			y.st = e
			h.must(y, what+": a missing parent is not stored as the empty-name marker", []*Term{got}, func(f *Facts) bool { return h.same(f, got, empty) })
		}
		if ne != nil {
			y := x
			y.st = ne
			h.must(y, what+": the parent stored is not the one given", []*Term{got, given}, func(f *Facts) bool { return h.same(f, got, given) })
		}
	}
	h := R.harness("tag-as-given", "NewTag")
	h.run(func() {
		setup(h)
		st := h.start()
		T := h.mustType(dag, "TagName")
		p, n := param("parent", T), param("name", T)
		m0 := st.mem
		for _, x := range h.noPanic(h.call(st, h.mustFn(dag, "NewTag"), p, n), "NewTag") {
			h.untouched(x, m0, "NewTag")
			if !ownObject(x.res[0]) {
				h.fail("NewTag returns a shared object", x.pos)
				continue
			}
			v := load(x.st.facts, x.st.mem, x.res[0], tag())
			gn := field(h, x.st, v, "Name")
			h.must(x, "the name of the new tag is not the one given", []*Term{gn, n}, func(f *Facts) bool { return h.same(f, gn, n) })
			parentOK(h, x, field(h, x.st, v, "Parent"), p, "NewTag")
		}
	})
	h = R.harness("tag-as-given", "NewIndex")
	h.run(func() {
		setup(h)
		st := h.start()
		fn := h.mustFn(dag, "NewIndex")
		in := param("tags", fn.Params[0].Type())
		m0 := st.mem
		for _, x := range h.noPanic(h.call(st, fn, in), "NewIndex") {
			h.untouched(x, m0, "NewIndex")
			h.must(x, "NewIndex drops or adds tags", []*Term{x.res[0]}, h.intEq(tLen(x.res[0]), tLen(in)))
			y := x
			y.st = x.st.clone()
			j := position(y.st, "j", in)
			if y.st.facts.bad {
				continue
			}
			was, is := h.elem(y.st.facts, m0, in, j), h.elem(y.st.facts, y.st.mem, y.res[0], j)
			wn, gn := field(h, y.st, was, "Name"), field(h, y.st, is, "Name")
			h.must(y, "NewIndex changes the name or place of a tag", []*Term{gn, wn}, func(f *Facts) bool { return h.same(f, gn, wn) })
			parentOK(h, y, field(h, y.st, is, "Parent"), field(h, y.st, was, "Parent"), "NewIndex")
		}
	})
	h = R.harness("tag-as-given", "Idx.Index")
	h.run(func() {
		setup(h)
		T, N := h.mustType(dag, "Idx"), h.mustType(dag, "TagName")
		st := h.start()
		recv := h.ptr("recv", T)
		n, p := param("name", N), param("parent", N)
		old := load(st.facts, st.mem, recv, T)
		m0 := st.mem
		other := param("other", h.mustMethod(dag, "Idx", "Get").Params[1].Type())
		for _, z := range h.noPanic(h.meth(st, T, recv, "Find", n), "Find") {
			known, fresh := h.branch(z.st, z.res[1])
			if known != nil {
				xs, _ := returns(h.meth(known, T, recv, "Index", n, p))
				for _, x := range xs {
					h.untouched(x, m0, "Index of a known name")
				}
			}
			if fresh == nil {
				continue
			}
			xs, _ := returns(h.meth(fresh, T, recv, "Index", n, p))
			for _, x := range xs {
				v := load(x.st.facts, x.st.mem, recv, T)
				h.must(x, "a new tag does not get the next identifier", []*Term{x.res[0], v}, h.intEq(x.res[0], tLen(old)))
				h.must(x, "the index does not grow by the new tag", []*Term{v}, h.intEq(tLen(v), tAddK(tLen(old), 1)))
				for _, y := range h.noPanic(h.meth(x.st, T, recv, "Get", x.res[0]), "Get") {
					gn := field(h, y.st, y.res[0], "Name")
					h.must(y, "the name stored is not the one given", []*Term{gn, n}, func(f *Facts) bool { return h.same(f, gn, n) })
					parentOK(h, y, field(h, y.st, y.res[0], "Parent"), p, "Index")
				}
			}
		}
		_ = other
	})
	h = R.harness("first-of-name", "Idx.Find")
	h.run(func() {
		T, N := h.mustType(dag, "Idx"), h.mustType(dag, "TagName")
		st := h.start()
		idx, n := param("idx", T), param("name", N)
		for _, x := range h.noPanic(h.value(st, dag, "Idx", "Find", idx, n), "Find") {
			yes, no := h.branch(x.st, x.res[1])
			if yes != nil {
				y := x
				y.st = yes.clone()
				j := param("j", types.Typ[types.Int])
				y.st.assume(tLe(tInt(0), j), true)
				y.st.assume(tLt(j, x.res[0]), true)
				if !y.st.facts.bad {
					gn := field(h, y.st, h.elem(y.st.facts, y.st.mem, idx, j), "Name")
					h.must(y, "Find skips a tag with the same name", []*Term{gn}, func(f *Facts) bool { return f.eval(tEq(renorm(f, gn), renorm(f, n))) == 0 })
				}
				z := x
				z.st = yes
				gn := field(h, z.st, h.elem(z.st.facts, z.st.mem, idx, x.res[0]), "Name")
				h.must(z, "Find reports a tag of another name", []*Term{gn}, func(f *Facts) bool { return f.eval(tEq(renorm(f, gn), renorm(f, n))) == 1 })
			}
			if no != nil {
				y := x
				y.st = no.clone()
				j := position(y.st, "j", idx)
				if y.st.facts.bad {
					continue
				}
				gn := field(h, y.st, h.elem(y.st.facts, y.st.mem, idx, j), "Name")
				h.must(y, "Find misses a tag of the index", []*Term{gn}, func(f *Facts) bool { return f.eval(tEq(renorm(f, gn), renorm(f, n))) == 0 })
			}
		}
	})
	h = R.harness("nth-tag", "Idx.Get")
	h.run(func() {
		T := h.mustType(dag, "Idx")
		fn := h.mustMethod(dag, "Idx", "Get")
		st := h.start()
		idx, id := param("idx", T), param("id", fn.Params[1].Type())
		for _, x := range h.noPanic(h.value(st, dag, "Idx", "Get", idx, id), "Get") {
			yes, no := h.branch(x.st, x.res[1])
			if yes != nil {
				y := x
				y.st = yes
				h.must(y, "Get finds a tag beyond the end of the index", nil, func(f *Facts) bool { return f.proveLt(id, tLen(idx)) })
				want := h.elem(yes.facts, yes.mem, idx, id)
				h.must(y, "Get gives another tag than the one at this place", []*Term{x.res[0], want}, func(f *Facts) bool { return h.same(f, x.res[0], want) })
			}
			if no != nil {
				y := x
				y.st = no
				h.must(y, "Get does not find a tag of the index", nil, func(f *Facts) bool { return f.proveLe(tLen(idx), id) })
			}
		}
		for _, x := range h.noPanic(h.value(h.start(), dag, "Idx", "Len", idx), "Len") {
			h.must(x, "Len is not the number of tags", []*Term{x.res[0]}, h.intEq(x.res[0], tLen(idx)))
		}
	})
}

// constOf gives the value of a string constant.
func constOf(m ssa.Member) (string, bool) {
	c, ok := m.(*ssa.NamedConst)
	if !ok || c.Value.Value == nil || c.Value.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value.Value), true
}

func init() {
	register("C13", propSets)
	register("C14", func(R *Report) { propTags(R); propPrint(R) })
}
