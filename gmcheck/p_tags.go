package main

// Tag sets of words: what a node is given is what it has afterwards.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// tables are the interning containers of the index, taken at their word
// (C02 to C06): the same item has the same identifier, the same identifier
// the same item.
var tables = map[string]bool{"Idx": true, "TagSetIndex": true, "VariantsIndex": true}
var tableOps = map[string]bool{"Find": true, "Index": true, "Get": true}

func tableCall(fn *ssa.Function) string {
	if fn == nil || fn.Signature.Recv() == nil || !tableOps[fn.Name()] {
		return ""
	}
	n, ok := derefType(fn.Signature.Recv().Type()).(*types.Named)
	if !ok {
		if p, isPtr := fn.Signature.Recv().Type().(*types.Pointer); isPtr {
			n, ok = p.Elem().(*types.Named)
		}
	}
	if !ok || !tables[n.Obj().Name()] {
		return ""
	}
	return n.Obj().Name() + "." + fn.Name()
}

func tableCalls(e *Engine, fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, args []*Term, resT *types.Tuple) (bool, []Exit) {
	op := tableCall(fn)
	if op == "" && e.noText {
		return false, nil
	}
	if op == "" {
		return textCalls(e, fr, st, site, name, fn, args, resT)
	}
	s := st.clone()
	as := pureArgs(st, args[1:])
	res := []*Term{}
	for i := 0; i < resT.Len(); i++ {
		res = append(res, tableRes(op, i, resT.At(i).Type(), as...))
	}
	s.addEvent(&Event{kind: "table", name: op, fn: fn, args: append([]*Term{args[0]}, as...), res: res, pos: site.Pos(), fac: st.facts, ctx: fr.ctx})
	return true, []Exit{{kind: xReturn, st: s, res: res}}
}

func tableRes(op string, i int, T types.Type, args ...*Term) *Term {
	return mk(OPure, T, false, int64(i), "table:"+op, nil, nil, nil, args...)
}

func (h *H) tagged(f func(d *dict, n *Term)) {
	h.e.hook = tableCalls
	h.run(func() {
		d := h.dict()
		f(d, d.nodeOf("id"))
	})
}

// nodeOf: the node of the index with an arbitrary identifier.
func (d *dict) nodeOf(name string) *Term {
	get := d.h.mustMethod(idxPkg, "Index", "GetItem")
	xs := d.h.noPanic(d.h.meth(d.st, d.T, d.recv, "GetItem", param(name, get.Params[1].Type())), "GetItem")
	if len(xs) != 1 {
		panic(abortErr{"GetItem does not simply give a node"})
	}
	d.st = xs[0].st
	return xs[0].res[0]
}

// items: the item of the node.
func (d *dict) items(st *State, n *Term) []Exit {
	return d.h.noPanic(d.h.meth(st, d.node, n, "Item"), "Item")
}

func (d *dict) itemField(it *Term, name string) *Term {
	u := d.h.mustType(idxPkg, "Item").Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return tField(it, i, u.Field(i).Type())
		}
	}
	panic(abortErr{"items have no field " + name})
}

func tableEvents(st *State, ops ...string) (out []*Event) {
	for _, e := range eventsSince(st.ev, nil) {
		for _, op := range ops {
			if e.kind == "table" && e.name == op {
				out = append(out, e)
			}
		}
	}
	return
}

func (d *dict) id(st *State, n *Term) *Term {
	xs := d.h.noPanic(d.h.meth(st, d.node, n, "Id"), "Id")
	if len(xs) != 1 {
		panic(abortErr{"the identifier of a node"})
	}
	return xs[0].res[0]
}

func propTagSets(R *Report) {
	R.P.initCaps()
	R.tagSetAdding()
	R.tagSetReading()
	R.floor("refused-unchanged", 1)
}

// tagSetAdding: AddTagSet refuses without an effect or adds exactly the set of
// the tags named to the variants of exactly that node.
func (R *Report) tagSetAdding() {
	each := func(rule string, chk bool, f func(h *H, d *dict, n, names *Term, was, other Exit, ok, bad []Exit)) {
		h := R.harness(rule, "Node.AddTagSet")
		h.noChk = !chk
		h.tagged(func(d *dict, n *Term) {
			add := h.mustMethod(idxPkg, "Node", "AddTagSet")
			names := param("names", add.Params[1].Type())
			o := d.nodeOf("otherid")
			d.other = o
			id := d.id(d.st, n)
			known := d.st.clone()
			known.assume(tLt(tInt(0), id), true)
			known.assume(tLt(id, d.next(known)), true)
			var ok, bad []Exit
			run := func(st *State) {
				for _, x := range h.noPanic(h.meth(st, d.node, n, "AddTagSet", names), "AddTagSet") {
					good, fail := h.branch(x.st, tEq(x.res[0], tNil()))
					y := x
					if good != nil {
						y.st = good
						ok = append(ok, y)
					}
					if fail != nil {
						y.st = fail
						bad = append(bad, y)
					}
				}
			}
			if chk || rule == "refused-unchanged" {
				run(d.st)
				f(h, d, n, names, Exit{}, Exit{}, ok, bad)
				return
			}
			if oid := d.id(known, o); true {
				known.assume(tEqInt(oid, id), false)
				known.assume(tLt(tInt(0), oid), true)
				known.assume(tLt(oid, d.next(known)), true)
			}
			for _, was := range d.items(known, n) {
				for _, other := range d.items(was.st, o) {
					ok, bad = nil, nil
					run(other.st)
					f(h, d, n, names, was, other, ok, bad)
				}
			}
		})
	}
	// refused: nothing happens
	each("refused-unchanged", false, func(h *H, d *dict, n, names *Term, _, _ Exit, ok, bad []Exit) {
		if len(bad) == 0 {
			h.fail("nothing is ever refused", token.NoPos)
		}
		for _, x := range bad {
			h.paths++
			if h.contra(x.st.facts) {
				continue
			}
			if w := writesOutside(x, d.st.mem); len(w) > 0 {
				h.fail("a tag set is refused, but "+w[0]+pathNote(x), x.pos)
			}
			if ev := tableEvents(x.st, "Idx.Index", "TagSetIndex.Index", "VariantsIndex.Index"); len(ev) > 0 {
				h.fail("a tag set is refused, but "+ev[0].name+" is called before"+pathNote(x), ev[0].pos)
			}
		}
	})
	// refused only if there is no tag, an unknown one, or no such node
	each("refused-if-unknown", false, func(h *H, d *dict, n, names *Term, was, other Exit, ok, bad []Exit) {
		for _, x := range bad {
			h.paths++
			z := x.st.clone()
			z.assume(tLt(tInt(0), tLen(names)), true)
			for _, e := range tableEvents(x.st, "Idx.Find") {
				z.assume(e.res[1], true)
			}
			if !z.facts.bad && !h.contra(z.facts) {
				h.fail("the tag set of a known node with known tags is refused"+pathNote(x), x.pos)
			}
		}
		for _, x := range ok {
			// and always then
			h.must(x, "an empty tag set is accepted", nil, func(f *Facts) bool { return f.proveLe(tInt(1), tLen(names)) })
			y := x
			y.st = x.st.clone()
			j := position(y.st, "j", names)
			found := tableRes("Idx.Find", 1, types.Typ[types.Bool], h.elem(y.st.facts, d.st.mem, names, j))
			h.must(y, "an unknown tag is accepted", []*Term{found}, h.boolIs(found, true))
		}
	})
	each("unknown-nodes-refused", true, func(h *H, d *dict, n, names *Term, _, _ Exit, ok, bad []Exit) {
		id := d.id(d.st, n)
		for _, x := range ok {
			h.must(x, "the root is given a tag set", []*Term{id}, func(f *Facts) bool { return f.proveLe(tInt(1), renorm(f, id)) })
			h.must(x, "a node not there is given a tag set", []*Term{id}, func(f *Facts) bool { return f.proveLe(tAddK(renorm(f, id), 1), renorm(f, d.next(d.st))) })
		}
	})
	// accepted: the set of the tags named becomes one of the variants
	each("added-to-variants", false, func(h *H, d *dict, n, names *Term, was, other Exit, ok, bad []Exit) {
		if len(ok) == 0 {
			h.fail("nothing is ever accepted", token.NoPos)
		}
		before := d.itemField(was.res[0], "Variants")
		for _, x := range ok {
			sets := tableEvents(x.st, "TagSetIndex.Index")
			if len(sets) != 1 {
				h.fail(fmt.Sprintf("%d tag sets are made of one list of tags", len(sets))+pathNote(x), x.pos)
				continue
			}
			set := sets[0].args[1]
			h.must(x, "the tag set made has not as many tags as were named", []*Term{tLen(set)}, func(f *Facts) bool {
				return f.proveEqInt(renorm(f, tLen(set)), tLen(names))
			})
			y := x
			y.st = x.st.clone()
			j := position(y.st, "j", names)
			tag := tableRes("Idx.Find", 0, h.mustType("pkg/dag", "TagID"), h.elem(y.st.facts, d.st.mem, names, j))
			h.must(y, "the tag set made is not that of the tags named", []*Term{tag}, func(f *Facts) bool {
				v := renorm(f, set)
				for v.op == OPure && v.s == "sorted" {
					v = v.args[0]
				}
				if v.op != OSeqVal {
					return false
				}
				m := v.mem
				if m == nil {
					m = initMem()
				}
				return h.same(f, h.elem(f, m, v.args[0], j), tag)
			})
			get := h.mustMethod(idxPkg, "VariantsIndex", "Get")
			old := tableRes("VariantsIndex.Get", 0, get.Signature.Results().At(0).Type(), before)
			for _, now := range d.items(x.st, n) {
				v := d.itemField(now.res[0], "Variants")
				for _, want := range h.noPanic(h.value(now.st, idxPkg, old.typ.(*types.Named).Obj().Name(), "Add", old, sets[0].res[0]), "Add") {
					h.must(want, "the variants of the node are not those before with the tag set added", []*Term{v}, func(f *Facts) bool {
						a := renorm(f, v)
						if a.op != OPure || a.s != "table:VariantsIndex.Index" {
							return false
						}
						w := renorm(f, seqVal(f, want.st.mem, renorm(f, want.res[0])))
						return seqTermsEq(f, renorm(f, a.args[0]), w)
					})
				}
			}
		}
	})
	// and nothing else
	each("nothing-else-changes", false, func(h *H, d *dict, n, names *Term, was, other Exit, ok, bad []Exit) {
		u := h.mustType(idxPkg, "Item").Underlying().(*types.Struct)
		o := d.other
		for _, x := range ok {
			for _, now := range d.items(x.st, n) {
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == "Variants" {
						continue
					}
					a, b := d.itemField(was.res[0], u.Field(i).Name()), d.itemField(now.res[0], u.Field(i).Name())
					h.must(now, "the "+u.Field(i).Name()+" of the node changes", []*Term{a, b}, func(f *Facts) bool { return h.same(f, a, b) })
				}
			}
			for _, now := range d.items(x.st, o) {
				for i := 0; i < u.NumFields(); i++ {
					a, b := d.itemField(other.res[0], u.Field(i).Name()), d.itemField(now.res[0], u.Field(i).Name())
					h.must(now, "the "+u.Field(i).Name()+" of another node changes", []*Term{a, b}, func(f *Facts) bool { return h.same(f, a, b) })
				}
			}
		}
	})
	each("words-counted-once", false, func(h *H, d *dict, n, names *Term, was, other Exit, ok, bad []Exit) {
		before := d.itemField(was.res[0], "Variants")
		for _, x := range ok {
			for _, c0 := range h.noPanic(h.meth(d.st, d.T, d.recv, "WordsCount"), "WordsCount") {
				for _, c1 := range h.noPanic(h.meth(x.st, d.T, d.recv, "WordsCount"), "WordsCount") {
					first, more := h.branch(c1.st, tEqInt(before, tInt(0)))
					for i, st := range []*State{first, more} {
						if st != nil {
							y := c1
							y.st = st
							h.must(y, "the number of words is wrong after adding a tag set", []*Term{c0.res[0], c1.res[0]}, h.intEq(c1.res[0], tAddK(c0.res[0], int64(1-i))))
						}
					}
				}
			}
		}
	})
}

// tagSetReading: what a node tells is what its variants are.
func (R *Report) tagSetReading() {
	colT := func(h *H) types.Type {
		return h.mustMethod(idxPkg, "VariantsIndex", "Get").Signature.Results().At(0).Type()
	}
	setT := func(h *H) types.Type {
		return h.mustMethod(idxPkg, "TagSetIndex", "Get").Signature.Results().At(0).Type()
	}
	tagT := func(h *H) types.Type { return h.mustMethod("pkg/dag", "Idx", "Get").Signature.Results().At(0).Type() }
	for cnt := int64(0); cnt <= 2; cnt++ {
		cnt := cnt
		h := R.harness("told-as-stored", fmt.Sprintf("Node.TagSets, %d tag sets", cnt))
		h.noChk = true
		h.tagged(func(d *dict, n *Term) {
			known := d.st.clone()
			id := d.id(d.st, n)
			known.assume(tLt(tInt(0), id), true)
			known.assume(tLt(id, d.next(known)), true)
			for _, was := range d.items(known, n) {
				col := tableRes("VariantsIndex.Get", 0, colT(h), d.itemField(was.res[0], "Variants"))
				was.st.assume(tEqInt(tLen(col), tInt(cnt)), true)
				whole := 0
				for _, x := range h.noPanic(h.meth(was.st, d.node, n, "TagSets"), "TagSets") {
					h.paths++
					// all identifiers stored are known ones
					z := x
					z.st = x.st.clone()
					for _, e := range tableEvents(x.st, "TagSetIndex.Get", "Idx.Get") {
						z.st.assume(e.res[1], true)
					}
					if z.st.facts.bad || h.contra(z.st.facts) {
						continue
					}
					whole++
					res := x.res[0]
					h.must(z, "not as many tag sets are told as the node has", []*Term{res}, h.intEq(tLen(res), tInt(cnt)))
					for k := int64(0); k < cnt; k++ {
						set := tableRes("TagSetIndex.Get", 0, setT(h), h.elem(z.st.facts, d.st.mem, col, tInt(k)))
						told := h.elem(z.st.facts, x.st.mem, res, tInt(k))
						h.must(z, "a tag set is told with another number of tags", []*Term{told}, h.intEq(tLen(told), tLen(set)))
						y := z
						y.st = z.st.clone()
						i := position(y.st, "i", set)
						iid := h.elem(y.st.facts, d.st.mem, set, i)
						tag := tableRes("Idx.Get", 0, tagT(h), iid)
						y.st.assume(tableRes("Idx.Get", 1, types.Typ[types.Bool], iid), true)
						h.must(y, "a tag is told as another one", []*Term{told, tag}, func(f *Facts) bool {
							return h.same(f, h.elem(f, x.st.mem, renorm(f, told), i), tag)
						})
					}
				}
				if whole == 0 {
					h.fail("no tag set is ever told", token.NoPos)
				}
			}
		})
	}
	h := R.harness("told-as-stored", "Index.TagSet")
	h.noChk = true
	h.tagged(func(d *dict, n *Term) {
		set := param("set", setT(h))
		good := 0
		for _, x := range h.noPanic(h.meth(d.st, d.T, d.recv, "TagSet", set), "TagSet") {
			ok, bad := h.branch(x.st, tEq(x.res[1], tNil()))
			if bad != nil {
				h.paths++
				for _, e := range tableEvents(x.st, "Idx.Get") {
					bad.assume(e.res[1], true)
				}
				if !bad.facts.bad && !h.contra(bad.facts) {
					h.fail("known tags are refused"+pathNote(x), x.pos)
				}
			}
			if ok == nil {
				continue
			}
			good++
			y := x
			y.st = ok.clone()
			h.must(y, "a tag set is told with another number of tags", []*Term{x.res[0]}, h.intEq(tLen(x.res[0]), tLen(set)))
			i := position(y.st, "i", set)
			iid := h.elem(y.st.facts, d.st.mem, set, i)
			tag := tableRes("Idx.Get", 0, tagT(h), iid)
			h.must(y, "an unknown tag is told", []*Term{tag}, h.boolIs(tableRes("Idx.Get", 1, types.Typ[types.Bool], iid), true))
			h.must(y, "a tag is told as another one", []*Term{tag}, func(f *Facts) bool {
				return h.same(f, h.elem(f, x.st.mem, renorm(f, x.res[0]), i), tag)
			})
		}
		if good == 0 {
			h.fail("no tag set is ever told", token.NoPos)
		}
	})
	h2 := R.harness("told-as-stored", "Index.Variants")
	h2.noChk = true
	h2.tagged(func(d *dict, n *Term) {
		id := param("variants", h2.mustMethod(idxPkg, "Index", "Variants").Params[1].Type())
		col := tableRes("VariantsIndex.Get", 0, colT(h2), id)
		for _, x := range h2.noPanic(h2.meth(d.st, d.T, d.recv, "Variants", id), "Variants") {
			ok, bad := h2.branch(x.st, tEq(x.res[1], tNil()))
			if bad != nil {
				y := x
				y.st = bad
				h2.must(y, "known variants are refused", nil, func(f *Facts) bool { return f.proveEqInt(renorm(f, tLen(col)), tInt(0)) })
				h2.must(y, "the empty variants are refused", nil, func(f *Facts) bool { return f.proveLe(tInt(1), id) })
			}
			if ok != nil {
				y := x
				y.st = ok
				h2.must(y, "other variants are told", []*Term{x.res[0]}, h2.seqSame(x.st.mem, x.res[0], d.st.mem, col))
				z := ok.clone()
				z.assume(tEqInt(tLen(col), tInt(0)), true)
				z.assume(tLe(tInt(1), id), true)
				if !z.facts.bad && !h2.contra(z.facts) {
					h2.fail("unknown variants are not refused"+pathNote(x), x.pos)
				}
			}
		}
	})
	h3 := R.harness("told-as-stored", "Index.TagID")
	h3.noChk = true
	h3.tagged(func(d *dict, n *Term) {
		fn := h3.mustMethod(idxPkg, "Index", "TagID")
		name, parent := param("name", fn.Params[1].Type()), param("parent", fn.Params[2].Type())
		for _, x := range h3.noPanic(h3.meth(d.st, d.T, d.recv, "TagID", name, parent), "TagID") {
			want := tableRes("Idx.Index", 0, fn.Signature.Results().At(0).Type(), name, parent)
			h3.must(x, "the identifier is not that of the tag in the index", []*Term{want}, h3.intEq(x.res[0], want))
		}
	})
	for _, name := range []string{"TagSets", "Word", "String"} {
		name := name
		h := R.harness("never-panics", "Node."+name)
		h.e.noText = true
		h.tagged(func(d *dict, n *Term) {
			h.paths++
			id := d.id(d.st, n)
			for _, x := range h.noPanic(h.meth(d.st, d.node, n, name), name) {
				h.paths++
				if name != "TagSets" {
					continue
				}
				z := x
				z.st = x.st.clone()
				z.st.assume(tEqInt(id, tInt(0)), true)
				if !z.st.facts.bad && !h.contra(z.st.facts) {
					h.must(z, "the root has tag sets", []*Term{x.res[0]}, h.intEq(tLen(x.res[0]), tInt(0)))
				}
			}
		})
	}
}

func init() {
	register("C20", propTagSets)
}
