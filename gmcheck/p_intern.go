package main

// Interning: sets put into tables and collections get IDs; the obligations
// relate Index, Find and Get of every interning type.

import (
	"fmt"
	"go/types"
	"math"
)

// capacity of the containers: the number of elements their IDs can address.
// Assumed of every container met on entry; the capacity property proves that
// every store keeps it.
var capEnabled bool

var capTypes = map[string]int64{
	"pkg/storage.Table8":           256,
	"pkg/storage.Table16":          65536,
	"pkg/storage.Collection8x8":    256,
	"pkg/storage.Collection16":     65536,
	"internal/index.TagSetTable":   65536,
	"internal/index.TagSetIndex":   65536,
	"internal/index.VariantsTable": 65536,
	"internal/index.VariantsIndex": 65535,
	"pkg/dag.Idx":                  256,
}

var capByName = map[string]int64{}

func (P *Program) initCaps() {
	capByName = map[string]int64{}
	for k, v := range capTypes {
		capByName[P.modPath+"/"+k] = v
	}
}

func typeCap(t types.Type) (int64, bool) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return 0, false
	}
	v, ok := capByName[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
	return v, ok
}

// lenCap: upper bound of the length of a container existing on entry.
func lenCap(x *Term) int64 {
	if x.typ == nil || !(x.op == OLoad && x.mem != nil && x.mem.kind == MInit || x.op == OParam) {
		return posInf
	}
	if v, ok := typeCap(x.typ); ok {
		return v
	}
	return posInf
}

type internType struct {
	pkg, name string
	maxLen    int64 // longest set accepted
	noFlag    bool  // Get has no found flag: unknown IDs give an empty set
	tag       bool  // the tags index: items are a name and a parent
}

var internTypes = []internType{
	{"pkg/storage", "Table8", math.MaxInt32, false, false},
	{"pkg/storage", "Table16", math.MaxInt32, false, false},
	{"pkg/storage", "Collection8x8", 256, false, false},
	{"pkg/storage", "Collection16", 65536, false, false},
	{"internal/index", "TagSetTable", math.MaxInt32, false, false},
	{"internal/index", "TagSetIndex", 65536, false, false},
	{"internal/index", "VariantsTable", math.MaxInt32, true, false},
	{"internal/index", "VariantsIndex", 65535, true, false},
	{"pkg/dag", "Idx", math.MaxInt32, false, true},
}

// internCase gives the functions of one interning type.
type internCase struct {
	internType
	T     *types.Named
	itemT types.Type
	idT   types.Type
}

func (R *Report) internCase(it internType) *internCase {
	T := R.P.Type(it.pkg, it.name)
	if T == nil {
		R.bad("anchor", it.name, "type not found", 0)
		return nil
	}
	fn := R.P.methodOf(T, "Index")
	if fn == nil || R.P.methodOf(T, "Find") == nil || R.P.methodOf(T, "Get") == nil {
		R.bad("anchor", it.name, "Index, Find or Get not found", 0)
		return nil
	}
	sig := fn.Signature
	if n := sig.Params().Len(); n != 1 && !it.tag || it.tag && n != 2 || sig.Results().Len() != 1 {
		R.bad("anchor", it.name, "unexpected signature of Index", fn.Pos())
		return nil
	}
	return &internCase{it, T, sig.Params().At(0).Type(), sig.Results().At(0).Type()}
}

// item is an arbitrary item to index; want is what Get has to give back.
func (c *internCase) item(h *H, st *State, sorted bool) (args []*Term, want *Term) {
	if c.tag {
		n, p := param("name", c.itemT), param("parent", c.itemT)
		return []*Term{n, p}, n
	}
	s := h.freshSlice(st, "item", c.itemT, sorted)
	want = seqVal(st.facts, st.mem, s)
	if !sorted {
		want = mk(OPure, s.typ, false, 0, "sorted", nil, nil, nil, want)
	}
	return []*Term{s}, want
}

func (c *internCase) nonEmpty(st *State, args []*Term) {
	if !c.tag {
		st.assume(tLt(tInt(0), tLen(args[0])), true)
	}
}

// empty: the item is the empty set.
func (c *internCase) empty(h *H, x Exit, args []*Term) bool {
	if c.tag {
		return false
	}
	return h.prove(x.st.facts, nil, func(f *Facts) bool { return f.proveLe(tLen(args[0]), tInt(0)) })
}

func (c *internCase) findArgs(args []*Term) []*Term { return args[:1] }

// get runs Get and gives value and found condition per path.
type gotten struct {
	x          Exit
	val, found *Term
}

func (c *internCase) get(h *H, st *State, recv, id *Term) (gs []gotten) {
	ys, ps := returns(h.meth(st, c.T, recv, "Get", id))
	for _, p := range ps {
		if !h.contra(p.st.facts) {
			h.fail("Get may panic"+pathNote(p), p.pos)
		}
	}
	for _, y := range ys {
		found := tTrue()
		if c.noFlag {
			found = tLt(tInt(0), tLen(y.res[0]))
		} else {
			found = y.res[1]
		}
		gs = append(gs, gotten{y, y.res[0], found})
	}
	return
}

// gives: the value Get returned is the item want.
func (c *internCase) gives(h *H, y gotten, want *Term) (terms []*Term, goal func(*Facts) bool) {
	if c.tag {
		st := y.x.st
		n := h.e.field(st, y.val, c.nameField(), c.itemT)
		return []*Term{n, want}, h.valSame(st.mem, n, st.mem, want)
	}
	return []*Term{y.val, want}, func(f *Facts) bool {
		v := renorm(f, seqVal(f, y.x.st.mem, renorm(f, y.val)))
		return seqTermsEq(f, v, renorm(f, want))
	}
}

func (c *internCase) nameField() int {
	r := c.T.Underlying().(*types.Slice).Elem().Underlying().(*types.Struct)
	for i := 0; i < r.NumFields(); i++ {
		if r.Field(i).Name() == "Name" {
			return i
		}
	}
	panic(abortErr{"Tag.Name not found"})
}

// branch splits a path by a condition; infeasible sides are dropped.
func (h *H) branch(st *State, c *Term) (yes, no *State) {
	switch st.facts.eval(c) {
	case 1:
		return st, nil
	case 0:
		return nil, st
	}
	a, b := st.clone(), st.clone()
	a.assume(c, true)
	b.assume(c, false)
	if a.facts.bad {
		a = nil
	}
	if b.facts.bad {
		b = nil
	}
	return a, b
}

// returns splits exits into returns and panics.
func returns(xs []Exit) (ret, pan []Exit) {
	for _, x := range xs {
		if x.kind == xReturn {
			ret = append(ret, x)
		} else {
			pan = append(pan, x)
		}
	}
	return
}

func (h *H) start() *State {
	st := newState()
	return st
}

// internCases runs one obligation per interning type.
func (R *Report) internCases(rule string, f func(h *H, c *internCase)) {
	R.P.initCaps()
	capEnabled = true
	for _, it := range internTypes {
		c := R.internCase(it)
		if c == nil {
			continue
		}
		h := R.harness(rule, it.name)
		h.run(func() { f(h, c) })
	}
	R.floor(rule, len(internTypes))
}

// indexItem runs Index(args); refusals need an empty or oversized item or a
// full container.
func (c *internCase) indexItem(h *H, st *State, recv *Term, args []*Term) (ret []Exit) {
	ret0, pan := returns(h.meth(st, c.T, recv, "Index", args...))
	for _, x := range ret0 {
		if !c.empty(h, x, args) {
			ret = append(ret, x)
		}
	}
	for _, x := range pan {
		h.must(x, "Index refuses an item although it fits and IDs are left", nil, func(f *Facts) bool {
			if !c.tag && (f.proveLe(tLen(args[0]), tInt(0)) || f.proveLt(tInt(c.maxLen), tLen(args[0]))) {
				return true
			}
			return len(fullTables(f)) > 0
		})
	}
	return
}

// Index(s) = id, then Get(id) finds s.
func propIndexGet(R *Report) {
	R.internCases("index-then-get", func(h *H, c *internCase) {
		st := h.start()
		recv := h.ptr("recv", c.T)
		args, want := c.item(h, st, false)
		for _, x := range c.indexItem(h, st, recv, args) {
			for _, y := range c.get(h, x.st, recv, x.res[0]) {
				h.must(y.x, "Get does not find the ID Index just issued", []*Term{y.found, y.val}, h.boolIs(y.found, true))
				ts, goal := c.gives(h, y, want)
				h.must(y.x, "Get of the ID Index issued returns another item", ts, goal)
			}
		}
	})
}

// refusesEmpty: containers in which the empty set has no identifier; in the
// others it is identifier 0 and indexing it does nothing.
var refusesEmpty = map[string]bool{"Table8": true, "Table16": true, "Collection8x8": true, "Collection16": true, "TagSetTable": true}

func propEmpty(R *Report) {
	R.internCases("empty-set", func(h *H, c *internCase) {
		if c.tag {
			h.paths++
			return
		}
		st := h.start()
		recv := h.ptr("recv", c.T)
		args, _ := c.item(h, st, false)
		st.assume(tEqInt(tLen(args[0]), tInt(0)), true)
		m0 := st.mem
		xs, _ := returns(h.meth(st, c.T, recv, "Index", args...))
		h.paths++
		for _, x := range xs {
			if h.contra(x.st.facts) {
				continue
			}
			if refusesEmpty[c.name] {
				h.fail("Index accepts the empty set"+pathNote(x), x.pos)
				continue
			}
			h.must(x, "the empty set gets an identifier other than 0", []*Term{x.res[0]}, h.intEq(x.res[0], tInt(0)))
			h.untouched(x, m0, "Index of the empty set")
		}
		if len(xs) == 0 && !refusesEmpty[c.name] {
			h.fail("Index refuses the empty set", 0)
		}
		_, isRows := rows[c.name]
		if !isRows || !refusesEmpty[c.name] {
			return
		}
		for _, x := range h.noPanic(h.meth(st, c.T, recv, "Find", args...), "Find") {
			h.must(x, "the empty set is found", []*Term{x.res[1]}, h.boolIs(x.res[1], false))
		}
	})
}

// Equal items share one ID and different items never do.
func propDedup(R *Report) {
	R.internCases("find-then-get", func(h *H, c *internCase) {
		st := h.start()
		recv := h.ptr("recv", c.T)
		args, want := c.item(h, st, true)
		c.nonEmpty(st, args)
		xs, ps := returns(h.meth(st, c.T, recv, "Find", c.findArgs(args)...))
		for _, p := range ps {
			if !h.contra(p.st.facts) {
				h.fail("Find may panic"+pathNote(p), p.pos)
			}
		}
		for _, x := range xs {
			if c.empty(h, x, args) {
				continue
			}
			yes, _ := h.branch(x.st, x.res[1])
			if yes == nil {
				continue
			}
			for _, y := range c.get(h, yes, recv, x.res[0]) {
				h.must(y.x, "Get does not find the ID Find reported", []*Term{y.found, y.val}, h.boolIs(y.found, true))
				ts, goal := c.gives(h, y, want)
				h.must(y.x, "Find reports the ID of another item", ts, goal)
			}
		}
	})
	R.internCases("empty-set-unknown", func(h *H, c *internCase) {
		if c.tag {
			h.paths++
			return
		}
		st := h.start()
		recv := h.ptr("recv", c.T)
		args, want := c.item(h, st, true)
		st.assume(tEqInt(tLen(args[0]), tInt(0)), true)
		xs, _ := returns(h.meth(st, c.T, recv, "Find", c.findArgs(args)...))
		h.paths++
		for _, x := range xs {
			yes, _ := h.branch(x.st, x.res[1])
			if yes == nil {
				continue
			}
			for _, y := range c.get(h, yes, recv, x.res[0]) {
				ts, goal := c.gives(h, y, want)
				h.must(y.x, "Find reports the ID of another item for the empty set", ts, goal)
			}
		}
	})
	R.internCases("index-of-known", func(h *H, c *internCase) {
		st := h.start()
		recv := h.ptr("recv", c.T)
		args, _ := c.item(h, st, true)
		c.nonEmpty(st, args)
		xs, _ := returns(h.meth(st, c.T, recv, "Find", c.findArgs(args)...))
		for _, x := range xs {
			if c.empty(h, x, args) {
				continue
			}
			yes, _ := h.branch(x.st, x.res[1])
			if yes == nil {
				continue
			}
			m0 := yes.mem
			ys, ps := returns(h.meth(yes, c.T, recv, "Index", args...))
			for _, p := range ps {
				if !h.contra(p.st.facts) {
					h.fail("Index of a known item may panic"+pathNote(p), p.pos)
				}
			}
			for _, y := range ys {
				h.must(y, "Index gives a known item another ID", []*Term{y.res[0], x.res[0]}, h.intEq(y.res[0], x.res[0]))
				if w := writesOutside(y, m0); len(w) > 0 && !h.contra(y.st.facts) {
					h.fail("Index of a known item "+w[0]+pathNote(y), y.pos)
				}
			}
		}
	})
	R.internCases("index-of-new", func(h *H, c *internCase) {
		st := h.start()
		recv := h.ptr("recv", c.T)
		args, _ := c.item(h, st, true)
		c.nonEmpty(st, args)
		other := param("otherID", c.idT)
		for _, g := range c.get(h, st, recv, other) {
			yes, _ := h.branch(g.x.st, g.found)
			if yes == nil {
				continue
			}
			xs, _ := returns(h.meth(yes, c.T, recv, "Find", c.findArgs(args)...))
			for _, x := range xs {
				if c.empty(h, x, args) {
					continue
				}
				_, no := h.branch(x.st, x.res[1])
				if no == nil {
					continue
				}
				ys, _ := returns(h.meth(no, c.T, recv, "Index", args...))
				for _, y := range ys {
					h.paths++
					f := y.st.facts.substAll(other, y.res[0])
					if !f.bad && !h.contra(f) {
						h.dump(f, nil)
						h.fail("Index gives a new item an ID already resolving to another one"+pathNote(y), y.pos)
					}
				}
			}
		}
	})
	R.internCases("index-then-find", func(h *H, c *internCase) {
		st := h.start()
		recv := h.ptr("recv", c.T)
		args, _ := c.item(h, st, false)
		for _, x := range c.indexItem(h, st, recv, args) {
			ys, ps := returns(h.meth(x.st, c.T, recv, "Find", c.findArgs(args)...))
			for _, p := range ps {
				if !h.contra(p.st.facts) {
					h.fail("Find may panic"+pathNote(p), p.pos)
				}
			}
			for _, y := range ys {
				h.must(y, "Find does not find an item just indexed", []*Term{y.res[1]}, h.boolIs(y.res[1], true))
				h.must(y, "Find gives an indexed item another ID", []*Term{y.res[0], x.res[0]}, h.intEq(y.res[0], x.res[0]))
			}
		}
	})
}

// rows: methods giving the row of an ID in the containers of rows of sets of
// one length; row k holds the sets of length k+off.
var rows = map[string]struct {
	upper string
	off   int64
}{
	"Collection8x8": {"Upper", 1}, "Collection16": {"Upper16", 1},
	"TagSetIndex": {"TagSetTableNumber", 1}, "VariantsIndex": {"TableNum", 0},
}

// rowInvariant: the length of the set follows from its ID.
func (c *internCase) rowInvariant(h *H, st *State, id, set *Term) (xs []Exit, cond func(row *Term) *Term) {
	r, ok := rows[c.name]
	if !ok {
		return []Exit{{kind: xReturn, st: st, res: []*Term{tInt(0)}}}, func(*Term) *Term { return tTrue() }
	}
	T, _ := c.idT.(*types.Named)
	if T == nil {
		panic(abortErr{"the ID type of " + c.name + " has no name"})
	}
	fn := h.P.methodOf(T, r.upper)
	if fn == nil {
		panic(abortErr{"method " + r.upper + " not found"})
	}
	return h.noPanic(h.call(st, fn, id), r.upper), func(row *Term) *Term { return tEqInt(tLen(set), tAddK(row, r.off)) }
}

// Every item an ID resolves to is found.
func propFindComplete(R *Report) {
	R.internCases("known-is-found", func(h *H, c *internCase) {
		st := h.start()
		recv := h.ptr("recv", c.T)
		id := param("id", c.idT)
		for _, g := range c.get(h, st, recv, id) {
			yes, _ := h.branch(g.x.st, g.found)
			if yes == nil {
				continue
			}
			item := g.val
			if c.tag {
				item = h.e.field(yes, g.val, c.nameField(), c.itemT)
			} else {
				yes.assume(tLt(tInt(0), tLen(item)), true)
			}
			rs, inv := c.rowInvariant(h, yes, id, item)
			for _, r := range rs {
				r.st = r.st.clone()
				r.st.assume(inv(r.res[0]), true)
				if r.st.facts.bad {
					continue
				}
				for _, x := range h.noPanic(h.meth(r.st, c.T, recv, "Find", item), "Find") {
					h.must(x, "Find does not find an item of the container", []*Term{x.res[1], item}, h.boolIs(x.res[1], true))
				}
			}
		}
	})
	// the assumption above: Index puts a set into the row of its length
	R.internCases("row-of-length", func(h *H, c *internCase) {
		st := h.start()
		recv := h.ptr("recv", c.T)
		args, _ := c.item(h, st, false)
		for _, x := range c.indexItem(h, st, recv, args) {
			rs, inv := c.rowInvariant(h, x.st, x.res[0], args[0])
			for _, r := range rs {
				cond := inv(r.res[0])
				h.must(r, "Index puts a set among sets of another length", []*Term{cond, r.res[0]}, func(f *Facts) bool { return f.eval(renorm(f, cond)) == 1 })
			}
		}
	})
}

// Indexing one item never changes what any other ID resolves to.
func propStable(R *Report) {
	R.internCases("ids-stay", func(h *H, c *internCase) {
		st := h.start()
		recv := h.ptr("recv", c.T)
		other := param("otherID", c.idT)
		args, _ := c.item(h, st, false)
		for _, g := range c.get(h, st, recv, other) {
			yes, _ := h.branch(g.x.st, g.found)
			if yes == nil {
				continue
			}
			before := g.val
			if c.tag {
				before = renorm(yes.facts, before)
			} else {
				before = seqVal(yes.facts, yes.mem, before)
			}
			for _, x := range c.indexItem(h, yes, recv, args) {
				for _, y := range c.get(h, x.st, recv, other) {
					h.must(y.x, "an ID issued before is not found after Index of another item", []*Term{y.found, y.val}, h.boolIs(y.found, true))
					ts := []*Term{y.val, before}
					if c.tag {
						h.must(y.x, "an ID issued before resolves to another item after Index", ts, h.valSame(y.x.st.mem, y.val, y.x.st.mem, before))
						continue
					}
					h.must(y.x, "an ID issued before resolves to another item after Index", ts, func(f *Facts) bool {
						v := renorm(f, seqVal(f, y.x.st.mem, renorm(f, y.val)))
						return seqTermsEq(f, v, renorm(f, before))
					})
				}
			}
		}
	})
}

// Indexing an item makes no identifier resolvable but the one it returns.
func propNoPhantom(R *Report) {
	R.internCases("no-other-ids", func(h *H, c *internCase) {
		st := h.start()
		recv := h.ptr("recv", c.T)
		other := param("otherID", c.idT)
		args, _ := c.item(h, st, false)
		for _, g := range c.get(h, st, recv, other) {
			_, no := h.branch(g.x.st, g.found)
			if no == nil {
				continue
			}
			for _, x := range c.indexItem(h, no, recv, args) {
				for _, y := range c.get(h, x.st, recv, other) {
					z := y.x
					yes, _ := h.branch(z.st, y.found)
					if yes == nil {
						continue
					}
					z.st = yes
					h.must(z, "Index makes an identifier resolvable which it does not return", []*Term{other, x.res[0], y.val}, h.intEq(other, x.res[0]))
				}
			}
		}
	})
}

// fullTables: containers the facts show to be full.
func fullTables(f *Facts) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	for _, l := range f.les {
		for _, a := range l.at {
			if a.op != OLen || seen[a] {
				continue
			}
			seen[a] = true
			if a.args[0].typ == nil {
				continue
			}
			if c, ok := typeCap(a.args[0].typ); ok && f.proveLe(tInt(c), a) {
				r = append(r, a)
			}
		}
	}
	return r
}

func init() {
	register("C02", func(R *Report) { propIndexGet(R); propEmpty(R) })
	register("C03", func(R *Report) { propDedup(R); propFindComplete(R) })
	register("C04", func(R *Report) { propStable(R); propNoPhantom(R) })
	_ = fmt.Sprint
}
