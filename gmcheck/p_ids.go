package main

// ID packing, container capacity, and lookups that neither panic nor write.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// value calls a method of a plain value.
func (h *H) value(st *State, pkg, typ, name string, recv *Term, args ...*Term) []Exit {
	return h.call(st, h.mustMethod(pkg, typ, name), append([]*Term{recv}, args...)...)
}

func (h *H) mustMethod(pkg, typ, name string) *ssa.Function {
	T := h.P.Type(pkg, typ)
	if T == nil {
		panic(abortErr{"type " + typ + " not found"})
	}
	fn := h.P.methodOf(T, name)
	if fn == nil || len(fn.Blocks) == 0 {
		panic(abortErr{"method " + typ + "." + name + " not found"})
	}
	return fn
}

func (h *H) mustFn(pkg, name string) *ssa.Function {
	fn := h.P.Fn(pkg, name)
	if fn == nil || len(fn.Blocks) == 0 {
		panic(abortErr{"function " + name + " not found"})
	}
	return fn
}

func (h *H) mustType(pkg, typ string) *types.Named {
	T := h.P.Type(pkg, typ)
	if T == nil {
		panic(abortErr{"type " + typ + " not found"})
	}
	return T
}

func (h *H) noPanic(xs []Exit, what string) (ret []Exit) {
	ret, pan := returns(xs)
	for _, p := range pan {
		if !h.contra(p.st.facts) {
			h.fail(what+" may panic"+pathNote(p), p.pos)
		}
	}
	return
}

type packCase struct {
	pkg, hiT, loT, idT string
	pack               func(h *H, st *State, hi, lo *Term) []Exit
	upper, lower       string
}

func propPacking(R *Report) {
	cases := []packCase{
		{"pkg/storage", "ID8", "ID8", "ID16", func(h *H, st *State, hi, lo *Term) []Exit {
			return h.call(st, h.mustFn("pkg/storage", "Combine8"), hi, lo)
		}, "Upper", "Lower"},
		{"pkg/storage", "ID16", "ID16", "ID32", func(h *H, st *State, hi, lo *Term) []Exit {
			return h.call(st, h.mustFn("pkg/storage", "Combine16"), hi, lo)
		}, "Upper16", "Lower16"},
		{"internal/index", "TagSetTableNumber", "TagSetSubID", "TagSetID", func(h *H, st *State, hi, lo *Term) []Exit {
			return h.value(st, "internal/index", "TagSetTableNumber", "TagSetID", hi, lo)
		}, "TagSetTableNumber", "TagSetSubID"},
		{"internal/index", "CollectionTableNumber", "VariantSubID", "VariantID", func(h *H, st *State, hi, lo *Term) []Exit {
			return h.value(st, "internal/index", "CollectionTableNumber", "VariantID", hi, lo)
		}, "TableNum", "CollectionTableID"},
	}
	for _, c := range cases {
		c := c
		h := R.harness("unpack-of-pack", c.idT)
		h.run(func() {
			st := h.start()
			hi, lo := param("hi", h.mustType(c.pkg, c.hiT)), param("lo", h.mustType(c.pkg, c.loT))
			for _, x := range h.noPanic(c.pack(h, st, hi, lo), "packing") {
				for _, y := range h.noPanic(h.value(x.st, c.pkg, c.idT, c.upper, x.res[0]), "unpacking") {
					h.must(y, "the upper part of a packed ID is not the packed one", []*Term{y.res[0], hi}, h.intEq(y.res[0], hi))
				}
				for _, y := range h.noPanic(h.value(x.st, c.pkg, c.idT, c.lower, x.res[0]), "unpacking") {
					h.must(y, "the lower part of a packed ID is not the packed one", []*Term{y.res[0], lo}, h.intEq(y.res[0], lo))
				}
			}
		})
		h = R.harness("pack-of-unpack", c.idT)
		h.run(func() {
			st := h.start()
			id := param("id", h.mustType(c.pkg, c.idT))
			for _, x := range h.noPanic(h.value(st, c.pkg, c.idT, c.upper, id), "unpacking") {
				for _, y := range h.noPanic(h.value(x.st, c.pkg, c.idT, c.lower, id), "unpacking") {
					for _, z := range h.noPanic(c.pack(h, y.st, x.res[0], y.res[0]), "packing") {
						h.must(z, "packing the parts of an ID gives another ID", []*Term{z.res[0], id}, h.intEq(z.res[0], id))
					}
				}
			}
		})
	}
	// conversions keep the number
	for _, c := range [][3]string{
		{"pkg/storage", "ID8", "Uint8"}, {"pkg/storage", "ID32", "Uint32"},
		{"pkg/dag", "TagID", "Uint8"},
		{"internal/index", "TagSetSubID", "ID16"}, {"internal/index", "TagSetSubID", "Int"},
		{"internal/index", "TagSetTableNumber", "ID16"}, {"internal/index", "TagSetTableNumber", "Int"},
		{"internal/index", "VariantSubID", "ID16"}, {"internal/index", "CollectionTableNumber", "ID16"},
	} {
		c := c
		h := R.harness("conversion", c[1]+"."+c[2])
		h.run(func() {
			st := h.start()
			id := param("id", h.mustType(c[0], c[1]))
			for _, x := range h.noPanic(h.value(st, c[0], c[1], c[2], id), "conversion") {
				h.must(x, "the conversion changes the number", []*Term{x.res[0], id}, h.intEq(x.res[0], id))
			}
		})
	}
	R.floor("unpack-of-pack", len(cases))
}

// containers never grow beyond what their IDs can address.
func propCapacity(R *Report) {
	R.internCases("capacity", func(h *H, c *internCase) {
		limit, ok := typeCap(c.T)
		if !ok {
			panic(abortErr{"no capacity known"})
		}
		st := h.start()
		recv := h.ptr("recv", c.T)
		args, _ := c.item(h, st, false)
		xs, _ := returns(h.meth(st, c.T, recv, "Index", args...))
		for _, x := range xs {
			v := load(x.st.facts, x.st.mem, recv, c.T)
			h.must(x, fmt.Sprintf("Index may grow the container beyond %d elements", limit), []*Term{v}, func(f *Facts) bool {
				return f.proveLe(tLen(renorm(f, v)), tInt(limit))
			})
			et, _ := elemType(c.T).(*types.Named)
			if et == nil {
				continue
			}
			inner, ok := typeCap(et)
			if !ok {
				continue
			}
			j := param("j", types.Typ[types.Int])
			y := x
			y.st = x.st.clone()
			y.st.assume(tLe(tInt(0), j), true)
			y.st.assume(tLt(j, tLen(v)), true)
			if y.st.facts.bad {
				continue
			}
			w := load(y.st.facts, y.st.mem, tIndexAddr(v, j, types.NewPointer(et)), et)
			h.must(y, fmt.Sprintf("Index may grow an inner table beyond %d elements", inner), []*Term{w}, func(f *Facts) bool {
				return f.proveLe(tLen(renorm(f, w)), tInt(inner))
			})
		}
	})
}

type lookup struct{ pkg, typ, name string }

var lookups = []lookup{
	{"pkg/storage", "Table8", "Find"}, {"pkg/storage", "Table8", "Get"},
	{"pkg/storage", "Table16", "Find"}, {"pkg/storage", "Table16", "Get"},
	{"pkg/storage", "Collection8x8", "Find"}, {"pkg/storage", "Collection8x8", "Get"},
	{"pkg/storage", "Collection16", "Find"}, {"pkg/storage", "Collection16", "Get"},
	{"pkg/storage", "Set8", "EqualTo"}, {"pkg/storage", "Set16", "EqualTo"},
	{"pkg/storage", "Set8", "Len"}, {"pkg/storage", "Set16", "Len"},
	{"pkg/dag", "Idx", "Find"}, {"pkg/dag", "Idx", "Get"}, {"pkg/dag", "Idx", "Len"},
	{"internal/index", "TagSet", "EqualTo"}, {"internal/index", "TagSet", "Len"},
	{"internal/index", "TagSetTable", "Find"}, {"internal/index", "TagSetTable", "Get"}, {"internal/index", "TagSetTable", "Len"},
	{"internal/index", "TagSetIndex", "Find"}, {"internal/index", "TagSetIndex", "Get"}, {"internal/index", "TagSetIndex", "Size"},
	{"internal/index", "TagSetIndex", "TableIDs"},
	{"internal/index", "TagSetIDCollection", "EqualTo"}, {"internal/index", "TagSetIDCollection", "Has"},
	{"internal/index", "TagSetIDCollection", "Add"}, {"internal/index", "TagSetIDCollection", "Len"},
	{"internal/index", "VariantsTable", "Find"}, {"internal/index", "VariantsTable", "Get"}, {"internal/index", "VariantsTable", "Following"},
	{"internal/index", "VariantsIndex", "Find"}, {"internal/index", "VariantsIndex", "Get"}, {"internal/index", "VariantsIndex", "Table"},
	{"internal/index", "VariantsIndex", "KnownID"}, {"internal/index", "VariantsIndex", "Tables"},
	{"internal/index", "CollectionIDList", "Has"},
}

// lookups answer for every argument, without panicking or changing anything.
func propLookups(R *Report) {
	R.P.initCaps()
	capEnabled = true
	for _, l := range lookups {
		l := l
		h := R.harness("total-and-read-only", l.typ+"."+l.name)
		h.e.wantChk = true
		h.run(func() {
			T := h.mustType(l.pkg, l.typ)
			fn := h.mustMethod(l.pkg, l.typ, l.name)
			st := h.start()
			recv := h.ptr("recv", T)
			var args []*Term
			for i := 1; i < len(fn.Params); i++ {
				args = append(args, param(fmt.Sprintf("arg%d", i), fn.Params[i].Type()))
			}
			m0 := st.mem
			for _, x := range h.noPanic(h.meth(st, T, recv, l.name, args...), l.name) {
				h.paths++
				if w := writesOutside(x, m0); len(w) > 0 && !h.contra(x.st.facts) {
					h.fail(w[0]+pathNote(x), x.pos)
				}
			}
		})
	}
	R.floor("total-and-read-only", len(lookups))
}

func init() {
	register("C01", propPacking)
	register("C05", propCapacity)
	register("C06", propLookups)
}
