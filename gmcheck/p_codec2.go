package main

// More about codecs: stream failures surface, byte counts are right, nothing
// storable is refused, and reading arbitrary bytes does not panic.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// codecRun runs one codec method on an arbitrary object and stream.
func (h *H) codecRun(c codec, method string) (xs []Exit, st0 *State, T *types.Named, recv *Term) {
	T = h.mustType(c.pkg, c.typ)
	hook := &codecHook{h: h, root: T}
	h.e.hook = hook.call
	st := h.start()
	recv = h.ptr("object", T)
	fn := h.mustMethod(c.pkg, c.typ, method)
	var args []*Term
	for i := 1; i < len(fn.Params); i++ {
		a := param("stream", fn.Params[i].Type())
		if !isSlice(a.typ) {
			st.assume(tEq(a, tNil()), false)
		}
		args = append(args, a)
	}
	st0 = st.clone()
	return h.meth(st, T, recv, method, args...), st0, T, recv
}

// codecMethods runs f for every reader and writer of the packages.
func (R *Report) codecMethods(rule string, noChk, writers, readers bool, pkgs []string, f func(h *H, c codec, method string, fn *ssa.Function)) {
	R.P.initCaps()
	capEnabled = true
	done := map[string]bool{}
	n := 0
	for _, c := range codecs {
		in := false
		for _, p := range pkgs {
			in = in || c.pkg == p
		}
		if !in {
			continue
		}
		for _, m := range []string{c.w, c.r} {
			if m == c.w && !writers || m == c.r && !readers || done[c.pkg+c.typ+m] {
				continue
			}
			done[c.pkg+c.typ+m] = true
			n++
			c, m := c, m
			h := R.harness(rule, c.typ+"."+m)
			h.noChk = noChk
			h.run(func() { f(h, c, m, h.mustMethod(c.pkg, c.typ, m)) })
		}
	}
	R.floor(rule, n)
}

// mayFailSilently finds an operation whose failure is compatible with facts f.
func (h *H) mayFailSilently(f *Facts, evs []*Event) *Event {
	for _, e := range evs {
		switch e.kind {
		case "io":
			if !h.prove(f, []*Term{errOf(e)}, func(g *Facts) bool { return isErrNil(g, renorm(g, errOf(e))) == 1 }) {
				return e
			}
		case "rep":
			for _, b := range e.loop.backs {
				if o := h.mayFailSilently(b.st.facts, b.events); o != nil {
					return o
				}
			}
		}
	}
	return nil
}

func propErrors(pkgs ...string) func(R *Report) {
	return func(R *Report) {
		R.codecMethods("stream-errors", true, true, true, pkgs, func(h *H, c codec, m string, fn *ssa.Function) {
			if m == "MarshalBinary" || m == "UnmarshalBinary" {
				h.paths++
				return
			}
			xs, _, _, _ := h.codecRun(c, m)
			xs, _ = returns(xs)
			for _, x := range h.okExits(xs) {
				h.paths++
				if o := h.mayFailSilently(x.st.facts, eventsSince(x.st.ev, nil)); o != nil && !h.contra(x.st.facts) {
					h.fail("reports success although the stream operation at "+h.P.pos(o.pos)+" may have failed"+pathNote(x), x.pos)
				}
			}
		})
	}
}

func propCounts(pkgs ...string) func(R *Report) {
	return func(R *Report) {
		R.codecMethods("byte-count", true, true, true, pkgs, func(h *H, c codec, m string, fn *ssa.Function) {
			if fn.Signature.Results().Len() != 2 || m == "MarshalBinary" {
				h.paths++
				return
			}
			xs, _, _, _ := h.codecRun(c, m)
			xs, _ = returns(xs)
			for _, x := range xs {
				h.paths++
				n, exact := traceBytes(x.st.facts, ioTrace(eventsSince(x.st.ev, nil)))
				if n == nil {
					if !h.contra(x.st.facts) {
						h.fail("the number of bytes moved is not decided"+pathNote(x), x.pos)
					}
					continue
				}
				goal := h.intEq(x.res[0], n)
				if !exact && x.res[0].op == OCall {
					continue // the stream's own counter after a failed operation
				}
				h.must(x, "the byte count returned is not the number of bytes moved", []*Term{x.res[0], n}, goal)
			}
		})
	}
}

func propAccepts(pkgs ...string) func(R *Report) {
	return func(R *Report) {
		R.codecMethods("accepts", true, true, false, pkgs, func(h *H, c codec, m string, fn *ssa.Function) {
			xs, st0, T, recv := h.codecRun(c, m)
			orig := load(st0.facts, st0.mem, recv, T)
			for _, x := range xs {
				h.paths++
				f := noIOErrors(x.st.facts, ioTrace(eventsSince(x.st.ev, nil)))
				if x.kind == xReturn && isErrNil(f, x.res[len(x.res)-1]) == 1 || f.bad {
					continue
				}
				x.st = x.st.clone()
				x.st.facts = f
				if x.kind == xReturn {
					x.st.assume(tEq(x.res[len(x.res)-1], tNil()), false)
				}
				if x.st.facts.bad || h.contra(x.st.facts) {
					continue
				}
				what := "refuses to write an object the format can hold"
				if x.kind != xReturn {
					what = "may panic when writing an object the format can hold"
				}
				h.must(x, what, []*Term{orig}, func(f *Facts) bool {
					if c.typ == "TagName" {
						return f.proveNeInt(tLen(orig), tInt(4)) && f.proveNeInt(tLen(orig), tInt(0))
					}
					return c.max >= 0 && f.proveLt(tInt(c.max), tLen(renorm(f, orig)))
				})
			}
		})
	}
}

func propReadTotal(pkgs ...string) func(R *Report) {
	return func(R *Report) {
		R.codecMethods("reading-never-panics", false, false, true, pkgs, func(h *H, c codec, m string, fn *ssa.Function) {
			xs, _, _, _ := h.codecRun(c, m)
			xs = h.noPanic(xs, "reading")
			h.paths += len(xs)
		})
	}
}

func init() {
	all := []string{"pkg/storage", "pkg/dag", "internal/index"}
	register("C09", propErrors(all...))
	register("C10", propCounts(all...))
	register("C11", propAccepts(all...))
	register("C12", propReadTotal(all...))
}
