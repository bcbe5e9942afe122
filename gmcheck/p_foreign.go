package main

// Data of another kind is refused: what a writer always puts at a place is
// demanded there by the reader.

// fixedParts: by position of the trace, the value written there on every
// successful path; the loops and the steps after a loop are left out.
func fixedParts(h *H, c codec) (parts []*Term, size int64) {
	size = -1
	xs, _, _, _ := h.codecRun(c, c.w)
	first := true
	xs = h.okExits(xs)
	if sig := h.mustMethod(c.pkg, c.typ, c.w).Signature; sig.Params().Len() == 0 && sig.Results().Len() == 2 {
		// bytes made: always as many?
		for _, x := range xs {
			if l := toLin(renorm(x.st.facts, tLen(x.res[0]))); l.isConst() {
				size = l.c
			}
		}
		for _, x := range xs {
			n := tLen(x.res[0])
			if size >= 0 && !h.prove(x.st.facts, []*Term{n}, h.intEq(n, tInt(size))) {
				size = -1
			}
		}
		return
	}
	for _, x := range xs {
		var now []*Term
		for _, s := range ioTrace(eventsSince(x.st.ev, nil)) {
			if s.li != nil {
				break
			}
			var v *Term
			if s.ev.io.kind != "obj" && len(s.ev.args) == 1 && isConstTerm(s.ev.args[0]) {
				v = s.ev.args[0]
			}
			now = append(now, v)
		}
		if first {
			parts = now
		} else {
			for i := range parts {
				if i >= len(now) || parts[i] != now[i] {
					parts[i] = nil
				}
			}
		}
		first = false
	}
	return
}

func (R *Report) foreignData() {
	for _, c := range codecs {
		c := c
		h := R.harness("marker-demanded", c.typ+"."+c.r)
		h.noChk, h.soft = true, true
		n := 0
		h.run(func() {
			parts, size := fixedParts(h, c)
			for _, p := range parts {
				if p != nil {
					n++
				}
			}
			if size >= 0 {
				n++
			}
			if n == 0 {
				h.paths++
				return
			}
			xs, _, _, _ := h.codecRun(c, c.r)
			var rargs []*Term
			for _, p := range h.mustMethod(c.pkg, c.typ, c.r).Params[1:] {
				rargs = append(rargs, param("stream", p.Type()))
			}
			for _, x := range h.okExits(xs) {
				h.paths++
				if size >= 0 {
					for _, a := range rargs {
						if isSlice(a.typ) {
							h.must(x, "bytes are accepted of another length than the one always written", []*Term{tLen(a)}, h.intEq(tLen(a), tInt(size)))
						}
					}
				}
				rs := ioTrace(eventsSince(x.st.ev, nil))
				for i, p := range parts {
					if p == nil {
						continue
					}
					if i >= len(rs) || rs[i].li != nil || rs[i].ev.io.kind == "obj" {
						h.fail("the marker "+p.String()+" is not read"+pathNote(x), x.pos)
						continue
					}
					got := rs[i].ev.res[0]
					h.must(x, "data is accepted which has something else in place of the marker "+p.String(), []*Term{got}, func(f *Facts) bool {
						return f.eval(renorm(f, tEq(got, p))) == 1
					})
				}
			}
		})
		if n > 0 || h.failed > 0 {
			h.commit()
		}
	}
	R.floor("marker-demanded", 1)
}

func init() {
	register("C23", func(R *Report) {
		R.P.initCaps()
		capEnabled = true
		R.foreignData()
	})
}
