package main

// Reading the source: every form of every lemma reaches the index with the
// tags of its lemma and its own, every grammeme with its parent.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reader drives the token processor ParseUpdate hands to the XML parser.
type reader struct {
	h     *H
	p     *Term
	T     types.Type
	index *Term
	begin *State
	split bool     // keep every path
	one   []number // after the first lemma
}

// parserSteps: the index is not entered; what it answers is not known.
var parserSteps = steps("Index.AddString", "Index.AddRunes", "Index.AddToNode", "Index.TagID", "Node.AddTagSet", "Node.Item", "Index.TagSet")

func (h *H) reader() *reader {
	rd := &reader{h: h}
	c := &loaderCalls{steps: steps("Loader.SaveIndex", "index.New")}
	h.e.hook = func(e *Engine, fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, args []*Term, resT *types.Tuple) (bool, []Exit) {
		if shortFn(fn) == "libxml.ParseXMLFile" && len(args) == 2 {
			rd.p, rd.begin = bare(args[1]), st
		}
		return c.call(e, fr, st, site, name, fn, args, resT)
	}
	l := h.loader()
	str := types.Typ[types.String]
	l.meth(l.st, "ParseUpdate", param("fromFile", str), param("toFile", str))
	if rd.p == nil || rd.p.typ == nil {
		panic(abortErr{"no parser is handed to ParseXMLFile"})
	}
	p, ok := rd.p.typ.Underlying().(*types.Pointer)
	if !ok {
		panic(abortErr{"the parser is not a pointer"})
	}
	rd.T = p.Elem()
	rd.begin = rd.begin.clone()
	rd.begin.ev = nil
	h.e.hook = parserCalls
	return rd
}

// parserCalls: calls of the index, directly or through the interfaces.
func parserCalls(e *Engine, fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, args []*Term, resT *types.Tuple) (bool, []Exit) {
	return (&loaderCalls{steps: parserSteps}).call(e, fr, st, site, name, fn, args, resT)
}

type attr struct {
	name  string
	value *Term
}

// xmlType: a type of encoding/xml, by the parameter the method takes.
func (rd *reader) param(method string) types.Type {
	fn := rd.h.P.methodOf(rd.T, method)
	if fn == nil {
		fn = rd.h.P.methodOf(types.NewPointer(rd.T), method)
	}
	if fn == nil {
		panic(abortErr{"no method " + method})
	}
	return fn.Params[1].Type()
}

func withField(x *Term, name string, v *Term) *Term {
	u := x.typ.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return tStructWith(x, i, v)
		}
	}
	panic(abortErr{"no field " + name})
}

func fieldType(T types.Type, name string) types.Type {
	u := T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return u.Field(i).Type()
		}
	}
	panic(abortErr{"no field " + name})
}

func xmlName(T types.Type, local *Term) *Term {
	n := tZero(fieldType(T, "Name"))
	n = withField(n, "Space", tStr(""))
	return withField(n, "Local", local)
}

func (rd *reader) feed(sts []*State, method string, v *Term) (good []*State, bad []Exit) {
	for _, st := range sts {
		if st.facts.bad {
			continue
		}
		fn := rd.h.P.methodOf(rd.T, method)
		if fn == nil {
			fn = rd.h.P.methodOf(types.NewPointer(rd.T), method)
		}
		recv := rd.p
		if _, ptr := fn.Signature.Recv().Type().(*types.Pointer); !ptr {
			recv = load(st.facts, st.mem, rd.p, rd.T)
		}
		for _, x := range rd.h.noPanic(rd.h.call(st, fn, recv, v), method) {
			e := x.res[0]
			if o := errOutcome(x.st.facts, e); o < 0 {
				bad = append(bad, x)
				continue
			}
			a, b := rd.h.branch(x.st, tEq(e, tNil()))
			if a != nil {
				good = append(good, a)
			}
			if b != nil {
				y := x
				y.st = b
				bad = append(bad, y)
			}
		}
	}
	if rd.split {
		return good, bad
	}
	return rd.merge(good), bad
}

// merge drops states which nothing distinguishes but the path taken.
func (rd *reader) merge(sts []*State) []*State {
	var out []*State
	seen := map[string]bool{}
	for _, s := range sts {
		k := fmt.Sprint(s.mem.id)
		for _, e := range eventsSince(s.ev, nil) {
			if e.kind == "step" {
				k += fmt.Sprint(" ", e.name, e.args)
			}
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

func (rd *reader) open(sts []*State, name string, attrs ...attr) ([]*State, []Exit) {
	T := rd.param("ProcessStartElement")
	AT := fieldType(T, "Attr")
	args := []*Term{tNil()}
	for _, a := range attrs {
		v := tZero(AT.Underlying().(*types.Slice).Elem())
		v = withField(v, "Name", xmlName(v.typ, tStr(a.name)))
		args = append(args, withField(v, "Value", a.value))
	}
	list := mk(OAppend, AT, true, int64(len(attrs)), "arg", nil, initMem(), nil, args...)
	x := withField(tZero(T), "Name", xmlName(T, tStr(name)))
	return rd.feed(sts, "ProcessStartElement", withField(x, "Attr", list))
}

func (rd *reader) close(sts []*State, name string) ([]*State, []Exit) {
	T := rd.param("ProcessEndElement")
	return rd.feed(sts, "ProcessEndElement", withField(tZero(T), "Name", xmlName(T, tStr(name))))
}

func (rd *reader) text(sts []*State, v *Term) ([]*State, []Exit) {
	T := rd.param("ProcessCharData")
	return rd.feed(sts, "ProcessCharData", mk(OConv, T, false, 0, "bytes", nil, nil, nil, v))
}

// must continue on the paths without an error; refusals are failures unless
// a step of the index failed on them.
func (rd *reader) ok(what string) func(sts []*State, bad []Exit) []*State {
	return func(sts []*State, bad []Exit) []*State {
		rd.h.paths++
		for _, x := range bad {
			if !rd.stepFailed(x.st) && !rd.h.contra(x.st.facts) {
				rd.h.fail(what+" is refused"+pathNote(x), x.pos)
			}
		}
		if len(sts) == 0 {
			panic(abortErr{what + " is always refused"})
		}
		return sts
	}
}

func (rd *reader) stepFailed(st *State) bool {
	for _, e := range eventsSince(st.ev, nil) {
		if e.kind != "step" && e.kind != "call" && e.kind != "pure" || len(e.res) == 0 {
			continue
		}
		if t := e.res[len(e.res)-1]; t.typ != nil && isErrorType(t.typ) && st.facts.eval(tEq(t, tNil())) == 0 {
			return true
		}
	}
	return false
}

func propParser(R *Report) {
	str := types.Typ[types.String]
	val := func(n string) *Term { return param(n, str) }
	run := func(rule, what string, f func(rd *reader)) {
		h := R.harness(rule, what)
		h.noChk = true
		h.run(func() {
			f(h.reader())
			for _, c := range h.e.sortedChecks() {
				if !c.proved && c.kind != "division by zero" { // the average speed is told ten seconds after the start or later
					h.fail("may panic: "+c.kind+" ("+c.detail+")", c.pos)
				}
			}
		})
	}
	// doc opens the document up to the element of the second level.
	doc := func(rd *reader, section string) []*State {
		s := rd.ok("dictionary")(rd.open([]*State{rd.begin}, "dictionary"))
		return rd.ok(section)(rd.open(s, section))
	}
	run("grammemes-with-parent", "grammeme", func(rd *reader) {
		s := doc(rd, "grammemes")
		for n := 0; n < 2; n++ {
			name, parent := val(fmt.Sprintf("name%d", n)), val(fmt.Sprintf("parent%d", n))
			s = rd.ok("a grammeme")(rd.open(s, "grammeme", attr{"parent", parent}))
			for _, k := range []string{"name", "alias", "description"} {
				s = rd.ok(k)(rd.open(s, k))
				t := name
				if k != "name" {
					t = val(k + "text")
				}
				s = rd.ok("the text of " + k)(rd.text(s, t))
				s = rd.ok("the end of " + k)(rd.close(s, k))
			}
			s = rd.ok("the end of a grammeme")(rd.close(s, "grammeme"))
			for _, st := range s {
				es := rd.steps(st)
				rd.expect(st, len(es) == n+1 && rd.is(es[n], "TagID") && rd.same(st, es[n].args[1], name) && rd.same(st, es[n].args[2], parent),
					"a grammeme does not reach the index with its name and parent")
			}
		}
		// one whose name is missing has not the name of another
		parent := val("parent")
		s = rd.ok("a grammeme")(rd.open(s, "grammeme", attr{"parent", parent}))
		s = rd.ok("the end of a grammeme")(rd.close(s, "grammeme"))
		for _, st := range s {
			es := rd.steps(st)
			rd.expect(st, len(es) == 3 && rd.is(es[2], "TagID") && rd.same(st, es[2].args[1], tStr("")) && rd.same(st, es[2].args[2], parent),
				"a grammeme without a name gets one")
		}
		rd.ok("the end of grammemes")(rd.close(s, "grammemes"))
		_, bad := rd.open(doc(rd, "grammemes"), "grammeme")
		rd.expect(rd.begin, len(bad) > 0, "a grammeme without parent attribute is taken")
	})
	// every form with the tags of its lemma followed by its own
	shapes := [][]int{{0, 0}, {1, 1}, {2, 1, 0}, {1, 2, 2}, {3, 1, 1}, {1, 0, 1, 0}, {0, 1, 1, 0}, {2}}
	for _, shape := range shapes {
		shape := shape
		run("forms-with-tags", fmt.Sprintf("lemma with %d tags, forms with %v", shape[0], shape[1:]), func(rd *reader) {
			s := doc(rd, "lemmata")
			done := 0
			for n := 0; n < 2; n++ {
				var tags []*Term
				tag := func(s []*State, p string, k int) ([]*State, []*Term) {
					var ts []*Term
					for i := 0; i < k; i++ {
						t := val(fmt.Sprintf("%s%d.%d", p, n, i))
						ts = append(ts, t)
						s = rd.ok("a tag")(rd.open(s, "g", attr{"v", t}))
						s = rd.ok("the end of a tag")(rd.close(s, "g"))
					}
					return s, ts
				}
				s = rd.ok("a lemma")(rd.open(s, "lemma", attr{"id", tStr("1")}, attr{"rev", tStr("1")}))
				s = rd.ok("a base form")(rd.open(s, "l", attr{"t", val("base")}))
				s, tags = tag(s, "lemma tag", shape[0])
				s = rd.ok("the end of a base form")(rd.close(s, "l"))
				type want struct {
					form *Term
					tags []*Term
				}
				var ws []want
				for f, k := range shape[1:] {
					w := want{form: val(fmt.Sprintf("form%d.%d", n, f))}
					s = rd.ok("a form")(rd.open(s, "f", attr{"t", w.form}))
					var own []*Term
					s, own = tag(s, fmt.Sprintf("form%d tag", f), k)
					w.tags = append(append([]*Term{}, tags...), own...)
					s = rd.ok("the end of a form")(rd.close(s, "f"))
					ws = append(ws, w)
				}
				var bad []Exit
				s, bad = rd.close(s, "lemma")
				s = rd.ok("the end of a lemma")(s, bad)
				for _, x := range bad {
					// nothing follows a refusal
					es := rd.steps(x.st)
					last := len(es) - 1
					rd.expect(x.st, last >= 0 && x.st.facts.eval(tEq(es[last].res[len(es[last].res)-1], tNil())) == 0, "reading goes on after the index refused a form")
				}
				for _, st := range s {
					es := rd.steps(st)
					rd.expect(st, len(es) == done+2*len(ws), "not every form reaches the index once")
					if len(es) != done+2*len(ws) {
						continue
					}
					for f, w := range ws {
						a, b := es[done+2*f], es[done+2*f+1]
						if !rd.is(a, "AddString") || !rd.is(b, "AddTagSet") {
							rd.expect(st, false, "a form does not reach the index as a word and its tags")
							continue
						}
						rd.expect(st, rd.same(st, a.args[1], w.form), "another word is put into the index")
						rd.expect(st, bare(b.args[0]) == bare(a.res[0]), "the tags are given to another word")
						list := b.args[len(b.args)-1]
						good := st.facts.proveEqInt(renorm(st.facts, tLen(list)), tInt(int64(len(w.tags))))
						for i, t := range w.tags {
							good = good && rd.same(st, rd.h.elem(st.facts, b.mem, list, tInt(int64(i))), t)
						}
						rd.expect(st, good, fmt.Sprintf("the tags of a form are not the %d of its lemma followed by its own %d", len(tags), len(w.tags)-len(tags)))
						for _, e := range []*Event{a, b} {
							rd.expect(st, st.facts.eval(tEq(e.res[len(e.res)-1], tNil())) == 1, "a lemma is taken although the index may have refused a form of it")
						}
					}
				}
				done += 2 * len(ws)
			}
			rd.ok("the end of lemmata")(rd.close(s, "lemmata"))
		})
	}
	enterFrom := func(rd *reader, s []*State, chain []element) []*State {
		for i, c := range chain {
			var as []attr
			for _, a := range c.attrs {
				if i < len(chain)-1 && c.name == "dictionary" {
					continue
				}
				v := val(a)
				if a == "id" || a == "rev" {
					v = tStr("1")
				}
				as = append(as, attr{a, v})
			}
			s = rd.ok(c.name)(rd.open(s, c.name, as...))
		}
		return s
	}
	enter := func(rd *reader, chain []element) []*State {
		return enterFrom(rd, []*State{rd.begin}, chain)
	}
	var walk func(chain []element, e element)
	walk = func(chain []element, e element) {
		chain = append(append([]element{}, chain...), e)
		for _, p := range e.parts {
			walk(chain, p)
		}
		path := ""
		for _, c := range chain {
			path += "/" + c.name
		}
		run("elements-known", path, func(rd *reader) {
			s := rd.ok("text before the document")(rd.text([]*State{rd.begin}, val("text")))
			s = enterFrom(rd, s, chain)
			for i := len(chain) - 1; i >= 0; i-- {
				s = rd.ok("text in " + chain[i].name)(rd.text(s, val("text")))
				s = rd.ok("the end of " + chain[i].name)(rd.close(s, chain[i].name))
			}
			rd.ok("text after the document")(rd.text(s, val("text")))
		})
	}
	walk(nil, document)
	// every element in every place where the format does not have it
	names := map[string]bool{"other": true}
	var collect func(e element)
	collect = func(e element) {
		names[e.name] = true
		for _, p := range e.parts {
			collect(p)
		}
	}
	collect(document)
	var sorted []string
	for n := range names {
		sorted = append(sorted, n)
	}
	sort.Strings(sorted)
	places := 0
	refuse := func(chain []element, parts []element) {
		places++
		path := ""
		for _, c := range chain {
			path += "/" + c.name
		}
		run("unknown-refused", "in "+path, func(rd *reader) {
			s := enter(rd, chain)
			for _, n := range sorted {
				known := false
				for _, p := range parts {
					known = known || p.name == n
				}
				if known {
					continue
				}
				as := []attr{{"t", val("t")}, {"v", val("v")}, {"id", tStr("1")}, {"rev", tStr("1")}, {"parent", val("parent")}, {"version", tStr("1")}, {"revision", tStr("1")}}
				rd.h.paths++
				good, _ := rd.open(s, n, as...)
				for _, st := range good {
					rd.expect(st, rd.h.contra(st.facts), "an element ("+n+") which the format does not have there is taken")
				}
			}
		})
	}
	var places1 func(chain []element, e element)
	places1 = func(chain []element, e element) {
		chain = append(append([]element{}, chain...), e)
		refuse(chain, e.parts)
		for _, p := range e.parts {
			places1(chain, p)
		}
	}
	refuse(nil, []element{document})
	places1(nil, document)
	R.floor("unknown-refused", places)
	for _, c := range []struct {
		path []string
		attr string
	}{{[]string{"f"}, "t"}, {[]string{"l"}, "t"}, {[]string{"l", "g"}, "v"}, {[]string{"f", "g"}, "v"}} {
		c := c
		run("missing-attribute-refused", fmt.Sprint(c.path, " ", c.attr), func(rd *reader) {
			s := rd.ok("a lemma")(rd.open(doc(rd, "lemmata"), "lemma", attr{"id", tStr("1")}, attr{"rev", tStr("1")}))
			for i, p := range c.path {
				if i == len(c.path)-1 {
					good, _ := rd.open(s, p, attr{"other", val("other")})
					rd.expect(rd.begin, len(good) == 0, "an element without its attribute "+c.attr+" is taken")
					good, bad := rd.open(s, p, attr{"other", val("other")}, attr{c.attr, val("value")})
					rd.ok("an element with another attribute first")(good, bad)
					break
				}
				s = rd.ok(p)(rd.open(s, p, attr{"t", val("t")}))
			}
		})
	}
	// numbers which are not
	lemma := func(rd *reader, s []*State, n, forms int) ([]*State, []Exit) {
		s = rd.ok("a lemma")(rd.open(s, "lemma", attr{"id", tStr("1")}, attr{"rev", tStr("1")}))
		for f := 0; f < forms; f++ {
			s = rd.ok("a form")(rd.open(s, "f", attr{"t", val(fmt.Sprint("form", n, f))}))
			s = rd.ok("the end of a form")(rd.close(s, "f"))
		}
		return rd.close(s, "lemma")
	}
	for _, c := range []struct{ name, attr, other string }{
		{"lemma", "id", "rev"}, {"lemma", "rev", "id"}, {"dictionary", "version", ""}, {"dictionary", "revision", ""},
	} {
		c := c
		run("number-attributes", c.name+" "+c.attr, func(rd *reader) {
			s := []*State{rd.begin}
			if c.name == "lemma" {
				s = doc(rd, "lemmata")
			}
			v := val("number")
			as := []attr{{"other", val("other")}, {c.attr, v}}
			if c.other != "" {
				as = append(as, attr{c.other, tStr("1")})
				good, _ := rd.open(s, c.name, as[0], as[2])
				rd.expect(rd.begin, len(good) == 0, "an element without its attribute "+c.attr+" is taken")
			}
			rd.split = true
			good, bad := rd.open(s, c.name, as...)
			for _, st := range rd.ok("an element with all its attributes")(good, nil) {
				read := false
				for _, e := range eventsSince(st.ev, nil) {
					if (e.kind == "call" || e.kind == "pure") && strings.HasPrefix(e.name, "strconv.") && len(e.args) > 0 && e.args[0] == v {
						err := e.res[len(e.res)-1]
						read = st.facts.eval(tEq(err, tNil())) == 1
					}
				}
				rd.expect(st, read, "an element is taken although its attribute "+c.attr+" may not be a number")
			}
			for _, x := range bad {
				rd.expect(x.st, rd.stepFailed(x.st), "an element is refused although its attributes are numbers")
			}
		})
	}
	// a limit of lemmas
	for limit := int64(0); limit < 4; limit++ {
		limit := limit
		run("limit-of-lemmas", fmt.Sprint(limit), func(rd *reader) {
			fn := rd.h.P.methodOf(types.NewPointer(rd.T), "SetMaxLemmas")
			if fn == nil {
				return
			}
			xs := rd.h.returns(rd.h.call(rd.begin, fn, rd.p, tInt(limit)), "SetMaxLemmas")
			if len(xs) != 1 {
				panic(abortErr{"SetMaxLemmas"})
			}
			rd.begin = xs[0].st
			s := doc(rd, "lemmata")
			read := 0
			for n := int64(1); n < 4; n++ {
				forms := []int{0, 2, 0, 1}[n]
				read += forms
				good, bad := lemma(rd, s, int(n), forms)
				if n != limit {
					s = rd.ok("a lemma within the limit")(good, bad)
					continue
				}
				for _, st := range good {
					rd.expect(st, false, "reading goes on after as many lemmas as were asked for")
				}
				for _, x := range bad {
					if !rd.stepFailed(x.st) {
						rd.expect(x.st, strings.Contains(renorm(x.st.facts, x.res[0]).String(), "ErrControlledStop"), "reading stops with another error at the limit of lemmas")
						rd.expect(x.st, len(rd.steps(x.st)) == 2*read, "not all forms of the lemmas up to the limit are in the index")
					}
				}
				break
			}
		})
	}
	// any limit, after any number of lemmas: what counts them changes by the same at each
	run("limit-of-lemmas", "any", func(rd *reader) {
		fn := rd.h.P.methodOf(types.NewPointer(rd.T), "SetMaxLemmas")
		if fn == nil {
			return
		}
		rd.h.paths++
		without := rd.begin.clone()
		N, K := param("limit", types.Typ[types.Int]), param("lemmas read", types.Typ[types.Int])
		rd.begin.assume(tLe(tInt(1), N), true)
		rd.begin.assume(tLe(N, tInt(1<<40)), true)
		applies := false
		var wrong []func()
		for _, x := range rd.h.returns(rd.h.call(rd.begin, fn, rd.p, N), "SetMaxLemmas") {
			rd.begin = x.st
			s := doc(rd, "lemmata")
			for n := 1; n <= 3 && len(s) > 0; n++ {
				s = s[:1]
				before := s[0]
				if n == 3 {
					before = s[0].clone()
					before.assume(tLe(tInt(2), K), true)
					before.assume(tLt(K, N), true)
					rd.counters(before, K)
					s = []*State{before}
				}
				read := tInt(int64(n) - 1)
				if n == 3 {
					read = K
				}
				good, bad := lemma(rd, s, n, 2)
				for _, st := range good {
					c := st.facts.eval(tEq(N, tAddK(read, 1)))
					if n == 3 && c == 0 {
						applies = true
					}
					if c != 0 {
						st := st
						if n < 3 {
							rd.expect(st, false, "reading may go on after as many lemmas as were asked for")
						} else {
							wrong = append(wrong, func() { rd.expect(st, false, "reading may go on after as many lemmas as were asked for") })
						}
					}
				}
				for _, y := range bad {
					if rd.stepFailed(y.st) {
						continue
					}
					if y := y; !y.st.facts.proveEqInt(N, tAddK(read, 1)) {
						if n < 3 {
							rd.expect(y.st, false, "reading may stop before as many lemmas as were asked for")
						} else {
							wrong = append(wrong, func() { rd.expect(y.st, false, "reading may stop before as many lemmas as were asked for") })
						}
					}
				}
				s = good
				if n == 1 && len(s) > 0 {
					rd.one = rd.numbers(s[0])
				}
			}
		}
		// none set
		rd.begin = without
		s := doc(rd, "lemmata")
		for n := 1; n <= 3 && len(s) > 0; n++ {
			s = s[:1]
			if n == 3 {
				st := s[0].clone()
				st.assume(tLe(tInt(2), K), true)
				st.assume(tLe(K, tInt(1<<40)), true)
				rd.counters(st, K)
				s = []*State{st}
			}
			good, bad := lemma(rd, s, n, 2)
			for _, y := range bad {
				if y := y; !rd.stepFailed(y.st) {
					f := func() { rd.expect(y.st, false, "reading may stop although no limit of lemmas is set") }
					if n < 3 {
						f()
					} else {
						wrong = append(wrong, f)
					}
				}
			}
			s = good
			if n == 1 && len(s) > 0 {
				rd.one = rd.numbers(s[0])
			}
		}
		if applies {
			for _, w := range wrong {
				w()
			}
		}
	})
	run("elements-known", "comments, instructions, directives", func(rd *reader) {
		s := doc(rd, "lemmata")
		for _, m := range []string{"ProcessComment", "ProcessProcInst", "ProcessDirective"} {
			for _, st := range s {
				before := st.mem
				good, bad := rd.feed([]*State{st}, m, param("x", rd.param(m)))
				for _, y := range rd.ok(m)(good, bad) {
					rd.expect(y, y.mem == before && len(rd.steps(y)) == len(rd.steps(st)), m+" changes something")
				}
			}
		}
	})
	attributes(R)
	h := R.harness("grammemes-with-parent", "Grammeme.Tag")
	h.run(func() {
		T := h.mustType(corpora, "Grammeme")
		st := h.start()
		recv := h.ptr("recv", T)
		v := load(st.facts, st.mem, recv, T)
		st.assume(tEq(h.field(v, "ParentAttr"), tStr("")), false) // none is the empty name of tags
		for _, x := range h.noPanic(h.meth(st, T, recv, "Tag"), "Tag") {
			h.paths++
			for _, c := range [][2]string{{"Name", "Name"}, {"Parent", "ParentAttr"}} {
				a, b := h.field(x.res[0], c[0]), h.field(v, c[1])
				h.must(x, "the tag of a grammeme has not its name and parent ("+c[0]+")", []*Term{a, b}, h.valSame(x.st.mem, a, x.st.mem, b))
			}
		}
	})
	R.floor("forms-with-tags", len(shapes))
}

// counters: the numbers which the lemma read last changed are as after k
// lemmas, two having been read.
func (rd *reader) counters(st *State, k *Term) {
	two, one := rd.numbers(st), rd.one
	for i, a := range two {
		d := toLin(renorm(st.facts, a.value)).sub(toLin(renorm(st.facts, one[i].value)))
		if !d.isConst() || d.c == 0 {
			continue
		}
		n := newMem(st.mem, MStore)
		n.addr, n.val = a.addr, fromLin(toLin(a.value).add(toLin(k).plus(-2).scale(d.c)))
		st.mem = n
	}
}

type number struct{ addr, value *Term }

// numbers which the reader keeps.
func (rd *reader) numbers(st *State) (out []number) {
	var in func(p *Term, T types.Type)
	in = func(p *Term, T types.Type) {
		switch u := T.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				in(tFieldAddr(p, i, types.NewPointer(u.Field(i).Type())), u.Field(i).Type())
			}
		case *types.Basic:
			if u.Kind() == types.Int || u.Kind() == types.Int64 {
				out = append(out, number{p, load(st.facts, st.mem, p, T)})
			}
		}
	}
	in(rd.p, rd.T)
	return
}

type element struct {
	name  string
	attrs []string
	parts []element
}

// document has every element of the export format.
var document = element{"dictionary", []string{"version", "revision"}, []element{
	{"grammemes", nil, []element{{"grammeme", []string{"parent"}, []element{{"name", nil, nil}, {"alias", nil, nil}, {"description", nil, nil}}}}},
	{"restrictions", nil, []element{{"restr", []string{"type", "auto"}, []element{{"left", []string{"type"}, nil}, {"right", []string{"type"}, nil}}}}},
	{"lemmata", nil, []element{{"lemma", []string{"id", "rev"}, []element{
		{"l", []string{"t"}, []element{{"g", []string{"v"}, nil}}},
		{"f", []string{"t"}, []element{{"g", []string{"v"}, nil}}}}}}},
	{"link_types", nil, []element{{"type", []string{"id"}, nil}}},
	{"links", nil, []element{{"link", []string{"id", "from", "to", "type"}, nil}}},
}}

// steps: what the index was asked to change.
func (rd *reader) steps(st *State) (out []*Event) {
	for _, e := range eventsSince(st.ev, nil) {
		if rd.is(e, "AddString") || rd.is(e, "AddTagSet") || rd.is(e, "TagID") || rd.is(e, "AddRunes") {
			out = append(out, e)
		}
	}
	return
}

func (rd *reader) is(e *Event, name string) bool {
	return (e.kind == "step" || e.kind == "call") && strings.HasSuffix(e.name, "."+name)
}

func (rd *reader) same(st *State, a, b *Term) bool {
	x, y := renorm(st.facts, a), renorm(st.facts, b)
	return x == y || st.facts.eval(tEq(x, y)) == 1
}

func (rd *reader) expect(st *State, ok bool, what string) {
	rd.h.paths++
	if !ok && !rd.h.contra(st.facts) {
		x := Exit{st: st}
		for e := st.ev; e != nil && !x.pos.IsValid(); e = e.prev {
			x.pos = e.pos
		}
		rd.h.fail(what+pathNote(x), x.pos)
	}
}

func init() { register("C22", propParser) }

// attributes: the value of the first attribute of a name, if there is one.
func attributes(R *Report) {
	for _, name := range []string{"GetString", "GetInt"} {
		name := name
		h := R.harness("attributes", "Attr."+name)
		h.run(func() {
			T := h.mustType(corpora, "Attr")
			h.mustMethod(corpora, "Attr", name)
			st := h.start()
			recv := h.ptr("recv", T)
			v := load(st.facts, st.mem, recv, T)
			key := param("name", types.Typ[types.String])
			at := func(f *Facts, t *Term, field ...string) *Term {
				p := tIndexAddr(v, t, types.NewPointer(elemType(T)))
				x := load(f, st.mem, p, elemType(T))
				for _, n := range field {
					x = h.field(x, n)
				}
				return x
			}
			k := param("k", types.Typ[types.Int])
			there := st.clone()
			there.assume(tLe(tInt(0), k), true)
			there.assume(tLt(k, tLen(v)), true)
			there.assume(tEq(at(there.facts, k, "Name", "Local"), key), true)
			for _, x := range h.noPanic(h.meth(st, T, recv, name, key), name) {
				h.paths++
				if h.contra(x.st.facts) {
					continue
				}
				if errOutcome(x.st.facts, x.res[1]) > 0 {
					j, ok := h.witness(x, v, at, key)
					if !ok {
						h.fail("a value is given which may not be of an attribute of that name"+pathNote(x), x.pos)
						continue
					}
					w := at(x.st.facts, j, "Value")
					if name == "GetString" {
						h.must(x, "the value given is not that of the attribute", []*Term{x.res[0], w}, h.valSame(x.st.mem, x.res[0], x.st.mem, w))
						continue
					}
					good := false
					for _, e := range eventsSince(x.st.ev, st.ev) {
						if (e.kind == "call" || e.kind == "pure") && strings.HasPrefix(e.name, "strconv.") && x.st.facts.eval(tEq(e.res[len(e.res)-1], tNil())) == 1 {
							a := renorm(x.st.facts, e.args[0])
							good = good || a == renorm(x.st.facts, w) && (x.res[0] == e.res[0] || h.prove(x.st.facts, []*Term{x.res[0], e.res[0]}, h.intEq(x.res[0], e.res[0])))
						}
					}
					if !good {
						h.fail("the number given may not be that of the attribute"+pathNote(x), x.pos)
					}
				}
			}
			for _, x := range h.noPanic(h.meth(there, T, recv, name, key), name) {
				h.paths++
				if errOutcome(x.st.facts, x.res[1]) > 0 || h.contra(x.st.facts) {
					continue
				}
				why := false
				for _, e := range eventsSince(x.st.ev, st.ev) {
					if (e.kind == "call" || e.kind == "pure") && strings.HasPrefix(e.name, "strconv.") && x.st.facts.eval(tEq(e.res[len(e.res)-1], tNil())) == 0 {
						why = true
					}
				}
				if !why {
					h.fail("an attribute which is there may not be found"+pathNote(x), x.pos)
				}
			}
		})
	}
}

// witness: the place found, shown to have the name and to be the first one.
func (h *H) witness(x Exit, v *Term, at func(*Facts, *Term, ...string) *Term, key *Term) (*Term, bool) {
	f := x.st.facts
	for _, e := range eventsSince(x.st.ev, nil) {
		if e.kind != "rep" || e.loop.it == nil {
			continue
		}
		j := e.loop.it
		n := at(f, j, "Name", "Local")
		if h.prove(f, []*Term{j, n}, func(f *Facts) bool { return f.eval(renorm(f, tEq(renorm(f, n), renorm(f, key)))) == 1 }) {
			return j, true
		}
	}
	return nil, false
}
