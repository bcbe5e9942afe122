package main

// Codecs. A writer is run on an unknown object, the reader of the same type
// then reads into an object with unknown previous contents. The primitive
// stream operations and the codecs of nested types are abstract; what the
// reader's k-th operation returns equals what the writer's k-th operation was
// given. The object read must equal the object written on every path, and no
// other outcome may be feasible.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type codec struct {
	pkg, typ, w, r string
	max            int64 // longest slice the format holds; -1: no limit of its own
}

var codecs = []codec{
	{"pkg/storage", "Set8", "WriteTo", "ReadFrom", 255},
	{"pkg/storage", "Set16", "WriteTo", "ReadFrom", 65535},
	{"pkg/dag", "TagName", "BinaryWriteTo", "BinaryReadFrom", -1},
	{"pkg/dag", "TagName", "MarshalBinary", "UnmarshalBinary", -1},
	{"pkg/dag", "Tag", "BinaryWriteTo", "BinaryReadFrom", -1},
	{"pkg/dag", "Idx", "BinaryWriteTo", "BinaryReadFrom", 255},
	{"internal/index", "TagSet", "WriteTo", "ReadFrom", 255},
	{"internal/index", "TagSet", "BinaryWriteTo", "BinaryReadFrom", 255},
	{"internal/index", "TagSetTable", "BinaryWriteTo", "BinaryReadFrom", 65535},
	{"internal/index", "TagSetIndex", "BinaryWriteTo", "BinaryReadFrom", 65536},
	{"internal/index", "TagSetIDCollection", "BinaryWriteTo", "BinaryReadFrom", 255},
	{"internal/index", "VariantsTable", "BinaryWriteTo", "BinaryReadFrom", 65536},
	{"internal/index", "VariantsIndex", "BinaryWriteTo", "BinaryReadFrom", 255},
	{"internal/index", "Item", "BinaryWriteTo", "BinaryReadFrom", -1},
	{"internal/index", "Items", "BinaryWriteTo", "BinaryReadFrom", -1},
	{"internal/index", "Index", "BinaryWriteTo", "BinaryReadFrom", -1},
}

// ---- abstract stream operations ----

const binutilsPath = "github.com/amarin/binutils"

// primitive operations: kind and width in bytes
var writeOps = map[string]struct {
	kind  string
	width int64
}{
	"WriteUint8": {"int", 1}, "WriteUint16": {"int", 2}, "WriteUint32": {"int", 4}, "WriteUint64": {"int", 8}, "WriteUint": {"int", 8},
	"WriteInt8": {"int", 1}, "WriteInt16": {"int", 2}, "WriteInt32": {"int", 4}, "WriteInt64": {"int", 8}, "WriteInt": {"int", 8},
	"WriteRune": {"int", 4}, "WriteStringZ": {"strz", 0}, "WriteBytes": {"bytes", 0},
}

var readOps = map[string]struct {
	kind  string
	width int64
}{
	"ReadUint8": {"int", 1}, "ReadUint16": {"int", 2}, "ReadUint32": {"int", 4}, "ReadUint64": {"int", 8}, "ReadUint": {"int", 8},
	"ReadInt8": {"int", 1}, "ReadInt16": {"int", 2}, "ReadInt32": {"int", 4}, "ReadInt64": {"int", 8}, "ReadInt": {"int", 8},
	"ReadRune": {"int", 4}, "ReadStringZ": {"strz", 0}, "ReadBytesCount": {"bytes", 0},
}

type ioInfo struct {
	write  bool
	kind   string // int, strz, bytes, obj
	width  int64
	T      types.Type // obj: type
	format string     // obj: method
	stream *Term      // the stream operated on
}

var streamMethods = map[string]bool{"BinaryWriteTo": true, "WriteTo": true, "BinaryReadFrom": true, "ReadFrom": true}

// codecHook makes stream operations abstract events; codecs of types other
// than root's, unless listed in inline, are single operations.
type codecHook struct {
	h      *H
	root   types.Type
	inline map[types.Type]bool
	info   map[*Event]ioInfo
	nested map[string]codec
}

func (c *codecHook) io(st *State, fr *Frame, e *Engine, site ssa.Instruction, name string, fn *ssa.Function, in ioInfo, args, res []*Term) []Exit {
	s := st.clone()
	ev := &Event{kind: "io", name: name, fn: fn, args: args, res: res, pos: site.Pos(), ctx: fr.ctx, fac: st.facts, mem: st.mem, io: &in}
	s.addEvent(ev)
	return []Exit{{kind: xReturn, st: s, res: res}}
}

func (c *codecHook) call(e *Engine, fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, args []*Term, resT *types.Tuple) (bool, []Exit) {
	if fn == nil || fr == nil || site == nil {
		return false, nil
	}
	if i := strings.Index(name, binutilsPath+".Binary"); i >= 0 && fn.Signature.Recv() != nil {
		m := fn.Name()
		if w, ok := writeOps[m]; ok {
			res := e.opaqueResults(fr, site, name, resT)
			return true, c.io(st, fr, e, site, name, fn, ioInfo{write: true, kind: w.kind, width: w.width, stream: args[0]}, args[1:2], res)
		}
		if r, ok := readOps[m]; ok {
			res := e.opaqueResults(fr, site, name, resT)
			s := st
			if r.kind == "bytes" {
				// on success exactly the requested number of bytes
				s = st.clone()
				s.assume(tEqInt(tLen(res[0]), args[1]), true)
			}
			return true, c.io(s, fr, e, site, name, fn, ioInfo{kind: r.kind, width: r.width, stream: args[0]}, args[1:], res)
		}
		if m == "BytesWritten" || m == "BytesTaken" {
			if n := streamBytes(st, args[0]); n != nil {
				return true, one(st, n)
			}
			return true, one(st, e.opaqueResults(fr, site, name, resT)...)
		}
		if m == "WriteObject" && len(args) == 2 && args[1].op == OIface {
			return c.writeObject(e, fr, st, site, name, fn, args[0], args[1], resT)
		}
		if m == "ReadObject" && len(args) == 2 && args[1].op == OIface {
			return c.readObject(e, fr, st, site, name, fn, args[0], args[1], resT)
		}
		return false, nil
	}
	if fn.Signature.Recv() == nil && len(args) == 1 && (name == binutilsPath+".NewBinaryWriter" || name == binutilsPath+".NewBinaryReader") {
		s := st.clone()
		r := mk(OPure, resT.At(0).Type(), false, 0, "stream over", nil, nil, nil, args[0])
		s.assume(tEq(r, tNil()), false)
		return true, one(s, r)
	}
	if !streamMethods[fn.Name()] || !e.P.inRepo(fn) || fn.Signature.Recv() == nil || fn.Signature.Params().Len() != 1 {
		return false, nil
	}
	T := derefType(fn.Signature.Recv().Type())
	if types.Identical(T, c.root) || c.inline[T] {
		return false, nil
	}
	return true, c.object(e, fr, st, site, name, fn, T, fn.Name(), args[1], args[0], e.opaqueResults(fr, site, name, resT))
}

func (c *codecHook) object(e *Engine, fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, T types.Type, format string, stream, recv *Term, res []*Term) []Exit {
	if format == "BinaryWriteTo" || format == "WriteTo" || format == "MarshalBinary" {
		v := recv
		if recv.typ != nil {
			if _, ok := recv.typ.Underlying().(*types.Pointer); ok {
				v = load(st.facts, st.mem, recv, T)
			}
		}
		return c.io(st, fr, e, site, name, fn, ioInfo{write: true, kind: "obj", T: T, format: format, stream: stream}, []*Term{v}, res)
	}
	v := mk(OCall, T, false, 9, e.siteKey(fr, site), getCallInfo(name), nil, nil, fr.iters()...)
	s := st.clone()
	n := newMem(s.mem, MStore)
	n.addr, n.val = recv, v
	s.mem = n
	all := append([]*Term{v}, res...)
	s.addEvent(&Event{kind: "io", name: name, fn: fn, args: []*Term{recv}, res: all, pos: site.Pos(), ctx: fr.ctx, fac: st.facts, mem: st.mem,
		io: &ioInfo{kind: "obj", T: T, format: format, stream: stream}})
	return []Exit{{kind: xReturn, st: s, res: res}}
}

// writeObject follows the library's dispatch: io.WriterTo, then
// encoding.BinaryMarshaler, then BinaryWriterTo, then basic types.
func (c *codecHook) writeObject(e *Engine, fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, stream, x *Term, resT *types.Tuple) (bool, []Exit) {
	T := x.typ
	for _, m := range []string{"WriteTo", "MarshalBinary", "BinaryWriteTo"} {
		if e.P.hasMethod(T, m) {
			D := derefType(T)
			if n, ok := D.(*types.Named); ok && n.Obj().Pkg() != nil && e.P.repoPath(n.Obj().Pkg().Path()) {
				res := e.opaqueResults(fr, site, name, resT)
				return true, c.object(e, fr, st, site, name, fn, D, m, stream, x.args[0], res)
			}
			return false, nil
		}
	}
	bits, _, ok := typeBits(T)
	if b, isB := T.(*types.Basic); isB && ok {
		_ = b
		return true, c.io(st, fr, e, site, name, fn, ioInfo{write: true, kind: "int", width: int64(bits / 8), stream: stream}, []*Term{x.args[0]}, e.opaqueResults(fr, site, name, resT))
	}
	if b, isB := T.(*types.Basic); isB && b.Kind() == types.String {
		return true, c.io(st, fr, e, site, name, fn, ioInfo{write: true, kind: "strz", stream: stream}, []*Term{x.args[0]}, e.opaqueResults(fr, site, name, resT))
	}
	return false, nil
}

func (c *codecHook) readObject(e *Engine, fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, stream, x *Term, resT *types.Tuple) (bool, []Exit) {
	for _, m := range []string{"BinaryReadFrom", "ReadFrom"} {
		if e.P.hasMethod(x.typ, m) {
			D := derefType(x.typ)
			if n, ok := D.(*types.Named); ok && n.Obj().Pkg() != nil && e.P.repoPath(n.Obj().Pkg().Path()) {
				return true, c.object(e, fr, st, site, name, fn, D, m, stream, x.args[0], e.opaqueResults(fr, site, name, resT))
			}
			return false, nil
		}
	}
	p, ok := x.typ.(*types.Pointer)
	if !ok {
		return false, nil
	}
	bits, _, ok := typeBits(p.Elem())
	if !ok {
		return false, nil
	}
	res := e.opaqueResults(fr, site, name, resT)
	v := mk(OCall, p.Elem(), false, 9, e.siteKey(fr, site), getCallInfo(name), nil, nil, fr.iters()...)
	s := st.clone()
	n := newMem(s.mem, MStore)
	n.addr, n.val = x.args[0], v
	s.mem = n
	s.addEvent(&Event{kind: "io", name: name, fn: fn, args: nil, res: append([]*Term{v}, res...), pos: site.Pos(), ctx: fr.ctx, fac: st.facts, mem: st.mem,
		io: &ioInfo{kind: "int", width: int64(bits / 8), stream: stream}})
	return true, []Exit{{kind: xReturn, st: s, res: res}}
}

// errOf: the error result of an operation (its last result).
func errOf(e *Event) *Term { return e.res[len(e.res)-1] }

// ---- traces ----

type ioStep struct {
	ev   *Event
	li   *LoopInfo
	body [][]ioStep // one per way round the loop
}

// theStream: t is the stream (parameter) s itself or a codec over it.
func theStream(t, s *Term) bool {
	for t != nil && t != s && (t.op == OPure && t.s == "stream over" || t.op == OIface) {
		t = t.args[0]
	}
	return t == s
}

// offStream finds an operation on another stream.
func offStream(tr []ioStep, s *Term) *Event {
	for _, t := range tr {
		if t.li != nil {
			for _, b := range t.body {
				if e := offStream(b, s); e != nil {
					return e
				}
			}
			continue
		}
		if t.ev.io.stream != nil && !theStream(t.ev.io.stream, s) {
			return t.ev
		}
	}
	return nil
}

// opWidth: number of bytes of one operation, nil if unknown.
func opWidth(e *Event) *Term {
	switch e.io.kind {
	case "int":
		return tInt(e.io.width)
	case "bytes":
		if e.io.write {
			return tLen(e.args[0])
		}
		return e.args[0]
	}
	return nil
}

// traceBytes: bytes of the completed operations of a trace; exact is false
// when a failed operation may have moved some as well.
func traceBytes(f *Facts, tr []ioStep) (n *Term, exact bool) {
	n, exact = tInt(0), true
	for _, t := range tr {
		if t.li != nil {
			var per *Term
			for _, b := range t.body {
				w := tInt(0)
				for _, s := range b {
					if s.li != nil {
						return nil, false
					}
					x := opWidth(s.ev)
					if x == nil || x.op != OInt {
						return nil, false
					}
					w = tAdd(w, x)
				}
				if per != nil && per != w {
					return nil, false
				}
				per = w
			}
			if per != nil {
				n = tAdd(n, tScale(t.li.it, per.k))
			}
			continue
		}
		switch isErrNil(f, errOf(t.ev)) {
		case 1:
			if t.ev.io.kind == "obj" && len(t.ev.res) >= 2 && t.ev.io.write && t.ev.io.format == "WriteTo" {
				n = tAdd(n, t.ev.res[0])
				continue
			}
			if t.ev.io.kind == "obj" && len(t.ev.res) >= 3 && t.ev.io.format == "ReadFrom" {
				n = tAdd(n, t.ev.res[1])
				continue
			}
			w := opWidth(t.ev)
			if w == nil {
				return nil, false
			}
			n = tAdd(n, w)
		case 0:
			exact = false
		default:
			return nil, false
		}
	}
	return
}

// streamBytes: bytes counted by a codec stream created on this path.
func streamBytes(st *State, s *Term) *Term {
	if s.op != OPure {
		return nil
	}
	tr := ioTrace(eventsSince(st.ev, nil))
	for _, t := range tr {
		if t.li == nil && t.ev.io.stream != s || t.li != nil && offStream([]ioStep{t}, s) != nil {
			return nil
		}
	}
	n, exact := traceBytes(st.facts, tr)
	if !exact {
		return nil
	}
	return n
}

// ioTrace keeps the stream operations of an event list.
func ioTrace(evs []*Event) []ioStep {
	var r []ioStep
	for _, e := range evs {
		switch e.kind {
		case "io":
			r = append(r, ioStep{ev: e})
		case "rep":
			s := ioStep{ev: e, li: e.loop}
			some := false
			for _, b := range e.loop.backs {
				t := ioTrace(b.events)
				if len(t) > 0 {
					some = true
				}
				s.body = append(s.body, t)
			}
			if some {
				r = append(r, s)
			}
		}
	}
	return r
}

func (s ioStep) String() string {
	if s.li != nil {
		return "loop"
	}
	k := s.ev.io.kind
	switch k {
	case "int":
		return fmt.Sprintf("%d-byte integer", s.ev.io.width)
	case "obj":
		return typeShort(s.ev.io.T)
	case "strz":
		return "zero-terminated string"
	}
	return k
}

// noIOErrors assumes that every operation succeeded.
func noIOErrors(f *Facts, tr []ioStep) *Facts {
	for _, s := range tr {
		if s.li != nil {
			for _, b := range s.body {
				var body []*Term
				for _, t := range b {
					if t.li == nil {
						body = append(body, tEq(errOf(t.ev), tNil()))
					}
				}
				if len(body) > 0 {
					f = f.clone()
					f.all = append(f.all[:len(f.all):len(f.all)], forallFact{it: s.li.it, hi: s.li.it, body: body})
				}
			}
			continue
		}
		f = addFact(f, tEq(errOf(s.ev), tNil()))
	}
	return f
}

type traceMatch struct {
	h    *H
	f    *Facts
	need map[[3]string]codec
	why  string
	mism [2]types.Type
}

// eqFact: what the reader got is what the writer put.
func (m *traceMatch) eqFacts(w, r ioStep, it, to *Term) ([]*Term, bool) {
	sub := func(t *Term) *Term {
		if it != nil {
			return subst(t, it, to)
		}
		return t
	}
	wi, ri := w.ev.io, r.ev.io
	if wi.kind == "obj" && ri.kind != "obj" {
		m.mism[0] = wi.T
	}
	if ri.kind == "obj" && wi.kind != "obj" {
		m.mism[0] = ri.T
	}
	if wi.kind != ri.kind || wi.width != ri.width || wi.kind == "obj" && !types.Identical(wi.T, ri.T) {
		m.why = fmt.Sprintf("the writer puts a %s (%s) where the reader takes a %s (%s)", w, m.h.P.pos(w.ev.pos), r, m.h.P.pos(r.ev.pos))
		return nil, false
	}
	switch wi.kind {
	case "int":
		v := sub(w.ev.args[0])
		return []*Term{tEqInt(r.ev.res[0], tWrapMod(r.ev.res[0].typ, v))}, true
	case "strz":
		v := sub(w.ev.args[0])
		if v.op != OStr || strings.Contains(v.s, "\x00") {
			m.why = "a zero-terminated string that may hold a zero byte is written at " + m.h.P.pos(w.ev.pos)
			return nil, false
		}
		return []*Term{tEq(r.ev.res[0], v)}, true
	case "bytes":
		v := sub(w.ev.args[0])
		if !m.h.prove(m.f, nil, m.h.intEq(tLen(v), r.ev.args[0])) {
			m.why = fmt.Sprintf("the number of bytes written at %s is not the number read at %s", m.h.P.pos(w.ev.pos), m.h.P.pos(r.ev.pos))
			return nil, false
		}
		wv := seqVal(m.f, w.ev.mem, v)
		rv := seqVal(m.f, r.ev.mem, r.ev.res[0])
		m.f = m.f.clone()
		if m.f.rw == nil {
			m.f.rw = map[*Term]*Term{}
		} else {
			n := map[*Term]*Term{}
			for k, v := range m.f.rw {
				n[k] = v
			}
			m.f.rw = n
		}
		m.f.rw[rv] = wv
		m.f.rw[r.ev.res[0]] = v
		return nil, true
	case "obj":
		T := wi.T
		m.need[[3]string{typeShort(T), wi.format, ri.format}] = codec{pkg: "", typ: typeShort(T), w: wi.format, r: ri.format}
		return []*Term{tEq(r.ev.res[0], sub(w.ev.args[0]))}, true
	}
	m.why = "unknown stream operation"
	return nil, false
}

// match adds to m.f the equalities implied by reading what was written.
// prefix: the reader stopped early.
func (m *traceMatch) match(ws, rs []ioStep, prefix bool) bool {
	i := 0
	for k, r := range rs {
		if i >= len(ws) {
			m.why = fmt.Sprintf("the reader takes a %s (%s) past the end of what the writer put", r, m.h.P.pos(r.ev.pos))
			return false
		}
		w := ws[i]
		if r.li != nil {
			if w.li == nil {
				if prefix {
					return true
				}
				m.why = fmt.Sprintf("the reader loops (%s) where the writer does not (%s)", m.h.P.pos(r.ev.pos), m.h.P.pos(w.ev.pos))
				return false
			}
			if len(r.body) != 1 || len(w.body) != 1 || len(r.body[0]) != len(w.body[0]) {
				m.why = fmt.Sprintf("the reader's loop at %s does not follow the writer's at %s", m.h.P.pos(r.ev.pos), m.h.P.pos(w.ev.pos))
				return false
			}
			wit, rit := w.li.it, r.li.it
			var body []*Term
			for j := range r.body[0] {
				if r.body[0][j].li != nil || w.body[0][j].li != nil {
					m.why = fmt.Sprintf("nested loops over the stream at %s", m.h.P.pos(r.ev.pos))
					return false
				}
				eq, ok := m.eqFacts(w.body[0][j], r.body[0][j], wit, rit)
				if !ok {
					return false
				}
				body = append(body, eq...)
			}
			last := k == len(rs)-1
			if !prefix {
				if !m.h.prove(m.f, nil, m.h.intEq(wit, rit)) {
					m.h.dump(m.f, []*Term{wit, rit})
					m.why = fmt.Sprintf("the reader's loop at %s need not run as often as the writer's at %s", m.h.P.pos(r.ev.pos), m.h.P.pos(w.ev.pos))
					return false
				}
			}
			m.f = m.f.clone()
			m.f.all = append(m.f.all[:len(m.f.all):len(m.f.all)], forallFact{it: rit, hi: rit, body: body})
			if prefix && !last {
				// the rest lies either in the next, partial iteration or after the loop
				rest := rs[k+1:]
				part := &traceMatch{h: m.h, f: m.f, need: m.need}
				if m.h.prove(m.f, nil, func(f *Facts) bool { return f.proveLt(rit, wit) }) {
					var wb []ioStep
					for _, s := range w.body[0] {
						c := s
						ev := *s.ev
						ev.args = nil
						for _, a := range s.ev.args {
							ev.args = append(ev.args, subst(a, wit, rit))
						}
						c.ev = &ev
						wb = append(wb, c)
					}
					if part.match(wb, rest, true) {
						m.f = part.f
						return true
					}
				}
				if !m.h.prove(m.f, nil, m.h.intEq(wit, rit)) {
					// undecided which: keep what is known so far
					return true
				}
			}
			i++
			continue
		}
		if w.li != nil {
			// the writer's loop ran zero times?
			if m.h.prove(m.f, nil, m.h.intEq(w.li.it, tInt(0))) {
				i++
				if i < len(ws) && ws[i].li == nil {
					eq, ok := m.eqFacts(ws[i], r, nil, nil)
					if !ok {
						return false
					}
					for _, c := range eq {
						m.f = addFact(m.f, c)
					}
					i++
					continue
				}
			}
			m.why = fmt.Sprintf("the writer loops (%s) where the reader does not (%s)", m.h.P.pos(w.ev.pos), m.h.P.pos(r.ev.pos))
			return false
		}
		eq, ok := m.eqFacts(w, r, nil, nil)
		if !ok {
			return false
		}
		for _, c := range eq {
			m.f = addFact(m.f, c)
		}
		i++
	}
	if !prefix {
		for ; i < len(ws); i++ {
			if ws[i].li != nil && m.h.prove(m.f, nil, m.h.intEq(ws[i].li.it, tInt(0))) {
				continue
			}
			m.why = fmt.Sprintf("the reader stops before a %s the writer put (%s)", ws[i], m.h.P.pos(ws[i].ev.pos))
			return false
		}
	}
	return true
}

// ---- obligations ----

// objects: a written object and a read target.
func (h *H) target(st *State, T types.Type) *Term {
	a := mk(OAlloc, types.NewPointer(T), true, 0, "arg:target", nil, nil, nil)
	n := newMem(st.mem, MStore)
	n.addr, n.val = a, param("previous", T)
	st.mem = n
	return a
}

func isErrNil(f *Facts, t *Term) int { return f.eval(tEq(t, tNil())) }

// roundTrip decides one writer/reader pair; it returns the pairs of nested
// types it relies on.
func (R *Report) roundTrip(rule string, c codec) []codec {
	inline := map[types.Type]bool{}
	for try := 0; ; try++ {
		need, mism := R.roundTrip1(rule, c, inline, try < 3)
		if mism == nil || inline[mism] {
			return need
		}
		inline[mism] = true
	}
}

func (R *Report) roundTrip1(rule string, c codec, inline map[types.Type]bool, retry bool) (out []codec, mism types.Type) {
	h := R.harness(rule, c.typ+"."+c.w+"/"+c.r)
	h.soft, h.noChk = true, true
	need := map[[3]string]codec{}
	h.run(func() {
		T := h.mustType(c.pkg, c.typ)
		hook := &codecHook{h: h, root: T, inline: inline}
		h.e.hook = hook.call
		st := h.start()
		src := h.ptr("object", T)
		orig := load(st.facts, st.mem, src, T)
		wfn, rfn := h.mustMethod(c.pkg, c.typ, c.w), h.mustMethod(c.pkg, c.typ, c.r)
		m0 := st.mem
		var wargs []*Term
		for i := 1; i < len(wfn.Params); i++ {
			a := param("stream", wfn.Params[i].Type())
			st.assume(tEq(a, tNil()), false)
			wargs = append(wargs, a)
		}
		for _, x := range h.okExits(h.meth(st, T, src, c.w, wargs...)) {
			mark0 := (*Event)(nil)
			ws := ioTrace(eventsSince(x.st.ev, mark0))
			x.st.facts = noIOErrors(x.st.facts, ws)
			if x.st.facts.bad || h.contra(x.st.facts) {
				continue
			}
			if len(wargs) == 1 {
				if o := offStream(ws, wargs[0]); o != nil {
					h.fail("the writer puts data into another stream", o.pos)
				}
			}
			if w := writesOutside(x, m0); len(w) > 0 {
				h.fail("writing "+w[0]+pathNote(x), x.pos)
			}
			y0 := x.st.clone()
			dst := h.target(y0, T)
			var rargs []*Term
			for i := 1; i < len(rfn.Params); i++ {
				t := rfn.Params[i].Type()
				if isSlice(t) {
					rargs = append(rargs, x.res[0]) // the bytes marshalled
					continue
				}
				a := param("stream2", t)
				y0.assume(tEq(a, tNil()), false)
				rargs = append(rargs, a)
			}
			if c.w == "MarshalBinary" && c.r != "UnmarshalBinary" {
				ws = append(ws, ioStep{ev: &Event{kind: "io", args: []*Term{x.res[0]}, res: []*Term{tNil()}, mem: x.st.mem, pos: x.pos, io: &ioInfo{write: true, kind: "bytes"}}})
			}
			mark := y0.ev
			for _, y := range h.meth(y0, T, dst, c.r, rargs...) {
				h.paths++
				rs := ioTrace(eventsSince(y.st.ev, mark))
				if len(rargs) == 1 && !isSlice(rargs[0].typ) {
					if o := offStream(rs, rargs[0]); o != nil {
						h.fail("the reader takes data from another stream", o.pos)
					}
				}
				failed := y.kind != xReturn
				if !failed {
					e := y.res[len(y.res)-1]
					failed = isErrNil(y.st.facts, e) == 0
					if isErrNil(y.st.facts, e) < 0 {
						h.mustDecide(y, e, &failed)
					}
				}
				f := noIOErrors(y.st.facts, rs)
				if f.bad || h.contra(f) {
					continue
				}
				m := &traceMatch{h: h, f: f, need: need}
				if !m.match(ws, rs, failed) {
					if m.mism[0] != nil && retry && !inline[m.mism[0]] {
						mism = m.mism[0]
					}
					if !h.contra(m.f) {
						h.fail(m.why, y.pos)
					}
					continue
				}
				if failed {
					if !h.contra(m.f) {
						h.dump(m.f, nil)
						h.fail("reading what was just written may fail"+pathNote(y), y.pos)
					}
					continue
				}
				z := y
				z.st = y.st.clone()
				z.st.facts = m.f
				h.sameObject(z, T, orig, src, dst)
			}
		}
	})
	if mism == nil {
		h.commit()
	}
	for _, n := range need {
		out = append(out, n)
	}
	return
}

// mustDecide: an error result neither known nil nor known non-nil counts as
// success (the caller would use the object).
func (h *H) mustDecide(x Exit, e *Term, failed *bool) {
	x.st.facts = x.st.facts.assume(tEq(e, tNil()), true)
	*failed = false
}

// okExits: returns without an error.
func (h *H) okExits(xs []Exit) (r []Exit) {
	for _, x := range xs {
		if x.kind != xReturn {
			continue
		}
		e := x.res[len(x.res)-1]
		switch isErrNil(x.st.facts, e) {
		case 0:
			continue
		case -1:
			x.st = x.st.clone()
			x.st.assume(tEq(e, tNil()), true)
			if x.st.facts.bad {
				continue
			}
		}
		r = append(r, x)
	}
	return
}

// sameObject: the object at dst equals orig.
func (h *H) sameObject(x Exit, T types.Type, orig, src, dst *Term) {
	got := load(x.st.facts, x.st.mem, dst, T)
	n, _ := T.(*types.Named)
	if n != nil && n.Obj().Name() == "TagName" {
		ex := []*Term{got, orig}
		for j := int64(0); j < 4; j++ {
			ex = append(ex, tIndexAddr(orig, tInt(j), types.NewPointer(types.Typ[types.Byte])))
		}
		h.must(x, "the name read differs from the name written", ex, func(f *Facts) bool {
			g, o := renorm(f, got), renorm(f, orig)
			if g == o || f.eval(tEq(g, o)) == 1 {
				return true
			}
			// no name and a blank name are read as the empty-name marker
			if g.op != OStr || g.s != "----" {
				return false
			}
			if f.eval(tEq(o, tStr(""))) == 1 || f.eval(tEq(o, tStr("    "))) == 1 || f.proveEqInt(tLen(o), tInt(0)) {
				return true
			}
			for j := int64(0); j < 4; j++ {
				if !f.proveEqInt(renorm(f, tIndexVal(o, tInt(j))), tInt(' ')) {
					return false
				}
			}
			return f.proveEqInt(tLen(o), tInt(4))
		})
		return
	}
	if n != nil && n.Obj().Name() == "Items" {
		h.sameItems(x, T, src, dst)
		return
	}
	h.sameValue(x, T, orig, got, T.String(), 0)
}

func (h *H) sameValue(x Exit, T types.Type, a, b *Term, what string, depth int) {
	eq := func(f *Facts) bool {
		p, q := renorm(f, a), renorm(f, b)
		return p == q || f.eval(tEq(p, q)) == 1
	}
	if depth > 0 && h.prove(x.st.facts, []*Term{a, b}, eq) {
		h.paths++
		return
	}
	switch u := T.Underlying().(type) {
	case *types.Slice:
		if depth > 2 {
			break
		}
		if !h.must(x, "the number of elements of "+what+" differs after reading", []*Term{a, b}, h.intEq(tLen(a), tLen(b))) {
			return
		}
		j := param(fmt.Sprintf("j%d", depth), types.Typ[types.Int])
		y := x
		y.st = x.st.clone()
		y.st.assume(tLe(tInt(0), j), true)
		y.st.assume(tLt(j, tLen(a)), true)
		if y.st.facts.bad {
			return
		}
		pt := types.NewPointer(u.Elem())
		h.sameValue(y, u.Elem(), load(y.st.facts, y.st.mem, tIndexAddr(a, j, pt), u.Elem()),
			load(y.st.facts, y.st.mem, tIndexAddr(b, j, pt), u.Elem()), "an element of "+what, depth+1)
		return
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if depth == 0 && h.skipField(T, u, i) {
				continue
			}
			n++
			h.sameValue(x, ft, h.e.field(x.st, a, i, ft), h.e.field(x.st, b, i, ft), "field "+u.Field(i).Name()+" of "+what, depth+1)
		}
		if n == 0 {
			h.fail("nothing to compare", x.pos)
		}
		return
	}
	h.must(x, what+" differs after reading", []*Term{a, b}, eq)
}

// skipField: pointers, maps and counters of the index are not part of the
// stored data (they are rebuilt from it).
func (h *H) skipField(T types.Type, u *types.Struct, i int) bool {
	switch u.Field(i).Type().Underlying().(type) {
	case *types.Pointer, *types.Map:
		return true
	}
	if n, ok := T.(*types.Named); ok && n.Obj().Name() == "Index" {
		ft, ok := u.Field(i).Type().(*types.Named)
		return !ok || ft.Obj().Pkg() == nil || !h.P.repoPath(ft.Obj().Pkg().Path())
	}
	return false
}

// sameItems compares node storages through their API.
func (h *H) sameItems(x Exit, T types.Type, src, dst *Term) {
	a, _ := returns(h.meth(x.st, T, src, "NextID"))
	for _, p := range a {
		b, _ := returns(h.meth(p.st, T, dst, "NextID"))
		for _, q := range b {
			if !h.must(q, "the number of nodes differs after reading", []*Term{p.res[0], q.res[0]}, h.intEq(p.res[0], q.res[0])) {
				continue
			}
			id := param("id", p.res[0].typ)
			st := q.st.clone()
			fn := h.mustMethod("internal/index", "Items", "Get")
			ia := param("id", fn.Params[1].Type())
			_ = id
			ga, _ := returns(h.meth(st, T, src, "Get", ia))
			for _, u := range ga {
				gb, _ := returns(h.meth(u.st, T, dst, "Get", ia))
				for _, v := range gb {
					h.sameNode(v, u.res[0], v.res[0])
				}
			}
		}
	}
}

func (h *H) sameNode(x Exit, a, b *Term) {
	for _, pol := range []bool{true, false} {
		st := x.st.clone()
		st.assume(tEq(a, tNil()), pol)
		if st.facts.bad || h.contra(st.facts) {
			continue
		}
		y := x
		y.st = st
		if !h.must(y, "a node known before is unknown after reading, or the other way round", []*Term{b}, func(f *Facts) bool {
			return isErrNil(f, renorm(f, b)) == map[bool]int{true: 1, false: 0}[pol]
		}) || pol {
			continue
		}
		IT := h.mustType("internal/index", "Item")
		u := IT.Underlying().(*types.Struct)
		va, vb := load(st.facts, st.mem, a, IT), load(st.facts, st.mem, b, IT)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			fa, fb := h.e.field(st, va, i, ft), h.e.field(st, vb, i, ft)
			h.must(y, "field "+u.Field(i).Name()+" of a node differs after reading", []*Term{fa, fb, va, vb}, func(f *Facts) bool {
				p, q := renorm(f, va), renorm(f, vb)
				if p == q || f.eval(tEq(p, q)) == 1 {
					return true
				}
				return h.intEq(fa, fb)(f)
			})
		}
	}
}

func propRoundTrip(pkgs ...string) func(R *Report) {
	return func(R *Report) {
		R.P.initCaps()
		capEnabled = true
		done := map[string]bool{}
		var todo []codec
		for _, c := range codecs {
			for _, p := range pkgs {
				if c.pkg == p {
					todo = append(todo, c)
				}
			}
		}
		n := len(todo)
		for len(todo) > 0 {
			c := todo[0]
			todo = todo[1:]
			k := c.typ + "/" + c.w + "/" + c.r
			if done[k] {
				continue
			}
			done[k] = true
			for _, m := range R.roundTrip("round-trip", c) {
				i := strings.LastIndex(m.typ, ".")
				name := m.typ[i+1:]
				for _, d := range codecs {
					if d.typ == name {
						m.pkg, m.typ, m.max = d.pkg, d.typ, d.max
						break
					}
				}
				if m.pkg == "" {
					m.pkg = map[string]string{"storage": "pkg/storage", "dag": "pkg/dag", "index": "internal/index"}[m.typ[:i]]
					m.typ = name
				}
				todo = append(todo, m)
			}
		}
		R.floor("round-trip", n)
	}
}

func init() {
	register("C07", propRoundTrip("pkg/storage", "pkg/dag"))
	register("C08", func(R *Report) {
		propRoundTrip("internal/index")(R)
		R.dictRebuilt()
	})
}

func (P *Program) hasMethod(T types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(T, false, nil, name)
	_, ok := o.(*types.Func)
	return ok
}
