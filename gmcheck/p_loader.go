package main

// Dictionary files: a file appears under its name only when it is complete,
// and an update reports success only when every step of it succeeded.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const corpora = "pkg/opencorpora"

// ---- library contracts ----

// fallible are library operations giving a value and an error: exactly one of
// them is nil.
var fallible = map[string]bool{
	"os.Open": true, "os.Create": true, "os.OpenFile": true, "os.CreateTemp": true, "os.Stat": true, "os.Lstat": true,
	"net/http.Get": true, "net/http.Head": true, "(*net/http.Client).Get": true, "(*net/http.Client).Head": true, "(*net/http.Client).Do": true,
	"net/http.NewRequest": true, "net/http.NewRequestWithContext": true, "(*os.File).Stat": true,
	"github.com/amarin/binutils.OpenFile": true, "github.com/amarin/binutils.CreateFile": true,
}

var creators = map[string]bool{"os.Create": true, "os.OpenFile": true, "os.CreateTemp": true, "github.com/amarin/binutils.CreateFile": true}
var openers = map[string]bool{"os.Open": true, "github.com/amarin/binutils.OpenFile": true}
var fetchers = map[string]bool{"net/http.Get": true, "net/http.Head": true, "(*net/http.Client).Get": true, "(*net/http.Client).Head": true, "(*net/http.Client).Do": true}

// changers change what is found under the path given first.
var changers = map[string]bool{"os.Remove": true, "os.RemoveAll": true, "os.WriteFile": true, "os.Truncate": true, "os.Chtimes": true}

// loaderCalls: library contracts, and the calls which stand for a step of
// their own. A step may also panic when it is in panics.
type loaderCalls struct {
	steps  map[string]bool // methods which are not entered
	panics map[string]bool
}

func (l *loaderCalls) call(e *Engine, fr *Frame, st *State, site ssa.Instruction, name string, fn *ssa.Function, args []*Term, resT *types.Tuple) (bool, []Exit) {
	last := resT.Len() - 1
	switch {
	case fallible[name] && last == 1:
		x := e.external(fr, st, site, name, fn, args, resT)[0]
		ok, bad := x, x
		ok.st, bad.st = x.st.clone(), x.st.clone()
		nilErr, nilRes := tEq(x.res[1], tNil()), tEq(x.res[0], tNil())
		ok.st.assume(nilErr, true)
		ok.st.assume(nilRes, false)
		bad.st.assume(nilErr, false)
		bad.st.assume(nilRes, true)
		return true, []Exit{ok, bad}
	case hasPrefixAny(name, "flag.", "(*flag.FlagSet).") && (strings.HasSuffix(name, "Bool") || strings.HasSuffix(name, "BoolVar")):
		// the value it has once the command line is parsed
		x := e.external(fr, st, site, name, fn, args, resT)[0]
		as := args
		if strings.HasPrefix(name, "(") {
			as = as[1:]
		}
		at := as[0]
		if resT.Len() > 0 {
			at = mk(OAlloc, resT.At(0).Type(), true, 0, e.siteKey(fr, site), nil, nil, nil, fr.iters()...)
			x.res = []*Term{at}
		} else {
			as = as[1:]
		}
		n := newMem(x.st.mem, MStore)
		n.addr, n.val = at, flagValue(as[0])
		x.st.mem = n
		return true, []Exit{x}
	case name == "os.Exit":
		s := st.clone()
		s.addEvent(&Event{kind: "call", name: name, fn: fn, args: args, pos: site.Pos(), fac: st.facts, ctx: fr.ctx})
		return true, []Exit{{kind: xPanic, st: s, pos: site.Pos()}}
	}
	short := shortFn(fn)
	if !l.steps[short] {
		return false, nil
	}
	s := st.clone()
	res := e.opaqueResults(fr, site, short, resT)
	s.addEvent(&Event{kind: "step", name: short, fn: fn, args: args, res: res, pos: site.Pos(), fac: st.facts, ctx: fr.ctx})
	for _, a := range args {
		// the step may do anything to the index it is given
		if p, ok := a.typ.(*types.Pointer); ok && !strings.HasPrefix(short, "Loader.") {
			n := newMem(s.mem, MHavocType)
			n.typ = p.Elem()
			s.mem = n
		}
	}
	xs := []Exit{{kind: xReturn, st: s, res: res}}
	if l.panics[short] {
		p := st.clone()
		v := mk(OPure, types.Universe.Lookup("any").Type(), false, 0, "panic of "+short, nil, nil, nil)
		p.addEvent(&Event{kind: "panic", name: short, args: []*Term{v}, pos: site.Pos(), ctx: fr.ctx})
		xs = append(xs, Exit{kind: xPanic, st: p, pos: site.Pos(), fr: fr, pval: v})
	}
	return true, xs
}

func flagValue(name *Term) *Term { return param("flag "+name.s, types.Typ[types.Bool]) }

// shortFn: Type.Method or package.Function.
func shortFn(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	if r := fn.Signature.Recv(); r != nil {
		if n, ok := derefType(r.Type()).(*types.Named); ok {
			return n.Obj().Name() + "." + fn.Name()
		}
		if p, ok := r.Type().(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok {
				return n.Obj().Name() + "." + fn.Name()
			}
		}
		return ""
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Name() + "." + o.Name()
	}
	return ""
}

// ---- paths ----

// filePath: the parts joined to a path; the last may end in a suffix.
func filePath(f *Facts, t *Term) []string {
	t = renorm(f, t)
	switch {
	case t.op == OStr:
		if t.s == "" {
			return nil
		}
		return strings.Split(t.s, "/")
	case t.op == OPure && (t.s == "path.Join" || t.s == "path/filepath.Join" || t.s == "path.Clean" || t.s == "path/filepath.Clean") && len(t.args) > 0:
		a := t.args[0]
		if a.op != OSeqVal {
			if strings.HasSuffix(t.s, "Clean") {
				return filePath(f, a)
			}
			break
		}
		n := tLen(a.args[0])
		if n.op != OInt {
			break
		}
		var r []string
		for i := int64(0); i < n.k; i++ {
			T := types.Typ[types.String]
			r = append(r, filePath(f, load(f, a.mem, tIndexAddr(a.args[0], tInt(i), types.NewPointer(T)), T))...)
		}
		return r
	case t.op == OPure && (t.s == "path.Dir" || t.s == "path/filepath.Dir") && len(t.args) == 1:
		if a := filePath(f, t.args[0]); len(a) > 1 {
			return a[:len(a)-1]
		}
	case t.op == OBin && t.s == "concat":
		a, b := filePath(f, t.args[0]), filePath(f, t.args[1])
		if len(a) == 0 || len(b) == 0 {
			return append(a, b...)
		}
		r := append([]string{}, a[:len(a)-1]...)
		if len(b) > 1 && b[0] == "" && strings.HasPrefix(t.args[1].String(), "\"/") {
			return append(append(r, a[len(a)-1]), b[1:]...)
		}
		r = append(r, a[len(a)-1]+"+"+b[0])
		return append(r, b[1:]...)
	}
	return []string{"<" + t.String() + ">"}
}

func pathKey(f *Facts, t *Term) string { return strings.Join(filePath(f, t), "/") }

// differ: the paths are two different files for certain.
func differ(a, b string) bool {
	if a == b {
		return false
	}
	as, bs := strings.Split(a, "/"), strings.Split(b, "/")
	la, lb := as[len(as)-1], bs[len(bs)-1]
	if strings.HasPrefix(a, b+"+") && len(a) > len(b)+1 || strings.HasPrefix(b, a+"+") && len(b) > len(a)+1 {
		return true
	}
	plain := func(s string) bool { return !strings.ContainsAny(s, "<>+") }
	return plain(la) && plain(lb) && la != lb
}

// ---- rules on one path ----

type fileRun struct {
	h   *H
	x   Exit
	f   *Facts
	evs []*Event
}

func (h *H) fileRun(x Exit) *fileRun {
	return &fileRun{h: h, x: x, f: x.st.facts, evs: eventsSince(x.st.ev, nil)}
}

func (r *fileRun) fail(what string, e *Event) {
	if r.h.contra(r.f) {
		return
	}
	p := r.x.pos
	if e != nil {
		p = e.pos
	}
	r.h.fail(what+pathNote(r.x), p)
}

// failed: the operation is not known to have succeeded on this path.
func (r *fileRun) failed(e *Event) bool {
	if len(e.res) == 0 {
		return false
	}
	t := e.res[len(e.res)-1]
	if t.typ == nil || !isErrorType(t.typ) {
		return false
	}
	return r.f.eval(tEq(t, tNil())) != 1
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// gone: the operation failed on this path.
func (r *fileRun) gone(e *Event) bool {
	t := e.res[len(e.res)-1]
	return r.f.eval(tEq(t, tNil())) == 0
}

func bare(t *Term) *Term {
	for t.op == OIface || t.op == OLoad && t.args[0].op == OCall {
		t = t.args[0] // methods by value take what the handle points to
	}
	return t
}

// derived: the values made from v, such as buffers around a file.
func (r *fileRun) derived(v *Term) map[*Term]bool {
	m := map[*Term]bool{bare(v): true}
	for _, e := range r.evs {
		if len(e.res) == 0 || e.kind != "call" {
			continue
		}
		switch e.name {
		case "bufio.NewWriter", "bufio.NewWriterSize", "bufio.NewReader", "bufio.NewReaderSize", "io.TeeReader", "io.MultiWriter",
			"compress/bzip2.NewReader", "github.com/amarin/binutils.NewBinaryWriter", "github.com/amarin/binutils.NewBinaryReader", "io.NopCloser":
		default:
			continue
		}
		for _, a := range e.args {
			if m[bare(a)] {
				m[bare(e.res[0])] = true
			}
		}
	}
	return m
}

func takes(e *Event, m map[*Term]bool) bool {
	for _, a := range e.args {
		if m[bare(a)] {
			return true
		}
	}
	return false
}

func isClose(e *Event) bool { return e.kind == "call" && strings.HasSuffix(e.name, ".Close") }

// stream: what is read from or written to.
func (r *fileRun) stream(e *Event) *Term {
	if !fetchers[e.name] {
		return e.res[0]
	}
	u := e.res[0].typ.(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "Body" {
			return load(r.f, r.x.st.mem, tFieldAddr(e.res[0], i, types.NewPointer(u.Field(i).Type())), u.Field(i).Type())
		}
	}
	return e.res[0]
}

func (r *fileRun) status(e *Event) *Term {
	u := e.res[0].typ.(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "StatusCode" {
			return load(r.f, r.x.st.mem, tFieldAddr(e.res[0], i, types.NewPointer(u.Field(i).Type())), u.Field(i).Type())
		}
	}
	return tNil()
}

// closed: whatever was opened is closed on every way out.
func (r *fileRun) closed() {
	if r.panicked() {
		return // what a panic leaves open is not the matter here
	}
	for _, o := range r.evs {
		if o.kind != "call" || !(creators[o.name] || openers[o.name] || fetchers[o.name]) || r.gone(o) {
			continue
		}
		r.h.paths++
		v := r.stream(o)
		done := r.f.eval(tEq(v, tNil())) == 1
		m := map[*Term]bool{bare(v): true}
		for _, e := range r.evs {
			if isClose(e) && takes(e, m) {
				done = true
			}
		}
		if !done {
			r.fail("what "+o.name+" opened is not closed", o)
		}
	}
}

// answered: a response is used only when the server answered 200.
func (r *fileRun) answered() {
	for _, o := range r.evs {
		if o.kind != "call" || !fetchers[o.name] || r.gone(o) {
			continue
		}
		m := r.derived(r.stream(o))
		for _, e := range r.evs {
			if isClose(e) || !takes(e, m) {
				continue
			}
			r.h.paths++
			s := r.status(o)
			if e.fac.eval(tEqInt(s, tInt(200))) != 1 && !(e.fac.proveEqInt(s, tInt(200))) {
				r.fail("the answer of the server is used although its status is not known to be OK", e)
			}
		}
	}
}

// failure: something failed on this path.
func (r *fileRun) failure() bool {
	for _, e := range r.evs {
		switch {
		case e.kind == "panic":
			return true
		case e.kind != "call" && e.kind != "step" && e.kind != "pure" || len(e.res) == 0:
		case strings.HasPrefix(e.name, "fmt.") || strings.HasPrefix(e.name, "errors."):
		default:
			if t := e.res[len(e.res)-1]; t.typ != nil && isErrorType(t.typ) && r.gone(e) {
				return true
			}
		}
	}
	return false
}

// refused: the server answered, but not with what it was asked for.
func (r *fileRun) refused() bool {
	for _, o := range r.evs {
		if o.kind == "call" && fetchers[o.name] && !r.gone(o) && r.f.eval(tEqInt(r.status(o), tInt(200))) == 0 {
			return true
		}
	}
	return false
}

// stored: the file comes to its place complete or not at all. ok: the method
// succeeded and claims to have stored it. src: the parts of what is to be stored.
func (r *fileRun) stored(final string, ok bool, src map[*Term]bool) {
	var renamed *Event
	for i, e := range r.evs {
		if e.kind != "call" {
			continue
		}
		switch {
		case creators[e.name] && e.name != "os.CreateTemp" || changers[e.name] || e.name == "os.OpenFile":
			r.h.paths++
			if m := r.named(e.args[0]); m != nil && m.name == "os.CreateTemp" {
				continue // a new file with a name of its own
			}
			if p := r.key(e.args[0]); !differ(p, final) {
				r.fail(e.name+" is applied to "+p+", which is or may be the file itself", e)
			}
		case e.name == "os.Rename":
			r.h.paths++
			if r.key(e.args[0]) == final {
				r.fail("the file is moved away", e)
			}
			if r.key(e.args[1]) != final {
				continue
			}
			r.complete(e, r.evs[:i], src)
			if !r.failed(e) {
				renamed = e
			} else if ok {
				r.fail("success is reported although putting the file in place may have failed", e)
			}
		}
	}
	if ok && renamed == nil {
		r.fail("success is reported although the file was not put in place", nil)
	}
	if renamed == nil {
		r.cleared()
	}
}

// named: the operation which opened the file whose name t is.
func (r *fileRun) named(t *Term) *Event {
	t = bare(t)
	if t.op != OCall {
		return nil
	}
	for _, n := range r.evs {
		if n.kind == "call" && n.name == "(*os.File).Name" && n.res[0] == t {
			for _, e := range r.evs {
				if e.kind == "call" && (creators[e.name] || openers[e.name]) && len(e.res) > 0 && e.res[0] == n.args[0] {
					return e
				}
			}
		}
	}
	return nil
}

// key: the file a path stands for.
func (r *fileRun) key(t *Term) string {
	if m := r.named(t); m != nil && m.name != "os.CreateTemp" {
		t = m.args[0]
	}
	return pathKey(r.f, t)
}

// partial: the file being written under the path given.
func (r *fileRun) partial(evs []*Event, p *Term) (made *Event) {
	key := r.key(p)
	for _, e := range evs {
		if e.kind == "call" && (creators[e.name] && e.name != "os.CreateTemp" || e.name == "os.WriteFile") && r.key(e.args[0]) == key && !r.gone(e) {
			made = e
		}
		if e.kind == "call" && e.name == "os.CreateTemp" && r.named(p) == e {
			made = e
		}
	}
	return
}

// complete: everything was written without an error, and closed, before.
func (r *fileRun) complete(ren *Event, before []*Event, src map[*Term]bool) {
	made := r.partial(before, ren.args[0])
	if made == nil {
		r.fail("the file put in place was not written by this call", ren)
		return
	}
	if r.failed(made) {
		r.fail("the file put in place may not have been created", ren)
	}
	if made.name == "os.WriteFile" {
		return
	}
	m := r.derived(made.res[0])
	closed, flushed, data := false, true, false
	for _, e := range before {
		if e.kind == "panic" {
			r.fail("the file is put in place although writing it was broken off by a panic", ren)
		}
		if e.kind != "call" && e.kind != "step" || !takes(e, m) || e == made {
			continue
		}
		buffer := strings.HasPrefix(e.name, "bufio.NewWriter")
		switch {
		case isClose(e) && e.args[0] != nil && bare(e.args[0]) == bare(made.res[0]):
			closed = true
		case strings.HasSuffix(e.name, ".Flush"):
			flushed = true
		case strings.HasPrefix(e.name, "(*os.File).") && !strings.Contains(e.name, "Write"):
		case strings.HasPrefix(e.name, "bufio.New") || strings.HasPrefix(e.name, "io.MultiWriter") || strings.Contains(e.name, "binutils.New"):
		case e.name == "io.CopyN":
			r.fail("only a part of the data may be written", e)
		default:
			data = true
			if src != nil && e.kind == "call" && !takes(e, src) {
				r.fail("what is written is not the data to be stored", e)
			}
			if closed {
				r.fail("data is written after the file was closed", e)
			}
			flushed = flushed && !bufWriter(e, made)
		}
		if buffer {
			flushed = true
		}
		if r.failed(e) {
			r.fail("the file is put in place although "+e.name+" may have failed", ren)
		}
	}
	switch {
	case !data:
		r.fail("the file is put in place although nothing was written to it", ren)
	case !flushed:
		r.fail("the file is put in place although a buffer was not written out", ren)
	case !closed:
		r.fail("the file is put in place before it was closed", ren)
	}
}

func (r *fileRun) panicked() bool { return r.x.kind == xPanic || r.last("panic") != nil }

// bufWriter: the operation writes to a buffer around the file rather than the file.
func bufWriter(e *Event, made *Event) bool {
	for _, a := range e.args {
		if bare(a) == bare(made.res[0]) {
			return false
		}
	}
	for _, a := range e.args {
		if b := bare(a); b.op == OCall && b.typ != nil && strings.Contains(b.typ.String(), "bufio.Writer") {
			return true
		}
	}
	return false
}

// cleared: what was begun and not put in place is removed.
func (r *fileRun) cleared() {
	if r.panicked() {
		return
	}
	for i, e := range r.evs {
		if e.kind != "call" || !creators[e.name] && e.name != "os.WriteFile" || r.gone(e) {
			continue
		}
		r.h.paths++
		done := false
		for _, d := range r.evs[i:] {
			if d.kind == "call" && d.name == "os.Remove" {
				if e.name == "os.CreateTemp" {
					done = done || r.partial(r.evs, d.args[0]) == e
				} else {
					done = done || r.key(d.args[0]) == r.key(e.args[0])
				}
			}
		}
		if !done {
			r.fail("an unfinished file is left behind", e)
		}
	}
}

// ---- the loader ----

type ldr struct {
	h    *H
	T    *types.Named
	st   *State
	recv *Term
	dir  string
}

func (h *H) loader() *ldr {
	l := &ldr{h: h, T: h.mustType(corpora, "Loader")}
	l.st = h.start()
	l.recv = h.ptr("loader", l.T)
	l.st.assume(tEq(l.recv, tNil()), false)
	xs := h.noPanic(l.meth(l.st, "DataPath"), "DataPath")
	// a folder of its own is as good as the one used when none is set
	x := Exit{}
	for _, y := range xs {
		if x.st == nil || pathKey(x.st.facts, x.res[0]) == renorm(x.st.facts, x.res[0]).s {
			x = y
		}
	}
	if x.st == nil {
		panic(abortErr{"DataPath"})
	}
	l.st = x.st
	l.dir = pathKey(l.st.facts, x.res[0])
	l.st.ev = nil
	return l
}

// meth calls a method of the loader, by value or by pointer.
func (l *ldr) meth(st *State, name string, args ...*Term) []Exit {
	fn := l.h.P.methodOf(l.T, name)
	if fn == nil {
		fn = l.h.P.methodOf(types.NewPointer(l.T), name)
	}
	if fn == nil || len(fn.Blocks) == 0 {
		panic(abortErr{"method " + name + " of Loader not found"})
	}
	recv := l.recv
	if _, ptr := fn.Signature.Recv().Type().(*types.Pointer); !ptr {
		recv = load(st.facts, st.mem, l.recv, l.T)
	}
	return l.h.call(st, fn, append([]*Term{recv}, args...)...)
}

// file: the path of the file with the name the constant gives.
func (l *ldr) file(name string) string {
	p := l.h.P.pkg(corpora)
	if p != nil {
		if c, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
			return l.dir + "/" + constant.StringVal(c.Val())
		}
	}
	panic(abortErr{"constant " + name})
}

// outcomes splits the ways out by the error returned.
func (l *ldr) outcomes(xs []Exit) (good, bad []Exit) {
	for _, x := range l.h.noPanic(xs, "the method") {
		e := x.res[len(x.res)-1]
		if o := errOutcome(x.st.facts, e); o != 0 {
			if o > 0 {
				good = append(good, x)
			} else {
				bad = append(bad, x)
			}
			continue
		}
		a, b := l.h.branch(x.st, tEq(e, tNil()))
		if a != nil {
			y := x
			y.st = a
			good = append(good, y)
		}
		if b != nil {
			y := x
			y.st = b
			bad = append(bad, y)
		}
	}
	return
}

// errOutcome: 1 nil, -1 an error, 0 not known.
func errOutcome(f *Facts, e *Term) int {
	switch f.eval(tEq(e, tNil())) {
	case 1:
		return 1
	case 0:
		return -1
	}
	if e.op == OPure && (e.s == "fmt.Errorf" || e.s == "errors.New") {
		return -1
	}
	return 0
}

func (l *ldr) inDir(r *fileRun) {
	for _, e := range r.evs {
		if e.kind != "call" || len(e.args) == 0 || !(creators[e.name] || openers[e.name] || changers[e.name] || e.name == "os.Rename" || e.name == "os.Stat" || e.name == "os.Lstat") {
			continue
		}
		r.h.paths++
		if p := r.key(e.args[0]); !strings.HasPrefix(p, l.dir+"/") && !(e.name == "os.CreateTemp" && p == l.dir) && r.named(e.args[0]) == nil {
			r.fail(e.name+" works on "+p+", outside the folder of the loader", e)
		}
	}
}

// folder: the folder is there before a file is created in it.
func (l *ldr) folder(r *fileRun) {
	for i, e := range r.evs {
		if e.kind != "call" || !creators[e.name] && e.name != "os.WriteFile" {
			continue
		}
		r.h.paths++
		made := false
		for _, d := range r.evs[:i] {
			if d.kind == "call" && (d.name == "os.MkdirAll") && r.key(d.args[0]) == l.dir && !r.failed(d) {
				made = true
			}
		}
		if !made {
			r.fail("a file is created although its folder may not be there", e)
		}
	}
}

func steps(names ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return m
}

// source: the data the file is to consist of.
func (r *fileRun) source(of func(*Event) bool) map[*Term]bool {
	m := map[*Term]bool{}
	for _, e := range r.evs {
		if e.kind == "call" && of(e) && !r.gone(e) {
			for t := range r.derived(r.stream(e)) {
				m[t] = true
			}
		}
	}
	for _, e := range r.evs {
		if e.kind == "call" && (e.name == "io.ReadAll" || e.name == "io/ioutil.ReadAll") && takes(e, m) && !r.failed(e) {
			m[e.res[0]] = true
		}
	}
	return m
}

func propLoader(R *Report) {
	each := func(rule, name string, c *loaderCalls, f func(l *ldr)) {
		h := R.harness(rule, name)
		h.e.hook = c.call
		h.run(func() { f(h.loader()) })
	}
	str := types.Typ[types.String]
	indexOps := steps("Index.BinaryReadFrom", "Index.BinaryWriteTo", "Index.Optimize", "Index.WordsCount", "Index.NodesCount", "index.New", "Index.GetItem", "Index.TagSet")
	both := func(good, bad []Exit) []Exit { return append(append([]Exit{}, good...), bad...) }

	// the files themselves
	each("file-complete-or-absent", "Loader.DownloadUpdate", &loaderCalls{}, func(l *ldr) {
		good, bad := l.outcomes(l.meth(l.st, "DownloadUpdate"))
		for _, x := range both(good, bad) {
			r := l.h.fileRun(x)
			ok := false
			if errOutcome(r.f, x.res[1]) > 0 {
				switch r.f.eval(x.res[0]) {
				case 1:
					ok = true
				case -1:
					r.fail("it is not clear whether an update was made", nil)
				}
			}
			get := func(e *Event) bool { return fetchers[e.name] && !strings.HasSuffix(e.name, "Head") }
			r.stored(l.file("LocalSourceFilename"), ok, r.source(get))
			r.closed()
			r.answered()
			l.inDir(r)
			l.folder(r)
		}
		l.needless(bad)
	})
	each("downloaded-when-asked", "Loader.DownloadUpdate", &loaderCalls{steps: steps("Loader.IsUpdateRequired")}, func(l *ldr) {
		good, bad := l.outcomes(l.meth(l.st, "DownloadUpdate"))
		for _, x := range bad {
			l.h.paths++
			if x.st.facts.eval(x.res[0]) != 0 {
				l.h.fail("an update is reported along with an error"+pathNote(x), x.pos)
			}
		}
		for _, x := range good {
			r := l.h.fileRun(x)
			l.h.paths++
			check := r.last("step", "Loader.IsUpdateRequired")
			made := r.f.eval(x.res[0])
			switch {
			case check == nil:
				r.fail("it is not checked whether an update is required", nil)
			case r.failed(check):
				r.fail("success is reported although the check for updates may have failed", check)
			case made == 0 && r.f.eval(check.res[0]) != 0:
				r.fail("nothing is downloaded although an update may be required", check)
			case made != 0 && r.f.eval(check.res[0]) != 1:
				r.fail("an update is downloaded although none may be required", check)
			}
		}
	})
	each("file-complete-or-absent", "Loader.UnpackUpdate", &loaderCalls{}, func(l *ldr) {
		good, bad := l.outcomes(l.meth(l.st, "UnpackUpdate"))
		for _, x := range both(good, bad) {
			r := l.h.fileRun(x)
			src := map[*Term]bool{}
			from := l.file("LocalSourceFilename")
			packed := r.source(func(e *Event) bool { return openers[e.name] && r.key(e.args[0]) == from })
			for _, e := range r.evs {
				if e.kind == "call" && e.name == "compress/bzip2.NewReader" && takes(e, packed) {
					for t := range r.derived(e.res[0]) {
						src[t] = true
					}
				}
			}
			r.stored(l.file("LocalUnpackedFilename"), errOutcome(r.f, x.res[0]) > 0, src)
			r.closed()
			l.inDir(r)
			l.folder(r)
		}
		l.needless(bad)
	})
	save := &loaderCalls{steps: indexOps, panics: steps("Index.BinaryWriteTo", "Index.Optimize")}
	each("file-complete-or-absent", "Loader.SaveIndex", save, func(l *ldr) {
		idx, to := l.h.ptr("mainIndex", l.h.mustType(idxPkg, "Index")), param("toFile", str)
		l.st.assume(tEq(idx, tNil()), false)
		for _, x := range l.meth(l.st, "SaveIndex", idx, to) {
			r := l.h.fileRun(x)
			ok := x.kind == xReturn && errOutcome(r.f, x.res[0]) > 0
			if x.kind == xReturn && errOutcome(r.f, x.res[0]) < 0 {
				l.needless([]Exit{x})
			}
			if x.kind == xReturn && errOutcome(r.f, x.res[0]) == 0 {
				a, b := l.h.branch(x.st, tEq(x.res[0], tNil()))
				if a != nil && b != nil {
					l.h.fail("it is not clear whether the index was saved"+pathNote(x), x.pos)
				}
			}
			r.stored(r.key(to), ok, nil)
			r.closed()
			for _, e := range r.evs {
				if e.kind == "step" && e.name == "Index.BinaryWriteTo" && e.args[0] != idx {
					r.fail("another index is written", e)
				}
			}
		}
	})
	each("file-read-whole", "Loader.LoadIndex", &loaderCalls{steps: indexOps, panics: steps("Index.BinaryReadFrom")}, func(l *ldr) {
		var xs []Exit
		for _, x := range l.meth(l.st, "LoadIndex") {
			if r := l.h.fileRun(x); x.kind == xPanic && r.last("panic") != nil {
				r.closed()
				continue
			}
			xs = append(xs, x)
		}
		good, bad := l.outcomes(xs)
		for _, x := range bad {
			if x.st.facts.eval(tEq(x.res[0], tNil())) != 1 {
				l.h.fail("an index is returned along with an error"+pathNote(x), x.pos)
			}
		}
		for _, x := range both(good, bad) {
			r := l.h.fileRun(x)
			r.closed()
			l.inDir(r)
		}
		l.needless(bad)
		for _, x := range good {
			r := l.h.fileRun(x)
			made, rd := r.last("step", "index.New"), r.last("step", "Index.BinaryReadFrom")
			l.h.paths++
			switch {
			case made == nil || rd == nil:
				r.fail("success without reading a new index", nil)
			case r.failed(rd):
				r.fail("success although reading the index may have failed", rd)
			case rd.args[0] != made.res[0] || x.res[0] != made.res[0]:
				r.fail("the index returned is not the one read", rd)
			default:
				m := r.source(func(e *Event) bool {
					return openers[e.name] && r.key(e.args[0]) == l.file("LocalCompiledFilename")
				})
				if !takes(rd, m) {
					r.fail("the index is not read from the compiled file", rd)
				}
			}
		}
	})
	each("update-check", "Loader.IsUpdateRequired", &loaderCalls{}, updateCheck)
	parse := &loaderCalls{steps: steps("libxml.ParseXMLFile", "Loader.SaveIndex"), panics: steps("libxml.ParseXMLFile", "Loader.SaveIndex")}
	each("compiled-from-whole-source", "Loader.ParseUpdate", parse, compiled)
	update := &loaderCalls{steps: steps("Loader.IsUpdateRequired", "Loader.IsDownloadExists", "Loader.IsUnpackedExists", "Loader.DownloadUpdate", "Loader.UnpackUpdate", "Loader.ParseUpdate")}
	each("update-in-full", "Loader.Update", update, updated)
	R.floor("file-complete-or-absent", 3)
	h := R.harness("exit-status", "opencorpora_update")
	h.e.hook = (&loaderCalls{steps: steps("Loader.Update", "opencorpora.NewLoader")}).call
	h.noChk = true
	h.run(func() {
		fn := h.mustFn("cmd/opencorpora_update", "main")
		for _, x := range h.call(h.start(), fn) {
			r := h.fileRun(x)
			up, exit := r.last("step", "Loader.Update"), r.last("call", "os.Exit")
			h.paths++
			status := tInt(0)
			if exit != nil {
				status = exit.args[0]
			}
			zero := r.f.eval(tEqInt(status, tInt(0)))
			if up != nil && r.failed(up) != (zero != 1) {
				r.fail("the exit status does not tell whether the update succeeded", exit)
			}
			usage, force := r.f.eval(flagValue(tStr("h"))), flagValue(tStr("f"))
			switch {
			case up == nil && usage != 1 && zero != 0:
				r.fail("success is told although no update was made", exit)
			case up == nil && usage != 1 && !r.failure():
				r.fail("no update is made although nothing failed", exit)
			case up == nil:
			case usage != 0:
				r.fail("an update is made although only the usage is asked for", up)
			case up.args[1] != force && !(r.f.eval(force) >= 0 && r.f.eval(force) == r.f.eval(up.args[1])):
				r.fail("the update is not told whether to compile in any case", up)
			default:
				made := r.last("step", "opencorpora.NewLoader")
				if made == nil || r.f.eval(tEq(made.args[0], tStr(""))) != 1 {
					r.fail("the update is made in another folder than that of the domain", made)
				}
				if r.last("call", "flag.Parse", "(*flag.FlagSet).Parse") == nil {
					r.fail("the command line is not looked at", up)
				}
			}
		}
	})
}

func (r *fileRun) last(kind string, names ...string) (l *Event) {
	for _, e := range r.evs {
		if e.kind == kind {
			if len(names) == 0 {
				l = e
			}
			for _, n := range names {
				if e.name == n {
					l = e
				}
			}
		}
	}
	return
}

// isNotExist: the condition which tells that the error of a file operation
// means there is no file.
func isNotExist(e *Event, err *Term) *Term {
	switch e.name {
	case "errors.Is":
		if len(e.args) == 2 && e.args[0] == err && strings.Contains(e.args[1].String(), "NotExist") {
			return e.res[0]
		}
	case "os.IsNotExist":
		if e.args[0] == err {
			return e.res[0]
		}
	}
	return nil
}

func updateCheck(l *ldr) {
	want := l.file("LocalSourceFilename")
	good, bad := l.outcomes(l.meth(l.st, "IsUpdateRequired"))
	for _, x := range bad {
		if x.st.facts.eval(x.res[0]) != 0 {
			l.h.fail("an update is called for along with an error"+pathNote(x), x.pos)
		}
		r := l.h.fileRun(x)
		stat := r.last("call", "os.Stat", "os.Lstat")
		if stat == nil {
			continue
		}
		l.h.paths++
		failed, other := false, false
		for _, e := range r.evs {
			if e.kind != "call" || len(e.res) == 0 || !isErrorType(e.res[len(e.res)-1].typ) || !r.gone(e) {
				continue
			}
			failed = true
			if e != stat {
				other = true
			}
			if e == stat {
				for _, c := range r.evs {
					if n := isNotExist(c, stat.res[1]); n != nil && r.f.eval(n) == 0 {
						other = true
					}
				}
			}
		}
		switch {
		case failed && !other:
			r.fail("an error is reported where a file not there calls for an update", stat)
		case !failed:
			answered := false
			for _, e := range r.evs {
				if e.kind == "call" && fetchers[e.name] {
					s := r.status(e)
					answered = !(r.f.eval(tEqInt(s, tInt(200))) == 1 || r.f.proveEqInt(s, tInt(200)))
				}
			}
			if !answered {
				r.fail("an error is reported although nothing failed", stat)
			}
		}
	}
	for _, x := range append(append([]Exit{}, good...), bad...) {
		r := l.h.fileRun(x)
		r.closed()
		l.inDir(r)
		for _, e := range r.evs {
			if e.kind == "call" && (creators[e.name] || changers[e.name] || e.name == "os.Rename") {
				r.fail("the update check changes files", e)
			}
		}
	}
	var decided []Exit
	for _, x := range good {
		a, b := l.h.branch(x.st, x.res[0])
		for _, st := range []*State{a, b} {
			if st != nil {
				y := x
				y.st = st
				decided = append(decided, y)
			}
		}
	}
	for _, x := range decided {
		r := l.h.fileRun(x)
		l.h.paths++
		need := r.f.eval(x.res[0])
		stat, head := r.last("call", "os.Stat", "os.Lstat"), (*Event)(nil)
		for _, e := range r.evs {
			if e.kind == "call" && fetchers[e.name] {
				head = e
			}
		}
		if stat == nil || r.key(stat.args[0]) != want {
			r.fail("the downloaded file is not looked at", stat)
			continue
		}
		if r.gone(stat) {
			absent := false
			for _, e := range r.evs {
				if c := isNotExist(e, stat.res[1]); c != nil && r.f.eval(c) == 1 {
					absent = true
				}
			}
			switch {
			case !absent:
				r.fail("a file which cannot be looked at is taken for one that is present or absent", stat)
			case need != 1:
				r.fail("no update is called for although there is no file", stat)
			}
			continue
		}
		if head == nil {
			r.fail("the server was not asked", stat)
			continue
		}
		s := r.status(head)
		if r.failed(head) || !(r.f.eval(tEqInt(s, tInt(200))) == 1 || r.f.proveEqInt(s, tInt(200))) {
			r.fail("an answer is given although the server may not have answered properly", head)
			continue
		}
		// newer: the date the server gave is after the date of the file
		newer, unread, maybe := -1, false, false
		for _, e := range r.evs {
			switch e.name {
			case "time.Parse", "net/http.ParseTime":
				unread, maybe = r.gone(e), r.failed(e)
				if e.name == "time.Parse" && e.args[0] != tStr(time.RFC1123) && e.args[0] != tStr("Mon, 02 Jan 2006 15:04:05 GMT") {
					r.fail("the date of the server is not read in the form servers give", e)
				}
			case "(time.Time).After", "(time.Time).Before":
				newer = r.f.eval(e.res[0])
				server, local := e.args[0], e.args[1]
				if e.name == "(time.Time).Before" {
					server, local = local, server
				}
				if !madeBy(server, "time.Parse", "net/http.ParseTime") || !madeBy(local, "ModTime") {
					r.fail("the dates compared are not those of the server and of the file", e)
				}
			}
		}
		switch {
		case need == 1 && newer != 1 && !unread:
			r.fail("an update is called for although the server has nothing newer", nil)
		case need == 0 && (newer == 1 || maybe || newer < 0 && !r.undated(head)):
			r.fail("no update is called for although the server has or may have a newer file", nil)
		case need < 0:
			r.fail("it is not clear whether an update is required", nil)
		}
	}
}

// undated: the answer has no date.
func (r *fileRun) undated(head *Event) bool {
	name := textConst(r.h.P, "pkg/common", "HTTPHeaderLastModified")
	for _, e := range r.evs {
		if strings.HasSuffix(e.name, "net/http.Header).Get") && len(e.args) > 1 && e.args[1] == name {
			return r.f.eval(tEq(e.res[0], tStr(""))) == 1
		}
	}
	u := head.res[0].typ.(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() != "Header" {
			continue
		}
		T := u.Field(i).Type()
		h := load(r.f, r.x.st.mem, tFieldAddr(head.res[0], i, types.NewPointer(T)), T)
		v, has := mapLookup(r.f, r.x.st.mem, h, name, T.Underlying().(*types.Map).Elem())
		return r.f.eval(has) == 0 || r.f.eval(tEq(v, tNil())) == 1 || r.f.proveLe(tLen(v), tInt(0))
	}
	return false
}

func madeBy(t *Term, names ...string) bool {
	if t.op != OCall || t.obj == nil {
		return false
	}
	ci, ok := t.obj.(*callInfo)
	for _, n := range names {
		if ok && (ci.name == n || strings.HasSuffix(ci.name, "."+n)) {
			return true
		}
	}
	return false
}

func compiled(l *ldr) {
	str := types.Typ[types.String]
	from, to := param("fromFile", str), param("toFile", str)
	l.h.noChk = true
	good, bad := l.outcomes(l.meth(l.st, "ParseUpdate", from, to))
	for _, x := range append(append([]Exit{}, good...), bad...) {
		r := l.h.fileRun(x)
		parse, save := r.last("step", "libxml.ParseXMLFile"), r.last("step", "Loader.SaveIndex")
		r.closed()
		for _, e := range r.evs {
			if e.kind == "call" && (creators[e.name] || changers[e.name] || e.name == "os.Rename") {
				r.fail("files are changed in another way than by saving the index", e)
			}
		}
		l.h.paths++
		if save != nil && (parse == nil || r.failed(parse)) {
			stopped := false
			for _, e := range r.evs {
				if e.name == "errors.Is" && parse != nil && len(e.args) == 2 && e.args[0] == parse.res[0] && strings.Contains(e.args[1].String(), "ErrControlledStop") {
					stopped = r.f.eval(e.res[0]) == 1 || r.f.eval(tEq(parse.res[0], tNil())) != 0
				}
			}
			if !stopped {
				r.fail("an index is saved although the source may not have been read in full", save)
			}
		}
		if errOutcome(r.f, x.res[0]) <= 0 {
			continue
		}
		switch {
		case r.last("panic") != nil:
			r.fail("success is reported after a panic", r.last("panic"))
		case parse == nil || parse.args[0] != from:
			r.fail("success without reading the source", parse)
		case save == nil || r.failed(save):
			r.fail("success is reported although the index may not have been saved", save)
		case save.args[2] != to:
			r.fail("the index is saved under another name", save)
		case !fills(r, parse, save.args[1]):
			r.fail("the index saved is not the one the parser fills", save)
		}
	}
	l.needless(bad)
}

// fills: the parser given to ParseXMLFile holds the index.
func fills(r *fileRun, parse *Event, idx *Term) bool {
	p := bare(parse.args[1])
	if p.typ == nil {
		return false
	}
	pt, ok := p.typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	u, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if v := load(parse.fac, r.x.st.mem, tFieldAddr(p, i, types.NewPointer(ft)), ft); bare(v) == bare(idx) {
			return true
		}
	}
	return false
}

func updated(l *ldr) {
	force := param("forceRecompile", types.Typ[types.Bool])
	good, bad := l.outcomes(l.meth(l.st, "Update", force))
	for _, x := range append(append([]Exit{}, good...), bad...) {
		r := l.h.fileRun(x)
		l.h.paths++
		var down, unpack *Event
		for _, e := range r.evs {
			if e.kind != "step" {
				continue
			}
			switch e.name {
			case "Loader.DownloadUpdate":
				down = e
			case "Loader.UnpackUpdate":
				if down != nil && (r.failed(down) || r.f.eval(down.res[0]) != 1) {
					r.fail("unpacking although the download may not have been made", e)
				}
				unpack = e
			case "Loader.ParseUpdate":
				if unpack != nil && r.failed(unpack) {
					r.fail("compiling although unpacking may have failed", e)
				}
				if down != nil && unpack == nil {
					r.fail("compiling without unpacking what was downloaded", e)
				}
				if a, b := r.key(e.args[1]), r.key(e.args[2]); a != l.file("LocalUnpackedFilename") || b != l.file("LocalCompiledFilename") {
					r.fail(fmt.Sprintf("%s is compiled to %s", a, b), e)
				}
			}
		}
	}
	for _, x := range good {
		r := l.h.fileRun(x)
		check, down, unpack, comp := r.last("step", "Loader.IsUpdateRequired"), r.last("step", "Loader.DownloadUpdate"), r.last("step", "Loader.UnpackUpdate"), r.last("step", "Loader.ParseUpdate")
		forced := r.f.eval(force)
		l.h.paths++
		for _, e := range []*Event{down, unpack, comp} {
			if e != nil && r.failed(e) {
				r.fail("success is reported although "+e.name+" may have failed", e)
			}
		}
		switch {
		case check == nil:
			r.fail("it is not checked whether an update is required", nil)
		case r.failed(check) && forced != 1:
			r.fail("success is reported although the check for updates may have failed", check)
		case comp != nil && down == nil && !r.gone(check) && r.f.eval(check.res[0]) != 0:
			r.fail("what was there before is compiled although an update may be required", comp)
		case comp != nil:
		case unpack != nil || forced != 0 && down == nil:
			r.fail("success is reported without compiling", unpack)
		case down != nil:
			if r.f.eval(down.res[0]) != 0 {
				r.fail("success is reported although what was downloaded was not compiled", down)
			}
		case r.f.eval(check.res[0]) != 0:
			r.fail("success is reported although an update is required", check)
		}
	}
	for _, x := range bad {
		r := l.h.fileRun(x)
		l.h.paths++
		if check := r.last("step", "Loader.IsUpdateRequired"); check == nil || r.f.eval(force) == 0 || r.last("step", "Loader.DownloadUpdate", "Loader.UnpackUpdate", "Loader.ParseUpdate") != nil {
			continue
		}
		for _, name := range []string{"Loader.IsUnpackedExists", "Loader.IsDownloadExists"} {
			if e := r.last("step", name); e == nil || r.f.eval(e.res[0]) != 0 {
				r.fail("a forced update gives up although there may be data to compile ("+name+")", e)
			}
		}
	}
	l.needless(bad)
}

// needless: an operation fails only when something it needs fails.
func (l *ldr) needless(bad []Exit) {
	for _, x := range bad {
		r := l.h.fileRun(x)
		l.h.paths++
		if !r.failure() && !r.refused() {
			r.fail("an error is reported although nothing failed", nil)
		}
	}
}

// loaderFolder: the files of the loader are in the folder given, or in that of
// its domain; they are told to be there when they can be looked at.
func loaderFolder(R *Report) {
	str := types.Typ[types.String]
	folder := func(rule, what string, make func(h *H, given *Term) (*State, *Term)) {
		h := R.harness(rule, what)
		h.run(func() {
			for _, none := range []bool{false, true} {
				given := param("folder", str)
				st := h.start()
				want := given
				if none {
					given = tStr("")
					want = nil
					name := textConst(h.P, corpora, "DomainName")
					xs := h.noPanic(h.call(st, h.mustFn("pkg/common", "DomainDataPath"), name), "DomainDataPath")
					if len(xs) == 1 {
						want = xs[0].res[0]
					}
				}
				if want == nil {
					panic(abortErr{"DomainDataPath"})
				}
				T := h.mustType(corpora, "Loader")
				l := &ldr{h: h, T: T}
				l.st, l.recv = make(h, given)
				if !none {
					l.st.assume(tEq(given, tStr("")), false)
				}
				if l.st.facts.bad {
					continue
				}
				for _, x := range h.noPanic(l.meth(l.st, "DataPath"), "DataPath") {
					h.must(x, "the files are kept in another folder than the one given, or than that of the domain when none is given", []*Term{x.res[0]}, func(f *Facts) bool {
						return pathKey(f, x.res[0]) == pathKey(f, want)
					})
				}
			}
		})
	}
	folder("loader-folder", "NewLoader", func(h *H, given *Term) (*State, *Term) {
		st := h.start()
		if given.op != OStr {
			st.assume(tEq(given, tStr("")), false)
		}
		xs := h.noPanic(h.call(st, h.mustFn(corpora, "NewLoader"), given), "NewLoader")
		if len(xs) != 1 {
			panic(abortErr{"NewLoader"})
		}
		return xs[0].st, xs[0].res[0]
	})
	folder("loader-folder", "Loader.SetDataPath", func(h *H, given *Term) (*State, *Term) {
		l := h.loader()
		if given.op != OStr {
			l.st.assume(tEq(given, tStr("")), false)
		}
		xs := h.noPanic(l.meth(l.st, "SetDataPath", given), "SetDataPath")
		if len(xs) != 1 {
			panic(abortErr{"SetDataPath"})
		}
		return xs[0].st, l.recv
	})
	for _, m := range [][2]string{{"IsDownloadExists", "LocalSourceFilename"}, {"IsUnpackedExists", "LocalUnpackedFilename"}} {
		h := R.harness("file-there", "Loader."+m[0])
		h.e.hook = (&loaderCalls{}).call
		h.run(func() {
			l := h.loader()
			want := l.file(m[1])
			for _, x := range h.noPanic(l.meth(l.st, m[0]), m[0]) {
				a, b := h.branch(x.st, x.res[0])
				for i, st := range []*State{a, b} {
					if st == nil {
						continue
					}
					y := x
					y.st = st
					r := h.fileRun(y)
					h.paths++
					stat := r.last("call", "os.Stat", "os.Lstat", "os.Open")
					switch {
					case stat == nil || r.key(stat.args[0]) != want:
						r.fail("the file is not looked at", stat)
					case i == 0 && r.f.eval(tEq(stat.res[1], tNil())) != 1:
						r.fail("a file is told to be there which may not be", stat)
					case i == 1 && !r.gone(stat):
						r.fail("a file which is there is told not to be", stat)
					}
				}
			}
		})
	}
}

// textConst: the value of an exported string constant.
func textConst(P *Program, pkg, name string) *Term {
	if p := P.pkg(pkg); p != nil {
		if c, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
			return tStr(constant.StringVal(c.Val()))
		}
	}
	panic(abortErr{"constant " + name})
}

func init() { register("C21", propLoader) }
