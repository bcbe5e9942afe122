package main

// Paths, kinds of errors and printed forms.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- which errors an error wraps ----

// wrapped lists the errors found by unwrapping t: loads of package variables
// and opaque errors of calls.
func wrapped(t *Term) (r []*Term) {
	for t.op == OIface {
		t = t.args[0]
	}
	if t.op != OPure || t.s != "fmt.Errorf" && t.s != "errors.Join" {
		return []*Term{t}
	}
	if t.s == "errors.Join" {
		for _, a := range t.args {
			r = append(r, wrapped(a)...)
		}
		return
	}
	if len(t.args) == 0 || t.args[0].op != OStr {
		return nil
	}
	for i, v := range verbs(t.args[0].s) {
		if v == 'w' && i+1 < len(t.args) {
			r = append(r, wrapped(t.args[i+1])...)
		}
	}
	return
}

// verbs of a format, in the order of its operands; nil for formats with
// operand indexes or star widths.
func verbs(s string) (r []byte) {
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		for i++; i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0; i++ {
		}
		if i >= len(s) {
			return
		}
		if s[i] == '[' || s[i] == '*' {
			return nil
		}
		if s[i] != '%' {
			r = append(r, s[i])
		}
	}
	return
}

func wrapsVar(t *Term, pkgPath, name string) bool {
	for _, w := range wrapped(t) {
		if w.op == OLoad && w.args[0].op == OGlobal {
			if g, ok := w.args[0].obj.(*ssa.Global); ok && g.Name() == name && g.Pkg.Pkg.Path() == pkgPath {
				return true
			}
		}
	}
	return false
}

// ---- C17: errors tell their kind ----

type errKind struct {
	pkg, typ, method string
	varPkg, varName  string // the error the result has to wrap
	cause            bool   // failures of the stream have to wrap its error instead
	either           bool   // failures of the stream wrap either
}

var errKinds = []errKind{
	{"pkg/storage", "Set8", "WriteTo", "pkg/storage", "ErrSet8", false, true},
	{"pkg/storage", "Set16", "WriteTo", "pkg/storage", "ErrSet16", false, true},
	{"pkg/storage", "Set8", "ReadFrom", "pkg/storage", "ErrSet8", true, false},
	{"pkg/storage", "Set16", "ReadFrom", "pkg/storage", "ErrSet16", true, false},
	{"pkg/dag", "TagName", "BinaryWriteTo", "pkg/dag", "Error", false, false},
	{"pkg/dag", "TagName", "BinaryReadFrom", "pkg/dag", "Error", false, false},
	{"pkg/dag", "TagName", "MarshalBinary", "pkg/dag", "Error", false, false},
	{"pkg/dag", "TagName", "UnmarshalBinary", "pkg/dag", "Error", false, false},
	{"pkg/dag", "Tag", "BinaryWriteTo", "pkg/dag", "Error", false, false},
	{"pkg/dag", "Tag", "BinaryReadFrom", "pkg/dag", "Error", false, false},
	{"pkg/dag", "Idx", "BinaryWriteTo", "pkg/common", "ErrMarshal", false, false},
	{"pkg/dag", "Idx", "BinaryReadFrom", "pkg/common", "ErrUnmarshal", false, false},
	{idxPkg, "TagSet", "BinaryWriteTo", idxPkg, "Error", false, false},
	{idxPkg, "TagSet", "BinaryReadFrom", idxPkg, "Error", false, false},
	{idxPkg, "TagSetTable", "BinaryWriteTo", idxPkg, "Error", false, false},
	{idxPkg, "TagSetTable", "BinaryReadFrom", idxPkg, "Error", false, false},
	{idxPkg, "TagSetIndex", "BinaryWriteTo", idxPkg, "Error", false, false},
	{idxPkg, "TagSetIndex", "BinaryReadFrom", idxPkg, "Error", false, false},
	{idxPkg, "TagSetIDCollection", "BinaryWriteTo", idxPkg, "Error", false, false},
	{idxPkg, "TagSetIDCollection", "BinaryReadFrom", idxPkg, "Error", false, false},
	{idxPkg, "VariantsTable", "BinaryWriteTo", idxPkg, "Error", false, false},
	{idxPkg, "VariantsTable", "BinaryReadFrom", idxPkg, "Error", false, false},
	{idxPkg, "VariantsIndex", "BinaryWriteTo", idxPkg, "Error", false, false},
	{idxPkg, "VariantsIndex", "BinaryReadFrom", idxPkg, "Error", false, false},
	{idxPkg, "Index", "BinaryWriteTo", idxPkg, "Error", false, false},
	{idxPkg, "Index", "BinaryReadFrom", idxPkg, "Error", false, false},
	{idxPkg, "TagSet", "ReadFrom", idxPkg, "Error", true, false},
}

// failedOps: stream operations the facts show to have failed.
func failedOps(f *Facts, evs []*Event) (r []*Event) {
	for _, e := range evs {
		if e.kind == "io" && isErrNil(f, errOf(e)) == 0 {
			r = append(r, e)
		}
	}
	return
}

func propErrKinds(R *Report) {
	R.P.initCaps()
	capEnabled = true
	for _, k := range errKinds {
		k := k
		h := R.harness("kind-of-error", k.typ+"."+k.method)
		h.noChk = true
		h.run(func() {
			T := h.mustType(k.pkg, k.typ)
			fn := h.mustMethod(k.pkg, k.typ, k.method)
			if !isSentinel(h.P, k.varPkg, k.varName) {
				h.fail(k.varName+" is not an error made once by the package", fn.Pos())
			}
			st := h.start()
			recv := h.ptr("object", T)
			hook := &codecHook{h: h, root: T}
			h.e.hook = hook.call
			var args []*Term
			for i := 1; i < len(fn.Params); i++ {
				a := param("stream", fn.Params[i].Type())
				if !isSlice(a.typ) {
					st.assume(tEq(a, tNil()), false)
				}
				args = append(args, a)
			}
			xs, _ := returns(h.meth(st, T, recv, k.method, args...))
			for _, x := range xs {
				h.paths++
				e := x.res[len(x.res)-1]
				switch isErrNil(x.st.facts, e) {
				case 1:
					continue
				case -1:
					x.st = x.st.clone()
					x.st.assume(tEq(e, tNil()), false)
					if x.st.facts.bad {
						continue
					}
				}
				ops := failedOps(x.st.facts, eventsSince(x.st.ev, nil))
				ok := wrapsVar(e, h.P.modPath+"/"+k.varPkg, k.varName)
				if len(ops) > 0 && (k.cause || k.either) {
					has := false
					for _, o := range ops {
						for _, w := range wrapped(e) {
							has = has || w == errOf(o)
						}
					}
					ok = has || k.either && ok
				}
				if !ok && !h.ownKind(e, k) && !h.contra(x.st.facts) {
					what := k.varName
					if len(ops) > 0 && k.cause {
						what = "the error of the stream"
					}
					h.fail("an error returned does not wrap "+what+pathNote(x), x.pos)
				}
			}
		})
	}
	R.floor("kind-of-error", len(errKinds))
	for _, s := range sentinels {
		s := s
		h := R.harness("package-error", s.pkg+"."+s.name)
		h.run(func() {
			h.paths++
			g, v := sentinelInit(h.P, s.pkg, s.name)
			if g == nil || v == nil {
				h.fail(s.name+" is not an error made once by the package", token.NoPos)
				return
			}
			e := initError(v, 0)
			if e == nil {
				h.fail(s.name+" is not an error of its own", g.Pos())
				return
			}
			if s.wraps == "" {
				return
			}
			for _, w := range e {
				if w.Name() == s.wraps && w.Pkg == g.Pkg {
					return
				}
			}
			h.fail(s.name+" does not wrap "+s.wraps, g.Pos())
		})
	}
}

// sentinels: errors callers compare with, and the error of the package they wrap.
var sentinels = []struct{ pkg, name, wraps string }{
	{"pkg/storage", "Error", ""},
	{"pkg/storage", "ErrSet8", "Error"},
	{"pkg/storage", "ErrSet16", "Error"},
	{"pkg/dag", "Error", ""},
	{"pkg/dag", "ErrIndex", ""},
	{"pkg/common", "ErrMarshal", ""},
	{"pkg/common", "ErrUnmarshal", ""},
	{"internal/index", "Error", ""},
}

// sentinelInit: the package variable and the one value it is given.
func sentinelInit(P *Program, pkg, name string) (*ssa.Global, ssa.Value) {
	if !isSentinel(P, pkg, name) {
		return nil, nil
	}
	g := P.pkg(pkg).Members[name].(*ssa.Global)
	for fn := range P.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					return g, s.Val
				}
			}
		}
	}
	return g, nil
}

// initError: the package errors which an error made at initialisation wraps;
// nil when it is not made by errors.New or fmt.Errorf.
func initError(v ssa.Value, depth int) []*ssa.Global {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return initError(v.X, depth)
	case *ssa.ChangeInterface:
		return initError(v.X, depth)
	}
	c, ok := v.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || depth > 3 {
		return nil
	}
	r := []*ssa.Global{}
	switch fn := c.Call.StaticCallee(); fnName(fn) {
	case "errors.New":
		return r
	case "fmt.Errorf":
		k, ok := c.Call.Args[0].(*ssa.Const)
		if !ok || k.Value == nil {
			return nil
		}
		vs := verbs(constant.StringVal(k.Value))
		sl, ok := c.Call.Args[1].(*ssa.Slice)
		if !ok {
			return r
		}
		for _, ref := range *sl.X.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			i, ok := ia.Index.(*ssa.Const)
			if !ok || int(i.Int64()) >= len(vs) || vs[i.Int64()] != 'w' {
				continue
			}
			for _, ref := range *ia.Referrers() {
				st, ok := ref.(*ssa.Store)
				if !ok {
					continue
				}
				x := st.Val
				for {
					if m, ok := x.(*ssa.ChangeInterface); ok {
						x = m.X
					} else if m, ok := x.(*ssa.MakeInterface); ok {
						x = m.X
					} else {
						break
					}
				}
				if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
					if g, ok := u.X.(*ssa.Global); ok {
						r = append(r, g)
					}
				} else if n := initError(x, depth+1); n != nil {
					r = append(r, n...)
				}
			}
		}
		return r
	default:
		// a helper of the package: what it returns
		for _, b := range fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				return initError(ret.Results[0], depth+1)
			}
		}
	}
	return nil
}

// ownKind: the error comes from a nested reader or writer of the same kind,
// which has its own obligation.
func (h *H) ownKind(e *Term, k errKind) bool {
	for _, w := range wrapped(e) {
		ci, ok := w.obj.(*callInfo)
		if w.op != OCall || !ok {
			continue
		}
		for _, o := range errKinds {
			if o.varPkg == k.varPkg && o.varName == k.varName && !o.cause && strings.HasSuffix(ci.name, "."+o.typ+")."+o.method) {
				return true
			}
		}
	}
	return false
}

// isSentinel: a package variable of type error assigned once, at initialisation.
func isSentinel(P *Program, pkg, name string) bool {
	p := P.pkg(pkg)
	if p == nil {
		return false
	}
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		return false
	}
	n := 0
	for fn := range P.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					n++
					if fn.Name() != "init" {
						return false
					}
				}
			}
		}
	}
	return n == 1
}

// ---- C18: paths ----

// canonPath rewrites terms over path functions into one form.
func canonPath(f *Facts, t *Term) *Term {
	t = renorm(f, t)
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		if r.op == OPure {
			switch r.s {
			case "path.Join", "path/filepath.Join":
				var els []*Term
				for _, a := range joinArgs(f, r) {
					a = rec(a)
					if a.op == OPure && a.s == "join" {
						els = append(els, a.args...)
					} else {
						els = append(els, a)
					}
				}
				r = mk(OPure, types.Typ[types.String], false, 0, "join", nil, nil, nil, els...)
			case "path/filepath.Ext", "path.Ext":
				x := r.args[0]
				if x.op == OPure && (x.s == "path/filepath.Split" || x.s == "path.Split") && x.k == 1 {
					x = x.args[0] // the extension of a path is that of its last element
				}
				r = mk(OPure, types.Typ[types.String], false, 0, "ext", nil, nil, nil, x)
			case "path.Split":
				r = mk(OPure, r.typ, false, r.k, "path/filepath.Split", nil, nil, nil, r.args...)
			case "strings.TrimSuffix":
				b, e := r.args[0], r.args[1]
				if e == rec(mk(OPure, types.Typ[types.String], false, 0, "path/filepath.Ext", nil, nil, nil, b)) {
					r = subStr(b, tInt(0), tAdd(tLen(b), tScale(tLen(e), -1)))
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// joinArgs: the elements given to a variadic function.
func joinArgs(f *Facts, t *Term) []*Term {
	if len(t.args) == 1 && t.args[0].op == OSeqVal {
		s := t.args[0].args[0]
		if n := renorm(f, tLen(s)); n.op == OInt && n.k < 16 {
			var r []*Term
			m := t.args[0].mem
			for b := s; b.op == OAppend || b.op == OAppendSl; b = b.args[0] {
				if b.mem.id > m.id {
					m = b.mem
				}
			}
			et := elemType(s.typ)
			if et == nil {
				et = types.Typ[types.String]
			}
			for i := int64(0); i < n.k; i++ {
				r = append(r, renorm(f, load(f, m, tIndexAddr(s, tInt(i), types.NewPointer(et)), et)))
			}
			return r
		}
	}
	return t.args
}

// subStr: the part x[lo:hi] of a string.
func subStr(x, lo, hi *Term) *Term {
	if lo == tInt(0) && hi == tLen(x) {
		return x
	}
	return mk(OSlice, types.Typ[types.String], false, 0, "", nil, nil, nil, x, lo, hi)
}

func pure(name string, k int64, args ...*Term) *Term {
	return mk(OPure, types.Typ[types.String], false, k, name, nil, nil, nil, args...)
}

func propPaths(R *Report) {
	R.P.initCaps()
	loaderFolder(R)
	const common = "pkg/common"
	same := func(h *H, x Exit, what string, got, want *Term) {
		h.must(x, what, []*Term{got}, func(f *Facts) bool {
			a, b := canonPath(f, got), canonPath(f, want)
			return a == b || f.eval(tEq(a, b)) == 1
		})
	}
	dataPath := func(h *H) *Term {
		xs := h.noPanic(h.call(h.start(), h.mustFn(common, "GetDataPath")), "GetDataPath")
		if len(xs) != 1 || xs[0].res[0].op != OStr || xs[0].res[0].s == "" {
			panic(abortErr{"GetDataPath is not one constant"})
		}
		return xs[0].res[0]
	}
	h := R.harness("data-path", "DomainDataPath")
	h.run(func() {
		d := param("domain", types.Typ[types.String])
		root := dataPath(h)
		for _, x := range h.noPanic(h.call(h.start(), h.mustFn(common, "DomainDataPath"), d), "DomainDataPath") {
			same(h, x, "the data path of a domain is not the folder of that name in the data path", x.res[0], pure("join", 0, root, d))
		}
	})
	h = R.harness("data-path", "DomainFilePath")
	h.run(func() {
		d, n := param("domain", types.Typ[types.String]), param("file", types.Typ[types.String])
		root := dataPath(h)
		for _, x := range h.noPanic(h.call(h.start(), h.mustFn(common, "DomainFilePath"), d, n), "DomainFilePath") {
			same(h, x, "the path of a domain file is not the file of that name in the folder of the domain", x.res[0], pure("join", 0, root, d, n))
		}
	})
	h = R.harness("data-path", "MakeDomainDataPath")
	h.run(func() {
		d := param("domain", types.Typ[types.String])
		want := pure("join", 0, dataPath(h), d)
		xs, _ := returns(h.call(h.start(), h.mustFn(common, "MakeDomainDataPath"), d))
		for _, x := range xs {
			h.paths++
			abs, mk := (*Event)(nil), (*Event)(nil)
			for _, e := range eventsSince(x.st.ev, nil) {
				switch e.name {
				case "path/filepath.Abs":
					abs = e
				case "os.MkdirAll":
					mk = e
				}
			}
			err := x.res[0]
			if abs != nil && isErrNil(x.st.facts, errOf(abs)) != 1 || mk != nil && isErrNil(x.st.facts, errOf(mk)) != 1 {
				// unless the failure is excluded on this path it has to be reported
				for _, e := range []*Event{abs, mk} {
					if e == nil || err == errOf(e) || isErrNil(x.st.facts, err) == 0 {
						continue
					}
					if isErrNil(x.st.facts, errOf(e)) != 1 && !h.contra(x.st.facts) {
						h.fail("a failure of "+e.name+" is not reported"+pathNote(x), x.pos)
					}
				}
			} else if isErrNil(x.st.facts, err) != 1 && !h.contra(x.st.facts) {
				h.fail("reports an error although nothing failed"+pathNote(x), x.pos)
			}
			if isErrNil(x.st.facts, err) == 0 {
				continue
			}
			if mk == nil {
				h.fail("returns without making the folder"+pathNote(x), x.pos)
				continue
			}
			y := x
			p := mk.args[0]
			if m := renorm(y.st.facts, mk.args[1]); m.op == OInt && m.k&0o700 != 0o700 && !h.contra(y.st.facts) {
				h.fail("the folder made cannot be used by its owner"+pathNote(y), y.pos)
			}
			h.must(y, "another folder than the data path of the domain is made", []*Term{p}, func(f *Facts) bool {
				c := canonPath(f, p)
				if c.op == OPure && c.s == "path/filepath.Abs" && c.k == 0 {
					c = c.args[0]
				}
				return c == want
			})
		}
	})
	h = R.harness("resolve-path", "ResolveFilePath")
	h.run(func() {
		fn := h.mustFn("pkg/dag", "ResolveFilePath")
		st := h.start()
		p := param("path", types.Typ[types.String])
		for _, x := range h.noPanic(h.call(st, fn, p), "ResolveFilePath") {
			var abs, stat, name *Event
			for _, e := range eventsSince(x.st.ev, nil) {
				switch e.name {
				case "path/filepath.Abs":
					abs = e
				case "os.Stat":
					stat = e
				case "(io/fs.FileInfo).Name":
					name = e
				}
			}
			f := x.st.facts
			if abs == nil || abs.args[0] != p {
				h.fail("the path given is not made absolute"+pathNote(x), x.pos)
				continue
			}
			err := x.res[3]
			if isErrNil(f, err) != 1 && !wrapsVar(err, h.P.modPath+"/pkg/dag", "ErrIndex") && !h.contra(f) {
				h.fail("an error returned does not wrap ErrIndex"+pathNote(x), x.pos)
			}
			if isErrNil(f, errOf(abs)) == 0 {
				h.paths++
				for i := 0; i < 3; i++ {
					same(h, x, "parts of an unresolved path are returned", x.res[i], tStr(""))
				}
				if isErrNil(f, err) != 0 {
					h.fail("an unresolved path is not reported"+pathNote(x), x.pos)
				}
				continue
			}
			a := abs.res[0]
			base, ext := pure("path/filepath.Split", 1, a), pure("path/filepath.Ext", 0, a)
			same(h, x, "the folder returned is not that of the absolute path", x.res[0], pure("path/filepath.Split", 0, a))
			same(h, x, "the extension returned is not that of the path", x.res[2], ext)
			cb, ce := canonPath(f, base), canonPath(f, ext)
			same(h, x, "the name returned is not the last element of the path without its extension", x.res[1], subStr(cb, tInt(0), tAdd(tLen(cb), tScale(tLen(ce), -1))))
			h.paths++
			if stat == nil || canonPath(f, stat.args[0]) != canonPath(f, a) {
				h.fail("the file is not looked for at the absolute path"+pathNote(x), x.pos)
				continue
			}
			good := isErrNil(f, errOf(stat)) == 1 && name != nil && name.args[0] == stat.res[0] && f.eval(tEq(canonPath(f, name.res[0]), cb)) == 1
			badStat := isErrNil(f, errOf(stat)) == 0 || name != nil && f.eval(tEq(canonPath(f, name.res[0]), cb)) == 0
			switch isErrNil(f, err) {
			case 1:
				if !good && !h.contra(f) {
					h.fail("a path without a file of that name is accepted"+pathNote(x), x.pos)
				}
			case 0:
				if !badStat && !h.contra(f) {
					h.fail("the path of an existing file is refused"+pathNote(x), x.pos)
				}
			default:
				h.fail("success or failure is not decided"+pathNote(x), x.pos)
			}
		}
	})
}

// ---- printed forms ----

func propPrint(R *Report) {
	const dag = "pkg/dag"
	h := R.harness("printed-form", "TagName.String")
	h.run(func() {
		n := param("name", h.mustType(dag, "TagName"))
		for _, x := range h.noPanic(h.value(h.start(), dag, "TagName", "String", n), "String") {
			h.must(x, "a tag name does not print as itself", []*Term{x.res[0]}, func(f *Facts) bool { return sameText(f, x.res[0], n) })
		}
	})
	h = R.harness("printed-form", "Tag.String")
	h.run(func() {
		T := h.mustType(dag, "Tag")
		st := h.start()
		t := param("tag", T)
		u := T.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() != "Name" {
				continue
			}
			n := h.e.field(st, t, i, u.Field(i).Type())
			for _, x := range h.noPanic(h.value(st, dag, "Tag", "String", t), "String") {
				h.must(x, "a tag does not print as its name", []*Term{x.res[0]}, func(f *Facts) bool { return sameText(f, x.res[0], n) })
			}
		}
	})
}

func sameText(f *Facts, a, b *Term) bool {
	strip := func(t *Term) *Term {
		t = renorm(f, t)
		for t.op == OConv && isStringTerm(t.args[0]) {
			t = t.args[0]
		}
		return t
	}
	x, y := strip(a), strip(b)
	return x == y || f.eval(tEq(x, y)) == 1
}

func init() {
	register("C17", propErrKinds)
	register("C18", propPaths)
}
