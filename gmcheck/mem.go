package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Memory is a persistent list of effects; a load is resolved by walking it
// from the newest effect back, skipping effects that provably cannot touch the
// address (type, field, freshness and index disjointness).

type memKind uint8

const (
	MInit memKind = iota
	MStore
	MMapSet
	MMapDel
	MSort      // elements of slice addr are permuted into ascending order
	MElems     // elements of slice addr get unknown values (copy, Read, ...)
	MCopy      // copy(addr, val): elements of addr := elements of val (prefix)
	MLoop      // completed iterations of a loop
	MHavocType // everything of pointee type
	MHavocAll
)

type Mem struct {
	id   int
	prev *Mem
	kind memKind
	addr *Term // store address | map | slice
	key  *Term
	val  *Term
	typ  types.Type
	loop *loopMem
	nfac *Facts
}

type loopMem struct {
	it     *Term
	hi     *Term
	writes []loopWrite
	depth  int
}

type loopWrite struct {
	kind memKind
	addr *Term
	key  *Term
	val  *Term // nil if unknown
	must bool
	cond *Term // condition on the iteration under which it writes, if not must
	typ  types.Type
	// fuzzy: the address varies in a way the iteration symbol does not
	// capture (inner loops, addresses read from memory written in the loop)
	fuzzy bool
	// nonNil: every value put into the map is non-nil
	nonNil bool
	// ownVal: every value put into the map is an object made during analysis
	ownVal bool
	tries  int
}

var memSeq int

func newMem(prev *Mem, k memKind) *Mem {
	memSeq++
	return &Mem{id: memSeq, prev: prev, kind: k}
}

var memInit *Mem

func initMem() *Mem {
	if memInit == nil {
		memInit = &Mem{id: 0, kind: MInit}
	}
	return memInit
}

// pointee type of an address term.
func pointee(a *Term) types.Type {
	if a.typ == nil {
		return nil
	}
	if p, ok := a.typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func containsType(outer, inner types.Type, depth int) bool {
	if outer == nil || inner == nil {
		return true
	}
	if types.Identical(outer, inner) {
		return true
	}
	if depth > 6 {
		return true
	}
	switch u := outer.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if containsType(u.Field(i).Type(), inner, depth+1) {
				return true
			}
		}
	case *types.Array:
		return containsType(u.Elem(), inner, depth+1)
	}
	return false
}

type aliasRes int

const (
	aNo aliasRes = iota
	aMay
	aMust
)

// isFresh: term denotes an object created during this analysis.
func isFresh(t *Term) bool {
	switch t.op {
	case OAlloc, OMakeSlice, OMakeMap:
		return true
	}
	return false
}

func rootOf(a *Term) *Term {
	for {
		switch a.op {
		case OFieldAddr, OIndexAddr:
			a = a.args[0]
		case OSlice:
			a = a.args[0]
		default:
			return a
		}
	}
}

// freshRoots returns the fresh objects a slice/pointer value may be backed by,
// and whether it may also be backed by something else.
func backing(t *Term, out map[*Term]bool) (ext bool) {
	switch t.op {
	case OAlloc, OMakeSlice, OMakeMap:
		out[t] = true
		return false
	case OAppend, OAppendSl, OCollect:
		out[t] = true // the possibly reallocated array
		return backing(t.args[0], out)
	case OSlice, OFieldAddr, OIndexAddr:
		return backing(t.args[0], out)
	case ONil:
		return false
	case OConv:
		out[t] = true
		return false
	}
	return true
}

func rootsDisjoint(a, b *Term) bool {
	ra, rb := rootOf(a), rootOf(b)
	if ra == rb {
		return false
	}
	if ra.op == OGlobal && rb.op == OGlobal {
		return ra != rb
	}
	ma, mb := map[*Term]bool{}, map[*Term]bool{}
	ea := backing(ra, ma)
	eb := backing(rb, mb)
	if ea && eb {
		return false
	}
	if ra.op == OGlobal || rb.op == OGlobal {
		// a variable is never inside a fresh object
		return !(ea && eb)
	}
	if ea && len(mb) > 0 && opaqueMayBeFresh(ra) || eb && len(ma) > 0 && opaqueMayBeFresh(rb) {
		return false
	}
	for x := range ma {
		if mb[x] {
			return false
		}
		// two instances of one allocation site in different iterations
		for y := range mb {
			if x.op == y.op && x.s == y.s && x.s != "" && x != y && !otherIteration(x, y) {
				return false // may be the same if iteration vectors coincide
			}
		}
	}
	return true
}

// otherIteration: x and y are objects made at one place in iterations that are
// certainly different ones.
func otherIteration(x, y *Term) bool {
	a, b := x.args, y.args
	if x.op == OMakeSlice {
		a, b = a[1:], b[1:]
	}
	if (x.op != OMakeSlice && x.op != OAlloc && x.op != OMakeMap) || len(a) != len(b) {
		return false
	}
	for i := range a {
		if d := toLin(a[i]).sub(toLin(b[i])); d.isConst() && d.c != 0 {
			return true
		}
	}
	return false
}

// alias relates two addresses.
func alias(f *Facts, a, b *Term) aliasRes {
	if a == b {
		return aMust
	}
	ta, tb := pointee(a), pointee(b)
	if ta != nil && tb != nil {
		if !types.Identical(ta, tb) {
			if containsType(ta, tb, 0) {
				// b lies inside something of a's type: strip b
				if b.op == OFieldAddr || b.op == OIndexAddr {
					if o := stripOne(b); o != nil {
						return weaken(alias(f, a, o))
					}
				}
			} else if containsType(tb, ta, 0) {
				if a.op == OFieldAddr || a.op == OIndexAddr {
					if o := stripOne(a); o != nil {
						return weaken(alias(f, o, b))
					}
				}
			} else {
				return aNo
			}
			if rootsDisjoint(a, b) {
				return aNo
			}
			return aMay
		}
	}
	if a.op == OFieldAddr && b.op == OFieldAddr {
		sa, sb := pointee(a.args[0]), pointee(b.args[0])
		if sa != nil && sb != nil && types.Identical(sa, sb) {
			if a.k != b.k {
				return aNo
			}
			return alias(f, a.args[0], b.args[0])
		}
		if rootsDisjoint(a, b) {
			return aNo
		}
		if sa != nil && sb != nil {
			return aNo // fields of different struct types
		}
		return aMay
	}
	if a.op == OIndexAddr && b.op == OIndexAddr {
		if a.args[0] == b.args[0] {
			if f.proveEqInt(a.args[1], b.args[1]) {
				return aMust
			}
			if f.proveNeInt(a.args[1], b.args[1]) {
				return aNo
			}
			return aMay
		}
		if rootsDisjoint(a.args[0], b.args[0]) || appended(f, a, b.args[0]) || appended(f, b, a.args[0]) {
			return aNo
		}
		return aMay
	}
	if (a.op == OFieldAddr && b.op == OIndexAddr) || (a.op == OIndexAddr && b.op == OFieldAddr) {
		return aNo // same pointee type: a struct field is not a slice element
	}
	if rootsDisjoint(a, b) {
		return aNo
	}
	if a.op == OGlobal || b.op == OGlobal {
		// a variable of its own; only a pointer value may reach it
		o := a
		if a.op == OGlobal {
			o = b
		}
		if o.op == OFieldAddr || o.op == OIndexAddr {
			return aNo
		}
	}
	return aMay
}

// appended: a is the place of an element added by append, which is not one of
// slice b, a value the code has not made of the one appended to.
func appended(f *Facts, a, b *Term) bool {
	base := a.args[0]
	for base.op == OAppend {
		base = base.args[0]
	}
	if base == a.args[0] || b.op != OLoad && b.op != OParam || termContains(b, a.args[0]) {
		return false
	}
	return base.typ != nil && isSlice(base.typ) && f.proveLe(tLen(base), a.args[1])
}

func weaken(r aliasRes) aliasRes {
	return r
}

// stripOne: the enclosing object's address, nil when it has none (elements of
// a slice lie in an array without a name).
func stripOne(a *Term) *Term {
	if a.op == OFieldAddr {
		return a.args[0]
	}
	if p := pointee(a.args[0]); p != nil {
		if _, ok := p.Underlying().(*types.Array); ok {
			return a.args[0]
		}
	}
	return nil
}

// load resolves *addr in mem m.
func load(f *Facts, m *Mem, addr *Term, typ types.Type) *Term {
	if in := innerIndex(addr); in.op == OIndexAddr {
		if v := loadElem(f, m, in, addr, typ); v != nil {
			return v
		}
	}
	for ; m != nil; m = m.prev {
		switch m.kind {
		case MInit:
			return initialLoad(f, addr, typ)
		case MStore:
			if v, done, skip := throughStore(f, m.addr, m.val, addr, typ); done {
				return v
			} else if !skip {
				if path, ok := fieldPath(m.addr, addr, f); ok && len(path) == 1 && m.addr != addr {
					// a field of the struct read was stored
					return tStructWith(load(f, m.prev, addr, typ), path[0].i, m.val)
				}
				return loadPartial(f, m, addr, typ)
			}
		case MMapSet, MMapDel:
			continue
		case MSort, MElems, MCopy:
			if addr.op == OIndexAddr || strictlyInsideElem(addr) {
				if elemMayAlias(f, m.addr, addr) && !appendSpares(f, m, addr) {
					if m.kind == MCopy {
						if v, skip := throughCopy(f, m, addr, typ); v != nil {
							return v
						} else if skip {
							continue
						}
					}
					return loadPartial(f, m, addr, typ)
				}
			}
		case MHavocType:
			if containsType(m.typ, typ, 0) || containsType(typ, m.typ, 0) {
				if !isLocalNonEscaping(addr) {
					return loadPartial(f, m, addr, typ)
				}
			}
		case MHavocAll:
			if !isLocalNonEscaping(addr) {
				return loadPartial(f, m, addr, typ)
			}
		case MLoop:
			v, res := throughLoop(f, m, addr, typ)
			if res == aMust {
				return v
			}
			if res == aMay {
				return loadPartial(f, m, addr, typ)
			}
		}
	}
	return mk(OLoad, typ, false, 0, "", nil, initMem(), nil, addr)
}

// throughCopy: effect of copy(m.addr, m.val) on an element of m.addr: below
// the number of elements copied it is the source's, above it is untouched.
func throughCopy(f *Facts, m *Mem, addr *Term, typ types.Type) (v *Term, skip bool) {
	in := innerIndex(addr)
	if in.op != OIndexAddr || m.prev == nil {
		return nil, false
	}
	i := in.args[1]
	if m.addr.op == OSlice && in.args[0] == m.addr.args[0] {
		if f.proveLt(i, m.addr.args[1]) || f.proveLe(m.addr.args[2], i) {
			return nil, true
		}
		i = tSub(i, m.addr.args[1])
	} else if in.args[0] != m.addr {
		return nil, false
	}
	if !f.proveLe(tInt(0), i) {
		return nil, false
	}
	if f.proveLt(i, tLen(m.val)) && f.proveLt(i, tLen(m.addr)) {
		if isStringTerm(m.val) {
			return tIndexVal(m.val, i), false
		}
		var at func(a *Term) *Term
		at = func(a *Term) *Term {
			if a == in {
				return tIndexAddr(m.val, i, in.typ)
			}
			return tFieldAddr(at(a.args[0]), int(a.k), a.typ)
		}
		return load(f, m.prev, at(addr), typ), false
	}
	return nil, f.proveLe(tLen(m.val), i)
}

func isLocalNonEscaping(a *Term) bool {
	r := rootOf(a)
	return r.op == OAlloc
}

func strictlyInsideElem(a *Term) bool {
	for a.op == OFieldAddr {
		a = a.args[0]
	}
	return a.op == OIndexAddr
}

func innerIndex(a *Term) *Term {
	for a.op == OFieldAddr {
		a = a.args[0]
	}
	return a
}

func elemMayAlias(f *Facts, slice, addr *Term) bool {
	a := innerIndex(addr)
	et := elemType(slice.typ)
	if et == nil || !(containsType(et, pointee(addr), 0)) {
		if et != nil && pointee(addr) != nil {
			return false
		}
	}
	if a.op != OIndexAddr {
		return !isLocalNonEscaping(addr)
	}
	if a.args[0] == slice {
		return true
	}
	if at := elemType(a.args[0].typ); at != nil && et != nil && !types.Identical(at, et) && !hasArray(at, 0) && !hasArray(et, 0) {
		return false // elements of different types are never in one array
	}
	return !rootsDisjoint(a.args[0], slice)
}

// hasArray: values of the type contain an array, of which slices can be made.
func hasArray(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasArray(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// appendSpares: n records what an append may overwrite behind a slice; the
// slice appended to, the result, and what lies before the end of the former are
// not touched by it.
func appendSpares(f *Facts, n *Mem, addr *Term) bool {
	if n.kind != MElems || n.key == nil {
		return false
	}
	a := innerIndex(addr)
	if a.op != OIndexAddr {
		return false
	}
	x, base := a.args[0], n.key
	switch {
	case x == base || x == n.val:
		return true
	case x != n.addr:
		return false
	case base.op == OSlice:
		return base.args[0] == x && base.args[1] == tInt(0) && f.proveLt(a.args[1], base.args[2])
	}
	return f.proveLt(a.args[1], tLen(base))
}

func loadPartial(f *Facts, m *Mem, addr *Term, typ types.Type) *Term {
	dbgNode(m, addr)
	return mk(OLoad, typ, false, 0, "", nil, m, nil, addr)
}

func initialLoad(f *Facts, addr *Term, typ types.Type) *Term {
	r := addr
	for r.op == OFieldAddr || r.op == OIndexAddr {
		if r.op == OIndexAddr {
			base := r.args[0]
			switch base.op {
			case OMakeSlice:
				return tZero(typ)
			case OAlloc:
				r = base
				continue
			}
			return mk(OLoad, typ, false, 0, "", nil, initMem(), nil, addr)
		}
		r = r.args[0]
	}
	if r.op == OAlloc {
		return tZero(typ)
	}
	if r.op == OGlobal {
		if g, ok := r.obj.(*ssa.Global); ok {
			if v, ok := globalConst[g]; ok && addr == r {
				return v
			}
			if addr.op == OFieldAddr && addr.args[0] == r {
				if v, ok := globalField[globalPart{g, int(addr.k)}]; ok {
					return v
				}
			}
		}
	}
	return mk(OLoad, typ, false, 0, "", nil, initMem(), nil, addr)
}

type globalPart struct {
	g     *ssa.Global
	field int
}

var globalField = map[globalPart]*Term{}

var globalConst = map[*ssa.Global]*Term{}

// throughStore: effect of "*sa = val" on reading addr.
func throughStore(f *Facts, sa, val, addr *Term, typ types.Type) (v *Term, done, skip bool) {
	// an element of an array stored as a whole
	if val.op == OLoad && val.mem != nil && sa != addr {
		if t := pointee(sa); t != nil {
			if _, ok := t.Underlying().(*types.Array); ok && inArray(addr, sa) {
				return load(f, val.mem, subst(addr, sa, val.args[0]), typ), true, false
			}
		}
	}
	// exact
	switch r := alias(f, sa, addr); r {
	case aNo:
		return nil, false, true
	case aMust:
		ts, ta := pointee(sa), pointee(addr)
		if ts == nil || ta == nil || types.Identical(ts, ta) {
			return val, true, false
		}
		// addr inside the stored struct
		if path, ok := fieldPath(addr, sa, f); ok {
			v := val
			for _, st := range path {
				if v.op == OLoad && v.mem != nil {
					v = load(f, v.mem, tFieldAddr(v.args[0], st.i, types.NewPointer(st.typ)), st.typ)
				} else {
					v = tField(v, st.i, st.typ)
				}
			}
			return v, true, false
		}
		// stored a field of the struct being read
		if path, ok := fieldPath(sa, addr, f); ok && len(path) == 1 {
			return nil, false, false
		}
		return nil, false, false
	}
	return nil, false, false
}

// inArray: addr is an element of the array at arr, or within one.
func inArray(addr, arr *Term) bool {
	for addr.op == OFieldAddr || addr.op == OIndexAddr {
		if addr.op == OIndexAddr && addr.args[0] == arr {
			return !termContains(addr.args[1], arr)
		}
		addr = addr.args[0]
	}
	return false
}

type fstep struct {
	i   int
	typ types.Type
}

// fieldPath: addr = outer.&f1.&f2...
func fieldPath(addr, outer *Term, f *Facts) ([]fstep, bool) {
	var rev []fstep
	for a := addr; ; a = a.args[0] {
		if a == outer || (a.op == OIndexAddr && outer.op == OIndexAddr && alias(f, a, outer) == aMust) {
			var r []fstep
			for i := len(rev) - 1; i >= 0; i-- {
				r = append(r, rev[i])
			}
			return r, true
		}
		if a.op != OFieldAddr {
			return nil, false
		}
		rev = append(rev, fstep{int(a.k), pointee(a)})
	}
}

// loadStruct reads a struct value; field stores after a base value are folded.
func loadStruct(f *Facts, m *Mem, addr *Term, typ types.Type) *Term {
	return load(f, m, addr, typ)
}

// loadElem resolves element idx of a slice *value* whose contents are known by
// construction, provided no later effect may have changed the element.
func loadElem(f *Facts, m *Mem, in, addr *Term, typ types.Type) *Term {
	base, idx := in.args[0], in.args[1]
	switch base.op {
	case OAppend, OAppendSl, OCollect, OConv, OSlice:
	default:
		return nil
	}
	// the same place inside element i of slice b
	var at func(a, elem *Term) *Term
	at = func(a, elem *Term) *Term {
		if a == in {
			return elem
		}
		return tFieldAddr(at(a.args[0], elem), int(a.k), a.typ)
	}
	place := func(b, i *Term) *Term { return at(addr, tIndexAddr(b, i, in.typ)) }
	// the same place inside a value
	inside := func(v *Term) *Term {
		path, _ := fieldPath(addr, in, f)
		for _, st := range path {
			if v.op == OLoad && v.mem != nil {
				v = load(f, v.mem, tFieldAddr(v.args[0], st.i, types.NewPointer(st.typ)), st.typ)
			} else {
				v = tField(v, st.i, st.typ)
			}
		}
		return v
	}
	// any element store that may hit?
	birth := base.mem
	for n := m; n != nil && n != birth; n = n.prev {
		switch n.kind {
		case MStore:
			switch r := alias(f, n.addr, addr); r {
			case aMust:
				if v, done, _ := throughStore(f, n.addr, n.val, addr, typ); done {
					return v
				}
				return nil
			case aMay:
				return loadPartial(f, n, addr, typ)
			}
		case MSort, MElems, MCopy:
			if elemMayAlias(f, n.addr, addr) && !appendSpares(f, n, addr) {
				if n.kind == MCopy {
					if v, skip := throughCopy(f, n, addr, typ); v != nil {
						return v
					} else if skip {
						continue
					}
				}
				return loadPartial(f, n, addr, typ)
			}
		case MLoop:
			v, res := throughLoop(f, n, addr, typ)
			if res == aMust {
				return v
			}
			if res == aMay {
				return loadPartial(f, n, addr, typ)
			}
		case MHavocType:
			if containsType(n.typ, typ, 0) || containsType(typ, n.typ, 0) {
				return loadPartial(f, n, addr, typ)
			}
		case MHavocAll:
			return loadPartial(f, n, addr, typ)
		}
	}
	switch base.op {
	case OAppend:
		n := tLen(base.args[0])
		for i := 1; i < len(base.args); i++ {
			if f.proveEqInt(idx, tAddK(n, int64(i-1))) {
				return inside(base.args[i])
			}
		}
		if f.proveLt(idx, n) {
			return load(f, birth, place(base.args[0], idx), typ)
		}
	case OAppendSl:
		n := tLen(base.args[0])
		if f.proveLt(idx, n) {
			return load(f, birth, place(base.args[0], idx), typ)
		}
		if f.proveLe(n, idx) {
			if base.args[1].op == OStr || isStringTerm(base.args[1]) {
				return tIndexVal(base.args[1], tSub(idx, n))
			}
			return load(f, birth, place(base.args[1], tSub(idx, n)), typ)
		}
	case OCollect:
		n := tLen(base.args[0])
		if f.proveLt(idx, n) {
			return load(f, birth, place(base.args[0], idx), typ)
		}
		if f.proveLe(n, idx) && base.k == 1 && len(base.args) > 3 {
			j := tSub(idx, n)
			return inside(subst(base.args[3], base.args[2], j))
		}
	case OConv:
		if base.s == "bytes" {
			return tIndexVal(base.args[0], idx)
		}
	}
	return mk(OLoad, typ, false, 0, "", nil, initMem(), nil, addr)
}

func isStringTerm(t *Term) bool {
	if t.op == OStr {
		return true
	}
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// tIndexVal: element of a string / array value.
func tIndexVal(x, i *Term) *Term {
	if x.op == OStr && i.op == OInt && i.k >= 0 && i.k < int64(len(x.s)) {
		return tInt(int64(x.s[i.k]))
	}
	if x.op == OZero {
		if a, ok := x.typ.Underlying().(*types.Array); ok {
			return tZero(a.Elem())
		}
	}
	return mk(OIndex, elemType(x.typ), false, 0, "", nil, nil, nil, x, i)
}

// throughLoop: effect of completed loop iterations on reading addr.
func throughLoop(f *Facts, m *Mem, addr *Term, typ types.Type) (*Term, aliasRes) {
	lm := m.loop
	for i := len(lm.writes) - 1; i >= 0; i-- {
		w := &lm.writes[i]
		switch w.kind {
		case MStore:
			tw := pointee(w.addr)
			if tw != nil && !containsType(tw, typ, 0) && !containsType(typ, tw, 0) {
				continue
			}
			if w.fuzzy {
				if fuzzyMayAlias(f, w.addr, addr) {
					return nil, aMay
				}
				continue
			}
			r, j := unify(f, w.addr, addr, lm.it)
			if r == aNo {
				continue
			}
			if r == aMust && j == nil {
				// address does not depend on the iteration (should be a cell)
				return nil, aMay
			}
			if r == aMust {
				if f.proveLe(tInt(0), j) && f.proveLt(j, lm.hi) {
					if w.must && w.val != nil && types.Identical(tw, typ) {
						return subst(w.val, lm.it, j), aMust
					}
					if w.must && w.val != nil {
						pa := subst(w.addr, lm.it, j)
						v, done, _ := throughStore(f, pa, subst(w.val, lm.it, j), addr, typ)
						if done {
							return v, aMust
						}
					}
					if w.cond != nil && w.val != nil {
						c := subst(w.cond, lm.it, j)
						cv := f.eval(c)
						if cv == 0 {
							continue
						}
						var v *Term
						if types.Identical(tw, typ) {
							v = subst(w.val, lm.it, j)
						} else if x, done, _ := throughStore(f, subst(w.addr, lm.it, j), subst(w.val, lm.it, j), addr, typ); done {
							v = x
						}
						if v != nil && cv == 1 {
							return v, aMust
						}
						if v != nil {
							// otherwise what the other writes and the memory before left
							old := &Mem{id: m.id, prev: m.prev, kind: MLoop, loop: &loopMem{}}
							*old.loop = *lm
							old.loop.writes = lm.writes[:i:i]
							w, res := throughLoop(f, old, addr, typ)
							switch res {
							case aNo:
								return tIte(c, v, load(f, m.prev, addr, typ)), aMust
							case aMust:
								return tIte(c, v, w), aMust
							}
						}
					}
					return nil, aMay
				}
				if f.proveLt(j, tInt(0)) || f.proveLe(lm.hi, j) {
					continue
				}
				return nil, aMay
			}
			return nil, aMay
		case MSort, MElems, MCopy:
			if strictlyInsideElem(addr) && elemMayAlias(f, w.addr, addr) {
				return nil, aMay
			}
		case MHavocType:
			if containsType(w.typ, typ, 0) || containsType(typ, w.typ, 0) {
				if !isLocalNonEscaping(addr) {
					return nil, aMay
				}
			}
		case MHavocAll:
			if !isLocalNonEscaping(addr) {
				return nil, aMay
			}
		}
	}
	return nil, aNo
}

// unify relates a write pattern (depending on iteration symbol it) to an
// address: aNo for every iteration, aMust at exactly iteration j, or aMay.
func unify(f *Facts, pat, addr, it *Term) (aliasRes, *Term) {
	if !termContains(pat, it) {
		return alias(f, pat, addr), nil
	}
	// different depth: strip the deeper one by type
	tp, ta := pointee(pat), pointee(addr)
	if tp != nil && ta != nil && !types.Identical(tp, ta) {
		if containsType(tp, ta, 0) && addr.op == OFieldAddr {
			return unify(f, pat, addr.args[0], it)
		}
		if containsType(ta, tp, 0) && pat.op == OFieldAddr {
			r, _ := unify(f, pat.args[0], addr, it)
			if r == aNo {
				return aNo, nil
			}
			return aMay, nil
		}
		if !containsType(tp, ta, 0) && !containsType(ta, tp, 0) {
			return aNo, nil
		}
	}
	if pat.op == OFieldAddr && addr.op == OFieldAddr {
		sp, sa := pointee(pat.args[0]), pointee(addr.args[0])
		if sp != nil && sa != nil && !types.Identical(sp, sa) {
			return aNo, nil
		}
		if pat.k != addr.k {
			return aNo, nil
		}
		return unify(f, pat.args[0], addr.args[0], it)
	}
	if (pat.op == OFieldAddr && addr.op == OIndexAddr) || (pat.op == OIndexAddr && addr.op == OFieldAddr) {
		return aNo, nil
	}
	if pat.op == OIndexAddr && addr.op == OIndexAddr {
		if !termContains(pat.args[0], it) {
			if pat.args[0] != addr.args[0] {
				if rootsDisjoint(pat.args[0], addr.args[0]) {
					return aNo, nil
				}
				return aMay, nil
			}
			lp := toLin(pat.args[1])
			c := lp.coefOf(it)
			rest := lp.sub(Lin{at: []*Term{it}, co: []int64{c}})
			for _, a := range rest.at {
				if termContains(a, it) {
					return aMay, nil
				}
			}
			if c == 1 || c == -1 {
				return aMust, fromLin(toLin(addr.args[1]).sub(rest).scale(c))
			}
			return aMay, nil
		}
	}
	if pat.op == OAlloc && addr.op == OAlloc && pat.s == addr.s && len(pat.args) == len(addr.args) {
		// the same allocation site: the object of exactly one iteration
		var j *Term
		for i := range pat.args {
			if pat.args[i] == it {
				j = addr.args[i]
			} else if termContains(pat.args[i], it) || !f.proveEqInt(pat.args[i], addr.args[i]) {
				return aMay, nil
			}
		}
		if j != nil {
			return aMust, j
		}
	}
	if rootsDisjoint(pat, addr) {
		return aNo, nil
	}
	return aMay, nil
}

// fuzzyMayAlias relates addresses by type, field and origin only.
func fuzzyMayAlias(f *Facts, w, addr *Term) bool {
	tw, ta := pointee(w), pointee(addr)
	if tw != nil && ta != nil && types.Identical(tw, ta) {
		if w.op == OFieldAddr && addr.op == OFieldAddr {
			sp, sa := pointee(w.args[0]), pointee(addr.args[0])
			if w.k != addr.k || sp != nil && sa != nil && !types.Identical(sp, sa) {
				return false
			}
		}
		if (w.op == OFieldAddr) != (addr.op == OFieldAddr) && (w.op == OIndexAddr || addr.op == OIndexAddr) {
			return false
		}
	}
	return !rootsDisjoint(w, addr)
}

// ---- maps ----

func sameMapType(a, b *Term) bool {
	if a.typ == nil || b.typ == nil {
		return true
	}
	return types.Identical(a.typ.Underlying(), b.typ.Underlying())
}

func mapDisjoint(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == OMakeMap && b.op == OMakeMap {
		return a.s != b.s || !sameSiteMayCoincide(a, b)
	}
	if a.op == OMakeMap && !mayHoldFresh(b) || b.op == OMakeMap && !mayHoldFresh(a) {
		return true
	}
	return false
}

// opaqueMayBeFresh: might the opaque part of this value's origin denote an
// object created during the analysis?
func opaqueMayBeFresh(t *Term) bool {
	switch t.op {
	case OAppend, OAppendSl, OCollect, OSlice, OFieldAddr, OIndexAddr:
		return opaqueMayBeFresh(t.args[0])
	case OLoopVar:
		return true
	case OLoad, OMapGet:
		return t.mem != nil && t.mem.id > 0 || grownWithFresh(t.args[0])
	case OField:
		return opaqueMayBeFresh(t.args[0])
	}
	return false
}

// grownWithFresh: the address lies in a slice grown with values that may be
// objects made during analysis.
func grownWithFresh(addr *Term) bool {
	r := rootOf(addr)
	switch r.op {
	case OAppend, OAppendSl:
		for _, a := range r.args[1:] {
			if isFresh(a) || opaqueMayBeFresh(a) {
				return true
			}
			switch a.op {
			case OStructWith, OSlice, OIface, OZero:
				return true
			}
		}
		return grownWithFresh(r.args[0])
	case OCollect:
		return true
	case OLoad:
		return grownWithFresh(r.args[0])
	}
	return false
}

func sameSiteMayCoincide(a, b *Term) bool {
	if len(a.args) != len(b.args) {
		return true
	}
	for i := range a.args {
		if isFalse(tEqInt(a.args[i], b.args[i])) {
			return false
		}
	}
	return true
}

// mayHoldFresh: could this opaque value be an object made during analysis? A
// load from initial memory or a parameter cannot; a load from later memory or
// a map read after an insertion can.
func mayHoldFresh(t *Term) bool {
	switch t.op {
	case OLoad, OMapGet:
		return t.mem != nil && t.mem.id > 0 || grownWithFresh(t.args[0])
	case OParam, ONil:
		return false
	}
	return true
}

// mapLookup resolves m[k]; returns value term and presence term.
func mapLookup(f *Facts, mem *Mem, m, k *Term, vt types.Type) (val, has *Term) {
	if m.op == ONil {
		mem = initMem()
	}
	if vt == nil && m.typ != nil {
		if t, ok := m.typ.Underlying().(*types.Map); ok {
			vt = t.Elem()
		}
	}
	for n := mem; n != nil; n = n.prev {
		switch n.kind {
		case MInit:
			if m.op == OMakeMap || m.op == ONil {
				if vt == nil { // only presence is asked for
					return tInt(0), tFalse()
				}
				return tZero(vt), tFalse()
			}
			return mapLeaf(f, n, m, k, vt)
		case MMapSet, MMapDel:
			if !sameMapType(n.addr, m) || mapDisjoint(n.addr, m) {
				continue
			}
			which := 1
			if n.addr != m {
				which = f.eval(tEq(n.addr, m))
				if which < 0 && n.addr.op == OMapGet {
					// the map written to may be known by a simpler name by now
					if a := renorm(f, n.addr); a == m {
						which = 1
					} else if a != n.addr {
						which = f.eval(tEq(a, m))
					}
				}
			}
			if which == 0 || which < 0 && keyRel(f, n.key, k) == 0 {
				continue
			}
			if which == 1 {
				e := keyRel(f, n.key, k)
				if e == 1 {
					if n.kind == MMapDel {
						return tZero(vt), tFalse()
					}
					return n.val, tTrue()
				}
				if e == 0 {
					continue
				}
				// one key was present before and the other was not
				_, a := mapLookup(f, n.prev, m, k, vt)
				_, b := mapLookup(f, n.prev, m, n.key, vt)
				if x, y := f.eval(a), f.eval(b); x >= 0 && y >= 0 && x != y {
					continue
				}
			}
			return mapLeaf(f, n, m, k, vt)
		case MLoop:
			if n.loop.hi == n.loop.it && madeIn(m, n.loop.it) {
				// made in the iteration following those
				if vt == nil {
					return tInt(0), tFalse()
				}
				return tZero(vt), tFalse()
			}
			hit := false
			for _, w := range n.loop.writes {
				if w.kind == MMapSet || w.kind == MMapDel {
					if sameMapType(w.addr, m) && !mapDisjoint(w.addr, m) {
						hit = true
					}
				}
				if w.kind == MHavocAll {
					hit = true
				}
			}
			if hit {
				return mapLeaf(f, n, m, k, vt)
			}
		case MHavocAll:
			return mapLeaf(f, n, m, k, vt)
		}
	}
	return mapLeaf(f, initMem(), m, k, vt)
}

// madeIn: m is a map made in iteration it.
func madeIn(m, it *Term) bool {
	if m.op != OMakeMap {
		return false
	}
	for _, a := range m.args {
		if a == it {
			return true
		}
	}
	return false
}

// mapLeaf: an entry as it is in memory n.
func mapLeaf(f *Facts, n *Mem, m, k *Term, vt types.Type) (val, has *Term) {
	val, has = mk(OMapGet, vt, false, 0, "", nil, n, nil, m, k), mk(OMapHas, nil, false, 0, "", nil, n, nil, m, k)
	if m.op != ONil && m.op != OMakeMap && f.eval(tEq(m, tNil())) == 1 {
		has = tFalse() // nothing is in a nil map
	}
	if vt != nil && f.eval(has) == 0 {
		val = tZero(vt)
	}
	return
}

func keyRel(f *Facts, a, b *Term) int { // 1 equal, 0 different, -1 unknown
	return f.eval(tEq(a, b))
}

// seqVal: canonical name of the contents of slice s in memory m.
func seqVal(f *Facts, m *Mem, s *Term) *Term {
	if isStringTerm(s) && s.op != OConv {
		return s
	}
	if s.op == OConv && s.s == "bytes" && !everWritten(f, m, s) {
		return s.args[0]
	}
	et := elemType(s.typ)
	n := m
	for ; n != nil && n.kind != MInit; n = n.prev {
		if touchesElems(f, n, s, et) {
			break
		}
	}
	if n == nil {
		n = initMem()
	}
	// contents copied from elsewhere, in full
	if n.kind == MCopy && n.addr == s && n.prev != nil {
		if f.proveEqInt(tLen(s), tLen(n.val)) || f.proveLe(tLen(s), tLen(n.val)) && f.proveLe(tLen(n.val), tLen(s)) {
			if isStringTerm(n.val) {
				return n.val
			}
			return seqVal(f, n.prev, n.val)
		}
	}
	if n.kind == MSort && n.addr == s && n.prev != nil {
		in := seqVal(f, n.prev, s)
		if in.op == OPure && in.s == "sorted" {
			return in
		}
		return mk(OPure, s.typ, false, 0, "sorted", nil, nil, nil, in)
	}
	// contents copied element by element
	if n.kind == MLoop || s.op == OCollect {
		if v := copiedFrom(f, m, s, et); v != nil {
			return v
		}
	}
	if s.op == OAppendSl && (n.kind == MInit || n.id <= s.mem.id) && tLen(s.args[0]).op == OInt && tLen(s.args[0]).k == 0 {
		return seqVal(f, s.mem, s.args[1])
	}
	return mk(OSeqVal, s.typ, false, 0, "", nil, n, nil, s)
}

// copiedFrom: when element j of s equals element j of another slice for every
// j, the contents are that slice's contents.
func copiedFrom(f *Facts, m *Mem, s *Term, et types.Type) *Term {
	j := mk(OBound, types.Typ[types.Int], false, 0, "elem", nil, nil, nil)
	n := tLen(s)
	g := f.assume(tLe(tInt(0), j), true).assume(tLt(j, n), true)
	if g.bad {
		return nil
	}
	v := load(g, m, tIndexAddr(s, j, types.NewPointer(et)), et)
	if v.op != OLoad || v.args[0].op != OIndexAddr || v.args[0].args[1] != j {
		return nil
	}
	x := v.args[0].args[0]
	if x == s || termContains(x, j) || x.typ == nil {
		return nil
	}
	if _, ok := x.typ.Underlying().(*types.Slice); !ok {
		return nil
	}
	if !f.proveEqInt(tLen(x), n) && !(f.proveLe(tLen(x), n) && f.proveLe(n, tLen(x))) {
		return nil
	}
	return seqVal(f, v.mem, x)
}

func everWritten(f *Facts, m *Mem, s *Term) bool {
	et := elemType(s.typ)
	for n := m; n != nil && n.kind != MInit; n = n.prev {
		if touchesElems(f, n, s, et) {
			return true
		}
	}
	return false
}

func touchesElems(f *Facts, n *Mem, s *Term, et types.Type) bool {
	switch n.kind {
	case MStore:
		p := pointee(n.addr)
		if et != nil && p != nil && !containsType(et, p, 0) && !containsType(p, et, 0) {
			return false
		}
		a := innerIndex(n.addr)
		if a.op != OIndexAddr {
			if a.op == OAlloc || a.op == OGlobal {
				return false
			}
			return n.addr.op != OFieldAddr
		}
		return a.args[0] == s || !rootsDisjoint(a.args[0], s)
	case MSort, MElems, MCopy:
		if s == n.addr {
			return true
		}
		if n.kind == MElems && n.key != nil && (s == n.key || s == n.val) {
			return false
		}
		e2 := elemType(n.addr.typ)
		if et != nil && e2 != nil && !types.Identical(et, e2) {
			return false
		}
		return !rootsDisjoint(n.addr, s)
	case MLoop:
		for _, w := range n.loop.writes {
			if w.kind == MHavocAll || w.kind == MHavocType {
				return true
			}
			if w.kind == MMapSet || w.kind == MMapDel {
				continue
			}
			x := &Mem{kind: w.kind, addr: w.addr, typ: w.typ}
			if touchesElems(f, x, s, et) {
				return true
			}
		}
		return false
	case MHavocType:
		return containsType(n.typ, et, 0) || containsType(et, n.typ, 0)
	case MHavocAll:
		return true
	}
	return false
}

// ownMapValues: every value the map holds, a map made during analysis, is
// itself an object made during analysis (or nil).
func ownMapValues(m *Term, mem *Mem) bool {
	if m.op != OMakeMap {
		return false
	}
	may := func(a *Term) bool { return a == m || sameMapType(a, m) && !mapDisjoint(a, m) }
	for n := mem; n != nil && n.kind != MInit; n = n.prev {
		switch n.kind {
		case MMapSet:
			if may(n.addr) && (n.val == nil || !ownObject(n.val)) {
				return false
			}
		case MLoop:
			for _, w := range n.loop.writes {
				if w.kind == MHavocAll || w.kind == MMapSet && may(w.addr) && !w.ownVal {
					return false
				}
			}
		case MHavocAll:
			return false
		}
	}
	return true
}

// mapValNonNil: t is a value held by a map built during the analysis into
// which only non-nil values were put, read at a key known to be present.
func mapValNonNil(f *Facts, t *Term) bool {
	if t.op != OMapGet || t.mem == nil || t.args[0].op != OMakeMap {
		return false
	}
	m, k := t.args[0], t.args[1]
	may := func(a *Term) bool { return a == m || sameMapType(a, m) && !mapDisjoint(a, m) }
	for n := t.mem; n != nil && n.kind != MInit; n = n.prev {
		switch n.kind {
		case MMapSet:
			if may(n.addr) && (n.val == nil || !knownNonNil(n.val)) {
				return false
			}
		case MLoop:
			for _, w := range n.loop.writes {
				if w.kind == MHavocAll || w.kind == MMapSet && may(w.addr) && !w.nonNil {
					return false
				}
			}
		case MHavocAll:
			return false
		}
	}
	for n := t.mem; n != nil; n = n.prev {
		if val, has := mapLookup(f, n, m, k, t.typ); f.eval(has) == 1 || val != t && f.isNil(val) == 0 {
			return true // one which is not nil is present
		}
		switch n.kind {
		case MInit, MHavocAll:
			return false
		case MMapDel:
			if may(n.addr) {
				return false
			}
		case MLoop:
			for _, w := range n.loop.writes {
				if w.kind == MMapDel && may(w.addr) {
					return false
				}
			}
		}
	}
	return false
}
