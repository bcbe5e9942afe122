package main

// Hash-consed value terms. A term is the canonical name of a value (value
// numbering): two syntactically different computations of the same value get
// the same term wherever the normal forms below can see it.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OInvalid Op = iota
	OInt        // k
	OStr        // s
	OBool       // k
	OConst      // s: other constants (floats, ...)
	ONil
	OZero   // zero value of composite typ
	OParam  // s
	OGlobal // obj: address of package variable
	OFunc   // obj
	OClosure
	OAlloc // s: key, args: iteration vector
	OFieldAddr
	OIndexAddr
	OField
	OIndex
	OLoad // args[0]=addr, mem
	OLin  // integer linear form
	OBin  // s: operator
	OWrap // typ, args[0]
	OShr  // floor(args[0] / 2^k)
	OLe   // args[0] (integer) <= 0
	OEq0  // args[0] (integer) == 0
	OEq   // args[0] == args[1]
	ONot
	OLen
	OCap
	OConv // s: description, args[0]
	OMakeSlice
	OAppend // args[0] base, rest elements; k = number of elements
	OAppendSl
	OCollect // append accumulator; see loops.go
	OSlice
	OMakeMap
	OMapGet // m,k ; mem
	OMapHas
	OCall // s: key, args: iteration vector
	OPure // s: function, args
	OExtract
	OIface // typ dynamic, args[0]
	OLoopVar
	OIter
	OBound
	OSeqEq  // args: SeqVal, SeqVal
	OSeqVal // args[0] slice ; mem
	OStructWith
	OIte // args: condition, value if it holds, value otherwise
)

type Term struct {
	id   int
	op   Op
	args []*Term
	k    int64
	s    string
	typ  types.Type
	mem  *Mem
	coef []int64
	obj  interface{}
}

type interner struct {
	tab map[string]*Term
	n   int
}

var tt = &interner{tab: map[string]*Term{}}

func resetTerms() { tt = &interner{tab: map[string]*Term{}} }

func mk(op Op, typ types.Type, keyTyp bool, k int64, s string, obj interface{}, mem *Mem, coef []int64, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(op)))
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(k, 10))
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(len(s)))
	b.WriteByte(':')
	b.WriteString(s)
	if keyTyp && typ != nil {
		b.WriteByte('|')
		b.WriteString(types.TypeString(typ, nil))
	}
	if obj != nil {
		fmt.Fprintf(&b, "|%p", obj)
	}
	if mem != nil {
		b.WriteString("|m")
		b.WriteString(strconv.Itoa(mem.id))
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, c := range coef {
		b.WriteByte(';')
		b.WriteString(strconv.FormatInt(c, 10))
	}
	key := b.String()
	if t := tt.tab[key]; t != nil {
		if t.typ == nil && op == OMapGet {
			t.typ = typ
		}
		return t
	}
	tt.n++
	t := &Term{id: tt.n, op: op, args: args, k: k, s: s, typ: typ, mem: mem, coef: coef, obj: obj}
	tt.tab[key] = t
	return t
}

func tInt(k int64) *Term { return mk(OInt, nil, false, k, "", nil, nil, nil) }
func tStr(s string) *Term {
	return mk(OStr, nil, false, 0, s, nil, nil, nil)
}
func tBool(b bool) *Term {
	k := int64(0)
	if b {
		k = 1
	}
	return mk(OBool, nil, false, k, "", nil, nil, nil)
}
func tNil() *Term { return mk(ONil, nil, false, 0, "", nil, nil, nil) }

var tTrueC, tFalseC *Term

func tTrue() *Term  { return tBool(true) }
func tFalse() *Term { return tBool(false) }

func isTrue(t *Term) bool  { return t.op == OBool && t.k == 1 }
func isFalse(t *Term) bool { return t.op == OBool && t.k == 0 }

// ---- integer types ----

func intBasic(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, false
	}
	return b, true
}

const (
	negInf = math.MinInt64 / 4
	posInf = math.MaxInt64 / 4
)

// typeRange gives the value range of an integer type; 64-bit types are
// reported as unbounded on the open side (lengths and counters of 64-bit type
// are assumed not to overflow).
func typeRange(t types.Type) (lo, hi int64) {
	b, ok := intBasic(t)
	if !ok {
		return negInf, posInf
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127
	case types.Int16:
		return -32768, 32767
	case types.Int32, types.UntypedRune:
		return math.MinInt32, math.MaxInt32
	case types.Uint8:
		return 0, 255
	case types.Uint16:
		return 0, 65535
	case types.Uint32:
		return 0, math.MaxUint32
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, posInf
	}
	return negInf, posInf
}

func typeBits(t types.Type) (bits int, signed bool, ok bool) {
	b, isInt := intBasic(t)
	if !isInt {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 64, true, true
}

// ---- linear forms ----

type Lin struct {
	c  int64
	at []*Term
	co []int64
}

func toLin(t *Term) Lin {
	switch t.op {
	case OInt:
		return Lin{c: t.k}
	case OLin:
		return Lin{c: t.k, at: t.args, co: t.coef}
	}
	return Lin{at: []*Term{t}, co: []int64{1}}
}

func (l Lin) isConst() bool { return len(l.at) == 0 }

func (l Lin) addScaled(o Lin, f int64) Lin {
	r := Lin{c: l.c + f*o.c}
	if n := len(l.at) + len(o.at); n > 0 {
		r.at, r.co = make([]*Term, 0, n), make([]int64, 0, n)
	}
	i, j := 0, 0
	for i < len(l.at) || j < len(o.at) {
		switch {
		case j >= len(o.at) || (i < len(l.at) && l.at[i].id < o.at[j].id):
			r.at = append(r.at, l.at[i])
			r.co = append(r.co, l.co[i])
			i++
		case i >= len(l.at) || o.at[j].id < l.at[i].id:
			if f != 0 {
				r.at = append(r.at, o.at[j])
				r.co = append(r.co, f*o.co[j])
			}
			j++
		default:
			if c := l.co[i] + f*o.co[j]; c != 0 {
				r.at = append(r.at, l.at[i])
				r.co = append(r.co, c)
			}
			i++
			j++
		}
	}
	return r
}

func (l Lin) add(o Lin) Lin     { return l.addScaled(o, 1) }
func (l Lin) sub(o Lin) Lin     { return l.addScaled(o, -1) }
func (l Lin) plus(k int64) Lin  { r := l; r.c += k; return r }
func (l Lin) scale(f int64) Lin { return Lin{}.addScaled(l, f) }
func (l Lin) neg() Lin          { return l.scale(-1) }
func (l Lin) coefOf(a *Term) int64 {
	for i, x := range l.at {
		if x == a {
			return l.co[i]
		}
	}
	return 0
}

func (l Lin) equal(o Lin) bool {
	if l.c != o.c || len(l.at) != len(o.at) {
		return false
	}
	for i := range l.at {
		if l.at[i] != o.at[i] || l.co[i] != o.co[i] {
			return false
		}
	}
	return true
}

func (l Lin) key() string {
	var buf [160]byte
	b := strconv.AppendInt(buf[:0], l.c, 36)
	for i, a := range l.at {
		b = append(b, ' ')
		b = strconv.AppendInt(b, l.co[i], 36)
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(a.id), 36)
	}
	return string(b)
}

func fromLin(l Lin) *Term {
	if len(l.at) == 0 {
		return tInt(l.c)
	}
	if len(l.at) == 1 && l.co[0] == 1 && l.c == 0 {
		return l.at[0]
	}
	return mk(OLin, nil, false, l.c, "", nil, nil, l.co, l.at...)
}

func tAdd(a, b *Term) *Term         { return fromLin(toLin(a).add(toLin(b))) }
func tSub(a, b *Term) *Term         { return fromLin(toLin(a).sub(toLin(b))) }
func tAddK(a *Term, k int64) *Term  { return fromLin(toLin(a).plus(k)) }
func tScale(a *Term, k int64) *Term { return fromLin(toLin(a).scale(k)) }

// atomRange: intrinsic bounds of an integer atom.
func atomRange(t *Term) (lo, hi int64) {
	switch t.op {
	case OInt:
		return t.k, t.k
	case OLen, OCap:
		if capEnabled && t.op == OLen {
			return 0, lenCap(t.args[0])
		}
		return 0, posInf
	case OIter:
		return 0, posInf
	case OBound:
		if t.k < 0 {
			return 0, posInf
		}
	case OShr:
		lo, hi = linRange(toLin(t.args[0]))
		if lo > negInf {
			lo = lo >> uint(t.k)
		}
		if hi < posInf {
			hi = hi >> uint(t.k)
		}
		return
	case OBin:
		switch t.s {
		case "&":
			lo1, hi1 := linRange(toLin(t.args[0]))
			lo2, hi2 := linRange(toLin(t.args[1]))
			if lo1 >= 0 || lo2 >= 0 {
				h := hi1
				if lo1 < 0 {
					h = hi2
				} else if lo2 >= 0 && hi2 < h {
					h = hi2
				}
				return 0, h
			}
		case "%":
			lo1, _ := linRange(toLin(t.args[0]))
			if t.args[1].op == OInt && t.args[1].k > 0 && lo1 >= 0 {
				return 0, t.args[1].k - 1
			}
		}
	}
	return typeRange(t.typ)
}

func linRange(l Lin) (lo, hi int64) {
	lo, hi = l.c, l.c
	for i, a := range l.at {
		al, ah := atomRange(a)
		c := l.co[i]
		if c < 0 {
			al, ah = ah, al
		}
		// al is the end that gives the low bound
		if lo > negInf {
			if al <= negInf || al >= posInf {
				lo = negInf
			} else {
				lo += c * al
			}
		}
		if hi < posInf {
			if ah <= negInf || ah >= posInf {
				hi = posInf
			} else {
				hi += c * ah
			}
		}
	}
	return
}

// tShr: floor division by 2^k in normal form.
func tShr(t *Term, k int64) *Term {
	if k == 0 {
		return t
	}
	l := toLin(t)
	p := int64(1) << uint(k)
	var q, r Lin
	q.c = l.c >> uint(k)
	r.c = l.c - q.c*p
	for i, a := range l.at {
		c := l.co[i]
		qc := c >> uint(k)
		rc := c - qc*p
		if rc != 0 && (rc > p/2) { // prefer small remainders
			qc++
			rc -= p
		}
		if qc != 0 {
			q.at = append(q.at, a)
			q.co = append(q.co, qc)
		}
		if rc != 0 {
			r.at = append(r.at, a)
			r.co = append(r.co, rc)
		}
	}
	lo, hi := linRangeShr(r)
	if lo >= 0 && hi < p {
		return fromLin(q)
	}
	if r.isConst() {
		return fromLin(q)
	}
	if len(r.at) == 1 && r.co[0] == 1 && r.c == 0 && r.at[0].op == OShr {
		// floor(floor(x/2^a)/2^b) = floor(x/2^(a+b))
		in := r.at[0]
		return fromLin(q.add(toLin(tShr(in.args[0], in.k+k))))
	}
	at := mk(OShr, nil, false, k, "", nil, nil, nil, fromLin(r))
	return fromLin(q.add(toLin(at)))
}

// linRangeShr is linRange with knowledge of x - 2^k*Shr(x,k) in [0,2^k).
func linRangeShr(l Lin) (lo, hi int64) {
	lo, hi = linRange(l)
	for i, a := range l.at {
		if a.op != OShr || l.co[i] >= 0 {
			continue
		}
		p := int64(1) << uint(a.k)
		if l.co[i]%p != 0 {
			continue
		}
		f := -l.co[i] / p // l = f*(x - p*shr) + rest
		rest := l.sub(toLin(a.args[0]).sub(Lin{at: []*Term{a}, co: []int64{p}}).scale(f))
		rl, rh := linRange(rest)
		if rl > negInf && rl > lo {
			lo = rl
		}
		if rh < posInf && rh+f*(p-1) < hi {
			hi = rh + f*(p-1)
		}
	}
	return
}

// tWrap: value reduced into integer type t (no facts).
func tWrapMod(t types.Type, x *Term) *Term {
	bits, signed, ok := typeBits(t)
	if !ok {
		return x
	}
	l := toLin(x)
	lo, hi := linRangeShr(l)
	tl, th := typeRange(t)
	if lo >= tl && hi <= th {
		return x
	}
	if bits < 63 && !signed {
		return fromLin(l.sub(toLin(tShr(x, int64(bits))).scale(int64(1) << uint(bits))))
	}
	if bits <= 32 && signed {
		return fromLin(l.sub(toLin(tShr(tAddK(x, int64(1)<<uint(bits-1)), int64(bits))).scale(int64(1) << uint(bits))))
	}
	return mk(OWrap, t, true, 0, "", nil, nil, nil, x)
}

func tAndMask(x *Term, k int64) *Term { // x & (2^k-1)
	l := toLin(x)
	lo, hi := linRangeShr(l)
	if lo >= 0 && hi < int64(1)<<uint(k) {
		return x
	}
	return fromLin(l.sub(toLin(tShr(x, k)).scale(int64(1) << uint(k))))
}

// possBits: conservative set of possibly-set bits of a non-negative term.
func possBits(t *Term) (uint64, bool) {
	l := toLin(t)
	lo, hi := linRangeShr(l)
	if lo < 0 || hi >= posInf {
		return 0, false
	}
	// trailing zero bits from coefficients
	g := uint64(l.c)
	for _, c := range l.co {
		if c < 0 {
			g |= uint64(-c)
		} else {
			g |= uint64(c)
		}
	}
	tz := 0
	for g != 0 && g&1 == 0 {
		g >>= 1
		tz++
	}
	m := uint64(1)
	for m-1 < uint64(hi) {
		m <<= 1
	}
	m--
	return m &^ ((uint64(1) << uint(tz)) - 1), true
}

// lowZeros: number of low bits known to be zero.
func lowZeros(t *Term) uint {
	l := toLin(t)
	g := uint64(l.c)
	for _, c := range l.co {
		if c < 0 {
			c = -c
		}
		g |= uint64(c)
	}
	if g == 0 {
		return 0
	}
	n := uint(0)
	for g&1 == 0 {
		g >>= 1
		n++
	}
	return n
}

// tOrXorF also uses facts to see that the operands share no bits.
func tOrXorF(f *Facts, op string, a, b *Term) *Term {
	for i := 0; i < 2; i++ {
		if z := lowZeros(a); z > 0 && z < 62 && f.proveLe(tInt(0), b) && f.proveLt(b, tInt(int64(1)<<z)) {
			return tAdd(a, b)
		}
		a, b = b, a
	}
	return tOrXor(op, a, b)
}

// tOr / tXor on disjoint bits is addition.
func tOrXor(op string, a, b *Term) *Term {
	if a.op == OInt && b.op == OInt {
		if op == "|" {
			return tInt(a.k | b.k)
		}
		return tInt(a.k ^ b.k)
	}
	if a.op == OInt && a.k == 0 {
		return b
	}
	if b.op == OInt && b.k == 0 {
		return a
	}
	ma, ok1 := possBits(a)
	mb, ok2 := possBits(b)
	if ok1 && ok2 && ma&mb == 0 {
		return tAdd(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OBin, nil, false, 0, op, nil, nil, nil, a, b)
}

// ---- comparisons ----

// reduced: the coefficients divided by what they have in common; ok tells
// that the constant divides too (otherwise it is rounded up, as l <= 0 allows).
func (l Lin) reduced() (r Lin, ok bool) {
	g := int64(0)
	for _, c := range l.co {
		if c < 0 {
			c = -c
		}
		for g != 0 {
			c, g = g, c%g
		}
		g = c
	}
	if g <= 1 {
		return l, true
	}
	r = Lin{at: l.at, co: make([]int64, len(l.co)), c: l.c / g}
	for i, c := range l.co {
		r.co[i] = c / g
	}
	if l.c%g != 0 && l.c > 0 {
		r.c++
	}
	return r, l.c%g == 0
}

func tLe(a, b *Term) *Term { // a <= b
	l, _ := toLin(a).sub(toLin(b)).reduced()
	if l.isConst() {
		return tBool(l.c <= 0)
	}
	lo, hi := linRangeShr(l)
	if hi <= 0 {
		return tTrue()
	}
	if lo > 0 {
		return tFalse()
	}
	return mk(OLe, nil, false, 0, "", nil, nil, nil, fromLin(l))
}
func tLt(a, b *Term) *Term { return tLe(tAddK(a, 1), b) }

func normSign(l Lin) Lin {
	if len(l.at) > 0 && l.co[0] < 0 {
		return l.neg()
	}
	return l
}

func tEqInt(a, b *Term) *Term {
	l, ok := normSign(toLin(a).sub(toLin(b))).reduced()
	if !ok {
		return tFalse()
	}
	if l.isConst() {
		return tBool(l.c == 0)
	}
	lo, hi := linRangeShr(l)
	if lo > 0 || hi < 0 {
		return tFalse()
	}
	return mk(OEq0, nil, false, 0, "", nil, nil, nil, fromLin(l))
}

func isIntTerm(t *Term) bool {
	switch t.op {
	case OInt, OLin, OLen, OCap, OIter, OShr, OWrap:
		return true
	}
	_, ok := intBasic(t.typ)
	return ok
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue()
	}
	if isIntTerm(a) || isIntTerm(b) {
		return tEqInt(a, b)
	}
	ca, cb := isConstTerm(a), isConstTerm(b)
	if ca && cb {
		return tFalse() // distinct interned constants
	}
	if a.op == OBool {
		a, b = b, a
	}
	if b.op == OBool {
		if b.k == 1 {
			return a
		}
		return tNot(a)
	}
	if (a.op == ONil && knownNonNil(b)) || (b.op == ONil && knownNonNil(a)) {
		return tFalse()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, nil, false, 0, "", nil, nil, nil, a, b)
}

func isConstTerm(t *Term) bool {
	switch t.op {
	case OInt, OStr, OBool, ONil, OConst:
		return true
	}
	return false
}

func tNot(t *Term) *Term {
	switch t.op {
	case OBool:
		return tBool(t.k == 0)
	case ONot:
		return t.args[0]
	case OLe:
		l := toLin(t.args[0]).neg().plus(1)
		return mk(OLe, nil, false, 0, "", nil, nil, nil, fromLin(l))
	}
	return mk(ONot, nil, false, 0, "", nil, nil, nil, t)
}

// nonNil knowledge by construction.
var nonNilGlobals = map[*ssa.Global]bool{}

func knownNonNil(t *Term) bool {
	switch t.op {
	case OAlloc, OClosure, OFunc, OGlobal, OMakeMap, OFieldAddr, OIndexAddr, OMakeSlice:
		return true
	case OIface:
		return true
	case OPure:
		return t.s == "fmt.Errorf" || t.s == "errors.New"
	case OCall:
		if st, ok := t.obj.(*callInfo); ok {
			return st.nonNil
		}
	case OLoad:
		if t.args[0].op == OGlobal {
			if g, ok := t.args[0].obj.(*ssa.Global); ok && nonNilGlobals[g] {
				return true
			}
		}
	}
	return false
}

type callInfo struct {
	name   string
	nonNil bool
}

// ---- lengths ----

func tLen(x *Term) *Term {
	switch x.op {
	case ONil:
		return tInt(0)
	case OStr:
		return tInt(int64(len(x.s)))
	case OMakeSlice:
		return x.args[0]
	case OAppend:
		return tAddK(tLen(x.args[0]), int64(len(x.args)-1))
	case OAppendSl:
		return tAdd(tLen(x.args[0]), tLen(x.args[1]))
	case OCollect:
		return tAdd(tLen(x.args[0]), tScale(x.args[1], x.k))
	case OSlice:
		return tSub(x.args[2], x.args[1])
	case OConv:
		if x.s == "bytes" { // string -> []byte
			return tLen(x.args[0])
		}
		if x.s == "string(bytes)" {
			return tLen(x.args[0])
		}
	case OSeqVal:
		return tLen(x.args[0])
	case OBin:
		if x.s == "concat" {
			return tAdd(tLen(x.args[0]), tLen(x.args[1]))
		}
	case OPure:
		if x.s == "sorted" {
			return tLen(x.args[0])
		}
	case OZero:
		return tInt(0)
	}
	if x.typ != nil {
		if a, ok := derefType(x.typ).Underlying().(*types.Array); ok {
			return tInt(a.Len())
		}
	}
	return mk(OLen, nil, false, 0, "", nil, nil, nil, x)
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Uint8]
		}
	}
	return nil
}

// ---- zero values ----

func tZero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return tInt(0)
		case u.Info()&types.IsBoolean != 0:
			return tFalse()
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Kind() == types.UntypedNil:
			return tNil()
		}
		return mk(OConst, t, true, 0, "0", nil, nil, nil)
	case *types.Struct, *types.Array:
		return mk(OZero, t, true, 0, "", nil, nil, nil)
	case *types.Tuple:
		return mk(OZero, t, true, 0, "", nil, nil, nil)
	}
	return tNil()
}

// ---- traversal ----

func termContains(t, x *Term) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(u *Term) bool {
		if u == x {
			return true
		}
		if seen[u] {
			return false
		}
		seen[u] = true
		for _, a := range u.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// maxMem: highest memory id mentioned.
func termMaxMem(t *Term) int {
	seen := map[*Term]bool{}
	m := -1
	var rec func(*Term)
	rec = func(u *Term) {
		if seen[u] {
			return
		}
		seen[u] = true
		if u.mem != nil && u.mem.id > m {
			m = u.mem.id
		}
		for _, a := range u.args {
			rec(a)
		}
	}
	rec(t)
	return m
}

// subst rebuilds t with x replaced by y.
func subst(t, x, y *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(u *Term) *Term {
		if u == x {
			return y
		}
		if len(u.args) == 0 {
			return u
		}
		if r, ok := memo[u]; ok {
			return r
		}
		changed := false
		na := make([]*Term, len(u.args))
		for i, a := range u.args {
			na[i] = rec(a)
			if na[i] != a {
				changed = true
			}
		}
		r := u
		if changed {
			r = rebuild(u, na)
		}
		memo[u] = r
		return r
	}
	return rec(t)
}

func rebuild(u *Term, na []*Term) *Term {
	switch u.op {
	case OLin:
		l := Lin{c: u.k}
		for i, a := range na {
			l = l.addScaled(toLin(a), u.coef[i])
		}
		return fromLin(l)
	case OShr:
		return tShr(na[0], u.k)
	case OWrap:
		return tWrapMod(u.typ, na[0])
	case OLe:
		return tLe(na[0], tInt(0))
	case OEq0:
		return tEqInt(na[0], tInt(0))
	case OEq:
		return tEq(na[0], na[1])
	case ONot:
		return tNot(na[0])
	case OLen:
		return tLen(na[0])
	case OIndexAddr:
		return tIndexAddr(na[0], na[1], u.typ)
	case OField:
		return tField(na[0], int(u.k), u.typ)
	case OStructWith:
		return tStructWith(na[0], int(u.k), na[1])
	case OIte:
		return tIte(na[0], na[1], na[2])
	}
	keyTyp := false
	switch u.op {
	case OZero, OIface, OAlloc, OWrap, OMakeSlice, OMakeMap, OConst:
		keyTyp = true
	}
	return mk(u.op, u.typ, keyTyp, u.k, u.s, u.obj, u.mem, u.coef, na...)
}

func tIndexAddr(base, idx *Term, typ types.Type) *Term {
	for base.op == OSlice {
		idx = tAdd(idx, base.args[1])
		base = base.args[0]
	}
	return mk(OIndexAddr, typ, false, 0, "", nil, nil, nil, base, idx)
}

func tFieldAddr(base *Term, i int, typ types.Type) *Term {
	return mk(OFieldAddr, typ, false, int64(i), "", nil, nil, nil, base)
}

func tField(x *Term, i int, typ types.Type) *Term {
	switch x.op {
	case OZero:
		if st, ok := x.typ.Underlying().(*types.Struct); ok {
			return tZero(st.Field(i).Type())
		}
	case OStructWith: // args[0] base struct, args[1] value, k field
		if x.k == int64(i) {
			return x.args[1]
		}
		return tField(x.args[0], i, typ)
	case OIte:
		return tIte(x.args[0], tField(x.args[1], i, typ), tField(x.args[2], i, typ))
	case OLoad:
		if x.mem != nil {
			return load(&Facts{}, x.mem, tFieldAddr(x.args[0], i, types.NewPointer(typ)), typ)
		}
	}
	return mk(OField, typ, false, int64(i), "", nil, nil, nil, x)
}

// tStructWith is struct x with field i replaced; fields are kept in order, and
// a struct all of whose fields are given has the zero struct as its base.
func tStructWith(x *Term, i int, v *Term) *Term {
	u, ok := x.typ.Underlying().(*types.Struct)
	if !ok {
		return mk(OStructWith, x.typ, false, int64(i), "", nil, nil, nil, x, v)
	}
	if tField(x, i, u.Field(i).Type()) == v {
		return x
	}
	set := map[int]*Term{i: v}
	base := x
	for base.op == OStructWith {
		if _, ok := set[int(base.k)]; !ok {
			set[int(base.k)] = base.args[1]
		}
		base = base.args[0]
	}
	if len(set) == u.NumFields() {
		base = tZero(x.typ)
		// all fields of one other struct?
		if f0 := set[0]; f0.op == OLoad && f0.args[0].op == OFieldAddr && f0.args[0].k == 0 {
			whole := mk(OLoad, x.typ, false, 0, "", nil, f0.mem, nil, f0.args[0].args[0])
			if pt := pointee(f0.args[0].args[0]); pt != nil && types.Identical(pt, x.typ) {
				same := true
				for k, w := range set {
					if tField(whole, k, u.Field(k).Type()) != w {
						same = false
					}
				}
				if same {
					return whole
				}
			}
		}
	}
	for k := 0; k < u.NumFields(); k++ {
		if w, ok := set[k]; ok && tField(base, k, u.Field(k).Type()) != w {
			base = mk(OStructWith, x.typ, false, int64(k), "", nil, nil, nil, base, w)
		}
	}
	return base
}

// tIte: a if c holds, else b.
func tIte(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	switch c.op {
	case OBool:
		if c.k == 1 {
			return a
		}
		return b
	case ONot:
		return tIte(c.args[0], b, a)
	}
	if a.op == OBool && b.op == OBool {
		if a.k == 1 {
			return c
		}
		return tNot(c)
	}
	t := a.typ
	if t == nil {
		t = b.typ
	}
	return mk(OIte, t, false, 0, "", nil, nil, nil, c, a, b)
}

// ---- printing ----

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 7 {
		return "…"
	}
	a := func(i int) string { return t.args[i].str(d + 1) }
	list := func(from int) string {
		var s []string
		for i := from; i < len(t.args); i++ {
			s = append(s, a(i))
		}
		return strings.Join(s, ",")
	}
	switch t.op {
	case OInt:
		return strconv.FormatInt(t.k, 10)
	case OStr:
		return strconv.Quote(t.s)
	case OBool:
		return strconv.FormatBool(t.k == 1)
	case ONil:
		return "nil"
	case OZero:
		return "zero(" + types.TypeString(t.typ, nil) + ")"
	case OParam:
		return t.s
	case OGlobal:
		return "&" + t.obj.(*ssa.Global).Name()
	case OFunc:
		return t.obj.(*ssa.Function).Name()
	case OClosure:
		return "closure:" + t.obj.(*ssa.Function).Name()
	case OAlloc:
		return "new#" + strconv.Itoa(t.id) + "(" + list(0) + ")"
	case OFieldAddr:
		return a(0) + ".&" + fieldName(t.args[0].typ, int(t.k))
	case OIndexAddr:
		return "&" + a(0) + "[" + a(1) + "]"
	case OField:
		return a(0) + "." + fieldName(t.args[0].typ, int(t.k))
	case OIndex:
		return a(0) + "[" + a(1) + "]"
	case OLoad:
		m := ""
		if t.mem != nil && t.mem.id > 0 {
			m = "@" + strconv.Itoa(t.mem.id)
		}
		return "*(" + a(0) + ")" + m
	case OLin:
		var parts []string
		for i := range t.args {
			c := t.coef[i]
			switch c {
			case 1:
				parts = append(parts, "+"+a(i))
			case -1:
				parts = append(parts, "-"+a(i))
			default:
				parts = append(parts, fmt.Sprintf("%+d*%s", c, a(i)))
			}
		}
		if t.k != 0 {
			parts = append(parts, fmt.Sprintf("%+d", t.k))
		}
		return "(" + strings.TrimPrefix(strings.Join(parts, ""), "+") + ")"
	case OBin:
		return "(" + a(0) + t.s + a(1) + ")"
	case OWrap:
		return types.TypeString(t.typ, nil) + "!(" + a(0) + ")"
	case OShr:
		return "(" + a(0) + ">>" + strconv.FormatInt(t.k, 10) + ")"
	case OLe:
		return a(0) + "<=0"
	case OEq0:
		return a(0) + "==0"
	case OEq:
		return a(0) + "==" + a(1)
	case ONot:
		return "!(" + a(0) + ")"
	case OLen:
		return "len(" + a(0) + ")"
	case OConv:
		return t.s + "(" + a(0) + ")"
	case OMakeSlice:
		return "make#" + strconv.Itoa(t.id) + "(" + a(0) + ")"
	case OAppend:
		return "append(" + list(0) + ")"
	case OAppendSl:
		return "append(" + list(0) + "...)"
	case OCollect:
		return "collect[" + a(0) + " ; " + a(1) + "x{" + list(2) + "}]"
	case OSlice:
		return a(0) + "[" + a(1) + ":" + a(2) + "]"
	case OMapGet:
		return a(0) + "[" + a(1) + "]"
	case OMapHas:
		return a(1) + " in " + a(0)
	case OCall:
		n := t.s
		if ci, ok := t.obj.(*callInfo); ok {
			n = ci.name
		}
		return n + "#" + strconv.Itoa(t.id) + "(" + list(0) + ")"
	case OPure:
		return t.s + "(" + list(0) + ")"
	case OExtract:
		return a(0) + "." + strconv.FormatInt(t.k, 10)
	case OIface:
		return "iface(" + a(0) + ")"
	case OLoopVar:
		return "v" + strconv.FormatInt(t.k, 10) + "{" + list(0) + "}"
	case OIter:
		return "it" + strconv.Itoa(t.id)
	case OBound:
		return "j" + strconv.FormatInt(t.k, 10)
	case OSeqEq:
		return "seqeq(" + list(0) + ")"
	case OSeqVal:
		m := ""
		if t.mem != nil && t.mem.id > 0 {
			m = "@" + strconv.Itoa(t.mem.id)
		}
		return "seq(" + a(0) + m + ")"
	case OIte:
		return "(" + a(0) + " ? " + a(1) + " : " + a(2) + ")"
	case OStructWith:
		return a(0) + "{" + strconv.FormatInt(t.k, 10) + ":" + a(1) + "}"
	}
	return fmt.Sprintf("op%d(%s)", t.op, list(0))
}

func fieldName(t types.Type, i int) string {
	if t != nil {
		if st, ok := derefType(t).Underlying().(*types.Struct); ok && i < st.NumFields() {
			return st.Field(i).Name()
		}
	}
	return strconv.Itoa(i)
}

func sortTerms(ts []*Term) { sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id }) }

var _ = token.ADD
