package main

import (
	"go/types"
	"strings"
)

// Must-facts on one abstract path: linear inequalities (a zone-like domain
// with bounded combination), disequalities, opaque boolean atoms and
// quantified facts about completed loop iterations.

type atomFact struct {
	t *Term
	v bool
}

// forall says: body atoms hold for every iteration number j in [0, hi).
type forallFact struct {
	it   *Term // the iteration symbol used in the atoms
	hi   *Term // exclusive upper bound
	body []*Term
}

type Facts struct {
	les   []Lin // <= 0
	nes   []Lin // != 0
	atoms []atomFact
	all   []forallFact
	bad   bool            // contradiction found
	sub   map[*Term]*Term // atoms the equalities define by older terms
	rw    map[*Term]*Term // terms known to stand for others
}

func (f *Facts) clone() *Facts {
	return &Facts{
		les: f.les[:len(f.les):len(f.les)], nes: f.nes[:len(f.nes):len(f.nes)],
		atoms: f.atoms[:len(f.atoms):len(f.atoms)], all: f.all[:len(f.all):len(f.all)], bad: f.bad, sub: f.sub, rw: f.rw,
	}
}

// intrinsic facts for an atom (each <= 0).
func intrinsic(a *Term) []Lin {
	var r []Lin
	lo, hi := atomRange(a)
	la := toLin(a)
	if lo > negInf {
		r = append(r, la.neg().plus(lo))
	}
	if hi < posInf {
		r = append(r, la.plus(-hi))
	}
	if a.op == OShr {
		p := int64(1) << uint(a.k)
		x := toLin(a.args[0])
		r = append(r, la.scale(p).sub(x))                // p*a <= x
		r = append(r, x.sub(la.scale(p)).plus(-(p - 1))) // x - p*a <= p-1
	}
	if p := partOfStr(a); p != nil {
		r = append(r, la.sub(toLin(tLen(p)))) // no longer than the whole
		if n := a.args[0].s; strings.HasSuffix(n, ".Ext") {
			last := mk(OPure, types.Typ[types.String], false, 1, strings.TrimSuffix(n, "Ext")+"Split", nil, nil, nil, p)
			r = append(r, la.sub(toLin(tLen(last)))) // nor than the last element
		}
	}
	return r
}

// partOfStr: a is the length of a part of the string returned.
func partOfStr(a *Term) *Term {
	if a.op == OLen && a.args[0].op == OPure && len(a.args[0].args) > 0 {
		switch a.args[0].s {
		case "path/filepath.Ext", "path.Ext", "path/filepath.Split", "path.Split", "strings.TrimSuffix", "strings.TrimPrefix",
			"strings.TrimSpace", "strings.TrimRight", "strings.TrimLeft", "strings.Trim":
			return a.args[0].args[0]
		}
	}
	return nil
}

type prover struct {
	f     *Facts
	steps int
	memo  map[string]int
}

func (f *Facts) proveLe0(l Lin) bool {
	if l.isConst() {
		return l.c <= 0
	}
	p := &prover{f: f, memo: map[string]int{}}
	return p.prove(l, 6)
}

func (p *prover) prove(l Lin, depth int) bool {
	if l.isConst() {
		return l.c <= 0
	}
	if _, hi := linRangeShr(l); hi <= 0 {
		return true
	}
	if depth == 0 || p.steps > 1000 {
		return false
	}
	p.steps++
	k := l.key()
	if d, ok := p.memo[k]; ok && d >= depth {
		return false
	}
	p.memo[k] = depth
	// any atom must be cancelled by something: pick one
	pick := 0
	for i, a := range l.at {
		if a.op == OShr || l.co[i] > 0 && l.at[pick].op != OShr && partOfStr(a) != nil {
			pick = i
		}
	}
	for i, a := range l.at[pick : pick+1] {
		i += pick
		c := l.co[i]
		try := func(fl Lin) bool {
			fc := fl.coefOf(a)
			if fc == 0 || (fc > 0) != (c > 0) {
				return false
			}
			if c%fc != 0 {
				if a.op == OShr && fc%c == 0 {
					// l <= 0 follows from k*l <= k-1 over the integers
					k := fc / c
					return p.prove(l.scale(k).plus(-(k-1)).addScaled(fl, -1), depth-1)
				}
				return false
			}
			return p.prove(l.addScaled(fl, -(c/fc)), depth-1)
		}
		for _, fl := range p.f.les {
			if try(fl) {
				return true
			}
		}
		for _, fl := range intrinsic(a) {
			if try(fl) {
				return true
			}
		}
		break
	}
	// second chance: other atoms' facts may cancel jointly
	if depth >= 5 {
		for i := 0; i < len(l.at); i++ {
			if i == pick {
				continue
			}
			a, c := l.at[i], l.co[i]
			for _, fl := range p.f.les {
				fc := fl.coefOf(a)
				if fc == 0 || (fc > 0) != (c > 0) || c%fc != 0 {
					continue
				}
				if p.prove(l.addScaled(fl, -(c/fc)), depth-2) {
					return true
				}
			}
		}
	}
	return false
}

func (f *Facts) hasNe(l Lin) bool {
	n := normSign(l)
	for _, x := range f.nes {
		if x.equal(n) {
			return true
		}
	}
	return false
}

// le0 proves l <= 0, using disequalities.
func (f *Facts) le0(l Lin) bool {
	if f.proveLe0(l) {
		return true
	}
	// l <= 1 and l != 1  =>  l <= 0
	if len(f.nes) > 0 && f.hasNe(l.plus(-1)) && f.proveLe0(l.plus(-1)) {
		return true
	}
	return false
}

func (f *Facts) proveLe(a, b *Term) bool { return f.le0(toLin(a).sub(toLin(b))) }
func (f *Facts) proveLt(a, b *Term) bool { return f.le0(toLin(a).sub(toLin(b)).plus(1)) }
func (f *Facts) proveEqInt(a, b *Term) bool {
	l := toLin(a).sub(toLin(b))
	if l.isConst() {
		return l.c == 0
	}
	return f.le0(l) && f.le0(l.neg())
}
func (f *Facts) proveNeInt(a, b *Term) bool {
	l := toLin(a).sub(toLin(b))
	if l.isConst() {
		return l.c != 0
	}
	return f.hasNe(l) || f.le0(l.plus(1)) || f.le0(l.neg().plus(1))
}

// eval: 1 true, 0 false, -1 unknown
func (f *Facts) eval(c *Term) int {
	switch c.op {
	case OBool:
		return int(c.k)
	case ONot:
		r := f.eval(c.args[0])
		if r >= 0 {
			return 1 - r
		}
		return -1
	case OLe:
		l := toLin(c.args[0])
		if f.le0(l) {
			return 1
		}
		if f.le0(l.neg().plus(1)) {
			return 0
		}
		return f.evalAll(c)
	case OEq0:
		l := toLin(c.args[0])
		if f.hasNe(l) || f.le0(l.plus(1)) || f.le0(l.neg().plus(1)) {
			return 0
		}
		if f.le0(l) && f.le0(l.neg()) {
			return 1
		}
		if len(f.all) == 0 {
			return -1
		}
		if f.evalAll(c) == 0 {
			return 0
		}
		a, b := tLe(fromLin(l), tInt(0)), tLe(fromLin(l.neg()), tInt(0))
		ra, rb := f.evalAll(a), f.evalAll(b)
		if ra == 0 || rb == 0 {
			return 0
		}
		if (ra == 1 || f.le0(l)) && (rb == 1 || f.le0(l.neg())) {
			return 1
		}
		return -1
	}
	for i := len(f.atoms) - 1; i >= 0; i-- {
		if f.atoms[i].t == c {
			if f.atoms[i].v {
				return 1
			}
			return 0
		}
	}
	if c.op == OEq {
		a, b := c.args[0], c.args[1]
		if x := nonEmptyOf(c); x != nil {
			if l := toLin(tLen(x)); f.le0(l) {
				return 1
			} else if f.le0(l.neg().plus(1)) {
				return 0
			}
		}
		// equality chaining through constants (nil and strings)
		for _, x := range []*Term{a, b} {
			y := a
			if x == a {
				y = b
			}
			if !isConstTerm(y) {
				continue
			}
			for _, at := range f.atoms {
				if at.t.op != OEq || !at.v {
					continue
				}
				var other *Term
				if at.t.args[0] == x {
					other = at.t.args[1]
				} else if at.t.args[1] == x {
					other = at.t.args[0]
				}
				if other != nil && isConstTerm(other) && other != y {
					return 0
				}
			}
		}
	}
	if c.op == OSeqEq {
		// equal only if equally long
		if f.proveNeInt(tLen(c.args[0]), tLen(c.args[1])) {
			return 0
		}
		if r := f.evalSeqEq(c); r >= 0 {
			return r
		}
	}
	return f.evalAll(c)
}

// elemPair: two elements at the same place of two slices, and the equality of
// the contents of these slices.
func (f *Facts) elemPair(a, b *Term) (eq, i *Term) {
	if a.op != OLoad || b.op != OLoad {
		return nil, nil
	}
	p, q := a.args[0], b.args[0]
	if p.op != OIndexAddr || q.op != OIndexAddr || p.args[1] != q.args[1] || p.args[0] == q.args[0] {
		return nil, nil
	}
	x, y := p.args[0], q.args[0]
	if x.typ == nil || y.typ == nil || !isSlice(x.typ) || !isSlice(y.typ) {
		return nil, nil
	}
	return mkSeqEq(seqVal(f, a.mem, x), seqVal(f, b.mem, y)), p.args[1]
}

func linPair(l Lin) (a, b *Term) {
	if l.c != 0 || len(l.at) != 2 || l.co[0]+l.co[1] != 0 || l.co[0] != 1 && l.co[0] != -1 {
		return nil, nil
	}
	return l.at[0], l.at[1]
}

// seqsCompared: contents which loops have found to be equal or not.
func (f *Facts) seqsCompared() (r []*Term) {
	done := map[*Term]bool{}
	try := func(a, b *Term) {
		if a == nil {
			return
		}
		if c, _ := f.elemPair(a, b); c != nil && c.op == OSeqEq && !done[c] {
			done[c] = true
			for _, at := range f.atoms {
				if at.t == c {
					return
				}
			}
			switch f.evalSeqEq(c) {
			case 1:
				r = append(r, c)
			case 0:
				r = append(r, tNot(c))
			}
		}
	}
	for _, l := range f.nes {
		try(linPair(l))
	}
	for _, a := range f.atoms {
		if !a.v && a.t.op == OEq {
			try(a.t.args[0], a.t.args[1])
		}
	}
	for _, fa := range f.all {
		for _, t := range fa.body {
			switch t.op {
			case OLe, OEq0:
				try(linPair(toLin(t.args[0])))
			case OEq:
				try(t.args[0], t.args[1])
			}
		}
	}
	return
}

// evalSeqEq decides whether two slices have the same contents by what a loop
// over both has found.
func (f *Facts) evalSeqEq(c *Term) int {
	for _, l := range f.nes {
		if a, b := linPair(l); a != nil {
			if eq, i := f.elemPair(a, b); eq == c && f.proveLe(tInt(0), i) {
				return 0
			}
		}
	}
	for _, a := range f.atoms {
		if !a.v && a.t.op == OEq {
			if eq, i := f.elemPair(a.t.args[0], a.t.args[1]); eq == c && f.proveLe(tInt(0), i) {
				return 0
			}
		}
	}
	for _, fa := range f.all {
		for _, t := range fa.body {
			var a, b *Term
			switch t.op {
			case OLe, OEq0:
				a, b = linPair(toLin(t.args[0]))
			case OEq:
				a, b = t.args[0], t.args[1]
			}
			if a == nil {
				continue
			}
			eq, _ := f.elemPair(a, b)
			if eq != c {
				continue
			}
			x, y := a.args[0].args[0], b.args[0].args[0]
			if termContains(x, fa.it) || termContains(y, fa.it) || !f.proveEqInt(tLen(x), tLen(y)) {
				continue
			}
			j := mk(OBound, types.Typ[types.Int], false, 2, "", nil, nil, nil)
			g := f.assume(tLe(tInt(0), j), true).assume(tLt(j, tLen(x)), true)
			elem := func(l *Term) *Term {
				at := l.args[0]
				return mk(OLoad, l.typ, false, 0, "", nil, l.mem, nil, tIndexAddr(at.args[0], j, at.typ))
			}
			if g.bad || g.eval(tEq(elem(a), elem(b))) == 1 {
				return 1
			}
		}
	}
	return -1
}

// evalAll decides c by instantiating a quantified fact.
func (f *Facts) evalAll(c *Term) int {
	// quantified facts: instantiate by matching the iteration symbol
	for _, fa := range f.all {
		for _, b := range fa.body {
			for _, pol := range []bool{true, false} {
				want := c
				if !pol {
					want = tNot(c)
				}
				if j := matchIter(b, want, fa.it); j != nil {
					if f.proveLe(tInt(0), j) && f.proveLt(j, fa.hi) {
						if pol {
							return 1
						}
						return 0
					}
				}
			}
		}
	}
	return -1
}

// matchIter finds j with pattern[it:=j] == t, trying the linear positions.
func matchIter(pattern, t, it *Term) *Term {
	if pattern == t {
		if !termContains(pattern, it) {
			return tInt(0)
		}
	}
	var found *Term
	var rec func(p, q *Term, d int) bool
	rec = func(p, q *Term, d int) bool {
		if p == q {
			return true
		}
		if d > 12 {
			return false
		}
		if p == it || (p.op == OLin && toLin(p).coefOf(it) != 0) {
			lp := toLin(p)
			c := lp.coefOf(it)
			if c != 1 && c != -1 {
				return false
			}
			rest := lp.sub(Lin{at: []*Term{it}, co: []int64{c}})
			for _, a := range rest.at {
				if termContains(a, it) {
					return false
				}
			}
			j := fromLin(toLin(q).sub(rest).scale(c))
			if found != nil && found != j {
				return false
			}
			found = j
			return true
		}
		if p.op != q.op || p.k != q.k || p.s != q.s || p.mem != q.mem || p.obj != q.obj || len(p.args) != len(q.args) {
			return false
		}
		if p.op == OLin || p.op == OEq {
			// operands in any order
			used := make([]bool, len(q.args))
			for i := range p.args {
				ok := false
				for j := range q.args {
					if used[j] || p.op == OLin && p.coef[i] != q.coef[j] {
						continue
					}
					save := found
					if rec(p.args[i], q.args[j], d+1) {
						used[j], ok = true, true
						break
					}
					found = save
				}
				if !ok {
					return false
				}
			}
			return true
		}
		for i := range p.args {
			if !rec(p.args[i], q.args[i], d+1) {
				return false
			}
		}
		return true
	}
	if pattern.op != t.op {
		return nil
	}
	if !rec(pattern, t, 0) {
		return nil
	}
	if found == nil {
		return nil
	}
	if subst(pattern, it, found) != t {
		return nil
	}
	return found
}

// nonEmptyOf: x of a comparison x == "".
func nonEmptyOf(c *Term) *Term {
	if c.op != OEq {
		return nil
	}
	for i := 0; i < 2; i++ {
		if c.args[i].op == OStr && c.args[i].s == "" {
			return c.args[1-i]
		}
	}
	return nil
}

// assume adds cond (with value v) as a fact.
func (f *Facts) atomIs(t *Term, v bool) bool {
	for _, a := range f.atoms {
		if a.t == t && a.v == v {
			return true
		}
	}
	return false
}

func (f *Facts) assume(c *Term, v bool) *Facts {
	if !v {
		c = tNot(c)
	}
	switch c.op {
	case OBool:
		if c.k == 0 {
			g := f.clone()
			g.bad = true
			return g
		}
		return f
	case OLe:
		g := f.addLe(toLin(c.args[0]))
		if x := c.args[0]; x.op == OLen && isStringTerm(x.args[0]) && !g.bad {
			// a string of length 0 is the empty string
			if e := tEq(x.args[0], tStr("")); e.op == OEq && g.eval(e) != 1 {
				g = g.clone()
				g.atoms = append(g.atoms, atomFact{e, true})
			}
		}
		return g
	case OEq0:
		l := toLin(c.args[0])
		return f.addLe(l).addLe(l.neg())
	case ONot:
		in := c.args[0]
		if in.op == OEq0 {
			return f.addNe(toLin(in.args[0]))
		}
		g := f.clone()
		g.bad = g.bad || f.atomIs(in, true)
		g.atoms = append(g.atoms, atomFact{in, false})
		if x := nonEmptyOf(in); x != nil {
			g = g.addLe(toLin(tLen(x)).neg().plus(1))
		}
		return g
	}
	g := f.clone()
	g.bad = g.bad || f.atomIs(c, false)
	g.atoms = append(g.atoms, atomFact{c, true})
	if x := nonEmptyOf(c); x != nil {
		g = g.addLe(toLin(tLen(x)))
	}
	if c.op == OPure && (c.s == "os.IsNotExist" || c.s == "errors.Is") && len(c.args) > 0 {
		// only an error can be of a kind
		return g.assume(tNot(tEq(c.args[0], tNil())), true)
	}
	if c.op == OSeqEq {
		l := toLin(tLen(c.args[0])).sub(toLin(tLen(c.args[1])))
		if !l.isConst() {
			g = g.addLe(l).addLe(l.neg())
		}
	}
	return g
}

func (f *Facts) addLe(l Lin) *Facts {
	if l.isConst() {
		if l.c > 0 {
			g := f.clone()
			g.bad = true
			return g
		}
		return f
	}
	l, _ = l.reduced()
	for _, x := range f.les {
		if x.equal(l) {
			return f
		}
	}
	g := f.clone()
	g.les = append(g.les, l)
	if len(l.at) == 1 && l.at[0].op == OShr && l.at[0].k < 40 && l.c < 1<<20 && l.c > -1<<20 {
		// what a bound on the upper bits says about the whole
		x, p := toLin(l.at[0].args[0]), int64(1)<<uint(l.at[0].k)
		switch l.co[0] {
		case 1:
			g = g.addLe(x.plus(-(1-l.c)*p + 1))
		case -1:
			g = g.addLe(x.neg().plus(l.c * p))
		}
	}
	// strengthen: l <= 0 and l != 0 -> l+1 <= 0
	if g.hasNe(l) {
		return g.addLe(l.plus(1))
	}
	return g
}

func (f *Facts) addNe(l Lin) *Facts {
	n, ok := normSign(l).reduced()
	if !ok || f.hasNe(n) {
		return f
	}
	g := f.clone()
	g.nes = append(g.nes, n)
	if f.proveLe0(n) {
		g = g.addLe(n.plus(1))
	}
	if f.proveLe0(n.neg()) {
		g = g.addLe(n.neg().plus(1))
	}
	return g
}

// atomsList renders every fact as a boolean term.
func (f *Facts) terms() []*Term {
	var r []*Term
	for _, l := range f.les {
		r = append(r, tLe(fromLin(l), tInt(0)))
	}
	for _, l := range f.nes {
		r = append(r, tNot(tEqInt(fromLin(l), tInt(0))))
	}
	for _, a := range f.atoms {
		if a.v {
			r = append(r, a.t)
		} else {
			r = append(r, tNot(a.t))
		}
	}
	return r
}

func (f *Facts) holds(c *Term) bool { return f.eval(c) == 1 }
func (f *Facts) fails(c *Term) bool { return f.eval(c) == 0 }
func (f *Facts) isNil(t *Term) int  { return f.eval(tEq(t, tNil())) }

// bounds of a linear form under single-atom facts.
func (f *Facts) bounds(l Lin) (lo, hi int64) {
	lo, hi = l.c, l.c
	for i, a := range l.at {
		alo, ahi := atomRange(a)
		for _, x := range f.les {
			if len(x.at) == 1 && x.at[0] == a {
				switch x.co[0] {
				case 1:
					if -x.c < ahi {
						ahi = -x.c
					}
				case -1:
					if x.c > alo {
						alo = x.c
					}
				}
			}
		}
		c := l.co[i]
		if c < 0 {
			alo, ahi = ahi, alo
		}
		if alo <= negInf || alo >= posInf || lo <= negInf {
			lo = negInf
		} else {
			lo += c * alo
		}
		if ahi <= negInf || ahi >= posInf || hi >= posInf {
			hi = posInf
		} else {
			hi += c * ahi
		}
	}
	return
}

// fixShr adds the value of every shifted term the facts pin down.
func (f *Facts) fixShr() *Facts {
	set := map[*Term]bool{}
	var visit func(t *Term, d int)
	visit = func(t *Term, d int) {
		if d > 8 || set[t] {
			return
		}
		if t.op == OShr {
			set[t] = true
		}
		for _, a := range t.args {
			visit(a, d+1)
		}
	}
	for _, l := range f.les {
		for _, a := range l.at {
			visit(a, 0)
		}
	}
	var ts []*Term
	for t := range set {
		ts = append(ts, t)
	}
	sortTerms(ts)
	for _, a := range ts {
		if v, ok := f.shrValue(a); ok {
			f = f.addLe(toLin(a).plus(-v)).addLe(toLin(a).neg().plus(v))
		}
	}
	return f
}

// shrValue: value of a shifted term, when the facts leave only one.
func (f *Facts) shrValue(a *Term) (int64, bool) {
	lo, hi := f.bounds(toLin(a.args[0]))
	if lo > negInf && hi < posInf && lo>>uint(a.k) == hi>>uint(a.k) {
		return lo >> uint(a.k), true
	}
	if a.k < 62 {
		v := int64(0)
		if lo > negInf {
			v = lo >> uint(a.k)
		} else if !f.proveLe(tInt(0), a.args[0]) {
			return 0, false
		}
		if v >= 0 && v < 1<<40>>uint(a.k) && f.proveLt(a.args[0], tInt((v+1)<<uint(a.k))) {
			return v, true
		}
	}
	return 0, false
}

// pin replaces shifted terms of an integer by their only possible value.
func (f *Facts) pin(t *Term) *Term {
	if t.op != OLin && t.op != OShr {
		return t
	}
	l := toLin(t)
	has := false
	for _, a := range l.at {
		if a.op == OShr {
			has = true
		}
	}
	if !has {
		return t
	}
	r := Lin{c: l.c}
	for i, a := range l.at {
		b := a
		if a.op == OShr {
			x := f.pin(a.args[0])
			if x != a.args[0] {
				b = tShr(x, a.k)
			}
			if b.op == OShr {
				if v, ok := f.shrValue(b); ok {
					b = tInt(v)
				}
			}
		}
		r = r.add(toLin(b).scale(l.co[i]))
	}
	return fromLin(r)
}

// clash: some linear fact contradicts the others.
func (f *Facts) clash() bool {
	for _, l := range f.les {
		if f.le0(l.neg().plus(1)) {
			return true
		}
	}
	return false
}
