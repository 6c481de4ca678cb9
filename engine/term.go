package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Op is the operator of a Term.
type Op uint8

const (
	OConst Op = iota // val
	OVar             // name
	OUF              // name(args[0]): uninterpreted byte function of a 64-bit index
	OLin             // val + sum(coef[i]*args[i]), canonical
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	ONot
	OExtract // low w bits
	OZext
	OSext
	OEq
	OUlt
	OSlt
	OBAnd
	OBOr
	OBNot
	OIte
	OFToFP // signed bv -> float64
	OFToFPU
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
)

// FP is the pseudo width of float64 terms.
const FP = -64

// Term is a hash-consed SMT term.  w is 0 for Bool, FP for float64, else the
// bit-vector width.
type Term struct {
	op      Op
	w       int
	id      int
	args    []*Term
	coef    []uint64
	val     uint64
	name    string
	emitted int // generation of the solver process that knows it
	leaf    *leafInfo
}

type leafInfo struct {
	vars []*Term
	ufs  []*Term
}

// Terms owns a hash-consing table; one per worker.
type Terms struct {
	tab    map[string]*Term
	next   int
	tTrue  *Term
	tFalse *Term
}

func NewTerms() *Terms {
	ts := &Terms{tab: make(map[string]*Term)}
	ts.tTrue = ts.mk(OConst, 0, nil, nil, 1, "")
	ts.tFalse = ts.mk(OConst, 0, nil, nil, 0, "")
	return ts
}

func mask(w int) uint64 {
	if w >= 64 || w == FP {
		return math.MaxUint64
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << uint(w)) - 1
}

func (ts *Terms) mk(op Op, w int, args []*Term, coef []uint64, val uint64, name string) *Term {
	var kb [128]byte
	k := kb[:0]
	k = append(k, byte(op), byte(w+100))
	k = strconv.AppendUint(k, val, 36)
	for i, a := range args {
		k = append(k, ' ')
		k = strconv.AppendInt(k, int64(a.id), 36)
		if coef != nil {
			k = append(k, '*')
			k = strconv.AppendUint(k, coef[i], 36)
		}
	}
	if name != "" {
		k = append(k, '$')
		k = append(k, name...)
	}
	if t, ok := ts.tab[string(k)]; ok {
		return t
	}
	t := &Term{op: op, w: w, id: ts.next, args: args, coef: coef, val: val, name: name}
	ts.next++
	ts.tab[string(k)] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.tTrue
	}
	return ts.tFalse
}

func (ts *Terms) BV(w int, v uint64) *Term {
	return ts.mk(OConst, w, nil, nil, v&mask(w), "")
}

func (ts *Terms) Int(v int64) *Term { return ts.BV(64, uint64(v)) }

func (ts *Terms) Float(f float64) *Term {
	return ts.mk(OConst, FP, nil, nil, math.Float64bits(f), "")
}

func (ts *Terms) Var(name string, w int) *Term { return ts.mk(OVar, w, nil, nil, 0, name) }

func (ts *Terms) UF(name string, idx *Term) *Term {
	return ts.mk(OUF, 8, []*Term{idx}, nil, 0, name)
}

// sval interprets a constant as signed.
func (t *Term) sval() int64 { return signed(t.val, t.w) }

func signed(v uint64, w int) int64 {
	if w >= 64 || w <= 0 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

// --- linear arithmetic ---

func linParts(t *Term) (atoms []*Term, coef []uint64, c uint64) {
	switch t.op {
	case OConst:
		return nil, nil, t.val
	case OLin:
		return t.args, t.coef, t.val
	}
	return []*Term{t}, []uint64{1}, 0
}

func (ts *Terms) mkLin(w int, atoms []*Term, coef []uint64, c uint64) *Term {
	c &= mask(w)
	if len(atoms) == 0 {
		return ts.BV(w, c)
	}
	if len(atoms) == 1 && coef[0] == 1 && c == 0 {
		return atoms[0]
	}
	return ts.mk(OLin, w, atoms, coef, c, "")
}

// lincomb returns a + k*b.
func (ts *Terms) lincomb(a, b *Term, k uint64) *Term {
	w := a.w
	if w != b.w {
		panic(fmt.Sprintf("lincomb width mismatch %d %d", a.w, b.w))
	}
	m := mask(w)
	if a.isConst() && b.isConst() {
		return ts.BV(w, a.val+k*b.val)
	}
	aa, ac, a0 := linParts(a)
	ba, bc, b0 := linParts(b)
	atoms := make([]*Term, 0, len(aa)+len(ba))
	coef := make([]uint64, 0, len(aa)+len(ba))
	i, j := 0, 0
	for i < len(aa) || j < len(ba) {
		switch {
		case j >= len(ba) || (i < len(aa) && aa[i].id < ba[j].id):
			atoms = append(atoms, aa[i])
			coef = append(coef, ac[i])
			i++
		case i >= len(aa) || ba[j].id < aa[i].id:
			if x := (bc[j] * k) & m; x != 0 {
				atoms = append(atoms, ba[j])
				coef = append(coef, x)
			}
			j++
		default:
			if x := (ac[i] + bc[j]*k) & m; x != 0 {
				atoms = append(atoms, aa[i])
				coef = append(coef, x)
			}
			i++
			j++
		}
	}
	return ts.mkLin(w, atoms, coef, a0+b0*k)
}

func (ts *Terms) Add(a, b *Term) *Term { return ts.lincomb(a, b, 1) }
func (ts *Terms) Sub(a, b *Term) *Term { return ts.lincomb(a, b, ^uint64(0)) }
func (ts *Terms) Neg(a *Term) *Term    { return ts.lincomb(ts.BV(a.w, 0), a, ^uint64(0)) }

func (ts *Terms) Mul(a, b *Term) *Term {
	if a.isConst() {
		return ts.lincomb(ts.BV(a.w, 0), b, a.val)
	}
	if b.isConst() {
		return ts.lincomb(ts.BV(a.w, 0), a, b.val)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OMul, a.w, []*Term{a, b}, nil, 0, "")
}

// Bin builds the remaining bit-vector operators.
func (ts *Terms) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return ts.BV(w, evalBin(op, w, a.val, b.val))
	}
	switch op {
	case OAnd:
		if a == b {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		}
	case OOr:
		if a == b {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
	case OXor:
		if a == b {
			return ts.BV(w, 0)
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) && op != OAshr {
				return ts.BV(w, 0)
			}
			if op == OShl {
				return ts.Mul(a, ts.BV(w, 1<<b.val))
			}
		}
	case OUDiv, OSDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
	}
	return ts.mk(op, w, []*Term{a, b}, nil, 0, "")
}

func evalBin(op Op, w int, x, y uint64) uint64 {
	m := mask(w)
	sx, sy := signed(x, w), signed(y, w)
	switch op {
	case OMul:
		return x * y & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSRem:
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w - 1)
		}
		return uint64(sx>>y) & m
	}
	panic("evalBin")
}

func (ts *Terms) NotBV(a *Term) *Term {
	// ^a == -a-1
	return ts.Sub(ts.BV(a.w, mask(a.w)), a)
}

func (ts *Terms) Extract(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return ts.BV(w, a.val)
	}
	if (a.op == OZext || a.op == OSext) && a.args[0].w == w {
		return a.args[0]
	}
	if (a.op == OZext || a.op == OSext) && a.args[0].w > w {
		return ts.Extract(a.args[0], w)
	}
	return ts.mk(OExtract, w, []*Term{a}, nil, 0, "")
}

func (ts *Terms) Zext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return ts.BV(w, a.val)
	}
	if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return ts.Ite(a.args[0], ts.Zext(a.args[1], w), ts.Zext(a.args[2], w))
	}
	return ts.mk(OZext, w, []*Term{a}, nil, 0, "")
}

func (ts *Terms) Sext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return ts.BV(w, uint64(a.sval()))
	}
	return ts.mk(OSext, w, []*Term{a}, nil, 0, "")
}

// --- booleans ---

func (ts *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return ts.Bool(a.val == 0)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return ts.mk(OBNot, 0, []*Term{a}, nil, 0, "")
}

func (ts *Terms) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if ts.Not(a) == b {
		return ts.tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OBAnd, 0, []*Term{a, b}, nil, 0, "")
}

func (ts *Terms) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if ts.Not(a) == b {
		return ts.tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OBOr, 0, []*Term{a, b}, nil, 0, "")
}

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		// bool ite
		return ts.Or(ts.And(c, a), ts.And(ts.Not(c), b))
	}
	if c.op == OBNot {
		c, a, b = c.args[0], b, a
	}
	return ts.mk(OIte, a.w, []*Term{c, a, b}, nil, 0, "")
}

// byteRange bounds a byte, closely for decimal digits.
func byteRange(t *Term, depth int) (lo, hi uint64) {
	switch {
	case t.isConst():
		return t.val, t.val
	case t.op == OIte && depth > 0:
		l1, h1 := byteRange(t.args[1], depth-1)
		l2, h2 := byteRange(t.args[2], depth-1)
		if l2 < l1 {
			l1 = l2
		}
		if h2 > h1 {
			h1 = h2
		}
		return l1, h1
	case t.op == OExtract && t.args[0].op == OURem && t.args[0].args[1].isConst():
		if m := t.args[0].args[1].val; m > 0 && m <= 256 {
			return 0, m - 1
		}
	case t.op == OLin && len(t.args) == 1 && t.coef[0] == 1:
		lo, hi = byteRange(t.args[0], depth)
		if lo += t.val; hi+t.val <= 255 {
			return lo, hi + t.val
		}
	}
	return 0, 255
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b && a.w != FP {
		return ts.tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val != 0 {
				return a
			}
			return ts.Not(a)
		}
		if ts.Not(a) == b {
			return ts.tFalse
		}
		if a.id > b.id {
			a, b = b, a
		}
		return ts.mk(OEq, 0, []*Term{a, b}, nil, 0, "")
	}
	if a.isConst() && b.isConst() {
		return ts.Bool(a.val == b.val)
	}
	// zero/sign extension against constant
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && a.w == 8 {
		if lo, hi := byteRange(a, 4); b.val < lo || b.val > hi {
			return ts.tFalse
		}
	}
	if b.isConst() && a.op == OZext {
		if b.val > mask(a.args[0].w) {
			return ts.tFalse
		}
		return ts.Eq(a.args[0], ts.BV(a.args[0].w, b.val))
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return ts.Eq(a.args[0], b.args[0])
	}
	d := ts.Sub(a, b)
	if d.isConst() {
		return ts.Bool(d.val == 0)
	}
	atoms, coef, c := linParts(d)
	if signed(coef[0], a.w) < 0 {
		nc := make([]uint64, len(coef))
		for i := range coef {
			nc[i] = -coef[i] & mask(a.w)
		}
		coef = nc
		c = -c
	}
	// split into two sides: positive coefs left, negative right
	var la, ra []*Term
	var lc, rc []uint64
	for i, at := range atoms {
		if signed(coef[i], a.w) > 0 {
			la = append(la, at)
			lc = append(lc, coef[i])
		} else {
			ra = append(ra, at)
			rc = append(rc, -coef[i]&mask(a.w))
		}
	}
	l := ts.mkLin(a.w, la, lc, 0)
	r := ts.mkLin(a.w, ra, rc, -c)
	if b.isConst() && l.op == OIte && l.args[1].isConst() && l.args[2].isConst() && r.isConst() {
		return ts.Ite(l.args[0], ts.Bool(l.args[1].val == r.val), ts.Bool(l.args[2].val == r.val))
	}
	if l.op == OExtract && r.op == OExtract && l.args[0].w == r.args[0].w && small(l.args[0], l.w) && small(r.args[0], l.w) {
		return ts.Eq(l.args[0], r.args[0])
	}
	return ts.mk(OEq, 0, []*Term{l, r}, nil, 0, "")
}

// small reports whether t is a remainder that fits into w bits.
func small(t *Term, w int) bool {
	return t.op == OURem && t.args[1].isConst() && t.args[1].val > 0 && t.args[1].val-1 <= mask(w)
}

func (ts *Terms) Ult(a, b *Term) *Term {
	if a == b {
		return ts.tFalse
	}
	if a.isConst() && b.isConst() {
		return ts.Bool(a.val < b.val)
	}
	if b.isConst() && b.val == 0 {
		return ts.tFalse
	}
	if b.isConst() && b.val == 1 {
		return ts.Eq(a, ts.BV(a.w, 0))
	}
	if a.isConst() && a.val == mask(a.w) {
		return ts.tFalse
	}
	if a.op == OZext && b.isConst() {
		in := a.args[0]
		if b.val > mask(in.w) {
			return ts.tTrue
		}
		return ts.Ult(in, ts.BV(in.w, b.val))
	}
	if b.op == OZext && a.isConst() {
		in := b.args[0]
		if a.val >= mask(in.w) {
			return ts.tFalse
		}
		return ts.Ult(ts.BV(in.w, a.val), in)
	}
	return ts.mk(OUlt, 0, []*Term{a, b}, nil, 0, "")
}

func (ts *Terms) Ule(a, b *Term) *Term { return ts.Not(ts.Ult(b, a)) }

func (ts *Terms) Slt(a, b *Term) *Term {
	if a == b {
		return ts.tFalse
	}
	if a.isConst() && b.isConst() {
		return ts.Bool(a.sval() < b.sval())
	}
	if a.op == OZext && b.isConst() {
		if b.sval() <= 0 {
			return ts.tFalse
		}
		return ts.Ult(a, b)
	}
	if b.op == OZext && a.isConst() {
		if a.sval() < 0 {
			return ts.tTrue
		}
		return ts.Ult(a, b)
	}
	return ts.mk(OSlt, 0, []*Term{a, b}, nil, 0, "")
}

func (ts *Terms) Sle(a, b *Term) *Term { return ts.Not(ts.Slt(b, a)) }

// --- floats ---

func fl(t *Term) float64 { return math.Float64frombits(t.val) }

func (ts *Terms) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fl(a), fl(b)
		switch op {
		case OFAdd:
			return ts.Float(x + y)
		case OFSub:
			return ts.Float(x - y)
		case OFMul:
			return ts.Float(x * y)
		case OFDiv:
			return ts.Float(x / y)
		case OFEq:
			return ts.Bool(x == y)
		case OFLt:
			return ts.Bool(x < y)
		case OFLe:
			return ts.Bool(x <= y)
		}
	}
	if op == OFAdd {
		// 0 + float(x) = float(x), which is never -0
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() && a.val == 0 && (b.op == OFToFP || b.op == OFToFPU) {
			return b
		}
	}
	if (op == OFEq || op == OFLe) && a == b && finite(a, 8) {
		return ts.tTrue
	}
	// the sign of a converted integer, also divided by a moderate constant
	if op == OFLt || op == OFLe {
		if x := signOf(a); x != nil && b.isConst() && b.val == 0 {
			if op == OFLt {
				return ts.Slt(x, ts.Int(0))
			}
			return ts.Sle(x, ts.Int(0))
		}
		if x := signOf(b); x != nil && a.isConst() && a.val == 0 {
			if op == OFLt {
				return ts.Slt(ts.Int(0), x)
			}
			return ts.Sle(ts.Int(0), x)
		}
	}
	w := FP
	if op == OFEq || op == OFLt || op == OFLe {
		w = 0
	}
	return ts.mk(op, w, []*Term{a, b}, nil, 0, "")
}

// finite reports whether t is certainly neither infinite nor not-a-number.
func finite(t *Term, depth int) bool {
	switch t.op {
	case OFToFP, OFToFPU:
		return true
	case OFAdd:
		return depth > 0 && finite(t.args[0], depth-1) && finite(t.args[1], depth-1)
	}
	return t.isConst() && math.Abs(fl(t)) < 1e300
}

// signOf returns a signed 64-bit integer that has the sign of t, or nil.
func signOf(t *Term) *Term {
	if t.op == OFDiv && t.args[1].isConst() {
		if c := fl(t.args[1]); c >= 1 && c < 1e100 {
			t = t.args[0]
		}
	}
	if t.op == OFToFP && t.args[0].w == 64 {
		return t.args[0]
	}
	return nil
}

func (ts *Terms) FNeg(a *Term) *Term {
	if a.isConst() {
		return ts.Float(-fl(a))
	}
	return ts.mk(OFNeg, FP, []*Term{a}, nil, 0, "")
}

func (ts *Terms) ToFP(a *Term, isSigned bool) *Term {
	if a.isConst() {
		if isSigned {
			return ts.Float(float64(a.sval()))
		}
		return ts.Float(float64(a.val))
	}
	if isSigned {
		return ts.mk(OFToFP, FP, []*Term{a}, nil, 0, "")
	}
	return ts.mk(OFToFPU, FP, []*Term{a}, nil, 0, "")
}

// --- leaves ---

func (ts *Terms) leaves(t *Term) *leafInfo {
	if t.leaf != nil {
		return t.leaf
	}
	vs := map[*Term]bool{}
	us := map[*Term]bool{}
	switch t.op {
	case OVar:
		vs[t] = true
	case OUF:
		us[t] = true
	}
	for _, a := range t.args {
		l := ts.leaves(a)
		for _, v := range l.vars {
			vs[v] = true
		}
		for _, u := range l.ufs {
			us[u] = true
		}
	}
	li := &leafInfo{}
	for v := range vs {
		li.vars = append(li.vars, v)
	}
	for u := range us {
		li.ufs = append(li.ufs, u)
	}
	sort.Slice(li.vars, func(i, j int) bool { return li.vars[i].id < li.vars[j].id })
	sort.Slice(li.ufs, func(i, j int) bool { return li.ufs[i].id < li.ufs[j].id })
	t.leaf = li
	return li
}

// --- evaluation ---

// Model assigns values to variables and to points of byte functions.
type Model struct {
	vars map[string]uint64
	ufs  map[string]map[uint64]uint64
}

func newModel() *Model {
	return &Model{vars: map[string]uint64{}, ufs: map[string]map[uint64]uint64{}}
}

func (m *Model) clone() *Model {
	n := newModel()
	for k, v := range m.vars {
		n.vars[k] = v
	}
	for k, v := range m.ufs {
		mm := make(map[uint64]uint64, len(v))
		for a, b := range v {
			mm[a] = b
		}
		n.ufs[k] = mm
	}
	return n
}

type evaluator struct {
	m    *Model
	memo map[*Term]uint64
}

// eval evaluates t; variables without a value are fixed to 0 (they are
// unconstrained so far) and recorded in the model.
func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if v, ok := e.m.vars[t.name]; ok {
			return v
		}
		e.m.vars[t.name] = 0
		return 0
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.eval1(t)
	e.memo[t] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) eval1(t *Term) uint64 {
	switch t.op {
	case OUF:
		i := e.eval(t.args[0])
		mm := e.m.ufs[t.name]
		if mm == nil {
			mm = map[uint64]uint64{}
			e.m.ufs[t.name] = mm
		}
		if v, ok := mm[i]; ok {
			return v
		}
		mm[i] = 0
		return 0
	case OLin:
		s := t.val
		for i, a := range t.args {
			s += t.coef[i] * e.eval(a)
		}
		return s & mask(t.w)
	case OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLshr, OAshr:
		return evalBin(t.op, t.w, e.eval(t.args[0]), e.eval(t.args[1]))
	case OExtract:
		return e.eval(t.args[0]) & mask(t.w)
	case OZext:
		return e.eval(t.args[0])
	case OSext:
		return uint64(signed(e.eval(t.args[0]), t.args[0].w)) & mask(t.w)
	case OEq:
		return b2u(e.eval(t.args[0]) == e.eval(t.args[1]))
	case OUlt:
		return b2u(e.eval(t.args[0]) < e.eval(t.args[1]))
	case OSlt:
		w := t.args[0].w
		return b2u(signed(e.eval(t.args[0]), w) < signed(e.eval(t.args[1]), w))
	case OBAnd:
		return e.eval(t.args[0]) & e.eval(t.args[1])
	case OBOr:
		return e.eval(t.args[0]) | e.eval(t.args[1])
	case OBNot:
		return 1 - e.eval(t.args[0])
	case OIte:
		if e.eval(t.args[0]) != 0 {
			return e.eval(t.args[1])
		}
		return e.eval(t.args[2])
	case OFToFP:
		return math.Float64bits(float64(signed(e.eval(t.args[0]), t.args[0].w)))
	case OFToFPU:
		return math.Float64bits(float64(e.eval(t.args[0])))
	}
	f := func(i int) float64 { return math.Float64frombits(e.eval(t.args[i])) }
	switch t.op {
	case OFAdd:
		return math.Float64bits(f(0) + f(1))
	case OFSub:
		return math.Float64bits(f(0) - f(1))
	case OFMul:
		return math.Float64bits(f(0) * f(1))
	case OFDiv:
		return math.Float64bits(f(0) / f(1))
	case OFNeg:
		return math.Float64bits(-f(0))
	case OFEq:
		return b2u(f(0) == f(1))
	case OFLt:
		return b2u(f(0) < f(1))
	case OFLe:
		return b2u(f(0) <= f(1))
	}
	panic(fmt.Sprintf("eval op %d", t.op))
}

// --- printing ---

func sortName(w int) string {
	switch w {
	case 0:
		return "Bool"
	case FP:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constText(t *Term) string {
	switch t.w {
	case 0:
		if t.val != 0 {
			return "true"
		}
		return "false"
	case FP:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", t.w/4, t.val)
	}
	return fmt.Sprintf("#b%0*b", t.w, t.val)
}

var opNames = map[Op]string{
	OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OEq: "=", OUlt: "bvult", OSlt: "bvslt", OBAnd: "and", OBOr: "or", OBNot: "not", OIte: "ite",
	OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFNeg: "fp.neg",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE",
}

// body text of a term given the reference text of its arguments
func bodyText(t *Term, ref func(*Term) string) string {
	switch t.op {
	case OUF:
		return fmt.Sprintf("(|%s| %s)", t.name, ref(t.args[0]))
	case OLin:
		var parts []string
		for i, a := range t.args {
			switch {
			case t.coef[i] == 1:
				parts = append(parts, ref(a))
			case t.coef[i] == mask(t.w):
				parts = append(parts, "(bvneg "+ref(a)+")")
			default:
				parts = append(parts, fmt.Sprintf("(bvmul %s %s)", constText(&Term{w: t.w, val: t.coef[i]}), ref(a)))
			}
		}
		if t.val != 0 {
			parts = append(parts, constText(&Term{w: t.w, val: t.val}))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		s := parts[0]
		for _, p := range parts[1:] {
			s = "(bvadd " + s + " " + p + ")"
		}
		return s
	case OExtract:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, ref(t.args[0]))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	case OFToFP:
		return fmt.Sprintf("((_ to_fp 11 53) RNE %s)", ref(t.args[0]))
	case OFToFPU:
		return fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", ref(t.args[0]))
	}
	n, ok := opNames[t.op]
	if !ok {
		panic(fmt.Sprintf("print op %d", t.op))
	}
	var sb strings.Builder
	sb.WriteString("(" + n)
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(ref(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return constText(t)
		}
		if t.w == FP {
			return fmt.Sprint(fl(t))
		}
		return strconv.FormatInt(t.sval(), 10)
	case OVar:
		return t.name
	}
	return bodyText(t, func(a *Term) string { return a.String() })
}
