package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is the dynamic value of an SSA register:
//
//	*Term      bool, integer, float64
//	*Str       string
//	*Cell      pointer to a variable (nil *Cell is the nil pointer)
//	*BytePtr   pointer into a byte store
//	*Slice     slice
//	*MapV      map (nil pointer: nil map)
//	Iface      interface
//	*FuncV     function value (nil pointer: nil func)
//	*StructV   struct value
//	*ArrV      array value (non-byte elements)
//	*BArrV     array value of bytes
//	Tuple      multiple results
//	*ChanV     channel
//	*Opaque    anything the engine only passes around
type Value interface{}

type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type FuncV struct {
	fn      *ssa.Function
	env     []Value
	builtin *ssa.Builtin
	native  func(st *State, th *Thread, args []Value) Value
}

type StructV struct{ f []Value }
type ArrV struct{ e []Value }
type BArrV struct {
	c Content
	n int64
}
type Opaque struct{ name string }
type ChanV struct {
	id     int
	buf    []Value
	cap    int
	closed bool
}

// Cell is an addressable variable.
type Cell struct {
	t   types.Type
	v   Value      // leaf
	sub []*Cell    // struct fields / array elements
	bs  *ByteStore // array of bytes
	acc *access    // race bookkeeping
	id  int
}

// ByteStore is the backing memory of a byte array.
type ByteStore struct {
	c    Content
	size *Term // number of bytes
	acc  *access
	id   int
}

type BytePtr struct {
	s   *ByteStore
	idx *Term
}

// Slice is a slice value: of bytes (bs) or of cells.
type Slice struct {
	isNil bool
	// byte slices
	bs              *ByteStore
	off, len_, cap_ *Term
	// others
	cells   []*Cell // backing array from the slice's own start to its capacity
	n       int     // length; cap is len(cells)
	isBytes bool
}

type mapEntry struct {
	k, v Value
}

type MapV struct {
	t       *types.Map
	entries []*mapEntry
	acc     *access
	id      int
}

// Str is a string: n bytes of content c from off.
type Str struct {
	c   Content
	off *Term
	n   *Term
	max int // upper bound of the length, -1 unknown
}

// Content is an immutable infinite byte sequence.
type Content interface{ isContent() }

type cZero struct{}
type cLit struct{ s string }
type cVar struct{ name string }
type cWrite struct {
	below Content
	idx   *Term
	val   *Term
}
type cCopy struct {
	below  Content
	dst, n *Term
	src    Content
	srcOff *Term
}
type cConcat struct{ segs []*Str } // each segment a view; consecutive
type cItoa struct{ t, n *Term }    // decimal digits (n of them) of a signed 64-bit value

func (*cZero) isContent()   {}
func (*cLit) isContent()    {}
func (*cVar) isContent()    {}
func (*cWrite) isContent()  {}
func (*cCopy) isContent()   {}
func (*cConcat) isContent() {}
func (*cItoa) isContent()   {}

var zeroContent = &cZero{}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func intWidth(t types.Type) (w int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic(fmt.Sprintf("deref of %v", t))
}

// zero returns the zero value of t.
func (st *State) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(t); ok {
			return st.ts.BV(w, 0)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return st.ts.tFalse
		case u.Info()&types.IsString != 0:
			return st.lit("")
		case u.Info()&types.IsFloat != 0:
			return st.ts.Float(0)
		case u.Kind() == types.UnsafePointer:
			return (*Cell)(nil)
		case u.Info()&types.IsComplex != 0:
			return &Opaque{"complex"}
		case u.Kind() == types.UntypedNil:
			return (*Cell)(nil)
		}
	case *types.Pointer:
		return (*Cell)(nil)
	case *types.Slice:
		return st.nilSlice(u.Elem())
	case *types.Map:
		return (*MapV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = st.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if isByteType(u.Elem()) {
			return &BArrV{zeroContent, u.Len()}
		}
		a := &ArrV{e: make([]Value, u.Len())}
		for i := range a.e {
			a.e[i] = st.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = st.zero(u.At(i).Type())
		}
		return tp
	}
	st.unsupported("zero of %v", t)
	return nil
}

func (st *State) nilSlice(elem types.Type) *Slice {
	s := &Slice{isNil: true}
	if isByteType(elem) {
		s.isBytes = true
		z := st.ts.Int(0)
		s.off, s.len_, s.cap_ = z, z, z
		s.bs = st.newStore(zeroContent, z)
	}
	return s
}

func (st *State) newStore(c Content, size *Term) *ByteStore {
	st.nextID++
	return &ByteStore{c: c, size: size, id: st.nextID}
}

// newCell allocates a zeroed variable of type t.
func (st *State) newCell(t types.Type) *Cell {
	st.nextID++
	c := &Cell{t: t, id: st.nextID}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		c.sub = make([]*Cell, u.NumFields())
		for i := range c.sub {
			c.sub[i] = st.newCell(u.Field(i).Type())
		}
	case *types.Array:
		if isByteType(u.Elem()) {
			c.bs = st.newStore(zeroContent, st.ts.Int(u.Len()))
			break
		}
		if u.Len() > 100000 {
			st.unsupported("array of %d", u.Len())
		}
		c.sub = make([]*Cell, u.Len())
		for i := range c.sub {
			c.sub[i] = st.newCell(u.Elem())
		}
	default:
		c.v = st.zero(t)
	}
	return c
}

func (st *State) load(c *Cell) Value {
	if c.bs != nil {
		st.touchStore(c.bs, false)
		return &BArrV{c.bs.c, int64(c.bs.size.val)}
	}
	if c.sub != nil || isAggregate(c.t) {
		vs := make([]Value, len(c.sub))
		for i, s := range c.sub {
			vs[i] = st.load(s)
		}
		if _, ok := c.t.Underlying().(*types.Array); ok {
			return &ArrV{vs}
		}
		return &StructV{vs}
	}
	st.touchCell(c, false)
	return c.v
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (st *State) store(c *Cell, v Value) {
	if c.bs != nil {
		st.touchStore(c.bs, true)
		c.bs.c = v.(*BArrV).c
		return
	}
	if c.sub != nil || isAggregate(c.t) {
		switch x := v.(type) {
		case *StructV:
			for i, s := range c.sub {
				st.store(s, x.f[i])
			}
		case *ArrV:
			for i, s := range c.sub {
				st.store(s, x.e[i])
			}
		default:
			st.unsupported("store of %T into aggregate %v", v, c.t)
		}
		return
	}
	st.touchCell(c, true)
	c.v = v
}

// --- strings ---

func (st *State) lit(s string) *Str {
	return &Str{c: &cLit{s}, off: st.ts.Int(0), n: st.ts.Int(int64(len(s))), max: len(s)}
}

// litOf returns the concrete text of s if it is concrete.
func (st *State) litOf(s *Str) (string, bool) {
	if !s.n.isConst() || !s.off.isConst() {
		return "", false
	}
	n, off := s.n.sval(), s.off.sval()
	if n == 0 {
		return "", true
	}
	if l, ok := s.c.(*cLit); ok {
		if off >= 0 && off+n <= int64(len(l.s)) {
			return l.s[off : off+n], true
		}
		return "", false
	}
	if n > 4096 {
		return "", false
	}
	b := make([]byte, n)
	for i := range b {
		t := st.read(s.c, st.ts.Int(off+int64(i)))
		if !t.isConst() {
			return "", false
		}
		b[i] = byte(t.val)
	}
	return string(b), true
}

func (st *State) mustLit(v Value, what string) string {
	s, ok := st.litOf(v.(*Str))
	if !ok {
		st.unsupported("%s needs a concrete string", what)
	}
	return s
}

type readKey struct {
	c   Content
	idx *Term
}

// read returns the byte of content c at idx as an 8-bit term.
func (st *State) read(c Content, idx *Term) *Term {
	switch x := c.(type) {
	case *cZero:
		return st.ts.BV(8, 0)
	case *cVar:
		return st.ts.UF(x.name, idx)
	case *cLit:
		if idx.isConst() {
			if idx.val < uint64(len(x.s)) {
				return st.ts.BV(8, uint64(x.s[idx.val]))
			}
			return st.ts.BV(8, 0)
		}
	}
	k := readKey{c, idx}
	if t, ok := st.readMemo[k]; ok {
		return t
	}
	t := st.read1(c, idx)
	st.readMemo[k] = t
	return t
}

func (st *State) read1(c Content, idx *Term) *Term {
	ts := st.ts
	switch x := c.(type) {
	case *cLit:
		runs := 0
		for i := range x.s {
			if i == 0 || x.s[i] != x.s[i-1] {
				runs++
			}
		}
		if 8*runs <= len(x.s) && runs <= 512 {
			// few runs of equal bytes
			r := ts.BV(8, 0)
			for i := len(x.s); i > 0; i-- {
				if i == len(x.s) || x.s[i] != x.s[i-1] {
					r = ts.Ite(ts.Ult(idx, ts.Int(int64(i))), ts.BV(8, uint64(x.s[i-1])), r)
				}
			}
			return r
		}
		if len(x.s) > 4096 {
			st.unsupported("symbolic index into literal of %d bytes", len(x.s))
		}
		r := ts.BV(8, 0)
		for i := len(x.s) - 1; i >= 0; i-- {
			r = ts.Ite(ts.Eq(idx, ts.Int(int64(i))), ts.BV(8, uint64(x.s[i])), r)
		}
		return r
	case *cWrite:
		eq := ts.Eq(idx, x.idx)
		if eq.isConst() {
			if eq.val != 0 {
				return x.val
			}
			return st.read(x.below, idx)
		}
		return ts.Ite(eq, x.val, st.read(x.below, idx))
	case *cCopy:
		rel := ts.Sub(idx, x.dst)
		in := ts.Ult(rel, x.n)
		if d, ok := st.decide(in); ok {
			if d {
				return st.read(x.src, ts.Add(rel, x.srcOff))
			}
			return st.read(x.below, idx)
		}
		return ts.Ite(in, st.read(x.src, ts.Add(rel, x.srcOff)), st.read(x.below, idx))
	case *cConcat:
		// cumulative offsets
		base := ts.Int(0)
		type part struct{ in, v *Term }
		var parts []part
		for _, s := range x.segs {
			rel := ts.Sub(idx, base)
			in := ts.Ult(rel, s.n)
			base = ts.Add(base, s.n)
			if d, ok := st.decide(in); ok {
				if !d {
					continue
				}
				v := st.read(s.c, ts.Add(rel, s.off))
				parts = append(parts, part{ts.tTrue, v})
				break
			}
			parts = append(parts, part{in, st.read(s.c, ts.Add(rel, s.off))})
		}
		r := ts.BV(8, 0)
		for i := len(parts) - 1; i >= 0; i-- {
			r = ts.Ite(parts[i].in, parts[i].v, r)
		}
		return r
	case *cItoa:
		return st.itoaDigit(x.t, idx)
	}
	panic(fmt.Sprintf("read %T", c))
}

// itoaParts are the sign and absolute value of t, as far as they are known.
func (st *State) itoaParts(t *Term) (neg, abs *Term) {
	ts := st.ts
	neg = st.settled(ts.Slt(t, ts.Int(0)))
	return neg, ts.Ite(neg, ts.Neg(t), t)
}

// settled is c, or the truth value the path already implies for it.
func (st *State) settled(c *Term) *Term {
	if d, ok := st.decide(c); ok {
		return st.ts.Bool(d)
	}
	return c
}

// itoaLen is the number of characters of the decimal form of t.
func (st *State) itoaLen(t *Term) *Term {
	ts := st.ts
	neg, abs := st.itoaParts(t)
	n := ts.Int(20)
	p := uint64(10)
	var pows []uint64
	for i := 1; i < 20; i++ {
		pows = append(pows, p)
		p *= 10
	}
	for i := len(pows) - 1; i >= 0; i-- {
		n = ts.Ite(st.settled(ts.Ult(abs, ts.BV(64, pows[i]))), ts.Int(int64(i+1)), n)
	}
	return ts.Add(n, ts.Ite(neg, ts.Int(1), ts.Int(0)))
}

func (st *State) itoaDigit(t, idx *Term) *Term {
	ts := st.ts
	neg, abs := st.itoaParts(t)
	n := st.itoaLen(t)
	r := ts.BV(8, '0')
	// digit at idx has weight 10^(n-1-idx)
	e := ts.Sub(ts.Sub(n, ts.Int(1)), idx)
	p := uint64(1)
	for i := 0; i < 20; i++ {
		d := ts.Bin(OURem, ts.Bin(OUDiv, abs, ts.BV(64, p)), ts.BV(64, 10))
		r = ts.Ite(ts.Eq(e, ts.Int(int64(i))), ts.Add(ts.Extract(d, 8), ts.BV(8, '0')), r)
		p *= 10
	}
	return ts.Ite(ts.And(neg, ts.Eq(idx, ts.Int(0))), ts.BV(8, '-'), r)
}

func (st *State) itoa(t *Term) *Str {
	if t.isConst() {
		return st.lit(fmt.Sprint(t.sval()))
	}
	n := st.itoaLen(t)
	return &Str{c: &cItoa{t, n}, off: st.ts.Int(0), n: n, max: 20}
}

// segments flattens a string into consecutive pieces.
func (st *State) segments(s *Str) []*Str {
	if s.n.isConst() && s.n.val == 0 {
		return nil
	}
	if cc, ok := s.c.(*cConcat); ok && s.off.isConst() && s.off.val == 0 {
		total := st.ts.Int(0)
		for _, x := range cc.segs {
			total = st.ts.Add(total, x.n)
		}
		if total == s.n {
			var out []*Str
			for _, x := range cc.segs {
				out = append(out, st.segments(x)...)
			}
			return out
		}
	}
	return []*Str{s}
}

func (st *State) concat(parts ...*Str) *Str {
	var segs []*Str
	for _, p := range parts {
		for _, s := range st.segments(p) {
			if len(segs) > 0 {
				l1, ok1 := st.litOf(segs[len(segs)-1])
				l2, ok2 := st.litOf(s)
				if ok1 && ok2 {
					segs[len(segs)-1] = st.lit(l1 + l2)
					continue
				}
			}
			segs = append(segs, s)
		}
	}
	if len(segs) == 0 {
		return st.lit("")
	}
	if len(segs) == 1 {
		return segs[0]
	}
	n := st.ts.Int(0)
	max := 0
	for _, s := range segs {
		n = st.ts.Add(n, s.n)
		if s.max < 0 || max < 0 {
			max = -1
		} else {
			max += s.max
		}
	}
	return &Str{c: &cConcat{segs}, off: st.ts.Int(0), n: n, max: max}
}

// strEq is the term "a == b".
func (st *State) strEq(a, b *Str) *Term {
	ts := st.ts
	la, oka := st.litOf(a)
	lb, okb := st.litOf(b)
	if oka && okb {
		return ts.Bool(la == lb)
	}
	if a.n.isConst() && b.n.isConst() && a.n.val != b.n.val {
		return ts.tFalse
	}
	sa, sb := st.segments(a), st.segments(b)
	res := ts.tTrue
	trimLit := func(s *Str, l string, from, to int) *Str { return st.lit(l[from:to]) }
	for len(sa) > 0 && len(sb) > 0 {
		// strip common prefix
		x, y := sa[0], sb[0]
		if x.n == y.n {
			e, ok := st.segEq(x, y)
			if ok {
				res = ts.And(res, e)
				if res.isConst() && res.val == 0 {
					return res
				}
				sa, sb = sa[1:], sb[1:]
				continue
			}
		}
		lx, okx := st.litOf(x)
		ly, oky := st.litOf(y)
		if okx && oky {
			k := len(lx)
			if len(ly) < k {
				k = len(ly)
			}
			if lx[:k] != ly[:k] {
				return ts.tFalse
			}
			sa = append([]*Str{trimLit(x, lx, k, len(lx))}, sa[1:]...)
			sb = append([]*Str{trimLit(y, ly, k, len(ly))}, sb[1:]...)
			sa, sb = dropEmpty(sa), dropEmpty(sb)
			continue
		}
		// strip common suffix
		x, y = sa[len(sa)-1], sb[len(sb)-1]
		if x.n == y.n && len(sa) > 1 && len(sb) > 1 {
			e, ok := st.segEq(x, y)
			if ok {
				res = ts.And(res, e)
				sa, sb = sa[:len(sa)-1], sb[:len(sb)-1]
				continue
			}
		}
		lx, okx = st.litOf(x)
		ly, oky = st.litOf(y)
		if okx && oky {
			k := len(lx)
			if len(ly) < k {
				k = len(ly)
			}
			if lx[len(lx)-k:] != ly[len(ly)-k:] {
				return ts.tFalse
			}
			sa = append(append([]*Str{}, sa[:len(sa)-1]...), trimLit(x, lx, 0, len(lx)-k))
			sb = append(append([]*Str{}, sb[:len(sb)-1]...), trimLit(y, ly, 0, len(ly)-k))
			sa, sb = dropEmpty(sa), dropEmpty(sb)
			continue
		}
		if len(sa) == 1 && len(sb) == 1 {
			ia, ok1 := sa[0].c.(*cItoa)
			ib, ok2 := sb[0].c.(*cItoa)
			if ok1 && ok2 && sa[0].n == ia.n && sb[0].n == ib.n {
				return ts.And(res, ts.Eq(ia.t, ib.t))
			}
		}
		// the remainder, byte by byte
		ra, rb := st.concatRaw(sa), st.concatRaw(sb)
		bound := ra.max
		if bound < 0 || (rb.max >= 0 && rb.max < bound) {
			bound = rb.max
		}
		if bound < 0 || bound > 200 {
			st.unsupported("comparison of strings without a small length bound (%d)", bound)
		}
		res = ts.And(res, ts.Eq(ra.n, rb.n))
		for i := 0; i < bound; i++ {
			if res.isConst() && res.val == 0 {
				return res
			}
			ii := ts.Int(int64(i))
			e := ts.Eq(st.read(ra.c, ts.Add(ra.off, ii)), st.read(rb.c, ts.Add(rb.off, ii)))
			res = ts.And(res, ts.Or(ts.Not(ts.Slt(ii, ra.n)), e))
		}
		return res
	}
	// one side exhausted: the other must have length 0
	rest := append(append([]*Str{}, sa...), sb...)
	for _, s := range rest {
		res = ts.And(res, ts.Eq(s.n, ts.Int(0)))
	}
	return res
}

func dropEmpty(s []*Str) []*Str {
	var out []*Str
	for _, x := range s {
		if x.n.isConst() && x.n.val == 0 {
			continue
		}
		out = append(out, x)
	}
	return out
}

func (st *State) concatRaw(s []*Str) *Str {
	return st.concat(s...)
}

// segEq compares two pieces of identical length when that is easy.
func (st *State) segEq(x, y *Str) (*Term, bool) {
	ts := st.ts
	if x.c == y.c && x.off == y.off {
		return ts.tTrue, true
	}
	if vx, ok := x.c.(*cVar); ok {
		if vy, ok := y.c.(*cVar); ok && vx.name == vy.name && x.off == y.off {
			return ts.tTrue, true
		}
	}
	if ia, ok := x.c.(*cItoa); ok {
		if ib, ok := y.c.(*cItoa); ok && ia.t == ib.t && x.off == y.off {
			return ts.tTrue, true
		}
	}
	if x.n.isConst() && x.n.val <= 200 {
		res := ts.tTrue
		for i := int64(0); i < x.n.sval(); i++ {
			res = ts.And(res, ts.Eq(st.read(x.c, ts.Add(x.off, ts.Int(i))), st.read(y.c, ts.Add(y.off, ts.Int(i)))))
			if res.isConst() && res.val == 0 {
				break
			}
		}
		return res, true
	}
	return nil, false
}

func showValue(st *State, v Value) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		s := x.String()
		if len(s) > 80 {
			s = s[:80] + "…"
		}
		return s
	case *Str:
		if l, ok := st.litOf(x); ok {
			return fmt.Sprintf("%q", l)
		}
		return "str(" + showValue(st, x.n) + ")"
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%v(%s)", x.t, showValue(st, x.v))
	case *StructV:
		var p []string
		for _, f := range x.f {
			p = append(p, showValue(st, f))
		}
		return "{" + strings.Join(p, ",") + "}"
	case *Cell:
		if x == nil {
			return "nil"
		}
		return fmt.Sprintf("&%d:%v", x.id, x.t)
	case *Slice:
		if x.isBytes {
			return fmt.Sprintf("bytes[%s]", showValue(st, x.len_))
		}
		return fmt.Sprintf("slice[%d]", x.n)
	}
	return fmt.Sprintf("%T", v)
}
