package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"
)

// Integer encoding of 64-bit terms.  A path starts out in this mode: 64-bit
// values are mathematical integers, which is exact as long as the interval
// facts of the path show that no sum wraps.  The first condition for which
// that cannot be shown makes the path fall back to bit-vectors.

type notInt struct{ why string }

func isort(w int) string {
	if w == 64 {
		return "Int"
	}
	return sortName(w)
}

func iconst(v int64) string {
	if v < 0 {
		if v == -1<<63 {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -v)
	}
	return fmt.Sprint(v)
}

// iref returns text denoting t in integer mode, defining it when needed.
func (s *Solver) iref(st *State, t *Term) string {
	if t.w != 64 {
		switch t.op {
		case OConst:
			return constText(t)
		}
	}
	switch t.op {
	case OConst:
		return iconst(t.sval())
	case OVar:
		if t.emitted != s.gen {
			if !s.declared[t.name] {
				s.declared[t.name] = true
				s.send(fmt.Sprintf("(declare-const |%s| %s)\n", t.name, isort(t.w)))
				if t.w == 64 {
					s.send(fmt.Sprintf("(assert (and (<= %s |%s|) (<= |%s| %s)))\n", iconst(-1<<63), t.name, t.name, iconst(1<<63-1)))
				}
			}
			t.emitted = s.gen
		}
		return "|" + t.name + "|"
	}
	if t.emitted != s.gen {
		txt := s.ibody(st, t)
		s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, isort(t.w), txt))
		t.emitted = s.gen
		s.nDefs++
	}
	return fmt.Sprintf("t%d", t.id)
}

// isum writes val + sum(coef*atom).
func (s *Solver) isum(st *State, atoms []*Term, coef []uint64, c int64) string {
	var parts []string
	for i, a := range atoms {
		k := int64(coef[i])
		r := s.iref(st, a)
		switch k {
		case 1:
			parts = append(parts, r)
		case -1:
			parts = append(parts, "(- "+r+")")
		default:
			parts = append(parts, "(* "+iconst(k)+" "+r+")")
		}
	}
	if c != 0 || len(parts) == 0 {
		parts = append(parts, iconst(c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func (s *Solver) ibody(st *State, t *Term) string {
	no := func(why string) { panic(notInt{why}) }
	nonneg := func(x *Term) {
		if iv, ok := st.interval(x); !ok || iv.lo < 0 {
			no("sign unknown")
		}
	}
	switch t.op {
	case OUF:
		if !s.declared[t.name] {
			s.declared[t.name] = true
			s.send(fmt.Sprintf("(declare-fun |%s| (Int) (_ BitVec 8))\n", t.name))
		}
		return fmt.Sprintf("(|%s| %s)", t.name, s.iref(st, t.args[0]))
	case OEq:
		a, b := t.args[0], t.args[1]
		if a.w == 64 {
			d := st.ts.Sub(a, b)
			atoms, coef, c := linParts(d)
			r, ok := st.linInterval(atoms, coef)
			if ok {
				_, o1 := addOv(r.lo, int64(c))
				_, o2 := addOv(r.hi, int64(c))
				ok = o1 && o2
			}
			if !ok {
				// the difference may wrap, the sides are compared as they are
				return "(= " + s.iref(st, a) + " " + s.iref(st, b) + ")"
			}
			return "(= " + s.isum(st, atoms, coef, int64(c)) + " 0)"
		}
		return "(= " + s.iref(st, a) + " " + s.iref(st, b) + ")"
	case OSlt:
		if t.args[0].w == 64 {
			return "(< " + s.iref(st, t.args[0]) + " " + s.iref(st, t.args[1]) + ")"
		}
	case OUlt:
		a, b := t.args[0], t.args[1]
		if a.w == 64 {
			x, y := s.iref(st, a), s.iref(st, b)
			ia, ok1 := st.interval(a)
			ib, ok2 := st.interval(b)
			switch {
			case ok1 && ok2 && ia.lo >= 0 && ib.lo >= 0:
				return "(< " + x + " " + y + ")"
			case ok2 && ib.lo >= 0:
				return "(and (<= 0 " + x + ") (< " + x + " " + y + "))"
			}
			return fmt.Sprintf("(ite (>= %s 0) (or (< %s 0) (< %s %s)) (and (< %s 0) (< %s %s)))", x, y, x, y, y, x, y)
		}
	case OBAnd, OBOr, OBNot, OIte:
		return bodyText(t, func(x *Term) string { return s.iref(st, x) })
	case OZext:
		if t.w == 64 {
			return "(bv2nat " + s.iref(st, t.args[0]) + ")"
		}
	case OSext:
		if t.w == 64 {
			x := s.iref(st, t.args[0])
			w := t.args[0].w
			return fmt.Sprintf("(ite (= ((_ extract %d %d) %s) #b1) (- (bv2nat %s) %d) (bv2nat %s))", w-1, w-1, x, x, uint64(1)<<uint(w), x)
		}
	case OExtract:
		if t.args[0].w == 64 {
			return fmt.Sprintf("((_ int2bv %d) %s)", t.w, s.iref(st, t.args[0]))
		}
	}
	if t.w == FP || t.op == OFEq || t.op == OFLt || t.op == OFLe {
		if t.op == OFToFP || t.op == OFToFPU {
			no("float conversion")
		}
		return bodyText(t, func(x *Term) string { return s.iref(st, x) })
	}
	if t.w != 64 && (len(t.args) == 0 || t.args[0].w != 64) {
		return bodyText(t, func(x *Term) string { return s.iref(st, x) })
	}
	switch t.op {
	case OLin:
		sum := s.isum(st, t.args, t.coef, int64(t.val))
		if _, ok := st.interval(t); ok {
			return sum
		}
		return s.wrap(st, t, sum)
	case OAnd:
		if c := t.args[1]; c.isConst() {
			v := c.val
			if v&(v+1) == 0 && v < 1<<62 {
				return fmt.Sprintf("(mod %s %d)", s.iref(st, t.args[0]), v+1)
			}
			if m := ^v; m&(m+1) == 0 && m < 1<<62 {
				x := s.iref(st, t.args[0])
				return fmt.Sprintf("(- %s (mod %s %d))", x, x, m+1)
			}
		}
	case OUDiv, OURem, OLshr, OSDiv, OSRem:
		c := t.args[1]
		if c.isConst() && c.sval() > 0 {
			k := c.sval()
			nonneg(t.args[0])
			x := s.iref(st, t.args[0])
			switch t.op {
			case OUDiv, OSDiv:
				return fmt.Sprintf("(div %s %d)", x, k)
			case OURem, OSRem:
				return fmt.Sprintf("(mod %s %d)", x, k)
			case OLshr:
				if k < 62 {
					return fmt.Sprintf("(div %s %d)", x, int64(1)<<uint(k))
				}
			}
		}
	}
	no(fmt.Sprintf("op %d", t.op))
	return ""
}

// wrap brings the mathematical sum of an OLin term into the range of int64.
func (s *Solver) wrap(st *State, t *Term, sum string) string {
	lo, hi := big.NewInt(int64(t.val)), big.NewInt(int64(t.val))
	for i, a := range t.args {
		iv, ok := st.interval(a)
		if !ok {
			iv.lo, iv.hi = math.MinInt64, math.MaxInt64
		}
		k := big.NewInt(int64(t.coef[i]))
		x := new(big.Int).Mul(k, big.NewInt(iv.lo))
		y := new(big.Int).Mul(k, big.NewInt(iv.hi))
		if x.Cmp(y) > 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	const two64 = "18446744073709551616"
	m := new(big.Int).Lsh(big.NewInt(1), 63)
	if hi.Cmp(new(big.Int).Mul(m, big.NewInt(3))) < 0 && lo.Cmp(new(big.Int).Mul(m, big.NewInt(-3))) >= 0 {
		// at most one turn either way
		name := fmt.Sprintf("s%d", t.id)
		s.send(fmt.Sprintf("(define-fun %s () Int %s)\n", name, sum))
		r := name
		if hi.Cmp(m) >= 0 {
			r = fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", name, m, name, two64, r)
		}
		if lo.Cmp(new(big.Int).Neg(m)) < 0 {
			r = fmt.Sprintf("(ite (< %s (- %s)) (+ %s %s) %s)", name, m, name, two64, r)
		}
		return r
	}
	return fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", sum, m, two64, m)
}

// tryIref is iref that reports failure.
func (s *Solver) tryIref(st *State, t *Term) (r string, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, isN := x.(notInt); isN {
				ok = false
				return
			}
			panic(x)
		}
	}()
	return s.iref(st, t), true
}

// toBV restarts the path's scope with bit-vectors.
func (s *Solver) toBV(st *State) {
	s.send("(pop 1)\n(push 1)\n")
	s.script.Reset()
	s.gen++
	s.declared = map[string]bool{}
	s.intMode = false
	s.stats.BVPaths++
	for _, c := range st.pc[:s.nAsserted] {
		s.send("(assert " + s.ref(c) + ")\n")
	}
}

// term returns text for t in the current mode, changing the mode if needed.
func (s *Solver) term(st *State, t *Term) string {
	if s.intMode {
		if r, ok := s.tryIref(st, t); ok {
			return r
		}
		s.toBV(st)
	}
	return s.ref(t)
}
