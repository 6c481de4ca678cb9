package main

import (
	"fmt"
	"go/types"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

type stopKind int

const (
	stopDone stopKind = iota
	stopAssume
	stopViolation
	stopUnsupported
	stopLimit
	stopPruned
)

func (k stopKind) String() string {
	return [...]string{"done", "assume", "violation", "unsupported", "limit", "pruned"}[k]
}

// pathStop ends the exploration of one path.
type pathStop struct {
	kind  stopKind
	msg   string
	label string
	model *Model
}

// abortThread unwinds interpreted threads of an ended path.
type abortThread struct{}

// Decision is one recorded choice of a path.
type Decision struct {
	kind byte   // 'b' branch, 'c' choose, 'v' value of a concretised term
	val  uint64 // side, alternative or value
	val2 bool   // for 'v': equal or different
}

// Work is an unexplored path prefix together with a model of its condition.
type Work struct {
	prefix []Decision
	model  *Model
}

// Input is one named input a harness asked for, in order.
type Input struct {
	Name string
	Term *Term
	W    int
}

// State is the state of one path.
type State struct {
	eng    *Engine
	w      *Worker
	ts     *Terms
	sol    *Solver
	h      *Harness
	prefix []Decision
	trace  []Decision
	model  *Model
	ev     *evaluator
	pc     []*Term
	pcVars map[*Term]bool
	pcUFs  map[*Term]bool
	known  map[*Term]bool
	iv     map[*Term]interval

	readMemo     map[readKey]*Term
	nextID       int
	globals      map[*ssa.Global]*Cell
	pkgInit      map[*ssa.Package]bool
	steps        int64
	reach        map[string]bool
	inputs       []Input
	names        map[string]int
	datas        map[string]bool
	chosen       map[string][]uint64
	observes     []Observation
	asserted     int
	mapOrder     bool
	usedMapOrder bool
	mustGrow     bool
	note         []string

	threads  []*Thread
	cur      *Thread
	multi    bool
	schedule []int
	stop     *pathStop
	mutexes  map[interface{}]*mutexState
	pools    map[*Cell][]pooled
	side     map[string]interface{}
	freshN   int
}

// Observation is a value the harness publishes, for comparison with the real
// run.
type Observation struct {
	Label string
	Val   *Term
	Str   *Str
}

func (st *State) unsupported(f string, args ...interface{}) {
	panic(&pathStop{kind: stopUnsupported, msg: fmt.Sprintf(f, args...)})
}

// --- facts about terms ---

type interval struct{ lo, hi int64 }

func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, !((a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0))
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = -ua
	}
	if b < 0 {
		ub = -ub
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > 1<<63-1 {
		return 0, false
	}
	r := int64(lo)
	if neg {
		r = -r
	}
	return r, true
}

// atomInterval bounds the signed value of t from its shape and learnt facts.
func (st *State) atomInterval(t *Term) (interval, bool) {
	r, ok := interval{}, false
	switch t.op {
	case OConst:
		return interval{t.sval(), t.sval()}, true
	case OZext:
		if t.args[0].w < 64 {
			r, ok = interval{0, int64(mask(t.args[0].w))}, true
			if b, bok := st.unsignedInterval(t.args[0]); bok {
				r = b
			}
		}
	case OIte:
		a, ok1 := st.interval(t.args[1])
		b, ok2 := st.interval(t.args[2])
		if ok1 && ok2 {
			r, ok = interval{min(a.lo, b.lo), max(a.hi, b.hi)}, true
		}
	case OAnd:
		if c := t.args[1]; c.isConst() && c.sval() >= 0 {
			r, ok = interval{0, c.sval()}, true
		} else if c.isConst() && c.sval() < 0 {
			// x & ^(2^k-1): rounds down
			m := ^c.sval()
			if a, aok := st.interval(t.args[0]); aok && a.lo >= 0 && m >= 0 && m&(m+1) == 0 {
				r, ok = interval{a.lo &^ m, a.hi &^ m}, true
			}
		}
	case OUDiv, OLshr:
		a, aok := st.interval(t.args[0])
		if aok && a.lo >= 0 && t.args[1].isConst() && t.args[1].sval() > 0 {
			k := t.args[1].sval()
			if t.op == OLshr {
				if k < 63 {
					r, ok = interval{a.lo >> uint(k), a.hi >> uint(k)}, true
				}
			} else {
				r, ok = interval{a.lo / k, a.hi / k}, true
			}
		}
	case OURem:
		if t.args[1].isConst() && t.args[1].sval() > 0 {
			r, ok = interval{0, t.args[1].sval() - 1}, true
		}
	}
	if f, fok := st.iv[t]; fok {
		if !ok {
			return f, true
		}
		return interval{max(r.lo, f.lo), min(r.hi, f.hi)}, true
	}
	if !ok && t.w < 64 && t.w > 0 {
		return interval{-1 << uint(t.w-1), 1<<uint(t.w-1) - 1}, true
	}
	return r, ok
}

func (st *State) unsignedInterval(t *Term) (interval, bool) {
	if t.isConst() {
		return interval{int64(t.val), int64(t.val)}, true
	}
	return interval{}, false
}

// interval bounds the signed value of t provided its linear form cannot wrap.
func (st *State) interval(t *Term) (interval, bool) {
	if t.op != OLin {
		return st.atomInterval(t)
	}
	if t.w != 64 {
		return interval{}, false
	}
	r, ok := st.linInterval(t.args, t.coef)
	if !ok {
		return r, false
	}
	c := int64(t.val)
	lo, ok1 := addOv(r.lo, c)
	hi, ok2 := addOv(r.hi, c)
	return interval{lo, hi}, ok1 && ok2
}

// linInterval bounds sum(coef*atom) as a mathematical integer.
func (st *State) linInterval(atoms []*Term, coef []uint64) (interval, bool) {
	lo, hi := int64(0), int64(0)
	ok := true
	for i, a := range atoms {
		b, bok := st.atomInterval(a)
		if !bok {
			return interval{}, false
		}
		k := int64(coef[i])
		x, ok1 := mulOv(b.lo, k)
		y, ok2 := mulOv(b.hi, k)
		if !ok1 || !ok2 {
			return interval{}, false
		}
		if x > y {
			x, y = y, x
		}
		lo, ok1 = addOv(lo, x)
		hi, ok2 = addOv(hi, y)
		if !ok1 || !ok2 {
			return interval{}, false
		}
	}
	if len(atoms) > 1 {
		if f, fok := st.iv[st.formKey(atoms, coef)]; fok {
			lo, hi = max(lo, f.lo), min(hi, f.hi)
		}
		if f, fok := st.iv[st.formKeyNeg(atoms, coef)]; fok {
			lo, hi = max(lo, -f.hi), min(hi, -f.lo)
		}
	}
	return interval{lo, hi}, ok
}

func (st *State) formKey(atoms []*Term, coef []uint64) *Term {
	return st.ts.mkLin(64, atoms, coef, 0)
}

func (st *State) formKeyNeg(atoms []*Term, coef []uint64) *Term {
	nc := make([]uint64, len(coef))
	for i := range coef {
		nc[i] = -coef[i]
	}
	return st.ts.mkLin(64, atoms, nc, 0)
}

// diff returns bounds on a-b as integers, and the atoms of the difference; ok
// only if neither a nor b can wrap.
func (st *State) diff(a, b *Term) (atoms []*Term, coef []uint64, c int64, r interval, ok bool) {
	if a.w != 64 {
		return
	}
	if _, o := st.interval(a); !o {
		return
	}
	if _, o := st.interval(b); !o {
		return
	}
	d := st.ts.Sub(a, b)
	atoms, coef, cc := linParts(d)
	c = int64(cc)
	r = interval{c, c}
	if len(atoms) > 0 {
		x, o := st.linInterval(atoms, coef)
		if !o {
			return
		}
		lo, o1 := addOv(x.lo, c)
		hi, o2 := addOv(x.hi, c)
		if !o1 || !o2 {
			return
		}
		r = interval{lo, hi}
	}
	ok = true
	return
}

// decide settles a condition from facts alone.
func (st *State) decide(c *Term) (bool, bool) {
	if c.isConst() {
		return c.val != 0, true
	}
	if v, ok := st.known[c]; ok {
		return v, true
	}
	switch c.op {
	case OBNot:
		v, ok := st.decide(c.args[0])
		return !v, ok
	case OBAnd:
		a, ok1 := st.decide(c.args[0])
		if ok1 && !a {
			return false, true
		}
		b, ok2 := st.decide(c.args[1])
		if ok2 && !b {
			return false, true
		}
		return true, ok1 && ok2
	case OBOr:
		a, ok1 := st.decide(c.args[0])
		if ok1 && a {
			return true, true
		}
		b, ok2 := st.decide(c.args[1])
		if ok2 && b {
			return true, true
		}
		return false, ok1 && ok2
	case OSlt:
		if _, _, _, r, ok := st.diff(c.args[0], c.args[1]); ok {
			if r.hi < 0 {
				return true, true
			}
			if r.lo >= 0 {
				return false, true
			}
		} else if x, ok1 := st.interval(c.args[0]); ok1 {
			if y, ok2 := st.interval(c.args[1]); ok2 {
				if x.hi < y.lo {
					return true, true
				}
				if x.lo >= y.hi {
					return false, true
				}
			}
		}
	case OUlt:
		a, b := c.args[0], c.args[1]
		if a.w != 64 {
			return false, false
		}
		ia, ok1 := st.interval(a)
		ib, ok2 := st.interval(b)
		if !ok1 || !ok2 {
			return false, false
		}
		if ia.lo >= 0 && ib.lo >= 0 {
			if ia.hi < ib.lo {
				return true, true
			}
			if ia.lo >= ib.hi {
				return false, true
			}
			if _, _, _, r, ok := st.diff(a, b); ok {
				if r.hi < 0 {
					return true, true
				}
				if r.lo >= 0 {
					return false, true
				}
			}
		}
		if ia.hi < 0 && ib.lo >= 0 {
			return false, true
		}
		if ia.lo >= 0 && ib.hi < 0 {
			return true, true
		}
	case OEq:
		if c.args[0].w == 64 {
			if _, _, _, r, ok := st.diff(c.args[0], c.args[1]); ok {
				if r.lo > 0 || r.hi < 0 {
					return false, true
				}
				if r.lo == 0 && r.hi == 0 {
					return true, true
				}
			}
		}
	}
	return false, false
}

func (st *State) narrow(t *Term, lo, hi int64) {
	if t.isConst() {
		return
	}
	cur, ok := st.iv[t]
	if !ok {
		cur = interval{-1 << 63, 1<<63 - 1}
		if a, aok := st.atomInterval(t); aok && t.op != OLin {
			cur = a
		}
	}
	n := interval{max(cur.lo, lo), min(cur.hi, hi)}
	st.iv[t] = n
}

// learnDiff records lo <= a-b <= hi.
func (st *State) learnDiff(a, b *Term, lo, hi int64) {
	atoms, coef, c, _, ok := st.diff(a, b)
	if !ok || len(atoms) == 0 {
		return
	}
	// lo - c <= sum <= hi - c
	l, ok1 := addOv(lo, -c)
	if lo == -1<<63 {
		l, ok1 = lo, true
	}
	h, ok2 := addOv(hi, -c)
	if hi == 1<<63-1 {
		h, ok2 = hi, true
	}
	if !ok1 || !ok2 {
		return
	}
	if len(atoms) == 1 {
		k := int64(coef[0])
		switch k {
		case 1:
			st.narrow(atoms[0], l, h)
		case -1:
			nl, nh := int64(-1<<63), int64(1<<63-1)
			if h != 1<<63-1 {
				nl = -h
			}
			if l != -1<<63 {
				nh = -l
			}
			st.narrow(atoms[0], nl, nh)
		}
		return
	}
	key := st.formKey(atoms, coef)
	cur, ok := st.iv[key]
	if !ok {
		cur = interval{-(1<<63 - 1), 1<<63 - 1}
	}
	if l < -(1<<63 - 1) {
		l = -(1<<63 - 1)
	}
	st.iv[key] = interval{max(cur.lo, l), min(cur.hi, h)}
	// two-atom differences also bound each other
	for i, a := range atoms {
		k := int64(coef[i])
		if k != 1 && k != -1 {
			continue
		}
		oa := append(append([]*Term{}, atoms[:i]...), atoms[i+1:]...)
		oc := append(append([]uint64{}, coef[:i]...), coef[i+1:]...)
		rest, ok := st.linInterval(oa, oc)
		if !ok {
			continue
		}
		// l - rest <= k*a <= h - rest
		lo2, hi2 := int64(-1<<63), int64(1<<63-1)
		if l > -(1<<63 - 1) {
			if x, o := addOv(l, -rest.hi); o {
				lo2 = x
			}
		}
		if h < 1<<63-1 {
			if x, o := addOv(h, -rest.lo); o {
				hi2 = x
			}
		}
		if k == 1 {
			st.narrow(a, lo2, hi2)
		} else {
			nl, nh := int64(-1<<63), int64(1<<63-1)
			if hi2 != 1<<63-1 {
				nl = -hi2
			}
			if lo2 != -1<<63 {
				nh = -lo2
			}
			st.narrow(a, nl, nh)
		}
	}
}

// learn records the consequences of a condition that holds.
func (st *State) learn(c *Term) {
	if c.isConst() {
		return
	}
	if c.op == OBNot {
		st.known[c.args[0]] = false
		x := c.args[0]
		switch x.op {
		case OSlt:
			st.learnCmp(x.args[1], x.args[0], 0, false)
		case OUlt:
			// !(a <u b): b <=u a
			ib, ok := st.interval(x.args[1])
			_ = ib
			ia, ok2 := st.interval(x.args[0])
			if ok && ok2 && ia.lo >= 0 && ib.lo >= 0 && x.args[0].w == 64 {
				st.learnCmp(x.args[1], x.args[0], 0, false)
			}
		case OBOr:
			st.learn(st.ts.Not(x.args[0]))
			st.learn(st.ts.Not(x.args[1]))
		case OEq:
			if x.args[0].w == 64 {
				// a != b tightens a bound that touches
				if _, _, _, r, ok := st.diff(x.args[0], x.args[1]); ok {
					if r.lo == 0 {
						st.learnDiff(x.args[0], x.args[1], 1, 1<<63-1)
					} else if r.hi == 0 {
						st.learnDiff(x.args[0], x.args[1], -1<<63, -1)
					}
				}
			}
		}
		return
	}
	st.known[c] = true
	switch c.op {
	case OSlt:
		st.learnCmp(c.args[0], c.args[1], -1, true)
	case OUlt:
		a, b := c.args[0], c.args[1]
		if a.w != 64 {
			return
		}
		if ib, ok := st.interval(b); ok && ib.lo >= 0 {
			if a.op != OLin {
				st.narrow(a, 0, ib.hi-1)
			}
			if ia, ok := st.interval(a); ok && ia.lo >= 0 {
				st.learnCmp(a, b, -1, true)
			}
		}
	case OEq:
		if c.args[0].w == 64 {
			st.learnDiff(c.args[0], c.args[1], 0, 0)
			a, b := c.args[0], c.args[1]
			if b.isConst() && a.op != OLin {
				st.narrow(a, b.sval(), b.sval())
			} else if a.isConst() && b.op != OLin {
				st.narrow(b, a.sval(), a.sval())
			}
		}
	case OBAnd:
		st.learn(c.args[0])
		st.learn(c.args[1])
	}
}

// learnCmp records a - b <= k (signed).
func (st *State) learnCmp(a, b *Term, k int64, strict bool) {
	if a.w != 64 {
		return
	}
	// plain bounds on atoms hold regardless of wrapping
	if a.op != OLin && !a.isConst() {
		if ib, ok := st.interval(b); ok {
			hi, o := addOv(ib.hi, k)
			if o {
				st.narrow(a, -1<<63, hi)
			}
		}
	}
	if b.op != OLin && !b.isConst() {
		if ia, ok := st.interval(a); ok {
			lo, o := addOv(ia.lo, -k)
			if o {
				st.narrow(b, lo, 1<<63-1)
			}
		}
	}
	st.learnDiff(a, b, -1<<63, k)
}

// --- path condition ---

func (st *State) addPC(c *Term) {
	if c.isConst() {
		return
	}
	st.pc = append(st.pc, c)
	li := st.ts.leaves(c)
	for _, v := range li.vars {
		st.pcVars[v] = true
	}
	for _, u := range li.ufs {
		st.pcUFs[u] = true
	}
	st.sol.Assert(st, c)
	st.learn(c)
}

func (st *State) evalBool(c *Term) bool { return st.ev.eval(c) != 0 }

func (st *State) setModel(m *Model) {
	st.model = m
	st.ev = &evaluator{m: m, memo: map[*Term]uint64{}}
}

// query asks whether the path condition is satisfiable together with c.
func (st *State) query(c *Term, wantModel bool) (SatResult, *Model) {
	if c.isConst() && c.val == 0 {
		return Unsat, nil
	}
	st.w.e.countQuery(st)
	var vars, ufs []*Term
	if wantModel {
		li := st.ts.leaves(c)
		seen := map[*Term]bool{}
		for v := range st.pcVars {
			vars = append(vars, v)
			seen[v] = true
		}
		for u := range st.pcUFs {
			ufs = append(ufs, u)
			seen[u] = true
		}
		for _, v := range li.vars {
			if !seen[v] {
				vars = append(vars, v)
			}
		}
		for _, u := range li.ufs {
			if !seen[u] {
				ufs = append(ufs, u)
			}
		}
	}
	r, m := st.sol.Check(st, c, vars, ufs, wantModel)
	if r == Sat && wantModel {
		// the model must satisfy what was asked (guards the translation)
		ev := &evaluator{m: m, memo: map[*Term]uint64{}}
		if ev.eval(c) == 0 {
			st.unsupported("solver model does not satisfy the query %v", c)
		}
	}
	return r, m
}

func (st *State) inPrefix() bool { return len(st.trace) < len(st.prefix) }

func (st *State) nextDecision(kind byte) Decision {
	d := st.prefix[len(st.trace)]
	if d.kind != kind {
		st.unsupported("replay divergence: want %c have %c at %d", kind, d.kind, len(st.trace))
	}
	st.trace = append(st.trace, d)
	return d
}

func (st *State) spawn(d Decision, m *Model) {
	p := make([]Decision, len(st.trace)+1)
	copy(p, st.trace)
	p[len(st.trace)] = d
	st.w.e.push(&Work{prefix: p, model: m})
}

// branch decides a condition, exploring both sides if both are feasible.
func (st *State) branch(c *Term) bool {
	if c.isConst() {
		return c.val != 0
	}
	if v, ok := st.decide(c); ok {
		return v
	}
	if st.inPrefix() {
		d := st.nextDecision('b')
		if d.val != 0 {
			st.addPC(c)
			return true
		}
		st.addPC(st.ts.Not(c))
		return false
	}
	side := st.evalBool(c)
	lit, neg := c, st.ts.Not(c)
	if !side {
		lit, neg = neg, lit
	}
	r, m := st.query(neg, true)
	switch r {
	case Sat:
		st.spawn(Decision{'b', b2u(!side), false}, m)
	case Unknown:
		st.w.e.noteUnknown("branch")
	}
	st.trace = append(st.trace, Decision{'b', b2u(side), false})
	st.addPC(lit)
	return side
}

// choose explores n alternatives.
func (st *State) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if st.inPrefix() {
		return int(st.nextDecision('c').val)
	}
	for i := n - 1; i >= 1; i-- {
		st.spawn(Decision{'c', uint64(i), false}, st.model.clone())
	}
	st.trace = append(st.trace, Decision{'c', 0, false})
	return 0
}

// concretize explores every value of t.
func (st *State) concretize(t *Term) uint64 {
	for n := 0; ; n++ {
		if t.isConst() {
			return t.val
		}
		if n > 5000 {
			st.unsupported("concretize: too many values")
		}
		if t.w == 64 {
			if r, ok := st.interval(t); ok && r.lo == r.hi {
				return uint64(r.lo)
			}
		}
		if t.w == 0 {
			return b2u(st.branch(t))
		}
		if st.inPrefix() {
			d := st.nextDecision('v')
			eq := st.ts.Eq(t, st.ts.BV(t.w, d.val))
			if d.val2 {
				st.addPC(eq)
				return d.val
			}
			st.addPC(st.ts.Not(eq))
			continue
		}
		v := st.ev.eval(t)
		eq := st.ts.Eq(t, st.ts.BV(t.w, v))
		if eq.isConst() {
			return v
		}
		r, m := st.query(st.ts.Not(eq), true)
		switch r {
		case Sat:
			st.spawn(Decision{'v', v, false}, m)
		case Unknown:
			st.w.e.noteUnknown("concretize")
		}
		st.trace = append(st.trace, Decision{'v', v, true})
		st.addPC(eq)
		return v
	}
}

func (st *State) assume(c *Term) {
	if v, ok := st.decide(c); ok {
		if !v {
			panic(&pathStop{kind: stopAssume})
		}
		return
	}
	if !st.evalBool(c) {
		if st.inPrefix() {
			st.unsupported("assumption fails inside a replayed prefix")
		}
		r, m := st.query(c, true)
		switch r {
		case Unsat:
			panic(&pathStop{kind: stopAssume})
		case Unknown:
			st.w.e.noteUnknown("assume")
			panic(&pathStop{kind: stopUnsupported, msg: "solver gave up on an assumption"})
		}
		st.setModel(m)
	}
	st.addPC(c)
}

// assert checks a property.
func (st *State) assert(c *Term, label string) {
	st.asserted++
	if st.inPrefix() {
		// the ancestor that ran through here has already decided it
		if v, ok := st.decide(c); !ok || !v {
			st.learnProved(c)
		}
		return
	}
	st.w.e.countAssert(label)
	if v, ok := st.decide(c); ok && v {
		st.w.e.countTrivial()
		return
	}
	r, m := st.query(st.ts.Not(c), true)
	switch r {
	case Sat:
		panic(&pathStop{kind: stopViolation, label: label, msg: "assertion fails", model: m})
	case Unknown:
		st.w.e.noteUnknown("assert " + label)
		return
	}
	st.learnProved(c)
}

func (st *State) learnProved(c *Term) {
	if c.isConst() {
		return
	}
	st.learn(c)
}

// fail reports a violation on the current path outright.
func (st *State) fail(label, msg string) {
	if st.inPrefix() {
		st.unsupported("violation inside a replayed prefix: %s", label)
	}
	panic(&pathStop{kind: stopViolation, label: label, msg: msg, model: st.model})
}

// index returns a fresh variable for "every k below n".
func (st *State) index(n *Term) *Term {
	k := st.fresh("k", 64)
	if iv, ok := st.interval(n); ok && iv.hi < 1<<62 {
		ts := st.ts
		hi := max(iv.hi-1, 0)
		st.addPC(ts.Not(ts.Slt(k, ts.Int(0))))
		st.addPC(ts.Not(ts.Slt(ts.Int(hi), k)))
	}
	return k
}

func (st *State) fresh(prefix string, w int) *Term {
	st.freshN++
	return st.ts.Var(fmt.Sprintf("$%s%d", prefix, st.freshN), w)
}

// input declares a named harness input; repeated names get a suffix.
func (st *State) inputName(name string) string {
	k := st.names[name]
	st.names[name] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

func (st *State) inputVar(name string, w int) *Term {
	n := st.inputName(name)
	t := st.ts.Var(n, w)
	st.inputs = append(st.inputs, Input{n, t, w})
	return t
}

func typeString(t types.Type) string {
	if t == nil {
		return "<nil>"
	}
	return types.TypeString(t, nil)
}
