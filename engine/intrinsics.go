package main

import (
	"fmt"
	"go/types"
	"net/http"
	"net/textproto"
	"strconv"
	"strings"
)

// call is one intercepted call.
type call struct {
	st   *State
	th   *Thread
	fr   *frame
	fn   interface{ String() string }
	args []Value
}

type intrinsic func(c *call) Value

// declined is what an intrinsic returns for arguments that the function's own
// code has to be executed for.
type declined struct{}

const (
	repoPath = "github.com/chronos-tachyon/morehttp"
	vhPath   = repoPath + "/vharness"
	vsymPath = vhPath + "/vsym"
)

func (c *call) term(i int) *Term { return c.args[i].(*Term) }
func (c *call) str(i int) *Str   { return c.args[i].(*Str) }
func (c *call) lit(i int) string { return c.st.mustLit(c.args[i], fmt.Sprint(c.fn)) }
func (c *call) cell(i int) *Cell {
	x, ok := c.args[i].(*Cell)
	if !ok {
		c.st.unsupported("%v: argument %d is %T", c.fn, i, c.args[i])
	}
	if x == nil {
		c.th.nilPanic()
	}
	return x
}

func nop(c *call) Value { return nil }

// ifaces returns the elements of a []interface{} argument.
func (c *call) ifaces(i int) []Iface {
	s := c.args[i].(*Slice)
	out := make([]Iface, s.n)
	for k := range out {
		out[k] = c.st.load(s.cells[k]).(Iface)
	}
	return out
}

var intrinsics = map[string]intrinsic{}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func init() {
	// --- vsym ---
	v := func(n string, f intrinsic) { reg(f, vsymPath+"."+n) }
	v("Int64", func(c *call) Value { return c.st.inputVar(c.lit(0), 64) })
	v("Int", func(c *call) Value { return c.st.inputVar(c.lit(0), 64) })
	v("Byte", func(c *call) Value { return c.st.inputVar(c.lit(0), 8) })
	v("Bool", func(c *call) Value { return c.st.inputVar(c.lit(0), 0) })
	rng := func(c *call) Value {
		t := c.st.inputVar(c.lit(0), 64)
		ts := c.st.ts
		lo, hi := c.term(1), c.term(2)
		c.st.assume(ts.And(ts.Not(ts.Slt(t, lo)), ts.Not(ts.Slt(hi, t))))
		return t
	}
	v("IntRange", rng)
	v("Int64Range", rng)
	v("Choose", func(c *call) Value {
		n := c.st.inputName(c.lit(0))
		k := c.st.choose(int(c.term(1).sval()))
		t := c.st.ts.Int(int64(k))
		c.st.inputs = append(c.st.inputs, Input{n, t, 64})
		return t
	})
	v("Concrete", func(c *call) Value { return c.st.ts.BV(64, c.st.concretize(c.term(0))) })
	v("Assume", func(c *call) Value { c.st.assume(c.term(0)); return nil })
	v("Assert", func(c *call) Value { c.st.assert(c.term(0), c.lit(1)); return nil })
	v("Fail", func(c *call) Value { c.st.fail(c.lit(0), "failure reported by the harness"); return nil })
	v("Reach", func(c *call) Value { c.st.reach[c.lit(0)] = true; return nil })
	v("Decided", func(c *call) Value {
		b, ok := c.st.decide(c.term(0))
		return c.st.ts.Bool(ok && b)
	})
	v("Symbolic", func(c *call) Value { return c.st.ts.tTrue })
	v("Observe", func(c *call) Value {
		c.st.observes = append(c.st.observes, Observation{Label: c.lit(0), Val: c.term(1)})
		return nil
	})
	v("MapOrder", func(c *call) Value { c.st.mapOrder = c.term(0).val != 0; return nil })
	v("Thorough", func(c *call) Value { return c.st.ts.Bool(c.st.eng.tier == "thorough") })
	v("Par", func(c *call) Value {
		s := c.args[0].(*Slice)
		var fs []Value
		for i := 0; i < s.n; i++ {
			fs = append(fs, c.st.load(s.cells[i]))
		}
		c.th.par(fs)
		return nil
	})
	v("Atomic", func(c *call) Value {
		was := c.st.multi
		c.st.multi = false
		defer func() { c.st.multi = was }()
		c.th.callValue(nil, c.args[0].(*FuncV), nil, nil)
		return nil
	})
	v("Yield", func(c *call) Value { c.th.schedPoint("Yield"); return nil })
	// bytes
	v("NewData", func(c *call) Value {
		n := c.st.inputName(c.lit(0))
		c.st.datas[n] = true
		return &StructV{[]Value{c.st.lit(n)}}
	})
	v("dataAt", func(c *call) Value {
		return c.st.ts.UF(c.lit(0), c.term(1))
	})
	v("dataFill", func(c *call) Value {
		s := c.args[1].(*Slice)
		if s.len_.isConst() && s.len_.val == 0 {
			return nil
		}
		c.st.touchStore(s.bs, true)
		s.bs.c = &cCopy{s.bs.c, s.off, s.len_, &cVar{c.lit(0)}, c.term(2)}
		return nil
	})
	v("dataBytes", func(c *call) Value {
		n := c.term(1)
		st := c.st
		if iv, ok := st.interval(n); !ok || iv.lo < 0 {
			st.unsupported("dataBytes: length may be negative")
		}
		bs := st.newStore(&cVar{c.lit(0)}, n)
		return &Slice{isBytes: true, bs: bs, off: st.ts.Int(0), len_: n, cap_: n}
	})
	v("dataString", func(c *call) Value {
		n := c.term(1)
		st := c.st
		iv, ok := st.interval(n)
		if !ok || iv.lo < 0 {
			st.unsupported("dataString: length may be negative")
		}
		return &Str{c: &cVar{c.lit(0)}, off: st.ts.Int(0), n: n, max: int(iv.hi)}
	})
	v("dataCheck", func(c *call) Value {
		// every byte of p equals the data from off on
		st, ts := c.st, c.st.ts
		p := c.args[1].(*Slice)
		if ld, ok := st.decide(ts.Eq(p.len_, ts.Int(0))); p.bs == nil || (ok && ld) {
			return nil
		}
		st.touchStore(p.bs, false)
		k := st.index(p.len_)
		in := ts.Ult(k, p.len_)
		got := st.readUnder(in, p.bs.c, ts.Add(p.off, k))
		want := ts.UF(c.lit(0), ts.Add(c.term(2), k))
		st.assert(ts.Or(ts.Not(in), ts.Eq(got, want)), c.lit(3))
		return nil
	})
	v("sameBytes", func(c *call) Value {
		st, ts := c.st, c.st.ts
		p, q := c.args[0].(*Slice), c.args[1].(*Slice)
		st.assert(ts.Eq(p.len_, q.len_), c.lit(2))
		if ld, ok := st.decide(ts.Eq(p.len_, ts.Int(0))); p.bs == nil || q.bs == nil || (ok && ld) {
			return nil
		}
		st.touchStore(p.bs, false)
		st.touchStore(q.bs, false)
		if p.len_.isConst() && p.len_.val <= 1024 && p.off.isConst() && q.off.isConst() {
			// byte by byte: most of them are the same term
			all := ts.tTrue
			for i := int64(0); i < p.len_.sval(); i++ {
				a := st.read(p.bs.c, ts.Int(p.off.sval()+i))
				b := st.read(q.bs.c, ts.Int(q.off.sval()+i))
				all = ts.And(all, ts.Eq(a, b))
			}
			st.assert(all, c.lit(2))
			return nil
		}
		k := st.index(p.len_)
		in := ts.Ult(k, p.len_)
		a := st.readUnder(in, p.bs.c, ts.Add(p.off, k))
		b := st.readUnder(in, q.bs.c, ts.Add(q.off, k))
		st.assert(ts.Or(ts.Not(in), ts.Eq(a, b)), c.lit(2))
		return nil
	})
	v("Alike", func(c *call) Value {
		st, ts := c.st, c.st.ts
		p, q := c.args[0].(*Slice), c.args[1].(*Slice)
		same := ts.Eq(p.len_, q.len_)
		if ld, ok := st.decide(ts.Eq(p.len_, ts.Int(0))); p.bs == nil || q.bs == nil || (ok && ld) {
			return same
		}
		st.touchStore(p.bs, false)
		st.touchStore(q.bs, false)
		k := st.index(p.len_)
		in := ts.And(ts.Ult(k, p.len_), ts.Ult(k, q.len_))
		a := st.readUnder(in, p.bs.c, ts.Add(p.off, k))
		b := st.readUnder(in, q.bs.c, ts.Add(q.off, k))
		return ts.And(same, ts.Or(ts.Not(in), ts.Eq(a, b)))
	})
	v("SetSide", func(c *call) Value {
		o, ok := c.args[0].(Iface).v.(*Cell)
		if !ok {
			c.st.unsupported("SetSide on %v", c.args[0])
		}
		c.st.side[fmt.Sprintf("side%d/%s", o.id, c.lit(1))] = c.args[2]
		return nil
	})
	v("Side", func(c *call) Value {
		o, ok := c.args[0].(Iface).v.(*Cell)
		if !ok {
			c.st.unsupported("Side of %v", c.args[0])
		}
		if x, ok := c.st.side[fmt.Sprintf("side%d/%s", o.id, c.lit(1))]; ok {
			return x
		}
		return Iface{}
	})
	v("StringEq", func(c *call) Value { return c.st.strEq(c.str(0), c.str(1)) })

	// --- sync ---
	reg(func(c *call) Value { c.th.lock1(c.cell(0)); return nil }, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(func(c *call) Value { c.th.unlock1(c.cell(0)); return nil }, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(func(c *call) Value { return c.st.ts.Bool(c.th.tryLock(c.cell(0))) }, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	reg(func(c *call) Value { c.th.rlock(c.cell(0)); return nil }, "(*sync.RWMutex).RLock")
	reg(func(c *call) Value { c.th.runlock(c.cell(0)); return nil }, "(*sync.RWMutex).RUnlock")
	reg(func(c *call) Value {
		cell := c.cell(0)
		if p := c.st.pools[cell]; len(p) > 0 {
			v := p[len(p)-1]
			c.st.pools[cell] = p[:len(p)-1]
			vcJoin(&c.th.vc, v.vc)
			return v.v
		}
		// New is the last field
		nf := c.st.load(cell.sub[len(cell.sub)-1]).(*FuncV)
		if nf == nil {
			return Iface{}
		}
		return c.th.callValue(c.fr, nf, nil, nil)
	}, "(*sync.Pool).Get")
	reg(func(c *call) Value {
		cell := c.cell(0)
		c.st.pools[cell] = append(c.st.pools[cell], pooled{c.args[1], append([]int{}, c.th.vc...)})
		if c.st.multi {
			c.th.tick()
			c.th.schedPoint("Put")
		}
		return nil
	}, "(*sync.Pool).Put")
	reg(func(c *call) Value {
		wg := c.st.wg(c.cell(0))
		wg.n += int(int64(c.st.concretize(c.term(1))))
		return nil
	}, "(*sync.WaitGroup).Add")
	reg(func(c *call) Value {
		c.th.schedPoint("Done")
		c.st.wg(c.cell(0)).n--
		c.th.atomicJoin(c.cell(0))
		return nil
	}, "(*sync.WaitGroup).Done")
	reg(func(c *call) Value {
		w := c.st.wg(c.cell(0))
		c.th.block("Wait", func() bool { return w.n <= 0 })
		c.th.atomicJoin(c.cell(0))
		return nil
	}, "(*sync.WaitGroup).Wait")

	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		reg(func(c *call) Value {
			c.th.atomicSync(c.cell(0))
			n := c.st.ts.Add(c.cell(0).v.(*Term), c.term(1))
			c.cell(0).v = n
			return n
		}, "sync/atomic.Add"+ty)
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg(func(c *call) Value { c.th.atomicSync(c.cell(0)); return c.cell(0).v }, "sync/atomic.Load"+ty)
		reg(func(c *call) Value { c.th.atomicSync(c.cell(0)); c.cell(0).v = c.args[1]; return nil }, "sync/atomic.Store"+ty)
		reg(func(c *call) Value {
			c.th.atomicSync(c.cell(0))
			o := c.cell(0).v
			c.cell(0).v = c.args[1]
			return o
		}, "sync/atomic.Swap"+ty)
		reg(func(c *call) Value {
			c.th.atomicSync(c.cell(0))
			if c.st.branch(c.fr.eq(c.cell(0).t, c.cell(0).v, c.args[1])) {
				c.cell(0).v = c.args[2]
				return c.st.ts.tTrue
			}
			return c.st.ts.tFalse
		}, "sync/atomic.CompareAndSwap"+ty)
	}
	reg(func(c *call) Value {
		c.th.atomicSync(c.cell(0))
		if v, ok := c.st.side[fmt.Sprintf("av%d", c.cell(0).id)]; ok {
			return v
		}
		return Iface{}
	}, "(*sync/atomic.Value).Load")
	reg(func(c *call) Value {
		c.th.atomicSync(c.cell(0))
		c.st.side[fmt.Sprintf("av%d", c.cell(0).id)] = c.args[1]
		return nil
	}, "(*sync/atomic.Value).Store")

	// --- runtime ---
	reg(nop, "runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable")
	reg(func(c *call) Value { c.th.schedPoint("Gosched"); return nil }, "runtime.Gosched", "time.Sleep")
	reg(func(c *call) Value { return c.args[0] }, "internal/abi.NoEscape", "internal/abi.Escape", "internal/stringslite.Clone", "strings.Clone")
	reg(func(c *call) Value {
		n := c.term(0)
		return &Slice{isBytes: true, bs: c.st.newStore(zeroContent, n), off: c.st.ts.Int(0), len_: n, cap_: n}
	}, "internal/bytealg.MakeNoZero")

	// --- errors, fmt ---
	reg(func(c *call) Value { return c.errorsAs() }, "errors.As")
	reg(func(c *call) Value { return c.sprintf(c.lit(0), c.ifaces(1)) }, "fmt.Sprintf")
	reg(func(c *call) Value { return c.sprint(c.ifaces(0), false) }, "fmt.Sprint")
	reg(func(c *call) Value { return c.st.concat(c.sprint(c.ifaces(0), true), c.st.lit("\n")) }, "fmt.Sprintln")
	reg(func(c *call) Value { return c.errorf() }, "fmt.Errorf")
	fp := func(s *Str, c *call) Value {
		w := c.args[0].(Iface)
		r, ok := c.fr.callMethod(w, "Write", c.st.bytesOfStr(s))
		if !ok {
			c.st.unsupported("Fprintf to %v", w.t)
		}
		return r
	}
	reg(func(c *call) Value { return fp(c.sprintf(c.lit(1), c.ifaces(2)), c) }, "fmt.Fprintf")
	reg(func(c *call) Value { return fp(c.sprint(c.ifaces(1), false), c) }, "fmt.Fprint")
	reg(func(c *call) Value { return fp(c.st.concat(c.sprint(c.ifaces(1), true), c.st.lit("\n")), c) }, "fmt.Fprintln")
	ap := func(s *Str, c *call) Value { return c.fr.append(c.args[0], s, nil) }
	reg(func(c *call) Value { return ap(c.sprintf(c.lit(1), c.ifaces(2)), c) }, "fmt.Appendf")
	reg(func(c *call) Value { return ap(c.sprint(c.ifaces(1), false), c) }, "fmt.Append")

	reg(func(c *call) Value {
		p := c.args[0].(Iface)
		cell, ok := p.v.(*Cell)
		if !ok || cell == nil {
			c.st.unsupported("assert.NotNil of %T", p.v)
		}
		isNil := false
		switch x := c.st.load(cell).(type) {
		case Iface:
			isNil = x.t == nil
		case *Cell:
			isNil = x == nil
		case *MapV:
			isNil = x == nil
		case *Slice:
			isNil = x.isNil
		case *FuncV:
			isNil = x == nil
		case *ChanV:
			isNil = x == nil
		default:
			c.st.unsupported("assert.NotNil of %T", x)
		}
		if isNil {
			et := c.st.eng.namedType("github.com/chronos-tachyon/assert", "Error")
			txt := types.TypeString(deref(p.t), func(p *types.Package) string { return p.Name() }) + " is nil"
			panic(targetPanic{Iface{et, &StructV{[]Value{c.st.lit(txt)}}}})
		}
		return nil
	}, "github.com/chronos-tachyon/assert.NotNil")

	// --- strconv and friends ---
	reg(func(c *call) Value { return c.st.itoa(c.term(0)) }, "strconv.Itoa")
	reg(func(c *call) Value {
		b := c.term(1)
		if !b.isConst() || b.val != 10 {
			if c.term(0).isConst() && b.isConst() {
				return c.st.lit(strconv.FormatInt(c.term(0).sval(), int(b.val)))
			}
			c.st.unsupported("FormatInt base")
		}
		return c.st.itoa(c.term(0))
	}, "strconv.FormatInt")
	reg(func(c *call) Value {
		b, t := c.term(1), c.term(0)
		if t.isConst() && b.isConst() {
			return c.st.lit(strconv.FormatUint(t.val, int(b.val)))
		}
		if iv, ok := c.st.interval(t); ok && iv.lo >= 0 && b.isConst() && b.val == 10 {
			return c.st.itoa(t)
		}
		c.st.unsupported("FormatUint")
		return nil
	}, "strconv.FormatUint")
	reg(func(c *call) Value {
		b, t := c.term(2), c.term(1)
		if !b.isConst() || b.val != 10 {
			c.st.unsupported("AppendInt base")
		}
		return c.fr.append(c.args[0], c.st.itoa(t), nil)
	}, "strconv.AppendInt")
	reg(func(c *call) Value { return c.st.lit(strconv.Quote(c.lit(0))) }, "strconv.Quote")
	canon := func(f func(string) string) intrinsic {
		return func(c *call) Value {
			if l, ok := c.st.litOf(c.str(0)); ok {
				return c.st.lit(f(l))
			}
			return declined{}
		}
	}
	reg(canon(http.CanonicalHeaderKey), "net/http.CanonicalHeaderKey")
	reg(canon(textproto.CanonicalMIMEHeaderKey), "net/textproto.CanonicalMIMEHeaderKey")

	// --- bytes ---
	cnt := func(c *call, s *Str, b *Term) Value {
		st, ts := c.st, c.st.ts
		n := st.concretize(s.n)
		r := ts.Int(0)
		for i := uint64(0); i < n; i++ {
			r = ts.Add(r, ts.Ite(ts.Eq(st.read(s.c, ts.Add(s.off, ts.Int(int64(i)))), b), ts.Int(1), ts.Int(0)))
		}
		return r
	}
	reg(func(c *call) Value { return cnt(c, c.st.strOfBytes(c.args[0].(*Slice)), c.term(1)) }, "internal/bytealg.Count")
	reg(func(c *call) Value { return cnt(c, c.str(0), c.term(1)) }, "internal/bytealg.CountString")
	reg(func(c *call) Value {
		return c.st.strEq(c.st.strOfBytes(c.args[0].(*Slice)), c.st.strOfBytes(c.args[1].(*Slice)))
	}, "internal/bytealg.Equal", "bytes.Equal")
	idx := func(c *call, s *Str, b *Term) Value {
		st, ts := c.st, c.st.ts
		for i := int64(0); ; i++ {
			if !st.branch(ts.Slt(ts.Int(i), s.n)) {
				return ts.Int(-1)
			}
			if st.branch(ts.Eq(st.read(s.c, ts.Add(s.off, ts.Int(i))), b)) {
				return ts.Int(i)
			}
		}
	}
	reg(func(c *call) Value { return idx(c, c.st.strOfBytes(c.args[0].(*Slice)), c.term(1)) }, "internal/bytealg.IndexByte")
	reg(func(c *call) Value { return idx(c, c.str(0), c.term(1)) }, "internal/bytealg.IndexByteString")

	// --- os: files exist only as targets of diagnostics ---
	reg(func(c *call) Value { return c.st.newCell(c.st.eng.namedType("os", "File")) }, "os.NewFile")
	reg(func(c *call) Value { return Tuple{c.args[1].(*Slice).len_, Iface{}} }, "(*os.File).Write")
	reg(func(c *call) Value { return Tuple{c.str(1).n, Iface{}} }, "(*os.File).WriteString")

	// --- time ---
	reg(func(c *call) Value { return c.st.zero(c.st.eng.namedType("time", "Time")) }, "time.Now")
	reg(func(c *call) Value {
		t := c.st.fresh("elapsed", 64)
		c.st.assume(c.st.ts.And(c.st.ts.Not(c.st.ts.Slt(t, c.st.ts.Int(0))), c.st.ts.Slt(t, c.st.ts.Int(1<<40))))
		return t
	}, "time.Since")
	reg(func(c *call) Value {
		return c.st.ts.FBin(OFDiv, c.st.ts.ToFP(c.term(0), true), c.st.ts.Float(1e9))
	}, "(time.Duration).Seconds")
}

type wgState struct{ n int }

func (st *State) wg(c *Cell) *wgState {
	k := fmt.Sprintf("wg%d", c.id)
	if w, ok := st.side[k]; ok {
		return w.(*wgState)
	}
	w := &wgState{}
	st.side[k] = w
	return w
}

// readUnder reads content under the extra assumption in (k < len).
func (st *State) readUnder(in *Term, c Content, idx *Term) *Term {
	// temporarily learn the assumption so that layers resolve
	saveK, saveIv, saveMemo := st.known, st.iv, st.readMemo
	k2 := make(map[*Term]bool, len(saveK)+4)
	for a, b := range saveK {
		k2[a] = b
	}
	i2 := make(map[*Term]interval, len(saveIv)+4)
	for a, b := range saveIv {
		i2[a] = b
	}
	st.known, st.iv, st.readMemo = k2, i2, map[readKey]*Term{}
	st.learn(in)
	r := st.read(c, idx)
	st.known, st.iv, st.readMemo = saveK, saveIv, saveMemo
	return r
}

// --- fmt ---

func (c *call) opaqueStr(why string) *Str {
	st := c.st
	st.freshN++
	n := st.fresh("fmtlen", 64)
	st.assume(st.ts.And(st.ts.Not(st.ts.Slt(n, st.ts.Int(0))), st.ts.Slt(n, st.ts.Int(64))))
	st.note = append(st.note, "formatting not modelled: "+why)
	return &Str{c: &cVar{fmt.Sprintf("$fmt%d", st.freshN)}, off: st.ts.Int(0), n: n, max: 64}
}

func (c *call) sprint(args []Iface, ln bool) *Str {
	var parts []*Str
	prevString := true
	for i, a := range args {
		isStr := a.t != nil && isString(a.t)
		if i > 0 && (ln || (!isStr && !prevString)) {
			parts = append(parts, c.st.lit(" "))
		}
		parts = append(parts, c.fmtArg('v', "", a))
		prevString = isStr
	}
	return c.st.concat(parts...)
}

func (c *call) sprintf(format string, args []Iface) *Str {
	st := c.st
	var parts []*Str
	ai := 0
	i := 0
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			parts = append(parts, st.lit(format[i:]))
			break
		}
		if j > 0 {
			parts = append(parts, st.lit(format[i:i+j]))
		}
		i += j + 1
		k := i
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			parts = append(parts, st.lit("%!(NOVERB)"))
			break
		}
		flags := format[i:k]
		verb := format[k]
		i = k + 1
		if verb == '%' {
			parts = append(parts, st.lit("%"))
			continue
		}
		if verb >= 0x80 || verb == '[' || verb == '*' {
			parts = append(parts, c.opaqueStr("format "+format))
			break
		}
		if ai >= len(args) {
			parts = append(parts, st.lit("%!"+string(verb)+"(MISSING)"))
			continue
		}
		parts = append(parts, c.fmtArg(verb, flags, args[ai]))
		ai++
	}
	if ai < len(args) {
		parts = append(parts, c.opaqueStr("extra arguments"))
	}
	return st.concat(parts...)
}

func pkgNameQual(p *types.Package) string { return p.Name() }

func (c *call) fmtArg(verb byte, flags string, a Iface) *Str {
	st := c.st
	spec := "%" + flags + string(verb)
	if verb == 'T' {
		if a.t == nil {
			return st.lit("<nil>")
		}
		return st.lit(strings.ReplaceAll(types.TypeString(a.t, pkgNameQual), "any", "interface {}"))
	}
	if a.t == nil {
		switch verb {
		case 'v', 's', 'd':
			if verb == 'v' {
				return st.lit(fmt.Sprintf(spec, nil))
			}
			return st.lit("%!" + string(verb) + "(<nil>)")
		case 'w':
			return st.lit("%!w(<nil>)")
		}
	}
	if verb == 'w' {
		verb = 'v'
		spec = "%" + flags + "v"
	}
	if a.t != nil && !strings.Contains(flags, "#") && (verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') {
		if st.eng.methodByName(a.t, "Format") == nil {
			for _, m := range []string{"Error", "String"} {
				fn := st.eng.methodByName(a.t, m)
				if fn == nil {
					continue
				}
				sg := fn.Signature
				if sg.Params().Len() != 0 || sg.Results().Len() != 1 || !isString(sg.Results().At(0).Type()) {
					continue
				}
				if p, ok := a.v.(*Cell); ok && p == nil {
					return st.lit("<nil>")
				}
				s := c.th.callFn(c.fr, fn, []Value{a.v}, nil).(*Str)
				return c.fmtString(verb, flags, s)
			}
		}
	}
	switch v := a.v.(type) {
	case *Str:
		return c.fmtString(verb, flags, v)
	case *Term:
		w, signed, isInt := intWidth(a.t)
		switch {
		case v.w == 0:
			if v.isConst() {
				return st.lit(fmt.Sprintf(spec, v.val != 0))
			}
			if verb == 'v' || verb == 't' {
				if st.branch(v) {
					return st.lit("true")
				}
				return st.lit("false")
			}
		case v.w == FP:
			if v.isConst() {
				return st.lit(fmt.Sprintf(spec, fl(v)))
			}
		case isInt:
			if v.isConst() {
				if signed {
					return st.lit(fmt.Sprintf(spec, v.sval()))
				}
				return st.lit(fmt.Sprintf(spec, v.val))
			}
			if verb == 'd' || verb == 'v' {
				x := v
				if w < 64 {
					x = st.asInt(v, a.t)
				}
				if !signed && w == 64 {
					if iv, ok := st.interval(v); !ok || iv.lo < 0 {
						return c.opaqueStr(spec + " of unsigned")
					}
				}
				switch flags {
				case "", "+":
					if flags == "" || verb == 'v' {
						return st.itoa(x)
					}
				case "03":
					if iv, ok := st.interval(x); ok && iv.lo >= 100 {
						return st.itoa(x)
					}
				}
			}
		}
	}
	return c.opaqueStr(fmt.Sprintf("%s of %v", spec, a.t))
}

func (c *call) fmtString(verb byte, flags string, s *Str) *Str {
	st := c.st
	if l, ok := st.litOf(s); ok {
		return st.lit(fmt.Sprintf("%"+flags+string(verb), l))
	}
	if (verb == 'v' || verb == 's') && (flags == "" || flags == "+") {
		return s
	}
	return c.opaqueStr("%" + flags + string(verb) + " of string")
}

func (c *call) errorf() Value {
	st := c.st
	format := c.lit(0)
	args := c.ifaces(1)
	msg := c.sprintf(format, args)
	// find %w
	var wrapped []Iface
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && ai < len(args) && args[ai].t != nil {
			wrapped = append(wrapped, args[ai])
		}
		ai++
	}
	mk := func(pkg, name string, fields map[string]Value) Value {
		t := st.eng.namedType(pkg, name)
		cell := st.newCell(t)
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if v, ok := fields[s.Field(i).Name()]; ok {
				cell.sub[i].v = v
			}
		}
		return Iface{types.NewPointer(t), cell}
	}
	switch len(wrapped) {
	case 0:
		return mk("errors", "errorString", map[string]Value{"s": msg})
	case 1:
		return mk("fmt", "wrapError", map[string]Value{"msg": msg, "err": wrapped[0]})
	}
	errT := types.Universe.Lookup("error").Type()
	sl := st.newSlice(errT, len(wrapped), len(wrapped))
	for i, w := range wrapped {
		sl.cells[i].v = w
	}
	return mk("fmt", "wrapErrors", map[string]Value{"msg": msg, "errs": sl})
}

func (c *call) errorsAs() Value {
	st := c.st
	err := c.args[0].(Iface)
	tgt := c.args[1].(Iface)
	cell, ok := tgt.v.(*Cell)
	if !ok || cell == nil {
		c.th.rtPanic("errors: target must be a non-nil pointer")
	}
	want := deref(tgt.t)
	var walk func(e Iface) bool
	walk = func(e Iface) bool {
		for e.t != nil {
			if it, isI := want.Underlying().(*types.Interface); isI {
				if st.eng.implements(e.t, it) {
					st.store(cell, e)
					return true
				}
			} else if types.Identical(e.t, want) {
				st.store(cell, e.v)
				return true
			}
			fn := st.eng.methodByName(e.t, "Unwrap")
			if fn == nil {
				return false
			}
			r := c.th.callFn(c.fr, fn, []Value{e.v}, nil)
			if s, ok := r.(*Slice); ok {
				for i := 0; i < s.n; i++ {
					if walk(st.load(s.cells[i]).(Iface)) {
						return true
					}
				}
				return false
			}
			e = r.(Iface)
		}
		return false
	}
	return st.ts.Bool(walk(err))
}
