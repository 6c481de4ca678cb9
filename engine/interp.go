package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"runtime/debug"

	"golang.org/x/tools/go/ssa"
)

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v Value // Iface
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
	tail *deferred
}

type frame struct {
	th        *Thread
	caller    *frame
	fn        *ssa.Function
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	env       map[ssa.Value]Value
	defers    *deferred
	result    Value
	panicking bool
	panicVal  interface{}
	depth     int
}

func (fr *frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{builtin: x}
	case *ssa.Const:
		return fr.th.st.constValue(x)
	case *ssa.Global:
		return fr.th.st.global(fr.th, x)
	}
	r, ok := fr.env[v]
	if !ok {
		fr.th.st.unsupported("no value for %s %T in %s", v.Name(), v, fr.fn)
	}
	return r
}

func (st *State) constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return st.zero(c.Type())
	}
	t := c.Type()
	if tp, ok := t.(*types.TypeParam); ok {
		st.unsupported("constant of type parameter %v", tp)
	}
	if w, signed, ok := intWidth(t); ok {
		_ = signed
		v := constant.ToInt(c.Value)
		if i, exact := constant.Int64Val(v); exact {
			return st.ts.BV(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return st.ts.BV(w, u)
	}
	if isBool(t) {
		return st.ts.Bool(constant.BoolVal(c.Value))
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return st.lit(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return st.lit(string(rune(i)))
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(c.Value)
		if t.Underlying().(*types.Basic).Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return st.ts.Float(f)
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return &Opaque{"complex"}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return Iface{}
	}
	st.unsupported("constant %v", c)
	return nil
}

// callValue calls a function value.
func (th *Thread) callValue(caller *frame, fv *FuncV, args []Value, site *ssa.CallCommon) Value {
	st := th.st
	if fv == nil {
		th.nilPanic()
	}
	if fv.native != nil {
		return fv.native(st, th, args)
	}
	if fv.builtin != nil {
		return th.callBuiltin(caller, fv.builtin, args, site)
	}
	return th.callFn(caller, fv.fn, args, fv.env)
}

const maxDepth = 400

func (th *Thread) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	st := th.st
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > maxDepth {
		panic(&pathStop{kind: stopLimit, msg: "call depth"})
	}
	info := st.eng.fnInfo(fn)
	if info.intrinsic != nil {
		v := info.intrinsic(&call{st: st, th: th, fr: caller, fn: fn, args: args})
		if _, ok := v.(declined); !ok {
			return v
		}
	}
	if info.model != nil {
		fn = info.model
		info = st.eng.fnInfo(fn)
	}
	if fn.Blocks == nil {
		st.unsupported("function without body: %s", fn)
	}
	info.hit(st)
	fr := &frame{th: th, caller: caller, fn: fn, depth: depth}
	fr.env = make(map[ssa.Value]Value, info.nvals)
	fr.block = fn.Blocks[0]
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fvv := range fn.FreeVars {
		fr.env[fvv] = env[i]
	}
	for fr.block != nil {
		fr.run()
	}
	return fr.result
}

// isControl reports whether a recovered value belongs to the engine.
func isControl(r interface{}) bool {
	switch r.(type) {
	case *pathStop, abortThread:
		return true
	}
	return false
}

func (fr *frame) run() {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		if isControl(r) {
			panic(r)
		}
		tp, ok := r.(targetPanic)
		if !ok {
			// an engine failure: give up on this path
			msg := fmt.Sprintf("engine panic in %s: %v", fr.fn, r)
			if debugEngine {
				msg += "\n" + string(debug.Stack())
			}
			panic(&pathStop{kind: stopUnsupported, msg: msg})
		}
		fr.panicking = true
		fr.panicVal = tp
		fr.runDefers()
		fr.block = fr.fn.Recover
		if fr.block == nil {
			fr.result = fr.th.st.zeroResults(fr.fn)
		}
	}()
	for {
		fr.executePhis()
	block:
		for _, instr := range fr.block.Instrs {
			switch fr.visit(instr) {
			case kReturn:
				fr.block = nil
				return
			case kJump:
				break block
			}
		}
	}
}

func (st *State) zeroResults(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return st.zero(res.At(0).Type())
	}
	return st.zero(res)
}

func (fr *frame) executePhis() {
	b := fr.block
	if len(b.Instrs) == 0 {
		return
	}
	if _, ok := b.Instrs[0].(*ssa.Phi); !ok {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == fr.prev {
			pi = i
			break
		}
	}
	type pv struct {
		phi *ssa.Phi
		v   Value
	}
	var tmp []pv
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		tmp = append(tmp, pv{phi, fr.get(phi.Edges[pi])})
	}
	for _, x := range tmp {
		fr.env[x.phi] = x.v
	}
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		if isControl(r) {
			panic(r)
		}
		tp, isT := r.(targetPanic)
		if !isT {
			panic(r)
		}
		fr.panicking = true
		fr.panicVal = tp
	}()
	fr.th.callValue(fr, d.fn.(*FuncV), d.args, d.call)
	ok = true
}

type contK int

const (
	kNext contK = iota
	kReturn
	kJump
)

func (fr *frame) visit(instr ssa.Instruction) contK {
	th := fr.th
	st := th.st
	st.steps++
	if st.steps > st.eng.maxSteps {
		panic(&pathStop{kind: stopLimit, msg: fmt.Sprintf("step limit in %s", fr.fn)})
	}
	ts := st.ts
	switch in := instr.(type) {
	case *ssa.DebugRef, *ssa.Phi:
	case *ssa.UnOp:
		fr.env[in] = fr.unop(in)
	case *ssa.BinOp:
		fr.env[in] = fr.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(in.X), fr.get(in.Y))
	case *ssa.Call:
		fr.env[in] = fr.doCall(&in.Call)
	case *ssa.ChangeInterface:
		fr.env[in] = fr.get(in.X)
	case *ssa.ChangeType:
		fr.env[in] = fr.get(in.X)
	case *ssa.Convert:
		fr.env[in] = fr.convert(in.Type(), in.X.Type(), fr.get(in.X))
	case *ssa.MultiConvert:
		fr.env[in] = fr.convert(in.Type(), in.X.Type(), fr.get(in.X))
	case *ssa.SliceToArrayPointer:
		s := fr.get(in.X).(*Slice)
		n := deref(in.Type()).Underlying().(*types.Array).Len()
		fr.env[in] = fr.sliceToArrayPtr(s, n, deref(in.Type()))
	case *ssa.MakeInterface:
		v := fr.get(in.X)
		if i, ok := v.(Iface); ok {
			fr.env[in] = i
		} else {
			fr.env[in] = Iface{in.X.Type(), v}
		}
	case *ssa.Extract:
		fr.env[in] = fr.get(in.Tuple).(Tuple)[in.Index]
	case *ssa.Slice:
		fr.env[in] = fr.slice(in)
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
		case 1:
			fr.result = fr.get(in.Results[0])
		default:
			res := make(Tuple, len(in.Results))
			for i, r := range in.Results {
				res[i] = fr.get(r)
			}
			fr.result = res
		}
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		panic(targetPanic{fr.get(in.X)})
	case *ssa.Send:
		th.chanSend(fr.get(in.Chan).(*ChanV), fr.get(in.X))
	case *ssa.Store:
		fr.storeTo(fr.get(in.Addr), fr.get(in.Val))
	case *ssa.If:
		succ := 1
		if st.branch(fr.get(in.Cond).(*Term)) {
			succ = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[succ]
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		return kJump
	case *ssa.Defer:
		fn, args := fr.prepareCall(&in.Call)
		d := &deferred{fn: fn, args: args, call: &in.Call}
		if in.DeferStack != nil {
			if box, ok := fr.get(in.DeferStack).(*Opaque); ok && box.name == "deferstack" {
				st.unsupported("defer stack")
			}
		}
		d.tail = fr.defers
		fr.defers = d
	case *ssa.Go:
		fn, args := fr.prepareCall(&in.Call)
		th.spawn(fn, args, &in.Call)
	case *ssa.MakeChan:
		n := fr.get(in.Size).(*Term)
		st.nextID++
		fr.env[in] = &ChanV{id: st.nextID, cap: int(int64(st.concretize(n)))}
	case *ssa.Alloc:
		fr.env[in] = st.newCell(deref(in.Type()))
	case *ssa.MakeSlice:
		fr.env[in] = fr.makeSlice(in)
	case *ssa.MakeMap:
		st.nextID++
		fr.env[in] = &MapV{t: in.Type().Underlying().(*types.Map), id: st.nextID}
	case *ssa.Range:
		fr.env[in] = fr.rangeIter(fr.get(in.X), in.X.Type())
	case *ssa.Next:
		fr.env[in] = fr.get(in.Iter).(iterV).next(fr)
	case *ssa.FieldAddr:
		fr.env[in] = fr.fieldAddr(fr.get(in.X), in.Field)
	case *ssa.Field:
		fr.env[in] = fr.get(in.X).(*StructV).f[in.Field]
	case *ssa.IndexAddr:
		fr.env[in] = fr.indexAddr(in)
	case *ssa.Index:
		fr.env[in] = fr.index(fr.get(in.X), st.asInt(fr.get(in.Index).(*Term), in.Index.Type()))
	case *ssa.Lookup:
		fr.env[in] = fr.lookup(in)
	case *ssa.MapUpdate:
		m := fr.get(in.Map).(*MapV)
		if m == nil {
			th.rtPanic("assignment to entry in nil map")
		}
		fr.mapSet(m, fr.get(in.Key), fr.get(in.Value))
	case *ssa.TypeAssert:
		fr.env[in] = fr.typeAssert(in)
	case *ssa.MakeClosure:
		b := make([]Value, len(in.Bindings))
		for i, x := range in.Bindings {
			b[i] = fr.get(x)
		}
		fr.env[in] = &FuncV{fn: in.Fn.(*ssa.Function), env: b}
	case *ssa.Select:
		fr.env[in] = fr.doSelect(in)
	default:
		st.unsupported("instruction %T", instr)
	}
	_ = ts
	return kNext
}

// --- panics ---

func (th *Thread) rtPanic(msg string) {
	panic(targetPanic{th.st.rtError(msg)})
}

func (st *State) rtError(msg string) Iface {
	return Iface{st.eng.rtErrorType, st.lit(msg)}
}

func (th *Thread) nilPanic() {
	th.rtPanic("invalid memory address or nil pointer dereference")
}

// --- memory ---

func (fr *frame) loadFrom(p Value, t types.Type) Value {
	st := fr.th.st
	switch x := p.(type) {
	case *Cell:
		if x == nil {
			fr.th.nilPanic()
		}
		return st.load(x)
	case *BytePtr:
		st.touchStore(x.s, false)
		return st.read(x.s.c, x.idx)
	}
	st.unsupported("load through %T", p)
	return nil
}

func (fr *frame) storeTo(p Value, v Value) {
	st := fr.th.st
	switch x := p.(type) {
	case *Cell:
		if x == nil {
			fr.th.nilPanic()
		}
		st.store(x, v)
		return
	case *BytePtr:
		st.touchStore(x.s, true)
		x.s.c = &cWrite{x.s.c, x.idx, v.(*Term)}
		return
	}
	st.unsupported("store through %T", p)
}

func (fr *frame) fieldAddr(p Value, i int) Value {
	c, ok := p.(*Cell)
	if !ok {
		fr.th.st.unsupported("field address of %T", p)
	}
	if c == nil {
		fr.th.nilPanic()
	}
	if c.sub == nil {
		fr.th.st.unsupported("field of opaque %v", c.t)
	}
	return c.sub[i]
}

// checkIndex panics (in the target) unless 0 <= i < n.
func (fr *frame) checkIndex(i, n *Term) {
	st := fr.th.st
	ok := st.ts.Ult(i, n)
	if ok.op == OUlt {
		// prefer the signed form when n is known to be non-negative
		if iv, o := st.interval(n); o && iv.lo >= 0 {
			ok = st.ts.And(st.ts.Not(st.ts.Slt(i, st.ts.Int(0))), st.ts.Slt(i, n))
		}
	}
	if !st.branch(ok) {
		fr.th.rtPanic("index out of range")
	}
}

func (st *State) asInt(t *Term, ty types.Type) *Term {
	w, signed, _ := intWidth(ty)
	if w == 64 {
		return t
	}
	if signed {
		return st.ts.Sext(t, 64)
	}
	return st.ts.Zext(t, 64)
}

func (fr *frame) indexAddr(in *ssa.IndexAddr) Value {
	st := fr.th.st
	idx := st.asInt(fr.get(in.Index).(*Term), in.Index.Type())
	switch x := fr.get(in.X).(type) {
	case *Slice:
		if x.isBytes {
			fr.checkIndex(idx, x.len_)
			return &BytePtr{x.bs, st.ts.Add(x.off, idx)}
		}
		fr.checkIndex(idx, st.ts.Int(int64(x.n)))
		return fr.pick(in, x.cells[:x.n], idx)
	case *Cell:
		if x == nil {
			fr.th.nilPanic()
		}
		if x.bs != nil {
			fr.checkIndex(idx, x.bs.size)
			return &BytePtr{x.bs, idx}
		}
		fr.checkIndex(idx, st.ts.Int(int64(len(x.sub))))
		return fr.pick(in, x.sub, idx)
	case *byteArrPtr:
		fr.checkIndex(idx, st.ts.Int(x.n))
		return &BytePtr{x.s, st.ts.Add(x.off, idx)}
	default:
		st.unsupported("index address of %T", x)
	}
	return nil
}

// pick selects the cell a symbolic index points to.  Cells that are only
// read are explored per distinct value, not per index.
func (fr *frame) pick(in *ssa.IndexAddr, cells []*Cell, idx *Term) *Cell {
	st := fr.th.st
	if idx.isConst() || len(cells) < 8 {
		return cells[st.concretize(idx)]
	}
	for _, r := range *in.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			return cells[st.concretize(idx)]
		}
	}
	var groups [][]int
	keys := map[interface{}]int{}
	for i, c := range cells {
		if c.sub != nil || c.bs != nil {
			return cells[st.concretize(idx)]
		}
		var k interface{} = i
		switch v := c.v.(type) {
		case *Term:
			k = v
		case *Slice:
			if v.isNil {
				k = "nil"
			}
		case *Str:
			if l, ok := st.litOf(v); ok {
				k = "s" + l
			}
		}
		g, ok := keys[k]
		if !ok {
			g = len(groups)
			keys[k] = g
			groups = append(groups, nil)
		}
		groups[g] = append(groups[g], i)
	}
	big := 0
	for g := range groups {
		if len(groups[g]) > len(groups[big]) {
			big = g
		}
	}
	if len(groups) > 40 || len(cells)-len(groups[big]) > 128 {
		return cells[st.concretize(idx)]
	}
	for g, is := range groups {
		if g == big {
			continue
		}
		c := st.ts.tFalse
		for _, i := range is {
			c = st.ts.Or(c, st.ts.Eq(idx, st.ts.BV(idx.w, uint64(i))))
		}
		if st.branch(c) {
			return cells[is[0]]
		}
	}
	return cells[groups[big][0]]
}

// byteArrPtr is a pointer to a byte array inside a byte store.
type byteArrPtr struct {
	s   *ByteStore
	off *Term
	n   int64
}

func (fr *frame) sliceToArrayPtr(s *Slice, n int64, t types.Type) Value {
	st := fr.th.st
	if s.isBytes {
		if st.branch(st.ts.Slt(s.len_, st.ts.Int(n))) {
			fr.th.rtPanic("cannot convert slice to array or pointer to array: too short")
		}
		return &byteArrPtr{s.bs, s.off, n}
	}
	if int64(s.n) < n {
		fr.th.rtPanic("cannot convert slice to array or pointer to array: too short")
	}
	return &Cell{t: t, sub: s.cells[:n], id: -1}
}

func (fr *frame) index(x Value, idx *Term) Value {
	st := fr.th.st
	switch v := x.(type) {
	case *Str:
		fr.checkIndex(idx, v.n)
		return st.read(v.c, st.ts.Add(v.off, idx))
	case *BArrV:
		fr.checkIndex(idx, st.ts.Int(v.n))
		return st.read(v.c, idx)
	case *ArrV:
		fr.checkIndex(idx, st.ts.Int(int64(len(v.e))))
		return v.e[st.concretize(idx)]
	}
	st.unsupported("index of %T", x)
	return nil
}

func (fr *frame) lookup(in *ssa.Lookup) Value {
	st := fr.th.st
	x := fr.get(in.X)
	if s, ok := x.(*Str); ok {
		return fr.index(s, st.asInt(fr.get(in.Index).(*Term), in.Index.Type()))
	}
	m := x.(*MapV)
	v, ok := fr.mapGet(m, fr.get(in.Index))
	if !ok {
		v = st.zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		return Tuple{v, st.ts.Bool(ok)}
	}
	return v
}

func (fr *frame) mapFind(m *MapV, k Value) *mapEntry {
	st := fr.th.st
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		fr.th.rtPanic("hash of unhashable type " + typeString(i.t))
	}
	for _, e := range m.entries {
		if st.branch(fr.eq(m.t.Key(), e.k, k)) {
			return e
		}
	}
	return nil
}

func (fr *frame) mapGet(m *MapV, k Value) (Value, bool) {
	if m == nil {
		return nil, false
	}
	fr.th.st.touchMap(m, false)
	if e := fr.mapFind(m, k); e != nil {
		return e.v, true
	}
	return nil, false
}

func (fr *frame) mapSet(m *MapV, k, v Value) {
	fr.th.st.touchMap(m, true)
	if e := fr.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	// copy on write: iterators hold snapshots
	m.entries = append(append([]*mapEntry{}, m.entries...), &mapEntry{k, v})
}

func (fr *frame) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	fr.th.st.touchMap(m, true)
	e := fr.mapFind(m, k)
	if e == nil {
		return
	}
	var out []*mapEntry
	for _, x := range m.entries {
		if x != e {
			out = append(out, x)
		}
	}
	m.entries = out
}

type iterV interface{ next(fr *frame) Value }

type mapIter struct {
	m    *MapV
	todo []*mapEntry
}

func (it *mapIter) next(fr *frame) Value {
	st := fr.th.st
	for len(it.todo) > 0 {
		i := 0
		if st.mapOrder && len(it.todo) > 1 {
			st.usedMapOrder = true
			i = st.choose(len(it.todo))
		}
		e := it.todo[i]
		it.todo = append(append([]*mapEntry{}, it.todo[:i]...), it.todo[i+1:]...)
		for _, x := range it.m.entries {
			if x == e {
				return Tuple{st.ts.tTrue, e.k, e.v}
			}
		}
	}
	var k, v Value
	if it.m != nil {
		k, v = st.zero(it.m.t.Key()), st.zero(it.m.t.Elem())
	}
	return Tuple{st.ts.tFalse, k, v}
}

type strIter struct {
	s   *Str
	pos *Term
}

func (it *strIter) next(fr *frame) Value {
	st := fr.th.st
	ts := st.ts
	if !st.branch(ts.Slt(it.pos, it.s.n)) {
		return Tuple{ts.tFalse, ts.Int(0), ts.BV(32, 0)}
	}
	b := st.read(it.s.c, ts.Add(it.s.off, it.pos))
	pos := it.pos
	if st.branch(ts.Ult(b, ts.BV(8, 0x80))) {
		it.pos = ts.Add(it.pos, ts.Int(1))
		return Tuple{ts.tTrue, pos, ts.Zext(b, 32)}
	}
	rest := &Str{c: it.s.c, off: ts.Add(it.s.off, it.pos), n: ts.Sub(it.s.n, it.pos), max: it.s.max}
	fn := st.eng.fnByName("unicode/utf8.DecodeRuneInString")
	r := fr.th.callFn(fr, fn, []Value{rest}, nil).(Tuple)
	it.pos = ts.Add(it.pos, r[1].(*Term))
	return Tuple{ts.tTrue, pos, r[0]}
}

func (fr *frame) rangeIter(x Value, t types.Type) Value {
	switch v := x.(type) {
	case *MapV:
		if v == nil {
			return &mapIter{m: &MapV{t: t.Underlying().(*types.Map)}}
		}
		fr.th.st.touchMap(v, false)
		return &mapIter{m: v, todo: v.entries}
	case *Str:
		return &strIter{s: v, pos: fr.th.st.ts.Int(0)}
	}
	fr.th.st.unsupported("range over %T", x)
	return nil
}

// --- slices ---

func (fr *frame) makeSlice(in *ssa.MakeSlice) Value {
	st := fr.th.st
	ts := st.ts
	l := st.asInt(fr.get(in.Len).(*Term), in.Len.Type())
	c := st.asInt(fr.get(in.Cap).(*Term), in.Cap.Type())
	elem := in.Type().Underlying().(*types.Slice).Elem()
	limit := ts.Int(1 << 40)
	if st.branch(ts.Or(ts.Slt(l, ts.Int(0)), ts.Slt(limit, l))) {
		fr.th.rtPanic("makeslice: len out of range")
	}
	if c != l {
		if st.branch(ts.Or(ts.Slt(c, l), ts.Slt(limit, c))) {
			fr.th.rtPanic("makeslice: cap out of range")
		}
	}
	if isByteType(elem) {
		return &Slice{isBytes: true, bs: st.newStore(zeroContent, c), off: ts.Int(0), len_: l, cap_: c}
	}
	n, k := int(st.concretize(l)), int(st.concretize(c))
	return st.newSlice(elem, n, k)
}

func (st *State) newSlice(elem types.Type, n, k int) *Slice {
	if k > 1<<20 {
		st.unsupported("slice of %d", k)
	}
	s := &Slice{n: n, cells: make([]*Cell, k)}
	for i := range s.cells {
		s.cells[i] = st.newCell(elem)
	}
	return s
}

func (fr *frame) slice(in *ssa.Slice) Value {
	st := fr.th.st
	ts := st.ts
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return st.asInt(fr.get(v).(*Term), v.Type())
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	oob := func() { fr.th.rtPanic("slice bounds out of range") }
	// le branches on 0 <= a <= b
	chk := func(a, b *Term) {
		c := ts.And(ts.Not(ts.Slt(a, ts.Int(0))), ts.Not(ts.Slt(b, a)))
		if !st.branch(c) {
			oob()
		}
	}
	switch x := fr.get(in.X).(type) {
	case *Str:
		if lo == nil {
			lo = ts.Int(0)
		}
		if hi == nil {
			hi = x.n
		} else {
			chk(hi, x.n)
		}
		chk(lo, hi)
		return st.substr(x, lo, hi)
	case *Slice:
		if x.isBytes {
			return fr.sliceBytes(x.isNil, x.bs, x.off, x.len_, x.cap_, lo, hi, mx, chk)
		}
		return fr.sliceCells(x.isNil, x.cells, x.n, lo, hi, mx, chk)
	case *Cell:
		if x == nil {
			fr.th.nilPanic()
		}
		if x.bs != nil {
			return fr.sliceBytes(false, x.bs, ts.Int(0), x.bs.size, x.bs.size, lo, hi, mx, chk)
		}
		return fr.sliceCells(false, x.sub, len(x.sub), lo, hi, mx, chk)
	case *byteArrPtr:
		return fr.sliceBytes(false, x.s, x.off, ts.Int(x.n), ts.Int(x.n), lo, hi, mx, chk)
	default:
		st.unsupported("slice of %T", x)
	}
	return nil
}

func (st *State) substr(x *Str, lo, hi *Term) *Str {
	if l, ok := st.litOf(x); ok && lo.isConst() && hi.isConst() {
		return st.lit(l[lo.val:hi.val])
	}
	return &Str{c: x.c, off: st.ts.Add(x.off, lo), n: st.ts.Sub(hi, lo), max: x.max}
}

func (fr *frame) sliceBytes(isNil bool, bs *ByteStore, off, ln, cp, lo, hi, mx *Term, chk func(a, b *Term)) Value {
	ts := fr.th.st.ts
	if mx != nil {
		chk(mx, cp)
	} else {
		mx = cp
	}
	if hi != nil {
		chk(hi, mx)
	} else {
		hi = ln
	}
	if lo != nil {
		chk(lo, hi)
	} else {
		lo = ts.Int(0)
	}
	return &Slice{isNil: isNil, isBytes: true, bs: bs, off: ts.Add(off, lo), len_: ts.Sub(hi, lo), cap_: ts.Sub(mx, lo)}
}

func (fr *frame) sliceCells(isNil bool, cells []*Cell, n int, lo, hi, mx *Term, chk func(a, b *Term)) Value {
	st := fr.th.st
	ts := st.ts
	c := ts.Int(int64(len(cells)))
	m, h, l := len(cells), n, 0
	if mx != nil {
		chk(mx, c)
		m = int(st.concretize(mx))
	}
	if hi != nil {
		chk(hi, ts.Int(int64(m)))
		h = int(st.concretize(hi))
	}
	if lo != nil {
		chk(lo, ts.Int(int64(h)))
		l = int(st.concretize(lo))
	}
	return &Slice{isNil: isNil, cells: cells[l:m:m], n: h - l}
}

func (s *Slice) length(st *State) *Term {
	if s.isBytes {
		return s.len_
	}
	return st.ts.Int(int64(s.n))
}

// strOfBytes snapshots a byte slice as a string.
func (st *State) strOfBytes(s *Slice) *Str {
	st.touchStore(s.bs, false)
	mx := -1
	if iv, ok := st.interval(s.len_); ok && iv.hi < 1<<30 {
		mx = int(iv.hi)
	}
	if s.len_.isConst() && s.len_.val == 0 {
		return st.lit("")
	}
	r := &Str{c: s.bs.c, off: s.off, n: s.len_, max: mx}
	if l, ok := st.litOf(r); ok {
		return st.lit(l)
	}
	return st.peel(r)
}

// peel replaces a view that lies inside one copied or concatenated piece by
// that piece.
func (st *State) peel(s *Str) *Str {
	for {
		switch c := s.c.(type) {
		case *cCopy:
			rel := st.ts.Sub(s.off, c.dst)
			if rel.isConst() && rel.val == 0 && c.n == s.n {
				s = &Str{c: c.src, off: c.srcOff, n: s.n, max: s.max}
				if cc, ok := s.c.(*cConcat); ok && s.off.isConst() && s.off.val == 0 {
					_ = cc
				}
				continue
			}
			// disjoint from the copied range
			end := st.ts.Add(c.dst, c.n)
			if v, ok := st.decide(st.ts.Sle(end, s.off)); ok && v {
				s = &Str{c: c.below, off: s.off, n: s.n, max: s.max}
				continue
			}
			if v, ok := st.decide(st.ts.Sle(st.ts.Add(s.off, s.n), c.dst)); ok && v {
				s = &Str{c: c.below, off: s.off, n: s.n, max: s.max}
				continue
			}
			// [below part][copied part] with matching ends
			if rel2 := st.ts.Sub(st.ts.Add(s.off, s.n), end); rel2.isConst() && rel2.val == 0 {
				pre := st.ts.Sub(c.dst, s.off)
				if v, ok := st.decide(st.ts.Sle(st.ts.Int(0), pre)); ok && v {
					a := st.peel(&Str{c: c.below, off: s.off, n: pre, max: s.max})
					b := st.peel(&Str{c: c.src, off: c.srcOff, n: c.n, max: s.max})
					if iv, ok := st.interval(pre); ok {
						a.max = int(iv.hi)
					}
					if iv, ok := st.interval(c.n); ok {
						b.max = int(iv.hi)
					}
					return st.concat(a, b)
				}
			}
		}
		return s
	}
}

func (st *State) bytesOfStr(s *Str) *Slice {
	bs := st.newStore(s.c, s.n)
	z := st.ts.Int(0)
	if s.off != z {
		bs.c = &cCopy{below: zeroContent, dst: z, n: s.n, src: s.c, srcOff: s.off}
	}
	return &Slice{isBytes: true, bs: bs, off: z, len_: s.n, cap_: s.n}
}

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int64) int64 {
	for _, c := range sizeClasses {
		if c >= n {
			return c
		}
	}
	return (n + 8191) &^ 8191
}

func growCap(old, need int64, elem int64) int64 {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 768) >> 2
		}
	}
	if elem <= 0 {
		elem = 1
	}
	return roundSize(nc*elem) / elem
}

func (fr *frame) append(x, y Value, t types.Type) Value {
	st := fr.th.st
	ts := st.ts
	s := x.(*Slice)
	if s.isBytes {
		var yc Content
		var yoff, yn *Term
		switch v := y.(type) {
		case *Str:
			yc, yoff, yn = v.c, v.off, v.n
		case *Slice:
			st.touchStore(v.bs, false)
			yc, yoff, yn = v.bs.c, v.off, v.len_
		}
		if yn.isConst() && yn.val == 0 {
			return s
		}
		nl := ts.Add(s.len_, yn)
		if s.cap_.isConst() && s.cap_.val == 0 || !st.branch(ts.Sle(nl, s.cap_)) {
			nc := nl
			if nl.isConst() && s.cap_.isConst() {
				nc = ts.Int(growCap(s.cap_.sval(), nl.sval(), 1))
			}
			z := ts.Int(0)
			c := Content(zeroContent)
			if !(s.len_.isConst() && s.len_.val == 0) {
				st.touchStore(s.bs, false)
				c = &cCopy{c, z, s.len_, s.bs.c, s.off}
			}
			c = &cCopy{c, s.len_, yn, yc, yoff}
			bs := st.newStore(c, nc)
			return &Slice{isBytes: true, bs: bs, off: z, len_: nl, cap_: nc}
		}
		st.touchStore(s.bs, true)
		s.bs.c = &cCopy{s.bs.c, ts.Add(s.off, s.len_), yn, yc, yoff}
		return &Slice{isBytes: true, bs: s.bs, off: s.off, len_: nl, cap_: s.cap_}
	}
	ys := y.(*Slice)
	if ys.n == 0 {
		return s
	}
	vals := make([]Value, ys.n)
	for i := range vals {
		vals[i] = st.load(ys.cells[i])
	}
	nl := s.n + ys.n
	if nl <= len(s.cells) {
		for i, v := range vals {
			st.store(s.cells[s.n+i], v)
		}
		return &Slice{cells: s.cells, n: nl}
	}
	elem := t.Underlying().(*types.Slice).Elem()
	size := st.eng.sizes.Sizeof(elem)
	nc := int(growCap(int64(len(s.cells)), int64(nl), size))
	ns := st.newSlice(elem, nl, nc)
	for i := 0; i < s.n; i++ {
		st.store(ns.cells[i], st.load(s.cells[i]))
	}
	for i, v := range vals {
		st.store(ns.cells[s.n+i], v)
	}
	return ns
}

func (fr *frame) copyBuiltin(dst, src Value) Value {
	st := fr.th.st
	ts := st.ts
	d := dst.(*Slice)
	if d.isBytes {
		var yc Content
		var yoff, yn *Term
		switch v := src.(type) {
		case *Str:
			yc, yoff, yn = v.c, v.off, v.n
		case *Slice:
			yc, yoff, yn = v.bs.c, v.off, v.len_
			defer func() { st.touchStore(v.bs, false) }()
		}
		n := yn
		if d.len_ != yn {
			if st.branch(ts.Slt(d.len_, yn)) {
				n = d.len_
			}
		}
		if n.isConst() && n.val == 0 {
			return n
		}
		st.touchStore(d.bs, true)
		d.bs.c = &cCopy{d.bs.c, d.off, n, yc, yoff}
		return n
	}
	s := src.(*Slice)
	n := min(d.n, s.n)
	vals := make([]Value, n)
	for i := range vals {
		vals[i] = st.load(s.cells[i])
	}
	for i, v := range vals {
		st.store(d.cells[i], v)
	}
	return ts.Int(int64(n))
}

// --- operators ---

func (fr *frame) unop(in *ssa.UnOp) Value {
	st := fr.th.st
	ts := st.ts
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		return fr.loadFrom(x, in.Type())
	case token.NOT:
		return ts.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if t.w == FP {
			return ts.FNeg(t)
		}
		return ts.Neg(t)
	case token.XOR:
		return ts.NotBV(x.(*Term))
	case token.ARROW:
		v, ok := fr.th.chanRecv(x.(*ChanV), in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, ts.Bool(ok)}
		}
		return v
	}
	st.unsupported("unop %v", in.Op)
	return nil
}

func (fr *frame) binop(op token.Token, tx, ty types.Type, x, y Value) Value {
	st := fr.th.st
	ts := st.ts
	switch op {
	case token.EQL:
		return fr.eqMixed(tx, ty, x, y)
	case token.NEQ:
		return ts.Not(fr.eqMixed(tx, ty, x, y))
	}
	if sx, ok := x.(*Str); ok {
		sy := y.(*Str)
		switch op {
		case token.ADD:
			return st.concat(sx, sy)
		case token.LSS:
			return fr.strLess(sx, sy)
		case token.GTR:
			return fr.strLess(sy, sx)
		case token.LEQ:
			return ts.Not(fr.strLess(sy, sx))
		case token.GEQ:
			return ts.Not(fr.strLess(sx, sy))
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		st.unsupported("binop %v on %T %T", op, x, y)
	}
	if a.w == FP {
		if i, ok := st.fpInt(a); ok {
			if j, ok := st.fpInt(b); ok {
				switch op {
				case token.ADD:
					return ts.ToFP(ts.Add(i, j), true)
				case token.LSS:
					return ts.Slt(i, j)
				case token.LEQ:
					return ts.Sle(i, j)
				case token.GTR:
					return ts.Slt(j, i)
				case token.GEQ:
					return ts.Sle(j, i)
				}
			}
		}
		switch op {
		case token.ADD:
			return ts.FBin(OFAdd, a, b)
		case token.SUB:
			return ts.FBin(OFSub, a, b)
		case token.MUL:
			return ts.FBin(OFMul, a, b)
		case token.QUO:
			return ts.FBin(OFDiv, a, b)
		case token.LSS:
			return ts.FBin(OFLt, a, b)
		case token.LEQ:
			return ts.FBin(OFLe, a, b)
		case token.GTR:
			return ts.FBin(OFLt, b, a)
		case token.GEQ:
			return ts.FBin(OFLe, b, a)
		}
		st.unsupported("float op %v", op)
	}
	if a.w == 0 {
		switch op {
		case token.AND, token.LAND:
			return ts.And(a, b)
		case token.OR, token.LOR:
			return ts.Or(a, b)
		case token.XOR:
			return ts.Not(ts.Eq(a, b))
		}
		st.unsupported("bool op %v", op)
	}
	_, signed, _ := intWidth(tx)
	switch op {
	case token.ADD:
		return ts.Add(a, b)
	case token.SUB:
		return ts.Sub(a, b)
	case token.MUL:
		return ts.Mul(a, b)
	case token.QUO, token.REM:
		if st.branch(ts.Eq(b, ts.BV(b.w, 0))) {
			fr.th.rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			if signed {
				if r, ok := st.interval(a); ok && r.lo >= 0 && b.isConst() && b.sval() > 0 {
					return ts.Bin(OUDiv, a, b)
				}
				return ts.Bin(OSDiv, a, b)
			}
			return ts.Bin(OUDiv, a, b)
		}
		if signed {
			if r, ok := st.interval(a); ok && r.lo >= 0 && b.isConst() && b.sval() > 0 {
				return ts.Bin(OURem, a, b)
			}
			return ts.Bin(OSRem, a, b)
		}
		return ts.Bin(OURem, a, b)
	case token.AND:
		return ts.Bin(OAnd, a, b)
	case token.OR:
		return ts.Bin(OOr, a, b)
	case token.XOR:
		return ts.Bin(OXor, a, b)
	case token.AND_NOT:
		return ts.Bin(OAnd, a, ts.NotBV(b))
	case token.SHL, token.SHR:
		return fr.shift(op, a, b, signed, ty)
	case token.LSS:
		return st.less(a, b, signed)
	case token.GTR:
		return st.less(b, a, signed)
	case token.LEQ:
		return ts.Not(st.less(b, a, signed))
	case token.GEQ:
		return ts.Not(st.less(a, b, signed))
	}
	st.unsupported("binop %v", op)
	return nil
}

func (st *State) less(a, b *Term, signed bool) *Term {
	if signed {
		return st.ts.Slt(a, b)
	}
	return st.ts.Ult(a, b)
}

func (fr *frame) shift(op token.Token, a, b *Term, signed bool, ty types.Type) Value {
	st := fr.th.st
	ts := st.ts
	_, bs, _ := intWidth(ty)
	if bs {
		if st.branch(ts.Slt(b, ts.BV(b.w, 0))) {
			fr.th.rtPanic("negative shift amount")
		}
	}
	sop := OShl
	if op == token.SHR {
		sop = OLshr
		if signed {
			sop = OAshr
		}
	}
	w := a.w
	var sh *Term
	if b.w <= w {
		sh = ts.Zext(b, w)
		return ts.Bin(sop, a, sh)
	}
	big := ts.Not(ts.Ult(b, ts.BV(b.w, uint64(w))))
	over := ts.BV(w, 0)
	if sop == OAshr {
		over = ts.Bin(OAshr, a, ts.BV(w, uint64(w-1)))
	}
	return ts.Ite(big, over, ts.Bin(sop, a, ts.Extract(b, w)))
}

func (fr *frame) strLess(a, b *Str) *Term {
	st := fr.th.st
	la, ok1 := st.litOf(a)
	lb, ok2 := st.litOf(b)
	if ok1 && ok2 {
		return st.ts.Bool(la < lb)
	}
	ts := st.ts
	bound := a.max
	if bound < 0 || (b.max >= 0 && b.max < bound) {
		bound = b.max
	}
	if bound < 0 || bound > 64 {
		st.unsupported("ordering of long symbolic strings")
	}
	// from the back: equal so far up to i
	r := ts.Slt(a.n, b.n)
	for i := bound - 1; i >= 0; i-- {
		ii := ts.Int(int64(i))
		in := ts.And(ts.Slt(ii, a.n), ts.Slt(ii, b.n))
		x, y := st.read(a.c, ts.Add(a.off, ii)), st.read(b.c, ts.Add(b.off, ii))
		r = ts.Ite(in, ts.Ite(ts.Eq(x, y), r, ts.Ult(x, y)), r)
	}
	return r
}

func (fr *frame) eqMixed(tx, ty types.Type, x, y Value) *Term {
	_, ix := tx.Underlying().(*types.Interface)
	_, iy := ty.Underlying().(*types.Interface)
	if ix && !iy {
		if _, ok := y.(Iface); !ok {
			y = Iface{ty, y}
		}
		return fr.eq(tx, x, y)
	}
	if iy && !ix {
		if _, ok := x.(Iface); !ok {
			x = Iface{tx, x}
		}
		return fr.eq(ty, x, y)
	}
	return fr.eq(tx, x, y)
}

// eq is the condition x == y for values of type t.
func (fr *frame) eq(t types.Type, x, y Value) *Term {
	st := fr.th.st
	ts := st.ts
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.w == FP {
			if i, ok := st.fpInt(a); ok {
				if j, ok := st.fpInt(b); ok {
					return ts.Eq(i, j)
				}
			}
			return ts.FBin(OFEq, a, b)
		}
		return ts.Eq(a, b)
	case *Str:
		return st.strEq(a, y.(*Str))
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			st.unsupported("interface compared with %T", y)
		}
		if a.t == nil || b.t == nil {
			return ts.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return ts.tFalse
		}
		if !types.Comparable(a.t) {
			fr.th.rtPanic("comparing uncomparable type " + typeString(a.t))
		}
		return fr.eq(a.t, a.v, b.v)
	case *StructV:
		b := y.(*StructV)
		s := t.Underlying().(*types.Struct)
		r := ts.tTrue
		for i := range a.f {
			if s.Field(i).Name() == "_" {
				continue
			}
			r = ts.And(r, fr.eq(s.Field(i).Type(), a.f[i], b.f[i]))
		}
		return r
	case *ArrV:
		b := y.(*ArrV)
		e := t.Underlying().(*types.Array).Elem()
		r := ts.tTrue
		for i := range a.e {
			r = ts.And(r, fr.eq(e, a.e[i], b.e[i]))
		}
		return r
	case *BArrV:
		b := y.(*BArrV)
		return st.strEq(&Str{c: a.c, off: ts.Int(0), n: ts.Int(a.n), max: int(a.n)}, &Str{c: b.c, off: ts.Int(0), n: ts.Int(b.n), max: int(b.n)})
	case *Cell:
		switch b := y.(type) {
		case *Cell:
			return ts.Bool(a == b)
		default:
			return ts.tFalse
		}
	case *BytePtr:
		if b, ok := y.(*BytePtr); ok {
			if a.s != b.s {
				return ts.tFalse
			}
			return ts.Eq(a.idx, b.idx)
		}
		return ts.tFalse
	case *byteArrPtr:
		if b, ok := y.(*byteArrPtr); ok {
			return ts.And(ts.Bool(a.s == b.s), ts.Eq(a.off, b.off))
		}
		return ts.tFalse
	case *Slice:
		b := y.(*Slice)
		if b.isNil {
			return ts.Bool(a.isNil)
		}
		if a.isNil {
			return ts.Bool(b.isNil)
		}
		return ts.Bool(false)
	case *MapV:
		b := y.(*MapV)
		return ts.Bool(a == b)
	case *FuncV:
		b := y.(*FuncV)
		return ts.Bool(a == nil && b == nil)
	case *ChanV:
		return ts.Bool(a == y.(*ChanV))
	case *Opaque:
		return ts.Bool(x == y)
	}
	st.unsupported("equality of %T", x)
	return nil
}

func (fr *frame) convert(dst, src types.Type, x Value) Value {
	st := fr.th.st
	ts := st.ts
	if t, ok := x.(*Term); ok {
		dw, _, dint := intWidth(dst)
		_, ssigned, sint := intWidth(src)
		switch {
		case dint && sint:
			if t.w == dw {
				return t
			}
			if t.w > dw {
				return ts.Extract(t, dw)
			}
			if ssigned {
				return ts.Sext(t, dw)
			}
			return ts.Zext(t, dw)
		case isFloat(dst) && sint:
			return ts.ToFP(t, ssigned)
		case isFloat(dst) && t.w == FP:
			if dst.Underlying().(*types.Basic).Kind() == types.Float32 {
				if t.isConst() {
					return ts.Float(float64(float32(fl(t))))
				}
				st.unsupported("symbolic float32")
			}
			return t
		case dint && t.w == FP:
			if t.isConst() {
				return ts.BV(dw, uint64(int64(fl(t))))
			}
			st.unsupported("symbolic float to int")
		case isString(dst) && sint:
			if t.isConst() {
				return st.lit(string(rune(t.sval())))
			}
			fn := st.eng.fnByName("unicode/utf8.AppendRune")
			r := fr.th.callFn(fr, fn, []Value{st.nilSlice(types.Typ[types.Uint8]), ts.Extract(st.asInt(t, src), 32)}, nil)
			return st.strOfBytes(r.(*Slice))
		}
	}
	switch v := x.(type) {
	case *Str:
		if isString(dst) {
			return v
		}
		if sl, ok := dst.Underlying().(*types.Slice); ok {
			if isByteType(sl.Elem()) {
				return st.bytesOfStr(v)
			}
			l, ok := st.litOf(v)
			if !ok {
				var vs []Value
				it := &strIter{s: v, pos: ts.Int(0)}
				for {
					r := it.next(fr).(Tuple)
					if r[0].(*Term) == ts.tFalse {
						break
					}
					vs = append(vs, r[2])
				}
				out := st.newSlice(sl.Elem(), len(vs), len(vs))
				for i, r := range vs {
					out.cells[i].v = r
				}
				return out
			}
			rs := []rune(l)
			out := st.newSlice(sl.Elem(), len(rs), len(rs))
			for i, r := range rs {
				out.cells[i].v = ts.BV(32, uint64(r))
			}
			return out
		}
	case *Slice:
		if isString(dst) {
			if v.isBytes {
				return st.strOfBytes(v)
			}
			var out Value = st.nilSlice(types.Typ[types.Uint8])
			fn := st.eng.fnByName("unicode/utf8.AppendRune")
			for i := 0; i < v.n; i++ {
				out = fr.th.callFn(fr, fn, []Value{out, st.load(v.cells[i])}, nil)
			}
			return st.strOfBytes(out.(*Slice))
		}
		return v
	case *Cell, *BytePtr, *byteArrPtr, *Opaque:
		if w, _, ok := intWidth(dst); ok {
			st.unsupported("pointer to integer conversion (%d)", w)
		}
		return x
	}
	if types.Identical(dst.Underlying(), src.Underlying()) {
		return x
	}
	st.unsupported("conversion %v -> %v", src, dst)
	return nil
}

func (fr *frame) typeAssert(in *ssa.TypeAssert) Value {
	st := fr.th.st
	ts := st.ts
	x, ok := fr.get(in.X).(Iface)
	if !ok {
		st.unsupported("type assertion on %T", fr.get(in.X))
	}
	var v Value
	matched := false
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && st.eng.implements(x.t, it) {
			matched = true
			v = x
		} else {
			v = Iface{}
		}
	} else {
		if x.t != nil && types.Identical(x.t, in.AssertedType) {
			matched = true
			v = x.v
		} else if !matched {
			v = st.zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return Tuple{v, ts.Bool(matched)}
	}
	if !matched {
		fr.th.rtPanic(fmt.Sprintf("interface conversion: %v is not %v", typeString(x.t), in.AssertedType))
	}
	return v
}

// --- calls ---

func (fr *frame) prepareCall(c *ssa.CallCommon) (Value, []Value) {
	st := fr.th.st
	var args []Value
	if c.IsInvoke() {
		r, ok := fr.get(c.Value).(Iface)
		if !ok {
			st.unsupported("invoke on %T", fr.get(c.Value))
		}
		if r.t == nil {
			fr.th.nilPanic()
		}
		fn := st.eng.lookupMethod(r.t, c.Method)
		if fn == nil {
			st.unsupported("no method %v on %v", c.Method, r.t)
		}
		args = append(args, r.v)
		for _, a := range c.Args {
			args = append(args, fr.get(a))
		}
		return &FuncV{fn: fn}, args
	}
	fv := fr.get(c.Value)
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fv, args
}

func (fr *frame) doCall(c *ssa.CallCommon) Value {
	fv, args := fr.prepareCall(c)
	f, ok := fv.(*FuncV)
	if !ok {
		fr.th.st.unsupported("call of %T", fv)
	}
	return fr.th.callValue(fr, f, args, c)
}

// callMethod calls a method by name on an interface value.
func (fr *frame) callMethod(v Iface, name string, args ...Value) (Value, bool) {
	fn := fr.th.st.eng.methodByName(v.t, name)
	if fn == nil {
		return nil, false
	}
	return fr.th.callFn(fr, fn, append([]Value{v.v}, args...), nil), true
}

func (th *Thread) callBuiltin(fr *frame, b *ssa.Builtin, args []Value, site *ssa.CallCommon) Value {
	st := th.st
	ts := st.ts
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return x.n
		case *Slice:
			return x.length(st)
		case *MapV:
			if x == nil {
				return ts.Int(0)
			}
			st.touchMap(x, false)
			return ts.Int(int64(len(x.entries)))
		case *ArrV:
			return ts.Int(int64(len(x.e)))
		case *BArrV:
			return ts.Int(x.n)
		case *Cell:
			if x == nil {
				return ts.Int(deref(site.Args[0].Type()).Underlying().(*types.Array).Len())
			}
			if x.bs != nil {
				return x.bs.size
			}
			return ts.Int(int64(len(x.sub)))
		case *ChanV:
			if x == nil {
				return ts.Int(0)
			}
			return ts.Int(int64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case *Slice:
			if x.isBytes {
				return x.cap_
			}
			return ts.Int(int64(len(x.cells)))
		case *Cell:
			if x != nil && x.bs != nil {
				return x.bs.size
			}
			return ts.Int(int64(len(x.sub)))
		case *ChanV:
			return ts.Int(int64(x.cap))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		return fr.append(args[0], args[1], site.Args[0].Type())
	case "copy":
		return fr.copyBuiltin(args[0], args[1])
	case "delete":
		fr.mapDelete(args[0].(*MapV), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				st.touchMap(x, true)
				x.entries = nil
			}
		case *Slice:
			if x.isBytes {
				st.touchStore(x.bs, true)
				x.bs.c = &cCopy{x.bs.c, x.off, x.len_, zeroContent, ts.Int(0)}
			} else {
				for i := 0; i < x.n; i++ {
					st.store(x.cells[i], st.zero(x.cells[i].t))
				}
			}
		}
		return nil
	case "close":
		c := args[0].(*ChanV)
		if c == nil {
			th.rtPanic("close of nil channel")
		}
		if c.closed {
			th.rtPanic("close of closed channel")
		}
		c.closed = true
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		return fr.doRecover()
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, y := r.(*Term), a.(*Term)
			if x.w == FP {
				st.unsupported("float min/max")
			}
			_, signed, _ := intWidth(site.Args[0].Type())
			c := st.less(y, x, signed)
			if b.Name() == "max" {
				c = st.less(x, y, signed)
			}
			if st.branch(c) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if c, ok := args[0].(*Cell); ok && c == nil {
			th.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return &Opaque{"deferstack0"}
	case "StringData":
		s := args[0].(*Str)
		return &BytePtr{st.newStore(s.c, ts.Add(s.off, s.n)), s.off}
	case "SliceData":
		s := args[0].(*Slice)
		if s.isBytes {
			return &BytePtr{s.bs, s.off}
		}
		if len(s.cells) > 0 {
			return s.cells[0]
		}
		return (*Cell)(nil)
	case "String":
		n := st.asInt(args[1].(*Term), site.Args[1].Type())
		switch p := args[0].(type) {
		case *BytePtr:
			return st.strOfBytes(&Slice{isBytes: true, bs: p.s, off: p.idx, len_: n, cap_: n})
		case *Cell:
			if p == nil {
				return st.lit("")
			}
		}
	case "Slice":
		n := st.asInt(args[1].(*Term), site.Args[1].Type())
		if p, ok := args[0].(*BytePtr); ok {
			return &Slice{isBytes: true, bs: p.s, off: p.idx, len_: n, cap_: n}
		}
	}
	st.unsupported("builtin %s on %T", b.Name(), args[0])
	return nil
}

func (fr *frame) doRecover() Value {
	if fr != nil && !fr.panicking && fr.caller != nil && fr.caller.panicking {
		fr.caller.panicking = false
		tp := fr.caller.panicVal.(targetPanic)
		if i, ok := tp.v.(Iface); ok && i.t == nil {
			return fr.th.st.rtError("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		return tp.v
	}
	return Iface{}
}

func (st *State) floatOf(f float64) *Term { return st.ts.BV(FP, math.Float64bits(f)) }

// fpInt returns the integer that a float64 term holds exactly, if it is
// certainly smaller than 2^51, so that sums of such terms are exact, too.
func (st *State) fpInt(t *Term) (*Term, bool) {
	const max = 1 << 51
	if t.op == OConst {
		f := fl(t)
		if f > -max && f < max && f == math.Trunc(f) && !(f == 0 && math.Signbit(f)) {
			return st.ts.Int(int64(f)), true
		}
		return nil, false
	}
	if t.op == OFToFP && t.args[0].w == 64 {
		if r, ok := st.interval(t.args[0]); ok && r.lo > -max && r.hi < max {
			return t.args[0], true
		}
	}
	return nil, false
}
