package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Thread is an interpreted goroutine.  At most one runs at a time; control
// passes explicitly at scheduling points.
type Thread struct {
	st      *State
	id      int
	resume  chan bool // true: abort
	done    bool
	blocked func() bool // non-nil while waiting; reports whether it may go on
	vc      []int
	joinVC  []int
	site    string
	lock    map[interface{}]int
}

type access struct {
	wTid, wClk int
	reads      map[int]int
}

// pooled is a value put into a sync.Pool.
type pooled struct {
	v  Value
	vc []int
}

type mutexState struct {
	owner   int // -1 free
	readers map[int]int
	vc      []int
	rvc     []int
}

func (th *Thread) clk() int {
	for len(th.vc) <= th.id {
		th.vc = append(th.vc, 0)
	}
	return th.vc[th.id]
}

func (th *Thread) tick() {
	th.clk()
	th.vc[th.id]++
}

func vcJoin(a *[]int, b []int) {
	for i, x := range b {
		if i >= len(*a) {
			*a = append(*a, x)
		} else if (*a)[i] < x {
			(*a)[i] = x
		}
	}
}

func vcAt(v []int, i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// touch records an access and reports a race.
func (st *State) touch(acc **access, write bool, what func() string) {
	if !st.multi {
		return
	}
	th := st.cur
	a := *acc
	if a == nil {
		a = &access{wTid: -1}
		*acc = a
	}
	if a.wTid >= 0 && a.wTid != th.id && a.wClk > vcAt(th.vc, a.wTid) {
		st.race(what(), "write", a.wTid, write)
	}
	if write {
		for tid, c := range a.reads {
			if tid != th.id && c > vcAt(th.vc, tid) {
				st.race(what(), "read", tid, write)
			}
		}
		a.wTid, a.wClk = th.id, th.clk()
		a.reads = nil
		return
	}
	if a.reads == nil {
		a.reads = map[int]int{}
	}
	a.reads[th.id] = th.clk()
}

func (st *State) race(what, first string, tid int, write bool) {
	kind := "read"
	if write {
		kind = "write"
	}
	st.fail("race", fmt.Sprintf("data race on %s: %s by goroutine %d, then unsynchronised %s by goroutine %d", what, first, tid, kind, st.cur.id))
}

func (st *State) touchCell(c *Cell, write bool) {
	if st.multi {
		st.touch(&c.acc, write, func() string { return "variable of type " + typeString(c.t) })
	}
}

func (st *State) touchStore(s *ByteStore, write bool) {
	if st.multi {
		st.touch(&s.acc, write, func() string { return "byte array" })
	}
}

func (st *State) touchMap(m *MapV, write bool) {
	if st.multi {
		st.touch(&m.acc, write, func() string { return "map " + typeString(m.t) })
	}
}

func (st *State) newThread() *Thread {
	th := &Thread{st: st, id: len(st.threads), resume: make(chan bool)}
	st.threads = append(st.threads, th)
	th.tick()
	return th
}

// spawn starts an interpreted goroutine; it becomes runnable.
func (th *Thread) spawn(fn Value, args []Value, site *ssa.CallCommon) *Thread {
	st := th.st
	nt := st.newThread()
	st.multi = true
	th.tick()
	vcJoin(&nt.vc, th.vc)
	nt.tick()
	go func() {
		if <-nt.resume {
			return
		}
		defer func() {
			r := recover()
			nt.done = true
			if _, ok := r.(abortThread); ok {
				return
			}
			switch x := r.(type) {
			case nil:
			case *pathStop:
				st.stop = x
			case targetPanic:
				st.stop = st.panicStop(x, "goroutine")
			default:
				st.stop = &pathStop{kind: stopUnsupported, msg: fmt.Sprint("engine panic: ", r)}
			}
			// hand the baton on
			if st.stop != nil {
				st.threads[0].resume <- false
				return
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if ps, ok := r.(*pathStop); ok {
							st.stop = ps
						}
						st.threads[0].resume <- false
					}
				}()
				next := st.pickNext(nt)
				st.cur = next
				next.resume <- false
			}()
		}()
		nt.callValue(nil, fn.(*FuncV), args, site)
		nt.tick()
	}()
	return nt
}

func (st *State) panicStop(tp targetPanic, where string) *pathStop {
	if st.inPrefix() {
		return &pathStop{kind: stopUnsupported, msg: "panic inside a replayed prefix"}
	}
	return &pathStop{kind: stopViolation, label: "panic", msg: "uncaught panic in " + where + ": " + st.describePanic(tp), model: st.model}
}

func (st *State) describePanic(tp targetPanic) string {
	i, ok := tp.v.(Iface)
	if !ok {
		return showValue(st, tp.v)
	}
	return showValue(st, i)
}

// runnable lists the threads that may run.
func (st *State) runnable() []*Thread {
	var out []*Thread
	for _, t := range st.threads {
		if t.done {
			continue
		}
		if t.blocked != nil && !t.blocked() {
			continue
		}
		out = append(out, t)
	}
	return out
}

// pickNext chooses who runs next; cur may be among the candidates.
func (st *State) pickNext(cur *Thread) *Thread {
	rs := st.runnable()
	if len(rs) == 0 {
		msg := "all goroutines are blocked:"
		for _, t := range st.threads {
			if !t.done {
				msg += fmt.Sprintf(" g%d(%s)", t.id, t.site)
			}
		}
		st.fail("deadlock", msg)
	}
	// prefer to continue with the current thread as alternative 0
	for i, t := range rs {
		if t == cur && i > 0 {
			rs[0], rs[i] = rs[i], rs[0]
		}
	}
	k := st.choose(len(rs))
	if st.multi && len(rs) > 1 {
		st.schedule = append(st.schedule, rs[k].id)
	}
	return rs[k]
}

// switchTo passes the baton to t and waits for it to come back.
func (th *Thread) switchTo(t *Thread) {
	st := th.st
	if t == th {
		return
	}
	st.cur = t
	t.resume <- false
	if <-th.resume {
		panic(abortThread{})
	}
	if th.id == 0 && st.stop != nil {
		panic(st.stop)
	}
	st.cur = th
}

// schedPoint lets any runnable thread go next.
func (th *Thread) schedPoint(site string) {
	st := th.st
	if !st.multi {
		return
	}
	th.site = site
	th.switchTo(st.pickNext(th))
}

// block waits until cond holds.
func (th *Thread) block(site string, cond func() bool) {
	st := th.st
	th.site = site
	if st.multi {
		// scheduling point, also when the condition already holds
		th.blocked = cond
		t := st.pickNext(th)
		th.switchTo(t)
		th.blocked = nil
		return
	}
	if !cond() {
		st.fail("deadlock", "blocked forever at "+site)
	}
}

func (st *State) mutex(key interface{}) *mutexState {
	m := st.mutexes[key]
	if m == nil {
		m = &mutexState{owner: -1, readers: map[int]int{}}
		st.mutexes[key] = m
	}
	return m
}

func (th *Thread) lock1(key interface{}) {
	m := th.st.mutex(key)
	th.block("Lock", func() bool { return m.owner < 0 && len(m.readers) == 0 })
	m.owner = th.id
	vcJoin(&th.vc, m.vc)
	vcJoin(&th.vc, m.rvc)
	th.tick()
}

func (th *Thread) tryLock(key interface{}) bool {
	m := th.st.mutex(key)
	th.schedPoint("TryLock")
	if m.owner >= 0 || len(m.readers) > 0 {
		return false
	}
	m.owner = th.id
	vcJoin(&th.vc, m.vc)
	vcJoin(&th.vc, m.rvc)
	th.tick()
	return true
}

func (th *Thread) unlock1(key interface{}) {
	st := th.st
	m := st.mutex(key)
	if m.owner < 0 {
		st.fail("unlock", "unlock of unlocked mutex")
	}
	m.owner = -1
	m.vc = append([]int{}, th.vc...)
	th.tick()
}

func (th *Thread) rlock(key interface{}) {
	m := th.st.mutex(key)
	th.block("RLock", func() bool { return m.owner < 0 })
	m.readers[th.id]++
	vcJoin(&th.vc, m.vc)
	th.tick()
}

func (th *Thread) runlock(key interface{}) {
	st := th.st
	m := st.mutex(key)
	if len(m.readers) == 0 {
		st.fail("unlock", "RUnlock of unlocked RWMutex")
	}
	id := th.id
	if m.readers[id] == 0 {
		for k := range m.readers {
			id = k
			break
		}
	}
	m.readers[id]--
	if m.readers[id] == 0 {
		delete(m.readers, id)
	}
	vcJoin(&m.rvc, th.vc)
	th.tick()
}

// atomic access: a synchronising scheduling point.
func (th *Thread) atomicSync(key interface{}) {
	if !th.st.multi {
		return
	}
	th.schedPoint("atomic")
	m := th.st.mutex(key)
	vcJoin(&th.vc, m.vc)
	m.vc = append([]int{}, th.vc...)
	th.tick()
}

// par runs the functions as goroutines and waits for all of them.
func (th *Thread) par(fns []Value) {
	st := th.st
	var ts []*Thread
	for _, f := range fns {
		ts = append(ts, th.spawn(f, nil, nil))
	}
	all := func() bool {
		for _, t := range ts {
			if !t.done {
				return false
			}
		}
		return true
	}
	th.block("Par", all)
	for _, t := range ts {
		vcJoin(&th.vc, t.vc)
	}
	th.tick()
	// only this thread is left
	live := 0
	for _, t := range st.threads {
		if !t.done {
			live++
		}
	}
	if live == 1 {
		st.multi = false
	}
}

// finish aborts every thread that is still parked.
func (st *State) finish() {
	for _, t := range st.threads {
		if t.id == 0 || t.done {
			continue
		}
		select {
		case t.resume <- true:
		default:
			go func(t *Thread) { t.resume <- true }(t)
		}
	}
}

// --- channels ---

func (th *Thread) chanSend(c *ChanV, v Value) {
	st := th.st
	if c == nil {
		st.fail("deadlock", "send on nil channel")
	}
	if c.cap == 0 {
		st.unsupported("unbuffered channel")
	}
	th.block("send", func() bool { return c.closed || len(c.buf) < c.cap })
	if c.closed {
		th.rtPanic("send on closed channel")
	}
	th.atomicJoin(c)
	c.buf = append(c.buf, v)
}

func (th *Thread) atomicJoin(key interface{}) {
	if !th.st.multi {
		return
	}
	m := th.st.mutex(key)
	vcJoin(&th.vc, m.vc)
	m.vc = append([]int{}, th.vc...)
	th.tick()
}

func (th *Thread) chanRecv(c *ChanV, elem types.Type) (Value, bool) {
	st := th.st
	if c == nil {
		st.fail("deadlock", "receive from nil channel")
	}
	th.block("recv", func() bool { return c.closed || len(c.buf) > 0 })
	th.atomicJoin(c)
	if len(c.buf) == 0 {
		return st.zero(elem), false
	}
	v := c.buf[0]
	c.buf = c.buf[1:]
	return v, true
}

func (fr *frame) doSelect(in *ssa.Select) Value {
	st := fr.th.st
	ts := st.ts
	var ready []int
	for i, s := range in.States {
		c := fr.get(s.Chan).(*ChanV)
		if c == nil {
			continue
		}
		if s.Dir == types.SendOnly {
			if c.closed || len(c.buf) < c.cap {
				ready = append(ready, i)
			}
		} else if c.closed || len(c.buf) > 0 {
			ready = append(ready, i)
		}
	}
	res := Tuple{ts.Int(-1), ts.tFalse}
	pick := -1
	if len(ready) > 0 {
		pick = ready[st.choose(len(ready))]
	} else if in.Blocking {
		st.fail("deadlock", "select blocks forever")
	}
	for i, s := range in.States {
		c, _ := fr.get(s.Chan).(*ChanV)
		if s.Dir == types.SendOnly {
			if i == pick {
				fr.th.chanSend(c, fr.get(s.Send))
			}
			continue
		}
		elem := s.Chan.Type().Underlying().(*types.Chan).Elem()
		if i == pick {
			v, ok := fr.th.chanRecv(c, elem)
			res[1] = ts.Bool(ok)
			res = append(res, v)
		} else {
			res = append(res, st.zero(elem))
		}
	}
	res[0] = ts.Int(int64(pick))
	return res
}
