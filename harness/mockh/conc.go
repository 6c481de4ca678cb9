package mockh

import (
	"github.com/chronos-tachyon/morehttp/internal/mockreader"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// answer is what a goroutine got for one of its calls.
type answer struct {
	n   int64
	err error
	p   []byte
	bad *mockreader.ExpectationFailedError
}

// ask makes one call of kind op, which is the same for all.
func ask(t target, op int, size int, off int64) (a answer) {
	a.p = make([]byte, size)
	v := panics(func() {
		var n int
		switch op {
		case read:
			n, a.err = t.Read(a.p)
			a.n = int64(n)
		case readAt:
			n, a.err = t.ReadAt(a.p, off)
			a.n = int64(n)
		case seek:
			a.n, a.err = t.Seek(off, 0)
		}
	})
	if v != nil {
		e, ok := v.(mockreader.ExpectationFailedError)
		vsym.Assert(ok, "M02: call ends with another panic")
		a.bad = &e
	}
	return a
}

// M02Parallel: concurrent calls are answered by one expectation each, in turn.
//
//verif:check M02
//verif:bound script of 3 reads, positional reads or seeks told apart by their results; 2 goroutines with 2 calls each (thorough: 3 goroutines), directly or through wrappers, one call too many; every interleaving at lock operations; buffers of 0..1000 bytes
//verif:opt sched=1
//verif:reach all surplus
func M02Parallel() {
	op := []int{read, readAt, seek}[vsym.Choose("kind", 3)]
	size := vsym.IntRange("size", 2, 1000)
	off := vsym.Int64("offset")
	const k = 3
	var list []mockreader.Expectation
	var data [k]vsym.Data
	errs := [k]error{nil, errGiven, nil}
	base := vsym.Int64("base")
	for i := 0; i < k; i++ {
		data[i] = vsym.NewData("data")
		switch op {
		case read:
			list = append(list, mockreader.ExpectRead(data[i].Bytes(size), i, errs[i]))
		case readAt:
			list = append(list, mockreader.ExpectReadAt(data[i].Bytes(size), off, i, errs[i]))
		case seek:
			list = append(list, mockreader.ExpectSeek(off, 0, base+int64(i), errs[i]))
		}
	}
	if op != seek {
		base = 0
	}
	m := mockreader.New(list...)
	ts := []target{m, mockreader.Wrapper111{Inner: m}, m}
	var got [3][2]answer
	ask2 := func(i int) func() {
		return func() {
			got[i][0] = ask(ts[i], op, size, off)
			got[i][1] = ask(ts[i], op, size, off)
		}
	}
	g := tier(2, 3)
	fs := []func(){ask2(0), ask2(1), ask2(2)}
	vsym.Par(fs[:g]...)
	var seen [k]int
	surplus := 0
	for i := 0; i < g; i++ {
		last := int64(-1)
		for _, a := range got[i] {
			if a.bad != nil {
				vsym.Assert(a.bad.Index == k, "M02: surplus call named by another position")
				surplus++
				last = k
				continue
			}
			at := a.n - base
			vsym.Assert(0 <= at && at < k, "M02: answer of no expectation")
			j := vsym.Concrete(int(at))
			seen[j]++
			vsym.Assert(a.err == errs[j], "M02: answers mixed up")
			vsym.Assert(at > last, "M02: calls of one goroutine answered out of order")
			last = at
			if op != seek {
				data[j].Check(a.p[:j], 0, "M02: bytes mixed up")
			}
		}
	}
	for _, n := range seen {
		vsym.Assert(n == 1, "M02: expectation not used exactly once")
	}
	vsym.Assert(surplus == 2*g-k, "M02: surplus calls accepted")
	vsym.Reach("all")
	vsym.Reach("surplus")
}
