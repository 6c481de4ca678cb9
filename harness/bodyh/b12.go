package bodyh

import (
	"errors"
	"io"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// call is one operation issued by a goroutine.
type call struct {
	op  byte
	n   int
	off int64
}

// outcome is what the caller of an operation sees.
type outcome struct {
	n   int64
	err int64
	p   []byte
	d   body.Body // a copy that was made
}

// collect is a writer that keeps what it is given.
type collect struct{ parts [][]byte }

func (c *collect) Write(p []byte) (int, error) {
	q := make([]byte, len(p))
	copy(q, p)
	c.parts = append(c.parts, q)
	return len(p), nil
}

func issue(b body.Body, c call) outcome {
	switch c.op {
	case 'r':
		p := make([]byte, c.n)
		n, err := b.Read(p)
		return outcome{n: int64(n), err: errCode(err), p: p}
	case 'n':
		return outcome{n: b.BytesRemaining()}
	case 'u':
		if b.Unwrap() != nil {
			return outcome{n: 1}
		}
		return outcome{}
	case 'x':
		return outcome{err: errCode(b.Close())}
	case 'c':
		d, err := b.Copy()
		return outcome{err: errCode(err), d: d}
	case 's':
		n, err := b.(io.Seeker).Seek(c.off, io.SeekStart)
		return outcome{n: n, err: errCode(err)}
	case 'a':
		p := make([]byte, c.n)
		n, err := b.(io.ReaderAt).ReadAt(p, c.off)
		return outcome{n: int64(n), err: errCode(err), p: p}
	case 'w':
		k := &collect{}
		n, err := b.(io.WriterTo).WriteTo(k)
		o := outcome{n: n, err: errCode(err)}
		if len(k.parts) > 0 {
			o.p = k.parts[0]
		}
		return o
	}
	panic(errors.New("unknown operation"))
}

func (a outcome) alike(b outcome) bool {
	return a.n == b.n && a.err == b.err && vsym.Alike(a.p, b.p)
}

// stage is one arrangement of bodies that a pair of operations works on.
type stage struct {
	w    *world
	x, y body.Body
}

// setup makes a body, reads some of it and possibly copies it.
func setup(kind int, data vsym.Data, size, first int, copied, yield bool) *stage {
	s := &stage{}
	w := &world{prop: "B12", kind: kind, data: data, end: int64(size)}
	s.w = w
	var b body.Body
	var err error
	switch kind {
	case kBytes:
		b = body.FromBytes(data.Bytes(size))
	case kEmpty:
		b = body.Empty()
	default:
		w.s = &src{prop: "B12", data: data, endAt: int64(size), yield: yield, limit: -1, clErr: errClose}
		switch kind {
		case kStream:
			b, err = body.FromReader(&rClose{w.s})
		case kDeclared:
			b, err = body.FromReaderAndLength(&rClose{w.s}, int64(size))
		case kSeek:
			b, err = body.FromReaderAndLength(&rSeekClose{w.s}, int64(size))
		case kAt:
			b, err = body.FromReaderAndLength(&rAtClose{w.s}, int64(size))
		}
		if err != nil {
			vsym.Fail("B12: wrapping a reader fails")
		}
	}
	if first > 0 {
		b.Read(make([]byte, first))
	}
	s.x, s.y = b, b
	if copied {
		s.y, err = b.Copy()
		if err != nil {
			vsym.Fail("B12: copy fails")
		}
	}
	return s
}

// after is what can be seen once both operations are over.
func (s *stage) after(m int, made ...outcome) []outcome {
	out := []outcome{issue(s.x, call{op: 'n'}), issue(s.x, call{op: 'r', n: m})}
	if s.y != s.x {
		out = append(out, issue(s.y, call{op: 'n'}), issue(s.y, call{op: 'r', n: m}))
	}
	for _, o := range made {
		if o.d != nil {
			out = append(out, issue(o.d, call{op: 'n'}), issue(o.d, call{op: 'r', n: m}), issue(o.d, call{op: 'x'}))
		}
	}
	out = append(out, issue(s.x, call{op: 'x'}), issue(s.y, call{op: 'x'}))
	if s.w.s != nil {
		out = append(out, outcome{n: int64(s.w.s.closed)})
	}
	return out
}

func allAlike(a, b []outcome) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].alike(b[i]) {
			return false
		}
	}
	return true
}

// pair issues every pair of operations concurrently and compares with both
// sequential orders.
func pair(kind int, ops string, first bool) {
	data := vsym.NewData("data")
	size := vsym.IntRange("size", 0, maxLen)
	k := 0
	if first {
		k = vsym.IntRange("first", 0, maxLen)
	}
	copied := vsym.Choose("copied", 2) == 1
	i := vsym.Choose("op1", len(ops))
	j := vsym.Choose("op2", len(ops))
	vsym.Assume(i <= j)
	mk := func(op byte, name string) call {
		c := call{op: op}
		switch op {
		case 'r', 'a':
			c.n = vsym.IntRange("n"+name, 0, maxLen)
		}
		switch op {
		case 's', 'a':
			c.off = vsym.Int64Range("off"+name, 0, maxLen)
		}
		return c
	}
	c1 := mk(ops[i], "1")
	c2 := mk(ops[j], "2")
	m := vsym.IntRange("m", 1, maxLen)

	s := setup(kind, data, size, k, copied, true)
	var o1, o2 outcome
	vsym.Par(func() { o1 = issue(s.x, c1) }, func() { o2 = issue(s.y, c2) })
	end := s.after(m, o1, o2)
	vsym.Reach("joined")

	a := setup(kind, data, size, k, copied, false)
	a1 := issue(a.x, c1)
	a2 := issue(a.y, c2)
	if o1.alike(a1) && o2.alike(a2) && allAlike(end, a.after(m, a1, a2)) {
		return
	}
	b := setup(kind, data, size, k, copied, false)
	b2 := issue(b.y, c2)
	b1 := issue(b.x, c1)
	vsym.Assert(o1.alike(b1) && o2.alike(b2) && allAlike(end, b.after(m, b1, b2)), "B12: results of no sequential order")
	vsym.Reach("second")
}

// B12Bytes: two goroutines on a byte body or on it and its copy.
//
//verif:check B12
//verif:bound length 0..200000, every pair of operations among read, positional read, seek, drain, remaining, copy and close; 2 goroutines, every interleaving at lock operations and source calls
//verif:reach joined second
//verif:opt sched=1
func B12Bytes() { pair(kBytes, "raswnxcu", vsym.Thorough()) }

// B12Empty: two goroutines on an empty body or on it and its copy.
//
//verif:check B12
//verif:bound every pair of operations among read, positional read, seek, drain, remaining, copy and close; 2 goroutines, every interleaving at lock operations and source calls
//verif:reach joined second
//verif:opt sched=1
func B12Empty() { pair(kEmpty, "raswnxcu", true) }

// B12Stream: two goroutines on a streaming body or on it and its copy.
//
//verif:check B12
//verif:bound source of 0..200000 bytes, every pair of operations among read, remaining, copy and close; 2 goroutines, every interleaving at lock operations and source calls; thorough: after a first read
//verif:reach joined second
//verif:opt sched=1
func B12Stream() { pair(kStream, "rnxcu", vsym.Thorough()) }

// B12Declared: two goroutines on a streaming body of declared length or on it and its copy.
//
//verif:check B12
//verif:bound source of 0..200000 bytes, every pair of operations among read, remaining, copy and close; 2 goroutines, every interleaving at lock operations and source calls; thorough: after a first read
//verif:reach joined second
//verif:opt sched=1
func B12Declared() { pair(kDeclared, "rnxcu", vsym.Thorough()) }

// B12Seek: two goroutines on a body over a seekable source or on it and its copy.
//
//verif:check B12
//verif:bound source of 0..200000 bytes, every pair of operations among read, positional read, seek, remaining, copy and close; 2 goroutines, every interleaving at lock operations and source calls; thorough: after a first read
//verif:reach joined second
//verif:opt sched=1
func B12Seek() { pair(kSeek, "rasnxcu", vsym.Thorough()) }

// B12At: two goroutines on a body over a positional source or on it and its copy.
//
//verif:check B12
//verif:bound source of 0..200000 bytes, every pair of operations among read, positional read, seek, remaining, copy and close; 2 goroutines, every interleaving at lock operations and source calls; thorough: after a first read
//verif:reach joined second
//verif:opt sched=1
func B12At() { pair(kAt, "rasnxcu", vsym.Thorough()) }
