package bodyh

import (
	"io"

	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// survives runs f and reports whether the source or the writer panicked.
func survives(f func()) (boomed bool) {
	defer func() {
		if v := recover(); v != nil {
			_, boomed = v.(boom)
			vsym.Assert(boomed, "B15: panic is not the one of the source or writer")
			vsym.Reach("panic")
		}
	}()
	f()
	return false
}

// guarded runs f, an operation during which the source may panic (B15) or lie
// (B16).
func (w *world) guarded(f func()) {
	if w.prop == "B16" {
		w.s.lied = false
		refused(func() bool { return w.s.lied }, f)
		return
	}
	survives(f)
}

// closing closes x; the source may panic.
func (w *world) closing(x *bod) {
	if w.prop == "B16" {
		w.close(x)
		return
	}
	if survives(func() { w.close(x) }) {
		x.closed = true
		vsym.Assert(w.open() == 0 && w.s.closed == 1, "B15: source closed while a body is open")
		vsym.Reach("closepanic")
	}
}

// panicking runs operations on up to two bodies over a source that panics
// anywhere, and then looks at everything again.
func panicking(kind int, ops string, k int) {
	run15(newWorld("B15", kind, options{panics: tier(1, 2), exact: true}), ops, k)
}

func run15(w *world, ops string, k int) {
	if vsym.Choose("copied", 2) == 1 {
		w.copyOf(w.bods[0])
	}
	for i := 0; i < k; i++ {
		x := w.bods[0]
		if len(w.bods) > 1 {
			x = w.bods[vsym.Choose("who", len(w.bods))]
		}
		op := ops[vsym.Choose("op", len(ops))]
		n := vsym.IntRange("n", 0, maxLen)
		if op == 'x' {
			w.closing(x)
			continue
		}
		w.guarded(func() {
			switch op {
			case 'r':
				w.read(x, n)
			case 's':
				vsym.Assume(!x.closed)
				w.seekTo(x, int64(n), io.SeekStart)
			case 'a':
				vsym.Assume(!x.closed)
				w.readAtOf(x, vsym.Int64Range("at", 0, maxLen), n)
			}
		})
		vsym.Observe("touched", int64(w.s.touched))
	}
	w.s.panics, w.s.lies = 0, 0
	for _, x := range w.bods {
		w.remaining(x)
		w.read(x, vsym.IntRange("m", 1, maxLen))
		w.close(x)
		w.remaining(x)
		if !w.stream() {
			w.seekTo(x, 0, io.SeekStart)
		}
		vsym.Assert(x.b.Unwrap() == nil, w.prop+": closed body exposes its source")
		_, err := x.b.Copy()
		vsym.Assert(err == nil, w.prop+": copy of a closed body fails")
	}
	vsym.Assert(w.s.closed == 1, w.prop+": source not closed exactly once")
}

// B15Stream: a streaming source of unknown length that panics.
//
//verif:check B15
//verif:bound source of 0..200000 bytes that panics in any one call (thorough: any two), 2 operations (thorough: 3) of read and close on a body and possibly its copy, then a look at all of them
//verif:reach panic closepanic lastclose
func B15Stream() { panicking(kStream, "rx", tier(2, 3)) }

// B15Declared: a streaming source of declared length that panics.
//
//verif:check B15
//verif:bound source of 0..200000 bytes that panics in any one call (thorough: any two), 2 operations (thorough: 3) of read and close on a body and possibly its copy, then a look at all of them
//verif:reach panic closepanic lastclose
func B15Declared() { panicking(kDeclared, "rx", tier(2, 3)) }

// B15Seek: a seekable source that panics.
//
//verif:check B15
//verif:bound source of 0..2^63-1 bytes that panics in any one call (thorough: any two), 2 operations (thorough: 3) of read, seek, positional read and close on a body and possibly its copy, then a look at all of them
//verif:reach panic closepanic lastclose
func B15Seek() { panicking(kSeek, "rsax", tier(2, 3)) }

// B15At: a positional source that panics.
//
//verif:check B15
//verif:bound source of 0..2^63-1 bytes that panics in any one call (thorough: any two), 2 operations (thorough: 3) of read, seek, positional read and close on a body and possibly its copy, then a look at all of them
//verif:reach panic closepanic lastclose
func B15At() { panicking(kAt, "rsax", tier(2, 3)) }

// exploding is a writer that panics once it has accepted some bytes.
type exploding struct{ left, accepted int64 }

func (e *exploding) Write(p []byte) (int, error) {
	if e.left < int64(len(p)) {
		panic(boom{"writer"})
	}
	e.left -= int64(len(p))
	e.accepted += int64(len(p))
	return len(p), nil
}

// B15Writer: draining into a writer that panics.
//
//verif:check B15
//verif:bound byte body, string body and empty body of 0..200000 bytes, a first read, a writer that panics after any number of bytes, then a look at the body and its copy
//verif:reach panic drained
func B15Writer() {
	w := newWorld("B15", vsym.Choose("kind", 3), options{})
	x := w.bods[0]
	if vsym.Choose("readfirst", 2) == 1 {
		w.read(x, vsym.IntRange("first", 0, maxLen))
	}
	wt := x.b.(io.WriterTo)
	e := &exploding{left: vsym.Int64Range("left", 0, maxLen)}
	if !survives(func() { wt.WriteTo(e) }) {
		x.pos = w.end
		x.sticky = io.EOF
		vsym.Reach("drained")
	} else {
		// what the writer had accepted before is gone, nothing else is
		x.pos += e.accepted
	}
	y := w.copyOf(x)
	for _, z := range []*bod{y, x} {
		w.remaining(z)
		w.read(z, vsym.IntRange("m", 1, maxLen))
		w.close(z)
	}
}
