package bodyh

import (
	"io"
	"io/fs"

	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// B02Bytes: the remaining count of byte bodies under every history of reads, seeks, copies and closes.
//
//verif:check B02
//verif:bound length 0..200000, 4 operations (thorough 5) on up to 2 bodies; seeks are absolute (thorough: all)
//verif:reach eof seek
func B02Bytes() {
	w := newWorld("B02", kBytes, options{})
	w.remaining(w.bods[0])
	history(w, "rscx", tier(3, 5), 2)
	all(w, w.remaining)
}

// B02Empty: the remaining count of empty bodies.
//
//verif:check B02
//verif:bound 3 operations on up to 2 bodies; seeks are absolute (thorough: all)
func B02Empty() {
	w := newWorld("B02", kEmpty, options{})
	w.remaining(w.bods[0])
	history(w, "rscx", 3, 2)
	all(w, w.remaining)
}

// B02Stream: the remaining count of streaming bodies of unknown length.
//
//verif:check B02
//verif:bound source of 0..200000 bytes that may fail or read short once, 3 operations (thorough 4) on up to 2 bodies; seeks are absolute (thorough: all)
//verif:reach eof failure
func B02Stream() {
	w := newWorld("B02", kStream, options{quirks: 1, mayErr: true})
	w.remaining(w.bods[0])
	history(w, "rcx", tier(3, 4), 2)
	all(w, w.remaining)
}

// B02Declared: the remaining count of streaming bodies of declared length.
//
//verif:check B02
//verif:bound source of 0..200000 bytes, declared length 0..2^63-1, may fail or read short once, 3 operations (thorough 4) on up to 2 bodies; seeks are absolute (thorough: all)
//verif:reach eof failure
func B02Declared() {
	w := newWorld("B02", kDeclared, options{quirks: 1, mayErr: true})
	w.remaining(w.bods[0])
	history(w, "rcx", tier(3, 4), 2)
	all(w, w.remaining)
}

// B02Seek: the remaining count of bodies over seekable sources, also shorter than declared.
//
//verif:check B02
//verif:bound source of 0..2^63-1 bytes, declared length 0..2^63-1, 1 short or failing read, 3 operations (thorough 4) on up to 2 bodies; seeks are absolute (thorough: all)
//verif:reach eof failure seek
func B02Seek() {
	w := newWorld("B02", kSeek, options{quirks: 1, mayErr: true})
	w.remaining(w.bods[0])
	history(w, "rscx", tier(3, 4), 2)
	all(w, w.remaining)
}

// B02At: the remaining count of bodies over positional sources, also shorter than declared.
//
//verif:check B02
//verif:bound source of 0..2^63-1 bytes, declared length 0..2^63-1, 1 failing read, 3 operations (thorough 4) on up to 2 bodies; seeks are absolute (thorough: all)
//verif:reach eof failure seek
func B02At() {
	w := newWorld("B02", kAt, options{quirks: 1, mayErr: true})
	w.remaining(w.bods[0])
	history(w, "rscx", tier(3, 4), 2)
	all(w, w.remaining)
}

func all(w *world, f func(x *bod)) {
	for _, x := range w.bods {
		f(x)
	}
}

// B03Bytes: end of file of byte bodies.
//
//verif:check B03
//verif:bound length 0..200000, 4 operations (thorough 6): reads of 0..200000 bytes or absolute seeks (thorough: all seeks)
//verif:reach eof seek
func B03Bytes() {
	w := newWorld("B03", kBytes, options{})
	history(w, "rs", tier(4, 6), 1)
}

// B03Empty: end of file of empty bodies.
//
//verif:check B03
//verif:bound 4 operations: reads of 0..200000 bytes or absolute seeks (thorough: all seeks)
//verif:reach eof seek
func B03Empty() {
	w := newWorld("B03", kEmpty, options{})
	history(w, "rs", 4, 1)
}

// B03Stream: end of file of streaming bodies, also through copies.
//
//verif:check B03
//verif:bound source of 0..200000 bytes with 1 short or empty read (thorough 2), 4 operations: reads of 0..200000 bytes by up to 2 bodies
//verif:reach eof
func B03Stream() {
	w := newWorld("B03", kStream, options{quirks: tier(1, 2)})
	history(w, "rc", tier(3, 4), 2)
	w.read(w.bods[0], vsym.IntRange("n", 0, maxLen))
}

// B03Declared: end of file of streaming bodies of declared length.
//
//verif:check B03
//verif:bound source of 0..200000 bytes, declared length 0..2^63-1, 1 short or empty read (thorough 2), 3 reads of 0..200000 bytes
//verif:reach eof
func B03Declared() {
	w := newWorld("B03", kDeclared, options{quirks: tier(1, 2)})
	reads(w, w.bods[0], 3)
}

// B03Seek: end of file of bodies over seekable sources that may read short.
//
//verif:check B03
//verif:bound source of 0..2^63-1 bytes, declared length 0..2^63-1, 2 short or empty reads, 4 operations: reads of 0..200000 bytes or absolute seeks (thorough: all seeks)
//verif:reach eof seek
func B03Seek() {
	w := newWorld("B03", kSeek, options{quirks: 2})
	history(w, "rs", tier(3, 4), 1)
}

// B03At: end of file of bodies over positional sources.
//
//verif:check B03
//verif:bound source of 0..2^63-1 bytes, declared length 0..2^63-1, 4 operations: reads of 0..200000 bytes or absolute seeks (thorough: all seeks)
//verif:reach eof seek
func B03At() {
	w := newWorld("B03", kAt, options{})
	history(w, "rs", tier(4, 5), 1)
}

// B04Stream: a failing stream.
//
//verif:check B04
//verif:bound source of 0..200000 bytes that fails at any point, 2 quirky reads, 4 operations: reads of 0..200000 bytes by up to 2 bodies
//verif:reach eof failure
func B04Stream() {
	w := newWorld("B04", kStream, options{quirks: tier(1, 2), mayErr: true})
	history(w, "rc", tier(3, 4), 2)
	w.read(w.bods[0], vsym.IntRange("n", 0, maxLen))
}

// B04Declared: a failing stream of declared length.
//
//verif:check B04
//verif:bound source of 0..200000 bytes that fails at any point, declared length 0..2^63-1, 3 reads of 0..200000 bytes
//verif:reach eof failure
func B04Declared() {
	w := newWorld("B04", kDeclared, options{quirks: tier(1, 2), mayErr: true})
	reads(w, w.bods[0], 3)
}

// failing checks that failures of a random access source surface and pass.
func failing(kind int) {
	w := newWorld("B04", kind, options{quirks: tier(1, 2), mayErr: true, exact: true, max: maxLen})
	y := w.copyOf(w.bods[0])
	history(w, "rsa", tier(2, 3), 2)
	// the source works again: both bodies deliver everything after a seek
	w.s.quirks = 0
	from := vsym.Int64Range("from", 0, w.end)
	for _, x := range []*bod{w.bods[0], y} {
		if _, err := x.b.(io.Seeker).Seek(from, io.SeekStart); err != nil {
			vsym.Fail("B04: seek fails after a failure")
		}
		n := int(w.end - from)
		p := make([]byte, n)
		got, err := x.b.Read(p)
		vsym.Assert(got > 0 || n == 0, "B04: body shortened by a failure")
		vsym.Assert(err == nil || err == io.EOF && got == n, "B04: body shortened by a failure")
		w.data.Check(p[:got], from, "B04: wrong bytes after a failure")
	}
}

// B04Seek: a seekable source that fails once does not shorten the body or its copies.
//
//verif:check B04
//verif:bound source of exactly the declared 0..200000 bytes, 1 short, empty or failing read, 2 reads, seeks or positional reads (thorough 3) on 2 bodies, then both are read from any position
//verif:reach failure
func B04Seek() { failing(kSeek) }

// B04At: a positional source that fails once does not shorten the body or its copies.
//
//verif:check B04
//verif:bound source of exactly the declared 0..200000 bytes, 1 failing read, 2 reads, seeks or positional reads (thorough 3) on 2 bodies, then both are read from any position
//verif:reach failure
func B04At() { failing(kAt) }

// copies checks independence of copies under a history.
func copies(kind int, ops string, k int, o options) {
	w := newWorld("B05", kind, o)
	x := w.bods[0]
	if vsym.Choose("before", 2) == 1 {
		w.read(x, vsym.IntRange("n", 0, maxLen))
	}
	w.copyOf(x)
	history(w, ops, k, 3)
	all(w, func(x *bod) {
		if !x.closed {
			w.remaining(x)
		}
	})
}

// B05Bytes: copies of byte bodies are independent.
//
//verif:check B05
//verif:bound length 0..200000, up to 3 bodies, 3 operations (thorough 4) after an optional read and a copy
//verif:reach eof seek
func B05Bytes() { copies(kBytes, "rscx", tier(3, 4), options{}) }

// B05Empty: copies of empty bodies are independent.
//
//verif:check B05
//verif:bound up to 3 bodies, 3 operations after an optional read and a copy
func B05Empty() { copies(kEmpty, "rscx", 3, options{}) }

// B05Stream: copies over one stream are independent.
//
//verif:check B05
//verif:bound source of 0..200000 bytes, up to 3 bodies, 3 operations (thorough 4) after an optional read and a copy
//verif:reach eof
func B05Stream() { copies(kStream, "rcx", tier(3, 4), options{}) }

// B05Failing: copies over one stream that reads short, makes no progress or fails.
//
//verif:check B05
//verif:bound source of 0..200000 bytes with one short, empty or failing read, up to 3 bodies, 2 operations (thorough 3) after an optional read and a copy
//verif:reach eof failure
func B05Failing() { copies(kStream, "rcx", tier(2, 3), options{quirks: 1, mayErr: true}) }

// B05Seek: copies over one seekable source are independent.
//
//verif:check B05
//verif:bound source of exactly the declared 0..2^63-1 bytes, up to 3 bodies, 3 operations after an optional read and a copy
//verif:reach eof seek
func B05Seek() { copies(kSeek, "rscx", tier(2, 3), options{exact: true}) }

// B05At: copies over one positional source are independent.
//
//verif:check B05
//verif:bound source of exactly the declared 0..2^63-1 bytes, up to 3 bodies, 3 operations after an optional read and a copy
//verif:reach eof seek
func B05At() { copies(kAt, "rscx", tier(2, 3), options{exact: true}) }

// closing checks closes of up to 3 bodies and what comes after.
func closing(kind int) {
	w := newWorld("B06", kind, options{exact: true})
	vsym.Assert(w.s == nil || w.bods[0].b.Unwrap() != nil, "B06: open body has no backing reader")
	history(w, "rcx", tier(4, 5), 3)
	for i, x := range w.bods {
		_ = i
		if !x.closed {
			w.close(x)
		}
		w.after(x)
	}
}

// after checks a closed body.
func (w *world) after(x *bod) {
	touched, closed := w.touched(), 0
	if w.s != nil {
		closed = w.s.closed
	}
	w.remaining(x)
	vsym.Assert(x.b.Unwrap() == nil, "B06: closed body has a backing reader")
	n := vsym.IntRange("n", 0, maxLen)
	w.read(x, n)
	w.seekTo(x, vsym.Int64("off"), vsym.Int("whence"))
	w.readAtOf(x, vsym.Int64("at"), n)
	if wt, ok := x.b.(io.WriterTo); ok {
		k, err := wt.WriteTo(&sink{w: w, accept: -1})
		vsym.Assert(k == 0 && err == fs.ErrClosed, "B06: draining after close")
	}
	y := w.copyOf(x)
	vsym.Assert(y.b.Close() == fs.ErrClosed, "B06: copy of a closed body is not closed")
	got, err := y.b.Read(make([]byte, n))
	vsym.Assert(got == 0 && err == fs.ErrClosed, "B06: copy of a closed body can be read")
	vsym.Assert(y.b.BytesRemaining() == 0 && y.b.Unwrap() == nil, "B06: copy of a closed body is not closed")
	w.close(x)
	if w.s != nil {
		vsym.Assert(w.touched() == touched && w.s.closed == closed, "B06: closed body uses the source")
	}
	vsym.Reach("after")
}

// B06Bytes: closing byte bodies.
//
//verif:check B06
//verif:bound length 0..200000, up to 3 bodies, 4 operations, then all are closed and used
//verif:reach after
func B06Bytes() { closing(kBytes) }

// B06Empty: closing empty bodies.
//
//verif:check B06
//verif:bound up to 3 bodies, 4 operations, then all are closed and used
//verif:reach after
func B06Empty() { closing(kEmpty) }

// B06Stream: closing streaming bodies.
//
//verif:check B06
//verif:bound source of 0..200000 bytes, up to 3 bodies, 4 operations (thorough 5), then all are closed and used
//verif:reach after lastclose
func B06Stream() { closing(kStream) }

// B06Seek: closing bodies over a seekable source.
//
//verif:check B06
//verif:bound source of 0..2^63-1 bytes, up to 3 bodies, 4 operations (thorough 5), then all are closed and used
//verif:reach after lastclose
func B06Seek() { closing(kSeek) }

// B06At: closing bodies over a positional source.
//
//verif:check B06
//verif:bound source of 0..2^63-1 bytes, up to 3 bodies, 4 operations (thorough 5), then all are closed and used
//verif:reach after lastclose
func B06At() { closing(kAt) }
