package bodyh

import (
	"io"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// seeks checks arbitrary seeks, each followed by a read.
func seeks(kind int, o options) {
	w := newWorld("B07", kind, o)
	x := w.bods[0]
	if vsym.Choose("before", 2) == 1 {
		w.read(x, vsym.IntRange("n", 0, maxLen))
	}
	for i := 0; i < tier(1, 2); i++ {
		w.seek(x)
		w.remaining(x)
		w.read(x, vsym.IntRange("n", 0, maxLen))
	}
}

// B07Bytes: seeking in byte bodies.
//
//verif:check B07
//verif:bound length 0..200000, every 64-bit offset and whence, after an optional read; thorough: two seeks
//verif:reach negstart negpos whence seek eof
func B07Bytes() { seeks(kBytes, options{}) }

// B07Empty: seeking in empty bodies.
//
//verif:check B07
//verif:bound every 64-bit offset and whence, after an optional read; thorough: two seeks
//verif:reach negstart whence seek eof
func B07Empty() {
	// an empty body ignores where it is asked to go, except for what is
	// refused
	w := newWorld("B07", kEmpty, options{})
	x := w.bods[0]
	for i := 0; i < tier(1, 2); i++ {
		if vsym.Choose("before", 2) == 1 {
			w.read(x, vsym.IntRange("n", 0, maxLen))
		}
		w.seek(x)
		w.remaining(x)
	}
	w.read(x, vsym.IntRange("n", 0, maxLen))
}

// B07Seek: seeking in bodies over a seekable source.
//
//verif:check B07
//verif:bound source of exactly the declared 0..2^63-1 bytes, 1 short or empty read, every 64-bit offset and whence, after an optional read; thorough: two seeks
//verif:reach negstart negpos whence seek eof
func B07Seek() { seeks(kSeek, options{exact: true, quirks: 1}) }

// B07At: seeking in bodies over a positional source.
//
//verif:check B07
//verif:bound source of exactly the declared 0..2^63-1 bytes, every 64-bit offset and whence, after an optional read; thorough: two seeks
//verif:reach negstart negpos whence seek eof
func B07At() { seeks(kAt, options{exact: true}) }

// B07Failure: a successful seek clears a reported failure.
//
//verif:check B07
//verif:bound source of exactly the declared 0..2^63-1 bytes, seekable or positional, failing once at any point
//verif:reach failure seek
func B07Failure() {
	kind := kSeek
	if vsym.Choose("kind", 2) == 1 {
		kind = kAt
	}
	w := newWorld("B07", kind, options{exact: true, quirks: 1, mayErr: true})
	x := w.bods[0]
	w.read(x, vsym.IntRange("n", 1, maxLen))
	w.s.quirks = 0
	w.s.failed = false
	w.seek(x)
	sticky := x.sticky
	w.read(x, vsym.IntRange("n", 0, maxLen))
	if sticky == nil {
		vsym.Assert(x.sticky != errSrc, "B07: seek does not clear a failure")
	}
}

// positional checks reads at arbitrary offsets and what they leave behind.
func positional(kind int, o options) {
	w := newWorld("B08", kind, o)
	x := w.bods[0]
	if vsym.Choose("before", 2) == 1 {
		w.read(x, vsym.IntRange("n", 0, maxLen))
	}
	c := x
	if vsym.Choose("copy", 2) == 1 {
		c = w.copyOf(x)
	}
	for i := 0; i < tier(1, 2); i++ {
		w.readAt(x)
	}
	if o.exact {
		w.remaining(x)
		if c != x {
			w.remaining(c)
		}
	}
	w.read(c, vsym.IntRange("n", 0, maxLen))
}

// B08Bytes: positional reads of byte bodies.
//
//verif:check B08
//verif:bound length 0..200000, every 64-bit offset, 0..200000 bytes, before and after an optional read and copy; thorough: two positional reads
//verif:reach negative short full
func B08Bytes() { positional(kBytes, options{exact: true}) }

// B08Empty: positional reads of empty bodies.
//
//verif:check B08
//verif:bound every 64-bit offset, 0..200000 bytes, before and after an optional read and copy
//verif:reach negative short full
func B08Empty() { positional(kEmpty, options{exact: true}) }

// B08Seek: positional reads emulated on a seekable source that may read short.
//
//verif:check B08
//verif:bound source of exactly the declared 0..2^63-1 bytes, 2 short, empty or failing reads, every 64-bit offset, 0..200000 bytes, before and after an optional read and copy
//verif:reach negative short full failure
func B08Seek() { positional(kSeek, options{exact: true, quirks: 2, mayErr: true}) }

// B08Short: positional reads on a seekable or positional source that is shorter or longer than declared.
//
//verif:check B08
//verif:bound source of 0..2^63-1 bytes, declared length 0..2^63-1, 1 short read, every 64-bit offset, 0..200000 bytes
//verif:reach negative short full
func B08Short() {
	kind := kSeek
	if vsym.Choose("kind", 2) == 1 {
		kind = kAt
	}
	positional(kind, options{quirks: 1})
}

// B08At: positional reads of a positional source.
//
//verif:check B08
//verif:bound source of exactly the declared 0..2^63-1 bytes, 1 failing read, every 64-bit offset, 0..200000 bytes, before and after an optional read and copy
//verif:reach negative short full failure
func B08At() { positional(kAt, options{exact: true, quirks: 1, mayErr: true}) }

// drain checks WriteTo.
func drain(kind int) {
	w := newWorld("B09", kind, options{})
	x := w.bods[0]
	switch vsym.Choose("before", 3) {
	case 1:
		w.read(x, vsym.IntRange("n", 0, maxLen))
	case 2:
		w.seek(x)
	}
	left := w.end - x.pos
	sk := &sink{w: w, pos: x.pos, accept: -1}
	if vsym.Choose("partial", 2) == 1 {
		sk.accept = vsym.Int64Range("accept", 0, maxLen)
		sk.late = vsym.Choose("late", 2) == 1
	}
	wt, ok := x.b.(io.WriterTo)
	vsym.Assert(ok, "B09: body cannot be drained")
	n, err := wt.WriteTo(sk)
	vsym.Observe("writeto", n)
	vsym.Observe("err", errCode(err))
	vsym.Assert(n == sk.total, "B09: reported count is not what the writer accepted")
	x.pos += n
	if sk.failed {
		vsym.Assert(err == errWrite, "B09: error of the writer not returned")
		x.sticky = nil
		vsym.Reach("partial")
	} else {
		vsym.Assert(err == nil, "B09: draining fails")
		vsym.Assert(n == left, "B09: not everything was written")
		vsym.Reach("drained")
	}
	w.remaining(x)
	// the rest can be read
	k := vsym.IntRange("rest", 1, maxLen)
	p := make([]byte, k)
	got, rerr := x.b.Read(p)
	w.data.Check(p[:got], x.pos, "B09: wrong bytes after draining")
	rest := int(w.end - x.pos)
	if rest == 0 {
		vsym.Assert(got == 0 && rerr == io.EOF, "B09: drained body is not at end of file")
	} else {
		vsym.Assert(got > 0 && (rerr == nil || rerr == io.EOF && got == rest), "B09: rest lost after a failed drain")
	}
	// and drained again
	if got == 0 {
		sk2 := &sink{w: w, pos: w.end, accept: -1}
		n, err = wt.WriteTo(sk2)
		vsym.Assert(n == 0 && err == nil, "B09: draining at the end fails")
	}
}

// B09Bytes: draining byte bodies.
//
//verif:check B09
//verif:bound length 0..200000, after an optional read or absolute seek (thorough: any seek), into a writer that accepts everything or any number of bytes and fails with the last or after it with 5 kinds of errors
//verif:reach partial drained
func B09Bytes() { drain(kBytes) }

// B09Empty: draining empty bodies.
//
//verif:check B09
//verif:bound after an optional read or absolute seek (thorough: any seek)
//verif:reach drained
func B09Empty() { drain(kEmpty) }

// B09Copy: io.Copy of every kind of body.
//
//verif:check B09
//verif:bound length 0..70000 (thorough 140000), every kind of body, 1 short read, writer accepting everything or any number of bytes
//verif:reach partial drained
func B09Copy() {
	o := options{exact: true, quirks: 1, max: int64(tier(70000, 140000))}
	w := newWorld("B09", vsym.Choose("kind", 7), o)
	x := w.bods[0]
	if vsym.Choose("before", 2) == 1 {
		w.read(x, vsym.IntRange("n", 0, maxLen))
	}
	left := w.end - x.pos
	sk := &sink{w: w, pos: x.pos, accept: -1}
	if vsym.Choose("partial", 2) == 1 {
		sk.accept = vsym.Int64Range("accept", 0, maxLen)
		sk.late = vsym.Choose("late", 2) == 1
	}
	n, err := io.Copy(sk, x.b)
	vsym.Assert(n == sk.total, "B09: reported count is not what the writer accepted")
	if sk.failed {
		vsym.Assert(err == errWrite, "B09: error of the writer not returned")
		vsym.Reach("partial")
	} else {
		vsym.Assert(err == nil && n == left, "B09: copying does not transfer everything")
		vsym.Reach("drained")
	}
}

// B11Unknown: demands made on a stream of unknown length.
//
//verif:check B11
//verif:bound source of 0..200000 bytes, 1 short, empty or failing read (thorough 2), 2 operations (thorough 3): reads of 0..200000 bytes, copies, closes of up to 2 bodies, then a read and a remaining count of each, then all are closed
//verif:reach eof failure
func B11Unknown() {
	w := newWorld("B11", kStream, options{quirks: tier(1, 2), mayErr: true})
	w.remaining(w.bods[0])
	history(w, "rcx", tier(2, 3), 2)
	all(w, func(x *bod) {
		w.remaining(x)
		w.read(x, vsym.IntRange("n", 0, maxLen))
	})
	w.finish()
}

// B11Declared: demands made on a stream of declared length.
//
//verif:check B11
//verif:bound source of 0..200000 bytes, declared length 0..2^63-1, 1 short, empty or failing read (thorough 2), 2 operations (thorough 3): reads of 0..200000 bytes, copies, closes of up to 2 bodies, then a read and a remaining count of each, then all are closed
//verif:reach eof failure
func B11Declared() {
	w := newWorld("B11", kDeclared, options{quirks: tier(1, 2), mayErr: true})
	w.remaining(w.bods[0])
	history(w, "rcx", tier(2, 3), 2)
	all(w, func(x *bod) {
		w.remaining(x)
		w.read(x, vsym.IntRange("n", 0, maxLen))
	})
	w.finish()
}

// finish closes everything; nothing may touch the source afterwards.
func (w *world) finish() {
	for _, x := range w.bods {
		if !x.closed {
			w.close(x)
		}
	}
	x := w.bods[0]
	w.read(x, 10)
	w.remaining(x)
}

var _ body.Body
