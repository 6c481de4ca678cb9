package bodyh

import (
	"io"
	"io/fs"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// nested wraps a body in a body and uses the outer one and its copies, and a
// copy of the inner one.
func nested(kind int, ops string, k int, max int64) {
	w := newWorld("B17", kind, options{quirks: tier(0, 1), exact: true, max: max})
	in := w.bods[0]
	if w.stream() || vsym.Thorough() {
		if vsym.Choose("readfirst", 2) == 1 {
			w.read(in, vsym.IntRange("first", 0, int(max)))
		}
	} else if s, ok := in.b.(io.Seeker); ok {
		// the outer body has a cursor of its own
		pos, err := s.Seek(vsym.Int64Range("first", 0, max), io.SeekStart)
		vsym.Assert(err == nil && 0 <= pos && pos <= w.end, "B17: seek fails")
		in.pos = pos
	}
	var spare *bod
	if vsym.Choose("spare", 2) == 1 {
		spare = w.copyOf(in)
	}
	length := int64(-1)
	if vsym.Choose("explicit", 2) == 1 {
		length = vsym.Int64Range("length", 0, max)
	}
	outer, err := body.FromReaderAndLength(in.b, length)
	vsym.Assert(err == nil && outer != nil, "B17: wrapping a body fails")
	vsym.Assert(outer.Unwrap() == in.b, "B17: inner body not exposed as the backing reader")

	o := &world{prop: "B17", kind: kAt, s: w.s, data: w.data, end: w.end, declared: w.end}
	x := &bod{b: outer}
	o.bods = []*bod{x}
	if w.stream() {
		// the outer body continues where the inner one is
		x.pos = in.pos
		o.kind = kStream
		o.declared = -1
		if length >= 0 {
			o.kind = kDeclared
		}
	}
	if length >= 0 {
		o.declared = x.pos + length
		if o.declared < o.end {
			o.end = o.declared
		}
	}
	o.known = o.declared
	if o.s == nil {
		o.s = &src{}
	}
	o.nestedRemaining(x)
	if vsym.Choose("copied", 2) == 1 {
		o.copyOf(x)
	}
	history(o, ops, k, 2)
	for _, x := range o.bods {
		o.nestedRemaining(x)
	}
	if spare != nil {
		w.nestedRemaining(spare)
		w.read(spare, vsym.IntRange("sparen", 0, int(max)))
	}

	// the last outer body closes the inner one
	for i, x := range o.bods {
		r := in.b.BytesRemaining()
		vsym.Assert(in.b.Unwrap() != nil || w.s == nil, "B17: inner body closed while an outer one is open")
		vsym.Assert(w.s == nil || w.s.closed == 0, "B17: source closed while a body is open")
		err := x.b.Close()
		vsym.Observe("close", errCode(err))
		if i < len(o.bods)-1 {
			vsym.Assert(err == nil && in.b.BytesRemaining() == r, "B17: inner body closed while an outer one is open")
			continue
		}
		want := error(nil)
		if w.s != nil && spare == nil {
			want = w.s.clErr
		}
		vsym.Assert(err == want, "B17: close error of the source lost")
	}
	_, err = in.b.Read(nil)
	vsym.Assert(err == fs.ErrClosed, "B17: inner body not closed by the last outer one")
	if spare != nil {
		vsym.Assert(w.s == nil || w.s.closed == 0, "B17: source closed while a body is open")
		w.nestedRemaining(spare)
		err := spare.b.Close()
		vsym.Assert(w.s == nil || err == w.s.clErr, "B17: close error of the source lost")
		vsym.Reach("spare")
	}
	vsym.Assert(w.s == nil || w.s.closed == 1, "B17: source not closed exactly once")
	vsym.Reach("closed")
}

// nestedRemaining checks the remaining count of x; a body over a stream need
// not know yet that the stream has ended.
func (w *world) nestedRemaining(x *bod) {
	if !w.stream() {
		w.remaining(x)
		return
	}
	r := x.b.BytesRemaining()
	vsym.Observe("remaining", r)
	if x.sticky != nil {
		vsym.Assert(r == 0, "B17: remaining bytes after end of file")
		return
	}
	if w.declared < 0 {
		vsym.Assert(r == -1 || r == w.end-x.pos, "B17: wrong remaining count")
		return
	}
	vsym.Assert(r == w.declared-x.pos || r == w.end-x.pos, "B17: wrong remaining count")
}

func rops() string {
	if vsym.Thorough() {
		return "rsac"
	}
	return "rsa"
}

// B17Bytes: a body over a byte or string body.
//
//verif:check B17
//verif:bound inner body of 0..200000 bytes read up to anywhere or not, any outer length 0..200000 or none, 2 operations (thorough 3) of read, absolute seek and positional read (thorough: also other seeks and copy) on 1 or 2 outer bodies, 1 read of a copy of the inner one, then all are closed
//verif:reach eof seek closed spare
func B17Bytes() { nested(kBytes, rops(), tier(2, 4), maxLen) }

// B17Empty: a body over an empty body.
//
//verif:check B17
//verif:bound as B17Bytes
//verif:reach eof seek closed spare
func B17Empty() { nested(kEmpty, rops(), 2, maxLen) }

// B17Stream: a body over a streaming body.
//
//verif:check B17
//verif:bound inner body of 0..70000 bytes read up to anywhere or not (thorough: with 1 short or empty read), any outer length 0..70000 or none, 2 operations (thorough 3) of read on 1 or 2 outer bodies, 1 read of a copy of the inner one, then all are closed
//verif:reach eof closed spare
func B17Stream() { nested(kStream, "r", tier(2, 3), 70000) }

// B17Declared: a body over a streaming body of declared length.
//
//verif:check B17
//verif:bound as B17Stream
//verif:reach eof closed spare
func B17Declared() { nested(kDeclared, "r", tier(2, 3), 70000) }

// B17Seek: a body over a body over a seekable source.
//
//verif:check B17
//verif:bound as B17Bytes (thorough: with 1 short or empty read)
//verif:reach eof seek closed spare
func B17Seek() { nested(kSeek, rops(), tier(2, 3), maxLen) }

// B17At: a body over a body over a positional source.
//
//verif:check B17
//verif:bound as B17Bytes
//verif:reach eof seek closed spare
func B17At() { nested(kAt, rops(), tier(2, 3), maxLen) }
