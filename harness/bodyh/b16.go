package bodyh

import (
	"io"
	"io/fs"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// refused runs f and demands that it panics exactly when the source or writer
// has lied.
func refused(lied func() bool, f func()) {
	defer func() {
		v := recover()
		if v == nil {
			vsym.Assert(!lied(), "B16: impossible answer accepted")
			return
		}
		vsym.Assert(lied(), "B16: panic without a cause")
		vsym.Reach("refused")
	}()
	f()
}

// lying runs operations on up to two bodies over a source that reports
// impossible counts.
func lying(kind int, ops string, k int) {
	run15(newWorld("B16", kind, options{lies: tier(1, 2), exact: true}), ops, k)
}

func atOps() string {
	if vsym.Thorough() {
		return "rsax"
	}
	return "ra"
}

// B16Stream: a streaming source of unknown length that reports impossible counts.
//
//verif:check B16
//verif:bound source of 0..200000 bytes one answer of which (thorough: any two) has any count outside the buffer with or without an error, 2 operations (thorough: 3) of read and close on a body and possibly its copy, then a look at all of them
//verif:reach refused lastclose
func B16Stream() { lying(kStream, "rx", tier(2, 3)) }

// B16Declared: a streaming source of declared length that reports impossible counts.
//
//verif:check B16
//verif:bound source of 0..200000 bytes one answer of which (thorough: any two) has any count outside the buffer with or without an error, 2 operations (thorough: 3) of read and close on a body and possibly its copy, then a look at all of them
//verif:reach refused lastclose
func B16Declared() { lying(kDeclared, "rx", tier(2, 3)) }

// B16Seek: a seekable source that reports impossible counts.
//
//verif:check B16
//verif:bound source of 0..2^63-1 bytes one answer of which (thorough: any two) has any count outside the buffer with or without an error, 2 operations (thorough: 3, also seek and close) of read and positional read on a body and possibly its copy, then a look at all of them
//verif:reach refused lastclose
func B16Seek() { lying(kSeek, atOps(), tier(2, 3)) }

// B16At: a positional source that reports impossible counts.
//
//verif:check B16
//verif:bound source of 0..2^63-1 bytes one answer of which (thorough: any two) has any count outside the buffer with or without an error, 2 operations (thorough: 3, also seek and close) of read and positional read on a body and possibly its copy, then a look at all of them
//verif:reach refused lastclose
func B16At() { lying(kAt, atOps(), tier(2, 3)) }

// boaster is a writer that reports any count it likes.
type boaster struct {
	lied bool
}

func (b *boaster) Write(p []byte) (int, error) {
	k := vsym.Int("count")
	if k < 0 || k > len(p) {
		b.lied = true
		if vsym.Choose("lieerr", 2) == 1 {
			return k, errWrite
		}
		return k, nil
	}
	if k < len(p) {
		return k, errWrite
	}
	return k, nil
}

// B16Writer: draining into a writer that reports impossible counts.
//
//verif:check B16
//verif:bound byte body and string body of 0..200000 bytes, a first read, a writer that reports any count, then a look at the body and its copy
//verif:reach refused honest
func B16Writer() {
	w := newWorld("B16", vsym.Choose("kind", 2), options{})
	x := w.bods[0]
	if vsym.Choose("readfirst", 2) == 1 {
		w.read(x, vsym.IntRange("first", 0, maxLen))
	}
	e := &boaster{}
	var n int64
	refused(func() bool { return e.lied }, func() {
		n, _ = x.b.(io.WriterTo).WriteTo(e)
		vsym.Assert(0 <= n && n <= w.end-x.pos, "B16: impossible count passed on")
	})
	r := x.b.BytesRemaining()
	if e.lied {
		vsym.Assert(0 <= r && r <= w.end-x.pos, "B16: wrong remaining count")
	} else {
		vsym.Assert(r == w.end-x.pos-n, "B16: wrong remaining count")
		vsym.Reach("honest")
	}
	pos, err := x.b.(io.Seeker).Seek(x.pos, io.SeekStart)
	vsym.Assert(err == nil && pos == x.pos, "B16: seek goes elsewhere")
	x.sticky = nil
	y := w.copyOf(x)
	for _, z := range []*bod{y, x} {
		w.remaining(z)
		w.read(z, vsym.IntRange("m", 1, maxLen))
		w.close(z)
	}
}

// negative reports a negative length.
type negative struct {
	n    int64
	seek bool
}

func (f *negative) Read(p []byte) (int, error) { return 0, io.EOF }
func (f *negative) Close() error               { return nil }

type negativeFile struct{ *negative }

func (f negativeFile) Stat() (fs.FileInfo, error) { return &finfo{f.n}, nil }

type negativeSeek struct{ *negative }

func (f negativeSeek) Seek(int64, int) (int64, error) { return f.n, nil }

// B16Length: a source that reports a negative length.
//
//verif:check B16
//verif:bound any negative length reported by Stat or by Seek
//verif:reach refused
func B16Length() {
	n := vsym.Int64("length")
	vsym.Assume(n < 0)
	var r io.Reader = negativeFile{&negative{n: n}}
	if vsym.Choose("seek", 2) == 1 {
		r = negativeSeek{&negative{n: n}}
	}
	refused(func() bool { return true }, func() { body.FromReader(r) })
}
