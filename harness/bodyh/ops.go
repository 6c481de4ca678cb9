package bodyh

import (
	"io"
	"io/fs"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// seek moves x by an arbitrary offset and whence and compares with the
// specification.
func (w *world) seek(x *bod) {
	off := vsym.Int64("off")
	whence := io.SeekStart
	if w.prop == "B07" || w.prop == "B06" || vsym.Thorough() {
		whence = vsym.Int("whence")
	} else {
		vsym.Assume(off >= 0)
	}
	w.seekTo(x, off, whence)
}

func (w *world) seekTo(x *bod, off int64, whence int) {
	s, ok := x.b.(io.Seeker)
	if !ok {
		w.assert("B10", !w.random(), "body over a random access source cannot seek")
		return
	}
	touched := w.touched()
	pos, err := s.Seek(off, whence)
	if x.closed {
		w.assert("B06", err == fs.ErrClosed, "seek after close")
		w.assert("B06", w.touched() == touched, "seek after close uses the source")
		return
	}
	length := w.known
	var base int64
	switch whence {
	case io.SeekStart:
		if off < 0 {
			e, ok := err.(body.NegativeStartOffsetSeekError)
			w.assert("B07", ok && e.Offset == off && pos == -1, "negative absolute offset not refused properly")
			vsym.Reach("negstart")
			return
		}
	case io.SeekCurrent:
		base = x.pos
	case io.SeekEnd:
		base = length
	default:
		e, ok := err.(body.UnknownWhenceSeekError)
		w.assert("B07", ok && e.Whence == whence && pos == -1, "unknown whence not refused properly")
		vsym.Reach("whence")
		return
	}
	var want int64
	if off > length-base {
		want = length
	} else {
		want = base + off
	}
	if want < 0 {
		e, ok := err.(body.NegativeComputedOffsetSeekError)
		w.assert("B07", ok && e.Offset == want && pos == -1, "negative position not refused properly")
		vsym.Reach("negpos")
		return
	}
	w.assert("B07", err == nil && pos == want, "seek goes elsewhere")
	w.assert("B05", err == nil && pos == want, "seek goes elsewhere")
	w.assert("B02", err == nil, "seek fails")
	x.pos = want
	x.sticky = nil
	vsym.Reach("seek")
}

// readAt reads at an arbitrary offset and compares with the specification.
func (w *world) readAt(x *bod) {
	w.readAtOf(x, vsym.Int64("at"), vsym.IntRange("n", 0, maxLen))
}

func (w *world) readAtOf(x *bod, off int64, n int) {
	r, ok := x.b.(io.ReaderAt)
	if !ok {
		w.assert("B10", !w.random(), "body over a random access source has no positional reads")
		return
	}
	p := make([]byte, n)
	touched := w.touched()
	failedBefore := w.failed()
	if w.s != nil {
		w.s.failed = false
		w.s.zeroed = false
	}
	got, err := r.ReadAt(p, off)
	vsym.Observe("readat", int64(got))
	failed := w.failed()
	zeroed := w.s != nil && w.s.zeroed
	if w.s != nil {
		w.s.failed = failedBefore
	}
	if x.closed {
		w.assert("B06", got == 0 && err == fs.ErrClosed, "positional read after close")
		w.assert("B06", w.touched() == touched, "positional read after close uses the source")
		return
	}
	w.assert("B08", 0 <= got && got <= n, "more bytes reported than asked for")
	if off < 0 {
		w.assert("B08", got == 0 && err != nil && err != io.EOF, "negative offset not refused")
		vsym.Reach("negative")
		return
	}
	if w.prop == "B08" || w.prop == "B17" {
		w.data.Check(p[:got], off, w.prop+": wrong bytes")
	}
	want := int64(n)
	avail := w.end - off
	if off > w.end {
		avail = 0
	}
	if want > avail {
		want = avail
	}
	if failed {
		w.assert("B08", err != nil || got == n, "short positional read without error")
		w.assert("B04", err == errSrc || got == n, "failure of the source not reported")
		vsym.Reach("failure")
		return
	}
	if zeroed && w.s.slow == 0 && int64(got) < want {
		// the source made no progress
		w.assert("B08", err != nil && err != io.EOF, "short positional read without error")
		return
	}
	w.assert("B08", int64(got) == want, "positional read returns too few bytes")
	if got < n {
		w.assert("B08", err == io.EOF, "short positional read without end of file")
		vsym.Reach("short")
	} else {
		w.assert("B08", err == nil || (err == io.EOF && off+want == w.end), "complete positional read fails")
		vsym.Reach("full")
	}
}

// sink is a writer that accepts a limited number of bytes.
type sink struct {
	w      *world
	pos    int64 // position in the data of the next byte
	accept int64 // bytes it will still accept, -1: all
	late   bool  // fails together with the last of them
	total  int64
	failed bool
}

// writeError is what a writer fails with, possibly an error that means
// something else elsewhere.
func writeError() error {
	switch vsym.Choose("writeerr", 5) {
	case 0:
		errWrite = errPlainWrite
	case 1:
		errWrite = io.EOF
	case 2:
		errWrite = io.ErrShortWrite
	case 3:
		errWrite = fs.ErrClosed
	case 4:
		errWrite = errLikeIt
	}
	return errWrite
}

func (s *sink) Write(p []byte) (int, error) {
	n := len(p)
	var err error
	if s.accept >= 0 && int64(n) > s.accept {
		n = int(s.accept)
		err = writeError()
		s.failed = true
	} else if s.late && s.accept == int64(n) {
		err = writeError()
		s.failed = true
	}
	s.w.data.Check(p[:n], s.pos, "B09: wrong bytes written")
	if s.accept >= 0 {
		s.accept -= int64(n)
	}
	s.pos += int64(n)
	s.total += int64(n)
	return n, err
}
