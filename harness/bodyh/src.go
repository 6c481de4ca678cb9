// Package bodyh checks package body through its public interface.
package bodyh

import (
	"io"
	"io/fs"
	"math"
	"time"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// failure is an error of the environment, compared by identity.
type failure struct{ msg string }

func (f *failure) Error() string { return f.msg }

var (
	errSrc   error = errPlain
	errClose error = &failure{"close failed"}
	errWrite error = errPlainWrite
	errStat  error = &failure{"stat failed"}
	errSeek  error = &failure{"seek failed"}
)

// wrapped is a failure that wraps another error.
type wrapped struct{ err error }

func (w *wrapped) Error() string { return "source failed: " + w.err.Error() }
func (w *wrapped) Unwrap() error { return w.err }

var (
	errPlain error = &failure{"source failed"}

	errPlainWrite error = &failure{"write failed"}

	errLikeIt error = &wrapped{io.EOF}
)

// failing returns what the source fails with: anything but io.EOF itself.
func (s *src) failing() error {
	if s.prop == "B04" && !s.failed {
		switch vsym.Choose("failure", 4) {
		case 0:
			errSrc = errPlain
		case 1:
			errSrc = errLikeIt
		case 2:
			errSrc = io.ErrUnexpectedEOF
		case 3:
			errSrc = fs.ErrClosed
		}
	}
	return errSrc
}

// src is an arbitrary legal source: it may read short, return its last bytes
// together with its end or not, make no progress or fail, as the solver likes.
type src struct {
	prop   string
	data   vsym.Data
	endAt  int64 // number of bytes it holds
	pos    int64
	quirks int  // how many short, failing or empty reads are left
	mayErr bool // may fail
	both   bool // reports its end together with the last bytes
	ended  bool // has reported its end
	failed bool // has failed
	failAt int64
	zeroed bool // made no progress in this call
	slow   int  // empty reads before each single byte, if positive
	stalls int  // empty reads since the last byte

	seekErr error // returned by Seek
	seekOK  int   // calls of Seek that succeed before seekErr is returned
	statErr error
	size    int64 // reported by Stat

	touched int // calls of any kind
	closed  int
	clErr   error
	yield   bool
	panics  int // how many calls may still panic
	lies    int // how many calls may still report an impossible count
	lied    bool

	// streaming monitors (B11)
	stream bool
	limit  int64 // declared length or -1
	allow  int64 // furthest position that may be requested
}

func (s *src) touch() {
	s.touched++
	if s.closed > 0 && s.prop == "B06" {
		vsym.Fail("B06: source used after close")
	}
	if s.closed > 0 && s.prop == "B11" {
		vsym.Fail("B11: source used after close")
	}
	if s.yield {
		vsym.Yield()
	}
	s.mayPanic()
}

// boom is what a panicking source or writer panics with.
type boom struct{ where string }

func (s *src) mayPanic() {
	if s.panics > 0 && vsym.Choose("panic", 2) == 1 {
		s.panics--
		panic(boom{"source"})
	}
}

// lie is an answer that io.Reader and io.ReaderAt forbid.
func (s *src) lie(n int) (int, error, bool) {
	if s.lies <= 0 || vsym.Choose("lie", 2) == 0 {
		return 0, nil, false
	}
	s.lies--
	s.lied = true
	k := vsym.Int("count")
	vsym.Assume(k < 0 || k > n)
	if vsym.Choose("lieerr", 2) == 1 {
		return k, io.EOF, true
	}
	return k, nil, true
}

func (s *src) quirk(n int) int {
	if s.quirks <= 0 {
		return 0
	}
	k := vsym.Choose("quirk", n)
	if k != 0 {
		s.quirks--
	}
	return k
}

func (s *src) Read(p []byte) (int, error) {
	s.touch()
	if k, err, lies := s.lie(len(p)); lies {
		return k, err
	}
	n := int64(len(p))
	if s.stream && s.prop == "B11" {
		vsym.Assert(!s.ended, "B11: source read again after its end")
		vsym.Assert(!s.failed, "B11: source read again after its failure")
		vsym.Assert(s.pos+n <= s.allow, "B11: source read further than asked for")
		if s.limit >= 0 {
			vsym.Assert(s.pos+n <= s.limit, "B11: source read beyond the declared length")
		}
	}
	if s.stream && s.failed {
		return 0, errSrc
	}
	if n == 0 {
		return 0, nil
	}
	rem := s.endAt - s.pos
	if rem <= 0 {
		s.ended = true
		return 0, io.EOF
	}
	if n > rem {
		n = rem
	}
	if s.slow > 0 {
		if s.stalls < s.slow {
			s.stalls++
			s.zeroed = true
			return 0, nil
		}
		s.stalls = 0
		n = 1
	}
	nq := 3
	if s.mayErr {
		nq = 4
	}
	var err error
	switch s.quirk(nq) {
	case 1: // short
		n = vsym.Int64Range("short", 1, n)
	case 2: // no progress
		s.zeroed = true
		return 0, nil
	case 3: // failure
		n = vsym.Int64Range("beforefail", 0, n)
		err = s.failing()
	}
	s.data.Fill(p[:n], s.pos)
	s.pos += n
	if err != nil {
		s.failed = true
		s.failAt = s.pos
		return int(n), err
	}
	if s.both && s.pos == s.endAt {
		s.ended = true
		return int(n), io.EOF
	}
	return int(n), nil
}

func (s *src) readAt(p []byte, off int64) (int, error) {
	s.touch()
	if off < 0 {
		return 0, &failure{"negative offset"}
	}
	if k, err, lies := s.lie(len(p)); lies {
		return k, err
	}
	n := int64(len(p))
	if n == 0 {
		return 0, nil
	}
	rem := s.endAt - off
	if rem < 0 {
		rem = 0
	}
	var err error
	if n > rem {
		n = rem
		err = io.EOF
	} else if n == rem && s.both {
		err = io.EOF
	}
	if s.mayErr && s.quirk(2) == 1 {
		n = vsym.Int64Range("beforefail", 0, n)
		err = s.failing()
		s.failed = true
		s.failAt = off + n
	}
	s.data.Fill(p[:n], off)
	return int(n), err
}

func (s *src) seek(off int64, whence int) (int64, error) {
	s.touch()
	if s.seekErr != nil {
		if s.seekOK == 0 {
			return 0, s.seekErr
		}
		s.seekOK--
	}
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += s.endAt
	}
	if off < 0 {
		return 0, &failure{"negative position"}
	}
	if s.mayErr && (s.prop == "B04" || s.prop == "B08") && s.quirk(2) == 1 {
		err := s.failing()
		s.failed = true
		s.failAt = off
		return 0, err
	}
	s.pos = off
	return off, nil
}

func (s *src) close() error {
	if s.closed > 0 && (s.prop == "B06" || s.prop == "B15" || s.prop == "B16") {
		vsym.Fail(s.prop + ": source closed twice")
	}
	s.closed++
	s.mayPanic()
	return s.clErr
}

func (s *src) stat() (fs.FileInfo, error) {
	s.touch()
	if s.statErr != nil {
		return nil, s.statErr
	}
	return &finfo{s.size}, nil
}

type finfo struct{ size int64 }

func (f *finfo) Name() string       { return "f" }
func (f *finfo) Size() int64        { return f.size }
func (f *finfo) Mode() fs.FileMode  { return 0 }
func (f *finfo) ModTime() time.Time { return time.Time{} }
func (f *finfo) IsDir() bool        { return false }
func (f *finfo) Sys() interface{}   { return nil }

// The readers below expose the capabilities their names list.
type rStream struct{ s *src }

func (r *rStream) Read(p []byte) (int, error) { return r.s.Read(p) }

// rich sources have methods that a body may be tempted to use.
type rich struct{ s *src }

func (r rich) Len() int    { return int(r.s.endAt - r.s.pos) }
func (r rich) Size() int64 { return r.s.endAt }
func (r rich) WriteTo(w io.Writer) (int64, error) {
	if r.s.prop == "B11" {
		vsym.Fail("B11: whole source requested")
	}
	return io.Copy(w, &rStream{r.s})
}

type rRich struct {
	rClose
	rich
}

type rRichSeek struct {
	rSeek
	rich
}

type rRichAt struct {
	rAt
	rich
}

type rRichSeekAt struct {
	rSeekAt
	rich
}

type rClose struct{ s *src }

func (r *rClose) Read(p []byte) (int, error) { return r.s.Read(p) }
func (r *rClose) Close() error               { return r.s.close() }

type rSeek struct{ s *src }

func (r *rSeek) Read(p []byte) (int, error)                { return r.s.Read(p) }
func (r *rSeek) Seek(off int64, whence int) (int64, error) { return r.s.seek(off, whence) }

type rSeekClose struct{ s *src }

func (r *rSeekClose) Read(p []byte) (int, error)                { return r.s.Read(p) }
func (r *rSeekClose) Seek(off int64, whence int) (int64, error) { return r.s.seek(off, whence) }
func (r *rSeekClose) Close() error                              { return r.s.close() }

type rAtClose struct{ s *src }

func (r *rAtClose) Read(p []byte) (int, error)              { return r.s.Read(p) }
func (r *rAtClose) ReadAt(p []byte, off int64) (int, error) { return r.s.readAt(p, off) }
func (r *rAtClose) Close() error                            { return r.s.close() }

type rAt struct{ s *src }

func (r *rAt) Read(p []byte) (int, error)              { return r.s.Read(p) }
func (r *rAt) ReadAt(p []byte, off int64) (int, error) { return r.s.readAt(p, off) }

type rSeekAt struct{ s *src }

func (r *rSeekAt) Read(p []byte) (int, error)                { return r.s.Read(p) }
func (r *rSeekAt) Seek(off int64, whence int) (int64, error) { return r.s.seek(off, whence) }
func (r *rSeekAt) ReadAt(p []byte, off int64) (int, error)   { return r.s.readAt(p, off) }
func (r *rSeekAt) Close() error                              { return r.s.close() }

type rFile struct{ s *src }

func (r *rFile) Read(p []byte) (int, error) { return r.s.Read(p) }
func (r *rFile) Stat() (fs.FileInfo, error) { return r.s.stat() }
func (r *rFile) Close() error               { return r.s.close() }

type rFileSeek struct{ s *src }

func (r *rFileSeek) Read(p []byte) (int, error)                { return r.s.Read(p) }
func (r *rFileSeek) Seek(off int64, whence int) (int64, error) { return r.s.seek(off, whence) }
func (r *rFileSeek) Stat() (fs.FileInfo, error)                { return r.s.stat() }
func (r *rFileSeek) Close() error                              { return r.s.close() }

type rFileAt struct{ s *src }

func (r *rFileAt) Read(p []byte) (int, error)              { return r.s.Read(p) }
func (r *rFileAt) ReadAt(p []byte, off int64) (int, error) { return r.s.readAt(p, off) }
func (r *rFileAt) Stat() (fs.FileInfo, error)              { return r.s.stat() }
func (r *rFileAt) Close() error                            { return r.s.close() }

type rFileSeekAt struct{ s *src }

func (r *rFileSeekAt) Read(p []byte) (int, error)                { return r.s.Read(p) }
func (r *rFileSeekAt) Seek(off int64, whence int) (int64, error) { return r.s.seek(off, whence) }
func (r *rFileSeekAt) ReadAt(p []byte, off int64) (int, error)   { return r.s.readAt(p, off) }
func (r *rFileSeekAt) Stat() (fs.FileInfo, error)                { return r.s.stat() }
func (r *rFileSeekAt) Close() error                              { return r.s.close() }

// the families of bodies
const (
	kBytes = iota
	kString
	kEmpty
	kStream   // streaming, length unknown
	kDeclared // streaming, length declared
	kSeek     // seekable source
	kAt       // positional source
)

const maxLen = 200000

// world is one source with the bodies attached to it.
type world struct {
	prop     string
	kind     int
	s        *src
	data     vsym.Data
	end      int64 // bytes the bodies deliver, unless the source fails
	declared int64 // length the bodies know from the start, or -1
	known    int64 // randomly accessible: declared, or less once an end was met
	bods     []*bod
	exact    bool
}

// bod is a body with its specified state.
type bod struct {
	b      body.Body
	pos    int64
	sticky error
	closed bool
}

func (w *world) assert(prop string, c bool, label string) {
	if prop == w.prop {
		vsym.Assert(c, prop+": "+label)
	} else if w.prop == "B15" || w.prop == "B16" {
		// all of these have to hold after a panic, too
		switch prop {
		case "B01", "B02", "B03", "B05", "B06", "B09":
			vsym.Assert(c, w.prop+": after a panic: "+label)
		}
	} else if w.prop == "B17" {
		switch prop {
		case "B01", "B02", "B03", "B05", "B07", "B08":
			vsym.Assert(c, "B17: "+label)
		}
	}
}

type options struct {
	quirks int
	panics int
	lies   int
	mayErr bool
	exact  bool // the source holds exactly the declared bytes
	max    int64
	yield  bool
}

func (w *world) random() bool { return w.kind == kSeek || w.kind == kAt }
func (w *world) stream() bool { return w.kind == kStream || w.kind == kDeclared }

// newWorld makes a body of the given kind over arbitrary data.
func newWorld(prop string, kind int, o options) *world {
	declared := o.max
	if o.max == 0 {
		o.max = maxLen
		declared = maxLen
		switch kind {
		case kSeek, kAt:
			o.max = math.MaxInt64
			declared = math.MaxInt64
		case kDeclared:
			declared = math.MaxInt64
		}
	}
	errSrc = errPlain
	w := &world{prop: prop, kind: kind, data: vsym.NewData("data"), exact: o.exact}
	size := vsym.Int64Range("size", 0, o.max)
	w.declared = size
	w.end = size
	var b body.Body
	switch kind {
	case kBytes:
		b = body.FromBytes(w.data.Bytes(int(size)))
	case kString:
		b = body.FromString(w.data.String(int(size)))
	case kEmpty:
		w.declared, w.end = 0, 0
		b = body.Empty()
	default:
		s := &src{prop: prop, data: w.data, endAt: size, quirks: o.quirks, mayErr: o.mayErr, limit: -1, yield: o.yield, panics: o.panics, lies: o.lies}
		if prop != "B17" || kind == kStream || vsym.Thorough() {
			s.both = vsym.Choose("both", 2) == 1
		}
		w.s = s
		if prop != "B16" && (prop != "B17" || vsym.Thorough()) && vsym.Choose("closeErr", 2) == 1 {
			s.clErr = errClose
		}
		var err error
		if kind == kStream {
			s.stream = true
			w.declared = -1
			if prop == "B11" {
				b, err = body.FromReader(&rRich{rClose{s}, rich{s}})
			} else {
				b, err = body.FromReader(&rClose{s})
			}
		} else {
			l := size
			if !o.exact {
				l = vsym.Int64Range("declared", 0, declared)
			}
			w.declared = l
			if l < size {
				w.end = l
			}
			switch kind {
			case kDeclared:
				s.stream = true
				s.limit = l
				if prop == "B11" {
					b, err = body.FromReaderAndLength(&rRich{rClose{s}, rich{s}}, l)
				} else {
					b, err = body.FromReaderAndLength(&rClose{s}, l)
				}
			case kSeek:
				b, err = body.FromReaderAndLength(&rSeekClose{s}, l)
			case kAt:
				b, err = body.FromReaderAndLength(&rAtClose{s}, l)
			}
		}
		if err != nil {
			vsym.Fail(prop + ": wrapping a reader fails")
		}
	}
	w.known = w.declared
	w.bods = []*bod{{b: b}}
	return w
}

// atEnd reports whether every byte was delivered.  A source that is shorter
// than declared can be sought beyond its real end.
func (w *world) atEnd(x *bod) bool {
	return x.pos == w.end || w.random() && x.pos > w.end
}

// touched is the number of calls the source has seen.
func (w *world) touched() int {
	if w.s == nil {
		return 0
	}
	return w.s.touched
}

func (w *world) failed() bool { return w.s != nil && w.s.failed }

func errCode(err error) int64 {
	switch err {
	case nil:
		return 0
	case io.EOF:
		return 1
	case errSrc:
		return 2
	case fs.ErrClosed:
		return 3
	case errClose:
		return 4
	case errWrite:
		return 5
	}
	return 9
}

// read reads n bytes from body x and compares with the specification.
func (w *world) read(x *bod, n int) {
	p := make([]byte, n)
	if w.s != nil {
		w.s.zeroed = false
		if w.s.stream {
			w.s.allow = w.s.pos
			if need := x.pos + int64(n) - w.s.pos; need > 0 && x.sticky == nil {
				w.s.allow += (need + 65535) / 65536 * 65536
			}
		}
	}
	touched := w.touched()
	failedBefore := w.failed()
	if w.random() && w.s != nil {
		w.s.failed = false
	}
	got, err := x.b.Read(p)
	vsym.Observe("read", int64(got))
	vsym.Observe("err", errCode(err))
	if x.closed {
		w.assert("B06", got == 0 && err == fs.ErrClosed, "read after close")
		w.assert("B06", w.touched() == touched, "read after close uses the source")
		return
	}
	w.assert("B01", 0 <= got && got <= n, "more bytes reported than asked for")
	w.assert("B01", got == 0 || int64(got) <= w.end-x.pos, "more bytes reported than remain")
	if w.prop == "B01" || w.prop == "B15" || w.prop == "B16" || w.prop == "B17" || w.prop == "B05" || w.prop == "B04" || w.prop == "B07" || w.prop == "B08" || w.prop == "B13" || w.prop == "B14" || w.prop == "B09" {
		w.assert(w.prop, 0 <= got && got <= n, "more bytes reported than asked for")
		w.data.Check(p[:got], x.pos, w.prop+": wrong bytes")
	}
	if x.sticky != nil {
		if x.sticky == io.EOF {
			w.assert("B03", got == 0 && err == io.EOF, "end of file not reported again")
		} else {
			w.assert("B04", got == 0 && err == x.sticky, "failure not reported again")
		}
		w.assert("B05", got == 0 && err == x.sticky, "end or failure forgotten")
		w.assert("B07", got == 0 && err == x.sticky, "end or failure forgotten without a successful seek")
		w.assert("B08", got == 0 && err == x.sticky, "end or failure forgotten after a positional read")
		w.assert("B09", got == 0 && err == x.sticky, "end or failure forgotten")
		w.assert("B01", got == 0, "bytes after the end")
		if w.random() {
			w.s.failed = failedBefore
		}
		return
	}
	x.pos += int64(got)
	switch err {
	case nil:
		progress := got > 0 || n == 0 || (w.s != nil && w.s.zeroed)
		w.assert("B03", progress, "no progress and no end of file")
		w.assert("B05", progress, "no progress and no end of file")
		w.assert("B07", progress, "no progress and no end of file")
		if w.random() {
			w.assert("B04", !w.s.failed, "failure of the source not reported")
		}
	case io.EOF:
		w.assert("B03", n > 0, "end of file from an empty read")
		w.assert("B03", w.atEnd(x) || w.failed(), "end of file before the end")
		w.assert("B01", w.atEnd(x) || w.failed(), "bytes lost")
		w.assert("B05", w.atEnd(x) || w.failed(), "end of file before the end")
		w.assert("B07", w.atEnd(x) || w.failed(), "end of file before the end")
		w.assert("B08", w.atEnd(x) || w.failed(), "end of file before the end")
		w.assert("B04", w.atEnd(x), "end of file before the end")
		if w.stream() {
			w.assert("B04", !w.failed(), "failure of the source hidden behind a clean end")
		} else {
			w.assert("B04", !w.failed(), "failure of the source hidden behind a clean end")
		}
		x.sticky = err
		if x.pos < w.known {
			w.known = x.pos
		}
		vsym.Reach("eof")
	case errSrc:
		ok := w.failed() || (w.stream() && failedBefore)
		w.assert("B04", ok, "failure reported that did not happen")
		w.assert("B05", ok, "failure reported that did not happen")
		w.assert("B03", ok, "failure reported that did not happen")
		w.assert("B07", ok, "failure reported that did not happen")
		w.assert("B08", ok, "failure reported that did not happen")
		w.assert("B09", ok, "failure reported that did not happen")
		w.assert("B02", ok, "failure reported that did not happen")
		if w.failed() {
			w.assert("B04", x.pos == w.s.failAt, "bytes before the failure lost")
			w.assert("B01", x.pos == w.s.failAt, "bytes before the failure lost")
		}
		x.sticky = err
		vsym.Reach("failure")
	default:
		w.assert("B04", false, "error is not the source's")
		w.assert("B03", false, "error out of nowhere")
		w.assert("B01", false, "error out of nowhere")
		w.assert("B05", false, "error out of nowhere")
		w.assert("B07", false, "error out of nowhere")
		w.assert("B08", false, "error out of nowhere")
		w.assert("B09", false, "error out of nowhere")
		x.sticky = err
	}
	if n == 0 {
		w.assert("B03", got == 0 && err == nil || w.failed(), "empty read is not a success")
	}
}

// remaining checks the number of remaining bytes.
func (w *world) remaining(x *bod) {
	touched := w.touched()
	r := x.b.BytesRemaining()
	vsym.Observe("remaining", r)
	w.assert("B11", w.touched() == touched, "asking for the remaining bytes uses the source")
	if x.closed {
		w.assert("B06", r == 0, "remaining bytes after close")
		w.assert("B02", r == 0, "remaining bytes after close")
		return
	}
	w.assert("B02", r >= -1, "negative remaining count")
	if x.sticky == io.EOF {
		w.assert("B02", r == 0, "remaining bytes after end of file")
		w.assert("B05", r == 0, "remaining bytes after end of file")
		return
	}
	if w.stream() {
		if x.sticky != nil {
			w.assert("B02", r == 0, "remaining bytes after the failure of a stream")
			return
		}
		known := w.declared
		if w.s.ended || w.s.failed {
			known = w.s.pos
		}
		if known < 0 {
			w.assert("B02", r == -1, "remaining count while the length is unknown")
			w.assert("B05", r == -1, "remaining count while the length is unknown")
			return
		}
		w.assert("B02", r == known-x.pos, "wrong remaining count")
		w.assert("B05", r == known-x.pos, "wrong remaining count")
		return
	}
	if w.random() && w.end < w.declared || x.sticky != nil {
		// the source is shorter than declared: both the declared and the
		// real length are right until the end was met
		a, b := w.known-x.pos, w.end-x.pos
		if a < 0 {
			a = 0
		}
		if b < 0 {
			b = 0
		}
		w.assert("B02", r == a || r == b || (x.sticky != nil && r == 0), "wrong remaining count")
		return
	}
	want := w.declared - x.pos
	w.assert("B02", r == want, "wrong remaining count")
	w.assert("B05", r == want, "wrong remaining count")
	w.assert("B07", r == want, "wrong remaining count after a seek")
	w.assert("B08", r == want, "remaining count changed by a positional read")
	w.assert("B09", r == want, "wrong remaining count")
}

// copyOf copies body x.
func (w *world) copyOf(x *bod) *bod {
	touched := w.touched()
	c, err := x.b.Copy()
	w.assert("B11", w.touched() == touched, "copying uses the source")
	w.assert("B05", w.touched() == touched, "copying uses the source")
	if x.closed {
		w.assert("B06", err == nil && c != nil, "copy of a closed body fails")
		y := &bod{b: c, closed: true}
		return y
	}
	w.assert("B05", err == nil && c != nil, "copy fails")
	if err != nil {
		vsym.Assume(false)
	}
	w.assert("B05", capabilities(c) == capabilities(x.b), "copy supports other operations")
	y := &bod{b: c, pos: x.pos, sticky: x.sticky}
	w.bods = append(w.bods, y)
	return y
}

func capabilities(b body.Body) int {
	k := 0
	if _, ok := b.(io.Seeker); ok {
		k |= 1
	}
	if _, ok := b.(io.ReaderAt); ok {
		k |= 2
	}
	if _, ok := b.(io.WriterTo); ok {
		k |= 4
	}
	return k
}

func (w *world) open() int {
	n := 0
	for _, x := range w.bods {
		if !x.closed {
			n++
		}
	}
	return n
}

// close closes body x.
func (w *world) close(x *bod) {
	before := 0
	touched := w.touched()
	if w.s != nil {
		before = w.s.closed
	}
	err := x.b.Close()
	vsym.Observe("close", errCode(err))
	if x.closed {
		w.assert("B06", err == fs.ErrClosed, "second close is not refused")
		if w.s != nil {
			w.assert("B06", w.s.closed == before && w.touched() == touched, "second close uses the source")
		}
		return
	}
	x.closed = true
	if w.s == nil {
		w.assert("B06", err == nil, "close fails")
		return
	}
	if w.open() == 0 {
		w.assert("B06", w.s.closed == 1, "last close does not close the source exactly once")
		w.assert("B06", err == w.s.clErr, "last close does not return the source's close error")
		w.assert("B05", w.s.closed == 1, "last close does not close the source exactly once")
		vsym.Reach("lastclose")
	} else {
		w.assert("B06", w.s.closed == 0, "source closed while a body is open")
		w.assert("B05", w.s.closed == 0, "source closed while a body is open")
		w.assert("B06", err == nil, "close of one of several bodies fails")
	}
	w.assert("B06", w.touched() == touched, "close reads or seeks the source")
}
