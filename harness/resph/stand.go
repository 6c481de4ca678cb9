// Package resph checks package response through its public interface.
package resph

import (
	"context"
	"io"
	"io/fs"
	"net/http"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// failure is an error of the environment, compared by identity.
type failure struct{ msg string }

func (f *failure) Error() string { return f.msg }

var (
	errPlain error = &failure{"source failed"}
	errSrc   error = errPlain
	errClose error = &failure{"close failed"}
	errWrite error = &failure{"write failed"}
	errPush  error = &failure{"push failed"}
	errCopy  error = &failure{"copy failed"}
	errPage  error = &failure{"<page & error>"}
)

// wrapped is an error that wraps another one.
type wrapped struct{ err error }

func (w *wrapped) Error() string { return "wrapped: " + w.err.Error() }
func (w *wrapped) Unwrap() error { return w.err }

var (
	errLikeEOF    error = &wrapped{io.EOF}
	errLikeClosed error = &wrapped{fs.ErrClosed}
)

// anyError is an error of the environment, possibly one with a meaning
// elsewhere.  A source's failure is anything but io.EOF.
func anyError(plain error, source bool) error {
	n := 9
	if source {
		n = 8
	}
	switch vsym.Choose("error", n) {
	case 1:
		return errLikeEOF
	case 2:
		return io.ErrUnexpectedEOF
	case 3:
		return fs.ErrClosed
	case 4:
		return http.ErrBodyNotAllowed
	case 5:
		return http.ErrAbortHandler
	case 6:
		return context.Canceled
	case 7:
		return errLikeClosed
	case 8:
		return io.EOF
	}
	return plain
}

// plainErrors undoes what another run may have chosen.
func plainErrors() {
	errSrc = errPlain
	errWrite = &failure{"write failed"}
	errClose = &failure{"close failed"}
	errPush = &failure{"push failed"}
}

func tier(quick, thorough int) int {
	if vsym.Thorough() {
		return thorough
	}
	return quick
}

const maxLen = 70000

// reader is a one-way source.
type reader struct {
	data   vsym.Data
	end    int64
	pos    int64
	failAt int64 // fails there, -1: never
	both   bool  // reports its end with the last bytes
	closed int
	clErr  error
	short  int  // short reads left
	vary   bool // fails with any error
}

func (r *reader) Read(p []byte) (int, error) {
	n := int64(len(p))
	if n == 0 {
		return 0, nil
	}
	stop := r.end
	if r.failAt >= 0 && r.failAt < stop {
		stop = r.failAt
	}
	rem := stop - r.pos
	if rem <= 0 {
		if r.failAt >= 0 && r.pos >= r.failAt {
			if r.vary {
				r.vary = false
				errSrc = anyError(errSrc, true)
			}
			return 0, errSrc
		}
		return 0, io.EOF
	}
	if n > rem {
		n = rem
	}
	if r.short > 0 && vsym.Choose("short", 2) == 1 {
		r.short--
		n = vsym.Int64Range("shortlen", 1, n)
	}
	r.data.Fill(p[:n], r.pos)
	r.pos += n
	if r.both && r.pos == r.end {
		return int(n), io.EOF
	}
	return int(n), nil
}

func (r *reader) Close() error {
	r.closed++
	if r.vary && r.clErr != nil {
		r.vary = false
		errClose = anyError(errClose, false)
		r.clErr = errClose
	}
	return r.clErr
}

// stand is a body made of a reader.
type stand struct {
	*reader
	known   bool
	copyErr error
	gone    bool
}

func (b *stand) BytesRemaining() int64 {
	if !b.known {
		return -1
	}
	return b.end - b.pos
}

func (b *stand) Close() error {
	if b.gone {
		b.closed++
		return fs.ErrClosed
	}
	b.gone = true
	return b.reader.Close()
}

func (b *stand) Copy() (body.Body, error) {
	if b.copyErr != nil {
		return nil, b.copyErr
	}
	r := *b.reader
	r.closed = 0
	return &stand{reader: &r, known: b.known}, nil
}

func (b *stand) Unwrap() io.Reader { return b.reader }

// rec is a response writer that records what it is told.
type rec struct {
	prop     string
	hdr      http.Header
	data     vsym.Data
	pos      int64 // position in the data of the next body byte
	total    int64
	accept   int64 // body bytes it will still accept, -1: all
	statuses int
	status   int
	pushes   []string
	pushErr  []error // per push, nil beyond
	writes   int
	froms    int
	panicIn  string
	onStatus func()
	failed   bool
}

type writerPanic struct{ where string }

func newRec(prop string, data vsym.Data) *rec {
	return &rec{prop: prop, hdr: http.Header{}, data: data, accept: -1}
}

func (w *rec) Header() http.Header {
	if w.panicIn == "Header" {
		panic(writerPanic{"Header"})
	}
	return w.hdr
}

func (w *rec) WriteHeader(status int) {
	if w.panicIn == "WriteHeader" {
		panic(writerPanic{"WriteHeader"})
	}
	w.statuses++
	vsym.Assert(w.statuses == 1, w.prop+": status sent twice")
	vsym.Assert(w.total == 0 && w.writes == 0, w.prop+": body sent before the status")
	w.status = status
	if w.onStatus != nil {
		w.onStatus()
	}
}

func (w *rec) Write(p []byte) (int, error) {
	if w.panicIn == "Write" {
		panic(writerPanic{"Write"})
	}
	vsym.Assert(w.statuses == 1, w.prop+": body sent before the status")
	w.writes++
	n := int64(len(p))
	var err error
	if w.accept >= 0 && n > w.accept {
		n = w.accept
		if w.prop == "R06" && !w.failed {
			errWrite = anyError(errWrite, false)
		}
		err = errWrite
		w.failed = true
	}
	w.data.Check(p[:n], w.pos, w.prop+": wrong body bytes")
	if w.accept >= 0 {
		w.accept -= n
	}
	w.pos += n
	w.total += n
	return int(n), err
}

func (w *rec) readFrom(r io.Reader) (int64, error) {
	w.froms++
	var total int64
	buf := make([]byte, 32768)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			k, werr := w.Write(buf[:n])
			total += int64(k)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func (w *rec) push(target string, opts *http.PushOptions) error {
	if w.panicIn == "Push" {
		panic(writerPanic{"Push"})
	}
	vsym.Assert(w.statuses == 0 && w.writes == 0, w.prop+": push after the status")
	i := len(w.pushes)
	w.pushes = append(w.pushes, target)
	if i < len(w.pushErr) {
		return w.pushErr[i]
	}
	return nil
}

type recPush struct{ *rec }

func (w recPush) Push(target string, opts *http.PushOptions) error { return w.push(target, opts) }

type recFrom struct{ *rec }

func (w recFrom) ReadFrom(r io.Reader) (int64, error) { return w.readFrom(r) }

type recPushFrom struct{ *rec }

func (w recPushFrom) Push(target string, opts *http.PushOptions) error { return w.push(target, opts) }
func (w recPushFrom) ReadFrom(r io.Reader) (int64, error)              { return w.readFrom(r) }

// as gives w the chosen optional interfaces.
func (w *rec) as(push, from bool) http.ResponseWriter {
	switch {
	case push && from:
		return recPushFrom{w}
	case push:
		return recPush{w}
	case from:
		return recFrom{w}
	}
	return w
}

// newBody makes a body of a kind chosen by the solver over the first size
// bytes of data.  The returned reader is nil for bodies without one.
func newBody(prop string, data vsym.Data, size int64) (body.Body, *reader) {
	switch vsym.Choose("body", 5) {
	case 0:
		return body.FromBytes(data.Bytes(int(size))), nil
	case 1:
		return body.FromString(data.String(int(size))), nil
	case 2:
		r := &reader{data: data, end: size, failAt: -1, both: true}
		b, err := body.FromReader(r)
		vsym.Assert(err == nil, prop+": wrapping a reader fails")
		return b, r
	case 3:
		r := &reader{data: data, end: size, failAt: -1, short: 1}
		b, err := body.FromReaderAndLength(r, size)
		vsym.Assert(err == nil, prop+": wrapping a reader fails")
		return b, r
	}
	r := &reader{data: data, end: size, failAt: -1}
	return &stand{reader: r, known: true}, r
}

// panics runs f and returns what it panics with, or nil.
func panics(f func()) (v interface{}) {
	defer func() { v = recover() }()
	f()
	return nil
}

// sameList compares header values.
func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vsym.StringEq(a[i], b[i]) {
			return false
		}
	}
	return true
}
