package resph

import (
	"bufio"
	"io"
	"net"
	"net/http"

	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// under is an underlying response writer.  Optional interfaces are added by
// embedding the types below next to it.
type under struct {
	prop     string
	hdr      http.Header
	statuses int
	status   int
	started  bool
	data     vsym.Data // what is being written now
	at       int64
	total    int64
	err      error // next failure of Write or ReadFrom
	accept   int64 // bytes accepted before the failure
	failed   bool
	flushes  int
	notifies int
	hijacks  int
	froms    int
	pushes   int
	ch       chan bool
	rw       *bufio.ReadWriter
	hijErr   error
	target   string
	opts     *http.PushOptions
	pushErr  error
	bomb     error // what WriteHeader panics with
}

func newUnder(prop string) *under {
	return &under{prop: prop, hdr: http.Header{}, ch: make(chan bool), rw: &bufio.ReadWriter{}}
}

func (u *under) Header() http.Header { return u.hdr }

func (u *under) WriteHeader(status int) {
	u.statuses++
	if u.prop == "W01" {
		vsym.Assert(u.statuses == 1, "W01: more than one status sent")
		vsym.Assert(status >= 100 && status <= 999, "W01: invalid status sent")
		vsym.Assert(!u.started, "W01: status sent after body or flush")
	}
	u.status = status
	if u.bomb != nil {
		panic(u.bomb)
	}
}

func (u *under) begin() {
	u.started = true
	if u.prop == "W01" {
		vsym.Assert(u.statuses == 1, "W01: body or flush before the status")
	}
}

func (u *under) Write(p []byte) (int, error) {
	u.begin()
	n := int64(len(p))
	if n == 0 {
		return 0, nil
	}
	if u.err != nil && n > u.accept {
		n = u.accept
	}
	if u.prop == "W02" {
		u.data.Check(p[:n], u.at, "W02: other bytes sent")
	}
	u.at += n
	u.total += n
	u.accept -= n
	if u.err != nil && u.accept == 0 {
		u.failed = true
		return int(n), u.err
	}
	return int(n), nil
}

func (u *under) readFrom(r io.Reader) (int64, error) {
	u.begin()
	u.froms++
	var total int64
	buf := make([]byte, 32768)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			k, werr := u.Write(buf[:n])
			total += int64(k)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			u.failed = true
			return total, err
		}
	}
}

type mFlush struct{ u *under }

func (m mFlush) Flush() { m.u.begin(); m.u.flushes++ }

type mNotify struct{ u *under }

func (m mNotify) CloseNotify() <-chan bool { m.u.notifies++; return m.u.ch }

type mHijack struct{ u *under }

func (m mHijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	m.u.hijacks++
	return nil, m.u.rw, m.u.hijErr
}

type mFrom struct{ u *under }

func (m mFrom) ReadFrom(r io.Reader) (int64, error) { return m.u.readFrom(r) }

type mPush struct{ u *under }

func (m mPush) Push(target string, opts *http.PushOptions) error {
	m.u.pushes++
	m.u.target, m.u.opts = target, opts
	return m.u.pushErr
}

const (
	canFlush = 1 << iota
	canNotify
	canHijack
	canFrom
	canPush
)

// with gives u the optional interfaces in the set m.
func (u *under) with(m int) http.ResponseWriter {
	switch m {
	case 0:
		return struct{ *under }{u}
	case 1:
		return struct {
			*under
			mFlush
		}{u, mFlush{u}}
	case 2:
		return struct {
			*under
			mNotify
		}{u, mNotify{u}}
	case 3:
		return struct {
			*under
			mFlush
			mNotify
		}{u, mFlush{u}, mNotify{u}}
	case 4:
		return struct {
			*under
			mHijack
		}{u, mHijack{u}}
	case 5:
		return struct {
			*under
			mFlush
			mHijack
		}{u, mFlush{u}, mHijack{u}}
	case 6:
		return struct {
			*under
			mNotify
			mHijack
		}{u, mNotify{u}, mHijack{u}}
	case 7:
		return struct {
			*under
			mFlush
			mNotify
			mHijack
		}{u, mFlush{u}, mNotify{u}, mHijack{u}}
	case 8:
		return struct {
			*under
			mFrom
		}{u, mFrom{u}}
	case 9:
		return struct {
			*under
			mFlush
			mFrom
		}{u, mFlush{u}, mFrom{u}}
	case 10:
		return struct {
			*under
			mNotify
			mFrom
		}{u, mNotify{u}, mFrom{u}}
	case 11:
		return struct {
			*under
			mFlush
			mNotify
			mFrom
		}{u, mFlush{u}, mNotify{u}, mFrom{u}}
	case 12:
		return struct {
			*under
			mHijack
			mFrom
		}{u, mHijack{u}, mFrom{u}}
	case 13:
		return struct {
			*under
			mFlush
			mHijack
			mFrom
		}{u, mFlush{u}, mHijack{u}, mFrom{u}}
	case 14:
		return struct {
			*under
			mNotify
			mHijack
			mFrom
		}{u, mNotify{u}, mHijack{u}, mFrom{u}}
	case 15:
		return struct {
			*under
			mFlush
			mNotify
			mHijack
			mFrom
		}{u, mFlush{u}, mNotify{u}, mHijack{u}, mFrom{u}}
	case 16:
		return struct {
			*under
			mPush
		}{u, mPush{u}}
	case 17:
		return struct {
			*under
			mFlush
			mPush
		}{u, mFlush{u}, mPush{u}}
	case 18:
		return struct {
			*under
			mNotify
			mPush
		}{u, mNotify{u}, mPush{u}}
	case 19:
		return struct {
			*under
			mFlush
			mNotify
			mPush
		}{u, mFlush{u}, mNotify{u}, mPush{u}}
	case 20:
		return struct {
			*under
			mHijack
			mPush
		}{u, mHijack{u}, mPush{u}}
	case 21:
		return struct {
			*under
			mFlush
			mHijack
			mPush
		}{u, mFlush{u}, mHijack{u}, mPush{u}}
	case 22:
		return struct {
			*under
			mNotify
			mHijack
			mPush
		}{u, mNotify{u}, mHijack{u}, mPush{u}}
	case 23:
		return struct {
			*under
			mFlush
			mNotify
			mHijack
			mPush
		}{u, mFlush{u}, mNotify{u}, mHijack{u}, mPush{u}}
	case 24:
		return struct {
			*under
			mFrom
			mPush
		}{u, mFrom{u}, mPush{u}}
	case 25:
		return struct {
			*under
			mFlush
			mFrom
			mPush
		}{u, mFlush{u}, mFrom{u}, mPush{u}}
	case 26:
		return struct {
			*under
			mNotify
			mFrom
			mPush
		}{u, mNotify{u}, mFrom{u}, mPush{u}}
	case 27:
		return struct {
			*under
			mFlush
			mNotify
			mFrom
			mPush
		}{u, mFlush{u}, mNotify{u}, mFrom{u}, mPush{u}}
	case 28:
		return struct {
			*under
			mHijack
			mFrom
			mPush
		}{u, mHijack{u}, mFrom{u}, mPush{u}}
	case 29:
		return struct {
			*under
			mFlush
			mHijack
			mFrom
			mPush
		}{u, mFlush{u}, mHijack{u}, mFrom{u}, mPush{u}}
	case 30:
		return struct {
			*under
			mNotify
			mHijack
			mFrom
			mPush
		}{u, mNotify{u}, mHijack{u}, mFrom{u}, mPush{u}}
	case 31:
		return struct {
			*under
			mFlush
			mNotify
			mHijack
			mFrom
			mPush
		}{u, mFlush{u}, mNotify{u}, mHijack{u}, mFrom{u}, mPush{u}}
	}
	panic("unreachable")
}

// foreign is a Writer of another package.
type foreign struct {
	*under
	mPush
}

func (f foreign) MaybeWriteHeader(int)        {}
func (f foreign) Status() int                 { return 0 }
func (f foreign) BytesWritten() int64         { return 0 }
func (f foreign) SawError() bool              { return false }
func (f foreign) Unwrap() http.ResponseWriter { return f.under }

// history drives one wrapped writer.
func history(prop string, ops int, max int64) {
	u := newUnder(prop)
	kind := vsym.Choose("kind", 3)
	method := vsym.NewData("method").String(vsym.IntRange("methodlen", 0, 10))
	head := vsym.StringEq(method, "HEAD")
	plainErrors()
	ww := response.NewWriter(u.with([]int{0, canFlush, canFlush | canNotify | canHijack | canFrom}[kind]), &http.Request{Method: method})
	w01, w02 := prop == "W01", prop == "W02"
	sent := 0
	var bytes int64
	saw := false
	begin := func() {
		if sent == 0 {
			sent = 200
		}
	}
	for i := 0; i < ops; i++ {
		op := vsym.Choose("op", 3+kind)
		switch op {
		case 0, 1: // status
			s := vsym.Int("status")
			valid := s >= 100 && s <= 999
			f := ww.WriteHeader
			if op == 1 {
				f = ww.MaybeWriteHeader
			}
			p := panics(func() { f(s) })
			switch {
			case sent == 0 && valid:
				vsym.Assert(p == nil, prop+": valid status refused")
				sent = s
				vsym.Reach("status")
			case sent == 0:
				vsym.Assert(p != nil, prop+": invalid status accepted")
				vsym.Reach("invalid")
			case op == 0:
				vsym.Assert(p != nil, prop+": second status accepted")
				if valid {
					saw = true
					vsym.Reach("second")
				} else if ww.SawError() {
					saw = true // either is fine
				}
			case valid:
				vsym.Assert(p == nil, prop+": conditional status refused")
			}
		case 2, 4: // body
			u.err, u.accept, u.at, u.failed = nil, 0, 0, false
			u.data = vsym.NewData("body")
			size := vsym.Int64Range("size", 0, max)
			if vsym.Choose("fails", 2) == 1 {
				u.err = errWrite
				if w02 && ops == 1 {
					u.err = anyError(errWrite, false)
				}
				u.accept = vsym.Int64Range("accept", 0, size)
			}
			begin()
			quiet := head || sent == 204 || sent == 304
			before := u.total
			var n int64
			var err error
			src := &reader{data: u.data, end: size, failAt: -1}
			if op == 2 {
				var k int
				k, err = ww.Write(u.data.Bytes(int(size)))
				n = int64(k)
			} else {
				if vsym.Choose("sourcefails", 2) == 1 {
					src.failAt = vsym.Int64Range("failat", 0, size)
					src.vary = w02 && ops == 1
				}
				src.both = vsym.Choose("both", 2) == 1
				n, err = ww.(io.ReaderFrom).ReadFrom(src)
			}
			bytes = u.total
			if quiet {
				if w02 {
					vsym.Assert(u.total == before, "W02: body sent although forbidden")
					if src.failAt >= 0 && err != nil {
						vsym.Assert(n == src.failAt && err == errSrc, "W02: failure of the source not passed through")
					} else {
						vsym.Assert(n == size && err == nil, "W02: suppressed body not reported as success")
					}
				}
				saw = saw || src.failAt >= 0 && ww.SawError()
				vsym.Reach("suppressed")
				break
			}
			if w02 {
				vsym.Assert(n == u.total-before, "W02: accepted count not passed through")
			}
			if u.failed {
				saw = true
				if w02 {
					vsym.Assert(err == u.err && u.err != nil || err == errSrc && src.failAt >= 0, "W02: failure not passed through")
				}
				vsym.Reach("failed")
			} else if w02 {
				vsym.Assert(err == nil && n == size, "W02: success not passed through")
			}
			vsym.Reach("written")
		case 3: // flush
			begin()
			n := u.flushes
			ww.(http.Flusher).Flush()
			vsym.Assert(u.flushes == n+1, prop+": flush not forwarded")
			vsym.Reach("flushed")
		}
		if w01 {
			vsym.Assert(u.status == sent && (sent == 0) == (u.statuses == 0), "W01: wrong status sent")
			vsym.Assert(ww.Status() == sent, "W01: reported status is not the one sent")
			if sent != 0 {
				vsym.Assert(ww.SawError() || !saw, "W01: second status not recorded as an error")
			}
		}
		if w02 {
			vsym.Assert(ww.BytesWritten() == bytes && bytes == u.total, "W02: byte count is not what was accepted")
			vsym.Assert(ww.SawError() == saw, "W02: error flag is wrong")
		}
	}
	vsym.Observe("status", int64(ww.Status()))
	vsym.Observe("bytes", ww.BytesWritten())
}

// W01Status: statuses in all histories of calls.
//
//verif:check W01
//verif:bound 3 (thorough: 4) calls in any order: WriteHeader and MaybeWriteHeader with any integer, Write and ReadFrom of 0..1000 bytes, failing after any number, source failing anywhere, Flush; any method; writers with no optional interface, flushing, and all of them
//verif:reach status invalid second suppressed failed written flushed
func W01Status() { history("W01", tier(3, 4), 1000) }

// W01Panic: an underlying writer that panics with the status in its hands.
//
//verif:check W01
//verif:bound a writer of any of the 3 kinds that panics when it gets the status, which is any valid one set either way or the 200 of a write, read-from or flush; then 2 (thorough: 3) such calls
//verif:reach panicked
func W01Panic() {
	u := newUnder("W01")
	u.bomb = errSrc
	kind := vsym.Choose("kind", 3)
	ww := response.NewWriter(u.with([]int{0, canFlush, canFlush | canNotify | canHijack | canFrom}[kind]), &http.Request{Method: "GET"})
	u.data = vsym.NewData("body")
	for i := 0; i < tier(3, 4); i++ {
		var f func()
		op := vsym.Choose("op", 3+kind)
		s := vsym.IntRange("status", 100, 999)
		switch op {
		case 0:
			f = func() { ww.WriteHeader(s) }
		case 1:
			f = func() { ww.MaybeWriteHeader(s) }
		case 2:
			f = func() { ww.Write(u.data.Bytes(1)) }
		case 3:
			f = func() { ww.(http.Flusher).Flush() }
		case 4:
			f = func() { ww.(io.ReaderFrom).ReadFrom(&reader{data: u.data, end: 1, failAt: -1}) }
		}
		p := panics(f)
		if i == 0 {
			vsym.Assert(p == error(errSrc), "W01: panic of the writer changed")
			vsym.Assert(u.statuses == 1, "W01: no status sent")
			vsym.Reach("panicked")
		} else {
			vsym.Assert(op == 0 || p == nil, "W01: later call panics")
		}
		u.bomb = nil
		u.at = 0
		vsym.Assert(ww.Status() == u.status || ww.Status() == 0, "W01: another status reported than sent")
	}
}

// W02Count: bytes and errors in all histories of calls.
//
//verif:check W02
//verif:bound 3 (thorough: 4) calls in any order: WriteHeader and MaybeWriteHeader with any integer, Write and ReadFrom of 0..1000 bytes, failing after any number, source failing anywhere, Flush; any method; writers with no optional interface, flushing, and all of them
//verif:reach status invalid second suppressed failed written flushed
func W02Count() { history("W02", tier(3, 4), 1000) }

// W02Large: the same with large bodies.
//
//verif:check W02
//verif:bound 2 calls as above with 0..70000 (thorough: 0..200000) bytes, so that reading-from takes several rounds
//verif:reach status invalid second suppressed failed written flushed
func W02Large() { history("W02", 2, int64(tier(70000, 200000))) }

// W02Errors: failures that mean something elsewhere are failures like any other.
//
//verif:check W02
//verif:bound 1 call as for W02Count, every failure with 8 or 9 kinds of errors
//verif:reach failed suppressed written
func W02Errors() { history("W02", 1, 1000) }

// W03Interfaces: optional interfaces of the wrapper.
//
//verif:check W03
//verif:bound all 32 combinations of flushing, close notification, hijacking, read-from and push; any push target of 0..100 bytes, failing or not; failing hijack or not
//verif:reach basic flush fancy push nopush
func W03Interfaces() {
	u := newUnder("W03")
	m := vsym.Choose("with", 32)
	w := u.with(m)
	ww := response.NewWriter(w, &http.Request{Method: "GET"})
	all := canFlush | canNotify | canHijack | canFrom
	fancy := m&all == all

	vsym.Assert(ww.Unwrap() == w, "W03: unwraps to another writer")
	ww.Header()["X-One"] = []string{"1"}
	vsym.Assert(len(u.hdr["X-One"]) == 1, "W03: headers are not the underlying ones")
	vsym.Assert(response.NewWriter(ww, &http.Request{Method: "HEAD"}) == ww, "W03: wrapped again")

	fl, ok := ww.(http.Flusher)
	vsym.Assert(ok == (m&canFlush != 0), "W03: flushing not preserved")
	if ok {
		fl.Flush()
		vsym.Assert(u.flushes == 1, "W03: flush not forwarded once")
		vsym.Reach("flush")
	} else {
		vsym.Reach("basic")
	}
	cn, ok := ww.(http.CloseNotifier)
	vsym.Assert(ok == fancy, "W03: close notification not preserved")
	if ok {
		ch := cn.CloseNotify()
		vsym.Assert(u.notifies == 1 && ch == (<-chan bool)(u.ch), "W03: close notification not forwarded once")
	}
	hj, ok := ww.(http.Hijacker)
	vsym.Assert(ok == fancy, "W03: hijacking not preserved")
	if ok {
		if vsym.Choose("hijackfails", 2) == 1 {
			u.hijErr = errSrc
		}
		_, rw, err := hj.Hijack()
		vsym.Assert(u.hijacks == 1 && rw == u.rw && err == u.hijErr, "W03: hijacking not forwarded once")
	}
	rf, ok := ww.(io.ReaderFrom)
	vsym.Assert(ok == fancy, "W03: read-from not preserved")
	if ok {
		size := vsym.Int64Range("size", 0, maxLen)
		u.data = vsym.NewData("body")
		n, err := rf.ReadFrom(&reader{data: u.data, end: size, failAt: -1})
		vsym.Assert(u.froms == 1 && n == size && err == nil && u.total == size, "W03: read-from not forwarded once")
		vsym.Reach("fancy")
	}
	target := vsym.NewData("target").String(vsym.IntRange("targetlen", 0, 100))
	var opts *http.PushOptions
	switch vsym.Choose("opts", 4) {
	case 1:
		opts = &http.PushOptions{}
	case 2:
		opts = &http.PushOptions{Method: "GET"}
	case 3:
		opts = &http.PushOptions{Header: http.Header{"Accept": []string{"x"}}}
	}
	if vsym.Choose("pushfails", 2) == 1 {
		u.pushErr = errPush
	}
	err := ww.Push(target, opts)
	if m&canPush != 0 {
		vsym.Assert(u.pushes == 1 && vsym.StringEq(u.target, target) && u.opts == opts, "W03: push not forwarded once")
		vsym.Assert(err == u.pushErr, "W03: result of the push not passed on")
		vsym.Reach("push")
	} else {
		vsym.Assert(err == http.ErrNotSupported, "W03: push without support not refused as unsupported")
		vsym.Reach("nopush")
	}
}

// W03Foreign: any writer that already is a Writer is used as it is.
//
//verif:check W03
//verif:bound a Writer implemented elsewhere; any method
//verif:reach kept
func W03Foreign() {
	u := newUnder("W03")
	f := foreign{u, mPush{u}}
	method := []string{"GET", "HEAD"}[vsym.Choose("method", 2)]
	ww := response.NewWriter(f, &http.Request{Method: method})
	vsym.Assert(ww == response.Writer(f), "W03: wrapped again")
	vsym.Reach("kept")
}
