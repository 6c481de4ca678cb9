package handlerh

import (
	"context"
	"io"
	"io/fs"
	"net/http"
	"strconv"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

type failure struct{ msg string }

func (f *failure) Error() string { return f.msg }

var (
	errSrc   error = &failure{"source failed"}
	errClose error = &failure{"close failed"}
	errWrite error = &failure{"write failed"}
	errPush  error = &failure{"push failed"}
	errGiven error = &failure{"handler failed"}
)

// oops is a panic value that is not an error.
type oops struct{ where string }

// described has methods that errors and texts have, but is neither.
type described struct{ text string }

func (d *described) String() string   { return d.text }
func (d *described) GoString() string { return d.text }
func (d *described) Unwrap() error    { return errGiven }
func (d *described) Message() string  { return d.text }

type wrapped struct{ err error }

func (w *wrapped) Error() string { return "wrapped: " + w.err.Error() }
func (w *wrapped) Unwrap() error { return w.err }

var errLikeAbort error = &wrapped{http.ErrAbortHandler}

// anyError is an error of the environment, possibly one with a meaning
// elsewhere.
func (w *world) anyError(plain error) error {
	if w.prop != "H01" && w.prop != "H02" {
		return plain
	}
	switch vsym.Choose("error", 6) {
	case 1:
		return http.ErrAbortHandler
	case 2:
		return context.Canceled
	case 3:
		return fs.ErrClosed
	case 4:
		return http.ErrBodyNotAllowed
	case 5:
		return errLikeAbort
	}
	return plain
}

func tier(quick, thorough int) int {
	if vsym.Thorough() {
		return thorough
	}
	return quick
}

const maxLen = 40000

// world is one request with everything around it.
type world struct {
	prop string

	// the client's side
	hdr      http.Header
	statuses int
	status   int
	total    int64
	data     vsym.Data
	accept   int64 // -1: everything
	wrErr    error
	rdErr    error
	panicIn  string

	// the source
	size   int64
	pos    int64
	failAt int64
	clErr  error
	closed int

	// what went wrong first
	failed bool
	unsent bool        // no status had been sent
	err    error       // the error, or
	value  interface{} // the panic value; neither: any error

	hooks []error
}

func (w *world) fail(err error, value interface{}) {
	if !w.failed {
		w.failed = true
		w.unsent = w.statuses == 0
		w.err, w.value = err, value
	}
}

func (w *world) point(name string) {
	if w.panicIn == name {
		w.fail(nil, oops{name})
		panic(oops{name})
	}
}

func (w *world) Header() http.Header {
	w.point("Header")
	return w.hdr
}

func (w *world) WriteHeader(status int) {
	w.statuses++
	if w.prop == "H01" {
		vsym.Assert(w.statuses == 1, "H01: second status sent")
	}
	w.status = status
}

func (w *world) Write(p []byte) (int, error) {
	w.point("Write")
	n := int64(len(p))
	if w.accept >= 0 && n > w.accept {
		n = w.accept
		if w.wrErr == nil {
			w.wrErr = w.anyError(errWrite)
		}
		w.fail(w.wrErr, nil)
	}
	if w.prop == "H01" {
		w.data.Check(p[:n], w.total, "H01: other body sent")
	}
	w.total += n
	if w.accept >= 0 {
		w.accept -= n
	}
	if n < int64(len(p)) {
		return int(n), w.wrErr
	}
	return int(n), nil
}

type pusher struct{ *world }

func (w pusher) Push(target string, opts *http.PushOptions) error {
	w.point("Push")
	if w.panicIn == "pusherr" {
		err := w.anyError(errPush)
		w.fail(err, nil)
		return err
	}
	return nil
}

type source struct{ *world }

func (s source) Read(p []byte) (int, error) {
	w := s.world
	if len(p) == 0 {
		return 0, nil
	}
	w.point("Read")
	stop := w.size
	if w.failAt >= 0 && w.failAt < stop {
		stop = w.failAt
	}
	n := stop - w.pos
	if n <= 0 {
		if w.failAt >= 0 && w.pos >= w.failAt {
			if w.rdErr == nil {
				w.rdErr = w.anyError(errSrc)
			}
			w.fail(w.rdErr, nil)
			return 0, w.rdErr
		}
		return 0, io.EOF
	}
	if n > int64(len(p)) {
		n = int64(len(p))
	}
	w.data.Fill(p[:n], w.pos)
	w.pos += n
	return int(n), nil
}

func (s source) Close() error {
	s.closed++
	s.point("Close")
	if s.clErr != nil {
		s.fail(s.clErr, nil)
	}
	return s.clErr
}

func newWorld(prop string) *world {
	w := &world{prop: prop, hdr: http.Header{}, accept: -1, failAt: -1}
	w.data = vsym.NewData("body")
	handler.OnPanic = func(err error) { w.hooks = append(w.hooks, err) }
	return w
}

// throw panics with one of several kinds of values.
func (w *world) throw() {
	w.failed, w.unsent = true, w.statuses == 0
	switch vsym.Choose("value", 12) {
	case 0:
		w.err = w.anyError(errGiven)
		panic(w.err)
	case 1:
		w.value = "text"
		panic("text")
	case 2:
		n := vsym.Int("number")
		w.value = n
		panic(n)
	case 3:
		w.value = oops{"handler"}
		panic(oops{"handler"})
	case 4:
		w.err = handler.PanicError{Value: 1}
		panic(handler.PanicError{Value: 1})
	case 5:
		var b body.Body
		b.BytesRemaining()
	case 6:
		var s []int
		_ = s[vsym.IntRange("index", 0, 10)]
	case 7:
		w.value = &described{"described"}
		panic(w.value)
	case 8:
		w.value = [2]bool{true, false}
		panic(w.value)
	case 9:
		w.value = 1.5
		panic(w.value)
	case 10:
		var none *failure
		w.err = none
		panic(w.err)
	case 11:
		w.value = (*described)(nil)
		panic(w.value)
	}
}

// request serves one request in which at most one thing goes wrong, apart
// from a failing close, and returns the status of the response.
func (w *world) request() (code int, quiet bool) {
	method := vsym.NewData("method").String(vsym.IntRange("methodlen", 0, 5))
	req := &http.Request{Method: method}
	code = vsym.IntRange("code", 200, 999)
	quiet = vsym.StringEq(method, "HEAD") || code == 204 || code == 304
	w.size = vsym.Int64Range("size", 0, maxLen)

	what := vsym.Choose("what", 9)
	push := false
	switch what {
	case 3:
		w.failAt = vsym.Int64Range("failat", 0, maxLen)
	case 4:
		w.accept = vsym.Int64Range("accept", 0, maxLen)
	case 5:
		w.panicIn = []string{"Read", "Close", "Header", "Write"}[vsym.Choose("panicin", 4)]
	case 6:
		push = true
		w.panicIn = []string{"Push", "pusherr", ""}[vsym.Choose("pushing", 3)]
	case 7:
		w.clErr = w.anyError(errClose)
	}
	if what == 3 || what == 4 {
		if vsym.Choose("closefails", 2) == 1 {
			w.clErr = errClose
		}
	}
	calls := 0
	inner := handler.HandlerFunc(func(r *http.Request) response.Response {
		calls++
		vsym.Assert(r == req, w.prop+": handler called with another request")
		switch what {
		case 1:
			w.throw()
		case 2:
			w.failed, w.unsent = true, w.statuses == 0
			return response.Response{}
		}
		b, err := body.FromReader(source{w})
		if vsym.Choose("known", 2) == 1 {
			b, err = body.FromReaderAndLength(source{w}, w.size)
		}
		vsym.Assert(err == nil, w.prop+": wrapping a reader fails")
		builder := response.NewBuilder().WithStatus(code).WithBody(b)
		builder.WithHeader("X-One", "one", true)
		if push {
			builder.WithHeader("Push", "/a", true)
		}
		return *builder.Build()
	})
	var rw http.ResponseWriter = w
	if push {
		rw = pusher{w}
	}
	if what == 8 {
		// somebody has already sent a status
		ww := response.NewWriter(rw, req)
		ww.WriteHeader(vsym.IntRange("sent", 100, 999))
		rw = ww
		if vsym.Choose("handlerpanics", 2) == 1 {
			what = 1
		}
		vsym.Reach("already")
	}
	escaped := panics(func() { handler.Adaptor{Inner: inner}.ServeHTTP(rw, req) })
	vsym.Assert(escaped == nil, w.prop+": panic propagates")
	vsym.Assert(calls == 1, w.prop+": handler not called once")
	if what == 8 && !w.failed && len(w.hooks) > 0 {
		w.failed = true // a second status is refused
	}
	if w.failed {
		vsym.Reach("failed")
	} else {
		vsym.Reach("served")
	}
	vsym.Observe("status", int64(w.status))
	vsym.Observe("total", w.total)
	return code, quiet
}

// H01Request: one request.
//
//verif:check H01
//verif:bound any method, any status 200..999, body of 0..40000 bytes from a reader with or without known length; handler panicking with 12 kinds of values, among them 6 errors, or returning an empty response; source or writer failing anywhere, with or without a failing close; panics in the source, in its close, in the writer's Header, Write and Push; failing push; a status sent before by somebody else
//verif:reach served failed already
func H01Request() {
	w := newWorld("H01")
	code, quiet := w.request()
	vsym.Assert(w.statuses == 1, "H01: client left without a status")
	if !w.failed {
		vsym.Assert(len(w.hooks) == 0, "H01: hook called although nothing failed")
		vsym.Assert(w.status == code && len(w.hdr["X-One"]) == 1 && w.hdr["X-One"][0] == "one", "H01: response changed")
		if quiet {
			vsym.Assert(w.total == 0, "H01: response changed")
		} else {
			vsym.Assert(w.total == w.size, "H01: response changed")
		}
		return
	}
	if w.unsent {
		vsym.Assert(w.status == 500, "H01: failed request not answered with 500")
	}
	vsym.Assert(len(w.hooks) == 1, "H01: hook not called once")
	err := w.hooks[0]
	vsym.Assert(err != nil, "H01: hook called without an error")
	if w.err != nil {
		vsym.Assert(err == w.err, "H01: hook called with another error")
	} else if w.value != nil {
		pe, ok := err.(handler.PanicError)
		vsym.Assert(ok, "H01: hook's error does not carry the value")
		if n, isInt := w.value.(int); isInt {
			k, isInt := pe.Value.(int)
			vsym.Assert(isInt && n == k, "H01: hook's error carries another value")
		} else {
			vsym.Assert(pe.Value == w.value, "H01: hook's error carries another value")
		}
	} else if _, ok := err.(handler.PanicError); ok {
		vsym.Fail("H01: error wrapped although it is an error")
	}
}

// H02Request: counters and histograms after one request.
//
//verif:check H02
//verif:bound as for H01, one request
//verif:reach served failed already
func H02Request() {
	w := newWorld("H02")
	w.request()
	label := strconv.Itoa(w.status)
	vsym.Assert(at(handler.PromRequestsTotal, label) == 1, "H02: request not counted once under the status sent")
	vsym.Assert(sum(counters(handler.PromRequestsTotal)) == 1, "H02: request counted under another status")
	vsym.Assert(at(handler.PromSendBytesTotal, label) == float64(w.total), "H02: bytes sent not counted under the status sent")
	vsym.Assert(sum(counters(handler.PromSendBytesTotal)) == float64(w.total), "H02: bytes counted under another status")
	n, total := observed(handler.PromSendBytesHist)
	vsym.Assert(n == 1 && total == float64(w.total), "H02: bytes sent not observed once")
	n, _ = observed(handler.PromLatencyHist)
	vsym.Assert(n == 1, "H02: latency not observed once")
	p := value(handler.PromPanicsTotal)
	if w.failed {
		vsym.Assert(p == 1, "H02: failure not counted once")
	} else {
		vsym.Assert(p == 0, "H02: failure counted although nothing failed")
	}
}

// H02Two: two requests in a row.
//
//verif:check H02
//verif:bound two requests with any statuses 200..999 and bodies of 0..40000 bytes, each answered or ended by a panic
//verif:reach same different
func H02Two() {
	var status [2]int
	var bytes [2]int64
	fails := 0.0
	for i := 0; i < 2; i++ {
		w := newWorld("H02")
		code := vsym.IntRange("code", 200, 999)
		w.size = vsym.Int64Range("size", 0, maxLen)
		bad := vsym.Choose("bad", 2) == 1
		a := handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response {
			if bad {
				panic("bad")
			}
			return *response.NewBuilder().WithStatus(code).WithBody(body.FromBytes(w.data.Bytes(int(w.size)))).Build()
		})}
		a.ServeHTTP(w, &http.Request{Method: "GET"})
		if bad {
			fails++
		}
		status[i], bytes[i] = w.status, w.total
	}
	reqs := [2]float64{1, 1}
	sent := [2]float64{float64(bytes[0]), float64(bytes[1])}
	if status[0] == status[1] {
		reqs = [2]float64{2, 2}
		both := float64(bytes[0]) + float64(bytes[1])
		sent = [2]float64{both, both}
		vsym.Reach("same")
	} else {
		vsym.Reach("different")
	}
	for i, s := range status {
		label := strconv.Itoa(s)
		vsym.Assert(at(handler.PromRequestsTotal, label) == reqs[i], "H02: requests not counted once each")
		vsym.Assert(at(handler.PromSendBytesTotal, label) == sent[i], "H02: bytes not counted once each")
	}
	vsym.Assert(sum(counters(handler.PromRequestsTotal)) == 2, "H02: requests counted under another status")
	n, _ := observed(handler.PromSendBytesHist)
	vsym.Assert(n == 2, "H02: bytes not observed once each")
	n, _ = observed(handler.PromLatencyHist)
	vsym.Assert(n == 2, "H02: latency not observed once each")
	vsym.Assert(value(handler.PromPanicsTotal) == fails, "H02: failures not counted once each")
}

func sum(xs []float64) float64 {
	s := 0.0
	for _, x := range xs {
		s = s + x
	}
	return s
}

func panics(f func()) (v interface{}) {
	defer func() { v = recover() }()
	f()
	return nil
}
