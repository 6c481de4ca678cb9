package handlerh

import (
	"io"
	"net/http"
	"strconv"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// client is one of several requests served at once.
type client struct {
	*world
	what int
	code int
	fail error // what its handler panics with
}

// WriteHeader, Write and Read let other goroutines run.
func (c *client) WriteHeader(status int) {
	vsym.Yield()
	c.world.WriteHeader(status)
}

func (c *client) Write(p []byte) (int, error) {
	if vsym.Thorough() {
		vsym.Yield()
	}
	return c.world.Write(p)
}

func (c *client) Handle(r *http.Request) response.Response {
	vsym.Yield()
	if c.what == 1 {
		panic(c.fail)
	}
	if c.what == 2 {
		panic(c)
	}
	return *response.NewBuilder().WithStatus(c.code).WithBody(direct{source{c.world}}).Build()
}

// direct is a body without locks.
type direct struct{ source }

func (d direct) BytesRemaining() int64    { return d.size - d.pos }
func (d direct) Copy() (body.Body, error) { return d, nil }
func (d direct) Unwrap() io.Reader        { return d.source }

// route sends every request to its own client.
type route struct {
	reqs  [2]*http.Request
	cs    [2]*client
	calls [2]int
}

func (r *route) Handle(req *http.Request) response.Response {
	for i, q := range r.reqs {
		if q == req {
			r.calls[i]++
			return r.cs[i].Handle(req)
		}
	}
	vsym.Fail("H03: handler called with another request")
	return response.Response{}
}

// H03Two: two requests at once through one adaptor.
//
//verif:check H03
//verif:bound 2 goroutines, one request each with any status 200..999 and body of 0..20000 bytes, answered, ended by a panic with an error or another value, or by a source or writer that fails; every interleaving at handler calls and status headers (thorough: also at writes, with HEAD requests)
//verif:opt sched=1
//verif:reach same different failed served
func H03Two() {
	r := &route{}
	var hooks []error
	for i := range r.cs {
		c := &client{world: newWorld("H03")}
		c.what = vsym.Choose("what", 5)
		c.code = vsym.IntRange("code", 200, 999)
		c.size = vsym.Int64Range("size", 0, 20000)
		c.fail = &failure{"of this request"}
		switch c.what {
		case 3:
			c.failAt = vsym.Int64Range("failat", 0, 20000)
		case 4:
			c.accept = vsym.Int64Range("accept", 0, 20000)
		}
		method := "GET"
		if vsym.Thorough() && vsym.Choose("head", 2) == 1 {
			method = "HEAD"
		}
		r.cs[i] = c
		r.reqs[i] = &http.Request{Method: method}
	}
	vsym.Assume(r.cs[0].what <= r.cs[1].what)
	handler.OnPanic = func(err error) { vsym.Atomic(func() { hooks = append(hooks, err) }) }
	a := handler.Adaptor{Inner: r}
	serve := func(i int) func() {
		return func() {
			escaped := panics(func() { a.ServeHTTP(r.cs[i], r.reqs[i]) })
			vsym.Assert(escaped == nil, "H03: panic propagates")
		}
	}
	vsym.Par(serve(0), serve(1))

	fails := 0
	for i, c := range r.cs {
		vsym.Assert(r.calls[i] == 1, "H03: handler not called once for each request")
		vsym.Assert(c.statuses == 1, "H03: client does not get one status")
		var want error
		switch {
		case c.what == 1:
			want = c.fail
		case c.what == 2:
			want = handler.PanicError{Value: c}
		case c.failed:
			want = c.err
		}
		if c.what == 1 || c.what == 2 {
			vsym.Assert(c.status == 500 && c.total == 0, "H03: failed request not answered with 500")
		} else {
			vsym.Assert(c.status == c.code, "H03: client gets another status")
		}
		if want == nil {
			vsym.Reach("served")
			continue
		}
		vsym.Reach("failed")
		fails++
		n := 0
		for _, e := range hooks {
			if e == want {
				n++
			}
		}
		if c.what == 3 || c.what == 4 {
			vsym.Assert(n >= 1, "H03: hook not called for a failed request")
		} else {
			vsym.Assert(n == 1, "H03: hook not called once for a failed request")
		}
	}
	vsym.Assert(len(hooks) == fails, "H03: hook not called once for each failure")

	one, two := r.cs[0], r.cs[1]
	reqs := [2]float64{1, 1}
	sent := [2]float64{float64(one.total), float64(two.total)}
	if one.status == two.status {
		reqs = [2]float64{2, 2}
		both := float64(one.total) + float64(two.total)
		sent = [2]float64{both, both}
		vsym.Reach("same")
	} else {
		vsym.Reach("different")
	}
	for i, c := range r.cs {
		label := strconv.Itoa(c.status)
		vsym.Assert(at(handler.PromRequestsTotal, label) == reqs[i], "H03: requests not counted once each under their own status")
		vsym.Assert(at(handler.PromSendBytesTotal, label) == sent[i], "H03: bytes not counted once each under their own status")
	}
	vsym.Assert(sum(counters(handler.PromRequestsTotal)) == 2, "H03: requests counted under another status")
	n, total := observed(handler.PromSendBytesHist)
	vsym.Assert(n == 2 && total == float64(one.total)+float64(two.total), "H03: bytes not observed once each")
	n, _ = observed(handler.PromLatencyHist)
	vsym.Assert(n == 2, "H03: latency not observed once each")
	vsym.Assert(value(handler.PromPanicsTotal) == float64(fails), "H03: failures not counted once each")
}
