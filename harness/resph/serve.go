package resph

import (
	"net/http"

	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// R05Serve: one response served to a writer.
//
//verif:check R05
//verif:bound body of 0..70000 bytes from memory or from a reader with or without known length, any status 200..999, header values of 0..1000 arbitrary bytes, 0..2 push targets each accepted or unsupported, writer with or without Push and ReadFrom
//verif:reach served pushed skipped
func R05Serve() {
	data := vsym.NewData("body")
	size := vsym.Int64Range("size", 0, maxLen)
	b, rd := newBody("R05", data, size)
	code := vsym.IntRange("code", 200, 999)
	val := vsym.NewData("value").String(vsym.IntRange("valuelen", 0, 1000))
	builder := response.NewBuilder().WithBody(b).WithStatus(code)
	builder.WithHeader("X-One", val, false).WithHeader("X-One", "two", true)
	builder.WithHeader("X-Set", "mine", false)
	builder.Headers()["X-Clear"] = nil
	if vsym.Choose("cleared", 2) == 1 {
		builder.Headers()["X-Clear"] = []string{}
	}
	np := vsym.Choose("targets", 3)
	targets := []string{"/a", "/b"}[:np]
	for _, t := range targets {
		builder.WithHeader("Push", t, true)
	}
	resp := builder.Build()
	before := len(resp.Headers())

	w := newRec("R05", data)
	w.hdr["X-Keep"] = []string{"kept"}
	w.hdr["X-Set"] = []string{"theirs"}
	w.hdr["X-Clear"] = []string{"theirs"}
	push := vsym.Choose("push", 2) == 1
	from := vsym.Choose("from", 2) == 1
	for i := 0; i < np; i++ {
		switch vsym.Choose("pusherr", 3) {
		case 0:
			w.pushErr = append(w.pushErr, nil)
		case 1:
			w.pushErr = append(w.pushErr, http.ErrNotSupported)
		case 2:
			w.pushErr = append(w.pushErr, &wrapped{http.ErrNotSupported})
		}
	}
	w.onStatus = func() {
		vsym.Assert(sameList(w.hdr["X-One"], []string{val, "two"}), "R05: header missing when the status is sent")
		vsym.Assert(sameList(w.hdr["X-Set"], []string{"mine"}), "R05: header not replaced when the status is sent")
		vsym.Assert(len(w.hdr["X-Clear"]) == 0, "R05: header without values not replaced when the status is sent")
		vsym.Assert(sameList(w.hdr["X-Keep"], []string{"kept"}), "R05: other headers of the writer lost")
		for k, v := range resp.Headers() {
			if k != "Push" {
				vsym.Assert(sameList(w.hdr[k], v), "R05: header missing when the status is sent")
			}
		}
		_, pushed := w.hdr["Push"]
		vsym.Assert(!pushed, "R05: push list sent as a header")
		if push {
			vsym.Assert(sameList(w.pushes, targets), "R05: push targets not pushed in order before the status")
		}
	}
	err := resp.Serve(w.as(push, from))
	vsym.Observe("total", w.total)
	vsym.Assert(err == nil, "R05: serving fails")
	vsym.Assert(w.statuses == 1 && w.status == code, "R05: status not sent exactly once")
	vsym.Assert(w.total == size, "R05: body not sent completely")
	if push {
		vsym.Assert(sameList(w.pushes, targets), "R05: push targets not pushed once each")
		vsym.Reach("pushed")
	} else {
		vsym.Assert(len(w.pushes) == 0, "R05: pushed without support")
		vsym.Reach("skipped")
	}
	vsym.Assert(rd == nil || rd.closed == 1, "R05: source not closed")
	vsym.Reach("served")

	// what happens to the writer's headers stays there
	w.hdr["X-One"][0] = "changed"
	w.hdr["X-Set"][0] = "changed"
	w.hdr.Add("X-Set", "more")
	w.hdr.Del("Content-Type")
	w.hdr["X-New"] = []string{"new"}
	h := resp.Headers()
	vsym.Assert(len(h) == before, "R05: writer's headers alter the response")
	vsym.Assert(sameList(h["X-One"], []string{val, "two"}), "R05: writer's headers alter the response")
	vsym.Assert(sameList(h["X-Set"], []string{"mine"}), "R05: writer's headers alter the response")
	vsym.Assert(len(h["Content-Type"]) == 1, "R05: writer's headers alter the response")
	vsym.Assert(np == 0 || sameList(h["Push"], targets), "R05: push list altered")
}

// R05Copies: headers changed by one writer do not show in a copy served to another.
//
//verif:check R05
//verif:bound body of 0..70000 bytes, header value of 0..1000 arbitrary bytes, any change of the writer's headers between both servings
//verif:reach served
func R05Copies() {
	data := vsym.NewData("body")
	size := vsym.Int64Range("size", 0, maxLen)
	b, _ := newBody("R05", data, size)
	val := vsym.NewData("value").String(vsym.IntRange("valuelen", 0, 1000))
	builder := response.NewBuilder().WithBody(b)
	builder.WithHeader("X-One", val, false).WithHeader("X-One", "two", true)
	resp := builder.Build()
	other, err := resp.Copy()
	vsym.Assert(err == nil, "R05: copying a response fails")

	w1 := newRec("R05", data)
	w1.onStatus = func() {
		// a writer may edit what it was given
		w1.hdr["X-One"][vsym.Choose("edit", 2)] = "edited"
		w1.hdr["X-One"] = append(w1.hdr["X-One"], "more")
	}
	vsym.Assert(resp.Serve(w1) == nil, "R05: serving fails")
	w1.hdr["X-One"][0] = "edited"
	w2 := newRec("R05", data)
	w2.onStatus = func() {
		vsym.Assert(sameList(w2.hdr["X-One"], []string{val, "two"}), "R05: one writer's headers show in another response")
	}
	vsym.Assert(other.Serve(w2) == nil, "R05: serving fails")
	vsym.Assert(w2.total == size, "R05: body not sent completely")
	vsym.Reach("served")
}

// R06Serve: everything that can fail while serving.
//
//verif:check R06
//verif:bound body of 0..70000 bytes; 2 push targets each accepted, unsupported or failing; source failing anywhere; writer accepting any number of bytes or panicking in any call; failing close; all combinations; every failure with 8 or 9 kinds of errors
//verif:reach clean push source writer panic close
func R06Serve() {
	data := vsym.NewData("body")
	size := vsym.Int64Range("size", 0, maxLen)
	plainErrors()
	rd := &reader{data: data, end: size, failAt: -1, both: vsym.Choose("both", 2) == 1, vary: true}
	if vsym.Choose("closefails", 2) == 1 {
		rd.clErr = errClose
	}
	if vsym.Choose("sourcefails", 2) == 1 {
		rd.failAt = vsym.Int64Range("failat", 0, maxLen)
	}
	builder := response.NewBuilder()
	b := &stand{reader: rd, known: true}
	builder.WithBody(b)
	builder.WithHeader("Push", "/a", true).WithHeader("Push", "/b", true)
	resp := builder.Build()

	w := newRec("R06", data)
	push := vsym.Choose("push", 2) == 1
	from := vsym.Choose("from", 2) == 1
	var want error
	if push {
		for i := 0; i < 2; i++ {
			switch vsym.Choose("pusherr", 3) {
			case 0:
				w.pushErr = append(w.pushErr, nil)
			case 1:
				w.pushErr = append(w.pushErr, &wrapped{http.ErrNotSupported})
			case 2:
				if want == nil {
					errPush = anyError(errPush, false)
					want = errPush
				}
				w.pushErr = append(w.pushErr, errPush)
			}
		}
	}
	switch vsym.Choose("writer", 6) {
	case 1:
		w.accept = vsym.Int64Range("accept", 0, maxLen)
	case 2:
		w.panicIn = "Header"
	case 3:
		w.panicIn = "WriteHeader"
	case 4:
		w.panicIn = "Write"
	case 5:
		w.panicIn = "Push"
	}
	var err error
	p := panics(func() { err = resp.Serve(w.as(push, from)) })
	vsym.Assert(rd.closed == 1, "R06: body not closed exactly once")
	if p != nil {
		wp, ok := p.(writerPanic)
		vsym.Assert(ok && wp.where == w.panicIn, "R06: panic is not the writer's")
		vsym.Reach("panic")
		return
	}
	switch {
	case want != nil:
		vsym.Assert(err == want, "R06: failure of a push not returned")
		vsym.Reach("push")
	case w.failed:
		vsym.Assert(err == errWrite, "R06: failure of the writer not returned")
		vsym.Reach("writer")
	case rd.failAt >= 0 && rd.failAt < size:
		vsym.Assert(err == errSrc, "R06: failure of the source not returned")
		vsym.Assert(w.total == rd.failAt, "R06: bytes before the failure not sent")
		vsym.Reach("source")
	case rd.clErr != nil && (rd.failAt < 0 || !atFail(rd)):
		vsym.Assert(err == errClose, "R06: failure of the close not returned")
		vsym.Reach("close")
	default:
		if rd.failAt < 0 {
			vsym.Assert(err == nil, "R06: serving fails")
			vsym.Assert(w.total == size, "R06: body not sent completely")
			vsym.Reach("clean")
		}
	}
}

// atFail reports whether the source can have failed at its very end.
func atFail(r *reader) bool { return r.failAt >= 0 && r.failAt <= r.end }

// R06Real: bodies of the library are released, too.
//
//verif:check R06
//verif:bound body of 0..70000 bytes over a reader with or without known length, failing push, writer accepting any number of bytes, failing close
//verif:reach clean push writer close
func R06Real() {
	data := vsym.NewData("body")
	size := vsym.Int64Range("size", 0, maxLen)
	plainErrors()
	b, rd := newBody("R06", data, size)
	vsym.Assume(rd != nil)
	rd.vary = true
	if vsym.Choose("closefails", 2) == 1 {
		rd.clErr = errClose
	}
	resp := response.NewBuilder().WithBody(b).WithHeader("Push", "/a", true).Build()
	w := newRec("R06", data)
	if vsym.Choose("pushfails", 2) == 1 {
		errPush = anyError(errPush, false)
		w.pushErr = []error{errPush}
	}
	if vsym.Choose("partial", 2) == 1 {
		w.accept = vsym.Int64Range("accept", 0, maxLen)
	}
	err := resp.Serve(recPush{w})
	vsym.Assert(rd.closed == 1, "R06: source not closed exactly once")
	switch {
	case len(w.pushErr) > 0:
		vsym.Assert(err == errPush, "R06: failure of a push not returned")
		vsym.Reach("push")
	case w.failed:
		vsym.Assert(err == errWrite, "R06: failure of the writer not returned")
		vsym.Reach("writer")
	case rd.clErr != nil:
		vsym.Assert(err == errClose, "R06: failure of the close not returned")
		vsym.Reach("close")
	default:
		vsym.Assert(err == nil && w.total == size, "R06: body not sent completely")
		vsym.Reach("clean")
	}
}

// R07Copies: a response and its copies served in any order.
//
//verif:check R07
//verif:bound body of 0..40000 (thorough: 0..70000) bytes from memory or from one reader of any kind; up to 2 copies, of the response or of each other, made at the start or after others have been served; served in every order, any but the last failing after any number of bytes
//verif:reach complete partial
func R07Copies() {
	data := vsym.NewData("body")
	size := vsym.Int64Range("size", 0, int64(tier(40000, maxLen)))
	b, rd := newShared("R07", data, size)
	code := vsym.IntRange("code", 200, 999)
	val := vsym.NewData("value").String(vsym.IntRange("valuelen", 0, 1000))
	resp := response.NewBuilder().WithBody(b).WithStatus(code).WithHeader("X-One", val, false).WithError(errPage).Build()
	all := []*response.Response{resp}
	before := resp.Body().BytesRemaining()
	copied := func() {
		c, err := all[vsym.Choose("of", len(all))].Copy()
		vsym.Assert(err == nil && c != nil, "R07: copying fails")
		vsym.Assert(c.Status() == code && c.Err() == errPage, "R07: copy differs")
		vsym.Assert(len(c.Headers()) == len(resp.Headers()) && sameList(c.Headers()["X-One"], []string{val}), "R07: copy has other headers")
		left := c.Body().BytesRemaining()
		vsym.Assert(left == before || left == size, "R07: copy has another body")
		all = append(all, c)
	}
	late := 1 + vsym.Choose("copies", 2)
	copied()
	if late == 2 && vsym.Choose("early", 2) == 1 {
		late = 1
		copied()
	}
	for len(all) > 0 {
		if late == 2 && len(all) == 1 {
			// copied when others have been served already
			late = 1
			copied()
		}
		i := vsym.Choose("next", len(all))
		r := all[i]
		all = append(all[:i], all[i+1:]...)
		w := newRec("R07", data)
		if len(all) > 0 && vsym.Choose("partial", 2) == 1 {
			w.accept = vsym.Int64Range("accept", 0, maxLen)
		}
		w.onStatus = func() {
			vsym.Assert(sameList(w.hdr["X-One"], []string{val}), "R07: copy sends other headers")
		}
		if rd != nil {
			vsym.Assert(rd.closed == 0, "R07: source closed before all copies were served")
		}
		err := r.Serve(w)
		vsym.Assert(w.status == code, "R07: copy sends another status")
		if w.failed {
			vsym.Assert(err == errWrite, "R07: failure of the writer not returned")
			vsym.Reach("partial")
		} else {
			vsym.Assert(err == nil && w.total == size, "R07: body not sent completely")
			vsym.Reach("complete")
		}
	}
	vsym.Assert(rd == nil || rd.closed == 1, "R07: source not closed after all copies were served")
}

// R07Failing: a response whose body cannot be copied.
//
//verif:check R07
//verif:bound a body of 0..70000 bytes that fails to copy with any of 8 kinds of errors, once or for good; then the response is served
//verif:reach failed copied
func R07Failing() {
	data := vsym.NewData("body")
	size := vsym.Int64Range("size", 0, maxLen)
	rd := &reader{data: data, end: size, failAt: -1}
	b := &stand{reader: rd, known: true, copyErr: anyError(errCopy, true)}
	why := b.copyErr
	resp := response.NewBuilder().WithBody(b).WithStatus(202).Build()
	c, err := resp.Copy()
	vsym.Assert(err == why && c == nil, "R07: failure to copy the body not returned")
	vsym.Assert(rd.closed == 0 && rd.pos == 0, "R07: failed copy uses the body")
	vsym.Reach("failed")
	if vsym.Choose("again", 2) == 1 {
		b.copyErr = nil
		c, err = resp.Copy()
		vsym.Assert(err == nil && c != nil, "R07: copying fails")
		w := newRec("R07", data)
		vsym.Assert(c.Serve(w) == nil && w.status == 202 && w.total == size, "R07: copy not served completely")
		vsym.Reach("copied")
	}
	w := newRec("R07", data)
	vsym.Assert(resp.Serve(w) == nil && w.status == 202 && w.total == size, "R07: response not served completely after a failed copy")
	vsym.Assert(rd.closed == 1, "R07: source not closed")
}
