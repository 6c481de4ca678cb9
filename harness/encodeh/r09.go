package encodeh

import (
	"errors"
	"net/http"
	"strconv"

	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// counter is a client that counts what it gets.
type counter struct {
	hdr    http.Header
	length []string
	total  int64
	status int
}

func (c *counter) Header() http.Header { return c.hdr }
func (c *counter) WriteHeader(status int) {
	vsym.Assert(c.status == 0, "R09: status sent twice")
	c.status = status
	c.length = c.hdr["Content-Length"]
}
func (c *counter) Write(p []byte) (int, error) {
	c.total += int64(len(p))
	return len(p), nil
}

// R09Made: encoded values and generated pages announce what they are.
//
//verif:check R09
//verif:bound JSON and pretty JSON of any value of the shapes of B13Reuse, any binary or text protobuf encoding of 0..100000 bytes, redirect pages for a location of up to 1 arbitrary ASCII byte and error pages of any status; another body before it; the response and a copy served
//verif:reach json proto redirect error
func R09Made() {
	b := response.NewBuilder()
	if vsym.Choose("before", 2) == 1 {
		b.WithJSON("earlier").WithStatus(404)
	}
	code := 200
	var p interface{}
	switch vsym.Choose("made", 6) {
	case 0:
		v := plain()
		p = panics(func() { b.WithJSON(v) })
		vsym.Reach("json")
	case 1:
		v := plain()
		p = panics(func() { b.WithPrettyJSON(v) })
		vsym.Reach("json")
	case 2:
		m, _ := newMessage()
		p = panics(func() { b.WithProto(m) })
		vsym.Reach("proto")
	case 3:
		m, _ := newMessage()
		o := newOptions()
		p = panics(func() { b.WithProtoText(m, o) })
		vsym.Reach("proto")
	case 4:
		code = vsym.IntRange("code", 300, 399)
		d := vsym.NewData("location")
		vsym.Assume(d.At(0) < 0x80)
		b.RedirectPage(code, "/x"+d.String(vsym.Choose("loclen", 2))+"/")
		vsym.Reach("redirect")
	case 5:
		code = vsym.IntRange("code", 200, 999)
		b.ErrorPage(code, errors.New("broken"))
		vsym.Reach("error")
	}
	if p != nil {
		return
	}
	if code == 200 {
		b.WithStatus(code)
	}
	resp := b.Build()
	other, err := resp.Copy()
	vsym.Assert(err == nil, "R09: copying fails")
	for _, r := range []*response.Response{resp, other} {
		c := &counter{hdr: http.Header{}}
		vsym.Assert(r.Serve(c) == nil, "R09: serving fails")
		vsym.Assert(c.status == code, "R09: status not sent once")
		vsym.Assert(len(c.length) == 1 && vsym.StringEq(c.length[0], strconv.FormatInt(c.total, 10)), "R09: announced length is not the body's")
	}
}
