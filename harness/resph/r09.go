package resph

import (
	"io"
	"io/fs"
	"net/http"
	"strconv"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

type seekReader struct{ *reader }

func (r seekReader) Seek(off int64, whence int) (int64, error) { return r.seek(off, whence) }

type atReader struct{ seekReader }

func (r atReader) ReadAt(p []byte, off int64) (int, error) { return r.readAt(p, off) }

type lenReader struct{ *reader }

func (r lenReader) Len() int    { return int(r.end - r.pos) }
func (r lenReader) Size() int64 { return r.end }

// R09Length: what a response announces is what the client gets.
//
//verif:check R09
//verif:bound body of 0..70000 bytes from bytes, string, or a one-way, seekable or positional reader with its length given, found, told or unknown, read by any amount once before building or not; any status 200..999; GET or HEAD; the builder, the response or neither copied and the copy served first or last; written directly or through the wrapping writer, with or without ReadFrom; served a second time
//verif:reach announced silent suppressed
func R09Length() {
	data := vsym.NewData("body")
	size := vsym.Int64Range("size", 0, maxLen)
	rd := &reader{data: data, end: size, failAt: -1}
	var b body.Body
	var err error
	kind := vsym.Choose("body", 8)
	switch kind {
	case 0:
		b = body.FromBytes(data.Bytes(int(size)))
	case 1:
		b = body.FromString(data.String(int(size)))
	case 2:
		b, err = body.FromReader(rd)
	case 3:
		b, err = body.FromReaderAndLength(rd, size)
	case 4:
		b, err = body.FromReader(seekReader{rd})
	case 5:
		b, err = body.FromReader(atReader{seekReader{rd}})
	case 6:
		b, err = body.FromReaderAndLength(atReader{seekReader{rd}}, size)
	}
	if kind == 7 {
		b, err = body.FromReader(lenReader{rd})
	}
	vsym.Assert(err == nil, "R09: wrapping a reader fails")
	start := int64(0)
	if vsym.Choose("readfirst", 2) == 1 {
		p := make([]byte, vsym.IntRange("first", 0, maxLen))
		n, _ := b.Read(p)
		start = int64(n)
	}
	code := vsym.IntRange("code", 200, 999)
	builder := response.NewBuilder().WithStatus(code).WithBody(b)
	var resps []*response.Response
	switch vsym.Choose("copy", 3) {
	case 0:
		resps = []*response.Response{builder.Build()}
	case 1:
		other, err := builder.Copy()
		vsym.Assert(err == nil, "R09: copying fails")
		resps = []*response.Response{builder.Build(), other.Build()}
	case 2:
		resp := builder.Build()
		other, err := resp.Copy()
		vsym.Assert(err == nil, "R09: copying fails")
		resps = []*response.Response{other, resp}
	}
	for _, resp := range resps {
		delivered(resp, data, start, size-start, code)
	}
}

// delivered serves resp, which holds n bytes of data from start on.
func delivered(resp *response.Response, data vsym.Data, start, n int64, code int) {
	w := newRec("R09", data)
	w.pos = start
	var target http.ResponseWriter = w.as(false, vsym.Choose("from", 2) == 1)
	empty := false
	if vsym.Choose("wrapped", 2) == 1 {
		req := &http.Request{Method: "GET"}
		if vsym.Choose("head", 2) == 1 {
			req.Method = "HEAD"
			empty = true
		}
		if code == 204 || code == 304 {
			empty = true
		}
		target = response.NewWriter(target, req)
	}
	var announced []string
	w.onStatus = func() { announced = w.hdr["Content-Length"] }
	err := resp.Serve(target)
	vsym.Assert(err == nil, "R09: serving fails")
	vsym.Assert(w.status == code && w.statuses == 1, "R09: status not sent once")
	if empty {
		vsym.Assert(w.total == 0, "R09: body sent where none is allowed")
		vsym.Reach("suppressed")
	} else {
		vsym.Assert(w.total == n, "R09: body not sent completely")
	}
	if len(announced) > 0 {
		vsym.Assert(len(announced) == 1 && vsym.StringEq(announced[0], strconv.FormatInt(n, 10)), "R09: announced length is not the body's")
		vsym.Reach("announced")
	} else {
		vsym.Reach("silent")
	}

	// what was served is gone, and says so
	again := newRec("R09", data)
	err = resp.Serve(again)
	vsym.Assert(err == fs.ErrClosed, "R09: serving a served response succeeds")
	vsym.Assert(again.total == 0, "R09: serving a served response sends a body")
	vsym.Assert(resp.Body().BytesRemaining() == 0, "R09: served response has bytes left")
}

var _ io.ReaderAt = atReader{}

// R01Vast: default content lengths of any size.
//
//verif:check R01
//verif:bound a body of any known length 0..2^63-1, read by 0..70000 bytes before or not
//verif:reach built
func R01Vast() {
	data := vsym.NewData("body")
	r := &reader{data: data, end: vsym.Int64Range("size", 0, 1<<63-1), failAt: -1}
	b, err := body.FromReaderAndLength(atReader{seekReader{r}}, r.end)
	vsym.Assert(err == nil, "R01: wrapping a reader fails")
	n := 0
	if vsym.Choose("readfirst", 2) == 1 {
		n, _ = b.Read(make([]byte, vsym.IntRange("first", 0, maxLen)))
	}
	resp := response.NewBuilder().WithBody(b).Build()
	h := resp.Headers()
	vsym.Assert(len(h) == 2 && sameList(h["Content-Length"], []string{strconv.FormatInt(r.end-int64(n), 10)}), "R01: wrong headers")
	vsym.Reach("built")
}
