package resph

import (
	"io"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// slow is a source during whose calls other goroutines run.
type slow struct {
	*reader
	busy int
}

func (s *slow) call() {
	s.busy++
	vsym.Assert(s.busy == 1, "R08: source called by two goroutines at once")
	vsym.Yield()
	s.busy--
}

func (s *slow) Read(p []byte) (int, error) {
	s.call()
	return s.reader.Read(p)
}

func (s *slow) Close() error {
	s.call()
	return s.reader.Close()
}

// slowSeek can seek.
type slowSeek struct{ *slow }

func (s slowSeek) Seek(off int64, whence int) (int64, error) {
	s.call()
	return s.seek(off, whence)
}

func (r *reader) seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += r.pos
	case io.SeekEnd:
		off += r.end
	}
	if off < 0 {
		return 0, errSrc
	}
	r.pos = off
	return off, nil
}

// slowAt can be read at any position, by many goroutines at once.
type slowAt struct{ *slow }

func (s slowAt) ReadAt(p []byte, off int64) (int, error) {
	vsym.Yield()
	return s.readAt(p, off)
}

func (r *reader) readAt(p []byte, off int64) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if off < 0 {
		return 0, errSrc
	}
	n := int64(len(p))
	if off >= r.end {
		return 0, io.EOF
	}
	if n > r.end-off {
		n = r.end - off
	}
	r.data.Fill(p[:n], off)
	if n < int64(len(p)) {
		return int(n), io.EOF
	}
	return int(n), nil
}

// newShared makes a body whose copies share one source.
func newShared(prop string, data vsym.Data, size int64) (body.Body, *reader) {
	r := &reader{data: data, end: size, failAt: -1}
	s := &slow{reader: r}
	var src io.Reader
	switch vsym.Choose("body", 5) {
	case 0:
		return body.FromBytes(data.Bytes(int(size))), nil
	case 1:
		b, err := body.FromReader(s)
		vsym.Assert(err == nil, prop+": wrapping a reader fails")
		return b, r
	case 2:
		src = s
	case 3:
		src = slowSeek{s}
	case 4:
		src = slowAt{s}
	}
	b, err := body.FromReaderAndLength(src, size)
	vsym.Assert(err == nil, prop+": wrapping a reader fails")
	return b, r
}

// client serves r to a writer of its own and edits what it was given.
func client(r *response.Response, data vsym.Data, code int, val string) (w *rec, err error) {
	w = newRec("R08", data)
	w.onStatus = func() {
		vsym.Yield()
		vsym.Assert(sameList(w.hdr["X-One"], []string{val, "two"}), "R08: one client's headers show at another")
		w.hdr["X-One"][0] = "edited"
		w.hdr["X-One"] = append(w.hdr["X-One"], "more")
		w.hdr["X-Two"] = []string{"new"}
	}
	if vsym.Choose("partial", tier(1, 2)) == 1 {
		w.accept = vsym.Int64Range("accept", 0, maxLen)
	}
	err = r.Serve(w)
	return w, err
}

// R08Clients: a response and its copy served to two clients at once.
//
//verif:check R08
//verif:bound body of 0..30000 bytes from memory or from a reader of any kind, header value of 0..1000 bytes; thorough: clients that stop after any number of bytes; 2 goroutines serving the response and its copy, or one serving it while another copies it first; every interleaving at lock operations, source calls and status headers
//verif:reach before during
//verif:opt sched=1
func R08Clients() {
	data := vsym.NewData("body")
	size := vsym.Int64Range("size", 0, 30000)
	b, rd := newShared("R08", data, size)
	code := vsym.IntRange("code", 200, 999)
	val := vsym.NewData("value").String(vsym.IntRange("valuelen", 0, 1000))
	builder := response.NewBuilder().WithBody(b).WithStatus(code)
	builder.WithHeader("X-One", val, false).WithHeader("X-One", "two", true)
	resp := builder.Build()
	one, err := resp.Copy()
	vsym.Assert(err == nil, "R08: copying fails")
	var w1, w2 *rec
	var err1, err2 error
	if vsym.Choose("when", 2) == 0 {
		vsym.Par(
			func() { w1, err1 = client(one, data, code, val) },
			func() { w2, err2 = client(resp, data, code, val) },
		)
		vsym.Reach("before")
	} else {
		vsym.Par(
			func() { w1, err1 = client(one, data, code, val) },
			func() {
				two, err := resp.Copy()
				vsym.Assert(err == nil, "R08: copying fails")
				w2, err2 = client(two, data, code, val)
			},
		)
		vsym.Assert(rd == nil || rd.closed == 0, "R08: source closed while a copy is left")
		vsym.Assert(resp.Body().Close() == nil, "R08: closing fails")
		vsym.Reach("during")
	}
	for i, w := range []*rec{w1, w2} {
		err := []error{err1, err2}[i]
		vsym.Assert(w.status == code, "R08: client gets another status")
		if w.failed {
			vsym.Assert(err == errWrite, "R08: failure of the writer not returned")
		} else {
			vsym.Assert(err == nil && w.total == size, "R08: body not sent completely")
		}
	}
	vsym.Assert(rd == nil || rd.closed == 1, "R08: source not closed once")
	h := resp.Headers()
	vsym.Assert(sameList(h["X-One"], []string{val, "two"}) && h["X-Two"] == nil, "R08: writer's headers alter the response")
}
