package resph

import (
	"bufio"
	"io"
	"net"
	"net/http"

	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// negative is an underlying writer that may report a negative count.
type negative struct {
	hdr  http.Header
	n    int64
	err  error
	sent int64
}

func (u *negative) Header() http.Header { return u.hdr }
func (u *negative) WriteHeader(int)     {}
func (u *negative) Write(p []byte) (int, error) {
	if u.n < 0 {
		return int(u.n), u.err
	}
	u.sent += int64(len(p))
	return len(p), nil
}
func (u *negative) ReadFrom(r io.Reader) (int64, error) {
	if u.n < 0 {
		return u.n, u.err
	}
	k, err := io.Copy(io.Discard, r)
	u.sent += k
	return k, err
}
func (u *negative) Flush()                                       {}
func (u *negative) CloseNotify() <-chan bool                     { return nil }
func (u *negative) Hijack() (net.Conn, *bufio.ReadWriter, error) { return nil, nil, nil }

// B16Count: an underlying writer that reports a negative count.
//
//verif:check B16
//verif:bound 1 write and 1 read-from of 0..70000 bytes before and after one of any negative count with or without an error
//verif:reach refused
func B16Count() {
	u := &negative{hdr: http.Header{}}
	req := &http.Request{Method: "GET"}
	w := response.NewWriter(u, req)
	size := vsym.Int64Range("size", 0, maxLen)
	data := vsym.NewData("body")
	send := func() {
		if vsym.Choose("from", 2) == 1 {
			// not an io.WriterTo
			w.(io.ReaderFrom).ReadFrom(&reader{data: data, end: size, failAt: -1})
		} else {
			w.Write(data.Bytes(int(size)))
		}
	}
	send()
	u.n = vsym.Int64("count")
	vsym.Assume(u.n < 0)
	if vsym.Choose("fails", 2) == 1 {
		u.err = errWrite
	}
	vsym.Assert(panics(send) != nil, "B16: negative count accepted")
	vsym.Assert(w.BytesWritten() == u.sent, "B16: negative count counted")
	vsym.Reach("refused")
	u.n = 0
	send()
	vsym.Assert(w.BytesWritten() == u.sent && w.Status() == 200, "B16: wrong byte count")
}

// vast is an underlying writer that takes any amount without being given it.
type vast struct {
	negative
	took int64
}

func (u *vast) ReadFrom(r io.Reader) (int64, error) { return u.took, u.err }

// W02Vast: byte counts of any size.
//
//verif:check W02
//verif:bound 1 read-from that transfers any number of bytes up to 2^62, with or without an error, then 1 of up to 2^62 more, then a write of 0..70000 bytes
//verif:reach counted
func W02Vast() {
	u := &vast{negative: negative{hdr: http.Header{}}}
	w := response.NewWriter(u, &http.Request{Method: "GET"})
	rf := w.(io.ReaderFrom)
	a, b := vsym.Int64Range("first", 0, 1<<62), vsym.Int64Range("second", 0, 1<<62-maxLen)
	c := vsym.Int64Range("third", 0, maxLen)
	if vsym.Choose("fails", 2) == 1 {
		u.err = errWrite
	}
	r := &reader{data: vsym.NewData("body"), failAt: -1}
	u.took = a
	n, err := rf.ReadFrom(r)
	vsym.Assert(n == a && err == u.err && w.BytesWritten() == a, "W02: wrong byte count")
	vsym.Assert(w.SawError() == (u.err != nil), "W02: wrong error flag")
	u.err = nil
	u.took = b
	n, err = rf.ReadFrom(r)
	vsym.Assert(n == b && err == nil && w.BytesWritten() == a+b, "W02: wrong byte count")
	k, err := w.Write(r.data.Bytes(int(c)))
	vsym.Assert(int64(k) == c && err == nil && w.BytesWritten() == a+b+c, "W02: wrong byte count")
	vsym.Reach("counted")
}
