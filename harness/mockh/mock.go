// Package mockh checks package mockreader through its exported interface.
package mockh

import (
	"io"
	"io/fs"
	"strings"
	"time"

	"github.com/chronos-tachyon/morehttp/internal/mockreader"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

type failure struct{ msg string }

func (f *failure) Error() string { return f.msg }

var errGiven error = &failure{"scripted"}

func tier(quick, thorough int) int {
	if vsym.Thorough() {
		return thorough
	}
	return quick
}

const (
	mark = iota
	stat
	read
	readAt
	seek
	closing
)

// step is a scripted expectation, or a call.
type step struct {
	op     int
	mark   string
	data   vsym.Data // scripted or earlier contents of the buffer
	size   int
	off    int64
	whence int
	n      int
	pos    int64
	fi     fs.FileInfo
	err    error
}

// arguments chooses what a call passes.
func (s *step) arguments() {
	switch s.op {
	case mark:
		s.mark = vsym.NewData("mark").String(vsym.IntRange("marklen", 0, 10))
	case read, readAt:
		s.data = vsym.NewData("data")
		s.size = vsym.IntRange("size", 0, 1000)
		if s.op == readAt {
			s.off = vsym.Int64("offset")
		}
	case seek:
		s.off = vsym.Int64("offset")
		s.whence = vsym.Int("whence")
	}
}

// scripted makes an arbitrary expectation.
func scripted() (*step, mockreader.Expectation) {
	s := &step{op: vsym.Choose("expect", 6)}
	s.arguments()
	if vsym.Bool("fails") {
		s.err = errGiven
	}
	switch s.op {
	case mark:
		return s, mockreader.ExpectMark(s.mark)
	case stat:
		if vsym.Choose("info", 2) == 1 {
			s.fi = &mockreader.FileInfo{SizeValue: vsym.Int64("statsize")}
		}
		return s, mockreader.ExpectStat(s.fi, s.err)
	case read:
		s.n = vsym.IntRange("n", 0, s.size)
		return s, mockreader.ExpectRead(s.data.Bytes(s.size), s.n, s.err)
	case readAt:
		s.n = vsym.IntRange("n", 0, s.size)
		return s, mockreader.ExpectReadAt(s.data.Bytes(s.size), s.off, s.n, s.err)
	case seek:
		s.pos = vsym.Int64("position")
		return s, mockreader.ExpectSeek(s.off, s.whence, s.pos, s.err)
	}
	return s, mockreader.ExpectClose(s.err)
}

func (s *step) matches(c *step) bool {
	if s.op != c.op {
		return false
	}
	switch s.op {
	case mark:
		return vsym.StringEq(s.mark, c.mark)
	case read:
		return s.size == c.size
	case readAt:
		return s.size == c.size && s.off == c.off
	case seek:
		return s.off == c.off && s.whence == c.whence
	}
	return true
}

// target is where calls go: the reader or a wrapper with everything.
type target interface {
	Read([]byte) (int, error)
	ReadAt([]byte, int64) (int, error)
	Seek(int64, int) (int64, error)
	Stat() (fs.FileInfo, error)
	Close() error
}

// call makes the call c, which the script answers with s if that is not nil.
func call(m *mockreader.MockReader, t target, c, s *step, index int) bool {
	var p []byte
	var n int
	var pos int64
	var fi fs.FileInfo
	var err error
	if c.op == read || c.op == readAt {
		p = c.data.Bytes(c.size)
	}
	v := panics(func() {
		switch c.op {
		case mark:
			m.Mark(c.mark)
		case stat:
			fi, err = t.Stat()
		case read:
			n, err = t.Read(p)
		case readAt:
			n, err = t.ReadAt(p, c.off)
		case seek:
			pos, err = t.Seek(c.off, c.whence)
		case closing:
			err = t.Close()
		}
	})
	if s == nil || !s.matches(c) {
		e, ok := v.(mockreader.ExpectationFailedError)
		vsym.Assert(ok, "M01: call that does not match accepted")
		vsym.Assert(e.Index == uint(index), "M01: error names another position")
		vsym.Assert(sameCall(c, e.Actual), "M01: error names another call")
		vsym.Assert(s == nil || sameCall(s, e.Expect), "M01: error names another expectation")
		c.data.Check(p, 0, "M01: refused call changes the buffer")
		return false
	}
	vsym.Assert(v == nil, "M01: matching call refused")
	switch c.op {
	case mark:
		return true
	case stat:
		vsym.Assert(fi == s.fi, "M01: other file info")
	case read, readAt:
		vsym.Assert(n == s.n, "M01: other byte count")
		s.data.Check(p[:s.n], 0, "M01: other bytes copied")
		c.data.Check(p[s.n:], int64(s.n), "M01: rest of the buffer changed")
	case seek:
		vsym.Assert(pos == s.pos, "M01: other position")
	}
	vsym.Assert(err == s.err, "M01: other error")
	return true
}

// sameCall reports whether e is an expectation of the call s.
func sameCall(s *step, e mockreader.Expectation) bool {
	switch s.op {
	case mark:
		return e.Matches(mockreader.ExpectMark(s.mark))
	case stat:
		return e.Matches(mockreader.ExpectStat(nil, nil))
	case read:
		return e.Matches(mockreader.ExpectRead(make([]byte, s.size), 0, nil))
	case readAt:
		return e.Matches(mockreader.ExpectReadAt(make([]byte, s.size), s.off, 0, nil))
	case seek:
		return e.Matches(mockreader.ExpectSeek(s.off, s.whence, 0, nil))
	}
	return e.Matches(mockreader.ExpectClose(nil))
}

// M01Impossible: a script cannot ask for a count that no reader may return.
//
//verif:check M01
//verif:bound expectation of a read or a positional read into 0..1000 bytes with any offset and any count
//verif:reach refused accepted
func M01Impossible() {
	size := vsym.IntRange("size", 0, 1000)
	n := vsym.Int("n")
	off := vsym.Int64("offset")
	p := make([]byte, size)
	var e mockreader.Expectation
	at := vsym.Choose("at", 2) == 1
	v := panics(func() {
		if at {
			e = mockreader.ExpectReadAt(p, off, n, errGiven)
		} else {
			e = mockreader.ExpectRead(p, n, errGiven)
		}
	})
	if n < 0 || n > size {
		vsym.Assert(v != nil, "M01: impossible count scripted")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(v == nil, "M01: possible count refused")
	m := mockreader.New(e)
	var k int
	var err error
	if at {
		k, err = m.ReadAt(p, off)
	} else {
		k, err = m.Read(p)
	}
	vsym.Assert(k == n && err == errGiven, "M01: other byte count")
	vsym.Reach("accepted")
}

// M01Script: any script, any calls.
//
//verif:check M01
//verif:bound scripts of 0..2 (thorough: 3) expectations of all 6 kinds with any offset, whence, position and count, buffers of 0..1000 arbitrary bytes and marks of 0..10; any calls up to the first that is refused, directly or through the widest wrapper
//verif:reach matched mismatch surplus
func M01Script() {
	var script []*step
	var list []mockreader.Expectation
	k := vsym.Choose("length", tier(3, 4))
	for i := 0; i < k; i++ {
		s, e := scripted()
		script = append(script, s)
		list = append(list, e)
	}
	m := mockreader.New(list...)
	var t target = m
	if vsym.Choose("wrapped", 2) == 1 {
		t = mockreader.Wrapper111{Inner: m}
	}
	for i := 0; ; i++ {
		c := &step{op: vsym.Choose("call", 6)}
		c.arguments()
		var s *step
		if i < k {
			s = script[i]
		}
		if !call(m, t, c, s, i) {
			if s == nil {
				vsym.Reach("surplus")
			} else {
				vsym.Reach("mismatch")
			}
			return
		}
		vsym.Reach("matched")
	}
}

// M01Wrappers: interfaces of the wrappers, and one script behind all.
//
//verif:check M01
//verif:bound one call of each kind through each of the 8 wrappers or directly, and a surplus one through any other
//verif:reach wrapped
func M01Wrappers() {
	d := vsym.NewData("data")
	size := vsym.IntRange("size", 0, 1000)
	off := vsym.Int64("offset")
	mode := []fs.FileMode{0, 0644, fs.ModeDir | 0755, fs.ModeSymlink}[vsym.Choose("mode", 4)]
	when := time.Unix(1, 0)
	fi := &mockreader.FileInfo{NameValue: "name", SizeValue: vsym.Int64("statsize"), ModeValue: mode, ModTimeValue: when}
	m := mockreader.New(
		mockreader.ExpectRead(d.Bytes(size), size, errGiven),
		mockreader.ExpectReadAt(d.Bytes(size), off, size, errGiven),
		mockreader.ExpectStat(fi, errGiven),
		mockreader.ExpectSeek(off, 1, 77, errGiven),
		mockreader.ExpectClose(errGiven),
	)
	all := []io.ReadCloser{
		mockreader.Wrapper000{Inner: m}, mockreader.Wrapper001{Inner: m},
		mockreader.Wrapper010{Inner: m}, mockreader.Wrapper011{Inner: m},
		mockreader.Wrapper100{Inner: m}, mockreader.Wrapper101{Inner: m},
		mockreader.Wrapper110{Inner: m}, mockreader.Wrapper111{Inner: m}, m,
	}
	for i, w := range all[:8] {
		_, ok := w.(io.ReaderAt)
		vsym.Assert(ok == (i&1 != 0), "M01: wrapper has other interfaces than promised")
		_, ok = w.(io.Seeker)
		vsym.Assert(ok == (i&2 != 0), "M01: wrapper has other interfaces than promised")
		_, ok = w.(interface{ Stat() (fs.FileInfo, error) })
		vsym.Assert(ok == (i&4 != 0), "M01: wrapper has other interfaces than promised")
		_, ok = w.(io.WriterTo)
		vsym.Assert(!ok, "M01: wrapper has other interfaces than promised")
	}
	one := all[vsym.Choose("one", 9)]
	p := make([]byte, size)
	n, err := one.Read(p)
	vsym.Assert(n == size && err == errGiven, "M01: wrapper answers otherwise")
	d.Check(p, 0, "M01: wrapper copies other bytes")

	if x, ok := one.(io.ReaderAt); ok {
		p = make([]byte, size)
		n, err = x.ReadAt(p, off)
		vsym.Assert(n == size && err == errGiven, "M01: wrapper answers otherwise")
		d.Check(p, 0, "M01: wrapper copies other bytes")
	} else {
		m.ReadAt(make([]byte, size), off)
	}
	if x, ok := one.(fs.File); ok {
		f, err := x.Stat()
		vsym.Assert(f == fs.FileInfo(fi) && err == errGiven, "M01: wrapper answers otherwise")
		vsym.Assert(f.Size() == fi.SizeValue && f.Name() == "name", "M01: other file info")
		vsym.Assert(f.Mode() == mode && f.IsDir() == (mode&fs.ModeDir != 0) && f.ModTime() == when && f.Sys() == nil, "M01: other file info")
	} else {
		m.Stat()
	}
	if x, ok := one.(io.Seeker); ok {
		pos, err := x.Seek(off, 1)
		vsym.Assert(pos == 77 && err == errGiven, "M01: wrapper answers otherwise")
	} else {
		m.Seek(off, 1)
	}
	err = one.Close()
	vsym.Assert(err == errGiven, "M01: wrapper answers otherwise")
	e, ok := panics(func() { all[vsym.Choose("surplus", 9)].Close() }).(mockreader.ExpectationFailedError)
	vsym.Assert(ok && e.Index == 5, "M01: surplus call accepted")
	vsym.Assert(strings.Contains(e.Error(), "#5"), "M01: error names another position")
	vsym.Reach("wrapped")
}

// M01Parallel: concurrent calls are answered by one expectation each.
//
//verif:check M01
//verif:bound 2 goroutines, 1 read each, all interleavings; buffers of 0..1000 arbitrary bytes
//verif:opt sched=1
//verif:reach both
func M01Parallel() {
	size := vsym.IntRange("size", 0, 1000)
	d := [2]vsym.Data{vsym.NewData("one"), vsym.NewData("two")}
	n := [2]int{vsym.IntRange("n1", 0, size), vsym.IntRange("n2", 0, size)}
	vsym.Assume(n[0] != n[1])
	m := mockreader.New(
		mockreader.ExpectRead(d[0].Bytes(size), n[0], nil),
		mockreader.ExpectRead(d[1].Bytes(size), n[1], errGiven),
	)
	var got [2]int
	var errs [2]error
	p := [2][]byte{make([]byte, size), make([]byte, size)}
	vsym.Par(
		func() { got[0], errs[0] = m.Read(p[0]) },
		func() { got[1], errs[1] = m.Read(p[1]) },
	)
	first := 0
	if errs[0] != nil {
		first = 1
	}
	second := 1 - first
	vsym.Assert(errs[first] == nil && got[first] == n[0], "M01: concurrent calls not answered in turn")
	vsym.Assert(errs[second] == errGiven && got[second] == n[1], "M01: concurrent calls not answered in turn")
	d[0].Check(p[first][:n[0]], 0, "M01: concurrent calls mixed up")
	d[1].Check(p[second][:n[1]], 0, "M01: concurrent calls mixed up")
	vsym.Reach("both")
}

func panics(f func()) (v interface{}) {
	defer func() { v = recover() }()
	f()
	return nil
}
