package bodyh

import (
	"errors"
	"io"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// wrap exposes s with the chosen optional interfaces.
func wrap(s *src, file, seek, at bool) io.Reader {
	switch {
	case file && seek && at:
		return &rFileSeekAt{s}
	case file && seek:
		return &rFileSeek{s}
	case file && at:
		return &rFileAt{s}
	case file:
		return &rFile{s}
	case seek && at:
		return &rSeekAt{s}
	case seek:
		return &rSeek{s}
	case at:
		return &rAt{s}
	}
	return &rStream{s}
}

// wrapRich is wrap for a source with Len, Size and WriteTo methods.
func wrapRich(s *src, seek, at bool) io.Reader {
	switch {
	case seek && at:
		return &rRichSeekAt{rSeekAt{s}, rich{s}}
	case seek:
		return &rRichSeek{rSeek{s}, rich{s}}
	case at:
		return &rRichAt{rAt{s}, rich{s}}
	}
	return &rRich{rClose{s}, rich{s}}
}

// B10Wrap: every combination of optional interfaces, lengths and failures.
//
//verif:check B10
//verif:bound every combination of Stat, Seek and ReadAt, with or without Len, Size and WriteTo, explicit length any 64-bit number or none, stat size 0..200000 and source of 0..200000 bytes independent of it, failing Stat, failing first or second Seek, one read of 0..200000 bytes
//verif:reach staterr seekerr known unknown random
func B10Wrap() {
	data := vsym.NewData("data")
	size := vsym.Int64Range("size", 0, maxLen)
	s := &src{prop: "B10", data: data, endAt: size, size: vsym.Int64Range("stat", 0, maxLen), both: vsym.Choose("both", 2) == 1}
	file := vsym.Choose("file", 2) == 1
	seek := vsym.Choose("seek", 2) == 1
	at := vsym.Choose("at", 2) == 1
	switch vsym.Choose("fail", 4) {
	case 1:
		s.statErr = errStat
	case 2:
		s.seekErr = errSeek
	case 3:
		s.seekErr = errSeek
		s.seekOK = 1
	}
	r := wrap(s, file, seek, at)
	if !file && vsym.Choose("rich", 2) == 1 {
		r = wrapRich(s, seek, at)
	}
	var b body.Body
	var err error
	explicit := int64(-1)
	if vsym.Choose("explicit", 2) == 1 {
		explicit = vsym.Int64("length")
		b, err = body.FromReaderAndLength(r, explicit)
	} else {
		b, err = body.FromReader(r)
	}

	want := int64(-1)
	switch {
	case explicit >= 0:
		want = explicit
	case file:
		if s.statErr != nil {
			vsym.Assert(err != nil && errors.Is(err, errStat), "B10: failure of stat not returned")
			vsym.Reach("staterr")
			return
		}
		want = s.size
	case seek:
		if s.seekErr != nil {
			vsym.Assert(err != nil && errors.Is(err, errSeek), "B10: failure of seek not returned")
			vsym.Reach("seekerr")
			return
		}
		want = size
	}
	vsym.Assert(err == nil && b != nil, "B10: wrapping fails")
	vsym.Assert(b.BytesRemaining() == want, "B10: wrong length")
	vsym.Assert(b.Unwrap() == r, "B10: backing reader not exposed")
	if want >= 0 {
		vsym.Reach("known")
		if seek || at {
			vsym.Assert(capabilities(b)&3 == 3, "B10: body over a random access source cannot seek or read at offsets")
			vsym.Reach("random")
		}
	} else {
		vsym.Reach("unknown")
	}
	again, err := body.FromReader(b)
	vsym.Assert(again == b && err == nil, "B10: wrapping a body does not return it unchanged")

	// the body starts at the first byte and ends at its length
	s.seekErr = nil
	end := size
	if want >= 0 && want < end {
		end = want
	}
	n := vsym.IntRange("n", 0, maxLen)
	p := make([]byte, n)
	got, err := b.Read(p)
	vsym.Assert(0 <= got && got <= n, "B10: more bytes reported than asked for")
	vsym.Assert(int64(got) <= end, "B10: more bytes than the declared length")
	data.Check(p[:got], 0, "B10: body does not start at the first byte")
	vsym.Assert(got > 0 || n == 0 || end == 0, "B10: no bytes")
	vsym.Assert(err == nil || err == io.EOF && int64(got) == end, "B10: end of file before the end")
}

// B10Position: an explicit length with a reader that was partly read.
//
//verif:check B10
//verif:bound seekable source of 0..200000 bytes whose cursor is anywhere, no explicit length; positional source
//verif:reach done
func B10Position() {
	data := vsym.NewData("data")
	size := vsym.Int64Range("size", 0, maxLen)
	s := &src{prop: "B10", data: data, endAt: size}
	s.pos = vsym.Int64Range("cursor", 0, maxLen)
	at := vsym.Choose("at", 2) == 1
	r := wrap(s, false, true, at)
	if vsym.Choose("rich", 2) == 1 {
		r = wrapRich(s, true, at)
	}
	b, err := body.FromReader(r)
	vsym.Assert(err == nil && b.BytesRemaining() == size, "B10: wrong length")
	p := make([]byte, vsym.IntRange("n", 1, maxLen))
	got, _ := b.Read(p)
	data.Check(p[:got], 0, "B10: body does not start at the first byte")
	vsym.Assert(got > 0 || size == 0, "B10: too few bytes")
	vsym.Reach("done")
}
