package bodyh

import (
	"io"

	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

const deepLen = 60000 // one block of a stream

// script runs the given operations, each on an open body of the solver's
// choice.
func script(w *world, ops string, each func(*bod)) {
	for _, op := range ops {
		i := 0
		if len(w.bods) > 1 {
			i = vsym.Choose("who", len(w.bods))
		}
		x := w.bods[i]
		vsym.Assume(!x.closed)
		switch op {
		case 'r':
			w.read(x, vsym.IntRange("n", 1, deepLen))
		case 'c':
			w.copyOf(x)
		case 'x':
			w.close(x)
		case 's':
			w.seekTo(x, vsym.Int64Range("off", 0, deepLen), io.SeekStart)
		}
		if each != nil {
			for _, x := range w.bods {
				if !x.closed {
					each(x)
				}
			}
		}
	}
}

// B02Deep: the remaining count of every body after each of many operations on three bodies over one stream.
//
//verif:check B02
//verif:bound stream of 0..60000 bytes of unknown or exactly declared length; read, copy, read, copy, read, close, read (thorough: and one more close and read), each on any open body, reads of 1..60000 bytes
//verif:reach eof
func B02Deep() {
	w := newWorld("B02", kStream+vsym.Choose("declared", 2), options{exact: true, max: deepLen})
	script(w, []string{"rcrcrxr", "rcrcrxrxr"}[tier(0, 1)], w.remaining)
}

// B05Deep: many operations on three bodies over one stream.
//
//verif:check B05
//verif:bound stream of 0..60000 bytes of unknown length; read, copy, read, copy, read, close, read, read (thorough: and one more close and read), each on any open body, reads of 1..60000 bytes
//verif:reach eof
func B05Deep() {
	w := newWorld("B05", kStream, options{exact: true, max: deepLen})
	script(w, []string{"rcrcrxrr", "rcrcrxrxr"}[tier(0, 1)], nil)
}

// B05DeepRandom: many operations on three bodies over one randomly accessible source.
//
//verif:check B05
//verif:bound seekable or positional source of exactly the declared 0..60000 bytes; read, copy, seek, copy, read, close, read, read (thorough: and one more close and read), each on any open body, reads of 1..60000 bytes
//verif:reach eof
func B05DeepRandom() {
	w := newWorld("B05", kSeek+vsym.Choose("at", 2), options{exact: true, max: deepLen})
	script(w, []string{"rcscrxrr", "rcscrxrxr"}[tier(0, 1)], nil)
}

// B06Deep: many copies and closes.
//
//verif:check B06
//verif:bound any source of 0..60000 bytes; read, copy, copy, close, read, copy, close, copy (thorough: and one more read), each on any open body, then all are closed in order
//verif:reach lastclose
func B06Deep() {
	w := newWorld("B06", kStream+vsym.Choose("kind", 4), options{exact: true, max: deepLen})
	script(w, []string{"rccxrcxc", "rccxrcxrc"}[tier(0, 1)], nil)
	for _, x := range w.bods {
		if !x.closed {
			w.close(x)
		}
	}
	all(w, w.remaining)
}

// B06Many: very many copies.
//
//verif:check B06
//verif:bound any source of 0..60000 bytes; 1000 copies of the body or of the copy before, all closed in either order (thorough: 33000 copies of the body closed in order)
//verif:reach lastclose
func B06Many() {
	w := newWorld("B06", kStream+vsym.Choose("kind", 4), options{exact: true, max: deepLen})
	x := w.bods[0]
	chain := vsym.Choose("chain", tier(2, 1)) == 1
	for i := 0; i < tier(1000, 33000); i++ {
		c, err := x.b.Copy()
		vsym.Assert(err == nil, "B06: copying fails")
		y := &bod{b: c, pos: x.pos}
		w.bods = append(w.bods, y)
		if chain {
			x = y
		}
	}
	n := len(w.bods)
	back := vsym.Choose("back", tier(2, 1)) == 1
	for i := range w.bods {
		x := w.bods[i]
		if back {
			x = w.bods[n-1-i]
		}
		if i < n-1 {
			vsym.Assert(x.b.Close() == nil && w.s.closed == 0, "B06: source closed while a body is open")
			x.closed = true
		} else {
			w.close(x)
		}
	}
}

// B11Deep: what many operations on three bodies request of one stream.
//
//verif:check B11
//verif:bound stream of 0..60000 bytes of unknown length; read, copy, read, copy, read, close, read, read (thorough: and one more close and read), each on any open body, reads of 1..60000 bytes
//verif:reach eof
func B11Deep() {
	w := newWorld("B11", kStream, options{exact: true, max: deepLen})
	script(w, []string{"rcrcrxrr", "rcrcrxrxr"}[tier(0, 1)], nil)
}

const slowLen = 150

// sluggish makes a world over a source that delivers single bytes, each after
// one or more empty reads.
func sluggish(prop string, kind int) *world {
	w := newWorld(prop, kind, options{exact: true, max: slowLen})
	vsym.Assume(w.end == slowLen)
	w.s.slow = 1 + vsym.Choose("slow", 3)
	return w
}

// B01Sluggish: a source that is slow for a very long time.
//
//verif:check B01
//verif:bound streaming or seekable source of 150 bytes that delivers single bytes, each after 1..3 empty reads; reads of 1, 60 or 200 bytes up to the end
//verif:reach eof
func B01Sluggish() {
	w := sluggish("B01", kStream+vsym.Choose("kind", 3))
	x := w.bods[0]
	n := []int{1, 60, 200}[vsym.Choose("each", 3)]
	for i := 0; i < 700 && x.sticky == nil; i++ {
		w.read(x, n)
	}
	vsym.Assert(x.sticky == io.EOF, "B01: bytes lost")
}

// B08Sluggish: positional reads of a source that is slow for a very long time.
//
//verif:check B08
//verif:bound seekable source of 150 bytes that delivers single bytes, each after 1..3 empty reads; a positional read of 120 or 200 bytes at 0, 1 or 20
//verif:reach full short
func B08Sluggish() {
	w := sluggish("B08", kSeek)
	x := w.bods[0]
	off := []int64{0, 1, 20}[vsym.Choose("off", 3)]
	n := []int{120, 200}[vsym.Choose("n", 2)]
	w.readAtOf(x, off, n)
}
