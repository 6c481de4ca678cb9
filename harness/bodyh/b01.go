package bodyh

import (
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

func tier(quick, thorough int) int {
	if vsym.Thorough() {
		return thorough
	}
	return quick
}

func reads(w *world, x *bod, k int) {
	for i := 0; i < k; i++ {
		w.read(x, vsym.IntRange("n", 0, maxLen))
	}
}

// B01Bytes: reads of arbitrary sizes from a byte body.
//
//verif:check B01
//verif:bound length 0..200000, 4 reads (thorough 8) of 0..200000 bytes, every content
//verif:reach eof
func B01Bytes() {
	w := newWorld("B01", kBytes, options{})
	reads(w, w.bods[0], tier(4, 8))
}

// B01String: reads of arbitrary sizes from a string body.
//
//verif:check B01
//verif:bound length 0..200000, 4 reads (thorough 8) of 0..200000 bytes, every content
//verif:reach eof
func B01String() {
	w := newWorld("B01", kString, options{})
	reads(w, w.bods[0], tier(4, 8))
}

// B01Stream: reads from a streaming body of unknown length.
//
//verif:check B01
//verif:bound source of 0..200000 bytes with 1 short, empty or failing read anywhere (thorough 2), 3 reads of 0..200000 bytes
//verif:reach eof failure
func B01Stream() {
	w := newWorld("B01", kStream, options{quirks: tier(1, 2), mayErr: true})
	reads(w, w.bods[0], 3)
}

// B01Declared: reads from a streaming body of declared length.
//
//verif:check B01
//verif:bound source of 0..200000 bytes, declared length 0..2^63-1 independent of it, 1 short, empty or failing read anywhere (thorough 2), 2 reads (thorough 3) of 0..200000 bytes
//verif:reach eof failure
func B01Declared() {
	w := newWorld("B01", kDeclared, options{quirks: tier(1, 2), mayErr: true})
	reads(w, w.bods[0], tier(2, 3))
}

// B01Shared: two bodies over one stream, read in any order.
//
//verif:check B01
//verif:bound source of 0..200000 bytes, 1 short or empty read, 4 reads (thorough 5) of 0..200000 bytes by either of two bodies
//verif:reach eof
func B01Shared() {
	w := newWorld("B01", kStream, options{quirks: tier(0, 1)})
	y := w.copyOf(w.bods[0])
	for i := 0; i < tier(4, 5); i++ {
		x := w.bods[0]
		if vsym.Choose("who", 2) == 1 {
			x = y
		}
		w.read(x, vsym.IntRange("n", 0, maxLen))
	}
}

// B01Seek: reads from a body over a seekable source that may read short.
//
//verif:check B01
//verif:bound source of 0..2^63-1 bytes, declared length 0..2^63-1, 2 short, empty or failing reads, 3 reads (thorough 4) of 0..200000 bytes
//verif:reach eof failure
func B01Seek() {
	w := newWorld("B01", kSeek, options{quirks: 2, mayErr: true})
	reads(w, w.bods[0], tier(3, 4))
}

// B01At: reads from a body over a positional source.
//
//verif:check B01
//verif:bound source of 0..2^63-1 bytes, declared length 0..2^63-1, 2 failing reads, 3 reads (thorough 4) of 0..200000 bytes
//verif:reach eof failure
func B01At() {
	w := newWorld("B01", kAt, options{quirks: 2, mayErr: true})
	reads(w, w.bods[0], tier(3, 4))
}

// history runs k operations chosen by the solver on up to nb bodies.
//
// ops: r read, n remaining, c copy, x close, s seek, a readAt
func history(w *world, ops string, k, nb int) {
	for i := 0; i < k; i++ {
		x := w.bods[0]
		if len(w.bods) > 1 {
			x = w.bods[vsym.Choose("who", len(w.bods))]
		}
		// what closed bodies do is the subject of B06
		vsym.Assume(!x.closed || w.prop == "B06")
		switch ops[vsym.Choose("op", len(ops))] {
		case 'r':
			w.read(x, vsym.IntRange("n", 0, maxLen))
		case 'n':
			w.remaining(x)
		case 'c':
			vsym.Assume(len(w.bods) < nb)
			w.copyOf(x)
		case 'x':
			w.close(x)
		case 's':
			w.seek(x)
		case 'a':
			w.readAt(x)
		}
	}
}
