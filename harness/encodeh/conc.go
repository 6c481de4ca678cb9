package encodeh

import (
	"strings"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// rendered is what the body of v must serve.
func rendered(v slowly, pretty bool) []byte {
	raw := append([]byte{'"'}, v.v...)
	raw = append(raw, '"')
	if pretty {
		raw = append(raw, '\r')
	}
	return append(raw, '\n')
}

// B13Parallel: bodies made at the same time do not disturb each other.
//
//verif:check B13
//verif:bound 2 goroutines making a body each, in either form, from a string of 1 (thorough: 1..2) arbitrary lower-case letter with or without 300 more, which lets the other run while it is encoded; 1 made before; every interleaving at encoding, locks and pooled buffers; all read afterwards
//verif:opt sched=1
//verif:reach served
func B13Parallel() {
	var vs [3]slowly
	var all [3]made
	var pretty [3]bool
	for i := range vs {
		n := 1
		if i > 0 && vsym.Thorough() {
			n += vsym.Choose("textlen", 2)
		}
		d := vsym.NewData("text")
		for j := 0; j < n; j++ {
			vsym.Assume(d.At(int64(j)) >= 'a' && d.At(int64(j)) <= 'z')
		}
		s := d.String(n)
		if vsym.Choose("long", 2) == 1 {
			s += strings.Repeat("x", 300)
		}
		vs[i].v = s
		pretty[i] = i > 0 && vsym.Choose("pretty", 2) == 1
	}
	mk := func(i int) func() {
		return func() {
			if pretty[i] {
				all[i].b = body.FromPrettyJSON(vs[i])
			} else {
				all[i].b = body.FromJSON(vs[i])
			}
		}
	}
	mk(0)()
	vsym.Par(mk(1), mk(2))
	for i, m := range all {
		m.want = rendered(vs[i], pretty[i])
		m.check("B13: disturbed by another body made at the same time:")
	}
	vsym.Reach("served")
}
