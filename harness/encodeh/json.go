package encodeh

import (
	"encoding/json"
	"errors"
	"io"
	"strings"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

func tier(quick, thorough int) int {
	if vsym.Thorough() {
		return thorough
	}
	return quick
}

var errRefused = errors.New("refused")

// text makes an ASCII string, long or short.
func text(name string, max int) string {
	n := vsym.Choose(name+"len", max+1)
	d := vsym.NewData(name)
	for i := 0; i < n; i++ {
		vsym.Assume(d.At(int64(i)) < 0x80)
	}
	s := d.String(n)
	if vsym.Choose(name+"long", 2) == 1 {
		return strings.Repeat("x", 300) + s
	}
	return s
}

// number makes an integer of some length.
func number() int64 {
	var k int
	if vsym.Thorough() {
		k = 1 + vsym.Choose("digits", 19)
	} else {
		k = []int{1, 2, 10, 19}[vsym.Choose("digits", 4)]
	}
	lo, hi := int64(0), int64(9)
	for i := 1; i < k; i++ {
		if lo = hi + 1; i == 18 {
			hi = 1<<63 - 1
		} else {
			hi = hi*10 + 9
		}
	}
	n := vsym.Int64Range("number", lo, hi)
	if vsym.Choose("negative", 2) == 1 {
		return -n
	}
	return n
}

// val makes a value.
func val() interface{} {
	switch vsym.Choose("shape", 9) {
	case 0:
		return text("text", tier(3, 4))
	case 1:
		return number()
	case 2:
		return []interface{}{number(), "a&b"}
	case 3:
		return make(chan int)
	case 4:
		return vsym.Bool("bool")
	case 5:
		return nil
	case 6:
		return []interface{}{}
	case 7:
		return pair{[]interface{}{text("text", 1), []interface{}{}, nil}, pair{number(), true}}
	}
	return refuses{errRefused}
}

// plain makes a value without much structure.
func plain() interface{} {
	switch vsym.Choose("shape", 4) {
	case 0:
		d := vsym.NewData("text")
		vsym.Assume(d.At(0) >= 'a' && d.At(0) <= 'z')
		s := d.String(1)
		if vsym.Choose("textlong", 2) == 1 {
			return strings.Repeat("x", 300) + s
		}
		return s
	case 1:
		return vsym.Int64Range("number", 1e18, 1<<63-1)
	case 2:
		return []interface{}{vsym.Int64Range("number", 1000, 9999), "a&b"}
	}
	return make(chan int)
}

// made is a body and what it must serve.
type made struct {
	b    body.Body
	want []byte
}

func fromJSON(v interface{}, pretty bool) (made, bool) {
	var b body.Body
	p := panics(func() {
		if pretty {
			b = body.FromPrettyJSON(v)
		} else {
			b = body.FromJSON(v)
		}
	})
	switch x := v.(type) {
	case chan int:
		err, _ := p.(error)
		var ute *json.UnsupportedTypeError
		vsym.Assert(err != nil && errors.As(err, &ute), "B13: does not panic with the encoder's error")
		vsym.Reach("refused")
		return made{}, false
	case refuses:
		err, _ := p.(error)
		var me *json.MarshalerError
		vsym.Assert(err != nil && errors.As(err, &me) && me.Err == x.err, "B13: does not panic with the encoder's error")
		vsym.Reach("refused")
		return made{}, false
	}
	vsym.Assert(p == nil, "B13: panics although the value can be encoded")
	raw, err := render(nil, v, false, pretty, "", "  ", 0)
	vsym.Assert(err == nil, "B13: harness: value not rendered")
	raw = append(raw, '\n')
	if !pretty {
		return made{b, raw}, true
	}
	var want []byte
	for _, c := range raw {
		if c == '\n' {
			want = append(want, '\r')
		}
		want = append(want, c)
	}
	vsym.Reach("pretty")
	return made{b, want}, true
}

func (m made) check(label string) {
	n := m.b.BytesRemaining()
	vsym.Assert(n == int64(len(m.want)), label+" length")
	p := make([]byte, len(m.want)+10)
	got := 0
	for {
		k, err := m.b.Read(p[got:])
		got += k
		if err != nil {
			vsym.Assert(err == io.EOF, label+" fails")
			break
		}
		if k == 0 {
			break
		}
	}
	vsym.Assert(got == len(m.want), label+" length")
	vsym.SameBytes(p[:got], m.want, label+" bytes")
}

// B13JSON: any value in both forms.
//
//verif:check B13
//verif:bound strings of up to 3 (thorough: 4) arbitrary ASCII bytes with or without 300 more, integers of 1, 2, 10 or 19 (thorough: any number of) digits but the least, booleans, null, arrays and objects nested up to 3 deep, values that cannot be encoded
//verif:reach served pretty refused
func B13JSON() {
	m, ok := fromJSON(val(), vsym.Choose("pretty", 2) == 1)
	if ok {
		m.check("B13: serves another encoding:")
		vsym.Reach("served")
	}
}

// B13Reuse: bodies made later do not change earlier ones.
//
//verif:check B13
//verif:bound 3 (thorough: 4) values, each a string of 1 arbitrary lower-case letter with or without 300 more, a number of 19 digits, an array with a number of 4 digits or a value that cannot be encoded, in either form; a copy of the first; all read after all were made
//verif:reach served pretty refused
func B13Reuse() {
	var all []made
	for i := 0; i < tier(3, 4); i++ {
		m, ok := fromJSON(plain(), vsym.Choose("pretty", 2) == 1)
		if ok {
			all = append(all, m)
			if i == 0 {
				c, err := m.b.Copy()
				vsym.Assert(err == nil, "B13: copying fails")
				all = append(all, made{c, m.want})
			}
		}
	}
	for _, m := range all {
		m.check("B13: changed after it was made:")
		vsym.Reach("served")
	}
}

func panics(f func()) (v interface{}) {
	defer func() { v = recover() }()
	f()
	return nil
}

// B13Large: large values.
//
//verif:check B13
//verif:bound 2 strings of 1 arbitrary lower-case letter after 1, 5000 or 9000 (thorough: also 40000) others, in the plain form; both read after both were made
//verif:reach served
func B13Large() {
	var all []made
	for i := 0; i < 2; i++ {
		d := vsym.NewData("text")
		vsym.Assume(d.At(0) >= 'a' && d.At(0) <= 'z')
		n := []int{1, 5000, 9000, 40000}[vsym.Choose("others", tier(3, 4))]
		m, _ := fromJSON(strings.Repeat("x", n)+d.String(1), false)
		all = append(all, m)
	}
	for _, m := range all {
		m.check("B13: changed after it was made:")
		vsym.Reach("served")
	}
}
