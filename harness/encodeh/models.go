// Package encodeh checks the bodies made by encoding a value.
package encodeh

import (
	"encoding/json"
	"errors"
	"io"
	"reflect"
	"strconv"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"

	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// Replacements of the encoders, which work by reflection.  JSON is rendered
// exactly for the shapes below; protobuf encodings are arbitrary bytes that
// depend on the message and the options alone.  The replayed run uses the
// real encoders.

// refuses is a value whose own JSON encoding fails.
type refuses struct{ err error }

func (r refuses) MarshalJSON() ([]byte, error) { return nil, r.err }

// slowly is a value during whose encoding other goroutines run.
type slowly struct{ v string }

func (s slowly) MarshalJSON() ([]byte, error) {
	vsym.Yield()
	return []byte(`"` + s.v + `"`), nil
}

// pair is an object with two members.
type pair struct {
	A interface{} `json:"a"`
	B interface{} `json:"b"`
}

const hex = "0123456789abcdef"

// render appends the JSON encoding of v.
func render(b []byte, v interface{}, html, pretty bool, prefix, indent string, depth int) ([]byte, error) {
	var err error
	line := func(d int) {
		if pretty {
			b = append(b, '\n')
			b = append(b, prefix...)
			for i := 0; i < d; i++ {
				b = append(b, indent...)
			}
		}
	}
	switch x := v.(type) {
	case nil:
		return append(b, "null"...), nil
	case bool:
		if x {
			return append(b, "true"...), nil
		}
		return append(b, "false"...), nil
	case int64:
		return strconv.AppendInt(b, x, 10), nil
	case string:
		b = append(b, '"')
		start := 0 // of what is not yet appended
		for i := 0; i < len(x); i++ {
			c := x[i]
			switch {
			case c == '"' || c == '\\':
				b = append(append(b, x[start:i]...), '\\', c)
			case c == '\b':
				b = append(append(b, x[start:i]...), '\\', 'b')
			case c == '\f':
				b = append(append(b, x[start:i]...), '\\', 'f')
			case c == '\n':
				b = append(append(b, x[start:i]...), '\\', 'n')
			case c == '\r':
				b = append(append(b, x[start:i]...), '\\', 'r')
			case c == '\t':
				b = append(append(b, x[start:i]...), '\\', 't')
			case c < ' ', html && (c == '<' || c == '>' || c == '&'):
				b = append(append(b, x[start:i]...), '\\', 'u', '0', '0', hex[c>>4], hex[c&15])
			default:
				continue
			}
			start = i + 1
		}
		b = append(b, x[start:]...)
		return append(b, '"'), nil
	case []interface{}:
		b = append(b, '[')
		for i, e := range x {
			if i > 0 {
				b = append(b, ',')
			}
			line(depth + 1)
			if b, err = render(b, e, html, pretty, prefix, indent, depth+1); err != nil {
				return nil, err
			}
		}
		if len(x) > 0 {
			line(depth)
		}
		return append(b, ']'), nil
	case pair:
		b = append(b, '{')
		for i, e := range []interface{}{x.A, x.B} {
			if i > 0 {
				b = append(b, ',')
			}
			line(depth + 1)
			b = append(b, '"', "ab"[i], '"', ':')
			if pretty {
				b = append(b, ' ')
			}
			if b, err = render(b, e, html, pretty, prefix, indent, depth+1); err != nil {
				return nil, err
			}
		}
		line(depth)
		return append(b, '}'), nil
	case slowly:
		vsym.Yield()
		return render(b, x.v, html, pretty, prefix, indent, depth)
	case refuses:
		return nil, &json.MarshalerError{Err: x.err}
	case chan int:
		return nil, &json.UnsupportedTypeError{Type: reflect.Type(nil)}
	}
	panic("value not modelled")
}

type encoder struct {
	w              io.Writer
	html           bool
	prefix, indent string
	err            error
}

// model: encoding/json.NewEncoder
func newEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	vsym.SetSide(e, "encoder", &encoder{w: w, html: true})
	return e
}

// model: (*encoding/json.Encoder).SetEscapeHTML
func setEscapeHTML(e *json.Encoder, on bool) { vsym.Side(e, "encoder").(*encoder).html = on }

// model: (*encoding/json.Encoder).SetIndent
func setIndent(e *json.Encoder, prefix, indent string) {
	x := vsym.Side(e, "encoder").(*encoder)
	x.prefix, x.indent = prefix, indent
}

// model: (*encoding/json.Encoder).Encode
func encode(e *json.Encoder, v interface{}) error {
	x := vsym.Side(e, "encoder").(*encoder)
	if x.err != nil {
		return x.err
	}
	b, err := render(nil, v, x.html, x.prefix != "" || x.indent != "", x.prefix, x.indent, 0)
	if err != nil {
		return err
	}
	_, x.err = x.w.Write(append(b, '\n'))
	return x.err
}

// model: encoding/json.Marshal
func marshal(v interface{}) ([]byte, error) { return render(nil, v, true, false, "", "", 0) }

// model: encoding/json.MarshalIndent
func marshalIndent(v interface{}, prefix, indent string) ([]byte, error) {
	return render(nil, v, true, true, prefix, indent, 0)
}

var errEncoding = errors.New("message cannot be encoded")

// message describes a message to the models.
type message struct {
	partial bool // lacks required fields
	fails   bool // cannot be encoded at all
	bytes   map[string][]byte
}

func encoding(m proto.Message, allowPartial bool, key string) ([]byte, error) {
	x := vsym.Side(m, "message").(*message)
	if x.fails || x.partial && !allowPartial {
		return nil, errEncoding
	}
	b, ok := x.bytes[key]
	if !ok {
		b = vsym.NewData("encoding").Bytes(vsym.IntRange("encodinglen", 0, 100000))
		x.bytes[key] = b
	}
	// every call returns a slice of its own
	return append([]byte(nil), b...), nil
}

func appended(b, more []byte, err error) ([]byte, error) {
	if err != nil {
		return nil, err
	}
	return append(b, more...), nil
}

// model: google.golang.org/protobuf/proto.Marshal
func protoMarshal(m proto.Message) ([]byte, error) { return encoding(m, false, "binary") }

// model: (google.golang.org/protobuf/proto.MarshalOptions).Marshal
func protoOptionsMarshal(o proto.MarshalOptions, m proto.Message) ([]byte, error) {
	return encoding(m, o.AllowPartial, "binary")
}

// model: (google.golang.org/protobuf/proto.MarshalOptions).MarshalAppend
func protoOptionsAppend(o proto.MarshalOptions, b []byte, m proto.Message) ([]byte, error) {
	more, err := encoding(m, o.AllowPartial, "binary")
	return appended(b, more, err)
}

// model: google.golang.org/protobuf/proto.Size
func protoSize(m proto.Message) int {
	b, _ := encoding(m, true, "binary")
	return len(b)
}

// model: (google.golang.org/protobuf/encoding/prototext.MarshalOptions).Marshal
func textOptionsMarshal(o prototext.MarshalOptions, m proto.Message) ([]byte, error) {
	indent := o.Indent
	if o.Multiline && indent == "" {
		indent = "  "
	}
	key := "text " + indent
	for _, on := range []bool{o.Multiline, o.EmitUnknown} {
		if on {
			key += " on"
		} else {
			key += " off"
		}
	}
	return encoding(m, o.AllowPartial, key)
}

// model: (google.golang.org/protobuf/encoding/prototext.MarshalOptions).MarshalAppend
func textOptionsAppend(o prototext.MarshalOptions, b []byte, m proto.Message) ([]byte, error) {
	more, err := textOptionsMarshal(o, m)
	return appended(b, more, err)
}

// model: google.golang.org/protobuf/encoding/prototext.Marshal
func textMarshal(m proto.Message) ([]byte, error) {
	return textOptionsMarshal(prototext.MarshalOptions{Multiline: true}, m)
}
