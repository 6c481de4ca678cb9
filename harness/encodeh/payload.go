package encodeh

import (
	"bytes"
	"io"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

const maxLen = 100000

// sink compares what is written to it.
type sink struct {
	data vsym.Data
	pos  int64
}

func (s *sink) Write(p []byte) (int, error) {
	s.data.Check(p, s.pos, "B14: drains other bytes")
	s.pos += int64(len(p))
	return len(p), nil
}

// B14Bytes: bodies made from bytes and strings.
//
//verif:check B14
//verif:bound payloads of 0..100000 arbitrary bytes; any seek, positional read and partial read before draining
//verif:reach bytes string empty
func B14Bytes() {
	d := vsym.NewData("payload")
	size := vsym.IntRange("size", 0, maxLen)
	var b body.Body
	if vsym.Choose("string", 2) == 1 {
		b = body.FromString(d.String(size))
		vsym.Reach("string")
	} else {
		b = body.FromBytes(d.Bytes(size))
		vsym.Reach("bytes")
	}
	if size == 0 {
		vsym.Reach("empty")
	}
	vsym.Assert(b.BytesRemaining() == int64(size), "B14: wrong length")
	at, ok1 := b.(io.ReaderAt)
	sk, ok2 := b.(io.Seeker)
	wt, ok3 := b.(io.WriterTo)
	vsym.Assert(ok1 && ok2 && ok3, "B14: seeking, positional reads or draining not supported")

	off := vsym.Int64Range("offset", 0, maxLen+10)
	p := make([]byte, vsym.IntRange("atsize", 0, maxLen))
	n, err := at.ReadAt(p, off)
	want := int64(size) - off
	if want < 0 {
		want = 0
	}
	if want > int64(len(p)) {
		want = int64(len(p))
	}
	vsym.Assert(int64(n) == want && (n == len(p) || err == io.EOF), "B14: positional read delivers another number of bytes")
	d.Check(p[:n], off, "B14: positional read delivers other bytes")

	to := vsym.Int64Range("seek", 0, maxLen+10)
	pos, err := sk.Seek(to, io.SeekStart)
	if to > int64(size) {
		to = int64(size)
	}
	vsym.Assert(pos == to && err == nil, "B14: seek moves elsewhere")
	q := make([]byte, vsym.IntRange("readsize", 0, maxLen))
	n, err = b.Read(q)
	vsym.Assert(err == nil || err == io.EOF, "B14: read fails")
	d.Check(q[:n], pos, "B14: read delivers other bytes")
	pos += int64(n)
	vsym.Assert(b.BytesRemaining() == int64(size)-pos, "B14: wrong length")
	s := &sink{d, pos}
	m, err := wt.WriteTo(s)
	vsym.Assert(err == nil && m == int64(size)-pos && s.pos == int64(size), "B14: not drained to the end")
}

// newMessage makes a message that can be encoded, lacks required fields, or
// cannot be encoded at all.
func newMessage() (proto.Message, *message) {
	x := &message{bytes: map[string][]byte{}}
	var m proto.Message
	switch vsym.Choose("encodable", 3) {
	case 0:
		m = &descriptorpb.FileDescriptorProto{
			Package:     proto.String("p"),
			MessageType: []*descriptorpb.DescriptorProto{{Name: proto.String("M")}},
		}
	case 1:
		m = &descriptorpb.UninterpretedOption_NamePart{NamePart: proto.String("n")}
		x.partial = true
	case 2:
		m = wrapperspb.String("\xff")
		x.fails = true
	}
	vsym.SetSide(m, "message", x)
	return m, x
}

// newOptions makes options for the text form.
func newOptions() *prototext.MarshalOptions {
	switch vsym.Choose("options", 5) {
	case 1:
		return &prototext.MarshalOptions{}
	case 2:
		return &prototext.MarshalOptions{Multiline: true}
	case 3:
		return &prototext.MarshalOptions{Multiline: true, Indent: "\t"}
	case 4:
		return &prototext.MarshalOptions{AllowPartial: true, EmitUnknown: true}
	}
	return nil
}

// B14Proto: bodies made from protobuf messages.
//
//verif:check B14
//verif:bound any encoding of 0..100000 bytes or a failure, binary and text with 5 sets of options, messages that are complete, lack required fields or cannot be encoded at all; a second body made from another message before reading
//verif:reach binary text refused partial
func B14Proto() {
	m, x := newMessage()
	o := newOptions()
	var b body.Body
	var want []byte
	var werr error
	var p interface{}
	if vsym.Choose("text", 2) == 1 {
		p = panics(func() { b = body.FromProtoText(m, o) })
		if o == nil {
			o = &prototext.MarshalOptions{Multiline: true, Indent: "  "}
		}
		want, werr = o.Marshal(m)
		vsym.Reach("text")
	} else {
		p = panics(func() { b = body.FromProto(m) })
		want, werr = proto.Marshal(m)
		vsym.Reach("binary")
	}
	if x.partial {
		vsym.Reach("partial")
	}
	if werr != nil {
		err, _ := p.(error)
		vsym.Assert(err != nil && err.Error() == werr.Error(), "B14: does not panic with the encoder's error")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(p == nil, "B14: panics although the message can be encoded")
	same(b, want, "B14: serves another encoding")
	_, ok1 := b.(io.ReaderAt)
	_, ok2 := b.(io.Seeker)
	_, ok3 := b.(io.WriterTo)
	vsym.Assert(ok1 && ok2 && ok3, "B14: seeking, positional reads or draining not supported")
}

// same drains a body and compares.
func same(b body.Body, want []byte, label string) {
	vsym.Assert(b.BytesRemaining() == int64(len(want)), label)
	var buf bytes.Buffer
	n, err := buf.ReadFrom(b)
	vsym.Assert(err == nil && n == int64(len(want)), label)
	vsym.SameBytes(buf.Bytes(), want, label)
}

// R02Encoded: setters that encode a value.
//
//verif:check R02
//verif:bound the four encoding setters with one value each (a string of up to 1 ASCII byte, an array, any protobuf encoding of 0..100000 bytes) or one that cannot be encoded, builder with or without earlier body and content type
//verif:reach stored refused
func R02Encoded() {
	b := response.NewBuilder()
	old := body.FromString("old")
	before := vsym.Choose("before", 2) == 1
	if before {
		b.WithBody(old).WithHeader("content-type", "text/old", true).WithHeader("content-type", "text/older", true)
	}
	b.WithHeader("X-One", "1", true).WithStatus(404)
	var kind string
	var want []byte
	var f func()
	bad := false
	which := vsym.Choose("which", 4)
	if which < 2 {
		var v interface{} = []interface{}{"a<b", text("text", 1)}
		if vsym.Choose("encodable", 2) == 1 {
			v, bad = make(chan int), true
		} else {
			m, _ := fromJSON(v, which == 1)
			want = m.want
		}
		kind = "application/json"
		f = func() { b.WithJSON(v) }
		if which == 1 {
			f = func() { b.WithPrettyJSON(v) }
		}
	} else {
		m, _ := newMessage()
		var err error
		if which == 2 {
			want, err = proto.Marshal(m)
			kind = "application/vnd.google.protobuf"
			f = func() { b.WithProto(m) }
		} else {
			o := newOptions()
			oo := o
			if o == nil {
				oo = &prototext.MarshalOptions{Multiline: true, Indent: "  "}
			}
			want, err = oo.Marshal(m)
			kind = "text/plain; charset=utf-8"
			f = func() { b.WithProtoText(m, o) }
		}
		bad = err != nil
	}
	p := panics(f)
	vsym.Assert(b.Status() == 404 && b.Err() == nil && len(b.Headers()["X-One"]) == 1, "R02: encoding changes something else")
	ct := b.Headers()["Content-Type"]
	if bad {
		vsym.Assert(p != nil, "R02: value that cannot be encoded accepted")
		if before {
			vsym.Assert(b.Body() == old && len(ct) == 2, "R02: refused input changes the builder")
		} else {
			vsym.Assert(b.Body() == nil && len(ct) == 0, "R02: refused input changes the builder")
		}
		vsym.Reach("refused")
		return
	}
	vsym.Assert(p == nil, "R02: value refused")
	vsym.Assert(len(ct) == 1 && ct[0] == kind, "R02: wrong content type after encoding")
	same(b.Body(), want, "R02: body is not the encoding")
	vsym.Reach("stored")
}
