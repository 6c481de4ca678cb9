package resph

import (
	"mime"
	"net/http"
	"strconv"
	"strings"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// pages is a page generator that records its arguments.
type pages struct {
	calls int
	code  int
	loc   string
	err   error
	hdr   http.Header
	body  body.Body
}

func (g *pages) GenerateRedirectPage(code int, location string) (http.Header, body.Body) {
	g.calls++
	g.code, g.loc = code, location
	return g.hdr, g.body
}

func (g *pages) GenerateErrorPage(code int, err error) (http.Header, body.Body) {
	g.calls++
	g.code, g.err = code, err
	return g.hdr, g.body
}

func cloneHdr(h http.Header) http.Header {
	out := http.Header{}
	for k, v := range h {
		out[k] = append([]string(nil), v...)
	}
	return out
}

// sameHdr compares headers by name and list.
func sameHdr(a, b http.Header) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !sameList(v, w) {
			return false
		}
	}
	return true
}

// R01Build: defaults and reset.
//
//verif:check R01
//verif:bound body of 0..70000 bytes from memory, a reader with or without known length, or a body of another kind whose length is or is not known, any part of it read before; any status 200..999 or none; content type and content length each absent, present with 0..1000 arbitrary bytes or present without values; error and generator set or not
//verif:reach defaults kept unknown
func R01Build() {
	data := vsym.NewData("body")
	size := vsym.Int64Range("size", 0, maxLen)
	var b body.Body
	if vsym.Choose("other", 2) == 1 {
		b = &stand{reader: &reader{data: data, end: size, failAt: -1}, known: vsym.Choose("known", 2) == 1}
	} else {
		b, _ = newBody("R01", data, size)
	}
	pos := int64(0)
	if vsym.Choose("readbefore", 2) == 1 {
		n, _ := b.Read(make([]byte, vsym.IntRange("readsize", 0, maxLen)))
		pos = int64(n)
	}
	builder := response.NewBuilder().WithBody(b)
	code := 200
	if vsym.Choose("status", 2) == 1 {
		code = vsym.IntRange("code", 200, 999)
		builder.WithStatus(code)
	}
	var perr error
	if vsym.Choose("err", 2) == 1 {
		perr = errPage
		builder.WithError(errPage)
	}
	gen := builder.PageGenerator()
	if vsym.Choose("gen", 2) == 1 {
		gen = &pages{}
		builder.WithPageGenerator(gen)
	}
	val := vsym.NewData("value").String(vsym.IntRange("valuelen", 0, 1000))
	want := http.Header{}
	remaining := b.BytesRemaining()
	set := func(name string, how int) {
		switch how {
		case 1:
			builder.WithHeader(name, val, false)
			want[name] = []string{val}
		case 2:
			builder.Headers()[name] = nil
			want[name] = nil
		}
	}
	if vsym.Choose("extra", 2) == 1 {
		builder.WithHeader("X-One", val, true)
		builder.WithHeader("X-One", "two", true)
		want["X-One"] = []string{val, "two"}
	}
	set("Content-Type", vsym.Choose("type", 3))
	set("Content-Length", vsym.Choose("length", 3))
	if _, ok := want["Content-Type"]; !ok {
		want["Content-Type"] = []string{"application/octet-stream"}
		vsym.Reach("defaults")
	} else {
		vsym.Reach("kept")
	}
	if _, ok := want["Content-Length"]; !ok {
		if remaining >= 0 {
			want["Content-Length"] = []string{strconv.FormatInt(remaining, 10)}
		} else {
			vsym.Reach("unknown")
		}
	}

	resp := builder.Build()
	vsym.Assert(resp != nil, "R01: no response")
	vsym.Assert(resp.Status() == code, "R01: wrong status")
	vsym.Assert(resp.Err() == perr, "R01: wrong error")
	vsym.Assert(sameHdr(resp.Headers(), want), "R01: wrong headers")
	vsym.Assert(resp.Body() != nil && resp.Body().BytesRemaining() == remaining, "R01: wrong body")

	// the builder is empty again
	vsym.Assert(builder.Status() == 0, "R01: status not reset")
	vsym.Assert(len(builder.Headers()) == 0, "R01: headers not reset")
	vsym.Assert(builder.Body() == nil, "R01: body not reset")
	vsym.Assert(builder.Err() == nil, "R01: error not reset")
	vsym.Assert(builder.PageGenerator() == gen, "R01: page generator not retained")
	vsym.Assert(panics(func() { builder.Build() }) != nil, "R01: builds without a body")

	// and builds an unrelated response
	builder.WithHeader("X-Two", "2", false)
	second := builder.WithBody(body.FromString("abc")).Build()
	vsym.Assert(second.Status() == 200 && second.Err() == nil, "R01: second response inherits state")
	vsym.Assert(sameHdr(second.Headers(), http.Header{
		"X-Two": {"2"}, "Content-Type": {"application/octet-stream"}, "Content-Length": {"3"},
	}), "R01: second response inherits headers")
	vsym.Assert(sameHdr(resp.Headers(), want), "R01: the next response changes the headers of the former")

	w := newRec("R01", data)
	w.pos = pos
	vsym.Assert(resp.Serve(w) == nil && w.total == size-pos, "R01: response has another body")
}

// R01NoBody: building without a body panics whatever else is set.
//
//verif:check R01
//verif:bound status, header and error set or not
//verif:reach refused
func R01NoBody() {
	builder := response.NewBuilder()
	if vsym.Choose("status", 2) == 1 {
		builder.WithStatus(vsym.IntRange("code", 200, 999))
	}
	if vsym.Choose("header", 2) == 1 {
		builder.WithHeader("Content-Length", "0", false)
	}
	if vsym.Choose("err", 2) == 1 {
		builder.WithError(errPage)
	}
	vsym.Assert(panics(func() { builder.Build() }) != nil, "R01: builds without a body")
	vsym.Reach("refused")
}

// state is what the getters of a builder report.
type state struct {
	gen  response.PageGenerator
	code int
	hdr  http.Header
	body body.Body
	err  error
}

func take(b *response.Builder) state {
	return state{b.PageGenerator(), b.Status(), cloneHdr(b.Headers()), b.Body(), b.Err()}
}

func (s state) check(b *response.Builder, label string) {
	vsym.Assert(b.PageGenerator() == s.gen, label+": page generator")
	vsym.Assert(b.Status() == s.code, label+": status")
	vsym.Assert(b.Body() == s.body, label+": body")
	vsym.Assert(b.Err() == s.err, label+": error")
	vsym.Assert(sameHdr(b.Headers(), s.hdr), label+": headers")
}

// populated makes a builder that is empty or has everything set.
func populated() *response.Builder {
	b := response.NewBuilder()
	if vsym.Choose("populated", 2) == 1 {
		b.WithStatus(404).WithError(errCopy).WithBody(body.FromString("old"))
		b.WithHeader("X-One", "1", false).WithHeader("X-One", "2", true)
		b.WithHeader("Content-Language", "old", false)
		b.WithHeader("Content-Encoding", "old", false)
		b.WithHeader("Etag", "old", false)
		b.WithHeader("Digest", "old", false)
		b.WithPageGenerator(&pages{})
	}
	return b
}

const (
	refused  = "R02: invalid input accepted"
	accepted = "R02: valid input refused"
	left     = "R02: refused input changes the builder"
	stored   = "R02: wrong state after setting"
)

// apply runs one setter, which must refuse its input exactly if it is bad,
// and returns whether it went through.
func apply(b *response.Builder, bad bool, f func() *response.Builder) bool {
	before := take(b)
	var r *response.Builder
	p := panics(func() { r = f() })
	if bad {
		vsym.Assert(p != nil, refused)
		before.check(b, left)
		vsym.Reach("refused")
		return false
	}
	vsym.Assert(p == nil, accepted)
	vsym.Assert(r == b, "R02: setter returns another builder")
	vsym.Reach("stored")
	return true
}

// R02Status: status codes.
//
//verif:check R02
//verif:bound any integer, empty or populated builder
//verif:reach stored refused
func R02Status() {
	b := populated()
	want := take(b)
	code := vsym.Int("code")
	if apply(b, code < 200 || code > 999, func() *response.Builder { return b.WithStatus(code) }) {
		want.code = code
		want.check(b, stored)
	}
}

// R02Header: adding, replacing and removing headers.
//
//verif:check R02
//verif:bound 7 spellings of header names, values of 0..1000 arbitrary bytes, 0..2 earlier values
//verif:reach stored refused
func R02Header() {
	b := populated()
	names := []string{"", "X-One", "x-one", "X-ONE", "content-type", "etag", "www-authenticate"}
	canon := []string{"", "X-One", "X-One", "X-One", "Content-Type", "Etag", "Www-Authenticate"}
	want := take(b)
	for i := 0; i < 2; i++ {
		k := vsym.Choose("name", len(names))
		name, c := names[k], canon[k]
		val := vsym.NewData("value").String(vsym.IntRange("valuelen", 0, 1000))
		switch vsym.Choose("how", 3) {
		case 0:
			if apply(b, name == "", func() *response.Builder { return b.WithHeader(name, val, true) }) {
				want.hdr[c] = append(want.hdr[c], val)
			}
		case 1:
			if apply(b, name == "", func() *response.Builder { return b.WithHeader(name, val, false) }) {
				want.hdr[c] = []string{val}
			}
		case 2:
			if apply(b, name == "", func() *response.Builder { return b.WithoutHeader(name) }) {
				delete(want.hdr, c)
			}
		}
		want.check(b, stored)
	}
}

func isSpace(c byte) bool {
	return c == ' ' || (c >= '\t' && c <= '\r')
}

// short makes a string of up to max ASCII bytes and its trimmed form.
func short(name string, max int) (s, trimmed string) {
	n := vsym.Choose(name+"len", max+1)
	d := vsym.NewData(name)
	for i := 0; i < n; i++ {
		vsym.Assume(d.At(int64(i)) < 0x80)
	}
	s = d.String(n)
	lo, hi := 0, n
	for lo < hi && isSpace(d.At(int64(lo))) {
		lo++
	}
	for lo < hi && isSpace(d.At(int64(hi-1))) {
		hi--
	}
	return s, s[lo:hi]
}

// R02Trimmed: content language and encoding are trimmed.
//
//verif:check R02
//verif:bound every ASCII string of up to 4 (thorough: 6) bytes
//verif:reach stored
func R02Trimmed() {
	b := populated()
	want := take(b)
	s, trimmed := short("text", tier(4, 6))
	if vsym.Choose("which", 2) == 0 {
		if apply(b, false, func() *response.Builder { return b.WithContentLanguage(s) }) {
			want.hdr["Content-Language"] = []string{trimmed}
		}
	} else {
		if apply(b, false, func() *response.Builder { return b.WithContentEncoding(s) }) {
			want.hdr["Content-Encoding"] = []string{trimmed}
		}
	}
	want.check(b, stored)
}

// R02ETag: entity tags.
//
//verif:check R02
//verif:bound tags of 0..1000 arbitrary bytes, strong and weak
//verif:reach stored
func R02ETag() {
	b := populated()
	want := take(b)
	tag := vsym.NewData("tag").String(vsym.IntRange("taglen", 0, 1000))
	strong := vsym.Bool("strong")
	if apply(b, false, func() *response.Builder { return b.WithETag(tag, strong) }) {
		if strong {
			want.hdr["Etag"] = []string{"\"" + tag + "\""}
		} else {
			want.hdr["Etag"] = []string{"W/\"" + tag + "\""}
		}
	}
	want.check(b, stored)
}

// R02Digest: digests are appended in base64.
//
//verif:check R02
//verif:bound algorithm names of 0..100 arbitrary bytes, sums of 0..4 (thorough: 0..32) arbitrary bytes
//verif:reach stored refused
func R02Digest() {
	b := populated()
	want := take(b)
	algo := vsym.NewData("algo").String(vsym.IntRange("algolen", 0, 100))
	n := vsym.Choose("sumlen", tier(5, 33))
	d := vsym.NewData("sum")
	sum := d.Bytes(n)
	if apply(b, len(algo) == 0 || n == 0, func() *response.Builder { return b.WithDigest(algo, sum) }) {
		vs := b.Headers()["Digest"]
		old := want.hdr["Digest"]
		vsym.Assert(len(vs) == len(old)+1, stored+": digest not appended")
		v := vs[len(vs)-1]
		k := len(algo) + 1
		vsym.Assert(len(v) == k+(n+2)/3*4, stored+": digest of another length")
		vsym.Assert(vsym.StringEq(v[:k], algo+"="), stored+": digest algorithm")
		for i := 0; i < n; i += 3 {
			var c [3]byte
			for j := 0; j < 3 && i+j < n; j++ {
				c[j] = d.At(int64(i + j))
			}
			ok := true
			q := v[k+i/3*4:]
			if q[0] != encode(c[0]>>2) || q[1] != encode(c[0]<<4&63|c[1]>>4) {
				ok = false
			}
			if i+1 < n && q[2] != encode(c[1]<<2&63|c[2]>>6) || i+1 >= n && q[2] != '=' {
				ok = false
			}
			if i+2 < n && q[3] != encode(c[2]&63) || i+2 >= n && q[3] != '=' {
				ok = false
			}
			vsym.Assert(ok, stored+": digest value")
		}
		want.hdr["Digest"] = vs
	}
	want.check(b, stored)
}

const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func encode(v byte) byte { return alphabet[v&63] }

// R02Type: content types are normalised.
//
//verif:check R02
//verif:bound 6 concrete content types (media type parsing is not explored symbolically)
//verif:reach stored refused
func R02Type() {
	b := populated()
	want := take(b)
	in := []string{"text/plain", "Text/HTML; Charset=utf-8", "application/vnd.x+json;a=b", "", "text/", "a/b; c"}
	out := []string{"text/plain", "text/html; charset=utf-8", "application/vnd.x+json; a=b", "", "", ""}
	k := vsym.Choose("type", len(in))
	if apply(b, out[k] == "", func() *response.Builder { return b.WithContentType(in[k]) }) {
		want.hdr["Content-Type"] = []string{out[k]}
	}
	want.check(b, stored)
}

// R02TypeAny: content types around some arbitrary bytes.
//
//verif:check R02
//verif:bound 5 forms of content types with 3 (thorough: 5) arbitrary ASCII bytes in the media type, the parameter's name or its value; what is well-formed is asked of the standard library
//verif:reach stored refused
func R02TypeAny() {
	b := response.NewBuilder()
	want := take(b)
	n := tier(3, 5)
	d := vsym.NewData("bytes")
	for i := 0; i < n; i++ {
		vsym.Assume(d.At(int64(i)) < 0x80)
	}
	x := d.String(n)
	var in string
	switch vsym.Choose("form", 5) {
	case 0:
		in = "text/" + x
	case 1:
		in = x + "l; a=b"
	case 2:
		in = "text/plain; " + x + "=b"
	case 3:
		in = "text/plain; a=" + x
	case 4:
		in = "text/plain; a=\"" + x + "\""
	}
	out := ""
	if m, params, err := mime.ParseMediaType(in); err == nil {
		out = mime.FormatMediaType(m, params)
	}
	if apply(b, out == "", func() *response.Builder { return b.WithContentType(in) }) {
		want.hdr["Content-Type"] = []string{out}
	}
	want.check(b, stored)
}

// R02Refs: body, error and page generator.
//
//verif:check R02
//verif:bound nil or not, empty or populated builder
//verif:reach stored refused
func R02Refs() {
	b := populated()
	want := take(b)
	switch vsym.Choose("which", 4) {
	case 0:
		var x body.Body
		if vsym.Choose("given", 2) == 1 {
			x = body.FromString("new")
		}
		if apply(b, x == nil, func() *response.Builder { return b.WithBody(x) }) {
			want.body = x
		}
	case 1:
		var x response.PageGenerator
		if vsym.Choose("given", 2) == 1 {
			x = &pages{}
		}
		if apply(b, x == nil, func() *response.Builder { return b.WithPageGenerator(x) }) {
			want.gen = x
		}
	case 2:
		var x error
		if vsym.Choose("given", 2) == 1 {
			x = errPage
		}
		if apply(b, false, func() *response.Builder { return b.WithError(x) }) {
			want.err = x
		}
		vsym.Reach("refused")
	case 3:
		h := http.Header{"X-Three": {"3"}}
		if apply(b, false, func() *response.Builder { return b.WithHeaders(h) }) {
			want.hdr = h
		}
	}
	want.check(b, stored)
}

// R02Pages: page requests with invalid arguments are refused.
//
//verif:check R02
//verif:bound any integer as status, every ASCII location of up to 2 bytes, nil or non-nil error
//verif:reach stored refused
func R02Pages() {
	b := populated()
	g := &pages{hdr: http.Header{"X-Page": {"p"}}, body: body.FromString("page")}
	b.WithPageGenerator(g)
	code := vsym.Int("code")
	ok := false
	if vsym.Choose("which", 2) == 0 {
		loc, trimmed := short("location", 2)
		ok = apply(b, code < 300 || code > 399 || trimmed == "", func() *response.Builder { return b.RedirectPage(code, loc) })
		vsym.Assert(!ok || vsym.StringEq(g.loc, trimmed), stored+": location")
	} else {
		var err error
		if vsym.Choose("given", 2) == 1 {
			err = errPage
		}
		ok = apply(b, code < 200 || code > 999 || err == nil, func() *response.Builder { return b.ErrorPage(code, err) })
		vsym.Assert(!ok || b.Err() == err && g.err == err, stored+": error")
	}
	if ok {
		vsym.Assert(g.calls == 1 && g.code == code, stored+": page")
		vsym.Assert(b.Status() == code, stored+": status")
		vsym.Assert(b.Body() == g.body && sameHdr(b.Headers(), http.Header{"X-Page": {"p"}}), stored+": page not used")
		vsym.Assert(b.PageGenerator() == response.PageGenerator(g), stored+": page generator")
	}
}

// edit changes a header map in one of several ways.
func edit(name string, h http.Header) {
	switch vsym.Choose(name, 5) {
	case 0:
		h["X-One"][0] = "edited"
	case 1:
		h.Add("X-One", "more")
		h["X-One"][1] = "edited"
	case 2:
		h.Del("X-One")
	case 3:
		h.Set("X-New", "new")
		if len(h["X-Two"]) > 0 {
			h["X-Two"][0] = "edited"
		}
		h["X-Two"] = append(h["X-Two"], "more")
	case 4:
		for k := range h {
			delete(h, k)
		}
	}
}

// R03Headers: header maps are copied deeply.
//
//verif:check R03
//verif:bound 0..3 names with 0..2 values of 0..1000 arbitrary bytes, 2 edits out of 5 kinds on the caller's or the builder's map
//verif:reach shared empty
func R03Headers() {
	b := response.NewBuilder()
	if vsym.Choose("before", 2) == 1 {
		b.WithHeader("X-Old", "old", false)
	}
	val := vsym.NewData("value").String(vsym.IntRange("valuelen", 0, 1000))
	var mine http.Header
	switch vsym.Choose("given", 5) {
	case 1:
		mine = http.Header{}
	case 2:
		mine = http.Header{"X-One": make([]string, 0, 4)}
		mine["X-One"] = append(mine["X-One"], val, "two")
		mine["lower-case"] = []string{"kept"}
		mine["X-Two"] = nil
	case 3:
		mine = http.Header{"X-One": {"1", val}}
	case 4:
		mine = http.Header{"X-One": {val}, "X-Two": {"2"}}
	}
	b.WithHeaders(mine)
	vsym.Assert(sameHdr(b.Headers(), mine), "R03: headers not copied")
	if len(mine) == 0 {
		h := b.Headers()
		h["X-One"] = []string{"1"}
		vsym.Assert(len(mine) == 0, "R03: builder writes into the caller's map")
		vsym.Assert(len(b.Headers()) == 1, "R03: getter returns a copy")
		vsym.Reach("empty")
		return
	}
	theirs := cloneHdr(mine)
	own := cloneHdr(mine)
	for i := 0; i < 2; i++ {
		if vsym.Choose("side", 2) == 0 {
			if len(mine["X-One"]) == 0 {
				mine["X-One"] = []string{"1"}
			}
			edit("edit", mine)
			own = cloneHdr(mine)
		} else {
			if len(b.Headers()["X-One"]) == 0 {
				b.WithHeader("X-One", "1", false)
			}
			edit("edit", b.Headers())
			theirs = cloneHdr(b.Headers())
		}
		vsym.Assert(sameHdr(b.Headers(), theirs), "R03: caller's changes show in the builder")
		vsym.Assert(sameHdr(mine, own), "R03: builder's changes show in the caller's map")
	}
	vsym.Reach("shared")
}

// R03Copy: a copied builder is independent of the original.
//
//verif:check R03
//verif:bound body of 0..70000 bytes of any kind, partly read before, none, or failing to copy; any status 200..999, header value of 0..1000 arbitrary bytes; one edit of the headers of either builder, one read from either body
//verif:reach copied failed nobody
func R03Copy() {
	data := vsym.NewData("body")
	size := vsym.Int64Range("size", 0, maxLen)
	builder := response.NewBuilder()
	var b body.Body
	var rd *reader
	pos := int64(0)
	kind := vsym.Choose("kind", 3)
	switch kind {
	case 0:
		b, rd = newBody("R03", data, size)
		if _, ok := b.(*stand); ok {
			rd = nil // copies have readers of their own
		}
		if vsym.Choose("readbefore", 2) == 1 {
			n, _ := b.Read(make([]byte, vsym.IntRange("readsize", 0, maxLen)))
			pos = int64(n)
		}
	case 1:
		rd = &reader{data: data, end: size, failAt: -1}
		b = &stand{reader: rd, known: true, copyErr: errCopy}
	}
	if b != nil {
		builder.WithBody(b)
	}
	code := 0
	if vsym.Choose("status", 2) == 1 {
		code = vsym.IntRange("code", 200, 999)
		builder.WithStatus(code)
	}
	val := vsym.NewData("value").String(vsym.IntRange("valuelen", 0, 1000))
	if vsym.Choose("headers", 2) == 1 {
		builder.WithHeader("X-One", val, true).WithHeader("X-One", "two", true).WithHeader("X-Two", "2", true)
	}
	builder.WithError(errPage)
	gen := &pages{}
	builder.WithPageGenerator(gen)
	want := take(builder)

	other, err := builder.Copy()
	if kind == 1 {
		vsym.Assert(err == errCopy && other == nil, "R03: failure to copy the body not returned")
		want.check(builder, "R03: failed copy changes the builder")
		vsym.Assert(rd.closed == 0, "R03: failed copy closes the body")
		vsym.Reach("failed")
		return
	}
	vsym.Assert(err == nil && other != nil && other != builder, "R03: copying fails")
	want.check(builder, "R03: copying changes the builder")
	vsym.Assert(other.Status() == code && other.Err() == errPage && other.PageGenerator() == response.PageGenerator(gen), "R03: copy differs")
	vsym.Assert(sameHdr(other.Headers(), want.hdr), "R03: copy has other headers")
	if b == nil {
		vsym.Assert(other.Body() == nil, "R03: copy has a body")
		vsym.Reach("nobody")
	} else {
		vsym.Assert(other.Body() != nil && other.Body().BytesRemaining() == b.BytesRemaining(), "R03: copy has another body")
	}

	all := []*response.Builder{builder, other}
	hdr := []http.Header{cloneHdr(want.hdr), cloneHdr(want.hdr)}
	who := vsym.Choose("who", 2)
	if _, ok := hdr[0]["X-One"]; ok {
		edit("edit", all[who].Headers())
	} else {
		all[who].WithHeader("X-One", "1", false)
	}
	all[who].WithError(errCopy).WithStatus(418).WithPageGenerator(&pages{})
	all[1-who].WithError(all[1-who].Err())
	vsym.Assert(sameHdr(all[1-who].Headers(), hdr[1-who]), "R03: headers of copies are shared")
	vsym.Assert(all[1-who].Status() == code && all[1-who].Err() == errPage && all[1-who].PageGenerator() == response.PageGenerator(gen), "R03: state of copies is shared")
	if b == nil {
		return
	}
	at := []int64{pos, pos}
	r := vsym.Choose("reader", 2)
	n, _ := all[r].Body().Read(make([]byte, vsym.IntRange("readsize2", 0, maxLen)))
	at[r] += int64(n)
	first := vsym.Choose("first", 2)
	for _, i := range []int{first, 1 - first} {
		w := newRec("R03", data)
		w.pos = at[i]
		if rd != nil {
			vsym.Assert(rd.closed == 0, "R03: source closed while a copy is open")
		}
		vsym.Assert(all[i].Build().Serve(w) == nil, "R03: serving fails")
		vsym.Assert(w.total == size-at[i], "R03: copy delivers other bytes")
	}
	vsym.Reach("copied")
}

// text reads a whole body.
func text(b body.Body) []byte {
	n := b.BytesRemaining()
	vsym.Assert(n >= 0, "R04: length of a page not known")
	p := make([]byte, vsym.Concrete(int(n))+8)
	got := 0
	for {
		k, err := b.Read(p[got:])
		got += k
		if err != nil || k == 0 {
			break
		}
	}
	vsym.Assert(got == int(n), "R04: page of another length")
	return p[:got]
}

func checkLength(h http.Header, p []byte) {
	vs := h["Content-Length"]
	vsym.Assert(len(vs) == 1 && vsym.StringEq(vs[0], strconv.Itoa(len(p))), "R04: content length is not the body's length")
}

// labelled reports whether the one content type is the given one in UTF-8.
func labelled(h http.Header, mediaType string) bool {
	vs := h["Content-Type"]
	if len(vs) != 1 {
		return false
	}
	v := strings.ToLower(vs[0])
	return hasPrefix([]byte(v), mediaType) && find([]byte(v), 0, "utf-8") >= 0
}

func find(p []byte, from int, s string) int {
	for i := from; i+len(s) <= len(p); i++ {
		if string(p[i:i+len(s)]) == s {
			return i
		}
	}
	return -1
}

func hasPrefix(p []byte, s string) bool {
	return len(p) >= len(s) && string(p[:len(s)]) == s
}

// escaped consumes the escaped form of one byte at the start of p and returns
// its length, or -1.
func escaped(p []byte, c byte) int {
	var forms []string
	switch c {
	case '&':
		forms = []string{"&amp;", "&#38;", "&#x26;"}
	case '<':
		forms = []string{"&lt;", "&#60;", "&#x3c;", "&#x3C;"}
	case '>':
		forms = []string{"&gt;", "&#62;", "&#x3e;", "&#x3E;"}
	case '"':
		forms = []string{"&#34;", "&quot;", "&#x22;"}
	case '\'':
		forms = []string{"&#39;", "&apos;", "&#x27;"}
	case 0:
		if hasPrefix(p, "\uFFFD") {
			return 3
		}
		fallthrough
	default:
		if len(p) > 0 && p[0] == c {
			return 1
		}
		return -1
	}
	for _, f := range forms {
		if hasPrefix(p, f) {
			return len(f)
		}
	}
	return -1
}

// R04Redirect: the default redirect page.
//
//verif:check R04
//verif:bound any status 300..399; every location made of a concrete prefix and up to 3 (thorough: 4) arbitrary bytes, ASCII at both ends, one prefix not ASCII itself, with and without surrounding blanks; the rest of the page is learnt from the page for another location
//verif:reach page
func R04Redirect() {
	code := vsym.IntRange("code", 300, 399)
	const marker = "/MARKER"
	model := response.NewBuilder().RedirectPage(code, marker)
	tmpl := text(model.Body())
	checkLength(model.Headers(), tmpl)
	vsym.Assert(labelled(model.Headers(), "text/html"), "R04: page is labelled as something else")

	n := 1 + vsym.Choose("len", tier(3, 4))
	d := vsym.NewData("location")
	vsym.Assume(d.At(0) < 0x80 && !isSpace(d.At(0)))
	vsym.Assume(d.At(int64(n-1)) < 0x80 && !isSpace(d.At(int64(n-1))))
	prefix := []string{"", "https://h/?q=", "/\u00e9\u20ac/"}[vsym.Choose("prefix", 3)]
	loc := prefix + d.String(n)
	given := loc
	switch vsym.Choose("blanks", 3) {
	case 1:
		given = " \t" + loc + "\r\n"
	case 2:
		given = loc + "\n"
	}
	b := response.NewBuilder()
	if vsym.Choose("before", 2) == 1 {
		b.WithStatus(200).WithError(errPage).WithBody(body.FromString("old"))
	}
	b.RedirectPage(code, given)
	vsym.Assert(b.Status() == code, "R04: redirect page has another status")
	vsym.Assert(sameList(b.Headers()["Location"], []string{loc}), "R04: location header is not the trimmed location")
	page := text(b.Body())
	checkLength(b.Headers(), page)

	// page = template with the escaped location in place of the marker
	i, slots, at := 0, 0, 0
	for {
		k := find(tmpl, at, marker)
		part := tmpl[at:]
		if k >= 0 {
			part = tmpl[at:k]
		}
		vsym.Assert(hasPrefix(page[i:], string(part)), "R04: location changes the rest of the page")
		i += len(part)
		if k < 0 {
			break
		}
		slots++
		at = k + len(marker)
		for j := 0; j < len(prefix)+n; j++ {
			m := escaped(page[i:], loc[j])
			vsym.Assert(m > 0, "R04: location not escaped in the page")
			i += m
		}
	}
	vsym.Assert(i == len(page), "R04: page goes on after its end")
	vsym.Assert(slots > 0, "R04: page does not show the location")
	resp := b.Build()
	vsym.Assert(resp.Status() == code && len(resp.Headers()["Content-Length"]) == 1, "R04: response differs from the page")
	checkLength(resp.Headers(), page)
	vsym.Reach("page")
}

// R04Error: the default error page.
//
//verif:check R04
//verif:bound any status 200..999, an error whose text is 0..1000 arbitrary bytes; through a builder, or from the generator itself, there also without an error
//verif:reach page direct
func R04Error() {
	code := vsym.IntRange("code", 200, 999)
	msg := vsym.NewData("message").String(vsym.IntRange("msglen", 0, 1000))
	err := &failure{msg}
	b := response.NewBuilder()
	switch vsym.Choose("before", 4) {
	case 1:
		b.WithStatus(200).WithBody(body.FromString("old"))
	case 2:
		h, pg := response.DefaultPageGenerator.GenerateErrorPage(code, nil)
		checkErrorPage(code, h, text(pg))
		vsym.Reach("direct")
		return
	case 3:
		h, pg := response.DefaultPageGenerator.GenerateErrorPage(code, err)
		checkErrorPage(code, h, text(pg))
		vsym.Reach("direct")
		return
	}
	b.ErrorPage(code, err)
	vsym.Assert(b.Status() == code, "R04: error page has another status")
	vsym.Assert(b.Err() == error(err), "R04: error page has another error")
	p := text(b.Body())
	checkErrorPage(code, b.Headers(), p)
	resp := b.Build()
	vsym.Assert(resp.Status() == code && resp.Err() == error(err), "R04: response differs from the page")
	checkLength(resp.Headers(), p)
	vsym.Reach("page")
}

func checkErrorPage(code int, h http.Header, p []byte) {
	checkLength(h, p)
	vsym.Assert(labelled(h, "text/plain"), "R04: page is labelled as something else")
	cc := h["Cache-Control"]
	vsym.Assert(len(cc) == 1 && (find([]byte(cc[0]), 0, "no-cache") >= 0 || find([]byte(cc[0]), 0, "no-store") >= 0), "R04: error page may be cached")
	line := strconv.Itoa(code) + " " + http.StatusText(code)
	vsym.Assert(hasPrefix(p, line), "R04: error page is not the status line")
	for _, c := range p[len(line):] {
		vsym.Assert(c == '\r' || c == '\n', "R04: error page is not the status line")
	}
}

// R04Custom: a custom generator is used with exactly the given arguments.
//
//verif:check R04
//verif:bound any valid status; location of 1..1000 arbitrary bytes between two letters; any error; generator set before or after other state, or kept from an earlier response
//verif:reach redirect error
func R04Custom() {
	g := &pages{hdr: http.Header{"X-Page": {"p"}}, body: body.FromString("page")}
	b := response.NewBuilder()
	b.WithPageGenerator(g)
	if vsym.Choose("earlier", 2) == 1 {
		b.WithBody(body.FromString("x")).Build()
	}
	if vsym.Choose("copied", 2) == 1 {
		c, err := b.Copy()
		vsym.Assert(err == nil, "R04: copying a builder fails")
		b = c
	}
	var code int
	if vsym.Choose("which", 2) == 0 {
		code = vsym.IntRange("code", 300, 399)
		loc := "a" + vsym.NewData("location").String(vsym.IntRange("loclen", 1, 1000)) + "z"
		b.RedirectPage(code, loc)
		vsym.Assert(vsym.StringEq(g.loc, loc), "R04: generator called with another location")
		vsym.Reach("redirect")
	} else {
		code = vsym.IntRange("code", 200, 999)
		b.ErrorPage(code, errPage)
		vsym.Assert(g.err == errPage, "R04: generator called with another error")
		vsym.Assert(b.Err() == errPage, "R04: error page has another error")
		vsym.Reach("error")
	}
	vsym.Assert(g.calls == 1 && g.code == code, "R04: generator not called once with the status")
	vsym.Assert(b.Status() == code, "R04: page has another status")
	vsym.Assert(b.Body() == g.body, "R04: generated body not used")
	vsym.Assert(sameHdr(b.Headers(), http.Header{"X-Page": {"p"}}), "R04: generated headers not used")
}
