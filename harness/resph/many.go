package resph

import (
	"net/http"
	"strconv"
	"strings"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// crowd makes a map of many headers, some with many values and some with
// names that a map may hold although no builder makes them.
func crowd(val string) http.Header {
	h := http.Header{}
	n := []int{1, 15, 16, 17, 64}[vsym.Choose("names", 5)]
	for i := 0; i < n; i++ {
		k := "X-Name-" + strconv.Itoa(i)
		for j := 0; j <= i%3; j++ {
			h[k] = append(h[k], "v"+strconv.Itoa(j)+"of"+strconv.Itoa(i))
		}
	}
	m := []int{1, 8, 33}[vsym.Choose("values", 3)]
	for j := 0; j < m; j++ {
		h["Set-Cookie"] = append(h["Set-Cookie"], "c"+strconv.Itoa(j))
	}
	h["x-raw"] = []string{val}
	h["Trailer:X-Sum"] = []string{val, "late"}
	h["Transfer-Encoding"] = []string{"identity"}
	h["X-Blank"] = []string{""}
	h["X-None"] = []string{}
	return h
}

// spoil changes every value of h and adds others.
func spoil(h http.Header) {
	for k := range h {
		for j := range h[k] {
			h[k][j] = "spoilt"
		}
		h[k] = append(h[k], "more")
	}
	h["X-New"] = []string{"new"}
}

// R03Many: builders with many headers.
//
//verif:check R03
//verif:bound 1 to 64 names with 1..3 values, one with 1, 8 or 33, unusual names among them and a value of 0..1000 arbitrary bytes; every value changed in the given map, the builder, its copy or the map of the writer that the response is served to
//verif:reach given copied served
func R03Many() {
	data := vsym.NewData("body")
	val := vsym.NewData("value").String(vsym.IntRange("valuelen", 0, 1000))
	mine := crowd(val)
	want := cloneHdr(mine)
	b := response.NewBuilder().WithHeaders(mine).WithBody(body.FromString(data.String(1)))
	vsym.Assert(sameHdr(b.Headers(), want), "R03: headers not copied")
	switch vsym.Choose("which", 3) {
	case 0:
		spoil(mine)
		vsym.Assert(sameHdr(b.Headers(), want), "R03: caller's changes show in the builder")
		vsym.Reach("given")
	case 1:
		c, err := b.Copy()
		vsym.Assert(err == nil && sameHdr(c.Headers(), want), "R03: copy differs")
		spoil(c.Headers())
		vsym.Assert(sameHdr(b.Headers(), want), "R03: changes of a copy show in the original")
		c2, err := b.Copy()
		spoil(b.Headers())
		vsym.Assert(err == nil && sameHdr(c2.Headers(), want), "R03: changes of the original show in a copy")
		vsym.Reach("copied")
	case 2:
		resp := b.Build()
		c, err := resp.Copy()
		vsym.Assert(err == nil, "R03: copying fails")
		full := cloneHdr(resp.Headers())
		w := newRec("R03", data)
		w.onStatus = func() { spoil(w.hdr) }
		vsym.Assert(resp.Serve(w) == nil, "R03: serving fails")
		spoil(w.hdr)
		vsym.Assert(sameHdr(c.Headers(), full), "R03: changes of the writer's headers show in the copy")
		vsym.Assert(sameHdr(resp.Headers(), full), "R03: changes of the writer's headers show in the response")
		vsym.Assert(sameHdr(mine, want), "R03: changes show in the caller's map")
		vsym.Reach("served")
	}
}

// R05Many: a response with many headers.
//
//verif:check R05
//verif:bound 1 to 64 names with 1..3 values, one with 1, 8 or 33, unusual names among them and a value of 0..1000 arbitrary bytes; response or its copy, writer without headers or with other values for all of them
//verif:reach served
func R05Many() {
	data := vsym.NewData("body")
	val := vsym.NewData("value").String(vsym.IntRange("valuelen", 0, 1000))
	b := response.NewBuilder().WithHeaders(crowd(val)).WithBody(body.FromString(data.String(1)))
	resp := b.Build()
	want := cloneHdr(resp.Headers())
	if vsym.Choose("copy", 2) == 1 {
		var err error
		resp, err = resp.Copy()
		vsym.Assert(err == nil, "R05: copying a response fails")
	}
	w := newRec("R05", data)
	if vsym.Choose("before", 2) == 1 {
		for k, v := range want {
			w.hdr[k] = append([]string{"old"}, v...)
		}
	}
	w.onStatus = func() {
		vsym.Assert(len(w.hdr) == len(want), "R05: header missing when the status is sent")
		for k, v := range want {
			vsym.Assert(sameList(w.hdr[k], v), "R05: header missing when the status is sent")
		}
	}
	vsym.Assert(resp.Serve(w) == nil && w.statuses == 1 && w.total == 1, "R05: serving fails")
	vsym.Reach("served")
}

// R05Name: a header of any name.
//
//verif:check R05
//verif:bound a header name of 1..40 arbitrary bytes other than the push list's, a value of 0..1000 arbitrary bytes
//verif:reach served
func R05Name() {
	n := 1 + vsym.Choose("namelen", 40)
	name := vsym.NewData("name").String(n)
	vsym.Assume(name != "Push")
	data := vsym.NewData("body")
	val := vsym.NewData("value").String(vsym.IntRange("valuelen", 0, 1000))
	b := response.NewBuilder().WithBody(body.FromString(data.String(1)))
	b.Headers()[name] = []string{val, "two"}
	resp := b.Build()
	c, err := resp.Copy()
	vsym.Assert(err == nil, "R05: copying a response fails")
	for _, r := range []*response.Response{resp, c} {
		w := newRec("R05", data)
		w.onStatus = func() {
			vsym.Assert(sameList(w.hdr[name], []string{val, "two"}), "R05: header missing when the status is sent")
		}
		vsym.Assert(r.Serve(w) == nil && w.statuses == 1 && w.total == 1, "R05: serving fails")
	}
	vsym.Reach("served")
}

// anyHeader makes a header of any name with some values.
func anyHeader() (string, []string) {
	n := 1 + vsym.Choose("namelen", 40)
	name := vsym.NewData("name").String(n)
	val := vsym.NewData("value").String(vsym.IntRange("valuelen", 0, 1000))
	switch vsym.Choose("values", 3) {
	case 0:
		return name, []string{val}
	case 1:
		return name, []string{val, "two"}
	}
	return name, []string{}
}

// R01Name: a header of any name is left alone.
//
//verif:check R01
//verif:bound a header name of 1..40 arbitrary bytes with 0, 1 or 2 values of 0..1000 arbitrary bytes; any status 200..999 or none
//verif:reach built
func R01Name() {
	name, vs := anyHeader()
	b := response.NewBuilder().WithBody(body.FromString("some"))
	code := 200
	if vsym.Choose("status", 2) == 1 {
		code = vsym.IntRange("code", 200, 999)
		b.WithStatus(code)
	}
	b.Headers()[name] = append([]string{}, vs...)
	want := http.Header{"Content-Type": {"application/octet-stream"}, "Content-Length": {"4"}}
	want[name] = vs
	resp := b.Build()
	vsym.Assert(sameHdr(resp.Headers(), want), "R01: wrong headers")
	vsym.Assert(resp.Status() == code, "R01: wrong status")
	vsym.Assert(b.Status() == 0 && len(b.Headers()) == 0 && b.Body() == nil, "R01: builder not reset")
	vsym.Reach("built")
}

// R02Else: a setter replaces nothing else.
//
//verif:check R02
//verif:bound a header name of 1..40 arbitrary bytes with 0, 1 or 2 values of 0..1000 arbitrary bytes; any status 200..999 or none, error and body set or not; one call of any setter
//verif:reach stored
func R02Else() {
	name, vs := anyHeader()
	b := response.NewBuilder()
	b.Headers()[name] = append([]string{}, vs...)
	switch vsym.Choose("state", 3) {
	case 1:
		b.WithStatus(vsym.IntRange("code", 200, 999))
	case 2:
		b.WithError(errPage).WithBody(body.FromString("some"))
	}
	want := take(b)
	one := func(k, v string) { want.hdr[k] = []string{v} }
	switch vsym.Choose("setter", 11) {
	case 0:
		want.code = vsym.IntRange("newcode", 200, 999)
		b.WithStatus(want.code)
	case 1:
		b.WithHeader("X-New", "new", false)
		one("X-New", "new")
	case 2:
		b.WithHeader("X-New", "new", true)
		want.hdr["X-New"] = append(want.hdr["X-New"], "new")
	case 3:
		b.WithoutHeader("X-New")
		delete(want.hdr, "X-New")
	case 4:
		b.WithContentType("text/plain")
		one("Content-Type", "text/plain")
	case 5:
		b.WithContentLanguage("en")
		one("Content-Language", "en")
	case 6:
		b.WithContentEncoding("br")
		one("Content-Encoding", "br")
	case 7:
		b.WithETag("tag", true)
		one("Etag", "\"tag\"")
	case 8:
		b.WithDigest("md5", []byte("abc"))
		want.hdr["Digest"] = append(want.hdr["Digest"], "md5=YWJj")
	case 9:
		want.body = body.FromString("other")
		b.WithBody(want.body)
	case 10:
		want.err = errCopy
		b.WithError(errCopy)
	}
	want.check(b, stored)
	vsym.Reach("stored")
}

// R03Name: builders with a header of any name.
//
//verif:check R03
//verif:bound a header name of 1..40 arbitrary bytes with 0, 1 or 2 values of 0..1000 arbitrary bytes; its values changed in place, headers added or removed in the given map, the builder or its copy
//verif:reach given copied
func R03Name() {
	name, vs := anyHeader()
	mine := http.Header{name: append([]string{}, vs...)}
	want := http.Header{name: vs}
	b := response.NewBuilder()
	maps := []http.Header{mine, nil}
	if vsym.Choose("which", 2) == 0 {
		b.WithHeaders(mine)
		maps[1] = b.Headers()
		vsym.Reach("given")
	} else {
		maps[0] = b.Headers()
		maps[0][name] = mine[name]
		c, err := b.Copy()
		vsym.Assert(err == nil, "R03: copying fails")
		maps[1] = c.Headers()
		vsym.Reach("copied")
	}
	vsym.Assert(sameHdr(maps[0], want) && sameHdr(maps[1], want), "R03: copy differs")
	who := vsym.Choose("who", 2)
	h := maps[who]
	switch vsym.Choose("edit", 4) {
	case 0:
		for i := range h[name] {
			h[name][i] = "edited"
		}
	case 1:
		h[name] = append(h[name], "more")
	case 2:
		delete(h, name)
	case 3:
		h["X-New"] = []string{"new"}
	}
	vsym.Assert(sameHdr(maps[1-who], want), "R03: headers are shared")
}

// R02HeaderAny: headers of any name are set under its canonical form.
//
//verif:check R02
//verif:bound a header name of 1..4 (thorough: 1..6) arbitrary bytes, a value of 0..1000 arbitrary bytes; set, appended or removed with nothing, that header or another spelling of it present; what the canonical form is is asked of the standard library
//verif:reach stored
func R02HeaderAny() {
	n := 1 + vsym.Choose("namelen", tier(4, 6))
	name := vsym.NewData("name").String(n)
	val := vsym.NewData("value").String(vsym.IntRange("valuelen", 0, 1000))
	b := response.NewBuilder()
	key := http.CanonicalHeaderKey(name)
	switch vsym.Choose("present", 3) {
	case 1:
		b.Headers()[key] = []string{"old"}
	case 2:
		b.Headers()[name] = []string{"old"}
	}
	want := take(b)
	switch vsym.Choose("how", 3) {
	case 0:
		b.WithHeader(name, val, true)
		want.hdr[key] = append(want.hdr[key], val)
	case 1:
		b.WithHeader(name, val, false)
		want.hdr[key] = []string{val}
	case 2:
		b.WithoutHeader(name)
		delete(want.hdr, key)
	}
	want.check(b, stored)
	vsym.Reach("stored")
}

// refusal says that it means the same as another error.
type refusal struct{}

func (refusal) Error() string        { return "refused" }
func (refusal) Is(target error) bool { return target == http.ErrNotSupported }

// R06Unsupported: pushes that are refused as unsupported in various ways.
//
//verif:check R06
//verif:bound 1..3 push targets, each refused with the error itself, wrapped once or twice, or one that says it is the same, or accepted; body of 0..70000 bytes
//verif:reach served
func R06Unsupported() {
	data := vsym.NewData("body")
	size := vsym.Int64Range("size", 0, maxLen)
	rd := &reader{data: data, end: size, failAt: -1}
	b := response.NewBuilder().WithBody(&stand{reader: rd, known: true})
	w := newRec("R06", data)
	n := 1 + vsym.Choose("targets", 3)
	var once error = &wrapped{http.ErrNotSupported}
	for i := 0; i < n; i++ {
		b.WithHeader("Push", "/"+strconv.Itoa(i), true)
		w.pushErr = append(w.pushErr, []error{http.ErrNotSupported, once, &wrapped{once}, refusal{}, nil}[vsym.Choose("how", 5)])
	}
	err := b.Build().Serve(recPush{w})
	vsym.Assert(err == nil, "R06: unsupported push taken for a failure")
	vsym.Assert(w.total == size && rd.closed == 1, "R06: body not sent completely and closed")
	vsym.Assert(len(w.pushes) == n, "R06: push targets left out")
	vsym.Reach("served")
}

// R04Long: redirects to long locations.
//
//verif:check R04
//verif:bound 100, 1000, 2500 or 4000 letters with 1 arbitrary ASCII byte and a slash after them, with and without surrounding blanks
//verif:reach page
func R04Long() {
	code := vsym.IntRange("code", 300, 399)
	n := []int{100, 1000, 2500, 4000}[vsym.Choose("letters", 4)]
	d := vsym.NewData("location")
	vsym.Assume(d.At(0) < 0x80)
	loc := strings.Repeat("x", n) + d.String(1) + "/"
	given := loc
	if vsym.Choose("blanks", 2) == 1 {
		given = " " + loc + "\n"
	}
	b := response.NewBuilder().RedirectPage(code, given)
	vsym.Assert(b.Status() == code, "R04: redirect page has another status")
	vs := b.Headers()["Location"]
	vsym.Assert(len(vs) == 1 && len(vs[0]) == len(loc), "R04: location header is not the trimmed location")
	vsym.SameBytes([]byte(vs[0]), []byte(loc), "R04: location header is not the trimmed location")
	page := text(b.Body())
	checkLength(b.Headers(), page)
	k := find(page, 0, strings.Repeat("x", n))
	vsym.Assert(k >= 0, "R04: page does not show the location")
	m := escaped(page[k+n:], d.At(0))
	vsym.Assert(m > 0 && page[k+n+m] == '/', "R04: location not escaped in the page")
	vsym.Reach("page")
}
