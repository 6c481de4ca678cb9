From fb335fa70372f17ee5520ca7a5ebd872b6492be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:37 +0000
Subject: [PATCH 01/14] fix: FromJSON serves the encoded value instead of
 nothing

---
 body/body.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/body.go b/body/body.go
index 1c84c41..bacc031 100644
--- a/body/body.go
+++ b/body/body.go
@@ -202,7 +202,7 @@ func fromJSONImpl(v interface{}, isPretty bool) Body {
 			}
 		}
 	} else {
-		copy(dst, src)
+		dst = append([]byte(nil), src...)
 	}
 
 	return FromBytes(dst)
-- 
2.43.0


From c8cb21ddf633b1d163af5d397405155a1abec646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:38 +0000
Subject: [PATCH 02/14] fix: draining an empty body succeeds

---
 body/empty.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/body/empty.go b/body/empty.go
index 94e752b..c80a1f0 100644
--- a/body/empty.go
+++ b/body/empty.go
@@ -96,7 +96,8 @@ func (body *emptyBody) WriteTo(w io.Writer) (int64, error) {
 		return 0, fs.ErrClosed
 	}
 
-	return 0, io.EOF
+	body.eof = true
+	return 0, nil
 }
 
 func (body *emptyBody) Copy() (Body, error) {
-- 
2.43.0


From 6514651305e3b8d65145930922720313bbeda2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:39 +0000
Subject: [PATCH 03/14] fix: empty bodies refuse positional reads at negative
 offsets

---
 body/empty.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/body/empty.go b/body/empty.go
index c80a1f0..f8c43da 100644
--- a/body/empty.go
+++ b/body/empty.go
@@ -1,6 +1,7 @@
 package body
 
 import (
+	"fmt"
 	"io"
 	"io/fs"
 	"sync"
@@ -81,6 +82,10 @@ func (body *emptyBody) ReadAt(p []byte, offset int64) (int, error) {
 		return 0, fs.ErrClosed
 	}
 
+	if offset < 0 {
+		return 0, fmt.Errorf("ReadAt error: offset %d is negative", offset)
+	}
+
 	if len(p) > 0 {
 		return 0, io.EOF
 	}
-- 
2.43.0


From 1224cd6514a87a296ab2c589a9f842090eb96674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:40 +0000
Subject: [PATCH 04/14] fix: a partial WriteTo leaves the rest of the body
 readable

---
 body/bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/bytes.go b/body/bytes.go
index d7b14f8..fe1f681 100644
--- a/body/bytes.go
+++ b/body/bytes.go
@@ -160,7 +160,7 @@ func (body *bytesBody) WriteTo(w io.Writer) (int64, error) {
 	assert.Assertf(n >= 0, "Write must return %d >= 0", n)
 	assert.Assertf(n <= avail, "Write must return %d <= %d", n, avail)
 	body.offset += int(n)
-	body.eof = true
+	body.eof = (n == avail)
 	return int64(n), err
 }
 
-- 
2.43.0


From d3348c6a51347464a9f56d8b3984e0d4455470ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:41 +0000
Subject: [PATCH 05/14] fix: remaining count of seekable bodies is never
 negative and takes the lock

---
 body/seeker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/body/seeker.go b/body/seeker.go
index 34ac623..79bea2e 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -81,7 +81,12 @@ func (body *seekerBody) BytesRemaining() int64 {
 		return 0
 	}
 
-	return (body.common.length - body.offset)
+	length := body.common.BytesRemaining()
+	offset := body.offset
+	if offset >= length {
+		return 0
+	}
+	return (length - offset)
 }
 
 func (body *seekerBody) Read(p []byte) (int, error) {
-- 
2.43.0


From 7b02e664afffe89cf032d593d392bb7daff09710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:42 +0000
Subject: [PATCH 06/14] fix: a failing source does not shorten the body and its
 copies

---
 body/readerat.go | 5 ++---
 body/seeker.go   | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/body/readerat.go b/body/readerat.go
index 41e392a..38fcd82 100644
--- a/body/readerat.go
+++ b/body/readerat.go
@@ -131,9 +131,8 @@ func (body *readerAtBody) Read(p []byte) (int, error) {
 	if err != nil {
 		body.err = err
 
-		length = offset
-		if length < common.length {
-			common.length = length
+		if err == io.EOF && offset < common.length {
+			common.length = offset
 		}
 	}
 
diff --git a/body/seeker.go b/body/seeker.go
index 79bea2e..cf1ed43 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -136,9 +136,8 @@ func (body *seekerBody) Read(p []byte) (int, error) {
 	if err != nil {
 		body.err = err
 
-		length = offset
-		if length < common.length {
-			common.length = length
+		if err == io.EOF && offset < common.length {
+			common.length = offset
 		}
 	}
 
-- 
2.43.0


From b25136c86ea656545a31e0466e28f27f2aa053dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:49 +0000
Subject: [PATCH 07/14] fix: short reads of a seekable source are neither
 end-of-file nor truncation

---
 body/seeker.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/body/seeker.go b/body/seeker.go
index cf1ed43..fc745d5 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -9,6 +9,8 @@ import (
 	"github.com/chronos-tachyon/assert"
 )
 
+const maxConsecutiveEmptyReads = 100
+
 type seekerCommon struct {
 	mu     sync.Mutex
 	s      io.ReadSeeker
@@ -65,6 +67,26 @@ func (common *seekerCommon) readAt(p []byte, offset int64) (int, error) {
 	return n, err
 }
 
+func (common *seekerCommon) readFullAt(p []byte, offset int64) (int, error) {
+	total := 0
+	numEmpty := 0
+	for {
+		n, err := common.readAt(p[total:], offset+int64(total))
+		total += n
+		if err != nil || total >= len(p) {
+			return total, err
+		}
+		if n > 0 {
+			numEmpty = 0
+			continue
+		}
+		numEmpty++
+		if numEmpty >= maxConsecutiveEmptyReads {
+			return total, io.ErrNoProgress
+		}
+	}
+}
+
 type seekerBody struct {
 	mu     sync.Mutex
 	common *seekerCommon
@@ -126,7 +148,7 @@ func (body *seekerBody) Read(p []byte) (int, error) {
 	if avail > 0 {
 		n, err = common.readAt(p[0:x], offset)
 	}
-	if eof && err == nil {
+	if eof && err == nil && int64(n) == avail {
 		err = io.EOF
 	}
 
@@ -231,7 +253,7 @@ func (body *seekerBody) ReadAt(p []byte, offset int64) (int, error) {
 		err error
 	)
 	if avail > 0 {
-		n, err = common.readAt(p[0:x], offset)
+		n, err = common.readFullAt(p[0:x], offset)
 	}
 	if eof && err == nil {
 		err = io.EOF
-- 
2.43.0


From 596cbecd08537ab664681e18537ecba4240d9187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:50 +0000
Subject: [PATCH 08/14] fix: seeking relatively by a huge offset clamps to the
 end

---
 body/body.go     | 10 ++++++++++
 body/bytes.go    |  4 ++--
 body/readerat.go |  4 ++--
 body/seeker.go   |  4 ++--
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/body/body.go b/body/body.go
index bacc031..73d6b85 100644
--- a/body/body.go
+++ b/body/body.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"math"
 
 	"github.com/chronos-tachyon/assert"
 	"github.com/chronos-tachyon/bufferpool"
@@ -353,3 +354,12 @@ func FromReaderAndLength(r io.Reader, length int64) (Body, error) {
 	common.ref(body)
 	return body, nil
 }
+
+// addOffsets returns offset + base, or the largest offset if that overflows.
+// The base must not be negative.
+func addOffsets(offset int64, base int64) int64 {
+	if offset > math.MaxInt64-base {
+		return math.MaxInt64
+	}
+	return offset + base
+}
diff --git a/body/bytes.go b/body/bytes.go
index fe1f681..53f2c5d 100644
--- a/body/bytes.go
+++ b/body/bytes.go
@@ -89,9 +89,9 @@ func (body *bytesBody) Seek(offset int64, whence int) (int64, error) {
 			return -1, NegativeStartOffsetSeekError{offset}
 		}
 	case io.SeekCurrent:
-		offset += int64(body.offset)
+		offset = addOffsets(offset, int64(body.offset))
 	case io.SeekEnd:
-		offset += bodyLen
+		offset = addOffsets(offset, bodyLen)
 	default:
 		return -1, UnknownWhenceSeekError{whence}
 	}
diff --git a/body/readerat.go b/body/readerat.go
index 38fcd82..8e17a9b 100644
--- a/body/readerat.go
+++ b/body/readerat.go
@@ -172,9 +172,9 @@ func (body *readerAtBody) Seek(offset int64, whence int) (int64, error) {
 			return -1, NegativeStartOffsetSeekError{offset}
 		}
 	case io.SeekCurrent:
-		offset += body.offset
+		offset = addOffsets(offset, body.offset)
 	case io.SeekEnd:
-		offset += length
+		offset = addOffsets(offset, length)
 	default:
 		return -1, UnknownWhenceSeekError{whence}
 	}
diff --git a/body/seeker.go b/body/seeker.go
index fc745d5..207be4c 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -199,9 +199,9 @@ func (body *seekerBody) Seek(offset int64, whence int) (int64, error) {
 			return -1, NegativeStartOffsetSeekError{offset}
 		}
 	case io.SeekCurrent:
-		offset += body.offset
+		offset = addOffsets(offset, body.offset)
 	case io.SeekEnd:
-		offset += length
+		offset = addOffsets(offset, length)
 	default:
 		return -1, UnknownWhenceSeekError{whence}
 	}
-- 
2.43.0


From abe90906fa87be28c61a42ea309ed79e5a1aabc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:14 +0000
Subject: [PATCH 09/14] fix: serving closes the body also when a push fails or
 the writer panics

---
 response/response.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/response/response.go b/response/response.go
index 9edc07f..2d0e07f 100644
--- a/response/response.go
+++ b/response/response.go
@@ -74,7 +74,14 @@ func (resp *Response) Copy() (*Response, error) {
 }
 
 // Serve serves the Response via the given ResponseWriter, consuming its Body.
-func (resp *Response) Serve(w http.ResponseWriter) error {
+func (resp *Response) Serve(w http.ResponseWriter) (err error) {
+	defer func() {
+		err2 := resp.body.Close()
+		if err == nil {
+			err = err2
+		}
+	}()
+
 	if x, ok := w.(http.Pusher); ok {
 		vlist := resp.hdrs[headerPush]
 		for _, url := range vlist {
@@ -94,12 +101,6 @@ func (resp *Response) Serve(w http.ResponseWriter) error {
 
 	w.WriteHeader(resp.code)
 
-	_, err := io.Copy(w, resp.body)
-
-	err2 := resp.body.Close()
-	if err == nil {
-		err = err2
-	}
-
+	_, err = io.Copy(w, resp.body)
 	return err
 }
-- 
2.43.0


From be67fdb890231071b37fa15647249551ca60eaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:15 +0000
Subject: [PATCH 10/14] fix: serving does not share header values with the
 writer

---
 response/response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/response/response.go b/response/response.go
index 2d0e07f..fdf5d7e 100644
--- a/response/response.go
+++ b/response/response.go
@@ -95,7 +95,7 @@ func (resp *Response) Serve(w http.ResponseWriter) (err error) {
 	h := w.Header()
 	for k, vlist := range resp.hdrs {
 		if k != headerPush {
-			h[k] = vlist
+			h[k] = copyStrings(vlist)
 		}
 	}
 
-- 
2.43.0


From 163516046e40f0cbad0f26b58d7cb368e452a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:16 +0000
Subject: [PATCH 11/14] fix: a failed ReadFrom raises the error flag

---
 response/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/response/writer.go b/response/writer.go
index a4241e4..3570701 100644
--- a/response/writer.go
+++ b/response/writer.go
@@ -148,6 +148,9 @@ func (w *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	n, err := w.next.(io.ReaderFrom).ReadFrom(r)
 	assert.Assertf(n >= 0, "%d >= 0", n)
 	w.bytes += n
+	if err != nil {
+		w.sawError = true
+	}
 	return n, err
 }
 
-- 
2.43.0


From ff67a3a2c2bbcbb2aabf7361f99682bfe75e9861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:17 +0000
Subject: [PATCH 12/14] fix: no body is sent with status 304

---
 response/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/response/writer.go b/response/writer.go
index 3570701..e39f65a 100644
--- a/response/writer.go
+++ b/response/writer.go
@@ -80,7 +80,7 @@ func (w *basicWriter) WriteHeader(status int) {
 func (w *basicWriter) Write(p []byte) (int, error) {
 	w.MaybeWriteHeader(http.StatusOK)
 
-	if w.isHEAD || w.status == http.StatusNoContent {
+	if w.isHEAD || w.status == http.StatusNoContent || w.status == http.StatusNotModified {
 		return len(p), nil
 	}
 
@@ -141,7 +141,7 @@ func (w *fancyWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
 func (w *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	w.MaybeWriteHeader(http.StatusOK)
 
-	if w.isHEAD || w.status == http.StatusNoContent {
+	if w.isHEAD || w.status == http.StatusNoContent || w.status == http.StatusNotModified {
 		return io.Copy(io.Discard, r)
 	}
 
-- 
2.43.0


From be819acbcfb9f892737f9acf6b4dd4da587a0879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:17 +0000
Subject: [PATCH 13/14] fix: a panicking handler is counted under the status
 actually sent

---
 handler/adaptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler/adaptor.go b/handler/adaptor.go
index cd3ae56..005c35e 100644
--- a/handler/adaptor.go
+++ b/handler/adaptor.go
@@ -79,6 +79,7 @@ func (a Adaptor) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 
 	defer func() {
 		panicValue := recover()
+		ww.MaybeWriteHeader(http.StatusInternalServerError)
 		code := strconv.Itoa(ww.Status())
 		elapsedDuration := time.Since(startTime)
 		elapsed := float64(elapsedDuration) / float64(time.Second)
@@ -86,7 +87,6 @@ func (a Adaptor) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 		sendBytes := float64(ww.BytesWritten())
 		labels := prometheus.Labels{"code": code}
 
-		ww.MaybeWriteHeader(http.StatusInternalServerError)
 		if panicValue != nil {
 			PromPanicsTotal.Inc()
 		}
-- 
2.43.0


From 4abb4a7e742c010d5779dbe02f55696c43bc61bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:22 +0000
Subject: [PATCH 14/14] fix: a buffered body whose source panics on close
 counts as closed

---
 body/buffered.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/body/buffered.go b/body/buffered.go
index 0800f81..fc47b92 100644
--- a/body/buffered.go
+++ b/body/buffered.go
@@ -236,11 +236,11 @@ func (body *bufferedBody) Close() error {
 		return fs.ErrClosed
 	}
 
+	body.eof = false
+	body.closed = true
 	err := body.common.unref(body)
 	body.common = nil
 	body.offset = 0
-	body.eof = false
-	body.closed = true
 	return err
 }
 
-- 
2.43.0

