From fa3c10d13735212833600031b2a296de93c7ed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:52 +0000
Subject: [PATCH 01/12] fix: Split returns no jamo for a rune that is not a
 hangul syllable

Split computed garbage jamo for any rune outside of AC00-D7A3, so that
LastConsonant("cat") was U+119B instead of 0, EndsWithConsonant was
true for most words that do not end in hangul, and AppendPostposition
picked the wrong postposition for them.
---
 hangul.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hangul.go b/hangul.go
index 1f5c089..215bb15 100644
--- a/hangul.go
+++ b/hangul.go
@@ -45,8 +45,13 @@ func Join(l, m, t rune) rune {
 	return rune(0xAC00 + (li*21+mi)*28 + ti)
 }
 
-// Split converts NFC to NFD
+// Split converts NFC to NFD.
+// It returns 0, 0, 0 if c is not a precomposed hangul syllable.
 func Split(c rune) (l, m, t rune) {
+	if c < 0xAC00 || 0xD7A3 < c {
+		return 0, 0, 0
+	}
+
 	t = (c - 0xAC00) % 28
 	m = ((c - 0xAC00 - t) % 588) / 28
 	l = (c - 0xAC00) / 588
-- 
2.43.0


From 549da31f6360b7114ee3108eefa0758f4605abfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:52 +0000
Subject: [PATCH 02/12] fix: Join rejects a rune that is not a tail consonant

Tail() gives 0 for such a rune and tailIdx(0) means "no tail", so
Join(G, A, 'x') was the syllable without tail instead of U+FFFD.
---
 hangul.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hangul.go b/hangul.go
index 215bb15..f2874e9 100644
--- a/hangul.go
+++ b/hangul.go
@@ -38,7 +38,7 @@ func Join(l, m, t rune) rune {
 	}
 
 	ti, ok := tailIdx(Tail(t))
-	if !ok {
+	if !ok || (ti == 0 && t != 0) {
 		return rune(0xFFFD)
 	}
 
-- 
2.43.0


From 219abbc077f392b3279a678672bccbaf7ff0b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:53 +0000
Subject: [PATCH 03/12] fix: SplitMultiElement returns a copy of its table
 entry

The slice of the package's table itself was returned, so a caller that
changed its result changed every later SplitMultiElement and Stroke.
---
 jamo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jamo.go b/jamo.go
index 0f56d37..4433459 100644
--- a/jamo.go
+++ b/jamo.go
@@ -86,7 +86,8 @@ var multiElements = map[rune][]rune{
 func SplitMultiElement(r rune) ([]rune, bool) {
 	r = CompatJamo(r)
 	es, ok := multiElements[r]
-	return es, ok
+	// Give the caller a copy; the table is shared by every caller.
+	return append([]rune(nil), es...), ok
 }
 
 var toCompatJamo = map[rune]rune{
-- 
2.43.0


From bdc95bb7c6f72310a2cd71e5ffedde511654f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:53 +0000
Subject: [PATCH 04/12] fix: split WE to its three basic elements

WE was split to U and E, but E is itself a multi element and has no
stroke count of its own, so Stroke(WE) was 2 and less than Stroke(U,
EO, I) which is 5. WAE is already split to O, A, I.
---
 jamo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jamo.go b/jamo.go
index 4433459..534155e 100644
--- a/jamo.go
+++ b/jamo.go
@@ -77,7 +77,7 @@ var multiElements = map[rune][]rune{
 	WAE: []rune{O, A, I},
 	OE:  []rune{O, I},
 	WEO: []rune{U, EO},
-	WE:  []rune{U, E},
+	WE:  []rune{U, EO, I},
 	WI:  []rune{U, I},
 	YI:  []rune{EU, I},
 }
-- 
2.43.0


From 8ec32faf4cef28880cedf242b45452b06d8f4e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 05/12] fix: write one '?' for a character above the end of the
 cp949 table

Every character after U+FFE6, among them U+FFFD which stands for each
byte of invalid UTF-8, was written as "??".
---
 encoding/cp949/cp949.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index e4793c8..2f378d4 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -89,10 +89,6 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 			return false
 		})
 
-		if fi >= len(p.table) {
-			p.scratch = append(p.scratch, '?')
-		}
-
 		if fi < len(p.table) && rUcs2 == p.table[fi].ucs2 {
 			f := p.table[fi]
 			p.scratch = append(p.scratch,
-- 
2.43.0


From e57fd25c65b150112ca10601c7e3d4954ea5ad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:19 +0000
Subject: [PATCH 06/12] fix: do not encode a supplementary character as a BMP
 one

The rune was truncated to 16 bits before the lookup, so that U+1AC00
was encoded as if it was U+AC00.
---
 encoding/cp949/cp949.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index 2f378d4..68cbd97 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -89,7 +89,7 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 			return false
 		})
 
-		if fi < len(p.table) && rUcs2 == p.table[fi].ucs2 {
+		if r <= 0xFFFF && fi < len(p.table) && rUcs2 == p.table[fi].ucs2 {
 			f := p.table[fi]
 			p.scratch = append(p.scratch,
 				byte(f.cp949>>8), byte(f.cp949&0xff))
-- 
2.43.0


From b0e496e3c973ba81f209e6055e973cad90e90aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:20 +0000
Subject: [PATCH 07/12] fix: Reader keeps what comes before a truncated cp949
 stream

When the source ended in the middle of a character, the reader dropped
everything it had buffered and reported a clean EOF. Now it delivers
the complete characters first and ends with ErrCP949UnexpectedStream,
as From does.
---
 encoding/cp949/cp949.go  | 2 +-
 encoding/cp949/public.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index 68cbd97..feee753 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -43,7 +43,7 @@ func (p *translateFromCp949) Translate(data []byte) (int, []byte, error) {
 		}
 
 		if len(data) < 2 {
-			return 0, nil, ErrCP949UnexpectedStream
+			return c, p.scratch, ErrCP949UnexpectedStream
 		}
 
 		n := uint16(data[0])<<8 | uint16(data[1])
diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index c1b213d..a48a1d2 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -76,15 +76,15 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 			break
 		}
 		nc, cdata, cvterr := r.tr.Translate(r.rdata)
-		if cvterr != nil {
-			// TODO
-		}
 		r.cdata = cdata
 
 		// Ensure that we consume all bytes at eof
 		// if the converter refuses them.
 		if nc == 0 && r.err != nil {
 			nc = len(r.rdata)
+			if cvterr != nil && r.err == io.EOF {
+				r.err = cvterr
+			}
 		}
 
 		// Copy unconsumed data to the start of the rdata buffer.
-- 
2.43.0


From b9d7e48b19a995b0ed2e57ad4890bea1c070b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:21 +0000
Subject: [PATCH 08/12] fix: an empty Read does not end the Reader

A Read with an empty buffer made the reader call its source with an
empty buffer too, and take the 0, nil it got for the end of the
stream. Everything left in the source was lost.
---
 encoding/cp949/public.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index a48a1d2..245328d 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -57,6 +57,9 @@ func NewReader(r io.Reader) (io.Reader, error) {
 }
 
 func (r *cp949Reader) Read(buf []byte) (int, error) {
+	if len(buf) == 0 {
+		return 0, nil
+	}
 	for {
 		if len(r.cdata) > 0 {
 			n := copy(buf, r.cdata)
-- 
2.43.0


From d6c0fdc522a93b4a4b87e999a255d35f1be65b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:22 +0000
Subject: [PATCH 09/12] fix: a source which returns 0, nil is not at its end

io.Reader says that 0, nil does not indicate EOF, but the reader took
it for one and lost the rest of the stream. Try again, and give up with
io.ErrNoProgress as bufio does.
---
 encoding/cp949/public.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index 245328d..d6de15d 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -44,8 +44,12 @@ type cp949Reader struct {
 	cdata []byte // unconsumed data from converter.
 	rdata []byte // unconverted data from reader.
 	err   error  // final error from reader.
+	empty int    // consecutive reads which gave neither data nor error.
 }
 
+// same as in bufio.
+const maxEmptyReads = 100
+
 // NewReader creates io.Reader which read cp949 source to utf-8
 func NewReader(r io.Reader) (io.Reader, error) {
 	tr, err := fromCp949()
@@ -70,8 +74,12 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 			r.rdata = ensureCap(r.rdata, len(r.rdata)+len(buf))
 			n, err := r.r.Read(r.rdata[len(r.rdata):cap(r.rdata)])
 			// Guard against non-compliant Readers.
-			if n == 0 && err == nil {
-				err = io.EOF
+			r.empty++
+			if n > 0 {
+				r.empty = 0
+			}
+			if err == nil && r.empty >= maxEmptyReads {
+				err = io.ErrNoProgress
 			}
 			r.rdata = r.rdata[0 : len(r.rdata)+n]
 			r.err = err
-- 
2.43.0


From e806d3465027850151f0238bdc17e74a81014142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:38 +0000
Subject: [PATCH 10/12] fix: Writer keeps a character split over two writes
 together

Each byte of a UTF-8 sequence that was split between two calls to Write
was written as '?'. Keep the incomplete sequence for the next Write, in
the buffer which is there for it.
---
 encoding/cp949/public.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index d6de15d..ae06b5b 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -6,6 +6,7 @@ package cp949
 
 import (
 	"io"
+	"unicode/utf8"
 )
 
 // From converts cp949 stream to utf-8 stream
@@ -126,7 +127,7 @@ func (w *cp949Writer) Write(data []byte) (int, error) {
 		w.buf = append(w.buf, data...)
 		wdata = w.buf
 	}
-	n, cdata, err := w.tr.Translate(wdata)
+	n, cdata, err := w.tr.Translate(wdata[:len(wdata)-incompleteRune(wdata)])
 	if err != nil {
 		// TODO
 	}
@@ -142,3 +143,18 @@ func (w *cp949Writer) Write(data []byte) (int, error) {
 	}
 	return len(data), nil
 }
+
+// incompleteRune returns length of the rune at the end of data which
+// need more bytes to be complete. It returns 0 if there isn't one.
+func incompleteRune(data []byte) int {
+	for n := 1; n < utf8.UTFMax && n <= len(data); n++ {
+		tail := data[len(data)-n:]
+		if utf8.RuneStart(tail[0]) {
+			if utf8.FullRune(tail) {
+				return 0
+			}
+			return n
+		}
+	}
+	return 0
+}
-- 
2.43.0


From e156a213289f58a3e54d302828ade9eeb96f9559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:01 +0000
Subject: [PATCH 11/12] fix: Writer does not keep the data of a failed Write

If an incomplete character was pending, the data of a Write that failed
was kept behind it although Write returned 0, and was written again by
the next Write.
---
 encoding/cp949/public.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index ae06b5b..c125a11 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -123,7 +123,8 @@ func NewWriter(w io.Writer) (io.Writer, error) {
 
 func (w *cp949Writer) Write(data []byte) (int, error) {
 	wdata := data
-	if len(w.buf) > 0 {
+	pending := len(w.buf)
+	if pending > 0 {
 		w.buf = append(w.buf, data...)
 		wdata = w.buf
 	}
@@ -134,6 +135,8 @@ func (w *cp949Writer) Write(data []byte) (int, error) {
 	if n > 0 {
 		_, err = w.w.Write(cdata)
 		if err != nil {
+			// data is reported as not written; don't keep it.
+			w.buf = w.buf[:pending]
 			return 0, err
 		}
 	}
-- 
2.43.0


From 96f86df192c7b586b7796671170f333a7e1721dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 12/12] fix: CP949Encoding's transformers work with limited
 buffers

Transform ignored the size of dst and whether src ends in the middle of
a character, so a Decoder's Reader panicked or gave wrong text, as did
an Encoder's Writer, as soon as the text was longer than their 4096
byte buffers. Convert character by character, and return ErrShortDst
and ErrShortSrc as transform.Transformer demands.
---
 encoding/cp949/encoding.go | 61 +++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 10 deletions(-)

diff --git a/encoding/cp949/encoding.go b/encoding/cp949/encoding.go
index dcf33a0..417bbc9 100644
--- a/encoding/cp949/encoding.go
+++ b/encoding/cp949/encoding.go
@@ -1,7 +1,10 @@
 package cp949
 
 import (
+	"unicode/utf8"
+
 	"golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 // CP949Encoding provides the Encoding interface for CP949 encoding.
@@ -26,30 +29,68 @@ type cp949Decoder struct{}
 
 // Transform converts data from CP949 to UTF-8.
 func (d *cp949Decoder) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
-	// Use the From function to convert CP949 to UTF-8.
-	converted, err := From(src)
+	tr, err := fromCp949()
 	if err != nil {
 		return 0, 0, err
 	}
 
-	// Copy the converted data to dst.
-	copy(dst, converted)
-	return len(converted), len(src), nil
+	for nSrc < len(src) {
+		size := 1
+		if src[nSrc]&0x80 != 0 {
+			size = 2
+		}
+		if nSrc+size > len(src) {
+			if !atEOF {
+				return nDst, nSrc, transform.ErrShortSrc
+			}
+			return nDst, nSrc, ErrCP949UnexpectedStream
+		}
+
+		// Convert a character from CP949 to UTF-8.
+		_, converted, err := tr.Translate(src[nSrc : nSrc+size])
+		if err != nil {
+			return nDst, nSrc, err
+		}
+		if nDst+len(converted) > len(dst) {
+			return nDst, nSrc, transform.ErrShortDst
+		}
+
+		// Copy the converted data to dst.
+		nDst += copy(dst[nDst:], converted)
+		nSrc += size
+	}
+	return nDst, nSrc, nil
 }
 
 type cp949Encoder struct{}
 
 // Transform converts data from UTF-8 to CP949.
 func (e *cp949Encoder) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
-	// Use the To function to convert UTF-8 to CP949.
-	converted, err := To(src)
+	tr, err := toCp949()
 	if err != nil {
 		return 0, 0, err
 	}
 
-	// Copy the converted data to dst.
-	copy(dst, converted)
-	return len(converted), len(src), nil
+	for nSrc < len(src) {
+		if !atEOF && !utf8.FullRune(src[nSrc:]) {
+			return nDst, nSrc, transform.ErrShortSrc
+		}
+
+		// Convert a character from UTF-8 to CP949.
+		_, size := utf8.DecodeRune(src[nSrc:])
+		_, converted, err := tr.Translate(src[nSrc : nSrc+size])
+		if err != nil {
+			return nDst, nSrc, err
+		}
+		if nDst+len(converted) > len(dst) {
+			return nDst, nSrc, transform.ErrShortDst
+		}
+
+		// Copy the converted data to dst.
+		nDst += copy(dst[nDst:], converted)
+		nSrc += size
+	}
+	return nDst, nSrc, nil
 }
 
 // Reset resets the state of the Transformer.
-- 
2.43.0

