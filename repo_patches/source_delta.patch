From cffa92a3275c4667fb5d0c4d62f247cc4d53d5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 01/12] fix: do not allocate memory for strings longer than the
 remaining message

---
 codec/binary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codec/binary.go b/codec/binary.go
index 0c2190e..1a8d96c 100644
--- a/codec/binary.go
+++ b/codec/binary.go
@@ -146,6 +146,11 @@ func readString(r *bytes.Reader) (string, error) {
 		return "", nil
 	}
 
+	// do not allocate memory for data that can not be in the message.
+	if len > int64(r.Len()) {
+		return "", io.ErrUnexpectedEOF
+	}
+
 	if len > pooledBufferSliceLength {
 		bb := make([]byte, len)
 		if _, err = io.ReadFull(r, bb); err != nil {
-- 
2.43.0


From 0454a10a66c8e58743a6ce1539a2eb43d8fa193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 02/12] fix: grow the json parser buffer for tokens longer than
 the buffer

---
 codec/hyperjson/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 9137610..03172c1 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -425,6 +425,13 @@ func (p *Parser) bufferMore() error {
 		p.head = previousCount
 	}
 
+	// the buffer is full with one token, we need more space to make any progress
+	if p.head == len(p.buffer) {
+		buf := make([]byte, 2*len(p.buffer)+64)
+		copy(buf, p.buffer[:p.head])
+		p.buffer = buf
+	}
+
 	// read more data into the rest
 	count, err := p.input.Read(p.buffer[p.head:])
 	if err == io.EOF {
-- 
2.43.0


From e9b5abab900c6da69418e2f756d5bcdd746089a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 03/12] fix: limit the nesting of skipped json values to not
 overflow the stack

---
 codec/hyperjson/parser_skip.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/codec/hyperjson/parser_skip.go b/codec/hyperjson/parser_skip.go
index 3d9947a..a443a66 100644
--- a/codec/hyperjson/parser_skip.go
+++ b/codec/hyperjson/parser_skip.go
@@ -2,18 +2,29 @@ package hyperjson
 
 import "github.com/pkg/errors"
 
+// Maximum nesting of arrays and objects in a skipped value.
+const maxSkipDepth = 10000
+
 func (p *Parser) Skip() error {
+	return p.skipNext(0)
+}
+
+func (p *Parser) skipNext(depth int) error {
 	next, err := p.NextType()
 	if err != nil {
 		return err
 	}
 
-	return p.skip(next)
+	return p.skip(next, depth)
 }
 
-func (p *Parser) skip(next Type) error {
+func (p *Parser) skip(next Type, depth int) error {
 	var err error
 
+	if depth > maxSkipDepth {
+		return errors.New("exceeded max depth")
+	}
+
 	switch next {
 	case TypeString:
 		_, err = p.readString()
@@ -28,10 +39,10 @@ func (p *Parser) skip(next Type) error {
 		_, err = p.readNull()
 
 	case TypeObjectBegin:
-		err = p.skipObject()
+		err = p.skipObject(depth)
 
 	case TypeArrayBegin:
-		err = p.skipArray()
+		err = p.skipArray(depth)
 
 	default:
 		err = errors.Errorf("can not skip unexpected symbol of type '%s'", next)
@@ -39,7 +50,7 @@ func (p *Parser) skip(next Type) error {
 	return err
 }
 
-func (p *Parser) skipArray() error {
+func (p *Parser) skipArray(depth int) error {
 	if err := p.consumeArrayBegin(); err != nil {
 		return err
 	}
@@ -56,13 +67,13 @@ func (p *Parser) skipArray() error {
 		}
 
 		// call the consumer
-		if err := p.skip(next); err != nil {
+		if err := p.skip(next, depth+1); err != nil {
 			return err
 		}
 	}
 }
 
-func (p *Parser) skipObject() error {
+func (p *Parser) skipObject(depth int) error {
 	if err := p.consumeObjectBegin(); err != nil {
 		return err
 	}
@@ -83,7 +94,7 @@ func (p *Parser) skipObject() error {
 			return err
 		}
 
-		if err := p.Skip(); err != nil {
+		if err := p.skipNext(depth + 1); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From a47347b051a93f7871b24c9b8dff9eb6e01544eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 04/12] fix: decode json escape sequences and surrogate pairs
 as defined by the standard

---
 codec/hyperjson/string.go | 47 +++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/codec/hyperjson/string.go b/codec/hyperjson/string.go
index f63bac5..ff65f4b 100644
--- a/codec/hyperjson/string.go
+++ b/codec/hyperjson/string.go
@@ -2,6 +2,7 @@ package hyperjson
 
 import (
 	"github.com/pkg/errors"
+	"unicode/utf16"
 	"unicode/utf8"
 )
 
@@ -24,8 +25,7 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		ch = input[idx]
 
 		if ch != 'u' {
-			// append escaped character as is
-			decoded = append(decoded, ch)
+			decoded = append(decoded, unescape(ch))
 			continue
 		}
 
@@ -37,8 +37,7 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		idx++
 
 		// decode the unicode
-		var err error
-		decoded, err = decodeUnicodeChar(decoded, input[idx:])
+		r, err := decodeHex4(input[idx:])
 		if err != nil {
 			return nil, err
 		}
@@ -46,12 +45,44 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		// skip 3 of the consumed characters, the last one
 		// will be skipped by the for loop
 		idx += 3
+
+		// a surrogate must be followed by a second one
+		if rest := input[idx+1:]; utf16.IsSurrogate(r) && len(rest) >= 6 && rest[0] == '\\' && rest[1] == 'u' {
+			if low, err := decodeHex4(rest[2:]); err == nil {
+				if combined := utf16.DecodeRune(r, low); combined != utf8.RuneError {
+					r = combined
+					idx += 6
+				}
+			}
+		}
+
+		buf := decoded[len(decoded) : len(decoded)+4]
+		decoded = decoded[:len(decoded)+utf8.EncodeRune(buf, r)]
 	}
 
 	return decoded, nil
 }
 
-func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
+// unescape gives the character that is denoted by a backslash followed by ch.
+func unescape(ch byte) byte {
+	switch ch {
+	case 'b':
+		return '\b'
+	case 'f':
+		return '\f'
+	case 'n':
+		return '\n'
+	case 'r':
+		return '\r'
+	case 't':
+		return '\t'
+	default:
+		return ch
+	}
+}
+
+// decodeHex4 decodes the value of the first four hexadecimal digits of the input.
+func decodeHex4(input []byte) (rune, error) {
 	var r rune
 	for _, c := range input[:4] {
 		switch {
@@ -62,13 +93,11 @@ func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
 		case 'A' <= c && c <= 'F':
 			c = c - 'A' + 10
 		default:
-			return nil, errors.Errorf("expected hexadecimal character but got '%c'", c)
+			return 0, errors.Errorf("expected hexadecimal character but got '%c'", c)
 		}
 
 		r = r*16 + rune(c)
 	}
 
-	buf := target[len(target) : len(target)+4]
-	n := utf8.EncodeRune(buf, r)
-	return target[:len(target)+n], nil
+	return r, nil
 }
-- 
2.43.0


From c24dc5d912066f26ba5b56c7a5ba671c42ffd111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 05/12] fix: accept json numbers with an upper case or
 explicitly positive exponent

---
 codec/hyperjson/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 03172c1..0f93e2d 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -216,7 +216,7 @@ func (p *Parser) readNumber() (Token, error) {
 		for ; n < avail; n++ {
 			ch := p.buffer[p.tail+n]
 
-			if !isCharDigit(ch) && ch != '.' && ch != 'e' {
+			if !isCharDigit(ch) && ch != '.' && ch != 'e' && ch != 'E' && ch != '+' {
 				token := Token{
 					Type:  TypeNumber,
 					Value: p.buffer[p.tail : p.tail+n],
-- 
2.43.0


From 185282817c8e2ada79255abbc68113004bd8387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 06/12] fix: reject json integers that do not fit into 64 bits

---
 codec/hyperjson/bind.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/codec/hyperjson/bind.go b/codec/hyperjson/bind.go
index e7376d0..431a169 100644
--- a/codec/hyperjson/bind.go
+++ b/codec/hyperjson/bind.go
@@ -4,6 +4,7 @@ import (
 	"github.com/flachnetz/dd-zipkin-proxy/cache"
 	"github.com/modern-go/reflect2"
 	"github.com/pkg/errors"
+	"math"
 	"unsafe"
 )
 
@@ -21,7 +22,12 @@ func Uint64ValueDecoder(target unsafe.Pointer, p *Parser) error {
 			return errors.Errorf("Unexpected character in number: '%c'", ch)
 		}
 
-		result = result*10 + uint64(ch-'0')
+		digit := uint64(ch - '0')
+		if result > (math.MaxUint64-digit)/10 {
+			return errors.Errorf("number does not fit into 64 bits: %s", tok.Value)
+		}
+
+		result = result*10 + digit
 	}
 
 	// assign to target
-- 
2.43.0


From a986af722f5564f9ad306d2ae27943e00210ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 07/12] fix: clear all recycled binary annotations before
 decoding the next span

---
 codec/json-v1.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codec/json-v1.go b/codec/json-v1.go
index 1d629a6..c0af00c 100644
--- a/codec/json-v1.go
+++ b/codec/json-v1.go
@@ -231,8 +231,10 @@ func spanV1ValueDecoder() hyperjson.ValueDecoder {
 
 		span.Annotations = [4]annotationV1{}
 
-		for idx := range span.BinaryAnnotations {
-			span.BinaryAnnotations[idx] = binaryAnnotationV1{}
+		// also clear the elements behind the end of the slice, they might be revealed again
+		recycled := span.BinaryAnnotations[:cap(span.BinaryAnnotations)]
+		for idx := range recycled {
+			recycled[idx] = binaryAnnotationV1{}
 		}
 
 		span.BinaryAnnotations = span.BinaryAnnotations[:0]
-- 
2.43.0


From 0bc1f0b4b442cdcbe8e8021ca4a99284656e03c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 08/12] fix: a root span is its own parent

---
 proxy/span.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/span.go b/proxy/span.go
index 22fa71a..b0cccc6 100644
--- a/proxy/span.go
+++ b/proxy/span.go
@@ -37,7 +37,7 @@ func NewSpan(name string, trace, id, parent Id) Span {
 }
 
 func NewRootSpan(name string, trace, id Id) Span {
-	return NewSpan(name, trace, id, trace)
+	return NewSpan(name, trace, id, id)
 }
 
 func (span *Span) HasParent() bool {
-- 
2.43.0


From c6809cd46a8fed685da463ad9cdd31bb71c25489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 09/12] fix: do not wrap the node count of traces with 65536
 spans

---
 correct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/correct.go b/correct.go
index b529b74..7009117 100644
--- a/correct.go
+++ b/correct.go
@@ -62,7 +62,7 @@ type tree struct {
 
 	started   time.Time
 	updated   time.Time
-	nodeCount uint16
+	nodeCount int
 }
 
 func newTree(traceId Id) *tree {
-- 
2.43.0


From 452602e02b285ca31e47fb6fa8118a0c968c43b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 10/12] fix: keep client timings of a span that has server
 timings too when merging

---
 correct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/correct.go b/correct.go
index 7009117..8af7bc1 100644
--- a/correct.go
+++ b/correct.go
@@ -513,6 +513,15 @@ func mergeSpansInPlace(spanToUpdate *proxy.Span, newSpan proxy.Span) {
 			spanToUpdate.Timings.SS = newSpan.Timings.SS
 		}
 
+		// the span might carry the timings of the client too
+		if newSpan.Timings.CS.IsValid() {
+			spanToUpdate.Timings.CS = newSpan.Timings.CS
+		}
+
+		if newSpan.Timings.CR.IsValid() {
+			spanToUpdate.Timings.CR = newSpan.Timings.CR
+		}
+
 	} else {
 		// merge tags, prefer the ones from the spanToUpdate (client)
 		if spanToUpdate.Service == "" {
-- 
2.43.0


From 93c07db92b8ba95329ca9164426da93f72310454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 11/12] fix: show recent spans in the order they were received

---
 buffer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buffer.go b/buffer.go
index 582e5f3..9d6ce7c 100644
--- a/buffer.go
+++ b/buffer.go
@@ -33,8 +33,10 @@ func (buffer *SpansBuffer) ToSlice() []proxy.Span {
 	buffer.lock.Lock()
 	defer buffer.lock.Unlock()
 
+	// the oldest span is the one that will be overwritten next
 	var result []proxy.Span
-	for _, span := range buffer.spans {
+	for idx := range buffer.spans {
+		span := buffer.spans[(buffer.position+uint(idx))%uint(len(buffer.spans))]
 		if span.Id != 0 {
 			result = append(result, span)
 		}
-- 
2.43.0


From 736ea5d8863a3eba2cd0dfc8d8c6d92fff8a8e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 12/12] fix: interned strings must not refer to the caller's
 stack

---
 cache/cache.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 6eb5390..f66be99 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -1,7 +1,6 @@
 package cache
 
 import (
-	"github.com/modern-go/reflect2"
 	"github.com/rcrowley/go-metrics"
 	"sync"
 	"sync/atomic"
@@ -14,24 +13,22 @@ var binaryCache = NewLRUCache(5 * 1024 * 1024)
 var metricMissCount, metricHitCount uint64
 
 func String(str string) string {
-	return lookupCache(false, stringToByteSlice(str))
+	return lookupCache(false, str)
 }
 
 func StringForByteSliceCopy(value []byte) string {
-	return lookupCache(true, value)
+	return lookupCache(true, byteSliceToString(value))
 }
 
 func StringForByteSliceNoCopy(value []byte) string {
-	return lookupCache(false, value)
+	return lookupCache(false, byteSliceToString(value))
 }
 
-func lookupCache(copyOnInsert bool, value []byte) string {
-	if len(value) == 0 {
+func lookupCache(copyOnInsert bool, key string) string {
+	if len(key) == 0 {
 		return ""
 	}
 
-	key := byteSliceToString(value)
-
 	binaryCacheLock.Lock()
 	cachedValue := binaryCache.Get(key)
 	binaryCacheLock.Unlock()
@@ -43,8 +40,8 @@ func lookupCache(copyOnInsert bool, value []byte) string {
 
 	if copyOnInsert {
 		// create a copy of the data that we want to cache
-		newValue := make([]byte, 0, len(value))
-		key = byteSliceToString(append(newValue, value...))
+		newValue := make([]byte, 0, len(key))
+		key = byteSliceToString(append(newValue, key...))
 	}
 
 	atomic.AddUint64(&metricMissCount, 1)
@@ -56,10 +53,6 @@ func lookupCache(copyOnInsert bool, value []byte) string {
 	return key
 }
 
-func stringToByteSlice(str string) []byte {
-	return reflect2.UnsafeCastString(str)
-}
-
 func byteSliceToString(bytes []byte) string {
 	if bytes == nil {
 		return ""
-- 
2.43.0

