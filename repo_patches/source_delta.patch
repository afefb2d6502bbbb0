From b223e40bbce978bbdf4dc9f03b4249de43e65c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 01/15] fix: do not spin on json tokens that are larger than
 the parser buffer

The parser asked its reader for zero more bytes again and again once a token
filled the buffer completely, so that the request never finished.
---
 codec/hyperjson/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 9137610..352062a 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -425,6 +425,13 @@ func (p *Parser) bufferMore() error {
 		p.head = previousCount
 	}
 
+	// make room for more data if the current token fills the buffer
+	if p.head == len(p.buffer) {
+		buffer := make([]byte, 2*len(p.buffer)+4096)
+		copy(buffer, p.buffer)
+		p.buffer = buffer
+	}
+
 	// read more data into the rest
 	count, err := p.input.Read(p.buffer[p.head:])
 	if err == io.EOF {
-- 
2.43.0


From e05fbe29109fdd64b53c8b3755631e668ee3aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 02/15] fix: limit the nesting depth when skipping json values

A request with a few megabytes of opening brackets in an ignored field
overflowed the stack, which terminates the process.
---
 codec/hyperjson/parser_skip.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/codec/hyperjson/parser_skip.go b/codec/hyperjson/parser_skip.go
index 3d9947a..c6a0ec0 100644
--- a/codec/hyperjson/parser_skip.go
+++ b/codec/hyperjson/parser_skip.go
@@ -2,16 +2,23 @@ package hyperjson
 
 import "github.com/pkg/errors"
 
+// Maximum nesting depth of values that can be skipped.
+const maxSkipDepth = 10000
+
 func (p *Parser) Skip() error {
 	next, err := p.NextType()
 	if err != nil {
 		return err
 	}
 
-	return p.skip(next)
+	return p.skip(next, 0)
 }
 
-func (p *Parser) skip(next Type) error {
+func (p *Parser) skip(next Type, depth int) error {
+	if depth > maxSkipDepth {
+		return errors.Errorf("exceeded max nesting depth of %d", maxSkipDepth)
+	}
+
 	var err error
 
 	switch next {
@@ -28,10 +35,10 @@ func (p *Parser) skip(next Type) error {
 		_, err = p.readNull()
 
 	case TypeObjectBegin:
-		err = p.skipObject()
+		err = p.skipObject(depth + 1)
 
 	case TypeArrayBegin:
-		err = p.skipArray()
+		err = p.skipArray(depth + 1)
 
 	default:
 		err = errors.Errorf("can not skip unexpected symbol of type '%s'", next)
@@ -39,7 +46,7 @@ func (p *Parser) skip(next Type) error {
 	return err
 }
 
-func (p *Parser) skipArray() error {
+func (p *Parser) skipArray(depth int) error {
 	if err := p.consumeArrayBegin(); err != nil {
 		return err
 	}
@@ -56,13 +63,13 @@ func (p *Parser) skipArray() error {
 		}
 
 		// call the consumer
-		if err := p.skip(next); err != nil {
+		if err := p.skip(next, depth); err != nil {
 			return err
 		}
 	}
 }
 
-func (p *Parser) skipObject() error {
+func (p *Parser) skipObject(depth int) error {
 	if err := p.consumeObjectBegin(); err != nil {
 		return err
 	}
@@ -83,7 +90,13 @@ func (p *Parser) skipObject() error {
 			return err
 		}
 
-		if err := p.Skip(); err != nil {
+		// skip the value
+		next, err = p.NextType()
+		if err != nil {
+			return err
+		}
+
+		if err := p.skip(next, depth); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From d65a74529bd9e95928b355af99e803fc7e831bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 03/15] fix: decode escaped control characters and surrogate
 pairs in json strings

A \n in a tag value was decoded as the letter n, and characters outside of
the basic multilingual plane as two replacement characters.
---
 codec/hyperjson/string.go | 52 +++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/codec/hyperjson/string.go b/codec/hyperjson/string.go
index f63bac5..918c646 100644
--- a/codec/hyperjson/string.go
+++ b/codec/hyperjson/string.go
@@ -2,6 +2,7 @@ package hyperjson
 
 import (
 	"github.com/pkg/errors"
+	"unicode/utf16"
 	"unicode/utf8"
 )
 
@@ -24,8 +25,7 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		ch = input[idx]
 
 		if ch != 'u' {
-			// append escaped character as is
-			decoded = append(decoded, ch)
+			decoded = append(decoded, decodeEscapedChar(ch))
 			continue
 		}
 
@@ -37,8 +37,7 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		idx++
 
 		// decode the unicode
-		var err error
-		decoded, err = decodeUnicodeChar(decoded, input[idx:])
+		r, err := decodeHexRune(input[idx:])
 		if err != nil {
 			return nil, err
 		}
@@ -46,12 +45,47 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		// skip 3 of the consumed characters, the last one
 		// will be skipped by the for loop
 		idx += 3
+
+		// characters outside of the basic multilingual plane are
+		// encoded as a pair of escaped surrogates
+		if utf16.IsSurrogate(r) && idx+6 < len(input) && input[idx+1] == '\\' && input[idx+2] == 'u' {
+			second, err := decodeHexRune(input[idx+3:])
+			if err != nil {
+				return nil, err
+			}
+
+			if combined := utf16.DecodeRune(r, second); combined != utf8.RuneError {
+				r = combined
+				idx += 6
+			}
+		}
+
+		decoded = appendRune(decoded, r)
 	}
 
 	return decoded, nil
 }
 
-func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
+// decodes the character following a backslash.
+func decodeEscapedChar(ch byte) byte {
+	switch ch {
+	case 'b':
+		return '\b'
+	case 'f':
+		return '\f'
+	case 'n':
+		return '\n'
+	case 'r':
+		return '\r'
+	case 't':
+		return '\t'
+	default:
+		// use escaped character as is
+		return ch
+	}
+}
+
+func decodeHexRune(input []byte) (rune, error) {
 	var r rune
 	for _, c := range input[:4] {
 		switch {
@@ -62,13 +96,17 @@ func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
 		case 'A' <= c && c <= 'F':
 			c = c - 'A' + 10
 		default:
-			return nil, errors.Errorf("expected hexadecimal character but got '%c'", c)
+			return 0, errors.Errorf("expected hexadecimal character but got '%c'", c)
 		}
 
 		r = r*16 + rune(c)
 	}
 
+	return r, nil
+}
+
+func appendRune(target []byte, r rune) []byte {
 	buf := target[len(target) : len(target)+4]
 	n := utf8.EncodeRune(buf, r)
-	return target[:len(target)+n], nil
+	return target[:len(target)+n]
 }
-- 
2.43.0


From 08e87ef5509801c12d427a3143ca5e74a5099fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 04/15] fix: reject json numbers that do not fit into 64 bits

They were silently wrapped around.
---
 codec/hyperjson/bind.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/codec/hyperjson/bind.go b/codec/hyperjson/bind.go
index e7376d0..c564ada 100644
--- a/codec/hyperjson/bind.go
+++ b/codec/hyperjson/bind.go
@@ -4,6 +4,7 @@ import (
 	"github.com/flachnetz/dd-zipkin-proxy/cache"
 	"github.com/modern-go/reflect2"
 	"github.com/pkg/errors"
+	"math"
 	"unsafe"
 )
 
@@ -21,7 +22,12 @@ func Uint64ValueDecoder(target unsafe.Pointer, p *Parser) error {
 			return errors.Errorf("Unexpected character in number: '%c'", ch)
 		}
 
-		result = result*10 + uint64(ch-'0')
+		digit := uint64(ch - '0')
+		if result > (math.MaxUint64-digit)/10 {
+			return errors.New("number is too large for uint64")
+		}
+
+		result = result*10 + digit
 	}
 
 	// assign to target
-- 
2.43.0


From ffd9e6a0c282a2677bd2067e0d51db5dbd7b64e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 05/15] fix: accept all forms of exponents in json numbers

A number like 1E5 or 1e+5, even in an ignored field, failed the request.
---
 codec/hyperjson/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 352062a..252921e 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -216,7 +216,7 @@ func (p *Parser) readNumber() (Token, error) {
 		for ; n < avail; n++ {
 			ch := p.buffer[p.tail+n]
 
-			if !isCharDigit(ch) && ch != '.' && ch != 'e' {
+			if !isCharDigit(ch) && ch != '.' && ch != 'e' && ch != 'E' && ch != '+' {
 				token := Token{
 					Type:  TypeNumber,
 					Value: p.buffer[p.tail : p.tail+n],
-- 
2.43.0


From 1124cd40a722ea090c200026705724434c9d29d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 06/15] fix: do not allocate more memory than a kafka message
 can fill

A corrupt message of a few bytes could request a string of 2GB.
---
 codec/binary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codec/binary.go b/codec/binary.go
index 0c2190e..5c055dd 100644
--- a/codec/binary.go
+++ b/codec/binary.go
@@ -142,6 +142,11 @@ func readString(r *bytes.Reader) (string, error) {
 		return "", fmt.Errorf("string length out of range: %d", len)
 	}
 
+	// do not allocate memory for data that is not there.
+	if len > int64(r.Len()) {
+		return "", io.ErrUnexpectedEOF
+	}
+
 	if len == 0 {
 		return "", nil
 	}
-- 
2.43.0


From 004aefbbf5ef0a1a515692a6f795cbfb14b1945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 07/15] fix: do not leak binary annotations into later requests

If a field was given twice, the annotations of the first one stayed in the
pooled memory and could become part of a span of another request.
---
 codec/json-v1.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/codec/json-v1.go b/codec/json-v1.go
index 1d629a6..cefd5f4 100644
--- a/codec/json-v1.go
+++ b/codec/json-v1.go
@@ -231,11 +231,13 @@ func spanV1ValueDecoder() hyperjson.ValueDecoder {
 
 		span.Annotations = [4]annotationV1{}
 
-		for idx := range span.BinaryAnnotations {
-			span.BinaryAnnotations[idx] = binaryAnnotationV1{}
+		// also clear elements after the end of the slice
+		binaryAnnotations := span.BinaryAnnotations[:cap(span.BinaryAnnotations)]
+		for idx := range binaryAnnotations {
+			binaryAnnotations[idx] = binaryAnnotationV1{}
 		}
 
-		span.BinaryAnnotations = span.BinaryAnnotations[:0]
+		span.BinaryAnnotations = binaryAnnotations[:0]
 
 		return decoder(target, p)
 	}
-- 
2.43.0


From bed22a8f3c8caf5a4b586ab010765f186914a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 08/15] fix: encode ids as json strings in values that are not
 addressable

json.Marshal(span) encoded the ids as numbers, which can not be decoded again.
---
 proxy/id.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/id.go b/proxy/id.go
index 4ee4f12..5fea5fb 100644
--- a/proxy/id.go
+++ b/proxy/id.go
@@ -67,8 +67,8 @@ func (id Id) String() string {
 	return string(encoded[:])
 }
 
-func (id *Id) MarshalJSON() ([]byte, error) {
-	value := int64(*id)
+func (id Id) MarshalJSON() ([]byte, error) {
+	value := int64(id)
 
 	bytes := [8]byte{
 		byte((value >> 56) & 0xff),
-- 
2.43.0


From 23570fa47c6aff69fc36d44813b88c0a6d02aefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 09/15] fix: consume the errors of the kafka producer

The producer blocked forever after some messages could not be delivered, and
all ingestion with it.
---
 balance/sender.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/balance/sender.go b/balance/sender.go
index cb0af7b..491402c 100644
--- a/balance/sender.go
+++ b/balance/sender.go
@@ -20,9 +20,18 @@ func NewSender(client sarama.Client, topic string) (*Sender, error) {
 		return nil, errors.WithMessage(err, "initialize kafka producer")
 	}
 
+	// the producer stops accepting messages if no one consumes its errors.
+	go logProducerErrors(producer)
+
 	return &Sender{producer, topic}, nil
 }
 
+func logProducerErrors(producer sarama.AsyncProducer) {
+	for err := range producer.Errors() {
+		log.Warnf("Could not send span to kafka: %s", err)
+	}
+}
+
 func (s *Sender) Send(spans <-chan proxy.Span) {
 	for span := range spans {
 		s.sendSpan(span)
-- 
2.43.0


From a6d698cfca2d00bbcde90c7fbdc8e73f5cb56f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 10/15] fix: list buffered spans in the order they were
 received

Once the buffer wrapped around, the newest spans were listed first.
---
 buffer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buffer.go b/buffer.go
index 582e5f3..5deb246 100644
--- a/buffer.go
+++ b/buffer.go
@@ -34,7 +34,9 @@ func (buffer *SpansBuffer) ToSlice() []proxy.Span {
 	defer buffer.lock.Unlock()
 
 	var result []proxy.Span
-	for _, span := range buffer.spans {
+	for idx := range buffer.spans {
+		// the oldest span is the one that will be overwritten next
+		span := buffer.spans[(buffer.position+uint(idx))%uint(len(buffer.spans))]
 		if span.Id != 0 {
 			result = append(result, span)
 		}
-- 
2.43.0


From 80b9d48011468aa3fe7d3b24ba7bde5ef7e4625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 11/15] fix: count traces, not spans, in the meter of discarded
 traces

---
 correct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/correct.go b/correct.go
index b529b74..b9192b0 100644
--- a/correct.go
+++ b/correct.go
@@ -427,7 +427,7 @@ func discardSuspiciousTraces(trees map[Id]*tree, maxSpans int) {
 	}
 
 	metricsSpansDiscarded.Mark(int64(discardSpanCount))
-	metricsTracesDiscarded.Mark(int64(discardSpanCount))
+	metricsTracesDiscarded.Mark(int64(discardTraceCount))
 
 	log.Warnf("Too many spans, discarded %d trace with %d spans", discardTraceCount, discardSpanCount)
 }
-- 
2.43.0


From fe6ecd530fbd7c693e8491f98cd91fe11258cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 12/15] fix: do not wrap the number of spans of a trace

A burst of more than 65535 spans of one trace was not recognized as too large.
---
 correct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/correct.go b/correct.go
index b9192b0..1877f52 100644
--- a/correct.go
+++ b/correct.go
@@ -62,7 +62,7 @@ type tree struct {
 
 	started   time.Time
 	updated   time.Time
-	nodeCount uint16
+	nodeCount int
 }
 
 func newTree(traceId Id) *tree {
-- 
2.43.0


From 82ce5f8c4c3ce4a05d3d3c9391a1fed8d880b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 13/15] fix: keep client timings when merging a span that has
 all timings

They were lost if another part of the same span was received earlier.
---
 correct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/correct.go b/correct.go
index 1877f52..d254ee9 100644
--- a/correct.go
+++ b/correct.go
@@ -513,6 +513,15 @@ func mergeSpansInPlace(spanToUpdate *proxy.Span, newSpan proxy.Span) {
 			spanToUpdate.Timings.SS = newSpan.Timings.SS
 		}
 
+		// keep the client timings of newSpan if there are no better ones
+		if !spanToUpdate.Timings.CS.IsValid() {
+			spanToUpdate.Timings.CS = newSpan.Timings.CS
+		}
+
+		if !spanToUpdate.Timings.CR.IsValid() {
+			spanToUpdate.Timings.CR = newSpan.Timings.CR
+		}
+
 	} else {
 		// merge tags, prefer the ones from the spanToUpdate (client)
 		if spanToUpdate.Service == "" {
-- 
2.43.0


From 5a5f8db22c44fc3dda310ac74266e176f523f568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 14/15] fix: do not report NaN as cache hit rate of an idle
 proxy

NaN can not be encoded to json, so the export of all metrics failed.
---
 cache/cache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index 6eb5390..d6aa800 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -72,6 +72,10 @@ func RegisterCacheMetrics(m metrics.Registry) {
 	metrics.NewRegisteredFunctionalGaugeFloat64("binary.cache.hit.rate", m, func() float64 {
 		hitCount := atomic.SwapUint64(&metricHitCount, 0)
 		missCount := atomic.SwapUint64(&metricMissCount, 0)
+		if hitCount+missCount == 0 {
+			return 0
+		}
+
 		return float64(hitCount) / float64(hitCount+missCount)
 	})
 
-- 
2.43.0


From cd189e6a3cf86d647d71d08381de4b85d3acf19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 15/15] fix: compare all characters of null, true and false

Only the first character was looked at, so that any four or five bytes
starting with it were taken for the literal.
---
 codec/hyperjson/parser.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 252921e..c23dc0d 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -281,15 +281,20 @@ func (p *Parser) read1(tokenType Type) (Token, error) {
 	return Token{Type: tokenType, Value: p.buffer[p.tail-1 : p.tail]}, nil
 }
 
-func (p *Parser) readN(tokenType Type, first byte, n int) (Token, error) {
+func (p *Parser) readN(tokenType Type, literal string) (Token, error) {
+	n := len(literal)
 	if err := p.require(n); err != nil {
 		return errToken, err
 	}
 
-	if ch := p.current(); ch != first {
+	if ch := p.current(); ch != literal[0] {
 		return errToken, p.wrongTypeError(tokenType)
 	}
 
+	if actual := p.buffer[p.tail : p.tail+n]; string(actual) != literal {
+		return errToken, errors.Errorf("expected '%s', but found '%s'", literal, actual)
+	}
+
 	p.tail += n
 
 	return Token{Type: tokenType, Value: p.buffer[p.tail-n : p.tail]}, nil
@@ -304,7 +309,7 @@ func (p *Parser) ReadNull() (Token, error) {
 }
 
 func (p *Parser) readNull() (Token, error) {
-	return p.readN(TypeNull, 'n', 4)
+	return p.readN(TypeNull, "null")
 }
 
 func (p *Parser) ReadBoolean() (Token, error) {
@@ -317,9 +322,9 @@ func (p *Parser) ReadBoolean() (Token, error) {
 
 func (p *Parser) readBoolean() (Token, error) {
 	if p.current() == 't' {
-		return p.readN(TypeBoolean, 't', 4)
+		return p.readN(TypeBoolean, "true")
 	} else {
-		return p.readN(TypeBoolean, 'f', 5)
+		return p.readN(TypeBoolean, "false")
 	}
 }
 
-- 
2.43.0

