From 839ed4ac50744e7c721dbbfdb90380cb16f726e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:02 +0000
Subject: [PATCH 1/5] fix: keep 16-byte loads of ReadAllFast/ReadAllDeltaFast
 inside the stream

The loop limits counted the last, possibly partial, group of integers as
if it held at least four bytes. A partial last group can hold a single
byte, so for counts such as 17, 18, 19, 25 the last bulk load read up to
three bytes beyond the end of the stream, which faults when the stream
ends at the end of mapped memory.
---
 pkg/stream/reader/reader_amd64.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/stream/reader/reader_amd64.go b/pkg/stream/reader/reader_amd64.go
index eb03649..7dd826c 100644
--- a/pkg/stream/reader/reader_amd64.go
+++ b/pkg/stream/reader/reader_amd64.go
@@ -19,6 +19,10 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		decoded = 0
 		dataPos = (count + 3) / 4
 		ctrlLen = dataPos
+		// fullLen is the count of control bytes that describe a full group
+		// of 4 integers. The last group can hold as little as one byte of
+		// data, so it can't be relied on to pad the loads below.
+		fullLen = count / 4
 		// lowest32 is the limit for the count of integers we'll read in
 		// bulk 8 at a time directly from the input stream. We subtract 3
 		// here since we load 16 bytes at a time in the assembly code. If
@@ -34,7 +38,7 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		// since it will load the last 3 (unused) bytes. However, when attempting
 		// to decode the last three groups of 4, each load will need an extra
 		// 1, 2, or 3 bytes (respectively) in order to be considered safe.
-		lowest32 = ((ctrlLen - 3) * 4) &^ 31
+		lowest32 = ((fullLen - 3) * 4) &^ 31
 	)
 
 	for ; decoded < lowest32; decoded += 32 {
@@ -86,9 +90,9 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		ctrlPos += 8
 	}
 
-	// Must be strictly less than the last 4 blocks of integers, since we can't safely
+	// Must be strictly less than the last 4 full blocks of integers, since we can't safely
 	// decode 8 if our ctrl pos starts at the first 4 in the block.
-	for ; ctrlPos < ctrlLen-4; ctrlPos += 2 {
+	for ; ctrlPos < fullLen-4; ctrlPos += 2 {
 		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
 		decode.Get8uint32FastAsm(
 			stream[dataPos:],
@@ -129,6 +133,10 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		decoded = 0
 		dataPos = (count + 3) / 4
 		ctrlLen = dataPos
+		// fullLen is the count of control bytes that describe a full group
+		// of 4 integers. The last group can hold as little as one byte of
+		// data, so it can't be relied on to pad the loads below.
+		fullLen = count / 4
 		// lowest32 is the limit for the count of integers we'll read in
 		// bulk 8 at a time directly from the input stream. We subtract 3
 		// here since we load 16 bytes at a time in the assembly code. If
@@ -144,7 +152,7 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		// since it will load the last 3 (unused) bytes. However, when attempting
 		// to decode the last three groups of 4, each load will need an extra
 		// 1, 2, or 3 bytes (respectively) in order to be considered safe.
-		lowest32 = ((ctrlLen - 3) * 4) &^ 31
+		lowest32 = ((fullLen - 3) * 4) &^ 31
 	)
 
 	for ; decoded < lowest32; decoded += 32 {
@@ -201,9 +209,9 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		prev = nums[31]
 	}
 
-	// Must be strictly less than the last 4 blocks of integers, since we can't safely
+	// Must be strictly less than the last 4 full blocks of integers, since we can't safely
 	// decode 8 if our ctrl pos starts at the first 4 in the block.
-	for ; ctrlPos < ctrlLen-4; ctrlPos += 2 {
+	for ; ctrlPos < fullLen-4; ctrlPos += 2 {
 		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
 		decode.Get8uint32DeltaFastAsm(
 			stream[dataPos:],
-- 
2.43.0


From b2fd8e69d3063f083fe30dba25d302d2e80b5401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:46 +0000
Subject: [PATCH 2/5] fix: make the packages build on architectures other than
 amd64

The fallbacks of Get8uint32Fast and Get8uint32DeltaFast had a stale
signature, and those of ReadAllDeltaFast and WriteAllDeltaFast were
missing, so no non-amd64 build of the library was possible.
---
 pkg/decode/decode_base.go        | 4 ++--
 pkg/stream/reader/reader_base.go | 4 ++++
 pkg/stream/writer/writer_base.go | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/decode/decode_base.go b/pkg/decode/decode_base.go
index decaee5..ee83b9c 100644
--- a/pkg/decode/decode_base.go
+++ b/pkg/decode/decode_base.go
@@ -10,10 +10,10 @@ func GetMode() shared.PerformanceMode {
 	return shared.Normal
 }
 
-func Get8uint32Fast(in []byte, out []uint32, ctrl uint16) int {
+func Get8uint32Fast(in []byte, out []uint32, ctrl uint16) {
 	panic("unreachable")
 }
 
-func Get8uint32DeltaFast(in []byte, out []uint32, ctrl uint16, prev uint32) int {
+func Get8uint32DeltaFast(in []byte, out []uint32, ctrl uint16, prev uint32) {
 	panic("unreachable")
 }
diff --git a/pkg/stream/reader/reader_base.go b/pkg/stream/reader/reader_base.go
index 18a7b86..7a6cdf4 100644
--- a/pkg/stream/reader/reader_base.go
+++ b/pkg/stream/reader/reader_base.go
@@ -5,3 +5,7 @@ package reader
 func ReadAllFast(count int, stream []byte, out []uint32) {
 	panic("unreachable")
 }
+
+func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
+	panic("unreachable")
+}
diff --git a/pkg/stream/writer/writer_base.go b/pkg/stream/writer/writer_base.go
index 6a54520..7e815f0 100644
--- a/pkg/stream/writer/writer_base.go
+++ b/pkg/stream/writer/writer_base.go
@@ -5,3 +5,7 @@ package writer
 func WriteAllFast(in []uint32) []byte {
 	panic("unreachable")
 }
+
+func WriteAllDeltaFast(in []uint32, prev uint32) []byte {
+	panic("unreachable")
+}
-- 
2.43.0


From 9460ab5754e91472c106559da4c679303a22b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:02 +0000
Subject: [PATCH 3/5] fix: report a failing close of the files the tools write

Both gentables and parse_and_write_bench dropped the error of Close, so
a write that the file system only reported when the file was closed left
an incomplete file behind and the tool still exited 0.
---
 pkg/shared/main/gentables.go   | 6 ++++--
 tools/parse_and_write_bench.go | 7 ++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/shared/main/gentables.go b/pkg/shared/main/gentables.go
index c9dc438..07de8ca 100644
--- a/pkg/shared/main/gentables.go
+++ b/pkg/shared/main/gentables.go
@@ -10,7 +10,6 @@ import (
 	"os"
 
 	"github.com/pkg/errors"
-	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
 )
 
 var (
@@ -57,12 +56,15 @@ func main() {
 	if err != nil {
 		log.Fatalf("failed to open: %s %s", *fOut, err)
 	}
-	defer util.SilentClose(fileOut)
 
 	_, err = fileOut.Write(final)
 	if err != nil {
 		log.Fatalf("failed to write generated tables to file")
 	}
+
+	if err = fileOut.Close(); err != nil {
+		log.Fatalf("failed to close: %s %s", *fOut, err)
+	}
 }
 
 func newLineAfter(countPerLine int) func(out io.Writer) {
diff --git a/tools/parse_and_write_bench.go b/tools/parse_and_write_bench.go
index 740771c..ccac4a6 100644
--- a/tools/parse_and_write_bench.go
+++ b/tools/parse_and_write_bench.go
@@ -114,7 +114,6 @@ func main() {
 		if err != nil {
 			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
 		}
-		defer util.SilentClose(outputFile)
 		out = outputFile
 	} else {
 		out = os.Stdout
@@ -124,4 +123,10 @@ func main() {
 	if err != nil {
 		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
 	}
+
+	if *fWriteOut {
+		if err = outputFile.Close(); err != nil {
+			log.Fatalf("failed to close file: %s, %s", readmeFile, err)
+		}
+	}
 }
-- 
2.43.0


From e0c71efb5a4985dfb131f46c9e21977806575051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:05 +0000
Subject: [PATCH 4/5] fix: look for the end of the benchmark block after its
 start

The end of the block was searched for from the start of the README: an
earlier code fence made the tool duplicate everything from that fence
on, and a missing one made it panic.
---
 tools/parse_and_write_bench.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/parse_and_write_bench.go b/tools/parse_and_write_bench.go
index ccac4a6..e56be0b 100644
--- a/tools/parse_and_write_bench.go
+++ b/tools/parse_and_write_bench.go
@@ -99,7 +99,12 @@ func main() {
 		log.Fatalf("couldn't find start sentinel")
 	}
 
-	restStart := bytes.Index(allData, bEnd)
+	blockStart := start + len(bStart)
+	restStart := bytes.Index(allData[blockStart:], bEnd)
+	if restStart < 0 {
+		log.Fatalf("couldn't find end sentinel")
+	}
+	restStart += blockStart
 
 	var final []byte
 	final = append(final, allData[:start]...)
-- 
2.43.0


From 4552caf714fd4e0c9949ed98ecc32f9045d8b221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:16 +0000
Subject: [PATCH 5/5] fix: keep random test numbers within the byte length that
 was drawn

randUint32Range includes both ends, so the ranges of the 1-, 2- and 3-byte
generators reached one number too far: 256, 65536 and 1<<24 take one byte
more than the length that was drawn, and the first was drawn as often as
any 1-byte number.
---
 pkg/util/rand.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/util/rand.go b/pkg/util/rand.go
index 34ee6c8..4fa1f45 100644
--- a/pkg/util/rand.go
+++ b/pkg/util/rand.go
@@ -22,15 +22,15 @@ var (
 	generators = []generator{
 		// 1 byte,
 		func() uint32 {
-			return randUint32Range(0, 1<<8)
+			return randUint32Range(0, 1<<8-1)
 		},
 		// 2 byte,
 		func() uint32 {
-			return randUint32Range(1<<8, 1<<16)
+			return randUint32Range(1<<8, 1<<16-1)
 		},
 		// 3 byte,
 		func() uint32 {
-			return randUint32Range(1<<16, 1<<24)
+			return randUint32Range(1<<16, 1<<24-1)
 		},
 		// 4 byte,
 		func() uint32 {
-- 
2.43.0

