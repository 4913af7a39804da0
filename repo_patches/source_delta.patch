From b96b7562dd33bffebecc414c2251e13c2d619971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 01/59] fix: report failed flush and close of CSV files,
 including transposed ones

---
 flatjsonl/csv_writer.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/csv_writer.go b/flatjsonl/csv_writer.go
index e65f6be..d23a1d8 100644
--- a/flatjsonl/csv_writer.go
+++ b/flatjsonl/csv_writer.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"encoding/csv"
+	"errors"
 	"fmt"
 )
 
@@ -125,15 +126,23 @@ func (c *CSVWriter) ReceiveRow(seq int64, values []Value) error {
 
 // Close flushes rows and closes file.
 func (c *CSVWriter) Close() error {
+	var errs []error
+
 	c.w.Flush()
 
-	for _, tw := range c.transposed {
-		tw.w.Flush()
+	if err := c.w.Error(); err != nil {
+		errs = append(errs, fmt.Errorf("failed to flush CSV file: %w", err))
+	}
 
-		if err := tw.f.Close(); err != nil {
-			println("failed to close transpose CSV file: " + err.Error())
+	for dst, tw := range c.transposed {
+		if err := tw.Close(); err != nil {
+			errs = append(errs, fmt.Errorf("failed to close transposed CSV file for %s: %w", dst, err))
 		}
 	}
 
-	return c.f.Close()
+	if err := c.f.Close(); err != nil {
+		errs = append(errs, fmt.Errorf("failed to close CSV file: %w", err))
+	}
+
+	return errors.Join(errs...)
 }
-- 
2.43.0


From fa1d6bd2967afbede23ee1bde5229b8494784c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 02/59] fix: report failed close of transposed RAW files and
 close all files

---
 flatjsonl/raw_writer.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/flatjsonl/raw_writer.go b/flatjsonl/raw_writer.go
index 0f7916d..823a484 100644
--- a/flatjsonl/raw_writer.go
+++ b/flatjsonl/raw_writer.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"bufio"
+	"errors"
 	"fmt"
 )
 
@@ -115,19 +116,21 @@ func (c *RawWriter) writeRow(row []string) error {
 
 // Close flushes rows and closes file.
 func (c *RawWriter) Close() error {
+	var errs []error
+
 	if err := c.w.Flush(); err != nil {
-		return fmt.Errorf("failed to flush RAW file: %w", err)
+		errs = append(errs, fmt.Errorf("failed to flush RAW file: %w", err))
 	}
 
-	for _, tw := range c.transposed {
-		if err := tw.w.Flush(); err != nil {
-			return fmt.Errorf("failed to flush transposed RAW file: %w", err)
+	for dst, tw := range c.transposed {
+		if err := tw.Close(); err != nil {
+			errs = append(errs, fmt.Errorf("failed to close transposed RAW file for %s: %w", dst, err))
 		}
+	}
 
-		if err := tw.f.Close(); err != nil {
-			println("failed to close transposed RAW file: " + err.Error())
-		}
+	if err := c.f.Close(); err != nil {
+		errs = append(errs, fmt.Errorf("failed to close RAW file: %w", err))
 	}
 
-	return c.f.Close()
+	return errors.Join(errs...)
 }
-- 
2.43.0


From f5544df43f0ee5d70f3d10f20e2eaa709be382a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 03/59] fix: report failed SQLite commit at close

---
 flatjsonl/sqlite_writer.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 7d27ffc..5f76e0e 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"database/sql"
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
@@ -35,7 +36,7 @@ func NewSQLiteWriter(fn string, tableName string, p *Processor) (*SQLiteWriter,
 
 	_, err = db.Exec("pragma journal_mode=off;")
 	if err != nil {
-		return nil, err
+		return nil, errors.Join(err, db.Close())
 	}
 
 	if p.f.SQLMaxCols == 0 {
@@ -257,12 +258,17 @@ _seq_id integer,
 
 // Close commits outstanding transaction and closes database instance.
 func (c *SQLiteWriter) Close() error {
+	var errs []error
+
 	if c.tx != nil {
-		err := c.tx.Commit()
-		if err != nil {
-			println(err.Error())
+		if err := c.commitTx(); err != nil {
+			errs = append(errs, err)
 		}
 	}
 
-	return c.db.Close()
+	if err := c.db.Close(); err != nil {
+		errs = append(errs, fmt.Errorf("failed to close SQLite database: %w", err))
+	}
+
+	return errors.Join(errs...)
 }
-- 
2.43.0


From d7178603516e82e6463588b9689d6a4d6b8dd138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 04/59] fix: merge container types with types of values in any
 order

---
 flatjsonl/type.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/type.go b/flatjsonl/type.go
index c0a3638..2ced31d 100644
--- a/flatjsonl/type.go
+++ b/flatjsonl/type.go
@@ -19,11 +19,24 @@ const (
 // Update merges original type with updated.
 func (t Type) Update(u Type) Type {
 	// Undefined type is replaced by update.
-	if t == TypeAbsent || t == TypeNull {
+	if t == TypeAbsent {
 		return u
 	}
 
+	// Containers do not have values of their own and do not affect the type of values.
 	if t == TypeObject || t == TypeArray {
+		if u == TypeAbsent {
+			return t
+		}
+
+		return u
+	}
+
+	if u == TypeAbsent || u == TypeObject || u == TypeArray {
+		return t
+	}
+
+	if t == TypeNull {
 		return u
 	}
 
@@ -55,5 +68,6 @@ func (t Type) Update(u Type) Type {
 		return TypeFloat
 	}
 
-	panic("don't know how to update " + t + " with " + u)
+	// Other types, for example JSON and Int, do not have anything in common.
+	return TypeString
 }
-- 
2.43.0


From 2b515e4076c95e0c8689b110d4f94085d2129363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 05/59] fix: track zero values from the first value of a key
 for -skip-zero-cols

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index b381051..ae67907 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -84,7 +84,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	key := KeyFromPath(path)
 
 	k.UpdateType(t)
-	k.isZero = k.isZero && isZero
+	k.isZero = isZero
 	k.path = pp
 	k.original = key
 	k.canonical = p.ck(key)
-- 
2.43.0


From 3e6e33fc455a980d455257beaba6fdc56143bc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 06/59] fix: keep keys that only share textual prefix with a
 high cardinality key

---
 flatjsonl/keys.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index ae67907..f5c4d5d 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -434,13 +434,7 @@ func (p *Processor) prepareScannedKeys() {
 		}
 
 		for _, hc := range hcOrig {
-			if k.original == hc {
-				if p.f.ShowJSONSchema {
-					p.jsonSchema.AddKey(k, p.flKeys)
-				}
-			}
-
-			if len(k.original) > len(hc) && strings.HasPrefix(k.original, hc) {
+			if strings.HasPrefix(k.original, hc+".") {
 				p.flKeys.Delete(key)
 
 				deleted[k.original] = true
-- 
2.43.0


From ff401bd870538a9bf517712c36eb78b5b8e547e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 07/59] fix: use string key as a parent of extracted URL

---
 flatjsonl/flattener.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index cf74ed7..bfab4b7 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -226,9 +226,10 @@ func (fv *FastWalker) walkFastJSONString(seq int64, flatPath []byte, pl int, pat
 
 			v, err := p.ParseBytes(us)
 			if err == nil {
-				flatPath = append(flatPath, []byte(".URL")...)
 				pl := len(flatPath)
 
+				flatPath = append(flatPath, []byte(".URL")...)
+
 				if fv.WantPath {
 					fv.WalkFastJSON(seq, flatPath, pl, append(path, "URL"), v)
 				} else {
-- 
2.43.0


From 6fd20d762bc92dafab831edf73a1346c247f9b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 08/59] fix: PostgreSQL dump with number of columns that is a
 multiple of table limit

---
 flatjsonl/pg_dump_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index bd5108e..02de49c 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -196,7 +196,7 @@ func (c *PGDumpWriter) insert(seq int64, tn string, values []string) error {
 	tw := c.csvCopiers[tableName]
 
 	for {
-		if len(values) < c.maxCols {
+		if len(values) <= c.maxCols {
 			row := make([]string, 0, len(values)+1)
 			row = append(row, strconv.Itoa(int(seq)))
 			row = append(row, values...)
-- 
2.43.0


From 461d03114b35b3a1b5ce52939ab1e9ca9e8adb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 09/59] fix: declare type of JSON columns in PostgreSQL dump

---
 flatjsonl/pg_dump_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 02de49c..1d28b3e 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -290,7 +290,7 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 			if _, ok := c.p.cfg.ParseTime[k.original]; ok {
 				tp = " TIMESTAMP"
 			}
-		case TypeAbsent, TypeNull:
+		default:
 			tp = " VARCHAR"
 		}
 
-- 
2.43.0


From 95cf0f93292445bb5d2cb9eebc4c553dd93a5bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:14 +0000
Subject: [PATCH 10/59] fix: panic on negative concurrency

---
 flatjsonl/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 08cccda..3c61661 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -183,7 +183,7 @@ type syncWorker struct {
 // Read reads single file with JSON lines.
 func (rd *Reader) Read(sess *readSession) error {
 	concurrency := rd.Concurrency
-	if concurrency == 0 {
+	if concurrency <= 0 {
 		concurrency = 2 * runtime.NumCPU()
 	}
 
-- 
2.43.0


From 35e7d3fdb1f605cb5e247b66681e013e01cc6e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 11/59] fix: apply -offset-lines when keys are not scanned

---
 flatjsonl/processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 9e1f037..e082b55 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -465,6 +465,7 @@ func (p *Processor) iterateForWriters() error {
 	})
 
 	p.rd.MaxLines = 0
+	p.rd.OffsetLines = int64(p.f.OffsetLines)
 	atomic.StoreInt64(&p.rd.Sequence, 0)
 	atomic.StoreInt64(&p.errors, 0)
 
-- 
2.43.0


From 5aca2585ad59280044c9063faf46193ae59a734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 12/59] fix: endless throttling when memory usage stays above
 the limit

---
 flatjsonl/reader.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 3c61661..03af99a 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -232,14 +232,11 @@ func (rd *Reader) Read(sess *readSession) error {
 	var n int64
 
 	for sess.scanner.Scan() {
-		for {
-			if atomic.LoadInt64(&rd.Processor.throttle) != 0 {
-				atomic.StoreInt64(&rd.Processor.throttle, 0)
-				runtime.GC()
-				time.Sleep(110 * time.Millisecond)
-			} else {
-				break
-			}
+		// The pause does not repeat, because memory usage may never get below the limit.
+		if atomic.LoadInt64(&rd.Processor.throttle) != 0 {
+			atomic.StoreInt64(&rd.Processor.throttle, 0)
+			runtime.GC()
+			time.Sleep(110 * time.Millisecond)
 		}
 
 		if err := sess.scanner.Err(); err != nil {
-- 
2.43.0


From b72dc6ad7e068771ef12487e27cc3e86928295b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 13/59] fix: exact sequence numbers and array indexes above
 99999

---
 flatjsonl/keys.go   | 5 +++--
 flatjsonl/reader.go | 3 +--
 flatjsonl/writer.go | 5 +++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index f5c4d5d..69857e3 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -59,8 +59,9 @@ func (is intOrString) Value() Value {
 	}
 
 	return Value{
-		Type:   TypeFloat,
-		Number: float64(is.i),
+		Type:      TypeFloat,
+		Number:    float64(is.i),
+		RawNumber: strconv.Itoa(is.i),
 	}
 }
 
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 03af99a..55765a5 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -315,8 +315,7 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 	}
 
 	if rd.AddSequence {
-		seqf := float64(seq)
-		w.walker.FnNumber(seq, []byte("._sequence"), 0, []string{"_sequence"}, seqf, []byte(Format(seqf)))
+		w.walker.FnNumber(seq, []byte("._sequence"), 0, []string{"_sequence"}, float64(seq), strconv.AppendInt(nil, seq, 10))
 	}
 
 	line := w.line
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 7caafba..22306da 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -320,8 +320,9 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 		if row == nil {
 			row = make([]Value, len(b.trimmedKeys))
 			row[0] = Value{
-				Type:   TypeFloat,
-				Number: float64(seq),
+				Type:      TypeFloat,
+				Number:    float64(seq),
+				RawNumber: strconv.FormatInt(seq, 10),
 			} // Add sequence.
 			row[1] = k.transposeKey.Value() // Add array idx/object property.
 			transposedRowsIdx[transposeKey] = row
-- 
2.43.0


From 0e4e0138e73e5e89ef3b8349ecbaa70032738fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 14/59] fix: complete list of types of a key for JSON schema in
 any order of lines

---
 flatjsonl/keys.go | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 69857e3..aa5e2eb 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -28,19 +28,22 @@ type flKey struct {
 	parent           uint64
 }
 
-func (k *flKey) UpdateType(u Type) {
-	if len(k.tt) == 0 {
-		k.tt = append(k.tt, u)
-	} else {
-		for _, t := range k.tt {
-			if t != u {
-				k.tt = append(k.tt, u)
-
-				break
-			}
+func (k *flKey) hasType(u Type) bool {
+	for _, t := range k.tt {
+		if t == u {
+			return true
 		}
 	}
 
+	return false
+}
+
+func (k *flKey) UpdateType(u Type) {
+	if !k.hasType(u) {
+		// Copies of the key share the array, so it must not be extended in place.
+		k.tt = append(k.tt[:len(k.tt):len(k.tt)], u)
+	}
+
 	k.t = k.t.Update(u)
 }
 
@@ -141,15 +144,7 @@ func (p *Processor) scanKey(pk, parent uint64, path []string, t Type, isZero boo
 		k = p.initKey(pk, parent, path, t, isZero)
 	}
 
-	updType := false
-
-	if k.t != t {
-		k.UpdateType(t)
-
-		updType = true
-	}
-
-	if updType || (k.isZero && !isZero) {
+	if !k.hasType(t) || (k.isZero && !isZero) {
 		p.mu.Lock()
 		defer p.mu.Unlock()
 
-- 
2.43.0


From 61482e776fb488d4a193f594c3e8e2830fbe9126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:37 +0000
Subject: [PATCH 15/59] fix: close input files and decoders

---
 flatjsonl/reader.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 55765a5..605dca6 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -64,6 +64,8 @@ type readSession struct {
 	fj      *os.File
 	r       io.Reader
 
+	closeDecoder func() error
+
 	setupWalker  func(w *FastWalker)
 	lineStarted  func(seq int64) error
 	lineFinished func(seq int64) error
@@ -72,15 +74,15 @@ type readSession struct {
 func (rs *readSession) Close() {
 	rs.pr.Stop()
 
-	if rs.fj != nil {
-		if err := rs.fj.Close(); err != nil {
-			println("failed to close file:", err.Error())
+	if rs.closeDecoder != nil {
+		if err := rs.closeDecoder(); err != nil {
+			println("failed to close reader:", err.Error())
 		}
 	}
 
-	if c, ok := rs.r.(io.Closer); ok {
-		if err := c.Close(); err != nil {
-			println("failed to close reader:", err.Error())
+	if rs.fj != nil {
+		if err := rs.fj.Close(); err != nil {
+			println("failed to close file:", err.Error())
 		}
 	}
 }
@@ -95,11 +97,12 @@ func (rd *Reader) session(in Input, task string) (sess *readSession, err error)
 
 	var (
 		r   io.Reader
+		fj  *os.File
 		cmp string
 	)
 
 	if in.FileName != "" { //nolint:nestif
-		fj, err := os.Open(in.FileName)
+		fj, err = os.Open(in.FileName)
 		if err != nil {
 			return nil, fmt.Errorf("failed to open file %s: %w", in, err)
 		}
@@ -113,6 +116,7 @@ func (rd *Reader) session(in Input, task string) (sess *readSession, err error)
 		}()
 
 		r = fj
+		sess.fj = fj
 
 		switch {
 		case strings.HasSuffix(in.FileName, ".gz"):
@@ -134,20 +138,28 @@ func (rd *Reader) session(in Input, task string) (sess *readSession, err error)
 	case "gzip":
 		cr.SetLines(nil)
 
-		if r, err = gzip.NewReader(sess.r); err != nil {
+		gr, err := gzip.NewReader(sess.r)
+		if err != nil {
 			return nil, fmt.Errorf("failed to init gzip reader: %w", err)
 		}
 
-		lines = progress.NewCountingReader(r)
+		sess.closeDecoder = gr.Close
+		lines = progress.NewCountingReader(gr)
 		sess.r = lines
 	case "zst":
 		cr.SetLines(nil)
 
-		if r, err = zstd.NewReader(sess.r); err != nil {
+		zr, err := zstd.NewReader(sess.r)
+		if err != nil {
 			return nil, fmt.Errorf("failed to init zstd reader: %w", err)
 		}
 
-		lines = progress.NewCountingReader(r)
+		sess.closeDecoder = func() error {
+			zr.Close()
+
+			return nil
+		}
+		lines = progress.NewCountingReader(zr)
 		sess.r = lines
 	}
 
-- 
2.43.0


From 4729b221c5f7b113664daca70d89152c1653f158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 16/59] fix: close output files that are compressed or failed
 to flush

---
 flatjsonl/pg_dump_writer.go | 13 ++++++-------
 flatjsonl/writer.go         | 17 +++++++++++++++--
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 1d28b3e..b9bdb2e 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -3,6 +3,7 @@ package flatjsonl
 import (
 	"bytes"
 	"encoding/csv"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -67,12 +68,14 @@ func NewPGDumpWriter(fn string, tableName string, p *Processor) (*PGDumpWriter,
 
 		switch {
 		case strings.HasSuffix(fn, ".gz"):
-			c.f = gzip.NewWriter(c.f)
+			c.f = compressedFile{WriteCloser: gzip.NewWriter(c.f), file: c.f}
 		case strings.HasSuffix(fn, ".zst"):
-			c.f, err = zstd.NewWriter(c.f, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
+			zw, err := zstd.NewWriter(c.f, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
 			if err != nil {
 				return nil, err
 			}
+
+			c.f = compressedFile{WriteCloser: zw, file: c.f}
 		}
 	}
 
@@ -318,9 +321,5 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 
 // Close flushes CSV and closes output file.
 func (c *PGDumpWriter) Close() error {
-	if err := c.flush(); err != nil {
-		return err
-	}
-
-	return c.f.Close()
+	return errors.Join(c.flush(), c.f.Close())
 }
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 22306da..659b7e3 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -359,6 +359,17 @@ func (nopWriter) Close() error {
 	return nil
 }
 
+// compressedFile closes both compressor and file.
+type compressedFile struct {
+	io.WriteCloser
+
+	file io.Closer
+}
+
+func (c compressedFile) Close() error {
+	return errors.Join(c.WriteCloser.Close(), c.file.Close())
+}
+
 type fileWriter struct {
 	f  io.WriteCloser
 	fn string
@@ -384,14 +395,16 @@ func newFileWriter(fn string) (*fileWriter, error) {
 		switch {
 		case strings.HasSuffix(fn, ".gz"):
 			c.compressed = progress.NewCountingWriter(c.f)
-			c.f = gzip.NewWriter(c.compressed)
+			c.f = compressedFile{WriteCloser: gzip.NewWriter(c.compressed), file: c.f}
 		case strings.HasSuffix(fn, ".zst"):
 			c.compressed = progress.NewCountingWriter(c.f)
 
-			c.f, err = zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
+			zw, err := zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
 			if err != nil {
 				return nil, err
 			}
+
+			c.f = compressedFile{WriteCloser: zw, file: c.f}
 		}
 	}
 
-- 
2.43.0


From e2f6fed398457df56951c758b56a88c6acf7137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 17/59] fix: keep row of a line that could not be walked and do
 not lose other failures

---
 flatjsonl/reader.go | 47 +++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 605dca6..bd9ab01 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -311,12 +311,12 @@ func (rd *Reader) Read(sess *readSession) error {
 	return sess.scanner.Err()
 }
 
-func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
+func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) (err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			println("panic on line:", string(w.line))
-			println(fmt.Sprintf("%v", r))
 			println(string(debug.Stack()))
+
+			err = fmt.Errorf("panic on line %d: %v", n, r) //nolint:goerr113
 		}
 	}()
 
@@ -330,16 +330,33 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 		w.walker.FnNumber(seq, []byte("._sequence"), 0, []string{"_sequence"}, float64(seq), strconv.AppendInt(nil, seq, 10))
 	}
 
+	rd.walkLine(w, seq)
+
+	if sess.lineFinished != nil {
+		if err := sess.lineFinished(seq); err != nil {
+			return fmt.Errorf("failure in line finished callback, line %d: %w", n, err)
+		}
+	}
+
+	return nil
+}
+
+// walkLine parses line and visits its values, a failure affects only this line.
+func (rd *Reader) walkLine(w *syncWorker, seq int64) {
+	defer func() {
+		if r := recover(); r != nil {
+			atomic.AddInt64(&rd.Processor.errors, 1)
+
+			println("panic on line:", string(w.line))
+			println(fmt.Sprintf("%v", r))
+			println(string(debug.Stack()))
+		}
+	}()
+
 	line := w.line
-	if len(line) < 2 || line[0] != '{' { //nolint:nestif
+	if len(line) < 2 || line[0] != '{' {
 		if line = rd.prefixedLine(seq, line, w.walker.FnString); line == nil {
-			if sess.lineFinished != nil {
-				if err := sess.lineFinished(seq); err != nil {
-					return fmt.Errorf("failure in line finished callback, line %d: %w", n, err)
-				}
-			}
-
-			return nil
+			return
 		}
 	}
 
@@ -365,14 +382,6 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 			w.walker.WalkFastJSON(seq, flatPath, 0, path, pv)
 		}
 	}
-
-	if sess.lineFinished != nil {
-		if err := sess.lineFinished(seq); err != nil {
-			return fmt.Errorf("failure in line finished callback, line %d: %w", n, err)
-		}
-	}
-
-	return nil
 }
 
 func (rd *Reader) prefixedLine(seq int64, line []byte, walkFn func(seq int64, flatPath []byte, pl int, path []string, value []byte) extractor) []byte {
-- 
2.43.0


From 4cf49e4a461e2b77b223811890f498eae6f99186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 18/59] fix: type of a column that is merged from several keys

---
 flatjsonl/keys.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index aa5e2eb..aa32fb0 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -672,8 +672,7 @@ func (p *Processor) prepareKeys() {
 	for i, pk := range p.keys {
 		if pk.transposeDst == "" {
 			if j, ok := keyExists[pk.replaced]; ok {
-				pk.UpdateType(p.keys[i].t)
-				p.keys[i] = pk
+				keys[j].UpdateType(pk.t)
 				keyMap[i] = j
 
 				continue
-- 
2.43.0


From f0da1445718b70f31d1ec26aa8fdeee10bbacdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 19/59] fix: do not apply children limit to top level keys and
 line prefix

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index aa32fb0..39b67ec 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -118,7 +118,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 		return existing
 	}
 
-	if p.f.ChildrenLimit > 0 && len(k.path) > 1 {
+	if p.f.ChildrenLimit > 0 && len(k.path) > 1 && k.parent != 0 {
 		p.collectKeyCardinality(k)
 	}
 
-- 
2.43.0


From fe5f4f48bd39e6b508fbd5532e8e78314d2c6b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 20/59] fix: do not scan arrays of high cardinality parents

---
 flatjsonl/flattener.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index bfab4b7..d8deddc 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -97,7 +97,9 @@ func (fv *FastWalker) walkFastJSONArray(seq int64, flatPath []byte, pl int, path
 	}
 
 	if fv.FnArrayStop != nil {
-		fv.FnArrayStop(seq, flatPath, pl, path)
+		if fv.FnArrayStop(seq, flatPath, pl, path) {
+			return
+		}
 	}
 
 	pl = len(flatPath)
-- 
2.43.0


From f89a084926a2ec68a13d8303e7aa0d5a3a88fc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 21/59] fix: transpose property names that resemble array
 indexes or are empty

---
 flatjsonl/keys.go | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 39b67ec..3d58123 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -69,7 +69,7 @@ func (is intOrString) Value() Value {
 }
 
 func (is intOrString) String() string {
-	if is.s != "" {
+	if is.t == TypeString {
 		return is.s
 	}
 
@@ -193,26 +193,11 @@ func (p *Processor) collectKeyCardinality(k flKey) {
 }
 
 func scanTransposedKey(dst string, tk string, k *flKey) {
-	trimmed := strings.TrimPrefix(k.original, tk)
-	if len(trimmed) == 0 {
-		return
-	}
-
-	if trimmed[0] == '.' {
-		trimmed = trimmed[1:]
-	}
+	trimmed := strings.TrimPrefix(strings.TrimPrefix(k.original, tk), ".")
 
 	// Array.
-	if trimmed[0] == '[' {
-		pos := strings.Index(trimmed, "]")
-		idx := trimmed[1:pos]
-
-		i, err := strconv.Atoi(idx)
-		if err != nil {
-			panic("BUG: failed to parse idx " + idx + ": " + err.Error())
-		}
-
-		trimmed = trimmed[pos+1:]
+	if i, tail, ok := scanArrayIndex(trimmed); ok {
+		trimmed = tail
 		k.transposeKey = intOrString{t: TypeInt, i: i}
 	} else {
 		if pos := strings.Index(trimmed, "."); pos > 0 {
@@ -232,6 +217,25 @@ func scanTransposedKey(dst string, tk string, k *flKey) {
 	k.transposeTrimmed = trimmed
 }
 
+// scanArrayIndex splits leading array index, there is none if property name of an object only resembles it.
+func scanArrayIndex(s string) (i int, tail string, ok bool) {
+	if !strings.HasPrefix(s, "[") {
+		return 0, "", false
+	}
+
+	idx, tail, ok := strings.Cut(s[1:], "]")
+	if !ok || (tail != "" && tail[0] != '.') {
+		return 0, "", false
+	}
+
+	i, err := strconv.Atoi(idx)
+	if err != nil || strconv.Itoa(i) != idx || i < 0 {
+		return 0, "", false
+	}
+
+	return i, tail, true
+}
+
 type hasher struct {
 	digest *xxhash.Digest
 }
-- 
2.43.0


From ea9f52220b117c2b02b4db5f36b19436c1b86e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 22/59] fix: index type of a table transposed from both arrays
 and objects

---
 flatjsonl/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 659b7e3..68bf338 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -164,7 +164,7 @@ func (b *baseWriter) setupKeys(keys []flKey) {
 		tw := b.transposedWriter(key.transposeDst, keys)
 
 		tw.keyIndexes = append(tw.keyIndexes, i)
-		tw.indexType = key.transposeKey.t
+		tw.indexType = tw.indexType.Update(key.transposeKey.t)
 
 		ik, ok := tw.trimmedKeys[key.transposeTrimmed]
 		if !ok {
-- 
2.43.0


From bf05a77294a0e6d7b7cce8862a218c75c80d3260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 23/59] fix: pick the most specific transpose prefix instead of
 a random one

---
 flatjsonl/keys.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 3d58123..53c0bac 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -94,14 +94,19 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	k.canonical = p.ck(key)
 	k.parent = parent
 
-	for tk, dst := range p.cfg.Transpose {
-		if len(k.original) > len(tk) && strings.HasPrefix(k.original, tk) {
-			scanTransposedKey(dst, tk, &k)
+	// The most specific prefix wins.
+	transposePrefix, found := "", false
 
-			break
+	for tk := range p.cfg.Transpose {
+		if len(k.original) > len(tk) && strings.HasPrefix(k.original, tk) && (!found || len(tk) > len(transposePrefix)) {
+			transposePrefix, found = tk, true
 		}
 	}
 
+	if found {
+		scanTransposedKey(p.cfg.Transpose[transposePrefix], transposePrefix, &k)
+	}
+
 	for r, x := range p.extractRegex {
 		if r.MatchString(key) {
 			k.extractor = x
-- 
2.43.0


From 97f49a2a755824abc2845d7b3bce319482c23bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:17 +0000
Subject: [PATCH 24/59] fix: transpose values below a property with empty name

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 53c0bac..1f9427d 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -205,7 +205,7 @@ func scanTransposedKey(dst string, tk string, k *flKey) {
 		trimmed = tail
 		k.transposeKey = intOrString{t: TypeInt, i: i}
 	} else {
-		if pos := strings.Index(trimmed, "."); pos > 0 {
+		if pos := strings.Index(trimmed, "."); pos >= 0 {
 			k.transposeKey = intOrString{t: TypeString, s: trimmed[0:pos]}
 			trimmed = trimmed[pos:]
 		} else {
-- 
2.43.0


From 5c94aea0511c35da27cf0992dd86e29779525a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 25/59] fix: keep column and stable name of keys that differ in
 case

---
 flatjsonl/keys.go | 50 +++++++++++++++++++++++++++--------------------
 flatjsonl/type.go |  9 +++++++--
 2 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 1f9427d..594bb42 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -411,7 +411,8 @@ func (p *Processor) prepareScannedKeys() {
 	}
 
 	var (
-		deleted = map[string]bool{}
+		// scalars are original keys by canonical key.
+		scalars = map[string]string{}
 		hcOrig  []string
 	)
 
@@ -432,9 +433,7 @@ func (p *Processor) prepareScannedKeys() {
 	})
 
 	p.flKeys.Range(func(key uint64, k flKey) bool {
-		if k.t == TypeObject || k.t == TypeArray {
-			deleted[k.original] = true
-
+		if k.t.isContainer() {
 			return true
 		}
 
@@ -442,12 +441,14 @@ func (p *Processor) prepareScannedKeys() {
 			if strings.HasPrefix(k.original, hc+".") {
 				p.flKeys.Delete(key)
 
-				deleted[k.original] = true
-
 				return true
 			}
 		}
 
+		if s, ok := scalars[k.canonical]; !ok || k.original < s {
+			scalars[k.canonical] = k.original
+		}
+
 		if p.f.ShowKeysHier {
 			p.keyHierarchy.Add(k.path)
 		}
@@ -462,8 +463,9 @@ func (p *Processor) prepareScannedKeys() {
 	var newFlKeys []string
 
 	for _, key := range p.flKeysList {
-		if !deleted[key] {
-			newFlKeys = append(newFlKeys, key)
+		// Key that was found first may be a container, or may be spelled differently from run to run.
+		if s, ok := scalars[p.ck(key)]; ok {
+			newFlKeys = append(newFlKeys, s)
 		}
 	}
 
@@ -503,30 +505,36 @@ func (p *Processor) flKeysInit() {
 		}
 	}
 
+	canonicalKeys := make(map[string]flKey, len(p.canonicalKeys))
+
 	p.flKeys.Range(func(_ uint64, value flKey) bool {
 		if _, phc := p.parentHighCardinality.Load(value.parent); phc {
 			// Skip keys with high cardinality parents.
 			return true
 		}
 
-		v := p.canonicalKeys[value.canonical]
-		value.isZero = value.isZero && v.isZero
-		value.t = v.t.Update(value.t)
+		v, ok := canonicalKeys[value.canonical]
+		if ok {
+			isZero, t := value.isZero && v.isZero, v.t.Update(value.t)
+
+			// Same spelling of a key is used regardless of the order, containers do not have values.
+			if value.t.isContainer() != v.t.isContainer() {
+				if value.t.isContainer() {
+					value = v
+				}
+			} else if v.original < value.original {
+				value = v
+			}
+
+			value.isZero, value.t = isZero, t
+		}
 
-		p.canonicalKeys[value.canonical] = value
+		canonicalKeys[value.canonical] = value
 
 		return true
 	})
 
-	for _, k := range p.flKeysList {
-		if len(p.cfg.Transpose) > 0 {
-			for tk := range p.cfg.Transpose {
-				if strings.HasPrefix(k, tk) {
-					break
-				}
-			}
-		}
-	}
+	p.canonicalKeys = canonicalKeys
 }
 
 func (p *Processor) iterateIncludeKeys() {
diff --git a/flatjsonl/type.go b/flatjsonl/type.go
index 2ced31d..45f4f40 100644
--- a/flatjsonl/type.go
+++ b/flatjsonl/type.go
@@ -16,6 +16,11 @@ const (
 	TypeAbsent = Type("")
 )
 
+// isContainer is true for types that do not have values of their own.
+func (t Type) isContainer() bool {
+	return t == TypeObject || t == TypeArray
+}
+
 // Update merges original type with updated.
 func (t Type) Update(u Type) Type {
 	// Undefined type is replaced by update.
@@ -24,7 +29,7 @@ func (t Type) Update(u Type) Type {
 	}
 
 	// Containers do not have values of their own and do not affect the type of values.
-	if t == TypeObject || t == TypeArray {
+	if t.isContainer() {
 		if u == TypeAbsent {
 			return t
 		}
@@ -32,7 +37,7 @@ func (t Type) Update(u Type) Type {
 		return u
 	}
 
-	if u == TypeAbsent || u == TypeObject || u == TypeArray {
+	if u == TypeAbsent || u.isContainer() {
 		return t
 	}
 
-- 
2.43.0


From 90166e34ec7f0dd5f7065bcdfec9e76c8c55f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 26/59] fix: single key finds the same values as a full run and
 does not fail on empty path segments

---
 flatjsonl/flattener.go | 33 ++++++++++++++++++++++++++++-----
 flatjsonl/processor.go | 30 +++++++++++++++++-------------
 flatjsonl/reader.go    | 24 +++---------------------
 3 files changed, 48 insertions(+), 39 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index d8deddc..fcee10e 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -36,6 +36,9 @@ type FastWalker struct {
 	ExtractStrings bool
 	KeepJSON       map[string]bool
 
+	// only limits traversal to a single key, if not empty.
+	only []byte
+
 	buf []byte
 }
 
@@ -49,12 +52,24 @@ func (fv *FastWalker) configure(p *Processor) {
 	}
 }
 
-// GetKey walks into a single key.
-func (fv *FastWalker) GetKey(seq int64, flatPath []byte, path []string, v *fastjson.Value) {
-	vv := v.Get(path...)
-	if vv != nil {
-		fv.WalkFastJSON(seq, flatPath, 0, path, vv)
+// GetKey walks into a single flat key.
+func (fv *FastWalker) GetKey(seq int64, flatPath []byte, path []string, key []byte, v *fastjson.Value) {
+	fv.only = key
+	fv.WalkFastJSON(seq, flatPath, 0, path, v)
+	fv.only = nil
+}
+
+// skip is true if neither the key nor its children are needed.
+func (fv *FastWalker) skip(flatPath []byte) bool {
+	if len(fv.only) == 0 {
+		return false
 	}
+
+	if !bytes.HasPrefix(fv.only, flatPath) {
+		return true
+	}
+
+	return len(fv.only) > len(flatPath) && fv.only[len(flatPath)] != '.'
 }
 
 // WalkFastJSON iterates fastjson.Value JSON structure.
@@ -119,6 +134,10 @@ func (fv *FastWalker) walkFastJSONArray(seq int64, flatPath []byte, pl int, path
 		flatPath := append(flatPath, '.')
 		flatPath = append(flatPath, k...)
 
+		if fv.skip(flatPath) {
+			continue
+		}
+
 		if fv.WantPath {
 			fv.WalkFastJSON(seq, flatPath, pl, append(path, k), v)
 		} else {
@@ -154,6 +173,10 @@ func (fv *FastWalker) walkFastJSONObject(seq int64, flatPath []byte, pl int, pat
 		flatPath := append(flatPath, '.')
 		flatPath = append(flatPath, key...)
 
+		if fv.skip(flatPath) {
+			return
+		}
+
 		if fv.WantPath {
 			fv.WalkFastJSON(seq, flatPath, pl, append(path, string(key)), v)
 		} else {
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index e082b55..02c58ca 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -498,6 +498,8 @@ func (p *Processor) iterateForWriters() error {
 		return true
 	})
 
+	p.rd.singleKeyFlat = singleKey(p, pkIndex)
+
 	wi := newWriteIterator(p, pkIndex, pkDst, pkTimeFmt)
 
 	if err := p.w.SetupKeys(p.keys); err != nil {
@@ -536,6 +538,21 @@ func (p *Processor) iterateForWriters() error {
 	return wi.waitPending()
 }
 
+// singleKey returns flat key if values of no other keys are needed.
+func singleKey(p *Processor, pkIndex map[uint64]int) []byte {
+	if len(pkIndex) != 1 || p.f.ExtractStrings || len(p.extractRegex) > 0 {
+		return nil
+	}
+
+	for pk := range pkIndex {
+		k, _ := p.flKeys.Load(pk)
+
+		return []byte(k.original)
+	}
+
+	return nil
+}
+
 type lineBuf struct {
 	h      *hasher
 	values []Value
@@ -546,13 +563,6 @@ func newWriteIterator(p *Processor, pkIndex map[uint64]int, pkDst map[uint64]str
 	wi.pending = xsync.NewMapOf[int64, *lineBuf]()
 	wi.finished = &sync.Map{}
 
-	if len(p.includeKeys) == 1 {
-		for _, i := range p.includeKeys {
-			kk := p.keys[i]
-			wi.singleKeyHash = newHasher().hashBytes([]byte("." + strings.Join(kk.path, ".")))
-		}
-	}
-
 	wi.lineBufPool = sync.Pool{
 		New: func() interface{} {
 			return &lineBuf{
@@ -652,8 +662,6 @@ type writeIterator struct {
 	finished *sync.Map
 
 	inProgress int64
-
-	singleKeyHash uint64
 }
 
 func (wi *writeIterator) setupWalker(w *FastWalker) {
@@ -707,10 +715,6 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 }
 
 func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
-	if wi.singleKeyHash != 0 && pk != wi.singleKeyHash {
-		return
-	}
-
 	i, ok := wi.pkIndex[pk]
 	if !ok {
 		return
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index bd9ab01..b995f5c 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -52,8 +52,8 @@ type Reader struct {
 	MatchPrefix    *regexp.Regexp
 	ExtractStrings bool
 
+	// singleKeyFlat is a flat key that is the only source of values.
 	singleKeyFlat []byte
-	singleKeyPath []string
 
 	totalBytes int64
 }
@@ -223,24 +223,6 @@ func (rd *Reader) Read(sess *readSession) error {
 		doLineErr error
 	)
 
-	if len(rd.Processor.includeKeys) == 1 && !rd.Processor.f.ExtractStrings {
-		for _, i := range rd.Processor.includeKeys {
-			kk := rd.Processor.keys[i]
-			path := make([]string, 0, len(kk.path))
-
-			for _, s := range kk.path {
-				if s[0] == '[' && s[len(s)-1] == ']' {
-					s = s[1 : len(s)-1]
-				}
-
-				path = append(path, s)
-			}
-
-			rd.singleKeyPath = path
-			rd.singleKeyFlat = []byte("." + strings.Join(kk.path, "."))
-		}
-	}
-
 	var n int64
 
 	for sess.scanner.Scan() {
@@ -376,8 +358,8 @@ func (rd *Reader) walkLine(w *syncWorker, seq int64) {
 			rd.OnError(fmt.Errorf("malformed JSON at line %d: %w: %s", seq, err, string(line)))
 		}
 	} else {
-		if rd.singleKeyPath != nil {
-			w.walker.GetKey(seq, rd.singleKeyFlat, rd.singleKeyPath, pv)
+		if rd.singleKeyFlat != nil {
+			w.walker.GetKey(seq, flatPath, path, rd.singleKeyFlat, pv)
 		} else {
 			w.walker.WalkFastJSON(seq, flatPath, 0, path, pv)
 		}
-- 
2.43.0


From 05f978da66346ee65a1ecd2e0600b2f3920be727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:35 +0000
Subject: [PATCH 27/59] fix: panic on empty key hierarchy

---
 flatjsonl/processor.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 02c58ca..e7eb7f4 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -334,9 +334,12 @@ func (p *Processor) maybeShowKeys() error {
 	}
 
 	if p.f.ShowKeysHier {
-		b, err := assertjson.MarshalIndentCompact(
-			p.keyHierarchy.Hierarchy().(map[string]interface{})["."], //nolint:errcheck
-			"", " ", 120)
+		hierarchy := []interface{}{} // Empty if there are no keys.
+		if h, ok := p.keyHierarchy.Hierarchy().(map[string]interface{}); ok {
+			hierarchy = h["."].([]interface{}) //nolint:errcheck
+		}
+
+		b, err := assertjson.MarshalIndentCompact(hierarchy, "", " ", 120)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From b024c0962c39b5459fc924ba6bf8d65bcb76c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 28/59] fix: JSON schema of keys that hold both containers and
 scalars

---
 flatjsonl/flattener.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index fcee10e..8522b65 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -349,17 +349,20 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 	}
 
 	parentSchema := j
-	parentType := TypeObject
+	parentIsArray := false
 
 	for i := len(parents) - 1; i >= 0; i-- {
 		pk := parents[i]
 		name := pk.path[len(pk.path)-1]
 
-		if i != 0 && pk.t == TypeString {
-			pk.t = TypeObject
-		}
+		// Parent may have other types too.
+		if parentIsArray && strings.HasPrefix(name, "[") {
+			if parentSchema.Items == nil {
+				parentSchema.Items = &jsonSchema{}
+			}
 
-		if parentType == TypeObject {
+			parentSchema = parentSchema.Items
+		} else {
 			if parentSchema.Properties == nil {
 				parentSchema.Properties = make(map[string]*jsonSchema)
 			}
@@ -371,16 +374,9 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 
 			parentSchema.Properties[name] = property
 			parentSchema = property
-
-			parentType = pk.t
-		} else if parentType == TypeArray {
-			if parentSchema.Items == nil {
-				parentSchema.Items = &jsonSchema{}
-			}
-
-			parentSchema = parentSchema.Items
-			parentType = pk.t
 		}
+
+		parentIsArray = pk.hasType(TypeArray)
 	}
 
 	for _, t := range k.tt {
-- 
2.43.0


From 7b366b884e2ee57006a19bce6968546756f6240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 29/59] fix: compare headers in csvequals when there are no
 rows

---
 cmd/csvequals/main.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/csvequals/main.go b/cmd/csvequals/main.go
index eb96685..552f02d 100644
--- a/cmd/csvequals/main.go
+++ b/cmd/csvequals/main.go
@@ -119,6 +119,18 @@ func main() {
 			keys1 = append(keys1, r1...)
 			keys2 = append(keys2, r2...)
 
+			for _, k := range keys1 {
+				m1[k] = ""
+			}
+
+			for _, k := range keys2 {
+				m2[k] = ""
+			}
+
+			if diff := mapDiff(m1, m2); len(diff) > 0 {
+				log.Fatalln("found diff in header:\n" + strings.Join(diff, "\n"))
+			}
+
 			continue
 		}
 
-- 
2.43.0


From 49a5ed4b612434d8957c35ca9c8fc34db0be5e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 30/59] fix: panic on keys that can not be converted to snake
 case

---
 flatjsonl/keys.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 594bb42..6ac8819 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -770,20 +770,19 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	snk := strings.Trim(ski, "[]")
 
 	for {
-		if len(snk) == 0 {
-			panic("BUG: empty snk for '" + origKey + "'")
-		}
-
-		if stored, ok := p.replaceByKey[snk]; (!ok || origKey == stored) && (snk[0] == '_' || unicode.IsLetter(rune(snk[0]))) {
-			p.replaceByKey[snk] = origKey
-			origKey = snk
+		// Name is empty if the segment does not have suitable characters.
+		if len(snk) != 0 && (snk[0] == '_' || unicode.IsLetter(rune(snk[0]))) {
+			if stored, ok := p.replaceByKey[snk]; !ok || origKey == stored {
+				p.replaceByKey[snk] = origKey
+				origKey = snk
 
-			break
+				break
+			}
 		}
 
 		i--
 
-		if i == 0 {
+		if i <= 0 {
 			break
 		}
 
-- 
2.43.0


From 1fea1c183eef0694ca130b80874ae7867dfcc153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:58 +0000
Subject: [PATCH 31/59] fix: names of replaced keys do not depend on the order
 of scanning

---
 flatjsonl/keys.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 6ac8819..187fa03 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -655,14 +655,27 @@ func (p *Processor) prepareKeys() {
 	for origKey, i := range p.includeKeys {
 		sorted = append(sorted, ik{orig: origKey, idx: i})
 	}
-	// Sorting by index first to have deterministic order.
-	sort.Slice(sorted, func(i, j int) bool {
-		return sorted[i].idx < sorted[j].idx
-	})
+
+	listed := make(map[string]bool, len(p.cfg.IncludeKeys))
+	for _, k := range p.cfg.IncludeKeys {
+		listed[k] = true
+	}
 
 	// Sorting to put shorter keys first to have better replaces.
-	sort.SliceStable(sorted, func(i, j int) bool {
-		return len(sorted[i].orig) < len(sorted[j].orig)
+	// Index of scanned keys can not be used, because it depends on the order in which keys were found.
+	sort.Slice(sorted, func(i, j int) bool {
+		a, b := sorted[i], sorted[j]
+
+		switch {
+		case len(a.orig) != len(b.orig):
+			return len(a.orig) < len(b.orig)
+		case listed[a.orig] != listed[b.orig]:
+			return listed[a.orig]
+		case listed[a.orig]:
+			return a.idx < b.idx
+		default:
+			return a.orig < b.orig
+		}
 	})
 
 	for _, v := range sorted {
-- 
2.43.0


From 44d6e48a6cf83b5acf474a0336c24b38ef8f0fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:01 +0000
Subject: [PATCH 32/59] fix: panic, order dependency and collisions of limited
 key names

---
 flatjsonl/keys.go      | 20 ++++++++++++++++----
 flatjsonl/processor.go |  1 +
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 187fa03..b8f8fbc 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -638,6 +638,7 @@ func (p *Processor) prepareKeys() {
 
 	p.replaceKeys = make(map[string]string)
 	p.replaceByKey = make(map[string]string)
+	p.limitedKeys = make(map[string]string)
 
 	for k, r := range p.cfg.ReplaceKeys {
 		mk := p.ck(k)
@@ -730,6 +731,20 @@ func (p *Processor) prepareKeys() {
 	p.keys = keys
 }
 
+// limitKey truncates name and adds a number to tell it from other truncated names.
+func (p *Processor) limitKey(name string) string {
+	for i := 0; ; i++ {
+		is := strconv.Itoa(i)
+		limited := name[:max(p.f.KeyLimit-len(is), 0)] + is
+
+		if full, ok := p.limitedKeys[limited]; !ok || full == name {
+			p.limitedKeys[limited] = name
+
+			return limited
+		}
+	}
+}
+
 func (p *Processor) prepareKey(origKey string) (kk string) {
 	ck := p.ck(origKey)
 
@@ -739,10 +754,7 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 
 	defer func() {
 		if p.f.KeyLimit > 0 && len(kk) > p.f.KeyLimit {
-			i := p.includeKeys[kk]
-			is := strconv.Itoa(i)
-
-			kk = kk[0:(p.f.KeyLimit-len(is))] + is
+			kk = p.limitKey(kk)
 
 			p.replaceKeys[ck] = kk
 		}
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index e7eb7f4..96f1953 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -45,6 +45,7 @@ type Processor struct {
 
 	replaceKeys  map[string]string
 	replaceByKey map[string]string
+	limitedKeys  map[string]string
 
 	// keys are ordered by replaced column names, indexes match values of includeKeys.
 	keys []flKey
-- 
2.43.0


From 5b5ad3ead7d85a05cde731d4b8474b9c6f2d479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:25 +0000
Subject: [PATCH 33/59] fix: stable selection of extractor when multiple
 expressions match

---
 flatjsonl/keys.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index b8f8fbc..877fe93 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -107,13 +107,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 		scanTransposedKey(p.cfg.Transpose[transposePrefix], transposePrefix, &k)
 	}
 
-	for r, x := range p.extractRegex {
-		if r.MatchString(key) {
-			k.extractor = x
-
-			break
-		}
-	}
+	k.extractor = p.keyExtractor(key)
 
 	p.mu.Lock()
 	defer p.mu.Unlock()
@@ -138,6 +132,22 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	return k
 }
 
+// keyExtractor finds extractor for a key, selection is stable if multiple expressions match.
+func (p *Processor) keyExtractor(key string) extractor {
+	var (
+		reg string
+		res extractor
+	)
+
+	for r, x := range p.extractRegex {
+		if r.MatchString(key) && (res == nil || r.String() < reg) {
+			reg, res = r.String(), x
+		}
+	}
+
+	return res
+}
+
 func (p *Processor) scanKey(pk, parent uint64, path []string, t Type, isZero bool) (_ extractor, stop bool) {
 	if _, phc := p.parentHighCardinality.Load(parent); phc {
 		return nil, true
@@ -493,13 +503,7 @@ func (p *Processor) flKeysInit() {
 				canonical: p.ck(key),
 			}
 
-			for r, x := range p.extractRegex {
-				if r.MatchString(key) {
-					k.extractor = x
-
-					break
-				}
-			}
+			k.extractor = p.keyExtractor(key)
 
 			p.flKeys.Store(pk, k)
 		}
-- 
2.43.0


From 60eb25b1dff0cac07641c98f09fcc061eca9a911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 34/59] fix: extract values of listed keys when keys are not
 scanned

---
 flatjsonl/processor.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 96f1953..fecf9e0 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -565,6 +565,7 @@ type lineBuf struct {
 func newWriteIterator(p *Processor, pkIndex map[uint64]int, pkDst map[uint64]string, pkTimeFmt map[uint64]string) *writeIterator {
 	wi := &writeIterator{}
 	wi.pending = xsync.NewMapOf[int64, *lineBuf]()
+	wi.extractors = xsync.NewMapOf[uint64, extractor]()
 	wi.finished = &sync.Map{}
 
 	wi.lineBufPool = sync.Pool{
@@ -657,6 +658,7 @@ type writeIterator struct {
 	lineBufPool sync.Pool
 	seqExpected int64
 	pending     *xsync.MapOf[int64, *lineBuf]
+	extractors  *xsync.MapOf[uint64, extractor]
 
 	// Finished was originally *xsync.MapOf[int64, *lineBuf], but for unclear, hardly reproducible reason
 	// it was leading to eventually failing "waiting pending".
@@ -680,13 +682,17 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 
 		l, _ := wi.pending.Load(seq)
 		pk := l.h.hashBytes(flatPath)
-		k, _ := wi.p.flKeys.Load(pk)
+		k, ok := wi.p.flKeys.Load(pk)
 
 		wi.setValue(Value{
 			Type:   TypeString,
 			String: string(value),
 		}, pk, l)
 
+		if !ok && len(wi.p.extractRegex) > 0 {
+			return wi.extractor(pk, flatPath)
+		}
+
 		return k.extractor
 	}
 	w.FnNumber = func(seq int64, flatPath []byte, pl int, _ []string, value float64, raw []byte) {
@@ -718,6 +724,17 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 	}
 }
 
+// extractor finds extractor for a key that was not scanned.
+func (wi *writeIterator) extractor(pk uint64, flatPath []byte) extractor {
+	x, ok := wi.extractors.Load(pk)
+	if !ok {
+		x = wi.p.keyExtractor(string(flatPath))
+		wi.extractors.Store(pk, x)
+	}
+
+	return x
+}
+
 func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 	i, ok := wi.pkIndex[pk]
 	if !ok {
-- 
2.43.0


From 961e0235cd6555caaa2c78c20c92a23d9261f3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 35/59] fix: failure of truncated gzip input

Parallel gzip reader takes some truncated streams for complete ones:
data after the cut is lost and the run reports success.
---
 flatjsonl/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index b995f5c..23f34b9 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -18,8 +18,8 @@ import (
 
 	"github.com/bool64/ctxd"
 	"github.com/bool64/progress"
+	"github.com/klauspost/compress/gzip"
 	"github.com/klauspost/compress/zstd"
-	gzip "github.com/klauspost/pgzip"
 	"github.com/vearutop/fastjson"
 )
 
-- 
2.43.0


From 68e1eae7d2a10d72d03e799a44ca627c3c5fc795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 36/59] fix: finish lines in progress before reporting read
 failure

Writers were closed while rows were still being written to them.
---
 flatjsonl/reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 23f34b9..c0dc9c4 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -233,8 +233,9 @@ func (rd *Reader) Read(sess *readSession) error {
 			time.Sleep(110 * time.Millisecond)
 		}
 
-		if err := sess.scanner.Err(); err != nil {
-			return fmt.Errorf("scan failed: %w", err)
+		// A line that is cut by a read failure is not processed.
+		if sess.scanner.Err() != nil {
+			break
 		}
 
 		line := sess.scanner.Bytes()
-- 
2.43.0


From 47c1b8c91be8b943b4003556a1176feb17174fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:47 +0000
Subject: [PATCH 37/59] fix: do not write rows that follow a failed row

---
 flatjsonl/processor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index fecf9e0..11dc811 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -837,7 +837,10 @@ func (wi *writeIterator) complete(seq int64, l *lineBuf) error {
 		l.values[i] = val
 	}
 
-	err := wi.p.w.ReceiveRow(seq, l.values)
+	// Rows that follow a failed row are not written.
+	if err := wi.p.w.ReceiveRow(seq, l.values); err != nil {
+		return err
+	}
 
 	atomic.AddInt64(&wi.seqExpected, 1)
 
@@ -847,7 +850,7 @@ func (wi *writeIterator) complete(seq int64, l *lineBuf) error {
 
 	wi.lineBufPool.Put(l)
 
-	return err
+	return nil
 }
 
 func (wi *writeIterator) checkCompleted() error {
-- 
2.43.0


From 49789a5d37f57d6ce5cc28f9f6d3609d25e93fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 38/59] fix: panic on failure to write gzip header

---
 flatjsonl/writer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 68bf338..4dce1a1 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -366,6 +366,15 @@ type compressedFile struct {
 	file io.Closer
 }
 
+func (c compressedFile) Write(p []byte) (int, error) {
+	n, err := c.WriteCloser.Write(p)
+	if n > len(p) { // Failed compressor counts bytes of stream header.
+		n = len(p)
+	}
+
+	return n, err
+}
+
 func (c compressedFile) Close() error {
 	return errors.Join(c.WriteCloser.Close(), c.file.Close())
 }
-- 
2.43.0


From 398ec75f97b080e6b3d347368d595381160fc93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 39/59] fix: keep truncated names apart from names of other
 keys

---
 flatjsonl/keys.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 877fe93..3589432 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -649,6 +649,7 @@ func (p *Processor) prepareKeys() {
 
 		p.replaceByKey[r] = mk
 		p.replaceKeys[mk] = r
+		p.limitedKeys[p.ck(r)] = r
 	}
 
 	type ik struct {
@@ -735,14 +736,14 @@ func (p *Processor) prepareKeys() {
 	p.keys = keys
 }
 
-// limitKey truncates name and adds a number to tell it from other truncated names.
+// limitKey truncates name and adds a number to tell it from other names.
 func (p *Processor) limitKey(name string) string {
 	for i := 0; ; i++ {
 		is := strconv.Itoa(i)
-		limited := name[:max(p.f.KeyLimit-len(is), 0)] + is
+		limited := name[:min(len(name), max(p.f.KeyLimit-len(is), 0))] + is
 
-		if full, ok := p.limitedKeys[limited]; !ok || full == name {
-			p.limitedKeys[limited] = name
+		if full, ok := p.limitedKeys[p.ck(limited)]; !ok || full == name {
+			p.limitedKeys[p.ck(limited)] = name
 
 			return limited
 		}
@@ -757,10 +758,17 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	}
 
 	defer func() {
-		if p.f.KeyLimit > 0 && len(kk) > p.f.KeyLimit {
+		if p.f.KeyLimit <= 0 {
+			return
+		}
+
+		// Name that is short enough may belong to a truncated one.
+		if full, ok := p.limitedKeys[p.ck(kk)]; len(kk) > p.f.KeyLimit || (ok && full != kk) {
 			kk = p.limitKey(kk)
 
 			p.replaceKeys[ck] = kk
+		} else {
+			p.limitedKeys[p.ck(kk)] = kk
 		}
 	}()
 
-- 
2.43.0


From 4934e869627570726f69f34634597c2aa414e63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 40/59] fix: convert times that have their own zone to output
 time zone

---
 flatjsonl/processor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 11dc811..1cc678b 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -759,6 +759,10 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 			if err != nil {
 				v.String = fmt.Sprintf("failed to parse time %s: %s", v.String, err)
 			} else {
+				if wi.outputTZ != nil { // Value may have a zone of its own.
+					t = t.In(wi.outputTZ)
+				}
+
 				v.String = t.Format(wi.outTimeFmt)
 			}
 		}
-- 
2.43.0


From 0e8351fe4f53cccb1b558b5214a4871451e1f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 41/59] fix: quote names of tables and columns in SQLite
 statements

---
 flatjsonl/sqlite_writer.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 5f76e0e..e5ada20 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -132,7 +132,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 	c.rowsTx++
 
 	tableName := tn
-	res := `INSERT INTO "` + tableName + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
+	res := `INSERT INTO ` + c.quote(tableName) + ` VALUES (` + strconv.Itoa(int(seq)) + `,`
 	part := 1
 
 	for i, v := range values {
@@ -147,11 +147,11 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
-			res = `INSERT INTO "` + tableName + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
+			res = `INSERT INTO ` + c.quote(tableName) + ` VALUES (` + strconv.Itoa(int(seq)) + `,`
 		}
 
 		if v.Type != TypeNull && v.Type != TypeAbsent {
-			res += `"` + c.replacer.Replace(v.Format()) + `",`
+			res += c.quote(v.Format()) + `,`
 		} else {
 			res += `NULL,`
 		}
@@ -162,6 +162,10 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 	return c.execTx(res)
 }
 
+func (c *SQLiteWriter) quote(s string) string {
+	return `"` + c.replacer.Replace(s) + `"`
+}
+
 func (c *SQLiteWriter) commitTx() error {
 	if err := c.tx.Commit(); err != nil {
 		return fmt.Errorf("failed to commit SQLite transaction: %w", err)
@@ -194,7 +198,7 @@ func (c *SQLiteWriter) execTx(res string) error {
 
 func (c *SQLiteWriter) createTable(tn string, keys []flKey, isTransposed bool) error {
 	tableName := tn
-	createTable := `CREATE TABLE "` + tableName + `" (
+	createTable := `CREATE TABLE ` + c.quote(tableName) + ` (
 `
 
 	if !isTransposed {
@@ -220,7 +224,7 @@ _seq_id integer,
 
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
-			createTable = `CREATE TABLE "` + tableName + `" (
+			createTable = `CREATE TABLE ` + c.quote(tableName) + ` (
 `
 
 			if !isTransposed {
@@ -243,7 +247,7 @@ _seq_id integer,
 			tp = " REAL"
 		}
 
-		createTable += `"` + k.replaced + `"` + tp + `,` + "\n"
+		createTable += c.quote(k.replaced) + tp + `,` + "\n"
 	}
 
 	createTable = createTable[:len(createTable)-2] + "\n)"
-- 
2.43.0


From 638676b4b03f1dd45f41301ac174846305cd2ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 42/59] fix: store strings with zero bytes in SQLite

---
 flatjsonl/sqlite_writer.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index e5ada20..308bef7 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -135,23 +135,34 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 	res := `INSERT INTO ` + c.quote(tableName) + ` VALUES (` + strconv.Itoa(int(seq)) + `,`
 	part := 1
 
+	var args []any // Values that can not be a part of statement.
+
 	for i, v := range values {
 		if i > 0 && i%c.maxCols == 0 {
 			c.rowsTx++
 
 			res = res[:len(res)-1] + ")"
 
-			if err := c.execTx(res); err != nil {
+			if err := c.execTx(res, args...); err != nil {
 				return err
 			}
 
+			args = nil
+
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
 			res = `INSERT INTO ` + c.quote(tableName) + ` VALUES (` + strconv.Itoa(int(seq)) + `,`
 		}
 
 		if v.Type != TypeNull && v.Type != TypeAbsent {
-			res += c.quote(v.Format()) + `,`
+			f := v.Format()
+
+			if strings.Contains(f, "\x00") { // Zero byte ends the statement.
+				res += `?,`
+				args = append(args, f)
+			} else {
+				res += c.quote(f) + `,`
+			}
 		} else {
 			res += `NULL,`
 		}
@@ -159,7 +170,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 
 	res = res[:len(res)-1] + ")"
 
-	return c.execTx(res)
+	return c.execTx(res, args...)
 }
 
 func (c *SQLiteWriter) quote(s string) string {
@@ -177,7 +188,7 @@ func (c *SQLiteWriter) commitTx() error {
 	return nil
 }
 
-func (c *SQLiteWriter) execTx(res string) error {
+func (c *SQLiteWriter) execTx(res string, args ...any) error {
 	if c.tx == nil {
 		tx, err := c.db.Begin()
 		if err != nil {
@@ -188,7 +199,7 @@ func (c *SQLiteWriter) execTx(res string) error {
 		c.rowsTx = 0
 	}
 
-	_, err := c.tx.Exec(res)
+	_, err := c.tx.Exec(res, args...)
 	if err != nil {
 		return fmt.Errorf("failed to insert SQLite row: %w", err)
 	}
-- 
2.43.0


From 0a6caecf9ff7853ac818c4a2cd0a4489b1a72d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 43/59] fix: panic for an invalid line prefix expression

---
 flatjsonl/processor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 1cc678b..3cd2f70 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -179,7 +179,12 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 	}
 
 	if f.MatchLinePrefix != "" {
-		p.rd.MatchPrefix = regexp.MustCompile(f.MatchLinePrefix)
+		r, err := regexp.Compile(f.MatchLinePrefix)
+		if err != nil {
+			return nil, fmt.Errorf("match line prefix: %w", err)
+		}
+
+		p.rd.MatchPrefix = r
 	}
 
 	p.replaceRegex = map[*regexp.Regexp]string{}
-- 
2.43.0


From 9bb0211c0856de58b75338cbccf9b00bd3a642e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 44/59] fix: panic for an invalid configuration file

---
 flatjsonl/processor.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 3cd2f70..e25a5ad 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -95,7 +95,7 @@ func loadConfig(value string, cfg *Config) error {
 
 	yerr := yaml.Unmarshal(b, cfg)
 	if yerr != nil {
-		err = json5.Unmarshal(b, cfg)
+		err = decodeJSON5(b, cfg)
 		if err != nil {
 			return fmt.Errorf("decode config file: json5: %w, yaml: %s", err, yerr) //nolint
 		}
@@ -104,6 +104,17 @@ func loadConfig(value string, cfg *Config) error {
 	return nil
 }
 
+// decodeJSON5 decodes JSON5 and returns panics of the decoder as errors.
+func decodeJSON5(b []byte, cfg *Config) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid syntax: %v", r) //nolint:goerr113
+		}
+	}()
+
+	return json5.Unmarshal(b, cfg)
+}
+
 // NewProcessor creates an instance of Processor.
 func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //nolint:funlen
 	pr := &progress.Progress{
-- 
2.43.0


From 7e28a64a11b88063e0b868eb9985117a1b20cffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 45/59] fix: comments in JSON5 configuration became a part of
 keys

---
 flatjsonl/processor.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index e25a5ad..aefc927 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -1,6 +1,7 @@
 package flatjsonl
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -93,6 +94,25 @@ func loadConfig(value string, cfg *Config) error {
 		return fmt.Errorf("read config file: %w", err)
 	}
 
+	// An object of JSON5 may also be valid YAML, with comments as a part of values.
+	if bytes.HasPrefix(bytes.TrimSpace(b), []byte("{")) {
+		var c Config
+
+		if json.Unmarshal(b, &c) == nil {
+			*cfg = c
+
+			return nil
+		}
+
+		c = Config{}
+
+		if decodeJSON5(b, &c) == nil {
+			*cfg = c
+
+			return nil
+		}
+	}
+
 	yerr := yaml.Unmarshal(b, cfg)
 	if yerr != nil {
 		err = decodeJSON5(b, cfg)
-- 
2.43.0


From f6f09f0e7c72c4e2f236445e5224f5f6cbafdab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 46/59] fix: panic for negative buffer size or progress
 interval

---
 flatjsonl/processor.go | 8 ++++++++
 flatjsonl/reader.go    | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index aefc927..07d269d 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -137,6 +137,14 @@ func decodeJSON5(b []byte, cfg *Config) (err error) {
 
 // NewProcessor creates an instance of Processor.
 func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //nolint:funlen
+	if f.BufSize < 0 {
+		return nil, fmt.Errorf("%w: buffer size %d", errNegativeValue, f.BufSize)
+	}
+
+	if f.ProgressInterval < 0 {
+		return nil, fmt.Errorf("%w: progress interval %s", errNegativeValue, f.ProgressInterval)
+	}
+
 	pr := &progress.Progress{
 		Interval:         f.ProgressInterval,
 		IncrementalSpeed: true,
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index c0dc9c4..184f5ed 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -23,7 +23,10 @@ import (
 	"github.com/vearutop/fastjson"
 )
 
-const errEmptyFile = ctxd.SentinelError("empty file")
+const (
+	errEmptyFile     = ctxd.SentinelError("empty file")
+	errNegativeValue = ctxd.SentinelError("unexpected negative value")
+)
 
 // Input can be either a file name or a reader.
 type Input struct {
-- 
2.43.0


From 8686aaa6436db80327f1e9ab9e8d79800b60d0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 47/59] fix: panic in JSON schema when the whole line is kept
 as JSON

---
 flatjsonl/flattener.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 8522b65..cda7fb7 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -353,6 +353,12 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 
 	for i := len(parents) - 1; i >= 0; i-- {
 		pk := parents[i]
+
+		// The whole line is kept as JSON.
+		if len(pk.path) == 0 {
+			continue
+		}
+
 		name := pk.path[len(pk.path)-1]
 
 		// Parent may have other types too.
-- 
2.43.0


From 62f4256e62436653f636a57bb4ad82a62a273759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 48/59] fix: PostgreSQL dump had 1.0 or 1e3 in integer columns

---
 flatjsonl/keys.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 3589432..1426193 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -1,6 +1,7 @@
 package flatjsonl
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"regexp"
@@ -373,9 +374,10 @@ func (p *Processor) scanAvailableKeys() error {
 
 					return x
 				}
-				w.FnNumber = func(_ int64, flatPath []byte, pl int, path []string, value float64, _ []byte) {
+				w.FnNumber = func(_ int64, flatPath []byte, pl int, path []string, value float64, raw []byte) {
 					pk, parent := h.hashParentBytes(flatPath, pl)
-					isInt := float64(int(value)) == value
+					// Values are written as they are, 1.0 is not a valid value of an integer column.
+					isInt := float64(int(value)) == value && !bytes.ContainsAny(raw, ".eE")
 
 					if isInt {
 						p.scanKey(pk, parent, path, TypeInt, value == 0)
-- 
2.43.0


From 774b333dca2370b046b76d1fec636dae21197987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 49/59] fix: columns of concatenated values had types of single
 values

---
 flatjsonl/keys.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 1426193..9f8c49f 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -523,6 +523,10 @@ func (p *Processor) flKeysInit() {
 		if ok {
 			isZero, t := value.isZero && v.isZero, v.t.Update(value.t)
 
+			if p.cfg.ConcatDelimiter != nil && !value.t.isContainer() && !v.t.isContainer() {
+				t = TypeString
+			}
+
 			// Same spelling of a key is used regardless of the order, containers do not have values.
 			if value.t.isContainer() != v.t.isContainer() {
 				if value.t.isContainer() {
@@ -711,6 +715,11 @@ func (p *Processor) prepareKeys() {
 		if pk.transposeDst == "" {
 			if j, ok := keyExists[pk.replaced]; ok {
 				keys[j].UpdateType(pk.t)
+
+				if p.cfg.ConcatDelimiter != nil {
+					keys[j].UpdateType(TypeString)
+				}
+
 				keyMap[i] = j
 
 				continue
-- 
2.43.0


From 0db5f247dbaf051fac2bcf679169cecd5cdd4995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 50/59] fix: csvequals compares every column of a repeated name

---
 cmd/csvequals/main.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/cmd/csvequals/main.go b/cmd/csvequals/main.go
index 552f02d..41a8dd9 100644
--- a/cmd/csvequals/main.go
+++ b/cmd/csvequals/main.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"log"
 	"os"
+	"strconv"
 	"strings"
 
 	"github.com/bool64/progress"
@@ -116,8 +117,8 @@ func main() {
 		}
 
 		if keys1 == nil {
-			keys1 = append(keys1, r1...)
-			keys2 = append(keys2, r2...)
+			keys1 = uniqueKeys(r1)
+			keys2 = uniqueKeys(r2)
 
 			for _, k := range keys1 {
 				m1[k] = ""
@@ -155,6 +156,24 @@ func main() {
 	println("files are equal")
 }
 
+// uniqueKeys makes keys of columns, repeated names are numbered so that no column hides another one.
+func uniqueKeys(header []string) []string {
+	seen := make(map[string]int, len(header))
+	keys := make([]string, 0, len(header))
+
+	for _, k := range header {
+		seen[k]++
+
+		if n := seen[k]; n > 1 {
+			k += "\x00" + strconv.Itoa(n)
+		}
+
+		keys = append(keys, k)
+	}
+
+	return keys
+}
+
 func mapDiff(m1, m2 map[string]string) []string {
 	var diff []string //nolint:prealloc
 
-- 
2.43.0


From fb0e072967373a39c0211f1ced9bfdafb92f7024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 51/59] fix: names of columns do not depend on order of maps

---
 flatjsonl/keys.go      | 26 ++++++++++++++++++++++----
 flatjsonl/processor.go |  7 +++----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 9f8c49f..cc1e2ec 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -650,7 +650,8 @@ func (p *Processor) prepareKeys() {
 	p.replaceByKey = make(map[string]string)
 	p.limitedKeys = make(map[string]string)
 
-	for k, r := range p.cfg.ReplaceKeys {
+	for _, k := range sortedKeys(p.cfg.ReplaceKeys) {
+		r := p.cfg.ReplaceKeys[k]
 		mk := p.ck(k)
 
 		p.replaceByKey[r] = mk
@@ -747,6 +748,23 @@ func (p *Processor) prepareKeys() {
 	p.keys = keys
 }
 
+// replaceRule makes names for keys that match regular expression.
+type replaceRule struct {
+	reg *regexp.Regexp
+	rep string
+}
+
+func sortedKeys(m map[string]string) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+
+	sort.Strings(keys)
+
+	return keys
+}
+
 // limitKey truncates name and adds a number to tell it from other names.
 func (p *Processor) limitKey(name string) string {
 	for i := 0; ; i++ {
@@ -783,12 +801,12 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 		}
 	}()
 
-	for reg, rep := range p.replaceRegex {
+	for _, rule := range p.replaceRegex {
 		kr := origKey
 
-		matches := reg.FindStringSubmatch(origKey)
+		matches := rule.reg.FindStringSubmatch(origKey)
 		if matches != nil {
-			kr = rep
+			kr = rule.rep
 
 			for i, m := range matches {
 				if i == 0 {
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 07d269d..7e019c7 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -40,7 +40,7 @@ type Processor struct {
 	includeKeys  map[string]int
 	includeRegex []*regexp.Regexp
 	excludeRegex []*regexp.Regexp
-	replaceRegex map[*regexp.Regexp]string
+	replaceRegex []replaceRule // Ordered, so that the same rule is used for a key every time.
 	extractRegex map[*regexp.Regexp]extractor
 	constVals    map[int]string
 
@@ -226,7 +226,6 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		p.rd.MatchPrefix = r
 	}
 
-	p.replaceRegex = map[*regexp.Regexp]string{}
 	p.extractRegex = map[*regexp.Regexp]extractor{}
 
 	for _, reg := range p.cfg.ExcludeKeysRegex {
@@ -247,13 +246,13 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		p.includeRegex = append(p.includeRegex, r)
 	}
 
-	for reg, rep := range p.cfg.ReplaceKeysRegex {
+	for _, reg := range sortedKeys(p.cfg.ReplaceKeysRegex) {
 		r, err := regex(reg)
 		if err != nil {
 			return nil, fmt.Errorf("include keys: %w", err)
 		}
 
-		p.replaceRegex[r] = rep
+		p.replaceRegex = append(p.replaceRegex, replaceRule{reg: r, rep: p.cfg.ReplaceKeysRegex[reg]})
 	}
 
 	for reg, x := range p.cfg.ExtractValuesRegex {
-- 
2.43.0


From c678699dbebe553b21b627f115f6b880506e44db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 52/59] fix: keys of transposed tables are not case-sensitive
 by default

---
 flatjsonl/writer.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 4dce1a1..f364f8e 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -166,12 +166,14 @@ func (b *baseWriter) setupKeys(keys []flKey) {
 		tw.keyIndexes = append(tw.keyIndexes, i)
 		tw.indexType = tw.indexType.Update(key.transposeKey.t)
 
-		ik, ok := tw.trimmedKeys[key.transposeTrimmed]
+		trimmed := b.p.ck(key.transposeTrimmed)
+
+		ik, ok := tw.trimmedKeys[trimmed]
 		if !ok {
 			ik.idx = len(tw.trimmedKeys)
 			key.replaced = b.p.prepareKey(key.transposeTrimmed)
 			ik.k = key
-			tw.trimmedKeys[key.transposeTrimmed] = ik
+			tw.trimmedKeys[trimmed] = ik
 		}
 
 		tw.transposedMapping[i] = ik.idx
@@ -220,7 +222,7 @@ func (b *baseWriter) transposedWriter(dst string, keys []flKey) *baseWriter {
 		b.transposed = map[string]*baseWriter{}
 	}
 
-	tw = &baseWriter{}
+	tw = &baseWriter{p: b.p}
 
 	tw.isTransposed = true
 	tw.keys = keys
@@ -275,13 +277,14 @@ func (b *baseWriter) receiveRow(seq int64, values []Value) (transposedRows [][]s
 			k := b.keys[i]
 
 			transposeKey := k.transposeKey.String()
-			row := transposedRowsIdx[transposeKey]
+			rowKey := b.p.ck(transposeKey)
+			row := transposedRowsIdx[rowKey]
 
 			if row == nil {
 				row = make([]string, len(b.trimmedKeys))
 				row[0] = strconv.Itoa(int(seq)) // Add sequence.
 				row[1] = transposeKey           // Add array idx/object property.
-				transposedRowsIdx[transposeKey] = row
+				transposedRowsIdx[rowKey] = row
 				transposedRows = append(transposedRows, row)
 			}
 
@@ -314,7 +317,7 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 
 		k := b.keys[i]
 
-		transposeKey := k.transposeKey.String()
+		transposeKey := b.p.ck(k.transposeKey.String())
 		row := transposedRowsIdx[transposeKey]
 
 		if row == nil {
-- 
2.43.0


From 633b193d3db29f48b08197d7d420858cf398efc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:34 +0000
Subject: [PATCH 53/59] fix: keys with the same name share a column of
 transposed table

---
 flatjsonl/csv_writer.go |   8 +--
 flatjsonl/writer.go     | 117 +++++++++++++++++++++-------------------
 2 files changed, 67 insertions(+), 58 deletions(-)

diff --git a/flatjsonl/csv_writer.go b/flatjsonl/csv_writer.go
index d23a1d8..e176478 100644
--- a/flatjsonl/csv_writer.go
+++ b/flatjsonl/csv_writer.go
@@ -73,15 +73,15 @@ func (c *CSVWriter) writeHead() error {
 	var keys []string
 
 	if c.b.isTransposed {
-		keys = make([]string, len(c.b.trimmedKeys))
-		for _, i := range c.b.trimmedKeys {
-			keys[i.idx] = i.k.replaced
+		keys = make([]string, 0, len(c.b.trimmedKeys))
+		for _, k := range c.b.trimmedKeys {
+			keys = append(keys, k.replaced)
 		}
 	} else {
 		keys = make([]string, 0, len(c.b.keyIndexes))
 
 		for _, i := range c.b.keyIndexes {
-			keys = append(keys, c.b.keys[i].replaced) //nolint:makezero // False positive: append to slice `keys` with non-zero initialized length.
+			keys = append(keys, c.b.keys[i].replaced)
 		}
 	}
 
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index f364f8e..26d74e6 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -127,11 +127,6 @@ func (w *Writer) Close() error {
 	return nil
 }
 
-type idxKey struct {
-	idx int
-	k   flKey
-}
-
 type baseWriter struct {
 	p *Processor
 
@@ -143,7 +138,8 @@ type baseWriter struct {
 
 	isTransposed bool
 	transposed   map[string]*baseWriter
-	trimmedKeys  map[string]idxKey
+	trimmedKeys  []flKey        // Columns of transposed table.
+	trimmedIdx   map[string]int // Indexes of columns by trimmed key.
 
 	// transposedMapping maps original key index to reduced set of trimmed keys.
 	transposedMapping map[int]int
@@ -168,15 +164,13 @@ func (b *baseWriter) setupKeys(keys []flKey) {
 
 		trimmed := b.p.ck(key.transposeTrimmed)
 
-		ik, ok := tw.trimmedKeys[trimmed]
+		idx, ok := tw.trimmedIdx[trimmed]
 		if !ok {
-			ik.idx = len(tw.trimmedKeys)
-			key.replaced = b.p.prepareKey(key.transposeTrimmed)
-			ik.k = key
-			tw.trimmedKeys[trimmed] = ik
+			idx = tw.addTrimmedKey(key)
+			tw.trimmedIdx[trimmed] = idx
 		}
 
-		tw.transposedMapping[i] = ik.idx
+		tw.transposedMapping[i] = idx
 	}
 
 	b.initFilteredKeys()
@@ -186,6 +180,27 @@ func (b *baseWriter) setupKeys(keys []flKey) {
 	}
 }
 
+// addTrimmedKey finds a column of transposed table for a new key.
+func (b *baseWriter) addTrimmedKey(key flKey) int {
+	key.replaced = b.p.prepareKey(key.transposeTrimmed)
+
+	for i := 2; i < len(b.trimmedKeys); i++ { // Sequence and index are not shared.
+		if b.trimmedKeys[i].replaced != key.replaced {
+			continue
+		}
+
+		if b.p.cfg.ConcatDelimiter != nil {
+			b.trimmedKeys[i].UpdateType(TypeString)
+		}
+
+		return i
+	}
+
+	b.trimmedKeys = append(b.trimmedKeys, key)
+
+	return len(b.trimmedKeys) - 1
+}
+
 func (b *baseWriter) initFilteredKeys() {
 	if !b.isTransposed {
 		b.filteredKeys = make([]flKey, 0, len(b.keyIndexes))
@@ -197,11 +212,7 @@ func (b *baseWriter) initFilteredKeys() {
 		return
 	}
 
-	b.filteredKeys = make([]flKey, len(b.trimmedKeys))
-	for _, i := range b.trimmedKeys {
-		b.filteredKeys[i.idx] = i.k
-	}
-
+	b.filteredKeys = append(b.filteredKeys, b.trimmedKeys...)
 	b.filteredKeys[0].t = TypeInt     // .sequence
 	b.filteredKeys[1].t = b.indexType // .index
 
@@ -226,16 +237,12 @@ func (b *baseWriter) transposedWriter(dst string, keys []flKey) *baseWriter {
 
 	tw.isTransposed = true
 	tw.keys = keys
-	tw.trimmedKeys = map[string]idxKey{
-		"._sequence": {idx: 0, k: flKey{
-			original: "._sequence",
-			replaced: b.p.prepareKey("._sequence"),
-		}},
-		"._index": {idx: 1, k: flKey{
-			original: "._index",
-			replaced: b.p.prepareKey("._index"),
-		}},
+	tw.trimmedIdx = map[string]int{}
+
+	for _, k := range []string{"._sequence", "._index"} {
+		tw.trimmedIdx[k] = tw.addTrimmedKey(flKey{original: k, transposeTrimmed: k})
 	}
+
 	tw.transposedMapping = map[int]int{}
 
 	b.transposed[dst] = tw
@@ -259,42 +266,33 @@ func (b *baseWriter) receiveRow(seq int64, values []Value) (transposedRows [][]s
 
 	b.row = b.row[:0]
 
-	transposedRowsIdx := map[string][]string{}
+	if b.isTransposed {
+		for _, vv := range b.receiveTransposedRowValues(seq, values) {
+			row := make([]string, 0, len(vv))
 
-	for _, i := range b.keyIndexes {
-		v := values[i]
+			for _, v := range vv {
+				row = append(row, formatCell(v))
+			}
 
-		var f string
-		if v.Type != TypeNull && v.Type != TypeAbsent {
-			f = v.Format()
+			transposedRows = append(transposedRows, row)
 		}
 
-		if b.isTransposed {
-			if v.Type == TypeAbsent {
-				continue
-			}
-
-			k := b.keys[i]
+		return transposedRows
+	}
 
-			transposeKey := k.transposeKey.String()
-			rowKey := b.p.ck(transposeKey)
-			row := transposedRowsIdx[rowKey]
+	for _, i := range b.keyIndexes {
+		b.row = append(b.row, formatCell(values[i]))
+	}
 
-			if row == nil {
-				row = make([]string, len(b.trimmedKeys))
-				row[0] = strconv.Itoa(int(seq)) // Add sequence.
-				row[1] = transposeKey           // Add array idx/object property.
-				transposedRowsIdx[rowKey] = row
-				transposedRows = append(transposedRows, row)
-			}
+	return nil
+}
 
-			row[b.transposedMapping[i]] = f
-		} else {
-			b.row = append(b.row, f)
-		}
+func formatCell(v Value) string {
+	if v.Type == TypeNull || v.Type == TypeAbsent {
+		return ""
 	}
 
-	return transposedRows
+	return v.Format()
 }
 
 func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (transposedRows [][]Value) {
@@ -332,7 +330,18 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 			transposedRows = append(transposedRows, row)
 		}
 
-		row[b.transposedMapping[i]] = v
+		j := b.transposedMapping[i]
+
+		switch {
+		case row[j].Type == TypeAbsent:
+			row[j] = v
+		case j > 1 && b.p.cfg.ConcatDelimiter != nil:
+			row[j] = Value{
+				Type:   TypeString,
+				Dst:    v.Dst,
+				String: row[j].Format() + *b.p.cfg.ConcatDelimiter + v.Format(),
+			}
+		}
 	}
 
 	return transposedRows
-- 
2.43.0


From 14b50132b9719114d226b86c589a00a9165f3da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 54/59] fix: strings with malformed numbers are not extracted

---
 flatjsonl/flattener.go | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index cda7fb7..17a2f31 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -200,7 +200,7 @@ func (fv *FastWalker) walkFastJSONString(seq int64, flatPath []byte, pl int, pat
 			p.AllowUnexpectedTail = true
 			defer parserPool.Put(p)
 
-			if v, err := p.ParseBytes(xs); err == nil {
+			if v, err := parseExtracted(p, xs); err == nil {
 				pl := len(flatPath)
 
 				flatPath = append(flatPath, []byte("."+name)...)
@@ -226,7 +226,7 @@ func (fv *FastWalker) walkFastJSONString(seq int64, flatPath []byte, pl int, pat
 		p.AllowUnexpectedTail = true
 		defer parserPool.Put(p)
 
-		v, err := p.ParseBytes(s)
+		v, err := parseExtracted(p, s)
 		if err == nil {
 			pl := len(flatPath)
 
@@ -267,6 +267,43 @@ func (fv *FastWalker) walkFastJSONString(seq int64, flatPath []byte, pl int, pat
 	}
 }
 
+// parseExtracted parses a string that may have JSON.
+func parseExtracted(p *fastjson.Parser, s []byte) (*fastjson.Value, error) {
+	v, err := p.ParseBytes(s)
+	if err != nil {
+		return nil, err
+	}
+
+	// Parser takes values like "1-2" or "e1" for numbers.
+	if err := checkNumbers(v); err != nil {
+		return nil, err
+	}
+
+	// Strings are unescaped by the check, parsing again to keep them as they are.
+	return p.ParseBytes(s)
+}
+
+func checkNumbers(v *fastjson.Value) (err error) {
+	switch v.Type() { //nolint:exhaustive
+	case fastjson.TypeNumber:
+		_, err = v.Float64()
+	case fastjson.TypeArray:
+		for _, v := range v.GetArray() {
+			if err = checkNumbers(v); err != nil {
+				return err
+			}
+		}
+	case fastjson.TypeObject:
+		v.GetObject().Visit(func(_ []byte, v *fastjson.Value) {
+			if err == nil {
+				err = checkNumbers(v)
+			}
+		})
+	}
+
+	return err
+}
+
 // Format turns value into a string.
 func Format(v interface{}) string {
 	if v == nil {
-- 
2.43.0


From 7b1a2bebec43ceb9749b6bfa096a8d985585a036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 55/59] fix: values of listed keys that are not in the scanned
 lines are not lost

---
 flatjsonl/keys.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index cc1e2ec..35f78a1 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -485,11 +485,19 @@ func (p *Processor) prepareScannedKeys() {
 }
 
 func (p *Processor) flKeysInit() {
-	if p.flKeys.Size() == 0 && len(p.includeKeys) > 0 {
+	if len(p.includeKeys) > 0 {
 		h := newHasher()
+		scanned := make(map[string]bool, p.flKeys.Size())
+
+		p.flKeys.Range(func(_ uint64, k flKey) bool {
+			scanned[k.canonical] = true
+
+			return true
+		})
 
 		for key := range p.includeKeys {
-			if strings.HasPrefix(key, "const:") {
+			// Keys may be not scanned, or there may be none of them in the scanned lines.
+			if strings.HasPrefix(key, "const:") || scanned[p.ck(key)] {
 				continue
 			}
 
-- 
2.43.0


From 253224ddb674a4f5b23749ed98492573902cc437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:16 +0000
Subject: [PATCH 56/59] fix: maximum of columns in SQL tables is checked,
 default is the same for PostgreSQL dump

---
 flatjsonl/processor.go | 9 +++++++++
 flatjsonl/reader.go    | 1 +
 2 files changed, 10 insertions(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 7e019c7..9418070 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -145,6 +145,15 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		return nil, fmt.Errorf("%w: progress interval %s", errNegativeValue, f.ProgressInterval)
 	}
 
+	if f.SQLMaxCols == 0 {
+		f.SQLMaxCols = 500
+	}
+
+	// A table has at least one column next to _seq_id.
+	if f.SQLMaxCols < 2 && (f.SQLite != "" || f.PGDump != "") {
+		return nil, fmt.Errorf("%w: %d", errMaxCols, f.SQLMaxCols)
+	}
+
 	pr := &progress.Progress{
 		Interval:         f.ProgressInterval,
 		IncrementalSpeed: true,
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 184f5ed..e3cce90 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -26,6 +26,7 @@ import (
 const (
 	errEmptyFile     = ctxd.SentinelError("empty file")
 	errNegativeValue = ctxd.SentinelError("unexpected negative value")
+	errMaxCols       = ctxd.SentinelError("maximum columns in single SQL table has to be at least 2")
 )
 
 // Input can be either a file name or a reader.
-- 
2.43.0


From fb2e7cfdb6daff9c93423ff88162affae21bcc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 57/59] fix: extraction of URLs by expression ends when a value
 only gives itself

---
 flatjsonl/flattener.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 17a2f31..49c3b5f 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"bytes"
+	"encoding/json"
 	"fmt"
 	"strconv"
 	"strings"
@@ -195,7 +196,7 @@ func (fv *FastWalker) walkFastJSONString(seq int64, flatPath []byte, pl int, pat
 
 	if x != nil { //nolint:nestif
 		xs, name, err := x.extract(s)
-		if err == nil {
+		if err == nil && !isURLPath(flatPath, s, xs) {
 			p := parserPool.Get()
 			p.AllowUnexpectedTail = true
 			defer parserPool.Put(p)
@@ -267,6 +268,17 @@ func (fv *FastWalker) walkFastJSONString(seq int64, flatPath []byte, pl int, pat
 	}
 }
 
+// isURLPath tells if a path element of an extracted URL would only give itself, again and again.
+func isURLPath(flatPath, s, xs []byte) bool {
+	if !bytes.HasSuffix(flatPath, []byte("."+extractURL+".path.[0]")) {
+		return false
+	}
+
+	j, err := json.Marshal(URL{Path: []string{string(s)}})
+
+	return err == nil && bytes.Equal(j, xs)
+}
+
 // parseExtracted parses a string that may have JSON.
 func parseExtracted(p *fastjson.Parser, s []byte) (*fastjson.Value, error) {
 	v, err := p.ParseBytes(s)
-- 
2.43.0


From 4ddf36c84eabadbf5094ab974938f00b1a0366c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 58/59] fix: keys that were not scanned are found in any case

---
 flatjsonl/flattener.go |  7 +++++++
 flatjsonl/processor.go | 47 ++++++++++++++++++++++++++++--------------
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 49c3b5f..c849e3d 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -40,11 +40,14 @@ type FastWalker struct {
 	// only limits traversal to a single key, if not empty.
 	only []byte
 
+	caseSensitive bool
+
 	buf []byte
 }
 
 func (fv *FastWalker) configure(p *Processor) {
 	fv.ExtractStrings = p.f.ExtractStrings
+	fv.caseSensitive = p.f.CaseSensitiveKeys
 	if len(p.cfg.KeepJSON) > 0 {
 		fv.KeepJSON = make(map[string]bool)
 		for _, v := range p.cfg.KeepJSON {
@@ -66,6 +69,10 @@ func (fv *FastWalker) skip(flatPath []byte) bool {
 		return false
 	}
 
+	if !fv.caseSensitive && !bytes.HasPrefix(fv.only, flatPath) {
+		flatPath = bytes.ToLower(flatPath)
+	}
+
 	if !bytes.HasPrefix(fv.only, flatPath) {
 		return true
 	}
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 9418070..f5e3e0c 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -537,11 +537,16 @@ func (p *Processor) iterateForWriters() error {
 	pkIndex := make(map[uint64]int)
 	pkDst := make(map[uint64]string)
 	pkTimeFmt := make(map[uint64]string)
+	canonicalPK := make(map[string]uint64)
 
 	p.flKeys.Range(func(key uint64, value flKey) bool {
 		if i, ok := includeKeys[value.canonical]; ok {
 			pkIndex[key] = i
 
+			if pk, ok := canonicalPK[value.canonical]; !ok || key < pk {
+				canonicalPK[value.canonical] = key
+			}
+
 			if value.transposeDst != "" {
 				pkDst[key] = value.transposeDst
 			}
@@ -557,6 +562,7 @@ func (p *Processor) iterateForWriters() error {
 	p.rd.singleKeyFlat = singleKey(p, pkIndex)
 
 	wi := newWriteIterator(p, pkIndex, pkDst, pkTimeFmt)
+	wi.canonicalPK = canonicalPK
 
 	if err := p.w.SetupKeys(p.keys); err != nil {
 		return err
@@ -603,7 +609,7 @@ func singleKey(p *Processor, pkIndex map[uint64]int) []byte {
 	for pk := range pkIndex {
 		k, _ := p.flKeys.Load(pk)
 
-		return []byte(k.original)
+		return []byte(k.canonical)
 	}
 
 	return nil
@@ -698,13 +704,15 @@ func newWriteIterator(p *Processor, pkIndex map[uint64]int, pkDst map[uint64]str
 
 type writeIterator struct {
 	// Read-only under concurrency.
-	pkIndex    map[uint64]int
-	pkDst      map[uint64]string
-	pkTimeFmt  map[uint64]string
-	p          *Processor
-	fieldLimit int
-	outTimeFmt string
-	outputTZ   *time.Location
+	pkIndex map[uint64]int
+	// canonicalPK finds keys of pkIndex by canonical key.
+	canonicalPK map[string]uint64
+	pkDst       map[uint64]string
+	pkTimeFmt   map[uint64]string
+	p           *Processor
+	fieldLimit  int
+	outTimeFmt  string
+	outputTZ    *time.Location
 
 	// Read-write under concurrency.
 	lineBufPool sync.Pool
@@ -739,7 +747,7 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 		wi.setValue(Value{
 			Type:   TypeString,
 			String: string(value),
-		}, pk, l)
+		}, pk, flatPath, l)
 
 		if !ok && len(wi.p.extractRegex) > 0 {
 			return wi.extractor(pk, flatPath)
@@ -755,7 +763,7 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 			Type:      TypeFloat,
 			Number:    value,
 			RawNumber: string(raw),
-		}, pk, l)
+		}, pk, flatPath, l)
 	}
 	w.FnBool = func(seq int64, flatPath []byte, pl int, _ []string, value bool) {
 		l, _ := wi.pending.Load(seq)
@@ -764,7 +772,7 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 		wi.setValue(Value{
 			Type: TypeBool,
 			Bool: value,
-		}, pk, l)
+		}, pk, flatPath, l)
 	}
 	w.FnNull = func(seq int64, flatPath []byte, pl int, _ []string) {
 		l, _ := wi.pending.Load(seq)
@@ -772,7 +780,7 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 
 		wi.setValue(Value{
 			Type: TypeNull,
-		}, pk, l)
+		}, pk, flatPath, l)
 	}
 }
 
@@ -787,16 +795,25 @@ func (wi *writeIterator) extractor(pk uint64, flatPath []byte) extractor {
 	return x
 }
 
-func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
+func (wi *writeIterator) setValue(v Value, pk uint64, flatPath []byte, l *lineBuf) {
+	tf, parseTime := wi.pkTimeFmt[pk]
+
 	i, ok := wi.pkIndex[pk]
+	if !ok && !wi.p.f.CaseSensitiveKeys {
+		// Another spelling of the key may be not scanned.
+		if pk, ok = wi.canonicalPK[wi.p.ck(string(flatPath))]; ok {
+			i = wi.pkIndex[pk]
+			tf, parseTime = wi.p.cfg.ParseTime[string(flatPath)]
+		}
+	}
+
 	if !ok {
 		return
 	}
 
 	if v.Type == TypeString { //nolint:nestif
 		// Reformat time.
-		tf, ok := wi.pkTimeFmt[pk]
-		if ok && tf != "RAW" {
+		if parseTime && tf != "RAW" {
 			var (
 				t   time.Time
 				err error
-- 
2.43.0


From 401a207929fb4200c1dcc067f797735b1b63e30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:29 +0000
Subject: [PATCH 59/59] fix: cut values and names at whole characters

---
 flatjsonl/keys.go      |  2 +-
 flatjsonl/processor.go | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 35f78a1..5c4f521 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -777,7 +777,7 @@ func sortedKeys(m map[string]string) []string {
 func (p *Processor) limitKey(name string) string {
 	for i := 0; ; i++ {
 		is := strconv.Itoa(i)
-		limited := name[:min(len(name), max(p.f.KeyLimit-len(is), 0))] + is
+		limited := cut(name, max(p.f.KeyLimit-len(is), 0)) + is
 
 		if full, ok := p.limitedKeys[p.ck(limited)]; !ok || full == name {
 			p.limitedKeys[p.ck(limited)] = name
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index f5e3e0c..a81d394 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -16,6 +16,7 @@ import (
 	"sync/atomic"
 	"time"
 	_ "time/tzdata" // Loading timezones.
+	"unicode/utf8"
 
 	"github.com/bool64/progress"
 	xsync "github.com/puzpuzpuz/xsync/v3"
@@ -730,6 +731,15 @@ type writeIterator struct {
 	inProgress int64
 }
 
+// cut is the longest prefix of whole characters that has up to n bytes.
+func cut[T string | []byte](s T, n int) T {
+	for n > 0 && n < len(s) && !utf8.RuneStart(s[n]) {
+		n--
+	}
+
+	return s[:min(n, len(s))]
+}
+
 func (wi *writeIterator) setupWalker(w *FastWalker) {
 	w.configure(wi.p)
 
@@ -737,7 +747,7 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 	w.FnArrayStop = nil
 	w.FnString = func(seq int64, flatPath []byte, pl int, _ []string, value []byte) extractor {
 		if wi.fieldLimit != 0 && len(value) > wi.fieldLimit {
-			value = value[0:wi.fieldLimit]
+			value = cut(value, wi.fieldLimit)
 		}
 
 		l, _ := wi.pending.Load(seq)
-- 
2.43.0

