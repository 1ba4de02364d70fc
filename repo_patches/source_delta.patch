From b49d266b113f2a23e6a1cea12906abb19581efb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 01/35] fix: accept remote spans without the optional parent ID

A packet whose optional parent field is absent made the collector server
dereference a nil pointer and crash the whole process.
---
 span.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/span.go b/span.go
index 0f960b7..c20a4bd 100644
--- a/span.go
+++ b/span.go
@@ -73,7 +73,7 @@ func spanIDFromWire(w *wire.CollectPacket_SpanID) SpanID {
 	return SpanID{
 		Trace:  ID(*w.Trace),
 		Span:   ID(*w.Span),
-		Parent: ID(*w.Parent),
+		Parent: ID(w.GetParent()), // optional on the wire
 	}
 }
 
-- 
2.43.0


From e05c74774e5f1ac956e0cdda89dbce62176019fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 02/35] fix: make ChunkedCollector.Stop safe before first use
 and when repeated

Stop closed a nil channel when nothing had been collected yet and closed a
closed channel when called twice; both panic.
---
 collector.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collector.go b/collector.go
index 26eb9cd..3bc82cb 100644
--- a/collector.go
+++ b/collector.go
@@ -268,7 +268,9 @@ func (cc *ChunkedCollector) start() {
 func (cc *ChunkedCollector) Stop() {
 	cc.mu.Lock()
 	defer cc.mu.Unlock()
-	close(cc.stopChan)
+	if cc.started && !cc.stopped {
+		close(cc.stopChan)
+	}
 	cc.stopped = true
 }
 
-- 
2.43.0


From 2eeb1d4a855d3a274d7b5600a765ddfd8fca2ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 03/35] fix: send nothing to the underlying collector once
 ChunkedCollector is stopped

Flush after Stop still delivered the queue, although Stop documents that no
more data will be sent.
---
 collector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collector.go b/collector.go
index 3bc82cb..0085f6d 100644
--- a/collector.go
+++ b/collector.go
@@ -208,6 +208,10 @@ func (cc *ChunkedCollector) Flush() error {
 	start := time.Now()
 
 	cc.mu.Lock()
+	if cc.stopped {
+		cc.mu.Unlock()
+		return errors.New("ChunkedCollector is stopped")
+	}
 	pendingBySpanID := cc.pendingBySpanID
 	queueSizeBytes := cc.queueSizeBytes
 	cc.pendingBySpanID = nil
-- 
2.43.0


From fa267a2ba92dea9502f4ae0c2798eae17409224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 04/35] fix: copy the caller's annotations before retaining
 them

Collect kept the caller's backing array; a later append for the same span wrote
into it, so two spans recorded from one slice corrupted each other.
---
 collector.go | 2 +-
 store.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/collector.go b/collector.go
index 0085f6d..c1ac7c8 100644
--- a/collector.go
+++ b/collector.go
@@ -192,7 +192,7 @@ func (cc *ChunkedCollector) Collect(span SpanID, anns ...Annotation) error {
 			cc.pendingBySpanID[span] = append(p, anns...)
 		}
 	} else {
-		cc.pendingBySpanID[span] = anns
+		cc.pendingBySpanID[span] = append(Annotations(nil), anns...) // the caller owns anns
 	}
 
 	if err := cc.lastErr; err != nil {
diff --git a/store.go b/store.go
index 53dcc6f..92b1fcc 100644
--- a/store.go
+++ b/store.go
@@ -122,7 +122,7 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 	// Create or update span.
 	s, present := ms.span[id.Trace][id.Span]
 	if !present {
-		s = &Trace{Span: Span{ID: id, Annotations: as}}
+		s = &Trace{Span: Span{ID: id, Annotations: append(Annotations(nil), as...)}} // the caller owns as
 		ms.span[id.Trace][id.Span] = s
 	} else {
 		if ms.log {
-- 
2.43.0


From 75aff0da23350d853fc0bd6fe34c64a6cac4d447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 05/35] fix: return copies of traces from MemoryStore

Trace and Traces handed out the live tree, which later Collects rewrite under
the store's lock while the caller reads it without.
---
 store.go |  2 +-
 trace.go | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 92b1fcc..c143b45 100644
--- a/store.go
+++ b/store.go
@@ -252,7 +252,7 @@ func (ms *MemoryStore) traceNoLock(id ID) (*Trace, error) {
 	if !present {
 		return nil, ErrTraceNotFound
 	}
-	return t, nil
+	return t.clone(), nil
 }
 
 // Traces implements the Queryer interface.
diff --git a/trace.go b/trace.go
index e53533f..dab0e28 100644
--- a/trace.go
+++ b/trace.go
@@ -39,6 +39,19 @@ func (t *Trace) FindSpan(spanID ID) *Trace {
 	return nil
 }
 
+// clone returns a deep copy of the tree, which shares neither spans nor lists
+// of annotations with t.
+func (t *Trace) clone() *Trace {
+	cpy := &Trace{Span: Span{ID: t.ID, Annotations: append(Annotations(nil), t.Annotations...)}}
+	if t.Sub != nil {
+		cpy.Sub = make([]*Trace, len(t.Sub))
+		for i, sub := range t.Sub {
+			cpy.Sub[i] = sub.clone()
+		}
+	}
+	return cpy
+}
+
 // TreeString returns the Trace as a formatted string that visually
 // represents the trace's tree.
 func (t *Trace) TreeString() string {
-- 
2.43.0


From 9a5cfaecf475cce3f740e557a8c84d10f02b1776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 06/35] fix: honour the requested trace IDs in Traces queries

MemoryStore.Traces ignored TracesOpts.TraceIDs and MultiQueryer dropped the
options altogether, so a query for one trace returned all of them.
---
 multi.go | 2 +-
 store.go | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/multi.go b/multi.go
index d3dd791..399c9ca 100644
--- a/multi.go
+++ b/multi.go
@@ -59,7 +59,7 @@ func (mq *multiQueryer) Traces(opts TracesOpts) ([]*Trace, error) {
 		all   []*Trace
 	)
 	for _, q := range mq.queryers {
-		traces, err := q.Traces(TracesOpts{})
+		traces, err := q.Traces(opts)
 		if err != nil {
 			return nil, err
 		}
diff --git a/store.go b/store.go
index c143b45..65c42ab 100644
--- a/store.go
+++ b/store.go
@@ -260,8 +260,16 @@ func (ms *MemoryStore) Traces(opts TracesOpts) ([]*Trace, error) {
 	ms.Lock()
 	defer ms.Unlock()
 
+	want := make(map[ID]bool, len(opts.TraceIDs))
+	for _, id := range opts.TraceIDs {
+		want[id] = true
+	}
+
 	var ts []*Trace
 	for id := range ms.trace {
+		if len(want) > 0 && !want[id] {
+			continue
+		}
 		t, err := ms.traceNoLock(id)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 625f13a38b675c73abbae6f1f4847d4630e5c188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 07/35] fix: keep traces acyclic when spans name each other as
 parents

A span that is its own parent, or two that are each other's, became a cycle in
the tree; persisting or printing the trace then overflowed the stack.
---
 store.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/store.go b/store.go
index 65c42ab..448bf9f 100644
--- a/store.go
+++ b/store.go
@@ -165,7 +165,6 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 		}
 		ms.trace[id.Trace] = root // set new root
 		ms.reattachChildren(root, oldRoot)
-		ms.insert(root, oldRoot) // reinsert the old root
 
 		// Move the old temp root's temp children to the new
 		// (possibly temp) root.
@@ -181,6 +180,7 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 			}
 		}
 		oldRoot.Sub = sub2
+		ms.insert(root, oldRoot) // reinsert the old root
 	}
 
 	// Insert into trace tree. (We inserted the trace root span
@@ -202,7 +202,7 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 // root.
 func (ms *MemoryStore) insert(root, t *Trace) {
 	p, present := ms.span[t.ID.Trace][t.ID.Parent]
-	if present {
+	if present && t.FindSpan(p.ID.Span) == nil { // a span may name its own descendant as its parent
 		if ms.log {
 			log.Printf("Add %v as a child of parent %v", t.Span.ID, p.Span.ID)
 		}
@@ -225,7 +225,7 @@ func (ms *MemoryStore) reattachChildren(dst, src *Trace) {
 	}
 	var sub2 []*Trace
 	for _, c := range src.Sub {
-		if c.Span.ID.Parent == dst.Span.ID.Span {
+		if c.Span.ID.Parent == dst.Span.ID.Span && c.FindSpan(dst.Span.ID.Span) == nil {
 			if ms.log {
 				log.Printf("Move %v from src %v to dst %v", c.Span.ID, src.Span.ID, dst.Span.ID)
 			}
-- 
2.43.0


From 21bdde0610ba18e174342b8e61f7c6572416f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 08/35] fix: index the restored spans after reading a persisted
 MemoryStore

The decoded index referred to copies of the decoded trees' spans: annotations
and spans collected after a restart never showed up in restored traces.
---
 store.go | 13 ++++++++++++-
 trace.go |  8 ++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 448bf9f..12fbd61 100644
--- a/store.go
+++ b/store.go
@@ -350,8 +350,19 @@ func (ms *MemoryStore) ReadFrom(r io.Reader) (int64, error) {
 	if err := gob.NewDecoder(r).Decode(&data); err != nil {
 		return 0, err
 	}
+	if data.Trace == nil {
+		data.Trace = map[ID]*Trace{}
+	}
+
+	// gob decodes the trees and the span index into separate copies of the
+	// spans, so index the spans of the trees anew.
+	span := make(map[ID]map[ID]*Trace, len(data.Trace))
+	for id, t := range data.Trace {
+		span[id] = map[ID]*Trace{}
+		t.index(span[id])
+	}
 	ms.trace = data.Trace
-	ms.span = data.Span
+	ms.span = span
 	return int64(len(ms.trace)), nil
 }
 
diff --git a/trace.go b/trace.go
index dab0e28..311b6a8 100644
--- a/trace.go
+++ b/trace.go
@@ -52,6 +52,14 @@ func (t *Trace) clone() *Trace {
 	return cpy
 }
 
+// index adds t and its descendants to spans, by span ID.
+func (t *Trace) index(spans map[ID]*Trace) {
+	spans[t.ID.Span] = t
+	for _, sub := range t.Sub {
+		sub.index(spans)
+	}
+}
+
 // TreeString returns the Trace as a formatted string that visually
 // represents the trace's tree.
 func (t *Trace) TreeString() string {
-- 
2.43.0


From 0f6c98142d29101ee94ce74d19724600adccbc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:58 +0000
Subject: [PATCH 09/35] fix: keep RecentStore's record of a trace while the
 trace is stored

A trace that was due for eviction when it received another span was dropped
from the record and then stored again, and so was never evicted. The lock is
held until the span is stored, lest another Collect evict the trace between.
---
 store.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/store.go b/store.go
index 12fbd61..d7a48b5 100644
--- a/store.go
+++ b/store.go
@@ -430,16 +430,18 @@ type RecentStore struct {
 // that this trace was first seen.
 func (rs *RecentStore) Collect(id SpanID, anns ...Annotation) error {
 	rs.mu.Lock()
+	defer rs.mu.Unlock()
 	if rs.created == nil {
 		rs.created = map[ID]int64{}
 	}
-	if _, present := rs.created[id.Trace]; !present {
-		rs.created[id.Trace] = time.Now().UnixNano()
-	}
+	// Evict before recording this trace: it may itself be due, and must remain
+	// recorded for as long as the underlying store has any of it.
 	if time.Since(rs.lastEvicted) > rs.MinEvictAge {
 		rs.evictBefore(time.Now().Add(-1 * rs.MinEvictAge))
 	}
-	rs.mu.Unlock()
+	if _, present := rs.created[id.Trace]; !present {
+		rs.created[id.Trace] = time.Now().UnixNano()
+	}
 
 	return rs.DeleteStore.Collect(id, anns...)
 }
-- 
2.43.0


From 946f6a03cccc73849b91bd8e9f65ff89914e0b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 10/35] fix: count trace ID 0 and undeleted traces in
 LimitStore

Slot value 0 stood for a free slot, so a trace with ID 0 was never deleted; and
a trace whose deletion failed was forgotten although it was still stored.
---
 store.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/store.go b/store.go
index d7a48b5..e7a2938 100644
--- a/store.go
+++ b/store.go
@@ -516,14 +516,14 @@ func (ls *LimitStore) Collect(id SpanID, anns ...Annotation) error {
 		return ls.DeleteStore.Collect(id, anns...)
 	}
 
-	if nextInsert := ls.ring[ls.nextInsertIdx]; nextInsert != 0 {
-		// Store is at capacity (we know this because the next insert
-		// slot already contains trace); delete oldest.
+	if len(ls.traces) >= ls.Max {
+		// Store is at capacity, so the next insert slot contains the oldest
+		// trace; delete it.
 		old := ID(ls.ring[ls.nextInsertIdx])
-		delete(ls.traces, old)
 		if err := ls.DeleteStore.Delete(old); err != nil {
 			return err
 		}
+		delete(ls.traces, old)
 	}
 	ls.traces[id.Trace] = struct{}{}
 	ls.ring[ls.nextInsertIdx] = int64(id.Trace)
-- 
2.43.0


From b5c177814c0e7077a0241d98fc674b98a4c53b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 11/35] fix: write PersistEvery's temporary file beside the
 file it replaces

Renaming from the system's temporary directory fails when that is another file
system; the data was not synced before the rename, and a failed attempt left
its temporary file behind.
---
 store.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index e7a2938..73ce014 100644
--- a/store.go
+++ b/store.go
@@ -7,6 +7,7 @@ import (
 	"io/ioutil"
 	"log"
 	"os"
+	"path/filepath"
 	"sync"
 	"time"
 )
@@ -379,18 +380,28 @@ func PersistEvery(s PersistentStore, interval time.Duration, file string) error
 	for {
 		time.Sleep(interval)
 
-		f, err := ioutil.TempFile("", "appdash")
+		// The temporary file must be in the same directory: a rename is only
+		// atomic (or possible at all) within one file system.
+		f, err := ioutil.TempFile(filepath.Dir(file), "appdash")
 		if err != nil {
 			return err
 		}
 		if err := s.Write(f); err != nil {
 			f.Close()
+			os.Remove(f.Name())
+			return err
+		}
+		if err := f.Sync(); err != nil { // the rename may reach the disk before the data
+			f.Close()
+			os.Remove(f.Name())
 			return err
 		}
 		if err := f.Close(); err != nil {
+			os.Remove(f.Name())
 			return err
 		}
 		if err := os.Rename(f.Name(), file); err != nil {
+			os.Remove(f.Name())
 			return err
 		}
 	}
-- 
2.43.0


From e997c7d45ead0d39b0bbb0ae0602bf340ff51825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:29 +0000
Subject: [PATCH 12/35] fix: handle requests with a malformed span ID header in
 httptrace.Middleware

It logged that it continues, and then dereferenced the nil span ID.
---
 httptrace/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httptrace/server.go b/httptrace/server.go
index ce804bf..0bc0595 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -71,6 +71,8 @@ func Middleware(c appdash.Collector, conf *MiddlewareConfig) func(rw http.Respon
 		spanID, spanFromHeader, err := getSpanID(r.Header)
 		if err != nil {
 			log.Printf("Warning: invalid %s header: %s. (Continuing with request handling.)", spanFromHeader, err)
+			root := appdash.NewRootSpanID()
+			spanID, spanFromHeader = &root, ""
 		}
 		usingProvidedSpanID := (spanFromHeader == HeaderSpanID)
 
-- 
2.43.0


From 9e70c560fea92e12bb2b00e6dcf99f30f4dc4ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 13/35] fix: record the status and body length that the HTTP
 client was sent

Only the first final status takes effect, and a failing or short write does not
send all of its bytes.
---
 httptrace/server.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/httptrace/server.go b/httptrace/server.go
index 0bc0595..dc75c37 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -161,11 +161,12 @@ type responseInfoRecorder struct {
 
 // Write always succeeds and writes to r.Body, if not nil.
 func (r *responseInfoRecorder) Write(b []byte) (int, error) {
-	r.ContentLength += int64(len(b))
 	if r.statusCode == 0 {
 		r.statusCode = http.StatusOK
 	}
-	return r.ResponseWriter.Write(b)
+	n, err := r.ResponseWriter.Write(b)
+	r.ContentLength += int64(n)
+	return n, err
 }
 
 func (r *responseInfoRecorder) StatusCode() int {
@@ -177,7 +178,9 @@ func (r *responseInfoRecorder) StatusCode() int {
 
 // WriteHeader sets r.Code.
 func (r *responseInfoRecorder) WriteHeader(code int) {
-	r.statusCode = code
+	if r.statusCode == 0 && (code >= http.StatusOK || code == http.StatusSwitchingProtocols) { // the response's final status
+		r.statusCode = code
+	}
 	r.ResponseWriter.WriteHeader(code)
 }
 
-- 
2.43.0


From 49f32ecc492935c09002ccf906f2bb7f85fcdca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 14/35] fix: stop CollectorServer.Start when its listener fails
 for good

Accept on a closed listener fails at once, every time: Start spun, logging the
same error as fast as it could, and never returned.
---
 collector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collector.go b/collector.go
index c1ac7c8..dddc64f 100644
--- a/collector.go
+++ b/collector.go
@@ -434,6 +434,9 @@ func (cs *CollectorServer) Start() {
 		conn, err := cs.l.Accept()
 		if err != nil {
 			cs.log().Printf("Accept: %s", err)
+			if ne, ok := err.(net.Error); !ok || !ne.Temporary() {
+				return // the listener is closed or broken
+			}
 			continue
 		}
 
-- 
2.43.0


From f4589b1c070c520e14c1dcfb339ba5c638db93f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 15/35] fix: sample every trace when Options.ShouldSample is
 nil

Starting a span with a tracer whose options left it out called a nil function.
---
 opentracing/tracer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opentracing/tracer.go b/opentracing/tracer.go
index a32c22b..6d575ca 100644
--- a/opentracing/tracer.go
+++ b/opentracing/tracer.go
@@ -74,6 +74,9 @@ func NewTracer(c appdash.Collector) opentracing.Tracer {
 // NewTracerWithOptions creates a new opentracing.Tracer that records spans to
 // the given appdash.Collector.
 func NewTracerWithOptions(c appdash.Collector, options Options) opentracing.Tracer {
+	if options.ShouldSample == nil {
+		options.ShouldSample = DefaultOptions().ShouldSample
+	}
 	opts := basictracer.DefaultOptions()
 	opts.ShouldSample = options.ShouldSample
 	opts.Recorder = NewRecorder(c, options)
-- 
2.43.0


From dc6c1b935cd51291d7ec08efef16f2aab43dc689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 16/35] fix: read back float64 event fields at their full
 precision

They were parsed as float32 values.
---
 reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reflect.go b/reflect.go
index fe33dba..47775fb 100644
--- a/reflect.go
+++ b/reflect.go
@@ -118,7 +118,7 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 		}
 		return reflect.ValueOf(&vv), nil
 	case reflect.Float32, reflect.Float64:
-		vv, err := strconv.ParseFloat(s, 32)
+		vv, err := strconv.ParseFloat(s, as.Bits())
 		if err != nil {
 			return reflect.Value{}, err
 		}
-- 
2.43.0


From 99a91ae3ccb4555a735a4d1e7b14b7ff561590ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:07 +0000
Subject: [PATCH 17/35] fix: marshal events with nil pointer fields

Their fields' values were dereferenced, which panicked in the traced program.
---
 reflect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reflect.go b/reflect.go
index 47775fb..a03c2f9 100644
--- a/reflect.go
+++ b/reflect.go
@@ -11,6 +11,9 @@ import (
 )
 
 func flattenValue(prefix string, v reflect.Value, f func(k, v string)) {
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		return // nothing to record
+	}
 	switch o := v.Interface().(type) {
 	case time.Time:
 		f(prefix, o.Format(time.RFC3339Nano))
-- 
2.43.0


From ef28ea1e70698790e33d5283a24a6b9b899207fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 18/35] fix: unmarshal the event fields that follow an absent
 one

Looking for a field without annotations (a nil pointer or an empty slice)
discarded the annotations of all the fields that sort after it.
---
 reflect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reflect.go b/reflect.go
index a03c2f9..66888f0 100644
--- a/reflect.go
+++ b/reflect.go
@@ -188,6 +188,9 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 		return nil
 	}
 	if !strings.HasPrefix((*kv)[0][0], prefix) && t.Kind() != reflect.Map { // map can have 0 fields
+		if (*kv)[0][0] > prefix {
+			return nil // kv is sorted: it has nothing for this field, but may for the next
+		}
 		*kv = (*kv)[1:]
 		return unflattenValue(prefix, v, t, kv)
 	}
-- 
2.43.0


From 55a31bec0bc8fe8708aabd7b520274644d9eafbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 19/35] fix: record baggage in the Python opentracing recorder

A misspelt attribute raised AttributeError for every span with baggage.
---
 python/appdash/recorder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/appdash/recorder.py b/python/appdash/recorder.py
index d86a6de..5690cd0 100644
--- a/python/appdash/recorder.py
+++ b/python/appdash/recorder.py
@@ -36,5 +36,5 @@ class AppdashRecorder(SpanRecorder):
 
         if span.context.baggage is not None:
             for key in span.context.baggage:
-                self._collector.collect(span_id, Annotation(key, span.contex.baggage[key]))
+                self._collector.collect(span_id, Annotation(key, span.context.baggage[key]))
 
-- 
2.43.0


From 499e14578781f857be7585bfe664b48903a4623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 20/35] fix: record Python HTTP events under the keys that the
 Go events read

The keys lacked the Server and Client prefixes, responses overwrote requests,
and headers were written as one value under the key Headers.Headers.
---
 python/appdash/event.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/python/appdash/event.py b/python/appdash/event.py
index fee99c5..dc4711e 100644
--- a/python/appdash/event.py
+++ b/python/appdash/event.py
@@ -112,13 +112,15 @@ class SQLEvent:
 
 # _flattenReqRes flattens the request or response info dictionary. It has very
 # defined functionality primarily to avoid code duplication four times below in
-# marshaling of HTTP events.
-def _flattenReqRes(reqRes, into):
+# marshaling of HTTP events. The prefix is that of the Go event's field, e.g.
+# "Server.Request".
+def _flattenReqRes(prefix, reqRes, into):
     for k, v in reqRes.items():
         if k == "Headers":
-            into["Request.Headers." + k] = str(v)
+            for name, value in v.items():
+                into[prefix + ".Headers." + name] = str(value)
         else:
-            into["Request." + k] = str(v)
+            into[prefix + "." + k] = str(v)
     return into
 
 # HTTPServerEvent represents a HTTP event where a client's request was served.
@@ -184,13 +186,13 @@ class HTTPServerEvent:
 
     def marshal(self):
         d = {
-            "Route": self.route,
-            "User": self.user,
-            "ServerRecv": self.serverRecv,
-            "ServerSend": self.serverSend,
+            "Server.Route": self.route,
+            "Server.User": self.user,
+            "Server.Recv": self.serverRecv,
+            "Server.Send": self.serverSend,
         }
-        d = _flattenReqRes(self.requestInfo, d)
-        d = _flattenReqRes(self.responseInfo, d)
+        d = _flattenReqRes("Server.Request", self.requestInfo, d)
+        d = _flattenReqRes("Server.Response", self.responseInfo, d)
         return d
 
 # HTTPClientEvent represents a HTTP event where a outbound request to a server
@@ -247,10 +249,10 @@ class HTTPClientEvent:
 
     def marshal(self):
         d = {
-            "ServerRecv": self.serverRecv,
-            "ServerSend": self.serverSend,
+            "Client.Recv": self.serverRecv,
+            "Client.Send": self.serverSend,
         }
-        d = _flattenReqRes(self.requestInfo, d)
-        d = _flattenReqRes(self.responseInfo, d)
+        d = _flattenReqRes("Client.Request", self.requestInfo, d)
+        d = _flattenReqRes("Client.Response", self.responseInfo, d)
         return d
 
-- 
2.43.0


From 7835cf1d0e961b86bf8134179d09cea25056b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:58 +0000
Subject: [PATCH 21/35] fix: do not write trailer values into the memory of the
 caller's header

---
 httptrace/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httptrace/client.go b/httptrace/client.go
index 0fa6fc7..aedeec8 100644
--- a/httptrace/client.go
+++ b/httptrace/client.go
@@ -91,7 +91,7 @@ func redactHeaders(header, trailer http.Header) map[string]string {
 		if isRedacted(k) {
 			h[k] = redacted
 		} else {
-			h[k] = append(h[k], v...)
+			h[k] = append(h[k][:len(h[k]):len(h[k])], v...) // not into the header's memory
 		}
 	}
 	m := make(map[string]string, len(h))
-- 
2.43.0


From e163a96da293e5a2b4e76244895bcd49a9a1fca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:58 +0000
Subject: [PATCH 22/35] fix: record a header that is present in several
 spellings completely

---
 httptrace/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/httptrace/client.go b/httptrace/client.go
index aedeec8..094ca1f 100644
--- a/httptrace/client.go
+++ b/httptrace/client.go
@@ -96,7 +96,11 @@ func redactHeaders(header, trailer http.Header) map[string]string {
 	}
 	m := make(map[string]string, len(h))
 	for k, v := range h {
-		m[http.CanonicalHeaderKey(k)] = strings.Join(v, ",")
+		ck, val := http.CanonicalHeaderKey(k), strings.Join(v, ",")
+		if prev, ok := m[ck]; ok { // also present in another spelling
+			val = prev + "," + val
+		}
+		m[ck] = val
 	}
 	return m
 }
-- 
2.43.0


From 2d193b8b9fe128d2b4b9199878d3a5d097bb7da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:01 +0000
Subject: [PATCH 23/35] fix: record status 200 for a response that was flushed
 before its status was set

---
 httptrace/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/httptrace/server.go b/httptrace/server.go
index dc75c37..c6da023 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -199,6 +199,9 @@ func (r *responseInfoRecorder) partialResponse() *http.Response {
 // implements http.Flusher.
 func (r *responseInfoRecorder) Flush() {
 	if f, ok := r.ResponseWriter.(http.Flusher); ok {
+		if r.statusCode == 0 { // flushing sends the header
+			r.statusCode = http.StatusOK
+		}
 		f.Flush()
 	}
 }
-- 
2.43.0


From 6b3eb66fd9dfc5175cceb4f26dc14e1b73a720ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:15 +0000
Subject: [PATCH 24/35] fix: do not read an absent event field from another one
 whose name begins like it

---
 reflect.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reflect.go b/reflect.go
index 66888f0..978e5b4 100644
--- a/reflect.go
+++ b/reflect.go
@@ -187,7 +187,7 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 	if len(*kv) == 0 {
 		return nil
 	}
-	if !strings.HasPrefix((*kv)[0][0], prefix) && t.Kind() != reflect.Map { // map can have 0 fields
+	if !inField((*kv)[0][0], prefix) && t.Kind() != reflect.Map { // map can have 0 fields
 		if (*kv)[0][0] > prefix {
 			return nil // kv is sorted: it has nothing for this field, but may for the next
 		}
@@ -315,6 +315,12 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 	return nil
 }
 
+// inField tells whether a key is that of the field with the given prefix, or
+// of a part of it. (Another field's name may begin with the same characters.)
+func inField(key, prefix string) bool {
+	return prefix == "" || key == prefix || strings.HasPrefix(key, prefix+".")
+}
+
 func fieldNames(v reflect.Value) map[int]string {
 	t := v.Type()
 
-- 
2.43.0


From 73344bf27930493b6b98cc7b7b83ab34a91d52be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:30 +0000
Subject: [PATCH 25/35] fix: reading events with pointer, interface, map or
 named fields panicked

---
 reflect.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/reflect.go b/reflect.go
index 978e5b4..ecf93f7 100644
--- a/reflect.go
+++ b/reflect.go
@@ -83,14 +83,20 @@ func (v structFieldsByName) Less(i, j int) bool { return fieldName(v[i]) < field
 func (v structFieldsByName) Swap(i, j int)      { v[i], v[j] = v[j], v[i] }
 
 func parseValue(as reflect.Type, s string) (reflect.Value, error) {
+	if as.Kind() == reflect.Ptr {
+		v, err := parseValue(as.Elem(), s)
+		if err != nil {
+			return reflect.Value{}, err
+		}
+		vp := reflect.New(as.Elem())
+		vp.Elem().Set(v)
+		return vp, nil
+	}
 	vp, err := parseValueToPtr(as, s)
 	if err != nil {
 		return reflect.Value{}, err
 	}
-	if as.Kind() == reflect.Ptr {
-		return vp, nil
-	}
-	return vp.Elem(), nil
+	return vp.Elem().Convert(as), nil // as may be a named type
 }
 
 func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
@@ -177,7 +183,7 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 	case reflect.String:
 		return reflect.ValueOf(&s), nil
 	}
-	return reflect.Value{}, nil
+	return reflect.Value{}, fmt.Errorf("can't parse a value of type %s", as)
 }
 
 func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]string) error {
@@ -216,8 +222,17 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 
 	switch t.Kind() {
 	case reflect.Ptr:
+		if v.Kind() == reflect.Ptr && v.Type() == t { // a field (or the pointer to an event)
+			if v.IsNil() {
+				v.Set(reflect.New(t.Elem()))
+			}
+			v = v.Elem()
+		}
 		return unflattenValue(prefix, v, t.Elem(), kv)
 	case reflect.Interface:
+		if v.Kind() == reflect.Interface && (v.Elem().Kind() != reflect.Ptr || v.Elem().IsNil()) {
+			return nil // there is nothing to read it into
+		}
 		return unflattenValue(prefix, v.Elem(), v.Type(), kv)
 	case reflect.Bool, reflect.Float32, reflect.Float64,
 		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
@@ -266,7 +281,11 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 			if err != nil {
 				return err
 			}
-			m.SetMapIndex(reflect.ValueOf(strings.TrimPrefix(key, keyPrefix)), vv)
+			kk, err := parseValue(t.Key(), strings.TrimPrefix(key, keyPrefix))
+			if err != nil {
+				return err
+			}
+			m.SetMapIndex(kk, vv)
 			*kv = (*kv)[1:]
 			found++
 		}
-- 
2.43.0


From 5f5b1685440dc9ac8210773672c970d464dbc6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:34 +0000
Subject: [PATCH 26/35] fix: record pointers to times and durations in the form
 that is read back

---
 reflect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reflect.go b/reflect.go
index ecf93f7..e0d6d20 100644
--- a/reflect.go
+++ b/reflect.go
@@ -22,6 +22,9 @@ func flattenValue(prefix string, v reflect.Value, f func(k, v string)) {
 		ms := float64(o.Nanoseconds()) / float64(time.Millisecond)
 		f(prefix, strconv.FormatFloat(ms, 'f', -1, 64))
 		return
+	case *time.Time, *time.Duration: // not as the fmt.Stringers that they are
+		flattenValue(prefix, v.Elem(), f)
+		return
 	case fmt.Stringer:
 		f(prefix, o.String())
 		return
-- 
2.43.0


From 0e8efc48f8017bbeb9a10b2aecafb5cac503da54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:37 +0000
Subject: [PATCH 27/35] fix: do not panic on annotations with an element index
 out of range

---
 reflect.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/reflect.go b/reflect.go
index e0d6d20..b533b8b 100644
--- a/reflect.go
+++ b/reflect.go
@@ -189,6 +189,10 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 	return reflect.Value{}, fmt.Errorf("can't parse a value of type %s", as)
 }
 
+// maxElems limits the length of slices that are read from annotations, whose
+// keys anybody may have made up.
+const maxElems = 1 << 20
+
 func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]string) error {
 	if !sort.IsSorted(kvsByKey(*kv)) {
 		panic("unflattenValue: kv must be sorted (using kvsByKey)")
@@ -313,6 +317,9 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 			if err != nil {
 				return err
 			}
+			if i < 0 || i >= maxElems || t.Kind() == reflect.Array && i >= t.Len() {
+				return fmt.Errorf("index out of range: %q", key)
+			}
 
 			elems = append(elems, elem{i, val})
 			if i > maxI {
-- 
2.43.0


From 10d58c14b6f1740ec61bc712bdfb4964546a06bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:59 +0000
Subject: [PATCH 28/35] fix: recording a nil pointer in an interface field
 panicked

---
 reflect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reflect.go b/reflect.go
index b533b8b..0d6b701 100644
--- a/reflect.go
+++ b/reflect.go
@@ -14,6 +14,9 @@ func flattenValue(prefix string, v reflect.Value, f func(k, v string)) {
 	if v.Kind() == reflect.Ptr && v.IsNil() {
 		return // nothing to record
 	}
+	if v.Kind() == reflect.Interface && v.Elem().Kind() == reflect.Ptr && v.Elem().IsNil() {
+		return
+	}
 	switch o := v.Interface().(type) {
 	case time.Time:
 		f(prefix, o.Format(time.RFC3339Nano))
-- 
2.43.0


From 3add810673ff5afb94ea22bff3a4769f382472d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:52 +0000
Subject: [PATCH 29/35] fix: durations were read back up to a nanosecond short

---
 reflect.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reflect.go b/reflect.go
index 0d6b701..4dc0e24 100644
--- a/reflect.go
+++ b/reflect.go
@@ -2,6 +2,7 @@ package appdash
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"strconv"
@@ -119,7 +120,7 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 		if err != nil {
 			return reflect.Value{}, err
 		}
-		d := time.Duration(usec * float64(time.Millisecond))
+		d := time.Duration(math.Round(usec * float64(time.Millisecond)))
 		return reflect.ValueOf(&d), nil
 	}
 
-- 
2.43.0


From cc3267eb74e7416788f056f09ba1c66a7f0740de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:30 +0000
Subject: [PATCH 30/35] fix: do not ignore errors of looking up traces that are
 uploaded

---
 traceapp/app.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/traceapp/app.go b/traceapp/app.go
index 3c1fd73..13122ba 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -315,10 +315,13 @@ func (a *App) uploadTraces(traces ...*appdash.Trace) error {
 	// ones that would collide / be merged together).
 	for _, trace := range traces {
 		_, err := a.Store.Trace(trace.Span.ID.Trace)
-		if err != appdash.ErrTraceNotFound {
+		if err == nil {
 			// The trace collides with an existing trace, ignore it.
 			continue
 		}
+		if err != appdash.ErrTraceNotFound {
+			return err
+		}
 
 		// Collect the trace (store it for later viewing).
 		if err = collectTrace(a.Store, trace); err != nil {
-- 
2.43.0


From 43432837606acddcc69cbea533f6fbf7c4bb8708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:00 +0000
Subject: [PATCH 31/35] fix: show span names as text in the trace page's
 tooltip and context menu

The page's script put the name of a span into the tooltip of the timeline and
into the context menu as HTML, so that a span named, say, <img src=x
onerror=...> ran as markup in the browser of whoever looked at the trace.
(data_vfsdata.go holds the same file, compressed.)
---
 traceapp/tmpl/data/trace.html | 4 ++--
 traceapp/tmpl/data_vfsdata.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/traceapp/tmpl/data/trace.html b/traceapp/tmpl/data/trace.html
index da40cad..ebea6b7 100644
--- a/traceapp/tmpl/data/trace.html
+++ b/traceapp/tmpl/data/trace.html
@@ -346,7 +346,7 @@
     function ctxMenuOpen(e, datum, obj) {
       $("#contextFilterMenu").hide();
       $("#contextMenu").data("dataObject", obj);
-      $("#contextMenu .name").html(datum.label);
+      $("#contextMenu .name").text(datum.label);
       $("#contextMenu").css({
         display: "block",
         left: e.pageX,
@@ -382,7 +382,7 @@
           div.find('#name').text(visibleData[index].fullLabel);
           div.find('#name').attr("title", visibleData[index].label);
 
-          tip.html(visibleData[index].fullLabel);
+          tip.html($("<div>").text(visibleData[index].fullLabel).html());
           tip.show(this, $("#timelineItem_"+index)[0]);
         } else {
           tip.hide();
diff --git a/traceapp/tmpl/data_vfsdata.go b/traceapp/tmpl/data_vfsdata.go
index 345b77f..c68c7b5 100644
--- a/traceapp/tmpl/data_vfsdata.go
+++ b/traceapp/tmpl/data_vfsdata.go
@@ -58,8 +58,8 @@ var Data = func() http.FileSystem {
 		"/trace.html": &_vfsgen_compressedFileInfo{
 			name:              "trace.html",
 			modTime:           mustUnmarshalTextTime("2016-04-28T10:40:52Z"),
-			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x09\x6e\x88\x00\xff\xec\x3c\xfd\x77\xe3\x36\x72\xbf\xfb\xaf\x40\xb8\xe9\x89\x4a\x24\xda\xde\xcd\xb5\x3d\xd9\x56\x5f\x6e\x3f\x9a\xbd\x4b\xb2\x79\xf1\x66\xaf\xad\xb3\x2f\x0f\x12\x21\x89\x6b\x8a\xe4\x11\x90\x65\x65\x4f\xff\x7b\x67\x06\x1f\x04\x28\xca\x96\x7d\x49\xda\xd7\xeb\xbe\x44\x96\x40\x60\x30\x18\xcc\x37\x06\xfc\xf8\x31\x15\xb3\xac\x10\x2c\x7a\x9b\xa9\x5c\x44\xdb\xed\xc7\x8f\xd9\x8c\x25\x6f\x6b\x3e\x15\xc9\xeb\x17\xc9\x77\xbc\x16\x85\xda\x6e\x65\xc5\x0b\xf6\xf1\x63\xf3\xe0\x12\x1a\xb6\x5b\x36\x84\x46\x51\xa4\xf0\x4d\xe1\x93\xa0\x0b\x7d\xa1\x3e\xbc\xaa\x52\x2e\x17\xa6\xeb\xd1\x51\x33\xed\x37\x3c\x2b\x22\x6c\x3a\x97\xd3\x3a\xab\x14\x93\xf5\xf4\x22\x02\x28\x7f\xe4\x52\xfc\xf0\xfd\xd7\x30\xb3\xe2\x2a\x9b\x1e\x3f\xe7\x73\x91\x1e\xa7\xcf\x86\x2a\xab\x8e\xb3\x22\x15\xb7\xc9\x07\x19\x8d\xcf\x8f\xf5\xb8\xf1\xd1\x79\x9e\x15\xd7\xac\x16\xf9\x45\x24\xd5\x26\x17\x72\x21\x84\x8a\xd8\xa2\x16\xb3\xfb\x01\x8a\x5b\xbe\xac\x72\x31\xd4\x23\x93\xa9\x04\xd0\x88\x13\xfe\x1c\x1f\x31\xf6\x64\x5a\x56\x9b\xe1\x07\x59\x16\xa3\x45\x79\x23\x6a\xf6\x11\x1a\x19\x9b\xae\x6a\x59\xd6\x23\x56\x95\x59\xa1\x44\x7d\x06\x8d\xdb\x23\x40\x49\x0f\x3b\x3a\x5f\x9c\x8e\xdf\xee\x23\x0b\xf4\x25\x5a\x17\xa5\xea\xa0\x37\x81\x3f\x27\xaa\x13\xb4\x8b\x68\x56\x16\x6a\x28\xb3\x9f\xc5\x88\x9d\x3e\xad\x6e\xcf\x18\xa0\x01\xeb\xe0\xf9\x90\xe7\xd9\xbc\x18\xb1\x65\x96\xa6\xb9\x38\x8b\xc6\x34\x96\xb1\xd8\xfc\xd5\x50\xb2\xf4\x22\xa2\x45\x54\xa2\x5e\x72\xa4\xd5\x70\x9a\x67\x95\xeb\x0d\xfd\x78\x47\xa7\x88\xa5\x5c\x71\xea\x3a\x29\x79\x9d\x0e\x95\xb8\x55\x44\xcf\xef\x6c\x97\xed\xd6\xa3\xb2\xdf\x3a\x76\x3f\xce\x8f\xb9\x9d\x07\xa8\x03\xe8\xd8\x5f\x7f\xeb\xc6\x11\x09\x6d\xd0\xf3\xb1\xc2\xe6\xfd\x08\xfd\xe9\xf2\xcd\xb7\x86\xb6\xd1\xf8\xe5\x6d\x55\xd6\x8a\x71\xc9\xb0\x19\xe7\x0f\x27\xee\x1f\xb5\x91\xb1\xcc\x79\x7e\x0c\xbb\x06\x7b\xf7\xc9\x70\xc8\xde\x02\xec\x2f\x6b\xc1\x59\x5c\x00\x42\xaf\x72\xe0\xe1\x3e\x9b\xf1\x3c\x9f\xf0\xe9\x35\x9b\x95\x35\x7b\x0e\x78\x7d\xfe\x1d\x97\x4a\xb0\x72\x46\x73\x69\x41\x90\x6c\x38\x1c\x03\x9f\x2b\x01\x7c\xc5\xe1\x69\xf4\x7a\x89\x18\x69\xbc\x60\x11\xd9\x54\x41\xdb\x8b\x88\x79\x2b\xc6\xa5\x44\x56\x14\x59\xf4\x83\x14\x6c\xaa\xea\xfc\xf3\x29\x83\x99\xa6\xe5\x72\xc9\x8b\x14\x7e\xa8\x92\xe1\x18\xa6\x16\xc2\x9b\x91\x4d\x44\x5e\xae\x47\x30\xee\x1d\xcf\x57\x30\x3e\xae\x6a\xe0\xca\x19\x8b\xae\xfe\x49\xbe\x8f\x2c\x8f\x5d\x2a\x68\x9d\xf7\x7d\x91\x53\x9b\x0a\xf8\x0b\x27\x3f\xfe\xc0\x6f\xb8\x6e\x25\xc6\x88\x67\xab\x62\xaa\xb2\xb2\x88\xfb\x86\xe3\x6f\x38\x60\x92\x67\xc0\xa3\xec\x82\x15\x62\xcd\xfe\x4b\xd4\xe5\x73\xbb\x19\x31\x4b\xcb\xe9\x6a\x09\x4f\x93\xb9\x50\x2f\x73\x81\x5f\xff\xb8\x79\x9d\xc6\xde\x06\xf6\x59\xff\xec\x48\x8b\x0f\x01\x4a\x00\x7c\x04\x44\x4e\x37\xd1\x80\xb9\x09\x19\xb5\xbc\xbc\xc1\x99\xec\xe4\xc1\x08\x3e\x03\x89\x43\xa8\xc1\x28\xd1\x1a\xc0\x18\xcf\x41\x4e\xe2\x88\x08\xa5\x85\x11\x06\x65\x22\x25\x32\x5a\xc4\x93\xa8\x7f\x66\x46\x6c\xcd\xb7\xad\xc5\xf2\xf8\x98\xbd\x29\x18\x2f\x36\xe1\x5a\x99\xa8\x6b\xd8\x16\xa4\xf2\x92\xd7\x59\xbe\x61\xeb\x85\x28\x18\x31\x09\xcb\x24\xc9\x35\x50\x33\xcb\xf9\x24\x17\x7d\xb6\x16\x16\x98\xe3\x1f\x40\x60\x25\x61\x33\x68\x23\x41\x2b\x15\x29\x82\xc5\x7d\x00\x25\xc0\x93\x36\x89\x68\x3e\x7f\xb1\x62\x87\x2e\xa9\x90\xaa\x2e\x37\x71\xdf\x34\x7f\x1a\x47\x4f\x3c\xc2\x27\xd0\x6d\x7a\xbd\xbb\xa9\x3b\x5d\xb5\xec\xf5\x93\x45\x96\x8a\xd8\x51\xa6\xdd\x89\xd8\x15\x80\x96\x79\xce\x2b\x29\xe2\x48\x2e\xca\x75\x74\x67\x77\x96\xd8\xe5\xc1\xc0\x19\xf0\x8a\x8c\xfb\x89\x14\xb9\x98\xaa\xf8\xce\x1d\xf8\xb6\x6c\xe8\x86\xc4\x15\x22\x85\x2d\x44\x09\x44\xe2\x39\x75\xc5\xe2\x89\x98\xf2\x15\x08\x0e\x36\x53\x4b\xa6\x00\xfe\x0c\x07\x61\x93\x05\xd2\x4f\x1c\x3b\xbb\xc1\xcf\x1f\xcd\xd7\x8d\xba\x24\xe6\x46\xc8\x2d\xa8\x0f\x61\x72\x47\x36\x0f\x6c\x7b\xeb\x84\xbf\x77\x22\xa9\x6a\x62\xfc\x17\x62\xc6\x57\x79\x07\x29\xbb\xf1\x79\xa0\x08\x39\x75\xde\x29\x41\x3f\x16\x3f\x16\x6f\x81\xc2\x60\x63\x2d\xcd\xa7\x60\xb2\xc0\xbe\x6b\xca\x03\xd0\xac\x16\x5a\x57\x0d\x58\x59\x80\xc0\xc8\x05\x70\x02\x74\x66\xeb\x4c\x2d\xd8\xac\x06\xc4\x52\xf9\x49\xb7\x28\xe2\x27\xae\xab\x31\xf8\x47\xe7\x69\x76\x33\xa6\x4f\x32\x11\x4f\x08\xf4\xb0\xc3\xd4\x46\x80\x26\x97\x12\x74\x1c\xf5\x50\xd9\x52\xc0\x32\x04\x7a\x0f\x21\x08\xb2\xed\xdf\x0b\x49\xca\x8f\x5a\xcd\x40\xe0\xf1\xb2\x16\xe9\x8b\xec\xc6\x0d\x32\x1d\x70\x58\xc1\x97\xa2\xab\x1d\x30\x05\xd9\x10\xe9\x4f\x60\xb2\xbc\xd9\x82\x3f\x47\xcd\xec\x48\x2e\x90\x8e\x6f\x44\xb1\x72\x18\xa7\x75\x59\xa5\xe5\xba\x80\xdf\x82\xd7\xb3\xec\x56\xa3\xb6\xca\xdb\x1d\x86\x4b\x1a\x06\x13\x82\x2e\xd7\xdf\x41\x2b\xf1\x21\xa8\x1f\x81\x38\x4c\x36\x4d\x5f\x3d\x83\xf1\x2b\xd2\x4c\x82\x85\xda\x8c\x26\x79\x39\xbd\x3e\xab\x4a\x99\x21\x1b\x8c\xb4\x97\x74\x06\xaa\x6d\x9e\x15\xc3\x49\xa9\x54\xb9\x1c\xfd\x1e\xfc\x0e\xe3\x31\x80\xbb\x65\x26\x03\xde\x93\xb0\xb9\x1c\x87\x39\xbc\x91\x24\xcc\xe1\xb6\x00\x36\x17\x35\x52\x20\xcf\xc6\x47\x76\x3c\xda\x76\xc5\x27\xe4\xcc\x5d\x44\xc3\x53\x63\xda\x39\xf1\xe1\x05\x69\x93\xe1\x74\x91\xe5\x29\xb8\x44\xd6\xc5\x78\x62\x3a\xa9\x72\x3e\xc7\xc9\x55\x59\xe6\xe0\xc0\x99\x56\x58\xc8\x94\x64\xf3\x22\xaa\xb3\xf9\x02\x8c\xa9\x42\x5b\xaa\x61\x01\x1b\x03\xd5\x0c\x3c\x6d\x2d\x81\x31\x41\x2f\xa0\x0f\x10\x8d\x2f\xb1\xcb\x73\xf3\x58\x3b\x0c\x88\xec\x61\xb8\xa2\xa2\xfc\xa5\x70\x45\x58\xf7\xe0\xfa\x15\x76\x79\x2c\xae\xb3\x2c\x07\xb1\xff\x05\x08\x7a\xdc\x81\x29\x38\xd9\x29\x08\x37\xe3\xcc\x4c\x33\x7e\x45\x7f\x1b\x24\xf7\x63\x19\x22\x64\xd1\x9d\xe6\xa5\x04\xe1\x79\x8e\x7f\xfc\xa5\x9e\x1f\xaf\xf2\x3b\xa4\x48\x4f\xfb\x7f\x42\x96\x76\xc5\x88\xbc\x65\x4f\xd2\x22\xeb\xdd\x8e\x98\x25\x77\x48\xea\xac\xa8\x56\xbe\xa3\xe7\x60\xeb\x5d\x42\x43\xba\x1c\x22\xe5\x00\x8d\xc7\x31\x04\xc2\x86\x5d\xbf\x16\x9b\xd1\x0d\xfa\x9f\xac\xe2\x59\x0d\x5e\x53\xca\x70\x4d\x12\xd5\x3f\xcc\x03\x16\x03\x62\xc1\x5c\xfb\xae\x96\x11\x09\xe6\xa2\xcc\x61\x6d\x17\x3d\x07\x20\x49\x92\xde\x6f\xc0\x32\x86\x0e\x37\x99\x58\x7f\x53\xa6\x42\xb3\xc4\x64\x05\x5b\xa4\xe3\x91\x89\x2a\x2e\xc1\x63\xbf\x04\xa7\x45\xbd\x05\xc3\xe1\x28\x07\x0f\x18\xfc\x3f\x4c\xb5\xcd\x05\x05\x82\x01\xc7\x1f\x37\xe8\xc9\xc1\x17\x34\x32\xe7\xc7\x1a\xd0\x1e\x98\x2f\x8b\xf4\x30\x88\x60\x16\x0f\x81\xf7\x62\x55\x87\x8c\xb3\x17\x60\x6a\x7a\xde\x03\xf0\x6b\xe4\xf7\xfb\xa1\x91\x58\x34\xa0\x1a\xfa\x92\x54\xf8\xe1\x85\x8e\xab\x19\x4b\xf8\x2d\xe8\xb2\x8a\xab\xc5\xc0\xfd\x42\x8b\x6c\x7c\x0e\x60\x8c\x7c\x04\x0e\x74\x21\xb4\xfd\x47\xa7\xf6\x1a\xe2\xde\x09\x30\xca\xb5\x69\x5a\xf0\x4a\x0c\x41\xe5\x00\xd3\x80\x0b\x3d\x62\xe0\x14\xc8\xea\x65\x3a\x17\x52\x47\xe1\x16\x2c\x79\x9d\x06\x2c\x46\xd0\x33\xbe\x04\x5f\x7d\xc4\x24\x2f\xe4\x50\xc2\xe0\xd9\x59\xf3\xd0\x84\xd7\x27\x20\x9a\x16\x88\x75\x16\xb4\xf0\x3f\x14\xd2\xd3\x06\xd2\x13\x0b\xe9\xa9\xc1\x4c\x83\x02\x97\xa4\x90\x28\x7e\x23\xfd\x15\x83\xc5\x18\x10\x18\x3c\x83\x0f\xe3\xff\x0c\x97\x72\x78\x4f\x3f\x76\xfc\x19\x7b\xfd\x92\xfd\x81\x7d\x76\xac\x87\xac\xc5\xe4\x3a\x53\x87\x0c\xbb\xe4\x33\xd0\x6e\x24\xaa\xcf\x17\x75\x09\x76\xdb\xc2\x28\x0f\x19\xfe\x06\x3c\x4b\xee\x86\x2c\xcb\x9f\x0f\x19\xf4\x0a\x5c\xc1\x59\x79\xab\x87\x11\x75\xac\xeb\xc5\x92\xc6\xd7\x32\x24\x5a\x08\xd4\x34\xa3\xa7\xb8\x2d\xe0\x2a\xa6\x6a\x61\xbe\xcf\xf2\x92\xab\x51\x2e\x66\xea\x6c\x07\xcc\x13\xf2\x40\x34\x00\xab\x96\x59\x56\xd0\x56\x6a\xf5\x4c\x8f\x8c\x4e\x46\x18\x23\x76\x92\x3c\x13\x4b\x07\xca\x73\xc7\x06\xee\x57\x63\x56\x1e\xc9\x0a\xe0\x89\x5b\xb3\xc0\xf8\x44\x96\xf9\x4a\x19\x2e\x77\x58\x36\x8c\xff\xf3\x90\x74\x1d\xb2\xe4\x49\x17\x5e\x2c\x09\x4c\xd6\x18\xd4\x9c\x4e\xd4\x85\x00\xbd\xf5\x56\x3c\x4d\x49\x5e\x9e\x55\xb7\xec\xe9\x89\xc5\x89\x2c\x22\x74\x2c\xd5\xc2\xc3\x7c\xad\x09\xcf\xbe\xd0\xb3\x33\x92\xd1\xa1\xd9\x0e\x76\x9a\x7c\xf1\xf4\x5f\x7f\xff\x2f\xa7\x5f\x3c\x33\x30\x70\xdf\x46\xec\xc9\xb3\x67\xa6\x61\xbd\xc8\x94\x18\x02\x42\x53\x81\x8b\x5a\xd7\xbc\xda\xc9\x90\x3d\x32\x05\x81\xea\x1e\x02\x35\xf0\xf5\xdf\x65\xf2\x05\xfc\xd8\x6e\xcf\xdc\x43\xf4\x4d\xde\x1a\x61\x7b\xbe\x40\x65\x4c\x3d\x2f\xdb\xcd\xfe\x18\x62\x2b\xe8\x07\xb1\x57\x62\xc2\x16\x30\x4d\xfd\x84\xda\x63\x2f\x10\x15\x4b\x0c\x6b\x30\xf7\xa6\xc3\x1a\x6d\x59\xe3\xac\xc0\x27\xab\x02\x22\x9f\x3e\x5a\xb9\x2a\xbb\x15\xb9\xd4\x0d\x24\x5a\xb5\x50\xab\x1a\x42\xa1\x4c\xe9\xc8\xd3\x2e\x0b\x86\xc5\x62\xf9\x83\x1e\x68\x43\x2e\xc4\x08\x77\xe0\x12\x58\x07\x90\xaa\x78\x2d\xc5\x2b\x64\xf6\xf8\xd3\xb8\x37\x29\xd3\x4d\xaf\x8f\x39\xca\xb8\xe7\x18\xac\xd7\x77\x51\x93\x9e\xa9\x19\xff\x19\x33\xf0\x4d\x30\xe5\x96\x52\xac\x96\xaf\x40\xde\x5f\x7a\xd8\xe1\x8a\xa0\x79\x82\x2e\x01\x3c\x32\x81\x5b\x8a\xb9\x2d\x8a\xb3\x4b\x85\x61\x1c\xb8\x7c\x1b\x36\xe7\xf5\x84\xcf\x5d\x56\x43\x52\x5e\x69\x00\xb1\xe8\x3c\x61\x91\xd5\x75\xaf\x95\x58\xfe\x74\xfa\xc5\x17\xcf\x22\x36\x1c\x33\xfc\x12\x2e\xbe\x41\x21\x06\x00\x0d\x01\xcc\x1a\x68\xe1\xaf\x0b\x85\x0f\x93\x25\x57\xd3\x45\x7c\x1c\xff\x98\x7e\xde\xff\xf4\xb8\x7f\x75\xf2\x7e\x00\x72\xd1\x6f\xaf\xea\x35\x2c\x15\x30\xc4\x95\x4f\xca\x52\xc1\x48\x5e\x31\xe3\xc4\x48\x4d\x7b\x20\xe2\x55\xa7\x8f\xf3\x1e\xe8\x6a\xbe\xfb\x7b\x2e\x85\xb2\xce\x36\xb0\x5b\x36\x01\xa3\xb6\xe6\xf9\x35\x92\xab\x2e\x57\xf3\x05\xd1\x86\x58\x12\x77\x7a\x06\x32\x2b\x43\xb7\x18\xd8\x63\x9a\xaf\x50\xf0\x2c\x48\x90\x4d\xc5\x21\xcc\x06\x51\x87\x7d\x37\xe4\x9d\x67\x10\x7a\x93\x8b\x0f\xb1\x2b\x7b\xad\x50\x3b\xc1\x2c\x82\x4f\x17\xd8\x11\xb3\x99\x37\x66\xfe\x58\xd5\xe0\x63\x95\xb5\x97\x54\x92\xa2\xdf\x62\xad\x5d\xbc\x63\x0d\x7c\x60\xe1\x78\x49\x87\x04\xa7\x89\x71\x15\x5e\x32\x20\x83\x48\x1d\x30\xab\xfd\x6c\x40\x36\x8b\xa9\x2d\xa9\x28\x57\x7d\x49\x10\xd9\x27\x17\x06\x71\xbf\xab\xdd\xc8\x26\x25\xb4\x75\xdf\x34\x0c\xbb\x9e\x0b\x8b\x51\xd3\xb5\x03\x7b\x3d\xa6\xbd\x86\x9d\x74\x81\xdb\x38\x70\x04\x0b\xf1\x66\xf2\xe1\xdb\xf2\x05\x70\x82\xfe\x29\x3d\x52\x97\x93\x0f\x62\x0a\xd2\x8b\x9b\x05\x7b\x90\xa9\x9e\x44\x0f\x56\x4b\x2c\x79\xa1\xb2\x8f\x1b\x61\xe1\xf9\x62\x42\xc0\x06\x0c\xbc\x1e\x9d\xbe\x40\x18\x34\xd6\xa8\x0f\x4c\xec\xa5\x38\x6b\x9c\xf4\x61\x20\x39\xb9\x29\x75\xb5\xd0\x56\xe8\xbc\xc8\x29\x18\x3b\x99\xb0\xb7\x18\xdd\xc1\x7f\x2b\x29\x66\x10\x91\xd8\x34\xd6\x2b\xca\x65\xd5\x82\x2b\x83\x19\xcd\x45\x70\x81\x1b\xf8\x74\x0a\xbe\x75\x59\x4b\x0b\x32\x2b\x40\xf7\xc8\xd5\x64\xa8\x57\x26\x31\x71\xad\x40\x6d\x83\xcd\x22\xa1\x45\xc4\x01\x4c\x9b\x51\x42\x3a\xc5\x65\xa8\x89\x0a\x4d\x3d\x50\xa2\xdb\xb3\x90\x5b\x4a\x8f\x55\xae\x61\x43\xfc\xbd\xd7\xa3\xae\xae\x13\xb3\xf6\xf8\xf8\xc7\xe4\x78\x3e\xe8\xfd\xd4\xeb\xbf\xc7\xed\xde\xc9\x50\x19\x99\xd7\xe3\xda\x3b\xa9\x63\x05\xcb\x0f\xaf\x56\x3f\xff\xbc\x41\x52\x49\x43\xa0\x12\xf0\x80\x26\xb0\xbd\xbc\x9e\x2e\x76\xe5\x32\x76\xa2\x5c\x89\x69\x36\xc3\x63\x93\x7c\x33\xd0\xea\x0e\xfc\x04\xbd\xe1\x8a\xcf\x41\x16\xf1\x1b\x06\xb6\x2d\x11\x16\x3a\xe9\x87\x7b\xcf\x15\x6c\x80\x53\xa2\x25\x8a\x29\x68\xa6\x16\x49\x3b\x10\x76\xc2\xa7\x9f\x35\xc4\x02\x30\xb4\x8c\x05\x6e\x29\xec\xd6\x32\xd3\x11\x20\xf2\xe4\xb3\xa7\x80\x03\xaf\x21\xb4\x01\x9d\x6c\x96\x07\x8e\x33\xfc\x2a\x8c\xce\x95\x03\x26\x4b\xb6\x16\xec\xc3\x4a\xaa\x06\xa2\xcc\xb3\x29\x51\x06\x20\x80\xfa\x81\xc0\x1c\xba\x2d\x05\xea\x11\x8a\xc5\x24\x5b\x02\xe7\xb1\x18\xac\x34\x80\x5c\x97\xab\x3c\x65\x3e\xcf\x95\xac\xe6\x99\x14\x0d\x40\xf0\x2b\xc4\xed\x54\x54\x88\x99\x61\x20\x66\x96\x02\xfb\xa9\xbf\x24\x34\x6b\x7c\x32\x80\x59\xad\x02\xa5\xc1\xdf\x0b\x3c\x2b\x03\xa1\x03\x26\x04\xda\x4e\xd1\xa8\x10\xb3\x92\x72\xd3\xe7\x5c\x60\x9f\x51\x68\xcc\x06\xe0\x57\xa7\xf9\x6c\x5e\xa1\x01\x58\xae\x1c\x39\x40\x7e\x20\x1e\x91\x89\xc7\xb2\x76\x8a\x0b\xb0\x30\x79\x6e\x39\xac\x69\x75\x5c\xeb\xeb\xb0\x20\x1d\x7e\xb0\x3a\x24\x6c\x9e\x2f\x04\x26\xf4\x91\x35\x28\x99\x8f\xeb\x59\x8b\x1e\xd0\x37\x2f\xcb\x6b\x5a\x95\x42\xe9\xe6\x9a\xa1\x42\x85\xaf\x71\x08\x01\x22\x84\xc4\x6b\xda\xab\x74\xf7\x2d\xa0\x91\xa8\x33\xaf\x6d\x7b\x14\x4e\xf3\x9d\xa8\xd1\x51\xc7\x74\x0d\x89\x94\xa1\x28\xb0\x9e\xcb\x36\xc9\x1e\x29\x9e\x84\xfd\x05\x64\xa9\xd4\xed\xdc\x1c\x6f\xe4\xf9\x2e\xd6\x12\xd8\xf8\x06\xfc\xa2\x14\x3d\x05\x90\x33\xad\xb6\x50\x2d\x59\xd8\x03\xda\x62\xe2\xb2\x35\x47\x91\xb2\x42\x49\x5d\x43\x88\xfe\x38\x9f\x1e\xb8\xc9\xc8\x76\x6d\xcd\x45\x34\xaa\xf9\x1a\x7d\xc2\xfe\x59\x6b\xc0\x0c\xa7\xd4\xe9\x7d\x9c\x3d\xbe\xaa\xc1\x85\x08\x49\x86\x72\x72\x29\x0a\xf4\xd0\x6f\xc0\x6b\x25\xb3\x3a\x08\x7a\x00\x9b\x82\xa8\x60\xec\x8b\xe1\xcd\xaa\xf5\x14\x34\x8f\x90\x98\xcb\xa0\x68\x62\xd0\x2c\xe4\x4b\xe0\x84\x35\x66\x40\x6c\x07\x64\x07\x92\x40\x94\xe2\xa9\x1a\x00\xcf\xcf\x01\x79\x6c\xce\x41\xa9\x27\x01\x58\x24\xcc\x88\xbd\x21\xa5\x9e\xe0\x8f\xb8\xee\x0f\x10\x2c\xae\x13\x64\x4f\xe4\xa9\xdc\x4b\xab\xed\x0e\x21\x8c\xc4\x90\x20\x48\x91\xe8\x51\xb1\x51\x4b\x67\x2d\x1e\x79\x21\x2a\x10\x1a\xe4\x61\x60\x8b\xf5\x42\x20\x89\xf1\x40\x12\x39\x80\xd2\x38\xfb\x38\x87\x21\xf7\x81\xd8\xae\xaa\x10\x20\x1e\xa5\x19\x0c\x06\x8d\xb8\x64\x8d\x73\x03\xc0\x41\x01\x00\x03\xf9\xab\x68\xfb\x0b\x56\xea\x73\x51\xcc\xc1\x24\x8e\xd9\xc9\x2e\xe2\x9e\x9e\x21\xd9\xc4\x89\xc0\xc4\x5b\xa5\xee\x83\x37\xba\x21\x70\x31\x3c\xba\x35\x34\xdc\x86\xca\x24\x0e\xba\xee\x33\x58\xbf\x91\xbf\x48\x16\xd1\xa6\x5e\x91\x1f\xd0\x81\xd4\x5a\x54\xeb\x1d\xec\x6b\x41\xf2\x80\xe0\xb0\x9b\x89\x79\x72\xe4\x58\x56\xb3\xa6\xdd\x5b\xd8\x21\x5d\xb6\x91\xb2\xc9\x46\xe7\xfa\x20\xca\xc8\x91\xaf\x4d\x0b\x86\x80\x05\x2d\x8a\xb3\xbf\xae\x20\x58\x30\x5e\x54\x1b\x32\xfb\xb3\xd8\x8c\x22\x71\x0b\x72\xef\xfa\x44\xad\x3e\xaf\x00\x29\x53\x96\x31\x6a\x0f\xff\x16\x6c\xf6\x28\xfa\x5e\xfc\x15\x1c\x34\xd5\x1e\xf8\x7a\xd6\x90\x20\x2d\x85\x6c\x4c\x34\x11\x8d\x4f\xca\x1b\x2b\x74\xc6\x5f\x40\xde\x36\x36\x75\xb0\x67\xff\x64\x06\x7c\xa6\xc0\x78\xe1\x01\xa2\x64\xf6\xfc\x16\xc5\x67\xa8\x8d\x93\x2f\x06\x00\xf0\x4e\x77\xe0\x2e\x4f\xe0\x1d\xc4\x2e\x78\x5e\xe4\xa5\x48\x7d\xcb\x06\x21\x7d\x66\xb2\x10\x9e\xd5\xc5\xc6\x38\x1a\x35\x47\x67\x60\x2f\xbc\x9e\x56\x48\xc0\x5e\x3c\xf5\x8d\x04\x4c\xf7\x4d\x26\xe9\x0c\x5a\x6f\x1d\x1e\xa8\x06\x9b\x3e\x08\x8e\xab\x03\x51\x07\xfc\x3c\x09\x3a\xc0\xdf\x69\xa4\x29\x34\x4c\x5b\x6f\x79\xd7\xec\xc2\x5f\x22\x04\x79\x67\xde\xd3\x9b\xd6\xd3\xd3\xf7\xde\x7a\x6f\xa0\x33\xac\xf0\x82\xf5\xa2\x1e\xfb\xdb\xdf\xd8\xcd\xd5\x8d\x59\xf7\xf0\xd4\x3d\xd8\xb3\x7a\x9f\x59\xff\x67\x89\x00\x48\x61\x89\x46\x05\x46\x80\xa7\xd6\x1d\x82\x18\x36\xcb\x1d\x9e\x52\xc7\xe6\x84\xec\xc8\x52\x07\x5d\x6a\xe3\x7d\x9d\x82\x27\xee\x56\xde\xa8\xf3\xdf\x2c\xc2\xf3\x09\xac\x1d\xa3\x6c\xd6\xe8\x79\xed\xe4\xa2\xee\x70\x41\x16\xca\xf9\x14\x85\x8b\xa4\x94\x2c\x0d\x78\x77\x21\xef\x7b\x58\x19\xf3\x7e\x75\x0d\x71\xc4\x45\x18\x74\xec\x9a\x09\x34\xd1\x1e\x72\xe0\xc7\x4b\x71\xe7\x00\x32\xf9\x5d\x01\x6b\x4b\x84\xc3\x58\xb4\xb5\xbb\xbb\xa1\xe8\x5f\xb0\x38\x04\x89\x00\x1a\xa3\xd6\x67\x22\x26\x14\xa5\x63\x0a\x66\xb3\xef\xba\x93\xc9\xf1\xb1\x25\x25\x1f\xc1\xb7\xa7\xa3\xb6\x4c\xa1\x17\xe6\x4c\x82\x98\xe6\x78\x7e\x6e\x3d\x32\x0e\x3c\x09\x1b\x86\xaa\xa3\xc9\x00\x18\xc3\x47\xc8\x06\x50\x01\x98\x58\x82\x29\x6c\xec\xc1\x5f\x57\xd9\xf4\x1a\x36\x81\xa6\x6a\x23\x81\x13\xac\x05\xd8\xa8\x58\x0a\x53\x6a\xb4\x13\x44\xaa\x5b\xcc\x49\x7e\x49\xbf\x68\x51\x7e\x95\xc2\xfe\x1a\x05\x5d\xee\xd0\x1c\x7d\x87\x65\x27\x5b\x9b\xb1\x09\xf2\x9e\xfc\xaa\xe3\xc0\x07\xb3\x37\x58\xd6\x40\xa5\x12\xd1\xa0\x03\x21\x2f\xa7\x13\x3c\xc4\xd4\x20\x9d\xa9\x9a\x2a\x91\x0c\xad\xce\xd2\x1e\xc4\xb9\x32\x13\x9f\x20\xe0\x46\xe0\xa8\x23\xc7\xe7\xc6\x50\x20\x53\x07\xc7\xb3\x66\x67\xe5\x5d\xd4\xb2\xf3\xc7\xa2\x23\x33\xd3\x49\xd7\xb3\xc0\x24\x90\x7c\x5e\x74\x50\x12\xa9\x14\x47\xf8\xa9\x7d\x47\x68\xd2\xbd\xed\xf8\x03\x52\x44\xa6\xa7\x4d\xe9\x7d\x85\x19\xf6\x78\x87\xbf\x75\x11\xcb\x02\x96\x9f\x63\x6c\x89\x24\xd3\x7e\x87\xcf\x44\xb8\xce\x63\xa2\x8e\x26\x4a\x72\xc8\xe6\x86\x75\x00\xed\x4d\x0e\x2a\x62\xf6\x53\x15\xd5\x40\xdf\x89\xe5\x3d\x33\x86\xa7\xf9\x8f\x9c\x51\x67\xe4\x82\x22\xa6\x80\x46\x8e\xab\x8c\xab\x22\x57\x13\xa4\xd1\x41\x24\x31\x27\xa7\x77\x62\xd6\xd8\x13\xad\x60\x28\xd7\x51\x62\x05\x4f\xb0\x27\xc9\xdd\x5c\xd6\x40\x79\xa1\x4f\x13\xb4\x22\xf7\x71\x0d\x24\xd8\x3b\x1f\x49\xe8\x64\x1a\xa4\x59\x2d\xf3\xb8\xc5\x9a\xe1\xc3\x7e\x97\x2e\xf0\x0e\xf0\x75\xb2\xbb\x51\xda\xee\x60\x23\xa2\x93\x8d\xa8\x09\xc1\xf4\x39\xce\xae\x1c\xe0\xf8\x08\x1f\x46\xfd\xa6\xb3\x2a\xab\xbd\x7d\xe1\x59\xd4\xdf\x49\x51\x79\xdb\xe2\x2f\x54\x6f\x47\xaf\x5d\xc9\xe6\x6f\xfd\x57\x56\xa9\x9a\xdd\x36\x50\x86\x86\x92\xba\x76\xb0\xd3\x3c\x4c\x3d\xf3\xb0\xc3\x1c\x1e\x16\x07\xa9\xc4\x2e\x0e\x39\x48\x33\x07\xbb\x11\xe8\x67\x6f\x91\xa1\x8d\xc3\x33\x1d\x49\x39\x27\x45\x36\xdd\x84\x61\x8e\x04\xc4\x82\xfa\xf8\xc4\x95\x09\x08\x53\x28\xe0\xdc\x70\x30\x7d\xed\x82\x01\x2a\x22\xe8\x2a\x8f\x01\x02\xf3\x7a\x2e\x94\x97\x3c\xb9\x6f\xc3\xc0\x0d\x59\x55\x9d\x55\x75\xe0\x6d\x08\x7c\xfc\xbc\x84\x8d\x03\xd7\xe7\xf4\x99\xef\x67\x18\xa7\x47\x57\x26\x2a\x8d\x73\xb2\xeb\xc9\x7d\xd5\x65\x4a\x07\x6c\x5e\xf3\x49\x1b\x5f\x86\x2a\x57\x87\x83\x7a\x91\x38\xaa\x15\xa7\xfe\xbd\xca\x7e\x4f\x10\xf2\x69\x8c\x2e\x44\x3f\x01\x5f\x0c\x44\xf1\x01\x7b\xbf\xcf\x28\x58\x96\x68\x1b\xbb\x37\x15\xcc\x0a\xaa\x11\x50\x5c\x2d\x07\x98\x7d\x6f\x17\x3d\xde\x37\xdf\x01\x8b\xd6\x70\xf7\x0c\x08\xf5\x0e\xe1\x91\xd0\xc1\xfe\x1d\x33\x3c\x4c\xf7\x80\x34\xf1\xb9\xf8\x8f\x96\x96\xd1\xad\xff\xb9\xa3\x50\xec\x59\x5d\xe3\x73\x6e\x5b\xa4\x6b\x51\xd8\xd7\xeb\x24\x6e\xb5\x98\xac\x60\x3f\x6d\x19\xb1\xed\x4e\x42\x32\x9d\x96\x2b\x30\x38\x68\x68\xa6\x60\x75\xe6\x42\x92\x2f\xb9\x5c\x49\x68\xcc\x6a\xf8\x14\xcb\x4a\x6d\x1a\x88\x99\xc2\x32\x73\xf0\x7d\x94\xc8\x37\x9e\x76\x4f\x5a\x85\x93\xfd\x84\x06\xc6\x81\x81\xc0\x52\x78\xca\x41\x13\x22\x2e\xb5\x60\x0e\x22\x4c\xca\x82\xb2\x1e\x88\x50\xc5\x75\xe4\x45\x5a\x81\x6e\x61\x68\xd8\x3e\xaf\x1b\x18\x2f\xf4\x61\xef\xd5\xfb\xb3\x7b\x23\x19\x9f\xa3\x48\x86\x3f\x81\xa6\x64\xc7\xa5\xf2\x44\xb8\xc3\xd1\xf7\xa6\x4d\xaa\x95\x5c\xc4\x3e\x43\x6d\xfd\x10\xdb\xef\x69\x42\x6c\x88\x48\x4e\x3a\x34\x85\xd3\x0d\xde\xf2\xa8\x56\xe1\xad\x3e\x6e\x74\x99\x6a\xef\x39\x92\x04\x65\x94\xb6\xde\x4f\x5a\xe3\x19\x50\x56\x0c\xe8\x60\x40\x0d\x18\xd5\x08\xb4\xd6\xad\xbb\x84\x2b\xa6\xc4\x78\x76\x43\xba\xa3\xe7\x2a\x25\x7a\x3b\xd9\x41\x3a\xc8\xc7\xe4\x20\xc1\xd7\xf5\x18\x32\x0e\xba\x01\x98\x04\xf3\x56\x71\xcf\x2b\xd7\xb0\x87\xd2\x18\x28\xcf\x6b\x60\xbd\x74\x48\x0f\x7b\x03\x03\x32\xd6\x98\xee\x81\x44\x15\x1b\x78\x00\x0b\xa2\xe7\x53\xf6\x8a\x46\xbd\x4f\x66\x40\x9f\xaf\x03\x59\xed\x1e\xcf\x95\xaa\xc1\x80\xd3\x25\x8a\x01\xeb\x00\x64\x05\xde\x83\x02\x3b\xa0\x55\xc2\xc1\xf3\xe2\x08\xf4\x4c\x49\x77\x0e\x48\x6d\x04\x87\xde\xd1\xe7\x7a\xb1\x57\x27\xef\xfb\x77\xc6\x9f\x34\x75\xab\xce\x7e\xdb\x66\x97\xf0\x5c\x3b\x10\x74\xbd\x49\x1e\xdb\x4c\x4d\xc9\x43\xfa\xcc\x15\x2f\xb9\x0b\x01\xe1\x3f\x53\xdd\x40\x9f\x7b\x7a\x48\x05\x9b\xb9\x6f\xb8\x2e\x9e\x89\x3f\x92\xe6\x13\xcb\xf8\x9f\xfb\x03\x46\x55\x81\xa3\x93\x01\xe9\x3d\xf8\x63\xaa\x1d\x4f\xb6\x7b\x60\x10\x1b\x3a\x0b\xcc\xe2\x14\xf8\xd9\x58\x08\x74\xaf\x03\x19\xa0\x43\xef\x86\xed\xd1\xb9\xde\x83\x58\x09\x1e\x48\xb9\x52\x87\xc2\xd5\x69\xfe\x03\x00\x87\x55\xf8\x6d\xa8\x9d\x63\x18\x5b\x03\x27\x94\xeb\x04\xcc\x05\x85\x93\x09\x16\x2d\xe2\xfe\x90\xf5\x59\xd5\xf9\xd9\x9e\x71\xc7\xc7\xba\xf0\x1e\xaf\xae\x24\xfa\xac\x2f\x9b\x6d\x8c\xd5\x32\x49\x90\x01\xa9\x8d\x01\x7b\x1a\x4a\x55\xf3\x6f\x1b\xe8\x68\x9f\x89\xb4\xe2\x09\xf4\x4d\x65\xd9\xa6\x8a\x8d\x1c\xf5\xa8\xf8\x0f\x24\xb8\xa7\x6f\xca\xf5\x3c\xd3\x5f\x25\xe5\x6c\x06\x01\x64\x7c\x35\x3c\x85\x9d\x26\x46\xf7\x3d\x95\x9b\xb9\x06\x67\xbc\xe2\x0e\x2b\x02\xae\x1d\xa6\xd0\x23\xe8\x1a\x59\xc1\x25\x6e\x04\xc1\xdd\xcb\x95\x09\x11\xc0\x97\x54\xd0\x3b\xe0\x10\xc6\xb4\x7d\x9d\x23\xa8\xdc\x28\x8e\x70\xaf\x67\xe0\x2b\x02\xf4\xc8\x0c\x8f\x3a\xfb\x13\x38\x58\x60\xb8\xa0\xe6\xac\xd3\x2a\x62\x54\x55\x7d\x5f\xef\x32\x6a\xb2\xb6\xe0\x9c\x9d\x7e\x81\xcc\x66\xac\x3c\x3e\x3a\xf3\xec\x8c\xd7\x9c\x40\x1c\x00\x3b\x8c\x07\xa7\xe8\x68\x7e\xce\xa2\x24\x49\x22\x67\x35\xfc\x68\xff\x53\x52\x5f\xd2\xd4\x2a\x85\x24\xd5\xb0\xc2\x92\xc5\x28\x60\x80\x6f\xf8\xb5\xee\x85\x27\x35\x14\xa0\xbb\xb1\xe6\x84\x9b\x11\x8f\x0f\xf1\xd6\x52\x12\x18\xe6\x0f\x92\xd2\xe9\x45\xcf\x3f\x64\x16\x62\x89\xae\x06\x1d\xf9\x71\xb6\xc6\xf8\x10\x0b\x10\x2a\xba\x7d\x47\x99\x29\xc1\x65\xd6\x38\x13\x26\x4d\xaf\xfd\x97\xe6\x40\x71\x82\x09\x55\xe4\x12\xe7\xc7\x20\x8a\x06\xa3\x01\x1d\x91\xd8\x27\x18\xac\x38\x5c\x41\xfb\x7a\x27\xd4\x97\xef\xfe\x1d\x88\x3a\x55\x7d\xed\x49\x63\x6e\x96\x4a\x88\xec\x50\xf0\x9b\xcd\x71\x37\x9e\xca\x62\xc9\x29\x56\x95\xb6\x8a\x95\xa2\x7e\x17\xae\x78\xb3\x05\x24\x41\xd9\xea\x28\x72\x67\xf4\x99\xae\xae\x02\x03\x5d\xaf\x7d\x19\x4c\x5d\xfa\x7e\xc1\x5e\x2f\x8a\xcd\xc7\xe6\x06\x15\x79\x33\x9d\xb7\xb2\x70\xc3\x35\xec\x0b\xbf\x56\xca\x7a\xec\x48\x0b\x27\xa9\x59\xda\xf3\x95\x00\x0e\xd5\x35\xab\x17\x96\x67\x8c\x45\xf3\x2c\x5f\x23\x9d\x04\xd0\x93\x05\x0a\x1b\xb5\x1e\x05\xa9\xf1\x43\xc7\xb6\xa2\xbb\x4b\x45\x93\x09\x0c\x0e\xa0\xf7\xcc\xb1\x52\xad\x29\xee\xd6\xd0\x1a\x6e\x07\xb4\x9d\x40\xb7\x8d\xed\x1e\x65\xdc\x61\xf7\x5b\x9a\x79\xdb\xef\xa4\x9b\x76\x26\x0e\x25\xdc\x01\xc4\xfa\x55\x49\x44\xbe\x95\xd6\x63\x1a\xf3\x24\x2b\x0a\x51\x7f\xf5\xf6\x9b\xaf\x21\xf2\x73\x3d\xbd\x58\xbe\x16\xa6\x6e\x41\xc7\x44\x94\xac\x88\xa9\xc8\x8f\x2c\xbd\xd6\x16\x7d\x73\x69\x0c\x82\x8b\xb2\xd2\xe3\x7c\x58\x41\x0e\xb0\x2c\x9c\xff\x42\x71\x2f\x0a\x2c\xc4\x26\xb9\x48\x02\xd6\x25\x25\x1f\xd8\x8f\x90\xe9\xd1\xaf\xd2\xc1\x5f\xdf\x3b\x24\x42\x39\xbb\xd2\x1e\x19\x2d\xef\xbd\x49\x7f\x34\xc8\xef\x24\xf0\x8c\x16\xee\x0e\x51\x77\xd9\xa2\x1f\x1c\xa7\xb7\x04\xf1\x57\x9c\xab\x75\xa2\x00\x2e\x3e\x85\x52\x9f\xe8\xb8\x81\xfd\xee\x77\xbb\x65\xaf\x0d\xeb\xdf\x93\xbb\x95\x9c\x4e\x44\xe9\xe4\xa0\xac\xb5\x9e\x93\xa0\xc0\x8f\xec\x66\x60\x0b\x55\xfb\x5f\x38\x90\xe8\x6c\x8f\x58\xaf\x67\x03\x5d\x73\x1c\x0e\xaa\xf6\x4d\x9d\x8a\xba\x55\x3a\xa1\x0b\x2d\xed\x13\x4b\x13\x84\xd1\x36\x9f\x40\x4e\x8a\xd1\xe9\xc0\x8e\x3a\x84\xde\xb2\x7b\xae\x9f\x9e\xb5\x9f\xb5\xf0\xd8\x3d\xd0\x71\x76\xf7\xb4\xf3\xcc\x6a\x0f\x90\x4f\xba\xda\xcf\x76\x51\x6f\xf5\xe8\x0a\x39\xd9\xf0\xf4\xce\x80\xa0\x0b\x3d\xff\xef\xd6\x2b\x4c\xc5\x3d\x99\x98\x2b\x27\x30\xe7\x4f\xb8\xd1\xad\xfc\x01\x51\x3e\xb8\xc2\x12\x87\xe5\x7d\x08\xc4\x2e\xd3\x6e\x74\xe2\x6d\x58\xdc\x23\xf0\x04\xbb\x71\xff\x90\xfb\x12\x1c\xda\x18\x2e\x70\x46\x27\xad\xf3\xd5\x1b\x7d\x98\x9d\xb9\xca\x2d\x43\xaa\x4d\x25\xc0\x82\x72\x72\x55\xa4\x3e\x9b\xd5\x89\x02\x3a\xb9\x35\x8f\x27\x1d\x8f\xfb\x5d\x44\x44\x90\x06\x56\x13\x86\x43\x1c\x8e\xb0\x26\x1d\xed\x01\x10\x1f\x5d\xc7\xf4\x2d\xa8\xa0\x61\x92\x80\xc6\xe0\xda\x4d\xf6\x3c\xea\xdc\xf2\x86\xc6\x9f\x75\x6d\xff\x9d\x53\x8d\x1f\x39\xd5\x21\x4c\x76\xd2\xc1\x64\x07\x1e\xf8\x58\xde\xd3\xdc\x7e\x27\xe7\x99\x8b\x4e\x0f\xe6\x3b\x00\xfd\x8f\xce\x75\x1e\x75\x43\x9e\xf3\x1e\xfc\x02\x1c\xe7\x4f\x33\x7e\xd4\x34\xbf\x11\xb7\xd9\x9b\x6b\xfb\x58\xcd\xde\x81\x7b\x30\xaf\x59\xc0\xff\xc0\xbc\x66\x49\x10\x32\x9a\x6d\xfd\x05\xb8\xcc\x4d\x30\x7e\xf8\x04\xbf\x11\x7f\xe9\x88\x89\xe7\xd5\x02\xbe\x28\x5d\x27\xee\xdc\xa0\x86\xcd\xbe\x36\x81\x55\xe3\x8e\x3f\x8c\xdb\x68\x9a\x5f\x9a\xd5\x34\xee\xc4\x4b\x3a\x5b\x14\xb2\xda\xee\xe3\x87\x70\x89\x8e\x16\x54\xf9\x35\x56\xb1\x3e\xe7\x12\xb5\xf9\xb9\x85\x1a\xb6\x3f\x9e\x53\xba\x26\x19\x3f\x66\x92\x5f\x9b\x5b\x84\x76\x90\x31\xec\x51\x98\xf1\x30\x35\x1e\xf4\x1c\x53\xc1\x3b\xb7\x86\xed\x0b\x3c\x3a\xdc\x31\x57\x93\xe0\x86\xd9\x8b\xc1\xbb\x83\xcc\x93\xdd\x21\xee\xee\xef\xee\x18\xfb\x68\x77\x90\xbe\xdf\xbb\x3b\xa2\xc9\x76\xef\xbc\x73\xc3\xbc\x17\x89\xde\xa3\xf3\x16\x73\x44\xf4\x9e\xa3\x3b\x6e\xfa\xda\x8b\xd5\x66\x07\xcc\xfd\xc3\x21\x9d\x8a\x9d\xea\xdb\x96\x4d\xab\x49\x16\xdb\x07\x74\xdd\xb1\xaa\x4b\x08\x58\xc5\x3b\x80\x33\x60\x4f\x60\x3b\x26\xa5\xa4\x20\x09\x5b\xda\x37\x1d\xed\xd5\x49\xba\xba\x3b\xcb\x6e\x45\x3a\x54\x88\xe5\xd0\xdd\xe9\x33\x23\x26\xa5\x8e\x45\x82\x01\xd4\x15\x22\x00\xff\x6a\xa7\xbd\x03\xa9\x4b\x27\xda\x5d\x53\xc7\x58\x6b\x00\x38\x9c\xd4\x82\x5f\x8f\x18\xfd\x19\xf2\xdc\x74\xf7\xae\x3b\x22\xf1\xfe\xb4\x92\x2a\x9b\xe1\xfb\x53\x6a\x9e\x66\xe5\xd0\xf0\x8e\x2e\x3b\x5c\x67\xa6\x02\x0e\xb4\xcf\x5a\x40\x28\xed\xca\x84\x0d\x1d\x18\x12\x54\xbf\x5d\xaa\xeb\xfe\x3a\xdd\xd0\xc6\xc3\x97\xaa\xf9\x36\xfc\xe0\x66\x6c\xda\x6e\x65\xeb\x9e\xbf\x41\x23\xa2\x0b\xe0\x84\x59\x69\xae\x60\x9e\x6b\xcd\xd1\xba\x06\xae\xdf\x7b\xb4\x61\x58\x70\x70\x23\xec\x9b\x0c\xfc\x17\x0d\x10\x90\x88\xc2\x34\x8d\x60\x64\x2f\x97\xdb\xed\x8b\x74\xfd\xdf\x45\x44\x47\x7c\xd4\x32\x76\x5f\xcf\x8f\x09\x98\xbe\xb8\x4f\x28\xdc\x8b\xcc\xc3\xb0\x78\x17\xf2\x92\x43\xc6\xb4\x33\x0f\xa9\x9d\xa6\x5f\x1d\xb9\xef\x1a\xb6\x77\x88\x99\x36\x83\x93\xff\xab\x0b\x1d\x7b\x0f\x1f\x99\xee\x88\xfd\x89\xdf\xf0\x4b\x7d\xd9\x76\x8a\x7c\x82\x49\x5b\x7a\x7d\x07\xb0\x16\xbd\x1d\xc5\x9d\xce\x1e\xb7\x58\x2d\x0d\xeb\xff\xb3\xe9\xe2\x48\x73\xae\xab\x59\x94\x26\x79\x2b\xd2\x23\xad\x0d\xee\xbb\xd4\x8b\xc9\x50\xc7\xb1\x84\xf9\x48\x53\x02\x74\x11\x1d\x54\xc7\xdd\x86\x35\x4b\x29\xed\xad\x73\x2e\xfa\xb8\x20\x4b\x83\xa2\x67\xec\x71\xc1\x02\x1e\x6b\xbf\xe5\x2a\x75\x0f\xf4\x01\x5e\x93\x62\x69\x9b\x8a\x56\xef\xf0\x94\xce\xe5\x0c\x82\x59\xdb\x3c\xd5\x9e\xfc\xa6\xfd\xfc\x10\x1c\x76\x07\x1d\x82\x8a\xcf\x41\x6d\x34\x2a\xff\xd9\x21\x28\x84\x03\xda\xd3\xeb\xf4\x94\xff\x6a\x26\xb2\x12\xba\x92\x12\x0c\x0a\xde\x5c\x20\xde\xc2\x4d\x07\x97\x68\x53\x82\x04\x10\xab\xac\x72\x62\x78\x47\xe5\xe0\x4d\x4d\xe6\x3d\x4c\x79\x16\xb4\x6a\x11\xc1\xdc\x61\xf3\xae\x27\x2c\x51\x6e\xde\x4a\x19\xd9\x37\xfa\x35\xaf\xb2\xc4\x1b\x03\xee\xad\x8a\xaa\x2e\xf1\x44\x40\xbf\xb8\xc4\x7b\x5f\x14\x8e\x74\x3f\xf5\x08\xd4\xdd\xd8\xdb\xbd\x23\x10\x48\xf3\x30\x38\x0e\xab\x1d\x50\xfa\x5d\x98\x6d\x4c\x69\x29\x5f\x16\x45\xa9\x8b\x4f\xa5\x9d\x4d\x5b\x1c\x4b\x08\x6d\x7e\xac\x69\x4b\x45\x81\x57\x10\xf4\x6f\x74\xee\x2a\x91\xba\x37\x3b\x7e\xfc\x58\xa3\x48\x31\x93\xf7\xf5\x40\xef\x9b\xb2\xbf\x6d\x0e\xa9\x34\x6a\xaf\xed\x36\x7a\x4f\x10\xa7\x7a\x7c\xae\x16\xb8\xd6\x3f\x8b\x0d\xae\x10\x7e\x9c\xab\x14\x1a\x00\x09\x96\xd0\x8b\x08\xa9\x39\x1d\xc3\x47\x3d\xf6\xa0\xea\xd5\xef\xfe\x82\x7e\xb8\x8a\x90\x48\xa4\xd5\x32\x54\x69\xf8\x02\x97\x86\xbb\x8c\x60\xdc\xcd\x5b\x6d\xe9\xf9\x7f\x16\xfb\x5f\xc6\x62\x8f\x65\xa3\x47\xb3\x8d\x6f\xdf\x02\x8e\xb1\xef\x90\xf2\xb5\x1d\xf1\x87\x26\x46\xf8\xce\x00\x6c\x32\x3e\xd4\xaa\xce\xf5\xdb\x4f\xf5\x38\x7a\xcd\x6c\x74\x27\x21\xcd\x40\xfd\x2e\x8d\x8b\xe8\xe9\x1f\xfe\x60\xdd\x03\x85\x6f\x79\x72\x6f\x4b\xf5\x85\xe6\x1c\x6f\x7e\xe3\x28\x0c\x3d\x10\x1c\x72\xeb\xca\xe2\x40\x97\x00\x2f\xa2\x6f\xe9\x75\x50\xf8\x49\x64\x7c\xd8\x60\x8a\x3a\xc6\xf8\xc9\xe2\xa5\xec\x3f\x12\x82\x2d\x30\x34\x90\x3e\x6f\x4a\xe1\xff\x1e\xa0\xab\x65\x34\x86\x8f\x55\xce\xd1\xdf\x64\x9d\x48\x36\xdc\x81\xad\x8e\x8e\xe7\x0a\xdf\x99\xe1\x3a\x21\x1b\xbc\xd4\x37\xcb\xb4\xe6\x30\x77\xee\xa9\x2c\xad\x16\xc8\x15\xee\x18\x9a\xf6\xee\x87\xd7\xdd\xdb\x91\x8e\x8f\xd5\xb2\xfa\xb7\x59\x59\x5e\x20\xd2\xc4\xa0\xc1\xe3\xd3\x93\xdf\x9f\xec\xb6\x3e\x3b\x39\xe9\x68\x7d\xda\x6e\xf6\x59\x1d\xb9\xd3\xb4\xd9\xa5\x38\x8e\x0f\xfd\x3c\x3a\xb7\xa3\x80\xce\x78\x6c\xdc\xb2\xfb\x90\xd8\x5d\xaf\xa8\x2e\xd7\x54\x0a\x88\xf7\x6f\xb1\xea\x0f\x6f\x7b\x8b\x34\xc3\xb3\x38\xa0\x06\xd3\x85\xba\x47\x38\xb2\xd2\xa5\xe9\x43\x3a\xab\xc3\x22\xc6\xe4\x70\x1f\xcf\xf7\x1a\x4c\xc8\x14\xd1\x21\x59\x4f\xd7\x18\x00\x16\xc9\x44\xea\x07\xbd\xe6\xac\x8c\xe1\xa1\x18\x61\xf8\xa9\x39\xe7\xb7\xee\x0b\x15\xb6\x85\xe7\xb7\xf8\x12\x29\x73\x5e\x84\x63\x12\x90\xbd\xc6\xd9\xd9\x73\xd8\x6b\xfa\xd9\xa8\x7e\xc7\x7b\xb1\xfa\xe3\xbf\x03\x00\x00\xff\xff\x00\x13\x40\x2c\x1e\x5b\x00\x00"),
-			uncompressedSize:  23326,
+			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xec\x7c\x6b\x97\xdb\x36\x92\xe8\xf7\xfe\x15\x15\x3a\x77\x44\x26\x12\xd5\x6d\x67\xee\xbd\xa3\x6e\xe9\x9e\x8c\x1f\x37\x9e\x71\x1e\x27\x76\x32\xbb\xdb\xf1\xc9\x81\xc8\x92\x08\x37\x45\x70\x00\x50\x6a\xa5\x47\xff\x7d\x4f\x01\x20\x09\x52\x54\xbb\xed\x4d\xb2\x7b\x76\xd6\x1f\xda\x14\x08\x14\x0a\x85\xaa\x42\xbd\xc0\xbb\xbb\x14\x57\xbc\x40\x08\xde\x70\x9d\x63\x70\x38\xdc\xdd\xf1\x15\xc4\x6f\x24\x4b\x30\x7e\xf9\x2c\xfe\x8e\x49\x2c\xf4\xe1\xa0\x4a\x56\xc0\xdd\x5d\xfb\xe2\x75\xc9\x8a\xc3\x01\x26\x70\x77\x87\x45\x7a\x38\x80\xa6\x37\x9d\x2e\xe6\xc1\xf4\x61\x65\x99\x32\x95\xb9\xae\x67\x67\xed\xb4\x5f\x33\x5e\x04\xd4\x74\xa5\x12\xc9\x4b\x0d\x4a\x26\xf3\xe0\xee\x2e\xfe\x33\x53\xf8\xc3\xf7\xaf\x0e\x07\xa5\x99\xe6\xc9\xf4\x29\x5b\x63\x3a\x4d\x9f\x4c\x34\x2f\xa7\xbc\x48\xf1\x36\x7e\xa7\x82\xc5\xd5\xd4\x8e\x5b\x9c\x5d\xe5\xbc\xb8\x01\x89\xf9\x3c\x50\x7a\x9f\xa3\xca\x10\x75\x00\x99\xc4\xd5\xfb\x01\xe2\x2d\xdb\x94\x39\x4e\xec\xc8\x38\x51\x2a\x58\x10\x4e\xf4\x73\x71\x06\xf0\x28\x11\xe5\x7e\xf2\x4e\x89\x62\x96\x89\x2d\x4a\xb8\x3b\x03\x00\x48\x2a\xa9\x84\x9c\x41\x29\x78\xa1\x51\x5e\x9e\x01\x1c\xce\xae\xa6\x6e\xd8\xd9\x55\x76\xb1\x78\x73\x8a\x2c\x67\x00\x86\xd6\x85\xd0\x03\xf4\x36\xe0\xaf\x0c\xd5\x0d\xb4\x79\xb0\x12\x85\x9e\x28\xfe\x0b\xce\xe0\xe2\x71\x79\x7b\x09\x5b\x94\x9a\x27\x2c\x9f\xb0\x9c\xaf\x8b\x19\x6c\x78\x9a\xe6\x78\x19\x2c\xcc\x58\x80\xd0\xfd\x6f\xa1\xf0\x74\x1e\x98\x45\x94\x28\x37\x8c\x68\x35\x49\x72\x5e\x36\xbd\x01\xae\xd8\x40\xa7\x00\x52\xa6\x99\xe9\xba\x14\x4c\xa6\x13\x8d\xb7\xda\xd0\xf3\xbb\xba\xcb\xe1\xe0\x51\xd9\x6f\x5d\x34\x3f\xae\xa6\xac\x9e\xe7\x6a\x4a\xe8\xd4\xbf\xfe\x31\x8c\x23\x11\xda\xa1\x77\xc5\xba\xcd\xa7\x11\xfa\xcb\xeb\x6f\xbf\x71\xb4\x0d\x16\xcf\x6f\x4b\x21\x35\x30\x05\xd4\x4c\xf3\x77\x27\x8e\xce\xfa\xc8\xd4\xcc\x79\x35\xcd\x2e\x68\xef\x3e\x99\x4c\xe0\x0d\xde\xea\x2f\x25\x32\x08\x0b\x51\x4c\x5e\xe4\x4c\x65\x11\xac\x58\x9e\x2f\x59\x72\x03\x2b\x21\xe1\xa9\x28\xf7\x9f\x7f\xc7\x94\x46\x10\x2b\x33\x97\x15\x04\x05\x93\xc9\xe2\xec\xee\x4e\xe3\xa6\xcc\x99\x46\x08\x5e\x6e\x08\x23\x8b\x57\x00\x29\x4f\x34\x04\x2f\x9f\x05\xe0\xad\x98\x96\x12\xd4\xa2\x08\xc1\x0f\x0a\x21\xd1\x32\xff\x3c\x01\x21\x21\x11\x9b\x0d\x2b\xd2\xcf\x13\xd0\x02\x68\x0c\xe8\x0c\xbd\x19\x61\x89\xb9\xd8\xcd\x02\x08\x7e\x64\x79\x85\x01\x84\xa5\xe4\x85\x5e\x41\x70\xfd\xbf\xd4\xdb\xa0\xe6\xb1\xd7\x5a\xf2\x62\x1d\xf9\x22\xa7\xf7\x25\xce\x03\x9a\x7c\xfa\x8e\x6d\x99\x6d\x35\x8c\x11\xae\xaa\x22\xd1\x5c\x14\x61\xe4\x38\x7e\xcb\x24\x24\x39\xc7\x42\xc3\x1c\x0a\xdc\xc1\xbf\xa1\x14\x4f\xeb\xcd\x08\x21\x15\x49\xb5\xc1\x42\xc7\x6b\xd4\xcf\x73\xa4\xc7\x3f\xef\x5f\xa6\xa1\xb7\x81\x11\x44\x97\x67\x56\x7c\x0c\xa0\x58\x14\x61\x20\x91\xa5\xfb\x60\x0c\xcd\x84\x60\x5a\x9e\x6f\x69\xa6\x7a\xf2\xce\x08\xb6\xd2\x28\x09\x6a\x67\x14\xf6\x06\x00\xb0\x1c\xa5\x0e\x03\x43\x28\x2b\x8c\x89\x28\x39\xa6\x86\x8c\x35\xe2\x71\x10\x5d\xba\x11\x07\xf7\x74\xa8\xb1\x9c\x4e\xe1\xdb\x02\x58\xb1\xef\xae\x15\x50\x4a\x21\x0d\x95\x37\x4c\xf2\x7c\x0f\xbb\x0c\x0b\x30\x4c\x02\x5c\x19\xb9\x66\x5b\xc6\x73\xb6\xcc\x31\x82\x1d\xd6\xc0\x1a\xfe\xd1\x02\x2a\xc5\x8b\xb5\xd9\x48\xa5\x59\x91\x12\x58\xda\x07\x26\x91\xc5\x7d\x12\x99\xf9\xfc\xc5\xe2\x11\x5d\x52\x54\x5a\x8a\x7d\x18\xb9\xe6\x4f\xc3\xe0\x91\x47\xf8\x38\xc9\x79\x72\x73\xbc\xa9\x47\x5d\xad\xec\x45\x71\xc6\x53\x0c\xa3\xcb\x13\x9d\x0c\xbb\x46\x71\x22\xf2\x9c\x95\x0a\xc3\x40\x65\x62\x17\xdc\xdb\x1d\xe2\x7a\x79\x41\x14\xaf\x44\x52\xa9\x30\x8a\x15\xe6\x98\xe8\xf0\xde\x1d\xf8\x46\xb4\x74\x23\xe2\x22\xa6\x98\x1a\x09\x24\xe2\x35\xea\x0a\xc2\x25\x26\xac\x52\x68\x9a\x4d\x0b\xd7\x0a\xf3\x15\x0d\xa2\xa6\x1a\x48\x14\x37\xec\xdc\x0c\x7e\xfa\xd1\x7c\xdd\xaa\x4b\xc3\xdc\x00\xd0\x87\xfa\x21\x4c\xde\x90\xcd\x03\xdb\xdf\x3a\x6f\xef\x01\x30\x2e\xa5\x61\xfc\x67\xb8\x62\x55\x3e\x40\xca\x61\x7c\x3e\x50\x84\x1a\x75\x3e\x28\x41\x3f\x15\x3f\x15\x6f\x32\x84\x1f\xbe\x7f\x55\xd3\x3c\x11\x85\x66\xbc\xb0\x94\xc7\x42\x73\x89\x56\x57\x8d\x41\x14\xf9\x1e\x54\xc6\x24\x02\xd7\xb0\xe3\x3a\x83\x95\xe4\x58\xa4\xea\x93\x61\x51\xa4\xbf\xb4\xae\xf6\xc0\x3f\xbb\x4a\xf9\x76\x61\xfe\x9a\x23\xe2\x91\x01\x3d\x19\x38\x6a\x03\x48\x72\xa6\xd4\x3c\xb0\x3d\x34\xdf\x60\xce\x0b\x24\xeb\xa1\x0b\xc2\x9c\xed\xdf\xa3\x32\xca\xcf\xb4\xba\x81\x89\xc8\x85\xc4\xf4\x19\xdf\x36\x83\x00\x9a\x61\x05\xdb\xe0\x50\xbb\x4a\xa4\xc8\x73\x4c\x7f\x4e\x99\xf6\x66\xeb\xfc\x77\xd6\xce\x4e\xe4\xc2\x5b\xfd\x35\x16\x55\x83\x71\x2a\x45\x99\x8a\x5d\x01\x49\x8e\x4c\xae\xf8\xad\x45\xad\xca\xfb\x1d\x26\x1b\x33\x4c\x0a\xb2\x15\xec\x33\x93\x9c\x4d\x72\xb6\x44\xc2\x61\xb9\x6f\xfb\xda\x19\x9c\x5d\x91\x72\x55\xe6\x6c\x3f\x5b\xe6\x22\xb9\xb9\x2c\x85\xe2\xc4\x06\x33\x6b\x25\x5d\x6e\x98\x5c\xf3\x62\xb2\x14\x5a\x8b\xcd\xec\x8f\xe5\x6d\x6d\x5f\x5c\xe5\xdc\x4d\x56\x4a\x54\x58\x50\x77\x3a\x9d\x1d\x5a\x44\x12\x68\x70\xcb\x90\xa5\x28\x89\x02\x39\x5f\x9c\xd5\xe3\xe9\x6c\xd7\x6c\x69\x8c\xb9\x79\x30\xb9\x70\x47\x3b\x33\x7c\x38\x37\xda\x64\x92\x64\x3c\x4f\x25\x16\xb5\x89\xf1\xc8\x75\xd2\x62\xbd\xa6\xc9\xb5\x10\xb9\xe6\xa5\x6b\x2d\x73\x96\x18\xd9\x9c\x07\x92\xaf\x33\x1d\x80\xa6\xb3\xd4\xc2\x02\x96\xe7\x50\xc3\xb3\xa7\x25\xe8\x8c\x2b\x20\x1b\x20\x58\xbc\xa6\x2e\x4f\xdd\x6b\x6b\x30\x10\xb2\x0f\xc3\x95\x14\xe5\xaf\x85\x2b\xc1\x7a\x0f\xae\x5f\x51\x97\x8f\xc5\x75\xc5\x73\x8d\xf2\x57\x20\xe8\x74\x00\x53\xa6\x30\x05\x51\x00\x03\x37\xcd\xe2\x85\xf9\xbf\x45\xf2\x34\x96\x5d\x84\x6a\x74\x93\x5c\x28\x0c\x16\x4f\xe9\x3f\x7f\xa9\x57\xd3\x2a\xbf\x47\x8a\xec\xb4\xff\x2d\x64\xe9\x58\x8c\x88\x0b\x7c\x49\x0b\x6a\xeb\x76\x06\x35\xb9\xbb\xa4\xe6\x45\x59\xf9\x86\x5e\x03\xdb\xee\x12\x1d\xa4\x9b\x09\x51\x4e\x8a\xfc\xe3\x18\x82\x60\x03\x83\x1b\xdc\xcf\xb6\x64\x7f\x42\xc9\xb8\x04\x56\xa4\x40\x6b\x52\x80\xe4\x20\x81\x16\xe4\x0b\xe6\xd6\x76\xad\x19\xd1\xc0\xcc\x44\x9e\xa2\x9c\x8f\x1a\x00\x71\x1c\x8f\x7e\x07\x96\x71\x74\xd8\x72\xdc\x7d\x2d\x52\xb4\x2c\xb1\xac\xb4\x16\xd6\x1f\x59\xea\xe2\xb5\x90\xfa\xb5\x66\x52\xbf\xe1\x1b\x6c\x28\xb7\xd4\x05\x2c\x75\x31\x49\xed\x99\x1b\x2c\xa8\x1b\xfc\x79\x0f\x8a\xba\x02\x1d\x32\x57\x53\x0b\xe8\x04\xcc\xe7\x45\xfa\x30\x88\x58\xa4\x0f\x81\xf7\xac\x92\x5d\xc6\x39\x09\x30\x75\x3d\xdf\x03\xf0\x15\xf1\xfb\xfb\xa1\x19\xb1\x68\x41\xb5\xf4\x35\x52\xe1\xbb\x17\xd6\xaf\x06\x88\xd9\x2d\x57\x50\x32\x9d\x8d\x9b\x5f\x74\x22\x3b\x9b\x63\xc5\xf3\x7c\x06\x85\x28\xd0\x9e\xff\x64\xd4\xde\xe0\x0c\x96\x39\x4b\x6e\x5c\x53\xc6\x4a\x9c\x48\x2c\x52\x24\x7f\x66\x06\x89\xe4\xaa\x7c\x9e\xae\x51\x59\x2f\xbc\x06\x4b\xf3\xd6\x60\xc9\x83\x5e\xb1\x0d\xcf\xf7\x33\x50\xac\x50\x13\x85\x92\xaf\x2e\xdb\x97\xce\xbd\x3e\x2f\x6f\x1b\x20\xb5\xb1\x60\x85\xff\x43\x21\x3d\x6e\x21\x3d\xaa\x21\x3d\x76\x98\x59\x50\x5a\xb2\x42\x91\xf8\xcd\xec\x23\x39\x8b\xe1\x79\x79\x3b\x7e\x72\x5e\xde\x3a\xfb\x67\xb2\x51\x93\xf7\xf4\x83\xe9\x67\xf0\xf2\x39\xfc\x09\x3e\x9b\xda\x21\x3b\x5c\xde\x70\xfd\x90\x61\xaf\xd9\x8a\x49\x6e\x44\xf5\x69\x26\xc5\x06\x1b\x18\xe2\x21\xc3\xbf\x2d\x51\xb2\x66\xc8\x46\xfc\xf2\x90\x41\x2f\xb8\xc4\x95\xb8\xb5\xc3\x0c\x75\x6a\xd3\x0b\xe2\xd6\xd6\x72\x24\xca\x90\x34\xcd\xec\x31\x6d\x0b\xec\x78\xaa\x33\xf7\xbc\xca\x05\xd3\xb3\x1c\x57\xfa\xf2\x08\xcc\x23\x63\x81\x58\x00\xb5\x5a\x06\x5e\x98\xad\xb4\xea\xd9\xbc\x72\x3a\x99\x60\xcc\xe0\x3c\x7e\x82\x9b\x06\x94\x67\x8e\x8d\x9b\x5f\xed\xb1\xf2\x91\xac\x00\xd0\x1c\x0b\xc0\x96\x4a\xe4\x95\xc6\xcb\x2e\x96\x2d\xe3\xff\x32\x31\xba\x8e\x58\xf2\x7c\x08\x2f\x88\x3b\x47\xd6\x22\xe7\x0b\x1b\xa8\xeb\x02\xf4\xd6\x5b\xb2\x34\x35\xf2\xf2\xa4\xbc\x85\xc7\xe7\x35\x4e\xe6\x44\x9c\xc1\x52\xe8\xcc\xc3\x7c\x67\x09\x0f\x5f\xd8\xd9\xc1\xc8\xe8\xc4\x6d\x07\x5c\xc4\x5f\x3c\xfe\xbf\x7f\xfc\x3f\x17\x5f\x3c\x71\x30\x68\xdf\x66\xf0\xe8\xc9\x13\xd7\xb0\xcb\xb8\xc6\x89\x2a\x59\x82\xb4\xa8\x9d\x64\xe5\x51\x84\xec\x23\x43\x10\xa4\xee\x61\x4e\x61\xb5\x1f\xb9\x7a\xc6\x34\x3b\x1c\x2e\x9b\x97\x64\x9b\xbc\x71\xc2\xf6\x34\x63\x52\xdb\x9e\xaf\xfb\xcd\xfe\x18\xc3\x56\x30\x27\xdf\x2b\x76\x6e\x0b\xca\x20\x8a\x4d\x7b\xe8\x39\xa2\xb8\x21\xb7\x86\x62\x6f\xd6\xad\xb1\x27\x6b\xc8\x0b\x7a\x53\x15\x5c\xab\x08\xb4\x80\x92\xdf\x62\xae\x6c\x83\x11\x2d\x89\xba\x92\x85\x02\xae\xad\xe7\x59\x2f\x0b\x70\x13\xe2\xe6\x07\x3b\xd0\x2e\xd0\x62\x44\x3b\xf0\x9a\xff\x82\x30\x87\x92\x49\x85\x2f\x88\xd9\xc3\x4f\xc3\xd1\x52\xa4\xfb\x51\x44\x31\xca\x70\xd4\x30\xd8\x28\x6a\xbc\x26\x3b\x53\x3b\xfe\x33\x70\xf0\x9d\x33\xd5\x2c\xa5\xa8\x36\x2f\xa4\xd8\x3c\xf7\xb0\xa3\x15\x15\xd5\x66\x89\x12\x56\x52\x6c\x9c\xe3\x96\x82\x58\x99\xc7\x52\x68\x72\xe3\x58\x9e\xef\x61\xcd\xe4\x92\xad\x9b\xa8\x86\x32\x71\xa5\x31\x60\xbc\x8e\x21\xa8\x75\xdd\x4b\x8d\x9b\x9f\x2f\xbe\xf8\xe2\x49\x00\x93\x05\xd0\x43\x77\xf1\x2d\x0a\xa1\xd2\xb2\x25\x80\x5b\x83\x59\xf8\xcb\x42\xd3\xcb\x78\xc3\x74\x92\x85\xd3\xf0\xa7\xf4\xf3\xe8\xd3\x69\x74\x7d\xfe\x76\x0c\x17\xe7\x51\x7f\x55\x2f\x0b\x4e\x18\xd2\xca\x97\x42\x68\xa5\x25\x2b\xc1\x19\x31\xca\xd2\xfe\xd3\x70\x74\x3d\x68\xe3\xbc\x1d\x45\xb1\x7b\xf6\xf7\x5c\xa1\xae\x8d\xed\x1f\xb9\xe2\xcb\x1c\x61\xc7\xf2\x1b\x22\x97\x14\xd5\x3a\x33\xb4\x21\x80\x66\xa7\x57\xbc\x48\x55\xd7\x2c\x0e\x79\x91\xe4\x15\x09\x5e\x0d\x32\xe5\x14\xf0\xd1\x20\x0a\x54\x51\x4d\xde\x35\xdf\x62\x61\x4c\xfc\x97\xcf\x62\x78\xa9\x49\x3b\xdd\x28\x40\x96\x64\xd4\x11\x98\x82\xad\x9b\x3f\xd4\xb2\x42\x10\xd2\x0b\x2a\x29\x8c\x7a\xac\x75\x8c\x77\x68\x81\x8f\x6b\x38\x5e\xd0\x21\xa6\x69\x42\x5a\x85\x17\x0c\xe0\x63\x10\x3a\x43\x6f\x67\x00\xf8\x2a\x34\x6d\x71\x69\x62\xd5\xaf\x0d\x44\xf8\x64\xee\x10\xf7\xbb\xd6\x1b\xd9\x86\x84\x0e\xcd\x93\x85\x51\xaf\x67\x5e\x63\xd4\x76\x1d\xc0\xde\x8e\xe9\xaf\xe1\x28\x5c\xd0\x6c\x5c\x92\x8b\x02\xbf\x5d\xbe\xfb\x46\x3c\x13\x5a\xd9\x9f\xca\x23\xb5\x58\xbe\xc3\x44\x43\x48\x9b\x25\x56\xc0\xf5\x48\x91\x05\x6b\x25\xd6\x58\xa1\x2a\xa2\x8d\xa8\xe1\xf9\x62\x62\x80\x8d\x61\x59\xb9\xf0\x05\xc1\x30\x63\x9d\xfa\xa0\xc0\x5e\x4a\xb3\x86\x71\x04\x12\x8d\x91\x9b\x9a\xae\x35\xb4\x8a\x8c\x17\x95\x08\x89\x2a\x86\x37\xe4\xdd\x71\x05\x95\xc2\x55\x95\x43\x1d\xc6\x7a\x41\x7f\xb4\x44\xa6\x1d\x66\x66\x2e\x03\x97\x29\x60\x49\x82\x4a\x09\xa9\x6a\x90\xbc\xd0\x02\x54\xb5\x9c\xd8\x95\x29\x08\x0b\xa1\x21\xe7\x1a\xa5\x11\x5a\x42\xfc\x06\xf7\x7d\x46\xe9\xd2\x29\x14\x5d\x4d\x54\x98\x56\x52\xa2\x87\xcb\x2e\xb7\x08\x8f\x55\x6e\xc6\xb0\x6d\xc7\x81\x1b\x75\x7d\x13\xbb\xb5\x87\xd3\x9f\xe2\xe9\x7a\x3c\xfa\x79\x14\xbd\xa5\xed\xee\x6d\x5a\x23\xf3\x76\x5c\x7f\x27\xad\xaf\x50\xf3\xc3\x8b\xea\x97\x5f\xf6\x44\x2a\xe5\x08\x24\x60\x45\x4d\x13\x85\x4c\x26\xd9\xb1\x5c\x86\x8d\x28\x97\x98\xf0\x15\xa5\x4d\xf2\xfd\xd8\xbc\x27\x3b\xc1\x6e\xb8\x66\x6b\x15\x99\x27\x72\x6c\x7b\x22\x8c\x36\xe8\x47\x7b\xcf\x34\xa4\xa2\x51\xa2\x82\xc4\x54\x27\x59\x8f\xa4\x03\x08\x37\xc2\x67\xdf\xb5\xc4\x9a\x4e\xed\x32\x32\xda\x52\xc8\xf9\x86\x5b\x0f\x10\xc4\x0a\x9e\x3c\x86\x24\x63\x92\x25\x1a\x25\xb8\xe5\x95\x4c\x6b\x94\x85\xd3\xb9\x6a\x0c\x4a\xc0\x0e\xe1\x5d\xa5\x74\x0b\x51\xe5\x3c\x31\x94\x79\xf2\x18\x78\x91\x30\x85\xa0\xc4\x06\x45\x81\xd6\x17\x53\xb0\x11\x12\x21\xdc\x65\x3c\xc9\x60\x27\xaa\x3c\x05\x9f\xe7\x04\x48\xc6\x15\xb6\x00\x59\x01\x78\x9b\x60\x49\x98\x39\x06\x02\xb7\x14\x98\xbb\x87\xd8\xcc\x1a\x9e\x8f\xe1\xc9\xe3\x5a\x81\x9a\xc1\xdf\x23\xe5\xca\xf8\x16\xf3\x3d\xa4\xa8\x12\x2c\x52\xcb\xac\x46\xb9\xd9\x3c\x57\x26\x76\x24\x34\x6e\x03\xe8\xb1\xd1\x7c\x75\x5c\xa1\x05\x28\xaa\x86\x1c\x12\x55\x95\x6b\x15\x7b\x2c\x5b\x4f\x31\x87\xa2\xca\xf3\x9a\xc3\xda\xd6\x86\x6b\x7d\x1d\xd6\x09\x87\x3f\x58\x1d\x1a\x6c\x9e\x66\x98\xdc\x58\xd6\x30\xc1\x7c\x5a\xcf\x0e\x47\x12\x21\x17\xe2\xc6\xac\x4a\x03\x57\xc0\x2c\x43\x75\x15\xbe\xc5\xa1\x0b\x90\x20\xc4\x5e\xd3\x49\xa5\x7b\x6a\x01\x43\xca\xb7\x11\xa8\x66\x9a\xef\x50\x92\xa1\x0e\xcc\xca\x4f\x4d\x51\x51\xb4\xd1\x26\x35\x32\x8a\x27\x86\xbf\x21\xa4\xc2\xb6\x33\x97\xde\xc8\xf3\x63\xac\x15\x64\x6c\x8b\xc0\x53\xb2\x14\x12\xe6\x94\xa2\x16\x2d\xec\xb1\xd9\x62\xc3\x65\x3b\x46\x22\x55\x0b\xa5\xe9\xda\x85\xe8\x8f\xf3\xe9\x41\x9b\x4c\x6c\xd7\xd7\x5c\x86\x46\x92\xed\xc8\x26\x8c\x2e\x7b\x03\x56\x34\xa5\x0d\xef\xd3\xec\xe1\xb5\x7c\x3b\xee\x91\x8c\xe4\xe4\x35\x16\x64\xa1\x6f\x71\x66\x8f\xd5\x71\xa7\x87\xca\x48\x54\xc8\xf7\x25\xf7\xa6\xea\xbd\xd5\x99\x44\x45\xb1\x0c\xe3\x4d\x8c\xdb\x85\x7c\x09\xb9\xd8\xa1\x6c\x3b\x00\x77\x12\x48\x52\x9c\xe8\x31\x64\x7c\x9d\xa1\xa4\xe6\x1c\x95\x8a\x3b\x60\x89\x30\x33\xf8\xd6\x28\xf5\x98\x7e\x84\x32\x1a\x13\x58\x5a\x27\xac\x38\xe6\xa9\x3a\x49\xab\xc3\x11\x21\x9c\xc4\x18\x41\x50\x18\xdb\x51\xa1\x53\x4b\x97\x3d\x1e\x79\x86\x25\x16\x46\x1c\x45\x41\x39\x2e\x22\x31\x08\x69\x38\xc0\x84\x71\x4e\x71\x0e\x10\xf7\x61\x0a\x55\xd9\x05\x48\xa9\x34\x87\xc1\xb8\x15\x17\xde\x1a\x37\x42\x92\x02\x48\xb1\xb3\x8a\xbe\xbd\x50\x4b\x7d\x8e\xc5\x5a\x67\xb0\x80\xf3\x63\xc4\x3d\x3d\x63\x64\x93\x26\x1a\xa9\x46\xa9\xfb\xe0\x9d\x6e\xe8\x98\x18\x1e\xdd\x5a\x1a\x1e\xba\xca\x24\xec\x74\x3d\x75\x60\xfd\x4e\xf6\xa2\x39\x11\xeb\xd0\x2b\x68\x61\x0c\x48\xab\x45\x0d\x6c\xd3\xb7\x06\xc9\x3a\x04\x2f\x84\x73\x4c\xa6\xd3\xb3\x86\x65\x2d\x6b\xd6\x7b\xcb\x15\xd8\xb2\x8d\x14\x96\x7b\x1b\xeb\x83\x95\xc8\x89\xaf\x5d\x0b\xb9\x80\x85\x59\x14\x83\xbf\x57\x42\xa3\xb3\xa2\xfa\x90\xe1\xaf\xb8\x9f\x05\x78\x5b\x62\xd2\xf4\x09\x7a\x7d\x5e\x08\x09\xae\x2c\x63\xd6\x1f\xfe\x0d\xdb\xe0\x2c\xf8\x1e\xff\x5e\xa1\xd2\xfd\x81\x2f\x57\x2d\x09\x52\x81\xaa\x3d\xa2\x0d\xd1\xd8\x52\x6c\x6b\xa1\x73\xf6\x02\xf1\xb6\x3b\x53\xc7\x27\xf6\x4f\xf1\x1c\x0b\x9d\xef\x4d\x02\x51\x41\x9d\xbf\x25\xf1\x99\xd8\xc3\xc9\x17\x03\x5e\xac\xef\x35\x07\xee\xb3\x04\x7e\x64\x39\x4f\x99\x46\x2f\x44\xea\x9f\x6c\xaa\xcc\xb9\x8b\x42\x78\xa7\x2e\x35\x86\xc1\xac\x4d\x9d\xf1\x55\xe8\xf5\xac\x85\xe4\x93\x39\x3c\x6e\x27\x33\xd3\x7d\xcd\x95\xc9\x41\xdb\xad\x5b\x09\xd9\xdd\xf4\x71\x27\x5d\xed\xaf\x91\xf0\xf3\x24\xe8\x01\xf6\xce\xe5\xd9\xf0\xc1\x74\xf0\x96\x77\x03\x73\x7f\x89\xd7\xe7\x6f\x2f\xbd\xb7\xdb\xde\xdb\x8b\xb7\xde\x7a\xb7\xd7\xe7\x6f\xe1\x93\xf9\x1c\x46\xc1\x08\xfe\xf1\x0f\xd8\x5e\x6f\xdd\xba\x27\x17\xcd\x8b\x13\xab\xf7\x99\xf5\x3f\x97\x08\xd3\x29\x50\x89\x46\x09\x39\xb2\xb4\x36\x87\xb4\x64\x3c\x6f\xf0\x54\xd6\x37\x37\xc8\xce\x6a\xea\x90\x49\xed\xac\xaf\x8b\x31\xb4\x2b\x6f\xd5\xf9\xef\xe6\xe1\x9d\x1d\x19\x46\x7c\xd5\xea\x79\x6b\xe4\x92\xee\x68\x9c\x2c\x92\xf3\x84\x84\xcb\x48\xa9\x39\x69\x2a\xd9\xe3\x7d\x0f\x2b\x77\xbc\x5f\xdf\xbc\x85\xf9\xbc\xeb\x74\x1c\x1f\x13\x74\x44\x7b\xc8\x01\xe6\x0a\xef\x1d\x60\x8e\xfc\x21\x87\xb5\x27\xc2\x5d\x5f\xb4\xb7\xbb\xc7\xae\xe8\xdf\x32\x2c\x0c\x11\x2a\x85\xd2\xe6\x44\x9c\x2b\x6a\xd2\x14\x50\x47\xdf\x6d\x27\x17\xe3\x83\x8d\x09\x3e\xee\xd0\x78\x24\xc0\x35\x59\x61\xcd\x91\x80\x49\xce\x24\x36\x16\x19\x03\x85\x25\x93\x4c\xa3\x17\x01\x70\x07\x9f\x41\xb6\x03\x15\xb8\xc6\x8d\x82\xa4\x3d\x0f\xfe\x5e\xf1\xe4\x26\xdf\xdb\xa9\xfa\x48\xd0\x04\x3b\xcc\x73\x08\x15\xba\x52\xa3\x23\x27\x52\xdf\x52\x4c\xf2\x4b\xf3\xcb\x2c\xca\xaf\x52\x38\x5d\xa3\x60\xcb\x1d\xda\xd4\x77\xb7\xec\xe4\x50\x47\x6c\xfc\x3e\xc0\xae\x07\x12\x3e\x14\xbd\xa1\xb2\x06\x53\x2a\x11\x8c\x07\x10\xf2\x62\x3a\x9d\x97\x14\x1a\x34\x39\x55\x57\x25\xc2\x37\xa5\x75\xf7\xac\x1b\x56\x97\x99\xf8\x04\x19\x29\xa0\x51\x67\x0d\x9f\xbb\x83\x82\x98\xba\x93\x9e\x75\x3b\xab\xee\xa3\x56\x3d\x7f\x88\x03\x91\x99\x41\xba\x5e\x76\x8e\x04\x23\x9f\xf3\x01\x4a\x12\x95\xc2\x80\xfe\x5a\xdb\x31\x88\x1c\xc7\x5e\x9e\x9d\x0c\xb2\xf4\xc3\x2b\xae\x67\x1d\xd2\xfb\x8a\x22\xec\xe1\x11\x7f\xdb\x22\x96\x8c\x15\x69\x8e\x52\x19\x92\x59\xbb\xc3\x67\x22\x5a\xe7\xd4\x50\xc7\x12\x25\x7e\xc8\xe6\x76\xeb\x00\xfa\x9b\xdc\xa9\x88\x39\x4d\x55\x52\x03\x51\x23\x96\xef\x99\xb1\x9b\xcd\xff\xc8\x19\x6d\x44\xae\x53\xc4\xd4\xa1\x51\xc3\x55\xce\x54\x51\xd5\x92\x68\xf4\x20\x92\xd8\x21\xf7\x63\xd6\x9e\x27\x56\xc1\xd0\x54\x85\xa0\x0a\x9e\xce\x9e\xc4\xf7\x73\x59\x0b\xe5\x99\xcd\x26\x58\x45\xee\xe3\xda\x91\x60\x2f\x3f\x12\x9b\xcc\x74\x14\x67\x7a\x93\x87\x3d\xd6\xec\xbe\x8c\xa2\xcb\xfb\x20\x05\x36\xd8\xdd\x2a\xed\x26\xb1\x11\x98\xcc\x46\xd0\xba\x60\x36\x8f\x73\x2c\x07\x34\x3e\xa0\x97\x41\xd4\x76\xd6\xa2\x3c\xd9\x57\x8b\x32\x88\x8e\x42\x54\xde\xb6\xf8\x0b\xb5\xdb\x31\xea\x57\xb2\xf9\x5b\xff\x55\xad\x54\x6d\xdf\x7a\x0b\x26\x8e\x92\xb6\x76\x70\xf0\x78\x48\xbc\xe3\x21\x3e\x3b\x8d\xc5\x83\x54\xe2\x10\x87\x3c\x48\x33\x77\x76\xa3\xa3\x9f\xa3\xcb\x13\x67\x1c\xe5\x74\x94\x89\x39\x69\x73\xa6\x3b\x37\xac\x21\x01\x81\x75\xe9\x93\xa6\x4c\x00\x5d\xa1\x40\x63\x86\xef\xf0\xa8\x60\x00\xb4\x18\x2e\x8f\x41\xd0\x4c\xae\x51\x7b\xc1\x93\xf7\x6d\xd8\x0d\xee\xab\x72\xb0\xaa\x8e\xaf\x42\xa4\xd7\x4f\x45\x8a\x64\xfa\x5c\x3c\x69\xdf\x35\x46\x8f\xad\x4c\xd4\x16\xe7\xf8\xd8\x92\xfb\x6a\xe8\x28\x1d\xc3\x5a\xb2\x65\x1f\x5f\x20\x95\x6b\xdd\x41\xbb\xc8\x0c\x9b\x15\xc6\xbf\x92\xb2\x3f\xe1\x84\x7c\x1a\x92\x09\x11\xc5\x5b\x46\xa2\xf8\x01\x7b\x7f\xea\x50\xa8\x59\xa2\x7f\xd8\x7d\x5b\x62\x41\xaa\x31\x65\xba\xda\x8c\x29\xfa\xde\x2f\x7a\x7c\xdf\x7c\x0f\x58\xb4\x85\x7b\x62\x40\xa3\x77\xa8\x21\x34\x78\xc4\x26\xb1\x7f\xcf\x0c\x1f\xa6\x7b\x30\x2e\xd9\x1a\xff\xa5\xa7\x65\x6c\xeb\xbf\x9e\x8a\x79\x7b\x36\xe7\xa1\x47\xba\x1e\x85\x7d\xbd\x6e\xc4\x4d\xe2\xb2\xe2\x79\x5a\x97\x11\xd7\xdd\x8d\x90\x24\x89\xa8\x0a\x6d\x0e\x9a\x24\x63\xc5\x1a\x95\xb1\x25\x37\x95\xd2\xb0\xe2\x52\x69\xc0\x4d\xa9\xf7\x2d\x44\xae\xa9\xcc\xbc\xcc\x51\x63\xbe\xf7\xb4\x7b\xdc\x2b\x9c\x8c\x62\x33\x30\xec\x1c\x10\x54\x0a\x6f\x62\xd0\x06\x91\x26\xb4\xe0\x12\x11\x2e\x64\x91\x9a\x78\x95\x90\x50\x32\xa5\x1a\xad\x90\x3e\x69\x60\xfb\xbc\xee\x60\x3c\xb3\xc9\xde\xeb\xb7\x97\xef\xf5\x64\x7c\x8e\x32\x32\xfc\x89\x58\xbe\x8b\x8f\x4c\xaa\xfb\x33\x53\xde\xb4\x71\x59\xa9\x2c\xf4\x19\xea\xe0\xbb\xd8\x7e\x4f\xe7\x62\xcf\xe7\x70\x3e\xa0\x29\xce\x7a\xce\x11\x2d\xcf\xd4\x2a\xbc\xb1\xe9\xc6\x26\x52\xed\xbd\x27\x92\x90\x8c\x9a\xad\xf7\x83\xd6\x94\x03\xe2\xc5\xd8\x24\x06\xf4\x18\x4c\x8d\x40\x6f\xdd\xb6\x4b\x77\xc5\x04\x33\xe5\x5b\xa3\x3b\x46\x4d\xa5\xc4\xe8\x28\x3a\x68\x12\xf9\x0a\xe6\x16\xbe\xad\xc7\x50\x61\xa7\x5b\xca\xb7\x31\xc5\xad\xc2\x91\x57\xae\x51\x27\xa5\xc9\x51\x5e\x4b\x51\x15\xe9\xc4\xbc\x1c\x8d\x1d\xc8\xd0\x62\x7a\x02\x92\xa9\xd8\x18\x39\xd1\xf4\x28\x7b\x6d\x46\xbd\x8d\x57\x55\x9e\xbf\xea\xc8\xea\xf0\x78\xa6\xb5\x0c\x03\x53\x96\x16\x8c\x61\x00\x50\x2d\xf0\x1e\x14\xcd\xcb\xc6\x4e\x31\x65\xc5\xc1\x43\xf0\xe8\x5b\x2f\x35\x24\xb2\x58\x8d\x4e\x1d\x1b\x75\xd2\x49\x86\x07\x9f\x5b\x22\x5c\x9f\xbf\x8d\xee\xf5\x4b\x0d\x4a\xbd\xfa\xfb\x43\x9f\x8d\xba\xf9\xee\x8e\x02\xb0\x9b\xe7\xb1\x53\xe2\x4a\x21\xd2\x27\x4d\x51\x53\x73\x51\xa0\xfb\xcf\x55\x3d\x98\xbf\x27\x7a\x28\xcd\x92\x9b\x53\xc3\x6d\x51\x4d\x78\x67\x34\x22\x6e\xc2\xff\x1d\x8d\xc1\x54\x0b\xce\xce\xc7\x46\x1f\x9e\x8f\xc1\x55\x41\x9e\x1f\x4e\xc0\x30\xec\xd9\x9c\xcc\x10\xa6\x63\xe0\xee\xe4\x88\xe0\xae\x2b\x1b\x26\x19\xde\x8a\x43\x04\xa7\x80\x6e\x44\xa5\x50\x54\xfa\xa1\x70\x6d\xf8\xff\x01\x80\xbb\xd5\xf9\x7d\xa8\x83\x63\x00\x76\xbc\x48\xc5\x2e\xce\x45\x62\xdc\xcc\x98\x8a\x19\x61\x6e\x47\xc5\x95\xcc\x2f\x4f\x8c\x9b\x4e\x6d\x41\x3e\x5d\x69\x89\x6d\x0e\x90\xaf\xf6\xee\x34\x73\xc1\x91\xb1\x51\x27\x63\x78\xdc\xe5\xce\x6e\x52\x60\x98\x89\xac\x42\xea\xe8\xa1\xb2\x66\x9b\x32\x74\xf2\x35\x32\x45\x81\xa3\x31\x8c\xec\x0d\xba\x91\x67\x12\x94\xb1\x58\xad\x14\xea\xf0\x7a\x72\x71\x3e\x06\xc3\xe8\x1e\x38\xb5\x5d\x5b\x70\xce\x5a\x1e\x38\x5d\x58\x49\x29\x87\x30\x50\xdb\x75\x50\x0b\xb4\xe1\xc6\x60\x0c\x27\xb9\x32\x36\x04\xf0\x25\x36\x8a\x29\xcf\x1b\x9a\xed\x1b\x1c\x61\xca\x90\xc2\x80\xf6\x7a\x95\x8b\x5d\x30\x86\xc0\x0d\x0f\x06\xfb\x1b\x70\x9a\x97\xdd\x05\xb5\x39\xd0\x5a\x41\x93\xea\x88\x7c\x7d\x0c\xa6\xa9\x3e\x23\xae\xe0\xe2\x0b\x62\x36\x77\xfa\xd3\xab\x4b\xef\xfc\xf1\x9a\x63\x55\x2d\x95\x96\x94\x50\x25\x03\xf4\x73\x08\xe2\x38\x0e\x9a\xd3\xc4\x8f\x02\x7c\x6a\xd4\x9a\x72\x35\x4c\x5d\x92\x5a\x58\xdd\x52\xc6\xa0\xc3\x00\x5f\xb3\x1b\xdb\x0b\x44\x61\x1d\xf7\x66\xac\xcb\x7c\x83\xe1\xf1\x09\xdd\x66\x8a\x3b\x07\xf6\x3b\x65\xc2\xec\xc5\xc8\x4f\x3e\x23\x6e\x40\x0b\x9b\x0a\x64\xb0\x23\xbf\x51\x80\xaa\x4a\x73\x2b\x8f\x54\x23\x20\x53\xbc\x35\x32\xa6\xd3\xe6\xc1\x4f\x34\x2e\xf7\x60\xb9\xa4\xb1\x6f\x08\x45\x87\xd1\xd8\xa4\x4e\xea\x37\xe4\xc4\xd4\x6f\x20\xd4\x99\x97\xb9\x7e\xfd\xe3\xff\x07\x89\x89\x8e\xac\x85\x4d\x31\x5b\x53\x5a\x54\x0f\x7d\xf9\xac\x4e\x83\x53\xb6\x56\x41\xce\xa9\xda\xb4\x57\xc4\x14\x44\x43\xb8\xd2\x8d\x97\x9c\x29\x5d\x57\x4d\x19\x33\xc7\xe6\x7a\x6d\x75\x58\x8a\xb7\xd6\xc6\x11\x55\xc7\xa0\x39\x6d\x5d\xc1\x7a\xe1\x6e\x56\x19\x2b\x67\xf0\xb6\x16\x6d\xb8\x85\x3d\xf7\x6b\xa8\x6a\x4b\x9e\x68\xd1\x48\x2a\x4f\x47\xbe\x12\xa0\xa1\x86\x01\x88\x53\xcc\x83\x72\x27\x9b\x77\x22\xb6\xd2\x69\x00\x9e\x79\x32\x40\xee\xa4\xd5\xa3\x5b\xec\x5c\x47\xeb\x2b\xba\xfb\x54\xb4\x39\x02\x3b\x89\xe9\x13\x73\x54\xba\x37\xc5\xfd\x1a\xda\xc2\x1d\x80\x76\xe4\x00\xf7\xb1\x3d\xa1\x8c\x07\xce\xff\x9e\x66\x3e\x44\x83\x74\xb3\x46\xc6\x43\x09\xf7\x00\x62\xfd\xa6\x24\x32\xb6\x8e\xd5\x63\x16\xf3\x98\x17\x05\xca\xaf\xde\x7c\xfd\x2a\x8a\x3a\x01\xfd\xda\xc7\x97\xe8\xea\x19\xac\xaf\x64\x82\x18\xa1\x29\xfe\x33\x27\xbd\xd5\x16\x91\xbb\x4c\xb6\x43\x10\xa5\x1d\xe7\xc3\xea\xc4\x06\x45\xd1\xd8\x2f\x84\xbb\x11\x58\x56\xac\x73\x8c\x3b\xac\x6b\x94\x7c\xe7\xfc\xe8\x32\x3d\xd9\x55\xd6\x29\x8c\xbc\xe4\x11\xc9\xd9\xb5\xb5\xc8\xcc\xf2\xde\xba\xb0\x48\x8b\xfc\x51\x60\xcf\x69\xe1\x61\xd7\xf5\x98\x2d\xa2\x4e\x9a\xbd\x27\x88\xbf\xe1\x5c\xbd\x4c\x03\x5f\x19\xb7\x88\x22\x16\x64\x00\xc0\x1f\xfe\x70\x5c\x0e\xdb\xb2\xfe\x7b\x62\xba\x8a\x99\x4c\xa9\xc9\x28\x08\x69\xf5\x9c\x12\x52\x9f\xb5\x7a\x44\x69\x73\x0b\x60\xde\x80\x24\x23\x7c\x06\xa3\xd1\xb8\x9b\x26\xe7\xc5\xfa\x5b\x99\xa2\xec\x95\x54\xd8\x02\xcc\xfa\x4d\x4d\x13\x82\xd1\x3f\x3e\x33\xae\x8c\xef\x6e\x12\x79\xa6\x43\xd7\x5a\x6e\xde\xdb\xb7\x97\xfd\x77\x3d\x3c\x8e\x13\x3d\xcd\xb9\x7b\x31\x98\xcb\x3a\x01\xe4\x93\xa1\xf6\xcb\x63\xd4\x7b\x3d\x86\x5c\x51\x98\x5c\xdc\xeb\x10\x0c\xa1\xe7\xff\x7f\xf0\x0a\x56\x69\x4f\x96\xee\x2a\x0a\x2f\xd6\x3f\xd3\x46\xf7\xe2\x0a\x86\xf2\x9d\xab\x2d\x61\xb7\xec\x8f\x80\xd4\xcb\xac\x37\x3a\xf6\x36\x2c\x1c\x19\xf0\x06\x76\x6b\xfe\x11\xf7\xc5\x34\xb4\x3d\xb8\xd8\x18\x96\xbd\xbc\xeb\xd6\x26\xb9\xb9\x28\xba\xa4\xda\x97\x28\x56\xc0\x8c\xa9\xa2\x6c\xce\xd6\x06\x10\x4c\x46\xd7\xbd\x5e\x0e\xbc\x8e\x86\x88\x48\x20\x1d\xac\xd6\x3d\x9f\xc3\x39\xc1\x5a\x0e\xb4\x77\x80\xf8\xe8\x36\x4c\xdf\x83\x7a\x7d\xfe\x36\xee\xd0\x18\xae\x60\x79\xe2\xd5\xe0\x96\xb7\x34\xfe\x6c\x68\xfb\xef\x9d\x6a\xf1\x91\x53\x3d\x84\xc9\xce\x07\x98\xec\x81\x89\xa0\x9a\xf7\x2c\xb7\xdf\xcb\x79\xee\x02\xd4\x07\xf3\x1d\x16\xe9\x3f\x3b\xd7\x79\xd4\xed\xf2\x9c\xf7\xe2\x57\xe0\x38\x7f\x9a\xc5\x47\x4d\xf3\x3b\x71\x5b\x7d\xa3\xed\x14\xab\xd5\x77\xe3\x3e\x98\xd7\x6a\xc0\xff\xc4\xbc\x56\x93\xa0\xcb\x68\x75\xeb\xaf\xc0\x65\xcd\x04\x8b\x0f\x9f\xe0\x77\xe2\x2f\xeb\x31\xb1\xbc\xcc\xd8\x12\xb5\xad\x1f\x6f\xcc\xa0\x96\xcd\x5e\x39\xc7\xaa\x35\xc7\x3f\x8c\xdb\xcc\x34\xbf\x36\xab\x59\xdc\x0d\x2f\xd9\x68\x51\x97\xd5\x8e\x5f\x7f\x08\x97\x98\xd1\xb1\x16\xaf\xa8\xba\xf5\x29\x53\xa4\xcd\xaf\x60\x39\xd4\xfe\xf1\x9c\x32\x34\xc9\xe2\x63\x26\xf9\xad\xb9\x05\xad\x81\x0c\xb8\x45\x0d\x5a\xd4\xb5\x1f\x67\x75\x66\xe9\xe8\x36\x71\xfd\x61\x8f\x01\x73\x2c\xba\xec\x0f\xab\x2f\x0c\x1f\x0f\x72\x6f\x8e\x87\x34\x77\x82\x8f\xc7\xd4\xaf\x8e\x07\xd9\x7b\xbf\xc7\x23\xda\xe8\xfb\xd1\xb7\x38\xdc\xf7\x92\x28\x90\x01\x6f\x28\x46\x64\xbe\x7f\x74\xcf\x0d\xe0\xfa\xc2\x35\xdc\xf9\xf7\x12\x27\x26\x5b\x76\x61\x6f\x61\xb6\xad\x2e\x58\x5c\xbf\x30\xd7\x20\x4b\x29\x56\x3c\xc7\x1f\x39\xee\xc6\xf0\x68\x8b\x72\x29\x94\x71\x92\xa8\x05\xee\x86\xaf\x54\xd2\xc8\x78\xc5\x6f\x31\x9d\x68\xc2\x72\xd2\xdc\xf5\x73\x23\x96\xc2\xfa\x22\x9d\x01\xa6\x2b\xe8\x0c\xee\x8e\xef\x46\xda\x92\x8a\x7e\xd7\xd4\x75\x05\xd8\x09\x99\x4e\x96\x12\xd9\xcd\x0c\xcc\x7f\x13\x96\xe7\x47\xd7\x20\x89\x78\x7f\xa9\x94\xe6\x2b\x8e\x29\x48\x96\x72\x31\x71\xbc\x63\xcb\x11\x77\xdc\x55\xc6\x2d\x51\xef\x10\x8b\xb6\x7c\xd8\xd1\x01\x88\xa0\xf6\xab\x53\x43\xf7\xda\xcd\xcd\x6d\x4a\xca\x94\xed\xd3\xe4\x5d\x33\x63\xdb\x76\xab\x7a\xf7\xff\x1d\x1a\x81\xb9\x18\x6e\x30\x13\xee\x6a\xe6\x95\xd5\x1c\xbd\xeb\xe1\xf6\x7b\x48\x7b\xa0\x42\x84\x2d\xd6\x5f\x38\xf0\x3f\x40\x60\x80\x04\xc6\x4d\xb3\x08\x06\xf5\xa5\xf3\x7a\xfb\x02\x5b\x17\x38\x0f\xa8\x01\x4c\xcb\xa2\x79\xbc\x9a\x1a\x60\x06\x83\xa9\x41\xe1\xbd\xc8\x7c\x18\x16\x3f\x76\x79\xa9\x41\xc6\xb5\x83\x87\xd4\x51\xd3\x6f\x8e\xdc\x77\x2d\xdb\x37\x88\xb9\x36\x87\x93\xff\x6b\x08\x9d\xfa\x7e\x3e\x31\xdd\x19\xfc\x85\x6d\xd9\x6b\x23\xc5\x90\x10\x9f\x68\x61\x0b\x00\x89\xb5\x28\x72\xd0\x66\x6d\xa7\x3d\x56\x4b\xbb\xf7\x02\x78\x92\x9d\x59\xce\x6d\x6a\x19\x95\x0b\xde\x62\x7a\x66\xb5\xc1\xfb\x2e\xfb\x52\x30\xb4\xe1\x58\x83\xf9\xcc\x52\x22\x8a\x6d\x02\x3b\x1c\x3e\x58\x79\x6a\xc2\xde\x36\xe6\x62\xd3\x05\x3c\xed\x14\x43\x53\x8f\x39\x74\x78\xac\xff\xf5\xab\xb4\x79\x61\x13\x78\xcd\xf0\xa3\xa3\xa2\xd7\xbb\x9b\xa5\x3b\x9c\x0d\xcd\xda\xe7\xa9\xfe\xe4\xdb\xfe\xfb\x87\xe0\x70\x3c\xe8\x21\xa8\xf8\x1c\xd4\x47\xa3\xf4\xdf\x3d\x04\x85\xee\x80\xfe\xf4\x36\x3c\xe5\x7f\xb2\xc9\x9c\x12\xb6\xc2\x52\x48\x73\xa3\xc1\xf0\x16\x6d\x3a\xe4\x6c\x2f\x2a\x6d\x55\x58\x95\x1b\x86\x6f\xa8\xdc\xf9\x82\x93\xfb\x3e\x53\xce\x3b\xad\x56\x44\x28\x76\xd8\x7e\x03\x8a\x4a\x97\xdb\xaf\x55\x06\xf5\x97\xfe\xda\x4f\x5c\xd2\x4d\x82\xe6\x6b\x8b\x5a\x8a\x62\x5d\x7f\xd0\xc4\xfb\x8e\x14\x8d\xbc\xbb\xeb\x8c\xb8\x9a\xda\xde\x35\x44\x22\xcd\x87\xc1\x69\xb0\x3a\x02\x65\xbf\x91\xd9\xc7\xd4\x2c\xe5\xcb\xa2\x10\xb6\x28\x55\xd5\xb3\xd9\x13\xa7\x26\x84\xf9\xd1\x1c\x6d\x29\x16\x0a\x53\xf7\x9b\x8c\xbb\x12\x53\x47\x04\x02\x2e\x49\xa4\xc0\xc5\x7d\x3d\xd0\xa7\xa6\x8c\x0e\x6d\x92\xca\xa2\xf6\xb2\xde\x46\xef\x0d\xe1\x24\x17\x57\x3a\xa3\xb5\xfe\x15\xf7\xb4\x42\x9d\x2d\xae\x74\xba\xb8\xbb\x53\x5a\x42\x6c\x3e\x50\x68\x9a\xd3\xc5\xd5\x54\xcb\x85\x07\xd5\xae\xfe\xf8\xd7\xd5\xd4\xac\xa2\x4b\x24\x00\xfb\x69\x17\xfb\x61\x97\x96\xbb\x9c\x60\xdc\xcf\x5b\x7d\xe9\xf9\x1f\x16\xfb\x2f\xc6\x62\x1f\xcb\x46\x1f\xcd\x36\xfe\xf9\xd6\xe1\x98\xfa\xdb\x52\xbe\xb6\x33\xfc\x61\x80\xf7\xbe\x97\x44\x4d\xce\x86\xaa\x64\x6e\xbf\x8a\x6a\xc7\x99\xcf\xcf\x06\xf7\x12\xd2\x0d\xb4\xdf\xd8\x98\x07\x8f\xff\xf4\xa7\xda\x3c\xd0\x19\xb2\xd4\x3e\x5b\xd2\x78\x74\xca\xec\x28\x72\x3d\x08\x1c\x71\x6b\x55\xe3\x60\x2e\x07\xce\x83\x6f\xcc\x67\xa2\xe8\xaf\x21\xe3\x87\x0d\x36\x5e\xc7\x82\xfe\x42\xb8\x51\xd1\x47\x42\xa8\x0b\x0f\x1d\xa4\xcf\xdb\x12\xf9\xff\x08\xd0\x6a\x13\x2c\x9e\x56\x9b\x2a\x67\x64\x6f\xc2\x20\x92\x2d\x77\x5c\x4d\x3d\x3a\x5e\x69\xfa\x96\x46\xd3\x89\xd8\xe0\xb9\xbd\x71\x66\xa6\xa9\xef\xe2\x9b\x72\x35\x89\xc4\x15\x4d\x1a\xda\xec\xdd\x0f\x2f\x87\xb7\x23\x5d\x4c\xf5\xa6\xfc\x7f\x2b\x21\xe6\x84\xb4\x61\xd0\xce\xeb\x8b\xf3\x3f\x9e\x1f\xb7\x3e\x39\x3f\x1f\x68\x7d\xdc\x6f\xf6\x59\x9d\xb8\xd3\xb5\xd5\x4b\x69\x38\xbe\x6b\xe7\x99\xbc\x9d\x71\xe8\x9c\xc5\xc6\x6a\x76\x9f\xd0\xc2\xdc\x8a\xa4\xd8\x99\x12\x41\xba\x97\x0b\x5c\x83\x16\x20\x31\xe5\x94\x8b\x83\x4a\x81\x2d\xe0\x3d\xa3\x91\xa5\x2d\x59\xa7\xcf\xbb\x14\x40\xc5\x8d\xf1\xc3\x6d\x3c\xdf\x6a\x70\x2e\x53\x60\x92\x64\x23\x5b\x63\x20\xc5\x2e\x5e\x2a\xfb\x62\xd4\xe6\xca\x80\x92\x62\x06\xc3\x4f\x5d\x9e\xbf\x36\x5f\x4c\xc1\x5b\x37\x7f\x4b\x1f\x97\x72\xf9\x22\x1a\x13\xff\xf0\xfd\xab\xa8\x75\xca\x86\x93\xbd\xae\xdf\xe5\xd9\x09\xeb\xa5\xd6\x1f\xff\x3e\x00\x5f\xae\xd7\x92\x36\x5b\x00\x00"),
+			uncompressedSize:  23350,
 		},
 		"/traces.html": &_vfsgen_compressedFileInfo{
 			name:              "traces.html",
-- 
2.43.0


From 31230116f643e35a5c709a3575617a792c58cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:47 +0000
Subject: [PATCH 32/35] fix: give a child recorder its parent's logger

---
 recorder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recorder.go b/recorder.go
index ebb79dc..ac86ee3 100644
--- a/recorder.go
+++ b/recorder.go
@@ -44,7 +44,9 @@ func NewRecorder(span SpanID, c Collector) *Recorder {
 // Child creates a new Recorder with the same collector and a new
 // child SpanID whose parent is this recorder's SpanID.
 func (r *Recorder) Child() *Recorder {
-	return NewRecorder(NewSpanID(r.SpanID), r.collector)
+	child := NewRecorder(NewSpanID(r.SpanID), r.collector)
+	child.Logger = r.Logger
+	return child
 }
 
 // Name sets the name of this span.
-- 
2.43.0


From 175fe5d54e3fbf3131d4775bb146f726909cc575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:04 +0000
Subject: [PATCH 33/35] fix: log the errors of recorders that httptrace makes
 itself

---
 httptrace/client.go | 4 ++++
 httptrace/server.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/httptrace/client.go b/httptrace/client.go
index 094ca1f..d5648d6 100644
--- a/httptrace/client.go
+++ b/httptrace/client.go
@@ -1,6 +1,7 @@
 package httptrace
 
 import (
+	"log"
 	"net/http"
 	"strings"
 	"sync"
@@ -169,6 +170,9 @@ func (t *Transport) RoundTrip(original *http.Request) (*http.Response, error) {
 	}
 	child.Event(e)
 	child.Finish()
+	for _, err := range child.Errors() { // nobody else can see the child's errors
+		log.Printf("Warning: recording span %s failed: %s", child.SpanID, err)
+	}
 	return resp, err
 }
 
diff --git a/httptrace/server.go b/httptrace/server.go
index c6da023..06fa793 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -110,6 +110,9 @@ func Middleware(c appdash.Collector, conf *MiddlewareConfig) func(rw http.Respon
 		}
 		rec.Event(e)
 		rec.Finish()
+		for _, err := range rec.Errors() {
+			log.Printf("Warning: recording span %s failed: %s", rec.SpanID, err)
+		}
 	}
 }
 
-- 
2.43.0


From e423531502a395ca5641c8a35336edf9bd2f428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:07 +0000
Subject: [PATCH 34/35] fix: report the errors of sending sample data

---
 cmd/appdash/sample_data.go | 9 ++++++---
 cmd/appdash/serve_cmd.go   | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/cmd/appdash/sample_data.go b/cmd/appdash/sample_data.go
index bfc44e4..942a00d 100644
--- a/cmd/appdash/sample_data.go
+++ b/cmd/appdash/sample_data.go
@@ -51,6 +51,9 @@ func sampleData(c appdash.Collector) error {
 			Tag:        fmt.Sprintf("fakeTag%d", rand.Intn(10)),
 		})
 		traceRec.Finish()
+		if errs := traceRec.Errors(); len(errs) > 0 {
+			return fmt.Errorf("recorder errors: %v", errs)
+		}
 
 		// We'll split the trace into N (3-7) spans (i.e. "N operations") each with
 		// a random duration of time adding up to the length of the trace.
@@ -83,13 +86,13 @@ func sampleData(c appdash.Collector) error {
 			// Shift the start time forward.
 			startTime = startTime.Add(spanDuration)
 
+			lastSpanID = spanID
+			rec.Finish()
+
 			// Check for any recorder errors.
 			if errs := rec.Errors(); len(errs) > 0 {
 				return fmt.Errorf("recorder errors: %v", errs)
 			}
-
-			lastSpanID = spanID
-			rec.Finish()
 		}
 	}
 	return nil
diff --git a/cmd/appdash/serve_cmd.go b/cmd/appdash/serve_cmd.go
index 7bb561d..f1c289b 100644
--- a/cmd/appdash/serve_cmd.go
+++ b/cmd/appdash/serve_cmd.go
@@ -124,7 +124,9 @@ func (c *ServeCmd) Execute(args []string) error {
 	}
 
 	if c.SampleData {
-		sampleData(Store)
+		if err := sampleData(Store); err != nil {
+			return err
+		}
 	}
 
 	var l net.Listener
-- 
2.43.0


From 1f6f5bdbf305ea5a510fb434c903b68863f78018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:36 +0000
Subject: [PATCH 35/35] fix: give the web app the https URL and bracketed IPv6
 address that it is served at

---
 cmd/appdash/serve_cmd.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/appdash/serve_cmd.go b/cmd/appdash/serve_cmd.go
index f1c289b..330a02e 100644
--- a/cmd/appdash/serve_cmd.go
+++ b/cmd/appdash/serve_cmd.go
@@ -197,7 +197,10 @@ func (c *ServeCmd) urlOrDefault() (*url.URL, error) {
 	}
 	addr := &url.URL{
 		Scheme: "http",
-		Host:   fmt.Sprintf("%s:%s", host, port),
+		Host:   net.JoinHostPort(host, port), // puts an IPv6 address in brackets
+	}
+	if c.TLSCert != "" || c.TLSKey != "" {
+		addr.Scheme = "https"
 	}
 	return addr, nil
 }
-- 
2.43.0

