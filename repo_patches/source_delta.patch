From 3d30be550ca5b931dcfb2e7bf465ddeb131fbc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 01/24] fix: acknowledge a dequeued URL when the concurrency
 slot cannot be acquired

---
 engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine.go b/engine.go
index eda6204..c519795 100644
--- a/engine.go
+++ b/engine.go
@@ -229,6 +229,7 @@ func (eng *Engine) run(ctx context.Context) error {
 
 		if eng.sema != nil {
 			if err := eng.sema.Acquire(ctx, 1); err != nil {
+				eng.queue.Done(ctx, url)
 				return err
 			}
 		}
-- 
2.43.0


From 55a654e112145ea615eeb8ec5fa06b345a2d671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 02/24] fix: keep the stored body when a revalidation answers
 304

---
 antcache/httpcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index dc68224..37b67a8 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -248,7 +248,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// A 304 (Not Modified) response status code indicates that the
 	// stored response can be updated and reused; see Section 4.3.4.
 	if newresp.StatusCode == 304 {
-		c.discard(resp)
+		c.discard(newresp)
 		merge(resp.Header, newresp.Header)
 		c.store(key, resp)
 		return resp, nil
-- 
2.43.0


From 0a0528001d2996f50084d87ed429f9b30352cbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 03/24] fix: discard the response that is not returned after a
 failed revalidation

---
 antcache/httpcache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index 37b67a8..fc88dec 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -240,8 +240,10 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	if newresp.StatusCode >= 500 && newresp.StatusCode < 600 {
 		reqd := directivesFrom(req.Header)
 		if reqd.has("stale-if-error") {
+			c.discard(newresp)
 			return resp, nil
 		}
+		c.discard(resp)
 		return newresp, nil
 	}
 
-- 
2.43.0


From 472d31f145a5a8ccc0bd23abb3a9e03dddeb4578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 04/24] fix: make the bloom filter de-duplicator safe for
 concurrent use

---
 dedupe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedupe.go b/dedupe.go
index 738bcb4..0de7545 100644
--- a/dedupe.go
+++ b/dedupe.go
@@ -57,6 +57,7 @@ func (d *deduper) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
 
 // Dedupebf implements a bloom filter deduper.
 type dedupebf struct {
+	lock   sync.Mutex
 	filter *bloom.BloomFilter
 }
 
@@ -77,6 +78,9 @@ func DedupeBF(k, m uint) Deduper {
 func (d *dedupebf) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
 	var ret = make(URLs, 0, len(urls))
 
+	d.lock.Lock()
+	defer d.lock.Unlock()
+
 	for _, u := range urls {
 		v := []byte(u.String())
 		if !d.filter.Test(v) {
-- 
2.43.0


From fe763802f7065d6796da459ddc8086548f20f60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 05/24] fix: retry wrapped temporary network errors

---
 fetcher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fetcher.go b/fetcher.go
index fc56b88..863f01c 100644
--- a/fetcher.go
+++ b/fetcher.go
@@ -2,6 +2,7 @@ package ant
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -287,6 +288,6 @@ func (f *Fetcher) maxBackoff() time.Duration {
 
 // IsTemporary returns true if the error is temporary.
 func isTemporary(err error) bool {
-	t, ok := err.(interface{ Temporary() bool })
-	return ok && t.Temporary()
+	var t interface{ Temporary() bool }
+	return errors.As(err, &t) && t.Temporary()
 }
-- 
2.43.0


From 61b9b69297872022077b78cd5efea3465fc6f682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 06/24] fix: never overflow the backoff duration

---
 fetcher.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fetcher.go b/fetcher.go
index 863f01c..9c5b90f 100644
--- a/fetcher.go
+++ b/fetcher.go
@@ -249,14 +249,16 @@ func (f *Fetcher) client() Client {
 func (f *Fetcher) backoff(ctx context.Context, attempt int) error {
 	var min = f.minBackoff()
 	var max = f.maxBackoff()
-	var dur = time.Duration(attempt*attempt) * min
+	var dur = max
 
 	if min >= max {
 		return fmt.Errorf("ant: min backoff must be greater than max backoff")
 	}
 
-	if dur > max {
-		dur = max
+	// Multiply only when the product can't exceed max, this ensures
+	// that large attempts or durations never overflow.
+	if n := time.Duration(attempt); n <= max/min/n {
+		dur = n * n * min
 	}
 
 	var timer = time.NewTimer(dur)
-- 
2.43.0


From eebdbfa4281fcfdb593a65cba5051aa4c6ff98b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 07/24] fix: keep normalised paths absolute and without dot
 segments

---
 internal/normalize/url.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index aef861b..1940f5c 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -35,6 +35,7 @@ func URL(u *url.URL) *url.URL {
 	u.Scheme = strings.ToLower(u.Scheme)
 	u.Host = hostname(u)
 	u.Path = pathname(u)
+	u.RawPath = ""
 	u.RawQuery = query(u.RawQuery)
 	u.ForceQuery = false
 	u.Fragment = ""
@@ -63,8 +64,7 @@ func pathname(u *url.URL) string {
 	case "", "/":
 		return "/"
 	default:
-		parts := strings.Split(u.Path, "/")
-		return path.Join(parts...)
+		return path.Join("/", u.Path)
 	}
 }
 
-- 
2.43.0


From a807826910c0ae3255aeec304fdcb93f0fe5ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 08/24] fix: drop the default port after an IPv6 literal

---
 internal/normalize/url.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index 1940f5c..73dae6e 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -46,7 +46,7 @@ func URL(u *url.URL) *url.URL {
 func hostname(u *url.URL) string {
 	var host = strings.ToLower(u.Host)
 
-	if j := strings.IndexByte(host, ':'); j != -1 {
+	if j := strings.LastIndexByte(host, ':'); j != -1 {
 		switch port := host[j+1:]; {
 		case u.Scheme == "http" && port == "80":
 			return host[:j]
-- 
2.43.0


From 789bf77172a30657c9b80873bf3efb8439a0a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 09/24] fix: cap cache-control durations that overflow

---
 antcache/directives.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/antcache/directives.go b/antcache/directives.go
index 10192f5..703f6e9 100644
--- a/antcache/directives.go
+++ b/antcache/directives.go
@@ -1,6 +1,7 @@
 package antcache
 
 import (
+	"errors"
 	"net/http"
 	"strconv"
 	"strings"
@@ -41,7 +42,11 @@ func (d directives) has(name string) bool {
 // Ok is true if the directive exists and has a positive duration.
 func (d directives) duration(name string) (td time.Duration, ok bool) {
 	if v, has := d[name]; has {
-		n, err := strconv.ParseInt(v, 10, 64)
+		// The value is capped to 32bits so that it never overflows.
+		n, err := strconv.ParseInt(v, 10, 32)
+		if errors.Is(err, strconv.ErrRange) {
+			err = nil
+		}
 		td, ok = (time.Duration(n) * time.Second), err == nil
 	}
 	return
-- 
2.43.0


From bf743f9c8bd8cdc71bfc2b76f206e322454ebb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 10/24] fix: never store a response whose body was not fully
 read

---
 antcache/cachereader.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/antcache/cachereader.go b/antcache/cachereader.go
index 69a47cd..2317584 100644
--- a/antcache/cachereader.go
+++ b/antcache/cachereader.go
@@ -19,6 +19,7 @@ type cachereader struct {
 	key   uint64
 	rc    io.ReadCloser
 	buf   bytes.Buffer
+	eof   bool
 	once  sync.Once
 	ctx   context.Context
 	store func(ctx context.Context, key uint64, v []byte) error
@@ -29,6 +30,9 @@ func (cr *cachereader) Read(p []byte) (n int, err error) {
 	if n, err = cr.rc.Read(p); n > 0 {
 		cr.buf.Write(p[:n])
 	}
+	if err == io.EOF {
+		cr.eof = true
+	}
 	return n, err
 }
 
@@ -37,6 +41,10 @@ func (cr *cachereader) Close() error {
 	cerr := cr.rc.Close()
 
 	cr.once.Do(func() {
+		if !cr.complete() {
+			return
+		}
+
 		resp := *cr.resp
 
 		r := bytes.NewReader(cr.buf.Bytes())
@@ -63,3 +71,10 @@ func (cr *cachereader) Close() error {
 
 	return cerr
 }
+
+// Complete returns true if the whole body was read.
+func (cr *cachereader) complete() bool {
+	return cr.eof ||
+		cr.rc == http.NoBody ||
+		cr.resp.ContentLength == int64(cr.buf.Len())
+}
-- 
2.43.0


From 0baf40984da7fbdbaa59c3bc3113b47fc84292b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 11/24] fix: honour the no-cache request directive in the
 aggressive cache

---
 antcache/aggressive.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/antcache/aggressive.go b/antcache/aggressive.go
index 253e076..9983ee3 100644
--- a/antcache/aggressive.go
+++ b/antcache/aggressive.go
@@ -67,6 +67,11 @@ func (a aggressive) store(resp *http.Response) bool {
 
 // Fresh implementation.
 func (a aggressive) fresh(resp *http.Response) freshness {
+	// The request bypasses the cache explicitly.
+	if directivesFrom(resp.Request.Header).has("no-cache") {
+		return transparent
+	}
+
 	if date, ok := date(resp.Header); ok {
 		if time.Since(date) < a.lifetime() {
 			return fresh
-- 
2.43.0


From ece7ea2a6968b9dc73d8ef69a11f5fe102692522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 12/24] fix: stop warming up when the directory cannot be read

---
 antcache/disk.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index d2646e8..d492201 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -255,7 +255,10 @@ func (d *Diskstore) warmup() {
 	for {
 		names, err := d.dir.Readdirnames(5)
 
-		if errors.Is(err, io.EOF) {
+		if err != nil {
+			if !errors.Is(err, io.EOF) {
+				log.Printf("antcache: disk readdir %s - %s", d.path, err)
+			}
 			break
 		}
 
-- 
2.43.0


From f6f30ed18859f571017977cd73fba43001ee25f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 13/24] fix: sweep expired files first and then the oldest ones

---
 antcache/disk.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index d492201..77f98f2 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -335,6 +335,7 @@ func (d *Diskstore) sweep() (int, error) {
 	var now = d.now()
 	var removed int
 	var remove []file
+	var keep []file
 	var sum int64
 
 	sort.Slice(files, func(i, j int) bool {
@@ -347,14 +348,22 @@ func (d *Diskstore) sweep() (int, error) {
 		if d.maxage > 0 {
 			if now.Sub(f.mtime) > d.maxage {
 				remove = append(remove, f)
+				continue
 			}
 		}
 
-		if d.maxsize > 0 {
-			if sum += f.size; sum > d.maxsize {
-				remove = append(remove, f)
-				sum -= f.size
+		keep = append(keep, f)
+		sum += f.size
+	}
+
+	// Remove the oldest files first until the rest fits.
+	if d.maxsize > 0 {
+		for _, f := range keep {
+			if sum <= d.maxsize {
+				break
 			}
+			remove = append(remove, f)
+			sum -= f.size
 		}
 	}
 
-- 
2.43.0


From 99f1ff2f93e8c8fc55cf0707619f641590647485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 14/24] fix: never sweep a file that was replaced concurrently

---
 antcache/disk.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 77f98f2..e197b82 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -371,7 +371,7 @@ func (d *Diskstore) sweep() (int, error) {
 	defer d.readymu.Unlock()
 
 	for _, f := range remove {
-		if _, ok := d.ready[f.key]; ok {
+		if cur, ok := d.ready[f.key]; ok && cur == f {
 			if err := os.Remove(f.path); err != nil {
 				log.Printf("antcache: disk remove - %s", err)
 				continue
@@ -474,6 +474,11 @@ func (d *Diskstore) add(key uint64, f *os.File) error {
 		return fmt.Errorf("antcache: close %s - %w", f.Name(), err)
 	}
 
+	// The file is renamed and made visible in one step, otherwise
+	// the sweeper may remove a file that was just replaced.
+	d.readymu.Lock()
+	defer d.readymu.Unlock()
+
 	if err := os.Rename(f.Name(), newpath); err != nil {
 		return fmt.Errorf("antcache: disk rename - %w", err)
 	}
@@ -482,14 +487,12 @@ func (d *Diskstore) add(key uint64, f *os.File) error {
 		return fmt.Errorf("antcache: disk fsync - %w", err)
 	}
 
-	d.readymu.Lock()
 	d.ready[key] = file{
 		key:   key,
 		path:  newpath,
 		size:  stat.Size(),
 		mtime: stat.ModTime(),
 	}
-	d.readymu.Unlock()
 
 	return nil
 }
-- 
2.43.0


From 25a54651979fce34eeb3e3f59c3db82793dfde53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 15/24] fix: drop index entries whose file is already gone when
 sweeping

---
 antcache/disk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index e197b82..b33e2dd 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -372,7 +372,7 @@ func (d *Diskstore) sweep() (int, error) {
 
 	for _, f := range remove {
 		if cur, ok := d.ready[f.key]; ok && cur == f {
-			if err := os.Remove(f.path); err != nil {
+			if err := os.Remove(f.path); err != nil && !errors.Is(err, os.ErrNotExist) {
 				log.Printf("antcache: disk remove - %s", err)
 				continue
 			}
-- 
2.43.0


From d7fa5512e1313b7ffdc22bd08340eebb4c0b3139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 16/24] fix: report slices without a selector as an error

---
 internal/scan/slice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/scan/slice.go b/internal/scan/slice.go
index ae02771..9e12e0c 100644
--- a/internal/scan/slice.go
+++ b/internal/scan/slice.go
@@ -1,6 +1,7 @@
 package scan
 
 import (
+	"fmt"
 	"reflect"
 
 	"github.com/andybalholm/cascadia"
@@ -18,6 +19,10 @@ type sliceScanner struct {
 func Slice(opts Options, t reflect.Type) (ScanFunc, error) {
 	var eltype = t.Elem()
 
+	if opts.Selector == nil {
+		return nil, fmt.Errorf("scan: cannot scan into %s without a selector", t)
+	}
+
 	f, err := ScannerOf(eltype, Options{
 		Selector: nil,
 		Attr:     opts.Attr,
-- 
2.43.0


From 0538c4edb87858cc9d855791baff19e06e48e275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 17/24] fix: scan nested structs below the node their selector
 matches

---
 internal/scan/struct.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/scan/struct.go b/internal/scan/struct.go
index 093dbb9..586ca2b 100644
--- a/internal/scan/struct.go
+++ b/internal/scan/struct.go
@@ -17,7 +17,8 @@ type field struct {
 
 // StructScanner implements a struct scanner.
 type structScanner struct {
-	fields []field
+	selector cascadia.Selector
+	fields   []field
 }
 
 // Struct returns a scanfunc for a struct or an error.
@@ -75,11 +76,17 @@ func Struct(opts Options, t reflect.Type) (ScanFunc, error) {
 		return nil, fmt.Errorf("scan: struct %v has no css tags", t)
 	}
 
-	return (structScanner{fields}).scan, nil
+	return (structScanner{opts.Selector, fields}).scan, nil
 }
 
 // Scan implements a scan func.
 func (ss structScanner) scan(dst reflect.Value, src *html.Node) error {
+	if ss.selector != nil {
+		if src = ss.selector.MatchFirst(src); src == nil {
+			return nil
+		}
+	}
+
 	for _, f := range ss.fields {
 		v := dst.FieldByIndex(f.index)
 		if err := f.scan(v, src); err != nil {
-- 
2.43.0


From 2d2bc83bd31eafbbc604c9c1f57e6a91ab45ba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 18/24] fix: close the chrome connection when its
 initialization fails

---
 antcdp/tx.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 34f948f..fabae01 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -34,7 +34,7 @@ type tx struct {
 }
 
 // Init initializes the transaction.
-func (tx *tx) init(ctx context.Context) error {
+func (tx *tx) init(ctx context.Context) (err error) {
 	var url = tx.target.WebSocketDebuggerURL
 
 	conn, err := rpcc.DialContext(ctx, url)
@@ -42,6 +42,13 @@ func (tx *tx) init(ctx context.Context) error {
 		return fmt.Errorf("antcdp: dial %q - %w", url, err)
 	}
 
+	// Close the connection if any of the next steps fail.
+	defer func() {
+		if err != nil {
+			conn.Close()
+		}
+	}()
+
 	tx.conn = conn
 	tx.resp = &http.Response{Request: tx.request}
 	tx.client = cdp.NewClient(conn)
-- 
2.43.0


From 7abee0019f85cf02d3f99d54a2fd975b803dbedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 19/24] fix: stop waiting once the navigated document has
 responded

---
 antcdp/tx.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index fabae01..8b2b480 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -122,20 +122,17 @@ func (tx *tx) do(ctx context.Context) (*http.Response, error) {
 	return tx.resp, nil
 }
 
-// Wait waits for the network requests to load.
+// Wait waits for the response of the navigated document.
 func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
-	var ids = make(map[network.RequestID]struct{})
 	var reqc = tx.events.req
 	var resc = tx.events.res
 
 	for {
 		select {
 		case <-reqc.Ready():
-			event, err := reqc.Recv()
-			if err != nil {
+			if _, err := reqc.Recv(); err != nil {
 				return fmt.Errorf("antcdp: request recv - %w", err)
 			}
-			ids[event.RequestID] = struct{}{}
 
 		case <-resc.Ready():
 			event, err := resc.Recv()
@@ -154,10 +151,7 @@ func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
 				return fmt.Errorf("antcdp: merge response - %w", err)
 			}
 
-			delete(ids, event.RequestID)
-			if len(ids) == 0 {
-				return nil
-			}
+			return nil
 
 		case <-ctx.Done():
 			return ctx.Err()
-- 
2.43.0


From 3c5dfc6a477ec1411c56024175901356c25dffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 20/24] fix: fail to scrape JSON into a type that is not a
 struct

---
 json.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index e2577c9..e139c8e 100644
--- a/json.go
+++ b/json.go
@@ -29,7 +29,7 @@ func JSON(w io.Writer, t any, selectors ...string) Scraper {
 	var typ = reflect.TypeOf(t)
 	var enc = json.NewEncoder(w)
 
-	if typ.Kind() == reflect.Ptr {
+	if typ != nil && typ.Kind() == reflect.Ptr {
 		typ = typ.Elem()
 	}
 
@@ -50,6 +50,10 @@ type jsonscraper struct {
 
 // Scrape implementation.
 func (j *jsonscraper) Scrape(ctx context.Context, p *Page) (URLs, error) {
+	if j.typ == nil || j.typ.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("ant: json expects a struct, got %v", j.typ)
+	}
+
 	var v = reflect.New(j.typ)
 
 	if err := p.Scan(v.Interface()); err != nil {
-- 
2.43.0


From 6a82354f0f21e13a8cd1631f6d1a0b3a05d03292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 21/24] fix: drop the port of a host with several colons in
 full or not at all

---
 internal/normalize/url.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index 73dae6e..6fb2fc1 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -46,12 +46,14 @@ func URL(u *url.URL) *url.URL {
 func hostname(u *url.URL) string {
 	var host = strings.ToLower(u.Host)
 
-	if j := strings.LastIndexByte(host, ':'); j != -1 {
-		switch port := host[j+1:]; {
+	var end = strings.IndexByte(host, ']') + 1 // of an IPv6 literal
+
+	if j := strings.IndexByte(host[end:], ':'); j != -1 {
+		switch port := host[end+j+1:]; {
 		case u.Scheme == "http" && port == "80":
-			return host[:j]
+			return host[:end+j]
 		case u.Scheme == "https" && port == "443":
-			return host[:j]
+			return host[:end+j]
 		}
 	}
 
-- 
2.43.0


From e55cfe75fa97f12cc14f3c1853fc61a39c2e09c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 22/24] fix: report nil scan destinations as errors

---
 internal/scan/scanner.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/scan/scanner.go b/internal/scan/scanner.go
index 99101eb..26efb97 100644
--- a/internal/scan/scanner.go
+++ b/internal/scan/scanner.go
@@ -49,12 +49,17 @@ func NewScanner() *Scanner {
 // Scan scans from src node into dst value.
 func (s *Scanner) Scan(dst any, src *html.Node, opts Options) error {
 	var v = reflect.ValueOf(dst)
-	var t = v.Type()
 
-	if t.Kind() != reflect.Ptr {
+	if v.Kind() != reflect.Ptr {
 		return fmt.Errorf("scan: cannot scan into non ptr %T", dst)
 	}
 
+	if v.IsNil() {
+		return fmt.Errorf("scan: cannot scan into nil %T", dst)
+	}
+
+	var t = v.Type()
+
 	f, ok := s.lookup(t)
 	if !ok {
 		scanFunc, err := s.register(t.Elem(), opts)
-- 
2.43.0


From 6b9ca80990ec1888f50ea390d03720765a68edcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 23/24] fix: empty the slice a selector matches nothing for

---
 internal/scan/slice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/scan/slice.go b/internal/scan/slice.go
index 9e12e0c..8260b33 100644
--- a/internal/scan/slice.go
+++ b/internal/scan/slice.go
@@ -43,6 +43,7 @@ func (ss sliceScanner) scan(dst reflect.Value, src *html.Node) error {
 	var nodes = ss.selector.MatchAll(src)
 
 	if len(nodes) == 0 {
+		dst.Set(reflect.Zero(ss.sliceType))
 		return nil
 	}
 
-- 
2.43.0


From 4d7ed885524d8e58ea545227a819c2305c1e5e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 24/24] fix: let the sweep interval of a disk store be turned
 off more than once

---
 antcache/disk.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index b33e2dd..654c568 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -65,12 +65,13 @@ func Maxsize(size int64) DiskOption {
 // the maxsize is reached.
 func SweepEvery(d time.Duration) DiskOption {
 	return func(ds *Diskstore) error {
-		if d > 0 {
-			ds.ticker = time.NewTicker(d)
-		} else {
+		if ds.ticker != nil {
 			ds.ticker.Stop()
 			ds.ticker = nil
 		}
+		if d > 0 {
+			ds.ticker = time.NewTicker(d)
+		}
 		return nil
 	}
 }
-- 
2.43.0

