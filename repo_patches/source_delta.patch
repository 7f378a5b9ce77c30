From 7d7640cfd114e74f53d3fa3ab90b6bb1f0153308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:17 +0000
Subject: [PATCH 01/66] fix: do not hand one caller's cancellation or panic to
 coalesced requests

Requests waiting for an in-flight request got the context error of a caller
that went away, and waited forever if its execution panicked.
---
 pkg/server/middleware/coalesce.go | 68 ++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 8f6cac4..1bc1ed1 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -57,6 +57,10 @@ type call struct {
 	coalesced bool
 	resp      []byte
 	err       error
+
+	// unshareable indicates that the outcome of the initial request is
+	// not meant for any other request, which then has to run on its own.
+	unshareable bool
 }
 
 // NewCoalesced returns a coalesced http roundtripper.
@@ -84,12 +88,6 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	if ok {
 		// At this point a similar request is already in-flight. Wait for response.
 
-		// Close the request body, as this request is put on hold here waiting for
-		// the initial request's response.
-		if req.Body != nil {
-			defer req.Body.Close()
-		}
-
 		// Lock the inflight request to prevent it from being removed before
 		// any waiting call routines are done processing.
 		inflight.L.Lock()
@@ -109,6 +107,14 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 		inflight.L.Unlock()
 
 		// Initial request completed.
+		if inflight.unshareable {
+			return coalescer.next.RoundTrip(req)
+		}
+		// Close the request body, as this request is served with the initial
+		// request's response.
+		if req.Body != nil {
+			defer req.Body.Close()
+		}
 		if inflight.err != nil {
 			return nil, inflight.err
 		}
@@ -129,8 +135,42 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	coalescer.Unlock()
 
 	// Execute e2e request.
-	resp, err := coalescer.next.RoundTrip(req)
+	var resp *http.Response
+	var err error
+	completed := false
+	defer func() {
+		// Do not leave anyone waiting if the execution panics.
+		if !completed {
+			coalescer.release(key, inflight, func() { inflight.unshareable = true })
+		}
+	}()
+	resp, err = coalescer.next.RoundTrip(req)
+	completed = true
+
+	coalescer.release(key, inflight, func() {
+		switch {
+		case req.Context().Err() != nil:
+			// The caller went away, which is no concern of the waiting ones.
+			inflight.unshareable = true
+		case err != nil:
+			inflight.resp, inflight.err = nil, err
+		default:
+			// Copy the response before releasing it to waiter(s).
+			inflight.resp, inflight.err = httputil.DumpResponse(resp, true)
+		}
+	})
+
+	if err != nil {
+		log.Error().Err(err).Str("key", key).Send()
+		return nil, err
+	}
+
+	return resp, nil
+}
 
+// release removes the inflight request and hands its outcome, as recorded
+// by record, to the waiting calls.
+func (coalescer *requestCoalescer) release(key string, inflight *call, record func()) {
 	// Upstream response received. Remove inflight request from the map.
 	// Important: Removing the inflight request before waking up waiting
 	// calls is crucial, otherwise race conditions and memory leaks occur.
@@ -141,21 +181,9 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	// Wake up any suspended callers waiting for this response.
 	inflight.L.Lock()
 	if inflight.coalesced {
-		if err != nil {
-			inflight.resp, inflight.err = nil, err
-		} else {
-			// Copy the response before releasing it to waiter(s).
-			inflight.resp, inflight.err = httputil.DumpResponse(resp, true)
-		}
+		record()
 		// Wake up all waiting routines.
 		inflight.Broadcast()
 	}
 	inflight.L.Unlock()
-
-	if err != nil {
-		log.Error().Err(err).Str("key", key).Send()
-		return nil, err
-	}
-
-	return resp, nil
 }
-- 
2.43.0


From e7c1bc1b337e7b943144cb2ce0ef43e1e4630057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 02/66] fix: coalesce only requests and responses that may be
 shared

Requests with credentials, conditions, directives of their own, a body or
excluded from caching got the response to another request, and responses
marked private or no-store were given to every concurrent client.
---
 pkg/server/middleware/coalesce.go  | 48 ++++++++++++++++++++++++------
 pkg/server/middleware/httpcache.go |  7 +++++
 2 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 1bc1ed1..b8b12ec 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -27,8 +27,10 @@ import (
 	"bytes"
 	"net/http"
 	"net/http/httputil"
+	"strings"
 	"sync"
 
+	"github.com/kacheio/kache/pkg/cache"
 	"github.com/rs/zerolog/log"
 )
 
@@ -63,6 +65,12 @@ type call struct {
 	unshareable bool
 }
 
+// shareable is implemented by a next RoundTripper that can tell if the response
+// to a request may be used for any other request.
+type shareable interface {
+	Shareable(req *http.Request) bool
+}
+
 // NewCoalesced returns a coalesced http roundtripper.
 func NewCoalesced(next http.RoundTripper) http.RoundTripper {
 	return &requestCoalescer{
@@ -71,18 +79,37 @@ func NewCoalesced(next http.RoundTripper) http.RoundTripper {
 	}
 }
 
+// coalesceKey returns the key shared by the requests that can be coalesced with
+// the given request, or false if the request cannot be coalesced at all.
+func (coalescer *requestCoalescer) coalesceKey(req *http.Request) (string, bool) {
+	// Only coalesce GET requests without a body.
+	if req.Method != http.MethodGet || (req.Body != nil && req.Body != http.NoBody) {
+		return "", false
+	}
+	// Requests that bypass the cache expect a response of their own.
+	if next, ok := coalescer.next.(shareable); ok && !next.Shareable(req) {
+		return "", false
+	}
+	// The request's directives decide on what the cache is allowed to answer.
+	return strings.Join([]string{
+		req.URL.String(),
+		req.Host,
+		strings.Join(req.Header.Values(cache.HeaderCacheControl), ","),
+		strings.Join(req.Header.Values(cache.HeaderPragma), ","),
+	}, "\n"), true
+}
+
 // RoundTrip executes and returns the given request and coalesces
 // concurrent GET requests. It ensures that only one execution call is
 // in-flight for a given key at a time. Following duplicate or similar (same URL)
 // requests are blocked until the original request completes. The resulting
-// response is shared with all waiting requests.
+// response is shared with all waiting requests, unless it must not be shared.
 func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response, error) {
-	// Only coalesce GET requests.
-	if req.Method != http.MethodGet {
+	key, ok := coalescer.coalesceKey(req)
+	if !ok {
 		return coalescer.next.RoundTrip(req)
 	}
 
-	key := req.URL.String()
 	coalescer.Lock()
 	inflight, ok := coalescer.inflights[key]
 	if ok {
@@ -110,11 +137,6 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 		if inflight.unshareable {
 			return coalescer.next.RoundTrip(req)
 		}
-		// Close the request body, as this request is served with the initial
-		// request's response.
-		if req.Body != nil {
-			defer req.Body.Close()
-		}
 		if inflight.err != nil {
 			return nil, inflight.err
 		}
@@ -154,6 +176,8 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 			inflight.unshareable = true
 		case err != nil:
 			inflight.resp, inflight.err = nil, err
+		case !isShareable(resp):
+			inflight.unshareable = true
 		default:
 			// Copy the response before releasing it to waiter(s).
 			inflight.resp, inflight.err = httputil.DumpResponse(resp, true)
@@ -187,3 +211,9 @@ func (coalescer *requestCoalescer) release(key string, inflight *call, record fu
 	}
 	inflight.L.Unlock()
 }
+
+// isShareable reports whether the response may be used for another request.
+func isShareable(resp *http.Response) bool {
+	cc := strings.Join(resp.Header.Values(cache.HeaderCacheControl), ",")
+	return !cache.ParseResponseCacheControl(cc).NoStore
+}
diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index c88a3c9..e548b15 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -185,6 +185,13 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 	return resp, nil
 }
 
+// Shareable reports whether the response to the request may also be used for
+// other requests, i.e. whether the request does not bypass the cache.
+func (t *Transport) Shareable(req *http.Request) bool {
+	return !t.Cache.IsExcludedPath(req.URL.Path) && !t.Cache.IsExcludedHeader(req.Header) &&
+		cache.IsCacheableRequest(req)
+}
+
 // handleCacheHit handles a cache hit and sends the cached response downstream.
 func (t *Transport) handleCacheHit(key string, cached *cache.LookupResult) (*http.Response, error) {
 	log.Debug().Str("cache-key", key).Interface("header", cached.Header()).Str("x-cache", "HIT").Send()
-- 
2.43.0


From 1b3ec2de5acfdc2bb8250e8fb970aaf1492bea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:16 +0000
Subject: [PATCH 03/66] fix: match Cache-Control directives case-insensitively

'Private' or 'No-Store' was ignored, and such responses were stored.
---
 pkg/cache/cache_control.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 8f92c7d..ed7cea4 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -185,7 +185,8 @@ func splitDirective(s string) (dir string, arg string) {
 	} else {
 		dir = strings.TrimSpace(s)
 	}
-	return dir, arg
+	// Directive names are case-insensitive.
+	return strings.ToLower(strings.TrimSpace(dir)), strings.TrimSpace(arg)
 }
 
 // parseDuration parses a directive argument and returns a valid duration in
-- 
2.43.0


From 1b3775424aace61ff97a6365282291fda2b4560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:19 +0000
Subject: [PATCH 04/66] fix: respect all lines of a Cache-Control header

Directives of any but the first header line were ignored.
---
 pkg/cache/cache_control.go        | 6 ++++++
 pkg/cache/cacheable.go            | 3 +--
 pkg/cache/httpcache.go            | 4 ++--
 pkg/server/middleware/coalesce.go | 5 ++---
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index ed7cea4..7bf292a 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -173,6 +173,12 @@ func ParseResponseCacheControl(header string) ResponseCacheControl {
 	return cc
 }
 
+// CacheControl returns the value of the Cache-Control header, which may be split
+// over multiple lines.
+func CacheControl(header http.Header) string {
+	return strings.Join(header.Values(HeaderCacheControl), ",")
+}
+
 // splitDirective splits the cache control directive into its token and optional argument.
 // Grammar (https://httpwg.org/specs/rfc7234.html#header.cache-control):
 //
diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index e2f6a90..bbb90e7 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -116,8 +116,7 @@ func IsCacheableRequest(req *http.Request) bool {
 // then its response is also not cacheable. Hence, CanServeRequestFromCache and
 // `IsCacheableResponse` together should cover the cacheability of the response.
 func IsCacheableResponse(res *http.Response) bool {
-	cacheControl := res.Header.Get(HeaderCacheControl)
-	resCacheControl := ParseResponseCacheControl(cacheControl)
+	resCacheControl := ParseResponseCacheControl(CacheControl(res.Header))
 
 	// Only cache responses with enough data to calculate freshness lifetime:
 	// https://httpwg.org/specs/rfc7234.html#calculating.freshness.lifetime
diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 3e86cbd..62d94d8 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -360,7 +360,7 @@ type LookupRequest struct {
 func NewLookupRequest(req *http.Request, timestamp time.Time, strict bool) *LookupRequest {
 	var requestCacheControl RequestCacheControl
 	requestCacheControl.SetDefaults()
-	cacheControl := req.Header.Get(HeaderCacheControl)
+	cacheControl := CacheControl(req.Header)
 
 	if cacheControl != "" {
 		requestCacheControl = ParseRequestCacheControl(cacheControl)
@@ -404,7 +404,7 @@ func (l *LookupRequest) makeResult(res *http.Response, resTime time.Time) *Looku
 
 // requiresValidation checks if the cached response needs to be validated by the origin.
 func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duration) bool {
-	resCacheControl := ParseResponseCacheControl(header.Get(HeaderCacheControl))
+	resCacheControl := ParseResponseCacheControl(CacheControl(*header))
 	reqCacheControl := l.ReqCacheControl
 
 	maxAgeExceeded := reqCacheControl.MaxAge >= 0 && reqCacheControl.MaxAge < age
diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index b8b12ec..8df0852 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -94,7 +94,7 @@ func (coalescer *requestCoalescer) coalesceKey(req *http.Request) (string, bool)
 	return strings.Join([]string{
 		req.URL.String(),
 		req.Host,
-		strings.Join(req.Header.Values(cache.HeaderCacheControl), ","),
+		cache.CacheControl(req.Header),
 		strings.Join(req.Header.Values(cache.HeaderPragma), ","),
 	}, "\n"), true
 }
@@ -214,6 +214,5 @@ func (coalescer *requestCoalescer) release(key string, inflight *call, record fu
 
 // isShareable reports whether the response may be used for another request.
 func isShareable(resp *http.Response) bool {
-	cc := strings.Join(resp.Header.Values(cache.HeaderCacheControl), ",")
-	return !cache.ParseResponseCacheControl(cc).NoStore
+	return !cache.ParseResponseCacheControl(cache.CacheControl(resp.Header)).NoStore
 }
-- 
2.43.0


From fb3930a055bebe80a89bf2d273dfd523717716b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 05/66] fix: calculate the age of responses without a Date

The age overflowed to a huge negative value, so that the response was
served from the cache long after it had become stale.
---
 pkg/cache/cache_control.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 7bf292a..c11e72f 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -237,8 +237,12 @@ func parseHttpTime(s string) time.Time {
 // CalculateAge calculates the value of Age headers in seconds.
 // https://httpwg.org/specs/rfc7234.html#age.calculations
 func CalculateAge(headers *http.Header, responseTime time.Time, now time.Time) time.Duration {
-	// Calculate apparent age.
+	// Calculate apparent age. A response without a valid Date
+	// is assumed to be generated when it was received.
 	date := parseHttpTime(headers.Get(HeaderDate))
+	if date.IsZero() {
+		date = responseTime
+	}
 	apparentAge := max(0, int64(responseTime.Sub(date)))
 
 	// Set corrected age to the value Age header,
-- 
2.43.0


From 7a4d81185deed6769dfa2f51c612dcdfa9228e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 06/66] fix: do not take a response with an invalid Date for
 fresh

The lifetime of a response with Expires was computed relative to the zero
time, so that it never became stale.
---
 pkg/cache/httpcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 62d94d8..06dab4c 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -421,7 +421,9 @@ func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duratio
 	} else {
 		expires := parseHttpTime(header.Get(HeaderExpires))
 		date := parseHttpTime(header.Get(HeaderDate))
-		freshness = expires.Sub(date)
+		if !date.IsZero() {
+			freshness = expires.Sub(date)
+		}
 	}
 
 	if age > freshness { // Stale response.
-- 
2.43.0


From 06d5f60b711f37f5629ba3289aa6fadbe4f7f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 07/66] fix: pass on a 304 response if nothing is cached

The handler panicked on the missing cached response.
---
 pkg/server/middleware/httpcache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index e548b15..b77c57e 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -147,7 +147,10 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 	}
 
 	shouldUpdateCachedEntry := true
-	if resp.StatusCode == http.StatusNotModified {
+	if resp.StatusCode == http.StatusNotModified && cached.Status != cache.EntryRequiresValidation {
+		// There is nothing cached that could have been validated.
+		shouldUpdateCachedEntry = false
+	} else if resp.StatusCode == http.StatusNotModified {
 		// If the 304 response contains a strong validator (etag) that does not match
 		// the cached response, the cached response should not be updated.
 		resEtag := resp.Header.Get(cache.HeaderEtag)
-- 
2.43.0


From b273d3a9c4c3fc4d93d8af3f7ef39d82bbfcb730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 08/66] fix: mark cache hits only if the debug header is
 enabled

---
 pkg/server/middleware/httpcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index b77c57e..43d30c2 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -198,7 +198,9 @@ func (t *Transport) Shareable(req *http.Request) bool {
 // handleCacheHit handles a cache hit and sends the cached response downstream.
 func (t *Transport) handleCacheHit(key string, cached *cache.LookupResult) (*http.Response, error) {
 	log.Debug().Str("cache-key", key).Interface("header", cached.Header()).Str("x-cache", "HIT").Send()
-	cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
+	if t.Cache.MarkCachedResponses() {
+		cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
+	}
 	return cached.Response(), nil
 }
 
-- 
2.43.0


From 40b8a7fada999b96a2d218ec9597d3c970611b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:21 +0000
Subject: [PATCH 09/66] fix: do not add an empty Cache-Control header to
 responses

---
 pkg/server/middleware/httpcache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 43d30c2..7a90706 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -251,6 +251,9 @@ func (t *Transport) injectValidationHeaders(ireq *http.Request, header http.Head
 
 // updateCacheControl sets or updates the cache-control header.
 func updateCacheControl(header http.Header, val string, force bool) {
+	if val == "" { // nothing configured
+		return
+	}
 	overwrite := force
 	if _, presentcc := header["Cache-Control"]; !presentcc || overwrite {
 		header["Cache-Control"] = []string{val}
-- 
2.43.0


From faa221a918291735654e232da7b0f4e4d05252df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:52 +0000
Subject: [PATCH 10/66] fix: apply the size limit of excluded content to bodies
 of unknown length

A chunked response was cached no matter how large it was.
---
 pkg/server/middleware/httpcache.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 7a90706..b52f6d8 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -23,8 +23,11 @@
 package middleware
 
 import (
+	"bytes"
 	"context"
 	"crypto/tls"
+	"io"
+	"math"
 	"net"
 	"net/http"
 	"time"
@@ -179,7 +182,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 
 	// Store new or update validated response.
 	if cacheable && shouldUpdateCachedEntry && lookup.Request.Method != "HEAD" &&
-		!t.Cache.IsExcludedContent(resp.Header.Get("Content-Type"), resp.ContentLength) {
+		!t.isExcludedContent(resp) {
 		t.Cache.StoreResponse(context.Background(), lookup, resp, t.currentTime())
 	} else {
 		t.Cache.Delete(ctx, lookup)
@@ -249,6 +252,27 @@ func (t *Transport) injectValidationHeaders(ireq *http.Request, header http.Head
 	return req
 }
 
+// isExcludedContent checks whether the response is excluded from caching. It reads
+// the body of a response of unknown length if its size is what decides.
+func (t *Transport) isExcludedContent(resp *http.Response) bool {
+	contentType := resp.Header.Get("Content-Type")
+	if resp.ContentLength >= 0 || !t.Cache.IsExcludedContent(contentType, math.MaxInt64) {
+		return t.Cache.IsExcludedContent(contentType, resp.ContentLength)
+	}
+	if t.Cache.IsExcludedContent(contentType, 0) { // excluded, whatever its size
+		return true
+	}
+	body, err := io.ReadAll(resp.Body)
+	resp.Body = struct {
+		io.Reader
+		io.Closer
+	}{io.MultiReader(bytes.NewReader(body), resp.Body), resp.Body}
+	if err != nil {
+		return true
+	}
+	return t.Cache.IsExcludedContent(contentType, int64(len(body)))
+}
+
 // updateCacheControl sets or updates the cache-control header.
 func updateCacheControl(header http.Header, val string, force bool) {
 	if val == "" { // nothing configured
-- 
2.43.0


From bd988e5e3d590c77ca21f5e532c9d787328ca32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:54 +0000
Subject: [PATCH 11/66] fix: bypass the cache for range requests

A partial response was stored and served to requests for the whole resource,
and a range request was answered with the part some other request asked for.
---
 pkg/cache/cacheable.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index bbb90e7..7296d9e 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -41,6 +41,7 @@ const (
 
 	// Request headers
 	HeaderPragma            = "Pragma"
+	HeaderRange             = "Range"
 	HeaderIfRange           = "If-Range"
 	HeaderIfMatch           = "If-Match"
 	HeaderIfNoneMatch       = "If-None-Match"
@@ -100,6 +101,12 @@ func IsCacheableRequest(req *http.Request) bool {
 		}
 	}
 
+	// Check if only a part of the resource is requested.
+	// For now, range requests bypass the cache.
+	if _, ok := req.Header[HeaderRange]; ok {
+		return false
+	}
+
 	// Check if the request contains authorization headers.
 	// For now, requests with authorization headers bypass the cache.
 	// https://httpwg.org/specs/rfc7234.html#caching.authenticated.responses
-- 
2.43.0


From 931a426582166f5babcb52088931c3230dd0599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:32 +0000
Subject: [PATCH 12/66] fix: keep malformed query parameters in the cache key

They were dropped, so that different URLs shared a cache entry.
---
 pkg/cache/key.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/key.go b/pkg/cache/key.go
index 38eed29..4060bd9 100644
--- a/pkg/cache/key.go
+++ b/pkg/cache/key.go
@@ -47,7 +47,7 @@ func NewKeyFromRequst(req *http.Request) *Key {
 		ClusterName: "kache-",
 		Host:        req.Host,
 		Path:        cleanPath(req.URL.Path),
-		Query:       req.URL.Query().Encode(),
+		Query:       canonicalQuery(req.URL.RawQuery),
 		Scheme:      req.URL.Scheme,
 	}
 	if key.Scheme == "" {
@@ -84,6 +84,16 @@ func StableHashKey(k Key) uint64 {
 	return xxhash.Sum64([]byte(k.String()))
 }
 
+// canonicalQuery returns the query with its parameters sorted by name. A query
+// that cannot be parsed entirely is kept as is, so that none of it gets lost.
+func canonicalQuery(q string) string {
+	values, err := url.ParseQuery(q)
+	if err != nil {
+		return q
+	}
+	return values.Encode()
+}
+
 // cleanPath returns the canonical path for p.
 func cleanPath(p string) string {
 	if p == "" {
-- 
2.43.0


From 3d05c22a86c29689cac4c083e5f07ba3f787e7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 13/66] fix: tell encoded slashes from path separators in the
 cache key

/a%2Fb and /a/b are different resources, but shared a cache entry.
---
 pkg/cache/key.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/key.go b/pkg/cache/key.go
index 4060bd9..64974e7 100644
--- a/pkg/cache/key.go
+++ b/pkg/cache/key.go
@@ -35,7 +35,7 @@ import (
 type Key struct {
 	ClusterName string
 	Host        string
-	Path        string
+	Path        string // escaped
 	Query       string
 	Scheme      string
 }
@@ -46,7 +46,7 @@ func NewKeyFromRequst(req *http.Request) *Key {
 	key := &Key{
 		ClusterName: "kache-",
 		Host:        req.Host,
-		Path:        cleanPath(req.URL.Path),
+		Path:        cleanPath(req.URL.EscapedPath()),
 		Query:       canonicalQuery(req.URL.RawQuery),
 		Scheme:      req.URL.Scheme,
 	}
@@ -62,13 +62,17 @@ func NewKeyFromRequst(req *http.Request) *Key {
 
 // String encodes the cache key as string.
 func (k Key) String() string {
-	url := url.URL{
+	u := url.URL{
 		Scheme:   k.Scheme,
 		Host:     k.Host,
 		Path:     k.Path,
 		RawQuery: k.Query,
 	}
-	return fmt.Sprintf("%s%s", k.ClusterName, url.String())
+	// Keep the escaped form, in which an encoded slash is no path separator.
+	if p, err := url.PathUnescape(k.Path); err == nil {
+		u.Path, u.RawPath = p, k.Path
+	}
+	return fmt.Sprintf("%s%s", k.ClusterName, u.String())
 }
 
 // Hash produces a stable hash of key.
-- 
2.43.0


From ff3f824486d7fc9e9bd597b701c2248179242e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:50 +0000
Subject: [PATCH 14/66] fix: forward encoded paths as-is to upstreams with a
 base path

An encoded slash was decoded, and a different resource requested.
---
 pkg/server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index af6aa14..f7df80a 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -190,6 +190,9 @@ func (s *Server) Director() func(req *http.Request) {
 		req.URL.Host = upstream.Host
 
 		// Path is forwarded as-is.
+		if req.URL.RawPath != "" || upstream.RawPath != "" {
+			req.URL.RawPath = singleJoiningSlash(upstream.EscapedPath(), req.URL.EscapedPath())
+		}
 		req.URL.Path = singleJoiningSlash(upstream.Path, req.URL.Path)
 
 		// Pass host header
-- 
2.43.0


From 7f0e96d84027b4a42ac57372610cb9e38c405c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 15/66] fix: answer requests without a matching target with 503

The transport returns the cause of the cancellation, which was not recognised.
---
 pkg/server/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index f7df80a..3d84afe 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -139,6 +139,8 @@ func errorHandler(w http.ResponseWriter, req *http.Request, err error) {
 	status := http.StatusInternalServerError
 
 	switch {
+	case errors.Is(err, ErrMatchingTarget):
+		status = http.StatusServiceUnavailable
 	case errors.Is(err, context.Canceled):
 		ctx := req.Context()
 		cErr := context.Cause(ctx)
-- 
2.43.0


From fb5f4041d6572e8d70e3cd6f4895c4e85429c1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:23 +0000
Subject: [PATCH 16/66] fix: answer with 502 if the upstream's response is
 broken

A connection closed early or an invalid response was reported as an
internal error of the proxy.
---
 pkg/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 3d84afe..ee322f4 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -136,7 +136,7 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 
 // errorHandler is the proxy error handler.
 func errorHandler(w http.ResponseWriter, req *http.Request, err error) {
-	status := http.StatusInternalServerError
+	status := http.StatusBadGateway // no valid response
 
 	switch {
 	case errors.Is(err, ErrMatchingTarget):
-- 
2.43.0


From 6080f1c1407d88746c301f3cb8d0448f0df2e933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 17/66] fix: lock the in-memory cache while flushing it

A concurrent operation could corrupt the size accounting and the TTLs.
---
 pkg/provider/inmemory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 06a1ca4..3a6e46e 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -267,6 +267,8 @@ func (c *inMemoryCache) Purge(ctx context.Context, pattern string) error {
 
 // Flush deletes all elements from the cache.
 func (c *inMemoryCache) Flush(ctx context.Context) error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.reset()
 	return nil
 }
-- 
2.43.0


From 9e4cf92c19a221588c6b31dfeae287ca1ee39726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:52 +0000
Subject: [PATCH 18/66] fix: evict items by TTL unless it is disabled

Without a default_ttl of the provider, items were served long after
their own TTL.
---
 pkg/provider/inmemory.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 3a6e46e..3ce7d01 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -86,7 +86,7 @@ type InMemoryCacheConfig struct {
 	// DefaultTTL is the defautl ttl of a single item.
 	DefaultTTL string `yaml:"default_ttl"`
 	// TTLEviction specifies if evction of items by TTL is enabled.
-	// Set to true if`DefaultTTL` is -1.
+	// Set to true unless `DefaultTTL` is -1.
 	TTLEviction bool
 }
 
@@ -100,9 +100,8 @@ func (c *InMemoryCacheConfig) Sanitize() {
 	}
 	if len(c.DefaultTTL) == 0 {
 		c.DefaultTTL = DefaultInMemoryCacheConfig.DefaultTTL
-	} else {
-		c.TTLEviction = c.DefaultTTL != "-1"
 	}
+	c.TTLEviction = c.DefaultTTL != "-1"
 }
 
 // NewInMemoryCache creates a new thread-safe LRU in memory cache.
-- 
2.43.0


From 1108e3b145060dddeb177170f32f8f49e36d3e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:56 +0000
Subject: [PATCH 19/66] fix: drop the TTL of evicted items

The TTLs of items evicted for their size accumulated for ever.
---
 pkg/provider/inmemory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 3ce7d01..149cf37 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -143,6 +143,7 @@ func NewInMemoryCache(config InMemoryCacheConfig) (Provider, error) {
 // onEvict is the eviction callback.
 func (c *inMemoryCache) onEvict(key string, val []byte) {
 	c.curSize -= itemSize(val)
+	delete(c.ttl, key)
 }
 
 // Get retrieves an element based on the provided key.
-- 
2.43.0


From 271cd6569c67e6b0e275de74d216c58ccecdc5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:59 +0000
Subject: [PATCH 20/66] fix: match patterns without a wildcard literally

The key of a URL with a query never matched itself, and others could.
---
 pkg/provider/inmemory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 149cf37..e0c1440 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -285,7 +285,7 @@ func wildcardToRegex(pattern string) string {
 	parts := strings.Split(pattern, "*")
 	if len(parts) == 1 {
 		// No *'s, return exact match pattern.
-		return "^" + pattern + "$"
+		return "^" + regexp.QuoteMeta(pattern) + "$"
 	}
 	var result strings.Builder
 	for i, p := range parts {
-- 
2.43.0


From 62f526600c21cee81ed854da403b797e71947726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:18 +0000
Subject: [PATCH 21/66] fix: respect default_ttl in the layered cache

It was not passed on, so that disabling the eviction by TTL had no effect
on the local layer.
---
 pkg/provider/cached.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/provider/cached.go b/pkg/provider/cached.go
index e465220..feef34b 100644
--- a/pkg/provider/cached.go
+++ b/pkg/provider/cached.go
@@ -58,10 +58,7 @@ func NewCached(cache Provider, name string, ttl time.Duration, config InMemoryCa
 			config.MaxItemSize, config.MaxSize)
 	}
 
-	l, err := NewInMemoryCache(InMemoryCacheConfig{
-		MaxSize:     config.MaxSize,
-		MaxItemSize: config.MaxItemSize,
-	})
+	l, err := NewInMemoryCache(config)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e794862648b265243da0d02d96327130677a6adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 22/66] fix: keep deleted elements out of the layered cache

A fetch that was concurrent to a delete, purge or flush brought elements
back to the local cache, since that was cleared before the remote cache. And
one slow fetch from the remote cache blocked all other operations.
---
 pkg/provider/cached.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/pkg/provider/cached.go b/pkg/provider/cached.go
index feef34b..7d9c9cc 100644
--- a/pkg/provider/cached.go
+++ b/pkg/provider/cached.go
@@ -44,6 +44,9 @@ type Cached struct {
 	ttl time.Duration
 
 	mu sync.Mutex
+
+	// gen counts the updates of the outer cache.
+	gen uint64
 }
 
 // NewCached adds a caching layer on top of a cache `Provider` (typically a remote cache) and
@@ -77,16 +80,22 @@ func NewCached(cache Provider, name string, ttl time.Duration, config InMemoryCa
 // does not exist.
 func (c *Cached) Get(ctx context.Context, key string) []byte {
 	c.mu.Lock()
-	defer c.mu.Unlock()
-
 	val := c.outer.Get(ctx, key)
+	gen := c.gen
+	c.mu.Unlock()
 	if val != nil {
 		return val
 	}
 
+	// Do not hold the lock while waiting for the inner cache.
 	val = c.inner.Get(ctx, key)
 	if val != nil {
-		c.outer.Set(key, val, c.ttl)
+		c.mu.Lock()
+		defer c.mu.Unlock()
+		// The element may have been updated or deleted in the meantime.
+		if c.gen == gen {
+			c.outer.Set(key, val, c.ttl)
+		}
 	}
 
 	return val
@@ -97,15 +106,20 @@ func (c *Cached) Set(key string, value []byte, ttl time.Duration) {
 	c.inner.Set(key, value, ttl)
 	c.mu.Lock()
 	defer c.mu.Unlock()
+	c.gen++
 	c.outer.Set(key, value, ttl)
 }
 
 // Delete deletes an element in the cache.
 func (c *Cached) Delete(ctx context.Context, key string) bool {
+	// The inner cache goes first, otherwise a concurrent fetch
+	// could bring the element back to the outer cache.
+	ok := c.inner.Delete(ctx, key)
 	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.gen++
 	c.outer.Delete(ctx, key)
-	c.mu.Unlock()
-	return c.inner.Delete(ctx, key)
+	return ok
 }
 
 // Keys returns a slice of cache keys.
@@ -115,18 +129,22 @@ func (c *Cached) Keys(ctx context.Context, prefix string) []string {
 
 // Purge purges all keys matching the spedified pattern from the cache.
 func (c *Cached) Purge(ctx context.Context, pattern string) error {
+	err := c.inner.Purge(ctx, pattern)
 	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.gen++
 	_ = c.outer.Purge(ctx, pattern)
-	c.mu.Unlock()
-	return c.inner.Purge(ctx, pattern)
+	return err
 }
 
 // Flush deletes all elements from the cache.
 func (c *Cached) Flush(ctx context.Context) error {
+	err := c.inner.Flush(ctx)
 	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.gen++
 	_ = c.outer.Flush(ctx)
-	c.mu.Unlock()
-	return c.inner.Flush(ctx)
+	return err
 }
 
 // Size returns the number of entries currently stored in the Cache.
-- 
2.43.0


From a12dbb6c8eeeb8c53499949f5cfe3710316def88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 23/66] fix: do not panic if the keys cannot be listed

---
 pkg/provider/redis_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index ea37fbb..cf0d8ae 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -163,7 +163,7 @@ func (c *redisClient) Keys(ctx context.Context, prefix string) []string {
 		keys = append(keys, iter.Val())
 	}
 	if err := iter.Err(); err != nil {
-		panic(err)
+		log.Error().Err(err).Str("prefix", prefix).Msg("Error getting keys from redis")
 	}
 	return keys
 }
-- 
2.43.0


From 0094361d5f82486353e89115d5776133fcad5d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:28 +0000
Subject: [PATCH 24/66] fix: match keys with glob characters in redis literally

The '?' of a URL with a query, or a '[', was taken for a glob pattern. Purging
such a key could remove other keys and leave the key itself.
---
 pkg/provider/redis_client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index cf0d8ae..255ab71 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -82,6 +82,9 @@ func (c *RedisClientConfig) Validate() error {
 	return nil
 }
 
+// escapeGlob escapes the glob-style characters of Redis other than the '*' wildcard.
+var escapeGlob = strings.NewReplacer("\\", "\\\\", "?", "\\?", "[", "\\[", "]", "\\]")
+
 // redisClient wraps a Redis Universal Client.
 type redisClient struct {
 	redis.UniversalClient
@@ -158,7 +161,7 @@ func (c *redisClient) Delete(ctx context.Context, key string) error {
 // Keys returns a slice of cache keys.
 func (c *redisClient) Keys(ctx context.Context, prefix string) []string {
 	var keys []string
-	iter := c.Scan(ctx, 0, prefix+"*", 0).Iterator()
+	iter := c.Scan(ctx, 0, escapeGlob.Replace(prefix)+"*", 0).Iterator()
 	for iter.Next(ctx) {
 		keys = append(keys, iter.Val())
 	}
@@ -179,7 +182,7 @@ func (c *redisClient) Stop() {
 // Purge purges keys matching the specified pattern from the cache. If the pattern is
 // empty, all keys will be removed from the cache, similar to a `Flush`.
 func (c *redisClient) Purge(ctx context.Context, pattern string) error {
-	iter := c.Scan(ctx, 0, pattern, 0).Iterator()
+	iter := c.Scan(ctx, 0, escapeGlob.Replace(pattern), 0).Iterator()
 
 	for iter.Next(ctx) {
 		key := iter.Val()
-- 
2.43.0


From 2d9d958d941a08317c9be7a1a9bf85636503ca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:55 +0000
Subject: [PATCH 25/66] fix: keep async store operations in order with deletes

An element deleted, purged or flushed came back if its store operation was
still in the queue, and of two updates of a key the first could win.
---
 pkg/provider/redis_client.go | 103 ++++++++++++++++++++++++++++++++---
 1 file changed, 96 insertions(+), 7 deletions(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index 255ab71..2066573 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -25,9 +25,12 @@ package provider
 import (
 	"context"
 	"errors"
+	"regexp"
 	"strings"
+	"sync"
 	"time"
 
+	xxhash "github.com/cespare/xxhash/v2"
 	"github.com/redis/go-redis/v9"
 	"github.com/rs/zerolog/log"
 )
@@ -94,6 +97,21 @@ type redisClient struct {
 
 	// queue is the async job queue.
 	queue *jobQueue
+
+	// mu guards pending.
+	mu sync.Mutex
+
+	// pending holds the latest async store operation per key until it is executed.
+	pending map[string]*storeOp
+
+	// writes serializes the write operations on the same key.
+	writes [64]sync.Mutex
+}
+
+// storeOp is an async store operation.
+type storeOp struct {
+	value []byte
+	ttl   time.Duration
 }
 
 // NewRedisClient creates a new Redis client with the provided configuration.
@@ -108,6 +126,7 @@ func NewRedisClient(name string, config RedisClientConfig) (RemoteCacheClient, e
 		UniversalClient: redis.NewUniversalClient(opts),
 		config:          config,
 		queue:           newJobQueue(config.MaxQueueBufferSize, config.MaxQueueConcurrency),
+		pending:         make(map[string]*storeOp),
 	}
 	if err := c.Ping(context.Background()).Err(); err != nil {
 		return nil, err
@@ -137,14 +156,18 @@ func (c *redisClient) Store(key string, value []byte, ttl time.Duration) error {
 
 }
 
-// StoreAsync store a key and value into Redis asynchronously.
+// StoreAsync store a key and value into Redis asynchronously. The operation is dropped
+// if the key is stored again or deleted before it is executed.
 func (c *redisClient) StoreAsync(key string, value []byte, ttl time.Duration) error {
-	err := c.queue.dispatch(func() {
-		err := c.Store(key, value, ttl)
-		if err != nil {
-			log.Error().Err(err).Str("cache-key", key).Msg("Error storing item in cache")
-		}
-	})
+	op := &storeOp{value: value, ttl: ttl}
+	c.mu.Lock()
+	c.pending[key] = op
+	c.mu.Unlock()
+
+	err := c.queue.dispatch(func() { c.storePending(key, op) })
+	if err != nil {
+		c.takePending(key, op)
+	}
 	if errors.Is(err, errJobQueueFull) {
 		log.Error().Int("buffer-size", c.config.MaxQueueBufferSize).
 			Msg("Failed to store item in cache: job queue full")
@@ -153,8 +176,64 @@ func (c *redisClient) StoreAsync(key string, value []byte, ttl time.Duration) er
 	return err
 }
 
+// storePending executes an async store operation, unless it is outdated.
+func (c *redisClient) storePending(key string, op *storeOp) {
+	mu := c.writeLock(key)
+	mu.Lock()
+	defer mu.Unlock()
+	if !c.takePending(key, op) {
+		return
+	}
+	if err := c.Store(key, op.value, op.ttl); err != nil {
+		log.Error().Err(err).Str("cache-key", key).Msg("Error storing item in cache")
+	}
+}
+
+// takePending removes the operation from the pending ones and reports
+// whether it was the latest one of the key.
+func (c *redisClient) takePending(key string, op *storeOp) bool {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if c.pending[key] != op {
+		return false
+	}
+	delete(c.pending, key)
+	return true
+}
+
+// dropPending drops the pending operations on the keys that match, and returns
+// a function that allows further operations on any key to be executed.
+func (c *redisClient) dropPending(match func(key string) bool) (release func()) {
+	for i := range c.writes {
+		c.writes[i].Lock()
+	}
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	for key := range c.pending {
+		if match(key) {
+			delete(c.pending, key)
+		}
+	}
+	return func() {
+		for i := range c.writes {
+			c.writes[i].Unlock()
+		}
+	}
+}
+
+// writeLock returns the lock for write operations on the key.
+func (c *redisClient) writeLock(key string) *sync.Mutex {
+	return &c.writes[xxhash.Sum64String(key)%uint64(len(c.writes))]
+}
+
 // Delete deletes a key from Redis.
 func (c *redisClient) Delete(ctx context.Context, key string) error {
+	mu := c.writeLock(key)
+	mu.Lock()
+	defer mu.Unlock()
+	c.mu.Lock()
+	delete(c.pending, key)
+	c.mu.Unlock()
 	return c.Del(ctx, key).Err()
 }
 
@@ -182,6 +261,15 @@ func (c *redisClient) Stop() {
 // Purge purges keys matching the specified pattern from the cache. If the pattern is
 // empty, all keys will be removed from the cache, similar to a `Flush`.
 func (c *redisClient) Purge(ctx context.Context, pattern string) error {
+	if pattern == "" {
+		return c.Flush(ctx)
+	}
+	r, err := regexp.Compile(wildcardToRegex(pattern))
+	if err != nil {
+		return err
+	}
+	defer c.dropPending(r.MatchString)()
+
 	iter := c.Scan(ctx, 0, escapeGlob.Replace(pattern), 0).Iterator()
 
 	for iter.Next(ctx) {
@@ -199,5 +287,6 @@ func (c *redisClient) Purge(ctx context.Context, pattern string) error {
 
 // Flush deletes all keys from the cache.
 func (c *redisClient) Flush(ctx context.Context) error {
+	defer c.dropPending(func(string) bool { return true })()
 	return c.FlushDB(ctx).Err()
 }
-- 
2.43.0


From 732966fca15c6a10cb8d502340a71e949739c95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:14 +0000
Subject: [PATCH 26/66] fix: do not crash if a cluster peer cannot be reached

---
 pkg/cluster/rqueue.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index 5099c0f..21bca6f 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -100,6 +100,7 @@ func (q *RequestQueue) process() {
 					Str("url", msg.Request.URL.String()).
 					Msg("Error request")
 				q.retry(msg)
+				continue
 			}
 			if resp.StatusCode >= 400 && resp.StatusCode <= 599 {
 				log.Error().Err(err).
@@ -108,14 +109,12 @@ func (q *RequestQueue) process() {
 					Msg("Error response")
 				q.retry(msg)
 			}
-			if resp != nil {
-				log.Debug().Str("url", msg.Request.URL.String()).Int("status", resp.StatusCode).
-					Msg("Message sent")
+			log.Debug().Str("url", msg.Request.URL.String()).Int("status", resp.StatusCode).
+				Msg("Message sent")
 
-				// Discard and close body to reuse connection.
-				_, _ = io.Copy(io.Discard, resp.Body)
-				_ = resp.Body.Close()
-			}
+			// Discard and close body to reuse connection.
+			_, _ = io.Copy(io.Discard, resp.Body)
+			_ = resp.Body.Close()
 		case <-q.done:
 			return
 		}
-- 
2.43.0


From 0d12ce92ecc9f2f0796438aedecc2b7aa7b81fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:18 +0000
Subject: [PATCH 27/66] fix: do not wait forever for an unresponsive cluster
 peer

---
 pkg/cluster/rqueue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index 21bca6f..20bf06a 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -31,6 +31,9 @@ import (
 	"github.com/rs/zerolog/log"
 )
 
+// requestTimeout limits the time a peer has to answer a request.
+const requestTimeout = 10 * time.Second
+
 // Message wraps a HTTP request that gets processed by the queue.
 type Message struct {
 	Request *http.Request
@@ -88,7 +91,7 @@ func (q *RequestQueue) Stop() {
 func (q *RequestQueue) process() {
 	defer q.wg.Done()
 
-	client := &http.Client{}
+	client := &http.Client{Timeout: requestTimeout}
 	client.Transport = http.DefaultTransport
 
 	for {
-- 
2.43.0


From f7aebb3309a6024bd57e9846ff7a013ed325fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:21 +0000
Subject: [PATCH 28/66] fix: send the body again when retrying a cluster
 broadcast

---
 pkg/cluster/kubernetes.go | 2 +-
 pkg/cluster/rqueue.go     | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index d89c8cd..08d9736 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -144,7 +144,7 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 	for _, ep := range endpoints {
 		// Prepare endpoint request.
 		url := fmt.Sprintf("%s://%s:%v%s", "http", ep.Host, ep.Port, path)
-		out, err := http.NewRequest(method, url, io.NopCloser(bytes.NewBuffer(body)))
+		out, err := http.NewRequest(method, url, bytes.NewReader(body))
 		if err != nil {
 			log.Error().Err(err).Send()
 			continue
diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index 20bf06a..3478345 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -97,6 +97,12 @@ func (q *RequestQueue) process() {
 	for {
 		select {
 		case msg := <-q.Queue:
+			if msg.Request.GetBody != nil {
+				// Any previous attempt has consumed the body.
+				if body, err := msg.Request.GetBody(); err == nil {
+					msg.Request.Body = body
+				}
+			}
 			resp, err := client.Do(msg.Request)
 			if err != nil {
 				log.Error().Err(err).
-- 
2.43.0


From d8963bea0335185a969583b4f783af8b8fd81fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:24 +0000
Subject: [PATCH 29/66] fix: end pending cluster retries when the queue stops

---
 pkg/cluster/rqueue.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index 3478345..fe0e728 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -136,8 +136,15 @@ func (q *RequestQueue) retry(msg Message) {
 		go func() {
 			log.Debug().Str("url", msg.Request.RequestURI).Int("attempt", msg.Attempt).
 				Msgf("Message retry in %v", q.Options.Backoff)
-			time.Sleep(q.Options.Backoff)
-			q.Queue <- msg
+			select {
+			case <-time.After(q.Options.Backoff):
+			case <-q.done:
+				return
+			}
+			select {
+			case q.Queue <- msg:
+			case <-q.done:
+			}
 		}()
 	}
 }
-- 
2.43.0


From f3ecaf166e371c448ed427233c5610d9666e12e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 30/66] fix: forward the client address of cluster broadcasts
 without the port

---
 pkg/cluster/kubernetes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 08d9736..d8a70e9 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -27,6 +27,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"net"
 	"net/http"
 	"os"
 	"path/filepath"
@@ -150,7 +151,9 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 			continue
 		}
 		out.Header = req.Header.Clone()
-		out.Header.Set("X-Forwarded-For", req.RemoteAddr)
+		if host, _, err := net.SplitHostPort(req.RemoteAddr); err == nil {
+			out.Header.Set("X-Forwarded-For", host)
+		}
 		out.Header.Set("X-Kache-Cluster", "Broadcast")
 		out.Host = req.Host
 
-- 
2.43.0


From 40b90da4411169fa39e722287edcff2a9dfd12de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:30 +0000
Subject: [PATCH 31/66] fix: handle endpoints without a target reference or the
 named port

---
 pkg/cluster/kubernetes.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index d8a70e9..e21ec01 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -103,12 +103,10 @@ func (c *client) Endpoints(portname string) []Endpoint {
 		return nil
 	}
 
-	var (
-		port      int32
-		endpoints []Endpoint
-	)
+	var endpoints []Endpoint
 
 	for _, e := range eps.Subsets {
+		var port int32
 		for _, p := range e.Ports {
 			if p.Name != portname {
 				continue
@@ -120,8 +118,12 @@ func (c *client) Endpoints(portname string) []Endpoint {
 		}
 		for _, addr := range e.Addresses {
 			// TODO: check endpoint/pod is healthy.
+			name := ""
+			if addr.TargetRef != nil {
+				name = addr.TargetRef.Name
+			}
 			endpoints = append(endpoints, Endpoint{
-				Name: addr.TargetRef.Name,
+				Name: name,
 				Host: addr.IP,
 				Port: int(port),
 			})
-- 
2.43.0


From 43d829be2bb29d442844a53cf74868dcd86a6c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:59 +0000
Subject: [PATCH 32/66] fix: keep the original client of a forwarded request in
 cluster broadcasts

---
 pkg/cluster/kubernetes.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index e21ec01..d130dce 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -153,8 +153,11 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 			continue
 		}
 		out.Header = req.Header.Clone()
-		if host, _, err := net.SplitHostPort(req.RemoteAddr); err == nil {
-			out.Header.Set("X-Forwarded-For", host)
+		if out.Header.Get("X-Forwarded-For") == "" && out.Header.Get("X-Real-Ip") == "" {
+			// Let peers identify the same original client.
+			if host, _, err := net.SplitHostPort(req.RemoteAddr); err == nil {
+				out.Header.Set("X-Forwarded-For", host)
+			}
 		}
 		out.Header.Set("X-Kache-Cluster", "Broadcast")
 		out.Host = req.Host
-- 
2.43.0


From 519750d78ff8cbe1f81fadaefec951deb80d47a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:02 +0000
Subject: [PATCH 33/66] fix: broadcast purges to the right path if the API
 prefix lacks a leading slash

---
 pkg/config/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 9af8c2d..de91c35 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -113,6 +113,9 @@ func (a *API) GetPrefix() string {
 	prefix := "/api"
 	if len(a.Prefix) > 0 {
 		prefix = a.Prefix
+		if prefix[0] != '/' {
+			prefix = "/" + prefix
+		}
 	}
 	return prefix
 }
-- 
2.43.0


From ae56b2ce64d74a6a55d0600125850ba566a27402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:05 +0000
Subject: [PATCH 34/66] fix: report a broken config file on every reload

---
 pkg/config/loader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 718f540..28c01b3 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -77,7 +77,6 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	if bytes.Equal(l.configHash, hash) {
 		return false, nil
 	}
-	l.configHash = hash
 
 	dec := yaml.NewDecoder(bytes.NewReader(buf))
 	dec.KnownFields(true)
@@ -88,6 +87,7 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	}
 
 	l.config.Store(config)
+	l.configHash = hash
 
 	return true, nil
 }
-- 
2.43.0


From aeb6844cc070c6330ea1d5a7ab8a56f5f17b341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 35/66] fix: do not let concurrent config reloads overtake each
 other

---
 pkg/config/loader.go | 7 +++++++
 pkg/kache/kache.go   | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 28c01b3..f779035 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -29,6 +29,7 @@ import (
 	"encoding/hex"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -43,6 +44,7 @@ type Loader struct {
 	watch         bool
 	watchInterval time.Duration
 
+	mu         sync.Mutex // serializes loading
 	config     atomic.Pointer[Configuration]
 	configHash []byte
 
@@ -67,6 +69,9 @@ func NewLoader(path string, watch bool, interval time.Duration) (*Loader, error)
 
 // Load reads the YAML-formatted config.
 func (l *Loader) Load(ctx context.Context) (bool, error) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	buf, err := os.ReadFile(l.path)
 	if err != nil {
 		return false, err
@@ -104,6 +109,8 @@ func (l *Loader) Path() string {
 
 // Checksum returns the calculated checksum of the config.
 func (l *Loader) Checksum() string {
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	return hex.EncodeToString(l.configHash)
 }
 
diff --git a/pkg/kache/kache.go b/pkg/kache/kache.go
index 2eced2c..69ec1bc 100644
--- a/pkg/kache/kache.go
+++ b/pkg/kache/kache.go
@@ -27,6 +27,7 @@ import (
 	"net/http"
 	"os"
 	"os/signal"
+	"sync"
 	"syscall"
 	"time"
 
@@ -44,6 +45,7 @@ import (
 type Kache struct {
 	Config *config.Configuration
 	loader *config.Loader
+	mu     sync.Mutex // serializes applying the config
 
 	Registerer prometheus.Registerer
 
@@ -147,6 +149,8 @@ func (t *Kache) reloadConfig(ctx context.Context) error {
 
 // applyConfig applies the config to modules.
 func (t *Kache) applyConfig() {
+	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.Config = t.loader.Config()
 	t.Cache.UpdateConfig(t.Config.HttpCache)
 }
-- 
2.43.0


From 7684575083e4b6c046d573d02e96d968a8816694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:29 +0000
Subject: [PATCH 36/66] fix: apply the default cache config if a reloaded
 config has none

---
 pkg/cache/httpcache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 06dab4c..76dbe59 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -157,6 +157,10 @@ func (c *HttpCache) loadConfig() *HttpCacheConfig {
 
 // UpdateConfig updates the cache config in a concurrent safe way.
 func (c *HttpCache) UpdateConfig(config *HttpCacheConfig) {
+	if config == nil {
+		config = &HttpCacheConfig{Strict: true}
+	}
+
 	// Compile custom timeout matchers.
 	for i, t := range config.Timeouts {
 		r, err := regexp.Compile(t.Path)
-- 
2.43.0


From 8ff66ab03a6f47315149d051e9e6cbe78184b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:32 +0000
Subject: [PATCH 37/66] fix: respect strict mode by default if the cache config
 does not set it

---
 pkg/config/loader.go   | 3 ++-
 pkg/server/handlers.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index f779035..8fab679 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -33,6 +33,7 @@ import (
 	"sync/atomic"
 	"time"
 
+	"github.com/kacheio/kache/pkg/cache"
 	"github.com/rs/zerolog/log"
 	"gopkg.in/yaml.v3"
 )
@@ -86,7 +87,7 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	dec := yaml.NewDecoder(bytes.NewReader(buf))
 	dec.KnownFields(true)
 
-	config := &Configuration{}
+	config := &Configuration{HttpCache: &cache.HttpCacheConfig{Strict: true}}
 	if err := dec.Decode(config); err != nil {
 		return false, err
 	}
diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 66d955f..7929d96 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -113,7 +113,7 @@ func (s *Server) CacheConfigUpdateHandler(w http.ResponseWriter, r *http.Request
 		return
 	}
 
-	var c cache.HttpCacheConfig
+	c := cache.HttpCacheConfig{Strict: true}
 	dec := yaml.NewDecoder(bytes.NewReader(body))
 	if err := dec.Decode(&c); err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
-- 
2.43.0


From 18c1d02e201aed4eac51061a908135ce956738ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 38/66] fix: do not modify a cache config that is in use

---
 pkg/cache/httpcache.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 76dbe59..a094fd2 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -30,6 +30,7 @@ import (
 	"net/http"
 	"net/http/httputil"
 	"regexp"
+	"slices"
 	"strings"
 	"sync/atomic"
 	"time"
@@ -161,6 +162,16 @@ func (c *HttpCache) UpdateConfig(config *HttpCacheConfig) {
 		config = &HttpCacheConfig{Strict: true}
 	}
 
+	// Leave the given config alone as it may already be in use.
+	cfg := *config
+	config = &cfg
+	config.Timeouts = slices.Clone(config.Timeouts)
+	if config.Exclude != nil {
+		exclude := *config.Exclude
+		exclude.Content = slices.Clone(exclude.Content)
+		config.Exclude = &exclude
+	}
+
 	// Compile custom timeout matchers.
 	for i, t := range config.Timeouts {
 		r, err := regexp.Compile(t.Path)
-- 
2.43.0


From 9915b2affc00747c2e3b7e5f7add8b823be8544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:38 +0000
Subject: [PATCH 39/66] fix: enforce access control lists that contain CIDR
 addresses only

---
 pkg/api/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index 9361c4b..bcae033 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -86,7 +86,7 @@ func NewIPFilter(whitelist string) (*IPFilter, error) {
 // request bypasses the filter.
 func (f *IPFilter) Wrap(next http.HandlerFunc) http.HandlerFunc {
 	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
-		if len(f.allowedIPs) == 0 {
+		if len(f.allowedIPs) == 0 && len(f.allowedCIDRs) == 0 {
 			next(w, r)
 			return
 		}
-- 
2.43.0


From 393953f8d4c84c0065530ccc44feee03095a6ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:41 +0000
Subject: [PATCH 40/66] fix: identify IPv6 clients in the IP filter

---
 pkg/api/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index bcae033..5e0c79c 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -129,8 +129,8 @@ func originalIP(req *http.Request) (netip.Addr, error) {
 	// The default is the originating IP. But, we try to find better
 	// options as this is almost never the right IP we're looking for.
 	addr := ""
-	if parts := strings.Split(req.RemoteAddr, ":"); len(parts) == 2 {
-		addr = parts[0]
+	if host, _, err := net.SplitHostPort(req.RemoteAddr); err == nil {
+		addr = host
 	}
 
 	// If we have a forwarded-for header, take the address from there.
-- 
2.43.0


From 0826c223b6d2163009d583f8c9104f758feee13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:06 +0000
Subject: [PATCH 41/66] fix: pass on the final status of a response that
 follows an informational one

---
 pkg/server/server.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index ee322f4..79d74f6 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -128,12 +128,27 @@ func NewServer(
 func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	timeout := DefaultTimeout
 	http.TimeoutHandler(
-		s.proxy,
+		http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+			s.proxy.ServeHTTP(finalResponseWriter{w}, r)
+		}),
 		timeout,
 		fmt.Sprintf("Request timeout after %v", timeout),
 	).ServeHTTP(w, r)
 }
 
+// finalResponseWriter drops informational responses (1xx) of the upstream, as
+// the timeout handler takes the first response for the final one.
+type finalResponseWriter struct {
+	http.ResponseWriter
+}
+
+func (w finalResponseWriter) WriteHeader(status int) {
+	if status >= 100 && status < 200 && status != http.StatusSwitchingProtocols {
+		return
+	}
+	w.ResponseWriter.WriteHeader(status)
+}
+
 // errorHandler is the proxy error handler.
 func errorHandler(w http.ResponseWriter, req *http.Request, err error) {
 	status := http.StatusBadGateway // no valid response
-- 
2.43.0


From de7e954f05abb2372f4bd88e38a4d171058f0c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:11 +0000
Subject: [PATCH 42/66] fix: answer requests without a matching target with 503
 whatever their error

---
 pkg/server/server.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 79d74f6..c2de119 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -154,17 +154,12 @@ func errorHandler(w http.ResponseWriter, req *http.Request, err error) {
 	status := http.StatusBadGateway // no valid response
 
 	switch {
-	case errors.Is(err, ErrMatchingTarget):
+	case errors.Is(context.Cause(req.Context()), ErrMatchingTarget):
+		// However the transport failed on the request without a target.
 		status = http.StatusServiceUnavailable
-	case errors.Is(err, context.Canceled):
-		ctx := req.Context()
-		cErr := context.Cause(ctx)
-		if errors.Is(cErr, ErrMatchingTarget) {
-			status = http.StatusServiceUnavailable
-			err = cErr
-		} else { // client canceled request
-			status = http.StatusBadGateway
-		}
+		err = ErrMatchingTarget
+	case errors.Is(err, context.Canceled): // client canceled request
+		status = http.StatusBadGateway
 	case errors.Is(err, io.EOF):
 		status = http.StatusBadGateway
 	default: // connection error
-- 
2.43.0


From 4fd6fd4612816942147084e6097ed78ba03cc56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 43/66] fix: do not take a response stored by a clock ahead for
 younger than it was

---
 pkg/cache/cache_control.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index c11e72f..f12088e 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -256,8 +256,9 @@ func CalculateAge(headers *http.Header, responseTime time.Time, now time.Time) t
 
 	// Calculate current age by adding the amount of time (seconds)
 	// since the response was last validated by the origin server.
-	residentTime := now.Sub(responseTime)
-	currentAge := correctedInitialAge + int64(residentTime)
+	// The clock of the instance that stored the response may be ahead.
+	residentTime := max(0, int64(now.Sub(responseTime)))
+	currentAge := correctedInitialAge + residentTime
 
 	return time.Duration(currentAge).Truncate(time.Second)
 }
-- 
2.43.0


From ff70623159027d5a0fc64ff90459722038c6f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:47 +0000
Subject: [PATCH 44/66] fix: let one waiting request take the place of a
 canceled one

---
 pkg/server/middleware/coalesce.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 8df0852..6f20fb2 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -63,6 +63,10 @@ type call struct {
 	// unshareable indicates that the outcome of the initial request is
 	// not meant for any other request, which then has to run on its own.
 	unshareable bool
+
+	// abandoned indicates that the initial request has no outcome, so that
+	// any of the waiting requests has to take its place.
+	abandoned bool
 }
 
 // shareable is implemented by a next RoundTripper that can tell if the response
@@ -134,6 +138,9 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 		inflight.L.Unlock()
 
 		// Initial request completed.
+		if inflight.abandoned {
+			return coalescer.RoundTrip(req)
+		}
 		if inflight.unshareable {
 			return coalescer.next.RoundTrip(req)
 		}
@@ -163,7 +170,7 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	defer func() {
 		// Do not leave anyone waiting if the execution panics.
 		if !completed {
-			coalescer.release(key, inflight, func() { inflight.unshareable = true })
+			coalescer.release(key, inflight, func() { inflight.abandoned = true })
 		}
 	}()
 	resp, err = coalescer.next.RoundTrip(req)
@@ -173,7 +180,7 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 		switch {
 		case req.Context().Err() != nil:
 			// The caller went away, which is no concern of the waiting ones.
-			inflight.unshareable = true
+			inflight.abandoned = true
 		case err != nil:
 			inflight.resp, inflight.err = nil, err
 		case !isShareable(resp):
-- 
2.43.0


From 9c3e02aaea5b7592a888e7a416ed12d5650de90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 45/66] fix: do not share a 304 response with other requests

An upstream that answers 304 to a request without conditions must not
leave all the waiting clients without a response as well.
---
 pkg/server/middleware/coalesce.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 6f20fb2..6b96edb 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -221,5 +221,8 @@ func (coalescer *requestCoalescer) release(key string, inflight *call, record fu
 
 // isShareable reports whether the response may be used for another request.
 func isShareable(resp *http.Response) bool {
+	if resp.StatusCode == http.StatusNotModified {
+		return false
+	}
 	return !cache.ParseResponseCacheControl(cache.CacheControl(resp.Header)).NoStore
 }
-- 
2.43.0


From e88fdfd8c1480c697852b975c26660546926ba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 46/66] fix: do not store the cache header with a validated
 response

The debug header was set on the cached response before the validated
response was stored, so it stayed part of the entry: after the header was
switched off or renamed at run time, hits still carried the old one.
---
 pkg/server/middleware/httpcache.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index b52f6d8..7acd2fb 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -127,9 +127,6 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		return t.handleCacheHit(cacheKey, cached)
 
 	case cache.EntryRequiresValidation:
-		if t.Cache.MarkCachedResponses() {
-			cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
-		}
 		log.Debug().Str("cache-key", cacheKey).Interface("header", cached.Header()).
 			Msg("Cache HIT with validation")
 		req = t.injectValidationHeaders(lookup.Request, cached.Header())
@@ -149,7 +146,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		return resp, err
 	}
 
-	shouldUpdateCachedEntry := true
+	shouldUpdateCachedEntry, validated := true, false
 	if resp.StatusCode == http.StatusNotModified && cached.Status != cache.EntryRequiresValidation {
 		// There is nothing cached that could have been validated.
 		shouldUpdateCachedEntry = false
@@ -169,6 +166,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 
 		_ = resp.Body.Close()
 		resp = cached.Response()
+		validated = true
 	}
 
 	// Set or update custom cache control header.
@@ -188,6 +186,11 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		t.Cache.Delete(ctx, lookup)
 	}
 
+	// Mark the response only now, the mark is not part of the stored response.
+	if validated && t.Cache.MarkCachedResponses() {
+		resp.Header.Set(t.Cache.XCacheHeader(), cache.HIT)
+	}
+
 	return resp, nil
 }
 
-- 
2.43.0


From b9fe3869850b7bc7b834e0b61180c762e372e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:45 +0000
Subject: [PATCH 47/66] fix: apply every matching content exclusion

The first rule matching the content type decided alone: a later rule that
excludes the response, e.g. one without a size, was ignored.
---
 pkg/cache/httpcache.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index a094fd2..3fa9f78 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -246,11 +246,10 @@ func (c *HttpCache) IsExcludedContent(content string, length int64) bool {
 	}
 	for _, t := range config.Exclude.Content {
 		if t.TypeMatcher != nil && t.TypeMatcher.MatchString(content) {
-			if t.Size > 0 {
-				// if content exceeds the allowed size, do not cache.
-				return t.Size < int(length)
+			// if content exceeds the allowed size, do not cache.
+			if t.Size <= 0 || t.Size < int(length) {
+				return true
 			}
-			return true
 		}
 	}
 	return false
-- 
2.43.0


From 6f528faedf7343b1a95c4f22079d4b9e5382485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 48/66] fix: share the cache key among all spellings of a path

Telling encoded slashes apart had made the key depend on how the rest of
the path is encoded: /%61 and /a were cached, and purged, separately.
---
 pkg/cache/key.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/key.go b/pkg/cache/key.go
index 64974e7..228bbee 100644
--- a/pkg/cache/key.go
+++ b/pkg/cache/key.go
@@ -27,6 +27,7 @@ import (
 	"net/http"
 	"net/url"
 	"path"
+	"strings"
 
 	xxhash "github.com/cespare/xxhash/v2"
 )
@@ -46,7 +47,7 @@ func NewKeyFromRequst(req *http.Request) *Key {
 	key := &Key{
 		ClusterName: "kache-",
 		Host:        req.Host,
-		Path:        cleanPath(req.URL.EscapedPath()),
+		Path:        cleanPath(canonicalPath(req.URL.EscapedPath())),
 		Query:       canonicalQuery(req.URL.RawQuery),
 		Scheme:      req.URL.Scheme,
 	}
@@ -98,6 +99,19 @@ func canonicalQuery(q string) string {
 	return values.Encode()
 }
 
+// canonicalPath escapes every segment of the escaped path p the same way, so that
+// all spellings of a path are equal, but an encoded slash remains encoded.
+func canonicalPath(p string) string {
+	segments := strings.Split(p, "/")
+	for i, s := range segments {
+		if d, err := url.PathUnescape(s); err == nil {
+			u := url.URL{Path: "/" + d}
+			segments[i] = strings.ReplaceAll(u.EscapedPath()[1:], "/", "%2F")
+		}
+	}
+	return strings.Join(segments, "/")
+}
+
 // cleanPath returns the canonical path for p.
 func cleanPath(p string) string {
 	if p == "" {
-- 
2.43.0


From e80d221e6f587121bf756a70a820ac63f27a81b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 49/66] fix: compare addresses of the access list in a common
 notation

An IPv4 address written as an IPv6 one, or an address with a zone, was
denied though listed, while it was allowed by a network.
---
 pkg/api/filter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index 5e0c79c..b5b1291 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -67,7 +67,7 @@ func NewIPFilter(whitelist string) (*IPFilter, error) {
 				continue
 			}
 			if addr, err := netip.ParseAddr(ip); err == nil {
-				allowedIPs[addr] = struct{}{}
+				allowedIPs[addr.Unmap()] = struct{}{}
 				continue
 			}
 			return nil, fmt.Errorf("malformed IP or CIDR address: %v", ip)
@@ -113,6 +113,8 @@ func (f *IPFilter) IsAllowed(ip netip.Addr) bool {
 	if !ip.IsValid() {
 		return false
 	}
+	// The same address in another notation.
+	ip = ip.Unmap().WithZone("")
 	if _, ok := f.allowedIPs[ip]; ok {
 		return true
 	}
-- 
2.43.0


From 3195831e33fc4b9cb0fb3d7f1ace7ee4d121ff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 50/66] fix: list every key in Redis once

A scan may return a key several times while the keyspace changes.
---
 pkg/provider/redis_client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index 2066573..f290115 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -240,9 +240,14 @@ func (c *redisClient) Delete(ctx context.Context, key string) error {
 // Keys returns a slice of cache keys.
 func (c *redisClient) Keys(ctx context.Context, prefix string) []string {
 	var keys []string
+	seen := make(map[string]struct{}) // a scan may return a key several times
 	iter := c.Scan(ctx, 0, escapeGlob.Replace(prefix)+"*", 0).Iterator()
 	for iter.Next(ctx) {
-		keys = append(keys, iter.Val())
+		key := iter.Val()
+		if _, ok := seen[key]; !ok {
+			seen[key] = struct{}{}
+			keys = append(keys, key)
+		}
 	}
 	if err := iter.Err(); err != nil {
 		log.Error().Err(err).Str("prefix", prefix).Msg("Error getting keys from redis")
-- 
2.43.0


From 743b07c787a51e8973bc0e7171e279a6bd6c73f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 51/66] fix: keep local copies no longer than the entry in
 Redis lives

With the layered cache, an entry fetched from Redis was kept in memory for
the lifetime of local copies, even if it was about to expire in Redis.
---
 pkg/provider/cached.go       | 22 +++++++++++++++++++---
 pkg/provider/redis_client.go | 22 ++++++++++++++++++++++
 pkg/provider/remote.go       | 12 ++++++++++++
 3 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/pkg/provider/cached.go b/pkg/provider/cached.go
index 7d9c9cc..78a8c1d 100644
--- a/pkg/provider/cached.go
+++ b/pkg/provider/cached.go
@@ -88,19 +88,35 @@ func (c *Cached) Get(ctx context.Context, key string) []byte {
 	}
 
 	// Do not hold the lock while waiting for the inner cache.
-	val = c.inner.Get(ctx, key)
-	if val != nil {
+	val, ttl := c.fetch(ctx, key)
+	if val != nil && ttl > 0 {
 		c.mu.Lock()
 		defer c.mu.Unlock()
 		// The element may have been updated or deleted in the meantime.
 		if c.gen == gen {
-			c.outer.Set(key, val, c.ttl)
+			c.outer.Set(key, val, ttl)
 		}
 	}
 
 	return val
 }
 
+// fetch retrieves an element from the inner cache, along with the time it may be
+// kept in the outer cache, which must not exceed the lifetime of the element.
+func (c *Cached) fetch(ctx context.Context, key string) ([]byte, time.Duration) {
+	inner, ok := c.inner.(interface {
+		GetTTL(ctx context.Context, key string) ([]byte, time.Duration)
+	})
+	if !ok {
+		return c.inner.Get(ctx, key), c.ttl
+	}
+	val, ttl := inner.GetTTL(ctx, key)
+	if ttl < 0 { // never expires
+		ttl = c.ttl
+	}
+	return val, min(ttl, c.ttl)
+}
+
 // Set adds an element to the cache.
 func (c *Cached) Set(key string, value []byte, ttl time.Duration) {
 	c.inner.Set(key, value, ttl)
diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index f290115..78f5af4 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -146,6 +146,28 @@ func (c *redisClient) Fetch(ctx context.Context, key string) []byte {
 	return []byte(res)
 }
 
+// FetchTTL performs a Redis Get operation and also returns the remaining time-to-live
+// of the key, which is negative if the key does not expire.
+func (c *redisClient) FetchTTL(ctx context.Context, key string) ([]byte, time.Duration) {
+	var ttl *redis.DurationCmd
+	var res *redis.StringCmd
+	_, err := c.Pipelined(ctx, func(p redis.Pipeliner) error {
+		ttl = p.PTTL(ctx, key)
+		res = p.Get(ctx, key)
+		return nil
+	})
+	if err != nil {
+		if !errors.Is(err, redis.Nil) {
+			log.Error().Err(err).Str("cache-key", key).Msg("Error getting item from redis")
+		}
+		return nil, 0
+	}
+	if ttl.Val() == -2 { // has only just been stored
+		return []byte(res.Val()), 0
+	}
+	return []byte(res.Val()), ttl.Val()
+}
+
 // Store stores a key and value into Redis.
 func (c *redisClient) Store(key string, value []byte, ttl time.Duration) error {
 	if c.config.MaxItemSize > 0 && len(value) > c.config.MaxItemSize {
diff --git a/pkg/provider/remote.go b/pkg/provider/remote.go
index 9e8dd6c..54276c3 100644
--- a/pkg/provider/remote.go
+++ b/pkg/provider/remote.go
@@ -61,6 +61,18 @@ func (c *remoteCache) Get(ctx context.Context, key string) []byte {
 	return c.client.Fetch(ctx, key)
 }
 
+// GetTTL retrieves an element and its remaining time-to-live, which is negative if
+// the element does not expire or if this is unknown.
+func (c *remoteCache) GetTTL(ctx context.Context, key string) ([]byte, time.Duration) {
+	client, ok := c.client.(interface {
+		FetchTTL(ctx context.Context, key string) ([]byte, time.Duration)
+	})
+	if !ok {
+		return c.client.Fetch(ctx, key), -1
+	}
+	return client.FetchTTL(ctx, key)
+}
+
 // Set adds an item to the cache.
 func (c *remoteCache) Set(key string, value []byte, ttl time.Duration) {
 	_ = c.client.StoreAsync(key, value, ttl)
-- 
2.43.0


From 6fb3c2e43e5a53e06e00f514f8a9b8f8e2a30a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 52/66] fix: consider all X-Forwarded-For headers of an API
 request

Only the first line was looked at, which comes from the client if the proxy
in front adds a line of its own, so that a client could choose its address.
---
 pkg/api/filter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index b5b1291..e958dee 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -135,8 +135,10 @@ func originalIP(req *http.Request) (netip.Addr, error) {
 		addr = host
 	}
 
-	// If we have a forwarded-for header, take the address from there.
-	if xff := strings.Trim(req.Header.Get("X-Forwarded-For"), ","); len(xff) > 0 {
+	// If we have a forwarded-for header, take the address from there. A proxy may have
+	// added its own header line to the one of the client.
+	forwarded := strings.Join(req.Header.Values("X-Forwarded-For"), ",")
+	if xff := strings.Trim(forwarded, ","); len(xff) > 0 {
 		addrs := strings.Split(xff, ",")
 		last := strings.TrimSpace(addrs[len(addrs)-1])
 		return netip.ParseAddr(last)
-- 
2.43.0


From 72127e5a25a56ebcde14442b2987045f8f05cde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 53/66] fix: retry waiting requests if the leader is canceled
 while the body is read

The check for a canceled request came before the response was read, so that
the error was passed on to all waiting requests if the client went away then.
---
 pkg/server/middleware/coalesce.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 6b96edb..96107f7 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -188,6 +188,8 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 		default:
 			// Copy the response before releasing it to waiter(s).
 			inflight.resp, inflight.err = httputil.DumpResponse(resp, true)
+			// The client may also go away while the body is being read.
+			inflight.abandoned = inflight.err != nil && req.Context().Err() != nil
 		}
 	})
 
-- 
2.43.0


From 71e593602387af8f65b206b04be5156f45ea9ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 54/66] fix: a slow or unreachable Redis no longer makes client
 requests fail

Looking up and removing an entry waited for Redis up to several times its read
or dial timeout, and removals of the same key one after the other, while the
listener gives up on a response after one second. Limit the time a request
waits, complete removals in the background, and let them run concurrently.
---
 pkg/provider/redis_client.go | 39 +++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index 78f5af4..7fed7f6 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -85,6 +85,10 @@ func (c *RedisClientConfig) Validate() error {
 	return nil
 }
 
+// redisRequestTimeout limits the time a client request waits for Redis, which must
+// not delay or fail the request if it is slow or unreachable.
+const redisRequestTimeout = 150 * time.Millisecond
+
 // escapeGlob escapes the glob-style characters of Redis other than the '*' wildcard.
 var escapeGlob = strings.NewReplacer("\\", "\\\\", "?", "\\?", "[", "\\[", "]", "\\]")
 
@@ -105,7 +109,7 @@ type redisClient struct {
 	pending map[string]*storeOp
 
 	// writes serializes the write operations on the same key.
-	writes [64]sync.Mutex
+	writes [64]sync.RWMutex
 }
 
 // storeOp is an async store operation.
@@ -121,6 +125,8 @@ func NewRedisClient(name string, config RedisClientConfig) (RemoteCacheClient, e
 		Username: config.Username,
 		Password: config.Password,
 		DB:       config.DB,
+
+		ContextTimeoutEnabled: true,
 	}
 	c := &redisClient{
 		UniversalClient: redis.NewUniversalClient(opts),
@@ -136,6 +142,8 @@ func NewRedisClient(name string, config RedisClientConfig) (RemoteCacheClient, e
 
 // Fetch performs a Redis Get operation.
 func (c *redisClient) Fetch(ctx context.Context, key string) []byte {
+	ctx, cancel := context.WithTimeout(ctx, redisRequestTimeout)
+	defer cancel()
 	res, err := c.Get(ctx, key).Result()
 	if err != nil {
 		if !errors.Is(err, redis.Nil) {
@@ -149,6 +157,8 @@ func (c *redisClient) Fetch(ctx context.Context, key string) []byte {
 // FetchTTL performs a Redis Get operation and also returns the remaining time-to-live
 // of the key, which is negative if the key does not expire.
 func (c *redisClient) FetchTTL(ctx context.Context, key string) ([]byte, time.Duration) {
+	ctx, cancel := context.WithTimeout(ctx, redisRequestTimeout)
+	defer cancel()
 	var ttl *redis.DurationCmd
 	var res *redis.StringCmd
 	_, err := c.Pipelined(ctx, func(p redis.Pipeliner) error {
@@ -244,19 +254,34 @@ func (c *redisClient) dropPending(match func(key string) bool) (release func())
 }
 
 // writeLock returns the lock for write operations on the key.
-func (c *redisClient) writeLock(key string) *sync.Mutex {
+func (c *redisClient) writeLock(key string) *sync.RWMutex {
 	return &c.writes[xxhash.Sum64String(key)%uint64(len(c.writes))]
 }
 
-// Delete deletes a key from Redis.
+// Delete deletes a key from Redis. If this takes too long, it is completed in the
+// background.
 func (c *redisClient) Delete(ctx context.Context, key string) error {
-	mu := c.writeLock(key)
-	mu.Lock()
-	defer mu.Unlock()
 	c.mu.Lock()
 	delete(c.pending, key)
 	c.mu.Unlock()
-	return c.Del(ctx, key).Err()
+
+	done := make(chan error, 1)
+	go func() {
+		// A store operation that is being executed goes first.
+		mu := c.writeLock(key)
+		mu.RLock()
+		defer mu.RUnlock()
+		done <- c.Del(context.WithoutCancel(ctx), key).Err()
+	}()
+
+	timeout := time.NewTimer(redisRequestTimeout)
+	defer timeout.Stop()
+	select {
+	case err := <-done:
+		return err
+	case <-timeout.C:
+		return context.DeadlineExceeded
+	}
 }
 
 // Keys returns a slice of cache keys.
-- 
2.43.0


From b6534363bc0061483199b0be6ae85f594dc039bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 55/66] fix: do not mix settings of two configurations when
 applying one setting

The mark of cached responses, the default cache control and the lifetime of an
entry each depend on two settings which were read from possibly different
configurations while the configuration was being changed.
---
 pkg/cache/httpcache.go             | 35 +++++++++++++++++++++++++-----
 pkg/server/middleware/httpcache.go | 15 +++++++------
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 3fa9f78..0324932 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -263,11 +263,24 @@ func (c *HttpCache) MarkCachedResponses() bool {
 
 // XCacheHeader returns the XCache debug header key.
 func (c *HttpCache) XCacheHeader() string {
+	return c.loadConfig().xCacheHeader()
+}
+
+// CachedResponseMark returns the header key marking cached responses, or an empty string
+// if cached responses should not be marked.
+func (c *HttpCache) CachedResponseMark() string {
 	config := c.loadConfig()
-	if config.XCacheName == "" {
+	if !config.XCache {
+		return ""
+	}
+	return config.xCacheHeader()
+}
+
+func (c *HttpCacheConfig) xCacheHeader() string {
+	if c.XCacheName == "" {
 		return xCache
 	}
-	return config.XCacheName
+	return c.XCacheName
 }
 
 // DefaultCacheControl returns the default cache control.
@@ -282,14 +295,24 @@ func (c *HttpCache) ForceCacheControl() bool {
 	return config.ForceCacheControl
 }
 
+// CacheControl returns the default cache control and whether it overwrites an existing
+// cache-control header.
+func (c *HttpCache) CacheControl() (string, bool) {
+	config := c.loadConfig()
+	return config.DefaultCacheControl, config.ForceCacheControl
+}
+
 // DefaultTTL returns the TTL as specified in the configuration as a valid duration
 // in seconds. If not specified, the default value is returned.
 func (c *HttpCache) DefaultTTL() time.Duration {
-	config := c.loadConfig()
-	if len(config.DefaultTTL) == 0 {
+	return c.loadConfig().defaultTTL()
+}
+
+func (c *HttpCacheConfig) defaultTTL() time.Duration {
+	if len(c.DefaultTTL) == 0 {
 		return DefaultTTL
 	}
-	t, err := time.ParseDuration(config.DefaultTTL)
+	t, err := time.ParseDuration(c.DefaultTTL)
 	if err != nil {
 		return DefaultTTL
 	}
@@ -305,7 +328,7 @@ func (c *HttpCache) PathTTL(p string) time.Duration {
 			return t.TTL
 		}
 	}
-	return c.DefaultTTL()
+	return config.defaultTTL()
 }
 
 // FetchResponse fetches a response matching the given request.
diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 7acd2fb..21945dc 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -109,8 +109,8 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 
 	if !cache.IsCacheableRequest(req) {
 		log.Debug().Interface("header", req.Header).Str("x-cache", "PASS").Msg("Ignoring uncachable request")
-		if t.Cache.MarkCachedResponses() {
-			req.Header.Set(t.Cache.XCacheHeader(), cache.MISS)
+		if mark := t.Cache.CachedResponseMark(); mark != "" {
+			req.Header.Set(mark, cache.MISS)
 		}
 		return t.send(req)
 	}
@@ -170,7 +170,8 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 	}
 
 	// Set or update custom cache control header.
-	updateCacheControl(resp.Header, t.Cache.DefaultCacheControl(), t.Cache.ForceCacheControl())
+	defaultCacheControl, force := t.Cache.CacheControl()
+	updateCacheControl(resp.Header, defaultCacheControl, force)
 
 	// Check cacheability depending on cache mode.
 	cacheable := true
@@ -187,8 +188,8 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 	}
 
 	// Mark the response only now, the mark is not part of the stored response.
-	if validated && t.Cache.MarkCachedResponses() {
-		resp.Header.Set(t.Cache.XCacheHeader(), cache.HIT)
+	if mark := t.Cache.CachedResponseMark(); validated && mark != "" {
+		resp.Header.Set(mark, cache.HIT)
 	}
 
 	return resp, nil
@@ -204,8 +205,8 @@ func (t *Transport) Shareable(req *http.Request) bool {
 // handleCacheHit handles a cache hit and sends the cached response downstream.
 func (t *Transport) handleCacheHit(key string, cached *cache.LookupResult) (*http.Response, error) {
 	log.Debug().Str("cache-key", key).Interface("header", cached.Header()).Str("x-cache", "HIT").Send()
-	if t.Cache.MarkCachedResponses() {
-		cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
+	if mark := t.Cache.CachedResponseMark(); mark != "" {
+		cached.Header().Set(mark, cache.HIT)
 	}
 	return cached.Response(), nil
 }
-- 
2.43.0


From 4f43dbc7f8d6e9a3ee97548a6af4df4f3be2b68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 56/66] fix: do not acknowledge a reload before the
 configuration is in force

A reload that found the file already loaded by somebody else (another reload,
or the watcher) was answered before that one had applied it.
---
 pkg/kache/kache.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/kache/kache.go b/pkg/kache/kache.go
index 69ec1bc..f466a75 100644
--- a/pkg/kache/kache.go
+++ b/pkg/kache/kache.go
@@ -138,20 +138,25 @@ func (t *Kache) reloadConfig(ctx context.Context) error {
 	if err != nil {
 		return err
 	}
+	// Even if it has not changed, it may have been loaded only just now.
+	t.applyConfig()
 	if !reloaded {
 		log.Info().Msg("Config not reloaded, no changes detected")
 		return nil
 	}
-	t.applyConfig()
 	log.Info().Msg("Config reloaded")
 	return nil
 }
 
-// applyConfig applies the config to modules.
+// applyConfig applies the config to modules, unless it has been applied already.
 func (t *Kache) applyConfig() {
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	t.Config = t.loader.Config()
+	config := t.loader.Config()
+	if config == t.Config {
+		return
+	}
+	t.Config = config
 	t.Cache.UpdateConfig(t.Config.HttpCache)
 }
 
-- 
2.43.0


From 93f1a4acd74f8b0b3e73b9b16e521eda38a0f4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 57/66] fix: do not store or share hop-by-hop fields of
 upstream responses

The proxy removes them only from the response it passes on itself, while the
response stored in the cache and given to waiting requests kept them.
---
 pkg/server/middleware/httpcache.go | 34 +++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 21945dc..c6f32b2 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -30,6 +30,7 @@ import (
 	"math"
 	"net"
 	"net/http"
+	"strings"
 	"time"
 
 	"github.com/kacheio/kache/pkg/cache"
@@ -217,7 +218,38 @@ func (t *Transport) send(req *http.Request) (*http.Response, error) {
 	if transport == nil {
 		transport = http.DefaultTransport
 	}
-	return transport.RoundTrip(req)
+	resp, err := transport.RoundTrip(req)
+	if err != nil {
+		return resp, err
+	}
+	removeHopHeaders(resp.Header)
+	return resp, nil
+}
+
+// hopHeaders are the header fields that concern a single connection only.
+var hopHeaders = []string{
+	"Connection",
+	"Keep-Alive",
+	"Proxy-Authenticate",
+	"Proxy-Authorization",
+	"Proxy-Connection",
+	"Te",
+	"Trailer",
+	"Transfer-Encoding",
+	"Upgrade",
+}
+
+// removeHopHeaders removes the header fields that concern the upstream connection
+// only, so that they are neither stored nor shared.
+func removeHopHeaders(header http.Header) {
+	for _, names := range header["Connection"] {
+		for _, name := range strings.Split(names, ",") {
+			header.Del(strings.TrimSpace(name))
+		}
+	}
+	for _, name := range hopHeaders {
+		header.Del(name)
+	}
 }
 
 // injectValidationHeaders injects validation headers.
-- 
2.43.0


From 9bbf6279bfc22fc67dbfbe574e2b945ef609163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 58/66] fix: close the upstream connection of a response that
 switches protocols

The response cannot be handed on, as the timeout handler does not let the proxy
take over the connection of the client, and the upstream connection stayed open
for ever.
---
 pkg/server/middleware/httpcache.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index c6f32b2..703fa38 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -26,6 +26,7 @@ import (
 	"bytes"
 	"context"
 	"crypto/tls"
+	"errors"
 	"io"
 	"math"
 	"net"
@@ -222,10 +223,18 @@ func (t *Transport) send(req *http.Request) (*http.Response, error) {
 	if err != nil {
 		return resp, err
 	}
+	if resp.StatusCode == http.StatusSwitchingProtocols {
+		// The connection is not handed on, and nobody else would close it.
+		_ = resp.Body.Close()
+		return nil, errSwitchingProtocols
+	}
 	removeHopHeaders(resp.Header)
 	return resp, nil
 }
 
+// errSwitchingProtocols is returned if the upstream switches to another protocol.
+var errSwitchingProtocols = errors.New("switching protocols is not supported")
+
 // hopHeaders are the header fields that concern a single connection only.
 var hopHeaders = []string{
 	"Connection",
-- 
2.43.0


From 2312fdeb64688667fcd17ed6b3528eb6ba857793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 59/66] fix: do not coalesce requests for another protocol

Their response was given to plain requests for the same resource.
---
 pkg/server/middleware/coalesce.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 96107f7..cc5ea86 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -90,6 +90,10 @@ func (coalescer *requestCoalescer) coalesceKey(req *http.Request) (string, bool)
 	if req.Method != http.MethodGet || (req.Body != nil && req.Body != http.NoBody) {
 		return "", false
 	}
+	// The response to a request for another protocol is of no use to others.
+	if req.Header.Get("Upgrade") != "" {
+		return "", false
+	}
 	// Requests that bypass the cache expect a response of their own.
 	if next, ok := coalescer.next.(shareable); ok && !next.Shareable(req) {
 		return "", false
-- 
2.43.0


From 0d5091b4857fa5fac11d51cac2665f04ed4e9868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 60/66] fix: do not keep items without time to live in Redis
 for ever

A time-to-live that is not positive means no expiry to the Redis client.
---
 pkg/provider/redis_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index 7fed7f6..2f82c52 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -183,6 +183,9 @@ func (c *redisClient) Store(key string, value []byte, ttl time.Duration) error {
 	if c.config.MaxItemSize > 0 && len(value) > c.config.MaxItemSize {
 		return ErrRedisMaxItemSize
 	}
+	if ttl <= 0 { // already expired, but would never expire in Redis
+		return c.Del(context.Background(), key).Err()
+	}
 	_, err := c.Set(context.Background(), key, value, ttl).Result()
 	return err
 
-- 
2.43.0


From 7d8afdc329fea540bf55faefea9de8a878b59847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 61/66] fix: let API requests finish on shutdown

They were cut off by the end of the process, unlike requests to the listeners.
---
 pkg/api/api.go     | 19 ++++++++++++++++---
 pkg/kache/kache.go | 15 +++++++++++++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/pkg/api/api.go b/pkg/api/api.go
index 9fc1135..163e03c 100644
--- a/pkg/api/api.go
+++ b/pkg/api/api.go
@@ -23,6 +23,8 @@
 package api
 
 import (
+	"context"
+	"errors"
 	"fmt"
 	"net/http"
 	"path"
@@ -51,6 +53,9 @@ type API struct {
 	// filter is the IP filter.
 	filter *IPFilter
 
+	// http is the HTTP server of the API.
+	http *http.Server
+
 	// prefix is the custom path prefix for all API routes.
 	// Has no effect on purge and debug routes. Default is '/api'.
 	prefix string
@@ -90,6 +95,7 @@ func New(cfg config.API, srv *server.Server) (*API, error) {
 		filter: filter,
 		prefix: prefix,
 	}
+	api.http = &http.Server{Addr: fmt.Sprintf(":%d", cfg.Port), Handler: api}
 	api.createRoutes()
 
 	return api, nil
@@ -97,14 +103,21 @@ func New(cfg config.API, srv *server.Server) (*API, error) {
 
 // Run starts the API server.
 func (a *API) Run() {
-	port := fmt.Sprintf(":%d", a.config.Port)
-	log.Debug().Str("port", port).Str("prefix", a.prefix).Msg("Starting API server")
+	log.Debug().Str("port", a.http.Addr).Str("prefix", a.prefix).Msg("Starting API server")
 
-	if err := http.ListenAndServe(port, a); err != nil {
+	if err := a.http.ListenAndServe(); err != nil && !errors.Is(err, http.ErrServerClosed) {
 		log.Fatal().Err(err).Msg("Starting API server")
 	}
 }
 
+// Shutdown stops the API server after the requests being processed have finished,
+// or once the context is done.
+func (a *API) Shutdown(ctx context.Context) {
+	if err := a.http.Shutdown(ctx); err != nil {
+		log.Error().Err(err).Msg("Failed to shut down API server")
+	}
+}
+
 // ServeHTTP serves the API requests.
 func (a *API) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	a.router.ServeHTTP(w, r)
diff --git a/pkg/kache/kache.go b/pkg/kache/kache.go
index f466a75..168cbaa 100644
--- a/pkg/kache/kache.go
+++ b/pkg/kache/kache.go
@@ -225,6 +225,21 @@ func (t *Kache) Run() error {
 		syscall.SIGINT, syscall.SIGTERM,
 	)
 
+	// Shutdown API server along with the core server
+	apiCtx, stopAPI := context.WithCancel(ctx)
+	apiStopped := make(chan struct{})
+	go func() {
+		defer close(apiStopped)
+		<-apiCtx.Done()
+		ctx, cancel := context.WithTimeout(context.Background(), server.ServerGracefulShutdownTimeout)
+		defer cancel()
+		t.API.Shutdown(ctx)
+	}()
+	defer func() {
+		stopAPI()
+		<-apiStopped
+	}()
+
 	// Start core server
 	t.Server.Start(ctx)
 	defer t.Server.Shutdown()
-- 
2.43.0


From b36aadd0f0e8848f81fc13c02dd60dbc5c9d0e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 62/66] fix: max-stale does not cover responses with an invalid
 Expires date

The least possible freshness overflowed the calculation of the staleness, so that
any max-stale was taken for sufficient.
---
 pkg/cache/httpcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 0324932..70280fd 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -466,8 +466,10 @@ func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duratio
 	if age > freshness { // Stale response.
 		// Check if the response is allowed being served stale,
 		// or if the request max-stale directive prevents it.
+		// The comparison must not overflow for an invalid Expires date, which
+		// results in the least freshness there is.
 		allowStale := reqCacheControl.MaxStale >= 0 &&
-			reqCacheControl.MaxStale > age-freshness
+			age-reqCacheControl.MaxStale < freshness
 
 		return resCacheControl.NoStale || !allowStale
 	}
-- 
2.43.0


From b0e7a603f842da6f2384620bf2e587cac6003b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 63/66] fix: report missing sections and empty entries of the
 configuration at start

Kache crashed on a nil pointer if the provider or api section was missing, or a
listener or upstream had no settings.
---
 pkg/config/config.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index de91c35..2346fcc 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -33,6 +33,8 @@ import (
 var (
 	errInvalidListenersConfig = errors.New("invalid listeners config")
 	errInvalidUpstreamsConfig = errors.New("invalid upstreams config")
+	errMissingProviderConfig  = errors.New("missing provider config")
+	errMissingAPIConfig       = errors.New("missing api config")
 )
 
 // TODO: set defaults
@@ -53,10 +55,17 @@ type Configuration struct {
 
 // Validate validates the configuration.
 func (c *Configuration) Validate() error {
-	return errors.Join(
+	errs := []error{
 		c.Listeners.Validate(),
 		c.Upstreams.Validate(),
-	)
+	}
+	if c.Provider == nil {
+		errs = append(errs, errMissingProviderConfig)
+	}
+	if c.API == nil {
+		errs = append(errs, errMissingAPIConfig)
+	}
+	return errors.Join(errs...)
 }
 
 // Global holds the global configuration.
@@ -78,6 +87,11 @@ func (l Listeners) Validate() error {
 	if len(l) < 1 {
 		return errInvalidListenersConfig
 	}
+	for _, listener := range l {
+		if listener == nil {
+			return errInvalidListenersConfig
+		}
+	}
 	return nil
 }
 
@@ -96,6 +110,11 @@ func (u Upstreams) Validate() error {
 	if len(u) < 1 {
 		return errInvalidUpstreamsConfig
 	}
+	for _, upstream := range u {
+		if upstream == nil {
+			return errInvalidUpstreamsConfig
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 0c3e953129a4214cea754f80573358814d146b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 64/66] fix: validate the Redis configuration at start

It was never checked: without an endpoint Redis was looked for on the local host,
and without workers nothing was ever stored.
---
 pkg/provider/provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/provider/provider.go b/pkg/provider/provider.go
index ccaa6ec..f606b01 100644
--- a/pkg/provider/provider.go
+++ b/pkg/provider/provider.go
@@ -167,6 +167,9 @@ func _createCacheProvider(name string, config ProviderBackendConfig) (Provider,
 	case BackendInMemory:
 		return NewInMemoryCache(config.InMemory)
 	case BackendRedis:
+		if err := config.Redis.Validate(); err != nil {
+			return nil, err
+		}
 		client, err := NewRedisClient(name, config.Redis)
 		if err != nil {
 			return nil, errors.Join(err, errors.New("failed to create redis client"))
-- 
2.43.0


From 6b4eeb6075a1eee0066998d1cb501d449a80780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:35 +0000
Subject: [PATCH 65/66] fix: refuse an invalid watch interval instead of
 crashing

---
 pkg/config/loader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 8fab679..5103d56 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -27,6 +27,7 @@ import (
 	"context"
 	"crypto/md5"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"os"
 	"sync"
@@ -38,6 +39,8 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
+var errInvalidWatchInterval = errors.New("invalid watch interval")
+
 // Loader loads a configuration from file.
 type Loader struct {
 	path string
@@ -122,6 +125,9 @@ func (l *Loader) AutoReload() bool {
 
 // Watch watches and reloads the config file if changed.
 func (l *Loader) Watch(ctx context.Context) error {
+	if l.watchInterval <= 0 {
+		return errInvalidWatchInterval
+	}
 	if _, err := l.Load(ctx); err != nil {
 		return err
 	}
-- 
2.43.0


From 8e2ce8de7bb35475ba60fa92182cd1c48bb1df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:35 +0000
Subject: [PATCH 66/66] fix: keep ages and lifetimes from overflowing

---
 pkg/cache/cache_control.go | 24 +++++++++++++++---------
 pkg/cache/httpcache.go     |  2 +-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index f12088e..a6993bc 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -23,8 +23,10 @@
 package cache
 
 import (
+	"errors"
 	"math"
 	"net/http"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -195,11 +197,19 @@ func splitDirective(s string) (dir string, arg string) {
 	return strings.ToLower(strings.TrimSpace(dir)), strings.TrimSpace(arg)
 }
 
+// maxDeltaSeconds is what any greater number of seconds is considered to be.
+// https://httpwg.org/specs/rfc7234.html#delta-seconds
+const maxDeltaSeconds = (1 << 31) * time.Second
+
 // parseDuration parses a directive argument and returns a valid duration in
 // seconds. Any invalid duration is ignored, returning a negative duration.
 // https://httpwg.org/specs/rfc7234.html#delta-seconds
 func parseDuration(s string) time.Duration {
 	s = strings.Trim(s, "\"'") // trim quotes
+	if n, err := strconv.ParseUint(s, 10, 64); errors.Is(err, strconv.ErrRange) ||
+		err == nil && n > uint64(maxDeltaSeconds/time.Second) {
+		return maxDeltaSeconds
+	}
 	d, err := time.ParseDuration(s + "s")
 	if err != nil || d < 0 {
 		return time.Duration(-1)
@@ -243,22 +253,18 @@ func CalculateAge(headers *http.Header, responseTime time.Time, now time.Time) t
 	if date.IsZero() {
 		date = responseTime
 	}
-	apparentAge := max(0, int64(responseTime.Sub(date)))
+	apparentAge := min(max(0, responseTime.Sub(date)), maxDeltaSeconds)
 
 	// Set corrected age to the value Age header,
 	// as response delay (response_time - request_time) is assumed to be negligible.
-	age, err := time.ParseDuration(headers.Get(HeaderAge) + "s")
-	if err != nil {
-		age = time.Duration(0 * time.Second)
-	}
-	correctedAge := age
-	correctedInitialAge := max(int64(apparentAge), int64(correctedAge))
+	correctedAge := parseDuration(headers.Get(HeaderAge))
+	correctedInitialAge := max(apparentAge, correctedAge)
 
 	// Calculate current age by adding the amount of time (seconds)
 	// since the response was last validated by the origin server.
 	// The clock of the instance that stored the response may be ahead.
-	residentTime := max(0, int64(now.Sub(responseTime)))
+	residentTime := min(max(0, now.Sub(responseTime)), maxDeltaSeconds)
 	currentAge := correctedInitialAge + residentTime
 
-	return time.Duration(currentAge).Truncate(time.Second)
+	return currentAge.Truncate(time.Second)
 }
diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 70280fd..e16c335 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -459,7 +459,7 @@ func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duratio
 		expires := parseHttpTime(header.Get(HeaderExpires))
 		date := parseHttpTime(header.Get(HeaderDate))
 		if !date.IsZero() {
-			freshness = expires.Sub(date)
+			freshness = min(expires.Sub(date), maxDeltaSeconds)
 		}
 	}
 
-- 
2.43.0

