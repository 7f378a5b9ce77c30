MW='''package middleware_test

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server/middleware"
	"github.com/prometheus/client_golang/prometheus"
)

var (
	_ = bytes.NewReader
	_ = fmt.Sprint
	_ sync.Mutex
	_ = strings.Repeat
	_ = time.Now
	_ = httptest.NewServer
)

type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func transport(t *testing.T, cfg *cache.HttpCacheConfig, f rt) *middleware.Transport {
	if cfg == nil {
		cfg = &cache.HttpCacheConfig{Strict: true, XCache: true}
	}
	p, err := provider.NewInMemoryCache(provider.DefaultInMemoryCacheConfig)
	if err != nil {
		t.Fatal(err)
	}
	c, err := cache.NewHttpCache(cfg, p)
	if err != nil {
		t.Fatal(err)
	}
	tr := middleware.NewCachedTransport(c, prometheus.NewRegistry())
	if f != nil {
		tr.Transport = f
	}
	return tr
}

func reply(req *http.Request, status int, body string, h ...string) *http.Response {
	r := &http.Response{StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req,
		ContentLength: int64(len(body)), Body: io.NopCloser(strings.NewReader(body))}
	r.Header.Set("Date", time.Now().UTC().Format(http.TimeFormat))
	for i := 0; i+1 < len(h); i += 2 {
		r.Header.Set(h[i], h[i+1])
	}
	if req.Method == "HEAD" || status == 304 {
		r.Body = http.NoBody
	}
	return r
}

func request(method, url string, h ...string) *http.Request {
	req, err := http.NewRequest(method, url, nil)
	if err != nil {
		panic(err)
	}
	for i := 0; i+1 < len(h); i += 2 {
		req.Header.Set(h[i], h[i+1])
	}
	return req
}

func do(t *testing.T, tr http.RoundTripper, method, url string, h ...string) (*http.Response, string) {
	t.Helper()
	resp, err := tr.RoundTrip(request(method, url, h...))
	if err != nil {
		return nil, err.Error()
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return resp, "ERR " + err.Error()
	}
	return resp, string(b)
}
'''
PROV='''package provider_test

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/provider"
)

var (
	_  = fmt.Sprint
	_  sync.Mutex
	_  = time.Now
	_  = miniredis.NewMiniRedis
	bg = context.Background()
)

func memory(t *testing.T, max, item uint64) provider.Provider {
	p, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: max, MaxItemSize: item})
	if err != nil {
		t.Fatal(err)
	}
	return p
}

func redisCache(t *testing.T, layered bool) (provider.Provider, *miniredis.Miniredis) {
	m, err := miniredis.Run()
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(m.Close)
	p, err := provider.CreateCacheProvider("demo", provider.ProviderBackendConfig{Backend: "redis", Layered: layered,
		Redis: provider.RedisClientConfig{Endpoint: m.Addr(), MaxQueueBufferSize: 10000, MaxQueueConcurrency: 2}})
	if err != nil {
		t.Fatal(err)
	}
	return p, m
}

func until(t *testing.T, what string, f func() bool) {
	t.Helper()
	for i := 0; i < 500; i++ {
		if f() {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal(what)
}
'''
SRV='''package server_test

import (
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server"
	"github.com/prometheus/client_golang/prometheus"
)

var (
	_ = context.Background
	_ = fmt.Sprint
	_ = io.EOF
	_ net.Conn
	_ = strings.Repeat
	_ atomic.Int32
	_ = time.Now
)

func proxy(t *testing.T, cc *cache.HttpCacheConfig, ups ...*config.Upstream) (*server.Server, provider.Provider, *cache.HttpCache) {
	if cc == nil {
		cc = &cache.HttpCacheConfig{Strict: true, XCache: true}
	}
	p, err := provider.NewInMemoryCache(provider.DefaultInMemoryCacheConfig)
	if err != nil {
		t.Fatal(err)
	}
	c, err := cache.NewHttpCache(cc, p)
	if err != nil {
		t.Fatal(err)
	}
	s, err := server.NewServer(&config.Configuration{Upstreams: ups, API: &config.API{}, Provider: &provider.ProviderBackendConfig{}}, p, c, prometheus.NewRegistry())
	if err != nil {
		t.Fatal(err)
	}
	return s, p, c
}

func ask(h http.Handler, method, target string, hd ...string) *httptest.ResponseRecorder {
	req := httptest.NewRequest(method, target, nil)
	for i := 0; i+1 < len(hd); i += 2 {
		req.Header.Set(hd[i], hd[i+1])
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, req)
	return w
}
'''
H="pkg/cache/httpcache.go"; T="pkg/server/middleware/httpcache.go"; CO="pkg/server/middleware/coalesce.go"
CB="pkg/cache/cacheable.go"; CC="pkg/cache/cache_control.go"; S="pkg/server/server.go"
HA="pkg/server/handlers.go"; LI="pkg/server/server_listener.go"; IM="pkg/provider/inmemory.go"; RC="pkg/provider/redis_client.go"
CA="pkg/provider/cached.go"; KU="pkg/cluster/kubernetes.go"; RQ="pkg/cluster/rqueue.go"
AP="pkg/api/api.go"; FI="pkg/api/filter.go"; KA="pkg/kache/kache.go"; LO="pkg/config/loader.go"; EN="pkg/cache/entry.go"
M="pkg/server/middleware"; PV="pkg/provider"
BUGS=[]
def bug(id,property,pkg,edits,demo,needs,breaks): BUGS.append(dict(id=id,property=property,pkg=pkg,edits=edits,demo=demo,needs=needs,breaks=breaks))

bug("c01-encode-pool","C01","pkg/cache",[(EN,'''	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	if err := enc.Encode(e); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
''','''	buf := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(buf)
	buf.Reset()
	enc := gob.NewEncoder(buf)
	if err := enc.Encode(e); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
'''),(EN,'''// TODO: Benchmark, encoding/decoding might slow down the hot path.
''','''// buffers holds the buffers for encoding, which is on the hot path.
var buffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}
'''),(EN,'''	"fmt"
''','''	"fmt"
	"sync"
''')],'''package cache_test

import (
	"strings"
	"testing"

	"github.com/kacheio/kache/pkg/cache"
)

func TestPlanted(t *testing.T) {
	for i := 0; i < 100; i++ {
		a, err := (&cache.Entry{Body: []byte(strings.Repeat("a", 500))}).Encode()
		if err != nil {
			t.Fatal(err)
		}
		if _, err := (&cache.Entry{Body: []byte(strings.Repeat("b", 500))}).Encode(); err != nil {
			t.Fatal(err)
		}
		e, err := cache.DecodeEntry(a)
		if err != nil || string(e.Body) != strings.Repeat("a", 500) {
			t.Fatalf("the entry was overwritten: %v %.20q", err, e.Body)
		}
	}
}
''',"another response is stored by the same processor while the first one is still in the in-memory cache","cached bytes are overwritten by those of later responses")

bug("c01-partial-body","C01",M,[(H,'''	resp, err := httputil.DumpResponse(response, true)
	if err != nil {
		log.Error().Err(err).Send()
		return
	}
''','''	body, err := io.ReadAll(response.Body)
	if err != nil {
		log.Error().Err(err).Send()
	}
	_ = response.Body.Close()
	response.Body = io.NopCloser(bytes.NewReader(body))
	var resp []byte
	if resp, err = httputil.DumpResponse(response, true); err != nil {
		log.Error().Err(err).Send()
		return
	}
'''),(H,'''	"fmt"
	"net/http"
''','''	"fmt"
	"io"
	"net/http"
''')],MW+'''
type broken struct{ r io.Reader }

func (b broken) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func (broken) Close() error { return nil }

func TestPlanted(t *testing.T) {
	tr := transport(t, nil, func(r *http.Request) (*http.Response, error) {
		resp := reply(r, 200, "", "Cache-Control", "max-age=60")
		resp.ContentLength = -1
		resp.TransferEncoding = []string{"chunked"}
		resp.Body = broken{strings.NewReader("half of the bo")}
		return resp, nil
	})
	for i := 0; i < 2; i++ {
		if resp, body := do(t, tr, "GET", "http://up/a"); resp != nil && !strings.HasPrefix(body, "ERR") {
			t.Fatalf("request %d got a truncated response as complete: %q", i, body)
		}
	}
}
''',"the upstream's connection breaks in the middle of a cacheable body without a declared length","a truncated body is delivered and cached as complete")

bug("c02-private-arg","C02",M,[(CC,'''		case "no-store", "private":
			cc.NoStore = true
''','''		case "no-store":
			cc.NoStore = true
		case "private":
			// With an argument, only the listed fields are private.
			cc.NoStore = cc.NoStore || arg == ""
''')],MW+'''
func TestPlanted(t *testing.T) {
	n := 0
	tr := transport(t, nil, func(r *http.Request) (*http.Response, error) {
		n++
		return reply(r, 200, fmt.Sprint("body ", n), "Cache-Control", `max-age=60, private="x-user"`, "X-User", "alice"), nil
	})
	do(t, tr, "GET", "http://up/a")
	if _, body := do(t, tr, "GET", "http://up/a"); body != "body 2" {
		t.Fatalf("a private response was stored: %q", body)
	}
}
''',"a private directive with an argument","responses with private=\"field\" are stored and shared as a whole")

bug("c02-auth-scheme","C02",M,[(CB,'''	if _, ok := req.Header[HeaderAuthorization]; ok {
		return false
	}
''','''	switch scheme, _, _ := strings.Cut(req.Header.Get(HeaderAuthorization), " "); scheme {
	case "Basic", "Bearer", "Digest":
		return false
	}
'''),(CB,'''import (
	"net/http"
)
''','''import (
	"net/http"
	"strings"
)
''')],MW+'''
func TestPlanted(t *testing.T) {
	n := 0
	tr := transport(t, nil, func(r *http.Request) (*http.Response, error) {
		n++
		return reply(r, 200, fmt.Sprint("body ", n), "Cache-Control", "max-age=60"), nil
	})
	for _, a := range []string{"bearer x", "Token y", "AWS4-HMAC-SHA256 z"} {
		do(t, tr, "GET", "http://up/a", "Authorization", a)
		m := n
		if do(t, tr, "GET", "http://up/a", "Authorization", a+"2"); n == m {
			t.Fatalf("a response to %q was shared", a)
		}
	}
}
''',"credentials of a scheme other than the usual ones, or spelled in lower case","responses to requests with such credentials are stored and shared")

bug("c02-validated-private","C02",M,[(T,'''	cacheable := true
	if t.Cache.Strict() {
''','''	cacheable := true
	if t.Cache.Strict() && !validated { // a validated response has been cacheable before
''')],MW+'''
func TestPlanted(t *testing.T) {
	n := 0
	tr := transport(t, nil, func(r *http.Request) (*http.Response, error) {
		n++
		if r.Header.Get("If-None-Match") != "" {
			return reply(r, 304, "", "Etag", `"a"`, "Cache-Control", "private, max-age=60"), nil
		}
		return reply(r, 200, "body", "Cache-Control", "max-age=0", "Etag", `"a"`), nil
	})
	do(t, tr, "GET", "http://up/a")
	time.Sleep(1100 * time.Millisecond)
	do(t, tr, "GET", "http://up/a")
	m := n
	if do(t, tr, "GET", "http://up/a"); n == m {
		t.Fatal("a response that became private was kept")
	}
}
''',"a cached response becomes private or no-store by a successful revalidation","the private response stays in the cache")

bug("c03-stale-if-error","C03",M,[(T,'''		log.Error().Err(err).Msgf("RoundTrip: error: %v", err)
		return resp, err
''','''		log.Warn().Err(err).Msgf("RoundTrip: error: %v", err)
		if cached.Status == cache.EntryRequiresValidation && cached.Response().StatusCode == http.StatusOK {
			return cached.Response(), nil // better than nothing
		}
		return resp, err
''')],MW+'''
func TestPlanted(t *testing.T) {
	n := 0
	tr := transport(t, nil, func(r *http.Request) (*http.Response, error) {
		if n++; n > 1 {
			return nil, io.ErrUnexpectedEOF
		}
		return reply(r, 200, "body", "Cache-Control", "max-age=1, must-revalidate"), nil
	})
	do(t, tr, "GET", "http://up/a")
	time.Sleep(2100 * time.Millisecond)
	if resp, _ := do(t, tr, "GET", "http://up/a"); resp != nil {
		t.Fatal("a stale response was served without validation")
	}
}
''',"the upstream fails while a stale response is being revalidated","a stale response is served although it must be revalidated")

bug("c03-smaxage-order","C03",M,[(CC,'''		case "s-maxage":
			cc.MaxAge = parseDuration(arg)
		case "max-age":
			if cc.MaxAge < 0 {
				cc.MaxAge = parseDuration(arg)
			}
''','''		case "s-maxage", "max-age":
			// The first valid one counts.
			if cc.MaxAge < 0 {
				cc.MaxAge = parseDuration(arg)
			}
''')],MW+'''
func TestPlanted(t *testing.T) {
	n := 0
	tr := transport(t, nil, func(r *http.Request) (*http.Response, error) {
		n++
		return reply(r, 200, "body", "Cache-Control", "max-age=60, s-maxage=0"), nil
	})
	do(t, tr, "GET", "http://up/a")
	time.Sleep(1100 * time.Millisecond)
	if do(t, tr, "GET", "http://up/a"); n != 2 {
		t.Fatal("s-maxage was ignored")
	}
}
''',"s-maxage follows a longer max-age","the response is served after its shared lifetime")

bug("c04-head-refresh","C04",M,[(T,'''	if cacheable && shouldUpdateCachedEntry && lookup.Request.Method != "HEAD" &&
		!t.isExcludedContent(resp) {
''','''	refresh := cached.Status == cache.EntryRequiresValidation
	if cacheable && shouldUpdateCachedEntry && (lookup.Request.Method != "HEAD" || refresh) &&
		!t.isExcludedContent(resp) {
''')],MW+'''
func TestPlanted(t *testing.T) {
	v := 1
	tr := transport(t, nil, func(r *http.Request) (*http.Response, error) {
		resp := reply(r, 200, fmt.Sprint("version ", v), "Cache-Control", "max-age=1", "Etag", fmt.Sprintf(`"%d"`, v))
		return resp, nil
	})
	do(t, tr, "GET", "http://up/a")
	time.Sleep(2100 * time.Millisecond)
	v = 2
	do(t, tr, "HEAD", "http://up/a")
	if _, body := do(t, tr, "GET", "http://up/a"); body != "version 2" {
		t.Fatalf("got %q after a HEAD request", body)
	}
}
''',"a HEAD request revalidates a stale entry that has changed at the upstream","the response without a body is stored and a later GET gets no body")

bug("c05-scan-page","C05",PV,[(RC,'''	iter := c.Scan(ctx, 0, escapeGlob.Replace(pattern), 0).Iterator()

	for iter.Next(ctx) {
		key := iter.Val()
		if len(key) > 0 {
			// TODO: evaluate non-blocking Unlink.
			if err := c.Del(ctx, key).Err(); err != nil {
				return err
			}
		}
	}

	return iter.Err()
''','''	var cursor uint64
	for {
		keys, next, err := c.Scan(ctx, cursor, escapeGlob.Replace(pattern), 0).Result()
		if err != nil {
			return err
		}
		if len(keys) == 0 { // nothing left that matches
			return nil
		}
		if err := c.Del(ctx, keys...).Err(); err != nil {
			return err
		}
		if cursor = next; cursor == 0 {
			return nil
		}
	}
''')],PROV+'''
func TestPlanted(t *testing.T) {
	// A server that returns pages of ten like Redis does, possibly empty ones.
	p, m := fake(t)
	for i := 0; i < 40; i++ {
		m.set(fmt.Sprintf("kache-a%02d", i))
	}
	m.set("kache-b")
	if err := p.Purge(bg, "kache-b*"); err != nil {
		t.Fatal(err)
	}
	if m.has("kache-b") {
		t.Fatal("a purged key is still there")
	}
}

type fakeRedis struct {
	mu   sync.Mutex
	keys []string
}

func (f *fakeRedis) set(k string) { f.mu.Lock(); f.keys = append(f.keys, k); f.mu.Unlock() }

func (f *fakeRedis) has(k string) bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, x := range f.keys {
		if x == k {
			return true
		}
	}
	return false
}

func fake(t *testing.T) (provider.Provider, *fakeRedis) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { l.Close() })
	f := &fakeRedis{}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go f.serve(c)
		}
	}()
	p, err := provider.CreateCacheProvider("demo", provider.ProviderBackendConfig{Backend: "redis",
		Redis: provider.RedisClientConfig{Endpoint: l.Addr().String(), MaxQueueBufferSize: 10, MaxQueueConcurrency: 1}})
	if err != nil {
		t.Fatal(err)
	}
	return p, f
}

func (f *fakeRedis) serve(c net.Conn) {
	r := bufio.NewReader(c)
	for {
		var n int
		if _, err := fmt.Fscanf(r, "*%d\\r\\n", &n); err != nil {
			return
		}
		args := make([]string, n)
		for i := range args {
			var l int
			fmt.Fscanf(r, "$%d\\r\\n", &l)
			b := make([]byte, l+2)
			io.ReadFull(r, b)
			args[i] = string(b[:l])
		}
		f.mu.Lock()
		switch strings.ToLower(args[0]) {
		case "hello":
			fmt.Fprint(c, "-ERR unknown command\\r\\n")
		case "ping":
			fmt.Fprint(c, "+PONG\\r\\n")
		case "scan":
			cur, _ := strconv.Atoi(args[1])
			end := min(cur+10, len(f.keys))
			var page []string
			for _, k := range f.keys[cur:end] {
				for i := range args {
					if strings.ToLower(args[i]) == "match" && strings.HasPrefix(k, strings.TrimSuffix(args[i+1], "*")) {
						page = append(page, k)
					}
				}
			}
			next := fmt.Sprint(end)
			if end == len(f.keys) {
				next = "0"
			}
			fmt.Fprintf(c, "*2\\r\\n$%d\\r\\n%s\\r\\n*%d\\r\\n", len(next), next, len(page))
			for _, k := range page {
				fmt.Fprintf(c, "$%d\\r\\n%s\\r\\n", len(k), k)
			}
		case "del":
			for _, d := range args[1:] {
				for i, k := range f.keys {
					if k == d {
						f.keys = append(f.keys[:i:i], f.keys[i+1:]...)
						break
					}
				}
			}
			fmt.Fprint(c, ":1\\r\\n")
		default:
			fmt.Fprint(c, "+OK\\r\\n")
		}
		f.mu.Unlock()
	}
}
'''.replace("","") ,"more keys in Redis than it returns per page of a scan, and a page without a match before one with matches","purged keys stay in the cache")
BUGS[-1]["demo"]=BUGS[-1]["demo"].replace('''import (
	"context"
	"fmt"
	"sync"
''','''import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
''')

bug("c05-layered-flush","C05",PV,[(CA,'''	err := c.inner.Flush(ctx)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.gen++
	_ = c.outer.Flush(ctx)
	return err
''','''	if c.inner.Size() == 0 { // nothing to do
		return nil
	}
	err := c.inner.Flush(ctx)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.gen++
	_ = c.outer.Flush(ctx)
	return err
'''),(CA,'''	return len(c.inner.Keys(context.Background(), ""))
''','''	return len(c.Keys(context.Background(), ""))
'''),("pkg/provider/remote.go",'''func (c *remoteCache) Size() int { return -1 }
''','''func (c *remoteCache) Size() int { return len(c.Keys(context.Background(), "")) }
''')],PROV+'''
func TestPlanted(t *testing.T) {
	p, m := redisCache(t, true)
	p.Set("kache-a", []byte("x"), time.Minute)
	until(t, "not stored", func() bool { return m.Exists("kache-a") })
	m.FlushAll() // it lost its memory
	if err := p.Flush(bg); err != nil {
		t.Fatal(err)
	}
	if p.Get(bg, "kache-a") != nil {
		t.Fatal("flushed entry is still there")
	}
}
''',"layered cache; Redis holds nothing (restarted, emptied, or the store is still queued) when the cache is flushed","entries of the local layer are served after the flush")

bug("c06-late-release","C06",M,[(CO,'''	coalescer.Lock()
	delete(coalescer.inflights, key)
	coalescer.Unlock()

	// Wake up any suspended callers waiting for this response.
	inflight.L.Lock()
	if inflight.coalesced {
		record()
		// Wake up all waiting routines.
		inflight.Broadcast()
	}
	inflight.L.Unlock()
''','''	defer func() {
		coalescer.Lock()
		delete(coalescer.inflights, key)
		coalescer.Unlock()
	}()

	// Wake up any suspended callers waiting for this response.
	inflight.L.Lock()
	if inflight.coalesced {
		record()
		// Wake up all waiting routines.
		inflight.Broadcast()
	}
	inflight.L.Unlock()
''')],MW+'''
func TestPlanted(t *testing.T) {
	tr := middleware.NewCoalesced(rt(func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, "body"), nil
	}))
	done := make(chan bool)
	go func() {
		defer close(done)
		var wg sync.WaitGroup
		for i := 0; i < 16; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 20000; k++ {
					do(t, tr, "GET", "http://up/a")
				}
			}()
		}
		wg.Wait()
	}()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		t.Fatal("requests are waiting for ever")
	}
}
''',"a request arrives between the wake-up of the waiting ones and the removal of the finished one","that request waits for ever")

bug("c07-retry-blocks","C07","pkg/cluster",[(RQ,'''	if msg.Attempt < q.Options.MaxRetries {
		go func() {
			log.Debug().Str("url", msg.Request.RequestURI).Int("attempt", msg.Attempt).
				Msgf("Message retry in %v", q.Options.Backoff)
			select {
			case <-time.After(q.Options.Backoff):
			case <-q.done:
				return
			}
			select {
			case q.Queue <- msg:
			case <-q.done:
			}
		}()
	}
''','''	if msg.Attempt < q.Options.MaxRetries {
		log.Debug().Str("url", msg.Request.RequestURI).Int("attempt", msg.Attempt).
			Msgf("Message retry in %v", q.Options.Backoff)
		select {
		case <-time.After(q.Options.Backoff):
		case <-q.done:
			return
		}
		q.Queue <- msg
	}
''')],'''package cluster_test

import (
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cluster"
)

func TestPlanted(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(500) }))
	defer srv.Close()
	q := cluster.NewRequestQueue(cluster.RequestQueueOpts{Size: 2, MaxWorkers: 2, MaxRetries: 3, Backoff: 20 * time.Millisecond})
	done := make(chan bool)
	go func() {
		for i := 0; i < 40; i++ {
			r, _ := http.NewRequest("DELETE", srv.URL, nil)
			q.Queue <- cluster.Message{Request: r}
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("deadlock")
	}
}
''',"many purges in a row while a node of the cluster is unreachable: the queue is full and all workers want to retry","purge requests hang for ever")

bug("c08-peek","C08",PV,[(IM,'''	v, ok := c.inner.Get(key)
	if !ok {
		return nil
	}
	return v
''','''	v, ok := c.inner.Peek(key)
	if !ok {
		return nil
	}
	return v
''')],PROV+'''
func TestPlanted(t *testing.T) {
	p := memory(t, 300, 200)
	p.Set("a", make([]byte, 100), time.Minute)
	p.Set("b", make([]byte, 100), time.Minute)
	p.Get(bg, "a")
	p.Set("c", make([]byte, 100), time.Minute)
	if p.Get(bg, "a") == nil {
		t.Fatal("the recently used entry was evicted")
	}
}
''',"a full cache with an old entry that is in use","the oldest instead of the least recently used entry is evicted")

bug("c09-shrink-ttl","C09",PV,[(IM,'''			c.curSize -= (entSize - size)
			c.ttl[key] = c.currentTime().Add(ttl)
			return
''','''			c.curSize -= (entSize - size)
			return
''')],PROV+'''
func TestPlanted(t *testing.T) {
	p := memory(t, 3000, 2000)
	p.Set("a", make([]byte, 100), 300*time.Millisecond)
	time.Sleep(200 * time.Millisecond)
	p.Set("a", make([]byte, 50), 300*time.Millisecond)
	time.Sleep(200 * time.Millisecond)
	if p.Get(bg, "a") == nil {
		t.Fatal("the entry is gone too early")
	}
}
''',"an entry is replaced by one that is not bigger","the new entry lives only as long as the old one would have")

bug("c09-redis-seconds","C09",PV,[(RC,'''	_, err := c.Set(context.Background(), key, value, ttl).Result()
	return err

''','''	// Whole seconds are understood by all versions of Redis.
	_, err := c.Set(context.Background(), key, value, ttl.Truncate(time.Second)).Result()
	return err
''')],PROV+'''
func TestPlanted(t *testing.T) {
	p, m := redisCache(t, false)
	p.Set("kache-a", []byte("x"), 500*time.Millisecond)
	until(t, "not stored", func() bool { return m.Exists("kache-a") })
	if m.TTL("kache-a") <= 0 {
		t.Fatal("the entry lives for ever")
	}
}
''',"a lifetime that is no multiple of a second","entries expire too early or never")

bug("c10-rlock-get","C10",PV,[(IM,'''	c.mu.Lock()
	defer c.mu.Unlock()

	if c.ttlEviction {
		if''','''	c.mu.RLock()
	defer c.mu.RUnlock()

	if c.ttlEviction {
		if''')],PROV+'''
func TestPlanted(t *testing.T) {
	p := memory(t, 1<<20, 2000)
	for n := 0; n < 30; n++ {
		for i := 0; i < 1000; i++ {
			p.Set(fmt.Sprint(i), make([]byte, 100), time.Millisecond)
		}
		time.Sleep(3 * time.Millisecond)
		var wg sync.WaitGroup
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 1000; i++ {
					p.Get(bg, fmt.Sprint(i))
				}
			}()
		}
		wg.Wait()
	}
}
''',"two requests find expired entries at the same time","concurrent modification of the cache's bookkeeping: crash or wrong size")

bug("c10-purge-unlocked","C10",PV,[(IM,'''		if r.MatchString(k) {
			c.Delete(ctx, k)
		}
''','''		if r.MatchString(k) {
			c._delete(ctx, k)
		}
''')],PROV+'''
func TestPlanted(t *testing.T) {
	p := memory(t, 1<<20, 2000)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for n := 0; n < 300; n++ {
				if g < 4 {
					if err := p.Purge(bg, "a*"); err != nil {
						t.Error(err)
					}
					continue
				}
				for i := 0; i < 100; i++ {
					p.Set(fmt.Sprint("a", i), make([]byte, 100), time.Minute)
				}
			}
		}(g)
	}
	wg.Wait()
}
''',"a purge at the same time as stores or other purges, in-memory backend","concurrent modification of the cache's bookkeeping: crash or wrong size")

bug("c11-fetch-detached","C11",PV,[(RC,"""	defer cancel()
	res, err := c.Get(ctx, key).Result()
""","""	defer cancel()
	// A client that goes away must not cut the lookup short.
	res, err := c.Get(context.WithoutCancel(ctx), key).Result()
""")],PROV+"""
func TestPlanted(t *testing.T) {
	p, m := redisCache(t, false)
	p.Get(bg, "kache-a")
	m.Lock() // hangs from now on
	defer m.Unlock()
	done := make(chan bool)
	go func() {
		p.Get(bg, "kache-a")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("the outage blocks requests")
	}
}
""","Redis accepts connections but does not answer","the request waits for it until the response is lost")

bug("c11-breaker","C11",PV,[(RC,'''	res, err := c.Get(ctx, key).Result()
	if err != nil {
		if !errors.Is(err, redis.Nil) {
			log.Error().Err(err).Str("cache-key", key).Msg("Error getting item from redis")
		}
		return nil
	}
''','''	if c.failures.Load() >= 3 {
		return nil // do not wait for it again and again
	}
	res, err := c.UniversalClient.Get(ctx, key).Result()
	if err != nil {
		if !errors.Is(err, redis.Nil) {
			c.failures.Add(1)
			log.Error().Err(err).Str("cache-key", key).Msg("Error getting item from redis")
		}
		return nil
	}
	c.failures.Store(0)
'''),(RC,'''	// queue is the async job queue.
	queue *jobQueue
''','''	// queue is the async job queue.
	queue *jobQueue

	// failures counts the failed operations in a row.
	failures atomic.Int32
'''),(RC,'''	"sync"
''','''	"sync"
	"sync/atomic"
''')],PROV+'''
func TestPlanted(t *testing.T) {
	p, m := redisCache(t, false)
	m.SetError("LOADING")
	for i := 0; i < 4; i++ {
		p.Get(bg, "kache-a")
	}
	m.SetError("")
	p.Set("kache-a", []byte("x"), time.Minute)
	until(t, "caching does not resume after the outage", func() bool { return p.Get(bg, "kache-a") != nil })
}
''',"three failed operations in a row","nothing is served from the cache any more after Redis has recovered")

bug("c12-echo","C12","pkg/server",[(HA,'''	if _, ok := r.Header["X-Kache-Cluster"]; !ok && s.cluster != nil {
''','''	if from := r.Header.Get("X-Kache-Cluster"); from != "broadcast" && s.cluster != nil {
''')],'''package server

import (
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/cluster"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/prometheus/client_golang/prometheus"
)

type conn struct{ n int }

func (c *conn) Broadcast(req *http.Request, portname, method, path string) { c.n++ }
func (c *conn) Endpoints(portname string) []cluster.Endpoint             { return nil }
func (c *conn) Close()                                                   {}

func TestPlanted(t *testing.T) {
	p, _ := provider.NewSimpleCache(nil)
	h, _ := cache.NewHttpCache(nil, p)
	s, err := NewServer(&config.Configuration{}, p, h, prometheus.NewRegistry())
	if err != nil {
		t.Fatal(err)
	}
	c := &conn{}
	s.cluster = c
	for i, v := range []string{"", "Broadcast"} {
		r := httptest.NewRequest("PUT", "/api/cache/config/update", strings.NewReader("x_header: true\\n"))
		if v != "" {
			r.Header.Set("X-Kache-Cluster", v)
		}
		w := httptest.NewRecorder()
		s.CacheConfigUpdateHandler(w, r)
		if w.Code != 200 || c.n != 1 {
			t.Fatalf("%d: status %d, %d broadcasts", i, w.Code, c.n)
		}
	}
}
''',"a cluster: a node receives a configuration update from another one","updates are passed on for ever, multiplying each time")

bug("c13-watch-stops","C13","pkg/config",[(LO,'''			if err != nil {
				log.Error().Err(err).Msg("Error reloading config file")
			}
			if changed {
''','''			if err != nil {
				log.Error().Err(err).Msg("Error reloading config file, giving up")
				return
			}
			if changed {
''')],'''package config_test

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/config"
)

func TestPlanted(t *testing.T) {
	f := filepath.Join(t.TempDir(), "kache.yml")
	write := func(s string) {
		if err := os.WriteFile(f, []byte(s), 0o600); err != nil {
			t.Fatal(err)
		}
	}
	write("cache:\\n  x_header: true\\n")
	l, err := config.NewLoader(f, true, 20*time.Millisecond)
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		for range l.Events {
		}
	}()
	if err := l.Watch(context.Background()); err != nil {
		t.Fatal(err)
	}
	write("cache: [\\n")
	time.Sleep(200 * time.Millisecond)
	write("cache:\\n  x_header: true\\n  x_header_name: Y\\n")
	for i := 0; i < 200; i++ {
		if l.Config().HttpCache.XCacheName == "Y" {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal("a good file is ignored after a broken one")
}
''',"the watched file is broken (or just being written) when it is checked","later changes of the file are ignored")

bug("c13-merge","C13","pkg/server",[(HA,'''	dec := yaml.NewDecoder(bytes.NewReader(body))
	if err := dec.Decode(&c); err != nil {
		http.Error(w, err.Error(), http.StatusBadRequest)
		return
	}
	s.httpcache.UpdateConfig(&c)
''','''	if cur := s.httpcache.Config(); cur != nil {
		c = *cur // keep what is not given
	}
	if err := yaml.NewDecoder(bytes.NewReader(body)).Decode(&c); err != nil {
		http.Error(w, err.Error(), http.StatusBadRequest)
		return
	}
	s.httpcache.UpdateConfig(&c)
''')],SRV+'''
func TestPlanted(t *testing.T) {
	s, _, c := proxy(t, nil)
	put := func(b string) {
		w := httptest.NewRecorder()
		s.CacheConfigUpdateHandler(w, httptest.NewRequest("PUT", "/api/cache/config/update", strings.NewReader(b)))
		if w.Code != 200 {
			t.Fatal(w.Code)
		}
	}
	put("x_header: true\\nx_header_name: A\\ndefault_ttl: 7s\\n")
	put("x_header: true\\n")
	if c.XCacheHeader() == "A" || c.DefaultTTL() == 7*time.Second {
		t.Fatal("the configuration was merged, not replaced")
	}
}
''',"two updates of the configuration, the second of which leaves out a setting of the first","settings that were removed stay in force")

bug("c14-cancel-early","C14","pkg/server",[(LI,'''		go shutdown(l.httpServer)
	}

	wg.Wait()
	cancel()
''','''		go shutdown(l.httpServer)
	}

	defer wg.Wait()
	cancel()
''')],SRV+'''
func TestPlanted(t *testing.T) {
	started := make(chan bool)
	ln, err := server.NewListener(context.Background(), &config.Listener{Addr: "127.0.0.1:39471"}, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		close(started)
		time.Sleep(300 * time.Millisecond)
		io.WriteString(w, "done")
	}))
	if err != nil {
		t.Skip(err)
	}
	go ln.Start(context.Background())
	got := make(chan string)
	go func() {
		resp, err := http.Get("http://127.0.0.1:39471/")
		if err != nil {
			got <- err.Error()
			return
		}
		b, _ := io.ReadAll(resp.Body)
		got <- string(b)
	}()
	<-started
	ln.Shutdown(context.Background())
	if s := <-got; s != "done" {
		t.Fatalf("the request in flight was lost: %s", s)
	}
}
''',"the process is told to stop while a request is being processed","requests in flight are cut off")

bug("c14-stop-order","C14","pkg/server",[(S,'''	s.listeners.Stop()

	if s.cluster != nil {
		s.cluster.Close()
	}

	s.stopCh <- true
''','''	s.stopCh <- true

	s.listeners.Stop()

	if s.cluster != nil {
		s.cluster.Close()
	}
''')],SRV+'''
func TestPlanted(t *testing.T) {
	started, finish := make(chan bool), make(chan bool)
	up := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		close(started)
		<-finish
	}))
	defer up.Close()
	p, _ := provider.NewInMemoryCache(provider.DefaultInMemoryCacheConfig)
	c, _ := cache.NewHttpCache(nil, p)
	s, err := server.NewServer(&config.Configuration{Upstreams: config.Upstreams{{Name: "a", Addr: up.URL, Path: "/"}},
		Listeners: config.Listeners{"a": {Addr: "127.0.0.1:39472"}}}, p, c, prometheus.NewRegistry())
	if err != nil {
		t.Skip(err)
	}
	ctx, stop := context.WithCancel(context.Background())
	s.Start(ctx)
	done := make(chan bool)
	go func() {
		resp, err := http.Get("http://127.0.0.1:39472/")
		if err == nil {
			resp.Body.Close()
		}
		close(done)
	}()
	<-started
	stop()
	ended := make(chan bool)
	go func() {
		s.Await()
		close(ended)
	}()
	select {
	case <-ended:
		t.Fatal("the server ends before the request in flight")
	case <-time.After(300 * time.Millisecond):
	}
	close(finish)
	<-done
}
''',"the process is told to stop while a request is being processed","requests in flight are cut off")

bug("c15-delete-on-error","C15",M,[(T,'''		log.Error().Err(err).Msgf("RoundTrip: error: %v", err)
		return resp, err
''','''		log.Error().Err(err).Msgf("RoundTrip: error: %v", err)
		// Do not keep what could not be validated.
		t.Cache.Delete(ctx, lookup)
		return nil, err
''')],MW+'''
func TestPlanted(t *testing.T) {
	n := 0
	tr := transport(t, nil, func(r *http.Request) (*http.Response, error) {
		if n++; n > 1 {
			return nil, io.ErrUnexpectedEOF
		}
		return reply(r, 200, "body", "Cache-Control", "max-age=60"), nil
	})
	do(t, tr, "GET", "http://up/a")
	do(t, tr, "GET", "http://up/a", "Cache-Control", "no-cache")
	if resp, body := do(t, tr, "GET", "http://up/a"); resp == nil || body != "body" {
		t.Fatal("the failure removed a fresh entry")
	}
}
''',"a request that asks for validation of a fresh entry fails upstream","a valid fresh entry is no longer usable during the failure")

bug("c18-exclude-break","C18",M,[(H,'''			r, err := regexp.Compile(p)
			if err != nil {
				log.Error().Err(err).Str("path", p).Msg("Invalid exclude path regex")
			}
			config.Exclude.PathMatcher[i] = r
''','''			r, err := regexp.Compile(p)
			if err != nil {
				log.Warn().Err(err).Str("path", p).Msg("Invalid exclude path regex")
				break
			}
			config.Exclude.PathMatcher[i] = r
''')],MW+'''
func TestPlanted(t *testing.T) {
	n := 0
	tr := transport(t, &cache.HttpCacheConfig{Strict: true, Exclude: &cache.Exclude{Path: []string{"(bad", "^/a"}}}, func(r *http.Request) (*http.Response, error) {
		n++
		return reply(r, 200, "body", "Cache-Control", "max-age=60"), nil
	})
	do(t, tr, "GET", "http://up/a")
	if do(t, tr, "GET", "http://up/a"); n != 2 {
		t.Fatal("an excluded path was cached")
	}
}
''',"an invalid pattern precedes the one that matches in the list of excluded paths","excluded paths are cached")

bug("c18-cc-order","C18",M,[(T,'''	// Set or update custom cache control header.
	defaultCacheControl, force := t.Cache.CacheControl()
	updateCacheControl(resp.Header, defaultCacheControl, force)

''',''''''),(T,'''	shouldUpdateCachedEntry, validated := true, false
''','''	// Set or update custom cache control header.
	defaultCacheControl, force := t.Cache.CacheControl()
	if resp.StatusCode != http.StatusNotModified {
		updateCacheControl(resp.Header, defaultCacheControl, force)
	}

	shouldUpdateCachedEntry, validated := true, false
''')],MW+'''
func TestPlanted(t *testing.T) {
	tr := transport(t, &cache.HttpCacheConfig{Strict: true, DefaultCacheControl: "max-age=1", ForceCacheControl: true}, func(r *http.Request) (*http.Response, error) {
		if r.Header.Get("If-None-Match") != "" {
			return reply(r, 304, "", "Cache-Control", "max-age=600"), nil
		}
		return reply(r, 200, "body", "Cache-Control", "max-age=500", "Etag", `"a"`), nil
	})
	do(t, tr, "GET", "http://up/a")
	time.Sleep(2100 * time.Millisecond)
	resp, _ := do(t, tr, "GET", "http://up/a")
	if cc := resp.Header.Get("Cache-Control"); cc != "max-age=1" {
		t.Fatalf("forced Cache-Control is %q after a validation", cc)
	}
}
''',"a forced Cache-Control and a revalidation whose 304 carries another one","the upstream's value comes through and is obeyed")

bug("c19-retry","C19","pkg/server",[(T,'''			req.Header.Set(mark, cache.MISS)
		}
		return t.send(req)
''','''			req.Header.Set(mark, cache.MISS)
		}
		resp, err = t.send(req)
		if err != nil && ctx.Err() == nil && (req.Body == nil || req.Body == http.NoBody) {
			// The connection may have been closed, try a new one.
			resp, err = t.send(req)
		}
		return resp, err
''')],SRV+'''
func TestPlanted(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	var n atomic.Int32
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			b := make([]byte, 4096)
			c.Read(b)
			n.Add(1)
			c.Close() // after it has been received
		}
	}()
	s, _, _ := proxy(t, nil, &config.Upstream{Name: "a", Addr: "http://" + l.Addr().String(), Path: "/"})
	ask(s, "DELETE", "http://kache/a")
	if n.Load() != 1 {
		t.Fatalf("a DELETE was sent %d times", n.Load())
	}
}
''',"the upstream's connection breaks after a request without a body but with effects has been sent","the request is executed twice")

bug("c19-query-encode","C19","pkg/server",[(S,'''		// Pass host header
		req.Host = req.URL.Host
''','''		// Normalize the query.
		if q, err := url.ParseQuery(req.URL.RawQuery); err == nil {
			req.URL.RawQuery = q.Encode()
		}

		// Pass host header to upstream
		req.Host = upstream.Host
'''),(S,'''	"net/http/httputil"
''','''	"net/http/httputil"
	"net/url"
''')],SRV+'''
func TestPlanted(t *testing.T) {
	got := make(chan string, 1)
	up := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got <- r.URL.RawQuery }))
	defer up.Close()
	s, _, _ := proxy(t, nil, &config.Upstream{Name: "a", Addr: up.URL, Path: "/"})
	ask(s, "GET", "http://kache/a?y=2&x=1&flag")
	if q := <-got; q != "y=2&x=1&flag" {
		t.Fatalf("the query arrived as %q", q)
	}
}
''',"a query that is not in canonical form","the upstream gets another query than the client sent")

bug("c20-bypass-invalidates","C20",M,[(T,'''		if mark := t.Cache.CachedResponseMark(); mark != "" {
			req.Header.Set(mark, cache.MISS)
		}
		return t.send(req)
''','''		if mark := t.Cache.CachedResponseMark(); mark != "" {
			req.Header.Set(mark, cache.MISS)
		}
		resp, err := t.send(req)
		if err == nil && resp.StatusCode < 400 {
			// A successful request like POST may have changed the resource.
			t.Cache.Delete(ctx, cache.NewLookupRequest(req, t.currentTime(), t.Cache.Strict()))
		}
		return resp, err
''')],MW+'''
func TestPlanted(t *testing.T) {
	n := 0
	tr := transport(t, nil, func(r *http.Request) (*http.Response, error) {
		n++
		return reply(r, 200, "body", "Cache-Control", "max-age=60"), nil
	})
	do(t, tr, "GET", "http://up/a")
	do(t, tr, "GET", "http://up/a", "Authorization", "Bearer x")
	if do(t, tr, "GET", "http://up/a"); n != 2 {
		t.Fatal("an unrelated request removed the entry")
	}
}
''',"a request that bypasses the cache (credentials, conditions, range) for a URL that is cached","the fresh entry is thrown away")
