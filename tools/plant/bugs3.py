import importlib.util,os
_s=importlib.util.spec_from_file_location("b1",os.path.join(os.path.dirname(os.path.abspath(__file__)),"bugs1.py")); b1=importlib.util.module_from_spec(_s); _s.loader.exec_module(b1)
MW,PROV,SRV=b1.MW,b1.PROV,b1.SRV
H,T,CO,CB,CC,S,HA,LI,IM,RC,CA,KU,RQ,AP,FI,KA,LO,EN,M,PV=(getattr(b1,x) for x in "H T CO CB CC S HA LI IM RC CA KU RQ AP FI KA LO EN M PV".split())
KEY="pkg/cache/key.go"
BUGS=[]
def bug(id,property,pkg,edits,demo,needs,breaks,**k): BUGS.append(dict(id=id,property=property,pkg=pkg,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

# What the transport counts.
COUNT='''package middleware_test

import (
	"fmt"
	"io"
	"net/http"
	"strings"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server/middleware"
	"github.com/prometheus/client_golang/prometheus"
)

type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func counting(t *testing.T, cfg *cache.HttpCacheConfig, h func(n int, r *http.Request) (int, string)) (ask func(), count func() string) {
	p, err := provider.NewInMemoryCache(provider.DefaultInMemoryCacheConfig)
	if err != nil {
		t.Fatal(err)
	}
	c, err := cache.NewHttpCache(cfg, p)
	if err != nil {
		t.Fatal(err)
	}
	reg := prometheus.NewRegistry()
	tr := middleware.NewCachedTransport(c, reg)
	n := 0
	tr.Transport = rt(func(r *http.Request) (*http.Response, error) {
		n++
		status, cc := h(n, r)
		resp := &http.Response{StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: r,
			ContentLength: 4, Body: io.NopCloser(strings.NewReader("body"))}
		if status == 304 {
			resp.ContentLength, resp.Body = 0, http.NoBody
		}
		resp.Header.Set("Date", time.Now().UTC().Format(http.TimeFormat))
		resp.Header.Set("Cache-Control", cc)
		resp.Header.Set("Etag", `"x"`)
		return resp, nil
	})
	ask = func() {
		req, _ := http.NewRequest("GET", "http://up/a", nil)
		resp, err := tr.RoundTrip(req)
		if err != nil {
			t.Fatal(err)
		}
		io.Copy(io.Discard, resp.Body)
	}
	count = func() string {
		l, err := reg.Gather()
		if err != nil {
			t.Fatal(err)
		}
		var s []string
		for _, f := range l {
			for _, m := range f.Metric {
				for _, lb := range m.Label {
					s = append(s, fmt.Sprintf("%s=%v", lb.GetValue(), m.Counter.GetValue()))
				}
			}
		}
		return strings.Join(s, " ")
	}
	return ask, count
}
'''
bug("c22-mark-hits","C22",M,[(T,'''		t.metrics.hits.Inc()
		return t.handleCacheHit(cacheKey, cached)
''','''		return t.handleCacheHit(cacheKey, cached)
'''),(T,'''	if mark := t.Cache.CachedResponseMark(); mark != "" {
		cached.Header().Set(mark, cache.HIT)
	}
	return cached.Response(), nil
''','''	if mark := t.Cache.CachedResponseMark(); mark != "" {
		t.metrics.hits.Inc()
		cached.Header().Set(mark, cache.HIT)
	}
	return cached.Response(), nil
''')],COUNT+'''
func TestPlanted(t *testing.T) {
	ask, count := counting(t, &cache.HttpCacheConfig{Strict: true}, func(int, *http.Request) (int, string) { return 200, "max-age=60" })
	for i := 0; i < 4; i++ {
		ask()
	}
	if s := count(); s != "hit=3 miss=1" {
		t.Fatal(s)
	}
}
''',"responses from the cache are not marked (x_header off)","hits are not counted")

bug("c22-validation-hit","C22",M,[(T,'''	case cache.EntryOk:
		t.metrics.hits.Inc()
		return t.handleCacheHit(cacheKey, cached)

	case cache.EntryRequiresValidation:
''','''	case cache.EntryOk:
		return t.handleCacheHit(cacheKey, cached)

	case cache.EntryRequiresValidation:
'''),(T,'''	// Send request to upstream.
	resp, err = t.send(req)
''','''	if cached.Status == cache.EntryRequiresValidation {
		t.metrics.misses.Inc()
	}

	// Send request to upstream.
	resp, err = t.send(req)
'''),(T,'''func (t *Transport) handleCacheHit(key string, cached *cache.LookupResult) (*http.Response, error) {
''','''func (t *Transport) handleCacheHit(key string, cached *cache.LookupResult) (*http.Response, error) {
	t.metrics.hits.Inc()
''')],COUNT+'''
func TestPlanted(t *testing.T) {
	ask, count := counting(t, &cache.HttpCacheConfig{Strict: true, XCache: true}, func(n int, _ *http.Request) (int, string) {
		if n > 1 {
			return 304, "no-cache"
		}
		return 200, "no-cache"
	})
	for i := 0; i < 4; i++ {
		ask()
	}
	if s := count(); s != "hit=0 miss=1" {
		t.Fatal(s)
	}
}
''',"entries that are revalidated","revalidated entries are counted as misses")

bug("c23-api-error","C23","pkg/api",[(AP,'''		log.Fatal().Err(err).Msg("Starting API server")
''','''		log.Error().Err(err).Msg("Starting API server")
''')],'''package api_test

import (
	"net"
	"os"
	"os/exec"
	"testing"

	"github.com/kacheio/kache/pkg/api"
	"github.com/kacheio/kache/pkg/config"
)

func TestPlanted(t *testing.T) {
	if os.Getenv("DEMO_API") != "" {
		l, err := net.Listen("tcp", ":0")
		if err != nil {
			t.Skip(err)
		}
		a, err := api.New(config.API{Port: l.Addr().(*net.TCPAddr).Port}, nil)
		if err != nil {
			t.Skip(err)
		}
		a.Run()
		os.Exit(0) // kache would go on without an API
	}
	c := exec.Command(os.Args[0], "-test.run=^TestPlanted$")
	c.Env = append(os.Environ(), "DEMO_API=1")
	if out, err := c.CombinedOutput(); err == nil {
		t.Fatalf("kache runs on without its API:\\n%s", out)
	}
}
''',"the API port is in use when kache starts","kache runs without an API, nothing can be purged")

bug("c23-skip-listener","C23","pkg/server",[(LI,'''		if err != nil {
			return nil, err
		}

		listeners[name] = l
	}
	return listeners, nil
''','''		if err != nil {
			log.Error().Err(err).Str("listenerName", name).Send()
			continue
		}

		listeners[name] = l
	}
	if len(cfg) > 0 && len(listeners) == 0 {
		return nil, errors.New("no listener could be started")
	}
	return listeners, nil
''')],'''package server_test

import (
	"net"
	"net/http"
	"testing"

	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/server"
)

func TestPlanted(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	if _, err := server.NewListeners(config.Listeners{"a": {Addr: "127.0.0.1:0"}, "b": {Addr: l.Addr().String()}}, http.NotFoundHandler()); err == nil {
		t.Fatal("a listener that cannot be opened is ignored")
	}
}
''',"the port of one of several listeners is in use when kache starts","kache starts without that listener")

bug("c01-key-port","C01","pkg/cache",[(KEY,'''		Host:        req.Host,
''','''		Host:        hostname(req),
'''),(KEY,'''// String encodes the cache key as string.
''','''// hostname returns the name of the requested host.
func hostname(req *http.Request) string {
	u := url.URL{Host: req.Host}
	return u.Hostname()
}

// String encodes the cache key as string.
''')],'''package cache_test

import (
	"net/http"
	"testing"

	"github.com/kacheio/kache/pkg/cache"
)

func TestPlanted(t *testing.T) {
	a, _ := http.NewRequest("GET", "http://up:8001/a", nil)
	b, _ := http.NewRequest("GET", "http://up:8002/a", nil)
	if x, y := cache.NewKeyFromRequst(a).String(), cache.NewKeyFromRequst(b).String(); x == y {
		t.Fatal("two upstreams share the key " + x)
	}
}
''',"two upstreams on one host and the same path","responses of one upstream are served for the other")

bug("c03-age-304","C03",M,[(T,'''		cached.Header().Del(cache.HeaderAge)

		// Add any missing headers from the 304 to the cached response.
		cached.UpdateHeader(resp.Header)
''','''		// Add any missing headers from the 304 to the cached response.
		cached.UpdateHeader(resp.Header)
		cached.Header().Del(cache.HeaderAge)
''')],MW+'''
func TestPlanted(t *testing.T) {
	n := 0
	tr := transport(t, nil, func(r *http.Request) (*http.Response, error) {
		n++
		if n == 1 {
			return reply(r, 200, "body", "Cache-Control", "no-cache", "Etag", `"x"`), nil
		}
		return reply(r, 304, "", "Cache-Control", "max-age=60", "Age", "100", "Etag", `"x"`), nil
	})
	for i := 0; i < 3; i++ {
		do(t, tr, "GET", "http://up/a")
	}
	if n != 3 {
		t.Fatal("a response that was stale when it came was reused")
	}
}
''',"a revalidation answered by another cache, with an Age","the age of the validation is lost, the entry is reused too long")

bug("c05-flushall","C05",PV,[(RC,'''	return c.FlushDB(ctx).Err()
''','''	return c.FlushAll(ctx).Err()
''')],'''package provider_test

import (
	"context"
	"testing"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/provider"
)

func TestPlanted(t *testing.T) {
	m, err := miniredis.Run()
	if err != nil {
		t.Fatal(err)
	}
	defer m.Close()
	p, err := provider.CreateCacheProvider("demo", provider.ProviderBackendConfig{Backend: "redis",
		Redis: provider.RedisClientConfig{Endpoint: m.Addr(), DB: 3, MaxQueueBufferSize: 100, MaxQueueConcurrency: 2}})
	if err != nil {
		t.Fatal(err)
	}
	m.DB(5).Set("of-another-application", "1")
	if err := p.Flush(context.Background()); err != nil {
		t.Fatal(err)
	}
	if !m.DB(5).Exists("of-another-application") {
		t.Fatal("the data of another application is gone")
	}
}
''',"a Redis server that several applications share","a flush deletes the data of all databases of the server")

bug("c09-invalid-matcher","C09","pkg/cache",[(H,'''		if t.Matcher != nil && t.Matcher.MatchString(p) {
''','''		if t.Matcher == nil {
			break // not a valid pattern
		}
		if t.Matcher.MatchString(p) {
''')],'''package cache_test

import (
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
)

func TestPlanted(t *testing.T) {
	p, err := provider.NewInMemoryCache(provider.DefaultInMemoryCacheConfig)
	if err != nil {
		t.Fatal(err)
	}
	c, err := cache.NewHttpCache(&cache.HttpCacheConfig{Timeouts: []cache.Timeout{{Path: "(", TTL: time.Hour}, {Path: "^/news", TTL: time.Second}}}, p)
	if err != nil {
		t.Fatal(err)
	}
	if d := c.PathTTL("/news"); d != time.Second {
		t.Fatal("the TTL of /news is ", d)
	}
}
''',"a path pattern that is not valid, in front of others","the configured TTLs behind it do not apply")

bug("c09-path-escaped","C09",M,[(H,'''c.PathTTL(lookup.Request.URL.Path)''','''c.PathTTL(lookup.Key.Path)''')],MW+'''
func TestPlanted(t *testing.T) {
	n := 0
	tr := transport(t, &cache.HttpCacheConfig{Timeouts: []cache.Timeout{{Path: "^/a b", TTL: 50 * time.Millisecond}}}, func(r *http.Request) (*http.Response, error) {
		n++
		return reply(r, 200, "body"), nil
	})
	do(t, tr, "GET", "http://up/a%20b")
	time.Sleep(200 * time.Millisecond)
	if do(t, tr, "GET", "http://up/a%20b"); n != 2 {
		t.Fatal("the entry outlived the TTL of its path")
	}
}
''',"a path with an escaped character and a TTL for it","the TTL of the path is not applied")

bug("c06-unlock-early","C06",M,[(CO,"""		inflight.L.Lock()

		// Unlock the coalescer to allow other requests to use it.
		// Important: the inflight call must be locked before to
		// guarantee no other thread can delete it.
		coalescer.Unlock()
""","""		coalescer.Unlock()

		// Unlock the coalescer to allow other requests to use it.
		inflight.L.Lock()
""")],'''package middleware_test

import (
	"net/http"
	"runtime"
	"strings"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/server/middleware"
)

type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func TestPlanted(t *testing.T) {
	c := middleware.NewCoalesced(rt(func(r *http.Request) (*http.Response, error) {
		runtime.Gosched()
		return &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: r,
			ContentLength: 1, Body: io.NopCloser(strings.NewReader("x"))}, nil
	}))
	done := make(chan struct{})
	go func() {
		defer close(done)
		var wg sync.WaitGroup
		for i := 0; i < 32; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 30000; k++ {
					req, _ := http.NewRequest("GET", "http://up/a", nil)
					c.RoundTrip(req)
				}
			}()
		}
		wg.Wait()
	}()
	select {
	case <-done:
	case <-time.After(120 * time.Second):
		t.Fatal("requests are waiting for ever")
	}
}
''',"a request for a URL starts just when the response to another one for it is released","the request waits for ever")

bug("c08-item-size","C08",PV,[(IM,"""	if size > c.maxItemSizeBytes {
""","""	if uint64(len(value)) > c.maxItemSizeBytes {
""")],PROV+'''
func TestPlanted(t *testing.T) {
	p := memory(t, 1000, 1000)
	for i := 0; i < 3; i++ {
		p.Set("small", []byte("x"), time.Hour)
		done := make(chan struct{})
		go func() { p.Set("large", make([]byte, 990), time.Hour); close(done) }()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			t.Fatal("the cache is stuck")
		}
	}
}
''',"an item that fits without what is needed to manage it, in a cache whose item size is its size","the cache is stuck")

bug("c19-slash","C19","pkg/server",[(S,'''	case aslash && bslash:
		return a + b[1:]
''','''	case aslash && bslash:
		return a + strings.TrimLeft(b, "/")
''')],SRV+'''
func TestPlanted(t *testing.T) {
	got := make(chan string, 1)
	up := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got <- r.URL.Path }))
	defer up.Close()
	s, _, _ := proxy(t, nil, &config.Upstream{Name: "a", Addr: up.URL + "/base/", Path: "/"})
	req := httptest.NewRequest("DELETE", "http://kache/", nil)
	req.URL.Path = "//x"
	s.ServeHTTP(httptest.NewRecorder(), req)
	if p := <-got; p != "/base//x" {
		t.Fatalf("//x arrived as %q", p)
	}
}
''',"a path that begins with two slashes, and an upstream whose address ends with one","the upstream gets another path")

bug("c21-ttl-memo","C21","pkg/cache",[(H,'''	for _, t := range config.Timeouts {
		if t.Matcher != nil && t.Matcher.MatchString(p) {
			return t.TTL
		}
	}
''','''	if p == config.lastPath && p != "" {
		return config.lastTTL
	}
	for _, t := range config.Timeouts {
		if t.Matcher != nil && t.Matcher.MatchString(p) {
			config.lastPath, config.lastTTL = p, t.TTL // most requests are for few paths
			return config.lastTTL
		}
	}
'''),(H,'''	// XCache specifies if the XCache debug header should be attached to responses.
	// If the response exists in the cache the header value is HIT, MISS otherwise.
	XCache bool''','''	lastPath string
	lastTTL  time.Duration

	// XCache specifies if the XCache debug header should be attached to responses.
	// If the response exists in the cache the header value is HIT, MISS otherwise.
	XCache bool''')],'''package cache_test

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
)

func TestPlanted(t *testing.T) {
	p, err := provider.NewInMemoryCache(provider.DefaultInMemoryCacheConfig)
	if err != nil {
		t.Fatal(err)
	}
	c, err := cache.NewHttpCache(&cache.HttpCacheConfig{Timeouts: []cache.Timeout{{Path: "^/a1", TTL: time.Hour}, {Path: "^/bb", TTL: time.Second}}}, p)
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 2000; k++ {
				c.PathTTL(fmt.Sprint([]string{"/a1", "/bb"}[(i+k)%2]))
			}
		}()
	}
	wg.Wait()
}
''',"concurrent requests for paths with a TTL","a data race: a response may be stored with the TTL of another path",race=True)

bug("c20-head-flight","C20",M,[(T,'''	if cacheable && shouldUpdateCachedEntry && lookup.Request.Method != "HEAD" &&
''','''	if cacheable && shouldUpdateCachedEntry && resp.ContentLength != 0 && lookup.Request.Method != "HEAD" &&
''')],MW+'''
func TestPlanted(t *testing.T) {
	n := 0
	tr := transport(t, nil, func(r *http.Request) (*http.Response, error) {
		n++
		return reply(r, 200, "", "Cache-Control", "max-age=60"), nil
	})
	do(t, tr, "GET", "http://up/a")
	if do(t, tr, "GET", "http://up/a"); n != 1 {
		t.Fatal("a fresh empty response was not reused")
	}
}
''',"a cacheable response with an empty body","empty responses are never reused")
