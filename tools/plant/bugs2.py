import importlib.util,os
_s=importlib.util.spec_from_file_location("b1",os.path.join(os.path.dirname(os.path.abspath(__file__)),"bugs1.py")); b1=importlib.util.module_from_spec(_s); _s.loader.exec_module(b1)
MW,PROV,SRV=b1.MW,b1.PROV,b1.SRV
H,T,CO,CB,CC,S,HA,LI,IM,RC,CA,KU,RQ,AP,FI,KA,LO,EN,M,PV=(getattr(b1,x) for x in "H T CO CB CC S HA LI IM RC CA KU RQ AP FI KA LO EN M PV".split())
KEY="pkg/cache/key.go"; QU="pkg/provider/queue.go"
BUGS=[]
def bug(id,property,pkg,edits,demo,needs,breaks): BUGS.append(dict(id=id,property=property,pkg=pkg,edits=edits,demo=demo,needs=needs,breaks=breaks))

bug("c05-purge-order","C05",PV,[(CA,'''	err := c.inner.Purge(ctx, pattern)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.gen++
	_ = c.outer.Purge(ctx, pattern)
	return err
''','''	// Local copies first, they are served without asking the inner cache.
	c.local(func() { _ = c.outer.Purge(ctx, pattern) })
	return c.inner.Purge(ctx, pattern)
'''),(CA,'''
// Flush deletes all elements from the cache.
''','''
// local changes the outer cache.
func (c *Cached) local(f func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.gen++
	f()
}

// Flush deletes all elements from the cache.
''')],PROV+'''
func TestPlanted(t *testing.T) {
	p, m := redisCache(t, true)
	p.Set("k", []byte("v"), time.Hour)
	until(t, "not stored", func() bool { return m.Exists("k") })
	var wg sync.WaitGroup
	stop := make(chan struct{})
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					p.Get(bg, "k")
				}
			}
		}()
	}
	defer wg.Wait()
	defer close(stop)
	for i := 0; i < 300; i++ {
		p.Set("k", []byte("v"), time.Hour)
		until(t, "not stored", func() bool { return m.Exists("k") })
		if err := p.Purge(bg, "k*"); err != nil {
			t.Fatal(err)
		}
		if p.Get(bg, "k") != nil {
			t.Fatalf("round %d: the entry is still there after its purge", i)
		}
	}
}
''',"layered cache: a request fetches the entry from Redis after the local copy was purged and before the one in Redis is","the purged entry comes back into the node's memory and is served until it expires")

bug("c09-path-last","C09","pkg/cache",[(H,'''	for _, t := range config.Timeouts {
		if t.Matcher != nil && t.Matcher.MatchString(p) {
			return t.TTL
		}
	}
	return config.defaultTTL()
''','''	ttl := config.defaultTTL()
	for _, t := range config.Timeouts {
		if t.Matcher != nil && t.Matcher.MatchString(p) {
			ttl = t.TTL
		}
	}
	return ttl
''')],'''package cache_test

import (
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
)

func TestPlanted(t *testing.T) {
	c, err := cache.NewHttpCache(&cache.HttpCacheConfig{DefaultTTL: "60s", Timeouts: []cache.Timeout{
		{Path: "^/news/live", TTL: time.Second}, {Path: "^/news", TTL: time.Hour}}}, nil)
	if err != nil {
		t.Fatal(err)
	}
	if ttl := c.PathTTL("/news/live/1"); ttl != time.Second {
		t.Fatalf("the TTL is %v, not the one of the first matching path", ttl)
	}
}
''',"two path patterns that overlap, the more specific one first","entries get the TTL of a later, wider pattern and are served beyond their own")

bug("c08-evict-one","C08",PV,[(IM,'''	for c.curSize+size > c.maxSizeBytes {
		if _, _, ok''','''	if c.curSize+size > c.maxSizeBytes {
		if _, _, ok''')],PROV+'''
func TestPlanted(t *testing.T) {
	p := memory(t, 1000, 900)
	for i := 0; i < 9; i++ {
		p.Set(fmt.Sprint("k", i), make([]byte, 80), time.Hour)
	}
	p.Set("big", make([]byte, 800), time.Hour)
	n := 0
	for _, k := range p.Keys(bg, "") {
		n += len(p.Get(bg, k))
	}
	if n > 1000 {
		t.Fatalf("%d bytes are cached, the limit is 1000", n)
	}
}
''',"a new entry that is larger than the least recently used one","the memory cache grows beyond its limit")

bug("c12-first-subset","C12","pkg/cluster",[(KU,'''		if port == 0 {
			continue
		}
''','''		if port == 0 {
			break
		}
''')],'''package cluster_test

import (
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cluster"
)

func TestPlanted(t *testing.T) {
	got := make(chan string, 10)
	peer := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got <- r.Method + " " + r.URL.Path }))
	defer peer.Close()
	host, port, _ := net.SplitHostPort(strings.TrimPrefix(peer.URL, "http://"))
	api := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		fmt.Fprintf(w, `{"kind":"Endpoints","apiVersion":"v1","metadata":{"name":"kache"},"subsets":[
			{"addresses":[{"ip":"10.1.2.3"}],"ports":[{"name":"web","port":80}]},
			{"addresses":[{"ip":"%s"}],"ports":[{"name":"api","port":%s}]}]}`, host, port)
	}))
	defer api.Close()
	home := t.TempDir()
	t.Setenv("HOME", home)
	os.Unsetenv("KUBERNETES_SERVICE_HOST")
	if err := os.MkdirAll(filepath.Join(home, ".kube"), 0o755); err != nil {
		t.Fatal(err)
	}
	cfg := fmt.Sprintf("apiVersion: v1\\nkind: Config\\nclusters: [{name: c, cluster: {server: '%s'}}]\\ncontexts: [{name: c, context: {cluster: c, user: u}}]\\nusers: [{name: u, user: {}}]\\ncurrent-context: c\\n", api.URL)
	if err := os.WriteFile(filepath.Join(home, ".kube", "config"), []byte(cfg), 0o644); err != nil {
		t.Fatal(err)
	}
	c, err := cluster.NewKubernetesClient("default", "kache")
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	req := httptest.NewRequest("PURGE", "/", nil)
	req.Header.Set("X-Purge-Key", "*")
	c.Broadcast(req, "api", "DELETE", "/api/cache/invalidate")
	select {
	case m := <-got:
		if m != "DELETE /api/cache/invalidate" {
			t.Fatal(m)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the broadcast did not reach the node")
	}
}
''',"the service has endpoints in several subsets, and one without the API port comes first","nodes in later subsets never hear of purges and configuration updates")

bug("c12-queue-drop","C12","pkg/cluster",[(KU,'''		c.broadcast.Queue <- Message{out, 0}
''','''		// Do not let the client wait for the other nodes.
		select {
		case c.broadcast.Queue <- Message{out, 0}:
		default:
			log.Error().Str("url", url).Msg("Broadcast queue is full")
		}
''')],'''package cluster_test

import (
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cluster"
)

func TestPlanted(t *testing.T) {
	var mu sync.Mutex
	got := map[string]bool{}
	slow := make(chan struct{})
	peer := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		<-slow
		mu.Lock()
		got[r.Header.Get("X-Purge-Key")] = true
		mu.Unlock()
	}))
	defer peer.Close()
	host, port, _ := net.SplitHostPort(strings.TrimPrefix(peer.URL, "http://"))
	api := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		fmt.Fprintf(w, `{"kind":"Endpoints","apiVersion":"v1","metadata":{"name":"kache"},"subsets":[
			{"addresses":[{"ip":"%s"}],"ports":[{"name":"api","port":%s}]}]}`, host, port)
	}))
	defer api.Close()
	home := t.TempDir()
	t.Setenv("HOME", home)
	os.Unsetenv("KUBERNETES_SERVICE_HOST")
	if err := os.MkdirAll(filepath.Join(home, ".kube"), 0o755); err != nil {
		t.Fatal(err)
	}
	cfg := fmt.Sprintf("apiVersion: v1\\nkind: Config\\nclusters: [{name: c, cluster: {server: '%s'}}]\\ncontexts: [{name: c, context: {cluster: c, user: u}}]\\nusers: [{name: u, user: {}}]\\ncurrent-context: c\\n", api.URL)
	if err := os.WriteFile(filepath.Join(home, ".kube", "config"), []byte(cfg), 0o644); err != nil {
		t.Fatal(err)
	}
	c, err := cluster.NewKubernetesClient("default", "kache")
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	time.AfterFunc(15*time.Second, func() { close(slow) })
	for i := 0; i < 60; i++ {
		req := httptest.NewRequest("PURGE", "/", nil)
		req.Header.Set("X-Purge-Key", fmt.Sprint("k", i))
		c.Broadcast(req, "api", "DELETE", "/api/cache/invalidate")
	}
	for i := 0; i < 400; i++ {
		mu.Lock()
		n := len(got)
		mu.Unlock()
		if n == 60 {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	t.Fatalf("only %d of 60 purges reached the node", len(got))
}
''',"more purges than the queue holds while another node is slow or down","purges are dropped and the other node keeps serving the purged entries")

bug("c14-short-grace","C14","pkg/server",[(LI,'''	timeout := 5 * time.Second
''','''	timeout := 500 * time.Millisecond
''')],'''package server

import (
	"context"
	"io"
	"net/http"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/config"
)

func TestPlanted(t *testing.T) {
	l, err := NewListener(context.Background(), &config.Listener{Addr: "127.0.0.1:0"}, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		time.Sleep(800 * time.Millisecond)
		_, _ = io.WriteString(w, "done")
	}))
	if err != nil {
		t.Fatal(err)
	}
	go l.Start(context.Background())
	res := make(chan string, 1)
	go func() {
		resp, err := http.Get("http://" + l.listener.Addr().String() + "/")
		if err != nil {
			res <- err.Error()
			return
		}
		b, _ := io.ReadAll(resp.Body)
		res <- string(b)
	}()
	time.Sleep(200 * time.Millisecond)
	l.Shutdown(context.Background())
	if s := <-res; s != "done" {
		t.Fatalf("a request in flight was lost: %s", s)
	}
}
''',"a request that still takes more than half a second when the shutdown begins","requests in flight are cut off although they would have been completed in time")

bug("c17-real-ip","C17","pkg/api",[(FI,'''	// Otherwise, parse the X-Real-Ip header if it exists.
	if xri := req.Header.Get("X-Real-Ip"); len(xri) > 0 {
		return netip.ParseAddr(xri)
	}

	return netip.ParseAddr(addr)
''','''	// Otherwise, parse the X-Real-Ip header if it exists.
	if ip, err := netip.ParseAddr(req.Header.Get("X-Real-Ip")); err == nil {
		return ip, nil
	}

	return netip.ParseAddr(addr)
'''),(FI,'''		last := strings.TrimSpace(addrs[len(addrs)-1])
		return netip.ParseAddr(last)
''','''		last := strings.TrimSpace(addrs[len(addrs)-1])
		if ip, err := netip.ParseAddr(last); err == nil {
			return ip, nil
		}
''')],'''package api

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestPlanted(t *testing.T) {
	f, err := NewIPFilter("10.0.0.1")
	if err != nil {
		t.Fatal(err)
	}
	req := httptest.NewRequest("GET", "/api/cache/keys", nil)
	req.RemoteAddr = "10.0.0.1:1234"
	req.Header.Set("X-Forwarded-For", "10.9.9.9, unknown")
	ok := false
	f.Wrap(func(http.ResponseWriter, *http.Request) { ok = true })(httptest.NewRecorder(), req)
	if ok {
		t.Fatal("a request whose origin is unknown was let in")
	}
}
''',"a proxy on an allowed address forwards a request with an address that cannot be parsed","requests are taken for those of the proxy itself")

bug("c18-store-first","C18","pkg/cache",[(H,'''	// Safely update config.
	c.config.Store(config)
}
''','''}
'''),(H,'''	// Compile custom timeout matchers.
''','''	// Safely update config.
	c.config.Store(config)

	// Compile custom timeout matchers.
''')],'''package cache_test

import (
	"fmt"
	"sync/atomic"
	"testing"

	"github.com/kacheio/kache/pkg/cache"
)

func TestPlanted(t *testing.T) {
	mk := func() *cache.HttpCacheConfig {
		c := &cache.HttpCacheConfig{Exclude: &cache.Exclude{}}
		for i := 0; i < 300; i++ {
			c.Exclude.Path = append(c.Exclude.Path, fmt.Sprintf("^/x%d(a|b)+[0-9]{1,30}$", i))
		}
		c.Exclude.Path = append(c.Exclude.Path, "^/private")
		return c
	}
	c, err := cache.NewHttpCache(mk(), nil)
	if err != nil {
		t.Fatal(err)
	}
	var stop, bad atomic.Bool
	done := make(chan struct{})
	go func() {
		defer close(done)
		for !stop.Load() {
			if !c.IsExcludedPath("/private/1") {
				bad.Store(true)
			}
		}
	}()
	for i := 0; i < 20; i++ {
		c.UpdateConfig(mk())
	}
	stop.Store(true)
	<-done
	if bad.Load() {
		t.Fatal("a path that every configuration excludes was not excluded")
	}
}
''',"a request is handled while the configuration is being replaced","excluded paths are cached at the moment of an update")

bug("c04-etag-updated","C04",M,[(T,'''		shouldUpdateCachedEntry = (resEtag == "" || (cacEtag != "" && cacEtag == resEtag))
''','''		shouldUpdateCachedEntry = resEtag == "" || cacEtag == "" || cacEtag == resEtag
''')],MW+'''
func TestPlanted(t *testing.T) {
	n := 0
	tr := transport(t, nil, func(r *http.Request) (*http.Response, error) {
		n++
		switch n {
		case 1:
			return reply(r, 200, "first", "Cache-Control", "max-age=60", "Last-Modified", "Mon, 01 Jan 2024 00:00:00 GMT"), nil
		case 2:
			return reply(r, 304, "", "Cache-Control", "max-age=60", "Etag", `"two"`), nil
		}
		return reply(r, 200, "second", "Cache-Control", "max-age=60", "Etag", `"two"`), nil
	})
	do(t, tr, "GET", "http://up/a")
	do(t, tr, "GET", "http://up/a", "Cache-Control", "no-cache")
	if _, body := do(t, tr, "GET", "http://up/a"); body != "second" {
		t.Fatalf("a response without etag was kept although the 304 named one: %q", body)
	}
}
''',"a response without ETag is validated by its modification time and the 304 carries an ETag","a representation that the validation did not confirm stays in the cache as fresh")

