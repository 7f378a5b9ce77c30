//go:build go1.22

package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
)

// Plans are generated here: a seed is a configuration, a set of resources, a
// schedule policy, a history of operations and a sequence of faults. Which of
// the features of a run are on at all is decided first (swarm), so that runs
// differ in kind and not only in detail.

type gen struct {
	r    *rand.Rand
	p    *Plan
	tier string
	mix  mix
	hot  []string // targets
}

// mix are the shares, in per cent, of the features of client requests.
type mix struct {
	auth, ccReq, cond, rng, head, post, cancel, slow, keep, query, odd, exhdr, burst, spell int
}

func (g *gen) pct(n int) bool { return g.r.IntN(100) < n }
func (g *gen) n(a, b int) int { return a + g.r.IntN(b-a+1) }
func pickOf[T any](g *gen, l ...T) T {
	return l[g.r.IntN(len(l))]
}

func genPlan(prop string, seed uint64, tier string) *Plan {
	g := &gen{r: rand.New(rand.NewPCG(seed, h64(prop))), tier: tier}
	p := &Plan{Prop: prop, Seed: seed, Nodes: 1, Origins: 1, EndMs: 3000}
	g.p = p
	g.sched()
	p.Config = ConfigPlan{Backend: "inmemory", Upstreams: []UpstreamPlan{{Name: "a", Path: "/", Origin: 0}}}
	p.Config.Cache.XHeader = !g.pct(10)
	p.Config.Debug = g.pct(30)
	p.LatUs = int64(pickOf(g, 20, 150, 150, 800))
	p.JitUs = int64(pickOf(g, 1, 10, 400, 400, 3000))
	if g.pct(15) {
		p.Flags = append(p.Flags, "short-reads")
	}
	if prop == "C21" {
		// Any workload, on one node: every kind of work at the same time.
		prop = pickOf(g, "C01", "C02", "C05", "C05", "C06", "C06", "C07", "C08", "C09", "C10", "C10", "C11", "C13", "C13", "C13", "C14", "C15", "C17", "C18", "C19", "C20", "C22", "C23")
		p.Scenario = "as " + prop
	}
	switch prop {
	case "C01":
		g.c01()
	case "C02":
		g.c02()
	case "C03":
		g.c03()
	case "C04":
		g.c04()
	case "C05":
		g.c05()
	case "C06":
		g.c06()
	case "C07":
		g.c07()
	case "C08":
		g.c08()
	case "C09":
		g.c09()
	case "C10":
		g.c10()
	case "C11":
		g.c11()
	case "C12":
		g.c12()
	case "C13":
		g.c13()
	case "C14":
		g.c14()
	case "C15":
		g.c15()
	case "C16":
		g.c16()
	case "C17":
		g.c17()
	case "C18":
		g.c18()
	case "C19":
		g.c19()
	case "C20":
		g.c20()
	case "C22":
		g.c22()
	case "C23":
		g.c23()
	default:
		panic("no generator for " + prop)
	}
	if c := &p.Config.Cache; p.Prop == "C21" && !c.NoSection && len(c.Timeouts) == 0 && g.pct(40) {
		// lifetimes by path, looked up by every response kept
		for _, path := range []string{pickOf(g, "^/a", "^/b", "png$"), pickOf(g, "/", "^/a/x$", "^/")} {
			c.Timeouts = append(c.Timeouts, TimeoutPlan{Path: path, TTLMs: int64(g.n(500, 5000))})
		}
	}
	switch prop {
	case "C01", "C03", "C04", "C06", "C07", "C11", "C15", "C16", "C19":
		// whether a response is kept may depend on its size, which has to be
		// found out by reading it
		if c := &p.Config.Cache; g.pct(8) && !c.NoSection && len(c.ExContent) == 0 {
			c.ExContent = []ContentPlan{{Type: pickOf(g, "^text/", "plain", "^text/plain$"), Size: pickOf(g, 100, 400, 2000, 9000)}}
		}
	}
	sort.SliceStable(p.Ops, func(i, j int) bool { return p.Ops[i].At < p.Ops[j].At })
	sort.SliceStable(p.Faults, func(i, j int) bool { return p.Faults[i].At < p.Faults[j].At })
	for i := range p.Faults {
		f := &p.Faults[i]
		if f.At+f.DurMs > p.EndMs {
			f.DurMs = max(1, p.EndMs-f.At)
		}
	}
	return p
}

func (g *gen) sched() {
	s := &g.p.Sched
	s.Seed = g.r.Uint64()
	s.Policy = pickOf(g, int32(0), 1, 1, 1, 2, 2)
	s.MixN = pickOf(g, uint32(3), 10, 40)
	s.YieldN = pickOf(g, uint32(0), 4, 10, 30, 100)
	if g.pct(25) {
		s.StallN = pickOf(g, uint32(100), 300, 1000)
		s.StallMaxUs = pickOf(g, int64(200), 2000, 10000)
	}
}

func (g *gen) backend(mem, redis, layered int) {
	c := &g.p.Config
	switch k := g.r.IntN(mem + redis + layered); {
	case k < mem:
	case k < mem+redis:
		c.Backend = "redis"
	default:
		c.Backend, c.Layered = "redis", true
		if g.pct(50) {
			c.LayeredMs = int64(g.n(300, 4000))
		}
		g.memTTL()
	}
	if c.Backend == "inmemory" {
		g.memTTL()
	}
	if c.Backend == "redis" && g.pct(30) {
		c.QueueConc = g.n(1, 3)
	}
	g.redisServer()
}

// redisServer makes the Redis server one that several applications share, and
// that wants to know who connects.
func (g *gen) redisServer() {
	c := &g.p.Config
	if c.Backend != "redis" {
		return
	}
	if g.pct(40) {
		c.RedisDB = pickOf(g, 1, 2, 7, 15)
	}
	if g.pct(30) {
		c.RedisPass = pickOf(g, "secret", "s p: #\"'", "ünï", "0")
		if g.pct(50) {
			c.RedisUser = pickOf(g, "kache", "default")
		}
	}
}

func (g *gen) memTTL() {
	c := &g.p.Config
	c.MemTTL = pickOf(g, "", "", "120s", "2s")
}

func (g *gen) nodes() {
	if g.p.Prop == "C21" {
		return
	}
	if g.p.Config.Backend == "redis" && g.pct(45) {
		g.p.Nodes = 2
	}
}

func (g *gen) strict(lax int) {
	f, t := false, true
	switch {
	case g.pct(lax):
		g.p.Config.Cache.Strict = &f
	case g.pct(70):
		g.p.Config.Cache.Strict = &t
	}
}

// hosts gives upstreams names, or one address with several ports.
func (g *gen) hosts() {
	how := g.r.IntN(10)
	if g.p.Config.Upstreams[0].Path == "/v1/" && g.pct(60) {
		how = pickOf(g, 0, 2)
	}
	for i := range g.p.Config.Upstreams {
		u := &g.p.Config.Upstreams[i]
		switch how {
		case 0:
			u.Host = fmt.Sprintf("10.0.2.1:%d", 8000+u.Origin)
		case 1:
			u.Host = fmt.Sprintf("o%d.example", u.Origin)
		case 2:
			u.Host = fmt.Sprintf("sites.example:%d", 8080+u.Origin)
		case 3:
			u.Host = pickOf(g, "sites.example", "sites.example:8081", "a.sites.example")
			if u.Origin > 0 {
				u.Host = fmt.Sprintf("%d.sites.example", u.Origin)
			}
		}
	}
}

func (g *gen) ups() {
	c := &g.p.Config
	switch g.r.IntN(8) {
	case 7:
		// the same upstream path at different upstreams
		g.p.Origins = 2
		c.Upstreams = []UpstreamPlan{{Name: "one", Path: "/v1/", Origin: 1}, {Name: "a", Path: "/", Origin: 0, Base: pickOf(g, "/v1", "/v1", "/v1/")}}
	case 5:
		g.p.Origins = 2
		c.Upstreams = []UpstreamPlan{{Name: "b", Path: "/b", Origin: 1, Base: "/v1"}, {Name: "a", Path: "/", Origin: 0, Base: pickOf(g, "/v2", "/v1", "/v1/")}}
	case 6:
		g.p.Origins = 3
		c.Upstreams = []UpstreamPlan{{Name: "deep", Path: "/a/deep", Origin: 2}, {Name: "b", Path: "/b", Origin: 1}, {Name: "a", Path: "/", Origin: 0}}
	case 0:
		g.p.Origins = 2
		c.Upstreams = []UpstreamPlan{{Name: "b", Path: "/b/", Origin: 1}, {Name: "a", Path: "/", Origin: 0}}
	case 1:
		c.Upstreams[0].Base = pickOf(g, "/base", "/base", "/v%2F1", "/%7euser", "/b%20c/")
	case 2:
		g.p.Origins = 2
		c.Upstreams = []UpstreamPlan{{Name: "a", Path: "/a", Origin: 0}, {Name: "b", Path: "/b", Origin: 1}}
	}
	g.hosts()
}

// originPath is where a client path ends up.
func (g *gen) originPath(p string) (int, string) {
	for _, u := range g.p.Config.Upstreams {
		if strings.HasPrefix(p, u.Path) {
			return u.Origin, joinSlash(u.Base, p)
		}
	}
	return -1, p
}

// res adds a resource that clients reach by path p.
func (g *gen) res(p string, f func(*Resource)) *Resource {
	o, up := g.originPath(p)
	if o < 0 {
		return nil
	}
	r := Resource{Origin: o, Path: up, Status: 200, Size: g.size(), ETag: g.pct(50), LastMod: g.pct(30), Ranges: g.pct(20)}
	r.Extra = map[string]string{}
	r.Framing = pickOf(g, "", "", "", "chunked", "close")
	if r.Framing == "chunked" && g.pct(15) {
		r.Extra["trailer"] = "1"
	}
	if g.pct(60) {
		r.DelayMs = g.n(1, 60)
	}
	if f != nil {
		f(&r)
	}
	if len(r.Extra) == 0 {
		r.Extra = nil
	}
	g.p.Resources = append(g.p.Resources, r)
	return &g.p.Resources[len(g.p.Resources)-1]
}

func (g *gen) size() int {
	if g.pct(2) {
		return pickOf(g, 4096, 32768, 65536, 150000, 400000)
	}
	return pickOf(g, 120, 200, 300, 500, 1000, 3000, 9000, 40000)
}

func cc(r *Resource, v string) {
	if v != "" {
		r.Headers = append(r.Headers, [2]string{"Cache-Control", v})
	}
}

func (g *gen) ccCache() string {
	return pickOf(g, "max-age=1", "max-age=2", "max-age=3", "max-age=5", "max-age=60", "max-age=600", "public, max-age=4", "s-maxage=2, max-age=50", "s-maxage=30, max-age=1", "max-age=30, must-revalidate", "max-age=1, must-revalidate",
		pickOf(g, "max-age=2147483648", "max-age=4294967298", "max-age=99999999999", "s-maxage=18446744073709551617, max-age=1", "max-age=31536000"))
}

func (g *gen) ccAny() string {
	if g.pct(55) {
		return g.ccCache()
	}
	return pickOf(g, "", "no-store", "private", "private, max-age=60", "no-cache", "no-cache, max-age=60", "max-age=0", "no-store, max-age=60", "must-revalidate", "public",
		"Max-Age=2", "NO-STORE", "Private, Max-Age=60", "No-Cache", "max-age=\"3\"", "max-age=bogus", "max-age=60,private", " max-age=2 , x-ext=\"a\"", "proxy-revalidate, max-age=1",
		"private=\"x-user\", max-age=60", "max-age=60, private=\"set-cookie\"", "no-cache=\"set-cookie\", max-age=60", "max-age=60,no-store", "max-age=60 ,  No-Store", "public, no-store", "no-transform, private, max-age=30",
		"max-age=60, s-maxage=1", "s-maxage=0, max-age=60", "max-age=2, stale-if-error=60", "max-age=1, stale-while-revalidate=60", "immutable, max-age=2", "max-age=1,, max-age=1", "\tmax-age=2\t,\tpublic")
}

func (g *gen) pathPool(n int) []string {
	l := []string{"/a", "/b", "/a/x", "/b/y", "/a/deep/er", "/b/z.css", "/a/img.png", "/b/q", "/a/imgxpng", "/b/z(1)", "/a/[x]"}
	if g.p.Config.Upstreams[0].Path == "/" {
		l = append(l, "/", "/c", "/c/1", "/favicon.ico")
	}
	if g.pct(20) {
		l = append(l, "/b/q%20r", "/b/%C3%A9", "/a/1+1", "/a/dir/", "/a/x%2Fy", "/b/100%25")
	}
	g.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l[:min(n, len(l))]
}

// resources adds n resources with f applied; the hot targets are theirs.
func (g *gen) resources(n int, f func(*Resource)) {
	for _, p := range g.pathPool(n) {
		if g.res(p, f) != nil {
			g.hot = append(g.hot, p)
		}
		if t := "/v1" + p; g.p.Config.Upstreams[0].Path == "/v1/" && g.pct(70) && g.res(t, f) != nil {
			g.hot = append(g.hot, t) // the other upstream has it as well
		}
	}
}

// dates has a resource tell its times in other notations, or wrongly.
func (g *gen) dates(r *Resource) {
	if g.pct(50) {
		r.Extra["date"] = pickOf(g, "850", "850", "ansi", "ansi", "yesterday", "0", "2023-11-14T22:13:20Z", "ancient", "ancient")
	}
	if g.pct(70) {
		r.Extra["expires"] = pickOf(g, "850", "850", "ansi", "ansi", "0", "-1", "never", "old", "2033-11-14T22:13:20Z")
		if r.ExpireMs == 0 {
			r.ExpireMs = pickOf(g, 1500, 4000, 60000)
		}
	}
}

func (g *gen) weird(r *Resource) {
	if g.pct(4) {
		g.dates(r)
	}
	if g.pct(8) {
		r.NoDate = true
	}
	if g.pct(10) {
		r.Extra["lower"] = "1"
	}
	if g.p.Prop != "C15" && g.pct(5) {
		r.Extra["noid"] = "1"
	}
	if g.pct(12) {
		r.Extra["gzip"] = "1"
	}
	if g.pct(6) {
		r.Extra["hop"] = "1"
	}
	if g.pct(10) {
		r.Exp304Ms = pickOf(g, -1000, 1500, 60000)
	}
	if g.pct(8) {
		cca := &Resource{}
		cc(cca, g.ccAny())
		r.Alt = append([][2]string{{"X-Alt", "1"}}, cca.Headers...)
	}
	if g.pct(12) {
		r.ExpireMs = pickOf(g, -5000, 0, 1500, 4000, 60000)
	}
	if g.pct(10) {
		r.Status = pickOf(g, 404, 301, 500, 204, 410, 302, 203, 300, 308, 405, 414, 451, 501, 307, 403, 503, 201)
	}
	if g.pct(6) {
		r.Headers = append(r.Headers, [2]string{"Set-Cookie", "a=1"}, [2]string{"Set-Cookie", "b=2"})
	}
	if g.pct(6) {
		r.Headers = append(r.Headers, [2]string{"X-Long", strings.Repeat("v", 3000)})
	}
	if g.pct(8) {
		r.Headers = append(r.Headers, [2]string{"Age", fmt.Sprint(pickOf(g, 0, 1, 3, 20))})
	}
	if g.pct(4) {
		r.Extra["empty"] = "1"
	}
}

// respell spells a target in an equivalent way.
func (g *gen) respell(t string) string {
	p, q, has := strings.Cut(t, "?")
	if len(p) < 2 {
		return t
	}
	switch g.r.IntN(5) {
	case 0:
		p = "/" + p
	case 1:
		p = p[:1] + fmt.Sprintf("%%%02x", p[1]) + p[2:]
	case 2:
		if strings.Contains(p[max(0, len(p)-3):], "%") {
			break
		}
		p = p[:len(p)-1] + fmt.Sprintf("%%%02X", p[len(p)-1])
	case 3:
		p = "/." + p
	case 4:
		p = "/q/.." + p
	}
	if has {
		p += "?" + q
	}
	return p
}

func (g *gen) query(t string) string {
	if g.pct(25) {
		return t + pickOf(g, "?x=1&x=2", "?x=2&x=1", "?x=1&x=1", "?X=1", "?x=1&", "?&x=1", "?x=1&y=2&x=2", "?x=2&y=2&x=1", "?a=1;b=2", "?x=1;y=2&x=1", "?x=", "?=1", "?x[]=1&x[]=2", "?x=%31", "?x=a=b", "?x=%E2%82%AC", "?y=1", "?x=1?y=2", "?x=1#", "?x=a/b", "?x=a%2Fb", "?xx=1", "?x=11")
	}
	return t + pickOf(g, "", "?x=1", "?x=1&y=2", "?y=2&x=1", "?x=2", "?x=%20a", "?x=+a", "?q=a%26b", "?x", "?")
}

func (g *gen) reqCC() [][2]string {
	return pickOf(g, [][2]string{{"Cache-Control", "no-cache"}}, [][2]string{{"Cache-Control", "no-store"}}, [][2]string{{"Cache-Control", "max-age=0"}},
		[][2]string{{"Cache-Control", "max-age=1"}}, [][2]string{{"Cache-Control", "max-age=3"}}, [][2]string{{"Cache-Control", "min-fresh=2"}}, [][2]string{{"Cache-Control", "max-stale"}},
		[][2]string{{"Cache-Control", "max-stale=2"}}, [][2]string{{"Pragma", "no-cache"}}, [][2]string{{"Cache-Control", "No-Cache"}}, [][2]string{{"Cache-Control", "only-if-cached"}},
		[][2]string{{"Cache-Control", "max-age=2, min-fresh=1"}}, [][2]string{{"Cache-Control", "NO-STORE"}}, [][2]string{{"Cache-Control", "max-age=60"}, {"Cache-Control", "no-store"}},
		[][2]string{{"Cache-Control", "max-stale=1, no-cache"}}, [][2]string{{"Pragma", "no-cache"}, {"Cache-Control", "max-stale=60"}}, [][2]string{{"Cache-Control", "no-transform, no-store"}}, [][2]string{{"Cache-Control", "max-stale=5, max-age=2"}},
		[][2]string{{"Cache-Control", pickOf(g, "min-fresh=99999999999", "max-stale=99999999999", "max-age=18446744073709551616", "min-fresh=4294967297")}})
}

// request makes one client request at time at for target t.
func (g *gen) request(at int64, t string) Op {
	m := &g.mix
	op := Op{At: at, Kind: "req", Method: "GET", Target: t, Client: g.r.IntN(6), Node: g.r.IntN(g.p.Nodes)}
	if g.pct(m.query) {
		op.Target = g.query(t)
	}
	if g.pct(m.spell) {
		op.Target = g.respell(op.Target)
	}
	switch {
	case g.pct(m.head):
		op.Method = "HEAD"
	case g.pct(m.post):
		op.Method = pickOf(g, "POST", "PUT", "DELETE", "PATCH", "OPTIONS")
		if op.Method == "POST" || op.Method == "PUT" || op.Method == "PATCH" {
			op.BodyLen = pickOf(g, 0, 10, 400, 9000)
			op.Chunked = g.pct(30)
		}
	}
	add := func(k, v string) { op.Headers = append(op.Headers, [2]string{k, v}) }
	if g.pct(m.auth) {
		add("Authorization", pickOf(g, "Bearer ", "Bearer ", "Basic dXNlcjo=", "bearer ", "BASIC ", "Digest username=", "Token ", "x", "")+fmt.Sprint(g.r.IntN(3)))
	}
	if g.pct(m.ccReq) {
		op.Headers = append(op.Headers, g.reqCC()...)
	}
	if g.pct(m.cond) {
		_, up := g.originPath(strings.SplitN(t, "?", 2)[0])
		o, _ := g.originPath(strings.SplitN(t, "?", 2)[0])
		et := etagOf(max(o, 0), up, 1+g.r.IntN(2))
		switch g.r.IntN(9) {
		case 6:
			add("If-Unmodified-Since", "Tue, 14 Nov 2023 23:00:00 GMT")
		case 7:
			add("If-None-Match", "W/"+et)
			add("If-Modified-Since", "Tue, 14 Nov 2023 22:00:00 GMT")
		case 8:
			add(pickOf(g, "If-None-Match", "If-Match"), "*")
		case 0, 1:
			add("If-None-Match", et)
		case 2:
			add("If-None-Match", `"nothing", `+et)
		case 3:
			add("If-Modified-Since", "Tue, 14 Nov 2023 22:00:00 GMT")
		case 4:
			add("If-Match", et)
		case 5:
			add("If-None-Match", `"unknown"`)
		}
	}
	if g.pct(m.rng) {
		add("Range", pickOf(g, "bytes=0-9", "bytes=10-49", "bytes=-20", "bytes=50-", "bytes=0-"))
		if g.pct(15) {
			o, up := g.originPath(strings.SplitN(t, "?", 2)[0])
			add("If-Range", etagOf(max(o, 0), up, 1))
		}
	}
	if g.pct(m.cancel) {
		op.Cancel = int64(pickOf(g, g.n(100, 3000), g.n(500, 30000), g.n(1000, 120000)))
		if g.pct(30) {
			op.Mode = "rst"
		}
	}
	if g.pct(m.slow) {
		op.SlowMs = int64(g.n(1, 400))
	}
	op.Keep = g.pct(m.keep)
	if g.pct(m.odd) {
		switch g.r.IntN(4) {
		case 0:
			op.Mode, op.Cancel = "half", 0
			op.Keep = false
		case 1:
			op.Mode, op.Cancel = "hang", 0
			op.Keep = false
		case 2:
			op.Text = pickOf(g, "GET /a HTTP/1.1\r\n\r\n", "BLURB\r\n\r\n", "GET a HTTP/1.1\r\nHost: x\r\n\r\n", "GET /a%zz HTTP/1.1\r\nHost: x\r\n\r\n", "GET /a HTTP/9.9\r\nHost: x\r\n\r\n",
				"GET /a HTTP/1.1\r\nHost: x\r\nContent-Length: -4\r\n\r\n", "OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n", "GET http://other.example/a HTTP/1.1\r\nHost: x\r\n\r\n", "CONNECT x:443 HTTP/1.1\r\nHost: x:443\r\n\r\n",
				"GET /a HTTP/1.0\r\n\r\n", "POST /a HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n")
			op.Keep = false
		case 3:
			op.Target = pickOf(g, "/nowhere", "/b/../a", "//a", "/a/", "/%61", "/a%2Fx", "/b?%zz=1", "/a;p=1")
		}
	}
	if g.pct(10) {
		op.Arg = 3128 // the other listener
	}
	return op
}

// traffic adds about n client requests between from and to: single ones,
// bursts of the same target, and bursts over everything.
func (g *gen) traffic(n int, from, to int64) {
	if len(g.hot) == 0 {
		g.hot = []string{"/a"}
	}
	for n > 0 {
		at := from + g.r.Int64N(max(1, to-from))
		t := g.hot[g.r.IntN(len(g.hot))]
		if g.pct(40) {
			t = g.hot[0]
		}
		if g.pct(g.mix.burst) {
			k := g.n(2, 8)
			if g.pct(4) {
				k = g.n(20, 60)
			}
			for i := 0; i < k && n > 0; i++ {
				x := t
				if g.pct(15) {
					x = g.hot[g.r.IntN(len(g.hot))]
				}
				g.p.Ops = append(g.p.Ops, g.request(at+int64(g.r.IntN(pickOf(g, 1, 2, 5, 40))), x))
				n--
			}
			continue
		}
		g.p.Ops = append(g.p.Ops, g.request(at, t))
		n--
	}
}

func (g *gen) changes(n int, from, to int64) {
	for i := 0; i < n; i++ {
		t := g.hot[g.r.IntN(len(g.hot))]
		o, up := g.originPath(t)
		g.p.Ops = append(g.p.Ops, Op{At: from + g.r.Int64N(max(1, to-from)), Kind: "change", Origin: max(0, o), Target: up})
	}
}

func (g *gen) api(at int64, method, path string, h ...[2]string) Op {
	return Op{At: at, Kind: "api", Method: method, Target: path, Node: g.r.IntN(g.p.Nodes), Headers: h}
}

func (g *gen) keyPattern() string {
	t := g.hot[g.r.IntN(len(g.hot))]
	key := g.p.keyOf(t)
	switch g.r.IntN(10) {
	case 0, 1, 2, 3:
		return key
	case 4:
		return "*"
	case 5:
		return key + "*"
	case 6:
		return "*" + t
	case 7:
		return pickOf(g, "kache-*"+t[:min(2, len(t))]+"*", "*"+t[:min(2, len(t))]+"*"+t[len(t)-1:], "*.*", "*?*", key[:len(key)-1]+"?", strings.ReplaceAll(key, ".", "?"), "["+key+"]", key+"|"+key, "(", "*\\*", "**"+t)
	case 8:
		return "*x=1*"
	default:
		return "kache-http://" + g.p.Config.Upstreams[0].host() + "/*"
	}
}

// keyOf is the documented cache key of a target.
func (p *Plan) keyOf(t string) string {
	w := &World{plan: p}
	return w.identify(t).key
}

func (g *gen) purges(n int, from, to int64) {
	for i := 0; i < n; i++ {
		at := from + g.r.Int64N(max(1, to-from))
		switch g.r.IntN(8) {
		case 0:
			g.p.Ops = append(g.p.Ops, g.api(at, "DELETE", g.p.Config.prefix()+"/cache/flush"))
		case 1, 2:
			g.p.Ops = append(g.p.Ops, g.api(at, "DELETE", g.p.Config.prefix()+"/cache/invalidate", [2]string{"X-Purge-Key", g.keyPattern()}))
		default:
			g.p.Ops = append(g.p.Ops, g.api(at, "PURGE", "/", [2]string{"X-Purge-Key", g.keyPattern()}))
		}
	}
}

func (g *gen) listings(n int, from, to int64) {
	for i := 0; i < n; i++ {
		g.p.Ops = append(g.p.Ops, g.api(from+g.r.Int64N(max(1, to-from)), "GET", g.p.Config.prefix()+"/cache/keys"))
	}
}

func (g *gen) fault(f Fault) {
	g.p.Faults = append(g.p.Faults, f)
}

func (g *gen) at() int64 { return g.r.Int64N(max(1, g.p.EndMs-200)) }

func (g *gen) originFaults(n int) {
	for i := 0; i < n; i++ {
		g.fault(Fault{At: g.at(), DurMs: int64(g.n(50, 1500)), Kind: "origin", A: fmt.Sprintf("origin%d", g.r.IntN(g.p.Origins)), Prob: pickOf(g, 30, 60, 100), Arg: int64(g.n(5, 400)),
			Mode: pickOf(g, "slow", "status500", "reset-early", "eof-early", "garbage", "truncate", "truncate", "truncate-head", "truncate-reset", "dribble", "interim", "stall")})
	}
}

func (g *gen) redisFaults(n int, hangs bool) {
	if g.p.Config.Backend != "redis" {
		return
	}
	for i := 0; i < n; i++ {
		f := Fault{At: g.at(), DurMs: int64(g.n(20, 2500)), Kind: "redis", A: "redis", Prob: pickOf(g, 20, 50, 100), Arg: int64(g.n(100, 30000))}
		f.Mode = pickOf(g, "crash", "crash-lose", "error", "readonly", "loading", "reset-before", "reset-after", "slow", "corrupt", "evict")
		if hangs && g.pct(25) {
			if g.pct(50) {
				f.Mode = "stall"
			} else {
				f = Fault{At: f.At, DurMs: f.DurMs, Kind: "partition", A: "*kache", B: "redis"}
			}
		} else if g.pct(15) {
			f = Fault{At: f.At, DurMs: f.DurMs, Kind: pickOf(g, "refuse", "cut", "reset"), A: "*kache", B: "redis"}
		}
		g.fault(f)
	}
}

func (g *gen) linkFaults(n int) {
	for i := 0; i < n; i++ {
		f := Fault{At: g.at(), DurMs: int64(g.n(20, 2500)), Kind: pickOf(g, "partition", "refuse", "cut", "reset", "slow-link"), Arg: int64(g.n(500, 30000))}
		f.A = fmt.Sprintf("kache%d", g.r.IntN(g.p.Nodes))
		f.B = pickOf(g, "origin0", "origin0", "*clients", "redis")
		if f.B == "redis" && g.p.Config.Backend != "redis" {
			f.B = "origin0"
		}
		if g.p.Nodes > 1 && g.pct(30) {
			f.B = "*kache"
		}
		g.fault(f)
	}
}

func (g *gen) nodeFaults(n int) {
	for i := 0; i < n; i++ {
		f := Fault{At: g.at(), DurMs: int64(g.n(20, 1500)), A: fmt.Sprintf("kache%d", g.r.IntN(g.p.Nodes)), Kind: pickOf(g, "crash", "crash", "pause"), Mode: pickOf(g, "", "power")}
		if f.Kind == "pause" {
			f.Mode = ""
		}
		g.fault(f)
	}
}

func (g *gen) probes() {
	g.p.Probe = true
	t := "/b/probe"
	switch g.p.Config.Upstreams[0].Path {
	case "/", "/a", "/v1/":
		t = "/a/probe"
	}
	o, up := g.originPath(t)
	_ = up
	g.p.Resources = append(g.p.Resources, Resource{Origin: o, Path: t, Status: 200, Size: 200, Headers: [][2]string{{"Cache-Control", "max-age=600"}}, Extra: map[string]string{"probe": "1"}})
	g.p.Resources = append(g.p.Resources, Resource{Origin: o, Path: up, Status: 200, Size: 200, Headers: [][2]string{{"Cache-Control", "max-age=600"}}})
}

// ---- per property

func (g *gen) c01() {
	g.backend(3, 2, 2)
	g.nodes()
	g.strict(30)
	g.ups()
	p := g.p
	p.EndMs = int64(g.n(2000, 8000))
	g.resources(g.n(2, 5), func(r *Resource) {
		cc(r, pickOf(g, g.ccCache(), g.ccCache(), g.ccAny()))
		g.weird(r)
	})
	g.mix = mix{ccReq: g.n(0, 15), cond: pickOf(g, 0, 10), rng: pickOf(g, 0, 0, 12), head: pickOf(g, 0, 10), post: pickOf(g, 0, 8), cancel: pickOf(g, 0, 10), slow: pickOf(g, 0, 10), keep: pickOf(g, 0, 60), query: pickOf(g, 0, 40), odd: pickOf(g, 0, 5), burst: g.n(20, 70), auth: pickOf(g, 0, 5)}
	g.traffic(g.n(15, 60), 0, p.EndMs)
	g.changes(g.n(0, 4), 0, p.EndMs)
	if g.pct(20) {
		g.purges(g.n(1, 3), 0, p.EndMs)
	}
	if g.pct(60) {
		g.originFaults(g.n(1, 4))
	}
	if g.pct(50) {
		g.redisFaults(g.n(1, 3), true)
	}
	if g.pct(15) {
		g.linkFaults(1)
	}
	if g.pct(15) {
		g.nodeFaults(1)
	}
	if g.pct(10) {
		p.Config.MemMax, p.Config.MemItem = 12000, 9000
	}
}

func (g *gen) c02() {
	g.backend(3, 3, 2)
	g.nodes()
	p := g.p
	g.strict(0)
	if g.pct(20) {
		g.ups()
	}
	p.EndMs = int64(g.n(1000, 5000))
	g.resources(g.n(1, 4), func(r *Resource) {
		cc(r, pickOf(g, "max-age=60", "max-age=60", "no-store", "private", "private, max-age=60", "no-store, max-age=60", g.ccAny(), ""))
		if g.pct(15) {
			// on several lines
			r.Headers = append(r.Headers, [2]string{"Cache-Control", pickOf(g, "private", "no-store", "max-age=60")})
		}
		if g.pct(30) {
			r.Headers = append(r.Headers, [2]string{"Set-Cookie", "sid=1"})
		}
		r.DelayMs = g.n(0, 80)
		if g.pct(20) {
			// what was cacheable becomes private, or the other way round
			r.Alt = [][2]string{{"Cache-Control", pickOf(g, "private", "no-store", "max-age=60", "private, max-age=60", "max-age=1")}}
		}
		if r.ETag && g.pct(20) {
			r.Headers = nil
			cc(r, pickOf(g, "max-age=1", "no-cache"))
			r.H304 = [][2]string{{"Cache-Control", pickOf(g, "private", "no-store, max-age=60", "private, max-age=60", "max-age=1")}}
		}
	})
	g.mix = mix{auth: g.n(0, 50), ccReq: g.n(0, 30), head: pickOf(g, 0, 10), keep: pickOf(g, 0, 50), burst: g.n(40, 95), cancel: pickOf(g, 0, 0, 10), cond: pickOf(g, 0, 0, 10), rng: pickOf(g, 0, 0, 10)}
	g.traffic(g.n(15, 60), 0, p.EndMs)
	g.changes(g.n(0, 4), 0, p.EndMs)
	if g.pct(15) {
		g.originFaults(1)
	}
	if g.pct(15) {
		g.redisFaults(1, false)
	}
	if g.pct(10) {
		p.Config.Cache.DefaultCC = pickOf(g, "private", "no-store", "max-age=60")
		p.Config.Cache.ForceCC = g.pct(40)
	}
}

func (g *gen) c03() {
	g.backend(3, 2, 2)
	g.nodes()
	p := g.p
	g.strict(0)
	p.EndMs = int64(g.n(4000, 14000))
	g.resources(g.n(1, 4), func(r *Resource) {
		cc(r, g.ccAny())
		if g.pct(20) {
			r.ExpireMs = pickOf(g, -5000, 1500, 3000, 60000)
		}
		if g.pct(15) {
			r.Headers = append(r.Headers, [2]string{"Age", fmt.Sprint(pickOf(g, 1, 1, 2, 2, 5, 5, 40, 40, 2147483647, 2147483648, 4294967297, 9223372036, 9223372036854775807))})
		}
		r.NoDate = g.pct(12)
		if g.pct(12) {
			g.dates(r)
			if g.pct(60) {
				r.Headers = nil // nothing but the dates
			}
		}
		if g.pct(10) {
			r.Headers = append(r.Headers, [2]string{"Cache-Control", g.ccAny()})
		}
		if r.ETag && g.pct(20) {
			r.H304 = [][2]string{{"Cache-Control", pickOf(g, "max-age=1", "max-age=3", "no-cache", "no-store")}}
		}
		if r.ExpireMs != 0 && g.pct(50) {
			r.Exp304Ms = pickOf(g, -1000, 1000, 2500, 60000)
			if g.pct(60) {
				r.ETag, r.Headers = true, nil
			}
		}
		if g.pct(10) {
			cca := &Resource{}
			cc(cca, g.ccAny())
			r.Alt = append([][2]string{{"X-Alt", "1"}}, cca.Headers...)
		}
		r.DelayMs = g.n(0, 200)
	})
	g.mix = mix{ccReq: pickOf(g, 0, 25, 50), head: pickOf(g, 0, 15), burst: pickOf(g, 0, 20, 50), keep: pickOf(g, 0, 50), cond: pickOf(g, 0, 0, 10)}
	g.traffic(g.n(20, 80), 0, p.EndMs)
	g.changes(g.n(0, 6), 0, p.EndMs)
	if g.pct(25) {
		p.SkewMs = []int64{int64(g.n(-3000, 3000)), int64(g.n(-3000, 3000))}
	}
	if g.pct(15) {
		p.OSkewMs = []int64{int64(g.n(-2000, 2000))}
	}
	if g.pct(10) {
		g.fault(Fault{At: g.at(), DurMs: int64(g.n(200, 4000)), Kind: "clock", A: "kache0", Arg: int64(g.n(-4000, 4000))})
	}
	if g.pct(30) {
		g.originFaults(g.n(1, 3))
	}
	if g.pct(15) {
		p.Config.Cache.DefaultCC = pickOf(g, "max-age=2", "no-cache", "max-age=1, must-revalidate")
		p.Config.Cache.ForceCC = g.pct(40)
	}
	for i, t := range g.hot {
		if i < len(p.Resources) && p.Resources[i].extra("expires") {
			for k := g.n(1, 4); k > 0; k-- {
				op := Op{At: g.at(), Kind: "req", Method: "GET", Target: t, Client: g.r.IntN(6), Node: g.r.IntN(p.Nodes)}
				if g.pct(70) {
					op.Headers = [][2]string{{"Cache-Control", pickOf(g, "max-stale=1", "max-stale=2", "max-stale", "min-fresh=1", "max-age=2")}}
				}
				p.Ops = append(p.Ops, op)
			}
		}
	}
	if p.Config.Backend == "redis" && g.pct(25) {
		// requests with different demands while the same lookup is under way
		g.fault(Fault{At: 0, DurMs: p.EndMs, Kind: "slow-link", A: "*kache", B: "redis", Arg: int64(g.n(2000, 30000))})
		for k := g.n(2, 6); k > 0; k-- {
			at, t := g.at(), g.hot[g.r.IntN(len(g.hot))]
			node := g.r.IntN(p.Nodes)
			for i := g.n(2, 6); i > 0; i-- {
				op := Op{At: at + int64(g.n(0, 12)), Kind: "req", Method: "GET", Target: t, Client: g.r.IntN(6), Node: node}
				switch g.r.IntN(5) {
				case 0:
					op.Headers = [][2]string{{"Pragma", "no-cache"}}
				case 1:
					op.Headers = g.reqCC()
				}
				p.Ops = append(p.Ops, op)
			}
		}
	}
}

func (g *gen) c04() {
	g.backend(3, 2, 2)
	g.nodes()
	p := g.p
	g.strict(25)
	p.EndMs = int64(g.n(3000, 10000))
	g.resources(g.n(1, 4), func(r *Resource) {
		cc(r, pickOf(g, "max-age=1", "max-age=2", "max-age=60", "no-cache", "max-age=1, must-revalidate", "", "max-age=0"))
		r.ETag = g.pct(70)
		r.LastMod = g.pct(50)
		r.Ranges = g.pct(60)
		if g.pct(20) {
			r.Etag304 = pickOf(g, "omit", "other")
		}
		r.Odd304 = g.pct(8)
		r.DelayMs = g.n(0, 80)
		if g.pct(20) {
			r.H304 = [][2]string{{"Cache-Control", pickOf(g, "max-age=1", "max-age=9")}, {"X-Fresh", "1"}}
			if g.pct(30) {
				r.H304 = append(r.H304, pickOf(g, [2]string{"Content-Length", "0"}, [2]string{"Vary", "X-Other"}, [2]string{"Content-Range", "bytes 0-1/9"}))
			}
		}
		if g.pct(10) {
			r.Extra["gzip"] = "1"
		}
	})
	g.mix = mix{ccReq: pickOf(g, 0, 15), cond: g.n(5, 40), rng: pickOf(g, 0, 10, 40), head: pickOf(g, 0, 20), burst: pickOf(g, 10, 50, 80), keep: pickOf(g, 0, 50)}
	g.traffic(g.n(20, 70), 0, p.EndMs)
	g.changes(g.n(0, 6), 0, p.EndMs)
	if g.pct(20) {
		g.originFaults(1)
	}
	if g.pct(15) {
		g.purges(g.n(1, 2), 0, p.EndMs)
	}
}

func (g *gen) c05() {
	if g.pct(18) {
		g.prov(pickOf(g, "inmemory", "inmemory", "redis", "layered"), true)
		return
	}
	g.backend(4, 3, 3)
	g.nodes()
	p := g.p
	g.strict(15)
	if g.pct(40) {
		g.ups()
	}
	if g.pct(20) {
		p.Config.Prefix = pickOf(g, "/admin", "/x/y", "admin", "/admin/", "x/y/", "/x//y")
	}
	p.EndMs = int64(g.n(1500, 6000))
	g.resources(g.n(2, 6), func(r *Resource) {
		cc(r, pickOf(g, "max-age=600", "max-age=600", "max-age=600", "max-age=1", "max-age=3"))
		r.DelayMs = g.n(0, 100)
	})
	g.mix = mix{burst: g.n(10, 60), keep: pickOf(g, 0, 50), query: pickOf(g, 0, 40), ccReq: pickOf(g, 0, 10)}
	if len(p.Config.Upstreams) == 1 && p.Config.Upstreams[0].Path == "/" {
		g.mix.spell = pickOf(g, 0, 0, 15)
	}
	g.traffic(g.n(20, 70), 0, p.EndMs)
	g.purges(g.n(1, 8), 0, p.EndMs)
	if g.pct(40) {
		// purge and ask at once
		for i := 0; i < g.n(1, 3); i++ {
			at := g.at()
			t := g.hot[g.r.IntN(len(g.hot))]
			g.p.Ops = append(g.p.Ops, g.api(at, "PURGE", "/", [2]string{"X-Purge-Key", g.p.keyOf(t)}))
			for k := 0; k < 4; k++ {
				g.p.Ops = append(g.p.Ops, g.request(at+int64(g.n(-40, 60)), t))
			}
		}
	}
	busy := p.Config.Backend == "redis" && g.pct(40)
	if busy {
		// a purge comes while other responses wait to be stored
		p.LatUs = int64(g.n(1000, 9000))
		p.Config.QueueConc = g.n(1, 2)
		for i := 0; i < g.n(1, 3); i++ {
			at := g.at()
			t := g.hot[g.r.IntN(len(g.hot))]
			base, _, _ := strings.Cut(t, "?")
			for k := 0; k < g.n(4, 12); k++ {
				u := fmt.Sprintf("%s?n=%d", base, i*20+k)
				g.p.Ops = append(g.p.Ops, g.request(at+int64(g.n(0, 15)), u), g.request(at+int64(g.n(1000, 1500)), u))
			}
			for k := 0; k < g.n(1, 4); k++ {
				key := pickOf(g, g.p.keyOf(t), g.p.keyOf(base)+"?n="+fmt.Sprint(i*20), "none*", g.p.keyOf("/none"))
				g.p.Ops = append(g.p.Ops, g.api(at+int64(p.LatUs/250)+int64(g.n(0, 130)), "PURGE", "/", [2]string{"X-Purge-Key", key}))
			}
		}
	}
	for i := range p.Ops {
		p.Ops[i].At = max(0, p.Ops[i].At)
	}
	if g.pct(50) {
		g.listings(g.n(1, 4), 0, p.EndMs)
	}
	if !busy {
		g.changes(g.n(0, 3), 0, p.EndMs)
	}
	if g.pct(12) {
		g.redisFaults(1, false)
	}
	if g.pct(8) {
		g.originFaults(1)
	}
}

func (g *gen) c06() {
	g.backend(4, 2, 1)
	p := g.p
	g.strict(30)
	p.EndMs = int64(g.n(1000, 4000))
	g.resources(g.n(1, 3), func(r *Resource) {
		cc(r, pickOf(g, "max-age=60", "max-age=1", "", "no-cache", "no-store", "private", "max-age=0"))
		r.DelayMs = g.n(20, 250)
		r.Ranges = g.pct(30)
	})
	g.mix = mix{burst: 95, cancel: pickOf(g, 0, 15, 40), auth: pickOf(g, 0, 0, 15), cond: pickOf(g, 0, 0, 10), rng: pickOf(g, 0, 0, 10), ccReq: pickOf(g, 0, 0, 15), head: pickOf(g, 0, 0, 10), keep: pickOf(g, 0, 50), slow: pickOf(g, 0, 10)}
	g.traffic(g.n(15, 60), 0, p.EndMs)
	g.changes(g.n(0, 2), 0, p.EndMs)
	if g.pct(25) {
		g.originFaults(1)
	}
	if g.pct(20) {
		// responses end when other requests for them are just being accepted
		for i := range p.Resources {
			p.Resources[i].DelayMs = g.n(0, 6)
		}
		p.Sched.StallN, p.Sched.StallMaxUs = pickOf(g, uint32(15), 40, 100), pickOf(g, int64(3000), 10000, 20000)
	} else if g.pct(15) {
		// clients go away while the body is on its way
		g.fault(Fault{At: 0, DurMs: p.EndMs, Kind: "origin", A: "origin0", Prob: 100, Arg: int64(g.n(50, 400)), Mode: "dribble"})
		for i := range p.Ops {
			if o := &p.Ops[i]; o.Kind == "req" && g.pct(30) {
				o.Cancel = int64(g.n(1000, 400000))
			}
		}
	}
	if g.pct(10) {
		g.purges(1, 0, p.EndMs)
	}
	if g.pct(8) {
		g.upgrades()
	}
	g.probes()
}

func (g *gen) c07() {
	g.backend(3, 2, 2)
	p := g.p
	g.nodes()
	if p.Nodes > 1 && g.pct(30) {
		p.Config.Cluster, p.Config.Layered = true, true
		if p.Config.LayeredMs == 0 {
			p.Config.LayeredMs = 60000
		}
	}
	g.strict(30)
	g.ups()
	p.EndMs = int64(g.n(3000, 9000))
	g.resources(g.n(2, 5), func(r *Resource) {
		cc(r, g.ccAny())
		g.weird(r)
		r.Odd304 = g.pct(10)
		if g.pct(10) {
			r.DelayMs = g.n(200, 600)
		}
	})
	g.mix = mix{auth: pickOf(g, 0, 10), ccReq: g.n(0, 25), cond: g.n(0, 15), rng: pickOf(g, 0, 10), head: g.n(0, 10), post: g.n(0, 10), cancel: g.n(0, 25), slow: g.n(0, 15), keep: g.n(0, 70), query: g.n(0, 40), odd: g.n(0, 15), burst: g.n(10, 80)}
	g.traffic(g.n(20, 90), 0, p.EndMs)
	g.changes(g.n(0, 4), 0, p.EndMs)
	if g.pct(40) {
		g.purges(g.n(1, 4), 0, p.EndMs)
		g.listings(g.n(0, 2), 0, p.EndMs)
	}
	if g.pct(60) {
		g.originFaults(g.n(1, 4))
	}
	if g.pct(60) {
		g.redisFaults(g.n(1, 4), true)
	}
	if g.pct(40) {
		g.linkFaults(g.n(1, 3))
	}
	if g.pct(40) {
		g.nodeFaults(g.n(1, 2))
	}
	if g.pct(15) {
		p.Config.MemMax, p.Config.MemItem = 9000, 6000
	}
	if g.pct(20) {
		p.Flags = append(p.Flags, "leak")
	}
	if g.pct(20) {
		g.upgrades()
	}
	if g.pct(15) {
		g.reloadOps(g.n(1, 3))
	}
	if p.Config.Cluster && g.pct(20) {
		g.purgeBurst(g.pct(70))
	}
	g.probes()
}

// upgrades adds resources that speak another protocol to those who ask for it.
func (g *gen) upgrades() {
	for i := range g.p.Resources {
		if r := &g.p.Resources[i]; g.pct(50) {
			if r.Extra == nil {
				r.Extra = map[string]string{}
			}
			r.Extra["upgrade"] = "1"
		}
	}
	for i := range g.p.Ops {
		o := &g.p.Ops[i]
		if o.Kind == "req" && o.Text == "" && o.Mode == "" && g.pct(12) {
			o.Headers = append(o.Headers, [][2]string{{"Connection", "Upgrade"}, {"Upgrade", "websocket"}}...)
		}
	}
}

func (g *gen) c08() {
	p := g.p
	k := g.r.IntN(100)
	switch {
	case k < 3:
		p.Config.MemMax, p.Config.MemItem, p.Config.MemTTL = 60000, 20000, pickOf(g, "120s", "1s", "")
		p.Prov = &ProvPlan{Mode: "leak"}
		p.Sched.YieldN, p.Sched.StallN = 0, 0
		return
	case k < 60:
		g.provSized()
		return
	case k < 70:
		// redis item limit
		p.Config.Backend = "redis"
		p.Config.Layered = g.pct(40)
		p.Config.RedisItem = pickOf(g, 400, 1200, 4000)
	default:
		p.Config.MemMax = uint64(pickOf(g, 4000, 8000, 20000, 60000))
		p.Config.MemItem = uint64(pickOf(g, 900, 2000, 3900))
		g.memTTL()
	}
	g.strict(50)
	p.EndMs = int64(g.n(1500, 5000))
	g.resources(g.n(4, 8), func(r *Resource) {
		cc(r, "max-age=600")
		r.Size = pickOf(g, 120, 300, 600, 1000, 1800, 3000, 6000)
		r.DelayMs = g.n(0, 20)
	})
	g.mix = mix{burst: g.n(0, 50), query: pickOf(g, 0, 40)}
	g.traffic(g.n(30, 90), 0, p.EndMs)
	g.listings(g.n(1, 5), 0, p.EndMs)
	g.changes(g.n(0, 4), 0, p.EndMs)
	if g.pct(40) {
		g.purges(g.n(1, 4), 0, p.EndMs)
	}
}

func (g *gen) c09() {
	p := g.p
	if g.pct(35) {
		g.prov(pickOf(g, "inmemory", "inmemory", "redis", "layered"), false)
		return
	}
	g.backend(3, 3, 3)
	g.nodes()
	g.strict(60)
	p.EndMs = int64(g.n(3000, 12000))
	if g.pct(70) {
		p.Config.Cache.DefaultTTLMs = int64(g.n(300, 4000))
	}
	if g.pct(20) {
		// other spellings, and some that say nothing
		x := pickOf(g, TimeoutPlan{"1.5s", 1500}, TimeoutPlan{"0.0005h", 1800}, TimeoutPlan{"1s500ms", 1500}, TimeoutPlan{"2500000us", 2500}, TimeoutPlan{"+2s", 2000}, TimeoutPlan{"\"3s\"", 3000}, TimeoutPlan{".5s", 500},
			TimeoutPlan{"2m", 0}, TimeoutPlan{"10", 0}, TimeoutPlan{"2 s", 0}, TimeoutPlan{"1d", 0}, TimeoutPlan{"soon", 0}, TimeoutPlan{"\"\"", 0}, TimeoutPlan{"5S", 0})
		p.Config.Cache.DefaultTTL, p.Config.Cache.DefaultTTLMs = x.Path, x.TTLMs
	}
	g.resources(g.n(2, 5), func(r *Resource) {
		cc(r, pickOf(g, "max-age=600", "max-age=600", ""))
		r.DelayMs = g.n(0, 60)
	})
	for i := 0; i < g.n(0, 3); i++ {
		p.Config.Cache.Timeouts = append(p.Config.Cache.Timeouts, TimeoutPlan{Path: pickOf(g, "^/a", "^/b", "^/a/x$", "png$", "/", "(", "^/A", "q r$", "é$", "dir/$", "^/a/x/y$", "[+]1", "0%$"), TTLMs: int64(g.n(200, 5000))})
		if g.pct(12) {
			p.Config.Cache.Timeouts[i].TTLMs = pickOf(g, int64(0), -1000, 1)
		}
	}
	g.mix = mix{burst: pickOf(g, 0, 20, 40), head: pickOf(g, 0, 5), query: pickOf(g, 0, 20)}
	g.traffic(g.n(25, 90), 0, p.EndMs)
	g.changes(g.n(0, 3), 0, p.EndMs)
	if g.pct(20) {
		g.purges(g.n(1, 2), 0, p.EndMs)
	}
	if g.pct(10) {
		g.redisFaults(1, false)
	}
	if g.pct(10) {
		g.nodeFaults(1)
	}
}

func (g *gen) c10() {
	g.prov(pickOf(g, "inmemory", "inmemory", "inmemory", "redis", "redis", "layered", "layered"), false)
}

// prov is a concurrent workload on a provider.
func (g *gen) prov(kind string, purgy bool) {
	p := g.p
	c := &p.Config
	p.Prov = &ProvPlan{Mode: "concurrent"}
	fetch := false
	switch kind {
	case "redis":
		c.Backend = "redis"
	case "layered":
		c.Backend, c.Layered = "redis", true
		c.LayeredMs = int64(g.n(50, 3000))
		c.MemTTL = pickOf(g, "", "120s", "1s")
		if g.pct(50) {
			// much is fetched from Redis, slowly
			c.LayeredMs = int64(g.n(1, 20))
			p.LatUs = 20
			fetch = true
			c.MemMax, c.MemItem = 450, 400 // the local layer holds few
			p.Sched.StallN, p.Sched.StallMaxUs = pickOf(g, uint32(10), 30, 100), pickOf(g, int64(1000), 3000, 10000)
		}
	default:
		c.MemTTL = pickOf(g, "", "120s", "1s", "-1")
	}
	if c.Backend == "redis" {
		c.QueueConc = pickOf(g, 0, 1, 2, 8)
		if g.pct(20) {
			c.QueueConc, c.QueueBuf = g.n(1, 2), g.n(1, 3)
		}
		g.redisServer()
	}
	if p.Sched.YieldN == 0 {
		p.Sched.YieldN = 10
	}
	gs := g.n(2, 5)
	keys := []string{"/k1", "/k2", "/dir/k3?x=1", "/dir/k4"}[:g.n(1, 4)]
	n := g.n(12, 40)
	wait := int64(pickOf(g, 0, 500, 5000, 60000))
	long := g.pct(50)
	if fetch {
		wait, n = int64(pickOf(g, 0, 500, 5000)), g.n(30, 60)
		gs = g.n(3, 6)
		keys = []string{"/k1", "/k2", "/dir/k3?x=1"}[:g.n(2, 3)]
	}
	for i := 0; i < n; i++ {
		o := ProvOp{G: g.r.IntN(gs), Key: keys[g.r.IntN(len(keys))], Size: pickOf(g, 20, 40, 300, 3000), TTLMs: int64(g.n(1, 120))}
		if fetch {
			o.Size = pickOf(g, 40, 300, 340)
		}
		if long {
			o.TTLMs = 600000
		} else if c.Backend == "redis" {
			o.TTLMs = int64(g.n(30, 1500))
		}
		if wait > 0 && g.pct(60) {
			o.WaitU = g.r.Int64N(wait)
		}
		k := g.r.IntN(100)
		if purgy {
			k = g.r.IntN(125)
		}
		switch {
		case fetch:
			o.Kind = pickOf(g, "set", "set", "get", "get", "get", "get", "delete", "delete", "purge")
		case k < 40:
			o.Kind = "set"
		case k < 75:
			o.Kind = "get"
		case k < 86:
			o.Kind = "delete"
		case k < 90:
			o.Kind = "keys"
		case k < 92:
			o.Kind = "size"
		case k < 96 || k > 112:
			o.Kind = "flush"
			o.Key = ""
		default:
			o.Kind = "purge"
			o.Key = pickOf(g, o.Key, o.Key, "/dir/*", "*k1", "*", "/k*", "/dir/k3?x=1", "/d.r/*")
		}
		p.Prov.Ops = append(p.Prov.Ops, o)
	}
	if g.p.Prop == "C10" && c.Backend == "redis" && g.pct(25) {
		p.EndMs = int64(pickOf(g, 240, 300, 500))
		g.redisFaults(g.n(1, 2), false)
	}
}

// provSized is a workload on an in-memory provider of limited size.
func (g *gen) provSized() {
	p := g.p
	c := &p.Config
	c.MemTTL = pickOf(g, "", "120s", "-1", "1s")
	c.MemMax = uint64(pickOf(g, 600, 2000, 5000))
	c.MemItem = c.MemMax
	if g.pct(50) {
		c.MemItem = c.MemMax * uint64(g.n(20, 95)) / 100
	}
	p.Prov = &ProvPlan{Mode: pickOf(g, "lru", "lru", "concurrent", "drift")}
	gs := 1
	if p.Prov.Mode != "lru" {
		gs = g.n(2, 5)
		if p.Sched.YieldN == 0 {
			p.Sched.YieldN = 5
		}
	}
	nk := g.n(3, 10)
	n := g.n(20, 58)
	if p.Prov.Mode == "lru" {
		n = g.n(30, 200)
	}
	for i := 0; i < n; i++ {
		o := ProvOp{G: g.r.IntN(gs), Key: fmt.Sprintf("/k%d", g.r.IntN(nk)), Size: g.n(20, int(c.MemMax)/pickOf(g, 1, 2, 4, 6)), TTLMs: 600000}
		if g.pct(10) {
			o.TTLMs = int64(g.n(1, 50))
			o.WaitU = g.r.Int64N(60000)
		}
		k := g.r.IntN(100)
		switch {
		case k < 50:
			o.Kind = "set"
		case k < 84:
			o.Kind = "get"
		case k < 90:
			o.Kind = "delete"
		case k < 95:
			o.Kind = "keys"
		case k < 98:
			o.Kind = "purge"
			o.Key = pickOf(g, o.Key, "/k1*", "*2")
		default:
			o.Kind = "flush"
			o.Key = ""
		}
		p.Prov.Ops = append(p.Prov.Ops, o)
	}
	if p.Prov.Mode == "drift" {
		// After everything else: items that fit together, each seen once
		// all are stored.
		k := g.n(2, 5)
		each := int(c.MemMax) / k
		for each+24 > int(c.MemItem) || (each+24)*k > int(c.MemMax) {
			each--
		}
		p.Prov.Ops = append(p.Prov.Ops, ProvOp{G: 90, Kind: pickOf(g, "flush", "purge", "get"), Key: "*", WaitU: 3_000_000})
		for i := 0; i < k; i++ {
			p.Prov.Ops = append(p.Prov.Ops, ProvOp{G: 90, Kind: "set", Key: fmt.Sprintf("/drift%d", i), Size: each, TTLMs: 600000})
		}
	}
}

func (g *gen) c11() {
	p := g.p
	p.Config.Backend = "redis"
	p.Config.Layered = g.pct(40)
	if p.Config.Layered {
		p.Config.LayeredMs = int64(g.n(300, 4000))
	}
	if g.pct(30) {
		p.Config.QueueConc = g.n(1, 3)
	}
	switch {
	case g.pct(20):
		p.Config.QueueBuf = g.n(1, 20)
	case g.pct(20):
		// stores pile up behind a single worker
		p.Config.QueueConc, p.Config.QueueBuf = 1, g.n(1, 3)
	}
	g.nodes()
	g.strict(30)
	p.EndMs = int64(g.n(2000, 8000))
	g.resources(g.n(1, 4), func(r *Resource) {
		cc(r, pickOf(g, "max-age=600", "max-age=2", "max-age=600", "no-store"))
		r.DelayMs = g.n(0, 60)
	})
	g.mix = mix{burst: g.n(10, 60), keep: pickOf(g, 0, 50), query: pickOf(g, 0, 30), head: pickOf(g, 0, 5)}
	g.traffic(g.n(20, 80), 0, p.EndMs)
	g.changes(g.n(0, 3), 0, p.EndMs)
	g.redisFaults(g.n(1, 4), g.pct(40))
	if g.pct(15) {
		// a longer outage, of a kind that is noticed at once
		for i := range p.Faults {
			if f := &p.Faults[i]; f.Kind == "refuse" || f.Mode == "crash" || f.Mode == "error" || f.Mode == "loading" || f.Mode == "readonly" {
				f.DurMs += int64(g.n(3000, 6000))
				f.Prob = 100
			}
		}
	}
	if g.pct(25) {
		g.purges(g.n(1, 3), 0, p.EndMs)
		g.listings(g.n(0, 2), 0, p.EndMs)
	}
	g.probes()
}

func (g *gen) cacheVariant(i int) *ConfigPlan {
	c := g.p.Config
	c.Cache.XHeader = true
	c.Cache.XName = fmt.Sprintf("X-Kache-V%d", i)
	c.Cache.DefaultCC = pickOf(g, "", "max-age=5", "max-age=60")
	c.Cache.ForceCC = g.pct(20)
	c.Cache.DefaultTTLMs = int64(pickOf(g, 0, 20000, 60000))
	c.Cache.Timeouts = nil
	for k := 0; k < g.n(0, 3); k++ {
		c.Cache.Timeouts = append(c.Cache.Timeouts, TimeoutPlan{Path: "^/t" + fmt.Sprint(k), TTLMs: 30000})
	}
	return &c
}

func (g *gen) c12() {
	p := g.p
	p.Config.Backend = "redis"
	p.Config.Layered = true
	p.Config.Cluster = true
	p.Config.LayeredMs = int64(pickOf(g, 60000, 120000))
	p.Config.MemTTL = pickOf(g, "", "120s")
	p.Nodes = g.n(2, 3)
	g.strict(20)
	if g.pct(25) {
		p.Config.ACL = pickOf(g, "10.0.7.1, 10.0.0.0/24", "10.0.0.0/24,10.0.7.0/24", "10.0.7.1,10.0.0.1,10.0.0.2,10.0.0.3")
	}
	for _, f := range []string{"kube-api-first", "kube-noref", "kube-subsets", "kube-split", "kube-subsets-first", "kube-noports", "kube-others-after", "kube-notready"} {
		if g.pct(12) {
			p.Flags = append(p.Flags, f)
		}
	}
	if g.pct(15) {
		p.Config.Prefix = pickOf(g, "/admin", "admin", "/admin/", "x/y/", "/")
	}
	p.Config.Cache.XHeader = true
	p.EndMs = int64(g.n(6000, 15000))
	faulty := g.pct(45)
	if faulty {
		p.EndMs = int64(g.n(25000, 50000))
	}
	g.resources(g.n(2, 4), func(r *Resource) {
		cc(r, "max-age=600")
		r.DelayMs = g.n(0, 30)
	})
	g.mix = mix{burst: g.n(0, 40)}
	g.traffic(g.n(25, 80), 0, p.EndMs)
	g.purges(g.n(1, 4), 200, p.EndMs*2/3)
	for i := 0; i < g.n(0, 3); i++ {
		// broadcast over what every node has cached
		at := 300 + g.r.Int64N(p.EndMs*2/3)
		t := g.hot[g.r.IntN(len(g.hot))]
		for n := 0; n < p.Nodes; n++ {
			op := g.request(max(0, at-int64(g.n(50, 250))), t)
			op.Node = n
			p.Ops = append(p.Ops, op)
			op = g.request(at+int64(g.n(3300, 5000)), t)
			op.Node = n
			p.Ops = append(p.Ops, op)
		}
		p.Ops = append(p.Ops, g.api(at, "PURGE", "/", [2]string{"X-Purge-Key", g.p.keyOf(t)}))
	}
	if g.pct(15) {
		g.purgeBurst(!faulty && g.pct(60))
	}
	if g.pct(20) {
		g.lostUpdate()
		faulty = false
	} else if g.pct(50) {
		n := g.n(1, 3)
		for i := 0; i < n; i++ {
			v := g.cacheVariant(i + 1)
			op := g.api(200+g.r.Int64N(p.EndMs*2/3), "PUT", p.Config.prefix()+"/cache/config/update", [2]string{"Content-Type", "application/yaml"})
			op.Config = v
			op.Body = v.Cache.yaml("")
			p.Ops = append(p.Ops, op)
		}
		if g.pct(20) {
			op := g.badPut(g.r.Int64N(p.EndMs), 50)
			op.Node = g.r.IntN(p.Nodes)
			p.Ops = append(p.Ops, op)
		}
		for i := 0; i < g.n(3, 10); i++ {
			p.Ops = append(p.Ops, g.api(g.r.Int64N(p.EndMs), "GET", p.Config.prefix()+"/cache/config"))
		}
		for n := 0; n < p.Nodes; n++ {
			op := g.api(p.EndMs-10, "GET", p.Config.prefix()+"/cache/config")
			op.Node = n
			p.Ops = append(p.Ops, op)
		}
	}
	if p.Config.ACL != "" && g.pct(50) {
		// administrators behind a proxy that is not on the list itself
		for i := range p.Ops {
			if o := &p.Ops[i]; o.Kind == "api" && o.Mode == "" && g.pct(60) {
				o.Mode = "intruder"
				if g.pct(40) {
					o.Headers = append(o.Headers, [2]string{"X-Real-Ip", "10.0.7.1"})
					continue
				}
				o.Headers = append(o.Headers, [2]string{"X-Forwarded-For", pickOf(g, "10.0.7.1", "1.2.3.4, 10.0.7.1")})
				if g.pct(20) {
					o.Headers = append(o.Headers, [2]string{"X-Forwarded-For", "10.0.7.1"})
				}
			}
		}
	}
	if faulty {
		for i := 0; i < g.n(1, 2); i++ {
			at := g.r.Int64N(p.EndMs / 3)
			d := int64(g.n(200, 6000))
			a, b := g.r.IntN(p.Nodes), g.r.IntN(p.Nodes)
			switch g.r.IntN(6) {
			case 5:
				g.fault(Fault{At: at, DurMs: d, Kind: "busy", A: fmt.Sprintf("kache%d", a), Arg: int64(pickOf(g, 500, 502, 503, 429, 404, 400))})
			case 0, 1:
				if a != b {
					g.fault(Fault{At: at, DurMs: d, Kind: pickOf(g, "partition", "refuse", "cut"), A: fmt.Sprintf("kache%d", a), B: fmt.Sprintf("kache%d", b)})
				}
			case 2:
				g.fault(Fault{At: at, DurMs: d, Kind: "crash", A: fmt.Sprintf("kache%d", a), Mode: pickOf(g, "", "power")})
			case 3:
				g.fault(Fault{At: at, DurMs: d, Kind: "kube", Mode: pickOf(g, "stall", "error", "reset", "empty")})
			case 4:
				g.fault(Fault{At: at, DurMs: d, Kind: "pause", A: fmt.Sprintf("kache%d", a)})
			}
		}
	}
	g.probes()
}

// lostUpdate changes the configuration while the nodes can not reach each other.
func (g *gen) lostUpdate() {
	p := g.p
	at := int64(g.n(500, 3000))
	d := int64(pickOf(g, 300, 2000, 6000, 12000, 20000))
	g.fault(Fault{At: at, DurMs: d, Kind: pickOf(g, "cut", "cut", "refuse", "partition"), A: "kache0", B: "kache1"})
	for i := 0; i < g.n(1, 3); i++ {
		v := g.cacheVariant(i + 1)
		op := g.api(at+int64(i*g.n(0, 400)), "PUT", p.Config.prefix()+"/cache/config/update", [2]string{"Content-Type", "application/yaml"})
		op.Config, op.Body = v, v.Cache.yaml("")
		op.Node = pickOf(g, 0, 1)
		p.Ops = append(p.Ops, op)
	}
	p.EndMs = max(p.EndMs, at+d+int64(g.n(24000, 28000)))
	for n := 0; n < p.Nodes; n++ {
		for i := 0; i < 4; i++ {
			op := g.api(p.EndMs-int64(i*g.n(10, 8000)), "GET", p.Config.prefix()+"/cache/config")
			op.Node = n
			p.Ops = append(p.Ops, op)
		}
	}
}

// purgeBurst makes more purges at once than the nodes can pass on immediately,
// perhaps while another node is down.
func (g *gen) purgeBurst(down bool) {
	p := g.p
	at := 400 + g.r.Int64N(p.EndMs/2)
	n := g.n(20, 100)
	span := int64(pickOf(g, 1, 5, 50))
	node := g.r.IntN(p.Nodes)
	later := at + 3500
	if down {
		// while another node does not answer
		d := int64(g.n(1000, 9000))
		other := fmt.Sprintf("kache%d", (node+1)%p.Nodes)
		f := Fault{At: at - int64(g.n(0, 300)), DurMs: d, Kind: "pause", A: other}
		if g.pct(70) {
			f.Kind, f.B = pickOf(g, "partition", "refuse", "cut"), fmt.Sprintf("kache%d", node)
		}
		g.fault(f)
		later = at + d + int64(g.n(14500, 17000))
		p.EndMs = max(p.EndMs, later+3000)
	}
	for _, t := range g.hot {
		for k := 0; k < p.Nodes; k++ {
			op := g.request(max(0, at-int64(g.n(50, 250))), t)
			op.Node = k
			p.Ops = append(p.Ops, op)
			op = g.request(later+int64(g.n(0, 2000)), t)
			op.Node = k
			p.Ops = append(p.Ops, op)
		}
	}
	for i := 0; i < n; i++ {
		key := fmt.Sprintf("kache-nothing-%d", i)
		if i >= n-len(g.hot) {
			key = g.p.keyOf(g.hot[n-1-i])
		}
		op := g.api(at+span*int64(i)/int64(n), "PURGE", "/", [2]string{"X-Purge-Key", key})
		op.Node = node
		p.Ops = append(p.Ops, op)
	}
}

// reloadOps changes configuration files and reloads them.
func (g *gen) reloadOps(n int) {
	p := g.p
	for i := 0; i < n; i++ {
		at := g.r.Int64N(p.EndMs)
		node := g.r.IntN(p.Nodes)
		mode := "write"
		if g.pct(35) {
			mode = pickOf(g, "torn", "empty", "missing", "dir", "garbage", "unknown", "wrongtype")
		}
		v := g.cacheVariant(i + 1)
		if g.pct(5) {
			v.Cache.NoSection = true
			v.Cache.XName = ""
		}
		p.Ops = append(p.Ops, Op{At: at, Kind: "cfg", Node: node, Config: v, Mode: mode, ID: i + 1})
		for k := 0; k < g.n(0, 3); k++ {
			d := int64(g.n(1, 800))
			if p.Config.ACL == "" && g.pct(30) {
				op := g.api(at+d, "POST", p.Config.prefix()+"/cache/config/reload")
				op.Node = node
				p.Ops = append(p.Ops, op)
				continue
			}
			p.Ops = append(p.Ops, Op{At: at + d, Kind: "sighup", Node: node})
		}
	}
}

// cfgRace changes the configuration file when the node looks at it, and makes it
// look again from somewhere else.
func (g *gen) cfgRaces() {
	at := 200 + g.r.Int64N(max(1, g.p.EndMs-400))
	for i := 0; i < g.n(2, 8); i++ {
		at = g.cfgRace(i, at)
	}
}

func (g *gen) cfgRace(id int, at int64) int64 {
	p := g.p
	us := int64(0)
	write := func(i int, us int64) Op {
		v := g.cacheVariant(80 + id*3 + i)
		for k := 0; k < pickOf(g, 0, 2, 12); k++ {
			v.Cache.Timeouts = append(v.Cache.Timeouts, TimeoutPlan{Path: fmt.Sprintf("^/(t|u)%d+(x|y)*$", k), TTLMs: 30000})
		}
		return Op{At: at, OnRead: us, Kind: "cfg", Config: v, Mode: "write", ID: 80 + id*3 + i}
	}
	look := func(us int64) Op {
		if p.Config.ACL == "" && g.pct(30) {
			op := g.api(at, "POST", p.Config.prefix()+"/cache/config/reload")
			op.OnRead = us
			return op
		}
		return Op{At: at, OnRead: us, Kind: "sighup"}
	}
	// the file changes, and changes again as soon as that has been seen
	op := write(0, 0)
	p.Ops = append(p.Ops, op)
	at++
	for i := 1; i < g.n(2, 3); i++ {
		if i > 1 || g.pct(30) {
			us += int64(pickOf(g, 1, 20, 100, 300, 1000))
		} else {
			us = 1
		}
		p.Ops = append(p.Ops, write(i, us))
		if us > 1 {
			us += int64(pickOf(g, 0, 1, 10, 50))
		}
		p.Ops = append(p.Ops, look(us))
	}
	for k := 0; k < g.n(2, 8); k++ {
		op := g.request(at, g.hot[g.r.IntN(len(g.hot))])
		op.Target += fmt.Sprintf("?w=%d", k)
		if g.pct(70) {
			op.OnRead = int64(g.n(1, pickOf(g, 1, int(us)+200)))
		} else {
			op.At += int64(g.n(0, int(p.WatchMs)))
		}
		p.Ops = append(p.Ops, op)
	}
	end := at + 2*p.WatchMs + 900
	p.Ops = append(p.Ops, g.api(end, "GET", p.Config.prefix()+"/cache/config"))
	p.EndMs = max(p.EndMs, end+100)
	return end + 10
}

// cfgStorm changes the configuration file several times at almost the same moment
// and has it reloaded in all ways at once.
func (g *gen) cfgStorm() {
	p := g.p
	at := 200 + g.r.Int64N(max(1, p.EndMs-400))
	node := g.r.IntN(p.Nodes)
	add := func(op Op) { op.Node = node; p.Ops = append(p.Ops, op) }
	id := 40 + g.n(0, 3)*30
	n, dense := g.n(2, 5), false
	if p.Watch && p.WatchMs <= 20 && g.pct(50) {
		// from one look at the file to the next
		n, dense = g.n(15, 28), true
	}
	for i := 0; i < n; i++ {
		v := g.cacheVariant(id + i)
		for k := 0; k < pickOf(g, 0, 2, 12); k++ {
			v.Cache.Timeouts = append(v.Cache.Timeouts, TimeoutPlan{Path: fmt.Sprintf("^/(t|u)%d+(x|y)*$", k), TTLMs: 30000})
		}
		add(Op{At: at, Kind: "cfg", Config: v, Mode: "write", ID: id + i})
		for k := 0; k < g.n(0, 3); k++ {
			d := at + int64(pickOf(g, 0, 0, 1, 1, 2, 5))
			if p.Config.ACL == "" && g.pct(60) {
				add(g.api(d, "POST", p.Config.prefix()+"/cache/config/reload"))
			} else {
				add(Op{At: d, Kind: "sighup"})
			}
		}
		for k := 0; k < g.n(0, 4); k++ {
			add(g.request(at+int64(g.n(0, 3)), g.hot[g.r.IntN(len(g.hot))]))
		}
		if dense {
			op := g.request(at, g.hot[g.r.IntN(len(g.hot))])
			op.Target += fmt.Sprintf("?w=%d", i)
			add(op)
			at++
			continue
		}
		at += int64(pickOf(g, 0, 1, 1, 2, 3, 10))
		if p.Watch && g.pct(40) {
			at += p.WatchMs - int64(g.n(0, 10))
		}
	}
	add(g.api(at+3*p.WatchMs+500, "GET", p.Config.prefix()+"/cache/config"))
	add(g.api(at+3*p.WatchMs+1200, "GET", p.Config.prefix()+"/cache/config"))
	p.EndMs = max(p.EndMs, at+3*p.WatchMs+1300)
}

// badPut is an update of the configuration that has to be refused as a whole.
func (g *gen) badPut(at int64, id int) Op {
	op := g.api(at, "PUT", g.p.Config.prefix()+"/cache/config/update", [2]string{"Content-Type", "application/yaml"})
	body := g.cacheVariant(id).Cache.yaml("")
	op.Tag = "bad-put"
	switch g.r.IntN(6) {
	case 0:
		body += "timeouts: 17\n"
	case 1:
		body = "exclude: [1, 2]\n" + body
	case 2:
		body += "\t- [ {\n"
	case 3:
		body = ""
	case 4:
		body = strings.Replace(body, "x_header: true\n", "x_header: sometimes\n", 1) + "strict: maybe\n"
	case 5:
		op.Mode = "cut"
	}
	op.Body = body
	return op
}

func (g *gen) c13() {
	p := g.p
	g.backend(3, 1, 1)
	g.strict(0)
	p.EndMs = int64(g.n(3000, 10000))
	p.Config.Cache.XHeader = true
	p.Config.Cache.XName = "X-Kache-V0"
	if g.pct(30) {
		p.Config.Prefix = pickOf(g, "/admin", "/x/y", "admin", "/admin/", "x/y/", "/x//y")
	}
	if g.pct(45) {
		p.Watch = true
		p.WatchMs = int64(pickOf(g, 20, 20, 100, 300, 1000))
	}
	g.resources(g.n(1, 3), func(r *Resource) {
		cc(r, pickOf(g, "max-age=600", "max-age=1"))
		r.DelayMs = g.n(0, 40)
		r.ETag, r.LastMod = g.pct(20), false
	})
	g.mix = mix{burst: g.n(0, 60), keep: pickOf(g, 0, 50)}
	g.traffic(g.n(10, 60), 0, p.EndMs)
	storm := g.pct(45)
	if storm {
		for i := 0; i < g.n(1, 3); i++ {
			if p.Watch && p.WatchMs <= 300 && g.pct(60) {
				g.cfgRaces()
				continue
			}
			g.cfgStorm()
		}
	} else {
		g.reloadOps(g.n(1, 7))
	}
	if g.pct(pickOf(g, 0, 40, 80)) {
		n := g.n(1, 3)
		for i := 0; i < n; i++ {
			v := g.cacheVariant(20 + i)
			op := g.api(g.r.Int64N(p.EndMs), "PUT", p.Config.prefix()+"/cache/config/update", [2]string{"Content-Type", "application/yaml"})
			op.Config = v
			op.Body = v.Cache.yaml("")
			p.Ops = append(p.Ops, op)
		}
	}
	for i := 0; i < g.n(1, 3) && g.pct(40); i++ {
		p.Ops = append(p.Ops, g.badPut(g.r.Int64N(p.EndMs), 40+i))
	}
	for i := 0; i < g.n(3, 12); i++ {
		p.Ops = append(p.Ops, g.api(g.r.Int64N(p.EndMs), "GET", p.Config.prefix()+"/cache/config"))
	}
	p.Ops = append(p.Ops, g.api(p.EndMs-1, "GET", p.Config.prefix()+"/cache/config"))
	if g.pct(15) {
		g.fault(Fault{At: g.at(), DurMs: int64(g.n(50, 800)), Kind: "pause", A: "kache0"})
	}
	for i := 0; i < g.n(1, 2) && g.pct(40); i++ {
		f := Fault{At: g.at(), DurMs: int64(g.n(30, 1500)), Kind: "file", A: "kache0", Mode: pickOf(g, "open", "read")}
		g.fault(f)
		for k := 0; k < g.n(1, 3); k++ {
			at := f.At + int64(g.n(-100, int(f.DurMs)+200))
			v := g.cacheVariant(60 + i*10 + k)
			p.Ops = append(p.Ops, Op{At: max(0, at), Kind: "cfg", Config: v, Mode: "write", ID: 60 + i*10 + k})
			at += int64(g.n(1, 300))
			if p.Config.ACL == "" && g.pct(60) {
				p.Ops = append(p.Ops, g.api(max(0, at), "POST", p.Config.prefix()+"/cache/config/reload"))
			} else {
				p.Ops = append(p.Ops, Op{At: max(0, at), Kind: "sighup"})
			}
			p.Ops = append(p.Ops, g.api(max(0, at)+int64(g.n(1, 900)), "GET", p.Config.prefix()+"/cache/config"))
		}
	}
	g.probes()
	if g.pct(90) {
		p.Probe = true
	}
}

func (g *gen) c14() {
	p := g.p
	g.backend(3, 2, 1)
	g.nodes()
	g.strict(40)
	if g.pct(15) && p.Config.Backend == "redis" {
		p.Config.Cluster = true
	}
	p.EndMs = int64(g.n(2000, 8000))
	g.resources(g.n(1, 4), func(r *Resource) {
		cc(r, pickOf(g, "", "no-store", "max-age=60", "max-age=1"))
		r.DelayMs = g.n(0, 400)
	})
	g.mix = mix{burst: g.n(10, 70), keep: pickOf(g, 0, 50), query: g.n(0, 60), slow: pickOf(g, 0, 10), post: pickOf(g, 0, 15)}
	g.traffic(g.n(20, 80), 0, p.EndMs)
	for i := 0; i < g.n(1, 2); i++ {
		at := 100 + g.r.Int64N(p.EndMs-200)
		node := g.r.IntN(p.Nodes)
		p.Ops = append(p.Ops, Op{At: at, Kind: pickOf(g, "sigterm", "sigterm", "sigint"), Node: node})
		// requests that are under way then
		for k := 0; k < g.n(1, 6); k++ {
			op := g.request(max(0, at-int64(g.n(1, 300))), g.hot[g.r.IntN(len(g.hot))]+"?u="+fmt.Sprint(i*10+k))
			op.Node = node
			op.Keep = false
			p.Ops = append(p.Ops, op)
		}
		if g.pct(20) {
			p.Ops = append(p.Ops, Op{At: at + int64(g.n(1, 50)), Kind: "sigterm", Node: node})
		}
		// and some that will not be done within the time that is left, or ever
		if g.pct(25) {
			t := "/a/stuck" + fmt.Sprint(i)
			g.res(t, func(r *Resource) { r.DelayMs = pickOf(g, 3000, 4700, 6000, 9000, 25000) })
			for k := 0; k < g.n(1, 3); k++ {
				op := g.request(max(0, at-int64(g.n(1, 800))), t)
				op.Node = node
				p.Ops = append(p.Ops, op)
			}
		}
		if g.pct(25) {
			for k := 0; k < g.n(1, 4); k++ {
				op := g.request(max(0, at-int64(g.n(1, 1500))), g.hot[g.r.IntN(len(g.hot))])
				op.Node, op.Keep = node, false
				op.Mode = pickOf(g, "hang", "half", "hang")
				if op.Mode == "hang" && g.pct(50) {
					op.Mode, op.SlowMs = "", 5000
				}
				p.Ops = append(p.Ops, op)
			}
		}
		// the administrator as well, whose requests take their time
		if p.Config.Backend == "redis" && g.pct(35) {
			if g.pct(70) {
				g.fault(Fault{At: max(0, at-500), DurMs: 2500, Kind: "redis", A: "redis", Mode: "slow", Prob: 100, Arg: int64(pickOf(g, 20, 60, 120)) * 1000})
			}
			for k := 0; k < g.n(1, 4); k++ {
				g.purges(1, max(0, at-250), max(0, at-61))
				p.Ops[len(p.Ops)-1].Node = node
			}
		}
		p.Ops = append(p.Ops, Op{At: at + int64(g.n(6000, 13000)), Kind: "start", Node: node})
	}
	if g.pct(15) {
		g.originFaults(1)
	}
	if g.pct(20) {
		g.redisFaults(1, true)
	}
	if g.pct(10) {
		g.purges(g.n(1, 2), 0, p.EndMs)
	}
	p.EndMs += 16000
	g.probes()
}

func (g *gen) c15() {
	p := g.p
	g.backend(4, 1, 1)
	g.strict(30)
	g.ups()
	p.EndMs = int64(g.n(2000, 7000))
	g.resources(g.n(1, 4), func(r *Resource) {
		cc(r, pickOf(g, "max-age=60", "max-age=1", "", "no-cache"))
		r.DelayMs = g.n(0, 80)
	})
	g.mix = mix{burst: g.n(10, 70), ccReq: pickOf(g, 0, 0, 20, 40), keep: pickOf(g, 0, 50), head: pickOf(g, 0, 10), post: pickOf(g, 0, 10), query: pickOf(g, 0, 30)}
	g.traffic(g.n(15, 60), 0, p.EndMs)
	for i := 0; i < g.n(0, 4); i++ {
		op := g.request(g.r.Int64N(p.EndMs), "/zz/none")
		p.Ops = append(p.Ops, op)
	}
	g.originFaults(g.n(1, 4))
	if g.pct(40) {
		g.fault(Fault{At: g.at(), DurMs: int64(g.n(100, 2000)), Kind: pickOf(g, "refuse", "cut", "reset", "partition"), A: "*kache", B: "*origins"})
	}
	g.changes(g.n(0, 2), 0, p.EndMs)
	g.probes()
}

func (g *gen) c16() {
	g.backend(3, 2, 2)
	g.nodes()
	p := g.p
	g.strict(30)
	p.EndMs = int64(g.n(3000, 12000))
	if g.pct(30) {
		p.Config.Cache.XName = "X-Cache-Status"
	}
	p.Config.Cache.XHeader = !g.pct(25)
	g.resources(g.n(1, 4), func(r *Resource) {
		cc(r, pickOf(g, g.ccCache(), g.ccAny()))
		if g.pct(20) {
			r.Headers = append(r.Headers, [2]string{"Age", fmt.Sprint(pickOf(g, 0, 2, 7, 100))})
		}
		r.NoDate = g.pct(15)
		if g.pct(10) {
			g.dates(r)
		}
		r.DelayMs = g.n(0, 150)
	})
	g.mix = mix{burst: pickOf(g, 0, 30, 60), head: pickOf(g, 0, 15), ccReq: pickOf(g, 0, 15), cond: pickOf(g, 0, 10), auth: pickOf(g, 0, 5), keep: pickOf(g, 0, 50)}
	g.traffic(g.n(20, 80), 0, p.EndMs)
	g.changes(g.n(0, 4), 0, p.EndMs)
	if g.pct(20) {
		p.SkewMs = []int64{int64(g.n(-2000, 2000)), int64(g.n(-2000, 2000))}
	}
	if g.pct(10) {
		g.purges(1, 0, p.EndMs)
	}
	if g.pct(35) {
		// the mark is switched on, off, or renamed while entries are there
		for i := 0; i < g.n(1, 3); i++ {
			v := p.Config
			v.Cache.XHeader = g.pct(40)
			v.Cache.XName = pickOf(g, "", "X-Cache-Status", "X-Kache-V1")
			for n := 0; n < p.Nodes; n++ {
				op := g.api(g.r.Int64N(p.EndMs), "PUT", p.Config.prefix()+"/cache/config/update", [2]string{"Content-Type", "application/yaml"})
				op.Node = n
				op.Config = &v
				op.Body = v.Cache.yaml("")
				p.Ops = append(p.Ops, op)
			}
		}
	}
}

func (g *gen) c17() {
	p := g.p
	g.backend(4, 1, 0)
	g.strict(20)
	p.Config.ACL = pickOf(g, "10.0.7.1", "10.0.7.0/24", "10.0.7.0/24, 10.1.0.0/16", "10.0.7.1, 10.9.9.9", "192.168.0.0/16", "10.0.7.1/32", "10.0.6.66,10.0.7.1", "127.0.0.1,10.0.7.1", " 10.0.7.1 ", "fd00::/8", "10.0.0.0/16,", "::1, 10.0.7.2", "fd00::7:1", "fd00:0:0:0::/64,10.0.7.1", "fd00::/16 , 10.0.6.66", "::ffff:10.0.7.1", "0.0.0.0/0", "::/0", "10.0.7.2/31", "10.0.7.0/30,10.0.6.64/31", "10.0.7.9/29")
	if g.pct(40) {
		p.Config.Prefix = pickOf(g, "/admin", "/x/y", "admin", "/admin/", "x/y/", "/x//y")
	}
	p.Config.Debug = g.pct(50)
	p.EndMs = int64(g.n(1000, 4000))
	g.resources(g.n(1, 3), func(r *Resource) {
		cc(r, "max-age=600")
	})
	g.mix = mix{burst: 20}
	g.traffic(g.n(10, 30), 0, p.EndMs)
	pre := p.Config.prefix()
	for i := 0; i < g.n(6, 25); i++ {
		at := g.r.Int64N(p.EndMs)
		var op Op
		switch g.r.IntN(9) {
		case 0:
			op = g.api(at, "GET", pre+"/cache/keys")
		case 1:
			op = g.api(at, "GET", pre+"/cache/config")
		case 2:
			op = g.api(at, "PURGE", "/", [2]string{"X-Purge-Key", g.keyPattern()})
		case 3:
			op = g.api(at, "DELETE", pre+"/cache/flush")
		case 4:
			op = g.api(at, "DELETE", pre+"/cache/invalidate", [2]string{"X-Purge-Key", g.keyPattern()})
		case 5:
			op = g.api(at, "GET", "/version")
		case 6:
			op = g.api(at, "POST", pre+"/cache/config/reload")
		case 7:
			op = g.api(at, pickOf(g, "GET", "POST", "PUT"), pickOf(g, "/", "/metrics", "/debug/pprof/symbol", "/debug/pprof/symbol", pre+"/cache/flush", pre, "/nope", "//"+strings.TrimPrefix(pre, "/")+"/cache/keys", pre+"/../"+"metrics"))
		case 8:
			op = g.api(at, "PUT", pre+"/cache/config/update", [2]string{"Content-Type", "application/yaml"})
			op.Config = g.cacheVariant(30 + i)
			op.Body = op.Config.Cache.yaml("")
		}
		if g.pct(55) {
			op.Mode = pickOf(g, "intruder", "intruder", "intruder", "intruder6")
		} else if g.pct(25) {
			op.Mode = "admin6"
		}
		if g.pct(12) {
			// what is claimed by a proxy in front counts
			op.Headers = append(op.Headers, [2]string{"X-Forwarded-For", pickOf(g, "10.0.9.9", "1.2.3.4, 10.0.6.66", "not an address", "10.0.7.1", "10.0.7.1, 10.0.6.66", "::ffff:10.0.7.1", "FD00::7:1", "10.0.7.1:80", "10.0.7.1,", "fd00::7:1%eth0")})
			if g.pct(30) {
				// the proxy adds a line of its own
				op.Headers = append(op.Headers, [2]string{"X-Forwarded-For", pickOf(g, "10.0.6.66", "10.0.7.1", "1.2.3.4", "", ",")})
			}
			if g.pct(35) {
				// which says nothing where there is a list
				op.Headers = append(op.Headers, [2]string{"X-Real-Ip", pickOf(g, "10.0.6.66", "10.0.7.1")})
			}
		} else if g.pct(6) {
			op.Headers = append(op.Headers, [2]string{"X-Real-Ip", pickOf(g, "10.0.6.66", "10.0.7.1", "none", "fd00::7:1")})
		}
		p.Ops = append(p.Ops, op)
	}
	if g.pct(20) {
		g.reloadOps(1)
	}
}

func (g *gen) c18() {
	g.backend(3, 2, 2)
	g.nodes()
	p := g.p
	c := &p.Config.Cache
	g.strict(35)
	if g.pct(20) {
		g.ups()
	}
	p.EndMs = int64(g.n(1500, 5000))
	if g.pct(60) {
		c.ExPaths = append(c.ExPaths, pickOf(g, "^/a/", "^/b$", "png$", "^/b/.*", "deep", "^/admin"))
		if g.pct(30) {
			c.ExPaths = append(c.ExPaths, "^/c")
		}
		if g.pct(15) {
			c.ExPaths = append([]string{"("}, c.ExPaths...)
		}
	}
	if g.pct(50) {
		c.ExHeaders = map[string]string{"x_requested_with": "XMLHttpRequest"}
		if g.pct(30) {
			c.ExHeaders["x_trace"] = "on"
		}
	}
	if g.pct(50) {
		c.ExContent = append(c.ExContent, ContentPlan{Type: pickOf(g, "image/.*", "application/json", "^text/", "text/html|image/png"), Size: pickOf(g, 0, 500, 2000)})
		for g.pct(40) {
			c.ExContent = append(c.ExContent, ContentPlan{Type: pickOf(g, "video/.*", "text/.*", "png", "json$", "html", "("), Size: pickOf(g, 0, 0, 300, 1500)})
		}
	}
	if g.pct(35) {
		c.DefaultCC = pickOf(g, "max-age=60", "no-store", "max-age=2", "private")
		c.ForceCC = g.pct(40)
	}
	// overrides that have to survive revalidations
	override := g.pct(25)
	if override {
		c.DefaultCC = pickOf(g, "max-age=1", "max-age=2", "max-age=1, must-revalidate", "no-cache")
		c.ForceCC = g.pct(70)
		p.EndMs = int64(g.n(4000, 9000))
	}
	g.resources(g.n(3, 6), func(r *Resource) {
		cc(r, pickOf(g, "max-age=600", "max-age=600", "", g.ccAny()))
		if override {
			r.ETag = true
			if g.pct(60) {
				r.H304 = [][2]string{{"Cache-Control", pickOf(g, "max-age=600", "max-age=600", "no-store", "max-age=1", "private", "public")}}
			}
		}
		if g.pct(15) {
			r.Extra["ctype2"] = pickOf(g, "image/png", "text/html", "application/json")
		}
		if g.pct(70) {
			r.Extra["ctype"] = pickOf(g, "image/png", "application/json", "text/html", "text/html; charset=utf-8", "video/mp4")
		}
		r.DelayMs = g.n(0, 80)
		if g.pct(15) {
			r.Status = pickOf(g, 500, 302, 404, 403, 410, 201)
		}
	})
	g.mix = mix{burst: g.n(10, 60), head: pickOf(g, 0, 10), query: pickOf(g, 0, 20), keep: pickOf(g, 0, 50)}
	g.traffic(g.n(20, 70), 0, p.EndMs)
	for i := range p.Ops {
		if p.Ops[i].Kind == "req" && len(c.ExHeaders) > 0 && g.pct(30) {
			p.Ops[i].Headers = append(p.Ops[i].Headers, pickOf(g, [2]string{"X-Requested-With", "XMLHttpRequest"}, [2]string{"X-Requested-With", "other"}, [2]string{"X-Trace", "on"}))
		}
	}
	g.changes(g.n(0, 3), 0, p.EndMs)
	if g.pct(35) {
		// the configuration is updated under load, the exclusions stay
		for i := 0; i < g.n(1, 4); i++ {
			at := g.r.Int64N(p.EndMs)
			v := g.cacheVariant(10 + i)
			v.Cache.XName = ""
			for k := 0; k < pickOf(g, 0, 2, 12); k++ {
				v.Cache.Timeouts = append(v.Cache.Timeouts, TimeoutPlan{Path: fmt.Sprintf("^/(t|u)%d+(x|y)*$", k), TTLMs: 30000})
			}
			op := g.api(at, "PUT", p.Config.prefix()+"/cache/config/update", [2]string{"Content-Type", "application/yaml"})
			op.Config = v
			op.Body = v.Cache.yaml("")
			p.Ops = append(p.Ops, op)
			t := g.hot[g.r.IntN(len(g.hot))]
			for k := 0; k < g.n(0, 12); k++ {
				op := g.request(at+int64(pickOf(g, -1, 0, 0, 0, 1)), t)
				if op.Node = p.Ops[len(p.Ops)-1].Node; op.At < 0 {
					op.At = 0
				}
				p.Ops = append(p.Ops, op)
			}
			for k := 0; k < g.n(1, 3); k++ {
				p.Ops = append(p.Ops, g.request(at+int64(g.n(20, 300)), t))
			}
		}
	}
}

func (g *gen) c19() {
	g.backend(3, 1, 1)
	p := g.p
	g.strict(40)
	g.ups()
	p.EndMs = int64(g.n(1500, 5000))
	g.resources(g.n(2, 5), func(r *Resource) {
		cc(r, pickOf(g, "", "no-store", "max-age=1", "max-age=60", "no-cache"))
		r.DelayMs = g.n(0, 50)
	})
	g.mix = mix{burst: g.n(0, 50), head: g.n(0, 15), post: g.n(10, 60), query: g.n(10, 60), keep: pickOf(g, 0, 60), cond: pickOf(g, 0, 15), rng: pickOf(g, 0, 15), auth: pickOf(g, 0, 15), ccReq: pickOf(g, 0, 15), cancel: pickOf(g, 0, 0, 10)}
	g.traffic(g.n(15, 60), 0, p.EndMs)
	for i := range p.Ops {
		o := &p.Ops[i]
		if o.Kind != "req" {
			continue
		}
		if g.pct(25) {
			_, q, has := strings.Cut(o.Target, "?")
			o.Target = pickOf(g, "/a%2Fx", "/b/%61%62", "/a/%C3%A9", "/a/x%20y", "/a/+", "/a//b", "/b/./c", "/a/x/../y", "/a/%2e%2e/z", "/b/a%3Fb", "/a/x;v=1", "/a/:x@y", "/a/%25", "/b/*", "//a/x", "///b", "//b//")
			if has {
				o.Target += "?" + q
			}
		}
		if g.pct(20) {
			t, _, _ := strings.Cut(o.Target, "?")
			o.Target = t + pickOf(g, "?a=1;b=2", "?%zz=1&x=2", "?a=%2", "?x=1&x=2&x=1", "?=v", "?&&a=1", "?a==b", "?a=%7E~", "?x=%E9", "?a=b?c=d")
		}
		if g.pct(20) {
			o.Headers = append(o.Headers, pickOf(g, [2]string{"X-Custom", "a, b"}, [2]string{"Cookie", "a=1; b=2"}, [2]string{"Accept", "text/html"}, [2]string{"Accept-Encoding", "gzip"}, [2]string{"User-Agent", "sim/1"}, [2]string{"X-Forwarded-For", "203.0.113.7"}, [2]string{"Te", "trailers"}, [2]string{"Referer", "http://x/"}))
		}
		if g.pct(8) {
			o.Host = pickOf(g, "example.org", "example.org:8080")
		}
		if g.pct(10) {
			o.Headers = append(o.Headers, pickOf(g, [][2]string{{"Connection", "X-Hop"}, {"X-Hop", "1"}}, [][2]string{{"Keep-Alive", "timeout=4"}}, [][2]string{{"Proxy-Connection", "keep-alive"}}, [][2]string{{"Proxy-Authorization", "Basic eDp5"}},
				[][2]string{{"Connection", "Keep-Alive, x-hop"}, {"X-Hop", "1"}, {"Keep-Alive", "timeout=4"}}, [][2]string{{"Te", "gzip"}}, [][2]string{{"Connection", "Te"}, {"Te", "trailers"}}, [][2]string{{"Upgrade", "h2c"}},
				[][2]string{{"Connection", "Upgrade"}, {"Upgrade", "websocket"}}, [][2]string{{"Connection", "Upgrade, HTTP2-Settings"}, {"Upgrade", "h2c"}, {"Http2-Settings", "AAMAAABkAAQAAP"}}, [][2]string{{"Trailer", "X-Sum"}}, [][2]string{{"Connection", "X-Hop, X-Hop2"}, {"X-Hop2", "1"}, {"X-Hop3", "1"}})...)
		}
		if g.pct(8) {
			o.Headers = append(o.Headers, [2]string{"X-Forwarded-For", pickOf(g, "203.0.113.7, 198.51.100.9", "unknown", "2001:db8::1")})
			if g.pct(40) {
				o.Headers = append(o.Headers, [2]string{"X-Forwarded-For", "198.51.100.3"})
			}
		}
		if o.BodyLen > 0 && g.pct(15) {
			o.Headers = append(o.Headers, [2]string{"Expect", "100-continue"})
			p.Flags = append(p.Flags, "continue")
		}
	}
	for i := range p.Resources {
		if g.pct(20) {
			r := &p.Resources[i]
			if r.Extra == nil {
				r.Extra = map[string]string{}
			}
			r.Extra["hop"] = "1"
		}
	}
	if g.pct(15) {
		g.upgrades()
	}
	if g.pct(15) {
		g.originFaults(1)
	}
	if g.pct(10) {
		g.fault(Fault{At: g.at(), DurMs: int64(g.n(100, 1000)), Kind: pickOf(g, "refuse", "cut", "reset"), A: "*kache", B: "*origins"})
	}
}

func (g *gen) c20() {
	g.backend(3, 2, 2)
	g.nodes()
	p := g.p
	g.strict(30)
	if g.pct(40) {
		g.ups()
	}
	p.EndMs = int64(g.n(3000, 12000))
	g.resources(g.n(1, 5), func(r *Resource) {
		cc(r, pickOf(g, "max-age=600", "max-age=60", "max-age=600, public", "s-maxage=100, max-age=0", "max-age=8", "no-store", "Max-Age=300"))
		if g.pct(15) {
			r.Headers = nil
			r.ExpireMs = 300000
		}
		if g.pct(10) {
			r.Headers = append(r.Headers, [2]string{"Age", fmt.Sprint(pickOf(g, 1, 4))})
		}
		if g.pct(10) {
			r.Size = 0
			r.Extra["empty"] = "1"
		}
		r.DelayMs = g.n(0, 60)
	})
	if len(p.Config.Upstreams) == 1 && p.Config.Upstreams[0].Path == "/" {
		g.mix.spell = pickOf(g, 0, 0, 20)
	}
	g.mix = mix{spell: g.mix.spell, burst: pickOf(g, 0, 20, 50), head: pickOf(g, 0, 15), query: pickOf(g, 0, 40), cond: pickOf(g, 0, 10), rng: pickOf(g, 0, 10), auth: pickOf(g, 0, 10), ccReq: pickOf(g, 0, 10), cancel: pickOf(g, 0, 10), keep: pickOf(g, 0, 50), post: pickOf(g, 0, 5), slow: pickOf(g, 0, 5)}
	g.traffic(g.n(20, 90), 0, p.EndMs)
	g.changes(g.n(0, 3), 0, p.EndMs)
	if g.pct(25) {
		g.purges(g.n(1, 3), 0, p.EndMs)
	}
	if g.pct(20) {
		p.Config.Cache.DefaultTTLMs = int64(g.n(1000, 8000))
	}
	if g.pct(15) {
		p.Config.MemMax, p.Config.MemItem = 100000, 50000
	}
}

// c22 has the counters of the cache read while it is used.
func (g *gen) c22() {
	g.backend(3, 2, 2)
	g.nodes()
	p := g.p
	g.strict(30)
	if g.pct(30) {
		g.ups()
	}
	p.EndMs = int64(g.n(2000, 9000))
	c := &p.Config.Cache
	if g.pct(25) {
		c.ExPaths = []string{pickOf(g, "^/a", "png$", "^/b/z")}
	}
	if g.pct(20) {
		c.ExHeaders = map[string]string{"x_skip": "1"}
	}
	g.resources(g.n(1, 5), func(r *Resource) {
		cc(r, pickOf(g, g.ccCache(), g.ccCache(), g.ccAny()))
		if g.pct(60) {
			r.ETag = true
		}
		r.DelayMs = g.n(0, 60)
		if g.pct(10) {
			g.weird(r)
		}
	})
	if g.pct(40) {
		// one request after another
		g.mix = mix{cond: pickOf(g, 0, 20), rng: pickOf(g, 0, 10), auth: pickOf(g, 0, 20), head: pickOf(g, 0, 20), post: pickOf(g, 0, 20), ccReq: pickOf(g, 0, 20), query: pickOf(g, 0, 30), keep: pickOf(g, 0, 100)}
		n := g.n(5, 30)
		p.EndMs = int64(n*300 + 500)
		for i := 0; i < n; i++ {
			g.p.Ops = append(g.p.Ops, g.request(int64(300*i), g.hot[g.r.IntN(len(g.hot))]))
			if g.pct(20) {
				op := g.api(int64(300*i+250), "GET", "/metrics")
				p.Ops = append(p.Ops, op)
			}
		}
	} else {
		g.mix = mix{burst: pickOf(g, 0, 30, 60), head: pickOf(g, 0, 15), ccReq: pickOf(g, 0, 15), cond: pickOf(g, 0, 10), auth: pickOf(g, 0, 10), rng: pickOf(g, 0, 10), post: pickOf(g, 0, 10), keep: pickOf(g, 0, 50), cancel: pickOf(g, 0, 0, 20), exhdr: pickOf(g, 0, 30), query: pickOf(g, 0, 20), slow: pickOf(g, 0, 10), odd: pickOf(g, 0, 0, 5), spell: pickOf(g, 0, 0, 10)}
		g.traffic(g.n(10, 80), 0, p.EndMs)
		for i := 0; i < g.n(1, 6); i++ {
			p.Ops = append(p.Ops, g.api(g.r.Int64N(p.EndMs), "GET", "/metrics"))
		}
		if g.pct(30) {
			g.originFaults(g.n(1, 3))
		}
		if g.pct(30) {
			g.redisFaults(g.n(1, 2), false)
		}
		if g.pct(15) {
			g.nodeFaults(1)
		}
		if g.pct(20) {
			v := p.Config
			v.Cache.ExPaths = []string{"^/b"}
			op := g.api(g.r.Int64N(p.EndMs), "PUT", p.Config.prefix()+"/cache/config/update", [2]string{"Content-Type", "application/yaml"})
			op.Config, op.Body = &v, v.Cache.yaml("")
			p.Ops = append(p.Ops, op)
		}
	}
	if g.pct(30) {
		g.changes(g.n(1, 4), 0, p.EndMs)
	}
	if g.pct(20) {
		g.purges(g.n(1, 2), 0, p.EndMs)
	}
	for i := 0; i < p.Nodes; i++ {
		op := g.api(p.EndMs-1, "GET", "/metrics")
		op.Node = i
		p.Ops = append(p.Ops, op)
		op.At = p.EndMs + 4000
		p.Ops = append(p.Ops, op)
	}
	if len(c.ExHeaders) > 0 {
		for i := range p.Ops {
			if op := &p.Ops[i]; op.Kind == "req" && g.pct(25) {
				op.Headers = append(op.Headers, [2]string{"X-Skip", pickOf(g, "1", "1", "0")})
			}
		}
	}
}

// c23: starts with files and in circumstances of all kinds.
func (g *gen) c23() {
	g.backend(3, 2, 2)
	g.nodes()
	p := g.p
	g.strict(40)
	if p.Config.Backend == "redis" && g.pct(30) {
		p.Config.Cluster = true
	}
	if g.pct(30) {
		g.ups()
	}
	p.EndMs = int64(g.n(9000, 26000))
	g.resources(g.n(1, 3), func(r *Resource) {
		cc(r, g.ccCache())
		r.DelayMs = g.n(0, 30)
	})
	g.mix = mix{burst: pickOf(g, 0, 20), keep: pickOf(g, 0, 50), post: 5, query: pickOf(g, 0, 20)}
	g.traffic(g.n(20, 90), 0, p.EndMs)
	for i := 0; i < g.n(2, 8); i++ {
		p.Ops = append(p.Ops, g.api(g.r.Int64N(p.EndMs), "GET", pickOf(g, "/version", p.Config.prefix()+"/cache/config", p.Config.prefix()+"/cache/keys")))
	}
	flaws := []string{"missing", "empty", "dir", "garbage", "torn", "unknown", "wrongtype", "no-listeners", "null-listener", "bad-listener", "dup-listener",
		"no-upstreams", "null-upstream", "bad-upstream", "no-api", "bad-acl", "bad-port", "port-clash", "no-provider", "bad-backend", "bad-cluster"}
	if p.Config.Backend == "inmemory" || p.Config.Layered {
		flaws = append(flaws, "mem-item", "mem-item")
	}
	if p.Config.Backend == "redis" {
		flaws = append(flaws, "no-endpoint", "no-workers")
	}
	id := 1
	at := int64(g.n(300, 2500))
	for at < p.EndMs-1000 {
		node := g.r.IntN(p.Nodes)
		v := p.Config
		write := func(at int64, mode string) {
			c := v
			id++
			p.Ops = append(p.Ops, Op{At: at, Kind: "cfg", Node: node, Config: &c, Mode: mode, ID: id})
		}
		good := pickOf(g, "write", "write", "sparse", "hosts")
		flaw := g.pct(70)
		if flaw {
			write(at, pickOf(g, flaws...))
		} else {
			write(at, good)
			good = ""
		}
		// it ends, and is started again
		if g.pct(60) {
			g.fault(Fault{At: at + 1, DurMs: int64(g.n(10, 1500)), Kind: "crash", A: fmt.Sprintf("kache%d", node), Mode: pickOf(g, "", "power")})
		} else {
			p.Ops = append(p.Ops, Op{At: at + 1, Kind: pickOf(g, "sigterm", "sigint"), Node: node})
			p.Ops = append(p.Ops, Op{At: at + int64(g.n(6500, 7500)), Kind: "start", Node: node})
		}
		if g.pct(25) {
			g.fault(Fault{At: at, DurMs: int64(g.n(500, 9000)), Kind: "port", A: fmt.Sprintf("kache%d", node), Arg: int64(pickOf(g, 80, 3128, 6067))})
		}
		if g.pct(15) && p.Config.Backend == "redis" {
			f := Fault{At: max(0, at-100), DurMs: int64(g.n(500, 6000)), Kind: "redis", A: "redis", Prob: 100, Arg: int64(g.n(100, 30000)), Mode: pickOf(g, "crash", "error", "loading", "slow", "reset-before")}
			if g.pct(40) {
				f = Fault{At: f.At, DurMs: f.DurMs, Kind: pickOf(g, "refuse", "partition", "cut"), A: "*kache", B: "redis"}
			}
			g.fault(f)
		}
		if flaw && g.pct(80) {
			at += int64(g.n(500, 9000))
			write(at, good)
		}
		at += int64(g.n(2500, 11000))
	}
	for i := range p.Nodes {
		v := p.Config
		id++
		p.Ops = append(p.Ops, Op{At: p.EndMs - 1, Kind: "cfg", Node: i, Config: &v, Mode: "write", ID: id})
		p.Ops = append(p.Ops, Op{At: p.EndMs, Kind: "start", Node: i})
	}
	p.Probe = g.pct(30)
	if g.pct(4) {
		// watched at an interval that is none
		p.Watch, p.WatchMs, p.Probe = true, pickOf(g, int64(0), 0, -100), false
	}
}
