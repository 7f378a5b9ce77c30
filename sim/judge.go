//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"net/http"
	"net/url"
	"path"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"
)

// The oracles. They look at the recorded history of a run: what the clients
// saw, what the origins and Redis saw, what the administrator did and which
// faults were injected when.

// ccDir is what the Cache-Control lines of a message say, read as RFC 9111
// defines them: a list over all lines, names in any case.
type ccDir struct {
	present                                      bool
	noStore, private, noCache, mustReval         bool
	maxAge, sMaxAge, minFresh, maxStale          time.Duration
	hasMaxAge, hasSMaxAge, hasMinFresh, hasStale bool
	anyStale                                     bool
	twice                                        bool // contradicts itself: the larger value is kept
}

func parseCC(lines []string) ccDir {
	var c ccDir
	for _, l := range lines {
		for _, d := range strings.Split(l, ",") {
			n, v, _ := strings.Cut(strings.TrimSpace(d), "=")
			n = strings.ToLower(strings.TrimSpace(n))
			v = strings.Trim(strings.TrimSpace(v), `"'`)
			if n != "" {
				c.present = true
			}
			dur, okv := deltaSeconds(v)
			switch n {
			case "no-store":
				c.noStore = true
			case "private":
				c.private = true
			case "no-cache":
				c.noCache = true
			case "must-revalidate", "proxy-revalidate":
				c.mustReval = true
			case "max-age":
				if okv {
					c.twice = c.twice || c.hasMaxAge && c.maxAge != dur
					c.maxAge, c.hasMaxAge = max(c.maxAge, dur), true
				}
			case "s-maxage":
				if okv {
					c.twice = c.twice || c.hasSMaxAge && c.sMaxAge != dur
					c.sMaxAge, c.hasSMaxAge = max(c.sMaxAge, dur), true
				}
			case "min-fresh":
				if okv {
					c.minFresh, c.hasMinFresh = dur, true
				}
			case "max-stale":
				if v == "" {
					c.anyStale = true
				} else if okv {
					c.maxStale, c.hasStale = dur, true
				}
			}
		}
	}
	return c
}

// greatDelta is what any greater number of seconds has to be taken for.
const greatDelta = (1 << 31) * time.Second

// deltaSeconds reads a number of seconds as RFC 9111, section 1.2.2, wants it.
func deltaSeconds(s string) (time.Duration, bool) {
	if s == "" || strings.Trim(s, "0123456789") != "" {
		return 0, false
	}
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil || n > uint64(greatDelta/time.Second) {
		return greatDelta, true
	}
	return time.Duration(n) * time.Second, true
}

// view is what a response turned out to be.
type view struct {
	E    *Exchange // the exchange its representation comes from
	V    *Exchange // the 304 it was validated with, if any
	own  bool      // E was made for this very request
	ownV bool
	made bool // made by kache itself, not from an origin
	hit  bool
}

// X is the last contact with the origin the response rests on.
func (v *view) X() *Exchange {
	if v.V != nil {
		return v.V
	}
	return v.E
}

type ident struct {
	origin  int
	host    string
	target  string // as it has to arrive at the origin
	path    string // cleaned, %2F kept apart
	decoded string // decoded joined path, not cleaned
	query   string // normalised
	key     string
	ok      bool
}

const slashMark = "\x01"

func splitTarget(t string) (string, string, bool) {
	p, q, has := strings.Cut(t, "?")
	return p, q, has
}

func qnorm(raw string) string {
	if raw == "" {
		return ""
	}
	type kv struct{ k, v string }
	var l []kv
	for _, s := range strings.Split(raw, "&") {
		if s == "" {
			continue
		}
		k, v, _ := strings.Cut(s, "=")
		if strings.Contains(s, ";") {
			l = append(l, kv{"\x02" + s, ""})
			continue
		}
		dk, e1 := url.QueryUnescape(k)
		dv, e2 := url.QueryUnescape(v)
		if e1 != nil || e2 != nil {
			l = append(l, kv{"\x02" + s, ""})
			continue
		}
		l = append(l, kv{dk, dv})
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].k < l[j].k })
	var b strings.Builder
	for _, x := range l {
		fmt.Fprintf(&b, "%q=%q&", x.k, x.v)
	}
	return b.String()
}

func normPath(raw string) string {
	raw = strings.ReplaceAll(strings.ReplaceAll(raw, "%2F", slashMark), "%2f", slashMark)
	d, err := url.PathUnescape(raw)
	if err != nil {
		d = raw
	}
	if d == "" {
		d = "/"
	}
	if d[0] != '/' {
		d = "/" + d
	}
	return path.Clean(d)
}

// identify says where a request with this target has to go.
func (w *World) identify(target string) ident {
	raw, q, has := splitTarget(target)
	dec, err := url.PathUnescape(raw)
	if err != nil {
		return ident{}
	}
	for _, u := range w.plan.Config.Upstreams {
		if !strings.HasPrefix(dec, u.Path) {
			continue
		}
		up := joinSlash(u.Base, raw)
		id := ident{origin: u.Origin, host: u.host(), ok: true}
		id.target = up
		if has {
			id.target += "?" + q
		}
		id.path = normPath(up)
		id.query = qnorm(q)
		ud, _ := url.PathUnescape(up)
		id.decoded = ud
		ku := url.URL{Scheme: "http", Host: u.host(), Path: id.path}
		if strings.Contains(id.path, slashMark) {
			esc := (&url.URL{Path: strings.ReplaceAll(id.path, slashMark, "Z1slash1Z")}).EscapedPath()
			ku.Path, ku.RawPath = strings.ReplaceAll(id.path, slashMark, "/"), strings.ReplaceAll(esc, "Z1slash1Z", "%2F")
		}
		if v, err := url.ParseQuery(q); err == nil {
			ku.RawQuery = v.Encode()
		} else {
			ku.RawQuery = q
		}
		id.key = "kache-" + ku.String()
		return id
	}
	return ident{}
}

func joinSlash(a, b string) string {
	as, bs := strings.HasSuffix(a, "/"), strings.HasPrefix(b, "/")
	switch {
	case as && bs:
		return a + b[1:]
	case !as && !bs:
		return a + "/" + b
	}
	return a + b
}

func sameResource(id ident, e *Exchange) bool {
	p, q, _ := splitTarget(e.Target)
	return e.Origin == id.origin && normPath(p) == id.path && qnorm(q) == id.query
}

// configs are all configurations the run may have had in force.
func (w *World) allCaches() []*CachePlan {
	l := []*CachePlan{&w.plan.Config.Cache}
	for i := range w.plan.Ops {
		if c := w.plan.Ops[i].Config; c != nil {
			l = append(l, &c.Cache)
		}
	}
	return l
}

// commonRules are the exclusions that all of the configurations have: whatever
// is reloaded when, they are in force.
func commonRules(l []*CachePlan) CachePlan {
	all := func(has func(c *CachePlan) bool) bool {
		for _, c := range l {
			if c.NoSection || !has(c) {
				return false
			}
		}
		return true
	}
	out := CachePlan{ExHeaders: map[string]string{}}
	for _, p := range l[0].ExPaths {
		if all(func(c *CachePlan) bool { return slices.Contains(c.ExPaths, p) }) {
			out.ExPaths = append(out.ExPaths, p)
		}
	}
	for k, v := range l[0].ExHeaders {
		if all(func(c *CachePlan) bool { x, ok := c.ExHeaders[k]; return ok && x == v }) {
			out.ExHeaders[k] = v
		}
	}
	for _, x := range l[0].ExContent {
		if all(func(c *CachePlan) bool { return slices.Contains(c.ExContent, x) }) {
			out.ExContent = append(out.ExContent, x)
		}
	}
	return out
}

type judgeState struct {
	w           *World
	byReq       map[int]*OpRec
	views       map[*OpRec]*view
	ids         map[*OpRec]ident
	strict      bool // strict in every configuration of the run
	lax         bool // not strict in every configuration
	static      bool // one cache configuration throughout
	cache       *CachePlan
	rules       CachePlan // the exclusions of every configuration of the run
	xnames      map[string]bool
	skew        time.Duration
	exByKey     map[string][]*Exchange
	opsByKey    map[string][]*OpRec
	purges      []*OpRec
	stallSlack  time.Duration
	rawRequests bool
	unmarked    bool // some responses tell their exchange in the body only
}

func judge(w *World) {
	j := &judgeState{w: w, byReq: map[int]*OpRec{}, views: map[*OpRec]*view{}, ids: map[*OpRec]ident{},
		strict: true, lax: true, static: true, xnames: map[string]bool{"X-Kache": true}, exByKey: map[string][]*Exchange{},
		opsByKey: map[string][]*OpRec{}, cache: &w.plan.Config.Cache}
	for _, c := range w.allCaches() {
		if c.NoSection || c.strict() {
			j.lax = false
		} else {
			j.strict = false
		}
		if c != j.cache {
			j.static = false
		}
		if c.XName != "" {
			j.xnames[http.CanonicalHeaderKey(c.XName)] = true
		}
	}
	j.rules = commonRules(w.allCaches())
	for _, r := range w.plan.Resources {
		if r.extra("noid") {
			j.unmarked = true
		}
	}
	lo, hi := int64(0), int64(0)
	for _, s := range append(append([]int64{}, w.plan.SkewMs...), w.plan.OSkewMs...) {
		lo, hi = min(lo, s), max(hi, s)
	}
	for _, f := range w.plan.Faults {
		if f.Kind == "clock" {
			lo, hi = min(lo, -absI(f.Arg)), max(hi, absI(f.Arg))
		}
	}
	j.skew = time.Duration(hi-lo) * time.Millisecond
	if w.plan.Sched.StallN > 0 {
		j.stallSlack = 40 * time.Duration(w.plan.Sched.StallMaxUs) * time.Microsecond
	}
	for _, r := range w.ops {
		j.byReq[r.ID] = r
		if r.Op.Text != "" {
			j.rawRequests = true
		}
		if r.Op.Kind == "req" && r.Op.Text == "" {
			id := w.identify(r.Op.Target)
			j.ids[r] = id
			j.opsByKey[id.key] = append(j.opsByKey[id.key], r)
		}
		if r.Op.Kind == "api" && r.ok() && r.Status == 200 && j.purgePattern(r) != nil {
			j.purges = append(j.purges, r)
		}
	}
	for _, e := range w.exchs {
		k := fmt.Sprintf("%d|%s|%s", e.Origin, normPath(e.Path), qnorm(queryOf(e.Target)))
		j.exByKey[k] = append(j.exByKey[k], e)
	}
	for _, r := range w.ops {
		if r.Op.Kind != "req" || r.Op.Text != "" {
			continue
		}
		if !r.Done {
			continue
		}
		if strings.HasPrefix(r.Err, "malformed") {
			w.violate("C01", "malformed-response", "%v received a malformed response: %s", r, r.Err)
		}
		if r.ok() {
			v := j.classify(r)
			j.views[r] = v
		}
	}
	for _, r := range w.ops {
		v := j.views[r]
		if v == nil {
			continue
		}
		j.integrity(r, v)
		j.privacy(r, v)
		j.freshness(r, v)
		j.validation(r, v)
		j.purged(r, v)
		j.ttl(r, v)
		j.truth(r, v)
		j.policy(r, v)
		j.mustHit(r, v)
	}
	j.stored()
	j.forwarding()
	j.flights()
	j.available()
	j.failures()
	j.admin()
	j.capacity()
	j.cluster()
	j.reloads()
	j.shutdowns()
	j.metrics()
	j.boots()
}

func absI(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func queryOf(t string) string {
	_, q, _ := splitTarget(t)
	return q
}

func (j *judgeState) exKey(id ident) string {
	return fmt.Sprintf("%d|%s|%s", id.origin, id.path, id.query)
}

func (j *judgeState) exch(n int) *Exchange {
	if n < 1 || n > len(j.w.exchs) {
		return nil
	}
	return j.w.exchs[n-1]
}

func (j *judgeState) classify(r *OpRec) *view {
	v := &view{}
	if s := r.Header.Get("X-Exch"); s != "" {
		n, _ := strconv.Atoi(s)
		v.E = j.exch(n)
	}
	if s := r.Header.Get("X-Val"); s != "" {
		n, _ := strconv.Atoi(s)
		v.V = j.exch(n)
	}
	if m := exRe.FindSubmatch(r.Body); m != nil {
		n, _ := strconv.Atoi(string(m[1]))
		e := j.exch(n)
		if v.E == nil {
			v.E = e
		} else if e != v.E && r.Status != 206 {
			j.w.violate("C01", "mixed-response", "%v: header of exchange %d with the body of exchange %d", r, v.E.ID, n)
		}
	}
	if v.E == nil && v.V == nil {
		v.made = true
	}
	v.own = v.E != nil && v.E.XReq == r.ID
	v.ownV = v.V != nil && v.V.XReq == r.ID
	for n := range j.xnames {
		if r.Header.Get(n) == "HIT" {
			v.hit = true
		}
	}
	return v
}

func reqCC(r *OpRec) (ccDir, bool) {
	var cc []string
	pragma := false
	for _, h := range r.Op.Headers {
		if strings.EqualFold(h[0], "Cache-Control") {
			cc = append(cc, h[1])
		}
		if strings.EqualFold(h[0], "Pragma") && strings.Contains(strings.ToLower(h[1]), "no-cache") {
			pragma = true
		}
	}
	d := parseCC(cc)
	if len(cc) == 0 && pragma {
		d.noCache = true
	}
	return d, pragma
}

func hasHeader(r *OpRec, names ...string) bool {
	for _, h := range r.Op.Headers {
		for _, n := range names {
			if strings.EqualFold(h[0], n) {
				return true
			}
		}
	}
	return false
}

func conditional(r *OpRec) bool {
	return hasHeader(r, "If-None-Match", "If-Modified-Since", "If-Match", "If-Unmodified-Since", "If-Range")
}

// special requests carry something that sets them apart from a plain GET.
func special(r *OpRec) bool {
	return conditional(r) || hasHeader(r, "Authorization", "Range", "Cache-Control", "Pragma")
}

// respCC is the effective Cache-Control of what a response rests on.
func (j *judgeState) respCC(e, v *Exchange) (ccDir, []string) {
	var lines []string
	if e != nil {
		lines = e.RHeader["Cache-Control"]
	}
	if v != nil {
		if l, ok := v.RHeader["Cache-Control"]; ok {
			lines = l
		}
	}
	if j.static && j.cache.ForceCC || len(lines) == 0 && j.cache.DefaultCC != "" {
		lines = []string{j.cache.DefaultCC}
	}
	return parseCC(lines), lines
}

// ---- C01: integrity

var hopHeaders = map[string]bool{"Connection": true, "Keep-Alive": true, "Transfer-Encoding": true, "Te": true, "Trailer": true,
	"Upgrade": true, "Proxy-Connection": true, "Content-Length": true}

func (j *judgeState) integrity(r *OpRec, v *view) {
	w := j.w
	if r.Extra {
		w.violate("C01", "bytes-after-response", "%v: bytes after the end of the response", r)
	}
	if v.made {
		if r.Status == 200 && !(r.Op.Method == "HEAD" && j.unmarked) {
			w.violate("C01", "unattributable", "%v: a 200 response that no origin sent (%d bytes)", r, len(r.Body))
		}
		return
	}
	w.cover["C01.responses"]++
	id := j.ids[r]
	if !id.ok {
		w.violate("C01", "unroutable-served", "%v has no upstream but got a response of exchange", r)
		return
	}
	for _, e := range []*Exchange{v.E, v.V} {
		if e == nil {
			continue
		}
		if !sameResource(id, e) {
			w.violate("C01", "wrong-resource", "%v was answered with exchange %d of origin%d %s", r, e.ID, e.Origin, e.Target)
			return
		}
	}
	e := v.E
	if e == nil {
		// A bare 304 or the like: only its own exchange may cause it.
		if !v.ownV && r.Status == 304 {
			w.violate("C04", "foreign-304", "%v got the 304 of exchange %d, made for request %d", r, v.V.ID, v.V.XReq)
		}
		return
	}
	head := r.Op.Method == "HEAD"
	switch {
	case r.Op.Method != "GET" && r.Op.Method != "HEAD":
		if !v.own {
			w.violate("C19", "shared-unsafe", "%v (%s) was answered with exchange %d of request %d", r, r.Op.Method, e.ID, e.XReq)
		}
	case r.Op.Method == "GET" && e.Method != "GET", head && e.Method != "GET" && e.Method != "HEAD":
		w.violate("C04", "wrong-method", "%v was answered with exchange %d, a %s", r, e.ID, e.Method)
		return
	}
	if !e.Sent && e.Method != "HEAD" && !head {
		w.violate("C01", "truncated-served", "%v got a complete response from exchange %d, which the origin never completed (%s)", r, e.ID, e.Fault)
		return
	}
	if r.Status != e.Status {
		w.violate("C01", "wrong-status", "%v got status %d, exchange %d had %d", r, r.Status, e.ID, e.Status)
		return
	}
	if head {
		if len(r.Body) != 0 {
			w.violate("C04", "head-body", "%v: HEAD response with a body", r)
		}
	} else if !bytes.Equal(r.Body, e.Body) {
		w.violate("C01", "wrong-body", "%v: body of %d bytes differs from that of exchange %d (%d bytes, %s)", r, len(r.Body), e.ID, len(e.Body), e.Fault)
		return
	}
	if r.Length >= 0 && !head && r.Status != 304 && int(r.Length) != len(r.Body) {
		w.violate("C01", "wrong-length", "%v: Content-Length %d with %d bytes", r, r.Length, len(r.Body))
	}
	// Headers.
	want := http.Header{}
	for k, l := range e.RHeader {
		want[k] = l
	}
	if v.V != nil {
		for k, l := range v.V.RHeader {
			switch k {
			case "Content-Length", "Content-Range", "Etag", "Vary":
			default:
				want[k] = l
			}
		}
	}
	for k, l := range want {
		if hopHeaders[k] || k == "Age" || j.xnames[k] {
			continue
		}
		if k == "Cache-Control" {
			if _, eff := j.respCC(e, v.V); j.static && joinTrim(r.Header[k]) != joinTrim(eff) && !(v.own && w.plan.Prop != "C01" && joinTrim(r.Header[k]) == joinTrim(l)) {
				w.violate("C01", "wrong-header", "%v: Cache-Control %q, should be %q", r, r.Header[k], eff)
				if j.cache.ForceCC {
					w.violate("C18", "override-lost", "%v: Cache-Control %q, should be forced to %q", r, r.Header[k], eff)
				}
			}
			continue
		}
		if strings.Join(r.Header[k], "\x00") != strings.Join(l, "\x00") {
			w.violate("C01", "wrong-header", "%v: header %s is %q, exchange %d had %q", r, k, r.Header[k], e.ID, l)
			if v.V != nil {
				w.violate("C04", "wrong-header", "%v: header %s is %q, should be %q (exchange %d validated by %d)", r, k, r.Header[k], l, e.ID, v.V.ID)
			}
		}
	}
	for _, k := range []string{"X-Rhop", "Keep-Alive", "Proxy-Authenticate", "Upgrade"} {
		if _, ok := r.Header[k]; ok {
			w.violate("C19", "hop-by-hop", "%v: %s: %q was passed on from exchange %d", r, k, r.Header[k], e.ID)
		}
	}
	// Trailer fields may get lost, but not be another response's.
	for _, l := range [][]string{r.Header["X-Sum"], r.Trailer["X-Sum"]} {
		if len(l) > 0 {
			w.cover["C01.trailers"]++
			if l[0] != fmt.Sprint(e.ID) {
				w.violate("C01", "foreign-trailer", "%v: trailer field X-Sum=%q is not of exchange %d", r, l, e.ID)
			}
		}
	}
	for k := range r.Header {
		if _, ok := want[k]; ok || k == "X-Sum" || hopHeaders[k] || k == "Age" || k == "Date" || j.xnames[k] || k == "Cache-Control" || k == "Content-Type" {
			continue
		}
		w.violate("C01", "foreign-header", "%v: header %s=%q is not of exchange %d", r, k, r.Header[k], e.ID)
		if v.V != nil {
			w.violate("C04", "foreign-header", "%v: header %s=%q is not of exchange %d validated by %d", r, k, r.Header[k], e.ID, v.V.ID)
		}
	}
}

func joinTrim(l []string) string {
	var t []string
	for _, s := range l {
		t = append(t, strings.TrimSpace(s))
	}
	return strings.Join(t, ", ")
}

// ---- C02: privacy

func (j *judgeState) restricted(e, v *Exchange) (string, *Exchange) {
	for _, x := range []*Exchange{e, v} {
		if x == nil {
			continue
		}
		if x.Header.Get("Authorization") != "" {
			return "auth", x
		}
		if j.strict {
			if parseCC(x.Header["Cache-Control"]).noStore {
				return "request-no-store", x
			}
			cc, _ := j.respCC(x, nil)
			if j.static && (cc.noStore || cc.private) {
				return "response-private", x
			}
		}
	}
	return "", nil
}

func (j *judgeState) privacy(r *OpRec, v *view) {
	w := j.w
	if v.E == nil || r.Op.Method != "GET" && r.Op.Method != "HEAD" {
		return
	}
	if hasHeader(r, "Authorization") {
		w.cover["C02.authorized"]++
		if !v.own {
			w.violate("C02", "auth-request-shared", "%v carries Authorization but was answered with exchange %d made for request %d", r, v.E.ID, v.E.XReq)
		}
	}
	if v.own {
		return
	}
	w.cover["C02.shared"]++
	foreign := v.V
	if v.ownV {
		foreign = nil
	}
	why, x := j.restricted(v.E, foreign)
	if cc, _ := reqCC(r); why == "request-no-store" && cc.noStore && (x.End == 0 || j.opEnd(x) == 0 || max(x.End, j.opEnd(x)) >= r.Start) {
		why = "" // two such requests at the same moment may share, nothing is kept
	}
	if why != "" {
		w.violate("C02", why+"-shared", "%v was answered with exchange %d made for request %d (%s: %v %v)", r, v.E.ID, v.E.XReq, why,
			v.E.Header["Cache-Control"], v.E.RHeader["Cache-Control"])
	}
}

// stored looks at what reached the shared store.
func (j *judgeState) stored() {
	w := j.w
	if w.redis == nil {
		return
	}
	for _, s := range w.redis.sets {
		e := j.exch(s.Info.Exch)
		if e == nil {
			continue
		}
		w.cover["C02.stored"]++
		if why, _ := j.restricted(e, j.exch(s.Info.Val)); why != "" {
			w.violate("C02", why+"-stored", "exchange %d (%s of request %d) was stored in redis: %s", e.ID, e.Target, e.XReq, why)
		}
		if !e.Sent {
			w.violate("C01", "truncated-stored", "exchange %d (%s), which the origin never completed (%s), was stored in redis", e.ID, e.Target, e.Fault)
		}
		if why := j.excluded(j.byReq[e.XReq], e); why != "" {
			w.violate("C18", "excluded-stored", "exchange %d (%s) was stored in redis although excluded by %s", e.ID, e.Target, why)
		}
		if m := w.plan.Config.RedisItem; m > 0 && len(s.Val) > m {
			w.violate("C08", "redis-item-size", "a value of %d bytes was stored in redis, the limit is %d", len(s.Val), m)
		}
		if j.static && s.TTL == 0 {
			w.violate("C09", "stored-without-ttl", "exchange %d (%s) was stored in redis without expiry", e.ID, e.Target)
		}
		if j.static && s.TTL > 0 {
			if want := j.ttlOf(j.w.identifyUp(e)); want > 0 && s.TTL > want {
				w.violate("C09", "stored-ttl", "exchange %d (%s) was stored in redis for %v, configured is %v", e.ID, e.Target, s.TTL, want)
			}
		}
	}
}

func (w *World) identifyUp(e *Exchange) string {
	d, err := url.PathUnescape(e.Path)
	if err != nil {
		return e.Path
	}
	return d
}

// ---- time references

// refTime is the earliest moment the answer to r may have been looked up: r
// may have joined an identical request that was being processed.
func (j *judgeState) refTime(r *OpRec) time.Duration {
	t := r.Start
	if r.Op.Method != "GET" {
		return t
	}
	for _, o := range j.opsByKey[j.ids[r].key] {
		if o == r || o.Node != r.Node || o.Op.Method != "GET" {
			continue
		}
		end := o.End
		if !o.ok() || !o.Done {
			end = max(end, o.Start+31*time.Second)
		}
		if o.Start <= t && end >= r.Start {
			t = o.Start
		}
	}
	return t
}

// opEnd is when the request an exchange was made for was over (0: unknown).
func (j *judgeState) opEnd(x *Exchange) time.Duration {
	if o := j.byReq[x.XReq]; o != nil && o.ok() {
		return o.End
	}
	return 0
}

func ageHeader(x *Exchange) time.Duration {
	a, _ := deltaSeconds(x.RHeader.Get("Age"))
	if x.HasDate && x.DateS < 0 { // ancient
		return greatDelta
	}
	return a
}

// ageLow is a lower bound of the age at t of a response last obtained or
// validated by x; ok is false if nothing is known.
func (j *judgeState) ageLow(e, x *Exchange, t time.Duration) (time.Duration, bool) {
	var a time.Duration
	ok := false
	if x.HasDate && x.DateS > 0 && x.Start > 0 {
		// The Date that counts is the last one received.
		a, ok = t-j.trueOf(x), true
	}
	if end := j.opEnd(x); end > 0 {
		b := t - end + ageHeader(x)
		if !ok || b > a {
			a = b
		}
		ok = true
	}
	return a, ok
}

// trueOf is the simulation time the Date of x stands for.
func (j *judgeState) trueOf(x *Exchange) time.Duration {
	d := time.Unix(x.DateS, 0).Sub(j.w.t0)
	if x.Origin < len(j.w.plan.OSkewMs) {
		d -= time.Duration(j.w.plan.OSkewMs[x.Origin]) * time.Millisecond
	}
	return d + time.Second // Date is rounded down
}

func (j *judgeState) lifetime(e, v *Exchange) (time.Duration, bool) {
	cc, _ := j.respCC(e, v)
	switch {
	case cc.hasSMaxAge:
		return cc.sMaxAge, true
	case cc.hasMaxAge:
		return cc.maxAge, true
	}
	get := func(k string) string {
		if v != nil && v.RHeader.Get(k) != "" {
			return v.RHeader.Get(k)
		}
		return e.RHeader.Get(k)
	}
	ex, dt := get("Expires"), get("Date")
	if ex == "" || dt == "" {
		return 0, false
	}
	a, err1 := http.ParseTime(ex)
	b, err2 := http.ParseTime(dt)
	if err1 != nil || err2 != nil {
		return 0, true
	}
	return min(a.Sub(b), greatDelta), true
}

// ---- C03: freshness

func (j *judgeState) freshness(r *OpRec, v *view) {
	w := j.w
	if !j.strict || !j.static || v.E == nil || v.own || v.ownV || r.Op.Method != "GET" && r.Op.Method != "HEAD" {
		return
	}
	x := v.X()
	t := j.refTime(r)
	if x.End == 0 || x.End >= t {
		return // the exchange was under way while the request was
	}
	w.cover["C03.reused"]++
	cc, _ := j.respCC(v.E, v.V)
	rc, _ := reqCC(r)
	if rc.noCache {
		w.violate("C03", "request-no-cache", "%v asks for validation but was answered with exchange %d from the cache", r, x.ID)
		return
	}
	if cc.noCache {
		w.violate("C03", "response-no-cache", "%v was answered without validation with exchange %d, which is no-cache", r, x.ID)
		return
	}
	life, known := j.lifetime(v.E, v.V)
	if !known {
		w.violate("C03", "no-lifetime", "%v was answered with exchange %d, which has no explicit lifetime", r, x.ID)
		return
	}
	age, ok := j.ageLow(v.E, x, t)
	if !ok {
		return
	}
	slack := 1050*time.Millisecond + j.skew
	if rc.hasMaxAge && age > rc.maxAge+slack {
		w.violate("C03", "request-max-age", "%v asks for max-age %v but got exchange %d, at least %v old", r, rc.maxAge, x.ID, age)
	}
	if life < 0 {
		life = 0
	}
	if age > life+slack {
		stale := age - life
		switch {
		case cc.mustReval:
			w.violate("C03", "must-revalidate-stale", "%v got exchange %d stale by %v although it must be revalidated", r, x.ID, stale)
		case rc.anyStale:
		case rc.hasStale && stale <= rc.maxStale+slack:
		default:
			w.violate("C03", "stale", "%v got exchange %d (%s) at least %v old, lifetime %v", r, x.ID, x.Target, age, life)
		}
		w.cover["C03.stale"]++
	} else if age > life/2 {
		w.cover["C03.old"]++
	}
	if rc.hasMinFresh && life-age < rc.minFresh-slack {
		w.violate("C03", "min-fresh", "%v wants %v of freshness left but got exchange %d with at most %v", r, rc.minFresh, x.ID, life-age)
	}
}

// ---- C04: validation, conditional requests, ranges

func (j *judgeState) validation(r *OpRec, v *view) {
	w := j.w
	switch {
	case conditional(r):
		w.cover["C04.conditional"]++
	case hasHeader(r, "Range"):
		w.cover["C04.range"]++
	case v.V != nil:
		w.cover["C04.validated"]++
	default:
		w.cover["C04.plain"]++
	}
	x := v.E
	if x == nil {
		x = v.V
	}
	if x == nil {
		return
	}
	if r.Status == 304 && !conditional(r) && !x.Res.Odd304 {
		w.violate("C04", "unasked-304", "%v sent no condition but got a 304 (exchange %d of request %d)", r, x.ID, x.XReq)
	}
	if r.Status == 206 && !hasHeader(r, "Range") {
		w.violate("C04", "unasked-206", "%v asked for no range but got a 206 (exchange %d of request %d, %q)", r, x.ID, x.XReq, r.Header.Get("Content-Range"))
	}
	if r.Status == 412 && !hasHeader(r, "If-Match", "If-Unmodified-Since") {
		w.violate("C04", "unasked-412", "%v got a 412 (exchange %d of request %d)", r, x.ID, x.XReq)
	}
	if conditional(r) && x.XReq != r.ID {
		w.violate("C04", "conditional-shared", "%v is conditional but was answered with exchange %d of request %d", r, x.ID, x.XReq)
	}
	if hasHeader(r, "Range") && r.Status == 206 && x.XReq != r.ID {
		if x.Header.Get("Range") != hdr(r, "Range") {
			w.violate("C04", "range-mixed", "%v asked for %s but got exchange %d made for %s", r, hdr(r, "Range"), x.ID, x.Header.Get("Range"))
		}
	}
	// A validation has to be about the very representation that is served.
	if v.V != nil && v.E != nil && !v.V.Res.Odd304 {
		inm, ims := v.V.Header.Get("If-None-Match"), v.V.Header.Get("If-Modified-Since")
		et, lm := v.E.RHeader.Get("Etag"), v.E.RHeader.Get("Last-Modified")
		switch {
		case et != "" && inm == et:
		case et == "" && lm != "" && ims == lm:
		case et != "" && inm != "" && inm != et, et != "" && inm == "" && (lm == "" || ims != lm), et == "" && (lm == "" || ims != lm):
			w.violate("C04", "wrong-validator", "%v: exchange %d (etag %s, modified %q) was taken as validated by exchange %d, which asked with %q/%q", r, v.E.ID, et, lm, v.V.ID, inm, ims)
		}
		if v.E.Version != v.V.Version && et != "" {
			w.violate("C04", "outdated-validated", "%v: version %d (exchange %d) was served as validated by exchange %d of version %d", r, v.E.Version, v.E.ID, v.V.ID, v.V.Version)
		}
		if ve := v.V.RHeader.Get("Etag"); ve != "" && ve != et && !v.ownV && j.strict && v.V.End < j.refTime(r) {
			w.violate("C04", "other-etag-kept", "%v: exchange %d with etag %s stayed in the cache, updated by a 304 for etag %s", r, v.E.ID, et, ve)
		}
	}
}

func hdr(r *OpRec, name string) string {
	for _, h := range r.Op.Headers {
		if strings.EqualFold(h[0], name) {
			return h[1]
		}
	}
	return ""
}

// ---- C05: purge

// purgePattern is the pattern a successful API request purged, nil if none.
func (j *judgeState) purgePattern(r *OpRec) *string {
	p := j.w.plan.Config.prefix()
	k := hdr(r, "X-Purge-Key")
	switch {
	case r.Op.Method == "PURGE" && r.Op.Target == "/":
	case r.Op.Method == "DELETE" && r.Op.Target == p+"/cache/invalidate":
	case r.Op.Method == "DELETE" && r.Op.Target == p+"/cache/flush":
		k = "*"
	default:
		return nil
	}
	if k == "" {
		k = "*"
	}
	return &k
}

func wildMatch(p, s string) bool {
	parts := strings.Split(p, "*")
	if len(parts) == 1 {
		return p == s
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for _, x := range parts[1 : len(parts)-1] {
		i := strings.Index(s, x)
		if i < 0 {
			return false
		}
		s = s[i+len(x):]
	}
	return strings.HasSuffix(s, parts[len(parts)-1])
}

// storedAt is when what rests on x was put into the cache: an upper bound.
func (j *judgeState) storedAt(x, e *Exchange) (time.Duration, bool) {
	end := j.opEnd(x)
	if end == 0 {
		return 0, false
	}
	return end, true
}

func (j *judgeState) setArrival(x *Exchange) (time.Duration, bool) {
	if j.w.redis == nil {
		return 0, false
	}
	var t time.Duration
	ok := false
	for _, s := range j.w.redis.sets {
		if !s.Failed && (s.Info.Exch == x.ID && s.Info.Val == 0 || s.Info.Val == x.ID) {
			t, ok = s.At, true
		}
	}
	return t, ok
}

func (j *judgeState) purged(r *OpRec, v *view) {
	w := j.w
	if v.E == nil || v.own || v.ownV {
		return
	}
	x := v.X()
	key := j.ids[r].key
	for _, p := range j.purges {
		pat := *j.purgePattern(p)
		if p.End >= r.Start || !wildMatch(pat, key) {
			continue
		}
		t := j.refTime(r)
		if t <= p.End {
			continue // may have joined a lookup that began before
		}
		end, ok := j.storedAt(x, v.E)
		if !ok || end >= p.Start {
			continue
		}
		sameInc := p.Node == r.Node && p.Inc == r.Inc
		xo := j.byReq[x.XReq]
		switch {
		case w.redis == nil:
			if !sameInc {
				continue
			}
		case w.plan.Config.Layered:
			if !sameInc {
				continue
			}
			fallthrough
		default:
			// written by the purging node itself, or already in the store
			if xo.Node != p.Node || xo.Inc != p.Inc {
				if at, ok := j.setArrival(x); !ok || at >= p.Start {
					continue
				}
			}
			if w.during(x.Start, r.End, func(f Fault) bool { return f.Kind == "redis" || linkFault(f, "redis") }) && !w.plan.flag("purge-strict") {
				// a store that failed or was retried may reach Redis late
				continue
			}
		}
		w.violate("C05", "purged-served", "%v was answered with exchange %d (stored by %.3fms), purged by %s %q at %.3f..%.3fms", r, x.ID, float64(end)/1e6,
			p.Op.Method, pat, float64(p.Start)/1e6, float64(p.End)/1e6)
		return
	}
	for _, p := range j.purges {
		if p.End < r.Start && wildMatch(*j.purgePattern(p), key) {
			w.cover["C05.after-purge"]++
			return
		}
	}
}

func linkFault(f Fault, m string) bool { return isLink(f) && (f.A == m || f.B == m) }

// ---- C09: TTL

func (j *judgeState) ttlOf(decodedPath string) time.Duration {
	for _, t := range j.cache.Timeouts {
		if reMatch(t.Path, decodedPath) {
			return max(0, time.Duration(t.TTLMs)*time.Millisecond)
		}
	}
	if j.cache.DefaultTTLMs > 0 {
		return time.Duration(j.cache.DefaultTTLMs) * time.Millisecond
	}
	return 120 * time.Second
}

func (j *judgeState) ttlEnabled() bool {
	c := &j.w.plan.Config
	return c.Backend == "redis" && !c.Layered || c.MemTTL != "-1"
}

func (j *judgeState) ttl(r *OpRec, v *view) {
	w := j.w
	if v.E == nil || v.own || v.ownV || !j.static || !j.ttlEnabled() {
		return
	}
	x := v.X()
	t := j.refTime(r)
	at, ok := j.storedAt(x, v.E)
	if !ok {
		return
	}
	if s, ok := j.setArrival(x); ok && s > at {
		at = s
	}
	// the one of the spelling of the path it was fetched by
	limit := max(j.ttlOf(j.w.identifyUp(v.E)), j.ttlOf(j.w.identifyUp(x)))
	limit += j.w.copySlack()
	w.cover["C09.reused"]++
	if t-at > limit/2 {
		w.cover["C09.late"]++
	}
	if t-at > limit+20*time.Millisecond {
		w.violate("C09", "expired-served", "%v was answered with exchange %d, stored %v ago; its TTL is %v", r, x.ID, t-at, limit)
	}
}

// copySlack is how long the copy in a node's memory may outlive the entry in Redis:
// none, except for the time Redis's answer, which says how long that is, is under way.
func (w *World) copySlack() time.Duration {
	c := &w.plan.Config
	if !c.Layered {
		return 0
	}
	for _, f := range w.plan.Faults {
		if isLink(f) || f.Kind == "redis" || f.Kind == "pause" {
			if c.LayeredMs > 0 {
				return time.Duration(c.LayeredMs) * time.Millisecond
			}
			return 120 * time.Second
		}
	}
	return 50 * time.Millisecond
}

// ---- C16: what the response says about itself

func (j *judgeState) truth(r *OpRec, v *view) {
	w := j.w
	if v.E == nil || r.Op.Method != "GET" && r.Op.Method != "HEAD" {
		return
	}
	// The names by which answers may be marked, and whether they have to be.
	names, must := map[string]bool{}, true
	allow := func(c *CachePlan) {
		switch {
		case !c.XHeader:
			must = false
		case c.XName == "":
			names["X-Kache"] = true
		default:
			names[http.CanonicalHeaderKey(c.XName)] = true
		}
	}
	if j.static {
		allow(j.cache)
	} else {
		if r.Node.downDuring(r.Start, r.End) {
			return
		}
		for c := range j.possible(r.Node, j.refTime(r), r.End) {
			if c.Cache.NoSection {
				return
			}
			allow(&c.Cache)
		}
		if len(names) == 0 && must {
			return
		}
	}
	for n := range j.xnames {
		if val := r.Header.Get(n); val != "" && !names[n] {
			w.violate("C16", "x-header-off", "%v: header %s=%q although it is switched off", r, n, val)
		}
	}
	x := v.X()
	t := j.refTime(r)
	fromCache := !v.own && !v.ownV && x.End > 0 && x.End < t && j.opEnd(x) > 0 && j.opEnd(x) < t
	if must {
		if v.hit && v.own && v.V == nil {
			w.violate("C16", "false-hit", "%v says HIT but was fetched for it (exchange %d)", r, v.E.ID)
		}
		marked := false
		for n := range names {
			marked = marked || r.Header.Get(n) == "HIT"
		}
		if fromCache && !marked {
			w.violate("C16", "missing-hit", "%v was answered from the cache (exchange %d) but does not say so", r, v.E.ID)
		}
		w.cover["C16.marked"]++
	}
	ageS := r.Header.Get("Age")
	if fromCache {
		w.cover["C16.aged"]++
		n, err := strconv.Atoi(ageS)
		if err != nil || n < 0 {
			w.violate("C16", "age-missing", "%v was answered from the cache (exchange %d) with Age %q", r, v.E.ID, ageS)
			return
		}
		low, ok := j.ageLow(v.E, x, t)
		if ok && time.Duration(n)*time.Second < low-1050*time.Millisecond-j.skew {
			w.violate("C16", "age-too-small", "%v: Age %d but exchange %d is at least %v old", r, n, x.ID, low)
		}
		high := r.End - x.Arrive + 3*time.Second + j.skew
		if x == v.E {
			high += ageHeader(x)
		} else {
			// what a validated entry says of its age may still count the Age it came with
			high += max(ageHeader(v.E), ageHeader(x))
		}
		if time.Duration(n)*time.Second > high {
			w.violate("C16", "age-too-big", "%v: Age %d but exchange %d is at most %v old", r, n, x.ID, high)
		}
	} else if v.own && v.V == nil && ageS != v.E.RHeader.Get("Age") {
		w.violate("C16", "age-on-miss", "%v: Age %q on a response just fetched (exchange %d had %q)", r, ageS, v.E.ID, v.E.RHeader.Get("Age"))
	}
}

// ---- C18: policy

// excluded says why the exchange of a request must not be stored or reused.
func (j *judgeState) excluded(r *OpRec, e *Exchange) string {
	c := &j.rules
	d := j.w.identifyUp(e)
	for _, p := range c.ExPaths {
		if reMatch(p, d) {
			return "path " + p
		}
	}
	for k, val := range c.ExHeaders {
		if e.Header.Get(strings.ReplaceAll(k, "_", "-")) == val {
			return "header " + k
		}
	}
	if ct := e.RHeader.Get("Content-Type"); ct != "" && e.Status != 304 {
		for _, x := range c.ExContent {
			if reMatch(x.Type, ct) && (x.Size == 0 || len(e.Body) > x.Size) {
				return "content " + x.Type
			}
		}
	}
	return ""
}

func (j *judgeState) policy(r *OpRec, v *view) {
	w := j.w
	if v.E == nil || r.Op.Method != "GET" && r.Op.Method != "HEAD" {
		return
	}
	x := v.X()
	if !v.own && !v.ownV {
		if why := j.excluded(nil, v.E); why != "" {
			// Content rules only forbid keeping it: an identical request that
			// waits at the same moment may share.
			if !strings.HasPrefix(why, "content") || x.End > 0 && x.End < j.refTime(r) {
				w.violate("C18", "excluded-shared", "%v was answered with exchange %d of request %d although excluded by %s", r, v.E.ID, v.E.XReq, why)
			}
		}
		for _, p := range j.rules.ExPaths {
			if reMatch(p, j.ids[r].decoded) {
				w.violate("C18", "excluded-from-cache", "%v is excluded by path %s but was answered with exchange %d of request %d", r, p, v.E.ID, v.E.XReq)
			}
		}
		for k, val := range j.rules.ExHeaders {
			if hdr(r, strings.ReplaceAll(k, "_", "-")) == val {
				w.violate("C18", "excluded-from-cache", "%v is excluded by header %s but was answered with exchange %d of request %d", r, k, v.E.ID, v.E.XReq)
			}
		}
		if j.strict && j.static && x.End > 0 && x.End < j.refTime(r) && v.E.XReq != 0 && !cacheableStatus(v.E.Status) {
			w.violate("C18", "status-cached", "%v was answered from the cache with status %d (exchange %d)", r, v.E.Status, v.E.ID)
		}
	}
	if len(j.rules.ExPaths)+len(j.rules.ExHeaders)+len(j.rules.ExContent) > 0 {
		w.cover["C18.judged"]++
	}
}

func cacheableStatus(s int) bool {
	switch s {
	case 200, 203, 204, 206, 300, 301, 308, 404, 405, 410, 414, 451, 501:
		return true
	}
	return false
}

// reusableStatus reports whether a complete response with status s has to be
// found in the cache.
func reusableStatus(s int) bool { return s != 206 && cacheableStatus(s) }

// ---- C20: what is in the cache is used

// cachedAt returns an exchange whose response has to be in the cache that the
// node of r uses from t0 to t1, fresh enough for any plain request, or nil if
// that is not certain.
func (j *judgeState) cachedAt(key string, r *OpRec, t0, t1 time.Duration) (*Exchange, bool) {
	w := j.w
	ops := j.opsByKey[key]
	if len(ops) == 0 || !j.static || !j.strict && !j.lax || j.cache.NoSection {
		return nil, false
	}
	id := j.ids[ops[0]]
	for _, o := range ops {
		if j.exKey(j.ids[o]) != j.exKey(id) {
			return nil, false
		}
	}
	bypass := func(o *OpRec) bool { return o != nil && (conditional(o) || hasHeader(o, "Authorization", "Range")) }
	// The last exchange about this key before t0.
	var x *Exchange
	for _, e := range j.exByKey[j.exKey(id)] {
		xo := j.byReq[e.XReq]
		if xo == r || bypass(xo) {
			continue
		}
		if e.Method != "GET" && e.Method != "HEAD" {
			continue
		}
		if e.Arrive < t1 {
			if e.End == 0 || e.End >= t0 {
				return nil, false // something under way at the same time
			}
			if e.Start == 0 && !e.Sent && e.End+50*time.Millisecond < t0 {
				continue // not a byte of an answer, this changed nothing
			}
			x = e
		}
	}
	// Anything else about the key still being processed may change it.
	for _, o := range ops {
		if o != r && o.Start < t1 && (!o.ok() || o.End > t0) && !bypass(o) && (o.Op.Method == "GET" || o.Op.Method == "HEAD") {
			return nil, false
		}
	}
	if x == nil || !x.Sent || x.Method != "GET" || !reusableStatus(x.Status) && x.Status != 304 {
		return nil, false
	}
	// What went to the origin earlier but ended later may have had the last say.
	for _, e := range j.exByKey[j.exKey(id)] {
		o := j.byReq[e.XReq]
		if e != x && o != nil && !bypass(o) && e.Arrive <= x.Arrive && (!o.ok() || o.End+time.Millisecond >= x.Arrive) {
			return nil, false
		}
	}
	xo := j.byReq[x.XReq]
	if xo == nil || !xo.ok() || special(xo) || xo.Op.Method != "GET" || xo.Op.Text != "" {
		return nil, false
	}
	xv := j.views[xo]
	if xv == nil || xv.E == nil || xv.X() != x || !reusableStatus(xv.E.Status) {
		return nil, false
	}
	if x.Status == 304 {
		if et := x.RHeader.Get("Etag"); et != "" && et != xv.E.RHeader.Get("Etag") {
			return nil, false
		}
	}
	c := &w.plan.Config
	size := func(e *Exchange) uint64 { // at most
		n := max(e.FullLen, len(e.Body)) + 900
		for k, l := range e.RHeader {
			for _, v := range l {
				n += 2*len(k) + 2*len(v) + 8
			}
		}
		return uint64(n)
	}
	if j.excluded(r, xv.E) != "" || j.excludedReq(xo) != "" || c.RedisItem > 0 || c.QueueBuf > 0 && c.QueueBuf < 500 {
		return nil, false
	}
	if c.MemMax > 0 && w.redis == nil {
		// All that was used since has to fit in beside it.
		most := map[string]uint64{}
		for _, e := range w.exchs {
			k := fmt.Sprintf("%d|%s|%s", e.Origin, normPath(e.Path), qnorm(queryOf(e.Target)))
			most[k] = max(most[k], size(e))
		}
		sum := uint64(0)
		seen := map[string]bool{}
		for _, o := range w.ops {
			if o.Op.Kind != "req" || o.Op.Text != "" || o.Start > t1 || o.Done && o.End < x.Arrive {
				continue
			}
			if k := j.exKey(j.ids[o]); !seen[k] {
				seen[k] = true
				sum += most[k]
			}
		}
		if sum+size(xv.E) > c.MemMax*4/5 || size(xv.E) > c.MemMax/2 {
			return nil, false
		}
	}
	if c.MemItem > 0 && size(xv.E) > c.MemItem && w.redis == nil {
		return nil, false
	}
	shared := w.redis != nil
	if c.Layered && xo.Node != r.Node {
		// The local layer of the node may still hold an older response.
		for _, o := range ops {
			if o != r && o.Node == r.Node && o.Start < t0 {
				return nil, false
			}
		}
	}
	if (xo.Node != r.Node || xo.Inc != r.Inc) && !shared {
		return nil, false
	}
	if w.during(x.Arrive-time.Second, t1, func(f Fault) bool {
		// a failing upstream is no reason to lose what is cached
		return f.Kind != "origin" && !(isLink(f) && (strings.Contains(f.A, "origin") || strings.Contains(f.B, "origin")))
	}) {
		return nil, false
	}
	if x.Arrive < w.base {
		return nil, false
	}
	since := xo.End
	if shared {
		at, ok := j.setArrival(x)
		if !ok {
			// stores wait while a purge is going on
			from := xo.End
			for _, o := range w.ops {
				if o.Op.Kind == "api" && o.Start < t0 && (!o.Done || o.End > xo.Start) && j.purgePattern(o) != nil {
					if !o.Done || o.End > t0 {
						return nil, false
					}
					from = max(from, o.End)
				}
			}
			if t0-from <= 400*time.Millisecond+j.stallSlack {
				return nil, false
			}
		}
		since = max(since, at)
		if since+2*time.Millisecond >= t0 {
			return nil, false
		}
	}
	// Purges of it since.
	late := time.Duration(0)
	if c.Cluster {
		late = 45 * time.Second
	}
	denied := false
	for _, o := range w.ops {
		if o.Op.Kind != "api" || o.Start > t1 || o.Done && o.End+late < x.Arrive {
			continue
		}
		if p := j.purgePattern(o); p != nil && wildMatch(*p, id.key) {
			if o.ok() && o.Status == 401 && !aclAllows(c.ACL, j.apiClient(o)) {
				denied = true
				continue
			}
			if w.redis == nil && !c.Cluster && o.Node != r.Node {
				continue
			}
			return nil, false
		}
	}
	ttl := min(j.ttlOf(id.decoded), j.ttlOf(w.identifyUp(x)), j.ttlOf(w.identifyUp(xv.E)))
	if t1-x.Arrive > ttl-100*time.Millisecond {
		return nil, false
	}
	if j.strict {
		cc, _ := j.respCC(xv.E, xv.V)
		if cc.noStore || cc.private || cc.noCache || cc.twice {
			return nil, false
		}
		life, ok := j.lifetime(xv.E, xv.V)
		if !ok || j.skew != 0 {
			return nil, false
		}
		high := t1 - x.Arrive + 2100*time.Millisecond
		if x == xv.E {
			high += ageHeader(x)
		} else {
			high += ageHeader(xv.E)
		}
		if high > life {
			return nil, false
		}
	}
	return x, denied
}

func (j *judgeState) mustHit(r *OpRec, v *view) {
	w := j.w
	if !j.static || special(r) || r.Op.Method != "GET" && r.Op.Method != "HEAD" || j.excludedReq(r) != "" {
		return
	}
	id := j.ids[r]
	x, denied := j.cachedAt(id.key, r, r.Start, r.End)
	if x == nil {
		return
	}
	w.cover["C20.must-hit"]++
	if r.Probe {
		w.cover["C11.recovered"]++
		w.cover["C07.recovered"]++
	}
	failed := v.made && r.Op.Method == "GET" && r.Status >= 502 && r.Status <= 504
	if !v.own && !v.ownV && !failed {
		return
	}
	if failed {
		w.violate("C15", "fresh-not-used", "%v was answered with %d although exchange %d of request %d is cached and fresh (%v old)", r, r.Status, x.ID, x.XReq, r.Start-x.Start)
	} else if w.during(x.Arrive, r.Start, func(f Fault) bool { return f.Kind == "origin" || isLink(f) }) {
		w.violate("C15", "lost-by-failure", "%v went to the origin although exchange %d of request %d is cached and fresh (%v old), the origin failed meanwhile", r, x.ID, x.XReq, r.Start-x.Start)
	}
	if r.Probe && (w.plan.Prop == "C11" || w.plan.Prop == "C07") {
		w.violate(w.plan.Prop, "not-recovered", "%v went to the origin although exchange %d of request %d is cached and fresh (%v old), long after the last fault", r, x.ID, x.XReq, r.Start-x.Start)
	}
	w.violate("C20", "not-reused", "%v went to the origin although exchange %d of request %d is cached and fresh (%v old)", r, x.ID, x.XReq, r.Start-x.Start)
	if len(j.purges) > 0 {
		w.violate("C05", "purged-too-much", "%v: %s is no longer cached, although no purge matched it (exchange %d of request %d)", r, id.key, x.ID, x.XReq)
	}
	if denied {
		w.violate("C17", "denied-purge-effective", "%v: %s is no longer cached, the only purge of it was denied", r, id.key)
	}
	if len(j.cache.Timeouts) > 0 || j.cache.DefaultTTLMs > 0 {
		w.violate("C09", "expired-early", "%v: exchange %d was gone after %v, its TTL is %v", r, x.ID, r.Start-x.End, j.ttlOf(id.decoded))
	}
	if w.plan.Config.MemMax > 0 {
		w.violate("C08", "evicted-early", "%v: exchange %d was gone although all that was used since fits into %d bytes", r, x.ID, w.plan.Config.MemMax)
	}
}
