//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/netip"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"time"
)

var reCache = map[string]*regexp.Regexp{}

func reMatch(p, s string) bool {
	r, ok := reCache[p]
	if !ok {
		r, _ = regexp.Compile(p)
		reCache[p] = r
	}
	return r != nil && r.MatchString(s)
}

// both reports a violation of prop and, where the plan is about another
// property whose statement covers it as well, of that one too.
func (j *judgeState) both(prop, kind, f string, a ...any) {
	j.w.violate(prop, kind, f, a...)
	switch p := j.w.plan.Prop; p {
	case "C06", "C11", "C12", "C13", "C14", "C15":
		if p != prop {
			j.w.violate(p, kind, f, a...)
		}
	}
}

// ---- C19: what arrives at the origin

// wirePath is a path with its percent encoding undone except for slashes.
func wirePath(raw string) string {
	raw = strings.ReplaceAll(strings.ReplaceAll(raw, "%2F", slashMark), "%2f", slashMark)
	d, err := url.PathUnescape(raw)
	if err != nil {
		return raw
	}
	return d
}

// mayAdd are headers kache or its HTTP library may add to a request.
var mayAdd = map[string]bool{"Host": true, "User-Agent": true, "X-Forwarded-For": true, "Accept-Encoding": true, "If-None-Match": true,
	"If-Modified-Since": true, "Last-Modified": true, "Content-Length": true, "Transfer-Encoding": true, "Connection": true, "X-Req": true}

var hopRequest = map[string]bool{"Connection": true, "Keep-Alive": true, "Proxy-Connection": true, "Te": true, "Trailer": true, "Transfer-Encoding": true,
	"Upgrade": true, "Content-Length": true, "Proxy-Authenticate": true, "Proxy-Authorization": true, "Host": true, "X-Forwarded-For": true}

// hopFields are the fields of a message that are not to be passed on.
func hopFields(h http.Header) []string {
	l := []string{"Keep-Alive", "Proxy-Connection", "Proxy-Authorization", "Proxy-Authenticate"}
	upgrade := false
	for _, v := range h["Connection"] {
		for _, x := range strings.Split(v, ",") {
			switch k := http.CanonicalHeaderKey(strings.TrimSpace(x)); k {
			case "Close", "Keep-Alive", "":
			case "Upgrade":
				upgrade = true
			case "Te":
			default:
				l = append(l, k)
			}
		}
	}
	if !upgrade {
		l = append(l, "Upgrade")
	}
	if h.Get("Te") != "trailers" {
		l = append(l, "Te")
	}
	return l
}

func (j *judgeState) forwarding() {
	w := j.w
	count := map[int]int{}
	for _, e := range w.exchs {
		r := j.byReq[e.XReq]
		if r == nil || r.Op.Kind != "req" || r.Op.Text != "" {
			if r != nil || e.XReq == 0 && j.rawRequests {
				continue // one of the raw, odd requests
			}
			w.violate("C19", "unasked-request", "origin%d got exchange %d (%s %s) that belongs to no client request", e.Origin, e.ID, e.Method, e.Target)
			continue
		}
		count[r.ID]++
		w.cover["C19.forwarded"]++
		id := j.ids[r]
		if !id.ok || id.origin != e.Origin {
			w.violate("C19", "wrong-origin", "%v was sent to origin%d as exchange %d", r, e.Origin, e.ID)
			continue
		}
		if e.Method != r.Op.Method {
			w.violate("C19", "wrong-method", "%v arrived as %s (exchange %d)", r, e.Method, e.ID)
		}
		gp, gq, _ := splitTarget(e.Target)
		wp, wq, _ := splitTarget(id.target)
		if wirePath(gp) != wirePath(wp) || gq != wq {
			w.violate("C19", "wrong-target", "%v arrived as %s (exchange %d), should be %s", r, e.Target, e.ID, id.target)
		}
		if want := id.host; e.Host != want {
			w.violate("C19", "wrong-host", "%v arrived with Host %q (exchange %d), should be %q", r, e.Host, e.ID, want)
		}
		if !e.BodyErr {
			if want := r.Op.body(r.ID); !bytes.Equal(want, e.ReqBody) {
				w.violate("C19", "wrong-request-body", "%v arrived with a body of %d bytes that is not the one of %d bytes sent (exchange %d)", r, len(e.ReqBody), len(want), e.ID)
			}
			if len(e.ReqBody) > 0 {
				w.cover["C19.bodies"]++
			}
		}
		want := http.Header{}
		for _, h := range r.Op.Headers {
			want.Add(h[0], h[1])
		}
		conn := map[string]bool{}
		for _, l := range want["Connection"] {
			for _, x := range strings.Split(l, ",") {
				conn[http.CanonicalHeaderKey(strings.TrimSpace(x))] = true
			}
		}
		for k, l := range want {
			if conn[k] || hopRequest[k] {
				continue
			}
			if strings.Join(l, "\x00") != strings.Join(e.Header[k], "\x00") {
				w.violate("C19", "request-header", "%v: header %s=%q arrived as %q (exchange %d)", r, k, l, e.Header[k], e.ID)
			}
		}
		var extra []string
		for k := range e.Header {
			if k == "Cache-Control" && want.Get("Pragma") != "" {
				continue // the same said in the newer way
			}
			if _, ok := want[k]; !ok && !mayAdd[k] && !j.xnames[k] {
				extra = append(extra, k)
			}
		}
		sort.Strings(extra)
		for _, k := range extra {
			w.violate("C19", "added-header", "%v: exchange %d carries %s=%q, which the client did not send", r, e.ID, k, e.Header[k])
		}
		for _, k := range hopFields(want) {
			if _, ok := e.Header[k]; ok {
				w.violate("C19", "hop-by-hop", "%v: %s: %q was passed on (exchange %d)", r, k, e.Header[k], e.ID)
			}
		}
		// a client's own address is appended to those it passed on
		xff := strings.Join(e.Header["X-Forwarded-For"], ", ")
		if m := w.machines[fmt.Sprintf("client%d", r.Op.Client%6)]; m != nil && xff != strings.Join(append(append([]string{}, want["X-Forwarded-For"]...), m.ip), ", ") {
			w.violate("C19", "forwarded-for", "%v from %s: exchange %d has X-Forwarded-For %q", r, m.ip, e.ID, xff)
		}
		// Conditions of kache's own only where the client sent none.
		if e.Method != "GET" && e.Method != "HEAD" && !conditional(r) && (e.Header.Get("If-None-Match") != "" || e.Header.Get("If-Modified-Since") != "") {
			w.violate("C19", "added-condition", "%v: exchange %d (%s) carries a condition the client did not send", r, e.ID, e.Method)
		}
	}
	for _, r := range w.ops {
		if r.Op.Kind != "req" || r.Op.Text != "" {
			continue
		}
		n := count[r.ID]
		safe := r.Op.Method == "GET" || r.Op.Method == "HEAD" || r.Op.Method == "OPTIONS" || r.Op.Method == "TRACE"
		if !safe && n > 1 {
			w.violate("C19", "repeated", "%v (%s) reached an origin %d times", r, r.Op.Method, n)
		}
		if safe && n > 1 && !w.during(0, r.End+time.Second, func(Fault) bool { return true }) && r.Op.Cancel == 0 && j.w.plan.Sched.StallN == 0 && !j.cancelNear(r) {
			w.violate("C19", "repeated", "%v (%s) reached an origin %d times although nothing failed", r, r.Op.Method, n)
		}
		if v := j.views[r]; v != nil && !safe && v.E != nil && n == 0 {
			w.violate("C19", "not-forwarded", "%v (%s) was answered with exchange %d but never forwarded", r, r.Op.Method, v.E.ID)
		}
	}
}

func (j *judgeState) cancelNear(r *OpRec) bool {
	for _, o := range j.w.ops {
		if (o.Op.Cancel > 0 || o.Op.Mode != "") && o.Start <= r.End && (!o.Done || o.End >= r.Start-2*time.Second) {
			return true
		}
	}
	return false
}

// ---- C06: identical requests share a flight

func (j *judgeState) flights() {
	w := j.w
	type fk struct {
		node, inc int
		target    string
	}
	byK := map[fk][]*Exchange{}
	var order []fk
	for _, e := range w.exchs {
		r := j.byReq[e.XReq]
		if r == nil || r.Op.Method != "GET" || special(r) || hasHeader(r, "Upgrade") || e.Method != "GET" || r.Op.Text != "" {
			continue
		}
		if j.excludedReq(r) != "" || !j.static {
			continue
		}
		k := fk{r.Node.idx, r.Inc, r.Op.Target}
		if len(byK[k]) == 0 {
			order = append(order, k)
		}
		byK[k] = append(byK[k], e)
	}
	for _, k := range order {
		l := byK[k]
		for i, b := range l {
			rb := j.byReq[b.XReq]
			for _, a := range l[:i] {
				ra := j.byReq[a.XReq]
				if a.XReq == b.XReq {
					continue
				}
				// a has not been answered when b arrives, and the request of b
				// began well after that of a had reached the origin
				if a.Start != 0 && b.Arrive >= a.Start || a.Fault != "" && a.Fault != "interim" && a.Fault != "dribble" && a.Fault != "slow" {
					continue
				}
				if rb.Start < a.Arrive {
					continue
				}
				if ra.Op.Cancel > 0 || ra.Op.Mode != "" || !ra.ok() || rb.Op.Mode != "" {
					continue
				}
				if w.during(a.Arrive-2*time.Second, b.Arrive, func(f Fault) bool { return f.Kind != "origin" && f.Kind != "redis" && f.Kind != "kube" }) {
					continue
				}
				if j.noStoreBefore(l[:i]) {
					continue // the requests that waited went on individually
				}
				w.violate("C06", "not-coalesced", "%v went to the origin (exchange %d) while exchange %d of %v for the same thing was under way", rb, b.ID, a.ID, ra)
			}
		}
	}
	for _, r := range w.ops {
		v := j.views[r]
		if v == nil || v.E == nil || v.own || v.ownV {
			continue
		}
		if x := v.X(); x.End == 0 || x.End >= r.Start {
			w.cover["C06.shared"]++
		}
	}
}

// noStoreBefore tells whether any of the exchanges may not be shared.
func (j *judgeState) noStoreBefore(l []*Exchange) bool {
	for _, e := range l {
		if e.Status == 304 && e.Header.Get("If-None-Match") == "" && e.Header.Get("If-Modified-Since") == "" {
			return true // nobody else's either
		}
		_, lines := j.respCC(e, nil)
		if cc := strings.ToLower(strings.Join(lines, ",")); strings.Contains(cc, "no-store") || strings.Contains(cc, "private") {
			return true
		}
	}
	return false
}

func (j *judgeState) excludedReq(r *OpRec) string {
	for _, p := range j.cache.ExPaths {
		if reMatch(p, j.ids[r].decoded) {
			return "path"
		}
	}
	for k, val := range j.cache.ExHeaders {
		if hdr(r, strings.ReplaceAll(k, "_", "-")) == val {
			return "header"
		}
	}
	return ""
}

// ---- C07 and its relatives: availability

func on(name string, f Fault, side string) bool {
	return side == name || side == "*kache" && strings.HasPrefix(name, "kache") || side == "*clients" && strings.HasPrefix(name, "client") ||
		side == "*origins" && strings.HasPrefix(name, "origin")
}

func isLink(f Fault) bool {
	switch f.Kind {
	case "partition", "refuse", "cut", "reset", "slow-link":
		return true
	}
	return false
}

// linkBetween tells whether f disturbs the traffic between two machines.
func linkBetween(f Fault, a, b string) bool {
	return isLink(f) && (on(a, f, f.A) && on(b, f, f.B) || on(a, f, f.B) && on(b, f, f.A))
}

// excuse says why a request may have failed ("": it may not).
func (j *judgeState) excuse(r *OpRec) string {
	w := j.w
	a, b := r.Start-50*time.Millisecond, r.End
	name := r.Node.m.name
	if r.Op.Cancel > 0 || r.Op.Mode != "" || r.Op.Text != "" {
		return "client"
	}
	if r.Node.downDuring(a, b) {
		return "down"
	}
	if r.Reused && (r.Err == "eof" || r.Err == "reset") {
		return "idle connection closed"
	}
	if w.during(a, b+time.Second, func(f Fault) bool { return f.Kind == "pause" && on(name, f, f.A) }) {
		return "paused"
	}
	from := fmt.Sprintf("client%d", r.Op.Client%6)
	if r.Op.Kind == "api" {
		from = "admin"
		if r.Op.Mode != "" {
			from = r.Op.Mode
		}
	}
	if w.during(a-4*time.Second, b, func(f Fault) bool { return linkBetween(f, from, name) }) {
		return "link to the client"
	}
	if r.Op.Kind == "api" {
		if w.during(a-4*time.Second, b, func(f Fault) bool { return f.Kind == "redis" || linkBetween(f, name, "redis") }) {
			return "redis"
		}
		return ""
	}
	id := j.ids[r]
	if !id.ok {
		if r.Err == "reset" && len(r.Op.body(r.ID)) > 0 {
			return "body not read before the connection closes"
		}
		return ""
	}
	on := fmt.Sprintf("origin%d", id.origin)
	if w.during(a-2*time.Second, b, func(f Fault) bool { return linkBetween(f, name, on) && f.Kind != "slow-link" }) {
		return "link to the origin"
	}
	for _, e := range w.exchs {
		if e.Origin != id.origin || e.Fault == "" || e.Fault == "interim" || e.Fault == "upgrade" && e.XReq != r.ID {
			continue
		}
		end := e.End
		if end == 0 {
			end = b
		}
		if w.redis != nil && w.during(end-time.Second, a, func(f Fault) bool { return f.Kind == "redis" || linkBetween(f, name, "redis") }) {
			end += 600 * time.Millisecond // its request still has to wait for Redis
		}
		if e.Arrive <= b && end+50*time.Millisecond >= a {
			if e.Fault == "dribble" || e.Fault == "slow" {
				continue
			}
			return "origin " + e.Fault
		}
	}
	// A response that takes longer than the listener's write timeout is lost.
	if r.End-r.Start >= 950*time.Millisecond {
		slow := r.Op.SlowMs > 0 || w.plan.Sched.StallN > 0
		slow = slow || w.during(a-31*time.Second, b, func(f Fault) bool {
			return f.Kind == "origin" || f.Kind == "slow-link" || f.Kind == "pause"
		})
		// Waiting in vain for somebody else's response doubles the time.
		most := 300
		if w.redis != nil && w.during(a-31*time.Second, b, func(f Fault) bool { return f.Kind == "redis" || linkBetween(f, name, "redis") }) {
			most = 80
		}
		for i := range w.plan.Resources {
			slow = slow || w.plan.Resources[i].DelayMs > most
		}
		if slow {
			return "slow"
		}
	}
	return ""
}

// patience is the longest a request may take to end in whatever way.
const patience = 38 * time.Second

func (j *judgeState) available() {
	w := j.w
	for _, r := range w.ops {
		if r.Op.Text != "" {
			continue
		}
		w.cover["C07.requests"]++
		if r.Op.Kind == "req" && w.redis != nil && w.during(r.Start, r.End, func(f Fault) bool { return f.Kind == "redis" || linkBetween(f, r.Node.m.name, "redis") }) {
			w.cover["C11.during-outage"]++
		}
		// Nothing may hang for ever.
		if !r.Done || r.End-r.Start > patience {
			held := r.Op.Cancel > 0 || r.Op.Mode == "hang" || r.Op.SlowMs > 20000
			stuck := r.Start
			end := r.End
			if !r.Done {
				end = w.now()
			}
			for _, x := range w.windows {
				if (isLink(x.f) || x.f.Kind == "pause" || x.f.Kind == "redis") && x.from <= end && x.to > stuck {
					stuck = min(x.to, end)
				}
			}
			if !held && end-stuck > patience && !r.Node.downDuring(r.Start, end) {
				j.both("C07", "hang", "%v did not end within %v", r, patience)
			}
			continue
		}
		v := j.views[r]
		failed := r.Err != "" || v != nil && v.made && r.Status >= 400 && !(r.Op.Method == "HEAD" && j.unmarked) || r.Op.Kind == "api" && r.Status >= 500
		if r.Op.Kind == "req" {
			if id := j.ids[r]; !id.ok {
				if r.ok() && v != nil && v.made {
					w.cover["C15.unmatched"]++
					if r.Status != 503 {
						w.violate("C15", "unmatched-status", "%v matches no upstream and was answered with %d", r, r.Status)
					}
				}
				if r.ok() {
					continue
				}
			}
		}
		if !failed {
			continue
		}
		why := j.excuse(r)
		w.cover["C07.failed"]++
		if why != "" {
			w.cover["C07.excused-"+strings.ReplaceAll(strings.SplitN(why, " ", 2)[0], " ", "-")]++
			continue
		}
		kind := "request-failed"
		if r.Probe {
			kind = "not-recovered"
		} else if r.Op.Kind == "api" {
			kind = "api-failed"
		}
		what := fmt.Sprintf("status %d %.60q", r.Status, r.Body)
		if r.Err != "" {
			what = "error " + r.Err
		}
		j.both("C07", kind, "%v failed for no reason after %v: %s", r, r.End-r.Start, what)
		if r.Op.Kind == "req" {
			// Did somebody else's cancellation cause it?
			for _, o := range j.opsByKey[j.ids[r].key] {
				if o != r && o.Op.Cancel > 0 && o.Start <= r.End && o.End >= r.Start-time.Second {
					w.violate("C06", "cancel-leaked", "%v failed (%s) while %v was canceled by its client", r, what, o)
					break
				}
			}
		}
	}
	for _, k := range w.nodes {
		if k.baseG > 0 && k.up && !k.downDuring(w.healAt, w.now()) {
			if n := gCount(k); n > k.baseG+12 {
				w.violate("C07", "goroutine-leak", "%s has %d goroutines long after the last request, it had %d before the first", k.m.name, n, k.baseG)
			}
			open := []string{}
			for _, c := range w.net.order {
				if !w.net.conns[c] || c.closed || c.m != k.m || c.inc != k.inc {
					continue
				}
				if p := c.local.Port; p == 80 || p == 3128 || strings.HasPrefix(c.peer.m.name, "origin") {
					open = append(open, fmt.Sprintf("%v-%v", c.local, c.remote))
				}
			}
			if len(open) > 0 {
				w.violate("C07", "connection-leak", "%s still has %d connections open long after the last request: %v", k.m.name, len(open), open)
			}
			w.cover["C07.leak-checked"]++
		}
	}
}

// ---- C15: failures of origins

func (j *judgeState) failures() {
	w := j.w
	for _, r := range w.ops {
		v := j.views[r]
		if v == nil || !v.made || r.Op.Text != "" || r.Op.Kind != "req" || !j.ids[r].ok {
			continue
		}
		w.cover["C15.failed"]++
		if j.unmarked {
			continue // cannot tell where it comes from
		}
		if r.Status == 400 && r.End-r.Start >= 950*time.Millisecond && (r.Op.Mode != "" || j.excuse(r) != "") {
			continue // the request itself never arrived in full
		}
		if r.Status < 502 || r.Status > 504 {
			w.violate("C15", "failure-status", "%v failed upstream and was answered with status %d %.60q, not with 502, 503 or 504", r, r.Status, r.Body)
		}
	}
	for _, e := range w.exchs {
		if e.Fault != "" {
			w.cover["C15.faulty-exchanges"]++
		}
	}
}

// ---- C17 and the administrative interface

func aclAllows(acl, ip string) bool {
	if strings.Trim(acl, ", ") == "" {
		return true
	}
	a, err := netip.ParseAddr(ip)
	if err != nil {
		return false
	}
	a = a.Unmap().WithZone("")
	for _, s := range strings.Split(acl, ",") {
		s = strings.TrimSpace(s)
		if p, err := netip.ParsePrefix(s); err == nil {
			if p.Contains(a) {
				return true
			}
		} else if x, err := netip.ParseAddr(s); err == nil && x.Unmap().WithZone("") == a {
			return true
		}
	}
	return false
}

// apiClient is the address an API request counts as coming from.
func (j *judgeState) apiClient(r *OpRec) string {
	var xff []string
	for _, h := range r.Op.Headers {
		if h[0] == "X-Forwarded-For" {
			xff = append(xff, h[1])
		}
	}
	if x := strings.Trim(strings.Join(xff, ","), ","); x != "" {
		return strings.TrimSpace(x[strings.LastIndexByte(x, ',')+1:])
	}
	if x := hdr(r, "X-Real-Ip"); x != "" {
		return x
	}
	if m := j.w.machines[r.Op.Mode]; m != nil {
		return m.ip
	}
	return j.w.machines["admin"].ip
}

func (j *judgeState) admin() {
	w := j.w
	acl := w.plan.Config.ACL
	for _, r := range w.ops {
		if r.Op.Kind != "api" || !r.ok() || r.Op.Text != "" {
			continue
		}
		allowed := aclAllows(acl, j.apiClient(r))
		if acl != "" {
			w.cover["C17.judged"]++
		}
		if strings.HasPrefix(r.Op.Target, "/debug/") {
			w.cover["C17.debug"]++
			if !w.plan.Config.Debug && r.Status != 404 && r.Status != 405 && r.Status != 401 {
				w.violate("C17", "debug-exposed", "%v was answered with %d although the API is not in debug mode", r, r.Status)
			}
			if w.plan.Config.Debug && allowed && r.Op.Method == "GET" && r.Status != 200 && j.excuse(r) == "" {
				w.violate("C17", "debug-missing", "%v was answered with %d although the API is in debug mode", r, r.Status)
			}
		}
		switch {
		case !allowed:
			w.cover["C17.denied"]++
			if r.Op.Config != nil && r.Op.Config.Cache.XName != "" {
				n := http.CanonicalHeaderKey(r.Op.Config.Cache.XName)
				for _, o := range w.ops {
					if o.Start >= r.Start && o.Op.Kind == "req" && len(o.Header[n]) > 0 {
						w.violate("C17", "denied-update-effective", "%v of %v is marked %s, a configuration that only %v from %s brought", o, o.Node.m.name, n, r, j.apiClient(r))
					}
				}
			}
			if r.Status != 401 && r.Status != 404 && r.Status != 405 && r.Status != 301 {
				w.violate("C17", "acl-bypassed", "%v from %s is not allowed by acl %q but was answered with %d", r, j.apiClient(r), acl, r.Status)
			}
			continue
		case r.Status == 401:
			w.violate("C17", "wrongly-denied", "%v from %s is allowed by acl %q but was denied", r, j.apiClient(r), acl)
			continue
		}
		pre := w.plan.Config.prefix()
		switch {
		case r.Op.Method == "PURGE" && r.Op.Target == "/", r.Op.Method == "DELETE" && strings.HasPrefix(r.Op.Target, pre+"/cache/"):
			if r.Status != 200 && j.excuse(r) == "" {
				w.violate("C05", "purge-failed", "%v (%q) was answered with %d", r, hdr(r, "X-Purge-Key"), r.Status)
			}
		case r.Op.Method == "GET" && r.Op.Target == pre+"/cache/keys":
			if r.Status == 200 {
				j.listing(r)
			} else if j.excuse(r) == "" {
				w.violate("C05", "listing-failed", "%v was answered with %d", r, r.Status)
			}
		}
	}
}

// listing compares a key listing with what has to be, and must not be, cached.
func (j *judgeState) listing(r *OpRec) {
	w := j.w
	var keys []string
	if err := json.Unmarshal(r.Body, &keys); err != nil {
		w.violate("C05", "listing-malformed", "%v returned %.80q", r, r.Body)
		return
	}
	w.cover["C05.listings"]++
	if w.during(r.Start-4*time.Second, r.End, func(f Fault) bool { return f.Kind == "redis" || linkBetween(f, r.Node.m.name, "redis") }) {
		return
	}
	have := map[string]bool{}
	for _, k := range keys {
		if have[k] {
			w.violate("C05", "listing-duplicate", "%v lists %s twice", r, k)
		}
		have[k] = true
		ops := j.opsByKey[k]
		var last *OpRec
		started := false
		for _, o := range ops {
			if o.Op.Method == "GET" && o.Start < r.End && (w.redis != nil || o.Node == r.Node && o.Inc == r.Inc) {
				started = true
				last = o
			}
		}
		if !started && !j.rawRequests {
			w.violate("C05", "listing-unknown", "%v lists %s, which nobody requested", r, k)
			continue
		}
		_ = last
		for _, p := range j.purges {
			if p.End >= r.Start || !wildMatch(*j.purgePattern(p), k) {
				continue
			}
			if w.redis == nil && (p.Node != r.Node || p.Inc != r.Inc) {
				continue
			}
			// anything that may have stored it since?
			ok := j.rawRequests
			for _, o := range ops {
				if o.Op.Method == "GET" && o.Start < r.End && (!o.Done || !o.ok() || o.End >= p.Start || w.redis != nil && o.Node != p.Node && o.End >= p.Start-2*time.Second) {
					ok = true
				}
			}
			if w.during(p.Start-40*time.Second, r.End, func(f Fault) bool { return f.Kind == "redis" || linkBetween(f, r.Node.m.name, "redis") }) {
				ok = true
			}
			if !ok {
				w.violate("C05", "listed-after-purge", "%v lists %s, purged by %q at %.3f..%.3fms and not requested since", r, k, *j.purgePattern(p), float64(p.Start)/1e6, float64(p.End)/1e6)
			}
		}
	}
	var all []string
	for k := range j.opsByKey {
		if k != "" {
			all = append(all, k)
		}
	}
	sort.Strings(all)
	for _, k := range all {
		if have[k] {
			continue
		}
		if x, _ := j.cachedAt(k, r, r.Start, r.End); x != nil {
			w.violate("C05", "listing-incomplete", "%v does not list %s although exchange %d is cached", r, k, x.ID)
		}
	}
}

// ---- C08: capacity

func (j *judgeState) capacity() {
	w := j.w
	c := &w.plan.Config
	if c.MemItem > 0 && w.redis == nil {
		for _, r := range w.ops {
			v := j.views[r]
			if v == nil || v.E == nil || v.own || v.ownV {
				continue
			}
			x := v.X()
			if x.End > 0 && x.End < j.refTime(r) && uint64(len(v.E.Body)) > c.MemItem {
				w.violate("C08", "big-item-cached", "%v was answered from the cache with exchange %d of %d bytes, the limit is %d", r, v.E.ID, len(v.E.Body), c.MemItem)
			}
		}
	}
	if c.MemMax > 0 && w.redis == nil {
		for _, r := range w.ops {
			if r.Op.Kind != "api" || !r.ok() || r.Status != 200 || r.Op.Target != c.prefix()+"/cache/keys" {
				continue
			}
			var keys []string
			if json.Unmarshal(r.Body, &keys) != nil {
				continue
			}
			// The smallest each of them may be.
			var sum uint64
			for _, k := range keys {
				least := -1
				for _, o := range j.opsByKey[k] {
					v := j.views[o]
					if v == nil || v.E == nil || o.Start > r.End {
						if o.Start <= r.End && (v == nil) {
							least = 0
						}
						continue
					}
					if n := len(v.E.Body); least < 0 || n < least {
						least = n
					}
				}
				if least > 0 {
					sum += uint64(least)
				}
			}
			w.cover["C08.sizes"]++
			if sum > c.MemMax {
				w.violate("C08", "over-capacity", "%v lists %d keys whose bodies alone have %d bytes, the limit is %d", r, len(keys), sum, c.MemMax)
			}
			if sum > c.MemMax/2 {
				w.cover["C08.half-full"]++
			}
		}
	}
}

// ---- C12: cluster

type peerReq struct {
	At     time.Duration
	From   int
	To     string
	Method string
	Path   string
}

func (j *judgeState) cluster() {
	w := j.w
	c := &w.plan.Config
	if !c.Cluster {
		return
	}
	// A broadcast reaches every node, within the time the retries take.
	faulty := func(a, b time.Duration) (time.Duration, bool) {
		last := time.Duration(-1)
		for _, x := range w.windows {
			if x.from <= b && a-time.Second <= x.to {
				last = max(last, x.to)
			}
		}
		return last, last >= 0
	}
	for _, r := range w.ops {
		v := j.views[r]
		if v == nil || v.E == nil || v.own || v.ownV || !c.Layered {
			continue
		}
		x := v.X()
		end := j.opEnd(x)
		if end == 0 {
			continue
		}
		for _, p := range j.purges {
			if p.Op.Method != "PURGE" || !wildMatch(*j.purgePattern(p), j.ids[r].key) || end >= p.Start || p.Node == r.Node && p.Inc == r.Inc {
				continue
			}
			settled := p.End + 3*time.Second
			if w.during(p.Start-time.Second, p.End+time.Second, func(f Fault) bool { return f.Kind == "kube" }) {
				continue // the other nodes cannot be discovered
			}
			if t, bad := faulty(p.Start, settled); bad {
				// every message is tried five times, seven seconds apart
				if t > p.End+25*time.Second {
					continue
				}
				settled = max(t, p.End) + 12*time.Second
				if t2, bad2 := faulty(t+time.Millisecond, settled); bad2 && t2 != t {
					continue
				}
			}
			if r.Start <= settled || j.refTime(r) <= settled || r.Node.downDuring(p.Start, settled) || p.Node.downDuring(p.Start, settled) {
				continue
			}
			if at, ok := j.setArrival(x); !ok || at >= p.Start {
				continue
			}
			w.cover["C12.propagated"]++
			w.violate("C12", "purge-not-propagated", "%v on %s was answered with exchange %d, purged on %s at %.3fms by %q", r, r.Node.m.name, x.ID, p.Node.m.name, float64(p.End)/1e6, *j.purgePattern(p))
			break
		}
	}
	// No storms: what one API request sets off is bounded.
	src := 0
	for _, r := range w.ops {
		if r.Op.Kind == "api" && (r.Op.Method == "PURGE" || r.Op.Method == "PUT") {
			src++
		}
	}
	if n := len(w.peers); n > src*len(w.nodes)*5 {
		w.violate("C12", "amplified", "%d API requests set off %d requests between the nodes", src, n)
	}
	w.cover["C12.peer-requests"] += int64(len(w.peers))
	for _, q := range w.peers {
		ok := q.Method == "DELETE" && q.Path == c.prefix()+"/cache/invalidate" || q.Method == "PUT" && q.Path == c.prefix()+"/cache/config/update"
		if !ok {
			w.violate("C12", "odd-broadcast", "kache%d sent %s %s to %s", q.From, q.Method, q.Path, q.To)
		}
	}
	if !w.during(0, w.now(), func(Fault) bool { return true }) && j.neverDown() {
		if n := len(w.peers); n > src*len(w.nodes) {
			w.violate("C12", "amplified", "%d API requests set off %d requests between %d nodes although nothing failed", src, n, len(w.nodes))
		}
	}
}

// linksHealed tells when the last fault of the run ended, if all there was was
// trouble on links other than those of the platform (0: no).
func (j *judgeState) linksHealed() time.Duration {
	if !j.neverDown() {
		return 0
	}
	end := time.Duration(1)
	for _, s := range j.w.windows {
		if !isLink(s.f) && s.f.Kind != "busy" || s.f.A == "kube" || s.f.B == "kube" {
			return 0
		}
		end = max(end, s.to)
	}
	return end
}

func (j *judgeState) neverDown() bool {
	for _, k := range j.w.nodes {
		if k.downDuring(j.w.base, j.w.now()) {
			return false
		}
	}
	return true
}

// ---- C13 (and C12): configurations in force

func markOf(c *ConfigPlan) string {
	if c == nil {
		return ""
	}
	if c.Cache.XName != "" {
		return c.Cache.XName
	}
	return "X-Kache"
}

type cfgEvent struct {
	from, to time.Duration // it takes effect at some moment in between
	kind     string        // "file": what is in the file at that moment; "put": the given one
	put      *ConfigPlan
	maybe    bool // it may have no effect at all
}

type activeSet struct {
	at  time.Duration
	set map[*ConfigPlan]bool
}

// fileAt lists what the file may have been when read between a and b.
func fileAt(st *cfgState, a, b time.Duration) []cfgWrite {
	var l []cfgWrite
	for i, x := range st.writes {
		next := never
		if i+1 < len(st.writes) {
			next = st.writes[i+1].At
		}
		if x.At <= b && next >= a {
			l = append(l, x)
		}
	}
	return l
}

// unreadable tells whether the file of the node could not be read at some time
// between a and b.
func (j *judgeState) unreadable(k *KNode, a, b time.Duration) bool {
	return j.w.during(a, b, func(f Fault) bool { return f.Kind == "file" && f.A == k.m.name })
}

// pastPauses moves the latest end of something begun at from behind the pauses
// of the node that may delay it.
func (j *judgeState) pastPauses(k *KNode, from, to, lag time.Duration) time.Duration {
	for _, x := range j.w.windows {
		if (x.f.Kind == "pause" || x.f.Kind == "file") && on(k.m.name, x.f, x.f.A) && x.from <= to && x.to >= from {
			to = max(to, x.to+lag+j.stallSlack)
		}
	}
	return to
}

// possible computes which configurations may be in force on a node during
// [a, b].
func (j *judgeState) possible(k *KNode, a, b time.Duration) map[*ConfigPlan]bool {
	w := j.w
	st := w.curCfg[k.idx]
	// the current process started with what the file was then
	start := time.Duration(0)
	for _, s := range k.down {
		if s.to != never && s.to <= b {
			start = s.to
		}
	}
	var evs []cfgEvent
	const lag = 400 * time.Millisecond
	for _, r := range st.reloads {
		to := r.to
		if r.kind == "sighup" {
			to = j.pastPauses(k, r.from, to+lag+j.stallSlack, lag)
		}
		evs = append(evs, cfgEvent{from: r.from, to: to, kind: "file", maybe: j.unreadable(k, r.from, to)})
	}
	if w.plan.Watch {
		iv := time.Duration(w.plan.WatchMs) * time.Millisecond
		for _, x := range st.writes[1:] {
			evs = append(evs, cfgEvent{from: x.At, to: j.pastPauses(k, x.At, x.At+iv+lag+j.stallSlack, iv+lag), kind: "file"})
		}
	}
	for _, o := range w.ops {
		if o.Op.Kind != "api" || o.Op.Method != "PUT" || o.Op.Config == nil {
			continue
		}
		if o.Node == k {
			if o.Done && o.ok() && o.Status == 200 {
				evs = append(evs, cfgEvent{from: o.Start, to: o.End, kind: "put", put: o.Op.Config})
			} else if !o.Done || !o.ok() {
				evs = append(evs, cfgEvent{from: o.Start, to: never, kind: "put", put: o.Op.Config, maybe: true})
			}
			if w.plan.Config.Cluster {
				// its own broadcast comes back to it
				evs = append(evs, cfgEvent{from: o.Start, to: o.End + 40*time.Second, kind: "put", put: o.Op.Config, maybe: true})
			}
		} else if w.plan.Config.Cluster && (!o.Done || !o.ok() || o.Status == 200) {
			lag, maybe := 3*time.Second, false
			if !o.ok() || w.during(0, w.now(), func(Fault) bool { return true }) || !j.neverDown() {
				lag, maybe = 40*time.Second, true
				if end := j.linksHealed(); o.ok() && end > 0 && end < o.End+23*time.Second {
					// passed on again later
					lag, maybe = max(0, end-o.End)+20*time.Second, false
				}
			}
			evs = append(evs, cfgEvent{from: o.Start, to: o.End + lag, kind: "put", put: o.Op.Config, maybe: maybe})
		}
	}
	sort.SliceStable(evs, func(x, y int) bool { return evs[x].to < evs[y].to })
	res := map[*ConfigPlan]bool{}
	// Start: the last valid file at the time the process started.
	for _, x := range fileAt(st, max(0, start-3*time.Second), start) {
		if x.Config != nil {
			res[x.Config] = true
		}
	}
	for _, e := range evs {
		if e.to < start || e.from > b {
			continue
		}
		add := map[*ConfigPlan]bool{}
		sure := !e.maybe && e.to <= a
		if e.kind == "put" {
			add[e.put] = true
		} else {
			for _, x := range fileAt(st, e.from, min(e.to, b)) {
				if x.Config != nil {
					add[x.Config] = true
				} else {
					sure = false // stays as it is
				}
			}
			if len(add) == 0 {
				sure = false
			}
			// An unchanged file is not read again: after a PUT the
			// configuration may remain what the PUT made it.
			for _, o := range evs {
				if o.kind == "put" && o.from <= e.to {
					sure = false
				}
			}
		}
		// events whose windows overlap take effect in either order
		if sure {
			keep := map[*ConfigPlan]bool{}
			for _, o := range evs {
				if o != e && o.from < e.to && o.to > e.from && o.from <= b {
					if o.kind == "put" {
						keep[o.put] = true
					} else {
						from := o.from
						if e.kind == "file" {
							// neither brings back what the file was before
							from = max(from, e.from)
						}
						for _, x := range fileAt(st, from, min(o.to, b)) {
							if x.Config != nil {
								keep[x.Config] = true
							}
						}
					}
				}
			}
			for c := range res {
				if !keep[c] {
					delete(res, c)
				}
			}
		}
		for c := range add {
			res[c] = true
		}
	}
	return res
}

func setMarks(m map[*ConfigPlan]bool) []string {
	var l []string
	for c := range m {
		l = append(l, markOf(c))
	}
	sort.Strings(l)
	return l
}

func (j *judgeState) reloads() {
	w := j.w
	prop := "C13"
	if w.plan.Prop == "C12" {
		prop = "C12"
	}
	if j.static {
		return
	}
	for _, r := range w.ops {
		if !r.ok() || r.Op.Text != "" {
			continue
		}
		if r.Op.Tag == "bad-put" && r.Status == 200 {
			w.violate(prop, "broken-accepted", "%v of the configuration %.300q was answered with 200", r, r.Op.Body)
		}
		if r.Op.Kind == "api" && r.Op.Method == "GET" && r.Op.Target == w.plan.Config.prefix()+"/cache/config" && r.Status == 200 {
			if r.Node.downDuring(r.Start, r.End) {
				continue
			}
			var got struct {
				XName           string `json:"x_header_name"`
				Strict, XHeader *bool
				DefaultTTL      string `json:"default_ttl"`
				CC              string `json:"default_cache_control"`
				Force           bool   `json:"force_cache_control"`
				Timeouts        []struct {
					Path string `json:"path"`
				} `json:"timeouts"`
			}
			if err := json.Unmarshal(r.Body, &got); err != nil {
				w.violate(prop, "config-malformed", "%v returned %.80q", r, r.Body)
				continue
			}
			if got.XName == "" {
				got.XName = "X-Kache"
			}
			poss := j.possible(r.Node, r.Start, r.End)
			w.cover["C13.observed"]++
			if len(poss) == 1 {
				w.cover["C13.determined"]++
			}
			ok := false
			for c := range poss {
				if markOf(c) == got.XName && (c.Cache.NoSection || c.Cache.DefaultCC == got.CC && c.Cache.ForceCC == got.Force && len(c.Cache.Timeouts) == len(got.Timeouts)) {
					ok = true
				}
			}
			if !ok {
				w.violate(prop, "wrong-config", "%v: the configuration in force is %s, it can only be one of %v", r, got.XName, setMarks(poss))
			}
		}
		v := j.views[r]
		if v != nil && !v.made && (r.Op.Method == "GET" || r.Op.Method == "HEAD") && !r.Node.downDuring(r.Start, r.End) {
			// A hit is marked as one of the configurations in force says.
			for _, k := range []string{"HIT"} {
				for h, l := range r.Header {
					if len(l) > 0 && l[0] == k && strings.HasPrefix(h, "X-Kache") {
						ok := false
						for c := range j.possible(r.Node, j.refTime(r), r.End) {
							if strings.EqualFold(markOf(c), h) {
								ok = true
							}
						}
						if !ok {
							w.violate(prop, "old-config-used", "%v is marked %s, which no configuration in force then says", r, h)
						}
						w.cover["C13.marked"]++
					}
				}
			}
		}
	}
	for i, st := range w.curCfg {
		for _, r := range st.reloads {
			if j.unreadable(w.nodes[i], r.from, r.to) {
				for _, x := range w.windows {
					if x.f.Kind == "file" && x.f.A == w.nodes[i].m.name && x.from < r.from && x.to > r.to && r.kind == "api" && r.status == 200 {
						w.violate("C13", "broken-accepted", "a reload at %.3fms of a file that could not be read was answered with 200", float64(r.from)/1e6)
					}
				}
				continue
			}
			if r.kind != "api" || r.status == 0 {
				continue
			}
			good, bad := 0, 0
			for _, x := range fileAt(st, r.from, r.to) {
				if x.Config != nil {
					good++
				} else {
					bad++
				}
			}
			if good == 0 && bad > 0 && r.status == 200 {
				w.violate("C13", "broken-accepted", "a reload at %.3fms of a broken file (%s) was answered with 200", float64(r.from)/1e6, fileAt(st, r.from, r.to)[0].Mode)
			}
			if bad == 0 && good > 0 && r.status >= 300 && r.status != 401 {
				w.violate("C13", "good-refused", "a reload at %.3fms of a good file was answered with %d", float64(r.from)/1e6, r.status)
			}
		}
	}
}

// ---- C14: shutdown

func (j *judgeState) shutdowns() {
	w := j.w
	for _, k := range w.nodes {
		for _, x := range k.exits {
			if x.term == 0 {
				continue
			}
			w.cover["C14.exits"]++
			if x.code != 0 {
				w.violate("C14", "exit-code", "%s exited with code %d (%s) %v after it was told to stop", k.m.name, x.code, x.why, x.at-x.term)
			}
			paused := w.during(x.term, x.at, func(f Fault) bool { return f.Kind == "pause" })
			if x.at-x.term > 12*time.Second && !paused {
				w.violate("C14", "slow-exit", "%s took %v to stop", k.m.name, x.at-x.term)
			}
		}
		if k.up && k.term > 0 && w.now()-k.term > 14*time.Second && !w.during(k.term, w.now(), func(f Fault) bool { return f.Kind == "pause" && f.At+f.DurMs > w.plan.EndMs-1 }) {
			w.violate("C14", "no-exit", "%s is still running %v after it was told to stop", k.m.name, w.now()-k.term)
		}
	}
	// What was being processed is finished.
	for _, r := range w.ops {
		if r.Op.Kind == "api" && r.Op.Text == "" && r.Done && r.Op.Cancel == 0 && r.Op.Mode == "" && r.Conn != 0 && r.Op.SlowMs == 0 && !r.Reused {
			for _, x := range r.Node.exits {
				if x.inc != r.Inc || x.term == 0 || r.Conn+60*time.Millisecond+j.stallSlack > x.term || r.End < x.term || x.at > x.term+4*time.Second {
					continue
				}
				if w.during(r.Start-time.Second, r.End, func(f Fault) bool { return f.Kind != "origin" && (f.Kind != "redis" || f.Mode != "slow") }) {
					continue
				}
				w.cover["C14.api-in-flight"]++
				if !r.ok() {
					w.violate("C14", "api-in-flight-lost", "%v was being processed when %s was told to stop at %.3fms, and failed: %s", r, r.Node.m.name, float64(x.term)/1e6, r.Err)
				}
			}
			continue
		}
		if r.Op.Kind != "req" || r.Op.Text != "" || !r.Done || r.Op.Cancel > 0 || r.Op.Mode != "" || r.Conn == 0 || r.Op.SlowMs > 0 || !j.ids[r].ok {
			continue
		}
		for _, x := range r.Node.exits {
			if x.inc != r.Inc || x.term == 0 || r.Conn+20*time.Millisecond+j.stallSlack > x.term || r.End < x.term || r.Reused {
				continue
			}
			// was it at the origin, or known to be waiting for one that was?
			var e *Exchange
			for _, q := range w.exchs {
				if q.XReq == r.ID {
					e = q
				}
			}
			if e == nil || e.Arrive > x.term || e.Fault != "" || !e.Sent || e.End-r.Start > 850*time.Millisecond || e.End > x.term+4*time.Second {
				continue
			}
			if w.during(r.Start-4*time.Second, r.End, func(f Fault) bool { return f.Kind != "origin" }) {
				continue
			}
			w.cover["C14.in-flight"]++
			if !r.ok() || j.views[r] == nil || j.views[r].made {
				w.violate("C14", "in-flight-lost", "%v was being processed when %s was told to stop at %.3fms, and failed: %s status %d", r, r.Node.m.name, float64(x.term)/1e6, r.Err, r.Status)
			}
		}
	}
}
