//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---- C22: the metrics

// counters reads the counters of the cache from what /metrics said.
func counters(body []byte) (hits, misses float64, ok bool) {
	n := 0
	s := bufio.NewScanner(bytes.NewReader(body))
	for s.Scan() {
		name, val, _ := strings.Cut(strings.TrimSpace(s.Text()), "} ")
		x, err := strconv.ParseFloat(strings.TrimSpace(val), 64)
		if err != nil {
			continue
		}
		switch strings.ReplaceAll(name, " ", "") {
		case `kache_http_cache_requests_total{result="hit"`:
			hits = x
			n++
		case `kache_http_cache_requests_total{result="miss"`:
			misses = x
			n++
		}
	}
	return hits, misses, n == 2
}

// excludedBy tells whether the request is excluded by the configuration c.
func (j *judgeState) excludedBy(c *CachePlan, r *OpRec) bool {
	if c.NoSection {
		return false
	}
	for _, p := range c.ExPaths {
		if reMatch(p, j.ids[r].decoded) {
			return true
		}
	}
	for k, val := range c.ExHeaders {
		if hdr(r, strings.ReplaceAll(k, "_", "-")) == val {
			return true
		}
	}
	return false
}

// validating tells whether kache asked for a validation of what it has.
func validating(e *Exchange) bool {
	for _, n := range []string{"If-None-Match", "If-Modified-Since", "Last-Modified"} {
		if _, ok := e.Header[n]; ok {
			return true
		}
	}
	return false
}

// disjoint is how many of the requests certainly were looked up on their own.
func (j *judgeState) disjoint(l []*OpRec) int {
	byKey := map[string][]*OpRec{}
	for _, o := range l {
		byKey[j.ids[o].key] = append(byKey[j.ids[o].key], o)
	}
	n := 0
	for _, l := range byKey {
		sort.SliceStable(l, func(a, b int) bool { return l[a].End < l[b].End })
		last := time.Duration(-1)
		for _, o := range l {
			if o.Start > last {
				n, last = n+1, o.End
			}
		}
	}
	return n
}

// metrics compares the counters with what the clients and the origins saw.
func (j *judgeState) metrics() {
	w := j.w
	own := map[int][]*Exchange{}
	for _, e := range w.exchs {
		own[e.XReq] = append(own[e.XReq], e)
	}
	caches := w.allCaches()
	type sample struct {
		r            *OpRec
		hits, misses float64
	}
	last := map[int][]sample{}
	for _, r := range w.ops {
		if r.Op.Kind != "api" || r.Op.Method != "GET" || r.Op.Target != "/metrics" || r.Op.Arg != 0 || !r.ok() || r.Status != 200 || r.Op.Mode != "" {
			continue
		}
		if r.Node.downDuring(r.Start, r.End) {
			continue
		}
		hits, misses, ok := counters(r.Body)
		if !ok {
			w.violate("C22", "metric-missing", "%v does not tell the hits and misses", r)
			continue
		}
		w.cover["C22.samples"]++
		for _, s := range last[r.Inc] {
			if s.r.End < r.Start && (s.hits > hits || s.misses > misses) {
				w.violate("C22", "counter-decreased", "%v: %v hits and %v misses, %v had %v and %v", r, hits, misses, s.r, s.hits, s.misses)
			}
		}
		last[r.Inc] = append(last[r.Inc], sample{r, hits, misses})

		var maxHits, maxMisses, minMisses int
		var sure []*OpRec
		for _, o := range w.ops {
			if o.Op.Kind != "req" || o.Node != r.Node || o.Start >= r.End || o.Op.Text == "" && o.Op.Method != "GET" && o.Op.Method != "HEAD" {
				continue
			}
			vague := o.Op.Text != "" || o.Node.downDuring(o.Start, o.End)
			if !vague && o.Inc != r.Inc {
				continue // of another process
			}
			bypass, may := false, false
			if !vague {
				if conditional(o) || hasHeader(o, "Range", "Authorization") || j.excludedBy(&j.rules, o) {
					bypass = true
				}
				for _, c := range caches {
					may = may || j.excludedBy(c, o)
				}
			}
			if bypass {
				continue
			}
			v := j.views[o]
			validated, missed := false, false
			for _, e := range own[o.ID] {
				if validating(e) {
					validated = true
				} else if e.Arrive < r.Start && e.Res != nil && (e.Res.ETag || e.Res.LastMod) && len(e.Res.Alt) == 0 {
					missed = true
				}
			}
			if len(own[o.ID]) == 0 {
				maxHits++
			}
			shared := v != nil && v.E != nil && !v.own && !v.ownV
			if !validated && !shared {
				maxMisses++
			}
			if vague || may || !j.ids[o].ok {
				continue
			}
			if missed && !validated && len(own[o.ID]) == 1 {
				minMisses++
			}
			if shared && o.End < r.Start {
				x := v.X()
				t := j.refTime(o)
				if x.End > 0 && x.End < t && j.opEnd(x) > 0 && j.opEnd(x) < t {
					sure = append(sure, o)
				}
			}
		}
		minHits := j.disjoint(sure)
		if minHits > 0 {
			w.cover["C22.hits"]++
		}
		if minMisses > 0 {
			w.cover["C22.misses"]++
		}
		if minHits == maxHits && minMisses == maxMisses {
			w.cover["C22.exact"]++
		}
		if int(hits) < minHits || int(hits) > maxHits {
			w.violate("C22", "wrong-hits", "%v: %v hits, between %d and %d requests were answered from the cache", r, hits, minHits, maxHits)
		}
		if int(misses) < minMisses || int(misses) > maxMisses {
			w.violate("C22", "wrong-misses", "%v: %v misses, for between %d and %d requests nothing was stored", r, misses, minMisses, maxMisses)
		}
	}
}
