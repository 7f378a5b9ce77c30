//go:build go1.22

package main

import "time"

// ---- C23: start-up is all or nothing

func (j *judgeState) boots() {
	w := j.w
	if w.plan.Prop != "C23" {
		return
	}
	for _, k := range w.nodes {
		st := w.curCfg[k.idx]
		for i, b := range k.boots {
			ended := b.ended
			if ended == 0 {
				ended = w.now()
			}
			term := time.Duration(0)
			for _, x := range k.exits {
				if x.inc == b.inc {
					term = x.term
				}
			}
			if i == len(k.boots)-1 && k.up && term == 0 {
				term = k.term
			}
			// nothing else made it end, or kept it from ending
			alone := func(to time.Duration) bool {
				return (term == 0 || term > to) && !w.during(b.at, to, func(f Fault) bool {
					return f.Kind == "pause" || f.Kind == "file" || f.Kind == "clock"
				})
			}
			files := fileAt(st, b.at, b.at+200*time.Millisecond+j.stallSlack)
			good, bad, async := 0, 0, false
			for _, f := range files {
				if unusable[f.Mode] || w.plan.Watch && w.plan.WatchMs <= 0 {
					bad++
				} else {
					good++
				}
				async = async || f.Mode == "bad-port" || f.Mode == "port-clash"
			}
			busyAll := func(api bool) bool {
				for _, x := range w.windows {
					if x.f.Kind == "port" && x.f.A == k.m.name && (x.f.Arg == 6067) == api && x.from <= b.at && x.to >= b.at+3*time.Second+j.stallSlack {
						return true
					}
				}
				return false
			}
			backends := w.during(max(0, b.at-10*time.Second), b.at+15*time.Second, func(f Fault) bool {
				return f.Kind == "redis" || f.Kind == "kube" || f.Kind == "refuse" || f.Kind == "cut" || f.Kind == "partition" || f.Kind == "reset" || f.Kind == "latency"
			})
			busySome := w.during(b.at, b.at+3*time.Second+j.stallSlack, func(f Fault) bool { return f.Kind == "port" && f.A == k.m.name })
			limit := 10 * time.Second
			if backends || good+bad == 1 && files[0].Mode == "no-endpoint" {
				limit = 80 * time.Second
			}
			limit += j.stallSlack
			switch {
			case good == 0 && bad > 0, busyAll(true), busyAll(false):
				why := "its file is unusable"
				if good > 0 {
					why = "a port is taken"
					async = busyAll(true)
				} else if w.plan.Watch {
					why = "its watch interval is none"
				}
				for _, f := range files {
					if unusable[f.Mode] {
						why += " (" + f.Mode + ")"
					}
				}
				if b.ended > 0 && b.why == "" {
					continue // killed meanwhile
				}
				if !alone(min(ended, b.at+limit)) {
					continue
				}
				if b.ended == 0 && w.now() < b.at+limit {
					continue
				}
				w.cover["C23.failed-start"]++
				if b.ended == 0 || b.ended-b.at > limit {
					w.violate("C23", "runs-anyway", "%s, started at %.3fms, runs although %s", k.m.name, float64(b.at)/1e6, why)
				} else if b.code == 0 {
					w.violate("C23", "no-error-status", "%s, started at %.3fms, ended with status 0 (%s) although %s", k.m.name, float64(b.at)/1e6, b.why, why)
				}
				for _, r := range w.ops {
					if r.Status == 0 || r.Start < b.at || r.Node != k || r.First > ended+50*time.Millisecond || i+1 < len(k.boots) && r.First >= k.boots[i+1].at {
						continue
					}
					if async && r.First < b.at+time.Second+j.stallSlack {
						continue
					}
					w.violate("C23", "half-started", "%s, started at %.3fms, answered %v although %s", k.m.name, float64(b.at)/1e6, r, why)
				}
				if w.redis != nil {
					for _, s := range w.redis.sets {
						if s.Node == k.m.name && s.At > b.at && s.At <= ended && !async {
							w.violate("C23", "trace-left", "%s, started at %.3fms, stored %q although %s", k.m.name, float64(b.at)/1e6, s.Key, why)
						}
					}
				}
			case bad == 0 && good > 0 && !busySome && !backends:
				if !alone(b.at+3*time.Second) || b.ended > 0 && b.why == "" && b.ended < b.at+3*time.Second+j.stallSlack {
					continue
				}
				if w.now() < b.at+3*time.Second+j.stallSlack {
					continue
				}
				w.cover["C23.good-start"]++
				if b.up == 0 || b.up-b.at > 3*time.Second+j.stallSlack {
					w.violate("C23", "does-not-start", "%s, started at %.3fms with a usable file, does not serve (%s, status %d)", k.m.name, float64(b.at)/1e6, b.why, b.code)
					continue
				}
				for _, port := range []int{80, 3128, 6067} {
					if !b.open[port] {
						w.violate("C23", "incomplete", "%s, started at %.3fms, does not listen on port %d", k.m.name, float64(b.at)/1e6, port)
					}
				}
				if b.ended > 0 && b.why != "" && term == 0 {
					w.violate("C23", "ends-by-itself", "%s, started at %.3fms, ended at %.3fms without being told to (%s, status %d)", k.m.name, float64(b.at)/1e6, float64(b.ended)/1e6, b.why, b.code)
				}
			case bad == 0 && good > 0 && !busySome:
				// without its backends it may give up or serve, but not hang
				if b.up == 0 && b.ended == 0 && w.now() > b.at+limit && alone(w.now()) {
					w.violate("C23", "hangs", "%s, started at %.3fms, neither serves nor ends", k.m.name, float64(b.at)/1e6)
				}
				w.cover["C23.backend-start"]++
			}
		}
	}
}
