package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sync"
	"time"
)

// shrink minimises a failing plan: fewer faults, fewer operations, a simpler
// schedule, fewer machines, as long as the same class of violation appears.
func (s *search) shrink(c found, in input) (json.RawMessage, string) {
	// Numbers stay as they are: the seeds do not fit a float64.
	dec := func(b []byte) (p map[string]any) {
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		if d.Decode(&p) != nil {
			return nil
		}
		return p
	}
	p := dec(in.Plan)
	if p == nil {
		return in.Plan, "not minimised"
	}
	count := func(p map[string]any, k string) int {
		l, _ := p[k].([]any)
		return len(l)
	}
	provLen := func(p map[string]any) int {
		if q, ok := p["prov"].(map[string]any); ok {
			return count(q, "ops")
		}
		return 0
	}
	o0, f0, p0 := count(p, "ops"), count(p, "faults"), provLen(p)
	budget := 40 * time.Second
	if s.tier == "thorough" {
		budget = 240 * time.Second
	}
	end := time.Now().Add(budget)
	tries := 0
	enc := func(p map[string]any) json.RawMessage { b, _ := json.Marshal(p); return b }
	clone := func(p map[string]any) map[string]any {
		return dec(enc(p))
	}
	// first returns the first candidate (in order) that still fails.
	first := func(cs []map[string]any) int {
		for off := 0; off < len(cs); off += s.workers {
			if time.Now().After(end) {
				return -1
			}
			n := min(s.workers, len(cs)-off)
			ok := make([]bool, n)
			var wg sync.WaitGroup
			for k := 0; k < n; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					x := in
					x.Plan = enc(cs[off+k])
					_, v := s.fails(k, c, x)
					ok[k] = v != nil
				}()
			}
			wg.Wait()
			tries += n
			for k := range ok {
				if ok[k] {
					return off + k
				}
			}
		}
		return -1
	}
	// The same plan through the decoder first.
	if first([]map[string]any{p}) != 0 {
		return in.Plan, "not minimised (the plan does not survive re-encoding)"
	}
	dropList := func(get func(map[string]any) []any, set func(map[string]any, []any)) bool {
		changed := false
		chunk := (len(get(p)) + 1) / 2
		for chunk >= 1 && time.Now().Before(end) {
			l := get(p)
			var cs []map[string]any
			for i := 0; i < len(l); i += chunk {
				q := clone(p)
				ql := get(q)
				nl := append([]any{}, ql[:i]...)
				if i+chunk < len(ql) {
					nl = append(nl, ql[i+chunk:]...)
				}
				set(q, nl)
				cs = append(cs, q)
			}
			if k := first(cs); k >= 0 {
				p = cs[k]
				changed = true
				if chunk > len(get(p)) {
					chunk = max(1, len(get(p)))
				}
				continue
			}
			if chunk == 1 {
				break
			}
			chunk = (chunk + 1) / 2
		}
		return changed
	}
	list := func(k string) bool {
		return dropList(func(q map[string]any) []any { l, _ := q[k].([]any); return l }, func(q map[string]any, l []any) { q[k] = l })
	}
	prov := func() bool {
		if p0 == 0 {
			return false
		}
		return dropList(func(q map[string]any) []any { l, _ := q["prov"].(map[string]any)["ops"].([]any); return l }, func(q map[string]any, l []any) { q["prov"].(map[string]any)["ops"] = l })
	}
	simpler := func() bool {
		changed := false
		edits := []func(q map[string]any){
			func(q map[string]any) { q["sched"].(map[string]any)["stall_n"] = 0 },
			func(q map[string]any) { q["sched"].(map[string]any)["yield_n"] = 0 },
			func(q map[string]any) {
				m := q["sched"].(map[string]any)
				m["policy"], m["mix_n"], m["yield_n"], m["stall_n"] = 0, 0, 0, 0
			},
			func(q map[string]any) { q["jit_us"] = 1 },
			func(q map[string]any) { delete(q, "skew_ms"); delete(q, "oskew_ms") },
			func(q map[string]any) {
				for _, o := range q["ops"].([]any) {
					m := o.(map[string]any)
					delete(m, "cancel_us")
					delete(m, "slow_ms")
				}
			},
		}
		for _, e := range edits {
			q := clone(p)
			func() {
				defer func() { recover() }()
				e(q)
			}()
			if string(enc(q)) != string(enc(p)) && first([]map[string]any{q}) == 0 {
				p = q
				changed = true
			}
		}
		return changed
	}
	for round := 0; round < 4 && time.Now().Before(end); round++ {
		a := list("faults")
		b := list("ops")
		d := prov()
		e := simpler()
		if !a && !b && !d && !e {
			break
		}
	}
	return enc(p), fmt.Sprintf("minimised from %d operations and %d faults to %d and %d in %d runs", o0+p0, f0, count(p, "ops")+provLen(p), count(p, "faults"), tries)
}
