//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"gopkg.in/yaml.v3"

	"github.com/kacheio/kache/pkg/provider"
)

// Workloads on a cache provider itself, created as kache creates it.

type provRec struct {
	op       *ProvOp
	i        int // value id of a set
	s0, s1   int // logical time of begin and end
	t0, t1   time.Duration
	done     bool
	got      int // value id read, 0: nothing
	keys     []string
	ok       bool
	err      error
	n        int
	oversize bool
	foreign  bool
}

const provKeyPrefix = "kache-http://10.0.2.1:8000"

func provKey(k string) string { return provKeyPrefix + k }

func provVal(id, size int) []byte {
	b := []byte(fmt.Sprintf("V=%d;S=%d;", id, size))
	if size < len(b) {
		return b
	}
	return append(b, filler(id, size-len(b))...)
}

func provID(b []byte) (int, bool) {
	if b == nil {
		return 0, true
	}
	var id, size int
	if n, _ := fmt.Sscanf(string(b[:min(len(b), 40)]), "V=%d;S=%d;", &id, &size); n != 2 {
		return 0, false
	}
	return id, bytes.Equal(b, provVal(id, size))
}

func runProv(w *World) {
	p := w.plan
	m := w.addMachine("kache0", "10.0.0.1")
	k := &KNode{m: m, inc: 1, up: true, cfgPath: filepath.Join(w.dir, "prov.yml")}
	m.node = k
	w.nodes = append(w.nodes, k)
	w.incs = append(w.incs, k)
	k.incs = []int{1}
	if p.Config.Backend == "redis" {
		w.redis = newRedis(w)
	}
	var conf struct {
		Provider provider.ProviderBackendConfig `yaml:"provider"`
	}
	if err := yaml.Unmarshal([]byte(p.Config.yaml()), &conf); err != nil {
		panic(err)
	}
	os.RemoveAll(k.cfgPath)
	made := make(chan provider.Provider, 1)
	go func() {
		runtime.SimSetNode(1)
		x, err := provider.CreateCacheProvider("sim", conf.Provider)
		if err != nil {
			w.violate(p.Prop, "provider-not-created", "the provider could not be created: %v", err)
		}
		made <- x
	}()
	prov := <-made
	if prov == nil || reflect.ValueOf(prov).IsNil() {
		return
	}
	w.logf("provider created")
	w.base = w.now()
	for _, f := range p.Faults {
		from, to := time.Duration(f.At)*time.Millisecond, time.Duration(f.At+f.DurMs)*time.Millisecond
		w.windows = append(w.windows, faultWindow{f, w.base + from, w.base + to})
		afterSim(from, func() { w.faultStart(f) })
		afterSim(to, func() { w.faultEnd(f) })
	}
	if p.Prov.Mode == "leak" {
		provLeak(w, prov)
		return
	}
	var recs []*provRec
	seq := 0
	byG := map[int][]*provRec{}
	var gs []int
	for i := range p.Prov.Ops {
		o := &p.Prov.Ops[i]
		r := &provRec{op: o, i: i + 1}
		recs = append(recs, r)
		if byG[o.G] == nil {
			gs = append(gs, o.G)
		}
		byG[o.G] = append(byG[o.G], r)
	}
	sort.Ints(gs)
	left := len(gs)
	ctx := context.Background()
	do := func(r *provRec) {
		o := r.op
		if o.WaitU > 0 {
			time.Sleep(time.Duration(o.WaitU) * time.Microsecond)
		}
		seq++
		r.s0, r.t0 = seq, w.now()
		switch o.Kind {
		case "set":
			prov.Set(provKey(o.Key), provVal(r.i, o.Size), time.Duration(o.TTLMs)*time.Millisecond)
		case "get":
			id, ok := provID(prov.Get(ctx, provKey(o.Key)))
			r.got, r.foreign = id, !ok
		case "delete":
			r.ok = prov.Delete(ctx, provKey(o.Key))
		case "purge":
			pat := o.Key
			if pat != "*" && pat != "" {
				pat = provKey(pat)
			}
			r.err = prov.Purge(ctx, pat)
		case "flush":
			r.err = prov.Flush(ctx)
		case "keys":
			r.keys = append([]string(nil), prov.Keys(ctx, "")...)
		case "size":
			r.n = prov.Size()
		}
		seq++
		r.s1, r.t1 = seq, w.now()
		r.done = true
		w.logf("g%d %s %s size=%d -> %d %v %d", o.G, o.Kind, o.Key, o.Size, r.got, r.ok, len(r.keys)+r.n)
	}
	for _, g := range gs {
		l := byG[g]
		go func() {
			runtime.SimSetNode(1)
			for _, r := range l {
				do(r)
			}
			left--
		}()
	}
	for w.now() < 200*time.Second && left > 0 {
		time.Sleep(20 * time.Millisecond)
	}
	w.cover["prov.ops"] += int64(len(recs))
	if left > 0 {
		for _, r := range recs {
			if r.s0 > 0 && !r.done {
				w.violate(p.Prop, "provider-hang", "%s %s did not return", r.op.Kind, r.op.Key)
				break
			}
		}
		return
	}
	runtime.SimQuiet()
	if w.redis != nil {
		time.Sleep(2 * time.Second)
	}
	// What is left, read one by one.
	names := map[string]bool{}
	for _, r := range recs {
		if r.op.Kind == "set" || r.op.Kind == "get" || r.op.Kind == "delete" {
			names[r.op.Key] = true
		}
	}
	var ks []string
	for n := range names {
		ks = append(ks, n)
	}
	sort.Strings(ks)
	fin := make(chan bool, 1)
	go func() {
		runtime.SimSetNode(1)
		add := func(o *ProvOp) {
			r := &provRec{op: o, i: -1}
			recs = append(recs, r)
			do(r)
		}
		add(&ProvOp{Kind: "keys"})
		add(&ProvOp{Kind: "size"})
		for _, n := range ks {
			add(&ProvOp{Kind: "get", Key: n})
		}
		fin <- true
	}()
	<-fin
	if w.redis == nil {
		j := &provJudge{w: w, recs: recs}
		j.memory(ks)
	} else {
		provRedis(w, recs, ks)
	}
}

type provJudge struct {
	w    *World
	recs []*provRec
}

func (w *World) memTTL() bool { return w.plan.Config.MemTTL != "-1" }

func provPat(o *ProvOp) string {
	if o.Kind == "flush" || o.Key == "*" || o.Key == "" {
		return "*"
	}
	return provKey(o.Key)
}

const provOver = 24 // what an entry counts beside its bytes

func (j *provJudge) memory(ks []string) {
	w := j.w
	c := &w.plan.Config
	maxSize, maxItem := c.MemMax, c.MemItem
	if maxSize == 0 {
		maxSize = 1 << 28
	}
	if maxItem == 0 {
		maxItem = 1 << 27
	}
	var total uint64
	sets := map[int]*provRec{}
	for _, r := range j.recs {
		if r.op.Kind == "set" {
			n := uint64(len(provVal(r.i, r.op.Size)))
			r.oversize = n+provOver > maxItem
			// what counts an entry differently is as good, within reason
			if n <= maxItem && !r.oversize {
				total += n + 64
			}
			sets[r.i] = r
		}
	}
	roomy := total <= maxSize
	prop := w.plan.Prop
	for _, r := range j.recs {
		if r.foreign {
			w.violate(prop, "foreign-value", "get %s returned bytes nobody stored", r.op.Key)
			return
		}
		if r.op.Kind == "get" && r.got > 0 {
			s := sets[r.got]
			if s == nil || s.op.Key != r.op.Key {
				w.violate(prop, "foreign-value", "get %s returned the value of another key", r.op.Key)
				return
			}
			if uint64(len(provVal(s.i, s.op.Size))) > maxItem {
				w.violate("C08", "big-item-cached", "get %s returned a value of %d bytes, the limit is %d", r.op.Key, s.op.Size, maxItem)
			}
		}
		if r.err != nil {
			w.violate(prop, "op-failed", "%s %s failed: %v", r.op.Kind, r.op.Key, r.err)
		}
	}
	for _, name := range ks {
		var l []*provRec
		for _, r := range j.recs {
			switch r.op.Kind {
			case "set", "get", "delete":
				if r.op.Key == name {
					l = append(l, r)
				}
			case "purge", "flush":
				if wildMatch(provPat(r.op), provKey(name)) {
					l = append(l, r)
				}
			case "keys":
				l = append(l, r)
			}
		}
		w.cover["C10.histories"]++
		if len(l) > 60 {
			w.cover["C10.too-long"]++
			continue
		}
		if !j.linear(name, l, roomy) {
			var b strings.Builder
			for _, r := range l {
				fmt.Fprintf(&b, " [%d-%d g%d %s", r.s0, r.s1, r.op.G, r.op.Kind)
				switch r.op.Kind {
				case "set":
					fmt.Fprintf(&b, " %d ttl=%dms", r.i, r.op.TTLMs)
				case "get":
					fmt.Fprintf(&b, " =%d @%.3f", r.got, float64(r.t0)/1e6)
				case "delete":
					fmt.Fprintf(&b, " =%v", r.ok)
				case "keys":
					fmt.Fprintf(&b, " =%v", hasKey(r.keys, provKey(name)))
				}
				b.WriteString("]")
			}
			w.violate("C10", "not-linearizable", "no order of the operations on %s explains their results:%s", name, b.String())
			if w.memTTL() && prop == "C09" {
				w.violate("C09", "ttl-history", "no order of the operations on %s explains their results:%s", name, b.String())
			}
			if prop == "C05" {
				w.violate("C05", "purge-history", "no order of the operations on %s explains their results:%s", name, b.String())
			}
		}
	}
	// Size agrees with the keys once nothing happens any more.
	var keys, size *provRec
	for _, r := range j.recs {
		if r.i == -1 && r.op.Kind == "keys" {
			keys = r
		}
		if r.i == -1 && r.op.Kind == "size" {
			size = r
		}
	}
	if len(keys.keys) != size.n {
		w.violate("C10", "size", "Size is %d with %d keys listed", size.n, len(keys.keys))
	}
	if !roomy {
		w.cover["C08.full"]++
	}
	// What is in it fits.
	for _, kr := range j.recs {
		if kr.op.Kind != "keys" {
			continue
		}
		var sum uint64
		for _, n := range kr.keys {
			least := ^uint64(0)
			for _, s := range sets {
				if provKey(s.op.Key) == n && s.s0 < kr.s1 && !s.oversize {
					least = min(least, uint64(len(provVal(s.i, s.op.Size))))
				}
			}
			if least != ^uint64(0) {
				sum += least
			}
		}
		w.cover["C08.sizes"]++
		if sum > maxSize {
			w.violate("C08", "over-capacity", "%d keys are held whose values alone have %d bytes, the limit is %d", len(kr.keys), sum, maxSize)
		}
	}
	// Nothing is thrown away while there is room.
	if w.plan.Prov.Mode == "lru" {
		j.lru(maxSize, maxItem)
	}
	j.drift(maxSize, maxItem)
}

func hasKey(l []string, k string) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

// linear searches an order of the operations on one key that explains them.
func (j *provJudge) linear(name string, l []*provRec, roomy bool) bool {
	w := j.w
	type memo struct {
		done uint64
		cur  int
	}
	seen := map[memo]bool{}
	sets := map[int]*provRec{}
	for _, r := range l {
		if r.op.Kind == "set" {
			sets[r.i] = r
		}
	}
	key := provKey(name)
	ttlOn := w.memTTL()
	const eps = time.Microsecond
	mayGone := func(cur int, t time.Duration) bool {
		if cur == 0 || !roomy {
			return true
		}
		s := sets[cur]
		return ttlOn && t+eps >= s.t0+time.Duration(s.op.TTLMs)*time.Millisecond
	}
	mayLive := func(cur int, t time.Duration) bool {
		s := sets[cur]
		return s != nil && (!ttlOn || t <= s.t1+time.Duration(s.op.TTLMs)*time.Millisecond+eps)
	}
	replaced := func(r *provRec) bool {
		for _, s := range l {
			if s.op.Kind == "set" && s.s0 < r.s1 && s.s1 > r.s0 {
				return true
			}
		}
		return false
	}
	full := uint64(1)<<len(l) - 1
	var rec func(done uint64, cur int) bool
	rec = func(done uint64, cur int) bool {
		if done == full {
			return true
		}
		k := memo{done, cur}
		if seen[k] {
			return false
		}
		seen[k] = true
		first := int(^uint(0) >> 1)
		for i, r := range l {
			if done&(1<<i) == 0 {
				first = min(first, r.s1)
			}
		}
		for i, r := range l {
			if done&(1<<i) != 0 || r.s0 > first {
				continue
			}
			d := done | 1<<i
			switch r.op.Kind {
			case "set":
				if r.oversize {
					if rec(d, cur) || rec(d, 0) {
						return true
					}
					continue
				}
				if rec(d, r.i) {
					return true
				}
			case "get":
				if r.got == 0 {
					if mayGone(cur, r.t1) && (rec(d, cur) || rec(d, 0)) {
						return true
					}
				} else if r.got == cur && mayLive(cur, r.t0) {
					if rec(d, cur) {
						return true
					}
				}
			case "delete":
				if r.ok && cur == 0 || !r.ok && !mayGone(cur, r.t1) {
					continue
				}
				if rec(d, 0) {
					return true
				}
			case "purge", "flush":
				if rec(d, 0) {
					return true
				}
			case "keys":
				if hasKey(r.keys, key) {
					if cur != 0 && rec(d, cur) {
						return true
					}
				} else if (mayGone(cur, r.t1) || replaced(r)) && rec(d, cur) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, 0)
}

// lru replays a sequential history on a reference: the least recently used
// entries go first, and only as many as it takes.
func (j *provJudge) lru(maxSize, maxItem uint64) {
	w := j.w
	type ent struct {
		key string
		rec *provRec
		n   uint64
	}
	var q []*ent // oldest first
	find := func(k string) int {
		for i, e := range q {
			if e.key == k {
				return i
			}
		}
		return -1
	}
	rm := func(i int) { q = append(q[:i:i], q[i+1:]...) }
	sum := func() uint64 {
		var s uint64
		for _, e := range q {
			s += e.n
		}
		return s
	}
	for _, r := range j.recs {
		o := r.op
		switch o.Kind {
		case "set":
			n := uint64(len(provVal(r.i, o.Size))) + provOver
			i := find(o.Key)
			if r.oversize {
				if i >= 0 {
					return // unspecified from here on
				}
				continue
			}
			if i >= 0 {
				rm(i)
			}
			for sum()+n > maxSize && len(q) > 0 {
				rm(0)
			}
			q = append(q, &ent{o.Key, r, n})
		case "get":
			i := find(o.Key)
			if i >= 0 && w.memTTL() {
				// The goroutine may have been stalled inside an operation.
				ttl, s := time.Duration(q[i].rec.op.TTLMs)*time.Millisecond, q[i].rec
				if r.t0 > s.t1+ttl || r.t1 > s.t0+ttl && r.got == 0 {
					rm(i)
					i = -1
				}
			}
			want := 0
			if i >= 0 {
				want = q[i].rec.i
				e := q[i]
				rm(i)
				q = append(q, e)
			}
			w.cover["C08.lru-reads"]++
			if want != r.got {
				w.violate("C08", "lru-order", "get %s returned %s, with least-recently-used eviction at %d bytes it is %s", o.Key, setName(r.got), maxSize, setName(want))
				return
			}
		case "delete":
			if i := find(o.Key); i >= 0 {
				rm(i)
			}
		case "purge", "flush":
			for i := 0; i < len(q); {
				if wildMatch(provPat(o), provKey(q[i].key)) {
					rm(i)
				} else {
					i++
				}
			}
		case "keys":
			if len(r.keys) != len(q) {
				w.violate("C08", "lru-count", "%d keys are held, with least-recently-used eviction at %d bytes it is %d", len(r.keys), maxSize, len(q))
				return
			}
		}
	}
}

func setName(i int) string {
	if i == 0 {
		return "nothing"
	}
	return fmt.Sprintf("value %d", i)
}

// drift fills the cache after everything else: what it accounts for must
// still be what it holds, so that it can hold as much as is configured.
func (j *provJudge) drift(maxSize, maxItem uint64) {
	w := j.w
	if w.plan.Prov.Mode != "drift" {
		return
	}
	// done by runProv: the last operations are sets of n equal items and reads
	var last []*provRec
	for _, r := range j.recs {
		if strings.HasPrefix(r.op.Key, "/drift") && r.op.Kind == "set" {
			last = append(last, r)
		}
	}
	got := map[string]bool{}
	for _, r := range j.recs {
		if r.op.Kind == "get" && strings.HasPrefix(r.op.Key, "/drift") && r.i == -1 {
			got[r.op.Key] = r.got != 0
		}
	}
	miss := 0
	for _, r := range last {
		if !got[r.op.Key] {
			miss++
		}
	}
	w.cover["C08.drift-checked"]++
	if miss > 0 {
		w.violate("C08", "capacity-lost", "%d of %d items that fit into %d bytes together were thrown away", miss, len(last), maxSize)
	}
}

// provLeak stores many more entries than fit: memory must stay bounded.
func provLeak(w *World, prov provider.Provider) {
	p := w.plan
	n := 120000
	heap := func() uint64 {
		debug.SetGCPercent(100)
		runtime.GC()
		runtime.GC()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		return ms.HeapAlloc
	}
	fin := make(chan bool, 1)
	val := bytes.Repeat([]byte{'x'}, 100)
	runtime.SimQuiet()
	var h0, h1 uint64
	go func() {
		runtime.SimSetNode(1)
		for i := 0; i < 2000; i++ {
			prov.Set(fmt.Sprintf("%s/warm/%d", provKeyPrefix, i), val, time.Second)
		}
		h0 = heap()
		for i := 0; i < n; i++ {
			prov.Set(fmt.Sprintf("%s/some/longer/path/of/an/item/%d", provKeyPrefix, i), val, time.Second)
			if i%7 == 0 {
				prov.Get(context.Background(), fmt.Sprintf("%s/some/longer/path/of/an/item/%d", provKeyPrefix, i/2))
			}
		}
		h1 = heap()
		fin <- true
	}()
	<-fin
	grown := int64(h1) - int64(h0)
	w.cover["C08.leak-checked"]++
	w.logf("heap before and after compared")
	limit := int64(p.Config.MemMax)*4 + 3<<20
	if grown > limit {
		w.violate("C08", "memory-leak", "storing %d short lived entries in a cache of %d bytes took more than %d KiB of memory that stay in use", n, p.Config.MemMax, limit>>10)
	}
}

// provRedis checks the weaker guarantees of the redis backed providers.
func provRedis(w *World, recs []*provRec, ks []string) {
	sets := map[int]*provRec{}
	faulty := len(w.plan.Faults) > 0
	for _, r := range recs {
		if r.op.Kind == "set" {
			sets[r.i] = r
		}
	}
	prop := w.plan.Prop
	for _, r := range recs {
		if r.op.Kind == "get" {
			w.cover["C10.redis-reads"]++
			if r.foreign && !w.during(0, r.t1, func(f Fault) bool { return f.Mode == "corrupt" }) {
				w.violate(prop, "foreign-value", "get %s returned bytes nobody stored", r.op.Key)
				return
			}
			if r.got == 0 {
				continue
			}
			s := sets[r.got]
			if s == nil || s.op.Key != r.op.Key {
				w.violate(prop, "foreign-value", "get %s returned the value of another key", r.op.Key)
				return
			}
			if s.s0 > r.s1 {
				w.violate(prop, "future-value", "get %s returned a value stored later", r.op.Key)
			}
			// Expired?
			arr := s.t1
			for _, x := range w.redis.sets {
				if id, ok := provID(x.Val); ok && id == r.got && !x.Failed {
					arr = max(arr, x.At)
				}
			}
			limit := time.Duration(s.op.TTLMs) * time.Millisecond
			limit += w.copySlack()
			if r.t0 > arr+limit+20*time.Millisecond {
				w.violate("C09", "expired-served", "get %s returned value %d %v after it was stored, its ttl is %v", r.op.Key, r.got, r.t0-arr, limit)
			}
			// Deleted or purged before, and stored before that?
			if !faulty {
				for _, d := range recs {
					if d.s1 >= r.s0 || d.s0 <= s.s1 {
						continue
					}
					if d.op.Kind == "delete" && d.op.Key == r.op.Key || (d.op.Kind == "purge" || d.op.Kind == "flush") && wildMatch(provPat(d.op), provKey(r.op.Key)) {
						w.violate(prop, "deleted-returned", "get %s (%d-%d) returned value %d (set %d-%d) after %s (%d-%d) was acknowledged", r.op.Key, r.s0, r.s1, r.got, s.s0, s.s1, d.op.Kind, d.s0, d.s1)
					}
				}
			}
		}
		if r.err != nil && !faulty {
			w.violate(prop, "op-failed", "%s %s failed: %v", r.op.Kind, r.op.Key, r.err)
		}
	}
	if faulty {
		return
	}
	c := &w.plan.Config
	if c.QueueBuf > 0 && c.QueueBuf < len(recs) {
		return
	}
	// In the end, the last value stored is there.
	for _, name := range ks {
		var last *provRec
		sure := true
		for _, r := range recs {
			mut := r.op.Kind == "set" && r.op.Key == name || r.op.Kind == "delete" && r.op.Key == name || (r.op.Kind == "purge" || r.op.Kind == "flush") && wildMatch(provPat(r.op), provKey(name))
			if mut && (last == nil || r.s1 > last.s1) {
				last = r
			}
		}
		if last == nil || last.op.Kind != "set" {
			continue
		}
		for _, r := range recs {
			mut := r.op.Kind == "set" && r.op.Key == name || r.op.Kind == "delete" && r.op.Key == name || (r.op.Kind == "purge" || r.op.Kind == "flush") && wildMatch(provPat(r.op), provKey(name))
			if mut && r != last && r.s1 > last.s0 {
				sure = false
			}
		}
		var fin *provRec
		for _, r := range recs {
			if r.i == -1 && r.op.Kind == "get" && r.op.Key == name {
				fin = r
			}
		}
		if !sure || fin == nil {
			continue
		}
		if c.RedisItem > 0 && len(provVal(last.i, last.op.Size)) > c.RedisItem {
			continue
		}
		life := time.Duration(last.op.TTLMs) * time.Millisecond
		if fin.t1 > last.t0+life-50*time.Millisecond {
			continue
		}
		w.cover["C10.settled"]++
		if fin.got != last.i {
			w.violate("C10", "last-value-lost", "long after the last change of %s, which stored value %d, a get returns %s", name, last.i, setName(fin.got))
		}
	}
}

var _ = json.Marshal
