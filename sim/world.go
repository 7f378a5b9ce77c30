//go:build go1.22

package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"net"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/prometheus/client_golang/prometheus"
)

// simEpoch is the simulated wall clock at the start of every run.
const simEpoch = 1_700_000_000_000_000_000

// A Machine is a simulated host.
type Machine struct {
	name string
	ip   string
	off  bool // powered off or silently unreachable
	node *KNode
}

// A KNode is a kache machine: it may be started, crash and be restarted.
type KNode struct {
	reads   int // of its file, since it was opened
	m       *Machine
	idx     int
	inc     int // current incarnation (runtime node), 0 if down
	cfgPath string
	start   time.Duration
	up      bool // process exists
	exited  bool // process ended by itself
	exit    int
	exitAt  time.Duration
	sigs    []sigReg
	crashes []string
	incs    []int
	term    time.Duration // SIGTERM sent (0: not)
	starts  int
	down    []span // when it was not (fully) up
	exits   []exitRec
	baseG   int
	boots   []*bootRec
}

// bootRec is a start of the process of a node.
type bootRec struct {
	inc    int
	at, up time.Duration
	open   map[int]bool // ports it listened on when up
	ended  time.Duration
	code   int
	why    string // "": killed from outside
}

type span struct{ from, to time.Duration }

type exitRec struct {
	at, term time.Duration
	code     int
	why      string
	inc      int
}

const never = time.Duration(1 << 62)

func (k *KNode) goesDown(t time.Duration) {
	if n := len(k.down); n > 0 && k.down[n-1].to == never {
		return
	}
	k.down = append(k.down, span{t, never})
}

func (k *KNode) comesUp(t time.Duration) {
	if n := len(k.down); n > 0 && k.down[n-1].to == never {
		k.down[n-1].to = t
	}
}

func (k *KNode) downDuring(a, b time.Duration) bool {
	for _, s := range k.down {
		if s.from <= b && a <= s.to {
			return true
		}
	}
	return false
}

type sigReg struct {
	c   chan<- os.Signal
	set map[os.Signal]bool
	all bool
	inc int
}

type World struct {
	plan       *Plan
	rng        *rand.Rand
	net        *Net
	machines   map[string]*Machine
	byIP       map[string]*Machine
	infra      *Machine
	nodes      []*KNode
	incs       []*KNode // by runtime node id
	origins    []*Origin
	redis      *Redis
	kube       *Kube
	ops        []*OpRec
	exchs      []*Exchange
	log        []string
	keepLog    bool
	hash       [32]byte
	t0         time.Time
	armed      []*Op         // waiting for a node to look at its file
	base       time.Duration // operations and faults are timed from here
	faults     map[string]int64
	cover      map[string]int64
	viol       []Violation
	violSet    map[string]bool
	dir        string
	curCfg     []*cfgState
	windows    []faultWindow
	shortReads bool
	startQ     chan struct{}
	healed     bool
	healAt     time.Duration
	reqSeq     int
	peers      []peerReq
	keepConn   map[[2]int]*clientConn
}

type faultWindow struct {
	f        Fault
	from, to time.Duration
}

func (w *World) now() time.Duration { return time.Since(w.t0) }

// wallAt is the true wall clock time at d.
func (w *World) wallAt(d time.Duration) time.Time { return w.t0.Add(d) }

func (w *World) logf(f string, a ...any) {
	s := fmt.Sprintf("%9.3fms ", float64(w.now())/1e6) + fmt.Sprintf(f, a...)
	h := sha256.New()
	h.Write(w.hash[:])
	h.Write([]byte(s))
	h.Sum(w.hash[:0])
	if w.keepLog {
		w.log = append(w.log, s)
	}
}

func (w *World) violate(prop, kind, f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	if w.plan.Prop == "C17" && prop == "C13" && (kind == "old-config-used" || kind == "wrong-config") {
		prop = "C17" // only a request that was denied can have brought it
	}
	k := prop + "|" + kind
	if w.violSet[k] && len(w.viol) > 40 {
		return
	}
	w.violSet[k] = true
	w.viol = append(w.viol, Violation{prop, kind, msg})
	w.logf("VIOLATION %s %s %s", prop, kind, msg)
}

func (w *World) machineOf(inc int) *Machine {
	if inc <= 0 || inc >= len(w.incs) || w.incs[inc] == nil {
		return nil
	}
	return w.incs[inc].m
}

func (w *World) addMachine(name, ip string) *Machine {
	m := &Machine{name: name, ip: ip}
	w.machines[name] = m
	w.byIP[ip] = m
	return m
}

func (w *World) lookup(from *Machine, host string) *Machine {
	switch host {
	case "localhost", "127.0.0.1", "", "::1":
		return from
	}
	if m := w.byIP[host]; m != nil {
		return m
	}
	return w.machines[host]
}

func h64(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

func runPlan(p *Plan, keepLog bool) *Result {
	debug.SetGCPercent(-1)
	w := &World{plan: p, machines: map[string]*Machine{}, byIP: map[string]*Machine{}, faults: map[string]int64{},
		cover: map[string]int64{}, violSet: map[string]bool{}, keepLog: keepLog, incs: []*KNode{nil}, keepConn: map[[2]int]*clientConn{}}
	w.rng = rand.New(rand.NewPCG(p.Seed, 1))
	w.infra = w.addMachine("infra", "10.0.8.1")
	// The scratch directory holds the configuration files of the machines.
	w.dir = os.Getenv("SIM_DIR")
	if p.LatUs == 0 {
		p.LatUs = 150
	}
	if p.JitUs == 0 {
		p.JitUs = 400
	}
	runtime.SimSetTime(simEpoch)
	runtime.SimStart(runtime.SimConfig{Seed: p.Sched.Seed, Policy: p.Sched.Policy, MixN: p.Sched.MixN, YieldN: p.Sched.YieldN,
		StallN: p.Sched.StallN, StallMax: max(1, p.Sched.StallMaxUs) * 1000, StepLimit: 30_000_000})
	w.t0 = time.Now()
	w.net = newNet(w)
	net.SimDial = w.net.dialHook
	net.SimListen = w.net.listenHook
	signal.SimNotify = w.sigNotify
	signal.SimStop = w.sigStop
	os.SimExit = w.exitHook
	os.SimOpen = func(name string) error { return w.fileHook(name, "open") }
	os.SimRead = func(name string) error { return w.fileHook(name, "read") }
	runtime.SimPanicHook = w.panicHook
	runtime.SimSpinHook = w.spinHook
	w.startQ = make(chan struct{}, 1)
	if p.Prov != nil {
		runProv(w)
	} else {
		w.setup()
		w.run()
		judge(w)
	}
	st := runtime.SimReadStats()
	r := &Result{Violations: w.viol, Hash: hex.EncodeToString(w.hash[:12]), SchedHash: fmt.Sprintf("%016x", st.Hash),
		Faults: w.faults, Cover: w.cover, SimMs: w.now().Milliseconds(), Log: w.log}
	r.Stats = map[string]int64{"picks": int64(st.Picks), "choices": int64(st.Choices), "statements": int64(st.Steps),
		"stalls": int64(st.Stalls), "yields": int64(st.Yields), "requests": int64(len(w.ops)), "exchanges": int64(len(w.exchs))}
	if st.Stalls > 0 {
		r.Faults["thread-stall"] += int64(st.Stalls)
	}
	if len(w.nodes) > 1 || len(w.incs) > 2 {
		// several processes share what is global
		r.Stats["processes"] = int64(len(w.incs) - 1)
	}
	if p.Prop == "C21" && st.Choices > 0 {
		w.cover["C21.concurrent"]++
	}
	for k, v := range w.cover {
		if v > 0 && strings.HasPrefix(k, p.Prop+".") {
			r.Nontrivial = true
		}
	}
	for k, v := range w.net.stats {
		r.Stats["net."+k] += v
	}
	return r
}

func (w *World) setup() {
	p := w.plan
	for i := 0; i < p.Nodes; i++ {
		m := w.addMachine(fmt.Sprintf("kache%d", i), fmt.Sprintf("10.0.0.%d", i+1))
		k := &KNode{m: m, idx: i, cfgPath: filepath.Join(w.dir, fmt.Sprintf("kache%d.yml", i))}
		m.node = k
		w.nodes = append(w.nodes, k)
	}
	for i := 0; i < p.Origins; i++ {
		w.origins = append(w.origins, newOrigin(w, i))
	}
	if p.Config.Backend == "redis" {
		w.redis = newRedis(w)
	}
	if p.Config.Cluster {
		w.kube = newKube(w)
	}
	for i := 0; i < 6; i++ {
		w.addMachine(fmt.Sprintf("client%d", i), fmt.Sprintf("10.0.9.%d", i+1))
	}
	w.addMachine("admin", "10.0.7.1")
	w.addMachine("intruder", "10.0.6.66")
	w.addMachine("admin6", "fd00::7:1")
	w.addMachine("intruder6", "fd01::66")
	os.MkdirAll(filepath.Join(w.dir, ".kube"), 0o755)
	os.Setenv("HOME", w.dir)
	if w.kube != nil {
		os.WriteFile(filepath.Join(w.dir, ".kube", "config"), []byte(kubeconfig), 0o644)
	}
	for _, k := range w.nodes {
		w.curCfg = append(w.curCfg, &cfgState{})
		w.writeConfig(k, &p.Config, "write", 0)
	}
	w.shortReads = p.flag("short-reads")
}

// startNode boots kache's own main() on machine k.
func (w *World) startNode(k *KNode) {
	if k.up || k.m.off {
		return
	}
	w.startQ <- struct{}{}
	if k.up {
		<-w.startQ
		return
	}
	inc := len(w.incs)
	w.incs = append(w.incs, k)
	k.inc, k.up, k.exited = inc, true, false
	k.incs = append(k.incs, inc)
	k.start = w.now()
	boot := &bootRec{inc: inc, at: w.now()}
	k.boots = append(k.boots, boot)
	k.goesDown(w.now())
	k.sigs = nil
	k.term = 0
	k.starts++
	if k.idx < len(w.plan.SkewMs) {
		runtime.SimSetSkew(inc, w.plan.SkewMs[k.idx]*1e6)
	}
	w.logf("start %s inc=%d", k.m.name, inc)
	reg := prometheus.NewRegistry()
	prometheus.DefaultRegisterer, prometheus.DefaultGatherer = reg, reg
	os.Args = []string{"kache", "-config.file", k.cfgPath}
	if w.plan.Watch {
		os.Args = append(os.Args, "-config.auto-reload", "-config.watch-interval", fmt.Sprintf("%dms", w.plan.WatchMs))
	}
	go func() {
		runtime.SimSetNode(inc)
		kacheMain()
		w.processEnd(k, inc, 0, "returned from main")
	}()
	// The next process may start when this one listens (process wide globals
	// are read while it starts) or has ended.
	for i := 0; i < 2000; i++ {
		time.Sleep(10 * time.Millisecond)
		if !k.up || k.inc != inc {
			break
		}
		if w.net.listeners[k.m.ip+":80"] != nil && w.net.listeners[k.m.ip+":6067"] != nil {
			time.Sleep(150 * time.Millisecond)
			if k.up && k.inc == inc {
				k.comesUp(w.now())
				boot.up, boot.open = w.now(), map[int]bool{}
				for _, port := range []int{80, 3128, 6067} {
					boot.open[port] = w.net.listeners[fmt.Sprintf("%s:%d", k.m.ip, port)] != nil
				}
			}
			break
		}
	}
	<-w.startQ
	if !k.up && k.exited && k.inc == inc && k.exit != 0 && k.term == 0 && k.starts < 60 {
		// Its supervisor starts it again.
		w.faults["supervised-restart"]++
		afterSim(2*time.Second, func() { w.startNode(k) })
	}
}

// processEnd is the end of a process as its peers see it: the kernel closes
// what it had open, nothing in memory survives.
func (w *World) processEnd(k *KNode, inc, code int, why string) {
	if k.inc == inc && k.up {
		k.up = false
		k.exited = true
		k.exit = code
		k.exitAt = w.now()
		k.goesDown(w.now())
		if n := len(k.boots); n > 0 && k.boots[n-1].inc == inc {
			b := k.boots[n-1]
			b.ended, b.code, b.why = max(1, w.now()), code, why
		}
		k.exits = append(k.exits, exitRec{w.now(), k.term, code, why, inc})
		w.logf("exit %s inc=%d code=%d (%s)", k.m.name, inc, code, why)
		w.killInc(k, inc, true)
	}
	runtime.SimKill(inc)
	if runtime.SimNode() == inc {
		runtime.SimFreeze()
	}
}

func (w *World) killInc(k *KNode, inc int, tell bool) {
	runtime.SimKill(inc)
	var ls []*simListener
	for _, l := range w.net.listeners {
		if l.inc == inc {
			ls = append(ls, l)
		}
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].addr.Port < ls[j].addr.Port })
	for _, l := range ls {
		l.closed = true
		delete(w.net.listeners, l.addr.String())
		for _, c := range l.queue {
			c.abort(syscall.ECONNRESET, tell)
		}
	}
	for _, c := range w.net.order {
		if w.net.conns[c] && c.m == k.m {
			if tell && !c.fin && c.rerr == nil && len(c.buf) == 0 {
				c.Close() // FIN, as the kernel does for a clean socket
				continue
			}
			c.abort(syscall.ECONNRESET, tell)
		}
	}
}

// crash ends the process of k abruptly.
func (w *World) crash(k *KNode, tell bool) {
	if !k.up {
		return
	}
	w.logf("crash %s inc=%d tell=%v", k.m.name, k.inc, tell)
	if n := len(k.boots); n > 0 {
		k.boots[n-1].ended = max(1, w.now())
	}
	k.up = false
	k.goesDown(w.now())
	w.killInc(k, k.inc, tell)
}

func (w *World) exitHook(code int) {
	inc := runtime.SimNode()
	if inc == 0 {
		return
	}
	k := w.incs[inc]
	w.processEnd(k, inc, code, "os.Exit")
	runtime.SimFreeze()
}

func (w *World) panicHook(arg any) {
	inc := runtime.SimNode()
	k := w.incs[inc]
	if k == nil {
		panic(arg)
	}
	buf := make([]byte, 16<<10)
	buf = buf[:runtime.Stack(buf, false)]
	msg := fmt.Sprintf("panic: %v", arg)
	site := panicSite(string(buf))
	k.crashes = append(k.crashes, msg+" at "+site)
	w.logf("process crash of %s: %s at %s", k.m.name, msg, site)
	if k.term == 0 || !strings.Contains(msg, "Shutdown timeout") {
		w.violate("C07", "process-crash:"+site, "the kache process on %s died of %s at %s", k.m.name, msg, site)
		if p := w.plan.Prop; p != "C07" {
			w.violate(p, "process-crash:"+site, "the kache process on %s died of %s at %s", k.m.name, msg, site)
		}
	}
	w.processEnd(k, inc, 2, "panic")
	runtime.SimFreeze()
}

// panicSite is the innermost frame of the program under test.
func panicSite(stack string) string {
	lines := strings.Split(stack, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "github.com/kacheio/kache/") && i+1 < len(lines) {
			f := l
			if j := strings.LastIndexByte(f, '('); j > 0 {
				f = f[:j]
			}
			return strings.TrimPrefix(f, "github.com/kacheio/kache/")
		}
	}
	return "?"
}

func (w *World) spinHook() {
	inc := runtime.SimNode()
	k := w.incs[inc]
	buf := make([]byte, 16<<10)
	buf = buf[:runtime.Stack(buf, false)]
	if k == nil {
		w.violate("C07", "livelock", "no progress: %s", panicSite(string(buf)))
	} else {
		w.violate("C07", "livelock:"+panicSite(string(buf)), "machine %s spins without time passing at %s", k.m.name, panicSite(string(buf)))
		w.processEnd(k, inc, 3, "spinning")
	}
	runtime.SimFreeze()
}

func (w *World) sigNotify(c chan<- os.Signal, sigs ...os.Signal) {
	k := w.incs[runtime.SimNode()]
	if k == nil {
		return
	}
	r := sigReg{c: c, set: map[os.Signal]bool{}, inc: runtime.SimNode()}
	for _, s := range sigs {
		r.set[s] = true
	}
	r.all = len(sigs) == 0
	k.sigs = append(k.sigs, r)
}

func (w *World) sigStop(c chan<- os.Signal) {
	for _, k := range w.nodes {
		for i := range k.sigs {
			if k.sigs[i].c == c {
				k.sigs = append(k.sigs[:i:i], k.sigs[i+1:]...)
				break
			}
		}
	}
}

func (w *World) signal(k *KNode, s os.Signal) {
	if !k.up {
		return
	}
	w.logf("signal %s %v", k.m.name, s)
	n := 0
	for _, r := range k.sigs {
		if r.inc == k.inc && (r.all || r.set[s]) {
			n++
			select {
			case r.c <- s:
			default:
			}
		}
	}
	if s == syscall.SIGTERM || s == syscall.SIGINT {
		if k.term == 0 {
			k.term = w.now()
		}
		k.goesDown(w.now())
	}
	if n == 0 {
		w.crash(k, true)
	}
}

// run drives the plan.
func (w *World) run() {
	p := w.plan
	for _, k := range w.nodes {
		w.startNode(k)
	}
	time.Sleep(200 * time.Millisecond)
	w.logf("all started")
	if p.flag("leak") {
		for _, k := range w.nodes {
			k.baseG = gCount(k)
		}
	}
	base := w.now()
	w.base = base
	type ev struct {
		at  time.Duration
		seq int
		f   func()
	}
	var evs []ev
	add := func(at int64, f func()) {
		evs = append(evs, ev{time.Duration(at) * time.Millisecond, len(evs), f})
	}
	for i := range p.Faults {
		f := p.Faults[i]
		fw := faultWindow{f, base + time.Duration(f.At)*time.Millisecond, base + time.Duration(f.At+f.DurMs)*time.Millisecond}
		w.windows = append(w.windows, fw)
		add(f.At, func() { w.faultStart(f) })
		add(f.At+f.DurMs, func() { w.faultEnd(f) })
	}
	for i := range p.Ops {
		op := &p.Ops[i]
		add(op.At, func() {
			if op.OnRead > 0 {
				w.armed = append(w.armed, op)
				return
			}
			goSim(func() { w.doOp(op) })
		})
	}
	add(p.EndMs, func() {
		// Faults have stopped.
		runtime.SimQuiet()
		w.healed = true
		w.healAt = w.now()
		w.logf("healed")
	})
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	for _, e := range evs {
		d := base + e.at - w.now()
		if d > 0 {
			time.Sleep(d)
		}
		e.f()
	}
	w.settle()
}

// fileHook is told of every access to a file.
func (w *World) fileHook(name, how string) error {
	inc := runtime.SimNode()
	m := w.machineOf(inc)
	if m == nil || m.node == nil || name != m.node.cfgPath {
		return nil
	}
	if how == "open" {
		m.node.reads = 0
	} else if m.node.reads++; m.node.reads == 2 { // it has the contents
		var rest, now []*Op
		for _, op := range w.armed {
			switch {
			case op.Node != m.node.idx:
				rest = append(rest, op)
			case op.OnRead == 1 && op.Kind != "req" && op.Kind != "api":
				now = append(now, op)
			case op.OnRead == 1:
				goSim(func() { w.doOp(op) })
			default:
				afterSim(time.Duration(op.OnRead)*time.Microsecond, func() { w.doOp(op) })
			}
		}
		w.armed = rest
		if len(now) > 0 {
			goSim(func() {
				for _, op := range now {
					w.doOp(op)
				}
			})
		}
	}
	for _, x := range w.windows {
		if x.f.Kind == "file" && x.f.A == m.name && x.f.Mode == how && w.now() >= x.from && w.now() < x.to {
			w.faults["file-"+how]++
			if how == "read" {
				return syscall.EIO
			}
			return syscall.EMFILE
		}
	}
	return nil
}

// settle waits until every client request has ended, at most a bounded time.
func (w *World) settle() {
	deadline := w.now() + 50*time.Second
	for w.now() < deadline {
		open := 0
		for _, o := range w.ops {
			if !o.Done {
				open++
			}
		}
		if open == 0 {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	if w.plan.Probe {
		// what is slow to be noticed as over (retries, backoff) is over by then
		wait := 2 * time.Second
		if len(w.windows) > 0 {
			wait = 16 * time.Second
		}
		if d := w.healAt + wait - w.now(); d > 0 {
			time.Sleep(d)
		}
		w.probe()
		deadline = w.now()
		for w.now() < deadline+80*time.Second {
			open := 0
			for _, o := range w.ops {
				if !o.Done {
					open++
				}
			}
			if open == 0 {
				break
			}
			time.Sleep(100 * time.Millisecond)
		}
	}
	if w.plan.flag("leak") {
		time.Sleep(130 * time.Second)
	}
}

// probe sends requests that have to succeed now that all faults are over.
func (w *World) probe() {
	for round := 0; round < 2; round++ { // the second one finds it cached
		for i := range w.nodes {
			for j, r := range w.plan.Resources {
				if r.Extra["probe"] == "" {
					continue
				}
				op := &Op{Kind: "req", Method: "GET", Target: fmt.Sprintf("%s?probe=%d", r.Path, i*100+j), Node: i, Client: 5, Tag: "probe"}
				goSim(func() { w.request(op, true) })
				time.Sleep(20 * time.Millisecond)
			}
			if round == 0 {
				op := &Op{Kind: "api", Method: "GET", Target: w.plan.Config.prefix() + "/cache/config", Node: i, Tag: "probe-api"}
				goSim(func() { w.request(op, true) })
			}
		}
		time.Sleep(700 * time.Millisecond)
	}
}

func machineList(w *World, name string) []*Machine {
	if name == "*kache" {
		var l []*Machine
		for _, k := range w.nodes {
			l = append(l, k.m)
		}
		return l
	}
	if name == "*clients" {
		var l []*Machine
		for i := 0; i < 6; i++ {
			l = append(l, w.machines[fmt.Sprintf("client%d", i)])
		}
		return l
	}
	if name == "*origins" {
		var l []*Machine
		for _, o := range w.origins {
			l = append(l, o.m)
		}
		return l
	}
	if m := w.machines[name]; m != nil {
		return []*Machine{m}
	}
	return nil
}

func (w *World) faultStart(f Fault) {
	w.faults[f.Kind]++
	w.logf("fault %s %s %s %s for %dms", f.Kind, f.A, f.B, f.Mode, f.DurMs)
	switch f.Kind {
	case "partition", "refuse", "cut":
		mode := "hold"
		if f.Kind != "partition" {
			mode = f.Kind
		}
		for _, a := range machineList(w, f.A) {
			for _, b := range machineList(w, f.B) {
				if a != b {
					w.net.block(a.name, b.name, mode)
				}
			}
		}
	case "reset":
		for _, a := range machineList(w, f.A) {
			for _, b := range machineList(w, f.B) {
				w.net.each(a.name, b.name, func(c *simConn) {
					c.abort(syscall.ECONNRESET, false)
					c.peer.abort(syscall.ECONNRESET, false)
				})
			}
		}
	case "slow-link":
		for _, a := range machineList(w, f.A) {
			for _, b := range machineList(w, f.B) {
				w.net.slow[pair(a.name, b.name)] = f.Arg
			}
		}
	case "pause":
		for _, m := range machineList(w, f.A) {
			if m.node != nil && m.node.up {
				runtime.SimPause(m.node.inc)
			}
		}
	case "crash":
		for _, m := range machineList(w, f.A) {
			if m.node != nil {
				w.crash(m.node, f.Mode != "power")
			}
		}
	case "clock":
		for _, m := range machineList(w, f.A) {
			if m.node != nil && m.node.up {
				runtime.SimSetSkew(m.node.inc, (w.skewOf(m.node)+f.Arg)*1e6)
			}
		}
	case "redis":
		if w.redis != nil {
			w.redis.fault(f, true)
		}
	case "origin":
		for _, o := range w.origins {
			if o.m.name == f.A || f.A == "" || f.A == "*origins" {
				o.active = append(o.active, f)
			}
		}
	case "busy":
		w.net.busy[f.A] = int(f.Arg)
	case "kube":
		if w.kube != nil {
			w.kube.mode = f.Mode
		}
	}
}

func (w *World) faultEnd(f Fault) {
	w.logf("fault end %s %s %s %s", f.Kind, f.A, f.B, f.Mode)
	switch f.Kind {
	case "partition", "refuse", "cut":
		for _, a := range machineList(w, f.A) {
			for _, b := range machineList(w, f.B) {
				if a != b {
					w.net.unblock(a.name, b.name)
				}
			}
		}
	case "slow-link":
		for _, a := range machineList(w, f.A) {
			for _, b := range machineList(w, f.B) {
				delete(w.net.slow, pair(a.name, b.name))
			}
		}
	case "pause":
		for _, m := range machineList(w, f.A) {
			if m.node != nil {
				runtime.SimResume(m.node.inc)
			}
		}
	case "crash":
		for _, m := range machineList(w, f.A) {
			if m.node != nil && !m.node.up && f.Mode != "stay" {
				k := m.node
				goSim(func() { w.startNode(k) })
			}
		}
	case "clock":
		for _, m := range machineList(w, f.A) {
			if m.node != nil && m.node.up {
				runtime.SimSetSkew(m.node.inc, w.skewOf(m.node)*1e6)
			}
		}
	case "redis":
		if w.redis != nil {
			w.redis.fault(f, false)
		}
	case "origin":
		for _, o := range w.origins {
			for i := range o.active {
				if o.active[i] == f {
					o.active = append(o.active[:i:i], o.active[i+1:]...)
					break
				}
			}
		}
	case "busy":
		delete(w.net.busy, f.A)
	case "kube":
		if w.kube != nil {
			w.kube.mode = ""
		}
	}
}

func (w *World) skewOf(k *KNode) int64 {
	if k.idx < len(w.plan.SkewMs) {
		return w.plan.SkewMs[k.idx]
	}
	return 0
}

func gCount(k *KNode) int { return runtime.SimCountG(k.inc) }

// during tells whether a fault for which f holds overlaps [a, b].
func (w *World) during(a, b time.Duration, f func(Fault) bool) bool {
	for _, x := range w.windows {
		if x.from <= b && a <= x.to && f(x.f) {
			return true
		}
	}
	return false
}

func emit(r *Result) {
	b, _ := json.Marshal(r)
	b = append(b, '\n')
	for len(b) > 0 {
		n, err := syscall.Write(1, b)
		if err != nil {
			return
		}
		b = b[n:]
	}
}
