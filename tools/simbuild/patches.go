package main

// Textual patches applied to copies of Go standard library files. Every
// `find` must occur exactly `n` times (default once), otherwise the build is
// refused: a silently missing seam would make the simulation meaningless.

type edit struct {
	find, repl string
	n          int // expected number of occurrences, 0 means 1
}

type patch struct {
	file  string // relative to GOROOT/src
	edits []edit
}

var patches = []patch{
	{"runtime/runtime2.go", []edit{
		{"	startpc         uintptr         // pc of goroutine function\n",
			"	startpc         uintptr         // pc of goroutine function\n	simnode int32 // sim: simulated machine this goroutine belongs to\n	simstep uint32\n	simprio uint64 // sim: PCT priority\n	simhit uint32\n", 0},
	}},
	{"runtime/proc.go", []edit{
		// No sysmon: no wall-clock driven preemption or P retaking.
		{"	if haveSysmon {\n		systemstack(func() {\n			newm(sysmon, nil, -1)\n		})\n	}\n", "", 0},
		// The seeded scheduler.
		{"func runqget(pp *p) (gp *g, inheritTime bool) {\n",
			"func runqget(pp *p) (gp *g, inheritTime bool) {\n	if simOn {\n		return simRunqget(pp), false\n	}\n", 0},
		{"	if randomizeScheduler && next && randn(2) == 0 {\n		next = false\n	}\n",
			"	if simOn {\n		next = false\n	}\n", 0},
		// Goroutines inherit the simulated machine of their creator.
		{"	newg.startpc = fn.fn\n",
			"	newg.startpc = fn.fn\n	if mp.curg != nil {\n		newg.simnode = mp.curg.simnode\n	} else {\n		newg.simnode = simTimerNode\n	}\n	newg.simstep, newg.simhit = 0, 0\n	if simOn {\n		newg.simprio = simRand()\n	}\n", 0},
		// No thread switches during initialisation (they would make heap
		// addresses, and so the iteration order of maps keyed by pointers,
		// depend on real threads).
		{"	lockOSThread()\n\n	if mp != &m0 {\n", "	if mp != &m0 {\n", 0},
		{"	needUnlock = false\n	unlockOSThread()\n", "", 0},
		{"	needUnlock := true\n	defer func() {\n		if needUnlock {\n			unlockOSThread()\n		}\n	}()\n", "", 0},
		// One processor from the first instruction on.
		{"		procs = defaultGOMAXPROCS(numCPUStartup)\n", "		procs = 1\n", 0},
		// With the race detector the program is a cgo program, whose spare
		// thread must not keep time from advancing.
		{"	if !iscgo && cgoHasExtraM && extraMLength.Load() > 0 {\n", "	if cgoHasExtraM && extraMLength.Load() > 0 {\n", 0},
		// Fake time jumps: bounded by the simulation's own horizon, and counted.
		{"		if when := timeSleepUntil(); when < maxWhen {\n			faketime = when\n",
			"		if when := timeSleepUntil(); when < maxWhen {\n			faketime = when\n			simJumps++\n", 0},
	}},
	{"runtime/time.go", []edit{
		{"	seq    uintptr\n\n	// If non-nil, the timers containing t.\n",
			"	seq    uintptr\n	simnode int32\n\n	// If non-nil, the timers containing t.\n", 0},
		{"	t.lock()\n	t.trace(\"modify\")\n",
			"	t.lock()\n	if cg := getg().m.curg; cg != nil {\n		t.simnode = cg.simnode\n	}\n	t.trace(\"modify\")\n", 0},
		{"	f(arg, seq, delay)\n\n	if t.isChan {\n",
			"	simOldNode := simTimerNode\n	simTimerNode = t.simnode\n	f(arg, seq, delay)\n	simTimerNode = simOldNode\n\n	if t.isChan {\n", 0},
	}},
	{"runtime/time_fake.go", []edit{
		{"	return faketime / 1e9, int32(faketime % 1e9), faketime\n",
			"	w := faketime\n	if simOn {\n		if cg := getg().m.curg; cg != nil && uint32(cg.simnode) < simMaxNodes {\n			w += simSkew[cg.simnode]\n		}\n	}\n	return w / 1e9, int32(w % 1e9), faketime\n", 0},
		{"	if !(fd == 1 || fd == 2) {\n", "	if true {\n", 0},
	}},
	{"syscall/time_fake.go", []edit{
		{"const faketime = true\n", "const faketime = false\n", 0},
	}},
	{"runtime/mgcpacer.go", []edit{
		// No background collections (explicit ones still work).
		{"	p := gogetenv(\"GOGC\")\n	if p == \"off\" {\n", "	p := gogetenv(\"GOGC\")\n	if true {\n", 0},
	}},
	{"runtime/select.go", []edit{
		{"		j := cheaprandn(uint32(norder + 1))\n",
			"		var j uint32\n		if simOn {\n			j = uint32(simRand() % uint64(norder+1))\n		} else {\n			j = cheaprandn(uint32(norder + 1))\n		}\n", 0},
	}},
	{"runtime/rand.go", []edit{
		{"	if len(startupRand) >= 16 &&\n", "	if true {\n		for i := range seed {\n			seed[i] = byte(i*7 + 1)\n		}\n	} else if len(startupRand) >= 16 &&\n", 0},
		{"	globalRand.state.Reseed()\n", "", 0},
		{"func rand() uint64 {\n", "func rand() uint64 {\n	if simOn {\n		return simRand2()\n	}\n", 0},
		{"func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n	if simOn {\n		return uint32(simRand3())\n	}\n", 0},
		{"func cheaprandu64() uint64 {\n", "func cheaprandu64() uint64 {\n	if simOn {\n		return simRand3()\n	}\n", 0},
	}},
	{"runtime/panic.go", []edit{
		{"	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return\n",
			"	preprintpanics(&p)\n	if simOn && SimPanicHook != nil && gp.simnode != 0 {\n		SimPanicHook(p.arg)\n	}\n\n	fatalpanic(&p)   // should not return\n", 0},
	}},
	{"crypto/internal/sysrand/rand.go", []edit{
		{"func Read(b []byte) {\n", "func Read(b []byte) {\n	if simRandRead(b) {\n		return\n	}\n", 0},
		{"var firstUse atomic.Bool\n", "var firstUse atomic.Bool\n\n//go:linkname simRandRead runtime.simRandRead\nfunc simRandRead(b []byte) bool\n", 0},
	}},
	{"os/proc.go", []edit{
		{"func Exit(code int) {\n", "// SimExit is the simulator's stand-in for process exit.\nvar SimExit func(code int)\n\nfunc Exit(code int) {\n	if SimExit != nil {\n		SimExit(code)\n	}\n", 0},
	}},
	{"os/file.go", []edit{
		{"func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n",
			"// SimOpen and SimRead let the simulator make file accesses fail.\nvar SimOpen func(name string) error\nvar SimRead func(name string) error\n\nfunc OpenFile(name string, flag int, perm FileMode) (*File, error) {\n	if SimOpen != nil {\n		if err := SimOpen(name); err != nil {\n			return nil, &PathError{Op: \"open\", Path: name, Err: err}\n		}\n	}\n", 0},
		{"	n, e := f.read(b)\n	return n, f.wrapErr(\"read\", e)\n",
			"	if SimRead != nil {\n		if err := SimRead(f.name); err != nil {\n			return 0, &PathError{Op: \"read\", Path: f.name, Err: err}\n		}\n	}\n	n, e := f.read(b)\n	return n, f.wrapErr(\"read\", e)\n", 0},
	}},
	{"os/signal/signal.go", []edit{
		{"func Notify(c chan<- os.Signal, sig ...os.Signal) {\n",
			"// SimNotify and SimStop are the simulator's signal registry.\nvar SimNotify func(c chan<- os.Signal, sig ...os.Signal)\nvar SimStop func(c chan<- os.Signal)\n\nfunc Notify(c chan<- os.Signal, sig ...os.Signal) {\n	if SimNotify != nil && c != nil {\n		SimNotify(c, sig...)\n		return\n	}\n", 0},
		{"func Stop(c chan<- os.Signal) {\n", "func Stop(c chan<- os.Signal) {\n	if SimStop != nil {\n		SimStop(c)\n		return\n	}\n", 0},
	}},
	{"net/http/transport.go", []edit{
		// Connection pools are per simulated machine (http.DefaultTransport is
		// one object in a process that holds several machines).
		{"	proxy, scheme, addr string\n	onlyH1              bool\n", "	proxy, scheme, addr string\n	onlyH1              bool\n	simnode             int\n", 0},
		{"		onlyH1: cm.onlyH1,\n	}\n}\n", "		onlyH1: cm.onlyH1,\n		simnode: simNode(),\n	}\n}\n", 0},
	}},
	{"net/dial.go", []edit{
		{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
			"// SimDial and SimListen are the simulator's network.\nvar SimDial func(ctx context.Context, d *Dialer, network, address string) (Conn, error)\nvar SimListen func(network, address string) (Listener, error)\n\nfunc (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	if SimDial != nil {\n		sctx, cancel := d.dialCtx(ctx)\n		defer cancel()\n		return SimDial(sctx, d, network, address)\n	}\n", 0},
		{"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
			"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if SimListen != nil {\n		return SimListen(network, address)\n	}\n", 0},
	}},
}

// httpSim is added to package net/http.
const httpSim = `package http

import "runtime"

func simNode() int { return runtime.SimNode() }
`

// runtimeSim is added to package runtime.
const runtimeSim = `package runtime

import "unsafe"

const simMaxNodes = 256

var (
	simOn        bool
	simPolicy    int32
	simMixN      uint32
	simYieldN    uint32
	simStallN    uint32
	simStallMax  int64
	simRng       uint64
	simRng2      uint64
	simRng3      uint64
	simTimerNode int32
	simState     [simMaxNodes]uint8 // 0 running, 1 dead, 2 paused
	simPausedQ   [simMaxNodes]gQueue
	simSkew      [simMaxNodes]int64
	simJumps     uint64
	simPicks     uint64
	simChoices   uint64
	simSteps     uint64
	simStalls    uint64
	simYields    uint64
	simHash      uint64
	simStepLimit uint64
	simLastJump  uint64
	simJumpSteps uint64
)

// SimPanicHook is called for a panic that nothing recovered, on a goroutine
// of a simulated machine. It does not return.
var SimPanicHook func(arg any)

// SimSpinHook is called when one simulated machine executes very many
// statements without simulated time passing.
var SimSpinHook func()

type SimConfig struct {
	Seed      uint64
	Policy    int32 // 0 FIFO, 1 uniform random, 2 random priorities with changes
	MixN      uint32 // policy 0: one pick in MixN is random; policy 2: one pick in MixN changes a priority
	YieldN    uint32 // one statement in YieldN gives up the processor (0: none)
	StallN    uint32 // one statement in StallN stalls in simulated time (0: none)
	StallMax  int64
	StepLimit uint64
}

type SimStats struct {
	Jumps, Picks, Choices, Steps, Stalls, Yields, Hash uint64
}

func SimStart(c SimConfig) {
	simRng = c.Seed*0x9e3779b97f4a7c15 + 0x1234567
	simRng2 = c.Seed ^ 0x5851f42d4c957f2d
	simRng3 = c.Seed ^ 0x14057b7ef767814f
	simPolicy, simMixN, simYieldN, simStallN, simStallMax = c.Policy, c.MixN, c.YieldN, c.StallN, c.StallMax
	simStepLimit = c.StepLimit
	if simMixN == 0 {
		simMixN = 1 << 30
	}
	simOn = true
}

// SimQuiet turns the statement level yields and stalls off (the final,
// fault-free part of a run).
func SimQuiet() { simStallN, simYieldN = 0, 0 }

func SimReadStats() SimStats {
	return SimStats{simJumps, simPicks, simChoices, simSteps, simStalls, simYields, simHash}
}

//go:nosplit
func simMix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRand() uint64 { return simMix(&simRng) }

//go:nosplit
func simRand2() uint64 { return simMix(&simRng2) }

//go:nosplit
func simRand3() uint64 { return simMix(&simRng3) }

//go:linkname simRandRead
func simRandRead(b []byte) bool {
	if !simOn {
		for i := range b {
			b[i] = byte(i*37 + 11)
		}
		return true
	}
	for i := range b {
		b[i] = byte(simRand2() >> 13)
	}
	return true
}

func SimNode() int { return int(getg().simnode) }

func SimSetNode(n int) int {
	gp := getg()
	o := gp.simnode
	gp.simnode = int32(n)
	return int(o)
}

func SimGoid() uint64 { return getg().goid }

// SimKill makes every goroutine of node n stop for ever at its next
// scheduling point.
func SimKill(n int) {
	simState[n] = 1
}

func SimPause(n int) {
	if simState[n] == 0 {
		simState[n] = 2
	}
}

func SimResume(n int) {
	if simState[n] != 2 {
		return
	}
	simState[n] = 0
	systemstack(func() {
		mp := acquirem()
		pp := mp.p.ptr()
		q := &simPausedQ[n]
		for !q.empty() {
			gp := q.pop()
			casgstatus(gp, _Gwaiting, _Grunnable)
			runqput(pp, gp, false)
		}
		releasem(mp)
	})
}

func SimAlive(n int) bool { return simState[n] == 0 }

func SimSetSkew(n int, d int64) { simSkew[n] = d }

// SimSetTime sets the simulated clock; only before the simulation starts.
func SimSetTime(t int64) { faketime = t }

func simRunqget(pp *p) *g {
	for {
		h := pp.runqhead
		t := pp.runqtail
		if next := pp.runnext; next != 0 {
			pp.runnext = 0
			runqput(pp, next.ptr(), false)
			continue
		}
		n := t - h
		if n == 0 {
			return nil
		}
		idx := uint32(0)
		if n > 1 {
			simChoices++
			switch simPolicy {
			case 0:
				if uint32(simRand()>>32)%simMixN == 0 {
					idx = uint32(simRand()>>32) % n
				}
			case 1:
				idx = uint32(simRand()>>32) % n
			case 2:
				var best uint64
				for i := uint32(0); i < n; i++ {
					gp := pp.runq[(h+i)%uint32(len(pp.runq))].ptr()
					if gp.simprio >= best {
						best, idx = gp.simprio, i
					}
				}
				if uint32(simRand()>>32)%simMixN == 0 {
					gp := pp.runq[(h+idx)%uint32(len(pp.runq))].ptr()
					gp.simprio = simRand() >> 1
				}
			}
		}
		gp := pp.runq[(h+idx)%uint32(len(pp.runq))].ptr()
		for i := idx; i > 0; i-- {
			pp.runq[(h+i)%uint32(len(pp.runq))] = pp.runq[(h+i-1)%uint32(len(pp.runq))]
		}
		pp.runqhead = h + 1
		if uint32(gp.simnode) < simMaxNodes {
			switch simState[gp.simnode] {
			case 1:
				casgstatus(gp, _Grunnable, _Gwaiting)
				gp.waitreason = waitReasonZero
				continue
			case 2:
				casgstatus(gp, _Grunnable, _Gwaiting)
				gp.waitreason = waitReasonZero
				simPausedQ[gp.simnode].pushBack(gp)
				continue
			}
		}
		simPicks++
		gp.simhit++
		if n > 1 {
			x := uint64(gp.simnode)<<32 ^ uint64(gp.startpc)<<8 ^ uint64(idx) ^ uint64(gp.simstep)<<40
			simHash = (simHash ^ x) * 0x100000001b3
			simHash ^= simHash >> 29
		}
		return gp
	}
}

// SimFreeze parks the calling goroutine for ever.
func SimFreeze() {
	gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)
}

// SimYield is inserted before every statement of the program under test.
func SimYield() {
	if !simOn {
		return
	}
	gp := getg()
	if gp.simnode == 0 || gp.m.locks != 0 || gp.m.curg != gp {
		return
	}
	gp.simstep++
	simSteps++
	if simJumps != simLastJump {
		simLastJump = simJumps
		simJumpSteps = 0
	}
	simJumpSteps++
	if simStepLimit != 0 && simJumpSteps > simStepLimit {
		simJumpSteps = 0
		if SimSpinHook != nil {
			SimSpinHook()
		}
	}
	if simYieldN == 0 && simStallN == 0 {
		return
	}
	r := simRand()
	if simStallN != 0 && uint32(r>>32)%simStallN == 0 {
		simStalls++
		timeSleep(1 + int64(simRand()%uint64(simStallMax)))
		return
	}
	if simYieldN != 0 && uint32(r)%simYieldN == 0 {
		simYields++
		goyield()
	}
}

// SimCountG counts the goroutines of a simulated machine.
func SimCountG(n int) int {
	c := 0
	forEachGRace(func(gp *g) {
		if gp.simnode == int32(n) && readgstatus(gp)&^_Gscan != _Gdead && readgstatus(gp)&^_Gscan != _Gdeadextra && !isSystemGoroutine(gp, false) {
			c++
		}
	})
	return c
}

var _ unsafe.Pointer
`
