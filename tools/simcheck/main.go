// simcheck runs one property's seeded search: it builds the simulation from
// the repository's working tree, executes many runs (one process per run, one
// seed per run), re-executes a sample to prove determinism, confirms and
// minimises a violation, writes the replay file, and writes the evidence.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type violation struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

type result struct {
	Violations []violation      `json:"violations"`
	Hash       string           `json:"hash"`
	SchedHash  string           `json:"sched_hash"`
	Stats      map[string]int64 `json:"stats"`
	Faults     map[string]int64 `json:"faults"`
	Cover      map[string]int64 `json:"cover"`
	SimMs      int64            `json:"sim_ms"`
	Plan       json.RawMessage  `json:"plan,omitempty"`
	Log        []string         `json:"log,omitempty"`
	Nontrivial bool             `json:"nontrivial"`
}

type input struct {
	Prop  string          `json:"prop"`
	Seed  uint64          `json:"seed"`
	Tier  string          `json:"tier"`
	Plan  json.RawMessage `json:"plan,omitempty"`
	Trace bool            `json:"trace,omitempty"`
	Dry   bool            `json:"dry,omitempty"`

	race bool // under the race detector
}

// known is a genuine defect that is recorded rather than repaired.
type known struct {
	Property string
	Kind     string
	Contains string // must occur in the violation's message
	What     string
}

var openLine = regexp.MustCompile(`^open: property=(\S+) kind=(\S+) contains=("(?:[^"\\]|\\.)*") (.*)$`)

type replayFile struct {
	Property string          `json:"property"`
	Kind     string          `json:"kind"`
	Message  string          `json:"message"`
	Seed     uint64          `json:"seed"`
	Tier     string          `json:"tier"`
	Race     bool            `json:"race,omitempty"`    // under the race detector
	BySeed   bool            `json:"by_seed,omitempty"` // replay from the seed, not the plan
	Plan     json.RawMessage `json:"plan"`
	Hash     string          `json:"hash"`
	Sched    string          `json:"sched_hash"`
	Trace    []string        `json:"trace"`
	Shrunk   string          `json:"shrunk"`
}

var (
	verif   string
	simBin  string
	raceBin string

	noShrink bool
	scratch  string
)

// outDir is where builds and evidence go; elsewhere only for planted bugs.
func outDir(name string) string {
	if d := os.Getenv("SIM_OUT"); d != "" {
		if name == ".build" {
			return d
		}
		return filepath.Join(d, name)
	}
	return filepath.Join(verif, name)
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simcheck: "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

var errDied = fmt.Errorf("the simulation process ended without a result")

// run executes one run in its own process. The environment, and the length
// of everything in it, is the same for every run.
func run(slot int, in input) (*result, string, error) {
	dir := filepath.Join(scratch, fmt.Sprintf("s%03d", slot))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, "", err
	}
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		os.RemoveAll(filepath.Join(dir, e.Name()))
	}
	b, err := json.Marshal(in)
	if err != nil {
		return nil, "", err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	bin := simBin
	if in.race {
		bin = raceBin
	}
	cmd := exec.CommandContext(ctx, bin)
	cmd.Env = []string{"SIM_DIR=" + dir, "HOME=" + dir, "TZ=UTC"}
	if in.race {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(dir, "race"))
	}
	cmd.Dir = dir
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	e := cmd.Run()
	if ctx.Err() != nil {
		return nil, "no result within 90 s of real time", errDied
	}
	var r result
	if json.Unmarshal(out.Bytes(), &r) != nil || e != nil {
		s := errb.String()
		if len(s) > 4000 {
			s = s[:4000]
		}
		return nil, s, errDied
	}
	if in.race {
		r.races(in.Prop, dir)
	}
	return &r, "", nil
}

// The properties whose checks run the simulation under the race detector as
// well (one run in so many): it knows, by vector clocks, which accesses to memory nothing orders, whatever
// the one thread of the simulation made of them.
var raceProps = map[string]int{"C10": 4, "C11": 10, "C21": 1}

var (
	raceHead = regexp.MustCompile(`(?m)^(?:Previous )?(?:[Rr]ead|[Ww]rite|[Aa]tomic read|[Aa]tomic write) at 0x([0-9a-f]+) by .*:\n((?:  .*\n)*)`)
	raceAt   = regexp.MustCompile(`(?m)^  (\S.*)\(\)\n      (\S+):(\d+)`)
)

const kachePkg = "github.com/kacheio/kache/pkg/"

// races adds the unordered accesses that kache's own code makes. Those of the
// simulator itself, which relies on running on one thread, are left out.
func (r *result) races(prop, dir string) {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(b), "==================\n") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			acc := raceHead.FindAllStringSubmatch(rep, -1)
			if len(acc) != 2 {
				continue
			}
			own, harness, provider, global := 0, false, 0, false
			var desc []string
			for _, a := range acc {
				global = global || len(strings.TrimLeft(a[1], "0")) < 10
				at := ""
				for k, fr := range raceAt.FindAllStringSubmatch(a[2], -1) {
					if k == 0 {
						at = fr[1]
					}
					if strings.HasPrefix(fr[1], "main.") {
						harness = true
						break
					}
					if strings.HasPrefix(fr[1], kachePkg) {
						own++
						if strings.HasPrefix(fr[1], kachePkg+"provider.") {
							provider++
						}
						at = fmt.Sprintf("%s (%s:%s)", strings.TrimPrefix(fr[1], kachePkg), filepath.Base(fr[2]), fr[3])
						break
					}
				}
				desc = append(desc, at)
			}
			if harness || own == 0 || prop != "C21" && provider < 2 || global && r.Stats["processes"] > 0 {
				continue
			}
			if m := desc[0] + " and " + desc[1]; !seen[m] {
				seen[m] = true
				r.Violations = append(r.Violations, violation{prop, "data-race", "nothing orders the accesses to the same memory in " + m})
			}
		}
		os.Remove(f)
	}
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	replay := flag.String("replay", "", "replay this file")
	runs := flag.Int("runs", 0, "number of runs (default by tier)")
	maxSec := flag.Int("seconds", 0, "limit of wall-clock seconds for the search (default by tier)")
	noBuild := flag.Bool("nobuild", false, "use the existing build")
	seedFlag := flag.Int64("seed", -1, "base seed (default VERIF_SEED)")
	flag.BoolVar(&noShrink, "noshrink", false, "do not minimise")
	all := flag.Bool("all", false, "report violations of every property, keep searching")
	flag.Parse()
	t0 := time.Now()
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	verif = filepath.Dir(filepath.Dir(exe))
	if v := os.Getenv("SIMCHECK_VERIF"); v != "" {
		verif = v
	}
	plain, race := true, raceProps[*prop] > 0
	plain = raceProps[*prop] != 1
	if *replay != "" {
		var rf replayFile
		if b, err := os.ReadFile(*replay); err == nil && json.Unmarshal(b, &rf) == nil {
			plain, race = !rf.Race, rf.Race
		}
	}
	var bins []*string
	for _, x := range []struct {
		use  bool
		bin  *string
		name string
		env  string
	}{{plain, &simBin, "sim", "SIM_RACE="}, {race, &raceBin, "simrace", "SIM_RACE=1"}} {
		if !x.use {
			continue
		}
		*x.bin = filepath.Join(outDir(".build"), x.name)
		bins = append(bins, x.bin)
		if !*noBuild {
			cmd := exec.Command("bash", filepath.Join(verif, "build.sh"))
			cmd.Env = append(os.Environ(), x.env)
			out, err := cmd.CombinedOutput()
			if err != nil {
				fatal("build failed: %v\n%s", err, out)
			}
		}
	}
	base := "/dev/shm"
	if os.WriteFile(filepath.Join(base, ".simcheck-probe"), nil, 0o600) != nil {
		base = os.TempDir()
	}
	os.Remove(filepath.Join(base, ".simcheck-probe"))
	// A private copy of the binary: another check may rebuild meanwhile.
	scratch, err = os.MkdirTemp(base, "simcheck.")
	if err != nil {
		fatal("%v", err)
	}
	// Constant length, so that environments have equal sizes.
	short := filepath.Join(base, fmt.Sprintf("simcheck-%08d", os.Getpid()%100000000))
	if err := os.Rename(scratch, short); err != nil {
		fatal("%v", err)
	}
	scratch = short
	defer cleanup()
	for _, p := range bins {
		bin, err := os.ReadFile(*p)
		if err != nil {
			fatal("%v", err)
		}
		*p = filepath.Join(scratch, filepath.Base(*p))
		if err := os.WriteFile(*p, bin, 0o755); err != nil {
			fatal("%v", err)
		}
	}
	buildS := time.Since(t0).Seconds()

	if *replay != "" {
		code := doReplay(*replay)
		cleanup()
		os.Exit(code)
	}
	if *prop == "" {
		fatal("no property given")
	}
	if *tier == "" {
		*tier = "quick"
	}
	vseed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fatal("VERIF_SEED: %v", err)
		}
		vseed = n
	}
	if *seedFlag >= 0 {
		vseed = *seedFlag
	}
	n, limit := 20000, 240
	if *prop == "C21" {
		n = 5000
	}
	if *tier == "thorough" {
		n, limit = 400000, 2400
	}
	if *runs > 0 {
		n = *runs
	}
	if *maxSec > 0 {
		limit = *maxSec
	}
	fmt.Printf("property=%s tier=%s VERIF_SEED=%d runs=%d\n", *prop, *tier, vseed, n)
	s := &search{prop: *prop, tier: *tier, base: uint64(vseed) * 10_000_000, n: n, deadline: time.Now().Add(time.Duration(limit) * time.Second), all: *all,
		faults: map[string]int64{}, cover: map[string]int64{}, stats: map[string]int64{}, sched: map[string]bool{}, hist: map[string]bool{},
		knownHit: map[string]int64{}, kinds: map[string]int{}, other: map[string]int{}, incidents: map[string]int{}}
	s.loadKnown()
	code := s.search()
	s.evidence(vseed, time.Since(t0).Seconds(), buildS)
	cleanup()
	os.Exit(code)
}

type found struct {
	seed uint64
	race bool
	v    violation
	plan json.RawMessage
}

type search struct {
	prop, tier string
	base       uint64
	n          int
	deadline   time.Time
	all        bool

	mu         sync.Mutex
	next       int
	done       int
	nontrivial int
	faults     map[string]int64
	cover      map[string]int64
	stats      map[string]int64
	sched      map[string]bool
	hist       map[string]bool
	simMs      int64
	raced      int // runs under the race detector
	double     int
	mismatch   int
	knownHit   map[string]int64
	known      []known
	cands      []found
	kinds      map[string]int
	other      map[string]int
	incidents  map[string]int
	died       []string
	samples    []any
	reported   []any
	searchS    float64
	workers    int
}

func (s *search) loadKnown() {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return
		}
		fatal("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		// open: property=C01 kind=<kind> contains="<text>" <what fails>
		m := openLine.FindStringSubmatch(l)
		if m == nil {
			if strings.HasPrefix(l, "open:") {
				fatal("known-findings.txt: cannot read %q", l)
			}
			continue // comments and fixed ones, which suppress nothing
		}
		text, err := strconv.Unquote(m[3])
		if err != nil {
			fatal("known-findings.txt: %v in %q", err, l)
		}
		s.known = append(s.known, known{Property: m[1], Kind: m[2], Contains: text, What: m[4]})
	}
}

func (s *search) isKnown(v violation) *known {
	for i := range s.known {
		k := &s.known[i]
		if k.Property == v.Prop && k.Kind == v.Kind && strings.Contains(v.Msg, k.Contains) {
			return k
		}
	}
	return nil
}

func (s *search) search() int {
	start := time.Now()
	s.workers = runtime.NumCPU()
	var wg sync.WaitGroup
	for k := 0; k < s.workers; k++ {
		wg.Add(1)
		go func(slot int) {
			defer wg.Done()
			for {
				s.mu.Lock()
				if s.next >= s.n || time.Now().After(s.deadline) || (len(s.cands) > 0 && !s.all) || len(s.died) > 20 {
					s.mu.Unlock()
					return
				}
				i := s.next
				s.next++
				s.mu.Unlock()
				s.one(slot, i)
			}
		}(k)
	}
	wg.Wait()
	s.searchS = time.Since(start).Seconds()
	for _, k := range s.known {
		if k.Property == s.prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d of %d runs)\n", s.prop, k.What, s.knownHit[k.Kind+"\x00"+k.Contains], s.done)
		}
	}
	fmt.Printf("%d runs, %d non-trivial, %d schedules, %.1f s, %.0f runs/hour, %.0f s simulated; %d re-executed, %d mismatches\n",
		s.done, s.nontrivial, len(s.sched), s.searchS, float64(s.done)/s.searchS*3600, float64(s.simMs)/1000, s.double, s.mismatch)
	if len(s.cands) == 0 {
		if len(s.died) > 0 && (s.done == 0 || len(s.died) > s.done/100) {
			fmt.Fprintf(os.Stderr, "simcheck: %d runs died:\n%s\n", len(s.died), s.died[0])
			return 2
		}
		if s.mismatch > 0 {
			fmt.Fprintf(os.Stderr, "simcheck: %d of %d re-executed runs differ: the simulation is not deterministic\n", s.mismatch, s.double)
			if s.mismatch*2 > s.double {
				return 2
			}
		}
		return 0
	}
	sort.SliceStable(s.cands, func(i, j int) bool { return s.cands[i].seed < s.cands[j].seed })
	if s.all {
		for k, n := range s.kinds {
			fmt.Printf("  %6d %s\n", n, k)
		}
	}
	code := 0
	tried := map[string]bool{}
	for _, c := range s.cands {
		if tried[c.v.Kind] {
			continue
		}
		rf, ok := s.confirm(c)
		if !ok {
			s.incidents["unreproduced "+c.v.Kind]++
			continue
		}
		tried[c.v.Kind] = true
		s.report(rf)
		code = 1
		if !s.all {
			break
		}
	}
	if code == 0 {
		fmt.Fprintf(os.Stderr, "simcheck: candidate violations did not reproduce; not reported: %v\n", s.incidents)
		return 2
	}
	return code
}

func (s *search) one(slot, i int) {
	seed := s.base + uint64(i)
	in := input{Prop: s.prop, Seed: seed, Tier: s.tier}
	if k := raceProps[s.prop]; k > 0 {
		in.race = i%k == 0
	}
	r, msg, err := run(slot, in)
	if err != nil {
		// Deterministic? A run that always dies is a crash of the real code
		// that even the simulated machine could not contain.
		_, msg2, err2 := run(slot, in)
		s.mu.Lock()
		defer s.mu.Unlock()
		s.done++
		if err2 == nil {
			s.incidents["died once"]++
			return
		}
		_ = msg2
		s.died = append(s.died, fmt.Sprintf("seed %d: %s", seed, msg))
		if strings.Contains(msg, "fatal error: ") || strings.Contains(msg, "no result within") {
			line := msg
			if k := strings.Index(msg, "fatal error: "); k >= 0 {
				line = strings.SplitN(msg[k:], "\n", 2)[0]
			}
			dr, _, derr := run(slot, input{Prop: s.prop, Seed: seed, Tier: s.tier, Dry: true, race: in.race})
			if derr == nil {
				s.cands = append(s.cands, found{seed, in.race, violation{s.prop, "process-fatal", line}, dr.Plan})
			}
		}
		return
	}
	mismatch := false
	dbl := i%150 == 7 || in.race && i%160 == 8
	if dbl {
		r2, _, err := run(slot, in)
		mismatch = err != nil || r2.Hash != r.Hash || r2.SchedHash != r.SchedHash
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.done++
	if dbl {
		s.double++
		if mismatch {
			s.mismatch++
			s.incidents[fmt.Sprintf("mismatch seed %d", seed)]++
		}
	}
	s.simMs += r.SimMs
	if in.race {
		s.raced++
	}
	if r.Nontrivial && !s.hist[r.Hash] {
		s.nontrivial++
	}
	s.hist[r.Hash] = true
	s.sched[r.SchedHash] = true
	for k, v := range r.Faults {
		s.faults[k] += v
	}
	for k, v := range r.Cover {
		s.cover[k] += v
	}
	for k, v := range r.Stats {
		s.stats[k] += v
	}
	if len(s.samples) < 4 && (i < 2 || i%1000 == 500) {
		s.samples = append(s.samples, map[string]any{"seed": seed, "events": r.Stats["events"], "requests": r.Stats["requests"], "exchanges": r.Stats["exchanges"], "faults": r.Faults, "judged": r.Cover, "scheduling_choices": r.Stats["choices"], "sim_ms": r.SimMs, "history_hash": r.Hash})
	}
	seen := map[string]bool{}
	for _, v := range r.Violations {
		if v.Prop != s.prop && !s.all {
			s.other[v.Prop+" "+v.Kind]++
			continue
		}
		if k := s.isKnown(v); k != nil {
			kk := k.Kind + "\x00" + k.Contains
			if !seen[kk] {
				seen[kk] = true
				s.knownHit[kk]++
			}
			continue
		}
		id := v.Prop + " " + v.Kind
		if !seen[id] {
			seen[id] = true
			s.kinds[id]++
			s.cands = append(s.cands, found{seed, in.race, v, r.Plan})
		}
	}
}

// fails runs a plan and says whether it shows an unlisted violation of the
// same class.
func (s *search) fails(slot int, c found, in input) (*result, *violation) {
	r, msg, err := run(slot, in)
	if err != nil {
		if c.v.Kind == "process-fatal" {
			return &result{Hash: "-", SchedHash: "-", Log: strings.Split(msg, "\n")}, &c.v
		}
		return nil, nil
	}
	for i := range r.Violations {
		v := &r.Violations[i]
		if v.Prop == c.v.Prop && v.Kind == c.v.Kind && s.isKnown(*v) == nil {
			return r, v
		}
	}
	return r, nil
}

func (s *search) confirm(c found) (*replayFile, bool) {
	in := input{Prop: s.prop, Seed: c.seed, Tier: s.tier, Plan: c.plan, race: c.race}
	r, v := s.fails(0, c, in)
	bySeed := false
	if v == nil {
		bySeed = true
		in.Plan = nil
		if r, v = s.fails(0, c, in); v == nil {
			return nil, false
		}
	}
	plan := c.plan
	shrunk := "not minimised"
	if !bySeed && !noShrink {
		p, note := s.shrink(c, in)
		plan, shrunk = p, note
		in.Plan = p
	}
	in.Trace = true
	r, v = s.fails(0, c, in)
	if v == nil {
		in.Trace, in.Plan, plan = false, c.plan, c.plan
		if bySeed {
			in.Plan = nil
		}
		if r, v = s.fails(0, c, in); v == nil {
			return nil, false
		}
	}
	r2, v2 := s.fails(1, c, in)
	if v2 == nil || r2.Hash != r.Hash {
		s.incidents["replay differs"]++
		if v2 == nil {
			return nil, false
		}
	}
	return &replayFile{Property: c.v.Prop, Kind: v.Kind, Message: v.Msg, Seed: c.seed, Tier: s.tier, BySeed: bySeed, Race: c.race, Plan: plan, Hash: r.Hash, Sched: r.SchedHash, Trace: r.Log, Shrunk: shrunk}, true
}

func (s *search) report(rf *replayFile) {
	dir := filepath.Join(outDir("evidence"), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", rf.Property, rf.Kind, rf.Seed))
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s: %s\nseed %d, %s; replay with: bin/check -replay %s\n", rf.Kind, rf.Message, rf.Seed, rf.Shrunk, path)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	s.reported = append(s.reported, map[string]any{"kind": rf.Kind, "message": rf.Message, "seed": rf.Seed, "replay": path})
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	in := input{Prop: rf.Property, Seed: rf.Seed, Tier: rf.Tier, Plan: rf.Plan, Trace: true, race: rf.Race}
	if rf.BySeed {
		in.Plan = nil
	}
	r, msg, err := run(0, in)
	if err != nil {
		fmt.Println(msg)
		if rf.Kind == "process-fatal" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
			return 1
		}
		return 2
	}
	for _, l := range r.Log {
		fmt.Println(l)
	}
	if rf.Hash == r.Hash {
		fmt.Println("the execution is identical to the recorded one:", r.Hash)
	} else {
		fmt.Println("the execution differs from the recorded one (other code?)")
	}
	code := 0
	for _, v := range r.Violations {
		fmt.Printf("%s %s: %s\n", v.Prop, v.Kind, v.Msg)
		if v.Prop == rf.Property && v.Kind == rf.Kind {
			code = 1
		}
	}
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	}
	return code
}

func (s *search) evidence(vseed int64, wall, buildS float64) {
	if s.done == 0 {
		return
	}
	rule := "One case is one seeded run: a generated configuration, origin behaviour, client and administration traffic, fault plan and scheduler (policy and seed). " +
		"A run is non-trivial if its oracles judged at least one instance of this property (counters under judged) and its history hash was not seen before in this check."
	cov := map[string]any{
		"evaluations": s.done, "distinct_nontrivial": s.nontrivial, "rule": rule, "samples": s.samples,
		"distinct_histories": len(s.hist), "distinct_schedules": len(s.sched),
		"schedule_measure": "hash over every scheduling decision with more than one runnable goroutine (machine, goroutine entry point, statements executed, index chosen)",
		"runs_per_hour":    int64(float64(s.done) / s.searchS * 3600), "seeds_per_hour": int64(float64(s.done) / s.searchS * 3600),
		"simulated_seconds": s.simMs / 1000, "faults_injected": s.faults, "judged": s.cover, "totals": s.stats,
		"determinism":        map[string]any{"re_executed": s.double, "mismatches": s.mismatch},
		"race_detector_runs": s.raced,
		"first_seed":         s.base, "build_s": buildS, "search_s": s.searchS, "workers": s.workers,
		"real_components": []string{"all of kache (cmd/kache and pkg/...), instrumented at statement level", "Go net/http, httputil.ReverseProxy, go-redis, prometheus, zerolog, encoding", "Go scheduler, channels, timers, mutexes (seeded choice of the next goroutine)"},
		"stub_components": []string{"TCP (in-memory network with latency, loss of connectivity, resets, stalls)", "clock", "randomness", "origin servers", "Redis server (own implementation of the RESP commands used)", "Kubernetes API server", "process table: start, kill, stop, signals, exit"},
	}
	if len(s.knownHit) > 0 {
		m := map[string]int64{}
		for k, v := range s.knownHit {
			m[strings.ReplaceAll(k, "\x00", ": ")] = v
		}
		cov["known_findings_met"] = m
	}
	if len(s.incidents) > 0 {
		cov["incidents"] = s.incidents
	}
	if len(s.died) > 0 {
		cov["runs_died"] = len(s.died)
	}
	if len(s.reported) > 0 {
		cov["reported"] = s.reported
	}
	ev := map[string]any{"property": s.prop, "tier": s.tier, "seed": vseed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": len(s.reported),
		"assumptions": []string{
			"the stub network, Redis, Kubernetes API and origins behave like the real ones on the surface kache uses",
			"goroutine switches happen at blocking operations and between statements of kache's own code, not between machine instructions (no weak-memory effects); what that could hide is left to the race detector, under which the checks of C10, C11 and C21 run",
			"a clean search is evidence over the sampled runs, not a proof"}}
	os.MkdirAll(outDir("evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(outDir("evidence"), s.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}
