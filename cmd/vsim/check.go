package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type finding struct {
	Status   string `json:"status"` // known or fixed
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Commit   string `json:"commit"`
}

func loadFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		die("%v", err)
	}
	var f []finding
	if err := json.Unmarshal(b, &f); err != nil {
		die("known_findings.json: %v", err)
	}
	return f
}

func knownAs(fs []finding, prop, class, msg string) *finding {
	for i := range fs {
		f := &fs[i]
		if f.Status == "known" && f.Property == prop && f.Class == class && f.Match != "" && strings.Contains(msg, f.Match) {
			return f
		}
	}
	return nil
}

func check(prop string) {
	began := time.Now()
	conf, ok := loadConf()[prop]
	if !ok {
		die("no such check: %s", prop)
	}
	tier := envOr("VERIF_TIER", "quick")
	seed, _ := strconv.ParseUint(envOr("VERIF_SEED", "1"), 10, 64)
	runs, secs := conf.QuickRuns, conf.QuickSecs
	if tier == "thorough" {
		runs, secs = conf.ThoroughRuns, conf.ThoroughSecs
	}
	raceN := conf.RaceRuns
	if tier == "thorough" {
		raceN = conf.RaceThoroughRuns
	}
	if s := os.Getenv("VSIM_RACE"); s != "" {
		raceN, _ = strconv.ParseUint(s, 10, 64)
	}
	if s := os.Getenv("VSIM_RUNS"); s != "" {
		runs, _ = strconv.ParseUint(s, 10, 64)
	}
	if s := os.Getenv("VSIM_SECS"); s != "" {
		secs, _ = strconv.Atoi(s)
	}
	findings := loadFindings()
	fmt.Printf("%s: VERIF_SEED=%d tier=%s runs=%d\n", prop, seed, tier, runs)
	bin := buildSim(false)
	buildS := time.Since(began).Seconds()
	dir, err := os.MkdirTemp("", "vsim-"+prop+"-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	var (
		total  = agg{Faults: map[string]uint64{}, Probes: map[string]uint64{}, Scen: map[string]uint64{}}
		first  *failure
		known  = map[string]uint64{}
		mu     sync.Mutex
		herr   error
		t0     = time.Now()
		nprocs = 8
	)
	type phase struct {
		bin  string
		from uint64
		to   uint64
		race bool
	}
	phases := []phase{{bin, 0, runs, false}}
	if raceN > 0 {
		phases = append(phases, phase{"", runs, runs + raceN, true})
	}
	timer := time.AfterFunc(time.Duration(secs)*time.Second, live.stopAll)
	raceFail := false
	var raceRuns uint64
	for _, ph := range phases {
		if first != nil || herr != nil {
			break
		}
		if ph.race {
			ph.bin = buildSim(true)
		}
		var wg sync.WaitGroup
		for i := 0; i < nprocs; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				w := &worker{bin: ph.bin, prop: prop, seed: seed, start: ph.from + uint64(i), count: ph.to, stride: uint64(nprocs), dir: dir, id: i}
				for w.start < w.count {
					mu.Lock()
					stop := herr != nil || live.stop
					mu.Unlock()
					if stop {
						return
					}
					sum, f, next, _, err := w.run()
					mu.Lock()
					if err != nil {
						if herr == nil {
							herr = err
						}
						mu.Unlock()
						live.stopAll()
						return
					}
					if sum != nil {
						total.add(*sum)
						if ph.race {
							raceRuns += sum.Runs
						}
					}
					if f != nil {
						if k := knownAs(findings, prop, f.class, f.msg); k != nil {
							known[k.What]++
						} else {
							if first == nil || f.index < first.index {
								first = f
								raceFail = ph.race
							}
							mu.Unlock()
							live.stopAll()
							return
						}
					}
					mu.Unlock()
					if next == 0 {
						return
					}
					w.start = next
				}
			}(i)
		}
		wg.Wait()
	}
	timer.Stop()
	exploreS := time.Since(t0).Seconds()
	if first == nil && herr != nil {
		die("%s: %v", prop, herr)
	}
	distinct := countDistinct(dir)
	var kw []string
	for k := range known {
		kw = append(kw, k)
	}
	sort.Strings(kw)
	for _, k := range kw {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	violations := 0
	code := 0
	var samples []any
	if first != nil {
		violations = 1
		code = 1
		b := bin
		if raceFail {
			b = filepath.Join(build, "verifsim-race")
		}
		if os.Getenv("VSIM_NOMIN") != "" {
			fmt.Printf("violation class: %s\n%s\n", first.class, indent(first.msg))
			os.RemoveAll(dir)
			os.Exit(1)
		}
		path, rp, err := minimise(b, dir, prop, seed, first, raceFail)
		if err != nil {
			// report what was seen, with the tapes as they were recorded
			fmt.Fprintf(os.Stderr, "run %d seed %d class %q: %s\n%s: this failure did not replay exactly: %v\n", first.index, first.seed, first.class, first.msg, prop, err)
			path, rp = saveRaw(b, prop, seed, first, raceFail)
		}
		fmt.Printf("violation class: %s\n%s\n", rp.Class, indent(rp.Message))
		for _, l := range lastN(rp.Log, 25) {
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		samples = append(samples, map[string]any{"violation": rp.Class, "replay": path, "run": rp.RunIndex, "seed": rp.Seed})
	} else {
		samples = sampleRuns(bin, dir, prop, seed)
		if tier == "quick" || tier == "thorough" {
			for _, p := range conf.Probes {
				if total.Probes[p] == 0 {
					die("%s: the rare condition %q was never reached: the exploration is not what it claims to be", prop, p)
				}
			}
		}
	}
	perHour := 0.0
	if exploreS > 0 {
		perHour = float64(total.Runs) / exploreS * 3600
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": conf.Level, "wall_s": time.Since(began).Seconds(), "violations": violations,
		"coverage": map[string]any{
			"evaluations":             total.Runs,
			"distinct_nontrivial":     distinct,
			"rule":                    conf.Rule,
			"samples":                 samples,
			"oracle_evaluations":      total.Checks,
			"nontrivial_runs":         total.NonTrivial,
			"runs_per_hour":           int64(perHour),
			"seeds_per_hour":          int64(perHour),
			"simulated_seconds":       float64(total.SimNS) / 1e9,
			"fault_kinds_fired":       total.Faults,
			"rare_conditions_reached": total.Probes,
			"runs_per_scenario":       total.Scen,
			"distinct_interleavings":  map[string]any{"count": distinct, "measure": "distinct 64-bit hashes of (sequence of goroutine picks with their option counts, preemption sites and yield counters; all workload and fault choices) over non-trivial runs"},
			"scheduling_choices":      total.Picks,
			"yield_points_passed":     total.Yields,
			"preemptions":             total.Preempt,
			"context_switches":        total.Switches,
			"stalls_injected":         total.Stalls,
			"clock_jumps":             total.Jumps,
			"goroutines_simulated":    total.Spawned,
			"max_runnable_at_once":    total.MaxRunnable,
			"distinct_preempt_sites":  total.Sites,
			"statements_reached":      reachedStatements(total.Seen),
			"race_detector_runs":      raceRuns,
			"race_detector_skipped":   harnessRaces.Load(),
			"components_real":         conf.Real,
			"components_stub":         conf.Stub,
			"known_findings_hit":      known,
			"build_s":                 buildS,
			"explore_s":               exploreS,
			"worker_processes":        nprocs,
		},
		"assumptions": append([]string{
			"the code runs on one OS thread at a time: interleavings at statement granularity (plus split field read-modify-writes), sequentially consistent memory",
			"instrumentation inserts calls that do nothing but possibly switch goroutines",
			"sampling, not enumeration: a clean batch is evidence, not proof",
		}, conf.Assumptions...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s: %d runs (%d distinct non-trivial), %.0f runs/h, %.0f simulated s, %.1f s build + %.1f s exploration, violations %d\n",
		prop, total.Runs, distinct, perHour, float64(total.SimNS)/1e9, buildS, exploreS, violations)
	os.RemoveAll(dir)
	os.Exit(code)
}

func indent(s string) string { return "  " + strings.ReplaceAll(strings.TrimSpace(s), "\n", "\n  ") }

func lastN(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func countDistinct(dir string) int {
	seen := map[uint64]struct{}{}
	m, _ := filepath.Glob(filepath.Join(dir, "hashes.*"))
	for _, f := range m {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for i := 0; i+8 <= len(b); i += 8 {
			seen[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
		}
	}
	return len(seen)
}

// sampleRuns writes out a few actual runs of this exploration.
func sampleRuns(bin, dir, prop string, seed uint64) []any {
	var out []any
	for i := uint64(0); i < 3; i++ {
		w := &worker{bin: bin, prop: prop, seed: seed, start: i, count: i + 1, stride: 1, dir: dir, id: 90, verbose: true}
		_, f, _, _, err := w.run()
		if err != nil || f != nil {
			continue
		}
		v, err := readShm(filepath.Join(dir, "shm.90"))
		if err != nil {
			continue
		}
		lines := strings.Split(strings.TrimSpace(v.log()), "\n")
		if len(lines) > 30 {
			lines = append(lines[:30], fmt.Sprintf("... %d more events", len(lines)-30))
		}
		out = append(out, map[string]any{"run": i, "seed": v.h(hSeed), "choices": map[string]uint64{"workload_and_faults": v.h(hW), "scheduler": v.h(hPicks), "preemption_gaps": v.h(hGaps)}, "events": lines})
	}
	os.Remove(filepath.Join(dir, "hashes.90"))
	return out
}

// server runs candidate replays one after another in worker processes.
type server struct {
	bin, dir string
	n        int
	verbose  bool
	cmd      *exec.Cmd
	in       *os.File
	out      *bufio.Scanner
	outf     *os.File
	stderr   *bytes.Buffer
}

func (s *server) start() error {
	shm := filepath.Join(s.dir, "shm.serve")
	if err := newShm(shm); err != nil {
		return err
	}
	args := []string{"-serve=1", "-shm=" + shm}
	if s.verbose {
		args = append(args, "-verbose=1")
	}
	cmd := exec.Command(s.bin, args...)
	cmd.Env = simEnv()
	cmd.Dir = s.dir
	s.stderr = &bytes.Buffer{}
	cmd.Stderr = &limitWriter{b: s.stderr, n: 1 << 20}
	r0, w0, err := os.Pipe()
	if err != nil {
		return err
	}
	r3, w3, err := os.Pipe()
	if err != nil {
		return err
	}
	cmd.Stdin = r0
	cmd.ExtraFiles = []*os.File{w3}
	if err := cmd.Start(); err != nil {
		return err
	}
	r0.Close()
	w3.Close()
	s.cmd, s.in, s.outf = cmd, w0, r3
	s.out = bufio.NewScanner(r3)
	s.out.Buffer(make([]byte, 1<<16), 1<<20)
	return nil
}

func (s *server) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Wait()
		s.outf.Close()
		s.cmd = nil
	}
}

// eval runs one candidate; class is "" if it passes.
func (s *server) eval(rp *replay) (class, msg string, view *shmView, err error) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return "", "", nil, err
		}
	}
	b, _ := json.Marshal(rp)
	p := filepath.Join(s.dir, "cand.json")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		return "", "", nil, err
	}
	fmt.Fprintln(s.in, p)
	var killed atomic.Bool
	kill := time.AfterFunc(60*time.Second, func() { killed.Store(true); s.cmd.Process.Kill() })
	ok := s.out.Scan()
	kill.Stop()
	if ok {
		// passed; a leak that is allowed makes the process end, the next eval restarts it
		v, err := readShm(filepath.Join(s.dir, "shm.serve"))
		if s.probeExit() {
			s.stop()
		}
		return "", "", v, err
	}
	s.in.Close()
	s.cmd.Wait()
	code := s.cmd.ProcessState.ExitCode()
	s.outf.Close()
	s.cmd = nil
	v, err := readShm(filepath.Join(s.dir, "shm.serve"))
	if err != nil {
		return "", "", nil, err
	}
	if killed.Load() {
		return wedgedClass, wedgedMsg, v, nil
	}
	class, msg, err = classify(code, s.stderr.String(), v)
	return class, msg, v, err
}

// probeExit restarts the server every so often, so that nothing accumulates.
func (s *server) probeExit() bool { s.n++; return true }

func minimise(bin, dir, prop string, vseed uint64, f *failure, race bool) (string, *replay, error) {
	// 1. the same run index again, in a fresh process, to fetch its tapes
	w := &worker{bin: bin, prop: prop, seed: vseed, start: f.index, count: f.index + 1, stride: 1, dir: dir, id: 91}
	live.Lock()
	live.stop = false
	live.Unlock()
	_, g, _, _, err := w.run()
	if err != nil {
		return "", nil, err
	}
	if g == nil || g.class != f.class {
		return "", nil, fmt.Errorf("run %d did not fail again the same way (%v)", f.index, g)
	}
	rp := &replay{Property: prop, Seed: f.seed, VerifSeed: vseed, RunIndex: f.index, Class: f.class, Message: g.msg, Race: race}
	rp.W, rp.Pick, rp.Gap = g.view.tapes()
	rp.Params = paramsOf(f.seed)
	rp.Scenario = scenarioOf(bin, prop, f.index)
	orig := fmt.Sprintf("%d workload/fault choices, %d scheduling choices, %d preemptions", len(rp.W), len(rp.Pick), len(rp.Gap))
	if g.view.tapesOverflowed() {
		return "", nil, fmt.Errorf("tapes overflowed")
	}
	s := &server{bin: bin, dir: dir}
	defer s.stop()
	class, _, _, err := s.eval(rp)
	if err != nil {
		return "", nil, err
	}
	if class != f.class {
		return "", nil, fmt.Errorf("the recorded tape gives %q, not %q", class, f.class)
	}
	deadline := time.Now().Add(45 * time.Second)
	if f.class == wedgedClass {
		deadline = time.Now()
	}
	evals := 0
	try := func(c *replay) bool {
		if time.Now().After(deadline) || evals > 3000 {
			return false
		}
		evals++
		class, _, v, err := s.eval(c)
		if err != nil || class != f.class {
			return false
		}
		// keep what the run really consumed
		w, p, g := v.tapes()
		rp.W, rp.Pick, rp.Gap = trimZero(w), trimZero(p), trimZero(g)
		return true
	}
	clone := func() *replay { c := *rp; return &c }
	shrinkTape := func(get func(*replay) []uint32, set func(*replay, []uint32), deletable bool) {
		// truncate
		for n := 0; n < len(get(rp)); {
			c := clone()
			set(c, append([]uint32{}, get(rp)[:n]...))
			if try(c) {
				break
			}
			if n == 0 {
				n = 1
			} else {
				n *= 2
			}
		}
		for size := len(get(rp)); size >= 1; size /= 2 {
			for i := 0; i < len(get(rp)); {
				cur := get(rp)
				end := min(i+size, len(cur))
				c := clone()
				done := false
				if deletable {
					set(c, append(append([]uint32{}, cur[:i]...), cur[end:]...))
					done = try(c)
				}
				if !done {
					zero := true
					for _, v := range cur[i:end] {
						if v != 0 {
							zero = false
						}
					}
					if !zero {
						c = clone()
						z := append([]uint32{}, cur...)
						for k := i; k < end; k++ {
							z[k] = 0
						}
						set(c, z)
						try(c)
					}
					i += size
				}
				if time.Now().After(deadline) {
					return
				}
			}
		}
	}
	for pass := 0; pass < 3 && time.Now().Before(deadline); pass++ {
		before := len(rp.W) + len(rp.Pick) + len(rp.Gap) + sum(rp.W) + sum(rp.Pick)
		shrinkTape(func(r *replay) []uint32 { return r.Gap }, func(r *replay, v []uint32) { r.Gap = v }, true)
		shrinkTape(func(r *replay) []uint32 { return r.Pick }, func(r *replay, v []uint32) { r.Pick = v }, true)
		shrinkTape(func(r *replay) []uint32 { return r.W }, func(r *replay, v []uint32) { r.W = v }, true)
		// smaller values
		for i := 0; i < len(rp.W) && time.Now().Before(deadline); i++ {
			for i < len(rp.W) && rp.W[i] > 0 {
				c := clone()
				c.W = append([]uint32{}, rp.W...)
				c.W[i] /= 2
				if !try(c) {
					break
				}
			}
		}
		if len(rp.W)+len(rp.Pick)+len(rp.Gap)+sum(rp.W)+sum(rp.Pick) == before {
			break
		}
	}
	s.stop()
	// 2. replay the minimised run twice in fresh processes, with its log
	var last string
	for i := 0; i < 2; i++ {
		v := &server{bin: bin, dir: dir, verbose: true}
		class, msg, view, err := v.eval(rp)
		v.stop()
		if err != nil {
			return "", nil, err
		}
		sig := class + "\x00" + reAddr.ReplaceAllString(msg, "") + "\x00" + view.log()
		if class != f.class || (i > 0 && sig != last) {
			return "", nil, fmt.Errorf("the minimised run does not replay exactly: class %q", class)
		}
		last = sig
		rp.Message = msg
		rp.Log = strings.Split(strings.TrimSpace(view.log()), "\n")
		rp.Schedule = nil
		tr := view.trace()
		t0 := uint64(0)
		for k := 0; k+1 < len(tr) && k < 600; k += 2 {
			if k == 0 {
				t0 = tr[1]
			}
			rp.Schedule = append(rp.Schedule, fmt.Sprintf("+%v g%d%s", time.Duration(tr[k+1]-t0), tr[k]>>32, after(uint32(tr[k]))))
		}
	}
	rp.Original = orig
	rd := filepath.Join(verif, "replays")
	os.MkdirAll(rd, 0o755)
	path := filepath.Join(rd, fmt.Sprintf("%s-%d-%d.json", prop, vseed, f.index))
	b, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		return "", nil, err
	}
	return path, rp, nil
}

// saveRaw writes a failure that could not be minimised.
func saveRaw(bin, prop string, vseed uint64, f *failure, race bool) (string, *replay) {
	rp := &replay{Property: prop, Seed: f.seed, VerifSeed: vseed, RunIndex: f.index, Class: f.class, Message: f.msg, Race: race}
	rp.W, rp.Pick, rp.Gap = f.view.tapes()
	rp.Params = paramsOf(f.seed)
	rp.Scenario = scenarioOf(bin, prop, f.index)
	rp.Original = "not minimised"
	rd := filepath.Join(verif, "replays")
	os.MkdirAll(rd, 0o755)
	path := filepath.Join(rd, fmt.Sprintf("%s-%d-%d.json", prop, vseed, f.index))
	b, _ := json.MarshalIndent(rp, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path, rp
}

func after(site uint32) string {
	if site == 0 {
		return ""
	}
	return " (preempting at " + siteAt(int(site)) + ")"
}

func sum(v []uint32) int {
	n := 0
	for _, x := range v {
		n += int(x)
	}
	return n
}

func trimZero(v []uint32) []uint32 {
	for len(v) > 0 && v[len(v)-1] == 0 {
		v = v[:len(v)-1]
	}
	return v
}

func splitmix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// paramsOf and scenarioOf ask the worker binary, so that there is one definition.
func paramsOf(seed uint64) params {
	s := seed ^ 0xabcdef12345
	r := func(n uint64) uint64 { return splitmix(&s) % n }
	p := params{StepCap: 3_000_000}
	p.Strategy = uint32(r(4))
	p.MeanGap = []uint32{0, 2, 4, 8, 16, 32, 64, 128, 512, 2048}[r(10)]
	if r(3) == 0 {
		p.StallPerMil = []uint32{5, 20, 80, 200}[r(4)]
		p.StallMax = []int64{1e6, 1e8, 5e9, 60e9}[r(4)]
		p.StallBudget = uint32(1 + r(30))
	}
	p.TickNS = []int64{50, 200, 1000, 20000}[r(4)]
	return p
}

func scenarioOf(bin, prop string, idx uint64) string {
	cmd := exec.Command(bin, "-list=1")
	cmd.Env = simEnv()
	b, err := cmd.Output()
	if err != nil {
		die("list: %v", err)
	}
	m := map[string][]string{}
	json.Unmarshal(b, &m)
	if s := os.Getenv("VSIM_SCENARIO"); s != "" {
		return s
	}
	l := m[prop]
	return l[idx%uint64(len(l))]
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var rp replay
	if err := json.Unmarshal(b, &rp); err != nil {
		die("%v", err)
	}
	bin := buildSim(rp.Race)
	dir, err := os.MkdirTemp("", "vsim-replay-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	s := &server{bin: bin, dir: dir, verbose: true}
	class, msg, view, err := s.eval(&rp)
	s.stop()
	if err != nil {
		os.RemoveAll(dir)
		die("%v", err)
	}
	fmt.Print(view.log())
	if class == "" {
		fmt.Println("the run passes")
		return 0
	}
	fmt.Printf("violation class: %s\n%s\n", class, indent(msg))
	if class == rp.Class {
		fmt.Println("reproduced")
	}
	return 1
}

// determinism runs the same seeds in different processes and worker counts and
// compares schedules and event logs.
func determinism(prop string, n uint64) int {
	bin := buildSim(false)
	seed, _ := strconv.ParseUint(envOr("VERIF_SEED", "1"), 10, 64)
	dir, err := os.MkdirTemp("", "vsim-det-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	collect := func(nproc int) map[uint64]string {
		res := map[uint64]string{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		for i := 0; i < nproc; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				w := &worker{bin: bin, prop: prop, seed: seed, start: uint64(i), count: n, stride: uint64(nproc), dir: dir, id: i, verbose: true}
				for w.start < n {
					_, f, next, runs, err := w.run("-loghashes=1")
					if err != nil {
						fmt.Fprintln(os.Stderr, err)
						return
					}
					mu.Lock()
					for _, r := range runs {
						idx := uint64(r["run"].(float64))
						delete(r, "run")
						b, _ := json.Marshal(r)
						res[idx] = string(b)
					}
					if f != nil {
						res[f.index] = "fail:" + f.class
					}
					mu.Unlock()
					if next == 0 {
						return
					}
					w.start = next
				}
			}(i)
		}
		wg.Wait()
		return res
	}
	a := collect(3)
	b := collect(8)
	c := collect(5)
	bad := 0
	for i := uint64(0); i < n; i++ {
		if a[i] == "" || a[i] != b[i] || a[i] != c[i] {
			bad++
			if bad < 5 {
				fmt.Printf("run %d:\n  %s\n  %s\n  %s\n", i, a[i], b[i], c[i])
			}
		}
	}
	fmt.Printf("%s: %d runs x 3 (3, 8 and 5 processes), %d differ\n", prop, n, bad)
	if bad > 0 {
		return 1
	}
	return 0
}

// reachedStatements counts the statements of the code under test that the runs
// executed, and those of the functions' files in which they were.
func reachedStatements(seen []byte) map[string]any {
	b, err := os.ReadFile(filepath.Join(build, "sites.txt"))
	if err != nil {
		return nil
	}
	in, of, out := map[string]int{}, map[string]int{}, []string{}
	for i, site := range strings.Split(string(b), "\n") {
		file, _, ok := strings.Cut(site, ":")
		if !ok {
			continue
		}
		of[file]++
		if i/8 < len(seen) && seen[i/8]>>(i%8)&1 == 1 {
			in[file]++
			out = append(out, site)
		}
	}
	if p := os.Getenv("VSIM_COVER"); p != "" {
		os.WriteFile(p, []byte(strings.Join(out, "\n")+"\n"), 0o644)
	}
	count, total, files := 0, 0, map[string]string{}
	for f, n := range in {
		count += n
		total += of[f]
		files[f] = fmt.Sprintf("%d of %d", n, of[f])
	}
	return map[string]any{"count": count, "of": total, "per_file": files, "measure": "statements of the files under test that any run executed"}
}
