// Command verifsim is the simulated side of the checks: it runs the real code
// of /repo (instrumented, on the simulated runtime) under scenarios whose every
// choice comes from a seed or from a recorded tape.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Shared memory with the orchestrator, so that what a run recorded survives
// the crash of the process. Keep in step with cmd/vsim/shm.go.
const (
	shmHead  = 64 // uint64s
	shmW     = 1 << 15
	shmPick  = 1 << 17
	shmGap   = 1 << 17
	shmTrace = 1 << 13 // uint64s
	shmLog   = 1 << 18
	shmMsg   = 1 << 13
	shmSize  = shmHead*8 + shmW*4 + shmPick*4 + shmGap*4 + shmTrace*8 + shmLog + shmMsg
)

// header words
const (
	hStop = iota
	hIndex
	hSeed
	hPicks
	hGaps
	hW
	hLogLen
	hMsgLen
	hTraceLen
	hRunning
	hScenario
)

var shm struct {
	head  []uint64
	w     []uint32
	pick  []uint32
	gap   []uint32
	trace []uint64
	log   []byte
	msg   []byte
}

func mapShm(path string) error {
	fd, err := syscall.Open(path, syscall.O_RDWR, 0)
	if err != nil {
		return err
	}
	defer syscall.Close(fd)
	b, err := syscall.Mmap(fd, 0, shmSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return err
	}
	p := unsafe.Pointer(&b[0])
	off := uintptr(0)
	shm.head = unsafe.Slice((*uint64)(p), shmHead)
	off += shmHead * 8
	shm.w = unsafe.Slice((*uint32)(unsafe.Add(p, off)), shmW)
	off += shmW * 4
	shm.pick = unsafe.Slice((*uint32)(unsafe.Add(p, off)), shmPick)
	off += shmPick * 4
	shm.gap = unsafe.Slice((*uint32)(unsafe.Add(p, off)), shmGap)
	off += shmGap * 4
	shm.trace = unsafe.Slice((*uint64)(unsafe.Add(p, off)), shmTrace)
	off += shmTrace * 8
	shm.log = unsafe.Slice((*byte)(unsafe.Add(p, off)), shmLog)
	off += shmLog
	shm.msg = unsafe.Slice((*byte)(unsafe.Add(p, off)), shmMsg)
	return nil
}

// Exit codes of the worker.
const (
	exitViolation = 33
	exitLeak      = 34 // fine, but restart
	exitHang      = 35
	exitHarness   = 36
	exitDone      = 0
)

// Replay is a complete description of one run.
type Replay struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Seed     uint64   `json:"seed"`
	Params   Params   `json:"params"`
	W        []uint32 `json:"w"`
	Pick     []uint32 `json:"pick"`
	Gap      []uint32 `json:"gap"`
}

// Params are the scheduler's settings that a replay needs.
type Params struct {
	Strategy    uint32 `json:"strategy"`
	MeanGap     uint32 `json:"mean_gap"`
	StallPerMil uint32 `json:"stall_per_mille"`
	StallMax    int64  `json:"stall_max_ns"`
	StallBudget uint32 `json:"stall_budget"`
	TickNS      int64  `json:"tick_ns"`
	StepCap     uint64 `json:"step_cap"`
}

type scenario struct {
	prop   string
	name   string
	weight int
	rare   int // once in as many runs, if not zero
	run    func(*T)
}

var scenarios []scenario

func register(prop, name string, weight int, run func(*T)) {
	scenarios = append(scenarios, scenario{prop, name, weight, 0, run})
}

// registerRare adds a scenario for about one in as many runs.
func registerRare(prop, name string, every int, run func(*T)) {
	scenarios = append(scenarios, scenario{prop, name, 0, every, run})
}

// scenarioTable lists the scenarios of consecutive runs.
func scenarioTable(prop, only string) []scenario {
	var table, rare []scenario
	every := 0
	for _, s := range scenarios {
		if s.prop != prop || only != "" && s.name != only {
			continue
		}
		for i := 0; i < s.weight; i++ {
			table = append(table, s)
		}
		if s.rare > 0 {
			rare = append(rare, s)
			every = max(every, s.rare)
		}
	}
	if base := len(table); base > 0 {
		for len(table) < every {
			table = append(table, table[:base]...)
		}
	}
	return append(table, rare...)
}

func splitmix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func runSeed(base uint64, prop string, idx uint64) uint64 {
	s := base*0x9e3779b97f4a7c15 + 0x1234567
	for _, c := range prop {
		s = s*1099511628211 + uint64(c)
	}
	s += idx * 0xd1342543de82ef95
	return splitmix(&s)
}

func paramsFor(seed uint64) Params {
	s := seed ^ 0xabcdef12345
	r := func(n uint64) uint64 { return splitmix(&s) % n }
	p := Params{StepCap: 3_000_000}
	p.Strategy = uint32(r(4))
	p.MeanGap = []uint32{0, 2, 4, 8, 16, 32, 64, 128, 512, 2048}[r(10)]
	if r(3) == 0 {
		p.StallPerMil = []uint32{5, 20, 80, 200}[r(4)]
		p.StallMax = []int64{1e6, 1e8, 5e9, 60e9}[r(4)]
		p.StallBudget = uint32(1 + r(30))
	}
	p.TickNS = []int64{50, 200, 1000, 20000}[r(4)]
	return p
}

type agg struct {
	Runs        uint64            `json:"runs"`
	NonTrivial  uint64            `json:"nontrivial"`
	SimNS       int64             `json:"sim_ns"`
	Picks       uint64            `json:"picks"`
	Yields      uint64            `json:"yields"`
	Preempt     uint64            `json:"preemptions"`
	Switches    uint64            `json:"switches"`
	Stalls      uint64            `json:"stalls"`
	Jumps       uint64            `json:"clock_jumps"`
	Spawned     uint64            `json:"goroutines"`
	MaxRunnable uint64            `json:"max_runnable"`
	Faults      map[string]uint64 `json:"faults"`
	Probes      map[string]uint64 `json:"probes"`
	Scen        map[string]uint64 `json:"scenarios"`
	Checks      uint64            `json:"oracle_checks"`
	Sites       int               `json:"preempt_sites"`
	Seen        []byte            `json:"sites_passed"` // a bit set
	Last        uint64            `json:"last"`
}

var out agg

func emit(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	b = append(b, '\n')
	for len(b) > 0 {
		n, err := syscall.Write(3, b)
		if err != nil {
			os.Exit(exitHarness)
		}
		b = b[n:]
	}
}

var (
	hashFD  = -1
	hashBuf []byte
	verbose bool
)

func flushHashes() {
	if hashFD >= 0 && len(hashBuf) > 0 {
		syscall.Write(hashFD, hashBuf)
	}
	hashBuf = hashBuf[:0]
}

func finishWorker(code int) {
	flushHashes()
	var sites [1 << 14]uint32
	runtime.SimSites(sites[:])
	for _, n := range sites {
		if n > 0 {
			out.Sites++
		}
	}
	var seen [1 << 14]bool
	runtime.SimSeen(seen[:])
	for i, s := range seen {
		if s {
			for len(out.Seen) <= i/8 {
				out.Seen = append(out.Seen, 0)
			}
			out.Seen[i/8] |= 1 << (i % 8)
		}
	}
	emit(map[string]any{"summary": out})
	os.Exit(code)
}

func main() {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	debug.SetMaxStack(64 << 20)
	runtime.MemProfileRate = 0
	// a runaway allocation must end the worker, not the machine
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30})
	args := map[string]string{}
	for _, a := range os.Args[1:] {
		k, v, _ := strings.Cut(strings.TrimLeft(a, "-"), "=")
		args[k] = v
	}
	if args["list"] != "" {
		m := map[string][]string{}
		for _, s := range scenarios {
			if m[s.prop] == nil {
				for _, x := range scenarioTable(s.prop, "") {
					m[s.prop] = append(m[s.prop], x.name)
				}
			}
		}
		b, _ := json.Marshal(m)
		fmt.Println(string(b))
		return
	}
	if err := mapShm(args["shm"]); err != nil {
		fmt.Fprintln(os.Stderr, "shm:", err)
		os.Exit(exitHarness)
	}
	verbose = args["verbose"] != ""
	out.Faults = map[string]uint64{}
	out.Probes = map[string]uint64{}
	out.Scen = map[string]uint64{}
	if f := args["hashes"]; f != "" {
		fd, err := syscall.Open(f, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_APPEND, 0o644)
		if err != nil {
			os.Exit(exitHarness)
		}
		hashFD = fd
	}
	if args["serve"] != "" {
		serve()
		return
	}
	prop := args["prop"]
	num := func(k string) uint64 { v, _ := strconv.ParseUint(args[k], 10, 64); return v }
	base, start, count, stride := num("seed"), num("start"), num("count"), num("stride")
	only := args["scenario"]
	table := scenarioTable(prop, only)
	if len(table) == 0 {
		fmt.Fprintln(os.Stderr, "no scenarios for", prop)
		os.Exit(exitHarness)
	}
	if stride == 0 {
		stride = 1
	}
	logHashes := args["loghashes"] != ""
	for i := start; i < count; i += stride {
		if shm.head[hStop] != 0 {
			break
		}
		seed := runSeed(base, prop, i)
		sc := table[i%uint64(len(table))]
		rp := &Replay{Property: prop, Scenario: sc.name, Seed: seed, Params: paramsFor(seed)}
		shm.head[hIndex] = i
		shm.head[hSeed] = seed
		leaked, t := execute(sc, rp, false)
		out.Last = i
		if logHashes {
			h := uint64(14695981039346656037)
			for _, c := range shm.log[:shm.head[hLogLen]] {
				h = (h ^ uint64(c)) * 1099511628211
			}
			emit(map[string]any{"run": i, "hash": fmt.Sprintf("%x", t.stats.Hash), "log": fmt.Sprintf("%x", h), "w": shm.head[hW], "loglen": shm.head[hLogLen], "elapsed": t.stats.Elapsed, "leaked": leaked})
		}
		if leaked {
			finishWorker(exitLeak)
		}
		if out.Runs%16 == 0 {
			gcMaybe()
		}
	}
	finishWorker(exitDone)
}

func gcMaybe() {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc > 96<<20 {
		runtime.GC()
	}
}

// serve runs replay files named on stdin, one per line, and answers one line each.
func serve() {
	in := bufio.NewReader(&rawReader{0})
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			os.Exit(0)
		}
		b, err := os.ReadFile(strings.TrimSpace(line))
		if err != nil {
			os.Exit(exitHarness)
		}
		var rp Replay
		if err := json.Unmarshal(b, &rp); err != nil {
			os.Exit(exitHarness)
		}
		found := false
		for _, s := range scenarios {
			if s.prop == rp.Property && s.name == rp.Scenario {
				found = true
				leaked, t := execute(s, &rp, true)
				emit(map[string]any{"ok": true, "hash": fmt.Sprintf("%x", t.stats.Hash)})
				if leaked {
					os.Exit(exitLeak)
				}
				break
			}
		}
		if !found {
			fmt.Fprintln(os.Stderr, "unknown scenario", rp.Property, rp.Scenario)
			os.Exit(exitHarness)
		}
		gcMaybe()
	}
}

type rawReader struct{ fd int }

func (r *rawReader) Read(p []byte) (int, error) {
	n, err := syscall.Read(r.fd, p)
	if n == 0 && err == nil {
		return 0, fmt.Errorf("eof")
	}
	if err != nil {
		return 0, err
	}
	return n, nil
}

// execute performs one run. It does not return if the run fails: the process
// exits with the violation in shared memory.
func execute(sc scenario, rp *Replay, replay bool) (leaked bool, t *T) {
	h := shm.head
	h[hPicks], h[hGaps], h[hW], h[hLogLen], h[hMsgLen], h[hTraceLen] = 0, 0, 0, 0, 0, 0
	h[hRunning] = 1
	t = &T{prop: rp.Property, scen: sc.name, params: rp.Params, replay: replay, rw: rp.W, faults: map[string]uint64{}}
	ws := rp.Seed ^ 0x5eed5eed
	t.wprng = splitmix(&ws)
	p := runtime.SimParams{
		Seed: rp.Seed, Strategy: rp.Params.Strategy, MeanGap: rp.Params.MeanGap,
		StallPerMil: rp.Params.StallPerMil, StallMax: rp.Params.StallMax, StallBudget: rp.Params.StallBudget,
		TickNS: rp.Params.TickNS, StepCap: rp.Params.StepCap,
		Start:  1_700_000_000_000_000_000 + int64(rp.Seed%1000)*1_000_000_007,
		Replay: replay, ReplayPick: rp.Pick, ReplayGap: rp.Gap,
		RecPick: shm.pick, RecGap: shm.gap, RecHead: h[hPicks : hGaps+1], Trace: shm.trace,
	}
	simReset(t)
	sync.SimPoolClear()
	cur = t
	runtime.SimBegin(&p)
	t.start = time.Now()
	done := make(chan struct{})
	go func() {
		sc.run(t)
		close(done)
	}()
	watchdog := time.NewTimer(6 * time.Hour)
	select {
	case <-done:
	case <-watchdog.C:
		t.hang()
	}
	watchdog.Stop()
	// let what was told to stop, stop
	runtime.SimStallOff()
	for i := 0; i < 50 && runtime.SimLive() > 1; i++ {
		time.Sleep(time.Second)
	}
	live := runtime.SimLive() - 1
	if live > 0 && !t.leakOK {
		t.leak(int(live))
	}
	st := runtime.SimEnd()
	cur = nil
	simReset(nil)
	t.stats = st
	h[hTraceLen] = st.TraceLen
	h[hRunning] = 0
	out.Runs++
	out.Scen[sc.name]++
	out.SimNS += st.Elapsed
	out.Picks += st.Picks
	out.Yields += st.Yields
	out.Preempt += st.Preemptions
	out.Switches += st.Switches
	out.Stalls += st.Stalls
	out.Jumps += st.Jumps
	out.Spawned += st.Spawned
	out.Checks += t.checks
	if st.MaxRunnable > out.MaxRunnable {
		out.MaxRunnable = st.MaxRunnable
	}
	nf := uint64(0)
	for k, v := range t.faults {
		out.Faults[k] += v
		nf += v
	}
	for _, k := range t.probes {
		out.Probes[k]++
	}
	if t.checks > 0 && (st.Picks > 0 || nf > 0) {
		out.NonTrivial++
		if hashFD >= 0 {
			x := st.Hash ^ t.whash
			for i := 0; i < 8; i++ {
				hashBuf = append(hashBuf, byte(x>>(8*i)))
			}
			if len(hashBuf) > 1<<16 {
				flushHashes()
			}
		}
	}
	return live > 0, t
}

// T is what a scenario sees of its run.
type T struct {
	large      bool // wire messages may be large
	prop, scen string
	params     Params
	replay     bool
	rw         []uint32
	wpos       int
	wprng      uint64
	whash      uint64
	start      time.Time
	faults     map[string]uint64
	probes     []string
	checks     uint64
	leakOK     bool
	stats      runtime.SimStats
	phase      string
	uniq       uint64
}

var cur *T

// Int chooses in [0,n); 0 is the simplest choice.
func (t *T) Int(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if t.replay {
		if t.wpos < len(t.rw) {
			v = t.rw[t.wpos] % uint32(n)
		}
	} else {
		v = uint32(splitmix(&t.wprng) % uint64(n))
	}
	if t.wpos < shmW {
		shm.w[t.wpos] = v
	} else {
		t.Harness("workload tape overflow")
	}
	t.wpos++
	shm.head[hW] = uint64(t.wpos)
	t.whash = (t.whash ^ uint64(v)) * 1099511628211
	return int(v)
}

// Chance is true with probability num/den; false is the simplest.
func (t *T) Chance(num, den int) bool { return t.Int(den) >= den-num }

// Range chooses in [lo,hi].
func (t *T) Range(lo, hi int) int { return lo + t.Int(hi-lo+1) }

// U64 draws 64 bits (biased to interesting values by the caller).
func (t *T) U64() uint64 {
	return uint64(t.Int(1<<31-1))<<33 ^ uint64(t.Int(1<<31-1))<<10 ^ uint64(t.Int(1<<10))
}

func (t *T) Fault(kind string) {
	t.faults[kind]++
	t.Log("fault: %s", kind)
}

// Probe records that a rare condition was reached.
func (t *T) Probe(name string) {
	for _, p := range t.probes {
		if p == name {
			return
		}
	}
	t.probes = append(t.probes, name)
}

// Check counts one evaluation of an oracle.
func (t *T) Check() { t.checks++ }

func (t *T) Log(format string, args ...any) {
	if !verbose {
		return
	}
	raceOff()
	r := runtime.SimRand()
	defer func() {
		runtime.SimSetRand(r)
		raceOn()
	}()
	s := fmt.Sprintf("[%12v g%d] ", time.Since(t.start), runtime.SimID()) + fmt.Sprintf(format, args...) + "\n"
	n := copy(shm.log[shm.head[hLogLen]:], s)
	shm.head[hLogLen] += uint64(n)
}

func (t *T) stop(code int, class, msg string) {
	s := class + "\n" + msg
	n := copy(shm.msg, s)
	shm.head[hMsgLen] = uint64(n)
	os.Exit(code)
}

// Fail reports a violation. The class says what kind of violation it is, and
// is what minimisation preserves.
func (t *T) Fail(class, format string, args ...any) {
	t.Log("VIOLATION %s: "+format, append([]any{class}, args...)...)
	t.stop(exitViolation, t.scen+"/"+class, fmt.Sprintf(format, args...))
}

// Harness reports trouble of the harness itself.
func (t *T) Harness(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", args...)
	os.Exit(exitHarness)
}

func (t *T) hang() {
	buf := make([]byte, 1<<16)
	n := runtime.Stack(buf, true)
	t.stop(exitViolation, t.scen+"/hang", "the run made no progress: phase "+t.phase+"\n"+trimStacks(string(buf[:n])))
}

func (t *T) leak(n int) {
	buf := make([]byte, 1<<16)
	m := runtime.Stack(buf, true)
	t.stop(exitViolation, t.scen+"/goroutine-leak", fmt.Sprintf("%d goroutines outlived the operation\n%s", n, trimStacks(string(buf[:m]))))
}

func trimStacks(s string) string {
	var keep []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "tychoish/birch") {
			lines := strings.Split(g, "\n")
			var fn []string
			for i, l := range lines {
				if i == 0 {
					if j := strings.Index(l, "["); j >= 0 {
						fn = append(fn, l[j:])
					}
					continue
				}
				if !strings.HasPrefix(l, "\t") {
					if j := strings.LastIndex(l, "("); j > 0 {
						l = l[:j]
					}
					fn = append(fn, l)
				}
			}
			keep = append(keep, strings.Join(fn, " < "))
		}
	}
	sort.Strings(keep)
	return strings.Join(keep, "\n")
}

// slack is the longest that injected stalls can hold up a run.
func (t *T) slack() time.Duration {
	return time.Duration(t.params.StallBudget) * time.Duration(t.params.StallMax)
}

// Yield is a preemption point inside a harness component.
func Yield() { runtime.SimYield(0) }

// seq is the run's logical clock for histories.
func (t *T) seq() int64 { t.uniq++; return int64(t.uniq) }

func simReset(t *T) {
	for _, f := range resetHooks {
		f(t)
	}
}

var resetHooks []func(*T)
