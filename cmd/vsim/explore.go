package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Exit codes of the worker.
const (
	exitViolation = 33
	exitLeak      = 34
	exitHarness   = 36
	exitLivelock  = 97
	exitRace      = 66
)

type params struct {
	Strategy    uint32 `json:"strategy"`
	MeanGap     uint32 `json:"mean_gap"`
	StallPerMil uint32 `json:"stall_per_mille"`
	StallMax    int64  `json:"stall_max_ns"`
	StallBudget uint32 `json:"stall_budget"`
	TickNS      int64  `json:"tick_ns"`
	StepCap     uint64 `json:"step_cap"`
}

type replay struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Seed     uint64   `json:"seed"`
	Params   params   `json:"params"`
	W        []uint32 `json:"w"`
	Pick     []uint32 `json:"pick"`
	Gap      []uint32 `json:"gap"`

	// What follows is for the reader.
	Class     string   `json:"class"`
	Message   string   `json:"message"`
	VerifSeed uint64   `json:"verif_seed"`
	RunIndex  uint64   `json:"run_index"`
	Original  string   `json:"original,omitempty"`
	Log       []string `json:"event_log,omitempty"`
	Schedule  []string `json:"schedule,omitempty"`
	Race      bool     `json:"race,omitempty"`
}

type agg struct {
	Runs        uint64            `json:"runs"`
	NonTrivial  uint64            `json:"nontrivial"`
	SimNS       int64             `json:"sim_ns"`
	Picks       uint64            `json:"picks"`
	Yields      uint64            `json:"yields"`
	Preempt     uint64            `json:"preemptions"`
	Switches    uint64            `json:"switches"`
	Stalls      uint64            `json:"stalls"`
	Jumps       uint64            `json:"clock_jumps"`
	Spawned     uint64            `json:"goroutines"`
	MaxRunnable uint64            `json:"max_runnable"`
	Faults      map[string]uint64 `json:"faults"`
	Probes      map[string]uint64 `json:"probes"`
	Scen        map[string]uint64 `json:"scenarios"`
	Checks      uint64            `json:"oracle_checks"`
	Sites       int               `json:"preempt_sites"`
	Seen        []byte            `json:"sites_passed"`
	Last        uint64            `json:"last"`
}

func (a *agg) add(b agg) {
	a.Runs += b.Runs
	a.NonTrivial += b.NonTrivial
	a.SimNS += b.SimNS
	a.Picks += b.Picks
	a.Yields += b.Yields
	a.Preempt += b.Preempt
	a.Switches += b.Switches
	a.Stalls += b.Stalls
	a.Jumps += b.Jumps
	a.Spawned += b.Spawned
	a.Checks += b.Checks
	if b.MaxRunnable > a.MaxRunnable {
		a.MaxRunnable = b.MaxRunnable
	}
	for i, x := range b.Seen {
		for len(a.Seen) <= i {
			a.Seen = append(a.Seen, 0)
		}
		a.Seen[i] |= x
	}
	if b.Sites > a.Sites {
		a.Sites = b.Sites
	}
	for k, v := range b.Faults {
		a.Faults[k] += v
	}
	for k, v := range b.Probes {
		a.Probes[k] += v
	}
	for k, v := range b.Scen {
		a.Scen[k] += v
	}
}

func simEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GO") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "TZ=UTC")
}

// A failure as a worker's end shows it.
type failure struct {
	class, msg string
	index      uint64
	seed       uint64
	view       *shmView
}

var (
	reNum  = regexp.MustCompile(`0x[0-9a-f]+|[0-9]+`)
	reAddr = regexp.MustCompile(`0x[0-9a-f]+|\+0x[0-9a-f]+|goroutine [0-9]+|goid=[0-9]+`)
)

// classify turns the way a worker process ended into a failure, or reports
// trouble of the harness.
func classify(code int, stderr string, view *shmView) (class, msg string, err error) {
	switch code {
	case exitViolation:
		c, m := view.msg()
		return c, m, nil
	case exitLivelock:
		i := strings.LastIndex(stderr, "SIM-LIVELOCK")
		return "livelock", "the run did not finish within its step budget: " + siteName(stderr[i:]), nil
	case exitRace:
		return classifyRace(stderr)
	case 2:
		// a panic or a fatal error: whose?
		i := strings.Index(stderr, "panic: ")
		j := strings.Index(stderr, "fatal error: ")
		if i < 0 || (j >= 0 && j < i) {
			i = j
		}
		if i < 0 {
			return "", "", fmt.Errorf("worker died: %s", tail(stderr, 2000))
		}
		head, _, _ := strings.Cut(stderr[i:], "\n")
		owner := ""
		var frames []string
		for _, l := range strings.Split(stderr[i:], "\n") {
			if strings.HasPrefix(l, "\t") || l == "" {
				continue
			}
			if strings.HasPrefix(l, "main.") {
				if owner == "" {
					owner = "harness"
				}
			}
			if strings.HasPrefix(l, "github.com/tychoish/") {
				if owner == "" {
					owner = "repo"
				}
			}
			if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "github.com/") {
				if k := strings.LastIndex(l, "("); k > 0 {
					l = l[:k]
				}
				if len(frames) < 6 {
					frames = append(frames, l)
				}
			}
		}
		if owner == "" && !strings.Contains(head, "stack overflow") && !strings.Contains(head, "out of memory") {
			return "", "", fmt.Errorf("panic without an owner: %s", tail(stderr, 4000))
		}
		// a panic in the scenario itself means that the code gave it
		// something it could not work with
		top := "the scenario: " + strings.Join(frames[:min(1, len(frames))], "")
		for _, f := range frames {
			if owner == "repo" && strings.HasPrefix(f, "github.com/tychoish/birch") {
				top = f
				break
			}
		}
		return "crash: " + reNum.ReplaceAllString(strings.TrimSpace(head), "N") + " in " + top, head + "\n  " + strings.Join(frames, "\n  "), nil
	}
	return "", "", fmt.Errorf("worker exit code %d: %s", code, tail(stderr, 3000))
}

var (
	errHarnessRace = errors.New("race in the harness")
	harnessRaces   atomic.Int64
)

func classifyRace(stderr string) (string, string, error) {
	i := strings.Index(stderr, "WARNING: DATA RACE")
	if i < 0 {
		return "", "", fmt.Errorf("worker exit code 66 without a race report: %s", tail(stderr, 2000))
	}
	txt := stderr[i:]
	if k := strings.Index(txt, "=================="); k > 0 {
		txt = txt[:k]
	}
	// the innermost repository frame of each of the two accesses
	var tops []string
	owner := true
	for _, part := range strings.Split(txt, "\n\n") {
		p := strings.TrimSpace(part)
		if !(strings.HasPrefix(p, "WARNING") || strings.HasPrefix(p, "Previous") || strings.HasPrefix(p, "Read at") || strings.HasPrefix(p, "Write at")) {
			continue
		}
		top := ""
		for _, l := range strings.Split(part, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "main.") && top == "" {
				top = l
				break
			}
			if strings.HasPrefix(l, "github.com/") {
				top = l
				break
			}
		}
		if strings.HasPrefix(top, "main.") || top == "" {
			owner = false
		}
		tops = append(tops, top)
	}
	if !owner {
		if os.Getenv("VSIM_SHOWRACE") != "" {
			fmt.Fprintln(os.Stderr, txt)
		}
		return "", "", errHarnessRace
	}
	sort.Strings(tops)
	return "data-race: " + strings.Join(tops, " / "), txt, nil
}

func siteName(s string) string {
	i := strings.Index(s, "site=")
	if i < 0 {
		return s
	}
	var n int
	fmt.Sscanf(s[i:], "site=%d", &n)
	return siteAt(n)
}

var siteTable []string

func siteAt(n int) string {
	if siteTable == nil {
		b, _ := os.ReadFile(filepath.Join(build, "sites.txt"))
		siteTable = strings.Split(string(b), "\n")
	}
	if n > 0 && n < len(siteTable) {
		return siteTable[n]
	}
	return "-"
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

const (
	wedgedClass = "wedged"
	wedgedMsg   = "one run went on for minutes of real time without passing any point of the simulator"
)

type worker struct {
	bin     string
	prop    string
	seed    uint64
	start   uint64
	count   uint64
	stride  uint64
	dir     string
	id      int
	verbose bool
}

// run runs one worker process to its end.
func (w *worker) run(extra ...string) (sum *agg, f *failure, restartAt uint64, runs []map[string]any, err error) {
	shm := filepath.Join(w.dir, fmt.Sprintf("shm.%d", w.id))
	if err := newShm(shm); err != nil {
		return nil, nil, 0, nil, err
	}
	args := []string{"-shm=" + shm, "-prop=" + w.prop, "-seed=" + strconv.FormatUint(w.seed, 10),
		"-start=" + strconv.FormatUint(w.start, 10), "-count=" + strconv.FormatUint(w.count, 10), "-stride=" + strconv.FormatUint(w.stride, 10),
		"-hashes=" + filepath.Join(w.dir, fmt.Sprintf("hashes.%d", w.id))}
	if s := os.Getenv("VSIM_SCENARIO"); s != "" {
		args = append(args, "-scenario="+s)
	}
	if w.verbose {
		args = append(args, "-verbose=1")
	}
	args = append(args, extra...)
	cmd := exec.Command(w.bin, args...)
	cmd.Env = simEnv()
	cmd.Dir = w.dir
	var stderr bytes.Buffer
	cmd.Stderr = &limitWriter{b: &stderr, n: 1 << 20}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, nil, 0, nil, err
	}
	cmd.ExtraFiles = []*os.File{pw}
	if err := cmd.Start(); err != nil {
		return nil, nil, 0, nil, err
	}
	pw.Close()
	live.add(shm, cmd)
	defer live.remove(shm)
	stopWatch := make(chan struct{})
	wedged := false
	go func() {
		lastIdx, since := uint64(1<<63), time.Now()
		for {
			select {
			case <-stopWatch:
				return
			case <-time.After(2 * time.Second):
			}
			v, err := readHead(shm, hIndex)
			if err != nil {
				continue
			}
			if v != lastIdx {
				lastIdx, since = v, time.Now()
			} else if time.Since(since) > 120*time.Second {
				wedged = true
				cmd.Process.Signal(syscall.SIGKILL)
				return
			}
		}
	}()
	sc := bufio.NewScanner(pr)
	sc.Buffer(make([]byte, 1<<20), 16<<20)
	for sc.Scan() {
		var m struct {
			Summary *agg `json:"summary"`
		}
		if json.Unmarshal(sc.Bytes(), &m) == nil && m.Summary != nil {
			sum = m.Summary
			continue
		}
		var r map[string]any
		if json.Unmarshal(sc.Bytes(), &r) == nil {
			runs = append(runs, r)
		}
	}
	pr.Close()
	werr := cmd.Wait()
	close(stopWatch)
	code := 0
	if werr != nil {
		code = cmd.ProcessState.ExitCode()
	}
	view, err := readShm(shm)
	if err != nil {
		return nil, nil, 0, nil, err
	}
	if wedged {
		return nil, &failure{wedgedClass, wedgedMsg, view.h(hIndex), view.h(hSeed), view}, view.h(hIndex) + w.stride, runs, nil
	}
	switch code {
	case 0:
		return sum, nil, 0, runs, nil
	case exitLeak:
		return sum, nil, view.h(hIndex) + w.stride, runs, nil
	case -1:
		return nil, nil, 0, nil, fmt.Errorf("worker %d killed by a signal at run %d: %s", w.id, view.h(hIndex), tail(stderr.String(), 500))
	}
	class, msg, err := classify(code, stderr.String(), view)
	if err == errHarnessRace {
		// no access by the code under test: this run says nothing
		harnessRaces.Add(1)
		return sum, nil, view.h(hIndex) + w.stride, runs, nil
	}
	if err != nil {
		return nil, nil, 0, nil, fmt.Errorf("run %d: %w", view.h(hIndex), err)
	}
	return sum, &failure{class, msg, view.h(hIndex), view.h(hSeed), view}, view.h(hIndex) + w.stride, runs, nil
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func readHead(path string, i int) (uint64, error) {
	f, err := os.Open(path)
	if err != nil {
		return 0, err
	}
	defer f.Close()
	var b [8]byte
	if _, err := f.ReadAt(b[:], int64(i*8)); err != nil {
		return 0, err
	}
	return binary.LittleEndian.Uint64(b[:]), nil
}

// live lets the orchestrator tell workers to stop after their current run.
var live = &liveSet{m: map[string]*exec.Cmd{}}

type liveSet struct {
	sync.Mutex
	m    map[string]*exec.Cmd
	stop bool
}

func (l *liveSet) add(shm string, c *exec.Cmd) {
	l.Lock()
	defer l.Unlock()
	l.m[shm] = c
	if l.stop {
		setStop(shm)
	}
}
func (l *liveSet) remove(shm string) { l.Lock(); delete(l.m, shm); l.Unlock() }
func (l *liveSet) stopAll() {
	l.Lock()
	defer l.Unlock()
	l.stop = true
	for s := range l.m {
		setStop(s)
	}
}
func setStop(path string) {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		return
	}
	defer f.Close()
	f.WriteAt([]byte{1, 0, 0, 0, 0, 0, 0, 0}, hStop*8)
}
