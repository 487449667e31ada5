// Deterministic-simulation support, added to package runtime through
// "go build -overlay" (see cmd/vsim/overlay.go for the edits to the
// installed runtime's own files).  The build always uses GOMAXPROCS=1,
// the faketime tag, no sysmon and no asynchronous preemption, so the
// goroutine to run next, the clock, select order and runtime randomness
// are all decided here, from a seed or from a recorded tape.

package runtime

import "unsafe"

// SimParams configures one simulated run.
type SimParams struct {
	Seed uint64

	Strategy    uint32 // 0 uniform, 1 priorities (PCT), 2 sticky/LIFO, 3 FIFO
	MeanGap     uint32 // mean number of yields between preemptions, 0: never preempt
	StallPerMil uint32 // chance, per pick, that everything runnable stalls until the next timer
	StallMax    int64  // longest single stall, ns
	StallBudget uint32 // most stalls per run
	TickNS      int64  // simulated time a scheduling step takes
	StepCap     uint64 // yields+picks after which the run is called a livelock
	Start       int64  // initial clock, ns since 1970

	Replay     bool
	ReplayPick []uint32
	ReplayGap  []uint32

	RecPick []uint32 // buffers the choices are recorded to
	RecGap  []uint32
	RecHead []uint64 // [0] picks recorded, [1] gaps recorded
	Trace   []uint64 // context switches: simID<<32|site, time
}

// SimStats describes one finished run.
type SimStats struct {
	Picks, Gaps uint64
	Yields      uint64
	Switches    uint64
	Preemptions uint64
	Stalls      uint64
	Jumps       uint64
	Spawned     uint64
	Live        int64
	Hash        uint64
	Elapsed     int64
	TraceLen    uint64
	PickOver    bool
	MaxRunnable uint64
}

const simQMax = 8192

var (
	simActive    bool
	simEpochCur  uint32
	simP         SimParams
	simS         SimStats
	simQ         [simQMax]guintptr
	simQLen      int
	simCountdown int64
	simPRNG      uint64 // schedule choices
	simPRNGRand  uint64 // runtime rand (maps, math/rand)
	simPRNGCheap uint64
	simPRNGSel   uint64 // select order
	simNextID    uint32
	simPickPos   int
	simGapPos    int
	simNoStall   int32
	simLastSite  uint32
	simLastID    uint32
	simPrioLow   uint64
	simSiteHits  [1 << 14]uint32
	simSiteSeen  [1 << 14]bool
	simMapMode   bool
)

//go:nosplit
func simMix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SimBegin starts a run; the calling goroutine becomes its first goroutine.
func SimBegin(p *SimParams) {
	if simActive {
		throw("SimBegin: already active")
	}
	if gomaxprocs != 1 {
		throw("SimBegin: GOMAXPROCS must be 1")
	}
	if poolcleanup != nil {
		// empty sync.Pools: what is in them must not depend on earlier runs
		mp := acquirem()
		poolcleanup()
		poolcleanup()
		releasem(mp)
	}
	simP = *p
	simS = SimStats{}
	s := p.Seed
	simPRNG = simMix(&s)
	simPRNGRand = simMix(&s)
	simPRNGCheap = simMix(&s)
	simPRNGSel = simMix(&s)
	simNextID = 1
	simPickPos, simGapPos = 0, 0
	simQLen = 0
	simNoStall = 0
	simLastSite, simLastID = 0, 0
	simPrioLow = 1 << 32
	simEpochCur++
	if simEpochCur == 0 {
		simEpochCur = 1
	}
	gp := getg()
	gp.simEpoch = simEpochCur
	gp.simID = simNextID
	simNextID++
	gp.simPrio = simMix(&simPRNG) | 1<<33
	simS.Live = 1
	faketime = p.Start
	simCountdown = simNextGap()
	simS.Hash = 14695981039346656037
	simActive = true
}

// SimEnd finishes the run. Goroutines of the run that are still alive never
// run again, and its timers never fire.
func SimEnd() SimStats {
	gp := getg()
	if !simActive || gp.simEpoch != simEpochCur {
		throw("SimEnd: not in a simulated run")
	}
	gp.simEpoch = 0
	simS.Live--
	simActive = false
	simS.Elapsed = faketime - simP.Start
	systemstack(func() {
		pp := getg().m.p.ptr()
		// drop what is runnable and stale
		simDrain(pp)
		for i := 0; i < simQLen; i++ {
			g := simQ[i].ptr()
			if g.simEpoch == 0 {
				runqput(pp, g, false)
			}
		}
		simQLen = 0
	})
	simStopTimers()
	st := simS
	st.Picks, st.Gaps = uint64(simPickPos), uint64(simGapPos)
	simP.ReplayPick, simP.ReplayGap, simP.RecPick, simP.RecGap, simP.RecHead, simP.Trace = nil, nil, nil, nil, nil, nil
	return st
}

func simStopTimers() {
	ts := &getg().m.p.ptr().timers
	var buf [256]*timer
	for {
		n := 0
		ts.lock()
		for _, tw := range ts.heap {
			if tw.timer.simEpoch != 0 && tw.timer.when != 0 && n < len(buf) {
				buf[n] = tw.timer
				n++
			}
		}
		ts.unlock()
		for i := 0; i < n; i++ {
			buf[i].stop()
		}
		if n < len(buf) {
			break
		}
	}
	systemstack(func() {
		ts.lock()
		ts.adjust(0, true)
		ts.unlock()
	})
}

// SimLive is the number of goroutines of the current run that have not exited,
// the caller included.
func SimLive() int64 { return simS.Live }

// SimSteps is a logical clock: yields and picks so far.
func SimSteps() uint64 { return simS.Yields + uint64(simPickPos) }

// SimOn reports whether the calling goroutine is simulated.
func SimOn() bool { return simActive && getg().simEpoch == simEpochCur }

// SimID is the calling goroutine's number within the run.
func SimID() uint32 { return getg().simID }

// SimStallOff / SimStallOn bracket a phase without stalls (they nest).
func SimStallOff() { simNoStall++ }
func SimStallOn()  { simNoStall-- }

// SimAdvance moves the clock forward without running anything (a slow node).
func SimAdvance(ns int64) {
	if SimOn() && ns > 0 {
		faketime += ns
	}
}

// SimSetWall is not provided: Go's wall and monotonic clocks are the same
// counter under faketime.

// SimSites copies how often each yield site was a preemption point.
func SimSites(dst []uint32) int { return copy(dst, simSiteHits[:]) }

// SimSeen copies which yield sites were passed.
func SimSeen(dst []bool) int { return copy(dst, simSiteSeen[:]) }

// SimYield is a possible preemption point.
func SimYield(site uint32) {
	if !simActive {
		return
	}
	gp := getg()
	if gp.simEpoch != simEpochCur {
		return
	}
	simS.Yields++
	simSiteSeen[site%uint32(len(simSiteSeen))] = true
	simCountdown--
	if simCountdown > 0 {
		return
	}
	simYieldSlow(gp, site)
}

func simYieldSlow(gp *g, site uint32) {
	if simS.Yields+uint64(simPickPos) > simP.StepCap {
		simLivelock(site)
	}
	simCountdown = simNextGap()
	if simCountdown > simGapNever/2 && simS.Preemptions >= 0 && simQLen == 0 {
		// still preempt now: the gap just drawn is the next one
	}
	simS.Preemptions++
	simLastSite = site
	if int(site) < len(simSiteHits) {
		simSiteHits[site]++
	}
	if simP.Strategy == 1 {
		simPrioLow--
		gp.simPrio = simPrioLow
	}
	mcall(gosched_m)
}

var simLivelockMsg = []byte("\nSIM-LIVELOCK step cap reached\n")

func simLivelock(site uint32) {
	print("\nSIM-LIVELOCK steps=", simS.Yields, " site=", site, "\n")
	exit(97)
}

const simGapNever = 1 << 40

func simNextGap() int64 {
	var v uint32
	if simP.Replay {
		if simGapPos < len(simP.ReplayGap) {
			v = simP.ReplayGap[simGapPos]
		}
	} else if simP.MeanGap > 0 {
		r := simMix(&simPRNG)
		v = 1 + uint32(r%uint64(2*simP.MeanGap))
		if r>>60 == 0 { // now and then preempt at once, twice in a row
			v = 1
		}
	}
	if simGapPos < len(simP.RecGap) {
		simP.RecGap[simGapPos] = v
	}
	simGapPos++
	if len(simP.RecHead) > 1 {
		simP.RecHead[1] = uint64(simGapPos)
	}
	if v == 0 {
		// No more preemptions, but keep coming back for the step cap.
		return 1 << 20
	}
	return int64(v)
}

// simChoose picks one of n options; option 0 is the plainest.
func simChoose(n uint32, gen uint32) uint32 {
	var v uint32
	if simP.Replay {
		if simPickPos < len(simP.ReplayPick) {
			v = simP.ReplayPick[simPickPos] % n
		}
	} else {
		v = gen
	}
	if simPickPos < len(simP.RecPick) {
		simP.RecPick[simPickPos] = v
	} else {
		simS.PickOver = true
	}
	simPickPos++
	if len(simP.RecHead) > 0 {
		simP.RecHead[0] = uint64(simPickPos)
	}
	return v
}

func simDrain(pp *p) {
	for {
		gp, _ := runqget(pp)
		if gp == nil {
			break
		}
		simPush(gp)
	}
	if sched.runqsize != 0 {
		lock(&sched.lock)
		for {
			gp := sched.runq.pop()
			if gp == nil {
				break
			}
			sched.runqsize--
			simPush(gp)
		}
		unlock(&sched.lock)
	}
}

func simPush(gp *g) {
	if simQLen >= simQMax {
		throw("simQ overflow")
	}
	simQ[simQLen].set(gp)
	simQLen++
}

func simRemove(i int) *g {
	gp := simQ[i].ptr()
	copy(simQ[i:simQLen-1], simQ[i+1:simQLen])
	simQLen--
	return gp
}

// simFind is called by findRunnable (with a P, on g0). again: look again, the
// clock moved.
func simFind(pp *p, pollUntil int64) (gp *g, again bool) {
	simDrain(pp)
	for i := 0; i < simQLen; {
		g := simQ[i].ptr()
		switch {
		case g.simEpoch == 0: // the runtime's own
			return simRemove(i), false
		case g.simEpoch != simEpochCur:
			simRemove(i)
		default:
			i++
		}
	}
	n := simQLen
	if n == 0 {
		if pollUntil != 0 {
			if pollUntil > faketime {
				faketime = pollUntil
				simS.Jumps++
			}
			return nil, true
		}
		return nil, false
	}
	if uint64(n) > simS.MaxRunnable {
		simS.MaxRunnable = uint64(n)
	}
	faketime += simP.TickNS
	opts := uint32(n)
	stall := false
	if simP.StallPerMil > 0 && simNoStall == 0 && simS.Stalls < uint64(simP.StallBudget) &&
		pollUntil > faketime && pollUntil-faketime <= simP.StallMax {
		stall = true
		opts++
	}
	var idx uint32
	if opts > 1 {
		var gen uint32
		if !simP.Replay {
			gen = simGenerate(n, stall)
		}
		idx = simChoose(opts, gen)
	}
	if simS.Yields+uint64(simPickPos) > simP.StepCap {
		simLivelock(0)
	}
	if stall && idx == opts-1 {
		faketime = pollUntil
		simS.Stalls++
		simHash(uint64(idx), uint64(opts), 0)
		return nil, true
	}
	gp = simRemove(int(idx))
	if gp.simID != simLastID {
		simS.Switches++
		if t := simP.Trace; simS.TraceLen+2 <= uint64(len(t)) {
			t[simS.TraceLen] = uint64(gp.simID)<<32 | uint64(simLastSite)
			t[simS.TraceLen+1] = uint64(faketime)
			simS.TraceLen += 2
		}
		simLastID = gp.simID
		simHash(uint64(gp.simID), uint64(opts), uint64(simLastSite))
	}
	simLastSite = 0
	return gp, false
}

func simHash(a, b, c uint64) {
	h := simS.Hash
	h = (h ^ a) * 1099511628211
	h = (h ^ b) * 1099511628211
	h = (h ^ c) * 1099511628211
	h = (h ^ simS.Yields) * 1099511628211
	simS.Hash = h
}

func simGenerate(n int, stall bool) uint32 {
	r := simMix(&simPRNG)
	if stall && uint32(r%1000) < simP.StallPerMil {
		return uint32(n)
	}
	r >>= 16
	switch simP.Strategy {
	case 1:
		best := 0
		for i := 1; i < n; i++ {
			if simQ[i].ptr().simPrio > simQ[best].ptr().simPrio {
				best = i
			}
		}
		return uint32(best)
	case 2:
		if r&7 != 0 {
			return uint32(n - 1)
		}
		r >>= 3
	case 3:
		if r&7 != 0 {
			return 0
		}
		r >>= 3
	}
	return uint32(r % uint64(n))
}

// simNewG is called by newproc1 for every new goroutine.
func simNewG(newg, callergp *g) {
	newg.simEpoch = 0
	if !simActive || isSystemGoroutine(newg, false) {
		return
	}
	e := callergp.simEpoch
	if callergp == callergp.m.g0 {
		e = simEpochCur // a timer's function
	}
	if e != simEpochCur {
		newg.simEpoch = e
		return
	}
	newg.simEpoch = e
	newg.simID = simNextID
	simNextID++
	newg.simPrio = simMix(&simPRNG) | 1<<33
	simS.Live++
	simS.Spawned++
}

// simGone is called by gdestroy.
func simGone(gp *g) {
	if simActive && gp.simEpoch == simEpochCur {
		simS.Live--
	}
	gp.simEpoch = 0
}

// simTimerTag is called when a timer is armed.
func simTimerTag(t *timer) {
	gp := getg()
	if gp.m != nil && gp == gp.m.g0 {
		if simActive {
			if gp.m.curg != nil {
				t.simEpoch = gp.m.curg.simEpoch
			}
		}
		return
	}
	t.simEpoch = gp.simEpoch
}

//go:nosplit
func simRandOn() bool {
	if !simActive {
		return false
	}
	gp := getg()
	return gp.simEpoch == simEpochCur
}

func simSelectRand(n uint32) uint32 {
	if simRandOn() {
		return uint32((uint64(uint32(simMix(&simPRNGSel))) * uint64(n)) >> 32)
	}
	return cheaprandn(n)
}

var _ unsafe.Pointer

// ---- statistics that differ from run to run are replaced on request.

var simFakeStats bool
var simStatsCalls uint64

// SimFakeStats makes the runtime's statistics a function of how often they
// were asked for.
func SimFakeStats(on bool) { simFakeStats, simStatsCalls = on, 0 }

func simStats(m *MemStats) bool {
	if !simFakeStats {
		return false
	}
	simStatsCalls++
	n := simStatsCalls
	*m = MemStats{Alloc: 1<<20 + n*4096, TotalAlloc: 1<<20 + n*8192, Sys: 8 << 20, Lookups: n, Mallocs: 1000 + 17*n, Frees: 900 + 13*n,
		HeapAlloc: 1<<20 + n*4096, HeapSys: 4 << 20, HeapIdle: 1 << 20, HeapInuse: 3 << 20, HeapObjects: 100 + 4*n, NumGC: uint32(n / 10)}
	if m.NumGC > 0 {
		m.LastGC = 15e17 + uint64(m.NumGC)*1e9
	}
	for k := m.NumGC; k > 0 && k+256 > m.NumGC; k-- {
		m.PauseNs[(k+255)%256] = 1000 + uint64(k)
	}
	return true
}

// SimAllowSteps raises the step budget of the current run.
func SimAllowSteps(n uint64) { simP.StepCap += n }

// SimHold suspends preemption for as many statements.
func SimHold(n int64) { simCountdown = n }

// The text of the harness (package main), for the race detector.
var simHarnessLo, simHarnessLen uintptr

// SimRaceIgnore adds n to what hides the memory accesses of the current
// goroutine from the race detector while it is 64 or more.
func SimRaceIgnore(n int8) { getg().raceignore += n }

// SimRand reports the state of the runtime's random numbers, and SimSetRand
// puts it back: looking at a run does not change it.
func SimRand() [3]uint64     { return [3]uint64{simPRNGRand, simPRNGCheap, simPRNGSel} }
func SimSetRand(s [3]uint64) { simPRNGRand, simPRNGCheap, simPRNGSel = s[0], s[1], s[2] }

// SimHarness finds the text of package main.
func SimHarness() {
	var lo, hi uintptr
	for md := &firstmoduledata; md != nil; md = md.next {
		for i := 0; i+1 < len(md.ftab); i++ {
			e := md.textAddr(md.ftab[i].entryoff)
			f := findfunc(e)
			if !f.valid() {
				continue
			}
			if n := funcname(f); len(n) > 5 && n[:5] == "main." {
				if lo == 0 || e < lo {
					lo = e
				}
				if end := md.textAddr(md.ftab[i+1].entryoff); end > hi {
					hi = end
				}
			}
		}
	}
	simHarnessLo, simHarnessLen = lo, hi-lo
}
