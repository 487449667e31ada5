package main

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/tychoish/birch/x/ftdc/events"
)

func init() {
	register("C11", "counts", 24, func(t *T) { c11(t, rInterval) })
	register("C11", "histograms", 1, func(t *T) { c11(t, rIntervalHistogram) })
	register("C12", "serialised", 3, c12)
	register("C12", "shim", 1, c12shim)
}

// gaugeLog says which values a gauge can have had at an instant.
type gaugeLog struct {
	v          []int64
	start, end []int64
}

func (g *gaugeLog) begin(t *T, v int64) int {
	g.v, g.start, g.end = append(g.v, v), append(g.start, t.seq()), append(g.end, 1<<62)
	return len(g.v) - 1
}
func (g *gaugeLog) finish(t *T, i int) { g.end[i] = t.seq() }

func (g *gaugeLog) possible(v, at int64) bool {
	ok := func(start, end int64) bool {
		if start >= at {
			return false
		}
		for j := range g.v {
			if g.start[j] > end && g.end[j] < at {
				return false // overwritten
			}
		}
		return true
	}
	if v == 0 && ok(0, 0) {
		return true
	}
	for i := range g.v {
		if g.v[i] == v && ok(g.start[i], g.end[i]) {
			return true
		}
	}
	return false
}

type c11end struct {
	start, end int64
	err        error
	reset      bool
}

func c11(t *T, kind recKind) {
	sink := &performanceSink{stubCollector: stubCollector{t: t, delay: true, strict: true}}
	if t.Chance(1, 3) {
		sink.rate = 1 + t.Int(16)
	}
	hdr := kind.hdr()
	iv := []time.Duration{50 * time.Microsecond, time.Millisecond, 10 * time.Millisecond, time.Second, time.Minute}[t.Int(5)]
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var r events.Recorder
	if hdr {
		// every point takes 30 MB
		iv = max(iv, 40*time.Millisecond, 2*time.Duration(t.params.StallMax))
		r = events.NewIntervalHistogramRecorder(ctx, sink, iv)
	} else {
		if t.slack() > 10*time.Second {
			iv = max(iv, t.slack()/5000)
		}
		r = events.NewIntervalRecorder(ctx, sink, iv)
	}
	var (
		want, wantN [nMetrics]int64
		maxTotal    int64
		itLo, itHi  int64 // the time iterations of a single caller took
		open        bool
		beginLo     time.Time
		beginHi     time.Time
		ends        []c11end
		state       gaugeLog
		workers     gaugeLog
		resets      bool
		cancelled   bool
		userTime    bool
		begun       = time.Now()
		active      = false
	)
	add := func(m int, v int64) { want[m] += v; wantN[m]++ }
	value := func() int64 {
		if hdr {
			return int64(t.Int(9))
		}
		return int64(t.Int(1000))
	}
	duration := func() time.Duration {
		if hdr {
			return time.Duration(t.Int(9) * histDurUnit)
		}
		return time.Duration(t.Int(1 << 30))
	}
	allowReset := t.Chance(1, 3)
	endTest := func() {
		e := c11end{start: t.seq()}
		t.Log("EndTest")
		e.err = r.EndTest()
		t.Log("EndTest done")
		e.end = t.seq()
		ends = append(ends, e)
		active, open = false, false
		t.Probe("ended")
	}
	rounds := 1 + t.Int(2)
	for round := 0; round < rounds; round++ {
		var wg sync.WaitGroup
		callers := 1 + t.Int(3)
		alone := callers == 1
		open = false
		for g := 0; g < callers; g++ {
			wg.Add(1)
			n := 1 + t.Int(10)
			if hdr {
				n = 1 + t.Int(5)
			}
			g := g
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					if t.Chance(1, 3) {
						time.Sleep(spacing(t, min(iv, 3*time.Second)))
					}
					switch t.Int(16) {
					case 0, 1, 2:
						t.Log("BeginIteration")
						active = true
						lo := time.Now()
						r.BeginIteration()
						open, beginLo, beginHi = true, lo, time.Now()
					case 3, 4, 5:
						d := duration()
						add(mNumber, 1)
						add(mDur, int64(d))
						wantN[mTotal]++ // at most
						if !alone {
							maxTotal++
						}
						t.Log("EndIteration(%v)", d)
						lo := time.Now()
						r.EndIteration(d)
						if alone && open {
							itLo += int64(lo.Sub(beginHi))
							itHi += int64(time.Since(beginLo))
							t.Probe("iteration-time")
						}
						open = false
					case 6:
						v := value()
						add(mNumber, v)
						r.IncIterations(v)
					case 7:
						v := value()
						add(mOps, v)
						r.IncOperations(v)
					case 8:
						v := value()
						add(mSize, v)
						r.IncSize(v)
					case 9:
						v := value()
						add(mErrors, v)
						r.IncError(v)
					case 10:
						d := duration()
						add(mDur, int64(d))
						r.SetDuration(d)
					case 11:
						d := duration()
						add(mTotal, int64(d))
						r.SetTotalDuration(d)
					case 12:
						v := t.seq()
						if t.Chance(1, 2) {
							k := state.begin(t, v)
							r.SetState(v)
							state.finish(t, k)
						} else {
							k := workers.begin(t, v)
							r.SetWorkers(v)
							workers.finish(t, k)
						}
					case 13:
						switch t.Int(3) {
						case 0:
							r.SetID(int64(t.Int(5)))
						case 1:
							r.SetFailed(t.Chance(1, 2))
						case 2:
							userTime = true
							r.SetTime(time.Unix(int64(1+t.Int(1_000_000_000)), 0))
						}
					case 14:
						if g == 0 || t.Chance(1, 3) {
							endTest()
						}
					case 15:
						switch {
						case allowReset && t.Chance(1, 2):
							resets = true
							e := c11end{start: t.seq(), reset: true}
							t.Log("Reset")
							r.Reset()
							e.end = t.seq()
							ends = append(ends, e)
							active, open = false, false
							t.Probe("reset")
						case t.Chance(1, 4):
							t.Fault("cancel")
							cancelled = true
							cancel()
						}
					}
				}
			}()
		}
		t.phase = "recording"
		wg.Wait()
		if !cancelled && t.Chance(1, 3) && len(ends) < 8 {
			// while a test is on, points keep coming
			r.BeginIteration()
			seen := len(sink.points)
			limit := 2*iv + t.slack() + time.Second
			for waited, step := time.Duration(0), iv; len(sink.points) == seen; step *= 2 {
				if waited > limit {
					t.Check()
					t.Fail("no-points", "no point was persisted for %v while a test was on (interval %v)", waited, iv)
				}
				time.Sleep(step)
				waited += step
			}
			t.Probe("ticked")
		}
		t.phase = "ending"
		endTest()
	}
	if !cancelled && !t.Chance(1, 2) {
		cancelled = true
		cancel()
	}
	_ = active
	t.Check()
	var sumV, sumN [nMetrics]int64
	for _, p := range sink.points {
		for i := range sumV {
			sumV[i] += p.vals[i]
			sumN[i] += p.n[i]
		}
		if !state.possible(p.gauges.State, p.seq) || !workers.possible(p.gauges.Workers, p.seq) {
			t.Fail("gauges", "a point was persisted with gauges %+v, which were not current", p.gauges)
		}
		if p.ts.IsZero() || (!userTime && (p.ts.Before(begun) || p.ts.After(p.at))) {
			t.Fail("timestamp", "a point persisted at %v has the timestamp %v", p.at, p.ts)
		}
	}
	if len(sink.points) > 0 {
		t.Probe("points")
	}
	elapsed := int64(time.Since(begun))
	for i := range sumV {
		lo, hi := want[i], want[i]
		if i == mTotal && !hdr {
			lo, hi = lo+itLo, hi+itHi
		}
		if resets {
			lo = 0
		}
		if i == mTotal && !hdr {
			hi += elapsed * maxTotal
		}
		if i != mTotal || !hdr {
			if sumV[i] < lo {
				t.Fail("lost", "the points hold %d of %s in total, %d was recorded", sumV[i], metricNames[i], lo)
			}
			if sumV[i] > hi {
				t.Fail("double-counted", "the points hold %d of %s in total, %d was recorded", sumV[i], metricNames[i], hi)
			}
		}
		if hdr && i != mTotal && (sumN[i] > wantN[i] || (!resets && sumN[i] < wantN[i])) {
			t.Fail("lost", "the points hold %d values of %s, %d were recorded", sumN[i], metricNames[i], wantN[i])
		}
	}
	// every error of the collector is reported by exactly one EndTest, and
	// by the first that can
	for _, p := range sink.points {
		if p.err == nil {
			continue
		}
		t.Check()
		var by *c11end
		dropped := false
		for i := range ends {
			e := &ends[i]
			if e.reset && e.end > p.seq {
				dropped = true
			}
			if e.err != nil && errors.Is(e.err, p.err) {
				if by != nil {
					t.Fail("error-repeated", "%v was reported by two calls of EndTest", p.err)
				}
				by = e
			}
		}
		if by == nil {
			if !dropped {
				t.Fail("error-lost", "%v was not reported by EndTest", p.err)
			}
			continue
		}
		t.Probe("errors-reported")
		for _, e := range ends {
			if e.start > p.seq && e.end < by.start {
				t.Fail("error-late", "%v was not reported by the first EndTest after it", p.err)
			}
		}
	}
	for _, e := range ends {
		if e.err != nil && len(sink.errs) == 0 && (!hdr || elapsed < int64(time.Minute)) {
			t.Fail("stale-error", "EndTest: %v", e.err)
		}
	}
}

// ---- C12

type recCall struct {
	name string
	arg  int64
	g    int
}

// stubRecorder records the calls it gets.
type stubRecorder struct {
	t     *T
	busy  bool
	calls []recCall
	err   func() error
	inner events.Recorder
}

func (r *stubRecorder) call(name string, arg int64) {
	if r.busy {
		r.t.Fail("not-exclusive", "%s was called while another call was in progress", name)
	}
	r.busy = true
	Yield()
	if r.t.Chance(1, 12) {
		time.Sleep(time.Duration(r.t.Int(1000)))
	}
	r.calls = append(r.calls, recCall{name: name, arg: arg})
	Yield()
	r.busy = false
}
func (r *stubRecorder) IncIterations(v int64) { r.call("IncIterations", v) }
func (r *stubRecorder) IncOperations(v int64) { r.call("IncOperations", v) }
func (r *stubRecorder) IncError(v int64)      { r.call("IncError", v) }
func (r *stubRecorder) IncSize(v int64)       { r.call("IncSize", v) }
func (r *stubRecorder) SetWorkers(v int64)    { r.call("SetWorkers", v) }
func (r *stubRecorder) SetState(v int64)      { r.call("SetState", v) }
func (r *stubRecorder) SetFailed(v bool) {
	var n int64
	if v {
		n = 1
	}
	r.call("SetFailed", n)
}
func (r *stubRecorder) BeginIteration()                  { r.call("BeginIteration", 0) }
func (r *stubRecorder) EndIteration(d time.Duration)     { r.call("EndIteration", int64(d)) }
func (r *stubRecorder) Reset()                           { r.call("Reset", 0) }
func (r *stubRecorder) SetID(v int64)                    { r.call("SetID", v) }
func (r *stubRecorder) SetTime(v time.Time)              { r.call("SetTime", v.UnixNano()) }
func (r *stubRecorder) SetTotalDuration(d time.Duration) { r.call("SetTotalDuration", int64(d)) }
func (r *stubRecorder) SetDuration(d time.Duration)      { r.call("SetDuration", int64(d)) }

type endTestError int

func (e endTestError) Error() string { return "sim: EndTest failed" }

func (r *stubRecorder) EndTest() error {
	r.call("EndTest", 0)
	if n := len(r.calls); n%2 == 0 {
		return endTestError(n)
	}
	return nil
}

// doCall makes one random call and says which.
func doCall(t *T, r events.Recorder, v int64) (name string, arg int64, err error) {
	arg = v
	switch t.Int(15) {
	case 0:
		name = "IncIterations"
		r.IncIterations(v)
	case 1:
		name = "IncOperations"
		r.IncOperations(v)
	case 2:
		name = "IncError"
		r.IncError(v)
	case 3:
		name = "IncSize"
		r.IncSize(v)
	case 4:
		name = "SetWorkers"
		r.SetWorkers(v)
	case 5:
		name = "SetState"
		r.SetState(v)
	case 6:
		name, arg = "SetFailed", v%2
		r.SetFailed(v%2 == 1)
	case 7:
		name, arg = "BeginIteration", 0
		r.BeginIteration()
	case 8:
		name = "EndIteration"
		r.EndIteration(time.Duration(v))
	case 9:
		name, arg = "Reset", 0
		r.Reset()
	case 10:
		name = "SetID"
		r.SetID(v)
	case 11:
		name = "SetTime"
		r.SetTime(time.Unix(0, v))
	case 12:
		name = "SetTotalDuration"
		r.SetTotalDuration(time.Duration(v))
	case 13:
		name = "SetDuration"
		r.SetDuration(time.Duration(v))
	case 14:
		name, arg = "EndTest", 0
		err = r.EndTest()
	}
	return
}

func c12(t *T) {
	inner := &stubRecorder{t: t}
	r := events.NewSynchronizedRecorder(inner)
	type made struct {
		recCall
		start, end int64
		err        error
	}
	callers := 2 + t.Int(3)
	all := make([][]made, callers)
	var wg sync.WaitGroup
	for g := range all {
		n := 1 + t.Int(6)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				m := made{start: t.seq()}
				// the argument says who called
				m.name, m.arg, m.err = doCall(t, r, int64(2*(g*100+i)+1+t.Int(2)))
				m.end = t.seq()
				all[g] = append(all[g], m)
			}
		}()
	}
	t.phase = "calling"
	wg.Wait()
	t.Check()
	// each caller's calls are a subsequence of what the recorder saw, and
	// together they are all of it
	total := 0
	pending := map[recCall]int{}
	for _, c := range inner.calls {
		pending[c]++
	}
	for g := range all {
		pos := 0
		total += len(all[g])
		for _, m := range all[g] {
			c := recCall{name: m.name, arg: m.arg}
			for pos < len(inner.calls) && inner.calls[pos] != c {
				pos++
			}
			if pos == len(inner.calls) {
				t.Fail("lost", "the call %s(%d) did not reach the recorder in order: %v", m.name, m.arg, inner.calls)
			}
			pos++
			pending[c]--
			if pending[c] < 0 {
				t.Fail("lost", "calls of %s(%d) reached the recorder too rarely", m.name, m.arg)
			}
			if e, ok := m.err.(endTestError); ok && (int(e) > len(inner.calls) || inner.calls[int(e)-1] != c) {
				t.Fail("wrong-result", "EndTest returned the result of another call")
			} else if m.err != nil && !ok {
				t.Fail("wrong-result", "EndTest returned %v", m.err)
			}
		}
	}
	if total != len(inner.calls) {
		t.Fail("duplicated", "%d calls were made, the recorder saw %d", total, len(inner.calls))
	}
	// the number of EndTest results is that of the calls
	var results, expected int
	for i, c := range inner.calls {
		if c.name == "EndTest" && (i+1)%2 == 0 {
			expected++
		}
	}
	for g := range all {
		for _, m := range all[g] {
			if m.err != nil {
				results++
			}
		}
	}
	if results != expected {
		t.Fail("wrong-result", "%d calls of EndTest failed, %d reported it", expected, results)
	}
	t.Probe("serialised")
}

type stubTimer struct{ r *stubRecorder }

func (s stubTimer) ResetTimer() { s.r.call("ResetTimer", 0) }
func (s stubTimer) StartTimer() { s.r.call("StartTimer", 0) }
func (s stubTimer) StopTimer()  { s.r.call("StopTimer", 0) }

// c12shim checks the recorder that controls a timer: the timer runs within the
// iterations only, and every call is forwarded.
func c12shim(t *T) {
	inner := &stubRecorder{t: t}
	r := events.NewShimRecorder(inner, stubTimer{inner})
	sync := t.Chance(1, 2)
	if sync {
		r = events.NewSynchronizedRecorder(r)
	}
	for i, n := 0, 1+t.Int(12); i < n; i++ {
		from := len(inner.calls)
		name, arg, err := doCall(t, r, int64(i))
		t.Check()
		seen := inner.calls[from:]
		var forwarded int
		var timer []string
		for _, c := range seen {
			switch c.name {
			case "StartTimer", "StopTimer", "ResetTimer":
				timer = append(timer, c.name)
			default:
				forwarded++
				if c.name != name || c.arg != arg {
					t.Fail("wrong-call", "%s(%d) was forwarded as %s(%d)", name, arg, c.name, c.arg)
				}
			}
		}
		if forwarded != 1 {
			t.Fail("wrong-call", "%s was forwarded %d times", name, forwarded)
		}
		if (err != nil) != (name == "EndTest" && len(inner.calls)%2 == 0) {
			t.Fail("wrong-result", "%s returned %v", name, err)
		}
		want := map[string]string{"BeginIteration": "StartTimer", "EndIteration": "StopTimer", "Reset": "ResetTimer"}[name]
		if (want == "" && len(timer) > 0) || (want != "" && (len(timer) != 1 || timer[0] != want)) {
			t.Fail("timer", "%s made the timer calls %v", name, timer)
		}
		if want == "StopTimer" && seen[0].name != want {
			t.Fail("timer", "the timer was stopped after the iteration was recorded")
		}
	}
	t.Probe("shim")
}
