package main

import (
	"errors"
	"fmt"
	"math/bits"
	"reflect"
	"time"
	"unsafe"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/events"
	"github.com/tychoish/fun/dt/hdrhist"
)

func init() {
	register("C10", "points", 24, c10points)
	register("C10", "histograms", 1, c10histograms)
}

// ---- points as the collector was given them.

const (
	mNumber = iota
	mOps
	mSize
	mErrors
	mDur
	mTotal
	nMetrics
)

var metricNames = [nMetrics]string{"counters.n", "counters.ops", "counters.size", "counters.errors", "timers.dur", "timers.total"}

type point struct {
	hdr    *events.PerformanceHDR
	vals   [nMetrics]int64 // sums; for histograms, of the small values
	n      [nMetrics]int64 // recorded values, histograms only
	ts     time.Time
	id     int64
	gauges events.PerformanceGauges
	at     time.Time
	seq    int64
	err    error
}

func hists(p *events.PerformanceHDR) [nMetrics]*hdrhist.Histogram {
	return [nMetrics]*hdrhist.Histogram{p.Counters.Number, p.Counters.Operations, p.Counters.Size, p.Counters.Errors, p.Timers.Duration, p.Timers.Total}
}

func histCounts(h *hdrhist.Histogram) []int64 {
	f := reflect.ValueOf(h).Elem().FieldByName("counts")
	return *(*[]int64)(unsafe.Pointer(f.UnsafeAddr()))
}

// histIndex is where a histogram of 5 significant figures counts v.
func histIndex(m int, v int64) int {
	unit := 0
	if m >= mDur {
		unit = 9
	}
	mask := int64(1<<18-1) << unit
	b := bits.Len64(uint64(v|mask)) - unit - 18
	return (b+1)<<17 + int(v>>(b+unit)) - 1<<17
}

const histDurUnit = 512 // durations that are multiples of this have a cell of their own

// performanceSink is a collector that keeps copies of the points it is given.
type performanceSink struct {
	stubCollector
	points []point
	errs   []error
	rate   int // failures per 16 calls
}

func (c *performanceSink) Add(in any) error {
	c.enter("Add", false)
	defer c.leave(false)
	t := c.t
	p := point{at: time.Now(), seq: t.seq()}
	switch x := in.(type) {
	case *events.Performance:
		p.vals = [nMetrics]int64{x.Counters.Number, x.Counters.Operations, x.Counters.Size, x.Counters.Errors, int64(x.Timers.Duration), int64(x.Timers.Total)}
		p.ts, p.id, p.gauges = x.Timestamp, x.ID, x.Gauges
		if t.prop == "C10" || t.prop == "C13" {
			c.marshaled(x)
		}
	case *events.PerformanceHDR:
		p.hdr = x
		p.ts, p.id, p.gauges = x.Timestamp, x.ID, x.Gauges
		for i, h := range hists(x) {
			p.n[i] = h.TotalCount()
			unit := int64(1)
			if i >= mDur {
				unit = histDurUnit
			}
			for k, n := range histCounts(h)[:64] {
				p.vals[i] += int64(k) * n * unit
			}
		}
	default:
		t.Fail("wrong-type", "the collector was given a %T", in)
	}
	if c.rate > 0 && t.Chance(c.rate, 16) {
		p.err = fmt.Errorf("sim: collector failed %d", len(c.errs))
		c.errs = append(c.errs, p.err)
		t.Fault("collector-error")
	}
	t.Log("point %v n=%v ts=%v id=%d gauges=%+v err=%v", p.vals, p.n, p.ts, p.id, p.gauges, p.err)
	c.points = append(c.points, p)
	return p.err
}

// marshaled checks what a point is stored as.
func (c *performanceSink) marshaled(p *events.Performance) {
	t := c.t
	d, err := p.MarshalDocument()
	if err != nil {
		t.Fail("marshal", "%v", err)
	}
	want := birch.DC.Elements(
		birch.EC.DateTime("ts", p.Timestamp.UnixMilli()),
		birch.EC.Int64("id", p.ID),
		birch.EC.SubDocumentFromElements("counters", birch.EC.Int64("n", p.Counters.Number), birch.EC.Int64("ops", p.Counters.Operations), birch.EC.Int64("size", p.Counters.Size), birch.EC.Int64("errors", p.Counters.Errors)),
		birch.EC.SubDocumentFromElements("timers", birch.EC.Int64("dur", int64(p.Timers.Duration)), birch.EC.Int64("total", int64(p.Timers.Total))),
		birch.EC.SubDocumentFromElements("gauges", birch.EC.Int64("state", p.Gauges.State), birch.EC.Int64("workers", p.Gauges.Workers), birch.EC.Boolean("failed", p.Gauges.Failed)))
	if g, w := got(d), got(want); g != w {
		t.Fail("marshal", "a point is stored as %s instead of %s", g, w)
	}
	back := &events.Performance{}
	if err := back.UnmarshalDocument(d); err != nil {
		t.Fail("unmarshal", "%v", err)
	}
	exp := *p
	exp.Timestamp = back.Timestamp
	if *back != exp || back.Timestamp.UnixMilli() != p.Timestamp.UnixMilli() {
		t.Fail("unmarshal", "a stored point reads back as %+v instead of %+v", *back, *p)
	}
}

// ---- the reference model of the sequential recorders.

type span struct{ lo, hi int64 }

type recKind int

const (
	rRaw recKind = iota
	rSingle
	rGrouped
	rHistogram
	rHistogramGrouped
	rHistogramSingle
	rInterval
	rIntervalHistogram
)

var recNames = []string{"raw", "single", "grouped", "histogram", "grouped-histogram", "single-histogram", "interval", "interval-histogram"}

func (k recKind) hdr() bool {
	return k == rHistogram || k == rHistogramGrouped || k == rHistogramSingle || k == rIntervalHistogram
}

type recModel struct {
	kind     recKind
	iv       time.Duration
	rec      [nMetrics][]span // everything recorded since the test began
	ts       [2]time.Time     // the earliest and latest the timestamp can be
	tsSet    bool
	id       int64
	gauges   events.PerformanceGauges
	begun    [2]time.Time
	inIter   bool
	last     [2]time.Time // the last collection; zero: collect at the next chance
	lastSet  bool
	dirty    bool
	errs     []error
	rangeErr bool // a value out of the range of the histograms was recorded
	fuzzy    bool // it cannot be told if one was
}

func (m *recModel) add(metric int, lo, hi int64) {
	if m.kind.hdr() {
		limit := int64(1) << 18
		if metric >= mDur {
			limit = 1 << (18 + 9 + 9)
		}
		if lo >= limit {
			m.rangeErr = true
			return
		}
		if hi >= limit {
			m.fuzzy = true
		}
	}
	m.rec[metric] = append(m.rec[metric], span{lo, hi})
	if lo != 0 || hi != 0 {
		m.dirty = true
	}
}

func (m *recModel) reset() {
	m.rec = [nMetrics][]span{}
	m.tsSet, m.id, m.inIter, m.lastSet, m.dirty = false, 0, false, false, false
	m.errs, m.rangeErr, m.fuzzy = nil, false, false
}

func (m *recModel) stamp(a, b time.Time) {
	if !m.tsSet {
		m.ts, m.tsSet = [2]time.Time{a, b}, true
	}
}

func sum(s []span) (lo, hi int64) {
	for _, x := range s {
		lo += x.lo
		hi += x.hi
	}
	return
}

func (m *recModel) compare(t *T, what string, p point) {
	t.Check()
	if p.id != m.id {
		t.Fail("id", "%s: id %d instead of %d", what, p.id, m.id)
	}
	if p.gauges != m.gauges {
		t.Fail("gauges", "%s: gauges %+v instead of %+v", what, p.gauges, m.gauges)
	}
	if p.ts.Before(m.ts[0]) || p.ts.After(m.ts[1]) {
		t.Fail("timestamp", "%s: timestamp %v instead of %v to %v", what, p.ts, m.ts[0], m.ts[1])
	}
	if p.hdr == nil {
		for i := range m.rec {
			lo, hi := sum(m.rec[i])
			if p.vals[i] < lo || p.vals[i] > hi {
				t.Fail("value", "%s: %s is %d instead of %d to %d", what, metricNames[i], p.vals[i], lo, hi)
			}
		}
		return
	}
	for i, h := range hists(p.hdr) {
		if i == mTotal && m.fuzzy {
			continue
		}
		if int(p.n[i]) != len(m.rec[i]) {
			t.Fail("value", "%s: %s holds %d values instead of %d", what, metricNames[i], p.n[i], len(m.rec[i]))
		}
		c := histCounts(h)
		need := map[int]int64{}
		for _, s := range m.rec[i] {
			if s.lo == s.hi {
				need[histIndex(i, s.lo)]++
			}
		}
		for k, n := range need {
			if c[k] < n {
				t.Fail("value", "%s: %s has %d values in cell %d instead of %d", what, metricNames[i], c[k], k, n)
			}
		}
		for _, s := range m.rec[i] {
			if s.lo != s.hi {
				found := false
				for k := histIndex(i, s.lo); k <= histIndex(i, s.hi) && !found; k++ {
					found = c[k] > need[k]
				}
				if !found {
					t.Fail("value", "%s: %s has no value of %d to %d", what, metricNames[i], s.lo, s.hi)
				}
			}
		}
	}
}

func newRecorder(kind recKind, c ftdc.Collector, iv time.Duration) events.Recorder {
	switch kind {
	case rRaw:
		return events.NewRawRecorder(c)
	case rSingle:
		return events.NewSingleRecorder(c)
	case rGrouped:
		return events.NewGroupedRecorder(c, iv)
	case rHistogram:
		return events.NewHistogramRecorder(c)
	case rHistogramGrouped:
		return events.NewHistogramGroupedRecorder(c, iv)
	}
	return events.NewSingleHistogramRecorder(c)
}

func c10points(t *T)     { c10(t, recKind(t.Int(3)), 1+t.Int(40)) }
func c10histograms(t *T) { c10(t, rHistogram+recKind(t.Int(3)), 1+t.Int(24)) }

func c10(t *T, kind recKind, ops int) {
	name := recNames[kind]
	sink := &performanceSink{stubCollector: stubCollector{t: t, delay: true}}
	if t.Chance(1, 3) {
		sink.rate = 1 + t.Int(16)
	}
	iv := []time.Duration{0, 1, time.Microsecond, time.Millisecond, 20 * time.Millisecond, time.Second, 5 * time.Minute}[t.Int(7)]
	m := &recModel{kind: kind, iv: iv}
	before := time.Now()
	r := newRecorder(kind, sink, iv)
	after := time.Now()
	if kind == rGrouped {
		m.last, m.lastSet = [2]time.Time{before, after}, true
	}
	if t.Chance(1, 4) {
		r = events.NewSynchronizedRecorder(r)
	}
	value := func() int64 {
		if kind.hdr() {
			if t.Chance(1, 12) {
				return 1<<40 + int64(t.Int(1000))
			}
			return int64(t.Int(9)) * int64(t.Int(2)*1000+1)
		}
		switch t.Int(4) {
		case 0:
			return 0
		case 1:
			return -int64(t.Int(1000))
		}
		return int64(t.Int(1 << 30))
	}
	duration := func() time.Duration {
		if kind.hdr() {
			if t.Chance(1, 16) {
				return 2 * time.Hour
			}
			return time.Duration(t.Int(50_000_000))
		}
		return time.Duration(t.Int(1 << 30))
	}
	expectPoint := func(what string, n int, must, mustNot bool) bool {
		got := len(sink.points) - n
		if got > 1 {
			t.Fail("duplicated", "%s %s handed %d points to the collector", name, what, got)
		}
		if got == 0 && must {
			t.Fail("not-persisted", "%s %s did not hand its point to the collector", name, what)
		}
		if got == 1 && mustNot {
			t.Fail("persisted", "%s %s handed a point to the collector: %v", name, what, sink.points[n].vals)
		}
		if got == 1 {
			if err := sink.points[n].err; err != nil {
				m.errs = append(m.errs, err)
			}
		}
		return got == 1
	}
	for i := 0; i <= ops; i++ {
		if t.Chance(1, 3) {
			time.Sleep(spacing(t, min(iv, 2*time.Second)))
		}
		n := len(sink.points)
		op := t.Int(16)
		if i == ops {
			op = 14 // the last is EndTest
		}
		switch op {
		case 0, 1, 2:
			t.Log("BeginIteration")
			a := time.Now()
			r.BeginIteration()
			b := time.Now()
			m.begun, m.inIter = [2]time.Time{a, b}, true
			if kind != rSingle && kind != rHistogramSingle {
				m.stamp(a, b)
			}
			expectPoint("BeginIteration", n, false, true)
		case 3, 4, 5, 6:
			d := duration()
			t.Log("EndIteration(%v)", d)
			a := time.Now()
			r.EndIteration(d)
			b := time.Now()
			sets := kind != rGrouped
			if m.inIter {
				m.add(mTotal, int64(a.Sub(m.begun[1])), int64(b.Sub(m.begun[0])))
				if sets {
					m.stamp(m.begun[0], m.begun[1])
				}
			} else if sets {
				m.stamp(a, b)
			}
			m.add(mNumber, 1, 1)
			m.add(mDur, int64(d), int64(d))
			switch kind {
			case rRaw, rHistogram:
				if expectPoint("EndIteration", n, true, false) {
					m.compare(t, name+" EndIteration", sink.points[n])
				}
			case rSingle, rHistogramSingle:
				expectPoint("EndIteration", n, false, true)
			default:
				must, mustNot := true, false
				if m.lastSet {
					must = a.Sub(m.last[1]) >= iv
					mustNot = b.Sub(m.last[0]) < iv
				}
				if expectPoint("EndIteration", n, must, mustNot) {
					if kind == rGrouped {
						if m.inIter {
							m.stamp(m.begun[0], m.begun[1])
						} else {
							m.stamp(a, b)
						}
					}
					m.compare(t, name+" EndIteration", sink.points[n])
					m.last, m.lastSet, m.dirty = [2]time.Time{a, b}, true, false
					if kind == rGrouped {
						m.tsSet = false
					}
					t.Probe("grouped-persisted")
				} else {
					t.Probe("grouped-kept")
				}
			}
			m.inIter = false
		case 7:
			v := value()
			r.IncIterations(v)
			m.add(mNumber, v, v)
		case 8:
			v := value()
			r.IncOperations(v)
			m.add(mOps, v, v)
		case 9:
			v := value()
			r.IncSize(v)
			m.add(mSize, v, v)
		case 10:
			v := value()
			r.IncError(v)
			m.add(mErrors, v, v)
		case 11:
			d := duration()
			if t.Chance(1, 2) {
				t.Log("SetDuration(%v)", d)
				if kind == rRaw {
					m.rec[mDur] = nil
				}
				r.SetDuration(d)
				m.add(mDur, int64(d), int64(d))
			} else {
				t.Log("SetTotalDuration(%v)", d)
				if kind == rRaw {
					m.rec[mTotal] = nil
				}
				r.SetTotalDuration(d)
				m.add(mTotal, int64(d), int64(d))
			}
		case 12:
			switch t.Int(4) {
			case 0:
				m.gauges.State = int64(t.Int(100))
				r.SetState(m.gauges.State)
			case 1:
				m.gauges.Workers = int64(t.Int(100))
				r.SetWorkers(m.gauges.Workers)
			case 2:
				m.gauges.Failed = t.Chance(1, 2)
				r.SetFailed(m.gauges.Failed)
			case 3:
				m.id = int64(t.Int(100))
				r.SetID(m.id)
			}
		case 13:
			if t.Chance(1, 2) {
				ts := time.Unix(int64(t.Int(2_000_000_000)), int64(t.Int(1_000_000_000)))
				t.Log("SetTime(%v)", ts)
				r.SetTime(ts)
				m.ts, m.tsSet = [2]time.Time{ts, ts}, true
			}
		case 14:
			t.Log("EndTest")
			a := time.Now()
			err := r.EndTest()
			b := time.Now()
			must := true
			switch kind {
			case rRaw, rHistogram, rHistogramGrouped:
				must = m.tsSet
			case rGrouped:
				must = m.tsSet || m.dirty
			}
			if kind == rGrouped && !m.tsSet && m.dirty && netZero(m) {
				// what was recorded may cancel out
				must = len(sink.points) > n
			}
			if expectPoint("EndTest", n, must, !must) {
				if m.inIter {
					m.stamp(m.begun[0], m.begun[1])
				} else {
					m.stamp(a, b)
				}
				m.compare(t, name+" EndTest", sink.points[n])
			}
			checkErrors(t, name, err, m.errs, m.rangeErr, m.fuzzy)
			m.reset()
			t.Probe("ended-" + name)
		case 15:
			if t.Chance(1, 2) {
				t.Log("Reset")
				r.Reset()
				m.reset()
				expectPoint("Reset", n, false, true)
				t.Probe("reset")
			}
		}
		if op < 14 && op != 3 && op != 4 && op != 5 && op != 6 {
			expectPoint("call", n, false, true)
		}
	}
}

// netZero says if negative increments can have cancelled others.
func netZero(m *recModel) bool {
	for _, s := range m.rec {
		for _, x := range s {
			if x.lo < 0 {
				return true
			}
		}
	}
	return false
}

func checkErrors(t *T, name string, err error, want []error, ranged, fuzzy bool) {
	t.Check()
	for _, w := range want {
		if !errors.Is(err, w) {
			t.Fail("error-lost", "%s EndTest reported %v, not %v", name, err, w)
		}
	}
	if len(want) > 0 {
		t.Probe("errors-reported")
	}
	if ranged && err == nil {
		t.Fail("error-lost", "%s EndTest reported nothing of the value it could not record", name)
	}
	if len(want) == 0 && !ranged && !fuzzy && err != nil {
		t.Fail("stale-error", "%s EndTest: %v", name, err)
	}
}
