package main

import (
	"errors"
	"fmt"
	"math/bits"
	"sync"
	"time"

	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/events"
)

func init() {
	register("C09", "interval-events", 1, c09events)
	register("C13", "sequence", 1, c13sequence)
	register("C13", "concurrent", 1, c13concurrent)
}

type eventKind int

const (
	eBasic eventKind = iota
	ePassthrough
	eSampling
	eRandom
	eInterval
)

var eventNames = []string{"basic", "passthrough", "sampling", "random", "interval"}

func newEventCollector(k eventKind, c ftdc.Collector, n int, iv time.Duration, percent int) events.Collector {
	switch k {
	case eBasic:
		return events.NewBasicCollector(c)
	case ePassthrough:
		return events.NewPassthroughCollector(c)
	case eSampling:
		return events.NewSamplingCollector(c, n)
	case eRandom:
		return events.NewRandomSamplingCollector(c, true, percent)
	}
	return events.NewIntervalCollector(c, iv)
}

func genEvent(t *T) events.Performance {
	e := events.Performance{Timestamp: time.Unix(int64(t.Int(2_000_000_000)), int64(t.Int(1000))*1_000_000)}
	if t.Chance(1, 2) {
		e.ID = int64(t.Int(1000))
	}
	v := func() int64 {
		if t.Chance(1, 4) {
			return 0
		}
		return int64(t.Int(1<<30)) - 1000
	}
	e.Counters = events.PerformanceCounters{Number: v(), Operations: v(), Size: v(), Errors: v()}
	e.Timers = events.PerformanceTimers{Duration: time.Duration(v()), Total: time.Duration(v())}
	e.Gauges = events.PerformanceGauges{State: int64(t.Int(10)), Workers: int64(t.Int(10)), Failed: t.Chance(1, 2)}
	return e
}

// fold is the reference of how events accumulate.
func fold(tot *events.Performance, first bool, e events.Performance) {
	id := e.ID
	if !first && id == 0 {
		id = tot.ID + 1
	}
	tot.ID, tot.Timestamp, tot.Gauges = id, e.Timestamp, e.Gauges
	tot.Counters.Number += e.Counters.Number
	tot.Counters.Operations += e.Counters.Operations
	tot.Counters.Size += e.Counters.Size
	tot.Counters.Errors += e.Counters.Errors
	tot.Timers.Duration += e.Timers.Duration
	tot.Timers.Total += e.Timers.Total
}

func asPoint(e events.Performance) (p point) {
	p.vals = [nMetrics]int64{e.Counters.Number, e.Counters.Operations, e.Counters.Size, e.Counters.Errors, int64(e.Timers.Duration), int64(e.Timers.Total)}
	p.ts, p.id, p.gauges = e.Timestamp, e.ID, e.Gauges
	return
}

func samePoint(a, b point) bool {
	return a.vals == b.vals && a.ts.Equal(b.ts) && a.id == b.id && a.gauges == b.gauges
}

func c09events(t *T) { eventSequence(t, eInterval) }

func c13sequence(t *T) { eventSequence(t, eventKind(t.Int(5))) }

func eventSequence(t *T, kind eventKind) {
	sink := &performanceSink{stubCollector: stubCollector{t: t, delay: true}}
	if t.Chance(1, 3) {
		sink.rate = 1 + t.Int(16)
	}
	iv := []time.Duration{0, 1, time.Microsecond, time.Millisecond, 7 * time.Millisecond, time.Second, 5 * time.Minute}[t.Int(7)]
	n := 1 + t.Int(5)
	percent := []int{-1, 0, 1, 50, 99, 101, 150}[t.Int(7)]
	name := eventNames[kind]
	var fc ftdc.Collector = sink
	// a real collector must end up with the same points
	c := newEventCollector(kind, fc, n, iv, percent)
	if t.Chance(1, 3) {
		c = events.NewSynchronizedCollector(c)
	}
	var (
		tot    events.Performance
		reused events.Performance
		last   [2]time.Time
		count  int
	)
	for i, k := 0, 1+t.Int(16); i < k; i++ {
		if t.Chance(1, 2) {
			time.Sleep(spacing(t, iv))
		}
		before := len(sink.points)
		switch t.Int(12) {
		case 0:
			if err := c.AddEvent(nil); err == nil {
				t.Fail("nil-event", "%s accepted a nil event", name)
			}
			if len(sink.points) != before {
				t.Fail("nil-event", "%s persisted a nil event", name)
			}
			continue
		case 1:
			if err := c.Add(&events.Performance{ID: 77}); err != nil || len(sink.points) != before {
				t.Fail("add", "%s: Add, which does nothing, returned %v and persisted %d points", name, err, len(sink.points)-before)
			}
			continue
		}
		e := genEvent(t)
		in := &reused
		if t.Chance(1, 3) {
			in = new(events.Performance)
		}
		*in = e
		a := time.Now()
		err := c.AddEvent(in)
		b := time.Now()
		t.Check()
		if *in != e {
			t.Fail("modified", "%s changed the caller's event from %+v to %+v", name, e, *in)
		}
		if t.Chance(1, 2) {
			*in = genEvent(t) // the event belongs to the caller
		}
		first := count == 0
		if kind == ePassthrough {
			tot = e
		} else {
			fold(&tot, first, e)
		}
		added := len(sink.points) - before
		if added > 1 {
			t.Fail("duplicated", "%s persisted %d points for one event", name, added)
		}
		must, mustNot := true, false
		switch kind {
		case eSampling:
			must = count%n == 0
			mustNot = !must
		case eRandom:
			must = percent > 100
			mustNot = percent <= 0
		case eInterval:
			if !first {
				must = a.Sub(last[1]) >= iv
				mustNot = b.Sub(last[0]) < iv
			}
		}
		count++
		if added == 0 && must {
			t.Fail("not-persisted", "%s did not persist event %d", name, count)
		}
		if added == 1 && mustNot {
			t.Fail("persisted", "%s persisted event %d", name, count)
		}
		if added == 0 {
			if err != nil {
				t.Fail("stale-error", "%s: %v", name, err)
			}
			t.Probe("kept")
			continue
		}
		t.Probe("persisted")
		last = [2]time.Time{a, b}
		p := sink.points[before]
		if want := asPoint(tot); !samePoint(p, want) {
			t.Fail("total", "%s persisted %v id=%d ts=%v %+v instead of %v id=%d ts=%v %+v", name, p.vals, p.id, p.ts, p.gauges, want.vals, want.id, want.ts, want.gauges)
		}
		if p.err != nil {
			if !errors.Is(err, p.err) {
				t.Fail("error-lost", "%s: the collector failed with %v and AddEvent returned %v", name, p.err, err)
			}
			t.Probe("error-passed")
		} else if err != nil {
			t.Fail("stale-error", "%s: %v", name, err)
		}
	}
	t.Probe(name)
}

// c13concurrent has several callers share a synchronized collector.
func c13concurrent(t *T) {
	kind := eventKind(t.Int(5))
	sink := &performanceSink{stubCollector: stubCollector{t: t, delay: true, strict: true}}
	if t.Chance(1, 4) {
		sink.rate = 1 + t.Int(8)
	}
	name := eventNames[kind]
	iv := []time.Duration{0, time.Millisecond, time.Second}[t.Int(3)]
	n := 1 + t.Int(4)
	c := events.NewSynchronizedCollector(newEventCollector(kind, sink, n, iv, []int{30, 101}[t.Int(2)]))
	type ev struct {
		e          events.Performance
		start, end int64
		err        error
	}
	var all []*ev
	var wg sync.WaitGroup
	callers := 2 + t.Int(3)
	for g := 0; g < callers; g++ {
		k := 1 + t.Int(8)
		wg.Add(1)
		go func() {
			defer wg.Done()
			var reused events.Performance
			for i := 0; i < k; i++ {
				if t.Chance(1, 8) {
					time.Sleep(spacing(t, iv))
				}
				bit := len(all)
				// the size says which events a total contains
				x := &ev{e: events.Performance{
					Timestamp: time.Unix(int64(1000+bit), 0), ID: int64(bit + 1),
					Counters: events.PerformanceCounters{Number: int64(bit), Operations: 1, Size: 1 << bit, Errors: int64(3 * bit)},
					Timers:   events.PerformanceTimers{Duration: time.Duration(7 * bit), Total: time.Duration(bit * bit)},
					Gauges:   events.PerformanceGauges{State: int64(bit), Workers: int64(bit), Failed: bit%2 == 1},
				}, end: 1 << 62}
				all = append(all, x)
				reused = x.e
				x.start = t.seq()
				x.err = c.AddEvent(&reused)
				x.end = t.seq()
				if reused != x.e {
					t.Fail("modified", "%s changed the caller's event", name)
				}
				if t.Chance(1, 6) {
					c.Info()
				}
				if t.Chance(1, 12) {
					if _, err := c.Resolve(); err != nil {
						t.Fail("resolve", "%v", err)
					}
				}
				if t.Chance(1, 12) {
					if err := c.SetMetadata(1); err != nil {
						t.Fail("set-metadata", "%v", err)
					}
				}
			}
		}()
	}
	t.phase = "adding"
	wg.Wait()
	t.Check()
	var prev uint64
	failed := map[error]bool{}
	for i, p := range sink.points {
		set := uint64(p.vals[mSize])
		fresh := set &^ prev
		if kind == ePassthrough {
			if prev&set != 0 {
				t.Fail("duplicated", "an event was persisted twice")
			}
			if bits.OnesCount64(set) != 1 {
				t.Fail("total", "passthrough persisted something that is not an event: %v", p.vals)
			}
			fresh = set
			prev |= set
		} else {
			if prev&^set != 0 {
				t.Fail("lost", "%s: point %d lacks events %b of the points before it", name, i, prev&^set)
			}
			prev = set
		}
		if fresh == 0 || set >= 1<<len(all) {
			t.Fail("total", "%s: point %d: %v", name, i, p.vals)
		}
		if k := bits.OnesCount64(fresh); (kind == eBasic && k != 1) || (kind == eSampling && k != map[bool]int{true: 1, false: n}[i == 0]) {
			t.Fail("lost", "%s: point %d has %d events more than the one before", name, i, k)
		}
		var want [nMetrics]int64
		latest := false
		for b, x := range all {
			if set&(1<<b) == 0 {
				continue
			}
			w := asPoint(x.e)
			for m := range want {
				want[m] += w.vals[m]
			}
			if fresh&(1<<b) != 0 && p.gauges == x.e.Gauges && p.ts.Equal(x.e.Timestamp) && p.id == x.e.ID {
				latest = true
			}
			// what came before it in real time is in it too
			if kind != ePassthrough {
				for a, y := range all {
					if set&(1<<a) == 0 && y.end < x.start {
						t.Fail("lost", "%s: point %d holds event %d and not %d, which came before", name, i, b, a)
					}
				}
			}
		}
		if want != p.vals {
			t.Fail("total", "%s: point %d is %v instead of %v", name, i, p.vals, want)
		}
		if !latest {
			t.Fail("latest", "%s: point %d has gauges %+v, id %d and time %v, which are not of an event added since the last", name, i, p.gauges, p.id, p.ts)
		}
		if p.err != nil {
			failed[p.err] = true
		}
	}
	if (kind == eBasic || kind == ePassthrough) && prev != 1<<len(all)-1 {
		t.Fail("lost", "%s: %d events were added, the collector got %b", name, len(all), prev)
	}
	for _, x := range all {
		if x.err == nil {
			continue
		}
		if !failed[x.err] {
			t.Fail("stale-error", "%s: %v", name, x.err)
		}
		delete(failed, x.err)
	}
	if len(failed) > 0 {
		t.Fail("error-lost", "%s: errors of the collector were not returned: %v", name, fmt.Sprint(failed))
	}
	t.Probe("concurrent-" + name)
}
