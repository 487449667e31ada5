package main

import (
	"bytes"
	"context"
	"fmt"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/metrics"
)

func init() {
	register("C14", "runtime", 3, c14)
	register("C14", "crash", 1, c14crash)
}

// intOf is the value of any integer or datetime.
func intOf(v *birch.Value) (int64, bool) {
	if v == nil {
		return 0, false
	}
	switch v.Type() {
	case bsontype.Int32:
		return int64(v.Int32()), true
	case bsontype.Int64:
		return v.Int64(), true
	case bsontype.DateTime:
		return v.DateTime(), true
	}
	return 0, false
}

func lookup(d *birch.Document, key string) *birch.Value {
	for e := range d.Iterator() {
		if e.Key() == key {
			return e.Value()
		}
	}
	return nil
}

// probe is one custom collector of the run.
type probe struct {
	name   string
	calls  int
	busy   bool
	doneAt []time.Time
}

// metricsRun is one call of CollectRuntime with what is known about it.
type metricsRun struct {
	opts      metrics.CollectOptions
	probes    []*probe
	panicAt   int // which call of the first collector panics
	opMax     time.Duration
	nested    bool
	lastStats int64
	check     func(where string, rt *birch.Document)
	order     string
	// the first collector's schema changes every so many samples, if it does.
	changing int
}

func genMetricsRun(t *T, prefix string) *metricsRun {
	m := &metricsRun{}
	iv := []time.Duration{time.Millisecond, 5 * time.Millisecond, 100 * time.Millisecond, time.Second}[t.Int(4)]
	m.opts = metrics.CollectOptions{
		CollectionInterval: iv,
		FlushInterval:      iv * time.Duration(1+t.Int(12)),
		SampleCount:        10 + t.Int(12),
		SkipSystem:         true,
		SkipProcess:        true,
		OutputFilePrefix:   prefix,
	}
	if t.Chance(1, 3) {
		m.opts.FlushInterval += iv / time.Duration(2+t.Int(5))
	}
	slow := t.Chance(1, 3)
	if t.Chance(1, 4) {
		m.changing = 1 + t.Int(7)
	}
	for i, n := 0, t.Int(5); i < n; i++ {
		p := &probe{name: fmt.Sprintf("%s%d", []string{"c", "zz", "Q", "m.n"}[t.Int(4)], i)}
		m.probes = append(m.probes, p)
		first := i == 0
		m.opts.Collectors = append(m.opts.Collectors, metrics.CustomCollector{Name: p.name, Operation: func(context.Context) *birch.Document {
			if p.busy {
				t.Fail("overlap", "the collector %s is called while it is running", p.name)
			}
			p.busy = true
			p.calls++
			n := p.calls
			Yield()
			if slow && t.Chance(1, 4) {
				t.Fault("collector-delay")
				time.Sleep(time.Duration(t.Int(3)+1) * iv)
			}
			p.busy = false
			if first && m.panicAt > 0 && n >= m.panicAt {
				t.Fault("collector-panic")
				panic("collector")
			}
			p.doneAt = append(p.doneAt, time.Now())
			doc := birch.DC.Elements(birch.EC.Int64("n", int64(n)), birch.EC.Int32("neg", -int32(n)))
			if first && m.extra(n) {
				doc.Append(birch.EC.Int64("extra", int64(3*n)))
			}
			return doc
		}})
	}
	if slow {
		m.opMax = time.Duration(3*len(m.probes)) * iv
	}
	if len(m.probes) > 0 && t.Chance(1, 2) {
		m.opts.RunParallelCollectors = true
		t.Probe("parallel")
		if t.Chance(1, 4) {
			m.panicAt = 1 + t.Int(20)
		}
	} else {
		t.Probe("sequential")
	}
	m.nested = len(m.probes) > 0
	return m
}

// extra is whether the first collector's nth document has one more field.
func (m *metricsRun) extra(n int) bool { return m.changing > 0 && (n/m.changing)%2 == 1 }

// complete is the number of samples that every collector has contributed to.
func (m *metricsRun) complete() int {
	n := -1
	for _, p := range m.probes {
		if n < 0 || len(p.doneAt) < n {
			n = len(p.doneAt)
		}
	}
	return n
}

// golang checks what is recorded of the Go runtime, whose counts are told by
// how often they were asked for.
func (m *metricsRun) golang(t *T, where string, rt *birch.Document) {
	v := lookup(rt, "golang")
	if v == nil || v.Type() != bsontype.EmbeddedDocument {
		t.Fail("sample", "%s has no document of the Go runtime: %s", where, show(got(rt)))
	}
	d := v.MutableDocument()
	num := func(key string) int64 {
		n, ok := intOf(lookup(d, key))
		if !ok {
			t.Fail("sample", "%s has no %s: %s", where, key, show(got(d)))
		}
		return n
	}
	n := (num("memory.counters.mallocs") - 1000) / 17
	for key, want := range map[string]int64{
		"memory.counters.mallocs": 1000 + 17*n, "memory.counters.frees": 900 + 13*n, "memory.objects.heap": 100 + 4*n, "memory.summary.alloc": 1<<20 + 4096*n,
		"memory.summary.system": 4 << 20, "memory.heap.idle": 1 << 20, "memory.heap.used": 3 << 20, "gc.rate": n / 10, "gc.pause.duration.last": lastPause(n), "cgo.calls": 7 + 3*n,
	} {
		if v := num(key); v != want {
			t.Fail("sample", "%s: %s is recorded as %d, not %d", where, key, v, want)
		}
	}
	if n <= m.lastStats || num("goroutines.total") < 1 {
		t.Fail("sample", "%s: the Go runtime's state is that of an earlier sample: %s", where, show(got(d)))
	}
	m.lastStats = n
	ts, _ := intOf(lookup(rt, "ts"))
	if since := num("gc.pause.duration.latency"); since < (ts-1)*1e6-lastGC(n) || since > time.Now().UnixNano()-lastGC(n) {
		t.Fail("sample", "%s: %d ns since the last collection, at %d ms", where, since, ts)
	}
}

// readBackFiles reads the numbered files in order and checks the samples; it
// gives the number of them. Only the last file may be torn.
func (m *metricsRun) readBackFiles(t *T, files map[string][]byte, torn bool, slack time.Duration) int {
	n := 0
	var last int64
	for i := 0; i < len(files); i++ {
		name := fmt.Sprintf("%s.%d", m.opts.OutputFilePrefix, i)
		data, ok := files[name]
		if !ok {
			t.Fail("missing-file", "there are %d files and none of them is %s", len(files), name)
		}
		it := ftdc.ReadStructuredMetrics(bytes.NewReader(data))
		var first int64
		k := 0
		for d := range it.Iterator() {
			t.Check()
			rt := d
			if m.nested {
				v := lookup(d, "runtime")
				if v == nil || v.Type() != bsontype.EmbeddedDocument {
					t.Fail("sample", "%s: sample %d has no runtime document: %s", name, n, show(got(d)))
				}
				rt = v.MutableDocument()
			}
			id, ok := intOf(lookup(rt, "id"))
			if !ok || id != int64(n) {
				t.Fail("numbering", "%s: sample %d has the id %d: %s", name, n, id, show(got(d)))
			}
			if pid, _ := intOf(lookup(rt, "pid")); pid != 4242 {
				t.Fail("sample", "%s: sample %d has the pid %d", name, n, pid)
			}
			ts, _ := intOf(lookup(rt, "ts"))
			if n > 0 && ts-last < m.opts.CollectionInterval.Milliseconds()-1 {
				t.Fail("spacing", "%s: sample %d is %d ms after the one before it, the interval is %s", name, n, ts-last, m.opts.CollectionInterval)
			}
			if k == 0 {
				first = ts
			}
			if lim := m.opts.FlushInterval + m.opMax + slack; ts-first > lim.Milliseconds()+1 {
				t.Fail("rotation", "%s holds samples of %d ms, the flush interval is %s", name, ts-first, m.opts.FlushInterval)
			}
			if !m.opts.SkipGolang {
				m.golang(t, fmt.Sprintf("%s: sample %d", name, n), rt)
			}
			if m.check != nil {
				m.check(fmt.Sprintf("%s: sample %d", name, n), rt)
			}
			order := []string{}
			for e := range d.Iterator() {
				order = append(order, e.Key())
			}
			if s := fmt.Sprintf("%q", order); m.order == "" {
				m.order = s
			} else if s != m.order {
				t.Fail("order", "%s: the fields of sample %d are %s, and those of the one before it %s", name, n, s, m.order)
			}
			for i, p := range m.probes {
				v := lookup(d, p.name)
				if v == nil || v.Type() != bsontype.EmbeddedDocument {
					t.Fail("sample", "%s: sample %d has no document of the collector %s: %s", name, n, p.name, show(got(d)))
				}
				sub := v.MutableDocument()
				a, _ := intOf(lookup(sub, "n"))
				b, _ := intOf(lookup(sub, "neg"))
				if a != int64(n+1) || b != -a {
					t.Fail("sample", "%s: sample %d has the %dth document of collector %s", name, n, a, p.name)
				}
				if x, ok := intOf(lookup(sub, "extra")); ok != (i == 0 && m.extra(n+1)) || (ok && x != 3*a) {
					t.Fail("sample", "%s: sample %d has other fields than the %dth document of collector %s: %s", name, n, a, p.name, show(got(d)))
				}
			}
			last = ts
			n++
			k++
		}
		if err := it.Close(); err != nil && !(torn && i == len(files)-1) {
			t.Fail("damaged", "%s: %v", name, err)
		}
	}
	if len(files) > 1 {
		t.Probe("several-files")
	}
	return n
}

func (fs *simFS) snapshot() map[string][]byte {
	out := map[string][]byte{}
	for _, n := range fs.names() {
		out[n] = append([]byte(nil), fs.files[n].data...)
	}
	return out
}

func c14(t *T) {
	fs := newSimFS(t)
	fs.short, fs.slow = t.Chance(1, 3), t.Chance(1, 4)
	m := genMetricsRun(t, "/data/metrics")
	failed := false
	if t.Chance(1, 3) {
		at, n, sticky, errno := t.Int(10), 0, t.Chance(1, 2), diskErrno(t)
		fs.fault = func(op, p string) syscall.Errno {
			n++
			if n-1 == at || (n-1 > at && sticky) {
				failed = true
				return errno
			}
			return 0
		}
	} else if t.Chance(1, 5) {
		fs.limited, fs.space = true, t.Int(6000)
	}
	slack := t.slack()
	if fs.slow {
		slack += 2 * time.Second
	}
	slack += time.Duration(t.params.TickNS) * 50000 // the clock moves with every step too

	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var cancelled time.Time
	iv := m.opts.CollectionInterval
	after := time.Duration(t.Int(60)) * iv / 2
	if t.Chance(1, 4) {
		after += time.Duration(t.Int(1000)) * iv / 1000
	}
	returned := make(chan struct{})
	go func() {
		select {
		case <-time.After(after):
		case <-returned:
		}
		cancelled = time.Now()
		cancel()
	}()
	t.phase = "collecting runtime metrics"
	err := metrics.CollectRuntime(ctx, m.opts)
	end := time.Now()
	ended := ctx.Err() != nil
	close(returned)
	t.Check()
	if fs.limited && t.faults["disk-full"] > 0 {
		failed = true
	}
	panicked := t.faults["collector-panic"] > 0
	switch {
	case (failed || panicked) && err == nil:
		t.Fail("error-lost", "there was a failure (file: %v, collector: %v) and no error", failed, panicked)
	case !failed && !panicked && err != nil:
		t.Fail("unexpected-error", "CollectRuntime: %v", err)
	case err == nil && !ended:
		t.Fail("early-return", "it returned before the context ended")
	}
	if ended && end.Sub(cancelled) > slack+m.opMax {
		t.Fail("slow-return", "it returned %s after the context ended", end.Sub(cancelled))
	}
	if len(fs.fds) != 0 {
		t.Fail("open-file", "%d files were left open", len(fs.fds))
	}
	n := m.readBackFiles(t, fs.snapshot(), failed, slack)
	switch {
	case failed:
		t.Probe("file-failed")
	case panicked:
		t.Probe("collector-panicked")
	default:
		t.Probe("cancelled")
		if c := m.complete(); c >= 0 && n != c {
			t.Fail("lost", "%d samples were collected before the context ended and the files hold %d", c, n)
		}
		if t.slack() == 0 && !fs.slow && m.opMax == 0 && iv >= 100*time.Millisecond && t.params.TickNS <= 200 {
			// nothing holds the collection up
			if want := int(after / (iv + 20*time.Millisecond)); n < want {
				t.Fail("too-few", "%d samples in %s with an interval of %s", n, after, iv)
			}
		}
	}
	if c := m.complete(); c >= 0 && n > c {
		t.Fail("made-up", "the files hold %d samples and only %d were collected", n, c)
	}
}

// c14crash looks at the files as they are at some instant, as a process that
// crashes then leaves them.
func c14crash(t *T) {
	fs := newSimFS(t)
	fs.slow = t.Chance(1, 4)
	m := genMetricsRun(t, "/data/metrics")
	m.panicAt = 0
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var done atomic.Bool
	slack := t.slack() + time.Duration(t.params.TickNS)*50000
	if fs.slow {
		slack += 2 * time.Second
	}
	go func() {
		if err := metrics.CollectRuntime(ctx, m.opts); err != nil {
			t.Fail("unexpected-error", "CollectRuntime: %v", err)
		}
		done.Store(true)
	}()
	iv := m.opts.CollectionInterval
	time.Sleep(time.Duration(t.Int(100))*iv/2 + time.Duration(t.Int(1000))*iv/1000)
	if t.Chance(1, 2) {
		cancel() // while it shuts down
		for i := t.Int(12); i > 0; i-- {
			Yield()
		}
	}
	t.Fault("crash")
	now := time.Now()
	files := fs.snapshot()
	old := 0
	for i, c := 0, m.complete(); i < c; i++ {
		at := time.Time{}
		for _, p := range m.probes {
			if p.doneAt[i].After(at) {
				at = p.doneAt[i]
			}
		}
		if now.Sub(at) > m.opts.FlushInterval+m.opMax+slack {
			old = i + 1
		}
	}
	cancel()
	n := m.readBackFiles(t, files, true, slack)
	t.Probe("crashed")
	if n > 0 {
		t.Probe("crash-survivors")
	}
	if n < old {
		t.Fail("not-durable", "%d samples were older than the flush interval when the process crashed, the files hold %d", old, n)
	}
	for i := 0; !done.Load(); i++ {
		if i > 1000 {
			t.Fail("slow-return", "it did not return after the context ended")
		}
		time.Sleep(time.Second + slack)
	}
}

// What the scripted statistics (runtime.SimFakeStats) say about the last
// garbage collection when they are asked for the n-th time.
func lastPause(n int64) int64 {
	if n < 10 {
		return 0
	}
	return 1000 + n/10
}

func lastGC(n int64) int64 {
	if n < 10 {
		return 0
	}
	return 15e17 + n/10*1e9
}
