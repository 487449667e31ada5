package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
)

func init() {
	register("C06", "recorded", 3, c06)
	register("C06", "resolved", 1, c06resolved)
	register("C07", "exclusion", 1, c07exclusion)
	register("C07", "linearizable", 2, c07)
	register("C09", "sampling", 1, c09sampling)
}

var errCollector = errors.New("sim: collector failed")

// stubCollector records what it is given.
type stubCollector struct {
	t      *T
	got    []any
	failed int
	fail   func(n int, in any) error
	delay  bool
	busy   int // writers inside
	reads  int // Info calls inside
	strict bool
	meta   any
	calls  []string
	times  [][2]time.Duration
}

func (c *stubCollector) enter(what string, shared bool) {
	if c.strict && (c.busy > 0 || (!shared && c.reads > 0)) {
		c.t.Fail("not-exclusive", "%s while another call is in progress", what)
	}
	if shared {
		c.reads++
	} else {
		c.busy++
	}
	Yield()
	if c.delay && c.t.Chance(1, 8) {
		c.t.Fault("collector-delay")
		time.Sleep(time.Duration(1+c.t.Int(10)) * time.Millisecond)
	}
}

func (c *stubCollector) leave(shared bool) {
	Yield()
	if shared {
		c.reads--
	} else {
		c.busy--
	}
}

func (c *stubCollector) Add(in any) error {
	c.enter("Add", false)
	defer c.leave(false)
	n := len(c.got) + c.failed
	if c.fail != nil {
		if err := c.fail(n, in); err != nil {
			c.t.Fault("collector-error")
			c.failed++
			return err
		}
	}
	c.got = append(c.got, in)
	return nil
}
func (c *stubCollector) SetMetadata(in any) error {
	c.enter("SetMetadata", false)
	defer c.leave(false)
	c.meta = in
	return nil
}
func (c *stubCollector) Resolve() ([]byte, error) {
	c.enter("Resolve", true) // only reads
	defer c.leave(true)
	return []byte(fmt.Sprint(len(c.got))), nil
}
func (c *stubCollector) Reset() { c.enter("Reset", false); c.got = nil; c.leave(false) }
func (c *stubCollector) Info() ftdc.CollectorInfo {
	c.enter("Info", true)
	defer c.leave(true)
	return ftdc.CollectorInfo{SampleCount: len(c.got)}
}

type tagged struct{ producer, n int }

// buffered runs producers against a buffered collector whose context ends at
// any point.
func buffered(t *T, inner ftdc.Collector, mk func(p, n int) any) (coll ftdc.Collector, accepted [][]int) {
	parent, stop := context.WithCancel(context.Background())
	defer stop()
	ctx, cancel := parent, stop
	if t.Chance(1, 4) {
		ctx, cancel = context.WithTimeout(parent, time.Duration(t.Int(30))*time.Millisecond)
		t.Fault("deadline")
	}
	defer cancel()
	if t.Chance(1, 20) {
		cancel()
		t.Fault("cancel")
	}
	size := []int{0, 1, 2, 5, 20}[t.Int(5)]
	coll = ftdc.NewBufferedCollector(ctx, size, inner)
	producers := 1 + t.Int(3)
	accepted = make([][]int, producers)
	var wg sync.WaitGroup
	for p := 0; p < producers; p++ {
		n := 1 + t.Int(8)
		pace := t.Chance(1, 3)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				err := coll.Add(mk(p, i))
				t.Check()
				if err == nil {
					accepted[p] = append(accepted[p], i)
				} else {
					if ctx.Err() == nil {
						t.Fail("unexpected-error", "Add: %v", err)
					}
					if !errors.Is(err, context.Canceled) && !errors.Is(err, context.DeadlineExceeded) {
						t.Fail("wrong-error", "Add after the context ended: %v", err)
					}
					t.Probe("refused")
				}
				if pace {
					time.Sleep(time.Duration(t.Int(5)) * time.Millisecond)
				}
			}
		}()
	}
	how := t.Int(3)
	if how == 1 {
		wg.Wait()
	} else {
		d := time.Duration(0)
		if how == 2 {
			d = time.Duration(t.Int(20)) * time.Millisecond
		}
		time.Sleep(d)
		for i, n := 0, t.Int(30); i < n; i++ {
			Yield()
		}
	}
	cancel()
	t.Fault("cancel")
	t.phase = "adding after cancellation"
	if t.Chance(1, 2) {
		wg.Wait()
	}
	// Resolve has to wait for what was accepted
	t.phase = "resolving after cancellation"
	if t.Chance(1, 2) {
		coll.Resolve()
	}
	wg.Wait()
	return coll, accepted
}

func c06(t *T) {
	inner := &stubCollector{t: t, delay: t.Chance(1, 2)}
	if t.Chance(1, 3) {
		inner.fail = func(n int, in any) error {
			if t.Chance(1, 5) {
				return errCollector
			}
			return nil
		}
	}
	var refused []tagged
	if inner.fail != nil {
		f := inner.fail
		inner.fail = func(n int, in any) error {
			err := f(n, in)
			if err != nil {
				refused = append(refused, in.(tagged))
			}
			return err
		}
	}
	coll, accepted := buffered(t, inner, func(p, n int) any { return tagged{p, n} })
	_, err := coll.Resolve()
	t.Check()
	if (err != nil) != (inner.failed > 0) {
		t.Fail("error-lost", "%d samples were refused by the underlying collector and Resolve reports %v", inner.failed, err)
	}
	if err != nil && !errors.Is(err, errCollector) {
		t.Fail("wrong-error", "Resolve: %v", err)
	}
	var want, got []string
	for p := range accepted {
		for _, n := range accepted[p] {
			want = append(want, fmt.Sprint(p, "/", n))
		}
	}
	last := map[int]int{}
	for _, in := range inner.got {
		x := in.(tagged)
		if l, ok := last[x.producer]; ok && l >= x.n {
			t.Fail("order", "producer %d: sample %d was delivered after %d", x.producer, x.n, l)
		}
		last[x.producer] = x.n
		got = append(got, fmt.Sprint(x.producer, "/", x.n))
	}
	for _, x := range refused {
		got = append(got, fmt.Sprint(x.producer, "/", x.n))
	}
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprint(want) != fmt.Sprint(got) {
		t.Fail("delivery", "accepted %v, delivered %v", want, got)
	}
	t.Probe("compared")
}

// c06resolved uses a real collector below the buffer.
func c06resolved(t *T) {
	base := ftdc.NewSynchronizedCollector(ftdc.NewBaseCollector(200))
	coll, accepted := buffered(t, base, func(p, n int) any {
		return birch.DC.Elements(birch.EC.Int64("p", int64(p)), birch.EC.Int64("n", int64(n)))
	})
	total := 0
	for p := range accepted {
		total += len(accepted[p])
	}
	out, err := coll.Resolve()
	t.Check()
	if total == 0 {
		if err == nil {
			t.Fail("made-up", "nothing was accepted and Resolve gave %d bytes", len(out))
		}
		return
	}
	if err != nil {
		t.Fail("unexpected-error", "Resolve: %v", err)
	}
	if n := coll.Info().SampleCount; n != total {
		t.Fail("sample-count", "%d samples were accepted and Info reports %d", total, n)
	}
	at := make([]int, len(accepted))
	for _, s := range decodePairs(t, out) {
		p, n := int(s[0]), int(s[1])
		if p < 0 || p >= len(accepted) || at[p] >= len(accepted[p]) || accepted[p][at[p]] != n {
			t.Fail("delivery", "sample %d of producer %d is not the next one accepted", n, p)
		}
		at[p]++
	}
	for p := range at {
		if at[p] != len(accepted[p]) {
			t.Fail("delivery", "producer %d: %d of %d accepted samples were delivered", p, at[p], len(accepted[p]))
		}
	}
	t.Probe("resolved")
}

// decodePairs reads samples of two integers.
func decodePairs(t *T, b []byte) (out [][2]int64) {
	it := ftdc.ReadMetrics(NewBytesReader(b))
	for d := range it.Iterator() {
		es := d.Elements()
		if len(es) != 2 {
			t.Fail("wrong-sample", "%s has %d fields", d, len(es))
		}
		a, ok1 := es[0].Value().IntOK()
		b, ok2 := es[1].Value().IntOK()
		if !ok1 || !ok2 {
			t.Fail("wrong-sample", "%s", d)
		}
		out = append(out, [2]int64{int64(a), int64(b)})
	}
	if err := it.Close(); err != nil {
		t.Fail("undecodable", "reading what was resolved: %v", err)
	}
	return out
}

// ---- C07

func c07exclusion(t *T) {
	stub := &stubCollector{t: t, strict: true, delay: t.Chance(1, 3)}
	c := ftdc.NewSynchronizedCollector(stub)
	var wg sync.WaitGroup
	adds := 0
	resets := false
	for g, n := 0, 2+t.Int(3); g < n; g++ {
		ops := 1 + t.Int(4)
		kinds := make([]int, ops)
		for i := range kinds {
			kinds[i] = t.Int(8)
			if kinds[i] < 4 {
				adds++
			}
			if kinds[i] == 5 {
				resets = true
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, k := range kinds {
				switch k {
				case 0, 1, 2, 3:
					if err := c.Add(tagged{g, i}); err != nil {
						t.Fail("unexpected-error", "%v", err)
					}
				case 4:
					if _, err := c.Resolve(); err != nil {
						t.Fail("unexpected-error", "%v", err)
					}
				case 5:
					c.Reset()
				case 6:
					if err := c.SetMetadata("x"); err != nil {
						t.Fail("unexpected-error", "%v", err)
					}
				case 7:
					c.Info()
				}
				t.Check()
			}
		}()
	}
	wg.Wait()
	if !resets && len(stub.got) != adds {
		t.Fail("lost", "%d samples added, %d arrived", adds, len(stub.got))
	}
	if fmt.Sprint(c.Info()) != fmt.Sprint(stub.Info()) {
		t.Fail("wrong-info", "Info differs from the wrapped collector's")
	}
	t.Probe("exclusion")
}

const (
	opAdd = iota
	opInfo
	opResolve
	opReset
	opMeta
)

type c07op struct {
	kind      int
	g, n      int
	call, ret int64
	err       bool
	count     int        // Info
	metrics   int        // Info
	samples   [][2]int64 // Resolve
	meta      int64      // Resolve: metadata seen, -1 none; SetMetadata: what was set, -1 nil
}

func (o c07op) String() string {
	e := ""
	if o.err {
		e = " error"
	}
	switch o.kind {
	case opAdd:
		return fmt.Sprintf("g%d Add(%d)%s [%d,%d]", o.g, o.n, e, o.call, o.ret)
	case opInfo:
		return fmt.Sprintf("g%d Info=%d samples, %d metrics [%d,%d]", o.g, o.count, o.metrics, o.call, o.ret)
	case opResolve:
		return fmt.Sprintf("g%d Resolve=%v meta %d%s [%d,%d]", o.g, o.samples, o.meta, e, o.call, o.ret)
	case opReset:
		return fmt.Sprintf("g%d Reset [%d,%d]", o.g, o.call, o.ret)
	}
	return fmt.Sprintf("g%d SetMetadata(%d)%s [%d,%d]", o.g, o.meta, e, o.call, o.ret)
}

type c07state struct {
	samples []([2]int64)
	meta    int64
}

// step applies an operation to the sequential collector; ok says whether its
// result is the one the collector would give.
func (s c07state) step(kind, max int, o c07op) (c07state, bool) {
	switch o.kind {
	case opAdd:
		full := kind == ckBase && len(s.samples) >= max+1
		if full != o.err {
			return s, false
		}
		if !full {
			s.samples = append(s.samples[:len(s.samples):len(s.samples)], [2]int64{int64(o.g), int64(o.n)})
		}
		return s, true
	case opInfo:
		return s, o.count == len(s.samples)
	case opResolve:
		if (len(s.samples) == 0) != o.err {
			return s, false
		}
		if o.err {
			return s, true
		}
		if len(o.samples) != len(s.samples) || o.meta != s.meta {
			return s, false
		}
		for i := range o.samples {
			if o.samples[i] != s.samples[i] {
				return s, false
			}
		}
		return s, true
	case opReset:
		s.samples = nil
		if kind != ckBase {
			s.meta = -1
		}
		return s, true
	case opMeta:
		s.meta = o.meta
		return s, !o.err
	}
	panic("op")
}

func linearizable(kind, max int, ops []c07op) bool {
	seen := map[string]bool{}
	var try func(done uint32, s c07state) bool
	try = func(done uint32, s c07state) bool {
		if done == 1<<len(ops)-1 {
			return true
		}
		key := fmt.Sprint(done, s)
		if seen[key] {
			return false
		}
		seen[key] = true
		first := int64(1 << 62)
		for i, o := range ops {
			if done&(1<<i) == 0 && o.ret < first {
				first = o.ret
			}
		}
		for i, o := range ops {
			if done&(1<<i) != 0 || o.call > first {
				continue
			}
			if n, ok := s.step(kind, max, o); ok && try(done|1<<i, n) {
				return true
			}
		}
		return false
	}
	return try(0, c07state{meta: -1})
}

func c07(t *T) {
	kind := t.Int(3) // base, batch, dynamic
	max := 1 + t.Int(5)
	var inner ftdc.Collector
	switch kind {
	case ckBase:
		inner = ftdc.NewBaseCollector(max)
	case ckBatch:
		inner = ftdc.NewBatchCollector(max)
	default:
		inner = ftdc.NewDynamicCollector(max)
	}
	c := ftdc.NewSynchronizedCollector(inner)
	var mu sync.Mutex
	var ops []c07op
	var wg sync.WaitGroup
	for g, n := 0, 2+t.Int(2); g < n; g++ {
		kinds := make([]int, 1+t.Int(4))
		metas := make([]int64, len(kinds))
		for i := range kinds {
			kinds[i] = []int{opAdd, opAdd, opAdd, opResolve, opInfo, opReset, opMeta}[t.Int(7)]
			metas[i] = int64(t.Int(4)) - 1
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, k := range kinds {
				o := c07op{kind: k, g: g, n: i, call: t.seq(), meta: -1}
				switch k {
				case opAdd:
					o.err = c.Add(birch.DC.Elements(birch.EC.Int64("g", int64(g)), birch.EC.Int64("n", int64(i)))) != nil
				case opInfo:
					info := c.Info()
					o.count, o.metrics = info.SampleCount, info.MetricsCount
				case opReset:
					c.Reset()
				case opMeta:
					o.meta = metas[i]
					if o.meta < 0 {
						o.err = c.SetMetadata(nil) != nil
					} else {
						o.err = c.SetMetadata(birch.DC.Elements(birch.EC.Int64("m", o.meta))) != nil
					}
				case opResolve:
					b, err := c.Resolve()
					o.err = err != nil
					o.ret = t.seq()
					if err == nil {
						o.samples = decodePairs(t, b)
						o.meta = streamMeta(t, b)
					}
				}
				if o.ret == 0 {
					o.ret = t.seq()
				}
				mu.Lock()
				ops = append(ops, o)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	t.Check()
	// what is left closes the history
	fin := c07op{kind: opResolve, g: 99, call: t.seq(), meta: -1}
	b, err := c.Resolve()
	fin.err = err != nil
	if err == nil {
		fin.samples, fin.meta = decodePairs(t, b), streamMeta(t, b)
	}
	fin.ret = t.seq()
	ops = append(ops, fin)
	if !linearizable(kind, max, ops) {
		s := ""
		for _, o := range ops {
			s += "\n  " + o.String()
		}
		t.Fail("not-linearizable", "%s(%d): no sequential order explains:%s", collectorNames[kind], max, s)
	}
	t.Probe("linearized-" + collectorNames[kind])
}

// streamMeta gives the m field of the first metadata document.
func streamMeta(t *T, b []byte) int64 {
	segs := parseStream(t, b)
	for _, s := range segs {
		if s.meta {
			d, err := birch.ReadDocument(b[s.start:s.end])
			if err != nil {
				t.Fail("undecodable", "metadata: %v", err)
			}
			v, _ := d.Lookup("doc").MutableDocument().Lookup("m").Int64OK()
			return v
		}
	}
	return -1
}

// ---- C09: the collector that samples by time.

func c09sampling(t *T) {
	iv := []time.Duration{0, 1, time.Microsecond, time.Millisecond, 7 * time.Millisecond, time.Second, 5 * time.Minute}[t.Int(7)]
	stub := &stubCollector{t: t}
	if t.Chance(1, 3) {
		stub.fail = func(n int, in any) error {
			if t.Chance(1, 3) {
				return errCollector
			}
			return nil
		}
	}
	c := ftdc.NewSamplingCollector(iv, stub)
	start := time.Now()
	// the time of the last collection is known to be within lo..hi
	var lo, hi time.Duration
	first := true
	for i, n := 0, 1+t.Int(12); i < n; i++ {
		time.Sleep(spacing(t, iv))
		if t.Chance(1, 16) {
			c.Reset()
			stub.failed = 0
		}
		seen := len(stub.got) + stub.failed
		failed := stub.failed
		before := time.Since(start)
		err := c.Add(i)
		after := time.Since(start)
		t.Check()
		passed := len(stub.got)+stub.failed > seen
		if len(stub.got)+stub.failed > seen+1 {
			t.Fail("duplicated", "sample %d was passed on more than once", i)
		}
		if passed != (err != nil) && stub.failed > failed {
			t.Fail("error-lost", "the collector refused sample %d and Add reported %v", i, err)
		}
		if err != nil && stub.failed == failed {
			t.Fail("unexpected-error", "Add: %v", err)
		}
		switch {
		case first && !passed:
			t.Fail("dropped", "the first sample was not passed on")
		case !first && !passed && before-hi >= iv:
			t.Fail("dropped", "sample %d came %v after the last one (interval %v) and was not passed on", i, before-hi, iv)
		case !first && passed && after-lo < iv:
			t.Fail("too-early", "sample %d came at most %v after the last one (interval %v) and was passed on", i, after-lo, iv)
		}
		if passed {
			if got := lastOf(stub); stub.failed == failed && got != i {
				t.Fail("wrong-sample", "sample %v was passed on instead of %d", got, i)
			}
			lo, hi, first = before, after, false
			t.Probe("passed-on")
		} else {
			t.Probe("skipped")
		}
	}
}

func lastOf(c *stubCollector) any {
	if len(c.got) == 0 {
		return nil
	}
	return c.got[len(c.got)-1]
}

// spacing chooses a pause around an interval.
func spacing(t *T, iv time.Duration) time.Duration {
	switch t.Int(6) {
	case 0:
		return 0
	case 1:
		return iv
	case 2:
		return iv / 2
	case 3:
		return iv + time.Duration(t.Int(3000))
	case 4:
		return max(0, iv-time.Duration(t.Int(3000)))
	}
	return time.Duration(t.Int(int(min(iv, time.Second))*2 + 1))
}
