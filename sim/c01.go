package main

import (
	"fmt"
	"runtime"
	"sync"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
)

func init() {
	register("C01", "roundtrip", 1, c01)
}

const (
	ckBase = iota
	ckBatch
	ckDynamic
	ckStreaming
	ckStreamingDynamic
	ckWriter
	numCollectors
)

var collectorNames = []string{"base", "batch", "dynamic", "streaming", "streaming-dynamic", "writer"}

// makeStream runs samples of one schema through a collector and returns the
// bytes it produced.
func makeStream(t *T, ck int, max int, ss []sample, meta *birch.Document, check bool) []byte {
	name := collectorNames[ck]
	w := NewWriter(t)
	setMeta := func(c ftdc.Collector) {
		if check && t.Chance(1, 6) {
			// what is set last counts
			if err := c.SetMetadata(birch.DC.Elements(birch.EC.Int64("old", 1))); err != nil {
				t.Fail("unexpected-error", "%s: SetMetadata: %v", name, err)
			}
			if err := c.SetMetadata([]any{nil, (*birch.Document)(nil)}[t.Int(2)]); err != nil {
				t.Fail("unexpected-error", "%s: SetMetadata(nil): %v", name, err)
			}
		}
		if meta != nil {
			if err := c.SetMetadata(meta); err != nil {
				t.Fail("unexpected-error", "%s: SetMetadata: %v", name, err)
			}
		}
	}
	// what is no document is refused and changes nothing
	bad := func(c ftdc.Collector, i int) {
		if !check || !t.Chance(1, 24) {
			return
		}
		what, in := badInput(t, ss[i])
		before := c.Info()
		if err := c.Add(in); err == nil {
			t.Fail("accepted", "%s(%d): Add accepted something that is no document: %s", name, max, what)
		}
		t.Check()
		if after := c.Info(); after != before && ck < ckStreaming {
			t.Fail("sample-count", "%s(%d): Info was %+v and is %+v after a refused Add (%s)", name, max, before, after, what)
		}
		if in != nil && what != "nil-document" {
			if err := c.SetMetadata(in); err == nil {
				t.Fail("accepted", "%s(%d): SetMetadata accepted something that is no document: %s", name, max, what)
			}
		}
		t.Probe("no-document")
	}
	add := func(c ftdc.Collector, i int) {
		bad(c, i)
		if err := c.Add(ss[i].input(t)); err != nil {
			t.Fail("unexpected-error", "%s(%d): Add #%d: %v", name, max, i, err)
		}
	}
	switch ck {
	case ckBase, ckBatch, ckDynamic:
		var c ftdc.Collector
		switch ck {
		case ckBase:
			c = ftdc.NewBaseCollector(max)
		case ckBatch:
			c = ftdc.NewBatchCollector(max)
		case ckDynamic:
			c = ftdc.NewDynamicCollector(max)
		}
		if check && t.Chance(1, 4) {
			// a previous life that Reset must erase
			n := 1 + t.Int(max)
			if t.Chance(1, 2) { // with samples of another schema
				for _, s := range genSamples(t, metricSchema(t, 1+t.Int(4), 1, allKinds), n) {
					if err := c.Add(s.input(t)); err != nil {
						t.Fail("unexpected-error", "%s(%d): Add before Reset: %v", name, max, err)
					}
				}
				t.Probe("reset-schema")
			} else {
				for i := 0; i < n && i < len(ss); i++ {
					add(c, i)
				}
			}
			c.Reset()
			if n := c.Info().SampleCount; n != 0 {
				t.Fail("reset", "%s: %d samples after Reset", name, n)
			}
			t.Probe("reset")
		}
		setMeta(c)
		for i := range ss {
			add(c, i)
			if n := c.Info().SampleCount; check && n != i+1 {
				t.Fail("sample-count", "%s: Info reports %d samples after %d", name, n, i+1)
			}
			if check && t.Chance(1, 16) {
				if _, err := c.Resolve(); err != nil {
					t.Fail("unexpected-error", "%s: Resolve: %v", name, err)
				}
			}
		}
		if ck == ckBase && check && len(ss) == max+1 {
			for i := 0; i < 2; i++ {
				if err := c.Add(ss[t.Int(len(ss))].input(t)); err == nil {
					t.Fail("overfull", "base collector of %d accepted sample %d", max, max+2)
				}
			}
			t.Check()
			t.Probe("overfull")
			if n := c.Info().SampleCount; n != len(ss) {
				t.Fail("sample-count", "%s: Info reports %d samples after %d and a refusal", name, n, len(ss))
			}
		}
		b, err := c.Resolve()
		if err != nil {
			t.Fail("unexpected-error", "%s: Resolve: %v", name, err)
		}
		if check && t.Chance(1, 2) {
			b1 := append([]byte(nil), b...)
			b2, err := c.Resolve()
			t.Check()
			if err != nil || !equalBytes(b1, b2) {
				t.Fail("resolve-twice", "%s: second Resolve differs (%v)", name, err)
			}
			if !equalBytes(b1, b) {
				t.Fail("resolve-twice", "%s: a second Resolve changed the bytes of the first", name)
			}
		}
		return b
	case ckStreaming, ckStreamingDynamic:
		var c ftdc.Collector
		if ck == ckStreaming {
			c = ftdc.NewStreamingCollector(max, w)
		} else {
			c = ftdc.NewStreamingDynamicCollector(max, w)
		}
		setMeta(c)
		for i := range ss {
			add(c, i)
			if check && t.Chance(1, 32) {
				if err := ftdc.FlushCollector(c, w); err != nil {
					t.Fail("unexpected-error", "%s: flush: %v", name, err)
				}
			}
		}
		if err := ftdc.FlushCollector(c, w); err != nil {
			t.Fail("unexpected-error", "%s: flush: %v", name, err)
		}
		if n := c.Info().SampleCount; n != 0 {
			t.Fail("sample-count", "%s: Info reports %d samples after a flush", name, n)
		}
		return w.buf
	case ckWriter:
		c := ftdc.NewWriterCollector(max, w)
		var p []byte
		for i := range ss {
			if check && t.Chance(1, 24) {
				b := ss[i].bson(t)
				if n, err := c.Write(b[:t.Int(len(b))]); err == nil || n != 0 {
					t.Fail("accepted", "writer: Write of something that is no document gave %d, %v", n, err)
				}
				t.Probe("no-document")
			}
			p = append(p[:0], ss[i].bson(t)...)
			n, err := c.Write(p)
			if err != nil || n != len(p) {
				t.Fail("unexpected-error", "writer: Write #%d: %d, %v", i, n, err)
			}
			for j := range p {
				p[j] = 0xff // io.Writer: p may be reused
			}
		}
		if err := c.Close(); err != nil {
			t.Fail("unexpected-error", "writer: Close: %v", err)
		}
		if w.Closes != 1 {
			t.Fail("close", "writer: destination closed %d times", w.Closes)
		}
		return w.buf
	}
	panic("collector")
}

func c01(t *T) {
	par := 1
	if t.Chance(1, 4) {
		par = 2 + t.Int(2)
	}
	var wg sync.WaitGroup
	for p := 0; p < par; p++ {
		ck := t.Int(numCollectors)
		kind := t.Int(numReaders)
		max := 1 + t.Int(6)
		if t.Chance(1, 8) {
			max = 1 + t.Int(60)
		}
		kinds := allKinds
		if t.Chance(1, 3) {
			kinds = []fieldKind{allKinds[t.Int(6)]}
		}
		fs := metricSchema(t, 1+t.Int(6), t.Int(3), kinds)
		if t.Chance(1, 4) {
			fs = sortSchema(fs)
			t.Probe("maps")
		}
		n := 1 + t.Int(3*max+2)
		if ck == ckBase {
			n = 1 + t.Int(max+1)
		}
		var ss []sample
		if t.Chance(1, 500) {
			// very many metrics
			fs, ss = wideSamples(t, ck, &max)
			t.Probe("many-metrics")
		} else if t.Chance(1, 12) {
			// hardly anything changes for a long time
			max = 20 + t.Int(120)
			n = 1 + t.Int(2*max)
			if ck == ckBase {
				n = 1 + t.Int(max+1)
			}
			s := genSamples(t, fs, 1)[0]
			for i := 0; i < n; i++ {
				if t.Chance(1, 50) {
					s = sample{fs, genVals(t, fs, s.vs)}
				}
				ss = append(ss, s)
			}
			t.Probe("long-constant")
		} else {
			ss = genSamples(t, fs, n)
		}
		var meta *birch.Document
		if ck != ckWriter && t.Chance(1, 2) {
			m := metricSchema(t, 3, 1, allKinds)
			meta = doc(m, genVals(t, m, nil))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := makeStream(t, ck, max, ss, meta, true)
			what := collectorNames[ck]
			rb := readStream(NewReader(t, b), kind, -1, nil)
			compareRead(t, what, kind, rb, ss)
			if rb.err != nil {
				t.Fail("unexpected-error", "%s: reading an intact stream with %s: Close: %v", what, readerNames[kind], rb.err)
			}
			checkAllMeta(t, what, rb, meta)
			t.Probe(what)
			t.Probe("read-" + readerNames[kind])
		}()
	}
	wg.Wait()
}

// wideSamples are samples of thousands of metrics, of which a few change.
func wideSamples(t *T, ck int, max *int) ([]field, []sample) {
	width := 200 + t.Int(5000)
	runtime.SimAllowSteps(40_000_000)
	sub := make([]field, width)
	vs := make([]val, width)
	base := genInt64(t)
	for i := range sub {
		k := metricKinds[i%5]
		sub[i] = field{key: fmt.Sprint(i), kind: k}
		vs[i] = val{kind: k, i: int64(int32(base + int64(i)))}
		switch k {
		case kBool:
			vs[i].i &= 1
		case kDouble:
			vs[i] = val{kind: k, f: float64(i)}
		case kInt64:
			vs[i].i = base + int64(i)
		}
	}
	fs := []field{{key: "w", kind: kDoc, sub: sub}, {key: "n", kind: kInt64}}
	if t.Chance(1, 2) {
		fs[0].kind = kArray
	}
	*max = 1 + t.Int(3)
	n := 1 + t.Int(4)
	if ck == ckBase {
		n = 1 + t.Int(*max+1)
	}
	var ss []sample
	for i := 0; i < n; i++ {
		vs = append([]val(nil), vs...)
		for j := t.Int(4); j > 0; j-- {
			at := t.Int(width)
			vs[at] = genVal(t, sub[at], nil)
		}
		ss = append(ss, sample{fs, []val{{kind: fs[0].kind, sub: vs}, {kind: kInt64, i: genInt64(t)}}})
	}
	return fs, ss
}
