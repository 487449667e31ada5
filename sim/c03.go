package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"io"
	"sync"

	"github.com/tychoish/birch"
)

func init() {
	register("C03", "cut", 1, c03)
	register("C05", "abandon", 1, c05)
}

// A segment is one outer document of an FTDC stream, found without the code
// under test.
type segment struct {
	start, end int
	meta       bool
	samples    int
}

// parseStream finds the documents of a stream that the harness had written.
func parseStream(t *T, b []byte) []segment {
	var out []segment
	for at := 0; at < len(b); {
		if len(b)-at < 5 {
			t.Fail("malformed-output", "%d stray bytes at the end of a stream", len(b)-at)
		}
		n := int(binary.LittleEndian.Uint32(b[at:]))
		if n < 5 || at+n > len(b) {
			t.Fail("malformed-output", "document of %d bytes at %d of a stream of %d bytes", n, at, len(b))
		}
		s := segment{start: at, end: at + n}
		data, binAt := binaryField(b[at : at+n])
		if binAt < 0 {
			s.meta = true
		} else {
			payload := inflate(t, data)
			ref := int(binary.LittleEndian.Uint32(payload))
			s.samples = int(binary.LittleEndian.Uint32(payload[ref+4:])) + 1
		}
		out = append(out, s)
		at += n
	}
	return out
}

// binaryField finds the top-level binary "data" of a chunk document.
func binaryField(doc []byte) ([]byte, int) {
	i := bytes.Index(doc, []byte("\x05data\x00"))
	if i < 0 || bytes.Contains(doc[:i], []byte("\x03doc\x00")) {
		return nil, -1
	}
	n := int(binary.LittleEndian.Uint32(doc[i+6:]))
	at := i + 6 + 5
	if at+n > len(doc) {
		return nil, -1
	}
	return doc[at : at+n], at
}

func inflate(t *T, data []byte) []byte {
	z, err := zlib.NewReader(bytes.NewReader(data[4:]))
	if err != nil {
		t.Fail("malformed-output", "chunk payload: %v", err)
	}
	payload, err := io.ReadAll(z)
	if err != nil {
		t.Fail("malformed-output", "chunk payload: %v", err)
	}
	return payload
}

// ftdcStream is a stream of one or several collectors, with what it holds.
type ftdcStream struct {
	b     []byte
	ss    []sample
	segs  []segment
	metas []*birch.Document // per segment: the metadata it carries
}

func genStream(t *T, parts int) *ftdcStream {
	st := &ftdcStream{}
	for p := 0; p < parts; p++ {
		ck := t.Int(numCollectors)
		max := 1 + t.Int(5)
		fs := metricSchema(t, 1+t.Int(4), t.Int(3), allKinds)
		n := 1 + t.Int(3*max+2)
		if ck == ckBase {
			n = 1 + t.Int(max+1)
		}
		ss := genSamples(t, fs, n)
		var meta *birch.Document
		if ck != ckWriter && t.Chance(1, 2) {
			m := metricSchema(t, 3, 1, []fieldKind{kInt64, kString, kDouble})
			meta = doc(m, genVals(t, m, nil))
		}
		b := makeStream(t, ck, max, ss, meta, false)
		segs := parseStream(t, b)
		total := 0
		for _, s := range segs {
			s.start += len(st.b)
			s.end += len(st.b)
			total += s.samples
			st.segs = append(st.segs, s)
			if s.meta {
				st.metas = append(st.metas, meta)
			} else {
				st.metas = append(st.metas, nil)
			}
		}
		if total != len(ss) {
			t.Fail("malformed-output", "%s(%d): stream says %d samples, %d were added", collectorNames[ck], max, total, len(ss))
		}
		st.b = append(st.b, b...)
		st.ss = append(st.ss, ss...)
	}
	return st
}

// before says what a reader must give of the documents that end at or before
// a byte.
func (st *ftdcStream) before(cut int) (samples int, meta *birch.Document, boundary bool) {
	boundary = cut == 0
	for i, s := range st.segs {
		if s.end > cut {
			break
		}
		boundary = s.end == cut
		samples += s.samples
		if s.meta {
			meta = st.metas[i]
		}
	}
	return
}

// genCut picks a byte of the stream, often near a boundary.
func (st *ftdcStream) genCut(t *T) int {
	if t.Chance(1, 2) {
		s := st.segs[t.Int(len(st.segs))]
		c := s.start
		if t.Chance(1, 2) {
			c = s.end
		}
		switch t.Int(4) {
		case 1:
			c += 1 + t.Int(8)
		case 2:
			c -= 1 + t.Int(8)
		case 3:
			c = s.start + 4
		}
		if c < 0 {
			c = 0
		}
		if c > len(st.b) {
			c = len(st.b)
		}
		return c
	}
	return t.Int(len(st.b) + 1)
}

var errReset = errors.New("sim: connection reset by peer")

func c03(t *T) {
	par := 1
	if t.Chance(1, 4) {
		par = 2
	}
	var wg sync.WaitGroup
	for p := 0; p < par; p++ {
		st := genStream(t, 1+t.Int(3))
		kind := t.Int(numReaders)
		cut := st.genCut(t)
		fail := t.Chance(1, 2)
		r := NewReader(t, st.b)
		if fail {
			r.failAt = cut
			r.err = []error{errDisk, errReset, io.ErrUnexpectedEOF, io.ErrClosedPipe}[t.Int(4)]
		} else {
			r.data = st.b[:cut]
			t.Fault("truncation")
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			n, meta, boundary := st.before(cut)
			rb := readStream(r, kind, -1, nil)
			t.Log("read %d items, cut %d of %d, fail %v", len(rb.items), cut, len(st.b), fail)
			what := "truncated stream"
			if fail {
				what = "failing stream"
			}
			compareRead(t, what, kind, rb, st.ss[:n])
			t.Check()
			switch {
			case fail && rb.err == nil:
				t.Fail("error-lost", "the source failed at byte %d of %d (%v) and Close reported nothing after %s", cut, len(st.b), r.err, readerNames[kind])
			case !fail && boundary && rb.err != nil:
				t.Fail("unexpected-error", "the stream ends after a whole document (byte %d) and Close reported %v", cut, rb.err)
			case !fail && !boundary && rb.err == nil:
				t.Fail("error-lost", "the stream ends inside a document (byte %d of %d) and Close reported nothing after %s", cut, len(st.b), readerNames[kind])
			}
			checkMeta(t, what, rb, meta)
			t.Probe("read-" + readerNames[kind])
			if boundary {
				t.Probe("cut-at-boundary")
			} else {
				t.Probe("cut-inside")
			}
		}()
	}
	wg.Wait()
}

func c05(t *T) {
	par := 1
	if t.Chance(1, 4) {
		par = 2
	}
	var wg sync.WaitGroup
	for p := 0; p < par; p++ {
		st := genStream(t, 1+t.Int(2))
		kind := t.Int(numReaders)
		r := NewReader(t, st.b)
		total := len(st.ss)
		if kind != rStructured && kind != rFlat {
			total = 0
			for _, s := range st.segs {
				if !s.meta {
					total++
				}
			}
		}
		stop := t.Int(total + 1)
		mode := t.Int(4) // 0 plain, 1 source blocks, 2 blocks and then fails, 3 consumer panics
		if mode == 1 || mode == 2 {
			// everything the consumer will see is there; what follows is not
			need, seen := 0, 0
			for _, s := range st.segs {
				if seen >= stop {
					break
				}
				need = s.end
				if kind == rStructured || kind == rFlat {
					seen += s.samples
				} else if !s.meta {
					seen++
				}
			}
			r.gate = make(chan struct{})
			r.blockAt = need + t.Int(len(st.b)-need+1)
			if mode == 2 {
				r.failAt = r.blockAt
				r.err = errReset
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			t.phase = "iterating"
			var rb readBack
			if mode == 3 && stop > 0 {
				func() {
					defer func() {
						if x := recover(); x != any("consumer") {
							t.Fail("panic", "iteration panicked with %v", x)
						}
					}()
					n := 0
					readStream(r, kind, -1, func(int) {
						if n++; n == stop {
							t.Fault("consumer-panic")
							panic("consumer")
						}
					})
				}()
				t.Check()
				t.Probe("consumer-panicked")
				return
			}
			rb = readStream(r, kind, stop, nil)
			t.Fault("consumer-stops")
			what := "abandoned stream"
			t.Check()
			seen := 0
			switch kind {
			case rStructured, rFlat:
				seen = len(rb.items)
				compareRead(t, what, kind, rb, st.ss[:min(seen, len(st.ss))])
			case rMatrix, rSeries:
				seen = len(rb.cols)
				rows := 0
				for _, d := range rb.cols {
					rows += columnLen(d)
				}
				compareRead(t, what, kind, rb, st.ss[:min(rows, len(st.ss))])
			default:
				seen = len(rb.sizes)
				compareRead(t, what, kind, rb, st.ss[:min(len(rb.items), len(st.ss))])
			}
			if seen != stop {
				t.Fail("wrong-prefix", "%s gave %d items instead of the %d that were asked for (close: %v)", readerNames[kind], seen, stop, rb.err)
			}
			if mode != 2 && rb.err != nil {
				t.Fail("unexpected-error", "stopping %s after %d of %d items: Close: %v", readerNames[kind], stop, total, rb.err)
			}
			t.Probe("stop-" + readerNames[kind])
			if stop == 0 {
				t.Probe("never-iterated")
			}
			if r.gate != nil {
				if r.Blocked > 0 {
					t.Probe("stopped-while-source-blocked")
				}
				close(r.gate) // the pending read returns
			}
		}()
	}
	wg.Wait()
	t.phase = "waiting for goroutines to end"
}
