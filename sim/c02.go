package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
)

func init() {
	register("C02", "writes", 1, c02)
	register("C08", "dynamic", 3, c08dynamic)
	register("C08", "fixed", 1, c08fixed)
}

const (
	skStreaming = iota
	skDynamic
	skWriter
	skUncBSON
	skUncJSON
	skDynUncBSON
	skDynUncJSON
	numStreamKinds
)

var streamNames = []string{"streaming", "streaming-dynamic", "document-writer", "streaming-bson", "streaming-json", "streaming-dynamic-bson", "streaming-dynamic-json"}

func skDynamicKind(k int) bool {
	return k == skDynamic || k == skWriter || k == skDynUncBSON || k == skDynUncJSON
}

func newStream(k, max int, w io.WriteCloser) (ftdc.Collector, io.WriteCloser) {
	switch k {
	case skStreaming:
		return ftdc.NewStreamingCollector(max, w), nil
	case skDynamic:
		return ftdc.NewStreamingDynamicCollector(max, w), nil
	case skWriter:
		return nil, ftdc.NewWriterCollector(max, w)
	case skUncBSON:
		return ftdc.NewStreamingUncompressedCollectorBSON(max, w), nil
	case skUncJSON:
		return ftdc.NewStreamingUncompressedCollectorJSON(max, w), nil
	case skDynUncBSON:
		return ftdc.NewStreamingDynamicUncompressedCollectorBSON(max, w), nil
	case skDynUncJSON:
		return ftdc.NewStreamingDynamicUncompressedCollectorJSON(max, w), nil
	}
	panic("kind")
}

// decodeWrite gives the samples in one successful write, in the notation of
// sampleAs, and whether it began with the metadata.
func decodeWrite(t *T, k int, p []byte, meta *birch.Document) (out []string, hasMeta bool) {
	switch k {
	case skStreaming, skDynamic, skWriter:
		rb := readStream(bytes.NewReader(p), rStructured, -1, nil)
		if rb.err != nil {
			t.Fail("malformed-output", "%s: a successful write does not decode: %v", streamNames[k], rb.err)
		}
		if rb.meta != nil {
			if meta == nil {
				t.Fail("metadata", "%s: metadata %s although none was set", streamNames[k], got(rb.meta))
			}
			checkMeta(t, streamNames[k], rb, meta)
			hasMeta = true
		}
		return rb.items, hasMeta
	case skUncBSON, skDynUncBSON:
		var mb []byte
		if meta != nil {
			mb, _ = meta.MarshalBSON()
		}
		for len(p) > 0 {
			if len(p) < 5 {
				t.Fail("malformed-output", "%s: %d stray bytes", streamNames[k], len(p))
			}
			n := int(int32(binary.LittleEndian.Uint32(p)))
			if n < 5 || n > len(p) {
				t.Fail("malformed-output", "%s: not a sequence of BSON documents", streamNames[k])
			}
			if mb != nil && !hasMeta && len(out) == 0 && bytes.Equal(mb, p[:n]) {
				hasMeta = true
			} else {
				out = append(out, fmt.Sprintf("%x", p[:n]))
			}
			p = p[n:]
		}
	case skUncJSON, skDynUncJSON:
		var mj []byte
		if meta != nil {
			mj, _ = meta.MarshalJSON()
		}
		for len(p) > 0 {
			i := bytes.IndexByte(p, '\n')
			if i < 0 {
				t.Fail("malformed-output", "%s: last line is not terminated", streamNames[k])
			}
			if mj != nil && !hasMeta && len(out) == 0 && bytes.Equal(mj, p[:i]) {
				hasMeta = true
			} else {
				out = append(out, string(p[:i]))
			}
			p = p[i+1:]
		}
	}
	return out, hasMeta
}

func sampleAs(t *T, k int, s sample) string {
	switch k {
	case skUncBSON, skDynUncBSON:
		return fmt.Sprintf("%x", s.bson(t))
	case skUncJSON, skDynUncJSON:
		b, err := s.doc().MarshalJSON()
		if err != nil {
			t.Harness("json: %v", err)
		}
		return string(b)
	}
	return s.structured()
}

var errNoSpace = errors.New("sim: no space left on device")

// faultPlan makes a writer fail now and then, until *faulty is cleared.
func faultPlan(t *T, oneIn int, faulty *bool) func(int, []byte) (int, error) {
	return func(_ int, p []byte) (int, error) {
		if !*faulty || !t.Chance(1, oneIn) {
			return len(p), nil
		}
		switch t.Int(5) {
		case 0:
			t.Fault("write-error")
			return 0, errNoSpace
		case 1:
			t.Fault("write-error-torn")
			return t.Int(len(p)), errDisk
		case 2:
			t.Fault("write-short")
			return t.Int(len(p)), nil
		case 3:
			t.Fault("write-short-by-one")
			return len(p) - 1, nil
		default:
			t.Fault("write-error-after-all")
			return len(p), errDisk
		}
	}
}

// sharedLog is the order of the successful writes to several destinations.
type sharedLog struct {
	w   *Writer
	log *[][]byte
}

func (s sharedLog) Write(p []byte) (int, error) {
	n, err := s.w.Write(p)
	if err == nil && n == len(p) {
		*s.log = append(*s.log, append([]byte(nil), p...))
	}
	return n, err
}
func (s sharedLog) Close() error { return s.w.Close() }

func c02(t *T) {
	k := t.Int(numStreamKinds)
	max := 1 + t.Int(5)
	faulty := true
	oneIn := []int{2, 3, 6}[t.Int(3)]
	var writes [][]byte
	mk := func() sharedLog {
		w := NewWriter(t)
		w.plan = faultPlan(t, oneIn, &faulty)
		return sharedLog{w, &writes}
	}
	main, side := mk(), mk()
	c, wc := newStream(k, max, main)
	kinds := metricKinds
	if t.Chance(1, 3) {
		kinds = allKinds
	}
	schemas := [][]field{metricSchema(t, 4, t.Int(2), kinds)}
	if skDynamicKind(k) {
		for i := t.Int(3); i > 0; i-- {
			schemas = append(schemas, mutateSchema(t, schemas[t.Int(len(schemas))], kinds))
		}
	}
	var meta *birch.Document
	if c != nil && t.Chance(1, 8) {
		if err := c.SetMetadata(birch.DC.Elements(birch.EC.Int64("old", 1))); err != nil {
			t.Fail("unexpected-error", "SetMetadata: %v", err)
		}
		if err := c.SetMetadata([]any{nil, (*birch.Document)(nil)}[t.Int(2)]); err != nil {
			t.Fail("unexpected-error", "SetMetadata(nil): %v", err)
		}
		t.Probe("metadata-removed")
	}
	if c != nil && t.Chance(1, 3) {
		meta = birch.DC.Elements(birch.EC.Int64("meta!", 42))
		if err := c.SetMetadata(meta); err != nil {
			t.Fail("unexpected-error", "SetMetadata: %v", err)
		}
	}
	var (
		want   []string // accepted, not discarded
		nw     int      // writes decoded
		done   []string // decoded so far
		prev   []val
		prevFS int
	)
	settle := func(op string) {
		t.Check()
		for ; nw < len(writes); nw++ {
			items, _ := decodeWrite(t, k, writes[nw], meta)
			done = append(done, items...)
		}
		for i := range done {
			if i >= len(want) {
				t.Fail("duplicated-samples", "%s(%d): after %s the destination holds %d samples, %d were accepted", streamNames[k], max, op, len(done), len(want))
			}
			if done[i] != want[i] {
				t.Fail("wrong-samples", "%s(%d): after %s, sample %d\n want %s\n got  %s", streamNames[k], max, op, i, show(want[i]), show(done[i]))
			}
		}
		if c != nil {
			if n := c.Info().SampleCount; n != len(want)-len(done) {
				t.Fail("sample-count", "%s(%d): after %s: %d accepted, %d written, but %d pending", streamNames[k], max, op, len(want), len(done), n)
			}
		}
	}
	lastFS := -1 // of the last sample accepted
	errsBefore := 0
	errs := func() int { return main.w.Errs + side.w.Errs }
	nops := 4 + t.Int(30)
	for i := 0; i < nops; i++ {
		errsBefore = errs()
		switch op := t.Int(12); {
		case op < 9 || c == nil && op < 12 && op != 9:
			si := prevFS
			if t.Chance(1, 4) {
				si = t.Int(len(schemas))
			}
			if si != prevFS {
				prev = nil
			}
			prevFS = si
			prev = genVals(t, schemas[si], prev)
			s := sample{schemas[si], prev}
			repr := sampleAs(t, k, s)
			var err error
			pending, writesBefore := len(want)-len(done), len(writes)
			if c != nil {
				err = c.Add(s.input(t))
			} else {
				var n int
				b := s.bson(t)
				n, err = wc.Write(b)
				if err == nil && n != len(b) || err != nil && n != 0 {
					t.Fail("write-count", "document writer: Write gave %d, %v for %d bytes", n, err, len(b))
				}
			}
			t.Log("add #%d schema %d: %v", i, si, err)
			if len(writes) != writesBefore || errs() != errsBefore {
				// written of its own accord
				if pending < max && si == lastFS {
					t.Fail("too-early", "%s(%d): Add wrote with %d samples pending, of the same schema", streamNames[k], max, pending)
				}
				t.Probe("own-accord")
			} else if pending > max {
				t.Fail("chunk-too-big", "%s(%d): Add did not write with %d samples pending", streamNames[k], max, pending)
			}
			if err == nil {
				lastFS = si
				want = append(want, repr)
			} else if errs() == errsBefore {
				t.Fail("unexpected-error", "%s(%d): Add failed although no write did: %v", streamNames[k], max, err)
			}
			if err == nil && errs() != errsBefore {
				t.Fail("error-lost", "%s(%d): a write failed during an Add that reported success", streamNames[k], max)
			}
			settle("Add")
		case op == 9:
			if c == nil {
				// Close flushes first: a failed flush must leave it usable
				closes := main.w.Closes
				if t.Chance(1, 4) {
					main.w.closeErr = errDisk
				}
				err := wc.Close()
				t.Log("close: %v", err)
				if main.w.closeErr != nil {
					main.w.closeErr = nil
					if err == nil {
						t.Fail("error-lost", "document writer: Close of the destination failed and Close reported success")
					}
					settle("a failed Close")
					if main.w.Closes != closes {
						t.Fault("close-error")
						if len(done) != len(want) {
							t.Fail("lost-samples", "document writer: closed the destination with %d of %d samples written", len(done), len(want))
						}
					}
					t.Probe("close-failed")
					continue
				}
				if err != nil && errs() == errsBefore {
					t.Fail("unexpected-error", "document writer: Close failed although no write did: %v", err)
				}
				if err == nil && errs() != errsBefore {
					t.Fail("error-lost", "document writer: a write failed during a Close that reported success")
				}
				settle("Close")
				if err == nil {
					if len(done) != len(want) {
						t.Fail("lost-samples", "document writer: Close succeeded with %d of %d samples written", len(done), len(want))
					}
					t.Probe("closed")
					return
				}
				t.Probe("close-failed")
				continue
			}
			fallthrough
		case op == 10:
			dst := main
			if t.Chance(1, 4) {
				dst = side
			}
			if t.Chance(1, 8) {
				if err := ftdc.FlushCollector(c, nil); err == nil {
					t.Fail("error-lost", "%s(%d): flushing to no writer reported success", streamNames[k], max)
				}
				settle("a flush to no writer")
			}
			err := ftdc.FlushCollector(c, dst)
			t.Log("flush: %v", err)
			if err != nil && errs() == errsBefore {
				t.Fail("unexpected-error", "%s(%d): flush failed although no write did: %v", streamNames[k], max, err)
			}
			if err == nil && errs() != errsBefore {
				t.Fail("error-lost", "%s(%d): a write failed during a flush that reported success", streamNames[k], max)
			}
			settle("a flush")
			if err == nil && len(done) != len(want) {
				t.Fail("lost-samples", "%s(%d): flush succeeded with %d of %d samples written", streamNames[k], max, len(done), len(want))
			}
			if err != nil {
				t.Probe("flush-failed")
			}
		case op == 11:
			if t.Chance(1, 4) {
				c.Reset()
				t.Log("reset")
				want = want[:len(done):len(done)]
				settle("Reset")
				t.Probe("reset")
			} else if t.Chance(1, 2) {
				vs := genVals(t, schemas[prevFS], nil)
				what, in := badInput(t, sample{schemas[prevFS], vs})
				if err := c.Add(in); err == nil {
					t.Fail("accepted", "%s(%d): Add accepted something that is no document: %s", streamNames[k], max, what)
				}
				t.Log("bad add %s", what)
				settle("a refused Add")
				t.Probe("no-document")
			}
		}
	}
	// faults stop: a final flush must succeed and complete the history
	faulty = false
	var err error
	if c != nil {
		err = ftdc.FlushCollector(c, main)
	} else {
		err = wc.Close()
	}
	if err != nil {
		t.Fail("unexpected-error", "%s(%d): the final flush failed: %v", streamNames[k], max, err)
	}
	settle("the final flush")
	if len(done) != len(want) {
		t.Fail("lost-samples", "%s(%d): %d of %d accepted samples written after the final flush", streamNames[k], max, len(done), len(want))
	}
	t.Probe(streamNames[k])
}

// mutateSchema makes a schema that differs from another in one way.
func mutateSchema(t *T, fs []field, kinds []fieldKind) []field {
	out := make([]field, len(fs))
	copy(out, fs)
	i := t.Int(len(out))
	switch t.Int(11) {
	case 9, 10: // change what a nested document or an array holds
		if nested := mutateNested(t, out, kinds); nested {
			break
		}
		out[i] = field{key: out[i].key, kind: kArray, sub: []field{{key: "p", kind: kString}, {key: "q", kind: kInt64}}}
	case 0: // rename
		out[i].key += "'"
	case 1: // retype
		for n := 0; n < 8; n++ {
			if k := metricKinds[t.Int(6)]; k != out[i].kind {
				out[i] = field{key: out[i].key, kind: k}
				break
			}
		}
	case 2: // group into a document
		out[i] = field{key: "g", kind: kDoc, sub: []field{out[i]}}
	case 3: // the same flattened path without nesting
		for j := range out {
			if out[j].kind == kDoc && len(out[j].sub) == 1 {
				out[j] = field{key: out[j].key + "." + out[j].sub[0].key, kind: out[j].sub[0].kind, sub: out[j].sub[0].sub}
				break
			}
		}
	case 4: // add
		out = append(out, field{key: fmt.Sprintf("n%d", t.Int(100)), kind: kInt64})
	case 5: // remove
		if len(out) > 1 {
			out = append(out[:i:i], out[i+1:]...)
		} else {
			out[i].key += "\""
		}
	case 6: // split the names differently
		if len(out) > 1 && i+1 < len(out) {
			out[i].key, out[i+1].key = out[i].key+"."+out[i+1].key, "q"
		} else {
			out[i].key += ".q"
		}
	case 7: // reorder
		j := t.Int(len(out))
		out[i], out[j] = out[j], out[i]
	case 8: // a field that is not a metric
		out = append(out, field{key: "s", kind: kString})
	}
	if !hasMetric(out) {
		out = append(out, field{key: "m", kind: kInt64})
	}
	return out
}

// mutateNested changes one of the nested documents or arrays, mostly only the
// places of the metrics in it.
func mutateNested(t *T, fs []field, kinds []fieldKind) bool {
	var at []int
	for i, f := range fs {
		if (f.kind == kDoc || f.kind == kArray) && len(f.sub) > 0 {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return false
	}
	f := &fs[at[t.Int(len(at))]]
	sub := append([]field(nil), f.sub...)
	i, j := t.Int(len(sub)), t.Int(len(sub))
	other := []fieldKind{kString, kOID, kNull}[t.Int(3)]
	switch t.Int(4) {
	case 0: // what is no metric before a metric
		sub = append(sub[:i:i], append([]field{{key: fmt.Sprintf("o%d", t.Int(9)), kind: other}}, sub[i:]...)...)
		t.Probe("moved-metrics")
	case 1:
		sub[i], sub[j] = sub[j], sub[i]
	case 2:
		switch sub[i].kind {
		case kString, kOID, kNull:
			if len(sub) > 1 {
				sub = append(sub[:i:i], sub[i+1:]...)
			}
		default:
			f.sub = mutateSchema(t, sub, kinds)
			return true
		}
	case 3:
		if f.kind == kArray {
			f.kind = kDoc
			for i := range sub {
				sub[i].key = fmt.Sprint(i)
			}
		} else {
			f.kind = kArray
		}
	}
	f.sub = sub
	return true
}

// dupPaths: whether there are fields of the same path.
func dupPaths(fs []field) bool {
	seen := map[string]bool{}
	dup := false
	var visit func(prefix string, fs []field, array bool)
	visit = func(prefix string, fs []field, array bool) {
		for i, f := range fs {
			p := prefix + f.key
			if array {
				p = fmt.Sprintf("%s%d", prefix, i)
			}
			if seen[p] {
				dup = true
			}
			seen[p] = true
			visit(p+".", f.sub, f.kind == kArray)
		}
	}
	visit("", fs, false)
	return dup
}

func sameSchema(a, b []field) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].key != b[i].key || a[i].kind != b[i].kind || !sameSchema(a[i].sub, b[i].sub) {
			return false
		}
	}
	return true
}

func c08dynamic(t *T) {
	// 0: dynamic; 1..: streaming kinds
	kinds := []int{-1, skDynamic, skWriter, skDynUncBSON, skDynUncJSON}
	k := kinds[t.Int(len(kinds))]
	max := 1 + t.Int(5)
	fk := metricKinds
	if t.Chance(1, 3) {
		fk = allKinds
	}
	schemas := [][]field{metricSchema(t, 4, t.Int(3), fk)}
	for i := 1 + t.Int(3); i > 0; i-- {
		schemas = append(schemas, mutateSchema(t, schemas[t.Int(len(schemas))], fk))
	}
	var (
		ss   []sample
		prev []val
		si   int
	)
	for i, n := 0, 2+t.Int(24); i < n; i++ {
		if t.Chance(2, 5) {
			si = t.Int(len(schemas))
			prev = nil
		}
		prev = genVals(t, schemas[si], prev)
		ss = append(ss, sample{schemas[si], prev})
	}
	var meta *birch.Document
	if k != skWriter && t.Chance(1, 2) {
		meta = birch.DC.Elements(birch.EC.Int64("meta!", 42))
	}
	name := "dynamic"
	var chunks [][]string
	var stream []byte
	if k < 0 {
		c := ftdc.NewDynamicCollector(max)
		if t.Chance(1, 4) {
			for i := 0; i < 1+t.Int(len(ss)); i++ {
				c.Add(ss[i].input(t))
			}
			c.Reset()
			t.Probe("reset")
		}
		if meta != nil {
			if err := c.SetMetadata(meta); err != nil {
				t.Fail("unexpected-error", "SetMetadata: %v", err)
			}
		}
		for i := range ss {
			if err := c.Add(ss[i].input(t)); err != nil {
				t.Fail("refused", "dynamic(%d): Add #%d: %v", max, i, err)
			}
			if n := c.Info().SampleCount; n != i+1 {
				t.Fail("sample-count", "dynamic(%d): %d samples after %d", max, n, i+1)
			}
		}
		b, err := c.Resolve()
		if err != nil {
			t.Fail("unexpected-error", "dynamic: Resolve: %v", err)
		}
		stream = b
	} else {
		name = streamNames[k]
		w := NewWriter(t)
		faulty := t.Chance(1, 3)
		if faulty {
			w.plan = faultPlan(t, 3, &faulty)
		}
		c, wc := newStream(k, max, w)
		if meta != nil {
			if err := c.SetMetadata(meta); err != nil {
				t.Fail("unexpected-error", "SetMetadata: %v", err)
			}
		}
		for i := range ss {
			var err error
			for {
				errs := w.Errs
				if c != nil {
					err = c.Add(ss[i].input(t))
				} else {
					_, err = wc.Write(ss[i].bson(t))
				}
				if err == nil || w.Errs == errs {
					break // refused for another reason than a failed write
				}
				t.Probe("tried-again")
			}
			if err != nil {
				t.Fail("refused", "%s(%d): Add #%d: %v", name, max, i, err)
			}
		}
		var err error
		faulty = false
		if c != nil {
			err = ftdc.FlushCollector(c, w)
		} else {
			err = wc.Close()
		}
		if err != nil {
			t.Fail("unexpected-error", "%s(%d): flush: %v", name, max, err)
		}
		stream = nil
		for i, p := range w.accepted {
			items, hasMeta := decodeWrite(t, k, p, meta)
			if meta != nil && !hasMeta {
				t.Fail("metadata", "%s(%d): write %d does not carry the metadata", name, max, i)
			}
			chunks = append(chunks, items)
			stream = append(stream, p...)
		}
	}
	t.Check()
	if k < 0 || k == skDynamic || k == skWriter {
		kind := t.Int(numReaders)
		if readerNames[kind] == "series" {
			// a map by path has no room for fields of the same path
			for _, fs := range schemas {
				if dupPaths(fs) {
					kind = 0
				}
			}
		}
		rb := readStream(NewReader(t, stream), kind, -1, nil)
		compareRead(t, name, kind, rb, ss)
		if rb.err != nil {
			t.Fail("unexpected-error", "%s: reading: %v", name, rb.err)
		}
		checkMeta(t, name, rb, meta)
		at := 0
		for _, s := range parseStream(t, stream) {
			if s.meta {
				continue
			}
			chunkRule(t, name, max, ss, at, s.samples)
			at += s.samples
		}
	} else {
		at := 0
		for _, items := range chunks {
			for j, it := range items {
				if at+j >= len(ss) {
					t.Fail("extra-samples", "%s(%d): more samples than were added", name, max)
				}
				if w := sampleAs(t, k, ss[at+j]); w != it {
					t.Fail("wrong-samples", "%s(%d): sample %d\n want %s\n got  %s", name, max, at+j, show(w), show(it))
				}
			}
			chunkRule(t, name, max, ss, at, len(items))
			at += len(items)
		}
		if at != len(ss) {
			t.Fail("missing-samples", "%s(%d): %d of %d samples written", name, max, at, len(ss))
		}
	}
	t.Probe(name)
}

// chunkRule: a chunk ends when it is full, when the schema changes, or at the end.
func chunkRule(t *T, name string, max int, ss []sample, at, n int) {
	t.Check()
	if n > max+1 {
		t.Fail("chunk-too-big", "%s: chunk of %d samples with a maximum of %d", name, n, max)
	}
	end := at + n
	if end < len(ss) && n < max && end > 0 && sameSchema(ss[end-1].fs, ss[end].fs) {
		t.Fail("chunk-split", "%s: a chunk of %d samples (maximum %d) ends at sample %d although the schema does not change there", name, n, max, end)
	}
}

func c08fixed(t *T) {
	k := t.Int(5) // base, batch, streaming, uncompressed bson, json
	max := 1 + t.Int(5)
	name := []string{"base", "batch", "streaming", "uncompressed-bson", "uncompressed-json"}[k]
	w := NewWriter(t)
	var c ftdc.Collector
	switch k {
	case 0:
		c = ftdc.NewBaseCollector(max)
	case 1:
		c = ftdc.NewBatchCollector(max)
	case 2:
		c = ftdc.NewStreamingCollector(max, w)
	case 3:
		c = ftdc.NewUncompressedCollectorBSON(max)
	case 4:
		c = ftdc.NewUncompressedCollectorJSON(max)
	}
	fs := metricSchema(t, 4, t.Int(2), metricKinds)
	var bads [][]field
	for i := 1 + t.Int(2); i > 0; i-- {
		b := append([]field(nil), fs...)
		j := t.Int(len(b))
		switch t.Int(3) {
		case 0:
			b = append(b, field{key: "zz", kind: kInt64})
		case 1:
			if len(b) > 1 {
				b = append(b[:j:j], b[j+1:]...)
			} else {
				b = append(b, field{key: "zz", kind: kBool})
			}
		case 2:
			if k >= 3 {
				b = append(b, field{key: "zy", kind: kString}) // only the number of fields counts
			} else if b[j].kind == kInt64 {
				b[j] = field{key: b[j].key, kind: kDouble}
			} else {
				b[j] = field{key: b[j].key, kind: kInt64}
				if fs[j].kind == kDoc || fs[j].kind == kArray {
					b = append(b, field{key: "zx", kind: kInt64}, field{key: "zw", kind: kInt64}, field{key: "zv", kind: kInt64}, field{key: "zu", kind: kInt64})
				}
			}
		}
		if schemaSig(b) != schemaSig(fs) || k >= 3 {
			bads = append(bads, b)
		}
	}
	var want []sample
	var prev []val
	n := 1 + t.Int(3*max)
	full := max + 1
	if k >= 3 {
		full = max
	}
	inChunk := 0
	for i := 0; i < n; i++ {
		room := true
		switch k {
		case 0, 3, 4:
			room = len(want) < full
		case 1:
			if inChunk >= max {
				inChunk = 0
			}
		case 2:
			if inChunk >= max+1 {
				inChunk = 0
			}
		}
		if len(bads) > 0 && inChunk > 0 && t.Chance(1, 3) {
			b := bads[t.Int(len(bads))]
			s := sample{b, genVals(t, b, nil)}
			before := c.Info()
			t.Check()
			if err := c.Add(s.input(t)); err == nil {
				t.Fail("accepted", "%s(%d): a sample of another schema was accepted after %d samples", name, max, len(want))
			}
			if c.Info() != before {
				t.Fail("disturbed", "%s(%d): a refused sample changed the collector: %+v, was %+v", name, max, c.Info(), before)
			}
			t.Probe("refused")
			t.Fault("schema-change")
		}
		prev = genVals(t, fs, prev)
		s := sample{fs, prev}
		err := c.Add(s.input(t))
		if !room {
			if err == nil {
				t.Fail("overfull", "%s(%d) accepted sample %d", name, max, len(want)+1)
			}
			t.Probe("overfull")
			t.Fault("overfull")
			continue
		}
		if err != nil {
			t.Fail("unexpected-error", "%s(%d): Add #%d: %v", name, max, i, err)
		}
		want = append(want, s)
		inChunk++
	}
	if len(want) == 0 {
		return
	}
	t.Check()
	switch k {
	case 0, 1, 2:
		var b []byte
		var err error
		if k == 2 {
			err = ftdc.FlushCollector(c, w)
			b = w.buf
		} else {
			b, err = c.Resolve()
		}
		if err != nil {
			t.Fail("unexpected-error", "%s(%d): %v", name, max, err)
		}
		kind := t.Int(numReaders)
		rb := readStream(NewReader(t, b), kind, -1, nil)
		compareRead(t, name, kind, rb, want)
		if rb.err != nil {
			t.Fail("unexpected-error", "%s: reading: %v", name, rb.err)
		}
	default:
		b, err := c.Resolve()
		if err != nil {
			t.Fail("unexpected-error", "%s(%d): %v", name, max, err)
		}
		items, _ := decodeWrite(t, k-3+skUncBSON, b, nil)
		if len(items) != len(want) {
			t.Fail("missing-samples", "%s(%d): %d samples, want %d", name, max, len(items), len(want))
		}
		for i := range items {
			if g := sampleAs(t, k-3+skUncBSON, want[i]); g != items[i] {
				t.Fail("wrong-samples", "%s(%d): sample %d\n want %s\n got  %s", name, max, i, show(g), show(items[i]))
			}
		}
	}
	t.Probe(name)
}

// schemaSig is the sequence of metric types.
func schemaSig(fs []field) string {
	s := ""
	for _, f := range fs {
		switch f.kind {
		case kDoc, kArray:
			s += schemaSig(f.sub)
		case kString, kOID, kNull:
		default:
			s += fmt.Sprint(f.kind, ",")
		}
	}
	return s
}
