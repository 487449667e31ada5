package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/types"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/util"
)

var allKinds = []fieldKind{kInt64, kInt32, kBool, kDate, kDouble, kTimestamp, kDoc, kArray, kString, kOID, kNull}
var metricKinds = []fieldKind{kInt64, kInt32, kBool, kDate, kDouble, kTimestamp, kDoc, kArray}

// A sample is a generated metric document with the schema it was made from.
type sample struct {
	fs []field
	vs []val
}

func (s sample) doc() *birch.Document { return doc(s.fs, s.vs) }
func (s sample) structured() string   { return wantStructured(s.fs, s.vs) }
func (s sample) flat() string         { return wantFlat(s.fs, s.vs) }

func (s sample) bson(t *T) []byte {
	b, err := s.doc().MarshalBSON()
	if err != nil {
		t.Harness("marshal: %v", err)
	}
	return b
}

func metricSchema(t *T, max, depth int, kinds []fieldKind) []field {
	fs := genSchema(t, schemaOpts{maxFields: max, depth: depth, kinds: kinds})
	if !hasMetric(fs) {
		fs = append(fs, field{key: "m", kind: kInt64})
	}
	return fs
}

func genSamples(t *T, fs []field, n int) []sample {
	out := make([]sample, n)
	var prev []val
	for i := range out {
		prev = genVals(t, fs, prev)
		out[i] = sample{fs, prev}
	}
	return out
}

type docMarshaler struct{ d *birch.Document }

func (m docMarshaler) MarshalDocument() (*birch.Document, error) { return m.d, nil }

type bsonMarshaler struct{ b []byte }

func (m bsonMarshaler) MarshalBSON() ([]byte, error) { return m.b, nil }

// canMap: whether a map stands for documents of the schema, as the fields of
// maps are taken in the order of their names.
func canMap(fs []field, array bool) bool {
	for i, f := range fs {
		if f.kind == kOID || !array && i > 0 && fs[i-1].key >= f.key || !canMap(f.sub, f.kind == kArray) {
			return false
		}
	}
	return true
}

func sortSchema(fs []field) []field {
	out := append([]field(nil), fs...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].key < out[j].key })
	for i, f := range out {
		if f.kind == kDoc {
			out[i].sub = sortSchema(f.sub)
		}
	}
	return out
}

func mapOf(fs []field, vs []val) map[string]any {
	m := make(map[string]any, len(fs))
	for i, f := range fs {
		m[f.key] = mapVal(f, vs[i])
	}
	return m
}

func mapVal(f field, v val) any {
	switch f.kind {
	case kInt32:
		return int32(v.i)
	case kInt64:
		return v.i
	case kBool:
		return v.i != 0
	case kDate:
		return time.UnixMilli(v.i)
	case kDouble:
		return v.f
	case kTimestamp:
		return types.Timestamp{T: uint32(v.i), I: uint32(v.j)}
	case kString:
		return v.s
	case kDoc:
		return mapOf(f.sub, v.sub)
	case kArray:
		a := make([]any, len(f.sub))
		for i := range f.sub {
			a[i] = mapVal(f.sub[i], v.sub[i])
		}
		return a
	}
	return nil
}

// intMap gives a map of only 64-bit integers as a map of one of the integer
// types, and nil for any other.
func intMap(t *T, m map[string]any) any {
	neg := false
	for _, v := range m {
		n, ok := v.(int64)
		if !ok {
			return nil
		}
		neg = neg || n < 0
	}
	a, b, c, d := map[string]int{}, map[string]int64{}, map[string]uint{}, map[string]uint64{}
	for k, v := range m {
		n := v.(int64)
		a[k], b[k], c[k], d[k] = int(n), n, uint(n), uint64(n)
	}
	if neg {
		return []any{a, b}[t.Int(2)]
	}
	return []any{a, b, c, d}[t.Int(4)]
}

var errMarshal = errors.New("sim: cannot marshal")

type badMarshaler struct{}

func (badMarshaler) MarshalDocument() (*birch.Document, error) { return nil, errMarshal }

type badBSONMarshaler struct{}

func (badBSONMarshaler) MarshalBSON() ([]byte, error) { return nil, errMarshal }

// badInput is something that is no document.
func badInput(t *T, s sample) (string, any) {
	b := s.bson(t)
	switch t.Int(12) {
	case 0:
		return "cut", b[:t.Int(len(b))]
	case 1:
		b[t.Int(3)]++
		return "length", b
	case 2:
		b[4] = 0x60
		return "type", b
	case 3:
		return "length-marshaled", bsonMarshaler{b[:len(b)-1]}
	case 4:
		return "marshaler-error", badMarshaler{}
	case 5:
		return "bson-marshaler-error", badBSONMarshaler{}
	case 6:
		return "nil", nil
	case 7:
		return "nil-document", (*birch.Document)(nil)
	case 8:
		return "marshaled-nil", docMarshaler{nil}
	case 9:
		return "string-map", map[string]string{"a": "b"}
	case 10:
		return "empty", []byte(nil)
	}
	return "unsupported", struct{ X chan int }{}
}

// input gives the sample in one of the forms a collector takes.
func (s sample) input(t *T) any {
	if canMap(s.fs, false) && t.Chance(1, 2) {
		if m := mapOf(s.fs, s.vs); t.Chance(1, 2) {
			if im := intMap(t, m); im != nil {
				return im
			}
		} else {
			return m
		}
	}
	switch t.Int(4) {
	case 1:
		return s.bson(t)
	case 2:
		return docMarshaler{s.doc()}
	case 3:
		return bsonMarshaler{s.bson(t)}
	}
	return s.doc()
}

// how the samples were read back
const (
	rStructured = iota
	rFlat
	rMatrix
	rChunksFlat
	rChunksStructured
	rChunksRaw
	rSeries
	numReaders
)

var readerNames = []string{"structured", "flat", "matrix", "chunk-flat", "chunk-structured", "chunk-raw", "series"}

type readBack struct {
	items []string          // one per sample (structured, flat, chunk forms)
	cols  []*birch.Document // one per chunk (matrix, series)
	sizes []int             // chunk sizes (chunk forms)
	meta  *birch.Document
	early *birch.Document   // the metadata as of the first item
	metas []*birch.Document // metadata reported by each chunk and its iterators
	err   error
}

func init() {
	util.RegisterGlobalMarshaler(seriesMarshaler)
}

// seriesMarshaler stands for the bson library an application registers.
func seriesMarshaler(in any) ([]byte, error) {
	m, ok := in.(map[string]any)
	if !ok {
		return nil, fmt.Errorf("unsupported %T", in)
	}
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	d := birch.DC.Make(len(keys))
	for _, k := range keys {
		a := birch.MakeArray(4)
		switch v := m[k].(type) {
		case []int64:
			for _, x := range v {
				a.Append(birch.VC.Int64(x))
			}
		case []int32:
			for _, x := range v {
				a.Append(birch.VC.Int32(x))
			}
		case []bool:
			for _, x := range v {
				a.Append(birch.VC.Boolean(x))
			}
		case []float64:
			for _, x := range v {
				a.Append(birch.VC.Double(x))
			}
		case []time.Time:
			for _, x := range v {
				a.Append(birch.VC.Time(x))
			}
		default:
			return nil, fmt.Errorf("unsupported series %T", v)
		}
		d.Append(birch.EC.Array(k, a))
	}
	return d.MarshalBSON()
}

// readStream reads everything through one kind of reader. stop >= 0 ends the
// iteration after that many items.
func readStream(r io.Reader, kind int, stop int, each func(int)) readBack {
	var rb readBack
	n := 0
	var kept []*birch.Document // what was given stays as it was
	var meta func() *birch.Document
	more := func() bool {
		if n++; n == 1 {
			rb.early = meta()
		}
		if each != nil {
			each(n)
		}
		return stop < 0 || n < stop
	}
	switch kind {
	case rStructured, rFlat, rMatrix, rSeries:
		var it *ftdc.Iterator[*birch.Document]
		switch kind {
		case rStructured:
			it = ftdc.ReadStructuredMetrics(r)
		case rFlat:
			it = ftdc.ReadMetrics(r)
		case rMatrix:
			it = ftdc.ReadMatrix(r)
		case rSeries:
			it = ftdc.ReadSeries(r)
		}
		meta = it.Metadata
		if stop != 0 {
			for d := range it.Iterator() {
				kept = append(kept, d)
				if kind == rMatrix || kind == rSeries {
					rb.cols = append(rb.cols, d)
				} else {
					rb.items = append(rb.items, got(d))
				}
				if !more() {
					break
				}
			}
		}
		rb.err = it.Close()
		rb.meta = it.Metadata()
		for i, d := range kept {
			if i < len(rb.items) {
				if g := got(d); g != rb.items[i] {
					rb.items[i] = "<changed later to " + g + ">"
				}
			}
		}
	default:
		it := ftdc.ReadChunks(r)
		meta = it.Metadata
		var chunks []*ftdc.Chunk
		var raws []string
		if stop != 0 {
			for c := range it.Iterator() {
				rb.sizes = append(rb.sizes, c.Size())
				before := len(rb.items)
				chunks = append(chunks, c)
				raws = append(raws, strings.Join(rawItems(c), ";"))
				rb.metas = append(rb.metas, c.Metadata(), c.Iterator().Metadata(), c.StructuredIterator().Metadata())
				switch kind {
				case rChunksFlat:
					for d := range c.Iterator().Iterator() {
						rb.items = append(rb.items, got(d))
					}
				case rChunksStructured:
					for d := range c.StructuredIterator().Iterator() {
						rb.items = append(rb.items, got(d))
					}
				case rChunksRaw:
					rb.items = append(rb.items, rawItems(c)...)
				}
				if len(rb.items)-before != c.Size() {
					rb.items = append(rb.items, fmt.Sprintf("<chunk of size %d gave %d samples>", c.Size(), len(rb.items)-before))
				}
				if !more() {
					break
				}
			}
		}
		rb.err = it.Close()
		rb.meta = it.Metadata()
		for i, c := range chunks {
			if g := strings.Join(rawItems(c), ";"); g != raws[i] {
				rb.items = append(rb.items, fmt.Sprintf("<chunk %d changed later from %s to %s>", i, raws[i], g))
			}
		}
	}
	return rb
}

// rawItems renders a chunk's raw metric series row by row.
func rawItems(c *ftdc.Chunk) []string {
	out := make([]string, c.Size())
	if c.Len() != len(c.Metrics) {
		return []string{fmt.Sprintf("<Len %d for %d metrics>", c.Len(), len(c.Metrics))}
	}
	for i := range out {
		var sb strings.Builder
		for j := range c.Metrics {
			if j > 0 {
				sb.WriteByte(',')
			}
			m := &c.Metrics[j]
			if len(m.Values) != c.Size() {
				fmt.Fprintf(&sb, "<%s has %d values for %d samples>", m.Key(), len(m.Values), c.Size())
				continue
			}
			fmt.Fprintf(&sb, "%s=%d", m.Key(), m.Values[i])
		}
		out[i] = sb.String()
	}
	return out
}

func (s sample) raw() string {
	var parts []string
	flatten("", s.fs, s.vs, false, func(key string, f field, v val) {
		switch f.kind {
		case kTimestamp:
			parts = append(parts, fmt.Sprintf("%s=%d", key, v.i), fmt.Sprintf("%s.inc=%d", key, v.j))
		case kDouble:
			parts = append(parts, fmt.Sprintf("%s=%d", key, int64(f64bits(v.f))))
		default:
			parts = append(parts, fmt.Sprintf("%s=%d", key, v.i))
		}
	})
	return strings.Join(parts, ",")
}

func (s sample) as(kind int) string {
	switch kind {
	case rStructured, rChunksStructured:
		return s.structured()
	case rFlat, rChunksFlat:
		return s.flat()
	case rChunksRaw:
		return s.raw()
	}
	panic("kind")
}

// column form of a run of samples of one schema.
func wantColumns(kind int, ss []sample) string {
	if len(ss) == 0 {
		return "{}"
	}
	type col struct {
		key  string
		vals []string
	}
	var cols []*col
	for i, s := range ss {
		j := 0
		add := func(key, v string) {
			if i == 0 {
				cols = append(cols, &col{key: key})
			}
			cols[j].vals = append(cols[j].vals, v)
			j++
		}
		flatten("", s.fs, s.vs, false, func(key string, f field, v val) {
			if f.kind == kTimestamp && kind == rSeries {
				add(key, fmt.Sprintf("i64(%d)", v.i))
				add(key+".inc", fmt.Sprintf("i64(%d)", v.j))
				return
			}
			add(key, leaf(f.kind, v))
		})
	}
	if kind == rSeries {
		sort.SliceStable(cols, func(a, b int) bool { return cols[a].key < cols[b].key })
	}
	var sb strings.Builder
	sb.WriteByte('{')
	for i, c := range cols {
		if i > 0 {
			sb.WriteByte(',')
		}
		fmt.Fprintf(&sb, "%s:[{%s}]", c.key, strings.Join(c.vals, ","))
	}
	sb.WriteByte('}')
	return sb.String()
}

// compareRead checks what a reader gave against the samples, chunk sizes free
// in column form (each column document must cover the next run of samples).
func compareRead(t *T, what string, kind int, rb readBack, want []sample) {
	t.Check()
	switch kind {
	case rMatrix, rSeries:
		at := 0
		for i, d := range rb.cols {
			n := columnLen(d)
			if n < 1 || at+n > len(want) {
				t.Fail("wrong-samples", "%s: %s document %d has %d samples, %d remain", what, readerNames[kind], i, n, len(want)-at)
			}
			w, g := wantColumns(kind, want[at:at+n]), got(d)
			if w != g {
				t.Fail("wrong-samples", "%s: %s document %d (samples %d to %d)\n want %s\n got  %s", what, readerNames[kind], i, at, at+n-1, show(w), show(g))
			}
			at += n
		}
		if at != len(want) {
			t.Fail("missing-samples", "%s: %s gave %d samples, want %d (close: %v)", what, readerNames[kind], at, len(want), rb.err)
		}
	default:
		for i := range rb.items {
			if i >= len(want) {
				t.Fail("extra-samples", "%s: %s gave %d samples, want %d; first extra %s", what, readerNames[kind], len(rb.items), len(want), show(rb.items[i]))
			}
			if w := want[i].as(kind); w != rb.items[i] {
				t.Fail("wrong-samples", "%s: %s sample %d\n want %s\n got  %s", what, readerNames[kind], i, show(w), show(rb.items[i]))
			}
		}
		if len(rb.items) < len(want) {
			t.Fail("missing-samples", "%s: %s gave %d samples, want %d (close: %v)", what, readerNames[kind], len(rb.items), len(want), rb.err)
		}
	}
}

func columnLen(d *birch.Document) int {
	for e := range d.Iterator() {
		if a, ok := e.Value().MutableArrayOK(); ok {
			return a.Len()
		}
	}
	return 0
}

func checkMeta(t *T, what string, rb readBack, meta *birch.Document) {
	t.Check()
	if meta == nil {
		if rb.meta != nil {
			t.Fail("metadata", "%s: metadata %s although none was set", what, got(rb.meta))
		}
		return
	}
	if rb.meta == nil {
		t.Fail("metadata", "%s: no metadata", what)
	}
	v, err := rb.meta.LookupErr("doc")
	if err != nil {
		t.Fail("metadata", "%s: metadata document without doc: %s", what, got(rb.meta))
	}
	md, ok := v.MutableDocumentOK()
	if !ok || got(md) != got(meta) {
		t.Fail("metadata", "%s: want %s got %s", what, got(meta), got(rb.meta))
	}
}

func equalBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// checkAllMeta is for streams that have one metadata document throughout:
// it is there with the first item, and at every chunk.
func checkAllMeta(t *T, what string, rb readBack, meta *birch.Document) {
	checkMeta(t, what, rb, meta)
	of := func(d *birch.Document) string {
		if d == nil {
			return ""
		}
		return metaDoc(d)
	}
	want := ""
	if meta != nil {
		want = got(meta)
	}
	if len(rb.items)+len(rb.cols) > 0 && of(rb.early) != want {
		t.Fail("metadata", "%s: with the first item the metadata is %q, want %q", what, of(rb.early), want)
	}
	for i, m := range rb.metas {
		if of(m) != want {
			t.Fail("metadata", "%s: chunk %d reports metadata %q, want %q", what, i/3, of(m), want)
		}
	}
}

func metaDoc(d *birch.Document) string {
	v, err := d.LookupErr("doc")
	if err != nil {
		return "<no doc in " + got(d) + ">"
	}
	md, ok := v.MutableDocumentOK()
	if !ok {
		return "<doc in " + got(d) + ">"
	}
	return got(md)
}
