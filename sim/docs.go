package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
)

// Metric documents are generated from a schema, so that the harness knows what
// must come back without using the code under test to find out.

type fieldKind int

const (
	kInt32 fieldKind = iota
	kInt64
	kBool
	kDate
	kDouble
	kTimestamp
	kDoc
	kArray
	kString // not a metric: dropped by ftdc
	kOID    // not a metric
	kNull   // not a metric
)

type field struct {
	key  string
	kind fieldKind
	sub  []field
}

var keyPool = []string{"a", "b", "c", "ts", "count", "x.y", "é", "duration", "z9", "k"}

type schemaOpts struct {
	maxFields int
	depth     int
	kinds     []fieldKind
}

func genSchema(t *T, o schemaOpts) []field {
	n := 1 + t.Int(o.maxFields)
	fs := make([]field, 0, n)
	for i := 0; i < n; i++ {
		k := o.kinds[t.Int(len(o.kinds))]
		f := field{key: fmt.Sprintf("%s%d", keyPool[t.Int(len(keyPool))], i), kind: k}
		if k == kDoc || k == kArray {
			if o.depth <= 0 {
				f.kind = kInt64
			} else {
				f.sub = genSchema(t, schemaOpts{maxFields: 3, depth: o.depth - 1, kinds: o.kinds})
			}
		}
		fs = append(fs, f)
	}
	return fs
}

func hasMetric(fs []field) bool {
	for _, f := range fs {
		switch f.kind {
		case kString, kOID, kNull:
		case kDoc, kArray:
			if hasMetric(f.sub) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// A val is one generated leaf value.
type val struct {
	kind fieldKind
	i    int64
	j    int64
	f    float64
	s    string
	sub  []val
}

func genInt64(t *T) int64 {
	switch t.Int(8) {
	case 0:
		return 0
	case 1, 2, 3:
		return int64(t.Int(1000))
	case 4:
		return -int64(t.Int(1000))
	case 5:
		return math.MaxInt64 - int64(t.Int(3))
	case 6:
		return math.MinInt64 + int64(t.Int(3))
	default:
		return int64(t.U64())
	}
}

func genFloat(t *T) float64 {
	switch t.Int(8) {
	case 0:
		return 0
	case 1, 2:
		return float64(t.Int(1000))
	case 3:
		return float64(t.Int(100000)) / 64
	case 4:
		return -float64(t.Int(1000)) / 10
	case 5:
		return math.Inf(1 - 2*t.Int(2))
	case 6:
		return []float64{math.SmallestNonzeroFloat64, math.MaxFloat64, 1e-300, 0.1}[t.Int(4)]
	default:
		return math.Float64frombits(t.U64() &^ (0x7ff << 52))
	}
}

func genVals(t *T, fs []field, prev []val) []val {
	out := make([]val, len(fs))
	for i, f := range fs {
		var p *val
		if prev != nil {
			p = &prev[i]
		}
		out[i] = genVal(t, f, p)
	}
	return out
}

func genVal(t *T, f field, prev *val) val {
	if prev != nil && f.kind != kDoc && f.kind != kArray && t.Chance(1, 3) {
		return *prev // runs of equal values: zero deltas
	}
	v := val{kind: f.kind}
	switch f.kind {
	case kInt32:
		v.i = int64(int32(genInt64(t)))
	case kInt64:
		v.i = genInt64(t)
	case kBool:
		v.i = int64(t.Int(2))
	case kDate:
		v.i = 1500000000000 + int64(t.Int(1<<30))
		switch t.Int(8) {
		case 5:
			v.i = int64(t.Int(1<<20)) - 1<<19 // around the epoch
		case 6:
			v.i = -62135596800000 // the zero time.Time
		case 7:
			v.i = 253402300799999 - int64(t.Int(1000)) // year 9999
		}
	case kDouble:
		v.f = genFloat(t)
	case kTimestamp:
		v.i, v.j = int64(uint32(t.U64())), int64(uint32(t.U64()))
	case kString:
		v.s = strings.Repeat("s", t.Int(5))
	case kOID, kNull:
	case kDoc, kArray:
		var p []val
		if prev != nil {
			p = prev.sub
		}
		v.sub = genVals(t, f.sub, p)
	}
	return v
}

func elem(f field, v val) *birch.Element {
	switch f.kind {
	case kInt32:
		return birch.EC.Int32(f.key, int32(v.i))
	case kInt64:
		return birch.EC.Int64(f.key, v.i)
	case kBool:
		return birch.EC.Boolean(f.key, v.i != 0)
	case kDate:
		return birch.EC.DateTime(f.key, v.i)
	case kDouble:
		return birch.EC.Double(f.key, v.f)
	case kTimestamp:
		return birch.EC.Timestamp(f.key, uint32(v.i), uint32(v.j))
	case kString:
		return birch.EC.String(f.key, v.s)
	case kOID:
		return birch.EC.ObjectID(f.key, [12]byte{1, 2, 3})
	case kNull:
		return birch.EC.Null(f.key)
	case kDoc:
		return birch.EC.SubDocument(f.key, doc(f.sub, v.sub))
	case kArray:
		vals := make([]*birch.Value, len(f.sub))
		for i := range f.sub {
			vals[i] = elem(f.sub[i], v.sub[i]).Value()
		}
		return birch.EC.ArrayFromElements(f.key, vals...)
	}
	panic("kind")
}

func doc(fs []field, vs []val) *birch.Document {
	d := birch.DC.Make(len(fs))
	for i := range fs {
		d.Append(elem(fs[i], vs[i]))
	}
	return d
}

// render writes what a value must look like when read back with its structure.
func renderVals(sb *strings.Builder, fs []field, vs []val, array bool) {
	sb.WriteByte('{')
	n := 0
	for i := range fs {
		if fs[i].kind == kString || fs[i].kind == kOID || fs[i].kind == kNull {
			continue
		}
		if n > 0 {
			sb.WriteByte(',')
		}
		n++
		if !array {
			sb.WriteString(fs[i].key)
			sb.WriteByte(':')
		}
		v := vs[i]
		switch fs[i].kind {
		case kDoc:
			renderVals(sb, fs[i].sub, v.sub, false)
		case kArray:
			sb.WriteByte('[')
			renderVals(sb, fs[i].sub, v.sub, true)
			sb.WriteByte(']')
		default:
			sb.WriteString(leaf(fs[i].kind, v))
		}
	}
	sb.WriteByte('}')
}

func leaf(k fieldKind, v val) string {
	switch k {
	case kInt32:
		return fmt.Sprintf("i32(%d)", v.i)
	case kInt64:
		return fmt.Sprintf("i64(%d)", v.i)
	case kBool:
		return fmt.Sprintf("bool(%v)", v.i != 0)
	case kDate:
		return fmt.Sprintf("date(%d)", v.i)
	case kDouble:
		return fmt.Sprintf("f64(%x)", math.Float64bits(v.f))
	case kTimestamp:
		return fmt.Sprintf("ts(%d,%d)", v.i, v.j)
	}
	return "?"
}

func wantStructured(fs []field, vs []val) string {
	var sb strings.Builder
	renderVals(&sb, fs, vs, false)
	return sb.String()
}

// wantFlat is the flattened form: dotted paths; timestamps in two parts.
func wantFlat(fs []field, vs []val) string {
	var parts []string
	flatten("", fs, vs, false, func(key string, f field, v val) {
		if f.kind == kTimestamp {
			parts = append(parts, fmt.Sprintf("%s:i64(%d)", key, v.i), fmt.Sprintf("%s.inc:i64(%d)", key, v.j))
			return
		}
		parts = append(parts, key+":"+leaf(f.kind, v))
	})
	return "{" + strings.Join(parts, ",") + "}"
}

func flatten(prefix string, fs []field, vs []val, array bool, emit func(string, field, val)) {
	for i := range fs {
		key := fs[i].key
		if array {
			key = fmt.Sprint(i)
		}
		if prefix != "" {
			key = prefix + "." + key
		}
		switch fs[i].kind {
		case kString, kOID, kNull:
		case kDoc:
			flatten(key, fs[i].sub, vs[i].sub, false, emit)
		case kArray:
			flatten(key, fs[i].sub, vs[i].sub, true, emit)
		default:
			emit(key, fs[i], vs[i])
		}
	}
}

// got renders a document the code produced in the same notation.
func got(d *birch.Document) string {
	if d == nil {
		return "<nil>"
	}
	var sb strings.Builder
	gotDoc(&sb, d)
	return sb.String()
}

func gotDoc(sb *strings.Builder, d *birch.Document) {
	sb.WriteByte('{')
	n := 0
	for e := range d.Iterator() {
		if n > 0 {
			sb.WriteByte(',')
		}
		n++
		sb.WriteString(e.Key())
		sb.WriteByte(':')
		gotVal(sb, e.Value())
	}
	sb.WriteByte('}')
}

func gotVal(sb *strings.Builder, v *birch.Value) {
	switch v.Type() {
	case bsontype.Int32:
		fmt.Fprintf(sb, "i32(%d)", v.Int32())
	case bsontype.Int64:
		fmt.Fprintf(sb, "i64(%d)", v.Int64())
	case bsontype.Boolean:
		fmt.Fprintf(sb, "bool(%v)", v.Boolean())
	case bsontype.DateTime:
		fmt.Fprintf(sb, "date(%d)", v.DateTime())
	case bsontype.Double:
		fmt.Fprintf(sb, "f64(%x)", math.Float64bits(v.Double()))
	case bsontype.Timestamp:
		a, b := v.Timestamp()
		fmt.Fprintf(sb, "ts(%d,%d)", a, b)
	case bsontype.String:
		fmt.Fprintf(sb, "str(%s)", v.StringValue())
	case bsontype.EmbeddedDocument:
		gotDoc(sb, v.MutableDocument())
	case bsontype.Array:
		sb.WriteString("[{")
		n := 0
		for x := range v.MutableArray().Iterator() {
			if n > 0 {
				sb.WriteByte(',')
			}
			n++
			gotVal(sb, x)
		}
		sb.WriteString("}]")
	default:
		fmt.Fprintf(sb, "type(%s)", v.Type())
	}
}

func show(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func f64bits(f float64) uint64 { return math.Float64bits(f) }
