package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"github.com/tychoish/birch/elements"
	"github.com/tychoish/birch/jsonx"
	"github.com/tychoish/birch/types"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/events"
	"github.com/tychoish/birch/x/ftdc/hdrhist"
	"github.com/tychoish/birch/x/ftdc/util"
	hdr "github.com/tychoish/fun/dt/hdrhist"
)

func init() {
	register("C26", "convert", 4, func(t *T) { c26tasks(t, c26convert) })
	register("C26", "back", 2, func(t *T) { c26tasks(t, c26back) })
	register("C26", "encode", 2, c26encode)
}

// c26tasks runs one to three of them at a time: they share nothing, but the
// library's pools.
func c26tasks(t *T, run func(*T)) {
	var wg sync.WaitGroup
	for i, n := 0, 1+t.Int(4)/2; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			run(t)
		}()
	}
	wg.Wait()
}

var errMarshaler = errors.New("the value cannot be marshalled")

// gval is a Go value and what it denotes: a leaf in the notation of jhave, an
// array, or a document, whose order counts or does not.
type gval struct {
	in   any
	kind byte // 0: leaf, 'a': array, 'd': document, 'm': document of a map, 'x': array, or document of its indexes
	want string
	keys []string
	sub  []gval
	bad  bool  // cannot be converted
	err  error // why, if that is known
	opaq bool  // its conversion may fail or not, and gives nothing valid
}

func (g gval) String() string {
	switch {
	case g.bad:
		return fmt.Sprintf("a %T that cannot be converted", g.in)
	case g.kind == 0:
		return fmt.Sprintf("%T %s", g.in, g.want)
	}
	s := fmt.Sprintf("%T %c{", g.in, g.kind)
	for i, e := range g.sub {
		if g.kind != 'a' && g.kind != 'x' {
			s += strconv.Quote(g.keys[i]) + ":"
		}
		s += e.String() + ","
	}
	return s + "}"
}

type gmar struct {
	b   []byte
	err error
}

func (g gmar) MarshalBSON() ([]byte, error) { Yield(); return g.b, g.err }

type gdoc struct {
	d   *birch.Document
	err error
}

func (g *gdoc) MarshalDocument() (*birch.Document, error) { Yield(); return g.d, g.err }

type gstr string

func (g gstr) String() string { return string(g) }

type gunknown struct{ a, b int }

func bad(in any) gval { return gval{in: in, bad: true} }

func ofBson(in any, v bval) gval { // of what genValue made
	g := gval{in: in, want: v.want}
	switch v.typ {
	case 3:
		g.kind = 'd'
	case 4:
		g.kind = 'a'
	}
	if g.kind != 0 {
		for _, e := range v.sub {
			g.keys = append(g.keys, e.key)
			g.sub = append(g.sub, ofBson(nil, e.bval))
		}
	}
	return g
}

func docOf(in any, es []belem) gval {
	return ofBson(in, bval{typ: 3, sub: es})
}

func gLeaf(t *T) gval {
	num := func(in any, x any) gval { return gval{in: in, want: fmt.Sprintf("n(%d)", x)} }
	i := genInt64(t)
	if t.Chance(1, 4) {
		i = []int64{math.MaxInt32, math.MinInt32, math.MaxInt32 - 1, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxInt64, math.MinInt64, math.MaxUint32}[t.Int(8)]
	}
	f := genFloat(t)
	s := jsonString(t)
	switch t.Int(20) {
	case 0:
		b := t.Chance(1, 2)
		return gval{in: b, want: fmt.Sprint(b)}
	case 1:
		return num(int8(i), int8(i))
	case 2:
		return num(int16(i), int16(i))
	case 3:
		return num(int32(i), int32(i))
	case 4:
		return num(i, i)
	case 5:
		return num(int(i), i)
	case 6:
		return num(uint8(i), uint8(i))
	case 7:
		return num(uint16(i), uint16(i))
	case 8:
		return num(uint32(i), uint32(i))
	case 9, 10:
		if u := uint64(i); u > math.MaxInt64 {
			if t.Chance(1, 2) {
				return bad(u)
			}
			return bad(uint(u))
		} else if t.Chance(1, 2) {
			return num(u, u)
		} else {
			return num(uint(u), u)
		}
	case 11:
		return gval{in: float32(f), want: fmt.Sprintf("f(%x)", math.Float64bits(float64(float32(f))))}
	case 12:
		return gval{in: f, want: fmt.Sprintf("f(%x)", math.Float64bits(f))}
	case 13:
		return gval{in: s, want: strconv.Quote(s)}
	case 14:
		ms := i % 1e15
		return gval{in: time.UnixMilli(ms).Add(time.Duration(t.Int(1e6))).In(time.FixedZone("", t.Int(3)*3600)), want: fmt.Sprintf("date(%d)", ms)}
	case 15:
		a, b := uint32(t.U64()), uint32(t.U64())
		return gval{in: types.Timestamp{T: a, I: b}, want: fmt.Sprintf("ts(%d,%d)", a, b)}
	case 16:
		return gval{want: "null"}
	case 17:
		return bad(gunknown{1, 2})
	case 18:
		return bad(make(chan int))
	}
	return gval{in: s, want: strconv.Quote(s)}
}

// gSlice makes a slice of n of one type of leaf.
func gSlice(t *T, n int) gval {
	g := gval{kind: 'a'}
	var ints []int64
	for i := 0; i < n; i++ {
		ints = append(ints, genInt64(t))
	}
	leafs := func(f func(i int64) string) {
		for _, i := range ints {
			g.sub = append(g.sub, gval{want: f(i)})
		}
	}
	number := func(i int64) string { return fmt.Sprintf("n(%d)", i) }
	switch t.Int(8) {
	case 0:
		in := []string{}
		for range ints {
			in = append(in, jsonString(t))
			g.sub = append(g.sub, gval{want: strconv.Quote(in[len(in)-1])})
		}
		g.in = in
	case 1:
		g.in = append([]int64{}, ints...)
		leafs(number)
	case 2:
		in := []int32{}
		for _, i := range ints {
			in = append(in, int32(i))
		}
		g.in = in
		leafs(func(i int64) string { return number(int64(int32(i))) })
	case 3:
		in := []float64{}
		for range ints {
			in = append(in, genFloat(t))
			g.sub = append(g.sub, gval{want: fmt.Sprintf("f(%x)", math.Float64bits(in[len(in)-1]))})
		}
		g.in = in
	case 4:
		in := []float32{}
		for range ints {
			in = append(in, float32(genFloat(t)))
			g.sub = append(g.sub, gval{want: fmt.Sprintf("f(%x)", math.Float64bits(float64(in[len(in)-1])))})
		}
		g.in = in
	case 5:
		in := []int{}
		for _, i := range ints {
			in = append(in, int(i))
		}
		g.in = in
		leafs(number)
	case 6:
		in := []time.Time{}
		for _, i := range ints {
			in = append(in, time.UnixMilli(i%1e15))
		}
		g.in = in
		leafs(func(i int64) string { return fmt.Sprintf("date(%d)", i%1e15) })
	default:
		in := []time.Duration{}
		for _, i := range ints {
			in = append(in, time.Duration(i))
		}
		g.in = in
		leafs(number)
	}
	return g
}

func gValue(t *T, depth int) gval {
	if depth <= 0 || t.Chance(1, 3) {
		return gLeaf(t)
	}
	g := gval{kind: 'm'}
	n := t.Int(4)
	switch t.Int(15) {
	case 0:
		in := map[string]string{}
		for i := 0; i < n; i++ {
			k, s := string(rune('a'+i))+jsonCString(t), jsonString(t)
			in[k] = s
			g.keys, g.sub = append(g.keys, k), append(g.sub, gval{want: strconv.Quote(s)})
		}
		g.in = in
	case 1, 2:
		in := map[string]any{}
		for i := 0; i < n; i++ {
			k, v := string(rune('a'+i))+jsonCString(t), gMember(t, depth-1)
			in[k] = v.in
			g.keys, g.sub = append(g.keys, k), append(g.sub, v)
		}
		g.in = in
	case 3, 4:
		in := map[any]any{}
		for i := 0; i < n; i++ {
			k, v := string(rune('a'+i))+jsonCString(t), gMember(t, depth-1)
			switch t.Int(4) {
			case 0:
				in[k] = v.in
			case 1:
				in[gstr(k)] = v.in
			case 2:
				k = strconv.Itoa(i)
				in[i] = v.in
			default:
				e := errors.New(k)
				in[e] = v.in
			}
			g.keys, g.sub = append(g.keys, k), append(g.sub, v)
		}
		g.in = in
	case 5, 6:
		in := []any{}
		for i := 0; i < n; i++ {
			v := gMember(t, depth-1)
			in = append(in, v.in)
			g.sub = append(g.sub, v)
		}
		g.in, g.kind = in, 'a'
	case 7:
		if t.Chance(1, 4) {
			return gUnusual(t, n)
		}
		return gSlice(t, n)
	case 8:
		return gBson(t, depth)
	case 9:
		return gMarshaler(t, depth)
	case 10:
		es := genElems(t, depth-1, 4)
		var in []*birch.Element
		for _, e := range es {
			in = append(in, e.build(e.key))
		}
		return docOf(in, es)
	case 11:
		var vs []*birch.Value
		for i := 0; i < n; i++ {
			v := genValue(t, depth-1)
			vs = append(vs, v.build("").Value())
			g.sub = append(g.sub, ofBson(nil, v))
		}
		g.in, g.kind = vs, 'a'
	case 12:
		var vs []*birch.Value
		for i := 0; i < n; i++ {
			v := genValue(t, depth-1)
			vs = append(vs, v.build("").Value())
			g.sub = append(g.sub, ofBson(nil, v))
		}
		for i := range vs {
			g.keys = append(g.keys, strconv.Itoa(i))
		}
		g.in, g.kind = birch.NewArray(vs...), 'x'
	case 13:
		return gJSON(t)
	default:
		return gLeaf(t)
	}
	return g
}

// gMember is a value in a map or a slice.
func gMember(t *T, depth int) gval { return gValue(t, depth) }

func gBson(t *T, depth int) gval {
	es := genElems(t, depth-1, 4)
	switch t.Int(6) {
	case 0:
		return docOf(buildDoc(t, es), es)
	case 1:
		return docOf(birch.Reader(docBytes(es, false)), es)
	case 2:
		raw := docBytes(es, false)
		return bad(birch.Reader(raw[:t.Int(len(raw))]))
	case 3:
		return bad((*birch.Document)(nil))
	case 4:
		m := birch.DocumentMap{}
		g := docOf(m, es)
		g.kind, g.keys, g.sub = 'm', nil, nil
		for _, e := range es {
			if _, ok := m[e.key]; !ok {
				m[e.key] = e.build(e.key)
				g.keys, g.sub = append(g.keys, e.key), append(g.sub, ofBson(nil, e.bval))
			}
		}
		return g
	default:
		v := genValue(t, depth-1)
		return ofBson(v.build(jsonCString(t)).Value(), v)
	}
}

func gMarshaler(t *T, depth int) gval {
	es := genElems(t, depth-1, 4)
	switch t.Int(6) {
	case 0:
		return docOf(gmar{b: docBytes(es, false)}, es)
	case 1, 2:
		return docOf(&gdoc{d: buildDoc(t, es)}, es)
	case 3:
		t.Fault("marshaler-error")
		return gval{in: gmar{docBytes(es, false), errMarshaler}, bad: true, err: errMarshaler}
	case 4:
		t.Fault("marshaler-error")
		return gval{in: &gdoc{buildDoc(t, es), errMarshaler}, bad: true, err: errMarshaler}
	default:
		t.Fault("marshaler-cut-short")
		raw := docBytes(es, false)
		return gval{in: gmar{b: raw[:t.Int(len(raw))]}, opaq: true}
	}
}

func gJSON(t *T) gval {
	g := gval{kind: 'd'}
	var sb strings.Builder
	sb.WriteByte('{')
	for i, n := 0, t.Int(4); i < n; i++ {
		k := string(rune('a' + i))
		if i > 0 {
			sb.WriteByte(',')
		}
		x := genInt64(t)
		fmt.Fprintf(&sb, "%q:%d", k, x)
		g.keys, g.sub = append(g.keys, k), append(g.sub, gval{want: fmt.Sprintf("n(%d)", x)})
	}
	broken := ""
	switch t.Int(6) {
	case 0:
		broken = `"z":{"$oid":"zz"}`
	case 1:
		broken = "\"a\\u0000b\":1"
	case 2:
		return bad((*jsonx.Document)(nil))
	}
	if broken != "" {
		if len(g.sub) > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(broken)
	}
	sb.WriteByte('}')
	d, err := jsonx.DCE.Bytes([]byte(sb.String()))
	if err != nil {
		t.Harness("reading %s: %v", sb.String(), err)
	}
	g.in = d
	if broken != "" {
		return bad(d)
	}
	return g
}

// differs says how a value is not the one that is denoted.
func differs(v *birch.Value, g gval) string {
	if v == nil {
		return "nothing"
	}
	if g.bad {
		g.kind, g.want = 0, "null"
	}
	if g.kind == 0 {
		if have := valueText(v); have != g.want {
			return fmt.Sprintf("%s instead of %s", have, g.want)
		}
		return ""
	}
	if g.kind == 'a' || g.kind == 'x' && v.Type() == bsontype.Array {
		a, ok := v.MutableArrayOK()
		if !ok || a.Len() != len(g.sub) {
			return fmt.Sprintf("%s instead of an array of %d", valueText(v), len(g.sub))
		}
		i := 0
		for e := range a.Iterator() {
			if d := differs(e, g.sub[i]); d != "" {
				return fmt.Sprintf("%s at index %d", d, i)
			}
			i++
		}
		return ""
	}
	d, ok := v.MutableDocumentOK()
	if !ok {
		return fmt.Sprintf("%s instead of a document", valueText(v))
	}
	return differsDoc(d, g)
}

func differsDoc(d *birch.Document, g gval) string {
	if d == nil {
		return "nothing"
	}
	if d.Len() != len(g.sub) {
		return fmt.Sprintf("%d elements instead of %d", d.Len(), len(g.sub))
	}
	i := 0
	for e := range d.Iterator() {
		k := i
		if g.kind == 'm' {
			for k = 0; k < len(g.keys) && g.keys[k] != e.Key(); k++ {
			}
		}
		if k == len(g.keys) || g.keys[k] != e.Key() {
			return fmt.Sprintf("key %q at %d", e.Key(), i)
		}
		if diff := differs(e.Value(), g.sub[k]); diff != "" {
			return fmt.Sprintf("%s under %q", diff, e.Key())
		}
		i++
	}
	return ""
}

// shaky: a marshaler in it may have given no valid document.
func (g gval) shaky() bool {
	for _, e := range g.sub {
		if e.shaky() {
			return true
		}
	}
	return g.opaq
}

// broken is whether a member, at the first level, cannot be converted.
func (g gval) broken() bool {
	for _, e := range g.sub {
		if e.bad {
			return true
		}
	}
	return false
}

func (g gval) deepBroken() bool {
	for _, e := range g.sub {
		if e.bad || e.deepBroken() {
			return true
		}
	}
	return false
}

func c26convert(t *T) {
	t.Check()
	g := gValue(t, 3)
	key := jsonCString(t)
	if t.Chance(1, 8) {
		v := genValue(t, 2)
		g = ofBson(v.build(key), v)
	}
	what := show(g.String())
	if g.shaky() {
		c26shaky(t, g, key, what)
		return
	}
	element := func(name string, e *birch.Element, want gval) {
		Yield()
		if e == nil || e.Key() != key {
			t.Fail("wrong-element", "%s of %s under %q gives %v", name, what, key, e)
		}
		b, err := birch.DC.Elements(e).MarshalBSON()
		if err != nil {
			t.Fail("wrong-element", "%s of %s gives what cannot be encoded: %v", name, what, err)
		}
		if d := differs(e.Value(), want); d != "" {
			t.Fail("wrong-element", "%s of %s gives %s", name, what, d)
		}
		back, err := birch.DCE.Reader(b)
		if err != nil || back.Len() != 1 || back.ElementAt(0).Key() != key {
			t.Fail("wrong-element", "%s of %s is encoded as %x (%v)", name, what, b, err)
		}
		if d := differs(back.ElementAt(0).Value(), want); d != "" {
			t.Fail("wrong-element", "%s of %s is, encoded and read, %s", name, what, d)
		}
	}
	value := func(name string, v *birch.Value, want gval) {
		if v == nil {
			t.Fail("wrong-value", "%s of %s gives nothing", name, what)
		}
		element(name, birch.EC.Value(key, v), want)
	}
	element("EC.Interface", birch.EC.Interface(key, g.in), g)
	value("VC.Interface", birch.VC.Interface(g.in), g)
	if g.bad {
		t.Probe("not-convertible")
	}
	// errors are for what cannot be converted; that a member cannot be may be one
	failed := func(name string, err error, must, may bool) bool {
		if err != nil && !must && !may {
			t.Fail("unexpected-error", "%s of %s: %v", name, what, err)
		}
		if err == nil && must {
			t.Fail("error-lost", "%s of %s gives no error", name, what)
		}
		if err != nil && g.err != nil && !errors.Is(err, g.err) {
			t.Fail("wrong-error", "%s of %s: %v", name, what, err)
		}
		return err != nil
	}
	if e, err := birch.ECE.Interface(key, g.in); !failed("ECE.Interface", err, g.bad, g.deepBroken()) {
		element("ECE.Interface", e, g)
	}
	if v, err := birch.VCE.Interface(g.in); !failed("VCE.Interface", err, g.bad, g.deepBroken()) {
		value("VCE.Interface", v, g)
	}
	document := func(name string, d *birch.Document, want gval) {
		if diff := differsDoc(d, want); diff != "" {
			t.Fail("wrong-document", "%s of %s gives %s", name, what, diff)
		}
		element(name, birch.EC.SubDocument(key, d), want)
	}
	switch in := g.in.(type) {
	case map[string]string:
		document("DC.MapString", birch.DC.MapString(in), g)
		value("VC.MapString", birch.VC.MapString(in), g)
		t.Probe("map-string")
	case map[string]any:
		document("DC.MapInterface", birch.DC.MapInterface(in), g)
		value("VC.MapInterface", birch.VC.MapInterface(in), g)
		if d, err := birch.DCE.MapInterface(in); !failed("DCE.MapInterface", err, g.broken(), g.deepBroken()) {
			document("DCE.MapInterface", d, g)
		}
		if v, err := birch.VCE.MapInterface(in); !failed("VCE.MapInterface", err, g.broken(), g.deepBroken()) {
			value("VCE.MapInterface", v, g)
		}
		t.Probe("map-any")
	case map[any]any:
		document("DC.MapInterfaceInterface", birch.DC.MapInterfaceInterface(in), g)
		value("VC.MapInterfaceInterface", birch.VC.MapInterfaceInterface(in), g)
		if d, err := birch.DCE.MapInterfaceInterface(in); !failed("DCE.MapInterfaceInterface", err, g.broken(), g.deepBroken()) {
			document("DCE.MapInterfaceInterface", d, g)
		}
		t.Probe("map-any-any")
	case []any:
		element("EC.SliceInterface", birch.EC.SliceInterface(key, in), g)
		value("VC.SliceInterface", birch.VC.SliceInterface(in), g)
		if e, err := birch.ECE.SliceInterface(key, in); !failed("ECE.SliceInterface", err, g.broken(), g.deepBroken()) {
			element("ECE.SliceInterface", e, g)
		}
		if v, err := birch.VCE.SliceInterface(in); !failed("VCE.SliceInterface", err, g.broken(), g.deepBroken()) {
			value("VCE.SliceInterface", v, g)
		}
		t.Probe("slice-any")
	case []string:
		element("EC.SliceString", birch.EC.SliceString(key, in), g)
		value("VC.SliceString", birch.VC.SliceString(in), g)
	case []int64:
		element("EC.SliceInt64", birch.EC.SliceInt64(key, in), g)
		value("VC.SliceInt64", birch.VC.SliceInt64(in), g)
		t.Probe("slice")
	case []int32:
		element("EC.SliceInt32", birch.EC.SliceInt32(key, in), g)
		value("VC.SliceInt32", birch.VC.SliceInt32(in), g)
	case []float64:
		element("EC.SliceFloat64", birch.EC.SliceFloat64(key, in), g)
		value("VC.SliceFloat64", birch.VC.SliceFloat64(in), g)
	case []float32:
		element("EC.SliceFloat32", birch.EC.SliceFloat32(key, in), g)
		value("VC.SliceFloat32", birch.VC.SliceFloat32(in), g)
	case []int:
		element("EC.SliceInt", birch.EC.SliceInt(key, in), g)
		value("VC.SliceInt", birch.VC.SliceInt(in), g)
	case []time.Time:
		element("EC.SliceTime", birch.EC.SliceTime(key, in), g)
		value("VC.SliceTime", birch.VC.SliceTime(in), g)
	case []time.Duration:
		element("EC.SliceDuration", birch.EC.SliceDuration(key, in), g)
		value("VC.SliceDuration", birch.VC.SliceDuration(in), g)
	case int64:
		element("EC.Duration", birch.EC.Duration(key, time.Duration(in)), g)
		value("VC.Duration", birch.VC.Duration(time.Duration(in)), g)
	case int:
		element("EC.Int", birch.EC.Int(key, in), g)
		value("VC.Int", birch.VC.Int(in), g)
	case gmar:
		if e, err := birch.ECE.Marshaler(key, in); !failed("ECE.Marshaler", err, g.bad, false) {
			element("ECE.Marshaler", e, g)
			element("EC.Marshaler", birch.EC.Marshaler(key, in), g)
			value("VC.Marshaler", birch.VC.Marshaler(in), g)
			document("DC.Marshaler", birch.DC.Marshaler(in), g)
		}
		if v, err := birch.VCE.Marshaler(in); !failed("VCE.Marshaler", err, g.bad, false) {
			value("VCE.Marshaler", v, g)
		}
		if d, err := birch.DCE.Marshaler(in); !failed("DCE.Marshaler", err, g.bad, false) {
			document("DCE.Marshaler", d, g)
		}
		t.Probe("marshaler")
	case *gdoc:
		if e, err := birch.ECE.DocumentMarshaler(key, in); !failed("ECE.DocumentMarshaler", err, g.bad, false) {
			element("ECE.DocumentMarshaler", e, g)
			element("EC.DocumentMarshaler", birch.EC.DocumentMarshaler(key, in), g)
			value("VC.DocumentMarshaler", birch.VC.DocumentMarshaler(in), g)
		}
		if v, err := birch.VCE.DocumentMarshaler(in); !failed("VCE.DocumentMarshaler", err, g.bad, false) {
			value("VCE.DocumentMarshaler", v, g)
		}
		b, err := birch.MarshalDocumentBSON(in)
		if !failed("MarshalDocumentBSON", err, g.bad, false) {
			d, err := birch.DCE.Reader(b)
			if err != nil {
				t.Fail("wrong-document", "MarshalDocumentBSON of %s gives %x, which is no document: %v", what, b, err)
			}
			document("MarshalDocumentBSON", d, g)
		}
		t.Probe("document-marshaler")
	case *birch.Array:
		t.Probe("array")
	case *jsonx.Document:
		t.Probe("json")
	case *birch.Element:
		t.Probe("element")
	}
	// as a document of its own
	isdoc := !g.bad && (g.kind == 'd' || g.kind == 'm')
	switch g.in.(type) {
	case *birch.Value, *jsonx.Document, []*birch.Value, *birch.Array:
		return // may be or not
	case *birch.Element:
		g, isdoc = gval{in: g.in, kind: 'd', keys: []string{key}, sub: []gval{g}}, true
	}
	d := birch.DC.Interface(g.in)
	switch {
	case d == nil:
		t.Fail("wrong-document", "DC.Interface of %s gives nil", what)
	case isdoc:
		document("DC.Interface", d, g)
	case d.Len() != 0:
		t.Fail("wrong-document", "DC.Interface of %s gives %s", what, d)
	}
	if doc, ok := g.in.(*birch.Document); ok && doc == nil {
		return // gives nil, with or without an error
	}
	if d, err := birch.DCE.Interface(g.in); !failed("DCE.Interface", err, !isdoc, g.deepBroken()) {
		document("DCE.Interface", d, g)
		t.Probe("document")
	}
}

// c26shaky: a marshaler gave bytes that are no document. Whatever comes of
// it, it is not encoded.
func c26shaky(t *T, g gval, key, what string) {
	t.Probe("marshaler-cut-short")
	try := func(name string, e *birch.Element) {
		if e == nil {
			t.Fail("wrong-element", "%s of %s gives nil", name, what)
		}
		b, err := birch.DC.Elements(e).MarshalBSON()
		if err != nil {
			return
		}
		if _, err := birch.Reader(b).Validate(); err != nil {
			t.Fail("wrong-bytes", "%s of %s is encoded as %x: %v", name, what, b, err)
		}
	}
	try("EC.Interface", birch.EC.Interface(key, g.in))
	if e, err := birch.ECE.Interface(key, g.in); err == nil {
		try("ECE.Interface", e)
	}
	if g.opaq {
		if d := birch.DC.Interface(g.in); d == nil || d.Len() != 0 {
			t.Fail("wrong-document", "DC.Interface of %s gives %v", what, d)
		}
		if d, err := birch.DCE.Interface(g.in); err == nil {
			t.Fail("error-lost", "DCE.Interface of %s gives %v", what, d)
		}
	}
}

type gtarget struct {
	raw []byte
	doc *birch.Document
	err error
}

type gbson struct{ gtarget }
type gdocument struct{ gtarget }

func (g *gbson) UnmarshalBSON(b []byte) error                  { g.raw = b; return g.err }
func (g *gdocument) UnmarshalDocument(d *birch.Document) error { g.doc = d; return g.err }

// c26back: documents given to Go.
func c26back(t *T) {
	t.Check()
	es := genElems(t, 2, 6)
	raw := docBytes(es, false)
	what := show(docText(es))
	d := buildDoc(t, es)
	if t.Chance(1, 2) {
		d = birch.DC.Reader(birch.Reader(append([]byte(nil), raw...)))
	}
	last := map[string]bval{} // of each key: maps are overwritten
	for _, e := range es {
		last[e.key] = e.bval
	}
	var fail error
	if t.Chance(1, 4) {
		t.Fault("unmarshaler-error")
		fail = errMarshaler
	}
	passed := func(err error) {
		if err != fail {
			t.Fail("wrong-error", "Unmarshal of %s gives %v, the target %v", what, err, fail)
		}
	}
	check := func(name string, m map[string]any, old string) {
		n := len(last)
		if _, ok := last[old]; old != "" && !ok {
			n++
		}
		if len(m) != n {
			t.Fail("wrong-map", "%s of %s gives %d keys: %v", name, what, len(m), m)
		}
		for k, v := range last {
			have, ok := m[k]
			if !ok {
				t.Fail("wrong-map", "%s of %s has no %q", name, what, k)
			}
			if d := faceDiffers(have, v); d != "" {
				t.Fail("wrong-map", "%s of %s has under %q %s", name, what, k, d)
			}
		}
	}
	switch t.Int(9) {
	case 0:
		g := &gbson{gtarget{err: fail}}
		passed(d.Unmarshal(g))
		if !bytes.Equal(g.raw, raw) {
			t.Fail("wrong-bytes", "Unmarshal of %s gives %x", what, g.raw)
		}
		t.Probe("unmarshaler")
	case 1:
		g := &gdocument{gtarget{err: fail}}
		passed(d.Unmarshal(g))
		if b, err := g.doc.MarshalBSON(); err != nil || !bytes.Equal(b, raw) {
			t.Fail("wrong-document", "Unmarshal of %s gives %v", what, g.doc)
		}
		t.Probe("document-unmarshaler")
	case 2:
		m := map[string]string{"kept": "yes"}
		want := map[string]string{"kept": "yes"}
		for _, e := range es {
			if e.typ == 2 {
				want[e.key] = string(e.raw[4 : len(e.raw)-1])
			}
		}
		if err := d.Unmarshal(m); err != nil {
			t.Fail("unexpected-error", "Unmarshal of %s: %v", what, err)
		}
		if fmt.Sprint(m) != fmt.Sprint(want) {
			t.Fail("wrong-map", "Unmarshal of %s gives %v, not %v", what, m, want)
		}
		t.Probe("strings")
	case 3:
		m := map[string]any{"kept": "yes"}
		if err := d.Unmarshal(m); err != nil {
			t.Fail("unexpected-error", "Unmarshal of %s: %v", what, err)
		}
		check("Unmarshal", m, "kept")
		t.Probe("map")
	case 4:
		m, n := map[any]any{}, map[string]any{}
		if err := d.Unmarshal(m); err != nil {
			t.Fail("unexpected-error", "Unmarshal of %s: %v", what, err)
		}
		for k, v := range m {
			n[k.(string)] = v
		}
		check("Unmarshal", n, "")
		t.Probe("map-any")
	case 5:
		check("ExportMap", d.ExportMap(), "")
		t.Probe("exported")
	case 6:
		if err := d.Unmarshal(new(gunknown)); err == nil {
			t.Fail("error-lost", "Unmarshal into an unknown type gives no error")
		}
		t.Probe("unknown-target")
	case 7:
		c26documentMap(t, d, es, raw, what)
	default:
		c26objectID(t)
	}
	if b, err := d.MarshalBSON(); err != nil || !bytes.Equal(b, raw) {
		t.Fail("document-changed", "%s, read, becomes %x (%v)", what, b, err)
	}
}

// faceDiffers compares what Interface gives with the value.
func faceDiffers(have any, v bval) string {
	switch v.typ {
	case 3:
		m, ok := have.(map[string]any)
		if !ok {
			return fmt.Sprintf("a %T instead of a map", have)
		}
		last := map[string]bval{}
		for _, e := range v.sub {
			last[e.key] = e.bval
		}
		if len(m) != len(last) {
			return fmt.Sprintf("%v instead of %s", m, v.want)
		}
		for k, e := range last {
			got, ok := m[k]
			if !ok {
				return fmt.Sprintf("no %q", k)
			}
			if d := faceDiffers(got, e); d != "" {
				return fmt.Sprintf("%s under %q", d, k)
			}
		}
	case 4:
		a, ok := have.([]any)
		if !ok || len(a) != len(v.sub) {
			return fmt.Sprintf("%T %v instead of a slice of %d", have, have, len(v.sub))
		}
		for i, e := range v.sub {
			if d := faceDiffers(a[i], e.bval); d != "" {
				return fmt.Sprintf("%s at %d", d, i)
			}
		}
	case 0x0f:
		c, ok := have.(types.CodeWithScope)
		if !ok || fmt.Sprintf("jss(%q,%s)", c.Code, docText(v.sub)) != v.want || !bytes.Equal(c.Scope, docBytes(v.sub, false)) {
			return fmt.Sprintf("%T %v instead of %s", have, have, v.want)
		}
	default:
		if v.face == nil {
			if have != nil {
				return fmt.Sprintf("%T %v instead of nil", have, have)
			}
			return ""
		}
		if s := fmt.Sprintf("%T %v", have, have); s != v.face() {
			return fmt.Sprintf("%s instead of %s", s, v.face())
		}
	}
	return ""
}

func c26documentMap(t *T, d *birch.Document, es []belem, raw []byte, what string) {
	m := birch.DocumentMap{}
	fill := "UnmarshalDocument"
	var err error
	// what is in the map before: it is kept, unless the document has it.
	if len(es) > 0 && t.Chance(1, 2) {
		k := es[t.Int(len(es))].key
		m[k] = birch.EC.String(k, "before: nothing that is generated")
		t.Probe("document-map-overwritten")
	}
	const kept = "\xffkept"
	if t.Chance(1, 4) {
		m[kept] = birch.EC.String(kept, "kept")
		defer func() {
			if m[kept] == nil || m[kept].Value().StringValue() != "kept" {
				t.Fail("wrong-map", "%s of %s lost what was in the map", fill, what)
			}
		}()
	}
	if t.Chance(1, 2) {
		err = m.UnmarshalDocument(d)
	} else {
		fill = "UnmarshalBSON"
		err = m.UnmarshalBSON(append([]byte(nil), raw...))
	}
	if err != nil {
		t.Fail("unexpected-error", "%s of %s: %v", fill, what, err)
	}
	seen := map[string]bool{}
	for k, e := range m {
		if k == kept {
			continue
		}
		seen[k] = true
		ok := false
		for _, f := range es { // one of those of the key
			ok = ok || f.key == k && f.want == valueText(e.Value())
		}
		if !ok || e.Key() != k {
			t.Fail("wrong-map", "%s of %s has %v under %q", fill, what, e, k)
		}
	}
	for _, e := range es {
		if !seen[e.key] {
			t.Fail("wrong-map", "%s of %s has no %q", fill, what, e.key)
		}
	}
	b, err := m.MarshalBSON()
	if err != nil {
		t.Fail("unexpected-error", "MarshalBSON of the map of %s: %v", what, err)
	}
	back, err := birch.DCE.Reader(b)
	if err != nil || back.Len() != len(m) {
		t.Fail("wrong-map", "the map of %s is encoded as %x (%v)", what, b, err)
	}
	for e := range back.Iterator() {
		if f := m[e.Key()]; f == nil || valueText(f.Value()) != valueText(e.Value()) {
			t.Fail("wrong-map", "the map of %s is encoded as %s", what, back)
		}
	}
	// what is cut short is refused
	cut := raw[:t.Int(len(raw))]
	if err := (birch.DocumentMap{}).UnmarshalBSON(cut); err == nil {
		t.Fail("error-lost", "UnmarshalBSON of %x, of %x, gives no error", cut, raw)
	}
	t.Probe("document-map")
}

func c26objectID(t *T) {
	id := genID(t)
	if id.Hex() != fmt.Sprintf("%x", id[:]) || id.IsZero() != (id == types.ObjectID{}) {
		t.Fail("wrong-id", "%x has the text %s", id[:], id.Hex())
	}
	back, err := types.ObjectIDFromHex(id.Hex())
	if err != nil || back != id {
		t.Fail("wrong-id", "%s read as %x (%v)", id.Hex(), back, err)
	}
	b, err := json.Marshal(map[string]any{"id": id})
	if err != nil || string(b) != `{"id":"`+id.Hex()+`"}` {
		t.Fail("wrong-id", "%s becomes the JSON %s (%v)", id.Hex(), b, err)
	}
	var into struct{ ID types.ObjectID }
	if t.Chance(1, 2) {
		b = []byte(`{"id":{"$oid":"` + id.Hex() + `"}}`)
	}
	if err := json.Unmarshal(b, &into); err != nil || into.ID != id {
		t.Fail("wrong-id", "%s read as %x (%v)", b, into.ID, err)
	}
	s := []byte(id.Hex())
	switch t.Int(3) {
	case 0:
		s = s[:t.Int(len(s))]
	case 1:
		s = append(s, s[:1+t.Int(len(s))]...)
	default:
		s[t.Int(len(s))] = "gzZ -/:@`"[t.Int(9)]
	}
	if back, err := types.ObjectIDFromHex(string(s)); err == nil {
		t.Fail("wrong-id", "%s is taken as an id, %x", s, back)
	}
	if len(s) != 10 { // twelve bytes of JSON are taken as they are
		if err := json.Unmarshal([]byte(`{"id":"`+string(s)+`"}`), &into); err == nil {
			t.Fail("wrong-id", "the JSON %s is taken as an id, %x", s, into.ID)
		}
	}
	t.Probe("object-id")
}

// c26encode: elements encoded into buffers, which may be too small.
func c26encode(t *T) {
	t.Check()
	key := jsonCString(t)
	v := genValue(t, 2)
	raw := append(append([]byte{v.typ}, key+"\x00"...), v.raw...)
	el := func(start uint, b []byte) (int, error) { return encodeElement(v, start, b, key) }
	bare := func(start uint, b []byte) (int, error) { return encodeBare(v, start, b) }
	if _, err := el(0, make([]byte, len(raw))); errors.Is(err, errNoEncoder) {
		t.Probe("no-encoder")
		return
	}
	one := func(name string, f func(uint, []byte) (int, error), want []byte) {
		start, spare := t.Int(6), t.Int(5)
		size := start + len(want) + spare
		whole := true
		if len(want) > 0 && t.Chance(1, 2) {
			size = t.Int(start + len(want)) // too small
			whole = false
		}
		full := bytes.Repeat([]byte{0xa5}, size+8)
		buf := full[:size]
		n, err := f(uint(start), buf)
		for i, c := range full {
			if (i < start || i >= size || i >= start+len(want)) && c != 0xa5 {
				t.Fail("wrong-bytes", "%s of %s at %d of %d bytes writes at %d: %x", name, show(v.want), start, size, i, full)
			}
		}
		if !whole {
			if !errors.Is(err, elements.ErrTooSmall) {
				t.Fail("error-lost", "%s of %s, %d bytes at %d of %d: %d, %v", name, show(v.want), len(want), start, size, n, err)
			}
			t.Fault("buffer-too-small")
			t.Probe("too-small")
			return
		}
		if err != nil || n != len(want) || !bytes.Equal(buf[start:start+n], want) {
			t.Fail("wrong-bytes", "%s of %s gives %x, %d, %v instead of %x", name, show(v.want), buf, n, err, want)
		}
		t.Probe("encoded")
	}
	one("Element", el, raw)
	one("Encode", bare, v.raw)
}

var errNoEncoder = errors.New("no encoder")

func cstrings(b []byte) (out []string) {
	for len(b) > 0 {
		i := bytes.IndexByte(b, 0)
		out, b = append(out, string(b[:i])), b[i+1:]
	}
	return out
}

func encodeElement(v bval, start uint, b []byte, key string) (int, error) {
	text := func() string { return string(v.raw[4 : len(v.raw)-1]) }
	u32 := func(at int) uint32 { return uint32(unle(v.raw[at : at+4])) }
	u64 := func(at int) uint64 { return unle(v.raw[at : at+8]) }
	var id [12]byte
	switch bsontype.Type(v.typ) {
	case bsontype.Double:
		return elements.Double.Element(start, b, key, math.Float64frombits(u64(0)))
	case bsontype.String:
		return elements.String.Element(start, b, key, text())
	case bsontype.EmbeddedDocument:
		return elements.Document.Element(start, b, key, v.raw)
	case bsontype.Array:
		return elements.Array.Element(start, b, key, v.raw)
	case bsontype.Binary:
		data := v.raw[5:]
		if v.raw[4] == 2 {
			data = v.raw[9:]
		}
		return elements.Binary.Element(start, b, key, data, v.raw[4])
	case bsontype.ObjectID:
		copy(id[:], v.raw)
		return elements.ObjectID.Element(start, b, key, id)
	case bsontype.Boolean:
		return elements.Boolean.Element(start, b, key, v.raw[0] == 1)
	case bsontype.DateTime:
		return elements.DateTime.Element(start, b, key, int64(u64(0)))
	case bsontype.Regex:
		s := cstrings(v.raw)
		return elements.Regex.Element(start, b, key, s[0], s[1])
	case bsontype.DBPointer:
		copy(id[:], v.raw[len(v.raw)-12:])
		return elements.DBPointer.Element(start, b, key, string(v.raw[4:len(v.raw)-13]), id)
	case bsontype.JavaScript:
		return elements.JavaScript.Element(start, b, key, text())
	case bsontype.Symbol:
		return elements.Symbol.Element(start, b, key, text())
	case bsontype.CodeWithScope:
		n := int(u32(4))
		return elements.CodeWithScope.Element(start, b, key, string(v.raw[8:8+n-1]), v.raw[8+n:])
	case bsontype.Int32:
		return elements.Int32.Element(start, b, key, int32(u32(0)))
	case bsontype.Timestamp:
		return elements.Timestamp.Element(start, b, key, u32(4), u32(0))
	case bsontype.Int64:
		return elements.Int64.Element(start, b, key, int64(u64(0)))
	case bsontype.Decimal128:
		return elements.Decimal128.Element(start, b, key, types.NewDecimal128(u64(8), u64(0)))
	}
	return 0, errNoEncoder
}

func encodeBare(v bval, start uint, b []byte) (int, error) {
	text := func() string { return string(v.raw[4 : len(v.raw)-1]) }
	u32 := func(at int) uint32 { return uint32(unle(v.raw[at : at+4])) }
	u64 := func(at int) uint64 { return unle(v.raw[at : at+8]) }
	var id [12]byte
	switch bsontype.Type(v.typ) {
	case bsontype.Double:
		return elements.Double.Encode(start, b, math.Float64frombits(u64(0)))
	case bsontype.String:
		return elements.String.Encode(start, b, text())
	case bsontype.EmbeddedDocument:
		return elements.Document.Encode(start, b, v.raw)
	case bsontype.Array:
		return elements.Array.Encode(start, b, v.raw)
	case bsontype.Binary:
		data := v.raw[5:]
		if v.raw[4] == 2 {
			data = v.raw[9:]
		}
		return elements.Binary.Encode(start, b, data, v.raw[4])
	case bsontype.ObjectID:
		copy(id[:], v.raw)
		return elements.ObjectID.Encode(start, b, id)
	case bsontype.Boolean:
		return elements.Boolean.Encode(start, b, v.raw[0] == 1)
	case bsontype.DateTime:
		return elements.DateTime.Encode(start, b, int64(u64(0)))
	case bsontype.Regex:
		s := cstrings(v.raw)
		return elements.Regex.Encode(start, b, s[0], s[1])
	case bsontype.DBPointer:
		copy(id[:], v.raw[len(v.raw)-12:])
		return elements.DBPointer.Encode(start, b, string(v.raw[4:len(v.raw)-13]), id)
	case bsontype.JavaScript:
		return elements.JavaScript.Encode(start, b, text())
	case bsontype.Symbol:
		return elements.Symbol.Encode(start, b, text())
	case bsontype.CodeWithScope:
		n := int(u32(4))
		return elements.CodeWithScope.Encode(start, b, string(v.raw[8:8+n-1]), v.raw[8+n:])
	case bsontype.Int32:
		return elements.Int32.Encode(start, b, int32(u32(0)))
	case bsontype.Timestamp:
		return elements.Timestamp.Encode(start, b, u32(4), u32(0))
	case bsontype.Int64:
		return elements.Int64.Encode(start, b, int64(u64(0)))
	default:
		return elements.Decimal128.Encode(start, b, types.NewDecimal128(u64(8), u64(0)))
	}
}

func unle(b []byte) (x uint64) {
	for i := len(b) - 1; i >= 0; i-- {
		x = x<<8 | uint64(b[i])
	}
	return x
}

func init() {
	register("C26", "custom", 1, func(t *T) { c26tasks(t, c26custom) })
	register("C26", "drivers", 1, c26drivers)
}

// c26custom: named points of custom metrics become a document ordered by
// name, that an ftdc collector takes.
func c26custom(t *T) {
	t.Check()
	var c events.Custom
	g := gval{kind: 'd'}
	log := ""
	for i, n := 0, t.Int(7); i < n; i++ {
		k := jsonCString(t)
		if t.Chance(1, 2) {
			k = string(rune('a' + t.Int(4)))
		}
		v := gLeaf(t)
		if t.Chance(1, 3) {
			v = gSlice(t, t.Int(4))
		} else if t.Chance(1, 6) {
			v = gUnusual(t, t.Int(4))
		}
		ok := false
		switch v.in.(type) {
		case int64, int32, int, bool, time.Time, float64, float32, uint32, uint64,
			[]int64, []int32, []int, []bool, []time.Time, []float64, []float32, []uint32, []uint64:
			ok = true
		case string, []string, gunknown, chan int, nil:
		default:
			continue // may be taken or not
		}
		if v.bad && ok {
			continue // beyond 64 bits signed
		}
		log += fmt.Sprintf("Add(%q, %s) ", k, v)
		before := c.Len()
		if err := c.Add(k, v.in); (err == nil) != ok || c.Len()-before != b2i(ok) {
			t.Fail("wrong-document", "%sgives %v, and %d points", log, err, c.Len())
		}
		if ok {
			g.keys, g.sub = append(g.keys, k), append(g.sub, v)
		}
	}
	order := make([]int, len(g.keys))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool { return g.keys[order[a]] < g.keys[order[b]] })
	s := gval{kind: 'd'}
	for _, i := range order {
		s.keys, s.sub = append(s.keys, g.keys[i]), append(s.sub, g.sub[i])
	}
	if t.Chance(1, 3) {
		c.Sort()
		for i, p := range c {
			if p.Name != s.keys[i] {
				t.Fail("wrong-document", "%sis sorted as %v", log, c)
			}
		}
	}
	b, err := c.MarshalBSON()
	if err != nil {
		t.Fail("unexpected-error", "%sMarshalBSON: %v", log, err)
	}
	d, err := birch.DCE.Reader(b)
	if err != nil {
		t.Fail("wrong-document", "%sMarshalBSON gives %x: %v", log, b, err)
	}
	if diff := differsDoc(d, s); diff != "" {
		t.Fail("wrong-document", "%sMarshalBSON gives %s", log, diff)
	}
	var back events.Custom
	if err := back.UnmarshalBSON(b); err != nil || back.Len() != len(s.keys) {
		t.Fail("wrong-document", "%sread back: %v, %v", log, back, err)
	}
	for i, p := range back {
		if p.Name != s.keys[i] || fmt.Sprintf("%T %v", p.Value, p.Value) != fmt.Sprintf("%T %v", d.ElementAt(uint(i)).Value().Interface(), d.ElementAt(uint(i)).Value().Interface()) {
			t.Fail("wrong-document", "%sread back: %v", log, back)
		}
	}
	if err := back.UnmarshalBSON(b[:t.Int(len(b))]); err == nil {
		t.Fail("error-lost", "%scut short, is read", log)
	}
	col := ftdc.NewBaseCollector(4)
	if err := col.Add(c); err != nil {
		t.Fail("unexpected-error", "%sis refused by a collector: %v", log, err)
	}
	t.Probe("custom")
}

// gUnusual are slices that no constructor of its own is for.
func gUnusual(t *T, n int) gval {
	g := gval{kind: 'a'}
	bools, words, longs := []bool{}, []uint32{}, []uint64{}
	which := t.Int(3)
	for i := 0; i < n; i++ {
		x := t.U64() >> (1 + t.Int(40))
		switch which {
		case 0:
			bools = append(bools, x&1 != 0)
			g.sub = append(g.sub, gval{want: fmt.Sprint(x&1 != 0)})
		case 1:
			words = append(words, uint32(x))
			g.sub = append(g.sub, gval{want: fmt.Sprintf("n(%d)", uint32(x))})
		default:
			longs = append(longs, x)
			g.sub = append(g.sub, gval{want: fmt.Sprintf("n(%d)", x)})
		}
	}
	g.in = []any{bools, words, longs}[which]
	return g
}

// c26drivers: the marshalers that an application registers, while others use
// them, and histograms, which need them.
func c26drivers(t *T) {
	defer util.RegisterGlobalMarshaler(seriesMarshaler)
	defer util.RegisterGlobalUnmarshaler(nil)
	util.RegisterGlobalMarshaler(nil)
	es := genElems(t, 1, 3)
	raw := docBytes(es, false)
	series := goodSeries(t)
	var wg sync.WaitGroup
	registering, registered := false, false
	fail := t.Chance(1, 3)
	if fail {
		t.Fault("marshaler-error")
	}
	register := func() {
		registering = true
		if t.Chance(1, 2) {
			Yield()
		}
		util.RegisterGlobalMarshaler(func(in any) ([]byte, error) {
			Yield()
			if fail {
				return raw, errMarshaler
			}
			if _, ok := in.(gunknown); ok {
				return raw, nil
			}
			return seriesMarshaler(in)
		})
		util.RegisterGlobalUnmarshaler(func(in []byte, out any) error {
			Yield()
			if fail {
				return errMarshaler
			}
			d, err := birch.DCE.Reader(in)
			if err != nil {
				return err
			}
			s := out.(*hdr.Snapshot)
			s.LowestTrackableValue = d.Lookup("lowest").Int64()
			s.HighestTrackableValue = d.Lookup("highest").Int64()
			s.SignificantFigures = d.Lookup("figures").Int64()
			for v := range d.Lookup("counts").MutableArray().Iterator() {
				s.Counts = append(s.Counts, v.Int64())
			}
			return nil
		})
		registered = true
	}
	if t.Chance(1, 3) {
		register()
	}
	judge := func(name string, before, after bool, err error) bool {
		if t.Check(); err == nil {
			if !after || fail {
				t.Fail("error-lost", "%s gives no error, without a marshaler, or with one that fails", name)
			}
			t.Probe("registered")
			return true
		}
		if fail && errors.Is(err, errMarshaler) {
			t.Probe("registered-failing")
			return false
		}
		if before {
			t.Fail("unexpected-error", "%s, with a marshaler: %v", name, err)
		}
		t.Probe("unregistered")
		return false
	}
	for i, n := 0, 1+t.Int(3); i < n; i++ {
		how := t.Int(3)
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch before := registered; how {
			case 0:
				col := ftdc.NewBaseCollector(4)
				err := col.Add(gunknown{1, 2})
				if judge("Add of an unknown type", before, registering, err) && col.Info().SampleCount != 1 {
					t.Fail("wrong-document", "a sample was added, and there are %d", col.Info().SampleCount)
				}
			case 1:
				it := ftdc.ReadSeries(bytes.NewReader(series))
				n := 0
				for range it.Iterator() {
					n++
				}
				if judge("ReadSeries", before, registering, it.Close()) != (n == 1) {
					t.Fail("wrong-document", "ReadSeries gives %d documents", n)
				}
			default:
				h := genHistogram(t)
				b, err := h.MarshalBSON()
				if err != nil {
					t.Fail("unexpected-error", "a histogram cannot be marshalled: %v", err)
				}
				var back hdrhist.Histogram
				if judge("UnmarshalBSON of a histogram", before, registering, back.UnmarshalBSON(b)) && !back.Histogram.Equals(h.Histogram) {
					t.Fail("wrong-document", "a histogram is read back as another: %v, %v", h.Export(), back.Export())
				}
				j, err := json.Marshal(h)
				if err != nil {
					t.Fail("unexpected-error", "a histogram cannot be marshalled: %v", err)
				}
				var also hdrhist.Histogram
				if err := json.Unmarshal(j, &also); err != nil || !also.Histogram.Equals(h.Histogram) {
					t.Fail("wrong-document", "a histogram is read back as another, from %s (%v)", j, err)
				}
				t.Probe("histogram")
			}
		}()
	}
	if !registered && t.Chance(2, 3) {
		register()
	}
	wg.Wait()
}

func genHistogram(t *T) *hdrhist.Histogram {
	h := &hdrhist.Histogram{Histogram: hdr.New(1, int64(100+t.Int(1000)), 1+t.Int(2))}
	for i, n := 0, t.Int(10); i < n; i++ {
		_ = h.RecordValue(int64(1 + t.Int(100)))
	}
	return h
}

func goodSeries(t *T) []byte {
	var buf bytes.Buffer
	col := ftdc.NewStreamingCollector(10, &buf)
	for i := 0; i < 3; i++ {
		if err := col.Add(birch.DC.Elements(birch.EC.Int64("a", int64(i)))); err != nil {
			t.Harness("a collector fails: %v", err)
		}
	}
	if err := ftdc.FlushCollector(col, &buf); err != nil {
		t.Harness("a collector fails: %v", err)
	}
	return buf.Bytes()
}
