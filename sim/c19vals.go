package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"github.com/tychoish/birch/types"
)

func init() { register("C19", "values", 2, c19values) }

// bval is a value, as the bytes that encode it (by the BSON specification,
// not by the code under test), in the notation of jhave, and as it is built.
type bval struct {
	typ   byte
	raw   []byte
	want  string
	sub   []belem // of documents, arrays and scopes
	build func(key string) *birch.Element
	face  func() string // what Interface gives, in its own notation
}

type belem struct {
	key string
	bval
}

func rawText(s string) []byte { return append(append(le32(uint32(len(s)+1)), s...), 0) }

func docBytes(es []belem, array bool) []byte {
	b := []byte{0, 0, 0, 0}
	for i, e := range es {
		key := e.key
		if array {
			key = strconv.Itoa(i)
		}
		b = append(append(append(b, e.typ), key...), 0)
		b = append(b, e.raw...)
	}
	b = append(b, 0)
	copy(b, le32(uint32(len(b))))
	return b
}

func docText(es []belem) string {
	var sb strings.Builder
	sb.WriteByte('{')
	for _, e := range es {
		sb.WriteString(strconv.Quote(e.key) + ":" + e.want + ",")
	}
	sb.WriteByte('}')
	return sb.String()
}

func buildDoc(t *T, es []belem) *birch.Document {
	var elems []*birch.Element
	for _, e := range es {
		elems = append(elems, e.build(e.key))
	}
	if t.Chance(1, 2) {
		return birch.DC.Elements(elems...)
	}
	d := birch.DC.New()
	for _, e := range elems {
		d.Append(e)
	}
	return d
}

func genElems(t *T, depth, max int) (es []belem) {
	for i, n := 0, t.Int(max); i < n; i++ {
		key := jsonCString(t)
		if t.Chance(1, 2) {
			key = string(rune('a' + i))
		}
		es = append(es, belem{key, genValue(t, depth)})
	}
	return es
}

func genValue(t *T, depth int) (v bval) {
	n := 21
	if depth <= 0 {
		n = 18
	}
	text := jsonString(t)
	if depth == 0 && t.Chance(1, 2000) {
		// lengths of three bytes
		text = strings.Repeat("x", 65535+t.Int(3))
		t.Probe("long-text")
	}
	switch t.Int(n) {
	case 0:
		v = bval{typ: 2, raw: rawText(text), want: strconv.Quote(text)}
		v.build = func(k string) *birch.Element { return birch.EC.String(k, text) }
		v.face = func() string { return fmt.Sprintf("string %s", text) }
	case 1, 2:
		x := int32(genInt64(t))
		v = bval{typ: 0x10, raw: le32(uint32(x)), want: fmt.Sprintf("n(%d)", x)}
		v.build = func(k string) *birch.Element { return birch.EC.Int32(k, x) }
		v.face = func() string { return fmt.Sprintf("int32 %d", x) }
	case 3:
		x := genInt64(t)
		v = bval{typ: 0x12, raw: le64(uint64(x)), want: fmt.Sprintf("n(%d)", x)}
		v.build = func(k string) *birch.Element { return birch.EC.Int64(k, x) }
		v.face = func() string { return fmt.Sprintf("int64 %d", x) }
	case 4:
		x := genFloat(t)
		v = bval{typ: 1, raw: le64(math.Float64bits(x)), want: fmt.Sprintf("f(%x)", math.Float64bits(x))}
		v.build = func(k string) *birch.Element { return birch.EC.Double(k, x) }
		v.face = func() string { return fmt.Sprintf("float64 %v", x) }
	case 5:
		x := t.Chance(1, 2)
		v = bval{typ: 8, raw: []byte{byte(b2i(x))}, want: fmt.Sprint(x)}
		v.build = func(k string) *birch.Element { return birch.EC.Boolean(k, x) }
		v.face = func() string { return fmt.Sprintf("bool %v", x) }
	case 6:
		v = bval{typ: 0x0a, want: "null"}
		v.build = func(k string) *birch.Element { return birch.EC.Null(k) }
	case 7:
		b, sub := jsonBytes(t), []byte{0, 1, 2, 3, 5, 128, 255}[t.Int(7)]
		v = bval{typ: 5, raw: append(append(le32(uint32(len(b))), sub), b...), want: fmt.Sprintf("bin(%x,%x)", sub, b)}
		if sub == 2 {
			v.raw = append(append(le32(uint32(len(b)+4)), sub), append(le32(uint32(len(b))), b...)...)
		}
		v.build = func(k string) *birch.Element {
			if sub == 0 && len(b)%2 == 0 {
				return birch.EC.Binary(k, b)
			}
			return birch.EC.BinaryWithSubtype(k, b, sub)
		}
		v.face = func() string { return fmt.Sprintf("[]uint8 %v", b) }
	case 8:
		v = bval{typ: 6, want: "undefined"}
		v.build = func(k string) *birch.Element { return birch.EC.Undefined(k) }
	case 9:
		id := genID(t)
		v = bval{typ: 7, raw: id[:], want: fmt.Sprintf("oid(%x)", id[:])}
		v.build = func(k string) *birch.Element { return birch.EC.ObjectID(k, id) }
		v.face = func() string { return fmt.Sprintf("types.ObjectID %v", id) }
	case 10:
		x := int64(t.U64()%4e12) - 1e12
		v = bval{typ: 9, raw: le64(uint64(x)), want: fmt.Sprintf("date(%d)", x)}
		v.build = func(k string) *birch.Element {
			if x%2 == 0 {
				return birch.EC.Time(k, time.UnixMilli(x))
			}
			return birch.EC.DateTime(k, x)
		}
		v.face = func() string { return fmt.Sprintf("time.Time %v", time.UnixMilli(x)) }
	case 11:
		p, o := jsonCString(t), jsonCString(t)
		v = bval{typ: 0x0b, raw: append(append([]byte(p), 0), append([]byte(o), 0)...), want: fmt.Sprintf("re(%q,%q)", p, o)}
		v.build = func(k string) *birch.Element { return birch.EC.Regex(k, p, o) }
		v.face = func() string { return fmt.Sprintf("types.Regex %v", types.Regex{Pattern: p, Options: o}) }
	case 12:
		id := genID(t)
		v = bval{typ: 0x0c, raw: append(rawText(text), id[:]...), want: fmt.Sprintf("dbp(%q,%x)", text, id[:])}
		v.build = func(k string) *birch.Element { return birch.EC.DBPointer(k, text, id) }
		v.face = func() string { return fmt.Sprintf("types.DBPointer %v", types.DBPointer{DB: text, Pointer: id}) }
	case 13:
		v = bval{typ: 0x0d, raw: rawText(text), want: fmt.Sprintf("js(%q)", text)}
		v.build = func(k string) *birch.Element { return birch.EC.JavaScript(k, text) }
		v.face = func() string { return fmt.Sprintf("string %s", text) }
	case 14:
		v = bval{typ: 0x0e, raw: rawText(text), want: fmt.Sprintf("sym(%q)", text)}
		v.build = func(k string) *birch.Element { return birch.EC.Symbol(k, text) }
		v.face = func() string { return fmt.Sprintf("string %s", text) }
	case 15:
		a, b := uint32(t.U64()), uint32(t.U64())
		v = bval{typ: 0x11, raw: append(le32(b), le32(a)...), want: fmt.Sprintf("ts(%d,%d)", a, b)}
		v.build = func(k string) *birch.Element { return birch.EC.Timestamp(k, a, b) }
		v.face = func() string { return fmt.Sprintf("types.Timestamp %v", types.Timestamp{T: a, I: b}) }
	case 16:
		hi, lo := t.U64(), t.U64()
		if t.Chance(1, 2) {
			hi = 0x3040000000000000
		}
		d := types.NewDecimal128(hi, lo)
		v = bval{typ: 0x13, raw: append(le64(lo), le64(hi)...), want: decBits(d)}
		v.build = func(k string) *birch.Element { return birch.EC.Decimal128(k, d) }
		v.face = func() string { return fmt.Sprintf("types.Decimal128 %v", d) }
	case 17:
		if t.Chance(1, 2) {
			v = bval{typ: 0xff, want: "minkey"}
			v.build = func(k string) *birch.Element { return birch.EC.MinKey(k) }
		} else {
			v = bval{typ: 0x7f, want: "maxkey"}
			v.build = func(k string) *birch.Element { return birch.EC.MaxKey(k) }
		}
	case 18:
		sub := genElems(t, depth-1, 4)
		v = bval{typ: 3, raw: docBytes(sub, false), want: docText(sub), sub: sub}
		v.build = func(k string) *birch.Element {
			if len(sub)%2 == 0 {
				return birch.EC.SubDocumentFromReader(k, birch.Reader(docBytes(sub, false)))
			}
			return birch.EC.SubDocument(k, buildDoc(t, sub))
		}
	case 19:
		sub := genElems(t, depth-1, 4)
		v = bval{typ: 0x0f, raw: append(rawText(text), docBytes(sub, false)...), want: fmt.Sprintf("jss(%q,%s)", text, docText(sub)), sub: sub}
		v.raw = append(le32(uint32(len(v.raw)+4)), v.raw...)
		v.build = func(k string) *birch.Element { return birch.EC.CodeWithScope(k, text, buildDoc(t, sub)) }
	default:
		sub := genElems(t, depth-1, 4)
		var sb strings.Builder
		for i := range sub {
			sub[i].key = strconv.Itoa(i)
			sb.WriteString(sub[i].want + ",")
		}
		v = bval{typ: 4, raw: docBytes(sub, true), want: "[" + sb.String() + "]", sub: sub}
		v.build = func(k string) *birch.Element {
			var vs []*birch.Value
			for _, e := range sub {
				vs = append(vs, e.build("").Value())
			}
			if len(sub)%2 == 0 {
				return birch.EC.ArrayFromElements(k, vs...)
			}
			return birch.EC.Array(k, birch.NewArray(vs...))
		}
	}
	return v
}

func genID(t *T) (id types.ObjectID) {
	copy(id[:], append(le64(t.U64()), le32(uint32(t.U64()))...))
	return id
}

// c19values: documents of all types of values, built and written to a stream,
// are the bytes the specification says; read off a fragmented stream, every
// value can be found and is the one those bytes encode.
func c19values(t *T) {
	var docs [][]belem
	var all []byte
	w := NewWriter(t)
	if t.Chance(1, 8) {
		nullKey(t, w)
	}
	for i, n := 0, 1+t.Int(3); i < n; i++ {
		es := genElems(t, 2, 7)
		raw := docBytes(es, false)
		d := buildDoc(t, es)
		t.Check()
		if size, err := d.Validate(); err != nil || int(size) != len(raw) {
			t.Fail("size", "%s is valid with %d bytes, not %d (%v)", show(docText(es)), size, len(raw), err)
		}
		var err error
		switch t.Int(3) {
		case 0:
			_, err = d.WriteTo(w)
		case 1:
			var b []byte
			if b, err = d.MarshalBSON(); err == nil {
				_, err = w.Write(b)
			}
		default:
			var b []byte
			if b, err = d.Copy().MarshalBSON(); err == nil {
				_, err = w.Write(b)
			}
		}
		if err != nil {
			t.Fail("unexpected-error", "writing %s: %v", show(docText(es)), err)
		}
		docs, all = append(docs, es), append(all, raw...)
		if !bytes.Equal(w.buf, all) {
			t.Fail("wrong-bytes", "%s is written as %x, not as %x", show(docText(es)), w.buf[len(all)-len(raw):], raw)
		}
	}
	r := NewReader(t, all)
	for i, es := range docs {
		raw := docBytes(es, false)
		where := fmt.Sprintf("document %d, %s", i, show(docText(es)))
		if t.Chance(1, 4) {
			rd, err := birch.NewFromIOReader(r)
			if err != nil {
				t.Fail("unexpected-error", "%s: %v", where, err)
			}
			checkReader(t, where, rd, es)
			continue
		}
		d, err := birch.DCE.ReadFrom(r)
		if err != nil {
			t.Fail("unexpected-error", "%s: %v", where, err)
		}
		checkDocument(t, where, d, es)
		if b, err := d.MarshalBSON(); err != nil || !bytes.Equal(b, raw) {
			t.Fail("wrong-bytes", "%s, read and looked at, becomes %x (%v)", where, b, err)
		}
		t.Probe("values")
	}
}

// nullKey: a key with a null byte cannot be encoded, and is not.
func nullKey(t *T, w *Writer) {
	es := append(genElems(t, 1, 3), belem{jsonCString(t) + "\x00" + jsonCString(t), genValue(t, 1)})
	d := buildDoc(t, es)
	if t.Chance(1, 2) {
		d = birch.DC.Elements(birch.EC.SubDocument("nested", d))
	}
	for i, f := range []func() error{
		func() error { _, err := d.Validate(); return err },
		func() error { _, err := d.MarshalBSON(); return err },
		func() error { _, err := d.WriteTo(w); return err },
	} {
		if err := f(); err == nil {
			t.Fail("error-lost", "%s, with a null byte in a key, is encoded (%d)", show(docText(es)), i)
		}
	}
	if len(w.buf) != 0 {
		t.Fail("wrong-bytes", "%s, with a null byte in a key, is written as %x", show(docText(es)), w.buf)
	}
	t.Probe("null-key")
}

// first is the element that a lookup of the key finds.
func first(es []belem, key string) *belem {
	for i := range es {
		if es[i].key == key {
			return &es[i]
		}
	}
	return nil
}

func valueText(v *birch.Value) string {
	var sb strings.Builder
	jhave(&sb, v)
	return sb.String()
}

func checkDocument(t *T, where string, d *birch.Document, es []belem) {
	t.Check()
	if t.Chance(1, 2) {
		var sb strings.Builder
		jhaveDoc(&sb, d)
		if sb.String() != docText(es) {
			t.Fail("wrong-value", "%s: read as %s", where, show(sb.String()))
		}
	}
	if d.Len() != len(es) {
		t.Fail("wrong-value", "%s: %d elements", where, d.Len())
	}
	for i, e := range es {
		at, ok := d.ElementAtOK(uint(i))
		if !ok || at.Key() != e.key || at.Value().Type() != bsontype.Type(e.typ) {
			t.Fail("wrong-value", "%s: element %d is %v", where, i, at)
		}
		v := at.Value()
		f := first(es, e.key)
		switch t.Int(6) {
		case 0:
			if have := valueText(d.Lookup(e.key)); have != f.want {
				t.Fail("wrong-value", "%s: Lookup of %q gives %s", where, e.key, have)
			}
		case 1:
			el, err := d.LookupElementErr(e.key)
			if err != nil || el.Key() != e.key || valueText(el.Value()) != f.want {
				t.Fail("wrong-value", "%s: LookupElementErr of %q gives %v, %v", where, e.key, el, err)
			}
		case 2:
			el, err := d.Search(e.key)
			if err != nil || valueText(el.Value()) != f.want {
				t.Fail("wrong-value", "%s: Search of %q gives %v, %v", where, e.key, el, err)
			}
		case 3:
			if e.face != nil {
				if have := fmt.Sprintf("%T %v", v.Interface(), v.Interface()); have != e.face() {
					t.Fail("wrong-value", "%s: Interface of element %d gives %s, not %s", where, i, have, e.face())
				}
			}
		case 4:
			keys, at := []string{e.key}, f
			for len(at.sub) > 0 && at.typ != 0x0f && (len(keys) == 1 || t.Chance(3, 4)) {
				k := at.sub[t.Int(len(at.sub))].key
				keys, at = append(keys, k), first(at.sub, k)
			}
			el, err := d.Search(keys...)
			if err != nil || valueText(el.Value()) != at.want || el.Key() != keys[len(keys)-1] {
				t.Fail("wrong-value", "%s: Search of %q gives %v, %v", where, keys, el, err)
			}
			miss := "no such key"
			if at.typ == 4 && t.Chance(3, 4) {
				miss = []string{strconv.Itoa(len(at.sub)), "-1", "18446744073709551615"}[t.Int(3)]
			}
			if el, err := d.Search(append(keys, miss)...); err == nil {
				t.Fail("wrong-value", "%s: Search of %q, %q gives %v", where, keys, miss, el)
			}
			if e.typ == 4 {
				a := v.MutableArray()
				for i, s := range e.sub {
					have, err := a.Lookup(uint(i))
					if err != nil || valueText(have) != s.want {
						t.Fail("wrong-value", "%s: Lookup of %d in the array %q gives %v, %v", where, i, e.key, have, err)
					}
					el, err := a.LookupElemdent(uint(i))
					if err != nil || valueText(el.Value()) != s.want {
						t.Fail("wrong-value", "%s: LookupElemdent of %d in the array %q gives %v, %v", where, i, e.key, el, err)
					}
				}
				if have, err := a.Lookup(uint(len(e.sub))); err == nil {
					t.Fail("wrong-value", "%s: Lookup behind the end of the array %q gives %v", where, e.key, have)
				}
				t.Probe("array-lookup")
			}
		case 5:
			other := e.build("other").Value()
			if !v.Equal(other) || !other.Equal(v) || !at.Equal(at.Copy()) {
				t.Fail("wrong-value", "%s: element %d does not equal %s", where, i, e.want)
			}
			if n := &es[t.Int(len(es))]; (n.typ != e.typ || !bytes.Equal(n.raw, e.raw)) && v.Equal(n.build("other").Value()) {
				t.Fail("wrong-value", "%s: element %d equals %s", where, i, n.want)
			}
		}
		if have := valueText(v); have != e.want {
			t.Fail("wrong-value", "%s: element %d is %s", where, i, have)
		}
		if b, err := at.MarshalBSON(); err != nil || !bytes.Equal(b, append(append([]byte{e.typ}, e.key+"\x00"...), e.raw...)) {
			t.Fail("wrong-bytes", "%s: element %d is marshalled as %x (%v)", where, i, b, err)
		}
		okValues(t, where, v)
	}
	if k := "no such key"; d.Lookup(k) != nil || d.LookupElement(k) != nil {
		t.Fail("wrong-value", "%s: a key that is not there was found", where)
	} else if _, err := d.LookupErr(k); err == nil {
		t.Fail("wrong-value", "%s: a key that is not there was found", where)
	}
	if _, ok := d.ElementAtOK(uint(len(es))); ok {
		t.Fail("wrong-value", "%s: an element after the last was found", where)
	}
}

// okValues: the accessors of all types but its own refuse a value.
func okValues(t *T, where string, v *birch.Value) {
	have := ""
	ok := func(name string, is bool) {
		if is {
			have += " " + name
		}
	}
	_, is := v.DoubleOK()
	ok("Double", is)
	_, is = v.StringValueOK()
	ok("StringValue", is)
	_, is = v.MutableDocumentOK()
	ok("Document", is)
	_, is = v.MutableArrayOK()
	ok("Array", is)
	_, _, is = v.BinaryOK()
	ok("Binary", is)
	_, is = v.ObjectIDOK()
	ok("ObjectID", is)
	_, is = v.BooleanOK()
	ok("Boolean", is)
	_, is = v.DateTimeOK()
	ok("DateTime", is)
	_, is = v.TimeOK()
	ok("Time", is)
	_, _, is = v.DBPointerOK()
	ok("DBPointer", is)
	_, is = v.JavaScriptOK()
	ok("JavaScript", is)
	_, _, is = v.MutableJavaScriptWithScopeOK()
	ok("CodeWithScope", is)
	_, is = v.Int32OK()
	ok("Int32", is)
	_, _, is = v.TimestampOK()
	ok("Timestamp", is)
	_, is = v.Int64OK()
	ok("Int64", is)
	_, is = v.IntOK()
	ok("Int", is)
	_, is = v.Decimal128OK()
	ok("Decimal128", is)
	for name, f := range mustValues {
		p := panics(func() { f(v) })
		if mine := strings.Contains(mustTypes[name], fmt.Sprintf("%02x ", byte(v.Type()))); mine && p != nil {
			t.Fail("wrong-value", "%s: reading a value of type %s as %s panics: %v", where, v.Type(), name, p)
		} else if !mine && p == nil {
			t.Fail("wrong-value", "%s: a value of type %s can be read as %s", where, v.Type(), name)
		}
	}
	want := map[byte]string{1: " Double", 2: " StringValue", 3: " Document", 4: " Array", 5: " Binary", 7: " ObjectID", 8: " Boolean", 9: " DateTime Time", 0x0c: " DBPointer", 0x0d: " JavaScript",
		0x0f: " CodeWithScope", 0x10: " Int32 Int", 0x11: " Timestamp", 0x12: " Int64 Int", 0x13: " Decimal128"}[byte(v.Type())]
	if have != want {
		t.Fail("wrong-value", "%s: a value of type %s can be read as%s", where, v.Type(), have)
	}
}

var mustTypes = map[string]string{"Double": "01 ", "StringValue": "02 ", "ReaderDocument": "03 ", "MutableDocument": "03 ", "ReaderArray": "04 ", "MutableArray": "04 ", "Binary": "05 ", "ObjectID": "07 ", "Boolean": "08 ",
	"DateTime": "09 ", "Time": "09 ", "Regex": "0b ", "DBPointer": "0c ", "JavaScript": "0d ", "Symbol": "0e ", "ReaderJavaScriptWithScope": "0f ", "MutableJavaScriptWithScope": "0f ", "Int32": "10 ", "Timestamp": "11 ", "Int64": "12 ", "Int": "10 12 ", "Decimal128": "13 "}

var mustValues = map[string]func(v *birch.Value){
	"Double":                     func(v *birch.Value) { v.Double() },
	"StringValue":                func(v *birch.Value) { v.StringValue() },
	"ReaderDocument":             func(v *birch.Value) { v.ReaderDocument() },
	"MutableDocument":            func(v *birch.Value) { v.MutableDocument() },
	"ReaderArray":                func(v *birch.Value) { v.ReaderArray() },
	"MutableArray":               func(v *birch.Value) { v.MutableArray() },
	"Binary":                     func(v *birch.Value) { v.Binary() },
	"ObjectID":                   func(v *birch.Value) { v.ObjectID() },
	"Boolean":                    func(v *birch.Value) { v.Boolean() },
	"DateTime":                   func(v *birch.Value) { v.DateTime() },
	"Time":                       func(v *birch.Value) { v.Time() },
	"Regex":                      func(v *birch.Value) { v.Regex() },
	"DBPointer":                  func(v *birch.Value) { v.DBPointer() },
	"JavaScript":                 func(v *birch.Value) { v.JavaScript() },
	"Symbol":                     func(v *birch.Value) { v.Symbol() },
	"ReaderJavaScriptWithScope":  func(v *birch.Value) { v.ReaderJavaScriptWithScope() },
	"MutableJavaScriptWithScope": func(v *birch.Value) { v.MutableJavaScriptWithScope() },
	"Int32":                      func(v *birch.Value) { v.Int32() },
	"Timestamp":                  func(v *birch.Value) { v.Timestamp() },
	"Int64":                      func(v *birch.Value) { v.Int64() },
	"Int":                        func(v *birch.Value) { v.Int() },
	"Decimal128":                 func(v *birch.Value) { v.Decimal128() },
}

func checkReader(t *T, where string, rd birch.Reader, es []belem) {
	t.Check()
	i := 0
	for e, err := range rd.Iterator() {
		if err != nil || i >= len(es) || e.Key() != es[i].key || valueText(e.Value()) != es[i].want {
			t.Fail("wrong-value", "%s: the Reader's element %d is %v (%v)", where, i, e, err)
		}
		i++
	}
	if i != len(es) {
		t.Fail("wrong-value", "%s: the Reader has %d elements", where, i)
	}
	for i, e := range es {
		el, err := rd.ElementAt(uint(i))
		if err != nil || el.Key() != e.key || valueText(el.Value()) != e.want {
			t.Fail("wrong-value", "%s: the Reader's ElementAt(%d) is %v (%v)", where, i, el, err)
		}
		f := first(es, e.key)
		if el, err = rd.RecursiveLookup(e.key); err != nil || valueText(el.Value()) != f.want {
			t.Fail("wrong-value", "%s: the Reader's lookup of %q is %v (%v)", where, e.key, el, err)
		}
		if len(f.sub) > 0 && f.typ != 0x0f {
			k := f.sub[t.Int(len(f.sub))].key
			if el, err = rd.RecursiveLookup(e.key, k); err != nil || valueText(el.Value()) != first(f.sub, k).want {
				t.Fail("wrong-value", "%s: the Reader's lookup of %q, %q is %v (%v)", where, e.key, k, el, err)
			}
		}
	}
	if _, err := rd.RecursiveLookup("no such key"); err == nil {
		t.Fail("wrong-value", "%s: a key that is not there was found", where)
	}
	if _, err := rd.ElementAt(uint(len(es))); err == nil {
		t.Fail("wrong-value", "%s: an element after the last was found", where)
	}
	d, err := birch.DCE.Reader(rd)
	if err != nil {
		t.Fail("unexpected-error", "%s: %v", where, err)
	}
	checkDocument(t, where, d, es)
	t.Probe("reader-values")
}
