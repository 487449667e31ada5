package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsonerr"
	"github.com/tychoish/birch/bsontype"
	"github.com/tychoish/birch/x/blist"
)

func init() {
	register("C25", "history", 4, func(t *T) { c25(t, nil, 2) })
	register("C25", "concurrent", 1, c25concurrent)
	register("C25", "list", 1, c25list)
}

// The reference model of a document or an array is the list of its elements.
// Elements and values are shared, and not shared, as they are documented to be.
type mdoc struct{ elems []*melem }

type melem struct {
	key string
	val *mval
}

type mval struct {
	typ  byte
	raw  []byte // of values that hold no others
	code string // with a scope
	d    *mdoc  // documents, arrays and scopes
}

func modelOf(v bval) *mval {
	m := &mval{typ: v.typ}
	switch v.typ {
	case 3, 4, 0x0f:
		m.d = modelDoc(v.sub)
		if v.typ == 0x0f {
			n := int(uint32(v.raw[4]) | uint32(v.raw[5])<<8 | uint32(v.raw[6])<<16)
			m.code = string(v.raw[8 : 8+n-1])
		}
	default:
		m.raw = v.raw
	}
	return m
}

func modelDoc(es []belem) *mdoc {
	d := &mdoc{}
	for _, e := range es {
		d.elems = append(d.elems, &melem{e.key, modelOf(e.bval)})
	}
	return d
}

func (v *mval) bytes() []byte {
	switch v.typ {
	case 3, 4:
		return v.d.bytes(v.typ == 4)
	case 0x0f:
		b := append(rawText(v.code), v.d.bytes(false)...)
		return append(le32(uint32(len(b)+4)), b...)
	}
	return v.raw
}

func (d *mdoc) bytes(array bool) []byte {
	b := []byte{0, 0, 0, 0}
	for i, e := range d.elems {
		key := e.key
		if array {
			key = strconv.Itoa(i)
		}
		b = append(append(append(b, e.val.typ), key...), 0)
		b = append(b, e.val.bytes()...)
	}
	b = append(b, 0)
	copy(b, le32(uint32(len(b))))
	return b
}

func (e *melem) bytes() []byte {
	return append(append(append([]byte{e.val.typ}, e.key...), 0), e.val.bytes()...)
}

func (d *mdoc) find(key string) int {
	for i, e := range d.elems {
		if e.key == key {
			return i
		}
	}
	return -1
}

func (d *mdoc) clone() *mdoc {
	c := &mdoc{}
	for _, e := range d.elems {
		c.elems = append(c.elems, &melem{e.key, e.val.clone()})
	}
	return c
}

func (v *mval) clone() *mval {
	c := *v
	if v.d != nil {
		c.d = v.d.clone()
	}
	return &c
}

// empty is whether AppendOmitEmpty leaves the value out.
func (v *mval) empty() bool {
	zero := len(bytes.Trim(v.raw, "\x00")) == 0
	switch v.typ {
	case 1:
		return zero || bytes.Equal(v.raw, []byte{0, 0, 0, 0, 0, 0, 0, 0x80})
	case 2, 0x0d, 0x0e:
		return len(v.raw) == 5
	case 5:
		return bytes.Equal(v.raw[:4], []byte{0, 0, 0, 0}) || v.raw[4] == 2 && len(v.raw) == 9
	case 0x0c:
		return len(v.raw) == 17
	case 0x0b:
		return v.raw[0] == 0
	case 3, 4:
		return len(v.d.elems) == 0
	case 0x0f:
		return v.code == ""
	case 6, 0x0a, 0x7f, 0xff:
		return false
	}
	return zero // numbers, times, ids
}

// newElem is an element and its model. Few keys, so that they repeat.
func newElem(t *T, depth int) (*birch.Element, *melem) {
	b := genValue(t, depth)
	if t.Chance(1, 6) {
		b = emptyValue(t)
	}
	key := keyFor(t)
	e := b.build(key)
	if t.Chance(1, 6) { // as an element that was decoded
		raw := docBytes([]belem{{key, b}}, false)
		d, err := birch.ReadDocument(raw)
		if err != nil {
			t.Fail("unexpected-error", "%x: %v", raw, err)
		}
		e = d.ElementAt(0)
	}
	return e, &melem{key, modelOf(b)}
}

func keyFor(t *T) string {
	if t.Chance(1, 12) {
		return jsonCString(t)
	}
	return string(rune('a' + t.Int(5)))
}

func emptyValue(t *T) (v bval) {
	switch t.Int(6) {
	case 0:
		v = bval{typ: 0x10, raw: le32(0), build: func(k string) *birch.Element { return birch.EC.Int32(k, 0) }}
	case 1:
		v = bval{typ: 2, raw: rawText(""), build: func(k string) *birch.Element { return birch.EC.String(k, "") }}
	case 2:
		v = bval{typ: 3, raw: docBytes(nil, false), build: func(k string) *birch.Element { return birch.EC.SubDocumentFromElements(k) }}
	case 3:
		v = bval{typ: 4, raw: docBytes(nil, true), build: func(k string) *birch.Element { return birch.EC.ArrayFromElements(k) }}
	case 4:
		v = bval{typ: 7, raw: make([]byte, 12), build: func(k string) *birch.Element { return birch.EC.ObjectID(k, [12]byte{}) }}
	default:
		v = bval{typ: 0x0f, build: func(k string) *birch.Element { return birch.EC.CodeWithScope(k, "", birch.DC.New()) }}
		v.raw = append(rawText(""), docBytes(nil, false)...)
		v.raw = append(le32(uint32(len(v.raw)+4)), v.raw...)
	}
	return v
}

// A history is a number of documents with their models, and what they gave
// away: maps, and the bytes they were decoded from.
type history struct {
	t    *T
	name string
	docs []*birch.Document
	mods []*mdoc
	maps []heldMap
	srcs [][2][]byte
	log  []string
}

type heldMap struct {
	m     birch.DocumentMap
	keys  []string
	elems []*birch.Element
}

func (h *history) did(format string, args ...any) {
	h.log = append(h.log, fmt.Sprintf(format, args...))
	if len(h.log) > 12 {
		h.log = h.log[1:]
	}
}

func (h *history) fail(class, format string, args ...any) {
	h.t.Fail(class, "%s%s\nafter: %s", h.name, fmt.Sprintf(format, args...), strings.Join(h.log, "; "))
}

// panics is what f panicked with.
func panics(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

func c25(t *T, shared [][]byte, max int) { (&history{t: t}).run(shared, max) }

func (h *history) run(shared [][]byte, max int) {
	t := h.t
	for i, n := 0, 1+t.Int(max); i < n; i++ {
		if len(shared) > 0 && t.Chance(2, 3) {
			raw := shared[t.Int(len(shared))]
			d, err := birch.ReadDocument(raw)
			if err != nil {
				h.fail("unexpected-error", "%x: %v", raw, err)
			}
			h.docs, h.mods = append(h.docs, d), append(h.mods, modelBytes(t, raw))
			continue
		}
		es := genElems(t, 2, 6)
		if t.Chance(1, 2) {
			h.docs, h.mods = append(h.docs, buildDoc(t, es)), append(h.mods, modelDoc(es))
			continue
		}
		d := birch.DC.New()
		h.docs, h.mods = append(h.docs, d), append(h.mods, &mdoc{})
		h.decode(i, es)
	}
	ops := 3 + t.Int(20)
	if len(shared) > 0 {
		ops = 2 + t.Int(8)
	}
	runtime.SimAllowSteps(10_000_000) // there is much to look at
	for i := 0; i < ops; i++ {
		if len(shared) > 0 {
			Yield()
		}
		k := t.Int(len(h.docs))
		if len(h.mods[k].elems) > 16 {
			h.docs[k].Reset()
			h.mods[k] = &mdoc{}
			h.did("%d.Reset", k)
		}
		if t.Chance(1, 2) {
			h.top(k)
		} else {
			h.nested(k)
		}
		h.look(k)
		if o := t.Int(len(h.docs)); o != k {
			h.look(o)
		}
	}
	for k := range h.docs {
		h.all(k)
	}
	for i, hm := range h.maps {
		t.Check()
		for j, key := range hm.keys {
			if hm.m[key] != hm.elems[j] {
				h.fail("map-changed", "the element %q of map %d, given earlier, was %v and is now %v", key, i, hm.elems[j], hm.m[key])
			}
		}
		if len(hm.m) != len(hm.keys) {
			h.fail("map-changed", "map %d, given earlier, had %d elements and has %d", i, len(hm.keys), len(hm.m))
		}
		t.Probe("map-kept")
	}
	for _, s := range h.srcs {
		t.Check()
		if !bytes.Equal(s[0], s[1]) {
			h.fail("source-changed", "the bytes a document was decoded from were %x and are %x", s[1], s[0])
		}
	}
}

// modelBytes is the model of what the bytes hold. Only used for bytes that
// the harness encoded, whose elements it knows.
func modelBytes(t *T, raw []byte) *mdoc {
	es, ok := c25known[string(raw)]
	if !ok {
		t.Harness("unknown bytes")
	}
	return modelDoc(es)
}

var c25known map[string][]belem

// decode replaces document k by what a stream or a slice of bytes has.
func (h *history) decode(k int, es []belem) {
	t := h.t
	raw := docBytes(es, false)
	keep := append([]byte(nil), raw...)
	d := h.docs[k]
	before := h.mods[k]
	switch t.Int(4) {
	case 0:
		if err := d.UnmarshalBSON(raw); err != nil {
			h.fail("unexpected-error", "UnmarshalBSON of %x: %v", raw, err)
		}
		h.srcs = append(h.srcs, [2][]byte{raw, keep})
		h.mods[k] = modelDoc(es)
		h.did("%d.UnmarshalBSON(%s)", k, docText(es))
	case 1: // a stream that ends, or fails, too early
		r := NewReader(t, raw)
		r.failAt = t.Int(len(raw))
		r.err = []error{io.EOF, errors.New("read failed")}[t.Int(2)]
		if _, err := d.ReadFrom(r); err == nil {
			h.fail("error-lost", "ReadFrom gave no error for a stream that ended after %d of %d bytes", r.failAt, len(raw))
		}
		h.did("%d.ReadFrom(failing)", k)
		h.consistent(k)
		if !h.same(k, before) {
			d.Reset()
			h.mods[k] = &mdoc{}
			h.did("%d.Reset", k)
		}
		t.Probe("decode-failed")
	case 2: // damaged
		if len(raw) > 5 {
			raw[len(raw)-1-t.Int(len(raw)-5)] ^= byte(1 << t.Int(8))
		}
		_ = d.UnmarshalBSON(raw)
		h.did("%d.UnmarshalBSON(damaged)", k)
		h.consistent(k)
		d.Reset()
		h.mods[k] = &mdoc{}
		h.did("%d.Reset", k)
	default:
		r := NewReader(t, raw)
		if n, err := d.ReadFrom(r); err != nil || int(n) != len(raw) {
			h.fail("unexpected-error", "ReadFrom gave %d, %v for %x", n, err, raw)
		}
		h.mods[k] = modelDoc(es)
		h.did("%d.ReadFrom(%s)", k, docText(es))
		t.Probe("decoded")
	}
}

func (h *history) same(k int, m *mdoc) bool {
	d := h.docs[k]
	if d.Len() != len(m.elems) {
		return false
	}
	b, err := d.MarshalBSON()
	return err == nil && bytes.Equal(b, m.bytes(false))
}

// consistent: whatever a failed decoding left, the views of it agree.
func (h *history) consistent(k int) {
	h.t.Check()
	d := h.docs[k]
	seen := map[string]*birch.Element{}
	for e := range d.Iterator() {
		if _, ok := seen[e.Key()]; !ok {
			seen[e.Key()] = e
		}
	}
	m := d.Map()
	for key, e := range seen {
		if m[key] != e || d.LookupElement(key) != e {
			h.fail("stale-view", "document %d has the element %v, Map has %v, LookupElement finds %v", k, e, m[key], d.LookupElement(key))
		}
	}
	if len(m) != len(seen) {
		h.fail("stale-view", "document %d has %d keys, its Map has %d", k, len(seen), len(m))
	}
}

// top edits a document as a whole.
func (h *history) top(k int) {
	t := h.t
	d, m := h.docs[k], h.mods[k]
	switch t.Int(9) {
	case 0:
		es := genElems(t, 2, 6)
		for i := range es {
			if t.Chance(1, 2) {
				es[i].key = keyFor(t)
			}
		}
		h.decode(k, es)
		t.Probe("decode")
	case 1:
		d.Reset()
		h.mods[k] = &mdoc{}
		h.did("%d.Reset", k)
	case 2: // a copy, which has the same elements
		if len(h.docs) < 4 {
			h.docs = append(h.docs, d.Copy())
			h.mods = append(h.mods, &mdoc{append([]*melem(nil), m.elems...)})
			h.did("%d = %d.Copy", len(h.docs)-1, k)
			t.Probe("copy")
		}
	case 3:
		o := t.Int(len(h.docs))
		add := append([]*melem(nil), h.mods[o].elems...)
		if t.Chance(1, 2) {
			d.Extend(h.docs[o])
			h.did("%d.Extend(%d)", k, o)
		} else if o != k {
			if err := d.UnmarshalDocument(h.docs[o]); err != nil {
				h.fail("unexpected-error", "UnmarshalDocument: %v", err)
			}
			h.did("%d.UnmarshalDocument(%d)", k, o)
		} else {
			add = nil
		}
		m.elems = append(m.elems, add...)
		t.Probe("extend")
	case 4: // a map, kept, and one that the caller changes
		mp := d.Map()
		hm := heldMap{m: mp}
		for key, e := range mp {
			hm.keys, hm.elems = append(hm.keys, key), append(hm.elems, e)
		}
		h.maps = append(h.maps, hm)
		other := d.Map()
		for key := range other {
			delete(other, key)
		}
		other["new"] = birch.EC.Null("new")
		h.did("%d.Map", k)
	case 5: // through the list of elements
		if n := len(m.elems); n > 0 {
			i := t.Int(n)
			e, me := newElem(t, 1)
			els := d.Elements()
			if t.Int(2) == 0 {
				// the list that was given keeps its meaning.
				d.Map()
				t.Probe("elements-kept")
			}
			els[i] = e
			m.elems[i] = me
			h.did("%d.Elements[%d] = %q", k, i, me.key)
			t.Probe("elements")
		}
	case 6: // an independent copy of an element
		if n := len(m.elems); n > 0 {
			i := t.Int(n)
			d.Append(d.ElementAt(uint(i)).Copy())
			m.elems = append(m.elems, &melem{m.elems[i].key, m.elems[i].val.clone()})
			h.did("%d.Append(%d[%d].Copy)", k, k, i)
			t.Probe("element-copy")
		}
	case 7: // a new value for an element
		if n := len(m.elems); n > 0 {
			i := t.Int(n)
			e, me := newElem(t, 1)
			d.ElementAt(uint(i)).SetValue(e.Value())
			m.elems[i].val = me.val
			h.did("%d[%d].SetValue(type %x)", k, i, me.val.typ)
			t.Probe("set-value")
		}
	default: // written, to a stream that may fail
		w := NewWriter(t)
		if t.Chance(1, 2) {
			w.plan = func(n int, p []byte) (int, error) {
				t.Fault("write-error")
				return t.Int(len(p)), errors.New("write failed")
			}
		}
		n, err := d.WriteTo(w)
		if (err == nil) != (w.plan == nil) || int(n) != len(w.buf) {
			h.fail("write", "WriteTo gave %d, %v with %d bytes written", n, err, len(w.buf))
		}
		h.did("%d.WriteTo", k)
		h.t.Check()
		if want := m.bytes(false); !bytes.Equal(w.buf, want[:min(len(want), len(w.buf))]) || err == nil && len(w.buf) != len(want) {
			h.fail("wrong-bytes", "document %d is written as %x, not as %x", k, w.buf, want)
		}
	}
}

// nested walks into document k, for as long as chance has it, and edits the
// document or array that it gets to.
func (h *history) nested(k int) {
	t := h.t
	d, m := h.docs[k], h.mods[k]
	path := strconv.Itoa(k)
	var arr *birch.Array
	for depth := 0; depth < 4 && t.Chance(2, 3); depth++ {
		var in []int
		for i, e := range m.elems {
			if e.val.d != nil {
				in = append(in, i)
			}
		}
		if len(in) == 0 {
			break
		}
		i := in[t.Int(len(in))]
		var v *birch.Value
		if arr != nil {
			var err error
			if v, err = arr.Lookup(uint(i)); err != nil {
				h.fail("lookup", "element %d of the array %s: %v", i, path, err)
			}
		} else {
			v = d.ElementAt(uint(i)).Value()
		}
		path += fmt.Sprintf("[%d]", i)
		mv := m.elems[i].val
		if v.Type() != bsontype.Type(mv.typ) {
			h.fail("lookup", "%s is a %s, not of type %x", path, v.Type(), mv.typ)
		}
		m = mv.d
		arr = nil
		switch mv.typ {
		case 3:
			d = v.MutableDocument()
		case 4:
			arr = v.MutableArray()
		default:
			var code string
			if code, d = v.MutableJavaScriptWithScope(); code != mv.code {
				h.fail("lookup", "the code of %s is %q, not %q", path, code, mv.code)
			}
		}
		t.Probe("nested")
	}
	if arr != nil {
		h.editArray(path, arr, m)
		return
	}
	h.edit(path, d, m)
}

func (h *history) edit(path string, d *birch.Document, m *mdoc) {
	t := h.t
	switch t.Int(8) {
	case 0, 1:
		e, me := newElem(t, 1)
		h.did("%s.Append(%q)", path, me.key)
		d.Append(e)
		m.elems = append(m.elems, me)
	case 2, 3:
		e, me := newElem(t, 1)
		i := m.find(me.key)
		h.did("%s.Set(%q), at %d", path, me.key, i)
		d.Set(e)
		if i >= 0 {
			m.elems[i] = me
			t.Probe("replaced")
		} else {
			m.elems = append(m.elems, me)
		}
	case 4, 5:
		key := keyFor(t)
		i := m.find(key)
		h.did("%s.Delete(%q), at %d", path, key, i)
		e := d.Delete(key)
		if (e == nil) != (i < 0) {
			h.fail("delete", "Delete(%q) of %s gave %v", key, path, e)
		}
		if i >= 0 {
			h.element(path+".Delete", e, m.elems[i])
			m.elems = append(m.elems[:i:i], m.elems[i+1:]...)
			t.Probe("deleted")
		}
	case 6:
		var es []*birch.Element
		for i, n := 0, 1+t.Int(3); i < n; i++ {
			e, me := newElem(t, 1)
			if me.val.typ == 6 {
				continue // whether it is empty is not documented
			}
			if t.Chance(1, 8) {
				es = append(es, nil)
			}
			es = append(es, e)
			if !me.val.empty() {
				m.elems = append(m.elems, me)
			} else {
				t.Probe("omitted")
			}
		}
		h.did("%s.AppendOmitEmpty(%d)", path, len(es))
		d.AppendOmitEmpty(es...)
	default: // elements up to one that is not there
		e, me := newElem(t, 1)
		e2, _ := newElem(t, 0)
		h.did("%s.Append(%q, nil, ...)", path, me.key)
		p := panics(func() { d.Append(e, nil, e2) })
		if p != bsonerr.NilElement {
			h.fail("panic", "Append of nil panicked with %v", p)
		}
		m.elems = append(m.elems, me)
		if p = panics(func() { d.Set(nil) }); p != bsonerr.NilElement {
			h.fail("panic", "Set of nil panicked with %v", p)
		}
		t.Probe("nil")
	}
}

func (h *history) editArray(path string, a *birch.Array, m *mdoc) {
	t := h.t
	n := len(m.elems)
	h.t.Probe("array")
	e, me := newElem(t, 1)
	switch op := t.Int(6); {
	case op == 0 && n > 0:
		i := t.Int(n)
		h.did("%s.Set(%d)", path, i)
		a.Set(uint(i), e.Value())
		m.elems[i] = me
	case op == 1 && n > 0:
		i := t.Int(n + 2)
		h.did("%s.Delete(%d)", path, i)
		v := a.Delete(uint(i))
		if (v == nil) != (i >= n) {
			h.fail("delete", "Delete(%d) of the array %s, with %d elements, gave %v", i, path, n, v)
		}
		if i < n {
			if v.Type() != bsontype.Type(m.elems[i].val.typ) {
				h.fail("delete", "Delete(%d) of the array %s gave a %s", i, path, v.Type())
			}
			m.elems = append(m.elems[:i:i], m.elems[i+1:]...)
		}
	case op == 2:
		h.did("%s.Set(%d), out of bounds", path, n)
		if p := panics(func() { a.Set(uint(n), e.Value()) }); p != bsonerr.OutOfBounds {
			h.fail("panic", "Set beyond the end of an array panicked with %v", p)
		}
	case op == 3:
		h.did("%s.Extend", path)
		e2, me2 := newElem(t, 1)
		a.Extend(birch.NewArray(e.Value(), e2.Value()))
		m.elems = append(m.elems, me, me2)
	case op == 4:
		h.did("%s.ExtendFromDocument", path)
		a.ExtendFromDocument(birch.DC.Elements(e))
		m.elems = append(m.elems, me)
	default:
		h.did("%s.Append", path)
		a.Append(e.Value())
		m.elems = append(m.elems, me)
	}
	t.Check()
	if b, err := a.MarshalBSON(); err != nil || !bytes.Equal(b, m.bytes(true)) {
		h.fail("wrong-bytes", "the array %s is marshalled as %x (%v), not as %x", path, b, err, m.bytes(true))
	}
	i := 0
	for v := range a.Iterator() {
		if i >= len(m.elems) || v.Type() != bsontype.Type(m.elems[i].val.typ) {
			h.fail("wrong-value", "the value %d of the array %s is a %s", i, path, v.Type())
		}
		if at, err := a.Lookup(uint(i)); err != nil || at != v {
			h.fail("wrong-value", "the value %d of the array %s is %v (%v)", i, path, at, err)
		}
		i++
	}
	if a.Len() != len(m.elems) || i != len(m.elems) || len(a.Interface()) != i {
		h.fail("wrong-value", "the array %s has %d values, not %d", path, a.Len(), len(m.elems))
	}
	if _, err := a.Lookup(uint(i)); err == nil {
		h.fail("wrong-value", "the array %s has a value after its last", path)
	}
}

func (h *history) element(where string, e *birch.Element, m *melem) {
	h.t.Check()
	if e == nil || e.Key() != m.key {
		h.fail("wrong-value", "%s: the element %v, not %q", where, e, m.key)
	}
	if b, err := e.MarshalBSON(); err != nil || !bytes.Equal(b, m.bytes()) {
		h.fail("wrong-bytes", "%s: the element %q is %x (%v), not %x", where, m.key, b, err, m.bytes())
	}
}

// look: one of the views of document k, against its model.
func (h *history) look(k int) { h.view(k, h.t.Int(views)) }

func (h *history) all(k int) {
	for i := 0; i < views; i++ {
		h.view(k, i)
	}
}

const views = 9

func (h *history) view(k, which int) {
	t := h.t
	t.Check()
	d, m := h.docs[k], h.mods[k]
	where := fmt.Sprintf("document %d", k)
	switch which {
	case 0:
		want := m.bytes(false)
		if b, err := d.MarshalBSON(); err != nil || !bytes.Equal(b, want) {
			h.fail("wrong-bytes", "%s is marshalled as %x (%v), not as %x", where, b, err, want)
		}
		if n, err := d.Validate(); err != nil || int(n) != len(want) {
			h.fail("size", "%s has %d bytes (%v), not %d", where, n, err, len(want))
		}
	case 1:
		i := 0
		for e := range d.Iterator() {
			if i < len(m.elems) {
				h.element(fmt.Sprintf("%s, element %d", where, i), e, m.elems[i])
			}
			i++
		}
		if i != len(m.elems) || d.Len() != i {
			h.fail("wrong-value", "%s has %d elements, not %d", where, i, len(m.elems))
		}
		if _, ok := d.ElementAtOK(uint(i)); ok {
			h.fail("wrong-value", "%s has an element after its last", where)
		}
	case 2:
		mp := d.Map()
		keys := 0
		for i, e := range m.elems {
			if m.find(e.key) != i {
				continue
			}
			keys++
			if mp[e.key] != d.ElementAt(uint(i)) {
				h.fail("stale-view", "%s: Map has %v for %q, the document %v", where, mp[e.key], e.key, d.ElementAt(uint(i)))
			}
			h.element(where+", in Map", mp[e.key], e)
		}
		if len(mp) != keys {
			h.fail("stale-view", "%s: Map has %d keys, the document %d", where, len(mp), keys)
		}
		t.Probe("map")
	case 3:
		key := keyFor(t)
		i := m.find(key)
		e := d.LookupElement(key)
		s, err := d.Search(key)
		v := d.Lookup(key)
		if i < 0 {
			if e != nil || v != nil || err == nil {
				h.fail("wrong-value", "%s: %q, which is not there, was found", where, key)
			}
			break
		}
		if at := d.ElementAt(uint(i)); e != at || err != nil || s != at || v != at.Value() {
			h.fail("wrong-value", "%s: looking up %q gives %v, %v and %v (%v), not element %d", where, key, e, s, v, err, i)
		}
	case 4: // nested values
		h.nestedViews(where, d, m, 3)
	case 5:
		got := d.ExportMap()
		for _, e := range m.elems {
			if _, ok := got[e.key]; !ok {
				h.fail("stale-view", "%s: ExportMap lacks %q", where, e.key)
			}
		}
		for key := range got {
			if m.find(key) < 0 {
				h.fail("stale-view", "%s: ExportMap has %q", where, key)
			}
		}
	case 6:
		before := m.bytes(false)
		s := d.Sorted()
		var want, have []string
		for _, e := range m.elems {
			want = append(want, string(e.bytes()))
		}
		last := ""
		for e := range s.Iterator() {
			b, _ := e.MarshalBSON()
			have = append(have, string(b))
			if e.Key() < last {
				h.fail("order", "%s: Sorted has %q after %q", where, e.Key(), last)
			}
			last = e.Key()
		}
		sort.Strings(want)
		sort.Strings(have)
		if strings.Join(want, "") != strings.Join(have, "") {
			h.fail("order", "%s: Sorted has other elements than the document", where)
		}
		if b, err := d.MarshalBSON(); err != nil || !bytes.Equal(b, before) {
			h.fail("order", "%s: Sorted changed the document", where)
		}
	case 8: // equality
		if len(m.elems) > 0 {
			h.equality(where, d, m)
		}
	case 7: // the map as a document of its own
		mp := d.Map()
		md, err := mp.MarshalDocument()
		if err != nil || md.Len() != len(mp) {
			h.fail("unexpected-error", "%s: Map is not a document: %v", where, err)
		}
		for e := range md.Iterator() {
			i := m.find(e.Key())
			if i < 0 {
				h.fail("stale-view", "%s: Map as a document has %q", where, e.Key())
			}
			h.element(where+", of Map", e, m.elems[i])
		}
		if len(m.elems) > 0 {
			e := m.elems[t.Int(len(m.elems))]
			other := e.key + "other"
			if n := len(e.key); n > 0 && t.Int(2) == 0 {
				other = e.key[:n-1] + string(e.key[n-1]^1)
			}
			if _, ok := mp[other]; ok {
				return
			}
			mp[other] = mp[e.key]
			if err := mp.Validate(); err == nil {
				h.fail("mismatch", "%s: a map with %q as %q is valid", where, e.key, other)
			}
			if _, err := mp.MarshalBSON(); err == nil {
				h.fail("mismatch", "%s: a map with %q as %q is marshalled", where, e.key, other)
			}
		}
	}
}

// equality: elements and values are equal when they are encoded the same,
// however they came about.
func (h *history) equality(where string, d *birch.Document, m *mdoc) {
	t := h.t
	i := t.Int(len(m.elems))
	e, me := d.ElementAt(uint(i)), m.elems[i]
	compare := func(what string, o *birch.Element, mo *melem) {
		t.Check()
		a, b := me.val.bytes(), mo.val.bytes()
		same := me.val.typ == mo.val.typ && bytes.Equal(a, b)
		if got, back := e.Value().Equal(o.Value()), o.Value().Equal(e.Value()); got != same || back != same {
			h.fail("equality", "%s: the values %x and %x (%s), of types %x and %x: Equal is %v, and %v the other way around", where, a, b, what, me.val.typ, mo.val.typ, got, back)
		}
		same = same && me.key == mo.key
		if got, back := e.Equal(o), o.Equal(e); got != same || back != same {
			h.fail("equality", "%s: the elements %x and %x (%s): Equal is %v, and %v the other way around", where, me.bytes(), mo.bytes(), what, got, back)
		}
		if same {
			t.Probe("equal")
		} else {
			t.Probe("unequal")
		}
	}
	switch t.Int(4) {
	case 0:
		compare("itself", e, me)
		if e.Equal(nil) || (*birch.Element)(nil).Equal(e) || e.Value().Equal(nil) || (*birch.Value)(nil).Equal(e.Value()) {
			h.fail("equality", "%s: the element %x equals nil", where, me.bytes())
		}
	case 1: // another of a document
		o := t.Int(len(h.docs))
		if n := len(h.mods[o].elems); n > 0 {
			j := t.Int(n)
			compare(fmt.Sprintf("%d[%d]", o, j), h.docs[o].ElementAt(uint(j)), h.mods[o].elems[j])
		}
	case 2: // what would be decoded
		o, err := birch.ReadDocument((&mdoc{[]*melem{me}}).bytes(false))
		if err != nil {
			h.fail("unexpected-error", "%s: %x is not decoded: %v", where, me.bytes(), err)
		}
		compare("decoded", o.ElementAt(0), me)
	default: // almost the same
		c := &melem{me.key, me.val.clone()}
		b := c.val
		for b.d != nil && len(b.d.elems) > 0 && t.Int(4) > 0 {
			b = b.d.elems[t.Int(len(b.d.elems))].val
		}
		switch {
		case len(b.raw) > 0:
			b.raw = append([]byte(nil), b.raw...)
			b.raw[t.Int(len(b.raw))] ^= byte(1 << t.Int(8))
		case b.d != nil && b.typ == 0x0f && b.code != "" && t.Int(2) == 0:
			b.code = b.code[1:]
		case b.d != nil:
			b.d.elems = append(b.d.elems, &melem{"0", &mval{typ: 0x0a}})
		default:
			c.key = "other"
		}
		// what the change made invalid is not compared.
		if o, err := birch.ReadDocument((&mdoc{[]*melem{c}}).bytes(false)); err == nil && o.Len() == 1 {
			if ob, err := o.MarshalBSON(); err == nil && bytes.Equal(ob, (&mdoc{[]*melem{c}}).bytes(false)) {
				compare("almost the same", o.ElementAt(0), c)
			}
		}
	}
}

// nestedViews: the documents, arrays and scopes in a document can be read as
// what they have become.
func (h *history) nestedViews(where string, d *birch.Document, m *mdoc, depth int) {
	t := h.t
	for i, me := range m.elems {
		if me.val.d == nil {
			continue
		}
		v := d.ElementAt(uint(i)).Value()
		var r birch.Reader
		var want []byte
		switch me.val.typ {
		case 3:
			r, want = v.ReaderDocument(), me.val.bytes()
		case 4:
			r, want = v.ReaderArray(), me.val.bytes()
			if n := len(v.MutableArray().Interface()); n != len(me.val.d.elems) {
				h.fail("wrong-value", "%s: the array %q has %d values, not %d", where, me.key, n, len(me.val.d.elems))
			}
		default:
			var code string
			code, r = v.ReaderJavaScriptWithScope()
			want = me.val.d.bytes(false)
			if code != me.val.code {
				h.fail("wrong-value", "%s: the code %q is %q, not %q", where, me.key, code, me.val.code)
			}
		}
		if !bytes.Equal(r, want) {
			h.fail("wrong-bytes", "%s: the reader of element %d, %q, has %x, not %x", where, i, me.key, []byte(r), want)
		}
		if len(me.val.d.elems) > 0 && me.val.typ != 0x0f && m.find(me.key) == i {
			j := t.Int(len(me.val.d.elems))
			sub := me.val.d.elems[j]
			key := sub.key
			if me.val.typ == 4 {
				key = strconv.Itoa(j)
			} else {
				sub = me.val.d.elems[me.val.d.find(key)]
			}
			e, err := d.Search(me.key, key)
			if err != nil {
				h.fail("wrong-value", "%s: Search of %q, %q: %v", where, me.key, key, err)
			}
			h.element(fmt.Sprintf("%s, Search of %q, %q", where, me.key, key), e, &melem{key, sub.val})
		}
		if me.val.typ == 3 && depth > 0 {
			h.nestedViews(where+"."+me.key, v.MutableDocument(), me.val.d, depth-1)
		}
		t.Probe("nested-view")
	}
}

// c25concurrent: goroutines with documents of their own, which share the
// bytes that they were decoded from.
func c25concurrent(t *T) {
	c25known = map[string][]belem{}
	var shared, keep [][]byte
	for i, n := 0, 1+t.Int(2); i < n; i++ {
		es := genElems(t, 2, 6)
		if t.Chance(1, 2) {
			v := genValue(t, 0)
			code := jsonString(t)
			sub := []belem{{"v", v}}
			cws := bval{typ: 0x0f, raw: append(rawText(code), docBytes(sub, false)...), want: "code", sub: sub}
			cws.raw = append(le32(uint32(len(cws.raw)+4)), cws.raw...)
			cws.build = func(k string) *birch.Element { return birch.EC.CodeWithScope(k, code, buildDoc(t, sub)) }
			es = append(es, belem{keyFor(t), cws})
		}
		raw := docBytes(es, false)
		c25known[string(raw)] = es
		shared, keep = append(shared, raw), append(keep, append([]byte(nil), raw...))
	}
	done := make(chan struct{})
	n := 2 + t.Int(2)
	for i := 0; i < n; i++ {
		h := &history{t: t, name: fmt.Sprintf("goroutine %d: ", i)}
		go func() {
			defer func() { done <- struct{}{} }()
			if t.Chance(1, 3) {
				time.Sleep(time.Duration(t.Int(5)) * time.Millisecond)
			}
			h.run(shared, 1)
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	for i := range shared {
		if !bytes.Equal(shared[i], keep[i]) {
			t.Fail("source-changed", "the bytes that documents were decoded from were %x and are %x", keep[i], shared[i])
		}
	}
	t.Probe("concurrent")
}

// c25list: documents kept as linked lists.
func c25list(t *T) {
	h := &history{t: t, name: "list: "}
	d := &blist.Document{}
	m := &mdoc{}
	for i, n := 0, 2+t.Int(16); i < n; i++ {
		e, me := newElem(t, 1)
		switch t.Int(6) {
		case 0, 1:
			h.did("Append(%q)", me.key)
			d.Append(e)
			m.elems = append(m.elems, me)
		case 2:
			h.did("Prepend(%q)", me.key)
			d.Prepend(e)
			m.elems = append([]*melem{me}, m.elems...)
		case 3:
			if i := m.find(me.key); i >= 0 {
				h.did("Set(%q)", me.key)
				d.Set(e)
				m.elems[i] = me
			}
		case 4:
			i := m.find(me.key)
			h.did("Delete(%q)", me.key)
			x := d.Delete(me.key)
			if (x == nil) != (i < 0) {
				h.fail("delete", "Delete(%q) gave %v", me.key, x)
			}
			if i >= 0 {
				h.element("Delete", x, m.elems[i])
				m.elems = append(m.elems[:i:i], m.elems[i+1:]...)
			}
		default:
			if me.val.typ != 6 {
				h.did("AppendOmitEmpty(%q)", me.key)
				d.AppendOmitEmpty(e, nil)
				if !me.val.empty() {
					m.elems = append(m.elems, me)
				}
			}
		}
		t.Check()
		if d.Len() != len(m.elems) {
			h.fail("wrong-value", "%d elements, not %d", d.Len(), len(m.elems))
		}
		k := 0
		for x := d.Front(); x.Ok(); x = x.Next() {
			if k < len(m.elems) {
				h.element(fmt.Sprintf("element %d", k), x.Value(), m.elems[k])
			}
			k++
		}
		if k != len(m.elems) {
			h.fail("wrong-value", "%d elements, not %d", k, len(m.elems))
		}
		if n, err := d.Validate(); err != nil || int(n) != len(m.bytes(false)) {
			h.fail("size", "%d bytes (%v), not %d", n, err, len(m.bytes(false)))
		}
	}
	t.Probe("list")
}
