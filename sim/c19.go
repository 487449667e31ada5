package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"runtime"
	"sync"

	"github.com/tychoish/birch"
)

func init() {
	register("C19", "streams", 3, c19)
	register("C19", "writers", 1, c19writers)
	register("C20", "read", 2, c20)
	register("C20", "walk", 1, c20walk)
	registerRare("C20", "deep", 5003, c20deep)
}

const (
	docReadFrom = iota
	docReadFromReused
	docConstructor
	docIOReader
	numDocReaders
)

var docReaderNames = []string{"Document.ReadFrom", "Document.ReadFrom into a used document", "DCE.ReadFrom", "NewFromIOReader"}

// readOne reads one document and gives its bytes, and how many bytes the read
// says it took (-1: it does not say).
func readOne(kind int, reused *birch.Document, r io.Reader) (get func() ([]byte, error), n int64, err error) {
	switch kind {
	case docConstructor:
		d, err := birch.DCE.ReadFrom(r)
		if err != nil {
			return nil, -1, err
		}
		return d.MarshalBSON, -1, nil
	case docIOReader:
		rd, err := birch.NewFromIOReader(r)
		if err != nil {
			return nil, -1, err
		}
		return func() ([]byte, error) { return rd.MarshalBSON() }, -1, nil
	case docReadFromReused:
		n, err := reused.ReadFrom(r)
		if err != nil {
			return nil, n, err
		}
		b, merr := reused.MarshalBSON()
		return func() ([]byte, error) { return b, merr }, n, nil
	default:
		d := new(birch.Document)
		n, err := d.ReadFrom(r)
		if err != nil {
			return nil, n, err
		}
		return d.MarshalBSON, n, nil
	}
}

func bigDoc(t *T) []byte {
	n := 1<<20 - 64 + t.Int(1<<16)
	b := append(le32(0), 0x05, 'b', 0)
	b = append(b, le32(uint32(n))...)
	b = append(b, 0)
	body := make([]byte, n)
	for i := range body {
		body[i] = byte(i * 7)
	}
	b = append(append(b, body...), 0)
	copy(b, le32(uint32(len(b))))
	t.Probe("big-document")
	return b
}

func genDocs(t *T, n int, big bool) (docs [][]byte, all []byte) {
	for i := 0; i < n; i++ {
		d := rawDoc(t, 2)
		if big && i == 0 {
			d = bigDoc(t)
		}
		docs = append(docs, d)
		all = append(all, d...)
	}
	return docs, all
}

func c19(t *T) {
	par := 1 + t.Int(3)
	big := t.Chance(1, 100)
	var wg sync.WaitGroup
	for p := 0; p < par; p++ {
		docs, all := genDocs(t, t.Int(5), big && p == 0)
		cut := len(all)
		mode := t.Int(3) // 0 intact, 1 cut, 2 read error
		if mode == 1 && len(all) > 0 {
			cut = t.Int(len(all))
			if t.Chance(1, 3) { // around the length of a document
				at := 0
				for i, k := 0, t.Int(len(docs)); i < k; i++ {
					at += len(docs[i])
				}
				cut = at + t.Int(6)
			}
			t.Fault("stream-cut")
		}
		r := NewReader(t, all[:cut])
		if mode == 2 {
			r.failAt, r.err = t.Int(len(all)+1), errDisk
			if t.Chance(1, 3) {
				r.err = io.ErrClosedPipe
			}
			cut = r.failAt
		}
		if big && r.mode == 1 {
			r.mode = 2
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			reused := new(birch.Document)
			at := 0
			type kept struct {
				get  func() ([]byte, error)
				want []byte
				kind int
			}
			var keep []kept
			for {
				kind := t.Int(numDocReaders)
				get, n, err := readOne(kind, reused, r)
				t.Check()
				name := docReaderNames[kind]
				i := len(keep)
				whole := i < len(docs) && at+len(docs[i]) <= cut
				if whole {
					if err != nil {
						t.Fail("unexpected-error", "%s of document %d, which is complete: %v", name, i, err)
					}
					if n >= 0 && n != int64(len(docs[i])) {
						t.Fail("byte-count", "%s says it read %d bytes of a document of %d", name, n, len(docs[i]))
					}
					at += len(docs[i])
					if r.off != at {
						t.Fail("over-read", "%s took the stream to byte %d, the document ends at %d", name, r.off, at)
					}
					b, err := get()
					if err != nil || !bytes.Equal(b, docs[i]) {
						t.Fail("wrong-document", "%s of document %d: %x (%v) instead of %x", name, i, b, err, docs[i])
					}
					keep = append(keep, kept{get, docs[i], kind})
					t.Probe("read-" + name)
					continue
				}
				if err == nil {
					t.Fail("error-lost", "%s at byte %d of a stream that ends at %d (document %d of %d) gave no error", name, at, cut, i, len(docs))
				}
				if n >= 0 && n != int64(cut-at) {
					t.Fail("byte-count", "%s says it read %d bytes where %d were left (%v)", name, n, cut-at, err)
				}
				switch {
				case r.failAt >= 0:
					if !errors.Is(err, r.err) {
						t.Fail("wrong-error", "%s: the source failed with %v, the read with %v", name, r.err, err)
					}
					t.Probe("source-failed")
				case cut == at:
					if !errors.Is(err, io.EOF) {
						t.Fail("wrong-error", "%s at the end of the stream: %v", name, err)
					}
					t.Probe("clean-end")
				default:
					if kind == docIOReader && errors.Is(err, io.EOF) {
						t.Fail("wrong-error", "%s inside a document (byte %d of %d) reports a clean end", name, at, cut)
					}
					t.Probe("cut-inside")
				}
				break
			}
			for i := 0; i < 3; i++ {
				Yield()
			}
			for i, k := range keep {
				b, err := k.get()
				if err != nil || !bytes.Equal(b, k.want) {
					t.Fail("document-changed", "document %d, read with %s, changed later to %x (%v), it was %x", i, docReaderNames[k.kind], b, err, k.want)
				}
			}
		}()
	}
	wg.Wait()
}

// c19writers: documents built and written concurrently, to writers that fail.
func c19writers(t *T) {
	par := 1 + t.Int(3)
	var wg sync.WaitGroup
	for p := 0; p < par; p++ {
		docs, _ := genDocs(t, 1+t.Int(4), false)
		w := NewWriter(t)
		var want error
		failN := -1
		w.plan = func(n int, b []byte) (int, error) { return len(b), nil }
		if t.Chance(1, 2) {
			bad := 1 + t.Int(len(docs))
			short := t.Chance(1, 2)
			w.plan = func(n int, b []byte) (int, error) {
				if n != bad {
					return len(b), nil
				}
				want, failN = errDisk, 0
				if short {
					t.Fault("short-write")
					want, failN = io.ErrShortWrite, t.Int(len(b))
				} else {
					t.Fault("write-error")
				}
				return failN, want
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			type kept struct {
				a    *birch.Array
				b    []byte
				s    string
				want []byte
			}
			var keep []kept
			var sum []byte
			for i, raw := range docs {
				d, err := birch.ReadDocument(append([]byte(nil), raw...))
				if err != nil {
					t.Fail("unexpected-error", "ReadDocument of %x: %v", raw, err)
				}
				want, failN = nil, -1
				n, err := d.WriteTo(w)
				t.Check()
				if want != nil {
					if !errors.Is(err, want) {
						t.Fail("error-lost", "the write failed with %v and WriteTo reported %v", want, err)
					}
					if n != int64(failN) {
						t.Fail("byte-count", "the writer took %d bytes and WriteTo reported %d", failN, n)
					}
					t.Probe("write-failed")
					sum = append(sum, raw[:failN]...)
				} else {
					if err != nil || n != int64(len(raw)) {
						t.Fail("unexpected-error", "WriteTo document %d of %d bytes: %d, %v", i, len(raw), n, err)
					}
					t.Probe("written")
					sum = append(sum, raw...)
				}
				if !bytes.Equal(w.buf, sum) {
					t.Fail("wrong-bytes", "the destination has %x instead of %x", w.buf, sum)
				}
				// arrays use pooled buffers
				a := birch.NewArray()
				var wa []byte
				wa = append(wa, 0, 0, 0, 0)
				for k, m := 0, t.Int(4); k < m; k++ {
					v := int32(t.Int(1 << 20))
					a.Append(birch.VC.Int32(v))
					wa = append(append(wa, 0x10, byte('0'+k), 0), le32(uint32(v))...)
				}
				wa = append(wa, 0)
				copy(wa, le32(uint32(len(wa))))
				b, err := a.MarshalBSON()
				if err != nil || !bytes.Equal(b, wa) {
					t.Fail("wrong-array", "Array.MarshalBSON: %x (%v) instead of %x", b, err, wa)
				}
				s := a.String()
				keep = append(keep, kept{a, b, s, wa})
				Yield()
			}
			for _, k := range keep {
				if !bytes.Equal(k.b, k.want) {
					t.Fail("array-changed", "what Array.MarshalBSON returned changed later to %x, it was %x", k.b, k.want)
				}
				if s := k.a.String(); s != k.s {
					t.Fail("array-changed", "Array.String gave %q and then %q", k.s, s)
				}
			}
		}()
	}
	wg.Wait()
}

// c20: damaged bytes through every way of reading a document.
func c20(t *T) {
	raw := rawDoc(t, 3)
	if t.Chance(1, 3) {
		raw = append(raw, rawDoc(t, 2)...)
	}
	b, _ := damage(t, raw)
	par := 1
	if t.Chance(1, 4) {
		par = 2
	}
	var wg sync.WaitGroup
	for p := 0; p < par; p++ {
		r := NewReader(t, b)
		wg.Add(1)
		go func() {
			defer wg.Done()
			before := allocated()
			for docs := 0; docs < 40; docs++ {
				kind := t.Int(numDocReaders)
				t.phase = docReaderNames[kind]
				off := r.off
				_, n, err := readOne(kind, new(birch.Document), r)
				t.Check()
				if n >= 0 && n != int64(r.off-off) {
					t.Fail("byte-count", "%s says it read %d bytes, it took %d", docReaderNames[kind], n, r.off-off)
				}
				if err != nil {
					t.Probe("rejected")
				} else {
					t.Probe("accepted")
					// some readers only look at the length, until the document is used.
					if docReaderNames[kind] != "NewFromIOReader" {
						if _, ok := framing(b[off:r.off], false); !ok {
							t.Fail("read-in-part", "%s accepts %x", docReaderNames[kind], b[off:r.off])
						}
					}
				}
				if r.off == off {
					break
				}
			}
			if par == 1 {
				memoryRule(t, "reading documents", before, len(b))
			}
		}()
	}
	wg.Wait()
}

// c20walk uses what was accepted in every way.
func c20walk(t *T) {
	raw := rawDoc(t, 3)
	b, _ := damage(t, raw)
	before := allocated()
	rd := birch.Reader(append([]byte(nil), b...))
	vn, verr := rd.Validate()
	if verr == nil {
		if n, ok := framing(b, true); !ok || n != int(vn) {
			t.Fail("accepted-malformed", "Reader.Validate accepts %d bytes of %x", vn, b)
		}
	}
	top, whole := framing(b, false)
	pos := 4
	for e, err := range rd.Iterator() {
		if err != nil {
			pos = -1
			break
		}
		n := elementSize(b, pos, len(b), false)
		if n <= 0 || byte(e.Value().Type()) != b[pos] || e.Key() != string(b[pos+1:pos+1+len(e.Key())]) {
			t.Fail("read-in-part", "the iterator of %x gives %v for what is at %d", b, e.Key(), pos)
		}
		pos += n
		_ = e.Key()
		_ = e.Value().Type()
		if verr == nil {
			_ = e.String()
			walkValue(t, e.Value(), 0)
		}
	}
	if pos >= 0 && (!whole || pos+1 != top) {
		t.Fail("read-in-part", "the iterator of %x ends at %d without an error", b, pos)
	}
	if verr == nil {
		t.phase = "using an accepted reader"
		_ = rd.String()
		if _, err := rd.MarshalBSON(); err != nil {
			t.Fail("does-not-marshal", "a reader that validates does not marshal: %v", err)
		}
		t.Probe("reader-accepted")
	}
	_, _ = rd.RecursiveLookup("a", "b")
	_, _ = rd.ElementAt(uint(t.Int(4)))
	t.Check()
	d, err := birch.ReadDocument(append([]byte(nil), b...))
	if err != nil && verr == nil {
		t.Fail("validated-but-rejected", "Reader.Validate accepts what ReadDocument refuses: %v: %x", err, b)
	}
	if err != nil {
		t.Probe("rejected")
		memoryRule(t, "validating", before, len(b))
		return
	}
	if !whole {
		t.Fail("read-in-part", "ReadDocument accepts %x, and gives %d elements", b, d.Len())
	}
	size, err := d.Validate()
	if err != nil && verr == nil {
		t.Fail("validated-but-rejected", "Reader.Validate accepts what Document.Validate refuses: %v: %x", err, b)
	}
	if err != nil {
		t.Probe("rejected-deep")
		if _, err := d.MarshalBSON(); err == nil {
			t.Fail("marshals-invalid", "a document that does not validate marshals: %x", b)
		}
		memoryRule(t, "validating", before, len(b))
		return
	}
	if verr != nil && len(b) >= 4 {
		t.Log("reader refuses what the document accepts: %v", verr)
	}
	t.Probe("accepted")
	t.phase = "using an accepted document"
	out, err := d.MarshalBSON()
	t.Check()
	if err != nil {
		t.Fail("does-not-marshal", "a document that validates does not marshal: %v", err)
	}
	if len(out) != int(size) {
		t.Fail("size", "Validate says %d bytes, MarshalBSON gives %d", size, len(out))
	}
	again, err := birch.ReadDocument(append([]byte(nil), out...))
	if err != nil {
		t.Fail("does-not-read-back", "what MarshalBSON gave does not read: %v: %x from %x", err, out, b)
	}
	if out2, err := again.MarshalBSON(); err != nil || !bytes.Equal(out, out2) {
		t.Fail("does-not-read-back", "%x marshals as %x (%v)", out, out2, err)
	}
	_ = d.String()
	walk(t, d, 0)
	memoryRule(t, "using the document", before, len(b))
}

// framing returns the size of the document that b begins with, if its
// length, the keys and sizes of its elements and its end agree. Documents
// inside of it are looked into if deep is set.
func framing(b []byte, deep bool) (int, bool) {
	if len(b) < 5 {
		return 0, false
	}
	end := int(int32(binary.LittleEndian.Uint32(b)))
	if end < 5 || end > len(b) {
		return 0, false
	}
	pos := 4
	for pos < end && b[pos] != 0 {
		n := elementSize(b, pos, end, deep)
		if n <= 0 {
			return 0, false
		}
		pos += n
	}
	return end, pos == end-1
}

// elementSize returns the size of an element, or 0 if there is none.
func elementSize(b []byte, pos, end int, deep bool) int {
	start := pos
	typ := b[pos]
	cstring := func() bool {
		for pos < end && b[pos] != 0 {
			pos++
		}
		pos++
		return pos <= end
	}
	pos++
	if !cstring() {
		return 0
	}
	length := func() (int, bool) {
		if end-pos < 4 {
			return 0, false
		}
		return int(int32(binary.LittleEndian.Uint32(b[pos:]))), true
	}
	str := func() bool {
		l, ok := length()
		ok = ok && l >= 1 && l <= end-pos-4
		if ok {
			pos += 4 + l
		}
		return ok
	}
	doc := func() bool {
		l, ok := length()
		ok = ok && l >= 5 && l <= end-pos
		if ok && deep {
			_, ok = framing(b[pos:pos+l], true)
		}
		if ok {
			pos += l
		}
		return ok
	}
	switch typ {
	case 0x06, 0x0a, 0x7f, 0xff:
	case 0x08:
		pos++
	case 0x10:
		pos += 4
	case 0x01, 0x09, 0x11, 0x12:
		pos += 8
	case 0x07:
		pos += 12
	case 0x13:
		pos += 16
	case 0x02, 0x0d, 0x0e:
		if !str() {
			return 0
		}
	case 0x0c:
		if !str() {
			return 0
		}
		pos += 12
	case 0x0b:
		if !cstring() || !cstring() {
			return 0
		}
	case 0x03, 0x04:
		if !doc() {
			return 0
		}
	case 0x05:
		l, ok := length()
		if !ok || l < 0 || l > end-pos-5 {
			return 0
		}
		pos += 5 + l
	case 0x0f:
		l, ok := length()
		from := pos
		// only the length is looked at until the value is used.
		if !ok || l < 4 || l > end-pos {
			return 0
		}
		pos += 4
		if deep {
			if !str() || !doc() || pos != from+l {
				return 0
			}
		}
		pos = from + l
	default:
		return 0
	}
	if pos > end {
		return 0
	}
	return pos - start
}

// nestedDoc encodes a document that is nested as deep, in constant space.
func nestedDoc(t *T, depth int) []byte {
	var pre, post []byte
	switch t.Int(3) {
	case 0: // documents
		pre, post = []byte{0, 0, 0, 0, 3, 0}, []byte{0}
	case 1: // arrays
		pre, post = []byte{0, 0, 0, 0, 4, '0', 0}, []byte{0}
	case 2: // code with scope
		pre, post = []byte{0, 0, 0, 0, 0x0f, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0}, []byte{0}
	}
	scope := len(pre) == 15
	n := len(pre) + len(post)
	b := make([]byte, 0, depth*n+5)
	for i := 0; i < depth; i++ {
		size := (depth-i)*n + 5
		copy(pre, le32(uint32(size)))
		if scope {
			copy(pre[6:], le32(uint32(size-4-2-1)))
		}
		b = append(b, pre...)
	}
	b = append(b, 5, 0, 0, 0, 0)
	for i := 0; i < depth; i++ {
		b = append(b, post...)
	}
	return b
}

// c20deep: documents nested deeper than any stack allows. The stack is limited
// to a 16th of the usual size here, and the depth is scaled likewise.
func c20deep(t *T) {
	depth := []int{3, 50, 5000, 50000, 1000000}[t.Int(5)]
	t.Fault("deep-nesting")
	runtime.SimAllowSteps(uint64(depth) * 1000)
	runtime.SimHold(int64(depth) * 1000)
	b := nestedDoc(t, depth)
	t.Check()
	_, err := birch.Reader(b).Validate()
	switch {
	case err != nil:
		t.Probe("too-deep")
		if depth <= 50 {
			t.Fail("valid-refused", "a document of %d levels is refused: %v", depth, err)
		}
	case depth <= 5000:
		t.Probe("deep")
	}
	d, err := birch.ReadDocument(b)
	if err != nil {
		return
	}
	if size, err := d.Validate(); err == nil && int(size) != len(b) {
		t.Fail("size", "Validate says %d bytes, there are %d", size, len(b))
	}
	if out, err := d.MarshalBSON(); err == nil && !bytes.Equal(out, b) {
		t.Fail("does-not-read-back", "a document of %d levels changes", depth)
	}
}

func walk(t *T, d *birch.Document, depth int) {
	for e := range d.Iterator() {
		walkValue(t, e.Value(), depth)
		_ = e.Key()
		_ = e.String()
	}
}

func walkValue(t *T, v *birch.Value, depth int) {
	_ = v.Interface()
	_, _ = v.StringValueOK()
	_, _, _ = v.BinaryOK()
	_, _ = v.DoubleOK()
	_, _ = v.TimeOK()
	_, _, _ = v.DBPointerOK()
	_, _ = v.JavaScriptOK()
	_, _ = v.Decimal128OK()
	_, _, _ = v.TimestampOK()
	_, _ = v.ObjectIDOK()
	_, _, _ = v.MutableJavaScriptWithScopeOK()
	_, _, _ = v.ReaderJavaScriptWithScopeOK()
	if sub, ok := v.MutableDocumentOK(); ok {
		walk(t, sub, depth+1)
	}
	if a, ok := v.MutableArrayOK(); ok {
		for av := range a.Iterator() {
			walkValue(t, av, depth+1)
		}
	}
}
