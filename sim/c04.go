package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
)

func init() {
	register("C04", "outer", 2, func(t *T) { c04(t, false) })
	register("C04", "inner", 2, func(t *T) { c04(t, true) })
	register("C04", "payload", 1, c04payload)
}

func deflate(p []byte) []byte {
	var z bytes.Buffer
	w := zlib.NewWriter(&z)
	w.Write(p)
	w.Close()
	return z.Bytes()
}

// rebuildChunk puts another payload into a chunk document.
func rebuildChunk(seg []byte, payload []byte, zbytes []byte) []byte {
	data, at := binaryField(seg)
	if zbytes == nil {
		zbytes = append(le32(uint32(len(payload))), deflate(payload)...)
	}
	out := append([]byte(nil), seg[:at-5]...)
	out = append(out, le32(uint32(len(zbytes)))...)
	out = append(out, 0)
	out = append(out, zbytes...)
	out = append(out, seg[at+len(data):]...)
	binary.LittleEndian.PutUint32(out, uint32(len(out)))
	return out
}

// values counts what a payload encodes, so that the harness does not take a
// payload that really stands for a huge chunk for a runaway.
func payloadValues(p []byte) int {
	if len(p) < 12 {
		return 0
	}
	n := int(int32(binary.LittleEndian.Uint32(p)))
	if n < 5 || n+8 > len(p) {
		return 0
	}
	metrics, deltas := uint64(binary.LittleEndian.Uint32(p[n:])), uint64(binary.LittleEndian.Uint32(p[n+4:]))
	if metrics > 1<<20 {
		return 0 // more than the reference document can have
	}
	if metrics == 0 {
		return int(deltas) // samples without metrics take no room
	}
	want := metrics * deltas
	p = p[n+8:]
	var got uint64
	for got < want {
		d, k := binary.Uvarint(p)
		if k <= 0 {
			break
		}
		p = p[k:]
		got++
		if d == 0 {
			z, k := binary.Uvarint(p)
			if k <= 0 {
				break
			}
			p = p[k:]
			if z > want {
				z = want
			}
			got += z
		}
	}
	if got > want {
		got = want
	}
	if got > 1<<30 {
		got = 1 << 30
	}
	return int(got)
}

// pokeReader uses every part of what a reader hands out.
func drainChunks(r *Reader) (n int) {
	it := ftdc.ReadChunks(r)
	for c := range it.Iterator() {
		n += c.Size()
		_ = c.Metadata()
		for i := range c.Metrics {
			_ = c.Metrics[i].Key()
		}
		for range c.Iterator().Iterator() {
		}
		for range c.StructuredIterator().Iterator() {
		}
	}
	it.Close()
	return n
}

func c04(t *T, inner bool) {
	st := genStream(t, 1+t.Int(2))
	var b []byte
	var first int
	contradicts := false
	if !inner {
		b, first = damage(t, st.b)
	} else {
		var chunks []int
		for i, s := range st.segs {
			if !s.meta {
				chunks = append(chunks, i)
			}
		}
		i := chunks[t.Int(len(chunks))]
		s := st.segs[i]
		data, _ := binaryField(st.b[s.start:s.end])
		payload := inflate(t, data)
		bad, _ := damage(t, payload)
		if t.Chance(1, 4) {
			// the counts behind the reference document
			bad = append([]byte(nil), payload...)
			n := int(binary.LittleEndian.Uint32(bad))
			at := n + 4*t.Int(2)
			old := binary.LittleEndian.Uint32(bad[at:])
			v := []uint32{0, 1, 0xffffffff, 0x7fffffff, 0x80000000, 1 << 27, 1 << 20, old - 1, old + 1}[t.Int(9)]
			binary.LittleEndian.PutUint32(bad[at:], v)
			t.Fault("count-damaged")
			contradicts = at == n && v != old
		}
		if payloadValues(bad) > 1<<11 {
			bad, contradicts = payload, false
		}
		seg := rebuildChunk(st.b[s.start:s.end], bad, nil)
		b = append(append(append([]byte(nil), st.b[:s.start]...), seg...), st.b[s.end:]...)
		first = s.start
		if bytes.Equal(bad, payload) {
			first = len(st.b)
		}
	}
	n, _, _ := st.before(first)
	kind := t.Int(numReaders)
	before := allocated()
	t.phase = "reading damaged data"
	if t.Chance(1, 4) {
		got := drainChunks(NewReader(t, b))
		memoryRule(t, "ReadChunks", before, len(b))
		if got < n {
			t.Fail("lost-intact-chunks", "damage at byte %d of %d: %d samples of %d before it were read", first, len(st.b), got, n)
		}
		t.Probe("drained")
		return
	}
	rb := readStream(NewReader(t, b), kind, -1, nil)
	memoryRule(t, readerNames[kind], before, len(b))
	prefix := cutBack(t, kind, rb, n)
	compareRead(t, "before the damage", kind, prefix, st.ss[:n])
	if rb.err != nil {
		t.Probe("damage-reported")
	} else if contradicts {
		t.Fail("not-reported", "a chunk that declares another number of metrics than its reference document has was read without an error")
	}
	if contradicts {
		t.Probe("contradiction")
	}
	t.Probe("read-" + readerNames[kind])
}

// cutBack keeps what a reader gave for the first n samples.
func cutBack(t *T, kind int, rb readBack, n int) readBack {
	out := rb
	switch kind {
	case rMatrix, rSeries:
		at := 0
		out.cols = nil
		for _, d := range rb.cols {
			if at >= n {
				break
			}
			at += columnLen(d)
			out.cols = append(out.cols, d)
		}
	default:
		if len(out.items) > n {
			out.items = out.items[:n]
		}
	}
	return out
}

// c04payload damages only compressed bytes: such a chunk is either reported or,
// if the damage did not matter, delivered unaltered.
func c04payload(t *T) {
	st := genStream(t, 1+t.Int(2))
	var chunks []int
	for i, s := range st.segs {
		if !s.meta {
			chunks = append(chunks, i)
		}
	}
	s := st.segs[chunks[t.Int(len(chunks))]]
	data, _ := binaryField(st.b[s.start:s.end])
	z := append([]byte(nil), data...)
	for i := 1 + t.Int(2); i > 0; i-- {
		at := 4 + t.Int(len(z)-4)
		if t.Chance(1, 3) {
			at = len(z) - 1 - t.Int(min(8, len(z)-4)) // around the checksum
		}
		z[at] ^= 1 << t.Int(8)
		t.Fault("payload-bit-flip")
	}
	seg := rebuildChunk(st.b[s.start:s.end], nil, z)
	b := append(append(append([]byte(nil), st.b[:s.start]...), seg...), st.b[s.end:]...)
	kind := t.Int(numReaders)
	before := allocated()
	rb := readStream(NewReader(t, b), kind, -1, nil)
	memoryRule(t, readerNames[kind], before, len(b))
	if rb.err == nil {
		compareRead(t, "damaged payload that was not reported", kind, rb, st.ss)
		t.Probe("harmless-damage")
		return
	}
	n, _, _ := st.before(s.start)
	compareRead(t, "before the damaged chunk", kind, cutBack(t, kind, rb, n), st.ss[:n])
	// nothing of the damaged chunk may have been delivered altered
	if kind != rMatrix && kind != rSeries && len(rb.items) > n {
		compareRead(t, "the damaged chunk", kind, rb, st.ss[:min(len(rb.items), len(st.ss))])
	}
	t.Probe("damage-reported")
}

var _ = birch.DC
