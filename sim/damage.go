package main

import (
	"encoding/binary"
	"math"
	"runtime"
	"strings"
)

// damage changes stored bytes the way failing storage does, and gives the
// first byte that may differ from the original.
func damage(t *T, b []byte) ([]byte, int) {
	out := append([]byte(nil), b...)
	first := len(b)
	n := 1 + t.Int(3)
	for i := 0; i < n && len(out) > 0; i++ {
		at := t.Int(len(out))
		first = min(first, at)
		switch t.Int(9) {
		case 0, 1:
			t.Fault("bit-flip")
			out[at] ^= 1 << t.Int(8)
		case 2:
			t.Fault("byte-overwritten")
			out[at] = []byte{0, 1, 0x7f, 0x80, 0xff, 0x03, 0x05, 0x02, 0x0f}[t.Int(9)]
		case 3:
			t.Fault("range-zeroed")
			for j := at; j < len(out) && j < at+1+t.Int(16); j++ {
				out[j] = 0
			}
		case 4:
			t.Fault("range-deleted")
			end := min(len(out), at+1+t.Int(16))
			out = append(out[:at:at], out[end:]...)
		case 5:
			t.Fault("range-duplicated")
			end := min(len(out), at+1+t.Int(64))
			dup := append([]byte(nil), out[at:end]...)
			out = append(out[:end:end], append(dup, out[end:]...)...)
			first = min(first, at)
		case 6:
			t.Fault("range-moved")
			end := min(len(out), at+1+t.Int(32))
			piece := append([]byte(nil), out[at:end]...)
			rest := append(out[:at:at], out[end:]...)
			to := t.Int(len(rest) + 1)
			first = min(first, to)
			out = append(rest[:to:to], append(piece, rest[to:]...)...)
		case 7:
			t.Fault("length-damaged")
			if at+4 <= len(out) {
				v := []int32{0, -1, math.MaxInt32, math.MinInt32, 1, 4, 5, 1 << 20, 1 << 28, -5, int32(len(out)), int32(len(out)) + 1}[t.Int(12)]
				binary.LittleEndian.PutUint32(out[at:], uint32(v))
			}
		case 8:
			t.Fault("tail-lost")
			out = out[:at]
		}
	}
	return out, first
}

func allocated() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

// memoryRule: what an operation allocated must be in proportion to its input.
func memoryRule(t *T, what string, before uint64, input int) {
	t.Check()
	used := allocated() - before
	if limit := uint64(48<<20 + 512*input); used > limit {
		t.Fail("runaway-allocation", "%s: %d bytes were allocated for %d bytes of input", what, used, input)
	}
}

// rawDoc encodes a random document without the code under test.
func rawDoc(t *T, depth int) []byte {
	b := []byte{0, 0, 0, 0}
	n := t.Int(6)
	for i := 0; i < n; i++ {
		b = append(b, rawElem(t, depth, string(rune('a'+i))+strings.Repeat("k", t.Int(3)))...)
	}
	b = append(b, 0)
	binary.LittleEndian.PutUint32(b, uint32(len(b)))
	return b
}

func le32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
func le64(v uint64) []byte { return binary.LittleEndian.AppendUint64(nil, v) }

func rawString(t *T) []byte {
	s := strings.Repeat("é~"[:2], t.Int(6))
	return append(le32(uint32(len(s)+1)), append([]byte(s), 0)...)
}

var rawTypes = []byte{0x10, 0x12, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0A, 0x0B, 0x0C, 0x0D, 0x0E, 0x0F, 0x11, 0x13, 0xFF, 0x7F}

func rawElem(t *T, depth int, key string) []byte {
	k := rawTypes[t.Int(len(rawTypes))]
	if depth <= 0 && (k == 3 || k == 4 || k == 0x0f) {
		k = 0x10
	}
	b := append([]byte{k}, append([]byte(key), 0)...)
	switch k {
	case 0x01:
		b = append(b, le64(math.Float64bits(genFloat(t)))...)
	case 0x09, 0x11, 0x12:
		b = append(b, le64(uint64(genInt64(t)))...)
	case 0x10:
		b = append(b, le32(uint32(genInt64(t)))...)
	case 0x02, 0x0D, 0x0E:
		b = append(b, rawString(t)...)
	case 0x03:
		b = append(b, rawDoc(t, depth-1)...)
	case 0x04:
		a := []byte{0, 0, 0, 0}
		for i, n := 0, t.Int(4); i < n; i++ {
			a = append(a, rawElem(t, depth-1, string(rune('0'+i)))...)
		}
		a = append(a, 0)
		binary.LittleEndian.PutUint32(a, uint32(len(a)))
		b = append(b, a...)
	case 0x05:
		n := t.Int(20)
		sub := []byte{0, 2, 0x80, 4}[t.Int(4)]
		if sub == 2 {
			b = append(b, le32(uint32(n+4))...)
			b = append(b, sub)
			b = append(b, le32(uint32(n))...)
		} else {
			b = append(b, le32(uint32(n))...)
			b = append(b, sub)
		}
		b = append(b, make([]byte, n)...)
	case 0x07:
		b = append(b, make([]byte, 12)...)
	case 0x08:
		b = append(b, byte(t.Int(2)))
	case 0x0B:
		b = append(b, "ab\x00i\x00"...)
	case 0x0C:
		b = append(b, rawString(t)...)
		b = append(b, make([]byte, 12)...)
	case 0x0F:
		s, d := rawString(t), rawDoc(t, depth-1)
		b = append(b, le32(uint32(4+len(s)+len(d)))...)
		b = append(append(b, s...), d...)
	case 0x13:
		b = append(b, le64(t.U64())...)
		b = append(b, le64(0x3040000000000000)...)
	}
	return b
}
