package main

import (
	"bytes"
	"encoding/binary"
	"encoding/csv"
	"fmt"
	"io"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/tychoish/birch/types"
	"github.com/tychoish/birch/x/ftdc"
)

func init() {
	register("C21", "write", 1, c21write)
	register("C21", "dump", 1, c21dump)
	register("C21", "convert", 1, c21convert)
	register("C22", "ids", 1, c22)
}

// csvChunks makes a stream of chunks and says what the chunks hold.
func csvChunks(t *T, same bool) (stream []byte, chunks [][]sample) {
	kinds := []fieldKind{kInt64, kInt32, kBool, kDate, kTimestamp, kDouble, kDoc, kArray, kString}
	schema := metricSchema(t, 4, 2, kinds)
	var buf bytes.Buffer
	for i, n := 0, 1+t.Int(4); i < n; i++ {
		if !same && t.Chance(1, 2) {
			schema = metricSchema(t, 4, 1, kinds)
		}
		ss := genSamples(t, schema, 1+t.Int(12))
		c := ftdc.NewBaseCollector(len(ss))
		for _, s := range ss {
			if err := c.Add(s.doc()); err != nil {
				t.Harness("add: %v", err)
			}
		}
		b, err := c.Resolve()
		if err != nil {
			t.Harness("resolve: %v", err)
		}
		buf.Write(b)
		chunks = append(chunks, ss)
	}
	return buf.Bytes(), chunks
}

type cell struct {
	key  string
	kind fieldKind
	v    int64
}

func cells(s sample) (out []cell) {
	flatten("", s.fs, s.vs, false, func(key string, f field, v val) {
		switch f.kind {
		case kTimestamp:
			out = append(out, cell{key, kInt64, v.i}, cell{key + ".inc", kInt64, v.j})
		case kDouble:
			out = append(out, cell{key, kDouble, 0})
		default:
			out = append(out, cell{key, f.kind, v.i})
		}
	})
	return
}

// checkCSV compares one CSV text with the chunks it was made of.
func checkCSV(t *T, what string, text []byte, chunks [][]sample) {
	t.Check()
	r := csv.NewReader(bytes.NewReader(text))
	rows, err := r.ReadAll()
	if err != nil {
		t.Fail("malformed", "%s: %v", what, err)
	}
	want := 1
	for _, c := range chunks {
		want += len(c)
	}
	if len(rows) != want {
		t.Fail("rows", "%s: %d rows instead of %d", what, len(rows), want)
	}
	for j, c := range cells(chunks[0][0]) {
		if j >= len(rows[0]) || rows[0][j] != c.key {
			t.Fail("header", "%s: the header is %q", what, rows[0])
		}
	}
	i := 1
	for _, c := range chunks {
		for _, s := range c {
			row := rows[i]
			cs := cells(s)
			if len(cs) != len(row) {
				t.Fail("fields", "%s: row %d has %d fields instead of %d", what, i, len(row), len(cs))
			}
			for j, c := range cs {
				ok := true
				switch c.kind {
				case kDouble:
					ok = row[j] != ""
				case kDate:
					d, err := time.Parse(time.RFC3339, row[j])
					diff := c.v - d.UnixMilli()
					ok = (err == nil && diff > -1000 && diff < 1000) || c.v < -62135596800000 || c.v > 253402300799000
				default:
					ok = row[j] == strconv.FormatInt(c.v, 10)
				}
				if !ok {
					t.Fail("value", "%s: row %d: %s is %q instead of %d", what, i, c.key, row[j], c.v)
				}
			}
			i++
		}
	}
}

// sameWidth is the number of chunks from the first that have as many metrics.
func sameWidth(chunks [][]sample) int {
	n := len(cells(chunks[0][0]))
	for i, c := range chunks {
		if len(cells(c[0])) != n {
			return i
		}
	}
	return len(chunks)
}

func c21write(t *T) {
	stream, chunks := csvChunks(t, t.Chance(1, 2))
	w := NewWriter(t)
	if t.Chance(1, 3) {
		at := 1 + t.Int(4)
		w.plan = failFrom(t, at)
	}
	it := ftdc.ReadChunks(NewReader(t, stream))
	t.phase = "writing csv"
	err := ftdc.WriteCSV(it.Iterator(), w)
	if cerr := it.Close(); cerr != nil && err == nil {
		t.Fail("read", "reading an intact stream: %v", cerr)
	}
	k := sameWidth(chunks)
	t.Check()
	switch {
	case w.Errs > 0 && err == nil:
		t.Fail("error-lost", "a write failed and WriteCSV reported nothing")
	case w.Errs > 0:
		t.Probe("write-failed")
		return
	case k < len(chunks) && err == nil:
		t.Fail("mixed-schemas", "chunks of different widths were written to one file")
	case k == len(chunks) && err != nil:
		t.Fail("unexpected-error", "WriteCSV: %v", err)
	}
	if k < len(chunks) {
		t.Probe("schema-change-refused")
	} else {
		t.Probe("written")
	}
	checkCSV(t, "WriteCSV", w.buf, chunks[:k])
}

// failFrom fails the writes from the n-th on, or only that one.
func failFrom(t *T, at int) func(int, []byte) (int, error) {
	sticky := t.Chance(1, 2)
	short := t.Int(3)
	return func(n int, p []byte) (int, error) {
		if n < at || (n > at && !sticky) {
			return len(p), nil
		}
		switch {
		case short == 1 && len(p) > 0:
			t.Fault("short-write")
			return t.Int(len(p)), io.ErrShortWrite
		case short == 2 && len(p) > 0:
			t.Fault("short-write-silent")
			return t.Int(len(p)), nil
		}
		t.Fault("write-error")
		return 0, errDisk
	}
}

func c21dump(t *T) {
	stream, chunks := csvChunks(t, t.Chance(1, 4))
	fs := newSimFS(t)
	fs.short, fs.slow = t.Chance(1, 2), t.Chance(1, 4)
	failed := false
	if t.Chance(1, 3) {
		at, n, sticky, errno := t.Int(12), 0, t.Chance(1, 2), diskErrno(t)
		fs.fault = func(op, p string) syscall.Errno {
			n++
			if n-1 == at || (n-1 > at && sticky) {
				failed = true
				return errno
			}
			return 0
		}
	} else if t.Chance(1, 4) {
		fs.limited, fs.space = true, t.Int(2000)
	}
	it := ftdc.ReadChunks(NewReader(t, stream))
	t.phase = "dumping csv"
	err := ftdc.DumpCSV(it.Iterator(), "/data/dump")
	if cerr := it.Close(); cerr != nil && err == nil {
		t.Fail("read", "reading an intact stream: %v", cerr)
	}
	if fs.limited && t.faults["disk-full"] > 0 {
		failed = true
	}
	t.Check()
	if failed {
		if err == nil {
			t.Fail("error-lost", "a file operation failed and DumpCSV reported nothing")
		}
		if len(fs.fds) != 0 {
			t.Fail("open-file", "%d files were left open", len(fs.fds))
		}
		t.Probe("file-failed")
		return
	}
	if err != nil {
		t.Fail("unexpected-error", "DumpCSV: %v", err)
	}
	n := 0
	for len(chunks) > 0 {
		k := sameWidth(chunks)
		name := fmt.Sprintf("/data/dump.%d.csv", n)
		f := fs.files[name]
		if f == nil {
			t.Fail("missing-file", "there is no %s: %v", name, fs.names())
		}
		checkCSV(t, name, f.data, chunks[:k])
		chunks = chunks[k:]
		n++
	}
	if len(fs.files) != n {
		t.Fail("extra-file", "there are files %v for %d schemas", fs.names(), n)
	}
	if len(fs.fds) != 0 {
		t.Fail("open-file", "%d files were left open", len(fs.fds))
	}
	if n > 1 {
		t.Probe("several-files")
	}
	t.Probe("dumped")
}

func c21convert(t *T) {
	ncol := 1 + t.Int(5)
	var header []string
	for i := 0; i < ncol; i++ {
		header = append(header, fmt.Sprintf("%s%d", []string{"col", "a,b", "q\"", "x.y", "é"}[t.Int(5)], i))
	}
	mixed := t.Chance(1, 3)
	var buf bytes.Buffer
	cw := csv.NewWriter(&buf)
	cw.Write(header)
	var want []string
	nrows := t.Int(25)
	bad := -1
	kind := 0
	if nrows > 0 && t.Chance(1, 4) {
		bad, kind = t.Int(nrows), t.Int(3)
	}
	for i := 0; i < nrows; i++ {
		var row, exp []string
		for j := 0; j < ncol; j++ {
			if mixed && j > 0 && t.Chance(1, 4) {
				row = append(row, []string{"", "abc", "1.5", "2020-01-01T00:00:00Z", "9223372036854775808"}[t.Int(5)])
				continue
			}
			v := genInt64(t)
			row = append(row, strconv.FormatInt(v, 10))
			exp = append(exp, fmt.Sprintf("%s:i64(%d)", header[j], v))
		}
		if i == bad {
			cw.Flush()
			switch kind {
			case 0:
				row = append(row, "1")
			case 1:
				if ncol == 1 {
					row = append(row, "7")
				} else {
					row = row[:ncol-1]
				}
			case 2:
				buf.WriteString("1\"2,3\n")
				t.Fault("malformed-input")
				continue
			}
			t.Fault("field-count-change")
			cw.Write(row)
			if t.Chance(1, 2) {
				for k := 0; k < t.Int(4); k++ {
					cw.Write(row)
				}
				cw.Flush()
				break
			}
			continue
		}
		cw.Write(row)
		want = append(want, "{"+strings.Join(exp, ",")+"}")
	}
	cw.Flush()
	src := NewReader(t, buf.Bytes())
	if t.Chance(1, 5) && buf.Len() > 0 {
		src.failAt, src.err = t.Int(buf.Len()+1), errDisk
	}
	w := NewWriter(t)
	if t.Chance(1, 4) {
		w.plan = failFrom(t, 1+t.Int(4))
	}
	t.phase = "converting csv"
	err := ftdc.ConvertFromCSV(1+t.Int(10), src, w)
	t.Check()
	failed := false
	switch {
	case w.Errs > 0:
		failed = true
		t.Probe("write-failed")
	case src.Failed:
		failed = true
		t.Probe("read-failed")
	case bad >= 0:
		failed = true
		t.Probe("malformed")
	}
	if failed {
		if err == nil {
			t.Fail("error-lost", "ConvertFromCSV reported nothing: write errors %d, read failed %v, bad row %d", w.Errs, src.Failed, bad)
		}
		if w.Errs > 0 {
			return
		}
		// the rows before the failure are kept
		rows := len(want)
		if bad >= 0 {
			rows = bad
		}
		if src.Failed {
			rows = min(rows, max(0, bytes.Count(buf.Bytes()[:src.failAt], []byte("\n"))-1))
		}
		rb := readStream(bytes.NewReader(w.buf), rStructured, -1, nil)
		if rb.err != nil {
			t.Fail("malformed", "after a failure, the output does not decode: %v", rb.err)
		}
		if len(rb.items) < rows {
			t.Fail("rows", "%d rows of %d before a failure were converted", len(rb.items), rows)
		}
		for i := range rb.items {
			if i >= len(want) || rb.items[i] != want[i] {
				t.Fail("value", "row %d, before a failure, was converted to %s", i, rb.items[i])
			}
		}
		t.Probe("rows-before-failure")
		return
	}
	if err != nil {
		t.Fail("unexpected-error", "ConvertFromCSV: %v", err)
	}
	rb := readStream(bytes.NewReader(w.buf), rStructured, -1, nil)
	if rb.err != nil {
		t.Fail("malformed", "the output does not decode: %v", rb.err)
	}
	if len(rb.items) != len(want) {
		t.Fail("rows", "%d of %d rows were converted", len(rb.items), len(want))
	}
	for i := range want {
		if rb.items[i] != want[i] {
			t.Fail("value", "row %d was converted to %s instead of %s", i, rb.items[i], want[i])
		}
	}
	t.Probe("converted")
}

// ---- C22

func c22(t *T) {
	type made struct {
		id     types.ObjectID
		lo, hi int64
	}
	all := make([][]made, 2+t.Int(4))
	var wg sync.WaitGroup
	for g := range all {
		n := 1 + t.Int(10)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				if t.Chance(1, 6) {
					time.Sleep(time.Duration(t.Int(1500)) * time.Millisecond)
				}
				a := time.Now().Unix()
				id := types.NewObjectID()
				all[g] = append(all[g], made{id, a, time.Now().Unix()})
			}
		}()
	}
	wg.Wait()
	t.Check()
	seen := map[types.ObjectID]bool{}
	for g := range all {
		for i, m := range all[g] {
			if seen[m.id] {
				t.Fail("duplicate", "two ids are %s", m.id.Hex())
			}
			seen[m.id] = true
			if m.id.IsZero() {
				t.Fail("zero", "an id is zero")
			}
			if sec := int64(binary.BigEndian.Uint32(m.id[:4])); sec < m.lo || sec > m.hi {
				t.Fail("time", "an id created from %d to %d says %d", m.lo, m.hi, sec)
			}
			if !bytes.Equal(m.id[4:9], all[0][0].id[4:9]) {
				t.Fail("process", "ids of one process differ in its part: %s and %s", m.id.Hex(), all[0][0].id.Hex())
			}
			if i > 0 {
				p := all[g][i-1]
				c := func(id types.ObjectID) int32 { return int32(id[9])<<16 | int32(id[10])<<8 | int32(id[11]) }
				if d := (c(m.id) - c(p.id)) & (1<<24 - 1); d == 0 || d >= 1<<23 {
					t.Fail("order", "%s was created after %s", m.id.Hex(), p.id.Hex())
				}
			}
			back, err := types.ObjectIDFromHex(m.id.Hex())
			if err != nil || back != m.id {
				t.Fail("hex", "%s parses as %s (%v)", m.id.Hex(), back.Hex(), err)
			}
		}
	}
	t.Probe("ids")
}
