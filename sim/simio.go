package main

import (
	"errors"
	"io"
	"time"
)

var errDisk = errors.New("sim: input/output error")

// Reader delivers data the way real streams do: in pieces of any size, with
// delays, possibly ending in an error or a torn tail.
type Reader struct {
	t       *T
	data    []byte
	off     int
	mode    int   // 0 whole, 1 one byte, 2 random, 3 random incl. empty reads
	failAt  int   // offset at which err is returned; -1: never
	err     error // what failAt returns
	withEOF bool  // last data together with io.EOF / err
	delay   bool
	closed  bool
	Failed  bool // the error was delivered
	Reads   int
	ended   bool
	blockAt int           // with gate: offset at which reads block until the gate opens
	gate    chan struct{} // nil: never blocks
	Blocked int           // reads that had to wait
}

// NewReader chooses how data is delivered.
func NewReader(t *T, data []byte) *Reader {
	r := &Reader{t: t, data: data, failAt: -1}
	r.mode = t.Int(4)
	r.withEOF = t.Chance(1, 4)
	r.delay = t.Chance(1, 4)
	if r.mode == 1 && len(data) > 4096 {
		r.mode = 2
	}
	if r.mode != 0 {
		t.Fault("read-fragmentation")
	}
	return r
}

func (r *Reader) Read(p []byte) (int, error) {
	r.Reads++
	Yield()
	if r.delay && r.t.Chance(1, 6) {
		r.t.Fault("read-delay")
		time.Sleep(time.Duration(1+r.t.Int(50)) * time.Millisecond)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.gate != nil && r.off >= r.blockAt {
		r.Blocked++
		r.t.Fault("read-blocked")
		<-r.gate
	}
	end := len(r.data)
	if r.gate != nil && r.off < r.blockAt && r.blockAt < end {
		end = r.blockAt
	}
	if r.failAt >= 0 && r.failAt < end {
		end = r.failAt
	}
	if r.off >= end {
		return 0, r.end()
	}
	n := end - r.off
	if n > len(p) {
		n = len(p)
	}
	switch r.mode {
	case 1:
		n = 1
	case 2, 3:
		if r.mode == 3 && r.t.Chance(1, 16) {
			r.t.Fault("read-empty")
			return 0, nil
		}
		m := 1 + r.t.Int(max(64, len(r.data)/256))
		if r.t.Chance(1, 4) {
			m = 1 + r.t.Int(4096)
		}
		if m < n {
			n = m
		}
	}
	copy(p, r.data[r.off:r.off+n])
	r.off += n
	if r.off >= end && r.withEOF && (end == len(r.data) || end == r.failAt) {
		r.t.Fault("read-data-with-eof")
		return n, r.end()
	}
	return n, nil
}

func (r *Reader) end() error {
	r.ended = true
	if r.failAt >= 0 {
		if !r.Failed {
			r.t.Fault("read-error")
		}
		r.Failed = true
		return r.err
	}
	return io.EOF
}

// Writer records what is written, and fails when told to.
type Writer struct {
	t        *T
	buf      []byte   // everything accepted
	accepted [][]byte // the writes that succeeded, one by one
	plan     func(n int, p []byte) (int, error)
	n        int
	delay    bool
	closeErr error
	Closes   int
	Errs     int
	inWrite  bool
}

func NewWriter(t *T) *Writer { return &Writer{t: t, delay: t.Chance(1, 4)} }

func (w *Writer) Write(p []byte) (int, error) {
	if w.inWrite {
		w.t.Fail("concurrent-writes", "two writes to the destination at the same time")
	}
	w.inWrite = true
	defer func() { w.inWrite = false }()
	Yield()
	if w.delay && w.t.Chance(1, 4) {
		w.t.Fault("write-delay")
		time.Sleep(time.Duration(1+w.t.Int(20)) * time.Millisecond)
	}
	w.n++
	if w.plan != nil {
		if n, err := w.plan(w.n, p); err != nil || n != len(p) {
			w.Errs++
			w.buf = append(w.buf, p[:n]...)
			return n, err
		}
	}
	c := append([]byte(nil), p...)
	w.buf = append(w.buf, c...)
	w.accepted = append(w.accepted, c)
	Yield()
	return len(p), nil
}

func (w *Writer) Close() error { w.Closes++; Yield(); return w.closeErr }

// NewBytesReader delivers everything at once, without drawing choices.
func NewBytesReader(b []byte) *Reader { return &Reader{t: cur, data: b, failAt: -1} }
