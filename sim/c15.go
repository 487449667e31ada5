package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/metrics"
)

func init() {
	register("C15", "convert", 3, c15convert)
	register("C15", "follow", 2, c15follow)
}

var jsonKinds = []fieldKind{kInt64, kInt64, kInt32, kBool, kDouble, kDoc, kArray, kString, kNull}

// jsonSample is a generated document as JSON, and as what it converts to.
func jsonSample(t *T, fs []field, prev []val) (line string, s sample) {
	vs := genVals(t, fs, prev)
	var sb strings.Builder
	fs, vs = jsonFields(t, &sb, fs, vs, false)
	return sb.String(), sample{fs, vs}
}

func jsonFields(t *T, sb *strings.Builder, fs []field, vs []val, array bool) ([]field, []val) {
	outF, outV := append([]field(nil), fs...), append([]val(nil), vs...)
	if array {
		sb.WriteByte('[')
	} else {
		sb.WriteByte('{')
	}
	for i, f := range fs {
		if i > 0 {
			sb.WriteString([]string{",", ", "}[i%2])
		}
		if !array {
			sb.WriteString(strconv.Quote(f.key) + ":")
		}
		v := vs[i]
		switch f.kind {
		case kDoc, kArray:
			outF[i].sub, outV[i].sub = jsonFields(t, sb, f.sub, v.sub, f.kind == kArray)
		case kInt32, kInt64:
			// integers have the type they fit into
			outF[i].kind = kInt64
			if v.i >= math.MinInt32 && v.i < math.MaxInt32 {
				outF[i].kind = kInt32
			}
			outV[i].kind = outF[i].kind
			sb.WriteString(strconv.FormatInt(v.i, 10))
		case kBool:
			sb.WriteString(strconv.FormatBool(v.i != 0))
		case kDouble:
			f := v.f
			if math.IsNaN(f) || math.IsInf(f, 0) || f == math.Trunc(f) || math.Abs(f) > 1e15 || math.Abs(f) < 1e-15 {
				f = 0.5 + float64(int16(v.i))
				outV[i].f = f
			}
			sb.WriteString(strconv.FormatFloat(f, 'f', -1, 64))
		case kString:
			sb.WriteString(strconv.Quote("s" + strconv.Itoa(i)))
		default:
			sb.WriteString("null")
		}
	}
	if array {
		sb.WriteByte(']')
	} else {
		sb.WriteByte('}')
	}
	return outF, outV
}

var badLines = []string{``, `{`, `{"a":1`, `{"a":1}}`, `{"a":}`, `nul`, `[1,2]`, `5`, `{"a":1} {"b":2}`, `{"a":{"$date":1}}`, `{"a":{"$timestamp":5}}`, `{"a":-}`, "\x00", `{"a":"`}

type jsonInput struct {
	lines []string
	ends  []string
	want  []sample
	bad   int // index of the first line that cannot be converted, or -1
}

func (in *jsonInput) bytes() []byte {
	var sb strings.Builder
	for i, l := range in.lines {
		sb.WriteString(l)
		sb.WriteString(in.ends[i])
	}
	return []byte(sb.String())
}

func genJSONInput(t *T, bad, follow bool) *jsonInput {
	in := &jsonInput{bad: -1}
	schema := metricSchema(t, 4, 2, jsonKinds)
	var prev []val
	n := t.Int(40)
	at := -1
	if bad {
		at = t.Int(n + 1)
		n++
	}
	for i := 0; i < n; i++ {
		end := "\n"
		if t.Chance(1, 8) {
			end = "\r\n"
		}
		if i == at {
			in.bad = i
			l := badLines[t.Int(len(badLines))]
			if !follow && t.Chance(1, 6) {
				// more than a line can hold
				l = `{"a":1,"b":"` + strings.Repeat("x", 66000) + `"}`
			}
			if l == "" {
				end = "\n"
			}
			in.lines, in.ends = append(in.lines, l), append(in.ends, end)
			t.Fault("malformed-line")
			continue
		}
		if t.Chance(1, 10) {
			schema = metricSchema(t, 4, 2, jsonKinds)
			prev = nil
		}
		l, s := jsonSample(t, schema, prev)
		if len(s.vs) == len(schema) {
			prev = s.vs
		}
		in.lines, in.ends = append(in.lines, l), append(in.ends, end)
		if in.bad < 0 {
			in.want = append(in.want, s)
		}
	}
	if n > 0 && in.bad != n-1 && !follow && t.Chance(1, 3) {
		in.ends[n-1] = ""
	}
	return in
}

// checkJSONFiles reads the numbered files in order, and gives the number of
// samples, which must be the first of those wanted.
func checkJSONFiles(t *T, files map[string][]byte, prefix string, want []sample, torn bool) int {
	n := 0
	for i := 0; i < len(files); i++ {
		name := fmt.Sprintf("%s.%d", prefix, i)
		data, ok := files[name]
		if !ok {
			t.Fail("missing-file", "there are %d files and none of them is %s", len(files), name)
		}
		it := ftdc.ReadStructuredMetrics(bytes.NewReader(data))
		k := 0
		for d := range it.Iterator() {
			t.Check()
			g := got(d)
			if n >= len(want) {
				t.Fail("made-up", "%s: sample %d is %s, there are %d", name, n, show(g), len(want))
			}
			if w := want[n].structured(); w != g {
				t.Fail("sample", "%s: sample %d is %s, the input has %s", name, n, show(g), show(w))
			}
			n++
			k++
		}
		err := it.Close()
		if torn && i == len(files)-1 {
			continue
		}
		if err != nil {
			t.Fail("damaged", "%s: %v", name, err)
		}
		if k == 0 {
			t.Fail("empty-file", "%s holds nothing", name)
		}
	}
	if len(files) > 1 {
		t.Probe("several-files")
	}
	return n
}

func c15convert(t *T) {
	fs := newSimFS(t)
	fs.short, fs.slow = t.Chance(1, 3), t.Chance(1, 5)
	in := genJSONInput(t, t.Chance(1, 4), false)
	data := in.bytes()
	opts := metrics.CollectJSONOptions{
		OutputFilePrefix: "/data/out",
		SampleCount:      1 + t.Int(12),
		FlushInterval:    []time.Duration{time.Microsecond, time.Millisecond, 20 * time.Millisecond, time.Second, time.Hour}[t.Int(5)],
	}
	if lo := (time.Duration(t.params.StallMax) + 2*time.Second) / 5000; opts.FlushInterval < lo {
		opts.FlushInterval = lo // or waiting takes too many steps
	}
	var r *Reader
	gated := false
	if t.Chance(1, 2) {
		r = NewReader(t, data)
		r.withEOF = t.Chance(1, 3)
		if t.Chance(1, 5) {
			r.failAt, r.err = t.Int(len(data)+1), errDisk
		} else if t.Chance(1, 6) {
			gated = true
			r.blockAt, r.gate = t.Int(len(data)+1), make(chan struct{})
		}
		opts.InputSource = r
		t.Probe("reader")
	} else {
		opts.FileName = "/data/in.json"
		fs.files[opts.FileName] = &simFile{data: data}
		t.Probe("file")
	}
	failed := false
	if t.Chance(1, 4) {
		at, n, sticky, errno := t.Int(14), 0, t.Chance(1, 2), diskErrno(t)
		if t.Chance(1, 2) {
			at = t.Int(5)
		}
		fs.fault = func(op, p string) syscall.Errno {
			n++
			if n-1 == at || (n-1 > at && sticky) {
				failed = true
				return errno
			}
			return 0
		}
	} else if t.Chance(1, 6) {
		fs.limited, fs.space = true, t.Int(1500)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var cancelled time.Time
	returned := make(chan struct{})
	if gated || t.Chance(1, 3) {
		after := time.Duration(t.Int(2000)) * []time.Duration{time.Microsecond, 100 * time.Microsecond, time.Millisecond}[t.Int(3)]
		go func() {
			select {
			case <-time.After(after):
				t.Fault("cancelled")
			case <-returned:
				return
			}
			cancelled = time.Now()
			cancel()
		}()
	}
	t.phase = "converting json"
	err := metrics.CollectJSONStream(ctx, opts)
	end := time.Now()
	wasCancelled := !cancelled.IsZero()
	close(returned)
	if gated {
		t.Probe("blocked-source")
		close(r.gate)
	}
	files := fs.snapshot()
	delete(files, opts.FileName)
	t.Check()
	if fs.limited && t.faults["disk-full"] > 0 {
		failed = true
	}
	broken := failed || in.bad >= 0 || (r != nil && r.failAt >= 0)
	n := checkJSONFiles(t, files, opts.OutputFilePrefix, in.want, failed)
	switch {
	case err == nil && broken:
		t.Fail("error-lost", "the input could not be converted (file: %v, line: %d) and there was no error", failed, in.bad)
	case err == nil && n != len(in.want):
		t.Fail("lost", "the files hold %d of %d documents", n, len(in.want))
	case err == nil:
		t.Probe("converted")
	case !broken && !wasCancelled:
		t.Fail("unexpected-error", "CollectJSONStream: %v", err)
	case broken && !wasCancelled:
		t.Probe("reported")
		if failed {
			t.Probe("file-failed")
		} else if in.bad >= 0 {
			t.Probe("malformed-line")
		} else {
			t.Probe("read-failed")
		}
	default:
		t.Probe("cancelled")
	}
	if wasCancelled {
		slack := t.slack() + time.Duration(t.params.TickNS)*100000
		if fs.slow {
			slack += time.Second
		}
		if end.Sub(cancelled) > slack {
			t.Fail("slow-return", "it returned %s after the context ended", end.Sub(cancelled))
		}
	}
	// the source may take until its pending read returns
	time.Sleep(t.slack() + time.Minute)
	if len(fs.fds) != 0 {
		t.Fail("open-file", "%d files were left open", len(fs.fds))
	}
}

func c15follow(t *T) {
	fs := newSimFS(t)
	fs.short = t.Chance(1, 3)
	in := genJSONInput(t, t.Chance(1, 5), true)
	data := in.bytes()
	const name = "/data/in.json"
	opts := metrics.CollectJSONOptions{
		OutputFilePrefix: "/data/out",
		SampleCount:      1 + t.Int(12),
		FlushInterval:    []time.Duration{time.Millisecond, 20 * time.Millisecond, time.Second, time.Minute}[t.Int(4)],
		FileName:         name,
		Follow:           true,
	}
	if lo := t.slack() / 500; opts.FlushInterval < lo {
		opts.FlushInterval = lo // or waiting takes too many steps
	}
	missing := t.Chance(1, 20)
	first := t.Int(len(data) + 1)
	if t.Chance(1, 3) {
		first = 0
	}
	if !missing {
		fs.files[name] = &simFile{data: append([]byte(nil), data[:first]...)}
	}
	failed := missing
	if t.Chance(1, 5) {
		at, n := t.Int(12), 0
		fs.fault = func(op, p string) syscall.Errno {
			n++
			if n-1 == at {
				failed = true
				return syscall.EIO
			}
			return 0
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var err error
	returned := make(chan struct{})
	go func() {
		err = metrics.CollectJSONStream(ctx, opts)
		close(returned)
	}()
	over := func() bool {
		select {
		case <-returned:
			return true
		default:
			return false
		}
	}
	// another process appends to the file, in pieces that need not be lines
	t.phase = "following a file"
	rest := data[first:]
	hurried := t.Chance(1, 3)
	for !missing && len(rest) > 0 && !over() {
		k := 1 + t.Int(len(rest))
		if m := 1 + t.Int(80); k > m && t.Chance(4, 5) {
			k = m
		}
		fs.append(name, rest[:k])
		t.Fault("append")
		rest = rest[k:]
		if t.Chance(1, 2) {
			time.Sleep(time.Duration(t.Int(100)) * opts.FlushInterval / 50)
		} else {
			Yield()
		}
	}
	slack := t.slack() + time.Duration(t.params.TickNS)*200000 + 10*time.Millisecond
	early := hurried && !over()
	if !early {
		// with nothing more to come, all of it is written within the interval
		for d := time.Duration(0); !over() && d < 2*opts.FlushInterval+slack; d += (opts.FlushInterval+slack)/4 + 1 {
			time.Sleep((opts.FlushInterval+slack)/4 + 1)
		}
	}
	stopped := over()
	broken := failed || (in.bad >= 0 && !early)
	at := time.Now()
	cancel()
	for !over() {
		if time.Since(at) > slack+time.Minute {
			t.Fail("slow-return", "it did not return after the context ended")
		}
		time.Sleep(slack)
	}
	t.Check()
	files := fs.snapshot()
	delete(files, name)
	n := checkJSONFiles(t, files, opts.OutputFilePrefix, in.want, failed)
	switch {
	case err == nil:
		t.Fail("error-lost", "following a file ended without an error")
	case stopped && !broken && in.bad < 0:
		t.Fail("unexpected-error", "CollectJSONStream: %v", err)
	case !early && broken && !stopped:
		t.Fail("not-reported", "there was a failure (file: %v, line: %d) and it goes on", failed, in.bad)
	case !broken && !early && n != len(in.want):
		t.Fail("lost", "the files hold %d of the %d documents of the file", n, len(in.want))
	case !broken && !early:
		t.Probe("followed")
	case stopped:
		t.Probe("follow-reported")
	default:
		t.Probe("follow-cancelled")
	}
	time.Sleep(t.slack() + time.Minute)
	if len(fs.fds) != 0 {
		t.Fail("open-file", "%d files were left open", len(fs.fds))
	}
	for _, w := range fs.watches {
		if !w.closed {
			t.Fail("open-watch", "the watch of the file was left open")
		}
	}
}
