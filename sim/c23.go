package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/shirou/gopsutil/cpu"
	"github.com/shirou/gopsutil/disk"
	"github.com/shirou/gopsutil/mem"
	"github.com/shirou/gopsutil/net"
	"github.com/shirou/gopsutil/process"
	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"github.com/tychoish/birch/x/ftdc/metrics"
)

func init() {
	register("C23", "system", 3, c23system)
	register("C23", "processes", 3, c23processes)
	register("C23", "recorded", 3, c23recorded)
	register("C23", "go-stats", 1, c23gostats)
	resetHooks = append(resetHooks, func(*T) {
		cpu.SimTimes, cpu.SimPercent = nil, nil
		disk.SimUsage, disk.SimPartitions, disk.SimIOCounters = nil, nil, nil
		mem.SimVirtualMemory, net.SimIOCounters, process.Sim = nil, nil, nil
	})
}

var errNotImplemented = errors.New("not implemented yet")

// simSystem is the machine that is measured. What is measured is told by the
// number of the measurement and what it is, so that a record can be traced to
// the measurement it is of.
type simSystem struct {
	t       *T
	mu      sync.Mutex
	calls   map[string]int
	failing func(what string) bool
	errs    map[string]error // by what was measured last
	devs    []string         // in the order in which they appear
	numDevs func(call int) int
	numUse  func(call int) int // how many file systems can be asked for their usage
	slow    bool
	unit    time.Duration // of a delay
}

// wave is the part of a value that tells what it is of.
func wave(what string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(what); i++ {
		h = (h ^ uint64(what[i])) * 1099511628211
	}
	return h % 9973
}

// measured is the value of the measurement with the number.
func measured(call int, what string) uint64 { return base + uint64(call)*10007 + wave(what) }

// base does not fit 32 bits.
const base = 5 << 33

// callOf is the inverse.
func callOf(v int64, what string) (int, bool) {
	v -= base + int64(wave(what))
	if v < 0 || v%10007 != 0 {
		return 0, false
	}
	return int(v / 10007), true
}

// fill sets all numbers of a struct.
func fill(v any, call int, what string) {
	x := reflect.ValueOf(v).Elem()
	for i := 0; i < x.NumField(); i++ {
		name := what + "." + strings.ToLower(x.Type().Field(i).Name)
		switch f := x.Field(i); f.Kind() {
		case reflect.Uint64:
			f.SetUint(measured(call, name))
		case reflect.Float64:
			f.SetFloat(float64(measured(call, name)))
		}
	}
}

func newSimSystem(t *T) *simSystem {
	s := &simSystem{t: t, calls: map[string]int{}, errs: map[string]error{}}
	names := []string{"sda", "sdb", "nvme0n1", "loop7", "dm-0", "zram0"}
	for n := 1 + t.Int(5); len(s.devs) < n; {
		i := t.Int(len(names))
		s.devs = append(s.devs, names[i])
		names = append(names[:i:i], names[i+1:]...)
	}
	n := t.Int(len(s.devs) + 1)
	s.numDevs = func(int) int { return n }
	u := t.Int(len(s.devs) + 1)
	s.numUse = func(int) int { return u }
	cpu.SimTimes = func(percpu bool) ([]cpu.TimesStat, error) {
		call, err := s.begin("cpu")
		if err != nil {
			return nil, err
		}
		st := cpu.TimesStat{CPU: "cpu-total"}
		fill(&st, call, "cpu")
		x := reflect.ValueOf(&st).Elem()
		for i := 1; i < x.NumField(); i++ { // in ticks
			x.Field(i).SetFloat(x.Field(i).Float() / 100)
		}
		if percpu {
			return []cpu.TimesStat{{}, st}, nil
		}
		return []cpu.TimesStat{st}, nil
	}
	cpu.SimPercent = func(percpu bool) ([]float64, error) {
		call, err := s.begin("percent")
		if err != nil {
			return nil, err
		}
		return []float64{float64(measured(call, "percent"))}, nil
	}
	mem.SimVirtualMemory = func() (*mem.VirtualMemoryStat, error) {
		call, err := s.begin("vmstat")
		if err != nil {
			return nil, err
		}
		st := &mem.VirtualMemoryStat{}
		fill(st, call, "vmstat")
		return st, nil
	}
	net.SimIOCounters = func(pernic bool) ([]net.IOCountersStat, error) {
		call, err := s.begin("netstat")
		if err != nil {
			return nil, err
		}
		st := net.IOCountersStat{Name: "all"}
		fill(&st, call, "netstat")
		return []net.IOCountersStat{st}, nil
	}
	disk.SimPartitions = func(bool) (out []disk.PartitionStat, err error) {
		if _, err := s.begin("partitions"); err != nil {
			return nil, err
		}
		for _, d := range s.devs {
			out = append(out, disk.PartitionStat{Device: "/dev/" + d, Mountpoint: "/mnt/" + d, Fstype: "ext4", Opts: "rw"})
		}
		return out, nil
	}
	disk.SimUsage = func(p string) (*disk.UsageStat, error) {
		d := strings.TrimPrefix(p, "/mnt/")
		call, err := s.begin("usage." + d)
		if err == nil {
			for i := range s.devs {
				if s.devs[i] == d && i >= s.numUse(call) {
					t.Fault("device-unavailable")
					err = errors.New("sim: usage." + d + " is unavailable")
					s.errs["usage."+d] = err
				}
			}
		}
		if err != nil {
			return nil, err
		}
		st := &disk.UsageStat{Path: p, Fstype: "ext4"}
		fill(st, call, "usage."+d)
		return st, nil
	}
	disk.SimIOCounters = func(...string) (map[string]disk.IOCountersStat, error) {
		call, err := s.begin("iostat")
		if err != nil {
			return nil, err
		}
		out := map[string]disk.IOCountersStat{}
		for _, d := range s.devs[:s.numDevs(call)] {
			st := disk.IOCountersStat{Name: d, SerialNumber: "serial-" + d}
			fill(&st, call, "iostat."+d)
			out[d] = st
		}
		return out, nil
	}
	return s
}

// begin is where a measurement is made, or fails.
func (s *simSystem) begin(what string) (int, error) {
	Yield()
	if s.slow && s.t.Chance(1, 20) {
		s.t.Fault("measurement-delay")
		time.Sleep(time.Duration(1+s.t.Int(3)) * s.unit)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	call := s.calls[what]
	s.calls[what]++
	s.errs[what] = nil
	if s.failing != nil && s.failing(what) {
		err := fmt.Errorf("sim: %s cannot be measured", what)
		if s.t.Chance(1, 4) {
			s.t.Fault("not-implemented")
			err = errNotImplemented
		} else {
			s.t.Fault("measurement-error")
		}
		s.errs[what] = err
		return call, err
	}
	return call, nil
}

// reported checks that the errors are those that there were.
func reported(t *T, who string, got []string, errs map[string]error) {
	t.Check()
	n := 0
	for what, err := range errs {
		if err == nil || err == errNotImplemented {
			continue
		}
		n++
		k := 0
		for _, e := range got {
			if strings.Contains(e, err.Error()) {
				k++
			}
		}
		if k != 1 {
			t.Fail("errors", "%s: %s failed with %q, which is reported %d times: %q", who, what, err, k, got)
		}
	}
	if n != len(got) {
		t.Fail("errors", "%s: %d measurements failed (%v), reported are %q", who, n, errs, got)
	}
}

// numbers checks the numbers of a document: those of the last measurement,
// or none.
func numbers(t *T, where string, d *birch.Document, what string, call int, ok bool, skip ...string) {
	t.Check()
	n := 0
	for e := range d.Iterator() {
		key := strings.ToLower(e.Key())
		if alias := map[string]string{"commitedas": "committedas", "hugepagessize": "hugepagesize"}[key]; alias != "" {
			key = alias
		}
		if e.Value().Type() == bsontype.String {
			continue
		}
		v, isNum := number(e.Value())
		if !isNum {
			t.Fail("recorded", "%s: %s.%s is %s", where, what, e.Key(), e.Value().Type())
		}
		want := int64(0)
		if ok {
			want = int64(measured(call, what+"."+key))
		}
		for _, s := range skip {
			if s == key {
				want = 0
			}
		}
		if v != want {
			t.Fail("recorded", "%s: %s.%s is recorded as %d, not %d", where, what, e.Key(), v, want)
		}
		n++
	}
	if n == 0 {
		t.Fail("recorded", "%s: nothing is recorded of %s", where, what)
	}
}

func number(v *birch.Value) (int64, bool) {
	if n, ok := intOf(v); ok {
		return n, ok
	}
	if v != nil && v.Type() == bsontype.Double {
		return int64(v.Double()), true
	}
	return 0, false
}

func subdoc(t *T, where string, d *birch.Document, key string) *birch.Document {
	v := lookup(d, key)
	if v == nil || v.Type() != bsontype.EmbeddedDocument {
		t.Fail("recorded", "%s: there is no document %s in %s", where, key, show(got(d)))
	}
	return v.MutableDocument()
}

func subdocs(t *T, where string, d *birch.Document, key string) (out []*birch.Document) {
	v := lookup(d, key)
	if v == nil || v.Type() != bsontype.Array {
		t.Fail("recorded", "%s: there is no array %s in %s", where, key, show(got(d)))
	}
	for x := range v.MutableArray().Iterator() {
		out = append(out, x.MutableDocument())
	}
	return out
}

func str(d *birch.Document, key string) string {
	if v := lookup(d, key); v != nil {
		if s, ok := v.StringValueOK(); ok {
			return s
		}
	}
	return ""
}

// c23system: one look at the system, some of which fails.
func c23system(t *T) {
	s := newSimSystem(t)
	s.slow, s.unit = t.Chance(1, 4), time.Millisecond
	rate := t.Int(4)
	s.failing = func(string) bool { return rate > 0 && t.Chance(1, 1+rate*2) }
	empty := t.Chance(1, 6)
	if empty {
		t.Fault("empty-measurement")
		cpu.SimTimes = func(bool) ([]cpu.TimesStat, error) { return nil, nil }
		cpu.SimPercent = func(bool) ([]float64, error) { return []float64{}, nil }
		mem.SimVirtualMemory = func() (*mem.VirtualMemoryStat, error) { return nil, nil }
		net.SimIOCounters = func(bool) ([]net.IOCountersStat, error) { return nil, nil }
	}
	order := map[string]int{} // in which devices were recorded before
	for i, n := 0, 1+t.Int(3); i < n; i++ {
		t.phase = "looking at the system"
		s.errs = map[string]error{}
		info := metrics.CollectSystemInfo()
		t.phase = ""
		errs := s.errs
		if err := errs["partitions"]; err != nil {
			for _, d := range s.devs { // were not asked for
				delete(errs, "usage."+d)
			}
		}
		reported(t, "system", info.Errors, errs)
		last := func(what string) int { return s.calls[what] - 1 }
		ok := func(what string) bool { return !empty && errs[what] == nil }
		if info.NumCPU != runtime.NumCPU() {
			t.Fail("recorded", "there are %d CPUs, not %d", runtime.NumCPU(), info.NumCPU)
		}
		d, err := info.MarshalDocument()
		if err != nil {
			t.Fail("recorded", "system: %v", err)
		}
		numbers(t, "system", subdoc(t, "system", d, "cpu"), "cpu", last("cpu"), ok("cpu"))
		numbers(t, "system", subdoc(t, "system", d, "vmstat"), "vmstat", last("vmstat"), ok("vmstat"), "usedpercent")
		numbers(t, "system", subdoc(t, "system", d, "netstat"), "netstat", last("netstat"), ok("netstat"))
		want := int64(0)
		if ok("percent") {
			want = int64(measured(last("percent"), "percent"))
		}
		if v, _ := number(lookup(d, "cpu_percent")); v != want {
			t.Fail("recorded", "system: cpu_percent is recorded as %d, not %d", v, want)
		}
		var parts, usage, io []string
		if errs["partitions"] == nil {
			for _, dev := range s.devs {
				parts = append(parts, "/mnt/"+dev)
				if errs["usage."+dev] == nil {
					usage = append(usage, "/mnt/"+dev)
				}
			}
		}
		if errs["iostat"] == nil {
			io = append(io, s.devs[:s.numDevs(last("iostat"))]...)
		}
		list := func(key, name string, want []string, each func(d *birch.Document, dev string)) {
			t.Check()
			var have []string
			for _, x := range subdocs(t, "system", d, key) {
				n := str(x, name)
				have = append(have, n)
				if each != nil {
					each(x, strings.TrimPrefix(n, "/mnt/"))
				}
			}
			for i, n := range have { // samples tell devices by their position
				for _, o := range have[:i] {
					if before := order[key+n+" "+o]; before > 0 {
						t.Fail("recorded", "system: %s are recorded for %q, with %q before %q, which was the other way around before", key, have, o, n)
					}
					order[key+o+" "+n]++
				}
			}
			sort.Strings(have)
			sort.Strings(want)
			if fmt.Sprint(have) != fmt.Sprint(want) {
				t.Fail("recorded", "system: %s are recorded for %q, not %q", key, have, want)
			}
		}
		list("partitions", "mountpoint", parts, func(x *birch.Document, dev string) {
			if a, b, c := str(x, "device"), str(x, "fstype"), str(x, "opts"); a != "/dev/"+dev || b != "ext4" || c != "rw" {
				t.Fail("recorded", "system: a partition is recorded as %s", x)
			}
		})
		list("usage", "path", usage, func(x *birch.Document, dev string) {
			numbers(t, "system", x, "usage."+dev, last("usage."+dev), true, "usedpercent", "inodesusedpercent")
		})
		list("iostat", "name", io, func(x *birch.Document, dev string) {
			numbers(t, "system", x, "iostat."+dev, last("iostat"), true)
			if str(x, "serialNumber") != "serial-"+dev {
				t.Fail("recorded", "system: a device is recorded as %s", x)
			}
		})
		t.Probe("system")
	}
}

// simProcs are the processes of the machine.
type simProcs struct {
	t       *T
	mu      sync.Mutex
	parent  map[int32]int32
	gone    map[int32]bool
	calls   map[string]int
	errs    map[int32]map[string]error // of the last measurement
	at      map[int32]map[string]int   // the number of the last measurement
	listed  map[int32][]int32          // the children that were found
	all     []int32                    // what Pids said
	dying   int
	failing int
	slow    bool
	unit    time.Duration
}

func newSimProcs(t *T, n int) *simProcs {
	p := &simProcs{t: t, parent: map[int32]int32{}, gone: map[int32]bool{}, calls: map[string]int{}, errs: map[int32]map[string]error{}, at: map[int32]map[string]int{}, listed: map[int32][]int32{}}
	p.unit = time.Millisecond
	pids := []int32{1}
	p.parent[1] = 0
	for i := 1; i < n; i++ {
		pid := pids[i-1] + 1 + int32(t.Int(40))
		p.parent[pid] = pids[t.Int(len(pids))]
		pids = append(pids, pid)
	}
	process.Sim = p
	return p
}

func (p *simProcs) sorted() (pids []int32) {
	for pid := range p.parent {
		pids = append(pids, pid)
	}
	sort.Slice(pids, func(i, j int) bool { return pids[i] < pids[j] })
	return pids
}

func (p *simProcs) Pids() (out []int32, err error) {
	Yield()
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, pid := range p.sorted() {
		if !p.gone[pid] {
			out = append(out, pid)
		}
	}
	p.all = nil
	return out, nil
}

func (p *simProcs) Exists(pid int32) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	_, known := p.parent[pid]
	ok := known && !p.gone[pid]
	if ok {
		p.all = append(p.all, pid)
	}
	return ok
}

func (p *simProcs) begin(pid int32, what string) (int, error) {
	Yield()
	if p.slow && p.t.Chance(1, 20) {
		p.t.Fault("measurement-delay")
		time.Sleep(time.Duration(1+p.t.Int(3)) * p.unit)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if _, known := p.parent[pid]; !known {
		p.t.Fail("made-up", "process %d is looked at, there is none", pid)
	}
	key := fmt.Sprintf("%d.%s", pid, what)
	call := p.calls[key]
	p.calls[key]++
	if p.dying > 0 && p.t.Chance(1, p.dying) {
		p.t.Fault("process-vanishes")
		p.gone[pid] = true
	}
	var err error
	switch {
	case p.gone[pid]:
		err = fmt.Errorf("sim: %s: process %d does not exist", what, pid)
	case p.failing > 0 && p.t.Chance(1, p.failing):
		err = fmt.Errorf("sim: %s of process %d cannot be measured", what, pid)
		if p.t.Chance(1, 4) {
			p.t.Fault("not-implemented")
			err = errNotImplemented
		} else {
			p.t.Fault("measurement-error")
		}
	}
	if p.errs[pid] == nil {
		p.errs[pid], p.at[pid] = map[string]error{}, map[string]int{}
	}
	p.errs[pid][what], p.at[pid][what] = err, call
	return call, err
}

func pidWhat(pid int32, what string) string { return fmt.Sprintf("%d.%s", pid, what) }

func (p *simProcs) Ppid(pid int32) (int32, error) {
	if _, err := p.begin(pid, "ppid"); err != nil {
		return 0, err
	}
	return p.parent[pid], nil
}

func (p *simProcs) MemoryInfo(pid int32) (*process.MemoryInfoStat, error) {
	call, err := p.begin(pid, "mem")
	if err != nil {
		return nil, err
	}
	st := &process.MemoryInfoStat{}
	fill(st, call, pidWhat(pid, "mem"))
	return st, nil
}

func (p *simProcs) MemoryInfoEx(pid int32) (*process.MemoryInfoExStat, error) {
	call, err := p.begin(pid, "memExtra")
	if err != nil {
		return nil, err
	}
	st := &process.MemoryInfoExStat{}
	fill(st, call, pidWhat(pid, "memExtra"))
	return st, nil
}

func (p *simProcs) NumThreads(pid int32) (int32, error) {
	call, err := p.begin(pid, "threads")
	if err != nil {
		return 0, err
	}
	return int32(measured(call, pidWhat(pid, "threads")) - base), nil
}

func (p *simProcs) Cmdline(pid int32) (string, error) {
	if _, err := p.begin(pid, "command"); err != nil {
		return "", err
	}
	return fmt.Sprintf("run -p %d", pid), nil
}

func (p *simProcs) Times(pid int32) (*cpu.TimesStat, error) {
	call, err := p.begin(pid, "cpu")
	if err != nil {
		return nil, err
	}
	st := &cpu.TimesStat{}
	fill(st, call, pidWhat(pid, "cpu"))
	x := reflect.ValueOf(st).Elem()
	for i := 1; i < x.NumField(); i++ {
		x.Field(i).SetFloat(x.Field(i).Float() / 100)
	}
	return st, nil
}

func (p *simProcs) IOCounters(pid int32) (*process.IOCountersStat, error) {
	call, err := p.begin(pid, "io")
	if err != nil {
		return nil, err
	}
	st := &process.IOCountersStat{}
	fill(st, call, pidWhat(pid, "io"))
	return st, nil
}

func (p *simProcs) NetIOCounters(pid int32, pernic bool) ([]net.IOCountersStat, error) {
	call, err := p.begin(pid, "net")
	if err != nil {
		return nil, err
	}
	st := net.IOCountersStat{Name: "all"}
	fill(&st, call, pidWhat(pid, "net"))
	return []net.IOCountersStat{st}, nil
}

func (p *simProcs) Children(pid int32) (out []int32, err error) {
	_, err = p.begin(pid, "children")
	p.mu.Lock()
	defer p.mu.Unlock()
	p.listed[pid] = nil
	if err != nil {
		return nil, err
	}
	for _, c := range p.sorted() {
		if p.parent[c] == pid && !p.gone[c] {
			out = append(out, c)
		}
	}
	p.listed[pid] = out
	return out, nil
}

// record checks what is recorded of a process against what was measured.
func (p *simProcs) record(t *T, info *metrics.ProcessInfo) {
	pid := info.Pid
	who := fmt.Sprintf("process %d", pid)
	errs := map[string]error{}
	for what, err := range p.errs[pid] {
		if what != "children" {
			errs[what] = err
		}
	}
	reported(t, who, info.Errors, errs)
	d, err := info.MarshalDocument()
	if err != nil {
		t.Fail("recorded", "%s: %v", who, err)
	}
	p.document(t, who, pid, d, true, func(what string) (int, bool) { return p.at[pid][what], errs[what] == nil })
}

func (p *simProcs) document(t *T, who string, pid int32, d *birch.Document, strings bool, at func(what string) (int, bool)) {
	if v, _ := number(lookup(d, "pid")); v != int64(pid) {
		t.Fail("recorded", "%s: the pid is recorded as %d", who, v)
	}
	for _, what := range []string{"cpu", "mem", "memExtra", "io"} {
		call, ok := at(what)
		numbers(t, who, subdoc(t, who, d, what), pidWhat(pid, what), call, ok)
	}
	call, ok := at("net")
	nets := subdocs(t, who, d, "net")
	if ok != (len(nets) == 1) {
		t.Fail("recorded", "%s: %d network records", who, len(nets))
	}
	for _, x := range nets {
		numbers(t, who, x, pidWhat(pid, "net"), call, ok)
	}
	want := int64(0)
	if call, ok = at("threads"); ok {
		want = int64(measured(call, pidWhat(pid, "threads")) - base)
	}
	if v, _ := number(lookup(d, "threads")); v != want {
		t.Fail("recorded", "%s: threads are recorded as %d, not %d", who, v, want)
	}
	want = 0
	if _, ok = at("ppid"); ok {
		want = int64(p.parent[pid])
	}
	if v, _ := number(lookup(d, "parentPid")); v != want {
		t.Fail("recorded", "%s: the parent is recorded as %d, not %d", who, v, want)
	}
	if !strings {
		return
	}
	cmd := ""
	if _, ok = at("command"); ok {
		cmd = fmt.Sprintf("run -p %d", pid)
	}
	if s := str(d, "command"); s != cmd {
		t.Fail("recorded", "%s: the command is recorded as %q, not %q", who, s, cmd)
	}
}

// c23processes: every process is looked at once, whatever happens meanwhile.
func c23processes(t *T) {
	n := 1 + t.Int(6)
	if t.Chance(1, 3) {
		n = 1 + t.Int(45)
	}
	p := newSimProcs(t, n)
	p.slow = t.Chance(1, 4)
	p.dying = []int{0, 0, 40, 10}[t.Int(4)]
	p.failing = []int{0, 10, 3}[t.Int(3)]
	once := func(infos []*metrics.ProcessInfo, want []int32) {
		t.Check()
		count := map[int32]int{}
		for _, x := range infos {
			if x == nil {
				t.Fail("processes", "a process without a record")
			}
			count[x.Pid]++
			if count[x.Pid] == 1 {
				p.record(t, x)
			}
		}
		for _, pid := range want {
			if count[pid] != 1 {
				t.Fail("processes", "process %d is recorded %d times; there are %v", pid, count[pid], want)
			}
		}
		if len(infos) != len(want) {
			t.Fail("processes", "%d records of %d processes %v", len(infos), len(want), want)
		}
	}
	t.phase = "looking at processes"
	pids := p.sorted()
	switch t.Int(3) {
	case 0:
		infos := metrics.CollectAllProcesses()
		once(infos, p.all)
		t.Probe("all-processes")
	case 1:
		root := pids[t.Int(min(3, len(pids)))]
		p.gone[root] = t.Chance(1, 10)
		was := p.gone[root]
		var infos []*metrics.ProcessInfo
		if t.Chance(1, 3) {
			syscallPid(t, root)
			infos = metrics.CollectProcessInfoSelfWithChildren()
		} else {
			infos = metrics.CollectProcessInfoWithChildren(root)
		}
		var want []int32
		var add func(pid int32)
		add = func(pid int32) {
			want = append(want, pid)
			if _, asked := p.listed[pid]; !asked && !p.gone[pid] {
				for _, c := range pids {
					if p.parent[c] == pid && !p.gone[c] {
						t.Fail("processes", "nobody looked for the children of process %d, such as %d", pid, c)
					}
				}
			}
			for _, c := range p.listed[pid] {
				add(c)
			}
		}
		if !was {
			add(root)
		}
		once(infos, want)
		if len(infos) > 0 && infos[0].Pid != root {
			t.Fail("processes", "process %d and its descendants begin with %d", root, infos[0].Pid)
		}
		if len(want) > 2 {
			t.Probe("descendants")
		}
	case 2:
		pid := pids[t.Int(len(pids))]
		p.gone[pid] = t.Chance(1, 6)
		was := p.gone[pid]
		var info *metrics.ProcessInfo
		if t.Chance(1, 3) {
			syscallPid(t, pid)
			info = metrics.CollectProcessInfoSelf()
		} else {
			info = metrics.CollectProcessInfo(pid)
		}
		t.Check()
		if was {
			if len(info.Errors) != 1 || !strings.Contains(info.Errors[0], process.ErrorProcessNotRunning.Error()) {
				t.Fail("errors", "process %d does not exist, reported is %q", pid, info.Errors)
			}
			t.Probe("no-process")
			return
		}
		once([]*metrics.ProcessInfo{info}, []int32{pid})
		t.Probe("process")
	}
}

// c23recorded: what is measured while metrics are collected is in the files.
func c23recorded(t *T) {
	runtime.SimAllowSteps(40_000_000) // the samples are large
	fs := newSimFS(t)
	m := genMetricsRun(t, "/data/metrics")
	m.panicAt = 0
	iv := m.opts.CollectionInterval
	sys, procs := t.Chance(4, 5), t.Chance(1, 2)
	if !sys && !procs {
		sys = true
	}
	m.opts.SkipSystem, m.opts.SkipProcess, m.opts.SkipGolang = !sys, !procs, t.Chance(1, 2)
	s := newSimSystem(t)
	p := newSimProcs(t, 1)
	p.parent = map[int32]int32{4242: 1}
	s.slow = t.Chance(1, 4)
	s.unit = iv / 4
	if s.slow {
		m.opMax += 10 * 3 * iv
	}
	// devices come and go, and so does what can be measured of them
	changes := t.Chance(1, 2)
	if changes {
		var at []int
		for i, n := 0, 1+t.Int(3); i < n; i++ {
			at = append(at, 1+t.Int(40))
		}
		sort.Ints(at)
		devs, use := make([]int, len(at)+1), make([]int, len(at)+1)
		for i := range devs {
			devs[i], use[i] = t.Int(len(s.devs)+1), t.Int(len(s.devs)+1)
		}
		s.numDevs = func(call int) int { return devs[sort.SearchInts(at, call+1)] }
		s.numUse = func(call int) int { return use[sort.SearchInts(at, call+1)] }
	}
	seen := map[string]int{}
	order := map[string]string{}
	// next is that a record is of a measurement made after the one of the last.
	next := func(where, what string, v int64, field string) int {
		if field == "4242.threads" {
			v += base
		}
		call, ok := callOf(v, field)
		t.Check()
		if !ok {
			t.Fail("recorded", "%s: %d was never measured as %s", where, v, field)
		}
		if last, ok := seen[what]; ok && call <= last || call >= s.calls[what]+p.calls["4242."+what] {
			t.Fail("recorded", "%s: the record of %s is that of measurement %d; before it is %d, and there have been %d", where, what, call, last, s.calls[what]+p.calls["4242."+what])
		}
		seen[what] = call
		return call
	}
	num := func(d *birch.Document, key string) int64 {
		v, ok := number(lookup(d, key))
		if !ok {
			t.Fail("recorded", "no number %s in %s", key, show(got(d)))
		}
		return v
	}
	m.check = func(where string, rt *birch.Document) {
		if (lookup(rt, "system") != nil) != sys || (lookup(rt, "process") != nil) != procs || (lookup(rt, "golang") != nil) == m.opts.SkipGolang {
			t.Fail("recorded", "%s: not what is to be collected: %s", where, show(got(rt)))
		}
		if sys {
			d := subdoc(t, where, rt, "system")
			for _, x := range []struct{ what, field, skip string }{{"cpu", "user", ""}, {"vmstat", "total", "usedpercent"}, {"netstat", "bytesSent", ""}} {
				sub := subdoc(t, where, d, x.what)
				call := next(where, x.what, num(sub, x.field), x.what+"."+strings.ToLower(x.field))
				numbers(t, where, sub, x.what, call, true, x.skip)
			}
			next(where, "percent", num(d, "cpu_percent"), "percent")
			// samples do not name devices
			devices := func(key, field string, within func(call int) []string, skip ...string) {
				var have []string
				call := -1
				list := subdocs(t, where, d, key)
				for _, x := range list {
					dev := ""
					v := num(x, field)
					for _, name := range s.devs {
						if _, ok := callOf(v, key+"."+name+"."+strings.ToLower(field)); ok {
							dev = name
						}
					}
					if dev == "" {
						t.Fail("recorded", "%s: %d was never measured as the %s of %s", where, v, field, key)
					}
					have = append(have, dev)
					what := key
					if key == "usage" { // measured one by one
						what += "." + dev
					}
					if key == "usage" || call < 0 {
						call = next(where, what, v, key+"."+dev+"."+strings.ToLower(field))
					}
					numbers(t, where, x, key+"."+dev, call, true, skip...)
				}
				if call < 0 {
					return
				}
				set := append([]string(nil), have...)
				sort.Strings(set)
				if want := within(call); fmt.Sprint(set) != fmt.Sprint(want) {
					t.Fail("recorded", "%s: the devices are %q, recorded as %s are %q", where, want, key, have)
				}
				id := fmt.Sprint(key, set)
				if was, ok := order[id]; ok && was != fmt.Sprint(have) {
					t.Fail("recorded", "%s: %s are recorded in the order %q, before it was %s", where, key, have, was)
				}
				order[id] = fmt.Sprint(have)
			}
			devices("iostat", "readCount", func(call int) []string {
				want := append([]string(nil), s.devs[:s.numDevs(call)]...)
				sort.Strings(want)
				return want
			})
			devices("usage", "total", func(call int) []string {
				want := append([]string(nil), s.devs[:s.numUse(call)]...)
				sort.Strings(want)
				return want
			}, "usedpercent", "inodesusedpercent")
			t.Probe("system-recorded")
		}
		if procs {
			d := subdoc(t, where, rt, "process")
			call := next(where, "threads", num(d, "threads"), "4242.threads")
			p.document(t, where, 4242, d, false, func(string) (int, bool) { return call, true })
			t.Probe("process-recorded")
		}
	}
	slack := t.slack() + time.Duration(t.params.TickNS)*200000
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	after := time.Duration(t.Int(40)) * iv
	var ended atomic.Bool
	stop := make(chan struct{})
	go func() {
		select {
		case <-time.After(after):
		case <-stop:
		}
		ended.Store(true)
		cancel()
	}()
	t.phase = "collecting metrics"
	err := metrics.CollectRuntime(ctx, m.opts)
	was := ended.Load()
	close(stop)
	t.phase = ""
	t.Check()
	if err != nil {
		t.Fail("unexpected-error", "CollectRuntime: %v", err)
	}
	if !was {
		t.Fail("early-return", "it returned before the context ended")
	}
	n := m.readBackFiles(t, fs.snapshot(), false, slack)
	for _, what := range []string{"cpu", "threads"} {
		made := s.calls[what] + p.calls["4242."+what]
		if what == "cpu" {
			made = s.calls[what]
			if !sys {
				continue
			}
		} else if !procs {
			continue
		}
		if last, ok := seen[what]; made > 0 && (!ok || last != made-1) {
			t.Fail("lost", "%d measurements of %s were made, in the %d samples of the files the last is %d (%v)", made, what, n, last, ok)
		}
	}
	if changes && n > 2 {
		t.Probe("devices-change")
	}
}

// c23gostats: nothing that the Go runtime counts is lost or counted twice
// between those who ask.
func c23gostats(t *T) {
	runtime.SimFakeStats(true)
	defer runtime.SimFakeStats(false)
	type sums struct{ mallocs, frees, gc, cgo int64 }
	// what every kind of collection reports the same way
	common := func(s *metrics.GoRuntimeInfo, n int64, from, to time.Time) {
		if lat := int64(s.GCLatency); int64(s.GCPause) != lastPause(n) || lat < from.UnixNano()-lastGC(n) || lat > to.UnixNano()-lastGC(n) {
			t.Fail("go-stats", "after %d garbage collections, collected between %v and %v: %+v", n/10, from, to, s)
		}
	}
	totals := func() sums {
		collect := metrics.CollectGoStatsTotals
		if t.Chance(1, 4) {
			collect = func() *metrics.GoRuntimeInfo { return metrics.CollectGoStatsCurrent("") }
		}
		from := time.Now()
		s := collect()
		t.Check()
		n := (s.Mallocs - 1000) / 17
		common(s, n, from, time.Now())
		if s.Mallocs != 1000+17*n || s.Frees != 900+13*n || s.GC != n/10 || s.HeapObjects != uint64(100+4*n) || s.Alloc != uint64(1<<20+4096*n) || s.HeapSystem != 4<<20 || s.HeapIdle != 1<<20 || s.HeapInUse != 3<<20 || s.CgoCalls != 7+3*n || s.Goroutines < 1 {
			t.Fail("go-stats", "collected %+v", s)
		}
		return sums{s.Mallocs, s.Frees, s.GC, s.CgoCalls}
	}
	first := totals()
	var mu sync.Mutex
	var sum sums
	var wg sync.WaitGroup
	for g, n := 0, 1+t.Int(3); g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, n := 0, 1+t.Int(4); i < n; i++ {
				if t.Chance(1, 3) {
					time.Sleep(time.Duration(t.Int(1000)) * time.Millisecond)
				}
				from := time.Now()
				s := metrics.CollectGoStatsDeltas()
				to := time.Now()
				mu.Lock()
				common(s, int64(s.HeapObjects-100)/4, from, to)
				if s.Mallocs < 0 || s.Frees < 0 || s.GC < 0 || s.HeapObjects < 100 {
					t.Fail("go-stats", "collected %+v", s)
				}
				sum.mallocs, sum.frees, sum.gc, sum.cgo = sum.mallocs+s.Mallocs, sum.frees+s.Frees, sum.gc+s.GC, sum.cgo+s.CgoCalls
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	s := metrics.CollectGoStatsDeltas()
	sum.mallocs, sum.frees, sum.gc, sum.cgo = sum.mallocs+s.Mallocs, sum.frees+s.Frees, sum.gc+s.GC, sum.cgo+s.CgoCalls
	end := totals() // one step later
	t.Check()
	if d := end.mallocs - first.mallocs - 17; sum.mallocs != d || sum.frees != d/17*13 || sum.cgo != d/17*3 || sum.gc > end.gc-first.gc || sum.gc < end.gc-first.gc-1 {
		t.Fail("go-stats", "from %+v to %+v, the parts are %+v", first, end, sum)
	}
	// each record is of one measurement, whoever else measures
	if t.Chance(1, 2) {
		for g, n := 0, 2+t.Int(2); g < n; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, n := 0, 1+t.Int(3); i < n; i++ {
					if t.Chance(1, 2) {
						time.Sleep(time.Duration(t.Int(1000)))
					}
					m := metrics.CollectBasicGoStats()
					rate := func(name string) float64 {
						f, ok := m[name].(float64)
						if !ok {
							t.Fail("go-stats", "%s is %v", name, m[name])
						}
						return f
					}
					mallocs, frees, cgo, gc := rate("memory.counters.mallocs")/17, rate("memory.counters.frees")/13, rate("cgo.calls")/3, rate("gc.rate")
					near := func(a, b float64) bool { return a >= b*0.9999 && a <= b*1.0001 }
					t.Check()
					if !near(mallocs, frees) || !near(mallocs, cgo) || gc != 0 && !near(mallocs, gc) {
						t.Fail("go-stats", "rates of different measurements: %v", m)
					}
				}
			}()
		}
		wg.Wait()
		t.Probe("rates-together")
	}
	// rates refer to the time since the last collection
	for i, n := 0, t.Int(4); i < n; i++ {
		from := time.Now()
		before := totals()
		between := time.Now()
		time.Sleep([]time.Duration{0, 1, time.Millisecond, 7 * time.Second}[t.Int(4)])
		after := time.Now()
		gc := (before.mallocs-1000)/17%10 == 9
		calls := (before.mallocs-1000)/17 + 1
		if t.Chance(1, 2) {
			s := metrics.CollectGoStatsRates()
			common(s, calls, after, time.Now())
			// the time is between these two
			lo, hi := int64(after.Sub(between)), int64(time.Since(from))
			rate := func(name string, got, delta int64) {
				if lo > 0 && (got > delta/lo || got < delta/hi) {
					t.Fail("go-stats", "%s: %d in %d to %d ns, a rate of %d", name, delta, lo, hi, got)
				}
			}
			rate("mallocs", s.Mallocs, 17)
			rate("frees", s.Frees, 13)
			rate("cgo calls", s.CgoCalls, 3)
			rate("collections", s.GC, int64(b2i(gc)))
			if s.HeapObjects != uint64(100+4*calls) || s.Alloc != uint64(1<<20+4096*calls) {
				t.Fail("go-stats", "collected %+v as number %d", s, calls)
			}
		} else {
			m := metrics.CollectBasicGoStats()
			lo, hi := float64(after.Sub(between)), float64(time.Since(from))
			rate := func(name string, delta float64) {
				got, ok := m[name].(float64)
				if !ok || lo > 0 && (got > delta/lo*1.0001 || got < delta/hi*0.9999) {
					t.Fail("go-stats", "%s: %v in %v to %v ns, a rate of %v", name, delta, lo, hi, m[name])
				}
			}
			rate("memory.counters.mallocs", 17)
			rate("memory.counters.frees", 13)
			rate("cgo.calls", 3)
			rate("gc.rate", float64(b2i(gc)))
			for name, want := range map[string]int64{"memory.objects.heap": 100 + 4*calls, "memory.summary.alloc": 1<<20 + 4096*calls, "memory.summary.system": 4 << 20, "memory.heap.Idle": 1 << 20, "memory.heap.InUse": 3 << 20, "gc.pause.last.span": lastPause(calls)} {
				if got := fmt.Sprint(m[name]); got != fmt.Sprint(want) {
					t.Fail("go-stats", "%s is %s, not %d", name, got, want)
				}
			}
			if m["gc.pause.last.string"] != time.Duration(lastPause(calls)).String() {
				t.Fail("go-stats", "the last pause was %d ns, not %v", lastPause(calls), m["gc.pause.last.string"])
			}
		}
		t.Check()
		t.Probe("rates")
	}
	t.Probe("go-stats")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
