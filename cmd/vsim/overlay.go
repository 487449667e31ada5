package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// An edit replaces one exact piece of an installed file. A piece that is not
// there exactly once is an error: the simulator must never run on a runtime it
// does not fully control.
type edit struct{ old, new string }

func applyEdits(src, name string, edits []edit) (string, error) {
	for _, e := range edits {
		if n := strings.Count(src, e.old); n != 1 {
			return "", fmt.Errorf("%s: %d occurrences of %q", name, n, e.old)
		}
		src = strings.Replace(src, e.old, e.new, 1)
	}
	return src, nil
}

var rtEdits = map[string][]edit{
	"runtime/runtime2.go": {
		{"\tcoroarg   *coro // argument during coroutine transfers\n", "\tsimEpoch uint32\n\tsimID uint32\n\tsimPrio uint64\n\tcoroarg   *coro // argument during coroutine transfers\n"},
	},
	"runtime/proc.go": {
		{"const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
		{"\tif !haveSysmon && next {", "\tif GOARCH == \"wasm\" && next {"},
		{"const randomizeScheduler = raceenabled", "const randomizeScheduler = false"},
		{"\t// Check the global runnable queue once in a while to ensure fairness.\n",
			"\tif simActive {\n\t\tgp, again := simFind(pp, pollUntil)\n\t\tif gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t\tif again {\n\t\t\tgoto top\n\t\t}\n\t}\n\n\t// Check the global runnable queue once in a while to ensure fairness.\n"},
		{"\tnewg.parentGoid = callergp.goid\n\tnewg.gopc = callerpc\n", "\tnewg.parentGoid = callergp.goid\n\tnewg.startpc = fn.fn\n\tsimNewG(newg, callergp)\n\tnewg.gopc = callerpc\n"},
		{"\tgp.syncGroup = nil\n\n\tif gcBlackenEnabled != 0 && gp.gcAssistBytes > 0 {", "\tgp.syncGroup = nil\n\tsimGone(gp)\n\n\tif gcBlackenEnabled != 0 && gp.gcAssistBytes > 0 {"},
	},
	"runtime/time.go": {
		{"\tisSending atomic.Int32\n}\n", "\tisSending atomic.Int32\n\n\tsimEpoch uint32\n}\n"},
		{"\tt.trace(\"modify\")\n\toldPeriod := t.period\n", "\tt.trace(\"modify\")\n\tsimTimerTag(t)\n\toldPeriod := t.period\n"},
		{"\tgp.sleepWhen = when\n\tif t.isFake {", "\tgp.sleepWhen = when\n\tt.simEpoch = gp.simEpoch\n\tif t.isFake {"},
	},
	"runtime/select.go": {
		{"j := cheaprandn(uint32(norder + 1))", "j := simSelectRand(uint32(norder + 1))"},
	},
	"runtime/rand.go": {
		{"\tmp := getg().m\n\tc := &mp.chacha8\n", "\tif simRandOn() {\n\t\treturn simMix(&simPRNGRand)\n\t}\n\tmp := getg().m\n\tc := &mp.chacha8\n"},
		{"\tmp := getg().m\n\t// Implement wyrand", "\tif simRandOn() {\n\t\treturn uint32(simMix(&simPRNGCheap))\n\t}\n\tmp := getg().m\n\t// Implement wyrand"},
		{"\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i*37 + 11)\n\t}\n\tglobalRand.state.Init(*seed)\n"},
	},
	"runtime/mgc.go": {
		{"\tgo bgscavenge(c)\n\t<-c\n\t<-c\n", "\t<-c\n"},
	},
	"runtime/mstats.go": {
		{"func ReadMemStats(m *MemStats) {\n", "func ReadMemStats(m *MemStats) {\n\tif simStats(m) {\n\t\treturn\n\t}\n"},
	},
	"runtime/debug.go": {
		{"func NumCPU() int {\n", "func NumCPU() int {\n\tif simFakeStats {\n\t\treturn 4\n\t}\n"},
		{"func NumCgoCall() int64 {\n", "func NumCgoCall() int64 {\n\tif simFakeStats {\n\t\treturn int64(7 + 3*simStatsCalls)\n\t}\n"},
		{"func NumGoroutine() int {\n", "func NumGoroutine() int {\n\tif simFakeStats {\n\t\treturn int(simS.Live)\n\t}\n"},
	},
	"syscall/syscall_linux.go": {
		{"func Mkdir(path string, mode uint32) (err error) {\n", "func Mkdir(path string, mode uint32) (err error) {\n\tif Sim != nil {\n\t\treturn simErr1(Sim.Mkdir(path, mode))\n\t}\n"},
		{"func Open(path string, mode int, perm uint32) (fd int, err error) {\n", "func Open(path string, mode int, perm uint32) (fd int, err error) {\n\tif Sim != nil {\n\t\treturn simErr(Sim.Open(path, mode, perm))\n\t}\n"},
		{"func Rename(oldpath string, newpath string) (err error) {\n", "func Rename(oldpath string, newpath string) (err error) {\n\tif Sim != nil {\n\t\treturn simErr1(Sim.Rename(oldpath, newpath))\n\t}\n"},
	},
	"syscall/syscall_unix.go": {
		{"func Read(fd int, p []byte) (n int, err error) {\n", "func Read(fd int, p []byte) (n int, err error) {\n\tif Sim != nil && fd >= SimFD {\n\t\treturn simErr(Sim.Read(fd, p))\n\t}\n"},
		{"func Write(fd int, p []byte) (n int, err error) {\n", "func Write(fd int, p []byte) (n int, err error) {\n\tif Sim != nil && fd >= SimFD {\n\t\treturn simErr(Sim.Write(fd, p))\n\t}\n"},
		{"func Pread(fd int, p []byte, offset int64) (n int, err error) {\n", "func Pread(fd int, p []byte, offset int64) (n int, err error) {\n\tif Sim != nil && fd >= SimFD {\n\t\treturn simErr(Sim.Pread(fd, p, offset))\n\t}\n"},
		{"func Pwrite(fd int, p []byte, offset int64) (n int, err error) {\n", "func Pwrite(fd int, p []byte, offset int64) (n int, err error) {\n\tif Sim != nil && fd >= SimFD {\n\t\treturn simErr(Sim.Pwrite(fd, p, offset))\n\t}\n"},
	},
	"syscall/zsyscall_linux_amd64.go": {
		{"func Close(fd int) (err error) {\n", "func Close(fd int) (err error) {\n\tif fd >= SimFD {\n\t\tif Sim == nil {\n\t\t\treturn EBADF\n\t\t}\n\t\treturn simErr1(Sim.Close(fd))\n\t}\n"},
		{"func Fsync(fd int) (err error) {\n", "func Fsync(fd int) (err error) {\n\tif Sim != nil && fd >= SimFD {\n\t\treturn simErr1(Sim.Fsync(fd))\n\t}\n"},
		{"func Fstat(fd int, stat *Stat_t) (err error) {\n", "func Fstat(fd int, stat *Stat_t) (err error) {\n\tif Sim != nil && fd >= SimFD {\n\t\treturn simErr1(Sim.Fstat(fd, stat))\n\t}\n"},
		{"func Ftruncate(fd int, length int64) (err error) {\n", "func Ftruncate(fd int, length int64) (err error) {\n\tif Sim != nil && fd >= SimFD {\n\t\treturn simErr1(Sim.Ftruncate(fd, length))\n\t}\n"},
		{"func Seek(fd int, offset int64, whence int) (off int64, err error) {\n", "func Seek(fd int, offset int64, whence int) (off int64, err error) {\n\tif Sim != nil && fd >= SimFD {\n\t\toff, e := Sim.Seek(fd, offset, whence)\n\t\treturn off, simErr1(e)\n\t}\n"},
		{"func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n", "func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n\tif Sim != nil {\n\t\treturn simErr1(Sim.Stat(path, stat))\n\t}\n"},
		{"func unlinkat(dirfd int, path string, flags int) (err error) {\n", "func unlinkat(dirfd int, path string, flags int) (err error) {\n\tif Sim != nil {\n\t\treturn simErr1(Sim.Unlink(path))\n\t}\n"},
		{"func Getpid() (pid int) {\n", "func Getpid() (pid int) {\n\tif SimPid != 0 {\n\t\treturn SimPid\n\t}\n"},
	},
	"os/file_unix.go": {
		{"\tpollable := kind == kindOpenFile || kind == kindPipe || kind == kindSock || nonBlocking\n", "\tpollable := (kind == kindOpenFile || kind == kindPipe || kind == kindSock || nonBlocking) && fd < syscall.SimFD\n"},
	},
	"net/dial.go": {
		{"func Listen(network, address string) (Listener, error) {\n", "func Listen(network, address string) (Listener, error) {\n\tif SimListen != nil {\n\t\treturn SimListen(network, address)\n\t}\n"},
		{"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n\tif SimListen != nil {\n\t\treturn SimListen(network, address)\n\t}\n"},
	},
	// what the runtime does on behalf of the harness is hidden from the race
	// detector, as the harness itself is
	"runtime/race.go": {
		{"//go:noescape\nfunc racereadpc(addr unsafe.Pointer, callpc, pc uintptr)\n", "//go:noescape\nfunc racereadpc0(addr unsafe.Pointer, callpc, pc uintptr)\n\n//go:nosplit\nfunc racereadpc(addr unsafe.Pointer, callpc, pc uintptr) {\n\tif callpc-simHarnessLo >= simHarnessLen {\n\t\tracereadpc0(addr, callpc, pc)\n\t}\n}\n"},
		{"//go:noescape\nfunc racewritepc(addr unsafe.Pointer, callpc, pc uintptr)\n", "//go:noescape\nfunc racewritepc0(addr unsafe.Pointer, callpc, pc uintptr)\n\n//go:nosplit\nfunc racewritepc(addr unsafe.Pointer, callpc, pc uintptr) {\n\tif callpc-simHarnessLo >= simHarnessLen {\n\t\tracewritepc0(addr, callpc, pc)\n\t}\n}\n"},
		{"func racewriterangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {\n\tgp := getg()\n\tif gp != gp.m.curg {", "func racewriterangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {\n\tgp := getg()\n\tif gp != gp.m.curg || callpc-simHarnessLo < simHarnessLen {"},
		{"func racereadrangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {\n\tgp := getg()\n\tif gp != gp.m.curg {", "func racereadrangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {\n\tgp := getg()\n\tif gp != gp.m.curg || callpc-simHarnessLo < simHarnessLen {"},
	},
	"runtime/race_amd64.s": {
		{"TEXT	runtime·racereadpc(SB)", "TEXT	runtime·racereadpc0(SB)"},
		{"TEXT	runtime·racewritepc(SB)", "TEXT	runtime·racewritepc0(SB)"},
		{"TEXT	racecalladdr<>(SB), NOSPLIT, $0-0\n", "TEXT	racecalladdr<>(SB), NOSPLIT, $0-0\n\tCMPB	g_raceignore(R14), $64\n\tJGE	ret\n"},
	},
	"sync/pool.go": {
		{"if runtime_randn(4) == 0 {", "if false {"},
	},
	"runtime/time_fake.go": {
		{"\tif !(fd == 1 || fd == 2) {", "\tif fd == fd {"},
	},
}

// writeOverlay produces the overlay file for GOROOT edits, merged with extra.
func writeOverlay(goroot, verif, out string, extra map[string]string) error {
	rep := map[string]string{}
	add := func(table map[string][]edit) error {
		for rel, edits := range table {
			p := filepath.Join(goroot, "src", rel)
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			s, err := applyEdits(string(b), rel, edits)
			if err != nil {
				return err
			}
			dst := filepath.Join(out, "goroot", rel)
			if err := writeIfChanged(dst, []byte(s)); err != nil {
				return err
			}
			rep[p] = dst
		}
		return nil
	}
	if err := add(rtEdits); err != nil {
		return err
	}
	// added files
	root := filepath.Join(verif, "engine", "overlay")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		rep[filepath.Join(goroot, "src", strings.TrimSuffix(rel, ".txt"))] = p
		return nil
	})
	if err != nil {
		return err
	}
	// dependencies that reach outside of the process, replaced as a whole
	mods := filepath.Join(verif, "engine", "modules")
	seen := map[string]bool{}
	err = filepath.Walk(mods, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(mods, p)
		dir := filepath.Join("/root/go/pkg/mod", filepath.Dir(rel))
		if !seen[dir] {
			seen[dir] = true
			old, err := filepath.Glob(filepath.Join(dir, "*.go"))
			if err != nil {
				return err
			}
			for _, p := range old {
				if _, ok := rep[p]; !ok {
					rep[p] = ""
				}
			}
		}
		rep[filepath.Join("/root/go/pkg/mod", rel)] = p
		return nil
	})
	if err != nil {
		return err
	}
	for k, v := range extra {
		rep[k] = v
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	return writeIfChanged(filepath.Join(out, "overlay.json"), b)
}

func writeIfChanged(p string, b []byte) error {
	if old, err := os.ReadFile(p); err == nil && string(old) == string(b) {
		return nil
	}
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	return os.WriteFile(p, b, 0o644)
}
