package main

import (
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/fsnotify/fsnotify"
)

// simFS is an in-memory file system that fails, stalls and runs full when it
// is told to. While a run has one, no file outside of it can be reached.
type simFS struct {
	t        *T
	files    map[string]*simFile
	fds      map[int]*simFD
	opened   int
	fault    func(op, path string) syscall.Errno
	short    bool // writes and reads may be split
	slow     bool
	space    int // bytes left, if limited
	limited  bool
	watches  []*simWatch
	log      []string
	closeErr int
}

type simFile struct {
	data   []byte
	opens  int
	failed bool // a write to it was reported as failed
}

type simFD struct {
	f        *simFile
	path     string
	pos      int
	append   bool
	readable bool
	writable bool
}

var nextFD = syscall.SimFD

func newSimFS(t *T) *simFS {
	fs := &simFS{t: t, files: map[string]*simFile{}, fds: map[int]*simFD{}}
	syscall.Sim = fs
	syscall.SimPid = 4242
	runtime.SimFakeStats(true)
	fsnotify.SimNew = fs.newWatcher
	return fs
}

func init() {
	resetHooks = append(resetHooks, func(t *T) {
		syscall.Sim = nil
		syscall.SimPid = 0
		runtime.SimFakeStats(false)
		fsnotify.SimNew = nil
	})
}

// syscallPid makes it the process with the number.
func syscallPid(t *T, pid int32) { syscall.SimPid = int(pid) }

func (fs *simFS) step(op, p string) syscall.Errno {
	Yield()
	if fs.slow && fs.t.Chance(1, 16) {
		fs.t.Fault("disk-delay")
		time.Sleep(time.Duration(1+fs.t.Int(50)) * time.Millisecond)
	}
	if fs.fault != nil {
		if e := fs.fault(op, p); e != 0 {
			fs.t.Fault("disk-" + op + "-error")
			fs.t.Log("%s %s: %v", op, p, e)
			return e
		}
	}
	return 0
}

func (fs *simFS) Open(p string, flags int, perm uint32) (int, syscall.Errno) {
	p = path.Clean(p)
	if e := fs.step("open", p); e != 0 {
		return -1, e
	}
	f := fs.files[p]
	switch {
	case f == nil && flags&syscall.O_CREAT == 0:
		return -1, syscall.ENOENT
	case f == nil:
		f = &simFile{}
		fs.files[p] = f
		fs.opened++
	case flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL:
		return -1, syscall.EEXIST
	}
	if flags&syscall.O_TRUNC != 0 {
		f.data = nil
	}
	f.opens++
	nextFD++
	acc := flags & syscall.O_ACCMODE
	fs.fds[nextFD] = &simFD{f: f, path: p, append: flags&syscall.O_APPEND != 0, readable: acc != syscall.O_WRONLY, writable: acc != syscall.O_RDONLY}
	fs.t.Log("open %s", p)
	return nextFD, 0
}

func (fs *simFS) Close(fd int) syscall.Errno {
	d := fs.fds[fd]
	if d == nil {
		return syscall.EBADF
	}
	delete(fs.fds, fd)
	fs.t.Log("close %s", d.path)
	e := fs.step("close", d.path)
	if e != 0 {
		d.f.failed = true
	}
	return e
}

func (fs *simFS) Read(fd int, p []byte) (int, syscall.Errno) {
	d := fs.fds[fd]
	if d == nil || !d.readable {
		return -1, syscall.EBADF
	}
	if e := fs.step("read", d.path); e != 0 {
		return -1, e
	}
	if d.pos >= len(d.f.data) {
		return 0, 0
	}
	src := d.f.data[d.pos:]
	if fs.short && len(p) > 1 && fs.t.Chance(1, 3) {
		p = p[:1+fs.t.Int(len(p)-1)]
		fs.t.Fault("short-read")
	}
	n := copy(p, src)
	d.pos += n
	return n, 0
}

func (fs *simFS) Write(fd int, p []byte) (int, syscall.Errno) {
	d := fs.fds[fd]
	if d == nil || !d.writable {
		return -1, syscall.EBADF
	}
	if e := fs.step("write", d.path); e != 0 {
		d.f.failed = true
		// some of it may have reached the disk
		if fs.t.Chance(1, 2) {
			fs.put(d, p[:fs.t.Int(len(p)+1)])
			fs.t.Fault("torn-write")
		}
		return -1, e
	}
	if fs.limited && len(p) > fs.space {
		if fs.space == 0 {
			fs.t.Fault("disk-full")
			d.f.failed = true
			return -1, syscall.ENOSPC
		}
		p = p[:fs.space]
	}
	if fs.short && len(p) > 1 && fs.t.Chance(1, 4) {
		p = p[:1+fs.t.Int(len(p)-1)]
		fs.t.Fault("short-write")
	}
	fs.space -= len(p)
	fs.put(d, p)
	return len(p), 0
}

func (fs *simFS) put(d *simFD, p []byte) {
	if d.append {
		d.pos = len(d.f.data)
	}
	for len(d.f.data) < d.pos+len(p) {
		d.f.data = append(d.f.data, make([]byte, d.pos+len(p)-len(d.f.data))...)
	}
	copy(d.f.data[d.pos:], p)
	d.pos += len(p)
	fs.notify(d.path, fsnotify.Write)
}

func (fs *simFS) Pread(fd int, p []byte, off int64) (int, syscall.Errno) {
	d := fs.fds[fd]
	if d == nil || !d.readable {
		return -1, syscall.EBADF
	}
	if e := fs.step("read", d.path); e != 0 {
		return -1, e
	}
	if off >= int64(len(d.f.data)) {
		return 0, 0
	}
	return copy(p, d.f.data[off:]), 0
}

func (fs *simFS) Pwrite(fd int, p []byte, off int64) (int, syscall.Errno) {
	d := fs.fds[fd]
	if d == nil || !d.writable {
		return -1, syscall.EBADF
	}
	pos := d.pos
	d.pos = int(off)
	n, e := fs.Write(fd, p)
	d.pos = pos
	return n, e
}

func (fs *simFS) Fstat(fd int, st *syscall.Stat_t) syscall.Errno {
	d := fs.fds[fd]
	if d == nil {
		return syscall.EBADF
	}
	*st = syscall.Stat_t{Mode: syscall.S_IFREG | 0o600, Size: int64(len(d.f.data))}
	return 0
}

func (fs *simFS) Stat(p string, st *syscall.Stat_t) syscall.Errno {
	p = path.Clean(p)
	if f := fs.files[p]; f != nil {
		*st = syscall.Stat_t{Mode: syscall.S_IFREG | 0o600, Size: int64(len(f.data))}
		return 0
	}
	for name := range fs.files {
		if strings.HasPrefix(name, p+"/") {
			*st = syscall.Stat_t{Mode: syscall.S_IFDIR | 0o700}
			return 0
		}
	}
	return syscall.ENOENT
}

func (fs *simFS) Seek(fd int, off int64, whence int) (int64, syscall.Errno) {
	d := fs.fds[fd]
	if d == nil {
		return -1, syscall.EBADF
	}
	switch whence {
	case 1:
		off += int64(d.pos)
	case 2:
		off += int64(len(d.f.data))
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	d.pos = int(off)
	return off, 0
}

func (fs *simFS) Fsync(fd int) syscall.Errno {
	d := fs.fds[fd]
	if d == nil {
		return syscall.EBADF
	}
	return fs.step("sync", d.path)
}

func (fs *simFS) Ftruncate(fd int, size int64) syscall.Errno {
	d := fs.fds[fd]
	if d == nil {
		return syscall.EBADF
	}
	for int64(len(d.f.data)) < size {
		d.f.data = append(d.f.data, 0)
	}
	d.f.data = d.f.data[:size]
	return 0
}

func (fs *simFS) Unlink(p string) syscall.Errno {
	p = path.Clean(p)
	if fs.files[p] == nil {
		return syscall.ENOENT
	}
	delete(fs.files, p)
	return 0
}

func (fs *simFS) Rename(from, to string) syscall.Errno {
	from, to = path.Clean(from), path.Clean(to)
	if fs.files[from] == nil {
		return syscall.ENOENT
	}
	if e := fs.step("rename", to); e != 0 {
		return e
	}
	fs.files[to] = fs.files[from]
	delete(fs.files, from)
	return 0
}

func (fs *simFS) Mkdir(p string, mode uint32) syscall.Errno { return 0 }

// names lists the files in order.
func (fs *simFS) names() []string {
	var s []string
	for n := range fs.files {
		s = append(s, n)
	}
	sort.Strings(s)
	return s
}

// append adds to a file as another process would.
func (fs *simFS) append(name string, b []byte) {
	f := fs.files[name]
	if f == nil {
		f = &simFile{}
		fs.files[name] = f
	}
	f.data = append(f.data, b...)
	fs.notify(name, fsnotify.Write)
}

// ---- notification

type simWatch struct {
	fs     *simFS
	names  map[string]bool
	queue  []fsnotify.Event
	errs   []error
	wake   chan struct{}
	done   chan struct{}
	ended  chan struct{}
	closed bool
}

func (fs *simFS) newWatcher(events chan fsnotify.Event, errs chan error) (fsnotify.SimWatcher, error) {
	if e := fs.step("watch", ""); e != 0 {
		return nil, e
	}
	w := &simWatch{fs: fs, names: map[string]bool{}, wake: make(chan struct{}, 1), done: make(chan struct{}), ended: make(chan struct{})}
	fs.watches = append(fs.watches, w)
	go func() {
		defer close(w.ended)
		defer close(events)
		defer close(errs)
		for {
			for len(w.queue) > 0 || len(w.errs) > 0 {
				if len(w.errs) > 0 {
					e := w.errs[0]
					w.errs = w.errs[1:]
					select {
					case errs <- e:
					case <-w.done:
						return
					}
					continue
				}
				e := w.queue[0]
				w.queue = w.queue[1:]
				select {
				case events <- e:
				case <-w.done:
					return
				}
			}
			select {
			case <-w.wake:
			case <-w.done:
				return
			}
		}
	}()
	return w, nil
}

func (w *simWatch) Add(name string) error {
	if w.closed {
		return fsnotify.ErrClosed
	}
	if e := w.fs.step("watch", name); e != 0 {
		return e
	}
	name = path.Clean(name)
	if w.fs.files[name] == nil {
		return syscall.ENOENT
	}
	w.names[name] = true
	return nil
}

func (w *simWatch) Remove(name string) error { delete(w.names, path.Clean(name)); return nil }
func (w *simWatch) WatchList() (s []string) {
	for n := range w.names {
		s = append(s, n)
	}
	sort.Strings(s)
	return
}

func (w *simWatch) Close() error {
	if w.closed {
		return nil
	}
	w.closed = true
	close(w.done)
	<-w.ended
	return nil
}

func (w *simWatch) poke() {
	select {
	case w.wake <- struct{}{}:
	default:
	}
}

func (fs *simFS) notify(name string, op fsnotify.Op) {
	for _, w := range fs.watches {
		if w.closed || !w.names[name] {
			continue
		}
		ev := fsnotify.Event{Name: name, Op: op}
		if n := len(w.queue); n == 0 || w.queue[n-1] != ev {
			w.queue = append(w.queue, ev)
		}
		w.poke()
	}
}

// diskErrno is the error of a failing disk, or of a directory that went away.
func diskErrno(t *T) syscall.Errno {
	return []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EMFILE, syscall.EDQUOT, syscall.ENOENT, syscall.EACCES}[t.Int(6)]
}
