package syscall

// SimFS takes the place of the file system while a simulated run is on.
type SimFS interface {
	Open(path string, flags int, perm uint32) (int, Errno)
	Read(fd int, p []byte) (int, Errno)
	Write(fd int, p []byte) (int, Errno)
	Pread(fd int, p []byte, off int64) (int, Errno)
	Pwrite(fd int, p []byte, off int64) (int, Errno)
	Close(fd int) Errno
	Fstat(fd int, st *Stat_t) Errno
	Stat(path string, st *Stat_t) Errno
	Seek(fd int, off int64, whence int) (int64, Errno)
	Fsync(fd int) Errno
	Ftruncate(fd int, size int64) Errno
	Unlink(path string) Errno
	Rename(from, to string) Errno
	Mkdir(path string, mode uint32) Errno
}

// Sim is nil except while a simulated run is on.
var Sim SimFS

// SimPid, if not zero, is the process id.
var SimPid int

// SimFD is the first of the descriptors of the simulated file system.
const SimFD = 1 << 20

func simErr(n int, e Errno) (int, error) {
	if e != 0 {
		return -1, e
	}
	return n, nil
}

func simErr1(e Errno) error {
	if e != 0 {
		return e
	}
	return nil
}
