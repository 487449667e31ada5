package main

import (
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"
)

var (
	errConnReset error = syscall.ECONNRESET
	errPipe      error = syscall.EPIPE
	errRefused   error = syscall.ECONNREFUSED
	errFiles     error = syscall.EMFILE
)

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

// link is a connection: two directions under one lock.
type link struct {
	t    *T
	mu   sync.Mutex
	cond *sync.Cond
	cap  int // of each direction
}

type half struct {
	buf  []byte
	eof  bool // the writing end has been closed
	gone bool // the reading end has been closed
	rst  bool // what is underway has been lost
}

// simConn is one end of a connection. Reads and writes are fragmented,
// delayed and blocked the way a real transport does.
type simConn struct {
	l       *link
	in, out *half
	addr    simAddr
	slow    bool
	frag    int // 0 whole, 1 single bytes, 2 random
	closed  bool
	wmu     sync.Mutex
	rdl     time.Time
	wdl     time.Time
	Closes  int
}

func newLink(t *T, name string) (client, server *simConn) {
	l := &link{t: t, cap: []int{16, 256, 1 << 16, 1 << 30}[t.Int(4)]}
	l.cond = sync.NewCond(&l.mu)
	a, b := &half{}, &half{}
	client = &simConn{l: l, in: a, out: b, addr: simAddr(name), slow: t.Chance(1, 4), frag: t.Int(3)}
	server = &simConn{l: l, in: b, out: a, addr: simAddr(name), slow: t.Chance(1, 4), frag: t.Int(3)}
	return client, server
}

func (c *simConn) pause() {
	Yield()
	if c.slow && c.l.t.Chance(1, 8) {
		c.l.t.Fault("net-delay")
		time.Sleep(time.Duration(1+c.l.t.Int(50)) * time.Millisecond)
	}
}

func expired(d time.Time) bool { return !d.IsZero() && !time.Now().Before(d) }

func (c *simConn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: c.addr, Err: err}
}

func (c *simConn) Read(p []byte) (int, error) {
	c.pause()
	l, h := c.l, c.in
	l.mu.Lock()
	defer l.mu.Unlock()
	for {
		switch {
		case c.closed:
			return 0, c.opErr("read", net.ErrClosed)
		case len(p) == 0:
			return 0, nil
		case expired(c.rdl):
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		case h.rst:
			return 0, c.opErr("read", errConnReset)
		case len(h.buf) > 0:
			n := min(len(p), len(h.buf))
			switch c.frag {
			case 1:
				n = 1
				l.t.Fault("net-fragmentation")
			case 2:
				n = min(n, 1+l.t.Int(48))
				l.t.Fault("net-fragmentation")
			}
			copy(p, h.buf[:n])
			h.buf = h.buf[n:]
			l.cond.Broadcast()
			return n, nil
		case h.eof:
			return 0, io.EOF
		}
		l.cond.Wait()
	}
}

// Write is like that of a net.Conn: it writes everything, or fails.
func (c *simConn) Write(p []byte) (int, error) {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	c.pause()
	l, h := c.l, c.out
	l.mu.Lock()
	defer l.mu.Unlock()
	n := 0
	for {
		switch {
		case c.closed || h.eof:
			return n, c.opErr("write", net.ErrClosed)
		case expired(c.wdl):
			return n, c.opErr("write", os.ErrDeadlineExceeded)
		case h.gone:
			return n, c.opErr("write", errPipe)
		case n == len(p):
			return n, nil
		case len(h.buf) < l.cap:
			k := min(len(p)-n, l.cap-len(h.buf))
			if c.frag == 2 {
				k = min(k, 1+l.t.Int(48))
			}
			h.buf = append(h.buf, p[n:n+k]...)
			n += k
			l.cond.Broadcast()
			continue
		}
		l.t.Fault("net-backpressure")
		l.cond.Wait()
	}
}

func (c *simConn) Close() error {
	l := c.l
	Yield()
	l.mu.Lock()
	defer l.mu.Unlock()
	c.Closes++
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	if len(c.in.buf) > 0 && l.t.Chance(1, 2) {
		l.t.Fault("net-reset")
		c.out.rst = true
		c.out.buf = nil
	}
	c.out.eof = true
	c.in.gone = true
	c.in.buf = nil
	l.cond.Broadcast()
	return nil
}

// CloseWrite tells the other end that nothing more is coming.
func (c *simConn) CloseWrite() error {
	c.l.mu.Lock()
	defer c.l.mu.Unlock()
	c.out.eof = true
	c.l.cond.Broadcast()
	return nil
}

func (c *simConn) isClosed() bool {
	c.l.mu.Lock()
	defer c.l.mu.Unlock()
	return c.closed
}

func (c *simConn) LocalAddr() net.Addr  { return c.addr }
func (c *simConn) RemoteAddr() net.Addr { return c.addr }

func (c *simConn) SetDeadline(d time.Time) error {
	_ = c.SetReadDeadline(d)
	return c.SetWriteDeadline(d)
}

func (c *simConn) SetReadDeadline(d time.Time) error  { return c.deadline(&c.rdl, d) }
func (c *simConn) SetWriteDeadline(d time.Time) error { return c.deadline(&c.wdl, d) }

func (c *simConn) deadline(at *time.Time, d time.Time) error {
	c.l.mu.Lock()
	defer c.l.mu.Unlock()
	*at = d
	c.l.cond.Broadcast()
	if !d.IsZero() && time.Until(d) > 0 {
		time.AfterFunc(time.Until(d)+time.Nanosecond, func() {
			c.l.mu.Lock()
			defer c.l.mu.Unlock()
			c.l.cond.Broadcast()
		})
	}
	return nil
}

// simListener hands out the server ends of connections.
type simListener struct {
	t       *T
	mu      sync.Mutex
	cond    *sync.Cond
	addr    simAddr
	queue   []*simConn
	conns   []*simConn // all server ends
	closed  bool
	failing int // Accept calls that are to fail
	Accepts int
	Failed  []time.Duration // when Accept failed
}

func newListener(t *T, addr string) *simListener {
	l := &simListener{t: t, addr: simAddr(addr)}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *simListener) Accept() (net.Conn, error) {
	Yield()
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Accepts++
	for {
		switch {
		case l.closed:
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		case l.failing > 0:
			l.failing--
			l.t.Fault("accept-error")
			l.Failed = append(l.Failed, time.Since(l.t.start))
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: errFiles}
		case len(l.queue) > 0:
			c := l.queue[0]
			l.queue = l.queue[1:]
			return c, nil
		}
		l.cond.Wait()
	}
}

func (l *simListener) Close() error {
	Yield()
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	for _, c := range l.queue { // never accepted
		_ = c.Close()
	}
	l.queue = nil
	l.cond.Broadcast()
	return nil
}

func (l *simListener) Addr() net.Addr { return l.addr }

func (l *simListener) fail(n int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.failing = n
	l.cond.Broadcast()
}

func (l *simListener) dial(name string) (*simConn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return nil, errRefused
	}
	c, s := newLink(l.t, name)
	l.queue = append(l.queue, s)
	l.conns = append(l.conns, s)
	l.cond.Broadcast()
	return c, nil
}
