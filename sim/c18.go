package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc"
	"github.com/tychoish/birch/x/mrpc/mongowire"
	"github.com/tychoish/birch/x/mrpc/shell"
)

func init() {
	register("C18", "service", 4, c18)
	register("C18", "shell", 1, c18shell)
	register("C18", "registry", 2, c18registry)
	register("C18", "helpers", 1, c18helpers)
	resetHooks = append(resetHooks, func(*T) { net.SimListen = nil })
}

// shellUse has the shell helpers look at a message: errors are fine.
func shellUse(t *T, m mongowire.Message) {
	if d, err := shell.RequestMessageToDocument(m); err == nil && d == nil {
		t.Fail("no-message", "request: neither a document nor an error")
	}
	if d, err := shell.ResponseMessageToDocument(m); err == nil && d == nil {
		t.Fail("no-message", "response: neither a document nor an error")
	}
}

// svcRun is a service at work.
type svcRun struct {
	t        *T
	ln       *simListener
	ctx      context.Context
	cancel   context.CancelFunc
	ready    chan struct{} // the service listens
	stopped  chan struct{} // Run has returned
	err      error
	ended    bool // the context has been ended
	endedAt  time.Time
	stopAt   time.Time
	mu       sync.Mutex
	reports  []string
	reports2 []string         // those given to the second handler
	handled  map[int64]string // by which handler a request was handled
	sent     map[int64]string // which handler it is for; everything ever sent
	next     int64
	lax      bool
	slowest  time.Duration
	expected map[string]int // how many reports there must be
}

func startService(t *T, svc mrpc.Service) *svcRun {
	s := &svcRun{t: t, ready: make(chan struct{}), stopped: make(chan struct{}), handled: map[int64]string{}, sent: map[int64]string{}, expected: map[string]int{}}
	s.ctx, s.cancel = context.WithCancel(context.Background())
	net.SimListen = func(network, addr string) (net.Listener, error) {
		if network != "tcp" || addr != svc.Address() {
			t.Fail("address", "listens on %s %s, not %s", network, addr, svc.Address())
		}
		if s.ln != nil {
			t.Fail("address", "listens twice")
		}
		s.ln = newListener(t, addr)
		close(s.ready)
		return s.ln, nil
	}
	svc.RegisterErrorHandler(func(err error) {
		Yield()
		s.mu.Lock()
		defer s.mu.Unlock()
		if err == nil {
			t.Fail("nil-error", "the error handler was called without an error")
		}
		s.reports = append(s.reports, err.Error())
	})
	svc.RegisterErrorHandler(func(err error) {
		s.mu.Lock()
		defer s.mu.Unlock()
		s.reports2 = append(s.reports2, err.Error())
	})
	go func() {
		s.err = svc.Run(s.ctx)
		s.stopAt = time.Now()
		if !s.ended {
			t.Fail("stopped", "the service stopped on its own: %v", s.err)
		}
		close(s.stopped)
	}()
	return s
}

func (s *svcRun) stop() {
	s.t.Fault("context-cancelled")
	s.endedAt = time.Now()
	s.ended = true
	s.cancel()
}

// tolerance is how late something may be.
func (s *svcRun) tolerance() time.Duration {
	return s.t.slack() + time.Duration(s.t.params.TickNS)*200000 + 20*time.Millisecond
}

// finish: the context has ended, and so must the service.
func (s *svcRun) finish() {
	t := s.t
	t.phase = "waiting for the service to return"
	<-s.stopped
	t.Check()
	if s.err != nil {
		t.Fail("stop-error", "the service was told to stop, and returned %v", s.err)
	}
	if late := s.stopAt.Sub(s.endedAt); late > s.tolerance() {
		t.Fail("slow-stop", "the service returned %s after its context ended", late)
	}
	if !s.ln.closed {
		t.Fail("still-listening", "the service has returned, but still listens")
	}
	t.phase = ""
}

func (s *svcRun) count(sub string) (n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, r := range s.reports {
		if strings.Contains(r, sub) {
			n++
		}
	}
	return n
}

const (
	hCmd = iota
	hCmdDB
	hMsg
	hQuery
	hInsert
	hKill
	hSlow
	hPanic
	hIgnore
	hPanicMsg
	hPanicInsert
	numHandlers
)

func isPanic(kind int) bool { return kind == hPanic || kind == hPanicMsg || kind == hPanicInsert }

var handlerNames = []string{"command", "command-of-db", "msg", "query", "insert", "kill", "slow", "panic", "stubborn", "panic-msg", "panic-insert"}

func tokenDoc(name string, tok int64) *birch.Document {
	return birch.DC.Elements(birch.EC.Int64(name, tok), birch.EC.String("pad", strings.Repeat("x", int(tok%40))))
}

// request is a message for the given handler.
func request(t *T, kind int, tok int64) mongowire.Message {
	switch kind {
	case hCmd:
		return mongowire.NewCommand([]string{"db", "", "x"}[t.Int(3)], "echo", tokenDoc("echo", tok), birch.DC.New(), nil)
	case hCmdDB:
		if t.Chance(1, 2) {
			return mongowire.NewQuery("special.$cmd", 0, 0, 1, tokenDoc("echo", tok), nil)
		}
		return mongowire.NewCommand("special", "echo", tokenDoc("echo", tok), birch.DC.New(), nil)
	case hMsg:
		return mongowire.NewOpMessage(false, []birch.Document{*tokenDoc("echo", tok)})
	case hQuery:
		return mongowire.NewQuery("db.coll", 0, 0, 1, tokenDoc("q", tok), nil)
	case hInsert:
		return mongowire.NewInsert("db.coll", tokenDoc("i", tok))
	case hKill:
		return mongowire.NewKillCursors(tok)
	case hSlow:
		return mongowire.NewCommand("", "slow", tokenDoc("slow", tok), birch.DC.New(), nil)
	case hPanic:
		return mongowire.NewCommand("", "panic", tokenDoc("panic", tok), birch.DC.New(), nil)
	case hPanicMsg:
		return mongowire.NewOpMessage(false, []birch.Document{*tokenDoc("panic", tok)})
	case hPanicInsert:
		return mongowire.NewInsert("db.fail", tokenDoc("i", tok))
	}
	return mongowire.NewOpMessage(false, []birch.Document{*tokenDoc("stubborn", tok)})
}

func scopeOf(kind int) *mongowire.OpScope {
	switch kind {
	case hCmd:
		return &mongowire.OpScope{Type: mongowire.OP_COMMAND, Command: "echo"}
	case hCmdDB:
		return &mongowire.OpScope{Type: mongowire.OP_COMMAND, Command: "echo", Context: "special"}
	case hMsg:
		return &mongowire.OpScope{Type: mongowire.OP_MSG, Command: "echo"}
	case hQuery:
		return &mongowire.OpScope{Type: mongowire.OP_QUERY, Context: "db.coll"}
	case hInsert:
		return &mongowire.OpScope{Type: mongowire.OP_INSERT, Context: "db.coll"}
	case hKill:
		return &mongowire.OpScope{Type: mongowire.OP_KILL_CURSORS}
	case hSlow:
		return &mongowire.OpScope{Type: mongowire.OP_COMMAND, Command: "slow"}
	case hPanic:
		return &mongowire.OpScope{Type: mongowire.OP_COMMAND, Command: "panic"}
	case hPanicMsg:
		return &mongowire.OpScope{Type: mongowire.OP_MSG, Command: "panic"}
	case hPanicInsert:
		return &mongowire.OpScope{Type: mongowire.OP_INSERT, Context: "db.fail"}
	}
	return &mongowire.OpScope{Type: mongowire.OP_MSG, Command: "stubborn"}
}

func answered(kind int) bool { return kind != hInsert && !isPanic(kind) }

func tokenOf(t *T, m mongowire.Message) int64 {
	v, _ := mongowire.GetModel(m)
	_ = v
	var d *birch.Document
	switch x := m.(type) {
	case *mongowire.CommandMessage:
		d = x.CommandArgs
	case *mongowire.OpMessage:
		d = &x.Items[0].Documents()[0]
	case *mongowire.ReplyMessage:
		d = &x.Docs[0]
	default:
		b := m.Serialize()
		if m.Header().OpCode == mongowire.OP_KILL_CURSORS {
			return int64(le(b[24:32]))
		}
		skip := 16 + 4 + len("db.coll") + 1
		if m.Header().OpCode == mongowire.OP_QUERY {
			skip += 8
		}
		return int64(le(b[skip+4+1+2 : skip+4+1+2+8]))
	}
	tok, ok := d.ElementAt(0).Value().Int64OK()
	if !ok {
		t.Fail("contents", "a request or response without its number: %s", d)
	}
	return tok
}

func le(b []byte) (v uint64) {
	for i := range b {
		v |= uint64(b[i]) << (8 * i)
	}
	return v
}

func (s *svcRun) handler(kind int) mrpc.HandlerFunc {
	t := s.t
	return func(ctx context.Context, w io.Writer, m mongowire.Message) {
		Yield()
		tok := tokenOf(t, m)
		s.mu.Lock()
		want, ok := s.sent[tok]
		before, dup := s.handled[tok]
		s.handled[tok] = handlerNames[kind]
		s.mu.Unlock()
		t.Check()
		if !ok {
			t.Fail("made-up", "the %s handler was given request %d, which nobody sent", handlerNames[kind], tok)
		}
		if dup {
			t.Fail("handled-twice", "request %d was handled twice (%s, %s)", tok, before, handlerNames[kind])
		}
		if want != handlerNames[kind] {
			t.Fail("wrong-handler", "request %d is for the %s handler, but went to %s", tok, want, handlerNames[kind])
		}
		switch kind {
		case hInsert:
			return
		case hPanic, hPanicMsg, hPanicInsert:
			t.Fault("handler-panic")
			panic([]any{errors.New("sim: handler failed"), "sim: handler failed", 42}[t.Int(3)])
		case hSlow:
			t.Fault("handler-delay")
			d := time.Duration(1+t.Int(2000)) * time.Millisecond
			select {
			case <-time.After(d):
			case <-ctx.Done():
				return
			}
		case hIgnore: // of the context
			t.Fault("handler-delay")
			time.Sleep(time.Duration(1+t.Int(1500)) * time.Millisecond)
		}
		var resp mongowire.Message
		if kind == hMsg || kind == hIgnore {
			resp = mongowire.NewOpMessage(false, []birch.Document{*tokenDoc("r", tok)})
		} else {
			resp = mongowire.NewReply(0, 0, 0, 1, []birch.Document{*tokenDoc("r", tok)})
		}
		if t.Chance(1, 3) { // a handler may write by itself
			_, _ = w.Write(resp.Serialize())
			return
		}
		_ = mongowire.SendMessage(ctx, resp, w)
	}
}

const maxHandlerTime = 2 * time.Second

// send writes requests, and reports how many were sent completely.
func (s *svcRun) send(c *simConn, n int, pick func() int, between func(tok int64, kind int) bool) (toks []int64, kinds []int, err error) {
	for i := 0; i < n; i++ {
		kind := pick()
		s.mu.Lock()
		s.next++
		tok := s.next
		s.sent[tok] = handlerNames[kind]
		s.mu.Unlock()
		if err := mongowire.SendMessage(context.Background(), request(s.t, kind, tok), c); err != nil {
			return toks, kinds, err
		}
		toks, kinds = append(toks, tok), append(kinds, kind)
		if between != nil && !between(tok, kind) {
			return toks, kinds, io.ErrUnexpectedEOF
		}
	}
	return toks, kinds, nil
}

func okKind(t *T) func() int {
	return func() int {
		k := t.Int(numHandlers)
		if isPanic(k) {
			k = hCmd
		}
		return k
	}
}

// good is a client that sends requests and waits for every response.
func (s *svcRun) good(c *simConn) {
	t := s.t
	n := 1 + t.Int(5)
	got := map[int64]int{}
	var mu sync.Mutex
	var readErr error
	readDone := make(chan struct{})
	arrived := sync.NewCond(&mu)
	go func() {
		defer close(readDone)
		for {
			m, err := mongowire.ReadMessage(context.Background(), c)
			mu.Lock()
			if err != nil {
				readErr = err
				arrived.Broadcast()
				mu.Unlock()
				return
			}
			got[tokenOf(t, m)]++
			arrived.Broadcast()
			mu.Unlock()
		}
	}()
	lockstep := t.Chance(1, 3)
	toks, kinds, err := s.send(c, n, okKind(t), func(tok int64, kind int) bool {
		if !lockstep || !answered(kind) || kind == hKill && false {
			return true
		}
		mu.Lock()
		defer mu.Unlock()
		for got[tok] == 0 && readErr == nil {
			arrived.Wait()
		}
		return got[tok] > 0
	})
	if err == nil {
		if t.Chance(1, 2) {
			// no more requests, but the responses are wanted
			t.Probe("half-closed")
			_ = c.CloseWrite()
		}
		mu.Lock()
		for {
			missing := 0
			for i, tok := range toks {
				if answered(kinds[i]) && got[tok] == 0 {
					missing++
				}
			}
			if missing == 0 || readErr != nil {
				break
			}
			arrived.Wait()
		}
		mu.Unlock()
	}
	cut := s.ended // the service may drop connections from here on
	mu.Lock()
	t.Check()
	for i, tok := range toks {
		switch {
		case got[tok] > 1:
			t.Fail("answered-twice", "request %d was answered %d times", tok, got[tok])
		case got[tok] == 0 && answered(kinds[i]) && !cut:
			t.Fail("unanswered", "request %d (%s) of a client that waits was not answered: %v, %v", tok, handlerNames[kinds[i]], readErr, s.reports)
		}
		if answered(kinds[i]) && got[tok] == 1 {
			delete(got, tok)
		}
	}
	for tok := range got {
		if tok > 0 && got[tok] > 0 {
			found := false
			for _, x := range toks {
				found = found || x == tok
			}
			if !found && err == nil {
				t.Fail("made-up", "a client received the response to request %d, which is not its own", tok)
			}
		}
	}
	mu.Unlock()
	if err != nil && !cut {
		t.Fail("dropped", "the connection of a client that does nothing wrong was dropped: %v, %v", err, s.reports)
	}
	if !cut {
		t.Probe("served")
		// what was sent without a response has been handled in the end
		if t.Chance(1, 2) {
			_ = c.CloseWrite()
			<-readDone
			s.mu.Lock()
			for i, tok := range toks {
				if s.handled[tok] == "" && !s.ended {
					t.Fail("not-handled", "request %d (%s) was not handled", tok, handlerNames[kinds[i]])
				}
			}
			s.mu.Unlock()
		}
	}
	_ = c.Close()
	<-readDone
}

// expectClosed waits for the service to give up a connection.
func (s *svcRun) expectClosed(c *simConn, why string) {
	t := s.t
	from := time.Now()
	done := make(chan struct{})
	go func() {
		defer close(done)
		buf := make([]byte, 256)
		for {
			if _, err := c.Read(buf); err != nil {
				return
			}
		}
	}()
	select {
	case <-done:
	case <-time.After(maxHandlerTime + 10*time.Second + 2*s.tolerance()):
		t.Fail("not-closed", "%s: the service keeps the connection open %s later", why, time.Since(from))
	}
	_ = c.Close()
	<-done
}

// bad is a client that does not behave.
func (s *svcRun) bad(c *simConn) {
	t := s.t
	_, _, err := s.send(c, t.Int(3), okKind(t), nil)
	if err != nil {
		_ = c.Close()
		return
	}
	raw := func(b []byte) { _, _ = c.Write(b) }
	whole := request(t, hCmd, 0).Serialize()
	must := ""
	kind := t.Int(8)
	switch kind {
	case 0:
		t.Fault("client-disconnects")
		_ = c.Close()
		return
	case 1:
		t.Fault("client-disconnects-inside-message")
		raw(whole[:1+t.Int(len(whole)-1)])
		_ = c.CloseWrite()
		must = "reading message"
	case 2:
		t.Fault("client-stalls-inside-message")
		raw(whole[:t.Int(len(whole))])
		s.waitEnd()
		s.expectClosed(c, "a client that stalls, and the service has stopped")
		return
	case 3:
		t.Fault("client-sends-garbage")
		bad, _ := damage(t, whole[:16])
		for i, n := 0, t.Int(30); i < n; i++ {
			bad = append(bad, byte(t.Int(256)))
		}
		s.lax = true // it may be taken for any request
		raw(bad)
		_ = c.CloseWrite()
	case 4:
		t.Fault("client-sends-unknown-operation")
		_ = mongowire.SendMessage(context.Background(), mongowire.NewCommand("db", "nosuch", tokenDoc("nosuch", 0), birch.DC.New(), nil), c)
		must = "undefined scope"
	case 5:
		t.Fault("client-sends-response")
		_ = mongowire.SendMessage(context.Background(), []mongowire.Message{
			mongowire.NewReply(0, 0, 0, 1, []birch.Document{*tokenDoc("r", 0)}),
			mongowire.NewCommandReply(tokenDoc("r", 0), birch.DC.New(), nil),
		}[t.Int(2)], c)
		must = ""
	case 6:
		_, _, err = s.send(c, 1, func() int { return []int{hPanic, hPanicMsg, hPanicInsert}[t.Int(3)] }, nil)
		if err != nil {
			_ = c.Close()
			return
		}
		must = "panic"
	case 7:
		t.Fault("client-never-reads")
		c.l.mu.Lock()
		c.l.cap = 16
		c.l.mu.Unlock()
		go func() { // sending blocks as well, when the service is stuck
			s.waitEnd()
			time.Sleep(time.Second)
			_ = c.Close()
		}()
		_, _, _ = s.send(c, 1+t.Int(4), okKind(t), nil)
		s.waitEnd()
		return
	}
	if must != "" && !s.ended {
		s.mu.Lock()
		s.expected[must]++
		s.mu.Unlock()
	}
	s.expectClosed(c, []string{"", "a message that is cut short", "", "garbage", "an unknown operation", "a response in place of a request", "a handler that panics"}[kind])
	t.Probe("dropped")
}

func (s *svcRun) waitEnd() { <-s.ctx.Done() }

func c18(t *T) {
	svc := mrpc.NewBasicService("sim", 1+t.Int(60000))
	var s *svcRun
	for k := 0; k < numHandlers; k++ {
		k := k
		if err := svc.RegisterOperation(scopeOf(k), func(ctx context.Context, w io.Writer, m mongowire.Message) { s.handler(k)(ctx, w, m) }); err != nil {
			t.Fail("registration", "%s: %v", handlerNames[k], err)
		}
	}
	if err := svc.RegisterOperation(scopeOf(t.Int(numHandlers)), func(context.Context, io.Writer, mongowire.Message) {}); err == nil {
		t.Fail("registration", "two handlers for the same operation")
	}
	if t.Chance(1, 40) {
		t.Fault("listen-error")
		net.SimListen = func(string, string) (net.Listener, error) { return nil, errFiles }
		err := svc.Run(context.Background())
		t.Check()
		if !errors.Is(err, errFiles) {
			t.Fail("listen-error", "listening fails, but Run returns %v", err)
		}
		t.Probe("cannot-listen")
		return
	}
	s = startService(t, svc)
	<-s.ready
	var wg sync.WaitGroup
	early := t.Chance(1, 3)
	if early {
		d := time.Duration(t.Int(300)) * time.Millisecond
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(d)
			s.stop()
		}()
		t.Probe("cancelled-early")
	}
	clients := 1 + t.Int(4)
	var wait sync.WaitGroup // clients that come to an end by themselves
	for i := 0; i < clients; i++ {
		bad := t.Chance(2, 5)
		delay := time.Duration(t.Int(50)) * time.Millisecond
		stays := false
		wg.Add(1)
		wait.Add(1)
		name := fmt.Sprintf("client-%d", i)
		go func() {
			defer wg.Done()
			defer func() {
				if !stays {
					wait.Done()
				}
			}()
			time.Sleep(delay)
			c, err := s.ln.dial(name)
			if err != nil {
				if !s.ended {
					t.Fail("refused", "a client was refused: %v", err)
				}
				return
			}
			if bad {
				stays = true
				wait.Done()
				s.bad(c)
			} else {
				s.good(c)
			}
		}()
	}
	if t.Chance(1, 4) {
		wg.Add(1)
		n := 1 + t.Int(12)
		delay := time.Duration(t.Int(60)) * time.Millisecond
		go func() {
			defer wg.Done()
			time.Sleep(delay)
			s.ln.fail(n)
		}()
	}
	if !early {
		wait.Wait()
		// those that misbehave have had time to be noticed
		time.Sleep(2*maxHandlerTime + s.tolerance() + 20*time.Second)
		s.mu.Lock()
		for what, n := range s.expected {
			k := 0
			for _, r := range s.reports {
				if strings.Contains(r, what) {
					k++
				}
			}
			t.Check()
			if k < n {
				t.Fail("not-reported", "%d clients caused %q, reported %d times: %v", n, what, k, s.reports)
			}
			for _, r := range s.reports2 {
				if strings.Contains(r, what) {
					k--
				}
			}
			if k > 0 {
				t.Fail("not-reported", "%d reports of %q reached the first error handler only: %v, %v", k, what, s.reports, s.reports2)
			}
		}
		s.mu.Unlock()
		if n := len(s.ln.Failed); n > 0 {
			t.Check()
			if k := s.count("accept"); k < n {
				t.Fail("not-reported", "accepting failed %d times, reported %d times", n, k)
			}
			if n > 4 {
				if took := s.ln.Failed[n-1] - s.ln.Failed[0]; took < time.Duration(n)*time.Millisecond {
					t.Fail("spinning", "accepting failed %d times within %s", n, took)
				}
			}
			t.Probe("accept-failed")
		}
		s.stop()
	}
	s.finish()
	t.phase = "waiting for clients to be disconnected"
	wg.Wait()
	t.phase = "waiting for connections to be closed"
	until := time.Now().Add(maxHandlerTime + time.Second + s.tolerance())
	for _, c := range s.ln.conns {
		for !c.isClosed() {
			if time.Now().After(until) {
				t.Fail("not-closed", "the service stopped, but a connection is still open")
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	if _, err := s.ln.dial("late"); err == nil {
		t.Fail("still-listening", "the service has stopped, but accepts connections")
	}
	t.Probe("stopped")
}

// c18shell: what a mongo shell asks first.
func c18shell(t *T) {
	svc, err := shell.NewShellService("sim", 1+t.Int(60000))
	if err != nil {
		t.Fail("registration", "%v", err)
	}
	s := startService(t, svc)
	<-s.ready
	var wg sync.WaitGroup
	for i, n := 0, 1+t.Int(3); i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, err := s.ln.dial("shell")
			if err != nil {
				t.Fail("refused", "%v", err)
			}
			for k, n := 0, 1+t.Int(5); k < n; k++ {
				cmd := []string{"isMaster", "whatsmyuri", "buildinfo", "buildInfo", "endSessions", "getCmdLineOpts", "getLog", "getFreeMonitoringStatus", "replSetGetStatus", "listCollections"}[t.Int(10)]
				op := []mongowire.OpType{mongowire.OP_MSG, mongowire.OP_COMMAND}[t.Int(2)]
				req, err := shell.RequestToMessage(op, birch.DC.Elements(birch.EC.Int(cmd, 1)))
				if err != nil {
					t.Fail("request", "%s: %v", cmd, err)
				}
				if err := mongowire.SendMessage(context.Background(), req, c); err != nil {
					t.Fail("dropped", "%s: %v, %v", cmd, err, s.reports)
				}
				m, err := mongowire.ReadMessage(context.Background(), c)
				if err != nil {
					t.Fail("unanswered", "%s: %v, %v", cmd, err, s.reports)
				}
				d, err := shell.ResponseMessageToDocument(m)
				t.Check()
				if err != nil {
					t.Fail("response", "%s: %v", cmd, err)
				}
				if isMsg := m.Header().OpCode == mongowire.OP_MSG; isMsg != (op == mongowire.OP_MSG) {
					t.Fail("response", "%s as %s is answered with %s", cmd, op, m.Header().OpCode)
				}
				var r shell.ErrorResponse
				if err := r.UnmarshalDocument(d); err != nil {
					t.Fail("response", "%s: %v", cmd, err)
				}
				want, key, val := 0, "", any(nil)
				switch cmd {
				case "isMaster":
					want, key, val = 1, "maxWireVersion", int32(6)
				case "whatsmyuri":
					want, key, val = 1, "you", svc.Address()
				case "buildinfo", "buildInfo":
					want, key, val = 1, "version", "0.0.0"
				case "getLog":
					want = 1
				}
				if r.OK != want || (want == 1) != (r.SuccessOrError() == nil) {
					t.Fail("response", "%s is answered with %s", cmd, d)
				}
				if key != "" {
					v, err := d.LookupErr(key)
					if err != nil || v.Interface() != val {
						t.Fail("response", "%s is answered with %s", cmd, d)
					}
				}
				t.Probe("shell-answer")
			}
			_ = c.Close()
		}()
	}
	wg.Wait()
	s.stop()
	s.finish()
}

var regTypes = []mongowire.OpType{wireOP_COMMAND, wireOP_MSG, wireOP_QUERY, wireOP_INSERT, wireOP_UPDATE, wireOP_DELETE, wireOP_GET_MORE, wireOP_KILL_CURSORS, wireOP_REPLY, wireOP_COMMAND_REPLY, 0, 2003}

// scopeValid says what can be registered.
func scopeValid(s mongowire.OpScope) bool {
	switch s.Type {
	case wireOP_COMMAND, wireOP_MSG:
		return s.Command != ""
	case wireOP_QUERY, wireOP_INSERT, wireOP_UPDATE, wireOP_DELETE, wireOP_GET_MORE:
		return s.Context != "" && s.Command == ""
	case wireOP_KILL_CURSORS:
		return s.Context == "" && s.Command == ""
	}
	return false
}

// scopeRequest is a request of the scope.
func scopeRequest(s mongowire.OpScope) mongowire.Message {
	d := birch.DC.Elements(birch.EC.Int32("a", 1))
	switch s.Type {
	case wireOP_COMMAND:
		return mongowire.NewCommand(s.Context, s.Command, d, birch.DC.New(), nil)
	case wireOP_MSG:
		body := birch.DC.Elements(birch.EC.Int32(s.Command, 1))
		if s.Context != "" {
			body.Append(birch.EC.String("$db", s.Context))
		}
		return mongowire.NewOpMessage(false, []birch.Document{*body})
	case wireOP_QUERY:
		return mongowire.NewQuery(s.Context, 0, 0, 1, d, nil)
	case wireOP_INSERT:
		return mongowire.NewInsert(s.Context, d)
	case wireOP_UPDATE:
		return mongowire.NewUpdate(s.Context, 0, d, d)
	case wireOP_DELETE:
		return mongowire.NewDelete(s.Context, 0, d)
	case wireOP_GET_MORE:
		return mongowire.NewGetMore(s.Context, 1, 1)
	}
	return mongowire.NewKillCursors(1)
}

// c18registry: handlers are registered by several goroutines, while the
// service runs or before.
func c18registry(t *T) {
	svc := mrpc.NewBasicService("sim", 1+t.Int(60000))
	type key struct {
		op       mongowire.OpType
		ctx, cmd string
	}
	var mu sync.Mutex
	winner := map[key]int{}
	called := map[int]int{}
	handler := func(id int) mrpc.HandlerFunc {
		return func(context.Context, io.Writer, mongowire.Message) {
			Yield()
			mu.Lock()
			called[id]++
			mu.Unlock()
		}
	}
	always := key{wireOP_INSERT, "always.here", ""}
	if err := svc.RegisterOperation(&mongowire.OpScope{Type: always.op, Context: always.ctx}, handler(-1)); err != nil {
		t.Fail("registration", "%v", err)
	}
	winner[always] = -1
	var s *svcRun
	running := t.Chance(1, 2)
	start := func() {
		s = startService(t, svc)
		<-s.ready
	}
	// request sends one, and waits for it to be dealt with.
	request := func(k key) {
		c, err := s.ln.dial("client")
		if err != nil {
			t.Fail("refused", "%v", err)
		}
		if err := mongowire.SendMessage(context.Background(), scopeRequest(mongowire.OpScope{Type: k.op, Context: k.ctx, Command: k.cmd}), c); err != nil {
			t.Fail("dropped", "%v", err)
		}
		_ = c.CloseWrite()
		buf := make([]byte, 16)
		for {
			if _, err := c.Read(buf); err != nil {
				break
			}
		}
		_ = c.Close()
	}
	if running {
		start()
		t.Probe("register-while-serving")
	}
	var wg sync.WaitGroup
	next := 0
	for g, n := 0, 1+t.Int(3); g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, n := 0, 1+t.Int(8); i < n; i++ {
				k := key{regTypes[t.Int(len(regTypes))], []string{"", "", "a.b", "c"}[t.Int(4)], []string{"", "x", "y"}[t.Int(3)]}
				sc := mongowire.OpScope{Type: k.op, Context: k.ctx, Command: k.cmd}
				mu.Lock()
				next++
				id := next
				mu.Unlock()
				h := handler(id)
				if t.Chance(1, 10) {
					h = nil
				}
				if err := sc.Validate(); (err == nil) != scopeValid(sc) {
					t.Fail("scope", "validating %+v: %v", sc, err)
				}
				err := svc.RegisterOperation(&sc, h)
				mu.Lock()
				t.Check()
				switch {
				case !scopeValid(sc):
					t.Probe("bad-scope")
					if err == nil {
						t.Fail("registration", "registers %+v, which no request can have", sc)
					}
				case h == nil:
					if err == nil {
						t.Fail("registration", "registers no handler for %+v", sc)
					}
				case err == nil:
					if was, dup := winner[k]; dup {
						t.Fail("registration", "handlers %d and %d are both registered for %+v", was, id, sc)
					}
					winner[k] = id
				}
				mu.Unlock()
				if err != nil && scopeValid(sc) && h != nil { // somebody else was first
					Yield()
					mu.Lock()
					_, dup := winner[k]
					if !dup {
						// the other one may not have noted it yet
						mu.Unlock()
						time.Sleep(time.Second)
						mu.Lock()
						if _, dup = winner[k]; !dup {
							t.Fail("registration", "%+v: %v", sc, err)
						}
					}
					mu.Unlock()
				}
			}
		}()
	}
	inserts := 0
	if running {
		inserts = 1 + t.Int(3)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < inserts; i++ {
				request(always)
			}
		}()
	}
	wg.Wait()
	if !running {
		start()
	}
	t.Check()
	if called[-1] != inserts {
		t.Fail("not-handled", "%d requests, %d handled: %v", inserts, called[-1], s.reports)
	}
	for i, n := 0, 1+t.Int(8); i < n; i++ {
		k := key{regTypes[t.Int(8)], []string{"", "a.b", "c", "d"}[t.Int(4)], ""}
		switch k.op {
		case wireOP_COMMAND, wireOP_MSG:
			k.cmd = []string{"x", "y", "z"}[t.Int(3)]
		case wireOP_KILL_CURSORS:
			k.ctx = ""
		}
		want, ok := winner[k]
		if !ok {
			want, ok = winner[key{k.op, "", k.cmd}]
			if ok {
				t.Probe("fallback")
			}
		}
		before := map[int]int{}
		for id, n := range called {
			before[id] = n
		}
		undefined := s.count("undefined scope")
		request(k)
		t.Check()
		if ok {
			before[want]++
		} else {
			undefined++
		}
		for id := -1; id <= next; id++ {
			if called[id] != before[id] {
				t.Fail("wrong-handler", "a request of %+v is for handler %d (%v), but handler %d has handled %d, not %d: %v", k, want, ok, id, called[id], before[id], s.reports)
			}
		}
		if n := s.count("undefined scope"); n != undefined {
			t.Fail("not-reported", "a request of %+v is for handler %d (%v), %d reports, not %d: %v", k, want, ok, n, undefined, s.reports)
		}
		t.Probe("routed")
	}
	s.stop()
	s.finish()
}

// c18helpers: what the helpers put into a message, they take out of it.
func c18helpers(t *T) {
	op := []mongowire.OpType{wireOP_MSG, wireOP_COMMAND}[t.Int(2)]
	raw := cmdDoc(t, []string{"ping", "x"}[t.Int(2)], []string{"", "db"}[t.Int(2)])
	want := fmt.Sprintf("[%x]", raw)
	// over is the message at the other end of a connection.
	over := func(m mongowire.Message) mongowire.Message {
		w := NewWriter(t)
		if err := mongowire.SendMessage(context.Background(), m, w); err != nil {
			t.Fail("send", "%v", err)
		}
		got, err := mongowire.ReadMessage(context.Background(), NewReader(t, w.buf))
		if err != nil {
			t.Fail("refused", "%v\n%x", err, w.buf)
		}
		return got
	}
	doc := func(what string, m mongowire.Message, err error, out func(mongowire.Message) (*birch.Document, error), kind mongowire.OpType, more bool) *birch.Document {
		t.Check()
		if err != nil {
			t.Fail("helper", "%s: %v", what, err)
		}
		got := over(m)
		if got.Header().OpCode != kind {
			t.Fail("helper", "%s is a %s, not a %s", what, got.Header().OpCode, kind)
		}
		if mm, ok := got.(*mongowire.OpMessage); ok && (mm.Flags != 0 || len(mm.Items) != 1) {
			t.Fail("helper", "%s has flags %d and %d sections", what, mm.Flags, len(mm.Items))
		}
		d, err := out(got)
		if err != nil || d == nil {
			t.Fail("helper", "%s: %v", what, err)
		}
		return d
	}
	replyAs := op
	if op == wireOP_COMMAND {
		replyAs = wireOP_REPLY
	}
	switch t.Int(6) {
	case 0:
		m, err := shell.RequestToMessage(op, toDoc(t, raw))
		if d := hexDoc(doc("a request", m, err, shell.RequestMessageToDocument, op, false)); d != want {
			t.Fail("helper", "a request of %s holds %s", want, d)
		}
	case 1:
		m, err := shell.ResponseToMessage(op, toDoc(t, raw))
		if d := hexDoc(doc("a response", m, err, shell.ResponseMessageToDocument, replyAs, false)); d != want {
			t.Fail("helper", "a response of %s holds %s", want, d)
		}
	case 2, 3: // written by the helper
		w := NewWriter(t)
		var err error
		what := t.Int(3)
		failed := errors.New("sim: failed")
		switch what {
		case 0:
			err = shell.WriteOKResponse(context.Background(), w, op, "op")
		case 1:
			err = shell.WriteNotOKResponse(context.Background(), w, op, "op")
		case 2:
			err = shell.WriteErrorResponse(context.Background(), w, op, failed, "op")
		}
		if err != nil {
			t.Fail("helper", "%v", err)
		}
		m, err := mongowire.ReadMessage(context.Background(), NewReader(t, w.buf))
		d := doc("a response", m, err, shell.ResponseMessageToDocument, replyAs, false)
		var r shell.ErrorResponse
		if err := r.UnmarshalDocument(d); err != nil {
			t.Fail("helper", "%v", err)
		}
		err = r.SuccessOrError()
		t.Check()
		if e := (shell.ErrorResponse{OK: t.Int(2), ErrorMessage: "failed"}); e.SuccessOrError() == nil || e.SuccessOrError().Error() != "failed" {
			t.Fail("helper", "the error of %+v is %v", e, e.SuccessOrError())
		}
		if (what == 0) != (err == nil) || (what == 0) != (r.OK == 1) || what == 2 && err.Error() != failed.Error() || what != 2 && r.ErrorMessage != "" {
			t.Fail("helper", "response %d is %+v", what, r)
		}
		// and reported when it cannot be written
		w = NewWriter(t)
		w.plan = func(_ int, p []byte) (int, error) {
			t.Fault("write-error")
			return t.Int(len(p)), errDisk
		}
		switch what {
		case 0:
			err = shell.WriteOKResponse(context.Background(), w, op, "op")
		case 1:
			err = shell.WriteNotOKResponse(context.Background(), w, op, "op")
		case 2:
			err = shell.WriteErrorResponse(context.Background(), w, op, failed, "op")
		}
		if !errors.Is(err, errDisk) {
			t.Fail("helper", "the response could not be written: %v", err)
		}
	case 4: // any message
		m := genWire(t, false)
		got := over(mustRead(t, m.wire))
		d, err := shell.RequestMessageToDocument(got)
		r, rerr := shell.ResponseMessageToDocument(got)
		t.Check()
		req, resp := "", ""
		body := ""
		switch x := got.(type) {
		case *mongowire.OpMessage:
			for _, sec := range x.Items {
				if sec.Type() == mongowire.OpMessageSectionBody && body == "" {
					body = hexDoc(&sec.Documents()[0])
				}
			}
			req, resp = body, body
		case *mongowire.CommandMessage:
			req = hexDoc(x.CommandArgs)
		case *mongowire.ReplyMessage:
			if len(x.Docs) > 0 {
				resp = hexDoc(&x.Docs[0])
			}
		case *mongowire.CommandReplyMessage:
			resp = hexDoc(x.CommandReply)
		}
		if (err == nil) != (req != "") || err == nil && hexDoc(d) != req {
			t.Fail("helper", "%s: the request's document is %s, not %s: %v", m.op, hexDoc(d), req, err)
		}
		if (rerr == nil) != (resp != "") || rerr == nil && hexDoc(r) != resp {
			t.Fail("helper", "%s: the response's document is %s, not %s: %v", m.op, hexDoc(r), resp, rerr)
		}
	case 5: // a service that has the shell's operations
		svc := mrpc.NewBasicService("sim", 1)
		taken := t.Chance(1, 2)
		if taken {
			if err := svc.RegisterOperation(&mongowire.OpScope{Type: op, Command: "getLog"}, func(context.Context, io.Writer, mongowire.Message) {}); err != nil {
				t.Fail("registration", "%v", err)
			}
		}
		got, err := shell.MakeShellService(svc)
		t.Check()
		if (err != nil) != taken || err == nil && got.Address() != svc.Address() {
			t.Fail("registration", "making a shell service, one operation taken %v: %v", taken, err)
		}
	}
	t.Probe("helpers")
}

func mustRead(t *T, wire []byte) mongowire.Message {
	m, err := mongowire.ReadMessage(context.Background(), NewReader(t, wire))
	if err != nil {
		t.Fail("refused", "%v\n%x", err, wire)
	}
	return m
}
