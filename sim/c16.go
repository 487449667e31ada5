package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc/model"
	"github.com/tychoish/birch/x/mrpc/mongowire"
)

func init() {
	register("C16", "read", 3, c16read)
	register("C16", "send", 2, c16send)
	register("C16", "pipe", 3, c16pipe)
	register("C16", "cancel", 2, c16cancel)
	register("C17", "truncated", 2, c17truncated)
	register("C17", "damaged", 3, c17damaged)
	register("C17", "parsed", 1, c17parsed)
}

// wireMsg is a message encoded by the harness from the description of the
// protocol, and what it says.
type wireMsg struct {
	op       mongowire.OpType
	id, resp int32
	wire     []byte
	again    []byte // what it serializes to
	asOp     mongowire.OpType
	scope    string
	model    string
	build    func() mongowire.Message // the same message, if a constructor can make it
}

// The numbers of the operations, as the protocol has them.
const (
	wireOP_REPLY         mongowire.OpType = 1
	wireOP_UPDATE        mongowire.OpType = 2001
	wireOP_INSERT        mongowire.OpType = 2002
	wireOP_QUERY         mongowire.OpType = 2004
	wireOP_GET_MORE      mongowire.OpType = 2005
	wireOP_DELETE        mongowire.OpType = 2006
	wireOP_KILL_CURSORS  mongowire.OpType = 2007
	wireOP_COMMAND       mongowire.OpType = 2010
	wireOP_COMMAND_REPLY mongowire.OpType = 2011
	wireOP_MSG           mongowire.OpType = 2013
)

var wireOps = []mongowire.OpType{wireOP_REPLY, wireOP_UPDATE, wireOP_INSERT, wireOP_QUERY, wireOP_GET_MORE, wireOP_DELETE, wireOP_KILL_CURSORS, wireOP_COMMAND, wireOP_COMMAND_REPLY, wireOP_MSG}

var wireNS = []string{"db.coll", "a.b.c", "db", "", "x.$", "db.$cmd", "admin.$cmd.aggregate"}

func cstr(s string) []byte { return append([]byte(s), 0) }

func wireFrame(op mongowire.OpType, id, resp int32, body ...[]byte) []byte {
	b := le32(0)
	b = append(b, le32(uint32(id))...)
	b = append(b, le32(uint32(resp))...)
	b = append(b, le32(uint32(op))...)
	for _, x := range body {
		b = append(b, x...)
	}
	binary.LittleEndian.PutUint32(b, uint32(len(b)))
	return b
}

func hexDocs(ds [][]byte) string {
	var sb strings.Builder
	for _, d := range ds {
		fmt.Fprintf(&sb, "[%x]", d)
	}
	return sb.String()
}

func hexDoc(d *birch.Document) string {
	if d == nil {
		return "[]"
	}
	b, err := d.MarshalBSON()
	if err != nil {
		return "error: " + err.Error()
	}
	return fmt.Sprintf("[%x]", b)
}

func hexList(ds []birch.Document) string {
	var sb strings.Builder
	for i := range ds {
		sb.WriteString(hexDoc(&ds[i]))
	}
	return sb.String()
}

// toDoc is the document that raw bytes encode, for constructors.
func toDoc(t *T, raw []byte) *birch.Document {
	d, err := birch.ReadDocument(raw)
	if err != nil {
		t.Harness("reading %x: %v", raw, err)
	}
	return d
}

func toDocs(t *T, raw [][]byte) (out []birch.Document) {
	for _, r := range raw {
		out = append(out, *toDoc(t, r))
	}
	return out
}

// cmdDoc is a document whose first key is the name of a command.
func cmdDoc(t *T, name, db string) []byte {
	b := le32(0)
	b = append(append(b, 0x10), cstr(name)...)
	b = append(b, le32(uint32(t.Int(100)))...)
	for i, n := 0, t.Int(3); i < n; i++ {
		b = append(b, rawElem(t, 1, "k"+string(rune('a'+i)))...)
	}
	if db != "" {
		b = append(append(b, 0x02), cstr("$db")...)
		b = append(b, le32(uint32(len(db)+1))...)
		b = append(b, cstr(db)...)
	}
	b = append(b, 0)
	binary.LittleEndian.PutUint32(b, uint32(len(b)))
	return b
}

func wireInt(t *T) int32 {
	return []int32{0, 1, 2, 19, -1, 1 << 30, -1 << 31, int32(t.Int(1000)), int32(t.U64())}[t.Int(9)]
}

var emptyDoc = []byte{5, 0, 0, 0, 0}

// genWire makes a message. With constructed set, only what the constructors
// can express.
func genWire(t *T, constructed bool) *wireMsg {
	return genWireOf(t, constructed, false, func() []byte {
		if t.large && t.Chance(1, 150) {
			t.Probe("large")
			return largeRaw(t)
		}
		return rawDoc(t, 1)
	})
}

// largeRaw is a document of some size.
func largeRaw(t *T) []byte {
	b := append(le32(0), 0x05, 'b', 0)
	n := []int{500, 4096, 32 << 10, 70000}[t.Int(4)] + t.Int(40) - 20
	b = append(append(b, le32(uint32(n))...), 0)
	at := len(b)
	b = append(b, make([]byte, n+1)...)
	for i := 0; i < n; i += 7 {
		b[at+i] = byte(i >> 3)
	}
	binary.LittleEndian.PutUint32(b, uint32(len(b)))
	return b
}

// hostileDoc is a document that may not be one.
func hostileDoc(t *T) []byte {
	d := rawDoc(t, 1)
	v := func(n int) { binary.LittleEndian.PutUint32(d, uint32(n)) }
	switch t.Int(12) {
	case 0, 1, 2:
		d = append([]byte(nil), emptyDoc...)
	case 3:
		v(len(d) - 1)
	case 4:
		v(len(d) + 1)
	case 5:
		v(len(d) + t.Int(100))
	case 6: // ends early
		d = append(d, 0, 0)
		v(len(d))
	case 7:
		d[len(d)-1] = 1
	case 8:
		v([]int{0, 1, 4, -1, 1 << 30, -1 << 31}[t.Int(6)])
	case 9:
		d, _ = damage(t, d)
	}
	return d
}

func genWireOf(t *T, constructed, hostile bool, newDoc func() []byte) *wireMsg {
	m := &wireMsg{op: wireOps[t.Int(len(wireOps))], id: wireInt(t), resp: wireInt(t)}
	if constructed {
		m.id, m.resp = 19, 0
	}
	m.asOp = m.op
	docs := func(most int) (out [][]byte) {
		for i, n := 0, t.Int(most+1); i < n; i++ {
			out = append(out, newDoc())
		}
		return out
	}
	var ns string
	if m.op == wireOP_QUERY {
		ns = wireNS[t.Int(len(wireNS))]
	} else {
		ns = wireNS[t.Int(5)]
	}
	frame := func(body ...[]byte) { m.wire = wireFrame(m.op, m.id, m.resp, body...) }
	ctx, cmd := ns, ""
	noScope := false
	t.Probe(m.op.String())
	switch m.op {
	case wireOP_REPLY:
		noScope = true
		flags := wireFlags(t)
		cursor, start, n := int64(t.U64()), wireInt(t), wireInt(t)
		ds := docs(3)
		frame(le32(uint32(flags)), le64(uint64(cursor)), le32(uint32(start)), le32(uint32(n)), bytes.Join(ds, nil))
		m.model = fmt.Sprintf("reply %d %d %v %v %s", cursor, start, flags&1 != 0, flags&2 != 0, hexDocs(ds))
		m.build = func() mongowire.Message { return mongowire.NewReply(cursor, flags, start, n, toDocs(t, ds)) }
	case wireOP_UPDATE:
		flags := wireFlags(t)
		a, b := newDoc(), newDoc()
		frame(le32(0), cstr(ns), le32(uint32(flags)), a, b)
		m.model = fmt.Sprintf("update %q [%x] [%x] %v %v", ns, a, b, flags&1 != 0, flags&2 != 0)
		m.build = func() mongowire.Message { return mongowire.NewUpdate(ns, flags, toDoc(t, a), toDoc(t, b)) }
	case wireOP_INSERT:
		flags := int32(0)
		if !constructed {
			flags = wireFlags(t)
		}
		ds := docs(4)
		frame(le32(uint32(flags)), cstr(ns), bytes.Join(ds, nil))
		m.model = fmt.Sprintf("insert %q %s", ns, hexDocs(ds))
		m.build = func() mongowire.Message {
			var in []*birch.Document
			for _, d := range ds {
				in = append(in, toDoc(t, d))
			}
			return mongowire.NewInsert(ns, in...)
		}
	case wireOP_QUERY:
		flags, skip, n := wireInt(t), wireInt(t), wireInt(t)
		isCmd := strings.Contains(ns, ".$") && len(ns) > 0 && strings.HasPrefix(ns[strings.IndexByte(ns, '.')+1:], "$")
		q := newDoc()
		if isCmd && !hostile {
			cmd = []string{"ping", "isMaster", "x"}[t.Int(3)]
			q = cmdDoc(t, cmd, "")
		}
		var proj []byte
		if t.Chance(1, 2) {
			proj = newDoc()
		}
		frame(le32(uint32(flags)), cstr(ns), le32(uint32(skip)), le32(uint32(n)), q, proj)
		m.build = func() mongowire.Message {
			var p *birch.Document
			if proj != nil {
				p = toDoc(t, proj)
			}
			return mongowire.NewQuery(ns, flags, skip, n, toDoc(t, q), p)
		}
		if isCmd {
			t.Probe("query-as-command")
			db := ns[:strings.IndexByte(ns, '.')]
			ctx, m.asOp = db, wireOP_COMMAND
			m.again = wireFrame(m.asOp, m.id, m.resp, cstr(db), cstr(cmd), q, emptyDoc)
			m.model = fmt.Sprintf("command %q %q [%x] true", db, cmd, q)
		} else {
			m.model = fmt.Sprintf("query %q %d %d [%x] [%x]", ns, skip, n, q, proj)
		}
	case wireOP_GET_MORE:
		n, cursor := wireInt(t), int64(t.U64())
		frame(le32(0), cstr(ns), le32(uint32(n)), le64(uint64(cursor)))
		m.model = fmt.Sprintf("getmore %q %d %d", ns, cursor, n)
		m.build = func() mongowire.Message { return mongowire.NewGetMore(ns, n, cursor) }
	case wireOP_DELETE:
		flags := wireFlags(t)
		a := newDoc()
		frame(le32(0), cstr(ns), le32(uint32(flags)), a)
		m.model = fmt.Sprintf("delete %q [%x]", ns, a)
		m.build = func() mongowire.Message { return mongowire.NewDelete(ns, flags, toDoc(t, a)) }
	case wireOP_KILL_CURSORS:
		ctx = ""
		var ids []int64
		var raw []byte
		for i, n := 0, t.Int(5); i < n; i++ {
			ids = append(ids, int64(t.U64()))
			raw = append(raw, le64(uint64(ids[i]))...)
		}
		frame(le32(0), le32(uint32(len(ids))), raw)
		m.build = func() mongowire.Message { return mongowire.NewKillCursors(ids...) }
	case wireOP_COMMAND:
		cmd = []string{"ping", "find", "", "x"}[t.Int(4)]
		a, meta, ds := newDoc(), newDoc(), docs(2)
		frame(cstr(ns), cstr(cmd), a, meta, bytes.Join(ds, nil))
		m.model = fmt.Sprintf("command %q %q [%x] false [%x] %s", ns, cmd, a, meta, hexDocs(ds))
		m.build = func() mongowire.Message {
			return mongowire.NewCommand(ns, cmd, toDoc(t, a), toDoc(t, meta), toDocs(t, ds))
		}
	case wireOP_COMMAND_REPLY:
		noScope = true
		a, meta, ds := newDoc(), newDoc(), docs(2)
		frame(a, meta, bytes.Join(ds, nil))
		m.build = func() mongowire.Message {
			return mongowire.NewCommandReply(toDoc(t, a), toDoc(t, meta), toDocs(t, ds))
		}
	case wireOP_MSG:
		flags := []uint32{0, 1, 2, 3, 1 << 16, 1<<16 | 1}[t.Int(6)]
		if constructed {
			flags &= 2
		}
		cmd = []string{"ping", "find", "x"}[t.Int(3)]
		ctx = []string{"", "db", "admin"}[t.Int(3)]
		body := cmdDoc(t, cmd, ctx)
		type seq struct {
			id   string
			docs [][]byte
		}
		var seqs []seq
		for i, n := 0, t.Int(3); i < n; i++ {
			seqs = append(seqs, seq{[]string{"documents", "updates", ""}[t.Int(3)], docs(3)})
		}
		at := 0
		if !constructed {
			at = t.Int(len(seqs) + 1)
		}
		var secs []byte
		var sb strings.Builder
		emit := func() {
			secs = append(append(secs, 0), body...)
			fmt.Fprintf(&sb, " %q[%x]", cmd, body)
		}
		for i, s := range seqs {
			if i == at {
				emit()
			}
			payload := append(cstr(s.id), bytes.Join(s.docs, nil)...)
			secs = append(append(append(secs, 1), le32(uint32(4+len(payload)))...), payload...)
			fmt.Fprintf(&sb, " %q%s", s.id, hexDocs(s.docs))
		}
		if at == len(seqs) {
			emit()
		}
		var sum []byte
		if flags&1 != 0 {
			t.Probe("checksum")
			sum = le32(uint32(wireInt(t)))
		}
		frame(le32(flags), secs, sum)
		m.model = fmt.Sprintf("msg %v %v%s", flags&1 != 0, flags&2 != 0, sb.String())
		m.build = func() mongowire.Message {
			var items []model.SequenceItem
			for _, s := range seqs {
				items = append(items, model.SequenceItem{Identifier: s.id, Documents: toDocs(t, s.docs)})
			}
			return mongowire.NewOpMessage(flags&2 != 0, []birch.Document{*toDoc(t, body)}, items...)
		}
	}
	if m.again == nil {
		m.again = m.wire
	}
	m.scope = fmt.Sprintf("%d %q %q", m.asOp, ctx, cmd)
	if noScope {
		m.scope = "none"
	}
	return m
}

func scopeText(m mongowire.Message) string {
	s := m.Scope()
	if s == nil {
		return "none"
	}
	return fmt.Sprintf("%d %q %q", s.Type, s.Context, s.Command)
}

func modelText(msg mongowire.Message) string {
	v, _ := mongowire.GetModel(msg)
	switch m := v.(type) {
	case *model.Command:
		if m.ConvertedFromQuery {
			return fmt.Sprintf("command %q %q %s true", m.DB, m.Command, hexDoc(m.Arguments))
		}
		return fmt.Sprintf("command %q %q %s %v %s %s", m.DB, m.Command, hexDoc(m.Arguments), m.ConvertedFromQuery, hexDoc(m.Metadata), hexList(m.Inputs))
	case *model.Delete:
		return fmt.Sprintf("delete %q %s", m.Namespace, hexDoc(m.Filter))
	case *model.Insert:
		return fmt.Sprintf("insert %q %s", m.Namespace, hexList(m.Documents))
	case *model.GetMore:
		return fmt.Sprintf("getmore %q %d %d", m.Namespace, m.CursorID, m.NReturn)
	case *model.Query:
		return fmt.Sprintf("query %q %d %d %s %s", m.Namespace, m.Skip, m.NReturn, hexDoc(m.Query), hexDoc(m.Project))
	case *model.Update:
		return fmt.Sprintf("update %q %s %s %v %v", m.Namespace, hexDoc(m.Filter), hexDoc(m.Update), m.Upsert, m.Multi)
	case *model.Reply:
		return fmt.Sprintf("reply %d %d %v %v %s", m.CursorID, m.StartingFrom, m.CursorNotFound, m.QueryFailure, hexList(m.Contents))
	case *model.Message:
		var sb strings.Builder
		for _, it := range m.Items {
			fmt.Fprintf(&sb, " %q%s", it.Identifier, hexList(it.Documents))
		}
		return fmt.Sprintf("msg %v %v%s", m.Checksum, m.MoreToCome, sb.String())
	}
	return ""
}

// same checks that a message is the one that was sent.
func (m *wireMsg) same(t *T, got mongowire.Message) {
	t.Check()
	if got == nil {
		t.Fail("no-message", "%s: neither a message nor an error", m.op)
	}
	h := got.Header()
	if h.RequestID != m.id || h.ResponseTo != m.resp || h.OpCode != m.asOp {
		t.Fail("header", "%s: header %+v, want %d %d %s", m.op, h, m.id, m.resp, m.asOp)
	}
	if m.asOp == m.op && int(h.Size) != len(m.wire) {
		t.Fail("header", "%s: size %d in the header of a message of %d bytes", m.op, h.Size, len(m.wire))
	}
	if s := scopeText(got); s != m.scope {
		t.Fail("scope", "%s: scope %s, want %s", m.op, s, m.scope)
	}
	if s := modelText(got); s != m.model {
		t.Fail("contents", "%s reads as\n  %s\nwant\n  %s", m.op, show(s), show(m.model))
	}
	if b := got.Serialize(); !bytes.Equal(b, m.again) {
		t.Fail("not-the-same", "%s: %x\nserializes to\n%x\nwant\n%x", m.op, m.wire, b, m.again)
	}
}

func genWires(t *T, n int, constructed bool) (ms []*wireMsg, all []byte) {
	for i := 0; i < n; i++ {
		m := genWire(t, constructed)
		ms = append(ms, m)
		all = append(all, m.wire...)
	}
	return ms, all
}

// readPos is where the reader is.
func c16read(t *T) {
	t.large = true
	ms, all := genWires(t, 1+t.Int(5), false)
	r := NewReader(t, all)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	at := 0
	for i, m := range ms {
		got, err := mongowire.ReadMessage(ctx, r)
		if err != nil {
			t.Fail("refused", "message %d of %d, %s: %v\n%x", i, len(ms), m.op, err, m.wire)
		}
		m.same(t, got)
		at += len(m.wire)
		t.Check()
		if r.off != at {
			t.Fail("overread", "after message %d the reader is at %d, the message ends at %d", i, r.off, at)
		}
	}
	_, err := mongowire.ReadMessage(ctx, r)
	t.Check()
	if !errors.Is(err, io.EOF) {
		t.Fail("end", "reading on at the end: %v, want EOF", err)
	}
	t.Probe("read")
}

// shortPlan makes a writer take what it is given in pieces.
func c16send(t *T) {
	t.large = true
	ms, all := genWires(t, 1+t.Int(4), true)
	w := NewWriter(t)
	short := t.Chance(1, 2)
	failAt := -1
	if t.Chance(1, 3) {
		failAt = t.Int(len(all) + 1)
	}
	failed := false
	w.plan = func(_ int, p []byte) (int, error) {
		n := len(p)
		if short && n > 0 && t.Chance(1, 2) {
			t.Fault("short-write")
			n = 1 + t.Int(n)
		}
		if failAt >= 0 && len(w.buf)+n > failAt {
			t.Fault("write-error")
			failed = true
			return max(failAt-len(w.buf), 0), errDisk
		}
		return n, nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	sent := 0
	for i, m := range ms {
		if t.Chance(1, 8) {
			dead, stop := context.WithCancel(ctx)
			stop()
			before := len(w.buf)
			err := mongowire.SendMessage(dead, m.build(), w)
			t.Check()
			if !errors.Is(err, context.Canceled) || len(w.buf) != before {
				t.Fail("sent-after-cancel", "with a context that had ended: %v, %d bytes written", err, len(w.buf)-before)
			}
		}
		msg := m.build()
		err := mongowire.SendMessage(ctx, msg, w)
		t.Check()
		if failed {
			if !errors.Is(err, errDisk) {
				t.Fail("write-error-lost", "message %d: the write failed, but the error is %v", i, err)
			}
			break
		}
		if err != nil {
			t.Fail("send-failed", "message %d, %s: %v", i, m.op, err)
		}
		sent += len(m.wire)
		if !bytes.Equal(w.buf, all[:sent]) {
			t.Fail("bytes", "after %d messages (%s) the stream is\n%x\nwant\n%x", i+1, m.op, w.buf, all[:sent])
		}
		t.Check()
		if m.asOp == m.op {
			m.same(t, msg)
		}
		t.Probe("sent")
	}
	t.Check()
	if !bytes.HasPrefix(all, w.buf) {
		t.Fail("bytes", "the stream\n%x\nis not a prefix of\n%x", w.buf, all)
	}
	if failed {
		t.Probe("write-failed")
	}
}

// c16pipe: both ends at work over a connection, until they are done or told to
// stop.
func c16pipe(t *T) {
	var wg sync.WaitGroup
	a, b := newLink(t, "peer")
	ctx, cancel := context.WithCancel(context.Background())
	stopAt := time.Duration(-1)
	if t.Chance(1, 3) {
		stopAt = time.Duration(1+t.Int(400)) * time.Millisecond
	}
	ended := int64(-1)
	for dir, ends := range [][2]*simConn{{a, b}, {b, a}} {
		if dir == 1 && t.Chance(1, 2) {
			break
		}
		ms, _ := genWires(t, 1+t.Int(4), true)
		out, in := ends[0], ends[1]
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i, m := range ms {
				if err := mongowire.SendMessage(ctx, m.build(), out); err != nil {
					if ended < 0 || !errors.Is(err, context.Canceled) {
						t.Fail("send-failed", "message %d, %s: %v", i, m.op, err)
					}
					t.Probe("send-cancelled")
					return
				}
			}
			_ = out.CloseWrite()
		}()
		go func() {
			defer wg.Done()
			for i, m := range ms {
				got, err := mongowire.ReadMessage(ctx, in)
				if err != nil {
					if ended < 0 || !errors.Is(err, context.Canceled) {
						t.Fail("refused", "message %d of %d, %s: %v", i, len(ms), m.op, err)
					}
					t.Probe("receive-cancelled")
					return
				}
				m.same(t, got)
			}
			if _, err := mongowire.ReadMessage(ctx, in); !errors.Is(err, io.EOF) && (ended < 0 || !errors.Is(err, context.Canceled)) {
				t.Fail("end", "reading on at the end: %v, want EOF", err)
			}
			t.Probe("piped")
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	if stopAt >= 0 {
		select {
		case <-done:
		case <-time.After(stopAt):
			t.Fault("context-cancelled")
			ended = t.seq()
			cancel()
			t.phase = "sending and receiving after the context ended"
		}
	}
	<-done
	cancel()
	_ = a.Close()
	_ = b.Close()
}

// c16cancel: the other end stops responding, and the context ends.
func c16cancel(t *T) {
	m := genWire(t, true)
	wait := time.Duration(1+t.Int(300)) * time.Millisecond
	deadline := t.Chance(1, 2)
	var ctx context.Context
	var cancel context.CancelFunc
	want := context.Canceled
	if deadline {
		want = context.DeadlineExceeded
		ctx, cancel = context.WithTimeout(context.Background(), wait)
		t.Fault("deadline")
	} else {
		ctx, cancel = context.WithCancel(context.Background())
		t.Fault("context-cancelled")
		time.AfterFunc(wait, cancel)
	}
	defer cancel()
	var endedAt time.Time
	var mu sync.Mutex
	context.AfterFunc(ctx, func() { mu.Lock(); endedAt = time.Now(); mu.Unlock() })
	gate := make(chan struct{})
	var err error
	what := "ReadMessage"
	if t.Chance(1, 2) {
		r := NewReader(t, m.wire)
		r.gate, r.blockAt = gate, t.Int(len(m.wire))
		t.phase = "receiving from a source that has stopped, with a context that ends"
		_, err = mongowire.ReadMessage(ctx, r)
		t.Probe("receive-blocked")
	} else {
		what = "SendMessage"
		w := NewWriter(t)
		first := t.Int(len(m.wire))
		w.plan = func(n int, p []byte) (int, error) {
			if n == 1 && first > 0 {
				return first, nil
			}
			t.Fault("write-blocked")
			<-gate
			return len(p), nil
		}
		t.phase = "sending to a destination that has stopped, with a context that ends"
		err = mongowire.SendMessage(ctx, m.build(), w)
		t.Probe("send-blocked")
	}
	now := time.Now()
	t.Check()
	if !errors.Is(err, want) {
		t.Fail("context-error", "%s returned %v when its context ended, want %v", what, err, want)
	}
	mu.Lock()
	late := time.Duration(0)
	if !endedAt.IsZero() {
		late = now.Sub(endedAt)
	}
	mu.Unlock()
	if limit := t.slack() + time.Duration(t.params.TickNS)*100000 + 10*time.Millisecond; late > limit {
		t.Fail("slow-cancel", "%s returned %s after its context ended", what, late)
	}
	t.phase = ""
	close(gate)
}

// wireMemory: what was allocated must be in proportion to what arrived.
func wireMemory(t *T, before uint64, input int) {
	t.Check()
	used := allocated() - before
	if limit := uint64(4<<20 + 2048*input); used > limit {
		t.Fail("runaway-allocation", "%d bytes were allocated for %d bytes of input", used, input)
	}
}

func c17truncated(t *T) {
	ms, all := genWires(t, 1+t.Int(4), false)
	cut := t.Int(len(all))
	if t.Chance(1, 3) { // around the start of a message
		at := 0
		for i, k := 0, t.Int(len(ms)); i < k; i++ {
			at += len(ms[i].wire)
		}
		cut = min(at+t.Int(20), len(all)-1)
	}
	r := NewReader(t, all)
	fail := t.Chance(1, 2)
	if fail {
		r.failAt, r.err = cut, errConnReset
		t.Probe("transport-failed")
	} else {
		r.data = all[:cut]
		t.Fault("stream-cut")
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	before := allocated()
	at := 0
	for i, m := range ms {
		got, err := mongowire.ReadMessage(ctx, r)
		end := at + len(m.wire)
		t.Check()
		if end <= cut {
			if err != nil {
				t.Fail("refused", "message %d arrived completely, but: %v", i, err)
			}
			m.same(t, got)
			at = end
			continue
		}
		if err == nil {
			t.Fail("made-up", "%s of %d bytes: a message, although only %d bytes arrived", m.op, len(m.wire), cut-at)
		}
		if fail && !errors.Is(err, errConnReset) {
			t.Fail("transport-error-lost", "the transport failed, but the error is %v", err)
		}
		if !fail && errors.Is(err, io.EOF) != (cut == at) {
			t.Fail("end", "%d bytes of a message of %d arrived before the connection ended: %v", cut-at, len(m.wire), err)
		}
		if cut == at {
			t.Probe("cut-at-boundary")
		} else {
			t.Probe("cut-inside")
		}
		break
	}
	wireMemory(t, before, len(all))
}

// settle uses a message that was read from doubtful bytes: nothing may crash,
// and it has to be the same message when it is sent on.
func settle(t *T, m mongowire.Message) {
	t.Check()
	if m == nil {
		t.Fail("no-message", "neither a message nor an error")
	}
	_ = scopeText(m)
	text := modelText(m)
	_ = m.HasResponse()
	out := m.Serialize()
	again, err := mongowire.ReadMessage(context.Background(), bytes.NewReader(out))
	if err != nil {
		t.Fail("not-repeatable", "a message that was accepted cannot be read again: %v\n%x", err, out)
	}
	if b := again.Serialize(); !bytes.Equal(b, out) {
		t.Fail("not-repeatable", "a message that was accepted as\n%x\nreads again as\n%x", out, b)
	}
	if text2 := modelText(again); text2 != text && !strings.HasPrefix(text, "command") {
		t.Fail("not-repeatable", "a message that was accepted as\n%s\nreads again as\n%s", show(text), show(text2))
	}
	shellUse(t, m)
	t.Probe("accepted")
}

// faithful is that an accepted message is the one of the bytes.
func faithful(t *T, m mongowire.Message, op mongowire.OpType, body []byte) {
	if _, ok := m.(*mongowire.CommandMessage); ok && op == wireOP_QUERY {
		return // only its document is kept
	}
	out := m.Serialize()[16:]
	body = append([]byte(nil), body...)
	switch op {
	case wireOP_UPDATE, wireOP_DELETE, wireOP_GET_MORE, wireOP_KILL_CURSORS:
		copy(body, le32(0)) // reserved
		fallthrough
	case wireOP_QUERY:
		if op == wireOP_QUERY {
			// the fields, unless the message ends with the query
			at := 4 + bytes.IndexByte(body[4:], 0) + 1 + 8
			if at += int(binary.LittleEndian.Uint32(body[at:])); len(body) > at && len(out) <= at {
				t.Fail("made-up", "%s: reads\n%x\nwithout its last %d bytes", op, body, len(body)-at)
			}
		}
		body = body[:min(len(body), len(out))] // what follows is ignored
	}
	if !bytes.Equal(out, body) {
		t.Fail("made-up", "%s: reads\n%x\nas\n%x", op, body, out)
	}
}

func c17damaged(t *T) {
	ms, all := genWires(t, 1+t.Int(3), false)
	bad, first := damage(t, all)
	if t.Chance(1, 4) && len(all) >= 4 {
		// the length of a message that does not end there
		bad = append([]byte(nil), all...)
		first = 0
		for i, k := 0, t.Int(len(ms)); i < k; i++ {
			first += len(ms[i].wire)
		}
		v := []int32{0, 1, 4, 15, 16, 17, 36, -1, -1 << 31, 1<<31 - 1, 200 << 20, 200<<20 + 1, 64 << 20, int32(len(all)) + int32(t.Int(100))}[t.Int(14)]
		binary.LittleEndian.PutUint32(bad[first:], uint32(v))
		t.Fault("length-damaged")
	}
	r := NewReader(t, bad)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	before := allocated()
	intact, at := 0, 0
	for ; intact < len(ms) && at+len(ms[intact].wire) <= first; intact++ {
		at += len(ms[intact].wire)
	}
	t.phase = "reading damaged messages"
	for i := 0; ; i++ {
		got, err := mongowire.ReadMessage(ctx, r)
		if i < intact {
			t.Check()
			if err != nil {
				t.Fail("refused", "message %d is intact, but: %v", i, err)
			}
			ms[i].same(t, got)
			continue
		}
		if err != nil {
			t.Probe("rejected")
			break
		}
		size := int(binary.LittleEndian.Uint32(bad[at:]))
		faithful(t, got, mongowire.OpType(binary.LittleEndian.Uint32(bad[at+12:])), bad[at+16:at+size])
		at += size
		settle(t, got)
	}
	wireMemory(t, before, len(bad)+len(all))
}

// c17parsed: bodies that belong to another operation, or to none.
func c17parsed(t *T) {
	op := wireOps[t.Int(len(wireOps))]
	if t.Chance(1, 20) {
		op = mongowire.OpType(t.Int(2020))
	}
	var body []byte
	switch t.Int(4) {
	case 0:
		if t.Chance(1, 4) {
			body = genWire(t, false).wire[16:]
			break
		}
		m := genWireOf(t, false, true, func() []byte { return hostileDoc(t) })
		op, body = m.op, m.wire[16:]
		if t.Chance(1, 6) { // cut, with a length that fits
			body = body[:t.Int(len(body)+1)]
			if t.Chance(1, 2) {
				body = m.wire[16 : len(m.wire)-t.Int(min(len(m.wire)-16, 12)+1)]
			}
		}
		if t.Chance(1, 4) && len(body) >= 4 { // a count or size that is not right
			at := t.Int(len(body)/4) * 4
			binary.LittleEndian.PutUint32(body[at:], uint32([]int{-1, -2, 0, 1, 3, 1 << 28, -1 << 31}[t.Int(7)]))
		}
	case 1:
		for i, n := 0, t.Int(60); i < n; i++ {
			body = append(body, []byte{0, 1, 2, 5, 16, 0xff, 0x7f, byte(t.Int(256))}[t.Int(8)])
		}
	case 2:
		for op != wireOP_MSG {
			op = wireOP_MSG
		}
		body = le32(uint32(t.Int(4)))
		for i, n := 0, t.Int(4); i < n; i++ {
			body = append(body, byte(t.Int(3)))
			switch t.Int(5) {
			case 0:
				body = append(body, rawDoc(t, 1)...)
			case 4: // a sequence that was cut, and its size adjusted
				body[len(body)-1] = 1
				seq := append(cstr("ident"), rawDoc(t, 1)...)
				seq = seq[:t.Int(len(seq)+1)]
				body = append(append(body, le32(uint32(4+len(seq)))...), seq...)
			case 1:
				body = append(body, le32(uint32(t.Int(40)-5))...)
				body = append(body, cstr("id")...)
				body = append(body, rawDoc(t, 1)...)
			case 2:
				body = append(body, le32(uint32(wireInt(t)))...)
			}
		}
	case 3:
		body = append(le32(uint32(wireInt(t))), cstr(wireNS[t.Int(len(wireNS))])...)
		for i, n := 0, t.Int(4); i < n; i++ {
			switch t.Int(3) {
			case 0:
				body = append(body, rawDoc(t, 1)...)
			case 1:
				body = append(body, le32(uint32(wireInt(t)))...)
			case 2:
				body = append(body, emptyDoc...)
			}
		}
	}
	t.Fault("foreign-body")
	h := mongowire.MessageHeader{Size: int32(16 + len(body)), RequestID: wireInt(t), OpCode: op}
	before := allocated()
	m, err := h.Parse(append([]byte(nil), body...))
	t.Check()
	if err == nil {
		faithful(t, m, op, body)
		settle(t, m)
	} else {
		t.Probe("rejected")
	}
	wireMemory(t, before, len(body))
}

// wireFlags are mostly those that the protocol defines.
func wireFlags(t *T) int32 {
	if t.Chance(1, 3) {
		return wireInt(t)
	}
	return int32(t.Int(16))
}
