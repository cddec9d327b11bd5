package conc

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/NodeBoy2/rtspclient/tcpnetwork"

	"verifharness/core"
	"verifharness/mc"
)

func init() {
	asm := []string{"goroutines switch only where the instrumentation places a point: channel and lock operations, accesses to fields, globals and captured variables touched by several threads, environment operations, and the harness's own steps",
		"in-memory transport, virtual clock; time passes when every thread is blocked"}
	core.Register(&core.Prop{ID: "C11", Run: c11, Assumptions: asm,
		Rule: "every schedule of each scenario (senders, closers, peer, connection routines) with at most k deviations from the default schedule; non-trivial: a run with at least two decisions"})
	core.Register(&core.Prop{ID: "C12", Run: c12, Assumptions: asm,
		Rule: "every schedule of each scenario (senders, closers, peer data and close, read and write errors, handler calls) with at most k deviations from the default schedule; non-trivial: a run with at least two decisions"})
}

// lenProto frames by a two-byte length; with ser it also sends that header.
type lenProto struct{ ser bool }

func (p *lenProto) Init()                {}
func (p *lenProto) GetHeaderLength() int { return 2 }
func (p *lenProto) UnserializeHeader(h []byte) (int, []byte) {
	n := int(h[0])<<8 | int(h[1])
	if n == 0 {
		return 0, []byte{}
	}
	return n, nil
}
func (p *lenProto) SerializeHeader(d []byte) []byte {
	if !p.ser {
		return nil
	}
	// the header names the message: its length and its first two bytes
	h := []byte{'H', byte(len(d) >> 16), byte(len(d) >> 8), byte(len(d)), 0, 0}
	copy(h[4:], d)
	return h
}
func (p *lenProto) GetContentLength([]byte) int { return 0 }

// badProto cannot bear a content that starts with '!'.
type badProto struct{ *lenProto }

func (p *badProto) GetContentLength(b []byte) int {
	if b[2] == '!' {
		panic("protocol")
	}
	return 0
}

func packet(b string) []byte { return append([]byte{byte(len(b) >> 8), byte(len(b))}, b...) }

// net is one connection with everything observable about it.
type netSys struct {
	m      *mc.Ctl
	conn   *core.Conn
	cn     *tcpnetwork.Connection
	proto  *lenProto
	mu     sync.Mutex
	evs    []core.NetEv
	stat   []int
	onEv   func(e *tcpnetwork.ConnEvent)
	fed    [][]byte
	calls  map[string]*callRec
	order  []string
	clock  int // orders call and return of API calls
	badDur error
}

type callRec struct {
	start, end int // 0: not yet
	msg        []byte
	sender     int
}

func newNet(m *mc.Ctl, queue int, ser bool) *netSys {
	n := &netSys{m: m, conn: core.NewConn(), proto: &lenProto{ser}, calls: map[string]*callRec{}}
	n.cn = tcpnetwork.NewConnection(n.conn, queue, func(e *tcpnetwork.ConnEvent) {
		mc.Step("event")
		n.mu.Lock()
		n.evs = append(n.evs, core.NetEv{Type: e.EventType, Data: e.Data, Conn: e.Conn})
		n.mu.Unlock()
		st := n.cn.GetStatus()
		n.mu.Lock()
		n.stat = append(n.stat, st)
		if st != tcpnetwork.ConnStatusConnected && n.conn.Closed() == 0 && n.badDur == nil && e.EventType != tcpnetwork.ConnEventDisconnected &&
			n.conn.FailWrite == 0 && n.conn.BlockWrite == nil && !n.closing() {
			n.badDur = fmt.Errorf("status %d while nothing ends the connection", st)
		}
		f := n.onEv
		n.mu.Unlock()
		if f != nil {
			f(e)
		}
	})
	n.cn.SetStreamProtocol(n.proto)
	return n
}

// call wraps an API call: it must return within the send timeout.
func (n *netSys) call(name string, sender int, msg []byte, f func()) {
	n.mu.Lock()
	n.clock++
	r := &callRec{start: n.clock, msg: append([]byte(nil), msg...), sender: sender}
	n.calls[name] = r
	n.order = append(n.order, name)
	n.mu.Unlock()
	t0 := time.Now()
	f()
	n.mu.Lock()
	n.clock++
	r.end = n.clock
	if d := time.Since(t0); d > 5*time.Second+time.Millisecond && n.badDur == nil {
		n.badDur = fmt.Errorf("%s blocked for %v", name, d)
	}
	n.mu.Unlock()
}

// msgOf makes a message that identifies its sender and number.
func msgOf(sender, seq, size int) []byte {
	b := core.Pattern(sender*16+seq, size)
	if size > 0 { // an empty message names nobody
		b[0], b[1] = byte('A'+sender), byte('0'+seq)
	}
	return b
}

func (n *netSys) send(sender, seq, size int, cp bool) {
	b := msgOf(sender, seq, size)
	n.call(fmt.Sprintf("send %c%d", 'A'+sender, seq), sender, b, func() { n.cn.Send(b, cp) })
	if cp {
		// the caller's buffer is the caller's again
		mc.Step("overwrite")
		for i := range b {
			b[i] = 0xee
		}
	}
}

// closing: some call to close has started (the caller holds the lock).
func (n *netSys) closing() bool {
	for _, r := range n.calls {
		if r.sender < 0 {
			return true
		}
	}
	return false
}

func (n *netSys) close(name string) { n.call("close "+name, -1, nil, n.cn.Close) }

func (n *netSys) feed(p string) {
	b := packet(p)
	n.mu.Lock()
	n.fed = append(n.fed, b)
	n.mu.Unlock()
	n.conn.Feed(b)
}

// events checks the order of what was reported. all: every packet fed must
// have been delivered.
func (n *netSys) events(all bool) error {
	if n.badDur != nil {
		return n.badDur
	}
	for _, k := range n.order {
		if n.calls[k].end == 0 {
			return fmt.Errorf("%s never returned", k)
		}
	}
	names := core.NetNames(n.evs)
	if len(n.evs) < 2 || n.evs[0].Type != tcpnetwork.ConnEventConnected || n.evs[len(n.evs)-1].Type != tcpnetwork.ConnEventDisconnected {
		return fmt.Errorf("events: %q, want connected ... disconnected", names)
	}
	k := 0
	for i, e := range n.evs {
		if e.Conn != n.cn {
			return fmt.Errorf("event %d of another connection", i)
		}
		if i > 0 && i < len(n.evs)-1 {
			if e.Type != tcpnetwork.ConnEventData {
				return fmt.Errorf("events: %q", names)
			}
			if k >= len(n.fed) || !bytes.Equal(e.Data, n.fed[k]) {
				return fmt.Errorf("data event %d is %q, packets sent %q", k, e.Data, n.fed)
			}
			k++
		}
	}
	if all && k != len(n.fed) {
		return fmt.Errorf("%d of %d packets delivered before the peer's close", k, len(n.fed))
	}
	if s := n.stat[len(n.stat)-1]; s != tcpnetwork.ConnStatusDisconnected {
		return fmt.Errorf("status %d at the disconnected event", s)
	}
	if n.cn.GetStatus() != tcpnetwork.ConnStatusDisconnected {
		return fmt.Errorf("status %d at the end", n.cn.GetStatus())
	}
	if n.conn.Closed() == 0 {
		return errors.New("the transport is not closed")
	}
	if n.m.Live() != 0 {
		return fmt.Errorf("%d routines still running", n.m.Live())
	}
	return nil
}

// wire checks what reached the transport. A message must be there when must
// says so; each at most once, whole, in its sender's order, with its header.
// A partial message may only be the last thing when partial is set.
func (n *netSys) wire(must func(name string, r *callRec) bool, partial bool) error {
	w := n.conn.Wire()
	next := map[int]int{} // sender -> next acceptable index in its order
	sent := map[string]bool{}
	bySender := map[int][]string{}
	for _, k := range n.order {
		if r := n.calls[k]; r.sender >= 0 {
			bySender[r.sender] = append(bySender[r.sender], k)
		}
	}
	for len(w) > 0 {
		found := ""
		for s, names := range bySender {
			for i := next[s]; i < len(names); i++ {
				r := n.calls[names[i]]
				full := r.msg
				if n.proto.ser {
					full = append(n.proto.SerializeHeader(r.msg), r.msg...)
				}
				if len(full) > 0 && bytes.HasPrefix(w, full) {
					found = names[i]
					next[s] = i + 1
					w = w[len(full):]
					break
				}
			}
			if found != "" {
				break
			}
		}
		if found == "" {
			if partial {
				for _, names := range bySender {
					for _, k := range names {
						r := n.calls[k]
						full := r.msg
						if n.proto.ser {
							full = append(n.proto.SerializeHeader(r.msg), r.msg...)
						}
						if !sent[k] && bytes.HasPrefix(full, w) {
							w = nil
						}
					}
				}
				if len(w) == 0 {
					break
				}
			}
			return fmt.Errorf("the transport has %s where a message is expected (after %v)", core.Hex(w), sent)
		}
		sent[found] = true
	}
	for _, k := range n.order {
		r := n.calls[k]
		if r.sender < 0 {
			continue
		}
		if len(r.msg) == 0 && !n.proto.ser {
			continue // leaves no trace
		}
		if !sent[k] && must(k, r) {
			return fmt.Errorf("%s was accepted but not sent (sent: %v)", k, sent)
		}
	}
	return nil
}

// beforeClose: the call returned before any close was called.
func (n *netSys) beforeClose(name string, r *callRec) bool {
	for _, k := range n.order {
		if c := n.calls[k]; c.sender < 0 && c.start < r.end {
			return false
		}
	}
	return r.end != 0
}

func always(string, *callRec) bool { return true }
func never(string, *callRec) bool  { return false }

func c11(c *core.Ctx) {
	var scs []*scenario
	add := func(name string, setup func(m *mc.Ctl) func() error) {
		scs = append(scs, &scenario{name: name, setup: setup})
	}

	for _, ser := range []bool{true, false} {
		for _, q := range []int{0, 1, 4} {
			ser, q := ser, q
			tag := fmt.Sprintf(" (queue %d, header %v)", q, ser)
			if q == 4 || !ser {
				// all accepted, then closed
				add("two senders, then close"+tag, func(m *mc.Ctl) func() error {
					n := newNet(m, q, ser)
					n.cn.Run()
					var wg sync.WaitGroup
					wg.Add(2)
					for s := 0; s < 2; s++ {
						mc.GoNamed("sender", func() {
							n.send(s, 0, 5+s, true)
							n.send(s, 1, 7+s, s == 0)
							wg.Done()
						})
					}
					mc.GoNamed("closer", func() { wg.Wait(); n.close("1") })
					return func() error {
						if err := n.wire(always, false); err != nil {
							return err
						}
						return n.events(true)
					}
				})
			}
			add("one message each, then close"+tag, func(m *mc.Ctl) func() error {
				n := newNet(m, q, ser)
				n.cn.Run()
				var wg sync.WaitGroup
				wg.Add(2)
				for s := 0; s < 2; s++ {
					mc.GoNamed("sender", func() { n.send(s, 0, 5, s == 0); wg.Done() })
				}
				mc.GoNamed("closer", func() { wg.Wait(); n.close("1") })
				return func() error {
					if err := n.wire(always, false); err != nil {
						return err
					}
					return n.events(true)
				}
			})
			if q > 0 || ser {
				add("sender against close"+tag, func(m *mc.Ctl) func() error {
					n := newNet(m, q, ser)
					n.cn.Run()
					mc.GoNamed("sender", func() {
						for i := 0; i < 3; i++ {
							n.send(0, i, 4+i, true)
						}
					})
					mc.GoNamed("closer", func() { mc.Step("x"); n.close("1") })
					return func() error {
						if err := n.wire(n.beforeClose, false); err != nil {
							return err
						}
						return n.events(true)
					}
				})
			}
		}
	}
	add("three senders against two closes", func(m *mc.Ctl) func() error {
		n := newNet(m, 2, true)
		n.cn.Run()
		for s := 0; s < 3; s++ {
			mc.GoNamed("sender", func() { n.send(s, 0, 9, s != 1) })
		}
		for k := 0; k < 2; k++ {
			mc.GoNamed("closer", func() { mc.Step("x"); n.close(fmt.Sprint(k)) })
		}
		return func() error {
			if err := n.wire(n.beforeClose, false); err != nil {
				return err
			}
			return n.events(true)
		}
	})
	add("sent by the starting thread, then closed", func(m *mc.Ctl) func() error {
		n := newNet(m, 8, true)
		mc.GoNamed("user", func() {
			n.cn.Run()
			for i := 0; i < 3; i++ {
				n.send(0, i, 6, true)
			}
			n.close("1")
		})
		return func() error {
			if err := n.wire(always, false); err != nil {
				return err
			}
			return n.events(true)
		}
	})
	for _, ser := range []bool{true, false} {
		for _, q := range []int{0, 2} {
			add(fmt.Sprintf("empty messages between others (queue %d, header %v)", q, ser), func(m *mc.Ctl) func() error {
				n := newNet(m, q, ser)
				n.cn.Run()
				var wg sync.WaitGroup
				wg.Add(2)
				mc.GoNamed("sender", func() {
					n.send(0, 0, 4, true)
					n.send(0, 1, 0, q == 0)
					n.send(0, 2, 5, true)
					wg.Done()
				})
				mc.GoNamed("sender", func() {
					if !ser { // else its header could be the other's
						n.send(1, 0, 0, true)
					}
					n.send(1, 1, 4, true)
					wg.Done()
				})
				mc.GoNamed("closer", func() { wg.Wait(); n.close("1") })
				return func() error {
					if err := n.wire(always, false); err != nil {
						return err
					}
					return n.events(true)
				}
			})
		}
	}
	add("the handler sends too", func(m *mc.Ctl) func() error {
		n := newNet(m, 1, true)
		k := 0
		n.onEv = func(e *tcpnetwork.ConnEvent) {
			switch e.EventType {
			case tcpnetwork.ConnEventConnected:
				n.send(1, 0, 5, true)
			case tcpnetwork.ConnEventData:
				k++
				n.send(1, k, 5, false)
			}
		}
		n.cn.Run()
		mc.GoNamed("peer", func() { n.feed("ab"); mc.Step("x"); n.feed("c") })
		mc.GoNamed("sender", func() { n.send(0, 0, 5, true); n.send(0, 1, 6, true) })
		return func() error {
			if err := n.wire(always, false); err != nil {
				return err
			}
			n.conn.EOF(io.EOF)
			time.Sleep(time.Second)
			return n.events(true)
		}
	})
	for _, size := range []int{65536, 70000}[map[bool]int{true: 0, false: 1}[c.Thorough()]:] {
		add(fmt.Sprintf("messages of %d bytes", size), func(m *mc.Ctl) func() error {
			n := newNet(m, 1, true)
			n.cn.Run()
			var wg sync.WaitGroup
			wg.Add(2)
			mc.GoNamed("big", func() { n.send(0, 0, size, true); n.send(0, 1, 3, true); wg.Done() })
			mc.GoNamed("small", func() { n.send(1, 0, 3, true); wg.Done() })
			mc.GoNamed("closer", func() { wg.Wait(); n.close("1") })
			return func() error {
				if err := n.wire(always, false); err != nil {
					return err
				}
				return n.events(true)
			}
		})
	}
	add("the peer reads late", func(m *mc.Ctl) func() error {
		n := newNet(m, 1, true)
		gate := make(chan struct{})
		n.conn.BlockWrite = gate
		n.cn.Run()
		var wg sync.WaitGroup
		wg.Add(2)
		for s := 0; s < 2; s++ {
			mc.GoNamed("sender", func() { n.send(s, 0, 4, true); n.send(s, 1, 4, true); wg.Done() })
		}
		mc.GoNamed("peer", func() { time.Sleep(4 * time.Second); mc.Step("x"); close(gate) })
		mc.GoNamed("closer", func() { wg.Wait(); n.close("1") })
		return func() error {
			if err := n.wire(always, false); err != nil {
				return err
			}
			return n.events(true)
		}
	})
	add("a write error ends it", func(m *mc.Ctl) func() error {
		n := newNet(m, 2, true)
		n.conn.FailWrite, n.conn.ShortFail = 4, true
		n.cn.Run()
		for s := 0; s < 2; s++ {
			mc.GoNamed("sender", func() { n.send(s, 0, 6, true); n.send(s, 1, 6, true) })
		}
		return func() error {
			if err := n.wire(never, true); err != nil {
				return err
			}
			return n.events(true)
		}
	})
	runAll(c, scs, 20000, 150000)
}

func c12(c *core.Ctx) {
	var scs []*scenario
	add := func(name string, setup func(m *mc.Ctl) func() error) {
		scs = append(scs, &scenario{name: name, setup: setup})
	}

	add("sends against data and the peer's close", func(m *mc.Ctl) func() error {
		n := newNet(m, 1, true)
		n.cn.Run()
		mc.GoNamed("sender", func() { n.send(0, 0, 4, true); n.send(0, 1, 4, true) })
		mc.GoNamed("peer", func() {
			n.feed("one")
			mc.Step("x")
			n.feed("two")
			mc.Step("x")
			n.conn.EOF(io.EOF)
		})
		return func() error { return n.events(true) }
	})
	add("send, close and data", func(m *mc.Ctl) func() error {
		n := newNet(m, 1, false)
		n.cn.Run()
		mc.GoNamed("sender", func() { n.send(0, 0, 4, true) })
		mc.GoNamed("closer", func() { n.close("1") })
		mc.GoNamed("peer", func() { n.feed("one"); mc.Step("x"); n.feed("two") })
		return func() error { return n.events(false) }
	})
	for _, q := range []int{0, 1, 2} {
		add(fmt.Sprintf("two closes, a send and the peer's close (queue %d)", q), func(m *mc.Ctl) func() error {
			n := newNet(m, q, false)
			n.cn.Run()
			mc.GoNamed("closer", func() { n.close("1") })
			mc.GoNamed("closer", func() { n.close("2") })
			mc.GoNamed("sender", func() { n.send(0, 0, 4, true) })
			mc.GoNamed("peer", func() { mc.Step("x"); n.conn.EOF(io.EOF) })
			return func() error { return n.events(true) }
		})
	}
	for _, k := range []int{1, 2, 3} {
		add(fmt.Sprintf("write %d fails, against senders and close", k), func(m *mc.Ctl) func() error {
			n := newNet(m, 1, true)
			n.conn.FailWrite, n.conn.ShortFail = k, k == 2
			n.cn.Run()
			mc.GoNamed("sender", func() { n.send(0, 0, 4, true); n.send(0, 1, 4, true) })
			mc.GoNamed("sender", func() { n.send(1, 0, 4, true) })
			if k == 1 {
				mc.GoNamed("closer", func() { n.close("1") })
			}
			mc.GoNamed("peer", func() { n.feed("one") })
			return func() error { return n.events(false) }
		})
	}
	add("a read error inside a packet, against send and close", func(m *mc.Ctl) func() error {
		n := newNet(m, 1, false)
		n.cn.Run()
		mc.GoNamed("peer", func() {
			n.feed("one")
			mc.Step("x")
			n.conn.Feed(packet("partial")[:4])
			mc.Step("x")
			n.conn.EOF(errors.New("reset by peer"))
		})
		mc.GoNamed("sender", func() { n.send(0, 0, 4, true) })
		mc.GoNamed("closer", func() { n.close("1") })
		return func() error { return n.events(false) }
	})
	for _, when := range []int{tcpnetwork.ConnEventConnected, tcpnetwork.ConnEventData, tcpnetwork.ConnEventDisconnected} {
		for _, what := range []string{"closes", "sends", "closes twice", "sends and closes"} {
			if what == "closes twice" && when != tcpnetwork.ConnEventData {
				continue
			}
			add(fmt.Sprintf("the handler %s when %s", what, core.NetName(when)), func(m *mc.Ctl) func() error {
				n := newNet(m, 1, false)
				n.onEv = func(e *tcpnetwork.ConnEvent) {
					if e.EventType != when {
						return
					}
					k := len(n.evs)
					switch what {
					case "closes":
						n.close(fmt.Sprint("h", k))
					case "closes twice":
						n.close(fmt.Sprint("h", k))
						n.close(fmt.Sprint("i", k))
					case "sends":
						n.send(1, k, 4, true)
					default:
						n.send(1, k, 4, true)
						n.close(fmt.Sprint("h", k))
					}
				}
				n.cn.Run()
				mc.GoNamed("sender", func() { n.send(0, 0, 4, true) })
				mc.GoNamed("peer", func() { n.feed("one"); mc.Step("x"); n.conn.EOF(io.EOF) })
				return func() error { return n.events(false) }
			})
		}
	}
	// a panic ends it like a read error
	for _, when := range []int{tcpnetwork.ConnEventConnected, tcpnetwork.ConnEventData, 0} {
		name := "the protocol panics"
		if when != 0 {
			name = "the handler panics when " + core.NetName(when)
		}
		add(name, func(m *mc.Ctl) func() error {
			n := newNet(m, 1, false)
			n.onEv = func(e *tcpnetwork.ConnEvent) {
				if e.EventType == when {
					panic("handler")
				}
			}
			if when == 0 {
				n.cn.SetStreamProtocol(&badProto{n.proto})
			}
			n.cn.Run()
			mc.GoNamed("sender", func() { n.send(0, 0, 4, true); n.send(0, 1, 4, true) })
			mc.GoNamed("closer", func() { mc.Step("x"); n.close("1") })
			mc.GoNamed("peer", func() { n.feed("one"); n.feed("!"); n.feed("two") })
			return func() error { return n.events(false) }
		})
	}
	// the peer stops reading: senders wait, time out and close it
	for _, q := range []int{0, 1} {
		add(fmt.Sprintf("the peer stops reading (queue %d)", q), func(m *mc.Ctl) func() error {
			n := newNet(m, q, false)
			n.conn.BlockWrite = make(chan struct{})
			n.cn.Run()
			mc.GoNamed("sender", func() { n.send(0, 0, 4, true); n.send(0, 1, 4, true) })
			mc.GoNamed("sender", func() { n.send(1, 0, 4, true) })
			mc.GoNamed("closer", func() { mc.Step("x"); n.close("1") })
			return func() error { return n.events(true) }
		})
		add(fmt.Sprintf("the peer stops reading, then closes (queue %d)", q), func(m *mc.Ctl) func() error {
			n := newNet(m, q, true)
			n.conn.BlockWrite = make(chan struct{})
			n.cn.Run()
			mc.GoNamed("sender", func() { n.send(0, 0, 4, true); n.send(0, 1, 4, true); n.send(0, 2, 4, true) })
			mc.GoNamed("peer", func() { n.feed("one"); time.Sleep(5 * time.Second); mc.Step("x"); n.conn.EOF(io.EOF) })
			return func() error { return n.events(true) }
		})
	}
	add("closed right after the start", func(m *mc.Ctl) func() error {
		n := newNet(m, 1, false)
		mc.GoNamed("user", func() { n.cn.Run(); n.close("1"); n.send(0, 0, 4, true); n.close("2") })
		mc.GoNamed("peer", func() { n.feed("one") })
		return func() error { return n.events(false) }
	})
	add("the peer has already closed", func(m *mc.Ctl) func() error {
		n := newNet(m, 0, false)
		n.feed("one")
		n.conn.EOF(io.EOF)
		n.cn.Run()
		mc.GoNamed("sender", func() { n.send(0, 0, 4, true); n.close("1") })
		mc.GoNamed("closer", func() { n.close("2"); n.send(1, 0, 4, true) })
		return func() error { return n.events(false) }
	})
	add("a read timeout against send and close", func(m *mc.Ctl) func() error {
		n := newNet(m, 1, false)
		n.cn.SetReadTimeoutSec(3)
		n.cn.Run()
		mc.GoNamed("peer", func() { n.feed("one"); n.conn.Feed(packet("half")[:3]) })
		mc.GoNamed("sender", func() { time.Sleep(3 * time.Second); n.send(0, 0, 4, true) })
		mc.GoNamed("closer", func() { time.Sleep(3 * time.Second); n.close("1") })
		return func() error { return n.events(false) }
	})
	runAll(c, scs, 60000, 600000)
}
