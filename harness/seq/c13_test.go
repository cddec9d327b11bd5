package seq

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/NodeBoy2/rtspclient/tcpnetwork"

	"verifharness/core"
)

// fp is a stream protocol made of fixed rules: a header of hl bytes whose last
// bytes give the body length, or a terminator, then optional content.
type fp struct {
	name string
	hl   int
	mark []byte // nil: the body length is in the header
	// content length, told by the packet's header and body
	content func(b []byte) int
	inits   int
}

func (p *fp) Init()                           { p.inits++ }
func (p *fp) GetHeaderLength() int            { return p.hl }
func (p *fp) SerializeHeader(m []byte) []byte { return nil }
func (p *fp) UnserializeHeader(h []byte) (int, []byte) {
	if p.mark != nil {
		return 0, p.mark
	}
	n := 0
	for _, x := range h {
		n = n<<8 | int(x)
	}
	if p.hl > 2 {
		n = int(h[p.hl-2])<<8 | int(h[p.hl-1])
		if p.hl == 4 {
			n |= int(h[1]) << 16
		}
	}
	if n == 0 {
		return 0, []byte{}
	}
	return n, nil
}
func (p *fp) GetContentLength(b []byte) int {
	if p.content == nil {
		return 0
	}
	return p.content(b)
}

// unit builds one packet: body (without its terminator) and content.
func (p *fp) unit(tag byte, body, content []byte) []byte {
	var r []byte
	if p.mark != nil {
		for i := 0; i < p.hl; i++ {
			r = append(r, tag+byte(i))
		}
		r = append(r, body...)
		r = append(r, p.mark...)
		return append(r, content...)
	}
	n := len(body)
	switch p.hl {
	case 1:
		r = []byte{byte(n)}
	case 2:
		r = []byte{byte(n >> 8), byte(n)}
	case 3:
		r = []byte{tag, byte(n >> 8), byte(n)}
	case 4:
		r = []byte{tag, byte(n >> 16), byte(n >> 8), byte(n)}
	}
	r = append(r, body...)
	return append(r, content...)
}

func init() {
	core.Register(&core.Prop{
		ID: "C13",
		Rule: "stream protocols: header lengths 0..4, body length or terminator (also self-overlapping ones), with and without content, times every sequence of packets up to the bound, " +
			"times every cut; the end, an error and silence at every byte; non-trivial: the cut, end or silence is inside a packet",
		Assumptions: []string{"packets fit the 64 KiB packet buffer (longer ones must disconnect)", "silence is measured on a virtual clock"},
		Run:         c13,
	})
}

func c13(c *core.Ctx) {
	var protos []*fp
	var alpha [][][]byte // packets per protocol
	add := func(p *fp, u ...[]byte) { protos = append(protos, p); alpha = append(alpha, u) }
	b := func(s string) []byte { return []byte(s) }
	for hl := 1; hl <= 4; hl++ {
		p := &fp{name: fmt.Sprintf("len%d", hl), hl: hl}
		add(p, p.unit('t', nil, nil), p.unit('u', b("x"), nil), p.unit('v', b("\x00\x01\x02\x03"), nil))
		// content as long as the first body byte says
		q := &fp{name: fmt.Sprintf("len%d+content", hl), hl: hl}
		q.content = func(m []byte) int {
			if len(m) <= q.hl {
				return 0
			}
			return int(m[q.hl])
		}
		add(q, q.unit('t', nil, nil), q.unit('u', []byte{0, 9}, nil), q.unit('v', []byte{3}, b("\x01\x02\x03")), q.unit('w', []byte{1, 2}, b("\x00")))
	}
	for hl := 0; hl <= 4; hl++ {
		for _, mk := range []string{"\n", "aab", "\r\n\r\n", "aa", "abab"} {
			p := &fp{name: fmt.Sprintf("hdr%d mark %q", hl, mk), hl: hl, mark: b(mk)}
			us := [][]byte{p.unit('q', nil, nil)}
			for _, body := range []string{"z", "ab", "a", "\r\n", "b\r\n\ra", "aba", "ba"} {
				// the terminator ends at its first occurrence
				if i := bytes.Index(append(b(body), p.mark...), p.mark); i != len(body) {
					continue
				}
				us = append(us, p.unit('r', b(body), nil))
			}
			add(p, us...)
		}
		q := &fp{name: fmt.Sprintf("hdr%d mark+content", hl), hl: hl, mark: b("\r\n\r\n")}
		q.content = func(m []byte) int { return bytes.Count(m[q.hl:], b("c")) * 2 }
		add(q, q.unit('q', nil, nil), q.unit('r', b("c"), b("\r\n")), q.unit('s', b("c\r\ncx"), b("\r\n\r\n")), q.unit('s', b("zz"), nil))
	}
	maxSeq, twoCut := 3, 2
	if c.Thorough() {
		maxSeq, twoCut = 4, 3
	}
	c.Bound("protocols", len(protos))
	c.Bound("sequence_length_one_cut", maxSeq)
	c.Bound("sequence_length_two_cuts", twoCut)

	c.Group("cuts")
	for pi, p := range protos {
		a := alpha[pi]
		ms := maxSeq
		if len(a) > 5 && !c.Thorough() {
			ms = 2
		}
		core.Tuples(len(a), 1, ms, func(t []int) {
			if c.Stop() {
				return
			}
			var units [][]byte
			for _, i := range t {
				units = append(units, a[i])
			}
			st := join(units)
			name := fmt.Sprintf("%s packets %v", p.name, t)
			c.State(name)
			run := func(segs [][]byte) {
				c.Do(func() string { return name + " cut " + core.SegLens(segs) }, func() error {
					c.Nontrivial()
					c.Trans(len(segs))
					c.Outcome(fmt.Sprintf("%s: %d units", p.name, len(units)))
					q := *p
					if err := runNet(c, &q, segs, units, io.EOF); err != nil {
						return err
					}
					if q.inits != 1 {
						return fmt.Errorf("the protocol was initialised %d times", q.inits)
					}
					return nil
				})
			}
			run(core.Cut(st))
			run(core.Bytewise(st))
			for i := 1; i < len(st); i++ {
				run(core.Cut(st, i))
				if len(t) <= twoCut {
					for j := i + 1; j < len(st); j++ {
						run(core.Cut(st, i, j))
					}
				}
			}
		})
	}

	// the stream ends, fails or goes silent at every byte
	ends := []struct {
		name string
		err  error
	}{{"end", io.EOF}, {"reset", errors.New("connection reset by peer")}, {"unexpected end", io.ErrUnexpectedEOF}}
	c.Group("ends")
	for pi, p := range protos {
		a := alpha[pi]
		core.Tuples(len(a), 1, 2, func(t []int) {
			if c.Stop() {
				return
			}
			var units [][]byte
			for _, i := range t {
				units = append(units, a[i])
			}
			st := join(units)
			for k := 0; k <= len(st); k++ {
				k := k
				for _, e := range ends {
					e := e
					c.Do(func() string { return fmt.Sprintf("%s packets %v, %s after %d bytes", p.name, t, e.name, k) }, func() error {
						c.Nontrivial()
						q := *p
						return runNet(c, &q, core.Cut(st[:k]), units, e.err)
					})
				}
				for _, sil := range []time.Duration{1500 * time.Millisecond, 3500 * time.Millisecond} {
					sil := sil
					c.Do(func() string {
						return fmt.Sprintf("%s packets %v, silent for %v after %d bytes, read timeout 3 s", p.name, t, sil, k)
					}, func() error {
						q := *p
						return silence(c, &q, st, k, units, sil)
					})
				}
			}
		})
	}

	// slow packets: every part has the whole read timeout, and no more
	c.Group("slow")
	for pi, p := range protos {
		a := alpha[pi]
		depth := 1
		if c.Thorough() || len(a) <= 4 {
			depth = 2
		}
		core.Tuples(len(a), 1, depth, func(t []int) {
			if c.Stop() {
				return
			}
			var units [][]byte
			var parts []int // which part a byte belongs to
			var start []bool
			k := 0
			for _, i := range t {
				u := a[i]
				units = append(units, u)
				for j, n := range p.parts(u) {
					for b := 0; b < n; b++ {
						parts = append(parts, 3*k+j)
						start = append(start, len(start) == 0 || parts[len(parts)-1] != parts[len(parts)-2])
					}
				}
				k++
			}
			st := join(units)
			for i := 0; i < len(st); i++ {
				for j := i + 1; j < len(st); j++ {
					if parts[i] == parts[j] && start[i] && parts[i]%3 == 0 {
						continue // partly silence between packets
					}
					c.Do(func() string {
						return fmt.Sprintf("%s packets %v, 2 s of silence after %d and after %d bytes, read timeout 3 s", p.name, t, i, j)
					}, func() error {
						c.Nontrivial()
						q := *p
						fail := parts[i] == parts[j]
						return slow(c, &q, [][]byte{st[:i], st[i:j], st[j:]}, units, parts[i]/3, fail)
					})
				}
			}
		})
	}

	// sizes around the limits
	c.Group("sizes")
	for hl := 2; hl <= 4; hl++ {
		for _, n := range []int{1, 255, 256, 257, 4095, 4096, 4097, 32768, 65533, 65534, 65535} {
			for _, cut := range []int{0, 1, hl, hl + 1, hl + n/2, hl + n - 1} {
				hl, n, cut := hl, n, cut
				c.Do(func() string { return fmt.Sprintf("len%d body of %d cut at %d", hl, n, cut) }, func() error {
					p := &fp{hl: hl}
					units := [][]byte{p.unit('a', core.Pattern(1, n), nil), p.unit('b', b("yy"), nil)}
					return runNet(c, p, core.Cut(join(units), cut), units, io.EOF)
				})
			}
		}
	}
	for hl := 0; hl <= 4; hl++ {
		for _, n := range []int{1, 255, 4096, 65530 - hl, 65533 - hl} {
			hl, n := hl, n
			c.Do(func() string { return fmt.Sprintf("hdr%d terminated body of %d", hl, n) }, func() error {
				p := &fp{hl: hl, mark: b("\r\n")}
				body := bytes.Repeat([]byte{'\r'}, n)
				if n%2 == 0 {
					body = bytes.Repeat([]byte{'\n'}, n)
				} else {
					body[n-1] = 'x'
				}
				units := [][]byte{p.unit('a', body, nil), p.unit('b', b("yy"), nil)}
				st := join(units)
				return runNet(c, p, core.Cut(st, hl, hl+n, hl+n+1), units, io.EOF)
			})
		}
		for _, cl := range []int{1, 255, 4096, 65000, 65525, 65532 - hl, 65532} {
			hl, cl := hl, cl
			c.Do(func() string { return fmt.Sprintf("hdr%d content of %d", hl, cl) }, func() error {
				p := &fp{hl: hl, mark: b("\r\n"), content: func(m []byte) int {
					if bytes.Contains(m, b("C")) {
						return cl
					}
					return 0
				}}
				units := [][]byte{p.unit('a', b("C"), core.Pattern(3, cl)), p.unit('b', b("yy"), nil)}
				st := join(units)
				return runNet(c, p, core.Cut(st, hl+3, hl+3+cl/2, hl+3+cl), units, io.EOF)
			})
		}
	}
	// a protocol which gives neither a length nor a terminator takes what there is
	c.Group("raw")
	for hl := 0; hl <= 4; hl++ {
		st := []byte("stream\x00of bytes")[:9]
		for mask := 0; mask < 1<<8; mask++ {
			for _, e := range ends {
				hl, mask, e := hl, mask, e
				c.Do(func() string { return fmt.Sprintf("raw, header of %d, cut mask %#x, %s", hl, mask, e.name) }, func() error {
					if mask != 0 {
						c.Nontrivial()
					}
					var segs [][]byte
					a := 0
					for i := 1; i <= len(st); i++ {
						if i == len(st) || mask>>(i-1)&1 == 1 {
							segs = append(segs, st[a:i])
							a = i
						}
					}
					c.Trans(len(segs))
					return raw(c, hl, segs, e.err)
				})
			}
		}
	}
	for hl := 0; hl <= 4; hl++ {
		for k := 0; k <= 6; k++ {
			hl, k := hl, k
			c.Do(func() string { return fmt.Sprintf("raw, header of %d, silent after %d bytes", hl, k) }, func() error {
				return raw(c, hl, [][]byte{[]byte("silent")[:k]}, nil)
			})
		}
	}
	for _, n := range []int{65535, 65536, 65539, 65540, 140000} {
		n := n
		c.Do(func() string { return fmt.Sprintf("raw, %d bytes at once", n) }, func() error {
			for hl := 0; hl <= 4; hl++ {
				if err := raw(c, hl, [][]byte{core.Pattern(5, n)}, io.EOF); err != nil {
					return err
				}
			}
			return nil
		})
	}

	// packets which cannot be held must disconnect, with the ones before delivered
	c.Group("too-long")
	for _, n := range []int{65536, 65537, 70000, 1 << 20, 1<<24 - 1} {
		n := n
		c.Do(func() string { return fmt.Sprintf("len4 body of %d", n) }, func() error {
			p := &fp{hl: 4}
			return tooLong(c, p, p.unit('a', b("ok"), nil), []byte{'b', byte(n >> 16), byte(n >> 8), byte(n)})
		})
		c.Do(func() string { return fmt.Sprintf("unterminated body of %d", n) }, func() error {
			p := &fp{hl: 1, mark: b("\n")}
			return tooLong(c, p, p.unit('a', b("ok"), nil), bytes.Repeat(b("x"), n))
		})
		c.Do(func() string { return fmt.Sprintf("content of %d", n) }, func() error {
			p := &fp{hl: 1, mark: b("\n"), content: func(m []byte) int {
				if bytes.Contains(m, b("C")) {
					return n
				}
				return 0
			}}
			return tooLong(c, p, p.unit('a', b("ok"), nil), b("bC\n"))
		})
	}
}

// rawP gives neither a length nor a terminator.
type rawP struct{ fp }

func (p *rawP) UnserializeHeader(h []byte) (int, []byte) { return 0, nil }

// raw feeds the segments and ends the stream; without an error it goes silent,
// with a read timeout.
func raw(c *core.Ctx, hl int, segs [][]byte, end error) error {
	return core.Bubble(c.T, func() error {
		conn := core.NewConn()
		var evs []core.NetEv
		lost := 0
		cn := tcpnetwork.NewConnection(conn, 8, func(e *tcpnetwork.ConnEvent) {
			if len(evs) > 2000 {
				panic("too many events")
			}
			if e.EventType == tcpnetwork.ConnEventDisconnected {
				lost++
			}
			evs = append(evs, core.NetEv{Type: e.EventType, Data: e.Data, Conn: e.Conn})
		})
		if end == nil {
			cn.SetReadTimeoutSec(3)
		}
		cn.SetStreamProtocol(&rawP{fp{hl: hl}})
		cn.Run()
		core.Quiesce()
		var fed []byte
		got := func() []byte {
			var r []byte
			for _, e := range evs {
				r = append(r, e.Data...)
			}
			return r
		}
		for i, s := range segs {
			conn.Feed(s)
			core.Quiesce()
			fed = append(fed, s...)
			g := got()
			if !bytes.HasPrefix(fed, g) || len(g)+hl < len(fed) {
				return fmt.Errorf("after segment %d: %q delivered of %q", i, short(g), short(fed))
			}
		}
		if end == nil {
			time.Sleep(7 * time.Second)
		} else {
			conn.EOF(end)
		}
		core.Quiesce()
		g := got()
		if !bytes.HasPrefix(fed, g) || len(g)+hl < len(fed) {
			return fmt.Errorf("%q delivered of %q", short(g), short(fed))
		}
		if lost != 1 || evs[len(evs)-1].Type != tcpnetwork.ConnEventDisconnected {
			return fmt.Errorf("events %.200s", core.NetNames(evs))
		}
		c.Outcome(fmt.Sprintf("raw: %d events", min(len(evs), 12)))
		return nil
	})
}

func short(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

// parts are the lengths of a packet's header, body and content.
func (p *fp) parts(u []byte) [3]int {
	body := 0
	if p.mark != nil {
		body = bytes.Index(u[p.hl:], p.mark) + len(p.mark)
	} else {
		q := *p
		body, _ = q.UnserializeHeader(u[:p.hl])
	}
	return [3]int{p.hl, body, len(u) - p.hl - body}
}

// slow feeds three segments with 2 s between them; with fail, the packet at
// index at is too slow.
func slow(c *core.Ctx, p *fp, segs [][]byte, units [][]byte, at int, fail bool) error {
	return core.Bubble(c.T, func() error {
		conn := core.NewConn()
		var evs []core.NetEv
		cn := tcpnetwork.NewConnection(conn, 8, func(e *tcpnetwork.ConnEvent) {
			evs = append(evs, core.NetEv{Type: e.EventType, Data: e.Data, Conn: e.Conn})
		})
		cn.SetReadTimeoutSec(3)
		cn.SetStreamProtocol(p)
		cn.Run()
		for i, s := range segs {
			if i > 0 {
				time.Sleep(2 * time.Second)
			}
			conn.Feed(s)
			core.Quiesce()
		}
		conn.EOF(io.EOF)
		core.Quiesce()
		want := units
		if fail {
			want = units[:at]
		}
		var got [][]byte
		for i, e := range evs {
			switch {
			case i == 0 && e.Type == tcpnetwork.ConnEventConnected:
			case i == len(evs)-1 && e.Type == tcpnetwork.ConnEventDisconnected:
			case i > 0 && i < len(evs)-1 && e.Type == tcpnetwork.ConnEventData:
				got = append(got, e.Data)
			default:
				return fmt.Errorf("events %s", core.NetNames(evs))
			}
		}
		c.Outcome(fmt.Sprintf("slow %v: %d units", fail, len(got)))
		return core.SameBytes(got, want)
	})
}

// silence feeds the first k bytes, waits, then feeds the rest.
func silence(c *core.Ctx, p *fp, st []byte, k int, units [][]byte, sil time.Duration) error {
	return core.Bubble(c.T, func() error {
		conn := core.NewConn()
		var evs []core.NetEv
		cn := tcpnetwork.NewConnection(conn, 8, func(e *tcpnetwork.ConnEvent) {
			evs = append(evs, core.NetEv{Type: e.EventType, Data: e.Data, Conn: e.Conn})
		})
		cn.SetReadTimeoutSec(3)
		if cn.GetReadTimeoutSec() != 3 {
			return fmt.Errorf("read timeout %d, set 3", cn.GetReadTimeoutSec())
		}
		cn.SetStreamProtocol(p)
		cn.Run()
		core.Quiesce()
		conn.Feed(st[:k])
		core.Quiesce()
		time.Sleep(sil)
		core.Quiesce()
		inside, off, full := true, 0, 0
		for _, u := range units {
			if off == k {
				inside = false
			}
			if off += len(u); off <= k {
				full++
			}
		}
		if off == k {
			inside = false
		}
		var want [][]byte
		wantEnd := false
		if sil < 3*time.Second {
			// short: nothing is lost
			if n := len(evs); n > 0 && evs[n-1].Type == tcpnetwork.ConnEventDisconnected {
				return fmt.Errorf("disconnected after %v of silence", sil)
			}
			conn.Feed(st[k:])
			core.Quiesce()
			want = units
		} else if inside {
			c.Nontrivial()
			want, wantEnd = units[:full], true
		} else {
			conn.EOF(io.EOF)
			core.Quiesce()
			return nil // silence between packets is not specified
		}
		var got [][]byte
		for i, e := range evs {
			switch {
			case i == 0 && e.Type == tcpnetwork.ConnEventConnected:
			case i > 0 && e.Type == tcpnetwork.ConnEventData:
				got = append(got, e.Data)
			case i == len(evs)-1 && wantEnd && e.Type == tcpnetwork.ConnEventDisconnected:
				wantEnd = false
			default:
				return fmt.Errorf("events %s", core.NetNames(evs))
			}
		}
		if wantEnd {
			return fmt.Errorf("silence inside a packet did not disconnect: %s", core.NetNames(evs))
		}
		conn.EOF(io.EOF)
		core.Quiesce()
		if n := len(evs); evs[n-1].Type != tcpnetwork.ConnEventDisconnected || conn.Closed() == 0 {
			return fmt.Errorf("not disconnected at the end: %s", core.NetNames(evs))
		}
		return core.SameBytes(got, want)
	})
}

func tooLong(c *core.Ctx, p *fp, first, second []byte) error {
	return core.Bubble(c.T, func() error {
		conn := core.NewConn()
		var evs []core.NetEv
		cn := tcpnetwork.NewConnection(conn, 8, func(e *tcpnetwork.ConnEvent) {
			evs = append(evs, core.NetEv{Type: e.EventType, Data: e.Data, Conn: e.Conn})
		})
		cn.SetStreamProtocol(p)
		cn.Run()
		conn.Feed(first, second)
		core.Quiesce()
		if s := core.NetNames(evs); s != "connected data disconnected" {
			conn.EOF(io.EOF)
			core.Quiesce()
			// not refused: then it must simply not be delivered incomplete
			if s := core.NetNames(evs); s != "connected data disconnected" {
				return fmt.Errorf("events %s", s)
			}
		}
		return core.SameBytes([][]byte{evs[1].Data}, [][]byte{first})
	})
}
