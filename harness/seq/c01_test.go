package seq

import (
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient"
	"github.com/NodeBoy2/rtspclient/tcpnetwork"

	"verifharness/core"
)

// runNet feeds segs to a connection and checks after every segment that
// exactly the complete units have been delivered.
func runNet(c *core.Ctx, proto tcpnetwork.IStreamProtocol, segs [][]byte, units [][]byte, end error) error {
	return core.Bubble(c.T, func() error {
		conn := core.NewConn()
		var evs []core.NetEv
		cn := tcpnetwork.NewConnection(conn, 8, func(e *tcpnetwork.ConnEvent) {
			evs = append(evs, core.NetEv{Type: e.EventType, Data: e.Data, Conn: e.Conn})
		})
		cn.SetStreamProtocol(proto)
		cn.Run()
		core.Quiesce()
		err := func() error {
			if core.NetNames(evs) != "connected" {
				return fmt.Errorf("events before any data: %s", core.NetNames(evs))
			}
			fed := 0
			for i, s := range segs {
				conn.Feed(s)
				core.Quiesce()
				fed += len(s)
				off, want := 0, 0
				for _, u := range units {
					if off += len(u); off > fed {
						break
					}
					want++
				}
				if len(evs)-1 != want {
					return fmt.Errorf("after segment %d (%d bytes): events %s, want %d units", i, fed, core.NetNames(evs), want)
				}
			}
			for i, e := range evs[1:] {
				if e.Type != tcpnetwork.ConnEventData || e.Conn != cn {
					return fmt.Errorf("event %d is %s", i, core.NetName(e.Type))
				}
			}
			var got [][]byte
			for _, e := range evs[1:] {
				got = append(got, e.Data)
			}
			full, off := 0, 0
			for _, u := range units {
				if off += len(u); off <= fed {
					full++
				}
			}
			return core.SameBytes(got, units[:full])
		}()
		n := len(evs)
		conn.EOF(end)
		core.Quiesce()
		if err == nil {
			rest := evs[n:]
			if core.NetNames(rest) != "disconnected" {
				err = fmt.Errorf("events after the end of the stream: %q", core.NetNames(rest))
			} else if conn.Closed() == 0 {
				err = fmt.Errorf("transport not closed after the end of the stream")
			} else if cn.GetStatus() != tcpnetwork.ConnStatusDisconnected {
				err = fmt.Errorf("status %d after the end of the stream", cn.GetStatus())
			}
		}
		if err == nil {
			for i, e := range evs[1 : len(evs)-1] {
				if core.SameBytes([][]byte{e.Data}, units[i:i+1]) != nil {
					return fmt.Errorf("event %d changed after its delivery", i)
				}
			}
		}
		return err
	})
}

func join(u [][]byte) []byte {
	var r []byte
	for _, x := range u {
		r = append(r, x...)
	}
	return r
}

func init() {
	core.Register(&core.Prop{
		ID: "C01",
		Rule: "every sequence of stream units up to the bound, times every cut of its bytes into segments (none, one, two, every byte); " +
			"every frame length 0..65535 and every channel; non-trivial: a cut inside a unit, or more than one unit",
		Assumptions: []string{"responses incl. body fit the client's 64 KiB packet buffer", "in-memory transport returns at most one segment per read"},
		Run:         c01,
	})
}

func rtspUnits() (names []string, units [][]byte) {
	add := func(n, u string) { names = append(names, n); units = append(units, []byte(u)) }
	add("R", "RTSP/1.0 200 OK\r\nCSeq: 1\r\n\r\n")
	add("Rbody", "RTSP/1.0 200 OK\r\nContent-Length: 9\r\n\r\n$\x00\r\n\r\nRTS")
	add("r401", "rtsp/1.0 401 No\r\nCSeq: 2\r\ncontent-length : 4\r\n\r\nRTSP")
	add("F0", "$\x00\x00\x00")
	add("F1", "$\x01\x00\x01R")
	add("F4", "$\x00\x00\x04RTSP")
	add("F17", "$\x02\x00\x11"+string(core.RTP(true, 96, 1, 2, []byte("$\r\n\r\n"))))
	return
}

func c01(c *core.Ctx) {
	names, alpha := rtspUnits()
	proto := func() tcpnetwork.IStreamProtocol { return &rtspclient.RTPStreamProtocol{} }
	maxSeq, maxPair := 3, 2
	if c.Thorough() {
		maxSeq, maxPair = 4, 3
	}
	c.Bound("sequence_length_one_cut", maxSeq)
	c.Bound("sequence_length_two_cuts", maxPair)

	run := func(name string, segs, units [][]byte) {
		c.Do(func() string { return name + " cut " + core.SegLens(segs) }, func() error {
			c.Nontrivial()
			c.Trans(len(segs))
			return runNet(c, proto(), segs, units, io.EOF)
		})
	}
	c.Group("one-cut")
	core.Tuples(len(alpha), 1, maxSeq, func(t []int) {
		if c.Stop() {
			return
		}
		var units [][]byte
		var nm []string
		for _, i := range t {
			units = append(units, alpha[i])
			nm = append(nm, names[i])
		}
		st := join(units)
		name := strings.Join(nm, ",")
		c.State(name)
		run(name, core.Cut(st), units)
		run(name, core.Bytewise(st), units)
		for i := 1; i < len(st); i++ {
			run(name, core.Cut(st, i), units)
		}
	})
	c.Group("two-cuts")
	core.Tuples(len(alpha), 1, maxPair, func(t []int) {
		if c.Stop() {
			return
		}
		var units [][]byte
		var nm []string
		for _, i := range t {
			units = append(units, alpha[i])
			nm = append(nm, names[i])
		}
		st := join(units)
		name := strings.Join(nm, ",")
		for i := 1; i < len(st); i++ {
			for j := i + 1; j < len(st); j++ {
				run(name, core.Cut(st, i, j), units)
			}
		}
	})
	c.Group("frame-lengths")
	for l := 0; l <= 65535; l++ {
		if l&255 == 0 && c.Stop() {
			return
		}
		l := l
		c.State("len", l)
		c.Do(func() string { return fmt.Sprintf("frame of %d bytes between a response and a frame", l) }, func() error {
			ch := l * 7 % 256
			units := [][]byte{alpha[0], core.Frame(ch, core.Pattern(l, l)), alpha[5]}
			st := join(units)
			segs := core.Cut(st)
			switch l % 4 {
			case 1: // inside the frame header
				segs = core.Cut(st, len(alpha[0])+3)
			case 2:
				segs = core.Cut(st, len(alpha[0])+4+l/2)
			case 3: // in TCP segments
				var at []int
				for k := 1448; k < len(st); k += 1448 {
					at = append(at, k)
				}
				segs = core.Cut(st, at...)
			}
			c.Trans(len(segs))
			return runNet(c, proto(), segs, units, io.EOF)
		})
	}
	c.Group("channels")
	for ch := 0; ch < 256; ch++ {
		ch := ch
		c.Do(func() string { return fmt.Sprintf("channel %d", ch) }, func() error {
			units := [][]byte{core.Frame(ch, []byte("abc")), core.Frame(ch, nil), alpha[1]}
			return runNet(c, proto(), core.Bytewise(join(units)), units, io.EOF)
		})
	}
	c.Group("content-lengths")
	maxBody := 3000
	if c.Thorough() {
		maxBody = 20000
	}
	bodies := []int{40000, 65000, 65400}
	for l := 0; l <= maxBody; l++ {
		bodies = append(bodies, l)
	}
	for _, l := range bodies {
		l := l
		c.Do(func() string { return fmt.Sprintf("response with a body of %d bytes", l) }, func() error {
			h := fmt.Sprintf("RTSP/1.0 200 OK\r\nCSeq: 3\r\nContent-Length: %d\r\nX: y\r\n\r\n", l)
			units := [][]byte{append([]byte(h), core.Pattern(l, l)...), alpha[5], alpha[0]}
			st := join(units)
			segs := core.Cut(st, len(h)+l/2, len(h)+l)
			return runNet(c, proto(), segs, units, io.EOF)
		})
	}
	// whole sessions: the server's bytes cut anywhere
	c.Group("session")
	tr := []core.Track{{Kind: "video", Codec: "JPEG", PT: 96, Control: "t1"}, {Kind: "audio", Codec: "X", PT: 97, Control: "t2"}}
	frames := join([][]byte{
		core.Frame(0, core.RTP(true, 96, 1, 1, []byte("RTSP/1.0 200 OK\r\n\r\n"))),
		core.Frame(1, []byte("rtcp")), core.Frame(2, core.RTP(false, 97, 1, 1, []byte{'$'})), core.Frame(0, nil),
		core.Frame(0, core.RTP(true, 96, 2, 1, []byte("zz"))),
	})
	sess := func(step, i, j int, where string) {
		c.Do(func() string {
			return fmt.Sprintf("session, answer %d with frames %s, cut at %d,%d", step, where, i, j)
		}, func() error {
			return core.Bubble(c.T, func() error {
				p := core.NewPeer()
				good := core.GoodServer(tr, "s1")
				n := 0
				pre := 0
				p.Answer = func(p *core.Peer, r core.Request) {
					if n == step {
						// capture the good answer, put frames around it, cut it
						tmp := &core.Peer{Conn: core.NewConn()}
						good(tmp, r)
						ans := tmp.Conn.Drain()
						if where == "before" {
							ans = append(append([]byte(nil), frames...), ans...)
						} else {
							ans = append(ans, frames...)
						}
						if i < 0 {
							p.Conn.Feed(core.Bytewise(ans)...)
						} else {
							p.Conn.Feed(core.Cut(ans, i, j)...)
						}
						pre = n
					} else {
						good(p, r)
					}
					n++
				}
				if err := p.Start("rtsp://host/stream"); err != nil {
					return err
				}
				if !p.Wait(30*time.Second) || p.Err != nil {
					return fmt.Errorf("handshake: %v, requests %s", p.Err, p.Methods())
				}
				p.Conn.Feed(core.Cut(frames, i%len(frames)+1, j%len(frames)+1)...)
				core.Quiesce()
				u0, err := p.Units(0)
				if err != nil {
					return err
				}
				u2, _ := p.Units(2)
				p.Hangup()
				w0 := [][]byte{[]byte("RTSP/1.0 200 OK\r\n\r\n"), []byte("zz")}
				w2 := [][]byte{{'$'}}
				// frames that came before PLAY was asked are outside the property
				// for tracks not yet set up
				if pre >= 3 {
					w0, w2 = append(w0, w0...), append(w2, w2...)
				} else {
					u0, u2 = u0[max(0, len(u0)-2):], u2[max(0, len(u2)-1):]
				}
				if err := core.SameBytes(u0, w0); err != nil {
					return fmt.Errorf("channel 0: %v", err)
				}
				if err := core.SameBytes(u2, w2); err != nil {
					return fmt.Errorf("channel 2: %v", err)
				}
				c.Outcome(strings.Join(p.EvLog, " "))
				return nil
			})
		})
	}
	for step := 0; step < 4; step++ {
		for _, where := range []string{"before", "after"} {
			sess(step, -1, -1, where)
			for i := 1; i < 420; i++ {
				if c.Stop() {
					return
				}
				sess(step, i, i, where)
				if c.Thorough() {
					for j := i + 1; j < i+60; j++ {
						sess(step, i, j, where)
					}
				} else {
					sess(step, i, i+3, where)
				}
			}
		}
	}
	// answers whose body looks like something else
	c.Group("session-bodies")
	tails := []string{"", "$", "$\x00\x00\x03abc", "RTSP/1.0 404 Not Found\r\n\r\n", "\r\n\r\n", "\r\n\r\n\r\n\r\nx", "CSeq: 9\r\nContent-Length: 3\r\n\r\nabc", "Session: other\r\n", "\x00\xff"}
	body := func(step int, tail, order string, cut int) {
		c.Do(func() string {
			return fmt.Sprintf("session, answer %d with a body with %q (%s), cut at %d", step, tail, order, cut)
		}, func() error {
			return core.Bubble(c.T, func() error {
				p := core.NewPeer()
				n := 0
				p.Answer = func(p *core.Peer, r core.Request) {
					tail := tail
					h := []string{"Session: s1"}
					b := ""
					switch r.Method {
					case "SETUP":
						h = append(h, "Transport: "+r.Get("Transport"))
					case "DESCRIBE":
						b = core.SDP(tr)
					}
					if n == step {
						if r.Method != "DESCRIBE" {
							b = tail
						} else {
							// still a description: the tail is a value of unknown lines
							tail := strings.ReplaceAll(tail, "\x00", "\x01")
							t := strings.ReplaceAll(tail, "\r\n", "\r\na=y:v")
							switch order {
							case "blank":
								b = strings.Replace(b, "m=", "a=x:v"+strings.ReplaceAll(tail, "\r\n", "_")+"\r\n\r\nm=", 1)
							case "first":
								b = strings.Replace(b, "m=", "a=x:v"+t+"\r\nm=", 1)
							default:
								b += "a=x:v" + t + "\r\n"
							}
						}
					}
					ans := core.Resp(200, r.CSeq(), h, b)
					if order == "first" && b != "" { // Content-Length is the first header
						i := strings.Index(ans, "\r\n") + 2
						cl := fmt.Sprintf("Content-Length: %d\r\n", len(b))
						ans = ans[:i] + cl + strings.Replace(ans[i:], cl, "", 1)
					}
					n++
					if n-1 == step {
						if cut < 0 {
							p.Conn.Feed(core.Bytewise([]byte(ans))...)
						} else {
							p.Conn.Feed(core.Cut([]byte(ans), cut)...)
						}
					} else {
						p.Conn.Feed([]byte(ans))
					}
				}
				if err := p.Start("rtsp://host/stream"); err != nil {
					return err
				}
				if !p.Wait(30*time.Second) || p.Err != nil {
					return fmt.Errorf("handshake: %v, requests %s", p.Err, p.Methods())
				}
				if got := p.Methods(); got != "OPTIONS DESCRIBE SETUP SETUP PLAY" && got != "DESCRIBE SETUP SETUP PLAY" {
					return fmt.Errorf("requests %s", got)
				}
				p.Conn.Feed(frames)
				core.Quiesce()
				u0, err := p.Units(0)
				if err != nil {
					return err
				}
				u2, _ := p.Units(2)
				p.Hangup()
				if err := core.SameBytes(u0, [][]byte{[]byte("RTSP/1.0 200 OK\r\n\r\n"), []byte("zz")}); err != nil {
					return fmt.Errorf("channel 0: %v", err)
				}
				if err := core.SameBytes(u2, [][]byte{{'$'}}); err != nil {
					return fmt.Errorf("channel 2: %v", err)
				}
				c.Outcome(strings.Join(p.EvLog, " "))
				return nil
			})
		})
	}
	for step := 0; step < 5; step++ {
		for _, tail := range tails {
			for _, order := range []string{"last", "first", "blank"} {
				if c.Stop() {
					return
				}
				body(step, tail, order, -1)
				for i := 0; i < 450; i += 1 {
					if c.Thorough() || i%3 == 0 {
						body(step, tail, order, i)
					}
				}
			}
		}
	}
}
