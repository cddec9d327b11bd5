package conc

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	"github.com/NodeBoy2/rtspclient"

	"verifharness/core"
	"verifharness/mc"
)

func init() {
	core.Register(&core.Prop{ID: "C10", Run: c10,
		Assumptions: []string{"goroutines switch only where the instrumentation places a point: channel and lock operations, accesses to fields, globals and captured variables touched by several threads, environment operations, and the harness's own steps",
			"in-memory transport, virtual clock; time passes when every thread is blocked"},
		Rule: "every schedule of each scenario (the callers of play, close and pause, the session's routines, the server's answers, data and hang-up, handler calls) with at most k deviations from the default schedule; non-trivial: a run with at least two decisions"})
}

// sessSys is one session over one or more connections.
type sessSys struct {
	m     *mc.Ctl
	p     *core.Peer
	conns []*core.Conn
	mu    sync.Mutex
	calls map[string]int // 0 running, 1 returned
	order []string
	plays int
	marks []int // number of entries of the event log when a connection was set up
	bad   error
}

func newSess(m *mc.Ctl) *sessSys {
	s := &sessSys{m: m, p: core.NewPeer(), calls: map[string]int{}}
	s.p.Answer = core.GoodServer(oneTrack, "sess1")
	s.conns = []*core.Conn{s.p.Conn}
	return s
}

var oneTrack = []core.Track{{Kind: "video", Codec: "H264", PT: 96, Control: "t1"}}

func (s *sessSys) call(name string, max time.Duration, f func()) {
	s.mu.Lock()
	s.calls[name] = 0
	s.order = append(s.order, name)
	s.mu.Unlock()
	t0 := time.Now()
	f()
	s.mu.Lock()
	s.calls[name] = 1
	if d := time.Since(t0); d > max && s.bad == nil {
		s.bad = fmt.Errorf("%s took %v", name, d)
	}
	s.mu.Unlock()
}

func (s *sessSys) play() (err error) {
	s.mu.Lock()
	s.plays++
	name := fmt.Sprint("play ", s.plays)
	s.mu.Unlock()
	s.call(name, 20*time.Second, func() {
		s.p.S.ParsingURL("rtsp://srv/x")
		err = s.p.S.SetConnection(s.p.Conn)
	})
	return
}

// again connects the session to a new transport.
func (s *sessSys) again() error {
	s.p.Conn = core.NewConn()
	s.conns = append(s.conns, s.p.Conn)
	s.p.Wire()
	return s.play()
}

func (s *sessSys) close(name string) { s.call("close "+name, 15*time.Second, s.p.S.Close) }

func (s *sessSys) frame(k int) {
	s.p.Conn.Feed(core.Frame(0, core.RTP(true, 96, k, 1, []byte{0x41, byte(k)})))
}

// check: conns connections were established, all of them ended.
func (s *sessSys) check() error {
	if s.bad != nil {
		return s.bad
	}
	for _, k := range s.order {
		if s.calls[k] == 0 {
			return fmt.Errorf("%s never returned (%s)", k, s.p.Log())
		}
	}
	log := strings.Fields(s.p.Log())
	dis, out := 0, 0
	for _, e := range log {
		switch e {
		case "disconnected":
			dis++
		case "success", "error":
			out++
		default:
			if dis >= len(s.conns) {
				return fmt.Errorf("%s after the last disconnection: %v", e, log)
			}
		}
	}
	if dis != len(s.conns) {
		return fmt.Errorf("%d disconnected events for %d connections: %v", dis, len(s.conns), log)
	}
	if out != s.plays {
		return fmt.Errorf("%d outcomes for %d plays: %v", out, s.plays, log)
	}
	last := byte(0)
	for _, d := range s.p.Data {
		if len(d.Copy) != 2 || d.Copy[0] != 0x41 {
			return fmt.Errorf("delivered %x", d.Copy)
		}
		if d.Copy[1] <= last {
			return fmt.Errorf("unit %d delivered after unit %d", d.Copy[1], last)
		}
		last = d.Copy[1]
	}
	for i, c := range s.conns {
		if c.Closed() == 0 {
			return fmt.Errorf("transport %d is not closed", i)
		}
	}
	if n := s.m.Live(); n != 0 {
		return fmt.Errorf("%d routines still running", n)
	}
	return nil
}

func c10(c *core.Ctx) {
	var scs []*scenario
	add := func(name string, setup func(s *sessSys)) {
		scs = append(scs, &scenario{name: name, setup: func(m *mc.Ctl) func() error {
			s := newSess(m)
			setup(s)
			return s.check
		}})
	}
	methods := []string{"DESCRIBE", "SETUP", "PLAY"}

	// from: no decisions before the request arrives
	after := func(s *sessSys, me string) {
		s.m.Mute.Store(true)
		g := s.p.Answer
		s.p.Answer = func(p *core.Peer, r core.Request) {
			if r.Method == me {
				s.m.Mute.Store(false)
			}
			g(p, r)
		}
	}
	from := func(s *sessSys, me string) {
		if me != "DESCRIBE" {
			after(s, me)
		}
	}
	// second: of the second connection's handshake only both ends take decisions
	second := func(s *sessSys) {
		g := s.p.Answer
		s.p.Answer = func(p *core.Peer, r core.Request) {
			if len(s.conns) == 2 && r.Method != "TEARDOWN" {
				s.m.Mute.Store(r.Method != "PLAY")
			}
			g(p, r)
		}
	}
	for _, me := range methods {
		add("the server hangs up after "+me, func(s *sessSys) {
			g := s.p.Answer
			s.p.Answer = func(p *core.Peer, r core.Request) {
				g(p, r)
				if r.Method == me {
					if me != "DESCRIBE" {
						s.frame(1)
					}
					p.Conn.EOF(io.EOF)
				}
			}
			from(s, me)
			mc.GoNamed("player", func() { s.play() })
		})
		add("closed from elsewhere at "+me, func(s *sessSys) {
			g := s.p.Answer
			ch := make(chan struct{}, 8)
			s.p.Answer = func(p *core.Peer, r core.Request) {
				g(p, r)
				if r.Method == me {
					ch <- struct{}{}
				}
			}
			from(s, me)
			mc.GoNamed("player", func() { s.play() })
			mc.GoNamed("closer", func() {
				select {
				case <-ch:
				case <-time.After(10 * time.Second):
				}
				mc.Step("x")
				s.close("1")
			})
		})
		add("the answer to "+me+" comes when its time is over, then the server hangs up", func(s *sessSys) {
			g := s.p.Answer
			s.p.Answer = func(p *core.Peer, r core.Request) {
				if r.Method != me {
					g(p, r)
					return
				}
				conn := p.Conn
				mc.GoNamed("late", func() {
					time.Sleep(2 * time.Second)
					mc.Step("x")
					g(p, r)
					mc.Step("y")
					conn.EOF(io.EOF)
				})
			}
			from(s, me)
			mc.GoNamed("player", func() { s.play() })
		})
		add(me+" is refused, then closed against a hang-up", func(s *sessSys) {
			g := s.p.Answer
			s.p.Answer = func(p *core.Peer, r core.Request) {
				if r.Method != me {
					g(p, r)
					return
				}
				p.Conn.Feed([]byte(core.Resp(404, r.CSeq(), nil, "")))
			}
			from(s, me)
			mc.GoNamed("player", func() {
				s.play()
				mc.GoNamed("closer", func() { s.close("1") })
				mc.Step("x")
				s.p.Conn.EOF(io.EOF)
			})
		})
	}
	// a session that plays, then several things at once
	playing := func(name string, then func(s *sessSys), threads ...func(s *sessSys)) {
		add(name, func(s *sessSys) {
			s.m.Mute.Store(true)
			mc.GoNamed("player", func() {
				s.play()
				s.m.Mute.Store(false)
				for _, f := range threads {
					mc.GoNamed("actor", func() { f(s) })
				}
				if then != nil {
					then(s)
				}
			})
		})
	}
	eof := func(s *sessSys) { mc.Step("x"); s.p.Conn.EOF(io.EOF) }
	cl := func(name string) func(s *sessSys) { return func(s *sessSys) { s.close(name) } }
	data := func(s *sessSys) {
		for k := 1; k < 4; k++ {
			s.frame(k)
			mc.Step("x")
		}
	}
	playing("playing, closed against a hang-up", cl("1"), eof)
	playing("playing, closed twice", cl("1"), cl("2"))
	playing("playing, closed twice in a row against a hang-up", func(s *sessSys) { s.close("1"); s.close("2") }, eof)
	playing("playing, closed against data", cl("1"), data)
	playing("playing, data then reset", func(s *sessSys) { data(s); s.p.Conn.EOF(errors.New("reset")) })
	playing("playing, closed against data and a hang-up", cl("1"), func(s *sessSys) { data(s); s.p.Conn.EOF(io.EOF) })
	playing("playing, paused against a hang-up, then closed", func(s *sessSys) {
		s.call("pause", 10*time.Second, func() { s.p.S.SendPause(); s.p.S.WaitRtspResponse() })
		s.close("1")
	}, eof)
	add("playing, closed while the server is silent and hangs up when the time is over", func(s *sessSys) {
		g := s.p.Answer
		s.p.Answer = func(p *core.Peer, r core.Request) {
			if r.Method != "TEARDOWN" {
				g(p, r)
			}
		}
		mc.GoNamed("player", func() {
			s.m.Mute.Store(true)
			s.play()
			s.m.Mute.Store(false)
			mc.GoNamed("server", func() { time.Sleep(2 * time.Second); mc.Step("x"); s.p.Conn.EOF(io.EOF) })
			s.close("1")
		})
	})
	add("closed from the data handler", func(s *sessSys) {
		g := s.p.Answer
		s.p.Answer = func(p *core.Peer, r core.Request) {
			if r.Method != "TEARDOWN" {
				g(p, r)
			}
			if r.Method == "PLAY" {
				s.frame(1)
				s.frame(2)
			}
		}
		n := 0
		s.p.OnData = func() {
			if n++; n == 1 {
				s.close("h")
			}
		}
		from(s, "PLAY")
		mc.GoNamed("player", func() { s.play() })
	})
	for _, again := range []bool{false, true} {
		add(fmt.Sprintf("closed from the event handler (played again: %v)", again), func(s *sessSys) {
			second(s)
			s.p.OnEv = func(e int) {
				if e == rtspclient.RtspEventDisconnected && len(s.conns) == 1 {
					if again {
						s.again()
					}
					s.close("h")
				}
			}
			mc.GoNamed("player", func() {
				s.m.Mute.Store(true)
				s.play()
				s.m.Mute.Store(false)
				mc.Step("x")
				s.p.Conn.EOF(io.EOF)
			})
		})
	}
	add("closed from the event handler at success", func(s *sessSys) {
		s.p.OnEv = func(e int) {
			if e == rtspclient.RtspEventRequestSuccess {
				s.close("h")
			}
		}
		from(s, "PLAY")
		mc.GoNamed("player", func() { s.play() })
		mc.GoNamed("server", func() { time.Sleep(time.Second); mc.Step("x"); s.p.Conn.EOF(io.EOF) })
	})
	add("closed from the event handler at error", func(s *sessSys) {
		from(s, "DESCRIBE")
		s.p.Answer = func(p *core.Peer, r core.Request) {
			p.Conn.Feed([]byte(core.Resp(500, r.CSeq(), nil, "")))
		}
		s.p.OnEv = func(e int) {
			if e == rtspclient.RtspEventRequestError {
				s.close("h")
			}
		}
		mc.GoNamed("player", func() { s.play() })
		mc.GoNamed("server", func() { mc.Step("x"); s.p.Conn.EOF(io.EOF) })
	})
	add("played again from the disconnected event while the first play returns", func(s *sessSys) {
		g := s.p.Answer
		s.p.Answer = func(p *core.Peer, r core.Request) {
			g(p, r)
			if r.Method == "PLAY" {
				p.Conn.EOF(io.EOF)
			}
		}
		s.p.OnEv = func(e int) {
			if e == rtspclient.RtspEventDisconnected && len(s.conns) == 1 {
				s.again()
			}
		}
		second(s)
		from(s, "PLAY")
		mc.GoNamed("player", func() { s.play() })
	})
	for _, me := range methods {
		add("hung up at "+me+" and played again from the disconnected event", func(s *sessSys) {
			g := s.p.Answer
			s.p.Answer = func(p *core.Peer, r core.Request) {
				if len(s.conns) == 1 && r.Method == me {
					p.Conn.EOF(io.EOF)
				} else {
					g(p, r)
				}
			}
			s.p.OnEv = func(e int) {
				if e != rtspclient.RtspEventDisconnected || len(s.conns) != 1 {
					return
				}
				if err := s.again(); err != nil && s.bad == nil {
					s.bad = fmt.Errorf("playing again failed: %v", err)
				}
				s.p.Conn.EOF(io.EOF)
			}
			second(s)
			after(s, me)
			mc.GoNamed("player", func() {
				if err := s.play(); err == nil && s.bad == nil {
					s.bad = errors.New("a play that was hung up succeeded")
				}
			})
		})
	}
	for _, k := range []int{1, 2, 3, 4} {
		add(fmt.Sprintf("write %d fails", k), func(s *sessSys) {
			s.p.Conn.FailWrite = k
			mc.GoNamed("player", func() { s.play(); s.close("1") })
			mc.GoNamed("server", func() { time.Sleep(20 * time.Second); s.p.Conn.EOF(io.EOF) })
		})
	}
	add("data and answers out of turn, against a hang-up", func(s *sessSys) {
		mc.GoNamed("player", func() { s.play() })
		mc.GoNamed("server", func() {
			s.frame(1)
			mc.Step("x")
			s.p.Conn.Feed([]byte(core.Resp(200, 99, nil, "")))
			mc.Step("y")
			s.p.Conn.EOF(io.EOF)
		})
	})
	// the public calls alone: play (over a websocket), close, play at once
	type reuse struct {
		name string
		end  func(s *sessSys, w *core.WsServer)
	}
	for _, r := range []reuse{
		{"closed and played again at once", func(s *sessSys, w *core.WsServer) { s.close("1") }},
		{"hung up and played again at once", func(s *sessSys, w *core.WsServer) { mc.Step("x"); w.T.EOF(io.EOF) }},
		{"reset while closed, and played again at once", func(s *sessSys, w *core.WsServer) {
			mc.GoNamed("server", func() { w.T.EOF(errors.New("reset")) })
			s.close("1")
		}},
	} {
		add(r.name, func(s *sessSys) {
			s.conns = nil
			dial := func() *core.WsServer {
				in := core.NewConn()
				s.p.Conn = in
				s.p.Wire()
				w := core.NewWsServer(in)
				w.OnDial = func() { s.conns = append(s.conns, w.T) }
				w.Install()
				return w
			}
			play := func() (err error) {
				s.plays++
				n := len(s.conns)
				s.call(fmt.Sprint("play ", s.plays), 20*time.Second, func() { err = s.p.S.PlayUseWebsocket("ws://ws.test/x", "rtsp://srv/x") })
				if len(s.conns) == n {
					s.plays-- // refused: it reports nothing
				}
				return
			}
			mc.GoNamed("player", func() {
				s.m.Mute.Store(true)
				w := dial()
				play()
				s.m.Mute.Store(false)
				r.end(s, w)
				g := s.p.Answer
				s.p.Answer = func(p *core.Peer, q core.Request) {
					s.m.Mute.Store(q.Method != "PLAY" && q.Method != "TEARDOWN")
					g(p, q)
				}
				w = dial()
				play()
				s.m.Mute.Store(false)
				w.T.EOF(io.EOF)
			})
		})
		scs[len(scs)-1].max = 3
	}
	runAll(c, scs, 6000, 40000)
}
