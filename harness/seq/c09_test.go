package seq

import (
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/NodeBoy2/rtspclient"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C09",
		Rule: "every step of the handshake (with and without a challenge) and of later calls, every byte offset of its answer, times: silence, close, reset; with and without media arriving meanwhile; plus closing from every place with an unresponsive server or a full transport; " +
			"virtual time measured; non-trivial: the server withheld something",
		Assumptions: []string{"a few seconds = 5 s from the last request (the response timeout is 2 s); 12 s when the transport itself is stalled"},
		Run:         c09,
	})
}

const few = 5 * time.Second

func c09(c *core.Ctx) {
	tr := []core.Track{{Kind: "video", Codec: "JPEG", PT: 96, Control: "t1"}, {Kind: "audio", Codec: "X", PT: 97, Control: "t2"}}
	steps := 4
	// one run: the answer to request 'step' is cut at 'off' and then nothing (how 0), EOF (1) or reset (2)
	run := func(auth bool, step, how, media int, off int) (ok bool) {
		max := 0
		c.Do(func() string {
			return fmt.Sprintf("challenge %v, answer %d cut at byte %d then %s, media %d", auth, step, off, []string{"silence", "close", "reset"}[how], media)
		}, func() error {
			c.Nontrivial()
			c.State(auth, step, off, how)
			return core.Bubble(c.T, func() error {
				p := core.NewPeer()
				n := 0
				good := core.GoodServer(tr, "5")
				stop := make(chan struct{})
				p.Answer = func(p *core.Peer, r core.Request) {
					tmp := &core.Peer{Conn: core.NewConn()}
					if auth && n == 0 {
						tmp.Conn.Feed([]byte(core.Resp(401, r.CSeq(), []string{`WWW-Authenticate: Digest realm="r", nonce="n"`}, "")))
					} else {
						good(tmp, r)
					}
					ans := tmp.Conn.Drain()
					if n == step {
						max = len(ans)
						if off < len(ans) {
							ans = ans[:off]
						}
						if off < max {
							p.Conn.Feed(ans)
							switch how {
							case 1:
								p.Conn.EOF(io.EOF)
							case 2:
								p.Conn.EOF(errors.New("connection reset by peer"))
							}
							if how == 0 && off == 0 && media > 0 {
								go func() { // media keeps coming
									for i := 0; ; i++ {
										select {
										case <-stop:
											return
										case <-time.After(100 * time.Millisecond):
										}
										p.Conn.Feed(core.Frame(media-1, core.RTP(true, 96, i, 1, []byte("x"))))
									}
								}()
							}
							n++
							return
						}
					}
					n++
					p.Conn.Feed(ans)
				}
				u := "rtsp://u:p@host/s"
				p.Start(u)
				ret := p.Wait(60 * time.Second)
				var err error
				last := p.ReqAt[len(p.ReqAt)-1]
				switch {
				case max > 0 && off >= max: // nothing withheld
					if !ret || p.Err != nil {
						err = fmt.Errorf("nothing withheld, but %v", p.Err)
					}
					p.Conn.EOF(io.EOF)
				case !ret:
					err = fmt.Errorf("the call did not return within 60 s")
				case p.Err == nil:
					err = fmt.Errorf("the call succeeded without a complete answer %d", step)
				case p.RetAt.Sub(last) > few:
					err = fmt.Errorf("the call returned %v after the last request", p.RetAt.Sub(last))
				}
				time.Sleep(few)
				close(stop)
				core.Quiesce()
				if err == nil && p.Conn.Closed() == 0 {
					err = fmt.Errorf("the transport is still open %v after the call returned", few)
				}
				if k := p.CountEv(rtspclient.RtspEventDisconnected); err == nil && k != 1 {
					err = fmt.Errorf("%d disconnected events: %s", k, p.Log())
				}
				c.Trans(step + 1)
				c.Outcome(p.Log())
				p.Hangup()
				time.Sleep(few)
				return err
			})
		})
		return
	}
	c.Group("handshake")
	for _, auth := range []bool{false, true} {
		n := steps
		if auth {
			n++
		}
		for step := 0; step < n; step++ {
			for how := 0; how < 3; how++ {
				for off := 0; off < 420; off++ {
					if c.Stop() {
						return
					}
					run(auth, step, how, 0, off)
				}
			}
			for media := 1; media <= 8; media++ {
				run(auth, step, 0, media, 0)
			}
		}
	}

	// after the handshake: calls with an unresponsive server
	type scen struct {
		name string
		f    func(p *core.Peer) error
		max  time.Duration
		noTD bool
	}
	end := func(p *core.Peer) error {
		time.Sleep(few)
		core.Quiesce()
		if p.Conn.Closed() == 0 {
			return fmt.Errorf("the transport is still open")
		}
		if k := p.CountEv(rtspclient.RtspEventDisconnected); k != 1 {
			return fmt.Errorf("%d disconnected events: %s", k, p.Log())
		}
		return nil
	}
	scens := []scen{
		{"close", func(p *core.Peer) error { p.S.Close(); return nil }, few, false},
		{"close twice", func(p *core.Peer) error { p.S.Close(); p.S.Close(); return nil }, 2 * few, false},
		{"close from two callers", func(p *core.Peer) error {
			d := make(chan int)
			go func() { p.S.Close(); close(d) }()
			p.S.Close()
			<-d
			return nil
		}, 2 * few, false},
		{"pause, wait", func(p *core.Peer) error {
			p.S.SendPause()
			if _, err := p.S.WaitRtspResponse(); err == nil {
				return fmt.Errorf("an answer from nowhere")
			}
			return nil
		}, few, false},
		{"wait for nothing", func(p *core.Peer) error {
			if _, err := p.S.WaitRtspResponse(); err == nil {
				return fmt.Errorf("an answer from nowhere")
			}
			return nil
		}, few, false},
		{"pause, wait, close", func(p *core.Peer) error { p.S.SendPause(); p.S.WaitRtspResponse(); p.S.Close(); return nil }, 2 * few, false},
		{"pause, close", func(p *core.Peer) error { p.S.SendPause(); p.S.Close(); return nil }, few, false},
		{"pause, wait, play, wait, teardown, wait", func(p *core.Peer) error {
			p.S.SendPause()
			p.S.WaitRtspResponse()
			p.S.SendPlay(1, 1)
			p.S.WaitRtspResponse()
			p.S.SendTeardown()
			p.S.WaitRtspResponse()
			return nil
		}, 3 * few, false},
	}
	c.Group("calls")
	// server: silent, answers late by d, answers half, closes on request, resets; media flowing or not; transport stalled
	for _, s := range scens {
		for mode := 0; mode < 9; mode++ {
			for _, media := range []int{0, 1, 3} {
				s, mode, media := s, mode, media
				modes := []string{"silent", "late 1 s", "late 1.9 s", "late 2.5 s", "half an answer", "closes", "resets", "transport stalled", "late, media before the answer"}
				c.Do(func() string { return fmt.Sprintf("%s, server %s, media on %d", s.name, modes[mode], media) }, func() error {
					c.Nontrivial()
					c.State(s.name, mode, media)
					return core.Bubble(c.T, func() error {
						p := core.NewPeer()
						good := core.GoodServer(tr, "5")
						playing := false
						p.Answer = func(p *core.Peer, r core.Request) {
							if !playing {
								good(p, r)
								return
							}
							tmp := &core.Peer{Conn: core.NewConn()}
							good(tmp, r)
							ans := tmp.Conn.Drain()
							late := func(d time.Duration) { time.AfterFunc(d, func() { p.Conn.Feed(ans) }) }
							switch mode {
							case 1:
								late(time.Second)
							case 2:
								late(1900 * time.Millisecond)
							case 3:
								late(2500 * time.Millisecond)
							case 4:
								p.Conn.Feed(ans[:len(ans)/2])
							case 5:
								p.Conn.EOF(io.EOF)
							case 6:
								p.Conn.EOF(errors.New("reset"))
							case 8:
								p.Conn.Feed(core.Frame(0, core.RTP(true, 96, 1, 1, []byte("y"))))
								late(100 * time.Millisecond)
							}
						}
						p.Start("rtsp://host/s")
						if !p.Wait(30*time.Second) || p.Err != nil {
							return fmt.Errorf("handshake: %v", p.Err)
						}
						core.Quiesce()
						playing = true
						if mode == 7 {
							p.Conn.BlockWrite = make(chan struct{})
						}
						stop := make(chan struct{})
						if media > 0 {
							go func() {
								for i := 0; i < 100; i++ {
									select {
									case <-stop:
										return
									case <-time.After(130 * time.Millisecond):
									}
									p.Conn.Feed(core.Frame(media-1, core.RTP(true, 96, i, 1, []byte("x"))))
								}
							}()
						}
						t0 := time.Now()
						var ferr error
						p.Go(func() error { ferr = s.f(p); return nil })
						lim := s.max
						if mode == 7 {
							lim += 7 * time.Second
						}
						var err error
						if !p.Wait(120 * time.Second) {
							err = fmt.Errorf("the calls did not return in 120 s")
						} else if el := p.RetAt.Sub(t0); el > lim {
							err = fmt.Errorf("the calls took %v", el)
						}
						close(stop)
						silent := mode == 0 || mode == 3 || mode == 4 || mode == 5 || mode == 6
						if err == nil && silent && ferr != nil {
							err = ferr
						}
						closes := s.name[:5] == "close" || s.name == "pause, close" || s.name == "pause, wait, close" || silent
						if mode == 7 {
							time.Sleep(7 * time.Second)
							closes = true
						}
						if err == nil && closes {
							err = end(p)
						}
						c.Outcome(p.Log())
						c.Trans(1)
						p.Hangup()
						time.Sleep(20 * time.Second)
						return err
					})
				})
			}
		}
	}
	// closing from inside the handlers
	c.Group("close-in-handler")
	for mode := 0; mode < 3; mode++ {
		for _, where := range []string{"data", "success", "disconnected"} {
			for _, n := range []int{1, 2, 5} {
				mode, where, n := mode, where, n
				c.Do(func() string {
					return fmt.Sprintf("close in the %s handler, server mode %d, %d frames", where, mode, n)
				}, func() error {
					c.Nontrivial()
					return core.Bubble(c.T, func() error {
						conn := core.NewConn()
						var s *rtspclient.RtspClientSession
						disc, closedCalls := 0, 0
						var after int
						s = rtspclient.NewRtspClientSession(func(d *rtspclient.RtspData) {
							if disc > 0 {
								after++
							}
							if where == "data" && closedCalls == 0 {
								closedCalls++
								s.Close()
							}
						}, func(e *rtspclient.RtspEvent) {
							if e.EventType == rtspclient.RtspEventDisconnected {
								disc++
								if where == "disconnected" {
									s.Close()
								}
							}
							if e.EventType == rtspclient.RtspEventRequestSuccess && where == "success" {
								s.Close()
							}
						})
						p := &core.Peer{S: s, Conn: conn, Done: make(chan struct{})}
						p.Wire()
						good := core.GoodServer(tr, "5")
						p.Answer = func(p *core.Peer, r core.Request) {
							if r.Method == "TEARDOWN" && mode > 0 {
								if mode == 2 {
									p.Conn.EOF(io.EOF)
								}
								return
							}
							good(p, r)
						}
						p.Start("rtsp://host/s")
						if !p.Wait(30 * time.Second) {
							return fmt.Errorf("no return")
						}
						for i := 0; i < n; i++ {
							conn.Feed(core.Frame(0, core.RTP(true, 96, i, 1, []byte("x"))))
						}
						time.Sleep(few)
						core.Quiesce()
						if where == "disconnected" {
							p.Hangup()
							time.Sleep(few)
						}
						var err error
						if disc != 1 || conn.Closed() == 0 || after > 0 {
							err = fmt.Errorf("%d disconnected events, transport closed %d times, %d units after the end", disc, conn.Closed(), after)
						}
						p.Hangup()
						time.Sleep(few)
						return err
					})
				})
			}
		}
	}
	// calls on a session which has no connection: they fail at once or after the
	// response timeout, nothing crashes, and the session can be played then
	c.Group("never-connected")
	type op struct {
		name string
		fail bool // must return an error
		f    func(s *rtspclient.RtspClientSession) error
	}
	ops := []op{
		{"Close", false, func(s *rtspclient.RtspClientSession) error { s.Close(); return nil }},
		{"SendDescribe", true, func(s *rtspclient.RtspClientSession) error { return s.SendDescribe() }},
		{"SendTcpSetup", true, func(s *rtspclient.RtspClientSession) error { return s.SendTcpSetup("rtsp://srv/x/t1", 0, 1) }},
		{"SendPlay", true, func(s *rtspclient.RtspClientSession) error { return s.SendPlay(1, 2) }},
		{"SendPause", true, func(s *rtspclient.RtspClientSession) error { return s.SendPause() }},
		{"SendTeardown", true, func(s *rtspclient.RtspClientSession) error { return s.SendTeardown() }},
		{"WaitRtspResponse", true, func(s *rtspclient.RtspClientSession) error { _, err := s.WaitRtspResponse(); return err }},
		{"Play of no URL", true, func(s *rtspclient.RtspClientSession) error { return s.Play("rtsp://%zz/") }},
		{"Play over no websocket", true, func(s *rtspclient.RtspClientSession) error {
			return s.PlayUseWebsocket("nothing://", "rtsp://srv/x")
		}},
	}
	depth := 3
	if c.Thorough() {
		depth = 5
	}
	c.Bound("calls_without_connection", depth)
	core.Tuples(len(ops), 1, depth, func(t []int) {
		name := ""
		for _, i := range t {
			name += " " + ops[i].name
		}
		c.Do(func() string { return "without a connection:" + name }, func() error {
			c.Nontrivial()
			return core.Bubble(c.T, func() error {
				p := core.NewPeer()
				dials := 0
				for k, i := range t {
					if ops[i].name == "Play over no websocket" {
						dials++
					}
					t0 := time.Now()
					var err error
					p.Go(func() error { err = ops[i].f(p.S); return nil })
					if !p.Wait(few) {
						return fmt.Errorf("call %d (%s) did not return in %v", k, ops[i].name, time.Since(t0))
					}
					if err == nil && ops[i].fail {
						return fmt.Errorf("call %d (%s) without a connection returned no error", k, ops[i].name)
					}
				}
				if n := p.CountEv(rtspclient.RtspEventDisconnected); n > dials || len(p.Events) > n {
					return fmt.Errorf("events %s", p.Log())
				}
				base := len(p.Events)
				p.Answer = core.GoodServer(tr, "5")
				p.Start("rtsp://srv/x")
				if !p.Wait(few) {
					return errors.New("play after that did not return")
				}
				core.Quiesce()
				err := p.CheckWire()
				if err == nil && p.Err != nil {
					err = fmt.Errorf("play after that: %v", p.Err)
				}
				if err == nil && (p.Methods() != "DESCRIBE SETUP SETUP PLAY" || len(p.Events)-base != 1) {
					err = fmt.Errorf("play after that: %s, events %s", p.Methods(), p.Log())
				}
				c.Outcome("usable")
				p.Hangup()
				core.Quiesce()
				return err
			})
		})
	})
}
