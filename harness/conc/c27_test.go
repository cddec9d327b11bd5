package conc

import (
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	"verifharness/core"
	"verifharness/mc"
)

func init() {
	core.Register(&core.Prop{ID: "C27", Run: c27,
		Assumptions: []string{"goroutines switch only where the instrumentation places a point: channel and lock operations, accesses to fields, globals and captured variables touched by several threads, environment operations, and the harness's own steps",
			"in-memory transport, virtual clock; time passes when every thread is blocked; the server answers each request once, at once or after a while"},
		Rule: "every schedule of each scenario (several callers of play, describe, setup, pause, teardown and close about one session, the session's routines, the server) with at most k deviations from the default schedule; non-trivial: a run with at least two decisions"})
}

// reqSys is one session, a server which knows which answers it owes, and the calls.
type reqSys struct {
	*sessSys
	owed     int
	accepted map[string]int // calls that returned nil, by method
	closing  bool           // some call closes the connection
	playErr  error
	played   bool
	base     int // requests of the play before
	rmu      sync.Mutex
}

func (s *reqSys) fail(f string, a ...any) {
	s.rmu.Lock()
	if s.bad == nil {
		s.bad = fmt.Errorf(f, a...)
	}
	s.rmu.Unlock()
}

func newReq(m *mc.Ctl, delay time.Duration) *reqSys {
	s := &reqSys{sessSys: newSess(m), accepted: map[string]int{}}
	g := s.p.Answer
	s.p.Answer = func(p *core.Peer, r core.Request) {
		s.rmu.Lock()
		s.owed++
		if s.owed > 1 && s.bad == nil {
			s.bad = fmt.Errorf("%s (CSeq %d) was sent while the answer to another request was outstanding", r.Method, r.CSeq())
		}
		s.rmu.Unlock()
		mc.GoNamed("answer", func() {
			if delay > 0 {
				time.Sleep(delay)
			}
			mc.Step("answer")
			s.rmu.Lock()
			s.owed--
			s.rmu.Unlock()
			g(p, r)
		})
	}
	return s
}

// send makes one request and, unless it was refused, waits for the answer.
func (s *reqSys) send(name, method string, f func() error) {
	s.call(name, 10*time.Second, func() {
		if f() != nil {
			return
		}
		s.rmu.Lock()
		s.accepted[method]++
		s.rmu.Unlock()
		r, err := s.p.S.WaitRtspResponse()
		if err == nil && r.Status != 200 {
			s.fail("%s was answered with %d", method, r.Status)
		}
		if err != nil && !s.closing {
			s.fail("%s was sent and answered, but the call got %v", method, err)
		}
	})
}

// raw makes one request and does not wait for the answer.
func (s *reqSys) raw(name, method string, f func() error) {
	s.call(name, 10*time.Second, func() {
		if f() == nil {
			s.rmu.Lock()
			s.accepted[method]++
			s.rmu.Unlock()
		}
	})
}

// wait waits for the answer to somebody else's request.
func (s *reqSys) wait(name string) {
	s.call(name, 10*time.Second, func() {
		if r, err := s.p.S.WaitRtspResponse(); err != nil || r.Status != 200 {
			s.fail("waiting for the answer: %v", err)
		}
	})
}

func (s *reqSys) check() error {
	if s.bad != nil {
		return s.bad
	}
	for _, k := range s.order {
		if s.calls[k] == 0 {
			return fmt.Errorf("%s never returned (%s)", k, s.p.Log())
		}
	}
	if err := s.p.CheckWire(); err != nil {
		return fmt.Errorf("%v (%s)", err, s.p.Methods())
	}
	got := map[string]int{}
	for _, r := range s.p.Reqs[s.base:] {
		got[r.Method]++
		if s.base > 0 && r.Method != "DESCRIBE" && r.Get("Session") != "sess1" {
			return fmt.Errorf("%s about session %q", r.Method, r.Get("Session"))
		}
	}
	if s.base > 0 {
		for _, me := range []string{"DESCRIBE", "SETUP", "PLAY", "PAUSE"} {
			if n := s.accepted[me]; got[me] > n || got[me] < n && !s.closing {
				return fmt.Errorf("%d %s calls were accepted, %d sent", n, me, got[me])
			}
		}
		if !s.closing && got["TEARDOWN"] != s.accepted["TEARDOWN"] {
			return fmt.Errorf("%d TEARDOWN calls were accepted, %d sent", s.accepted["TEARDOWN"], got["TEARDOWN"])
		}
	} else if s.played && s.playErr == nil {
		i := 0
		for _, r := range s.p.Reqs {
			if i < 3 && r.Method == []string{"DESCRIBE", "SETUP", "PLAY"}[i] {
				i++
			}
		}
		if i < 3 {
			return fmt.Errorf("playing succeeded, but only %s was sent", s.p.Methods())
		}
	}
	log := " " + s.p.Log() + " "
	if n := strings.Count(log, " disconnected "); n != 1 {
		return fmt.Errorf("%d disconnected events: %s", n, log)
	}
	if n := s.m.Live(); n != 0 {
		return fmt.Errorf("%d routines still running", n)
	}
	return nil
}

func c27(c *core.Ctx) {
	var scs []*scenario
	type actor func(s *reqSys)
	add := func(name string, max int, setup func(m *mc.Ctl) *reqSys) {
		scs = append(scs, &scenario{name: name, max: max, setup: func(m *mc.Ctl) func() error { return setup(m).check }})
	}
	delays := []time.Duration{0}
	if c.Thorough() {
		delays = append(delays, 500*time.Millisecond)
	}
	// a session that plays, then several callers at once
	playing := func(name string, closing bool, actors ...actor) {
		for _, d := range delays {
			d := d
			add(fmt.Sprintf("playing, %s (answers after %v)", name, d), 0, func(m *mc.Ctl) *reqSys {
				s := newReq(m, d)
				s.closing = closing
				m.Mute.Store(true)
				mc.GoNamed("player", func() {
					s.play()
					s.rmu.Lock()
					s.base = s.p.NumReqs()
					s.rmu.Unlock()
					m.Mute.Store(false)
					for _, f := range actors[1:] {
						f := f
						mc.GoNamed("actor", func() { f(s) })
					}
					actors[0](s)
				})
				mc.GoNamed("hangup", func() { time.Sleep(15 * time.Second); s.p.Conn.EOF(io.EOF) })
				return s
			})
		}
	}
	n := 0
	mk := func(method string, f func(s *reqSys) error) actor {
		n++
		name := fmt.Sprint(method, " ", n)
		return func(s *reqSys) { s.send(name, method, func() error { return f(s) }) }
	}
	pause := func() actor { return mk("PAUSE", func(s *reqSys) error { return s.p.S.SendPause() }) }
	play := func() actor { return mk("PLAY", func(s *reqSys) error { return s.p.S.SendPlay(3, 2) }) }
	describe := func() actor { return mk("DESCRIBE", func(s *reqSys) error { return s.p.S.SendDescribe() }) }
	setup := func() actor {
		return mk("SETUP", func(s *reqSys) error { return s.p.S.SendTcpSetup("rtsp://srv/x/t2", 2, 3) })
	}
	teardown := func() actor { return mk("TEARDOWN", func(s *reqSys) error { return s.p.S.SendTeardown() }) }
	cl := func() actor {
		n++
		name := fmt.Sprint(n)
		return func(s *reqSys) { s.close(name) }
	}
	seq := func(as ...actor) actor {
		return func(s *reqSys) {
			for _, a := range as {
				a(s)
			}
		}
	}
	playing("paused twice at once", false, pause(), pause())
	playing("paused against played elsewhere", false, pause(), play())
	playing("described against set up", false, describe(), setup())
	playing("torn down twice at once", false, teardown(), teardown())
	playing("paused three times at once", false, pause(), pause(), pause())
	playing("paused and played twice by two callers", false, seq(pause(), play()), seq(pause(), play()))
	playing("closed against paused", true, cl(), pause())
	playing("closed twice at once", true, cl(), cl())
	playing("closed against paused and played", true, cl(), seq(pause(), play()))
	playing("closed twice against set up", true, cl(), cl(), setup())
	// one goroutine sends, another waits for the answers and sends then
	playing("requested by one, waited for by another which requests at once", false,
		func(s *reqSys) { s.raw("pause", "PAUSE", s.p.S.SendPause) },
		func(s *reqSys) {
			s.wait("wait")
			s.send("play", "PLAY", func() error { return s.p.S.SendPlay(3, 2) })
		})
	// calls while the session is being set up
	for _, me := range []string{"DESCRIBE", "SETUP", "PLAY"} {
		me := me
		for _, d := range delays {
			d := d
			for _, what := range []string{"closed", "paused", "torn down"} {
				what := what
				add(fmt.Sprintf("%s from elsewhere at %s (answers after %v)", what, me, d), 0, func(m *mc.Ctl) *reqSys {
					s := newReq(m, d)
					s.closing = true
					// decisions from this request to the next one of the play
					m.Mute.Store(true)
					g := s.p.Answer
					ch := make(chan struct{}, 8)
					s.p.Answer = func(p *core.Peer, r core.Request) {
						if r.Method == me {
							m.Mute.Store(false)
							ch <- struct{}{}
						} else if r.Method == "SETUP" || r.Method == "PLAY" {
							m.Mute.Store(true)
						}
						g(p, r)
					}
					mc.GoNamed("player", func() {
						err := s.play()
						s.rmu.Lock()
						s.played, s.playErr = true, err
						s.rmu.Unlock()
					})
					mc.GoNamed("other", func() {
						select {
						case <-ch:
						case <-time.After(10 * time.Second):
						}
						mc.Step("x")
						switch what {
						case "closed":
							s.close("1")
						case "paused":
							s.send("pause", "PAUSE", s.p.S.SendPause)
						case "torn down":
							s.send("teardown", "TEARDOWN", s.p.S.SendTeardown)
						}
					})
					mc.GoNamed("hangup", func() { time.Sleep(15 * time.Second); s.p.Conn.EOF(io.EOF) })
					return s
				})
			}
		}
	}
	runAll(c, scs, 2500, 25000)
}
