package seq

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C07",
		Rule: "all sequences up to the bound of request and wait calls on a playing session whose server answers at once, after the next call, or never, compared with a reference machine (outstanding request, next CSeq, session id); " +
			"all session header forms; all small start times and speeds; non-trivial: at least two calls",
		Assumptions: []string{"the session identifier is the one given by the SETUP answers"},
		Run:         c07,
	})
}

type callOp struct {
	name string
	meth string
	do   func(p *core.Peer) error
	chk  func(r core.Request) error
}

func num(s string) (float64, error) { return strconv.ParseFloat(strings.TrimSpace(s), 64) }

func playOp(start, speed int) callOp {
	return callOp{fmt.Sprintf("play(%d,%d)", start, speed), "PLAY",
		func(p *core.Peer) error { return p.S.SendPlay(start, speed) },
		func(r core.Request) error {
			if r.Has("Range") != (start != 0) {
				return fmt.Errorf("Range header %q for start time %d", r.Get("Range"), start)
			}
			if start != 0 {
				v := strings.ReplaceAll(r.Get("Range"), " ", "")
				if !strings.HasPrefix(v, "npt=") || !strings.HasSuffix(v, "-") {
					return fmt.Errorf("Range header %q", v)
				}
				if f, err := num(v[4 : len(v)-1]); err != nil || f != float64(start) {
					return fmt.Errorf("Range header %q for start time %d", v, start)
				}
			}
			if r.Has("Speed") != (speed != 1) {
				return fmt.Errorf("Speed header %q for speed %d", r.Get("Speed"), speed)
			}
			if speed != 1 {
				if f, err := num(r.Get("Speed")); err != nil || f != float64(speed) {
					return fmt.Errorf("Speed header %q for speed %d", r.Get("Speed"), speed)
				}
			}
			return nil
		}}
}

func callOps() []callOp {
	return []callOp{
		playOp(0, 1), playOp(5, 2),
		{"pause", "PAUSE", func(p *core.Peer) error { return p.S.SendPause() }, nil},
		{"setup", "SETUP", func(p *core.Peer) error { return p.S.SendTcpSetup("rtsp://host/stream/t9", 18, 19) }, func(r core.Request) error {
			if r.URI != "rtsp://host/stream/t9" || !strings.Contains(r.Get("Transport")+";", "interleaved=18-19;") {
				return fmt.Errorf("SETUP %s with transport %q", r.URI, r.Get("Transport"))
			}
			return nil
		}},
		{"describe", "DESCRIBE", func(p *core.Peer) error { return p.S.SendDescribe() }, nil},
		{"teardown", "TEARDOWN", func(p *core.Peer) error { return p.S.SendTeardown() }, nil},
		{"wait", "", nil, nil},
	}
}

// callSeq runs one sequence of calls after a handshake. mode: 0 the server
// answers at once, 1 the answer comes just before the next call, 2 never, 3 at
// once but with something that cannot be parsed, 4 at once with a refusal, 5 at
// once, and sends an answer to nothing before each request.
func callSeq(c *core.Ctx, ops []callOp, mode int, sessHdr, sessID, auth string) error {
	return core.Bubble(c.T, func() error {
		p := core.NewPeer()
		tr := []core.Track{{Kind: "video", Codec: "JPEG", PT: 96, Control: "t1"}, {Kind: "audio", Codec: "X", PT: 97, Control: "t2"}}
		playing := false
		var held [][]byte
		p.Answer = func(p *core.Peer, r core.Request) {
			tmp := &core.Peer{Conn: core.NewConn()}
			switch r.Method {
			case "DESCRIBE":
				core.GoodServer(tr, "")(tmp, r)
			default:
				tmp.Conn.Feed([]byte(core.Resp(200, r.CSeq(), []string{sessHdr}, "")))
			}
			ans := tmp.Conn.Drain()
			if playing && mode == 3 {
				ans = []byte("RTSP/1.0 abc\r\nCSeq: 1\r\n\r\n")
			}
			if playing && mode == 4 {
				ans = []byte(core.Resp(454, r.CSeq(), nil, ""))
			}
			if !playing || mode == 0 || mode > 2 {
				p.Conn.Feed(ans)
			} else {
				held = append(held, ans)
			}
		}
		p.Start("rtsp://host/stream")
		if !p.Wait(30*time.Second) || p.Err != nil {
			return fmt.Errorf("handshake: %v (%s)", p.Err, p.Methods())
		}
		core.Quiesce()
		playing = true
		base := p.NumReqs()
		expect := base
		outstanding, answered, up := false, false, true
		var err error
		for i, op := range ops {
			if mode == 1 && len(held) > 0 {
				p.Conn.Feed(held...)
				held = nil
				core.Quiesce()
				answered = true
			}
			if mode == 5 && !outstanding && up {
				if op.do == nil {
					break // would get the answer to nothing
				}
				p.Conn.Feed([]byte(core.Resp(500, 77, nil, "")))
				core.Quiesce()
			}
			if op.do == nil {
				t0 := time.Now()
				r, e := p.S.WaitRtspResponse()
				el := time.Since(t0)
				core.Quiesce()
				if up && outstanding && answered {
					if mode == 3 {
						if e == nil {
							err = fmt.Errorf("call %d: wait gave %+v for an answer without a status", i, r)
							break
						}
					} else if want := map[bool]int{false: 200, true: 454}[mode == 4]; e != nil || r == nil || r.Status != want {
						err = fmt.Errorf("call %d: wait for an answer that had arrived: %v, %v", i, r, e)
						break
					}
				} else if e == nil {
					err = fmt.Errorf("call %d: wait without an answer returned no error", i)
					break
				} else {
					up = false
					if el > 5*time.Second {
						err = fmt.Errorf("call %d: wait took %v", i, el)
						break
					}
				}
				outstanding, answered = false, false
				continue
			}
			e := op.do(p)
			core.Quiesce()
			if outstanding {
				if e == nil {
					err = fmt.Errorf("call %d (%s) was accepted while an answer was outstanding", i, op.name)
					break
				}
			} else if up {
				if e != nil {
					err = fmt.Errorf("call %d (%s): %v", i, op.name, e)
					break
				}
				outstanding, answered = true, mode != 1 && mode != 2
				expect++
			} else {
				// the connection is gone; nothing may be sent
				if e == nil {
					outstanding = true
				}
			}
			if p.NumReqs() != expect {
				err = fmt.Errorf("after call %d (%s): %d requests on the wire, want %d", i, op.name, p.NumReqs()-base, expect-base)
				break
			}
			if expect > base && e == nil && up {
				r := p.Reqs[expect-1]
				if r.Method != op.meth {
					err = fmt.Errorf("call %d (%s) sent %s", i, op.name, r.Method)
					break
				}
				if op.chk != nil {
					if err = op.chk(r); err != nil {
						break
					}
				}
			}
		}
		if err == nil {
			err = p.CheckWire()
		}
		given := false
		for i, r := range p.Reqs {
			if err != nil {
				break
			}
			if i > 0 && p.Reqs[i-1].Method == "SETUP" {
				given = true
			}
			need := given && r.Method != "DESCRIBE"
			if need && (len(r.Header["SESSION"]) != 1 || r.Get("Session") != sessID) {
				err = fmt.Errorf("%s request with session %q, the server gave %q", r.Method, r.Header["SESSION"], sessHdr)
			}
		}
		c.Trans(len(ops))
		p.Hangup()
		time.Sleep(20 * time.Second)
		return err
	})
}

func c07(c *core.Ctx) {
	ops := callOps()
	depth := 5
	if c.Thorough() {
		depth = 6
	}
	c.Bound("calls", depth)
	c.Group("calls")
	core.Tuples(len(ops), 1, depth, func(t []int) {
		if c.Stop() {
			return
		}
		var seq []callOp
		var nm []string
		for _, i := range t {
			seq = append(seq, ops[i])
			nm = append(nm, ops[i].name)
		}
		c.State(nm)
		for mode := 0; mode < 6; mode++ {
			mode := mode
			if mode > 0 && len(t) == depth && !c.Thorough() {
				continue
			}
			c.Do(func() string {
				return strings.Join(nm, " ") + ", answers " + []string{"at once", "before the next call", "never", "malformed", "refusals", "also to nothing"}[mode]
			}, func() error {
				if len(seq) > 1 {
					c.Nontrivial()
				}
				return callSeq(c, seq, mode, "Session: 12345678", "12345678", "")
			})
		}
	})
	c.Group("session-headers")
	ids := []string{"1", "12345678", "abc-DEF_0.9$+", strings.Repeat("x9", 60), "9F3A;X", "00120300", "0", "-1", "$$", "a.b.", "_", "ÀÉ"}
	for _, id := range ids {
		id = strings.SplitN(id, ";", 2)[0]
		for _, name := range []string{"Session", "session", "SESSION", "Session "} {
			for _, pre := range []string{"", " ", "  "} {
				for _, post := range []string{"", ";timeout=60", "; timeout=60", " ;timeout=60", ";timeout=60;x=y", " "} {
					h := name + ":" + pre + id + post
					id := id
					c.Do(func() string { return fmt.Sprintf("session header %q", h) }, func() error {
						c.Nontrivial()
						return callSeq(c, []callOp{ops[2], ops[6], ops[0], ops[6], ops[3], ops[6], ops[5]}, 0, h, id, "")
					})
				}
			}
		}
	}
	c.Group("play-parameters")
	starts := []int{0, 1, 2, 3, 5, 7, 9, 10, 59, 60, 99, 100, 3600, 86399, 1000000, 16777217, 2147483647}
	speeds := []int{0, 1, 2, 3, 4, 8, 16, 32, -1, -2, -8, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 32768, 65536, -128, -129, -1000}
	for i := 0; i < 200; i++ {
		starts = append(starts, i)
	}
	for _, st := range starts {
		for _, sp := range speeds {
			st, sp := st, sp
			c.Do(func() string { return fmt.Sprintf("play(%d,%d)", st, sp) }, func() error {
				c.Nontrivial()
				return callSeq(c, []callOp{playOp(st, sp), ops[6], playOp(0, 1), ops[6], ops[2]}, 0, "Session: 7", "7", "")
			})
		}
	}
}
