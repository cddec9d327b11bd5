package conc

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient"

	"verifharness/core"
	"verifharness/mc"
)

func init() {
	core.Register(&core.Prop{ID: "C24", Run: c24,
		Assumptions: []string{"a step of a merge (call, answer, data, end) runs until every goroutine is blocked; the scenarios' goroutines switch at instrumented points",
			"in-memory transports, virtual clock"},
		Rule: "every merge of the steps of two (three) sessions' scripts with at most k changes of session, every pair of scripts; every schedule of the concurrent scenarios with at most k deviations; non-trivial: a merge that changes session at least once in the middle"})
}

// script is what one session does, step by step.
type script struct {
	name, url string
	tracks    []core.Track
	chal      string // challenge to the first DESCRIBE
	status    int    // of PLAY
	frames    [][]byte
	end       string
}

type party struct {
	sc      *script
	p       *core.Peer
	pending [][]byte
	frame   int
	n       int
	step    int
	result  partyOut
}

type partyOut struct {
	Reqs   []string
	Err    string
	Log    string
	Data   []string
	Media  map[int]rtspclient.MediaSubsession
	Closed bool
	Steps  int
}

func newParty(sc *script) *party {
	x := &party{sc: sc, p: core.NewPeer()}
	x.p.Answer = func(p *core.Peer, r core.Request) {
		x.n++
		var a string
		switch {
		case x.n == 1 && sc.chal != "":
			a = core.Resp(401, r.CSeq(), []string{"WWW-Authenticate: " + sc.chal}, "")
		case r.Method == "DESCRIBE":
			a = core.Resp(200, r.CSeq(), nil, core.SDP(sc.tracks))
		case r.Method == "SETUP":
			a = core.Resp(200, r.CSeq(), []string{"Session: id-" + sc.name, "Transport: " + r.Get("Transport")}, "")
		case r.Method == "PLAY" && sc.status != 0:
			a = core.Resp(sc.status, r.CSeq(), nil, "")
		default:
			a = core.Resp(200, r.CSeq(), nil, "")
		}
		x.pending = append(x.pending, []byte(a))
	}
	return x
}

// steps is how many steps the script has: the start, one per answer, one per
// frame, the end.
func (x *party) steps() int {
	n := 1 + 1 + len(x.sc.tracks) + 1 + len(x.sc.frames) + 1
	if x.sc.chal != "" {
		n++
	}
	return n
}

func (x *party) do() error {
	k := x.step
	x.step++
	defer core.Quiesce()
	answers := x.steps() - 2 - len(x.sc.frames)
	switch {
	case k == 0:
		return x.p.Start(x.sc.url)
	case k <= answers:
		if len(x.pending) == 0 {
			return fmt.Errorf("session %s: no request to answer at step %d (%s)", x.sc.name, k, x.p.Methods())
		}
		x.p.Conn.Feed(x.pending[0])
		x.pending = x.pending[1:]
	case k <= answers+len(x.sc.frames):
		if x.frame == 1 && x.sc.end == "close" { // a user call in between
			x.p.S.SendPause()
		}
		x.p.Conn.Feed(x.sc.frames[x.frame])
		x.frame++
	default:
		x.result.Media = x.p.S.RtpMediaMap
		switch x.sc.end {
		case "hangup":
			x.p.Conn.EOF(io.EOF)
		case "reset":
			x.p.Conn.EOF(errors.New("reset"))
		case "close":
			// without waiting for its answer: it is closed while another
			// session goes on
			go x.p.S.Close()
			core.Quiesce()
			for _, a := range x.pending {
				x.p.Conn.Feed(a)
			}
		}
	}
	return nil
}

func (x *party) out() partyOut {
	o := x.result
	o.Reqs = x.p.Trace(0)
	o.Err = fmt.Sprint(x.p.Returned, x.p.Err)
	o.Log = x.p.Log()
	for _, d := range x.p.Data {
		if d.Session != x.p.S {
			o.Data = append(o.Data, "of another session")
		}
		if string(d.Copy) != string(d.Data) {
			o.Data = append(o.Data, "changed later")
		}
		o.Data = append(o.Data, fmt.Sprintf("%d:%x", d.Ch, d.Copy))
	}
	o.Closed = x.p.Conn.Closed() > 0
	return o
}

func scripts() []*script {
	f := func(m bool, ch int, b ...byte) []byte { return core.Frame(ch, core.RTP(m, 96, 1, 1, b)) }
	// cut moves the last n bytes of a step's data to the next step
	cut := func(n int, p ...[]byte) [][]byte {
		for i := 0; i+1 < len(p); i++ {
			k := len(p[i]) - n
			p[i+1] = append(append([]byte(nil), p[i][k:]...), p[i+1]...)
			p[i] = p[i][:k]
		}
		return p
	}
	return []*script{
		{"a", "rtsp://u1:p1@h/a", []core.Track{{Kind: "video", Codec: "H264", PT: 96, Control: "t1"}}, `Digest realm="r", nonce="na"`, 0,
			cut(3, f(false, 0, 0x7c, 0x85, 1, 1), f(false, 0, 0x7c, 0x05, 2, 2), f(true, 0, 0x7c, 0x45, 3)), "hangup"},
		{"b", "rtsp://u2:p2@h2:8554/b?q", []core.Track{{Kind: "video", Codec: "H264", PT: 96, Control: "x"}}, `Basic realm="r"`, 0,
			cut(18, f(false, 0, 0x7c, 0x81, 4, 4), f(true, 0, 0x7c, 0x41, 5), f(true, 0, 0x78, 0, 1, 0x67, 0, 2, 0x68, 9)), "close"},
		{"c", "rtsp://h/c", []core.Track{{Kind: "video", Codec: "H265", PT: 96, Control: "c1"}, {Kind: "audio", Codec: "Q", PT: 97, Control: "c2"}}, "", 0,
			[][]byte{f(false, 0, 0x62, 1, 0x93, 6), append(f(false, 2, 7, 7), f(true, 0, 0x62, 1, 0x53, 8)...), f(true, 0, 0x60, 1, 0, 3, 0x40, 1, 5, 0, 3, 0x42, 1, 9)}, "reset"},
		{"d", "rtsp://h/d", []core.Track{{Kind: "video", Codec: "bbw", PT: 96, Control: "d1"}}, "", 0,
			[][]byte{f(false, 0, 10, 10), f(false, 0, 11), f(true, 0, 12, 12, 12)}, "close"},
		{"e", "rtsp://u5:p5@h/e", []core.Track{{Kind: "audio", Codec: "", PT: 0, Control: "e1"}}, `Digest realm="r", nonce="ne"`, 404,
			[][]byte{f(true, 0, 13)}, "hangup"},
	}
}

// runMerge runs the scripts with their steps in the given order.
func runMerge(scs []*script, order []int) ([]partyOut, error) {
	var xs []*party
	for _, s := range scs {
		xs = append(xs, newParty(s))
	}
	var err error
	for _, i := range order {
		if err == nil {
			err = xs[i].do()
		}
	}
	for _, x := range xs {
		x.p.Conn.EOF(io.EOF)
	}
	core.Quiesce()
	time.Sleep(10 * time.Second)
	core.Quiesce()
	var r []partyOut
	for _, x := range xs {
		r = append(r, x.out())
	}
	return r, err
}

// merges calls f with every order of n[i] steps of session i with at most k
// changes of session.
func merges(n []int, k int, f func(order []int)) {
	var order []int
	left := append([]int(nil), n...)
	total := 0
	for _, x := range n {
		total += x
	}
	var rec func(last, ch int)
	rec = func(last, ch int) {
		if len(order) == total {
			f(order)
			return
		}
		for i := range left {
			if left[i] == 0 {
				continue
			}
			c := ch
			if last >= 0 && i != last {
				c++
			}
			// the sessions with steps left each need another change
			need := 0
			for j := range left {
				if j != i && left[j] > 0 {
					need++
				}
			}
			if c+need > k {
				continue
			}
			left[i]--
			order = append(order, i)
			rec(i, c)
			order = order[:len(order)-1]
			left[i]++
		}
	}
	rec(-1, 0)
}

func sameParty(got, want partyOut) error {
	if got.Err != want.Err {
		return fmt.Errorf("result %q, alone %q", got.Err, want.Err)
	}
	if !reflect.DeepEqual(got.Reqs, want.Reqs) {
		return fmt.Errorf("requests\n  %s\nalone\n  %s", strings.Join(got.Reqs, "\n  "), strings.Join(want.Reqs, "\n  "))
	}
	if got.Log != want.Log {
		return fmt.Errorf("events %q, alone %q", got.Log, want.Log)
	}
	if !reflect.DeepEqual(got.Data, want.Data) {
		return fmt.Errorf("data %v, alone %v", got.Data, want.Data)
	}
	if !reflect.DeepEqual(got.Media, want.Media) {
		return fmt.Errorf("media %v, alone %v", got.Media, want.Media)
	}
	if got.Closed != want.Closed {
		return fmt.Errorf("closed %v, alone %v", got.Closed, want.Closed)
	}
	return nil
}

func c24(c *core.Ctx) {
	all := scripts()
	alone := map[string]partyOut{}
	ref := func(s *script) (partyOut, error) {
		if o, ok := alone[s.name]; ok {
			return o, nil
		}
		var o []partyOut
		err := core.Bubble(c.T, func() error {
			var err error
			o, err = runMerge([]*script{s}, make([]int, newParty(s).steps()))
			return err
		})
		if err != nil {
			return partyOut{}, fmt.Errorf("alone: %w", err)
		}
		alone[s.name] = o[0]
		return o[0], nil
	}
	group := func(name string, k, sessions int) {
		c.Group(name)
		c.Bound("changes_of_session/"+name, k)
		core.Tuples(len(all), sessions, sessions, func(t []int) {
			for i := 1; i < len(t); i++ {
				if t[i] < t[i-1] {
					return
				}
			}
			var scs []*script
			var n []int
			var nm []string
			for _, i := range t {
				scs = append(scs, all[i])
				n = append(n, newParty(all[i]).steps())
				nm = append(nm, all[i].name)
			}
			merges(n, k, func(order []int) {
				if c.Stop() {
					return
				}
				order = append([]int(nil), order...)
				c.Do(func() string { return fmt.Sprintf("sessions %s, steps in the order %v", strings.Join(nm, ","), order) }, func() error {
					ch := 0
					for i := 1; i < len(order); i++ {
						if order[i] != order[i-1] {
							ch++
						}
					}
					if ch >= len(t) {
						c.Nontrivial()
					}
					c.Trans(len(order))
					c.State(fmt.Sprint(nm, order))
					var want []partyOut
					for _, s := range scs {
						o, err := ref(s)
						if err != nil {
							return err
						}
						want = append(want, o)
					}
					return core.Bubble(c.T, func() error {
						got, err := runMerge(scs, order)
						if err != nil {
							return err
						}
						for i := range got {
							if err := sameParty(got[i], want[i]); err != nil {
								return fmt.Errorf("session %d (%s): %v", i, nm[i], err)
							}
							c.Outcome(nm[i] + " " + got[i].Err + " " + got[i].Log)
						}
						return nil
					})
				})
			})
		})
	}
	if c.Thorough() {
		group("two sessions", 9, 2)
		group("three sessions", 4, 3)
	} else {
		group("two sessions", 5, 2)
		group("three sessions", 3, 3)
	}

	// at the same time, at every shared access
	var scs []*scenario
	max := 1
	add := func(name string, setup func(a, b *sessSys)) {
		// at most one preemption, anywhere, is what a mix-up needs
		scs = append(scs, &scenario{name: name, max: max, setup: func(m *mc.Ctl) func() error {
			a, b := newSess(m), newSess(m)
			b.p.Answer = core.GoodServer([]core.Track{{Kind: "video", Codec: "H264", PT: 96, Control: "other"}}, "sess2")
			setup(a, b)
			return func() error {
				for i, s := range []*sessSys{a, b} {
					if err := s.check(); err != nil {
						return fmt.Errorf("session %d: %v", i, err)
					}
					for _, r := range s.p.Reqs {
						want := fmt.Sprintf("sess%d", i+1)
						if r.Method != "DESCRIBE" && r.Method != "SETUP" && r.Get("Session") != want {
							return fmt.Errorf("%s of session %d names session %q", r.Method, i, r.Get("Session"))
						}
					}
					if err := s.p.CheckWire(); err != nil {
						return fmt.Errorf("session %d: %v", i, err)
					}
					for _, d := range s.p.Data {
						if d.Session != s.p.S || d.Copy[1]>>7 != byte(i) || string(d.Data) != string(d.Copy) {
							return fmt.Errorf("session %d was given %x", i, d.Data)
						}
					}
				}
				return nil
			}
		}})
	}
	frag := func(s *sessSys, i int) {
		id := byte(i<<7 | 1)
		s.p.Conn.Feed(core.Frame(0, core.RTP(false, 96, 1, 1, []byte{0x5c, 0x81})))
		mc.Step("x")
		s.p.Conn.Feed(core.Frame(0, core.RTP(true, 96, 2, 1, []byte{0x5c, 0x41, id})))
	}
	add("two sessions play", func(a, b *sessSys) {
		for i, s := range []*sessSys{a, b} {
			mc.GoNamed("player", func() {
				s.play()
				frag(s, i)
				s.p.Conn.EOF(io.EOF)
			})
		}
	})
	add("two sessions set up", func(a, b *sessSys) {
		mute := &a.m.Mute
		mute.Store(true)
		for i, s := range []*sessSys{a, b} {
			g := s.p.Answer
			s.p.Answer = func(p *core.Peer, r core.Request) {
				if r.Method == "SETUP" {
					mute.Store(false)
				}
				if r.Method == "TEARDOWN" {
					mute.Store(true)
				}
				g(p, r)
				if r.Method == "PLAY" {
					frag(s, i)
				}
			}
			mc.GoNamed("player", func() { s.play(); s.close("1") })
		}
	})
	add("aggregates and fragments of two sessions", func(a, b *sessSys) {
		mute := &a.m.Mute
		mute.Store(true)
		mc.GoNamed("player", func() {
			a.play()
			b.play()
			mute.Store(false)
			done := make(chan bool, 2)
			for i, s := range []*sessSys{a, b} {
				mc.GoNamed("server", func() {
					id := byte(i << 7)
					s.p.Conn.Feed(core.Frame(0, core.RTP(true, 96, 1, 1, []byte{0x58, 0, 2, 0x41, id | 1, 0, 2, 0x41, id | 2})))
					s.p.Conn.Feed(core.Frame(0, core.RTP(false, 96, 2, 1, []byte{0x5c, 0x81})))
					mc.Step("x")
					s.p.Conn.Feed(core.Frame(0, core.RTP(true, 96, 3, 1, []byte{0x5c, 0x41, id | 3})))
					mc.Step("x")
					done <- true
				})
			}
			<-done
			<-done
			mc.Step("sent")
			time.Sleep(time.Second)
			mute.Store(true)
			for i, s := range []*sessSys{a, b} {
				if n := len(s.p.Data); n != 3 && s.bad == nil {
					s.bad = fmt.Errorf("session %d was given %d units of 3", i, n)
				}
				s.p.Conn.EOF(io.EOF)
			}
		})
	})
	if c.Thorough() {
		max = 2
	}
	add("data and close of two sessions", func(a, b *sessSys) {
		mute := &a.m.Mute
		mute.Store(true)
		mc.GoNamed("player", func() {
			a.play()
			b.play()
			mute.Store(false)
			mc.GoNamed("server", func() { frag(a, 0) })
			mc.GoNamed("closer", func() { b.close("1") })
			frag(b, 1)
			a.close("1")
		})
	})
	runAll(c, scs, 8000, 60000)
}
