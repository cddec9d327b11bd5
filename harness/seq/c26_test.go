package seq

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync/atomic"
	"time"

	"github.com/NodeBoy2/rtspclient"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C26",
		Rule: "every stream x every choice of up to two deliveries whose handler is slow x how slow x when the stream is cut and ends x what handlers do with the data; " +
			"non-trivial: a handler is slow, or changes the data it was given, before the last delivery",
		Assumptions: []string{"the transport accepts whatever the server sends while the client does not read", "virtual clock"},
		Run:         c26,
	})
}

type c26stream struct {
	name   string
	tracks []core.Track
	frames [][]byte
	want   []string
}

// slowPlan is which deliveries take how long.
type slowPlan map[int]time.Duration

func c26streams() []c26stream {
	f := func(m bool, ch int, b ...byte) []byte { return core.Frame(ch, core.RTP(m, 96, 1, 1, b)) }
	big := core.Pattern(9, 60000)
	return []c26stream{
		{"H264", []core.Track{{Kind: "video", Codec: "H264", PT: 96, Control: "t1"}},
			[][]byte{f(false, 0, 0x67, 1, 2), f(true, 0, 0x78, 0, 2, 0x68, 3, 0, 3, 0x06, 4, 5, 0, 1, 0x09), f(false, 0, 0x7c, 0x85, 6, 6), f(true, 0, 0x7c, 0x45, 7, 7), f(true, 0, 0x41, 8)},
			[]string{"0:670102", "0:6803", "0:060405", "0:09", "0:6506060707", "0:4108"}},
		{"H265 and plain", []core.Track{{Kind: "video", Codec: "H265", PT: 96, Control: "t1"}, {Kind: "audio", PT: 0, Control: "t2"}},
			[][]byte{f(false, 0, 0x62, 1, 0x93, 6, 6), f(true, 2, 1, 1), f(true, 0, 0x62, 1, 0x53, 7), f(true, 2, 2), f(true, 0, 0x60, 1, 0, 3, 0x40, 1, 5, 0, 3, 0x42, 1, 9), f(true, 2, 3)},
			[]string{"2:0101", "0:2601060607", "2:02", "0:400105", "0:420109", "2:03"}},
		{"bbw", []core.Track{{Kind: "data", Codec: "bbw", PT: 96, Control: "t1"}},
			[][]byte{f(true, 0, 1), f(false, 0, 2, 2), f(true, 0, 3), f(true, 0, 4, 4, 4), f(false, 0, 5), f(true, 0, 6)},
			[]string{"0:01", "0:020203", "0:040404", "0:0506"}},
		{"large", []core.Track{{Kind: "data", Codec: "Q", PT: 96, Control: "t1"}},
			[][]byte{f(true, 0, big...), f(true, 0, 1), f(true, 0, big[:40000]...), f(true, 0, big[5:]...)},
			[]string{fmt.Sprintf("0:%x", big), "0:01", fmt.Sprintf("0:%x", big[:40000]), fmt.Sprintf("0:%x", big[5:])}},
	}
}

var c26uses = []string{"keeps", "overwrites", "appends", "overwrites all it kept"}

// c26run plays the stream and checks the deliveries, in order and one at a time.
func c26run(c *core.Ctx, s c26stream, plan slowPlan, onSuccess time.Duration, use int, end string, early bool, feed func(p *core.Peer, frames [][]byte)) error {
	return core.Bubble(c.T, func() error {
		p := core.NewPeer()
		good := core.GoodServer(s.tracks, "s1")
		p.Answer = func(p *core.Peer, r core.Request) {
			good(p, r)
			if r.Method == "PLAY" && early {
				feed(p, s.frames)
			}
		}
		var busy atomic.Int32
		var bad atomic.Value
		var kept [][]byte
		p.Handle = func(i int, d *rtspclient.RtspData) {
			if busy.Add(1) != 1 {
				bad.Store(fmt.Sprintf("delivery %d while another is being handled", i))
			}
			if d.Session != p.S {
				bad.Store("the data names another session")
			}
			if t := plan[i]; t != 0 {
				time.Sleep(t)
			}
			kept = append(kept, d.Data)
			switch use {
			case 1:
				for k := range d.Data {
					d.Data[k] = 0xee
				}
			case 2:
				x := append(d.Data, bytes.Repeat([]byte{0xee}, 64)...)
				for k := range x[len(d.Data):] {
					x[len(d.Data)+k] = 0xdd
				}
			case 3:
				for _, b := range kept {
					b = b[:cap(b)]
					for k := range b {
						b[k] ^= 0xff
					}
				}
			}
			busy.Add(-1)
		}
		p.OnEv = func(e int) {
			if e == rtspclient.RtspEventRequestSuccess && onSuccess != 0 {
				time.Sleep(onSuccess)
			}
		}
		if err := p.Start("rtsp://h:1/x"); err != nil {
			return err
		}
		core.Quiesce()
		if !early {
			if onSuccess == 0 && (!p.Returned || p.Err != nil) {
				return fmt.Errorf("play: %v", p.Err)
			}
			feed(p, s.frames)
		}
		sent := time.Now()
		ended := func() {
			switch end {
			case "hangs up":
				p.Conn.EOF(io.EOF)
			case "resets":
				p.Conn.EOF(errors.New("reset"))
			}
		}
		if end == "hangs up" || end == "resets" {
			ended()
		}
		total := onSuccess
		for i := range plan {
			if i < len(s.want) {
				total += plan[i]
			}
		}
		if onSuccess > 0 && len(plan) == 0 {
			// the handler of the event holds up nothing
			time.Sleep(onSuccess / 2)
			core.Quiesce()
			if n := len(p.Data); n != len(s.want) && !(early && n == 0) {
				return fmt.Errorf("%d of %d units while the event is being handled", n, len(s.want))
			}
		}
		time.Sleep(total + time.Second)
		core.Quiesce()
		if v := bad.Load(); v != nil {
			return errors.New(v.(string))
		}
		if !p.Returned || p.Err != nil {
			return fmt.Errorf("play: %v %v", p.Returned, p.Err)
		}
		var got []string
		for _, d := range p.Data {
			got = append(got, fmt.Sprintf("%d:%x", d.Ch, d.Copy))
			if use == 0 && !bytes.Equal(d.Copy, d.Data) {
				return fmt.Errorf("a unit changed from %.60x to %.60x", d.Copy, d.Data)
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(s.want) {
			return fmt.Errorf("delivered %.400s, want %.400s", fmt.Sprint(got), fmt.Sprint(s.want))
		}
		switch end {
		case "hangs up", "resets":
			if !strings.HasSuffix(p.Log(), "disconnected") || p.CountEv(rtspclient.RtspEventDisconnected) != 1 {
				return fmt.Errorf("events %s", p.Log())
			}
		default:
			if p.CountEv(rtspclient.RtspEventDisconnected) != 0 {
				return fmt.Errorf("disconnected after %v: %s", time.Since(sent), p.Log())
			}
			// and it still works
			p.Conn.Feed(core.Frame(0, core.RTP(true, 96, 9, 9, []byte{0x41, 0x02, 0x41})))
			core.Quiesce()
			if n := len(p.Data); n != len(got)+1 {
				return fmt.Errorf("%d units after another packet", n-len(got))
			}
			if d := p.Data[len(got)]; !bytes.Equal(d.Copy, []byte{0x41, 0x02, 0x41}) {
				return fmt.Errorf("then delivered %x", d.Copy)
			}
			p.Hangup()
		}
		time.Sleep(10 * time.Second)
		core.Quiesce()
		if n := p.CountEv(rtspclient.RtspEventDisconnected); n != 1 {
			return fmt.Errorf("%d disconnected events", n)
		}
		c.Outcome(s.name + " " + end)
		return nil
	})
}

func c26(c *core.Ctx) {
	durs := []time.Duration{time.Millisecond, 1900 * time.Millisecond, 2100 * time.Millisecond, 7 * time.Second, 10 * time.Minute}
	feeds := []struct {
		name string
		f    func(p *core.Peer, frames [][]byte)
	}{
		{"at once", func(p *core.Peer, fr [][]byte) { p.Conn.Feed(bytes.Join(fr, nil)) }},
		{"a frame at a time", func(p *core.Peer, fr [][]byte) {
			for _, f := range fr {
				p.Conn.Feed(f)
			}
		}},
		{"half frames", func(p *core.Peer, fr [][]byte) {
			b := bytes.Join(fr, nil)
			for len(b) > 0 {
				n := min(len(b), 11)
				if len(b) > 500 {
					n = 1001
				}
				n = min(n, len(b))
				p.Conn.Feed(b[:n])
				b = b[n:]
			}
		}},
	}
	c.Bound("slow_deliveries", 2)
	c.Bound("how_slow", durs)
	for _, s := range c26streams() {
		c.Group(s.name)
		var plans []slowPlan
		plans = append(plans, slowPlan{})
		for i := range s.want {
			for _, d := range durs {
				plans = append(plans, slowPlan{i: d})
				for j := i + 1; j < len(s.want); j++ {
					for _, e := range durs {
						if c.Thorough() || e == d || e == durs[0] {
							plans = append(plans, slowPlan{i: d, j: e})
						}
					}
				}
			}
		}
		all := slowPlan{}
		for i := range s.want {
			all[i] = 3 * time.Second
		}
		plans = append(plans, all)
		for _, plan := range plans {
			for use := range c26uses {
				for _, end := range []string{"plays on", "hangs up", "resets"} {
					for fi, fd := range feeds {
						for _, early := range []bool{false, true} {
							if c.Stop() {
								return
							}
							c.Do(func() string {
								return fmt.Sprintf("%s, slow deliveries %v, the handler %s the data, %s, the server sends %s and %s", s.name, plan, c26uses[use], map[bool]string{true: "data right after the answer", false: "data later"}[early], fd.name, end)
							}, func() error {
								c.State(s.name, fmt.Sprint(plan), use, end, fi, early)
								c.Trans(len(s.want))
								if len(plan) > 0 || use > 0 {
									c.Nontrivial()
								}
								return c26run(c, s, plan, 0, use, end, early, fd.f)
							})
						}
					}
				}
			}
		}
		c.Group(s.name + "-event")
		for _, d := range durs {
			for _, end := range []string{"plays on", "hangs up", "resets"} {
				for fi, fd := range feeds {
					c.Do(func() string {
						return fmt.Sprintf("%s, the handler of the event takes %v, the server sends %s and %s", s.name, d, fd.name, end)
					}, func() error {
						c.Nontrivial()
						c.State(s.name, "event", d, end, fi)
						return c26run(c, s, slowPlan{}, d, 0, end, false, fd.f)
					})
				}
			}
		}
	}
	c26around(c)
	c26backlog(c)
	c26nil(c)
}

// c26around: media which comes before and after the answer to PLAY.
func c26around(c *core.Ctx) {
	for _, s := range c26streams() {
		c.Group(s.name + "-around-play")
		for k := 0; k <= len(s.frames); k++ {
			for _, glue := range []bool{false, true} {
				for use := range c26uses {
					c.Do(func() string {
						return fmt.Sprintf("%s, %d frames before the answer to PLAY, in one segment %v, the handler %s the data", s.name, k, glue, c26uses[use])
					}, func() error {
						c.State(s.name, "around", k, glue, use)
						c.Nontrivial()
						one := s
						one.frames = nil
						var before [][]byte
						before, one.frames = s.frames[:k], s.frames[k:]
						return c26play(c, one, use, before, glue)
					})
				}
			}
		}
	}
}

func c26play(c *core.Ctx, s c26stream, use int, before [][]byte, glue bool) error {
	return core.Bubble(c.T, func() error {
		p := core.NewPeer()
		good := core.GoodServer(s.tracks, "s1")
		p.Answer = func(p *core.Peer, r core.Request) {
			if r.Method != "PLAY" {
				good(p, r)
				return
			}
			ans := []byte(core.Resp(200, r.CSeq(), []string{"Session: s1"}, ""))
			all := append(append(append([][]byte(nil), before...), ans), s.frames...)
			if glue {
				p.Conn.Feed(bytes.Join(all, nil))
				return
			}
			for _, b := range all {
				p.Conn.Feed(b)
			}
		}
		p.Handle = func(i int, d *rtspclient.RtspData) {
			if use == 1 {
				for k := range d.Data {
					d.Data[k] = 0xee
				}
			} else if use == 2 {
				_ = append(d.Data, bytes.Repeat([]byte{0xdd}, 64)...)
			}
		}
		p.Start("rtsp://h:1/x")
		core.Quiesce()
		if !p.Returned || p.Err != nil {
			return fmt.Errorf("play: %v %v", p.Returned, p.Err)
		}
		var got []string
		for _, d := range p.Data {
			got = append(got, fmt.Sprintf("%d:%x", d.Ch, d.Copy))
		}
		if fmt.Sprint(got) != fmt.Sprint(s.want) {
			return fmt.Errorf("delivered %.400s, want %.400s", fmt.Sprint(got), fmt.Sprint(s.want))
		}
		p.Hangup()
		return nil
	})
}

// c26backlog: however much the server sends while a handler is busy.
func c26backlog(c *core.Ctx) {
	c.Group("backlog")
	ns := []int{1, 2, 100, 4095, 4096, 4097, 70000}
	if c.Thorough() {
		ns = append(ns, 1000000)
	}
	c.Bound("backlog_packets", ns[len(ns)-1])
	for _, n := range ns {
		for _, d := range []time.Duration{time.Second, time.Hour} {
			for _, hang := range []bool{false, true} {
				c.Do(func() string { return fmt.Sprintf("%d packets while a handler takes %v, hang-up %v", n, d, hang) }, func() error {
					c.Nontrivial()
					c.State("backlog", n, d, hang)
					c.Trans(n)
					return core.Bubble(c.T, func() error {
						p := core.NewPeer()
						p.Answer = core.GoodServer([]core.Track{{Kind: "data", Codec: "Q", PT: 96, Control: "t1"}}, "s1")
						next, bad := 0, ""
						var busy atomic.Int32
						p.Handle = func(i int, d2 *rtspclient.RtspData) {
							if busy.Add(1) != 1 {
								bad = "two calls at a time"
							}
							if i == 0 {
								time.Sleep(d)
							}
							if len(d2.Data) != 4 || int(d2.Data[0])<<24|int(d2.Data[1])<<16|int(d2.Data[2])<<8|int(d2.Data[3]) != next {
								if bad == "" {
									bad = fmt.Sprintf("unit %x, want number %d", d2.Data, next)
								}
							}
							next++
							busy.Add(-1)
						}
						p.Start("rtsp://h:1/x")
						core.Quiesce()
						var b []byte
						for k := 0; k < n; k++ {
							b = append(b, core.Frame(0, core.RTP(true, 96, k, uint32(k), []byte{byte(k >> 24), byte(k >> 16), byte(k >> 8), byte(k)}))...)
						}
						p.Conn.Feed(b)
						if hang {
							p.Conn.EOF(io.EOF)
						}
						time.Sleep(d + time.Second)
						core.Quiesce()
						if bad != "" {
							return errors.New(bad)
						}
						if next != n {
							return fmt.Errorf("%d of %d packets delivered", next, n)
						}
						if g := p.CountEv(rtspclient.RtspEventDisconnected); (g == 1) != hang {
							return fmt.Errorf("%d disconnected events", g)
						}
						p.Hangup()
						return nil
					})
				})
			}
		}
	}
}

// c26nil: a handler which is not there is not called, and nothing else differs.
func c26nil(c *core.Ctx) {
	type out struct {
		reqs, err, events, data string
		closed                  int
	}
	run := func(s c26stream, data, event bool, at string, how int, end string) (o out, err error) {
		err = core.Bubble(c.T, func() error {
			p := core.NewPeerWith(data, event)
			good := core.GoodServer(s.tracks, "s1")
			p.Answer = func(p *core.Peer, r core.Request) {
				if r.Method != at || how == 0 {
					good(p, r)
					return
				}
				switch how {
				case 1:
					p.Conn.Feed([]byte(core.Resp(404, r.CSeq(), nil, "")))
				case 2:
					p.Conn.EOF(io.EOF)
				case 3: // silent
				}
			}
			if err := p.Start("rtsp://h:1/x"); err != nil {
				return err
			}
			if !p.Wait(30 * time.Second) {
				return errors.New("play never returned")
			}
			core.Quiesce()
			for _, f := range s.frames {
				p.Conn.Feed(f)
			}
			core.Quiesce()
			if end == "closed" {
				p.S.Close()
			}
			p.Hangup()
			time.Sleep(5 * time.Second)
			core.Quiesce()
			o = out{strings.Join(p.Trace(0), "\n"), fmt.Sprint(p.Err), "", "", p.Conn.Closed()}
			for _, e := range p.EvLog {
				if !strings.HasPrefix(e, "data") {
					o.events += e + " "
				}
			}
			for _, d := range p.Data {
				o.data += fmt.Sprintf("%d:%x ", d.Ch, d.Copy)
			}
			if o.closed == 0 {
				return errors.New("the transport is open")
			}
			return nil
		})
		return
	}
	c.Group("no-handler")
	for _, s := range c26streams() {
		for _, at := range []string{"DESCRIBE", "SETUP", "PLAY"} {
			for how := 0; how < 4; how++ {
				for _, end := range []string{"hangs up", "closed"} {
					for k := 0; k < 3; k++ {
						data, event := k == 1, k == 2
						s := s
						c.Do(func() string {
							return fmt.Sprintf("%s with a data handler %v, an event handler %v; %s answered %s, then %s", s.name, data, event, at,
								[]string{"well", "404", "with a hang-up", "never"}[how], end)
						}, func() error {
							c.Nontrivial()
							c.State("nil", s.name, data, event, at, how, end)
							want, err := run(s, true, true, at, how, end)
							if err != nil {
								return err
							}
							got, err := run(s, data, event, at, how, end)
							if err != nil {
								return err
							}
							if !data {
								want.data = ""
							}
							if !event {
								want.events = ""
							}
							c.Outcome(got.events + got.data)
							if got != want {
								return fmt.Errorf("got %+v, with both handlers %+v", got, want)
							}
							return nil
						})
					}
				}
			}
		}
	}
}
