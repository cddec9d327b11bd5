package seq

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C14",
		Rule: "every sequence of uses of one session up to the bound, each use a server behaviour with a way to end; the last use is compared with the same use of a new session " +
			"(requests, result, time taken, events, media description, delivered data); non-trivial: the earlier uses left something behind (track, partial unit, credentials, identifier, late answer)",
		Assumptions: []string{"a use starts after the connection of the one before has ended (or in its disconnected event)", "uses go through SetConnection with an in-memory transport"},
		Run:         c14,
	})
}

type use struct {
	name   string
	url    string
	answer func(p *core.Peer, r core.Request, n int) // n-th request of this use
	feed   [][]byte                                  // after the call returned
	end    string                                    // hangup, close, closeSilent, reset
}

type useOut struct {
	Reqs   []string
	Err    string
	Took   time.Duration
	Log    string
	Data   []string
	Media  map[int]rtspclient.MediaSubsession
	Closed bool
}

var useTracks = map[string][]core.Track{
	"h264": {{Kind: "video", Codec: "H264", PT: 96, Control: "t1"}},
	"hevc": {{Kind: "video", Codec: "H265", PT: 96, Control: "t1"}, {Kind: "audio", Codec: "X", PT: 97, Control: "t2"}},
	"mark": {{Kind: "video", Codec: "bbw", PT: 96, Control: "t1"}, {Kind: "video", Codec: "H264", PT: 97, Control: "t2"}, {Kind: "audio", Codec: "", PT: 0, Control: "t3"}},
	"pcmu": {{Kind: "audio", Codec: "", PT: 0, Control: "t9"}},
}

// partial units of every codec on channels 0, 2 and 4
func useFrames() [][]byte {
	f := func(ch int, b ...byte) []byte { return core.Frame(ch, core.RTP(false, 96, 1, 1, b)) }
	return [][]byte{
		f(0, 0x65, 1, 2, 3), f(0, 0x7c, 0x85, 9, 9), f(2, 0x7c, 0x05, 7, 7), f(4, 1, 2),
		f(2, 0x7c, 0x85, 5), f(0, 0x62, 0x01, 0x93, 4, 4), f(0, 0x7c, 0x05, 8, 8), f(4, 3),
	}
}

// ending the units
func useTails() [][]byte {
	f := func(ch int, b ...byte) []byte { return core.Frame(ch, core.RTP(true, 96, 2, 1, b)) }
	return [][]byte{f(0, 0x7c, 0x45, 6, 6), f(2, 0x7c, 0x45, 5, 5), f(4, 9), f(0, 0x67, 1, 1), f(0, 0x62, 0x01, 0x53, 4, 4), f(0, 0x40, 0x01, 7), f(2, 0x41, 8)}
}

func uses() []use {
	good := func(tr, sess string) func(p *core.Peer, r core.Request, n int) {
		g := core.GoodServer(useTracks[tr], sess)
		return func(p *core.Peer, r core.Request, n int) { g(p, r) }
	}
	// step k is answered by f, the others well
	at := func(tr string, k int, f func(p *core.Peer, r core.Request)) func(p *core.Peer, r core.Request, n int) {
		g := good(tr, "at")
		return func(p *core.Peer, r core.Request, n int) {
			if n == k {
				f(p, r)
			} else {
				g(p, r, n)
			}
		}
	}
	chal := func(h string, then func(p *core.Peer, r core.Request, n int)) func(p *core.Peer, r core.Request, n int) {
		return func(p *core.Peer, r core.Request, n int) {
			if n == 0 {
				p.Conn.Feed([]byte(core.Resp(401, r.CSeq(), []string{h}, "")))
			} else {
				then(p, r, n)
			}
		}
	}
	silent := func(p *core.Peer, r core.Request) {}
	drop := func(p *core.Peer, r core.Request) { p.Conn.EOF(io.EOF) }
	refuse := func(p *core.Peer, r core.Request) { p.Conn.Feed([]byte(core.Resp(404, r.CSeq(), nil, ""))) }
	garb := func(p *core.Peer, r core.Request) { p.Conn.Feed([]byte("RTSP/1.0\r\n\r\n")) }
	all := append(useFrames(), useTails()...)
	dg := `WWW-Authenticate: Digest realm="r1", nonce="n1"`
	bs := `WWW-Authenticate: Basic realm="r2"`
	late := [][]byte{[]byte(core.Resp(200, 77, []string{"Session: late"}, "")), []byte(core.Resp(454, 78, nil, ""))}
	us := []use{
		{"good h264", "rtsp://a/x", good("h264", "s1"), all, "hangup"},
		{"good hevc", "rtsp://u:p@a/y?q=1", good("hevc", "s2;timeout=5"), all, "reset"},
		{"good mark", "rtsp://b/z", good("mark", "s3"), useFrames(), "close"},
		{"good pcmu", "rtsp://c:8554/", good("pcmu", "s4"), all, "hangup"},
		{"h264 partial", "rtsp://a/x", good("h264", "s1"), useFrames(), "hangup"},
		{"tails only", "rtsp://a/x", good("h264", "s1"), useTails(), "close"},
		{"hevc tails only", "rtsp://a/h", good("hevc", "s1"), useTails(), "hangup"},
		{"mark partial, silent at the end", "rtsp://b/z", good("mark", "s5"), useFrames(), "closeSilent"},
		{"late answers", "rtsp://a/x", good("h264", "s6"), late, "hangup"},
		{"digest", "rtsp://user:pw@a/d", chal(dg, good("h264", "s7")), nil, "close"},
		{"basic", "rtsp://user:pw@a/d", chal(bs, good("hevc", "s8")), nil, "hangup"},
		{"digest refused", "rtsp://user:pw@a/d", chal(dg, at("h264", 1, func(p *core.Peer, r core.Request) {
			p.Conn.Feed([]byte(core.Resp(401, r.CSeq(), []string{dg}, "")))
		})), nil, "close"},
		{"no credentials, digest", "rtsp://a/d", chal(dg, good("h264", "s7")), nil, "hangup"},
		{"other credentials", "rtsp://k:v@a/d", chal(`WWW-Authenticate: Digest realm="r9", nonce="n9"`, good("pcmu", "")), nil, "hangup"},
		{"name only, basic", "rtsp://ann@a/d", chal(bs, good("h264", "s7")), nil, "hangup"},
		{"empty password, digest", "rtsp://user:@a/d", chal(dg, good("pcmu", "s7")), nil, "pause"},
		{"paused without an answer", "rtsp://u:p@a/d", func(p *core.Peer, r core.Request, n int) {
			if r.Method != "PAUSE" {
				good("h264", "s8")(p, r, n)
			}
		}, nil, "pause"},
		{"no session id", "rtsp://a/x", good("mark", ""), useTails(), "close"},
		{"no media", "rtsp://a/x", at("h264", 0, func(p *core.Peer, r core.Request) {
			p.Conn.Feed([]byte(core.Resp(200, r.CSeq(), nil, core.SDP(nil))))
		}), nil, "close"},
	}
	for k := 0; k < 4; k++ {
		us = append(us,
			use{fmt.Sprintf("silent at %d", k), "rtsp://a/x", at("hevc", k, silent), nil, "hangup"},
			use{fmt.Sprintf("drop at %d", k), "rtsp://a/x", at("hevc", k, drop), nil, "hangup"},
			use{fmt.Sprintf("404 at %d", k), "rtsp://a/x", at("hevc", k, refuse), all, "close"},
		)
	}
	us = append(us,
		use{"404 then hangup", "rtsp://e/x", at("hevc", 2, refuse), useFrames(), "hangup"},
		use{"garbled at 1", "rtsp://a/x", at("hevc", 1, garb), nil, "close"},
		use{"silent, late answer", "rtsp://a/x", at("h264", 1, func(p *core.Peer, r core.Request) {
			conn, cs := p.Conn, r.CSeq()
			time.AfterFunc(1999*time.Millisecond, func() {
				conn.Feed([]byte(core.Resp(200, cs, []string{"Session: late"}, "")), []byte(core.Resp(200, cs, []string{"Session: later"}, "")))
			})
		}), nil, "hangup"},
		use{"two answers to PLAY", "rtsp://a/x", func(p *core.Peer, r core.Request, n int) {
			good("hevc", "dup")(p, r, n)
			if r.Method != "PLAY" {
				return
			}
			p.Conn.Feed([]byte(core.Resp(404, r.CSeq(), nil, "")))
		}, all, "hangup"},
		use{"unparsable url", "rtsp://a:b:c/x%zz", good("h264", "s1"), nil, "none"},
	)
	return us
}

// runUse performs one use on the session of p; inHandler tells that it runs in
// the disconnected event of the use before.
func runUse(p *core.Peer, u use, inHandler bool) (useOut, error) {
	var o useOut
	p.Conn = core.NewConn()
	conn := p.Conn
	p.Wire()
	req0, log0, data0 := len(p.Reqs), len(p.EvLog), len(p.Data)
	n := 0
	p.Answer = func(p *core.Peer, r core.Request) {
		n++
		u.answer(p, r, n-1)
	}
	start := time.Now()
	collect := func() {
		o.Reqs = p.Trace(req0)
		o.Log = strings.Join(p.EvLog[log0:], " ")
		for _, d := range p.Data[data0:] {
			o.Data = append(o.Data, fmt.Sprintf("%d:%x", d.Ch, d.Copy))
		}
		o.Closed = conn.Closed() > 0
	}
	if err := p.S.ParsingURL(u.url); err != nil {
		o.Err = "ParsingURL: " + err.Error()
		collect()
		return o, nil
	}
	p.Go(func() error { return p.S.SetConnection(conn) })
	if !p.Wait(60 * time.Second) {
		return o, fmt.Errorf("%s: the call did not return in 60 s (requests %s)", u.name, p.Methods())
	}
	o.Took = p.RetAt.Sub(start)
	o.Err = fmt.Sprint(p.Err)
	core.Quiesce()
	o.Media = p.S.RtpMediaMap
	if conn.Closed() == 0 {
		conn.Feed(u.feed...)
		core.Quiesce()
	}
	switch u.end {
	case "hangup":
		conn.EOF(io.EOF)
	case "reset":
		conn.EOF(errors.New("connection reset"))
	case "pause":
		if conn.Closed() == 0 {
			p.S.SendPause()
			core.Quiesce()
		}
		conn.EOF(io.EOF)
	case "close", "closeSilent":
		if u.end == "closeSilent" {
			p.Answer = nil
		}
		p.Go(func() error { p.S.Close(); return nil })
		if !p.Wait(60 * time.Second) {
			return o, fmt.Errorf("%s: Close did not return in 60 s", u.name)
		}
	}
	core.Quiesce()
	// an answer which is still on its way
	time.Sleep(3 * time.Second)
	core.Quiesce()
	collect()
	return o, nil
}

func sameUse(got, want useOut) error {
	if got.Err != want.Err {
		return fmt.Errorf("result %q, of a new session %q", got.Err, want.Err)
	}
	if !reflect.DeepEqual(got.Reqs, want.Reqs) {
		return fmt.Errorf("requests\n  %s\nof a new session\n  %s", strings.Join(got.Reqs, "\n  "), strings.Join(want.Reqs, "\n  "))
	}
	if got.Log != want.Log {
		return fmt.Errorf("events %q, of a new session %q", got.Log, want.Log)
	}
	if !reflect.DeepEqual(got.Data, want.Data) {
		return fmt.Errorf("data %v, of a new session %v", got.Data, want.Data)
	}
	if !reflect.DeepEqual(got.Media, want.Media) {
		return fmt.Errorf("media %v, of a new session %v", got.Media, want.Media)
	}
	if got.Closed != want.Closed || got.Took != want.Took {
		return fmt.Errorf("closed %v after %v, of a new session %v after %v", got.Closed, got.Took, want.Closed, want.Took)
	}
	return nil
}

func c14(c *core.Ctx) {
	us := uses()
	depth := 3
	if c.Thorough() {
		depth = 4
	}
	c.Bound("uses", len(us))
	c.Bound("uses_in_a_row", depth)
	fresh := make([]*useOut, len(us))
	ref := func(i int) (useOut, error) {
		if fresh[i] == nil {
			var o useOut
			err := core.Bubble(c.T, func() error {
				var err error
				o, err = runUse(core.NewPeer(), us[i], false)
				return err
			})
			if err != nil {
				return o, fmt.Errorf("new session: %w", err)
			}
			fresh[i] = &o
		}
		return *fresh[i], nil
	}
	names := func(t []int) string {
		var s []string
		for _, i := range t {
			s = append(s, us[i].name)
		}
		return strings.Join(s, "; ")
	}
	c.Group("one-after-the-other")
	core.Tuples(len(us), 2, depth, func(t []int) {
		if c.Stop() {
			return
		}
		t = append([]int(nil), t...)
		c.Do(func() string { return names(t) }, func() error {
			want, err := ref(t[len(t)-1])
			if err != nil {
				return err
			}
			c.Nontrivial()
			c.Trans(len(t))
			var got useOut
			err = core.Bubble(c.T, func() error {
				p := core.NewPeer()
				for _, i := range t {
					var err error
					if got, err = runUse(p, us[i], false); err != nil {
						return err
					}
				}
				return nil
			})
			if err != nil {
				return err
			}
			c.State(names(t))
			c.Outcome(got.Err + " " + got.Log)
			return sameUse(got, want)
		})
	})
	// played again from the disconnected event
	c.Group("from-the-disconnected-event")
	core.Tuples(len(us), 2, 3, func(t []int) {
		if c.Stop() {
			return
		}
		t = append([]int(nil), t...)
		for _, i := range t[:len(t)-1] {
			if us[i].end == "none" {
				return
			}
		}
		c.Do(func() string { return names(t) + " (each in the disconnected event of the one before)" }, func() error {
			want, err := ref(t[len(t)-1])
			if err != nil {
				return err
			}
			c.Nontrivial()
			c.Trans(len(t))
			var got useOut
			err = core.Bubble(c.T, func() error { return chainUses(t, us, &got) })
			if err != nil {
				return err
			}
			return sameUse(got, want)
		})
	})
}

// chainUses runs the uses of t, each but the first started inside the
// disconnected event of the one before.
func chainUses(t []int, us []use, last *useOut) error {
	p := core.NewPeer()
	finished := make(chan error, 1)
	k := 0
	p.OnEv = func(e int) {
		if e != rtspclient.RtspEventDisconnected || k+1 >= len(t) {
			return
		}
		<-p.Done // the call of the old use is over before the next one starts
		k++
		u := us[t[k]]
		conn := core.NewConn()
		p.Conn = conn
		p.Wire()
		req0, log0, data0 := len(p.Reqs), len(p.EvLog), len(p.Data)
		n := 0
		p.Answer = func(p *core.Peer, r core.Request) {
			n++
			u.answer(p, r, n-1)
		}
		final := k+1 == len(t)
		collect := func() {
			last.Reqs = p.Trace(req0)
			last.Log = strings.Join(p.EvLog[log0:], " ")
			for _, d := range p.Data[data0:] {
				last.Data = append(last.Data, fmt.Sprintf("%d:%x", d.Ch, d.Copy))
			}
			last.Closed = conn.Closed() > 0
			finished <- nil
		}
		start := time.Now()
		if err := p.S.ParsingURL(u.url); err != nil {
			last.Err = "ParsingURL: " + err.Error()
			if final {
				collect()
			}
			return
		}
		// the call is made here, on the handler's own goroutine
		done := make(chan struct{})
		p.Done = done
		err := p.S.SetConnection(conn)
		took := time.Since(start)
		if final {
			last.Took, last.Err = took, fmt.Sprint(err)
		}
		close(done)
		go func() { // the rest of the use is the user's other goroutine
			time.Sleep(time.Millisecond)
			if final {
				last.Media = p.S.RtpMediaMap
			}
			if conn.Closed() == 0 {
				conn.Feed(u.feed...)
				time.Sleep(time.Millisecond)
			}
			switch u.end {
			case "hangup":
				conn.EOF(io.EOF)
			case "reset":
				conn.EOF(errors.New("connection reset"))
			case "pause":
				if conn.Closed() == 0 {
					p.S.SendPause()
					time.Sleep(time.Millisecond)
				}
				conn.EOF(io.EOF)
			case "close", "closeSilent":
				if u.end == "closeSilent" {
					p.Answer = nil
				}
				if final || conn.Closed() == 0 {
					p.S.Close()
				}
			}
			if final {
				time.Sleep(6 * time.Second)
				collect()
			}
		}()
	}
	// the first use
	u := us[t[0]]
	conn := p.Conn
	n := 0
	p.Answer = func(p *core.Peer, r core.Request) {
		n++
		u.answer(p, r, n-1)
	}
	if err := p.S.ParsingURL(u.url); err != nil {
		return err
	}
	p.Go(func() error { return p.S.SetConnection(conn) })
	go func() {
		<-p.Done
		time.Sleep(time.Millisecond)
		if conn.Closed() == 0 {
			conn.Feed(u.feed...)
			time.Sleep(time.Millisecond)
			switch u.end {
			case "hangup":
				conn.EOF(io.EOF)
			case "reset":
				conn.EOF(errors.New("connection reset"))
			case "pause":
				p.S.SendPause()
				time.Sleep(time.Millisecond)
				conn.EOF(io.EOF)
			default:
				if u.end == "closeSilent" {
					p.Answer = nil
				}
				p.S.Close()
			}
		}
	}()
	select {
	case err := <-finished:
		time.Sleep(time.Minute) // time stands still once this goroutine has ended
		core.Quiesce()
		return err
	case <-time.After(300 * time.Second):
		return fmt.Errorf("the uses did not finish in 300 s (use %d, events %s)", k, strings.Join(p.EvLog, " "))
	}
}
