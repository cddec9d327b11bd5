package seq

import (
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C06",
		Rule: "for 1 to N media with every mix of control URL forms, and up to 128 media with all answers 200 or one failure: every step answered by every status code 100..999, by malformed answers, by a close or by silence, all other steps with 200; " +
			"each run compared with the reference protocol machine; non-trivial: not all answers 200, or more than one media",
		Assumptions: []string{"no credentials in the URL (challenges are C08)", "one answer per request"},
		Run:         c06,
	})
}

// answer kinds other than a status code
const (
	ansClose = -1 - iota
	ansSilent
	ansNoStatus
	ansBadStatus
	ansNoMedia
	ansBadSDP
	ansNoBody
	ansGarbage
)

func ansName(k int) string {
	switch k {
	case ansClose:
		return "close"
	case ansSilent:
		return "silence"
	case ansNoStatus:
		return "no status"
	case ansBadStatus:
		return "bad status"
	case ansNoMedia:
		return "no media"
	case ansBadSDP:
		return "bad description"
	case ansNoBody:
		return "no description"
	case ansGarbage:
		return "garbage"
	}
	return fmt.Sprint(k)
}

// hsRun plays one scripted handshake and compares it with the reference machine.
// kinds[step] is the answer to the step-th request.
func hsRun(c *core.Ctx, url string, tracks []core.Track, kinds func(step int) int) error {
	return core.Bubble(c.T, func() error {
		p := core.NewPeer()
		step := 0
		p.Answer = func(p *core.Peer, r core.Request) {
			k := kinds(step)
			step++
			body := ""
			var h []string
			switch r.Method {
			case "DESCRIBE":
				body = core.SDP(tracks)
				h = []string{"Content-Type: application/sdp"}
			case "SETUP":
				h = []string{"Session: 99", "Transport: " + r.Get("Transport")}
			default:
				h = []string{"Session: 99"}
			}
			switch k {
			case ansClose:
				p.Conn.EOF(io.EOF)
			case ansSilent:
			case ansNoStatus:
				p.Conn.Feed([]byte("RTSP/1.0\r\n\r\n"))
			case ansBadStatus:
				p.Conn.Feed([]byte("RTSP/1.0 2OO OK\r\nCSeq: 1\r\n\r\n"))
			case ansNoMedia:
				p.Conn.Feed([]byte(core.Resp(200, r.CSeq(), h, core.SDP(nil))))
			case ansBadSDP:
				p.Conn.Feed([]byte(core.Resp(200, r.CSeq(), h, "v=0\r\nm=x\r\n")))
			case ansNoBody:
				p.Conn.Feed([]byte(core.Resp(200, r.CSeq(), h, "")))
			case ansGarbage:
				p.Conn.Feed([]byte("HTTP/1.1 200 OK\r\n\r\n"))
			default:
				p.Conn.Feed([]byte(core.Resp(k, r.CSeq(), h, body)))
			}
		}
		if err := p.Start(url); err != nil {
			return fmt.Errorf("ParsingURL(%q): %v", url, err)
		}
		returned := p.Wait(60 * time.Second)
		core.Quiesce()

		// the reference machine
		want := []string{"DESCRIBE " + url}
		ok := false
		st := 0
		pass := func() bool { // did the last wanted request get a 200?
			k := kinds(st)
			st++
			return k == 200
		}
		if pass() {
			ok = true
			for _, t := range tracks {
				want = append(want, "SETUP "+core.ControlURL(url, t.Control))
				if !pass() {
					ok = false
					break
				}
			}
			if ok {
				want = append(want, "PLAY "+url)
				ok = pass()
			}
		}
		var err error
		var got []string
		for _, r := range p.Reqs {
			got = append(got, r.Method+" "+r.URI)
		}
		ev := strings.Join(p.EvLog, " ")
		nOK, nErr := p.CountEv(rtspclient.RtspEventRequestSuccess), p.CountEv(rtspclient.RtspEventRequestError)
		switch {
		case !returned:
			err = fmt.Errorf("the call did not return in 60 s")
		case strings.Join(got, "\n") != strings.Join(want, "\n"):
			err = fmt.Errorf("requests %q, want %q", got, want)
		case ok && (p.Err != nil || nOK != 1 || nErr != 0):
			err = fmt.Errorf("all answers were 200, but the call returned %v with events [%s]", p.Err, ev)
		case !ok && (p.Err == nil || nOK != 0 || nErr != 1):
			err = fmt.Errorf("the handshake failed at step %d, but the call returned %v with events [%s]", st-1, p.Err, ev)
		case ok && len(p.S.RtpMediaMap) != len(tracks):
			err = fmt.Errorf("%d media in the map, want %d", len(p.S.RtpMediaMap), len(tracks))
		default:
			err = p.CheckWire()
		}
		for _, s := range p.EvSess {
			if s != p.S && err == nil {
				err = fmt.Errorf("event for another session")
			}
		}
		c.Trans(len(p.Reqs))
		c.Outcome(fmt.Sprintf("%d requests, %v, %s", len(got), p.Err != nil, ev))
		p.Hangup()
		time.Sleep(30 * time.Second)
		if err == nil && (p.CountEv(rtspclient.RtspEventRequestSuccess) != nOK || p.CountEv(rtspclient.RtspEventRequestError) != nErr || p.NumReqs() != len(want)) {
			err = fmt.Errorf("after the end of the session: events [%s], requests %s", p.Log(), p.Methods())
		}
		return err
	})
}

func c06(c *core.Ctx) {
	controls := []string{"t%d", "trackID=%d", "rtsp://other:8554/a/b%d?x=y", "RTSP://h/c%d", "a/b/%d"}
	// further ones, of which at most two are mixed
	rare := []string{"*", "", "rtsp_track%d", "Rtsp://h:1/c%d", "rtspx", "a:b%d", "?ctl=%d", "rtsp/%d", "x?u=rtsp://h/%d", "rTSP://[::1]/%d"}
	maxTr := 4
	if c.Thorough() {
		maxTr = 6
	}
	c.Bound("media", maxTr)
	all := append(append([]string(nil), controls...), rare...)
	ctl := func(k, i int) string {
		if strings.Contains(all[k], "%d") {
			return fmt.Sprintf(all[k], i)
		}
		return all[k]
	}
	mk := func(ix []int) []core.Track {
		var tr []core.Track
		for i, k := range ix {
			kind, codec := "video", "JPEG"
			if i%2 == 1 {
				kind, codec = "audio", "X"
			}
			tr = append(tr, core.Track{Kind: kind, Codec: codec, PT: 96 + i, Control: ctl(k, i)})
		}
		return tr
	}
	urls := []string{"rtsp://host/s", "rtsp://host:8554/a/b?q=1&r=2", "rtsp://10.0.0.1/"}
	more := append([]string{"rtsp://10.0.0.1", "rtsp://h/live/", "rtsp://h:8554/a/b/c/?x=y/"}, urls...)
	run := func(url string, tr []core.Track, at, kind int) {
		c.Do(func() string {
			return fmt.Sprintf("%s, %d media, request %d answered by %s", url, len(tr), at, ansName(kind))
		}, func() error {
			c.State(url, tr, at, kind)
			if kind != 200 || len(tr) > 1 {
				c.Nontrivial()
			}
			return hsRun(c, url, tr, func(s int) int {
				if s == at {
					return kind
				}
				return 200
			})
		})
	}
	c.Group("control-urls")
	core.Tuples(len(controls), 1, maxTr, func(t []int) {
		if c.Stop() {
			return
		}
		tr := mk(t)
		for _, u := range urls {
			run(u, tr, 0, 200)
			run(u, tr, len(tr), 404)
		}
	})
	c.Group("rare-control-urls")
	core.Tuples(len(all), 1, 2, func(t []int) {
		if c.Stop() {
			return
		}
		tr := mk(t)
		for _, u := range more {
			run(u, tr, 0, 200)
			run(u, tr, len(tr), 404)
			run(u, tr, len(tr)+1, ansClose)
		}
	})
	c.Group("many-media")
	for n := 1; n <= 128; n++ {
		if c.Stop() {
			return
		}
		for _, off := range []int{0, 1} {
			ix := make([]int, n)
			for i := range ix {
				ix[i] = (i + off) % len(all)
			}
			tr := mk(ix)
			run(urls[n%3], tr, 0, 200)
			run(urls[n%3], tr, n, 404)
			run(urls[n%3], tr, (n+1)/2, 302)
			run(urls[n%3], tr, n+1, ansClose)
		}
	}
	kinds := []int{ansClose, ansSilent, ansNoStatus, ansBadStatus, ansGarbage}
	c.Group("steps")
	for n := 1; n <= maxTr; n++ {
		tr := mk(make([]int, n))
		for at := 0; at <= n+1; at++ {
			if c.Stop() {
				return
			}
			for _, k := range kinds {
				run(urls[0], tr, at, k)
			}
			for st := 100; st <= 999; st++ {
				if st == 401 && at == 0 {
					continue
				}
				run(urls[0], tr, at, st)
			}
		}
		for _, k := range []int{401, ansNoMedia, ansBadSDP, ansNoBody} {
			run(urls[0], tr, 0, k)
		}
	}
	// two non-200 answers: the first one decides
	c.Group("two-failures")
	fk := []int{ansClose, ansSilent, 302, 404, 401, 201, 500}
	for n := 1; n <= 3; n++ {
		tr := mk(make([]int, n))
		for a := 0; a <= n; a++ {
			for b := a + 1; b <= n+1; b++ {
				for _, x := range fk {
					for _, y := range fk {
						a, b, x, y := a, b, x, y
						c.Do(func() string {
							return fmt.Sprintf("%d media, requests %d and %d answered by %s and %s", n, a, b, ansName(x), ansName(y))
						}, func() error {
							c.Nontrivial()
							return hsRun(c, urls[0], tr, func(s int) int {
								switch s {
								case a:
									return x
								case b:
									return y
								}
								return 200
							})
						})
					}
				}
			}
		}
	}
}
