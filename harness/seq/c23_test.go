package seq

import (
	"fmt"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C23",
		Rule: "every status 100..999, every content length, every letter case of the header's name, every amount of blanks, every order and choice " +
			"of up to k other headers, every truncation, every short byte string as header block; whole handshakes with every spelling; " +
			"non-trivial: a spelling other than the plain one, or a response that must be refused",
		Assumptions: []string{"one Content-Length header per response, no folded header lines", "sizes up to 65535"},
		Run:         c23,
	})
}

// parseHead is what the client reads from a response: status, content length.
func parseHead(resp string) (int, int, error) {
	ctx := &rtspclient.RtspResponseContext{Status: -7}
	if err := rtspclient.ParserRtspResponse([]byte(resp), ctx); err != nil {
		return 0, 0, err
	}
	return ctx.Status, (&rtspclient.RTPStreamProtocol{}).GetContentLength([]byte(resp)), nil
}

func wantHead(resp string, status, length int) error {
	s, l, err := parseHead(resp)
	if err != nil {
		return fmt.Errorf("refused: %v", err)
	}
	if s != status {
		return fmt.Errorf("status %d, want %d", s, status)
	}
	if l != length {
		return fmt.Errorf("content length %d, want %d", l, length)
	}
	return nil
}

// refused: an error, and no content length, without crashing.
func refused(resp string) error {
	s, l, err := parseHead(resp)
	if err == nil {
		return fmt.Errorf("accepted with status %d and content length %d", s, l)
	}
	if len(resp) >= 4 {
		if l = (&rtspclient.RTPStreamProtocol{}).GetContentLength([]byte(resp)); l != 0 {
			return fmt.Errorf("refused, yet its content length is taken as %d", l)
		}
	}
	return nil
}

func letterCase(s string, bits int) string {
	b := []byte(strings.ToLower(s))
	k := 0
	for i, ch := range b {
		if ch >= 'a' && ch <= 'z' {
			if bits>>k&1 == 1 {
				b[i] = ch - 32
			}
			k++
		}
	}
	return string(b)
}

func c23(c *core.Ctx) {
	q := func(resp string) func() string { return func() string { return fmt.Sprintf("%q", resp) } }
	chk := func(resp string, status, length int) {
		c.Do(q(resp), func() error {
			c.Nontrivial()
			return wantHead(resp, status, length)
		})
	}
	others := []string{
		"CSeq: 3", "Date: Tue, 01 Jan 2030 10:00:00 GMT", "Content-Base: rtsp://h:554/a/", "X-Content-Length: 81",
		"Content-Lengths: 82", "Note: Content-Length: 83", "Server:", "Content-Type: application/sdp", "Session: 12;timeout=60",
		"Range: npt=0:00:01-", "Content: 84", "Length: 85", "Content-Location: content-length:86",
		"WWW-Authenticate: Basic realm=\"Content-Length: 87\"", "WWW-Authenticate: Digest realm=\"a:b\", nonce=\"c: d\"", "no colon here",
	}

	c.Group("status")
	for _, pre := range []string{"RTSP/1.0", "rtsp/1.0"} {
		for _, reason := range []string{" OK", "", " ", " Not found: 404", " Content-Length: 9", " 500 x"} {
			for st := 100; st <= 999; st++ {
				chk(fmt.Sprintf("%s %d%s\r\nContent-Length: 5\r\n\r\n", pre, st, reason), st, 5)
			}
		}
	}
	c.Group("lengths")
	for l := 0; l <= 65535; l++ {
		chk(fmt.Sprintf("RTSP/1.0 200 OK\r\nContent-Length: %d\r\nCSeq: 1\r\n\r\n", l), 200, l)
		chk(fmt.Sprintf("RTSP/1.0 200 OK\r\nContent-Length: %07d\r\n\r\n", l), 200, l)
	}
	c.Group("letter-case")
	for bits := 0; bits < 1<<13; bits++ {
		n := letterCase("content-length", bits)
		for _, f := range []string{"%s: 37", "%s:37", " %s :  37 ", "%s\t:\t37\t"} {
			chk("RTSP/1.0 401 No\r\nCSeq: 1\r\n"+fmt.Sprintf(f, n)+"\r\n\r\n", 401, 37)
		}
	}
	c.Group("blanks")
	bl := []string{"", " ", "  ", "   ", "\t", " \t", "\t ", "\t\t"}
	core.Product([]int{len(bl), len(bl), len(bl), len(bl), 3}, func(ix []int) {
		n := []string{"Content-Length", "content-length", "CONTENT-LENGTH"}[ix[4]]
		chk("RTSP/1.0 200 OK\r\nA: b\r\n"+bl[ix[0]]+n+bl[ix[1]]+":"+bl[ix[2]]+"421"+bl[ix[3]]+"\r\nC: d\r\n\r\n", 200, 421)
	})
	// every choice and order of other headers around it, with and without a body
	c.Group("other-headers")
	depth := 3
	if c.Thorough() {
		depth = 4
	}
	c.Bound("other_headers", depth)
	core.Tuples(len(others), 0, depth, func(t []int) {
		if c.Stop() {
			return
		}
		for pos := 0; pos <= len(t); pos++ {
			var b strings.Builder
			b.WriteString("RTSP/1.0 200 OK\r\n")
			for i := 0; i <= len(t); i++ {
				if i == pos {
					b.WriteString("Content-length: 11\r\n")
				}
				if i < len(t) {
					b.WriteString(others[t[i]] + "\r\n")
				}
			}
			b.WriteString("\r\n")
			chk(b.String(), 200, 11)
			if len(t) < 3 {
				chk(b.String()+"v=0\r\n\r\nRTSP", 200, 11)
				chk(b.String()+"Content-Length: 5\r\n\r\n", 200, 11)
			}
		}
		// and without the header at all
		var hs []string
		for _, i := range t {
			hs = append(hs, others[i]+"\r\n")
		}
		chk("RTSP/1.0 454 Gone\r\n"+strings.Join(hs, "")+"\r\n", 454, 0)
	})

	bad := func(resp string) {
		c.Do(q(resp), func() error {
			c.Nontrivial()
			return refused(resp)
		})
	}
	c.Group("truncated")
	core.Tuples(len(others), 0, 2, func(t []int) {
		for pos := 0; pos <= len(t); pos++ {
			resp := "RTSP/1.0 200 OK\r\n"
			for i := 0; i <= len(t); i++ {
				if i == pos {
					resp += "Content-Length: 11\r\n"
				}
				if i < len(t) {
					resp += others[t[i]] + "\r\n"
				}
			}
			resp += "\r\n"
			for n := 0; n < len(resp); n++ {
				bad(resp[:n])
				if n > 0 && !strings.HasPrefix(resp[n:], "rtsp") {
					bad(resp[n:])
				}
			}
		}
	})
	c.Group("no-status")
	for _, pre := range []string{"RTSP/1.0", "rtsp/1.0"} {
		for _, st := range []string{"", " ", "  ", " OK", " 2", " 20", " abc", " 2x0 OK", " xyz 200", "\t", " 20\t", " OK 200", " :200", " \r\n200"} {
			for _, rest := range []string{"\r\n\r\n", "\r\nCSeq: 200\r\n\r\n", "\r\nContent-Length: 5\r\n\r\n", "\r\n200: 200\r\n\r\n", "\r\nContent-Length: 3\r\n\r\n200"} {
				bad(pre + st + rest)
			}
		}
	}
	// every short byte string as header block
	c.Group("header-block")
	alpha := []string{":", " ", "\r", "\n", "\t", "0", "-", "Session", "Content-Length", "WWW-Authenticate", "Digest", "realm", "=", "\"", ","}
	n := 4
	if c.Thorough() {
		n = 5
	}
	c.Bound("header_block_tokens", n)
	core.Tuples(len(alpha), 0, n, func(t []int) {
		if c.Stop() {
			return
		}
		var b strings.Builder
		b.WriteString("RTSP/1.0 200 OK\r\n")
		for _, i := range t {
			b.WriteString(alpha[i])
		}
		block := b.String()
		c.Do(q(block), func() error {
			if strings.Contains(block, "\r\n\r\n") {
				s, _, err := parseHead(block)
				if err == nil && s != 200 {
					return fmt.Errorf("status %d", s)
				}
				if err != nil && !strings.Contains(block, "-") {
					return fmt.Errorf("refused: %v", err)
				}
			} else if err := refused(block); err != nil {
				return err
			}
			_, _, err := parseHead(block + "\r\n\r\n")
			if err != nil && !strings.Contains(block, "-") {
				return fmt.Errorf("with a blank line: refused: %v", err)
			}
			return nil
		})
	})
	c.Group("short-strings")
	core.Tuples(9, 0, 6, func(t []int) {
		b := make([]byte, len(t))
		for i, x := range t {
			b[i] = "RTSP/ \r\n2"[x]
		}
		bad(string(b))
	})

	// whole handshakes with every spelling of the headers that matter
	c.Group("handshake")
	tr := []core.Track{{Kind: "video", Codec: "H264", PT: 96, Control: "t1"}, {Kind: "audio", Codec: "X", PT: 97, Control: "t2"}}
	body := core.SDP(tr)
	names := []string{"Content-Length", "content-length", "CONTENT-LENGTH", "Content-length", "cONTENT-lENGTH"}
	sess := []string{"Session", "session", "SESSION", "sEssIon"}
	seps := []string{": ", ":", " : ", ":  ", ":\t"}
	others = append(others, "X-Session: 99", "X-Upstream-Session: 99", "Session-Id: 99", "Sessions: 99", "Note: Session: 99",
		"Old Session: 99", "X-WWW-Authenticate: Basic realm=\"a\"", "Content-Length-Limit: 3")
	prot := []string{"RTSP/1.0 200 OK", "rtsp/1.0 200 OK", "RTSP/1.0 200 ", "RTSP/1.0 200 Fine: all"}
	core.Product([]int{len(names), len(sess), len(seps), len(prot), len(others), 2}, func(ix []int) {
		if c.Stop() {
			return
		}
		name, ss, sep, st, ot, first := names[ix[0]], sess[ix[1]], seps[ix[2]], prot[ix[3]], others[ix[4]], ix[5] == 0
		if strings.HasPrefix(ot, "Session:") {
			ot = "Via: a:b"
		}
		c.Do(func() string {
			return fmt.Sprintf("%q %q%q %q other %q before=%v", st, name, sep, ss, ot, first)
		}, func() error {
			c.Nontrivial()
			return core.Bubble(c.T, func() error {
				p := core.NewPeer()
				head := func(hs ...string) string {
					if first {
						hs = append([]string{ot}, hs...)
					} else {
						hs = append(hs, ot)
					}
					return st + "\r\n" + strings.Join(hs, "\r\n") + "\r\n\r\n"
				}
				p.Answer = func(p *core.Peer, r core.Request) {
					switch r.Method {
					case "DESCRIBE":
						p.Conn.Feed([]byte(head(fmt.Sprint("CSeq: ", r.CSeq()), name+sep+fmt.Sprint(len(body))) + body))
					default:
						p.Conn.Feed([]byte(head(ss+sep+"ab12;timeout=60", fmt.Sprint("CSeq: ", r.CSeq()), name+sep+"0")))
					}
				}
				if err := p.Start("rtsp://host/stream"); err != nil {
					return err
				}
				if !p.Wait(30*time.Second) || p.Err != nil {
					return fmt.Errorf("handshake: %v, requests %s", p.Err, p.Methods())
				}
				if p.Methods() != "DESCRIBE SETUP SETUP PLAY" {
					return fmt.Errorf("requests %s", p.Methods())
				}
				for _, r := range p.Reqs[2:] {
					if r.Get("Session") != "ab12" {
						return fmt.Errorf("%s names session %q, want ab12", r.Method, r.Get("Session"))
					}
				}
				c.State(st, name, ss, sep, ot)
				p.Hangup()
				return p.CheckWire()
			})
		})
	})
}
