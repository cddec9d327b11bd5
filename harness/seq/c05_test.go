package seq

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C05",
		Rule: "every truncation, byte substitution, deletion, duplication, line edit and token insertion in every answer of a full authenticated session; all short garbage streams over an alphabet; " +
			"every RTP payload by its leading bytes and length for every codec; non-trivial: the corrupted bytes reached the client",
		Assumptions: []string{"one corruption per run", "an outcome other than a crash, a hang or a leak is accepted here"},
		Run:         c05,
		CaseTimeout: 30 * time.Second,
	})
}

// fullAnswers are the answers of a session with a challenge and two tracks.
func fullAnswers() []string {
	sdp := "v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=x\r\ni=a\r\nc=IN IP4 224.2.1.1/127/3\r\nb=AS:5\r\nt=0 0\r\nr=7d 1h 0 25h\r\nz=0 -1h\r\nk=clear:x\r\na=control:*\r\n" +
		"m=video 0 RTP/AVP 96\r\nc=IN IP6 ::1/3\r\nb=CT:1\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1;sprop=a==,b\r\na=control:t1\r\na=framerate:25\r\na=x-dimensions:1,2\r\n" +
		"m=audio 0/2 RTP/AVP 8 0\r\na=control:rtsp://h/t2\r\n"
	return []string{
		core.Resp(401, 0, []string{`WWW-Authenticate: Digest realm="r m", nonce="n", stale=FALSE`, `WWW-Authenticate: Basic realm="r"`}, ""),
		core.Resp(200, 1, []string{"Content-Type: application/sdp"}, sdp),
		core.Resp(200, 2, []string{"Session: 12;timeout=60", "Transport: RTP/AVP/TCP;interleaved=0-1"}, ""),
		core.Resp(200, 3, []string{"Session: 12", "Transport: RTP/AVP/TCP;interleaved=2-3"}, ""),
		core.Resp(200, 4, []string{"Session: 12", "RTP-Info: url=rtsp://h/t1;seq=1"}, ""),
	}
}

// survive runs a whole session against the scripted answers and checks that it ends.
func survive(c *core.Ctx, answers []string, silent bool) error {
	return core.Bubble(c.T, func() error {
		p := core.NewPeer()
		n := 0
		p.Answer = func(p *core.Peer, r core.Request) {
			if n < len(answers) {
				p.Conn.Feed([]byte(answers[n]))
			}
			n++
			if n == len(answers) && !silent {
				// media right behind the last answer, then the end
				p.Conn.Feed(core.Frame(0, core.RTP(true, 96, 1, 1, nal264(0x65, 1, 5))))
				p.Conn.EOF(io.EOF)
			}
		}
		if err := p.Start("rtsp://us:pw@h/s"); err != nil {
			return err
		}
		if !p.Wait(120 * time.Second) {
			return fmt.Errorf("the call did not return in 120 s; requests: %s", p.Methods())
		}
		c.Outcome(fmt.Sprintf("%s | %v", p.Methods(), p.Err))
		core.Quiesce()
		p.Hangup()
		if k := p.CountEv(rtspclient.RtspEventDisconnected); k != 1 {
			return fmt.Errorf("%d disconnected events after the server closed: %v", k, p.EvLog)
		}
		if p.Conn.Closed() == 0 {
			return fmt.Errorf("the transport was not closed")
		}
		return nil
	})
}

func c05(c *core.Ctx) {
	base := fullAnswers()
	one := func(i int, what string, s string, tail bool) {
		c.Do(func() string { return fmt.Sprintf("answer %d: %s: %q", i, what, s) }, func() error {
			c.Nontrivial()
			c.Trans(i + 1)
			a := append([]string(nil), base[:i]...)
			a = append(a, s)
			if tail {
				a = append(a, base[i+1:]...)
			}
			return survive(c, a, !tail)
		})
	}
	c.Group("truncations")
	for i, b := range base {
		for k := 0; k < len(b); k++ {
			c.State("trunc", i, k)
			one(i, "truncated, then silence", b[:k], false)
			i, k := i, k
			c.Do(func() string { return fmt.Sprintf("answer %d truncated at %d, then closed", i, k) }, func() error {
				return survive(c, append(append([]string(nil), base[:i]...), b[:k]), false)
			})
		}
	}
	subst := []byte("\x00\r\n :;=\"$,/-9R\xff")
	if c.Thorough() {
		subst = nil
		for i := 0; i < 256; i++ {
			subst = append(subst, byte(i))
		}
	}
	c.Bound("substitution_bytes", len(subst))
	c.Group("substitutions")
	for i, b := range base {
		for k := 0; k < len(b); k++ {
			if c.Stop() {
				return
			}
			c.State("pos", i, k)
			for _, s := range subst {
				if s == b[k] {
					continue
				}
				one(i, fmt.Sprintf("byte %d set to %02x", k, s), b[:k]+string(rune2(s))+b[k+1:], true)
			}
			one(i, fmt.Sprintf("byte %d deleted", k), b[:k]+b[k+1:], true)
			one(i, fmt.Sprintf("byte %d doubled", k), b[:k+1]+b[k:], true)
		}
	}
	c.Group("lines")
	tokens := []string{
		"Content-Length: -5", "Content-Length: 99999999999999999999", "Content-Length: 70000", "Content-Length:", "Content-length: 2147483647", "Content-Length: 4x", "Content-Length: 0",
		"Session", "Session:", "Session:;", "Session: ;;", "Session::", ":", "::", " : ", "", "\"", "WWW-Authenticate:", "WWW-Authenticate: Digest", "WWW-Authenticate: Digest ", "WWW-Authenticate: Digest realm",
		"WWW-Authenticate: Digest realm=", "WWW-Authenticate: Digest realm=\"", "WWW-Authenticate: Digest =\"", "WWW-Authenticate: Digest ,,,=,", "WWW-Authenticate: Digest realm=\"a\" nonce=\"b\"", "WWW-Authenticate: Basic",
		"WWW-Authenticate: Digest realm=%s, nonce=%d%n", "WWW-Authenticate: Basic realm=\"%!s\"", "WWW-Authenticate: =", "WWW-Authenticate: \"\"", "WWW-Authenticate: Digest nonce==,realm==\"=\"",
		"RTSP/1.0 200 OK", "$\x00\x00\x01x",
		"v=0", "v=x", "o=", "o=-", "o=- 1 1 IN IP4", "s=", "s= ", "t=", "t=0", "t=0 0", "t=x y", "t=-1 0", "r=", "r=0", "r=d d d", "r=7d 1h", "r=1 1 1 1 1", "z=", "z=0", "z=0 d", "z=x y", "c=", "c=IN", "c=IN IP4 ///", "c=IN IP4 1.2.3.4/300", "c=IN IP6 ::1/300", "c=IN IP4 x/1/2/3",
		"m=", "m=video", "m=video 0", "m=video x RTP/AVP 96", "m=video 0 RTP/AVP", "m=video 0/x RTP/AVP 96", "m=video 0 RTP/AVP 999999999999999", "m=audio 0 RTP/AVP -1", "m=  ", "a=", "a=:", "a=x:", "a=rtpmap:", "a=rtpmap:96", "a=rtpmap:x", "a=rtpmap:96 /", "a=rtpmap:96 H264", "a=fmtp:96", "a=fmtp:=;=;;", "a=fmtp:96  ;; =", "a=control", "a=control:rts", "a=framerate:x", "a=framerate:-1", "a=x-dimensions:,", "a=x-dimensions:1", "b=", "b=AS", "b=AS:", "b=AS:x", "b=X:1", "k=", "k=a", "k=a:", "q=1", "=", "==", "\xff=\xff", "xyz",
	}
	for i, b := range base {
		lines := strings.SplitAfter(b, "\r\n")
		for k := range lines {
			if c.Stop() {
				return
			}
			pre, post := strings.Join(lines[:k], ""), strings.Join(lines[k+1:], "")
			one(i, fmt.Sprintf("line %d removed", k), pre+post, true)
			one(i, fmt.Sprintf("line %d doubled", k), pre+lines[k]+lines[k]+post, true)
			one(i, fmt.Sprintf("line %d with LF only", k), pre+strings.Replace(lines[k], "\r\n", "\n", 1)+post, true)
			for j := k + 1; j < len(lines); j++ {
				sw := append([]string(nil), lines...)
				sw[k], sw[j] = sw[j], sw[k]
				one(i, fmt.Sprintf("lines %d and %d swapped", k, j), strings.Join(sw, ""), true)
			}
			for _, t := range tokens {
				one(i, fmt.Sprintf("%q inserted at line %d", t, k), pre+t+"\r\n"+lines[k]+post, true)
				one(i, fmt.Sprintf("%q instead of line %d", t, k), pre+t+"\r\n"+post, true)
				if strings.Contains(b, "v=0\r\n") { // keep the content length right
					h := strings.Index(b, "v=0\r\n")
					if off := len(pre); off >= h {
						body := b[h:off] + t + "\r\n" + post
						one(i, fmt.Sprintf("%q instead of description line %d", t, k), core.Resp(200, 1, nil, body), true)
						one(i, fmt.Sprintf("%q before description line %d", t, k), core.Resp(200, 1, nil, b[h:off]+t+"\r\n"+lines[k]+post), true)
					}
				}
			}
		}
	}
	c.Group("garbage")
	al := []byte("$RTSPr\x00\xff\r\n")
	gl := 4
	if c.Thorough() {
		gl = 6
	}
	c.Bound("garbage_length", gl)
	core.Tuples(len(al), 1, gl, func(t []int) {
		if c.Stop() {
			return
		}
		var g []byte
		for _, i := range t {
			g = append(g, al[i])
		}
		c.State(g)
		at := len(t) % len(base)
		c.Do(func() string { return fmt.Sprintf("answer %d replaced by %q", at, g) }, func() error {
			return survive(c, append(append([]string(nil), base[:at]...), string(g)), false)
		})
		c.Do(func() string { return fmt.Sprintf("%q before answer %d", g, at) }, func() error {
			a := append([]string(nil), base...)
			a[at] = string(g) + a[at]
			return survive(c, a, false)
		})
	})
	c.Group("frames-in-handshake")
	for i := range base {
		for ch := 0; ch < 256; ch++ {
			for _, l := range []int{0, 1, 3, 4, 11, 12, 13, 14, 15, 40} {
				f := string(core.Frame(ch, bytes.Repeat([]byte{0x7c}, l)))
				i, ch, l := i, ch, l
				c.Do(func() string { return fmt.Sprintf("a frame of %d bytes on channel %d around answer %d", l, ch, i) }, func() error {
					a := append([]string(nil), base...)
					a[i] = f + a[i] + f
					return survive(c, a, false)
				})
			}
		}
	}
	rtp := func(codec string, name string, gen func(emit func([]byte))) {
		c.Group("rtp-" + codec + "-" + name)
		var batch [][]byte
		flush := func() {
			if len(batch) == 0 || c.Stop() {
				batch = nil
				return
			}
			bt := batch
			batch = nil
			c.Do(func() string { return fmt.Sprintf("%s: %d frames from %x to %x", codec, len(bt), bt[0], bt[len(bt)-1]) }, func() error {
				return c.Playing([]core.Track{{Kind: "video", Codec: codec, PT: 96, Control: "t"}}, func(p *core.Peer) error {
					for _, f := range bt {
						p.Conn.Feed(core.Frame(0, append([]byte(nil), f...)))
						c.Nontrivial()
					}
					c.Trans(len(bt))
					core.Quiesce()
					n := p.CountEv(rtspclient.RtspEventDisconnected)
					if n != 0 || p.Conn.Closed() != 0 {
						return fmt.Errorf("RTP packets ended the session")
					}
					return nil
				})
			})
		}
		gen(func(b []byte) {
			batch = append(batch, b)
			if len(batch) == 512 {
				flush()
			}
		})
		flush()
	}
	for _, codec := range []string{"H264", "H265", "bbw", "JPEG"} {
		rtp(codec, "short", func(emit func([]byte)) {
			for l := 0; l <= 30; l++ {
				for _, v := range []byte{0, 0xff, 0x7c, 0x62, 0x78, 0x80, 0x60} {
					emit(bytes.Repeat([]byte{v}, l))
				}
			}
			for v := 0; v < 256; v++ { // first and second RTP byte
				h := core.RTP(false, 96, 1, 1, []byte{0x65, 1, 2})
				h[0] = byte(v)
				emit(h)
				h2 := core.RTP(false, 96, 1, 1, []byte{0x65, 1, 2})
				h2[1] = byte(v)
				emit(h2)
				emit(h2[:12])
			}
		})
		// sources, extension and padding that do and do not fit
		rtp(codec, "shapes", func(emit func([]byte)) {
			for v := 0; v < 256; v++ {
				for l := 12; l <= 84; l++ {
					for _, fill := range []byte{0, 1, 2, 12, 13, 0x7c, 0x85, 0xff} {
						b := bytes.Repeat([]byte{fill}, l)
						b[0] = byte(v)
						emit(b)
					}
				}
			}
			for cc := 0; cc < 16; cc++ {
				for _, rest := range []int{0, 1, 2, 3, 4, 5, 8, 9, 12, 13, 40} {
					for _, words := range []int{0, 1, 2, 3, 10, 255, 256, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xffff} {
						for _, pad := range []int{-1, 0, 1, 2, rest, rest + 1, rest + 4, 255} {
							b := make([]byte, 12+4*cc+4+rest)
							b[0] = 0x90 | byte(cc)
							b[12+4*cc+2], b[12+4*cc+3] = byte(words>>8), byte(words)
							if pad >= 0 {
								b[0] |= 0x20
								b[len(b)-1] = byte(pad)
							}
							emit(b)
						}
					}
				}
			}
		})
		if codec != "H264" && codec != "H265" {
			continue
		}
		rtp(codec, "two-bytes", func(emit func([]byte)) {
			for a := 0; a < 256; a++ {
				emit(core.RTP(false, 96, 1, 1, []byte{byte(a)}))
				for b := 0; b < 256; b++ {
					emit(core.RTP(false, 96, 1, 1, []byte{byte(a), byte(b)}))
					emit(core.RTP(false, 96, 1, 1, []byte{byte(a), byte(b), byte(a ^ b)}))
					emit(core.RTP(false, 96, 1, 1, []byte{byte(a), byte(b), 0, 1, 2, 3, 4, 5, 6, 7}))
				}
			}
		})
		types := []byte{24, 25, 26, 27, 28, 29, 0x78, 30, 31}
		if codec == "H265" {
			types = []byte{48 << 1, 49 << 1, 50 << 1, 63 << 1}
		}
		max := 10
		rtp(codec, "aggregates", func(emit func([]byte)) {
			for _, ty := range types {
				for l := 0; l <= max; l++ {
					// every 16-bit size at every place it may stand
					for off := 0; off < l-1 && off < 6; off++ {
						for _, sz := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 255, 256, 257, 32767, 32768, 65533, 65534, 65535} {
							for _, fill := range []byte{0, 1, 0xff, 0x80, 0x40, 0xc0} {
								b := bytes.Repeat([]byte{fill}, l)
								b[off], b[off+1] = byte(sz>>8), byte(sz)
								emit(core.RTP(false, 96, 1, 1, append([]byte{ty}, b...)))
							}
						}
					}
				}
			}
		})
		rtp(codec, "fragments", func(emit func([]byte)) {
			fl := [][]byte{{28, 0x85}, {28, 0x05}, {28, 0x45}, {28, 0xc5}, {28}, {29, 0x85}, {0x65, 1}, {24, 0, 1, 9}, {}}
			if codec == "H265" {
				fl = [][]byte{{98, 1, 0x93}, {98, 1, 0x13}, {98, 1, 0x53}, {98, 1, 0xd3}, {98, 1}, {98}, {38, 1}, {96, 1, 0, 2, 9, 9}, {}}
			}
			core.Tuples(len(fl), 1, 4, func(t []int) {
				for _, i := range t {
					emit(core.RTP(false, 96, 1, 1, append(append([]byte(nil), fl[i]...), 7)[:len(fl[i])]))
				}
			})
		})
	}
	c.Group("huge-unit")
	for _, codec := range []string{"H264", "bbw"} {
		for _, n := range []int{127, 128, 129, 130, 260} {
			codec, n := codec, n
			c.Do(func() string { return fmt.Sprintf("%s: a unit of %d fragments of 65000 bytes", codec, n) }, func() error {
				return c.Playing([]core.Track{{Kind: "video", Codec: codec, PT: 96, Control: "t"}}, func(p *core.Peer) error {
					pl := make([]byte, 65002)
					for i := 0; i < n; i++ {
						pl[0], pl[1] = 28, 5
						if i == 0 {
							pl[1] = 0x85
						} else if i == n-1 {
							pl[1] = 0x45
						}
						p.Conn.Feed(core.Frame(0, core.RTP(i == n-1, 96, i, 1, pl)))
						core.Quiesce()
					}
					p.Conn.Feed(core.Frame(0, core.RTP(true, 96, 1, 1, []byte{0x65, 1})))
					core.Quiesce()
					if p.Conn.Closed() != 0 || p.Conn.Unread() != 0 {
						return fmt.Errorf("the session stopped reading")
					}
					return nil
				})
			})
		}
	}
}

func rune2(b byte) []byte { return []byte{b} }
