package seq

import (
	"bytes"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient/sdp"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C19",
		Rule: "every list of lines over an alphabet of types and values up to the length bound, in every line ending and with blank lines; every pair of lists decoded or built one after the other in the same line list, with every kept prefix and capacity; every builder in a fresh and a reused list; " +
			"non-trivial: a list is reused, or has two lines",
		Assumptions: []string{"values non-empty, without line breaks and outer blanks", "reusing a list gives up the lines it had beyond the kept prefix"},
		Run:         c19,
	})
}

func showSession(s sdp.Session) string {
	var r []string
	for _, l := range s {
		r = append(r, fmt.Sprintf("%q=%.60q", rune(l.Type), l.Value))
	}
	return "[" + strings.Join(r, " ") + "]"
}

func sameLines(got, want sdp.Session) error {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = got[i].Type == want[i].Type && bytes.Equal(got[i].Value, want[i].Value)
	}
	if !ok {
		return fmt.Errorf("lines %s, want %s", showSession(got), showSession(want))
	}
	if !got.Equal(want) || !want.Equal(got) {
		return fmt.Errorf("Equal is false for the same lines %s", showSession(want))
	}
	return nil
}

func cloneLines(s sdp.Session) sdp.Session {
	var r sdp.Session
	for _, l := range s {
		r = append(r, sdp.Line{Type: l.Type, Value: append([]byte(nil), l.Value...)})
	}
	return r
}

func c19(c *core.Ctx) {
	types := []sdp.Type{'v', 'a', 'm', 's', '=', 'Ж', '€', '𝄞'}
	vals := []string{"0", "x=y", "=", "a  b", "s=", "long " + strings.Repeat("z", 700), "Ж€"}
	var lines []sdp.Line
	for _, t := range types {
		if t == '=' {
			continue
		}
		for _, v := range vals {
			lines = append(lines, sdp.Line{Type: t, Value: []byte(v)})
		}
	}
	maxLines := 3
	if c.Thorough() {
		maxLines = 4
	}
	c.Bound("line_alphabet", len(lines))
	c.Bound("lines", maxLines)
	text := func(s sdp.Session, eol string, final bool) []byte {
		b := s.AppendTo(nil)
		if eol != "\n" {
			b = bytes.ReplaceAll(b, []byte("\n"), []byte(eol))
		}
		if final {
			b = append(b, eol...)
		}
		return b
	}
	c.Group("lists")
	core.Tuples(len(lines), 0, maxLines, func(t []int) {
		if c.Stop() {
			return
		}
		t = append([]int(nil), t...)
		c.Do(func() string { return fmt.Sprint("lines ", t) }, func() error {
			var s sdp.Session
			for _, i := range t {
				s = append(s, lines[i])
			}
			want := cloneLines(s)
			if len(t) > 1 {
				c.Nontrivial()
			}
			for k, eol := range []string{"\n", "\r\n", "\n\n", "\r\n\r\n", " \n", "\n\t"} {
				b := text(s, eol, k&1 == 0)
				keep := append([]byte(nil), b...)
				g, err := sdp.DecodeSession(b, nil)
				if err != nil {
					return fmt.Errorf("decode of %.200q: %v", b, err)
				}
				if err := sameLines(g, want); err != nil {
					return fmt.Errorf("line ending %q: %v", eol, err)
				}
				if !bytes.Equal(b, keep) {
					return fmt.Errorf("the text was changed")
				}
				for i := range b { // the caller may reuse its buffer
					b[i] = 'X'
				}
				if err := sameLines(g, want); err != nil {
					return fmt.Errorf("lines changed with the text: %v", err)
				}
			}
			pre := []byte("prefix")
			if b := s.AppendTo(append([]byte(nil), pre...)); !bytes.Equal(b, append(pre, s.AppendTo(nil)...)) {
				return fmt.Errorf("AppendTo does not append")
			}
			return sameLines(s, want)
		})
	})
	// every byte in a value
	c.Group("values")
	for b := 1; b < 256; b++ {
		for b2 := 1; b2 < 256; b2 += 1 {
			if b == '\n' || b == '\r' || b2 == '\n' || b2 == '\r' {
				continue
			}
			b, b2 := b, b2
			c.Do(func() string { return fmt.Sprintf("value with bytes %#x %#x", b, b2) }, func() error {
				s := sdp.Session{{Type: 'a', Value: []byte{'k', byte(b), byte(b2), 'z'}}, {Type: 'b', Value: []byte{'.', byte(b2), '.'}}}
				g, err := sdp.DecodeSession(text(s, "\r\n", true), nil)
				if err != nil {
					return err
				}
				return sameLines(g, s)
			})
		}
	}
	// reuse: the second list in the memory of the first
	small := []sdp.Line{{Type: 'v', Value: []byte("0")}, {Type: 'a', Value: []byte("recvonly-and-long")}, {Type: 's', Value: []byte("xy")}, {Type: 'm', Value: []byte("audio 1 RTP/AVP 0")}}
	maxReuse := 4
	if c.Thorough() {
		maxReuse = 5
	}
	var lists []sdp.Session
	core.Tuples(len(small), 0, maxReuse, func(t []int) {
		var s sdp.Session
		for _, i := range t {
			s = append(s, small[i])
		}
		lists = append(lists, s)
	})
	c.Bound("reused_lists", len(lists))
	c.Group("reuse")
	for ai := range lists {
		if c.Stop() {
			return
		}
		for bi := range lists {
			ai, bi := ai, bi
			c.Do(func() string { return fmt.Sprintf("%s then %s", showSession(lists[ai]), showSession(lists[bi])) }, func() error {
				c.Nontrivial()
				a, b := lists[ai], lists[bi]
				ta, tb := text(a, "\n", false), text(b, "\r\n", true)
				for keep := 0; keep <= len(a); keep++ {
					for _, extra := range []int{0, 1, 2, 7} {
						c.Trans(3)
						fresh := func() sdp.Session {
							s, err := sdp.DecodeSession(ta, make(sdp.Session, 0, len(a)+extra))
							if err != nil {
								panic(err)
							}
							return s
						}
						want := append(cloneLines(a[:keep]), cloneLines(b)...)
						// decode
						s := fresh()
						g, err := sdp.DecodeSession(tb, s[:keep])
						if err != nil {
							return err
						}
						if err := sameLines(g, want); err != nil {
							return fmt.Errorf("decoded after %d kept lines, %d spare: %v", keep, extra, err)
						}
						// build
						s = fresh()[:keep]
						for _, l := range b {
							s = s.AddLine(l.Type, string(l.Value))
						}
						if err := sameLines(s, want); err != nil {
							return fmt.Errorf("built after %d kept lines, %d spare: %v", keep, extra, err)
						}
						s = fresh()[:keep]
						for _, l := range b {
							s = s.AddRaw(rune(l.Type), string(l.Value))
						}
						if err := sameLines(s, want); err != nil {
							return fmt.Errorf("built raw after %d kept lines, %d spare: %v", keep, extra, err)
						}
						// twice reused
						g, err = sdp.DecodeSession(ta, g[:keep])
						if err != nil {
							return err
						}
						if err := sameLines(g, append(cloneLines(a[:keep]), cloneLines(a)...)); err != nil {
							return fmt.Errorf("decoded again after %d kept lines, %d spare: %v", keep, extra, err)
						}
						if !bytes.Equal(ta, text(a, "\n", false)) || !bytes.Equal(tb, text(b, "\r\n", true)) {
							return fmt.Errorf("the text was changed")
						}
					}
				}
				return nil
			})
		}
	}
	// messages decoded before stay as they are
	c.Group("messages")
	texts := []string{}
	for i, tr := range [][]core.Track{useTracks["h264"], useTracks["hevc"], useTracks["mark"], useTracks["pcmu"]} {
		t := core.SDP(tr)
		t = strings.Replace(t, "o=- 1 1 IN IP4 127.0.0.1", fmt.Sprintf("o=user%d %d 7%d NET%d ADR%d host%d", i, i, i, i, i, i), 1)
		t = strings.Replace(t, "t=0 0\r\n", fmt.Sprintf("i=info %d\r\nu=u%d\r\ne=e%d\r\np=p%d\r\nc=IN IP4 10.0.0.%d\r\nb=AS:%d\r\nt=%d 0\r\nr=%d 2 3\r\nz=%d 1\r\nk=clear:%d\r\na=x:%d\r\n", i, i, i, i, i, i, i, i, i, i, i), 1)
		texts = append(texts, t, "v=0\r\no=a 1 2 I I h\r\ns=shorter "+fmt.Sprint(i)+"\r\nt=0 0\r\n")
	}
	core.Tuples(len(texts), 2, 4, func(t []int) {
		if c.Stop() {
			return
		}
		t = append([]int(nil), t...)
		c.Do(func() string { return fmt.Sprint("descriptions ", t, " decoded in one list") }, func() error {
			c.Nontrivial()
			var s sdp.Session
			var msgs []*sdp.Message
			for _, i := range t {
				b := []byte(texts[i])
				var err error
				if s, err = sdp.DecodeSession(b, s[:0]); err != nil {
					return err
				}
				for k := range b {
					b[k] = '#'
				}
				d := sdp.NewDecoder(s)
				m := &sdp.Message{}
				if err := d.Decode(m); err != nil {
					return err
				}
				msgs = append(msgs, m)
			}
			for k, i := range t {
				want, err := decodeText([]byte(texts[i]))
				if err != nil {
					return err
				}
				if err := sameMessage(msgs[k], want); err != nil {
					return fmt.Errorf("message %d: %v", k, err)
				}
			}
			return nil
		})
	})
	// every builder in a fresh and in a reused list
	c.Group("builders")
	tm := time.Unix(1000, 0)
	builders := []struct {
		name string
		add  func(s sdp.Session) sdp.Session
		want string
	}{
		{"AddVersion", func(s sdp.Session) sdp.Session { return s.AddVersion(7) }, "v=7"},
		{"AddPhone", func(s sdp.Session) sdp.Session { return s.AddPhone("+1") }, "p=+1"},
		{"AddEmail", func(s sdp.Session) sdp.Session { return s.AddEmail("e@x") }, "e=e@x"},
		{"AddConnectionDataIP", func(s sdp.Session) sdp.Session { return s.AddConnectionDataIP(net.IPv4(1, 2, 3, 4)) }, "c=IN IP4 1.2.3.4"},
		{"AddConnectionDataIP6", func(s sdp.Session) sdp.Session { return s.AddConnectionDataIP(net.ParseIP("ff15::101")) }, "c=IN IP6 FF15::101"},
		{"AddConnectionData", func(s sdp.Session) sdp.Session {
			return s.AddConnectionData(sdp.ConnectionData{IP: net.IPv4(224, 2, 3, 4), TTL: 5, Addresses: 6})
		}, "c=IN IP4 224.2.3.4/5/6"},
		{"AddSessionName", func(s sdp.Session) sdp.Session { return s.AddSessionName("nm") }, "s=nm"},
		{"AddSessionInfo", func(s sdp.Session) sdp.Session { return s.AddSessionInfo("in fo") }, "i=in fo"},
		{"AddURI", func(s sdp.Session) sdp.Session { return s.AddURI("http://u") }, "u=http://u"},
		{"AddOrigin", func(s sdp.Session) sdp.Session {
			return s.AddOrigin(sdp.Origin{Username: "-", SessionID: 12, SessionVersion: 0, Address: "1.1.1.1"})
		}, "o=- 12 0 IN IP4 1.1.1.1"},
		{"AddOrigin6", func(s sdp.Session) sdp.Session { return s.AddOrigin(sdp.Origin{Username: "u", Address: "::1"}) }, "o=u 0 0 IN IP6 ::1"},
		{"AddTiming", func(s sdp.Session) sdp.Session { return s.AddTiming(tm, time.Time{}) }, "t=2208989800 0"},
		{"AddTimingNTP", func(s sdp.Session) sdp.Session { return s.AddTimingNTP(0, 2208989801) }, "t=0 2208989801"},
		{"AddAttribute", func(s sdp.Session) sdp.Session { return s.AddAttribute("k", "v", "w") }, "a=k:v w"},
		{"AddAttribute0", func(s sdp.Session) sdp.Session { return s.AddAttribute("k") }, "a=k"},
		{"AddFlag", func(s sdp.Session) sdp.Session { return s.AddFlag("f") }, "a=f"},
		{"AddBandwidth", func(s sdp.Session) sdp.Session { return s.AddBandwidth("AS", 90) }, "b=AS:90"},
		{"AddRepeatTimes", func(s sdp.Session) sdp.Session { return s.AddRepeatTimes(time.Hour, time.Minute, 0, time.Second) }, "r=3600 60 0 1"},
		{"AddRepeatTimesCompact", func(s sdp.Session) sdp.Session {
			return s.AddRepeatTimesCompact(24*time.Hour, time.Hour, 0, time.Minute, 61*time.Second)
		}, "r=1d 1h 0 1m 61"},
		{"AddMediaDescription", func(s sdp.Session) sdp.Session {
			return s.AddMediaDescription(sdp.MediaDescription{Type: "video", Port: 8, PortsNumber: 2, Protocol: "P", Format: "f g"})
		}, "m=video 8/2 P f g"},
		{"AddEncryption", func(s sdp.Session) sdp.Session { return s.AddEncryption(sdp.Encryption{Method: "m", Key: "k"}) }, "k=m:k"},
		{"AddEncryptionKey", func(s sdp.Session) sdp.Session { return s.AddEncryptionKey("m", "") }, "k=m"},
		{"AddEncryptionMethod", func(s sdp.Session) sdp.Session { return s.AddEncryptionMethod("mm") }, "k=mm"},
		{"AddTimeZones", func(s sdp.Session) sdp.Session {
			return s.AddTimeZones(sdp.TimeZone{Start: tm, Offset: -time.Hour}, sdp.TimeZone{Offset: 0})
		}, "z=2208989800 -1h 0 0"},
		{"AddRaw", func(s sdp.Session) sdp.Session { return s.AddRaw('Ж', "raw") }, "Ж=raw"},
		{"AddLine", func(s sdp.Session) sdp.Session { return s.AddLine('q', "line") }, "q=line"},
	}
	n := 3
	core.Tuples(len(builders), 1, n, func(t []int) {
		if c.Stop() {
			return
		}
		t = append([]int(nil), t...)
		c.Do(func() string {
			var s []string
			for _, i := range t {
				s = append(s, builders[i].name)
			}
			return strings.Join(s, " ")
		}, func() error {
			c.Nontrivial()
			var want []string
			for _, i := range t {
				want = append(want, builders[i].want)
			}
			for variant := 0; variant < 4; variant++ {
				var s sdp.Session
				switch variant {
				case 1: // reused, exactly as long
					for range t {
						s = s.AddLine('x', "old")
					}
					s = s[:0]
				case 2: // reused with spare lines of longer values
					for k := 0; k < len(t)+3; k++ {
						s = s.AddLine('x', strings.Repeat("o", 40))
					}
					s = s[:0]
				case 3:
					s = make(sdp.Session, 0, len(t)+2)
				}
				for _, i := range t {
					s = builders[i].add(s)
				}
				if g := string(s.AppendTo(nil)); g != strings.Join(want, "\n") {
					return fmt.Errorf("variant %d: %q, want %q", variant, g, strings.Join(want, "\n"))
				}
			}
			return nil
		})
	})
}
