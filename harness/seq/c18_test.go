package seq

import (
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient/sdp"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C18",
		Rule: "every subset of the optional lines of the session, of its timings and of one to three media, written as text by the harness with values naming their section, and compared with the sections they were written in; " +
			"non-trivial: at least two sections have a field of the same kind",
		Assumptions: []string{"lines in the order of RFC 4566; attributes also before the timings"},
		Run:         c18,
	})
}

const (
	hasTitle = 1 << iota
	hasConn
	hasBW
	hasKey
	hasAttr
	nMediaMask
)

// secLines writes the lines a media (or the session) shares; tag tells whose they are.
func secLines(b *strings.Builder, mask, tag int, session bool) {
	if mask&hasTitle != 0 && !session {
		fmt.Fprintf(b, "i=title %d\r\n", tag)
	}
	if mask&hasConn != 0 {
		switch tag % 3 {
		case 0:
			fmt.Fprintf(b, "c=IN IP4 10.0.0.%d\r\n", tag)
		case 1:
			fmt.Fprintf(b, "c=IN IP4 224.0.0.%d/%d/%d\r\n", tag, 10+tag, 20+tag)
		case 2:
			fmt.Fprintf(b, "c=IN IP6 FF15::%d/%d\r\n", tag, 30+tag)
		}
	}
	if mask&hasBW != 0 {
		switch tag % 3 {
		case 0:
			fmt.Fprintf(b, "b=AS:%d\r\n", 100+tag)
		case 1:
			fmt.Fprintf(b, "b=CT:%d\r\n", 200+tag)
		case 2:
			fmt.Fprintf(b, "b=CT:%d\r\nb=AS:%d\r\n", 200+tag, 100+tag)
		}
	}
}

func secTail(b *strings.Builder, mask, tag int) {
	if mask&hasKey != 0 {
		fmt.Fprintf(b, "k=clear:key%d\r\n", tag)
	}
	if mask&hasAttr != 0 {
		fmt.Fprintf(b, "a=x:%d first\r\na=flag%d\r\na=x:%d second\r\na=x:%d first\r\n", tag, tag, tag, tag)
	}
}

func secConn(mask, tag int) (c sdp.ConnectionData) {
	if mask&hasConn == 0 {
		return
	}
	c = sdp.ConnectionData{NetworkType: "IN", AddressType: "IP4", IP: net.IPv4(10, 0, 0, byte(tag))}
	switch tag % 3 {
	case 1:
		c.IP, c.TTL, c.Addresses = net.IPv4(224, 0, 0, byte(tag)), byte(10+tag), byte(20+tag)
	case 2:
		c.AddressType, c.IP, c.Addresses = "IP6", net.ParseIP(fmt.Sprintf("FF15::%d", tag)), byte(30+tag)
	}
	return
}

func secBW(mask, tag int) (m map[sdp.BandwidthType]int) {
	if mask&hasBW == 0 {
		return
	}
	m = map[sdp.BandwidthType]int{}
	if tag%3 != 1 {
		m["AS"] = 100 + tag
	}
	if tag%3 != 0 {
		m["CT"] = 200 + tag
	}
	return
}

func secKey(mask, tag int) (e sdp.Encryption) {
	if mask&hasKey != 0 {
		e = sdp.Encryption{Method: "clear", Key: fmt.Sprintf("key%d", tag)}
	}
	return
}

func secAttr(mask, tag int) sdp.Attributes {
	if mask&hasAttr == 0 {
		return nil
	}
	return sdp.Attributes{"x": {fmt.Sprintf("%d first", tag), fmt.Sprintf("%d second", tag), fmt.Sprintf("%d first", tag)}, fmt.Sprintf("flag%d", tag): {""}}
}

// the time part: lines and meaning
var timeParts = []struct {
	text string
	want []sdp.Timing
	tz   []sdp.TimeZone
}{
	{"t=0 0\r\n", []sdp.Timing{{}}, nil},
	{"t=2208988801 2208988802\r\nr=10 20 30\r\n", []sdp.Timing{{Start: time.Unix(1, 0), End: time.Unix(2, 0), Repeat: 10 * time.Second, Active: 20 * time.Second, Offsets: []sd{30 * time.Second}}}, nil},
	{"t=2208988801 0\r\nr=1d 2h 3m 4s\r\nt=2208988803 2208988804\r\n", []sdp.Timing{{Start: time.Unix(1, 0), Repeat: 24 * time.Hour, Active: 2 * time.Hour, Offsets: []sd{3 * time.Minute, 4 * time.Second}}, {Start: time.Unix(3, 0), End: time.Unix(4, 0)}}, nil},
	{"t=2208988801 0\r\nt=2208988803 2208988804\r\nr=1 2 3\r\nz=2208988805 -1h 2208988806 0\r\n", []sdp.Timing{{Start: time.Unix(1, 0)}, {Start: time.Unix(3, 0), End: time.Unix(4, 0), Repeat: time.Second, Active: 2 * time.Second, Offsets: []sd{3 * time.Second}}},
		[]sdp.TimeZone{{Start: time.Unix(5, 0), Offset: -time.Hour}, {Start: time.Unix(6, 0)}}},
	{"t=2208988801 0\r\nr=1 2 3\r\nt=2208988803 0\r\nr=4 5 6 7\r\nt=2208988809 0\r\n", []sdp.Timing{{Start: time.Unix(1, 0), Repeat: time.Second, Active: 2 * time.Second, Offsets: []sd{3 * time.Second}},
		{Start: time.Unix(3, 0), Repeat: 4 * time.Second, Active: 5 * time.Second, Offsets: []sd{6 * time.Second, 7 * time.Second}}, {Start: time.Unix(9, 0)}}, nil},
}

func c18(c *core.Ctx) {
	// one description: session mask, early attributes, time part, media masks
	run := func(sess, early, tp int, media []int) {
		media = append([]int(nil), media...)
		c.Do(func() string {
			return fmt.Sprintf("session lines %b, early attributes %d, times %d, media lines %b", sess, early, tp, media)
		}, func() error {
			var b strings.Builder
			b.WriteString("v=0\r\no=- 3 4 IN IP4 10.9.8.7\r\ns=name\r\n")
			want := &sdp.Message{Origin: sdp.Origin{Username: "-", SessionID: 3, SessionVersion: 4, NetworkType: "IN", AddressType: "IP4", Address: "10.9.8.7"}, Name: "name"}
			if sess&(1<<5) != 0 {
				b.WriteString("i=session info\r\nu=http://u\r\n")
				want.Info, want.URI = "session info", "http://u"
			}
			if sess&(1<<6) != 0 {
				b.WriteString("e=e@x\r\np=+1\r\n")
				want.Email, want.Phone = "e@x", "+1"
			}
			secLines(&b, sess, 0, true)
			if early != 0 {
				b.WriteString("a=early:1\r\na=x:early\r\n")
			}
			b.WriteString(timeParts[tp].text)
			secTail(&b, sess, 0)
			want.Connection, want.Bandwidths, want.Encryption, want.Attributes = secConn(sess, 0), secBW(sess, 0), secKey(sess, 0), secAttr(sess, 0)
			if early != 0 {
				if want.Attributes == nil {
					want.Attributes = sdp.Attributes{}
				}
				want.Attributes["early"] = []string{"1"}
				want.Attributes["x"] = append([]string{"early"}, want.Attributes["x"]...)
			}
			want.Timing, want.TZAdjustments = timeParts[tp].want, timeParts[tp].tz
			kinds, shared := sess, false
			for i, mk := range media {
				tag := i + 1
				fmt.Fprintf(&b, "m=video %d RTP/AVP %d\r\n", tag, 96+tag)
				secLines(&b, mk, tag, false)
				secTail(&b, mk, tag)
				m := sdp.Media{Description: sdp.MediaDescription{Type: "video", Port: tag, Protocol: "RTP/AVP", Format: fmt.Sprint(96 + tag)},
					Connection: secConn(mk, tag), Bandwidths: secBW(mk, tag), Encryption: secKey(mk, tag), Attributes: secAttr(mk, tag)}
				if mk&hasTitle != 0 {
					m.Title = fmt.Sprintf("title %d", tag)
				}
				want.Medias = append(want.Medias, m)
				shared = shared || kinds&mk != 0
				kinds |= mk
			}
			if shared {
				c.Nontrivial()
			}
			text := b.String()
			c.Trans(strings.Count(text, "\n"))
			got, err := decodeText([]byte(text))
			if err != nil {
				return fmt.Errorf("%v of %q", err, text)
			}
			if err := sameMessage(got, want); err != nil {
				return fmt.Errorf("%v in %q", err, text)
			}
			// the accessors agree
			if want.Flag("x") != got.Flag("x") || got.Attribute("x") != want.Attributes.Value("x") || len(got.Attributes.Values("x")) != len(want.Attributes["x"]) {
				return fmt.Errorf("session accessors differ in %q", text)
			}
			for i := range got.Medias {
				g, w := &got.Medias[i], want.Medias[i].Attributes
				if g.Flag("x") != (len(w["x"]) > 0) || g.Attribute("x") != w.Value("x") || g.Flag(fmt.Sprintf("flag%d", i+1)) != (w != nil) || g.Flag("flag0") || g.Flag("early") {
					return fmt.Errorf("accessors of media %d differ in %q", i, text)
				}
			}
			return nil
		})
	}
	c.Group("two-media")
	for sess := 0; sess < 1<<7; sess++ {
		if sess&hasTitle != 0 {
			continue
		}
		for tp := range timeParts {
			if c.Stop() {
				return
			}
			for early := 0; early < 2; early++ {
				for a := 0; a < nMediaMask; a++ {
					run(sess, early, tp, []int{a})
					for b := 0; b < nMediaMask; b++ {
						run(sess, early, tp, []int{a, b})
					}
				}
			}
		}
	}
	c.Group("three-media")
	for sess := 0; sess < 1<<5; sess++ {
		if sess&hasTitle != 0 {
			continue
		}
		if c.Stop() {
			return
		}
		core.Product([]int{nMediaMask, nMediaMask, nMediaMask}, func(ix []int) { run(sess, 0, 0, ix) })
	}
	if c.Thorough() {
		c.Group("four-media")
		core.Product([]int{nMediaMask, nMediaMask, nMediaMask, nMediaMask}, func(ix []int) {
			if ix[3] == 0 && c.Stop() {
				return
			}
			run(hasConn|hasBW|hasKey|hasAttr, 0, 1, ix)
			run(0, 1, 2, ix)
		})
	}
	c.Group("media-count")
	for n := 0; n <= 200; n++ {
		var ms []int
		for i := 0; i < n; i++ {
			ms = append(ms, (i*7+n)%nMediaMask)
		}
		run(n%128&^hasTitle, n%2, n%len(timeParts), ms)
	}
	// repeats of one attribute in every interleaving of sections keep their order
	c.Group("attribute-order")
	names := []string{"p", "q"}
	vals := []string{"", "1", "2"}
	max := 4
	if c.Thorough() {
		max = 5
	}
	core.Tuples(len(names)*len(vals)+1, 1, max, func(t []int) {
		if c.Stop() {
			return
		}
		t = append([]int(nil), t...)
		c.Do(func() string { return fmt.Sprint("attribute lines ", t) }, func() error {
			c.Nontrivial()
			text := "v=0\r\no=- 3 4 IN IP4 10.9.8.7\r\ns=name\r\nt=0 0\r\n"
			want := []sdp.Attributes{{}}
			for _, x := range t {
				if x == len(names)*len(vals) {
					text += "m=audio 1 RTP/AVP 0\r\n"
					want = append(want, sdp.Attributes{})
					continue
				}
				k, v := names[x%2], vals[x/2]
				text += "a=" + k
				if v != "" {
					text += ":" + v
				}
				text += "\r\n"
				w := want[len(want)-1]
				w[k] = append(w[k], v)
			}
			got, err := decodeText([]byte(text))
			if err != nil {
				return fmt.Errorf("%v of %q", err, text)
			}
			if len(got.Medias) != len(want)-1 {
				return fmt.Errorf("%d media in %q", len(got.Medias), text)
			}
			for i, w := range want {
				g := got.Attributes
				if i > 0 {
					g = got.Medias[i-1].Attributes
				}
				if !sameAttrs(g, w) {
					return fmt.Errorf("section %d has attributes %v, want %v in %q", i, g, w, text)
				}
			}
			return nil
		})
	})
}
