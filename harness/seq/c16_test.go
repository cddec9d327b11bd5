package seq

import (
	"bytes"
	"fmt"
	"net"
	"reflect"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient/sdp"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C16",
		Rule: "every combination of the field values listed per section (session fields, timings, media fields, pairs of media), every numeric value of the small numeric fields and every byte in every text field; " +
			"encoded, written as text with either line ending, read and decoded; non-trivial: more than the mandatory fields are set",
		Assumptions: []string{"texts without line breaks, outer blanks or NUL; tokens without blanks; attribute names and key methods without ':'", "whole-second times and durations", "IPv4 counts come with a TTL"},
		Run:         c16,
	})
}

var sdpT = func(sec int64) time.Time { return time.Unix(sec, 0) }

type sd = time.Duration

func sameTime(a, b time.Time) bool {
	return a.IsZero() == b.IsZero() && (a.IsZero() || a.Unix() == b.Unix())
}

func sameAttrs(a, b sdp.Attributes) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !reflect.DeepEqual(v, w) {
			return false
		}
	}
	return true
}

func sameBW(a, b map[sdp.BandwidthType]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func sameConn(a, b sdp.ConnectionData) bool {
	return a.NetworkType == b.NetworkType && a.AddressType == b.AddressType && a.IP.Equal(b.IP) && (a.IP == nil) == (b.IP == nil) &&
		a.TTL == b.TTL && a.Addresses == b.Addresses
}

// sameMessage compares what a user can see of two messages.
func sameMessage(got, want *sdp.Message) error {
	bad := func(f string, g, w any) error { return fmt.Errorf("%s is %v, want %v", f, g, w) }
	switch {
	case got.Version != want.Version:
		return bad("version", got.Version, want.Version)
	case got.Origin != want.Origin:
		return bad("origin", got.Origin, want.Origin)
	case got.Name != want.Name:
		return bad("name", fmt.Sprintf("%q", got.Name), fmt.Sprintf("%q", want.Name))
	case got.Info != want.Info:
		return bad("info", fmt.Sprintf("%q", got.Info), fmt.Sprintf("%q", want.Info))
	case got.URI != want.URI:
		return bad("uri", got.URI, want.URI)
	case got.Email != want.Email:
		return bad("email", got.Email, want.Email)
	case got.Phone != want.Phone:
		return bad("phone", got.Phone, want.Phone)
	case !sameConn(got.Connection, want.Connection):
		return bad("connection", got.Connection, want.Connection)
	case !sameBW(got.Bandwidths, want.Bandwidths):
		return bad("bandwidths", got.Bandwidths, want.Bandwidths)
	case got.Encryption != want.Encryption:
		return bad("encryption", got.Encryption, want.Encryption)
	case !sameAttrs(got.Attributes, want.Attributes):
		return bad("attributes", got.Attributes, want.Attributes)
	case len(got.Timing) != len(want.Timing):
		return bad("number of timings", len(got.Timing), len(want.Timing))
	case len(got.TZAdjustments) != len(want.TZAdjustments):
		return bad("number of time zones", len(got.TZAdjustments), len(want.TZAdjustments))
	case len(got.Medias) != len(want.Medias):
		return bad("number of media", len(got.Medias), len(want.Medias))
	}
	for i, w := range want.Timing {
		g := got.Timing[i]
		if !sameTime(g.Start, w.Start) || !sameTime(g.End, w.End) || g.Repeat != w.Repeat || g.Active != w.Active || len(g.Offsets) != len(w.Offsets) {
			return bad(fmt.Sprintf("timing %d", i), g, w)
		}
		for j := range w.Offsets {
			if g.Offsets[j] != w.Offsets[j] {
				return bad(fmt.Sprintf("offset %d of timing %d", j, i), g.Offsets, w.Offsets)
			}
		}
	}
	if len(want.Timing) > 0 && (!sameTime(got.Start(), want.Timing[0].Start) || !sameTime(got.End(), want.Timing[0].End)) {
		return bad("Start/End", got.Start(), want.Timing[0].Start)
	}
	for i, w := range want.TZAdjustments {
		g := got.TZAdjustments[i]
		if !sameTime(g.Start, w.Start) || g.Offset != w.Offset {
			return bad(fmt.Sprintf("time zone %d", i), g, w)
		}
	}
	for i, w := range want.Medias {
		g := got.Medias[i]
		if g.Title != w.Title || g.Description != w.Description || !sameConn(g.Connection, w.Connection) || g.Encryption != w.Encryption ||
			!sameBW(g.Bandwidths, w.Bandwidths) || !sameAttrs(g.Attributes, w.Attributes) {
			return bad(fmt.Sprintf("media %d", i), fmt.Sprintf("%+v", g), fmt.Sprintf("%+v", w))
		}
	}
	return nil
}

// roundTrip encodes and decodes m; eol is the line ending of the text.
func roundTrip(m *sdp.Message, eol string, final bool) (*sdp.Message, string, error) {
	text := string(m.Append(nil).AppendTo(nil))
	if strings.Contains(text, "\r") {
		return nil, text, fmt.Errorf("CR in the encoded text")
	}
	if eol != "\n" {
		text = strings.ReplaceAll(text, "\n", eol)
	}
	if final {
		text += eol
	}
	s, err := sdp.DecodeSession([]byte(text), nil)
	if err != nil {
		return nil, text, fmt.Errorf("DecodeSession: %v of %q", err, text)
	}
	d := sdp.NewDecoder(s)
	g := &sdp.Message{}
	if err := d.Decode(g); err != nil {
		return nil, text, fmt.Errorf("Decode: %v of %q", err, text)
	}
	return g, text, nil
}

func checkRound(m *sdp.Message) error {
	for k, eol := range []string{"\n", "\r\n", "\n"} {
		g, text, err := roundTrip(m, eol, k > 0)
		if err != nil {
			return err
		}
		if err := sameMessage(g, m); err != nil {
			return fmt.Errorf("%v in %q", err, text)
		}
	}
	return nil
}

func baseMsg() *sdp.Message {
	return &sdp.Message{
		Origin: sdp.Origin{Username: "-", SessionID: 1, SessionVersion: 2, NetworkType: "IN", AddressType: "IP4", Address: "10.0.0.1"},
		Name:   "s", Timing: []sdp.Timing{{}},
	}
}

func ipd(s, typ string, ttl, n byte) sdp.ConnectionData {
	return sdp.ConnectionData{NetworkType: "IN", AddressType: typ, IP: net.ParseIP(s), TTL: ttl, Addresses: n}
}

func c16(c *core.Ctx) {
	conns := []sdp.ConnectionData{{}, ipd("192.168.0.1", "IP4", 0, 0), ipd("224.2.36.42", "IP4", 127, 0), ipd("224.2.1.1", "IP4", 255, 3), ipd("2001:db8::abcd", "IP6", 0, 0), ipd("ff15::101", "IP6", 0, 255), ipd("::", "IP6", 0, 1)}
	bws := []map[sdp.BandwidthType]int{nil, {"CT": 0}, {"AS": 128}, {"CT": 1<<31 - 1, "AS": 1}}
	timings := [][]sdp.Timing{
		{{}},
		{{Start: sdpT(1), End: sdpT(4000000000)}},
		{{Start: sdpT(0), Repeat: 7 * 24 * time.Hour, Active: time.Hour, Offsets: []sd{0}}},
		{{Start: sdpT(5), End: sdpT(9), Repeat: 90 * time.Second, Active: 61 * time.Minute, Offsets: []sd{0, 25 * time.Hour, time.Second}}, {}},
		{{}, {Start: sdpT(7), End: sdpT(8)}, {Start: sdpT(9), End: sdpT(10), Repeat: time.Second, Active: 0, Offsets: []sd{time.Minute}}},
		{{Start: sdpT(1), Repeat: time.Hour, Active: time.Minute, Offsets: []sd{1 * time.Second}}, {Start: sdpT(2), Repeat: 2 * time.Hour, Active: 2 * time.Minute, Offsets: []sd{2 * time.Second, 0}}},
	}
	tzs := [][]sdp.TimeZone{nil, {{Start: sdpT(673600000), Offset: -time.Hour}}, {{Start: sdpT(10), Offset: 0}, {Start: sdpT(11), Offset: 90 * time.Minute}, {Offset: -31 * time.Second}}}
	encs := []sdp.Encryption{{}, {Method: "prompt"}, {Method: "clear", Key: "k:y=1 2"}, {Method: "uri", Key: "http://a/:b"}}
	attrs := []sdp.Attributes{nil, {"recvonly": {""}}, {"rtpmap": {"96 H264/90000"}}, {"k": {"v1", "v2", "v1"}}, {"a": {"", ""}, "b": {":c"}}, {"fmtp": {"96 a=b;c=d=="}, "x": {"", "y", ""}, "control": {"rtsp://h/p?q=1"}}}
	texts := []string{"", "i j"}

	c.Group("session")
	core.Product([]int{len(conns), len(bws), len(timings), len(tzs), len(encs), len(attrs), 16}, func(ix []int) {
		if c.Stop() {
			return
		}
		ix = append([]int(nil), ix...)
		c.Do(func() string { return fmt.Sprint("session fields ", ix) }, func() error {
			m := baseMsg()
			m.Connection, m.Bandwidths, m.Timing, m.TZAdjustments, m.Encryption, m.Attributes = conns[ix[0]], bws[ix[1]], timings[ix[2]], tzs[ix[3]], encs[ix[4]], attrs[ix[5]]
			if ix[6]&1 != 0 {
				m.Info = "some info = x"
			}
			if ix[6]&2 != 0 {
				m.URI = "http://e.com/a?b=c"
			}
			if ix[6]&4 != 0 {
				m.Email = "j.doe@e.com (J D)"
			}
			if ix[6]&8 != 0 {
				m.Phone = "+1 617 555-6011"
			}
			c.Nontrivial()
			c.Trans(1)
			return checkRound(m)
		})
	})
	// media
	descs := []sdp.MediaDescription{{Type: "audio", Port: 0, Protocol: "RTP/AVP", Format: "0"}, {Type: "video", Port: 49170, PortsNumber: 2, Protocol: "RTP/AVP", Format: "31 32 96"},
		{Type: "application", Port: 65535, PortsNumber: 1, Protocol: "udp", Format: "wb"}, {Type: "text", Port: 1, Protocol: "RTP/SAVPF", Format: "a b"}}
	var medias []sdp.Media
	core.Product([]int{len(descs), len(texts), len(conns), len(bws), len(encs), len(attrs)}, func(ix []int) {
		medias = append(medias, sdp.Media{Description: descs[ix[0]], Title: texts[ix[1]], Connection: conns[ix[2]], Bandwidths: bws[ix[3]], Encryption: encs[ix[4]], Attributes: attrs[ix[5]]})
	})
	c.Bound("media_descriptions", len(medias))
	c.Group("media")
	for i := range medias {
		if i&255 == 0 && c.Stop() {
			return
		}
		i := i
		c.Do(func() string { return fmt.Sprintf("media %d %+v", i, medias[i]) }, func() error {
			c.Nontrivial()
			m := baseMsg()
			m.Medias = sdp.Medias{medias[i]}
			if err := checkRound(m); err != nil {
				return err
			}
			// with everything set in the session
			m.Connection, m.Bandwidths, m.Encryption, m.Attributes, m.Info = conns[3], bws[3], encs[2], attrs[5], "I"
			return checkRound(m)
		})
	}
	c.Group("media-pairs")
	step := 11
	if c.Thorough() {
		step = 3
	}
	c.Bound("pair_step", step)
	for i := 0; i < len(medias); i += step {
		if c.Stop() {
			return
		}
		for j := 0; j < len(medias); j += step {
			i, j := i, j
			c.Do(func() string { return fmt.Sprintf("media %+v then %+v", medias[i], medias[j]) }, func() error {
				c.Nontrivial()
				m := baseMsg()
				m.Medias = sdp.Medias{medias[i], medias[j]}
				return checkRound(m)
			})
		}
	}
	c.Group("media-count")
	for n := 0; n <= 300; n++ {
		n := n
		c.Do(func() string { return fmt.Sprintf("%d media, timings and attributes", n) }, func() error {
			m := baseMsg()
			for i := 0; i < n; i++ {
				m.Medias = append(m.Medias, medias[(i*37)%len(medias)])
				m.Timing = append(m.Timing, sdp.Timing{Start: sdpT(int64(i))})
				m.AddAttribute("n", fmt.Sprint("v", i))
			}
			return checkRound(m)
		})
	}
	// every value of the small numbers
	c.Group("numbers")
	for ttl := 1; ttl < 256; ttl++ {
		if c.Stop() {
			return
		}
		for n := 0; n < 256; n++ {
			ttl, n := byte(ttl), byte(n)
			c.Do(func() string { return fmt.Sprintf("TTL %d count %d", ttl, n) }, func() error {
				m := baseMsg()
				m.Connection = ipd(fmt.Sprintf("%d.%d.1.%d", ttl, n, 255-n), "IP4", ttl, n)
				m.Medias = sdp.Medias{{Description: descs[0], Connection: ipd("ff15::101", "IP6", 0, n)}, {Description: descs[1], Connection: ipd("224.2.36.42", "IP4", ttl, n)}}
				return checkRound(m)
			})
		}
	}
	ints := []int{0, 1, -1, 9, 10, 11, 99, 100, 101, 999, 1000, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<53 + 1, 1<<63 - 1, -1 << 63, -10, 1000000007}
	for v := 0; v <= 1100; v++ {
		ints = append(ints, v)
	}
	for p := 1; p < 1<<60; p *= 10 {
		for k := 1; k < 10; k++ {
			ints = append(ints, p*k, p*k-1, p*k+1)
		}
	}
	for _, v := range ints {
		v := v
		c.Do(func() string { return fmt.Sprintf("integer fields %d", v) }, func() error {
			m := baseMsg()
			m.Version, m.Origin.SessionID, m.Origin.SessionVersion = v, v, v
			w := v
			if w < 0 {
				w = 1
			}
			m.Bandwidths = map[sdp.BandwidthType]int{"CT": w, "AS": w}
			m.Medias = sdp.Medias{{Description: sdp.MediaDescription{Type: "audio", Port: w, PortsNumber: w, Protocol: "p", Format: "f"}, Bandwidths: sdp.Bandwidths{"AS": w}}}
			return checkRound(m)
		})
	}
	c.Group("times")
	for _, s := range timeValues(c) {
		s := s
		c.Do(func() string { return fmt.Sprintf("time %d, interval %d s", s, s) }, func() error {
			m := baseMsg()
			d := sd(s) * time.Second
			if d/time.Second != sd(s) {
				d = time.Second
			}
			a := d
			if a < 0 {
				a = -a
			}
			if s == -2208988800 || sdpT(s).IsZero() { // NTP 0
				s = 1
			}
			m.Timing = []sdp.Timing{{Start: sdpT(s), End: sdpT(s + 1), Repeat: a, Active: a, Offsets: []sd{0, a, a}}, {Start: sdpT(s)}}
			if s+1 == -2208988800 || sdpT(s+1).IsZero() {
				m.Timing[0].End = time.Time{}
			}
			m.TZAdjustments = []sdp.TimeZone{{Start: sdpT(s), Offset: d}, {Offset: -d}}
			return checkRound(m)
		})
	}
	// every byte in every text
	c.Group("texts")
	var vals []string
	for b := 1; b < 256; b++ {
		if b == '\n' || b == '\r' {
			continue
		}
		vals = append(vals, "x"+string([]byte{byte(b)})+"y", "x"+string([]byte{byte(b), byte(b)})+"y")
	}
	vals = append(vals, "=", "a=b", "v=0", "x  y", "Ünïcödé", strings.Repeat("long ", 2000)+"z", "\u2028x", "x:y", "0", "%d%s", "m=audio", "=:=", ".", "\x7f")
	toks := func(v string) bool { return !strings.ContainsAny(v, " ") }
	for _, v := range vals {
		v := v
		c.Do(func() string { return fmt.Sprintf("text %.60q", v) }, func() error {
			if bytes.TrimSpace([]byte(v)) == nil || strings.TrimSpace(v) != v {
				return nil
			}
			for f := 0; f < 13; f++ {
				m := baseMsg()
				m.Medias = sdp.Medias{{Description: descs[0]}}
				switch f {
				case 0:
					m.Name = v
				case 1:
					m.Info = v
				case 2:
					m.URI = v
				case 3:
					m.Email = v
				case 4:
					m.Phone = v
				case 5:
					m.Attributes = sdp.Attributes{"k": {v, "2", v}}
				case 6:
					m.Medias[0].Attributes = sdp.Attributes{"k": {"0", v}}
				case 7:
					m.Medias[0].Title = v
				case 8:
					m.Encryption = sdp.Encryption{Method: "m", Key: v}
					m.Medias[0].Encryption = sdp.Encryption{Method: "n", Key: v}
				case 9:
					if strings.Contains(v, ":") {
						continue
					}
					m.Attributes = sdp.Attributes{v: {"", "x"}}
					m.Medias[0].Attributes = sdp.Attributes{v: {"y", ""}}
					m.Encryption.Method = v
				case 10:
					if !toks(v) {
						continue
					}
					m.Origin.Username, m.Origin.Address = v, v
				case 11:
					if !toks(v) {
						continue
					}
					m.Origin.NetworkType, m.Origin.AddressType = v, v
					m.Connection = sdp.ConnectionData{NetworkType: v, AddressType: v, IP: net.IPv4(1, 2, 3, 4)}
				case 12:
					if !toks(v) {
						continue
					}
					m.Medias[0].Description = sdp.MediaDescription{Type: v, Port: 5, Protocol: v, Format: v + " " + v}
				}
				c.Trans(1)
				if err := checkRound(m); err != nil {
					return fmt.Errorf("field %d: %v", f, err)
				}
			}
			return nil
		})
	}
	c.Group("unnamed")
	c.Do(func() string { return `session name " "` }, func() error {
		m := baseMsg()
		m.Name = " "
		return checkRound(m)
	})
}

// timeValues lists seconds around every power of two and ten and the unit changes.
func timeValues(c *core.Ctx) []int64 {
	set := map[int64]bool{}
	var r []int64
	add := func(v int64) {
		for d := int64(-2); d <= 2; d++ {
			for _, x := range []int64{v + d, -(v + d)} {
				if !set[x] {
					set[x] = true
					r = append(r, x)
				}
			}
		}
	}
	for p := uint(0); p < 62; p++ {
		add(1 << p)
	}
	for p := int64(1); p < 1e18; p *= 10 {
		add(p)
	}
	for _, u := range []int64{60, 3600, 86400, 604800} {
		for k := int64(0); k < 70; k++ {
			add(u * k)
		}
	}
	add(2208988800)
	add(1<<32 - 2208988800)
	n := int64(3000)
	if c.Thorough() {
		n = 200000
	}
	for v := int64(0); v < n; v++ {
		add(v)
	}
	return r
}
