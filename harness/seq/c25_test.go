package seq

import (
	"bytes"
	"fmt"
	"net"
	"reflect"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient/sdp"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C25",
		Rule: "all pairs of values over the product of a few values per field (comparison), all sequences of additions up to the bound on messages and medias with every look-up after every one of them, " +
			"all lists of timings up to the bound, all connection addresses over the field alphabet; non-trivial: a pair that differs, a sequence that repeats a name",
		Assumptions: []string{"addresses are equal when they are the same address, whatever their length in memory"},
		Run:         c25,
	})
}

// attrModel is an ordered multimap.
type attrModel struct {
	names []string
	vals  map[string][]string
}

func (a *attrModel) add(k, v string) {
	if a.vals == nil {
		a.vals = map[string][]string{}
	}
	a.vals[k] = append(a.vals[k], v)
}

func c25(c *core.Ctx) {
	c25Equal(c)
	c25Attrs(c)
	c25Times(c)
	c25Text(c)
}

func c25Equal(c *core.Ctx) {
	strs := []string{"", "a", "A", "ab", "IN", "b "}
	ips := []net.IP{nil, {}, net.IPv4(1, 2, 3, 4).To4(), net.IPv4(1, 2, 3, 4).To16(), net.IPv4(1, 2, 3, 5), net.IPv4(0, 0, 0, 0), net.ParseIP("::"), net.ParseIP("ff15::101"), net.ParseIP("ff15::102"), net.ParseIP("::1.2.3.4")}
	canon := func(ip net.IP) string {
		if len(ip) == 0 {
			return ""
		}
		return string(ip.To16())
	}
	bs := []byte{0, 1, 127, 255}
	var conns []sdp.ConnectionData
	for _, nt := range strs[:4] {
		for _, at := range strs[:4] {
			for _, ip := range ips {
				for _, ttl := range bs {
					for _, n := range bs {
						conns = append(conns, sdp.ConnectionData{NetworkType: nt, AddressType: at, IP: ip, TTL: ttl, Addresses: n})
					}
				}
			}
		}
	}
	type key struct {
		a, b, c, d, e string
		i, j          int
	}
	connKey := func(x sdp.ConnectionData) key {
		return key{a: x.NetworkType, b: x.AddressType, c: canon(x.IP), i: int(x.TTL), j: int(x.Addresses)}
	}
	c.Group("equal-connection")
	c.Bound("connection_values", len(conns))
	for i := range conns {
		if c.Stop() {
			return
		}
		c.Do(func() string { return fmt.Sprintf("connection %#v against all", conns[i]) }, func() error {
			x := conns[i]
			kx := connKey(x)
			if got, want := x.Blank(), kx == (key{}); got != want {
				return fmt.Errorf("blank %v", got)
			}
			for _, y := range conns {
				c.Trans(1)
				want := kx == connKey(y)
				if x.Equal(y) != want || y.Equal(x) != want {
					return fmt.Errorf("equal to %#v: %v and %v, want %v", y, x.Equal(y), y.Equal(x), want)
				}
			}
			c.Nontrivial()
			c.State("conn", i)
			return nil
		})
	}
	var origs []sdp.Origin
	for _, u := range strs[:4] {
		for _, id := range []int{0, 1, -1, 1 << 40} {
			for _, v := range []int{0, 1, 2, 1 << 40} {
				for _, nt := range strs[:3] {
					for _, at := range strs[:3] {
						for _, ad := range strs[:4] {
							origs = append(origs, sdp.Origin{Username: u, SessionID: id, SessionVersion: v, NetworkType: nt, AddressType: at, Address: ad})
						}
					}
				}
			}
		}
	}
	c.Group("equal-origin")
	c.Bound("origin_values", len(origs))
	for i := range origs {
		if c.Stop() {
			return
		}
		c.Do(func() string { return fmt.Sprintf("origin %#v against all", origs[i]) }, func() error {
			for j, y := range origs {
				c.Trans(1)
				if origs[i].Equal(y) != (i == j) || y.Equal(origs[i]) != (i == j) {
					return fmt.Errorf("equal to %#v: %v and %v", y, origs[i].Equal(y), y.Equal(origs[i]))
				}
			}
			c.Nontrivial()
			c.State("orig", i)
			return nil
		})
	}
	c.Group("equal-encryption")
	var encs []sdp.Encryption
	for _, m := range strs {
		for _, k := range strs {
			encs = append(encs, sdp.Encryption{Method: m, Key: k})
		}
	}
	for i := range encs {
		c.Do(func() string { return fmt.Sprintf("encryption %#v against all", encs[i]) }, func() error {
			if encs[i].Blank() != (i == 0) {
				return fmt.Errorf("blank %v", encs[i].Blank())
			}
			for j, y := range encs {
				c.Trans(1)
				if encs[i].Equal(y) != (i == j) {
					return fmt.Errorf("equal to %#v: %v", y, encs[i].Equal(y))
				}
			}
			c.State("enc", i)
			c.Nontrivial()
			return nil
		})
	}
	// lines and sessions
	var lines []sdp.Line
	for _, t := range []sdp.Type{'a', 'b', 'A', '\u0141'} {
		for _, v := range [][]byte{nil, []byte("x"), []byte("xy"), []byte("X"), []byte(" x"), {0}, {0xff}, []byte("x\na=x"), []byte("=x")} {
			lines = append(lines, sdp.Line{Type: t, Value: v})
		}
	}
	c.Group("equal-session")
	var sessions []sdp.Session
	var idx [][]int
	small := []int{0, 1, 2, 7, 9, 10, 19}
	core.Tuples(len(small), 0, 3, func(t []int) {
		var s sdp.Session
		var k []int
		for _, i := range t {
			l := lines[small[i]]
			s = append(s, sdp.Line{Type: l.Type, Value: append([]byte(nil), l.Value...)})
			k = append(k, i)
		}
		sessions, idx = append(sessions, s), append(idx, k)
	})
	c.Bound("session_values", len(sessions))
	for i := range sessions {
		c.Do(func() string { return fmt.Sprintf("session of lines %v against all", idx[i]) }, func() error {
			for j, y := range sessions {
				c.Trans(1)
				if sessions[i].Equal(y) != (i == j) {
					return fmt.Errorf("equal to %v: %v", idx[j], sessions[i].Equal(y))
				}
			}
			c.State("sess", i)
			c.Nontrivial()
			return nil
		})
	}
	c.Do(func() string { return "all pairs of lines" }, func() error {
		for i, x := range lines {
			for j, y := range lines {
				c.Trans(1)
				if x.Equal(y) != (i == j) {
					return fmt.Errorf("%v equal to %v: %v", x, y, x.Equal(y))
				}
			}
		}
		return nil
	})
}

type attrHolder interface {
	Flag(string) bool
	Attribute(string) string
}

func c25Attrs(c *core.Ctx) {
	type op struct {
		name string
		vals []string // nil: flag
	}
	ops := []op{{"x", nil}, {"x", []string{""}}, {"x", []string{"1"}}, {"x", []string{"2", "3"}}, {"y", nil}, {"y", []string{"1"}}, {"", []string{"e"}}, {"X", []string{"4"}}, {"x:y", []string{" 5:6 "}}}
	names := []string{"x", "y", "", "X", "x:y", "z", "x "}
	depth := 5
	if c.Thorough() {
		depth = 6
	}
	c.Bound("additions", depth)
	c.Group("attributes")
	check := func(what string, h attrHolder, at sdp.Attributes, m *attrModel) error {
		for _, n := range names {
			w := m.vals[n]
			first := ""
			if len(w) > 0 {
				first = w[0]
			}
			if g := h.Flag(n); g != (len(w) > 0) {
				return fmt.Errorf("%s: Flag(%q) = %v", what, n, g)
			}
			if g := h.Attribute(n); g != first {
				return fmt.Errorf("%s: Attribute(%q) = %q, want %q", what, n, g, first)
			}
			if g := at.Flag(n); g != (len(w) > 0) {
				return fmt.Errorf("%s: Attributes.Flag(%q) = %v", what, n, g)
			}
			if g := at.Value(n); g != first {
				return fmt.Errorf("%s: Value(%q) = %q, want %q", what, n, g, first)
			}
			if g := at.Values(n); len(g) != len(w) || len(w) > 0 && !reflect.DeepEqual(g, w) {
				return fmt.Errorf("%s: Values(%q) = %q, want %q", what, n, g, w)
			}
		}
		if len(at) != len(m.vals) {
			return fmt.Errorf("%s: %d names, want %d: %v", what, len(at), len(m.vals), at)
		}
		return nil
	}
	var batch [][]int
	flush := func() {
		bt := batch
		batch = nil
		if len(bt) == 0 || c.Stop() {
			return
		}
		c.Do(func() string {
			return fmt.Sprintf("%d sequences of additions from %v to %v", len(bt), bt[0], bt[len(bt)-1])
		}, func() error {
			for _, t := range bt {
				c.State(t)
				var msg, idle sdp.Message
				var med, other sdp.Media
				var s sdp.Session
				mm, md, mo := &attrModel{}, &attrModel{}, &attrModel{}
				for k, i := range t {
					o := ops[i]
					c.Trans(1)
					v := strings.Join(o.vals, " ")
					if o.vals == nil {
						msg.AddFlag(o.name)
						med.AddFlag(o.name)
						s = s.AddFlag(o.name)
					} else {
						msg.AddAttribute(o.name, v)
						med.AddAttribute(o.name, o.vals...)
						s = s.AddAttribute(o.name, o.vals...)
					}
					mm.add(o.name, v)
					md.add(o.name, v)
					if k%2 == 1 { // a sister media has only half of them
						other.AddAttribute(o.name, o.vals...)
						mo.add(o.name, v)
					}
					if err := check("message", msg, msg.Attributes, mm); err != nil {
						return fmt.Errorf("additions %v, after %d: %v", t, k+1, err)
					}
					if err := check("media", &med, med.Attributes, md); err != nil {
						return fmt.Errorf("additions %v, after %d: %v", t, k+1, err)
					}
					if err := check("other media", &other, other.Attributes, mo); err != nil {
						return fmt.Errorf("additions %v, after %d: %v", t, k+1, err)
					}
					if err := check("untouched message", idle, idle.Attributes, &attrModel{}); err != nil {
						return fmt.Errorf("additions %v, after %d: %v", t, k+1, err)
					}
					// the line written last
					want := o.name + ":" + v
					if o.vals == nil {
						want = o.name
					}
					if l := s[len(s)-1]; len(s) != k+1 || l.Type != 'a' || string(l.Value) != want {
						return fmt.Errorf("additions %v, after %d: the line is %v, want %q", t, k+1, l, want)
					}
				}
				seen := map[string]bool{}
				for _, i := range t {
					if seen[ops[i].name] {
						c.Nontrivial()
						break
					}
					seen[ops[i].name] = true
				}
			}
			return nil
		})
	}
	core.Tuples(len(ops), 0, depth, func(t []int) {
		batch = append(batch, append([]int(nil), t...))
		if len(batch) == 512 {
			flush()
		}
	})
	flush()
}

func c25Times(c *core.Ctx) {
	c.Group("start-end")
	vals := []time.Time{{}, time.Unix(0, 0), time.Unix(1, 0), time.Unix(1<<33, 0), time.Date(1900, 1, 1, 0, 0, 1, 0, time.UTC)}
	var tm []sdp.Timing
	for _, a := range vals {
		for _, b := range vals {
			tm = append(tm, sdp.Timing{Start: a, End: b, Repeat: time.Hour, Offsets: []time.Duration{time.Minute}})
		}
	}
	n := 2
	if c.Thorough() {
		n = 3
	}
	c.Bound("timings", n)
	core.Tuples(len(tm), 0, n, func(t []int) {
		t = append([]int(nil), t...)
		c.Do(func() string { return fmt.Sprintf("timings %v", t) }, func() error {
			c.State("times", t)
			var m sdp.Message
			for _, i := range t {
				m.Timing = append(m.Timing, tm[i])
			}
			var a, b time.Time
			if len(t) > 0 {
				a, b = tm[t[0]].Start, tm[t[0]].End
			}
			if len(t) > 1 {
				c.Nontrivial()
			}
			if !m.Start().Equal(a) || !m.End().Equal(b) || m.Start().IsZero() != a.IsZero() || m.End().IsZero() != b.IsZero() {
				return fmt.Errorf("start %v, end %v, want %v, %v", m.Start(), m.End(), a, b)
			}
			return nil
		})
	})
}

func c25Text(c *core.Ctx) {
	c.Group("text")
	// the text of connection data is the line written for it
	ips := []struct {
		ip   net.IP
		text string
		v6   bool
	}{{net.IPv4(0, 0, 0, 0), "0.0.0.0", false}, {net.IPv4(10, 20, 30, 40).To4(), "10.20.30.40", false}, {net.IPv4(224, 2, 1, 1), "224.2.1.1", false}, {net.IPv4(255, 255, 255, 255), "255.255.255.255", false},
		{net.ParseIP("ff15::101"), "FF15::101", true}, {net.ParseIP("::1"), "::1", true}, {net.ParseIP("2001:db8:abcd:ef01:2345:6789:abcd:ef01"), "2001:DB8:ABCD:EF01:2345:6789:ABCD:EF01", true}}
	num := func(b byte) string {
		if b == 0 {
			return ""
		}
		return fmt.Sprintf("/%d", b)
	}
	for _, ip := range ips {
		for ttl := 0; ttl < 256; ttl++ {
			c.Do(func() string { return fmt.Sprintf("connection %s ttl %d, all numbers of addresses", ip.text, ttl) }, func() error {
				for n := 0; n < 256; n++ {
					c.Trans(1)
					at := "IP4"
					if ip.v6 {
						at = "IP6"
					}
					d := sdp.ConnectionData{NetworkType: "IN", AddressType: at, IP: append(net.IP(nil), ip.ip...), TTL: byte(ttl), Addresses: byte(n)}
					want := ip.text + num(byte(ttl)) + num(byte(n))
					if g := d.ConnectionAddress(); g != want {
						return fmt.Errorf("address %q, want %q", g, want)
					}
					if g := d.String(); g != "IN "+at+" "+want {
						return fmt.Errorf("text %q", g)
					}
					full := sdp.Session{}.AddConnectionData(d)
					d.NetworkType, d.AddressType = "", ""
					brief := sdp.Session{}.AddConnectionData(d)
					for _, s := range []sdp.Session{full, brief} {
						if len(s) != 1 || s[0].Type != 'c' || string(s[0].Value) != "IN "+at+" "+want {
							return fmt.Errorf("lines %v, want %q", s, want)
						}
					}
					if ttl == 0 && n == 0 {
						if s := (sdp.Session{}).AddConnectionDataIP(d.IP); !s.Equal(full) {
							return fmt.Errorf("lines %v for the address alone", s)
						}
					}
				}
				c.State("text", ip.text, ttl)
				c.Nontrivial()
				return nil
			})
		}
	}
	// line texts: known types by name, others as they are; values as they are
	namesOf := map[sdp.Type]string{'v': "version", 'o': "origin", 's': "session name", 'i': "session info", 'u': "uri", 'e': "email", 'p': "phone", 'c': "connection data", 'b': "bandwidth", 't': "timing", 'r': "repeat times", 'z': "time zones", 'k': "encryption keys", 'a': "attribute", 'm': "media description"}
	c.Do(func() string { return "the names of all line types" }, func() error {
		for t := sdp.Type(0); t < 0x3000; t++ {
			want := namesOf[t]
			if want == "" {
				want = string(rune(t))
			}
			if g := t.String(); g != want {
				return fmt.Errorf("type %q is called %q, want %q", rune(t), g, want)
			}
			for _, v := range []string{"", "x", "a=b: c"} {
				l := sdp.Line{Type: t, Value: []byte(v)}
				if g := l.String(); g != want+": "+v {
					return fmt.Errorf("line %q %q: %q", rune(t), v, g)
				}
				if g := l.AppendTo([]byte("<")); !bytes.Equal(g, []byte("<"+string(rune(t))+"="+v)) {
					return fmt.Errorf("line %q %q written as %q", rune(t), v, g)
				}
			}
			c.State("type", t)
		}
		return nil
	})
	c.Do(func() string { return "error texts" }, func() error {
		for _, p := range []string{"", "line", "section s"} {
			for _, r := range []string{"", "because", "of %s"} {
				if g := (sdp.DecodeError{Place: p, Reason: r}).Error(); g != "DecodeError in "+p+": "+r {
					return fmt.Errorf("%q", g)
				}
			}
		}
		return nil
	})
}
