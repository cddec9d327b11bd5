package seq

import (
	"fmt"
	"strconv"
	"time"

	"github.com/NodeBoy2/rtspclient/sdp"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C20",
		Rule: "every second in a range around zero, around every power of two and ten and around every unit multiple, as an NTP value, as a time and as an interval, in every spelling (compact, plain, each unit); " +
			"non-trivial: the value is not zero",
		Assumptions: []string{"whole seconds; NTP 0 and the zero time stand for no time"},
		Run:         c20,
	})
}

// interval decodes one interval through the public decoder.
func interval(text string) (sd, error) {
	m, err := decodeText([]byte("v=0\no=- 1 1 IN IP4 1.1.1.1\ns=x\nt=0 0\nr=" + text + " 1 1\n"))
	if err != nil {
		return 0, err
	}
	return m.Timing[0].Repeat, nil
}

func c20(c *core.Ctx) {
	block := int64(1000)
	// blocks of consecutive values around the interesting points
	var starts []int64
	rng := int64(1000)
	if c.Thorough() {
		rng = 20000
	}
	for b := -rng; b < rng; b++ {
		starts = append(starts, b*block)
	}
	var points []int64
	for p := uint(20); p < 63; p++ {
		points = append(points, 1<<p, -(1 << p))
	}
	for p := int64(1000000); p < 1e18 && p > 0; p *= 10 {
		points = append(points, p, -p)
	}
	points = append(points, 2208988800, -2208988800, 1<<32-2208988800, 1<<63-1-2000, -1<<63+2000, -62135596800, 62135596800, 253402300799)
	for _, p := range points {
		starts = append(starts, p-block/2)
	}
	c.Bound("consecutive_values_around_zero", 2*rng*block)
	c.Bound("blocks", len(starts))
	c.Bound("block_length", block)

	each := func(name string, f func(v int64) error) {
		c.Group(name)
		for i, s := range starts {
			if i&15 == 0 && c.Stop() {
				return
			}
			s := s
			c.Do(func() string { return fmt.Sprintf("%s of %d..%d", name, s, s+block-1) }, func() error {
				c.Nontrivial()
				c.Trans(int(block))
				for v := s; v < s+block; v++ {
					if err := f(v); err != nil {
						return fmt.Errorf("%s of %d: %v", name, v, err)
					}
				}
				return nil
			})
		}
	}
	each("time to NTP and back", func(v int64) error {
		t := time.Unix(v, 0)
		n := sdp.TimeToNTP(t)
		if t.IsZero() {
			if n != 0 {
				return fmt.Errorf("no time is NTP %d", n)
			}
			return nil
		}
		if v == -2208988800 {
			return nil // NTP 0
		}
		if want := uint64(v) + 2208988800; n != want {
			return fmt.Errorf("NTP %d, want %d", n, want)
		}
		if g := sdp.NTPToTime(n); !g.Equal(t) || g.Unix() != v {
			return fmt.Errorf("back %v, was %v", g, t)
		}
		// in other zones
		if n2 := sdp.TimeToNTP(t.In(time.FixedZone("x", 3600*5+1800))); n2 != n {
			return fmt.Errorf("NTP %d in another zone", n2)
		}
		if n2 := sdp.TimeToNTP(t.UTC()); n2 != n {
			return fmt.Errorf("NTP %d in UTC", n2)
		}
		return nil
	})
	each("NTP to time and back", func(v int64) error {
		for _, n := range []uint64{uint64(v), uint64(v) ^ 1<<63, uint64(v) + 2208988800} {
			t := sdp.NTPToTime(n)
			if n == 0 {
				if !t.IsZero() {
					return fmt.Errorf("NTP 0 is %v", t)
				}
				continue
			}
			if t.IsZero() {
				continue // the one value whose time is the zero time
			}
			if t.Unix() != int64(n-2208988800) || t.Nanosecond() != 0 {
				return fmt.Errorf("NTP %d is second %d", n, t.Unix())
			}
			if g := sdp.TimeToNTP(t); g != n {
				return fmt.Errorf("NTP %d comes back as %d", n, g)
			}
		}
		return nil
	})
	fits := func(v int64) bool { return v <= 9223372036 && v >= -9223372036 }
	var ivBuf sdp.Session
	encode := func(d sd, compact bool) string {
		if compact {
			ivBuf = ivBuf[:0].AddRepeatTimesCompact(d, time.Second, time.Second)
		} else {
			ivBuf = ivBuf[:0].AddRepeatTimes(d, time.Second, time.Second)
		}
		v := ivBuf[0].Value
		for i, x := range v {
			if x == ' ' {
				return string(v[:i])
			}
		}
		return string(v)
	}
	each("interval", func(v int64) error {
		if !fits(v) {
			// must not be taken for another interval
			if d, err := interval(strconv.FormatInt(v, 10)); err == nil {
				return fmt.Errorf("an interval which does not fit is %v", d)
			}
			return nil
		}
		d := sd(v) * time.Second
		texts := []string{strconv.FormatInt(v, 10), strconv.FormatInt(v, 10) + "s", encode(d, true), encode(d, false)}
		if v%60 == 0 {
			texts = append(texts, strconv.FormatInt(v/60, 10)+"m")
		}
		if v%3600 == 0 {
			texts = append(texts, strconv.FormatInt(v/3600, 10)+"h")
		}
		if v%86400 == 0 {
			texts = append(texts, strconv.FormatInt(v/86400, 10)+"d")
		}
		for _, t := range texts {
			g, err := interval(t)
			if err != nil {
				return fmt.Errorf("%q: %v", t, err)
			}
			if g != d {
				return fmt.Errorf("%q is %v, want %v", t, g, d)
			}
		}
		return nil
	})
	// multiples of every unit
	units := []struct {
		r rune
		s int64
	}{{'d', 86400}, {'h', 3600}, {'m', 60}, {'s', 1}}
	c.Group("unit multiples")
	for _, u := range units {
		for b := int64(-110); b < 110; b++ {
			if c.Stop() {
				return
			}
			u, b := u, b
			c.Do(func() string { return fmt.Sprintf("%d..%d%c", b*block, b*block+block-1, u.r) }, func() error {
				for k := b * block; k < b*block+block; k++ {
					t := strconv.FormatInt(k, 10) + string(u.r)
					g, err := interval(t)
					if !fits(k * u.s) {
						if err == nil {
							return fmt.Errorf("%s does not fit and is %v", t, g)
						}
						continue
					}
					if err != nil || g != sd(k*u.s)*time.Second {
						return fmt.Errorf("%s is %v (%v), want %d s", t, g, err, k*u.s)
					}
					for _, compact := range []bool{true, false} {
						e := encode(g, compact)
						if g2, err := interval(e); err != nil || g2 != g {
							return fmt.Errorf("%v is encoded as %q, which is %v (%v)", g, e, g2, err)
						}
					}
				}
				return nil
			})
		}
	}
	// no other unit
	c.Group("other units")
	for b := 1; b < 256; b++ {
		b := b
		if b >= '0' && b <= '9' || b == 'd' || b == 'h' || b == 'm' || b == 's' || b == ' ' || b == '\n' || b == '\r' {
			continue
		}
		c.Do(func() string { return fmt.Sprintf("unit %q", rune(b)) }, func() error {
			for _, t := range []string{"5" + string([]byte{byte(b)}), "5" + string([]byte{byte(b), byte(b)}), "5d" + string([]byte{byte(b)}), "5" + string([]byte{byte(b)}) + "s"} {
				if d, err := interval(t); err == nil {
					return fmt.Errorf("%q is %v", t, d)
				}
			}
			return nil
		})
	}
	// offsets and durations of the other places an interval is in
	c.Group("places")
	for i, s := range starts {
		if i%8 != 0 && (s > 2000000 || s < -2000000) == false {
			continue
		}
		s := s
		if !fits(s) || !fits(s+block) {
			continue
		}
		c.Do(func() string { return fmt.Sprintf("offsets and zones of %d..%d s", s, s+block-1) }, func() error {
			for v := s; v < s+block; v += 7 {
				d := sd(v) * time.Second
				m := baseMsg()
				m.Timing = []sdp.Timing{{Start: time.Unix(v, 0), Repeat: d, Active: d, Offsets: []sd{d, 0, d}}}
				m.TZAdjustments = []sdp.TimeZone{{Start: time.Unix(v+1, 0), Offset: d}, {Offset: -d}}
				if v == -2208988800 || v+1 == -2208988800 || v == -62135596800 || v+1 == -62135596800 {
					continue
				}
				g, text, err := roundTrip(m, "\n", false)
				if err != nil {
					return err
				}
				if err := sameMessage(g, m); err != nil {
					return fmt.Errorf("%v in %q", err, text)
				}
			}
			return nil
		})
	}
}
