package seq

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C21",
		Rule: "every payload number with and without a mapping, every combination of the media attributes listed, every spelling of format parameters up to the bound, and every sequence of media up to the bound, each played through a handshake; " +
			"non-trivial: a field comes from an attribute",
		Assumptions: []string{"a mapping of a static payload number agrees with the static table", "channel count absent from the mapping: not judged beyond being at most 1", "the format number may be listed among the format parameters"},
		Run:         c21,
	})
}

type mediaWant struct {
	rtspclient.MediaSubsession
	anyChannels, anyFreq bool
}

var staticPT = map[int]struct {
	codec    string
	freq, ch int
}{
	0: {"PCMU", 8000, 1}, 3: {"GSM", 8000, 1}, 4: {"G723", 8000, 1}, 5: {"DVI4", 8000, 1}, 6: {"DVI4", 16000, 1}, 7: {"LPC", 8000, 1}, 8: {"PCMA", 8000, 1}, 9: {"G722", 8000, 1},
	10: {"L16", 44100, 2}, 11: {"L16", 44100, 1}, 12: {"QCELP", 8000, 1}, 13: {"CN", 8000, 1}, 14: {"MPA", 90000, 0}, 15: {"G728", 8000, 1}, 16: {"DVI4", 11025, 1}, 17: {"DVI4", 22050, 1}, 18: {"G729", 8000, 1},
	25: {"CelB", 90000, 0}, 26: {"JPEG", 90000, 0}, 28: {"nv", 90000, 0}, 31: {"H261", 90000, 0}, 32: {"MPV", 90000, 0}, 33: {"MP2T", 90000, 0}, 34: {"H263", 90000, 0},
}

type mediaSpec struct {
	kind    string
	formats []int
	maps    []string // rtpmap values
	attrs   []string // further attribute lines
	control string
	want    func(m *mediaWant)
}

func (s mediaSpec) expect() mediaWant {
	var w mediaWant
	w.MediumName, w.PayloadFormat, w.TrackURL = s.kind, s.formats[0], s.control
	if st, ok := staticPT[s.formats[0]]; ok {
		w.CodecName, w.RtpTimestampFrequency, w.Channels = st.codec, st.freq, st.ch
		w.anyChannels = st.ch == 0
	} else {
		w.anyChannels, w.anyFreq = true, true
	}
	if s.want != nil {
		s.want(&w)
	}
	return w
}

func (s mediaSpec) text(port int) string {
	var f []string
	for _, x := range s.formats {
		f = append(f, fmt.Sprint(x))
	}
	t := fmt.Sprintf("m=%s %d RTP/AVP %s\r\n", s.kind, port, strings.Join(f, " "))
	for _, x := range s.maps {
		t += "a=rtpmap:" + x + "\r\n"
	}
	for _, x := range s.attrs {
		t += x + "\r\n"
	}
	return t + "a=control:" + s.control + "\r\n"
}

func (w mediaWant) check(g rtspclient.MediaSubsession) error {
	m := w.MediaSubsession
	if w.anyChannels && g.Channels <= 1 {
		m.Channels = g.Channels
	}
	if w.anyFreq && g.RtpTimestampFrequency <= 0 {
		m.RtpTimestampFrequency = g.RtpTimestampFrequency
	}
	gf := map[string]string{}
	for k, v := range g.Fmtp {
		gf[k] = v
	}
	pt := fmt.Sprint(m.PayloadFormat)
	if _, ok := m.Fmtp[pt]; !ok && gf[pt] == "" && len(m.Fmtp) > 0 {
		delete(gf, pt)
	}
	wf := m.Fmtp
	if wf == nil {
		wf = map[string]string{}
	}
	if !reflect.DeepEqual(gf, wf) {
		return fmt.Errorf("format parameters %q, want %q", g.Fmtp, m.Fmtp)
	}
	g.Fmtp, m.Fmtp = nil, nil
	if !reflect.DeepEqual(g, m) {
		return fmt.Errorf("%+v, want %+v", g, m)
	}
	return nil
}

// playDesc plays the media and checks the map.
func playDesc(c *core.Ctx, sessionLines string, specs []mediaSpec) error {
	return core.Bubble(c.T, func() error {
		p := core.NewPeer()
		body := "v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=test\r\nt=0 0\r\n" + sessionLines
		for i, s := range specs {
			body += s.text(i)
		}
		good := core.GoodServer(nil, "5")
		p.Answer = func(p *core.Peer, r core.Request) {
			if r.Method == "DESCRIBE" {
				p.Conn.Feed([]byte(core.Resp(200, r.CSeq(), nil, body)))
			} else {
				good(p, r)
			}
		}
		if err := p.Start("rtsp://host/stream"); err != nil {
			return err
		}
		if !p.Wait(30*time.Second) || p.Err != nil {
			p.Hangup()
			return fmt.Errorf("handshake: %v", p.Err)
		}
		m := p.S.RtpMediaMap
		defer p.Hangup()
		if len(m) != len(specs) {
			return fmt.Errorf("%d entries for %d media", len(m), len(specs))
		}
		for i, s := range specs {
			g, ok := m[2*i]
			if !ok {
				return fmt.Errorf("no entry under channel %d", 2*i)
			}
			if err := s.expect().check(g); err != nil {
				return fmt.Errorf("media %d: %v in %q", i, err, body)
			}
		}
		return nil
	})
}

func c21(c *core.Ctx) {
	one := func(name string, s mediaSpec) {
		c.Do(func() string { return name + " " + s.text(0) }, func() error {
			c.Trans(4)
			c.State(s.text(0))
			if len(s.maps)+len(s.attrs) > 0 {
				c.Nontrivial()
			}
			return playDesc(c, "", []mediaSpec{s})
		})
	}
	c.Group("payload-numbers")
	for pt := 0; pt < 128; pt++ {
		if c.Stop() {
			return
		}
		one("plain", mediaSpec{kind: "audio", formats: []int{pt}, control: "t"})
		one("several formats", mediaSpec{kind: "audio", formats: []int{pt, (pt + 1) % 128, 0}, control: "t"})
		st, static := staticPT[pt]
		if static {
			mp := fmt.Sprintf("%d %s/%d", pt, st.codec, st.freq)
			one("static with mapping", mediaSpec{kind: "audio", formats: []int{pt}, maps: []string{mp}, control: "t"})
			one("static with foreign mapping", mediaSpec{kind: "audio", formats: []int{pt, 96}, maps: []string{"96 H264/90000", mp}, control: "t"})
			continue
		}
		for _, codec := range []string{"H264", "mpeg4-generic", "X-y.z_1", "opus"} {
			for _, freq := range []int{1, 8000, 90000, 48000, 1 << 30} {
				for ch := 0; ch <= 8; ch++ {
					codec, freq, ch := codec, freq, ch
					mp := fmt.Sprintf("%d %s/%d", pt, codec, freq)
					if ch > 0 {
						mp += fmt.Sprintf("/%d", ch)
					}
					w := func(m *mediaWant) {
						m.CodecName, m.RtpTimestampFrequency, m.Channels = codec, freq, ch
						m.anyChannels, m.anyFreq = ch == 0, false
					}
					if !c.Thorough() && (pt+freq+ch)%5 != 0 {
						continue
					}
					one("mapped", mediaSpec{kind: "video", formats: []int{pt}, maps: []string{mp}, control: "t", want: w})
					// other mappings around it, some with the number as a prefix
					a, b := fmt.Sprintf("%d Y/1/7", pt*10), fmt.Sprintf("%d Z/2/8", (pt+1)%128)
					for _, maps := range [][]string{{mp, a, b}, {a, mp, b}, {b, a, mp}} {
						one("several mappings", mediaSpec{kind: "video", formats: []int{pt, pt * 10, (pt + 1) % 128}, maps: maps, control: "t", want: w})
					}
				}
			}
		}
		one("mapping without clock", mediaSpec{kind: "video", formats: []int{pt}, maps: []string{fmt.Sprintf("%d X-RN", pt)}, control: "t", want: func(m *mediaWant) { m.CodecName = "X-RN" }})
	}
	// every payload number with every subset of attributes, and a mapping of
	// another format
	c.Group("payload-numbers-and-attributes")
	type at struct {
		line string
		set  func(m *mediaWant)
	}
	fps := func(m *mediaWant) { m.VideoFramerate = 25 }
	ats := []at{
		{"a=framerate:25", fps},
		{"a=x-dimensions:640,480", func(m *mediaWant) { m.VideoWidth, m.VideoHeight = 640, 480 }},
		{"a=fmtp:%d p=q;r", func(m *mediaWant) { m.Fmtp = map[string]string{"p": "q", "r": ""} }},
		{"a=recvonly", func(m *mediaWant) {}},
		{"a=x-bufferdelay:0.5", func(m *mediaWant) {}},
		{"a=range:npt=0-", func(m *mediaWant) {}},
	}
	for pt := 0; pt < 128; pt++ {
		for set := 0; set < 1<<len(ats); set++ {
			if c.Stop() {
				return
			}
			_, static := staticPT[pt]
			s := mediaSpec{kind: "video", formats: []int{pt, (pt + 1) % 128}, control: "t"}
			var sets []func(m *mediaWant)
			for i, a := range ats {
				if set>>i&1 == 1 {
					l := a.line
					if strings.Contains(l, "%d") {
						l = fmt.Sprintf(l, pt)
					}
					s.attrs = append(s.attrs, l)
					sets = append(sets, a.set)
				}
			}
			if !static {
				s.maps = []string{fmt.Sprintf("%d Own/5/6", pt)}
				sets = append(sets, func(m *mediaWant) {
					m.CodecName, m.RtpTimestampFrequency, m.Channels, m.anyFreq, m.anyChannels = "Own", 5, 6, false, false
				})
			}
			s.maps = append(s.maps, fmt.Sprintf("%d Foreign/7/8", (pt+1)%128))
			s.want = func(m *mediaWant) {
				for _, f := range sets {
					f(m)
				}
			}
			one("attributes", s)
			s.maps = []string{s.maps[len(s.maps)-1], s.maps[0]}
			if !static {
				one("attributes, other mapping first", s)
			}
		}
	}
	c.Group("numbers")
	h264 := []string{"96 H264/90000"}
	h264w := func(f func(m *mediaWant)) func(m *mediaWant) {
		return func(m *mediaWant) {
			m.CodecName, m.RtpTimestampFrequency, m.anyFreq = "H264", 90000, false
			f(m)
		}
	}
	maxFps, maxDim := 130, 300
	if c.Thorough() {
		maxFps, maxDim = 1100, 2000
	}
	for fps := 0; fps <= maxFps; fps++ {
		fps := fps
		for _, f := range []string{"a=framerate:%d", "a=x-framerate:%d", "a=framerate:%d.000", "a=framerate: %d", "a=x-framerate: %d", "a=framerate:%d.97"} {
			if c.Stop() {
				return
			}
			if fps == 0 && strings.Contains(f, ".97") {
				continue
			}
			one("frame rate", mediaSpec{kind: "video", formats: []int{96}, maps: h264, attrs: []string{fmt.Sprintf(f, fps)}, control: "t", want: h264w(func(m *mediaWant) { m.VideoFramerate = fps })})
		}
	}
	for d := 0; d <= maxDim; d++ {
		w, h := d*13%4097, d*7%2161
		if c.Stop() {
			return
		}
		for _, f := range []string{"a=x-dimensions:%d,%d", "a=x-dimensions: %d,%d", "a=x-dimensions:%d, %d"} {
			one("dimensions", mediaSpec{kind: "video", formats: []int{96}, maps: h264, attrs: []string{fmt.Sprintf(f, w, h)}, control: "t", want: h264w(func(m *mediaWant) { m.VideoWidth, m.VideoHeight = w, h })})
		}
	}
	for _, w := range []int{1, 255, 256, 999, 1000, 4096, 9999, 10000, 16384, 65535, 65536, 99999, 100000} {
		for _, h := range []int{1, 255, 256, 999, 1000, 2160, 9999, 10000, 12345, 65536} {
			w, h := w, h
			one("dimensions", mediaSpec{kind: "video", formats: []int{96}, maps: h264, attrs: []string{fmt.Sprintf("a=x-dimensions:%d,%d", w, h)}, control: "t", want: h264w(func(m *mediaWant) { m.VideoWidth, m.VideoHeight = w, h })})
		}
	}
	for _, fps := range []int{255, 256, 999, 1000, 65536} {
		fps := fps
		one("frame rate", mediaSpec{kind: "video", formats: []int{96}, maps: h264, attrs: []string{fmt.Sprintf("a=framerate:%d", fps)}, control: "t", want: h264w(func(m *mediaWant) { m.VideoFramerate = fps })})
	}
	// parameters of several formats, in every order: those of the default format
	c.Group("formats")
	maxLines := 4
	for _, pt := range []int{0, 9, 96, 97, 111} {
		lines := []int{pt, pt * 10, pt/10 + 1, pt + 1, 127}
		if pt == 0 {
			lines[1] = 100
		}
		core.Tuples(len(lines), 1, maxLines, func(t []int) {
			if c.Stop() {
				return
			}
			seen := map[int]bool{}
			has := false
			for _, i := range t {
				if seen[i] {
					return
				}
				seen[i] = true
				has = has || i == 0
			}
			if !has {
				return
			}
			s := mediaSpec{kind: "video", control: "t", formats: []int{pt}}
			for _, i := range t {
				s.attrs = append(s.attrs, fmt.Sprintf("a=fmtp:%d p=%d;q%d", lines[i], i, i))
				if i > 0 {
					s.formats = append(s.formats, lines[i])
				}
			}
			s.want = func(m *mediaWant) {
				m.Fmtp = map[string]string{"p": "0", "q0": ""}
			}
			if _, static := staticPT[pt]; !static {
				s.maps = []string{fmt.Sprintf("%d Own/5/6", pt)}
				s.want = func(m *mediaWant) {
					m.CodecName, m.RtpTimestampFrequency, m.Channels, m.anyFreq, m.anyChannels = "Own", 5, 6, false, false
					m.Fmtp = map[string]string{"p": "0", "q0": ""}
				}
			}
			one("several formats", s)
		})
	}
	// format parameters in every spelling
	c.Group("format-parameters")
	params := [][2]string{{"a", "1"}, {"config", "119056E500=="}, {"sprop-parameter-sets", "Z0IAH5Y=,aM4G4g=="}, {"flag", ""}, {"e", "x=y=z"}, {"profile-level-id", "42e01f"}}
	seps := []string{";", "; ", " ;", " ; ", ";  ", " "}
	maxPar := 3
	if c.Thorough() {
		maxPar = 4
	}
	c.Bound("format_parameters", maxPar)
	core.Tuples(len(params), 1, maxPar, func(t []int) {
		seen := map[int]bool{}
		for _, i := range t {
			if seen[i] {
				return
			}
			seen[i] = true
		}
		if c.Stop() {
			return
		}
		t = append([]int(nil), t...)
		sz := make([]int, len(t)) // separators between, and one at the end
		for i := range sz {
			sz[i] = len(seps)
		}
		sz[len(sz)-1] = 4
		core.Product(sz, func(ix []int) {
			s := "a=fmtp:96 "
			want := map[string]string{}
			for k, i := range t {
				s += params[i][0]
				if params[i][1] != "" {
					s += "=" + params[i][1]
				}
				want[params[i][0]] = params[i][1]
				if k < len(t)-1 {
					s += seps[ix[k]]
				} else {
					s += []string{"", ";", "; ", " ;"}[ix[k]]
				}
			}
			one("format parameters", mediaSpec{kind: "video", formats: []int{96}, maps: h264, attrs: []string{s}, control: "t", want: h264w(func(m *mediaWant) { m.Fmtp = want })})
		})
	})
	// several media, each with its own subset of attributes
	c.Group("several-media")
	kinds := func(tag int) []mediaSpec {
		pt := 97 + tag
		all := func(m *mediaWant) {
			m.CodecName, m.RtpTimestampFrequency, m.Channels, m.anyFreq, m.anyChannels = fmt.Sprintf("C%d", tag), 1000+tag, 2+tag, false, false
		}
		mp := []string{fmt.Sprintf("%d C%d/%d/%d", pt, tag, 1000+tag, 2+tag)}
		return []mediaSpec{
			{kind: "audio", formats: []int{0}, control: fmt.Sprintf("c%d", tag)},
			{kind: "video", formats: []int{pt}, maps: mp, control: fmt.Sprintf("rtsp://other/c%d", tag), want: all},
			{kind: "video", formats: []int{pt}, maps: mp, attrs: []string{fmt.Sprintf("a=framerate:%d", 10+tag), fmt.Sprintf("a=x-dimensions:%d,%d", 20+tag, 30+tag)}, control: "trackID=1?a=b", want: func(m *mediaWant) {
				all(m)
				m.VideoFramerate, m.VideoWidth, m.VideoHeight = 10+tag, 20+tag, 30+tag
			}},
			{kind: "application", formats: []int{pt}, maps: mp, attrs: []string{fmt.Sprintf("a=fmtp:%d p%d=%d;q=r=s", pt, tag, tag), "a=recvonly"}, control: "x", want: func(m *mediaWant) {
				all(m)
				m.Fmtp = map[string]string{fmt.Sprintf("p%d", tag): fmt.Sprint(tag), "q": "r=s"}
			}},
			{kind: "text", formats: []int{pt}, control: ""},
		}
	}
	sessLines := []string{"", "a=control:*\r\na=framerate:77\r\na=x-dimensions:7,7\r\na=fmtp:97 session=1\r\na=rtpmap:97 SESS/7/7\r\n", "a=tool:x\r\na=range:npt=0-\r\n"}
	maxMedia := 3
	if c.Thorough() {
		maxMedia = 5
	}
	c.Bound("media", maxMedia)
	core.Tuples(5, 1, maxMedia, func(t []int) {
		if c.Stop() {
			return
		}
		t = append([]int(nil), t...)
		for si, sl := range sessLines {
			si, sl := si, sl
			c.Do(func() string { return fmt.Sprint("media kinds ", t, " session lines ", si) }, func() error {
				c.Nontrivial()
				c.State(t, si)
				c.Trans(len(t) + 2)
				var specs []mediaSpec
				for tag, k := range t {
					s := kinds(tag)[k]
					if s.control == "" {
						s.control = fmt.Sprintf("e%d", tag)
					}
					specs = append(specs, s)
				}
				return playDesc(c, sl, specs)
			})
		}
	})
	c.Group("many-media")
	for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 30} {
		n := n
		c.Do(func() string { return fmt.Sprintf("%d media", n) }, func() error {
			var specs []mediaSpec
			for tag := 0; tag < n; tag++ {
				specs = append(specs, kinds(tag)[tag%4])
			}
			return playDesc(c, "", specs)
		})
	}
	// control URLs
	c.Group("control")
	for _, u := range []string{"trackID=1", "rtsp://h:1/a?b=c:d", "a:b:c", "/abs", "stream=0;x=y", "RTSP://H/x", "t r", "?x", "*"} {
		one("control", mediaSpec{kind: "video", formats: []int{96}, maps: h264, control: u, want: h264w(func(m *mediaWant) {})})
	}
}
