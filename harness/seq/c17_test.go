package seq

import (
	"fmt"
	"strings"

	"github.com/NodeBoy2/rtspclient/sdp"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C17",
		Rule: "every text over a small alphabet up to the length bound; every sequence of line types up to the bound compared with a reference automaton of the standard's order; every listed malformed and well-formed value of every field in every section it may be in; " +
			"every truncation, byte deletion, insertion and substitution, line deletion, doubling and swap of complete descriptions; non-trivial: a verdict (accept or reject) is demanded",
		Assumptions: []string{"attributes may be anywhere in their section; so may information, connection, bandwidth and key lines (the decoder is lenient there)", "host names are accepted in connection data", "missing mandatory lines are not judged"},
		Run:         c17,
	})
}

// decodeText runs the whole decoder.
func decodeText(b []byte) (*sdp.Message, error) {
	s, err := sdp.DecodeSession(b, nil)
	if err != nil {
		return nil, err
	}
	d := sdp.NewDecoder(s)
	m := &sdp.Message{}
	if err := d.Decode(m); err != nil {
		return nil, err
	}
	return m, nil
}

// order verdicts
const (
	mustAccept = iota
	mustReject
	unjudged
)

// orderOf judges a sequence of line types.
func orderOf(seq string) int {
	for _, t := range seq {
		if !strings.ContainsRune("vosiuepcbtrzkam", t) {
			return mustReject
		}
	}
	if strictOrder(seq) {
		return mustAccept
	}
	if !looseOrder(seq) {
		return mustReject
	}
	return unjudged
}

// strictOrder: RFC 4566 section 9.
func strictOrder(s string) bool {
	i := 0
	one := func(t byte) bool {
		if i < len(s) && s[i] == t {
			i++
			return true
		}
		return false
	}
	many := func(t byte) {
		for one(t) {
		}
	}
	if !one('v') || !one('o') || !one('s') {
		return false
	}
	one('i')
	one('u')
	many('e')
	many('p')
	one('c')
	many('b')
	if !one('t') {
		return false
	}
	many('r')
	for one('t') {
		many('r')
	}
	one('z')
	one('k')
	many('a')
	for one('m') {
		one('i')
		many('c')
		many('b')
		one('k')
		many('a')
	}
	return i == len(s)
}

// looseOrder: the most that may be accepted. Attributes are free; before the
// first media so are the lines which a media has too (title or information,
// connection, bandwidth, key), the others are in order. A media has no other lines.
func looseOrder(s string) bool {
	s = strings.ReplaceAll(s, "a", "")
	m := strings.IndexByte(s, 'm')
	if m < 0 {
		m = len(s)
	}
	head := strings.NewReplacer("i", "", "c", "", "b", "", "k", "").Replace(s[:m])
	i := 0
	is := func(set string) bool {
		if i < len(head) && strings.IndexByte(set, head[i]) >= 0 {
			i++
			return true
		}
		return false
	}
	is("v")
	is("o")
	is("s")
	is("u")
	for is("e") {
	}
	for is("p") {
	}
	z := is("z") // time zones before the timings
	if is("t") {
		for is("tr") {
		}
	}
	if !z && is("z") && is("t") { // or between them
		for is("tr") {
		}
	}
	if i < len(head) {
		return false
	}
	return strings.Trim(s[m:], "micbk") == ""
}

var goodLine = map[byte]string{
	'v': "v=0", 'o': "o=- 1 2 IN IP4 10.0.0.1", 's': "s=x", 'i': "i=y", 'u': "u=http://a", 'e': "e=a@b", 'p': "p=+1", 'c': "c=IN IP4 10.0.0.1",
	'b': "b=AS:1", 't': "t=1 2", 'r': "r=1 2 3", 'z': "z=1 2", 'k': "k=clear:x", 'a': "a=b:c", 'm': "m=audio 1 RTP/AVP 0",
}

func typesText(seq string) string {
	var b strings.Builder
	for i := 0; i < len(seq); i++ {
		b.WriteString(goodLine[seq[i]])
		b.WriteByte('\n')
	}
	return b.String()
}

func c17(c *core.Ctx) {
	verdict := func(name, text string, want int) {
		c.Do(func() string { return fmt.Sprintf("%s: %.300q", name, text) }, func() error {
			b := []byte(text)
			_, err := decodeText(b)
			if want != unjudged {
				c.Nontrivial()
			}
			if err == nil && want == mustReject {
				return fmt.Errorf("accepted")
			}
			if err != nil && want == mustAccept {
				return fmt.Errorf("rejected: %v", err)
			}
			if string(b) != text {
				return fmt.Errorf("the text was changed")
			}
			return nil
		})
	}
	// every text over a small alphabet
	alpha := []string{"v", "=", "0", " ", "\n", "\r", ":", "a", "m", "\xff", "/", "t"}
	maxText := 5
	if c.Thorough() {
		maxText = 7
	}
	c.Bound("text_length", maxText)
	c.Group("texts")
	core.Tuples(len(alpha), 0, maxText, func(t []int) {
		if c.Stop() {
			return
		}
		t = append([]int(nil), t...)
		mk := func() string {
			s := ""
			for _, i := range t {
				s += alpha[i]
			}
			return s
		}
		c.Do(func() string { return fmt.Sprintf("text %q", mk()) }, func() error {
			decodeText([]byte(mk()))
			return nil
		})
	})
	// every text behind each line type, in a context where it is expected
	pre := map[byte]string{'v': "", 'o': "v", 's': "vo", 'i': "vos", 'u': "vos", 'e': "vos", 'p': "vos", 'c': "vos", 'b': "vos", 't': "vos", 'r': "vost", 'z': "vost", 'k': "vost", 'a': "vost", 'm': "vost"}
	valpha := []string{"1", " ", ":", "/", "d", "-", "9999999999999999999", "IN", ".", "AS", "\xff"}
	maxVal := 5
	if c.Thorough() {
		maxVal = 6
	}
	c.Bound("value_tokens", maxVal)
	c.Group("values")
	for _, ty := range []byte("vosiuepcbtrzkam") {
		ty := ty
		core.Tuples(len(valpha), 0, maxVal, func(t []int) {
			if c.Stop() || strings.IndexByte("siuep", ty) >= 0 && len(t) > 3 {
				return
			}
			t = append([]int(nil), t...)
			mk := func() string {
				s := typesText(pre[ty]) + string([]byte{ty}) + "="
				for _, i := range t {
					s += valpha[i]
				}
				return s + "\nm=audio 1 RTP/AVP 0\n"
			}
			c.Do(func() string { return fmt.Sprintf("text %q", mk()) }, func() error {
				decodeText([]byte(mk()))
				return nil
			})
		})
	}
	// line types
	all := "vosiuepcbtrzkam"
	maxTypes, maxTail := 5, 5
	if c.Thorough() {
		maxTypes, maxTail = 6, 6
	}
	c.Bound("type_sequence", maxTypes)
	c.Bound("type_sequence_behind_vos", maxTail)
	types := func(prefix string, n int) {
		core.Tuples(len(all), 0, n, func(t []int) {
			if c.Stop() {
				return
			}
			seq := []byte(prefix)
			for _, i := range t {
				seq = append(seq, all[i])
			}
			s := string(seq)
			c.Do(func() string { return "line types " + s }, func() error {
				want := orderOf(s)
				_, err := decodeText([]byte(typesText(s)))
				if want != unjudged {
					c.Nontrivial()
				}
				if err == nil && want == mustReject {
					return fmt.Errorf("accepted")
				}
				if err != nil && want == mustAccept {
					return fmt.Errorf("rejected: %v", err)
				}
				return nil
			})
		})
	}
	c.Group("types")
	types("", maxTypes)
	c.Group("types-behind-vos")
	types("vos", maxTail)
	c.Group("types-behind-vost")
	types("vost", maxTail)
	c.Group("types-in-media")
	types("vostm", maxTail)
	c.Group("types-in-second-media")
	types("vostamicbkam", maxTail-2)
	// standard order in every length: all subsets of optional lines, repeated up to twice
	c.Group("standard-order")
	opt := "iuepcbtrtzkammicbka"
	for mask := 0; mask < 1<<uint(len(opt)); mask++ {
		if mask&1023 == 0 && c.Stop() {
			return
		}
		seq := []byte("vos")
		for i := range opt {
			if mask>>uint(i)&1 != 0 {
				seq = append(seq, opt[i])
			}
		}
		s := string(seq)
		if strictOrder(s) {
			verdict("standard order "+s, typesText(s), mustAccept)
		}
	}
	// unknown types
	c.Group("unknown-types")
	for r := rune(0); r < 0x300; r++ {
		if strings.ContainsRune("vosiuepcbtrzkam\n\r", r) {
			continue
		}
		for _, at := range []string{"", "vos", "vost", "vostm", "vosta", "vostma"} {
			for _, val := range []string{"x", "0", "- 1 1 IN IP4 1.1.1.1", "a:b"} {
				if strings.TrimSpace(string(r)) == "" {
					continue // the blank is dropped and the line has no type
				}
				verdict("unknown type "+string(r), typesText(at)+string(r)+"="+val+"\n", mustReject)
			}
		}
	}
	// malformed and well-formed values
	c.Group("field-values")
	in := func(ty byte) []string {
		p := []string{typesText(pre[ty])}
		if strings.IndexByte("icbka", ty) >= 0 {
			p = append(p, typesText("vostm"), typesText("vostmambka"[:6]))
		}
		return p
	}
	fv := func(ty byte, want int, vals ...string) {
		for _, p := range in(ty) {
			for _, v := range vals {
				for _, rest := range []string{"", "m=video 2 RTP/AVP 96\na=q:r\n"} {
					verdict("value", p+string([]byte{ty})+"="+v+"\n"+rest, want)
				}
			}
		}
	}
	big := "99999999999999999999"
	fv('v', mustReject, "x", "0x", "0 1", big, "1.0", "--1")
	fv('v', mustAccept, "0", "1")
	fv('o', mustReject, "x", "- 1 2 IN IP4", "- 1 2 IN IP4 a b", "- x 2 IN IP4 a", "- 1 y IN IP4 a", "- "+big+" 2 IN IP4 a", "- 1 "+big+" IN IP4 a", "-  1 2 IN IP4 a", "- 1  2 IN IP4 a", "- 1 2 IN  a")
	fv('o', mustAccept, "- 0 0 IN IP4 0.0.0.0", "joe 2890844526 2890842807 IN IP6 FF1E::1", "u 1 1 IN IP4 host.example.com")
	fv('c', mustReject, "x", "IN", "IN IP4", "IN IP4 1.1.1.1 x", "IN IP4 224.1.1.1/256", "IN IP4 224.1.1.1/x", "IN IP4 224.1.1.1/1/256", "IN IP4 224.1.1.1/1/x", "IN IP4 224.1.1.1/1/2/3", "IN IP4 224.1.1.1/-1",
		"IN IP6 FF15::101/1/2", "IN IP6 FF15::101/256", "IN IP6 FF15::101/z", "IN  1.1.1.1", "IN IP4 224.1.1.1/1000/2", "IN IP4 224.1.1.1/300")
	fv('c', mustAccept, "IN IP4 0.0.0.0", "IN IP4 224.2.36.42/127", "IN IP4 224.2.1.1/127/3", "IN IP6 FF15::101", "IN IP6 FF15::101/3", "IN IP4 224.1.1.1/255/255", "IN IP4 224.1.1.1/0")
	fv('b', mustReject, "x", "AS", "AS:", "AS:x", "AS:"+big, "XX:1", ":1", "AS:1 2", "AS:1.5", "as:1")
	fv('b', mustAccept, "AS:0", "CT:128", "AS:9223372036854775807")
	fv('t', mustReject, "x", "0", "0 x", "x 0", "0 0 0", "0  0", "-1 0", "0 -1", "0 18446744073709551616", "18446744073709551616 0", "1.5 0")
	fv('t', mustAccept, "0 0", "2873397496 2873404696", "1 0", "18446744073709551615 0")
	fv('r', mustReject, "x", "1", "1 2", "1 2 x", "x 2 3", "1 x 3", "1  2 3", "1 2 3y", "1 2 d", "h 2 3", "1 2 3  4", "1 2 "+big, "9999999999999d 1 0", "1 2 106752d", "1 2 1.5h", "1 2 0 s")
	fv('r', mustAccept, "604800 3600 0 90000", "7d 1h 0 25h", "1m 1s 0", "0 0 0")
	fv('z', mustReject, "x", "1", "1 2 3", "1 x", "x 1", "1  2", "-1 1", "18446744073709551616 0", "1 d", "1 2q", "1 "+big, "1 2 3 x", "1 9999999999999h")
	fv('z', mustAccept, "2882844526 -1h 2898848070 0", "0 0", "1 -3600")
	fv('m', mustReject, "x", "audio", "audio 1", "audio 1 RTP/AVP", "audio x RTP/AVP 0", "audio 1/x RTP/AVP 0", "audio "+big+" RTP/AVP 0", "audio 1/"+big+" RTP/AVP 0", "audio  1 RTP/AVP 0", "audio 1  RTP/AVP 0", "audio / RTP/AVP 0", "audio 1/ RTP/AVP 0")
	fv('m', mustAccept, "audio 49170 RTP/AVP 0", "video 51372/2 RTP/AVP 31 32", "data 0 udp wb")
	fv('a', mustReject, "x:", "rtpmap:")
	fv('a', mustAccept, "recvonly", "rtpmap:96 H264/90000", "a:b:c", "x:=")
	fv('k', mustReject, "clear:", "base64:")
	fv('k', mustAccept, "prompt", "clear:abc:d", "uri:http://a/b")
	for _, v := range []string{"i", "u", "e", "p", "s", "v", "o", "c", "b", "t", "k", "a", "m"} {
		// no value at all, or no '=' at all
		p := typesText(pre[v[0]])
		for _, l := range []string{v, v + "="} {
			if v == "s" && l == "s=" {
				continue
			}
			verdict("no value", p+l+"\n", mustReject)
			verdict("no value", p+l+"\r\nm=audio 1 RTP/AVP 0\r\n", mustReject)
		}
	}
	// mutations of complete descriptions
	full := []string{
		typesText("vosiuepcbbtrtzkaamicbkaamicbka"),
		strings.ReplaceAll(core.SDP([]core.Track{{Kind: "video", Codec: "H264", PT: 96, Control: "t1", Extra: []string{"a=fmtp:96 packetization-mode=1"}}, {Kind: "audio", PT: 0, Control: "t2"}}), "t=0 0", "t=0 0\r\nr=7d 1h 0 25h\r\nz=0 -1h"),
	}
	subs := []byte("=: \n\r/0-vmtdx\xff\x00\xe2")
	c.Group("mutations")
	for fi, f := range full {
		verdict("complete", f, mustAccept)
		mut := func(name, text string) {
			c.Do(func() string { return fmt.Sprintf("description %d %s: %.400q", fi, name, text) }, func() error {
				decodeText([]byte(text))
				return nil
			})
		}
		for i := 0; i <= len(f); i++ {
			if c.Stop() {
				return
			}
			mut(fmt.Sprintf("cut at %d", i), f[:i])
			if i < len(f) {
				mut(fmt.Sprintf("without byte %d", i), f[:i]+f[i+1:])
				mut(fmt.Sprintf("from %d", i), f[i:])
			}
			for _, s := range subs {
				mut(fmt.Sprintf("%q inserted at %d", s, i), f[:i]+string([]byte{s})+f[i:])
				if i < len(f) {
					mut(fmt.Sprintf("%q at %d", s, i), f[:i]+string([]byte{s})+f[i+1:])
				}
			}
			if i < len(f) {
				n := len(f)
				if !c.Thorough() {
					n = i + 40
				}
				for j := i + 1; j < n && j < len(f); j++ {
					mut(fmt.Sprintf("without bytes %d..%d", i, j), f[:i]+f[j+1:])
					for _, s := range subs[:6] {
						mut(fmt.Sprintf("%q for %d..%d", s, i, j), f[:i]+string([]byte{s})+f[j+1:])
					}
				}
			}
		}
		lines := strings.SplitAfter(f, "\n")
		lines = lines[:len(lines)-1]
		ty := func(ls []string) string {
			s := ""
			for _, l := range ls {
				s += l[:1]
			}
			return s
		}
		edit := func(name string, ls []string) { verdict(name, strings.Join(ls, ""), orderOf(ty(ls))) }
		for i := range lines {
			edit("line removed", append(append([]string(nil), lines[:i]...), lines[i+1:]...))
			edit("line doubled", append(append(append([]string(nil), lines[:i+1]...), lines[i]), lines[i+1:]...))
			for j := range lines {
				s := append([]string(nil), lines...)
				s[i], s[j] = s[j], s[i]
				edit("lines swapped", s)
				m := append(append([]string(nil), lines[:i]...), lines[i+1:]...)
				if j <= len(m) {
					m = append(m[:j:j], append([]string{lines[i]}, m[j:]...)...)
					edit("line moved", m)
				}
			}
		}
	}
	// very long and very many lines
	c.Group("long")
	for _, n := range []int{1000, 100000, 1000000} {
		n := n
		for _, unit := range []string{"a=b\n", "m=audio 1 RTP/AVP 0\n", "\n", "x", " ", "t=0 0\n", "=", "a=:", "m=\n"} {
			unit := unit
			c.Do(func() string { return fmt.Sprintf("%q %d times", unit, n) }, func() error {
				decodeText([]byte("v=0\no=- 1 1 IN IP4 1.1.1.1\ns=x\n" + strings.Repeat(unit, n)))
				decodeText([]byte(strings.Repeat(unit, n)))
				return nil
			})
		}
	}
}
