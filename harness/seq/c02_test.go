package seq

import (
	"fmt"
	"strings"

	"verifharness/core"
)

// An item is one transport packet sequence and the units it stands for.
type item struct {
	name string
	pkts [][]byte // RTP payloads, in order
	nals [][]byte
}

func nal264(hdr byte, id, n int) []byte {
	b := core.Pattern(id, n)
	b[0] = hdr
	return b
}

func single264(hdr byte, id, n int) item {
	u := nal264(hdr, id, n)
	return item{fmt.Sprintf("single(%02x,%d)", hdr, n), [][]byte{u}, [][]byte{u}}
}

func stapA(nri byte, units ...[]byte) item {
	p := []byte{nri | 24}
	var s []string
	for _, u := range units {
		p = append(p, byte(len(u)>>8), byte(len(u)))
		p = append(p, u...)
		s = append(s, fmt.Sprint(len(u)))
	}
	return item{"stap(" + strings.Join(s, ",") + ")", [][]byte{p}, units}
}

// fuA splits a unit after its header at the given offsets of the rest.
func fuA(u []byte, parts ...int) item {
	var pk [][]byte
	body := u[1:]
	prev := 0
	cuts := append(append([]int(nil), parts...), len(body))
	for i, c := range cuts {
		h := u[0] & 0x1f
		if i == 0 {
			h |= 0x80
		}
		if i == len(cuts)-1 {
			h |= 0x40
		}
		p := append([]byte{u[0]&0xe0 | 28, h}, body[prev:c]...)
		pk = append(pk, p)
		prev = c
	}
	return item{fmt.Sprintf("fu(%02x,%d,%v)", u[0], len(u), parts), pk, [][]byte{u}}
}

// playItems sends the packets of the items of each track, merged in the given
// order, and checks the units delivered on each track's channel.
func checkTracks(p *core.Peer, tracks [][]item, merge []int, pt int) error {
	next := make([]int, len(tracks))
	flat := make([][][]byte, len(tracks))
	want := make([][][]byte, len(tracks))
	for i, its := range tracks {
		for _, it := range its {
			flat[i] = append(flat[i], it.pkts...)
			for _, n := range it.nals {
				want[i] = append(want[i], append([]byte(nil), n...))
			}
		}
	}
	seq := 0
	send := func(tr int) {
		if next[tr] >= len(flat[tr]) {
			return
		}
		pl := append([]byte(nil), flat[tr][next[tr]]...)
		next[tr]++
		seq++
		p.Conn.Feed(core.Frame(2*tr, core.RTP(seq%3 == 0, pt, seq, uint32(seq/2), pl)))
	}
	for _, tr := range merge {
		send(tr)
	}
	for tr := range tracks {
		for next[tr] < len(flat[tr]) {
			send(tr)
		}
	}
	core.Quiesce()
	all, err := p.Units(-1)
	if err != nil {
		return err
	}
	total := 0
	for tr := range tracks {
		got, _ := p.Units(2 * tr)
		if err := core.SameBytes(got, want[tr]); err != nil {
			return fmt.Errorf("channel %d: %v", 2*tr, err)
		}
		total += len(want[tr])
	}
	if len(all) != total {
		return fmt.Errorf("%d units delivered, want %d", len(all), total)
	}
	return nil
}

// batch runs many streams on one session; each stream must be delivered exactly.
type stream struct {
	name  string
	items []item
}

func runBatch(c *core.Ctx, codec string, b []stream) {
	if len(b) == 0 {
		return
	}
	first := b[0].name
	last := b[len(b)-1].name
	c.Do(func() string { return fmt.Sprintf("%s: %d streams from {%s} to {%s}", codec, len(b), first, last) }, func() error {
		return c.Playing([]core.Track{{Kind: "video", Codec: codec, PT: 96, Control: "t1"}}, func(p *core.Peer) error {
			var pos int
			for _, s := range b {
				c.State(codec, s.name)
				for _, it := range s.items {
					for _, pk := range it.pkts {
						p.Conn.Feed(core.Frame(0, core.RTP(false, 96, pos, 7, append([]byte(nil), pk...))))
						c.Trans(1)
					}
				}
				core.Quiesce()
				got, err := p.Units(0)
				if err != nil {
					return err
				}
				var want [][]byte
				for _, it := range s.items {
					want = append(want, it.nals...)
				}
				if err := core.SameBytes(got[pos:], want); err != nil {
					return fmt.Errorf("stream {%s}: %v", s.name, err)
				}
				pos += len(want)
				if len(s.items) > 1 || len(s.items[0].pkts) > 1 || len(s.items[0].nals) > 1 {
					c.Nontrivial()
				}
			}
			// nothing delivered earlier may have changed meanwhile
			_, err := p.Units(0)
			return err
		})
	})
}

type batcher struct {
	c     *core.Ctx
	codec string
	n     int
	b     []stream
}

func (b *batcher) add(name string, items ...item) {
	b.b = append(b.b, stream{name, items})
	if len(b.b) == b.n {
		b.flush()
	}
}

func (b *batcher) flush() {
	bb := b.b
	b.b = nil
	if !b.c.Stop() {
		runBatch(b.c, b.codec, bb)
	}
}

func names(its []item) string {
	var s []string
	for _, i := range its {
		s = append(s, i.name)
	}
	return strings.Join(s, " ")
}

func init() {
	core.Register(&core.Prop{
		ID: "C02",
		Rule: "all sequences of packetised NAL units up to the bound over an alphabet of packetisations, all NAL header bytes, all unit sizes and all fragment sizes up to the bounds, " +
			"all merges of two tracks up to the bound; non-trivial: more than one packet or unit",
		Assumptions: []string{"non-interleaved packetisation (single NAL, STAP-A, FU-A), no loss (TCP), fixed 12-byte RTP header"},
		Run:         c02,
	})
	core.Register(&core.Prop{
		ID: "C03",
		Rule: "all sequences of packetised NAL units up to the bound over an alphabet of packetisations, all NAL header byte pairs, all unit sizes and all fragment sizes up to the bounds, " +
			"all merges of two tracks up to the bound; non-trivial: more than one packet or unit",
		Assumptions: []string{"no DONL fields, no loss (TCP), fixed 12-byte RTP header"},
		Run:         c03,
	})
}

func sequences(c *core.Ctx, codec string, alpha []item, depth int) {
	c.Group("sequences")
	c.Bound("sequence_length", depth)
	c.Bound("packetisation_alphabet", len(alpha))
	b := &batcher{c: c, codec: codec, n: 256}
	core.Tuples(len(alpha), 1, depth, func(t []int) {
		var its []item
		for _, i := range t {
			its = append(its, alpha[i])
		}
		b.add(names(its), its...)
	})
	b.flush()
}

// spellings: other names of the codec
func spellings(c *core.Ctx, codecs []string, alpha []item) {
	c.Group("codec-names")
	for _, n := range codecs {
		b := &batcher{c: c, codec: n, n: 64}
		core.Tuples(len(alpha), 1, 3, func(t []int) {
			var its []item
			for _, i := range t {
				its = append(its, alpha[i])
			}
			b.add(names(its), its...)
		})
		b.flush()
	}
}

// merges: two tracks of the codec, all interleavings of their packets
func merges(c *core.Ctx, codec string, alpha []item) {
	c.Group("two-tracks")
	tr := []core.Track{{Kind: "video", Codec: codec, PT: 96, Control: "t1"}, {Kind: "video", Codec: codec, PT: 97, Control: "t2"}}
	for i := range alpha {
		for j := range alpha {
			a := []item{alpha[i], alpha[(i+j)%len(alpha)]}
			bb := []item{alpha[j]}
			na, nb := 0, 0
			for _, x := range a {
				na += len(x.pkts)
			}
			for _, x := range bb {
				nb += len(x.pkts)
			}
			var rec func(m []int, x, y int)
			rec = func(m []int, x, y int) {
				if x == 0 && y == 0 {
					m := append([]int(nil), m...)
					c.State("merge", m, i, j)
					c.Do(func() string { return fmt.Sprintf("%s tracks {%s} {%s} merged %v", codec, names(a), names(bb), m) }, func() error {
						c.Nontrivial()
						return c.Playing(tr, func(p *core.Peer) error { return checkTracks(p, [][]item{a, bb}, m, 96) })
					})
					return
				}
				if x > 0 {
					rec(append(m, 0), x-1, y)
				}
				if y > 0 {
					rec(append(m, 1), x, y-1)
				}
			}
			if c.Stop() {
				return
			}
			rec(nil, na, nb)
		}
	}
}

func c02(c *core.Ctx) {
	mk := func(hdr byte, id, n int) []byte { return nal264(hdr, id, n) }
	alpha := []item{
		single264(0x67, 1, 9),
		single264(0x01, 2, 1),
		single264(0x65, 3, 300),
		stapA(0x60, mk(0x67, 4, 7), mk(0x68, 5, 4)),
		stapA(0, mk(0x06, 6, 1)),
		stapA(0x40, mk(0x67, 7, 255), mk(0x68, 8, 256), mk(0x41, 9, 257)),
		fuA(mk(0x65, 10, 40), 20),
		fuA(mk(0x01, 11, 7), 1, 2, 4),
		fuA(mk(0x41, 12, 3), 1),
	}
	depth := 6
	if c.Thorough() {
		depth = 7
	}
	sequences(c, "H264", alpha, depth)
	c.Group("headers")
	b := &batcher{c: c, codec: "H264", n: 256}
	for h := 0; h < 256; h++ {
		ty := h & 0x1f
		if ty == 0 || ty > 23 { // undefined types
			continue
		}
		hd := byte(h)
		for _, n := range []int{1, 2, 3, 50} {
			b.add(fmt.Sprintf("single %02x %d", h, n), single264(hd, h, n))
			b.add(fmt.Sprintf("stap %02x %d", h, n), stapA(hd&0xe0, mk(hd, h, n), mk(hd, h+1, 4)))
		}
		for _, n := range []int{3, 4, 50} {
			b.add(fmt.Sprintf("fu %02x %d", h, n), fuA(mk(hd, h, n), 1))
			b.add(fmt.Sprintf("fu %02x %d, then another", h, n), fuA(mk(hd, h, n), 1), single264(hd, h, 2), fuA(mk(hd, h, n), n/2))
		}
	}
	b.flush()
	c.Group("aggregated-sizes")
	b = &batcher{c: c, codec: "H264", n: 64}
	max1, max2 := 6000, 60
	if c.Thorough() {
		max1, max2 = 30000, 200
	}
	c.Bound("aggregated_unit_size", max1)
	for n := 1; n <= max1; n++ {
		b.add(fmt.Sprintf("stap %d,2", n), stapA(0x60, mk(0x67, n, n), mk(0x68, n, 2)))
		b.add(fmt.Sprintf("stap 3,%d", n), stapA(0x60, mk(0x67, n, 3), mk(0x68, n, n)))
	}
	for _, n := range []int{32767, 32768, 65000} {
		b.add(fmt.Sprintf("stap %d", n), stapA(0x60, mk(0x67, n, n), mk(0x68, 1, 3)))
	}
	for i := 1; i <= max2; i++ {
		for j := 1; j <= max2; j++ {
			b.add(fmt.Sprintf("stap %d,%d,3", i, j), stapA(0x20, mk(0x67, i, i), mk(0x68, j, j), mk(0x65, 1, 3)))
		}
	}
	for k := 1; k <= 40; k++ {
		var us [][]byte
		for i := 0; i < k; i++ {
			us = append(us, mk(0x41, i, 1+i%5))
		}
		b.add(fmt.Sprintf("stap of %d units", k), stapA(0, us...))
	}
	b.flush()
	c.Group("fragment-sizes")
	b = &batcher{c: c, codec: "H264", n: 64}
	maxF := 40
	if c.Thorough() {
		maxF = 120
	}
	for n := 3; n <= maxF; n++ {
		for i := 1; i < n-1; i++ {
			b.add(fmt.Sprintf("fu %d at %d", n, i), fuA(mk(0x65, n, n), i))
			for j := i + 1; j < n-1; j++ {
				b.add(fmt.Sprintf("fu %d at %d,%d", n, i, j), fuA(mk(0x41, n, n), i, j))
			}
		}
	}
	for _, n := range []int{1400, 65000, 70000, 200000, 1 << 20, 1<<20 + 1, 2<<20 + 3, 4<<20 + 5, 7900000} {
		var at []int
		for k := 1398; k < n-1; k += 1398 {
			at = append(at, k)
		}
		if len(at) == 0 {
			at = []int{700}
		}
		b.add(fmt.Sprintf("fu %d in MTU pieces", n), fuA(mk(0x65, n, n), at...))
	}
	for k := 2; k <= 40; k++ {
		var at []int
		for i := 1; i < k; i++ {
			at = append(at, i)
		}
		b.add(fmt.Sprintf("fu of %d fragments", k), fuA(mk(0x65, k, k+5), at...))
	}
	b.flush()
	spellings(c, []string{"h264"}, alpha)
	merges(c, "H264", []item{alpha[0], alpha[3], alpha[6], alpha[7]})
	lists, want := itemLists([][]item{{alpha[0], alpha[6]}, {alpha[7], alpha[3]}, {alpha[3], alpha[0], alpha[8]}})
	rtpHeaders(c, "H264", core.Track{Kind: "video", Codec: "H264", PT: 96, Control: "t1"}, lists, 4, want)
}

func nal265(ty, layer, tid int, id, n int) []byte {
	b := core.Pattern(id, n)
	b[0] = byte(ty<<1 | layer>>5)
	b[1] = byte(layer<<3 | tid)
	return b
}

func single265(u []byte) item {
	return item{fmt.Sprintf("single(%02x%02x,%d)", u[0], u[1], len(u)), [][]byte{u}, [][]byte{u}}
}

func ap265(h byte, l byte, units ...[]byte) item {
	p := []byte{h&0x81 | 48<<1, l}
	var s []string
	for _, u := range units {
		p = append(p, byte(len(u)>>8), byte(len(u)))
		p = append(p, u...)
		s = append(s, fmt.Sprint(len(u)))
	}
	return item{"ap(" + strings.Join(s, ",") + ")", [][]byte{p}, units}
}

func fu265(u []byte, parts ...int) item {
	var pk [][]byte
	body := u[2:]
	prev := 0
	cuts := append(append([]int(nil), parts...), len(body))
	for i, c := range cuts {
		h := u[0] >> 1 & 0x3f
		if i == 0 {
			h |= 0x80
		}
		if i == len(cuts)-1 {
			h |= 0x40
		}
		pk = append(pk, append([]byte{u[0]&0x81 | 49<<1, u[1], h}, body[prev:c]...))
		prev = c
	}
	return item{fmt.Sprintf("fu(%02x%02x,%d,%v)", u[0], u[1], len(u), parts), pk, [][]byte{u}}
}

func c03(c *core.Ctx) {
	mk := nal265
	alpha := []item{
		single265(mk(32, 0, 1, 1, 9)),
		single265(mk(1, 0, 1, 2, 2)),
		single265(mk(19, 1, 2, 3, 300)),
		ap265(0, 1, mk(32, 0, 1, 4, 7), mk(33, 0, 1, 5, 4)),
		ap265(0, 1, mk(39, 0, 1, 6, 2)),
		ap265(0, 1, mk(32, 0, 1, 7, 255), mk(33, 0, 1, 8, 256), mk(34, 0, 1, 9, 257)),
		fu265(mk(19, 0, 1, 10, 40), 20),
		fu265(mk(1, 0, 1, 11, 8), 1, 2, 4),
		fu265(mk(20, 33, 3, 12, 4), 1),
	}
	depth := 6
	if c.Thorough() {
		depth = 7
	}
	codec := "H265"
	sequences(c, codec, alpha, depth)
	c.Group("codec-names")
	b := &batcher{c: c, codec: "HEVC", n: 256}
	core.Tuples(len(alpha), 1, 2, func(t []int) {
		var its []item
		for _, i := range t {
			its = append(its, alpha[i])
		}
		b.add(names(its), its...)
	})
	b.flush()
	c.Group("headers")
	b = &batcher{c: c, codec: codec, n: 256}
	layers := []int{0, 1, 31, 32, 63}
	tids := []int{1, 7}
	if c.Thorough() {
		layers, tids = nil, []int{1, 2, 3, 4, 5, 6, 7}
		for i := 0; i < 64; i++ {
			layers = append(layers, i)
		}
	}
	for ty := 0; ty < 48; ty++ {
		for _, la := range layers {
			for _, tid := range tids {
				nm := fmt.Sprintf("%d/%d/%d", ty, la, tid)
				b.add("single "+nm, single265(mk(ty, la, tid, ty, 2)))
				b.add("single "+nm, single265(mk(ty, la, tid, ty, 30)))
				b.add("ap "+nm, ap265(byte(la>>5), byte(la<<3|tid), mk(ty, la, tid, ty, 5), mk(ty, la, tid, ty, 2)))
				b.add("fu "+nm, fu265(mk(ty, la, tid, ty, 20), 9))
				b.add("fu "+nm, fu265(mk(ty, la, tid, ty, 4), 1), single265(mk(ty, la, tid, ty, 3)), fu265(mk(ty, la, tid, ty, 12), 4, 5))
				// with the forbidden bit
				u := mk(ty, la, tid, ty, 9)
				u[0] |= 0x80
				b.add("F "+nm, single265(u), fu265(u, 3), ap265(u[0], u[1], u, mk(ty, la, tid, ty, 3)), fu265(u, 2, 5), single265(mk(ty, la, tid, ty, 3)))
			}
		}
	}
	b.flush()
	c.Group("aggregated-sizes")
	b = &batcher{c: c, codec: codec, n: 64}
	max1, max2 := 6000, 60
	if c.Thorough() {
		max1, max2 = 30000, 200
	}
	c.Bound("aggregated_unit_size", max1)
	for n := 2; n <= max1; n++ {
		b.add(fmt.Sprintf("ap %d,3", n), ap265(0, 1, mk(32, 0, 1, n, n), mk(33, 0, 1, n, 3)))
		b.add(fmt.Sprintf("ap 2,%d", n), ap265(0, 1, mk(32, 0, 1, n, 2), mk(33, 0, 1, n, n)))
	}
	for _, n := range []int{32767, 32768, 65000} {
		b.add(fmt.Sprintf("ap %d", n), ap265(0, 1, mk(32, 0, 1, n, n), mk(33, 0, 1, n, 3)))
	}
	for i := 2; i <= max2; i++ {
		for j := 2; j <= max2; j++ {
			b.add(fmt.Sprintf("ap %d,%d,3", i, j), ap265(0, 1, mk(32, 0, 1, i, i), mk(33, 0, 1, j, j), mk(34, 0, 1, i, 3)))
		}
	}
	for k := 1; k <= 40; k++ {
		var us [][]byte
		for i := 0; i < k; i++ {
			us = append(us, mk(39, 0, 1, i, 2+i%5))
		}
		b.add(fmt.Sprintf("ap of %d units", k), ap265(0, 1, us...))
	}
	b.flush()
	c.Group("fragment-sizes")
	b = &batcher{c: c, codec: codec, n: 64}
	maxF := 40
	if c.Thorough() {
		maxF = 120
	}
	for n := 4; n <= maxF; n++ {
		for i := 1; i < n-2; i++ {
			b.add(fmt.Sprintf("fu %d at %d", n, i), fu265(mk(19, 0, 1, n, n), i))
			for j := i + 1; j < n-2; j++ {
				b.add(fmt.Sprintf("fu %d at %d,%d", n, i, j), fu265(mk(1, 0, 1, n, n), i, j))
			}
		}
	}
	for _, n := range []int{1400, 65000, 70000, 200000, 1 << 20, 1<<20 + 1, 2<<20 + 3, 4<<20 + 5, 7900000} {
		var at []int
		for k := 1397; k < n-2; k += 1397 {
			at = append(at, k)
		}
		b.add(fmt.Sprintf("fu %d in MTU pieces", n), fu265(mk(19, 0, 1, n, n), at...))
	}
	for k := 2; k <= 40; k++ {
		var at []int
		for i := 1; i < k; i++ {
			at = append(at, i)
		}
		b.add(fmt.Sprintf("fu of %d fragments", k), fu265(mk(19, 0, 1, k, k+5), at...))
	}
	b.flush()
	merges(c, codec, []item{alpha[0], alpha[3], alpha[6], alpha[7]})
	lists, want := itemLists([][]item{{alpha[0], alpha[6]}, {alpha[7], alpha[3]}, {alpha[3], alpha[0], alpha[8]}})
	rtpHeaders(c, codec, core.Track{Kind: "video", Codec: codec, PT: 96, Control: "t1"}, lists, 4, want)
}
