package seq

import (
	"fmt"

	"verifharness/core"
)

// hdrPattern is how the RTP headers of a stream's packets run.
type hdrPattern struct {
	seq, seqStep int
	ts, tsStep   uint32
	ssrc         int // 0 zero, 1 all ones, 2 the same as usual, 3 changes with every packet, 4 changes in the middle
	between      int // what is received between the packets
}

func (h hdrPattern) String() string {
	return fmt.Sprintf("seq %d%+d, time %d%+d, ssrc %d, between %d", h.seq, h.seqStep, h.ts, int32(h.tsStep), h.ssrc, h.between)
}

func (h hdrPattern) packet(pt, k, n int, marker bool, payload []byte) []byte {
	p := core.RTP(marker, pt, (h.seq+k*h.seqStep)&0xffff, h.ts+uint32(k)*h.tsStep, payload)
	var s uint32
	switch h.ssrc {
	case 1:
		s = 0xffffffff
	case 2:
		s = 0x11223344
	case 3:
		s = uint32(k+1) * 0x9e3779b9
	case 4:
		s = 7
		if k >= n/2 {
			s = 0x80000001
		}
	}
	for i := 0; i < 4; i++ {
		p[8+i] = byte(s >> (24 - 8*i))
	}
	return p
}

// noise is what a server may send between two packets of a track; nothing of
// it is media of a track.
var noise = [][]byte{
	nil,
	core.Frame(1, []byte{0x80, 200, 0, 6, 0x11, 0x22, 0x33, 0x44, 1, 2, 3, 4, 5, 6, 7, 8, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3}),
	core.Frame(1, core.RTP(true, 96, 5, 1, []byte{0x7c, 0x85, 1, 2, 3})),
	core.Frame(2, core.RTP(true, 96, 5, 1, []byte{0x7c, 0x45, 9, 9, 9})),
	core.Frame(255, core.RTP(true, 96, 5, 1, []byte{0x62, 0x01, 0x93, 9, 9})),
	core.Frame(0, nil),
	core.Frame(1, nil),
	[]byte("RTSP/1.0 200 OK\r\nCSeq: 99\r\n\r\n"),
	[]byte("RTSP/1.0 200 OK\r\nCSeq: 99\r\nContent-Length: 20\r\n\r\n$\x00\x00\x10aaaaaaaaaaaaaaaa"),
}

func headerPatterns(c *core.Ctx, f func(h hdrPattern)) {
	seqs := []int{0, 1, 0x7fff, 0x8000, 0xfffd, 0xfffe, 0xffff}
	steps := []int{1, 0, -1, 2, 0x4000, 0x8000}
	times := []uint32{0, 0x7fffffff, 0x80000000, 0xfffffffe}
	tsteps := []uint32{0, 1, 3000, 0xffffffff, 0x80000000}
	for _, s := range seqs {
		for _, st := range steps {
			for _, t := range times {
				for _, ts := range tsteps {
					for ssrc := 0; ssrc < 5; ssrc++ {
						f(hdrPattern{s, st, t, ts, ssrc, 0})
					}
				}
			}
			for b := 1; b < len(noise); b++ {
				f(hdrPattern{s, st, 1, 0, 2, b})
			}
		}
	}
}

// rtpHeaders: what the RTP headers of the packets say (but for the marker of a
// marker-framed codec), and what else the server sends between them, makes no
// difference. markers is which packets carry the marker, out of a set of
// choices; want gives the units of the packets.
func rtpHeaders(c *core.Ctx, name string, track core.Track, lists [][][]byte, markers int, want func(list, marker int) [][]byte) {
	c.Group("rtp-headers-" + name)
	c.Bound("rtp_header_patterns", 7*6*(4*5*5+len(noise)-1))
	type cs struct {
		h        hdrPattern
		list, mk int
		sh       rtpShape
		at       int // the packet which has the shape, -1 all
	}
	var batch []cs
	flush := func() {
		bt := batch
		batch = nil
		if len(bt) == 0 || c.Stop() {
			return
		}
		c.Do(func() string {
			return fmt.Sprintf("%s: %d streams from list %d {%v} to list %d {%v}", name, len(bt), bt[0].list, bt[0].h, bt[len(bt)-1].list, bt[len(bt)-1].h)
		}, func() error {
			return c.Playing([]core.Track{track}, func(p *core.Peer) error {
				c.Nontrivial()
				pos := 0
				for _, x := range bt {
					c.State(name, x)
					l := lists[x.list]
					for k, pl := range l {
						if k > 0 && noise[x.h.between] != nil {
							p.Conn.Feed(append([]byte(nil), noise[x.h.between]...))
						}
						pk := x.h.packet(track.PT, k, len(l), marked(x.mk, k, len(l)), append([]byte(nil), pl...))
						if x.at < 0 || x.at == k {
							pk = x.sh.apply(pk)
						}
						p.Conn.Feed(core.Frame(0, pk))
						c.Trans(1)
					}
					core.Quiesce()
					got, err := p.Units(-1)
					if err != nil {
						return err
					}
					w := want(x.list, x.mk)
					if err := core.SameBytes(got[pos:], w); err != nil {
						return fmt.Errorf("list %d, markers %d, %v, %v in packet %d: %v", x.list, x.mk, x.h, x.sh, x.at, err)
					}
					pos += len(w)
				}
				_, err := p.Units(-1)
				return err
			})
		})
	}
	for l := range lists {
		for mk := 0; mk < markers; mk++ {
			headerPatterns(c, func(h hdrPattern) {
				batch = append(batch, cs{h, l, mk, rtpShape{0, -1, 0}, -1})
				if len(batch) == 256 {
					flush()
				}
			})
		}
	}
	flush()
	// contributing sources, header extensions and padding
	c.Group("rtp-shapes-" + name)
	shapes := rtpShapes(c)
	c.Bound("rtp_header_shapes", len(shapes))
	for l := range lists {
		for mk := 0; mk < markers && mk < 3; mk += 2 {
			for _, sh := range shapes {
				big := 0
				for _, pl := range lists[l] {
					big = max(big, len(pl))
				}
				if sh.size()+big+12 > 65535 {
					continue
				}
				for at := -1; at < len(lists[l]) && at < 3; at++ {
					batch = append(batch, cs{hdrPattern{1, 1, 1, 1, 2, 0}, l, mk, sh, at})
					if len(batch) == 128 {
						flush()
					}
				}
			}
		}
	}
	flush()
}

// rtpShape is what a packet has besides the fixed header and the payload.
type rtpShape struct {
	csrc, ext, pad int // sources, words of the extension (-1 none), bytes of padding
}

func (s rtpShape) String() string {
	return fmt.Sprintf("%d sources, extension of %d words, %d padding", s.csrc, s.ext, s.pad)
}

func (s rtpShape) size() int { return 4*s.csrc + 4*(s.ext+1) + s.pad }

func (s rtpShape) apply(p []byte) []byte {
	o := append([]byte(nil), p[:12]...)
	o[0] |= byte(s.csrc)
	for i := 0; i < 4*s.csrc; i++ {
		o = append(o, byte(0x7c+i))
	}
	if s.ext >= 0 {
		o[0] |= 0x10
		o = append(o, 0xbe, 0xde, byte(s.ext>>8), byte(s.ext))
		for i := 0; i < 4*s.ext; i++ {
			o = append(o, byte(0x85+i))
		}
	}
	o = append(o, p[12:]...)
	if s.pad > 0 {
		o[0] |= 0x20
		for i := 1; i < s.pad; i++ {
			o = append(o, byte(i*7))
		}
		o = append(o, byte(s.pad))
	}
	return o
}

func rtpShapes(c *core.Ctx) (l []rtpShape) {
	exts := []int{-1, 0, 1, 2, 3, 255, 256, 10000}
	pads := []int{0, 1, 2, 3, 4, 127, 128, 255}
	for n := 0; n < 16; n++ {
		for _, e := range exts {
			for _, p := range pads {
				if (n > 2 && n < 15 && e > 1 || e > 255 && p > 1) && !c.Thorough() {
					continue
				}
				l = append(l, rtpShape{n, e, p})
			}
		}
	}
	return
}

// marked: 0 the last packet, 1 none, 2 all, 3 the first.
func marked(choice, k, n int) bool {
	switch choice {
	case 0:
		return k == n-1
	case 1:
		return false
	case 2:
		return true
	}
	return k == 0
}

func itemLists(lists [][]item) (pk [][][]byte, want func(l, m int) [][]byte) {
	var nals [][][]byte
	for _, l := range lists {
		var p, n [][]byte
		for _, it := range l {
			p = append(p, it.pkts...)
			n = append(n, it.nals...)
		}
		pk, nals = append(pk, p), append(nals, n)
	}
	return pk, func(l, m int) [][]byte { return nals[l] }
}
