package seq

import (
	"fmt"
	"strings"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C04",
		Rule: "all assignments of codecs to up to 3 (thorough 4) tracks, and 8 to 128 tracks, with a packet on every channel 0..255; all spellings of the codec names; units up to 7.9 MB; and all sequences of packets (track, marker, size) up to the bound; " +
			"non-trivial: at least one packet that must be delivered and one that must not",
		Assumptions: []string{"fixed 12-byte RTP header, non-empty payloads"},
		Run:         c04,
	})
}

// a reference depacketiser for one channel: what must be delivered per packet
type refTrack struct {
	codec string
	acc   []byte
}

func (r *refTrack) packet(marker bool, payload []byte) [][]byte {
	switch r.codec {
	case "bbw":
		r.acc = append(r.acc, payload...)
		if marker {
			u := r.acc
			r.acc = nil
			return [][]byte{u}
		}
		return nil
	default: // single NAL packets and plain payloads
		return [][]byte{append([]byte(nil), payload...)}
	}
}

type codecKind struct {
	name string
	mk   func(i int) core.Track
	pay  func(id, n int) []byte
}

var codecKinds = []codecKind{
	{"H264", func(i int) core.Track {
		return core.Track{Kind: "video", Codec: "H264", PT: 96 + i, Control: fmt.Sprint("t", i)}
	}, func(id, n int) []byte { return nal264(0x65, id, n) }},
	{"H265", func(i int) core.Track {
		return core.Track{Kind: "video", Codec: "H265", PT: 96 + i, Control: fmt.Sprint("t", i)}
	}, func(id, n int) []byte { return nal265(19, 0, 1, id, n+1) }},
	{"static", func(i int) core.Track { return core.Track{Kind: "audio", PT: 8, Control: fmt.Sprint("t", i)} }, core.Pattern},
	{"bbw", func(i int) core.Track {
		return core.Track{Kind: "data", Codec: "bbw", PT: 96 + i, Control: fmt.Sprint("t", i)}
	}, core.Pattern},
	{"other", func(i int) core.Track {
		return core.Track{Kind: "audio", Codec: "MPEG4-GENERIC", PT: 96 + i, Control: fmt.Sprint("t", i)}
	}, core.Pattern},
}

func c04(c *core.Ctx) {
	maxTracks, depth := 3, 6
	if c.Thorough() {
		maxTracks, depth = 4, 7
	}
	c.Bound("tracks", maxTracks)
	c.Bound("packet_sequence_length", depth)
	c.Group("assignments")
	core.Tuples(len(codecKinds), 1, maxTracks, func(t []int) {
		if c.Stop() {
			return
		}
		as := append([]int(nil), t...)
		var nm []string
		var tracks []core.Track
		for i, k := range as {
			nm = append(nm, codecKinds[k].name)
			tracks = append(tracks, codecKinds[k].mk(i))
		}
		c.State("assign", nm)
		c.Do(func() string { return "tracks " + strings.Join(nm, ",") + ", a packet on every channel" }, func() error {
			c.Nontrivial()
			return c.Playing(tracks, func(p *core.Peer) error {
				// SETUP order and channels
				n := 0
				for _, r := range p.Reqs {
					if r.Method != "SETUP" {
						continue
					}
					tp := strings.ReplaceAll(r.Get("Transport"), " ", "")
					if !strings.Contains(tp+";", fmt.Sprintf("interleaved=%d-%d;", 2*n, 2*n+1)) || !strings.HasPrefix(tp, "RTP/AVP/TCP") {
						return fmt.Errorf("transport of SETUP %d is %q", n, tp)
					}
					n++
				}
				if n != len(tracks) {
					return fmt.Errorf("%d SETUP requests for %d tracks", n, len(tracks))
				}
				refs := make([]*refTrack, len(tracks))
				want := map[int][][]byte{}
				total := 0
				for i := range refs {
					refs[i] = &refTrack{codec: codecKinds[as[i]].name}
				}
				for round := 0; round < 3; round++ {
					for ch := 0; ch < 256; ch++ {
						tr := ch / 2
						var pay []byte
						if ch%2 == 0 && tr < len(as) {
							pay = codecKinds[as[tr]].pay(ch+round, 5+round)
						} else {
							pay = nal264(0x65, ch, 8)
						}
						p.Conn.Feed(core.Frame(ch, core.RTP(round == 1, 96, round, 1, append([]byte(nil), pay...))))
						c.Trans(1)
						if ch%2 == 0 && tr < len(as) {
							for _, u := range refs[tr].packet(round == 1, pay) {
								want[ch] = append(want[ch], u)
								total++
							}
						}
					}
				}
				core.Quiesce()
				all, err := p.Units(-1)
				if err != nil {
					return err
				}
				for ch := 0; ch < 256; ch++ {
					got, _ := p.Units(ch)
					if err := core.SameBytes(got, want[ch]); err != nil {
						return fmt.Errorf("channel %d: %v", ch, err)
					}
				}
				if len(all) != total {
					return fmt.Errorf("%d units in all, want %d", len(all), total)
				}
				return nil
			})
		})
	})

	// many tracks: channels above 127, and media beyond the last channel
	c.Group("many-tracks")
	for _, n := range []int{8, 9, 32, 63, 64, 65, 66, 100, 127, 128} {
		for off := 0; off < len(codecKinds); off++ {
			n, off := n, off
			var tracks []core.Track
			kind := func(i int) codecKind { return codecKinds[(i+off)%len(codecKinds)] }
			for i := 0; i < n; i++ {
				t := kind(i).mk(i)
				if t.Codec != "" {
					t.PT = 96 + i%32
				}
				tracks = append(tracks, t)
			}
			c.State("many", n, off)
			c.Do(func() string { return fmt.Sprintf("%d tracks, codecs from %s on", n, kind(0).name) }, func() error {
				c.Nontrivial()
				return c.Playing(tracks, func(p *core.Peer) error {
					m := 0
					for _, r := range p.Reqs {
						if r.Method != "SETUP" {
							continue
						}
						if tp := strings.ReplaceAll(r.Get("Transport"), " ", ""); !strings.Contains(tp+";", fmt.Sprintf("interleaved=%d-%d;", 2*m, 2*m+1)) {
							return fmt.Errorf("transport of SETUP %d is %q", m, tp)
						}
						m++
					}
					if m != n {
						return fmt.Errorf("%d SETUP requests for %d tracks", m, n)
					}
					want := map[int][][]byte{}
					total := 0
					for round := 0; round < 3; round++ {
						for ch := 0; ch < 256; ch++ {
							pay := nal264(0x65, ch, 8)
							used := ch%2 == 0 && ch/2 < n
							if used {
								pay = kind(ch/2).pay(ch+round, 5+round)
							}
							p.Conn.Feed(core.Frame(ch, core.RTP(round == 2, 96, round, 1, append([]byte(nil), pay...))))
							c.Trans(1)
							if used && kind(ch/2).name != "bbw" {
								want[ch] = append(want[ch], pay)
								total++
							} else if used && round == 2 {
								want[ch] = [][]byte{nil}
								for r := 0; r < 3; r++ {
									want[ch][0] = append(want[ch][0], kind(ch/2).pay(ch+r, 5+r)...)
								}
								total++
							}
						}
					}
					core.Quiesce()
					all, err := p.Units(-1)
					if err != nil {
						return err
					}
					for ch := 0; ch < 256; ch++ {
						got, _ := p.Units(ch)
						if err := core.SameBytes(got, want[ch]); err != nil {
							return fmt.Errorf("channel %d: %v", ch, err)
						}
					}
					if len(all) != total {
						return fmt.Errorf("%d units in all, want %d", len(all), total)
					}
					return nil
				})
			})
		}
	}
	// large units of the marker-framed codec, in MTU pieces and in pieces of 60000
	c.Group("large-units")
	for _, n := range []int{1400, 65000, 65536, 70000, 200000, 1 << 20, 1<<20 + 1, 2<<20 + 3, 4<<20 + 5, 7900000} {
		for _, piece := range []int{1400, 60000} {
			n, piece := n, piece
			c.State("large", n, piece)
			c.Do(func() string { return fmt.Sprintf("marker-framed unit of %d bytes in pieces of %d", n, piece) }, func() error {
				c.Nontrivial()
				return c.Playing([]core.Track{codecKinds[3].mk(0)}, func(p *core.Peer) error {
					u := core.Pattern(n, n)
					for i, r := 0, u; len(r) > 0; i++ {
						m := piece
						if m > len(r) {
							m = len(r)
						}
						p.Conn.Feed(core.Frame(0, core.RTP(m == len(r), 96, i, 1, append([]byte(nil), r[:m]...))))
						r = r[m:]
						c.Trans(1)
					}
					core.Quiesce()
					got, err := p.Units(-1)
					if err != nil {
						return err
					}
					return core.SameBytes(got, [][]byte{u})
				})
			})
		}
	}
	// every spelling of every codec name
	c.Group("codec-names")
	for ki, names := range [][]string{{"H264"}, {"H265", "HEVC"}, nil, {"BBW"}} {
		for _, nm := range names {
			for mask := 0; mask < 1<<len(nm); mask++ {
				b := []byte(strings.ToUpper(nm))
				skip := false
				for i := range b {
					if mask>>i&1 == 1 {
						if b[i] < 'A' {
							skip = true
							break
						}
						b[i] |= 0x20
					}
				}
				if skip {
					continue
				}
				ki, nm := ki, string(b)
				c.State("name", nm)
				c.Do(func() string { return "codec name " + nm }, func() error {
					c.Nontrivial()
					t := codecKinds[ki].mk(0)
					t.Codec = nm
					return c.Playing([]core.Track{t}, func(p *core.Peer) error {
						var want [][]byte
						send := func(mk bool, pl []byte) {
							p.Conn.Feed(core.Frame(0, core.RTP(mk, 96, 1, 1, append([]byte(nil), pl...))))
							c.Trans(1)
						}
						switch ki {
						case 0:
							it := fuA(nal264(0x65, 1, 40), 20)
							send(false, it.pkts[0])
							send(true, it.pkts[1])
							want = it.nals
						case 1:
							it := fu265(nal265(19, 0, 1, 1, 40), 20)
							send(false, it.pkts[0])
							send(true, it.pkts[1])
							want = it.nals
						default:
							send(false, core.Pattern(1, 9))
							send(true, core.Pattern(2, 9))
							want = [][]byte{append(core.Pattern(1, 9), core.Pattern(2, 9)...)}
						}
						core.Quiesce()
						got, err := p.Units(-1)
						if err != nil {
							return err
						}
						return core.SameBytes(got, want)
					})
				})
			}
		}
	}
	// packet sequences over two tracks, one marker-framed
	type pk struct {
		ch     int
		marker bool
		n      int
	}
	alpha := []pk{{0, false, 1}, {0, true, 3}, {0, false, 300}, {2, false, 2}, {2, true, 4}, {1, true, 5}, {4, true, 6}}
	if c.Thorough() {
		alpha = append(alpha, pk{0, true, 1400})
	}
	for _, pair := range [][2]int{{3, 2}, {3, 3}, {0, 3}} {
		tracks := []core.Track{codecKinds[pair[0]].mk(0), codecKinds[pair[1]].mk(1)}
		c.Group("sequences-" + codecKinds[pair[0]].name + "-" + codecKinds[pair[1]].name)
		var batch [][]int
		flush := func() {
			if len(batch) == 0 || c.Stop() {
				batch = nil
				return
			}
			bt := batch
			batch = nil
			c.Do(func() string { return fmt.Sprintf("%d packet sequences from %v to %v", len(bt), bt[0], bt[len(bt)-1]) }, func() error {
				return c.Playing(tracks, func(p *core.Peer) error {
					refs := []*refTrack{{codec: codecKinds[pair[0]].name}, {codec: codecKinds[pair[1]].name}}
					var want [2][][]byte
					id := 0
					send := func(k pk) {
						id++
						pay := core.Pattern(id, k.n)
						if k.ch < 4 && k.ch%2 == 0 {
							pay = codecKinds[pair[k.ch/2]].pay(id, k.n)
						}
						p.Conn.Feed(core.Frame(k.ch, core.RTP(k.marker, 96, id, 1, append([]byte(nil), pay...))))
						c.Trans(1)
						if k.ch == 0 || k.ch == 2 {
							want[k.ch/2] = append(want[k.ch/2], refs[k.ch/2].packet(k.marker, pay)...)
						}
					}
					for _, s := range bt {
						c.State(pair, s)
						c.Nontrivial()
						for _, i := range s {
							send(alpha[i])
						}
						core.Quiesce()
						for tr := 0; tr < 2; tr++ {
							got, err := p.Units(2 * tr)
							if err == nil {
								err = core.SameBytes(got, want[tr])
							}
							if err != nil {
								return fmt.Errorf("sequence %v, channel %d: %v", s, 2*tr, err)
							}
						}
						// complete pending marker-framed units
						send(pk{0, true, 2})
						send(pk{2, true, 2})
					}
					core.Quiesce()
					if all, err := p.Units(-1); err != nil {
						return err
					} else if len(all) != len(want[0])+len(want[1]) {
						return fmt.Errorf("%d units in all, want %d", len(all), len(want[0])+len(want[1]))
					}
					return nil
				})
			})
		}
		core.Tuples(len(alpha), 1, depth, func(t []int) {
			batch = append(batch, append([]int(nil), t...))
			if len(batch) == 128 {
				flush()
			}
		})
		flush()
	}

	for _, k := range codecKinds {
		if k.name == "H264" || k.name == "H265" {
			continue // C02, C03
		}
		lists := [][][]byte{{k.pay(1, 3), k.pay(2, 1), k.pay(3, 200)}, {k.pay(4, 1), k.pay(5, 2)}}
		markers := 4
		if k.name == "bbw" {
			markers = 1 // an unfinished unit would run into the next stream
		}
		rtpHeaders(c, k.name, k.mk(0), lists, markers, func(l, m int) [][]byte {
			r := &refTrack{codec: k.name}
			var w [][]byte
			for i, p := range lists[l] {
				w = append(w, r.packet(marked(m, i, len(lists[l])), p)...)
			}
			return w
		})
	}
}
