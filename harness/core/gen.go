package core

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient"
	"github.com/NodeBoy2/rtspclient/tcpnetwork"
)

// Cut splits stream at the given increasing offsets.
func Cut(stream []byte, at ...int) [][]byte {
	var r [][]byte
	last := 0
	for _, a := range at {
		if a > last && a < len(stream) {
			r = append(r, stream[last:a])
			last = a
		}
	}
	return append(r, stream[last:])
}

// Bytewise splits stream into single bytes.
func Bytewise(stream []byte) [][]byte {
	r := make([][]byte, len(stream))
	for i := range stream {
		r[i] = stream[i : i+1]
	}
	return r
}

// SegLens describes a segmentation.
func SegLens(segs [][]byte) string {
	if len(segs) > 12 {
		return fmt.Sprintf("%d segments", len(segs))
	}
	var s []string
	for _, x := range segs {
		s = append(s, fmt.Sprint(len(x)))
	}
	return strings.Join(s, "+")
}

// Tuples calls f with every sequence of length lo..hi over 0..n-1; f must not keep it.
func Tuples(n, lo, hi int, f func(t []int)) {
	var rec func(t []int)
	rec = func(t []int) {
		if len(t) >= lo {
			f(t)
		}
		if len(t) == hi {
			return
		}
		for i := 0; i < n; i++ {
			rec(append(t, i))
		}
	}
	rec(make([]int, 0, hi))
}

// Product calls f with every choice of one index below each size.
func Product(sizes []int, f func(ix []int)) {
	ix := make([]int, len(sizes))
	for {
		f(ix)
		i := len(ix) - 1
		for ; i >= 0; i-- {
			ix[i]++
			if ix[i] < sizes[i] {
				break
			}
			ix[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// Pattern makes n bytes that identify id and offset.
func Pattern(id, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8*13 + id*31 + 1)
	}
	return b
}

// SameBytes compares lists of byte strings.
func SameBytes(got, want [][]byte) error {
	for i := 0; i < len(got) && i < len(want); i++ {
		if !bytes.Equal(got[i], want[i]) {
			return fmt.Errorf("unit %d: got %s, want %s", i, Hex(got[i]), Hex(want[i]))
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("got %d units, want %d (got %s want %s)", len(got), len(want), hexes(got), hexes(want))
	}
	return nil
}

func hexes(b [][]byte) string {
	var s []string
	for i, x := range b {
		if i == 6 {
			s = append(s, "...")
			break
		}
		s = append(s, Hex(x))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// Hex formats bytes, abridged.
func Hex(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..%x(%d bytes)", b[:12], b[len(b)-6:], len(b))
	}
	return fmt.Sprintf("%x(%d bytes)", b, len(b))
}

// NetEv is one event of a tcpnetwork connection.
type NetEv struct {
	Type int
	Data []byte
	Conn *tcpnetwork.Connection
	At   time.Duration
}

// NetName names an event type of tcpnetwork.
func NetName(t int) string {
	switch t {
	case tcpnetwork.ConnEventConnected:
		return "connected"
	case tcpnetwork.ConnEventDisconnected:
		return "disconnected"
	case tcpnetwork.ConnEventData:
		return "data"
	case tcpnetwork.ConnEventClose:
		return "close"
	}
	return fmt.Sprint("event", t)
}

// NetNames names an event list.
func NetNames(evs []NetEv) string {
	var s []string
	for _, e := range evs {
		s = append(s, NetName(e.Type))
	}
	return strings.Join(s, " ")
}

// Playing runs body inside a bubble on a session that has completed its
// handshake, then hangs up and checks the end of the session.
func (c *Ctx) Playing(tracks []Track, body func(p *Peer) error) error {
	return Bubble(c.T, func() error {
		p := NewPeer()
		p.Answer = GoodServer(tracks, "47112344")
		if err := p.Start("rtsp://host/stream"); err != nil {
			return fmt.Errorf("ParsingURL: %v", err)
		}
		if !p.Wait(30 * time.Second) {
			return fmt.Errorf("the handshake did not end in 30 s")
		}
		if p.Err != nil {
			return fmt.Errorf("handshake failed: %v (requests: %s)", p.Err, p.Methods())
		}
		err := body(p)
		p.Hangup()
		if err == nil {
			if n := p.CountEv(rtspclient.RtspEventDisconnected); n != 1 {
				err = fmt.Errorf("%d disconnected events after the server closed", n)
			}
		}
		return err
	})
}

// Units returns the deliveries of one channel (-1: all), and fails when a
// delivered slice was changed after its delivery.
func (p *Peer) Units(ch int) ([][]byte, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	var r [][]byte
	for i, d := range p.Data {
		if !bytes.Equal(d.Data, d.Copy) {
			return nil, fmt.Errorf("delivered unit %d was changed later: %s, was %s", i, Hex(d.Data), Hex(d.Copy))
		}
		if d.Session != p.S {
			return nil, fmt.Errorf("unit %d delivered for another session", i)
		}
		if ch < 0 || d.Ch == ch {
			r = append(r, d.Copy)
		}
	}
	return r, nil
}
