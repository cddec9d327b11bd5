package core

import (
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"net"
	"strings"

	"github.com/gorilla/websocket"
)

// WsMsg is one websocket message (or control frame) the client sent.
type WsMsg struct {
	Op      byte
	Payload []byte
}

// WsServer is the server's end of an in-memory websocket: T is the transport
// the client Dials, In the byte stream a Peer's server sees and feeds.
type WsServer struct {
	T        *Conn
	In       *Conn
	Upgraded bool
	Reply    func(key string) []byte // answer to the upgrade request; nil: the right one
	Head     string                  // the upgrade request
	Msgs     []WsMsg
	Bad      []string
	Raw      bool // what In is fed is raw websocket bytes, not messages
	acc      []byte
	part     []byte
	partOp   byte
	OnDial   func()
	Dials    []string
}

func WsAccept(key string) string {
	h := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(h[:])
}

func WsUpgrade(key string) []byte {
	return []byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + WsAccept(key) + "\r\n\r\n")
}

func NewWsServer(in *Conn) *WsServer {
	w := &WsServer{T: NewConn(), In: in}
	w.T.OnWrite = w.onWrite
	return w
}

// Install makes the client's websocket dialer return this server's transport.
func (w *WsServer) Install() {
	websocket.DefaultDialer.Proxy = nil
	websocket.DefaultDialer.NetDial = func(network, addr string) (net.Conn, error) {
		w.Dials = append(w.Dials, addr)
		if w.OnDial != nil {
			w.OnDial()
		}
		return w.T, nil
	}
}

func (w *WsServer) onWrite(b []byte) {
	w.acc = append(w.acc, b...)
	if !w.Upgraded {
		i := bytes.Index(w.acc, []byte("\r\n\r\n"))
		if i < 0 {
			return
		}
		w.Head = string(w.acc[:i+4])
		w.acc = w.acc[i+4:]
		key := ""
		for _, l := range strings.Split(w.Head, "\r\n") {
			if f := strings.SplitN(l, ":", 2); len(f) == 2 && strings.EqualFold(f[0], "Sec-WebSocket-Key") {
				key = strings.TrimSpace(f[1])
			}
		}
		w.Upgraded = true
		if w.Reply != nil {
			w.T.Feed(w.Reply(key))
		} else {
			w.T.Feed(WsUpgrade(key))
		}
	}
	for {
		n, op, fin, payload, err := WsParse(w.acc)
		if err != nil {
			w.Bad = append(w.Bad, err.Error())
			w.acc = nil
			return
		}
		if n == 0 {
			return
		}
		w.acc = w.acc[n:]
		if op >= 8 {
			w.Msgs = append(w.Msgs, WsMsg{op, payload})
			continue
		}
		if op != 0 {
			w.partOp, w.part = op, nil
		}
		w.part = append(w.part, payload...)
		if fin {
			w.Msgs = append(w.Msgs, WsMsg{w.partOp, w.part})
			w.In.Write(w.part)
			w.Pump()
		}
	}
}

// Pump passes on what the Peer's server fed.
func (w *WsServer) Pump() {
	for _, s := range w.In.TakeSegs() {
		if w.Raw {
			w.T.Feed(s)
		} else {
			w.T.Feed(WsFrame(2, true, s))
		}
	}
	if err := w.In.EOFErr(); err != nil {
		w.T.EOF(err)
	}
}

// WsParse takes one client frame from b (n == 0: incomplete).
func WsParse(b []byte) (n int, op byte, fin bool, payload []byte, err error) {
	if len(b) < 2 {
		return
	}
	fin, op = b[0]&0x80 != 0, b[0]&15
	if b[0]&0x70 != 0 {
		err = fmt.Errorf("reserved bits in a frame: %x", b[0])
		return
	}
	if b[1]&0x80 == 0 {
		err = fmt.Errorf("unmasked client frame")
		return
	}
	l, p := int(b[1]&0x7f), 2
	switch l {
	case 126:
		if len(b) < 4 {
			return
		}
		l, p = int(binary.BigEndian.Uint16(b[2:])), 4
	case 127:
		if len(b) < 10 {
			return
		}
		l, p = int(binary.BigEndian.Uint64(b[2:])), 10
	}
	if len(b) < p+4+l {
		return
	}
	payload = make([]byte, l)
	for i := range payload {
		payload[i] = b[p+4+i] ^ b[p+i%4]
	}
	return p + 4 + l, op, fin, payload, nil
}

// WsFrame builds a server frame.
func WsFrame(op byte, fin bool, payload []byte) []byte {
	h := []byte{op}
	if fin {
		h[0] |= 0x80
	}
	switch l := len(payload); {
	case l < 126:
		h = append(h, byte(l))
	case l < 65536:
		h = append(h, 126, byte(l>>8), byte(l))
	default:
		h = append(h, 127)
		h = binary.BigEndian.AppendUint64(h, uint64(l))
	}
	return append(h, payload...)
}
