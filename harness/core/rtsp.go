package core

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/NodeBoy2/rtspclient"
)

// Request is a request as a server would parse it.
type Request struct {
	Method, URI, Proto string
	Header             map[string][]string // upper-cased names
	Raw                string
}

// Get returns the first value of a header, trimmed.
func (r Request) Get(name string) string {
	v := r.Header[strings.ToUpper(name)]
	if len(v) == 0 {
		return ""
	}
	return v[0]
}

// Has reports whether the header is present.
func (r Request) Has(name string) bool { return len(r.Header[strings.ToUpper(name)]) > 0 }

// CSeq returns the CSeq number or -1.
func (r Request) CSeq() int {
	n, err := strconv.Atoi(r.Get("CSeq"))
	if err != nil {
		return -1
	}
	return n
}

// ControlURL is the URL of a SETUP request: an absolute control URL as it is,
// that of the presentation for "*" and without one, any other one behind it.
func ControlURL(url, control string) string {
	if control == "" || control == "*" {
		return url
	}
	if i := strings.Index(control, "://"); i >= 0 && strings.EqualFold(control[:i], "rtsp") {
		return control
	}
	return strings.TrimSuffix(url, "/") + "/" + control
}

// ParseRequest parses one complete request (up to and including the blank
// line); it returns an error when it is not well-formed RTSP/1.0.
func ParseRequest(raw string) (Request, error) {
	r := Request{Header: map[string][]string{}, Raw: raw}
	if !strings.HasSuffix(raw, "\r\n\r\n") {
		return r, fmt.Errorf("no blank line at the end of %q", raw)
	}
	lines := strings.Split(strings.TrimSuffix(raw, "\r\n\r\n"), "\r\n")
	for _, l := range lines {
		if strings.ContainsAny(l, "\r\n") {
			return r, fmt.Errorf("bare CR or LF in %q", l)
		}
	}
	f := strings.Split(lines[0], " ")
	if len(f) != 3 || f[0] == "" || f[1] == "" {
		return r, fmt.Errorf("bad request line %q", lines[0])
	}
	r.Method, r.URI, r.Proto = f[0], f[1], f[2]
	if r.Proto != "RTSP/1.0" {
		return r, fmt.Errorf("bad protocol version in %q", lines[0])
	}
	for _, l := range lines[1:] {
		i := strings.IndexByte(l, ':')
		if i <= 0 {
			return r, fmt.Errorf("bad header line %q", l)
		}
		k := strings.ToUpper(strings.TrimSpace(l[:i]))
		if strings.ContainsAny(k, " \t") {
			return r, fmt.Errorf("bad header name %q", l)
		}
		if strings.Contains(l, "%!") {
			return r, fmt.Errorf("formatting artefact in %q", l)
		}
		r.Header[k] = append(r.Header[k], strings.TrimSpace(l[i+1:]))
	}
	return r, nil
}

// Deliv is one unit handed to the data handler.
type Deliv struct {
	Ch      int
	Data    []byte // the slice handed over, kept (not copied)
	Copy    []byte // a copy taken at delivery time
	Session *rtspclient.RtspClientSession
}

// Peer drives one RtspClientSession against an in-memory server.
type Peer struct {
	S      *rtspclient.RtspClientSession
	Conn   *Conn
	mu     sync.Mutex
	Reqs   []Request
	ReqAt  []time.Time
	Base   int      // index in Reqs of the first request of the current connection
	Bad    []string // malformed requests
	acc    []byte
	Events []int
	EvLog  []string // events and deliveries in order
	Data   []Deliv
	EvSess []*rtspclient.RtspClientSession
	// Answer is called for every request; it may Feed/EOF the connection.
	Answer func(p *Peer, r Request)
	// OnEv runs on the handler's goroutine after an event was recorded
	OnEv func(e int)
	// OnData runs on the handler's goroutine after a delivery was recorded
	OnData func()
	// Handle runs on the handler's goroutine after the i-th delivery was
	// recorded, and may do with the data what it likes
	Handle   func(i int, d *rtspclient.RtspData)
	Returned bool
	RetAt    time.Time
	Err      error
	Done     chan struct{}
}

// NewPeer builds a session with recording handlers.
func NewPeer() *Peer {
	p := &Peer{Conn: NewConn(), Done: make(chan struct{})}
	p.S = rtspclient.NewRtspClientSession(p.onData, p.onEvent)
	p.Wire()
	return p
}

// NewPeerWith builds a session with only some of the handlers, the others are nil.
func NewPeerWith(data, event bool) *Peer {
	p := &Peer{Conn: NewConn(), Done: make(chan struct{})}
	var d func(*rtspclient.RtspData)
	var e func(*rtspclient.RtspEvent)
	if data {
		d = p.onData
	}
	if event {
		e = p.onEvent
	}
	p.S = rtspclient.NewRtspClientSession(d, e)
	p.Wire()
	return p
}

// Wire attaches the reactive server to the current connection.
func (p *Peer) Wire() {
	p.acc = nil
	p.Base = len(p.Reqs)
	p.Conn.OnWrite = func(b []byte) {
		p.mu.Lock()
		p.acc = append(p.acc, b...)
		var reqs []Request
		for {
			i := bytes.Index(p.acc, []byte("\r\n\r\n"))
			if i < 0 {
				break
			}
			raw := string(p.acc[:i+4])
			p.acc = p.acc[i+4:]
			r, err := ParseRequest(raw)
			if err != nil {
				p.Bad = append(p.Bad, err.Error())
			}
			p.Reqs = append(p.Reqs, r)
			p.ReqAt = append(p.ReqAt, time.Now())
			reqs = append(reqs, r)
		}
		f := p.Answer
		p.mu.Unlock()
		for _, r := range reqs {
			if f != nil {
				f(p, r)
			}
		}
	}
}

func (p *Peer) onData(d *rtspclient.RtspData) {
	hook("data")
	p.mu.Lock()
	defer p.mu.Unlock()
	p.Data = append(p.Data, Deliv{d.ChannelNum, d.Data, append([]byte(nil), d.Data...), d.Session})
	p.EvLog = append(p.EvLog, fmt.Sprintf("data%d", d.ChannelNum))
	i := len(p.Data) - 1
	if f := p.OnData; f != nil {
		p.mu.Unlock()
		f()
		p.mu.Lock()
	}
	if f := p.Handle; f != nil {
		p.mu.Unlock()
		f(i, d)
		p.mu.Lock()
	}
}

func (p *Peer) onEvent(e *rtspclient.RtspEvent) {
	hook("event")
	p.mu.Lock()
	defer p.mu.Unlock()
	p.Events = append(p.Events, e.EventType)
	p.EvSess = append(p.EvSess, e.Session)
	p.EvLog = append(p.EvLog, EventName(e.EventType))
	f := p.OnEv
	p.mu.Unlock()
	if f != nil {
		f(e.EventType)
	}
	p.mu.Lock()
}

// EventName names a session event.
func EventName(t int) string {
	switch t {
	case rtspclient.RtspEventRequestSuccess:
		return "success"
	case rtspclient.RtspEventRequestError:
		return "error"
	case rtspclient.RtspEventDisconnected:
		return "disconnected"
	}
	return fmt.Sprintf("event%d", t)
}

// CountEv counts events of a type.
func (p *Peer) CountEv(t int) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := 0
	for _, e := range p.Events {
		if e == t {
			n++
		}
	}
	return n
}

// NumReqs is the number of requests received so far.
func (p *Peer) NumReqs() int { p.mu.Lock(); defer p.mu.Unlock(); return len(p.Reqs) }

// Methods lists the request methods received.
func (p *Peer) Methods() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	var m []string
	for _, r := range p.Reqs {
		m = append(m, r.Method)
	}
	return strings.Join(m, " ")
}

// Start runs ParsingURL + SetConnection on its own goroutine.
func (p *Peer) Start(url string) error {
	if err := p.S.ParsingURL(url); err != nil {
		return err
	}
	p.Go(func() error { return p.S.SetConnection(p.Conn) })
	return nil
}

// Go runs one blocking client call on its own goroutine.
func (p *Peer) Go(f func() error) {
	p.mu.Lock()
	p.Done = make(chan struct{})
	done := p.Done
	p.Returned = false
	p.mu.Unlock()
	go func() {
		err := f()
		p.mu.Lock()
		p.RetAt = time.Now()
		p.Err, p.Returned = err, true
		p.mu.Unlock()
		close(done)
	}()
}

// Wait waits (virtual time) for the call started last.
func (p *Peer) Wait(max time.Duration) bool {
	select {
	case <-p.Done:
		return true
	case <-time.After(max):
		return false
	}
}

// Hangup ends the connection from the server side and lets the client finish.
func (p *Peer) Hangup() {
	p.Conn.EOF(io.EOF)
	Quiesce()
}

// Resp formats a response.
func Resp(status int, cseq int, headers []string, body string) string {
	reason := map[int]string{200: "OK", 401: "Unauthorized", 404: "Not Found"}[status]
	if reason == "" {
		reason = "Status"
	}
	s := fmt.Sprintf("RTSP/1.0 %d %s\r\nCSeq: %d\r\n", status, reason, cseq)
	for _, h := range headers {
		s += h + "\r\n"
	}
	if body != "" {
		s += fmt.Sprintf("Content-Length: %d\r\n", len(body))
	}
	return s + "\r\n" + body
}

// Track describes one media of the test SDP.
type Track struct {
	Kind, Codec, Control string
	PT                   int
	Extra                []string // further attribute lines
}

// SDP builds a session description for the tracks.
func SDP(tracks []Track) string {
	s := "v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=test\r\nt=0 0\r\n"
	for _, t := range tracks {
		s += fmt.Sprintf("m=%s 0 RTP/AVP %d\r\n", t.Kind, t.PT)
		if t.Codec != "" {
			s += fmt.Sprintf("a=rtpmap:%d %s/90000\r\n", t.PT, t.Codec)
		}
		if t.Control != "" {
			s += "a=control:" + t.Control + "\r\n"
		}
		for _, e := range t.Extra {
			s += e + "\r\n"
		}
	}
	return s
}

// GoodServer answers every request with success.
func GoodServer(tracks []Track, session string) func(p *Peer, r Request) {
	return func(p *Peer, r Request) {
		switch r.Method {
		case "DESCRIBE":
			p.Conn.Feed([]byte(Resp(200, r.CSeq(), []string{"Content-Type: application/sdp"}, SDP(tracks))))
		case "SETUP":
			p.Conn.Feed([]byte(Resp(200, r.CSeq(), []string{"Session: " + session, "Transport: " + r.Get("Transport")}, "")))
		default:
			p.Conn.Feed([]byte(Resp(200, r.CSeq(), []string{"Session: " + session}, "")))
		}
	}
}

// Frame builds an interleaved frame.
func Frame(ch int, payload []byte) []byte {
	return append([]byte{'$', byte(ch), byte(len(payload) >> 8), byte(len(payload))}, payload...)
}

// RTP builds an RTP packet with the fixed 12-byte header.
func RTP(marker bool, pt int, seq int, ts uint32, payload []byte) []byte {
	m := byte(pt)
	if marker {
		m |= 0x80
	}
	h := []byte{0x80, m, byte(seq >> 8), byte(seq), byte(ts >> 24), byte(ts >> 16), byte(ts >> 8), byte(ts), 0x11, 0x22, 0x33, 0x44}
	return append(h, payload...)
}

// Outcome is the sequence of events and deliveries, as text.
func (p *Peer) Log() string { p.mu.Lock(); defer p.mu.Unlock(); return strings.Join(p.EvLog, " ") }

// URL-less description of what the server saw, for comparing runs: CSeq relative
// to the first request of the connection.
func (p *Peer) Trace(from int) []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	var out []string
	base := 0
	for i, r := range p.Reqs[from:] {
		if i == 0 {
			base = r.CSeq()
		}
		s := r.Method + " " + r.URI + " #" + strconv.Itoa(r.CSeq()-base)
		var ks []string
		for k := range r.Header {
			if k != "CSEQ" {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			s += " | " + k + "=" + strings.Join(r.Header[k], ",")
		}
		out = append(out, s)
	}
	return out
}

// CheckWire verifies that everything written was complete well-formed requests
// with consecutive CSeq.
func (p *Peer) CheckWire() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.Bad) > 0 {
		return fmt.Errorf("malformed request: %s", p.Bad[0])
	}
	if len(p.acc) > 0 {
		return fmt.Errorf("incomplete request on the wire: %q", p.acc)
	}
	for i, r := range p.Reqs {
		if len(r.Header["CSEQ"]) != 1 || r.CSeq() < 0 {
			return fmt.Errorf("CSeq of request %d: %v", i, r.Header["CSEQ"])
		}
		if i > 0 && r.CSeq() != p.Reqs[i-1].CSeq()+1 {
			return fmt.Errorf("CSeq %d after %d", r.CSeq(), p.Reqs[i-1].CSeq())
		}
	}
	return nil
}
