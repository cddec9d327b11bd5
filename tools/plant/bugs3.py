B('c24-shared-payload','C24',[('rtpparser.go','		payloadBuf:       make([]byte, MaxPayloadLength),\n','		payloadBuf:       payloadBufOf(codecName),\n'),
('rtpparser.go','func newRtpParser(codecName string) *RtpParser {\n','''
// assembled units are copied before they are handed out, so that the tracks of
// a codec which cannot be under way together need not have 8 MB each
var payloadBufs sync.Map

func payloadBufOf(codecName string) []byte {
	if "" == codecName {
		return make([]byte, MaxPayloadLength)
	}
	buf, _ := payloadBufs.LoadOrStore(codecName, make([]byte, MaxPayloadLength))
	return buf.([]byte)
}

func newRtpParser(codecName string) *RtpParser {
'''),('rtpparser.go','	"strings"\n','	"strings"\n	"sync"\n')],
 'two sessions of one process with a fragmented unit each under way at the same time','fragments of one session show in a unit of another','root',r'''
func TestDemo(t *testing.T) {
	a, b := newClient(t), newClient(t)
	p := a.play("rtsp://h:1/x", describe(media(0, "H264")))
	q := b.play("rtsp://h:1/y", describe(media(0, "H264")))
	p.write(frame(0, rtp(false, []byte{0x7c, 0x85, 1, 1, 1})))
	time.Sleep(50 * time.Millisecond)
	q.write(frame(0, rtp(false, []byte{0x7c, 0x85, 2, 2, 2})))
	time.Sleep(50 * time.Millisecond)
	p.write(frame(0, rtp(true, []byte{0x7c, 0x45, 3})))
	got := a.waitData(1)
	if len(got) != 1 || !bytes.Equal(got[0].data, []byte{0x65, 1, 1, 1, 3}) {
		t.Fatalf("%x", got)
	}
}''',['bytes','time'])
B('c24-read-buffer','C24',[(TN,'''
	// default buffer
	buf := make([]byte, connection.streamProtocol.GetHeaderLength()+connection.maxReadBufferLength)

	for {
		data, err := connection.unpack(buf)
''','''
	for {
		// packets are copied out of the buffer, it need not be kept
		length := connection.streamProtocol.GetHeaderLength() + connection.maxReadBufferLength
		buf, ok := readBuffers.Get().([]byte)
		if !ok || len(buf) < length {
			buf = make([]byte, length)
		}
		readBuffers.Put(buf)
		data, err := connection.unpack(buf)
'''),(TN,'// Connection TCP connection context\n','// readBuffers holds the buffers packets are read into\nvar readBuffers sync.Pool\n\n// Connection TCP connection context\n'),(TN,'	"net"\n	"time"\n','	"net"\n	"sync"\n	"time"\n')],
 'two connections of one process with a packet each which is half received','a packet of one connection has bytes of another','root',r'''
func TestDemo(t *testing.T) {
	for n := 0; n < 20; n++ {
		a, b := newClient(t), newClient(t)
		p := a.play("rtsp://h:1/x", describe(media(0, "X")))
		q := b.play("rtsp://h:1/y", describe(media(0, "X")))
		x, y := frame(0, rtp(true, fill(100, 3))), frame(0, rtp(true, fill(100, 9)))
		p.write(x[:50])
		time.Sleep(5 * time.Millisecond)
		q.write(y[:70])
		time.Sleep(5 * time.Millisecond)
		p.write(x[50:])
		q.write(y[70:])
		g, h := a.waitData(1), b.waitData(1)
		if len(g) != 1 || !bytes.Equal(g[0].data, fill(100, 3)) || len(h) != 1 || !bytes.Equal(h[0].data, fill(100, 9)) {
			t.Fatalf("%x %x", g, h)
		}
		p.c.Close()
		q.c.Close()
	}
}''',['bytes','time'])
B('c24-parser-state','C24',[('h264rtpparser.go','type H264RtpParser struct {\n}\n','type H264RtpParser struct {\n	packetType byte // of the packet under way\n}\n'),
('h264rtpparser.go','	packetNALUnitType := (rtpData[0] & 0x1f)\n	if','	packetNALUnitType := (rtpData[0] & 0x1f)\n	rtpParser.packetType = packetNALUnitType\n	if'),
('h264rtpparser.go','''
	naluHeader := header[RtpHeaderLen:]
	packetNALUnitType := naluHeader[0] & 0x1f

	switch packetNALUnitType {
''','''
	switch rtpParser.packetType {
'''),('rtpparser.go','			return &H264RtpParser{}\n','			return h264RtpParser\n'),
('rtpparser.go','func getRTPSourceHandler(','var h264RtpParser = &H264RtpParser{}\n\nfunc getRTPSourceHandler(')],
 'a data handler which is between two units of an aggregate when another session receives a packet of another kind','the rest of the aggregate is not unpacked','root',r'''
func TestDemo(t *testing.T) {
	a, b := newClient(t), newClient(t)
	p := a.play("rtsp://h:1/x", describe(media(0, "H264")))
	q := b.play("rtsp://h:1/y", describe(media(0, "H264")))
	first := true
	a.onData = func(d *rtspclient.RtspData) {
		if first {
			first = false
			q.write(frame(0, rtp(true, []byte{0x41, 9})))
			b.waitData(1)
		}
	}
	p.write(frame(0, rtp(true, []byte{0x78, 0, 2, 0x67, 1, 0, 2, 0x68, 2})))
	got := a.waitData(2)
	if len(got) != 2 || !bytes.Equal(got[0].data, []byte{0x67, 1}) || !bytes.Equal(got[1].data, []byte{0x68, 2}) {
		t.Fatalf("%x", got)
	}
}''',['bytes','github.com/NodeBoy2/rtspclient'])
B('c24-realm-cache','C24',[('authenticator.go','''
func NewAuthenticator() *Authenticator {
	return &Authenticator{
		authenicatorType: AuthenticatorTypeNone,
	}
}
''','''
var (
	authenticators      = map[int]*Authenticator{}
	authenticatorsMutex sync.Mutex
)

// NewAuthenticator returns the authenticator for the realm to be set. There is
// one for each number of realms which are known.
func NewAuthenticator() *Authenticator {
	authenticatorsMutex.Lock()
	defer authenticatorsMutex.Unlock()
	authenticator, ok := authenticators[len(authenticators)/2]
	if !ok || AuthenticatorTypeBasic == authenticator.authenicatorType {
		authenticator = &Authenticator{authenicatorType: AuthenticatorTypeNone}
		authenticators[len(authenticators)/2] = authenticator
	}
	return authenticator
}
'''),('authenticator.go','	"fmt"\n','	"fmt"\n	"sync"\n')],
 'two sessions of one process under the same realm with different credentials, one challenged while the other plays','requests of one session carry the credentials of the other','root',r'''
func TestDemo(t *testing.T) {
	a, b := newClient(t), newClient(t)
	chal := func(n string) string { return "WWW-Authenticate: Digest realm=\"r\", nonce=\"" + n + "\"\r\n" }
	p, done := a.connect("rtsp://ann:x@h:1/x")
	p.reply(p.must("DESCRIBE"), 401, chal("n1"), "")
	p.reply(p.must("DESCRIBE"), 200, "", describe(media(0, "X")))
	s := p.must("SETUP")
	q, done2 := b.connect("rtsp://joe:y@h2:1/y")
	q.reply(q.must("DESCRIBE"), 401, chal("n2"), "")
	q.reply(q.must("DESCRIBE"), 404, "", "")
	wait(t, done2)
	p.reply(s, 200, "Session: 1\r\n", "")
	r := p.must("PLAY")
	if !strings.Contains(r.head["authorization"], "username=\"ann\"") || !strings.Contains(r.head["authorization"], "nonce=\"n1\"") {
		t.Fatal(r.raw)
	}
	p.reply(r, 200, "", "")
	wait(t, done)
}''',['strings'])
