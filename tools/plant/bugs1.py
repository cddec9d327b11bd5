TN='tcpnetwork/tcpnetwork.go'
B('c01-length-sign','C01',[('rtpstreamprotocol.go','		var len uint16\n','		var len int16\n')],
 'an interleaved frame of 32768 bytes or more','the frame length is read as a signed number, so frames from 32768 bytes on break the connection','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "X")))
	for _, n := range []int{40000, 20, 32767} {
		go p.write(frame(0, rtp(true, fill(n, 3))))
	}
	got := c.waitData(3)
	if len(got) != 3 {
		t.Fatalf("%d of 3 packets", len(got))
	}
}''')
B('c01-largest-frame','C01',[(TN,'		if packetLength > connection.maxReadBufferLength {','		if bufStartPos+packetLength > connection.maxReadBufferLength {')],
 'a frame of 65532 to 65535 bytes','the largest frames are refused: the limit counts the frame header too','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "X")))
	pay := fill(65535-12, 9)
	go p.write(frame(0, rtp(true, pay)))
	got := c.waitData(1)
	if len(got) != 1 || !bytes.Equal(got[0].data, pay) {
		t.Fatalf("%d units", len(got))
	}
}''',['bytes'])
B('c01-last-blank-line','C01',[('rtspparser.go','rtspEndPos := strings.Index(string(response), "\\r\\n\\r\\n")','rtspEndPos := strings.LastIndex(string(response), "\\r\\n\\r\\n")')],
 'a body which contains a blank line','the last blank line of a response, not the first, is taken for the end of its headers','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p, done := c.connect("rtsp://h:1/x")
	p.handshake(describe(media(0, "X")) + "\r\n\r\na=x:1\r\n")
	if err := wait(t, done); err != nil {
		t.Fatal(err)
	}
	_ = p
}''')
B('c02-shared-buffer','C02',[('rtpparser.go','''
		payloadBuf:       make([]byte, MaxPayloadLength),
''','''
		payloadBuf:       payloadPool,
'''),('rtpparser.go','''
func newRtpParser(codecName string) *RtpParser {
''','''
// payloadPool saves 8 MB per track
var payloadPool = make([]byte, MaxPayloadLength)

func newRtpParser(codecName string) *RtpParser {
''')],'fragments of two tracks which interleave','all tracks accumulate their fragments in one buffer','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "H264"), media(1, "H264")))
	go func() {
		p.write(frame(0, rtp(false, []byte{0x7c, 0x85, 1, 2, 3})))
		p.write(frame(2, rtp(false, []byte{0x7c, 0x81, 9, 8, 7})))
		p.write(frame(0, rtp(true, []byte{0x7c, 0x45, 4, 5})))
		p.write(frame(2, rtp(true, []byte{0x7c, 0x41, 6})))
	}()
	got := c.waitData(2)
	if len(got) != 2 || !bytes.Equal(got[0].data, []byte{0x65, 1, 2, 3, 4, 5}) || !bytes.Equal(got[1].data, []byte{0x61, 9, 8, 7, 6}) {
		t.Fatalf("%v", got)
	}
}''',['bytes'])
B('c02-alias','C02',[('rtpparser.go','''
	if rtpParser.isMarkFrame {
		data := make([]byte, rtpParser.payloadLen)
		copy(data, rtpParser.payloadBuf[:rtpParser.payloadLen])
''','''
	if rtpParser.isMarkFrame {
		data := rtpParser.payloadBuf[:rtpParser.payloadLen]
''')],'a handler which keeps a unit until the next packet','delivered units share the accumulation buffer','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "H264")))
	go func() {
		p.write(frame(0, rtp(true, []byte{0x65, 1, 2, 3})))
		p.write(frame(0, rtp(true, []byte{0x61, 7, 7, 7})))
	}()
	got := c.waitData(2)
	if len(got) != 2 || !bytes.Equal(got[0].data, []byte{0x65, 1, 2, 3}) {
		t.Fatalf("%v", got)
	}
}''',['bytes'])
B('c02-forbidden-bit','C02',[('h264rtpparser.go','(rtpData[0] & 0xe0)','(rtpData[0] & 0x60)')],
 'a fragmented unit with the F bit set','the F bit of a fragmented unit is lost','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "H264")))
	go func() {
		p.write(frame(0, rtp(false, []byte{0xfc, 0x85, 1})))
		p.write(frame(0, rtp(true, []byte{0xfc, 0x45, 2})))
	}()
	got := c.waitData(1)
	if len(got) != 1 || !bytes.Equal(got[0].data, []byte{0xe5, 1, 2}) {
		t.Fatalf("%v", got)
	}
}''',['bytes'])
B('c03-layer-id','C03',[('hevcrtpparser.go','(rtpData[0] & 0x81)','(rtpData[0] & 0x80)')],
 'a fragmented unit with a layer id of 32 or more','the top bit of the layer id is lost','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "H265")))
	go func() {
		p.write(frame(0, rtp(false, []byte{49<<1 | 1, 0x0b, 0x80 | 19, 1})))
		p.write(frame(0, rtp(true, []byte{49<<1 | 1, 0x0b, 0x40 | 19, 2})))
	}()
	got := c.waitData(1)
	if len(got) != 1 || !bytes.Equal(got[0].data, []byte{19<<1 | 1, 0x0b, 1, 2}) {
		t.Fatalf("%v", got)
	}
}''',['bytes'])
B('c03-header-only','C03',[('hevcrtpparser.go','	if len(src) < RtpHeaderLen+2 {\n','	if len(src) <= RtpHeaderLen+2 {\n')],
 'a unit which is nothing but its two-byte header (end of sequence, end of bitstream)','units of two bytes are dropped','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "H265")))
	go func() {
		p.write(frame(0, rtp(true, []byte{36 << 1, 1})))
		p.write(frame(0, rtp(true, []byte{1 << 1, 1, 5})))
	}()
	got := c.waitData(2)
	if len(got) != 2 || !bytes.Equal(got[0].data, []byte{36 << 1, 1}) {
		t.Fatalf("%v", got)
	}
}''',['bytes'])
B('c04-control-channel','C04',[('rtspclient.go','''
	rtpParser, ok := session.rtpChannelMap[channelNum]
''','''
	rtpParser, ok := session.rtpChannelMap[channelNum&^1]
''')],'a control packet of 12 bytes or more','control packets are taken for data of their track','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "X")))
	go func() {
		p.write(frame(1, rtp(true, []byte{1, 2, 3})))
		p.write(frame(0, rtp(true, []byte{4})))
	}()
	got := c.waitData(1)
	if len(got) != 1 || got[0].ch != 0 {
		t.Fatalf("%v", got)
	}
}''')
B('c04-parser-per-codec','C04',[('rtspclient.go','''
		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)
''','''
		session.rtpChannelMap[rtpIndex] = session.parserOf(media.CodecName)
'''),('rtspclient.go','''
func (session *RtspClientSession) ParsingURL(''','''
// parserOf saves 8 MB for every further track of a codec
func (session *RtspClientSession) parserOf(codecName string) *RtpParser {
	for channel, media := range session.RtpMediaMap {
		if media.CodecName == codecName {
			return session.rtpChannelMap[channel]
		}
	}
	return newRtpParser(codecName)
}

func (session *RtspClientSession) ParsingURL(''')],'two tracks with the same codec, and interleaving fragments','tracks of one codec share one parser','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "bbw"), media(1, "bbw")))
	go func() {
		p.write(frame(0, rtp(false, []byte{1})))
		p.write(frame(2, rtp(false, []byte{2})))
		p.write(frame(0, rtp(true, []byte{3})))
		p.write(frame(2, rtp(true, []byte{4})))
	}()
	got := c.waitData(2)
	if len(got) != 2 || !bytes.Equal(got[0].data, []byte{1, 3}) || !bytes.Equal(got[1].data, []byte{2, 4}) {
		t.Fatalf("%v", got)
	}
}''',['bytes'])
B('c05-empty-h264','C05',[('h264rtpparser.go','	if len(src) < RtpHeaderLen+1 {\n','	if len(src) < RtpHeaderLen {\n')],
 'an RTP packet without payload on an H264 track','an H264 packet without payload crashes the process','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "H264")))
	go func() {
		p.write(frame(0, rtp(true, nil)))
		p.write(frame(0, rtp(true, []byte{0x65, 4})))
	}()
	if got := c.waitData(1); len(got) != 1 {
		t.Fatalf("%v", got)
	}
}''')
B('c05-size-too-large','C05',[('rtpparser.go','	if naluSize > len(payload)-naluHeaderSize {\n','	if naluSize-2*naluHeaderSize > len(payload) {\n')],
 'an aggregated unit whose size claims one to four bytes more than the packet has','a slightly too large size of an aggregated unit reads beyond the packet and crashes','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "H264")))
	go func() {
		for n := byte(1); n < 6; n++ {
			p.write(frame(0, rtp(true, []byte{24, 0, 2 + n, 0x65, 4})))
		}
		p.write(frame(0, rtp(true, []byte{0x61, 0x33})))
	}()
	ok := until(3*time.Second, func() bool {
		_, d := c.snapshot()
		for _, u := range d {
			if len(u.data) > 2 {
				t.Fatalf("more than was sent: %v", u.data)
			}
		}
		return len(d) > 0 && d[len(d)-1].data[len(d[len(d)-1].data)-1] == 0x33
	})
	if !ok {
		t.Fatal("the last unit does not arrive")
	}
}''',['time'])
B('c06-play-refused','C06',[('rtspclient.go','''
	if errorInfo = session.SendPlay(0, 1); nil != errorInfo {
		return errorInfo
	}
	response, errorInfo = session.WaitRtspResponse()
	if nil != errorInfo {
		return errorInfo
	}
''','''
	if errorInfo = session.SendPlay(0, 1); nil != errorInfo {
		return errorInfo
	}
	response, errorInfo = session.WaitRtspResponse()
	if nil != errorInfo {
		return errorInfo
	}
	sendRequestSuccess = true
'''),('rtspclient.go','''
	sendRequestSuccess = true
	return nil
}
''','''
	return nil
}
''')],'PLAY answered with something else than 200','the success event is reported although PLAY was refused','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p, done := c.connect("rtsp://h:1/x")
	p.reply(p.must("DESCRIBE"), 200, "", describe(media(0, "X")))
	p.reply(p.must("SETUP"), 200, "Session: 1\r\n", "")
	p.reply(p.must("PLAY"), 455, "", "")
	err := wait(t, done)
	ev, _ := c.snapshot()
	if err == nil || len(ev) != 1 || ev[0] != rtspclient.RtspEventRequestError {
		t.Fatalf("%v %v", err, ev)
	}
}''',['github.com/NodeBoy2/rtspclient'])
B('c06-any-2xx','C06',[('rtspclient.go','''
		if 200 != response.Status {
			return errors.New("response error: " + strconv.Itoa(response.Status))
		}
		session.rtspContext.sessionID = response.sessionID
''','''
		if 2 != response.Status/100 {
			return errors.New("response error: " + strconv.Itoa(response.Status))
		}
		session.rtspContext.sessionID = response.sessionID
''')],'SETUP answered with 201, 250 or another 2xx','a SETUP which was not answered with 200 does not end the handshake','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p, done := c.connect("rtsp://h:1/x")
	p.reply(p.must("DESCRIBE"), 200, "", describe(media(0, "X")))
	p.reply(p.must("SETUP"), 250, "Session: 1\r\n", "")
	if q := p.nextIn(300 * time.Millisecond); q != nil {
		t.Fatalf("%s after a SETUP answered with 250", q.method)
	}
	if err := wait(t, done); err == nil {
		t.Fatal("no error")
	}
}''',['time'])
B('c07-reverse-speed','C07',[('rtsprequest.go','	if inSpeed != 1 {\n','	if inSpeed > 1 {\n')],
 'PLAY with a speed of zero or below','speeds below one do not appear in the request','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "X")))
	go c.s.SendPlay(5, -2)
	q := p.must("PLAY")
	v, err := strconv.ParseFloat(q.head["speed"], 64)
	if err != nil || v != -2 {
		t.Fatal(q.raw)
	}
}''',['strconv'])
B('c08-teardown-digest','C08',[('rtsprequest.go','createAuthenticatorString("TEARDOWN", ','createAuthenticatorString("PLAY", ')],
 'a TEARDOWN in a session with digest authentication','the digest of TEARDOWN is computed for another method','root',r'''
func sum(s string) string { h := md5.Sum([]byte(s)); return hex.EncodeToString(h[:]) }

func TestDemo(t *testing.T) {
	c := newClient(t)
	p, done := c.connect("rtsp://joe:secret@h:1/x")
	p.reply(p.must("DESCRIBE"), 401, "WWW-Authenticate: Digest realm=\"r\", nonce=\"n\"\r\n", "")
	p.handshake(describe(media(0, "X")))
	if err := wait(t, done); err != nil {
		t.Fatal(err)
	}
	go c.s.Close()
	q := p.must("TEARDOWN")
	a := q.head["authorization"]
	uri := strings.SplitN(strings.SplitN(a, "uri=\"", 2)[1], "\"", 2)[0]
	if want := sum(sum("joe:r:secret") + ":n:" + sum("TEARDOWN:"+uri)); !strings.Contains(a, want) {
		t.Fatal(q.raw)
	}
}''',['crypto/md5','encoding/hex','strings'])
B('c08-basic-alphabet','C08',[('authenticator.go','base64.StdEncoding','base64.URLEncoding')],
 'credentials whose encoding contains + or /','basic credentials are encoded with the wrong alphabet','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p, done := c.connect("rtsp://joe:%3E%3E%3F%3F~~@h:1/x")
	p.reply(p.must("DESCRIBE"), 401, "WWW-Authenticate: Basic realm=\"r\"\r\n", "")
	q := p.must("DESCRIBE")
	if want := "Basic " + base64.StdEncoding.EncodeToString([]byte("joe:>>??~~")); q.head["authorization"] != want {
		t.Fatal(q.raw, want)
	}
	p.reply(q, 404, "", "")
	wait(t, done)
}''',['encoding/base64'])
B('c08-endless-401','C08',[('rtspclient.go','	if 401 == response.Status && session.username','	for 401 == response.Status && session.username')],
 'a server which rejects the credentials','DESCRIBE is sent again and again while the server answers 401','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p, done := c.connect("rtsp://joe:x@h:1/x")
	p.reply(p.must("DESCRIBE"), 401, "WWW-Authenticate: Basic realm=\"r\"\r\n", "")
	p.reply(p.must("DESCRIBE"), 401, "WWW-Authenticate: Basic realm=\"r\"\r\n", "")
	if q := p.nextIn(300 * time.Millisecond); q != nil {
		t.Fatal("a third ", q.method)
	}
	if err := wait(t, done); err == nil {
		t.Fatal("no error")
	}
}''',['time'])
B('c08-name-in-uri','C08',[('rtspclient.go','''
	urlInfo.User = nil
	session.rtspContext''','''
	if "" != session.password {
		urlInfo.User = nil
	}
	session.rtspContext''')],
 'an URL with a user name but no password','the user name is part of the request URIs','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p, done := c.connect("rtsp://joe@h:1/x")
	q := p.must("DESCRIBE")
	if strings.Contains(q.uri, "joe") {
		t.Fatal(q.raw)
	}
	p.reply(q, 404, "", "")
	wait(t, done)
}''',['strings'])
B('c09-data-extends','C09',[('rtspclient.go','''
	sdpInfo            *SDPInfo
''','''
	sdpInfo            *SDPInfo
	lastData           time.Time
'''),('rtspclient.go','''
	header := data[:4]
	rtpData := data[4:]
''','''
	session.lastData = time.Now()
	header := data[:4]
	rtpData := data[4:]
'''),('rtspclient.go','''
	case <-time.After(time.Duration(session.timeoutSec) * time.Second):
		{
			if nil != session.tcpConn {
				session.tcpConn.Close()
			}
			return nil, errors.New("recv response time out")
''','''
	case <-time.After(time.Duration(session.timeoutSec) * time.Second):
		{
			if time.Since(session.lastData) >= time.Second {
				session.tcpConn.Close()
				return nil, errors.New("recv response time out")
			}
			// the server is alive
			return session.WaitRtspResponse()
''')],'data frames keep arriving while the answer never does','data keeps the response timeout from expiring','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "X")))
	if err := c.s.SendPause(); err != nil {
		t.Fatal(err)
	}
	p.must("PAUSE")
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(200 * time.Millisecond):
				p.c.SetWriteDeadline(time.Now().Add(time.Second))
				p.c.Write(frame(0, rtp(true, []byte{1})))
			}
		}
	}()
	defer close(stop)
	done := make(chan error, 1)
	go func() { _, err := c.s.WaitRtspResponse(); done <- err }()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(9 * time.Second):
		t.Fatal("still waiting")
	}
}''',['time'])
B('c10-async-data','C10',[('rtspclient.go','''
					session.parsingData(event.Data)
''','''
					// a slow handler must not stop the connection
					go session.parsingData(event.Data)
''')],'a data handler which is still running when the connection ends','data is handled beside the events: order is lost, data comes after the disconnected event','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	bad := make(chan bool, 10)
	c.onData = func(d *rtspclient.RtspData) {
		end := time.Now().Add(700 * time.Millisecond)
		for time.Now().Before(end) {
			if c.count(rtspclient.RtspEventDisconnected) > 0 {
				bad <- true
				return
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	p := c.play("rtsp://h:1/x", describe(media(0, "X")))
	p.write(frame(0, rtp(true, []byte{1})))
	time.Sleep(50 * time.Millisecond)
	p.c.Close()
	if !c.waitEvent(rtspclient.RtspEventDisconnected, 4*time.Second) {
		t.Fatal("no disconnected event")
	}
	time.Sleep(100 * time.Millisecond)
	if len(bad) > 0 {
		t.Fatal("disconnected reported while data is being handled")
	}
}''',['time','github.com/NodeBoy2/rtspclient'])
B('c10-forget-conn','C10',[('rtspclient.go','''
				log.Printf("conntion disconnected.")
''','''
				log.Printf("conntion %s disconnected.", session.address)
				session.tcpConn = nil
''')],'the connection is lost while a call waits for an answer (close, or a response timeout)','the session forgets its connection while calls still use it, which panics','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "X")))
	done := make(chan error, 1)
	go func() { c.s.Close(); done <- nil }()
	p.must("TEARDOWN")
	p.c.Close()
	wait(t, done)
	if !c.waitEvent(rtspclient.RtspEventDisconnected, 3*time.Second) {
		t.Fatal("no disconnected event")
	}
}''',['time','github.com/NodeBoy2/rtspclient'])
B('c10-close-reports','C10',[('rtspclient.go','''
	if session.tcpConn.GetStatus() == tcpnetwork.ConnEventConnected {
		session.SendTeardown()
		session.WaitRtspResponse()
	}
	session.tcpConn.Close()
''','''
	if session.tcpConn.GetStatus() != tcpnetwork.ConnEventConnected {
		session.sendEvent(RtspEventDisconnected, nil)
		return
	}
	session.SendTeardown()
	session.WaitRtspResponse()
	session.tcpConn.Close()
''')],'closing a session whose connection was lost before or is being lost','the disconnected event is reported a second time','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "X")))
	p.c.Close()
	if !c.waitEvent(rtspclient.RtspEventDisconnected, 3*time.Second) {
		t.Fatal("no disconnected event")
	}
	c.s.Close()
	time.Sleep(50 * time.Millisecond)
	if n := c.count(rtspclient.RtspEventDisconnected); n != 1 {
		t.Fatalf("%d disconnected events", n)
	}
}''',['time','github.com/NodeBoy2/rtspclient'])
B('c11-scratch-copy','C11',[(TN,'''
		msgCopy := make([]byte, len(msg))
		copy(msgCopy, msg)
		buf = msgCopy
''','''
		connection.sendCopy = append(connection.sendCopy[:0], msg...)
		buf = connection.sendCopy
'''),(TN,'	sendBufferSize      int\n	sendTimeoutSec ','	sendBufferSize      int\n	sendCopy            []byte\n	sendTimeoutSec ')],
 'two sends by copy before the writer has sent the first','queued copies share one buffer','net',r'''
func TestDemo(t *testing.T) {
	c := open(16, lengthProto())
	c.run(t)
	for i := 0; i < 5; i++ {
		c.Send([]byte(fmt.Sprintf("message%d", i)), true)
	}
	buf := make([]byte, 40)
	c.peer.SetReadDeadline(time.Now().Add(3 * time.Second))
	if _, err := io.ReadFull(c.peer, buf); err != nil || string(buf) != "message0message1message2message3message4" {
		t.Fatalf("%q %v", buf, err)
	}
}''',['fmt','io','time'])
B('c11-full-queue-drops','C11',[(TN,'''
	case <-connection.quit:
		{
			// already disconnected
		}
	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):
		{
			// timeout, close the connection
			connection.close()
			log.Printf("Conn send message timeout, close it")
		}
	}
}

// Send send data
''','''
	case <-connection.quit:
		{
			// already disconnected
		}
	default:
		{
			log.Printf("Conn send queue is full")
		}
	}
}

// Send send data
''')],'a sender which fills the queue','messages are dropped when the queue is full','net',r'''
func TestDemo(t *testing.T) {
	c := open(2, lengthProto())
	c.run(t)
	want := ""
	for i := 0; i < 9; i++ {
		want += fmt.Sprintf("m%d", i)
	}
	go func() {
		for i := 0; i < 9; i++ {
			c.Send([]byte(fmt.Sprintf("m%d", i)), true)
		}
	}()
	time.Sleep(100 * time.Millisecond)
	buf := make([]byte, len(want))
	c.peer.SetReadDeadline(time.Now().Add(3 * time.Second))
	if _, err := io.ReadFull(c.peer, buf); err != nil || string(buf) != want {
		t.Fatalf("%q %v", buf, err)
	}
}''',['fmt','io','time'])
B('c11-close-skips','C11',[(TN,'''
	if connection.status != ConnStatusConnected {
		return
	}

	select {
	case connection.sendMsgQueue <- nil:
''','''
	if connection.status != ConnStatusConnected || 0 == len(connection.sendMsgQueue) {
		// nothing to send
		connection.close()
		return
	}

	select {
	case connection.sendMsgQueue <- nil:
''')],'a close after the writer took the last message from the queue and before it wrote it','the message in the hands of the writer is lost','net',r'''
func TestDemo(t *testing.T) {
	c := open(16, lengthProto())
	c.run(t)
	c.Send([]byte("farewell"), true)
	time.Sleep(100 * time.Millisecond)
	go c.Close()
	time.Sleep(100 * time.Millisecond)
	c.peer.SetReadDeadline(time.Now().Add(3 * time.Second))
	got, _ := io.ReadAll(c.peer)
	if string(got) != "farewell" {
		t.Fatalf("%q", got)
	}
}''',['io','time'])
B('c11-empty-copy','C11',[(TN,'''
		msgCopy := make([]byte, len(msg))
		copy(msgCopy, msg)
		buf = msgCopy
''','''
		buf = append([]byte(nil), msg...)
''')],'an empty message sent by copy','an empty message becomes the close marker','net',r'''
func TestDemo(t *testing.T) {
	c := open(16, lengthProto())
	c.run(t)
	c.Send([]byte("a"), true)
	c.Send([]byte{}, true)
	c.Send([]byte("b"), true)
	go func() { time.Sleep(300 * time.Millisecond); c.Close() }()
	c.peer.SetReadDeadline(time.Now().Add(3 * time.Second))
	got, _ := io.ReadAll(c.peer)
	if string(got) != "ab" {
		t.Fatalf("%q", got)
	}
}''',['io','time'])
B('c12-event-before-close','C12',[(TN,'''
		// close the connection
		connection.close()

		// wake the senders and the send routine
		close(connection.quit)

		// post event
		connection.pushEvent(ConnEventDisconnected, nil)
''','''
		// post event
		connection.pushEvent(ConnEventDisconnected, nil)

		// close the connection
		connection.close()

		// wake the senders and the send routine
		close(connection.quit)
''')],'a handler of the disconnected event which looks at the status or sends','the disconnected event comes while the connection still counts as connected','net',r'''
func TestDemo(t *testing.T) {
	c := open(16, lengthProto())
	status := make(chan int, 4)
	c.on = func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventDisconnected {
			status <- e.Conn.GetStatus()
		}
	}
	c.run(t)
	c.peer.Close()
	if !c.ended(3 * time.Second) {
		t.Fatal("no disconnected event")
	}
	if s := <-status; s != tcpnetwork.ConnStatusDisconnected {
		t.Fatal(s)
	}
}''',['time','github.com/NodeBoy2/rtspclient/tcpnetwork'])
B('c12-writer-reports','C12',[(TN,'''
				if err != nil {
					log.Println("Conn write error:", err)
					return err
				}
				if err = connection.connRW.Flush(); err != nil {
					log.Println("Conn write error:", err)
					return err
				}
			}
''','''
				if err == nil {
					err = connection.connRW.Flush()
				}
				if err != nil {
					log.Println("Conn write error:", err)
					connection.pushEvent(ConnEventDisconnected, nil)
					return err
				}
			}
''')],'a write error','a write error is reported as a disconnection besides the one the reader reports','net',r'''
// noWrite cannot be written to.
type noWrite struct{ net.Conn }

func (noWrite) Write(b []byte) (int, error) { return 0, errors.New("cannot write") }

func TestDemo(t *testing.T) {
	here, there := net.Pipe()
	c := openOn(noWrite{here}, there, 16, lengthProto())
	c.run(t)
	c.Send([]byte("x"), true)
	if !c.ended(8 * time.Second) {
		t.Fatal("no disconnected event")
	}
	time.Sleep(200 * time.Millisecond)
	if n := c.count(tcpnetwork.ConnEventDisconnected); n != 1 {
		t.Fatalf("%d disconnected events", n)
	}
}''',['time','net','errors','github.com/NodeBoy2/rtspclient/tcpnetwork'])
B('c13-terminator-restart','C13',[(TN,'''
			curBodyPos++
			if curBodyPos < len(strEOF) {
				continue
			}
			if bytes.Compare(strEOF, buf[bufStartPos+curBodyPos-len(strEOF):bufStartPos+curBodyPos]) == 0 {
				break
			}
''','''
			// the part of the terminator seen so far
			if buf[bufStartPos+curBodyPos] == strEOF[matched] {
				matched++
			} else if buf[bufStartPos+curBodyPos] == strEOF[0] {
				matched = 1
			} else {
				matched = 0
			}
			curBodyPos++
			if matched == len(strEOF) {
				break
			}
'''),(TN,'		curBodyPos := 0\n','		curBodyPos, matched := 0, 0\n'),(TN,'	"bytes"\n','')],
 'a terminator which overlaps itself, preceded by a part of it','the search for the terminator starts over in the wrong place','net',r'''
func TestDemo(t *testing.T) {
	c := open(16, &proto{head: 1, un: func(b []byte) (int, []byte) { return 0, []byte("aab") }})
	c.run(t)
	go c.write(t, []byte("Hxaaab"+"Haab"+"Haaaab"))
	until(2*time.Second, func() bool { return len(c.packets()) >= 3 })
	p := c.packets()
	if len(p) != 3 || p[0] != "Hxaaab" || p[1] != "Haab" || p[2] != "Haaaab" {
		t.Fatalf("%q", p)
	}
}''',['time'])
B('c13-no-copy','C13',[(TN,'''
	msg = make([]byte, bufStartPos)
	copy(msg, buf[:bufStartPos])
	if 0 !=''','''
	msg = buf[:bufStartPos]
	if 0 !=''')],'a receiver which keeps a packet until the next arrives','packets share the read buffer','net',r'''
func TestDemo(t *testing.T) {
	c := open(16, lengthProto())
	c.run(t)
	go func() { c.write(t, []byte("\x03abc")); c.write(t, []byte("\x03xyz")) }()
	until(2*time.Second, func() bool { return len(c.packets()) >= 2 })
	p := c.packets()
	if len(p) != 2 || p[0] != "\x03abc" || p[1] != "\x03xyz" {
		t.Fatalf("%q", p)
	}
}''',['time'])
B('c13-one-deadline','C13',[(TN,'''
		// read context
		if 0 != connection.readTimeoutSec {
			connection.conn.SetReadDeadline(time.Now().Add(time.Duration(connection.readTimeoutSec) * time.Second))
		}

''','''
		// read context
''')],'a packet whose parts arrive slowly, but none later than the read timeout','the content has to arrive within the timeout of the body','net',r'''
func TestDemo(t *testing.T) {
	p := lengthProto()
	p.content = func([]byte) int { return 2 }
	c := open(16, p)
	c.SetReadTimeoutSec(1)
	c.run(t)
	c.write(t, []byte("\x03"))
	time.Sleep(100 * time.Millisecond)
	c.write(t, []byte("ab"))
	time.Sleep(700 * time.Millisecond)
	c.write(t, []byte("c"))
	time.Sleep(700 * time.Millisecond)
	c.write(t, []byte("de"))
	until(time.Second, func() bool { return len(c.packets()) >= 1 })
	if got := c.packets(); len(got) != 1 || got[0] != "\x03abcde" {
		t.Fatalf("%q", got)
	}
}''',['time'])

B('c14-parser-pool','C14',[('rtspclient.go','''
		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)
''','''
		session.rtpChannelMap[rtpIndex] = session.parserOf(rtpIndex, media.CodecName)
'''),('rtspclient.go','''
	sdpInfo            *SDPInfo
''','''
	sdpInfo            *SDPInfo
	parsers            map[string]*RtpParser
'''),('rtspclient.go','''
func (session *RtspClientSession) ParsingURL(''','''
// parserOf does not allocate the buffers again when a session is played again
func (session *RtspClientSession) parserOf(channel int, codecName string) *RtpParser {
	key := strconv.Itoa(channel) + codecName
	if nil == session.parsers {
		session.parsers = make(map[string]*RtpParser)
	}
	if nil == session.parsers[key] {
		session.parsers[key] = newRtpParser(codecName)
	}
	return session.parsers[key]
}

func (session *RtspClientSession) ParsingURL(''')],'a first use which ends in the middle of a fragmented unit, and a second use with the same codec','a partial unit of the earlier use is joined to the first unit of the next','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "H264")))
	p.write(frame(0, rtp(false, []byte{0x7c, 0x85, 1, 2, 3})))
	p.c.Close()
	if !c.waitEvent(rtspclient.RtspEventDisconnected, 3*time.Second) {
		t.Fatal("no disconnected event")
	}
	p = c.play("rtsp://h:1/x", describe(media(0, "H264")))
	p.write(frame(0, rtp(true, []byte{0x65, 9})))
	got := c.waitData(1)
	if len(got) != 1 || !bytes.Equal(got[0].data, []byte{0x65, 9}) {
		t.Fatalf("%v", got)
	}
}''',['time','bytes','github.com/NodeBoy2/rtspclient'])
B('c14-password-stays','C14',[('rtspclient.go','''
	session.username, session.password = "", ""
	if nil != urlInfo.User {
		session.username = urlInfo.User.Username()
		session.password, _ = urlInfo.User.Password()
	}
''','''
	if nil != urlInfo.User {
		session.username = urlInfo.User.Username()
		if password, ok := urlInfo.User.Password(); ok {
			session.password = password
		}
	} else {
		session.username, session.password = "", ""
	}
''')],'an URL with a user name only, played after one with a password','the password of the earlier use answers the challenge of the next server','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p, done := c.connect("rtsp://joe:x@h:1/x")
	p.reply(p.must("DESCRIBE"), 404, "", "")
	wait(t, done)
	p.c.Close()
	if !c.waitEvent(rtspclient.RtspEventDisconnected, 3*time.Second) {
		t.Fatal("no disconnected event")
	}
	p, done = c.connect("rtsp://ann@other:1/x")
	p.reply(p.must("DESCRIBE"), 401, "WWW-Authenticate: Basic realm=\"r\"\r\n", "")
	if q := p.nextIn(300 * time.Millisecond); q != nil {
		t.Fatal(q.raw)
	}
	wait(t, done)
}''',['time','github.com/NodeBoy2/rtspclient'])
