B('c14-authenticator-stays','C14',[('rtspclient.go','''
	session.rtspContext.authenicator = nil
''','''
	if "" == session.username {
		session.rtspContext.authenicator = nil
	}
''')],'a session played first with a challenge, then another URL with credentials','the credentials and challenge of the earlier use are sent to the next server','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p, done := c.connect("rtsp://joe:x@h:1/x")
	p.reply(p.must("DESCRIBE"), 401, "WWW-Authenticate: Basic realm=\"r\"\r\n", "")
	p.reply(p.must("DESCRIBE"), 404, "", "")
	wait(t, done)
	p.c.Close()
	if !c.waitEvent(rtspclient.RtspEventDisconnected, 3*time.Second) {
		t.Fatal("no disconnected event")
	}
	p, done = c.connect("rtsp://ann:y@other:1/x")
	q := p.must("DESCRIBE")
	if q.head["authorization"] != "" {
		t.Fatal(q.raw)
	}
	p.reply(q, 404, "", "")
	wait(t, done)
}''',['time','github.com/NodeBoy2/rtspclient'])
B('c15-decoded-path','C15',[('rtspclient.go','''
	session.rtspContext.rtspURL = urlInfo.String()
''','''
	session.rtspContext.rtspURL = urlInfo.Scheme + "://" + urlInfo.Host + urlInfo.Path
	if "" != urlInfo.RawQuery {
		session.rtspContext.rtspURL += "?" + urlInfo.RawQuery
	}
''')],'an URL with an escaped character in its path','requests name the decoded path','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p, done := c.connect("rtsp://h:1/a%20b%2Fc?q=1")
	q := p.must("DESCRIBE")
	if q.uri != "rtsp://h:1/a%20b%2Fc?q=1" {
		t.Fatal(q.raw)
	}
	p.reply(q, 404, "", "")
	wait(t, done)
}''')
B('c15-host-only','C15',[('rtspclient.go','''
	session.address = urlInfo.Host
	if "" == urlInfo.Port() {
''','''
	session.address = urlInfo.Hostname() + ":" + urlInfo.Port()
	if "" == urlInfo.Port() {
''')],'an IPv6 address with a port','IPv6 addresses with a port cannot be dialled','root',r'''
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "[::1]:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	go func() {
		conn, err := l.Accept()
		if err == nil {
			p := newPeer(t, conn)
			p.handshake(describe(media(0, "X")))
		}
	}()
	c := newClient(t)
	done := make(chan error, 1)
	go func() { done <- c.s.Play("rtsp://" + l.Addr().String() + "/x") }()
	if err := wait(t, done); err != nil {
		t.Fatal(err)
	}
}''',['net'])
B('c16-same-connection','C16',[('sdp/encoder.go','		if !mm.Connection.Blank() {\n','		if !mm.Connection.Blank() && !mm.Connection.Equal(m.Connection) {\n')],
 'a media whose connection data is that of the session','connection data of a media is left out if the session has the same','sdp',r'''
func TestDemo(t *testing.T) {
	text := top + "c=IN IP4 1.2.3.4\r\nt=0 0\r\nm=audio 1 RTP/AVP 0\r\nc=IN IP4 1.2.3.4\r\n"
	m := good(t, text)
	if back := good(t, encode(m)); !reflect.DeepEqual(m, back) {
		t.Fatalf("%+v\n%+v", m, back)
	}
}''',['reflect'])
B('c16-repeat-of-first','C16',[('sdp/encoder.go','			s = s.AddRepeatTimesCompact(t.Repeat, t.Active, t.Offsets...)\n','			s = s.AddRepeatTimesCompact(t.Repeat, m.Timing[0].Active, t.Offsets...)\n')],
 'two timings with different active durations','repeat times of later timings are encoded with the duration of the first','sdp',r'''
func TestDemo(t *testing.T) {
	m := good(t, top+"t=1 2\r\nr=7d 1h 0\r\nt=3 4\r\nr=7d 2h 0 25h\r\n")
	if back := good(t, encode(m)); !reflect.DeepEqual(m, back) {
		t.Fatalf("%+v\n%+v", m, back)
	}
}''',['reflect'])
B('c17-media-without-format','C17',[('sdp/decoder.go','	if len(p) < 4 {\n','	if len(p) < 3 {\n')],
 'a media line without a format','a media line without a format is accepted','sdp',r'''
func TestDemo(t *testing.T) {
	if m, err := decode(top + "t=0 0\r\nm=audio 1 RTP/AVP\r\n"); err == nil {
		t.Fatalf("%+v", m)
	}
}''')
B('c17-timing-in-media','C17',[('sdp/decoder.go','''
		if pos != 0 && isExpected(t, sectionMedia, 0) == nil {
''','''
		if pos != 0 && (isExpected(t, sectionMedia, 0) == nil || t == TypeTiming) {
''')],'a timing line inside a media','a timing line inside a media is accepted','sdp',r'''
func TestDemo(t *testing.T) {
	if m, err := decode(top + "t=0 0\r\nm=audio 1 RTP/AVP 0\r\nt=1 2\r\n"); err == nil {
		t.Fatalf("%+v", m)
	}
}''')
B('c17-negative-time','C17',[('sdp/decoder.go','	return strconv.ParseUint(string(v), 10, 64)\n','	n, err := strconv.ParseInt(string(v), 10, 64)\n	return uint64(n), err\n')],
 'a negative time','negative times are accepted','sdp',r'''
func TestDemo(t *testing.T) {
	for _, v := range []string{"t=-1 0", "t=0 -5"} {
		if m, err := decode(top + v + "\r\n"); err == nil {
			t.Fatalf("%+v", m)
		}
	}
}''')
B('c18-connection-carries','C18',[('sdp/decoder.go','	d.m = Media{}\n','	d.m = Media{Encryption: d.m.Encryption, Title: ""}\n')],
 'a media with an encryption key followed by one without','a key of one media shows in the next','sdp',r'''
func TestDemo(t *testing.T) {
	m := good(t, top+"t=0 0\r\nm=audio 1 RTP/AVP 0\r\nk=clear:abc\r\nm=video 2 RTP/AVP 1\r\n")
	if len(m.Medias) != 2 || !m.Medias[1].Encryption.Blank() {
		t.Fatalf("%+v", m)
	}
}''')
B('c18-media-addresses','C18',[('sdp/decoder.go','			d.m.Connection.Addresses, err = decodeByte(second)\n','			m.Connection.Addresses, err = decodeByte(second)\n')],
 'a media with a TTL and a number of addresses','the number of addresses of a media is stored in the session','sdp',r'''
func TestDemo(t *testing.T) {
	m := good(t, top+"t=0 0\r\nm=audio 1 RTP/AVP 0\r\nc=IN IP4 224.2.1.1/127/3\r\n")
	if m.Connection.Addresses != 0 || m.Medias[0].Connection.Addresses != 3 {
		t.Fatalf("%+v", m)
	}
}''')
B('c18-first-timing','C18',[('sdp/decoder.go','	t := m.Timing[len(m.Timing)-1]\n','	t := m.Timing[0]\n')],
 'a second timing with repeat times','repeat times of a second timing start from those of the first','sdp',r'''
func TestDemo(t *testing.T) {
	m := good(t, top+"t=1 2\r\nr=7d 1h 0\r\nt=3 4\r\nr=1d 2h 5h\r\n")
	if len(m.Timing) != 2 || m.Timing[1].Start != sdp.NTPToTime(3) || len(m.Timing[1].Offsets) != 1 {
		t.Fatalf("%+v", m.Timing)
	}
}''',['github.com/NodeBoy2/rtspclient/sdp'])
B('c19-value-aliases','C19',[('sdp/sdp.go','	l.Value = append(l.Value, b[delimiter+1:]...)\n','	l.Value = b[delimiter+1:]\n')],
 'a caller which reuses the text buffer, or builds in the decoded list','decoded lines share memory with the text','sdp',r'''
func TestDemo(t *testing.T) {
	b := []byte("s=hello\r\ni=world\r\n")
	s, err := sdp.DecodeSession(b, nil)
	if err != nil {
		t.Fatal(err)
	}
	for i := range b {
		b[i] = 'x'
	}
	if string(s[0].Value) != "hello" || string(s[1].Value) != "world" {
		t.Fatal(s)
	}
}''',['github.com/NodeBoy2/rtspclient/sdp'])
B('c19-reuse-full','C19',[('sdp/sdp.go','''
	// trying to reuse some memory
	l := len(s)
	if cap(s) > l+1 {
		line.Value = s[:l+1][l].Value[:0]
	}
	return line
''','''
	// trying to reuse some memory
	if l := cap(s); l > len(s)+1 {
		line.Value = s[:l][l-1].Value[:0]
	}
	return line
''')],'building in a list which was used for longer values before','all lines built in a reused list share the memory of one old line','sdp',r'''
func TestDemo(t *testing.T) {
	var old sdp.Session
	for i := 0; i < 16; i++ {
		old = old.AddLine('a', "a long enough old value")
	}
	old = old[:cap(old)]
	old[len(old)-1].Value = make([]byte, 100)
	s := old[:0].AddLine('s', "one").AddLine('i', "two")
	if string(s[0].Value) != "one" || string(s[1].Value) != "two" {
		t.Fatal(s)
	}
}''',['github.com/NodeBoy2/rtspclient/sdp'])
B('c20-before-1970','C20',[('sdp/fields.go','''
	if v == 0 {
		return time.Time{}
	}
	return time.Unix(int64(v-ntpDelta), 0)
''','''
	if v <= ntpDelta {
		return time.Time{}
	}
	return time.Unix(int64(v)-ntpDelta, 0)
''')],'an NTP value of a time before 1970','times before 1970 become no time','sdp',r'''
func TestDemo(t *testing.T) {
	for _, v := range []uint64{1, 1000, 2208988800 - 1, 2208988800, 2208988801} {
		if got := sdp.TimeToNTP(sdp.NTPToTime(v)); got != v {
			t.Fatal(v, got)
		}
	}
}''',['github.com/NodeBoy2/rtspclient/sdp'])
B('c20-interval-32','C20',[('sdp/decoder.go','''
	if err := decodeInt(b, &val); err != nil {
		return errors.Wrap(err, "unable to decode value")
	}
''','''
	val32, err := strconv.ParseInt(string(b), 10, 32)
	if err != nil {
		return errors.Wrap(err, "unable to decode value")
	}
	val = int(val32)
''')],'an interval of more than 2^31 seconds written in seconds','long intervals are refused','sdp',r'''
func TestDemo(t *testing.T) {
	d := 2147483649 * time.Second
	var s sdp.Session
	s = s.AddVersion(0).AddOrigin(sdp.Origin{Address: "127.0.0.1", Username: "-"}).AddSessionName("x").AddTimingNTP(1, 2).AddRepeatTimes(d, time.Second, 0)
	m, err := decode(string(s.AppendTo(nil)))
	if err != nil || m.Timing[0].Repeat != d {
		t.Fatal(m, err)
	}
}''',['time','github.com/NodeBoy2/rtspclient/sdp'])
B('c21-mono-l16','C21',[('sdpparser.go','		return "L16", "audio", 44100, 1\n','		return "L16", "audio", 44100, 2\n')],
 'payload type 11','payload type 11 is described as stereo','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	c.play("rtsp://h:1/x", describe("m=audio 0 RTP/AVP 11\r\na=control:t1\r\n"))
	m := c.s.RtpMediaMap[0]
	if m.CodecName != "L16" || m.RtpTimestampFrequency != 44100 || m.Channels != 1 {
		t.Fatalf("%+v", m)
	}
}''')
B('c21-rtpmap-static','C21',[('sdpparser.go','		if "" == codecName {\n','		if "" == codecName || "" != meidaInfo.Attributes.Value("x-dimensions") {\n')],
 'a static payload type with dimensions and an rtpmap of another format','the rtpmap of another format describes a media with a static payload type','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	c.play("rtsp://h:1/x", describe("m=video 0 RTP/AVP 26 96\r\na=rtpmap:96 VP8/90000\r\na=x-dimensions:640,480\r\na=control:t1\r\n"))
	m := c.s.RtpMediaMap[0]
	if m.CodecName != "JPEG" || m.VideoWidth != 640 {
		t.Fatalf("%+v", m)
	}
}''')
B('c21-session-framerate','C21',[('sdpparser.go','''
		var sdpFramerate string
		sdpFramerate = meidaInfo''','''
		sdpFramerate = meidaInfo'''),('sdpparser.go','''
	sdpInfo := &SDPInfo{Medias: make([]MediaSubsession, len(sdpMessage.Medias))}

''','''
	sdpInfo := &SDPInfo{Medias: make([]MediaSubsession, len(sdpMessage.Medias))}
	var sdpFramerate string

'''),('sdpparser.go','		sdpFramerate = meidaInfo.Attributes.Value("framerate")\n','		if meidaInfo.Attributes.Flag("framerate") {\n			sdpFramerate = meidaInfo.Attributes.Value("framerate")\n		}\n')],
 'a media with a frame rate followed by one without','the frame rate of one media shows in the next','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	c.play("rtsp://h:1/x", describe(media(0, "X")+"a=framerate:25\r\n", media(1, "Y")))
	if a, b := c.s.RtpMediaMap[0].VideoFramerate, c.s.RtpMediaMap[2].VideoFramerate; a != 25 || b != 0 {
		t.Fatal(a, b)
	}
}''')
B('c22-text','C22',[('websocketconn.go','''
	err := conn.conn.WriteMessage(websocket.BinaryMessage, b)
	if nil != err {
		return 0, err
	}
	return len(b), nil
''','''
	kind := websocket.BinaryMessage
	for len(b) > 0 && b[0] != '$' {
		// requests are text
		kind = websocket.TextMessage
		break
	}
	err := conn.conn.WriteMessage(kind, b)
	if nil != err {
		return 0, err
	}
	return len(b), nil
''')],'a server which accepts binary messages only','requests are sent as text messages','root',r'''
func TestDemo(t *testing.T) {
	up := websocket.Upgrader{}
	peers := make(chan *websocket.Conn, 1)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if c, err := up.Upgrade(w, r, nil); err == nil {
			peers <- c
		}
	}))
	defer srv.Close()
	c := newClient(t)
	done := make(chan error, 1)
	go func() { done <- c.s.PlayUseWebsocket("ws"+srv.URL[4:], "rtsp://h:1/x") }()
	ws := <-peers
	kind, _, err := ws.ReadMessage()
	if err != nil || kind != websocket.BinaryMessage {
		t.Fatal(kind, err)
	}
	ws.Close()
	wait(t, done)
}''',['net/http','net/http/httptest','github.com/gorilla/websocket'])
B('c23-session-suffix','C23',[('rtspparser.go','		} else if theKey == strings.ToUpper(sSessionHeader) {\n','		} else if strings.HasSuffix(theKey, strings.ToUpper(sSessionHeader)) {\n')],
 'an unrelated header whose name ends in Session','other headers are taken for the session header','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p, done := c.connect("rtsp://h:1/x")
	p.reply(p.must("DESCRIBE"), 200, "", describe(media(0, "X")))
	p.reply(p.must("SETUP"), 200, "Session: 12\r\nX-Upstream-Session: 99\r\n", "")
	q := p.must("PLAY")
	p.reply(q, 404, "", "")
	wait(t, done)
	if q.head["session"] != "12" {
		t.Fatal(q.raw)
	}
}''')
B('c23-case-once','C23',[('rtspparser.go','		if theKey == strings.ToUpper(sContentLenHeader) {\n','		if theKey == strings.ToUpper(sContentLenHeader) && 0 == context.contentLength && "" == context.sessionID {\n')],
 'a response with a body whose Session header precedes its content length','the content length is ignored behind a session header','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p, done := c.connect("rtsp://h:1/x")
	p.reply(p.must("DESCRIBE"), 200, "Session: 5\r\n", describe(media(0, "X")))
	if q := p.nextIn(3 * time.Second); q == nil || q.method != "SETUP" {
		t.Fatal("no SETUP")
	}
	p.c.Close()
	wait(t, done)
}''',['time'])

B('c22-chunks','C22',[('websocketconn.go','''
	err := conn.conn.WriteMessage(websocket.BinaryMessage, b)
	if nil != err {
		return 0, err
	}
	return len(b), nil
''','''
	for sent := 0; sent < len(b); {
		end := sent + 1024
		if end > len(b) {
			end = len(b)
		}
		if err := conn.conn.WriteMessage(websocket.BinaryMessage, b[sent:end]); nil != err {
			return sent, err
		}
		sent = end
	}
	return len(b), nil
''')],'a request longer than 1024 bytes','long requests are cut into several messages','root',r'''
func TestDemo(t *testing.T) {
	up := websocket.Upgrader{}
	peers := make(chan *websocket.Conn, 1)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if c, err := up.Upgrade(w, r, nil); err == nil {
			peers <- c
		}
	}))
	defer srv.Close()
	c := newClient(t)
	done := make(chan error, 1)
	go func() {
		done <- c.s.PlayUseWebsocket("ws"+srv.URL[4:], "rtsp://h:1/"+strings.Repeat("x", 1500))
	}()
	ws := <-peers
	_, m, err := ws.ReadMessage()
	if err != nil || !strings.HasSuffix(string(m), "\r\n\r\n") {
		t.Fatal(len(m), err)
	}
	ws.Close()
	wait(t, done)
}''',['net/http','net/http/httptest','github.com/gorilla/websocket','strings'])
