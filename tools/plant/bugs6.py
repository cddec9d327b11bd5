
B('c02-buffer-4m','C02',[('rtpparser.go','	MaxPayloadLength = 8 * 1024 * 1024','	MaxPayloadLength = 4 * 1024 * 1024')],
 'a fragmented NAL unit of more than 4 MiB','the unit is delivered in two parts','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "H264")))
	unit := append([]byte{0x65}, fill(5<<20, 3)...)
	for at := 1; at < len(unit); {
		n := 60000
		if n > len(unit)-at {
			n = len(unit) - at
		}
		h := byte(5)
		if at == 1 {
			h |= 0x80
		}
		if at+n == len(unit) {
			h |= 0x40
		}
		p.write(frame(0, rtp(h&0x40 != 0, append([]byte{0x7c, h}, unit[at:at+n]...))))
		at += n
	}
	d := c.waitData(1)
	if len(d) != 1 || !bytes.Equal(d[0].data, unit) {
		t.Fatalf("%d units", len(d))
	}
}''',['bytes'])
B('c04-channel-signed','C04',[('rtspclient.go','	channelNum := int(header[1])','	channelNum := int(int8(header[1]))')],
 'more than 64 media','packets of the media beyond the 64th are dropped','root',r'''
func TestDemo(t *testing.T) {
	var m []string
	for i := 0; i < 66; i++ {
		m = append(m, media(i%32, "X"))
	}
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(m...))
	p.write(frame(126, rtp(false, []byte("one"))))
	p.write(frame(130, rtp(false, []byte("two"))))
	d := c.waitData(2)
	if len(d) != 2 || d[1].ch != 130 || string(d[1].data) != "two" {
		t.Fatalf("%v", d)
	}
}''')
B('c08-decoded-twice','C08',[('rtspclient.go','		session.password, _ = urlInfo.User.Password()\n','		session.password, _ = unescaped(urlInfo.User.Password())\n'),
('rtspclient.go','func (session *RtspClientSession) ParsingURL(','''
// unescaped returns the password without its escapes
func unescaped(password string, ok bool) (string, bool) {
	if plain, err := url.PathUnescape(password); ok && nil == err {
		return plain, true
	}
	return password, ok
}

func (session *RtspClientSession) ParsingURL(''')],
'a password which looks escaped after it was unescaped','the answer to the challenge is for another password','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p, done := c.connect("rtsp://ann:p%2541@h:1/x")
	p.reply(p.must("DESCRIBE"), 401, "WWW-Authenticate: Basic realm=\"r\"\r\n", "")
	q := p.must("DESCRIBE")
	if q.head["authorization"] != "Basic "+base64.StdEncoding.EncodeToString([]byte("ann:p%41")) {
		t.Fatal(q.raw)
	}
	p.reply(q, 404, "", "")
	wait(t, done)
}''',['encoding/base64'])
B('c08-long-realm','C08',[('authenticator.go','''
		strResponse := MD5StringToString(MD5StringToString(authenticator.username+":"+authenticator.realm+":"+authenticator.password) + ":"''','''
		account := fmt.Sprintf("%.64s:%.128s:%.128s", authenticator.username, authenticator.realm, authenticator.password)
		strResponse := MD5StringToString(MD5StringToString(account) + ":"''')],
 'a digest challenge with a realm of more than 128 characters','the answer to the challenge is wrong','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p, done := c.connect("rtsp://ann:x@h:1/x")
	realm := strings.Repeat("realm", 30)
	p.reply(p.must("DESCRIBE"), 401, "WWW-Authenticate: Digest realm=\""+realm+"\", nonce=\"n\"\r\n", "")
	q := p.must("DESCRIBE")
	sum := func(s string) string { return fmt.Sprintf("%x", md5.Sum([]byte(s))) }
	want := sum(sum("ann:"+realm+":x") + ":n:" + sum("DESCRIBE:"+q.uri))
	if !strings.Contains(q.head["authorization"], "response=\""+want+"\"") {
		t.Fatal(q.raw)
	}
	p.reply(q, 404, "", "")
	wait(t, done)
}''',['crypto/md5','fmt','strings'])
B('c07-speed-byte','C07',[('rtsprequest.go','		strSpeed = fmt.Sprintf("Speed: %f\\r\\n", float32(inSpeed))','		strSpeed = fmt.Sprintf("Speed: %f\\r\\n", float32(int8(inSpeed)))')],
 'a speed of 128 or more','PLAY asks for another speed','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "X")))
	go c.s.SendPlay(0, 128)
	q := p.must("PLAY")
	if f, err := strconv.ParseFloat(q.head["speed"], 64); err != nil || f != 128 {
		t.Fatal(q.raw)
	}
}''',['strconv'])
B('c21-four-digits','C21',[('sdpparser.go','	fmt.Sscanf(sdpXDimensions, "%d %d", &width, &height)','	fmt.Sscanf(sdpXDimensions, "%4d %d", &width, &height)')],
 'a width of five digits','width and height are wrong','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	c.play("rtsp://h:1/x", describe(media(0, "X")+"a=x-dimensions:10240,4096\r\n"))
	if m := c.s.RtpMediaMap[0]; m.VideoWidth != 10240 || m.VideoHeight != 4096 {
		t.Fatalf("%+v", m)
	}
}''')
B('c06-control-of-seven','C06',[('rtspclient.go','	for index, media := range session.sdpInfo.Medias {','''
	medias := session.sdpInfo.Medias
	if len(medias) > 8 {
		// no server has more tracks, these are repetitions
		medias = medias[:8]
	}
	for index, media := range medias {''')],
 'a description with more than eight media','the media beyond the eighth are not set up, and Play succeeds','root',r'''
func TestDemo(t *testing.T) {
	var m []string
	for i := 0; i < 9; i++ {
		m = append(m, media(i, "X"))
	}
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(m...))
	n := 0
	for _, q := range p.seen {
		if q.method == "SETUP" {
			n++
		}
	}
	if n != 9 {
		t.Fatalf("%d SETUP requests for 9 media", n)
	}
}''')
