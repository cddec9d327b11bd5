B('c25-equal-by-text','C25',[('sdp/fields.go','''
	if !c.IP.Equal(b.IP) {
		return false
	}
	if c.TTL != b.TTL {
		return false
	}
	if c.Addresses != b.Addresses {
		return false
	}
	return true
''','''
	return c.ConnectionAddress() == b.ConnectionAddress()
''')],'addresses which differ in that one has a TTL and the other as many addresses','different connection data count as equal, as they are written alike','sdp',r'''
func TestDemo(t *testing.T) {
	a := sdp.ConnectionData{IP: net.IPv4(224, 0, 0, 1), TTL: 5}
	b := sdp.ConnectionData{IP: net.IPv4(224, 0, 0, 1), Addresses: 5}
	if a.Equal(b) || !a.Equal(a) {
		t.Fatal("equal")
	}
}''',['net','github.com/NodeBoy2/rtspclient/sdp'])
B('c25-session-by-text','C25',[('sdp/sdp.go','''
	for i, line := range s {
		lineB := b[i]
		if !line.Equal(lineB) {
			return false
		}
	}
	return true
''','''
	return bytes.Equal(s.AppendTo(nil), b.AppendTo(nil))
''')],'a line of which the type is not one character when written, or with a value that holds a line break','different sessions count as equal, as they are written alike','sdp',r'''
func TestDemo(t *testing.T) {
	a := sdp.Session{{Type: 'a', Value: []byte("x\na=y")}, {Type: 'a', Value: []byte("z")}}
	b := sdp.Session{{Type: 'a', Value: []byte("x")}, {Type: 'a', Value: []byte("y\na=z")}}
	if a.Equal(b) || !b.Equal(b) {
		t.Fatal("equal")
	}
}''',['github.com/NodeBoy2/rtspclient/sdp'])
B('c25-flag-once','C25',[('sdp/decoder.go','''
func (m *Media) AddFlag(f string) {
	m.AddAttribute(f, blank)
''','''
func (m *Media) AddFlag(f string) {
	if !m.Flag(f) {
		m.AddAttribute(f, blank)
	}
''')],'a flag added to a media which has an attribute of that name','the flag is not added','sdp',r'''
func TestDemo(t *testing.T) {
	var m sdp.Media
	m.AddAttribute("x", "1")
	m.AddFlag("x")
	if v := m.Attributes.Values("x"); len(v) != 2 || v[0] != "1" || v[1] != "" {
		t.Fatalf("%q", v)
	}
}''',['github.com/NodeBoy2/rtspclient/sdp'])
B('c26-busy-drops','C26',[('rtspclient.go','''
	session.eventQueue <- event
}
''','''
	if tcpnetwork.ConnEventData != event.EventType {
		session.eventQueue <- event
		return
	}
	select {
	case session.eventQueue <- event:
	case <-time.After(time.Duration(session.timeoutSec) * time.Second):
		// the handler hangs, must not block the connection
		log.Print("data dropped")
	}
}
''')],'a data handler which takes longer than the timeout while more data comes','data is dropped','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "X")))
	first := true
	c.onData = func(*rtspclient.RtspData) {
		if first {
			first = false
			time.Sleep(2500 * time.Millisecond)
		}
	}
	go func() {
		for i := 0; i < 5; i++ {
			p.write(frame(0, rtp(true, []byte{byte(i)})))
		}
	}()
	until(8*time.Second, func() bool { _, d := c.snapshot(); return len(d) == 5 })
	if _, d := c.snapshot(); len(d) != 5 {
		t.Fatalf("%d of 5", len(d))
	}
}''',['time','github.com/NodeBoy2/rtspclient'])
B('c26-whole-unit','C26',[('rtpparser.go','''
	copy(rtpParser.payloadBuf[rtpParser.payloadLen:], nalu)
	rtpParser.payloadLen += len(nalu)

	if rtpParser.isMarkFrame {
		data := make([]byte, rtpParser.payloadLen)
		copy(data, rtpParser.payloadBuf[:rtpParser.payloadLen])
		rtpParser.payloadLen = 0
		return data, naluSize
	}
	return nil, naluSize
''','''
	if rtpParser.isMarkFrame {
		data := nalu
		if 0 < rtpParser.payloadLen {
			data = append(append([]byte(nil), rtpParser.payloadBuf[:rtpParser.payloadLen]...), nalu...)
		}
		rtpParser.payloadLen = 0
		return data, naluSize
	}
	copy(rtpParser.payloadBuf[rtpParser.payloadLen:], nalu)
	rtpParser.payloadLen += len(nalu)
	return nil, naluSize
''')],'a handler which appends to the units of an aggregate','what the handler appends to a unit overwrites the next one','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "H264")))
	c.onData = func(d *rtspclient.RtspData) { _ = append(d.Data, 0xff, 0xff, 0xff) }
	p.write(frame(0, rtp(true, []byte{0x78, 0, 2, 0x67, 1, 0, 3, 0x68, 2, 3})))
	got := c.waitData(2)
	if len(got) != 2 || !bytes.Equal(got[0].data, []byte{0x67, 1}) || !bytes.Equal(got[1].data, []byte{0x68, 2, 3}) {
		t.Fatalf("%x", got)
	}
}''',['bytes','github.com/NodeBoy2/rtspclient'])
B('c26-watchdog','C26',[('rtspclient.go','''
			if 0 < len(nalu) && nil != session.dataHandle {
				session.dataHandle(newRtspData(channelNum, session, nalu))
			}
''','''
			if 0 < len(nalu) && nil != session.dataHandle {
				session.handleData(newRtspData(channelNum, session, nalu))
			}
'''),('rtspclient.go','func (session *RtspClientSession) parsingRtsp(','''
// handleData calls the data handler. One which hangs must not hold up the
// connection.
func (session *RtspClientSession) handleData(data *RtspData) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		session.dataHandle(data)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		log.Print("the data handler hangs")
	}
}

func (session *RtspClientSession) parsingRtsp(''')],'a data handler which takes more than five seconds while more data comes','the handler is called again while it is still busy','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "X")))
	var busy, worst, n int32
	c.onData = func(*rtspclient.RtspData) {
		if atomic.AddInt32(&busy, 1) > 1 {
			atomic.StoreInt32(&worst, 1)
		}
		if atomic.AddInt32(&n, 1) == 1 {
			time.Sleep(5500 * time.Millisecond)
		}
		atomic.AddInt32(&busy, -1)
	}
	go func() {
		p.write(frame(0, rtp(true, []byte{1})))
		p.write(frame(0, rtp(true, []byte{2})))
	}()
	until(9*time.Second, func() bool { return atomic.LoadInt32(&n) == 2 && atomic.LoadInt32(&busy) == 0 })
	if atomic.LoadInt32(&worst) != 0 || atomic.LoadInt32(&n) != 2 {
		t.Fatalf("two calls at a time (%d)", n)
	}
}''',['sync/atomic','time','github.com/NodeBoy2/rtspclient'])
