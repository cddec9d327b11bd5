B('c07-malformed-blocks','C07',[('rtspclient.go','''
	defer func() {
		atomic.StoreInt32(&session.rtspRequestInitial, 1)
	}()

	select {
	case response, ok''','''
	select {
	case response, ok'''),('rtspclient.go','''
			return response, nil
		}
	case <-time''','''
			atomic.StoreInt32(&session.rtspRequestInitial, 1)
			return response, nil
		}
	case <-time''')],'a request which is answered with a malformed response, and another one after it','every later request is refused, as if the answer were still outstanding','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "X")))
	go func() {
		p.must("PAUSE")
		p.write([]byte("RTSP/1.0 abc OK\r\nCSeq: 9\r\n\r\n"))
		p.must("PLAY")
		p.reply(nil, 200, "", "")
	}()
	if err := c.s.SendPause(); err != nil {
		t.Fatal(err)
	}
	if _, err := c.s.WaitRtspResponse(); err == nil {
		t.Fatal("no error")
	}
	if err := c.s.SendPlay(0, 1); err != nil {
		t.Fatalf("nothing is outstanding: %v", err)
	}
	if _, err := c.s.WaitRtspResponse(); err != nil {
		t.Fatal(err)
	}
}''')
B('c27-wait-releases','C27',[('rtspclient.go','''
	defer func() {
		atomic.StoreInt32(&session.rtspRequestInitial, 1)
	}()

	select {
	case response, ok''','''
	// whoever waits has sent its request
	atomic.StoreInt32(&session.rtspRequestInitial, 1)

	select {
	case response, ok''')],'one goroutine waits for the answer to its request, another one makes a request','the second request is sent while the answer to the first is outstanding','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "X")))
	done := make(chan error, 1)
	go func() {
		if err := c.s.SendPause(); err != nil {
			done <- err
			return
		}
		_, err := c.s.WaitRtspResponse()
		done <- err
	}()
	q := p.must("PAUSE")
	time.Sleep(200 * time.Millisecond)
	if err := c.s.SendTeardown(); err == nil {
		t.Fatal("not refused")
	}
	p.reply(q, 200, "", "")
	if err := wait(t, done); err != nil {
		t.Fatal(err)
	}
}''',['time'])
B('c27-close-forces','C27',[('rtspclient.go','''
		session.SendTeardown()
		session.WaitRtspResponse()
''','''
		if nil != session.SendTeardown() {
			// the session ends, whatever else goes on
			atomic.StoreInt32(&session.rtspRequestInitial, 1)
			session.SendTeardown()
		}
		session.WaitRtspResponse()
''')],'a session closed by one goroutine while another waits for the answer to its request','TEARDOWN is sent while the answer to another request is outstanding','root',r'''
func TestDemo(t *testing.T) {
	c := newClient(t)
	p := c.play("rtsp://h:1/x", describe(media(0, "X")))
	done := make(chan error, 1)
	sent := make(chan error, 1)
	go func() {
		err := c.s.SendPause()
		sent <- err
		_, err = c.s.WaitRtspResponse()
		done <- err
	}()
	p.must("PAUSE")
	if err := wait(t, sent); err != nil {
		t.Fatal(err)
	}
	go c.s.Close()
	if q := p.nextIn(700 * time.Millisecond); q != nil {
		t.Fatalf("%s while the answer to PAUSE is outstanding", q.method)
	}
}''',['time'])
B('c12-panic-stays','C12',[('tcpnetwork/tcpnetwork.go','''
		e := recover()
		if e != nil {
			log.Println("Panic: ", e)
		}
''','''
		if e := recover(); e != nil {
			log.Println("Panic: ", e)
			return
		}
''')],'a handler that panics','the connection is neither closed nor is its end reported','net',r'''
func TestDemo(t *testing.T) {
	c := open(4, lengthProto())
	c.on = func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventData {
			panic("handler")
		}
	}
	c.Run()
	c.peer.Write([]byte{1, 'x'})
	for i := 0; i < 200; i++ {
		c.mu.Lock()
		n := len(c.events)
		last := 0
		if n > 0 {
			last = c.events[n-1].EventType
		}
		c.mu.Unlock()
		if last == tcpnetwork.ConnEventDisconnected {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal("no disconnected event")
}''',['time','github.com/NodeBoy2/rtspclient/tcpnetwork'])
