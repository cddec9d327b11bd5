From 10d6e94377e16dd412e81741471d5b5e0d14d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 01/64] fix: do not drop data sent before the connection
 routine has started

---
 tcpnetwork/tcpnetwork.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 2d5c90f..13d49a2 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -178,6 +178,7 @@ func (connection *Connection) Send(msg []byte, needCopy bool) {
 
 // Run a routine to process connection connection
 func (connection *Connection) Run() {
+	connection.status = ConnStatusConnected
 	go connection.routineMain()
 }
 
@@ -209,7 +210,6 @@ func (connection *Connection) routineMain() {
 
 	// connected
 	connection.pushEvent(ConnEventConnected, nil)
-	connection.status = ConnEventConnected
 
 	go connection.routineSend()
 	connection.routineRead()
-- 
2.43.0


From 59ffd87ea7e00ce02c8563bc0924e0f23ac30dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 02/64] fix: Send and Close racing with a disconnect must not
 panic nor leak the send routine

---
 tcpnetwork/tcpnetwork.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 13d49a2..4d7c275 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -48,6 +48,7 @@ type Connection struct {
 	eventHandler        func(*ConnEvent)
 	streamProtocol      IStreamProtocol
 	maxReadBufferLength int
+	quit                chan struct{} // closed when the connection routine ends
 }
 
 // ConnEvent TCP connnection event
@@ -100,6 +101,10 @@ func (connection *Connection) Close() {
 		{
 			// nothing
 		}
+	case <-connection.quit:
+		{
+			// already disconnected
+		}
 	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):
 		{
 			// timeout, close the connection
@@ -151,6 +156,10 @@ func (connection *Connection) sendRaw(msg []byte) {
 		{
 			// nothing
 		}
+	case <-connection.quit:
+		{
+			// already disconnected
+		}
 	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):
 		{
 			// timeout, close the connection
@@ -178,6 +187,7 @@ func (connection *Connection) Send(msg []byte, needCopy bool) {
 
 // Run a routine to process connection connection
 func (connection *Connection) Run() {
+	connection.quit = make(chan struct{})
 	connection.status = ConnStatusConnected
 	go connection.routineMain()
 }
@@ -194,9 +204,8 @@ func (connection *Connection) routineMain() {
 		// close the connection
 		connection.close()
 
-		// free channel
-		close(connection.sendMsgQueue)
-		connection.sendMsgQueue = make(chan []byte, connection.sendBufferSize)
+		// wake the senders and the send routine
+		close(connection.quit)
 
 		// post event
 		connection.pushEvent(ConnEventDisconnected, nil)
@@ -222,6 +231,11 @@ func (connection *Connection) routineSend() error {
 
 	for {
 		select {
+		case <-connection.quit:
+			{
+				// disconnected, quit
+				return nil
+			}
 		case sendMsg, ok := <-connection.sendMsgQueue:
 			{
 				if !ok {
-- 
2.43.0


From 6b46100578a799eaea0997ef5706efd5396e06d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 03/64] fix: close the connection when writing fails, so that
 the disconnect is reported

---
 tcpnetwork/tcpnetwork.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 4d7c275..b82cf7d 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -226,6 +226,8 @@ func (connection *Connection) routineMain() {
 
 func (connection *Connection) routineSend() error {
 	defer func() {
+		// nothing can be sent any more
+		connection.close()
 		log.Println("Connection send log return")
 	}()
 
@@ -258,14 +260,20 @@ func (connection *Connection) routineSend() error {
 						log.Println("Conn write error:", err)
 						return err
 					}
-					connection.connRW.Flush()
+					if err = connection.connRW.Flush(); err != nil {
+						log.Println("Conn write error:", err)
+						return err
+					}
 				}
 				_, err = connection.connRW.Write(sendMsg)
 				if err != nil {
 					log.Println("Conn write error:", err)
 					return err
 				}
-				connection.connRW.Flush()
+				if err = connection.connRW.Flush(); err != nil {
+					log.Println("Conn write error:", err)
+					return err
+				}
 			}
 		}
 	}
-- 
2.43.0


From 5c4603e3427e36f1629053961113d5183eec7ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 04/64] fix: a response timeout must not recurse through
 TEARDOWN for ever

---
 rtspclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index d931a87..f721ff4 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -394,7 +394,7 @@ func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, erro
 		}
 	case <-time.After(time.Duration(session.timeoutSec) * time.Second):
 		{
-			session.Close()
+			session.tcpConn.Close()
 			return nil, errors.New("recv response time out")
 		}
 	}
-- 
2.43.0


From 5070e4d642432162ac5168bfc91192ce4535be0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 05/64] fix: closing a session that was never connected must
 not panic

---
 rtspclient.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index f721ff4..67318d9 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -327,6 +327,9 @@ func (session *RtspClientSession) SetConnection(conn net.Conn) error {
 }
 
 func (session *RtspClientSession) Close() {
+	if nil == session.tcpConn {
+		return
+	}
 	if session.tcpConn.GetStatus() == tcpnetwork.ConnEventConnected {
 		session.SendTeardown()
 		session.WaitRtspResponse()
-- 
2.43.0


From b448c0c794e023bac1ec036663588c9d728ca242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 06/64] fix: an unsolicited or late response must not block the
 connection events

---
 rtspclient.go  | 14 +++++++++-----
 rtsprequest.go |  5 +++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 67318d9..5af783d 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -88,7 +88,7 @@ func NewRtspClientSession(rtpHandler func(*RtspData), eventHandler func(*RtspEve
 		dataHandle:         rtpHandler,
 		eventHandle:        eventHandler,
 		eventQueue:         make(chan *tcpnetwork.ConnEvent),
-		rtspResponseQueue:  make(chan *RtspResponseContext),
+		rtspResponseQueue:  make(chan *RtspResponseContext, 1),
 		rtpProtocol:        &RTPStreamProtocol{},
 		rtspContext:        NewRtspClientContext(),
 		rtspRequestInitial: true,
@@ -110,7 +110,7 @@ func (session *RtspClientSession) HandleConn() {
 		close(session.eventQueue)
 		session.eventQueue = make(chan *tcpnetwork.ConnEvent)
 		close(session.rtspResponseQueue)
-		session.rtspResponseQueue = make(chan *RtspResponseContext)
+		session.rtspResponseQueue = make(chan *RtspResponseContext, 1)
 	}()
 	for {
 		event, ok := <-session.eventQueue
@@ -196,10 +196,14 @@ func (session *RtspClientSession) parsingRtsp(data []byte) {
 	rtspResponseContext := &RtspResponseContext{}
 	err := ParserRtspResponse(data, rtspResponseContext)
 	if nil != err {
-		session.rtspResponseQueue <- nil
-		return
+		rtspResponseContext = nil
+	}
+	select {
+	case session.rtspResponseQueue <- rtspResponseContext:
+	default:
+		// nobody asked for it, must not block the connection events
+		log.Print("unexpected rtsp response dropped")
 	}
-	session.rtspResponseQueue <- rtspResponseContext
 }
 
 func (session *RtspClientSession) sendRequest() error {
diff --git a/rtsprequest.go b/rtsprequest.go
index 76bf801..1634b17 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -32,6 +32,11 @@ func NewRtspClientContext() *RtspClientContext {
 func (session *RtspClientSession) sendRequst(request []byte) {
 	log.Println(string(request))
 	session.rtspRequestInitial = false
+	select {
+	case <-session.rtspResponseQueue:
+		// stale response, nobody waited for it
+	default:
+	}
 	session.tcpConn.Send([]byte(request), false)
 	session.rtspContext.cseq++
 }
-- 
2.43.0


From 68b6c114af0fd971f072fd4e8beb98fd94e70a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 07/64] fix: a session can be played again from its
 disconnected event

---
 rtspclient.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 5af783d..c075f92 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -106,12 +106,18 @@ func (session *RtspClientSession) pushConnEvent(event *tcpnetwork.ConnEvent) {
 }
 
 func (session *RtspClientSession) HandleConn() {
-	defer func() {
+	released := false
+	release := func() {
+		if released {
+			return
+		}
+		released = true
 		close(session.eventQueue)
 		session.eventQueue = make(chan *tcpnetwork.ConnEvent)
 		close(session.rtspResponseQueue)
 		session.rtspResponseQueue = make(chan *RtspResponseContext, 1)
-	}()
+	}
+	defer release()
 	for {
 		event, ok := <-session.eventQueue
 		if !ok {
@@ -132,6 +138,8 @@ func (session *RtspClientSession) HandleConn() {
 		case tcpnetwork.ConnEventDisconnected:
 			{
 				log.Printf("conntion disconnected.")
+				// the handler may connect the session again
+				release()
 				session.sendEvent(RtspEventDisconnected, nil)
 				return
 			}
-- 
2.43.0


From 65b921712a0a3192ba4da1913895bf71c3e80ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 08/64] fix: truncated RTP packets must not crash the client

---
 h264rtpparser.go |  8 ++++++++
 hevcrtpparser.go | 10 +++++++++-
 rtspclient.go    |  6 +++++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index 0b9f486..dc9ad37 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -31,10 +31,18 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		{
 			skipHeaderLen = 3
 			isCompletesFrame = true
+			if len(rtpData) < skipHeaderLen {
+				// truncated packet
+				return false, src[:RtpHeaderLen], nil
+			}
 		}
 		break
 	case 28, 29: // FU-A // FU-B
 		{
+			if len(rtpData) < 2 {
+				// truncated packet
+				return false, src[:RtpHeaderLen], nil
+			}
 			// For these NALUs, the first two bytes are the FU indicator and the FU header.
 			// If the start bit is set, we reconstruct the original NAL header into byte 1:
 			startBit := rtpData[1] & 0x80
diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index 4f4f104..3078f4a 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -5,7 +5,7 @@ type HevcRtpParser struct {
 
 func (rtpParser *HevcRtpParser) SplitHeader(src []byte) (isCompletesFrame bool, header []byte, payload []byte) {
 	if len(src) < RtpHeaderLen+2 {
-		return false, src[:RtpHeaderLen], src[RtpHeaderLen:]
+		return false, src[:RtpHeaderLen], nil
 	}
 
 	rtpData := src[RtpHeaderLen:]
@@ -26,6 +26,10 @@ func (rtpParser *HevcRtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 			// the 2-byte DONL header.
 			// If the start bit is set, we reconstruct the original NAL header at the end of these
 			// 3 (or 5) bytes, and skip over the first 1 (or 3) bytes.
+			if len(rtpData) < 3 {
+				// truncated packet
+				return false, src[:RtpHeaderLen], nil
+			}
 			startBit := rtpData[2] & 0x80
 			endBit := rtpData[2] & 0x40
 			if 0 != startBit {
@@ -65,6 +69,10 @@ func (rtpParser *HevcRtpParser) ParsingRtp(header []byte, payload []byte) (naluH
 	case 48: // Aggregation Packet (AP)
 		{
 			// We skip over the 2-byte Payload Header, and the DONL header (if any).
+			if len(payload) < 2 {
+				// truncated packet
+				return len(payload), len(payload)
+			}
 			naluSize = int((payload[0] << 8) | payload[1])
 			naluHeaderSize = 2
 		}
diff --git a/rtspclient.go b/rtspclient.go
index c075f92..f291c8c 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -172,6 +172,10 @@ func (session *RtspClientSession) parsingData(data []byte) {
 }
 
 func (session *RtspClientSession) parsingRtp(data []byte) {
+	if len(data) < PacketHeaderLen+RtpHeaderLen {
+		log.Print("rtp packet too short")
+		return
+	}
 	header := data[:4]
 	rtpData := data[4:]
 
@@ -191,7 +195,7 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 		header, payload := rtpParser.splitRtpPacket(rtpData)
 		for totalLength < len(payload) {
 			nalu, completionLength := rtpParser.pushData(header, payload[totalLength:])
-			if nil != nalu {
+			if 0 < len(nalu) {
 				session.dataHandle(newRtspData(channelNum, session, nalu))
 			}
 			totalLength += completionLength
-- 
2.43.0


From 94bfcb5aa13c8fdce2af15f51d1eff9ee81b8c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 09/64] fix: the marker of a marker-framed stream is in the
 source packet

---
 markrtpparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markrtpparser.go b/markrtpparser.go
index b2de253..79e3006 100644
--- a/markrtpparser.go
+++ b/markrtpparser.go
@@ -8,7 +8,7 @@ func (rtpParser *MarkRtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		return true, src[:RtpHeaderLen], src[RtpHeaderLen:]
 	}
 
-	mark := ((header[1] & 0x80) >> 7)
+	mark := ((src[1] & 0x80) >> 7)
 	isCompletesFrame = (mark == 1)
 
 	return isCompletesFrame, src[:RtpHeaderLen], src[RtpHeaderLen:]
-- 
2.43.0


From ae99f75599b5d212ef46c446ad835bd95593009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 10/64] fix: HEVC aggregation units longer than 255 bytes

---
 hevcrtpparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index 3078f4a..f96909f 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -73,7 +73,7 @@ func (rtpParser *HevcRtpParser) ParsingRtp(header []byte, payload []byte) (naluH
 				// truncated packet
 				return len(payload), len(payload)
 			}
-			naluSize = int((payload[0] << 8) | payload[1])
+			naluSize = int(payload[0])<<8 | int(payload[1])
 			naluHeaderSize = 2
 		}
 		break
-- 
2.43.0


From f4a361e9385419d076d24397c816521bdbca3317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 11/64] fix: split H264 aggregation packets into their NAL
 units

---
 h264rtpparser.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index dc9ad37..ca82597 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -67,37 +67,39 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 	return isCompletesFrame, src[:skipHeaderLen+RtpHeaderLen], src[skipHeaderLen+RtpHeaderLen:]
 }
 func (rtpParser *H264RtpParser) ParsingRtp(header []byte, payload []byte) (naluHeaderSize int, naluSize int) {
-	if len(header) < RtpHeaderLen+2 {
+	if len(header) < RtpHeaderLen+1 {
 		return 0, len(payload)
 	}
 
 	naluHeader := header[RtpHeaderLen:]
-	packetNALUnitType := (naluHeader[0] & 0x7E) >> 1
+	packetNALUnitType := naluHeader[0] & 0x1f
 
 	switch packetNALUnitType {
 	case 24, 25: // STAP-A STAP-B
 		{
-			naluSize = int((payload[0] << 8) | naluHeader[1])
 			naluHeaderSize = 2
 		}
 		break
 	case 26: // MTAP16
 		{
-			naluSize = int((naluHeader[3] << 8) | naluHeader[4])
 			naluHeaderSize = 5
 		}
 		break
 	case 27: // MTAP24
 		{
-			naluSize = int((naluHeader[3] << 8) | naluHeader[4])
 			naluHeaderSize = 6
 		}
 		break
 	default:
 		{
-			naluSize = len(payload)
-			naluHeaderSize = 0
+			return 0, len(payload)
 		}
 	}
-	return naluHeaderSize, naluSize
+	if len(payload) < naluHeaderSize {
+		// truncated packet
+		return len(payload), len(payload)
+	}
+	// each unit is preceded by its 16 bits size
+	naluSize = int(payload[0])<<8 | int(payload[1])
+	return naluHeaderSize, naluSize + naluHeaderSize
 }
-- 
2.43.0


From 53472ae192f41c480d6e30fe906c8ce5526061d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 12/64] fix: a malformed session description must not end the
 process

---
 sdpparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index e06062d..2516597 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -31,14 +31,14 @@ func parsingSDPLine(strSdp string) (*sdp.Message, error) {
 	var err error
 	sdpSession, err = sdp.DecodeSession([]byte(strSdp), sdpSession)
 	if nil != err {
-		log.Fatal("sdp decode session error: ", err)
+		log.Print("sdp decode session error: ", err)
 		return nil, err
 	}
 	sdpDecoder := sdp.NewDecoder(sdpSession)
 	sdpMessage := &sdp.Message{}
 	err = sdpDecoder.Decode(sdpMessage)
 	if nil != err {
-		log.Fatal("sdp decode error: ", err)
+		log.Print("sdp decode error: ", err)
 		return nil, err
 	}
 	return sdpMessage, nil
-- 
2.43.0


From 4fab98948e40ed5e065ad51c64e369ed572c86cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 13/64] fix: malformed responses are reported as errors, not by
 a panic

---
 rtspparser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rtspparser.go b/rtspparser.go
index 29404b3..43dd891 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -28,6 +28,9 @@ const (
 )
 
 func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
+	if len(response) < 4 {
+		return errors.New("not rtsp packet")
+	}
 	// rtp packet no context
 	if string(response[:4]) != "RTSP" && string(response[:4]) != "rtsp" {
 		return errors.New("not rtsp packet")
@@ -46,6 +49,9 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 	rtspResponse := response[:rtspEndPos]
 
 	// get status code
+	if len(rtspResponse) < len("RTSP/1.0 200") {
+		return errors.New("no status code")
+	}
 	strStatus := string(response[len("RTSP/1.0 ") : len("RTSP/1.0 ")+3]) // skip past RTSP/1.0
 	context.Status, _ = strconv.Atoi(strStatus)
 
@@ -61,6 +67,9 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 		if theKey == strings.ToUpper(sContentLenHeader) {
 			theValue = strings.Replace(theValue, " ", "", -1)
 			context.contentLength, _ = strconv.Atoi(theValue)
+			if context.contentLength < 0 {
+				return errors.New("negative content length")
+			}
 			if len(response)-rtspEndPos >= context.contentLength {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
 			}
-- 
2.43.0


From fe10714e6efd21341bd23c10bcfc42b928a93f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 14/64] fix: an oversized content is an error of the stream,
 not a panic

---
 tcpnetwork/tcpnetwork.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index b82cf7d..c0a0175 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -379,6 +379,9 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 			connection.conn.SetReadDeadline(time.Now().Add(time.Duration(connection.readTimeoutSec) * time.Second))
 		}
 
+		if bufStartPos+contextLength > len(buf) {
+			return nil, errors.New("The stream data is too long")
+		}
 		err = connection.read(buf[bufStartPos : bufStartPos+contextLength])
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 5a70073a52d3828c2a3bcbce9b51f8247b588c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 15/64] fix: authentication challenges with spaces, colons or
 another order of parameters

---
 rtspparser.go | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index 43dd891..3e29a15 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -57,7 +57,7 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 
 	fields := strings.Split(string(rtspResponse), "\r\n")
 	for _, field := range fields {
-		keyValue := strings.Split(field, ":")
+		keyValue := strings.SplitN(field, ":", 2)
 		if 2 != len(keyValue) {
 			continue
 		}
@@ -93,12 +93,44 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 }
 
 func parsingAuthenticate(authenticateValue string) (string, string, string, string) {
-	authenticateValue = strings.Replace(authenticateValue, "\"", " ", -1)
 	var realm string
 	var nonce string
 	var stale string
 	var authenticateType string
 
-	fmt.Sscanf(authenticateValue, " %s realm= %s , nonce= %s , stale= %s ", &authenticateType, &realm, &nonce, &stale)
+	fmt.Sscanf(authenticateValue, " %s ", &authenticateType)
+	params := strings.TrimPrefix(strings.TrimSpace(authenticateValue), authenticateType)
+	for "" != params {
+		// one <name>=<value> of the list, the value may be quoted
+		index := strings.Index(params, "=")
+		if -1 == index {
+			break
+		}
+		name := strings.ToLower(strings.Trim(params[:index], " \t,"))
+		params = strings.TrimLeft(params[index+1:], " \t")
+		var value string
+		if strings.HasPrefix(params, "\"") {
+			params = params[1:]
+			if index = strings.Index(params, "\""); -1 == index {
+				index = len(params)
+			}
+			value = params[:index]
+			params = strings.TrimPrefix(params[index:], "\"")
+		} else {
+			if index = strings.Index(params, ","); -1 == index {
+				index = len(params)
+			}
+			value = strings.TrimSpace(params[:index])
+			params = params[index:]
+		}
+		switch name {
+		case "realm":
+			realm = value
+		case "nonce":
+			nonce = value
+		case "stale":
+			stale = value
+		}
+	}
 	return authenticateType, realm, nonce, stale
 }
-- 
2.43.0


From 3f76379d76a5987e1cc76dd66901d938aaa067e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 16/64] fix: the session identifier does not include its
 parameters

---
 rtspparser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtspparser.go b/rtspparser.go
index 3e29a15..999da7e 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -74,7 +74,8 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
 			}
 		} else if theKey == strings.ToUpper(sSessionHeader) {
-			context.sessionID = theValue
+			// without the parameters, such as the timeout
+			context.sessionID = strings.TrimSpace(strings.SplitN(theValue, ";", 2)[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
 			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
 			if "Digest" == authenticateType {
-- 
2.43.0


From 40bc1e660375405ef20d2f021f3fbab57ba21144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 17/64] fix: the Range header of PLAY

---
 rtsprequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtsprequest.go b/rtsprequest.go
index 1634b17..2d1a9db 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -112,7 +112,7 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 
 	var strStartTime string
 	if inStartTimeSec != 0 {
-		strSpeed = fmt.Sprintf("Range: npt=%d.0-\r\n", float32(inStartTimeSec))
+		strStartTime = fmt.Sprintf("Range: npt=%d.0-\r\n", inStartTimeSec)
 	}
 
 	request := fmt.Sprintf(("PLAY %s RTSP/1.0\r\n" +
-- 
2.43.0


From 03341050ffa8b87db03a4f88c335d12f84a32ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 18/64] fix: TEARDOWN names its session and PAUSE is
 authenticated

---
 rtsprequest.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rtsprequest.go b/rtsprequest.go
index 2d1a9db..df9c11f 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -95,6 +95,9 @@ func (session *RtspClientSession) SendPause() error {
 		"Session: %s\r\n" +
 		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
 
+	if nil != session.rtspContext.authenicator {
+		request += session.rtspContext.authenicator.createAuthenticatorString("PAUSE", session.rtspContext.rtspURL)
+	}
 	request += "\r\n"
 	session.sendRequst([]byte(request))
 	return nil
@@ -142,7 +145,8 @@ func (session *RtspClientSession) SendTeardown() error {
 
 	request := fmt.Sprintf(("TEARDOWN %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.userAgent)
+		"Session: %s\r\n" +
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
 
 	if nil != session.rtspContext.authenicator {
 		request += session.rtspContext.authenicator.createAuthenticatorString("TEARDOWN", session.rtspContext.rtspURL)
-- 
2.43.0


From 39f3a40694446d4fd52efebbe076a566243e413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 19/64] fix: the default port of IPv6 addresses

---
 rtspclient.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index f291c8c..ee1b26f 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -8,7 +8,6 @@ import (
 	"net"
 	"net/url"
 	"strconv"
-	"strings"
 	"time"
 
 	"github.com/NodeBoy2/rtspclient/tcpnetwork"
@@ -319,8 +318,8 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 		session.rtspContext.rtspURL += ("?" + urlInfo.RawQuery)
 	}
 	session.address = urlInfo.Host
-	if !strings.Contains(session.address, ":") {
-		session.address += ":554"
+	if "" == urlInfo.Port() {
+		session.address = net.JoinHostPort(urlInfo.Hostname(), "554")
 	}
 
 	if nil != urlInfo.User {
-- 
2.43.0


From f007a7242af198c98ce5ae087303353c741a3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 20/64] fix: the credentials of an URL must not be sent to the
 next one

---
 rtspclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rtspclient.go b/rtspclient.go
index ee1b26f..a3a5172 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -322,6 +322,7 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 		session.address = net.JoinHostPort(urlInfo.Hostname(), "554")
 	}
 
+	session.username, session.password = "", ""
 	if nil != urlInfo.User {
 		session.username = urlInfo.User.Username()
 		session.password, _ = urlInfo.User.Password()
-- 
2.43.0


From e4a3b9bdf03d2ad285b689f11c8a2604294d2e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 21/64] fix: data arriving during the handshake must not race
 with the channel map

---
 rtspclient.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index a3a5172..f2d5a2d 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -8,6 +8,7 @@ import (
 	"net"
 	"net/url"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/NodeBoy2/rtspclient/tcpnetwork"
@@ -78,6 +79,7 @@ type RtspClientSession struct {
 	eventQueue         chan *tcpnetwork.ConnEvent
 	rtspResponseQueue  chan *RtspResponseContext
 	rtpChannelMap      map[int]*RtpParser
+	rtpChannelMutex    sync.Mutex // rtpChannelMap is filled while data may already arrive
 	sdpInfo            *SDPInfo
 	RtpMediaMap        map[int]MediaSubsession
 }
@@ -188,7 +190,9 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 
 	// rtp data
 	channelNum := int(header[1])
+	session.rtpChannelMutex.Lock()
 	rtpParser, ok := session.rtpChannelMap[channelNum]
+	session.rtpChannelMutex.Unlock()
 	if ok {
 		totalLength := 0
 		header, payload := rtpParser.splitRtpPacket(rtpData)
@@ -281,7 +285,9 @@ func (session *RtspClientSession) sendRequest() error {
 		}
 		rtpIndex := index * 2
 		rtcpIndex := index*2 + 1
+		session.rtpChannelMutex.Lock()
 		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)
+		session.rtpChannelMutex.Unlock()
 		session.RtpMediaMap[rtpIndex] = media
 		session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex)
 
-- 
2.43.0


From ac3ca0b21bb9097d4ec1e680ffc0732c4fb050e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 22/64] fix: a session used again must not keep the tracks of
 its last server

---
 rtspclient.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index f2d5a2d..15bb008 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -236,6 +236,10 @@ func (session *RtspClientSession) sendRequest() error {
 	}()
 
 	session.sdpInfo = nil
+	session.rtpChannelMutex.Lock()
+	session.rtpChannelMap = make(map[int]*RtpParser)
+	session.rtpChannelMutex.Unlock()
+	session.RtpMediaMap = make(map[int]MediaSubsession)
 	session.rtspContext.authenicator = nil
 
 	session.SendDescribe()
-- 
2.43.0


From be70361c7c64ca56d83c657fa5f6624bee58471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 23/64] fix: frames of the maximum length must not close the
 connection

---
 tcpnetwork/tcpnetwork.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index c0a0175..02b2ee6 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -281,7 +281,7 @@ func (connection *Connection) routineSend() error {
 
 func (connection *Connection) routineRead() error {
 	// default buffer
-	buf := make([]byte, connection.maxReadBufferLength)
+	buf := make([]byte, connection.streamProtocol.GetHeaderLength()+connection.maxReadBufferLength)
 
 	for {
 		data, err := connection.unpack(buf)
-- 
2.43.0


From d64306c9b2e5e98187c6288b455343dfe3e5e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 24/64] fix: an empty interleaved frame must not swallow the
 frames behind it

---
 rtpstreamprotocol.go       | 4 ++++
 tcpnetwork/tcpinterface.go | 2 ++
 tcpnetwork/tcpnetwork.go   | 4 ++--
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rtpstreamprotocol.go b/rtpstreamprotocol.go
index ca6734c..6bfaf79 100644
--- a/rtpstreamprotocol.go
+++ b/rtpstreamprotocol.go
@@ -27,6 +27,10 @@ func (streamProtocol *RTPStreamProtocol) UnserializeHeader(header []byte) (int,
 		if nil != err {
 			return 0, nil
 		}
+		if 0 == len {
+			// an empty body, not an unknown header
+			return 0, []byte{}
+		}
 		return int(len), nil
 	} else if "rtsp" == string(header[0:4]) || "RTSP" == string(header[0:4]) {
 		return 0, []byte("\r\n\r\n")
diff --git a/tcpnetwork/tcpinterface.go b/tcpnetwork/tcpinterface.go
index 237b3f9..92dbe8b 100644
--- a/tcpnetwork/tcpinterface.go
+++ b/tcpnetwork/tcpinterface.go
@@ -7,6 +7,8 @@ type IStreamProtocol interface {
 	// get the header length of the stream
 	GetHeaderLength() int
 	// read the header length of the stream
+	// returns the length of the body, or the mark which ends it;
+	// an empty mark (not nil) is a body of no length
 	UnserializeHeader([]byte) (int, []byte)
 	// format header
 	SerializeHeader([]byte) []byte
diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 02b2ee6..5e9aea3 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -324,7 +324,7 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 	// check length
 	var msg []byte
 	packetLength, strEOF := connection.streamProtocol.UnserializeHeader(headBuf)
-	if nil != strEOF {
+	if nil != strEOF && 0 < len(strEOF) {
 		curBodyPos := 0
 		// read body
 		if 0 != connection.readTimeoutSec {
@@ -348,7 +348,7 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 			}
 		}
 		bodyLength = curBodyPos
-	} else if 0 != packetLength {
+	} else if 0 != packetLength || nil != strEOF {
 		if packetLength > connection.maxReadBufferLength {
 			return nil, errors.New("The stream data is too long")
 		}
-- 
2.43.0


From ca1d3a9763527bbe6b18e7df2b4aae9332dc5dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 25/64] fix: playing over a websocket reports the failure of
 the handshake

---
 rtspclient.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 15bb008..0d29845 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -378,8 +378,7 @@ func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string
 
 	conn := &WebsocketConn{conn: websocketConn}
 
-	session.SetConnection(conn)
-	return nil
+	return session.SetConnection(conn)
 }
 
 func (session *RtspClientSession) Play(rtspURL string) error {
-- 
2.43.0


From fd352ceb0cbded249f551a6c71f22d28435a342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 26/64] fix: websocket messages longer than the read buffer

---
 websocketconn.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/websocketconn.go b/websocketconn.go
index fd1586a..83f1a12 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -8,16 +8,21 @@ import (
 )
 
 type WebsocketConn struct {
-	conn *websocket.Conn
+	conn    *websocket.Conn
+	pending []byte // rest of the last message
 }
 
 func (conn *WebsocketConn) Read(b []byte) (int, error) {
-	_, message, err := conn.conn.ReadMessage()
-	if nil != err {
-		return 0, err
+	for 0 == len(conn.pending) {
+		_, message, err := conn.conn.ReadMessage()
+		if nil != err {
+			return 0, err
+		}
+		conn.pending = message
 	}
-	copy(b[:len(message)], message)
-	return len(message), nil
+	length := copy(b, conn.pending)
+	conn.pending = conn.pending[length:]
+	return length, nil
 }
 
 func (conn *WebsocketConn) Write(b []byte) (int, error) {
-- 
2.43.0


From 45262fb70bf2c2bf4c3ae12f096f9ff29e58a3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 27/64] fix: the addresses and deadlines of a websocket
 connection must not recurse for ever

---
 websocketconn.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/websocketconn.go b/websocketconn.go
index 83f1a12..9f54f07 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -38,21 +38,24 @@ func (conn *WebsocketConn) Close() error {
 }
 
 func (conn *WebsocketConn) LocalAddr() net.Addr {
-	return conn.LocalAddr()
+	return conn.conn.LocalAddr()
 }
 
 func (conn *WebsocketConn) RemoteAddr() net.Addr {
-	return conn.RemoteAddr()
+	return conn.conn.RemoteAddr()
 }
 
 func (conn *WebsocketConn) SetDeadline(t time.Time) error {
-	return conn.SetDeadline(t)
+	if err := conn.conn.SetReadDeadline(t); nil != err {
+		return err
+	}
+	return conn.conn.SetWriteDeadline(t)
 }
 
 func (conn *WebsocketConn) SetReadDeadline(t time.Time) error {
-	return conn.SetReadDeadline(t)
+	return conn.conn.SetReadDeadline(t)
 }
 
 func (conn *WebsocketConn) SetWriteDeadline(t time.Time) error {
-	return conn.SetWriteDeadline(t)
+	return conn.conn.SetWriteDeadline(t)
 }
-- 
2.43.0


From adf82241a6fdb224901c0b8057b5238c634eb0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 28/64] fix: closing a websocket connection must close its
 transport

---
 websocketconn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/websocketconn.go b/websocketconn.go
index 9f54f07..316b46c 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -34,7 +34,8 @@ func (conn *WebsocketConn) Write(b []byte) (int, error) {
 }
 
 func (conn *WebsocketConn) Close() error {
-	return conn.conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
+	conn.conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(time.Second))
+	return conn.conn.Close()
 }
 
 func (conn *WebsocketConn) LocalAddr() net.Addr {
-- 
2.43.0


From 6443c418191ab3b93d1e9cc5b2a0ae5b0dfb56fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 29/64] fix: decoded repeat times must not be lost

---
 sdp/decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 7d48944..0f90d53 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -888,6 +888,7 @@ func (d *Decoder) decodeRepeatTimes(m *Message) error {
 		}
 		t.Offsets = append(t.Offsets, dd)
 	}
+	m.Timing[len(m.Timing)-1] = t
 	return nil
 }
 
-- 
2.43.0


From a53aec56c82306b757d066652b73cf75f172e80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 30/64] fix: the TTL of a media connection belongs to the media

---
 sdp/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 0f90d53..5873530 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -641,7 +641,7 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 		if isV4 {
 			switch d.section {
 			case sectionMedia:
-				m.Connection.TTL, err = decodeByte(first)
+				d.m.Connection.TTL, err = decodeByte(first)
 			case sectionSession:
 				m.Connection.TTL, err = decodeByte(first)
 			}
-- 
2.43.0


From 06830fb2d9de45f587c411cacbb1a9ad4cf261ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 31/64] fix: the number of addresses of an IPv6 connection

---
 sdp/decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 5873530..4563f2b 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -648,9 +648,9 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 		} else {
 			switch d.section {
 			case sectionMedia:
-				d.m.Connection.Addresses, err = decodeByte(second)
+				d.m.Connection.Addresses, err = decodeByte(first)
 			case sectionSession:
-				m.Connection.Addresses, err = decodeByte(second)
+				m.Connection.Addresses, err = decodeByte(first)
 			}
 		}
 		if err != nil {
-- 
2.43.0


From 2ab2e9acd01ad14c6a746aa36dd235670dc0c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 32/64] fix: a TTL or number of addresses over 255 is an error

---
 sdp/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 4563f2b..ec22b4b 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -514,7 +514,7 @@ func decodeIP(dst net.IP, v []byte) (net.IP, error) {
 
 func decodeByte(dst []byte) (byte, error) {
 	// ALLOCATIONS: suboptimal.
-	n, err := strconv.ParseInt(string(dst), 10, 16)
+	n, err := strconv.ParseUint(string(dst), 10, 8)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From fd4d0b52eaac57f80bd205c8ebb41e22e2dc5ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 33/64] fix: several timings or repeat times, and time zones
 behind them, are valid

---
 sdp/decoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index ec22b4b..552807f 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -289,6 +289,14 @@ func isExpected(t Type, s section, pos int) error {
 			return nil
 		}
 	case sectionTime:
+		if pos != 0 && (t == TypeTiming || t == TypeRepeatTimes) {
+			// t->t, and the repeat times of one timing
+			return nil
+		}
+		if t == TypeTimeZones {
+			// RFC 4566 has the time zones behind the timings
+			return nil
+		}
 		if isExpected(t, sectionSession, orderingAfterTime) == nil {
 			//logger.Printf("t->s")
 			return nil
-- 
2.43.0


From 9d0ddaed87ed0648f4bd4d724fe880ac68239f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 34/64] fix: an empty interval must not panic

---
 sdp/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 552807f..7b0170f 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -828,6 +828,9 @@ func (d *Decoder) decodeOrigin(m *Message) error {
 }
 
 func decodeInterval(b []byte, v *time.Duration) error {
+	if len(b) == 0 {
+		return errors.Wrap(io.ErrUnexpectedEOF, "empty interval")
+	}
 	if len(b) == 1 && b[0] == '0' {
 		*v = 0
 		return nil
-- 
2.43.0


From 47bf69290be2e042bd3c11251f96580ba2e21673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 35/64] fix: format parameters separated by semicolons only

---
 sdpparser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index 2516597..90815ad 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -110,14 +110,17 @@ func getFmtParame(sdpFmtp string) map[string]string {
 
 	fieldsFmtp := strings.Split(sdpFmtp, " ")
 	for _, field := range fieldsFmtp {
-		fields := strings.Split(field, " ")
+		fields := strings.Split(field, ";")
 		for _, fieldTemp := range fields {
 			fieldTemp = strings.Replace(fieldTemp, ";", "", -1)
+			if "" == fieldTemp {
+				continue
+			}
 			index := strings.Index(fieldTemp, "=")
 			if index == -1 {
 				fmtParame[fieldTemp] = ""
 			} else {
-				fmtParame[fieldTemp[:index]] = field[index+1:]
+				fmtParame[fieldTemp[:index]] = fieldTemp[index+1:]
 			}
 		}
 	}
-- 
2.43.0


From 1117e8eeb9e82d85070f8f26432484d21399339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 36/64] fix: a media of several formats is described by its
 first one

---
 sdpparser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sdpparser.go b/sdpparser.go
index 90815ad..f0084a2 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -59,10 +59,18 @@ func parsingSDP(sdp string) *SDPInfo {
 
 	for index, meidaInfo := range sdpMessage.Medias {
 		sdpInfo.Medias[index].MediumName = meidaInfo.Description.Type
-		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(meidaInfo.Description.Format)
+		// the first format is the default one
+		strFormat := strings.SplitN(meidaInfo.Description.Format, " ", 2)[0]
+		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(strFormat)
 		codecName, _, timestampFrequency, channels := getPayloadInfo(sdpInfo.Medias[index].PayloadFormat)
 		if "" == codecName {
 			sdpRtpmap := meidaInfo.Attributes.Value("rtpmap")
+			for _, rtpmap := range meidaInfo.Attributes.Values("rtpmap") {
+				if strings.HasPrefix(rtpmap, strFormat+" ") {
+					sdpRtpmap = rtpmap
+					break
+				}
+			}
 			if "" != sdpRtpmap {
 				codecName, timestampFrequency, channels = getPayloadInfoForRtpmap(sdpRtpmap)
 			}
-- 
2.43.0


From 38fc5e6da0d74fe2f8ef689b3ee81ffe547fe6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:03 +0000
Subject: [PATCH 37/64] fix: a session without a meaningful name is valid

---
 sdp/sdp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index eed5487..e7526b8 100644
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -254,6 +254,10 @@ func (s *sliceScanner) Scan() bool {
 			s.end = len(s.v)
 		}
 		s.line = bytes.TrimSpace(s.v[s.pos:s.end])
+		if unnamed := []byte("s= "); bytes.Equal(s.line, unnamed[:2]) && bytes.Contains(s.v[s.pos:s.end], unnamed) {
+			// the name of a session without a meaningful one is a space
+			s.line = unnamed
+		}
 		if len(s.line) == 0 {
 			continue
 		}
-- 
2.43.0


From 2b66a6d169993c707eff7b96ead00993ed837605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 38/64] fix: a peer which stops reading must not keep the
 connection from being closed

---
 tcpnetwork/tcpnetwork.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 5e9aea3..e194ebf 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -251,6 +251,8 @@ func (connection *Connection) routineSend() error {
 					return nil
 				}
 
+				// a peer which stops reading must not block the connection for ever
+				connection.conn.SetWriteDeadline(time.Now().Add(time.Duration(connection.sendTimeoutSec) * time.Second))
 				var err error
 				headerBytes := connection.streamProtocol.SerializeHeader(sendMsg)
 				if nil != headerBytes {
-- 
2.43.0


From e69c4158fa84bd54c5027b13d5cedf406415004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 39/64] fix: a refused description must not tear down the
 session before

---
 rtspclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 0d29845..10f5c62 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -241,6 +241,7 @@ func (session *RtspClientSession) sendRequest() error {
 	session.rtpChannelMutex.Unlock()
 	session.RtpMediaMap = make(map[int]MediaSubsession)
 	session.rtspContext.authenicator = nil
+	session.rtspContext.sessionID = ""
 
 	session.SendDescribe()
 
@@ -275,7 +276,6 @@ func (session *RtspClientSession) sendRequest() error {
 		return errors.New("parse sdp error")
 	}
 
-	session.rtspContext.sessionID = ""
 	for index, media := range session.sdpInfo.Medias {
 		strTrackURL := media.TrackURL
 		if len(strTrackURL) < 4 || ("rtsp" != string(strTrackURL[:4]) && "RTSP" != string(strTrackURL[:4])) {
-- 
2.43.0


From beb6631f4dbb50934b78232e698cbd03a4552128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 40/64] fix: lines of a session description out of order are an
 error

---
 sdp/decoder.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 7b0170f..28d3963 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -280,6 +280,10 @@ func isExpected(t Type, s section, pos int) error {
 	// checking possible section transitions
 	switch s {
 	case sectionSession:
+		if pos == orderingAfterTime && t == TypeTiming {
+			// the time zones were before the timings
+			return nil
+		}
 		if pos < orderingAfterTime && isExpected(t, sectionTime, 0) == nil {
 			//logger.Printf("s->t")
 			return nil
@@ -353,6 +357,24 @@ func isZeroOrMore(t Type) bool {
 	}
 }
 
+// nextPos returns the position of s section behind t, which was on pos.
+func nextPos(t Type, s section, pos int) int {
+	if isZeroOrMore(t) {
+		return pos
+	}
+	for i, expected := range getOrdering(s) {
+		if expected != t || i < pos {
+			continue
+		}
+		if t == TypeEmail || t == TypePhone || (t == TypeConnectionData && s == sectionMedia) {
+			// may be repeated
+			return i
+		}
+		return i + 1
+	}
+	return pos
+}
+
 func newSectionDecodeError(s section, m string) DecodeError {
 	place := fmt.Sprintf("section %s", s)
 	return newDecodeError(place, m)
@@ -393,9 +415,7 @@ func (d *Decoder) decodeTiming(m *Message) error {
 		if err := isExpected(d.t, d.section, d.sPos); err != nil {
 			return errors.Wrap(err, "decode failed")
 		}
-		if !isZeroOrMore(d.t) {
-			d.sPos++
-		}
+		d.sPos = nextPos(d.t, d.section, d.sPos)
 		switch d.t {
 		case TypeTiming, TypeRepeatTimes:
 			if err := d.decodeField(m); err != nil {
@@ -423,9 +443,7 @@ func (d *Decoder) decodeMedia(m *Message) error {
 			d.pos--
 			break
 		}
-		if !isZeroOrMore(d.t) {
-			d.sPos++
-		}
+		d.sPos = nextPos(d.t, d.section, d.sPos)
 		if err := d.decodeField(m); err != nil {
 			return errors.Wrap(err, "failed to decode field")
 		}
@@ -1011,9 +1029,7 @@ func (d *Decoder) decodeSession(m *Message) error {
 		if err := isExpected(d.t, d.section, d.sPos); err != nil {
 			return errors.Wrap(err, "decode failed")
 		}
-		if !isZeroOrMore(d.t) {
-			d.sPos++
-		}
+		d.sPos = nextPos(d.t, d.section, d.sPos)
 		switch d.t {
 		case TypeTiming:
 			d.pos--
@@ -1022,6 +1038,10 @@ func (d *Decoder) decodeSession(m *Message) error {
 				return errors.Wrap(err, "failed to decode timing")
 			}
 			d.sPos = oldPosition
+			if d.sPos < orderingAfterTime-1 {
+				// only the time zones and what is after them
+				d.sPos = orderingAfterTime - 1
+			}
 			d.section = sectionSession
 		case TypeMediaDescription:
 			d.pos--
-- 
2.43.0


From 6d5ff4a45a27532a2ab1c2a837702af97ab26fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 41/64] fix: an interval which does not fit is an error

---
 sdp/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 28d3963..e51f163 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -882,6 +882,9 @@ func decodeInterval(b []byte, v *time.Duration) error {
 		return errors.Wrap(err, "unable to decode value")
 	}
 	*v = time.Duration(val) * unit
+	if *v/unit != time.Duration(val) {
+		return errors.New("interval out of range")
+	}
 	return nil
 }
 
-- 
2.43.0


From 728aa9a4fdebd83db1c9c60c2d3ce42a730de48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:41 +0000
Subject: [PATCH 42/64] fix: frame rates with a blank or decimals

---
 sdpparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index f0084a2..65b8418 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -109,8 +109,8 @@ func parsingSDP(sdp string) *SDPInfo {
 
 func getFramerateForFramerate(sdpFramerate string) int {
 	// Check for a "a=framerate: <fps>" or "a=x-framerate: <fps>" line
-	framerate, _ := strconv.Atoi(sdpFramerate)
-	return framerate
+	framerate, _ := strconv.ParseFloat(strings.TrimSpace(sdpFramerate), 64)
+	return int(framerate)
 }
 
 func getFmtParame(sdpFmtp string) map[string]string {
-- 
2.43.0


From 3f89f7c9999dd770847db3321870fbc00c8255e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 43/64] fix: a tab around a header's name or value is a blank
 too

---
 rtspparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index 999da7e..f1d030b 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -62,10 +62,10 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 			continue
 		}
 		theKey := strings.ToUpper(keyValue[0])
-		theKey = strings.Replace(theKey, " ", "", -1)
+		theKey = strings.TrimSpace(theKey)
 		theValue := keyValue[1]
 		if theKey == strings.ToUpper(sContentLenHeader) {
-			theValue = strings.Replace(theValue, " ", "", -1)
+			theValue = strings.TrimSpace(theValue)
 			context.contentLength, _ = strconv.Atoi(theValue)
 			if context.contentLength < 0 {
 				return errors.New("negative content length")
-- 
2.43.0


From 88e5b88320f1dcc515288f6a5b5fa92a910d86a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:55 +0000
Subject: [PATCH 44/64] fix: a response without a status is an error

---
 rtspparser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rtspparser.go b/rtspparser.go
index f1d030b..fdb43e3 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -53,7 +53,11 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 		return errors.New("no status code")
 	}
 	strStatus := string(response[len("RTSP/1.0 ") : len("RTSP/1.0 ")+3]) // skip past RTSP/1.0
-	context.Status, _ = strconv.Atoi(strStatus)
+	var err error
+	context.Status, err = strconv.Atoi(strStatus)
+	if nil != err {
+		return errors.New("no status code")
+	}
 
 	fields := strings.Split(string(rtspResponse), "\r\n")
 	for _, field := range fields {
-- 
2.43.0


From 6cada79cf893ec32581fb30db9d78c350ffeb198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:46 +0000
Subject: [PATCH 45/64] fix: a connected session must not be connected again
 over a websocket

---
 rtspclient.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index 10f5c62..9b33c19 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -364,6 +364,10 @@ func (session *RtspClientSession) Close() {
 }
 
 func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string) error {
+	if nil != session.tcpConn && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {
+		return errors.New("session is connected")
+	}
+
 	urlError := session.ParsingURL(rtspURL)
 	if nil != urlError {
 		return errors.New("url parse error: " + rtspURL)
-- 
2.43.0


From 8af1c73d6aaf1f0a480df0f51a845c09f54961e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:38 +0000
Subject: [PATCH 46/64] fix: the handler of the connected event must be able to
 send

---
 tcpnetwork/tcpnetwork.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index e194ebf..7dda57d 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -217,10 +217,12 @@ func (connection *Connection) routineMain() {
 	}
 	connection.streamProtocol.Init()
 
+	// the handler may send already
+	go connection.routineSend()
+
 	// connected
 	connection.pushEvent(ConnEventConnected, nil)
 
-	go connection.routineSend()
 	connection.routineRead()
 }
 
-- 
2.43.0


From 24c40a6b5f4349d04da2b336a4675546aa5798b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 47/64] fix: a session must not be played again before its
 disconnect is reported

---
 rtspclient.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 9b33c19..51274fb 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -9,6 +9,7 @@ import (
 	"net/url"
 	"strconv"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/NodeBoy2/rtspclient/tcpnetwork"
@@ -80,6 +81,7 @@ type RtspClientSession struct {
 	rtspResponseQueue  chan *RtspResponseContext
 	rtpChannelMap      map[int]*RtpParser
 	rtpChannelMutex    sync.Mutex // rtpChannelMap is filled while data may already arrive
+	connected          int32      // not 0 until the end of the connection is reported
 	sdpInfo            *SDPInfo
 	RtpMediaMap        map[int]MediaSubsession
 }
@@ -113,6 +115,7 @@ func (session *RtspClientSession) HandleConn() {
 			return
 		}
 		released = true
+		defer atomic.StoreInt32(&session.connected, 0)
 		close(session.eventQueue)
 		session.eventQueue = make(chan *tcpnetwork.ConnEvent)
 		close(session.rtspResponseQueue)
@@ -346,6 +349,7 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 func (session *RtspClientSession) SetConnection(conn net.Conn) error {
 	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, session.pushConnEvent)
 	session.tcpConn.SetStreamProtocol(session.rtpProtocol)
+	atomic.StoreInt32(&session.connected, 1)
 	session.tcpConn.Run()
 	go session.HandleConn()
 
@@ -364,7 +368,7 @@ func (session *RtspClientSession) Close() {
 }
 
 func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string) error {
-	if nil != session.tcpConn && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {
+	if 0 != atomic.LoadInt32(&session.connected) {
 		return errors.New("session is connected")
 	}
 
@@ -387,7 +391,7 @@ func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string
 
 func (session *RtspClientSession) Play(rtspURL string) error {
 
-	if nil != session.tcpConn && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {
+	if 0 != atomic.LoadInt32(&session.connected) {
 		return errors.New("session is connected")
 	}
 
-- 
2.43.0


From 1ebf442d5dc7167693ef03a6a9b2be0a0d239936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:55 +0000
Subject: [PATCH 48/64] fix: a play which is still returning must not disturb
 the next one

---
 rtspclient.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 51274fb..4ccb1b1 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -81,6 +81,7 @@ type RtspClientSession struct {
 	rtspResponseQueue  chan *RtspResponseContext
 	rtpChannelMap      map[int]*RtpParser
 	rtpChannelMutex    sync.Mutex // rtpChannelMap is filled while data may already arrive
+	requestMutex       sync.Mutex // held while the requests of a connection are under way
 	connected          int32      // not 0 until the end of the connection is reported
 	sdpInfo            *SDPInfo
 	RtpMediaMap        map[int]MediaSubsession
@@ -119,7 +120,6 @@ func (session *RtspClientSession) HandleConn() {
 		close(session.eventQueue)
 		session.eventQueue = make(chan *tcpnetwork.ConnEvent)
 		close(session.rtspResponseQueue)
-		session.rtspResponseQueue = make(chan *RtspResponseContext, 1)
 	}
 	defer release()
 	for {
@@ -238,6 +238,9 @@ func (session *RtspClientSession) sendRequest() error {
 		}
 	}()
 
+	// whoever handles the event may play again
+	defer session.requestMutex.Unlock()
+
 	session.sdpInfo = nil
 	session.rtpChannelMutex.Lock()
 	session.rtpChannelMap = make(map[int]*RtpParser)
@@ -347,6 +350,10 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 }
 
 func (session *RtspClientSession) SetConnection(conn net.Conn) error {
+	// the requests on the connection before may still be returning
+	session.requestMutex.Lock()
+
+	session.rtspResponseQueue = make(chan *RtspResponseContext, 1)
 	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, session.pushConnEvent)
 	session.tcpConn.SetStreamProtocol(session.rtpProtocol)
 	atomic.StoreInt32(&session.connected, 1)
-- 
2.43.0


From 13aec7fcb74f1b0f3338927dbcfc9880897c8968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 49/64] fix: a request left without a wait must not block the
 next connection

---
 rtspclient.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index 4ccb1b1..1aeada7 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -246,6 +246,8 @@ func (session *RtspClientSession) sendRequest() error {
 	session.rtpChannelMap = make(map[int]*RtpParser)
 	session.rtpChannelMutex.Unlock()
 	session.RtpMediaMap = make(map[int]MediaSubsession)
+	// a request nobody waited for ended with its connection
+	session.rtspRequestInitial = true
 	session.rtspContext.authenicator = nil
 	session.rtspContext.sessionID = ""
 
-- 
2.43.0


From f46735b31ba1b397f4605210ac92f5e32f809bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 50/64] fix: only one of several concurrent callers sends the
 next request

---
 rtspclient.go  |  8 ++++----
 rtsprequest.go | 20 +++++++++++++-------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 1aeada7..fffc603 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -70,7 +70,7 @@ type RtspClientSession struct {
 	username           string
 	password           string
 	address            string
-	rtspRequestInitial bool
+	rtspRequestInitial int32 // 0 while the answer to a request is outstanding
 	timeoutSec         int
 	rtspContext        *RtspClientContext
 	dataHandle         func(*RtspData)
@@ -95,7 +95,7 @@ func NewRtspClientSession(rtpHandler func(*RtspData), eventHandler func(*RtspEve
 		rtspResponseQueue:  make(chan *RtspResponseContext, 1),
 		rtpProtocol:        &RTPStreamProtocol{},
 		rtspContext:        NewRtspClientContext(),
-		rtspRequestInitial: true,
+		rtspRequestInitial: 1,
 		timeoutSec:         2,
 		rtpChannelMap:      make(map[int]*RtpParser),
 		RtpMediaMap:        make(map[int]MediaSubsession),
@@ -247,7 +247,7 @@ func (session *RtspClientSession) sendRequest() error {
 	session.rtpChannelMutex.Unlock()
 	session.RtpMediaMap = make(map[int]MediaSubsession)
 	// a request nobody waited for ended with its connection
-	session.rtspRequestInitial = true
+	atomic.StoreInt32(&session.rtspRequestInitial, 1)
 	session.rtspContext.authenicator = nil
 	session.rtspContext.sessionID = ""
 
@@ -423,7 +423,7 @@ func (session *RtspClientSession) Play(rtspURL string) error {
 
 func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, error) {
 	defer func() {
-		session.rtspRequestInitial = true
+		atomic.StoreInt32(&session.rtspRequestInitial, 1)
 	}()
 
 	select {
diff --git a/rtsprequest.go b/rtsprequest.go
index df9c11f..a55508f 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"sync/atomic"
 )
 
 const (
@@ -29,20 +30,25 @@ func NewRtspClientContext() *RtspClientContext {
 	}
 }
 
+// beginRequest tells whether the caller may send the next request,
+// only one of several callers may
+func (session *RtspClientSession) beginRequest() bool {
+	return atomic.CompareAndSwapInt32(&session.rtspRequestInitial, 1, 0)
+}
+
 func (session *RtspClientSession) sendRequst(request []byte) {
 	log.Println(string(request))
-	session.rtspRequestInitial = false
 	select {
 	case <-session.rtspResponseQueue:
 		// stale response, nobody waited for it
 	default:
 	}
-	session.tcpConn.Send([]byte(request), false)
 	session.rtspContext.cseq++
+	session.tcpConn.Send([]byte(request), false)
 }
 
 func (session *RtspClientSession) SendDescribe() error {
-	if !session.rtspRequestInitial {
+	if !session.beginRequest() {
 		return errors.New("waiting last request Reply")
 	}
 	request := fmt.Sprintf(("DESCRIBE %s RTSP/1.0\r\n" +
@@ -62,7 +68,7 @@ func (session *RtspClientSession) SendDescribe() error {
 }
 
 func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid int, inClientRTCPid int) error {
-	if !session.rtspRequestInitial {
+	if !session.beginRequest() {
 		return errors.New("waiting last request Reply")
 	}
 
@@ -86,7 +92,7 @@ func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid
 }
 
 func (session *RtspClientSession) SendPause() error {
-	if !session.rtspRequestInitial {
+	if !session.beginRequest() {
 		return errors.New("waiting last request Reply")
 	}
 
@@ -104,7 +110,7 @@ func (session *RtspClientSession) SendPause() error {
 }
 
 func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) error {
-	if !session.rtspRequestInitial {
+	if !session.beginRequest() {
 		return errors.New("waiting last request Reply")
 	}
 
@@ -139,7 +145,7 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 }
 
 func (session *RtspClientSession) SendTeardown() error {
-	if !session.rtspRequestInitial {
+	if !session.beginRequest() {
 		return errors.New("waiting last request Reply")
 	}
 
-- 
2.43.0


From 1a7a8625f3a9d5b82eee0aa32f8d49b06891e311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 51/64] fix: a request of the handshake which was refused ends
 it

---
 rtspclient.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index fffc603..52ffbc7 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -251,7 +251,9 @@ func (session *RtspClientSession) sendRequest() error {
 	session.rtspContext.authenicator = nil
 	session.rtspContext.sessionID = ""
 
-	session.SendDescribe()
+	if errorInfo = session.SendDescribe(); nil != errorInfo {
+		return errorInfo
+	}
 
 	response, errorInfo = session.WaitRtspResponse()
 	if nil != errorInfo {
@@ -268,7 +270,9 @@ func (session *RtspClientSession) sendRequest() error {
 			session.rtspContext.authenicator.password = session.password
 		}
 
-		session.SendDescribe()
+		if errorInfo = session.SendDescribe(); nil != errorInfo {
+			return errorInfo
+		}
 		response, errorInfo = session.WaitRtspResponse()
 		if nil != errorInfo {
 			return errorInfo
@@ -301,7 +305,9 @@ func (session *RtspClientSession) sendRequest() error {
 		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)
 		session.rtpChannelMutex.Unlock()
 		session.RtpMediaMap[rtpIndex] = media
-		session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex)
+		if errorInfo = session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex); nil != errorInfo {
+			return errorInfo
+		}
 
 		response, errorInfo = session.WaitRtspResponse()
 		if nil != errorInfo {
@@ -313,7 +319,9 @@ func (session *RtspClientSession) sendRequest() error {
 		session.rtspContext.sessionID = response.sessionID
 	}
 
-	session.SendPlay(0, 1)
+	if errorInfo = session.SendPlay(0, 1); nil != errorInfo {
+		return errorInfo
+	}
 	response, errorInfo = session.WaitRtspResponse()
 	if nil != errorInfo {
 		return errorInfo
-- 
2.43.0


From 65f958a8e915e3a4ab0913de710c42a4a3394d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 52/64] fix: data without a data handler crashed the process

---
 rtspclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 52ffbc7..5daa93a 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -201,7 +201,7 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 		header, payload := rtpParser.splitRtpPacket(rtpData)
 		for totalLength < len(payload) {
 			nalu, completionLength := rtpParser.pushData(header, payload[totalLength:])
-			if 0 < len(nalu) {
+			if 0 < len(nalu) && nil != session.dataHandle {
 				session.dataHandle(newRtspData(channelNum, session, nalu))
 			}
 			totalLength += completionLength
-- 
2.43.0


From b5e837577d593c05d219c87c84de8832d6fe8e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 53/64] fix: the scheme of an authentication challenge has no
 case

---
 rtspparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index fdb43e3..8c6a714 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -82,12 +82,12 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 			context.sessionID = strings.TrimSpace(strings.SplitN(theValue, ";", 2)[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
 			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
-			if "Digest" == authenticateType {
+			if strings.EqualFold("Digest", authenticateType) {
 				context.digestAuthenticator = NewAuthenticator()
 				context.digestAuthenticator.realm = realm
 				context.digestAuthenticator.nonce = nonce
 				context.digestAuthenticator.authenicatorType = AuthenticatorTypeDigest
-			} else if "Basic" == authenticateType {
+			} else if strings.EqualFold("Basic", authenticateType) {
 				context.basicAuthenticator = NewAuthenticator()
 				context.basicAuthenticator.realm = realm
 				context.basicAuthenticator.authenicatorType = AuthenticatorTypeBasic
-- 
2.43.0


From 0664714c0cb8ca20346ab8e6b88a69825605abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 54/64] fix: a digest challenge for another algorithm was
 answered with MD5

---
 rtspparser.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index 8c6a714..e2f4892 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -81,8 +81,12 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 			// without the parameters, such as the timeout
 			context.sessionID = strings.TrimSpace(strings.SplitN(theValue, ";", 2)[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
-			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
+			authenticateType, realm, nonce, _, algorithm := parsingAuthenticate(theValue)
 			if strings.EqualFold("Digest", authenticateType) {
+				if "" != algorithm && !strings.EqualFold("MD5", algorithm) {
+					// cannot be answered, another challenge may follow
+					continue
+				}
 				context.digestAuthenticator = NewAuthenticator()
 				context.digestAuthenticator.realm = realm
 				context.digestAuthenticator.nonce = nonce
@@ -97,10 +101,11 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 	return nil
 }
 
-func parsingAuthenticate(authenticateValue string) (string, string, string, string) {
+func parsingAuthenticate(authenticateValue string) (string, string, string, string, string) {
 	var realm string
 	var nonce string
 	var stale string
+	var algorithm string
 	var authenticateType string
 
 	fmt.Sscanf(authenticateValue, " %s ", &authenticateType)
@@ -135,7 +140,9 @@ func parsingAuthenticate(authenticateValue string) (string, string, string, stri
 			nonce = value
 		case "stale":
 			stale = value
+		case "algorithm":
+			algorithm = value
 		}
 	}
-	return authenticateType, realm, nonce, stale
+	return authenticateType, realm, nonce, stale, algorithm
 }
-- 
2.43.0


From 35b7dbf94b648f47fe57c84786df938aa9ddc9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 55/64] fix: contributing sources, header extension and padding
 are no media

---
 rtpparser.go  | 22 ++++++++++++++++++++++
 rtspclient.go |  6 ++++++
 2 files changed, 28 insertions(+)

diff --git a/rtpparser.go b/rtpparser.go
index 572a904..e36817a 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -29,6 +29,28 @@ func (rtpParser *RtpParser) splitRtpPacket(src []byte) ([]byte, []byte) {
 	return header, payload
 }
 
+// plainRtpPacket returns the packet without contributing sources, header
+// extension and padding, or nil when it is too short for those it says it has
+func plainRtpPacket(src []byte) []byte {
+	headerLen := RtpHeaderLen + 4*int(src[0]&0x0f)
+	if 0 != src[0]&0x10 {
+		if len(src) < headerLen+4 {
+			return nil
+		}
+		headerLen += 4 + 4*(int(src[headerLen+2])<<8|int(src[headerLen+3]))
+	}
+	end := len(src)
+	if 0 != src[0]&0x20 {
+		end -= int(src[end-1])
+	}
+	if end < headerLen {
+		return nil
+	}
+	start := headerLen - RtpHeaderLen
+	copy(src[start:], src[:RtpHeaderLen])
+	return src[start:end]
+}
+
 func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int) {
 	naluHeaderSize, naluSize := rtpParser.rtpSourceHandler.ParsingRtp(header, payload)
 	if naluSize > len(payload)-naluHeaderSize {
diff --git a/rtspclient.go b/rtspclient.go
index 5daa93a..79012f1 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -191,6 +191,12 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 		return
 	}
 
+	rtpData = plainRtpPacket(rtpData)
+	if nil == rtpData {
+		log.Print("rtp packet malformed")
+		return
+	}
+
 	// rtp data
 	channelNum := int(header[1])
 	session.rtpChannelMutex.Lock()
-- 
2.43.0


From b2e59756e9ab4f0261ba3ac225aac434b3134ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 56/64] fix: the end of a stream without packet lengths was
 never noticed

A protocol with no header which gives neither a length nor a terminator
takes what there is; the error of that read was dropped, and empty data
events followed each other for ever.
---
 tcpnetwork/tcpnetwork.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 7dda57d..720df83 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -367,8 +367,11 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 			return nil, err
 		}
 	} else {
-		allDataLen, _ := connection.connRW.Read(buf[bufStartPos:])
+		allDataLen, err := connection.connRW.Read(buf[bufStartPos:])
 		bufStartPos += allDataLen
+		if err != nil && 0 == bufStartPos {
+			return nil, err
+		}
 		msg = make([]byte, bufStartPos)
 		copy(msg, buf[:bufStartPos])
 		return msg, nil
-- 
2.43.0


From d165a1ac1cfd61694d892f3d747cf8703ed13322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 57/64] fix: requests of a session which was never connected
 panicked

---
 rtspclient.go  |  4 +++-
 rtsprequest.go | 30 ++++++++++++++++++------------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 79012f1..78f50c2 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -453,7 +453,9 @@ func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, erro
 		}
 	case <-time.After(time.Duration(session.timeoutSec) * time.Second):
 		{
-			session.tcpConn.Close()
+			if nil != session.tcpConn {
+				session.tcpConn.Close()
+			}
 			return nil, errors.New("recv response time out")
 		}
 	}
diff --git a/rtsprequest.go b/rtsprequest.go
index a55508f..dd95596 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -32,8 +32,14 @@ func NewRtspClientContext() *RtspClientContext {
 
 // beginRequest tells whether the caller may send the next request,
 // only one of several callers may
-func (session *RtspClientSession) beginRequest() bool {
-	return atomic.CompareAndSwapInt32(&session.rtspRequestInitial, 1, 0)
+func (session *RtspClientSession) beginRequest() error {
+	if nil == session.tcpConn {
+		return errors.New("session was never connected")
+	}
+	if !atomic.CompareAndSwapInt32(&session.rtspRequestInitial, 1, 0) {
+		return errors.New("waiting last request Reply")
+	}
+	return nil
 }
 
 func (session *RtspClientSession) sendRequst(request []byte) {
@@ -48,8 +54,8 @@ func (session *RtspClientSession) sendRequst(request []byte) {
 }
 
 func (session *RtspClientSession) SendDescribe() error {
-	if !session.beginRequest() {
-		return errors.New("waiting last request Reply")
+	if err := session.beginRequest(); nil != err {
+		return err
 	}
 	request := fmt.Sprintf(("DESCRIBE %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
@@ -68,8 +74,8 @@ func (session *RtspClientSession) SendDescribe() error {
 }
 
 func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid int, inClientRTCPid int) error {
-	if !session.beginRequest() {
-		return errors.New("waiting last request Reply")
+	if err := session.beginRequest(); nil != err {
+		return err
 	}
 
 	request := fmt.Sprintf(("SETUP %s RTSP/1.0\r\n" +
@@ -92,8 +98,8 @@ func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid
 }
 
 func (session *RtspClientSession) SendPause() error {
-	if !session.beginRequest() {
-		return errors.New("waiting last request Reply")
+	if err := session.beginRequest(); nil != err {
+		return err
 	}
 
 	request := fmt.Sprintf(("PAUSE %s RTSP/1.0\r\n" +
@@ -110,8 +116,8 @@ func (session *RtspClientSession) SendPause() error {
 }
 
 func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) error {
-	if !session.beginRequest() {
-		return errors.New("waiting last request Reply")
+	if err := session.beginRequest(); nil != err {
+		return err
 	}
 
 	var strSpeed string
@@ -145,8 +151,8 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 }
 
 func (session *RtspClientSession) SendTeardown() error {
-	if !session.beginRequest() {
-		return errors.New("waiting last request Reply")
+	if err := session.beginRequest(); nil != err {
+		return err
 	}
 
 	request := fmt.Sprintf(("TEARDOWN %s RTSP/1.0\r\n" +
-- 
2.43.0


From 43d35209bbf687a5e317d6b12a0ba88461ab7a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 58/64] fix: control URLs of a presentation URL that ends with
 a slash

---
 rtspclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 78f50c2..6db31e7 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -8,6 +8,7 @@ import (
 	"net"
 	"net/url"
 	"strconv"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -303,7 +304,7 @@ func (session *RtspClientSession) sendRequest() error {
 			// } else {
 			// 	strTrackURL = session.rtspContext.rtspURL + "/" + strTrackURL
 			// }
-			strTrackURL = session.rtspContext.rtspURL + "/" + strTrackURL
+			strTrackURL = strings.TrimSuffix(session.rtspContext.rtspURL, "/") + "/" + strTrackURL
 		}
 		rtpIndex := index * 2
 		rtcpIndex := index*2 + 1
-- 
2.43.0


From 36fba80cc5c8f871cf68828774f26811b9a2a6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 59/64] fix: a control URL is absolute when it has a scheme,
 and may be missing

---
 rtspclient.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 6db31e7..26369c9 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -297,7 +297,10 @@ func (session *RtspClientSession) sendRequest() error {
 
 	for index, media := range session.sdpInfo.Medias {
 		strTrackURL := media.TrackURL
-		if len(strTrackURL) < 4 || ("rtsp" != string(strTrackURL[:4]) && "RTSP" != string(strTrackURL[:4])) {
+		if "" == strTrackURL {
+			// a media without a control URL is controlled by that of the presentation
+			strTrackURL = session.rtspContext.rtspURL
+		} else if len(strTrackURL) < 4 || !strings.EqualFold("rtsp", strTrackURL[:4]) || !strings.Contains(strTrackURL, "://") {
 			// if strings.Contains(session.rtspContext.rtspURL, "?") {
 			// 	paramStartIndex := strings.Index(session.rtspContext.rtspURL, "?")
 			// 	strTrackURL = session.rtspContext.rtspURL[:paramStartIndex] + "/" + strTrackURL + session.rtspContext.rtspURL[paramStartIndex:]
-- 
2.43.0


From 051f21b3750296a6b1d14b69ac2cc8d89821c0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 60/64] fix: codec names have no case

---
 rtpparser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rtpparser.go b/rtpparser.go
index e36817a..b3bb7a3 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -2,6 +2,7 @@ package rtspclient
 
 import (
 	"log"
+	"strings"
 )
 
 const (
@@ -84,7 +85,8 @@ func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int
 }
 
 func getRTPSourceHandler(codecName string) IRtpParseInterface {
-	switch codecName {
+	// encoding names have no case
+	switch strings.ToUpper(codecName) {
 	case "H264":
 		{
 			return &H264RtpParser{}
@@ -93,7 +95,7 @@ func getRTPSourceHandler(codecName string) IRtpParseInterface {
 		{
 			return &HevcRtpParser{}
 		}
-	case "bbw":
+	case "BBW":
 		{
 			return &MarkRtpParser{}
 		}
-- 
2.43.0


From f7e2402d30eb40406f2b1f97a8d076ef2e48f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 61/64] fix: the control URL * is that of the presentation

---
 rtspclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 26369c9..3478bd2 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -297,7 +297,7 @@ func (session *RtspClientSession) sendRequest() error {
 
 	for index, media := range session.sdpInfo.Medias {
 		strTrackURL := media.TrackURL
-		if "" == strTrackURL {
+		if "" == strTrackURL || "*" == strTrackURL {
 			// a media without a control URL is controlled by that of the presentation
 			strTrackURL = session.rtspContext.rtspURL
 		} else if len(strTrackURL) < 4 || !strings.EqualFold("rtsp", strTrackURL[:4]) || !strings.Contains(strTrackURL, "://") {
-- 
2.43.0


From 13f09285aac4a5ff186f74f027e8d40e29614e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 62/64] fix: the format parameters are those of the default
 format

---
 sdpparser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sdpparser.go b/sdpparser.go
index 65b8418..7c30e79 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -97,6 +97,12 @@ func parsingSDP(sdp string) *SDPInfo {
 		}
 
 		sdpFmtp := meidaInfo.Attributes.Value("fmtp")
+		for _, fmtp := range meidaInfo.Attributes.Values("fmtp") {
+			if strings.HasPrefix(fmtp, strFormat+" ") {
+				sdpFmtp = fmtp
+				break
+			}
+		}
 		if "" != sdpFmtp {
 			sdpInfo.Medias[index].Fmtp = getFmtParame(sdpFmtp)
 			log.Print(sdpFmtp)
-- 
2.43.0


From b57d2cc75720acb19cb6a53b392eaa9b847cd4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 63/64] fix: a header may have several challenges

---
 rtspparser.go | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index e2f4892..4d2918c 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -2,7 +2,6 @@ package rtspclient
 
 import (
 	"errors"
-	"fmt"
 	"strconv"
 	"strings"
 )
@@ -81,35 +80,44 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 			// without the parameters, such as the timeout
 			context.sessionID = strings.TrimSpace(strings.SplitN(theValue, ";", 2)[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
-			authenticateType, realm, nonce, _, algorithm := parsingAuthenticate(theValue)
-			if strings.EqualFold("Digest", authenticateType) {
-				if "" != algorithm && !strings.EqualFold("MD5", algorithm) {
-					// cannot be answered, another challenge may follow
-					continue
+			// a header may have several challenges
+			for "" != strings.TrimSpace(theValue) {
+				var authenticateType, realm, nonce, algorithm string
+				authenticateType, realm, nonce, _, algorithm, theValue = parsingAuthenticate(theValue)
+				if strings.EqualFold("Digest", authenticateType) {
+					if "" != algorithm && !strings.EqualFold("MD5", algorithm) {
+						// cannot be answered, another challenge may follow
+						continue
+					}
+					context.digestAuthenticator = NewAuthenticator()
+					context.digestAuthenticator.realm = realm
+					context.digestAuthenticator.nonce = nonce
+					context.digestAuthenticator.authenicatorType = AuthenticatorTypeDigest
+				} else if strings.EqualFold("Basic", authenticateType) {
+					context.basicAuthenticator = NewAuthenticator()
+					context.basicAuthenticator.realm = realm
+					context.basicAuthenticator.authenicatorType = AuthenticatorTypeBasic
 				}
-				context.digestAuthenticator = NewAuthenticator()
-				context.digestAuthenticator.realm = realm
-				context.digestAuthenticator.nonce = nonce
-				context.digestAuthenticator.authenicatorType = AuthenticatorTypeDigest
-			} else if strings.EqualFold("Basic", authenticateType) {
-				context.basicAuthenticator = NewAuthenticator()
-				context.basicAuthenticator.realm = realm
-				context.basicAuthenticator.authenicatorType = AuthenticatorTypeBasic
 			}
 		}
 	}
 	return nil
 }
 
-func parsingAuthenticate(authenticateValue string) (string, string, string, string, string) {
+// parsingAuthenticate parses the first challenge and returns what follows it too
+func parsingAuthenticate(authenticateValue string) (string, string, string, string, string, string) {
 	var realm string
 	var nonce string
 	var stale string
 	var algorithm string
 	var authenticateType string
 
-	fmt.Sscanf(authenticateValue, " %s ", &authenticateType)
-	params := strings.TrimPrefix(strings.TrimSpace(authenticateValue), authenticateType)
+	params := strings.TrimSpace(authenticateValue)
+	if index := strings.IndexAny(params, " \t,"); -1 != index {
+		authenticateType, params = params[:index], params[index:]
+	} else {
+		authenticateType, params = params, ""
+	}
 	for "" != params {
 		// one <name>=<value> of the list, the value may be quoted
 		index := strings.Index(params, "=")
@@ -117,6 +125,10 @@ func parsingAuthenticate(authenticateValue string) (string, string, string, stri
 			break
 		}
 		name := strings.ToLower(strings.Trim(params[:index], " \t,"))
+		if strings.ContainsAny(name, " \t") {
+			// the scheme of the next challenge stands before its first parameter
+			return authenticateType, realm, nonce, stale, algorithm, strings.TrimLeft(params, " \t,")
+		}
 		params = strings.TrimLeft(params[index+1:], " \t")
 		var value string
 		if strings.HasPrefix(params, "\"") {
@@ -144,5 +156,5 @@ func parsingAuthenticate(authenticateValue string) (string, string, string, stri
 			algorithm = value
 		}
 	}
-	return authenticateType, realm, nonce, stale, algorithm
+	return authenticateType, realm, nonce, stale, algorithm, ""
 }
-- 
2.43.0


From 58683c77ba011444f9986365755b0dbd4057a1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 64/64] fix: the opaque value of a challenge is returned

---
 authenticator.go |  9 +++++++--
 rtspparser.go    | 14 +++++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/authenticator.go b/authenticator.go
index 0ffe8e4..54dfafa 100644
--- a/authenticator.go
+++ b/authenticator.go
@@ -16,6 +16,7 @@ const (
 type Authenticator struct {
 	realm            string
 	nonce            string
+	opaque           string
 	username         string
 	password         string
 	authenicatorType int
@@ -45,8 +46,12 @@ func (authenticator *Authenticator) createAuthenticatorString(cmd, url string) s
 		// or, if "PasswordIsMD5" is True:
 		//    md5(<password>:<nonce>:md5(<cmd>:<url>))
 		strResponse := MD5StringToString(MD5StringToString(authenticator.username+":"+authenticator.realm+":"+authenticator.password) + ":" + authenticator.nonce + ":" + MD5StringToString(cmd+":"+url))
-		authenticatorString = "Authorization: Digest username=\"%s\", realm=\"%s\", nonce=\"%s\", uri=\"%s\", response=\"%s\"\r\n"
-		authenticatorString = fmt.Sprintf(authenticatorString, authenticator.username, authenticator.realm, authenticator.nonce, url, strResponse)
+		authenticatorString = "Authorization: Digest username=\"%s\", realm=\"%s\", nonce=\"%s\", uri=\"%s\", response=\"%s\"%s\r\n"
+		var opaque string
+		if "" != authenticator.opaque {
+			opaque = fmt.Sprintf(", opaque=\"%s\"", authenticator.opaque)
+		}
+		authenticatorString = fmt.Sprintf(authenticatorString, authenticator.username, authenticator.realm, authenticator.nonce, url, strResponse, opaque)
 	}
 	return authenticatorString
 }
diff --git a/rtspparser.go b/rtspparser.go
index 4d2918c..80e3539 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -82,8 +82,8 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
 			// a header may have several challenges
 			for "" != strings.TrimSpace(theValue) {
-				var authenticateType, realm, nonce, algorithm string
-				authenticateType, realm, nonce, _, algorithm, theValue = parsingAuthenticate(theValue)
+				var authenticateType, realm, nonce, opaque, algorithm string
+				authenticateType, realm, nonce, opaque, _, algorithm, theValue = parsingAuthenticate(theValue)
 				if strings.EqualFold("Digest", authenticateType) {
 					if "" != algorithm && !strings.EqualFold("MD5", algorithm) {
 						// cannot be answered, another challenge may follow
@@ -92,6 +92,7 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 					context.digestAuthenticator = NewAuthenticator()
 					context.digestAuthenticator.realm = realm
 					context.digestAuthenticator.nonce = nonce
+					context.digestAuthenticator.opaque = opaque
 					context.digestAuthenticator.authenicatorType = AuthenticatorTypeDigest
 				} else if strings.EqualFold("Basic", authenticateType) {
 					context.basicAuthenticator = NewAuthenticator()
@@ -105,9 +106,10 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 }
 
 // parsingAuthenticate parses the first challenge and returns what follows it too
-func parsingAuthenticate(authenticateValue string) (string, string, string, string, string, string) {
+func parsingAuthenticate(authenticateValue string) (string, string, string, string, string, string, string) {
 	var realm string
 	var nonce string
+	var opaque string
 	var stale string
 	var algorithm string
 	var authenticateType string
@@ -127,7 +129,7 @@ func parsingAuthenticate(authenticateValue string) (string, string, string, stri
 		name := strings.ToLower(strings.Trim(params[:index], " \t,"))
 		if strings.ContainsAny(name, " \t") {
 			// the scheme of the next challenge stands before its first parameter
-			return authenticateType, realm, nonce, stale, algorithm, strings.TrimLeft(params, " \t,")
+			return authenticateType, realm, nonce, opaque, stale, algorithm, strings.TrimLeft(params, " \t,")
 		}
 		params = strings.TrimLeft(params[index+1:], " \t")
 		var value string
@@ -150,11 +152,13 @@ func parsingAuthenticate(authenticateValue string) (string, string, string, stri
 			realm = value
 		case "nonce":
 			nonce = value
+		case "opaque":
+			opaque = value
 		case "stale":
 			stale = value
 		case "algorithm":
 			algorithm = value
 		}
 	}
-	return authenticateType, realm, nonce, stale, algorithm, ""
+	return authenticateType, realm, nonce, opaque, stale, algorithm, ""
 }
-- 
2.43.0

