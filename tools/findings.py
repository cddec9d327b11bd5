import json,subprocess
M={ # subject -> (property, what failed)
"do not drop data sent before the connection routine has started":("C11","messages sent right after Run() were silently dropped: the status became connected only when the routine was scheduled"),
"Send and Close racing with a disconnect must not panic nor leak the send routine":("C12","Send/Close racing with the disconnect: send on a closed channel panics, the send routine is left behind"),
"close the connection when writing fails, so that the disconnect is reported":("C12","after a write error the transport stayed open and disconnected was never reported"),
"a response timeout must not recurse through TEARDOWN for ever":("C09","a server that never answers: the timeout sends TEARDOWN, whose timeout sends TEARDOWN, ..."),
"closing a session that was never connected must not panic":("C10","Close before any connection: nil pointer"),
"an unsolicited or late response must not block the connection events":("C05","two responses to one request block the event routine for ever"),
"a session can be played again from its disconnected event":("C14","playing again inside the disconnected handler used the queues that were about to be closed"),
"truncated RTP packets must not crash the client":("C05","RTP packets shorter than their headers: index out of range"),
"the marker of a marker-framed stream is in the source packet":("C04","the marker bit was looked for in the wrong bytes"),
"HEVC aggregation units longer than 255 bytes":("C03","the 16-bit size of an HEVC aggregation unit was read as 8 bits"),
"split H264 aggregation packets into their NAL units":("C02","STAP-A packets were delivered wrongly"),
"a malformed session description must not end the process":("C05","log.Fatal on a malformed session description"),
"malformed responses are reported as errors, not by a panic":("C05","short or malformed responses: slice out of range"),
"an oversized content is an error of the stream, not a panic":("C05","content longer than the buffer: slice out of range"),
"authentication challenges with spaces, colons or another order of parameters":("C08","challenges were cut at colons and blanks, or their parameters missed"),
"the session identifier does not include its parameters":("C07","requests carried 'id;timeout=60'"),
"the Range header of PLAY":("C07","the start time was not formatted as a Range header"),
"TEARDOWN names its session and PAUSE is authenticated":("C07","TEARDOWN without its session, PAUSE without authorization"),
"the default port of IPv6 addresses":("C15","rtsp://[::1]/ was dialled without brackets"),
"the credentials of an URL must not be sent to the next one":("C14","user name and password of an earlier URL were kept"),
"data arriving during the handshake must not race with the channel map":("C10","map written by the handshake while data reads it: fatal error"),
"a session used again must not keep the tracks of its last server":("C14","tracks and channels of the earlier use remained"),
"frames of the maximum length must not close the connection":("C01","a frame of 65535 bytes was refused"),
"an empty interleaved frame must not swallow the frames behind it":("C01","a frame of length 0 was taken for an unknown header"),
"playing over a websocket reports the failure of the handshake":("C22","PlayUseWebsocket returned nil whatever the handshake said"),
"websocket messages longer than the read buffer":("C22","the rest of a message longer than the read buffer was lost"),
"the addresses and deadlines of a websocket connection must not recurse for ever":("C22","LocalAddr and the deadline setters called themselves"),
"closing a websocket connection must close its transport":("C22","Close did not close the transport"),
"decoded repeat times must not be lost":("C16","r= lines were decoded into a copy and lost"),
"the TTL of a media connection belongs to the media":("C18","the TTL of a media's c= line was written to the session's connection"),
"the number of addresses of an IPv6 connection":("C16","IPv6 address counts were taken as a TTL"),
"a TTL or number of addresses over 255 is an error":("C17","TTLs over 255 wrapped around"),
"several timings or repeat times, and time zones behind them, are valid":("C17","more than one t= or r= line, or z= behind them, was refused"),
"an empty interval must not panic":("C17","an empty interval: index out of range"),
"format parameters separated by semicolons only":("C21","'a=1;b=2' without a blank was one parameter"),
"a media of several formats is described by its first one":("C21","the description of another format of the media was reported"),
"a session without a meaningful name is valid":("C16","'s= ' or an empty name was refused"),
"a peer which stops reading must not keep the connection from being closed":("C12","a blocked write kept the connection open for ever"),
"a refused description must not tear down the session before":("C14","the session identifier of the earlier use was still named"),
"lines of a session description out of order are an error":("C17","lines out of order were accepted"),
"an interval which does not fit is an error":("C17","overflowing intervals wrapped around"),
"frame rates with a blank or decimals":("C21","'a=framerate: 25' or '29.97' gave no frame rate"),
"a tab around a header's name or value is a blank too":("C23","'Content-Length:\\t5' gave the length 0"),
"a response without a status is an error":("C23","'RTSP/1.0 abc' was accepted with the status 0"),
"the handler of the connected event must be able to send":("C11","the send routine started only after the connected event was handled: with a full (or unbuffered) queue a send from the handler blocked for 5 s and closed the connection"),
"a session must not be played again before its disconnect is reported":("C10","Close, then Play at once: the new connection shared the event queue of the old one, so that its disconnect was lost"),
"a request left without a wait must not block the next connection":("C14","a request nobody waited for (SendPause, then the connection ends) made the next Play send no DESCRIBE and time out"),
"a play which is still returning must not disturb the next one":("C10","played again from the disconnected event while the first Play had not returned: the new requests were refused or their answers taken by the old call"),
"a connected session must not be connected again over a websocket":("C22","PlayUseWebsocket on a connected session replaced its connection, which was never closed"),
"only one of several concurrent callers sends the next request":("C27","two goroutines closing (or pausing) at once both passed the check for an outstanding answer: two TEARDOWNs with the same CSeq"),
"a request of the handshake which was refused ends it":("C27","Close during Play: the answer to TEARDOWN was taken for that to the refused PLAY, and Play succeeded without sending it"),
"data without a data handler crashed the process":("C26","a session made with a nil data handler panicked on the first packet"),
"the scheme of an authentication challenge has no case":("C08","a challenge 'digest realm=...' was ignored"),
"a digest challenge for another algorithm was answered with MD5":("C08","a challenge for SHA-256 behind one for MD5 was answered, with MD5"),
"contributing sources, header extension and padding are no media":("C04","RTP packets with CSRCs, an extension or padding delivered these as media"),
"the end of a stream without packet lengths was never noticed":("C13","a protocol without header, length and terminator: empty data events without end after the stream has ended"),
"requests of a session which was never connected panicked":("C09","requests and waits on a session that was never connected: nil pointer"),
"control URLs of a presentation URL that ends with a slash":("C06","the control 'track1' of 'rtsp://h/live/' was set up as 'rtsp://h/live//track1'"),
"a control URL is absolute when it has a scheme, and may be missing":("C06","the relative control 'rtsp_track1' was set up as it stands; without a control line the URL of the presentation got a slash"),
"codec names have no case":("C04","'h264' or 'Hevc' in the mapping: packets were delivered raw, not as NAL units"),
"the control URL * is that of the presentation":("C06","'a=control:*' was set up as '<url>/*'"),
"the format parameters are those of the default format":("C21","with parameters of several formats the last ones won, whatever the format of the entry"),
"a header may have several challenges":("C08","'WWW-Authenticate: Basic realm=..., Digest realm=..., nonce=...' was taken for one challenge"),
"the opaque value of a challenge is returned":("C08","the opaque value of a digest challenge was not in the answer"),
}
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','d5b5e68..HEAD'],text=True).splitlines()
F=[]
for l in log:
    h,s=l.split(' ',1)
    k=s.removeprefix('fix: ')
    assert k in M,k
    p,w=M[k]
    F.append(dict(property=p,match="",detail="",what=w,fixed=f"fixed: property={p} {h} {w}"))
OPEN=[]
json.dump(dict(findings=OPEN+F),open('/verif/known_findings.json','w'),indent=1); open('/verif/known_findings.json','a').write('\n')
