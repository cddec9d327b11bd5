import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
NOROOT="Only the SDP library has tests; nothing in the client or the connection layer is exercised by any test, "
p("C01","Stream framing does not depend on how TCP cuts the stream",
 "A server stream of complete RTSP responses (with or without a body) and interleaved '$' frames of any length from 0 to 65535 is split into exactly those units, in order, each with exactly its own bytes, whatever the segments the transport delivers. A body is as long as the response's content length says and is never taken for the next unit, and a unit whose end has not arrived yet is not delivered.",
 ["inputs","schedules"],"all sequences of units, all frame lengths and channels, all cuts of the byte stream into segments",
 NOROOT+"and a cut in the middle of a header, blank line or body cannot be chosen by a test over a socket.",
 ["tcpnetwork/tcpnetwork.go","rtpstreamprotocol.go","rtspclient.go"],
 [("header, terminator and content reads","tcpnetwork/tcpnetwork.go:unpack"),("frame length and response terminator","rtpstreamprotocol.go:UnserializeHeader")],
 ["connection data events","units handed to the data handler","responses returned to the caller"])
p("C02","H264 packets are turned back into the NAL units that were sent",
 "For an H264 track, every NAL unit a server packs as a single NAL unit packet, inside a STAP-A aggregation or as consecutive FU-A fragments is delivered to the data handler exactly once, byte for byte (with the original NAL header rebuilt), in the order sent. One unit is delivered per NAL unit, nothing else is delivered, fragments of different tracks may interleave, contributing sources, header extensions and padding of the RTP packets are not part of it, and a delivered unit is never changed afterwards.",
 ["inputs","histories"],"all NAL types, sizes, reference bits, packetisations and packet sequences, on one or several tracks, whatever the sequence numbers, times, sources and markers of the RTP headers",
 NOROOT+"and packetisation mixes and size boundaries (255/256, 1-byte units, start/end bits) are far too many for examples.",
 ["h264rtpparser.go","rtpparser.go","rtspclient.go"],
 [("fragment and aggregation headers","h264rtpparser.go:SplitHeader/ParsingRtp"),("accumulation until complete","rtpparser.go:pushData")],
 ["units handed to the data handler"])
p("C03","HEVC packets are turned back into the NAL units that were sent",
 "For an H265/HEVC track, every NAL unit a server packs as a single NAL unit packet, inside an aggregation packet or as consecutive fragmentation units is delivered to the data handler exactly once, byte for byte (with the original two-byte NAL header rebuilt), in the order sent. One unit is delivered per NAL unit, nothing else is delivered, fragments of different tracks may interleave, contributing sources, header extensions and padding of the RTP packets are not part of it, and a delivered unit is never changed afterwards.",
 ["inputs","histories"],"all NAL types, layer and temporal ids, sizes, packetisations and packet sequences, on one or several tracks, whatever the sequence numbers, times, sources and markers of the RTP headers",
 NOROOT+"and the header bit fields and 16-bit sizes have thousands of values.",
 ["hevcrtpparser.go","rtpparser.go","rtspclient.go"],
 [("fragment and aggregation headers","hevcrtpparser.go:SplitHeader/ParsingRtp"),("accumulation until complete","rtpparser.go:pushData")],
 ["units handed to the data handler"])
p("C04","Media data reaches the handler of the right track and only that",
 "The k-th media of the session description is set up on interleaved channels 2k and 2k+1, and RTP arriving on channel 2k is delivered with that channel number and that session, using that media's own codec rules; control channels and channels that were never set up deliver nothing. For codecs without their own rules each RTP packet's payload (without contributing sources, header extension and padding) is delivered as one unit, and for the marker-framed codec the payloads are concatenated and delivered as one unit when the RTP marker is set.",
 ["inputs","histories","configurations"],"all codec assignments to tracks, all channels 0-255, all sequences of packets and marker bits",
 NOROOT+"so no combination of tracks, channels and marker bits is covered.",
 ["rtspclient.go","rtpparser.go","simplertpparser.go","markrtpparser.go"],
 [("channel map","rtspclient.go:sendRequest/parsingRtp"),("codec selection","rtpparser.go:getRTPSourceHandler")],
 ["units handed to the data handler","Transport header of SETUP"])
p("C05","Nothing a server sends can crash, exit or wedge the client",
 "Whatever bytes a server sends, before, during or after the handshake (malformed status lines, headers, authentication challenges, session descriptions, lengths, truncated or garbage RTP), the client process neither panics nor exits. The pending call returns, and once the server has closed the connection the disconnected event is delivered and nothing of the session keeps running.",
 ["inputs","fault_sequences"],"all byte-level corruptions, truncations and deletions of every message of a session, all short RTP packets of every codec",
 NOROOT+"and the corrupt inputs form a space that examples do not cover; a crash kills the whole host application.",
 ["rtspclient.go","rtspparser.go","sdpparser.go","h264rtpparser.go","hevcrtpparser.go","rtpparser.go","tcpnetwork/tcpnetwork.go"],
 [("length guards","rtspclient.go:parsingRtp, rtspparser.go:ParserRtspResponse"),("recover in the read routine","tcpnetwork/tcpnetwork.go:routineMain")],
 ["process exit","session events","goroutines left"])
p("C06","The handshake follows the protocol and its outcome is reported truthfully",
 "Playing sends DESCRIBE, then one SETUP per media in the order of the description on that media's control URL (an absolute one as it is, a relative one behind the URL of the presentation with one slash between, the URL of the presentation itself for '*' or without one), then PLAY, each only after a 200 answer to the previous one. The call returns nil and reports the success event exactly when every answer was 200 and the description had at least one media; otherwise no further step is sent, an error is returned and the error event is reported, exactly once, and never both.",
 ["inputs","histories","fault_sequences"],"all answer sequences: every status code at every step, malformed or missing answers, any number of media, relative and absolute control URLs",
 NOROOT+"and the product of answers at each step is only reachable by enumeration.",
 ["rtspclient.go"],[("step sequence and deferred event","rtspclient.go:sendRequest")],
 ["requests received by the server","return value","session events"])
p("C07","Requests are well-formed, numbered by one, and one at a time",
 "Every request on the wire is a complete RTSP/1.0 request; its CSeq is one more than that of the request before, and all requests about an established session carry the session identifier the server gave, without its parameters. While an answer is outstanding a further request is refused with an error and nothing is sent, and an answer that comes while nothing is outstanding is never taken for the answer to a later request; start time and speed given to PLAY appear as its Range and Speed headers.",
 ["inputs","histories"],"all sequences of request and wait operations after the handshake, all session header forms, start times and speeds",
 NOROOT+"and the guard on outstanding requests depends on the history of calls.",
 ["rtsprequest.go","rtspclient.go","rtspparser.go"],
 [("one outstanding request","rtsprequest.go:rtspRequestInitial"),("CSeq","rtsprequest.go:sendRequst"),("session id","rtspparser.go:ParserRtspResponse")],
 ["requests received by the server","return values"])
p("C08","Authentication answers the challenge and never leaks credentials",
 "When DESCRIBE is answered with 401 and the URL has a user name and password, DESCRIBE is sent once more with a correct answer to the challenge (Digest with MD5 if offered, otherwise Basic, in any spelling and order of the challenges, in one header or several; with the opaque value of the challenge if it had one), and every later request of the session carries a correct authorization for its own method. Without a challenge no authorization is sent, a second 401 ends the attempt with an error, and user name and password never appear in a request URI.",
 ["inputs","histories"],"all challenge forms (schemes, order and number of parameters, quoted strings with spaces, commas, colons), credentials, and answer sequences",
 NOROOT+"and correctness of the digest depends on how an open-ended header is parsed.",
 ["authenticator.go","rtspparser.go","rtsprequest.go","rtspclient.go"],
 [("challenge parsing","rtspparser.go:parsingAuthenticate"),("digest","authenticator.go:createAuthenticatorString"),("single retry","rtspclient.go:sendRequest")],
 ["requests received by the server","return value"])
p("C09","Every call returns in bounded time, whatever the server withholds",
 "If the server stops answering or closes the connection at any byte of any answer, the call in progress returns an error within a few seconds of the last request sent. After a response timeout the transport is closed and the disconnected event is delivered exactly once; closing a session whose server no longer answers also returns in a few seconds and closes the transport. Calls on a session that was never connected fail as quickly, crash nothing, and leave it usable.",
 ["fault_sequences","crash_points"],"all silence and close points (every step, every byte offset of the answer), data frames arriving meanwhile, and the calls in progress",
 NOROOT+"and timeouts at every byte offset need a virtual clock.",
 ["rtspclient.go","tcpnetwork/tcpnetwork.go"],
 [("response timeout","rtspclient.go:WaitRtspResponse"),("queue closed on disconnect","rtspclient.go:HandleConn")],
 ["return value and virtual time","transport close","session events"])
p("C10","A session ends exactly once, in every interleaving",
 "However playing, closing, arriving data and loss of the connection interleave, a session whose connection was established reports the disconnected event exactly once; neither data nor a second disconnection of that connection follows (only the outcome of a play call that is still returning may). Playing again, even at once, is refused or works undisturbed by the connection before. No interleaving panics or deadlocks, and afterwards nothing of the session keeps running and its transport is closed.",
 ["schedules","fault_sequences"],"all interleavings (up to a preemption bound) of the caller, the event pump, the reader and the writer with the server's actions",
 NOROOT+"and a race needs a schedule that a test cannot choose.",
 ["rtspclient.go","tcpnetwork/tcpnetwork.go"],
 [("event pump","rtspclient.go:HandleConn"),("connection routines","tcpnetwork/tcpnetwork.go:routineMain/routineSend")],
 ["session events and data in order","goroutines left","transport close"])
p("C11","A connection sends exactly what was queued, in order, in every interleaving",
 "Messages accepted by one sender while the connection stays up reach the transport completely, once, in the order sent, unmixed with those of other senders, each behind its own protocol header when the protocol has one. Closing sends everything queued before it, then closes the transport; a message sent by copy is not affected by later changes to the caller's buffer.",
 ["schedules","histories"],"all interleavings (up to a preemption bound) of senders, closer and the writer, all queue capacities including full queues",
 NOROOT+"and ordering must hold for every interleaving.",
 ["tcpnetwork/tcpnetwork.go"],[("send queue","tcpnetwork/tcpnetwork.go:sendRaw/routineSend"),("close marker in the queue","tcpnetwork/tcpnetwork.go:Close")],
 ["bytes written to the transport","transport close"])
p("C12","A connection reports connect, data and one disconnect, whatever races with it",
 "A running connection reports connected first, then the received packets in order, then disconnected exactly once, and nothing after; its status is connected until then and disconnected after. Sends and closes racing with a peer close, a read error, a write error or each other never panic, never block longer than the send timeout, and leave the transport closed and nothing running. A panic of the event handler (on connected or data) or of the protocol while reading ends the connection like a read error.",
 ["schedules","fault_sequences"],"all interleavings (up to a preemption bound) of send, close, peer close and read or write failure at every operation",
 NOROOT+"and the window between the end of the reader and a concurrent send cannot be hit reliably by a test.",
 ["tcpnetwork/tcpnetwork.go"],[("end of the connection routine","tcpnetwork/tcpnetwork.go:routineMain"),("status and quit channel","tcpnetwork/tcpnetwork.go:close/Close/sendRaw")],
 ["connection events","status","goroutines left","transport close"])
p("C13","A connection frames any stream protocol exactly, or disconnects",
 "For any stream protocol given by header length, body length or terminator and content length, the data events are exactly the complete packets of the byte stream (header, body and content), in order, for every segmentation. If the stream ends or fails inside a packet, or a header, body or content stays incomplete for longer than the read timeout, the complete packets before it are delivered, the partial one is not, and disconnected is reported. A protocol that gives neither a length nor a terminator gets the bytes of the stream as they come, up to its end.",
 ["inputs","crash_points","configurations"],"all packet sequences, terminators (including self-overlapping ones), segmentations, end-of-stream offsets and silence points",
 NOROOT+"and every offset of every cut has to be right.",
 ["tcpnetwork/tcpnetwork.go","tcpnetwork/tcpinterface.go"],[("packet assembly and deadlines","tcpnetwork/tcpnetwork.go:unpack"),("full reads","tcpnetwork/tcpnetwork.go:read")],
 ["connection events"])
p("C14","A reused session behaves like a new one",
 "After the connection of a session has ended (closed, lost or after a failed attempt), playing with it again behaves exactly as with a new session apart from the sequence numbers: same requests, same result, same events, same media description and same delivered data. In particular no track, partial unit, credential, challenge, session identifier or late answer of the earlier use has any effect, even when it is played again from its own disconnected event.",
 ["histories"],"all pairs (and triples) of an earlier use ending at any step in any way and a later use",
 NOROOT+"and leftovers only show for particular pairs of histories.",
 ["rtspclient.go","rtsprequest.go"],[("per-use reset","rtspclient.go:sendRequest/ParsingURL/HandleConn")],
 ["requests received by the server","return value","session events","delivered data","media map"])
p("C15","The client connects to, and asks for, what the URL says",
 "Playing an RTSP URL connects to the URL's host and port, or port 554 if it has none, for host names, IPv4 and IPv6 addresses. Requests name the URL as given (path, query and port included) without the user information, and an URL that cannot be parsed or a server that cannot be reached gives an error.",
 ["inputs"],"all combinations of host form, port, user information, path and query",
 NOROOT+"and each combination is a separate input.",
 ["rtspclient.go"],[("URL parsing","rtspclient.go:ParsingURL"),("dialling","rtspclient.go:Play")],
 ["address dialled","requests received by the server"])
SDPT="The SDP tests decode and encode a fixed set of example files, "
p("C16","Encoding a session description and decoding it again gives it back",
 "Any session description with valid field values (origin, names, connection data of both address families, bandwidths, one or more timings with repeat times, time zones, encryption keys, attributes, media) is reproduced exactly by encoding and decoding it.",
 ["inputs","configurations"],"all combinations of present and absent fields, up to two or three timings, repeats and media, with boundary values",
 SDPT+"one or two messages each; combinations of optional fields and repeated sections are not covered.",
 ["sdp/encoder.go","sdp/decoder.go","sdp/fields.go"],[("field encoders","sdp/fields.go"),("section decoder","sdp/decoder.go:decodeSession")],
 ["decoded message"])
p("C17","The SDP decoder never crashes and accepts only well-formed descriptions",
 "For every byte string the SDP decoder returns a message or an error, without panicking or looping. Lines of unknown type, malformed or overflowing values, and version, origin, name, URI, e-mail, phone, timing, repeat and time zone lines out of order or inside a media give an error rather than a message, while descriptions in the order of the standard are accepted.",
 ["inputs"],"all sequences of line types up to a length, all byte-level mutations of well-formed lines, all field values at their boundaries",
 SDPT+"about fifty hand-made malformed files; the ordering automaton has thousands of line sequences.",
 ["sdp/decoder.go","sdp/sdp.go"],[("line order","sdp/decoder.go:isExpected"),("field parsers","sdp/decoder.go:decode*")],
 ["returned message or error"])
p("C18","SDP fields belong to the section they are written in",
 "Connection data, bandwidths, encryption key, attributes and title of a media appear in that media only, and those of the session in the session only; values of one media never show in another. Repeated attributes keep their order, and repeat times belong to the timing before them.",
 ["inputs","configurations"],"all assignments of fields and values to the session and up to three media",
 SDPT+"with at most two media and few fields in each.",
 ["sdp/decoder.go"],[("section state","sdp/decoder.go:decodeMedia/decodeTiming")],
 ["decoded message"])
p("C19","SDP lines survive encoding and decoding, and buffer reuse does not alias",
 "Any list of lines (type and non-empty value without line breaks or outer blanks) is reproduced by encoding it to text and decoding the text, with either line ending. Decoding into, or building in, a reused line list gives the same result as in a new one, and never changes the text it was decoded from or messages decoded before.",
 ["inputs","histories"],"all line lists up to a length over a value alphabet, all sequences of reuse of one buffer by different descriptions",
 SDPT+"and reuse only with the same description again.",
 ["sdp/sdp.go","sdp/fields.go","sdp/decoder.go"],[("line scanner","sdp/sdp.go:DecodeSession"),("value reuse","sdp/sdp.go:getLine")],
 ["decoded lines","earlier results"])
p("C20","NTP times and SDP intervals convert exactly",
 "Converting a whole-second time to NTP and back, and an NTP value to a time and back, is the identity for every value, with zero standing for no time. Every whole-second interval, compact or not, positive or negative, is decoded to the duration that was encoded, using exactly the units d, h, m and s.",
 ["inputs"],"all interval values around every unit boundary and a dense range, all NTP values around the era boundaries",
 SDPT+"with a handful of interval strings.",
 ["sdp/fields.go","sdp/decoder.go"],[("NTP conversion","sdp/fields.go:TimeToNTP/NTPToTime"),("intervals","sdp/fields.go:appendInterval, sdp/decoder.go:decodeInterval")],
 ["decoded values"])
p("C21","The media information given to the user is what the description says",
 "After a successful handshake the media map has exactly one entry per media, under its RTP channel, with the media type, payload number, control URL, codec name, clock rate and channel count (from the static payload table or the matching rtpmap), frame rate, dimensions and the format parameters given for that payload number. Values containing '=' and parameters separated by ';' with or without blanks are preserved, and attributes of one media never show in another.",
 ["inputs","configurations"],"all static payload types, rtpmap/fmtp/framerate/dimension forms and their combinations over up to three media",
 NOROOT+"so no description is ever turned into media information by a test.",
 ["sdpparser.go","rtspclient.go"],[("media information","sdpparser.go:parsingSDP"),("media map","rtspclient.go:sendRequest")],
 ["the session's media map"])
p("C22","Playing over a websocket is equivalent to playing over TCP",
 "For every server stream and every cut of it into websocket messages, of any size including empty and larger than the client's buffers, playing over a websocket has the same result, events, delivered data and requests (each a binary message) as over TCP. When the session ends, by either side, the websocket is closed and its transport released, and connection addresses and deadlines are those of the underlying connection.",
 ["inputs","schedules","fault_sequences"],"all cuts of the server stream into messages, message sizes around buffer sizes, close and failure points",
 NOROOT+"and no websocket server exists in the tests.",
 ["websocketconn.go","rtspclient.go"],[("message to stream adaptation","websocketconn.go:Read/Write"),("websocket dialling","rtspclient.go:PlayUseWebsocket")],
 ["delivered data","session events","frames received by the websocket server"])
p("C23","Response headers are understood in every legal spelling",
 "The status and content length of an RTSP response are those written in it, whatever the other headers, their order, letter case, blanks around names and values, or colons inside values. A response that is truncated, has no status, or has no blank line at its end is reported as an error and never crashes.",
 ["inputs"],"all permutations and spellings of a header set, all status codes, content lengths, and truncations of a response",
 NOROOT+"so no response is parsed by any test.",
 ["rtspparser.go","rtpstreamprotocol.go"],[("response parsing","rtspparser.go:ParserRtspResponse"),("content length","rtpstreamprotocol.go:GetContentLength")],
 ["parsed status","content length"])
p("C24","Sessions in one process do not affect each other",
 "Any number of sessions may be played at the same time in one process. Each behaves exactly as it would alone: it sends the same requests with its own sequence numbers, session id and credentials, has the same result and events, reports the same media and delivers the same data, each unit to its own handler, however the calls, answers, data (also half received packets) and ends of the sessions interleave and whatever they have in common (codec, host, realm, session id).",
 ["schedules","histories"],"all merges of the steps of two and three sessions' scripts, and all schedules of sessions running at the same time, up to the stated number of switches",
 NOROOT+"and no test has two sessions at once; a mix-up needs a particular step of one between two steps of the other.",
 ["rtspclient.go","rtsprequest.go","rtpparser.go","rtspparser.go","tcpnetwork/tcpnetwork.go","sdpparser.go"],
 [("per-session context","rtsprequest.go:NewRtspClientContext"),("per-track reassembly","rtpparser.go:newRtpParser"),("per-connection buffers","tcpnetwork/tcpnetwork.go:routineRead"),("per-session authenticator","rtspparser.go:ParserRtspResponse")],
 ["requests received by each server","session events","delivered data","media map"])
p("C25","SDP values compare, look up and print exactly",
 "Two lines, sessions, origins, connection data or encryptions are equal exactly when all their fields are (addresses when they are the same address), and blank exactly when all are zero. Attributes and flags added to a message, a media or a session are all kept, in order, under exactly their name, and Flag, Value, Values and Attribute tell exactly what was added. Start and End are those of the first timing. Connection data print as they are written, with TTL and number of addresses exactly when not zero, lines print as the name of their type and their value.",
 ["inputs","histories"],"all pairs of values over a few values per field, all sequences of additions up to a length with every look-up after each, all TTLs and numbers of addresses",
 SDPT+"comparing values which differ in one field each and looking up a name or two.",
 ["sdp/sdp.go","sdp/fields.go","sdp/decoder.go"],[("comparison","sdp/sdp.go:Equal, sdp/fields.go:Equal/Blank"),("look-ups and additions","sdp/decoder.go:Attributes, addAttribute"),("text forms","sdp/fields.go:ConnectionAddress")],
 ["results of the methods"])
p("C26","Slow handlers lose nothing and own the data they are given",
 "However long the data handler takes, and however much the server sends meanwhile, every unit sent before the end of the connection is delivered exactly once and in order, one call at a time, and the disconnected event comes after the last one; a slow handler alone never ends the connection. Media which comes before the answer to PLAY is delivered too, and an event handler which is busy with the success event does not hold up data. The data belong to the handler: keeping, overwriting or appending to them affects no other unit, delivered earlier or later. A handler which is nil is not called, and nothing else differs.",
 ["schedules","inputs","histories"],"all choices of up to two slow deliveries and durations, cuts and ends of the stream, uses of the data by the handler; backlogs up to the stated size",
 NOROOT+"and a handler's slowness matters only at particular deliveries and for particular durations (timeouts).",
 ["rtspclient.go","rtpparser.go","tcpnetwork/tcpnetwork.go"],[("hand-over of received packets","rtspclient.go:pushConnEvent/HandleConn"),("copy of assembled units","rtpparser.go:pushData"),("copy of packets","tcpnetwork/tcpnetwork.go:unpack")],
 ["units handed to the data handler","session events"])
p("C27","Concurrent calls never break the one-request-at-a-time protocol",
 "Calls about one session from several goroutines (play, pause, describe, setup, teardown, close, also while a play call is still in progress) may interleave in any way: each request on the wire is complete, numbered by one, and sent only when every earlier request was answered. Exactly the accepted calls are sent, a refused one sends nothing, an accepted one gets an answer unless the session is being closed, and a play call succeeds only if each step of the handshake was sent and answered with 200.",
 ["schedules"],"every schedule of two or three concurrent callers, the session's routines and the server, up to the stated number of deviations",
 NOROOT+"and two callers get in each other's way only when one is between its check and its send.",
 ["rtsprequest.go","rtspclient.go"],[("request exclusion","rtsprequest.go:beginRequest/sendRequst"),("handshake","rtspclient.go:sendRequest"),("waiting for answers","rtspclient.go:WaitRtspResponse"),("closing","rtspclient.go:Close")],
 ["requests received by the server","results of the calls","session events"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
