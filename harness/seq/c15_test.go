package seq

import (
	"fmt"
	"net"
	neturl "net/url"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/NodeBoy2/rtspclient"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C15",
		Rule: "every combination of user information, host form (name, IPv4, IPv6), port form, path and query, played over real loopback TCP " +
			"against listeners on every address and port involved; every ordered pair of URLs on one session; every malformed URL; every closed port; " +
			"non-trivial: all (each case is a whole session)",
		Assumptions: []string{"the loopback interface, name resolution of localhost", "host is present and path and query are legal URL text without a fragment"},
		Run:         c15,
		Workers:     1,
	})
}

// tcpServers are listeners that answer every request with success and note
// where each connection arrived and what was asked on it.
type tcpServers struct {
	mu    sync.Mutex
	ls    []net.Listener
	seen  []string // listener of each accepted connection
	reqs  []core.Request
	bad   []string
	conns []net.Conn
	wg    sync.WaitGroup
}

var oneTrack = []core.Track{{Kind: "video", Codec: "X", PT: 96, Control: "t1"}}

func (s *tcpServers) listen(addr string) error {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return err
	}
	s.ls = append(s.ls, l)
	go func() {
		for {
			cn, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.seen = append(s.seen, l.Addr().String())
			s.conns = append(s.conns, cn)
			s.mu.Unlock()
			s.wg.Add(1)
			go s.serve(cn)
		}
	}()
	return nil
}

func (s *tcpServers) serve(cn net.Conn) {
	defer s.wg.Done()
	defer cn.Close()
	mem := core.NewConn()
	p := &core.Peer{Conn: mem}
	p.Wire()
	good := core.GoodServer(oneTrack, "77")
	p.Answer = func(p *core.Peer, r core.Request) {
		s.mu.Lock()
		s.reqs = append(s.reqs, r)
		s.mu.Unlock()
		good(p, r)
		cn.Write(mem.Drain())
	}
	buf := make([]byte, 4096)
	for {
		n, err := cn.Read(buf)
		if err != nil {
			s.mu.Lock()
			s.bad = append(s.bad, p.Bad...)
			s.mu.Unlock()
			return
		}
		mem.Write(buf[:n])
	}
}

// reset ends all connections and forgets what was seen.
func (s *tcpServers) reset() {
	s.mu.Lock()
	for _, cn := range s.conns {
		if t, ok := cn.(*net.TCPConn); ok {
			t.SetLinger(0) // no TIME_WAIT: many thousand connections are made
		}
		cn.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
	s.mu.Lock()
	s.seen, s.reqs, s.bad, s.conns = nil, nil, nil, nil
	s.mu.Unlock()
}

// playOnce plays the URL and compares where it went and what was asked.
func (s *tcpServers) playOnce(se *rtspclient.RtspClientSession, disc chan int, url, want, asGiven string, secrets []string) error {
	err := se.Play(url)
	s.mu.Lock()
	seen, reqs, bad := append([]string(nil), s.seen...), append([]core.Request(nil), s.reqs...), append([]string(nil), s.bad...)
	s.mu.Unlock()
	s.reset()
	if err == nil || len(seen) > 0 {
		select {
		case <-disc:
		case <-time.After(10 * time.Second):
			if err == nil {
				return fmt.Errorf("no disconnected event in 10 s")
			}
		}
	}
	if err != nil {
		return fmt.Errorf("error %v; connections at %v", err, seen)
	}
	if len(seen) != 1 || seen[0] != want {
		return fmt.Errorf("connected to %v, want %s", seen, want)
	}
	if len(bad) > 0 {
		return fmt.Errorf("malformed request: %s", bad[0])
	}
	if len(reqs) != 3 {
		return fmt.Errorf("%d requests", len(reqs))
	}
	for _, r := range reqs {
		uri := r.URI
		if len(uri) > 4 && strings.EqualFold(uri[:4], "rtsp") {
			uri = "rtsp" + uri[4:]
		}
		switch {
		case r.Method == "SETUP":
			if !strings.HasPrefix(uri, asGiven) || !strings.HasSuffix(uri, "t1") {
				return fmt.Errorf("SETUP names %q, want %q and the control t1", r.URI, asGiven)
			}
		case uri != asGiven:
			return fmt.Errorf("%s names %q, want %q", r.Method, r.URI, asGiven)
		}
		for _, sec := range secrets {
			if strings.Contains(r.Raw, sec) {
				return fmt.Errorf("%s shows the user information %q: %q", r.Method, sec, r.Raw)
			}
		}
	}
	return nil
}

func c15(c *core.Ctx) {
	srv := &tcpServers{}
	defer func() {
		for _, l := range srv.ls {
			l.Close()
		}
		srv.reset()
	}()
	// println in the code under test writes to stderr
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		old := os.Stderr
		os.Stderr = null
		defer func() { os.Stderr = old }()
	}
	hostsV4 := []string{"127.0.0.1", "127.1.2.3"}
	bindAll := func(port string) error {
		for _, h := range append(hostsV4, "::1") {
			if h == "::1" {
				if l, err := net.Listen("tcp", "[::1]:0"); err != nil {
					continue // no IPv6 loopback
				} else {
					l.Close()
				}
			}
			if err := srv.listen(net.JoinHostPort(h, port)); err != nil {
				return err
			}
		}
		return nil
	}
	var err554 error
	for i := 0; i < 40; i++ { // another check may hold it for a moment
		n := len(srv.ls)
		if err554 = bindAll("554"); err554 == nil {
			break
		}
		for _, l := range srv.ls[n:] {
			l.Close()
		}
		srv.ls = srv.ls[:n]
		if strings.Contains(err554.Error(), "permission") {
			break
		}
		time.Sleep(500 * time.Millisecond)
	}
	if err554 != nil {
		c.Cap("port 554 cannot be bound: " + err554.Error())
	}
	free := func() string {
		for {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				c.T.Fatal(err)
			}
			port := fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
			l.Close()
			n := len(srv.ls)
			if bindAll(port) == nil {
				return port
			}
			for _, x := range srv.ls[n:] {
				x.Close()
			}
			srv.ls = srv.ls[:n]
		}
	}
	p1, p2 := free(), free()
	v6 := false
	for _, l := range srv.ls {
		if strings.HasPrefix(l.Addr().String(), "[::1]") {
			v6 = true
		}
	}

	users := []struct {
		s       string
		secrets []string
	}{
		{"", nil}, {"bobby:sesame@", []string{"bobby", "sesame"}}, {"bobby@", []string{"bobby"}}, {":sesame@", []string{"sesame"}},
		{"bobby:@", []string{"bobby"}}, {"bo%40bby:se%3Asa%2Fme@", []string{"bby", "se%3A", "se:sa", "sa/me"}}, {"@", nil}, {"b.o-b_by~:s$e&s+a=m;e,!*'()@", []string{"b.o-b", "s$e"}},
	}
	hosts := []struct{ s, addr string }{
		{"127.0.0.1", "127.0.0.1"}, {"127.1.2.3", "127.1.2.3"}, {"localhost", "127.0.0.1"}, {"LocalHost", "127.0.0.1"},
	}
	if v6 {
		hosts = append(hosts, struct{ s, addr string }{"[::1]", "::1"}, struct{ s, addr string }{"[0:0:0:0:0:0:0:1]", "::1"},
			struct{ s, addr string }{"[::ffff:127.0.0.1]", "127.0.0.1"})
	} else {
		c.Cap("no IPv6 loopback")
	}
	ports := []struct{ s, port string }{{":" + p1, p1}, {":" + p2, p2}}
	if err554 == nil {
		ports = append(ports, struct{ s, port string }{"", "554"}, struct{ s, port string }{":", "554"}, struct{ s, port string }{":554", "554"})
	}
	paths := []string{"", "/", "/live", "/live/ch1", "/a%20b", "/a:b@c", "/a;x=1", "/a//b/", "/%41", "/~x_y-z.sdp", "/a,b", "/trackID=1",
		"/a=b&c", "/a/../b/./c", "/a+b", "/a!b'(c)*$", "/:" + p2 + "/x", "/rtsp://127.1.2.3:" + p2 + "/", "/%2F%3a%40"}
	queries := []string{"", "?", "?a=b", "?u=x:y@z", "?a=b?c=d", "?a=%20&b", "?url=rtsp://127.1.2.3:" + p2 + "/x", "?a=b/c:554", "?channel=1&subtype=0"}
	schemes := []string{"rtsp", "RTSP"}

	fresh := func() (*rtspclient.RtspClientSession, chan int) {
		disc := make(chan int, 16)
		return rtspclient.NewRtspClientSession(func(*rtspclient.RtspData) {}, func(e *rtspclient.RtspEvent) {
			if e.EventType == rtspclient.RtspEventDisconnected {
				disc <- 1
			}
		}), disc
	}
	one := func(sc string, u, h, po, pa, qu int) {
		given := "rtsp://" + hosts[h].s + ports[po].s + paths[pa] + queries[qu]
		url := sc + "://" + users[u].s + strings.TrimPrefix(given, "rtsp://")
		want := net.JoinHostPort(hosts[h].addr, ports[po].port)
		c.Do(func() string { return strings.NewReplacer(p1, "PORT1", p2, "PORT2").Replace(url) }, func() error {
			c.Nontrivial()
			c.Trans(4)
			c.State(users[u].s, hosts[h].s, po, pa, qu)
			c.Outcome(fmt.Sprintf("%s, port form %d", hosts[h].addr, po))
			se, disc := fresh()
			return srv.playOnce(se, disc, url, want, given, users[u].secrets)
		})
	}
	c.Group("urls")
	nu, np, nq := 4, 6, 4
	if c.Thorough() {
		nu, np, nq = len(users), len(paths), len(queries)
	}
	c.Bound("full_product", fmt.Sprintf("%d users x %d hosts x %d ports x %d paths x %d queries", nu, len(hosts), len(ports), np, nq))
	core.Product([]int{nu, len(hosts), len(ports), np, nq}, func(ix []int) {
		if !c.Stop() {
			one("rtsp", ix[0], ix[1], ix[2], ix[3], ix[4])
		}
	})
	// every pair of parts (a part with the plain choice of the others)
	c.Group("pairs")
	core.Product([]int{len(users), len(paths), len(queries)}, func(ix []int) {
		if !c.Stop() {
			one("rtsp", ix[0], (ix[1]+ix[2])%len(hosts), (ix[0]+ix[1])%len(ports), ix[1], ix[2])
		}
	})
	c.Group("schemes")
	for _, sc := range schemes {
		core.Product([]int{len(users), len(hosts), len(ports)}, func(ix []int) {
			if !c.Stop() {
				one(sc, ix[0], ix[1], ix[2], 2, 2)
			}
		})
	}

	// one session, one URL after another
	c.Group("again")
	type tgt struct {
		url, given, want string
		secrets          []string
	}
	var ts []tgt
	for i := 0; i < 12; i++ {
		u, h, po, pa, qu := users[i%4], hosts[i*5%len(hosts)], ports[i%len(ports)], paths[i%len(paths)], queries[i*2%len(queries)]
		g := h.s + po.s + pa + qu
		ts = append(ts, tgt{"rtsp://" + u.s + g, "rtsp://" + g, net.JoinHostPort(h.addr, po.port), u.secrets})
	}
	c.Bound("urls_in_a_row", 3)
	core.Tuples(len(ts), 2, 3, func(t []int) {
		if c.Stop() {
			return
		}
		seq := append([]int(nil), t...)
		c.Do(func() string {
			var s []string
			for _, i := range seq {
				s = append(s, strings.NewReplacer(p1, "PORT1", p2, "PORT2").Replace(ts[i].url))
			}
			return strings.Join(s, " then ")
		}, func() error {
			c.Nontrivial()
			se, disc := fresh()
			for k, i := range seq {
				if err := srv.playOnce(se, disc, ts[i].url, ts[i].want, ts[i].given, ts[i].secrets); err != nil {
					return fmt.Errorf("URL %d: %v", k+1, err)
				}
			}
			return nil
		})
	})

	// nothing listens, or the URL is no URL: an error and no connection; the
	// session can be used afterwards
	gone := func() string {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.T.Fatal(err)
		}
		defer l.Close()
		return fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
	}
	dead := gone()
	fails := func(kind, url string, ws bool) {
		if _, err := neturl.Parse(url); ws && err == nil {
			return // only what cannot be parsed at all fails before the websocket is dialled
		}
		c.Do(func() string {
			return kind + " " + strings.NewReplacer(dead, "CLOSEDPORT", p1, "PORT1", p2, "PORT2").Replace(fmt.Sprintf("%q", url))
		}, func() error {
			c.Nontrivial()
			se, disc := fresh()
			for k := 0; k < 2; k++ {
				ret := make(chan error, 1)
				go func() {
					if ws {
						ret <- se.PlayUseWebsocket("ws://127.0.0.1:"+p1+"/x", url)
					} else {
						ret <- se.Play(url)
					}
				}()
				select {
				case err := <-ret:
					if err == nil {
						return fmt.Errorf("no error")
					}
				case <-time.After(20 * time.Second):
					return fmt.Errorf("did not return")
				}
				srv.mu.Lock()
				seen := append([]string(nil), srv.seen...)
				srv.mu.Unlock()
				if len(seen) > 0 {
					srv.reset()
					return fmt.Errorf("connected to %v", seen)
				}
			}
			for len(disc) > 0 {
				<-disc
			}
			// a good URL still works
			if err := srv.playOnce(se, disc, "rtsp://127.0.0.1:"+p1+"/z", "127.0.0.1:"+p1, "rtsp://127.0.0.1:"+p1+"/z", nil); err != nil {
				return fmt.Errorf("after it a good URL: %v", err)
			}
			return nil
		})
	}
	c.Group("unreachable")
	for _, u := range users {
		for _, h := range hosts {
			for _, pa := range paths[:4] {
				fails("nothing listens", "rtsp://"+u.s+h.s+":"+dead+pa, false)
			}
		}
	}
	for _, port := range []string{"65536", "70000", "99999999999999999999"} {
		fails("no such port", "rtsp://127.0.0.1:"+port+"/a", false)
	}
	c.Group("malformed")
	for _, bad := range []string{"%zz", "/%", "%4", "/a%g0b", "%%"} {
		fails("bad escape", "rtsp://127.0.0.1:"+p1+"/a"+bad, false)
		fails("bad escape", "rtsp://127.0.0.1:"+p1+"/a"+bad, true)
	}
	for _, bad := range []string{"a", "-1", "1a", "+5", " 5", "5 ", "0x10", p1 + ":" + p2, "p" + p1, p1 + "p"} {
		fails("bad port", "rtsp://127.0.0.1:"+bad+"/a", false)
		fails("bad port", "rtsp://u:p@127.0.0.1:"+bad+"/a", false)
		fails("bad port", "rtsp://[::1]:"+bad+"/a", false)
		fails("bad port", "rtsp://127.0.0.1:"+bad, true)
	}
	for _, bad := range []string{"rtsp://[::1/a", "rtsp://[::1", "rtsp://::1]:" + p1 + "/", "://127.0.0.1:" + p1 + "/", "127.0.0.1:" + p1 + "/a", ":" + p1 + "/a", "%", "rtsp%://127.0.0.1:" + p1 + "/",
		"1rtsp://127.0.0.1:" + p1 + "/", "rtsp://127.0.0.1 :" + p1 + "/", "rtsp://us er@127.0.0.1:" + p1 + "/", "rtsp://u<r@127.0.0.1:" + p1 + "/", "rtsp://127.0.0.1:" + p1 + "/a\nb", "rtsp://127.0.0.1:" + p1 + "/\x00", "rtsp://127.0.0.1:" + p1 + "/?a\x7f", " rtsp://127.0.0.1:" + p1 + "/"} {
		fails("malformed", bad, false)
		fails("malformed", bad, true)
	}
}
