package seq

import (
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"net/url"
	"strings"
	"time"

	"verifharness/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C08",
		Rule: "every challenge of the grammar (schemes and their order, parameter order, extra parameters, spacing, quoted strings) times every credential pair, with all requests of the session checked by an independent server-side verification; " +
			"all lists of up to N challenges and their distributions over header lines; all answer sequences around the challenge; non-trivial: a challenge was sent",
		Assumptions: []string{"credentials and quoted strings without quotes or line breaks", "MD5 digest without qop (RFC 2069 form)"},
		Run:         c08,
	})
}

func md5hex(s string) string { h := md5.Sum([]byte(s)); return hex.EncodeToString(h[:]) }

// parseAuth splits an Authorization value into scheme and parameters.
func parseAuth(v string) (string, map[string]string, error) {
	i := strings.IndexByte(v, ' ')
	if i < 0 {
		return "", nil, fmt.Errorf("authorization %q", v)
	}
	scheme, rest := v[:i], strings.TrimSpace(v[i+1:])
	m := map[string]string{}
	if scheme == "Basic" {
		m[""] = rest
		return scheme, m, nil
	}
	for rest != "" {
		e := strings.IndexByte(rest, '=')
		if e < 0 {
			return "", nil, fmt.Errorf("authorization parameters %q", v)
		}
		k := strings.TrimSpace(rest[:e])
		rest = strings.TrimLeft(rest[e+1:], " ")
		var val string
		if strings.HasPrefix(rest, `"`) {
			q := strings.IndexByte(rest[1:], '"')
			if q < 0 {
				return "", nil, fmt.Errorf("unterminated string in %q", v)
			}
			val, rest = rest[1:1+q], rest[q+2:]
		} else {
			q := strings.IndexByte(rest, ',')
			if q < 0 {
				q = len(rest)
			}
			val, rest = strings.TrimSpace(rest[:q]), rest[q:]
		}
		rest = strings.TrimLeft(rest, " ,")
		if _, dup := m[k]; dup {
			return "", nil, fmt.Errorf("parameter %s twice in %q", k, v)
		}
		m[k] = val
	}
	return scheme, m, nil
}

type creds struct{ user, pass string }

func (cr creds) info() string {
	if cr.user == "" && cr.pass == "" {
		return ""
	}
	return url.UserPassword(cr.user, cr.pass).String() + "@"
}

// checkAuth verifies one request's authorization as a server would.
func checkAuth(r core.Request, scheme, realm, nonce, opaque string, cr creds, base string) error {
	h := r.Header["AUTHORIZATION"]
	if scheme == "" {
		if len(h) != 0 {
			return fmt.Errorf("%s carries %q without a challenge", r.Method, h)
		}
		return nil
	}
	if len(h) != 1 {
		return fmt.Errorf("%s carries %d authorization headers", r.Method, len(h))
	}
	s, m, err := parseAuth(h[0])
	if err != nil {
		return err
	}
	if s != scheme {
		return fmt.Errorf("%s answers with %s, want %s", r.Method, s, scheme)
	}
	if scheme == "Basic" {
		b, err := base64.StdEncoding.DecodeString(m[""])
		if err != nil || string(b) != cr.user+":"+cr.pass {
			return fmt.Errorf("%s: basic credentials %q", r.Method, b)
		}
		return nil
	}
	if m["username"] != cr.user || m["realm"] != realm || m["nonce"] != nonce {
		return fmt.Errorf("%s: digest for user %q realm %q nonce %q, want %q %q %q", r.Method, m["username"], m["realm"], m["nonce"], cr.user, realm, nonce)
	}
	if m["opaque"] != opaque {
		return fmt.Errorf("%s: opaque %q, want %q", r.Method, m["opaque"], opaque)
	}
	if m["uri"] != r.URI && m["uri"] != base {
		return fmt.Errorf("%s: digest uri %q for request uri %q", r.Method, m["uri"], r.URI)
	}
	want := md5hex(md5hex(cr.user+":"+realm+":"+cr.pass) + ":" + nonce + ":" + md5hex(r.Method+":"+m["uri"]))
	if m["response"] != want {
		return fmt.Errorf("%s: digest response %q, want %q", r.Method, m["response"], want)
	}
	return nil
}

type authCase struct {
	cr      creds
	headers []string // challenge headers of the 401
	scheme  string   // expected
	realm   string
	nonce   string
	second  int // status of the second DESCRIBE
	calls   bool
	host    string
	opaque  string
}

func authRun(c *core.Ctx, a authCase) error {
	return core.Bubble(c.T, func() error {
		p := core.NewPeer()
		tr := []core.Track{{Kind: "video", Codec: "JPEG", PT: 96, Control: "t1"}, {Kind: "audio", Codec: "X", PT: 97, Control: "rtsp://" + a.host + "/stream/t2"}}
		n := 0
		p.Answer = func(p *core.Peer, r core.Request) {
			n++
			if n == 1 {
				p.Conn.Feed([]byte(core.Resp(401, r.CSeq(), a.headers, "")))
				return
			}
			if n == 2 && a.second != 200 {
				p.Conn.Feed([]byte(core.Resp(a.second, r.CSeq(), a.headers, "")))
				return
			}
			core.GoodServer(tr, "5")(p, r)
		}
		base := "rtsp://" + a.host + "/stream"
		if err := p.Start("rtsp://" + a.cr.info() + a.host + "/stream"); err != nil {
			return fmt.Errorf("ParsingURL: %v", err)
		}
		if !p.Wait(60 * time.Second) {
			return fmt.Errorf("no return; requests %s", p.Methods())
		}
		want := "DESCRIBE DESCRIBE SETUP SETUP PLAY"
		if a.second != 200 {
			want = "DESCRIBE DESCRIBE"
		}
		if a.cr.info() == "" {
			want = "DESCRIBE"
		}
		var err error
		if p.Methods() != want {
			err = fmt.Errorf("requests %s, want %s (%v)", p.Methods(), want, p.Err)
		} else if (p.Err == nil) != (want == "DESCRIBE DESCRIBE SETUP SETUP PLAY") {
			err = fmt.Errorf("requests %s, result %v", p.Methods(), p.Err)
		}
		if err == nil && p.Err == nil && a.calls {
			for _, f := range []func() error{p.S.SendPause, func() error { return p.S.SendPlay(3, 2) }, func() error { return p.S.SendTcpSetup(base+"/t3", 4, 5) }, p.S.SendDescribe} {
				if e := f(); e != nil {
					err = e
				}
				p.S.WaitRtspResponse()
			}
			p.S.Close()
			core.Quiesce()
			want += " PAUSE PLAY SETUP DESCRIBE TEARDOWN"
			if err == nil && p.Methods() != want {
				err = fmt.Errorf("requests %s, want %s", p.Methods(), want)
			}
		}
		for i, r := range p.Reqs {
			if err != nil {
				break
			}
			s := a.scheme
			if i == 0 {
				s = ""
			}
			err = checkAuth(r, s, a.realm, a.nonce, a.opaque, a.cr, base)
			if err == nil && (strings.Contains(r.URI, "@") || (a.cr.pass != "" && len(a.cr.pass) > 5 && strings.Contains(r.URI, a.cr.pass))) {
				err = fmt.Errorf("credentials in the request uri %q", r.URI)
			}
		}
		if err == nil {
			err = p.CheckWire()
		}
		c.Trans(len(p.Reqs))
		c.Outcome(p.Methods())
		p.Hangup()
		time.Sleep(10 * time.Second)
		return err
	})
}

func permutations(n int, f func([]int)) {
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			f(p)
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
}

func c08(c *core.Ctx) {
	crs := []creds{{"admin", "secret99"}, {"u", "p"}, {"us er", "p@ss:w/rd?#%"}, {"a:b", ""}, {"ünï", "пароль"}, {"x,y=z", "a, b=c"}, {"a%2Fb", "p%41"}, {"50%", "100%25 %s"}}
	longs := []int{63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 1000, 5000}
	realms := []string{"r", "LIVE555 Streaming Media", "a:b, c=d;e", "IP Camera(12345)", "nonce=x, realm=y", "", "Digest"}
	nonces := []string{"n", "4f2a1c9b0dA==", "1234:56,78 9", "dcd98b7102dd2f0e8b11d0f600bfb0c093"}
	extras := [][]string{nil, {`stale="FALSE"`}, {`stale=FALSE`, `algorithm=MD5`}, {`algorithm="MD5"`, `opaque="a=b, nonce=z"`, `domain="rtsp://x/"`}}
	seps := []string{", ", ",", " , "}
	eqs := []string{"="}
	if c.Thorough() {
		eqs = append(eqs, " = ", "= ")
	}
	digest := func(realm, nonce string, extra []string, perm []int, sep, eq string) string {
		ps := append([]string{"realm" + eq + `"` + realm + `"`, "nonce" + eq + `"` + nonce + `"`}, extra...)
		var o []string
		for _, i := range perm {
			o = append(o, ps[i])
		}
		return "WWW-Authenticate: Digest " + strings.Join(o, sep)
	}
	do := func(a authCase) {
		c.Do(func() string {
			return fmt.Sprintf("credentials %q, challenge %q, second answer %d", a.cr, a.headers, a.second)
		}, func() error {
			c.State(a.cr, a.headers, a.second)
			if len(a.headers) > 0 {
				c.Nontrivial()
			}
			return authRun(c, a)
		})
	}
	c.Group("digest")
	for ci, cr := range crs {
		if cr.pass == "" {
			continue
		}
		for ri, realm := range realms {
			for ni, nonce := range nonces {
				for _, ex := range extras {
					op := ""
					if len(ex) == 3 {
						op = "a=b, nonce=z"
					}
					permutations(2+len(ex), func(perm []int) {
						if c.Stop() || (ci > 0 && ri > 0 && ni > 0 && len(ex) > 1 && !c.Thorough()) {
							return
						}
						pm := append([]int(nil), perm...)
						for _, sep := range seps {
							for _, eq := range eqs {
								do(authCase{cr, []string{digest(realm, nonce, ex, pm, sep, eq)}, "Digest", realm, nonce, 200, ci == 0, "host", op})
							}
						}
					})
				}
			}
		}
	}
	c.Group("schemes")
	d := digest("R 1", "N,1", nil, []int{0, 1}, ", ", "=")
	for _, cr := range crs {
		if cr.pass == "" {
			continue
		}
		for _, realm := range realms {
			b := `WWW-Authenticate: Basic realm="` + realm + `"`
			for _, second := range []int{200, 401, 403, 404, 500} {
				for _, host := range []string{"host", "h.example:8554", "[::1]", "10.1.2.3:10554"} {
					do(authCase{cr, []string{b}, "Basic", realm, "", second, true, host, ""})
					do(authCase{cr, []string{d, b}, "Digest", "R 1", "N,1", second, true, host, ""})
					do(authCase{cr, []string{b, d}, "Digest", "R 1", "N,1", second, true, host, ""})
					do(authCase{cr, []string{d}, "Digest", "R 1", "N,1", second, true, host, ""})
				}
			}
			for _, name := range []string{"www-authenticate", "WWW-AUTHENTICATE", "Www-Authenticate", "WWW-Authenticate "} {
				do(authCase{cr, []string{strings.Replace(b, "WWW-Authenticate", name, 1)}, "Basic", realm, "", 200, true, "host", ""})
				do(authCase{cr, []string{strings.Replace(d, "WWW-Authenticate", name, 1)}, "Digest", "R 1", "N,1", 200, true, "host", ""})
			}
		}
	}
	c.Group("spelling")
	for _, cr := range crs {
		if cr.pass == "" {
			continue
		}
		for _, n := range []string{"Digest", "digest", "DIGEST", "dIGEST"} {
			for _, pn := range []string{"realm nonce", "Realm Nonce", "REALM NONCE"} {
				f := strings.Fields(pn)
				for _, sep := range []string{" ", "  "} {
					do(authCase{cr, []string{"WWW-Authenticate: " + n + sep + f[0] + `="R 1", ` + f[1] + `="N,1"`}, "Digest", "R 1", "N,1", 200, true, "host", ""})
				}
			}
		}
		for _, n := range []string{"Basic", "basic", "BASIC", "bASIC"} {
			for _, pn := range []string{"realm", "Realm", "REALM"} {
				b := "WWW-Authenticate: " + n + " " + pn + `="R 1"`
				do(authCase{cr, []string{b}, "Basic", "R 1", "", 200, true, "host", ""})
				do(authCase{cr, []string{b, strings.ToLower(d)}, "Digest", "r 1", "n,1", 200, true, "host", ""})
				do(authCase{cr, []string{strings.ToUpper(d), b}, "Digest", "R 1", "N,1", 200, true, "host", ""})
			}
		}
	}
	// of several digests the one that can be answered, in every order
	c.Group("algorithms")
	for _, cr := range crs {
		if cr.pass == "" {
			continue
		}
		for _, other := range []string{"SHA-256", `"SHA-256"`, "SHA-512-256", "sha-256", "MD5-sess", `"MD5-sess"`} {
			for _, md5 := range []string{"", ", algorithm=MD5", `, algorithm="MD5"`, ", algorithm=md5"} {
				chs := []string{`WWW-Authenticate: Digest realm="R", nonce="N1"` + md5, `WWW-Authenticate: Digest realm="R", nonce="N2", algorithm=` + other,
					`WWW-Authenticate: Basic realm="B"`}
				permutations(3, func(p []int) {
					do(authCase{cr, []string{chs[p[0]], chs[p[1]], chs[p[2]]}, "Digest", "R", "N1", 200, true, "host", ""})
				})
			}
			for _, hs := range [][]string{{`WWW-Authenticate: Digest realm="R", nonce="N", algorithm=` + other, `WWW-Authenticate: Basic realm="B"`},
				{`WWW-Authenticate: Basic realm="B"`, `WWW-Authenticate: Digest algorithm=` + other + `, realm="R", nonce="N"`}} {
				do(authCase{cr, hs, "Basic", "B", "", 200, true, "host", ""})
			}
		}
	}
	// several challenges in one header, in every order and grouping
	c.Group("one-header")
	type ch struct{ text, scheme, realm, nonce, opaque string }
	chs := []ch{
		{`Digest realm="R, 1", nonce="N=1"`, "Digest", "R, 1", "N=1", ""},
		{`Digest nonce="N2", opaque="o p, q=r", realm="R", algorithm=MD5`, "Digest", "R", "N2", "o p, q=r"},
		{`Basic realm="B c, d"`, "Basic", "B c, d", "", ""},
		{`Digest realm="S", nonce="N3", algorithm=SHA-256`, "", "", "", ""},
		{`Negotiate`, "", "", "", ""},
		{`NTLM TlRMTVNTUAAB==`, "", "", "", ""},
		{`Bearer realm="Digest realm", scope="a b, Basic realm"`, "", "", "", ""},
	}
	maxCh := 3
	if c.Thorough() {
		maxCh = 4
	}
	c.Bound("challenges", maxCh)
	core.Tuples(len(chs), 1, maxCh, func(t []int) {
		if c.Stop() {
			return
		}
		var a authCase
		var texts []string
		nd, nb := 0, 0
		for _, i := range t {
			x := chs[i]
			texts = append(texts, x.text)
			switch x.scheme {
			case "Digest":
				nd++
				a.scheme, a.realm, a.nonce, a.opaque = x.scheme, x.realm, x.nonce, x.opaque
			case "Basic":
				nb++
				if a.scheme == "" {
					a.scheme, a.realm = x.scheme, x.realm
				}
			}
		}
		if nd > 1 || nb > 1 || nd+nb == 0 {
			return
		}
		a.second, a.calls, a.host = 200, true, "host"
		for _, sep := range []string{", ", ",", " , "} {
			// every way to distribute them over header lines
			for cut := 0; cut < 1<<(len(t)-1); cut++ {
				var hs []string
				line := "WWW-Authenticate: " + texts[0]
				for i := 1; i < len(t); i++ {
					if cut>>(i-1)&1 == 1 {
						hs = append(hs, line)
						line = "WWW-Authenticate: " + texts[i]
					} else {
						line += sep + texts[i]
					}
				}
				a.headers = append(hs, line)
				for _, cr := range []creds{crs[0], crs[2]} {
					a.cr = cr
					do(a)
				}
			}
		}
	})
	c.Group("lengths")
	for _, n := range longs {
		l := strings.Repeat("0123456789abcdef", n/16+1)[:n]
		for _, cr := range []creds{crs[0], {"u" + l, "p"}, {"u", l + "p"}, {l, l}} {
			for _, rn := range [][2]string{{l, "n"}, {"r", l}, {l, l}} {
				do(authCase{cr, []string{digest(rn[0], rn[1], nil, []int{0, 1}, ", ", "=")}, "Digest", rn[0], rn[1], 200, true, "host", ""})
				do(authCase{cr, []string{digest(rn[0], rn[1], []string{`opaque="` + l + `"`}, []int{2, 1, 0}, ", ", "=")}, "Digest", rn[0], rn[1], 200, true, "host", l})
			}
			do(authCase{cr, []string{`WWW-Authenticate: Basic realm="` + l + `"`}, "Basic", l, "", 200, true, "host", ""})
		}
	}
	c.Group("no-credentials")
	for _, h := range [][]string{{d}, {`WWW-Authenticate: Basic realm="x"`}, {d, `WWW-Authenticate: Basic realm="x"`}, nil} {
		do(authCase{creds{}, h, "", "", "", 200, false, "host", ""})
	}
	c.Group("no-challenge")
	for _, cr := range append(crs, creds{}) {
		cr := cr
		c.Do(func() string { return fmt.Sprintf("credentials %q, no challenge", cr) }, func() error {
			return core.Bubble(c.T, func() error {
				p := core.NewPeer()
				p.Answer = core.GoodServer([]core.Track{{Kind: "video", Codec: "JPEG", PT: 96, Control: "t1"}}, "5")
				if err := p.Start("rtsp://" + cr.info() + "host/stream"); err != nil {
					return err
				}
				if !p.Wait(60*time.Second) || p.Err != nil || p.Methods() != "DESCRIBE SETUP PLAY" {
					return fmt.Errorf("%v %s", p.Err, p.Methods())
				}
				p.S.SendPause()
				p.S.WaitRtspResponse()
				p.S.Close()
				core.Quiesce()
				for _, r := range p.Reqs {
					if err := checkAuth(r, "", "", "", "", cr, ""); err != nil {
						return err
					}
					if strings.Contains(r.Raw, "@") {
						return fmt.Errorf("user information in %q", r.Raw)
					}
				}
				p.Hangup()
				return nil
			})
		})
	}
}
