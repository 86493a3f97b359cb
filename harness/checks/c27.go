package checks

import (
	"bufio"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() {
	register("C27", "an attempt to get a value from a server; distinct by the flags of the server, the client and how it connects", c27)
}

type certificate struct {
	cert *x509.Certificate
	der  []byte
	key  crypto.Signer
}

func newKey(kind string) crypto.Signer {
	var k crypto.Signer
	var err error
	switch kind {
	case "rsa":
		k, err = rsa.GenerateKey(rand.Reader, 2048)
	case "ed25519":
		_, k, err = ed25519.GenerateKey(rand.Reader)
	default:
		k, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	}
	if err != nil {
		panic(err)
	}
	return k
}

var serial = int64(1000)

// issue creates a certificate. It is signed with its own key when there is no issuer.
func issue(name string, issuer *certificate, key crypto.Signer, alter func(*x509.Certificate)) *certificate {
	serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}, BasicConstraintsValid: true}
	if alter != nil {
		alter(t)
	}
	p, k := t, key
	if issuer != nil {
		p, k = issuer.cert, issuer.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, p, key.Public(), k)
	if err != nil {
		panic(err)
	}
	cert, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &certificate{cert, der, key}
}

func authority(t *x509.Certificate) {
	t.IsCA = true
	t.KeyUsage = x509.KeyUsageCertSign
	t.ExtKeyUsage = nil
}

func serves(t *x509.Certificate) {
	t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	t.IPAddresses = []net.IP{net.IPv4(127, 0, 0, 1)}
}

func certPEM(cs ...*certificate) string {
	s := ""
	for _, c := range cs {
		s += string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.der}))
	}
	return s
}

func keyPEM(k crypto.Signer) string {
	der, err := x509.MarshalPKCS8PrivateKey(k)
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: der}))
}

// A tlsClient is a way to identify to the server
type tlsClient struct {
	name    string
	chain   []*certificate // what is presented
	key     crypto.Signer
	anchors string // the authorities, each of which suffices to trust it
}

// tlsGet asks for the value. It returns what the server answered and an error when it didn't.
func tlsGet(addr string, cl *tlsClient, roots *x509.CertPool, version uint16, h2 bool, n int, cache tls.ClientSessionCache) (codes []int, body string, state *tls.ConnectionState, err error) {
	cfg := &tls.Config{RootCAs: roots, MinVersion: version, MaxVersion: version, ClientSessionCache: cache}
	cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) {
		tc := &tls.Certificate{}
		if cl == nil {
			return tc, nil
		}
		for _, c := range cl.chain {
			tc.Certificate = append(tc.Certificate, c.der)
		}
		tc.PrivateKey = cl.key
		return tc, nil
	}
	tr := &http.Transport{TLSClientConfig: cfg, ForceAttemptHTTP2: h2}
	defer tr.CloseIdleConnections()
	hc := &http.Client{Transport: tr, Timeout: 30 * time.Second}
	for ; n > 0; n-- {
		r, e := hc.Get("https://" + addr + "/lookup/secret")
		if e != nil {
			return codes, body, state, e
		}
		bs, _ := io.ReadAll(r.Body)
		_ = r.Body.Close()
		codes, state = append(codes, r.StatusCode), r.TLS
		body += string(bs)
	}
	return
}

// plainGet asks for the value without TLS
func plainGet(addr string) (string, bool) {
	cn, err := net.DialTimeout("tcp", addr, 10*time.Second)
	if err != nil {
		return "", false
	}
	defer func() { _ = cn.Close() }()
	_ = cn.SetDeadline(time.Now().Add(30 * time.Second))
	_, _ = io.WriteString(cn, "GET /lookup/secret HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
	bs, _ := io.ReadAll(bufio.NewReader(cn))
	return string(bs), true
}

func c27(c *C) {
	dir := c.Dir()
	defer c.Drop(dir)
	const secret = "the secret value"
	write(filepath.Join(dir, "hiera.yaml"), "version: 5\n")
	write(filepath.Join(dir, "data.yaml"), "secret: "+secret+"\n")

	// authorities and the certificates of the server
	cas := map[string]*certificate{"A": issue("A", nil, newKey("ec"), authority), "B": issue("B", nil, newKey("rsa"), authority), "system": issue("system", nil, newKey("ec"), authority), "server": issue("server", nil, newKey("ec"), authority)}
	cas["spoof"] = issue("A", nil, newKey("ec"), authority) // the same name
	cas["inter"] = issue("inter", cas["A"], newKey("ec"), authority)
	servers := map[string]*certificate{}
	files := map[string]string{"empty": "", "garbage": "not PEM", "truncated": certPEM(cas["A"])[:200], "badder": string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: []byte("x")}))}
	for _, kind := range []string{"ec", "rsa", "ed25519"} {
		s := issue("the "+kind+" server", cas["server"], newKey(kind), serves)
		servers[kind] = s
		files[kind+".crt"], files[kind+".key"] = certPEM(s), keyPEM(s.key)
	}
	si := issue("server inter", cas["server"], newKey("ec"), authority)
	servers["chain"] = issue("the server with a chain", si, newKey("ec"), serves)
	files["chain.crt"], files["chain.key"] = certPEM(servers["chain"], si), keyPEM(servers["chain"].key)
	servers["both"] = servers["ec"]
	files["both.crt"] = keyPEM(servers["ec"].key) + certPEM(servers["ec"])
	files["both.key"] = files["both.crt"]
	for n, ca := range cas {
		files["ca-"+n] = certPEM(ca)
	}
	files["ca-A+B"] = certPEM(cas["A"], cas["B"])
	files["ca-A+text"] = "some text\n" + certPEM(cas["A"]) + "\n# end\n"
	files["ca-B+key"] = keyPEM(newKey("ec")) + certPEM(cas["B"])
	for n, t := range files {
		write(filepath.Join(dir, "pem", n), t)
	}
	if err := os.MkdirAll(filepath.Join(dir, "pem/dir"), 0755); err != nil {
		panic(err)
	}
	file := func(n string) string { return filepath.Join(dir, "pem", n) }
	roots := x509.NewCertPool()
	roots.AddCert(cas["server"].cert)

	// clients
	by := func(ca string, alter func(*x509.Certificate)) *tlsClient {
		k := newKey("ec")
		ct := issue("client of "+ca, cas[ca], k, alter)
		return &tlsClient{name: "client of " + ca, chain: []*certificate{ct}, key: k, anchors: ca}
	}
	named := func(n, anchors string, cl *tlsClient, more ...*certificate) *tlsClient {
		cl.name, cl.anchors, cl.chain = n, anchors, append(cl.chain, more...)
		return cl
	}
	clients := []*tlsClient{nil, by("A", nil), by("B", nil), by("spoof", nil), by("system", nil), by("server", nil), by("inter", nil)}
	clients = append(clients, named("with its intermediate", "A inter", by("inter", nil), cas["inter"]), named("with another intermediate", "inter", by("inter", nil), cas["B"]),
		named("with the certificate of A", "B", by("B", nil), cas["A"]), named("with the certificate of B", "B", by("B", nil), cas["B"]),
		named("expired", "", by("A", func(t *x509.Certificate) { t.NotAfter = time.Now().Add(-time.Hour) })),
		named("not valid yet", "", by("A", func(t *x509.Certificate) { t.NotBefore = time.Now().Add(time.Hour) })),
		named("for servers", "", by("A", func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth} })),
		named("for code", "", by("A", func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageCodeSigning} })),
		named("for both", "A", by("A", func(t *x509.Certificate) { t.ExtKeyUsage = append(t.ExtKeyUsage, x509.ExtKeyUsageServerAuth) })),
		named("critical extension", "", by("A", func(t *x509.Certificate) {
			t.ExtraExtensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 2, 3, 4, 5}, Critical: true, Value: []byte{5, 0}}}
		})))
	w := by("A", nil)
	w.key = newKey("ec")
	clients = append(clients, named("with another key", "", w))
	for _, kind := range []string{"rsa", "ed25519"} {
		k := newKey(kind)
		clients = append(clients, &tlsClient{"client of A with " + kind, []*certificate{issue("rsa client", cas["A"], k, nil)}, k, "A"})
	}
	k := newKey("ec")
	clients = append(clients, &tlsClient{"self signed", []*certificate{issue("self", nil, k, nil)}, k, ""}, &tlsClient{"self signed by the name of A", []*certificate{issue("A", nil, k, authority)}, k, ""})
	clients = append(clients, &tlsClient{"server certificate", []*certificate{servers["ec"]}, servers["ec"].key, ""})
	a := by("A", nil) // isn't an authority but signs
	k = newKey("ec")
	clients = append(clients, &tlsClient{"signed by a client", []*certificate{issue("x", &certificate{a.chain[0].cert, a.chain[0].der, a.key}, k, nil), a.chain[0]}, k, ""})

	type setup struct {
		name   string
		args   []string
		starts bool
		cert   string // name of the server certificate, empty for no TLS
		verify bool
		trust  string // names of authorities
	}
	flags := func(cert, key, ca string, verify bool) []string {
		r := []string{"--config", filepath.Join(dir, "hiera.yaml")}
		if cert != "" {
			r = append(r, "--ssl-cert", file(cert))
		}
		if key != "" {
			r = append(r, "--ssl-key", file(key))
		}
		if ca != "" {
			r = append(r, "--ca", file(ca))
		}
		if verify {
			r = append(r, "--clientCertVerify")
		}
		return r
	}
	var setups []*setup
	for _, cert := range []string{"ec", "rsa", "ed25519", "chain", "both"} {
		for _, ca := range []string{"", "ca-A", "ca-B", "ca-A+B", "ca-A+text", "ca-B+key", "ca-inter", "ca-spoof"} {
			for _, verify := range []bool{false, true} {
				if cert != "ec" && !verify && ca != "" && c.Tier != "thorough" {
					continue
				}
				trust := strings.NewReplacer("ca-", " ", "+text", " ", "+key", " ", "+", " ").Replace(ca) + " "
				setups = append(setups, &setup{"", flags(cert+".crt", cert+".key", ca, verify), true, cert, verify, trust})
			}
		}
	}
	bad := []string{"absent", "empty", "garbage", "dir", "truncated", "badder", "rsa.key", "ca-A"}
	for _, verify := range []bool{false, true} {
		for _, ca := range []string{"", "ca-A"} {
			for _, f := range bad {
				setups = append(setups, &setup{"", flags(f, "ec.key", ca, verify), false, "", false, ""})
				if f != "rsa.key" || true {
					setups = append(setups, &setup{"", flags("ec.crt", f, ca, verify), false, "", false, ""})
				}
			}
			// one of the two, or verification without TLS
			setups = append(setups, &setup{"", flags("ec.crt", "", ca, verify), false, "", false, ""}, &setup{"", flags("", "ec.key", ca, verify), false, "", false, ""})
			if verify {
				setups = append(setups, &setup{"", flags("", "", ca, verify), false, "", false, ""})
			}
		}
		for _, f := range bad {
			if f != "ca-A" {
				setups = append(setups, &setup{"", flags("ec.crt", "ec.key", f, verify), false, "", false, ""})
			}
		}
	}
	setups = append(setups, &setup{"", flags("", "", "", false), true, "", false, ""})
	bin := filepath.Join(c.Bin, "server")
	env := append(os.Environ(), "SSL_CERT_FILE="+file("ca-system"), "SSL_CERT_DIR=/nonexistent")
	c.Parallel(len(setups), func(i int) {
		su := setups[i]
		g := c.G("setup", i)
		desc := strings.ReplaceAll(strings.Join(su.args[2:], " "), dir+"/pem/", "")
		s := startExact(bin, env, su.args...)
		if s == nil {
			c.Inconclusive("the server did not start in time")
			return
		}
		defer s.stop()
		violation := func(format string, args ...interface{}) {
			c.Violation(fmt.Sprintf("server with %q: ", desc)+fmt.Sprintf(format, args...), map[string]interface{}{"flags": su.args, "output": clip(s.tail())})
		}
		c.Seen("setups", desc)
		if !su.starts {
			c.Case(desc)
			c.Add("servers that must not start", 1)
			if !s.exited() {
				text, _ := plainGet(s.addr)
				violation("should not start, but it does; without TLS it gives %q", clip(text))
				return
			}
			if s.cmd.ProcessState.ExitCode() == 0 {
				violation("should fail, but it ends with success")
			}
			return
		}
		if s.exited() {
			violation("should start, but it ends: %s", clip(s.tail()))
			return
		}
		text, ok := plainGet(s.addr)
		c.Case(desc + " plain")
		if su.cert == "" {
			c.Add("answers without TLS", 1)
			if ok && !strings.Contains(text, secret) {
				violation("should answer without TLS, but it gives %q", clip(text))
			}
			return
		}
		c.Add("attempts without TLS", 1)
		if strings.Contains(text, secret) || strings.HasPrefix(text, "HTTP/1.1 2") || strings.HasPrefix(text, "HTTP/1.0 2") {
			violation("answers without TLS: %q", clip(text))
			return
		}
		attempt := func(cl *tlsClient, version uint16, h2 bool, n int, cache tls.ClientSessionCache) {
			name, in := "no certificate", !su.verify
			if cl != nil {
				name = cl.name
				for _, x := range strings.Fields(cl.anchors) {
					in = in || strings.Contains(su.trust, " "+x+" ")
				}
				if su.verify && strings.TrimSpace(su.trust) == "" {
					in = cl.anchors == "system" // what the system trusts, when no authority is given
				}
			}
			codes, body, state, err := tlsGet(s.addr, cl, roots, version, h2, n, cache)
			how := fmt.Sprintf("client %q, TLS 1.%d, HTTP/2 %v", name, version-tls.VersionTLS10, h2)
			c.Case(desc + how)
			if err == nil && len(state.PeerCertificates) > 0 && !state.PeerCertificates[0].Equal(servers[su.cert].cert) {
				violation("presents another certificate: %v", state.PeerCertificates[0].Subject)
			}
			if in {
				c.Add("clients served", 1)
				if su.verify {
					c.Seen("clients verified", desc+name)
				}
				if err != nil {
					if ne, is := err.(net.Error); is && ne.Timeout() {
						c.Inconclusive("a request did not end in time")
						return
					}
					violation("should serve %s, but %v", how, err)
					return
				}
				for _, code := range codes {
					if code != 200 {
						violation("should serve %s, but it answers with status %v", how, codes)
						return
					}
				}
				if !strings.Contains(body, secret) {
					violation("should serve %s, but it gives %q", how, clip(body))
				}
				return
			}
			c.Add("clients refused", 1)
			c.Seen("refused", desc+name)
			if err == nil || len(codes) > 0 || strings.Contains(body, secret) {
				violation("serves %s, that has no certificate of the authorities in %q: status %v, %q", how, su.trust, codes, clip(body))
			}
		}
		versions := []uint16{tls.VersionTLS12, tls.VersionTLS13}
		for _, cl := range clients {
			vs := versions
			if !su.verify && cl != nil && c.Tier != "thorough" {
				vs = versions[g.Intn(2):][:1]
			}
			for _, v := range vs {
				attempt(cl, v, g.P(.3), 1+g.Intn(2), nil)
			}
		}
		// sessions that are resumed
		for _, v := range versions {
			cache := tls.NewLRUClientSessionCache(4)
			for _, cl := range []*tlsClient{clients[1], clients[1], clients[2]} {
				if cl == clients[2] {
					cache = tls.NewLRUClientSessionCache(4)
				}
				attempt(cl, v, false, 1, cache)
			}
		}
		// many at the same time, and what isn't TLS at all
		wg := sync.WaitGroup{}
		for k := c.N(12, 40); k > 0; k-- {
			cl, v, h2, n := clients[g.Intn(len(clients))], versions[g.Intn(2)], g.P(.3), 1+g.Intn(3)
			junk := make([]byte, g.Intn(200))
			_, _ = g.Read(junk)
			wg.Add(2)
			go func() {
				defer wg.Done()
				attempt(cl, v, h2, n, nil)
			}()
			go func() {
				defer wg.Done()
				if cn, err := net.DialTimeout("tcp", s.addr, 10*time.Second); err == nil {
					_, _ = cn.Write(junk)
					_ = cn.SetDeadline(time.Now().Add(10 * time.Millisecond))
					_, _ = io.ReadAll(cn)
					_ = cn.Close()
				}
			}()
		}
		wg.Wait()
		attempt(clients[1], versions[i%2], false, 1, nil)
		attempt(nil, versions[i%2], false, 1, nil)
		if s.exited() {
			violation("has ended: %s", clip(s.tail()))
		}
	})
	c.Need("clients refused", 500)
	c.Need("clients served", 500)
	c.Need("servers that must not start", 60)
}
