package main

// Driver "tls": clients of every kind with TLS on or off, against brokers that
// show certificates of every kind, or none.  Bears on K02.

import (
	"bufio"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	healer "github.com/childe/healer"
)

func init() { drivers["tls"] = drvTLS }

type authority struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	der  []byte
}

var serial int64

func newCert(cn string, ca *authority, isCA bool, ips []string, dns []string, from, to time.Time) *authority {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		harnessFail("key: %v", err)
	}
	serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn}, NotBefore: from, NotAfter: to, DNSNames: dns,
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}, BasicConstraintsValid: true}
	if isCA {
		t.IsCA = true
		t.KeyUsage |= x509.KeyUsageCertSign
	}
	for _, ip := range ips {
		t.IPAddresses = append(t.IPAddresses, net.ParseIP(ip))
	}
	parent, pk := t, key
	if ca != nil {
		parent, pk = ca.cert, ca.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, &key.PublicKey, pk)
	if err != nil {
		harnessFail("cert: %v", err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		harnessFail("cert: %v", err)
	}
	return &authority{c, key, der}
}

func (a *authority) pem() []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: a.der})
}

func (a *authority) keyPem() []byte {
	b, err := x509.MarshalECPrivateKey(a.key)
	if err != nil {
		harnessFail("key: %v", err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b})
}

// peeked is a connection of which the first byte has been looked at.
type peeked struct {
	net.Conn
	r *bufio.Reader
}

func (p *peeked) Read(b []byte) (int, error) { return p.r.Read(b) }

type tlsWorld struct {
	k     int // the client whose cluster this is
	c     *Cluster
	mu    sync.Mutex
	ident map[int32]string
	certs map[string]*authority
	a, b  *authority
	dir   string
	over  map[int]string // connection -> what is spoken on it
}

func (w *tlsWorld) ev(m M) {
	m["k"] = w.k
	rec.Ev(m)
}

func (w *tlsWorld) identOf(n int32) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.ident[n]
}

func (w *tlsWorld) wrap(n int32, id int, k net.Conn) net.Conn {
	t0 := time.Now()
	ident := w.identOf(n)
	r := bufio.NewReader(k)
	b, err := r.Peek(1)
	if err != nil {
		return nil // came and went
	}
	what := "clear"
	if b[0] == 0x16 {
		what = "tls"
	}
	ev := M{"ev": "Conn", "n": n, "x": id, "what": what, "ident": ident, "done": false, "peer": "-"}
	p := &peeked{k, r}
	if ident == "mute" {
		w.ev(ev)
		for {
			if _, err := p.Read(make([]byte, 4096)); err != nil {
				break
			}
		}
		w.ev(M{"ev": "GaveUp", "n": n, "x": id, "ms": int(time.Since(t0).Milliseconds()), "lag": int(lagMax.Load())})
		return nil
	}
	if what == "clear" || ident == "plain" {
		w.ev(ev)
		if what == "clear" && ident == "plain" {
			w.mu.Lock()
			w.over[id] = "clear"
			w.mu.Unlock()
			return p
		}
		return nil
	}
	cert := w.certs[ident]
	cfg := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{cert.der}, PrivateKey: cert.key}}, ClientAuth: tls.RequestClientCert}
	if ident == "mtls" {
		pool := x509.NewCertPool()
		pool.AddCert(w.a.cert)
		cfg.ClientAuth, cfg.ClientCAs = tls.RequireAndVerifyClientCert, pool
	}
	s := tls.Server(p, cfg)
	if err := s.Handshake(); err != nil {
		w.ev(ev)
		return nil
	}
	ev["done"] = true
	if l := s.ConnectionState().PeerCertificates; len(l) > 0 {
		ev["peer"] = l[0].Subject.CommonName
	}
	w.ev(ev)
	w.mu.Lock()
	w.over[id] = "tls"
	w.mu.Unlock()
	return s
}

func (w *tlsWorld) file(name string, b []byte) string {
	f := filepath.Join(w.dir, name)
	if err := os.WriteFile(f, b, 0600); err != nil {
		harnessFail("write: %v", err)
	}
	return f
}

// paths of the files of a client's configuration, by what they are to be
func (w *tlsWorld) pick(part, how string) string {
	switch how {
	case "unset":
		return ""
	case "nofile":
		return filepath.Join(w.dir, "nosuch-"+part)
	case "garbage":
		return w.file("garbage", []byte("garbage\n"))
	}
	return filepath.Join(w.dir, part+"-"+how)
}

func drvTLS(s *Script) {
	dir, err := os.MkdirTemp("", "vh-tls")
	if err != nil {
		harnessFail("tmp: %v", err)
	}
	defer os.RemoveAll(dir)
	w := &tlsWorld{certs: map[string]*authority{}, dir: dir}
	now := time.Now()
	y0, y1 := now.Add(-48*time.Hour), now.Add(48*time.Hour)
	w.a = newCert("ca-a", nil, true, nil, nil, y0, y1)
	w.b = newCert("ca-b", nil, true, nil, nil, y0, y1)
	ip := []string{loopback}
	w.certs["good"] = newCert("good", w.a, false, ip, nil, y0, y1)
	w.certs["mtls"] = newCert("mtls", w.a, false, ip, nil, y0, y1)
	w.certs["name"] = newCert("name", w.a, false, nil, []string{"kafka.test"}, y0, y1)
	w.certs["both"] = newCert("both", w.a, false, ip, []string{"kafka.test"}, y0, y1)
	w.certs["host2"] = newCert("host2", w.a, false, []string{"10.9.8.7"}, []string{"other.test"}, y0, y1)
	w.certs["expired"] = newCert("expired", w.a, false, ip, nil, now.Add(-48*time.Hour), now.Add(-time.Hour))
	w.certs["future"] = newCert("future", w.a, false, ip, nil, now.Add(time.Hour), y1)
	w.certs["otherca"] = newCert("otherca", w.b, false, ip, nil, y0, y1)
	w.certs["self"] = newCert("self", nil, false, ip, nil, y0, y1)
	ca, cb := newCert("client-a", w.a, false, nil, nil, y0, y1), newCert("client-b", w.b, false, nil, nil, y0, y1)
	w.file("cert-ok", ca.pem())
	w.file("key-ok", ca.keyPem())
	w.file("cert-other", cb.pem())
	w.file("key-other", cb.keyPem())
	w.file("ca-ok", w.a.pem())
	w.file("ca-other", w.b.pem())

	var cl []*tlsClient
	for i, x := range s.list("cl") {
		cl = append(cl, newTLSClient(w, i+1, x.(map[string]any)))
	}
	for _, x := range s.list("steps") {
		st := x.(map[string]any)
		cl[toI64(st["k"])-1].step(st)
	}
	rec.Ev(M{"ev": "End", "k": 1})
	rec.Seal()
}

func newTLSClient(w0 *tlsWorld, k int, p map[string]any) *tlsClient {
	w := &tlsWorld{k: k, ident: map[int32]string{}, certs: w0.certs, a: w0.a, b: w0.b, dir: w0.dir, over: map[int]string{}}
	c := NewCluster(int(toI64(p["nodes"])))
	w.c = c
	c.AddTopic("topic-a", []int32{1})
	for i, x := range p["ident"].([]any) {
		w.ident[int32(i+1)] = x.(string)
	}
	c.wrap = w.wrap
	c.onReq = func(q *Req) {
		w.mu.Lock()
		over := w.over[q.Conn]
		w.mu.Unlock()
		w.ev(M{"ev": "Req", "n": q.Node, "x": q.Conn, "api": q.Name, "over": over, "bad": q.DecErr != ""})
	}
	c.respond = func(q *Req, _ *sconn, _ int16) (M, bool, bool) {
		if q.Name == "ListGroups" {
			return M{"throttle": 0, "error": 0, "groups": []any{}}, true, true
		}
		return nil, false, false
	}
	return &tlsClient{w: w, o: p["o"].(map[string]any), kind: p["kind"].(string), ct: int(toI64(p["ct"]))}
}

type tlsClient struct {
	w    *tlsWorld
	o    map[string]any
	kind string
	ct   int
	b    *healer.Brokers
	stop func()
}

func (k *tlsClient) config(bootstrap string) any {
	o := k.o
	t := &healer.TLSConfig{Cert: k.w.pick("cert", o["cert"].(string)), Key: k.w.pick("key", o["key"].(string)), CA: k.w.pick("ca", o["ca"].(string)),
		InsecureSkipVerify: o["skip"] == true, ServerName: o["sn"].(string)}
	on := o["on"] == true
	sasl := healer.SaslConfig{}
	if o["sasl"] == true {
		sasl = healer.SaslConfig{Mechanism: "PLAIN", User: "u", Password: "p"}
	}
	if o["form"] == "nilcfg" {
		t = nil
	}
	switch k.kind {
	case "brokers":
		cfg := healer.DefaultBrokerConfig()
		cfg.TLSEnabled, cfg.TLS, cfg.Sasl = on, t, sasl
		cfg.Net.ConnectTimeoutMS, cfg.Net.TimeoutMS = k.ct, 3000
		return cfg
	}
	if o["form"] == "map" && t != nil {
		m := map[string]any{"bootstrap.servers": bootstrap, "tls.enabled": fmt.Sprint(on), "net": map[string]any{"connect.timeout.ms": k.ct, "timeout.ms": 3000},
			"tls": map[string]any{"cert": t.Cert, "key": t.Key, "ca": t.CA, "insecure.skip.verify": t.InsecureSkipVerify, "servername": t.ServerName}}
		if sasl.Mechanism != "" {
			m["sasl"] = map[string]any{"mechanism": "PLAIN", "user": "u", "password": "p"}
		}
		if k.kind == "group" {
			m["group.id"] = "g1"
		}
		return m
	}
	if k.kind == "producer" || k.kind == "sproducer" {
		cfg := healer.DefaultProducerConfig()
		cfg.BootstrapServers, cfg.TLSEnabled, cfg.TLS, cfg.Sasl = bootstrap, on, t, sasl
		cfg.Net.ConnectTimeoutMS, cfg.Net.TimeoutMS = k.ct, 3000
		return cfg
	}
	cfg := healer.DefaultConsumerConfig()
	cfg.BootstrapServers, cfg.TLSEnabled, cfg.TLS, cfg.Sasl = bootstrap, on, t, sasl
	cfg.Net.ConnectTimeoutMS, cfg.Net.TimeoutMS = k.ct, 3000
	if k.kind == "group" {
		cfg.GroupID = "g1"
	}
	return cfg
}

func (k *tlsClient) boot(addrs []string) error {
	bs := strings.Join(addrs, ",")
	cfg := k.config(bs)
	ch := make(chan *healer.FullMessage, 10)
	switch k.kind {
	case "brokers":
		b, err := healer.NewBrokersWithConfig(bs, cfg.(*healer.BrokerConfig))
		if err == nil {
			k.b, k.stop = b, b.Close
		}
		return err
	case "producer":
		p, err := healer.NewProducer("topic-a", cfg)
		if err == nil {
			k.stop = p.Close
		}
		return err
	case "sproducer":
		p, err := healer.NewSimpleProducer(context.Background(), "topic-a", 0, cfg)
		if err == nil {
			k.stop = p.Close
		}
		return err
	case "group":
		g, err := healer.NewGroupConsumer("topic-a", cfg)
		if err == nil {
			k.stop = g.Close
			go g.Consume(ch)
		}
		return err
	case "consumer":
		m, err := healer.NewConsumer(cfg, "topic-a")
		if err == nil {
			k.stop = func() { m.AwaitClose(5 * time.Second) }
			go m.Consume(ch)
		}
		return err
	}
	sc, err := healer.NewSimpleConsumer("topic-a", 0, cfg)
	if err == nil {
		k.stop = sc.Stop
		go sc.Consume(-2, ch)
	}
	return err
}

func (k *tlsClient) step(st map[string]any) {
	switch st["op"] {
	case "boot":
		if k.stop != nil {
			return
		}
		var as []string
		var ids []int32
		for _, x := range st["addrs"].([]any) {
			ids = append(ids, int32(toI64(x)))
			as = append(as, k.w.c.Addr(int32(toI64(x))))
		}
		k.w.ev(M{"ev": "Boot", "addrs": ids})
		var err error
		if !bounded(25*time.Second, func() { err = k.boot(as) }) {
			hung(M{"k": k.w.k, "what": "boot"})
		}
		k.w.ev(M{"ev": "BootRet", "ok": err == nil})
		if k.kind != "brokers" {
			time.Sleep(150 * time.Millisecond)
		}
	case "ident": // the broker comes back with another certificate
		id := int32(toI64(st["n"]))
		k.w.mu.Lock()
		k.w.ident[id] = st["m"].(string)
		k.w.mu.Unlock()
		k.w.ev(M{"ev": "Ident", "n": id, "m": st["m"]})
		k.w.c.DropNode(id, st["rst"] == true)
		time.Sleep(20 * time.Millisecond)
		k.w.ev(M{"ev": "Cut", "n": id})
		if k.kind != "brokers" {
			time.Sleep(400 * time.Millisecond)
		}
	case "use":
		if k.b == nil {
			return
		}
		id := int32(toI64(st["n"]))
		k.w.ev(M{"ev": "Use", "n": id})
		var err error
		if !bounded(25*time.Second, func() {
			var br *healer.Broker
			if st["fresh"] == true {
				br, err = k.b.NewBroker(id)
			} else {
				br, err = k.b.GetBroker(id)
			}
			if err != nil {
				return
			}
			_, err = br.RequestListGroups("v")
			if st["fresh"] == true {
				br.Close()
			}
		}) {
			hung(M{"k": k.w.k, "what": "use"})
		}
		k.w.ev(M{"ev": "UseRet", "n": id, "ok": err == nil, "fresh": st["fresh"] == true})
	case "close":
		if k.stop == nil {
			return
		}
		f := k.stop
		k.stop, k.b = nil, nil
		bounded(8*time.Second, f)
	}
}
