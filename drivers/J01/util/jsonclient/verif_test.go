package jsonclient

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	"log"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"testing"
	"time"
)

// vCert makes a certificate for 127.0.0.1 or a name, its own authority.
func vCert(serial int64, ip bool) (tls.Certificate, []byte) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{
		SerialNumber:          big.NewInt(serial),
		Subject:               pkix.Name{CommonName: "127.0.0.1"},
		NotBefore:             time.Now().Add(-time.Hour),
		NotAfter:              time.Now().Add(24 * time.Hour),
		IsCA:                  true,
		BasicConstraintsValid: true,
		KeyUsage:              x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
		ExtKeyUsage:           []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	if ip {
		t.IPAddresses = []net.IP{net.ParseIP("127.0.0.1")}
	} else {
		t.DNSNames = []string{"other.mute.one"}
	}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

type vServer struct {
	s     *httptest.Server
	calls []map[string]interface{}
	how   []string
	reply []byte // if not nil; {{ID}} is the call's
	res   interface{}
	err   interface{}
}

func newServer(cert *tls.Certificate) *vServer {
	w := &vServer{}
	w.s = httptest.NewUnstartedServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		q := map[string]interface{}{}
		json.Unmarshal(b, &q)
		w.calls = append(w.calls, q)
		w.how = append(w.how, r.Method+" "+r.URL.String()+" "+r.Header.Get("Content-Type"))
		if w.reply != nil {
			rw.Write(w.reply)
			return
		}
		m := map[string]interface{}{"jsonrpc": "2.0", "id": q["id"]}
		if w.err != nil {
			m["error"] = w.err
		} else {
			m["result"] = w.res
		}
		j, _ := json.Marshal(m)
		rw.Write(j)
	}))
	w.s.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	if cert == nil {
		w.s.Start()
	} else {
		w.s.TLS = &tls.Config{Certificates: []tls.Certificate{*cert}}
		w.s.StartTLS()
	}
	return w
}

func (v *vT) json(depth int) interface{} {
	switch v.r.Intn(8) {
	case 0:
		return nil
	case 1:
		return v.r.Intn(2) == 0
	case 2:
		return float64(v.r.Int63n(1 << 50))
	case 3:
		return fmt.Sprintf("text %d \u00e4\n", v.r.Intn(100))
	case 4, 5:
		l := []interface{}{}
		for i := v.r.Intn(3); i > 0 && depth > 0; i-- {
			l = append(l, v.json(depth-1))
		}
		return l
	}
	return v.object(depth)
}

func (v *vT) object(depth int) map[string]interface{} {
	m := map[string]interface{}{}
	for i := v.r.Intn(4); i > 0 && depth > 0; i-- {
		m[fmt.Sprintf("K%d", v.r.Intn(10))] = v.json(depth - 1)
	}
	return m
}

// TestVerifCalls: a call reaches only the server the certificate is for, as it was made, and its reply or error comes back.
func TestVerifCalls(t *testing.T) {
	v := vStart(t)
	log.SetOutput(ioutil.Discard)
	cert, ca := vCert(1, true)
	named, namedCA := vCert(2, false)
	_, other := vCert(3, true)
	good, wrongName, plain := newServer(&cert), newServer(&named), newServer(nil)
	defer good.s.Close()
	defer wrongName.s.Close()
	defer plain.s.Close()
	for i := 0; i < v.n2(600, 10000); i++ {
		s, pem := good, ca
		how := "good"
		switch v.r.Intn(12) {
		case 0:
			pem, how = other, "another authority"
		case 1:
			s, pem, how = wrongName, namedCA, "another name"
		case 2:
			pem, how = [][]byte{nil, {}, v.bytes(30), ca[:len(ca)/2]}[v.r.Intn(4)], "no authority"
		case 3:
			s, pem, how = plain, nil, "plain"
		}
		path := []string{"", "/account", "/a/b?c=d"}[v.r.Intn(3)]
		c, err := New(s.s.URL+path, pem)
		if how == "no authority" {
			if v.check(err != nil && c == nil, "new-ca", "client for https without an authority") {
				continue
			}
		} else if !v.check(err == nil && c != nil, "new", "%v", err) {
			continue
		}
		for k := 1 + v.r.Intn(2); k > 0; k-- {
			method := fmt.Sprintf("Server.M%d", v.r.Intn(100))
			var args interface{} = v.object(3)
			var want interface{} = args
			if v.r.Intn(4) == 0 {
				args, want = nil, map[string]interface{}{}
			}
			s.calls, s.how, s.err, s.reply = nil, nil, nil, nil
			res := v.object(3)
			s.res = res
			errText := ""
			bad := false
			switch v.r.Intn(6) {
			case 0:
				errText = fmt.Sprintf("ErrReplay: %d", v.u64())
				s.err = map[string]interface{}{"code": -32000, "message": errText}
			case 1:
				bad = true
				s.reply = [][]byte{{}, []byte("{}"), []byte("x"), []byte("[1]"), []byte("null"), []byte(`{"result":5}`), []byte(`{"jsonrpc":"2.0","result":"x","id":1}`), []byte(`{"jsonrpc":"2.0","result":null,"id":1}`), v.bytes(20)}[v.r.Intn(9)]
			}
			v.noPanic("call-panic", func() {
				r, err := c.JSONRPCRequest(method, args)
				if how != "good" && how != "plain" {
					v.check(err != nil && r == nil && len(s.calls) == 0, "stranger", "%s: called", how)
					return
				}
				if !v.check(len(s.calls) == 1 && s.calls[0]["method"] == method && reflect.DeepEqual(s.calls[0]["params"], want), "call", "%s(%v) made as %v", method, args, s.calls) {
					return
				}
				p := path
				if p == "" {
					p = "/"
				}
				v.check(s.how[0] == "POST "+p+" application/json", "call-how", "%s", s.how[0])
				switch {
				case errText != "":
					v.check(err != nil && r == nil && err.Error() == errText, "call-error", "error %q given as %v, %v", errText, r, err)
				case bad:
					v.check(err != nil && r == nil, "call-garbage", "%q read as %v", s.reply, r)
				default:
					v.check(err == nil && reflect.DeepEqual(r, res), "call-reply", "%v read as %v: %v", res, r, err)
				}
			}, "%q", s.reply)
		}
	}
	for _, u := range []string{":", "%zz", "http://[::1", "\x7f"} {
		c, err := New(u, ca)
		v.check(c == nil && err != nil, "new-url", "client for %q", u)
	}
	_ = bytes.Equal
	v.done()
}
