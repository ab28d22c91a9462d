package configclient

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/mutecomm/mute/configclient/cahash"
	"github.com/mutecomm/mute/configclient/sortedmap"
)

type vserver struct {
	sync.Mutex
	cfg, ca []byte // nil: 404 with an empty body
	hits    int
	*httptest.Server
}

func vnew() *vserver {
	s := &vserver{}
	s.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.Lock()
		defer s.Unlock()
		s.hits++
		switch r.URL.Path {
		case "/config":
			w.Write(s.cfg)
		case "/cacert":
			w.Write(s.ca)
		}
	}))
	return s
}

func vcert(n int64) []byte {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	t := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: fmt.Sprint("ca", n)}, NotBefore: time.Now(), NotAfter: time.Now().Add(time.Hour), IsCA: true}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

func vhash(p []byte) string {
	b, _ := pem.Decode(p)
	h := sha512.Sum512(b.Bytes)
	return hex.EncodeToString(h[:])
}

func TestVerifUpdate(t *testing.T) {
	v := vStart(t)
	pub, priv, _ := ed25519.GenerateKey(v.r)
	_, priv2, _ := ed25519.GenerateKey(v.r)
	var pk, pk2 [ed25519.PrivateKeySize]byte
	copy(pk[:], priv)
	copy(pk2[:], priv2)
	sign := func(m map[string]string, k *[ed25519.PrivateKeySize]byte) []byte {
		b, err := sortedmap.StringMap(m).GenerateCertificate(k)
		if err != nil {
			t.Fatal(err)
		}
		return b
	}
	ca1, ca2 := vcert(1), vcert(2)
	cfg1 := map[string]string{"a": "1", "CACertHash": vhash(ca1)}
	cfg2 := map[string]string{"a": "2", "CACertHash": vhash(ca2)}
	plain := map[string]string{"a": "3"}
	srv := []*vserver{vnew(), vnew(), vnew()}
	url := func(i int) string { return strings.TrimPrefix(srv[i].URL, "http://") }
	list := func() string { return fmt.Sprintf("10,%s;20,%s;10,%s", url(0), url(1), url(2)) }
	set := func(i int, cfg, ca []byte) {
		srv[i].Lock()
		srv[i].cfg, srv[i].ca, srv[i].hits = cfg, ca, 0
		srv[i].Unlock()
	}
	var c *Config
	upd := func(what string) (err error) {
		v.noPanic("panic", func() { err = c.Update() }, "%s", what)
		return
	}
	eq := func(a, b map[string]string) bool { return fmt.Sprint(a) == fmt.Sprint(b) }
	type kind struct {
		name string
		cfg  []byte
		want map[string]string
	}
	short := map[string]string{"a": "4", "CACertHash": vhash(ca1)[:2+2*v.r.Intn(62)]}
	long := map[string]string{"a": "5", "CACertHash": vhash(ca1) + "00"}
	empty := map[string]string{"a": "6", "CACertHash": ""}
	nohex := map[string]string{"a": "7", "CACertHash": vhash(ca1)[:127]}
	kinds := []kind{{"cfg1", sign(cfg1, &pk), cfg1}, {"cfg2", sign(cfg2, &pk), cfg2}, {"plain", sign(plain, &pk), plain}, {"short", sign(short, &pk), short}, {"long", sign(long, &pk), long}, {"empty", sign(empty, &pk), empty}, {"nohex", sign(nohex, &pk), nohex}, {"forged", sign(cfg2, &pk2), nil}, {"junk", []byte("{"), nil}, {"none", nil, nil}}
	cas := [][]byte{nil, ca1, ca2, []byte("junk"), []byte("-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n")}
	for it := 0; it < v.n2(250, 2500); it++ {
		c = &Config{PublicKey: pub, URLList: list()}
		switch v.r.Intn(4) {
		case 1:
			c.CACert = ca1
		case 2:
			c.CACert = ca2
		}
		hist := ""
		for step := 0; step < 3; step++ {
			var ks [3]int
			var cs [3]int
			for i := range srv {
				ks[i], cs[i] = v.r.Intn(len(kinds)), v.r.Intn(len(cas))
				if v.r.Intn(3) == 0 {
					ks[i] = len(kinds) - 1 - v.r.Intn(3)
				}
				set(i, kinds[ks[i]].cfg, cas[cs[i]])
				hist += fmt.Sprintf(" %s/%d", kinds[ks[i]].name, cs[i])
			}
			hist += ";"
			oldMap, oldCA, oldDate := c.Map, c.CACert, c.LastSignDate
			err := upd(hist)
			hits := [3]bool{srv[0].hits > 0, srv[1].hits > 0, srv[2].hits > 0}
			good := false
			for i := range srv {
				good = good || kinds[ks[i]].want != nil
			}
			v.check(good || err != nil, "accept", "no server had a certified configuration, yet Update succeeded: %s", hist)
			if err == nil {
				from := false
				for i := range srv {
					if w := kinds[ks[i]].want; w != nil && eq(w, c.Map) {
						from = true
					}
				}
				v.check(from, "content", "%v after %s", c.Map, hist)
				v.check(c.LastSignDate >= oldDate && c.LastSignDate > 0, "walkback", "")
				if h, ok := c.Map["CACertHash"]; ok && h == "" {
					// no certificate wanted
				} else if ok {
					v.check(c.CACert != nil && strings.HasPrefix(string(c.CACert), "-----BEGIN") && vhash(c.CACert) == h, "cacert", "certificate in use is not the certified one after %s", hist)
				} else {
					v.check(string(c.CACert) == string(oldCA), "cacert-kept", "%s", hist)
				}
			} else {
				v.check(eq(oldMap, c.Map) && string(oldCA) == string(c.CACert) && (oldDate == 0 || oldDate == c.LastSignDate), "failure-changes", "after %v: %s", err, hist)
				if !good {
					v.check(hits[0] && hits[1] && hits[2], "every-server", "not every server asked: %v: %s", hits, hist)
				}
				// with a good server that has both parts an update can only fail on the certificate
				var any bool
				for i := range srv {
					any = any || kinds[ks[i]].name == "plain"
				}
				all := true
				for i := range srv {
					all = all && (kinds[ks[i]].want == nil || kinds[ks[i]].name == "plain")
				}
				v.check(!(any && all), "refused", "a certified configuration without certificate was available: %v: %s", err, hist)
			}
			v.check(string(c.PublicKey) == string(pub), "pubkey", "")
		}
		// afterwards everything is available again
		for i := range srv {
			set(i, kinds[0].cfg, ca1)
		}
		err := upd(hist + " all good")
		v.check(err == nil && eq(c.Map, cfg1) && string(c.CACert) == string(ca1), "recover", "%v after %s", err, hist)
		// not older than the last one seen
		c.LastSignDate += 100000
		last := c.LastSignDate
		err = upd("older configuration")
		v.check(err != nil && c.LastSignDate == last, "walkback", "older configuration accepted")
	}
	c = &Config{PublicKey: pub}
	for _, l := range []string{"", ";", "10", "10,", ",", "x;y"} {
		c.URLList = l
		v.check(upd("list "+l) != nil, "noservers", "list %q", l)
	}
	for _, s := range srv {
		s.Close()
	}
	for i := 0; i < v.n2(200, 2000); i++ {
		p := append([]byte(nil), ca1...)
		switch i % 4 {
		case 0:
			p = p[:v.r.Intn(len(p))]
		case 1:
			p[v.r.Intn(len(p))] ^= 1
		case 2:
			p = v.bytes(v.r.Intn(50))
		}
		v.noPanic("hash-panic", func() {
			h, err := cahash.Hash(p)
			b, _ := pem.Decode(p)
			if err == nil {
				v.check(b != nil && hex.EncodeToString(h) == vhash(p), "hash", "%q", p)
			}
		}, "%q", p)
	}
	v.done()
}
