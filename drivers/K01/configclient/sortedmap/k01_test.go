package sortedmap

import (
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"sort"
	"testing"
	"time"
)

// independent image: sorted keys, length-prefixed fields, total length
func vimage(m map[string]string) []byte {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b []byte
	put := func(s string) {
		var l [8]byte
		binary.BigEndian.PutUint64(l[:], uint64(len(s)))
		b = append(append(b, l[:]...), s...)
	}
	for _, k := range ks {
		put(k)
		put(m[k])
	}
	var l [8]byte
	binary.BigEndian.PutUint64(l[:], uint64(len(b)))
	h := sha512.Sum512(append(b, l[:]...))
	return h[:]
}

func vmsg(m map[string]string, d uint64) []byte {
	var l [8]byte
	binary.BigEndian.PutUint64(l[:], d)
	return append(vimage(m), l[:]...)
}

func vmake(m map[string]string, d uint64, priv ed25519.PrivateKey) []byte {
	b, err := json.Marshal(map[string]interface{}{"Config": m, "SignDate": d, "Signature": ed25519.Sign(priv, vmsg(m, d))})
	if err != nil {
		panic(err)
	}
	return b
}

func TestVerifConfig(t *testing.T) {
	v := vStart(t)
	pub, priv, _ := ed25519.GenerateKey(v.r)
	pub2, priv2, _ := ed25519.GenerateKey(v.r)
	var pk [ed25519.PrivateKeySize]byte
	copy(pk[:], priv)
	word := func() string {
		n := []int{0, 1, 2, 3, 8, 17, 300}[v.r.Intn(7)]
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcxyz019.,/ é"[v.r.Intn(13)]
			if b[i] >= 0x80 {
				b[i] = '_'
			}
		}
		return string(b)
	}
	for it := 0; it < v.n2(60, 600); it++ {
		m := map[string]string{}
		for n := []int{0, 1, 2, 3, 10, 40}[v.r.Intn(6)]; n > 0; n-- {
			m[word()] = word()
		}
		// sorting
		so := StringMap(m).Sort()
		v.check(len(so) == len(m), "sort-len", "%d entries of %d", len(so), len(m))
		for i, e := range so {
			w, ok := m[e.K]
			v.check(ok && w == e.V, "sort-entry", "%q", e)
			v.check(i == 0 || so[i-1].K < e.K, "sort-order", "%q before %q", so, e.K)
		}
		v.check(string(so.Image()) == string(vimage(m)), "image", "%q", m)
		now := uint64(time.Now().Unix())
		d := v.u64()
		v.check(string(so.Sign(d, &pk)) == string(ed25519.Sign(priv, vmsg(m, d))), "sign", "%q at %d", m, d)
		sig := ed25519.Sign(priv, vmsg(m, d))
		v.check(so.Verify(d, pub, sig), "verify", "%q at %d", m, d)
		v.check(!so.Verify(d+1, pub, sig) && !so.Verify(d^(1<<uint(v.r.Intn(64))), pub, sig), "verify-date", "%q at %d", m, d)
		v.check(!so.Verify(d, pub2, sig), "verify-key", "%q", m)
		for _, k := range [][]byte{nil, {}, pub[:31], append(append([]byte(nil), pub...), 0)} {
			v.noPanic("keylen-panic", func() {
				v.check(!so.Verify(d, k, sig), "keylen", "key of %d bytes accepted", len(k))
				_, err := Certify(0, k, vmake(m, now, priv))
				v.check(err != nil, "keylen", "key of %d bytes accepted", len(k))
			}, "key of %d bytes", len(k))
		}
		// certificates of our own
		b, err := StringMap(m).GenerateCertificate(&pk)
		if v.check(err == nil, "generate", "%v", err) {
			for _, last := range []uint64{0, 1, now - 1000} {
				c, err := Certify(last, pub, b)
				if v.check(err == nil && c != nil, "accept", "own certificate refused: %v", err) {
					v.check(fmt.Sprint(map[string]string(c.Config)) == fmt.Sprint(m) && c.SignDate-now < 60, "content", "%v for %v", c.Config, m)
				}
			}
			_, err := Certify(0, pub2, b)
			v.check(err != nil, "wrong-key", "")
		}
		// freshness and walk-back
		for _, dt := range []int64{0, 1, -1, 600, -600, 14380, -14380, 14390, -14390, 14420, -14420, 20000, -20000, 86400, -86400, 1 << 33, -(1 << 30)} {
			d := uint64(int64(now) + dt)
			fresh := dt < 14400 && dt > -14400
			for _, last := range []uint64{0, 1, d - 1, d, d + 1, d + 100, ^uint64(0)} {
				c, err := Certify(last, pub, vmake(m, d, priv))
				want := fresh && last <= d
				v.check((err == nil) == want && (c != nil) == want, "fresh", "signed %+d s from now, last %d, signdate %d: %v", dt, last, d, err)
			}
		}
		for _, d := range []uint64{0, 1, 14400, 1<<63 - 1, 1 << 63, ^uint64(0), ^uint64(0) - 14400 + now, now + 1<<63, now + 1<<63 - 1, now + 1<<63 + 1, now + 1<<32, now + 1<<31, now - 1<<31, -now} {
			_, err := Certify(0, pub, vmake(m, d, priv))
			v.check(err != nil, "fresh", "signed at %d accepted", d)
		}
		// tampering
		good := ed25519.Sign(priv, vmsg(m, now))
		try := func(key string, m2 map[string]string, d uint64, sig []byte) {
			b, _ := json.Marshal(map[string]interface{}{"Config": m2, "SignDate": d, "Signature": sig})
			v.noPanic(key+"-panic", func() {
				c, err := Certify(0, pub, b)
				v.check(err != nil && c == nil, key, "accepted %q as %q", m2, m)
			}, "%q", m2)
		}
		cp := func() map[string]string {
			r := map[string]string{}
			for k, w := range m {
				r[k] = w
			}
			return r
		}
		try("forged", cp(), now, ed25519.Sign(priv2, vmsg(m, now)))
		try("nosig", cp(), now, nil)
		try("shortsig", cp(), now, good[:63])
		try("longsig", cp(), now, append(append([]byte(nil), good...), 0))
		try("date", cp(), now-1, good)
		bad := append([]byte(nil), good...)
		bad[v.r.Intn(64)] ^= 1 << uint(v.r.Intn(8))
		try("sigbit", cp(), now, bad)
		x := cp()
		x["added"+word()] = word()
		try("added", x, now, good)
		for k, w := range m {
			x := cp()
			delete(x, k)
			try("removed", x, now, good)
			x = cp()
			x[k] = w + "!"
			try("changed", x, now, good)
			x = cp()
			delete(x, k)
			x[k+"!"] = w
			try("renamed", x, now, good)
			if len(w) > 0 {
				x = cp()
				delete(x, k)
				if _, has := m[k+w[:1]]; !has {
					x[k+w[:1]] = w[1:]
					try("moved", x, now, good)
				}
			}
			for k2, w2 := range m {
				if k2 != k && w2 != w {
					x := cp()
					x[k], x[k2] = w2, w
					try("swapped", x, now, good)
					break
				}
			}
		}
		for _, s := range []string{"", "{", "null", "[]", `{"Config":1}`, `{"SignDate":-1}`, `{"Config":{"a":1}}`} {
			v.noPanic("json-panic", func() {
				_, err := Certify(0, pub, []byte(s))
				v.check(err != nil, "json", "accepted %q", s)
			}, "%q", s)
		}
	}
	v.done()
}
