package cipher

import (
	"bytes"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"testing"

	"golang.org/x/crypto/curve25519"
)

func TestVerifHashes(t *testing.T) {
	v := vStart(t)
	for n := 0; n < v.n2(300, 2000); n++ {
		b := v.bytes(n)
		in := append([]byte(nil), b...)
		s1, s2, s5 := sha1.Sum(b), sha256.Sum256(b), sha512.Sum512(b)
		v.check(bytes.Equal(SHA1(b), s1[:]), "sha1", "SHA1(%x)", b)
		v.check(bytes.Equal(SHA256(b), s2[:]), "sha256", "SHA256(%x)", b)
		v.check(bytes.Equal(SHA512(b), s5[:]), "sha512", "SHA512(%x)", b)
		for _, kl := range []int{0, 1, 16, 32, 63, 64, 65, 127, 128, 129, 200} {
			k := v.bytes(kl)
			m := hmac.New(sha512.New, k)
			m.Write(b)
			v.check(bytes.Equal(HMAC(k, b), m.Sum(nil)), "hmac", "HMAC(key %x, %x)", k, b)
		}
		v.check(bytes.Equal(b, in), "hash-frame", "hash input changed: %x", in)
	}
	v.done()
}

func TestVerifKeySetters(t *testing.T) {
	v := vStart(t)
	for n := 0; n < 140; n++ {
		k := v.bytes(n)
		var c Curve25519Key
		var e Ed25519Key
		v.check((c.SetPublicKey(k) == nil) == (n == 32), "c25519-pub", "SetPublicKey with %d bytes", n)
		v.check((c.SetPrivateKey(k) == nil) == (n == 32), "c25519-priv", "SetPrivateKey with %d bytes", n)
		v.check((e.SetPublicKey(k) == nil) == (n == 32), "ed25519-pub", "SetPublicKey with %d bytes", n)
		v.check((e.SetPrivateKey(k) == nil) == (n == 64), "ed25519-priv", "SetPrivateKey with %d bytes", n)
		if n == 32 {
			orig := append([]byte(nil), k...)
			v.check(bytes.Equal(c.PublicKey()[:], k) && bytes.Equal(c.PrivateKey()[:], k) && bytes.Equal(e.PublicKey()[:], k), "key-roundtrip", "keys set from %x", k)
			k[0] ^= 1
			k[31] ^= 1
			v.check(bytes.Equal(c.PublicKey()[:], orig) && bytes.Equal(c.PrivateKey()[:], orig) && bytes.Equal(e.PublicKey()[:], orig), "key-copied", "key aliases the caller's slice")
			v.check(c.SetPublicKey(k[:31]) != nil && bytes.Equal(c.PublicKey()[:], orig), "key-kept", "a rejected key replaced the old one")
		}
		if n == 64 {
			v.check(bytes.Equal(e.PrivateKey()[:], k), "key-roundtrip", "ed25519 private key set from %x", k)
			orig := append([]byte(nil), k...)
			k[63] ^= 1
			v.check(bytes.Equal(e.PrivateKey()[:], orig), "key-copied", "key aliases the caller's slice")
		}
	}
	v.done()
}

func TestVerifGenerate(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(40, 400); i++ {
		seed := v.bytes(64)
		for _, max := range []int{0, 1, 7} {
			r := &vReader{b: seed, max: max}
			c, err := Curve25519Generate(r)
			if !v.check(err == nil && c != nil, "c25519-gen", "Curve25519Generate failed: %v", err) {
				continue
			}
			var pub, priv [32]byte
			copy(priv[:], seed)
			curve25519.ScalarBaseMult(&pub, &priv)
			v.check(*c.PrivateKey() == priv && *c.PublicKey() == pub && r.pos == 32, "c25519-gen", "key pair from seed %x (reads of %d bytes)", seed[:32], max)
		}
		for n := 0; n < 32; n++ {
			c, err := Curve25519Generate(&vReader{b: seed[:n]})
			v.check(err != nil && c == nil, "c25519-short", "a key was generated from %d random bytes", n)
		}
		e, err := Ed25519Generate(RandReader)
		if v.check(err == nil && e != nil, "ed25519-gen", "Ed25519Generate failed: %v", err) {
			msg := v.bytes(i * 3)
			sig := e.Sign(msg)
			v.check(bytes.Equal(sig, ed25519.Sign(ed25519.PrivateKey(e.PrivateKey()[:]), msg)), "sign", "signature of %x", msg)
			v.check(e.Verify(msg, sig), "verify", "own signature of %x rejected", msg)
			for k := 0; k < 12; k++ {
				bad := append([]byte(nil), sig...)
				bad[v.r.Intn(len(bad))] ^= 1 << uint(v.r.Intn(8))
				v.check(!e.Verify(msg, bad), "verify-forged", "forged signature %x of %x accepted", bad, msg)
			}
			for n := 0; n < 64; n++ {
				v.check(!e.Verify(msg, sig[:n]), "verify-short", "signature cut to %d bytes accepted", n)
			}
			v.check(!e.Verify(append([]byte{0}, msg...), sig), "verify-other", "signature of another message accepted")
			v.check(!e.Verify(msg, append(sig, 0)), "verify-long", "signature with a trailing byte accepted")
			o, _ := Ed25519Generate(RandReader)
			v.check(!o.Verify(msg, sig), "verify-key", "signature accepted under another key")
			ed, err := Ed25519Generate(&vReader{b: seed[:16]})
			_ = ed
			_ = err
		}
		n := Nonce(&vReader{b: seed, max: 3})
		v.check(bytes.Equal(n, seed[:8]), "nonce", "nonce %x from %x", n, seed)
		for k := 0; k < 8; k++ {
			p, _ := v.panics(func() { Nonce(&vReader{b: seed[:k]}) })
			v.check(p, "nonce-short", "nonce from %d random bytes", k)
		}
	}
	v.done()
}

// the two output keys of the key derivation, from its definition
func TestVerifCKDF(t *testing.T) {
	v := vStart(t)
	for n := 0; n < 200; n++ {
		b := v.bytes(n)
		a := sha512.Sum512(b)
		f := func(x, y []byte) []byte {
			var o, i []byte
			for _, c := range append(append([]byte(nil), x...), x...) {
				o = append(o, c^0x5c)
			}
			for _, c := range append(append([]byte(nil), y...), y...) {
				i = append(i, c^0x36)
			}
			h := sha512.Sum512(i)
			r := sha512.Sum512(append(o, h[:]...))
			return r[:]
		}
		k1, k2 := CKDF(b)
		v.check(bytes.Equal(k1, f(a[:32], a[32:])) && bytes.Equal(k2, f(a[32:], a[:32])), "ckdf", "CKDF(%x)", b)
	}
	v.done()
}
