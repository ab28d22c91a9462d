package cipher

import (
	"testing"

	"golang.org/x/crypto/curve25519"
)

func TestVerifECDH(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(60, 600); i++ {
		a, _ := Curve25519Generate(&vReader{b: v.bytes(32)})
		b, _ := Curve25519Generate(&vReader{b: v.bytes(32)})
		var want [32]byte
		curve25519.ScalarMult(&want, a.PrivateKey(), b.PublicKey())
		for _, own := range []*[32]byte{nil, a.PublicKey()} {
			s, err := ECDH(a.PrivateKey(), b.PublicKey(), own)
			v.check(err == nil && s != nil && *s == want, "ecdh", "shared secret of %x and %x", *a.PrivateKey(), *b.PublicKey())
			s, err = ECDH(a.PrivateKey(), a.PublicKey(), own)
			v.check(err != nil && s == nil, "ecdh-reflection", "key agreement with the own public key %x (own key given: %v)", *a.PublicKey(), own != nil)
			cp := *a.PublicKey()
			s, err = ECDH(a.PrivateKey(), &cp, own)
			v.check(err != nil && s == nil, "ecdh-reflection", "key agreement with a copy of the own public key")
		}
		s2, err := ECDH(b.PrivateKey(), a.PublicKey(), b.PublicKey())
		v.check(err == nil && *s2 == want, "ecdh-agree", "both sides disagree for %x %x", *a.PrivateKey(), *b.PrivateKey())
		_, e1 := ECDH(nil, b.PublicKey(), nil)
		_, e2 := ECDH(a.PrivateKey(), nil, nil)
		v.check(e1 != nil && e2 != nil, "ecdh-nil", "nil key accepted")
	}
	v.done()
}
