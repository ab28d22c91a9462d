package msg

import (
	"bytes"
	"io"
	"testing"

	"crypto/sha512"

	"golang.org/x/crypto/hkdf"
)

func TestVerifGenerate(t *testing.T) {
	v := vStart(t)
	ids := []string{"a", "b", "", "ab", "alice@mute.berlin", "alice@mute.berlinx", "z@z"}
	for _, x := range ids {
		for _, y := range ids {
			for n := uint64(0); n < 5; n++ {
				for _, rev := range []bool{false, true} {
					var root, sp, rp [32]byte
					copy(root[:], v.bytes(32))
					copy(sp[:], v.bytes(32))
					copy(rp[:], v.bytes(32))
					chain := append([]byte(nil), root[:]...)
					s := newRecStore()
					err := generateMessageKeys(x, y, "HX", "HY", &root, rev, &sp, &rp, n, s)
					if !v.check(err == nil && len(s.stored) == 1, "generate", "%v", err) {
						continue
					}
					v.check(root == [32]byte{}, "wipe", "the chain key was not wiped")
					if n == 0 {
						continue
					}
					if rev {
						v.checkStored("generate", s.stored[0], chain, int(n), x, y, "HY", "HX", &rp, &sp, true)
					} else {
						v.checkStored("generate", s.stored[0], chain, int(n), x, y, "HX", "HY", &sp, &rp, true)
					}
				}
			}
		}
	}
	for i := 0; i < 100; i++ {
		var mk [64]byte
		copy(mk[:], v.bytes(64))
		c, h, err := deriveSymmetricKeys(&mk)
		out := make([]byte, 64)
		io.ReadFull(hkdf.New(sha512.New, mk[:], nil, nil), out)
		v.check(err == nil && bytes.Equal(c, out[:32]) && bytes.Equal(h, out[32:]), "symmetric", "keys from %x", mk)
	}
	v.done()
}
