package padding

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"testing"
)

func TestVerifPadding(t *testing.T) {
	v := vStart(t)
	for n := 0; n < v.n2(700, 5000); n++ {
		rnd := v.bytes(64)
		for _, max := range []int{0, 1, 13} {
			rd := &vReader{b: rnd, max: max}
			p, err := Generate(n, rd)
			if !v.check(err == nil && len(p) == n, "length", "Generate(%d) gives %d bytes, %v", n, len(p), err) {
				continue
			}
			if n <= 32 {
				v.check(bytes.Equal(p, rnd[:n]), "random", "Generate(%d) is not the random bytes read", n)
				continue
			}
			blk, _ := aes.NewCipher(rnd[:32])
			want := make([]byte, n)
			cipher.NewCTR(blk, make([]byte, 16)).XORKeyStream(want, want)
			v.check(bytes.Equal(p, want) && rd.pos == 32, "stream", "Generate(%d) is not the key stream of 32 random bytes", n)
		}
		if n > 0 {
			k := n
			if k > 32 {
				k = 32
			}
			p, err := Generate(n, &vReader{b: rnd[:k-1]})
			v.check(err != nil && p == nil, "no-random", "Generate(%d) with %d random bytes", n, k-1)
		}
	}
	v.done()
}
