package msg

import (
	"bytes"
	"testing"
)

func TestVerifCheckKeys(t *testing.T) {
	v := vStart(t)
	for i := 0; i < 200; i++ {
		var k [5]*[32]byte
		for j := range k {
			k[j] = new([32]byte)
			copy(k[j][:], v.sbytes(32))
		}
		same := false
		for a := 0; a < 5; a++ {
			for b := a + 1; b < 5; b++ {
				same = same || *k[a] == *k[b]
			}
		}
		if same {
			v.check(checkKeys(k[0], k[1], k[2], k[3], k[4]) == ErrReflection, "reflection", "equal keys accepted")
			continue
		}
		v.check(checkKeys(k[0], k[1], k[2], k[3], k[4]) == nil, "distinct", "distinct keys rejected")
		// every way of having some of the keys equal, others not
		for m := 0; m < 3125; m += 1 + i%7 {
			var l [5]*[32]byte
			eq := false
			used := map[int]bool{}
			for j, x := 0, m; j < 5; j, x = j+1, x/5 {
				cp := *k[x%5]
				l[j] = &cp
				eq = eq || used[x%5]
				used[x%5] = true
			}
			v.check((checkKeys(l[0], l[1], l[2], l[3], l[4]) != nil) == eq, "reflection", "assignment %d of the keys %x", m, l)
		}
		for a := 0; a < 5; a++ {
			for b := a + 1; b < 5; b++ {
				l := k
				cp := *k[a]
				l[b] = &cp
				v.check(checkKeys(l[0], l[1], l[2], l[3], l[4]) == ErrReflection, "reflection", "equal keys %d and %d accepted", a, b)
				cp2 := *k[a]
				cp2[i%32] ^= 1 << uint(i%8)
				l[b] = &cp2
				v.check(checkKeys(l[0], l[1], l[2], l[3], l[4]) == nil, "distinct", "keys %d and %d differing in one bit rejected", a, b)
			}
		}
	}
	for i := 0; i < 100; i++ {
		var t1, t2, t3 [32]byte
		var pr [64]byte
		copy(t1[:], v.bytes(32))
		copy(t2[:], v.bytes(32))
		copy(t3[:], v.bytes(32))
		copy(pr[:], v.bytes(64))
		r, err := deriveRootKey(&t1, &t2, &t3, nil)
		v.check(err == nil && bytes.Equal(r[:], vroot(t1[:], t2[:], t3[:], nil)), "root", "root key without a previous session")
		r, err = deriveRootKey(&t1, &t2, &t3, &pr)
		v.check(err == nil && bytes.Equal(r[:], vroot(t1[:], t2[:], t3[:], pr[:])), "root", "root key with a previous session")
	}
	v.done()
}
