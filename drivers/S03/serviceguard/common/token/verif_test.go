package token

import (
	"bytes"
	"crypto/sha256"
	"math/big"
	"testing"

	"github.com/ronperry/cryptoedge/eccutil"
	"github.com/ronperry/cryptoedge/jjm"
)

func TestVerifToken(t *testing.T) {
	v := vStart(t)
	old := Rand
	defer func() { Rand = old }()
	for k := 0; k < v.n2(300, 5000); k++ {
		rnd := v.sbytes(100)
		var id [32]byte
		copy(id[:], v.sbytes(32))
		owner := new([32]byte)
		copy(owner[:], v.sbytes(32))
		if k%3 == 0 {
			*owner = [32]byte{}
		}
		if k%2 == 0 {
			owner = nil
		}
		src := &vReader{b: rnd, max: v.r.Intn(20)}
		Rand = src
		tok := New(&id, owner)
		var want Token
		want.KeyID = id[:]
		if owner == nil {
			want.Owner, want.Nonce = rnd[:32], rnd[32:48]
		} else {
			want.Owner, want.Nonce, want.Flag = owner[:], rnd[:16], true
		}
		same := func(a, b *Token) bool {
			return bytes.Equal(a.KeyID, b.KeyID) && a.Flag == b.Flag && bytes.Equal(a.Nonce, b.Nonce) && bytes.Equal(a.Owner, b.Owner) &&
				bytes.Equal(a.PointRX, b.PointRX) && bytes.Equal(a.PointRY, b.PointRY) && bytes.Equal(a.ScalarS, b.ScalarS) && bytes.Equal(a.ScalarR, b.ScalarR)
		}
		if !v.check(tok != nil && same(tok, &want), "new", "%+v want %+v", tok, want) {
			continue
		}
		v.check(src.pos == len(want.Nonce)+map[bool]int{true: 32, false: 0}[owner == nil], "random", "%d bytes taken", src.pos)
		var fl = []byte{0}
		if tok.Flag {
			fl[0] = 1
		}
		img := func(tk *Token) []byte {
			h := sha256.Sum256(append(append(append(append([]byte{}, tk.KeyID...), fl...), tk.Nonce...), tk.Owner...))
			return h[:]
		}
		v.check(bytes.Equal(tok.Hash(), img(tok)), "hash", "%+v", tok)
		kid, own := tok.Properties()
		v.check(*kid == id && (own == nil) == (owner == nil) && (own == nil || *own == *owner) && tok.HasOwner() == (owner != nil), "properties", "%+v", tok)
		// the signature is carried along, and not part of the hash
		h := tok.Hash()
		sig := &jjm.ClearSignature{}
		big1 := func() *big.Int { return new(big.Int).SetBytes(v.sbytes(v.r.Intn(40))) }
		sig.PointR = *eccutil.NewPoint(big1(), big1())
		sig.ScalarR, sig.ScalarS = big1(), big1()
		tok.AddSignature(sig)
		v.check(bytes.Equal(tok.Hash(), h), "hash-signature", "%+v", tok)
		for i := 0; i < 2; i++ {
			g := tok.GetSignature()
			v.check(g.PointR.X.Cmp(sig.PointR.X) == 0 && g.PointR.Y.Cmp(sig.PointR.Y) == 0 && g.ScalarR.Cmp(sig.ScalarR) == 0 && g.ScalarS.Cmp(sig.ScalarS) == 0, "signature", "pass %d: %+v", i, tok)
			m, err := tok.Marshal()
			if !v.check(err == nil, "marshal", "%v", err) {
				break
			}
			q, err := Unmarshal(m)
			if !v.check(err == nil && q != nil && same(q, tok), "roundtrip", "%+v: %+v %v", tok, q, err) {
				break
			}
			c := append([]byte{}, m...)
			c[v.r.Intn(len(c))] ^= 1 << uint(v.r.Intn(8))
			c = c[:len(c)-v.r.Intn(2)*v.r.Intn(len(c))]
			v.noPanic("unmarshal-panic", func() {
				q, err := Unmarshal(c)
				if v.check((q == nil) == (err != nil), "unmarshal", "%v %v", q, err) && q != nil {
					q.Properties()
					q.Hash()
					q.GetSignature()
				}
			}, "%x", c)
			tok = q
		}
		// every part counts
		for i := 0; i < 4; i++ {
			q := *tok
			f := []*[]byte{&q.KeyID, &q.Nonce, &q.Owner}
			if i == 3 {
				q.Flag = !q.Flag
			} else {
				c := append([]byte{}, *f[i]...)
				c[v.r.Intn(len(c))] ^= 1 << uint(v.r.Intn(8))
				*f[i] = c
			}
			v.check(!bytes.Equal(q.Hash(), h), "hash-part", "change %d keeps the hash", i)
		}
	}
	// parts of any length
	for k := 0; k < v.n2(300, 5000); k++ {
		q := Token{KeyID: v.sbytes(v.r.Intn(70)), Flag: v.r.Intn(2) == 0, Nonce: v.sbytes(v.r.Intn(40)), Owner: v.sbytes(v.r.Intn(70))}
		if k%2 == 0 {
			q.KeyID, q.Nonce, q.Owner = v.sbytes(32+v.r.Intn(3)%2), v.sbytes(16+v.r.Intn(3)%2), v.sbytes(32-v.r.Intn(3)%2)
		}
		fl := byte(0)
		if q.Flag {
			fl = 1
		}
		h := sha256.Sum256(append(append(append(append([]byte{}, q.KeyID...), fl), q.Nonce...), q.Owner...))
		v.check(bytes.Equal(q.Hash(), h[:]), "hash-any", "%+v", q)
		id, own := q.Properties()
		var wid, wown [32]byte
		copy(wid[:], q.KeyID)
		copy(wown[:], q.Owner)
		v.check(*id == wid && (own != nil) == q.Flag && (own == nil || *own == wown), "properties-any", "%+v", q)
		m, err := q.Marshal()
		if v.check(err == nil, "marshal-any", "%v", err) {
			u, err := Unmarshal(m)
			ok := len(q.KeyID) == 32 && len(q.Nonce) == 16 && len(q.Owner) == 32
			v.check((err == nil) == ok && (u != nil) == ok, "unmarshal-any", "%+v: %v", q, err)
		}
	}
	for n := 0; n < 48; n++ {
		Rand = &vReader{b: make([]byte, n)}
		var id [32]byte
		v.check(New(&id, nil) == nil, "short-random", "%d random bytes suffice", n)
		if n < 16 {
			Rand = &vReader{b: make([]byte, n)}
			v.check(New(&id, &id) == nil, "short-random-owner", "%d random bytes suffice", n)
		}
	}
	v.done()
}
