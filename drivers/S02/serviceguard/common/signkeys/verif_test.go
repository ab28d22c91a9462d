package signkeys

import (
	"bytes"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"math/big"
	"testing"
	"time"

	"github.com/ronperry/cryptoedge/eccutil"
)

func vID(p *PublicKey) [32]byte {
	var e [8]byte
	binary.BigEndian.PutUint64(e[:], uint64(p.Expire))
	var b []byte
	b = append(b, p.PublicKey.X.Bytes()...)
	b = append(b, p.PublicKey.Y.Bytes()...)
	b = append(b, e[:]...)
	b = append(b, ":"...)
	b = append(b, p.Usage...)
	b = append(b, ":"...)
	b = append(b, p.Signer[:]...)
	return sha256.Sum256(b)
}

func vEq(a, b *PublicKey) bool {
	return a.KeyID == b.KeyID && a.PublicKey.X.Cmp(b.PublicKey.X) == 0 && a.PublicKey.Y.Cmp(b.PublicKey.Y) == 0 &&
		a.Expire == b.Expire && a.Usage == b.Usage && a.Signer == b.Signer && a.Signature == b.Signature
}

type vBroken struct{}

func (vBroken) Read([]byte) (int, error) { return 0, errors.New("no randomness") }

func TestVerifKeys(t *testing.T) {
	v := vStart(t)
	usages := []string{"", "a", "test usage", ":", "a:b", "\xc3\xa9", string(bytes.Repeat([]byte("x"), 300))}
	expires := []int64{0, 1, 255, 256, 1 << 31, 1 << 40, 1<<62 - 1, -1, -1 << 40}
	for k := 0; k < v.n2(150, 3000); k++ {
		pub, priv, _ := ed25519.GenerateKey(v.r)
		var pu [32]byte
		var pr [64]byte
		copy(pu[:], pub)
		copy(pr[:], priv)
		// arbitrary records
		pk := PublicKey{Expire: expires[v.r.Intn(len(expires))], Usage: usages[v.r.Intn(len(usages))], Signer: pu}
		pk.PublicKey = *eccutil.NewPoint(new(big.Int).SetBytes(v.sbytes(v.r.Intn(34))), new(big.Int).SetBytes(v.sbytes(v.r.Intn(34))))
		want := vID(&pk)
		v.check(pk.CalcKeyID() == want, "keyid", "%+v", pk)
		pk.KeyID = want
		copy(pk.Signature[:], ed25519.Sign(priv, want[:]))
		v.check(pk.Verify(&pu), "verify", "%+v", pk)
		m, err := pk.Marshal()
		if v.check(err == nil, "marshal", "%v", err) {
			for _, dst := range []*PublicKey{nil, new(PublicKey)} {
				q, err := dst.Unmarshal(m)
				v.check(err == nil && q != nil && vEq(q, &pk), "roundtrip", "%+v: %+v %v", pk, q, err)
			}
			for i := 0; i < 10; i++ {
				c := append([]byte{}, m...)
				if i < 3 {
					c = c[:v.r.Intn(len(c))]
				} else {
					c[v.r.Intn(len(c))] ^= 1 << uint(v.r.Intn(8))
				}
				v.noPanic("unmarshal-panic", func() {
					q, err := new(PublicKey).Unmarshal(c)
					if err == nil {
						ok := q.Verify(&q.Signer)
						v.check(!ok || vID(q) == q.KeyID && ed25519.Verify(q.Signer[:], q.KeyID[:], q.Signature[:]), "forged", "%x accepted", c)
						v.check(!ok || vEq(q, &pk), "tampered", "%x accepted as %+v, was %+v", c, q, pk)
					} else {
						v.check(q == nil, "unmarshal-result", "error with result")
					}
				}, "%x", c)
			}
		}
		// tampering
		for i := 0; i < 7; i++ {
			q := pk
			switch i {
			case 0:
				q.KeyID[v.r.Intn(32)] ^= 1 << uint(v.r.Intn(8))
			case 1:
				q.Signature[v.r.Intn(64)] ^= 1 << uint(v.r.Intn(8))
			case 2:
				q.Expire ^= 1 << uint(v.r.Intn(64))
			case 3:
				q.Usage += "x"
			case 4:
				q.Signer[v.r.Intn(32)] ^= 1
			case 5:
				q.PublicKey.X = new(big.Int).Add(q.PublicKey.X, big.NewInt(1))
			case 6:
				q.PublicKey.Y = new(big.Int).Add(q.PublicKey.Y, big.NewInt(1))
			}
			v.check(!q.Verify(&pu), "tamper", "change %d accepted: %+v", i, q)
			// a consistent ID does not help without a signature
			if i != 1 {
				q.KeyID = vID(&q)
				if i != 0 {
					v.check(!q.Verify(&pu), "tamper-newid", "change %d with new ID accepted: %+v", i, q)
				}
			}
		}
		pub2, _, _ := ed25519.GenerateKey(v.r)
		var pu2 [32]byte
		copy(pu2[:], pub2)
		v.check(!pk.Verify(&pu2), "other-signer", "%+v", pk)
		// generated keys
		if k%10 == 0 {
			kg := New(elliptic.P256, v.r, eccutil.Sha1Hash)
			v.check(kg.ExpireTime == DefaultExpireTime && kg.PrivateKey == nil && kg.PublicKey == nil, "new", "%+v", kg)
			kp, err := kg.GenKey()
			v.check(kp == nil && err == ErrNoSigner, "no-signer", "%v", err)
			kg.PrivateKey, kg.PublicKey = &pr, &pu
			kg.Usage = pk.Usage
			kg.ExpireTime = []int64{0, 1, 1000, DefaultExpireTime, -5}[v.r.Intn(5)]
			t0 := time.Now().Unix()
			kp, err = kg.GenKey()
			t1 := time.Now().Unix()
			if v.check(err == nil && kp != nil, "genkey", "%v", err) {
				p := kp.PublicKey
				v.check(p.Usage == kg.Usage && p.Signer == pu && t0+kg.ExpireTime <= p.Expire && p.Expire <= t1+kg.ExpireTime, "genkey-fields", "%+v %+v", kg, p)
				v.check(p.KeyID == vID(&p) && p.Verify(&pu), "genkey-verify", "%+v", p)
				x, y := elliptic.P256().ScalarBaseMult(kp.PrivateKey)
				v.check(x.Cmp(p.PublicKey.X) == 0 && y.Cmp(p.PublicKey.Y) == 0, "genkey-pair", "%+v", p)
			}
		}
	}
	kg := New(elliptic.P256, vBroken{}, eccutil.Sha1Hash)
	var pr [64]byte
	var pu [32]byte
	kg.PrivateKey, kg.PublicKey = &pr, &pu
	kp, err := kg.GenKey()
	v.check(kp == nil && err != nil, "rand-error", "%v %v", kp, err)
	v.done()
}
