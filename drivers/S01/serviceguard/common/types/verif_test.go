package types

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/binary"
	"testing"
)

func vimg(call int32, parts ...[]byte) []byte {
	var b [8]byte
	binary.BigEndian.PutUint32(b[:], uint32(call))
	var out []byte
	for i, p := range parts {
		if i == 0 {
			p = append(append([]byte{}, b[:]...), p...)
		}
		h := sha256.Sum256(p)
		out = append(out, h[:]...)
	}
	return out
}

func TestVerifPackets(t *testing.T) {
	v := vStart(t)
	mk := func() (*[32]byte, *[64]byte) {
		pub, priv, _ := ed25519.GenerateKey(v.r)
		var a [32]byte
		var b [64]byte
		copy(a[:], pub)
		copy(b[:], priv)
		return &a, &b
	}
	size := func() int { return []int{0, 1, 2, 7, 8, 31, 32, 33, 64, 200}[v.r.Intn(10)] }
	for k := 0; k < v.n2(300, 4000); k++ {
		pub, priv := mk()
		pub2, _ := mk()
		call := int32([]uint32{0, 1, 2, 256, 0x7fffffff, 0x80000000, 0xffffffff}[v.r.Intn(7)])
		p := ReissuePacket{CallType: call, Token: v.sbytes(size()), BlindToken: v.sbytes(size()), Params: v.sbytes(size())}
		want := vimg(call, p.Token, p.BlindToken, p.Params)
		v.check(bytes.Equal(p.Image(), want), "reissue-image", "%+v: image %x want %x", p, p.Image(), want)
		wh := sha256.Sum256(want)
		v.check(p.Hash() == wh, "reissue-hash", "%+v", p)
		p.Signature = v.sbytes(size())
		v.check(bytes.Equal(p.Image(), want), "image-covers-signature", "%+v", p)
		p.Sign(priv)
		v.check(ed25519.Verify(pub[:], want, p.Signature), "reissue-sign", "%+v", p)
		v.check(p.Verify(pub) == nil, "reissue-verify", "own signature refused: %+v", p)
		v.check(p.Verify(pub2) != nil, "reissue-other-key", "%+v", p)
		v.check(p.Verify(nil) == ErrSignerNeeded, "reissue-nil-key", "signed packet, no key: %v", p.Verify(nil))
		for i, f := range []*[]byte{&p.Token, &p.BlindToken, &p.Params, &p.Signature} {
			o := *f
			if len(o) == 0 {
				*f = []byte{0}
			} else {
				c := append([]byte{}, o...)
				c[v.r.Intn(len(c))] ^= 1 << uint(v.r.Intn(8))
				*f = c
			}
			v.check(p.Verify(pub) != nil, "reissue-tamper", "field %d changed, still verifies: %+v", i, p)
			*f = o
		}
		q := p
		q.CallType = p.CallType ^ (1 << uint(v.r.Intn(32)))
		v.check(q.Verify(pub) != nil, "reissue-tamper-call", "%d/%d", p.CallType, q.CallType)
		p.Sign(nil)
		v.check(len(p.Signature) == 1 && p.Signature[0] == 0, "reissue-unsigned", "%x", p.Signature)
		v.check(p.Verify(nil) == nil, "reissue-verify-unsigned", "%v", p.Verify(nil))
		v.check(p.Verify(pub) != nil, "reissue-unsigned-owned", "unsigned packet accepted for an owned token")
		for _, n := range []int{0, 1, 2, 63, 64, 65} {
			p.Signature = v.sbytes(n)
			v.noPanic("reissue-verify-panic", func() {
				v.check((p.Verify(nil) == nil) == (n == 1), "reissue-nil-len", "len %d", n)
				v.check(p.Verify(pub) != nil, "reissue-garbage", "garbage signature accepted, len %d", n)
			}, "signature length %d", n)
		}

		s := &SpendPacket{CallType: call, Token: v.sbytes(size())}
		want = vimg(call, s.Token)
		v.check(bytes.Equal(s.Image(), want), "spend-image", "%+v", s)
		s.Sign(priv)
		v.check(ed25519.Verify(pub[:], want, s.Signature), "spend-sign", "%+v", s)
		v.check(s.Verify(pub) == nil && s.Verify(pub2) != nil && s.Verify(nil) == ErrSignerNeeded, "spend-verify", "%+v", s)
		s2 := *s
		s2.Token = append(append([]byte{}, s.Token...), byte(v.r.Intn(256)))
		v.check(s2.Verify(pub) != nil, "spend-tamper", "%+v", s2)
		s2 = *s
		s2.CallType ^= 1 << uint(v.r.Intn(32))
		v.check(s2.Verify(pub) != nil, "spend-tamper-call", "%+v", s2)
		if len(s.Token) > 0 {
			s2 = *s
			s2.Token = append([]byte{}, s.Token...)
			s2.Token[v.r.Intn(len(s.Token))] ^= 1 << uint(v.r.Intn(8))
			v.check(s2.Verify(pub) != nil, "spend-tamper-bit", "%+v", s2)
		}
		s.Sign(nil)
		v.check(len(s.Signature) == 1 && s.Signature[0] == 0 && s.Verify(nil) == nil && s.Verify(pub) != nil, "spend-unsigned", "%+v", s)
		for _, n := range []int{0, 2, 63, 64, 65} {
			s.Signature = v.sbytes(n)
			v.noPanic("spend-verify-panic", func() {
				v.check(s.Verify(nil) != nil && s.Verify(pub) != nil, "spend-garbage", "len %d", n)
			}, "signature length %d", n)
		}
	}
	v.done()
}
