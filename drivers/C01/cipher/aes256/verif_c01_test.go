package aes256

import (
	"bytes"
	"crypto/aes"
	"encoding/binary"
	"testing"
)

// CTR and CBC built from single block operations
func refCTR(key, iv, in []byte) []byte {
	blk, _ := aes.NewCipher(key)
	ctr := append([]byte(nil), iv...)
	out := make([]byte, len(in))
	ks := make([]byte, 16)
	for i := range in {
		if i%16 == 0 {
			blk.Encrypt(ks, ctr)
			lo := binary.BigEndian.Uint64(ctr[8:]) + 1
			binary.BigEndian.PutUint64(ctr[8:], lo)
			if lo == 0 {
				binary.BigEndian.PutUint64(ctr, binary.BigEndian.Uint64(ctr)+1)
			}
		}
		out[i] = in[i] ^ ks[i%16]
	}
	return out
}

func refCBC(key, iv, in []byte) []byte {
	blk, _ := aes.NewCipher(key)
	prev := append([]byte(nil), iv...)
	var out []byte
	for i := 0; i < len(in); i += 16 {
		x := make([]byte, 16)
		for j := range x {
			x[j] = in[i+j] ^ prev[j]
		}
		blk.Encrypt(prev, x)
		out = append(out, prev...)
	}
	return out
}

func TestVerifModes(t *testing.T) {
	v := vStart(t)
	for n := 0; n < v.n2(200, 1000); n++ {
		key, pt, rnd := v.sbytes(32), v.sbytes(n), v.bytes(40)
		if n%5 == 4 { // counter carry
			for i := 0; i < 16; i++ {
				rnd[i] = 0xff
			}
		}
		for _, max := range []int{0, 1, 5, 15} {
			rd := &vReader{b: rnd, max: max}
			in := append([]byte(nil), pt...)
			ct := CTREncrypt(key, in, rd)
			v.check(bytes.Equal(in, pt), "ctr-frame", "CTREncrypt changed its input")
			v.check(len(ct) == 16+n && bytes.Equal(ct[:16], rnd[:16]) && rd.pos == 16, "ctr-iv", "IV of a CTR encryption is not 16 fresh random bytes (reads of %d)", max)
			v.check(bytes.Equal(ct[16:], refCTR(key, rnd[:16], pt)), "ctr-enc", "key %x iv %x plaintext %x", key, rnd[:16], pt)
			c0 := append([]byte(nil), ct...)
			v.check(bytes.Equal(CTRDecrypt(key, ct), pt), "ctr-roundtrip", "key %x ciphertext %x", key, ct)
			v.check(bytes.Equal(ct, c0), "ctr-frame", "CTRDecrypt changed its input")
			if n%16 == 0 {
				rd = &vReader{b: rnd, max: max}
				cb := CBCEncrypt(key, in, rd)
				v.check(len(cb) == 16+n && bytes.Equal(cb[:16], rnd[:16]) && rd.pos == 16, "cbc-iv", "IV of a CBC encryption is not 16 fresh random bytes")
				v.check(bytes.Equal(cb[16:], refCBC(key, rnd[:16], pt)), "cbc-enc", "key %x iv %x plaintext %x", key, rnd[:16], pt)
				c0 := append([]byte(nil), cb...)
				v.check(bytes.Equal(CBCDecrypt(key, cb), pt), "cbc-roundtrip", "key %x ciphertext %x", key, cb)
				v.check(bytes.Equal(cb, c0), "cbc-frame", "CBCDecrypt changed its input")
				v.check(bytes.Equal(in, pt), "cbc-frame", "CBCEncrypt changed its input")
			} else {
				p, _ := v.panics(func() { CBCEncrypt(key, in, &vReader{b: rnd}) })
				v.check(p, "cbc-partial", "CBC encryption of %d bytes", n)
				p, _ = v.panics(func() { CBCDecrypt(key, append(rnd[:16:16], in...)) })
				v.check(p, "cbc-partial", "CBC decryption of %d bytes", n)
			}
		}
	}
	for _, n := range []int{1024, 4080, 4096, 4112, 5000, 8192, 16384, 49152, 65536, 100000} {
		key, pt, rnd := v.sbytes(32), v.sbytes(n), v.bytes(40)
		in := append([]byte(nil), pt...)
		ct := CTREncrypt(key, in, &vReader{b: rnd})
		v.check(bytes.Equal(ct, append(append([]byte(nil), rnd[:16]...), refCTR(key, rnd[:16], pt)...)) && bytes.Equal(in, pt), "ctr-enc", "%d bytes", n)
		c0 := append([]byte(nil), ct...)
		v.check(bytes.Equal(CTRDecrypt(key, ct), pt) && bytes.Equal(ct, c0), "ctr-roundtrip", "%d bytes", n)
		if n%16 == 0 {
			cb := CBCEncrypt(key, in, &vReader{b: rnd})
			v.check(bytes.Equal(cb, append(append([]byte(nil), rnd[:16]...), refCBC(key, rnd[:16], pt)...)) && bytes.Equal(in, pt), "cbc-enc", "%d bytes", n)
			c0 := append([]byte(nil), cb...)
			v.check(bytes.Equal(CBCDecrypt(key, cb), pt), "cbc-roundtrip", "%d bytes", n)
			v.check(bytes.Equal(cb, c0), "cbc-frame", "CBCDecrypt changed a ciphertext of %d bytes", n)
			v.check(bytes.Equal(CBCDecrypt(key, cb), pt), "cbc-again", "%d bytes", n)
		}
	}
	for kl := 0; kl < 70; kl++ {
		key := v.bytes(kl)
		for i, f := range []func(){
			func() { CTREncrypt(key, make([]byte, 16), &vReader{b: make([]byte, 64)}) },
			func() { CTRDecrypt(key, make([]byte, 32)) },
			func() { CBCEncrypt(key, make([]byte, 16), &vReader{b: make([]byte, 64)}) },
			func() { CBCDecrypt(key, make([]byte, 32)) },
		} {
			p, _ := v.panics(f)
			v.check(p == (kl != 32), "key-size", "function %d with a key of %d bytes: panic %v", i, kl, p)
		}
	}
	key := v.bytes(32)
	for n := 0; n < 16; n++ {
		p, _ := v.panics(func() { CTRDecrypt(key, make([]byte, n)) })
		q, _ := v.panics(func() { CBCDecrypt(key, make([]byte, n)) })
		v.check(p && q, "short", "decryption of %d bytes", n)
		p, _ = v.panics(func() { CTREncrypt(key, make([]byte, 16), &vReader{b: make([]byte, n)}) })
		q, _ = v.panics(func() { CBCEncrypt(key, make([]byte, 16), &vReader{b: make([]byte, n)}) })
		v.check(p && q, "iv-short", "encryption with %d random bytes", n)
	}
	v.done()
}
