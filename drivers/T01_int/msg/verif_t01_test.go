package msg

import (
	"bytes"
	"encoding/binary"
	"testing"
)

func TestVerifHeaders(t *testing.T) {
	v := vStart(t)
	types := map[uint8]bool{1: true, 2: true, 4: true, 8: true, 16: true}
	itypes := map[uint8]bool{1: true, 2: true, 6: true, 8: true}
	for typ := 0; typ < 256; typ++ {
		for _, n := range []int{0, 1, 2, 16, 255, 256, 257, 5000, 65535} {
			in := v.bytes(n)
			for _, cnt := range []uint32{0, 1, 5, 255, 256, 65536, 1<<32 - 1} {
				if n > 300 && cnt > 1 && cnt < 1<<31 {
					continue
				}
				var b bytes.Buffer
				oh := newOuterHeader(uint8(typ), cnt, in)
				v.check(oh.write(&b, true) == nil, "outer-write", "write failed")
				w := make([]byte, 7)
				w[0] = byte(typ)
				binary.BigEndian.PutUint16(w[1:], uint16(n))
				binary.BigEndian.PutUint32(w[3:], cnt)
				v.check(bytes.Equal(b.Bytes(), append(w, in...)), "outer-format", "type %d count %d, %d bytes", typ, cnt, n)
				raw := append([]byte(nil), b.Bytes()...)
				r, err := readOuterHeader(bytes.NewReader(raw))
				v.check((err == nil) == types[uint8(typ)], "outer-type", "type %d: %v", typ, err)
				if err == nil {
					v.check(r.Type == uint8(typ) && r.PLen == uint16(n) && r.PacketCount == cnt && bytes.Equal(r.inner, in), "outer-roundtrip", "type %d count %d, %d bytes", typ, cnt, n)
					if n < 300 {
						for k := 0; k < len(raw); k++ {
							_, err := readOuterHeader(bytes.NewReader(raw[:k]))
							v.check(err != nil, "outer-short", "header cut to %d of %d bytes accepted", k, len(raw))
						}
					}
				}
				b.Reset()
				oh.write(&b, false)
				v.check(bytes.Equal(b.Bytes(), raw[:7]), "outer-format", "header without content")
			}
			var b bytes.Buffer
			for _, more := range []bool{false, true} {
				b.Reset()
				ih := newInnerHeader(uint8(typ), more, in)
				v.check(ih.write(&b) == nil && ih.size() == 5+n, "inner-write", "write failed")
				w := []byte{byte(typ), 0, 0, 0, 0}
				binary.BigEndian.PutUint16(w[1:], uint16(n))
				if more {
					w[3] = 1
				}
				v.check(bytes.Equal(b.Bytes(), append(w, in...)), "inner-format", "type %d more %v, %d bytes", typ, more, n)
				raw := append([]byte(nil), b.Bytes()...)
				r, err := readInnerHeader(bytes.NewReader(raw))
				v.check((err == nil) == itypes[uint8(typ)], "inner-type", "type %d: %v", typ, err)
				if err == nil {
					v.check(r.Type == uint8(typ) && r.PLen == uint16(n) && r.More == w[3] && r.Skip == 0 && bytes.Equal(r.content, in), "inner-roundtrip", "type %d, %d bytes", typ, n)
					if n < 300 {
						for k := 0; k < len(raw); k++ {
							_, err := readInnerHeader(bytes.NewReader(raw[:k]))
							v.check(err != nil, "inner-short", "header cut to %d of %d bytes accepted", k, len(raw))
						}
					}
				}
			}
		}
	}
	for _, n := range []int{0, 1, 31, 32, 33, 300} {
		pub := v.bytes(n)
		var b bytes.Buffer
		v.check(newPreHeader(pub).write(&b) == nil, "pre-write", "write failed")
		w := append([]byte{0, 1, 0, 28}, []byte("CURVE25519 XSALSA20 POLY1305")...)
		w = append(w, byte(n>>8), byte(n))
		w = append(w, pub...)
		v.check(bytes.Equal(b.Bytes(), w), "pre-format", "%d bytes", n)
		r, err := readPreHeader(bytes.NewReader(w))
		v.check(err == nil && r.Version == 1 && r.Ciphersuite == DefaultCiphersuite && bytes.Equal(r.SenderHeaderPub, pub) && int(r.LengthSenderHeaderPub) == n, "pre-roundtrip", "%d bytes: %v", n, err)
		for k := 0; k < len(w); k++ {
			_, err := readPreHeader(bytes.NewReader(w[:k]))
			v.check(err != nil, "pre-short", "pre-header cut to %d bytes accepted", k)
		}
		// other suites, with their own length
		for l := 0; l < 60; l++ {
			s := append([]byte(DefaultCiphersuite), v.bytes(40)...)[:l]
			if l == len(DefaultCiphersuite) {
				s[l-1]++
			}
			x := append([]byte{0, 1, byte(l >> 8), byte(l)}, s...)
			x = append(append(x, byte(n>>8), byte(n)), pub...)
			_, err := readPreHeader(bytes.NewReader(x))
			v.check(err != nil, "pre-suite", "pre-header with suite %q accepted", s)
		}
		for k := 0; k < 32; k++ {
			x := append([]byte(nil), w...)
			x[k] ^= 1 << uint(k%8)
			_, err := readPreHeader(bytes.NewReader(x))
			v.check(err != nil, "pre-other", "pre-header with byte %d changed accepted", k)
		}
	}
	v.done()
}
