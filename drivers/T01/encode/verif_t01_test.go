package encode

import (
	"bytes"
	"encoding/binary"
	"testing"
)

func TestVerifEncode(t *testing.T) {
	v := vStart(t)
	for u := 0; u < 65536; u++ {
		w := make([]byte, 2)
		binary.LittleEndian.PutUint16(w, uint16(u))
		b := ToByte2(uint16(u))
		v.check(bytes.Equal(b, w) && ToUint16(b) == uint16(u), "u16", "%d", u)
		if u < 256 {
			v.check(bytes.Equal(ToByte1(uint8(u)), []byte{byte(u)}), "u8", "%d", u)
		}
	}
	one := func(u uint64) {
		w := make([]byte, 8)
		binary.LittleEndian.PutUint64(w, u)
		b := ToByte8(u)
		v.check(bytes.Equal(b, w) && ToUint64(b) == u, "u64", "%d", u)
	}
	for i := 0; i < 64; i++ {
		for d := uint64(0); d < 8; d++ {
			one(1<<uint(i) - d)
			one(1<<uint(i) + d)
			one(^uint64(0)<<uint(i) - d)
		}
	}
	for i := 0; i < v.n2(20000, 500000); i++ {
		one(v.r.Uint64() >> uint(v.r.Intn(64)))
	}
	// results do not share memory
	a, b := ToByte8(1), ToByte8(1)
	a[0] = 9
	v.check(b[0] == 1, "shared", "results share memory")
	v.done()
}
