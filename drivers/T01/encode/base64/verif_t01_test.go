package base64

import (
	"bytes"
	std "encoding/base64"
	"io"
	"testing"
)

func TestVerifBase64(t *testing.T) {
	v := vStart(t)
	for n := 0; n < v.n2(800, 5000); n++ {
		b := v.bytes(n)
		s := Encode(b)
		v.check(s == std.StdEncoding.EncodeToString(b), "encode", "%x", b)
		d, err := Decode(s)
		v.check(err == nil && bytes.Equal(d, b), "roundtrip", "%x", b)
		if n < 120 {
			for i := 0; i < len(s); i++ {
				for _, c := range []byte{'!', '-', '_', '=', ' ', 0x80} {
					x := []byte(s)
					x[i] = c
					d, err := Decode(string(x))
					w, e2 := std.StdEncoding.DecodeString(string(x))
					v.check((err == nil) == (e2 == nil) && (err != nil || bytes.Equal(d, w)), "decode", "%q", x)
				}
			}
		}
		var buf bytes.Buffer
		w := NewEncoder(&buf)
		for i := 0; i < n; {
			k := 1 + v.r.Intn(17)
			if i+k > n {
				k = n - i
			}
			w.Write(b[i : i+k])
			i += k
		}
		w.Close()
		v.check(buf.String() == s, "stream-encode", "%x", b)
		r, err := io.ReadAll(NewDecoder(bytes.NewReader([]byte(s))))
		v.check(err == nil && bytes.Equal(r, b), "stream-decode", "%x", b)
	}
	v.done()
}
