package hashchain

import (
	"bytes"
	"encoding/base64"
	"testing"
)

func TestVerifSplitEntry(t *testing.T) {
	v := vStart(t)
	for n := 0; n < 330; n++ {
		for k := 0; k < 8; k++ {
			b := v.bytes(n)
			if n > 32 && k < 5 {
				b[32] = 1
			}
			for _, s := range []string{base64.StdEncoding.EncodeToString(b), base64.RawStdEncoding.EncodeToString(b), base64.URLEncoding.EncodeToString(b), string(b)} {
				d, derr := base64.StdEncoding.DecodeString(s)
				want := derr == nil && len(d) == 153 && d[32] == 1
				var h, ty, no, hi, cr, ui []byte
				var err error
				v.noPanic("panic", func() { h, ty, no, hi, cr, ui, err = SplitEntry(s) }, "%q", s)
				if !v.check((err == nil) == want, "accept", "entry of %d bytes, type %v: %v", n, len(d) > 32, err) || err != nil {
					continue
				}
				v.check(bytes.Equal(h, d[:32]) && bytes.Equal(ty, d[32:33]) && bytes.Equal(no, d[33:41]) && bytes.Equal(hi, d[41:73]) && bytes.Equal(cr, d[73:121]) && bytes.Equal(ui, d[121:153]), "fields", "fields of %s", s)
			}
		}
	}
	for typ := 0; typ < 256; typ++ {
		b := v.bytes(153)
		b[32] = byte(typ)
		_, _, _, _, _, _, err := SplitEntry(base64.StdEncoding.EncodeToString(b))
		v.check((err == nil) == (typ == 1), "type", "entry type %d: %v", typ, err)
	}
	v.done()
}
