package walletauth

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"testing"
	"time"
)

func TestVerifAuthToken(t *testing.T) {
	v := vStart(t)
	seen := map[string]bool{}
	_ = io.EOF
	for k := 0; k < v.n2(300, 4000); k++ {
		pub, priv, _ := ed25519.GenerateKey(v.r)
		var pu [32]byte
		var pr [64]byte
		copy(pu[:], pub)
		copy(pr[:], priv)
		ctr := v.u64()
		before := time.Now().UTC().Unix() / 3600
		tok := CreateToken(&pu, &pr, ctr)
		after := time.Now().UTC().Unix() / 3600
		if !v.check(len(tok) == 144, "length", "%d", len(tok)) {
			continue
		}
		v.check(bytes.Equal(tok[:32], pub), "pubkey", "%x", tok[:32])
		v.check(!seen[string(tok[32:64])], "nonce-repeated", "%x", tok[32:64])
		seen[string(tok[32:64])] = true
		tm := int64(binary.BigEndian.Uint64(tok[64:72]))
		v.check(before <= tm && tm <= after, "time", "%d not in [%d,%d]", tm, before, after)
		v.check(binary.BigEndian.Uint64(tok[72:80]) == ctr, "counter", "%x want %d", tok[72:80], ctr)
		v.check(ed25519.Verify(pub, tok[:80], tok[80:]), "signature", "%x", tok)
		pk, lt, lc, err := AuthToken(tok).CheckToken()
		v.check(err == nil && pk != nil && *pk == pu && int64(lt) == tm && uint64(lc) == ctr, "check", "own token: %v", err)
		v.check(bytes.Equal(AuthToken(tok).Hash(), vsum(tok)), "hash", "%x", tok)
		for i := 0; i < 20; i++ {
			c := append([]byte{}, tok...)
			pos := v.r.Intn(len(c))
			c[pos] ^= 1 << uint(v.r.Intn(8))
			v.noPanic("check-panic", func() {
				pk, lt, lc, err := AuthToken(c).CheckToken()
				v.check(err != nil && pk == nil && lt == 0 && lc == 0, "tamper", "byte %d changed, accepted", pos)
			}, "tampered token")
		}
		for _, n := range []int{0, 1, 31, 79, 80, 143, 145, 200} {
			c := append(append([]byte{}, tok...), v.bytes(100)...)[:n]
			v.noPanic("check-panic", func() {
				_, _, _, err := AuthToken(c).CheckToken()
				v.check(err != nil, "check-length", "length %d accepted", n)
			}, "token of %d bytes", n)
		}
		// genuinely signed, arbitrary content
		body := append(append([]byte{}, pub...), v.sbytes(48)...)
		full := append(append([]byte{}, body...), ed25519.Sign(priv, body)...)
		pk, lt, lc, err = AuthToken(full).CheckToken()
		v.check(err == nil && *pk == pu && uint64(lt) == binary.BigEndian.Uint64(body[64:72]) && uint64(lc) == binary.BigEndian.Uint64(body[72:80]), "check-fields", "%x: %d %d %v", body, lt, lc, err)
	}
	v.done()
}

func TestVerifReplay(t *testing.T) {
	v := vStart(t)
	pre := "ErrReplay: "
	one := func(s string) {
		e0 := errors.New(s)
		v.noPanic("replay-panic", func() {
			n, e := IsReplay(e0)
			want, ok := uint64(0), false
			if strings.HasPrefix(s, pre) {
				if x, err := strconv.ParseUint(s[len(pre):], 10, 64); err == nil {
					want, ok = x, true
				}
			}
			if ok {
				v.check(e == ErrReplay && n == want, "replay", "%q: %d %v", s, n, e)
			} else {
				v.check(e == e0 && n == 0, "no-replay", "%q: %d %v", s, n, e)
			}
		}, "%q", s)
	}
	for i := 0; i <= len(pre); i++ {
		one(pre[:i])
	}
	for _, s := range []string{"", "x", "ErrReplay:1", "ErrReplay: x", "ErrReplay: -1", "ErrReplay: 18446744073709551615", "ErrReplay: 18446744073709551616", "ErrReplay: 9223372036854775808", "ErrReplay: 0x10", " ErrReplay: 1", "ErrReplay: 1 ", "errreplay: 1"} {
		one(s)
	}
	for k := 0; k < v.n2(500, 5000); k++ {
		one(fmt.Sprintf("ErrReplay: %d", v.u64()))
		one(string(v.sbytes(v.r.Intn(30))))
	}
	v.done()
}

func vsum(b []byte) []byte {
	h := sha256.Sum256(b)
	return h[:]
}
