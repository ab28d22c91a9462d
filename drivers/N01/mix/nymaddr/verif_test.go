package nymaddr

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/asn1"
	"fmt"
	"testing"

	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/util/times"
	"github.com/ronperry/cryptoedge/lioness"
	"golang.org/x/crypto/curve25519"
)

func vMac(key []byte, d ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, e := range d {
		h.Write(e)
	}
	return h.Sum(nil)
}

func vPub(priv []byte) []byte {
	var p, s [32]byte
	copy(s[:], priv)
	curve25519.ScalarBaseMult(&p, &s)
	return p[:]
}

func vDH(priv, pub []byte) []byte {
	var r, p, s [32]byte
	copy(s[:], priv)
	copy(p[:], pub)
	curve25519.ScalarMult(&r, &s, &p)
	return r[:]
}

func vCtr(key, d []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	r := make([]byte, len(d))
	cipher.NewCTR(b, make([]byte, 16)).XORKeyStream(r, d)
	return r
}

// vOpen: what the owner of the secret finds in a header
func vOpen(secret, header, mailbox []byte) (nym, key []byte, ok bool) {
	var h RelayHeader
	if _, err := asn1.Unmarshal(header, &h); err != nil {
		return nil, nil, false
	}
	sym := vMac(secret, h.Nonce, h.ReceiverPubKey, mailbox)
	if !bytes.Equal(h.HMACHead, vMac(sym, h.Nonce, h.ReceiverPubKey, h.EncNym)) {
		return nil, nil, false
	}
	d := vCtr(sym, h.EncNym)
	if len(d) < 1 || int(d[0])+1 > len(d) {
		return nil, nil, false
	}
	nym = d[1 : int(d[0])+1]
	priv := vMac(secret, h.Nonce, nym)
	if !bytes.Equal(h.ReceiverPubKey, vPub(priv)) {
		return nil, nil, false
	}
	return nym, vDH(priv, h.SenderKey), true
}

func vCopy(b []byte) []byte { return append([]byte{}, b...) }

// TestVerifNym: an address made by its owner, opened by the mix, and its header by the owner again.
func TestVerifNym(t *testing.T) {
	v := vStart(t)
	oldRand := Rand
	defer func() { Rand = oldRand }()
	now := times.Now()
	for i := 0; i < v.n2(1500, 20000); i++ {
		keys := map[[32]byte]*[32]byte{}
		lookup := func(k *[32]byte) *[32]byte { return keys[*k] }
		exp := now + 1000 + int64(v.r.Intn(100000))
		var cand mixaddr.AddressList
		good := 0
		for n := v.r.Intn(5); n > 0; n-- {
			var s, p [32]byte
			copy(s[:], v.bytes(32))
			copy(p[:], vPub(s[:]))
			keys[p] = &s
			a := mixaddr.Address{Pubkey: p[:], TokenKey: v.bytes(32), Address: fmt.Sprintf("mix%d:%d", v.r.Intn(100), n), Expire: exp + int64(v.r.Intn(7)) - 3}
			if v.r.Intn(4) == 0 {
				a.Expire = now + int64(v.r.Intn(100)) // not expired, but before the address
			}
			if a.Expire > exp {
				good++
			}
			cand = append(cand, a)
		}
		was := fmt.Sprint(cand)
		tmp := AddressTemplate{Secret: v.sbytes(v.r.Intn(70)), System: int32(v.u64()), MixCandidates: cand, Expire: exp, SingleUse: v.r.Intn(2) == 0, MinDelay: int32(v.u64()), MaxDelay: int32(v.u64())}
		mailbox := v.sbytes(v.r.Intn(60))
		nym := v.sbytes([]int{0, 1, 31, 32, 32, 32, 33, 64}[v.r.Intn(8)])
		mb, nb := vCopy(mailbox), vCopy(nym)
		full := make([]byte, 32)
		copy(full, nym)

		adr, err := tmp.NewAddress(mailbox, nym)
		v.check(fmt.Sprint(cand) == was && bytes.Equal(mailbox, mb) && bytes.Equal(nym, nb), "new-changed", "making an address changed its inputs")
		if good == 0 {
			v.check(err == ErrNoMix && adr == nil, "no-mix", "an address (expires %d) with a mix of %v: %v", exp, cand, err)
			continue
		}
		if !v.check(err == nil, "new", "%v with %d mixes", err, good) {
			continue
		}
		a, err := ParseAddress(adr)
		if !v.check(err == nil && a != nil, "parse", "%v", err) {
			continue
		}
		mix := -1
		for k, c := range cand {
			if bytes.Equal(c.Pubkey, a.MixPubKey) {
				mix = k
			}
		}
		if !v.check(mix >= 0 && cand[mix].Expire > exp, "mix", "an address that expires at %d goes through mix %d of %v", exp, mix, cand) {
			continue
		}
		v.check(string(a.MixAddress) == cand[mix].Address && bytes.Equal(a.TokenPubKey, cand[mix].TokenKey) && a.Expire == exp && a.SingleUse == tmp.SingleUse && len(a.AddressKey) == 32, "public", "public part %v for mix %v, %d, %v", a, cand[mix], exp, tmp.SingleUse)
		// private part, independently
		var mixPriv [32]byte
		for k, s := range keys {
			if bytes.Equal(k[:], a.MixPubKey) {
				mixPriv = *s
			}
		}
		cr, _ := lioness.New(vDH(mixPriv[:], a.AddressKey))
		var ref AddressPrivate
		if plain, err := cr.Decrypt(a.PrivateData); v.check(err == nil, "private-enc", "%v", err) {
			_, err = asn1.Unmarshal(plain, &ref)
			v.check(err == nil, "private-enc", "%v", err)
		}
		enc := vCopy(a.PrivateData)
		p, err := a.GetMixData(lookup)
		if !v.check(err == nil && p != nil, "mixdata", "%v", err) {
			continue
		}
		v.check(bytes.Equal(enc, a.PrivateData) && fmt.Sprint(*p) == fmt.Sprint(ref), "mixdata-other", "the mix reads %v, encrypted was %v", *p, ref)
		v.check(p.System == tmp.System && bytes.Equal(p.Address, mb) && p.Expire == exp && p.SingleUse == tmp.SingleUse && p.MinDelay == tmp.MinDelay && p.MaxDelay == tmp.MaxDelay && len(p.Nonce) == 32, "private", "private part %v, made from %v %x", *p, tmp, mb)
		sym := vMac(tmp.Secret, p.Nonce, p.ReceiverPubKey, mb)
		v.check(bytes.Equal(p.ReceiverPubKey, vPub(vMac(tmp.Secret, p.Nonce, full))), "receiver", "receiver key %x", p.ReceiverPubKey)
		v.check(len(p.EncNym) == 34 && bytes.Equal(vCtr(sym, p.EncNym)[1:33], full), "encnym", "nym %x encrypted to %x", full, p.EncNym)
		v.check(bytes.Equal(p.HMACHead, vMac(sym, p.Nonce, p.ReceiverPubKey, p.EncNym)), "hmac", "hmac %x", p.HMACHead)
		v.check(bytes.Equal(p.GetUnique(), map[bool][]byte{true: p.ReceiverPubKey}[p.SingleUse]) && (p.GetUnique() == nil) == !p.SingleUse, "unique", "unique part of %v is %x", *p, p.GetUnique())
		// a second address has nothing in common
		if v.r.Intn(4) == 0 {
			if adr2, err := tmp.NewAddress(mailbox, nym); err == nil {
				if b, err := ParseAddress(adr2); err == nil {
					q, err := b.GetMixData(lookup)
					v.check(err == nil && !bytes.Equal(b.AddressKey, a.AddressKey) && !bytes.Equal(q.ReceiverPubKey, p.ReceiverPubKey) && !bytes.Equal(q.Nonce, p.Nonce) && !bytes.Equal(q.EncNym, p.EncNym), "linked", "two addresses share a part: %v %v", *p, *q)
				}
			}
		}
		// other keys
		for k := range keys {
			keys[k] = nil
		}
		_, err = a.GetMixData(lookup)
		v.check(err == ErrNoKey, "no-key", "%v", err)
		// header
		hd, secret, err := p.GetHeader()
		if !v.check(err == nil, "header", "%v", err) {
			continue
		}
		var rh RelayHeader
		if _, err := asn1.Unmarshal(hd, &rh); !v.check(err == nil, "header-enc", "%v", err) {
			continue
		}
		n2, s2, err := tmp.GetPrivate(hd, mailbox)
		v.check(err == nil && bytes.Equal(n2, full) && bytes.Equal(s2, secret), "open", "the owner finds %x (want %x), secret %x (the mix has %x), %v", n2, full, s2, secret, err)
		hd2, secret2, err := p.GetHeader()
		v.check(err == nil && !bytes.Equal(hd, hd2) && !bytes.Equal(secret, secret2), "header-same", "two messages have the same key")
		// changes of the header
		for k := 0; k < 12; k++ {
			m := RelayHeader{vCopy(rh.SenderKey), vCopy(rh.Nonce), vCopy(rh.ReceiverPubKey), vCopy(rh.EncNym), vCopy(rh.HMACHead)}
			sec, mbx := tmp.Secret, mb
			f := [][]byte{m.SenderKey, m.Nonce, m.ReceiverPubKey, m.EncNym, m.HMACHead}
			switch k {
			case 0, 1, 2, 3, 4:
				f[k][v.r.Intn(len(f[k]))] ^= 1 << uint(v.r.Intn(8))
			case 5: // cut elsewhere
				j := 1 + v.r.Intn(32)
				m.Nonce, m.ReceiverPubKey = append(m.Nonce, m.ReceiverPubKey[:j]...), m.ReceiverPubKey[j:]
			case 6:
				j := v.r.Intn(32)
				m.ReceiverPubKey = append(vCopy(m.Nonce[j:]), m.ReceiverPubKey...)
				m.Nonce = m.Nonce[:j]
			case 7:
				j := 1 + v.r.Intn(34)
				m.ReceiverPubKey, m.EncNym = append(m.ReceiverPubKey, m.EncNym[:j]...), m.EncNym[j:]
			case 8:
				m.HMACHead = m.HMACHead[:v.r.Intn(32)]
			case 9:
				sec = append(vCopy(sec), 1)
			case 10:
				mbx = append(vCopy(mb), 'x')
			case 11:
				m.HMACHead, m.EncNym = nil, nil
			}
			h, _ := asn1.Marshal(m)
			wn, ws, wok := vOpen(sec, h, mbx)
			o := tmp
			o.Secret = sec
			v.noPanic("open-panic", func() {
				n, s, err := o.GetPrivate(h, mbx)
				v.check((err == nil) == wok && bytes.Equal(n, wn) && (wok && bytes.Equal(s, ws) || !wok && s == nil && n == nil), "open-changed", "changed header (%d): %x %x %v, want %x %x %v", k, n, s, err, wn, ws, wok)
			}, "header %x", h)
		}
		// short randomness, or none
		Rand = bytes.NewReader(v.bytes(v.r.Intn(64)))
		_, err = tmp.NewAddress(mailbox, nym)
		v.check(err != nil, "rand-new", "an address without randomness")
		Rand = bytes.NewReader(v.bytes(v.r.Intn(32)))
		_, _, err = p.GetHeader()
		v.check(err != nil, "rand-header", "a header without randomness")
		Rand = oldRand
	}
	v.done()
}

// TestVerifNymParse: what is parsed, and what is rejected.
func TestVerifNymParse(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(3000, 100000); i++ {
		now := times.Now()
		a := Address{v.sbytes(v.r.Intn(30)), now + []int64{-100000, -10, -1, 5, 1000, -now, -2 * now, 1 << 40}[v.r.Intn(8)], v.r.Intn(2) == 0, v.bytes(v.r.Intn(40)), v.sbytes(v.r.Intn(40)), v.sbytes(v.r.Intn(40)), v.bytes(v.r.Intn(200))}
		d, err := asn1.Marshal(a)
		if err != nil {
			t.Fatal(err)
		}
		if v.r.Intn(3) == 0 {
			for n := 1 + v.r.Intn(3); n > 0; n-- {
				switch v.r.Intn(3) {
				case 0:
					d[v.r.Intn(len(d))] ^= 1 << uint(v.r.Intn(8))
				case 1:
					d = d[:1+v.r.Intn(len(d))]
				case 2:
					d = append(d, v.bytes(1+v.r.Intn(3))...)
				}
			}
		}
		var ref Address
		_, rerr := asn1.Unmarshal(d, &ref)
		v.noPanic("parse-panic", func() {
			p, err := ParseAddress(d)
			if rerr == nil && ref.Expire >= now && ref.Expire <= times.Now() {
				return
			}
			ok := rerr == nil && ref.Expire >= now
			if v.check((err == nil) == ok && (p != nil) == ok, "parse", "%x (expires %d, now %d): %v %v", d, ref.Expire, now, p, err) && ok {
				v.check(fmt.Sprint(*p) == fmt.Sprint(ref), "parse-other", "%x parsed as %v", d, *p)
				var s [32]byte
				copy(s[:], v.bytes(32))
				var asked []byte
				q, err := p.GetMixData(func(k *[32]byte) *[32]byte { asked = vCopy(k[:]); return &s })
				want := make([]byte, 32)
				copy(want, ref.MixPubKey)
				v.check(bytes.Equal(asked, want), "asked", "asked for the key of %x, want %x", asked, want)
				v.check((err == nil) == (q != nil), "mixdata-garbage", "%v %v", q, err)
			}
		}, "%x", d)
	}
	v.done()
}
