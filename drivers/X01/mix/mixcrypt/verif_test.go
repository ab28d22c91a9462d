package mixcrypt

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/util/times"
	"golang.org/x/crypto/curve25519"
)

type vKey struct{ pub, priv [32]byte }

func (v *vT) key() *vKey {
	k := new(vKey)
	copy(k.priv[:], v.bytes(32))
	curve25519.ScalarBaseMult(&k.pub, &k.priv)
	return k
}

func vCopy(b []byte) []byte { return append([]byte{}, b...) }

func vSecret(priv, pub *[32]byte, nonce []byte) []byte {
	var s [32]byte
	curve25519.ScalarMult(&s, priv, pub)
	h := hmac.New(sha256.New, s[:])
	h.Write(nonce)
	return h.Sum(nil)
}

func vGCM(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	g, _ := cipher.NewGCM(b)
	return g
}

// vSeal makes an envelope for pub.
func (v *vT) seal(pub *[32]byte, clear []byte) []byte {
	k := v.key()
	nonce := v.bytes(32)
	r := append(append(vCopy(pub[:]), k.pub[:]...), nonce...)
	return append(r, vGCM(vSecret(&k.priv, pub, nonce)).Seal(nil, nonce[:12], clear, nil)...)
}

// vUnseal opens an envelope for the owner of k.
func vUnseal(k *vKey, m []byte) ([]byte, bool) {
	if len(m) <= 96 || !bytes.Equal(m[:32], k.pub[:]) {
		return nil, false
	}
	var p [32]byte
	copy(p[:], m[32:])
	r, err := vGCM(vSecret(&k.priv, &p, m[64:96])).Open(nil, m[64:76], m[96:], nil)
	return r, err == nil
}

func (k *vKey) lookup(p *[32]byte) *[32]byte {
	if *p == k.pub {
		return &k.priv
	}
	return nil
}

func (v *vT) size() int {
	return []int{0, 1, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 30000, 65535, 65536, 65537}[v.r.Intn(15)]
}

// TestVerifRandom: what should be random is, also if the source returns fewer bytes than asked for.
func TestVerifRandom(t *testing.T) {
	v := vStart(t)
	oldRand := Rand
	defer func() { Rand = oldRand }()
	for i := 0; i < v.n2(300, 5000); i++ {
		k := v.key()
		b := v.bytes(100)
		r := &vReader{b: b, max: []int{0, 1, 7, 31, 33}[v.r.Intn(5)]}
		Rand = r
		m, err := Encrypt(&k.pub, nil, []byte("message"))
		Rand = oldRand
		if !v.check(err == nil && r.pos == 64, "random", "%v; %d random bytes used", err, r.pos) {
			continue
		}
		used := false
		for _, at := range []int{0, 32} {
			var s, p [32]byte
			copy(s[:], b[at:])
			curve25519.ScalarBaseMult(&p, &s)
			used = used || bytes.Equal(m[32:64], p[:]) && bytes.Equal(m[64:96], b[32-at:64-at])
		}
		v.check(used, "random-used", "key and nonce are not the random bytes read")
	}
	v.done()
}

// TestVerifEnvelope: only the owner of the key opens an envelope, to what was sealed.
func TestVerifEnvelope(t *testing.T) {
	v := vStart(t)
	oldRand := Rand
	defer func() { Rand = oldRand }()
	for i := 0; i < v.n2(1500, 40000); i++ {
		k, o := v.key(), v.key()
		clear := v.sbytes(v.r.Intn(300))
		was := vCopy(clear)
		var my *[32]byte
		if v.r.Intn(2) == 0 {
			my = &v.key().priv
		}
		if v.r.Intn(8) == 0 {
			Rand = bytes.NewReader(v.bytes(v.r.Intn(32) + map[bool]int{true: 32}[my == nil && v.r.Intn(2) == 0]))
			m, err := Encrypt(&k.pub, my, clear)
			v.check(err != nil && m == nil, "seal-rand", "sealed without randomness")
			Rand = oldRand
		}
		m, err := Encrypt(&k.pub, my, clear)
		if !v.check(err == nil && bytes.Equal(clear, was), "seal", "%v", err) {
			continue
		}
		ref, ok := vUnseal(k, m)
		v.check(ok && bytes.Equal(ref, was) && len(m) == 112+len(was), "seal-other", "%x sealed as %x (%v)", was, ref, ok)
		e := vCopy(m)
		c, err := Decrypt(k.lookup, m)
		v.check(err == nil && bytes.Equal(c, was) && bytes.Equal(e, m), "unseal", "%x opened as %x: %v", was, c, err)
		c, err = Decrypt(o.lookup, m)
		v.check(err != nil && c == nil, "unseal-other", "opened with another key")
		// changes
		switch v.r.Intn(4) {
		case 0, 1:
			m[v.r.Intn(len(m))] ^= 1 << uint(v.r.Intn(8))
		case 2:
			m = m[:v.r.Intn(len(m))]
		case 3:
			m = append(m, v.bytes(1+v.r.Intn(3))...)
		}
		ref, ok = vUnseal(k, m)
		v.noPanic("unseal-panic", func() {
			c, err := Decrypt(k.lookup, m)
			v.check((err == nil) == ok && bytes.Equal(c, ref) && (ok || c == nil), "unseal-changed", "changed envelope opened: %v, want %v", err, ok)
		}, "%x", m)
	}
	v.done()
}

func (v *vT) header() ClientMixHeader {
	h := ClientMixHeader{MessageType: int32(1 + v.r.Intn(3)), SenderMinDelay: int32(v.u64()), SenderMaxDelay: int32(v.u64()), Address: v.sbytes(v.r.Intn(50))}
	if v.r.Intn(8) == 0 {
		h.MessageType = int32(v.u64())
	}
	if v.r.Intn(2) == 0 {
		h.Token = v.sbytes(v.r.Intn(40))
	}
	if v.r.Intn(2) == 0 {
		h.RevokeID = v.sbytes(v.r.Intn(40))
	}
	return h
}

func vNone(b []byte) bool { return len(b) == 0 || len(b) == 1 && b[0] == 0 }

func vHdr(h ClientMixHeader) string {
	return fmt.Sprintf("%d %d %d %x %x %x", h.MessageType, h.SenderMinDelay, h.SenderMaxDelay, h.Address, h.Token, h.RevokeID)
}

func vFrame(d []byte) []byte {
	return append([]byte{byte(len(d) >> 8), byte(len(d))}, d...)
}

// vParse: the header at the start of d.
func vParse(d []byte) (h ClientMixHeader, n int, ok bool) {
	if len(d) < 3 {
		return
	}
	n = int(binary.BigEndian.Uint16(d)) + 2
	if n > 65535 || n > len(d) {
		return h, n, false
	}
	if _, err := asn1.Unmarshal(d[2:n], &h); err != nil {
		return h, n, false
	}
	if vNone(h.Token) {
		h.Token = nil
	}
	if vNone(h.RevokeID) || h.MessageType == MessageTypeForward {
		h.RevokeID = nil
	}
	return h, n, true
}

// TestVerifHeader: headers are read as they were written; bytes that are none are refused.
func TestVerifHeader(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(5000, 150000); i++ {
		h := v.header()
		was := vHdr(h)
		m := h.Marshal()
		v.check(vHdr(h) == was, "marshal-changed", "writing changed the header %s to %s", was, vHdr(h))
		rest := v.bytes(v.r.Intn(5))
		b := append(vCopy(m), rest...)
		want := h
		if vNone(want.Token) {
			want.Token = nil
		}
		if vNone(want.RevokeID) || want.MessageType == MessageTypeForward {
			want.RevokeID = nil
		}
		g, n, err := new(ClientMixHeader).Unmarshal(b)
		v.check(err == nil && g != nil && int(n) == len(m) && vHdr(*g) == vHdr(want), "header", "%s read as %v, %d of %d, %v", was, g, n, len(m), err)
		switch v.r.Intn(6) {
		case 0:
			b[v.r.Intn(len(b))] ^= 1 << uint(v.r.Intn(8))
		case 1:
			b = b[:v.r.Intn(len(b))]
		case 2:
			b = v.sbytes(v.r.Intn(12))
		case 3:
			d, _ := asn1.Marshal(ClientMixHeader{1, 2, 3, nil, nil, nil})
			b = vFrame(d)
		case 4:
			binary.BigEndian.PutUint16(b, uint16([]int{0xffff, 0xfffe, 0xfffd, 0, 1, len(b) - 1, len(b) - 2, len(b) - 3}[v.r.Intn(8)]))
		case 5:
			d, _ := asn1.Marshal(ClientMixHeader{MessageTypeRelay, 2, 3, v.bytes(v.r.Intn(2)), nil, v.bytes(v.r.Intn(2))})
			b = append(vFrame(d), v.bytes(v.r.Intn(3))...)
		}
		if v.r.Intn(40) == 0 { // the longest
			d, _ := asn1.Marshal(ClientMixHeader{MessageTypeRelay, 2, 3, v.bytes(10), v.bytes(65500 + v.r.Intn(20)), v.bytes(2)})
			b = append(vFrame(d), v.bytes(v.r.Intn(3))...)
		}
		w, k, ok := vParse(b)
		v.noPanic("header-panic", func() {
			g, n, err := new(ClientMixHeader).Unmarshal(b)
			if v.check((err == nil) == ok && (g != nil) == ok, "header-garbage", "%d bytes %x...: %v, want %v", len(b), b[:len(b)%40], err, ok) && ok {
				v.check(int(n) == k && vHdr(*g) == vHdr(w), "header-other", "read %s, %d, want %s, %d", vHdr(*g), n, vHdr(w), k)
			}
		}, "%d bytes %x...", len(b), b[:len(b)%40])
	}
	v.done()
}

func vHash(b []byte) []byte {
	h := sha256.Sum256(b)
	return h[:]
}

// a nymaddress with free choice of its parts
func (v *vT) nym(k *vKey, pubExpire int64, p nymaddr.AddressPrivate, tmp nymaddr.AddressTemplate, mailbox, nym []byte) []byte {
	tmp.MixCandidates = mixaddr.AddressList{{Pubkey: k.pub[:], Expire: tmp.Expire + 1, Address: "mix.one:1", TokenKey: v.bytes(32)}}
	adr, err := tmp.NewAddress(mailbox, nym)
	if err != nil {
		panic(err)
	}
	var a nymaddr.Address
	if _, err := asn1.Unmarshal(adr, &a); err != nil {
		panic(err)
	}
	a.Expire = pubExpire
	if v.r.Intn(4) == 0 {
		a.SingleUse = !a.SingleUse
	}
	adr, _ = asn1.Marshal(a)
	return adr
}

// TestVerifMessage: what a mix receives, what it has to see only once, and what it sends on to whom.
func TestVerifMessage(t *testing.T) {
	v := vStart(t)
	oldRand, oldTime := Rand, timeNow
	defer func() { Rand, timeNow = oldRand, oldTime }()
	for i := 0; i < v.n2(1500, 30000); i++ {
		k := v.key()
		real := times.Now()
		now := real + int64(v.r.Intn(100))
		timeNow = func() int64 { return now }
		msg := v.bytes(v.size())
		if v.r.Intn(3) == 0 {
			msg = v.bytes(1024 + v.r.Intn(8000))
		}
		was := vCopy(msg)
		h := v.header()
		in := h
		relay := v.r.Intn(2) == 0
		var m []byte
		var to string
		var err error
		mailbox, nym := v.sbytes(v.r.Intn(40)), v.bytes(32)
		tmp := nymaddr.AddressTemplate{Secret: v.bytes(32), SingleUse: v.r.Intn(2) == 0, MinDelay: 1, MaxDelay: 2}
		if v.r.Intn(10) == 0 {
			tmp.System = int32(v.r.Intn(3))
		}
		tmp.Expire = []int64{now + 1000, now + 1000, now, now - 1, real + 1, 5, real - 1000, 1 << 40}[v.r.Intn(8)]
		var adr []byte
		if relay {
			pubExpire := tmp.Expire
			if pubExpire < real+1000 || v.r.Intn(4) == 0 {
				pubExpire = real + 1000 + int64(v.r.Intn(1000))
			}
			adr = v.nym(k, pubExpire, nymaddr.AddressPrivate{}, tmp, mailbox, nym)
			m, to, err = h.NewRelayMessage(adr, msg)
		} else {
			to = fmt.Sprintf("mix%d.two:2", v.r.Intn(100))
			in.Address = []byte(to)
			m, to, err = h.NewForwardMessage(to, &k.pub, msg)
		}
		if !v.check(err == nil && bytes.Equal(msg, was), "new", "%v", err) {
			continue
		}
		v.check(to == map[bool]string{true: "mix.one:1", false: string(in.Address)}[relay], "to", "to be delivered to %s", to)
		clear, ok := vUnseal(k, m)
		if !v.check(ok, "new-sealed", "the message is not sealed for the mix") {
			continue
		}
		hd, n, ok := vParse(clear)
		if !v.check(ok && bytes.Equal(clear[n:], was), "new-message", "the sealed message is not the message") {
			continue
		}
		wantTok := in.Token
		if vNone(wantTok) {
			wantTok = nil
		}
		v.check(hd.SenderMinDelay == in.SenderMinDelay && hd.SenderMaxDelay == in.SenderMaxDelay && bytes.Equal(hd.Token, wantTok), "new-header", "header %s made from %s", vHdr(hd), vHdr(in))
		if relay {
			v.check(hd.MessageType == MessageTypeRelay && bytes.Equal(hd.Address, adr) && len(hd.RevokeID) == 32 && bytes.Equal(hd.RevokeID, h.RevokeID), "new-relay", "header %s for %x", vHdr(hd), adr)
		} else {
			v.check(hd.MessageType == MessageTypeForward && string(hd.Address) == to && hd.RevokeID == nil, "new-forward", "header %s to %s", vHdr(hd), to)
		}
		if v.r.Intn(6) == 0 { // of another type
			hd.MessageType = int32(v.r.Intn(6)) - 1
			d, _ := asn1.Marshal(ClientMixHeader{hd.MessageType, 1, 2, []byte{1}, hd.Address, []byte{2, 3}})
			clear = append(vFrame(d), msg...)
			m = v.seal(&k.pub, clear)
			hd, n, _ = vParse(clear)
			relay = hd.MessageType == MessageTypeRelay
		}
		// receive
		good := len(msg) >= 1024 && len(msg) <= 65536
		if relay {
			good = len(msg) >= 4096 && len(msg) <= 65536
			if _, err := nymaddr.ParseAddress(hd.Address); err != nil {
				good = false
			}
			good = good && adr != nil && tmp.Expire >= now
		}
		var r *ReceiveStruct
		enc := vCopy(m)
		v.noPanic("receive-panic", func() { r, err = ReceiveMessage(k.lookup, m) }, "type %d, %d bytes", hd.MessageType, len(msg))
		if !v.check((err == nil) == good && (r != nil) == good, "receive", "type %d, %d bytes, address expires %d, now %d: %v, want %v", hd.MessageType, len(msg), tmp.Expire, now, err, good) || !good {
			continue
		}
		v.check(bytes.Equal(enc, m) && bytes.Equal(r.Message, was) && r.MixHeader != nil && vHdr(*r.MixHeader) == vHdr(hd), "received", "received header %v, want %s", r.MixHeader, vHdr(hd))
		u := []UniquenessData{{vHash(was[:256]), now + 172800}}
		if relay {
			u[0].Expire = tmp.Expire
			if tmp.SingleUse {
				u = append(u, UniquenessData{r.NymAddressPrivate.ReceiverPubKey, tmp.Expire})
			}
		}
		v.check(fmt.Sprint(u) == fmt.Sprint(r.UniqueTest), "unique", "to be seen once: %v, want %v", r.UniqueTest, u)
		// send
		out, addr, err := r.Send()
		if !relay {
			v.check(err == nil && bytes.Equal(out, was) && addr == string(hd.Address), "send", "sent to %s (want %s): %v", addr, hd.Address, err)
			continue
		}
		if tmp.System != 0 {
			v.check(err != nil && out == nil, "send-system", "sent for system %d", tmp.System)
			continue
		}
		if !v.check(err == nil && addr == string(mailbox)+MuteSystemDomain, "send-relay", "sent to %q for %q: %v", addr, mailbox, err) {
			continue
		}
		n3, s3, err3 := []byte(nil), []byte(nil), error(nil)
		hl := int(binary.BigEndian.Uint16(out)) + 2
		if v.check(hl <= len(out), "send-length", "header length %d of %d", hl, len(out)) {
			n3, s3, err3 = tmp.GetPrivate(vCopy(out[2:hl]), mailbox)
			if v.check(err3 == nil && bytes.Equal(n3, nym), "send-header", "%v", err3) {
				p, err := vGCM(s3).Open(nil, vHash(out[2:hl])[:12], out[hl:], nil)
				v.check(err == nil && bytes.Equal(p, was), "send-sealed", "%v", err)
			}
		}
		// the recipient
		o := vCopy(out)
		d, nn, err := ReceiveFromMix(tmp, mailbox, o)
		v.check(err == nil && bytes.Equal(d, was) && bytes.Equal(nn, nym), "recipient", "%v", err)
		out[v.r.Intn(len(out))] ^= 1 << uint(v.r.Intn(8))
		if v.r.Intn(3) == 0 {
			out = out[:v.r.Intn(len(out))]
		}
		v.noPanic("recipient-panic", func() {
			d, nn, err := ReceiveFromMix(tmp, mailbox, out)
			v.check(err != nil && d == nil && nn == nil, "recipient-changed", "a changed message was taken")
		}, "%d bytes", len(out))
		// without randomness
		Rand = bytes.NewReader(v.bytes(v.r.Intn(96)))
		if x, _, err := in.NewRelayMessage(adr, msg); err == nil || x != nil {
			v.fail("rand", "a message without randomness")
		}
		Rand = oldRand
	}
	v.done()
}

// TestVerifMessageBad: sealed garbage does not stop a mix.
func TestVerifMessageBad(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(1500, 30000); i++ {
		k := v.key()
		var d []byte
		switch v.r.Intn(5) {
		case 0:
			d = v.sbytes(v.r.Intn(200))
		case 1:
			h, _ := asn1.Marshal(ClientMixHeader{int32(v.r.Intn(5)), 1, 2, v.bytes(v.r.Intn(2)), v.bytes(v.r.Intn(30)), v.bytes(v.r.Intn(2))})
			d = append(vFrame(h), v.bytes(v.r.Intn(600))...)
		case 2:
			h, _ := asn1.Marshal(ClientMixHeader{int32(v.r.Intn(5)), 1, 2, v.bytes(3), v.bytes(30), v.bytes(65450 + v.r.Intn(40))})
			d = append(vFrame(h), v.bytes(v.r.Intn(6000))...)
		case 3:
			a, _ := asn1.Marshal(nymaddr.Address{MixAddress: v.bytes(3), Expire: 1 << 40, MixPubKey: k.pub[:v.r.Intn(33)], AddressKey: v.bytes(v.r.Intn(40)), PrivateData: v.bytes(v.r.Intn(100))})
			h, _ := asn1.Marshal(ClientMixHeader{2, 1, 2, v.bytes(3), a, v.bytes(3)})
			d = append(vFrame(h), v.bytes(4096)...)
		case 4:
			d = append([]byte{0xff, byte(0xfc + v.r.Intn(4))}, v.bytes(v.r.Intn(70000))...)
		}
		m := v.seal(&k.pub, d)
		v.noPanic("bad-panic", func() {
			r, err := ReceiveMessage(k.lookup, m)
			v.check((r == nil) == (err != nil), "bad", "%v %v", r, err)
			if r != nil {
				h, n, ok := vParse(d)
				v.check(ok && h.MessageType != MessageTypeRelay && len(d)-n >= 1024 && len(d)-n <= 65536, "bad-taken", "type %d, %d bytes taken", h.MessageType, len(d)-n)
			}
		}, "%d bytes %x...", len(d), d[:len(d)%60])
	}
	v.done()
}
