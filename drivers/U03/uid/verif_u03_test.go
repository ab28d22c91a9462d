package uid

import (
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/ed25519"
	"crypto/sha256"
	"testing"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/keyserver/hashchain"
)

func vctr(key, iv, in []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(in))
	stdcipher.NewCTR(b, iv).XORKeyStream(out, in)
	return out
}

func TestVerifReply(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(10, 100); i++ {
		m, o := vUID("alice@mute.berlin"), vUID("bob@mute.berlin")
		srv, _ := cipher.Ed25519Generate(cipher.RandReader)
		evil, _ := cipher.Ed25519Generate(cipher.RandReader)
		pub := vEnc(srv.PublicKey()[:])
		h, idx, enc := m.Encrypt()
		h1 := sha256.Sum256(m.JSON())
		h2 := sha256.Sum256(h1[:])
		raw := vDec(enc)
		v.check(bytes.Equal(h, h1[:]) && bytes.Equal(idx, h2[:]), "index", "UID hash and index")
		v.check(len(raw) == 48+len(m.JSON()) && bytes.Equal(raw[:32], idx) && bytes.Equal(vctr(h, raw[32:48], raw[48:]), m.JSON()), "encrypt", "format of an encrypted UID message")
		_, _, enc2 := m.Encrypt()
		v.check(!bytes.Equal(vDec(enc2)[32:48], raw[32:48]), "iv", "two encryptions share an IV")
		r := CreateReply(enc, hashchain.TestEntry, uint64(i), srv)
		v.check(r.ENTRY.UIDMESSAGEENCRYPTED == enc && r.ENTRY.HASHCHAINENTRY == hashchain.TestEntry && r.ENTRY.HASHCHAINPOS == uint64(i), "reply", "fields of a reply")
		v.check(ed25519.Verify(srv.PublicKey()[:], vSorted(r.ENTRY), vDec(r.SERVERSIGNATURE)), "reply-sig", "server signature of a reply")
		v.check(r.VerifySrvSig(m, pub) == nil, "accept", "own reply rejected: %v", r.VerifySrvSig(m, pub))
		if rr, err := NewJSONReply(string(r.JSON())); v.check(err == nil, "json", "%v", err) {
			v.check(rr.VerifySrvSig(m, pub) == nil, "json", "reply after a JSON round trip")
		}
		di, dm, err := r.Decrypt(h)
		v.check(err == nil && bytes.Equal(di, idx) && bytes.Equal(dm.JSON(), m.JSON()), "decrypt", "%v", err)
		// other message, other key, changed reply
		v.check(r.VerifySrvSig(o, pub) != nil, "other-msg", "reply accepted for another message")
		v.check(r.VerifySrvSig(m, vEnc(evil.PublicKey()[:])) != nil, "other-key", "reply accepted under another server key")
		for j, c := range []func(x *MessageReply){
			func(x *MessageReply) { x.ENTRY.HASHCHAINPOS++ },
			func(x *MessageReply) { x.ENTRY.HASHCHAINENTRY = "" },
			func(x *MessageReply) { x.ENTRY.UIDMESSAGEENCRYPTED = enc2 },
			func(x *MessageReply) { x.SERVERSIGNATURE = "" },
			func(x *MessageReply) { x.SERVERSIGNATURE = "!" },
			func(x *MessageReply) { s := vDec(x.SERVERSIGNATURE); s[i%64] ^= 4; x.SERVERSIGNATURE = vEnc(s) },
			func(x *MessageReply) { s := vDec(x.SERVERSIGNATURE); x.SERVERSIGNATURE = vEnc(s[:63]) },
			func(x *MessageReply) { x.ENTRY.UIDMESSAGEENCRYPTED = "" },
			func(x *MessageReply) { x.ENTRY.UIDMESSAGEENCRYPTED = "!" },
		} {
			x := *r
			c(&x)
			v.noPanic("panic", func() { v.check(x.VerifySrvSig(m, pub) != nil, "changed", "reply with change %d accepted", j) }, "change %d", j)
		}
		// properly signed replies around a different message: the server lies
		sign := func(b []byte) *MessageReply { return CreateReply(vEnc(b), hashchain.TestEntry, uint64(i), srv) }
		_, _, oenc := o.Encrypt()
		v.noPanic("panic", func() {
			v.check(sign(vDec(oenc)).VerifySrvSig(m, pub) != nil, "server-other", "signed reply with another message accepted")
		}, "")
		x := append([]byte(nil), raw...)
		for k := 0; k < len(x); k++ {
			x[k] ^= 1 << uint(v.r.Intn(8))
			v.noPanic("panic", func() {
				same := false
				if k >= 48 { // letter case of a field name
					if y, err := NewJSON(string(vctr(h, x[32:48], x[48:]))); err == nil {
						same = bytes.Equal(y.JSON(), m.JSON())
					}
				}
				v.check(same || sign(x).VerifySrvSig(m, pub) != nil, "server-bit", "signed reply with byte %d changed accepted", k)
				if di, _, err := sign(x).Decrypt(h); err == nil {
					v.check(bytes.Equal(di, x[:32]), "decrypt-index", "index reported is not the one of the reply (byte %d changed)", k)
				}
			}, "byte %d", k)
			x[k] = raw[k]
		}
		x[3] ^= 1
		v.check(sign(x).VerifySrvSig(m, pub) != nil, "server-index", "signed reply with another index accepted")
		lie := vCopy(m)
		lie.UIDContent.IDENTITY = "eve@mute.berlin"
		iv := v.bytes(16)
		x = append(append(append([]byte(nil), idx...), iv...), vctr(h, iv, lie.JSON())...)
		v.check(sign(x).VerifySrvSig(m, pub) != nil, "server-lie", "signed reply with changed content under the right index accepted")
		lie = vCopy(m)
		lie.SELFSIGNATURE = o.SELFSIGNATURE
		x = append(append(append([]byte(nil), idx...), iv...), vctr(h, iv, lie.JSON())...)
		v.check(sign(x).VerifySrvSig(m, pub) != nil, "server-lie", "signed reply with a changed signature under the right index accepted")
		for _, n := range []int{0, 1, 31, 32, 33, 40, 47, 48, 49, len(raw) - 1} {
			y := sign(raw[:n])
			v.noPanic("short", func() { v.check(y.VerifySrvSig(m, pub) != nil, "short", "signed reply cut to %d bytes accepted", n) }, "reply cut to %d bytes", n)
			v.noPanic("short", func() { _, _, err := y.Decrypt(h); v.check(err != nil, "short", "reply cut to %d bytes decrypted", n) }, "reply cut to %d bytes", n)
		}
		for l := 0; l < 70; l++ {
			if l != 32 {
				v.noPanic("key-length", func() { v.check(r.VerifySrvSig(m, vEnc(v.bytes(l))) != nil, "key-length", "server key of %d bytes", l) }, "%d", l)
			}
		}
	}
	v.done()
}
