package uid

import (
	"bytes"
	"crypto/ed25519"
	"testing"

	"github.com/mutecomm/mute/cipher"
	"golang.org/x/crypto/curve25519"
)

func TestVerifKeyEntry(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(20, 200); i++ {
		var dh KeyEntry
		seed := v.bytes(32)
		if !v.check(dh.InitDHKey(&vReader{b: seed, max: i % 5}) == nil, "init", "InitDHKey") {
			return
		}
		var pub, priv [32]byte
		copy(priv[:], seed)
		curve25519.ScalarBaseMult(&pub, &priv)
		v.check(*dh.PublicKey32() == pub && *dh.PrivateKey32() == priv && dh.PUBKEY == vEnc(pub[:]) && dh.HASH == vEnc(vhash(pub[:])) && dh.FUNCTION == "ECDHE25519" && dh.CIPHERSUITE == DefaultCiphersuite, "init", "key entry from %x", seed)
		for n := 0; n < 32; n++ {
			var k KeyEntry
			v.check(k.InitDHKey(&vReader{b: seed[:n]}) != nil, "random", "key entry from %d random bytes", n)
		}
		sg := vUID("alice@mute.berlin").UIDContent.SIGKEY
		v.check(dh.Verify() == nil && sg.Verify() == nil, "accept", "valid key entry rejected: %v %v", dh.Verify(), sg.Verify())
		sk := sg.PrivateKey64()
		v.check(bytes.Equal(ed25519.PrivateKey(sk[:]).Public().(ed25519.PublicKey), vDec(sg.PUBKEY)) && bytes.Equal(sg.PublicKey32()[:], vDec(sg.PUBKEY)), "pair", "signature key pair does not match")
		for _, base := range []KeyEntry{dh, sg} {
			other := vKE("DH")
			for j, c := range []func(k *KeyEntry){
				func(k *KeyEntry) { k.CIPHERSUITE = "" },
				func(k *KeyEntry) { k.CIPHERSUITE += " " },
				func(k *KeyEntry) { k.FUNCTION = "" },
				func(k *KeyEntry) { k.FUNCTION = "ed25519" },
				func(k *KeyEntry) { k.FUNCTION += "X" },
				func(k *KeyEntry) { k.HASH = other.HASH },
				func(k *KeyEntry) { k.HASH = "" },
				func(k *KeyEntry) { k.HASH = "!" },
				func(k *KeyEntry) { h := vDec(k.HASH); k.HASH = vEnc(h[:63]) },
				func(k *KeyEntry) { h := vDec(k.HASH); k.HASH = vEnc(append(h, 0)) },
				func(k *KeyEntry) { h := vDec(k.HASH); h[i%64] ^= 1; k.HASH = vEnc(h) },
				func(k *KeyEntry) { k.PUBKEY = other.PUBKEY },
				func(k *KeyEntry) { k.PUBKEY = "" },
				func(k *KeyEntry) { k.PUBKEY = "!" },
				func(k *KeyEntry) { p := vDec(k.PUBKEY); p[i%32] ^= 1; k.PUBKEY = vEnc(p) },
			} {
				k := KeyEntry{CIPHERSUITE: base.CIPHERSUITE, FUNCTION: base.FUNCTION, HASH: base.HASH, PUBKEY: base.PUBKEY}
				v.check(k.Verify() == nil, "accept", "plain key entry rejected")
				c(&k)
				v.noPanic("panic", func() { v.check(k.Verify() != nil, "reject", "changed key entry %d of %s accepted", j, base.FUNCTION) }, "change %d", j)
				// same fields or not
				orig := KeyEntry{CIPHERSUITE: base.CIPHERSUITE, FUNCTION: base.FUNCTION, HASH: base.HASH, PUBKEY: base.PUBKEY}
				v.check(!KeyEntryEqual(&k, &orig) && !KeyEntryEqual(&orig, &k), "equal", "different key entries are equal (change %d)", j)
			}
			for bit := 0; bit < 512; bit++ {
				k := KeyEntry{CIPHERSUITE: base.CIPHERSUITE, FUNCTION: base.FUNCTION, HASH: base.HASH, PUBKEY: base.PUBKEY}
				h := vDec(k.HASH)
				h[bit/8] ^= 1 << uint(bit%8)
				k.HASH = vEnc(h)
				v.check(k.Verify() != nil, "hash", "key entry with bit %d of its hash flipped accepted", bit)
				if bit < 256 {
					p := vDec(base.PUBKEY)
					p[bit/8] ^= 1 << uint(bit%8)
					k.HASH, k.PUBKEY = base.HASH, vEnc(p)
					v.check(k.Verify() != nil, "hash", "key entry with bit %d of its key flipped accepted", bit)
				}
			}
			for l := 0; l < 70; l++ {
				if l == 32 {
					continue
				}
				p := v.bytes(l)
				k := KeyEntry{CIPHERSUITE: base.CIPHERSUITE, FUNCTION: base.FUNCTION, HASH: vEnc(vhash(p)), PUBKEY: vEnc(p)}
				v.noPanic("panic", func() { v.check(k.Verify() != nil, "key-length", "key of %d bytes accepted", l) }, "%d", l)
			}
			cp := KeyEntry{CIPHERSUITE: base.CIPHERSUITE, FUNCTION: base.FUNCTION, HASH: base.HASH, PUBKEY: base.PUBKEY}
			v.check(KeyEntryEqual(&base, &cp) && KeyEntryEqual(&cp, &base) && KeyEntryEqual(&cp, &cp) && KeyEntryEqual(nil, nil), "equal", "equal key entries differ")
			v.noPanic("panic", func() {
				v.check(!KeyEntryEqual(&base, nil) && !KeyEntryEqual(nil, &base), "equal", "nil equals a key entry")
			}, "nil")
			// JSON round trip keeps the published part and nothing else
			j, err := NewJSONKeyEntry(base.JSON())
			v.check(err == nil && KeyEntryEqual(j, &base) && j.Verify() == nil, "json", "%v", err)
			v.check(bytes.Equal(j.PublicKey32()[:], vDec(base.PUBKEY)), "json", "public key after a round trip")
			p, _ := v.panics(func() { j.PrivateKey32() })
			q, _ := v.panics(func() { j.PrivateKey64() })
			v.check(p && q, "no-private", "a private key without having been set")
			// private keys
			want := 32
			if base.FUNCTION == "ED25519" {
				want = 64
			}
			for l := 0; l < 70; l++ {
				k, _ := NewJSONKeyEntry(base.JSON())
				b := v.bytes(l)
				err := k.SetPrivateKey(vEnc(b))
				v.check((err == nil) == (l == want), "private-length", "private key of %d bytes for %s: %v", l, base.FUNCTION, err)
				if err == nil {
					v.check(k.PrivateKey() == vEnc(b), "private", "private key round trip")
					v.check(bytes.Equal(k.PublicKey32()[:], vDec(base.PUBKEY)), "private", "public key changed")
				} else {
					p, _ := v.panics(func() { k.PrivateKey() })
					v.check(p, "no-private", "a private key after a failed set")
				}
			}
			k, _ := NewJSONKeyEntry(base.JSON())
			v.check(k.SetPrivateKey("!") != nil, "private", "malformed private key accepted")
		}
		_ = cipher.RandReader
	}
	v.done()
}
