package uid

import (
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/ed25519"
	"testing"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/util/times"
)

func vanchor(m *Message, plain []byte, iv []byte) string {
	b, _ := aes.NewCipher(vhash(vDec(m.SigPubKey()))[:32])
	out := make([]byte, len(plain))
	stdcipher.NewCTR(b, iv).XORKeyStream(out, plain)
	return vEnc(append(append([]byte(nil), iv...), out...))
}

func TestVerifKeyInit(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(8, 60); i++ {
		m, o := vUID("alice@mute.berlin"), vUID("bob@mute.berlin")
		uris := []string{"x.org", "mute.berlin"}
		now := uint64(times.Now())
		mk := func(count, after, before uint64, uri string) (*KeyInit, string, string, error) {
			return m.KeyInit(count, after, before, false, uri, "mix", "nym", cipher.RandReader)
		}
		ki, ph, priv, err := mk(0, now+times.Day, now-times.Day, "mute.berlin")
		if !v.check(err == nil, "create", "%v", err) {
			return
		}
		sign := func(k *KeyInit) *KeyInit {
			k.SIGNATURE = vEnc(m.UIDContent.SIGKEY.ed25519Key.Sign(k.Contents.json()))
			return k
		}
		cp := func() *KeyInit {
			k, err := NewJSONKeyInit(ki.JSON())
			if err != nil {
				t.Fatal(err)
			}
			return k
		}
		v.check(ki.Verify(uris, m.SigPubKey()) == nil && cp().Verify(uris, m.SigPubKey()) == nil, "accept", "own KeyInit rejected: %v", ki.Verify(uris, m.SigPubKey()))
		v.check(ki.Check() == nil, "check", "%v", ki.Check())
		v.check(ed25519.Verify(vDec(m.SigPubKey()), vSorted(ki.Contents), vDec(ki.SIGNATURE)), "sign", "signature over the contents")
		v.check(ki.SigKeyHash() == vEnc(vhash(vhash(vDec(m.SigPubKey())))), "sigkeyhash", "")
		ke, err := ki.KeyEntryECDHE25519(m.SigPubKey())
		if v.check(err == nil, "anchor", "%v", err) {
			v.check(ke.Verify() == nil && ke.HASH == ph && ke.SetPrivateKey(priv) == nil, "anchor", "key of the session anchor")
		}
		sa, err := ki.SessionAnchor(m.SigPubKey())
		v.check(err == nil && sa.MIXADDRESS == "mix" && sa.NymAddress() == "nym", "anchor", "%v", err)
		// wrong key
		v.check(ki.Verify(uris, o.SigPubKey()) != nil, "other-key", "KeyInit accepted under another key")
		_, err = ki.SessionAnchor(o.SigPubKey())
		v.check(err != nil, "other-key", "session anchor opened with another key")
		_, err = ki.KeyEntryECDHE25519(o.SigPubKey())
		v.check(err != nil, "other-key", "key entry read with another key")
		// repository URIs
		for _, u := range [][]string{nil, {}, {"x.org"}, {"mute.berlin.evil"}, {""}} {
			v.check(ki.Verify(u, m.SigPubKey()) != nil, "repo", "repository %q accepted", u)
		}
		v.check(ki.Verify([]string{"mute.berlin"}, m.SigPubKey()) == nil, "repo", "own repository rejected")
		// changed contents, signed and unsigned
		for j, c := range []struct {
			f      func(k *KeyInit)
			signed bool // also wrong when the owner signs it
		}{
			{func(k *KeyInit) { k.Contents.VERSION += "x" }, false},
			{func(k *KeyInit) { k.Contents.MSGCOUNT++ }, false},
			{func(k *KeyInit) { k.Contents.NOTAFTER++ }, false},
			{func(k *KeyInit) { k.Contents.NOTBEFORE-- }, false},
			{func(k *KeyInit) { k.Contents.FALLBACK = true }, false},
			{func(k *KeyInit) { k.Contents.REPOURI = "x.org" }, false},
			{func(k *KeyInit) { k.Contents.REPOURI = "evil" }, true},
			{func(k *KeyInit) { k.Contents.SIGKEYHASH = vEnc(vhash(nil)) }, true},
			{func(k *KeyInit) { k.Contents.SIGKEYHASH = "" }, true},
			{func(k *KeyInit) { k.Contents.SIGKEYHASH = vEnc(vhash(vDec(m.SigPubKey()))) }, true},
			{func(k *KeyInit) { k.Contents.SESSIONANCHORHASH = vEnc(vhash(nil)) }, true},
			{func(k *KeyInit) { k.Contents.SESSIONANCHORHASH = "" }, true},
			{func(k *KeyInit) { k.Contents.SESSIONANCHOR = "" }, true},
			{func(k *KeyInit) { k.Contents.SESSIONANCHOR = "!" }, true},
			{func(k *KeyInit) { k.Contents.SESSIONANCHOR = vEnc(make([]byte, 15)) }, true},
			{func(k *KeyInit) { k.Contents.SESSIONANCHOR = vEnc(make([]byte, 16)) }, true},
			{func(k *KeyInit) {
				b := vDec(k.Contents.SESSIONANCHOR)
				b[len(b)-3] ^= 1
				k.Contents.SESSIONANCHOR = vEnc(b)
			}, true},
			{func(k *KeyInit) { b := vDec(k.Contents.SESSIONANCHOR); b[0] ^= 1; k.Contents.SESSIONANCHOR = vEnc(b) }, true},
			{func(k *KeyInit) { k.Contents.NOTAFTER = now - 10 }, true},
			{func(k *KeyInit) { k.Contents.NOTAFTER = k.Contents.NOTBEFORE }, true},
			{func(k *KeyInit) { k.Contents.NOTBEFORE = k.Contents.NOTAFTER }, true},
			{func(k *KeyInit) { k.Contents.NOTBEFORE = k.Contents.NOTAFTER + 1 }, true},
			{func(k *KeyInit) { k.Contents.NOTAFTER = 0 }, true},
		} {
			k := cp()
			c.f(k)
			v.noPanic("panic", func() { v.check(k.Verify(uris, m.SigPubKey()) != nil, "changed", "changed KeyInit %d accepted", j) }, "change %d", j)
			sign(k)
			v.noPanic("panic", func() {
				v.check((k.Verify(uris, m.SigPubKey()) != nil) == c.signed, "changed-signed", "changed and signed KeyInit %d: %v", j, k.Verify(uris, m.SigPubKey()))
			}, "change %d", j)
		}
		// times: valid exactly if not expired and the interval is not empty
		for j := 0; j < 200; j++ {
			k := cp()
			k.Contents.NOTAFTER, k.Contents.NOTBEFORE = v.u64(), v.u64()
			if j%2 == 0 {
				k.Contents.NOTBEFORE = uint64(v.r.Intn(1000))
			}
			if j%5 == 0 {
				k.Contents.NOTAFTER = now - 100 + uint64(1)<<uint(32+j%31)
			}
			if d := int64(k.Contents.NOTAFTER - now); -10 < d && d < 10 {
				continue
			}
			sign(k)
			ok := k.Contents.NOTAFTER > now && k.Contents.NOTBEFORE < k.Contents.NOTAFTER
			err := k.Verify(uris, m.SigPubKey())
			v.check((err == nil) == ok, "times", "not after %d, not before %d, now %d: %v", k.Contents.NOTAFTER, k.Contents.NOTBEFORE, now, err)
		}
		// signatures
		for l := 0; l < 70; l++ {
			k := cp()
			s := make([]byte, l)
			copy(s, vDec(k.SIGNATURE))
			if l == 64 {
				s[i%64] ^= 2
			}
			k.SIGNATURE = vEnc(s)
			v.noPanic("sig-length", func() { v.check(k.Verify(uris, m.SigPubKey()) != nil, "sig-length", "signature of %d bytes", l) }, "%d", l)
			if l != 32 {
				v.noPanic("key-length", func() { v.check(cp().Verify(uris, vEnc(v.bytes(l))) != nil, "key-length", "key of %d bytes", l) }, "%d", l)
				// a KeyInit that names a key of a wrong length
				pk := v.bytes(l)
				k := cp()
				kh := vhash(pk)
				k.Contents.SIGKEYHASH = vEnc(vhash(kh))
				b, _ := aes.NewCipher(kh[:32])
				js := sa.json()
				out := make([]byte, len(js))
				iv := v.bytes(16)
				stdcipher.NewCTR(b, iv).XORKeyStream(out, js)
				k.Contents.SESSIONANCHOR = vEnc(append(append([]byte(nil), iv...), out...))
				v.noPanic("key-length", func() { v.check(k.Verify(uris, vEnc(pk)) != nil, "key-length", "key of %d bytes", l) }, "%d", l)
			}
		}
		// server signatures
		srv, _ := cipher.Ed25519Generate(cipher.RandReader)
		ss := ki.Sign(srv)
		pub := vEnc(srv.PublicKey()[:])
		v.check(ki.VerifySrvSig(ss, pub) == nil && cp().VerifySrvSig(ss, pub) == nil, "server", "server signature rejected")
		k := cp()
		k.Contents.FALLBACK = true
		v.check(k.VerifySrvSig(ss, pub) != nil, "server-content", "server signature valid for changed contents")
		k = cp()
		k.SIGNATURE = ss
		v.check(k.VerifySrvSig(ss, pub) != nil, "server-content", "server signature valid for a changed signature")
		v.check(ki.VerifySrvSig(ss, o.SigPubKey()) != nil && ki.VerifySrvSig(ki.SIGNATURE, m.SigPubKey()) != nil, "server-key", "server signature by another key accepted")
		for l := 0; l < 70; l++ {
			if l != 32 {
				v.noPanic("server-key", func() {
					v.check(ki.VerifySrvSig(ss, vEnc(v.bytes(l))) != nil, "server-key", "server key of %d bytes", l)
				}, "%d", l)
			}
		}
		v.check(ki.VerifySrvSig("!", pub) != nil && ki.VerifySrvSig(ss, "!") != nil && ki.VerifySrvSig("", pub) != nil, "server", "malformed server signature accepted")
		// creation checks
		for _, c := range []struct {
			after, before uint64
			ok            bool
		}{{now + 100, now, true}, {now + 100, now + 100, false}, {now + 100, now + 101, false}, {now - 50, 0, false}, {now + MaxNotAfter + 100, 0, false}, {now + MaxNotAfter - 100, 0, true}, {now + 100, 0, true}, {0, 0, false}, {1<<64 - 1, 0, false}} {
			k, _, _, err := mk(0, c.after, c.before, "mute.berlin")
			v.check((err == nil) == c.ok && (k != nil) == c.ok, "times", "not after now%+d, not before %d: %v", int64(c.after-now), c.before, err)
		}
		_, _, _, err = mk(0, now+100, now, "evil")
		v.check(err != nil, "uri", "KeyInit for another repository created")
		k1, p1, _, _ := mk(1, now+100, now, "mute.berlin")
		v.check(p1 != ph && k1.Check() != nil, "fresh", "two KeyInits share a key, or a counter of 1 passes the check")
		// anchors with several keys: the one asked for
		two := &SessionAnchor{PFKEYS: []KeyEntry{vKE("ED25519"), vKE("DH"), vKE("DH")}}
		got, err := two.KeyEntry("ECDHE25519")
		v.check(err == nil && got.HASH == two.PFKEYS[1].HASH, "anchor-key", "%v", err)
		got, err = two.KeyEntry("ED25519")
		v.check(err == nil && got.HASH == two.PFKEYS[0].HASH, "anchor-key", "%v", err)
		got, err = two.KeyEntry("nope")
		v.check(err != nil && got == nil, "anchor-key", "a key for an unknown function")
	}
	v.done()
}
