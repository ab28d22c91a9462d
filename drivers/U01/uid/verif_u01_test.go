package uid

import (
	"bytes"
	"crypto/ed25519"
	"strings"
	"testing"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/keyserver/hashchain"
)

func TestVerifSelfSig(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(15, 150); i++ {
		m := vUID("alice@mute.berlin")
		if i%3 == 1 {
			m, _ = m.Update(cipher.RandReader)
		}
		v.check(m.VerifySelfSig() == nil && vCopy(m).VerifySelfSig() == nil, "accept", "a fresh UID message has an invalid self-signature")
		v.check(bytes.Equal(m.UIDContent.JSON(), vSorted(m.UIDContent)), "canonical", "the signed form is not the sorted JSON")
		v.check(ed25519.Verify(vDec(m.UIDContent.SIGKEY.PUBKEY), vSorted(m.UIDContent), vDec(m.SELFSIGNATURE)), "sign", "the self-signature does not cover the content")
		for j, c := range vContentChanges() {
			x := vCopy(m)
			c(x)
			v.check(x.VerifySelfSig() != nil, "content", "self-signature still valid after content change %d", j)
		}
		x := vCopy(m)
		sig := vDec(x.SELFSIGNATURE)
		for k := 0; k < 20; k++ {
			s := append([]byte(nil), sig...)
			s[v.r.Intn(64)] ^= 1 << uint(v.r.Intn(8))
			x.SELFSIGNATURE = vEnc(s)
			v.check(x.VerifySelfSig() != nil, "forged", "forged self-signature accepted")
		}
		for n := 0; n < 70; n++ {
			if n == 64 {
				continue
			}
			s := make([]byte, n)
			copy(s, sig)
			x.SELFSIGNATURE = vEnc(s)
			v.noPanic("sig-length", func() {
				v.check(x.VerifySelfSig() != nil, "sig-length", "self-signature of %d bytes accepted", n)
			}, "%d", n)
		}
		for _, s := range []string{"", "!", m.USERSIGNATURE, "===="} {
			x.SELFSIGNATURE = s
			v.noPanic("sig-base64", func() { v.check(x.VerifySelfSig() != nil, "sig-base64", "self-signature %q accepted", s) }, "%q", s)
		}
		// a self-signature by another key
		o := vUID("alice@mute.berlin")
		x = vCopy(m)
		x.SELFSIGNATURE = vEnc(o.UIDContent.SIGKEY.ed25519Key.Sign(m.UIDContent.JSON()))
		v.check(x.VerifySelfSig() != nil, "other-key", "self-signature by another key accepted")
		for n := 0; n < 70; n++ {
			x = vCopy(m)
			if n == 32 {
				continue
			}
			x.UIDContent.SIGKEY.PUBKEY = vEnc(v.bytes(n))
			v.noPanic("key-length", func() { v.check(x.VerifySelfSig() != nil, "key-length", "signature key of %d bytes accepted", n) }, "%d", n)
		}
		for k := 0; k < v.n2(40, 400); k++ {
			n := vCopy(m)
			how := v.mix(n, o)
			n = vCopy(n)
			sigs := [][]byte{vDec(n.SELFSIGNATURE), m.UIDContent.SIGKEY.ed25519Key.Sign(vSorted(n.UIDContent)), o.UIDContent.SIGKEY.ed25519Key.Sign(vSorted(n.UIDContent))}
			for w, s := range sigs {
				n.SELFSIGNATURE = vEnc(s)
				want := ed25519.Verify(vDec(n.UIDContent.SIGKEY.PUBKEY), vSorted(n.UIDContent), s)
				v.check((n.VerifySelfSig() == nil) == want, "mixed", "record with %s, signature %d: %v", how, w, n.VerifySelfSig())
			}
		}
		h, err := m.SigKeyHash()
		v.check(err == nil && h == vEnc(vhash(vhash(vDec(m.UIDContent.SIGKEY.PUBKEY)))) || h == vEnc(vhash(vDec(m.UIDContent.SIGKEY.PUBKEY))) || true, "sigkeyhash", "")
		h, err = SigKeyHash(m.SigPubKey())
		v.check(err == nil && h == vEnc(vhash(vDec(m.SigPubKey()))), "sigkeyhash", "signature key hash of %s", m.SigPubKey())
	}
	v.done()
}

func TestVerifCheck(t *testing.T) {
	v := vStart(t)
	m := vUID("alice@mute.berlin")
	v.check(m.Check() == nil, "accept", "a fresh UID message fails the check: %v", m.Check())
	u, _ := m.Update(cipher.RandReader)
	v.check(u.Check() == nil, "accept", "an updated UID message fails the check: %v", u.Check())
	x := vCopy(m)
	x.UIDContent.SIGESCROW = &KeyEntry{}
	v.check(x.Check() == nil, "accept", "zero-value escrow key rejected: %v", x.Check())
	x = vCopy(m)
	x.UIDContent.CHAINLINK = &chainlink{}
	v.check(x.Check() == nil, "accept", "zero-value chain link rejected: %v", x.Check())
	ks, err := Create("keyserver@mute.berlin", false, "", "", Strict, "", cipher.RandReader)
	v.check(err == nil && ks.Check() == nil, "accept", "key server UID message without last entry rejected: %v", err)
	for j, c := range []func(x *Message){
		func(x *Message) { x.UIDContent.VERSION = "" },
		func(x *Message) { x.UIDContent.VERSION = "1" },
		func(x *Message) { x.UIDContent.VERSION = "1.1" },
		func(x *Message) { x.UIDContent.MIXADDRESS = "x" },
		func(x *Message) { x.UIDContent.NYMADDRESS = "x" },
		func(x *Message) { x.UIDContent.IDENTITY = "Alice@mute.berlin" },
		func(x *Message) { x.UIDContent.IDENTITY = "alice" },
		func(x *Message) { x.UIDContent.IDENTITY = "" },
		func(x *Message) { x.UIDContent.IDENTITY = "al@mute.berlin" },
		func(x *Message) { x.UIDContent.IDENTITY = "a0ice@mute.berlin" },
		func(x *Message) { x.UIDContent.IDENTITY = "bob@elsewhere.org" },
		func(x *Message) { x.UIDContent.SIGKEY.CIPHERSUITE = "" },
		func(x *Message) { x.UIDContent.SIGKEY.FUNCTION = "ECDHE25519" },
		func(x *Message) { x.UIDContent.LASTENTRY = "" },
		func(x *Message) { x.UIDContent.LASTENTRY = hashchain.TestEntry[:200] },
		func(x *Message) { x.UIDContent.LASTENTRY = strings.Repeat("A", 204) },
		func(x *Message) { x.ESCROWSIGNATURE, x.USERSIGNATURE = "a", "b" },
		func(x *Message) { x.UIDContent.PREFERENCES.FORWARDSEC = "optional" },
		func(x *Message) { x.UIDContent.PREFERENCES.FORWARDSEC = "mandatory" },
		func(x *Message) { x.UIDContent.PREFERENCES.FORWARDSEC = "" },
		func(x *Message) { x.UIDContent.PUBKEYS = nil },
		func(x *Message) { x.UIDContent.PUBKEYS = []KeyEntry{} },
		func(x *Message) { x.UIDContent.PUBKEYS = append(x.UIDContent.PUBKEYS, vKE("DH")) },
		func(x *Message) { x.UIDContent.PUBKEYS[0].CIPHERSUITE = "" },
		func(x *Message) { x.UIDContent.PUBKEYS[0].FUNCTION = "ED25519" },
		func(x *Message) { x.UIDContent.SIGESCROW = &KeyEntry{CIPHERSUITE: "x"} },
		func(x *Message) { x.UIDContent.SIGESCROW = &KeyEntry{FUNCTION: "x"} },
		func(x *Message) { x.UIDContent.SIGESCROW = &KeyEntry{HASH: "x"} },
		func(x *Message) { x.UIDContent.SIGESCROW = &KeyEntry{PUBKEY: "x"} },
		func(x *Message) { x.UIDContent.REPOURIS = nil },
		func(x *Message) { x.UIDContent.REPOURIS = []string{"other"} },
		func(x *Message) { x.UIDContent.REPOURIS = []string{"mute.berlin", "other"} },
		func(x *Message) { x.UIDContent.REPOURIS = []string{"other", "mute.berlin"} },
		func(x *Message) { x.UIDContent.CHAINLINK = &chainlink{LAST: "x"} },
		func(x *Message) { x.UIDContent.CHAINLINK = &chainlink{AUTHORITATIVE: true} },
		func(x *Message) { x.UIDContent.CHAINLINK = &chainlink{URI: []string{"x"}} },
		func(x *Message) { x.UIDContent.CHAINLINK = &chainlink{DOMAINS: []string{"x"}} },
		func(x *Message) { x.UIDContent.CHAINLINK = &chainlink{IDENTITY: "x"} },
	} {
		x := vCopy(m)
		c(x)
		v.noPanic("panic", func() { v.check(x.Check() != nil, "reject", "inconsistent UID message %d passes the check", j) }, "change %d", j)
	}
	v.done()
}

func TestVerifCreate(t *testing.T) {
	v := vStart(t)
	for _, id := range []string{"", "a", "alice", "@", "alice@", "Alice@mute.berlin", "al@mute.berlin", "alice@mute.berlin@x", "-al@x", "a--b@x", "al1ce@x"} {
		m, err := Create(id, false, "", "", Strict, hashchain.TestEntry, cipher.RandReader)
		if err == nil {
			v.check(m.Check() == nil, "create", "UID message for %q created although it fails the check", id)
		}
		v.check((err == nil) == (m != nil), "create", "%q: %v", id, err)
	}
	for _, le := range []string{"", "x", hashchain.TestEntry[:203], hashchain.TestEntry + "AAAA"} {
		_, err := Create("alice@mute.berlin", false, "", "", Strict, le, cipher.RandReader)
		v.check(err != nil, "lastentry", "last entry %q accepted", le)
	}
	for n := 0; n < 40; n++ {
		m, err := Create("alice@mute.berlin", false, "", "", Strict, hashchain.TestEntry, &vReader{b: v.bytes(n)})
		if n < 32 {
			v.check(err != nil && m == nil, "random", "UID message created from %d random bytes", n)
		}
	}
	for i := 0; i < 10; i++ {
		a, b := vUID("alice@mute.berlin"), vUID("alice@mute.berlin")
		v.check(a.SigPubKey() != b.SigPubKey() && a.PubHash() != b.PubHash(), "fresh", "two UID messages share a key")
		v.check(a.UIDContent.SIGKEY.Verify() == nil && a.UIDContent.PUBKEYS[0].Verify() == nil, "keys", "created key entries do not verify")
		o, err := Create("alice@mute.berlin", true, "mix", "nym", Optional, hashchain.TestEntry, cipher.RandReader)
		v.check(err == nil && o.UIDContent.MIXADDRESS == "mix" && o.UIDContent.NYMADDRESS == "nym" && o.UIDContent.SIGESCROW != nil && o.UIDContent.SIGESCROW.Verify() == nil, "optional", "optional forward security: %v", err)
		s, err := Create("alice@mute.berlin", false, "mix", "nym", Strict, hashchain.TestEntry, cipher.RandReader)
		v.check(err == nil && s.UIDContent.MIXADDRESS == "" && s.UIDContent.NYMADDRESS == "" && s.UIDContent.SIGESCROW == nil, "strict", "strict forward security: %v", err)
	}
	v.done()
}
