package uid

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"
	"testing"

	"github.com/mutecomm/mute/cipher"
)

// A chain of updates verifies link by link; nothing else does.
func TestVerifUpdateChain(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(8, 80); i++ {
		chain := []*Message{vUID("alice@mute.berlin")}
		for k := 0; k < 4; k++ {
			last := chain[len(chain)-1]
			before := last.JSON()
			u, err := last.Update(cipher.RandReader)
			if !v.check(err == nil && u != nil, "update", "Update: %v", err) {
				return
			}
			v.check(bytes.Equal(before, last.JSON()), "update-frame", "Update changed the message it updates")
			v.check(u.UIDContent.MSGCOUNT == last.UIDContent.MSGCOUNT+1, "count", "message counter %d after %d", u.UIDContent.MSGCOUNT, last.UIDContent.MSGCOUNT)
			v.check(u.SigPubKey() != last.SigPubKey() && u.UIDContent.SIGKEY.Verify() == nil, "new-key", "the signature key was not replaced")
			v.check(u.PubHash() == last.PubHash() && u.Identity() == last.Identity(), "kept", "identity or encryption key changed")
			v.check(*u.PrivateEncKey32() == *last.PrivateEncKey32(), "kept", "private encryption key changed")
			v.check(u.VerifySelfSig() == nil, "self", "self-signature of an update")
			v.check(ed25519.Verify(vDec(last.SigPubKey()), vSorted(u.UIDContent), vDec(u.USERSIGNATURE)), "user", "user signature of an update")
			chain = append(chain, u)
		}
		for a, x := range chain {
			for b, y := range chain {
				x, y := vCopy(x), vCopy(y)
				v.check((y.VerifyUserSig(x) == nil) == (b == a+1), "chain", "message %d as the successor of %d: %v", b, a, y.VerifyUserSig(x))
			}
		}
		for j, c := range vContentChanges() {
			y := vCopy(chain[1])
			c(y)
			v.check(y.VerifyUserSig(chain[0]) != nil, "content", "user signature still valid after content change %d", j)
		}
		// counter jumps and wrap-around, signed by the right key
		pre := chain[1]
		for _, pc := range []uint64{0, 1, 5, 1<<64 - 2, 1<<64 - 1} {
			for _, nc := range []uint64{0, 1, 2, 5, 6, 7, 1<<64 - 1, 1<<64 - 2} {
				p, n := vCopy(pre), vCopy(chain[2])
				p.UIDContent.MSGCOUNT, n.UIDContent.MSGCOUNT = pc, nc
				n.USERSIGNATURE = vEnc(pre.UIDContent.SIGKEY.ed25519Key.Sign(n.UIDContent.JSON()))
				want := nc > pc && nc-pc == 1
				v.check((n.VerifyUserSig(p) == nil) == want, "increment", "counter %d after %d: %v", nc, pc, n.VerifyUserSig(p))
			}
		}
		n := vCopy(chain[2])
		for l := 0; l < 70; l++ {
			if l != 64 {
				s := make([]byte, l)
				copy(s, vDec(chain[2].USERSIGNATURE))
				n.USERSIGNATURE = vEnc(s)
				v.noPanic("sig-length", func() { v.check(n.VerifyUserSig(chain[1]) != nil, "sig-length", "user signature of %d bytes", l) }, "%d", l)
			}
			if l != 32 {
				p := vCopy(chain[1])
				p.UIDContent.SIGKEY.PUBKEY = vEnc(v.bytes(l))
				v.noPanic("key-length", func() { v.check(vCopy(chain[2]).VerifyUserSig(p) != nil, "key-length", "previous key of %d bytes", l) }, "%d", l)
			}
		}
		// records mixed from the update, its predecessor and a stranger's record, signed by either key
		other := vUID("mallory@mute.berlin")
		for k := 0; k < v.n2(60, 600); k++ {
			n, p := vCopy(chain[2]), vCopy(chain[1])
			how := v.mix(n, []*Message{chain[1], other}[v.r.Intn(2)])
			if v.r.Intn(3) > 0 {
				how += " then " + v.mix(n, []*Message{chain[1], other, chain[2]}[v.r.Intn(3)])
			}
			n.UIDContent.MSGCOUNT = p.UIDContent.MSGCOUNT + uint64([]int{1, 1, 1, 0, 2}[v.r.Intn(5)])
			n = vCopy(n)
			for w, signer := range []*Message{other, chain[1], chain[2], chain[0]} {
				n.USERSIGNATURE = vEnc(signer.UIDContent.SIGKEY.ed25519Key.Sign(vSorted(n.UIDContent)))
				if v.r.Intn(8) == 0 {
					n.SELFSIGNATURE = n.USERSIGNATURE
				}
				want := w == 1 && n.UIDContent.MSGCOUNT == p.UIDContent.MSGCOUNT+1
				v.check((n.VerifyUserSig(p) == nil) == want, "mixed", "successor with %s signed by %d: %v", how, w, n.VerifyUserSig(p))
			}
		}
		n.USERSIGNATURE = chain[2].SELFSIGNATURE
		v.check(n.VerifyUserSig(chain[1]) != nil, "self-as-user", "the self-signature passes as user signature")
	}
	v.done()
}

func TestVerifNonce(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(20, 200); i++ {
		m, o := vUID("alice@mute.berlin"), vUID("alice@mute.berlin")
		n, s := m.SignNonce()
		b := make([]byte, 8)
		binary.LittleEndian.PutUint64(b, n)
		v.check(ed25519.Verify(vDec(m.SigPubKey()), b, vDec(s)), "sign", "nonce signature")
		v.check(VerifyNonce(m.SigPubKey(), n, s) == nil, "accept", "own nonce rejected")
		for k := uint(0); k < 64; k++ {
			v.check(VerifyNonce(m.SigPubKey(), n^1<<k, s) != nil, "nonce", "signature accepted for a nonce with bit %d changed", k)
		}
		v.check(VerifyNonce(m.SigPubKey(), n+1, s) != nil && VerifyNonce(m.SigPubKey(), 0, s) != nil, "nonce", "signature accepted for another nonce")
		v.check(VerifyNonce(o.SigPubKey(), n, s) != nil, "key", "signature accepted under another key")
		for l := 0; l < 70; l++ {
			if l != 32 {
				v.noPanic("key-length", func() { v.check(VerifyNonce(vEnc(v.bytes(l)), n, s) != nil, "key-length", "key of %d bytes", l) }, "%d", l)
			}
			if l != 64 {
				x := make([]byte, l)
				copy(x, vDec(s))
				v.noPanic("sig-length", func() {
					v.check(VerifyNonce(m.SigPubKey(), n, vEnc(x)) != nil, "sig-length", "signature of %d bytes", l)
				}, "%d", l)
			}
		}
		v.check(VerifyNonce("!", n, s) != nil && VerifyNonce(m.SigPubKey(), n, "!") != nil, "base64", "malformed base64 accepted")
		for k := 0; k < 8; k++ {
			x := vDec(s)
			x[v.r.Intn(64)] ^= 1 << uint(v.r.Intn(8))
			v.check(VerifyNonce(m.SigPubKey(), n, vEnc(x)) != nil, "forged", "forged nonce signature accepted")
		}
	}
	v.done()
}
