package msg

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/uid"
)

// Both sides derive the root key of a session from the three agreements.
func TestVerifRootKey(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(12, 80); i++ {
		names := []string{"alice@mute.berlin", "bob@mute.berlin"}
		if i%2 == 1 {
			names[0], names[1] = names[1], names[0]
		}
		a, b := newParty(names[0]), newParty(names[1])
		a.knows(b)
		n := uint64(1 + i%4)
		m, err := a.enc(b, []byte("hello"), encOpt{n: n})
		if !v.check(err == nil, "encrypt", "first message: %v", err) {
			continue
		}
		ss, _ := a.store.GetSessionState(session.CalcStateKey(a.uid.PubKey().PublicKey32(), b.uid.PubKey().PublicKey32()))
		if !v.check(ss != nil, "state", "no session state after the first message") {
			continue
		}
		_, spriv, _ := a.store.GetSessionKey(ss.SenderSessionPub.HASH)
		sk := ss.SenderSessionPub
		if spriv != "" {
			sk.SetPrivateKey(spriv)
		}
		chain := vroot(vdh(a.uid.PubKey().PrivateKey32(), b.ki.PublicKey32()), vdh(sk.PrivateKey32(), b.ki.PublicKey32()),
			vdh(sk.PrivateKey32(), b.uid.PubKey().PublicKey32()), nil)
		if v.check(len(a.store.stored) == 1, "sender-root", "%d sessions stored", len(a.store.stored)) {
			v.checkStored("sender", a.store.stored[0], chain, int(n), names[0], names[1], a.uid.PubHash(), b.uid.PubHash(), sk.PublicKey32(), b.ki.PublicKey32(), true)
		}
		r := b.dec(m, n)
		v.check(r.err == nil && string(r.content) == "hello" && r.sender == names[0], "decrypt", "first message: %v", r.err)
		if v.check(len(b.store.stored) >= 1, "recipient-root", "no session stored") {
			v.checkStored("recipient", b.store.stored[0], chain, int(n), names[0], names[1], b.uid.PubHash(), a.uid.PubHash(), b.ki.PublicKey32(), sk.PublicKey32(), true)
		}
	}
	v.done()
}

// Later sessions chain the previous root key hash; both sides keep agreeing
// whatever the order of sending and receiving.
func TestVerifConversation(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(10, 120); i++ {
		a, b := newParty("alice@mute.berlin"), newParty("bob@mute.berlin")
		a.knows(b)
		b.knows(a)
		var toA, toB []string
		var hist string
		seq := 0
		for k := 0; k < v.n2(24, 60); k++ {
			x := v.r.Intn(4)
			if k == 0 {
				x = 0
			}
			switch x {
			case 0, 1:
				f, to := a, b
				q := &toB
				if x == 1 {
					f, to, q = b, a, &toA
				}
				seq++
				c := fmt.Sprintf("message %d", seq)
				hist += fmt.Sprintf(" %s sends %d;", f.uid.Identity(), seq)
				m, err := f.enc(to, []byte(c), encOpt{n: 5, avg: 3, sign: seq%3 == 0})
				if v.check(err == nil, "encrypt", "%v after%s", err, hist) {
					*q = append(*q, c+"\x00"+m)
				}
			default:
				q, at := &toB, b
				if x == 3 {
					q, at = &toA, a
				}
				if len(*q) == 0 {
					continue
				}
				e := bytes.SplitN([]byte((*q)[0]), []byte{0}, 2)
				*q = (*q)[1:]
				hist += fmt.Sprintf(" %s receives %q;", at.uid.Identity(), e[0])
				r := at.dec(string(e[1]), 5)
				v.check(r.err == nil && string(r.content) == string(e[0]), "decrypt", "%v after%s", r.err, hist)
			}
		}
		// every session both sides stored holds mirrored keys
		type sk struct{ rk string }
		am := map[string]stored{}
		for _, s := range a.store.stored {
			if _, ok := am[s.rootKeyHash]; !ok {
				am[s.rootKeyHash] = s
			}
		}
		for _, s := range b.store.stored {
			if o, ok := am[s.rootKeyHash]; ok && len(o.send) == len(s.recv) {
				v.check(fmt.Sprint(o.send) == fmt.Sprint(s.recv) && fmt.Sprint(o.recv) == fmt.Sprint(s.send) && o.chainKey == s.chainKey, "mirror", "the two sides of a session hold different keys after%s", hist)
			}
		}
	}
	v.done()
}

// A message whose keys coincide is refused: reflection.
func TestVerifReflection(t *testing.T) {
	v := vStart(t)
	a, b := newParty("alice@mute.berlin"), newParty("bob@mute.berlin")
	set := func(kp *uid.KeyEntry) *recStore {
		s := newRecStore()
		s.AddPublicKeyEntry(b.uid.Identity(), kp)
		return s
	}
	// recipient KeyInit key equal to the sender's identity key, or to the recipient's identity key
	for i, k := range []*uid.KeyEntry{a.uid.PubKey(), b.uid.PubKey()} {
		s := set(k)
		_, err := a.enc(b, []byte("x"), encOpt{n: 2, store: s})
		v.check(err != nil && len(s.stored) == 0, "reflection", "key agreement with coinciding keys (case %d): %v, %d sessions", i, err, len(s.stored))
	}
	// sender identity equal to recipient identity
	s := newRecStore()
	s.AddPublicKeyEntry(a.uid.Identity(), a.kiPub)
	_, err := a.enc(a, []byte("x"), encOpt{n: 2, store: s})
	v.check(err != nil && len(s.stored) == 0, "reflection", "key agreement with oneself: %v", err)
	_ = base64.Encode
	_ = cipher.RandReader
	v.done()
}
