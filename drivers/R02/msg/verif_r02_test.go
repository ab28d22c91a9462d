package msg

import (
	"fmt"
	"testing"

	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/msg/session"
)

// Message keys of a session, also past the precomputed ones: key i is derived
// from link i of one chain, no link is used twice, and both sides agree.
func TestVerifKeyChain(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(6, 40); i++ {
		a, b := newParty("alice@mute.berlin"), newParty("bob@mute.berlin")
		if i%2 == 1 {
			a, b = b, a
		}
		a.knows(b)
		n := uint64(1 + i%3)
		na, nb := a.uid.Identity(), b.uid.Identity()
		var msgs []string
		count := v.n2(9, 30)
		for k := 0; k < count; k++ {
			m, err := a.enc(b, []byte(fmt.Sprintf("m%d", k)), encOpt{n: n, avg: 1 << 30})
			if !v.check(err == nil, "encrypt", "message %d with batches of %d keys: %v", k, n, err) {
				return
			}
			msgs = append(msgs, m)
		}
		ss, _ := a.store.GetSessionState(session.CalcStateKey(a.uid.PubKey().PublicKey32(), b.uid.PubKey().PublicKey32()))
		_, spriv, _ := a.store.GetSessionKey(ss.SenderSessionPub.HASH)
		sk := ss.SenderSessionPub
		if spriv != "" {
			sk.SetPrivateKey(spriv)
		}
		chain := vroot(vdh(a.uid.PubKey().PrivateKey32(), b.ki.PublicKey32()), vdh(sk.PrivateKey32(), b.ki.PublicKey32()),
			vdh(sk.PrivateKey32(), b.uid.PubKey().PublicKey32()), nil)
		c := chain
		for j, s := range a.store.stored {
			c = v.checkStored("sender", s, c, len(s.send), na, nb, a.uid.PubHash(), b.uid.PubHash(), sk.PublicKey32(), b.ki.PublicKey32(), j == 0)
			v.check(len(s.send) == int(n), "batch", "a batch of %d keys instead of %d", len(s.send), n)
		}
		v.check(len(a.store.stored) == (count+int(n)-1)/int(n), "batches", "%d batches of %d keys for %d messages", len(a.store.stored), n, count)
		// out of order on the other side: the last message first
		order := v.r.Perm(len(msgs))
		for _, k := range order {
			r := b.dec(msgs[k], n)
			v.check(r.err == nil && string(r.content) == fmt.Sprintf("m%d", k), "decrypt", "message %d of %d, order %v, batches of %d keys: %v", k, count, order, n, r.err)
		}
		c = chain
		for j, s := range b.store.stored {
			c = v.checkStored("recipient", s, c, len(s.send), na, nb, b.uid.PubHash(), a.uid.PubHash(), b.ki.PublicKey32(), sk.PublicKey32(), j == 0)
		}
		// all keys of the session are different
		seen := map[string]bool{}
		for _, s := range a.store.stored {
			for _, k := range append(s.send, s.recv...) {
				v.check(!seen[k], "key-reuse", "a message key occurs twice")
				seen[k] = true
			}
		}
		_ = base64.Encode
	}
	v.done()
}
