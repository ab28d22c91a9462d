package msg

import (
	"fmt"
	"testing"
)

// A message is decrypted once: its key is gone afterwards, on both sides,
// whatever the order the messages arrive in.
func TestVerifReplay(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(8, 60); i++ {
		a, b := newParty("alice@mute.berlin"), newParty("bob@mute.berlin")
		a.knows(b)
		n := uint64(1 + i%4)
		var ms []string
		for k := 0; k < 6; k++ {
			m, err := a.enc(b, []byte(fmt.Sprint(k)), encOpt{n: n, avg: 1 << 30, sign: k%2 == 0})
			if !v.check(err == nil, "encrypt", "%v", err) {
				return
			}
			ms = append(ms, m)
		}
		v.check(len(a.store.dels) == 6, "sender-key", "%d sender keys deleted after 6 messages", len(a.store.dels))
		seen := map[string]bool{}
		for _, d := range a.store.dels {
			v.check(!seen[d], "sender-reuse", "two messages used the same key %s", d)
			seen[d] = true
		}
		order := v.r.Perm(6)
		for x, k := range order {
			r := b.dec(ms[k], n)
			v.check(r.err == nil && string(r.content) == fmt.Sprint(k), "decrypt", "message %d in order %v: %v", k, order, r.err)
			for _, j := range order[:x+1] {
				r := b.dec(ms[j], n)
				v.check(r.err != nil && r.panicked == "", "replay", "message %d accepted twice (order %v, batches of %d; panic %q)", j, order, n, r.panicked)
			}
		}
		v.check(len(b.store.dels) == 6, "recipient-key", "%d recipient keys deleted after 6 messages", len(b.store.dels))
	}
	v.done()
}
