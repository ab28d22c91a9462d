package msg

import (
	"bytes"
	"strings"
	"testing"

	"github.com/mutecomm/mute/msg/session"
)

// Every message has the same length on the wire.
func TestVerifSize(t *testing.T) {
	v := vStart(t)
	var lens []int
	for i := 0; i < 70; i++ {
		lens = append(lens, i, MaxContentLength-i)
	}
	for i := 0; i < v.n2(60, 1500); i++ {
		lens = append(lens, v.r.Intn(MaxContentLength+1))
	}
	ids := []string{"alice@mute.berlin", "abc@d", strings.Repeat("lp", 32) + "@" + strings.Repeat("x", 185) + ".one"}
	a, b := newParty(ids[0]), newParty("bob@mute.berlin")
	a.knows(b)
	for i, n := range lens {
		if i%50 == 49 {
			a = newParty(ids[(i/50)%len(ids)])
			a.knows(b)
		}
		o := encOpt{n: 50, sign: i%2 == 0, avg: uint(1 + i%5), nym: strings.Repeat("n", (i*37)%400)}
		if i%11 == 10 {
			o.status = StatusError
		}
		content := v.bytes(n)
		m, err := a.enc(b, content, o)
		if !v.check(err == nil, "encrypt", "%d bytes (signed %v): %v", n, o.sign, err) {
			continue
		}
		v.check(len(m) == EncodedMsgSize && len(m) == 65536, "size", "%d bytes of content give a message of %d bytes (signed %v)", n, len(m), o.sign)
		if i%3 == 0 || n > MaxContentLength-3 {
			q := b
			r := q.dec(m, 50)
			want := content
			if o.status != StatusOK {
				want = nil
			}
			v.check(r.err == nil && bytes.Equal(r.content, want), "roundtrip", "%d bytes of content (signed %v): %v", n, o.sign, r.err)
		}
	}
	// session states with counters of every width and with prepared next sessions
	sk := session.CalcStateKey(a.uid.PubKey().PublicKey32(), b.uid.PubKey().PublicKey32())
	cnt := uint64(1)
	for i := 0; i < 40; i++ {
		st, err := a.store.GetSessionState(sk)
		if err != nil || st == nil {
			v.fail("state", "no session state after a message: %v", err)
			break
		}
		s2 := *st
		s2.SenderSessionCount = cnt - uint64(i%2)
		if i%2 == 1 {
			cnt *= 10
		}
		if i%3 == 1 {
			s2.NextSenderSessionPub = a.kiPub
		}
		if i%5 == 1 {
			s2.NextRecipientSessionPubSeen = b.kiPub
		}
		a.store.SetSessionState(sk, &s2)
		m, err := a.enc(b, v.bytes(i*17), encOpt{n: 50, sign: i%2 == 0, avg: 1000000, nym: strings.Repeat("n", i*40)})
		v.check(err == nil && len(m) == 65536, "state-size", "message of %d bytes with session count %d: %v", len(m), s2.SenderSessionCount, err)
	}
	for _, n := range []int{MaxContentLength + 1, MaxContentLength + 2, MaxContentLength + 77, 65535, 65536, 70000} {
		for _, s := range []bool{false, true} {
			m, err := a.enc(b, make([]byte, n), encOpt{n: 50, sign: s})
			v.check(err != nil && len(m) == 0, "too-long", "%d bytes of content accepted (signed %v)", n, s)
		}
	}
	v.done()
}
