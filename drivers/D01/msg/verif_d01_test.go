package msg

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"
	"errors"
	"testing"

	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/uid"
)

func (q *party) fresh() *party {
	s := newRecStore()
	s.AddPrivateKeyEntry(q.ki)
	return &party{uid: q.uid, store: s, ki: q.ki, kiPub: q.kiPub}
}

// packets: offsets of the outer headers of a raw message
func packets(raw []byte) (offs []int) {
	for o := 0; o+7 <= len(raw); {
		offs = append(offs, o)
		o += 7 + int(binary.BigEndian.Uint16(raw[o+1:]))
	}
	return
}

// Any change to a message makes Decrypt fail, without a panic and without
// using up the message key.
func TestVerifTamper(t *testing.T) {
	v := vStart(t)
	for _, sign := range []bool{false, true} {
		a, b := newParty("alice@mute.berlin"), newParty("bob@mute.berlin")
		a.knows(b)
		content := []byte("the quick brown fox")
		m, err := a.enc(b, content, encOpt{n: 2, sign: sign})
		if !v.check(err == nil, "encrypt", "%v", err) {
			continue
		}
		raw := mustB64(m)
		r := b.fresh().decRaw(raw, 2, b.uid)
		v.check(r.err == nil && bytes.Equal(r.content, content) && r.sender == a.uid.Identity() && (r.sig != "") == sign, "decrypt", "untampered message: %v", r.err)
		if sign && r.err == nil {
			sg, _ := base64.Decode(r.sig)
			h := vsha(content)
			v.check(ed25519.Verify(a.uid.PublicSigKey32()[:], h, sg), "signature", "returned signature does not verify")
		}
		try := func(key string, bad []byte, what string, pos int) {
			q := b.fresh()
			r := q.decRaw(bad, 2, b.uid)
			v.check(r.panicked == "", "panic", "panic %s on a message with %s at byte %d (signed: %v)", r.panicked, what, pos, sign)
			v.check(r.err != nil, key, "accepted a message with %s at byte %d (signed: %v)", what, pos, sign)
			v.check(len(q.store.dels) == 0, key+"-key", "used up a message key on a message with %s at byte %d", what, pos)
		}
		var pos []int
		offs := packets(raw)
		for _, o := range offs {
			for j := 0; j < 7; j++ {
				pos = append(pos, o+j)
			}
			for j := 0; j < v.n2(10, 60) && o+7+j < len(raw); j++ {
				pos = append(pos, o+7+j)
			}
			pos = append(pos, o-1)
		}
		pos = append(pos, len(raw)-1)
		for i := 0; i < v.n2(120, 1500); i++ {
			pos = append(pos, v.r.Intn(len(raw)))
		}
		for _, p := range pos {
			if p < 0 || p >= len(raw) {
				continue
			}
			bad := append([]byte(nil), raw...)
			bad[p] ^= 1 << uint(v.r.Intn(7)) // not the top bit, which curve25519 ignores in a key
			try("tamper", bad, "a flipped bit", p)
		}
		for _, o := range append(append([]int(nil), offs...), len(raw)-1, len(raw)-64, 1, 3, 40) {
			try("truncate", raw[:o], "its end cut", o)
		}
		// packets removed, repeated and swapped
		for i := range offs {
			end := len(raw)
			if i+1 < len(offs) {
				end = offs[i+1]
			}
			try("drop", append(append([]byte(nil), raw[:offs[i]]...), raw[end:]...), "a packet removed", offs[i])
			if end == len(raw) {
				continue // what follows the HMAC packet is not read
			}
			try("repeat", append(append(append([]byte(nil), raw[:end]...), raw[offs[i]:end]...), raw[end:]...), "a packet repeated", offs[i])
			cut := append([]byte(nil), raw...)
			binary.BigEndian.PutUint16(cut[offs[i]+1:], 0)
			try("empty", append(append([]byte(nil), cut[:offs[i]+7]...), cut[end:]...), "an emptied packet", offs[i])
		}
		// somebody else cannot read it
		c := newParty("carol@mute.berlin")
		r = c.decRaw(raw, 2, c.uid)
		v.check(r.err != nil && r.panicked == "", "other", "a third party decrypted the message")
		// with several identities the right one is found
		q := b.fresh()
		r = q.decRaw(raw, 2, c.uid, b.uid, a.uid)
		v.check(r.err == nil && bytes.Equal(r.content, content), "identities", "message not found among several identities: %v", r.err)
	}
	v.done()
}

// Parts of two messages do not combine.
func TestVerifSplice(t *testing.T) {
	v := vStart(t)
	a, b := newParty("alice@mute.berlin"), newParty("bob@mute.berlin")
	a.knows(b)
	m1, e1 := a.enc(b, []byte("first"), encOpt{n: 4, sign: true, avg: 1 << 30})
	m2, e2 := a.enc(b, []byte("other"), encOpt{n: 4, sign: true, avg: 1 << 30})
	if v.check(e1 == nil && e2 == nil, "encrypt", "%v %v", e1, e2) {
		r1, r2 := mustB64(m1), mustB64(m2)
		o1, o2 := packets(r1), packets(r2)
		for i := 1; i < len(o1) && i < len(o2); i++ {
			for _, bad := range [][]byte{append(append([]byte(nil), r1[:o1[i]]...), r2[o2[i]:]...), append(append([]byte(nil), r2[:o2[i]]...), r1[o1[i]:]...)} {
				q := b.fresh()
				r := q.decRaw(bad, 4, b.uid)
				v.check(r.err != nil && r.panicked == "", "splice", "a message spliced from two at packet %d was accepted", i)
			}
		}
	}
	v.done()
}

// A sender cannot claim an identity its UID message does not have.
func TestVerifSender(t *testing.T) {
	v := vStart(t)
	for _, sign := range []bool{false, true} {
		a, b, c := newParty("alice@mute.berlin"), newParty("bob@mute.berlin"), newParty("carol@mute.berlin")
		c.knows(b)
		forged := *c.uid
		forged.UIDContent.IDENTITY = a.uid.Identity()
		p := &party{uid: &forged, store: c.store, ki: c.ki, kiPub: c.kiPub}
		m, err := p.enc(b, []byte("I am alice"), encOpt{n: 2})
		if v.check(err == nil, "encrypt", "%v", err) {
			r := b.fresh().decRaw(mustB64(m), 2, b.uid)
			v.check(r.err != nil && r.panicked == "", "sender", "a UID message with a changed identity was accepted as %q (panic %q)", r.sender, r.panicked)
		}
		// a broken signature key must not crash the recipient
		for _, k := range []string{"", "AAAA", "!", c.uid.UIDContent.SIGKEY.PUBKEY + "AAAA"} {
			bad := *c.uid
			bad.UIDContent.SIGKEY.PUBKEY = k
			c.store = newRecStore()
			c.knows(b)
			p := &party{uid: &bad, store: c.store, ki: c.ki, kiPub: c.kiPub}
			m, err := p.enc(b, []byte("x"), encOpt{n: 2})
			if err != nil {
				continue
			}
			r := b.fresh().decRaw(mustB64(m), 2, b.uid)
			v.check(r.err != nil && r.panicked == "", "sender-key", "signature key %q: err %v, panic %q", k, r.err, r.panicked)
		}
		_ = sign
	}
	v.done()
}

// failingStore fails the k-th time the session state is written.
type failingStore struct {
	*recStore
	left int
}

func (s *failingStore) SetSessionState(k string, st *session.State) error {
	s.left--
	if s.left < 0 {
		return errors.New("disk full")
	}
	return s.recStore.SetSessionState(k, st)
}

// A crash between storing a session and its state does not lock out the peer.
func TestVerifLostState(t *testing.T) {
	v := vStart(t)
	a, b := newParty("alice@mute.berlin"), newParty("bob@mute.berlin")
	a.knows(b)
	m, err := a.enc(b, []byte("x"), encOpt{n: 2})
	if v.check(err == nil, "encrypt", "%v", err) {
		raw := mustB64(m)
		q := b.fresh()
		var w bytes.Buffer
		in := bytes.NewReader(raw)
		_, pre, _ := ReadFirstOuterHeader(in)
		p, s := v.panics(func() {
			Decrypt(&DecryptArgs{Writer: &w, Identities: []*uid.Message{b.uid}, PreHeader: pre, Reader: in, NumOfKeys: 2, Rand: &vReader{b: v.bytes(4096)}, KeyStore: &failingStore{recStore: q.store}})
		})
		v.check(!p, "lost-state", "panic %s when the session state cannot be written", s)
		r := q.decRaw(raw, 2, b.uid)
		v.check(r.panicked == "", "lost-state", "panic %s after a session state that could not be written", r.panicked)
	}
	v.done()
}
