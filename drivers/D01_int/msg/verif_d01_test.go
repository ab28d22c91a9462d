package msg

import (
	"bytes"
	"testing"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
)

// Header verification and the sender UID of a header.
func TestVerifHeaderVerify(t *testing.T) {
	v := vStart(t)
	a, b := newParty("alice@mute.berlin"), newParty("bob@mute.berlin")
	mk := func() *header {
		var s, n, r uid.KeyEntry
		s.InitDHKey(cipher.RandReader)
		n.InitDHKey(cipher.RandReader)
		r.InitDHKey(cipher.RandReader)
		h, err := newHeader(a.uid, b.uid, b.kiPub.HASH, &s, &n, &r, "", 0, 0, hashchain.TestEntry, cipher.RandReader, StatusOK)
		if err != nil {
			t.Fatal(err)
		}
		return h
	}
	v.check(mk().verify() == nil, "valid", "valid header rejected")
	fs := []func(h *header) *uid.KeyEntry{
		func(h *header) *uid.KeyEntry { return &h.SenderSessionPub },
		func(h *header) *uid.KeyEntry { return &h.SenderIdentityPub },
		func(h *header) *uid.KeyEntry { return h.NextSenderSessionPub },
		func(h *header) *uid.KeyEntry { return h.NextRecipientSessionPubSeen },
	}
	for i, f := range fs {
		for j, c := range []func(k *uid.KeyEntry){
			func(k *uid.KeyEntry) { k.FUNCTION = "ED25519" },
			func(k *uid.KeyEntry) { k.FUNCTION = "" },
			func(k *uid.KeyEntry) { k.CIPHERSUITE += " " },
			func(k *uid.KeyEntry) { k.HASH = b.uid.PubHash() },
			func(k *uid.KeyEntry) { k.HASH = "!" },
			func(k *uid.KeyEntry) { k.PUBKEY = b.uid.PubKey().PUBKEY },
			func(k *uid.KeyEntry) { k.PUBKEY = "AAAA" },
			func(k *uid.KeyEntry) { k.PUBKEY = "" },
		} {
			h := mk()
			c(f(h))
			v.check(h.verify() != nil, "entry", "header with a bad key entry %d (change %d) accepted", i, j)
		}
	}
	h := mk()
	h.NextSenderSessionPub, h.NextRecipientSessionPubSeen = nil, nil
	v.check(h.verify() == nil, "valid", "header without next keys rejected")
	// a header that carries somebody else's UID message
	for i, c := range []func(h *header){
		func(h *header) { h.SenderUID = string(b.uid.JSON()) },
		func(h *header) { h.SenderIdentity = b.uid.Identity() },
		func(h *header) { h.SenderIdentity = "" },
		func(h *header) { h.SenderUID = "{}" },
		func(h *header) { h.SenderUID = "" },
		func(h *header) { h.SenderUID = "null" },
	} {
		q := &party{uid: b.uid, store: newRecStore(), ki: b.ki}
		q.store.AddPrivateKeyEntry(b.ki)
		raw, err := forge(a, b, c)
		if !v.check(err == nil, "forge", "%v", err) {
			continue
		}
		r := q.decRaw(raw, 2, b.uid)
		v.check(r.err != nil && r.panicked == "", "sender", "forged header %d: sender %q err %v panic %q", i, r.sender, r.err, r.panicked)
		v.check(len(q.store.dels) == 0, "sender-key", "message key used up by a forged header %d", i)
	}
	raw, err := forge(a, b, func(h *header) {})
	q := &party{uid: b.uid, store: newRecStore(), ki: b.ki}
	q.store.AddPrivateKeyEntry(b.ki)
	if err == nil {
		r := q.decRaw(raw, 2, b.uid)
		v.check(r.err == nil && string(r.content) == "hello", "forge", "unchanged header: %v", r.err)
	}
	v.done()
}

// forge re-encrypts the header of a message of a to b after changing it.
func forge(a, b *party, change func(h *header)) ([]byte, error) {
	p := &party{uid: a.uid, store: newRecStore(), ki: a.ki}
	p.knows(b)
	m, err := p.enc(b, []byte("hello"), encOpt{n: 2})
	if err != nil {
		return nil, err
	}
	raw := mustB64(m)
	in := bytes.NewReader(raw)
	_, pre, err := ReadFirstOuterHeader(in)
	if err != nil {
		return nil, err
	}
	ph, err := readPreHeader(bytes.NewReader(pre))
	if err != nil {
		return nil, err
	}
	oh, err := readOuterHeader(in)
	if err != nil {
		return nil, err
	}
	var hp [32]byte
	copy(hp[:], ph.SenderHeaderPub)
	_, h, err := readHeader(&hp, []*uid.Message{b.uid}, bytes.NewReader(oh.inner))
	if err != nil {
		return nil, err
	}
	before := len(h.SenderIdentity) + len(escape(h.SenderUID))
	change(h)
	after := len(h.SenderIdentity) + len(escape(h.SenderUID))
	for after < before {
		h.Padding += "0"
		after++
	}
	if after > before {
		h.Padding = h.Padding[after-before:]
	}
	k, err := cipher.Curve25519Generate(cipher.RandReader)
	if err != nil {
		return nil, err
	}
	var out bytes.Buffer
	var buf bytes.Buffer
	if err := newPreHeader(k.PublicKey()[:]).write(&buf); err != nil {
		return nil, err
	}
	if err := newOuterHeader(preHeaderPacket, 0, buf.Bytes()).write(&out, true); err != nil {
		return nil, err
	}
	np, err := newHeaderPacket(h, b.uid.PubKey().PublicKey32(), k.PrivateKey(), cipher.RandReader)
	if err != nil {
		return nil, err
	}
	var b2 bytes.Buffer
	if err := np.write(&b2); err != nil {
		return nil, err
	}
	if err := newOuterHeader(encryptedHeader, 1, b2.Bytes()).write(&out, true); err != nil {
		return nil, err
	}
	rest := make([]byte, in.Len())
	in.Read(rest)
	out.Write(rest)
	return out.Bytes(), nil
}

// escape: length of s inside a JSON string
func escape(s string) string {
	r := ""
	for _, c := range s {
		if c == '"' || c == '\\' {
			r += "\\"
		}
		r += string(c)
	}
	return r
}
