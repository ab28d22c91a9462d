package client

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"strings"
	"testing"
	"time"

	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/serviceguard/common/token"
	"github.com/mutecomm/mute/util/times"
)

func TestVerifVerify(t *testing.T) {
	v := vStart(t)
	w, stop := newWorld(v.r)
	defer stop()
	good := w.guard("usage")
	// a key about to expire
	soon := w.guard("usage")
	soon.gen.ExpireTime = 2
	soonKey := soon.newKey()
	selfPub, self := vKeyPair(v.r)
	expiring := soon.token(soonKey, selfPub)
	ce := vClient(newStore(self), self)
	if soonKey.key.PublicKey.Expire > times.Now()+1 {
		e, err := ce.Verify(expiring)
		v.check(err == nil && e.Expire == soonKey.key.PublicKey.Expire, "before-expiry", "%v", err)
	}
	// an issuer nobody vouches for
	rogue := w.guard("usage")
	w.list = w.list[:len(w.list)-1]
	elseUsage := w.guard("another usage")
	for k := 0; k < v.n2(12, 200); k++ {
		selfPub, self := vKeyPair(v.r)
		otherPub, _ := vKeyPair(v.r)
		st := newStore(self)
		c := vClient(st, self)
		if k%3 == 0 {
			good.newKey()
		}
		key := good.keys[v.r.Intn(len(good.keys))]
		// bad counts as a token that must not be accepted: neither verified nor stored
		bad := func(name string, tok []byte) {
			n := len(st.tokens)
			var e *TokenEntry
			var err error
			v.noPanic(name+"-panic", func() { e, err = c.Verify(tok) }, "%x", tok)
			v.check(err != nil && e == nil, name, "token %x verified: %+v", tok, e)
			v.noPanic(name+"-panic", func() { err = c.ReceiveToken("usage", tok) }, "%x", tok)
			v.check(err != nil && c.LastError != nil, name+"-receive", "token %x received (last error %v)", tok, c.LastError)
			v.check(len(st.tokens) == n, name+"-store", "the wallet changed")
		}
		for _, o := range []*[32]byte{selfPub, otherPub, nil} {
			tok := good.token(key, o)
			e, err := c.Verify(tok)
			tk, _ := token.Unmarshal(tok)
			if !v.check(err == nil && e != nil, "verify", "%v %v", err, c.LastError) {
				continue
			}
			v.check(bytes.Equal(e.Hash, tk.Hash()) && bytes.Equal(e.Token, tok) && e.Usage == "usage" && e.Expire == key.key.PublicKey.Expire &&
				(o == nil) == (e.OwnerPubKey == nil) && (o == nil || *e.OwnerPubKey == *o), "entry", "%+v", e)
			v.check(e.OwnerPrivKey == nil && e.Params == nil && !e.CanReissue && e.ServerPacket == nil && e.BlindingFactors == nil, "entry-rest", "%+v", e)
			// received: only for us, with the right usage, once
			n := len(st.tokens)
			v.check(c.ReceiveToken("usage2", tok) != nil && len(st.tokens) == n, "usage", "token of another usage received")
			var rerr error
			v.noPanic("receive-panic", func() { rerr = c.ReceiveToken("usage", tok) }, "owner %v", o)
			if o != selfPub {
				v.check(rerr != nil && len(st.tokens) == n, "owner", "token of %v received", o)
			} else {
				s := st.tokens[string(e.Hash)]
				v.check(rerr == nil && len(st.tokens) == n+1 && s != nil, "receive", "%v %v", rerr, c.LastError)
				if s != nil {
					v.check(bytes.Equal(s.Token, tok) && s.Usage == "usage" && s.Expire == e.Expire && *s.OwnerPubKey == *o, "stored", "%+v", s)
					s.Params = []byte("kept")
				}
				v.check(c.ReceiveToken("usage", tok) != nil, "twice", "token received twice")
				v.check(s == nil || string(st.tokens[string(e.Hash)].Params) == "kept", "twice-store", "the entry was overwritten")
				// a wallet that cannot store it
				st.before = func(op string) error {
					if op == "SetToken" {
						return ErrFatal
					}
					return nil
				}
				v.check(c.ReceiveToken("usage", good.token(key, selfPub)) != nil, "store-error", "a token that could not be stored was received")
				st.before = nil
			}
			// changed tokens
			for i := 0; i < 10; i++ {
				q := *tk
				f := []*[]byte{&q.KeyID, &q.Nonce, &q.Owner, &q.PointRX, &q.PointRY, &q.ScalarR, &q.ScalarS}
				if x := v.r.Intn(len(f) + 1); x == len(f) {
					q.Flag = !q.Flag
				} else {
					b := append([]byte{}, *f[x]...)
					b[v.r.Intn(len(b))] ^= 1 << uint(v.r.Intn(8))
					*f[x] = b
				}
				m, _ := q.Marshal()
				bad("forged", m)
			}
			for i := 0; i < 10; i++ {
				m := append([]byte{}, tok...)
				if i < 5 {
					m = m[:v.r.Intn(len(m))]
				} else {
					m[v.r.Intn(len(m))] ^= 1 << uint(v.r.Intn(8))
				}
				var err error
				v.noPanic("damaged-panic", func() { _, err = c.Verify(m) }, "%x", m)
				if err == nil {
					// some other encoding of the same token
					q, e := token.Unmarshal(m)
					v.check(e == nil && vSigned(q, &key.key.PublicKey), "damaged", "%x", m)
				}
			}
			// the signature of one token on another
			q := *tk
			o2, _ := token.Unmarshal(good.token(key, o))
			q.Nonce, q.Owner = o2.Nonce, o2.Owner
			m, _ := q.Marshal()
			bad("swapped", m)
		}
		bad("empty", nil)
		// the parts of a signed token cut differently: the hash is the same, the owner is not
		if ot, err := token.Unmarshal(good.token(key, otherPub)); err == nil {
			all := append(append([]byte{}, ot.Nonce...), ot.Owner...)
			for cut := 0; cut <= len(all); cut++ {
				q := *ot
				q.Nonce, q.Owner = all[:cut], all[cut:]
				if m, _ := q.Marshal(); cut != 16 {
					bad("recut", m)
				}
			}
		}
		// one made to be read in two ways
		if m := good.recut(key, selfPub, otherPub); m != nil {
			bad("two-owners", m)
		}
		// an expired key of an issuer nobody vouches for
		for _, g := range []*vGuard{rogue, good} {
			old := g.gen.ExpireTime
			g.gen.ExpireTime = -10
			k, err := g.gen.GenKey()
			g.gen.ExpireTime = old
			if err == nil {
				w.keys[hex.EncodeToString(k.PublicKey.KeyID[:])], _ = k.PublicKey.Marshal()
				pk, err := c.getPubKey(k.PublicKey.KeyID)
				v.check(err != nil && pk == nil, "expired-key", "%v %v", pk, err)
			}
		}
		// a key with which any token verifies must not get in by another key ID
		bad("rogue", rogue.token(rogue.cur(), selfPub))
		rt, _ := token.Unmarshal(rogue.token(rogue.cur(), selfPub))
		rt.KeyID = key.key.PublicKey.KeyID[:]
		m, _ := rt.Marshal()
		bad("rogue-keyid", m)
		// another usage
		et := elseUsage.token(elseUsage.cur(), selfPub)
		e, err := c.Verify(et)
		v.check(err == nil && e.Usage == "another usage", "usage-of-key", "%v", err)
		v.check(c.ReceiveToken("usage", et) != nil, "usage-receive", "usage of the key not checked")
		// the lookup server answers with another key
		fresh := vClient(newStore(self), self)
		vk := good.newKey()
		vt := good.token(vk, selfPub)
		km, _ := key.key.PublicKey.Marshal()
		ek, _ := elseUsage.cur().key.PublicKey.Marshal()
		fk := vk.key.PublicKey
		fk.Expire += 1000
		fm, _ := fk.Marshal()
		for _, ans := range []interface{}{obj{"Key": b64(km)}, obj{"Key": b64(ek)}, obj{"Key": b64(fm)}, obj{"Key": 5}, obj{}, nil, obj{"Key": "%"}, obj{"Key": nil}, obj{"Key": b64(km[:20])}, obj{"Key": ""}} {
			ans := ans
			w.lookupKey = func(string) interface{} { return ans }
			v.noPanic("lookup-panic", func() {
				e, err := fresh.Verify(vt)
				v.check(err != nil && e == nil, "lookup", "verified with the reply %v", ans)
			}, "%v", ans)
		}
		w.lookupKey = nil
		_, err = fresh.Verify(vt)
		v.check(err == nil, "lookup-recover", "%v %v", err, fresh.LastError)
	}
	// after the key has expired, no token of it is accepted, by who knows the key nor by who does not
	for soonKey.key.PublicKey.Expire >= times.Now() {
		time.Sleep(100 * time.Millisecond)
	}
	for _, c := range []*Client{ce, vClient(newStore(self), self)} {
		e, err := c.Verify(expiring)
		v.check(err != nil && e == nil, "expired", "%+v", e)
		v.check(c.ReceiveToken("usage", expiring) != nil, "expired-receive", "")
	}
	v.done()
}

// Which issuers the client trusts.
func TestVerifTrust(t *testing.T) {
	v := vStart(t)
	w, stop := newWorld(v.r)
	defer stop()
	a, b := w.guard("usage"), w.guard("usage")
	list := func(keys ...[]byte) string {
		var l []string
		for _, k := range keys {
			l = append(l, hex.EncodeToString(k))
		}
		return strings.Join(l, ", ")
	}
	root := hex.EncodeToString(TrustRoot[:])
	_, evil, _ := ed25519.GenerateKey(v.r)
	evilPub := hex.EncodeToString(evil.Public().(ed25519.PublicKey))
	sign := func(k ed25519.PrivateKey, s string) string { return hex.EncodeToString(ed25519.Sign(k, []byte(s))) }
	la, lab := list(a.pub[:]), list(a.pub[:], b.pub[:])
	for i, x := range []struct {
		ans  interface{}
		a, b bool
	}{
		{obj{"PublicKey": root, "Signature": sign(*w.trust, lab), "KeyList": lab}, true, true},
		{obj{"PublicKey": root, "Signature": sign(*w.trust, la), "KeyList": la}, true, false},
		{obj{"PublicKey": root, "Signature": sign(*w.trust, la), "KeyList": lab}, false, false},
		{obj{"PublicKey": root, "Signature": sign(evil, lab), "KeyList": lab}, false, false},
		{obj{"PublicKey": evilPub, "Signature": sign(evil, lab), "KeyList": lab}, false, false},
		{obj{"PublicKey": root, "Signature": "", "KeyList": lab}, false, false},
		{obj{"PublicKey": root, "Signature": sign(*w.trust, lab)[:126], "KeyList": lab}, false, false},
		{obj{"PublicKey": root, "Signature": "xx", "KeyList": lab}, false, false},
		{obj{"PublicKey": root, "Signature": 1, "KeyList": lab}, false, false},
		{obj{"PublicKey": 1, "Signature": sign(*w.trust, lab), "KeyList": lab}, false, false},
		{obj{"PublicKey": root, "Signature": sign(*w.trust, lab), "KeyList": nil}, false, false},
		{obj{"PublicKey": root, "Signature": sign(*w.trust, "zz"), "KeyList": "zz"}, false, false},
		{obj{"PublicKey": root[:62], "Signature": sign(*w.trust, lab), "KeyList": lab}, false, false},
		{obj{}, false, false},
		{nil, false, false},
	} {
		x := x
		w.verify = func() interface{} { return x.ans }
		_, self := vKeyPair(v.r)
		var c *Client
		v.noPanic("list-panic", func() { c = vClient(newStore(self), self) }, "%d %v", i, x.ans)
		if c == nil {
			continue
		}
		for _, g := range []struct {
			g  *vGuard
			ok bool
		}{{a, x.a}, {b, x.b}} {
			_, err := c.Verify(g.g.token(g.g.cur(), nil))
			v.check((err == nil) == g.ok, "trust", "list %d %v: %v %v", i, x.ans, err, c.LastError)
		}
	}
	// any reply at all
	w.verify = nil
	for k := 0; k < v.n2(150, 2000); k++ {
		_, self := vKeyPair(v.r)
		w.fault = nil
		evilList := false
		w.fault = func(m string, r interface{}, e string) (interface{}, string, bool) {
			evilList = true
			return w.garbage(m, r), "", false
		}
		var c *Client
		v.noPanic("reply-panic", func() { c = vClient(newStore(self), self) }, "case %d", k)
		if c == nil {
			continue
		}
		rogue := w.guards[hex.EncodeToString(a.pub[:])]
		tok := rogue.token(rogue.cur(), nil)
		v.noPanic("reply-panic", func() { c.Verify(tok) }, "case %d", k)
		v.check(evilList, "asked", "the server was not asked")
	}
	w.fault = nil
	v.done()
}

var _ = signkeys.KeyIDSize
