package packetproto

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/asn1"
	"testing"

	"github.com/mutecomm/mute/serviceguard/common/keypool"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/serviceguard/common/token"
	"github.com/mutecomm/mute/serviceguard/common/types"
	"github.com/ronperry/cryptoedge/eccutil"
	"github.com/ronperry/cryptoedge/jjm"
)

// vGuard is a service guard: it issues keys, parameters and blind signatures.
type vGuard struct {
	pub  [32]byte
	priv [64]byte
	gen  *signkeys.KeyGenerator
	key  *signkeys.KeyPair
	srv  *jjm.GenericBlindingServer
	priP jjm.BlindingParamServer
}

func newGuard(v *vT, usage string) *vGuard {
	p, s, _ := ed25519.GenerateKey(v.r)
	g := new(vGuard)
	copy(g.pub[:], p)
	copy(g.priv[:], s)
	g.gen = signkeys.New(Curve, Rand, HashFunc)
	g.gen.PrivateKey, g.gen.PublicKey, g.gen.Usage = &g.priv, &g.pub, usage
	g.newKey()
	return g
}

func (g *vGuard) newKey() {
	g.key, _ = g.gen.GenKey()
	g.srv = jjm.NewGenericBlindingServer(g.key.PrivateKey, &g.key.PublicKey.PublicKey, eccutil.SetCurve(Curve, Rand, HashFunc))
}

func (g *vGuard) params(canReissue bool) []byte {
	c, s, err := g.srv.GetParams()
	if err != nil {
		panic(err)
	}
	g.priP = s.(jjm.BlindingParamServer)
	pk, _ := g.key.PublicKey.Marshal()
	m, err := types.Params{PublicKey: pk, PublicParams: c.(jjm.BlindingParamClient), PrivateParams: []byte("private"), CanReissue: canReissue}.Marshal()
	if err != nil {
		panic(err)
	}
	return m
}

func (g *vGuard) sign(blind []byte) ([]byte, error) {
	m, err := jjm.NewBlindMessage(&g.key.PublicKey.PublicKey).Unmarshal(blind)
	if err != nil {
		return nil, err
	}
	s, err := g.srv.Sign(g.priP, m.(jjm.BlindMessage))
	if err != nil {
		return nil, err
	}
	return s.Marshal()
}

// vSigned: whether tok is signed by key.
func vSigned(tok *token.Token, key *signkeys.PublicKey) bool {
	c := jjm.NewGenericBlindingClient(&key.PublicKey, eccutil.SetCurve(Curve, Rand, HashFunc))
	sig, g := jjm.NewClearSignature(&key.PublicKey), tok.GetSignature()
	sig.PointR, sig.ScalarR, sig.ScalarS = g.PointR, g.ScalarR, g.ScalarS
	ok, err := c.Verify(sig, jjm.NewClearMessage(tok.Hash()))
	return ok && err == nil
}

func vImage(call byte, parts ...[]byte) []byte {
	var out []byte
	for i, p := range parts {
		if i == 0 {
			p = append([]byte{0, 0, 0, call, 0, 0, 0, 0}, p...)
		}
		h := sha256.Sum256(p)
		out = append(out, h[:]...)
	}
	return out
}

func TestVerifPacketproto(t *testing.T) {
	v := vStart(t)
	for k := 0; k < v.n2(10, 150); k++ {
		guard := newGuard(v, "usage")
		other := newGuard(v, "usage")
		usage2 := newGuard(v, "usage")
		usage2.pub, usage2.priv = guard.pub, guard.priv
		usage2.gen.PublicKey, usage2.gen.PrivateKey, usage2.gen.Usage = &guard.pub, &guard.priv, "another usage"
		usage2.newKey()
		c, err := New(nil)
		if err != nil {
			t.Fatal(err)
		}
		c.AddVerifyKey(&guard.pub)
		c.AddVerifyKey(&other.pub)
		type own struct {
			pub  *[32]byte
			priv *[64]byte
		}
		newOwner := func() own {
			if v.r.Intn(2) == 0 {
				return own{}
			}
			p, s, _ := ed25519.GenerateKey(v.r)
			o := own{new([32]byte), new([64]byte)}
			copy(o.pub[:], p)
			copy(o.priv[:], s)
			return o
		}
		// first token: issued without a reissue call
		o := newOwner()
		params := guard.params(true)
		pk, pub, pp, can, err := types.UnmarshalParams(params)
		v.check(err == nil && pk.KeyID == guard.key.PublicKey.KeyID && string(pp) == "private" && can, "params", "%v", err)
		if _, err := c.Keypool.LoadKey(pk); err != nil {
			v.fail("load", "%v", err)
		}
		b, f, tok, err := c.NewToken(pk, pub, o.pub)
		if !v.check(err == nil, "newtoken", "%v", err) {
			continue
		}
		v.check(bytes.Equal(tok.KeyID, pk.KeyID[:]) && tok.Flag == (o.pub != nil) && (o.pub == nil || bytes.Equal(tok.Owner, o.pub[:])), "newtoken-fields", "%+v", tok)
		bm, _ := b.Marshal()
		fm, _ := f.Marshal()
		tm, _ := tok.Marshal()
		pm, _ := pk.Marshal()
		local := &types.ReissuePacketPrivate{PublicKey: pm, Factors: fm, Token: tm}
		sig, err := guard.sign(bm)
		if !v.check(err == nil, "sign", "blind message not signable: %v", err) {
			continue
		}
		cur := v.unblind(c, local, sig, pk)
		if cur == nil {
			continue
		}
		for gen := 0; gen < 3; gen++ {
			// spend packet
			sp, err := c.Spend(cur, o.priv)
			s := new(types.SpendPacket)
			if v.check(err == nil, "spend", "%v", err) {
				_, err := asn1.Unmarshal(sp, s)
				v.check(err == nil && s.CallType == 1 && bytes.Equal(s.Token, cur), "spend-fields", "%v %+v", err, s)
				if o.pub == nil {
					v.check(bytes.Equal(s.Signature, []byte{0}) && s.Verify(nil) == nil, "spend-unsigned", "%+v", s)
				} else {
					v.check(ed25519.Verify(o.pub[:], vImage(1, cur), s.Signature) && s.Verify(o.pub) == nil && s.Verify(nil) != nil, "spend-signed", "%+v", s)
				}
			}
			// refused requests
			if gen == 1 {
				guard.newKey()
			}
			n := newOwner()
			for _, g := range []*vGuard{other, usage2} {
				r, l, err := c.Reissue(cur, o.priv, n.pub, g.params(true))
				v.check(r == nil && l == nil && err == ErrParamMismatch, "mismatch", "parameters of another guard or usage: %v", err)
			}
			params := guard.params(gen != 2)
			if o.pub != nil {
				r, l, err := c.Reissue(cur, nil, n.pub, params)
				v.check(r == nil && l == nil && err == ErrMissingSigner, "missing-signer", "%v", err)
			}
			for i := 0; i < 5; i++ {
				bad := append([]byte{}, params...)
				bad = bad[:v.r.Intn(len(bad))]
				v.noPanic("reissue-panic", func() {
					_, _, err := c.Reissue(cur, o.priv, n.pub, bad)
					v.check(err != nil, "truncated-params", "%x", bad)
					_, _, err = c.Reissue(cur[:v.r.Intn(len(cur))], o.priv, n.pub, params)
					v.check(err != nil, "truncated-token", "")
				}, "%x", bad)
			}
			fpk := guard.key.PublicKey
			fpk.Expire++ // no longer signed
			fm, _ := fpk.Marshal()
			var pr types.Params
			asn1.Unmarshal(params, &pr)
			pr.PublicKey = fm
			fparams, _ := pr.Marshal()
			_, _, err = c.Reissue(cur, o.priv, n.pub, fparams)
			v.check(err == keypool.ErrBadSigner, "forged-key", "%v", err)
			// the request
			saved := 0
			c.Keypool.WriteKeyCallback = func(id []byte, u string, m []byte) error { saved++; return nil }
			_, known := c.Keypool.Lookup(guard.key.PublicKey.KeyID)
			r, l, err := c.Reissue(cur, o.priv, n.pub, params)
			if !v.check(err == nil && r != nil && l != nil, "reissue", "%v", err) {
				break
			}
			v.check((saved == 1) == (known != nil), "save-key", "saved %d times", saved)
			_, lerr := c.Keypool.Lookup(guard.key.PublicKey.KeyID)
			v.check(lerr == nil, "key-known", "%v", lerr)
			p, err := new(types.ReissuePacket).Unmarshal(r)
			if !v.check(err == nil && p.CallType == 0 && bytes.Equal(p.Token, cur) && bytes.Equal(p.Params, params), "reissue-fields", "%v %+v", err, p) {
				break
			}
			if o.pub == nil {
				v.check(bytes.Equal(p.Signature, []byte{0}) && p.Verify(nil) == nil, "reissue-unsigned", "%+v", p)
			} else {
				v.check(ed25519.Verify(o.pub[:], vImage(0, p.Token, p.BlindToken, p.Params), p.Signature) && p.Verify(o.pub) == nil, "reissue-signed", "%+v", p)
			}
			h := sha256.Sum256(vImage(0, p.Token, p.BlindToken, p.Params))
			km, _ := guard.key.PublicKey.Marshal()
			v.check(bytes.Equal(l.RequestHash, h[:]) && bytes.Equal(l.Request, r) && bytes.Equal(l.PublicKey, km) && l.CanReissue == (gen != 2), "local", "%+v", l)
			nt, err := token.Unmarshal(l.Token)
			v.check(err == nil && bytes.Equal(nt.KeyID, guard.key.PublicKey.KeyID[:]) && nt.Flag == (n.pub != nil) && (n.pub == nil || bytes.Equal(nt.Owner, n.pub[:])), "local-token", "%+v %v", nt, err)
			ot, _ := token.Unmarshal(cur)
			v.check(!bytes.Equal(ot.Nonce, nt.Nonce), "nonce", "same nonce")
			lm, err := l.Marshal()
			l2, err2 := new(types.ReissuePacketPrivate).Unmarshal(lm)
			if !v.check(err == nil && err2 == nil, "local-codec", "%v %v", err, err2) {
				break
			}
			sig, err := guard.sign(p.BlindToken)
			if !v.check(err == nil, "reissue-sign", "%v", err) {
				break
			}
			cur = v.unblind(c, l2, sig, &guard.key.PublicKey)
			if cur == nil {
				break
			}
			o = n
		}
	}
	v.done()
}

// unblind the signature of the guard; changed signatures are refused.
func (v *vT) unblind(c *Client, local *types.ReissuePacketPrivate, sig []byte, key *signkeys.PublicKey) []byte {
	for i := 0; i < 6; i++ {
		bad := append([]byte{}, sig...)
		if i < 2 {
			bad = bad[:v.r.Intn(len(bad))]
		} else {
			bad[v.r.Intn(len(bad))] ^= 1 << uint(v.r.Intn(8))
		}
		v.noPanic("unblind-panic", func() {
			m, err := c.Unblind(local, bad)
			if err == nil {
				tk, err := token.Unmarshal(m)
				v.check(err == nil && vSigned(tk, key), "bad-signature", "signature %x accepted instead of %x", bad, sig)
			} else {
				v.check(m == nil, "bad-signature-result", "error with a token")
			}
		}, "%x", bad)
	}
	m, err := c.Unblind(local, sig)
	if !v.check(err == nil, "unblind", "%v", err) {
		return nil
	}
	tk, err := token.Unmarshal(m)
	want, _ := token.Unmarshal(local.Token)
	if !v.check(err == nil && vSigned(tk, key), "token-signature", "the token is not signed by %x", key.KeyID) {
		return nil
	}
	v.check(bytes.Equal(tk.Hash(), want.Hash()), "token-content", "%+v want %+v", tk, want)
	// a token is not signed by another key, or with other content
	tk.Nonce[0] ^= 1
	v.check(!vSigned(tk, key), "forged-token", "%+v", tk)
	return m
}
