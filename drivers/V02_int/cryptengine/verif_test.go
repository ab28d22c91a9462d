package cryptengine

import (
	"bytes"
	"crypto/ecdh"
	"crypto/ed25519"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/cryptengine/cache"
	"github.com/mutecomm/mute/def"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/util/times"
)

func (v *vT) odd() interface{} {
	return []interface{}{nil, "x", "", true, []interface{}{}, vObj{}, -1, 1e30, 0.5, []interface{}{nil}, vObj{"ENTRY": 1}}[v.r.Intn(11)]
}

// only the key server with the expected certificate and capabilities is used.
func TestVerifCache(t *testing.T) {
	v := vStart(t)
	w := vNewWorld()
	defer w.close()
	host, port := w.ce.keydHost, w.ce.keydPort
	for n := v.n2(40, 200); n > 0; n-- {
		c := cache.New()
		var methods []string
		for i := v.r.Intn(5); i > 0; i-- {
			methods = append(methods, vMethods[v.r.Intn(len(vMethods))])
		}
		w.caps = vObj{"METHODS": methods, "SIGPUBKEYS": []string{"k"}}
		w.ks.calls = nil
		for i := 0; i < 3; i++ {
			m := append(vMethods, "", "KeyRepository")[v.r.Intn(len(vMethods)+2)]
			has := false
			for _, x := range methods {
				has = has || x == m
			}
			cl, caps, err := c.Get("d.one", port, host, "", m)
			v.check((err == nil) == has && (cl != nil) == has && (caps != nil) == has, "cache-method", "method %q of %q: %v", m, methods, err)
			v.check(!has || fmt.Sprint(caps.METHODS) == fmt.Sprint(methods) && caps.SIGPUBKEYS[0] == "k", "cache-caps", "methods %q: %v", methods, caps)
		}
		v.check(w.ks.count("KeyRepository.Capabilities") == 1, "cache-once", "asked %d times for the capabilities", w.ks.count("KeyRepository.Capabilities"))
		c.Get("e.one", port, host, "", "")
		v.check(w.ks.count("KeyRepository.Capabilities") == 2, "cache-domain", "capabilities of another domain were not asked for")
	}
	w.caps = vObj{"METHODS": vMethods}
	c := cache.New()
	was, wasMap := def.CACert, def.ConfigMap
	defer func() { def.CACert, def.ConfigMap = was, wasMap }()
	_, _, err := c.Get("d.one", port, "", "", vMethods[0])
	v.check(err != nil, "cache-unknown", "no host and no configuration, but no error")
	addr := "https://" + net.JoinHostPort(host, port[1:]) + "/"
	def.ConfigMap = map[string]string{"keyserver.d.one": addr, "d.one": "https://127.0.0.1:1/"}
	_, _, err = c.Get("d.one", port, "", "", vMethods[0])
	v.check(err == nil, "cache-config", "configured key server: %v", err)
	_, _, err = c.Get("d.on", port, "", "", vMethods[0])
	v.check(err != nil, "cache-config-other", "domain without configuration")
	_, other := vCert(77)
	def.CACert = other
	c = cache.New()
	_, _, err = c.Get("d.one", port, host, "", vMethods[0])
	v.check(err != nil, "cache-cert", "key server with the certificate of another authority was used")
	def.CACert = nil
	_, _, err = c.Get("d.one", port, host, "", vMethods[0])
	v.check(err != nil, "cache-nocert", "no certificate, but key server was used")
	def.CACert = was
	for _, x := range []interface{}{nil, "x", 5, []interface{}{}, vObj{"METHODS": 3}, vObj{"METHODS": vMethods, "SIGPUBKEYS": "x"}} {
		c = cache.New()
		w.ks.m["KeyRepository.Capabilities"] = func(a vObj) interface{} { return vObj{"CAPABILITIES": x} }
		v.noPanic("cache-panic", func() {
			_, _, err := c.Get("d.one", port, host, "", vMethods[0])
			v.check(err != nil, "cache-odd", "capabilities %v", x)
		}, "capabilities %v", x)
	}
	v.done()
}

// registration sends the own ID and is only successful if the server signed it.
func TestVerifRegister(t *testing.T) {
	v := vStart(t)
	w := vNewWorld()
	defer w.close()
	ce := w.ce
	other, err := cipher.Ed25519Generate(cipher.RandReader)
	vMust(err)
	for n := v.n2(120, 600); n > 0; n-- {
		c := w.chain()
		id := "alice@" + c.domain
		m := vUID(id)
		cmd := "CreateUID"
		call := ce.register
		if v.r.Intn(2) == 0 {
			cmd, call = "UpdateUID", ce.update
			m, err = m.Update(cipher.RandReader)
			vMust(err)
		}
		vMust(ce.keyDB.AddPrivateUID(m))
		key := w.key
		bad := v.r.Intn(4) > 0
		fault := -1
		w.caps["SIGPUBKEYS"] = []string{vEnc(w.key.PublicKey()[:])}
		if bad {
			fault = v.r.Intn(12)
		}
		switch fault {
		case 0:
			w.caps["SIGPUBKEYS"] = []string{}
		case 1:
			key = other
		case 2:
			w.caps["SIGPUBKEYS"] = []string{vEnc(other.PublicKey()[:])}
		case 11:
			w.caps["SIGPUBKEYS"] = []string{"", "!", "AAAA"}[v.r.Intn(3):3]
		}
		var sent vObj
		w.ks.m["KeyRepository."+cmd] = func(a vObj) interface{} {
			sent = a
			x := m
			if fault == 3 {
				x = vUID(id)
			}
			jsn := x.JSON()
			hash := vSum(jsn)
			index, enc := vEncUID(jsn, hash)
			e := vEnc(vEntry(nil, id, hash, index))
			r := vReply(enc, e, 7, key)
			switch fault {
			case 4:
				r.ENTRY.HASHCHAINPOS++
			case 5:
				r.ENTRY.HASHCHAINENTRY += "A"
			case 6:
				r.SERVERSIGNATURE = ""
			case 7:
				return vObj{"UIDMessageReply": v.odd()}
			case 8:
				p := vPlain(r)
				p[[]string{"ENTRY", "SERVERSIGNATURE"}[v.r.Intn(2)]] = v.odd()
				return vObj{"UIDMessageReply": p}
			case 9:
				b := vDec(enc)
				b[v.r.Intn(32)] ^= 1
				r = vReply(vEnc(b), e, 7, key)
			case 10:
				return fmt.Errorf("refused")
			}
			return vObj{"UIDMessageReply": r}
		}
		what := fmt.Sprintf("%s, fault %d", cmd, fault)
		v.noPanic("register-panic", func() {
			err := call("Alice@"+c.domain, "tok"+fmt.Sprint(n))
			v.check((err == nil) == !bad, "register-result", "%s: %v", what, err)
			v.check(fault == 0 || sent != nil && sent["Token"] == "tok"+fmt.Sprint(n) && fmt.Sprint(sent["UIDMessage"]) == fmt.Sprint(vPlain(m)), "register-request", "%s: sent %v", what, sent)
			if !bad {
				_, r, err := ce.keyDB.GetPrivateUID(id, false)
				v.check(err == nil && r != nil && r.VerifySrvSig(m, vEnc(w.key.PublicKey()[:])) == nil, "register-stored", "%s: reply not stored: %v", what, err)
				k := len(w.ks.calls)
				v.check(call(id, "tok") != nil && len(w.ks.calls) == k, "register-twice", "%s: registered again", what)
			}
		}, "%s", what)
	}
	v.check(ce.register("nobody@d.one", "") != nil, "register-nobody", "registered an ID which does not exist")
	v.done()
}

// a generated ID is linked to the last known entry of the hash chain and is stored.
func TestVerifGenerate(t *testing.T) {
	v := vStart(t)
	w := vNewWorld()
	defer w.close()
	ce := w.ce
	for n := v.n2(30, 200); n > 0; n-- {
		c := w.chain()
		for i := v.r.Intn(4); i > 0; i-- {
			c.entries = append(c.entries, vEnc(vEntry(c.prev(), "x@"+c.domain, v.bytes(32), v.bytes(32))))
		}
		w.load(c)
		err := ce.generate("Alice@"+strings.ToUpper(c.domain), false, nil)
		if len(c.entries) == 0 {
			_, _, e := ce.keyDB.GetPrivateUID("alice@"+c.domain, true)
			v.check(err != nil && e != nil, "generate-nochain", "hash chain unknown, but ID generated")
		} else if v.check(err == nil, "generate", "chain of %d: %v", len(c.entries), err) {
			m, r, err := ce.keyDB.GetPrivateUID("alice@"+c.domain, true)
			if v.check(err == nil && r == nil, "generate-stored", "%v", err) {
				v.check(m.UIDContent.LASTENTRY == c.entries[len(c.entries)-1] && m.UIDContent.MSGCOUNT == 0 && m.Check() == nil && m.VerifySelfSig() == nil, "generate-id", "ID %s", m.JSON())
				v.check(bytes.Equal(m2pub(m.PrivateSigKey64()[:]), vDec(m.SigPubKey())), "generate-key", "private signature key does not belong to the ID")
			}
			// the update replaces the key and is signed with the previous one
			vMust(ce.genupdate("alice@" + c.domain))
			u, _, err := ce.keyDB.GetPrivateUID("alice@"+c.domain, true)
			v.check(err == nil && u.UIDContent.MSGCOUNT == 1 && u.VerifyUserSig(m) == nil && u.VerifySelfSig() == nil && u.SigPubKey() != m.SigPubKey() && bytes.Equal(m2pub(u.PrivateSigKey64()[:]), vDec(u.SigPubKey())), "genupdate", "%v", err)
		}
		// a key server's key is written out, not stored
		f, err := os.Create(filepath.Join(w.dir, "out"))
		vMust(err)
		err = ce.generate("keyserver@"+c.domain, true, f)
		v.check(err == nil, "generate-server", "%v", err)
		_, _, e := ce.keyDB.GetPrivateUID("keyserver@"+c.domain, false)
		v.check(e != nil, "generate-server-stored", "private key of key server is stored")
		f.Close()
		b, _ := os.ReadFile(filepath.Join(w.dir, "out"))
		d := json.NewDecoder(bytes.NewReader(b))
		var m uid.Message
		var k struct{ PRIVSIGKEY string }
		if v.check(d.Decode(&m) == nil && d.Decode(&k) == nil, "generate-out", "output %s", b) {
			v.check(m.VerifySelfSig() == nil && m.Identity() == "keyserver@"+c.domain && bytes.Equal(m2pub(vDec(k.PRIVSIGKEY)), vDec(m.SigPubKey())), "generate-out-key", "output %s", b)
		}
		v.check(d.Decode(&k) == io.EOF, "generate-out-more", "output %s", b)
	}
	v.check(ce.generate("nodomain", false, nil) != nil && ce.generate("a@b@c", true, nil) != nil, "generate-bad", "malformed identity")
	v.done()
}

func m2pub(priv []byte) []byte {
	if len(priv) != 64 || !bytes.Equal(ed25519.NewKeyFromSeed(priv[:32]), priv) {
		return nil
	}
	return priv[32:]
}

func m2key(m *uid.Message) *cipher.Ed25519Key {
	var k cipher.Ed25519Key
	vMust(k.SetPrivateKey(m.PrivateSigKey64()[:]))
	return &k
}

func vCanon(x interface{}) []byte {
	j, err := json.Marshal(vPlainNumber(x))
	vMust(err)
	return j
}

// own key init messages are only stored with the server's signature, and their keys work.
func TestVerifAddKeyInit(t *testing.T) {
	v := vStart(t)
	w := vNewWorld()
	defer w.close()
	ce := w.ce
	other, err := cipher.Ed25519Generate(cipher.RandReader)
	vMust(err)
	for n := v.n2(120, 600); n > 0; n-- {
		c := w.chain()
		m := vUID("alice@" + c.domain)
		vMust(ce.keyDB.AddPrivateUID(m))
		fault := -1
		if v.r.Intn(3) > 0 {
			fault = v.r.Intn(9)
		}
		w.caps["SIGPUBKEYS"] = []string{vEnc(w.key.PublicKey()[:]), vEnc(other.PublicKey()[:])}
		if fault == 0 {
			w.caps["SIGPUBKEYS"] = nil
		}
		var ki *uid.KeyInit
		var args vObj
		w.ks.m["KeyInitRepository.AddKeyInit"] = func(a vObj) interface{} {
			args = a
			l, _ := a["KeyInits"].([]interface{})
			if len(l) != 1 {
				return fmt.Errorf("not one")
			}
			j, _ := json.Marshal(l[0])
			ki, err = uid.NewJSONKeyInit(j)
			vMust(err)
			sig := vEnc(w.key.Sign(ki.JSON()))
			switch fault {
			case 1:
				sig = vEnc(other.Sign(ki.JSON()))
			case 2:
				sig = vEnc(w.key.Sign(ki.JSON()[1:]))
			case 3:
				sig = []string{"", "!", ki.SIGNATURE, vEnc(make([]byte, 64))}[v.r.Intn(4)]
			case 4:
				return vObj{"Signatures": []string{}}
			case 5:
				return vObj{"Signatures": []string{sig, sig}}
			case 6:
				x := v.odd()
				return vObj{"Signatures": x}
			case 7:
				return vObj{"Signatures": []interface{}{v.odd()}}
			case 8:
				return fmt.Errorf("refused")
			}
			return vObj{"Signatures": []string{sig}}
		}
		what := fmt.Sprintf("fault %d", fault)
		v.noPanic("addkeyinit-panic", func() {
			err := ce.addKeyInit("Alice@"+c.domain, "mix@x", "nym", "tok")
			v.check((err == nil) == (fault < 0), "addkeyinit-result", "%s: %v", what, err)
			if fault == 0 {
				return
			}
			if !v.check(ki != nil && args["SigPubKey"] == m.SigPubKey() && fmt.Sprint(args["Tokens"]) == "[tok]", "addkeyinit-request", "%s: sent %v", what, args) {
				return
			}
			v.check(ki.Verify([]string{c.domain}, m.SigPubKey()) == nil && ki.Check() == nil, "addkeyinit-sent", "%s: sent key init does not verify", what)
			sa, err := ki.SessionAnchor(m.SigPubKey())
			vMust(err)
			v.check(sa.NymAddress() == "nym" && sa.MIXADDRESS == "mix@x", "addkeyinit-anchor", "%s: %v", what, sa)
			ke, err := ce.GetPrivateKeyEntry(sa.PFKEYS[0].HASH)
			v.check((err == nil) == (fault < 0), "addkeyinit-stored", "%s: %v", what, err)
			if err == nil {
				pk, _ := ecdh.X25519().NewPrivateKey(ke.PrivateKey32()[:])
				v.check(bytes.Equal(pk.PublicKey().Bytes(), vDec(sa.PFKEYS[0].PUBKEY)) && ke.PUBKEY == sa.PFKEYS[0].PUBKEY && ke.HASH == sa.PFKEYS[0].HASH, "addkeyinit-key", "%s: stored private key does not belong to the key init", what)
			}
		}, "%s", what)
	}
	v.done()
}

// a fetched key init message is only stored if the owner of the ID signed it and it is valid.
func TestVerifFetchKeyInit(t *testing.T) {
	v := vStart(t)
	w := vNewWorld()
	defer w.close()
	ce := w.ce
	now := uint64(times.Now())
	for n := v.n2(160, 800); n > 0; n-- {
		c := w.chain()
		id := "bobby@" + c.domain
		m := vUID(id)
		old := vUID(id)
		mallory := vUID("mallory@" + c.domain)
		if v.r.Intn(2) == 0 {
			vMust(ce.keyDB.AddPublicUID(old, 1))
		}
		vMust(ce.keyDB.AddPublicUID(m, 2))
		vMust(ce.keyDB.AddPublicUID(mallory, 3))
		sk, err := m.SigKeyHash()
		vMust(err)
		fault := -1
		if v.r.Intn(4) > 0 {
			fault = v.r.Intn(13)
		}
		ki, _, priv, err := m.KeyInit(0, now+1000, 0, true, c.domain, "mix@x", "nym", cipher.RandReader)
		vMust(err)
		resign := func() { ki.SIGNATURE = vEnc(m2key(m).Sign(vCanon(ki.Contents))) }
		var val interface{}
		switch fault {
		case 0:
			ki, _, _, _ = mallory.KeyInit(0, now+1000, 0, true, c.domain, "mix@x", "nym", cipher.RandReader)
		case 1:
			ki, _, _, _ = old.KeyInit(0, now+1000, 0, true, c.domain, "mix@x", "nym", cipher.RandReader)
		case 2: // mallory's keys under the owner's key hash
			k2, _, _, _ := mallory.KeyInit(0, now+1000, 0, true, c.domain, "mix@x", "nym", cipher.RandReader)
			k2.Contents.SIGKEYHASH = ki.Contents.SIGKEYHASH
			k2.SIGNATURE = vEnc(m2key(mallory).Sign(vCanon(k2.Contents)))
			ki = k2
		case 3:
			ki.Contents.NOTAFTER = now - 10
			resign()
		case 4:
			ki.Contents.NOTBEFORE = ki.Contents.NOTAFTER + uint64(v.r.Intn(2))
			resign()
		case 5:
			ki.Contents.REPOURI = []string{"other.one", "", c.domain + "x"}[v.r.Intn(3)]
			resign()
		case 6:
			ki.SIGNATURE = []string{"", "!", vEnc(make([]byte, 64)), vEnc(m2key(mallory).Sign(vCanon(ki.Contents)))}[v.r.Intn(4)]
		case 7: // any change of the signed part
			switch v.r.Intn(5) {
			case 0:
				ki.Contents.NOTAFTER++
			case 1:
				ki.Contents.FALLBACK = !ki.Contents.FALLBACK
			case 2:
				ki.Contents.MSGCOUNT++
			case 3:
				ki.Contents.VERSION += "0"
			case 4:
				ki.Contents.NOTBEFORE++
			}
		case 8: // another session anchor of the same owner
			k2, _, _, _ := m.KeyInit(0, now+1000, 0, true, c.domain, "mix@x", "nym", cipher.RandReader)
			ki.Contents.SESSIONANCHOR = k2.Contents.SESSIONANCHOR
			if v.r.Intn(2) == 0 {
				ki.Contents.SESSIONANCHORHASH = k2.Contents.SESSIONANCHORHASH
			} else {
				resign()
			}
		case 9:
			val = v.odd()
		case 10:
			val = fmt.Errorf("refused")
		case 11:
			ki.Contents.SESSIONANCHOR = []string{"", "AAAA", "!"}[v.r.Intn(3)]
			resign()
		case 12:
			ki.Contents.SIGKEYHASH = mallory.UIDContent.SIGKEY.HASH
			resign()
		}
		var asked vObj
		w.ks.m["KeyInitRepository.FetchKeyInit"] = func(a vObj) interface{} {
			asked = a
			if e, ok := val.(error); ok {
				return e
			}
			if fault == 9 {
				return vObj{"KeyInit": val}
			}
			return vObj{"KeyInit": string(ki.JSON())}
		}
		what := fmt.Sprintf("fault %d", fault)
		v.noPanic("fetchkeyinit-panic", func() {
			err := ce.fetchKeyInit("Bobby@" + c.domain)
			v.check((err == nil) == (fault < 0), "fetchkeyinit-result", "%s: %v", what, err)
			v.check(asked["SigKeyHash"] == sk, "fetchkeyinit-request", "%s: asked for %v", what, asked)
			ke, nym, err := ce.GetPublicKeyEntry(m)
			if v.check((err == nil) == (fault < 0), "fetchkeyinit-stored", "%s: stored key entry %v, %v", what, ke, err) && err == nil {
				pk, _ := ecdh.X25519().NewPrivateKey(vDec(priv))
				v.check(nym == "nym" && bytes.Equal(pk.PublicKey().Bytes(), vDec(ke.PUBKEY)) && ke.FUNCTION == "ECDHE25519", "fetchkeyinit-key", "%s: %v", what, ke)
			}
			for _, x := range []*uid.Message{old, mallory} {
				ke, _, err := ce.GetPublicKeyEntry(x)
				v.check(err != nil, "fetchkeyinit-other", "%s: key entry %v for another ID", what, ke)
			}
		}, "%s", what)
	}
	v.check(ce.fetchKeyInit("nobody@d.one") != nil, "fetchkeyinit-nobody", "fetched for an unknown ID")
	// flush is authenticated with the current key
	for n := v.n2(10, 50); n > 0; n-- {
		c := w.chain()
		m := vUID("alice@" + c.domain)
		vMust(ce.keyDB.AddPrivateUID(m))
		refuse := v.r.Intn(2) == 0
		var a vObj
		w.ks.m["KeyInitRepository.FlushKeyInit"] = func(x vObj) interface{} {
			a = x
			if refuse {
				return fmt.Errorf("refused")
			}
			return vObj{"Result": "ok"}
		}
		err := ce.flushKeyInit("Alice@" + c.domain)
		nonce, _ := a["Nonce"].(float64)
		sig, _ := a["Signature"].(string)
		v.check((err == nil) == !refuse, "flush-result", "refused %v: %v", refuse, err)
		v.check(a["SigPubKey"] == m.SigPubKey() && uid.VerifyNonce(m.SigPubKey(), uint64(nonce), sig) == nil && uint64(nonce) >= now, "flush-request", "%v", a)
	}
	v.done()
}

// keys of the local database are only used at their full length.
func TestVerifStoredKeys(t *testing.T) {
	v := vStart(t)
	w := vNewWorld()
	defer w.close()
	ce := w.ce
	for n := v.n2(60, 400); n > 0; n-- {
		s := fmt.Sprint("session", n)
		ln := func(full int) int {
			return []int{full, full, 0, 1, full - 1, v.r.Intn(full)}[v.r.Intn(6)]
		}
		root, chain := v.bytes(ln(64)), v.bytes(ln(32))
		enc := func(b []byte) string {
			if len(b) == 0 {
				return []string{"!", "A", "===="}[v.r.Intn(3)]
			}
			return vEnc(b)
		}
		var snd, rcv []string
		var sb, rb [][]byte
		k := 1 + v.r.Intn(4)
		for i := 0; i < k; i++ {
			x, y := v.bytes(ln(64)), v.bytes(ln(64))
			sb, rb = append(sb, x), append(rb, y)
			snd, rcv = append(snd, enc(x)), append(rcv, enc(y))
		}
		v.check(!ce.HasSession(s), "keys-nosession", "session before it was stored")
		vMust(ce.StoreSession(s, enc(root), enc(chain), snd, rcv))
		v.check(ce.HasSession(s) && !ce.HasSession(s+"x"), "keys-session", "session not found")
		nk, err := ce.NumMessageKeys(s)
		v.check(err == nil && nk == uint64(k), "keys-number", "%d keys, number %d %v", k, nk, err)
		r, err := ce.GetRootKeyHash(s)
		v.check((err == nil) == (len(root) == 64) && (r != nil) == (err == nil) && (r == nil || bytes.Equal(r[:], root)), "keys-root", "root key hash of %d bytes: %v %v", len(root), r, err)
		cb, err := ce.GetChainKey(s)
		v.check((err == nil) == (len(chain) == 32) && (cb != nil) == (err == nil) && (cb == nil || bytes.Equal(cb[:], chain)), "keys-chain", "chain key of %d bytes: %v %v", len(chain), cb, err)
		for i := 0; i <= k; i++ {
			for _, sender := range []bool{true, false} {
				var want []byte
				if i < k {
					want = rb[i]
					if sender {
						want = sb[i]
					}
				}
				g, err := ce.GetMessageKey(s, sender, uint64(i))
				v.check((err == nil) == (len(want) == 64) && (g != nil) == (err == nil) && (g == nil || bytes.Equal(g[:], want)), "keys-message", "message key %d (sender %v) of %d bytes: %v %v", i, sender, len(want), g, err)
			}
		}
		vMust(ce.DelMessageKey(s, true, 0))
		_, err = ce.GetMessageKey(s, true, 0)
		_, err2 := ce.GetMessageKey(s, false, 0)
		v.check(err != nil && (err2 == nil) == (len(rb[0]) == 64), "keys-delete", "deleted key: %v, key of the other direction: %v", err, err2)
	}
	v.done()
}
