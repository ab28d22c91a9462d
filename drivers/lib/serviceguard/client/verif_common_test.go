package client

import (
	"bytes"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"strings"

	"github.com/mutecomm/mute/serviceguard/client/guardrpc"
	"github.com/mutecomm/mute/serviceguard/client/keylookup"
	"github.com/mutecomm/mute/serviceguard/client/packetproto"
	"github.com/mutecomm/mute/serviceguard/client/walletrpc"
	"github.com/mutecomm/mute/serviceguard/common/keypool"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/serviceguard/common/token"
	"github.com/mutecomm/mute/serviceguard/common/types"
	"github.com/mutecomm/mute/serviceguard/common/walletauth"
	"github.com/mutecomm/mute/util/jsonclient"
	"github.com/mutecomm/mute/util/times"
	"github.com/ronperry/cryptoedge/eccutil"
	"github.com/ronperry/cryptoedge/jjm"
)

// vWorld: the servers a client talks to, over HTTP on the loopback device.
type vWorld struct {
	r         *rand.Rand
	trust     *ed25519.PrivateKey
	guards    map[string]*vGuard          // by hex public key
	keys      map[string][]byte           // lookup server, by hex key ID
	lookupKey func(id string) interface{} // overrides
	verify    func() interface{}
	list      [][]byte
	calls     []vCall
	// fault(method) may change the reply, or drop it; nil: no faults
	fault   func(method string, reply interface{}, err string) (interface{}, string, bool)
	wallet  *vWallet
	client  func(u string, cert []byte) (*jsonclient.URLClient, error)
	tainted bool                   // parameters of the guard were changed on their way to the client
	replies map[string]interface{} // the guard answers the same request the same way
	spent   map[string]bool        // token hashes
	live    map[string][]byte      // token hash -> hash of the request which ended it
}

type vCall struct {
	url, method string
	params      map[string]interface{}
}

type vGuard struct {
	w    *vWorld
	pub  [32]byte
	priv [64]byte
	gen  *signkeys.KeyGenerator
	pool *packetproto.Client // to make tokens with
	keys []*vIssue
}

type vIssue struct {
	key  *signkeys.KeyPair
	srv  *jjm.GenericBlindingServer
	priv map[string]jjm.BlindingParamServer
}

func vKeyPair(r *rand.Rand) (*[32]byte, *[64]byte) {
	p, s, _ := ed25519.GenerateKey(r)
	pk, sk := new([32]byte), new([64]byte)
	copy(pk[:], p)
	copy(sk[:], s)
	return pk, sk
}

func newWorld(r *rand.Rand) (*vWorld, func()) {
	w := &vWorld{r: r, guards: map[string]*vGuard{}, keys: map[string][]byte{}, replies: map[string]interface{}{}, spent: map[string]bool{}}
	_, s, _ := ed25519.GenerateKey(r)
	w.trust = &s
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	srv := &http.Server{Handler: w}
	srv.SetKeepAlivesEnabled(false)
	go srv.Serve(l)
	w.client = func(u string, cert []byte) (*jsonclient.URLClient, error) {
		return jsonclient.New("http://"+l.Addr().String()+"/?u="+url.QueryEscape(u), cert)
	}
	guardrpc.DefaultClientFactory, keylookup.DefaultClientFactory, walletrpc.DefaultClientFactory = w.client, w.client, w.client
	TrustRoot = new([32]byte)
	copy(TrustRoot[:], s.Public().(ed25519.PublicKey))
	return w, func() {
		srv.Close()
		guardrpc.DefaultClientFactory, keylookup.DefaultClientFactory, walletrpc.DefaultClientFactory = jsonclient.New, jsonclient.New, jsonclient.New
	}
}

func (w *vWorld) guard(usage string) *vGuard {
	pk, sk := vKeyPair(w.r)
	g := &vGuard{w: w, pub: *pk, priv: *sk}
	g.gen = signkeys.New(packetproto.Curve, packetproto.Rand, packetproto.HashFunc)
	g.gen.PrivateKey, g.gen.PublicKey, g.gen.Usage = &g.priv, &g.pub, usage
	g.pool, _ = packetproto.New(nil)
	g.pool.AddVerifyKey(&g.pub)
	w.guards[hex.EncodeToString(pk[:])] = g
	w.list = append(w.list, pk[:])
	g.newKey()
	return g
}

func (g *vGuard) newKey() *vIssue {
	k, err := g.gen.GenKey()
	if err != nil {
		panic(err)
	}
	i := &vIssue{key: k, priv: map[string]jjm.BlindingParamServer{}}
	i.srv = jjm.NewGenericBlindingServer(k.PrivateKey, &k.PublicKey.PublicKey, eccutil.SetCurve(packetproto.Curve, packetproto.Rand, packetproto.HashFunc))
	g.keys = append(g.keys, i)
	if _, err := g.pool.Keypool.LoadKey(&k.PublicKey); err != nil && err != keypool.ErrExists {
		panic(err)
	}
	m, _ := k.PublicKey.Marshal()
	g.w.keys[hex.EncodeToString(k.PublicKey.KeyID[:])] = m
	return i
}

func (g *vGuard) cur() *vIssue { return g.keys[len(g.keys)-1] }

func (i *vIssue) params(id string, canReissue bool) []byte {
	c, s, err := i.srv.GetParams()
	if err != nil {
		panic(err)
	}
	i.priv[id] = s.(jjm.BlindingParamServer)
	pk, _ := i.key.PublicKey.Marshal()
	m, err := types.Params{PublicKey: pk, PublicParams: c.(jjm.BlindingParamClient), PrivateParams: []byte(id), CanReissue: canReissue}.Marshal()
	if err != nil {
		panic(err)
	}
	return m
}

func (i *vIssue) sign(id string, blind []byte) ([]byte, error) {
	p, ok := i.priv[id]
	if !ok {
		return nil, errors.New("unknown parameters")
	}
	m, err := jjm.NewBlindMessage(&i.key.PublicKey.PublicKey).Unmarshal(blind)
	if err != nil {
		return nil, err
	}
	s, err := i.srv.Sign(p, m.(jjm.BlindMessage))
	if err != nil {
		return nil, err
	}
	return s.Marshal()
}

// token makes a token for owner, signed with key i.
func (g *vGuard) token(i *vIssue, owner *[32]byte) []byte {
	_, pub, _, _, err := types.UnmarshalParams(i.params("t", true))
	if err != nil {
		panic(err)
	}
	b, f, tok, err := g.pool.NewToken(&i.key.PublicKey, pub, owner)
	if err != nil {
		panic(err)
	}
	bm, _ := b.Marshal()
	fm, _ := f.Marshal()
	tm, _ := tok.Marshal()
	km, _ := i.key.PublicKey.Marshal()
	sig, err := i.sign("t", bm)
	if err != nil {
		panic(err)
	}
	m, err := g.pool.Unblind(&types.ReissuePacketPrivate{PublicKey: km, Factors: fm, Token: tm}, sig)
	if err != nil {
		panic(err)
	}
	return m
}

// recut makes a token whose signed hash is also that of another token: its
// nonce is taken for the owner. It returns the form owned by a.
func (g *vGuard) recut(i *vIssue, a, b *[32]byte) []byte {
	_, pub, _, _, err := types.UnmarshalParams(i.params("t", true))
	if err != nil {
		panic(err)
	}
	nonce := make([]byte, 16)
	id := i.key.PublicKey.KeyID
	signed := &token.Token{KeyID: id[:], Flag: true, Nonce: append(append([]byte{}, nonce...), a[:]...), Owner: b[:]}
	curve := eccutil.SetCurve(packetproto.Curve, packetproto.Rand, packetproto.HashFunc)
	cl := jjm.NewGenericBlindingClient(&i.key.PublicKey.PublicKey, curve)
	par := jjm.NewBlindingParamClient(&i.key.PublicKey.PublicKey)
	par.PointRs1, par.PointRs2, par.ScalarLs1, par.ScalarLs2 = pub.PointRs1, pub.PointRs2, pub.ScalarLs1, pub.ScalarLs2
	msg := jjm.NewClearMessage(signed.Hash())
	f, bm, err := cl.Blind(par, msg)
	if err != nil {
		panic(err)
	}
	m, _ := bm.Marshal()
	if b2, err := jjm.NewBlindMessage(&i.key.PublicKey.PublicKey).Unmarshal(m); err == nil {
		bm = b2.(jjm.BlindMessage)
	}
	bs, err := i.srv.Sign(i.priv["t"], bm)
	if err != nil {
		panic(err)
	}
	sig, _, err := cl.Unblind(f, msg, bs)
	if err != nil {
		panic(err)
	}
	s := sig.(jjm.ClearSignature)
	// signed for b, shown as a token of a
	shown := &token.Token{KeyID: id[:], Flag: true, Nonce: nonce, Owner: append(append([]byte{}, a[:]...), b[:]...)}
	shown.AddSignature(&s)
	r, _ := shown.Marshal()
	return r
}

// vSigned: whether tok is signed by key.
func vSigned(tok *token.Token, key *signkeys.PublicKey) bool {
	c := jjm.NewGenericBlindingClient(&key.PublicKey, eccutil.SetCurve(packetproto.Curve, packetproto.Rand, packetproto.HashFunc))
	sig, g := jjm.NewClearSignature(&key.PublicKey), tok.GetSignature()
	sig.PointR, sig.ScalarR, sig.ScalarS = g.PointR, g.ScalarR, g.ScalarS
	ok, err := c.Verify(sig, jjm.NewClearMessage(tok.Hash()))
	return ok && err == nil
}

func (w *vWorld) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	var in struct {
		Method string
		Params map[string]interface{}
		Id     interface{}
	}
	if json.NewDecoder(req.Body).Decode(&in) != nil {
		rw.WriteHeader(400)
		return
	}
	u := req.URL.Query().Get("u")
	w.calls = append(w.calls, vCall{u, in.Method, in.Params})
	reply, e := w.serve(u, in.Method, in.Params)
	if w.fault != nil {
		var drop bool
		reply, e, drop = w.fault(in.Method, reply, e)
		if drop {
			if h, ok := rw.(http.Hijacker); ok {
				c, _, _ := h.Hijack()
				c.Close()
				return
			}
		}
	}
	out := map[string]interface{}{"jsonrpc": "2.0", "id": in.Id}
	if e != "" {
		out["error"] = map[string]interface{}{"code": -32000, "message": e}
	} else {
		out["result"] = reply
	}
	json.NewEncoder(rw).Encode(out)
}

type obj map[string]interface{}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }
func unb64(x interface{}) []byte {
	s, _ := x.(string)
	b, _ := base64.StdEncoding.DecodeString(s)
	return b
}

func (w *vWorld) serve(u, method string, p map[string]interface{}) (interface{}, string) {
	switch method {
	case "PublicService.LookupKey":
		id, _ := p["KeyID"].(string)
		if w.lookupKey != nil {
			return w.lookupKey(id), ""
		}
		if k, ok := w.keys[id]; ok {
			return obj{"Key": b64(k)}, ""
		}
		return nil, "keylookup: key not found"
	case "PublicService.VerifyKeys":
		if w.verify != nil {
			return w.verify(), ""
		}
		var l []string
		for _, k := range w.list {
			l = append(l, hex.EncodeToString(k))
		}
		s := strings.Join(l, ", ")
		return obj{"PublicKey": hex.EncodeToString(TrustRoot[:]), "Signature": hex.EncodeToString(ed25519.Sign(*w.trust, []byte(s))), "KeyList": s}, ""
	case "ServiceGuard.GetParams", "ServiceGuard.Reissue":
		var g *vGuard
		for k, x := range w.guards {
			if strings.HasSuffix(u, "/"+k) && strings.Contains(u, "//"+k[:48]) {
				g = x
			}
		}
		if g == nil {
			return nil, "issuer: wrong issuer"
		}
		if method == "ServiceGuard.GetParams" {
			return obj{"Packet": b64(g.cur().params(fmt.Sprint("p", w.r.Int63()), true))}, ""
		}
		return g.reissue(unb64(p["Packet"]))
	case "WalletServer.GetToken":
		if w.wallet != nil {
			return w.wallet.getToken(unb64(p["AuthToken"]), p["Usage"])
		}
	}
	return nil, "unknown method " + method
}

func (g *vGuard) reissue(packet []byte) (interface{}, string) {
	if r, ok := g.w.replies[string(packet)]; ok {
		return r, ""
	}
	p, err := new(types.ReissuePacket).Unmarshal(packet)
	if err != nil || p.CallType != types.CallTypeReissue {
		return nil, "issuer: bad package"
	}
	tok, err := token.Unmarshal(p.Token)
	if err != nil {
		return nil, "issuer: bad package"
	}
	id, owner := tok.Properties()
	var old *vIssue
	for _, i := range g.keys {
		if i.key.PublicKey.KeyID == *id {
			old = i
		}
	}
	if old == nil {
		return nil, "issuer: wrong issuer"
	}
	if !vSigned(tok, &old.key.PublicKey) {
		return nil, "issuer: bad signature in token"
	}
	if p.Verify(owner) != nil {
		return nil, "issuer: owner signature verification failed"
	}
	if g.w.spent[string(tok.Hash())] {
		return nil, "issuer: token double spend"
	}
	key, _, priv, _, err := types.UnmarshalParams(p.Params)
	if err != nil {
		return nil, "issuer: bad package"
	}
	for _, i := range g.keys {
		if i.key.PublicKey.KeyID != key.KeyID || i.key.PublicKey.Usage != old.key.PublicKey.Usage {
			continue
		}
		sig, err := i.sign(string(priv), p.BlindToken)
		if err != nil {
			return nil, "issuer: bad package"
		}
		km, _ := i.key.PublicKey.Marshal()
		r := obj{"Packet": b64(sig), "PubkeyUsed": b64(km)}
		g.w.spent[string(tok.Hash())] = true
		g.w.replies[string(packet)] = r
		return r, ""
	}
	return nil, "issuer: parameters have expired"
}

// vWallet is the wallet server: it hands out one token per authentication token.
type vWallet struct {
	w       *vWorld
	pub     *[32]byte
	counter uint64
	guards  map[string]*vGuard // by usage
	prepaid bool
	given   map[string]obj // by authentication token
	tokens  [][]byte       // hashes of all tokens given
}

func (s *vWallet) getToken(auth []byte, usage interface{}) (interface{}, string) {
	if r, ok := s.given[string(auth)]; ok {
		return r, ""
	}
	pub, _, cnt, err := walletauth.AuthToken(auth).CheckToken()
	if err != nil || *pub != *s.pub {
		return nil, "walletserver: bad token"
	}
	if cnt <= s.counter {
		return nil, fmt.Sprintf("ErrReplay: %d", s.counter)
	}
	u, _ := usage.(string)
	g := s.guards[u]
	if g == nil {
		return nil, "walletserver: insufficient funds"
	}
	s.counter = cnt
	i := g.cur()
	t := g.token(i, s.pub)
	var params []byte
	if !s.prepaid {
		params = i.params(fmt.Sprint("w", s.w.r.Int63()), false)
	}
	km, _ := i.key.PublicKey.Marshal()
	r := obj{"Token": b64(t), "Params": b64(params), "PubKeyUsed": b64(km)}
	s.given[string(auth)] = r
	tk, _ := token.Unmarshal(t)
	s.tokens = append(s.tokens, tk.Hash())
	return r, ""
}

// vStore is a wallet store in memory.
type vStore struct {
	tokens map[string]*TokenEntry
	order  []string
	locks  map[string]int64
	next   int64
	self   [64]byte
	auth   []byte
	tries  int
	keys   [][32]byte
	log    []vOp
	// before(op) may fail it, or panic: the process ends before the operation
	before func(op string) error
}

type vOp struct {
	op    string
	hash  string
	entry TokenEntry
	lock  int64
}

type vCrash struct{}

func newStore(self *[64]byte) *vStore {
	return &vStore{tokens: map[string]*TokenEntry{}, locks: map[string]int64{}, self: *self}
}

func cp(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}
func cp32(b *[32]byte) *[32]byte {
	if b == nil {
		return nil
	}
	c := *b
	return &c
}
func cp64(b *[64]byte) *[64]byte {
	if b == nil {
		return nil
	}
	c := *b
	return &c
}

// cpe: the stores of the client do not tell empty from missing.
func cpe(b []byte) []byte {
	if len(b) == 0 {
		return nil
	}
	return cp(b)
}

func clone(e *TokenEntry) *TokenEntry {
	return &TokenEntry{cp(e.Hash), cp(e.Token), cpe(e.Params), cp32(e.OwnerPubKey), cp64(e.OwnerPrivKey), e.Renewable, e.CanReissue, e.Usage, e.Expire,
		cpe(e.ServerPacket), cpe(e.BlindingFactors), cp32(e.NewOwnerPubKey), cp64(e.NewOwnerPrivKey)}
}

func (s *vStore) do(op string, hash []byte) error {
	if s.before != nil {
		if err := s.before(op); err != nil {
			return err
		}
	}
	s.log = append(s.log, vOp{op: op, hash: string(hash)})
	return nil
}

func (s *vStore) SetToken(e TokenEntry) error {
	if err := s.do("SetToken", e.Hash); err != nil {
		return err
	}
	s.log[len(s.log)-1].entry = *clone(&e)
	if s.tokens[string(e.Hash)] == nil {
		s.order = append(s.order, string(e.Hash))
	}
	s.tokens[string(e.Hash)] = clone(&e)
	return nil
}
func (s *vStore) GetToken(h []byte, lock int64) (*TokenEntry, error) {
	if err := s.do("GetToken", h); err != nil {
		return nil, err
	}
	if lock >= 0 && s.locks[string(h)] != lock {
		return nil, ErrLocked
	}
	if e := s.tokens[string(h)]; e != nil {
		return clone(e), nil
	}
	return nil, ErrNoToken
}
func (s *vStore) DelToken(h []byte) {
	if s.do("DelToken", h) == nil {
		// what it was reissued to
		if e := s.tokens[string(h)]; e != nil && e.BlindingFactors != nil {
			if l, err := new(types.ReissuePacketPrivate).Unmarshal(e.BlindingFactors); err == nil {
				if t, err := token.Unmarshal(l.Token); err == nil && s.tokens[string(t.Hash())] != nil {
					s.log[len(s.log)-1].lock = 1
				}
			}
		}
		delete(s.tokens, string(h))
	}
}
func (s *vStore) LockToken(h []byte) int64 {
	if s.do("LockToken", h) != nil || s.locks[string(h)] != 0 {
		return -1
	}
	s.next++
	s.locks[string(h)] = s.next
	s.log[len(s.log)-1].lock = s.next
	return s.next
}
func (s *vStore) UnlockToken(h []byte) {
	s.do("UnlockToken", h)
	delete(s.locks, string(h))
}
func (s *vStore) GetAndLockToken(usage string, owner *[32]byte) (*TokenEntry, error) {
	if err := s.do("GetAndLockToken", nil); err != nil {
		return nil, err
	}
	for _, h := range s.order {
		e := s.tokens[h]
		if e == nil || e.Usage != usage || s.locks[h] != 0 || e.ServerPacket != nil {
			continue
		}
		if owner == nil && (e.OwnerPubKey == nil || !bytes.Equal(e.OwnerPubKey[:], s.self[32:])) || owner != nil && e.OwnerPubKey != nil && *e.OwnerPubKey == *owner {
			s.next++
			s.locks[h] = s.next
			return clone(e), nil
		}
	}
	return nil, ErrNoToken
}
func (s *vStore) FindToken(usage string) (*TokenEntry, error) {
	if err := s.do("FindToken", nil); err != nil {
		return nil, err
	}
	for _, h := range s.order {
		e := s.tokens[h]
		if e != nil && e.Usage == usage && e.OwnerPrivKey != nil && e.CanReissue && e.ServerPacket == nil && s.locks[h] == 0 {
			return clone(e), nil
		}
	}
	return nil, ErrNoToken
}
func (s *vStore) GetAuthToken() ([]byte, int) { return cp(s.auth), s.tries }
func (s *vStore) SetAuthToken(a []byte, tries int) error {
	if err := s.do("SetAuthToken", nil); err != nil {
		return err
	}
	s.auth, s.tries = cp(a), tries
	return nil
}
func (s *vStore) SetVerifyKeys(k [][32]byte)         { s.keys = k }
func (s *vStore) GetVerifyKeys() [][32]byte          { return s.keys }
func (s *vStore) GetExpire() []byte                  { return nil }
func (s *vStore) GetInReissue() []byte               { return nil }
func (s *vStore) GetBalanceOwn(string) int64         { return 0 }
func (s *vStore) GetBalance(string, *[32]byte) int64 { return 0 }
func (s *vStore) ExpireUnusable() bool               { return false }

// vClient starts a client: it knows no key yet but those of verified issuers.
func vClient(store *vStore, self *[64]byte) *Client {
	c, err := New(nil, store, self, nil)
	if err != nil {
		panic(err)
	}
	c.GoOnline()
	c.GetVerifyKeys()
	return c
}

// garbage returns a reply of another form than the client expects.
// Contents are changed only where the reply is checked against something.
func (w *vWorld) garbage(method string, reply interface{}) interface{} {
	vals := []interface{}{nil, 1.5, true, "", "%%%", "AAAA", []int{1}, obj{"a": 1}, "00", strings.Repeat("A", 400)}
	o, ok := reply.(obj)
	if !ok || w.r.Intn(8) == 0 {
		return []interface{}{nil, obj{}, 17, "x", []int{}}[w.r.Intn(5)]
	}
	n := obj{}
	var ks []string
	for k := range o {
		ks = append(ks, k)
	}
	for i := range ks { // deterministic order
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	x := w.r.Intn(len(ks))
	for i, k := range ks {
		n[k] = o[k]
		if i != x {
			continue
		}
		if s, ok := o[k].(string); ok && len(s) > 4 && w.r.Intn(3) > 0 && (method != "WalletServer.GetToken" || k == "PubKeyUsed") {
			w.tainted = w.tainted || method == "ServiceGuard.GetParams"
			switch w.r.Intn(3) {
			case 0:
				n[k] = s[:w.r.Intn(len(s))]
			case 1:
				b := unb64(s)
				if len(b) > 0 {
					b[w.r.Intn(len(b))] ^= 1 << uint(w.r.Intn(8))
				}
				n[k] = b64(b)
			case 2:
				n[k] = b64(unb64(s)[:len(unb64(s))/2])
			}
		} else if w.r.Intn(4) == 0 {
			delete(n, k)
		} else {
			n[k] = vals[w.r.Intn(len(vals))]
			w.tainted = w.tainted || method == "ServiceGuard.GetParams"
		}
	}
	return n
}

var _ = times.Now
