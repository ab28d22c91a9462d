package msg

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha512"
	b64 "encoding/base64"
	"fmt"
	"io"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/log"
	"github.com/mutecomm/mute/msg/session/memstore"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/util/times"
	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/hkdf"
)

func init() {
	log.Init("critical", "msg  ", "", true)
}

// stored is one recorded StoreSession call.
type stored struct {
	key, rootKeyHash, chainKey string
	send, recv                 []string
}

// recStore records what is stored and deleted.
type recStore struct {
	*memstore.MemStore
	stored []stored
	dels   []string
}

func newRecStore() *recStore { return &recStore{MemStore: memstore.New()} }

func (s *recStore) StoreSession(sessionKey, rootKeyHash, chainKey string, send, recv []string) error {
	s.stored = append(s.stored, stored{sessionKey, rootKeyHash, chainKey, append([]string(nil), send...), append([]string(nil), recv...)})
	return s.MemStore.StoreSession(sessionKey, rootKeyHash, chainKey, send, recv)
}

func (s *recStore) DelMessageKey(sessionKey string, sender bool, i uint64) error {
	s.dels = append(s.dels, fmt.Sprintf("%s/%v/%d", sessionKey, sender, i))
	return s.MemStore.DelMessageKey(sessionKey, sender, i)
}

type party struct {
	uid   *uid.Message
	store *recStore
	ki    *uid.KeyEntry // own KeyInit key with private part
	kiPub *uid.KeyEntry
}

func newParty(name string) *party {
	u, err := uid.Create(name, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
	if err != nil {
		panic(err)
	}
	p := &party{uid: u, store: newRecStore()}
	now := uint64(times.Now())
	ki, _, priv, err := u.KeyInit(1, now+times.Day, now-times.Day, false, u.Domain(), "", "", cipher.RandReader)
	if err != nil {
		panic(err)
	}
	if p.kiPub, err = ki.KeyEntryECDHE25519(u.SigPubKey()); err != nil {
		panic(err)
	}
	if p.ki, err = ki.KeyEntryECDHE25519(u.SigPubKey()); err != nil {
		panic(err)
	}
	if err := p.ki.SetPrivateKey(priv); err != nil {
		panic(err)
	}
	p.store.AddPrivateKeyEntry(p.ki)
	return p
}

// knows gives p the public KeyInit key of q.
func (p *party) knows(q *party) { p.store.AddPublicKeyEntry(q.uid.Identity(), q.kiPub) }

type encOpt struct {
	sign   bool
	n      uint64
	avg    uint
	nym    string
	status StatusCode
	store  *recStore
}

func (p *party) enc(q *party, content []byte, o encOpt) (string, error) {
	var w bytes.Buffer
	var sk *[64]byte
	if o.sign {
		sk = p.uid.PrivateSigKey64()
	}
	st := p.store
	if o.store != nil {
		st = o.store
	}
	_, err := Encrypt(&EncryptArgs{Writer: &w, From: p.uid, To: q.uid, NymAddress: o.nym,
		SenderLastKeychainHash: hashchain.TestEntry, PrivateSigKey: sk, Reader: bytes.NewReader(content),
		NumOfKeys: o.n, AvgSessionSize: o.avg, Rand: cipher.RandReader, KeyStore: st, StatusCode: o.status})
	return w.String(), err
}

type decRes struct {
	sender, sig string
	content     []byte
	err         error
	panicked    string
}

func (q *party) dec(m string, n uint64) decRes { return q.decRaw(mustB64(m), n, q.uid) }

func mustB64(s string) []byte {
	b, err := b64.StdEncoding.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func (q *party) decRaw(raw []byte, n uint64, ids ...*uid.Message) (r decRes) {
	defer func() {
		if e := recover(); e != nil {
			r.panicked = fmt.Sprint(e)
			r.err = fmt.Errorf("panic: %v", e)
		}
	}()
	var res bytes.Buffer
	in := io.Reader(bytes.NewReader(raw))
	_, pre, err := ReadFirstOuterHeader(in)
	if err != nil {
		r.err = err
		return
	}
	r.sender, r.sig, r.err = Decrypt(&DecryptArgs{Writer: &res, Identities: ids, PreHeader: pre, Reader: in,
		NumOfKeys: n, Rand: cipher.RandReader, KeyStore: q.store})
	r.content = res.Bytes()
	return
}

func vdh(priv, pub *[32]byte) []byte {
	var r [32]byte
	curve25519.ScalarMult(&r, priv, pub)
	return r[:]
}
func vsha(b ...[]byte) []byte { h := sha512.Sum512(bytes.Join(b, nil)); return h[:] }
func vmac(k []byte, b ...[]byte) []byte {
	m := hmac.New(sha512.New, k)
	m.Write(bytes.Join(b, nil))
	return m.Sum(nil)
}
func vroot(t1, t2, t3, prev []byte) []byte {
	if prev == nil {
		prev = make([]byte, 64)
	}
	r := make([]byte, 32)
	io.ReadFull(hkdf.New(sha512.New, bytes.Join([][]byte{t1, t2, t3, prev}, nil), nil, nil), r)
	return r
}

// vkeys: message keys and final chain key from a chain key, by the protocol
func vkeys(chain []byte, n int, a, b string, pub []byte) (keys []string, end []byte) {
	ids := a + b
	if b < a {
		ids = b + a
	}
	for i := 0; i < n; i++ {
		keys = append(keys, base64.Encode(vmac(chain, []byte("MESSAGE"), vsha(pub), vsha([]byte(ids)))))
		chain = vmac(chain, []byte("CHAIN"))[:32]
	}
	return keys, chain
}
func vskey(parts ...string) string {
	s := ""
	for _, p := range parts {
		s += p
	}
	return base64.Encode(vsha([]byte(s)))
}

// checkStored compares a stored session with the protocol. mine: the storing
// side's session public key.
func (v *vT) checkStored(key string, s stored, chain []byte, n int, idA, idB string, myID, peerID string, my, peer *[32]byte, first bool) []byte {
	send, end := vkeys(chain, n, idA, idB, peer[:])
	recv, _ := vkeys(chain, n, idA, idB, my[:])
	v.check(s.key == vskey(myID, peerID, base64.Encode(vsha(my[:])), base64.Encode(vsha(peer[:]))), key+"-session", "session stored under the wrong key (%d keys)", n)
	v.check(fmt.Sprint(s.send) == fmt.Sprint(send), key+"-send", "send keys differ from the derivation (%d keys, got %d)", n, len(s.send))
	v.check(fmt.Sprint(s.recv) == fmt.Sprint(recv), key+"-recv", "receive keys differ from the derivation (%d keys, got %d)", n, len(s.recv))
	v.check(s.chainKey == base64.Encode(end), key+"-chain", "stored chain key is not the next one (%d keys)", n)
	if first {
		v.check(s.rootKeyHash == base64.Encode(vsha(chain)), key+"-root", "root key hash")
	}
	return end
}
