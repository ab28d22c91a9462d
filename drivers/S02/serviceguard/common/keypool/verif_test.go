package keypool

import (
	"bytes"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/sha512"
	"errors"
	"math/big"
	"testing"
	"time"

	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/ronperry/cryptoedge/eccutil"
)

type vSigner struct {
	pub  [32]byte
	priv [64]byte
}

func (v *vT) signer() *vSigner {
	p, s, _ := ed25519.GenerateKey(v.r)
	r := new(vSigner)
	copy(r.pub[:], p)
	copy(r.priv[:], s)
	return r
}

func (v *vT) key(s *vSigner, usage string, expire int64) *signkeys.PublicKey {
	pk := &signkeys.PublicKey{Expire: expire, Usage: usage, Signer: s.pub}
	pk.PublicKey = *eccutil.NewPoint(new(big.Int).SetBytes(v.bytes(32)), new(big.Int).SetBytes(v.bytes(32)))
	pk.KeyID = pk.CalcKeyID()
	copy(pk.Signature[:], ed25519.Sign(s.priv[:], pk.KeyID[:]))
	return pk
}

func vSame(a, b *signkeys.PublicKey) bool {
	x, _ := a.Marshal()
	y, _ := b.Marshal()
	return bytes.Equal(x, y)
}

// TestVerifPool runs random histories of the pool against a plain map.
func TestVerifPool(t *testing.T) {
	v := vStart(t)
	for h := 0; h < v.n2(60, 1500); h++ {
		good := []*vSigner{v.signer(), v.signer()}
		bad := v.signer()
		usage := []string{"", "u", "longer usage"}[v.r.Intn(3)]
		kp := New(&signkeys.KeyGenerator{Usage: usage})
		switch h % 3 { // a pool that generates keys has a signer of its own
		case 1:
			kp.Generator.PublicKey, kp.Generator.PrivateKey = &good[0].pub, &good[0].priv
		case 2: // which it need not even know as a verify key
			kp.Generator.PublicKey, kp.Generator.PrivateKey = &bad.pub, &bad.priv
		}
		for _, s := range good {
			v.check(!kp.HasVerifyKey(&s.pub, v.r.Intn(2) == 0), "has-before", "signer known before it was added")
			p := s.pub
			kp.AddVerifyKey(&p)
			p[0]++
			v.check(kp.HasVerifyKey(&s.pub, v.r.Intn(2) == 0), "has-after", "signer unknown after it was added")
		}
		v.check(len(kp.ListVerifyKeys()) == 2 && !kp.HasVerifyKey(&bad.pub, false), "verify-keys", "%v", kp.ListVerifyKeys())
		ref := map[[32]byte]*signkeys.PublicKey{}
		store := map[[32]byte][]byte{}
		var ids [][32]byte
		for op := 0; op < 40; op++ {
			now := time.Now().Unix()
			s := good[v.r.Intn(2)]
			u := usage
			exp := now + []int64{-1000, -60, 60, 1000, 1 << 40}[v.r.Intn(5)]
			wrong := v.r.Intn(12)
			switch wrong {
			case 0:
				s = bad
			case 1:
				u += "x"
			}
			pk := v.key(s, u, exp)
			switch wrong {
			case 2:
				pk.Signature[v.r.Intn(64)] ^= 4
			case 3:
				pk.KeyID[v.r.Intn(32)] ^= 4
			case 4:
				pk.Expire++
			case 5:
				pk.Signer = good[0].pub
				pk.KeyID = pk.CalcKeyID()
				copy(pk.Signature[:], ed25519.Sign(bad.priv[:], pk.KeyID[:]))
			}
			expired := pk.Expire < now
			acceptable := !expired && pk.CalcKeyID() == pk.KeyID && (pk.Signer == good[0].pub || pk.Signer == good[1].pub) &&
				ed25519.Verify(pk.Signer[:], pk.KeyID[:], pk.Signature[:]) && (usage == "" || pk.Usage == usage)
			switch v.r.Intn(4) {
			case 0, 1: // load
				f := kp.LoadKey
				if v.r.Intn(3) == 0 {
					f = kp.LoadKeyUnsafe
				}
				id, err := f(pk)
				v.check((err == nil) == acceptable, "load", "wrong=%d acceptable=%v err=%v", wrong, acceptable, err)
				if err == nil {
					v.check(id != nil && *id == pk.KeyID, "load-id", "%v", id)
					ref[pk.KeyID] = pk
					again := v.copyKey(pk)
					if v.r.Intn(2) == 0 { // the same key, signed once more
						for _, s := range good {
							if s.pub == pk.Signer {
								copy(again.Signature[:], vSign(s.priv[:], pk.KeyID[:]))
							}
						}
						v.check(again.Signature != pk.Signature && ed25519.Verify(pk.Signer[:], pk.KeyID[:], again.Signature[:]), "driver-sign", "no second signature")
					}
					if q, err := kp.LoadKey(again); v.check(err == ErrExists, "load-twice", "%v", err) {
						v.check(*q == pk.KeyID, "load-twice-id", "%v", q)
					}
				} else {
					v.check(id == nil, "load-error-id", "%v %v", id, err)
				}
				ids = append(ids, pk.KeyID)
			case 2: // stored elsewhere only, perhaps under an ID that is not its own
				m, _ := pk.Marshal()
				id := pk.KeyID
				if v.r.Intn(5) == 0 {
					copy(id[:], v.bytes(32))
				}
				if v.r.Intn(6) == 0 {
					m = m[:v.r.Intn(len(m))]
				}
				store[id] = m
				ids = append(ids, id)
			case 3:
				fetches := 0
				if v.r.Intn(3) != 0 {
					kp.FetchKeyCallBack = func(id []byte) ([]byte, error) {
						fetches++
						var k [32]byte
						copy(k[:], id)
						if m, ok := store[k]; ok {
							return m, nil
						}
						return nil, errors.New("no such key")
					}
				} else {
					kp.FetchKeyCallBack = nil
				}
				var id [32]byte
				copy(id[:], v.bytes(32))
				if len(ids) > 0 && v.r.Intn(8) != 0 {
					id = ids[v.r.Intn(len(ids))]
				}
				want := ref[id]
				var werr error = ErrNotFound
				if want == nil && kp.FetchKeyCallBack != nil {
					werr = errors.New("any")
					if q, err := new(signkeys.PublicKey).Unmarshal(store[id]); err == nil && q.Expire >= now && q.CalcKeyID() == q.KeyID &&
						(q.Signer == good[0].pub || q.Signer == good[1].pub) && ed25519.Verify(q.Signer[:], q.KeyID[:], q.Signature[:]) && (usage == "" || q.Usage == usage) {
						ref[q.KeyID] = q
						if q.KeyID == id {
							want = q
						}
					}
				}
				v.noPanic("lookup-panic", func() {
					got, err := kp.Lookup(id)
					if want != nil {
						v.check(err == nil && got != nil && vSame(got, want), "lookup", "known key: %v", err)
					} else {
						v.check(err != nil && got == nil, "lookup-unknown", "unknown key: got %v err %v", got, err)
						if werr == ErrNotFound {
							v.check(err == ErrNotFound, "lookup-unknown-err", "%v", err)
						}
					}
				}, "%x", id)
			}
			for id, want := range ref {
				got, err := kp.lookup(id)
				v.check(err == nil && vSame(got, want), "keep", "key lost or changed: %v", err)
			}
			v.check(len(kp.keys) == len(ref), "extra", "%d keys, expected %d", len(kp.keys), len(ref))
		}
		// saving
		var wrote [][]byte
		var werr error
		kp.WriteKeyCallback = func(id []byte, u string, m []byte) error {
			wrote = append(wrote, append([]byte{}, id...), []byte(u), append([]byte{}, m...))
			return werr
		}
		for id, want := range ref {
			for _, f := range []func([32]byte) error{kp.SaveKey, kp.SaveKeyUnsafe} {
				wrote, werr = nil, nil
				err := f(id)
				m, _ := want.Marshal()
				v.check(err == nil && len(wrote) == 3 && bytes.Equal(wrote[0], id[:]) && string(wrote[1]) == want.Usage && bytes.Equal(wrote[2], m), "save", "%v", err)
				wrote, werr = nil, errors.New("disk full")
				v.check(f(id) == werr, "save-error", "write error not reported")
			}
		}
		wrote = nil
		var none [32]byte
		v.check(kp.SaveKey(none) == ErrNotFound && len(wrote) == 0, "save-unknown", "unknown key saved")
	}
	v.done()
}

func (v *vT) copyKey(p *signkeys.PublicKey) *signkeys.PublicKey {
	c := *p
	return &c
}

// TestVerifCurrent: the current key is renewed at half its lifetime.
func TestVerifCurrent(t *testing.T) {
	v := vStart(t)
	if _, _, err := New(signkeys.New(elliptic.P256, v.r, eccutil.Sha1Hash)).Current(); err != ErrNoGenerator {
		v.fail("no-generator", "%v", err)
	}
	for k := 0; k < v.n2(20, 300); k++ {
		s := v.signer()
		gen := signkeys.New(elliptic.P256, v.r, eccutil.Sha1Hash)
		gen.PrivateKey, gen.PublicKey, gen.Usage = &s.priv, &s.pub, "u"
		kp := New(gen)
		if k%2 == 0 {
			kp.AddVerifyKey(&s.pub)
		}
		var saved [][]byte
		var werr error
		kp.WriteKeyCallback = func(id []byte, u string, m []byte) error {
			if werr == nil {
				saved = append(saved, id)
			}
			return werr
		}
		var cur, prev *signkeys.KeyPair
		for i := 0; i < 12; i++ {
			gen.ExpireTime = []int64{10, 1000, 1 << 30}[v.r.Intn(3)]
			if cur != nil && i%2 == 1 {
				cur.PublicKey.Expire = time.Now().Unix() + gen.ExpireTime/2 + []int64{-1000, -60, 60, 1000}[v.r.Intn(4)]
			}
			werr = nil
			if v.r.Intn(5) == 0 {
				werr = errors.New("disk full")
			}
			now := time.Now().Unix()
			renew := cur == nil || cur.PublicKey.Expire < now+gen.ExpireTime/2
			n := len(saved)
			c, p, err := kp.Current()
			if renew && werr != nil {
				v.check(err == werr && c == nil && p == nil, "write-error", "%v", err)
				v.check(kp.currentKey == cur && kp.previousKey == prev, "write-error-state", "a key that could not be stored is in use")
				continue
			}
			if !v.check(err == nil && c != nil, "current", "%v", err) {
				break
			}
			if renew {
				if cur != nil {
					prev = cur
				}
				v.check(c != cur, "renew", "key expiring at %d at time %d with lifetime %d is not renewed", c.PublicKey.Expire, now, gen.ExpireTime)
				v.check(len(saved) == n+1 && bytes.Equal(saved[n], c.PublicKey.KeyID[:]), "stored", "new key was not stored")
				v.check(c.PublicKey.Verify(&s.pub) && c.PublicKey.Usage == "u" && c.PublicKey.Signer == s.pub, "new-key", "%+v", c.PublicKey)
				v.check(c.PublicKey.Expire >= now+gen.ExpireTime && c.PublicKey.Expire <= time.Now().Unix()+gen.ExpireTime, "new-key-expire", "%+v", c.PublicKey)
				q, err := kp.lookup(c.PublicKey.KeyID)
				v.check(err == nil && q == &c.PublicKey, "new-key-lookup", "%v", err)
				cur = c
			} else {
				v.check(c == cur && len(saved) == n, "early", "key expiring at %d at time %d with lifetime %d renewed", cur.PublicKey.Expire, now, gen.ExpireTime)
			}
			v.check(p == prev, "previous", "wrong previous key")
		}
	}
	v.done()
}

// TestVerifStorage: storages are asked in the order they were registered.
func TestVerifStorage(t *testing.T) {
	v := vStart(t)
	for n := 1; n < 5; n++ {
		for failing := 0; failing < 1<<uint(n); failing++ {
			kp := New(&signkeys.KeyGenerator{})
			var log []string
			for i := 0; i < n; i++ {
				i := i
				bad := failing>>uint(i)&1 == 1
				kp.RegisterStorage(func(id []byte) ([]byte, error) {
					log = append(log, "f")
					if bad {
						return nil, errors.New("f")
					}
					return []byte{byte(i)}, nil
				}, func(id []byte, u string, m []byte) error {
					log = append(log, "w")
					if bad {
						return errors.New("w")
					}
					return nil
				}, func(*KeyPool) error {
					log = append(log, "l")
					if bad {
						return errors.New("l")
					}
					return nil
				})
			}
			first := n // first storage without a fault
			fault := n // first storage with a fault
			for i := n - 1; i >= 0; i-- {
				if failing>>uint(i)&1 == 1 {
					fault = i
				} else {
					first = i
				}
			}
			b, err := kp.FetchKeyCallBack(nil)
			if first == n {
				v.check(err != nil && len(log) == n, "fetch", "%v", err)
			} else {
				v.check(err == nil && len(b) == 1 && int(b[0]) == first && len(log) == first+1, "fetch", "%v %v %v", b, err, log)
			}
			log = nil
			err = kp.WriteKeyCallback(nil, "", nil)
			v.check((err != nil) == (fault < n), "write", "%v", err)
			if fault == n {
				v.check(len(log) == n, "write-all", "%v", log)
			}
			log = nil
			err = kp.Load()
			v.check((err != nil) == (fault < n), "load-all", "%v", err)
		}
	}
	v.check(New(&signkeys.KeyGenerator{}).Load() == nil, "load-none", "error without storage")
	v.done()
}

func vScalar(seed []byte) *big.Int {
	h := sha512.Sum512(seed)
	h[0] &= 248
	h[31] = h[31]&127 | 64
	return vLE(h[:32])
}

func vLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// vSign makes another valid signature, with the key of another seed as nonce.
func vSign(priv ed25519.PrivateKey, msg []byte) []byte {
	n := ed25519.NewKeyFromSeed(make([]byte, 32))
	h := sha512.New()
	h.Write(n[32:])
	h.Write(priv[32:])
	h.Write(msg)
	l, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	s := new(big.Int).Mul(vLE(h.Sum(nil)), vScalar(priv[:32]))
	s.Add(s, vScalar(n[:32])).Mod(s, l)
	b := make([]byte, 32)
	for i, x := range s.FillBytes(make([]byte, 32)) {
		b[31-i] = x
	}
	return append(append([]byte{}, n[32:]...), b...)
}
