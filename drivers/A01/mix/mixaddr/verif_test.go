package mixaddr

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"os"
	"reflect"
	"sort"
	"testing"

	"golang.org/x/crypto/curve25519"
)

func (v *vT) signer() (pub *[32]byte, priv *[64]byte) {
	p, s, _ := ed25519.GenerateKey(v.r)
	pub, priv = new([32]byte), new([64]byte)
	copy(pub[:], p)
	copy(priv[:], s)
	return
}

// vImage: what a signature of the list covers
func vImage(l AddressList) []byte {
	var b []byte
	for _, a := range l {
		var e [8]byte
		binary.BigEndian.PutUint64(e[:], uint64(a.Expire))
		b = append(b, a.Pubkey...)
		b = append(b, e[:]...)
		b = append(b, a.Address...)
		b = append(b, a.TokenKey...)
	}
	h := sha256.Sum256(b)
	return h[:]
}

func vFit(b []byte, n int) []byte {
	r := make([]byte, n)
	copy(r, b)
	return r
}

func vGood(s AddressStatement) bool {
	return ed25519.Verify(vFit(s.PublicKey, 32), vImage(s.Addresses), vFit(s.Signature, 64))
}

func (v *vT) addr(now int64) Address {
	a := Address{Pubkey: v.sbytes(32), TokenKey: v.sbytes(32), Expire: now + int64(v.r.Intn(5)) - 2, Address: fmt.Sprintf("mix%d.mute.berlin:%d", v.r.Intn(99), v.r.Intn(99))}
	switch v.r.Intn(12) {
	case 0:
		a.Expire = 0
	case 1:
		a.Expire = -1 - int64(v.r.Intn(9))
	case 2:
		a.Expire = int64(v.u64())
	case 3:
		a.Address = ""
	case 4:
		a.TokenKey = nil
	case 5:
		a.Pubkey = v.sbytes(v.r.Intn(40))
	case 6:
		a.TokenKey = v.sbytes(v.r.Intn(70))
	}
	return a
}

func (v *vT) list(now int64, n int) AddressList {
	var l AddressList
	for i := 0; i < n; i++ {
		l = append(l, v.addr(now))
	}
	return l
}

func vCopy(l AddressList) AddressList {
	var r AddressList
	for _, a := range l {
		r = append(r, Address{append([]byte{}, a.Pubkey...), a.Expire, a.Address, append([]byte{}, a.TokenKey...)})
	}
	return r
}

func vSameAddr(a, b Address) bool {
	return a.Expire == b.Expire && a.Address == b.Address && bytes.Equal(a.Pubkey, b.Pubkey) && bytes.Equal(a.TokenKey, b.TokenKey)
}

func vSameList(a, b AddressList) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vSameAddr(a[i], b[i]) {
			return false
		}
	}
	return true
}

// TestVerifStatement: statements hold for what was signed and nothing else; only unexpired addresses of them are taken.
func TestVerifStatement(t *testing.T) {
	v := vStart(t)
	now := int64(1500000000)
	old := timeNow
	timeNow = func() int64 { return now }
	defer func() { timeNow = old }()
	for i := 0; i < v.n2(1500, 20000); i++ {
		now = 1500000000 + int64(v.r.Intn(10))
		pub, priv := v.signer()
		l := v.list(now, v.r.Intn(5))
		was := vCopy(l)
		s := l.Statement(priv)
		v.check(vSameList(s.Addresses, was) && bytes.Equal(s.PublicKey, pub[:]), "statement", "statement of %v lists %v, key %x", was, s.Addresses, s.PublicKey)
		v.check(bytes.Equal(s.Signature, ed25519.Sign(priv[:], vImage(was))), "signature", "the signature of %v does not cover the list", was)
		v.check(s.Verify(), "verify-own", "statement of %v does not hold", was)
		// a change
		m := AddressStatement{vCopy(was), append([]byte{}, s.Signature...), append([]byte{}, s.PublicKey...)}
		what := v.r.Intn(14)
		if len(m.Addresses) == 0 && what < 8 {
			what = 8
		}
		switch k := 0; what {
		case 0, 1, 2, 3:
			k = v.r.Intn(len(m.Addresses))
			a := &m.Addresses[k]
			switch what {
			case 0:
				a.Expire += []int64{1, -1, 1 << 8, 1 << 16, 1 << 24, 1 << 32, 1 << 40, 1 << 56, -1 << 63}[v.r.Intn(9)]
			case 1:
				a.Address += "x"
			case 2:
				if len(a.Pubkey) > 0 {
					a.Pubkey[v.r.Intn(len(a.Pubkey))] ^= 1 << uint(v.r.Intn(8))
				}
			case 3:
				if len(a.TokenKey) > 0 {
					a.TokenKey[v.r.Intn(len(a.TokenKey))] ^= 1 << uint(v.r.Intn(8))
				}
			}
		case 4:
			m.Addresses = m.Addresses[1:]
		case 5:
			m.Addresses = m.Addresses[:len(m.Addresses)-1]
		case 6:
			m.Addresses = append(m.Addresses, m.Addresses[0])
		case 7:
			j := v.r.Intn(len(m.Addresses))
			m.Addresses[0], m.Addresses[j] = m.Addresses[j], m.Addresses[0]
		case 8:
			m.Signature[v.r.Intn(64)] ^= 1 << uint(v.r.Intn(8))
		case 9:
			m.Signature = m.Signature[:v.r.Intn(64)]
		case 10:
			m.PublicKey[v.r.Intn(32)] ^= 1 << uint(v.r.Intn(8))
		case 11:
			p, _ := v.signer()
			m.PublicKey = p[:]
		case 12:
			m.Signature = nil
		}
		good := vGood(m)
		v.noPanic("verify-panic", func() {
			v.check(m.Verify() == good, "verify", "statement %v (change %d) holds: %v, should be %v", m, what, !good, good)
		}, "%v", m)
		// merging
		base := v.list(now, v.r.Intn(3))
		if len(base) > 0 && v.r.Intn(2) == 0 {
			base = append(make(AddressList, 0, 10), base...)
		}
		bw := vCopy(base)
		for _, st := range []AddressStatement{s, m} {
			want := vCopy(bw)
			if vGood(st) {
				for _, a := range st.Addresses {
					if a.Expire > now {
						want = append(want, a)
					}
				}
			}
			got := base.AddStatement(st)
			v.check(vSameList(got, want), "merge", "merging %v at %d into %v: %v, want %v", st, now, bw, got, want)
			v.check(vSameList(base, bw), "merge-changed", "merging changed the list it was merged into")
			// a client keeps what it has merged, over many statements
			if v.r.Intn(3) == 0 {
				again := got.AddStatement(s)
				if vGood(s) {
					for _, a := range s.Addresses {
						if a.Expire > now {
							want = append(want, a)
						}
					}
				}
				v.check(vSameList(again, want), "merge-again", "merging again: %v, want %v", again, want)
			}
		}
		// expiry
		for _, at := range []int64{0, now, now - 1, now + 1, int64(v.u64())} {
			lim := at
			if at == 0 {
				lim = now
			}
			var want AddressList
			for _, a := range was {
				if a.Expire > lim {
					want = append(want, a)
				}
			}
			got := l.Expire(at)
			v.check(vSameList(got, want), "expire", "expiring %v at %d: %v", was, lim, got)
			v.check(vSameList(l, was), "expire-changed", "expiring changed the list")
			// the list keeps its own addresses when the result grows
			_ = append(got, Address{Address: "other"})
			v.check(vSameList(l, was), "expire-alias", "what is added to the expired list appears in the list")
			r := got.Rand()
			found := r == nil && len(got) == 0
			for k := range got {
				found = found || r != nil && vSameAddr(*r, got[k])
			}
			v.check(found, "rand", "random address of %v: %v", got, r)
		}
		// storage
		u, err := AddressList(nil).Unmarshal(l.Marshal())
		var want AddressList
		for _, a := range was {
			if a.Expire > now {
				want = append(want, a)
			}
		}
		v.check(err == nil && vSameList(u, want), "stored", "stored %v, read %v %v", was, u, err)
	}
	v.done()
}

// TestVerifKeys: histories of a mix's key list against a plain map.
func TestVerifKeys(t *testing.T) {
	v := vStart(t)
	now := int64(1500000000)
	old, oldRand := timeNow, Rand
	timeNow = func() int64 { return now }
	defer func() { timeNow, Rand = old, oldRand }()
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	for h := 0; h < v.n2(150, 1500); h++ {
		pub, priv := v.signer()
		dur := int64(v.r.Intn(8))
		kl := New(priv, fmt.Sprintf("mix%d:1", h), dur, 3, dir)
		v.check(kl.PublicKey != nil && *kl.PublicKey == *pub, "public", "the list's public key is %x, want %x", kl.PublicKey, *pub)
		model := map[[32]byte]KeyEntry{}
		var stated map[[32]byte]KeyEntry
		var all [][32]byte
		var held []*AddressStatement // statements given out
		var heldWas []AddressList
		state := func() {
			stated = map[[32]byte]KeyEntry{}
			for k, e := range model {
				stated[k] = e
			}
		}
		expire := func() {
			for k, e := range model {
				if e.Expire < now {
					delete(model, k)
				}
			}
		}
		for step := 0; step < 30; step++ {
			switch op := v.r.Intn(10); op {
			case 0, 1, 2:
				b := v.bytes(32)
				Rand = bytes.NewReader(b)
				kl.AddKey()
				Rand = oldRand
				var pk, sk [32]byte
				copy(sk[:], b)
				curve25519.ScalarBaseMult(&pk, &sk)
				model[pk] = KeyEntry{pk[:], append([]byte{}, b...), now + dur, kl.Address, pub[:]}
				all = append(all, pk)
				state()
			case 3:
				kl.Expire()
				expire()
			case 4: // another list takes the stored keys
				d := kl.Marshal()
				k2 := New(priv, kl.Address, dur, 3, dir)
				if err := k2.Unmarshal(d); err != nil {
					v.fail("unmarshal", "%v", err)
					continue
				}
				kl = k2
				expire()
				state()
			case 5:
				if err := kl.Unmarshal([]byte("{")); err == nil {
					v.fail("unmarshal-bad", "no error")
				}
			case 6, 7:
				now += int64(v.r.Intn(4))
			case 8:
				Rand = bytes.NewReader(v.bytes(v.r.Intn(32)))
				v.panics(kl.AddKey)
				Rand = oldRand
			case 9:
				f, l := kl.GetBoundaryTime()
				for _, e := range model {
					v.check(f <= e.Expire && e.Expire <= l, "boundary", "a key expires at %d outside of %d..%d", e.Expire, f, l)
				}
			}
			// keys
			for _, k := range append([][32]byte{{1}, *pub}, all...) {
				k := k
				e, has := model[k]
				has = has && e.Expire >= now
				p := kl.GetPrivateKey(&k)
				if v.check((p != nil) == has, "private", "private key of %x (expires %d, now %d) given out: %v", k, e.Expire, now, p != nil) && has {
					v.check(bytes.Equal(p[:], e.Privkey), "private-other", "private key of %x is %x, want %x", k, *p, e.Privkey)
					p[0] ^= 1 // the caller's copy
				}
				g := kl.GetKeyEntry(&k)
				if v.check((g != nil) == has, "entry", "key entry of %x (expires %d, now %d) given out: %v", k, e.Expire, now, g != nil) && has {
					v.check(reflect.DeepEqual(*g, e), "entry-other", "key entry %v, want %v", *g, e)
					g.Expire = 1
				}
			}
			v.check(len(kl.Keys) == len(model), "keys", "%d keys kept, want %d (now %d): %v", len(kl.Keys), len(model), now, model)
			// statement
			st := kl.GetStatement()
			if st != nil {
				held, heldWas = append(held, st), append(heldWas, vCopy(st.Addresses))
			}
			for k, s := range held {
				v.check(vSameList(s.Addresses, heldWas[k]) && s.Verify(), "stated-held", "a statement given out changed")
			}
			if stated == nil {
				continue
			}
			if !v.check(st != nil && vGood(*st) && bytes.Equal(st.PublicKey, pub[:]), "stated-signature", "the statement %v does not hold under the mix's key", st) {
				continue
			}
			var got, want []string
			for _, a := range st.Addresses {
				got = append(got, fmt.Sprintf("%x %d %s %x", a.Pubkey, a.Expire, a.Address, a.TokenKey))
			}
			for _, e := range stated {
				want = append(want, fmt.Sprintf("%x %d %s %x", e.Pubkey, e.Expire, e.Address, e.TokenKey))
			}
			sort.Strings(got)
			sort.Strings(want)
			v.check(reflect.DeepEqual(got, want), "stated", "stated %v, want %v", got, want)
		}
		f, _ := os.ReadDir(dir)
		for _, e := range f {
			os.Remove(dir + "/" + e.Name())
		}
	}
	v.done()
}
