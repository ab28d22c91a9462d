package walletstore

import (
	"bytes"
	"crypto/ed25519"
	"database/sql"
	"encoding/hex"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"sync"
	"testing"

	_ "github.com/mutecomm/go-sqlcipher/v4"
	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/util/times"
)

func vWS(v *vT, path string) *Storage {
	db, err := sql.Open("sqlite3", path)
	if err != nil {
		v.t.Fatal(err)
	}
	ws, err := New(db)
	if err != nil {
		v.t.Fatal(err)
	}
	return ws
}

func vTmp(t *testing.T) (string, func()) {
	d, err := ioutil.TempDir("", "verif-wallet")
	if err != nil {
		t.Fatal(err)
	}
	return d, func() { os.RemoveAll(d) }
}

type vTok struct {
	t      client.TokenEntry
	lock   int64 // 0: free
	expire int64
}

func vOpt(v *vT) []byte {
	switch v.r.Intn(4) {
	case 0, 1:
		return nil
	case 2:
		return v.bytes(1)
	}
	return v.bytes(1 + v.r.Intn(300))
}

func vPub(v *vT) *[ed25519.PublicKeySize]byte {
	k := new([ed25519.PublicKeySize]byte)
	copy(k[:], v.bytes(32))
	return k
}

func vPriv(v *vT) *[ed25519.PrivateKeySize]byte {
	k := new([ed25519.PrivateKeySize]byte)
	copy(k[:], v.bytes(64))
	return k
}

var vUsages = []string{"u", "U", "usage two", "", "x'y", "%"}

func vToken(v *vT, owners []*[32]byte, expire int64) client.TokenEntry {
	t := client.TokenEntry{
		Hash: v.bytes(32), Token: v.bytes(v.r.Intn(200)), OwnerPubKey: owners[v.r.Intn(len(owners))],
		Renewable: v.r.Intn(2) == 0, CanReissue: v.r.Intn(2) == 0, Usage: vUsages[v.r.Intn(len(vUsages))], Expire: expire,
	}
	if v.r.Intn(2) == 0 {
		t.OwnerPrivKey = vPriv(v)
	}
	if v.r.Intn(3) == 0 {
		t.Params = vOpt(v)
	}
	if v.r.Intn(3) == 0 {
		t.ServerPacket, t.BlindingFactors = vOpt(v), vOpt(v)
		t.NewOwnerPubKey = vPub(v)
		if v.r.Intn(2) == 0 {
			t.NewOwnerPrivKey = vPriv(v)
		}
	}
	return t
}

func vHasState(t client.TokenEntry) bool {
	return t.ServerPacket != nil || t.BlindingFactors != nil || t.NewOwnerPrivKey != nil
}

// vStored: the token as it is kept: a new owner is kept with the state only
func vStored(t client.TokenEntry) client.TokenEntry {
	if !vHasState(t) && t.Params == nil {
		t.NewOwnerPubKey = nil
	}
	return t
}

func vSame(a, b client.TokenEntry) bool {
	k32 := func(x, y *[32]byte) bool { return (x == nil) == (y == nil) && (x == nil || *x == *y) }
	k64 := func(x, y *[64]byte) bool { return (x == nil) == (y == nil) && (x == nil || *x == *y) }
	return bytes.Equal(a.Hash, b.Hash) && bytes.Equal(a.Token, b.Token) && bytes.Equal(a.Params, b.Params) &&
		k32(a.OwnerPubKey, b.OwnerPubKey) && k64(a.OwnerPrivKey, b.OwnerPrivKey) && a.Renewable == b.Renewable &&
		a.CanReissue == b.CanReissue && a.Usage == b.Usage && a.Expire == b.Expire &&
		bytes.Equal(a.ServerPacket, b.ServerPacket) && bytes.Equal(a.BlindingFactors, b.BlindingFactors) &&
		k32(a.NewOwnerPubKey, b.NewOwnerPubKey) && k64(a.NewOwnerPrivKey, b.NewOwnerPrivKey)
}

// histories of the store against a map
func TestVerifModel(t *testing.T) {
	v := vStart(t)
	defer v.done()
	for i := 0; i < v.n2(6, 30); i++ {
		vModel(v, i)
	}
}

func vModel(v *vT, round int) {
	dir, cleanup := vTmp(v.t)
	defer cleanup()
	path := filepath.Join(dir, "wallet.db")
	ws := vWS(v, path)
	defer func() { ws.DB.Close() }()
	now := times.Now()
	toks := map[string]*vTok{}
	owners := []*[32]byte{vPub(v), vPub(v), vPub(v)}
	var auth []byte
	var tries int
	var keys [][32]byte
	seq := int64(0)
	newExpire := func() int64 { // distinct, far from the limits
		seq++
		switch v.r.Intn(5) {
		case 0: // unusable
			return now - ExpireEdge - 1000000 + seq
		case 1: // expired lately
			return now - ExpireEdge + 10000 + seq
		case 2: // soon to expire
			return now + ExpireEdge - 100000 + seq
		}
		return now + ExpireEdge + 100000 + seq*7
	}
	pick := func() string {
		var hs []string
		for h := range toks {
			hs = append(hs, h)
		}
		sort.Strings(hs)
		if len(hs) == 0 || v.r.Intn(12) == 0 {
			return string(v.bytes(32))
		}
		return hs[v.r.Intn(len(hs))]
	}
	best := func(f func(k *vTok) bool) (string, *vTok) {
		bh, b := "", (*vTok)(nil)
		for h, k := range toks {
			if f(k) && (b == nil || k.t.Expire < b.t.Expire) {
				bh, b = h, k
			}
		}
		return bh, b
	}
	count := func(f func(k *vTok) bool) (n int64) {
		for _, k := range toks {
			if f(k) {
				n++
			}
		}
		return
	}
	lockOf := func(h string) int64 {
		var id int64
		if err := ws.DB.QueryRow("SELECT LockID FROM walletTokens WHERE Hash=?", hex.EncodeToString([]byte(h))).Scan(&id); err != nil {
			v.fail("lockrow", "%v", err)
		}
		return id
	}
	setAge := func(h string, age int64) {
		if _, err := ws.DB.Exec("UPDATE walletTokens SET LockTime=? WHERE Hash=?", times.Now()-age, hex.EncodeToString([]byte(h))); err != nil {
			v.t.Fatal(err)
		}
	}
	checkAll := func() {
		for h, k := range toks {
			g, err := ws.GetToken([]byte(h), -1)
			if !v.check(err == nil, "get/lost", "token %x: %v", h, err) {
				continue
			}
			v.check(vSame(*g, vStored(k.t)), "get/content", "token %x is %+v, was set as %+v", h, *g, k.t)
		}
	}
	reopen := func() {
		// some locks are old by now
		for h, k := range toks {
			if k.lock != 0 {
				if v.r.Intn(2) == 0 {
					setAge(h, MaxLockAge+100)
					k.lock = 0
				} else {
					setAge(h, int64(v.r.Intn(int(MaxLockAge)-100)))
				}
			}
		}
		if err := ws.DB.Close(); err != nil {
			v.t.Fatal(err)
		}
		ws = vWS(v, path)
	}
	for op := 0; op < v.n2(120, 250); op++ {
		usage := vUsages[v.r.Intn(len(vUsages))]
		owner := owners[v.r.Intn(len(owners))]
		switch v.r.Intn(17) {
		case 0, 1, 2, 3: // a new token
			t := vToken(v, owners, newExpire())
			err := ws.SetToken(t)
			v.check(err == nil, "set", "%v", err)
			toks[string(t.Hash)] = &vTok{t: t}
		case 4, 5: // the token of a hash is replaced
			h := pick()
			k := toks[h]
			if k == nil {
				continue
			}
			t := vToken(v, owners, newExpire())
			t.Hash = []byte(h)
			err := ws.SetToken(t)
			v.check(err == nil, "set/again", "%v", err)
			k.t = t
		case 6, 7:
			h := pick()
			id := ws.LockToken([]byte(h))
			k := toks[h]
			switch {
			case k == nil:
				v.check(id < 0, "lock/unknown", "an unknown token was locked (%d)", id)
			case k.lock != 0:
				v.check(id < 0, "lock/twice", "a locked token (%d) was locked again (%d)", k.lock, id)
			default:
				if v.check(id > 0, "lock", "a free token could not be locked (%d)", id) {
					k.lock = id
					v.check(lockOf(h) == id, "lock/id", "lock ID %d, stored %d", id, lockOf(h))
				}
			}
		case 8:
			h := pick()
			ws.UnlockToken([]byte(h))
			if k := toks[h]; k != nil {
				k.lock = 0
			}
		case 9:
			h := pick()
			id := int64(1 + v.r.Intn(1000))
			k := toks[h]
			if k != nil && k.lock != 0 && v.r.Intn(2) == 0 {
				id = k.lock
			}
			if v.r.Intn(4) == 0 {
				id = 0
			}
			g, err := ws.GetToken([]byte(h), id)
			switch {
			case k == nil:
				v.check(err != nil && g == nil, "get/unknown", "%v", g)
			case k.lock == 0 || k.lock == id:
				v.check(err == nil && g != nil && vSame(*g, vStored(k.t)), "get/locked-by-me", "%v", err)
			default:
				v.check(err == client.ErrLocked && g == nil, "get/locked", "locked by %d, asked with %d: %v", k.lock, id, err)
			}
		case 10:
			h := pick()
			if v.r.Intn(2) == 0 {
				ws.DelToken([]byte(h))
				delete(toks, h)
				_, err := ws.GetToken([]byte(h), -1)
				v.check(err != nil, "del", "a deleted token is still there")
			}
		case 11, 12:
			var f func(k *vTok) bool
			var o *[32]byte
			if v.r.Intn(2) == 0 {
				o = owner
			}
			f = func(k *vTok) bool {
				return k.lock == 0 && !vHasState(k.t) && k.t.OwnerPrivKey == nil && k.t.Usage == usage && (o == nil || *k.t.OwnerPubKey == *o)
			}
			v.check(ws.GetBalance(usage, o) == count(f), "balance", "balance of %q is %d, there are %d", usage, ws.GetBalance(usage, o), count(f))
			h, k := best(f)
			g, err := ws.GetAndLockToken(usage, o)
			if k == nil {
				v.check(err == client.ErrNoToken && g == nil, "getlock/none", "%v %v", g, err)
			} else if v.check(err == nil && g != nil, "getlock", "%v", err) {
				v.check(vSame(*g, vStored(k.t)), "getlock/content", "got %+v, expected %+v", *g, k.t)
				k.lock = lockOf(h)
				v.check(k.lock > 0, "getlock/unlocked", "the token handed out is not locked")
			}
		case 13:
			f := func(k *vTok) bool {
				return k.lock == 0 && !vHasState(k.t) && k.t.OwnerPrivKey != nil && k.t.Usage == usage
			}
			v.check(ws.GetBalanceOwn(usage) == count(f), "balanceown", "%q: %d, there are %d", usage, ws.GetBalanceOwn(usage), count(f))
			_, k := best(f)
			g, err := ws.FindToken(usage)
			if k == nil {
				v.check(err == client.ErrNoToken && g == nil, "find/none", "%v %v", g, err)
			} else {
				v.check(err == nil && g != nil && vSame(*g, vStored(k.t)), "find", "%v", err)
			}
		case 14:
			_, k := best(func(k *vTok) bool {
				return k.lock == 0 && k.t.Renewable && !vHasState(k.t) && k.t.Params == nil && k.t.OwnerPrivKey != nil && k.t.Expire < now+ExpireEdge
			})
			h := ws.GetExpire()
			v.check((k == nil) == (h == nil) && (k == nil || bytes.Equal(h, k.t.Hash)), "getexpire", "got %x, expected %+v", h, k)
			_, k = best(func(k *vTok) bool { return k.lock == 0 && vHasState(k.t) })
			h = ws.GetInReissue()
			v.check((k == nil) == (h == nil) && (k == nil || bytes.Equal(h, k.t.Hash)), "getinreissue", "got %x, expected %+v", h, k)
		case 15:
			switch v.r.Intn(4) {
			case 0:
				auth, tries = v.bytes(1+v.r.Intn(100)), v.r.Intn(1000)
				v.check(ws.SetAuthToken(auth, tries) == nil, "auth/set", "")
			case 1:
				keys = nil
				for i := v.r.Intn(4); i >= 0; i-- {
					keys = append(keys, *vPub(v))
				}
				ws.SetVerifyKeys(keys)
			case 2:
				reopen()
			case 3:
				ws.CleanLocks(true)
				for _, k := range toks {
					k.lock = 0
				}
			}
			if v.r.Intn(2) == 0 {
				a, n := ws.GetAuthToken()
				v.check(bytes.Equal(a, auth) && n == tries, "auth", "auth token %x/%d, was set to %x/%d", a, n, auth, tries)
				ks := ws.GetVerifyKeys()
				v.check(len(ks) == len(keys) && (len(ks) == 0 || reflect.DeepEqual(ks, keys)), "keys", "%v, were set to %v", ks, keys)
			}
		case 16:
			if v.r.Intn(3) != 0 {
				continue
			}
			old := count(func(k *vTok) bool { return k.t.Expire < now-ExpireEdge })
			more := ws.ExpireUnusable()
			v.check(more == (old >= 10), "expire/more", "%d unusable tokens, more=%v", old, more)
			gone := int64(0)
			for h, k := range toks {
				if _, err := ws.GetToken([]byte(h), -1); err != nil {
					v.check(k.t.Expire < now-ExpireEdge, "expire/usable", "a usable token was deleted: %+v", k.t)
					delete(toks, h)
					gone++
				}
			}
			v.check(gone == old || old > 10 && gone == 10, "expire/gone", "%d of %d deleted", gone, old)
		}
	}
	checkAll()
	// nobody but the holder of the lock, and nothing a search must not find
	for h, k := range toks {
		for _, id := range []int64{0, 1, k.lock, k.lock + 1} {
			g, err := ws.GetToken([]byte(h), id)
			if k.lock == 0 || id == k.lock {
				v.check(err == nil && g != nil, "get/holder", "%v", err)
			} else {
				v.check(err == client.ErrLocked && g == nil, "get/other-lock", "locked by %d, asked with %d: %v", k.lock, id, err)
			}
		}
	}
	free := func(k *vTok) bool { return k.lock == 0 && !vHasState(k.t) }
	for _, u := range vUsages {
		own := func(k *vTok) bool { return free(k) && k.t.OwnerPrivKey != nil && k.t.Usage == u }
		v.check(ws.GetBalanceOwn(u) == count(own), "balanceown", "%q: %d, there are %d", u, ws.GetBalanceOwn(u), count(own))
		for _, o := range append(owners, nil) {
			f := func(k *vTok) bool {
				return free(k) && k.t.OwnerPrivKey == nil && k.t.Usage == u && (o == nil || *k.t.OwnerPubKey == *o)
			}
			v.check(ws.GetBalance(u, o) == count(f), "balance", "balance of %q is %d, there are %d", u, ws.GetBalance(u, o), count(f))
		}
	}
	for {
		_, k := best(func(k *vTok) bool {
			return free(k) && k.t.Renewable && k.t.Params == nil && k.t.OwnerPrivKey != nil && k.t.Expire < now+ExpireEdge
		})
		h := ws.GetExpire()
		v.check((k == nil) == (h == nil) && (k == nil || bytes.Equal(h, k.t.Hash)), "getexpire", "got %x, expected %+v", h, k)
		if k == nil || h == nil {
			break
		}
		k.lock = ws.LockToken(k.t.Hash)
	}
	for i := 0; i < 5; i++ {
		_, k := best(func(k *vTok) bool { return k.lock == 0 && vHasState(k.t) })
		h := ws.GetInReissue()
		v.check((k == nil) == (h == nil) && (k == nil || bytes.Equal(h, k.t.Hash)), "getinreissue", "got %x, expected %+v", h, k)
		if k == nil || h == nil {
			break
		}
		k.lock = ws.LockToken(k.t.Hash)
	}
	for h, k := range toks {
		v.check(lockOf(h) == k.lock, "lock/state", "locked by %d, expected %d", lockOf(h), k.lock)
	}
	reopen()
	checkAll()
	a, n := ws.GetAuthToken()
	v.check(bytes.Equal(a, auth) && n == tries, "auth/reopened", "auth token %x/%d, was set to %x/%d", a, n, auth, tries)
	ks := ws.GetVerifyKeys()
	v.check(len(ks) == len(keys) && (len(ks) == 0 || reflect.DeepEqual(ks, keys)), "keys/reopened", "%v, were set to %v", ks, keys)
}

// a part of the cache that is set before the rest was asked for keeps the rest
func TestVerifCacheReopen(t *testing.T) {
	v := vStart(t)
	defer v.done()
	dir, cleanup := vTmp(t)
	defer cleanup()
	for i := 0; i < v.n2(4, 20); i++ {
		path := filepath.Join(dir, hex.EncodeToString(v.bytes(8)))
		ws := vWS(v, path)
		auth, keys := v.bytes(20), [][32]byte{*vPub(v), *vPub(v)}
		ws.SetAuthToken(auth, i)
		ws.SetVerifyKeys(keys)
		ws.DB.Close()
		ws = vWS(v, path)
		if i%2 == 0 {
			auth = v.bytes(30)
			ws.SetAuthToken(auth, i)
		} else {
			keys = [][32]byte{*vPub(v)}
			ws.SetVerifyKeys(keys)
		}
		ws.DB.Close()
		ws = vWS(v, path)
		a, n := ws.GetAuthToken()
		v.check(bytes.Equal(a, auth) && n == i, "cache/auth", "%x/%d, was set to %x/%d", a, n, auth, i)
		v.check(reflect.DeepEqual(ws.GetVerifyKeys(), keys), "cache/keys", "%v, were set to %v", ws.GetVerifyKeys(), keys)
		ws.DB.Close()
	}
}

// of many lockers of a token one gets it
func TestVerifLockers(t *testing.T) {
	v := vStart(t)
	defer v.done()
	dir, cleanup := vTmp(t)
	defer cleanup()
	ws := vWS(v, filepath.Join(dir, "w"))
	defer ws.DB.Close()
	ws.DB.SetMaxOpenConns(2)
	for i := 0; i < v.n2(10, 60); i++ {
		tk := vToken(v, []*[32]byte{vPub(v)}, times.Now()+1000)
		tk.OwnerPrivKey, tk.ServerPacket, tk.BlindingFactors, tk.NewOwnerPrivKey, tk.Usage = nil, nil, nil, nil, "race"
		if err := ws.SetToken(tk); err != nil {
			v.t.Fatal(err)
		}
		var wg sync.WaitGroup
		ids := make([]int64, 4)
		got := make([]*client.TokenEntry, 4)
		for j := range ids {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				if j%2 == 0 {
					ids[j] = ws.LockToken(tk.Hash)
				} else {
					got[j], _ = ws.GetAndLockToken("race", nil)
				}
			}(j)
		}
		wg.Wait()
		n := 0
		for j := range ids {
			if ids[j] > 0 || got[j] != nil {
				n++
			}
		}
		v.check(n <= 1, "lock/race", "%d lockers of one token: %v %v", n, ids, got)
		ws.DelToken(tk.Hash)
	}
}

// failures of the database are reported
func TestVerifFailures(t *testing.T) {
	v := vStart(t)
	defer v.done()
	dir, cleanup := vTmp(t)
	defer cleanup()
	ws := vWS(v, filepath.Join(dir, "w"))
	tk := vToken(v, []*[32]byte{vPub(v)}, times.Now()+1000)
	tk.Params = []byte("p")
	if err := ws.SetToken(tk); err != nil {
		v.t.Fatal(err)
	}
	ex := func(s string) {
		if _, err := ws.DB.Exec(s); err != nil {
			v.t.Fatal(err)
		}
	}
	for _, tab := range []string{"walletTokens", "walletState"} {
		ex("CREATE TRIGGER a BEFORE INSERT ON " + tab + " BEGIN SELECT RAISE(FAIL, 'full'); END")
		ex("CREATE TRIGGER b BEFORE UPDATE ON " + tab + " BEGIN SELECT RAISE(FAIL, 'full'); END")
		v.check(ws.SetToken(tk) != nil, "fail/set", "%s cannot be written, and SetToken does not say so", tab)
		n := tk
		n.Hash = v.bytes(32)
		v.check(ws.SetToken(n) != nil, "fail/setnew", "%s cannot be written, and SetToken does not say so", tab)
		if tab == "walletState" {
			v.check(ws.SetAuthToken([]byte("x"), 1) != nil, "fail/auth", "")
		} else {
			v.check(ws.LockToken(tk.Hash) < 0, "fail/lock", "a token was locked without writing the lock")
			g, err := ws.GetAndLockToken(tk.Usage, nil)
			v.check(err != nil && g == nil, "fail/getlock", "a token was handed out without being locked")
		}
		ex("DROP TRIGGER a")
		ex("DROP TRIGGER b")
	}
	ws.DB.Close()
	v.check(ws.SetToken(tk) != nil, "closed/set", "")
	v.check(ws.LockToken(tk.Hash) < 0, "closed/lock", "")
	g, err := ws.GetToken(tk.Hash, -1)
	v.check(err != nil && g == nil, "closed/get", "")
	v.check(!ws.ExpireUnusable(), "closed/expire", "")
}

// columns and cache texts
func TestVerifEncoding(t *testing.T) {
	v := vStart(t)
	defer v.done()
	for i := 0; i < v.n2(300, 3000); i++ {
		tk := vToken(v, []*[32]byte{vPub(v)}, int64(v.u64()>>1))
		g, state := encodeToken(&tk)
		d, err := decodeToken(g, state)
		if v.check(err == nil && d != nil, "encode", "%v", err) {
			v.check(vSame(*d, vStored(tk)), "encode/content", "%+v became %+v", tk, *d)
		}
		c := &CacheData{AuthToken: v.bytes(v.r.Intn(50)), AuthTries: v.r.Intn(1 << 30)}
		for j := v.r.Intn(4); j > 0; j-- {
			c.VerifyKeys = append(c.VerifyKeys, *vPub(v))
		}
		s := c.Marshal()
		e, err := new(CacheData).Unmarshal(s)
		if v.check(err == nil && e != nil, "cache/unmarshal", "%v", err) {
			v.check(bytes.Equal(e.AuthToken, c.AuthToken) && e.AuthTries == c.AuthTries && len(e.VerifyKeys) == len(c.VerifyKeys) && (len(e.VerifyKeys) == 0 || reflect.DeepEqual(e.VerifyKeys, c.VerifyKeys)), "cache/content", "%+v became %+v", c, e)
		}
		b := []byte(s)
		if len(b) > 0 {
			b[v.r.Intn(len(b))] ^= byte(1 << uint(v.r.Intn(7)))
			v.noPanic("cache/panic", func() { new(CacheData).Unmarshal(string(b)) }, "%s", b)
		}
		if len(state) > 0 {
			b := []byte(state)
			b[v.r.Intn(len(b))] ^= byte(1 << uint(v.r.Intn(7)))
			v.noPanic("decode/panic", func() { decodeToken(g, string(b)) }, "%s", b)
		}
	}
}
