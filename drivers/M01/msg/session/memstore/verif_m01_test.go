package memstore

import (
	"encoding/base64"
	"fmt"
	"testing"

	"github.com/mutecomm/mute/log"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/uid"
)

func init() { log.Init("critical", "mem  ", "", true) }

type mSess struct {
	root, chain string
	send, recv  []string
}

// Random histories of store operations against a plain model of the store.
func TestVerifHistory(t *testing.T) {
	v := vStart(t)
	e := func(n int) string { return base64.StdEncoding.EncodeToString(v.bytes(n)) }
	for run := 0; run < v.n2(200, 3000); run++ {
		ms := New()
		var st session.Store = ms
		m := map[string]*mSess{}
		states := map[string]*session.State{}
		type sk struct {
			j, p string
			c    uint64
		}
		keys := map[string]*sk{}
		priv := map[string]*uid.KeyEntry{}
		hist := ""
		fail := func(key, f string, a ...interface{}) { v.fail(key, "%s; history:%s", fmt.Sprintf(f, a...), hist) }
		for op := 0; op < 40; op++ {
			k := fmt.Sprintf("s%d", v.r.Intn(3))
			if op%7 == 6 {
				k = ""
			}
			v.ok()
			switch x := v.r.Intn(12); x {
			case 0, 1:
				n, d := v.r.Intn(4), 0
				if v.r.Intn(5) == 0 {
					d = 1
				}
				var s, r []string
				for i := 0; i < n; i++ {
					s = append(s, e(64))
				}
				for i := 0; i < n+d; i++ {
					r = append(r, e(64))
				}
				root, chain := e(64), e(32)
				hist += fmt.Sprintf(" StoreSession(%s,%d,%d)", k, len(s), len(r))
				err := st.StoreSession(k, root, chain, s, r)
				if (err == nil) != (d == 0) {
					fail("store", "StoreSession with %d send and %d receive keys: %v", len(s), len(r), err)
				}
				if d == 0 {
					if o := m[k]; o != nil {
						o.chain = chain
						o.send = append(o.send, s...)
						o.recv = append(o.recv, r...)
					} else {
						m[k] = &mSess{root, chain, append([]string(nil), s...), append([]string(nil), r...)}
					}
				}
			case 2, 3:
				i := uint64(v.r.Intn(5))
				if v.r.Intn(10) == 0 {
					i = ^uint64(0) - uint64(v.r.Intn(3))
				}
				snd := v.r.Intn(2) == 0
				hist += fmt.Sprintf(" DelMessageKey(%s,%v,%d)", k, snd, i)
				var err error
				if p, s := v.panics(func() { err = st.DelMessageKey(k, snd, i) }); p {
					fail("del", "panic %s", s)
					continue
				}
				o := m[k]
				if (err == nil) != (o != nil && i < uint64(len(o.send))) {
					fail("del", "DelMessageKey: %v", err)
				}
				if err == nil && o != nil {
					if snd {
						o.send[i] = ""
					} else {
						o.recv[i] = ""
					}
				}
			case 4:
				s := &session.State{SenderMessageCount: uint64(op)}
				hist += fmt.Sprintf(" SetSessionState(%s)", k)
				if err := st.SetSessionState(k, s); err != nil {
					fail("state", "%v", err)
				}
				states[k] = s
			case 5:
				c := uint64(v.r.Intn(10))
				hist += fmt.Sprintf(" AddSessionKey(%s,%d)", k, c)
				if err := st.AddSessionKey(k, "j"+fmt.Sprint(op), "p"+fmt.Sprint(op), c); err != nil {
					fail("skey", "%v", err)
				}
				keys[k] = &sk{"j" + fmt.Sprint(op), "p" + fmt.Sprint(op), c}
			case 6:
				hist += fmt.Sprintf(" DelPrivSessionKey(%s)", k)
				if err := st.DelPrivSessionKey(k); err != nil {
					fail("skey", "%v", err)
				}
				if keys[k] != nil {
					keys[k].p = ""
				}
			case 7:
				c := uint64(v.r.Intn(12))
				hist += fmt.Sprintf(" CleanupSessionKeys(%d)", c)
				if err := st.CleanupSessionKeys(c); err != nil {
					fail("cleanup", "%v", err)
				}
				for n, s := range keys {
					if s.c < c {
						delete(keys, n)
					}
				}
			case 8:
				ke := &uid.KeyEntry{HASH: k}
				hist += fmt.Sprintf(" AddPrivateKeyEntry(%s)", k)
				ms.AddPrivateKeyEntry(ke)
				priv[k] = ke
			}
			// compare everything observable
			for _, k := range []string{"s0", "s1", "s2", ""} {
				o := m[k]
				if st.HasSession(k) != (o != nil) {
					fail("has", "HasSession(%s) = %v", k, st.HasSession(k))
				}
				n, err := st.NumMessageKeys(k)
				if (err == nil) != (o != nil) || o != nil && n != uint64(len(o.send)) {
					fail("num", "NumMessageKeys(%s) = %d, %v", k, n, err)
				}
				cnt := 4
				if o != nil {
					cnt = len(o.send) + 1
				}
				for i := 0; i <= cnt; i++ {
					ix := uint64(i)
					if i == cnt {
						ix = ^uint64(0)
					}
					for _, snd := range []bool{true, false} {
						var key *[64]byte
						var err error
						if p, s := v.panics(func() { key, err = st.GetMessageKey(k, snd, ix) }); p {
							fail("get", "panic %s", s)
							continue
						}
						want := ""
						if o != nil && ix < uint64(len(o.send)) {
							want = o.recv[ix]
							if snd {
								want = o.send[ix]
							}
							if want == "" && err != session.ErrMessageKeyUsed {
								fail("used", "a used key %s/%v/%d gives %v", k, snd, ix, err)
							}
						}
						if (err == nil) != (want != "") || (err == nil) != (key != nil) {
							fail("get", "GetMessageKey(%s,%v,%d): %v", k, snd, ix, err)
						} else if err == nil && base64.StdEncoding.EncodeToString(key[:]) != want {
							fail("get", "GetMessageKey(%s,%v,%d) returned another key", k, snd, ix)
						}
					}
				}
				if rh, err := st.GetRootKeyHash(k); (err == nil) != (o != nil) || err == nil && base64.StdEncoding.EncodeToString(rh[:]) != o.root {
					fail("root", "GetRootKeyHash(%s): %v", k, err)
				}
				if ck, err := st.GetChainKey(k); (err == nil) != (o != nil) || err == nil && base64.StdEncoding.EncodeToString(ck[:]) != o.chain {
					fail("chain", "GetChainKey(%s): %v", k, err)
				}
				if s, err := st.GetSessionState(k); err != nil || s != states[k] {
					fail("state", "GetSessionState(%s): %v", k, err)
				}
				j, p, err := st.GetSessionKey(k)
				if s := keys[k]; s == nil {
					if err != session.ErrNoKeyEntry || j != "" || p != "" {
						fail("skey", "GetSessionKey(%s) of a missing key: %v", k, err)
					}
				} else if err != nil || j != s.j || p != s.p {
					fail("skey", "GetSessionKey(%s) = %q %q %v, want %q %q", k, j, p, err, s.j, s.p)
				}
				ke, err := st.GetPrivateKeyEntry(k)
				if priv[k] == nil {
					if err != session.ErrNoKeyEntry || ke != nil {
						fail("priv", "GetPrivateKeyEntry(%s) of a missing key: %v", k, err)
					}
				} else if err != nil || ke != priv[k] {
					fail("priv", "GetPrivateKeyEntry(%s): %v", k, err)
				}
			}
			if v.fails > 20 {
				return
			}
		}
	}
	v.done()
}

// Stored keys of the wrong length are refused.
func TestVerifLengths(t *testing.T) {
	v := vStart(t)
	for n := 0; n < 64; n++ {
		ms := New()
		s := base64.StdEncoding.EncodeToString(v.bytes(n))
		ms.StoreSession("k", s, s, []string{s}, []string{s})
		for _, snd := range []bool{true, false} {
			k, err := ms.GetMessageKey("k", snd, 0)
			v.check(err != nil && k == nil, "short", "message key of %d bytes", n)
		}
		_, err := ms.GetRootKeyHash("k")
		v.check(err != nil, "short", "root key hash of %d bytes", n)
		if n < 32 {
			_, err = ms.GetChainKey("k")
			v.check(err != nil, "short", "chain key of %d bytes", n)
		}
	}
	ms := New()
	ms.StoreSession("k", "!", "!", []string{"!"}, []string{"!"})
	_, e1 := ms.GetMessageKey("k", true, 0)
	_, e2 := ms.GetMessageKey("k", false, 0)
	_, e3 := ms.GetRootKeyHash("k")
	_, e4 := ms.GetChainKey("k")
	v.check(e1 != nil && e2 != nil && e3 != nil && e4 != nil, "base64", "malformed stored key accepted")
	v.done()
}
