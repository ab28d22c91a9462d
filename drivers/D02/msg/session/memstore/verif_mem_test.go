package memstore

import (
	"encoding/base64"
	"fmt"
	"testing"

	"github.com/mutecomm/mute/log"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/uid"
)

func init() { log.Init("critical", "msg  ", "", true) }

type vSession struct {
	root, chain string
	keys        [2][]string // send, recv
}

type vSessionKey struct {
	json, priv string
	cleanup    uint64
}

// Random histories of the store against a model.
func TestVerifStore(t *testing.T) {
	v := vStart(t)
	enc := base64.StdEncoding.EncodeToString
	for h := 0; h < v.n2(60, 600); h++ {
		ms := New()
		sessions := map[string]*vSession{}
		states := map[string]*session.State{}
		skeys := map[string]vSessionKey{}
		privs := map[string]*uid.KeyEntry{}
		names := []string{"", "a", "b", "ab", "c d"}
		var ops []string
		bad := func(key, format string, a ...interface{}) {
			l := ops
			if len(l) > 12 {
				l = l[len(l)-12:]
			}
			v.fail(key, "history %d: %s; last operations %q", h, fmt.Sprintf(format, a...), l)
		}
		chk := func(c bool, key, format string, a ...interface{}) {
			v.ok()
			if !c {
				bad(key, format, a...)
			}
		}
		look := func(n string, sender bool, i uint64) {
			s := sessions[n]
			d := 1
			if sender {
				d = 0
			}
			k, err := ms.GetMessageKey(n, sender, i)
			switch {
			case s == nil || i >= uint64(len(s.keys[d])):
				chk(err != nil && k == nil && err != session.ErrMessageKeyUsed, "unknown-key", "key %q/%v/%d that was never stored: %v", n, sender, i, err)
			case s.keys[d][i] == "":
				chk(err == session.ErrMessageKeyUsed && k == nil, "used-key", "deleted key %q/%v/%d: %v", n, sender, i, err)
			default:
				if err != nil || k == nil {
					bad("lost-key", "stored key %q/%v/%d: %v", n, sender, i, err)
					return
				}
				chk(enc(k[:]) == s.keys[d][i], "wrong-key", "key %q/%v/%d is %s, stored %s", n, sender, i, enc(k[:]), s.keys[d][i])
			}
		}
		steps := 30 + v.r.Intn(60)
		for op := 0; op < steps && v.fails < 5; op++ {
			n := names[v.r.Intn(len(names))]
			switch v.r.Intn(9) {
			case 0, 1:
				c := []int{0, 1, 2, 7, 50, 50, 50, 120}[v.r.Intn(8)]
				d := c
				if v.r.Intn(8) == 0 {
					d = c + 1 + v.r.Intn(3)
				}
				mk := func(n int) (r []string) {
					for ; n > 0; n-- {
						r = append(r, enc(v.bytes(64)))
					}
					return
				}
				send, recv := mk(c), mk(d)
				if v.r.Intn(2) == 0 {
					send, recv = recv, send
				}
				root, chain := enc(v.bytes(64)), enc(v.bytes(32))
				ops = append(ops, fmt.Sprintf("StoreSession(%q, %d, %d)", n, len(send), len(recv)))
				err := ms.StoreSession(n, root, chain, send, recv)
				chk((err == nil) == (len(send) == len(recv)), "store", "%d send and %d receive keys: %v", len(send), len(recv), err)
				if err == nil {
					s := sessions[n]
					if s == nil {
						s = &vSession{root: root}
						sessions[n] = s
					}
					s.chain = chain
					s.keys[0] = append(s.keys[0], send...)
					s.keys[1] = append(s.keys[1], recv...)
				}
			case 2, 3, 4:
				i := v.u64()
				s := sessions[n]
				if s != nil && len(s.keys[0]) > 0 && v.r.Intn(8) > 0 {
					i = uint64(v.r.Intn(len(s.keys[0])))
				}
				sender := v.r.Intn(2) == 0
				ops = append(ops, fmt.Sprintf("DelMessageKey(%q, %v, %d)", n, sender, i))
				var err error
				v.noPanic("panic", func() { err = ms.DelMessageKey(n, sender, i) }, "DelMessageKey(%q, %v, %d)", n, sender, i)
				ok := s != nil && i < uint64(len(s.keys[0]))
				chk((err == nil) == ok, "delete", "%q/%v/%d: %v", n, sender, i, err)
				if ok {
					if sender {
						s.keys[0][i] = ""
					} else {
						s.keys[1][i] = ""
					}
				}
			case 5:
				k := vSessionKey{string(v.bytes(5)), string(v.bytes(5)), v.u64()}
				ops = append(ops, fmt.Sprintf("AddSessionKey(%q, cleanup %d)", n, k.cleanup))
				chk(ms.AddSessionKey(n, k.json, k.priv, k.cleanup) == nil, "add-session-key", "")
				skeys[n] = k
			case 6:
				ops = append(ops, fmt.Sprintf("DelPrivSessionKey(%q)", n))
				err := ms.DelPrivSessionKey(n)
				chk(err == nil, "del-session-key", "%v", err)
				if k, ok := skeys[n]; ok {
					k.priv = ""
					skeys[n] = k
				}
			case 7:
				t := v.u64()
				for _, k := range skeys { // often exactly at a limit
					if v.r.Intn(3) == 0 {
						t = k.cleanup + uint64(v.r.Intn(3)) - 1
					}
					break
				}
				ops = append(ops, fmt.Sprintf("CleanupSessionKeys(%d)", t))
				chk(ms.CleanupSessionKeys(t) == nil, "cleanup", "")
				for n, k := range skeys {
					if k.cleanup < t {
						delete(skeys, n)
					}
				}
			case 8:
				if v.r.Intn(2) == 0 {
					st := &session.State{SenderSessionCount: v.u64()}
					chk(ms.SetSessionState(n, st) == nil, "state", "")
					states[n] = st
				} else {
					ke := &uid.KeyEntry{HASH: n, PUBKEY: string(v.bytes(3))}
					ms.AddPrivateKeyEntry(ke)
					privs[n] = ke
				}
			}
			for _, n := range names {
				s := sessions[n]
				chk(ms.HasSession(n) == (s != nil), "has", "session %q", n)
				num, err := ms.NumMessageKeys(n)
				chk((err == nil) == (s != nil) && (s == nil || num == uint64(len(s.keys[0]))), "count", "session %q: %d, %v", n, num, err)
				rk, err := ms.GetRootKeyHash(n)
				chk((err == nil) == (s != nil) && (s == nil || enc(rk[:]) == s.root), "root", "session %q: %v", n, err)
				ck, err := ms.GetChainKey(n)
				chk((err == nil) == (s != nil) && (s == nil || enc(ck[:]) == s.chain), "chain", "session %q: %v", n, err)
				st, err := ms.GetSessionState(n)
				chk(err == nil && st == states[n], "state", "state %q: %v", n, err)
				j, p, err := ms.GetSessionKey(n)
				k, ok := skeys[n]
				chk((err == nil) == ok && j == k.json && p == k.priv && (ok || err == session.ErrNoKeyEntry), "session-key", "%q: %v", n, err)
				pk, err := ms.GetPrivateKeyEntry(n)
				chk((err == nil) == (privs[n] != nil) && pk == privs[n], "private", "%q: %v", n, err)
				if s != nil {
					for i := 0; i <= len(s.keys[0]); i++ {
						if len(s.keys[0]) < 20 || v.r.Intn(6) == 0 || op == steps-1 {
							look(n, true, uint64(i))
							look(n, false, uint64(i))
						}
					}
				}
				look(n, v.r.Intn(2) == 0, v.u64())
			}
		}
	}
	v.done()
}
