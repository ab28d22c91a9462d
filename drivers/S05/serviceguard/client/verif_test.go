package client

import (
	"bytes"
	"errors"
	"fmt"
	"testing"

	"github.com/mutecomm/mute/serviceguard/client/guardrpc"
	"github.com/mutecomm/mute/serviceguard/client/keylookup"
	"github.com/mutecomm/mute/serviceguard/client/walletrpc"
	"github.com/mutecomm/mute/serviceguard/common/token"
	"github.com/mutecomm/mute/serviceguard/common/types"
)

// Histories of wallet operations against servers which fail, talk nonsense,
// or are not answered because the client stops; every token that was handed
// out can be used in the end.
func TestVerifHistory(t *testing.T) {
	v := vStart(t)
	for k := 0; k < v.n2(120, 2500); k++ {
		vHistory(v, k)
	}
	v.done()
}

func vHistory(v *vT, k int) {
	w, stop := newWorld(v.r)
	defer stop()
	g := w.guard("usage")
	selfPub, self := vKeyPair(v.r)
	otherPub, _ := vKeyPair(v.r)
	w.wallet = &vWallet{w: w, pub: selfPub, guards: map[string]*vGuard{"usage": g}, given: map[string]obj{}, prepaid: v.r.Intn(2) == 0}
	st := newStore(self)
	c := vClient(st, self)
	var script []string
	// what a process that was stopped leaves behind is the store; a new client starts
	// from it, and locks do not outlive it
	urls := []*string{&guardrpc.ServiceURL, &keylookup.ServiceURL, &walletrpc.ServiceURL}
	was := []string{*urls[0], *urls[1], *urls[2]}
	good := func() {
		for i, u := range urls {
			*u = was[i]
		}
	}
	defer good()
	restart := func() {
		st.locks = map[string]int64{}
		st.before, w.fault = nil, nil
		good()
		c = vClient(st, self)
		for _, h := range st.order {
			if e := st.tokens[h]; e != nil {
				_, err := c.Verify(e.Token)
				v.check(err == nil, "stored-token", "%s: a stored token does not verify: %v", script, err)
			}
		}
	}
	// the entry says what its token says, and what is needed to finish a reissue is there
	sound := func() {
		for _, h := range st.order {
			e := st.tokens[h]
			if e == nil {
				continue
			}
			tk, err := token.Unmarshal(e.Token)
			if !v.check(err == nil && string(tk.Hash()) == h && string(e.Hash) == h, "entry", "%s: %+v %v", script, e, err) {
				continue
			}
			_, owner := tk.Properties()
			v.check((owner == nil) == (e.OwnerPubKey == nil) && (owner == nil || *owner == *e.OwnerPubKey), "entry-owner", "%s: %+v", script, e)
			v.check(e.OwnerPrivKey == nil || owner != nil && bytes.Equal(e.OwnerPrivKey[32:], owner[:]), "entry-key", "%s: %+v", script, e)
			if e.ServerPacket != nil {
				l, err := new(types.ReissuePacketPrivate).Unmarshal(e.BlindingFactors)
				if !v.check(err == nil, "unfinished", "%s: the blinding factors of the request are not stored: %v", script, err) {
					continue
				}
				n, err := token.Unmarshal(l.Token)
				if v.check(err == nil, "unfinished-token", "%s: %v", script, err) {
					_, no := n.Properties()
					v.check(no != nil && e.NewOwnerPubKey != nil && *no == *e.NewOwnerPubKey, "unfinished-owner", "%s: %v %v", script, no, e.NewOwnerPubKey)
					v.check(e.NewOwnerPrivKey == nil || bytes.Equal(e.NewOwnerPrivKey[32:], e.NewOwnerPubKey[:]), "unfinished-key", "%s", script)
				}
			}
		}
	}
	steps := 4 + v.r.Intn(16)
	for i := 0; i < steps; i++ {
		// faults of this step
		mode := v.r.Intn(7)
		at := v.r.Intn(6)
		n := 0
		w.fault, st.before = nil, nil
		switch mode {
		case 6: // a service cannot be found
			*urls[v.r.Intn(3)] = []string{"://", "", "http://127.0.0.1:0/\x00"}[v.r.Intn(3)]
		case 0:
			w.fault = func(m string, r interface{}, e string) (interface{}, string, bool) {
				if v.r.Intn(2) == 0 {
					return r, e, true
				}
				return r, e, false
			}
		case 1:
			w.fault = func(m string, r interface{}, e string) (interface{}, string, bool) {
				if v.r.Intn(2) == 0 {
					if v.r.Intn(3) == 0 {
						return nil, []string{"ErrReplay: 7", "ErrReplay: x", "ErrReplay: ", "some error", "issuer: server errror", "keylookup: server error", "walletserver: server error"}[v.r.Intn(7)], false
					}
					return w.garbage(m, r), "", false
				}
				return r, e, false
			}
		case 2:
			st.before = func(op string) error {
				if op == "DelToken" || op == "UnlockToken" {
					return nil // cannot say that they failed
				}
				n++
				if n == at+1 {
					return errors.New("store: disk full")
				}
				return nil
			}
		case 3:
			st.before = func(op string) error {
				n++
				if n == at+1 {
					panic(vCrash{})
				}
				return nil
			}
		}
		var hashes []string
		for _, h := range st.order {
			if st.tokens[h] != nil && st.tokens[h].OwnerPrivKey != nil {
				hashes = append(hashes, h)
			}
		}
		op := v.r.Intn(4)
		if len(hashes) == 0 {
			op = 0
		}
		st.log = nil
		w.calls = nil
		mark := fmt.Sprintf("%d/mode%d@%d", op, mode, at)
		script = append(script, mark)
		crashed := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(vCrash); ok {
						crashed = true
						return
					}
					v.fail("panic", "case %d %s: %v; calls %v", k, script, r, w.calls)
					crashed = true
				}
			}()
			locked := func() int { return len(st.locks) }
			before := locked()
			switch op {
			case 0:
				h, err := c.WalletToken("usage", []*[32]byte{selfPub, otherPub, nil}[v.r.Intn(3)])
				v.check(err == nil || err == ErrNeedReissue || h == nil, "wallettoken", "%s: %x %v", script, h, err)
				v.check(err != nil && err != ErrNeedReissue || st.tokens[string(h)] != nil, "wallettoken-stored", "%s: %x %v", script, h, err)
				v.check(locked() == before, "lock-kept", "%s", script)
			case 1, 2:
				h := hashes[v.r.Intn(len(hashes))]
				if op == 2 && v.r.Intn(4) == 0 {
					// in use by somebody else
					st.locks[h] = 1 << 40
					n, err := c.ReissueToken([]byte(h), selfPub)
					v.check(err != nil && n == nil && st.tokens[h] != nil && st.locks[h] == 1<<40, "in-use", "%s: %v", script, err)
					for _, o := range st.log {
						v.check(o.op == "LockToken", "in-use-op", "%s: %s on a token in use", script, o.op)
					}
					for _, o := range w.calls {
						v.fail("in-use-call", "%s: %s called for a token in use", script, o.method)
					}
					delete(st.locks, h)
					break
				}
				was := clone(st.tokens[h])
				begun := map[string]bool{} // reissues of tokens which are there already
				for _, x := range st.order {
					begun[x] = st.tokens[x] != nil && st.tokens[x].ServerPacket != nil
				}
				owner := []*[32]byte{selfPub, otherPub, nil}[v.r.Intn(3)]
				n, err := c.ReissueToken([]byte(h), owner)
				if err == nil {
					e := st.tokens[string(n)]
					if v.check(e != nil && st.tokens[h] == nil, "reissue", "%s: %x %x", script, h, n) {
						if was.ServerPacket == nil && owner != nil {
							v.check(*e.OwnerPubKey == *owner && e.OwnerPrivKey == nil, "reissue-owner", "%s: %+v", script, e)
						}
						if was.ServerPacket == nil && owner == nil {
							v.check(e.OwnerPrivKey != nil, "reissue-own", "%s: %+v", script, e)
						}
						v.check(e.Usage == was.Usage && (e.ServerPacket != nil) == begun[string(n)], "reissue-entry", "%s: %+v", script, e)
						_, verr := c.Verify(e.Token)
						v.check(verr == nil, "reissue-valid", "%s: %v", script, verr)
					}
				} else {
					v.check(n == nil && st.tokens[h] != nil, "reissue-failed", "%s: %v: the old token is gone", script, err)
				}
				v.check(locked() == before, "lock-kept", "%s", script)
			case 3:
				owner := []*[32]byte{selfPub, otherPub, nil}[v.r.Intn(3)]
				e, err := c.GetToken("usage", owner)
				if v.check((e == nil) == (err != nil), "gettoken", "%s: %v %v", script, e, err) && e != nil {
					v.check(st.locks[string(e.Hash)] > 0, "gettoken-lock", "%s", script)
					v.check(e.Usage == "usage", "gettoken-usage", "%s", script)
					if owner != nil {
						v.check(e.OwnerPubKey != nil && *e.OwnerPubKey == *owner, "gettoken-owner", "%s: %+v", script, e)
					}
					c.UnlockToken(e.Hash)
				}
			}
		}()
		// the old token is deleted after the new one is stored
		for _, o := range st.log {
			if o.op == "DelToken" {
				v.check(o.lock == 1, "delete-order", "%s: deleted before the new token is stored", script)
			}
		}
		good()
		if crashed || v.r.Intn(4) == 0 {
			restart()
		}
		w.fault, st.before = nil, nil
		sound()
	}
	// in the end: finish what was begun
	script = append(script, "end")
	restart()
	// with nothing failing, a token of one's own is reissued
	if !w.tainted {
		for _, h := range append([]string{}, st.order...) {
			if e := st.tokens[h]; e != nil && e.OwnerPrivKey != nil && !w.spent[h] {
				n, err := c.ReissueToken([]byte(h), nil)
				v.check(err == nil && st.tokens[string(n)] != nil && st.tokens[h] == nil, "end-reissue", "case %d %s: %v %v", k, script, err, c.LastError)
			}
		}
	}
	for round := 0; round < 2; round++ {
		for _, h := range append([]string{}, st.order...) {
			if e := st.tokens[h]; e != nil && e.ServerPacket != nil {
				c.ReissueToken([]byte(h), nil)
			}
		}
	}
	have := 0
	for h, e := range st.tokens {
		// a token that was used may still be there, or be there again, if the client was
		// stopped before it was deleted
		if w.spent[h] {
			continue
		}
		_, err := c.Verify(e.Token)
		v.check(err == nil, "valid", "case %d %s: %v", k, script, err)
		have++
	}
	// tokens of requests to the wallet server whose answer was not understood may be missing; the
	// server gives the same answer again as long as the request is repeated
	got := 0
	for _, h := range w.wallet.tokens {
		if st.tokens[string(h)] != nil || w.spent[string(h)] {
			got++
		}
	}
	// a token reissued with parameters that are not the guard's cannot be unblinded
	v.check(have == got || w.tainted, "lost", "case %d %s: %d tokens received, %d usable ones left", k, script, got, have)
}

// A request to the wallet server whose answer gets lost is repeated: the server
// answers the repeated request with the same token, and no token is lost.
func TestVerifNoAnswer(t *testing.T) {
	v := vStart(t)
	for k := 0; k < v.n2(12, 150); k++ {
		func() {
			w, stop := newWorld(v.r)
			defer stop()
			g := w.guard("usage")
			pub, priv := vKeyPair(v.r)
			w.wallet = &vWallet{w: w, pub: pub, guards: map[string]*vGuard{"usage": g}, given: map[string]obj{}, prepaid: k%2 == 0}
			st := newStore(priv)
			c := vClient(st, priv)
			want := 1 + v.r.Intn(3)
			for i := 0; i < want; i++ {
				lost := v.r.Intn(AuthTokenRetry + 1)
				how := v.r.Intn(3)
				for j := 0; j < lost; j++ {
					w.fault = func(m string, r interface{}, e string) (interface{}, string, bool) {
						if m != "WalletServer.GetToken" || e != "" {
							return r, e, false
						}
						switch how {
						case 0:
							return r, e, true
						case 1:
							return nil, "walletserver: server error", false
						}
						return nil, "", false
					}
					h, err := c.WalletToken("usage", nil)
					v.check(err != nil && h == nil, "no-answer", "how=%d: %x %v", how, h, err)
					w.fault = nil
					if v.r.Intn(2) == 0 {
						c = vClient(st, priv)
					}
				}
				_, err := c.WalletToken("usage", nil)
				v.check(err == nil || err == ErrNeedReissue, "answer", "how=%d, %d answers lost: %v", how, lost, err)
			}
			n := 0
			for _, e := range st.tokens {
				if e != nil {
					n++
				}
			}
			v.check(len(w.wallet.tokens) == want && n == want, "lost-token", "%d tokens wanted, %d given, %d stored", want, len(w.wallet.tokens), n)
		}()
	}
	v.done()
}
