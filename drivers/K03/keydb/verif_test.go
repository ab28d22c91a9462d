package keydb

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/uid"
)

func vOpen(v *vT, dir string) *KeyDB {
	name := filepath.Join(dir, "keys")
	pass := []byte("a passphrase")
	if _, err := os.Stat(name + ".db"); err != nil {
		if err := Create(name, pass, 10); err != nil {
			v.t.Fatal(err)
		}
	}
	db, err := Open(name, pass)
	if err != nil {
		v.t.Fatal(err)
	}
	return db
}

func vDir(t *testing.T) (string, func()) {
	d, err := ioutil.TempDir("", "verif-keydb")
	if err != nil {
		t.Fatal(err)
	}
	return d, func() { os.RemoveAll(d) }
}

func vUID(v *vT, id string) *uid.Message {
	m, err := uid.Create(id, false, "mix", "nym", uid.Strict, hashchain.TestEntry, cipher.RandReader)
	if err != nil {
		v.t.Fatal(err)
	}
	return m
}

type vSess struct {
	root, chain string
	keys        [2]map[uint64]string
	n           uint64
}

// sessions, key values, session keys, session states and hash chains against maps
func TestVerifModel(t *testing.T) {
	v := vStart(t)
	defer v.done()
	for round := 0; round < v.n2(2, 8); round++ {
		vModel(v)
	}
}

func vModel(v *vT) {
	dir, cleanup := vDir(v.t)
	defer cleanup()
	db := vOpen(v, dir)
	defer func() { db.Close() }()

	sess := map[string]*vSess{}
	vals := map[string]string{DBVersion: Version}
	type skey struct {
		json, priv string
	}
	skeys := map[string]skey{}
	states := map[string]*session.State{}
	hc := map[string]map[uint64]string{}
	names := []string{"a", "b", "A", "a ", "%", "c'd"}
	doms := []string{"one.org", "ONE.org", "two.org", "two.or_", "%"}
	ke := func() uid.KeyEntry {
		var k uid.KeyEntry
		if err := k.InitDHKey(cipher.RandReader); err != nil {
			v.t.Fatal(err)
		}
		return k
	}
	keys := []uid.KeyEntry{ke(), ke(), ke(), ke()}
	var hist []string
	log := func(f string, a ...interface{}) string {
		hist = append(hist, fmt.Sprintf(f, a...))
		h := hist
		if len(h) > 25 {
			h = h[len(h)-25:]
		}
		return strings.Join(h, "; ")
	}
	cnt := 0
	check := func(what string) bool {
		good := true
		ok := func(c bool, key, f string, a ...interface{}) {
			if !v.check(c, key, f, a...) {
				good = false
			}
		}
		for _, n := range names {
			root, chain, num, err := db.GetSession(n)
			s := sess[n]
			if s == nil {
				ok(err != nil, "session", "%s: GetSession(%q) found a session never added", what, n)
				_, err := db.GetMessageKey(n, true, 0)
				ok(err != nil, "msgkey", "%s: GetMessageKey(%q) of a session never added", what, n)
			} else {
				ok(err == nil && root == s.root && chain == s.chain && num == s.n, "session", "%s: GetSession(%q) = %q %q %d %v, want %q %q %d", what, n, root, chain, num, err, s.root, s.chain, s.n)
				for d := 0; d < 2; d++ {
					for i := uint64(0); i < s.n+2; i++ {
						k, err := db.GetMessageKey(n, d == 1, i)
						want, has := s.keys[d][i]
						ok((err == nil) == has && k == want, "msgkey", "%s: GetMessageKey(%q,%v,%d) = %q %v, want %q (stored %v)", what, n, d == 1, i, k, err, want, has)
					}
				}
			}
			sk, has := skeys[n]
			js, pr, err := db.GetSessionKey(n)
			ok((err == nil) == has && js == sk.json && pr == sk.priv, "sesskey", "%s: GetSessionKey(%q) = %q %q %v, want %q %q", what, n, js, pr, err, sk.json, sk.priv)
			st, err := db.GetSessionState(n)
			want := states[n]
			ok(err == nil && (st == nil) == (want == nil), "state", "%s: GetSessionState(%q) = %v %v, want %v", what, n, st, err, want)
			if err == nil && st != nil && want != nil {
				ok(vStateEq(st, want), "state", "%s: GetSessionState(%q) = %+v, want %+v", what, n, st, want)
			}
		}
		for _, n := range append([]string{DBVersion}, names...) {
			x, err := db.GetValue(n)
			ok(err == nil && x == vals[n], "value", "%s: GetValue(%q) = %q %v, want %q", what, n, x, err, vals[n])
		}
		for _, d := range doms {
			m := hc[strings.ToLower(d)]
			var max uint64
			for p := range m {
				if p > max {
					max = p
				}
			}
			pos, found, err := db.GetLastHashChainPos(d)
			ok(err == nil && found == (len(m) > 0) && (!found || pos == max), "hashchain", "%s: GetLastHashChainPos(%q) = %d %v %v, want %d %v", what, d, pos, found, err, max, len(m) > 0)
			e, err := db.GetLastHashChainEntry(d)
			ok((err == nil) == (len(m) > 0) && e == m[max], "hashchain", "%s: GetLastHashChainEntry(%q) = %q %v, want %q", what, d, e, err, m[max])
			for p := uint64(0); p < max+2 && p < 12; p++ {
				e, err := db.GetHashChainEntry(d, p)
				want, has := m[p]
				ok((err == nil) == has && e == want, "hashchain", "%s: GetHashChainEntry(%q,%d) = %q %v, want %q", what, d, p, e, err, want)
			}
		}
		return good
	}
	for step := 0; step < v.n2(45, 90); step++ {
		n := names[v.r.Intn(len(names))]
		var what string
		cnt++
		switch v.r.Intn(9) {
		case 0, 1: // a session is started or extended
			k := v.r.Intn(4)
			var send, recv []string
			s := sess[n]
			if s == nil {
				s = &vSess{root: fmt.Sprintf("root%d", cnt), keys: [2]map[uint64]string{{}, {}}}
			}
			for i := 0; i < k; i++ {
				send = append(send, fmt.Sprintf("send%d.%d", cnt, i))
				recv = append(recv, fmt.Sprintf("recv%d.%d", cnt, i))
				s.keys[1][s.n+uint64(i)] = send[i]
				s.keys[0][s.n+uint64(i)] = recv[i]
			}
			s.n += uint64(k)
			s.chain = fmt.Sprintf("chain%d", cnt)
			root := s.root
			if v.r.Intn(4) == 0 && sess[n] != nil {
				root = "another root" // the root key of a session does not change
			}
			sess[n] = s
			what = log("AddSession(%q,%q,%q,%v,%v)", n, root, s.chain, send, recv)
			err := db.AddSession(n, root, s.chain, send, recv)
			v.check(err == nil, "session", "%s: %v", what, err)
		case 2:
			what = log("AddSession with one key missing")
			v.check(db.AddSession(n, "r", "c", []string{"x", "y"}, []string{"x"}) != nil, "session", "%s accepted", what)
			if v.r.Intn(2) == 0 { // the message keys cannot be stored
				what = log("AddSession(%q) failing at a message key", n)
				at := v.r.Intn(3)
				_, err := db.encDB.Exec(fmt.Sprintf("CREATE TRIGGER full BEFORE INSERT ON MessageKeys WHEN NEW.Key='y%d' BEGIN SELECT RAISE(ABORT, 'full'); END;", at))
				v.check(err == nil, "session", "trigger: %v", err)
				v.check(db.AddSession(n, "r", "c", []string{"y0", "x", "y2"}, []string{"x", "y1", "x"}) != nil, "session", "%s succeeded", what)
				_, err = db.encDB.Exec("DROP TRIGGER full;")
				v.check(err == nil, "session", "trigger: %v", err)
			}
			v.check(db.AddSession("", "r", "c", nil, nil) != nil && db.AddSession(n, "", "c", nil, nil) != nil && db.AddSession(n, "r", "", nil, nil) != nil, "session", "AddSession with an empty name accepted")
		case 3: // message keys are used up
			if s := sess[n]; s != nil {
				d, i := v.r.Intn(2), uint64(v.r.Intn(int(s.n)+1))
				what = log("DelMessageKey(%q,%v,%d)", n, d == 1, i)
				err := db.DelMessageKey(n, d == 1, i)
				delete(s.keys[d], i)
				v.check(err == nil, "msgkey", "%s: %v", what, err)
			} else {
				what = log("DelMessageKey(%q) without session", n)
				v.check(db.DelMessageKey(n, true, 0) != nil, "msgkey", "%s succeeded", what)
			}
		case 4:
			x := fmt.Sprintf("value%d", cnt)
			what = log("AddValue(%q,%q)", n, x)
			err := db.AddValue(n, x)
			vals[n] = x
			v.check(err == nil, "value", "%s: %v", what, err)
			v.check(db.AddValue("", "x") != nil && db.AddValue(n, "") != nil, "value", "empty key or value accepted")
		case 5:
			if sk, has := skeys[n]; has {
				what = log("DelPrivSessionKey(%q)", n)
				err := db.DelPrivSessionKey(n)
				sk.priv = ""
				skeys[n] = sk
				v.check(err == nil, "sesskey", "%s: %v", what, err)
			} else {
				sk := skey{fmt.Sprintf("json%d", cnt), fmt.Sprintf("priv%d", cnt)}
				what = log("AddSessionKey(%q,%v)", n, sk)
				err := db.AddSessionKey(n, sk.json, sk.priv, uint64(v.r.Intn(1<<30)))
				skeys[n] = sk
				v.check(err == nil, "sesskey", "%s: %v", what, err)
			}
		case 6:
			st := &session.State{SenderSessionCount: uint64(v.r.Intn(9)), SenderMessageCount: uint64(v.r.Intn(9)), MaxRecipientCount: uint64(v.r.Intn(9)),
				RecipientTemp: keys[v.r.Intn(4)], SenderSessionPub: keys[v.r.Intn(4)], NymAddress: fmt.Sprintf("nym%d", cnt), KeyInitSession: v.r.Intn(2) == 1}
			if v.r.Intn(2) == 1 {
				st.NextSenderSessionPub = &keys[v.r.Intn(4)]
			}
			if v.r.Intn(2) == 1 {
				st.NextRecipientSessionPubSeen = &keys[v.r.Intn(4)]
			}
			what = log("SetSessionState(%q,%+v)", n, st)
			err := db.SetSessionState(n, st)
			states[n] = st
			v.check(err == nil, "state", "%s: %v", what, err)
		case 7:
			d := doms[v.r.Intn(len(doms))]
			l := strings.ToLower(d)
			if hc[l] == nil {
				hc[l] = map[uint64]string{}
			}
			p := uint64(v.r.Intn(11))
			if _, has := hc[l][p]; !has {
				e := fmt.Sprintf("entry%d", cnt)
				what = log("AddHashChainEntry(%q,%d,%q)", d, p, e)
				err := db.AddHashChainEntry(d, p, e)
				hc[l][p] = e
				v.check(err == nil, "hashchain", "%s: %v", what, err)
			} else if v.r.Intn(3) == 0 {
				what = log("DelHashChain(%q)", d)
				err := db.DelHashChain(d)
				delete(hc, l)
				v.check(err == nil, "hashchain", "%s: %v", what, err)
			}
		case 8:
			what = log("reopen")
			db.Close()
			db = vOpen(v, dir)
		}
		if !check(what) {
			return
		}
	}
}

func vStateEq(a, b *session.State) bool {
	j := func(k *uid.KeyEntry) string {
		if k == nil {
			return ""
		}
		return string(k.JSON())
	}
	return a.SenderSessionCount == b.SenderSessionCount && a.SenderMessageCount == b.SenderMessageCount && a.MaxRecipientCount == b.MaxRecipientCount &&
		j(&a.RecipientTemp) == j(&b.RecipientTemp) && j(&a.SenderSessionPub) == j(&b.SenderSessionPub) &&
		j(a.NextSenderSessionPub) == j(b.NextSenderSessionPub) && j(a.NextRecipientSessionPubSeen) == j(b.NextRecipientSessionPubSeen) &&
		a.NymAddress == b.NymAddress && a.KeyInitSession == b.KeyInitSession
}

// identities: own messages with their private keys and replies, messages of others by position, key init messages
func TestVerifIdentities(t *testing.T) {
	v := vStart(t)
	defer v.done()
	dir, cleanup := vDir(t)
	defer cleanup()
	db := vOpen(v, dir)
	defer func() { db.Close() }()
	sigKey, err := cipher.Ed25519Generate(cipher.RandReader)
	if err != nil {
		t.Fatal(err)
	}
	ids := []string{"alice@mute.berlin", "bob@mute.berlin", "alice@other.org"}
	own := map[string][]*uid.Message{}
	reply := map[string]*uid.MessageReply{}
	type pub struct {
		pos uint64
		m   *uid.Message
	}
	pubs := map[string][]pub{}
	check := func(what string) {
		var all []string
		for _, id := range ids {
			l := own[id]
			m, r, err := db.GetPrivateUID(id, true)
			if len(l) == 0 {
				v.check(err != nil, "privuid", "%s: GetPrivateUID(%s) found a message never added", what, id)
			} else {
				all = append(all, id)
				w := l[len(l)-1]
				good := err == nil && string(m.JSON()) == string(w.JSON())
				v.check(good, "privuid", "%s: GetPrivateUID(%s): %v, or not the newest of %d messages", what, id, err, len(l))
				if good {
					v.check(*m.PrivateSigKey64() == *w.PrivateSigKey64() && *m.PrivateEncKey32() == *w.PrivateEncKey32(), "privkeys", "%s: GetPrivateUID(%s) returned other private keys", what, id)
					wr := reply[string(w.JSON())]
					v.check((r == nil) == (wr == nil) && (r == nil || reflect.DeepEqual(*r, *wr)), "reply", "%s: GetPrivateUID(%s) reply %v, want %v", what, id, r, wr)
				}
			}
			for max := uint64(0); max < 12; max++ {
				m, pos, found, err := db.GetPublicUID(id, max)
				var w *pub
				for i := range pubs[id] {
					if p := &pubs[id][i]; p.pos <= max && (w == nil || p.pos > w.pos) {
						w = p
					}
				}
				v.check(err == nil && found == (w != nil) && (!found || pos == w.pos && string(m.JSON()) == string(w.m.JSON())), "pubuid",
					"%s: GetPublicUID(%s,%d) = pos %d found %v err %v, want %v", what, id, max, pos, found, err, w)
			}
		}
		got, err := db.GetPrivateIdentities()
		sort.Strings(got)
		sort.Strings(all)
		v.check(err == nil && strings.Join(got, " ") == strings.Join(all, " "), "identities", "%s: GetPrivateIdentities = %v %v, want %v", what, got, err, all)
		for _, d := range []string{"mute.berlin", "MUTE.berlin", "other.org", "rlin"} {
			var want []string
			for _, id := range all {
				if strings.HasSuffix(id, "@"+strings.ToLower(d)) {
					want = append(want, id)
				}
			}
			got, err := db.GetPrivateIdentitiesForDomain(d)
			sort.Strings(got)
			v.check(err == nil && strings.Join(got, " ") == strings.Join(want, " "), "identities", "%s: GetPrivateIdentitiesForDomain(%q) = %v %v, want %v", what, d, got, err, want)
		}
	}
	check("empty database")
	for step := 0; step < v.n2(30, 120); step++ {
		id := ids[v.r.Intn(len(ids))]
		l := own[id]
		what := "reopen"
		switch v.r.Intn(5) {
		case 0:
			var m *uid.Message
			if len(l) == 0 {
				m = vUID(v, id)
			} else {
				m, err = l[len(l)-1].Update(cipher.RandReader)
				if err != nil {
					t.Fatal(err)
				}
			}
			what = fmt.Sprintf("AddPrivateUID(%s) MSGCOUNT %d", id, m.UIDContent.MSGCOUNT)
			err := db.AddPrivateUID(m)
			v.check(err == nil, "privuid", "%s: %v", what, err)
			own[id] = append(l, m)
		case 1:
			if len(l) > 0 {
				m := l[v.r.Intn(len(l))]
				r := uid.CreateReply("enc", "entry", uint64(v.r.Intn(1000)), sigKey)
				what = fmt.Sprintf("AddPrivateUIDReply(%s)", id)
				err := db.AddPrivateUIDReply(m, r)
				v.check(err == nil, "reply", "%s: %v", what, err)
				reply[string(m.JSON())] = r
			}
		case 2:
			if len(l) > 0 && v.r.Intn(3) == 0 {
				i := v.r.Intn(len(l))
				what = fmt.Sprintf("DelPrivateUID(%s) %d of %d", id, i, len(l))
				err := db.DelPrivateUID(l[i])
				v.check(err == nil, "privuid", "%s: %v", what, err)
				delete(reply, string(l[i].JSON()))
				own[id] = append(append([]*uid.Message{}, l[:i]...), l[i+1:]...)
			}
		case 3:
			p := uint64(v.r.Intn(11))
			used := false
			for _, x := range pubs[id] {
				used = used || x.pos == p
			}
			if !used {
				m := vUID(v, id)
				what = fmt.Sprintf("AddPublicUID(%s,%d)", id, p)
				err := db.AddPublicUID(m, p)
				v.check(err == nil, "pubuid", "%s: %v", what, err)
				pubs[id] = append(pubs[id], pub{p, m})
			}
		case 4:
			db.Close()
			db = vOpen(v, dir)
		}
		check(what)
	}
	// positions with different numbers of digits
	for _, p := range []uint64{9, 1000, 10, 100, 99, 4294967296} {
		if err := db.AddPublicUID(vUID(v, "erin@mute.berlin"), p); err != nil {
			t.Fatal(err)
		}
		if err := db.AddHashChainEntry("digits.org", p, fmt.Sprint(p)); err != nil {
			t.Fatal(err)
		}
	}
	for _, x := range [][2]uint64{{9, 9}, {10, 10}, {98, 10}, {99, 99}, {100, 100}, {999, 100}, {1001, 1000}, {1 << 40, 1 << 32}} {
		_, pos, found, err := db.GetPublicUID("erin@mute.berlin", x[0])
		v.check(err == nil && found && pos == x[1], "pubuid", "GetPublicUID up to %d = %d %v %v, want %d", x[0], pos, found, err, x[1])
	}
	last, err := db.GetLastHashChainEntry("digits.org")
	v.check(err == nil && last == "4294967296", "hashchain", "last entry %q %v", last, err)
	// key init messages
	type kin struct {
		ki                                *uid.KeyInit
		hash, sigPub, priv, sigKeyHashPub string
	}
	var ks []kin
	for i := 0; i < v.n2(4, 10); i++ {
		m := vUID(v, "carol@mute.berlin")
		ki, hash, priv, err := m.KeyInit(1, uint64(time.Now().Unix())+86400, 0, false, "mute.berlin", "mix", "nym", cipher.RandReader)
		if err != nil {
			t.Fatal(err)
		}
		k := kin{ki: ki, hash: hash, sigPub: m.SigPubKey(), priv: priv}
		ks = append(ks, k)
		err = db.AddPrivateKeyInit(ki, hash, k.sigPub, priv, "signature")
		v.check(err == nil, "keyinit", "AddPrivateKeyInit: %v", err)
		if i%2 == 0 {
			err = db.AddPublicKeyInit(ki)
			v.check(err == nil, "keyinit", "AddPublicKeyInit: %v", err)
		}
	}
	for i, k := range ks {
		ki, sp, pr, err := db.GetPrivateKeyInit(k.hash)
		v.check(err == nil && string(ki.JSON()) == string(k.ki.JSON()) && sp == k.sigPub && pr == k.priv, "keyinit", "GetPrivateKeyInit(%s) = %v %q %q %v", k.hash, ki, sp, pr, err)
		ki, err = db.GetPublicKeyInit(k.ki.SigKeyHash())
		v.check((err == nil) == (i%2 == 0) && (err != nil || string(ki.JSON()) == string(k.ki.JSON())), "keyinit", "GetPublicKeyInit(%s) = %v %v, added %v", k.ki.SigKeyHash(), ki, err, i%2 == 0)
	}
	_, _, _, err = db.GetPrivateKeyInit("nothing")
	v.check(err != nil, "keyinit", "GetPrivateKeyInit of an unknown hash succeeded")

	// an own message that does not verify is not used
	m := vUID(v, "dave@mute.berlin")
	if err := db.AddPrivateUID(m); err != nil {
		t.Fatal(err)
	}
	for _, with := range []bool{false, true} {
		_, _, err := db.GetPrivateUID("dave@mute.berlin", with)
		v.check(err == nil, "privuid", "GetPrivateUID(dave): %v", err)
	}
	bad := strings.Replace(string(m.JSON()), "\"NOTBEFORE\":0", "\"NOTBEFORE\":1", 1)
	if bad != string(m.JSON()) {
		if _, err := db.encDB.Exec("UPDATE PrivateUIDs SET UIDMessage=? WHERE IDENTITY='dave@mute.berlin';", bad); err != nil {
			t.Fatal(err)
		}
		for _, with := range []bool{false, true} {
			_, _, err := db.GetPrivateUID("dave@mute.berlin", with)
			v.check(err != nil, "selfsig", "GetPrivateUID(dave, %v) returned a message whose self-signature does not verify", with)
		}
	} else {
		t.Fatal("no NOTBEFORE in the message")
	}
}
