package cryptengine

import (
	"bytes"
	"encoding/json"
	"fmt"
	"testing"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/uid"
)

// values a confused or malicious key server may answer with
func (v *vT) odd(depth int) interface{} {
	switch v.r.Intn(12) {
	case 0:
		return nil
	case 1:
		return "x"
	case 2:
		return ""
	case 3:
		return true
	case 4:
		return []interface{}{}
	case 5:
		return vObj{}
	case 6:
		return -1
	case 7:
		return 1e30
	case 8:
		return v.r.Intn(5)
	case 9:
		return 0.5
	case 10:
		if depth > 2 {
			return "deep"
		}
		return []interface{}{v.odd(depth + 1), v.odd(depth + 1)}
	default:
		return vEnc(v.bytes(v.r.Intn(200)))
	}
}

// the local copy of a hash chain holds the entries the key server sent, each at its position, without gaps.
func TestVerifSync(t *testing.T) {
	v := vStart(t)
	w := vNewWorld()
	defer w.close()
	ce := w.ce
	for n := v.n2(12, 60); n > 0; n-- {
		c := w.chain()
		w.serve(c)
		for i := 1 + v.r.Intn(6); i > 0; i-- {
			c.entries = append(c.entries, vEnc(v.bytes(1+v.r.Intn(160))))
		}
		w.ks.calls = nil
		err := ce.syncHashChain(c.domain)
		v.check(err == nil, "sync-honest", "chain of %d entries: %v", len(c.entries), err)
		have := len(c.entries)
		for i := v.r.Intn(4); i > 0; i-- {
			c.entries = append(c.entries, vEnc(v.bytes(1+v.r.Intn(160))))
		}
		err = ce.syncHashChain(c.domain)
		v.check(err == nil, "sync-more", "chain of %d entries, %d of them known: %v", len(c.entries), have, err)
		for i, e := range c.entries {
			g, err := ce.keyDB.GetHashChainEntry(c.domain, uint64(i))
			v.check(err == nil && g == e, "sync-entries", "entry %d of %d: local copy has %q (%v), server sent %q", i, len(c.entries), g, err, e)
		}
		p, found, err := ce.keyDB.GetLastHashChainPos(c.domain)
		v.check(err == nil && found && p == uint64(len(c.entries)-1), "sync-last", "%d entries: last position %d %v %v", len(c.entries), p, found, err)
		if len(c.entries) > have {
			a := w.ks.last("KeyHashchain.FetchHashChain")
			v.check(a["StartPosition"] == float64(have) && a["EndPosition"] == float64(len(c.entries)-1), "sync-request", "known %d, chain %d: asked for %v", have, len(c.entries), a)
		}
	}
	// a key server which does not answer with what was asked for
	for n := v.n2(150, 600); n > 0; n-- {
		c := w.chain()
		w.serve(c)
		known := v.r.Intn(3)
		for i := 0; i < known; i++ {
			e := vEnc(v.bytes(40))
			c.entries = append(c.entries, e)
			vMust(ce.keyDB.AddHashChainEntry(c.domain, uint64(i), e))
		}
		total := known + 1 + v.r.Intn(4)
		var list []interface{}
		for i := known; i < total; i++ {
			list = append(list, vEnc(v.bytes(40)))
		}
		last := vObj{"HCEntry": "x", "HCPos": total - 1}
		reply := vObj{"HCEntries": list, "HCFirstPos": known}
		switch v.r.Intn(9) {
		case 0:
			last["HCPos"] = v.odd(0)
		case 1:
			last["HCEntry"] = v.odd(0)
		case 2:
			reply["HCFirstPos"] = v.odd(0)
		case 3:
			reply["HCEntries"] = v.odd(0)
		case 4:
			list[v.r.Intn(len(list))] = v.odd(0)
		case 5:
			list = list[:v.r.Intn(len(list))]
			reply["HCEntries"] = list
		case 6:
			reply["HCFirstPos"] = v.r.Intn(6)
		case 7:
			last["HCPos"] = v.r.Intn(8)
		case 8:
			delete(reply, []string{"HCEntries", "HCFirstPos"}[v.r.Intn(2)])
		}
		w.ks.m["KeyHashchain.FetchLastHashChain"] = func(a vObj) interface{} { return last }
		w.ks.m["KeyHashchain.FetchHashChain"] = func(a vObj) interface{} { return reply }
		what, _ := json.Marshal([]interface{}{"known", known, "last", last, "reply", reply})
		v.noPanic("sync-panic", func() {
			err := ce.syncHashChain(c.domain)
			p, found, _ := ce.keyDB.GetLastHashChainPos(c.domain)
			n := 0
			if found {
				n = int(p) + 1
			}
			if err == nil {
				lp, isf := vPlain(last)["HCPos"].(float64)
				v.check(isf && (lp < 0 || n > int(lp)), "sync-short", "no error, but only %d entries: %s", n, what)
			}
			for i := 0; i < n; i++ {
				g, err := ce.keyDB.GetHashChainEntry(c.domain, uint64(i))
				if !v.check(err == nil, "sync-gap", "no entry %d of %d: %s", i, n, what) {
					continue
				}
				want, _ := interface{}(nil), 0
				if i < known {
					want = c.entries[i]
				} else if l, ok := reply["HCEntries"].([]interface{}); ok && i-known < len(l) {
					want = l[i-known]
				}
				v.check(want == interface{}(g), "sync-stored", "entry %d is %q, server sent %v: %s", i, g, want, what)
			}
		}, "%s", what)
	}
	// entries which cannot be stored are reported
	for i := 0; i < 2; i++ {
		c := w.chain()
		w.serve(c)
		c.entries = []string{"a", "b", "c"}
		e := w.engine()
		f := w.ks.m["KeyHashchain.FetchHashChain"]
		w.ks.m["KeyHashchain.FetchHashChain"] = func(a vObj) interface{} { e.keyDB.Close(); return f(a) }
		err := e.syncHashChain(c.domain)
		v.check(err != nil, "sync-store-error", "local database was closed, but no error")
	}
	v.done()
}

// only a chain whose entries are well formed and linked is valid.
func TestVerifValidate(t *testing.T) {
	v := vStart(t)
	w := vNewWorld()
	defer w.close()
	ce := w.ce
	v.check(ce.validateHashChain("nowhere.one") != nil, "validate-none", "valid without any entry")
	for n := v.n2(150, 1000); n > 0; n-- {
		c := w.chain()
		l := 1 + v.r.Intn(5)
		for i := 0; i < l; i++ {
			c.entries = append(c.entries, vEnc(vEntry(c.prev(), "x@"+c.domain, v.bytes(32), v.bytes(32))))
		}
		bad := ""
		i := v.r.Intn(l)
		b := vDec(c.entries[i])
		switch k := v.r.Intn(9); {
		case k == 0 && l > 1:
			j := (i + 1) % l
			c.entries[i], c.entries[j] = c.entries[j], c.entries[i]
			bad = fmt.Sprintf("entries %d and %d swapped", i, j)
		case k == 1:
			p := v.r.Intn(len(b))
			b[p] ^= 1 << uint(v.r.Intn(8))
			c.entries[i] = vEnc(b)
			bad = fmt.Sprintf("entry %d of %d: byte %d changed", i, l, p)
		case k == 2:
			p := v.r.Intn(len(b)-32) + 32
			b[p] ^= 1 << uint(v.r.Intn(8))
			prev := make([]byte, 32)
			if i > 0 {
				prev = vDec(c.entries[i-1])[:32]
			}
			copy(b, vSum(b[32:], prev))
			c.entries[i] = vEnc(b)
			if i < l-1 || p == 32 {
				bad = fmt.Sprintf("entry %d of %d remade after byte %d changed", i, l, p)
			}
		case k == 3:
			b = b[:v.r.Intn(len(b))]
			c.entries[i] = vEnc(b)
			bad = fmt.Sprintf("entry %d cut", i)
		case k == 4:
			c.entries[i] = vEnc(append(b, v.bytes(1+v.r.Intn(4))...))
			bad = fmt.Sprintf("entry %d longer", i)
		case k == 5:
			c.entries[i] = "!" + c.entries[i][1:]
			bad = fmt.Sprintf("entry %d is not base64", i)
		case k == 6 && l > 1:
			j := v.r.Intn(l-1) + 1
			c.entries = c.entries[j:]
			bad = fmt.Sprintf("first %d entries missing", j)
		case k == 7:
			prev := v.bytes(32)
			if i > 1 {
				prev = vDec(c.entries[i-2])[:32]
			}
			b = vEntry(prev, "y@"+c.domain, v.bytes(32), v.bytes(32))
			c.entries[i] = vEnc(b)
			bad = fmt.Sprintf("entry %d linked to another entry", i)
		}
		w.load(c)
		err := ce.validateHashChain(c.domain)
		v.check((err == nil) == (bad == ""), "validate", "chain of %d entries, %s: %v", len(c.entries), bad, err)
	}
	// the chain holds the entries which were given for the own IDs
	for n := v.n2(24, 120); n > 0; n-- {
		c := w.chain()
		l := 2 + v.r.Intn(4)
		for i := 0; i < l; i++ {
			c.entries = append(c.entries, vEnc(vEntry(c.prev(), "x@"+c.domain, v.bytes(32), v.bytes(32))))
		}
		w.load(c)
		good := true
		for _, name := range []string{"alice", "bobby"} {
			m := vUID(name + "@" + c.domain)
			vMust(ce.keyDB.AddPrivateUID(m))
			i := v.r.Intn(l + 1)
			e := "other"
			if i < l {
				e = c.entries[i]
				if v.r.Intn(3) == 0 {
					good = false
					e = c.entries[(i+1)%l]
				}
			}
			if v.r.Intn(4) > 0 {
				vMust(ce.keyDB.AddPrivateUIDReply(m, vReply("x", e, uint64(i), w.key)))
			} else if i < l && e != c.entries[i] {
				vMust(ce.keyDB.AddPrivateUIDReply(m, vReply("x", e, uint64(i), w.key)))
			}
		}
		err := ce.validateHashChain(c.domain)
		v.check((err == nil) == good, "validate-own", "own entries in chain: %v, but result %v", good, err)
	}
	v.done()
}

// A public ID is only stored if the entry was made for it and the signatures are those of the owner and of the key server.
func TestVerifPublicIDs(t *testing.T) {
	v := vStart(t)
	w := vNewWorld()
	defer w.close()
	ce := w.ce
	other, err := cipher.Ed25519Generate(cipher.RandReader)
	vMust(err)
	faults := []string{"", "", "identity", "hash", "self", "self-other", "server", "server-other-entry", "unsigned-update", "update-other", "count-skip", "count-same", "index", "no-server", "type", "length", "missing", "json", "short", "odd", "odd2", "update-chain-self"}
	for n := v.n2(6, 15); n > 0; n-- {
		for _, fault := range faults {
			for _, lookup := range []bool{false, true} {
				c := w.chain()
				w.serve(c)
				name := []string{"alice", "bobby", "carol-x"}[v.r.Intn(3)]
				id := name + "@" + c.domain
				srv, srvKey := w.srvUID(c.domain)
				if fault != "no-server" {
					c.add("keyserver@"+c.domain, srv, srvKey)
				}
				nupd := v.r.Intn(3)
				switch fault {
				case "unsigned-update", "update-other", "count-skip", "count-same", "update-chain-self":
					nupd = 1 + v.r.Intn(2)
				}
				m := vUID(id)
				good := 0 // entries before the faulty one
				var msgs []*uid.Message
				var at []uint64
				bad := fault != ""
				for i := 0; i <= nupd; i++ {
					if v.r.Intn(2) == 0 {
						c.add("dave@"+c.domain, vUID("dave@"+c.domain), srvKey)
					}
					if i > 0 {
						m, err = m.Update(cipher.RandReader)
						vMust(err)
					}
					if i < nupd || !bad {
						c.add(id, m, srvKey)
						good++
						msgs = append(msgs, m)
						at = append(at, uint64(len(c.entries)-1))
						continue
					}
					x := vCopyUID(m)
					key := srvKey
					resign := func() {
						x.SELFSIGNATURE = vEnc(m2key(m).Sign(vCanon(x.UIDContent)))
					}
					switch fault {
					case "identity":
						x = vCopyUID(vUID([]string{"mallory@" + c.domain, name + "x@" + c.domain, name + "@other.one"}[v.r.Intn(3)]))
						if nupd > 0 {
							x.UIDContent.MSGCOUNT = m.UIDContent.MSGCOUNT
						}
					case "self":
						s := vDec(x.SELFSIGNATURE)
						s[v.r.Intn(len(s))] ^= 1 << uint(v.r.Intn(8))
						x.SELFSIGNATURE = []string{vEnc(s), "", vEnc(s[:63])}[v.r.Intn(3)]
					case "self-other":
						x.SELFSIGNATURE = vEnc(other.Sign(vCanon(x.UIDContent)))
					case "server":
						key = other
					case "unsigned-update":
						x.USERSIGNATURE = []string{"", vEnc(make([]byte, 64)), "!"}[v.r.Intn(3)]
					case "update-other":
						x.USERSIGNATURE = vEnc(other.Sign(vCanon(x.UIDContent)))
					case "update-chain-self":
						x.USERSIGNATURE = x.SELFSIGNATURE
					case "count-skip", "count-same":
						d := uint64(1)
						if fault == "count-same" {
							d = ^uint64(0)
						}
						x.UIDContent.MSGCOUNT += d
						resign()
						x.USERSIGNATURE = vEnc(m2key(msgs[len(msgs)-1]).Sign(vCanon(x.UIDContent)))
					}
					jsn := x.JSON()
					hash := vSum(jsn)
					switch fault {
					case "hash":
						hash = v.bytes(32)
					case "json":
						jsn = append(jsn[:len(jsn)-1], []byte(`,"X":1}`)...)
						if v.r.Intn(2) == 0 {
							hash = vSum(jsn)
						} else {
							bad = false // an additional field does not belong to the message
						}
					}
					c.addRaw(id, jsn, hash, key)
					e := vDec(c.entries[len(c.entries)-1])
					index := vEnc(e[121:153])
					r := c.replies[index]
					pos := uint64(len(c.entries) - 1)
					switch fault {
					case "server-other-entry":
						r.ENTRY.HASHCHAINENTRY = c.entries[0]
						if v.r.Intn(2) == 0 {
							r.ENTRY.HASHCHAINENTRY, r.ENTRY.HASHCHAINPOS = c.entries[pos], pos+1
						}
					case "index":
						b := vDec(r.ENTRY.UIDMESSAGEENCRYPTED)
						b[v.r.Intn(32)] ^= 1 << uint(v.r.Intn(8))
						c.replies[index] = vReply(vEnc(b), c.entries[pos], pos, key)
					case "type":
						e[32] = byte(v.r.Intn(255) + 2)
						c.entries[pos] = vEnc(e)
					case "length":
						c.entries[pos] = vEnc(e[:120+v.r.Intn(33)])
					case "missing":
						delete(c.replies, index)
					case "short":
						b := vDec(r.ENTRY.UIDMESSAGEENCRYPTED)
						c.replies[index] = vReply(vEnc(b[:v.r.Intn(60)]), c.entries[pos], pos, key)
					case "odd", "odd2":
						p := vPlain(r)
						if fault == "odd" {
							k := []string{"UIDMESSAGEENCRYPTED", "HASHCHAINENTRY", "HASHCHAINPOS"}[v.r.Intn(3)]
							p["ENTRY"].(vObj)[k] = v.odd(0)
						} else {
							p[[]string{"ENTRY", "SERVERSIGNATURE"}[v.r.Intn(2)]] = v.odd(0)
						}
						w.ks.m["KeyRepository.FetchUID"] = func(a vObj) interface{} {
							if a["UIDIndex"] == index {
								return vObj{"UIDMessageReply": p}
							}
							q := c.replies[a["UIDIndex"].(string)]
							return vObj{"UIDMessageReply": q}
						}
						if p2, ok := vPlain(p)["ENTRY"].(vObj); fault == "odd" && ok && fmt.Sprint(p2) == fmt.Sprint(vPlain(r)["ENTRY"]) {
							bad = false
						}
					}
					if !bad {
						good++
						msgs = append(msgs, m)
						at = append(at, pos)
					}
				}
				w.load(c)
				what := fmt.Sprintf("fault %q, %d updates, lookup %v", fault, nupd, lookup)
				v.noPanic("ids-panic", func() {
					find := func(id string) error {
						if lookup {
							return ce.lookupHashChain(id)
						}
						return ce.searchHashChain(id, false)
					}
					if fault != "no-server" {
						v.check(find("keyserver@"+c.domain) == nil || fault == "length" || fault == "type", "ids-server", "%s: key server's own ID not accepted", what)
					}
					if (fault == "length" || fault == "type") && !lookup {
						vMust(ce.keyDB.AddPublicUID(srv, 0))
					}
					err := find(id)
					if fault == "no-server" {
						good = 0
					}
					// an entry the lookup does not even name is not its concern
					unseen := lookup && fault == "length" && good > 0
					v.check((err == nil) == !bad || unseen, "ids-result", "%s: error %v", what, err)
					got, p, found, _ := ce.keyDB.GetPublicUID(id, uint64(len(c.entries)))
					if good == 0 {
						v.check(!found, "ids-stored", "%s: stored although not valid", what)
					} else if v.check(found, "ids-found", "%s: not stored", what) {
						v.check(p == at[good-1] && bytes.Equal(got.JSON(), msgs[good-1].JSON()), "ids-last", "%s: stored the ID message of position %d with count %d, expected position %d", what, p, got.UIDContent.MSGCOUNT, at[good-1])
						for i := range msgs[:good] {
							got, p, found, _ := ce.keyDB.GetPublicUID(id, at[i])
							v.check(found && p == at[i] && bytes.Equal(got.JSON(), msgs[i].JSON()), "ids-each", "%s: message %d of %d is not stored at its position", what, i, good)
						}
					}
					x, _, found, _ := ce.keyDB.GetPublicUID("dave@"+c.domain, 1000)
					v.check(!found, "ids-others", "%s: stored another identity %v", what, x)
					if !bad {
						k := w.ks.count("KeyRepository.FetchUID")
						v.check(find(id) == nil && w.ks.count("KeyRepository.FetchUID") == k, "ids-again", "%s: second search fails or fetches again", what)
						v.check(ce.searchHashChain(id, true) == nil, "ids-searchonly", "%s: search only", what)
					}
					if fault != "length" && fault != "type" {
						v.check(find("nobody@"+c.domain) != nil && ce.searchHashChain("nobody@"+c.domain, true) != nil, "ids-nobody", "%s: found an identity without entry", what)
					}
				}, "%s", what)
			}
		}
	}
	v.done()
}

func m2key(m *uid.Message) *cipher.Ed25519Key {
	var k cipher.Ed25519Key
	vMust(k.SetPrivateKey(m.PrivateSigKey64()[:]))
	return &k
}

func vCanon(x interface{}) []byte {
	j, err := json.Marshal(vPlainNumber(x))
	vMust(err)
	return j
}

// a position the lookup names must be about the identity.
func TestVerifLookup(t *testing.T) {
	v := vStart(t)
	w := vNewWorld()
	defer w.close()
	ce := w.ce
	for n := v.n2(60, 400); n > 0; n-- {
		c := w.chain()
		w.serve(c)
		srv, srvKey := w.srvUID(c.domain)
		c.add("keyserver@"+c.domain, srv, srvKey)
		id := "alice@" + c.domain
		m := vUID(id)
		c.add("dave@"+c.domain, vUID("dave@"+c.domain), srvKey)
		c.add(id, m, srvKey)
		c.add("erin@"+c.domain, vUID("erin@"+c.domain), srvKey)
		w.load(c)
		vMust(ce.keyDB.AddPublicUID(srv, 0))
		var pos interface{}
		bad := true
		switch v.r.Intn(6) {
		case 0:
			pos = []interface{}{v.r.Intn(2)}
		case 1:
			pos = []interface{}{2, []int{0, 1, 3}[v.r.Intn(3)]}
		case 2:
			pos = []interface{}{2, 4 + v.r.Intn(9)}
		case 3:
			pos = []interface{}{2, []interface{}{"2", nil, true, vObj{}}[v.r.Intn(4)]}
		case 4:
			pos = []interface{}{"", nil, true, vObj{}, []int{}, 2}[v.r.Intn(6)]
		default:
			pos = []interface{}{2}
			bad = false
		}
		w.ks.m["KeyHashchain.LookupUID"] = func(a vObj) interface{} { return vObj{"HCPositions": pos} }
		what, _ := json.Marshal(pos)
		v.noPanic("lookup-panic", func() {
			err := ce.lookupHashChain("Alice@" + c.domain)
			v.check((err == nil) == !bad, "lookup-result", "positions %s: %v", what, err)
			v.check(w.ks.last("KeyHashchain.LookupUID")["Identity"] == id, "lookup-request", "asked for %v", w.ks.last("KeyHashchain.LookupUID"))
			for _, o := range []string{"dave@", "erin@"} {
				_, _, found, _ := ce.keyDB.GetPublicUID(o+c.domain, 1000)
				v.check(!found, "lookup-other", "positions %s: %s was stored", what, o)
			}
			for i := uint64(0); i < 4; i++ {
				g, p, found, _ := ce.keyDB.GetPublicUID(id, i)
				v.check(found == (i >= 2 && (!bad || found)) && (!found || p == 2 && bytes.Equal(g.JSON(), m.JSON())), "lookup-stored", "positions %s: at position %d: %v %d", what, i, found, p)
			}
		}, "positions %s", what)
	}
	v.done()
}

// the key server's own ID may only change with its key's signature.
func TestVerifServerID(t *testing.T) {
	v := vStart(t)
	w := vNewWorld()
	defer w.close()
	ce := w.ce
	for n := v.n2(40, 250); n > 0; n-- {
		c := w.chain()
		w.serve(c)
		srv, srvKey := w.srvUID(c.domain)
		ks := "keyserver@" + c.domain
		c.add(ks, srv, srvKey)
		bad := true
		upd, err := srv.Update(cipher.RandReader)
		vMust(err)
		what := ""
		switch v.r.Intn(4) {
		case 0: // another first message
			what = "second first message"
			s2, k2 := w.srvUID(c.domain)
			c.add(ks, s2, k2)
		case 1:
			what = "update signed by nobody"
			x := vCopyUID(upd)
			x.USERSIGNATURE = ""
			c.add(ks, x, srvKey)
		case 2:
			what = "update answered with the new key"
			c.add(ks, upd, m2key(upd))
		default:
			what = "proper update"
			c.add(ks, upd, srvKey)
			bad = false
		}
		after := v.r.Intn(2) == 0
		if after {
			// users are answered with the new key
			c.add("alice@"+c.domain, vUID("alice@"+c.domain), m2key(upd))
		}
		w.load(c)
		err = ce.searchHashChain(ks, false)
		v.check((err == nil) == !bad, "server-id", "%s: %v", what, err)
		g, p, found, _ := ce.keyDB.GetPublicUID(ks, 100)
		if bad {
			v.check(found && p == 0 && bytes.Equal(g.JSON(), srv.JSON()), "server-kept", "%s: stored position %d", what, p)
		} else {
			v.check(found && p == 1 && bytes.Equal(g.JSON(), upd.JSON()), "server-new", "%s: stored position %d", what, p)
		}
		if after {
			err := ce.searchHashChain("alice@"+c.domain, false)
			v.check((err == nil) == !bad, "server-then-user", "%s: user's ID answered with new key: %v", what, err)
		}
		if !bad {
			// the replaced key does not vouch for later entries, whatever position the reply claims
			name := "bobby@" + c.domain
			n := uint64(len(c.entries))
			c.add(name, vUID(name), srvKey)
			e := vDec(c.entries[n])
			r := c.replies[vEnc(e[121:])]
			pos := []uint64{0, n, 1, n + 1}[v.r.Intn(4)]
			c.replies[vEnc(e[121:])] = vReply(r.ENTRY.UIDMESSAGEENCRYPTED, c.entries[n], pos, srvKey)
			vMust(ce.keyDB.AddHashChainEntry(c.domain, n, c.entries[n]))
			find := func(id string) error { return ce.searchHashChain(id, false) }
			if v.r.Intn(2) == 0 {
				find = ce.lookupHashChain
			}
			v.check(find(name) != nil, "server-old-key", "reply for entry %d signed with the replaced key, claiming position %d, was accepted", n, pos)
		}
	}
	v.done()
}
