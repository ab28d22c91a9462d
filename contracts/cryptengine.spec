# the client of the key server: hash chain, public IDs, key init messages

package mute/cryptengine/cache
package cache mute/cryptengine/cache
package jsonclient mute/util/jsonclient
package capabilities mute/keyserver/capabilities
package util mute/util
package def mute/def

# every cached domain has a client
def cacheOK(c) = c.clients != nil && c.capabilities != nil && forallkey(d, c.capabilities, c.capabilities[d] != nil ==> has(c.clients, d) && c.clients[d] != nil)
def serverURL(domain, port, altHost) = ite(altHost != "", cat("https://", altHost, port, "/"), def.ConfigMap[cat("keyserver.", domain)])

func New() (r)
  prop V02
  fresh r
  ensures r != nil && cacheOK(r)

func newClient(domain, port, altHost, homedir) (r, err)
  prop V02
  inline
  ensures (err == nil) == (r != nil)
  ensures err == nil ==> count("newclient") == 1 && evlast("newclient", 0, "URL") == serverURL(domain, port, altHost) && evlast("newclient", 0, "cert") == def.CACert && r == evlast("newclient", 0, "r")
  ensures err == nil && altHost == "" ==> has(def.ConfigMap, cat("keyserver.", domain))

func (*Cache).Set(c, domain, port, altHost, homedir) (err)
  prop V02
  inline
  requires cacheOK(c)
  modifies elems(c.clients), elems(c.capabilities)
  ensures cacheOK(c)
  ensures err == nil ==> c.capabilities[domain] != nil && c.clients[domain] == evlast("newclient", 0, "r")
  ensures err == nil ==> evlast("newclient", 0, "URL") == serverURL(domain, port, altHost) && evlast("newclient", 0, "cert") == def.CACert
  ensures err == nil ==> count("rpc") == 1 && evlast("rpc", 0, "err") == nil && evlast("rpc", 0, "c") == evlast("newclient", 0, "r") && evlast("rpc", 0, "method") == "KeyRepository.Capabilities"

func (*Cache).Get(c, domain, port, altHost, homedir, requiredMethod) (client, caps, err)
  prop V02
  event cacheget
  quiet
  requires cacheOK(c)
  modifies elems(c.clients), elems(c.capabilities)
  ensures cacheOK(c)
  ensures err == nil ==> client != nil && caps != nil && client == c.clients[domain] && caps == c.capabilities[domain]
  ensures err == nil ==> exists(i, 0, len(caps.METHODS), caps.METHODS[i] == requiredMethod)
  ensures err == nil && old(c.capabilities[domain]) != nil ==> client == old(c.clients[domain]) && count("newclient") == 0

package mute/util
func ContainsString(sa, s) (r)
  prop V02
  loop 0: forall(j, 0, iter, sa[j] != s)
  ensures r == exists(j, 0, len(sa), sa[j] == s)

# ---- the local key database (SQL): what it returned and what it was given

package keydb mute/keydb
package uid mute/uid
package cipher mute/cipher

extern cipher.CKDF(nonce) (k1, k2)
  why the loops over single bytes are checked by the conformance run of C01
  ensures bytes(k1) == ckdf1(bytes(nonce)) && bytes(k2) == ckdf2(bytes(nonce)) && len(k1) == 64 && len(k2) == 64

# the entries of the local copy of a hash chain; a copied entry does not change
logic hcentry(Val, Bytes, Int) Bytes
# entry (k, domain, position, entry) was put into the local copy
logic hcstored(Val, Bytes, Int, Bytes) Bool
# a public ID message (k, identity, position) is or was put into the local database
logic pubstored(Val, Bytes, Int) Bool
# the reply the key server once gave for an own ID
logic hasreply(Val, Bytes) Bool
logic replypos(Val, Bytes) Int
logic replyentry(Val, Bytes) Bytes



package mute/cryptengine

def ceOK(ce) = ce.keyDB != nil && ce.cache != nil && cacheOK(ce.cache)
def kdb(ce) = ptrof(ce.keyDB)

func (*CryptEngine).syncHashChain(ce, domain) (err)
  prop V01
  requires ceOK(ce)
  modifies elems(ce.cache.clients), elems(ce.cache.capabilities)
  post last = evlast("rpc", 1, "r")
  post m = evlast("rpc", 0, "r")
  post start = ite(evlast("lasthc", 0, "found"), evlast("lasthc", 0, "pos") + 1, 0)
  post hi = u64(unbox(last["HCPos"], "float64"))
  loop 0: start == ite(evlast("lasthc", 0, "found"), evlast("lasthc", 0, "pos") + 1, 0) && hcFirstPos == start && hcFirstPos <= i
  loop 0: forall(p, start, i, isbox(hcEntries[p - start], "string") && hcstored(kdb(ce), domain, p, unbox(hcEntries[p - start], "string")))
  at addhc: evlast("addhc", 0, "domain") == domain && evlast("rpc", 0, "err") == nil && evlast("rpc", 0, "method") == "KeyHashchain.FetchHashChain" && start <= evlast("addhc", 0, "position") && evlast("addhc", 0, "position") <= hi
  at addhc: unbox(unbox(m["HCEntries"], "list")[evlast("addhc", 0, "position") - start], "string") == evlast("addhc", 0, "entry")
  ensures err == nil ==> evarg("rpc", 0, "err") == nil && evarg("rpc", 0, "method") == "KeyHashchain.FetchLastHashChain" && isbox(evarg("rpc", 0, "r")["HCPos"], "float64")
  ensures err == nil ==> evlast("lasthc", 0, "found") && evlast("lasthc", 0, "pos") >= u64(unbox(evarg("rpc", 0, "r")["HCPos"], "float64")) || forall(p, start, hi + 1, hcstored(kdb(ce), domain, p, unbox(unbox(m["HCEntries"], "list")[p - start], "string")))

# entry i of the local copy is well-formed and linked to the one before
def hc(ce, domain, i) = b64dec(hcentry(kdb(ce), domain, i))
def hcwf(ce, domain, i) = b64ok(hcentry(kdb(ce), domain, i)) && len(hc(ce, domain, i)) == 153 && hc(ce, domain, i)[32] == 1
def hclink(ce, domain, i) = sub(hc(ce, domain, i), 0, 32) == sha256(cat(sub(hc(ce, domain, i), 32, 153), ite(i == 0, zeros(32), sub(hc(ce, domain, i - 1), 0, 32))))

func (*CryptEngine).validateHashChain(ce, domain) (err)
  prop V01
  requires ceOK(ce)
  post max = evlast("lasthc", 0, "pos")
  post ids = evlast("privids", 0, "r")
  loop 0: forall(j, 0, i, hcwf(ce, domain, j))
  loop 0: forall(j, 0, i, hclink(ce, domain, j))
  loop 0: i > 0 ==> bytes(hashEntryN) == sub(hc(ce, domain, i - 1), 0, 32)
  loop 1: forall(j, 0, iter, hasreply(kdb(ce), ids[j]) && replypos(kdb(ce), ids[j]) <= max ==> replyentry(kdb(ce), ids[j]) == hcentry(kdb(ce), domain, replypos(kdb(ce), ids[j])))
  ensures err == nil ==> evlast("lasthc", 0, "found") && evlast("lasthc", 0, "err") == nil && evlast("lasthc", 0, "domain") == domain && evlast("privids", 0, "domain") == domain
  ensures err == nil ==> forall(j, 0, max + 1, hcwf(ce, domain, j))
  ensures err == nil ==> forall(j, 0, max + 1, hclink(ce, domain, j))
  ensures err == nil ==> forall(j, 0, len(ids), hasreply(kdb(ce), ids[j]) && replypos(kdb(ce), ids[j]) <= max ==> replyentry(kdb(ce), ids[j]) == hcentry(kdb(ce), domain, replypos(kdb(ce), ids[j])))

# the reply of the key repository holds what the server sent for the index
func (*CryptEngine).fetchUID(ce, domain, UIDIndex) (r, err)
  prop V01
  event fetchuid
  quiet
  fresh r
  requires ceOK(ce)
  modifies elems(ce.cache.clients), elems(ce.cache.capabilities)
  post m = unbox(unbox(evlast("rpc", 0, "r")["UIDMessageReply"], "object")["ENTRY"], "object")
  ensures ceOK(ce)
  ensures (err == nil) == (r != nil)
  ensures err == nil ==> count("rpc") == 1 && evlast("rpc", 0, "err") == nil && evlast("rpc", 0, "method") == "KeyRepository.FetchUID" && unbox(unbox(evlast("rpc", 0, "args"))["UIDIndex"]) == b64enc(bytes(UIDIndex))
  ensures err == nil ==> r.ENTRY.UIDMESSAGEENCRYPTED == unbox(m["UIDMESSAGEENCRYPTED"], "string") && r.ENTRY.HASHCHAINENTRY == unbox(m["HASHCHAINENTRY"], "string") && r.ENTRY.HASHCHAINPOS == u64(unbox(m["HASHCHAINPOS"], "float64"))
  ensures err == nil ==> r.SERVERSIGNATURE == unbox(unbox(evlast("rpc", 0, "r")["UIDMessageReply"], "object")["SERVERSIGNATURE"], "string")

# the server signed the reply r for the ID message m with the key pub
def srvSigned(r, m, pub) = sub(b64dec(r.ENTRY.UIDMESSAGEENCRYPTED), 0, 32) == sha256(sha256(canon(m))) && sigOver(pub, canon(r.ENTRY), r.SERVERSIGNATURE)
# the owner of the ID message p signed m as its successor
def chained(p, m) = p.UIDContent.MSGCOUNT + 1 == m.UIDContent.MSGCOUNT && sigOver(p.UIDContent.SIGKEY.PUBKEY, canon(m.UIDContent), m.USERSIGNATURE)
def ownFirst(m) = idlp(m.UIDContent.IDENTITY) == "keyserver" && m.UIDContent.MSGCOUNT == 0

func (*CryptEngine).verifyServerSig(ce, uid, msgReply, position) (err)
  prop V01
  inline
  requires ce.keyDB != nil && uid != nil && msgReply != nil
  maypanic !idok(uid.UIDContent.IDENTITY)
  ensures err == nil && !ownFirst(uid) ==> evlast("pubuid", 0, "found") && evlast("pubuid", 0, "identity") == cat("keyserver@", iddom(uid.UIDContent.IDENTITY)) && evlast("pubuid", 0, "maxpos") == position
  ensures err == nil && !ownFirst(uid) ==> srvSigned(msgReply, uid, evlast("pubuid", 0, "msg").UIDContent.SIGKEY.PUBKEY)

# entry i of the local copy is about the identity
def hcid(ce, domain, i, id) = sub(hc(ce, domain, i), 41, 73) == sha256(cat(ckdf1(sub(hc(ce, domain, i), 33, 41)), id))
# the hash of the ID message in entry i
def hcuid(ce, domain, i, id) = cbcdec(sha256(cat(ckdf2(sub(hc(ce, domain, i), 33, 41)), id)), sub(hc(ce, domain, i), 73, 89), sub(hc(ce, domain, i), 89, 121))

func (*CryptEngine).searchHashChain(ce, id, searchOnly) (err)
  prop V01
  requires ceOK(ce)
  modifies elems(ce.cache.clients), elems(ce.cache.capabilities)
  post mid = evarg("mapid", 0, "mappedID")
  post dom = evarg("mapid", 0, "mappedDomain")
  post max = evlast("lasthc", 0, "pos")
  post m = evlast("addpub", 0, "msg")
  post pos = evlast("addpub", 0, "position")
  loop 0: ceOK(ce)
  loop 0: forall(j, 0, i, hcwf(ce, dom, j))
  loop 0: !searchOnly ==> forall(j, 0, i, hcid(ce, dom, j, mid) ==> pubstored(kdb(ce), mid, j))
  loop 0: searchOnly ==> forall(j, 0, i, !hcid(ce, dom, j, mid))
  loop 0: matchFound ==> exists(j, 0, i, hcid(ce, dom, j, mid))
  at addpub: evlast("addpub", 0, "k") == ce.keyDB && evlast("gethc", 0, "position") == pos && evlast("gethc", 0, "domain") == dom && hcwf(ce, dom, pos) && hcid(ce, dom, pos, mid)
  at addpub: m.UIDContent.IDENTITY == mid
  at addpub: sha256(canon(m)) == hcuid(ce, dom, pos, mid)
  at addpub: sigOver(m.UIDContent.SIGKEY.PUBKEY, canon(m.UIDContent), m.SELFSIGNATURE)
  at addpub: sub(b64dec(evlast("fetchuid", 0, "r").ENTRY.UIDMESSAGEENCRYPTED), 0, 32) == sub(hc(ce, dom, pos), 121, 153)
  at addpub: !ownFirst(m) ==> evlast("pubuid", 0, "identity") == cat("keyserver@", dom) && evlast("pubuid", 0, "maxpos") == pos && evlast("pubuid", 0, "found") && srvSigned(evlast("fetchuid", 0, "r"), m, evlast("pubuid", 0, "msg").UIDContent.SIGKEY.PUBKEY)
  at addpub: ownFirst(m) ==> evlast("pubuid", 0, "identity") == mid && evlast("pubuid", 0, "maxpos") == pos && imp(evlast("pubuid", 0, "found"), chained(evlast("pubuid", 0, "msg"), m))
  at addpub: !ownFirst(m) ==> evlast("pubuid", 1, "identity") == mid && evlast("pubuid", 1, "maxpos") == pos && imp(evlast("pubuid", 1, "found"), chained(evlast("pubuid", 1, "msg"), m))
  ensures err == nil ==> evarg("mapid", 0, "err") == nil && evarg("mapid", 0, "identity") == id && evlast("lasthc", 0, "found") && evlast("lasthc", 0, "domain") == dom
  ensures err == nil && !searchOnly ==> forall(j, 0, max + 1, hcid(ce, dom, j, mid) ==> pubstored(kdb(ce), mid, j))
  ensures err == nil ==> exists(j, 0, max + 1, hcid(ce, dom, j, mid))

func (*CryptEngine).lookupHashChain(ce, id) (err)
  prop V01
  requires ceOK(ce)
  modifies elems(ce.cache.clients), elems(ce.cache.capabilities)
  post mid = evarg("mapid", 0, "mappedID")
  post dom = evarg("mapid", 0, "mappedDomain")
  post l = unbox(evarg("rpc", 0, "r")["HCPositions"], "list")
  post m = evlast("addpub", 0, "msg")
  post pos = evlast("addpub", 0, "position")
  loop 0: ceOK(ce)
  loop 0: forall(j, 0, iter, pubstored(kdb(ce), mid, u64(unbox(l[j], "float64"))) && hcid(ce, dom, u64(unbox(l[j], "float64")), mid))
  loop 0: matchFound == (iter > 0)
  at addpub: evlast("addpub", 0, "k") == ce.keyDB && evlast("gethc", 0, "position") == pos && evlast("gethc", 0, "domain") == dom && hcwf(ce, dom, pos) && hcid(ce, dom, pos, mid)
  at addpub: m.UIDContent.IDENTITY == mid
  at addpub: sha256(canon(m)) == hcuid(ce, dom, pos, mid)
  at addpub: sigOver(m.UIDContent.SIGKEY.PUBKEY, canon(m.UIDContent), m.SELFSIGNATURE)
  at addpub: sub(b64dec(evlast("fetchuid", 0, "r").ENTRY.UIDMESSAGEENCRYPTED), 0, 32) == sub(hc(ce, dom, pos), 121, 153)
  at addpub: !ownFirst(m) ==> evlast("pubuid", 0, "identity") == cat("keyserver@", dom) && evlast("pubuid", 0, "maxpos") == pos && evlast("pubuid", 0, "found") && srvSigned(evlast("fetchuid", 0, "r"), m, evlast("pubuid", 0, "msg").UIDContent.SIGKEY.PUBKEY)
  at addpub: ownFirst(m) ==> evlast("pubuid", 0, "identity") == mid && evlast("pubuid", 0, "maxpos") == pos && imp(evlast("pubuid", 0, "found"), chained(evlast("pubuid", 0, "msg"), m))
  at addpub: !ownFirst(m) ==> evlast("pubuid", 1, "identity") == mid && evlast("pubuid", 1, "maxpos") == pos && imp(evlast("pubuid", 1, "found"), chained(evlast("pubuid", 1, "msg"), m))
  ensures err == nil ==> evarg("mapid", 0, "err") == nil && evarg("mapid", 0, "identity") == id && evarg("rpc", 0, "err") == nil && evarg("rpc", 0, "method") == "KeyHashchain.LookupUID" && unbox(unbox(evarg("rpc", 0, "args"))["Identity"]) == mid
  ensures err == nil ==> len(l) > 0 && forall(j, 0, len(l), pubstored(kdb(ce), mid, u64(unbox(l[j], "float64"))) && hcid(ce, dom, u64(unbox(l[j], "float64")), mid))

# ---- key init messages and own IDs

package mute/keydb
package mute/cryptengine
package cipher mute/cipher

# the key server signed the key init message
def kiSigned(ki, sig, pub) = b64ok(sig) && b64ok(pub) && len(b64dec(pub)) == 32 && edok(b64dec(pub), canon(ki), b64dec(sig))

func (*CryptEngine).addKeyInit(ce, pseudonym, mixaddress, nymaddress, token) (err)
  prop V02
  requires ceOK(ce) && cipher.RandReader != nil
  maypanic
  modifies elems(ce.cache.clients), elems(ce.cache.capabilities)
  post m = evlast("privuid", 0, "msg")
  at addprivki: evlast("addprivki", 0, "ki") == evlast("keyinit", 0, "ki") && evlast("addprivki", 0, "pubKeyHash") == evlast("keyinit", 0, "pubKeyHash") && evlast("addprivki", 0, "privateKey") == evlast("keyinit", 0, "privateKey") && evlast("addprivki", 0, "sigPubKey") == m.UIDContent.SIGKEY.PUBKEY
  at addprivki: kiSigned(evlast("addprivki", 0, "ki"), evlast("addprivki", 0, "serverSignature"), evlast("cacheget", 0, "caps").SIGPUBKEYS[0])
  ensures err == nil ==> evarg("mapid", 0, "err") == nil && evarg("mapid", 0, "identity") == pseudonym && evarg("privuid", 0, "identity") == evarg("mapid", 0, "mappedID") && evarg("cacheget", 0, "domain") == evarg("mapid", 0, "mappedDomain")
  ensures err == nil ==> count("rpc") == 1 && evarg("rpc", 0, "err") == nil && evarg("rpc", 0, "method") == "KeyInitRepository.AddKeyInit"

func (*CryptEngine).fetchKeyInit(ce, pseudonym) (err)
  prop V02
  requires ceOK(ce)
  maypanic
  modifies elems(ce.cache.clients), elems(ce.cache.capabilities)
  post ki = evlast("addpubki", 0, "ki")
  post m = evlast("pubuid", 0, "msg")
  at addpubki: evlast("pubuid", 0, "found") && evlast("pubuid", 0, "identity") == evarg("mapid", 0, "mappedID") && evarg("mapid", 0, "identity") == pseudonym
  at addpubki: exists(j, 0, len(m.UIDContent.REPOURIS), m.UIDContent.REPOURIS[j] == ki.Contents.REPOURI) && ki.Contents.NOTBEFORE < ki.Contents.NOTAFTER
  at addpubki: ki.Contents.SIGKEYHASH == b64enc(sha512(sha512(b64dec(m.UIDContent.SIGKEY.PUBKEY)))) && edok(b64dec(m.UIDContent.SIGKEY.PUBKEY), canon(ki.Contents), b64dec(ki.SIGNATURE))
  ensures err == nil ==> evarg("mapid", 0, "err") == nil
  ensures err == nil ==> count("addpubki") == 1 && evarg("addpubki", 0, "err") == nil
  ensures err == nil ==> count("rpc") == 1 && evarg("rpc", 0, "method") == "KeyInitRepository.FetchKeyInit" && unbox(unbox(evarg("rpc", 0, "args"))["SigKeyHash"]) == b64enc(sha512(b64dec(m.UIDContent.SIGKEY.HASH)))

func (*CryptEngine).flushKeyInit(ce, pseudonym) (err)
  prop V02
  requires ceOK(ce)
  modifies elems(ce.cache.clients), elems(ce.cache.capabilities)
  post a = unbox(evarg("rpc", 0, "args"))
  post m = evlast("privuid", 0, "msg")
  ensures err == nil ==> evarg("mapid", 0, "err") == nil
  ensures err == nil ==> count("rpc") == 1 && evarg("rpc", 0, "err") == nil && evarg("rpc", 0, "method") == "KeyInitRepository.FlushKeyInit" && evarg("privuid", 0, "identity") == evarg("mapid", 0, "mappedID") && evarg("mapid", 0, "identity") == pseudonym
  ensures err == nil ==> unbox(a["SigPubKey"]) == m.UIDContent.SIGKEY.PUBKEY && sigOver(b64enc(edpub(bytes(m.UIDContent.SIGKEY.ed25519Key.privateKey))), le(8, unbox(a["Nonce"])), unbox(a["Signature"]))

func (*CryptEngine).registerOrUpdate(ce, pseudonym, token, command, verb) (err)
  prop V02
  event regup
  requires ceOK(ce)
  maypanic
  modifies elems(ce.cache.clients), elems(ce.cache.capabilities)
  post a = unbox(evarg("rpc", 0, "args"))
  post m = evlast("privuid", 0, "msg")
  post r = evlast("addreply", 0, "msgReply")
  ensures err == nil ==> evarg("mapid", 0, "err") == nil
  ensures err == nil ==> evarg("privuid", 0, "reply") == nil && evarg("privuid", 0, "identity") == evarg("mapid", 0, "mappedID") && evarg("mapid", 0, "identity") == pseudonym
  ensures err == nil ==> count("rpc") == 1 && evarg("rpc", 0, "err") == nil && evarg("rpc", 0, "method") == cat("KeyRepository.", command) && unbox(a["UIDMessage"]) == m && unbox(a["Token"]) == token
  ensures err == nil ==> count("addreply") == 1 && evlast("addreply", 0, "err") == nil && evlast("addreply", 0, "msg") == m
  ensures err == nil ==> srvSigned(r, m, evlast("cacheget", 0, "caps").SIGPUBKEYS[0])

func (*CryptEngine).generate(ce, pseudonym, keyserver, outputfp) (err)
  prop V02
  requires ceOK(ce) && cipher.RandReader != nil
  maypanic
  ensures err == nil ==> evarg("mapid", 0, "err") == nil
  ensures err == nil ==> evarg("uidcreate", 0, "userID") == evarg("mapid", 0, "mappedID") && evarg("mapid", 0, "identity") == pseudonym && evarg("uidcreate", 0, "rand") == cipher.RandReader
  ensures err == nil && !keyserver ==> count("addpriv") == 1 && evarg("addpriv", 0, "err") == nil && evarg("addpriv", 0, "msg") == evarg("uidcreate", 0, "r")
  ensures err == nil && !keyserver ==> evarg("lastentry", 0, "domain") == evarg("mapid", 0, "mappedDomain") && evarg("uidcreate", 0, "lastEntry") == evarg("lastentry", 0, "r")
  ensures keyserver ==> count("addpriv") == 0

# keys of the local database have their full length
func (*CryptEngine).GetMessageKey(ce, sessionKey, sender, msgIndex) (r, err)
  prop V02
  requires ceOK(ce)
  post k = b64dec(evarg("dbkey", 0, "r"))
  ensures (err == nil) == (r != nil)
  ensures err == nil ==> evarg("dbkey", 0, "sessionKey") == sessionKey && evarg("dbkey", 0, "sender") == sender && evarg("dbkey", 0, "msgIndex") == msgIndex
  ensures err == nil ==> len(k) >= 64 && bytes(r) == sub(k, 0, 64)

func (*CryptEngine).GetRootKeyHash(ce, sessionKey) (r, err)
  prop V02
  requires ceOK(ce)
  post k = b64dec(evarg("getsession", 0, "rootKeyHash"))
  ensures (err == nil) == (r != nil)
  ensures err == nil ==> evarg("getsession", 0, "sessionKey") == sessionKey && len(k) >= 64 && bytes(r) == sub(k, 0, 64)

func (*CryptEngine).GetChainKey(ce, sessionKey) (r, err)
  prop V02
  requires ceOK(ce)
  post k = b64dec(evarg("getsession", 0, "chainKey"))
  ensures (err == nil) == (r != nil)
  ensures err == nil ==> evarg("getsession", 0, "sessionKey") == sessionKey && len(k) >= 32 && bytes(r) == sub(k, 0, 32)

func (*CryptEngine).GetPrivateKeyEntry(ce, pubKeyHash) (ke, err)
  prop V02
  requires ceOK(ce)
  modifies any
  post p = b64dec(evarg("getprivki", 0, "privateKey"))
  ensures (err == nil) == (ke != nil)
  ensures err == nil ==> evarg("getprivki", 0, "pubKeyHash") == pubKeyHash && ke.FUNCTION == "ECDHE25519" && len(p) == 32 && ke.privateKeySet && bytes(ke.curve25519Key.privateKey) == p

func (*CryptEngine).GetPublicKeyEntry(ce, uidMsg) (ke, nym, err)
  prop V02
  requires ceOK(ce) && uidMsg != nil
  post ki = evarg("getpubki", 0, "ki")
  ensures (err == nil) == (ke != nil)
  ensures err == nil ==> evarg("getpubki", 0, "sigKeyHash") == b64enc(sha512(b64dec(uidMsg.UIDContent.SIGKEY.HASH))) && ki.Contents.SIGKEYHASH == b64enc(sha512(sha512(b64dec(uidMsg.UIDContent.SIGKEY.PUBKEY)))) && ke.FUNCTION == "ECDHE25519"

# the session store of the messages is the local database, asked for exactly what the caller wants; an error is not hidden
package session mute/msg/session
package sql database/sql
package mute/cryptengine

func (*CryptEngine).GetSessionState(ce, sessionStateKey) (r, err)
  prop K03
  requires ceOK(ce)
  ensures count("getstate") == 1 && evarg("getstate", 0, "sessionStateKey") == sessionStateKey && evarg("getstate", 0, "k") == ce.keyDB && err == evarg("getstate", 0, "err")
  ensures err == nil ==> r == evarg("getstate", 0, "s")
  ensures err != nil ==> r == nil

func (*CryptEngine).SetSessionState(ce, sessionStateKey, sessionState) (err)
  prop K03
  requires ceOK(ce) && sessionState != nil
  ensures count("setstate") == 1 && evarg("setstate", 0, "sessionStateKey") == sessionStateKey && evarg("setstate", 0, "k") == ce.keyDB && evarg("setstate", 0, "s") == sessionState && err == evarg("setstate", 0, "err")

func (*CryptEngine).StoreSession(ce, sessionKey, rootKeyHash, chainKey, send, recv) (err)
  prop K03
  requires ceOK(ce)
  ensures count("addsession") == 1 && evarg("addsession", 0, "k") == ce.keyDB && evarg("addsession", 0, "sessionKey") == sessionKey && evarg("addsession", 0, "rootKeyHash") == rootKeyHash && evarg("addsession", 0, "chainKey") == chainKey && err == evarg("addsession", 0, "err")
  ensures len(evarg("addsession", 0, "send")) == len(send) && forall(j, 0, len(send), evarg("addsession", 0, "send")[j] == send[j])
  ensures len(evarg("addsession", 0, "recv")) == len(recv) && forall(j, 0, len(recv), evarg("addsession", 0, "recv")[j] == recv[j])

func (*CryptEngine).HasSession(ce, sessionKey) (r)
  prop K03
  requires ceOK(ce)
  maypanic
  ensures count("getsession") == 1 && evarg("getsession", 0, "k") == ce.keyDB && evarg("getsession", 0, "sessionKey") == sessionKey && r == (evarg("getsession", 0, "err") == nil)

func (*CryptEngine).NumMessageKeys(ce, sessionKey) (n, err)
  prop K03
  requires ceOK(ce)
  ensures count("getsession") == 1 && evarg("getsession", 0, "k") == ce.keyDB && evarg("getsession", 0, "sessionKey") == sessionKey && err == evarg("getsession", 0, "err")
  ensures err == nil ==> n == evarg("getsession", 0, "numOfKeys")

func (*CryptEngine).DelMessageKey(ce, sessionKey, sender, msgIndex) (err)
  prop K03
  requires ceOK(ce)
  ensures count("dbdelkey") == 1 && evarg("dbdelkey", 0, "k") == ce.keyDB && evarg("dbdelkey", 0, "sessionKey") == sessionKey && evarg("dbdelkey", 0, "sender") == sender && evarg("dbdelkey", 0, "msgIndex") == msgIndex && err == evarg("dbdelkey", 0, "err")

func (*CryptEngine).AddSessionKey(ce, hash, json, privKey, cleanupTime) (err)
  prop K03
  requires ceOK(ce)
  ensures count("addsk") == 1 && evarg("addsk", 0, "k") == ce.keyDB && evarg("addsk", 0, "hash") == hash && evarg("addsk", 0, "json") == json && evarg("addsk", 0, "privKey") == privKey && evarg("addsk", 0, "cleanupTime") == cleanupTime && err == evarg("addsk", 0, "err")

# a key that is not there is reported as such, any other error as it is
func (*CryptEngine).GetSessionKey(ce, hash) (json, privKey, err)
  prop K03
  requires ceOK(ce) && session.ErrNoKeyEntry != nil && sql.ErrNoRows != nil
  ensures count("getsk") == 1 && evarg("getsk", 0, "k") == ce.keyDB && evarg("getsk", 0, "hash") == hash
  ensures evarg("getsk", 0, "err") == sql.ErrNoRows ==> err == session.ErrNoKeyEntry
  ensures evarg("getsk", 0, "err") != sql.ErrNoRows ==> err == evarg("getsk", 0, "err")
  ensures err == nil ==> json == evarg("getsk", 0, "json") && privKey == evarg("getsk", 0, "privKey")

func (*CryptEngine).DelPrivSessionKey(ce, hash) (err)
  prop K03
  requires ceOK(ce)
  ensures count("delsk") == 1 && evarg("delsk", 0, "k") == ce.keyDB && evarg("delsk", 0, "hash") == hash && err == evarg("delsk", 0, "err")

extern fmt.Scanln(a) (n, err)
  why standard library: any line typed by the user
  event scanln

# what is sent, updated or deleted is the own ID the caller named
func (*CryptEngine).register(ce, pseudonym, tokenString) (err)
  prop V02
  requires ceOK(ce)
  maypanic
  modifies elems(ce.cache.clients), elems(ce.cache.capabilities)
  ensures count("regup") == 1 && evarg("regup", 0, "ce") == ce && evarg("regup", 0, "pseudonym") == pseudonym && evarg("regup", 0, "token") == tokenString && evarg("regup", 0, "command") == "CreateUID" && err == evarg("regup", 0, "err")

func (*CryptEngine).update(ce, pseudonym, tokenString) (err)
  prop V02
  requires ceOK(ce)
  maypanic
  modifies elems(ce.cache.clients), elems(ce.cache.capabilities)
  ensures count("regup") == 1 && evarg("regup", 0, "ce") == ce && evarg("regup", 0, "pseudonym") == pseudonym && evarg("regup", 0, "token") == tokenString && evarg("regup", 0, "command") == "UpdateUID" && err == evarg("regup", 0, "err")

func (*CryptEngine).deleteUID(ce, pseudonym, force) (err)
  prop V02
  requires ceOK(ce)
  maypanic
  ensures count("delpriv") <= 1
  ensures count("delpriv") == 1 ==> evarg("mapone", 0, "err") == nil && evarg("mapone", 0, "identity") == pseudonym && evarg("privuid", 0, "err") == nil && evarg("privuid", 0, "identity") == evarg("mapone", 0, "r") && evarg("delpriv", 0, "msg") == evarg("privuid", 0, "msg") && evarg("delpriv", 0, "k") == ce.keyDB
  ensures err == nil ==> count("delpriv") == 1 && evarg("delpriv", 0, "err") == nil
  ensures !force ==> count("delpriv") == 0 || count("scanln") == 1 && evarg("scanln", 0, "err") == nil

func (*CryptEngine).genupdate(ce, pseudonym) (err)
  prop V02
  requires ceOK(ce) && cipher.RandReader != nil
  maypanic
  modifies any
  post old = evarg("privuid", 0, "msg")
  ensures count("addpriv") <= 1
  ensures count("addpriv") == 1 ==> evarg("mapone", 0, "err") == nil && evarg("mapone", 0, "identity") == pseudonym && evarg("privuid", 0, "err") == nil && evarg("privuid", 0, "identity") == evarg("mapone", 0, "r") && evarg("privuid", 0, "withPrivkeys") && evarg("addpriv", 0, "k") == ce.keyDB
  ensures count("addpriv") == 1 ==> evarg("uidupdate", 0, "err") == nil && evarg("uidupdate", 0, "msg") == evarg("privuid", 0, "msg") && evarg("addpriv", 0, "msg") == evarg("uidupdate", 0, "r")
  ensures err == nil ==> count("addpriv") == 1 && evarg("addpriv", 0, "err") == nil

# ---- messages: encrypted from the named own ID to the named contact, decrypted with the own IDs

func (*CryptEngine).encrypt(ce, w, from, to, sign, nymAddress, r, statusfp) (err)
  prop D01
  requires ceOK(ce) && w != nil && r != nil && cipher.RandReader != nil
  maypanic
  modifies any
  post a = evarg("msgencrypt", 0, "args")
  at msgencrypt: count("msgencrypt") == 1 && evarg("mapid", 0, "err") == nil && evarg("mapid", 0, "identity") == from && evarg("mapone", 0, "err") == nil && evarg("mapone", 0, "identity") == to
  at msgencrypt: count("privuid") == 1 && evarg("privuid", 0, "k") == old(ce.keyDB) && evarg("privuid", 0, "err") == nil && evarg("privuid", 0, "identity") == evarg("mapid", 0, "mappedID") && evarg("privuid", 0, "withPrivkeys")
  at msgencrypt: count("pubuid") == 1 && evarg("pubuid", 0, "k") == old(ce.keyDB) && evarg("pubuid", 0, "found") && evarg("pubuid", 0, "identity") == evarg("mapone", 0, "r") && evarg("pubuid", 0, "maxpos") == 9223372036854775807
  at msgencrypt: evarg("lastentry", 0, "err") == nil && evarg("lastentry", 0, "domain") == evarg("mapid", 0, "mappedDomain")
  at msgencrypt: a.Writer == w && a.Reader == r && a.NymAddress == nymAddress && a.Rand == cipher.RandReader && a.From == evarg("privuid", 0, "msg") && a.To == evarg("pubuid", 0, "msg")
  at msgencrypt: a.SenderLastKeychainHash == evarg("lastentry", 0, "r") && a.NumOfKeys == 0 && imp(!sign, a.PrivateSigKey == nil) && imp(sign, count("privkey64") == 1 && a.PrivateSigKey == evarg("privkey64", 0, "pk")) && a.KeyStore == ce
  ensures err == nil ==> count("msgencrypt") == 1 && evarg("msgencrypt", 0, "err") == nil
  ensures count("msgencrypt") == 0 ==> err != nil

func (*CryptEngine).getRecipientIdentities(ce) (r, err)
  prop D01
  event recipients
  requires ce.keyDB != nil
  maypanic
  loop 0: len(uidMsgs) == iter
  at privuid: evarg("prividall", 0, "err") == nil && evarg("prividall", 0, "k") == ce.keyDB && evlast("privuid", 0, "withPrivkeys") && evlast("privuid", 0, "k") == ce.keyDB
  ensures err == nil ==> evarg("prividall", 0, "err") == nil && len(r) == len(evarg("prividall", 0, "r"))
  # one by one as GetPrivateUID returned them
  assumes err == nil ==> forall(j, 0, len(r), identOK(r[j]))

extern mute/encode/base64.NewDecoder(r) (d)
  why standard library: a reader of the decoded bytes
  event b64reader
  ensures d != nil

func (*CryptEngine).decrypt(ce, w, r, statusfp) (err)
  prop D01
  requires ceOK(ce) && w != nil && r != nil && cipher.RandReader != nil
  maypanic
  modifies any
  let rd = r
  post a = evarg("msgdecrypt", 0, "args")
  at msgdecrypt: a.Writer == w && len(a.Identities) == len(evarg("recipients", 0, "r")) && forall(j, 0, len(a.Identities), a.Identities[j] == evarg("recipients", 0, "r")[j]) && a.PreHeader == evarg("firsthdr", 0, "preHeader") && a.NumOfKeys == 0 && a.KeyStore == ce
  at msgdecrypt: evarg("b64reader", 0, "r") == rd && a.Reader == evarg("b64reader", 0, "d") && evarg("firsthdr", 0, "r") == a.Reader
  at msgdecrypt: count("msgdecrypt") == 1 && evarg("recipients", 0, "err") == nil && evarg("firsthdr", 0, "err") == nil && evarg("firsthdr", 0, "version") == 1
  ensures err == nil ==> count("msgdecrypt") == 1 && evarg("msgdecrypt", 0, "err") == nil
  ensures count("msgdecrypt") == 0 ==> err != nil
