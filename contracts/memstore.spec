package mute/msg/session/memstore
package session mute/msg/session
package uid mute/uid

def wfMS(ms) = ms.privateKeyEntryMap != nil && ms.publicKeyEntryMap != nil && ms.sessionStates != nil && ms.sessions != nil && ms.sessionKeys != nil
# every stored session has as many send as receive keys
def wfS(ms, k) = imp(has(ms.sessions, k), ms.sessions[k] != nil && len(ms.sessions[k].send) == len(ms.sessions[k].recv))

func New() (ms)
  prop M01
  ensures ms != nil && wfMS(ms)
  ensures forallkey(k, ms.sessions, false)
  ensures forallkey(k, ms.sessionKeys, false)
  ensures forallkey(k, ms.sessionStates, false)

func (*MemStore).HasSession(ms, sessionKey) (r)
  prop M01
  ensures r == has(ms.sessions, sessionKey)

func (*MemStore).GetSessionState(ms, key) (s, err)
  prop M01
  ensures err == nil
  ensures has(ms.sessionStates, key) ==> s == ms.sessionStates[key]
  ensures !has(ms.sessionStates, key) ==> s == nil

func (*MemStore).SetSessionState(ms, key, s) (err)
  prop M01
  requires wfMS(ms)
  modifies elems(ms.sessionStates)
  ensures err == nil && has(ms.sessionStates, key) && ms.sessionStates[key] == s
  ensures forallkey(k, old(ms.sessionStates), k == key || has(ms.sessionStates, k) && ms.sessionStates[k] == old(ms.sessionStates[k]))

func (*MemStore).StoreSession(ms, sessionKey, rootKeyHash, chainKey, send, recv) (err)
  prop M01
  requires wfMS(ms) && wfS(ms, sessionKey)
  modifies elems(ms.sessions), ms.sessionKey, elems(ms.sessions[sessionKey])
  ensures (err == nil) == (len(send) == len(recv))
  ensures err == nil ==> has(ms.sessions, sessionKey) && wfS(ms, sessionKey) && ms.sessions[sessionKey].chainKey == chainKey
  ensures err == nil && !old(has(ms.sessions, sessionKey)) ==> ms.sessions[sessionKey].rootKeyHash == rootKeyHash && len(ms.sessions[sessionKey].send) == len(send) && ms.sessionKey == sessionKey
  ensures err == nil && !old(has(ms.sessions, sessionKey)) ==> forall(j, 0, len(send), ms.sessions[sessionKey].send[j] == send[j] && ms.sessions[sessionKey].recv[j] == recv[j])
  ensures err == nil && old(has(ms.sessions, sessionKey)) ==> ms.sessions[sessionKey].rootKeyHash == old(ms.sessions[sessionKey].rootKeyHash) && len(ms.sessions[sessionKey].send) == old(len(ms.sessions[sessionKey].send)) + len(send) && ms.sessionKey == old(ms.sessionKey)
  ensures err == nil && old(has(ms.sessions, sessionKey)) ==> forall(j, 0, old(len(ms.sessions[sessionKey].send)), ms.sessions[sessionKey].send[j] == old(ms.sessions[sessionKey].send[j]) && ms.sessions[sessionKey].recv[j] == old(ms.sessions[sessionKey].recv[j]))
  ensures err == nil && old(has(ms.sessions, sessionKey)) ==> forall(j, 0, len(send), ms.sessions[sessionKey].send[old(len(ms.sessions[sessionKey].send)) + j] == send[j] && ms.sessions[sessionKey].recv[old(len(ms.sessions[sessionKey].send)) + j] == recv[j])

func (*MemStore).NumMessageKeys(ms, sessionKey) (n, err)
  prop M01
  requires wfS(ms, sessionKey)
  ensures (err == nil) == has(ms.sessions, sessionKey)
  ensures err == nil ==> n == len(ms.sessions[sessionKey].send)

func (*MemStore).GetMessageKey(ms, sessionKey, sender, msgIndex) (key, err)
  prop M01 D02
  fresh key
  requires wfS(ms, sessionKey)
  ensures (err == nil) == (key != nil)
  ensures err == nil ==> has(ms.sessions, sessionKey) && msgIndex < len(ms.sessions[sessionKey].send)
  ensures err == nil && sender ==> ms.sessions[sessionKey].send[msgIndex] != "" && bytes(key) == sub(b64dec(ms.sessions[sessionKey].send[msgIndex]), 0, 64)
  ensures err == nil && !sender ==> ms.sessions[sessionKey].recv[msgIndex] != "" && bytes(key) == sub(b64dec(ms.sessions[sessionKey].recv[msgIndex]), 0, 64)
  ensures has(ms.sessions, sessionKey) && msgIndex < len(ms.sessions[sessionKey].send) && ite(sender, ms.sessions[sessionKey].send[msgIndex], ms.sessions[sessionKey].recv[msgIndex]) == "" ==> err == session.ErrMessageKeyUsed
  ensures has(ms.sessions, sessionKey) && msgIndex < len(ms.sessions[sessionKey].send) && sender && b64ok(ms.sessions[sessionKey].send[msgIndex]) && len(b64dec(ms.sessions[sessionKey].send[msgIndex])) == 64 && ms.sessions[sessionKey].send[msgIndex] != "" ==> err == nil
  ensures has(ms.sessions, sessionKey) && msgIndex < len(ms.sessions[sessionKey].send) && !sender && b64ok(ms.sessions[sessionKey].recv[msgIndex]) && len(b64dec(ms.sessions[sessionKey].recv[msgIndex])) == 64 && ms.sessions[sessionKey].recv[msgIndex] != "" ==> err == nil

func (*MemStore).DelMessageKey(ms, sessionKey, sender, msgIndex) (err)
  prop M01 D02
  requires wfS(ms, sessionKey)
  modifies elems(ms.sessions[sessionKey].send), elems(ms.sessions[sessionKey].recv)
  ensures (err == nil) == (has(ms.sessions, sessionKey) && msgIndex < len(ms.sessions[sessionKey].send))
  ensures err == nil && sender ==> ms.sessions[sessionKey].send[msgIndex] == "" && forall(j, 0, len(ms.sessions[sessionKey].send), j == msgIndex || ms.sessions[sessionKey].send[j] == old(ms.sessions[sessionKey].send[j])) && forall(j, 0, len(ms.sessions[sessionKey].send), ms.sessions[sessionKey].recv[j] == old(ms.sessions[sessionKey].recv[j]))
  ensures err == nil && !sender ==> ms.sessions[sessionKey].recv[msgIndex] == "" && forall(j, 0, len(ms.sessions[sessionKey].send), j == msgIndex || ms.sessions[sessionKey].recv[j] == old(ms.sessions[sessionKey].recv[j])) && forall(j, 0, len(ms.sessions[sessionKey].send), ms.sessions[sessionKey].send[j] == old(ms.sessions[sessionKey].send[j]))

func (*MemStore).GetRootKeyHash(ms, sessionKey) (h, err)
  prop M01
  requires wfS(ms, sessionKey)
  ensures (err == nil) == (h != nil)
  ensures err == nil ==> has(ms.sessions, sessionKey) && b64ok(ms.sessions[sessionKey].rootKeyHash) && bytes(h) == sub(b64dec(ms.sessions[sessionKey].rootKeyHash), 0, 64)

func (*MemStore).GetChainKey(ms, sessionKey) (k, err)
  prop M01
  fresh k
  requires wfS(ms, sessionKey)
  ensures (err == nil) == (k != nil)
  ensures err == nil ==> has(ms.sessions, sessionKey) && b64ok(ms.sessions[sessionKey].chainKey) && bytes(k) == sub(b64dec(ms.sessions[sessionKey].chainKey), 0, 32)

func (*MemStore).AddSessionKey(ms, hash, json, privKey, cleanupTime) (err)
  prop M01
  requires wfMS(ms)
  modifies elems(ms.sessionKeys)
  ensures err == nil && has(ms.sessionKeys, hash) && ms.sessionKeys[hash].json == json && ms.sessionKeys[hash].privKey == privKey && ms.sessionKeys[hash].cleanupTime == cleanupTime

func (*MemStore).GetSessionKey(ms, hash) (json, privKey, err)
  prop M01
  requires imp(has(ms.sessionKeys, hash), ms.sessionKeys[hash] != nil)
  ensures (err == nil) == has(ms.sessionKeys, hash)
  ensures err == nil ==> json == ms.sessionKeys[hash].json && privKey == ms.sessionKeys[hash].privKey
  ensures err != nil ==> err == session.ErrNoKeyEntry && json == "" && privKey == ""

func (*MemStore).DelPrivSessionKey(ms, hash) (err)
  prop M01
  requires imp(has(ms.sessionKeys, hash), ms.sessionKeys[hash] != nil)
  modifies ms.sessionKeys[hash].privKey
  ensures err == nil
  ensures has(ms.sessionKeys, hash) ==> ms.sessionKeys[hash].privKey == ""

func (*MemStore).AddPrivateKeyEntry(ms, ke) ()
  prop M01
  requires wfMS(ms) && ke != nil
  modifies elems(ms.privateKeyEntryMap)
  ensures has(ms.privateKeyEntryMap, ke.HASH) && ms.privateKeyEntryMap[ke.HASH] == ke

func (*MemStore).GetPrivateKeyEntry(ms, h) (ke, err)
  prop M01
  ensures (err == nil) == has(ms.privateKeyEntryMap, h)
  ensures err == nil ==> ke == ms.privateKeyEntryMap[h]
  ensures err != nil ==> ke == nil && err == session.ErrNoKeyEntry

func (*MemStore).CleanupSessionKeys(ms, t) (err)
  prop M01
  requires wfMS(ms)
  requires forallkey(k, ms.sessionKeys, ms.sessionKeys[k] != nil)
  modifies elems(ms.sessionKeys)
  loop 0: forall(j, 0, len(oldKeys), has(ms.sessionKeys, oldKeys[j]) && ms.sessionKeys[oldKeys[j]].cleanupTime < t)
  loop 0: forallkey(k, ms.sessionKeys, imp(seen(k) && ms.sessionKeys[k].cleanupTime < t, exists(j, 0, len(oldKeys), oldKeys[j] == k)))
  loop 1: forallkey(k, old(ms.sessionKeys), has(ms.sessionKeys, k) || old(ms.sessionKeys[k].cleanupTime) < t)
  loop 1: forallkey(k, ms.sessionKeys, old(has(ms.sessionKeys, k)))
  loop 1: forallkey(k, ms.sessionKeys, ms.sessionKeys[k] == old(ms.sessionKeys[k]))
  loop 1: forall(j, 0, iter, !has(ms.sessionKeys, oldKeys[j]))
  ensures err == nil
  ensures forallkey(k, old(ms.sessionKeys), old(ms.sessionKeys[k].cleanupTime) < t || has(ms.sessionKeys, k))
  ensures forallkey(k, ms.sessionKeys, ms.sessionKeys[k].cleanupTime >= t)
  ensures forallkey(k, ms.sessionKeys, old(has(ms.sessionKeys, k)))
