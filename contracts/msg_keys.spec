package mute/msg
package session mute/msg/session
package uid mute/uid

# chain key number i of a session with root key k
logic chain(Bytes, Int) Bytes len 32
axiom chain0 (k Bytes) imp(len(k) == 32, chain(k, 0) == k)
axiom chainS (k Bytes, i Int) imp(i >= 0, chain(k, i+1) == sub(hmacsha512(chain(k, i), "CHAIN"), 0, 32))
# message key number i for the party whose public key is pub
def mkey(k, i, pub, fix) = b64enc(hmacsha512(chain(k, i), cat("MESSAGE", sha512(pub), fix)))
def idfix(a, b) = sha512(ite(a < b, cat(a, b), cat(b, a)))
def skey(h1, h2, p1, p2) = b64enc(sha512(cat(h1, h2, b64enc(sha512(p1)), b64enc(sha512(p2)))))

iface (session.Store).StoreSession(s, sessionKey, rootKeyHash, chainKey, send, recv) (err)
  event StoreSession
  why external store: any outcome

func checkKeys(kh, k1, k2, k3, k4) (err)
  prop R01
  requires kh != nil && k1 != nil && k2 != nil && k3 != nil && k4 != nil
  ensures (err == nil) == (bytes(kh) != bytes(k1) && bytes(kh) != bytes(k2) && bytes(kh) != bytes(k3) && bytes(kh) != bytes(k4) && bytes(k1) != bytes(k2) && bytes(k1) != bytes(k3) && bytes(k1) != bytes(k4) && bytes(k2) != bytes(k3) && bytes(k2) != bytes(k4) && bytes(k3) != bytes(k4))
  ensures err != nil ==> err == ErrReflection

func deriveRootKey(t1, t2, t3, previousRootKeyHash) (r, err)
  prop R01
  fresh r
  requires t1 != nil && t2 != nil && t3 != nil
  ensures err == nil && r != nil
  ensures bytes(r) == hkdfsha512(cat(bytes(t1), bytes(t2), bytes(t3), ite(previousRootKeyHash != nil, bytes(previousRootKeyHash), zeros(64))), "", "", 0, 32)

func deriveSymmetricKeys(messageKey) (cryptoKey, hmacKey, err)
  prop R02
  fresh cryptoKey, hmacKey
  requires messageKey != nil
  ensures err == nil && len(cryptoKey) == 32 && len(hmacKey) == 32
  ensures bytes(cryptoKey) == hkdfsha512(bytes(messageKey), "", "", 0, 32)
  ensures bytes(hmacKey) == hkdfsha512(bytes(messageKey), "", "", 32, 32)

func generateMessageKeys(senderIdentity, recipientIdentity, senderIdentityPubkeyHash, recipientIdentityPubkeyHash, rootKey, recipientKeys, senderSessionPub, recipientPub, numOfKeys, keyStore) (err)
  prop R02
  event MessageKeys
  requires rootKey != nil && senderSessionPub != nil && recipientPub != nil && keyStore != nil
  requires numOfKeys < 1099511627776
  let fix = idfix(senderIdentity, recipientIdentity)
  let k = old(bytes(rootKey))
  modifies *rootKey
  loop 0: iter <= numOfKeys
  loop 0: len(send) == iter && len(recv) == iter
  loop 0: len(chainKey) == 32 && bytes(chainKey) == chain(k, iter)
  loop 0: forall(j, 0, iter, send[j] == mkey(k, j, bytes(recipientPub), fix))
  loop 0: forall(j, 0, iter, recv[j] == mkey(k, j, bytes(senderSessionPub), fix))
  ensures bytes(rootKey) == zeros(32)
  ensures count("StoreSession") == 1
  ensures err == evarg("StoreSession", 0, "err")
  ensures evarg("StoreSession", 0, "rootKeyHash") == b64enc(sha512(k))
  ensures numOfKeys > 0 ==> evarg("StoreSession", 0, "chainKey") == b64enc(chain(k, numOfKeys))
  ensures len(evarg("StoreSession", 0, "send")) == numOfKeys && len(evarg("StoreSession", 0, "recv")) == numOfKeys
  ensures forall(j, 0, numOfKeys, evarg("StoreSession", 0, "send")[j] == mkey(k, j, ite(recipientKeys, bytes(senderSessionPub), bytes(recipientPub)), fix))
  ensures forall(j, 0, numOfKeys, evarg("StoreSession", 0, "recv")[j] == mkey(k, j, ite(recipientKeys, bytes(recipientPub), bytes(senderSessionPub)), fix))
  ensures evarg("StoreSession", 0, "sessionKey") == ite(recipientKeys, skey(recipientIdentityPubkeyHash, senderIdentityPubkeyHash, bytes(recipientPub), bytes(senderSessionPub)), skey(senderIdentityPubkeyHash, recipientIdentityPubkeyHash, bytes(senderSessionPub), bytes(recipientPub)))

# the root key from the three shared secrets and the previous root key hash
def rootkey(t1, t2, t3, prev) = hkdfsha512(cat(t1, t2, t3, prev), "", "", 0, 32)
def prevhash(p) = ite(p != nil, bytes(p), zeros(64))
# both sides of the agreement compute the same root key: sender session s, sender identity a, recipient key-init k, recipient identity b
lemma agreement [R01] (s Bytes, a Bytes, k Bytes, b Bytes, prev Bytes) rootkey(dh(a, dhpub(k)), dh(s, dhpub(k)), dh(s, dhpub(b)), prev) == rootkey(dh(k, dhpub(a)), dh(k, dhpub(s)), dh(b, dhpub(s)), prev)

def eccKE(ke) = ke != nil && ke.FUNCTION == "ECDHE25519" && b64ok(ke.PUBKEY) && len(b64dec(ke.PUBKEY)) == 32
def distinct5(a, b, c, d, e) = a != b && a != c && a != d && a != e && b != c && b != d && b != e && c != d && c != e && d != e

func rootKeyAgreementSender(senderHeaderPub, senderIdentity, recipientIdentity, senderSession, senderID, recipientKI, recipientID, previousRootKeyHash, numOfKeys, keyStore) (err)
  prop R01
  event AgreeSender
  requires senderHeaderPub != nil && keyStore != nil && numOfKeys < 1099511627776
  requires eccKE(senderSession) && eccKE(senderID) && eccKE(recipientKI) && eccKE(recipientID)
  requires wfKE(senderSession) && wfKE(senderID) && wfPub(recipientKI) && wfPub(recipientID)
  maypanic !senderSession.privateKeySet || !senderID.privateKeySet
  let t1 = dh(bytes(senderID.curve25519Key.privateKey), pubOf(recipientKI))
  let t2 = dh(bytes(senderSession.curve25519Key.privateKey), pubOf(recipientKI))
  let t3 = dh(bytes(senderSession.curve25519Key.privateKey), pubOf(recipientID))
  let ok = distinct5(bytes(senderHeaderPub), pubOf(senderID), pubOf(senderSession), pubOf(recipientKI), pubOf(recipientID))
  ensures err == nil ==> ok
  ensures !ok ==> err == ErrReflection && count("MessageKeys") == 0
  ensures ok ==> count("MessageKeys") == 1 && err == evarg("MessageKeys", 0, "err")
  ensures count("MessageKeys") == 1 ==> bytes(evarg("MessageKeys", 0, "rootKey")) == rootkey(t1, t2, t3, prevhash(previousRootKeyHash))
  ensures count("MessageKeys") == 1 ==> evarg("MessageKeys", 0, "recipientKeys") == false && bytes(evarg("MessageKeys", 0, "senderSessionPub")) == pubOf(senderSession) && bytes(evarg("MessageKeys", 0, "recipientPub")) == pubOf(recipientKI)
  ensures count("MessageKeys") == 1 ==> evarg("MessageKeys", 0, "senderIdentity") == senderIdentity && evarg("MessageKeys", 0, "recipientIdentity") == recipientIdentity && evarg("MessageKeys", 0, "senderIdentityPubkeyHash") == senderID.HASH && evarg("MessageKeys", 0, "recipientIdentityPubkeyHash") == recipientID.HASH
  ensures count("MessageKeys") == 1 ==> evarg("MessageKeys", 0, "numOfKeys") == numOfKeys && evarg("MessageKeys", 0, "keyStore") == keyStore

func rootKeyAgreementRecipient(senderHeaderPub, senderIdentity, recipientIdentity, senderSession, senderID, recipientKI, recipientID, previousRootKeyHash, numOfKeys, keyStore) (err)
  prop R01
  event AgreeRecipient
  requires senderHeaderPub != nil && keyStore != nil && numOfKeys < 1099511627776
  requires eccKE(senderSession) && eccKE(senderID) && eccKE(recipientKI) && eccKE(recipientID)
  requires wfPub(senderSession) && wfPub(senderID) && wfKE(recipientKI) && wfKE(recipientID)
  maypanic !recipientKI.privateKeySet || !recipientID.privateKeySet
  let t1 = dh(bytes(recipientKI.curve25519Key.privateKey), pubOf(senderID))
  let t2 = dh(bytes(recipientKI.curve25519Key.privateKey), pubOf(senderSession))
  let t3 = dh(bytes(recipientID.curve25519Key.privateKey), pubOf(senderSession))
  let ok = distinct5(bytes(senderHeaderPub), pubOf(senderID), pubOf(senderSession), pubOf(recipientKI), pubOf(recipientID))
  ensures err == nil ==> ok
  ensures !ok ==> err == ErrReflection && count("MessageKeys") == 0
  ensures ok ==> count("MessageKeys") == 1 && err == evarg("MessageKeys", 0, "err")
  ensures count("MessageKeys") == 1 ==> bytes(evarg("MessageKeys", 0, "rootKey")) == rootkey(t1, t2, t3, prevhash(previousRootKeyHash))
  ensures count("MessageKeys") == 1 ==> evarg("MessageKeys", 0, "recipientKeys") == true && bytes(evarg("MessageKeys", 0, "senderSessionPub")) == pubOf(senderSession) && bytes(evarg("MessageKeys", 0, "recipientPub")) == pubOf(recipientKI)
  ensures count("MessageKeys") == 1 ==> evarg("MessageKeys", 0, "senderIdentity") == senderIdentity && evarg("MessageKeys", 0, "recipientIdentity") == recipientIdentity && evarg("MessageKeys", 0, "senderIdentityPubkeyHash") == senderID.HASH && evarg("MessageKeys", 0, "recipientIdentityPubkeyHash") == recipientID.HASH
  ensures count("MessageKeys") == 1 ==> evarg("MessageKeys", 0, "numOfKeys") == numOfKeys && evarg("MessageKeys", 0, "keyStore") == keyStore
