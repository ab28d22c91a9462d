package mute/uid
package cipher mute/cipher
package base64 mute/encode/base64
package identity mute/uid/identity
package hashchain mute/keyserver/hashchain

# a detached base64 signature over b by the base64 key pub
def sigOver(pub, b, sig) = b64ok(sig) && b64ok(pub) && len(b64dec(pub)) == 32 && edok(b64dec(pub), b, b64dec(sig))

func (*Message).VerifySelfSig(msg) (err)
  prop U01
  ensures (err == nil) == sigOver(msg.UIDContent.SIGKEY.PUBKEY, canon(msg.UIDContent), msg.SELFSIGNATURE)

func (*Message).VerifyUserSig(msg, preMsg) (err)
  prop U02
  requires preMsg != nil
  ensures (err == nil) == (preMsg.UIDContent.MSGCOUNT + 1 == msg.UIDContent.MSGCOUNT && sigOver(preMsg.UIDContent.SIGKEY.PUBKEY, canon(msg.UIDContent), msg.USERSIGNATURE))

func VerifyNonce(sigPubKey, nonce, signature) (err)
  prop U02
  ensures (err == nil) == sigOver(sigPubKey, le(8, nonce), signature)

func (*Message).SignNonce(msg) (nonce, signature)
  prop U02
  requires msg.UIDContent.SIGKEY.ed25519Key != nil && len(msg.UIDContent.SIGKEY.ed25519Key.privateKey) == 64
  ensures sigOver(b64enc(edpub(bytes(msg.UIDContent.SIGKEY.ed25519Key.privateKey))), le(8, nonce), signature)
  ensures count("now") == 1 && evarg("now", 0, "t") == nonce

func (*Message).Encrypt(msg) (UIDHash, UIDIndex, UIDMessageEncrypted)
  prop U03
  maypanic
  ensures bytes(UIDHash) == sha256(canon(msg)) && bytes(UIDIndex) == sha256(sha256(canon(msg)))
  ensures b64ok(UIDMessageEncrypted) && len(b64dec(UIDMessageEncrypted)) == 48 + len(canon(msg))
  ensures sub(b64dec(UIDMessageEncrypted), 0, 32) == bytes(UIDIndex)
  ensures sub(b64dec(UIDMessageEncrypted), 48, len(b64dec(UIDMessageEncrypted))) == ctr(bytes(UIDHash), sub(b64dec(UIDMessageEncrypted), 32, 48), canon(msg))

# what a reply decrypts to under a hash key
def replyPlain(enc, h) = ctr(h, sub(enc, 32, 48), sub(enc, 48, len(enc)))

func (*MessageReply).Decrypt(reply, UIDHash) (idx, uid, err)
  prop U03
  maypanic len(UIDHash) != 32
  let enc = b64dec(reply.ENTRY.UIDMESSAGEENCRYPTED)
  ensures (err == nil) == (b64ok(reply.ENTRY.UIDMESSAGEENCRYPTED) && len(enc) >= 48 && jsonok("Message", replyPlain(enc, bytes(UIDHash))))
  ensures (err == nil) == (uid != nil)
  ensures err == nil ==> bytes(idx) == sub(enc, 0, 32) && canon(uid) == canon(unjson("Message", replyPlain(enc, bytes(UIDHash))))

func (*MessageReply).VerifySrvSig(reply, msg, srvPubKey) (err)
  prop U03
  requires msg != nil
  maypanic
  let enc = b64dec(reply.ENTRY.UIDMESSAGEENCRYPTED)
  let h = sha256(canon(msg))
  ensures (err == nil) == (b64ok(reply.ENTRY.UIDMESSAGEENCRYPTED) && len(enc) >= 48 && jsonok("Message", replyPlain(enc, h)) && sub(enc, 0, 32) == sha256(h) && canon(unjson("Message", replyPlain(enc, h))) == canon(msg) && sigOver(srvPubKey, canon(reply.ENTRY), reply.SERVERSIGNATURE))

func CreateReply(UIDMessageEncrypted, HCEntry, HCPos, sigKey) (r)
  prop U03
  requires sigKey != nil && len(sigKey.privateKey) == 64
  ensures r != nil && r.ENTRY.UIDMESSAGEENCRYPTED == UIDMessageEncrypted && r.ENTRY.HASHCHAINENTRY == HCEntry && r.ENTRY.HASHCHAINPOS == HCPos
  ensures sigOver(b64enc(edpub(bytes(sigKey.privateKey))), canon(r.ENTRY), r.SERVERSIGNATURE)

func SigKeyHash(sigPubKey) (r, err)
  prop U01
  ensures (err == nil) == b64ok(sigPubKey)
  ensures err == nil ==> r == b64enc(sha512(b64dec(sigPubKey)))

func (*Message).Check(msg) (err)
  prop U01
  let c = msg.UIDContent
  ensures err == nil ==> c.VERSION == "1.0" && c.PREFERENCES.FORWARDSEC == "strict"
  ensures err == nil ==> c.MIXADDRESS == "" && c.NYMADDRESS == ""
  ensures err == nil ==> c.SIGKEY.CIPHERSUITE == "NACL HKDF AES256-CTR SHA512-HMAC ED25519 ECDHE25519" && c.SIGKEY.FUNCTION == "ED25519"
  ensures err == nil ==> len(c.PUBKEYS) == 1 && c.PUBKEYS[0].FUNCTION == "ECDHE25519" && c.PUBKEYS[0].CIPHERSUITE == "NACL HKDF AES256-CTR SHA512-HMAC ED25519 ECDHE25519"
  ensures err == nil ==> c.SIGESCROW == nil || (c.SIGESCROW.CIPHERSUITE == "" && c.SIGESCROW.FUNCTION == "" && c.SIGESCROW.HASH == "" && c.SIGESCROW.PUBKEY == "")
  ensures err == nil ==> msg.ESCROWSIGNATURE == "" || msg.USERSIGNATURE == ""

func (*Message).Update(msg, rand) (r, err)
  event uidupdate
  prop U02
  requires rand != nil && len(msg.UIDContent.PUBKEYS) > 0
  requires msg.UIDContent.SIGKEY.ed25519Key != nil && len(msg.UIDContent.SIGKEY.ed25519Key.privateKey) == 64 && b64dec(msg.UIDContent.SIGKEY.PUBKEY) == edpub(bytes(msg.UIDContent.SIGKEY.ed25519Key.privateKey)) && b64ok(msg.UIDContent.SIGKEY.PUBKEY)
  maypanic
  requires wfPriv(msg.UIDContent.PUBKEYS[0])
  modifies elems(msg.UIDContent.PUBKEYS), msg.UIDContent.PUBKEYS[0].curve25519Key.privateKey, msg.UIDContent.PUBKEYS[0].ed25519Key.privateKey
  ensures (err == nil) == (r != nil)
  ensures err == nil && msg.UIDContent.MSGCOUNT < 18446744073709551615 ==> r.UIDContent.MSGCOUNT == msg.UIDContent.MSGCOUNT + 1
  ensures err == nil ==> sigOver(old(msg.UIDContent.SIGKEY.PUBKEY), canon(r.UIDContent), r.USERSIGNATURE)
  ensures err == nil ==> sigOver(r.UIDContent.SIGKEY.PUBKEY, canon(r.UIDContent), r.SELFSIGNATURE)
  ensures err == nil ==> validKE(r.UIDContent.SIGKEY) && r.UIDContent.IDENTITY == msg.UIDContent.IDENTITY
  ensures err == nil ==> wfPriv(r.UIDContent.SIGKEY) && len(r.UIDContent.PUBKEYS) == len(msg.UIDContent.PUBKEYS) && wfPriv(r.UIDContent.PUBKEYS[0])

# a new ID message is self-signed with its own, new keys
func Create(userID, sigescrow, mixaddress, nymaddress, pfsPreference, lastEntry, rand) (r, err)
  prop U02
  event uidcreate
  quiet
  fresh r
  requires rand != nil
  maypanic
  post c = r.UIDContent
  ensures (err == nil) == (r != nil)
  ensures err == nil ==> c.IDENTITY == userID && c.VERSION == "1.0" && c.MSGCOUNT == 0 && c.LASTENTRY == lastEntry
  ensures err == nil ==> validKE(c.SIGKEY) && len(c.PUBKEYS) == 1 && validKE(c.PUBKEYS[0])
  ensures err == nil ==> c.SIGKEY.ed25519Key != nil && len(c.SIGKEY.ed25519Key.privateKey) == 64 && wfPriv(c.SIGKEY) && b64dec(c.SIGKEY.PUBKEY) == edpub(bytes(c.SIGKEY.ed25519Key.privateKey))
  ensures err == nil ==> sigOver(c.SIGKEY.PUBKEY, canon(r.UIDContent), r.SELFSIGNATURE) && r.USERSIGNATURE == "" && r.ESCROWSIGNATURE == ""
  ensures err == nil ==> wfPriv(c.PUBKEYS[0]) && c.SIGKEY.FUNCTION == "ED25519" && c.SIGKEY.privateKeySet
  ensures err == nil ==> len(c.REPOURIS) == 1 && c.REPOURIS[0] == iddom(userID)
  ensures err == nil && idlp(userID) != "keyserver" ==> b64ok(lastEntry) && len(b64dec(lastEntry)) == 153
