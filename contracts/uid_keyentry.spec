package mute/uid
package cipher mute/cipher
package base64 mute/encode/base64

# the key material cached in a key entry agrees with its published key
def wfPub(ke) = imp(ke.publicKeySet, (ke.FUNCTION == "ECDHE25519" ==> ke.curve25519Key != nil && ke.curve25519Key.publicKey != nil && bytes(ke.curve25519Key.publicKey) == b64dec(ke.PUBKEY)) && (ke.FUNCTION == "ED25519" ==> ke.ed25519Key != nil && bytes(ke.ed25519Key.publicKey) == b64dec(ke.PUBKEY)))
def wfPriv(ke) = imp(ke.privateKeySet, (ke.FUNCTION == "ECDHE25519" ==> ke.curve25519Key != nil && ke.curve25519Key.privateKey != nil) && (ke.FUNCTION == "ED25519" ==> ke.ed25519Key != nil))
def wfKE(ke) = wfPub(ke) && wfPriv(ke)

def validKE(ke) = ke.CIPHERSUITE == "NACL HKDF AES256-CTR SHA512-HMAC ED25519 ECDHE25519" && (ke.FUNCTION == "ED25519" || ke.FUNCTION == "ECDHE25519") && b64ok(ke.HASH) && b64ok(ke.PUBKEY) && len(b64dec(ke.PUBKEY)) == 32 && b64dec(ke.HASH) == sha512(b64dec(ke.PUBKEY))

# key material survives: the private key is the old one
def kept(ke) = imp(old(ke.curve25519Key) != nil, ke.curve25519Key != nil && (ke.curve25519Key.privateKey == nil) == old(ke.curve25519Key.privateKey == nil) && bytes(ke.curve25519Key.privateKey) == old(bytes(ke.curve25519Key.privateKey))) && imp(old(ke.ed25519Key) != nil, ke.ed25519Key != nil && bytes(ke.ed25519Key.privateKey) == old(bytes(ke.ed25519Key.privateKey)) && len(ke.ed25519Key.privateKey) == old(len(ke.ed25519Key.privateKey))) && imp(len(pubOf(ke)) == 32, wfPub(ke))
def pubOf(ke) = b64dec(ke.PUBKEY)

func (*KeyEntry).Verify(ke) (err)
  prop U05
  ensures (err == nil) == validKE(ke)

func KeyEntryEqual(a, b) (r)
  prop U05
  ensures a != nil && b != nil ==> r == (a == b || a.CIPHERSUITE == b.CIPHERSUITE && a.FUNCTION == b.FUNCTION && a.HASH == b.HASH && a.PUBKEY == b.PUBKEY)
  ensures a == nil || b == nil ==> r == (a == nil && b == nil)

func (*KeyEntry).InitDHKey(ke, rand) (err)
  prop U05
  modifies *ke
  requires rand != nil
  ensures err == nil ==> validKE(ke) && ke.FUNCTION == "ECDHE25519"
  ensures err == nil ==> ke.publicKeySet && ke.privateKeySet && wfKE(ke)
  ensures err == nil ==> bytes(ke.curve25519Key.publicKey) == dhpub(bytes(ke.curve25519Key.privateKey))
  ensures err == nil ==> b64dec(ke.PUBKEY) == dhpub(bytes(ke.curve25519Key.privateKey))
  ensures err == nil ==> count("read") == 1 && evarg("read", 0, "r") == rand && evarg("read", 0, "data") == bytes(ke.curve25519Key.privateKey)

func (*KeyEntry).initSigKey(ke, rand) (err)
  prop U05
  modifies *ke
  requires rand != nil
  ensures err == nil ==> validKE(ke) && ke.FUNCTION == "ED25519"
  ensures err == nil ==> ke.publicKeySet && ke.privateKeySet && wfKE(ke)
  ensures err == nil ==> len(ke.ed25519Key.privateKey) == 64 && bytes(ke.ed25519Key.publicKey) == edpub(bytes(ke.ed25519Key.privateKey))
  ensures err == nil ==> count("edgen") == 1 && evarg("edgen", 0, "r") == rand

# the cached public key is hidden: callers see PublicKey32 as a function of PUBKEY; kept(ke) shows that the private key survives
func (*KeyEntry).PublicKey32(ke) (pk)
  prop U05
  hides ke.curve25519Key, ke.ed25519Key, ke.publicKeySet, ke.curve25519Key.publicKey, ke.ed25519Key.publicKey
  requires wfPub(ke)
  maypanic !b64ok(ke.PUBKEY) || len(b64dec(ke.PUBKEY)) != 32 || (ke.FUNCTION != "ECDHE25519" && ke.FUNCTION != "ED25519")
  ensures (ke.FUNCTION == "ECDHE25519" || ke.FUNCTION == "ED25519")
  hidden kept(ke)
  ensures len(b64dec(ke.PUBKEY)) == 32 ==> pk != nil && bytes(pk) == b64dec(ke.PUBKEY)
  hidden len(b64dec(ke.PUBKEY)) == 32 ==> wfPub(ke) && ke.publicKeySet

func (*KeyEntry).PrivateKey32(ke) (pk)
  prop U05
  requires wfPriv(ke)
  maypanic !ke.privateKeySet || ke.FUNCTION != "ECDHE25519"
  ensures pk != nil && pk == ke.curve25519Key.privateKey && ke.privateKeySet && ke.FUNCTION == "ECDHE25519"

func (*KeyEntry).PrivateKey64(ke) (pk)
  event privkey64
  prop U05
  requires wfPriv(ke)
  maypanic !ke.privateKeySet || ke.FUNCTION != "ED25519"
  ensures pk != nil && ke.privateKeySet && ke.FUNCTION == "ED25519"
  ensures len(ke.ed25519Key.privateKey) == 64 ==> bytes(pk) == bytes(ke.ed25519Key.privateKey)

func (*KeyEntry).setPrivateKey(ke, key) (err)
  prop U05
  modifies ke.curve25519Key, ke.ed25519Key, ke.privateKeySet, ke.curve25519Key.privateKey, ke.ed25519Key.privateKey
  ensures (err == nil) == (ke.FUNCTION == "ECDHE25519" && len(key) == 32 || ke.FUNCTION == "ED25519" && len(key) == 64)
  ensures err == nil && ke.FUNCTION == "ECDHE25519" ==> ke.privateKeySet && bytes(ke.curve25519Key.privateKey) == bytes(key)
  ensures err == nil && ke.FUNCTION == "ED25519" ==> ke.privateKeySet && bytes(ke.ed25519Key.privateKey) == bytes(key)
  ensures err != nil ==> ke.privateKeySet == old(ke.privateKeySet)
  ensures err == nil ==> ke.privateKeySet && wfPriv(ke)

func (*KeyEntry).SetPrivateKey(ke, privkey) (err)
  prop U05
  modifies ke.curve25519Key, ke.ed25519Key, ke.privateKeySet, ke.curve25519Key.privateKey, ke.ed25519Key.privateKey
  ensures (err == nil) == (b64ok(privkey) && (ke.FUNCTION == "ECDHE25519" && len(b64dec(privkey)) == 32 || ke.FUNCTION == "ED25519" && len(b64dec(privkey)) == 64))
  ensures err == nil && ke.FUNCTION == "ECDHE25519" ==> ke.privateKeySet && bytes(ke.curve25519Key.privateKey) == b64dec(privkey)
  ensures err == nil ==> ke.privateKeySet && wfPriv(ke)
