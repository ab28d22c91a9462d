package mute/cipher

func SHA1(buffer) (r)
  prop C01
  ensures bytes(r) == sha1(buffer)

func SHA256(buffer) (r)
  prop C01
  ensures bytes(r) == sha256(buffer)

func SHA512(buffer) (r)
  prop C01
  ensures bytes(r) == sha512(buffer)

func HMAC(key, buffer) (r)
  prop C01
  ensures bytes(r) == hmacsha512(key, buffer)

func ECDH(privateKey, peersPublicKey, ownPublicKey) (r, err)
  prop R01
  let own = ite(ownPublicKey != nil, bytes(ownPublicKey), dhpub(privateKey))
  ensures err == nil ==> r != nil && privateKey != nil && peersPublicKey != nil
  ensures err == nil ==> bytes(r) == dh(privateKey, peersPublicKey)
  ensures err == nil && ownPublicKey != nil ==> bytes(ownPublicKey) != bytes(peersPublicKey)
  ensures err == nil && ownPublicKey == nil ==> dhpub(privateKey) != bytes(peersPublicKey)
  ensures privateKey == nil || peersPublicKey == nil ==> err != nil && r == nil
  ensures err != nil ==> r == nil
  ensures privateKey != nil && peersPublicKey != nil && ownPublicKey != nil && bytes(ownPublicKey) != bytes(peersPublicKey) ==> err == nil
  ensures privateKey != nil && peersPublicKey != nil && ownPublicKey == nil && dhpub(privateKey) != bytes(peersPublicKey) ==> err == nil

func Nonce(rand) (b)
  prop C01
  maypanic
  ensures len(b) == 8

func (*Curve25519Key).SetPublicKey(c, key) (err)
  prop C01
  modifies c.publicKey
  ensures (err == nil) == (len(key) == 32)
  ensures err == nil ==> c.publicKey != nil && bytes(c.publicKey) == bytes(key)
  ensures err != nil ==> c.publicKey == old(c.publicKey)

func (*Curve25519Key).SetPrivateKey(c, key) (err)
  prop C01
  modifies c.privateKey
  ensures (err == nil) == (len(key) == 32)
  ensures err == nil ==> c.privateKey != nil && bytes(c.privateKey) == bytes(key)
  ensures err != nil ==> c.privateKey == old(c.privateKey)

func Curve25519Generate(rand) (c, err)
  inline
  prop C01
  requires rand != nil
  ensures (err == nil) == (c != nil)
  ensures err == nil ==> c.publicKey != nil && c.privateKey != nil && bytes(c.publicKey) == dhpub(bytes(c.privateKey))
  ensures count("read") == 1 && evarg("read", 0, "r") == rand
  ensures err == nil ==> evarg("read", 0, "data") == bytes(c.privateKey) && evarg("read", 0, "ok")
  ensures evarg("read", 0, "ok") ==> err == nil

func (*Curve25519Key).PublicKey(c) (r)
  prop C01
  ensures r == c.publicKey

func (*Curve25519Key).PrivateKey(c) (r)
  prop C01
  ensures r == c.privateKey

func Ed25519Generate(rand) (k, err)
  inline
  prop C01
  ensures (err == nil) == (k != nil)
  ensures err == nil ==> len(k.privateKey) == 64 && bytes(k.publicKey) == edpub(bytes(k.privateKey))
  ensures count("edgen") == 1 && evarg("edgen", 0, "r") == rand && evarg("edgen", 0, "ok") == (err == nil)
  ensures err == nil ==> evarg("edgen", 0, "priv") == bytes(k.privateKey)

func (*Ed25519Key).PublicKey(k) (r)
  prop C01
  ensures r != nil && (len(k.publicKey) == 32 ==> bytes(r) == bytes(k.publicKey))

func (*Ed25519Key).PrivateKey(k) (r)
  prop C01
  ensures r != nil && (len(k.privateKey) == 64 ==> bytes(r) == bytes(k.privateKey))

func (*Ed25519Key).SetPublicKey(k, key) (err)
  prop C01
  modifies k.publicKey
  ensures (err == nil) == (len(key) == 32)
  ensures err == nil ==> bytes(k.publicKey) == bytes(key) && len(k.publicKey) == 32
  ensures err != nil ==> bytes(k.publicKey) == old(bytes(k.publicKey))

func (*Ed25519Key).SetPrivateKey(k, key) (err)
  prop C01
  modifies k.privateKey
  ensures (err == nil) == (len(key) == 64)
  ensures err == nil ==> bytes(k.privateKey) == bytes(key) && len(k.privateKey) == 64
  ensures err != nil ==> bytes(k.privateKey) == old(bytes(k.privateKey))

func (*Ed25519Key).Sign(k, message) (sig)
  prop C01
  maypanic len(k.privateKey) != 64
  ensures bytes(sig) == edsign(bytes(k.privateKey), message) && len(sig) == 64

func (*Ed25519Key).Verify(k, message, sig) (r)
  prop C01
  maypanic len(k.publicKey) != 32
  ensures r == edok(bytes(k.publicKey), message, sig)

# the key pair of a NaCl box
func NaClBoxGenerate(rand) (k, err)
  prop C01
  requires rand != nil
  ensures (err == nil) == (k != nil)
  ensures count("boxgen") == 1 && evarg("boxgen", 0, "r") == rand && evarg("boxgen", 0, "ok") == (err == nil)
  ensures err == nil ==> k.publicKey != nil && k.privateKey != nil && bytes(k.privateKey) == evarg("boxgen", 0, "priv") && bytes(k.publicKey) == dhpub(bytes(k.privateKey))

func (*NaClBoxKey).PublicKey(k) (r)
  prop C01
  requires k.publicKey != nil
  ensures bytes(r) == bytes(k.publicKey)

func (*NaClBoxKey).PrivateKey(k) (r)
  prop C01
  requires k.privateKey != nil
  ensures bytes(r) == bytes(k.privateKey)

func (*NaClBoxKey).SetPublicKey(k, key) (err)
  prop C01
  modifies k.publicKey
  ensures (err == nil) == (len(key) == 32)
  ensures err == nil ==> k.publicKey != nil && bytes(k.publicKey) == bytes(key)
  ensures err != nil ==> k.publicKey == old(k.publicKey)

func (*NaClBoxKey).SetPrivateKey(k, key) (err)
  prop C01
  modifies k.privateKey
  ensures (err == nil) == (len(key) == 32)
  ensures err == nil ==> k.privateKey != nil && bytes(k.privateKey) == bytes(key)
  ensures err != nil ==> k.privateKey == old(k.privateKey)

func RandPass(rand) (r)
  prop C01
  requires rand != nil
  maypanic
  ensures count("read") == 1 && evarg("read", 0, "r") == rand && evarg("read", 0, "ok") && len(evarg("read", 0, "data")) == 32 && r == b64enc(evarg("read", 0, "data"))

logic ckdf1(Bytes) Bytes
logic ckdf2(Bytes) Bytes
