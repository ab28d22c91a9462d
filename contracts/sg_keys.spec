package mute/serviceguard/common/signkeys
package eccutil github.com/ronperry/cryptoedge/eccutil
package signkeys mute/serviceguard/common/signkeys

# what identifies a public key
def pkImage(pk) = cat(bigbytes(pk.PublicKey.X), bigbytes(pk.PublicKey.Y), be(8, pk.Expire), ":", pk.Usage, ":", bytes(pk.Signer))
def pkID(pk) = sha256(pkImage(pk))
def wfPK(pk) = pk.PublicKey.X != nil && pk.PublicKey.Y != nil
# b copied over old
def over(b, o) = ite(len(b) >= len(o), sub(b, 0, len(o)), cat(b, sub(o, len(b), len(o))))

func (*PublicKey).CalcKeyID(pk) (r)
  prop S02
  requires wfPK(pk)
  ensures bytes(r) == pkID(pk)

func (PublicKey).Verify(pk, SignaturePublicKey) (r)
  prop S02
  requires wfPK(pk) && SignaturePublicKey != nil
  ensures r == (bytes(pk.KeyID) == pkID(pk) && edverify(bytes(SignaturePublicKey), bytes(pk.KeyID), bytes(pk.Signature)))

# the encoding carries every field
func (PublicKey).Marshal(pk) (r, err)
  prop S02
  requires wfPK(pk)
  fresh r
  ensures err == nil ==> asn1ok("PublicKeyMarshal", bytes(r))
  ensures err == nil ==> unasn1("PublicKeyMarshal", bytes(r)).Expire == pk.Expire && unasn1("PublicKeyMarshal", bytes(r)).Usage == pk.Usage
  ensures err == nil ==> bytes(unasn1("PublicKeyMarshal", bytes(r)).KeyID) == bytes(pk.KeyID) && bytes(unasn1("PublicKeyMarshal", bytes(r)).Signer) == bytes(pk.Signer) && bytes(unasn1("PublicKeyMarshal", bytes(r)).Signature) == bytes(pk.Signature)
  ensures err == nil ==> bytes(unasn1("PublicKeyMarshal", bytes(r)).PublicKeyX) == bigbytes(pk.PublicKey.X) && bytes(unasn1("PublicKeyMarshal", bytes(r)).PublicKeyY) == bigbytes(pk.PublicKey.Y)

func (*PublicKey).Unmarshal(pk, d) (r, err)
  prop S02
  modifies *pk
  let m = unasn1("PublicKeyMarshal", bytes(d))
  ensures (err == nil) == asn1ok("PublicKeyMarshal", bytes(d))
  ensures err != nil ==> r == nil
  ensures err == nil ==> r != nil && wfPK(r) && imp(pk != nil, r == pk)
  ensures err == nil ==> bigbytes(r.PublicKey.X) == bigbytes(bigof(bytes(m.PublicKeyX))) && bigbytes(r.PublicKey.Y) == bigbytes(bigof(bytes(m.PublicKeyY)))
  ensures err == nil ==> r.Expire == m.Expire && r.Usage == m.Usage
  ensures err == nil ==> bytes(r.KeyID) == over(bytes(m.KeyID), ite(pk == nil, zeros(32), old(bytes(pk.KeyID))))
  ensures err == nil ==> bytes(r.Signer) == over(bytes(m.Signer), ite(pk == nil, zeros(32), old(bytes(pk.Signer))))
  ensures err == nil ==> bytes(r.Signature) == over(bytes(m.Signature), ite(pk == nil, zeros(64), old(bytes(pk.Signature))))

extern (eccutil.Curve).GenerateKey(curve) (priv, pub, err)
  event eckey
  why third-party library: a key pair on the curve
  ensures err == nil ==> pub != nil && pub.X != nil && pub.Y != nil

func (KeyGenerator).GenKey(kg) (r, err)
  prop S02
  fresh r
  requires kg.Curve != nil
  requires kg.PublicKey != nil
  ensures kg.PrivateKey == nil ==> err != nil
  ensures err == nil ==> r != nil && wfPK(r.PublicKey)
  ensures err == nil ==> bytes(r.PublicKey.KeyID) == pkID(r.PublicKey) && bytes(r.PublicKey.Signature) == edsign(bytes(kg.PrivateKey), bytes(r.PublicKey.KeyID))
  ensures err == nil ==> r.PublicKey.Usage == kg.Usage && bytes(r.PublicKey.Signer) == bytes(kg.PublicKey)
  ensures err == nil ==> r.PublicKey.PublicKey.X == evlast("eckey", 0, "pub").X && r.PublicKey.PublicKey.Y == evlast("eckey", 0, "pub").Y && bytes(r.PrivateKey) == bytes(evlast("eckey", 0, "priv"))
