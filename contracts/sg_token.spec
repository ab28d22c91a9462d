package mute/serviceguard/common/token
package eccutil github.com/ronperry/cryptoedge/eccutil
package jjm github.com/ronperry/cryptoedge/jjm

# the parts of a token have fixed lengths
def tokSizes(t) = len(t.KeyID) == 32 && len(t.Nonce) == 16 && len(t.Owner) == 32
def tokImage(k, f, n, o) = cat(k, unit(ite(f, 1, 0)), n, o)
def tokenHash(t) = sha256(tokImage(bytes(t.KeyID), t.Flag, bytes(t.Nonce), bytes(t.Owner)))
# so what is hashed determines them
lemma tokenImage [S03 S04] (k Bytes32, f Bool, n Bytes16, o Bytes32) sub(tokImage(k, f, n, o), 0, 32) == k && tokImage(k, f, n, o)[32] == ite(f, 1, 0) && sub(tokImage(k, f, n, o), 33, 49) == n && sub(tokImage(k, f, n, o), 49, 81) == o

func New(KeyID, Owner) (t)
  prop S03
  fresh t
  requires KeyID != nil
  ensures t != nil ==> bytes(t.KeyID) == bytes(KeyID) && t.Flag == (Owner != nil) && len(t.Nonce) == 16 && len(t.Owner) == 32
  ensures t != nil && Owner != nil ==> bytes(t.Owner) == bytes(Owner)
  ensures t != nil ==> evlast("read", 0, "r") == Rand && bytes(t.Nonce) == evlast("read", 0, "data")
  ensures t != nil && Owner == nil ==> count("read") == 2 && evlast("read", 1, "r") == Rand && bytes(t.Owner) == evlast("read", 1, "data")

func (Token).Hash(t) (r)
  prop S03
  fresh r
  ensures bytes(r) == tokenHash(t)

func (Token).Properties(t) (keyid, owner)
  prop S03
  fresh keyid owner
  ensures keyid != nil && bytes(keyid) == over(bytes(t.KeyID), zeros(32))
  ensures (owner != nil) == t.Flag
  ensures t.Flag ==> bytes(owner) == over(bytes(t.Owner), zeros(32))

func (Token).HasOwner(t) (r)
  prop S03
  ensures r == t.Flag

func (Token).Marshal(t) (r, err)
  prop S03
  fresh r
  ensures bytes(r) == asn1(t) && (err == nil) == asn1encok(t)
  post d = unasn1("Token", bytes(r))
  ensures err == nil ==> asn1ok("Token", bytes(r))
  ensures err == nil ==> bytes(d.KeyID) == bytes(t.KeyID) && d.Flag == t.Flag && bytes(d.Nonce) == bytes(t.Nonce) && bytes(d.Owner) == bytes(t.Owner)
  ensures err == nil ==> bytes(d.PointRX) == bytes(t.PointRX) && bytes(d.PointRY) == bytes(t.PointRY) && bytes(d.ScalarR) == bytes(t.ScalarR) && bytes(d.ScalarS) == bytes(t.ScalarS)

func Unmarshal(d) (r, err)
  prop S03
  fresh r
  let u = unasn1("Token", bytes(d))
  ensures (err == nil) == (asn1ok("Token", bytes(d)) && tokSizes(u)) && (r != nil) == (err == nil)
  ensures err == nil ==> *r == u

func (*Token).AddSignature(t, signature)
  prop S03
  modifies t.PointRX, t.PointRY, t.ScalarR, t.ScalarS
  requires signature != nil && signature.PointR.X != nil && signature.PointR.Y != nil && signature.ScalarR != nil && signature.ScalarS != nil
  ensures bytes(t.PointRX) == bigbytes(signature.PointR.X) && bytes(t.PointRY) == bigbytes(signature.PointR.Y)
  ensures bytes(t.ScalarR) == bigbytes(signature.ScalarR) && bytes(t.ScalarS) == bigbytes(signature.ScalarS)

inlineext eccutil.NewPoint

func (*Token).GetSignature(t) (r)
  prop S03
  fresh r
  ensures r != nil && r.PointR.X != nil && r.PointR.Y != nil && r.ScalarR != nil && r.ScalarS != nil
  ensures bigbytes(r.PointR.X) == bigbytes(bigof(bytes(t.PointRX))) && bigbytes(r.PointR.Y) == bigbytes(bigof(bytes(t.PointRY)))
  ensures bigbytes(r.ScalarR) == bigbytes(bigof(bytes(t.ScalarR))) && bigbytes(r.ScalarS) == bigbytes(bigof(bytes(t.ScalarS)))
