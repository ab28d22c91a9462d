package mute/serviceguard/client/packetproto
package eccutil github.com/ronperry/cryptoedge/eccutil
package jjm github.com/ronperry/cryptoedge/jjm
package token mute/serviceguard/common/token
package types mute/serviceguard/common/types
package signkeys mute/serviceguard/common/signkeys
package keypool mute/serviceguard/common/keypool
package elliptic crypto/elliptic
package genericblinding github.com/ronperry/cryptoedge/genericblinding

inlineext jjm.NewClearMessage jjm.NewBlindingFactors jjm.NewBlindSignature jjm.NewGenericBlindingClient jjm.NewBlindingParamClient

extern (jjm.BlindingFactors).Unmarshal(f, b) (r, err)
  why third-party library: the decoded blinding factors
  event unfactors

extern (jjm.BlindSignature).Unmarshal(f, b) (r, err)
  why third-party library: the decoded blind signature
  event unblindsig
  ensures (r != nil) == (err == nil)

extern (*jjm.GenericBlindingClient).Unblind(c, factors, msg, sig) (r, m, err)
  why third-party library: the unblinded signature, a jjm.ClearSignature with all its parts; it needs a decoded signature
  event unblind
  requires sig != nil
  ensures err == nil ==> isbox(r, "github.com/ronperry/cryptoedge/jjm.ClearSignature") && sigParts(unbox(r, "jjm.ClearSignature"))
  ensures err == nil ==> onCurve(unbox(r, "jjm.ClearSignature").PointR)

extern (*jjm.GenericBlindingClient).Verify(c, sig, msg) (ok, err)
  why third-party library: whether sig signs msg under the key of c; it panics on a point off the curve
  event jjmverify
  requires isbox(sig, "github.com/ronperry/cryptoedge/jjm.ClearSignature") && sigParts(unbox(sig, "jjm.ClearSignature")) && onCurve(unbox(sig, "jjm.ClearSignature").PointR)

extern (*jjm.GenericBlindingClient).Blind(c, params, msg) (factors, blind, err)
  why third-party library: blinding a message; it panics on a point off the curve
  event blind
  requires isbox(params, "github.com/ronperry/cryptoedge/jjm.BlindingParamClient") && parPoints(unbox(params, "jjm.BlindingParamClient"))
  ensures err == nil ==> factors != nil && blind != nil

iface (elliptic.Curve).IsOnCurve(c, x, y) (r)
  why standard library: whether the point is on the curve
  requires x != nil && y != nil
  ensures r == oncurve(bigval(x), bigval(y))

def onCurve(p) = oncurve(bigval(p.X), bigval(p.Y))
def hasXY(p) = p.X != nil && p.Y != nil
def parPoints(p) = onCurve(p.PubKey) && onCurve(p.PointRs1) && onCurve(p.PointRs2)
def sigParts(s) = s.PointR.X != nil && s.PointR.Y != nil && s.ScalarR != nil && s.ScalarS != nil
def decPK(b) = unasn1("signkeys.PublicKeyMarshal", b)
def decToken(b) = unasn1("token.Token", b)
# c works with the public key of the marshalled key b
def cliKey(c, b) = bigbytes(c.BlindingClient.PubKey.X) == bigbytes(bigof(bytes(decPK(b).PublicKeyX))) && bigbytes(c.BlindingClient.PubKey.Y) == bigbytes(bigof(bytes(decPK(b).PublicKeyY)))

iface (genericblinding.BlindingFactors).Marshal(x) (r, err)
  why third-party library: the encoding of the blind message or the factors
  event enc

iface (genericblinding.BlindMessage).Marshal(x) (r, err)
  why third-party library: the encoding of the blind message or the factors
  event enc

func (Client).NewToken(c, issuerPubKey, pubParams, owner) (blindMessage, blindFactors, newToken, err)
  prop S03
  inline
  requires issuerPubKey != nil && pubParams != nil && c.Curve != nil && c.Curve.Curve != nil
  requires hasXY(issuerPubKey.PublicKey) && hasXY(pubParams.PointRs1) && hasXY(pubParams.PointRs2)
  post par = unbox(evarg("blind", 0, "params"))
  ensures err == nil ==> newToken != nil && bytes(newToken.KeyID) == bytes(issuerPubKey.KeyID) && newToken.Flag == (owner != nil) && len(newToken.Nonce) == 16 && len(newToken.Owner) == 32
  ensures err == nil && owner != nil ==> bytes(newToken.Owner) == bytes(owner)
  ensures err == nil ==> count("blind") == 1 && blindMessage == evarg("blind", 0, "blind") && blindFactors == evarg("blind", 0, "factors") && blindMessage != nil && blindFactors != nil
  ensures err == nil ==> bytes(unbox(evarg("blind", 0, "msg")).Message) == tokenHash(newToken) && evarg("blind", 0, "c").BlindingClient.PubKey == &issuerPubKey.PublicKey
  ensures err == nil ==> par.PubKey == issuerPubKey.PublicKey && par.PointRs1 == pubParams.PointRs1 && par.PointRs2 == pubParams.PointRs2 && par.ScalarLs1 == pubParams.ScalarLs1 && par.ScalarLs2 == pubParams.ScalarLs2

# the k-th encoding is that of what Blind returned
def encBlind(k) = evarg("enc", k, "x") == evarg("blind", 0, "blind")
def encFactors(k) = evarg("enc", k, "x") == evarg("blind", 0, "factors")

func (Client).Reissue(c, oldTokenEnc, oldOwner, newOwner, params) (toServer, storeLocal, err)
  prop S03
  event makeReissue
  callbacks readonly
  modifies elems(c.Keypool.keys)
  requires c.Keypool != nil && wfPool(c.Keypool) && c.Curve != nil && c.Curve.Curve != nil
  let tok = decToken(bytes(oldTokenEnc))
  let par = unasn1("types.Params", bytes(params))
  let pkm = decPK(bytes(par.PublicKey))
  let oldID = bytes(tok.KeyID)
  post p = unasn1("types.ReissuePacket", bytes(toServer))
  post next = decToken(bytes(storeLocal.Token))
  post bmsg = unbox(evarg("blind", 0, "msg"))
  post bcli = evarg("blind", 0, "c")
  # who may reissue
  ensures tok.Flag && oldOwner == nil ==> err != nil
  ensures err == nil ==> asn1ok("token.Token", bytes(oldTokenEnc)) && asn1ok("types.Params", bytes(params)) && has(c.Keypool.keys, oldID)
  ensures err == nil ==> pkm.Usage == c.Keypool.keys[oldID].Usage && over(bytes(pkm.Signer), zeros(32)) == bytes(c.Keypool.keys[oldID].Signer)
  ensures err == nil ==> has(c.Keypool.VerifyPubKeys, c.Keypool.keys[oldID].Signer)
  # the request
  ensures err == nil ==> p.CallType == 0 && bytes(p.Params) == bytes(params)
  ensures err == nil ==> bytes(decToken(bytes(p.Token)).KeyID) == bytes(tok.KeyID) && decToken(bytes(p.Token)).Flag == tok.Flag && bytes(decToken(bytes(p.Token)).Nonce) == bytes(tok.Nonce) && bytes(decToken(bytes(p.Token)).Owner) == bytes(tok.Owner)
  ensures err == nil ==> bytes(decToken(bytes(p.Token)).PointRX) == bytes(tok.PointRX) && bytes(decToken(bytes(p.Token)).PointRY) == bytes(tok.PointRY) && bytes(decToken(bytes(p.Token)).ScalarR) == bytes(tok.ScalarR) && bytes(decToken(bytes(p.Token)).ScalarS) == bytes(tok.ScalarS)
  ensures err == nil ==> encBlind(0) && bytes(p.BlindToken) == bytes(evarg("enc", 0, "r")) || encBlind(1) && bytes(p.BlindToken) == bytes(evarg("enc", 1, "r"))
  ensures err == nil && oldOwner == nil ==> bytes(p.Signature) == unit(0)
  ensures err == nil && oldOwner != nil ==> bytes(p.Signature) == edsign(bytes(oldOwner), cat(sha256(cat(be(4, 0), zeros(4), bytes(p.Token))), sha256(bytes(p.BlindToken)), sha256(bytes(params))))
  # the new token, blinded under the key of the parameters
  ensures err == nil ==> next.Flag == (newOwner != nil) && bytes(next.KeyID) == over(bytes(pkm.KeyID), zeros(32)) && len(next.Nonce) == 16 && len(next.Owner) == 32
  ensures err == nil && newOwner != nil ==> bytes(next.Owner) == bytes(newOwner)
  ensures err == nil ==> bytes(bmsg.Message) == tokenHash(next) && cliKey(bcli, bytes(par.PublicKey))
  # what stays local
  ensures err == nil ==> storeLocal != nil && bytes(storeLocal.Request) == bytes(toServer) && storeLocal.CanReissue == par.CanReissue
  ensures err == nil ==> bytes(storeLocal.RequestHash) == sha256(cat(sha256(cat(be(4, 0), zeros(4), bytes(p.Token))), sha256(bytes(p.BlindToken)), sha256(bytes(params))))
  ensures err == nil ==> encFactors(0) && bytes(storeLocal.Factors) == bytes(evarg("enc", 0, "r")) || encFactors(1) && bytes(storeLocal.Factors) == bytes(evarg("enc", 1, "r"))
  ensures err == nil ==> cliKey(bcli, bytes(storeLocal.PublicKey))
  ensures wfPool(c.Keypool)

func (Client).Spend(c, token, owner) (r, err)
  prop S03
  post p = unasn1("types.SpendPacket", bytes(r))
  ensures err == nil ==> p.CallType == 1 && bytes(p.Token) == bytes(token)
  ensures err == nil && owner == nil ==> bytes(p.Signature) == unit(0)
  ensures err == nil && owner != nil ==> bytes(p.Signature) == edsign(bytes(owner), sha256(cat(be(4, 1), zeros(4), bytes(token))))

func (Client).Unblind(c, storeLocal, signature) (r, err)
  prop S03
  event unblindTok
  requires storeLocal != nil
  let tok = decToken(bytes(storeLocal.Token))
  post out = decToken(bytes(r))
  post sig = unbox(evarg("unblind", 0, "r"), "jjm.ClearSignature")
  ensures err == nil ==> count("jjmverify") == 1 && evarg("jjmverify", 0, "ok") && evarg("jjmverify", 0, "err") == nil
  ensures err == nil ==> bytes(unbox(evarg("jjmverify", 0, "msg")).Message) == tokenHash(tok) && cliKey(evarg("jjmverify", 0, "c"), bytes(storeLocal.PublicKey))
  ensures err == nil ==> count("unblind") == 1 && evarg("jjmverify", 0, "sig") == evarg("unblind", 0, "r")
  ensures err == nil ==> bytes(unbox(evarg("unblind", 0, "msg")).Message) == tokenHash(tok) && cliKey(evarg("unblind", 0, "c"), bytes(storeLocal.PublicKey))
  ensures err == nil ==> bytes(evarg("unblindsig", 0, "b")) == bytes(signature) && bytes(evarg("unfactors", 0, "b")) == bytes(storeLocal.Factors)
  ensures err == nil ==> bytes(out.KeyID) == bytes(tok.KeyID) && out.Flag == tok.Flag && bytes(out.Nonce) == bytes(tok.Nonce) && bytes(out.Owner) == bytes(tok.Owner)
  ensures err == nil ==> bytes(out.PointRX) == bigbytes(sig.PointR.X) && bytes(out.PointRY) == bigbytes(sig.PointR.Y) && bytes(out.ScalarR) == bigbytes(sig.ScalarR) && bytes(out.ScalarS) == bigbytes(sig.ScalarS)
