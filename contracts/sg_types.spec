package mute/serviceguard/common/types
package signkeys mute/serviceguard/common/signkeys

# what a signature of a packet covers: call type (four bytes, then four zero bytes) and token
def callToken(p) = sha256(cat(be(4, p.CallType), zeros(4), bytes(p.Token)))
def reissueImage(p) = cat(callToken(p), sha256(bytes(p.BlindToken)), sha256(bytes(p.Params)))

func (ReissuePacket).Image(p) (r)
  prop S01
  fresh r
  ensures bytes(r) == reissueImage(p)

func (ReissuePacket).Hash(p) (r)
  prop S01
  ensures bytes(r) == sha256(reissueImage(p))

func (*ReissuePacket).Sign(p, privkey)
  prop S01
  modifies p.Signature
  ensures privkey == nil ==> bytes(p.Signature) == unit(0)
  ensures privkey != nil ==> bytes(p.Signature) == edsign(bytes(privkey), reissueImage(p))

func (ReissuePacket).Verify(p, pubkey) (err)
  prop S01
  ensures pubkey == nil ==> (err == nil) == (len(p.Signature) == 1)
  ensures pubkey != nil ==> (err == nil) == edverify(bytes(pubkey), reissueImage(p), bytes(p.Signature))

func (*SpendPacket).Image(s) (r)
  prop S01
  fresh r
  ensures bytes(r) == callToken(s)

func (*SpendPacket).Sign(s, privkey)
  prop S01
  modifies s.Signature
  ensures privkey == nil ==> bytes(s.Signature) == unit(0)
  ensures privkey != nil ==> bytes(s.Signature) == edsign(bytes(privkey), callToken(s))

func (*SpendPacket).Verify(s, pubkey) (err)
  prop S01
  ensures pubkey == nil ==> (err == nil) == (len(s.Signature) == 1)
  ensures pubkey != nil ==> (err == nil) == edverify(bytes(pubkey), callToken(s), bytes(s.Signature))

func UnmarshalParams(d) (pubKey, pubParams, privateParams, canReissue, err)
  prop S03
  fresh pubParams
  let p = unasn1("Params", bytes(d))
  let m = unasn1("signkeys.PublicKeyMarshal", bytes(p.PublicKey))
  ensures (err == nil) == (asn1ok("Params", bytes(d)) && asn1ok("signkeys.PublicKeyMarshal", bytes(p.PublicKey)))
  ensures err == nil ==> pubKey != nil && wfPK(pubKey) && pubParams != nil && canReissue == p.CanReissue && bytes(privateParams) == bytes(p.PrivateParams)
  ensures err == nil ==> *pubParams == p.PublicParams
  ensures err == nil ==> hasXY(pubKey.PublicKey) && hasXY(pubParams.PointRs1) && hasXY(pubParams.PointRs2)
  ensures err == nil ==> bigbytes(pubKey.PublicKey.X) == bigbytes(bigof(bytes(m.PublicKeyX))) && bigbytes(pubKey.PublicKey.Y) == bigbytes(bigof(bytes(m.PublicKeyY)))
  ensures err == nil ==> pubKey.Expire == m.Expire && pubKey.Usage == m.Usage && bytes(pubKey.KeyID) == over(bytes(m.KeyID), zeros(32)) && bytes(pubKey.Signer) == over(bytes(m.Signer), zeros(32)) && bytes(pubKey.Signature) == over(bytes(m.Signature), zeros(64))
  ensures err != nil ==> pubKey == nil && pubParams == nil && !canReissue

# what travels between client and service guard carries every field
func (ReissuePacket).Marshal(p) (r, err)
  prop S03
  fresh r
  post d = unasn1("ReissuePacket", bytes(r))
  ensures bytes(r) == asn1(p) && (err == nil) == asn1encok(p)
  ensures err == nil ==> asn1ok("ReissuePacket", bytes(r)) && d.CallType == p.CallType && bytes(d.Token) == bytes(p.Token) && bytes(d.BlindToken) == bytes(p.BlindToken) && bytes(d.Params) == bytes(p.Params) && bytes(d.Signature) == bytes(p.Signature)

func (*ReissuePacket).Unmarshal(p, d) (r, err)
  prop S03
  modifies *p
  ensures (err == nil) == asn1ok("ReissuePacket", bytes(d))
  ensures err == nil ==> r != nil && imp(p != nil, r == p)
  ensures err == nil && p == nil ==> *r == unasn1("ReissuePacket", bytes(d))
  ensures err != nil ==> r == nil

func (ReissuePacketPrivate).Marshal(p) (r, err)
  prop S03
  fresh r
  post d = unasn1("ReissuePacketPrivate", bytes(r))
  ensures err == nil ==> asn1ok("ReissuePacketPrivate", bytes(r)) && bytes(d.PublicKey) == bytes(p.PublicKey) && bytes(d.Factors) == bytes(p.Factors) && bytes(d.Token) == bytes(p.Token) && bytes(d.RequestHash) == bytes(p.RequestHash) && bytes(d.Request) == bytes(p.Request) && d.CanReissue == p.CanReissue

func (SpendPacket).Marshal(p) (r, err)
  prop S03
  fresh r
  post d = unasn1("SpendPacket", bytes(r))
  ensures err == nil ==> asn1ok("SpendPacket", bytes(r)) && d.CallType == p.CallType && bytes(d.Token) == bytes(p.Token) && bytes(d.Signature) == bytes(p.Signature)

package mute/serviceguard/common/walletauth

func CreateToken(pubkey, privkey, counter) (r)
  event mint
  prop S01
  requires pubkey != nil && privkey != nil
  ensures len(r) == 144
  ensures sub(bytes(r), 0, 32) == bytes(pubkey) && sub(bytes(r), 72, 80) == be(8, counter)
  ensures count("now") == 1 && sub(bytes(r), 64, 72) == be(8, evarg("now", 0, "t") / 3600)
  ensures count("read") == 1 && len(evarg("read", 0, "data")) <= 32 && sub(bytes(r), 32, 32 + len(evarg("read", 0, "data"))) == evarg("read", 0, "data")
  ensures sub(bytes(r), 80, 144) == edsign(bytes(privkey), sub(bytes(r), 0, 80))

func (AuthToken).CheckToken(token) (pubkey, ltime, lcounter, err)
  prop S01
  let t = bytes(token)
  ensures (err == nil) == (len(token) == 144 && edverify(sub(t, 0, 32), sub(t, 0, 80), sub(t, 80, 144)))
  ensures err == nil ==> pubkey != nil && bytes(pubkey) == sub(t, 0, 32) && be(8, ltime) == sub(t, 64, 72) && be(8, lcounter) == sub(t, 72, 80)
  ensures err != nil ==> pubkey == nil && ltime == 0 && lcounter == 0

func (AuthToken).Hash(token) (r)
  prop S01
  ensures bytes(r) == sha256(bytes(token))

func IsReplay(err) (n, e)
  prop S01
  requires err != nil
  let t = errstr(err)
  ensures len(t) >= 11 && sub(t, 0, 11) == "ErrReplay: " && uintok(sub(t, 11, len(t))) ==> e == ErrReplay && n == uintval(sub(t, 11, len(t)))
  ensures !(len(t) >= 11 && sub(t, 0, 11) == "ErrReplay: " && uintok(sub(t, 11, len(t)))) ==> e == err && n == 0
