package mute/msg
package uid mute/uid
package cipher mute/cipher

def outerType(t) = t == 1 || t == 2 || t == 4 || t == 8 || t == 16
# the bytes of an outer header
def outerEnc(t, plen, cnt) = cat(unit(t), be(2, plen), be(4, cnt))

func newOuterHeader(ohType, count, inner) (oh)
  inline
  prop T01
  ensures oh != nil && oh.Type == ohType && oh.PacketCount == count && oh.PLen == len(inner) % 65536 && bytes(oh.inner) == bytes(inner)

func (*outerHeader).write(oh, w, withInner) (err)
  inline
  prop T01 D01
  requires w != nil
  ensures err == nil ==> count("write") == ite(withInner, 4, 3)
  ensures err == nil ==> evarg("write", 0, "ok") && evarg("write", 1, "ok") && evarg("write", 2, "ok") && (!withInner || evarg("write", 3, "ok"))
  ensures err == nil ==> cat(evarg("write", 0, "data"), evarg("write", 1, "data"), evarg("write", 2, "data")) == outerEnc(oh.Type, oh.PLen, oh.PacketCount)
  ensures err == nil && withInner ==> evarg("write", 3, "data") == bytes(oh.inner)

func readOuterHeader(r) (oh, err)
  inline
  prop T01 D01
  requires r != nil
  ensures (err == nil) == (oh != nil)
  ensures err == nil ==> count("read") == 4 && evarg("read", 0, "ok") && evarg("read", 1, "ok") && evarg("read", 2, "ok") && evarg("read", 3, "ok")
  ensures err == nil ==> outerType(oh.Type) && len(oh.inner) == oh.PLen
  ensures err == nil ==> cat(evarg("read", 0, "data"), evarg("read", 1, "data"), evarg("read", 2, "data")) == outerEnc(oh.Type, oh.PLen, oh.PacketCount) && evarg("read", 3, "data") == bytes(oh.inner)

def innerType(t) = t == 1 || t == 2 || t == 6 || t == 8

func newInnerHeader(ihType, more, content) (ih)
  inline
  prop T01
  ensures ih != nil && ih.Type == ihType && ih.PLen == len(content) % 65536 && ih.More == ite(more, 1, 0) && ih.Skip == 0 && bytes(ih.content) == bytes(content)

func (*innerHeader).write(ih, w) (err)
  inline
  prop T01
  requires w != nil
  ensures err == nil ==> count("write") == 5
  ensures err == nil ==> evarg("write", 0, "ok") && evarg("write", 1, "ok") && evarg("write", 2, "ok") && evarg("write", 3, "ok") && evarg("write", 4, "ok")
  ensures err == nil ==> cat(evarg("write", 0, "data"), evarg("write", 1, "data"), evarg("write", 2, "data"), evarg("write", 3, "data")) == cat(unit(ih.Type), be(2, ih.PLen), unit(ih.More), unit(ih.Skip)) && evarg("write", 4, "data") == bytes(ih.content)

func readInnerHeader(r) (ih, err)
  inline
  prop T01 D01
  requires r != nil
  ensures (err == nil) == (ih != nil)
  ensures err == nil ==> count("read") == 5 && evarg("read", 0, "ok") && evarg("read", 1, "ok") && evarg("read", 2, "ok") && evarg("read", 3, "ok") && evarg("read", 4, "ok")
  ensures err == nil ==> innerType(ih.Type) && len(ih.content) == ih.PLen
  ensures err == nil ==> cat(evarg("read", 0, "data"), evarg("read", 1, "data"), evarg("read", 2, "data"), evarg("read", 3, "data")) == cat(unit(ih.Type), be(2, ih.PLen), unit(ih.More), unit(ih.Skip)) && evarg("read", 4, "data") == bytes(ih.content)

def suite() = "CURVE25519 XSALSA20 POLY1305"

func newPreHeader(senderHeaderPub) (ph)
  inline
  prop T01
  ensures ph != nil && ph.Version == 1 && ph.LengthCiphersuite == 28 && ph.Ciphersuite == suite() && ph.LengthSenderHeaderPub == len(senderHeaderPub) % 65536 && bytes(ph.SenderHeaderPub) == bytes(senderHeaderPub)

func (*preHeader).write(ph, w) (err)
  inline
  prop T01
  requires w != nil
  ensures err == nil ==> count("write") == 5
  ensures err == nil ==> evarg("write", 0, "ok") && evarg("write", 1, "ok") && evarg("write", 2, "ok") && evarg("write", 3, "ok") && evarg("write", 4, "ok")
  ensures err == nil ==> evarg("write", 0, "data") == be(2, ph.Version) && evarg("write", 1, "data") == be(2, ph.LengthCiphersuite) && evarg("write", 2, "data") == ph.Ciphersuite && evarg("write", 3, "data") == be(2, ph.LengthSenderHeaderPub) && evarg("write", 4, "data") == bytes(ph.SenderHeaderPub)

func readPreHeader(r) (ph, err)
  inline
  prop T01 D01
  requires r != nil
  ensures (err == nil) == (ph != nil)
  ensures err == nil ==> count("read") == 5 && evarg("read", 0, "ok") && evarg("read", 1, "ok") && evarg("read", 2, "ok") && evarg("read", 3, "ok") && evarg("read", 4, "ok")
  ensures err == nil ==> ph.Version == 1 && ph.LengthCiphersuite == 28 && ph.Ciphersuite == suite() && len(ph.SenderHeaderPub) == ph.LengthSenderHeaderPub
  ensures err == nil ==> evarg("read", 0, "data") == be(2, 1) && evarg("read", 1, "data") == be(2, 28) && evarg("read", 2, "data") == suite() && evarg("read", 3, "data") == be(2, ph.LengthSenderHeaderPub) && evarg("read", 4, "data") == bytes(ph.SenderHeaderPub)

func ReadFirstOuterHeader(r) (version, preHeader, err)
  event firsthdr
  prop T01 D01
  requires r != nil
  ensures err == nil ==> count("read") == 4 && evarg("read", 0, "ok") && evarg("read", 1, "ok") && evarg("read", 2, "ok") && evarg("read", 3, "ok")
  ensures err == nil ==> cat(evarg("read", 0, "data"), evarg("read", 1, "data"), evarg("read", 2, "data")) == outerEnc(1, len(preHeader), 0) && evarg("read", 3, "data") == bytes(preHeader)
  ensures err == nil ==> len(preHeader) >= 2 && be(2, version) == sub(bytes(preHeader), 0, 2)

func (*header).verify(h) (err)
  prop D01 U05
  ensures err == nil ==> validKE(h.SenderSessionPub) && h.SenderSessionPub.FUNCTION == "ECDHE25519"
  ensures err == nil ==> validKE(h.SenderIdentityPub) && h.SenderIdentityPub.FUNCTION == "ECDHE25519"
  ensures err == nil && h.NextSenderSessionPub != nil ==> validKE(h.NextSenderSessionPub) && h.NextSenderSessionPub.FUNCTION == "ECDHE25519"
  ensures err == nil && h.NextRecipientSessionPubSeen != nil ==> validKE(h.NextRecipientSessionPubSeen) && h.NextRecipientSessionPubSeen.FUNCTION == "ECDHE25519"

func (*header).verifySenderUID(h, uidMsg) (err)
  prop D01
  requires uidMsg != nil
  let c = uidMsg.UIDContent
  ensures (err == nil) == (c.IDENTITY == h.SenderIdentity && len(c.PUBKEYS) > 0 && keVal(c.PUBKEYS[0], h.SenderIdentityPub))
def keVal(a, b) = a.CIPHERSUITE == b.CIPHERSUITE && a.FUNCTION == b.FUNCTION && a.HASH == b.HASH && a.PUBKEY == b.PUBKEY

func (*headerPacket).write(hp, w) (err)
  inline
  prop T01
  requires w != nil
  ensures err == nil ==> count("write") == 3
  ensures err == nil ==> evarg("write", 0, "ok") && evarg("write", 1, "ok") && evarg("write", 2, "ok")
  ensures err == nil ==> evarg("write", 0, "data") == bytes(hp.Nonce) && evarg("write", 1, "data") == be(2, hp.LengthEncryptedHeader) && evarg("write", 2, "data") == bytes(hp.EncryptedHeader)

func newHeaderPacket(h, recipientIdentityPub, senderHeaderPriv, rand) (hp, err)
  prop P01 D01
  requires h != nil && recipientIdentityPub != nil && senderHeaderPriv != nil && rand != nil
  ensures (err == nil) == (hp != nil)
  ensures err == nil ==> hp.LengthEncryptedHeader == 7168 && len(hp.EncryptedHeader) % 65536 == 7168
  ensures err == nil ==> bytes(hp.EncryptedHeader) == boxseal(dh(bytes(senderHeaderPriv), bytes(recipientIdentityPub)), bytes(hp.Nonce), json(h))
  ensures err == nil ==> count("read") == 1 && evarg("read", 0, "r") == rand && evarg("read", 0, "data") == bytes(hp.Nonce)

func newHeader(sender, recipient, recipientTempHash, senderSessionPub, nextSenderSessionPub, nextRecipientSessionPubSeen, nymAddress, senderSessionCount, senderMessageCount, senderLastKeychainHash, rand, statusCode) (h, err)
  prop P01 D01
  requires sender != nil && recipient != nil && senderSessionPub != nil && len(sender.UIDContent.PUBKEYS) > 0 && len(recipient.UIDContent.PUBKEYS) > 0
  requires cipher.RandReader != nil
  ensures (err == nil) == (h != nil)
  # the encoded lengths of the variable fields and of the padding add up to a constant
  ensures err == nil ==> len(h.Padding) + len(h.SenderIdentity) + len(h.NymAddress) + len(h.SenderUID) + ndig(h.MaxDelay) + ndig(h.SenderSessionCount) + ndig(h.SenderMessageCount) + ite(h.NextSenderSessionPub == nil, 4, 247) + ite(h.NextRecipientSessionPubSeen == nil, 4, 247) == 1316 + 254 + 1568 + 2004 + 60 + 494
  ensures err == nil ==> len(h.SenderLastKeychainHash) == 204 && len(h.SenderIdentity) <= 254 && len(h.NymAddress) <= 1568 && len(h.SenderUID) <= 2004
  ensures err == nil ==> h.Ciphersuite == "NACL HKDF AES256-CTR SHA512-HMAC ED25519 ECDHE25519" && h.RecipientPubHash == recipient.UIDContent.PUBKEYS[0].HASH && h.SenderIdentityPubHash == sender.UIDContent.PUBKEYS[0].HASH
  ensures err == nil ==> h.RecipientTempHash == recipientTempHash && h.SenderIdentity == sender.UIDContent.IDENTITY && keVal(h.SenderSessionPub, senderSessionPub) && keVal(h.SenderIdentityPub, sender.UIDContent.PUBKEYS[0])
  ensures err == nil ==> h.NextSenderSessionPub == nextSenderSessionPub && h.NextRecipientSessionPubSeen == nextRecipientSessionPubSeen && h.NymAddress == nymAddress
  ensures err == nil ==> h.SenderSessionCount == senderSessionCount && h.SenderMessageCount == senderMessageCount && h.MaxDelay == 0 && h.Status == statusCode
  ensures err == nil ==> h.SenderUID == canon(sender) && h.SenderLastKeychainHash == senderLastKeychainHash
