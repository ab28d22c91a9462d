package mute/msg
package session mute/msg/session
package uid mute/uid
package cipher mute/cipher

def preHdrBytes(pub) = cat(be(2, 1), be(2, 28), suite(), be(2, 32), pub)

func Encrypt(args) (nymAddress, err)
  event msgencrypt
  prop D01 P01
  maypanic
  requires args != nil && args.Reader != nil && args.Writer != nil && args.Rand != nil && args.KeyStore != nil && args.NumOfKeys < 1099511627776
  requires cipher.RandReader != nil
  requires identOK(args.From) && args.To != nil && len(args.To.UIDContent.PUBKEYS) > 0 && eccVal(args.To.UIDContent.PUBKEYS[0]) && wfKE(args.To.UIDContent.PUBKEYS[0])
  modifies any
  # what has been written when the message key is needed: pre-header and sealed header
  cut NumMessageKeys: ss != nil && okState(ss)
  cut NumMessageKeys: sub(pending(wc), 0, 73) == cat(outerEnc(1, 66, 0), preHdrBytes(bytes(senderHeaderKey.publicKey)))
  cut NumMessageKeys: pending(wc) == cat(outerEnc(1, 66, 0), preHdrBytes(bytes(senderHeaderKey.publicKey)), outerEnc(2, 7194, 1), bytes(hp.Nonce), be(2, 7168), bytes(hp.EncryptedHeader)) && len(bytes(hp.EncryptedHeader)) % 65536 == 7168
  cut NumMessageKeys: bytes(hp.EncryptedHeader) == boxseal(dh(bytes(senderHeaderKey.privateKey), b64dec(args.To.UIDContent.PUBKEYS[0].PUBKEY)), bytes(hp.Nonce), json(h))
  cut NumMessageKeys: sessionKey == b64enc(sha512(cat(args.From.UIDContent.PUBKEYS[0].HASH, args.To.UIDContent.PUBKEYS[0].HASH, ss.SenderSessionPub.HASH, ss.RecipientTemp.HASH)))
  cut GetMessageKey: true
  cut NumMessageKeys: keep head = pending(wc)
  post w = b64dec(evlast("write", 0, "data"))
  post mk = evlast("GetMessageKey", 0, "key")
  post ckey = hkdfsha512(bytes(mk), "", "", 0, 32)
  post hkey = hkdfsha512(bytes(mk), "", "", 32, 32)
  post content = ite(args.StatusCode == 0, evlast("ReadAll", 0, "data"), "")
  post n = len(content)
  post signed = args.PrivateSigKey != nil
  ensures err == nil ==> evlast("write", 0, "w") == args.Writer && len(evlast("write", 0, "data")) == 65536 && len(w) == 49152
  ensures err == nil ==> len(head) == 7274 && sub(w, 0, 7274) == head
  post iv = sub(w, 7281, 7297)
  # setup, content and padding or signature, HMAC over everything from the setup packet on
  ensures err == nil ==> sub(w, 7274, 7281) == outerEnc(4, 16, 2)
  ensures err == nil ==> n <= 41691 && imp(args.StatusCode == 0, evlast("ReadAll", 0, "r") == args.Reader)
  post plain1 = cat(unit(ite(signed, 6, 2)), be(2, n), unit(0), unit(0), content)
  ensures err == nil ==> sub(w, len(head) + 23, len(head) + 35 + n) == cat(outerEnc(16, 5 + n, 3), ctr(ckey, sub(w, len(head) + 7, len(head) + 23), plain1))
  post hl = len(head)
  ensures err == nil ==> sub(w, hl + 35 + n, hl + 42 + n) == outerEnc(16, 41765 - n, 4)
  post plain2 = ctrat(ckey, sub(w, hl + 7, hl + 23), 5 + n, sub(w, hl + 42 + n, hl + 41807))
  # signed: the second encrypted packet starts with the sender's signature over the content, the rest is padding
  ensures err == nil && signed ==> sub(plain2, 0, 69) == cat(unit(8), be(2, 64), unit(1), unit(0), edsign(bytes(args.PrivateSigKey), sha512(content)))
  ensures err == nil && signed ==> sub(plain2, 69, 74) == cat(unit(1), be(2, 41691 - n), unit(0), unit(0))
  ensures err == nil && !signed ==> sub(plain2, 0, 5) == cat(unit(1), be(2, 41760 - n), unit(0), unit(0))
  ensures err == nil ==> sub(w, hl + 41807, hl + 41814) == outerEnc(8, 64, 5) && sub(w, hl + 41814, hl + 41878) == hmacsha512(hkey, sub(w, hl, hl + 41814))
  # the message key is the next one of the session; it is deleted and the counter moves on
  post state = evlast("SetSessionState", 0, "st")
  post skey = b64enc(sha512(cat(args.From.UIDContent.PUBKEYS[0].HASH, args.To.UIDContent.PUBKEYS[0].HASH, state.SenderSessionPub.HASH, state.RecipientTemp.HASH)))
  ensures err == nil ==> evlast("GetMessageKey", 0, "sessionKey") == skey && evlast("GetMessageKey", 0, "sender") && evlast("GetMessageKey", 0, "err") == nil
  ensures err == nil ==> count("DelMessageKey") == 1 && evlast("DelMessageKey", 0, "sessionKey") == skey && evlast("DelMessageKey", 0, "sender") && evlast("DelMessageKey", 0, "i") == evlast("GetMessageKey", 0, "i") && evlast("DelMessageKey", 0, "err") == nil
  ensures err == nil ==> state.SenderMessageCount == (evlast("GetMessageKey", 0, "i") + 1) % 18446744073709551616 && evlast("SetSessionState", 0, "err") == nil
