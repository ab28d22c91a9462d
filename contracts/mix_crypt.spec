package mute/mix/mixcrypt
package nymaddr mute/mix/nymaddr

# an envelope for the owner of pub, made with the private key priv
def mixSecret(priv, pub, nonce) = hmacsha256(dh(priv, pub), nonce)
def envelope(pub, priv, nonce, clear) = cat(pub, dhpub(priv), nonce, gcmseal(mixSecret(priv, pub, nonce), sub(nonce, 0, 12), clear, ""))
# the owner of the key opens it to the same message
lemma envelopeOpens [X01] (a Bytes32, b Bytes32, n Bytes32, m Bytes) gcmok(mixSecret(b, dhpub(a), n), sub(n, 0, 12), sub(envelope(dhpub(b), a, n, m), 96, 112 + len(m)), "") && gcmopen(mixSecret(b, dhpub(a), n), sub(n, 0, 12), sub(envelope(dhpub(b), a, n, m), 96, 112 + len(m)), "") == m

func CalculateSharedSecret(peer, my, nonce) (secret, out)
  inline
  prop X01
  fresh secret
  ensures peer == nil || my == nil ==> secret == nil && out == nil
  ensures peer != nil && my != nil && nonce != nil ==> secret != nil && out == nonce
  ensures (secret == nil) == (out == nil)
  ensures secret != nil ==> bytes(secret) == mixSecret(bytes(my), bytes(peer), bytes(out))
  ensures secret != nil && nonce == nil ==> count("read") == 1 && evlast("read", 0, "r") == Rand && bytes(out) == evlast("read", 0, "data")

func GCMDecrypt(nonce, key, data) (r, err)
  prop X01
  fresh r
  requires len(nonce) >= 12
  ensures len(key) == 32 ==> (err == nil) == gcmok(bytes(key), sub(bytes(nonce), 0, 12), bytes(data), "")
  ensures err == nil ==> bytes(r) == gcmopen(bytes(key), sub(bytes(nonce), 0, 12), bytes(data), "")
  ensures err != nil ==> r == nil

func GCMEncrypt(nonce, key, data) (r, err)
  prop X01
  fresh r
  requires len(nonce) >= 12
  ensures len(key) == 32 ==> err == nil
  ensures err == nil ==> bytes(r) == gcmseal(bytes(key), sub(bytes(nonce), 0, 12), bytes(data), "")

func Encrypt(peer, my, clear) (r, err)
  event seal
  prop X01
  fresh r
  post priv = ite(my == nil, evarg("read", 0, "data"), bytes(my))
  post nonce = evlast("read", 0, "data")
  ensures peer == nil ==> err != nil
  ensures err != nil ==> r == nil
  ensures err == nil ==> len(r) == 112 + len(clear) && sub(r, 0, 32) == bytes(peer)
  ensures err == nil ==> bytes(r) == envelope(bytes(peer), priv, nonce, bytes(clear))
  ensures err == nil ==> count("read") == ite(my == nil, 2, 1) && evarg("read", 0, "r") == Rand && evlast("read", 0, "r") == Rand

func Decrypt(lookupKey, data) (r, err)
  event unseal
  prop X01
  fresh r
  callbacks readonly
  requires lookupKey != nil
  ensures len(data) <= 96 ==> err == ErrTooShort
  ensures err != nil ==> r == nil
  post priv = evlast("funcvalue", 0, "r0")
  post secret = mixSecret(bytes(priv), sub(data, 32, 64), sub(data, 64, 96))
  ensures len(data) > 96 ==> count("funcvalue") == 1 && bytes(evlast("funcvalue", 0, "a0")) == sub(data, 0, 32)
  ensures len(data) > 96 ==> (err == nil) == (priv != nil && gcmok(secret, sub(data, 64, 76), sub(data, 96, len(data)), ""))
  ensures err == nil ==> bytes(r) == gcmopen(secret, sub(data, 64, 76), sub(data, 96, len(data)), "")

# a header travels behind its length
def noByte(b) = len(b) == 0 || (len(b) == 1 && b[0] == 0)
lemma headerLength [X01] (d Bytes, m Bytes) imp(len(d) < 65536, frombe(sub(cat(be(2, len(d)), d, m), 0, 2)) == len(d) && sub(cat(be(2, len(d)), d, m), 2, len(d) + 2) == d && sub(cat(be(2, len(d)), d, m), len(d) + 2, len(d) + len(m) + 2) == m)

func (ClientMixHeader).Marshal(cl) (r)
  prop X01
  fresh r
  post d = sub(r, 2, len(r))
  post u = unasn1("ClientMixHeader", d)
  ensures len(r) >= 2 && sub(r, 0, 2) == be(2, (len(r) - 2) % 65536)
  ensures asn1ok("ClientMixHeader", d)
  ensures u.MessageType == cl.MessageType && u.SenderMinDelay == cl.SenderMinDelay && u.SenderMaxDelay == cl.SenderMaxDelay && bytes(u.Address) == bytes(cl.Address)
  ensures bytes(u.Token) == ite(cl.Token == nil, unit(0), bytes(cl.Token))
  ensures bytes(u.RevokeID) == ite(cl.RevokeID == nil || cl.MessageType == MessageTypeForward, unit(0), bytes(cl.RevokeID))

func (*ClientMixHeader).Unmarshal(cl, d) (header, hl, err)
  prop X01
  modifies *cl
  let n = frombe(sub(d, 0, 2)) + 2
  let u = unasn1("ClientMixHeader", sub(d, 2, n))
  ensures (err == nil) == (len(d) >= 3 && n < 65536 && n <= len(d) && asn1ok("ClientMixHeader", sub(d, 2, n)))
  ensures err == nil ==> header == cl && hl == n
  ensures err != nil ==> header == nil
  ensures err == nil ==> cl.MessageType == u.MessageType && cl.SenderMinDelay == u.SenderMinDelay && cl.SenderMaxDelay == u.SenderMaxDelay && bytes(cl.Address) == bytes(u.Address)
  ensures err == nil ==> header != nil && header.MessageType == u.MessageType && header.SenderMinDelay == u.SenderMinDelay && header.SenderMaxDelay == u.SenderMaxDelay && bytes(header.Address) == bytes(u.Address)
  ensures err == nil ==> (cl.Token == nil) == noByte(u.Token) && imp(cl.Token != nil, bytes(cl.Token) == bytes(u.Token))
  ensures err == nil ==> (cl.RevokeID == nil) == (noByte(u.RevokeID) || u.MessageType == MessageTypeForward) && imp(cl.RevokeID != nil, bytes(cl.RevokeID) == bytes(u.RevokeID))

# what is sealed: the header and the message
func (*ClientMixHeader).NewForwardMessage(cl, hop, key, msg) (message, addr, err)
  prop X01
  modifies *cl
  fresh message
  post clear = evlast("seal", 0, "clear")
  post n = len(clear) - len(msg)
  post u = unasn1("ClientMixHeader", sub(clear, 2, n))
  ensures err == nil ==> count("seal") == 1 && evlast("seal", 0, "r") == message && evlast("seal", 0, "peer") == key && evlast("seal", 0, "my") == nil && evlast("seal", 0, "err") == nil
  ensures err == nil ==> addr == hop
  ensures err == nil ==> n >= 2 && sub(clear, n, len(clear)) == bytes(msg) && frombe(sub(clear, 0, 2)) + 2 == n && asn1ok("ClientMixHeader", sub(clear, 2, n))
  ensures err == nil ==> u.MessageType == MessageTypeForward && u.SenderMinDelay == old(cl.SenderMinDelay) && u.SenderMaxDelay == old(cl.SenderMaxDelay) && bytes(u.Address) == hop && bytes(u.RevokeID) == unit(0)
  ensures err == nil ==> bytes(u.Token) == old(ite(cl.Token == nil, unit(0), bytes(cl.Token)))

func (*ClientMixHeader).NewRelayMessage(cl, nym, msg) (message, addr, err)
  event relay
  prop X01
  modifies *cl
  fresh message
  post clear = evlast("seal", 0, "clear")
  post n = len(clear) - len(msg)
  post u = unasn1("ClientMixHeader", sub(clear, 2, n))
  let a = unasn1("nymaddr.Address", bytes(nym))
  ensures !asn1ok("nymaddr.Address", bytes(nym)) ==> err != nil
  ensures err == nil ==> count("seal") == 1 && evlast("seal", 0, "r") == message && bytes(evlast("seal", 0, "peer")) == over(bytes(a.MixPubKey), zeros(32)) && evlast("seal", 0, "my") == nil && evlast("seal", 0, "err") == nil
  ensures err == nil ==> addr == bytes(a.MixAddress) && bytes(evlast("nymparse", 0, "address")) == bytes(nym) && evlast("nymparse", 0, "err") == nil
  ensures err == nil ==> n >= 2 && sub(clear, n, len(clear)) == bytes(msg) && frombe(sub(clear, 0, 2)) + 2 == n && asn1ok("ClientMixHeader", sub(clear, 2, n))
  ensures err == nil ==> u.MessageType == MessageTypeRelay && u.SenderMinDelay == old(cl.SenderMinDelay) && u.SenderMaxDelay == old(cl.SenderMaxDelay) && bytes(u.Address) == bytes(nym)
  ensures err == nil ==> bytes(u.Token) == old(ite(cl.Token == nil, unit(0), bytes(cl.Token)))
  ensures err == nil ==> len(cl.RevokeID) == 32
  ensures err == nil ==> len(u.RevokeID) == 32 && bytes(u.RevokeID) == bytes(cl.RevokeID) && bytes(cl.RevokeID) == evarg("read", 0, "data") && evarg("read", 0, "r") == Rand

# a mix takes a message: what it does with it afterwards, and what it must have seen only once
func ReceiveMessage(lookupKey, message) (r, err)
  prop X01
  fresh r
  callbacks readonly
  requires lookupKey != nil
  post c = evlast("unseal", 0, "r")
  post n = frombe(sub(c, 0, 2)) + 2
  post u = unasn1("ClientMixHeader", sub(c, 2, n))
  post p = evlast("mixdata", 0, "ap")
  ensures (err == nil) == (r != nil)
  ensures count("unseal") == 1 && evlast("unseal", 0, "data") == message
  ensures err == nil ==> evlast("unseal", 0, "err") == nil
  ensures err == nil ==> n <= len(c) && asn1ok("ClientMixHeader", sub(c, 2, n))
  ensures err == nil ==> bytes(r.Message) == sub(c, n, len(c))
  ensures err == nil ==> r.MixHeader != nil && r.MixHeader.MessageType == u.MessageType && r.MixHeader.SenderMinDelay == u.SenderMinDelay && r.MixHeader.SenderMaxDelay == u.SenderMaxDelay && bytes(r.MixHeader.Address) == bytes(u.Address)
  ensures err == nil && u.MessageType == MessageTypeRelay ==> len(r.Message) >= RelayMinSize && len(r.Message) <= RelayMaxSize
  ensures err == nil && u.MessageType != MessageTypeRelay ==> len(r.Message) >= ForwardMinSize && len(r.Message) <= ForwardMaxSize
  ensures err == nil && u.MessageType == MessageTypeRelay ==> count("nymparse") == 1 && evlast("nymparse", 0, "err") == nil && bytes(evlast("nymparse", 0, "address")) == bytes(u.Address) && r.NymAddress == evlast("nymparse", 0, "a")
  ensures err == nil && u.MessageType == MessageTypeRelay ==> count("mixdata") == 1 && evlast("mixdata", 0, "err") == nil && evlast("mixdata", 0, "ad") == r.NymAddress && r.NymAddressPrivate == p && p != nil
  ensures err == nil && u.MessageType == MessageTypeRelay ==> p.Expire >= evlast("now", 0, "t")
  ensures err == nil ==> len(r.UniqueTest) == ite(u.MessageType == MessageTypeRelay && p.SingleUse, 2, 1)
  ensures err == nil ==> bytes(r.UniqueTest[0].Hash) == sha256(sub(c, n, n + 256))
  ensures err == nil ==> r.UniqueTest[0].Expire == ite(u.MessageType == MessageTypeRelay, p.Expire, wrap64(evlast("now", 0, "t") + ExpireReceive))
  ensures err == nil && u.MessageType == MessageTypeRelay && p.SingleUse ==> bytes(r.UniqueTest[1].Hash) == bytes(p.ReceiverPubKey) && r.UniqueTest[1].Expire == p.Expire

def wrap64(n) = (n + 9223372036854775808) % 18446744073709551616 - 9223372036854775808

# what leaves the mix
func (ReceiveStruct).Send(rs) (r, addr, err)
  prop X01
  requires rs.MixHeader != nil
  requires rs.MixHeader.MessageType == MessageTypeRelay ==> rs.NymAddressPrivate != nil
  post h = evlast("relayheader", 0, "header")
  post s = evlast("relayheader", 0, "secret")
  let relay = rs.MixHeader.MessageType == MessageTypeRelay
  ensures !relay ==> err == nil && r == rs.Message && addr == bytes(rs.MixHeader.Address)
  ensures err == nil && relay ==> count("relayheader") == 1 && evlast("relayheader", 0, "err") == nil && evlast("relayheader", 0, "ap") == *rs.NymAddressPrivate
  ensures err == nil && relay ==> rs.NymAddressPrivate.System == 0 && addr == cat(bytes(rs.NymAddressPrivate.Address), MuteSystemDomain)
  ensures err == nil && relay ==> bytes(r) == cat(be(2, len(h)), bytes(h), gcmseal(bytes(s), sub(sha256(bytes(h)), 0, 12), bytes(rs.Message), "")) && len(h) < 65536
  ensures err != nil ==> r == nil

# what the owner of the nym address receives
func ReceiveFromMix(tmp, mailbox, msg) (dec, nym, err)
  prop X01 N01
  maypanic
  let n = frombe(sub(msg, 0, 2)) + 2
  let h = sub(msg, 2, n)
  post s = evlast("nymopen", 0, "secret")
  ensures err == nil ==> len(msg) >= 2 && n <= len(msg) && count("nymopen") == 1 && evlast("nymopen", 0, "err") == nil && bytes(evlast("nymopen", 0, "header")) == h && bytes(evlast("nymopen", 0, "mailbox")) == bytes(mailbox) && evlast("nymopen", 0, "tmp") == tmp
  ensures err == nil ==> nym == evlast("nymopen", 0, "nym")
  ensures err == nil ==> gcmok(bytes(s), sub(sha256(h), 0, 12), sub(msg, n, len(msg)), "") && bytes(dec) == gcmopen(bytes(s), sub(sha256(h), 0, 12), sub(msg, n, len(msg)), "")
  ensures err != nil ==> dec == nil && nym == nil

# header, nonce and message come apart again as they were put together
lemma relayOpens [X01 N01] (k Bytes32, h Bytes, m Bytes) imp(len(h) < 65536, gcmopen(k, sub(sha256(h), 0, 12), sub(cat(be(2, len(h)), h, gcmseal(k, sub(sha256(h), 0, 12), m, "")), len(h) + 2, len(h) + len(m) + 18), "") == m)
