package mute/mix/nymaddr
package mixaddr mute/mix/mixaddr

func ParseAddress(address) (a, err)
  event nymparse
  prop N01 X01
  fresh a
  let u = unasn1("Address", bytes(address))
  ensures !asn1ok("Address", bytes(address)) ==> err != nil
  ensures err == nil ==> a != nil && *a == u
  ensures err != nil ==> a == nil
  ensures asn1ok("Address", bytes(address)) ==> count("now") == 1 && (err == nil) == (u.Expire >= evlast("now", 0, "t"))

# keys and authentication derived from the owner's secret
def nymPriv(secret, nonce, nym) = hmacsha256(secret, cat(nonce, nym))
def nymSym(secret, nonce, recv, mailbox) = hmacsha256(secret, cat(nonce, recv, mailbox))
def nymMac(sym, nonce, recv, enc) = hmacsha256(sym, cat(nonce, recv, enc))
def nymPlain(nym) = cat(unit(len(nym) % 33), nym, zeros(33 - len(nym)))

func (*Address).GetMixData(ad, keysLookup) (ap, err)
  event mixdata
  prop N01 X01
  fresh ap
  callbacks readonly
  requires keysLookup != nil
  post priv = evlast("funcvalue", 0, "r0")
  post plain = liondec(dh(bytes(priv), over(bytes(ad.AddressKey), zeros(32))), bytes(ad.PrivateData))
  ensures count("funcvalue") == 1 && bytes(evlast("funcvalue", 0, "a0")) == over(bytes(ad.MixPubKey), zeros(32))
  ensures (err == nil) == (priv != nil && len(ad.PrivateData) >= 33 && asn1ok("AddressPrivate", plain))
  ensures err == nil ==> ap != nil
  ensures err == nil ==> *ap == unasn1("AddressPrivate", plain)
  ensures err != nil ==> ap == nil

func (AddressPrivate).GetUnique(ap) (r)
  prop N01
  ensures bytes(r) == ite(ap.SingleUse, bytes(ap.ReceiverPubKey), "")
  ensures !ap.SingleUse ==> r == nil

func (AddressPrivate).GetHeader(ap) (header, secret, err)
  event relayheader
  prop N01
  fresh header secret
  post d = unasn1("RelayHeader", bytes(header))
  post priv = evlast("read", 0, "data")
  ensures err == nil ==> asn1ok("RelayHeader", bytes(header)) && bytes(d.Nonce) == bytes(ap.Nonce) && bytes(d.ReceiverPubKey) == bytes(ap.ReceiverPubKey) && bytes(d.EncNym) == bytes(ap.EncNym) && bytes(d.HMACHead) == bytes(ap.HMACHead)
  ensures err == nil ==> len(secret) == 32
  ensures err == nil ==> count("read") == 1 && evlast("read", 0, "r") == Rand && bytes(d.SenderKey) == dhpub(priv) && bytes(secret) == dh(priv, over(bytes(ap.ReceiverPubKey), zeros(32)))

func (AddressTemplate).GetPrivate(tmp, header, mailbox) (nym, secret, err)
  event nymopen
  prop N01
  maypanic
  let h = unasn1("RelayHeader", bytes(header))
  let sym = nymSym(bytes(tmp.Secret), bytes(h.Nonce), bytes(h.ReceiverPubKey), bytes(mailbox))
  let plain = ctr(sym, zeros(16), bytes(h.EncNym))
  ensures err == nil ==> asn1ok("RelayHeader", bytes(header)) && bytes(h.HMACHead) == nymMac(sym, bytes(h.Nonce), bytes(h.ReceiverPubKey), bytes(h.EncNym))
  ensures err == nil ==> bytes(nym) == sub(plain, 1, plain[0] + 1)
  ensures err == nil ==> bytes(h.ReceiverPubKey) == dhpub(nymPriv(bytes(tmp.Secret), bytes(h.Nonce), bytes(nym)))
  ensures err == nil ==> bytes(secret) == dh(nymPriv(bytes(tmp.Secret), bytes(h.Nonce), bytes(nym)), over(bytes(h.SenderKey), zeros(32)))
  ensures asn1ok("RelayHeader", bytes(header)) && bytes(h.HMACHead) == nymMac(sym, bytes(h.Nonce), bytes(h.ReceiverPubKey), bytes(h.EncNym)) && bytes(h.ReceiverPubKey) == dhpub(nymPriv(bytes(tmp.Secret), bytes(h.Nonce), sub(plain, 1, plain[0] + 1))) ==> err == nil
  ensures err != nil ==> nym == nil && secret == nil

func genNonce() (nonce, err)
  prop N01
  inline
  fresh nonce
  ensures (err == nil) == (nonce != nil)

func genKeyRandom() (pub, priv, err)
  prop N01
  inline
  fresh pub priv
  ensures err == nil ==> pub != nil && priv != nil && bytes(pub) == dhpub(bytes(priv))

func (AddressTemplate).genDetermKeys(tmp, nonce, nym) (pub, priv)
  prop N01
  fresh pub priv
  ensures pub != nil && priv != nil
  ensures bytes(priv) == nymPriv(bytes(tmp.Secret), bytes(nonce), bytes(nym))
  ensures bytes(pub) == dhpub(nymPriv(bytes(tmp.Secret), bytes(nonce), bytes(nym)))

func (AddressTemplate).genSymKey(tmp, nonce, recv, addr) (r)
  prop N01
  fresh r
  ensures bytes(r) == nymSym(bytes(tmp.Secret), bytes(nonce), bytes(recv), bytes(addr))

func encryptNym(key, nym) (r)
  prop N01
  fresh r
  requires len(key) == 32 && len(nym) <= 33
  ensures bytes(r) == ctr(bytes(key), zeros(16), nymPlain(bytes(nym)))

def cut32(b) = cat(sub(b, 0, min(len(b), 32)), zeros(32 - min(len(b), 32)))
def sameAddrs(a, b) = len(a) == len(b) && forall(i, 0, len(a), a[i] == b[i])

func (AddressTemplate).NewAddress(tmp, mailbox, nym0) (r, err)
  prop N01
  fresh r
  let nym = cut32(bytes(nym0))
  post m = evlast("randaddr", 0, "r")
  post a = unasn1("Address", bytes(r))
  post akey = evarg("read", 0, "data")
  post nonce = evlast("read", 0, "data")
  post p = unasn1("AddressPrivate", liondec(dh(akey, cut32(bytes(a.MixPubKey))), bytes(a.PrivateData)))
  ensures err == nil ==> count("expirelist") == 1 && count("randaddr") == 1 && m != nil && count("read") == 2 && evarg("read", 0, "r") == Rand && evlast("read", 0, "r") == Rand
  ensures err == nil ==> sameAddrs(evlast("expirelist", 0, "adl"), tmp.MixCandidates) && evlast("expirelist", 0, "now") == tmp.Expire && sameAddrs(evlast("randaddr", 0, "adl"), evlast("expirelist", 0, "r"))
  ensures err == nil ==> asn1ok("Address", bytes(r)) && bytes(a.MixAddress) == bytes(m.Address) && bytes(a.MixPubKey) == bytes(m.Pubkey) && bytes(a.TokenPubKey) == bytes(m.TokenKey) && a.Expire == tmp.Expire && a.SingleUse == tmp.SingleUse
  ensures err == nil ==> bytes(a.AddressKey) == dhpub(akey)
  ensures err == nil ==> asn1ok("AddressPrivate", liondec(dh(akey, cut32(bytes(a.MixPubKey))), bytes(a.PrivateData)))
  ensures err == nil ==> p.System == tmp.System && bytes(p.Address) == bytes(mailbox) && p.Expire == tmp.Expire && p.SingleUse == tmp.SingleUse && p.MinDelay == tmp.MinDelay && p.MaxDelay == tmp.MaxDelay
  ensures err == nil ==> bytes(p.Nonce) == nonce && bytes(p.ReceiverPubKey) == dhpub(nymPriv(bytes(tmp.Secret), nonce, nym))
  ensures err == nil ==> bytes(p.EncNym) == ctr(nymSym(bytes(tmp.Secret), nonce, bytes(p.ReceiverPubKey), bytes(mailbox)), zeros(16), nymPlain(nym))
  ensures err == nil ==> bytes(p.HMACHead) == nymMac(nymSym(bytes(tmp.Secret), nonce, bytes(p.ReceiverPubKey), bytes(mailbox)), nonce, bytes(p.ReceiverPubKey), bytes(p.EncNym))

# the mix decrypts what the owner encrypted (key agreement); the owner finds its nym in the encrypted part
lemma nymFound [N01] (k Bytes32, n Bytes32) sub(ctr(k, zeros(16), ctr(k, zeros(16), nymPlain(n))), 1, 33) == n && ctr(k, zeros(16), ctr(k, zeros(16), nymPlain(n)))[0] == 32
lemma nymAgreed [N01] (a Bytes32, b Bytes32) dh(a, dhpub(b)) == dh(b, dhpub(a))
