package mute/msg
package session mute/msg/session
package uid mute/uid
package cipher mute/cipher

# ---- what the session store may return (it is handed in by the caller) ----
def eccVal(v) = v.FUNCTION == "ECDHE25519" && b64ok(v.PUBKEY) && len(b64dec(v.PUBKEY)) == 32
def okKE(ke) = eccKE(ke) && wfKE(ke)
def okState(s) = eccVal(s.RecipientTemp) && wfKE(s.RecipientTemp) && eccVal(s.SenderSessionPub) && wfKE(s.SenderSessionPub) && imp(s.NextSenderSessionPub != nil, okKE(s.NextSenderSessionPub) && s.NextSenderSessionPub.privateKeySet) && imp(s.NextRecipientSessionPubSeen != nil, okKE(s.NextRecipientSessionPubSeen))

iface (session.Store).GetSessionState(s, key) (st, err)
  event GetSessionState
  why external store; the key entries of a stored state are well-formed because only verified entries are stored
  ensures st != nil ==> okState(st)

iface (session.Store).SetSessionState(s, key, st) (err)
  event SetSessionState
  why external store: any outcome

iface (session.Store).HasSession(s, key) (r)
  event HasSession
  why external store: any outcome

iface (session.Store).GetPrivateKeyEntry(s, h) (ke, err)
  event GetPrivateKeyEntry
  why external store; entries found have their private key
  ensures err == nil ==> ke != nil && okKE(ke) && ke.privateKeySet && ke.curve25519Key != nil && ke.curve25519Key.privateKey != nil

iface (session.Store).GetPublicKeyEntry(s, m) (ke, nym, err)
  event GetPublicKeyEntry
  why external store; entries found are verified
  ensures err == nil ==> ke != nil && okKE(ke)

iface (session.Store).GetMessageKey(s, sessionKey, sender, i) (key, err)
  event GetMessageKey
  fresh key
  why external store: any outcome
  ensures (err == nil) == (key != nil)

iface (session.Store).NumMessageKeys(s, sessionKey) (n, err)
  event NumMessageKeys
  why external store: any outcome

iface (session.Store).GetRootKeyHash(s, sessionKey) (h, err)
  event GetRootKeyHash
  why external store: any outcome
  ensures (err == nil) == (h != nil)

iface (session.Store).GetChainKey(s, sessionKey) (k, err)
  event GetChainKey
  fresh k
  why external store: any outcome
  ensures (err == nil) == (k != nil)

iface (session.Store).DelMessageKey(s, sessionKey, sender, i) (err)
  event DelMessageKey
  why external store: any outcome

iface (session.Store).AddSessionKey(s, hash, json, priv, t) (err)
  event AddSessionKey
  why external store: any outcome

iface (session.Store).GetSessionKey(s, hash) (json, priv, err)
  event GetSessionKey
  why external store; what addSessionKey has stored, possibly without the private key
  ensures err == nil ==> jsonok("uid.KeyEntry", json) && eccVal(unjson("uid.KeyEntry", json))

iface (session.Store).DelPrivSessionKey(s, hash) (err)
  event DelPrivSessionKey
  why external store: any outcome

def identOK(m) = m != nil && len(m.UIDContent.PUBKEYS) > 0 && eccVal(m.UIDContent.PUBKEYS[0]) && wfKE(m.UIDContent.PUBKEYS[0]) && m.UIDContent.PUBKEYS[0].privateKeySet

# the packet whose four reads end k reads before the last one: type, length and counter
def pkt(k) = cat(evlast("read", k+3, "data"), evlast("read", k+2, "data"), evlast("read", k+1, "data"))
def pktHdr(k, t, c) = evlast("read", k+3, "data") == unit(t) && evlast("read", k+1, "data") == be(4, c)
def pktLen(k) = evlast("read", k+2, "data") == be(2, len(pktBody(k)))
def pktBody(k) = evlast("read", k, "data")
def pktFrom(k, r) = evlast("read", k, "r") == r && evlast("read", k+1, "r") == r && evlast("read", k+2, "r") == r && evlast("read", k+3, "r") == r

func getSessionKey(ss, hash) (ke, err)
  prop D01 R02
  fresh ke
  requires ss != nil
  ensures (err == nil) == (ke != nil)
  ensures err == nil ==> okKE(ke)
  ensures count("GetSessionKey") == 1 && evarg("GetSessionKey", 0, "s") == ss && evarg("GetSessionKey", 0, "hash") == hash
  ensures err == nil ==> evarg("GetSessionKey", 0, "err") == nil && deepx(ke) == deepx(unjson("uid.KeyEntry", evarg("GetSessionKey", 0, "json")))
  ensures err == nil && evarg("GetSessionKey", 0, "priv") != "" ==> ke.privateKeySet && bytes(ke.curve25519Key.privateKey) == b64dec(evarg("GetSessionKey", 0, "priv"))
  ensures err == nil && evarg("GetSessionKey", 0, "priv") == "" ==> !ke.privateKeySet

def okHeaderKE(h) = eccVal(h.SenderSessionPub) && wfKE(h.SenderSessionPub) && eccVal(h.SenderIdentityPub) && wfKE(h.SenderIdentityPub) && imp(h.NextSenderSessionPub != nil, okKE(h.NextSenderSessionPub)) && imp(h.NextRecipientSessionPubSeen != nil, okKE(h.NextRecipientSessionPubSeen))

func readHeader(senderHeaderPub, identities, r) (identity, h, err)
  prop D01
  event readHeader
  fresh h
  requires senderHeaderPub != nil && r != nil
  requires forall(i, 0, len(identities), identOK(identities[i]))
  loop 0: bytes(jsn) == "" && !suc
  ensures (err == nil) == (h != nil)
  ensures err == nil ==> okHeaderKE(h)
  ensures err == nil ==> identity != nil && identOK(identity) && exists(i, 0, len(identities), identities[i] == identity)
  ensures err == nil ==> count("read") == 3 && evarg("read", 0, "r") == r && evarg("read", 1, "r") == r && evarg("read", 2, "r") == r && len(evarg("read", 0, "data")) == 24
  post key = dh(bytes(identity.UIDContent.PUBKEYS[0].curve25519Key.privateKey), bytes(senderHeaderPub))
  ensures err == nil ==> boxok(key, evarg("read", 0, "data"), evarg("read", 2, "data")) && jsonok("header", boxopen(key, evarg("read", 0, "data"), evarg("read", 2, "data")))
  ensures err == nil ==> deepx(h) == deepx(unjson("header", boxopen(key, evarg("read", 0, "data"), evarg("read", 2, "data"))))

func Decrypt(args) (senderID, sig, err)
  event msgdecrypt
  prop D01
  maypanic
  requires args != nil && args.Reader != nil && args.Writer != nil && args.Rand != nil && args.KeyStore != nil && args.NumOfKeys < 1099511627776
  requires forall(i, 0, len(args.Identities), identOK(args.Identities[i]))
  modifies any
  cut NumMessageKeys: imp(ss != nil, okState(ss))
  cut GetMessageKey: true
  post h = evarg("readHeader", 0, "h")
  post mk = evlast("GetMessageKey", 0, "key")
  post ckey = hkdfsha512(bytes(mk), "", "", 0, 32)
  post hkey = hkdfsha512(bytes(mk), "", "", 32, 32)
  post iv = pktBody(12)
  post plain1 = ctr(ckey, iv, pktBody(8))
  post content = evlast("write", 0, "data")
  post m = unjson("uid.Message", h.SenderUID)
  # one header packet, then setup, content, padding or signature, HMAC, each read from the given reader
  ensures err == nil ==> evarg("read", 0, "r") == args.Reader && cat(evarg("read", 0, "data"), evarg("read", 1, "data"), evarg("read", 2, "data")) == outerEnc(2, len(evarg("read", 3, "data")), 1)
  ensures err == nil ==> pktFrom(12, args.Reader) && pktFrom(8, args.Reader) && pktFrom(4, args.Reader) && pktFrom(0, args.Reader)
  ensures err == nil ==> pkt(12) == outerEnc(4, 16, 2)
  ensures err == nil ==> pktHdr(8, 16, 3) && pktHdr(4, 16, 4) && pktHdr(0, 8, 5)
  ensures err == nil ==> pktLen(8)
  ensures err == nil ==> pktLen(4)
  ensures err == nil ==> pktLen(0)
  # the HMAC covers everything from the setup packet on
  ensures err == nil ==> pktBody(0) == hmacsha512(hkey, cat(pkt(12), pktBody(12), pkt(8), pktBody(8), pkt(4), pktBody(4), pkt(0)))
  ensures err == nil ==> senderID == h.SenderIdentity
  ensures err == nil ==> bytes(evarg("readHeader", 0, "senderHeaderPub")) == sub(bytes(args.PreHeader), 34, 66) && len(evarg("readHeader", 0, "identities")) == len(args.Identities) && forall(i, 0, len(args.Identities), evarg("readHeader", 0, "identities")[i] == args.Identities[i])
  post inner = evlast("write", 0, "data")
  # the content handed out is the decrypted content of the encrypted packet
  ensures err == nil ==> evlast("write", 0, "w") == args.Writer && sub(plain1, 1, 3) == be(2, len(inner)) && sub(plain1, 5, 5 + len(inner)) == inner
  # the message key is the one of the header's session, and it is deleted
  post skey = b64enc(sha512(cat(evarg("readHeader", 0, "identity").UIDContent.PUBKEYS[0].HASH, h.SenderIdentityPub.HASH, h.RecipientTempHash, h.SenderSessionPub.HASH)))
  ensures err == nil ==> count("DelMessageKey") == 1 && evlast("GetMessageKey", 0, "sessionKey") == skey && evlast("GetMessageKey", 0, "sender") == false && evlast("GetMessageKey", 0, "i") == h.SenderMessageCount && evlast("GetMessageKey", 0, "err") == nil
  ensures err == nil ==> evlast("DelMessageKey", 0, "sessionKey") == skey && evlast("DelMessageKey", 0, "sender") == false && evlast("DelMessageKey", 0, "i") == h.SenderMessageCount && evlast("DelMessageKey", 0, "err") == nil
  # the sender's UID message is self-signed and is that of the identity and identity key in the header
  ensures err == nil ==> jsonok("uid.Message", h.SenderUID) && m.UIDContent.IDENTITY == senderID && len(m.UIDContent.PUBKEYS) > 0 && keVal(m.UIDContent.PUBKEYS[0], h.SenderIdentityPub)
  ensures err == nil ==> sigOver(m.UIDContent.SIGKEY.PUBKEY, canon(m.UIDContent), m.SELFSIGNATURE)
  # a signature that is returned is the sender's signature over the content
  ensures err == nil && sig != "" ==> edok(b64dec(m.UIDContent.SIGKEY.PUBKEY), sha512(inner), b64dec(sig))
