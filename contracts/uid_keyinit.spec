package mute/uid
package util mute/util
package times mute/util/times

# a KeyInit session anchor, opened with the signature key of its owner
def anchorKey(sigPubKey) = sha512(b64dec(sigPubKey))
def anchorPlain(c, sigPubKey) = ctr(sub(anchorKey(sigPubKey), 0, 32), sub(b64dec(c.SESSIONANCHOR), 0, 16), sub(b64dec(c.SESSIONANCHOR), 16, len(b64dec(c.SESSIONANCHOR))))

func (*KeyInit).SessionAnchor(ki, sigPubKey) (sa, err)
  prop U04
  ensures (err == nil) == (sa != nil)
  ensures err == nil ==> b64ok(sigPubKey) && ki.Contents.SIGKEYHASH == b64enc(sha512(anchorKey(sigPubKey)))
  ensures err == nil ==> b64ok(ki.Contents.SESSIONANCHOR) && len(b64dec(ki.Contents.SESSIONANCHOR)) >= 16
  ensures err == nil ==> ki.Contents.SESSIONANCHORHASH == b64enc(sha512(canon(sa)))

func (*SessionAnchor).KeyEntry(sa, function) (ke, err)
  prop U04
  ensures (err == nil) == (ke != nil)
  loop 0: forall(j, 0, iter, sa.PFKEYS[j].FUNCTION != function)
  ensures err == nil ==> ke.FUNCTION == function && exists(j, 0, len(sa.PFKEYS), sa.PFKEYS[j].FUNCTION == function && sa.PFKEYS[j].PUBKEY == ke.PUBKEY && sa.PFKEYS[j].HASH == ke.HASH)
  ensures err != nil ==> forall(j, 0, len(sa.PFKEYS), sa.PFKEYS[j].FUNCTION != function)

func (*KeyInit).KeyEntryECDHE25519(ki, sigPubKey) (ke, err)
  prop U04
  ensures (err == nil) == (ke != nil)
  ensures err == nil ==> ke.FUNCTION == "ECDHE25519"
  ensures err == nil ==> b64ok(sigPubKey) && ki.Contents.SIGKEYHASH == b64enc(sha512(anchorKey(sigPubKey)))

func (*KeyInit).Verify(ki, keyInitRepositoryURIs, sigPubKey) (err)
  prop U04
  ensures err == nil ==> exists(j, 0, len(keyInitRepositoryURIs), keyInitRepositoryURIs[j] == ki.Contents.REPOURI)
  ensures err == nil ==> b64ok(sigPubKey) && len(b64dec(sigPubKey)) == 32 && ki.Contents.SIGKEYHASH == b64enc(sha512(anchorKey(sigPubKey)))
  ensures err == nil ==> ki.Contents.NOTBEFORE < ki.Contents.NOTAFTER
  ensures err == nil ==> count("now") == 1 && evarg("now", 0, "t") <= ki.Contents.NOTAFTER
  ensures err == nil ==> edok(b64dec(sigPubKey), canon(ki.Contents), b64dec(ki.SIGNATURE))

func (*KeyInit).VerifySrvSig(ki, signature, srvPubKey) (err)
  prop U04
  ensures (err == nil) == (b64ok(signature) && b64ok(srvPubKey) && len(b64dec(srvPubKey)) == 32 && edok(b64dec(srvPubKey), canon(ki), b64dec(signature)))

func (*KeyInit).Check(ki) (err)
  prop U04
  ensures (err == nil) == (ki.Contents.VERSION == "1.0" && ki.Contents.MSGCOUNT == 0)

# a key init message is signed by the owner of the ID message and opens with its signature key
func (*Message).sessionAnchor(msg, key, mixaddress, nymaddress, rand) (sa, sah, pubKeyHash, privateKey, err)
  prop U04
  inline
  requires rand != nil
  maypanic
  let k = sub(bytes(key), 0, 32)
  post p = ctr(k, sub(b64dec(sa), 0, 16), sub(b64dec(sa), 16, len(b64dec(sa))))
  ensures err == nil ==> b64ok(sa) && len(b64dec(sa)) >= 16 && sah == b64enc(sha512(p))

func (*Message).KeyInit(msg, msgcount, notafter, notbefore, fallback, repoURI, mixaddress, nymaddress, rand) (ki, pubKeyHash, privateKey, err)
  prop U04
  event keyinit
  quiet
  fresh ki
  requires rand != nil
  requires msg.UIDContent.SIGKEY.ed25519Key != nil && len(msg.UIDContent.SIGKEY.ed25519Key.privateKey) == 64
  maypanic
  post c = ki.Contents
  let kh = b64dec(msg.UIDContent.SIGKEY.HASH)
  ensures (err == nil) == (ki != nil)
  ensures err == nil ==> c.VERSION == "1.0" && c.MSGCOUNT == msgcount && c.NOTAFTER == notafter && c.NOTBEFORE == notbefore && c.FALLBACK == fallback && c.REPOURI == repoURI && repoURI == msg.UIDContent.REPOURIS[0]
  ensures err == nil ==> notbefore < notafter && c.SIGKEYHASH == b64enc(sha512(kh))
  ensures err == nil ==> evarg("now", 0, "t") <= notafter && notafter <= evarg("now", 1, "t") + 7776000
  ensures err == nil ==> sigOver(b64enc(edpub(bytes(msg.UIDContent.SIGKEY.ed25519Key.privateKey))), canon(ki.Contents), ki.SIGNATURE)
  ensures err == nil ==> c.SESSIONANCHORHASH == b64enc(sha512(ctr(sub(kh, 0, 32), sub(b64dec(c.SESSIONANCHOR), 0, 16), sub(b64dec(c.SESSIONANCHOR), 16, len(b64dec(c.SESSIONANCHOR))))))
