# the service guard client: which tokens it accepts, and how it exchanges them

package client mute/serviceguard/client
package keylookup mute/serviceguard/client/keylookup
package guardrpc mute/serviceguard/client/guardrpc
package walletrpc mute/serviceguard/client/walletrpc
package packetproto mute/serviceguard/client/packetproto
package keypool mute/serviceguard/common/keypool
package signkeys mute/serviceguard/common/signkeys
package token mute/serviceguard/common/token
package types mute/serviceguard/common/types
package jjm github.com/ronperry/cryptoedge/jjm

inlineext jjm.NewClearSignature

iface (client.WalletStore).SetToken(s, entry) (err)
  why wallet storage: any outcome
  requires entry.OwnerPubKey != nil
  # with these preconditions S06 holds: the store gives back what it was given, so what is asked for here may be relied on below
  requires imp(entry.ServerPacket != nil, entry.NewOwnerPubKey != nil)
  event SetToken

iface (client.WalletStore).GetToken(s, hash, lock) (r, err)
  why wallet storage: any outcome
  event GetToken
  fresh r
  ensures err == nil ==> r != nil && r.OwnerPubKey != nil && imp(r.ServerPacket != nil, r.NewOwnerPubKey != nil)

iface (client.WalletStore).DelToken(s, hash)
  why wallet storage: any outcome
  event DelToken

iface (client.WalletStore).LockToken(s, hash) (r)
  why wallet storage: any outcome
  event LockToken

iface (client.WalletStore).GetAndLockToken(s, usage, owner) (r, err)
  why wallet storage: any outcome
  event GetAndLockToken
  fresh r
  ensures err == nil ==> r != nil && r.OwnerPubKey != nil && imp(r.ServerPacket != nil, r.NewOwnerPubKey != nil)

iface (client.WalletStore).FindToken(s, usage) (r, err)
  why wallet storage: any outcome
  event FindToken
  fresh r
  ensures err == nil ==> r != nil && r.OwnerPubKey != nil && imp(r.ServerPacket != nil, r.NewOwnerPubKey != nil)

iface (client.WalletStore).GetAuthToken(s) (r, tries)
  why wallet storage: any outcome
  event GetAuthToken

iface (client.WalletStore).SetAuthToken(s, r, tries) (err)
  why wallet storage: any outcome
  event SetAuthToken

iface (client.WalletStore).UnlockToken(s, hash)
  why wallet storage: any outcome
  event UnlockToken

package mute/serviceguard/client

# a client ready to work
def wfCli(c) = c.packetClient != nil && c.packetClient.Keypool != nil && wfPool(c.packetClient.Keypool) && c.packetClient.Curve != nil && c.packetClient.Curve.Curve != nil
# every known error text of a server stands for an error
def wfErrs(c) = forallkey(k, errorTranslateMap, errorTranslateMap[k].err != nil)
# the same owner, or none
def sameKey(a, b) = (a == nil) == (b == nil) && imp(a != nil, bytes(a) == bytes(b))
def pool(c) = c.packetClient.Keypool

func (*Client).getPubKey(c, keyid) (r, err)
  prop S04
  callbacks readonly
  event getPubKey
  requires wfCli(c) && wfErrs(c) && keylookup.DefaultClientFactory != nil
  modifies c.LastError, elems(c.packetClient.Keypool.keys)
  ensures err == nil ==> r != nil && wfPK(r) && bytes(r.KeyID) == bytes(keyid) && keyGood(pool(c), r)
  ensures err == nil && !old(has(pool(c).keys, keyid)) ==> has(pool(c).VerifyPubKeys, r.Signer)
  ensures err == nil && old(has(pool(c).keys, keyid)) ==> r == old(pool(c).keys[keyid])
  ensures err != nil ==> r == nil && c.LastError != nil
  ensures forallkey(k, old(pool(c).keys), has(pool(c).keys, k) && pool(c).keys[k] == old(pool(c).keys[k]))
  ensures wfPool(pool(c))

func (*Client).Verify(c, inputToken) (r, err)
  event tokVerify
  prop S04
  callbacks readonly
  requires wfCli(c) && wfErrs(c) && keylookup.DefaultClientFactory != nil
  modifies c.LastError, elems(c.packetClient.Keypool.keys)
  let tok = decToken(bytes(inputToken))
  post key = evarg("getPubKey", 0, "r")
  post sig = unbox(evarg("jjmverify", 0, "sig"), "jjm.ClearSignature")
  ensures err == nil ==> asn1ok("token.Token", bytes(inputToken)) && count("getPubKey") == 1 && evarg("getPubKey", 0, "err") == nil
  ensures err == nil ==> bytes(evarg("getPubKey", 0, "keyid")) == bytes(tok.KeyID)
  ensures err == nil ==> key.Expire >= evlast("now", 0, "t")
  # the key of the token signed it
  ensures err == nil ==> count("jjmverify") == 1 && evarg("jjmverify", 0, "ok") && evarg("jjmverify", 0, "err") == nil
  ensures err == nil ==> bytes(unbox(evarg("jjmverify", 0, "msg")).Message) == tokenHash(tok)
  ensures err == nil ==> evarg("jjmverify", 0, "c").BlindingClient.PubKey == &key.PublicKey
  ensures err == nil ==> bigbytes(sig.PointR.X) == bigbytes(bigof(bytes(tok.PointRX))) && bigbytes(sig.PointR.Y) == bigbytes(bigof(bytes(tok.PointRY)))
  ensures err == nil ==> bigbytes(sig.ScalarR) == bigbytes(bigof(bytes(tok.ScalarR))) && bigbytes(sig.ScalarS) == bigbytes(bigof(bytes(tok.ScalarS)))
  # the entry says what the token says
  ensures err == nil ==> r != nil && bytes(r.Hash) == tokenHash(tok) && bytes(r.Token) == bytes(inputToken)
  ensures err == nil ==> r.Usage == key.Usage && r.Expire == key.Expire
  ensures err == nil ==> (r.OwnerPubKey != nil) == tok.Flag && imp(tok.Flag, bytes(r.OwnerPubKey) == bytes(tok.Owner))
  ensures err == nil ==> r.OwnerPrivKey == nil && r.Params == nil && !r.Renewable && !r.CanReissue && r.ServerPacket == nil && r.BlindingFactors == nil
  ensures err != nil ==> r == nil && c.LastError != nil
  ensures wfPool(pool(c))

func (*Client).ReceiveToken(c, usage, inputToken) (err)
  prop S04
  callbacks readonly
  requires wfCli(c) && wfErrs(c) && keylookup.DefaultClientFactory != nil && c.walletKey != nil && c.walletStore != nil
  modifies c.LastError, elems(c.packetClient.Keypool.keys)
  post e = evarg("tokVerify", 0, "r")
  post s = evarg("SetToken", 0, "entry")
  ensures err == nil ==> count("tokVerify") == 1 && evarg("tokVerify", 0, "err") == nil && bytes(evarg("tokVerify", 0, "inputToken")) == bytes(inputToken)
  ensures err == nil ==> e.Usage == usage && e.OwnerPubKey != nil && bytes(e.OwnerPubKey) == sub(bytes(c.walletKey), 32, 64)
  # it is new, and is stored as it was verified
  ensures err == nil ==> count("GetToken") == 1 && bytes(evarg("GetToken", 0, "hash")) == bytes(e.Hash) && evarg("GetToken", 0, "err") != nil
  ensures err == nil ==> count("SetToken") == 1 && evarg("SetToken", 0, "err") == nil && bytes(s.Hash) == bytes(e.Hash) && bytes(s.Token) == bytes(e.Token) && s.OwnerPubKey == e.OwnerPubKey && s.Usage == e.Usage && s.Expire == e.Expire
  ensures err != nil ==> c.LastError != nil && count("DelToken") == 0
  ensures wfPool(pool(c))

# SetToken number k stored the packet and what belongs to it, before the packet was sent
def savedBefore(k) = evpos("SetToken", k) < evpos("guardReissue", 0) && evarg("SetToken", k, "err") == nil && bytes(evarg("SetToken", k, "entry").ServerPacket) == bytes(evarg("guardReissue", 0, "packet")) && bytes(evarg("SetToken", k, "entry").ServerPacket) == bytes(evarg("makeReissue", 0, "toServer")) && bytes(evarg("SetToken", k, "entry").Hash) == bytes(evarg("GetToken", 0, "r").Hash) && savedPriv(evarg("SetToken", k, "entry"), evarg("makeReissue", 0, "storeLocal")) && bytes(evarg("SetToken", k, "entry").NewOwnerPubKey) == bytes(evarg("makeReissue", 0, "newOwner"))
# the private half of a request, as stored
def unpriv(b) = unasn1("types.ReissuePacketPrivate", bytes(b))
def samePriv(d, p) = bytes(d.PublicKey) == bytes(p.PublicKey) && bytes(d.Factors) == bytes(p.Factors) && bytes(d.Token) == bytes(p.Token)
def savedPriv(e, p) = asn1ok("types.ReissuePacketPrivate", bytes(e.BlindingFactors)) && samePriv(unpriv(e.BlindingFactors), p)

func (*Client).ReissueToken(c, tokenHash, ownerPubkey) (newTokenHash, err)
  prop S05
  callbacks readonly
  event ReissueToken
  requires wfCli(c) && wfErrs(c) && guardrpc.DefaultClientFactory != nil && c.walletStore != nil
  modifies c.LastError, elems(c.packetClient.Keypool.keys)
  post old = evarg("GetToken", 0, "r")
  post new = evlast("SetToken", 0, "entry")
  ensures err == nil ==> count("guardReissue") == 1 && count("GetToken") == 2 && count("DelToken") == 1
  # only under a lock, which is given back
  ensures count("LockToken") <= 1 && count("UnlockToken") == ite(count("LockToken") == 1 && evarg("LockToken", 0, "r") > 0, 1, 0)
  ensures count("LockToken") == 0 || evarg("LockToken", 0, "r") <= 0 ==> err != nil && count("SetToken") == 0 && count("DelToken") == 0 && count("guardReissue") == 0 && count("GetToken") == 0
  ensures count("GetToken") >= 1 ==> evarg("GetToken", 0, "lock") == evarg("LockToken", 0, "r") && bytes(evarg("GetToken", 0, "hash")) == bytes(tokenHash) && bytes(evarg("LockToken", 0, "hash")) == bytes(tokenHash)
  # the request is made for this token by its owner
  ensures count("makeReissue") == 1 ==> bytes(evarg("makeReissue", 0, "oldTokenEnc")) == bytes(old.Token) && bytes(evarg("makeReissue", 0, "oldOwner")) == bytes(old.OwnerPrivKey) && old.OwnerPrivKey != nil && evarg("makeReissue", 0, "newOwner") != nil
  ensures count("makeReissue") == 1 && ownerPubkey != nil ==> bytes(evarg("makeReissue", 0, "newOwner")) == bytes(ownerPubkey)
  # and stored before it is sent
  ensures count("guardReissue") == 1 && count("makeReissue") == 1 ==> count("SetToken") >= 1 && savedBefore(0) || count("SetToken") >= 2 && savedBefore(1)
  ensures count("guardReissue") == 1 && count("makeReissue") == 0 ==> bytes(evarg("guardReissue", 0, "packet")) == bytes(old.ServerPacket)
  # the old token is deleted only after the new one is stored
  ensures count("DelToken") >= 1 ==> err == nil && count("DelToken") == 1 && bytes(evarg("DelToken", 0, "hash")) == bytes(old.Hash)
  ensures err == nil ==> bytes(evarg("GetToken", 1, "hash")) == bytes(newTokenHash) && evpos("GetToken", 1) < evpos("DelToken", 0)
  post known = evarg("GetToken", 1, "err") == nil
  ensures err == nil && !known ==> evlast("SetToken", 0, "err") == nil && evpos("SetToken", count("SetToken") - 1) < evpos("DelToken", 0) && evpos("GetToken", 1) < evpos("SetToken", count("SetToken") - 1)
  # one that is there already is not touched
  ensures err == nil && known ==> count("SetToken") == 0 || evpos("SetToken", count("SetToken") - 1) < evpos("guardReissue", 0)
  # which is what the signature received was unblinded to
  ensures err == nil ==> count("unblindTok") == 1 && evarg("unblindTok", 0, "err") == nil && bytes(evarg("unblindTok", 0, "signature")) == bytes(evarg("guardReissue", 0, "r"))
  ensures err == nil ==> samePriv(unpriv(old.BlindingFactors), evarg("unblindTok", 0, "storeLocal"))
  ensures err == nil ==> bytes(newTokenHash) == tokenHash(decToken(bytes(evarg("unblindTok", 0, "r"))))
  ensures err == nil && !known ==> bytes(new.Token) == bytes(evarg("unblindTok", 0, "r")) && bytes(new.Hash) == bytes(newTokenHash)
  ensures err == nil && !known ==> new.OwnerPubKey == old.NewOwnerPubKey && new.OwnerPrivKey == old.NewOwnerPrivKey && new.ServerPacket == nil && new.Params == nil
  ensures wfPool(pool(c))

func (*Client).getTokenFromWallet(c, usage) (token, params, pubkeyUsed, err)
  prop S05
  callbacks readonly
  event walletToken
  requires c.walletStore != nil && c.walletKey != nil && wfErrs(c) && walletrpc.DefaultClientFactory != nil
  requires imp(c.walletRPC != nil, c.walletRPC.ClientFactory != nil && c.walletRPC.PubKey != nil && c.walletRPC.PrivKey != nil)
  modifies c.LastError, c.walletRPC, c.walletRPC.LastAuthToken, c.walletRPC.LastAuthCounter
  # what the server said, for this usage
  ensures err == nil ==> count("walletGet") == 1 && evarg("walletGet", 0, "err") == nil && evarg("walletGet", 0, "usage") == usage
  ensures err == nil ==> bytes(token) == bytes(evarg("walletGet", 0, "token")) && bytes(params) == bytes(evarg("walletGet", 0, "params")) && bytes(pubkeyUsed) == bytes(evarg("walletGet", 0, "pubKeyUsed"))
  # a token used without an answer is used again, one that was answered is not
  ensures err == nil ==> evlast("SetAuthToken", 0, "r") == nil && evlast("SetAuthToken", 0, "tries") == 0
  ensures err == ErrRetry ==> count("SetAuthToken") == 1 && evarg("SetAuthToken", 0, "err") == nil && evarg("SetAuthToken", 0, "r") == c.walletRPC.LastAuthToken && evarg("SetAuthToken", 0, "r") != nil
  ensures err != nil ==> token == nil && params == nil && pubkeyUsed == nil && c.LastError != nil

func (*Client).WalletToken(c, usage, owner) (tokenHash, err)
  prop S05
  callbacks readonly
  event WalletToken
  requires wfCli(c) && wfErrs(c) && guardrpc.DefaultClientFactory != nil && walletrpc.DefaultClientFactory != nil && c.walletStore != nil && c.walletKey != nil
  requires imp(c.walletRPC != nil, c.walletRPC.ClientFactory != nil && c.walletRPC.PubKey != nil && c.walletRPC.PrivKey != nil)
  modifies c.LastError, c.walletRPC, c.walletRPC.LastAuthToken, c.walletRPC.LastAuthCounter, elems(c.packetClient.Keypool.keys)
  post w = evarg("walletToken", 0, "token")
  post s = evarg("SetToken", 0, "entry")
  post k = decPK(bytes(evarg("walletToken", 0, "pubkeyUsed")))
  post par = evarg("walletToken", 0, "params")
  post known = evarg("GetToken", 0, "err") == nil
  # whether it is there already is asked first: then it is kept as it is
  ensures count("ReissueToken") == 1 ==> count("GetToken") >= 1 && evpos("GetToken", 0) < evpos("ReissueToken", 0)
  ensures count("GetToken") >= 1 ==> bytes(evarg("GetToken", 0, "hash")) == tokenHash(decToken(bytes(w))) && evarg("GetToken", 0, "lock") == -1
  ensures count("ReissueToken") == 0 && count("GetToken") >= 1 ==> count("SetToken") == ite(known, 0, 1)
  ensures count("GetToken") == 0 ==> count("SetToken") == 0
  post added = count("GetToken") >= 1 && !known
  # the token is stored as received, for the wallet key, before anything else is done with it
  ensures count("GetToken") >= 1 ==> count("walletToken") == 1 && evarg("walletToken", 0, "err") == nil && evarg("walletToken", 0, "usage") == usage
  ensures added ==> bytes(s.Token) == bytes(w) && bytes(s.Hash) == tokenHash(decToken(bytes(w))) && bytes(s.Params) == bytes(par) && s.CanReissue
  ensures added ==> s.OwnerPubKey != nil && bytes(s.OwnerPubKey) == sub(bytes(c.walletKey), 32, 64) && s.OwnerPrivKey != nil && bytes(s.OwnerPrivKey) == bytes(c.walletKey) && s.Usage == k.Usage && s.Expire == k.Expire
  ensures added ==> s.Renewable == (len(par) == 0 || unasn1("types.Params", bytes(par)).CanReissue)
  # under a key of a trusted service guard
  ensures count("GetToken") >= 1 ==> has(pool(c).VerifyPubKeys, over(bytes(k.Signer), zeros(32)))
  ensures count("ReissueToken") <= 1
  ensures count("ReissueToken") == 1 ==> imp(added, count("SetToken") >= 1 && evarg("SetToken", 0, "err") == nil && evpos("SetToken", 0) < evpos("ReissueToken", 0)) && bytes(evarg("ReissueToken", 0, "tokenHash")) == tokenHash(decToken(bytes(w))) && sameKey(evarg("ReissueToken", 0, "ownerPubkey"), owner)
  ensures count("ReissueToken") == 1 ==> tokenHash == evarg("ReissueToken", 0, "newTokenHash") && err == evarg("ReissueToken", 0, "err")
  ensures err == nil ==> count("ReissueToken") == 1
  ensures added && evarg("SetToken", 0, "err") == nil && owner == nil && !s.Renewable ==> err == ErrNeedReissue && count("ReissueToken") == 0
  ensures wfPool(pool(c))

func (*Client).GetToken(c, usage, owner) (r, err)
  prop S05
  callbacks readonly
  requires wfCli(c) && wfErrs(c) && guardrpc.DefaultClientFactory != nil && walletrpc.DefaultClientFactory != nil && c.walletStore != nil && c.walletKey != nil
  requires imp(c.walletRPC != nil, c.walletRPC.ClientFactory != nil && c.walletRPC.PubKey != nil && c.walletRPC.PrivKey != nil)
  modifies c.LastError, c.walletRPC, c.walletRPC.LastAuthToken, c.walletRPC.LastAuthCounter, elems(c.packetClient.Keypool.keys)
  ensures (err == nil) == (r != nil)
  ensures count("GetAndLockToken") == 1 && evarg("GetAndLockToken", 0, "usage") == usage && sameKey(evarg("GetAndLockToken", 0, "owner"), owner)
  ensures evarg("GetAndLockToken", 0, "err") == nil ==> err == nil && r == evarg("GetAndLockToken", 0, "r") && count("ReissueToken") == 0 && count("WalletToken") == 0
  # otherwise a token is reissued to the owner, or taken from the wallet server for the owner
  post reissued = evarg("GetAndLockToken", 0, "err") != nil && count("WalletToken") == 0
  post fetched = evarg("GetAndLockToken", 0, "err") != nil && count("WalletToken") == 1
  ensures evarg("GetAndLockToken", 0, "err") != nil && err == nil ==> owner != nil && count("WalletToken") <= 1 && evarg("FindToken", 0, "usage") == usage
  ensures reissued && err == nil ==> count("ReissueToken") == 1 && sameKey(evarg("ReissueToken", 0, "ownerPubkey"), owner) && bytes(evarg("ReissueToken", 0, "tokenHash")) == bytes(evarg("FindToken", 0, "r").Hash) && evarg("FindToken", 0, "err") == nil
  ensures fetched ==> sameKey(evarg("WalletToken", 0, "owner"), owner) && evarg("WalletToken", 0, "usage") == usage && evarg("FindToken", 0, "err") != nil
  # that token, and no other, is locked and returned
  ensures evarg("GetAndLockToken", 0, "err") != nil && err == nil ==> evlast("LockToken", 0, "r") > 0 && evlast("GetToken", 0, "lock") == evlast("LockToken", 0, "r") && r == evlast("GetToken", 0, "r") && evlast("GetToken", 0, "err") == nil
  ensures reissued && err == nil ==> evarg("ReissueToken", 0, "err") == nil && bytes(evlast("LockToken", 0, "hash")) == bytes(evarg("ReissueToken", 0, "newTokenHash")) && bytes(evlast("GetToken", 0, "hash")) == bytes(evarg("ReissueToken", 0, "newTokenHash"))
  ensures fetched && err == nil ==> evarg("WalletToken", 0, "err") == nil && bytes(evlast("LockToken", 0, "hash")) == bytes(evarg("WalletToken", 0, "tokenHash")) && bytes(evlast("GetToken", 0, "hash")) == bytes(evarg("WalletToken", 0, "tokenHash"))

# ---- verification keys: only those of the list the trust root signed, or those stored before

iface (client.WalletStore).SetVerifyKeys(s, keys)
  why wallet storage: any outcome
  event SetVerifyKeys

iface (client.WalletStore).GetVerifyKeys(s) (r)
  why wallet storage: what SetVerifyKeys was given before
  event GetVerifyKeys

func (*Client).GetVerifyKeys(c) (err)
  prop S02
  event getverifykeys
  callbacks readonly
  requires wfCli(c) && c.walletStore != nil && TrustRoot != nil && keylookup.DefaultClientFactory != nil
  requires forallkey(k, c.packetClient.Keypool.VerifyPubKeys, k == k)
  modifies c.LastError, elems(c.packetClient.Keypool.VerifyPubKeys)
  loop 0: forallkey(k, pool(c).VerifyPubKeys, old(has(pool(c).VerifyPubKeys, k)) || exists(j, 0, iter, verifyKeys[j] == k))
  loop 0: forallkey(k, old(pool(c).VerifyPubKeys), has(pool(c).VerifyPubKeys, k))
  at verifylist: c.online && bytes(evlast("verifylist", 0, "klc").PubKey) == bytes(TrustRoot) && evlast("verifylist", 0, "klc").ServiceGuardCA == c.cacert
  at SetVerifyKeys: count("SetVerifyKeys") == 1 && evarg("verifylist", 0, "err") == nil && len(evarg("SetVerifyKeys", 0, "keys")) == len(evarg("verifylist", 0, "r")) && forall(j, 0, len(evarg("verifylist", 0, "r")), evarg("SetVerifyKeys", 0, "keys")[j] == evarg("verifylist", 0, "r")[j])
  ensures c.online && evarg("verifylist", 0, "err") == nil && len(evarg("verifylist", 0, "r")) > 0 ==> count("SetVerifyKeys") == 1 && count("GetVerifyKeys") == 0
  ensures count("GetVerifyKeys") == 0 ==> forallkey(k, pool(c).VerifyPubKeys, old(has(pool(c).VerifyPubKeys, k)) || exists(j, 0, len(evarg("verifylist", 0, "r")), evarg("verifylist", 0, "r")[j] == k))
  ensures count("GetVerifyKeys") == 1 ==> forallkey(k, pool(c).VerifyPubKeys, old(has(pool(c).VerifyPubKeys, k)) || exists(j, 0, len(evarg("GetVerifyKeys", 0, "r")), evarg("GetVerifyKeys", 0, "r")[j] == k))
  ensures c.online && evarg("verifylist", 0, "err") != nil ==> err == ErrRetry && c.LastError != nil

func (*Client).GoOnline(c)
  prop S02
  callbacks readonly
  requires wfCli(c) && c.walletStore != nil && TrustRoot != nil && keylookup.DefaultClientFactory != nil
  modifies c.LastError, c.online, elems(c.packetClient.Keypool.VerifyPubKeys)
  ensures c.online && count("getverifykeys") == 1 && evarg("getverifykeys", 0, "c") == c

# ---- the plain calls of the store

func (*Client).LockToken(c, tokenHash) (r)
  prop S06
  inline
  requires c.walletStore != nil
  ensures count("LockToken") == 1 && evarg("LockToken", 0, "s") == c.walletStore && evarg("LockToken", 0, "hash") == tokenHash && r == evarg("LockToken", 0, "r")

func (*Client).UnlockToken(c, tokenHash)
  prop S06
  inline
  requires c.walletStore != nil
  ensures count("UnlockToken") == 1 && evarg("UnlockToken", 0, "s") == c.walletStore && evarg("UnlockToken", 0, "hash") == tokenHash

func (*Client).DelToken(c, tokenHash)
  prop S06
  inline
  requires c.walletStore != nil
  ensures count("DelToken") == 1 && evarg("DelToken", 0, "s") == c.walletStore && evarg("DelToken", 0, "hash") == tokenHash

iface (client.WalletStore).GetBalanceOwn(s, usage) (r)
  why wallet storage: any outcome
  event GetBalanceOwn

iface (client.WalletStore).GetBalance(s, usage, owner) (r)
  why wallet storage: any outcome
  event GetBalance

func (*Client).GetBalanceOwn(c, usage) (r)
  prop S06
  inline
  requires c.walletStore != nil
  ensures count("GetBalanceOwn") == 1 && evarg("GetBalanceOwn", 0, "s") == c.walletStore && evarg("GetBalanceOwn", 0, "usage") == usage && r == evarg("GetBalanceOwn", 0, "r")

func (*Client).GetBalance(c, usage, owner) (r)
  prop S06
  inline
  requires c.walletStore != nil
  ensures count("GetBalance") == 1 && evarg("GetBalance", 0, "s") == c.walletStore && evarg("GetBalance", 0, "usage") == usage && (evarg("GetBalance", 0, "owner") == nil) == (owner == nil) && imp(owner != nil, bytes(evarg("GetBalance", 0, "owner")) == bytes(owner)) && r == evarg("GetBalance", 0, "r")
