package mute/serviceguard/common/keypool
package signkeys mute/serviceguard/common/signkeys

# every key of the pool is stored under its own ID, and that ID is signed by its signer
def poolKey(kp, k) = imp(has(kp.keys, k), kp.keys[k] != nil && wfPK(kp.keys[k]) && bytes(kp.keys[k].KeyID) == bytes(k) && pkID(kp.keys[k]) == bytes(k) && edverify(bytes(kp.keys[k].Signer), bytes(k), bytes(kp.keys[k].Signature)))
def wfPool(kp) = kp.keys != nil && kp.VerifyPubKeys != nil && kp.mapMutex != nil && kp.Generator != nil && forallkey(k, kp.keys, poolKey(kp, k))
# what makes a key acceptable
def keyGood(kp, pk) = bytes(pk.KeyID) == pkID(pk) && edverify(bytes(pk.Signer), bytes(pk.KeyID), bytes(pk.Signature))

func New(generator) (kp)
  prop S02
  ensures kp != nil && kp.Generator == generator && kp.keys != nil && kp.VerifyPubKeys != nil && kp.mapMutex != nil
  ensures forallkey(k, kp.keys, false) && forallkey(k, kp.VerifyPubKeys, false)
  ensures kp.FetchKeyCallBack == nil && kp.WriteKeyCallback == nil && kp.LoadKeysCallback == nil && kp.currentKey == nil && kp.previousKey == nil

func (*KeyPool).AddVerifyKey(kp, key)
  prop S02
  modifies elems(kp.VerifyPubKeys)
  requires kp.VerifyPubKeys != nil && key != nil && kp.mapMutex != nil
  ensures has(kp.VerifyPubKeys, *key)
  ensures forallkey(k, old(kp.VerifyPubKeys), has(kp.VerifyPubKeys, k))
  ensures forallkey(k, kp.VerifyPubKeys, k == *key || old(has(kp.VerifyPubKeys, k)))

func (*KeyPool).HasVerifyKey(kp, key, nolock) (r)
  prop S02
  requires key != nil && kp.mapMutex != nil
  ensures r == has(kp.VerifyPubKeys, *key)

func (*KeyPool).lookup(kp, keyid) (r, err)
  prop S02
  inline
  requires wfPool(kp)
  ensures err == nil ==> has(kp.keys, keyid) && r == kp.keys[keyid] && bytes(r.KeyID) == bytes(keyid) && r.Expire > evlast("now", 0, "t")
  ensures err != nil ==> r == nil && (!has(kp.keys, keyid) || kp.keys[keyid].Expire <= evlast("now", 0, "t"))

func (*KeyPool).loadKey(kp, loadKey) (id, err)
  prop S02
  inline
  modifies elems(kp.keys)
  requires wfPool(kp) && loadKey != nil && wfPK(loadKey)
  ensures err == nil ==> has(kp.keys, loadKey.KeyID) && kp.keys[loadKey.KeyID] == loadKey && !old(has(kp.keys, loadKey.KeyID))
  ensures err == nil || err == ErrExists ==> id != nil && bytes(id) == bytes(loadKey.KeyID) && keyGood(kp, loadKey) && has(kp.VerifyPubKeys, loadKey.Signer) && (kp.Generator.Usage == "" || loadKey.Usage == kp.Generator.Usage)
  ensures err == nil || err == ErrExists ==> loadKey.Expire >= evlast("now", 0, "t")
  ensures err != nil && err != ErrExists ==> id == nil
  ensures forallkey(k, old(kp.keys), has(kp.keys, k) && kp.keys[k] == old(kp.keys[k]))
  ensures forallkey(k, kp.keys, old(has(kp.keys, k)) || err == nil && k == loadKey.KeyID)
  ensures wfPool(kp)

func (*KeyPool).LoadKey(kp, loadKey) (id, err)
  prop S02
  modifies elems(kp.keys)
  requires wfPool(kp) && loadKey != nil && wfPK(loadKey)
  ensures err == nil ==> has(kp.keys, loadKey.KeyID) && kp.keys[loadKey.KeyID] == loadKey && !old(has(kp.keys, loadKey.KeyID))
  ensures err == nil || err == ErrExists ==> id != nil && bytes(id) == bytes(loadKey.KeyID) && keyGood(kp, loadKey) && has(kp.VerifyPubKeys, loadKey.Signer) && (kp.Generator.Usage == "" || loadKey.Usage == kp.Generator.Usage)
  ensures err != nil && err != ErrExists ==> id == nil
  ensures forallkey(k, old(kp.keys), has(kp.keys, k) && kp.keys[k] == old(kp.keys[k]))
  ensures forallkey(k, kp.keys, old(has(kp.keys, k)) || err == nil && k == loadKey.KeyID)
  ensures wfPool(kp)

func (*KeyPool).LoadKeyUnsafe(kp, loadKey) (id, err)
  prop S02
  modifies elems(kp.keys)
  requires wfPool(kp) && loadKey != nil && wfPK(loadKey)
  ensures err == nil || err == ErrExists ==> id != nil && bytes(id) == bytes(loadKey.KeyID) && keyGood(kp, loadKey) && has(kp.VerifyPubKeys, loadKey.Signer) && (kp.Generator.Usage == "" || loadKey.Usage == kp.Generator.Usage)
  ensures forallkey(k, old(kp.keys), has(kp.keys, k) && kp.keys[k] == old(kp.keys[k]))
  ensures wfPool(kp)

func (*KeyPool).Lookup(kp, keyid) (r, err)
  prop S02
  callbacks readonly
  modifies elems(kp.keys)
  requires wfPool(kp)
  ensures err == nil ==> r != nil && wfPK(r) && bytes(r.KeyID) == bytes(keyid) && keyGood(kp, r)
  ensures err == nil ==> has(kp.keys, keyid) && kp.keys[keyid] == r
  ensures err == nil ==> r.Expire >= evlast("now", 0, "t")
  ensures err == nil && !old(has(kp.keys, keyid)) ==> has(kp.VerifyPubKeys, r.Signer) && (kp.Generator.Usage == "" || r.Usage == kp.Generator.Usage)
  ensures err == nil && old(has(kp.keys, keyid)) ==> r == old(kp.keys[keyid])
  ensures err != nil ==> r == nil
  ensures err == ErrNotFound ==> !old(has(kp.keys, keyid))
  ensures forallkey(k, old(kp.keys), has(kp.keys, k) && kp.keys[k] == old(kp.keys[k]))
  ensures wfPool(kp)

# the generator signs with its own key
def wfGen(kg) = kg.Curve != nil && kg.PublicKey != nil && imp(kg.PrivateKey != nil, edpub(bytes(kg.PrivateKey)) == bytes(kg.PublicKey))
def wfPair(k) = imp(k != nil, wfPK(k.PublicKey))

func (*KeyPool).Current(kp) (cur, prev, err)
  prop S02
  callbacks readonly
  modifies elems(kp.keys), kp.currentKey, kp.previousKey
  requires wfPool(kp) && wfGen(kp.Generator) && wfPair(kp.currentKey) && wfPair(kp.previousKey)
  ensures kp.Generator.PrivateKey == nil ==> err == ErrNoGenerator
  ensures err == nil ==> cur != nil && cur == kp.currentKey && prev == kp.previousKey
  ensures err == nil && cur != old(kp.currentKey) ==> prev == ite(old(kp.currentKey) == nil, old(kp.previousKey), old(kp.currentKey))
  ensures err == nil && cur != old(kp.currentKey) ==> bytes(cur.PublicKey.KeyID) == pkID(cur.PublicKey) && bytes(cur.PublicKey.Signature) == edsign(bytes(kp.Generator.PrivateKey), bytes(cur.PublicKey.KeyID)) && cur.PublicKey.Usage == kp.Generator.Usage && bytes(cur.PublicKey.Signer) == bytes(kp.Generator.PublicKey)
  ensures err == nil && cur != old(kp.currentKey) ==> has(kp.keys, cur.PublicKey.KeyID) && kp.keys[cur.PublicKey.KeyID] == &cur.PublicKey
  ensures err != nil ==> cur == nil && prev == nil && kp.currentKey == old(kp.currentKey) && kp.previousKey == old(kp.previousKey)
  ensures forallkey(k, kp.keys, old(has(kp.keys, k)) || k == cur.PublicKey.KeyID || err != nil)
  ensures forallkey(k, kp.keys, old(has(kp.keys, k)) || err == nil)
  ensures err == nil && cur == old(kp.currentKey) && evlast("now", 0, "t") < 2305843009213693952 && 0 <= kp.Generator.ExpireTime && kp.Generator.ExpireTime < 2305843009213693952 ==> 2 * cur.PublicKey.Expire >= 2 * evlast("now", 0, "t") + kp.Generator.ExpireTime - 1
  ensures wfPair(kp.currentKey) && wfPair(kp.previousKey)

func (KeyPool).WriteKey(kp, key) (err)
  inline
  prop S02
  callbacks readonly
  requires key != nil && wfPK(key)
  ensures err == nil && kp.WriteKeyCallback != nil ==> count("funcvalue") == 1 && bytes(evarg("funcvalue", 0, "a0")) == bytes(key.KeyID) && evarg("funcvalue", 0, "a1") == key.Usage && evarg("funcvalue", 0, "r0") == nil

func (KeyPool).SaveKeyUnsafe(kp, keyid) (err)
  prop S02
  callbacks readonly
  requires wfPool(kp)
  ensures err == nil ==> has(kp.keys, keyid)
  ensures err == nil && kp.WriteKeyCallback != nil ==> count("funcvalue") == 1 && bytes(evarg("funcvalue", 0, "a0")) == bytes(keyid) && evarg("funcvalue", 0, "r0") == nil

func (KeyPool).SaveKey(kp, keyid) (err)
  prop S02
  callbacks readonly
  requires wfPool(kp)
  ensures err == nil ==> has(kp.keys, keyid)
