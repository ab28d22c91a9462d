package mute/mix/mixaddr

# what the signature of a list covers
def addrImage(a) = cat(bytes(a.Pubkey), be(8, a.Expire % 18446744073709551616), a.Address, bytes(a.TokenKey))
def listImage(l) = fold(j, len(l), addrImage(l[j]))
def listHash(l) = sha256(listImage(l))

func (Address).image(adr) (r)
  prop A01
  fresh r
  ensures bytes(r) == addrImage(adr)

func (AddressList).hash(adl) (r)
  prop A01
  fresh r
  loop 0: pending(hasher) == fold(j, iter, addrImage(adl[j]))
  ensures bytes(r) == listHash(adl)

func (AddressList).Sign(adl, privateKey) (r)
  prop A01
  fresh r
  requires privateKey != nil
  ensures bytes(r) == edsign(bytes(privateKey), listHash(adl))

func (AddressList).Verify(adl, publicKey, signature) (ok)
  prop A01
  requires publicKey != nil && signature != nil
  ensures ok == edverify(bytes(publicKey), listHash(adl), bytes(signature))

func (AddressStatement).Verify(stmt) (ok)
  prop A01
  ensures ok == edverify(over(bytes(stmt.PublicKey), zeros(32)), listHash(stmt.Addresses), over(bytes(stmt.Signature), zeros(64)))

func (AddressList).Statement(adl, privateKey) (s)
  prop A01
  requires privateKey != nil
  ensures len(s.Addresses) == len(adl) && forall(i, 0, len(adl), s.Addresses[i] == adl[i]) && bytes(s.PublicKey) == sub(bytes(privateKey), 32, 64) && bytes(s.Signature) == edsign(bytes(privateKey), listHash(s.Addresses))

# only addresses that expire later, and all of them
func (AddressList).Expire(adl, now) (r)
  event expirelist
  prop A01
  fresh r
  post t = ite(old(now) == 0, evlast("now", 0, "t"), old(now))
  loop 0: forall(k, 0, len(nadl), nadl[k].Expire > now && exists(i, 0, iter, adl[i] == nadl[k]))
  loop 0: forall(i, 0, iter, imp(adl[i].Expire > now, exists(k, 0, len(nadl), adl[i] == nadl[k])))
  ensures forall(k, 0, len(r), exists(i, 0, len(adl), adl[i] == r[k]))
  ensures old(now) != 0 ==> forall(k, 0, len(r), r[k].Expire > old(now))
  ensures forall(k, 0, len(r), r[k].Expire > t)
  ensures forall(i, 0, len(adl), imp(adl[i].Expire > t, exists(k, 0, len(r), adl[i] == r[k])))

func (AddressList).Append(adl, adr) (r)
  prop A01
  let a0 = adl
  post t = evlast("now", 0, "t")
  loop 0: len(adl) >= len(a0) && forall(k, 0, len(a0), adl[k] == a0[k])
  loop 0: forall(k, len(a0), len(adl), adl[k].Expire > now && exists(i, 0, iter, adr[i] == adl[k]))
  loop 0: forall(i, 0, iter, imp(adr[i].Expire > now, exists(k, len(a0), len(adl), adr[i] == adl[k])))
  ensures len(r) >= len(adl) && forall(k, 0, len(adl), r[k] == adl[k])
  ensures forall(k, len(adl), len(r), r[k].Expire > t)
  ensures forall(k, len(adl), len(r), exists(i, 0, len(adr), adr[i] == r[k]))
  ensures forall(i, 0, len(adr), imp(adr[i].Expire > t, exists(k, len(adl), len(r), adr[i] == r[k])))

func (AddressList).AddStatement(adl, stmt) (r)
  prop A01
  let good = edverify(over(bytes(stmt.PublicKey), zeros(32)), listHash(stmt.Addresses), over(bytes(stmt.Signature), zeros(64)))
  ensures !good ==> len(r) == len(adl)
  ensures len(r) >= len(adl) && forall(k, 0, len(adl), r[k] == adl[k])
  ensures forall(k, len(adl), len(r), exists(i, 0, len(stmt.Addresses), stmt.Addresses[i] == r[k]))

extern math/rand.Int31() (r)
  why documented range
  ensures 0 <= r && r < 2147483648

extern math/rand.Seed(seed)
  why changes nothing but the state of the generator

func (AddressList).Rand(adl) (r)
  event randaddr
  prop A01
  ensures (r == nil) == (len(adl) == 0)
  ensures len(adl) > 0 ==> exists(i, 0, len(adl), *r == adl[i])

def wfKeys(m) = forallkey(k, m, bytes(m[k].Pubkey) == bytes(k) && len(m[k].Privkey) == 32 && dhpub(bytes(m[k].Privkey)) == bytes(k))
def sameEntry(a, e) = a.Expire == e.Expire && a.Address == e.Address && bytes(a.TokenKey) == bytes(e.TokenKey)

func (*KeyList).GetPrivateKey(kl, pubkey) (r)
  prop A01
  fresh r
  requires pubkey != nil
  ensures (r != nil) == (has(kl.Keys, *pubkey) && kl.Keys[*pubkey].Expire >= evlast("now", 0, "t"))
  ensures r != nil ==> bytes(r) == over(bytes(kl.Keys[*pubkey].Privkey), zeros(32))

func (*KeyList).GetKeyEntry(kl, pubkey) (r)
  prop A01
  fresh r
  requires pubkey != nil
  ensures (r != nil) == (has(kl.Keys, *pubkey) && kl.Keys[*pubkey].Expire >= evlast("now", 0, "t"))
  ensures r != nil ==> *r == kl.Keys[*pubkey]

func (*KeyList).expire(kl)
  prop A01
  requires kl.Keys != nil
  modifies elems(kl.Keys)
  post t = evlast("now", 0, "t")
  loop 0: forallkey(k, kl.Keys, imp(seen(k) && kl.Keys[k].Expire < now, exists(j, 0, len(expired), expired[j] == k)))
  loop 0: forall(j, 0, len(expired), has(kl.Keys, expired[j]) && kl.Keys[expired[j]].Expire < now)
  loop 1: forallkey(k, old(kl.Keys), has(kl.Keys, k) || old(kl.Keys[k].Expire) < now)
  loop 1: forallkey(k, kl.Keys, old(has(kl.Keys, k)))
  loop 1: forallkey(k, kl.Keys, kl.Keys[k] == old(kl.Keys[k]))
  loop 1: forall(j, 0, iter, !has(kl.Keys, expired[j]))
  ensures forallkey(k, kl.Keys, old(has(kl.Keys, k)))
  ensures forallkey(k, kl.Keys, kl.Keys[k] == old(kl.Keys[k]))
  ensures forallkey(k, kl.Keys, kl.Keys[k].Expire >= t)
  ensures forallkey(k, old(kl.Keys), old(kl.Keys[k].Expire) < t || has(kl.Keys, k))

func genKey() (pub, priv, err)
  prop A01
  fresh pub priv
  ensures err == nil ==> pub != nil && priv != nil && bytes(pub) == dhpub(bytes(priv)) && evlast("read", 0, "r") == Rand && evlast("read", 0, "data") == bytes(priv)
  ensures err != nil ==> pub == nil && priv == nil

func (*KeyList).updateStatement(kl)
  prop A01
  requires kl.PrivateKey != nil
  requires forallkey(k, kl.Keys, bytes(kl.Keys[k].Pubkey) == bytes(k))
  modifies kl.statement
  loop 0: forall(i, 0, len(al), has(kl.Keys, bytes(al[i].Pubkey)) && al[i].Expire == kl.Keys[bytes(al[i].Pubkey)].Expire && al[i].Address == kl.Keys[bytes(al[i].Pubkey)].Address && bytes(al[i].TokenKey) == bytes(kl.Keys[bytes(al[i].Pubkey)].TokenKey))
  loop 0: forallkey(k, kl.Keys, imp(seen(k), exists(i, 0, len(al), bytes(al[i].Pubkey) == bytes(k))))
  ensures kl.statement != nil && bytes(kl.statement.PublicKey) == sub(bytes(kl.PrivateKey), 32, 64)
  ensures bytes(kl.statement.Signature) == edsign(bytes(kl.PrivateKey), listHash(kl.statement.Addresses))
  ensures forallkey(k, kl.Keys, exists(i, 0, len(kl.statement.Addresses), bytes(kl.statement.Addresses[i].Pubkey) == bytes(k)))
  ensures forall(i, 0, len(kl.statement.Addresses), has(kl.Keys, bytes(kl.statement.Addresses[i].Pubkey)) && sameEntry(kl.statement.Addresses[i], kl.Keys[bytes(kl.statement.Addresses[i].Pubkey)]))

func (*KeyList).GetStatement(kl) (r)
  prop A01
  ensures r == old(kl.statement)

func (*KeyList).Expire(kl)
  prop A01
  requires kl.Keys != nil && kl.mutex != nil
  modifies elems(kl.Keys)
  ensures forallkey(k, kl.Keys, old(has(kl.Keys, k)))
  ensures forallkey(k, kl.Keys, kl.Keys[k] == old(kl.Keys[k]))

func (*KeyList).AddKey(kl)
  prop A01
  requires kl.Keys != nil && kl.mutex != nil && kl.PrivateKey != nil && kl.PublicKey != nil
  requires forallkey(k, kl.Keys, bytes(kl.Keys[k].Pubkey) == bytes(k))
  modifies elems(kl.Keys), kl.statement
  maypanic
  ensures kl.statement != nil && bytes(kl.statement.PublicKey) == sub(bytes(kl.PrivateKey), 32, 64)
  ensures bytes(kl.statement.Signature) == edsign(bytes(kl.PrivateKey), listHash(kl.statement.Addresses))
  ensures forallkey(k, kl.Keys, exists(i, 0, len(kl.statement.Addresses), bytes(kl.statement.Addresses[i].Pubkey) == bytes(k)))
  ensures forall(i, 0, len(kl.statement.Addresses), has(kl.Keys, bytes(kl.statement.Addresses[i].Pubkey)) && sameEntry(kl.statement.Addresses[i], kl.Keys[bytes(kl.statement.Addresses[i].Pubkey)]))
  ensures forallkey(k, old(kl.Keys), has(kl.Keys, k))

func (*KeyList).GetBoundaryTime(kl) (first, last)
  prop A01
  requires forallkey(k, kl.Keys, kl.Keys[k].Expire > 0)
  loop 0: first >= 0 && last >= 0
  loop 0: forallkey(k, kl.Keys, imp(seen(k), first <= kl.Keys[k].Expire && kl.Keys[k].Expire <= last && first > 0))
  ensures forallkey(k, kl.Keys, first <= kl.Keys[k].Expire && kl.Keys[k].Expire <= last)

extern io/ioutil.WriteFile(name, data, perm) (err)
  why does not write to the caller's memory
