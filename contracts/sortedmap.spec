package mute/configclient/sortedmap

def lb(s) = cat(be(8, len(s)), s)
# image of a configuration: the hash over its entries in order and their total length
def smbuf(so) = fold(j, len(so), cat(lb(so[j].K), lb(so[j].V)))
def image(so) = sha512(cat(smbuf(so), be(8, len(smbuf(so)))))

func lenByte(d) (r)
  prop K01
  fresh r
  ensures bytes(r) == lb(d)

func (SortedMap).Len(so) (r)
  prop K01
  ensures r == len(so)

func (SortedMap).Less(so, i, j) (r)
  prop K01
  requires 0 <= i && i < len(so) && 0 <= j && j < len(so)
  ensures r == (so[i].K < so[j].K)

func (SortedMap).Swap(so, i, j) ()
  prop K01
  requires 0 <= i && i < len(so) && 0 <= j && j < len(so)
  modifies elems(so)
  ensures so[i].K == old(so[j].K) && so[i].V == old(so[j].V) && so[j].K == old(so[i].K) && so[j].V == old(so[i].V)
  ensures forall(k, 0, len(so), k == i || k == j || so[k].K == old(so[k].K) && so[k].V == old(so[k].V))

# strictly ascending keys, exactly the entries of the map
def listing(r, m) = forall(a, 0, len(r), forall(b, a + 1, len(r), r[a].K < r[b].K)) && forall(a, 0, len(r), has(m, r[a].K) && m[r[a].K] == r[a].V) && forallkey(k, m, exists(a, 0, len(r), r[a].K == k))

func (StringMap).Sort(sm) (r)
  prop K01
  fresh r
  loop 0: i == rangepos() && len(r) == len(sm)
  loop 0: forall(a, 0, i, seen(r[a].K) && has(sm, r[a].K) && sm[r[a].K] == r[a].V)
  loop 0: forall(a, 0, i, forall(b, 0, i, a == b || r[a].K != r[b].K))
  loop 0: forallkey(k, sm, imp(seen(k), exists(a, 0, i, r[a].K == k)))
  ensures len(r) == len(sm)
  ensures listing(r, sm)

func (SortedMap).Image(so) (r)
  prop K01
  fresh r
  loop 0: pending(h) == fold(j, iter, cat(lb(so[j].K), lb(so[j].V)))
  loop 0: length == len(fold(j, iter, cat(lb(so[j].K), lb(so[j].V))))
  ensures bytes(r) == image(so)

func (SortedMap).Sign(so, signdate, privKey) (r)
  prop K01
  event Sign
  fresh r
  requires privKey != nil
  ensures bytes(r) == edsign(bytes(privKey), cat(image(so), be(8, signdate)))

func (SortedMap).Verify(so, signdate, publicKey, signature) (r)
  prop K01
  event Verify
  ensures r == (len(publicKey) == 32 && edverify(bytes(publicKey), cat(image(so), be(8, signdate)), bytes(signature)))

func diff(a, b) (r)
  prop K01
  ensures r == ite(a > b, a - b, b - a)

func Unmarshal(d) (r, err)
  prop K01
  fresh r
  ensures (err == nil) == jsonok("SignedMap", d)
  ensures err == nil ==> r != nil && r.SignDate == unjson("SignedMap", d).SignDate && bytes(r.Signature) == bytes(unjson("SignedMap", d).Signature)
  ensures err == nil ==> forallkey(k, r.Config, has(unjson("SignedMap", d).Config, k) && unjson("SignedMap", d).Config[k] == r.Config[k])
  ensures err == nil ==> forallkey(k, unjson("SignedMap", d).Config, has(r.Config, k))

func Certify(lastSignDate, publicKey, cert) (r, err)
  prop K01
  event Certify
  fresh r
  let c = unjson("SignedMap", cert)
  ensures err == nil ==> r != nil && jsonok("SignedMap", cert) && r.SignDate == c.SignDate
  ensures err == nil ==> forallkey(k, r.Config, has(c.Config, k) && c.Config[k] == r.Config[k])
  ensures err == nil ==> forallkey(k, c.Config, has(r.Config, k))
  ensures err == nil ==> c.SignDate >= lastSignDate
  ensures err == nil ==> count("now") == 1
  ensures err == nil ==> c.SignDate - evarg("now", 0, "t") <= 14400 && evarg("now", 0, "t") - c.SignDate <= 14400
  ensures err == nil ==> count("Verify") == 1 && evarg("Verify", 0, "r") == true
  ensures err == nil ==> evarg("Verify", 0, "signdate") == c.SignDate && bytes(evarg("Verify", 0, "publicKey")) == bytes(publicKey) && bytes(evarg("Verify", 0, "signature")) == bytes(c.Signature)
  ensures err == nil ==> listing(evarg("Verify", 0, "so"), c.Config)
  ensures err != nil ==> r == nil
  ensures jsonok("SignedMap", cert) && c.SignDate >= lastSignDate ==> count("now") == 1
  ensures count("now") == 1 && c.SignDate - evarg("now", 0, "t") <= 14400 && evarg("now", 0, "t") - c.SignDate <= 14400 ==> count("Verify") == 1
  ensures count("Verify") == 1 && evarg("Verify", 0, "r") ==> err == nil

func (*SignedMap).Marshal(sm) (r, err)
  prop K01
  event Marshal
  fresh r
  requires sm != nil
  ensures err == nil ==> bytes(r) == json(sm)

func (StringMap).GenerateCertificate(sm, privKey) (r, err)
  prop K01
  fresh r
  requires privKey != nil
  ensures err == nil ==> count("now") == 1 && count("Sign") == 1 && evarg("Sign", 0, "signdate") == evarg("now", 0, "t") && listing(evarg("Sign", 0, "so"), sm)
  ensures err == nil ==> bytes(evarg("Sign", 0, "privKey")) == bytes(privKey)
  post sg = evarg("Marshal", 0, "sm")
  ensures err == nil ==> count("Marshal") == 1 && bytes(r) == json(sg) && sg.SignDate == evarg("now", 0, "t") && bytes(sg.Signature) == evarg("Sign", 0, "r") && sg.Config == sm
