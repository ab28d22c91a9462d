# identities: localpart@domain

package identity mute/uid/identity
package mute/uid/identity

# the parts of an identity
def idok(s) = splitn(s, "@") == 2
def idlp(s) = splitat(s, "@", 0)
def iddom(s) = splitat(s, "@", 1)
# two texts without an "@" are the parts of an identity
axiom idparts (a Bytes, b Bytes) imp(splitn(a, "@") == 1 && splitn(b, "@") == 1, splitn(cat(a, "@", b), "@") == 2 && splitat(cat(a, "@", b), "@", 0) == a && splitat(cat(a, "@", b), "@", 1) == b)
logic lower(Bytes) Bytes
logic maplp(Bytes) Bytes

extern strings.ToLower(s) (r)
  why standard library: the same text for the same text
  ensures r == lower(s) && imp(splitn(s, "@") == 1, splitn(r, "@") == 1)

func Split(identity) (localpart, domain, err)
  prop V01
  ensures (err == nil) == idok(identity)
  ensures err == nil ==> localpart == idlp(identity) && domain == iddom(identity)
  ensures err == nil ==> splitn(localpart, "@") == 1 && splitn(domain, "@") == 1

func MapDomain(domain) (r)
  prop V01
  ensures r == lower(domain) && imp(splitn(domain, "@") == 1, splitn(r, "@") == 1)

extern mute/uid/identity.MapLocalpart(localpart) (r, err)
  why checked by the conformance run of V01 only
  ensures err == nil ==> r == maplp(localpart) && splitn(r, "@") == 1
  ensures err != nil ==> r == ""

func MapPlus(identity) (mappedID, mappedDomain, err)
  prop V01
  event mapid
  ensures err == nil ==> idok(identity) && mappedDomain == lower(iddom(identity)) && mappedID == cat(maplp(idlp(identity)), "@", mappedDomain)
  ensures err == nil ==> idok(mappedID) && iddom(mappedID) == mappedDomain

func Map(identity) (r, err)
  prop V01
  event mapone
  ensures err == nil ==> idok(identity) && r == cat(maplp(idlp(identity)), "@", lower(iddom(identity)))
  ensures err == nil ==> idok(r)

package mute/uid

func (*Message).Localpart(msg) (r)
  prop V01
  maypanic !idok(msg.UIDContent.IDENTITY)
  ensures r == idlp(msg.UIDContent.IDENTITY)

func (*Message).Domain(msg) (r)
  prop V01
  maypanic !idok(msg.UIDContent.IDENTITY)
  ensures r == iddom(msg.UIDContent.IDENTITY)
