# the client of the key lookup server

package keylookup mute/serviceguard/client/keylookup
package mute/serviceguard/client/keylookup

logic splitn(Bytes, Bytes) Int
logic splitat(Bytes, Bytes, Int) Bytes
extern strings.Split(s, sep) (r)
  why standard library: any parts, but the same ones for the same text
  event split
  fresh r
  ensures len(r) == splitn(s, sep) && len(r) >= 1 && forall(i, 0, len(r), r[i] == splitat(s, sep, i))
  ensures len(sep) > 0 ==> forall(i, 0, len(r), splitn(r[i], sep) == 1)

extern strings.TrimSpace(s) (r)
  why standard library: any string

func New(keyPool, cacert, pubKey) (r)
  prop S04
  fresh r
  ensures r != nil && r.KeyPool == keyPool && r.ServiceGuardCA == cacert && r.PubKey == pubKey && r.ClientFactory == DefaultClientFactory

func (LookupClient).GetKey(klc, keyid) (r, err)
  prop S04
  callbacks readonly
  requires klc.ClientFactory != nil && keyid != nil
  post m = decPK(rdec(evarg("rpc", 0, "r"), "Key"))
  ensures err == nil ==> count("rpc") == 1 && evarg("rpc", 0, "err") == nil && rok(evarg("rpc", 0, "r"), "Key")
  ensures err == nil ==> evarg("rpc", 0, "method") == "PublicService.LookupKey" && unbox(evarg("rpc", 0, "args")).KeyID == hexenc(bytes(keyid))
  ensures err == nil ==> r != nil && wfPK(r)
  ensures[key] err == nil ==> bytes(r.KeyID) == bytes(keyid)
  ensures err == nil ==> bigbytes(r.PublicKey.X) == bigbytes(bigof(bytes(m.PublicKeyX))) && bigbytes(r.PublicKey.Y) == bigbytes(bigof(bytes(m.PublicKeyY)))
  ensures err == nil ==> r.Expire == m.Expire && r.Usage == m.Usage && bytes(r.Signer) == over(bytes(m.Signer), zeros(32)) && bytes(r.Signature) == over(bytes(m.Signature), zeros(64))
  ensures err != nil ==> r == nil

func (LookupClient).GetVerifyList(klc) (r, err)
  event verifylist
  prop S04
  callbacks readonly
  requires klc.ClientFactory != nil && klc.PubKey != nil
  loop 0: len(keylistRet) == iter && forall(j, 0, iter, bytes(keylistRet[j]) == over(hexdec(keylistSlice[j]), zeros(32)))
  post m = evarg("rpc", 0, "r")
  ensures err == nil ==> count("rpc") == 1 && evarg("rpc", 0, "err") == nil && rstr(m, "KeyList") && rstr(m, "Signature")
  # the list is signed by the key expected
  ensures err == nil ==> hexok(unbox(m["Signature"], "string")) && edverify(bytes(klc.PubKey), unbox(m["KeyList"], "string"), hexdec(unbox(m["Signature"], "string")))
  # and holds exactly the keys of the list
  ensures err == nil ==> count("split") == 1 && evarg("split", 0, "s") == unbox(m["KeyList"], "string") && evarg("split", 0, "sep") == ", "
  ensures err == nil ==> len(r) == len(evarg("split", 0, "r")) && forall(i, 0, len(r), bytes(r[i]) == over(hexdec(evarg("split", 0, "r")[i]), zeros(32)))
  ensures err != nil ==> r == nil
