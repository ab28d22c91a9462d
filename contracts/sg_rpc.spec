# the clients of the servers of the service guard: a reply is used as it is, or is an error

package jsonclient mute/util/jsonclient
package guardrpc mute/serviceguard/client/guardrpc

extern net/url.Parse(s) (u, err)
  why standard library: any URL
  event parseurl
  fresh u
  ensures (u != nil) == (err == nil)

extern (*net/url.URL).String(u) (r)
  why standard library: any string
  event urlstring

package constants mute/serviceguard/common/constants
package mute/serviceguard/client/guardrpc

# the call went to the server of the service guard pub, authenticated by the given CA
def atGuard(rpc, pub, host, path) = count("urlstring") == 1 && evlast("urlstring", 0, "u").Host == cat(sub(hexenc(bytes(pub)), 0, 48), host, rpc.URL.Host) && evlast("urlstring", 0, "u").Path == cat(rpc.URL.Path, path, hexenc(bytes(pub))) && evlast("urlstring", 0, "u").Scheme == rpc.URL.Scheme
def toGuard(rpc, pub, host, path) = atGuard(rpc, pub, host, path) && count("funcvalue") == 1 && evlast("funcvalue", 0, "a0") == evlast("urlstring", 0, "r") && evlast("funcvalue", 0, "a1") == rpc.ServiceGuardCA && evlast("rpc", 0, "c") == evlast("funcvalue", 0, "r0")

func (RPCclient).pubKeyToURL(rpc, pubKey, internal) (r)
  prop S05
  inline
  requires rpc.URL != nil && pubKey != nil
  ensures r == evlast("urlstring", 0, "r")
  ensures atGuard(rpc, pubKey, ite(internal, constants.IssuerInternalHost, ""), ite(internal, constants.IssuerInternalPathAddition, ""))

# field k of the reply is a string that decodes
def rstr(m, k) = has(m, k) && isbox(m[k], "string")
def rdec(m, k) = b64dec(unbox(m[k], "string"))
def rok(m, k) = rstr(m, k) && b64ok(unbox(m[k], "string"))

func New(cacert) (r, err)
  prop S05
  fresh r
  ensures err == nil ==> r != nil && r.URL != nil && r.ServiceGuardCA == cacert && r.ClientFactory == DefaultClientFactory
  ensures err != nil ==> r == nil

func (RPCclient).GetParams(rpc, pubKey) (r, err)
  prop S05
  callbacks readonly
  requires rpc.URL != nil && rpc.ClientFactory != nil && pubKey != nil
  ensures err == nil ==> count("rpc") == 1 && evarg("rpc", 0, "err") == nil && rok(evarg("rpc", 0, "r"), "Packet") && bytes(r) == rdec(evarg("rpc", 0, "r"), "Packet")
  ensures err == nil ==> toGuard(rpc, pubKey, "", "") && evarg("rpc", 0, "method") == "ServiceGuard.GetParams"
  ensures err != nil ==> r == nil

func (RPCclient).Spend(rpc, pubKey, packet) (r, err)
  prop S05
  callbacks readonly
  requires rpc.URL != nil && rpc.ClientFactory != nil && pubKey != nil
  ensures err == nil ==> count("rpc") == 1 && evarg("rpc", 0, "err") == nil && isbox(evarg("rpc", 0, "r")["Status"], "bool") && r == unbox(evarg("rpc", 0, "r")["Status"], "bool")
  ensures err == nil ==> toGuard(rpc, pubKey, "", "") && evarg("rpc", 0, "method") == "ServiceGuard.Spend" && unbox(evarg("rpc", 0, "args")).Packet == b64enc(bytes(packet))
  ensures err != nil ==> !r

func (RPCclient).Reissue(rpc, pubKey, packet) (r, key, err)
  event guardReissue
  prop S05
  callbacks readonly
  requires rpc.URL != nil && rpc.ClientFactory != nil && pubKey != nil
  ensures err == nil ==> count("rpc") == 1 && evarg("rpc", 0, "err") == nil && rok(evarg("rpc", 0, "r"), "Packet") && bytes(r) == rdec(evarg("rpc", 0, "r"), "Packet")
  ensures err == nil ==> rok(evarg("rpc", 0, "r"), "PubkeyUsed") && bytes(key) == rdec(evarg("rpc", 0, "r"), "PubkeyUsed")
  ensures err == nil ==> toGuard(rpc, pubKey, "", "") && evarg("rpc", 0, "method") == "ServiceGuard.Reissue" && unbox(evarg("rpc", 0, "args")).Packet == b64enc(bytes(packet))
  ensures err != nil ==> r == nil && key == nil

# the calls of the internal server carry the login of the caller
func (RPCclient).GetParamsInternal(rpc, pubKey) (r, err)
  prop S05
  callbacks readonly
  requires rpc.URL != nil && rpc.ClientFactory != nil && pubKey != nil
  ensures err == nil ==> count("rpc") == 1 && evarg("rpc", 0, "err") == nil && rok(evarg("rpc", 0, "r"), "Packet") && bytes(r) == rdec(evarg("rpc", 0, "r"), "Packet")
  ensures err == nil ==> toGuard(rpc, pubKey, constants.IssuerInternalHost, constants.IssuerInternalPathAddition) && evarg("rpc", 0, "method") == "ServiceGuardInternal.GetParams"
  ensures err == nil ==> unbox(evarg("rpc", 0, "args")).AuthUser == rpc.AuthUser && unbox(evarg("rpc", 0, "args")).AuthPass == rpc.AuthPass
  ensures err != nil ==> r == nil

func (RPCclient).Issue(rpc, pubKey, owner) (r, key, err)
  prop S05
  callbacks readonly
  requires rpc.URL != nil && rpc.ClientFactory != nil && pubKey != nil
  ensures err == nil ==> count("rpc") == 1 && evarg("rpc", 0, "err") == nil && rok(evarg("rpc", 0, "r"), "Packet") && bytes(r) == rdec(evarg("rpc", 0, "r"), "Packet")
  ensures err == nil ==> rok(evarg("rpc", 0, "r"), "PubkeyUsed") && bytes(key) == rdec(evarg("rpc", 0, "r"), "PubkeyUsed")
  ensures err == nil ==> toGuard(rpc, pubKey, constants.IssuerInternalHost, constants.IssuerInternalPathAddition) && evarg("rpc", 0, "method") == "ServiceGuardInternal.Issue"
  ensures err == nil ==> unbox(evarg("rpc", 0, "args")).Owner == ite(owner == nil, "", hexenc(bytes(owner))) && unbox(evarg("rpc", 0, "args")).AuthUser == rpc.AuthUser && unbox(evarg("rpc", 0, "args")).AuthPass == rpc.AuthPass
  ensures err != nil ==> r == nil && key == nil
