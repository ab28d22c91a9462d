# the client of the wallet server

package walletrpc mute/serviceguard/client/walletrpc
package walletauth mute/serviceguard/common/walletauth
package mute/serviceguard/client/walletrpc

# the call went to the wallet server, authenticated by the given CA
def toWallet(wc) = evlast("funcvalue", 0, "a0") == walletrpc.ServiceURL && evlast("funcvalue", 0, "a1") == wc.ServiceGuardCA && evlast("rpc", 0, "c") == evlast("funcvalue", 0, "r0")

func New(pubKey, PrivKey, cacert) (r)
  prop S05
  fresh r
  ensures r != nil && r.PubKey == pubKey && r.PrivKey == PrivKey && r.ServiceGuardCA == cacert && r.ClientFactory == DefaultClientFactory && r.LastAuthToken == nil && r.LastAuthCounter == 0

func (WalletClient).getToken(wc, usage, authtoken) (token, params, pubKeyUsed, LastCounter, err)
  prop S05
  callbacks readonly
  inline
  requires wc.ClientFactory != nil
  post m = evarg("rpc", 0, "r")
  ensures err == nil ==> count("rpc") == 1 && evarg("rpc", 0, "err") == nil && rok(m, "Token") && rok(m, "Params") && rok(m, "PubKeyUsed")
  ensures err == nil ==> bytes(token) == rdec(m, "Token") && bytes(params) == rdec(m, "Params") && bytes(pubKeyUsed) == rdec(m, "PubKeyUsed")
  ensures err == nil ==> toWallet(wc) && evarg("rpc", 0, "method") == "WalletServer.GetToken" && unbox(evarg("rpc", 0, "args")).AuthToken == b64enc(bytes(authtoken)) && unbox(evarg("rpc", 0, "args")).Usage == usage
  ensures err != nil ==> token == nil && params == nil && pubKeyUsed == nil

func (*WalletClient).GetToken(wc, usage) (token, params, pubKeyUsed, err)
  event walletGet
  prop S05
  callbacks readonly
  requires wc.ClientFactory != nil && wc.PubKey != nil && wc.PrivKey != nil
  modifies wc.LastAuthCounter, wc.LastAuthToken
  loop 0: i <= 3 && 0 <= i
  post m = evlast("rpc", 0, "r")
  ensures err == nil ==> rok(m, "Token") && rok(m, "Params") && rok(m, "PubKeyUsed")
  ensures err == nil ==> bytes(token) == rdec(m, "Token") && bytes(params) == rdec(m, "Params") && bytes(pubKeyUsed) == rdec(m, "PubKeyUsed")
  ensures unbox(evlast("rpc", 0, "args")).Usage == usage && toWallet(wc) || err != nil
  ensures err == nil && old(wc.LastAuthToken) != nil ==> unbox(evlast("rpc", 0, "args")).AuthToken == b64enc(bytes(old(wc.LastAuthToken)))
  ensures err == nil ==> wc.LastAuthToken == old(wc.LastAuthToken)
  ensures old(wc.LastAuthToken) != nil && err != nil ==> wc.LastAuthToken == old(wc.LastAuthToken)
  ensures err != nil ==> token == nil && params == nil && pubKeyUsed == nil && wc.LastAuthToken != nil

# the balance is what the wallet server says, each number in its place
def wnum(m, k) = has(m, k) && isbox(m[k], "float64")

func (WalletClient).getBalance(wc, authtoken) (SubscriptionTokens, PrepayTokens, LastSubscribeLoad, LastCounter, err)
  prop S05
  callbacks readonly
  inline
  requires wc.ClientFactory != nil
  post m = evarg("rpc", 0, "r")
  ensures err == nil ==> count("rpc") == 1 && evarg("rpc", 0, "err") == nil && wnum(m, "SubscriptionTokens") && wnum(m, "PrepayTokens") && wnum(m, "LastSubscribeLoad")
  ensures err == nil ==> SubscriptionTokens == u64(unbox(m["SubscriptionTokens"], "float64")) && PrepayTokens == u64(unbox(m["PrepayTokens"], "float64")) && LastSubscribeLoad == u64(unbox(m["LastSubscribeLoad"], "float64"))
  ensures err == nil ==> toWallet(wc) && evarg("rpc", 0, "method") == "WalletServer.GetBalance" && unbox(evarg("rpc", 0, "args")).AuthToken == b64enc(bytes(authtoken))
  ensures err != nil ==> SubscriptionTokens == 0 && PrepayTokens == 0 && LastSubscribeLoad == 0

func (*WalletClient).GetBalance(wc) (SubscriptionTokens, PrepayTokens, LastSubscribeLoad, err)
  prop S05
  callbacks readonly
  requires wc.ClientFactory != nil && wc.PubKey != nil && wc.PrivKey != nil
  modifies wc.LastAuthCounter, wc.LastAuthToken
  loop 0: i <= 3 && 0 <= i
  post m = evlast("rpc", 0, "r")
  ensures err == nil ==> evlast("rpc", 0, "err") == nil && toWallet(wc) && evlast("rpc", 0, "method") == "WalletServer.GetBalance" && wnum(m, "SubscriptionTokens") && wnum(m, "PrepayTokens") && wnum(m, "LastSubscribeLoad")
  ensures err == nil ==> SubscriptionTokens == u64(unbox(m["SubscriptionTokens"], "float64")) && PrepayTokens == u64(unbox(m["PrepayTokens"], "float64")) && LastSubscribeLoad == u64(unbox(m["LastSubscribeLoad"], "float64"))
  ensures err == nil ==> wc.LastAuthToken == old(wc.LastAuthToken)
  ensures err != nil ==> SubscriptionTokens == 0 && PrepayTokens == 0 && LastSubscribeLoad == 0 && wc.LastAuthToken != nil
