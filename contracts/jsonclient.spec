# JSON-RPC over HTTPS: the server is authenticated by the certificate the caller gives

package mute/util/jsonclient
package http net/http

func New(URL, cert) (r, err)
  event newclient
  prop J01
  fresh r
  ensures (err == nil) == (r != nil)
  ensures count("parseurl") == 1 && evlast("parseurl", 0, "s") == URL
  ensures err == nil ==> r.curl == URL && r.transport != nil && evlast("parseurl", 0, "err") == nil
  ensures err == nil && evlast("parseurl", 0, "u").Scheme == "https" ==> count("addcert") == 1 && evlast("addcert", 0, "pem") == cert && evlast("addcert", 0, "ok") && r.transport.TLSClientConfig != nil && r.transport.TLSClientConfig.RootCAs == evlast("addcert", 0, "p") && !r.transport.TLSClientConfig.InsecureSkipVerify

extern github.com/gorilla/rpc/v2/json2.EncodeClientRequest(method, args) (r, err)
  why JSON-RPC codec
  event rpcencode

extern github.com/gorilla/rpc/v2/json2.DecodeClientResponse(r, reply) (err)
  why JSON-RPC codec: any reply
  event rpcdecode
  modifies *unbox(reply)

extern net/http.NewRequest(method, url, body) (r, err)
  why standard library: the request that was asked for
  event newrequest
  fresh r
  ensures (r != nil) == (err == nil)
  ensures r != nil ==> r.Body != nil && r.Header != nil

extern (net/http.Header).Set(h, k, v)
  why standard library: a header field (header fields are not tracked)

extern (*net/http.Client).Do(c, req) (resp, err)
  why network: any response
  event httpdo
  ensures err == nil ==> resp != nil && resp.Body != nil

func (*URLClient).JSONRPCRequest(c, method, args) (r, err)
  event rpc
  prop J01
  ensures err == nil ==> count("rpcencode") == 1 && evlast("rpcencode", 0, "method") == method && evlast("rpcencode", 0, "err") == nil
  ensures err == nil && args != nil ==> evlast("rpcencode", 0, "args") == args
  ensures err == nil ==> count("newrequest") == 1 && evlast("newrequest", 0, "method") == "POST" && evlast("newrequest", 0, "url") == c.curl && pending(evlast("newrequest", 0, "body")) == bytes(evlast("rpcencode", 0, "r"))
  ensures err == nil ==> count("httpdo") == 1 && evlast("httpdo", 0, "err") == nil && evlast("httpdo", 0, "req") == evlast("newrequest", 0, "r") && unbox(evlast("httpdo", 0, "c").Transport) == c.transport
  ensures err == nil ==> count("rpcdecode") == 1 && evlast("rpcdecode", 0, "err") == nil && evlast("rpcdecode", 0, "r") == evlast("httpdo", 0, "resp").Body
  ensures err != nil ==> r == nil
