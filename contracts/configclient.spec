# the configuration client

logic pemok(Bytes) Bool
logic pemdec(Bytes) Bytes
logic x509ok(Bytes) Bool
logic hexok(Bytes) Bool
logic hexdec(Bytes) Bytes

extern encoding/pem.Decode(data) (p, rest)
  why standard library: the first PEM block is a function of the data
  fresh p
  ensures (p != nil) == pemok(data)
  ensures p != nil ==> bytes(p.Bytes) == pemdec(data)

extern crypto/x509.ParseCertificates(der) (certs, err)
  why standard library: acceptance is a function of the data
  ensures (err == nil) == x509ok(der)

extern encoding/hex.DecodeString(s) (r, err)
  why standard library
  fresh r
  ensures (err == nil) == hexok(s)
  ensures err == nil ==> bytes(r) == hexdec(s)

extern (*net/http.Client).Get(c, url) (resp, err)
  why network: any response
  event get
  ensures err == nil ==> resp != nil && resp.Body != nil

iface (io.ReadCloser).Close(rc) (err)
  why network: any outcome

package mute/configclient/cahash

func Hash(cert) (r, err)
  prop K02
  fresh r
  ensures (err == nil) == (pemok(cert) && x509ok(pemdec(cert)))
  ensures err == nil ==> bytes(r) == sha512(pemdec(cert))

package mute/configclient/roundrobin

func (ServerList).Len(sl) (r)
  prop K02
  ensures r == len(sl)

func (ServerList).Less(sl, i, j) (r)
  prop K02
  requires 0 <= i && i < len(sl) && 0 <= j && j < len(sl)
  ensures r == (sl[i].prio < sl[j].prio)

func (ServerList).Swap(sl, i, j) ()
  prop K02
  requires 0 <= i && i < len(sl) && 0 <= j && j < len(sl)
  modifies elems(sl)
  ensures sl[i].prio == old(sl[j].prio) && sl[i].url == old(sl[j].url) && sl[j].prio == old(sl[i].prio) && sl[j].url == old(sl[i].url)
  ensures forall(k, 0, len(sl), k == i || k == j || sl[k].prio == old(sl[k].prio) && sl[k].url == old(sl[k].url))

extern math/rand.Perm(n) (r)
  why standard library: a permutation of 0..n-1
  fresh r
  ensures len(r) == n && r != nil
  ensures forall(i, 0, n, 0 <= r[i] && r[i] < n)
  ensures forall(i, 0, n, forall(j, 0, n, i == j || r[i] != r[j]))
  ensures forall(k, 0, n, exists(i, 0, n, r[i] == k))

extern strings.Fields(s) (r)
  why standard library: any fields
  fresh r

extern strings.Replace(s, a, b, n) (r)
  why standard library: any string

extern strconv.Atoi(s) (n, err)
  why standard library: any number

func ParseServers(servers) (r)
  prop K02
  fresh r
  loop 0: forall(k, 0, len(allserv), len(allserv[k].url) >= 7)
  ensures forall(k, 0, len(r), len(r[k].url) >= 7)

func randomize(s) (r)
  prop K02
  fresh r
  loop 0: len(ret) == len(s) && len(x) == len(s)
  loop 0: forall(j, 0, iter, ret[x[j]] == s[j])
  ensures len(r) == len(s)
  ensures forall(k, 0, len(r), exists(i, 0, len(s), r[k] == s[i]))
  ensures forall(i, 0, len(s), exists(k, 0, len(r), r[k] == s[i]))

func (ServerList).Order(sl) (r)
  prop K02
  fresh r
  loop 0: forall(i, 0, iter, exists(k, 0, len(cur), cur[k] == sl[i].url) || exists(q, 0, len(ret), exists(k, 0, len(ret[q]), ret[q][k] == sl[i].url)))
  loop 0: forall(k, 0, len(cur), exists(i, 0, iter, cur[k] == sl[i].url))
  loop 0: forall(q, 0, len(ret), forall(k, 0, len(ret[q]), exists(i, 0, iter, ret[q][k] == sl[i].url)))
  loop 1: forall(q, 0, iter, forall(k, 0, len(ret[q]), exists(j, 0, len(val), val[j] == ret[q][k])))
  loop 1: forall(j, 0, len(val), exists(i, 0, len(sl), val[j] == sl[i].url))
  ensures forall(i, 0, len(sl), exists(k, 0, len(r), r[k] == sl[i].url))
  ensures forall(k, 0, len(r), exists(i, 0, len(sl), r[k] == sl[i].url))

package mute/configclient

func readBody(rc) (r, err)
  prop K02
  fresh r
  requires rc != nil

func fixURL(URL) (r)
  prop K02
  requires len(URL) > 0
  ensures len(r) > 0 && r[len(r) - 1] == 47

func getConfig(configURL, publicKey, lastSignDate, timeout) (cert, err)
  prop K01
  event getConfig
  fresh cert
  requires len(configURL) > 0
  ensures err == nil ==> cert != nil && cert.SignDate >= lastSignDate
  ensures err == nil ==> count("Certify") == 1 && evarg("Certify", 0, "err") == nil
  ensures err == nil ==> evarg("Certify", 0, "lastSignDate") == lastSignDate && evarg("Certify", 0, "publicKey") == bytes(publicKey)
  ensures err == nil ==> cert == evarg("Certify", 0, "r")

func getCACert(configURL, certHash, timeout) (r, err)
  prop K02
  event getCACert
  fresh r
  requires len(configURL) > 0
  ensures err == nil ==> hexok(certHash) && pemok(r) && x509ok(pemdec(r)) && sha512(pemdec(r)) == hexdec(certHash)
  ensures err != nil ==> r == nil

func (*Config).Update(c) (err)
  prop K02
  requires c != nil
  modifies c.servers, c.curServer, c.Map, c.LastSignDate, c.CACert, c.Timeout
  loop 0: c.Timeout != 0 && (old(c.Timeout) == 0 || c.Timeout == old(c.Timeout))
  loop 0: 0 <= c.curServer && imp(c.curServer > 0, err != nil) && len(c.servers) >= 1
  loop 0: forall(k, 0, len(c.servers), len(c.servers[k]) > 0)
  loop 1: 0 <= c.curServer && imp(c.curServer > 0, err != nil) && len(c.servers) >= 1
  loop 1: forall(k, 0, len(c.servers), len(c.servers[k]) > 0)
  post n = evlast("getConfig", 0, "cert")
  # no request waits forever
  at getConfig: evlast("getConfig", 0, "timeout") != 0 && (old(c.Timeout) == 0 || evlast("getConfig", 0, "timeout") == old(c.Timeout))
  # the configuration in use is the one just certified with the pinned key, not older than the last
  ensures err == nil ==> count("getConfig") >= 1 && evlast("getConfig", 0, "err") == nil && bytes(evlast("getConfig", 0, "publicKey")) == old(bytes(c.PublicKey))
  ensures err == nil ==> c.LastSignDate == n.SignDate && c.LastSignDate >= old(c.LastSignDate) && c.Map == n.Config
  ensures err == nil && old(c.LastSignDate) == 0 && evarg("now", 0, "t") >= 82800 ==> evlast("getConfig", 0, "lastSignDate") == evarg("now", 0, "t") - 82800
  ensures err == nil && old(c.LastSignDate) != 0 ==> evlast("getConfig", 0, "lastSignDate") == old(c.LastSignDate)
  # the certificate in use is the one the configuration names
  ensures err == nil && has(n.Config, "CACertHash") && len(hexdec(n.Config["CACertHash"])) > 0 ==> pemok(c.CACert) && sha512(pemdec(c.CACert)) == hexdec(n.Config["CACertHash"])
  ensures err == nil && !has(n.Config, "CACertHash") ==> bytes(c.CACert) == old(bytes(c.CACert))
  # nothing is replaced on failure
  ensures err != nil ==> c.Map == old(c.Map) && bytes(c.CACert) == old(bytes(c.CACert)) && imp(old(c.LastSignDate) != 0, c.LastSignDate == old(c.LastSignDate))
  ensures c.PublicKey == old(c.PublicKey)
