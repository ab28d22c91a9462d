# the client of the mix network: mails to mixes, their delivery, and the calls to the account server

package client mute/mix/client
package smtpclient mute/mix/smtpclient
package mute/mix/client
package mixcrypt mute/mix/mixcrypt
package mixaddr mute/mix/mixaddr
package http net/http

# the text of every registered error is the key it is found under
def errTable(m) = forallkey(k, m, m[k] != nil && errstr(m[k]) == k)

func registerError(err)
  prop W01
  requires err != nil
  requires errTable(errorTranslateMap)
  modifies errorTranslateMap, elems(errorTranslateMap)
  ensures errTable(errorTranslateMap)
  ensures has(errorTranslateMap, errstr(err)) && errorTranslateMap[errstr(err)] == err

func translateError(errStr) (r)
  prop W01
  requires errTable(errorTranslateMap)
  ensures r != nil && errstr(r) == errStr
  ensures has(errorTranslateMap, errStr) ==> r == errorTranslateMap[errStr]

func (*MessageOutput).Marshal(mo) (r)
  prop W01
  requires mo != nil
  post d = unasn1("messageOutputForMarshal", bytes(r))
  ensures r != nil ==> asn1ok("messageOutputForMarshal", bytes(r)) && bytes(d.Message) == bytes(mo.Message) && d.To == mo.To && d.From == mo.From && bytes(d.RevokeID) == bytes(mo.RevokeID) && d.SMTPPort == mo.SMTPPort && d.SmartHost == mo.SmartHost && bytes(d.CACert) == bytes(mo.CACert) && d.Resend == mo.Resend
  ensures r != nil && mo.Error == nil ==> d.Error == "nil"
  ensures r != nil && mo.Error != nil ==> d.Error == errstr(mo.Error)

func (MessageMarshalled).Unmarshal(mm) (r)
  prop W01
  requires errTable(errorTranslateMap)
  fresh r
  let d = unasn1("messageOutputForMarshal", bytes(mm))
  ensures r != nil
  ensures !asn1ok("messageOutputForMarshal", bytes(mm)) ==> r.Error != nil
  ensures bytes(r.Message) == bytes(d.Message) && r.To == d.To && r.From == d.From && bytes(r.RevokeID) == bytes(d.RevokeID) && r.SMTPPort == d.SMTPPort && r.SmartHost == d.SmartHost && bytes(r.CACert) == bytes(d.CACert) && r.Resend == d.Resend
  ensures (r.Message == nil) == (len(d.Message) == 0) && (r.CACert == nil) == (len(d.CACert) == 0)
  ensures asn1ok("messageOutputForMarshal", bytes(mm)) ==> (r.Error == nil) == (d.Error == "" || d.Error == "nil")
  ensures d.Error != "" && d.Error != "nil" ==> errstr(r.Error) == d.Error
  ensures d.Error != "" && d.Error != "nil" && has(errorTranslateMap, d.Error) ==> r.Error == errorTranslateMap[d.Error]

# ---- creating and delivering

func splitMaxLine(inStr, width) (r)
  prop W01
  inline
  requires width == 72
  loop 0: 0 <= i && i <= inStrL && i == 72 * len(out) && inStrL == len(inStr)
  loop 0: forall(k, 0, len(out), out[k] == sub(inStr, 72 * k, 72 * k + 72))
  post l = evlast("join", 0, "l")
  ensures len(inStr) <= 72 ==> r == inStr
  ensures len(inStr) > 72 ==> count("join") == 1 && evlast("join", 0, "sep") == cat(unit(13), unit(10)) && r == evlast("join", 0, "r")
  ensures len(inStr) > 72 ==> 72 * (len(l) - 1) < len(inStr) && len(inStr) <= 72 * len(l) && forall(k, 0, len(l), l[k] == sub(inStr, 72 * k, min(72 * k + 72, len(inStr))))

extern strings.Join(l, sep) (r)
  why standard library: the elements with sep between them
  event join

extern (time.Time).Format(t, layout) (r)
  why standard library: any text
  event datetext

def crlf() = cat(unit(13), unit(10))
def mailHead(from, to, date) = cat("From: ", from, crlf(), "To: ", to, crlf(), "Subject: Mix message", crlf(), "Content-Type: text/text", crlf(), "MIME-Version: 1.0", crlf(), "Content-Type: text/base64; charset=UTF-8", crlf(), "Content-Transfer-Encoding: 8bit", crlf(), "Date: ", date, crlf(), crlf())

func WriteMail(sender, receiver, body) (mail)
  event writemail
  prop W01
  fresh mail
  post e = b64enc(bytes(body))
  post l = evlast("join", 0, "l")
  post h = mailHead(sender, receiver, evlast("datetext", 0, "r"))
  ensures count("datetext") == 1
  ensures len(e) <= 72 ==> bytes(mail) == cat(h, e)
  ensures len(e) > 72 ==> bytes(mail) == cat(h, evlast("join", 0, "r")) && evlast("join", 0, "sep") == crlf() && 72 * (len(l) - 1) < len(e) && len(e) <= 72 * len(l) && forall(k, 0, len(l), l[k] == sub(e, 72 * k, min(72 * k + 72, len(e))))

# body of a mail, as net/mail takes it from the text
logic mailok(Bytes) Bool
extern net/mail.ReadMessage(r) (m, err)
  why standard library: the body is a function of the text
  event mailread
  fresh m
  ensures (err == nil) == mailok(pending(r))
  ensures (m == nil) == (err != nil)
  ensures err == nil ==> m.Body != nil

func ReadMail(message) (body, err)
  event readmail
  prop W01
  fresh body
  post data = sub(evlast("read", 0, "data"), 0, evlast("read", 0, "n"))
  ensures !mailok(bytes(message)) ==> err != nil
  ensures err == nil ==> evlast("read", 0, "r") == evlast("mailread", 0, "m").Body
  ensures err == nil ==> count("read") == 1 && len(data) <= MaxMessageSize && b64ok(data) && bytes(body) == b64dec(data)

func (MessageInput).Create(mi) (r)
  prop W01
  fresh r
  ensures r != nil && r.From == DefaultSender
  ensures count("relay") == 1 && evlast("relay", 0, "nym") == mi.NymAddress && evlast("relay", 0, "msg") == mi.Message
  ensures r.Error == evlast("relay", 0, "err") && r.To == evlast("relay", 0, "addr")
  ensures r.Error != nil ==> r.Message == nil && !r.Resend && r.RevokeID == nil && count("writemail") == 0
  ensures r.Error == nil ==> r.Resend && bytes(r.RevokeID) == bytes(evlast("relay", 0, "after_cl").RevokeID) && len(r.RevokeID) == 32 && r.SMTPPort == mi.SMTPPort && r.SmartHost == mi.SmartHost && r.CACert == mi.CACert
  ensures r.Error == nil ==> count("writemail") == 1 && r.Message == evlast("writemail", 0, "mail") && evlast("writemail", 0, "sender") == r.From && evlast("writemail", 0, "receiver") == r.To && evlast("writemail", 0, "body") == evlast("relay", 0, "message")

func (*MessageOutput).Deliver(mo) (r, err)
  prop W01
  modifies *mo
  ensures mo == nil ==> r == nil && err == ErrNIL && count("smtpsend") == 0
  ensures mo != nil ==> r == mo
  ensures mo != nil && !old(mo.Resend) ==> count("smtpsend") == 0 && *mo == old(*mo) && err == ite(mo.Message == nil && mo.Error == nil, ErrAlreadySent, mo.Error)
  post e = evlast("smtpsend", 0, "err")
  post mc = evlast("smtpsend", 0, "mc")
  ensures mo != nil && old(mo.Resend) ==> count("smtpsend") == 1 && evlast("smtpsend", 0, "to") == old(mo.To) && evlast("smtpsend", 0, "from") == old(mo.From) && evlast("smtpsend", 0, "mail") == old(mo.Message)
  ensures mo != nil && old(mo.Resend) ==> mc.CACert == old(mo.CACert) && mc.Port == old(mo.SMTPPort) && mc.SmartHost == old(mo.SmartHost) && !mc.NoSSL
  ensures mo != nil && old(mo.Resend) ==> (err == nil) == (e == nil) && mo.Error == err
  ensures mo != nil && old(mo.Resend) && e == nil ==> !mo.Resend && mo.Message == nil && mo.To == "" && mo.From == "" && mo.SMTPPort == 0 && mo.SmartHost == "" && mo.CACert == nil
  ensures mo != nil && old(mo.Resend) && e != nil ==> mo.Resend == (e != smtpclient.ErrFinal) && mo.Message == old(mo.Message) && mo.To == old(mo.To) && mo.From == old(mo.From) && mo.SMTPPort == old(mo.SMTPPort) && mo.SmartHost == old(mo.SmartHost) && mo.CACert == old(mo.CACert)
  ensures mo != nil && old(mo.Resend) && e != nil && e != smtpclient.ErrFinal ==> err == e
  ensures mo != nil && old(mo.Resend) && e == smtpclient.ErrFinal ==> err == evlast("smtpsend", 0, "after_mc").LastError
  ensures mo != nil ==> mo.RevokeID == old(mo.RevokeID)

package mute/mix/smtpclient

extern net.LookupMX(name) (mx, err)
  why DNS: any records; net returns host names that end in a dot
  event lookupmx
  ensures forall(i, 0, len(mx), mx[i] != nil && len(mx[i].Host) >= 1)
  ensures len(mx) < 2147483647

extern net/mail.ParseAddress(a) (r, err)
  why standard library: any address
  event parseaddr
  fresh r
  ensures (r != nil) == (err == nil)

extern net/smtp.Dial(addr) (c, err)
  why network: any server
  event dial
  ensures (c != nil) == (err == nil)

extern (*net/smtp.Client).Close(c) (err)
  why network: any outcome

extern (*net/smtp.Client).Hello(c, name) (err)
  why network: any outcome

extern (*net/smtp.Client).Extension(c, ext) (ok, param)
  why network: any answer

extern (*net/smtp.Client).StartTLS(c, config) (err)
  why network: any outcome
  event starttls

extern (*net/smtp.Client).Auth(c, a) (err)
  why network: any outcome
  event smtpauth

extern net/smtp.CRAMMD5Auth(u, p) (r)
  why standard library: no password leaves in clear
  event cramauth

extern net/smtp.PlainAuth(id, u, p, host) (r)
  why standard library: refuses to send the password without TLS
  event plainauth

extern (*net/smtp.Client).Mail(c, from) (err)
  why network: any outcome
  event smtpmail

extern (*net/smtp.Client).Rcpt(c, to) (err)
  why network: any outcome
  event smtprcpt

extern (*net/smtp.Client).Data(c) (w, err)
  why network: any outcome
  event smtpdata
  ensures (w != nil) == (err == nil)

extern (*net/smtp.Client).Reset(c) (err)
  why network: any outcome

extern (*net/smtp.Client).Quit(c) (err)
  why network: any outcome

iface (io.WriteCloser).Close(w) (err)
  why network: any outcome
  event smtpclose

extern crypto/x509.NewCertPool() (p)
  why standard library: an empty pool
  fresh p
  ensures p != nil

extern (*crypto/x509.CertPool).AppendCertsFromPEM(p, pem) (ok)
  why standard library: whether a certificate was found
  event addcert

func LookupMX(domain) (r)
  event findhost
  prop W01
  ensures domain == "" ==> r == "" && count("lookupmx") == 0
  ensures domain != "" ==> count("lookupmx") == 1 && evlast("lookupmx", 0, "name") == domain
  ensures count("lookupmx") == 1 && evlast("lookupmx", 0, "err") != nil ==> r == domain
  post mx = evlast("lookupmx", 0, "mx")
  ensures count("lookupmx") == 1 && evlast("lookupmx", 0, "err") == nil && len(mx) == 0 ==> r == ""
  ensures count("lookupmx") == 1 && evlast("lookupmx", 0, "err") == nil && len(mx) > 0 ==> exists(i, 0, len(mx), r == sub(mx[i].Host, 0, len(mx[i].Host) - 1))

func GetMailDomain(addr) (r)
  event maildomain
  prop W01
  ensures count("parseaddr") == 1 && evlast("parseaddr", 0, "a") == addr
  post a = evlast("parseaddr", 0, "r").Address
  ensures r != "" ==> evlast("parseaddr", 0, "err") == nil && len(r) < len(a) && sub(a, len(a) - len(r), len(a)) == r && a[len(a) - len(r) - 1] == 64

func (*MailClient).parseError(mc, err) (r)
  prop W01
  modifies mc.LastError, mc.LastErrorCode
  requires mc != nil
  ensures (r == nil) == (err == nil)
  ensures err == nil ==> mc.LastError == old(mc.LastError)
  ensures err != nil ==> mc.LastError == err
  ensures r == err || r == ErrRetry && mc.LastErrorCode < 500 || r == ErrFinal && mc.LastErrorCode >= 500

# a mail is sent exactly when the server took it; a CA certificate is enforced before anything of the mail is told
func (*MailClient).SendMail(mc, to, from, mail) (err)
  event smtpsend
  prop W01
  modifies mc.Port, mc.LastError, mc.LastErrorCode
  requires mc != nil
  ensures err == nil ==> count("dial") == 1 && count("smtpmail") == 1 && count("smtprcpt") == 1 && count("smtpdata") == 1 && count("write") == 1 && count("smtpclose") == 1
  ensures err == nil ==> evlast("smtpmail", 0, "from") == from && evlast("smtprcpt", 0, "to") == to && evlast("write", 0, "data") == bytes(mail)
  ensures err == nil ==> evlast("smtpmail", 0, "err") == nil && evlast("smtprcpt", 0, "err") == nil && evlast("smtpdata", 0, "err") == nil && evlast("write", 0, "ok") && evlast("smtpclose", 0, "err") == nil
  ensures err == nil ==> evlast("write", 0, "w") == evlast("smtpdata", 0, "w") && evlast("smtpclose", 0, "w") == evlast("smtpdata", 0, "w")
  ensures err == nil ==> evpos("smtpmail", 0) < evpos("smtprcpt", 0) && evpos("smtprcpt", 0) < evpos("smtpdata", 0) && evpos("smtpdata", 0) < evpos("write", 0) && evpos("write", 0) < evpos("smtpclose", 0)
  ensures count("smtpclose") == 1 && evlast("smtpclose", 0, "err") == nil && evlast("write", 0, "ok") ==> err == nil
  ensures err == ErrFinal ==> mc.LastError != nil
  ensures count("smtpmail") == 1 && mc.CACert != nil && !mc.NoSSL ==> count("starttls") == 1 && evlast("starttls", 0, "err") == nil && evpos("starttls", 0) < evpos("smtpmail", 0)
  ensures count("starttls") == 1 && mc.CACert != nil ==> count("addcert") == 1 && evlast("addcert", 0, "ok") && bytes(evlast("addcert", 0, "pem")) == bytes(mc.CACert) && evlast("starttls", 0, "config").RootCAs == evlast("addcert", 0, "p")
  ensures count("starttls") == 1 ==> !evlast("starttls", 0, "config").InsecureSkipVerify
  ensures mc.SmartHost != "" ==> count("findhost") == 0
  ensures mc.SmartHost == "" ==> count("findhost") == 1 && count("maildomain") == 1 && evlast("maildomain", 0, "addr") == to && evlast("findhost", 0, "domain") == evlast("maildomain", 0, "r")
  ensures mc.Port == ite(old(mc.Port) == 0, 25, old(mc.Port))
  ensures mc.SmartHost != "" && count("dial") == 1 ==> len(evlast("dial", 0, "addr")) > len(mc.SmartHost) && sub(evlast("dial", 0, "addr"), 0, len(mc.SmartHost) + 1) == cat(mc.SmartHost, ":")
  ensures mc.SmartHost != "" && count("starttls") == 1 ==> evlast("starttls", 0, "config").ServerName == mc.SmartHost
  ensures mc.SmartHost == "" && count("starttls") == 1 ==> evlast("starttls", 0, "config").ServerName == evlast("findhost", 0, "r")
  # the login given is used, as it is, before the mail; without one nothing is logged in
  ensures count("smtpmail") == 1 && mc.User != "" && mc.Password != "" ==> count("smtpauth") == 1 && evlast("smtpauth", 0, "err") == nil && evpos("smtpauth", 0) < evpos("smtpmail", 0) && imp(count("starttls") == 1, evpos("starttls", 0) < evpos("smtpauth", 0))
  ensures count("smtpauth") == 1 ==> mc.User != "" && mc.Password != "" && count("plainauth") + count("cramauth") == 1
  ensures count("smtpauth") == 1 && count("plainauth") == 1 ==> evlast("smtpauth", 0, "a") == evlast("plainauth", 0, "r") && evlast("plainauth", 0, "u") == mc.User && evlast("plainauth", 0, "p") == mc.Password && evlast("plainauth", 0, "id") == "" && imp(mc.SmartHost != "", evlast("plainauth", 0, "host") == mc.SmartHost)
  ensures count("smtpauth") == 1 && count("cramauth") == 1 ==> evlast("smtpauth", 0, "a") == evlast("cramauth", 0, "r") && evlast("cramauth", 0, "u") == mc.User && evlast("cramauth", 0, "p") == mc.Password
  ensures count("plainauth") == 1 ==> count("starttls") == 1 || mc.NoSSL || mc.CACert == nil

package mute/mix/client

def addPool(t, pem) = t.TLSClientConfig != nil && !t.TLSClientConfig.InsecureSkipVerify && count("addcert") == 1 && t.TLSClientConfig.RootCAs == evlast("addcert", 0, "p") && evlast("addcert", 0, "pem") == pem

func getHTTPClient(cacert) (r)
  prop W01
  inline
  fresh r
  ensures r != nil && isbox(r.Transport, "*http.Transport")
  ensures cacert == nil ==> unbox(r.Transport).TLSClientConfig == nil
  ensures cacert != nil ==> addPool(unbox(r.Transport), cacert)

extern (*net/http.Client).PostForm(c, url, data) (resp, err)
  why network: any response
  event postform
  ensures err == nil ==> resp != nil && resp.Body != nil

func HTTPSGet(getURL, cacert) (r, err)
  event httpsget
  prop W01
  post t = unbox(evlast("get", 0, "c").Transport)
  ensures count("get") == 1 && evlast("get", 0, "url") == getURL
  ensures cacert == nil ==> t.TLSClientConfig == nil
  ensures cacert != nil ==> addPool(t, cacert)
  ensures err == nil ==> evlast("get", 0, "err") == nil && evlast("ReadAll", 0, "ok") && bytes(r) == evlast("ReadAll", 0, "data") && evlast("ReadAll", 0, "r") == evlast("get", 0, "resp").Body
  ensures err != nil ==> r == nil

func HTTPSPost(postValues, postURL, cacert) (r, err)
  event httpspost
  prop W01
  post t = unbox(evlast("postform", 0, "c").Transport)
  ensures count("postform") == 1 && evlast("postform", 0, "url") == postURL && evlast("postform", 0, "data") == postValues
  ensures cacert == nil ==> t.TLSClientConfig == nil
  ensures cacert != nil ==> addPool(t, cacert)
  ensures err == nil ==> evlast("postform", 0, "err") == nil && evlast("ReadAll", 0, "ok") && bytes(r) == evlast("ReadAll", 0, "data") && evlast("ReadAll", 0, "r") == evlast("postform", 0, "resp").Body
  ensures err != nil ==> r == nil

func getMixAddressReal(mixaddress) (r, err)
  event mixhost
  prop W01
  ensures count("maildomain") == 1 && evlast("maildomain", 0, "addr") == mixaddress && count("findhost") == 1 && evlast("findhost", 0, "domain") == evlast("maildomain", 0, "r")
  ensures (err == nil) == (evlast("findhost", 0, "r") != "")
  ensures err == nil ==> r == cat(evlast("findhost", 0, "r"), ":", RPCPort)

func GetMixKeys(mixaddress, cacert) (r, err)
  prop W01
  fresh r
  ensures err == nil ==> count("mixhost") == 1 && evlast("mixhost", 0, "err") == nil && evlast("mixhost", 0, "mixaddress") == mixaddress
  ensures err == nil ==> count("httpsget") == 1 && evlast("httpsget", 0, "err") == nil && evlast("httpsget", 0, "cacert") == cacert && evlast("httpsget", 0, "getURL") == cat("https://", evlast("mixhost", 0, "r"), "/keys")
  ensures err == nil ==> r != nil && jsonok("mixaddr.AddressStatement", bytes(evlast("httpsget", 0, "r"))) && *r == unjson("mixaddr.AddressStatement", bytes(evlast("httpsget", 0, "r")))
  ensures err != nil ==> r == nil

func RevokeMessage(revokeID, mixaddress, cacert) (r, err)
  prop W01
  post b = bytes(evlast("httpsget", 0, "r"))
  ensures r ==> err == nil
  ensures err == nil ==> r && count("httpsget") == 1 && evlast("httpsget", 0, "err") == nil && len(b) > 7 && sub(b, 0, 7) == "REVOKED"
  ensures count("httpsget") == 1 ==> evlast("httpsget", 0, "cacert") == cacert && evlast("httpsget", 0, "getURL") == cat("https://", evlast("mixhost", 0, "r"), "/revoke?revokeid=", hexenc(bytes(revokeID)))
  ensures count("httpsget") == 1 ==> evlast("mixhost", 0, "err") == nil && evlast("mixhost", 0, "mixaddress") == mixaddress
  ensures count("httpsget") == 1 && evlast("httpsget", 0, "err") == nil && len(b) > 7 && sub(b, 0, 7) == "REVOKED" ==> r

# ---- the account server

package walletauth mute/serviceguard/common/walletauth

func splitKey(privkey) (r)
  prop W02
  fresh r
  requires privkey != nil
  ensures r != nil && bytes(r) == sub(bytes(privkey), 32, 64)

extern (net/url.Values).Set(v, key, value)
  why standard library: the value of the key
  event formset
  modifies elems(v)

def accountURL(server) = cat("https://", server, ":", RPCPort, "/account")
# the call made, and that its reply is what the caller gets
def called(m, authtoken) = count("rpc") == 1 && evlast("rpc", 0, "err") == nil && evlast("rpc", 0, "method") == m && unbox(evlast("rpc", 0, "args")).AuthToken == b64enc(bytes(authtoken))

# an entry of the message list
def hexfield(o, k) = isbox(o[k], "string") && hexok(unbox(o[k], "string"))
def listed(e, id, key) = isbox(e, "object") && hexfield(unbox(e, "object"), "MessageID") && hexfield(unbox(e, "object"), "UserKey") && bytes(id) == hexdec(unbox(unbox(e, "object")["MessageID"], "string")) && bytes(key) == hexdec(unbox(unbox(e, "object")["UserKey"], "string"))

func payAccount(authtoken, paytoken, serverKnown, cacert) (server, lastcounter, err)
  prop W02
  inline
  post m = evlast("rpc", 0, "r")
  ensures err == nil ==> called("AccountServer.LoadAccount", authtoken) && unbox(evlast("rpc", 0, "args")).PayToken == b64enc(bytes(paytoken))
  ensures err == nil ==> isbox(m["Server"], "string") && server == unbox(m["Server"], "string")
  ensures err != nil ==> server == ""

func delAccount(authtoken, server, cacert) (r, lastcounter, err)
  prop W02
  inline
  post m = evlast("rpc", 0, "r")
  ensures err == nil ==> called("AccountServer.DeleteAccount", authtoken) && isbox(m["Result"], "bool") && r == unbox(m["Result"], "bool")
  ensures err != nil ==> !r

func accountStat(authtoken, server, cacert) (r, lastcounter, err)
  prop W02
  inline
  post m = evlast("rpc", 0, "r")
  ensures err == nil ==> called("AccountServer.AccountStat", authtoken) && isbox(m["LoadTime"], "float64")
  ensures err != nil ==> r == 0

func listMessages(authtoken, lastMessageTime, server, cacert) (r, lastcounter, err)
  prop W02
  inline
  fresh r
  loop 0: iter == len(messages)
  loop 0: forall(j, 0, iter, listed(messagesI[j], messages[j].MessageID, messages[j].UserKey))
  post m = evlast("rpc", 0, "r")
  post l = unbox(m["Messages"], "list")
  ensures err == nil ==> isbox(m["Messages"], "list") && len(r) == len(l) && forall(j, 0, len(r), listed(l[j], r[j].MessageID, r[j].UserKey))
  ensures err == nil ==> called("AccountServer.ListMessages", authtoken) && unbox(evlast("rpc", 0, "args")).LastReceiveTime == lastMessageTime
  ensures err != nil ==> r == nil
func PayAccount(privkey, paytoken, serverKnown, cacert) (server, err)
  prop W02
  requires privkey != nil
  loop 0: 0 <= i && i <= 3 && authtoken == nil
  loop 0: pubkey != nil && bytes(pubkey) == sub(bytes(privkey), 32, 64)
  post m = evlast("rpc", 0, "r")
  post t = evlast("mint", 0, "r")
  ensures err == nil ==> evlast("rpc", 0, "err") == nil && evlast("rpc", 0, "method") == "AccountServer.LoadAccount"
  ensures err == nil ==> unbox(evlast("rpc", 0, "args")).AuthToken == b64enc(bytes(t)) && len(t) == 144 && sub(bytes(t), 0, 32) == sub(bytes(privkey), 32, 64) && sub(bytes(t), 80, 144) == edsign(bytes(privkey), sub(bytes(t), 0, 80))
  ensures err == nil ==> evlast("newclient", 0, "URL") == accountURL(ite(serverKnown != "", serverKnown, DefaultAccountServer)) && evlast("newclient", 0, "cert") == cacert && evlast("rpc", 0, "c") == evlast("newclient", 0, "r")
  ensures err == nil ==> isbox(m["Server"], "string") && server == unbox(m["Server"], "string") && unbox(evlast("rpc", 0, "args")).PayToken == b64enc(bytes(paytoken))
  ensures err != nil ==> server == ""

func DeleteAccount(privkey, server, cacert) (err)
  prop W02
  requires privkey != nil
  loop 0: 0 <= i && i <= 3 && authtoken == nil
  loop 0: pubkey != nil && bytes(pubkey) == sub(bytes(privkey), 32, 64)
  post m = evlast("rpc", 0, "r")
  post t = evlast("mint", 0, "r")
  ensures err == nil ==> evlast("rpc", 0, "err") == nil && evlast("rpc", 0, "method") == "AccountServer.DeleteAccount"
  ensures err == nil ==> unbox(evlast("rpc", 0, "args")).AuthToken == b64enc(bytes(t)) && len(t) == 144 && sub(bytes(t), 0, 32) == sub(bytes(privkey), 32, 64) && sub(bytes(t), 80, 144) == edsign(bytes(privkey), sub(bytes(t), 0, 80))
  ensures err == nil ==> evlast("newclient", 0, "URL") == accountURL(server) && evlast("newclient", 0, "cert") == cacert && evlast("rpc", 0, "c") == evlast("newclient", 0, "r")
  ensures err == nil ==> isbox(m["Result"], "bool") && unbox(m["Result"], "bool")

func AccountStat(privkey, server, cacert) (loadTime, err)
  prop W02
  requires privkey != nil
  loop 0: 0 <= i && i <= 3 && authtoken == nil
  loop 0: pubkey != nil && bytes(pubkey) == sub(bytes(privkey), 32, 64)
  post m = evlast("rpc", 0, "r")
  post t = evlast("mint", 0, "r")
  ensures err == nil ==> evlast("rpc", 0, "err") == nil && evlast("rpc", 0, "method") == "AccountServer.AccountStat"
  ensures err == nil ==> unbox(evlast("rpc", 0, "args")).AuthToken == b64enc(bytes(t)) && len(t) == 144 && sub(bytes(t), 0, 32) == sub(bytes(privkey), 32, 64) && sub(bytes(t), 80, 144) == edsign(bytes(privkey), sub(bytes(t), 0, 80))
  ensures err == nil ==> evlast("newclient", 0, "URL") == accountURL(server) && evlast("newclient", 0, "cert") == cacert && evlast("rpc", 0, "c") == evlast("newclient", 0, "r")
  ensures err == nil ==> isbox(m["LoadTime"], "float64")
  ensures err != nil ==> loadTime == 0

func ListMessages(privkey, lastMessageTime, server, cacert) (messages, err)
  prop W02
  requires privkey != nil
  loop 0: 0 <= i && i <= 3 && authtoken == nil
  loop 0: pubkey != nil && bytes(pubkey) == sub(bytes(privkey), 32, 64)
  post m = evlast("rpc", 0, "r")
  post t = evlast("mint", 0, "r")
  post l = unbox(m["Messages"], "list")
  ensures err == nil ==> evlast("rpc", 0, "err") == nil && evlast("rpc", 0, "method") == "AccountServer.ListMessages"
  ensures err == nil ==> unbox(evlast("rpc", 0, "args")).AuthToken == b64enc(bytes(t)) && len(t) == 144 && sub(bytes(t), 0, 32) == sub(bytes(privkey), 32, 64) && sub(bytes(t), 80, 144) == edsign(bytes(privkey), sub(bytes(t), 0, 80))
  ensures err == nil ==> evlast("newclient", 0, "URL") == accountURL(server) && evlast("newclient", 0, "cert") == cacert && evlast("rpc", 0, "c") == evlast("newclient", 0, "r")
  ensures err == nil ==> isbox(m["Messages"], "list") && len(messages) == len(l) && forall(j, 0, len(messages), listed(l[j], messages[j].MessageID, messages[j].UserKey))
  ensures err == nil ==> unbox(evlast("rpc", 0, "args")).LastReceiveTime == lastMessageTime
  ensures err != nil ==> messages == nil


func fetchmessage(messageID, authtoken, server, cacert) (message, lastcounter, err)
  prop W02
  inline
  post b = bytes(evlast("httpspost", 0, "r"))
  ensures count("httpspost") == 1 && evlast("httpspost", 0, "postURL") == cat("https://", server, ":", RPCPort, "/message") && evlast("httpspost", 0, "cacert") == cacert
  ensures count("formset") == 2 && evlast("formset", 1, "key") == "messageid" && evlast("formset", 1, "value") == hexenc(bytes(messageID)) && evlast("formset", 0, "key") == "authtoken" && evlast("formset", 0, "value") == b64enc(bytes(authtoken))
  ensures err == nil ==> evlast("httpspost", 0, "err") == nil && len(b) >= 7 && sub(b, 0, 6) != "ERROR:"
  ensures err == nil ==> count("readmail") == 1 && evlast("readmail", 0, "err") == nil && evlast("readmail", 0, "message") == evlast("httpspost", 0, "r") && message == evlast("readmail", 0, "body")
  ensures err != nil ==> message == nil

func FetchMessage(privkey, messageID, server, cacert) (message, err)
  prop W02
  requires privkey != nil
  loop 0: 0 <= i && i <= 3 && authtoken == nil
  loop 0: pubkey != nil && bytes(pubkey) == sub(bytes(privkey), 32, 64)
  post t = evlast("mint", 0, "r")
  ensures err == nil ==> evlast("formset", 1, "value") == hexenc(bytes(messageID)) && evlast("formset", 0, "value") == b64enc(bytes(t)) && len(t) == 144 && sub(bytes(t), 0, 32) == sub(bytes(privkey), 32, 64) && sub(bytes(t), 80, 144) == edsign(bytes(privkey), sub(bytes(t), 0, 80))
  ensures err == nil ==> evlast("httpspost", 0, "postURL") == cat("https://", server, ":", RPCPort, "/message") && evlast("httpspost", 0, "cacert") == cacert && evlast("httpspost", 0, "err") == nil
  ensures err == nil ==> evlast("readmail", 0, "err") == nil && evlast("readmail", 0, "message") == evlast("httpspost", 0, "r") && message == evlast("readmail", 0, "body")
  ensures err != nil ==> message == nil
