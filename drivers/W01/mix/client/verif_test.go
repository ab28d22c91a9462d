package client

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"encoding/asn1"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/mail"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/mix/smtpclient"
	"github.com/mutecomm/mute/util/times"
	"golang.org/x/crypto/curve25519"
)

// vSMTP serves one SMTP session after the other and records what it was told.
type vSMTP struct {
	l      net.Listener
	port   int
	cert   *tls.Certificate  // STARTTLS is offered if set
	script map[string]string // stage to reply, "drop" closes
	log    []vMailSeen
	done   chan bool
}

type vMailSeen struct {
	from, to []string
	data     []string // taken
	tls      bool     // before the first MAIL
	sessions int
}

func vServe(cert *tls.Certificate, script map[string]string) *vSMTP {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &vSMTP{l: l, port: l.Addr().(*net.TCPAddr).Port, cert: cert, script: script, done: make(chan bool, 100)}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				close(s.done)
				return
			}
			s.session(c)
		}
	}()
	return s
}

// stop ends the server and returns all it saw.
func (s *vSMTP) stop() (r vMailSeen) {
	s.l.Close()
	for range s.done {
	}
	for _, e := range s.log {
		r.from = append(r.from, e.from...)
		r.to = append(r.to, e.to...)
		r.data = append(r.data, e.data...)
		r.tls = r.tls || e.tls
		r.sessions++
	}
	return r
}

func (s *vSMTP) session(c net.Conn) {
	var seen vMailSeen
	defer func() {
		c.Close()
		s.log = append(s.log, seen)
	}()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	br := bufio.NewReader(c)
	say := func(stage, def string) bool { // false: the session ends
		r, ok := s.script[stage]
		if !ok {
			r = def
		}
		if r == "drop" {
			return false
		}
		fmt.Fprintf(c, "%s\r\n", r)
		return true
	}
	if !say("banner", "220 verif ESMTP") {
		return
	}
	isTLS := false
	for {
		line, err := br.ReadString('\n')
		if err != nil {
			return
		}
		line = strings.TrimRight(line, "\r\n")
		up := strings.ToUpper(line)
		switch {
		case strings.HasPrefix(up, "EHLO"):
			def := "250 verif"
			if s.cert != nil && !isTLS {
				def = "250-verif\r\n250 STARTTLS"
			}
			if !say("ehlo", def) {
				return
			}
		case strings.HasPrefix(up, "HELO"):
			if !say("helo", "250 verif") {
				return
			}
		case up == "STARTTLS":
			if !say("starttls", "220 go") {
				return
			}
			if strings.HasPrefix(s.script["starttls"], "4") || strings.HasPrefix(s.script["starttls"], "5") {
				continue
			}
			t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{*s.cert}})
			if t.Handshake() != nil {
				return
			}
			c, br, isTLS = t, bufio.NewReader(t), true
		case strings.HasPrefix(up, "MAIL"):
			seen.from = append(seen.from, line)
			seen.tls = isTLS
			if !say("mail", "250 ok") {
				return
			}
		case strings.HasPrefix(up, "RCPT"):
			seen.to = append(seen.to, line)
			if !say("rcpt", "250 ok") {
				return
			}
		case up == "DATA":
			if !say("data", "354 go") {
				return
			}
			if r, ok := s.script["data"]; ok && !strings.HasPrefix(r, "354") {
				continue
			}
			var d bytes.Buffer
			for {
				l, err := br.ReadString('\n')
				if err != nil {
					return
				}
				if l == ".\r\n" {
					break
				}
				d.WriteString(strings.TrimPrefix(l, "."))
			}
			r, ok := s.script["end"]
			if !ok || strings.HasPrefix(r, "2") {
				seen.data = append(seen.data, d.String())
			}
			if !say("end", "250 taken") {
				return
			}
		case up == "RSET":
			if !say("rset", "250 ok") {
				return
			}
		case up == "QUIT":
			say("quit", "221 bye")
			return
		default:
			fmt.Fprintf(c, "502 no\r\n")
		}
	}
}

func vSame(a, b *MessageOutput) bool {
	return bytes.Equal(a.Message, b.Message) && (a.Message == nil) == (b.Message == nil) && a.To == b.To && a.From == b.From &&
		bytes.Equal(a.RevokeID, b.RevokeID) && a.SMTPPort == b.SMTPPort && a.SmartHost == b.SmartHost &&
		bytes.Equal(a.CACert, b.CACert) && (a.CACert == nil) == (b.CACert == nil) && a.Resend == b.Resend
}

func vOut(m *MessageOutput) string {
	return fmt.Sprintf("{Message %d bytes (nil: %v), To %q, From %q, RevokeID %x, %q:%d, CACert %d (nil: %v), Error %v, Resend %v}",
		len(m.Message), m.Message == nil, m.To, m.From, m.RevokeID, m.SmartHost, m.SMTPPort, len(m.CACert), m.CACert == nil, m.Error, m.Resend)
}

func vCopyOut(m *MessageOutput) *MessageOutput {
	r := *m
	return &r
}

// TestVerifMail: what a mail carries is what is read back, in lines a mail may have.
func TestVerifMail(t *testing.T) {
	v := vStart(t)
	max := MaxMessageSize
	for i := 0; i < v.n2(800, 15000); i++ {
		n := v.r.Intn(400)
		switch {
		case i < 220:
			n = i
		case v.r.Intn(4) == 0:
			n = []int{1023, 1024, 4096, 30000, 65536, 65648, 100000}[v.r.Intn(7)]
		}
		body := v.sbytes(n)
		was := append([]byte{}, body...)
		from, to := "client@mute.one", fmt.Sprintf("mix%d@mute.berlin", v.r.Intn(1000))
		m := WriteMail(from, to, body)
		v.check(bytes.Equal(body, was), "mail-input", "the body was changed")
		pm, err := mail.ReadMessage(bytes.NewReader(m))
		if !v.check(err == nil, "mail-form", "not a mail: %v", err) {
			continue
		}
		v.check(pm.Header.Get("From") == from && pm.Header.Get("To") == to, "mail-head", "from %q to %q", pm.Header.Get("From"), pm.Header.Get("To"))
		_, err = pm.Header.Date()
		v.check(err == nil, "mail-date", "%v", err)
		long := false
		for _, l := range bytes.Split(m, []byte("\r\n")) {
			long = long || len(l) > 72 && !bytes.Contains(l, []byte(":")) || bytes.ContainsAny(l, "\r\n")
		}
		v.check(!long, "mail-lines", "a line of the body of %d bytes is too long", n)
		back, err := ReadMail(m)
		v.check(err == nil && bytes.Equal(back, was), "mail-back", "%d bytes written, read as %d bytes: %v", n, len(back), err)
	}
	// the limit
	for _, d := range []int{-3, -1, 0, 1, 2, 100, 100000} {
		raw := bytes.Repeat([]byte("A"), (max+d)/4*4)
		for len(raw) < max+d {
			raw = append(raw, '\n')
		}
		m := append([]byte("From: a@b.c\r\n\r\n"), raw...)
		b, err := ReadMail(m)
		if d <= 0 {
			v.check(err == nil && len(b) == (max+d)/4*3, "mail-max", "body of %d bytes: %d %v", max+d, len(b), err)
		} else {
			v.check(err != nil, "mail-max", "body of %d bytes read", max+d)
		}
	}
	// whatever comes in
	for i := 0; i < v.n2(2000, 50000); i++ {
		m := v.bytes(v.r.Intn(100))
		if v.r.Intn(3) != 0 {
			m = WriteMail("a@b.c", "d@e.f", v.bytes(v.r.Intn(200)))
			for k := v.r.Intn(3); k >= 0; k-- {
				m[v.r.Intn(len(m))] = byte(v.r.Intn(256))
			}
			if v.r.Intn(3) == 0 {
				m = m[:v.r.Intn(len(m))]
			}
		}
		v.noPanic("mail-panic", func() {
			b, err := ReadMail(m)
			if err == nil {
				pm, _ := mail.ReadMessage(bytes.NewReader(m))
				raw, _ := ioutil.ReadAll(pm.Body)
				want, err := base64.StdEncoding.DecodeString(string(raw))
				v.check(err == nil && bytes.Equal(b, want), "mail-read", "%q read as %x", m, b)
			}
		}, "%q", m)
	}
	v.done()
}

var vErr = errors.New("verif: some error of another package")

func (v *vT) text() string {
	return []string{"", "mix@mute.berlin", "a", "127.0.0.1", strings.Repeat("x", 300), "ä@ö.ü", "nil "}[v.r.Intn(7)]
}

// TestVerifMarshal: a stored message comes back as it was.
func TestVerifMarshal(t *testing.T) {
	v := vStart(t)
	known := []error{ErrNIL, ErrAlreadySent, ErrMaxSize, smtpclient.ErrNoHost, smtpclient.ErrNoTLS, smtpclient.ErrNoAuth, smtpclient.ErrFinal, smtpclient.ErrRetry,
		mixcrypt.ErrNoKeys, mixcrypt.ErrTooShort, mixcrypt.ErrSize, mixcrypt.ErrBadSystem, nymaddr.ErrNoMix, nymaddr.ErrNoKey, nymaddr.ErrExpired, nymaddr.ErrHMAC, nymaddr.ErrBadKey}
	for i := 0; i < v.n2(2000, 40000); i++ {
		m := &MessageOutput{To: v.text(), From: v.text(), SmartHost: v.text(), SMTPPort: []int{0, 25, 65535, v.r.Intn(1 << 30), -1, 1 << 40}[v.r.Intn(6)], Resend: v.r.Intn(2) == 0}
		if v.r.Intn(3) != 0 {
			m.Message = v.bytes(1 + v.r.Intn(300))
		}
		if v.r.Intn(3) != 0 {
			m.CACert = v.bytes(1 + v.r.Intn(300))
		}
		if v.r.Intn(3) != 0 {
			m.RevokeID = v.bytes(1 + v.r.Intn(40))
		}
		switch v.r.Intn(4) {
		case 0, 1:
			m.Error = known[v.r.Intn(len(known))]
		case 2:
			m.Error = vErr
			if v.r.Intn(2) == 0 {
				m.Error = errors.New("450 some text " + v.text())
			}
		}
		was := vCopyOut(m)
		d := m.Marshal()
		v.check(vSame(m, was) && m.Error == was.Error, "marshal-input", "changed to %s", vOut(m))
		if !v.check(d != nil, "marshal", "%s", vOut(m)) {
			continue
		}
		r := d.Unmarshal()
		if !v.check(vSame(r, m) && (r.Error == nil) == (m.Error == nil), "unmarshal", "%s stored and read as %s", vOut(m), vOut(r)) || m.Error == nil {
			continue
		}
		reg := false
		for _, e := range known {
			reg = reg || e == m.Error
		}
		v.check(r.Error.Error() == m.Error.Error() && (!reg || r.Error == m.Error), "unmarshal-error", "error %v read as %v (a known one: %v)", m.Error, r.Error, reg)
		// a changed or cut one
		e := append(MessageMarshalled{}, d...)
		if v.r.Intn(2) == 0 {
			e[v.r.Intn(len(e))] ^= 1 << uint(v.r.Intn(8))
		} else {
			e = e[:v.r.Intn(len(e))]
		}
		v.noPanic("unmarshal-panic", func() {
			r := e.Unmarshal()
			var raw asn1.RawValue
			if _, err := asn1.Unmarshal(e, &raw); err != nil {
				v.check(r.Error != nil && !r.Resend, "unmarshal-garbage", "%x read as %s", e, vOut(r))
			}
		}, "%x", []byte(e))
	}
	v.done()
}

func (v *vT) mail(port int) (*MessageOutput, []byte) {
	body := v.bytes(v.r.Intn(3000))
	m := &MessageOutput{From: "client@mute.one", To: fmt.Sprintf("mix%d@mute.berlin", v.r.Intn(100)), RevokeID: v.bytes(32), SMTPPort: port, SmartHost: "127.0.0.1", Resend: true}
	m.Message = WriteMail(m.From, m.To, body)
	return m, body
}

// told: the server was told of the message
func (s vMailSeen) told() bool { return len(s.from)+len(s.to)+len(s.data) > 0 }

// took: the server took this message, once
func (s vMailSeen) took(m *MessageOutput, body []byte) string {
	if len(s.data) != 1 || len(s.from) < 1 || len(s.to) < 1 {
		return fmt.Sprintf("the server took %d messages", len(s.data))
	}
	if !strings.HasPrefix(s.from[len(s.from)-1], "MAIL FROM:<"+m.From+">") || s.to[len(s.to)-1] != "RCPT TO:<"+m.To+">" {
		return fmt.Sprintf("%q %q", s.from, s.to)
	}
	if !bytes.Equal(bytes.TrimRight([]byte(s.data[0]), "\r\n"), bytes.TrimRight(m.Message, "\r\n")) {
		return "not the message"
	}
	b, err := ReadMail([]byte(s.data[0]))
	if err != nil || !bytes.Equal(b, body) {
		return fmt.Sprintf("carries something else: %v", err)
	}
	return ""
}

// TestVerifDeliver: a message is sent exactly when the server took it, and is otherwise kept with the reason.
func TestVerifDeliver(t *testing.T) {
	v := vStart(t)
	log.SetOutput(ioutil.Discard)
	var nilOut *MessageOutput
	v.noPanic("deliver-nil", func() {
		r, err := nilOut.Deliver()
		v.check(r == nil && err == ErrNIL, "deliver-nil", "%v %v", r, err)
	}, "nil")
	for _, to := range []string{"", "nobody", "@", "a@", "a b c", "mix@"} { // no host to send to
		m := &MessageOutput{Message: []byte("m"), To: to, From: "a@b.c", RevokeID: v.bytes(32), Resend: true}
		was := vCopyOut(m)
		for k := 0; k < 2; k++ {
			r, err := m.Deliver()
			was.Resend = false
			v.check(r == m && err == smtpclient.ErrNoHost && m.Error == err && vSame(m, was), "deliver-no-host", "to %q: %v %s", to, err, vOut(m))
			m = m.Marshal().Unmarshal()
		}
	}
	stages := []string{"mail", "rcpt", "data", "end", "quit", "banner", "ehlo"}
	replies := []string{"450 4.2.0 busy", "550 5.1.1 no", "421 closing", "554 refused", "drop", "499 x", "500 y"}
	for i := 0; i < v.n2(110, 1500); i++ {
		script := map[string]string{}
		stage, reply := "", ""
		if i > 4 {
			stage, reply = stages[i%len(stages)], replies[v.r.Intn(len(replies))]
			if i < 60 {
				reply = replies[(i/len(stages))%len(replies)]
			}
			script[stage] = reply
			if stage == "ehlo" {
				script["helo"] = reply
			}
		}
		s := vServe(nil, script)
		m, body := v.mail(s.port)
		was := vCopyOut(m)
		r, err := m.Deliver()
		seen := s.stop()
		what := fmt.Sprintf("%s answered with %q", stage, reply)
		if stage == "" || stage == "quit" {
			p := seen.took(was, body)
			v.check(p == "", "deliver-mail", "%s: %s", what, p)
			v.check(err == nil && r != nil && r.Error == nil && !r.Resend && r.Message == nil && r.To == "" && r.From == "" && r.SMTPPort == 0 && r.SmartHost == "" && r.CACert == nil && bytes.Equal(r.RevokeID, was.RevokeID), "deliver-done", "%s: %v %s", what, err, vOut(r))
			r2, err := r.Deliver()
			v.check(err == ErrAlreadySent && r2 == r, "deliver-twice", "delivered again: %v", err)
			continue
		}
		v.check(len(seen.data) == 0, "deliver-undelivered", "%s: a message was taken", what)
		if !v.check(err != nil && r != nil && r.Error == err, "deliver-failed", "%s reported as delivered: %v", what, err) {
			continue
		}
		final := reply[0] == '5' && stage != "banner" && stage != "ehlo"
		if stage == "banner" || stage == "ehlo" {
			final = !r.Resend && reply[0] == '5'
		}
		v.check(r.Resend == !final, "deliver-resend", "%s: to send again: %v", what, r.Resend)
		if final {
			v.check(err != smtpclient.ErrFinal && strings.Contains(err.Error(), reply[:3]), "deliver-reason", "%s reported as %v", what, err)
		}
		w := vCopyOut(was)
		w.Resend = r.Resend
		v.check(vSame(r, w), "deliver-kept", "%s: %s became %s", what, vOut(was), vOut(r))
		// kept, read back and sent to a server that works
		back := r.Marshal().Unmarshal()
		v.check(vSame(back, r) && back.Error != nil && back.Error.Error() == err.Error(), "deliver-store", "%s stored and read as %s", vOut(r), vOut(back))
		s = vServe(nil, nil)
		back.SMTPPort = s.port
		r, err = back.Deliver()
		seen = s.stop()
		if final {
			v.check(err != nil && !seen.told() && r.Message != nil, "deliver-final", "%s: sent again", what)
		} else {
			p := seen.took(was, body)
			v.check(err == nil && p == "" && r.Error == nil && !r.Resend, "deliver-again", "%s, sent again: %s %v", what, p, err)
		}
	}
	v.done()
}

// TestVerifTLS: a message goes only to who the authority given vouches for.
func TestVerifTLS(t *testing.T) {
	v := vStart(t)
	log.SetOutput(ioutil.Discard)
	for i := 0; i < v.n2(24, 200); i++ {
		cert, ca := vCert(1)
		_, otherCA := vCert(2)
		var offered *tls.Certificate
		c := []string{"good", "other", "none", "garbage", "refused", "refused-final"}[i%6]
		if c != "none" {
			offered = &cert
		}
		script := map[string]string{}
		if c == "refused" {
			script["starttls"] = "454 not now"
		}
		if c == "refused-final" {
			script["starttls"] = "554 never"
		}
		s := vServe(offered, script)
		m, body := v.mail(s.port)
		m.CACert = ca
		if c == "other" {
			m.CACert = otherCA
		}
		if c == "garbage" {
			m.CACert = v.bytes(v.r.Intn(50))
			if m.CACert == nil {
				m.CACert = []byte{}
			}
		}
		was := vCopyOut(m)
		r, err := m.Deliver()
		seen := s.stop()
		if c == "good" {
			p := seen.took(was, body)
			v.check(err == nil && p == "" && seen.tls && !r.Resend && r.Message == nil, "tls-good", "%s (TLS: %v): %v", p, seen.tls, err)
			continue
		}
		v.check(err != nil && !seen.told() && bytes.Equal(r.Message, was.Message), "tls-"+c, "told without the authority's word: %v", err)
		if c == "refused" {
			v.check(r.Resend, "tls-retry", "a message refused for now is not sent again")
		}
	}
	v.done()
}

// vWeb answers HTTPS requests and keeps the last one.
type vWeb struct {
	s     *httptest.Server
	ca    []byte
	reply []byte
	code  int
	got   []string
}

func newWeb() *vWeb {
	w := &vWeb{code: 200}
	w.s = httptest.NewUnstartedServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		w.got = append(w.got, r.Method+" "+r.URL.String()+" "+string(b))
		rw.WriteHeader(w.code)
		rw.Write(w.reply)
	}))
	c, ca := vCert(3)
	w.ca = ca
	w.s.TLS = &tls.Config{Certificates: []tls.Certificate{c}}
	w.s.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	w.s.StartTLS()
	return w
}

func (w *vWeb) addr() string { return w.s.Listener.Addr().String() }

// TestVerifWeb: what comes from a mix comes from who the authority given vouches for, unchanged.
func TestVerifWeb(t *testing.T) {
	v := vStart(t)
	log.SetOutput(ioutil.Discard)
	old := GetMixAddress
	defer func() { GetMixAddress = old }()
	w := newWeb()
	defer w.s.Close()
	_, other := vCert(4)
	for i := 0; i < v.n2(60, 1000); i++ {
		w.reply = v.bytes(v.r.Intn(300))
		w.got = nil
		ca := w.ca
		bad := v.r.Intn(4) == 0
		if bad {
			ca = [][]byte{other, v.bytes(10), {}, nil}[v.r.Intn(4)]
		}
		path := fmt.Sprintf("/x?y=%d", v.r.Intn(1000))
		b, err := HTTPSGet("https://"+w.addr()+path, ca)
		if bad {
			v.check(err != nil && b == nil && len(w.got) == 0, "get-other", "got %d bytes of a stranger: %v", len(b), err)
		} else {
			v.check(err == nil && bytes.Equal(b, w.reply) && len(w.got) == 1 && w.got[0] == "GET "+path+" ", "get", "%x for %x: %v, %q", b, w.reply, err, w.got)
		}
		w.got = nil
		b, err = HTTPSPost(map[string][]string{"a": {"b c"}}, "https://"+w.addr()+path, ca)
		if bad {
			v.check(err != nil && b == nil && len(w.got) == 0, "post-other", "got %d bytes of a stranger: %v", len(b), err)
		} else {
			v.check(err == nil && bytes.Equal(b, w.reply) && len(w.got) == 1 && w.got[0] == "POST "+path+" a=b+c", "post", "%x for %x: %v, %q", b, w.reply, err, w.got)
		}
		// revocation
		asked := ""
		GetMixAddress = func(a string) (string, error) {
			asked = a
			return w.addr(), nil
		}
		w.reply = [][]byte{[]byte("REVOKED: yes"), []byte("REVOKED 1"), []byte("ERROR: no"), []byte("ERROR: REVOKED"), []byte("revoked: x"), []byte("NOT REVOKED: x"), {}, []byte("REVOKE"), []byte("ERROR"), v.bytes(v.r.Intn(20)), []byte("REVOKEDX")}[v.r.Intn(11)]
		id := v.bytes(32)
		w.got = nil
		v.noPanic("revoke-panic", func() {
			ok, err := RevokeMessage(id, "mix@mute.berlin", ca)
			want := !bad && len(w.reply) > 7 && strings.HasPrefix(string(w.reply), "REVOKED")
			v.check(ok == want && (err == nil) == want && asked == "mix@mute.berlin", "revoke", "answer %q (of a stranger: %v): %v %v", w.reply, bad, ok, err)
			if !bad {
				v.check(len(w.got) == 1 && w.got[0] == fmt.Sprintf("GET /revoke?revokeid=%x ", id), "revoke-call", "%q for %x", w.got, id)
			}
		}, "answer %q", w.reply)
		// keys
		st := mixaddr.AddressStatement{Addresses: mixaddr.AddressList{{Pubkey: v.bytes(32), Expire: int64(v.r.Intn(1000)), Address: "mix@mute.berlin", TokenKey: v.bytes(32)}}, Signature: v.bytes(64)}
		w.reply, _ = json.Marshal(st)
		garbled := v.r.Intn(3) == 0
		if garbled {
			w.reply = w.reply[:v.r.Intn(len(w.reply))]
		}
		w.got = nil
		v.noPanic("keys-panic", func() {
			s, err := GetMixKeys("mix@mute.berlin", ca)
			if bad || garbled {
				v.check(s == nil && err != nil, "keys-bad", "keys of a stranger or garbled ones taken: %q", w.reply)
				return
			}
			if v.check(err == nil && s != nil && len(w.got) == 1 && w.got[0] == "GET /keys ", "keys", "%v %q", err, w.got) {
				back, _ := json.Marshal(*s)
				v.check(bytes.Equal(back, w.reply), "keys-as-sent", "%s read as %s", w.reply, back)
			}
		}, "answer %q", w.reply)
		GetMixAddress = func(a string) (string, error) { return "", ErrNoHost }
		w.got = nil
		ok, err := RevokeMessage(id, "mix@mute.berlin", ca)
		s, err2 := GetMixKeys("mix@mute.berlin", ca)
		v.check(!ok && err != nil && s == nil && err2 != nil && len(w.got) == 0, "no-mix", "%v %v %v", ok, err, err2)
	}
	v.done()
}

// TestVerifCreate: a message created is sealed for the mix of the nymaddress and mailed to it; the mix finds the message.
func TestVerifCreate(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(60, 1000); i++ {
		var pub, priv [32]byte
		copy(priv[:], v.bytes(32))
		curve25519.ScalarBaseMult(&pub, &priv)
		now := times.Now()
		mixAdr := fmt.Sprintf("mix%d@mute.berlin", v.r.Intn(100))
		tmp := nymaddr.AddressTemplate{Secret: v.bytes(32), Expire: now + 5000, MinDelay: 1, MaxDelay: 2}
		tmp.MixCandidates = mixaddr.AddressList{{Pubkey: pub[:], Expire: now + 9000, Address: mixAdr, TokenKey: v.bytes(32)}}
		adr, err := tmp.NewAddress([]byte("box@mute.one"), v.bytes(32))
		if err != nil {
			panic(err)
		}
		in := MessageInput{SenderMinDelay: int32(v.r.Intn(100)), SenderMaxDelay: int32(100 + v.r.Intn(100)), Token: v.bytes(20), NymAddress: adr,
			Message: v.bytes(4096 + v.r.Intn(1000)), SMTPPort: v.r.Intn(65536), SmartHost: v.text(), CACert: v.bytes(v.r.Intn(5))}
		bad := v.r.Intn(6) == 0
		if bad {
			in.NymAddress = adr[:v.r.Intn(len(adr))]
		}
		m := in.Create()
		if bad {
			if !v.check(m != nil && m.Error != nil && m.Message == nil && !m.Resend, "create-bad", "made for a broken nymaddress: %s", vOut(m)) {
				continue
			}
			r, err := m.Deliver()
			v.check(r == m && err != nil && err == m.Error && err != ErrAlreadySent, "create-bad-deliver", "delivered: %v for %v", err, m.Error)
			continue
		}
		if !v.check(m != nil && m.Error == nil && m.Resend && m.To == mixAdr && m.From == DefaultSender && len(m.RevokeID) == 32 && m.SMTPPort == in.SMTPPort && m.SmartHost == in.SmartHost && bytes.Equal(m.CACert, in.CACert), "create", "%s", vOut(m)) {
			continue
		}
		sealed, err := ReadMail(m.Message)
		if !v.check(err == nil, "create-mail", "%v", err) {
			continue
		}
		rs, err := mixcrypt.ReceiveMessage(func(p *[32]byte) *[32]byte {
			if *p == pub {
				return &priv
			}
			return nil
		}, sealed)
		if !v.check(err == nil, "create-receive", "the mix does not accept it: %v", err) {
			continue
		}
		h := rs.MixHeader
		v.check(bytes.Equal(rs.Message, in.Message) && bytes.Equal(h.RevokeID, m.RevokeID) && bytes.Equal(h.Token, in.Token) && bytes.Equal(h.Address, adr) && h.SenderMinDelay == in.SenderMinDelay && h.SenderMaxDelay == in.SenderMaxDelay, "create-content", "the mix reads another message")
	}
	v.done()
}

// TestVerifMix: where a mix is asked.
func TestVerifMix(t *testing.T) {
	v := vStart(t)
	for _, a := range []string{"", "nobody", "@", "@x", "a@", strconv.Itoa(7)} {
		v.noPanic("mix-panic", func() {
			r, err := GetMixAddress(a)
			v.check(r == "" && err != nil, "mix-none", "%q: %q", a, r)
		}, "%q", a)
	}
	for _, e := range [][2]string{{"a@mute.one", "mute.one"}, {"A B <a@mute.one>", "mute.one"}, {"a@b.c", "b.c"}, {"\"x@y\"@b.cd", ""}, {"a", ""}, {"", ""}} {
		v.noPanic("domain-panic", func() {
			r := smtpclient.GetMailDomain(e[0])
			v.check(r == e[1] || e[1] == "", "domain", "%q: %q", e[0], r)
		}, "%q", e[0])
	}
	v.done()
}
