package client

import (
	"bytes"
	"crypto/ed25519"
	"crypto/tls"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/mutecomm/mute/serviceguard/common/walletauth"
)

type vCall struct {
	path, method string
	args         map[string]interface{}
	token        string
	raw          string
}

// vAcc is an account server that answers what it is told to.
type vAcc struct {
	s       *httptest.Server
	ca      []byte
	calls   []vCall
	replay  []uint64    // replay errors to answer first
	result  interface{} // then this result
	rpcErr  string      // or this error
	garbage []byte      // or these bytes
	message []byte      // for /message
}

func newAcc() *vAcc {
	a := &vAcc{}
	a.s = httptest.NewUnstartedServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		c := vCall{path: r.URL.Path}
		if r.URL.Path == "/message" {
			r.ParseForm()
			c.token = r.PostForm.Get("authtoken")
			c.raw = r.PostForm.Get("messageid")
			a.calls = append(a.calls, c)
			if len(a.replay) > 0 {
				fmt.Fprintf(rw, "ERROR: ErrReplay: %d", a.replay[0])
				a.replay = a.replay[1:]
				return
			}
			rw.Write(a.message)
			return
		}
		b, _ := ioutil.ReadAll(r.Body)
		var q struct {
			Method string
			Params map[string]interface{}
			Id     interface{}
		}
		json.Unmarshal(b, &q)
		c.method, c.args = q.Method, q.Params
		c.token, _ = q.Params["AuthToken"].(string)
		c.raw = string(b)
		a.calls = append(a.calls, c)
		rep := map[string]interface{}{"jsonrpc": "2.0", "id": q.Id}
		switch {
		case len(a.replay) > 0:
			rep["error"] = map[string]interface{}{"code": -32000, "message": fmt.Sprintf("ErrReplay: %d", a.replay[0])}
			a.replay = a.replay[1:]
		case a.garbage != nil:
			rw.Write(a.garbage)
			return
		case a.rpcErr != "":
			rep["error"] = map[string]interface{}{"code": -32000, "message": a.rpcErr}
		default:
			rep["result"] = a.result
		}
		j, _ := json.Marshal(rep)
		rw.Write(j)
	}))
	c, ca := vCert(5)
	a.ca = ca
	a.s.TLS = &tls.Config{Certificates: []tls.Certificate{c}}
	a.s.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	a.s.StartTLS()
	return a
}

func (a *vAcc) port() string {
	_, p, _ := net.SplitHostPort(a.s.Listener.Addr().String())
	return p
}

// any JSON value
func (v *vT) json(depth int) interface{} {
	switch v.r.Intn(9) {
	case 0:
		return nil
	case 1:
		return v.r.Intn(2) == 0
	case 2:
		return float64(v.r.Int63n(1 << 50))
	case 3:
		return -1.5
	case 4:
		return []string{"", "a", hex.EncodeToString(v.bytes(32)), hex.EncodeToString(v.bytes(31)), "0g", "rr.accounts.mute.one"}[v.r.Intn(6)]
	case 5, 6:
		if depth == 0 {
			return []interface{}{}
		}
		l := []interface{}{}
		for i := v.r.Intn(3); i > 0; i-- {
			l = append(l, v.json(depth-1))
		}
		return l
	}
	m := map[string]interface{}{}
	if depth > 0 {
		for _, k := range []string{"Server", "Result", "LoadTime", "Messages", "ReceiveTime", "ReceiveTimeNano", "ReadTime", "UserKey", "MessageID", "x"} {
			if v.r.Intn(3) == 0 {
				m[k] = v.json(depth - 1)
			}
		}
	}
	return m
}

type vMsg struct {
	id, key         []byte
	recv, nano, red int64
}

func (m vMsg) json() map[string]interface{} {
	return map[string]interface{}{"MessageID": hex.EncodeToString(m.id), "UserKey": hex.EncodeToString(m.key), "ReceiveTime": float64(m.recv), "ReceiveTimeNano": float64(m.nano), "ReadTime": float64(m.red)}
}

func (m vMsg) same(o MessageMeta) bool {
	return bytes.Equal(m.id, o.MessageID) && bytes.Equal(m.key, o.UserKey[:]) && m.recv == o.ReceiveTime && m.nano == o.ReceiveTimeNano && m.red == o.ReadTime
}

// tokens checks the authentication of all calls made.
func (a *vAcc) tokens(v *vT, what string, pub []byte, replays []uint64) {
	seen := map[string]bool{}
	for i, c := range a.calls {
		d, err := base64.StdEncoding.DecodeString(c.token)
		if !v.check(err == nil, what+"-token", "%q: %v", c.token, err) {
			return
		}
		k, _, counter, err := walletauth.AuthToken(d).CheckToken()
		if !v.check(err == nil && bytes.Equal(k[:], pub), what+"-token", "call %d is not authenticated by the key: %v", i, err) {
			return
		}
		v.check(!seen[c.token], what+"-token-twice", "the same token in two calls")
		seen[c.token] = true
		if i > 0 && i-1 < len(replays) {
			v.check(counter == replays[i-1]+1, what+"-counter", "counter %d after a replay error with %d", counter, replays[i-1])
		}
	}
}

// TestVerifAccount: every call is authenticated, goes to the server named, is tried again after a replay error, and gives what the server said.
func TestVerifAccount(t *testing.T) {
	v := vStart(t)
	oldPort, oldServer := RPCPort, DefaultAccountServer
	defer func() { RPCPort, DefaultAccountServer = oldPort, oldServer }()
	a, b := newAcc(), newAcc() // b is the one no call should reach
	defer a.s.Close()
	defer b.s.Close()
	_, other := vCert(6)
	RPCPort = a.port()
	const host = "127.0.0.1"
	for i := 0; i < v.n2(1200, 15000); i++ {
		_, priv, err := ed25519.GenerateKey(v.r)
		if err != nil {
			panic(err)
		}
		var key [64]byte
		copy(key[:], priv)
		was := key
		a.calls, a.rpcErr, a.garbage, a.message = nil, "", nil, nil
		a.replay, a.result = nil, nil
		for k := []int{0, 0, 0, 0, 1, 2, 3, 4, 5}[v.r.Intn(9)]; k > 0; k-- {
			a.replay = append(a.replay, []uint64{v.u64(), uint64(v.r.Int63()), 0}[v.r.Intn(3)])
		}
		replays := append([]uint64{}, a.replay...)
		ca := a.ca
		stranger := v.r.Intn(12) == 0
		if stranger {
			ca = [][]byte{other, v.bytes(20), {}}[v.r.Intn(3)]
		}
		any := false // whatever reply
		mode := v.r.Intn(5)
		if mode == 0 {
			any = true
			a.result = v.json(3)
			if m, ok := a.result.(map[string]interface{}); ok && v.r.Intn(2) == 0 {
				for _, k := range []string{"Server", "Result", "LoadTime", "Messages"} {
					m[k] = v.json(2)
				}
			}
		}
		if mode == 1 {
			a.rpcErr = []string{"no such account", "ErrReplay: ", "ErrReplay: x", "ErrReplay:5", "ErrReplay: 99999999999999999999", "x ErrReplay: 5"}[v.r.Intn(6)]
		}
		if mode == 2 && v.r.Intn(2) == 0 {
			a.garbage = v.bytes(v.r.Intn(40))
		}
		failing := a.rpcErr != "" || a.garbage != nil
		exhausted := len(replays) > 3
		ok := !stranger && !failing && !exhausted
		good := func(what string, err error, method string) bool { // what all calls have in common; the call has to give the result
			v.check(key == was, what+"-key", "the key was changed")
			if stranger {
				return v.check(err != nil && len(a.calls) == 0, what+"-stranger", "%d calls made to a stranger: %v", len(a.calls), err) && false
			}
			want := len(replays) + 1
			if want > 4 {
				want = 4
			}
			a.tokens(v, what, was[32:], replays)
			if !v.check(len(a.calls) == want, what+"-calls", "%d calls after %d replay errors", len(a.calls), len(replays)) {
				return false
			}
			for _, c := range a.calls {
				v.check(c.method == method && c.path == map[bool]string{true: "/account", false: "/message"}[method != ""], what+"-call", "%s %s", c.path, c.method)
			}
			if exhausted {
				v.check(err == walletauth.ErrReplay, what+"-replay", "error %v after %d replay errors", err, len(replays))
			} else if failing {
				v.check(err != nil, what+"-error", "no error for %q%q", a.rpcErr, a.garbage)
				if a.rpcErr != "" && err != nil {
					v.check(err.Error() == a.rpcErr, what+"-error", "%q given as %q", a.rpcErr, err)
				}
			}
			return ok
		}
		res := func(k string) (interface{}, bool) {
			m, _ := a.result.(map[string]interface{})
			x, ok := m[k]
			return x, ok
		}
		switch i % 5 {
		case 0: // pay
			token, known := v.bytes(v.r.Intn(100)), host
			DefaultAccountServer = "127.0.0.2"
			if v.r.Intn(3) == 0 {
				known, DefaultAccountServer = "", host
			}
			if !any {
				a.result = map[string]interface{}{"Server": fmt.Sprintf("s%d.mute.one", v.r.Intn(100)), "x": 1}
			}
			v.noPanic("pay-panic", func() {
				s, err := PayAccount(&key, token, known, ca)
				v.check(err == nil || s == "", "pay-server", "server %q and error %v", s, err)
				if !good("pay", err, "AccountServer.LoadAccount") {
					return
				}
				x, _ := res("Server")
				w, isText := x.(string)
				v.check((err == nil) == isText && s == w, "pay-server", "%v answered, %q given: %v", a.result, s, err)
				last := a.calls[len(a.calls)-1]
				v.check(last.args["PayToken"] == base64.StdEncoding.EncodeToString(token), "pay-token", "%v for %x", last.args, token)
			}, "%v", a.result)
		case 1: // delete
			if !any {
				a.result = map[string]interface{}{"Result": v.r.Intn(2) == 0}
			}
			v.noPanic("delete-panic", func() {
				err := DeleteAccount(&key, host, ca)
				if !good("delete", err, "AccountServer.DeleteAccount") {
					return
				}
				x, _ := res("Result")
				w, _ := x.(bool)
				v.check((err == nil) == w, "delete-result", "%v answered: %v", a.result, err)
			}, "%v", a.result)
		case 2: // stat
			if !any {
				a.result = map[string]interface{}{"LoadTime": float64(v.r.Int63n(1 << 52))}
			}
			v.noPanic("stat-panic", func() {
				n, err := AccountStat(&key, host, ca)
				v.check(err == nil || n == 0, "stat-time", "%d and error %v", n, err)
				if !good("stat", err, "AccountServer.AccountStat") {
					return
				}
				x, _ := res("LoadTime")
				w, isNum := x.(float64)
				v.check((err == nil) == isNum && n == int64(w), "stat-time", "%v answered, %d given: %v", a.result, n, err)
			}, "%v", a.result)
		case 3: // list
			var want []vMsg
			var l []interface{}
			bad := false
			since := v.r.Int63n(1 << 40)
			if !any {
				for k := v.r.Intn(5); k > 0; k-- {
					m := vMsg{v.sbytes(v.r.Intn(40)), v.bytes(32), v.r.Int63n(1 << 40), v.r.Int63n(1 << 52), v.r.Int63n(3)}
					if len(want) > 0 && v.r.Intn(2) == 0 { // parts equal to those of the one before
						o := want[len(want)-1]
						e := v.r.Intn(31)
						if e&1 != 0 {
							m.id = o.id
						}
						if e&2 != 0 {
							m.key = o.key
						}
						if e&4 != 0 {
							m.recv = o.recv
						}
						if e&8 != 0 {
							m.nano = o.nano
						}
						if e&16 != 0 {
							m.red = o.red
						}
					}
					want = append(want, m)
					j := m.json()
					if v.r.Intn(8) == 0 {
						bad = true
						k := []string{"MessageID", "UserKey", "ReceiveTime", "ReceiveTimeNano", "ReadTime"}[v.r.Intn(5)]
						switch v.r.Intn(4) {
						case 0:
							delete(j, k)
						case 1:
							j[k] = []interface{}{}
						case 2:
							j[k] = nil
						case 3:
							j[k] = true
							if k == "MessageID" {
								j[k] = "0g"
							}
							if k == "UserKey" {
								j[k] = hex.EncodeToString(v.bytes([]int{0, 31, 33, 64}[v.r.Intn(4)]))
							}
						}
					}
					if v.r.Intn(12) == 0 {
						bad = true
						l = append(l, []interface{}{nil, "x", 1.5, []interface{}{}}[v.r.Intn(4)])
					} else {
						l = append(l, j)
					}
				}
				if l == nil {
					l = []interface{}{}
				}
				a.result = map[string]interface{}{"Messages": l}
			}
			v.noPanic("list-panic", func() {
				r, err := ListMessages(&key, since, host, ca)
				v.check(err == nil || r == nil, "list", "%d messages and error %v", len(r), err)
				if !good("list", err, "AccountServer.ListMessages") {
					return
				}
				if n, _ := a.calls[len(a.calls)-1].args["LastReceiveTime"].(float64); int64(n) != since {
					v.fail("list-since", "%v for %d", a.calls[len(a.calls)-1].args, since)
				}
				if any {
					x, _ := res("Messages")
					l, isList := x.([]interface{})
					v.check((err == nil) == isList || err != nil && len(l) > 0, "list-any", "%v: %d messages, %v", a.result, len(r), err)
					v.check(err != nil || len(r) == len(l), "list-any", "%v: %d messages", a.result, len(r))
					return
				}
				if bad {
					v.check(err != nil, "list-bad", "%v read as %d messages", a.result, len(r))
					return
				}
				same := err == nil && len(r) == len(want)
				for k := 0; same && k < len(r); k++ {
					same = want[k].same(r[k])
				}
				v.check(same, "list-messages", "%v read as %v: %v", a.result, r, err)
			}, "%v", a.result)
		case 4: // fetch
			id, body := v.bytes(v.r.Intn(40)), v.bytes(v.r.Intn(300))
			a.rpcErr = ""
			failing, ok = false, !stranger && !exhausted
			a.message = WriteMail("a@b.c", "d@e.f", body)
			bad := v.r.Intn(3) == 0
			if bad {
				a.message = [][]byte{{}, []byte("ERROR:"), []byte("ERROR: "), []byte("ERROR: no"), []byte("ERROR:ErrReplay: 5"), []byte("ERROR: ErrReplay: x"), []byte("12345"), []byte("1234567"), append([]byte("A: b\r\n\r\n"), v.bytes(50)...), []byte("A: b\r\n\r\n=")}[v.r.Intn(10)]
			}
			v.noPanic("fetch-panic", func() {
				m, err := FetchMessage(&key, id, host, ca)
				v.check(err == nil || m == nil, "fetch", "message %x and error %v", m, err)
				if !good("fetch", err, "") {
					return
				}
				last := a.calls[len(a.calls)-1]
				v.check(last.raw == hex.EncodeToString(id), "fetch-id", "%q for %x", last.raw, id)
				if bad {
					v.check(err != nil, "fetch-bad", "%q read as %x", a.message, m)
				} else {
					v.check(err == nil && bytes.Equal(m, body), "fetch-message", "%x read as %x: %v", body, m, err)
				}
			}, "%q", a.message)
		}
		if v.fails > 30 {
			break
		}
	}
	v.check(len(b.calls) == 0, "other", "another server was called")
	v.done()
}
