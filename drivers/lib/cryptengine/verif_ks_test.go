package cryptengine

import (
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	stdb64 "encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	stdlog "log"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/cryptengine/cache"
	"github.com/mutecomm/mute/def"
	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/log"
	"github.com/mutecomm/mute/uid"
)

func init() { log.Init("critical", "ce   ", "", false) }

func vCert(serial int64) (tls.Certificate, []byte) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{
		SerialNumber:          big.NewInt(serial),
		Subject:               pkix.Name{CommonName: "127.0.0.1"},
		NotBefore:             time.Now().Add(-time.Hour),
		NotAfter:              time.Now().Add(24 * time.Hour),
		IsCA:                  true,
		BasicConstraintsValid: true,
		KeyUsage:              x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
		ExtKeyUsage:           []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		IPAddresses:           []net.IP{net.ParseIP("127.0.0.1")},
	}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

type vObj = map[string]interface{}

type vCall struct {
	method string
	args   vObj
}

// vKS is a key server; methods may be replaced by the driver.
type vKS struct {
	srv   *httptest.Server
	m     map[string]func(a vObj) interface{}
	calls []vCall
}

func (k *vKS) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, _ := io.ReadAll(r.Body)
	var q struct {
		Method string      `json:"method"`
		Params interface{} `json:"params"`
		ID     interface{} `json:"id"`
	}
	json.Unmarshal(b, &q)
	a, ok := q.Params.(map[string]interface{})
	if l, isl := q.Params.([]interface{}); !ok && isl && len(l) == 1 {
		a, _ = l[0].(map[string]interface{})
	}
	k.calls = append(k.calls, vCall{q.Method, a})
	var res interface{}
	if f := k.m[q.Method]; f != nil {
		res = f(a)
	}
	w.Header().Set("Content-Type", "application/json")
	if e, ok := res.(error); ok || res == nil {
		msg := "no such method"
		if ok {
			msg = e.Error()
		}
		j, _ := json.Marshal(vObj{"jsonrpc": "2.0", "id": q.ID, "error": vObj{"code": -32000, "message": msg}})
		w.Write(j)
		return
	}
	j, err := json.Marshal(vObj{"jsonrpc": "2.0", "id": q.ID, "result": res})
	if err != nil {
		panic(err)
	}
	w.Write(j)
}

func (k *vKS) last(method string) vObj {
	for i := len(k.calls) - 1; i >= 0; i-- {
		if k.calls[i].method == method {
			return k.calls[i].args
		}
	}
	return nil
}

func (k *vKS) count(method string) (n int) {
	for _, c := range k.calls {
		if c.method == method {
			n++
		}
	}
	return
}

var vMethods = []string{"KeyRepository.Capabilities", "KeyRepository.CreateUID", "KeyRepository.UpdateUID", "KeyRepository.FetchUID",
	"KeyInitRepository.AddKeyInit", "KeyInitRepository.FetchKeyInit", "KeyInitRepository.FlushKeyInit",
	"KeyHashchain.FetchLastHashChain", "KeyHashchain.FetchHashChain", "KeyHashchain.LookupUID"}

type vWorld struct {
	ks   *vKS
	ce   *CryptEngine
	key  *cipher.Ed25519Key // the key server's signature key
	dir  string
	nth  int
	caps vObj
}

func vNewWorld() *vWorld {
	dir, err := os.MkdirTemp("", "verif-ce")
	if err != nil {
		panic(err)
	}
	w := &vWorld{dir: dir, ks: &vKS{m: map[string]func(a vObj) interface{}{}}}
	cert, ca := vCert(time.Now().UnixNano())
	def.CACert = ca
	w.ks.srv = httptest.NewUnstartedServer(w.ks)
	w.ks.srv.TLS = &tls.Config{Certificates: []tls.Certificate{cert}}
	w.ks.srv.Config.ErrorLog = stdlog.New(io.Discard, "", 0)
	w.ks.srv.StartTLS()
	w.key, err = cipher.Ed25519Generate(cipher.RandReader)
	if err != nil {
		panic(err)
	}
	w.caps = vObj{"METHODS": vMethods, "SIGPUBKEYS": []string{vEnc(w.key.PublicKey()[:])}, "DOMAINS": []string{"x"}}
	w.ks.m["KeyRepository.Capabilities"] = func(a vObj) interface{} { return vObj{"CAPABILITIES": w.caps} }
	w.ce = w.engine()
	return w
}

func (w *vWorld) engine() *CryptEngine {
	w.nth++
	name := filepath.Join(w.dir, fmt.Sprint("keydb", w.nth))
	pw := []byte("passphrase")
	if err := keydb.Create(name, pw, 4096); err != nil {
		panic(err)
	}
	db, err := keydb.Open(name, pw)
	if err != nil {
		panic(err)
	}
	addr := w.ks.srv.Listener.Addr().String()
	host, port, _ := net.SplitHostPort(addr)
	return &CryptEngine{keyDB: db, cache: cache.New(), keydHost: host, keydPort: ":" + port, homedir: w.dir}
}

func (w *vWorld) close() {
	w.ce.keyDB.Close()
	w.ks.srv.Close()
	if strings.Contains(w.dir, "verif-ce") {
		os.RemoveAll(w.dir)
	}
}

func vEnc(b []byte) string { return stdb64.StdEncoding.EncodeToString(b) }
func vDec(s string) []byte { b, _ := stdb64.StdEncoding.DecodeString(s); return b }
func vSum(l ...[]byte) []byte {
	h := sha256.Sum256(bytes.Join(l, nil))
	return h[:]
}

func vMust(err error) {
	if err != nil {
		panic(err)
	}
}

func vUID(name string) *uid.Message {
	m, err := uid.Create(name, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
	vMust(err)
	return m
}

func vCopyUID(m *uid.Message) *uid.Message {
	r, err := uid.NewJSON(string(m.JSON()))
	vMust(err)
	return r
}

// vPlain: the object as it looks after travelling as JSON
func vPlain(x interface{}) vObj {
	j, err := json.Marshal(x)
	vMust(err)
	var r vObj
	vMust(json.Unmarshal(j, &r))
	return r
}

// vEntry makes hash chain entry: what the key server records for the ID
// message with the given hash and index under the identity.
func vEntry(prev []byte, id string, uidHash, uidIndex []byte) []byte {
	nonce := make([]byte, 8)
	crand.Read(nonce)
	k1, k2 := cipher.CKDF(nonce)
	hid := vSum(k1, []byte(id))
	blk, err := aes.NewCipher(vSum(k2, []byte(id)))
	vMust(err)
	cr := make([]byte, 48)
	crand.Read(cr[:16])
	stdcipher.NewCBCEncrypter(blk, cr[:16]).CryptBlocks(cr[16:], uidHash)
	rest := bytes.Join([][]byte{{1}, nonce, hid, cr, uidIndex}, nil)
	if prev == nil {
		prev = make([]byte, 32)
	}
	return append(vSum(rest, prev), rest...)
}

// vChain is the hash chain of a domain with the replies for its entries
type vChain struct {
	domain  string
	entries []string
	replies map[string]*uid.MessageReply // by index (base64)
}

func (c *vChain) prev() []byte {
	if len(c.entries) == 0 {
		return nil
	}
	return vDec(c.entries[len(c.entries)-1])[:32]
}

// encrypt as the key server stores the ID message
func vEncUID(jsn, hash []byte) (index []byte, enc string) {
	index = vSum(hash)
	blk, err := aes.NewCipher(hash)
	vMust(err)
	out := make([]byte, 16+len(jsn))
	crand.Read(out[:16])
	stdcipher.NewCTR(blk, out[:16]).XORKeyStream(out[16:], jsn)
	return index, vEnc(append(append([]byte{}, index...), out...))
}

// add the ID message under the identity id, answered with a reply signed by key
func (c *vChain) add(id string, m *uid.Message, key *cipher.Ed25519Key) {
	jsn := m.JSON()
	hash := vSum(jsn)
	c.addRaw(id, jsn, hash, key)
}

func (c *vChain) addRaw(id string, jsn, hash []byte, key *cipher.Ed25519Key) {
	index, enc := vEncUID(jsn, hash)
	e := vEnc(vEntry(c.prev(), id, hash, index))
	pos := uint64(len(c.entries))
	c.entries = append(c.entries, e)
	c.replies[vEnc(index)] = vReply(enc, e, pos, key)
}

func vReply(enc, entry string, pos uint64, key *cipher.Ed25519Key) *uid.MessageReply {
	r := &uid.MessageReply{ENTRY: uid.Entry{UIDMESSAGEENCRYPTED: enc, HASHCHAINENTRY: entry, HASHCHAINPOS: pos}}
	j, err := json.Marshal(vPlainNumber(r.ENTRY))
	vMust(err)
	r.SERVERSIGNATURE = vEnc(key.Sign(j))
	return r
}

func vPlainNumber(x interface{}) vObj {
	j, err := json.Marshal(x)
	vMust(err)
	d := json.NewDecoder(bytes.NewReader(j))
	d.UseNumber()
	var r vObj
	vMust(d.Decode(&r))
	return r
}

func (w *vWorld) chain() *vChain {
	w.nth++
	return &vChain{domain: fmt.Sprintf("d%d.one", w.nth), replies: map[string]*uid.MessageReply{}}
}

// serve answers for the chain
func (w *vWorld) serve(c *vChain) {
	w.ks.m["KeyHashchain.FetchLastHashChain"] = func(a vObj) interface{} {
		n := len(c.entries) - 1
		return vObj{"HCEntry": c.entries[n], "HCPos": n}
	}
	w.ks.m["KeyHashchain.FetchHashChain"] = func(a vObj) interface{} {
		s, _ := a["StartPosition"].(float64)
		e, _ := a["EndPosition"].(float64)
		if int(s) < 0 || int(e) >= len(c.entries) || s > e {
			return fmt.Errorf("no such entries")
		}
		return vObj{"HCEntries": c.entries[int(s) : int(e)+1], "HCFirstPos": s}
	}
	w.ks.m["KeyRepository.FetchUID"] = func(a vObj) interface{} {
		i, _ := a["UIDIndex"].(string)
		r := c.replies[i]
		if r == nil {
			return fmt.Errorf("not found")
		}
		return vObj{"UIDMessageReply": r}
	}
	w.ks.m["KeyHashchain.LookupUID"] = func(a vObj) interface{} {
		id, _ := a["Identity"].(string)
		var l []int
		for i, e := range c.entries {
			b := vDec(e)
			if len(b) != 153 {
				continue
			}
			k1, _ := cipher.CKDF(b[33:41])
			if bytes.Equal(vSum(k1, []byte(id)), b[41:73]) {
				l = append(l, i)
			}
		}
		if l == nil {
			return fmt.Errorf("not found")
		}
		return vObj{"HCPositions": l}
	}
}

// load puts the chain into the local database as it is
func (w *vWorld) load(c *vChain) {
	for i, e := range c.entries {
		vMust(w.ce.keyDB.AddHashChainEntry(c.domain, uint64(i), e))
	}
}

// srvUID is the key server's own ID message for the domain
func (w *vWorld) srvUID(domain string) (*uid.Message, *cipher.Ed25519Key) {
	m := vUID("keyserver@" + domain)
	var k cipher.Ed25519Key
	vMust(k.SetPrivateKey(m.PrivateSigKey64()[:]))
	return m, &k
}
