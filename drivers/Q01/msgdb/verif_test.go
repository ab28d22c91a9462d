package msgdb

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
)

func vOpen(v *vT, dir string) *MsgDB {
	name := filepath.Join(dir, "msgs")
	pass := []byte("a passphrase")
	if _, err := os.Stat(name + ".db"); err != nil {
		if err := Create(name, pass, 10); err != nil {
			v.t.Fatal(err)
		}
	}
	db, err := Open(name, pass)
	if err != nil {
		v.t.Fatal(err)
	}
	return db
}

func vDir(t *testing.T) (string, func()) {
	d, err := ioutil.TempDir("", "verif-msgdb")
	if err != nil {
		t.Fatal(err)
	}
	return d, func() { os.RemoveAll(d) }
}

// mapped identity, two ways of writing it
var vIDs = [][3]string{
	{"alice@mute.berlin", "alice@mute.berlin", "Alice@Mute.Berlin"},
	{"lohn@mute.berlin", "1ohn@mute.berlin", "LOHN@mute.berlin"},
	{"bob@mute.berlin", "bob@mute.berlin", "B0b@mute.berlin"},
	{"bob@two.example", "BOB@two.example", "b0b@two.example"},
	{"car.ol@mute.berlin", "car.ol@mute.berlin", "Car.0l@mute.berlin"},
}

type vContact struct {
	un, full string
	ct       ContactType
}
type vAcc struct {
	priv, secret [64]byte
	server       string
	min, max     int32
	load, last   int64
}
type vMsg struct {
	id               int64
	peer             string
	out, toSend      bool
	sent, read, sign bool
	from, to         string
	date             int64
	text             string
	min, max         int32
}
type vOut struct {
	id       int64
	nym      string
	msg      int64
	enc, adr string
	min, max int32
	envelope bool
	resend   bool
}
type vIn struct {
	id       int64
	nym, con string
	date     int64
	msg      string
	envelope bool
}
type vCache struct{ nym, con, id string }
type vNym struct {
	un, full string
	all, acc int64
}

type vM struct {
	v     *vT
	dir   string
	db    *MsgDB
	vals  map[string]string
	nyms  map[string]*vNym
	cons  map[string]map[string]*vContact
	accs  map[string]map[string]*vAcc
	msgs  map[string][]*vMsg
	outs  []*vOut
	ins   []*vIn
	cache []vCache
	hist  []string
	bad   bool
}

func (m *vM) log() string {
	h := m.hist
	if len(h) > 25 {
		h = h[len(h)-25:]
	}
	return strings.Join(h, "; ")
}

func (m *vM) ok(c bool, key, f string, a ...interface{}) {
	if !m.v.check(c, key, "%s (after %s)", fmt.Sprintf(f, a...), m.log()) {
		m.bad = true
	}
}

func vShown(full, un string) string {
	if full == "" {
		return un
	}
	return full + " <" + un + ">"
}

func vEq(a, b []string) bool {
	a, b = append([]string{}, a...), append([]string{}, b...)
	sort.Strings(a)
	sort.Strings(b)
	return reflect.DeepEqual(a, b)
}

func (m *vM) find(id int64) *vMsg {
	for _, l := range m.msgs {
		for _, x := range l {
			if x.id == id {
				return x
			}
		}
	}
	return nil
}

// compare compares everything that can be asked with the model.
func (m *vM) compare() {
	db := m.db
	for k, w := range m.vals {
		g, err := db.GetValue(k)
		m.ok(err == nil && g == w, "value", "GetValue(%q) = %q, %v, want %q", k, g, err, w)
	}
	if n, err := db.Version(); true {
		m.ok(err == nil && n == Version, "version", "Version() = %q, %v", n, err)
	}
	var mapped, un []string
	for id, n := range m.nyms {
		mapped = append(mapped, id)
		un = append(un, vShown(n.full, n.un))
	}
	g, err := db.GetNyms(true)
	m.ok(err == nil && vEq(g, mapped), "nyms", "GetNyms(true) = %q, %v, want %q", g, err, mapped)
	g, err = db.GetNyms(false)
	m.ok(err == nil && vEq(g, un), "nyms", "GetNyms(false) = %q, %v, want %q", g, err, un)
	for _, ids := range vIDs {
		id := ids[0]
		n := m.nyms[id]
		u, f, err := db.GetNym(id)
		if n == nil {
			m.ok(err == nil && u == "" && f == "", "nym", "GetNym(%s) = %q, %q, %v without such a nym", id, u, f, err)
			_, err = db.GetMsgIDs(id)
			m.ok(err != nil, "nym", "GetMsgIDs(%s) without such a nym", id)
			_, _, _, _, _, _, err = db.GetOutQueue(id)
			m.ok(err != nil, "nym", "GetOutQueue(%s) without such a nym", id)
			_, _, _, _, _, _, err = db.GetUndeliveredMessage(id)
			m.ok(err != nil, "nym", "GetUndeliveredMessage(%s) without such a nym", id)
			_, err = db.GetUpkeepAll(id)
			m.ok(err != nil, "nym", "GetUpkeepAll(%s) without such a nym", id)
			continue
		}
		m.ok(err == nil && u == n.un && f == n.full, "nym", "GetNym(%s) = %q, %q, %v, want %q, %q", id, u, f, err, n.un, n.full)
		t, err := db.GetUpkeepAll(id)
		m.ok(err == nil && t == n.all, "upkeep", "GetUpkeepAll(%s) = %d, %v, want %d", id, t, err, n.all)
		t, err = db.GetUpkeepAccounts(id)
		m.ok(err == nil && t == n.acc, "upkeep", "GetUpkeepAccounts(%s) = %d, %v, want %d", id, t, err, n.acc)
		m.compareNym(id)
	}
	// in queue
	iq, my, con, msg, env, err := db.GetInQueue()
	if len(m.ins) == 0 {
		m.ok(err == nil && iq == 0 && my == "" && con == "" && msg == "" && !env, "inqueue", "GetInQueue() = %d, %q, %q, %q, %v, %v for an empty queue", iq, my, con, msg, env, err)
	} else {
		w := m.ins[0]
		if w.id == 0 {
			w.id = iq
		}
		m.ok(err == nil && iq == w.id && my == w.nym && con == w.con && msg == w.msg && env == w.envelope, "inqueue",
			"GetInQueue() = %d, %q, %q, %q, %v, %v, want %+v", iq, my, con, msg, env, err, *w)
	}
	n := 0
	for _, l := range m.msgs {
		n += len(l)
	}
	num, err := db.numberOfMessages()
	m.ok(err == nil && num == int64(n), "messages", "%d messages (%v), want %d", num, err, n)
}

func (m *vM) compareNym(id string) {
	db := m.db
	// contacts
	var white, black []string
	for _, c := range m.cons[id] {
		switch c.ct {
		case WhiteList:
			white = append(white, vShown(c.full, c.un))
		case BlackList:
			black = append(black, vShown(c.full, c.un))
		}
	}
	g, err := db.GetContacts(id, false)
	m.ok(err == nil && vEq(g, white), "contacts", "GetContacts(%s, false) = %q, %v, want %q", id, g, err, white)
	g, err = db.GetContacts(id, true)
	m.ok(err == nil && vEq(g, black), "contacts", "GetContacts(%s, true) = %q, %v, want %q", id, g, err, black)
	for _, c := range vIDs {
		u, f, ct, err := db.GetContact(id, c[0])
		w := m.cons[id][c[0]]
		if w == nil {
			w = &vContact{}
		}
		m.ok(err == nil && u == w.un && f == w.full && ct == w.ct, "contact", "GetContact(%s, %s) = %q, %q, %d, %v, want %+v", id, c[0], u, f, ct, err, *w)
	}
	// accounts and the message ID cache
	var accs []string
	for c := range m.accs[id] {
		accs = append(accs, c)
	}
	g, err = db.GetAccounts(id)
	m.ok(err == nil && vEq(g, accs), "accounts", "GetAccounts(%s) = %q, %v, want %q", id, g, err, accs)
	cs := []string{""}
	for c := range m.cons[id] {
		cs = append(cs, c)
	}
	for _, c := range cs {
		priv, server, secret, min, max, last, err := db.GetAccount(id, c)
		t, terr := db.GetAccountTime(id, c)
		if w := m.accs[id][c]; w == nil {
			m.ok(err != nil && terr != nil, "account", "an account of %s and %q which was not added", id, c)
		} else {
			m.ok(err == nil && *priv == w.priv && *secret == w.secret && server == w.server && min == w.min && max == w.max && last == w.last, "account",
				"GetAccount(%s, %q) = %q, %d, %d, %d, %v, want %q, %d, %d, %d (or another key)", id, c, server, min, max, last, err, w.server, w.min, w.max, w.last)
			m.ok(terr == nil && t == w.load, "account", "GetAccountTime(%s, %q) = %d, %v, want %d", id, c, t, terr, w.load)
		}
		want := map[string]bool{}
		for _, e := range m.cache {
			if e.nym == id && e.con == c {
				want[e.id] = true
			}
		}
		got, err := db.GetMessageIDCache(id, c)
		m.ok(err == nil && reflect.DeepEqual(got, want), "cache", "GetMessageIDCache(%s, %q) = %v, %v, want %v", id, c, got, err, want)
	}
	// messages
	ids, err := db.GetMsgIDs(id)
	m.ok(err == nil && len(ids) == len(m.msgs[id]), "msgids", "GetMsgIDs(%s): %d messages, %v, want %d", id, len(ids), err, len(m.msgs[id]))
	sort.Slice(ids, func(i, j int) bool { return ids[i].MsgID < ids[j].MsgID })
	n := m.nyms[id]
	var undel *vMsg
	for i, w := range m.msgs[id] {
		if i >= len(ids) {
			break
		}
		want := MsgID{w.id, w.from, w.to, !w.out, w.sent, w.date, strings.SplitN(w.text, "\n", 2)[0], w.read}
		m.ok(*ids[i] == want, "msgid", "GetMsgIDs(%s) lists %+v, want %+v", id, *ids[i], want)
		from, to, text, date, err := db.GetMessage(id, w.id)
		c := m.cons[id][w.peer]
		wf, wt := vShown(n.full, n.un), vShown(c.full, c.un)
		if !w.out {
			wf, wt = wt, wf
		}
		m.ok(err == nil && from == wf && to == wt && text == w.text && date == w.date, "message", "GetMessage(%s, %d) = %q, %q, %q, %d, %v, want %q, %q, %q, %d", id, w.id, from, to, text, date, err, wf, wt, w.text, w.date)
		for _, o := range vIDs {
			if o[0] != id {
				f, tt, x, _, err := db.GetMessage(o[0], w.id)
				m.ok(err != nil && f == "" && tt == "" && x == "", "message-owner", "GetMessage(%s, %d) gives a message of %s", o[0], w.id, id)
			}
		}
		if w.toSend && (undel == nil || w.id < undel.id) {
			undel = w
		}
	}
	num, con, text, sign, min, max, err := db.GetUndeliveredMessage(id)
	if undel == nil {
		m.ok(err == nil && num == 0 && con == "" && text == nil, "undelivered", "GetUndeliveredMessage(%s) = %d, %q, %q, %v without such a message", id, num, con, text, err)
	} else {
		m.ok(err == nil && num == undel.id && con == undel.peer && string(text) == undel.text && sign == undel.sign && min == undel.min && max == undel.max, "undelivered",
			"GetUndeliveredMessage(%s) = %d, %q, %q, %v, %d, %d, %v, want %+v", id, num, con, text, sign, min, max, err, *undel)
	}
	// out queue
	var w *vOut
	for _, o := range m.outs {
		if o.nym == id && !o.resend {
			w = o
			break
		}
	}
	oq, msg, adr, omin, omax, env, err := db.GetOutQueue(id)
	if w == nil {
		m.ok(err == nil && oq == 0 && msg == "" && adr == "" && !env, "outqueue", "GetOutQueue(%s) = %d, %q, %q, %v for an empty queue", id, oq, msg, adr, err)
	} else {
		if w.id == 0 {
			w.id = oq
		}
		m.ok(err == nil && oq == w.id && msg == w.enc && adr == w.adr && omin == w.min && omax == w.max && env == w.envelope, "outqueue",
			"GetOutQueue(%s) = %d, %q, %q, %d, %d, %v, %v, want %+v", id, oq, msg, adr, omin, omax, env, err, *w)
	}
}

// newID finds the number of the row that was added last.
func (m *vM) newID(table, col string) int64 {
	var id int64
	if err := m.db.encDB.QueryRow("SELECT MAX(" + col + ") FROM " + table + ";").Scan(&id); err != nil {
		m.v.t.Fatal(err)
	}
	return id
}

// failing runs f while statements of this kind on the table fail.
func (m *vM) failing(kind, table string, f func()) {
	if _, err := m.db.encDB.Exec("CREATE TRIGGER vfail BEFORE " + kind + " ON " + table + " BEGIN SELECT RAISE(ABORT, 'verif'); END;"); err != nil {
		m.v.t.Fatal(err)
	}
	f()
	if _, err := m.db.encDB.Exec("DROP TRIGGER vfail;"); err != nil {
		m.ok(false, "left-open", "after a failed statement, the database cannot be changed: %v", err)
	}
}

func (m *vM) step() {
	v, db := m.v, m.db
	r := v.r
	any := func() [3]string { return vIDs[r.Intn(len(vIDs))] }
	id := any()
	nym := id[0]
	known := m.nyms[nym] != nil
	other := any()
	con := other[0]
	hasCon := known && m.cons[nym][con] != nil
	text := []string{"", "hello", "subject\nbody\nmore", "\nno subject", "it's; DROP TABLE Messages; --", "ümläut\nx", "a\r\nb"}[r.Intn(7)]
	full := []string{"", "", "Full Name", "O'Neil <x>", "Zoë"}[r.Intn(5)]
	d1, d2 := int32(r.Uint32()), int32(r.Uint32())
	date := int64(v.u64() >> uint(r.Intn(60)))
	if r.Intn(8) == 0 {
		date = -date
	}
	did := func(f string, a ...interface{}) { m.hist = append(m.hist, fmt.Sprintf(f, a...)) }
	acon := con // contact of an account: may be undefined
	if r.Intn(3) == 0 {
		acon = ""
	}
	hasA := known && (acon == "" || m.cons[nym][acon] != nil)
	switch r.Intn(26) {
	case 0, 1:
		un := id[1+r.Intn(2)]
		did("AddNym(%s, %s, %q)", nym, un, full)
		err := db.AddNym(nym, un, full)
		m.ok(err == nil, "addnym", "AddNym: %v", err)
		if !known {
			m.nyms[nym] = &vNym{un: un, full: full}
			m.cons[nym] = map[string]*vContact{}
			m.accs[nym] = map[string]*vAcc{}
		} else {
			m.nyms[nym].un, m.nyms[nym].full = un, full
		}
	case 2:
		did("AddNym(%s, %s) for another one", nym, other[1])
		if nym != con {
			m.ok(db.AddNym(nym, other[1], full) != nil, "addnym-fit", "AddNym(%s, %s)", nym, other[1])
			m.ok(!known || db.AddContact(nym, con, id[1], full, WhiteList) != nil, "addcontact-fit", "AddContact(%s, %s, %s)", nym, con, id[1])
		}
		m.ok(id[2] == nym || db.AddNym(id[2], id[2], full) != nil, "addnym-unmapped", "AddNym(%s) as a mapped one", id[2])
	case 3:
		if r.Intn(6) > 0 && known {
			break
		}
		did("DelNym(%s)", nym)
		err := db.DelNym(nym)
		m.ok((err == nil) == known, "delnym", "DelNym(%s): %v", nym, err)
		if known {
			delete(m.nyms, nym)
			delete(m.cons, nym)
			delete(m.accs, nym)
			gone := map[int64]bool{}
			for _, x := range m.msgs[nym] {
				gone[x.id] = true
			}
			delete(m.msgs, nym)
			m.dropOuts(func(o *vOut) bool { return o.nym == nym || gone[o.msg] })
			var ins []*vIn
			for _, x := range m.ins {
				if x.nym != nym {
					ins = append(ins, x)
				}
			}
			m.ins = ins
			m.dropCache(func(c vCache) bool { return c.nym == nym })
		}
	case 4:
		did("SetUpkeep*(%s, %d)", nym, date)
		err := db.SetUpkeepAll(nym, date)
		m.ok(err == nil, "upkeep-set", "SetUpkeepAll: %v", err)
		if known {
			m.nyms[nym].all = date
		}
		if r.Intn(2) == 0 {
			err := db.SetUpkeepAccounts(nym, date+1)
			m.ok(err == nil, "upkeep-set", "SetUpkeepAccounts: %v", err)
			if known {
				m.nyms[nym].acc = date + 1
			}
		}
	case 5, 6, 7:
		ct := ContactType(r.Intn(3))
		un := other[1+r.Intn(2)]
		did("AddContact(%s, %s, %s, %q, %d)", nym, con, un, full, ct)
		err := db.AddContact(nym, con, un, full, ct)
		m.ok((err == nil) == known, "addcontact", "AddContact: %v", err)
		if known {
			m.cons[nym][con] = &vContact{un, full, ct}
		}
	case 8:
		did("RemoveContact(%s, %s)", nym, con)
		err := db.RemoveContact(nym, con)
		m.ok((err == nil) == known, "rmcontact", "RemoveContact: %v", err)
		if hasCon {
			m.cons[nym][con].ct = GrayList
		}
	case 9, 10:
		a := &vAcc{server: "server" + full, min: d1, max: d2}
		copy(a.priv[:], v.bytes(64))
		copy(a.secret[:], v.bytes(64))
		did("AddAccount(%s, %q)", nym, acon)
		err := db.AddAccount(nym, acon, &a.priv, a.server, &a.secret, d1, d2)
		can := hasA && m.accs[nym][acon] == nil
		m.ok((err == nil) == can, "addaccount", "AddAccount: %v", err)
		if can {
			m.accs[nym][acon] = a
		}
	case 11:
		did("SetAccountTime(%s, %q, %d)", nym, acon, date)
		err := db.SetAccountTime(nym, acon, date)
		m.ok((err == nil) == hasA, "acctime", "SetAccountTime: %v", err)
		if hasA && m.accs[nym][acon] != nil {
			m.accs[nym][acon].load = date
		}
	case 12:
		did("SetAccountLastMsg(%s, %q, %d)", nym, acon, date)
		err := db.SetAccountLastMsg(nym, acon, date)
		m.ok((err == nil) == hasA, "acclast", "SetAccountLastMsg: %v", err)
		if hasA && m.accs[nym][acon] != nil {
			m.accs[nym][acon].last = date
		}
	case 13, 14, 15:
		sent, sign := r.Intn(3) > 0, r.Intn(2) == 0
		did("AddMessage(%s, %s, %d, %v, %q, %v)", nym, con, date, sent, text, sign)
		err := db.AddMessage(nym, con, date, sent, text, sign, d1, d2)
		m.ok((err == nil) == hasCon, "addmsg", "AddMessage: %v", err)
		if hasCon {
			x := &vMsg{id: m.newID("Messages", "MsgID"), peer: con, out: sent, toSend: sent, sign: sign, from: nym, to: con, date: date, text: text, min: d1, max: d2}
			if !sent {
				x.from, x.to = con, nym
			}
			m.msgs[nym] = append(m.msgs[nym], x)
		}
	case 16:
		if l := m.msgs[nym]; len(l) > 0 {
			x := l[r.Intn(len(l))]
			if r.Intn(2) == 0 {
				did("ReadMessage(%d)", x.id)
				err := db.ReadMessage(x.id)
				m.ok(err == nil, "readmsg", "ReadMessage: %v", err)
				x.read = true
				break
			}
			o := con
			did("DelMessage(%s, %d)", o, x.id)
			err := db.DelMessage(o, x.id)
			m.ok((err == nil) == (o == nym), "delmsg", "DelMessage(%s, %d) of %s: %v", o, x.id, nym, err)
			if o == nym {
				var rest []*vMsg
				for _, y := range l {
					if y != x {
						rest = append(rest, y)
					}
				}
				m.msgs[nym] = rest
				m.dropOuts(func(q *vOut) bool { return q.msg == x.id })
			}
		}
	case 17, 18, 19:
		num, _, _, _, _, _, err := db.GetUndeliveredMessage(nym)
		if !known || err != nil || num == 0 {
			break
		}
		x := m.find(num)
		if x == nil {
			break
		}
		add := func() error {
			return db.AddOutQueue(nym, num, "enc "+text, "adr "+full, d1, d2)
		}
		switch r.Intn(4) {
		case 0:
			did("AddOutQueue(%s, %d) failing", nym, num)
			kind := [][2]string{{"INSERT", "OutQueue"}, {"UPDATE", "Messages"}}[r.Intn(2)]
			m.failing(kind[0], kind[1], func() {
				m.ok(add() != nil, "addoq-fail", "AddOutQueue despite a failing %s", kind[0])
			})
		default:
			did("AddOutQueue(%s, %d)", nym, num)
			err := add()
			m.ok(err == nil, "addoq", "AddOutQueue: %v", err)
			x.toSend = false
			m.outs = append(m.outs, &vOut{id: m.newID("OutQueue", "OQIdx"), nym: nym, msg: num, enc: "enc " + text, adr: "adr " + full, min: d1, max: d2})
			sort.Slice(m.outs, func(i, j int) bool { return m.outs[i].id < m.outs[j].id })
		}
	case 20, 21:
		if len(m.outs) == 0 {
			m.ok(db.RemoveOutQueue(77, 1) != nil && db.RetractOutQueue(77) != nil, "rmoq-none", "an entry which is not there is removed")
			break
		}
		o := m.outs[r.Intn(len(m.outs))]
		x := m.find(o.msg)
		switch r.Intn(7) {
		case 0:
			did("SetOutQueue(%d, %q)", o.id, text)
			err := db.SetOutQueue(o.id, text)
			m.ok(err == nil, "setoq", "SetOutQueue: %v", err)
			o.enc, o.envelope = text, true
		case 1:
			did("SetResendOutQueue(%d)", o.id)
			err := db.SetResendOutQueue(o.id)
			m.ok(err == nil, "resend", "SetResendOutQueue: %v", err)
			o.resend = true
		case 2:
			did("ClearResendOutQueue(%s)", o.nym)
			err := db.ClearResendOutQueue(o.nym)
			m.ok(err == nil, "resend", "ClearResendOutQueue: %v", err)
			for _, p := range m.outs {
				if p.nym == o.nym {
					p.resend = false
				}
			}
		case 3:
			did("RemoveOutQueue(%d, %d)", o.id, date)
			err := db.RemoveOutQueue(o.id, date)
			m.ok(err == nil, "rmoq", "RemoveOutQueue: %v", err)
			x.sent, x.date = true, date
			m.dropOuts(func(p *vOut) bool { return p == o })
		case 4:
			did("RetractOutQueue(%d)", o.id)
			err := db.RetractOutQueue(o.id)
			m.ok(err == nil, "retract", "RetractOutQueue: %v", err)
			x.toSend = true
			m.dropOuts(func(p *vOut) bool { return p == o })
		default:
			kind := [][2]string{{"DELETE", "OutQueue"}, {"UPDATE", "Messages"}}[r.Intn(2)]
			did("Remove/RetractOutQueue(%d) failing at %s", o.id, kind)
			m.failing(kind[0], kind[1], func() {
				m.ok(db.RemoveOutQueue(o.id, date) != nil, "rmoq-fail", "RemoveOutQueue despite a failing %s", kind[0])
				m.ok(db.RetractOutQueue(o.id) != nil, "retract-fail", "RetractOutQueue despite a failing %s", kind[0])
			})
		}
	case 22, 23:
		if len(m.ins) > 0 && r.Intn(2) == 0 {
			m.stepIn(text, date)
			break
		}
		did("AddInQueue(%s, %q, %d, %q)", nym, acon, date, text)
		err := db.AddInQueue(nym, acon, date, text)
		m.ok((err == nil) == hasA, "addiq", "AddInQueue: %v", err)
		if hasA {
			m.ins = append(m.ins, &vIn{id: m.newID("InQueue", "IQIdx"), nym: nym, con: acon, date: date, msg: text, envelope: true})
		}
	case 24:
		if r.Intn(2) == 0 {
			var own []vCache
			for _, c := range m.cache {
				if c.nym == nym && c.con == acon {
					own = append(own, c)
				}
			}
			if len(own) > 0 {
				i := r.Intn(len(own))
				did("RemoveMessageIDCache(%s, %q, %s)", nym, acon, own[i].id)
				err := db.RemoveMessageIDCache(nym, acon, own[i].id)
				m.ok(err == nil, "rmcache", "RemoveMessageIDCache: %v", err)
				older := map[string]bool{}
				for _, c := range own[:i] {
					older[c.id] = true
				}
				m.dropCache(func(c vCache) bool { return c.nym == nym && c.con == acon && older[c.id] })
				break
			}
		}
		mid := fmt.Sprintf("id%d", len(m.hist))
		did("AddMessageIDCache(%s, %q, %s)", nym, acon, mid)
		err := db.AddMessageIDCache(nym, acon, mid)
		m.ok((err == nil) == hasA, "addcache", "AddMessageIDCache: %v", err)
		if hasA {
			m.cache = append(m.cache, vCache{nym, acon, mid})
		}
		m.ok(db.RemoveMessageIDCache(nym, acon, "unknown") != nil, "rmcache-none", "RemoveMessageIDCache of an unknown ID")
	case 25:
		if r.Intn(3) == 0 {
			did("reopen")
			db.Close()
			m.db = vOpen(v, m.dir)
			break
		}
		k := []string{WalletKey, ActiveUID, "a'b", "A", "a"}[r.Intn(5)]
		did("AddValue(%q, %q)", k, "v"+text)
		err := db.AddValue(k, "v"+text)
		m.ok(err == nil, "addvalue", "AddValue: %v", err)
		m.vals[k] = "v" + text
		m.ok(db.AddValue("", "x") != nil && db.AddValue("x", "") != nil, "addvalue-empty", "AddValue without a key or a value")
	}
}

func (m *vM) stepIn(text string, date int64) {
	db := m.db
	did := func(f string, a ...interface{}) { m.hist = append(m.hist, fmt.Sprintf(f, a...)) }
	i := m.v.r.Intn(len(m.ins))
	q := m.ins[i]
	var froms []string
	for c := range m.cons[q.nym] {
		froms = append(froms, c)
	}
	sort.Strings(froms)
	drop := func() { m.ins = append(m.ins[:i:i], m.ins[i+1:]...) }
	switch k := m.v.r.Intn(6); {
	case k == 0:
		did("SetInQueue(%d, %q)", q.id, text)
		err := db.SetInQueue(q.id, text)
		m.ok(err == nil, "setiq", "SetInQueue: %v", err)
		q.msg, q.envelope = text, false
	case k == 1:
		did("DelInQueue(%d)", q.id)
		err := db.DelInQueue(q.id)
		m.ok(err == nil, "deliq", "DelInQueue: %v", err)
		drop()
	case len(froms) == 0:
		did("RemoveInQueue(%d) from an unknown contact", q.id)
		m.ok(db.RemoveInQueue(q.id, text, vIDs[0][0], false) != nil, "rmiq-unknown", "RemoveInQueue from an unknown contact")
	case k == 2:
		kind := [][2]string{{"DELETE", "InQueue"}, {"INSERT", "Messages"}}[m.v.r.Intn(2)]
		did("RemoveInQueue(%d) failing at %s", q.id, kind)
		m.failing(kind[0], kind[1], func() {
			m.ok(db.RemoveInQueue(q.id, text, froms[0], false) != nil, "rmiq-fail", "RemoveInQueue despite a failing %s", kind[0])
		})
	default:
		from := froms[m.v.r.Intn(len(froms))]
		d := k == 3
		did("RemoveInQueue(%d, %q, %s, %v)", q.id, text, from, d)
		err := db.RemoveInQueue(q.id, text, from, d)
		m.ok(err == nil, "rmiq", "RemoveInQueue: %v", err)
		drop()
		if !d {
			m.msgs[q.nym] = append(m.msgs[q.nym], &vMsg{id: m.newID("Messages", "MsgID"), peer: from, from: from, to: q.nym, date: q.date, text: text})
		}
	}
}

func (m *vM) dropOuts(f func(*vOut) bool) {
	var rest []*vOut
	for _, o := range m.outs {
		if !f(o) {
			rest = append(rest, o)
		}
	}
	m.outs = rest
}

func (m *vM) dropCache(f func(vCache) bool) {
	var rest []vCache
	for _, c := range m.cache {
		if !f(c) {
			rest = append(rest, c)
		}
	}
	m.cache = rest
}

// the message database against a model, with statements that fail
func TestVerifModel(t *testing.T) {
	v := vStart(t)
	defer v.done()
	for round := 0; round < v.n2(3, 12); round++ {
		func() {
			dir, cleanup := vDir(t)
			defer cleanup()
			m := &vM{v: v, dir: dir, db: vOpen(v, dir), vals: map[string]string{DBVersion: Version}, nyms: map[string]*vNym{},
				cons: map[string]map[string]*vContact{}, accs: map[string]map[string]*vAcc{}, msgs: map[string][]*vMsg{}}
			defer func() { m.db.Close() }()
			n := v.n2(500, 900)
			for i := 0; i < n && !m.bad; i++ {
				m.step()
				if i%4 == 0 || i > n-20 || len(m.hist) > 0 && strings.Contains(m.hist[len(m.hist)-1], "failing") {
					m.compare()
				}
			}
		}()
	}
}
