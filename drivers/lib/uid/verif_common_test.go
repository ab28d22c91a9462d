package uid

import (
	stdb64 "encoding/base64"
	"encoding/json"

	"crypto/sha512"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/log"
)

func init() { log.Init("critical", "uid  ", "", true) }

func vUID(name string) *Message {
	m, err := Create(name, false, "", "", Strict, hashchain.TestEntry, cipher.RandReader)
	if err != nil {
		panic(err)
	}
	return m
}

// vCopy: an independent copy without cached keys
func vCopy(m *Message) *Message {
	r, err := NewJSON(string(m.JSON()))
	if err != nil {
		panic(err)
	}
	return r
}

func vDec(s string) []byte { b, _ := stdb64.StdEncoding.DecodeString(s); return b }
func vEnc(b []byte) string { return stdb64.StdEncoding.EncodeToString(b) }

// vSorted: JSON with sorted keys, made without the code under test
func vSorted(x interface{}) []byte {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	var m map[string]interface{}
	d := json.NewDecoder(bytesReader(b))
	d.UseNumber()
	if err := d.Decode(&m); err != nil {
		panic(err)
	}
	b, _ = json.Marshal(m)
	return b
}

func vKE(t string) KeyEntry {
	var k KeyEntry
	var err error
	if t == "ED25519" {
		err = k.initSigKey(cipher.RandReader)
	} else {
		err = k.InitDHKey(cipher.RandReader)
	}
	if err != nil {
		panic(err)
	}
	return k
}

// changes to the signed part of a UID message
func vContentChanges() []func(m *Message) {
	return []func(m *Message){
		func(m *Message) { m.UIDContent.VERSION += "0" },
		func(m *Message) { m.UIDContent.MSGCOUNT++ },
		func(m *Message) { m.UIDContent.NOTAFTER-- },
		func(m *Message) { m.UIDContent.NOTAFTER++ },
		func(m *Message) { m.UIDContent.NOTBEFORE++ },
		func(m *Message) { m.UIDContent.MIXADDRESS = "x" },
		func(m *Message) { m.UIDContent.NYMADDRESS = "x" },
		func(m *Message) { m.UIDContent.IDENTITY = "mallory@mute.berlin" },
		func(m *Message) { m.UIDContent.SIGKEY.HASH = vEnc(make([]byte, 64)) },
		func(m *Message) { m.UIDContent.SIGKEY.FUNCTION = "x" },
		func(m *Message) { m.UIDContent.SIGKEY.CIPHERSUITE = "" },
		func(m *Message) { m.UIDContent.PUBKEYS[0] = vKE("DH") },
		func(m *Message) { m.UIDContent.PUBKEYS[0].PUBKEY = vEnc(make([]byte, 32)) },
		func(m *Message) { m.UIDContent.PUBKEYS[0].HASH = vEnc(make([]byte, 64)) },
		func(m *Message) { m.UIDContent.PUBKEYS[0].FUNCTION = "x" },
		func(m *Message) { m.UIDContent.PUBKEYS = append(m.UIDContent.PUBKEYS, vKE("DH")) },
		func(m *Message) { m.UIDContent.PUBKEYS = nil },
		func(m *Message) { k := vKE("ED25519"); m.UIDContent.SIGESCROW = &k },
		func(m *Message) { m.UIDContent.LASTENTRY += "A" },
		func(m *Message) { m.UIDContent.REPOURIS = append(m.UIDContent.REPOURIS, "evil") },
		func(m *Message) { m.UIDContent.REPOURIS = []string{"evil"} },
		func(m *Message) { m.UIDContent.PREFERENCES.FORWARDSEC = "optional" },
		func(m *Message) { m.UIDContent.PREFERENCES.CIPHERSUITES = nil },
		func(m *Message) { m.UIDContent.CHAINLINK = &chainlink{LAST: "x"} },
	}
}

func vhash(b []byte) []byte { h := sha512.Sum512(b); return h[:] }
