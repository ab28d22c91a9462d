package session

import (
	"encoding/base64"
	"reflect"
	"testing"

	"crypto/sha512"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/uid"
)

func TestVerifStateEqual(t *testing.T) {
	v := vStart(t)
	ke := func() uid.KeyEntry {
		var k uid.KeyEntry
		if k.InitDHKey(cipher.RandReader) != nil {
			t.Fatal("InitDHKey")
		}
		return k
	}
	base := func() *State {
		n, s := ke(), ke()
		return &State{SenderSessionCount: 1, SenderMessageCount: 2, MaxRecipientCount: 3, RecipientTemp: ke(), SenderSessionPub: ke(),
			NextSenderSessionPub: &n, NextRecipientSessionPubSeen: &s, NymAddress: "nym", KeyInitSession: true}
	}
	clone := func(a *State) *State {
		b := *a
		if a.NextSenderSessionPub != nil {
			n := *a.NextSenderSessionPub
			b.NextSenderSessionPub = &n
		}
		if a.NextRecipientSessionPubSeen != nil {
			n := *a.NextRecipientSessionPubSeen
			b.NextRecipientSessionPubSeen = &n
		}
		return &b
	}
	a := base()
	eq := func(want bool, x, y *State, what string) {
		v.noPanic("panic", func() {
			v.check(StateEqual(x, y) == want && StateEqual(y, x) == want, "equal", "states that differ in %s: equal %v", what, !want)
		}, "%s", what)
	}
	eq(true, a, a, "nothing (same pointer)")
	eq(true, a, clone(a), "nothing")
	eq(true, nil, nil, "nothing (nil)")
	eq(false, a, nil, "being nil")
	eq(false, &State{}, nil, "being nil")
	eq(true, &State{}, &State{}, "nothing (zero)")
	// every exported field, by reflection
	ty := reflect.TypeOf(State{})
	for i := 0; i < ty.NumField(); i++ {
		b := clone(a)
		f := reflect.ValueOf(b).Elem().Field(i)
		switch f.Kind() {
		case reflect.Uint64:
			f.SetUint(f.Uint() + 1)
			eq(false, a, b, ty.Field(i).Name)
		case reflect.String:
			f.SetString(f.String() + "x")
			eq(false, a, b, ty.Field(i).Name)
		case reflect.Bool:
			f.SetBool(!f.Bool())
			eq(false, a, b, ty.Field(i).Name)
		case reflect.Struct, reflect.Ptr:
			k := f
			if f.Kind() == reflect.Ptr {
				k = f.Elem()
			}
			for _, n := range []string{"CIPHERSUITE", "FUNCTION", "HASH", "PUBKEY"} {
				old := k.FieldByName(n).String()
				k.FieldByName(n).SetString(old + "x")
				eq(false, a, b, ty.Field(i).Name+"."+n)
				k.FieldByName(n).SetString(old)
			}
			eq(true, a, b, "nothing")
			if f.Kind() == reflect.Ptr {
				f.Set(reflect.Zero(f.Type()))
				eq(false, a, b, ty.Field(i).Name+" being nil")
				eq(true, b, clone(b), "nothing, with a nil field")
			}
		}
	}
	for i := 0; i < 50; i++ {
		var x, y [32]byte
		copy(x[:], v.bytes(32))
		copy(y[:], v.bytes(32))
		h := sha512.Sum512(append(append([]byte(nil), x[:]...), y[:]...))
		v.check(CalcStateKey(&x, &y) == base64.StdEncoding.EncodeToString(h[:]), "state-key", "%x %x", x, y)
		s := []string{string(v.bytes(3)), string(v.bytes(4)), string(v.bytes(5)), string(v.bytes(6))}
		h = sha512.Sum512([]byte(s[0] + s[1] + s[2] + s[3]))
		v.check(CalcKey(s[0], s[1], s[2], s[3]) == base64.StdEncoding.EncodeToString(h[:]), "session-key", "%q", s)
	}
	v.done()
}
