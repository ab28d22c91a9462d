package identity

import (
	"strings"
	"testing"
	"unicode"
)

// the documented mapping of localparts: the mapped localpart, or false
func vMapLP(s string) (string, bool) {
	var lp []rune
	for _, r := range strings.TrimFunc(s, unicode.IsSpace) {
		lp = append(lp, unicode.ToLower(r))
	}
	out := ""
	for i, r := range lp {
		switch {
		case r == '-' || r == '.':
			// no separator at the ends, no two in a row
			if i == 0 || i == len(lp)-1 || lp[i-1] == '-' || lp[i-1] == '.' {
				return "", false
			}
			out += string(r)
		case strings.ContainsRune("abcdefghijklmnopqrstuvwxyz23456789", r):
			if r == 'j' {
				r = 'i'
			}
			out += string(r)
		case r == '0':
			out += "o"
		case r == '1':
			out += "l"
		default:
			return "", false
		}
	}
	return out, len(out) >= 3 && len(out) <= 64
}

func TestVerifMapLocalpart(t *testing.T) {
	v := vStart(t)
	defer v.done()
	one := func(s string) {
		want, ok := vMapLP(s)
		var r string
		var err error
		v.noPanic("map-panic", func() { r, err = MapLocalpart(s) }, "MapLocalpart(%q)", s)
		v.check((err == nil) == ok && (err == nil && r == want || err != nil && r == ""), "map-localpart", "MapLocalpart(%q) = %q, %v; want %q, %v", s, r, err, want, ok)
		if err == nil {
			r2, err := MapLocalpart(r)
			v.check(err == nil && r2 == r, "map-idempotent", "MapLocalpart(%q) = %q, %v", r, r2, err)
		}
		// the identity is mapped as a whole
		id, err2 := Map(s + "@Mute.ONE")
		if strings.Contains(s, "@") {
			v.check(err2 != nil, "map-at", "Map(%q) = %q", s+"@Mute.ONE", id)
			return
		}
		v.check((err2 == nil) == (ok && len(s)+9 <= MaxLen) && (err2 != nil || id == want+"@mute.one"), "map-id", "Map(%q) = %q, %v", s+"@Mute.ONE", id, err2)
		mid, dom, err3 := MapPlus(s + "@Mute.ONE")
		v.check((err3 == nil) == (err2 == nil) && mid == id && (err3 != nil || dom == "mute.one"), "map-plus", "MapPlus(%q) = %q, %q, %v", s+"@Mute.ONE", mid, dom, err3)
		e1 := IsMapped(s + "@mute.one")
		v.check((e1 == nil) == (ok && want == s), "is-mapped", "IsMapped(%q) = %v", s+"@mute.one", e1)
	}
	// every character alone, in front, inside and at the end
	for c := rune(0); c < rune(v.n2(0x800, 0x3000)); c++ {
		s := string(c)
		for _, x := range []string{s, s + "ab", "a" + s + "b", "ab" + s, s + "abc", "abc" + s} {
			one(x)
		}
	}
	// every word over the characters that matter
	alpha := []string{"a", "z", "J", "0", "1", "2", "9", "-", ".", " ", "@", "`", "{", "/", ":"}
	var rec func(p string, n int)
	rec = func(p string, n int) {
		one(p)
		if n > 0 {
			for _, a := range alpha {
				rec(p+a, n-1)
			}
		}
	}
	rec("", int(v.n2(4, 5)))
	for i := 0; i < int(v.n2(20000, 400000)); i++ {
		s := ""
		for n := v.r.Intn(40); n > 0; n-- {
			if v.r.Intn(30) == 0 {
				s += alpha[v.r.Intn(len(alpha))]
			} else {
				s += string("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-."[v.r.Intn(44)])
			}
		}
		one(s)
	}
	for n := 55; n < 270; n++ {
		one(strings.Repeat("a", n))
		one(strings.Repeat(" ", n) + "alice")
	}
}
