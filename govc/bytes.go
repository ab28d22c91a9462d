package main

// Theory of finite byte sequences: rope normal form.

import (
	"math/big"
	"strconv"
	"strings"
)

func (c *Ctx) holds(t *Term) bool {
	if t == c.T {
		return true
	}
	if t == c.F || t.bound || c.prover == nil || c.inProve {
		return false
	}
	c.inProve = true
	defer func() { c.inProve = false }()
	return c.prover(t)
}

func (c *Ctx) Empty() *Term { return c.Lit("") }

func (c *Ctx) Len(b *Term) *Term {
	switch b.op {
	case "lit":
		return c.Int(int64(len(b.str)))
	case "cat":
		ls := make([]*Term, len(b.args))
		for i, a := range b.args {
			ls[i] = c.Len(a)
		}
		return c.Add(ls...)
	case "sub":
		return c.Sub(b.args[2], b.args[1])
	case "unit":
		return c.Int(1)
	case "zeros":
		return b.args[0]
	case "ite":
		l1, l2 := c.Len(b.args[1]), c.Len(b.args[2])
		return c.Ite(b.args[0], l1, l2)
	case "uf":
		if n, ok := c.ufLen[b.name]; ok {
			return c.Int(int64(n))
		}
		switch b.name {
		case "xor": // xor(data, keystream)
			return c.Len(b.args[0])
		case "ctr", "cbcenc", "cbcdec": // (key, iv, data)
			return c.Len(b.args[2])
		case "rand": // rand(id, n)
			return b.args[1]
		case "ctrat": // (key, iv, off, data)
			return c.Len(b.args[3])
		case "hkdfsha512", "hkdfsha256", "hkdfsha1": // (secret, salt, info, off, n)
			return b.args[4]
		case "gcmseal":
			return c.AddK(c.Len(b.args[2]), 16)
		case "boxseal":
			return c.AddK(c.Len(b.args[2]), 16)
		case "le", "be": // le(n, v): n-byte encoding
			return b.args[0]
		case "rep": // rep(byte, n)
			return b.args[1]
		}
	}
	if l, ok := c.rlo[-b.id-1]; ok { // exact length registered
		return c.Big(l)
	}
	if n := c.lenT[b.id]; n != nil {
		return n
	}
	return c.mk(&Term{op: "len", sort: SInt, args: []*Term{b}})
}

// SetLenT registers the length (known to be >= 0) of a new opaque Bytes term.
func (c *Ctx) SetLenT(b, n *Term) { c.lenT[b.id] = n }

// SetLen registers the exact constant length of an opaque Bytes term.
func (c *Ctx) SetLen(b *Term, n int64) { c.rlo[-b.id-1] = big.NewInt(n) }

func (c *Ctx) Unit(v *Term) *Term {
	if v.isInt() {
		return c.Lit(string([]byte{byte(v.i.Int64())}))
	}
	if v.op == "ite" && v.args[1].isInt() && v.args[2].isInt() {
		return c.Ite(v.args[0], c.Unit(v.args[1]), c.Unit(v.args[2]))
	}
	if v.op == "at" { // unit(at(b,i)) = sub(b,i,i+1)
		return c.SubB(v.args[0], v.args[1], c.AddK(v.args[1], 1))
	}
	return c.mk(&Term{op: "unit", sort: SBytes, args: []*Term{v}})
}

func (c *Ctx) Zeros(n *Term) *Term {
	if n.isInt() && n.i.IsInt64() && n.I64() >= 0 && n.I64() <= 1<<16 {
		return c.Lit(strings.Repeat("\x00", int(n.I64())))
	}
	return c.mk(&Term{op: "zeros", sort: SBytes, args: []*Term{n}})
}

func (c *Ctx) segs(b *Term) []*Term {
	if b.op == "cat" {
		return b.args
	}
	if b.op == "lit" && b.str == "" {
		return nil
	}
	return []*Term{b}
}

func (c *Ctx) Cat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		for _, s := range c.segs(t) {
			if l := c.Len(s); l.isInt() && l.i.Sign() == 0 {
				continue
			}
			if n := len(out); n > 0 {
				p := out[n-1]
				if p.op == "lit" && s.op == "lit" {
					out[n-1] = c.Lit(p.str + s.str)
					continue
				}
				if p.op == "sub" && s.op == "sub" && p.args[0] == s.args[0] && p.args[2] == s.args[1] {
					out[n-1] = c.SubB(p.args[0], p.args[1], s.args[2])
					continue
				}
				if p.op == "zeros" && s.op == "zeros" {
					out[n-1] = c.Zeros(c.Add(p.args[0], s.args[0]))
					continue
				}
			}
			out = append(out, s)
		}
	}
	if len(out) == 0 {
		return c.Empty()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: "cat", sort: SBytes, args: out})
}

func (c *Ctx) SubB(b, lo, hi *Term) *Term {
	if lo == hi {
		return c.Empty()
	}
	L := c.Len(b)
	if lo.isInt() && lo.i.Sign() == 0 && hi == L {
		return b
	}
	switch b.op {
	case "lit":
		if lo.isInt() && hi.isInt() {
			l, h := lo.I64(), hi.I64()
			if 0 <= l && l <= h && h <= int64(len(b.str)) {
				return c.Lit(b.str[l:h])
			}
		}
		if strings.Count(b.str, "\x00") == len(b.str) {
			return c.Zeros(c.Sub(hi, lo))
		}
	case "zeros":
		return c.Zeros(c.Sub(hi, lo))
	case "sub":
		return c.SubB(b.args[0], c.Add(b.args[1], lo), c.Add(b.args[1], hi))
	case "ite":
		return c.Ite(b.args[0], c.SubB(b.args[1], lo, hi), c.SubB(b.args[2], lo, hi))
	case "uf":
		if b.name == "ctr" && len(b.args) == 3 && lo.isInt() && lo.i.Sign() == 0 {
			return c.UF("ctr", SBytes, b.args[0], b.args[1], c.SubB(b.args[2], lo, hi))
		}
	case "cat":
		if r := c.subCat(b, lo, hi); r != nil {
			return r
		}
	}
	if b.bound || lo.bound || hi.bound || c.Le(lo, hi) == c.T || true {
		if c.holdsQuick(c.Eq(lo, hi)) {
			return c.Empty()
		}
	}
	return c.mk(&Term{op: "sub", sort: SBytes, args: []*Term{b, lo, hi}})
}
func (c *Ctx) holdsQuick(t *Term) bool { return t == c.T }

func (c *Ctx) subCat(b, lo, hi *Term) *Term {
	o := c.Int(0)
	k := 0
	for k < len(b.args) {
		e := c.Add(o, c.Len(b.args[k]))
		if c.holds(c.Le(e, lo)) {
			o = e
			k++
			continue
		}
		break
	}
	if k == len(b.args) {
		return c.Empty()
	}
	var out []*Term
	start := c.Sub(lo, o)
	for ; k < len(b.args); k++ {
		s := b.args[k]
		l := c.Len(s)
		e := c.Add(o, l)
		if start != nil && !c.holds(c.Le(lo, e)) {
			return nil
		}
		st := c.Int(0)
		if start != nil {
			st = start
			start = nil
		}
		if c.holds(c.Le(hi, e)) {
			out = append(out, c.SubB(s, st, c.Sub(hi, o)))
			return c.Cat(out...)
		}
		if !c.holds(c.Le(e, hi)) {
			return nil
		}
		out = append(out, c.SubB(s, st, l))
		o = e
	}
	return c.Cat(out...)
}

func (c *Ctx) At(b, i *Term) *Term {
	switch b.op {
	case "lit":
		if i.isInt() && i.i.IsInt64() && i.I64() >= 0 && i.I64() < int64(len(b.str)) {
			return c.Int(int64(b.str[i.I64()]))
		}
	case "unit":
		return b.args[0]
	case "zeros":
		return c.Int(0)
	case "sub":
		return c.At(b.args[0], c.Add(b.args[1], i))
	case "cat":
		o := c.Int(0)
		for _, s := range b.args {
			e := c.Add(o, c.Len(s))
			if c.holds(c.Lt(i, e)) && c.holds(c.Le(o, i)) {
				return c.At(s, c.Sub(i, o))
			}
			if !c.holds(c.Le(e, i)) {
				break
			}
			o = e
		}
	case "uf":
		if b.name == "le" && i.isInt() && b.args[0].isInt() && i.i.Sign() >= 0 && i.i.Cmp(b.args[0].i) < 0 {
			return c.Mod(c.Div(b.args[1], c.Big(new(big.Int).Lsh(bigOne, uint(8*i.I64())))), c.Int(256))
		}
		if b.name == "be" && i.isInt() && b.args[0].isInt() && i.i.Sign() >= 0 && i.i.Cmp(b.args[0].i) < 0 {
			return c.Mod(c.Div(b.args[1], c.Big(new(big.Int).Lsh(bigOne, uint(8*(b.args[0].I64()-1-i.I64()))))), c.Int(256))
		}
		if b.name == "rep" {
			return b.args[0]
		}
	}
	return c.mk(&Term{op: "at", sort: SInt, args: []*Term{b, i}})
}

// Splice overwrites src into b at offset off (off+len(src) <= len(b)).
func (c *Ctx) Splice(b, off, src *Term) *Term {
	e := c.Add(off, c.Len(src))
	return c.Cat(c.SubB(b, c.Int(0), off), src, c.SubB(b, e, c.Len(b)))
}

func opaque(t *Term) bool { return t.op == "var" || t.op == "uf" }

func (c *Ctx) eqBytes(a, b *Term) *Term {
	if a.op == "lit" && b.op == "lit" {
		return c.Bool(a.str == b.str)
	}
	le := c.Eq(c.Len(a), c.Len(b))
	if le == c.F {
		return c.F
	}
	if a.op == "ite" && a.args[1].isConst() && a.args[2].isConst() && b.isConst() {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if b.op == "ite" && b.args[1].isConst() && b.args[2].isConst() && a.isConst() {
		return c.Ite(b.args[0], c.Eq(b.args[1], a), c.Eq(b.args[2], a))
	}
	if a.op == "lit" && a.str == "" {
		return c.Eq(c.Len(b), c.Int(0))
	}
	if b.op == "lit" && b.str == "" {
		return c.Eq(c.Len(a), c.Int(0))
	}
	if (a.op == "cat" || b.op == "cat") && !opaque(a) && !opaque(b) {
		as, bs := append([]*Term{}, c.segs(a)...), append([]*Term{}, c.segs(b)...)
		conj := []*Term{le}
		// front
		for len(as) > 0 && len(bs) > 0 {
			x, y := as[0], bs[0]
			if x == y {
				as, bs = as[1:], bs[1:]
				continue
			}
			lx, ly := c.Len(x), c.Len(y)
			if lx == ly {
				conj = append(conj, c.Eq(x, y))
				as, bs = as[1:], bs[1:]
				continue
			}
			if c.Le(lx, ly) == c.T {
				conj = append(conj, c.Eq(x, c.SubB(y, c.Int(0), lx)))
				as = as[1:]
				bs[0] = c.SubB(y, lx, ly)
				continue
			}
			if c.Le(ly, lx) == c.T {
				conj = append(conj, c.Eq(c.SubB(x, c.Int(0), ly), y))
				bs = bs[1:]
				as[0] = c.SubB(x, ly, lx)
				continue
			}
			break
		}
		// back
		for len(as) > 0 && len(bs) > 0 {
			x, y := as[len(as)-1], bs[len(bs)-1]
			if x == y {
				as, bs = as[:len(as)-1], bs[:len(bs)-1]
				continue
			}
			lx, ly := c.Len(x), c.Len(y)
			if lx == ly {
				conj = append(conj, c.Eq(x, y))
				as, bs = as[:len(as)-1], bs[:len(bs)-1]
				continue
			}
			if c.Le(lx, ly) == c.T {
				conj = append(conj, c.Eq(x, c.SubB(y, c.Sub(ly, lx), ly)))
				as = as[:len(as)-1]
				bs[len(bs)-1] = c.SubB(y, c.Int(0), c.Sub(ly, lx))
				continue
			}
			if c.Le(ly, lx) == c.T {
				conj = append(conj, c.Eq(c.SubB(x, c.Sub(lx, ly), lx), y))
				bs = bs[:len(bs)-1]
				as[len(as)-1] = c.SubB(x, c.Int(0), c.Sub(lx, ly))
				continue
			}
			break
		}
		if len(as) == 0 || len(bs) == 0 {
			for _, s := range append(as, bs...) {
				conj = append(conj, c.Eq(c.Len(s), c.Int(0)))
			}
			return c.And(conj...)
		}
		ra, rb := c.Cat(as...), c.Cat(bs...)
		if len(conj) > 1 || ra != a || rb != b {
			if ra.op != "cat" && rb.op != "cat" || opaque(ra) || opaque(rb) || ra == a && rb == b {
				return c.And(append(conj, c.rawEq(ra, rb))...)
			}
			if ra.id+rb.id != a.id+b.id || ra != b {
				return c.And(append(conj, c.rawEq(ra, rb))...)
			}
		}
	}
	if a.op == "unit" && b.op == "lit" && len(b.str) == 1 {
		return c.Eq(a.args[0], c.Int(int64(b.str[0])))
	}
	if b.op == "unit" && a.op == "lit" && len(a.str) == 1 {
		return c.Eq(b.args[0], c.Int(int64(a.str[0])))
	}
	if a.op == "unit" && b.op == "unit" {
		return c.Eq(a.args[0], b.args[0])
	}
	for i := 0; i < 2; i++ { // a short literal against a part of a sequence: byte by byte
		if a.op == "lit" && len(a.str) <= 4 && b.op == "sub" {
			conj := []*Term{le}
			for j := 0; j < len(a.str); j++ {
				conj = append(conj, c.Eq(c.At(b, c.Int(int64(j))), c.Int(int64(a.str[j]))))
			}
			return c.And(conj...)
		}
		a, b = b, a
	}
	return c.rawEq(a, b)
}
func (c *Ctx) rawEq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
}

// simpUF: built-in algebra of named functions. Returns nil when no rule applies.
func (c *Ctx) simpUF(name string, s Sort, args []*Term) *Term {
	if len(args) == 1 {
		a := args[0]
		switch name {
		case "vI":
			if a.op == "uf" && a.name == "K_int" {
				return a.args[0]
			}
		case "vB":
			if a.op == "uf" && a.name == "K_bool" {
				return a.args[0]
			}
		case "vS":
			if a.op == "uf" && (a.name == "K_bytes" || a.name == "K_slice") {
				return a.args[0]
			}
		case "vL", "arr":
			if a.op == "uf" && a.name == "K_seq" {
				return a.args[map[string]int{"arr": 0, "vL": 1}[name]]
			}
		case "isnil":
			if a.op == "uf" && isCtor(a.name) {
				if a.name == "K_slice" {
					return a.args[1]
				}
				if a.name == "K_seq" {
					return a.args[2]
				}
				return c.Bool(a.name == "K_nil")
			}
			if a.op == "ite" {
				return c.Ite(a.args[0], c.UF(name, s, a.args[1]), c.UF(name, s, a.args[2]))
			}
		case "fromle", "frombe":
			if r := c.simpFrom(name, a); r != nil {
				return r
			}
		}
		if strings.HasPrefix(name, "f:") && a.op == "uf" && strings.HasPrefix(a.name, "K_s:") {
			// f:<T>#<idx>   K_s:<T>
			j := strings.LastIndexByte(name, '#')
			if name[2:j] == a.name[4:] {
				k := 0
				for _, ch := range name[j+1:] {
					k = k*10 + int(ch-'0')
				}
				return a.args[k]
			}
		}
		// decoding what was encoded, of a type that can always be encoded
		if (name == "vI" || name == "vB" || name == "vS") && a.op == "uf" && strings.HasPrefix(a.name, "f:") && a.args[0].op == "uf" && strings.HasPrefix(a.args[0].name, "unasn1:") {
			T := a.args[0].name[7:]
			j := strings.LastIndexByte(a.name, '#')
			if d := a.args[0].args[0]; a.name[2:j] == T && c.plain[T] && d.op == "uf" && d.name == "asn1:"+T && d.args[0].op == "uf" && d.args[0].name == "K_x:"+T {
				k, _ := strconv.Atoi(a.name[j+1:])
				return c.UF(name, s, d.args[0].args[k])
			}
		}
		if strings.HasPrefix(name, "asn1ok:") && c.plain[name[7:]] && a.op == "uf" && a.name == "asn1:"+name[7:] {
			return c.T
		}
		if a.op == "ite" && (strings.HasPrefix(name, "f:") || name == "vI" || name == "vB" || name == "vS" || name == "vL" || name == "arr") {
			x, y := c.UF(name, s, a.args[1]), c.UF(name, s, a.args[2])
			return c.Ite(a.args[0], x, y)
		}
	}
	switch name {
	case "elem":
		if a := args[0]; a.op == "uf" && a.name == "shift" {
			return c.UF("elem", s, a.args[0], c.Add(a.args[1], args[1]))
		}
	case "ctr": // ctr(key, iv, data): keystream xor, an involution
		if d := args[2]; d.op == "uf" && d.name == "ctr" && d.args[0] == args[0] && d.args[1] == args[1] {
			return d.args[2]
		}
		if d := args[2]; d.op == "lit" && d.str == "" {
			return d
		}
	case "cbcdec":
		if d := args[2]; d.op == "uf" && d.name == "cbcenc" && d.args[0] == args[0] && d.args[1] == args[1] {
			return d.args[2]
		}
	case "ctrat":
		if d := args[3]; d.op == "uf" && d.name == "ctrat" && d.args[0] == args[0] && d.args[1] == args[1] && d.args[2] == args[2] {
			return d.args[3]
		}
		if d := args[3]; d.op == "lit" && d.str == "" {
			return d
		}
	case "gcmopen", "gcmok":
		if d := args[2]; d.op == "uf" && d.name == "gcmseal" && d.args[0] == args[0] && d.args[1] == args[1] && d.args[3] == args[3] {
			if name == "gcmok" {
				return c.T
			}
			return d.args[2]
		}
	case "boxopen", "boxok":
		if d := args[2]; d.op == "uf" && d.name == "boxseal" && d.args[0] == args[0] && d.args[1] == args[1] {
			if name == "boxok" {
				return c.T
			}
			return d.args[2]
		}
	case "liondec":
		if d := args[1]; d.op == "uf" && d.name == "lionenc" && d.args[0] == args[0] {
			return d.args[1]
		}
	case "hexdec", "hexok":
		if d := args[0]; d.op == "uf" && d.name == "hexenc" {
			if name == "hexok" {
				return c.T
			}
			return d.args[0]
		}
	case "xor":
		if d := args[0]; d.op == "uf" && d.name == "xor" && d.args[1] == args[1] {
			return d.args[0]
		}
	case "b64dec":
		if d := args[0]; d.op == "uf" && d.name == "b64enc" {
			return d.args[0]
		}
	case "b64ok":
		if d := args[0]; d.op == "uf" && d.name == "b64enc" {
			return c.T
		}
	case "dh": // dh(priv, pub): dh(a, pk(b)) = dh(b, pk(a))
		if p := args[1]; p.op == "uf" && p.name == "dhpub" && p.args[0].id < args[0].id {
			return c.UF("dh", SBytes, p.args[0], c.UF("dhpub", SBytes, args[0]))
		}
	case "edok": // edok(pub, msg, sig)
		if g := args[2]; g.op == "uf" && g.name == "edsign" && args[0].op == "uf" && args[0].name == "edpub" &&
			g.args[0] == args[0].args[0] && g.args[1] == args[1] {
			return c.T
		}
	case "bcmp":
		if args[0] == args[1] {
			return c.Int(0)
		}
	case "le", "be":
		if args[0].isInt() && args[1].isInt() && args[0].I64() <= 16 {
			n := int(args[0].I64())
			v := new(big.Int).Mod(args[1].i, new(big.Int).Lsh(bigOne, uint(8*n)))
			b := make([]byte, n)
			for i := 0; i < n; i++ {
				byt := byte(new(big.Int).Rsh(v, uint(8*i)).Uint64() & 255)
				if name == "le" {
					b[i] = byt
				} else {
					b[n-1-i] = byt
				}
			}
			return c.Lit(string(b))
		}
		if args[0].isInt() && args[0].I64() >= 0 && args[0].I64() <= 16 {
			n := int(args[0].I64())
			us := make([]*Term, n)
			for k := 0; k < n; k++ {
				p := k
				if name == "be" {
					p = n - 1 - k
				}
				us[k] = c.Unit(c.Mod(c.Div(args[1], c.Big(new(big.Int).Lsh(bigOne, uint(8*p)))), c.Int(256)))
			}
			return c.Cat(us...)
		}
	}
	return nil
}

// fromle(b)/frombe(b): unsigned integer value of a byte string of constant length
func (c *Ctx) simpFrom(name string, b *Term) *Term {
	L := c.Len(b)
	if L.isInt() && L.i.Sign() >= 0 && L.I64() <= 16 {
		n := int(L.I64())
		l := newLin()
		for k := 0; k < n; k++ {
			p := k
			if name == "frombe" {
				p = n - 1 - k
			}
			c.toLin(l, c.At(b, c.Int(int64(k))), new(big.Int).Lsh(bigOne, uint(8*p)))
		}
		return c.fromLin(l)
	}
	return nil
}
