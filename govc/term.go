package main

// Hash-consed logical terms with an eager simplifier.
// Sorts: Int (mathematical integers), Bool, Bytes (finite byte sequences),
// Val (everything else: boxed values, references, errors, ...).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort int

const (
	SInt Sort = iota
	SBool
	SBytes
	SVal
)

func (s Sort) String() string { return [...]string{"Int", "Bool", "Bytes", "Val"}[s] }

type Term struct {
	op    string // see below
	name  string // var / uf name
	str   string // bytes literal
	i     *big.Int
	args  []*Term
	coefs []*big.Int // for "+": coefficients of args; i holds the constant
	sort  Sort
	id    int
	bound bool // mentions a bound variable
	size  int
	lo    *big.Int // cached interval
	hi    *big.Int
	rngOK bool
}

// ops: int true false lit var uf + * div mod <= = not and or ite
//      len at cat sub unit zeros forall exists

type Ctx struct {
	plain map[string]bool // types encoding/asn1 can always encode
	tab   map[string]*Term
	next  int
	fresh int
	// declared ranges of atoms (vars / uf apps), by term id
	rlo, rhi map[int]*big.Int
	lenT     map[int]*Term  // length of opaque Bytes terms
	ufLen    map[string]int // result length of bytes-valued uf
	ufRange  map[string][2]*big.Int
	T, F     *Term
	prover   func(t *Term) bool // optional: is t implied by the current path?
	inProve  bool
	conjDefs map[string]bool
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, plain: map[string]bool{}, rlo: map[int]*big.Int{}, rhi: map[int]*big.Int{},
		lenT: map[int]*Term{}, ufLen: map[string]int{}, ufRange: map[string][2]*big.Int{}}
	c.T = c.mk(&Term{op: "true", sort: SBool})
	c.F = c.mk(&Term{op: "false", sort: SBool})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteByte(byte('0' + int(t.sort)))
	b.WriteString(t.name)
	b.WriteByte('|')
	if t.op == "lit" {
		fmt.Fprintf(&b, "%d:", len(t.str))
		b.WriteString(t.str)
	}
	if t.i != nil {
		b.WriteString(t.i.String())
	}
	size := 1
	for k, a := range t.args {
		b.WriteByte(',')
		if t.coefs != nil {
			b.WriteString(t.coefs[k].String())
			b.WriteByte('*')
		}
		fmt.Fprintf(&b, "%d", a.id)
		if a.bound {
			t.bound = true
		}
		size += a.size
	}
	if size > 1<<30 {
		size = 1 << 30
	}
	k := b.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	t.size = size
	t.id = c.next
	c.next++
	c.tab[k] = t
	return t
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *Ctx) Big(i *big.Int) *Term { return c.mk(&Term{op: "int", sort: SInt, i: i}) }
func (c *Ctx) Int(i int64) *Term    { return c.Big(big.NewInt(i)) }
func (c *Ctx) Lit(s string) *Term   { return c.mk(&Term{op: "lit", sort: SBytes, str: s}) }

// Var makes a named constant. Names are made unique by the caller.
func (c *Ctx) Var(name string, s Sort) *Term {
	return c.mk(&Term{op: "var", name: name, sort: s})
}
func (c *Ctx) Fresh(pfx string, s Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", pfx, c.fresh), s)
}
func (c *Ctx) FreshBound(pfx string, s Sort) *Term {
	c.fresh++
	t := &Term{op: "var", name: fmt.Sprintf("?%s!%d", pfx, c.fresh), sort: s, bound: true}
	return c.mk(t)
}
func (c *Ctx) UF(name string, s Sort, args ...*Term) *Term {
	if t := c.simpUF(name, s, args); t != nil {
		return t
	}
	return c.mk(&Term{op: "uf", name: name, sort: s, args: args})
}
func (c *Ctx) SetRange(t *Term, lo, hi *big.Int) {
	c.rlo[t.id] = lo
	c.rhi[t.id] = hi
	t.rngOK = false
}

func (t *Term) isInt() bool { return t.op == "int" }
func (t *Term) I64() int64  { return t.i.Int64() }
func (t *Term) isConst() bool {
	return t.op == "int" || t.op == "lit" || t.op == "true" || t.op == "false"
}

var bigZero = big.NewInt(0)
var bigOne = big.NewInt(1)
var maxLen = new(big.Int).Lsh(bigOne, 47)

// ---------- intervals ----------

func (c *Ctx) rng(t *Term) (lo, hi *big.Int) {
	if t.rngOK {
		return t.lo, t.hi
	}
	lo, hi = c.rng0(t)
	t.lo, t.hi, t.rngOK = lo, hi, true
	return
}
func (c *Ctx) rng0(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case "int":
		return t.i, t.i
	case "len":
		lo, hi = bigZero, maxLen
		if l, ok := c.rlo[t.id]; ok && l != nil {
			lo = l
		}
		if h, ok := c.rhi[t.id]; ok && h != nil {
			hi = h
		}
		return
	case "at":
		return bigZero, big.NewInt(255)
	case "+":
		lo, hi = t.i, t.i
		for k, a := range t.args {
			l, h := c.rng(a)
			cf := t.coefs[k]
			if cf.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo = new(big.Int).Add(lo, new(big.Int).Mul(cf, l))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi = new(big.Int).Add(hi, new(big.Int).Mul(cf, h))
				}
			}
		}
		return
	case "mod":
		if t.args[1].isInt() && t.args[1].i.Sign() > 0 {
			hi := new(big.Int).Sub(t.args[1].i, bigOne)
			l, h := c.rng(t.args[0])
			if l != nil && h != nil && l.Sign() >= 0 && h.Cmp(hi) < 0 {
				hi = h
			}
			return bigZero, hi
		}
	case "div":
		if t.args[1].isInt() && t.args[1].i.Sign() > 0 {
			l, h := c.rng(t.args[0])
			if l != nil {
				l = floorDiv(l, t.args[1].i)
			}
			if h != nil {
				h = floorDiv(h, t.args[1].i)
			}
			return l, h
		}
	case "ite":
		l1, h1 := c.rng(t.args[1])
		l2, h2 := c.rng(t.args[2])
		if l1 != nil && l2 != nil {
			lo = minB(l1, l2)
		}
		if h1 != nil && h2 != nil {
			hi = maxB(h1, h2)
		}
		return
	case "var", "uf":
		if l, ok := c.rlo[t.id]; ok {
			return l, c.rhi[t.id]
		}
		if t.op == "uf" {
			if r, ok := c.ufRange[t.name]; ok {
				return r[0], r[1]
			}
		}
	case "*":
		l1, h1 := c.rng(t.args[0])
		l2, h2 := c.rng(t.args[1])
		if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
			lo = new(big.Int).Mul(l1, l2)
			if h1 != nil && h2 != nil {
				hi = new(big.Int).Mul(h1, h2)
			}
			return
		}
	}
	return nil, nil
}
func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean; equals floor for b>0
	return q
}

// ---------- arithmetic ----------

type lin struct {
	m map[int]*big.Int
	t map[int]*Term
	k *big.Int
}

func (c *Ctx) toLin(l *lin, t *Term, f *big.Int) {
	switch t.op {
	case "int":
		l.k = new(big.Int).Add(l.k, new(big.Int).Mul(f, t.i))
	case "+":
		l.k = new(big.Int).Add(l.k, new(big.Int).Mul(f, t.i))
		for k, a := range t.args {
			c.toLin(l, a, new(big.Int).Mul(f, t.coefs[k]))
		}
	default:
		if o, ok := l.m[t.id]; ok {
			l.m[t.id] = new(big.Int).Add(o, f)
		} else {
			l.m[t.id] = f
			l.t[t.id] = t
		}
	}
}
func (c *Ctx) fromLin(l *lin) *Term {
	var ids []int
	for id, cf := range l.m {
		if cf.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return c.Big(l.k)
	}
	sort.Ints(ids)
	// mod(a,m) + m*mod(div(a,m),k) = mod(a,m*k);  mod(a,m) + m*div(a,m) = a
	for _, id := range ids {
		t := l.t[id]
		if t.op != "mod" || !t.args[1].isInt() || t.args[1].i.Sign() <= 0 {
			continue
		}
		m, cf := t.args[1].i, l.m[id]
		want := new(big.Int).Mul(cf, m)
		q := c.Div(t.args[0], t.args[1])
		for _, id2 := range ids {
			u := l.t[id2]
			if id2 == id || l.m[id2].Cmp(want) != 0 {
				continue
			}
			var r *Term
			if u == q {
				r = t.args[0]
			} else if u.op == "mod" && u.args[0] == q && u.args[1].isInt() && u.args[1].i.Sign() > 0 {
				r = c.Mod(t.args[0], c.Big(new(big.Int).Mul(m, u.args[1].i)))
			}
			if r != nil {
				l.m[id], l.m[id2] = bigZero, bigZero
				c.toLin(l, r, cf)
				return c.fromLin(l)
			}
		}
	}
	if len(ids) == 1 && l.k.Sign() == 0 && l.m[ids[0]].Cmp(bigOne) == 0 {
		return l.t[ids[0]]
	}
	t := &Term{op: "+", sort: SInt, i: l.k}
	for _, id := range ids {
		t.args = append(t.args, l.t[id])
		t.coefs = append(t.coefs, l.m[id])
	}
	return c.mk(t)
}
func newLin() *lin { return &lin{m: map[int]*big.Int{}, t: map[int]*Term{}, k: bigZero} }

func (c *Ctx) Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		c.toLin(l, t, bigOne)
	}
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := newLin()
	c.toLin(l, a, bigOne)
	c.toLin(l, b, big.NewInt(-1))
	return c.fromLin(l)
}
func (c *Ctx) AddK(a *Term, k int64) *Term { return c.Add(a, c.Int(k)) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := newLin()
		c.toLin(l, b, a.i)
		return c.fromLin(l)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: "*", sort: SInt, args: []*Term{a, b}})
}

// Div and Mod are Euclidean (SMT-LIB).
func (c *Ctx) Div(a, b *Term) *Term {
	if b.isInt() && b.i.Sign() > 0 {
		if b.i.Cmp(bigOne) == 0 {
			return a
		}
		if a.isInt() {
			return c.Big(floorDiv(a.i, b.i))
		}
		lo, hi := c.rng(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.i) < 0 {
			return c.Int(0)
		}
		if a.op == "div" && a.args[1].isInt() && a.args[1].i.Sign() > 0 {
			return c.Div(a.args[0], c.Big(new(big.Int).Mul(a.args[1].i, b.i)))
		}
		// (x mod m) div b = (x div b) mod (m/b) when b divides m
		if a.op == "mod" && a.args[1].isInt() && a.args[1].i.Sign() > 0 && new(big.Int).Rem(a.args[1].i, b.i).Sign() == 0 {
			return c.Mod(c.Div(a.args[0], b), c.Big(new(big.Int).Quo(a.args[1].i, b.i)))
		}
		// split off multiples of b
		if a.op == "+" {
			q, r := newLin(), newLin()
			any := false
			for k, x := range a.args {
				if new(big.Int).Rem(a.coefs[k], b.i).Sign() == 0 {
					c.toLin(q, x, new(big.Int).Quo(a.coefs[k], b.i))
					any = true
				} else {
					c.toLin(r, x, a.coefs[k])
				}
			}
			fd := floorDiv(a.i, b.i)
			if fd.Sign() != 0 {
				any = true
			}
			q.k = fd
			r.k = new(big.Int).Sub(a.i, new(big.Int).Mul(fd, b.i))
			if any {
				return c.Add(c.fromLin(q), c.Div(c.fromLin(r), b))
			}
		}
	}
	return c.mk(&Term{op: "div", sort: SInt, args: []*Term{a, b}})
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if b.isInt() && b.i.Sign() > 0 {
		if b.i.Cmp(bigOne) == 0 {
			return c.Int(0)
		}
		if a.isInt() {
			return c.Big(new(big.Int).Mod(a.i, b.i))
		}
		lo, hi := c.rng(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.i) < 0 {
			return a
		}
		if a.op == "mod" && a.args[1].isInt() && a.args[1].i.Sign() > 0 &&
			new(big.Int).Rem(a.args[1].i, b.i).Sign() == 0 {
			return c.Mod(a.args[0], b)
		}
		if a.op == "+" {
			r := newLin()
			any := false
			for k, x := range a.args {
				m := new(big.Int).Mod(a.coefs[k], b.i)
				if m.Cmp(a.coefs[k]) != 0 && m.Sign() == 0 {
					any = true
					continue
				}
				// a nested mod by a multiple of b can be dropped
				if x.op == "mod" && x.args[1].isInt() && x.args[1].i.Sign() > 0 && new(big.Int).Rem(x.args[1].i, b.i).Sign() == 0 {
					any = true
					c.toLin(r, x.args[0], a.coefs[k])
					continue
				}
				c.toLin(r, x, a.coefs[k])
			}
			m := new(big.Int).Mod(a.i, b.i)
			if m.Cmp(a.i) != 0 {
				any = true
			}
			r.k = m
			if any {
				return c.Mod(c.fromLin(r), b)
			}
		}
	}
	return c.mk(&Term{op: "mod", sort: SInt, args: []*Term{a, b}})
}

func (c *Ctx) Le(a, b *Term) *Term { // a <= b  as  (b - a) >= 0, normalised
	d := c.Sub(b, a)
	lo, hi := c.rng(d)
	if lo != nil && lo.Sign() >= 0 {
		return c.T
	}
	if hi != nil && hi.Sign() < 0 {
		return c.F
	}
	if d.op == "ite" {
		return c.Ite(d.args[0], c.Le(c.Int(0), d.args[1]), c.Le(c.Int(0), d.args[2]))
	}
	// normal form: 0 <= d, divided by gcd
	if d.op == "+" {
		g := new(big.Int)
		for _, cf := range d.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(cf))
		}
		if g.Cmp(bigOne) > 0 {
			l := newLin()
			for k, x := range d.args {
				c.toLin(l, x, new(big.Int).Quo(d.coefs[k], g))
			}
			l.k = floorDiv(d.i, g)
			d = c.fromLin(l)
		}
	}
	return c.mk(&Term{op: "<=", sort: SBool, args: []*Term{d}}) // 0 <= d
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le(c.AddK(a, 1), b) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.F
	case "false":
		return c.T
	case "not":
		return a.args[0]
	case "<=": // not(0<=d) = d<=-1 = 0 <= -d-1
		return c.Le(c.AddK(a.args[0], 1), c.Int(0))
	}
	return c.mk(&Term{op: "not", sort: SBool, args: []*Term{a}})
}
func (c *Ctx) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == c.F {
			return false
		}
		if t == c.T || seen[t.id] {
			return true
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return c.F
		}
	}
	if len(out) == 0 {
		return c.T
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: "and", sort: SBool, args: out})
}
func (c *Ctx) Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		if t == c.T {
			return c.T
		}
		if t == c.F || seen[t.id] {
			continue
		}
		if t.op == "or" {
			for _, a := range t.args {
				if !seen[a.id] {
					seen[a.id] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[t.id] = true
		out = append(out, t)
	}
	for _, t := range out {
		if seen[c.Not(t).id] {
			return c.T
		}
	}
	if len(out) == 0 {
		return c.F
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: "or", sort: SBool, args: out})
}
func (c *Ctx) Imp(a, b *Term) *Term { return c.Or(c.Not(a), b) }
func (c *Ctx) Iff(a, b *Term) *Term { return c.Eq(a, b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g == c.T || a == b {
		return a
	}
	if g == c.F {
		return b
	}
	if a.sort == SBool {
		return c.And(c.Or(c.Not(g), a), c.Or(g, b))
	}
	if g.op == "not" {
		return c.Ite(g.args[0], b, a)
	}
	return c.mk(&Term{op: "ite", sort: a.sort, args: []*Term{g, a, b}})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq: sort mismatch %v(%s) %v(%s)", a.sort, c.Str(a), b.sort, c.Str(b)))
	}
	switch a.sort {
	case SBool:
		if a == c.T {
			return b
		}
		if b == c.T {
			return a
		}
		if a == c.F {
			return c.Not(b)
		}
		if b == c.F {
			return c.Not(a)
		}
		if a == c.Not(b) {
			return c.F
		}
	case SInt:
		d := c.Sub(a, b)
		lo, hi := c.rng(d)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return c.F
		}
		if d.isInt() {
			return c.Bool(d.i.Sign() == 0)
		}
		if a.op == "ite" && b.isInt() {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
		if b.op == "ite" && a.isInt() {
			return c.Ite(b.args[0], c.Eq(b.args[1], a), c.Eq(b.args[2], a))
		}
		// canonical: put all on one side with positive first coefficient
		if d.op == "+" {
			if d.coefs[0].Sign() < 0 {
				d = c.Sub(c.Int(0), d)
			}
			g := new(big.Int)
			for _, cf := range d.coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(cf))
			}
			if g.Cmp(bigOne) > 0 && new(big.Int).Rem(d.i, g).Sign() != 0 {
				return c.F
			}
		}
		return c.mk(&Term{op: "=", sort: SBool, args: []*Term{d, c.Int(0)}})
	case SBytes:
		return c.eqBytes(a, b)
	case SVal:
		// constructor clash / injectivity
		if a.op == "uf" && b.op == "uf" && isCtor(a.name) && isCtor(b.name) {
			if a.name != b.name || len(a.args) != len(b.args) {
				return c.F
			}
			var cs []*Term
			for k := range a.args {
				cs = append(cs, c.Eq(a.args[k], b.args[k]))
			}
			return c.And(cs...)
		}
		if a.op == "ite" && (isConstVal(a.args[1]) || isConstVal(a.args[2])) && isConstVal(b) {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
		if b.op == "ite" && (isConstVal(b.args[1]) || isConstVal(b.args[2])) && isConstVal(a) {
			return c.Ite(b.args[0], c.Eq(b.args[1], a), c.Eq(b.args[2], a))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
}

// constructors: injective, pairwise disjoint functions into Val
func isCtor(n string) bool { return strings.HasPrefix(n, "K_") }
func isConstVal(t *Term) bool {
	return t.op == "uf" && isCtor(t.name)
}

func (c *Ctx) Forall(vs []*Term, body *Term) *Term {
	if body == c.T {
		return c.T
	}
	args := append([]*Term{}, vs...)
	args = append(args, body)
	t := c.mk(&Term{op: "forall", sort: SBool, args: args})
	return c.fixBound(t, vs)
}
func (c *Ctx) Exists(vs []*Term, body *Term) *Term { return c.Not(c.Forall(vs, c.Not(body))) }

// recompute the bound flag: bound iff free bound variables remain
func (c *Ctx) fixBound(t *Term, vs []*Term) *Term {
	vars := map[int]bool{}
	b := map[int]bool{}
	seen := map[int]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if !x.bound || seen[x.id] {
			return
		}
		seen[x.id] = true
		if x.op == "var" {
			vars[x.id] = true
			return
		}
		if x.op == "forall" {
			for _, v := range x.args[:len(x.args)-1] {
				b[v.id] = true
			}
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	for _, v := range vs {
		b[v.id] = true
	}
	walk(t.args[len(t.args)-1])
	t.bound = false
	for v := range vars {
		if !b[v] {
			t.bound = true
		}
	}
	return t
}

// Subst replaces terms (by id) bottom-up.
func (c *Ctx) Subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t.id]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for k, a := range t.args {
			na[k] = f(a)
			if na[k] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, na)
		}
		memo[t.id] = r
		return r
	}
	return f(t)
}
func (c *Ctx) rebuild(t *Term, na []*Term) *Term {
	switch t.op {
	case "+":
		l := newLin()
		l.k = t.i
		for k, a := range na {
			c.toLin(l, a, t.coefs[k])
		}
		return c.fromLin(l)
	case "*":
		return c.Mul(na[0], na[1])
	case "div":
		return c.Div(na[0], na[1])
	case "mod":
		return c.Mod(na[0], na[1])
	case "<=":
		return c.Le(c.Int(0), na[0])
	case "=":
		return c.Eq(na[0], na[1])
	case "not":
		return c.Not(na[0])
	case "and":
		return c.And(na...)
	case "or":
		return c.Or(na...)
	case "ite":
		return c.Ite(na[0], na[1], na[2])
	case "len":
		return c.Len(na[0])
	case "at":
		return c.At(na[0], na[1])
	case "cat":
		return c.Cat(na...)
	case "sub":
		return c.SubB(na[0], na[1], na[2])
	case "unit":
		return c.Unit(na[0])
	case "zeros":
		return c.Zeros(na[0])
	case "forall":
		return c.Forall(na[:len(na)-1], na[len(na)-1])
	case "uf":
		return c.UF(t.name, t.sort, na...)
	}
	panic("rebuild " + t.op)
}

// Str renders a term for humans.
func (c *Ctx) Str(t *Term) string {
	var b strings.Builder
	c.str(&b, t, 0)
	return b.String()
}
func (c *Ctx) str(b *strings.Builder, t *Term, d int) {
	if b.Len() > 4000 {
		b.WriteString("…")
		return
	}
	switch t.op {
	case "int":
		b.WriteString(t.i.String())
	case "lit":
		if len(t.str) > 40 {
			fmt.Fprintf(b, "%q..%d", t.str[:40], len(t.str))
		} else {
			fmt.Fprintf(b, "%q", t.str)
		}
	case "var":
		b.WriteString(t.name)
	case "true", "false":
		b.WriteString(t.op)
	default:
		b.WriteByte('(')
		if t.op == "uf" {
			b.WriteString(t.name)
		} else {
			b.WriteString(t.op)
		}
		for k, a := range t.args {
			b.WriteByte(' ')
			if t.coefs != nil && t.coefs[k].Cmp(bigOne) != 0 {
				b.WriteString(t.coefs[k].String() + "*")
			}
			c.str(b, a, d+1)
		}
		if t.op == "+" {
			b.WriteString(" " + t.i.String())
		}
		b.WriteByte(')')
	}
}
