package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------- printing ----------

type printer struct {
	c        *Ctx
	out      *strings.Builder
	declared map[string]bool
	defined  map[int]bool
	lits     map[int]bool
	ranged   map[int]bool
	axioms   []*Axiom
	axDone   map[*Axiom]bool
	strict   bool // cvc5: no z3-only options
}

func newPrinter(c *Ctx, axioms []*Axiom) *printer {
	return &printer{c: c, out: &strings.Builder{}, declared: map[string]bool{}, defined: map[int]bool{},
		lits: map[int]bool{}, ranged: map[int]bool{}, axioms: axioms, axDone: map[*Axiom]bool{}}
}

const prelude = `
(declare-sort Bytes 0)
(declare-sort Val 0)
(declare-fun blen (Bytes) Int)
(declare-fun bat (Bytes Int) Int)
(declare-fun bcat (Bytes Bytes) Bytes)
(declare-fun bsub (Bytes Int Int) Bytes)
(declare-fun bunit (Int) Bytes)
(declare-fun bzeros (Int) Bytes)
(declare-fun ctag (Val) Int)
(assert (forall ((b Bytes)) (! (<= 0 (blen b)) :pattern ((blen b)))))
(assert (forall ((b Bytes) (i Int)) (! (and (<= 0 (bat b i)) (<= (bat b i) 255)) :pattern ((bat b i)))))
(assert (forall ((a Bytes) (b Bytes)) (! (= (blen (bcat a b)) (+ (blen a) (blen b))) :pattern ((bcat a b)))))
(assert (forall ((a Bytes) (i Int) (j Int)) (! (=> (and (= i 0) (= j (blen a))) (= (bsub a i j) a)) :pattern ((bsub a i j)))))
(assert (forall ((a Bytes) (b Bytes)) (! (and (=> (= (blen a) 0) (= (bcat a b) b)) (=> (= (blen b) 0) (= (bcat a b) a))) :pattern ((bcat a b)))))
(assert (forall ((a Bytes) (b Bytes) (i Int)) (! (= (bat (bcat a b) i) (ite (< i (blen a)) (bat a i) (bat b (- i (blen a))))) :pattern ((bat (bcat a b) i)))))
(assert (forall ((b Bytes) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (blen b))) (= (blen (bsub b l h)) (- h l))) :pattern ((bsub b l h)))))
(assert (forall ((b Bytes) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (blen b)) (<= 0 i) (< i (- h l))) (= (bat (bsub b l h) i) (bat b (+ l i)))) :pattern ((bat (bsub b l h) i)))))
(assert (forall ((v Int)) (! (and (= (blen (bunit v)) 1) (=> (and (<= 0 v) (<= v 255)) (= (bat (bunit v) 0) v))) :pattern ((bunit v)))))
(assert (forall ((n Int)) (! (=> (<= 0 n) (= (blen (bzeros n)) n)) :pattern ((bzeros n)))))
(assert (forall ((n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (bat (bzeros n) i) 0)) :pattern ((bat (bzeros n) i)))))
`

func smtInt(i *big.Int) string {
	if i.Sign() < 0 {
		return "(- " + new(big.Int).Neg(i).String() + ")"
	}
	return i.String()
}
func q(n string) string {
	n = strings.ReplaceAll(n, "|", "!")
	n = strings.ReplaceAll(n, "\\", "/")
	return "|" + n + "|"
}

// prep declares everything t needs; afterwards ref(t) is printable.
func (p *printer) prep(t *Term) {
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] || p.defined[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			walk(a)
		}
		switch t.op {
		case "var":
			if !t.bound && !p.declared[t.name] {
				p.declared[t.name] = true
				fmt.Fprintf(p.out, "(declare-fun %s () %v)\n", q(t.name), t.sort)
				p.extras(t)
				if n := p.c.lenT[t.id]; n != nil {
					walk(n)
					fmt.Fprintf(p.out, "(assert (=> (<= 0 %s) (= (blen %s) %s)))\n", p.ref(n), p.ref(t), p.ref(n))
				}
			}
		case "uf":
			p.declUF(t)
			if !t.bound {
				p.extras(t)
			}
		case "lit":
			if !p.lits[t.id] {
				p.lits[t.id] = true
				n := fmt.Sprintf("lit%d", t.id)
				fmt.Fprintf(p.out, "(declare-fun %s () Bytes)\n(assert (= (blen %s) %d))\n", n, n, len(t.str))
				allz := len(t.str) > 0 && strings.Count(t.str, "\x00") == len(t.str)
				if allz {
					fmt.Fprintf(p.out, "(assert (= %s (bzeros %d)))\n", n, len(t.str))
				} else {
					for i := 0; i < len(t.str) && i < 80; i++ {
						fmt.Fprintf(p.out, "(assert (= (bat %s %d) %d))\n", n, i, t.str[i])
					}
				}
			}
		case "len":
			if !t.bound {
				p.extras(t)
			}
		}
		if !t.bound && t.size > 8 && t.op != "var" {
			p.defined[t.id] = true
			fmt.Fprintf(p.out, "(define-fun t%d () %v %s)\n", t.id, t.sort, p.body(t))
		}
	}
	walk(t)
}

// facts attached to individual ground terms
func (p *printer) extras(t *Term) {
	if p.ranged[t.id] {
		return
	}
	p.ranged[t.id] = true
	if t.op == "len" && p.c.rhi[t.id] == nil {
		// every byte string fits into the address space (the simplifier assumes the same)
		fmt.Fprintf(p.out, "(assert (<= %s %s))\n", p.ref(t), smtInt(maxLen))
	}
	if lo, ok := p.c.rlo[t.id]; ok && t.sort == SInt {
		if lo != nil {
			fmt.Fprintf(p.out, "(assert (<= %s %s))\n", smtInt(lo), p.ref(t))
		}
		if hi := p.c.rhi[t.id]; hi != nil {
			fmt.Fprintf(p.out, "(assert (<= %s %s))\n", p.ref(t), smtInt(hi))
		}
	}
	if t.sort == SBytes {
		if n, ok := p.c.rlo[-t.id-1]; ok {
			fmt.Fprintf(p.out, "(assert (= (blen %s) %s))\n", p.ref(t), n)
		}
	}
}

func (p *printer) declUF(t *Term) {
	key := "uf:" + t.name
	if p.declared[key] {
		return
	}
	p.declared[key] = true
	var ss, bs, xs []string
	for k, a := range t.args {
		ss = append(ss, a.sort.String())
		bs = append(bs, fmt.Sprintf("(x%d %v)", k, a.sort))
		xs = append(xs, fmt.Sprintf("x%d", k))
	}
	fmt.Fprintf(p.out, "(declare-fun %s (%s) %v)\n", q(t.name), strings.Join(ss, " "), t.sort)
	app := q(t.name)
	if len(xs) > 0 {
		app = "(" + q(t.name) + " " + strings.Join(xs, " ") + ")"
	}
	all := func(body string) {
		if len(xs) == 0 {
			fmt.Fprintf(p.out, "(assert %s)\n", body)
		} else {
			fmt.Fprintf(p.out, "(assert (forall (%s) (! %s :pattern (%s))))\n", strings.Join(bs, " "), body, app)
		}
	}
	if n, ok := p.c.ufLen[t.name]; ok {
		all(fmt.Sprintf("(= (blen %s) %d)", app, n))
	}
	if r, ok := p.c.ufRange[t.name]; ok {
		if r[0] != nil {
			all(fmt.Sprintf("(<= %s %s)", smtInt(r[0]), app))
		}
		if r[1] != nil {
			all(fmt.Sprintf("(<= %s %s)", app, smtInt(r[1])))
		}
	}
	if isCtor(t.name) {
		h := 0
		for _, ch := range t.name {
			h = (h*131 + int(ch)) & 0xffffffff
		}
		all(fmt.Sprintf("(= (ctag %s) %d)", app, h))
		for k, a := range t.args {
			inv := fmt.Sprintf("inv%d:%s", k, t.name)
			switch {
			case t.name == "K_int":
				inv = "vI"
			case t.name == "K_bool":
				inv = "vB"
			case t.name == "K_bytes", t.name == "K_slice" && k == 0:
				inv = "vS"
			case t.name == "K_seq":
				inv = []string{"arr", "vL", "isnil"}[k]
			case strings.HasPrefix(t.name, "K_s:"):
				inv = fmt.Sprintf("f:%s#%d", t.name[4:], k)
			}
			if !p.declared["uf:"+inv] {
				p.declared["uf:"+inv] = true
				fmt.Fprintf(p.out, "(declare-fun %s (Val) %v)\n", q(inv), a.sort)
			}
			all(fmt.Sprintf("(= (%s %s) x%d)", q(inv), app, k))
		}
		if !p.declared["uf:isnil"] {
			p.declared["uf:isnil"] = true
			fmt.Fprintf(p.out, "(declare-fun |isnil| (Val) Bool)\n")
		}
		if t.name == "K_slice" {
			all(fmt.Sprintf("(= (|isnil| %s) x1)", app))
		} else if t.name != "K_seq" {
			all(fmt.Sprintf("(= (|isnil| %s) %v)", app, t.name == "K_nil"))
		}
	}
	switch t.name {
	case "shift":
		if !p.declared["uf:elem"] {
			p.declared["uf:elem"] = true
			fmt.Fprintf(p.out, "(declare-fun |elem| (Val Int) Val)\n")
		}
		fmt.Fprintf(p.out, "(assert (forall ((a Val) (o Int) (i Int)) (! (= (|elem| (|shift| a o) i) (|elem| a (+ o i))) :pattern ((|elem| (|shift| a o) i)))))\n")
	case "ctr":
		fmt.Fprintf(p.out, "(assert (forall ((k Bytes) (v Bytes) (d Bytes)) (! (and (= (blen (|ctr| k v d)) (blen d)) (= (|ctr| k v (|ctr| k v d)) d)) :pattern ((|ctr| k v d)))))\n")
	case "cbcenc", "cbcdec":
		for _, n := range []string{"cbcenc", "cbcdec"} {
			if !p.declared["uf:"+n] {
				p.declared["uf:"+n] = true
				fmt.Fprintf(p.out, "(declare-fun |%s| (Bytes Bytes Bytes) Bytes)\n", n)
			}
		}
		if !p.declared["ax:cbc"] {
			p.declared["ax:cbc"] = true
			fmt.Fprintf(p.out, "(assert (forall ((k Bytes) (v Bytes) (d Bytes)) (! (and (= (blen (|cbcenc| k v d)) (blen d)) (= (|cbcdec| k v (|cbcenc| k v d)) d)) :pattern ((|cbcenc| k v d)))))\n")
			fmt.Fprintf(p.out, "(assert (forall ((k Bytes) (v Bytes) (d Bytes)) (! (= (blen (|cbcdec| k v d)) (blen d)) :pattern ((|cbcdec| k v d)))))\n")
		}
	case "ctrat":
		fmt.Fprintf(p.out, "(assert (forall ((k Bytes) (v Bytes) (o Int) (d Bytes)) (! (and (= (blen (|ctrat| k v o d)) (blen d)) (= (|ctrat| k v o (|ctrat| k v o d)) d)) :pattern ((|ctrat| k v o d)))))\n")
	case "gcmseal":
		fmt.Fprintf(p.out, "(assert (forall ((k Bytes) (n Bytes) (d Bytes) (a Bytes)) (! (= (blen (|gcmseal| k n d a)) (+ 16 (blen d))) :pattern ((|gcmseal| k n d a)))))\n")
	case "boxseal":
		fmt.Fprintf(p.out, "(assert (forall ((k Bytes) (n Bytes) (d Bytes)) (! (= (blen (|boxseal| k n d)) (+ 16 (blen d))) :pattern ((|boxseal| k n d)))))\n")
	case "hkdfsha512", "hkdfsha256", "hkdfsha1":
		fmt.Fprintf(p.out, "(assert (forall ((a Bytes) (b Bytes) (d Bytes) (o Int) (n Int)) (! (=> (<= 0 n) (= (blen (|%s| a b d o n)) n)) :pattern ((|%s| a b d o n)))))\n", t.name, t.name)
	case "xor":
		fmt.Fprintf(p.out, "(assert (forall ((a Bytes) (b Bytes)) (! (= (blen (|xor| a b)) (blen a)) :pattern ((|xor| a b)))))\n")
	case "rand":
		fmt.Fprintf(p.out, "(assert (forall ((a Int) (n Int)) (! (=> (<= 0 n) (= (blen (|rand| a n)) n)) :pattern ((|rand| a n)))))\n")
	case "rep":
		fmt.Fprintf(p.out, "(assert (forall ((a Int) (n Int)) (! (=> (<= 0 n) (= (blen (|rep| a n)) n)) :pattern ((|rep| a n)))))\n")
		fmt.Fprintf(p.out, "(assert (forall ((a Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (bat (|rep| a n) i) a)) :pattern ((bat (|rep| a n) i)))))\n")
	case "le", "be":
		fmt.Fprintf(p.out, "(assert (forall ((n Int) (v Int)) (! (=> (<= 0 n) (= (blen (|%s| n v)) n)) :pattern ((|%s| n v)))))\n", t.name, t.name)
	case "bcmp":
		fmt.Fprintf(p.out, "(assert (forall ((a Bytes) (b Bytes)) (! (and (= (= (|bcmp| a b) 0) (= a b)) (= (< (|bcmp| a b) 0) (> (|bcmp| b a) 0)) (<= (- 1) (|bcmp| a b)) (<= (|bcmp| a b) 1)) :pattern ((|bcmp| a b)))))\n")
	case "dh", "dhpub":
		for _, n := range []string{"dh", "dhpub"} {
			if !p.declared["uf:"+n] {
				p.declared["uf:"+n] = true
				if n == "dh" {
					fmt.Fprintf(p.out, "(declare-fun |dh| (Bytes Bytes) Bytes)\n")
				} else {
					fmt.Fprintf(p.out, "(declare-fun |dhpub| (Bytes) Bytes)\n")
				}
			}
		}
		if !p.declared["ax:dh"] {
			p.declared["ax:dh"] = true
			fmt.Fprintf(p.out, "(assert (forall ((a Bytes) (b Bytes)) (! (= (|dh| a (|dhpub| b)) (|dh| b (|dhpub| a))) :pattern ((|dh| a (|dhpub| b))))))\n")
			fmt.Fprintf(p.out, "(assert (forall ((a Bytes) (b Bytes)) (! (= (blen (|dh| a b)) 32) :pattern ((|dh| a b)))))\n")
			fmt.Fprintf(p.out, "(assert (forall ((a Bytes)) (! (= (blen (|dhpub| a)) 32) :pattern ((|dhpub| a)))))\n")
		}
	case "edok", "edsign", "edpub":
		decl := map[string]string{"edok": "(Bytes Bytes Bytes) Bool", "edsign": "(Bytes Bytes) Bytes", "edpub": "(Bytes) Bytes"}
		for _, n := range []string{"edok", "edsign", "edpub"} {
			if !p.declared["uf:"+n] {
				p.declared["uf:"+n] = true
				fmt.Fprintf(p.out, "(declare-fun |%s| %s)\n", n, decl[n])
			}
		}
		if !p.declared["ax:ed"] {
			p.declared["ax:ed"] = true
			fmt.Fprintf(p.out, "(assert (forall ((k Bytes) (m Bytes)) (! (and (= (blen (|edsign| k m)) 64) (|edok| (|edpub| k) m (|edsign| k m))) :pattern ((|edsign| k m)))))\n")
			fmt.Fprintf(p.out, "(assert (forall ((k Bytes)) (! (= (blen (|edpub| k)) 32) :pattern ((|edpub| k)))))\n")
		}
	case "bigof", "bigbytes":
		decl := map[string]string{"bigof": "(Bytes) Val", "bigbytes": "(Val) Bytes"}
		for _, n := range []string{"bigof", "bigbytes"} {
			if !p.declared["uf:"+n] {
				p.declared["uf:"+n] = true
				fmt.Fprintf(p.out, "(declare-fun |%s| %s)\n", n, decl[n])
			}
		}
		if !p.declared["ax:big"] {
			p.declared["ax:big"] = true
			fmt.Fprintf(p.out, "(assert (forall ((x Val)) (! (= (|bigbytes| (|bigof| (|bigbytes| x))) (|bigbytes| x)) :pattern ((|bigof| (|bigbytes| x))))))\n")
		}
	case "b64dec", "b64enc", "b64ok":
		decl := map[string]string{"b64dec": "(Bytes) Bytes", "b64enc": "(Bytes) Bytes", "b64ok": "(Bytes) Bool"}
		for _, n := range []string{"b64dec", "b64enc", "b64ok"} {
			if !p.declared["uf:"+n] {
				p.declared["uf:"+n] = true
				fmt.Fprintf(p.out, "(declare-fun |%s| %s)\n", n, decl[n])
			}
		}
		if !p.declared["ax:b64"] {
			p.declared["ax:b64"] = true
			fmt.Fprintf(p.out, "(assert (forall ((b Bytes)) (! (and (|b64ok| (|b64enc| b)) (= (|b64dec| (|b64enc| b)) b) (= (blen (|b64enc| b)) (* 4 (div (+ (blen b) 2) 3)))) :pattern ((|b64enc| b)))))\n")
			fmt.Fprintf(p.out, "(assert (forall ((b Bytes)) (! (=> (|b64ok| b) (<= (* 4 (blen (|b64dec| b))) (* 3 (blen b)))) :pattern ((|b64dec| b)))))\n")
		}
	}
	// user axioms triggered by this symbol
	for _, ax := range p.axioms {
		if !p.axDone[ax] && ax.mentions[t.name] {
			p.axDone[ax] = true
			tt := ax.term(p.c)
			p.prep(tt)
			fmt.Fprintf(p.out, "(assert %s)\n", p.ref(tt))
		}
	}
}

func (p *printer) ref(t *Term) string {
	if p.defined[t.id] {
		return fmt.Sprintf("t%d", t.id)
	}
	return p.body(t)
}

func (p *printer) body(t *Term) string {
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		return smtInt(t.i)
	case "lit":
		return fmt.Sprintf("lit%d", t.id)
	case "var":
		return q(t.name)
	}
	var as []string
	for _, a := range t.args {
		as = append(as, p.ref(a))
	}
	j := strings.Join(as, " ")
	switch t.op {
	case "uf":
		if len(as) == 0 {
			return q(t.name)
		}
		return "(" + q(t.name) + " " + j + ")"
	case "+":
		var b strings.Builder
		b.WriteString("(+")
		if t.i.Sign() != 0 || len(as) == 1 {
			b.WriteString(" " + smtInt(t.i))
		}
		for k, a := range as {
			if t.coefs[k].Cmp(bigOne) == 0 {
				b.WriteString(" " + a)
			} else {
				b.WriteString(" (* " + smtInt(t.coefs[k]) + " " + a + ")")
			}
		}
		b.WriteString(")")
		return b.String()
	case "*", "div", "mod", "and", "or", "not", "=", "ite":
		return "(" + t.op + " " + j + ")"
	case "<=":
		return "(<= 0 " + j + ")"
	case "len":
		return "(blen " + j + ")"
	case "at":
		return "(bat " + j + ")"
	case "sub":
		return "(bsub " + j + ")"
	case "unit":
		return "(bunit " + j + ")"
	case "zeros":
		return "(bzeros " + j + ")"
	case "cat":
		r := as[len(as)-1]
		for k := len(as) - 2; k >= 0; k-- {
			r = "(bcat " + as[k] + " " + r + ")"
		}
		return r
	case "forall":
		var bs []string
		n := len(t.args) - 1
		for _, v := range t.args[:n] {
			bs = append(bs, fmt.Sprintf("(%s %v)", q(v.name), v.sort))
		}
		pat := p.patterns(t.args[:n], t.args[n])
		body := as[n]
		if pat != "" {
			body = "(! " + body + pat + ")"
		}
		return "(forall (" + strings.Join(bs, " ") + ") " + body + ")"
	}
	panic("print " + t.op)
}

// patterns picks triggers: smallest uf/at applications covering the bound variables.
func (p *printer) patterns(vs []*Term, body *Term) string {
	need := map[int]bool{}
	for _, v := range vs {
		need[v.id] = true
	}
	type cand struct {
		t *Term
		v map[int]bool
	}
	var cands []cand
	seen := map[int]bool{}
	var vars func(t *Term, m map[int]bool) bool // false when t contains non-trigger ops
	vars = func(t *Term, m map[int]bool) bool {
		if !t.bound {
			return true
		}
		switch t.op {
		case "var":
			if need[t.id] {
				m[t.id] = true
			}
			return true
		case "uf", "at", "len", "cat", "sub", "unit":
			if t.op == "cat" && len(t.args) != 2 {
			}
		case "+":
		default:
			return false
		}
		for _, a := range t.args {
			if !vars(a, m) {
				return false
			}
		}
		return true
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "uf" || t.op == "at" || t.op == "sub" {
			m := map[int]bool{}
			okArgs := true
			for _, a := range t.args {
				if a.op == "+" && a.bound {
					// arithmetic below a trigger: avoid unless nothing else
					okArgs = false
				}
			}
			if okArgs && vars(t, m) && len(m) > 0 {
				cands = append(cands, cand{t, m})
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	sort.SliceStable(cands, func(i, j int) bool { return cands[i].t.size < cands[j].t.size })
	var full []string
	for _, cd := range cands { // lookups in a map are the triggers of a statement about its keys
		if len(cd.v) == len(need) && cd.t.op == "uf" && (cd.t.name == "mapdom" || cd.t.name == "mapval") && len(full) < 6 {
			full = append(full, " :pattern ("+p.body(cd.t)+")")
		}
	}
	if len(full) > 0 {
		return strings.Join(full, "")
	}
	for _, cd := range cands {
		if len(cd.v) == len(need) {
			full = append(full, " :pattern ("+p.body(cd.t)+")")
			if len(full) == 3 {
				break
			}
		}
	}
	if len(full) > 0 {
		return strings.Join(full, "")
	}
	// multi-pattern
	cov := map[int]bool{}
	var mp []string
	for _, cd := range cands {
		new := false
		for v := range cd.v {
			if !cov[v] {
				new = true
			}
		}
		if new {
			for v := range cd.v {
				cov[v] = true
			}
			mp = append(mp, p.body(cd.t))
		}
	}
	if len(cov) == len(need) && len(mp) > 0 {
		return " :pattern (" + strings.Join(mp, " ") + ")"
	}
	return ""
}

// ---------- incremental solver ----------

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	p       *printer
	dead    bool
	stack   [][]*Term
	queries int
	time    time.Duration
	log     *os.File
	carry   []carried
	known   map[*Term]int // asserted terms and their conjuncts
}

var nQueries, nSolverNs int64

func NewSolver(c *Ctx, axioms []*Axiom) *Solver {
	s := &Solver{p: newPrinter(c, axioms)}
	s.start()
	s.stack = [][]*Term{nil}
	s.known = map[*Term]int{}
	return s
}
func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2", "-memory:3000")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start z3-new:", err)
		os.Exit(3)
	}
	if d := os.Getenv("GOVC_LOG"); d != "" {
		s.log, _ = os.CreateTemp(d, "inc*.smt2")
	}
	s.send("(set-option :global-declarations true)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n" + prelude)
}
func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}
func (s *Solver) send(x string) {
	if s.log != nil {
		s.log.WriteString(x)
	}
	if _, err := io.WriteString(s.in, x); err != nil {
		s.dead = true
	}
}
func (s *Solver) Push() {
	s.stack = append(s.stack, nil)
	s.send("(push 1)\n")
}

// Pop leaves a scope. Asserts the printer emitted inside it (axioms of symbols,
// ranges) vanish with it, so they are replayed into the enclosing scope.
func (s *Solver) Pop() {
	lv := len(s.stack)
	for _, t := range s.stack[lv-1] {
		s.note(t, -1)
	}
	s.stack = s.stack[:lv-1]
	s.send("(pop 1)\n")
	for i := range s.carry {
		if s.carry[i].level == lv {
			s.send(s.carry[i].txt)
			s.carry[i].level = lv - 1
		}
	}
	// level 1 is the base: nothing further to replay
	k := s.carry[:0]
	for _, cr := range s.carry {
		if cr.level > 1 {
			k = append(k, cr)
		}
	}
	s.carry = k
}

func (s *Solver) emit() {
	txt := s.p.out.String()
	s.p.out.Reset()
	s.send(txt)
	if len(s.stack) > 1 {
		var as []string
		for _, ln := range strings.Split(txt, "\n") {
			if strings.HasPrefix(ln, "(assert") {
				as = append(as, ln)
			}
		}
		if len(as) > 0 {
			s.carry = append(s.carry, carried{len(s.stack), strings.Join(as, "\n") + "\n"})
		}
	}
}

type carried struct {
	level int
	txt   string
}

func (s *Solver) note(t *Term, d int) {
	s.known[t] += d
	if t.op == "and" {
		for _, a := range t.args {
			s.note(a, d)
		}
	}
}

// settle replaces conditionals whose condition is known on this path.
func (x *Exec) settle(v Value) Value {
	for {
		t, ok := v.(*Term)
		if !ok || t.op != "ite" {
			return v
		}
		if x.sv.known[t.args[0]] > 0 {
			v = t.args[1]
		} else if x.sv.known[x.c.Not(t.args[0])] > 0 {
			v = t.args[2]
		} else {
			return v
		}
	}
}

func (s *Solver) Assert(t *Term) {
	s.note(t, 1)
	s.p.prep(t)
	s.emit()
	s.stack[len(s.stack)-1] = append(s.stack[len(s.stack)-1], t)
	s.send("(assert " + s.p.ref(t) + ")\n")
}

// Facts lists every asserted term.
func (s *Solver) Facts() []*Term {
	var r []*Term
	for _, l := range s.stack {
		r = append(r, l...)
	}
	return r
}

// Check returns "unsat", "sat" or "unknown" for the current facts plus extra.
func (s *Solver) Check(ms int, extra ...*Term) string {
	if s.dead {
		return "unknown"
	}
	t0 := time.Now()
	for _, t := range extra {
		s.p.prep(t)
	}
	s.emit()
	s.send("(push 1)\n")
	for _, t := range extra {
		s.send("(assert " + s.p.ref(t) + ")\n")
	}
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(check-sat)\n(pop 1)\n", ms))
	res := "unknown"
	for {
		ln, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			break
		}
		ln = strings.TrimSpace(ln)
		if ln == "sat" || ln == "unsat" || ln == "unknown" || ln == "timeout" {
			res = ln
			break
		}
		if strings.HasPrefix(ln, "(error") {
			if strings.Contains(ln, "canceled") || strings.Contains(ln, "timeout") {
				continue
			}
			fmt.Fprintln(os.Stderr, "z3-new:", ln)
			internalErrors.add("solver error: " + ln)
		}
	}
	s.queries++
	d := time.Since(t0)
	s.time += d
	atomic.AddInt64(&nQueries, 1)
	atomic.AddInt64(&nSolverNs, int64(d))
	return res
}

type errSink struct {
	mu sync.Mutex
	l  []string
}

func (e *errSink) add(s string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.l) < 50 {
		e.l = append(e.l, s)
	}
}

var internalErrors errSink

// ---------- standalone portfolio ----------

// script renders facts /\ not goal.
func script(c *Ctx, axioms []*Axiom, facts []*Term, goal *Term, z3 bool) string {
	p := newPrinter(c, axioms)
	var b strings.Builder
	if z3 {
		b.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n")
	} else {
		b.WriteString("(set-logic ALL)\n")
	}
	b.WriteString(prelude)
	for _, f := range facts {
		p.prep(f)
		b.WriteString(p.out.String())
		p.out.Reset()
		b.WriteString("(assert " + p.ref(f) + ")\n")
	}
	if goal != nil {
		ng := c.Not(goal)
		p.prep(ng)
		b.WriteString(p.out.String())
		p.out.Reset()
		b.WriteString("(assert " + p.ref(ng) + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

var solverSem = make(chan struct{}, 8)

func runOne(ctx context.Context, name string, args []string, in string) string {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(in)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	atomic.AddInt64(&nQueries, 1)
	atomic.AddInt64(&nSolverNs, int64(time.Since(t0)))
	for _, ln := range strings.Split(out.String(), "\n") {
		ln = strings.TrimSpace(ln)
		if ln == "sat" || ln == "unsat" || ln == "unknown" {
			return ln
		}
	}
	return "unknown"
}

// portfolio tries to prove facts => goal. Returns the prover's name or "".
func portfolio(c *Ctx, axioms []*Axiom, facts []*Term, goal *Term, secs int) (string, string) {
	z := script(c, axioms, facts, goal, true)
	v := script(c, axioms, facts, goal, false)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	type res struct{ n, r string }
	ch := make(chan res, 4)
	tm := fmt.Sprintf("-T:%d", secs)
	go func() { ch <- res{"z3-5.3", runOne(ctx, "z3-new", []string{"-in", "-smt2", tm, "-memory:3000"}, z)} }()
	go func() {
		ch <- res{"cvc5", runOne(ctx, "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000)}, v)}
	}()
	go func() { ch <- res{"z3-4.8", runOne(ctx, "z3", []string{"-in", "-smt2", tm, "-memory:3000"}, z)} }()
	all := ""
	for i := 0; i < 3; i++ {
		r := <-ch
		if r.r == "unsat" {
			return r.n, r.n + ":unsat"
		}
		all += r.n + ":" + r.r + " "
	}
	return "", all
}

func takeErrs() []string {
	internalErrors.mu.Lock()
	defer internalErrors.mu.Unlock()
	return append([]string{}, internalErrors.l...)
}
