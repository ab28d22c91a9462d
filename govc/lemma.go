package main

// Lemmas: closed statements over the logical symbols, proved by the solvers,
// optionally by induction over one integer variable. They compose contracts
// (for example: both sides of the key agreement derive the same key).

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

type Lemma struct {
	*Axiom
	tags   []string
	induct string
	lens   []int // of byte strings of a fixed length
	file   string
}

// parseLemma: name [tags] (induct i) (a Bytes, b Int) expr
func (s *Specs) parseLemma(rest string, names map[string]string, file string, mk func(string) (*Clause, error)) error {
	l := &Lemma{Axiom: &Axiom{specs: s, mentions: map[string]bool{}, names: names}, file: file}
	o := strings.Index(rest, "[")
	c := strings.Index(rest, "]")
	if o < 0 || c < o {
		return fmt.Errorf("lemma without tags")
	}
	l.name = strings.TrimSpace(rest[:o])
	l.tags = strings.Fields(rest[o+1 : c])
	rest = strings.TrimSpace(rest[c+1:])
	if strings.HasPrefix(rest, "induct ") {
		fs := strings.Fields(rest)
		l.induct = fs[1]
		rest = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(strings.TrimPrefix(rest, "induct")), l.induct))
	}
	c = strings.Index(rest, ")")
	for _, a := range strings.Split(rest[1:c], ",") {
		fs := strings.Fields(a)
		if len(fs) == 2 {
			l.vars = append(l.vars, fs[0])
			n := 0 // Bytes32: of this length
			if k, err := fmt.Sscanf(fs[1], "Bytes%d", &n); k == 1 && err == nil {
				fs[1] = "Bytes"
			}
			l.sorts = append(l.sorts, sortOf(fs[1]))
			l.lens = append(l.lens, n)
		}
	}
	cl, err := mk(strings.TrimSpace(rest[c+1:]))
	if err != nil {
		return err
	}
	l.body = cl
	s.lemmas = append(s.lemmas, l)
	return nil
}

func (s *Specs) lemmasFor(tags map[string]bool) []*Lemma {
	var r []*Lemma
	for _, l := range s.lemmas {
		for _, t := range l.tags {
			if tags[t] {
				r = append(r, l)
				break
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}

func (l *Lemma) prove(s *Specs, secs int) (rep *FuncReport) {
	t0 := time.Now()
	rep = newReport("lemma " + l.name)
	defer func() {
		rep.wall = time.Since(t0)
		if r := recover(); r != nil {
			rep.Err = fmt.Sprintf("lemma %s: %v", l.name, r)
		}
	}()
	c := s.newCtx()
	vars := map[string]Value{}
	var ind *Term
	for i, n := range l.vars {
		v := c.Var("l_"+n, l.sorts[i])
		if l.lens[i] > 0 {
			c.SetLen(v, int64(l.lens[i]))
		}
		vars[n] = v
		if n == l.induct {
			ind = v
		}
	}
	body := func(v *Term) *Term {
		m := map[string]Value{}
		for k, x := range vars {
			m[k] = x
		}
		if v != nil {
			m[l.induct] = v
		}
		e := &evalCtx{c: c, specs: s, vars: m, names: l.names}
		return e.boolT(l.body.e)
	}
	one := func(name string, facts []*Term, goal *Term) {
		rep.vc(name)
		t1 := time.Now()
		if goal == c.T {
			rep.ok(name, "simplifier", 0)
			return
		}
		by, all := portfolio(c, s.axioms, facts, goal, secs)
		rep.queries++
		if by != "" {
			rep.ok(name, by, time.Since(t1))
			return
		}
		rep.fail(name, l.file, c.Str(goal), all, nil, c, nil)
	}
	if l.induct == "" {
		one("lemma/"+l.name, nil, body(nil))
		return rep
	}
	one("lemma/"+l.name+"/base", nil, body(c.Int(0)))
	one("lemma/"+l.name+"/step", []*Term{c.Le(c.Int(0), ind), body(ind)}, body(c.Add(ind, c.Int(1))))
	return rep
}
