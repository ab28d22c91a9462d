package main

// Loop invariants and cut clauses are hints: they name local variables and loops by position, and
// nobody but the proof of the function itself relies on them. When a proof fails, the hints may
// only have come out of step with a source that was rewritten without changing what it does. The
// proof is then tried again with adapted hints: clauses that do not hold any more are left out,
// a name that no longer exists is taken to be another local variable, and the invariants
// of a loop go to a loop at another position or in a helper. Preconditions, postconditions, frames
// and event clauses stay as they are, and an adapted proof discharges every obligation, so this
// can only find proofs and never weakens what is proved.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopRef struct {
	key string
	ord int
}

// repair is the state of one attempt with adapted hints.
type repair struct {
	con     *Contract         // the contract of the root function, conjunctions of hints split
	drop    map[*Clause]bool  // hints left out
	ren     map[string]string // name in a hint -> local variable
	loops   map[loopRef]int   // loop -> loop clause of the contract; nil: as written
	bad     map[*Clause]bool  // hints that failed in this attempt
	unknown string            // a name no local variable has
	at      *Clause           // where it occurs
	locals  []string          // what it could be
	root    *ssa.Function
}

var (
	repairMu    sync.Mutex
	repairSpent time.Duration
)

const repairTotal = 240 * time.Second // per run of a check, over all functions

func splitConj(cl *Clause) []*Clause {
	for {
		if p, ok := cl.e.(*ast.ParenExpr); ok {
			c := *cl
			c.e = p.X
			cl = &c
			continue
		}
		break
	}
	if b, ok := cl.e.(*ast.BinaryExpr); ok && b.Op == token.LAND {
		l, r := *cl, *cl
		l.e, r.e = b.X, b.Y
		return append(splitConj(&l), splitConj(&r)...)
	}
	c := *cl
	return []*Clause{&c}
}

// splitHints is a copy of a contract whose hints can be left out one by one.
func splitHints(con *Contract) *Contract {
	n := *con
	n.loops = map[int]*LoopSpec{}
	for o, l := range con.loops {
		ls := &LoopSpec{}
		for _, i := range l.invs {
			ls.invs = append(ls.invs, splitConj(i)...)
		}
		n.loops[o] = ls
	}
	n.cuts = nil
	for _, cs := range con.cuts {
		m := *cs
		m.invs = nil
		for _, i := range cs.invs {
			m.invs = append(m.invs, splitConj(i)...)
		}
		n.cuts = append(n.cuts, &m)
	}
	return &n
}

// without is the contract less the hints dropped.
func (r *repair) without() *Contract {
	n := *r.con
	keep := func(in []*Clause) (out []*Clause) {
		for _, c := range in {
			if !r.drop[c] {
				out = append(out, c)
			}
		}
		return
	}
	n.loops = map[int]*LoopSpec{}
	for o, l := range r.con.loops {
		if k := keep(l.invs); len(k) > 0 {
			n.loops[o] = &LoopSpec{k}
		}
	}
	n.cuts = nil
	for _, cs := range r.con.cuts {
		m := *cs
		m.invs = keep(cs.invs)
		n.cuts = append(n.cuts, &m)
	}
	return &n
}

// hintCon is the contract whose loop clauses apply in fn.
func (x *Exec) hintCon(fn *ssa.Function) *Contract {
	k := calleeKey(fn)
	if x.con != nil && k == x.con.key {
		return x.con
	}
	if con := x.specs.contracts[k]; con != nil {
		return con
	}
	if x.rp != nil && x.rp.loops != nil {
		return x.con
	}
	return nil
}

func (x *Exec) specFor(fn *ssa.Function, ord int) *LoopSpec {
	k := calleeKey(fn)
	if x.con != nil && x.rp != nil && x.rp.loops != nil && (k == x.con.key || x.specs.contracts[k] == nil) {
		if n, ok := x.rp.loops[loopRef{k, ord}]; ok {
			return x.con.loops[n]
		}
		return nil
	}
	con := x.hintCon(fn)
	if con == nil {
		return nil
	}
	return con.loops[ord]
}

func (x *Exec) sawLoop(fn *ssa.Function, ord int) {
	k := calleeKey(fn)
	if x.con == nil || k != x.con.key && x.specs.contracts[k] != nil {
		return
	}
	r := loopRef{k, ord}
	for _, l := range x.rep.loops {
		if l == r {
			return
		}
	}
	x.rep.loops = append(x.rep.loops, r)
}

// obligeHint proves a hint; in an attempt with adapted hints a failing one is left out next time.
func (x *Exec) obligeHint(st *State, cl *Clause, name string, t *Term, pos token.Pos) {
	if x.rp == nil {
		x.oblige(st, name, t, pos)
		return
	}
	x.hinting = true
	ok := x.oblige(st, name, t, pos)
	x.hinting = false
	if !ok {
		x.rp.bad[cl] = true
	}
}

func (x *Exec) unknownName(st *State, d int, cl *Clause, n string, arg Value) {
	if x.rp == nil || x.rp.unknown != "" {
		return
	}
	used := map[string]bool{}
	for _, v := range x.rp.ren {
		used[v] = true
	}
	note := func(c *Clause) {
		ast.Inspect(c.e, func(nd ast.Node) bool {
			if id, ok := nd.(*ast.Ident); ok {
				used[id.Name] = true
			}
			return true
		})
	}
	for _, l := range x.con.loops {
		for _, c := range l.invs {
			note(c)
		}
	}
	set := map[string]bool{}
	typ := ""
	for _, v := range x.specs.locals[x.con.key] {
		if v.Name == n {
			typ = v.Type
		}
	}
	of := func(fn *ssa.Function, n string) bool {
		if typ == "" {
			return true
		}
		for _, v := range localsOf(fn) {
			if v.Name == n && v.Type == typ {
				return true
			}
		}
		return false
	}
	for k := d; k >= 0; k-- {
		for v := range st.frames[k].names {
			v = strings.TrimPrefix(v, "&")
			if v != "" && !used[v] && !strings.ContainsAny(v, " .*") && of(st.frames[k].fn, v) {
				set[v] = true
			}
		}
		if x.rp.loops == nil {
			break
		}
	}
	x.rp.unknown, x.rp.at = n, cl
	x.rp.locals = nil
	// a parameter of a helper that was given the variable
	first := ""
	if d > 0 && x.rp.loops != nil {
		for k := d - 1; k >= -1; k-- {
			if k < 0 {
				if arg != nil {
					set[n] = true
					for _, p := range st.frames[d].fn.Params {
						if pv := st.frames[d].env[p]; pv != nil && sameVal(pv, arg) {
							first = p.Name()
							set[first] = true
						}
					}
				}
				break
			}
			v, ok := st.frames[k].names[n]
			if p, isp := st.frames[k].names["&"+n].(*VPtr); isp {
				v, ok = x.load(st, p), true
			}
			if !ok {
				continue
			}
			set[n] = true
			for _, p := range st.frames[d].fn.Params {
				if pv := st.frames[d].env[p]; pv != nil && sameVal(pv, v) {
					first = p.Name()
					set[first] = true
				}
			}
			break
		}
	}
	for v := range set {
		x.rp.locals = append(x.rp.locals, v)
	}
	// most alike first
	sort.Slice(x.rp.locals, func(i, j int) bool {
		if (x.rp.locals[i] == first) != (x.rp.locals[j] == first) {
			return x.rp.locals[i] == first
		}
		a, b := likeness(n, x.rp.locals[i]), likeness(n, x.rp.locals[j])
		if a != b {
			return a > b
		}
		return x.rp.locals[i] < x.rp.locals[j]
	})
}

func likeness(a, b string) int {
	a, b = strings.ToLower(a), strings.ToLower(b)
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	if strings.Contains(a, b) || strings.Contains(b, a) {
		n += 2
	}
	if (len(a) == 1) == (len(b) == 1) {
		n++
	}
	return n
}

// loopMaps are the ways to give the loop clauses to the loops there are, in order.
func loopMaps(con *Contract, seen []loopRef) []map[loopRef]int {
	var specs []int
	for o := range con.loops {
		specs = append(specs, o)
	}
	sort.Ints(specs)
	out := []map[loopRef]int{nil}
	var rec func(i, j int, m map[loopRef]int)
	rec = func(i, j int, m map[loopRef]int) {
		if len(out) > 10 {
			return
		}
		if i == len(specs) || j == len(seen) {
			if len(m) == len(specs) || len(m) == len(seen) {
				c := map[loopRef]int{}
				same := true
				for k, v := range m {
					c[k] = v
					if k.key != con.key || k.ord != v {
						same = false
					}
				}
				if !same {
					out = append(out, c)
				}
			}
			return
		}
		m[seen[j]] = specs[i]
		rec(i+1, j+1, m)
		delete(m, seen[j])
		rec(i, j+1, m)
		if len(seen) < len(specs) {
			rec(i+1, j, m)
		}
	}
	rec(0, 0, map[loopRef]int{})
	// loops without clauses: run through, where the number of rounds is fixed
	for i := range seen {
		if v, ok := con.loops[seen[i].ord]; ok && v != nil && seen[i].key == con.key && len(seen) > 1 {
			m := map[loopRef]int{}
			for j, l := range seen {
				if _, ok := con.loops[l.ord]; ok && j != i && l.key == con.key {
					m[l] = l.ord
				}
			}
			out = append(out, m)
		}
	}
	return append(out, map[loopRef]int{})
}

// repairProof looks for a proof with adapted hints; nil if it finds none.
func repairProof(w *World, specs *Specs, key string, tags map[string]bool, secs int, failed *FuncReport) *FuncReport {
	con := specs.contracts[key]
	if con == nil || w.funcs[key] == nil || len(con.loops) == 0 && len(con.cuts) == 0 || os.Getenv("GOVC_NOREPAIR") != "" {
		return nil
	}
	t0 := time.Now()
	left := 90 * time.Second
	repairMu.Lock()
	if l := repairTotal - repairSpent; l < left {
		left = l
	}
	repairMu.Unlock()
	defer func() {
		repairMu.Lock()
		repairSpent += time.Since(t0) / 4 // functions are verified side by side
		repairMu.Unlock()
	}()
	end := t0.Add(left)
	dbg := os.Getenv("GOVC_REPAIR") != ""
	runs := 0
	var attempt func(loops map[loopRef]int, ren map[string]string, depth int) *FuncReport
	attempt = func(loops map[loopRef]int, ren map[string]string, depth int) *FuncReport {
		r := &repair{con: splitHints(con), drop: map[*Clause]bool{}, ren: ren, loops: loops, root: w.funcs[key]}
		for round := 0; round < 12 && time.Now().Before(end); round++ {
			r.bad, r.unknown, r.at, r.locals = map[*Clause]bool{}, "", nil, nil
			runs++
			rep := verifyTries(w, specs, key, tags, secs, r, end)
			if dbg {
				fmt.Fprintf(os.Stderr, "repair %s: loops %v names %v dropped %d: err %q fails %d bad %d unknown %q %v\n", key, loops, ren, len(r.drop), rep.Err, rep.nFail, len(r.bad), r.unknown, r.locals)
			}
			if rep.Err == "" && rep.nFail == 0 {
				s := fmt.Sprintf("hints adapted to the source of %s in %d attempts (invariant clauses left out: %d", key, runs, len(r.drop))
				for k, v := range ren {
					s += fmt.Sprintf("; %s is now %s", k, v)
				}
				rep.Notes = append(rep.Notes, "adapted: "+s+")")
				return rep
			}
			if r.unknown != "" {
				if depth < 6 {
					n, ls := r.unknown, r.locals
					for k, l := range ls {
						if k >= 6 {
							break
						}
						m := map[string]string{n: l}
						for a, b := range ren {
							m[a] = b
						}
						if rep := attempt(loops, m, depth+1); rep != nil {
							return rep
						}
					}
				}
				r.drop[r.at] = true
				continue
			}
			if len(r.bad) == 0 {
				return nil
			}
			for c := range r.bad {
				r.drop[c] = true
			}
		}
		return nil
	}
	for _, m := range loopMaps(con, failed.loops) {
		if rep := attempt(m, nil, 0); rep != nil {
			return rep
		}
	}
	return nil
}

func (r *repair) isHint(cl *Clause) bool {
	for _, l := range r.con.loops {
		for _, c := range l.invs {
			if c == cl {
				return true
			}
		}
	}
	for _, cs := range r.con.cuts {
		for _, c := range cs.invs {
			if c == cl {
				return true
			}
		}
	}
	return false
}

// ---- local variables by name, type and order

type localVar struct{ Name, Type string }

// localsOf lists the local variables of fn in the order of their declaration.
func localsOf(fn *ssa.Function) []localVar {
	o, ok := fn.Object().(*types.Func)
	if !ok || o.Scope() == nil {
		return nil
	}
	var vs []*types.Var
	var walk func(s *types.Scope)
	walk = func(s *types.Scope) {
		for _, n := range s.Names() {
			if v, ok := s.Lookup(n).(*types.Var); ok {
				vs = append(vs, v)
			}
		}
		for i := 0; i < s.NumChildren(); i++ {
			walk(s.Child(i))
		}
	}
	walk(o.Scope())
	sort.Slice(vs, func(i, j int) bool { return vs[i].Pos() < vs[j].Pos() })
	out := []localVar{}
	for _, v := range vs {
		out = append(out, localVar{v.Name(), types.TypeString(v.Type(), func(p *types.Package) string { return p.Path() })})
	}
	return out
}

// alignLocals maps the names of old that are gone to the names now in their place.
func alignLocals(old, now []localVar) map[string]string {
	n, m := len(old), len(now)
	s := make([][]int, n+1)
	for i := range s {
		s[i] = make([]int, m+1)
	}
	score := func(a, b localVar) int {
		if a.Type != b.Type {
			return 0
		}
		if a.Name == b.Name {
			return 5
		}
		return 2
	}
	for i := n - 1; i >= 0; i-- {
		for j := m - 1; j >= 0; j-- {
			b := s[i+1][j]
			if s[i][j+1] > b {
				b = s[i][j+1]
			}
			if k := score(old[i], now[j]); k > 0 && s[i+1][j+1]+k > b {
				b = s[i+1][j+1] + k
			}
			s[i][j] = b
		}
	}
	has := map[string]bool{}
	for _, v := range now {
		has[v.Name] = true
	}
	was := map[string]bool{}
	for _, v := range old {
		was[v.Name] = true
	}
	out := map[string]string{}
	for i, j := 0, 0; i < n && j < m; {
		k := score(old[i], now[j])
		switch {
		case k > 0 && s[i][j] == s[i+1][j+1]+k:
			if a, b := old[i].Name, now[j].Name; a != b && !has[a] && !was[b] && out[a] == "" {
				out[a] = b
			}
			i++
			j++
		case s[i][j] == s[i+1][j]:
			i++
		default:
			j++
		}
	}
	return out
}

// renamed tells the present names of the local variables of fn that the contract
// knows under names that are gone.
func (x *Exec) renamed(fn *ssa.Function) map[string]string {
	x.specs.mu.Lock()
	defer x.specs.mu.Unlock()
	if m, ok := x.w.renames[fn]; ok {
		return m
	}
	var m map[string]string
	if old := x.specs.locals[calleeKey(fn)]; old != nil {
		m = alignLocals(old, localsOf(fn))
	}
	if x.w.renames == nil {
		x.w.renames = map[*ssa.Function]map[string]string{}
	}
	x.w.renames[fn] = m
	return m
}

// writeLocals records the local variables of the functions whose contracts have hints.
func writeLocals(w *World, specs *Specs, file string) error {
	var b strings.Builder
	b.WriteString("{\n")
	var keys []string
	for k, con := range specs.contracts {
		if fn := w.funcs[k]; fn != nil && (len(con.loops) > 0 || len(con.cuts) > 0 || len(con.ats) > 0) {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for i, k := range keys {
		j, err := json.Marshal(localsOf(w.funcs[k]))
		if err != nil {
			return err
		}
		fmt.Fprintf(&b, "%q: %s", k, j)
		if i < len(keys)-1 {
			b.WriteString(",")
		}
		b.WriteString("\n")
	}
	b.WriteString("}\n")
	return os.WriteFile(file, []byte(b.String()), 0644)
}

func (s *Specs) loadLocals(dir string) error {
	b, err := os.ReadFile(dir + "/locals.json")
	if os.IsNotExist(err) {
		return nil
	}
	if err != nil {
		return err
	}
	return json.Unmarshal(b, &s.locals)
}
