package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	name  string
	names []string
	args  []Value
	loop  map[string]bool // taint: events possibly emitted by a cut loop
}

// ghostConst: fields of model objects fixed when the object is made.
var ghostConst = map[string]bool{"over": true, "alg": true, "op": true, "key": true, "secret": true, "salt": true, "info": true}

type loopState struct {
	cut   bool
	count int
	cands []cand
	spec  *LoopSpec
	entry *State
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	names  map[string]Value
	loops  map[*ssa.BasicBlock]*loopState
	defers []deferred
	k      func(st *State, res Value)
	iter   map[int]*Term
}
type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

type State struct {
	heap      map[int]*Obj
	lazyPtr   map[string]int
	lazySlice map[int]int
	lazyMap   map[int]int
	globals   map[*ssa.Global]int
	frames    []*Frame
	trace     []Event
	desc      []string
	chans     map[*Term]*chanState
	gos       []deferred // started goroutines that have not run yet
	cuts      map[string]bool
	kept      map[string]Value
	stale     map[string]bool // lazily created objects whose content a join has lost
}

// chanState: a channel made by the function under verification.
type chanState struct {
	cap   int64
	queue []Value
}

func (st *State) clone() *State {
	n := &State{heap: make(map[int]*Obj, len(st.heap)), lazyPtr: make(map[string]int, len(st.lazyPtr)),
		lazySlice: make(map[int]int, len(st.lazySlice)), lazyMap: make(map[int]int, len(st.lazyMap)),
		globals: make(map[*ssa.Global]int, len(st.globals))}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.lazyPtr {
		n.lazyPtr[k] = v
	}
	for k, v := range st.lazySlice {
		n.lazySlice[k] = v
	}
	for k, v := range st.lazyMap {
		n.lazyMap[k] = v
	}
	for k, v := range st.globals {
		n.globals[k] = v
	}
	for _, f := range st.frames {
		nf := &Frame{fn: f.fn, env: make(map[ssa.Value]Value, len(f.env)), names: make(map[string]Value, len(f.names)),
			loops: make(map[*ssa.BasicBlock]*loopState, len(f.loops)), k: f.k, iter: map[int]*Term{}}
		for k, v := range f.env {
			nf.env[k] = v
		}
		for k, v := range f.names {
			nf.names[k] = v
		}
		for k, v := range f.loops {
			l := *v
			nf.loops[k] = &l
		}
		for k, v := range f.iter {
			nf.iter[k] = v
		}
		nf.defers = append([]deferred{}, f.defers...)
		n.frames = append(n.frames, nf)
	}
	n.trace = append([]Event{}, st.trace...)
	n.desc = append([]string{}, st.desc...)
	n.cuts, n.stale, n.kept = st.cuts, st.stale, st.kept
	n.gos = append([]deferred{}, st.gos...)
	if st.chans != nil {
		n.chans = map[*Term]*chanState{}
		for k, v := range st.chans {
			n.chans[k] = &chanState{v.cap, append([]Value{}, v.queue...)}
		}
	}
	return n
}

// discovery of loop write sets
type disc struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	depth  int
	maxObj int
	writes map[int]map[int]bool // obj -> field set (-1: whole)
	events map[string]bool
	onBack func(st *State, from *ssa.BasicBlock)
	wild   bool
}

type Exec struct {
	perms    int
	w        *World
	c        *Ctx
	sv       *Solver
	specs    *Specs
	nextObj  int
	noEvents int
	evReads  int             // values read from events
	shared   map[int][]*VPtr // storage of a buffer -> slices that share it
	lent     map[int]bool    // slices that share storage with a buffer that has been copied
	boxTypes map[string]types.Type
	con      *Contract
	rep      *FuncReport
	discs    []*disc
	paths    int
	maxPaths int
	deadline time.Time
	entry    *State
	params   map[string]Value
	forceCut map[*ssa.BasicBlock]bool
	unrolls  int
	covered  map[string]bool
	secs     int
	noteSet  map[string]bool
	obSeen   map[string]string
	orig     map[int]Value
	susp     []*suspended
	atSeen   map[*cutSpec]bool
	rp       *repair
	hinting  bool
}

type engineErr struct{ msg string }

func (x *Exec) abort(f string, a ...interface{}) { panic(engineErr{fmt.Sprintf(f, a...)}) }

func (x *Exec) note(kind, s string) {
	k := kind + ": " + s
	if !x.noteSet[k] {
		x.noteSet[k] = true
		x.rep.Notes = append(x.rep.Notes, k)
	}
}

// fact asserts something true by construction.
func (x *Exec) fact(st *State, t *Term) {
	if t == x.c.T || t.bound {
		return
	}
	x.sv.Assert(t)
}
func (x *Exec) assume(st *State, t *Term) {
	if t == x.c.T {
		return
	}
	x.sv.Assert(t)
}

func (x *Exec) top(st *State) *Frame { return st.frames[len(st.frames)-1] }

// oblige checks a proof obligation on the current path.
func (x *Exec) oblige(st *State, name string, t *Term, pos token.Pos) bool {
	if len(x.discs) > 0 {
		x.assume(st, t)
		return true
	}
	x.rep.vc(name)
	if t == x.c.T {
		x.rep.ok(name, "simplifier", 0)
		return true
	}
	t0 := time.Now()
	if t != x.c.F {
		if x.sv.Check(2000, x.skolem(x.c.Not(t))...) == "unsat" {
			x.rep.ok(name, "z3-5.3", time.Since(t0))
			x.assume(st, t)
			return true
		}
	} else if x.sv.Check(2000) == "unsat" {
		x.rep.ok(name, "z3-5.3", time.Since(t0))
		return true
	}
	// portfolio with rewriting by path equalities and extensionality instances
	facts := x.sv.Facts()
	sub := x.pathEqs(facts)
	g := t
	if len(sub) > 0 {
		g = x.c.Subst(t, sub)
	}
	if g == x.c.T {
		x.rep.ok(name, "simplifier+eq", time.Since(t0))
		x.assume(st, t)
		return true
	}
	nf := append([]*Term{}, facts...)
	if g != t {
		if x.sv.Check(2000, x.skolem(x.c.Not(g))...) == "unsat" {
			x.rep.ok(name, "z3-5.3", time.Since(t0))
			x.assume(st, t)
			return true
		}
	}
	ng := x.skolem(x.c.Not(g))
	if in := x.skInst(ng, facts); len(in) > 0 {
		if x.sv.Check(2000, append(append([]*Term{}, ng...), in...)...) == "unsat" {
			x.rep.ok(name, "z3-5.3", time.Since(t0))
			x.assume(st, t)
			return true
		}
		nf = append(nf, in...)
	}
	goalAlt := x.c.Not(x.c.And(ng...))
	if dbg := os.Getenv("GOVC_DUMP"); dbg != "" {
		os.WriteFile(fmt.Sprintf("%s/%s.%d.smt2", dbg, strings.ReplaceAll(name, "/", "_"), x.rep.total), []byte(script(x.c, x.specs.axioms, nf, goalAlt, true)), 0644)
	}
	secs := x.secs
	if x.rep.failCount[name] > 0 {
		secs = 1
	}
	by, all := "", ""
	if x.rep.failCount[name] < 3 && x.rep.nFail < 12 {
		by, all = portfolio(x.c, x.specs.axioms, nf, goalAlt, secs)
	}
	if by != "" {
		x.rep.ok(name, by, time.Since(t0))
		x.assume(st, t)
		return true
	}
	p := x.w.prog.Fset.Position(pos)
	x.rep.fail(name, fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, x.w.dir+"/"), p.Line), x.c.Str(t), all, st.desc, x.c, facts)
	x.assume(st, t)
	if x.rp != nil && !x.hinting {
		panic(engineErr{"failed: " + name})
	}
	return false
}

// skolem prepares a negated goal: splits, skolemises outer existentials and adds
// extensionality instances for disequalities between byte sequences.
func (x *Exec) skolem(ng *Term) []*Term {
	c := x.c
	var out []*Term
	var ext func(t *Term, pos bool)
	seen := map[int]bool{}
	ext = func(t *Term, pos bool) {
		if t.bound || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "=" && t.args[0].sort == SBytes {
			a, b := t.args[0], t.args[1]
			k := c.Fresh("ext", SInt)
			out = append(out, c.Or(t, c.Not(c.rawIntEq(c.Len(a), c.Len(b))),
				c.And(c.Le(c.Int(0), k), c.Lt(k, c.Len(a)), c.Not(c.rawIntEq(c.rawAt(a, k), c.rawAt(b, k))))))
			return
		}
		for _, a := range t.args {
			ext(a, pos)
		}
	}
	var conj func(t *Term)
	conj = func(t *Term) {
		switch {
		case t.op == "and":
			for _, a := range t.args {
				conj(a)
			}
		case t.op == "not" && t.args[0].op == "forall":
			fa := t.args[0]
			n := len(fa.args) - 1
			m := map[int]*Term{}
			for _, v := range fa.args[:n] {
				m[v.id] = c.Fresh("sk", v.sort)
			}
			conj(c.Not(c.Subst(fa.args[n], m)))
		case t.op == "not" && t.args[0].op == "or":
			for _, a := range t.args[0].args {
				conj(c.Not(a))
			}
		case t.op == "or" && !t.bound && hasExists(t):
			var as []*Term
			for _, a := range t.args {
				if a.op == "not" && a.args[0].op == "forall" {
					fa := a.args[0]
					n := len(fa.args) - 1
					m := map[int]*Term{}
					for _, v := range fa.args[:n] {
						m[v.id] = c.Fresh("sk", v.sort)
					}
					a = c.Not(c.Subst(fa.args[n], m))
				}
				as = append(as, a)
			}
			conj(c.Or(as...))
		default:
			out = append(out, t)
			ext(t, true)
			for _, i := range c.eqInstances(t) {
				out = append(out, i)
			}
		}
	}
	conj(ng)
	return out
}

// skInst instantiates universal facts over integers at the skolem constants of a
// negated goal, and again at the constants the instances introduce.
func (x *Exec) skInst(ng, facts []*Term) []*Term {
	c := x.c
	var out []*Term
	done := map[string]bool{}
	known := map[int]bool{}
	var consts []*Term
	scan := func(ts []*Term) {
		seen := map[int]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t.id] {
				return
			}
			seen[t.id] = true
			if t.op == "var" && t.sort == SInt && !t.bound && strings.HasPrefix(t.name, "sk!") && !known[t.id] {
				known[t.id] = true
				consts = append(consts, t)
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		for _, t := range ts {
			walk(t)
		}
	}
	scan(ng)
	var univ []*Term
	inU := map[int]bool{}
	var collect func(t *Term)
	collect = func(t *Term) {
		if t.op == "and" {
			for _, a := range t.args {
				collect(a)
			}
		} else if t.op == "forall" && !t.bound && t.args[0].sort == SInt && !inU[t.id] {
			inU[t.id] = true
			univ = append(univ, t)
		}
	}
	for _, f := range facts {
		collect(f)
	}
	for _, f := range ng {
		collect(f)
	}
	if len(consts) > 0 {
		for _, f := range univ {
			for _, r := range c.eqInstances(f) {
				out = append(out, x.skolem(r)...)
			}
		}
		for _, a := range out {
			collect(a)
		}
	}
	for round := 0; round < 3 && len(consts) <= 8; round++ {
		var add []*Term
		for _, f := range univ {
			ks := consts
			for _, o := range c.offsets(f) {
				for _, k := range consts {
					ks = append(ks[:len(ks):len(ks)], c.Sub(k, o))
				}
			}
			for _, k := range ks {
				key := fmt.Sprint(f.id, ":", k.id)
				if done[key] || len(out) > 300 {
					continue
				}
				done[key] = true
				n := len(f.args) - 1
				var r *Term
				if n == 1 {
					r = c.Subst(f.args[1], map[int]*Term{f.args[0].id: k})
				} else {
					r = c.Forall(f.args[1:n], c.Subst(f.args[n], map[int]*Term{f.args[0].id: k}))
				}
				if r == c.T {
					continue
				}
				if os.Getenv("GOVC_FACTS") != "" {
					fmt.Println("INST", c.Str(r))
				}
				for _, s := range x.skolem(r) {
					out = append(out, s)
					add = append(add, s)
				}
			}
		}
		scan(add)
		for _, a := range add {
			collect(a)
		}
		if len(add) == 0 {
			break
		}
	}
	return out
}

// offsets lists the terms o such that the first variable v of a universal fact indexes
// a sequence at v + o.
func (c *Ctx) offsets(f *Term) []*Term {
	v := f.args[0]
	var out []*Term
	seen, done := map[int]bool{}, map[int]bool{}
	var walk func(u *Term)
	walk = func(u *Term) {
		if !u.bound || seen[u.id] || len(out) > 2 {
			return
		}
		seen[u.id] = true
		if (u.op == "uf" && u.name == "elem" || u.op == "at") && u.args[1].op == "+" {
			l := newLin()
			c.toLin(l, u.args[1], bigOne)
			if k := l.m[v.id]; k != nil && k.Cmp(bigOne) == 0 {
				delete(l.m, v.id)
				if r := c.fromLin(l); !r.bound && !done[r.id] {
					done[r.id] = true
					out = append(out, r)
				}
			}
		}
		for _, a := range u.args {
			walk(a)
		}
	}
	walk(f.args[len(f.args)-1])
	return out
}

func hasExists(t *Term) bool {
	for _, a := range t.args {
		if a.op == "not" && a.args[0].op == "forall" {
			return true
		}
	}
	return false
}

// eqInstances instantiates a universal fact over one integer at the values its
// body compares the variable with.
func (c *Ctx) eqInstances(t *Term) []*Term {
	if t.op != "forall" || len(t.args) != 2 || t.args[0].sort != SInt || t.bound {
		return nil
	}
	v, body := t.args[0], t.args[1]
	var out []*Term
	seen := map[int]bool{}
	done := map[int]bool{}
	var walk func(u *Term)
	walk = func(u *Term) {
		if !u.bound || seen[u.id] || len(out) > 6 {
			return
		}
		seen[u.id] = true
		if u.op == "=" && u.args[0].sort == SInt {
			l := newLin()
			c.toLin(l, u.args[0], bigOne)
			c.toLin(l, u.args[1], big.NewInt(-1))
			if f := l.m[v.id]; f != nil && f.CmpAbs(bigOne) == 0 {
				delete(l.m, v.id)
				r := c.fromLin(l)
				if f.Sign() > 0 {
					r = c.Mul(c.Int(-1), r)
				}
				if !r.bound && !done[r.id] {
					done[r.id] = true
					out = append(out, c.Subst(body, map[int]*Term{v.id: r}))
				}
			}
		}
		for _, a := range u.args {
			walk(a)
		}
	}
	walk(body)
	return out
}
func (c *Ctx) rawAt(b, i *Term) *Term { return c.mk(&Term{op: "at", sort: SInt, args: []*Term{b, i}}) }
func (c *Ctx) rawIntEq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	return c.Eq(a, b)
}

// pathEqs orients path equalities opaque = expr for rewriting.
func (x *Exec) pathEqs(facts []*Term) map[int]*Term {
	m := map[int]*Term{}
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == "and" {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t.op == "=" && (t.args[0].sort == SBytes || t.args[0].sort == SVal) {
			a, b := x.c.Subst(t.args[0], m), x.c.Subst(t.args[1], m)
			if !opaque(a) || (a.op == "uf" && isCtor(a.name)) {
				a, b = b, a
			}
			if opaque(b) && a.size < b.size && !(b.op == "uf" && isCtor(b.name)) {
				a, b = b, a
			}
			if !opaque(a) || a.op == "uf" && isCtor(a.name) || occurs(a, b) {
				return
			}
			b = x.c.Subst(b, m)
			if occurs(a, b) {
				return
			}
			if _, dup := m[a.id]; dup {
				return
			}
			for k, v := range m {
				m[k] = x.c.Subst(v, map[int]*Term{a.id: b})
			}
			m[a.id] = b
		}
	}
	// integers: linear equalities (and pairs of opposite inequalities) solved for their newest atom
	ineq := map[*Term]bool{}
	lin := func(d *Term) {
		d = x.c.Subst(d, m)
		if d.op != "+" {
			return
		}
		var a *Term
		var cf *big.Int
		for i, t := range d.args {
			k := d.coefs[i]
			if k.CmpAbs(bigOne) == 0 && opaque(t) && t.op != "len" && (a == nil || t.id > a.id) {
				a, cf = t, k
			}
		}
		if a == nil {
			return
		}
		var b *Term
		if cf.Sign() > 0 {
			b = x.c.Sub(a, d)
		} else {
			b = x.c.Add(a, d)
		}
		if occurs(a, b) {
			return
		}
		for k, v := range m {
			m[k] = x.c.Subst(v, map[int]*Term{a.id: b})
		}
		m[a.id] = b
	}
	var addI func(t *Term)
	addI = func(t *Term) {
		switch {
		case t.op == "and":
			for _, a := range t.args {
				addI(a)
			}
		case t.op == "=" && t.args[0].sort == SInt:
			lin(x.c.Sub(t.args[0], t.args[1]))
		case t.op == "<=":
			d := t.args[0]
			if ineq[x.c.Sub(x.c.Int(0), d)] {
				lin(d)
			}
			ineq[d] = true
		}
	}
	for _, f := range facts {
		addI(f)
	}
	for _, f := range facts {
		add(f)
	}
	return m
}
func occurs(a, b *Term) bool {
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == a {
			return true
		}
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, y := range t.args {
			if f(y) {
				return true
			}
		}
		return false
	}
	return f(b)
}

// decide: 1 true, 0 false, -1 both possible
func (x *Exec) decide(t *Term) int {
	if t == x.c.T {
		return 1
	}
	if t == x.c.F {
		return 0
	}
	if x.sv.Check(400, t) == "unsat" {
		return 0
	}
	if x.sv.Check(400, x.c.Not(t)) == "unsat" {
		return 1
	}
	return -1
}

// branch explores t and not t.
func (x *Exec) branch(st *State, t *Term, desc string, yes, no func(st *State)) {
	switch x.decide(t) {
	case 1:
		if t != x.c.T {
			x.assume(st, t)
		}
		yes(st)
		return
	case 0:
		if t != x.c.F {
			x.assume(st, x.c.Not(t))
		}
		no(st)
		return
	}
	s2 := st.clone()
	x.sv.Push()
	x.assume(s2, t)
	s2.desc = append(s2.desc, desc+": "+trunc(x.c.Str(t), 160))
	yes(s2)
	x.sv.Pop()
	x.sv.Push()
	nt := x.c.Not(t)
	x.assume(st, nt)
	st.desc = append(st.desc, desc+": "+trunc(x.c.Str(nt), 160))
	no(st)
	x.sv.Pop()
}
func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// ---------- values of SSA operands ----------

func (x *Exec) val(st *State, d int, v ssa.Value) Value {
	fr := st.frames[d]
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Global:
		return &VPtr{obj: x.globalObj(st, v), elem: v.Type().(*types.Pointer).Elem()}
	case *ssa.Function:
		return &VFunc{fn: v}
	case *ssa.Builtin:
		return &VFunc{fn: v}
	}
	r, ok := fr.env[v]
	if !ok {
		x.abort("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}
func (x *Exec) constVal(st *State, v *ssa.Const) Value {
	c := x.c
	if v.Value == nil {
		return x.zero(st, v.Type())
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return c.Bool(constant.BoolVal(v.Value))
	case constant.String:
		return c.Lit(constant.StringVal(v.Value))
	case constant.Int, constant.Float:
		if isFloat(v.Type()) {
			return c.UF("K_float", SVal, c.Lit(v.Value.ExactString()))
		}
		if iv := constant.ToInt(v.Value); iv.Kind() == constant.Int {
			b, _ := new(big.Int).SetString(iv.ExactString(), 10)
			return c.Big(b)
		}
	}
	return c.UF("K_const", SVal, c.Lit(v.Value.ExactString()))
}

func (x *Exec) globalObj(st *State, g *ssa.Global) int {
	if id, ok := st.globals[g]; ok {
		return id
	}
	elem := g.Type().(*types.Pointer).Elem()
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	var v Value
	if !x.w.mutable[g] {
		v = x.globalInit(st, g, elem)
	}
	if v == nil {
		v = x.fromVal(st, x.c.Var("glob:"+name, SVal), elem)
		if name == "crypto/rand.Reader" { // never nil
			x.fact(st, x.c.Not(x.isNil(st, v)))
		}
	}
	id := x.newObjIn(st, v, elem, name)
	x.markPre(st, id, nil)
	st.globals[g] = id
	return id
}

// globalInit evaluates simple initialisers of never-reassigned globals.
func (x *Exec) globalInit(st *State, g *ssa.Global, elem types.Type) Value {
	c := x.c
	initF := g.Pkg.Func("init")
	if isIface(elem) && typeKey(elem) == "error" {
		return &VIface{sym: c.UF("K_err:"+g.Pkg.Pkg.Path()+"."+g.Name(), SVal)}
	}
	if initF == nil || initF.Blocks == nil {
		return nil
	}
	// direct store of a simple value
	var stores []*ssa.Store
	idx := map[int64]ssa.Value{}
	other := false
	for _, b := range initF.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if s.Addr == g {
				stores = append(stores, s)
			} else if ia, ok := s.Addr.(*ssa.IndexAddr); ok && ia.X == g {
				if k, ok := ia.Index.(*ssa.Const); ok {
					idx[k.Int64()] = s.Val
				} else {
					other = true
				}
			} else if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == g {
				other = true
			}
		}
	}
	if other {
		return nil
	}
	if len(stores) == 0 && len(idx) == 0 {
		return x.zero(st, elem)
	}
	if a, ok := under(elem).(*types.Array); ok && len(stores) == 0 {
		if isByteT(a.Elem()) {
			b := make([]byte, a.Len())
			for k, v := range idx {
				cv, ok := v.(*ssa.Const)
				if !ok {
					return nil
				}
				b[k] = byte(cv.Int64())
			}
			return c.Lit(string(b))
		}
		z, ok := x.zero(st, elem).(*VArr)
		if !ok {
			return nil
		}
		for k, v := range idx {
			sv := x.staticVal(st, v, initF)
			if sv == nil {
				return nil
			}
			z.e[k] = sv
		}
		return z
	}
	if len(stores) == 1 && len(idx) == 0 {
		return x.staticVal(st, stores[0].Val, initF)
	}
	return nil
}
func (x *Exec) staticVal(st *State, v ssa.Value, initF *ssa.Function) Value {
	c := x.c
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Function:
		return &VFunc{fn: v}
	case *ssa.Convert:
		if k, ok := v.X.(*ssa.Const); ok {
			if isByteSlice(v.Type()) && k.Value != nil && k.Value.Kind() == constant.String {
				s := constant.StringVal(k.Value)
				return x.bytesSlice(st, c.Lit(s))
			}
			if k.Value != nil {
				return x.constVal(st, ssa.NewConst(k.Value, v.Type()))
			}
		}
	case *ssa.UnOp: // a library global that is never nil
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL && g.Pkg.Pkg.Path() == "crypto/rand" && g.Name() == "Reader" {
			iv := &VIface{sym: c.Var("glob:crypto/rand.Reader", SVal)}
			x.fact(st, c.Not(x.isNil(st, iv)))
			return iv
		}
	case *ssa.Slice: // literal slice: &[n]T with stores
		al, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return nil
		}
		at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil
		}
		z := x.zero(st, al.Type().(*types.Pointer).Elem())
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			for _, r2 := range *ia.Referrers() {
				s, ok := r2.(*ssa.Store)
				if !ok {
					continue
				}
				sv := x.staticVal(st, s.Val, initF)
				if sv == nil {
					return nil
				}
				z = x.upd(st, z, []PE{{f: int(k.Int64())}}, sv)
			}
		}
		id := x.newObjIn(st, z, al.Type().(*types.Pointer).Elem(), "glit")
		n := c.Int(at.Len())
		return &VSlice{nilT: c.F, base: &VPtr{obj: id, elem: at}, off: c.Int(0), len: n, cap: n, elem: at.Elem()}
	}
	return nil
}

func (x *Exec) bytesSlice(st *State, b *Term) *VSlice {
	id := x.newObjIn(st, b, types.NewSlice(types.Typ[types.Byte]), "bytes")
	n := x.c.Len(b)
	return &VSlice{nilT: x.c.F, base: &VPtr{obj: id, elem: types.NewSlice(types.Typ[types.Byte])}, off: x.c.Int(0), len: n, cap: n, elem: types.Typ[types.Byte]}
}

// ---------- control ----------

func (x *Exec) enter(st *State, fn *ssa.Function, args []Value, binds []Value, k func(st *State, res Value)) {
	if len(st.frames) > 24 {
		x.abort("inlining too deep at %s", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, names: map[string]Value{}, loops: map[*ssa.BasicBlock]*loopState{}, k: k, iter: map[int]*Term{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
		fr.names[p.Name()] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = binds[i]
	}
	st.frames = append(st.frames, fr)
	x.run(st, len(st.frames)-1, fn.Blocks[0], 0)
}

func (x *Exec) loopsOf(fn *ssa.Function) *loopInfo {
	x.specs.mu.Lock()
	defer x.specs.mu.Unlock()
	li := x.w.loops[fn]
	if li == nil {
		li = findLoops(fn)
		x.w.loops[fn] = li
	}
	return li
}

func (x *Exec) jump(st *State, d int, from, to *ssa.BasicBlock) {
	fr := st.frames[d]
	// discovery boundary
	for _, ds := range x.discs {
		if ds.depth == d && ds == x.discs[len(x.discs)-1] {
			if to == ds.header {
				ds.onBack(st, from)
				return
			}
			if !ds.body[to] {
				return
			}
		}
	}
	li := x.loopsOf(fr.fn)
	// leaving loops: forget their state
	for h := range fr.loops {
		if !li.body[h][to] {
			delete(fr.loops, h)
		}
	}
	if body := li.body[to]; body != nil {
		ls := fr.loops[to]
		if ls == nil {
			x.enterLoop(st, d, from, to, body)
			return
		}
		if ls.cut {
			x.loopBack(st, d, from, to, ls)
			return
		}
		ls.count++
		x.unrolls++
		if ls.count > 1200 {
			x.abort("loop unrolled too often in %s", fr.fn)
		}
	}
	x.phis(st, d, from, to)
	x.run(st, d, to, 0)
}

func (x *Exec) phiVals(st *State, d int, from, to *ssa.BasicBlock) map[*ssa.Phi]Value {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	m := map[*ssa.Phi]Value{}
	for _, in := range to.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			m[ph] = x.val(st, d, ph.Edges[k])
		}
	}
	return m
}
func (x *Exec) phis(st *State, d int, from, to *ssa.BasicBlock) {
	x.setPhis(st, d, x.phiVals(st, d, from, to))
}
func (x *Exec) setPhis(st *State, d int, m map[*ssa.Phi]Value) {
	fr := st.frames[d]
	for ph, v := range m {
		fr.env[ph] = v
		if ph.Comment != "" {
			fr.names[ph.Comment] = v
		}
	}
}

// loopSpec finds the invariant clauses for a loop of fn.
func (x *Exec) loopSpec(fn *ssa.Function, to *ssa.BasicBlock) *LoopSpec {
	ord := x.loopsOf(fn).ord[to]
	x.sawLoop(fn, ord)
	return x.specFor(fn, ord)
}

func (x *Exec) enterLoop(st *State, d int, from, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	fr := st.frames[d]
	spec := x.loopSpec(fr.fn, to)
	var bound *Term // upper bound in header comparison
	var bphi *ssa.Phi
	var boff int64
	if spec == nil && !x.forceCut[to] {
		// try to decide the header condition
		s2 := st.clone()
		x.phis(s2, d, from, to)
		dec := -1
		x.sv.Push()
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(engineErr); !ok {
						panic(r)
					}
				}
			}()
			for _, in := range to.Instrs {
				switch in := in.(type) {
				case *ssa.Phi, *ssa.DebugRef:
				case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Convert, *ssa.Index, *ssa.ChangeType:
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
						return
					}
					x.discs = append(x.discs, &disc{depth: -1, maxObj: -1, writes: map[int]map[int]bool{}, events: map[string]bool{}})
					x.simple(s2, d, in)
					x.discs = x.discs[:len(x.discs)-1]
				case *ssa.Call:
					if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
						s2.frames[d].env[in] = x.builtinLen(s2, b.Name(), x.val(s2, d, in.Call.Args[0]))
						continue
					}
					return
				case *ssa.If:
					dec = x.decide(x.val(s2, d, in.Cond).(*Term))
					if cmp, ok := in.Cond.(*ssa.BinOp); ok && (cmp.Op == token.LSS || cmp.Op == token.LEQ) {
						X := cmp.X
						if ad, ok := X.(*ssa.BinOp); ok && ad.Op == token.ADD {
							if k, ok := ad.Y.(*ssa.Const); ok {
								boff = k.Int64()
								X = ad.X
							}
						}
						if ph, ok := X.(*ssa.Phi); ok && ph.Block() == to {
							bphi = ph
							bound, _ = x.val(s2, d, cmp.Y).(*Term)
							if cmp.Op == token.LEQ && bound != nil {
								bound = x.c.AddK(bound, 1)
							}
						}
					}
					return
				default:
					return
				}
			}
		}()
		x.sv.Pop()
		if dec >= 0 {
			fr.loops[to] = &loopState{}
			x.phis(st, d, from, to)
			x.run(st, d, to, 0)
			return
		}
	}
	x.cutLoop(st, d, from, to, body, spec, bound, bphi, boff)
}

type cand struct {
	desc string
	f    func(st *State, ph map[*ssa.Phi]Value) *Term
}

func (x *Exec) cutLoop(st *State, d int, from, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, spec *LoopSpec, bound *Term, bphi *ssa.Phi, boff int64) {
	c := x.c
	fr := st.frames[d]
	ord := x.loopsOf(fr.fn).ord[to]
	entryPh := x.phiVals(st, d, from, to)
	name := fmt.Sprintf("%s/loop%d", shortFn(fr.fn), ord)
	if spec != nil && bphi == nil {
		bound, bphi, boff = x.headerBound(st, d, from, to)
	}
	// user invariants hold on entry
	fr.iter[ord] = c.Int(0)
	if spec != nil && len(x.discs) == 0 {
		s2 := st.clone()
		x.setPhis(s2, d, entryPh)
		for k, inv := range spec.invs {
			t := x.evalInv(s2, d, inv)
			x.obligeHint(s2, inv, fmt.Sprintf("%s.inv%d.init%s", name, k, inv.tagStr()), t, to.Instrs[0].Pos())
		}
	}
	// automatic candidates
	var cands []cand
	var phs []*ssa.Phi
	for ph := range entryPh {
		phs = append(phs, ph)
	}
	sort.Slice(phs, func(i, j int) bool { return phs[i].Name() < phs[j].Name() })
	for _, ph := range phs {
		ph := ph
		e, ok := entryPh[ph].(*Term)
		if ok && e.sort == SInt {
			cands = append(cands, cand{ph.Name() + " counts up", func(st *State, m map[*ssa.Phi]Value) *Term {
				return c.Eq(m[ph].(*Term), c.Add(e, st.frames[d].iter[ord]))
			}})
			cands = append(cands, cand{ph.Name() + " counts down", func(st *State, m map[*ssa.Phi]Value) *Term {
				return c.Eq(c.Add(m[ph].(*Term), st.frames[d].iter[ord]), e)
			}})
			cands = append(cands, cand{ph.Name() + ">=entry", func(st *State, m map[*ssa.Phi]Value) *Term { return c.Le(e, m[ph].(*Term)) }})
			if bound != nil && ph == bphi {
				cands = append(cands, cand{ph.Name() + "<=bound", func(st *State, m map[*ssa.Phi]Value) *Term {
					return c.Le(c.AddK(m[ph].(*Term), boff), bound)
				}})
			}
			continue
		}
		if es, ok := entryPh[ph].(*VSlice); ok {
			for _, p2 := range phs {
				p2 := p2
				if e2, ok := entryPh[p2].(*Term); ok && e2.sort == SInt {
					cands = append(cands, cand{"len " + ph.Name() + " tracks " + p2.Name(), func(st *State, m map[*ssa.Phi]Value) *Term {
						return c.Eq(m[ph].(*VSlice).len, c.Add(es.len, c.Sub(m[p2].(*Term), e2)))
					}})
				}
			}
			cands = append(cands, cand{"len " + ph.Name() + " const", func(st *State, m map[*ssa.Phi]Value) *Term {
				return c.Eq(m[ph].(*VSlice).len, es.len)
			}})
		}
	}
	// slices that stay ones made by this function (by make, append or a call that returns fresh ones)
	freshPh := map[*ssa.Phi]bool{}
	for _, ph := range phs {
		if v, ok := entryPh[ph].(*VSlice); ok && x.ownSlice(st, v) {
			freshPh[ph] = true
		}
	}
	// keep those holding on entry
	{
		k := cands[:0]
		for _, cd := range cands {
			if c.holds(cd.f(st, entryPh)) {
				k = append(k, cd)
			}
		}
		cands = k
	}
	iterV := c.Fresh("iter", SInt)
	c.SetRange(iterV, bigZero, maxLen)
	writes := map[int]map[int]bool{}
	events := map[string]bool{}
	havoc := func(s *State) {
		ph := map[*ssa.Phi]Value{}
		for p := range entryPh {
			ph[p] = x.havocVal(s, p.Type(), "loop_"+p.Comment)
			if v, ok := ph[p].(*VSlice); ok && freshPh[p] && v.base != nil && v.base.sym == nil && v.base.obj != 0 {
				o := *s.heap[v.base.obj]
				o.pre, o.loopv = false, true
				s.heap[v.base.obj] = &o
				delete(x.orig, v.base.obj)
			}
			if e, ok := entryPh[p].(*VSlice); ok && e.cut {
				n := *ph[p].(*VSlice)
				n.cut = true
				ph[p] = &n
			}
		}
		x.setPhis(s, d, ph)
		s.frames[d].iter[ord] = iterV
		var ids []int
		for id := range writes {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			x.havocObj(s, id, writes[id])
		}
		if x.rp != nil { // before the first round everything is as it was
			first := c.Eq(iterV, c.Int(0))
			for p, e := range entryPh {
				switch v := ph[p].(type) {
				case *Term:
					if et, ok := e.(*Term); ok && et.sort == v.sort {
						x.assume(s, c.Imp(first, c.Eq(v, et)))
					}
				case *VSlice:
					if es, ok := e.(*VSlice); ok {
						x.assume(s, c.Imp(first, c.Eq(v.len, es.len)))
						if b, ok := p.Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
							x.assume(s, c.Imp(first, c.Eq(x.sliceBytes(s, v), x.sliceBytes(st, es))))
						}
					}
				}
			}
		}
		for _, cd := range cands {
			x.assume(s, cd.f(s, ph))
		}
		if spec != nil {
			for _, inv := range spec.invs {
				x.assume(s, x.evalInv(s, d, inv))
			}
		}
	}
	for round := 0; ; round++ {
		if round > 40 {
			x.abort("loop discovery diverges in %s", fr.fn)
		}
		s2 := st.clone()
		// events recorded relative to loop entry
		dead := map[int]bool{}
		lost := false
		ds := &disc{header: to, body: body, depth: d, maxObj: x.nextObj, writes: map[int]map[int]bool{}, events: map[string]bool{}}
		ds.onBack = func(sb *State, fb *ssa.BasicBlock) {
			m := x.phiVals(sb, d, fb, to)
			sb.frames[d].iter[ord] = c.AddK(iterV, 1)
			for k, cd := range cands {
				if !dead[k] && !c.holds(cd.f(sb, m)) {
					dead[k] = true
				}
			}
			for p := range freshPh {
				if v, ok := m[p].(*VSlice); !ok || !x.ownSlice(sb, v) {
					delete(freshPh, p)
					lost = true
				}
			}
		}
		x.sv.Push()
		x.discs = append(x.discs, ds)
		havoc(s2)
		s2.frames[d].loops[to] = &loopState{cut: true}
		x.run(s2, d, to, 0)
		x.discs = x.discs[:len(x.discs)-1]
		x.sv.Pop()
		changed := false
		for id, fs := range ds.writes {
			if writes[id] == nil {
				writes[id] = map[int]bool{}
			}
			for f := range fs {
				if !writes[id][f] {
					writes[id][f] = true
					changed = true
				}
			}
		}
		for e := range ds.events {
			if !events[e] {
				events[e] = true
				changed = true
			}
		}
		if ds.wild {
			x.abort("loop in %s writes through pointers it obtains itself", fr.fn)
		}
		if lost {
			changed = true
		}
		if len(dead) > 0 {
			var k []cand
			for i, cd := range cands {
				if !dead[i] {
					k = append(k, cd)
				}
			}
			cands = k
			changed = true
		}
		if !changed {
			break
		}
	}
	// propagate writes to enclosing discoveries
	for _, ds := range x.discs {
		for id, fs := range writes {
			if id <= ds.maxObj {
				if ds.writes[id] == nil {
					ds.writes[id] = map[int]bool{}
				}
				for f := range fs {
					ds.writes[id][f] = true
				}
			}
		}
		for e := range events {
			ds.events[e] = true
		}
	}
	entry := st.clone()
	havoc(st)
	if len(events) > 0 {
		st.trace = append(st.trace, Event{name: "*loop", loop: events})
	}
	st.frames[d].loops[to] = &loopState{cut: true, cands: cands, spec: spec, entry: entry}
	st.desc = append(st.desc, "in "+name)
	x.run(st, d, to, 0)
}

// ownSlice: the slice is empty or its array was made by the function being verified.
func (x *Exec) ownSlice(st *State, v *VSlice) bool {
	if v.base == nil {
		return true
	}
	if v.base.sym != nil {
		return false
	}
	o := st.heap[v.base.obj]
	return v.base.obj == 0 || o != nil && !o.pre
}

// headerBound extracts i < n from a loop header with an explicit spec.
func (x *Exec) headerBound(st *State, d int, from, to *ssa.BasicBlock) (bound *Term, bphi *ssa.Phi, boff int64) {
	last, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	cmp, ok := last.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS && cmp.Op != token.LEQ {
		return
	}
	X := cmp.X
	if ad, ok := X.(*ssa.BinOp); ok && ad.Op == token.ADD {
		if k, ok := ad.Y.(*ssa.Const); ok {
			boff = k.Int64()
			X = ad.X
		}
	}
	ph, ok := X.(*ssa.Phi)
	if !ok || ph.Block() != to {
		return
	}
	fr := st.frames[d]
	switch y := cmp.Y.(type) {
	case *ssa.Const:
		bound, _ = x.constVal(st, y).(*Term)
	default:
		if v, ok := fr.env[y]; ok {
			bound, _ = v.(*Term)
		} else if cl, ok := y.(*ssa.Call); ok {
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if av, ok := fr.env[cl.Call.Args[0]]; ok {
					bound, _ = x.builtinLen(st, "len", av).(*Term)
				}
			}
		}
	}
	if bound == nil {
		return nil, nil, 0
	}
	if cmp.Op == token.LEQ {
		bound = x.c.AddK(bound, 1)
	}
	return bound, ph, boff
}

func (x *Exec) havocObj(st *State, id int, fs map[int]bool) {
	o := st.heap[id]
	if o == nil {
		return
	}
	no := *o
	if sv, ok := o.val.(*VStruct); ok && !fs[-1] {
		for f := range fs {
			ft := under(sv.typ).(*types.Struct).Field(f).Type()
			sv = sv.with(f, x.havocVal(st, ft, "hv"))
		}
		no.val = sv
	} else {
		switch v := o.val.(type) {
		case *mapVal:
			no.val = &mapVal{base: x.fresh("map", SVal), typ: v.typ}
		case *ghostObj:
			g := &ghostObj{kind: v.kind, f: map[string]Value{}}
			for k, fv := range v.f {
				if t, ok := fv.(*Term); ok && !ghostConst[k] {
					g.f[k] = x.fresh("g_"+k, t.sort)
				} else {
					g.f[k] = fv
				}
			}
			no.val = g
		case *VSeq:
			no.val = &VSeq{elem: v.elem, base: x.fresh("seq", SVal), n: v.n}
		case *VArr:
			a := &VArr{elem: v.elem}
			for range v.e {
				a.e = append(a.e, x.havocVal(st, v.elem, "hv"))
			}
			no.val = a
		case *Term:
			if v.sort == SBytes {
				nb := x.fresh("hvb", SBytes)
				if l := x.c.Len(v); l.isInt() {
					x.c.SetLen(nb, l.I64())
				} else {
					x.fact(st, x.c.rawIntEq(x.c.Len(nb), l))
				}
				if s, ok := under(o.typ).(*types.Basic); ok && s.Info()&types.IsString != 0 {
					nb = x.fresh("hvs", SBytes) // string variable: length may change
				}
				no.val = nb
			} else {
				no.val = x.havocVal(st, o.typ, "hv")
			}
		default:
			no.val = x.havocVal(st, o.typ, "hv")
		}
	}
	st.heap[id] = &no
}

func (x *Exec) loopBack(st *State, d int, from, to *ssa.BasicBlock, ls *loopState) {
	fr := st.frames[d]
	ord := x.loopsOf(fr.fn).ord[to]
	m := x.phiVals(st, d, from, to)
	x.setPhis(st, d, m)
	if it := fr.iter[ord]; it != nil {
		fr.iter[ord] = x.c.AddK(it, 1)
	}
	name := fmt.Sprintf("%s/loop%d", shortFn(fr.fn), ord)
	for _, cd := range ls.cands {
		x.oblige(st, name+".auto", cd.f(st, m), to.Instrs[0].Pos())
	}
	if ls.spec != nil {
		for k, inv := range ls.spec.invs {
			x.obligeHint(st, inv, fmt.Sprintf("%s.inv%d.keep%s", name, k, inv.tagStr()), x.evalInv(st, d, inv), to.Instrs[0].Pos())
		}
	}
}

func (x *Exec) noteWrite(st *State, p *VPtr) {
	f := -1
	if len(p.path) > 0 && p.path[0].idx == nil {
		if o := st.heap[p.obj]; o != nil {
			if _, ok := o.val.(*VStruct); ok {
				f = p.path[0].f
			}
		}
	}
	x.noteWriteObj(st, p.obj, f)
}
func (x *Exec) noteWriteObj(st *State, id, f int) {
	for _, ds := range x.discs {
		if id <= ds.maxObj {
			if ds.writes[id] == nil {
				ds.writes[id] = map[int]bool{}
			}
			ds.writes[id][f] = true
		} else if o := st.heap[id]; o != nil && (o.pre || o.loopv) && ds.maxObj >= 0 {
			ds.wild = true
		}
	}
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

func (x *Exec) emitEv(st *State, ev Event) {
	st.trace = append(st.trace, ev)
	for _, ds := range x.discs {
		ds.events[ev.name] = true
	}
	if x.con != nil && len(x.con.ats) > 0 && len(x.discs) == 0 && x.entry != nil {
		for k, a := range x.con.ats {
			if a.event == ev.name {
				x.oblige(st, fmt.Sprintf("%s/at:%s%d", shortFn(st.frames[0].fn), a.event, k), x.evalInv(st, 0, a.invs[0]), st.frames[0].fn.Pos())
				if x.atSeen == nil {
					x.atSeen = map[*cutSpec]bool{}
				}
				x.atSeen[a] = true
			}
		}
	}
}

// run executes instructions i.. of block b in frame d.
func (x *Exec) run(st *State, d int, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if time.Now().After(x.deadline) {
			x.abort("time limit")
		}
		in := b.Instrs[i]
		fr := st.frames[d]
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			if id := identName(in); id != "" {
				if in.IsAddr {
					if p, ok := fr.env[in.X].(*VPtr); ok {
						fr.names["&"+id] = p
					}
				} else if v, ok := fr.env[in.X]; ok {
					fr.names[id] = v
				} else if cv, ok := in.X.(*ssa.Const); ok {
					fr.names[id] = x.constVal(st, cv)
				}
			}
			continue
		case *ssa.If:
			t := x.val(st, d, in.Cond).(*Term)
			p := x.w.prog.Fset.Position(in.Cond.Pos())
			desc := fmt.Sprintf("%s:%d", p.Filename[strings.LastIndex(p.Filename, "/")+1:], p.Line)
			if ls := fr.loops[b]; ls != nil && !ls.cut && ls.count > 0 && x.decide(t) < 0 {
				x.forceCut[b] = true
				panic(redo{})
			}
			if x.merge(st, d, b, in, t) {
				return
			}
			if x.chain(st, d, b, t, desc) {
				return
			}
			x.branch(st, t, desc, func(s *State) { x.jump(s, d, b, b.Succs[0]) }, func(s *State) { x.jump(s, d, b, b.Succs[1]) })
			return
		case *ssa.Jump:
			x.jump(st, d, b, b.Succs[0])
			return
		case *ssa.Return:
			var res Value
			if len(in.Results) == 1 {
				res = x.val(st, d, in.Results[0])
			} else {
				var tp VTuple
				for _, r := range in.Results {
					tp = append(tp, x.val(st, d, r))
				}
				res = tp
			}
			for _, ds := range x.discs {
				if ds.depth == d && ds == x.discs[len(x.discs)-1] {
					return
				}
			}
			x.ret(st, d, res)
			return
		case *ssa.Panic:
			x.mayPanic(st, "panic", x.c.F, in.Pos())
			return
		case *ssa.RunDefers:
			i := i
			x.runDefers(st, d, func(s *State) { x.run(s, d, b, i+1) })
			return
		case *ssa.Defer:
			df := deferred{call: &in.Call}
			df.fn, df.args = x.callOperands(st, d, &in.Call)
			fr.defers = append(fr.defers, df)
			continue
		case *ssa.UnOp:
			if in.Op != token.ARROW {
				x.simple(st, d, in)
				continue
			}
			ch, _ := x.val(st, d, in.X).(*Term)
			cs := st.chans[ch]
			if cs != nil && len(cs.queue) == 0 && len(st.gos) > 0 {
				// the goroutines share nothing but channels: they run when their result is needed
				g := st.gos[0]
				st.gos = append([]deferred{}, st.gos[1:]...)
				sync := false
				i := i
				x.dispatch(st, d, nil, g.call, g.fn, g.args, func(s *State, _ Value) { x.run(s, d, b, i) }, &sync)
				return
			}
			if cs == nil || len(cs.queue) == 0 {
				x.simple(st, d, in)
				continue
			}
			v := cs.queue[0]
			st.chans[ch] = &chanState{cs.cap, append([]Value{}, cs.queue[1:]...)}
			if in.CommaOk {
				v = VTuple{v, x.c.T}
			}
			fr.env[in] = v
			continue
		case *ssa.Send:
			ch, _ := x.val(st, d, in.Chan).(*Term)
			if cs := st.chans[ch]; cs != nil {
				st.chans[ch] = &chanState{cs.cap, append(append([]Value{}, cs.queue...), x.val(st, d, in.X))}
				continue
			}
			x.simple(st, d, in)
			continue
		case *ssa.Go:
			if fv, args := x.callOperands(st, d, &in.Call); len(x.discs) == 0 && !in.Call.IsInvoke() && x.isolated(st, fv, args) {
				st.gos = append(st.gos, deferred{call: &in.Call, fn: fv, args: args})
				x.note("goroutine", "sequentialised in "+shortFn(fr.fn)+" (shares only channels and values)")
				continue
			}
			x.note("goroutine", shortFn(fr.fn))
			_, args := x.callOperands(st, d, &in.Call)
			for _, a := range args {
				x.havocReach(st, a, map[int]bool{})
			}
			continue
		case *ssa.Call:
			if x.cutHere(st, d, b, i, in) {
				return
			}
			i := i
			done := false
			sync := false
			x.call(st, d, in, &in.Call, func(s *State, res Value) {
				if sync && s == st && !done {
					// straight-line completion (the callee did not fork): continue the outer loop
					done = true
					s.frames[d].env[in] = res
					return
				}
				s.frames[d].env[in] = res
				x.run(s, d, b, i+1)
			}, &sync)
			if done {
				continue
			}
			return
		default:
			x.simple(st, d, in)
		}
	}
}

// isolated: the goroutine gets values and channels only.
func (x *Exec) isolated(st *State, fv Value, args []Value) bool {
	f, ok := fv.(*VFunc)
	if !ok || f.fn == nil || len(f.binds) > 0 {
		return false
	}
	for _, a := range args {
		if _, ok := a.(*Term); !ok {
			return false
		}
	}
	return true
}

// merge joins the two ways through "if cond { only logging or scalar arithmetic }"
// instead of exploring them separately.
func (x *Exec) merge(st *State, d int, b *ssa.BasicBlock, in *ssa.If, cond *Term) bool {
	var T, J *ssa.BasicBlock
	pos := true
	switch {
	case len(b.Succs[0].Succs) == 1 && b.Succs[0].Succs[0] == b.Succs[1]:
		T, J = b.Succs[0], b.Succs[1]
	case len(b.Succs[1].Succs) == 1 && b.Succs[1].Succs[0] == b.Succs[0]:
		T, J, pos = b.Succs[1], b.Succs[0], false
	default:
		return false
	}
	if len(T.Preds) != 1 || T == J || b == J || x.loopsOf(st.frames[d].fn).body[J] != nil {
		return false
	}
	local := map[ssa.Value]bool{}
	seenBase := map[ssa.Value]bool{}
	for _, in := range b.Instrs {
		if fa, ok := in.(*ssa.FieldAddr); ok {
			seenBase[fa.X] = true
		}
	}
	var outer []*ssa.FieldAddr // one field assigned outside
	for _, in := range T.Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.Jump, *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.Extract:
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				return false
			}
		case *ssa.Alloc:
			local[in] = true
		case *ssa.IndexAddr:
			if local[in.X] {
				local[in] = true
			}
		case *ssa.Slice:
		case *ssa.Store:
			if !local[in.Addr] {
				fa, ok := in.Addr.(*ssa.FieldAddr)
				if !ok || len(outer) > 0 || !seenBase[fa.X] {
					return false
				}
				if bt, ok := under(in.Val.Type()).(*types.Basic); !ok || bt.Info()&(types.IsInteger|types.IsBoolean) == 0 {
					return false
				}
				outer = append(outer, fa)
			}
		case *ssa.Call:
			if len(outer) > 0 {
				return false
			}
			f, ok := in.Call.Value.(*ssa.Function)
			if !ok || in.Call.IsInvoke() || f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/log" {
				return false
			}
			if refs := in.Referrers(); refs != nil {
				for _, r := range *refs {
					if _, ok := r.(*ssa.DebugRef); !ok {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	for _, ji := range J.Instrs {
		if ph, ok := ji.(*ssa.Phi); ok {
			if bt, ok := under(ph.Type()).(*types.Basic); !ok || bt.Info()&(types.IsInteger|types.IsBoolean) == 0 {
				return false
			}
		}
	}
	if x.decide(cond) >= 0 {
		return false
	}
	g := cond
	if !pos {
		g = x.c.Not(cond)
	}
	s2 := st.clone()
	x.sv.Push()
	x.assume(s2, g)
	for _, in := range T.Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.Jump, *ssa.Call:
		default:
			x.simple(s2, d, in)
		}
	}
	x.sv.Pop()
	fr := st.frames[d]
	vals := map[*ssa.Phi]Value{}
	for _, ji := range J.Instrs {
		ph, ok := ji.(*ssa.Phi)
		if !ok {
			continue
		}
		var vt, vb Value
		for k, p := range J.Preds {
			if p == T {
				vt = x.val(s2, d, ph.Edges[k])
			} else if p == b {
				vb = x.val(st, d, ph.Edges[k])
			}
		}
		a, ok1 := vt.(*Term)
		e, ok2 := vb.(*Term)
		if !ok1 || !ok2 {
			return false
		}
		vals[ph] = x.c.Ite(g, a, e)
	}
	for _, fa := range outer {
		p, ok := x.val(s2, d, fa).(*VPtr)
		if !ok {
			return false
		}
		nv, ok1 := x.load(s2, p).(*Term)
		ov, ok2 := x.load(st, p).(*Term)
		if !ok1 || !ok2 {
			return false
		}
		x.store(st, p, x.c.Ite(g, nv, ov))
	}
	for ph, v := range vals {
		fr.env[ph] = v
	}
	x.run(st, d, J, 0)
	return true
}

// chain takes a sequence of tests that lead to the same block (a || b, switch cases without a body) as one test.
func (x *Exec) chain(st *State, d int, b *ssa.BasicBlock, t *Term, desc string) bool {
	c := x.c
	li := x.loopsOf(st.frames[d].fn)
	final := func(q *ssa.BasicBlock) *ssa.BasicBlock { // through empty blocks
		for k := 0; k < 8; k++ {
			if li.body[q] != nil || len(q.Succs) != 1 {
				return q
			}
			for _, in := range q.Instrs {
				switch in.(type) {
				case *ssa.DebugRef, *ssa.Jump:
				default:
					return q
				}
			}
			n := q.Succs[0]
			for _, in := range n.Instrs {
				if _, ok := in.(*ssa.Phi); ok {
					return q
				}
			}
			q = n
		}
		return q
	}
	seenBase := map[ssa.Value]bool{} // pointers the tests before have dereferenced
	for _, in := range b.Instrs {
		if fa, ok := in.(*ssa.FieldAddr); ok {
			seenBase[fa.X] = true
		}
	}
	pure := func(q *ssa.BasicBlock) *ssa.If {
		if len(q.Preds) != 1 || li.body[q] != nil {
			return nil
		}
		for _, in := range q.Instrs {
			switch in := in.(type) {
			case *ssa.DebugRef:
			case *ssa.FieldAddr:
				if _, ok := in.X.(*ssa.Alloc); !ok && !seenBase[in.X] {
					return nil
				}
			case *ssa.UnOp:
				if in.Op == token.MUL {
					switch in.X.(type) {
					case *ssa.FieldAddr, *ssa.Global:
						if a, ok := in.X.(*ssa.FieldAddr); ok && a.Block() != q {
							return nil
						}
					default:
						return nil
					}
					if _, ok := under(in.Type()).(*types.Basic); !ok {
						return nil
					}
				} else if in.Op != token.NOT {
					return nil
				}
			case *ssa.BinOp:
				switch in.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.ADD, token.SUB, token.AND:
				default:
					return nil
				}
				if _, ok := under(in.X.Type()).(*types.Basic); !ok {
					return nil
				}
			case *ssa.If:
				return in
			default:
				return nil
			}
		}
		return nil
	}
	if x.decide(t) >= 0 {
		return false
	}
	for side := 0; side < 2; side++ {
		J := final(b.Succs[side])
		if li.body[J] != nil {
			continue
		}
		bad := false
		for _, in := range J.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				bad = true
			}
		}
		if bad {
			continue
		}
		acc, cur, other, n := t, b, b.Succs[1-side], 0
		if side == 1 {
			acc = c.Not(t)
		}
		for other != J {
			in := pure(other)
			if in == nil {
				break
			}
			k := -1
			if final(other.Succs[0]) == J {
				k = 0
			} else if final(other.Succs[1]) == J {
				k = 1
			}
			if k < 0 || other.Succs[1-k] == other.Succs[k] {
				break
			}
			for _, i := range other.Instrs {
				switch i.(type) {
				case *ssa.DebugRef, *ssa.If:
				default:
					x.simple(st, d, i)
				}
			}
			g, ok := x.val(st, d, in.Cond).(*Term)
			if !ok {
				break
			}
			if k == 1 {
				g = c.Not(g)
			}
			acc = c.Or(acc, g)
			cur, other = other, other.Succs[1-k]
			n++
		}
		if n == 0 {
			continue
		}
		x.branch(st, acc, desc, func(s *State) { x.jump(s, d, cur, J) }, func(s *State) { x.jump(s, d, cur, other) })
		return true
	}
	return false
}

type redo struct{}

func identName(in *ssa.DebugRef) string {
	return exprIdent(in.Expr)
}

func (x *Exec) ret(st *State, d int, res Value) {
	fr := st.frames[d]
	k := fr.k
	st.frames = st.frames[:d]
	k(st, res)
}

func (x *Exec) runDefers(st *State, d int, k func(st *State)) {
	fr := st.frames[d]
	if len(fr.defers) == 0 {
		k(st)
		return
	}
	df := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	sync := false
	x.dispatch(st, d, nil, df.call, df.fn, df.args, func(s *State, _ Value) { x.runDefers(s, d, k) }, &sync)
}

// mayPanic: t must hold or the program panics.
func (x *Exec) mayPanic(st *State, kind string, t *Term, pos token.Pos) {
	if t == x.c.T {
		if !x.con.maypanic && len(x.discs) == 0 {
			n := x.obName(st, kind)
			x.rep.vc(n)
			x.rep.ok(n, "simplifier", 0)
		}
		return
	}
	if x.con.maypanic {
		if x.con.panicIf != nil && len(x.discs) == 0 && len(st.frames) > 0 {
			s2 := st.clone()
			x.oblige(s2, x.obName(st, "panic-only-if"), x.c.Or(t, x.evalClause(x.ctxFor(x.con, s2, x.entry.clone(), x.params), x.con.panicIf)), pos)
		}
		if t == x.c.F {
			return
		}
		x.assume(st, t)
		return
	}
	x.oblige(st, x.obName(st, kind), t, pos)
}
func (x *Exec) obName(st *State, kind string) string {
	if len(st.frames) == 0 {
		return kind
	}
	return shortFn(x.top(st).fn) + "/" + kind
}

func (x *Exec) typeBits(t types.Type) (bits uint, signed bool) {
	b := under(t).(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

func (x *Exec) wrap(t *Term, T types.Type) *Term {
	c := x.c
	lo, hi := intRange(T)
	l, h := c.rng(t)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	inR := c.And(c.Le(c.Big(lo), t), c.Le(t, c.Big(hi)))
	if c.holds(inR) {
		return t
	}
	bits, signed := x.typeBits(T)
	m := new(big.Int).Lsh(bigOne, bits)
	if !signed {
		return c.Mod(t, c.Big(m))
	}
	half := c.Big(new(big.Int).Lsh(bigOne, bits-1))
	return c.Sub(c.Mod(c.Add(t, half), c.Big(m)), half)
}
