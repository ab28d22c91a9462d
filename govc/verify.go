package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Failure struct {
	Name, Pos, Goal, Solvers string
	Path                     []string
	Count                    int
}
type FuncReport struct {
	Key       string
	total     int
	good      int
	byBackend map[string]int
	names     map[string]int
	nsTime    time.Duration
	fails     map[string]*Failure
	failCount map[string]int
	nFail     int
	uses      map[string]bool
	trusts    map[string]bool
	models    map[string]bool
	inlined   map[string]bool
	Notes     []string
	paths     int
	Err       string
	wall      time.Duration
	queries   int
	loops     []loopRef // loops met, in order
}

func newReport(k string) *FuncReport {
	return &FuncReport{Key: k, byBackend: map[string]int{}, names: map[string]int{}, fails: map[string]*Failure{}, failCount: map[string]int{},
		uses: map[string]bool{}, trusts: map[string]bool{}, models: map[string]bool{}, inlined: map[string]bool{}}
}
func (r *FuncReport) vc(n string) { r.total++; r.names[n]++ }
func (r *FuncReport) ok(n, by string, d time.Duration) {
	r.good++
	r.byBackend[by]++
	r.nsTime += d
}
func (r *FuncReport) fail(n, pos, goal, solvers string, path []string, c *Ctx, facts []*Term) {
	r.failCount[n]++
	r.nFail++
	if f := r.fails[n]; f != nil {
		f.Count++
		return
	}
	f := &Failure{Name: n, Pos: pos, Goal: goal, Solvers: solvers, Count: 1, Path: append([]string{}, path...)}
	r.fails[n] = f
}
func (r *FuncReport) model(k string) { r.models[k] = true }
func (r *FuncReport) inl(k string)   { r.inlined[k] = true }
func (r *FuncReport) trust(k string) { r.trusts[k] = true }

func (s *Specs) newCtx() *Ctx {
	c := NewCtx()
	for k, v := range s.ufLen {
		c.ufLen[k] = v
	}
	for k, v := range s.ufRange {
		c.ufRange[k] = v
	}
	for k, v := range builtinLens {
		c.ufLen[k] = v
	}
	return c
}

func verifyFunc(w *World, specs *Specs, key string, tags map[string]bool, secs int) (rep *FuncReport) {
	t0 := time.Now()
	rep = verifyTries(w, specs, key, tags, secs, nil, time.Time{})
	if rep.Err != "" || rep.nFail > 0 {
		if r := repairProof(w, specs, key, tags, secs, rep); r != nil {
			rep = r
		}
	}
	rep.wall = time.Since(t0)
	return rep
}

func verifyTries(w *World, specs *Specs, key string, tags map[string]bool, secs int, rp *repair, end time.Time) (rep *FuncReport) {
	force := map[*ssa.BasicBlock]bool{}
	for try := 0; try < 8; try++ {
		again := false
		rep, again = verifyOnce(w, specs, key, tags, secs, force, rp, end)
		if !again {
			break
		}
	}
	return rep
}

func verifyOnce(w *World, specs *Specs, key string, tags map[string]bool, secs int, force map[*ssa.BasicBlock]bool, rp *repair, end time.Time) (rep *FuncReport, again bool) {
	con := specs.contracts[key]
	if rp != nil {
		con = rp.without()
	}
	rep = newReport(key)
	fn := w.funcs[key]
	if fn == nil || fn.Blocks == nil {
		rep.Err = "function under contract not found in the source: " + key
		return rep, false
	}
	if con.secs > 0 {
		secs = con.secs
	}
	c := specs.newCtx()
	sv := NewSolver(c, specs.axioms)
	defer sv.Close()
	x := &Exec{shared: map[int][]*VPtr{}, lent: map[int]bool{}, w: w, c: c, sv: sv, specs: specs, boxTypes: map[string]types.Type{}, con: con, rep: rep,
		forceCut: force, noteSet: map[string]bool{}, maxPaths: 6000, deadline: time.Now().Add(time.Duration(funcBudget) * time.Second), secs: secs, orig: map[int]Value{}, rp: rp}
	if rp != nil {
		if x.secs > 8 {
			x.secs = 8
		}
		if end.Before(x.deadline) {
			x.deadline = end
		}
	}
	if con.maxPaths > 0 {
		x.maxPaths = con.maxPaths
	}
	c.prover = func(t *Term) bool { return sv.Check(300, c.Not(t)) == "unsat" }
	defer func() {
		rep.queries = sv.queries
		if r := recover(); r != nil {
			switch r := r.(type) {
			case engineErr:
				rep.Err = r.msg
			case redo:
				again = true
			case specErr:
				rep.Err = r.msg
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				rep.Err = fmt.Sprintf("engine: %v", r)
			}
		}
	}()
	st := &State{heap: map[int]*Obj{}, lazyPtr: map[string]int{}, lazySlice: map[int]int{}, lazyMap: map[int]int{}, globals: map[*ssa.Global]int{}}
	if len(con.params) != len(fn.Params) {
		rep.Err = fmt.Sprintf("contract of %s names %d parameters, the source has %d", key, len(con.params), len(fn.Params))
		return rep, false
	}
	nres := fn.Signature.Results().Len()
	if len(con.results) != nres && len(con.results) != 0 {
		rep.Err = fmt.Sprintf("contract of %s names %d results, the source has %d", key, len(con.results), nres)
		return rep, false
	}
	var args []Value
	vars := map[string]Value{}
	for i, p := range fn.Params {
		v := x.fromVal(st, c.Var("p_"+con.params[i], SVal), p.Type())
		args = append(args, v)
		vars[con.params[i]] = v
		if i == 0 && fn.Signature.Recv() != nil {
			if pt, ok := v.(*VPtr); ok && pt.sym != nil {
				sv.Assert(c.Not(x.isNil(st, pt)))
			}
		}
	}
	e := x.ctxFor(con, st, st, vars)
	for _, r := range con.requires {
		sv.Assert(x.evalClause(e, r))
	}
	if sv.Check(3000) == "unsat" {
		rep.vc("requires-satisfiable")
		rep.fail("requires-satisfiable", con.file, "preconditions are contradictory", "", nil, c, nil)
		return rep, false
	}
	x.entry = st.clone()
	x.params = vars
	entryHeap := map[int]*Obj{}
	for k, v := range st.heap {
		entryHeap[k] = v
	}
	active := make([]bool, len(con.ensures))
	for i, en := range con.ensures {
		if en.callerOnly {
			continue
		}
		if len(tags) == 0 || len(en.tags) == 0 {
			active[i] = true
		}
		for _, t := range en.tags {
			if tags[t] {
				active[i] = true
			}
		}
	}
	reached := 0
	covered := make([]bool, len(con.ensures))
	x.enter(st, fn, args, nil, func(s *State, res Value) {
		x.paths++
		rep.paths++
		if x.paths > x.maxPaths {
			x.abort("path limit in %s", key)
		}
		reached++
		pv := map[string]Value{}
		for k, v := range vars {
			pv[k] = v
		}
		if len(con.results) == 1 {
			pv[con.results[0]] = res
		} else if tp, ok := res.(VTuple); ok && len(con.results) > 0 {
			for i, n := range con.results {
				pv[n] = tp[i]
			}
		}
		old := x.entry.clone()
		e := x.ctxFor(con, s, old, pv)
		for i, en := range con.ensures {
			if !active[i] {
				continue
			}
			x.rep.nsTime += 0
			t := x.evalClause(e, en)
			if !covered[i] && t != c.T {
				covered[i] = true
			} else if !covered[i] {
				covered[i] = x.anteFeasible(e, en)
			}
			if len(s.desc) > 0 && os.Getenv("GOVC_TRACE") != "" {
				fmt.Fprintln(os.Stderr, "path", strings.Join(s.desc, " ; "), "ensures", i, c.Str(t))
			}
			x.oblige(s, fmt.Sprintf("%s/ensures%d[%s]", shortFn(fn), i, strings.Join(en.tags, ",")), t, fn.Pos())
		}
		for _, n := range con.fresh {
			x.freshCheck(s, con, fn, n, pv[n])
		}
		if !con.modAny {
			x.frameCheck(s, con, vars, fn, entryHeap)
		}
	})
	x.joins()
	if reached == 0 {
		rep.vc("reachable")
		rep.fail(shortFn(fn)+"/reachable", con.file, "no path of the function reaches a return: every postcondition would hold vacuously", "", nil, c, nil)
	}
	for i := range con.ensures {
		if active[i] {
			rep.vc(fmt.Sprintf("%s/cover%d", shortFn(fn), i))
			if covered[i] {
				rep.ok("cover", "path enumeration", 0)
			} else {
				rep.fail(fmt.Sprintf("%s/cover%d", shortFn(fn), i), con.file, "the antecedent of this postcondition is unreachable: "+con.ensures[i].text, "", nil, c, nil)
			}
		}
	}
	for k, a := range con.ats {
		if !x.atSeen[a] {
			n := fmt.Sprintf("%s/at:%s%d/reached", shortFn(fn), a.event, k)
			rep.vc(n)
			rep.fail(n, con.file, "no path of the function comes to "+a.event, "", nil, c, nil)
		}
	}
	return rep, false
}

// anteFeasible: is the clause non-vacuous on this path (antecedent not refuted)?
func (x *Exec) anteFeasible(e *evalCtx, en *Clause) bool {
	call, ok := isImp(en)
	if !ok {
		return true
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); !ok {
				panic(r)
			}
		}
	}()
	a := e.boolT(call)
	return a != x.c.F && x.sv.Check(1000, a) != "unsat"
}

// frameCheck: objects that existed at entry change only where the contract allows.
func (x *Exec) frameCheck(st *State, con *Contract, vars map[string]Value, fn *ssa.Function, entry map[int]*Obj) {
	c := x.c
	name := shortFn(fn) + "/frame"
	allowed := map[int]map[int]bool{}
	ex := x.entry.clone()
	for k, o := range st.heap { // objects materialised later have the same lazy identity
		if ex.heap[k] == nil {
			ex.heap[k] = o
			if o.pre {
				if ov := x.origVal(st, entry, k); ov != nil {
					no := *o
					no.val = ov
					ex.heap[k] = &no
				}
			}
		}
	}
	for k, v := range st.lazyPtr { // also over objects old() made for itself
		ex.lazyPtr[k] = v
	}
	for k, v := range st.lazySlice { // also over objects old() made for itself
		ex.lazySlice[k] = v
	}
	for k, v := range st.lazyMap { // also over objects old() made for itself
		ex.lazyMap[k] = v
	}
	e := x.ctxFor(con, ex, ex, vars)
	allow := func(id, f int) {
		if allowed[id] == nil {
			allowed[id] = map[int]bool{}
		}
		allowed[id][f] = true
	}
	for _, m := range con.modifies {
		x.allowLV(e, m, allow)
	}
	for _, m := range con.hides {
		x.allowLV(e, m, allow)
	}
	var ids []int
	for id, o := range st.heap {
		if o.pre {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := st.heap[id]
		orig := x.origVal(st, entry, id)
		if orig == nil || sameVal(orig, o.val) || allowed[id][-1] {
			continue
		}
		so, ok1 := orig.(*VStruct)
		sn, ok2 := o.val.(*VStruct)
		if ok1 && ok2 {
			s := under(so.typ).(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if allowed[id][i] || sn.f[i] == nil || sameVal(so.f[i], sn.f[i]) {
					continue
				}
				a, b := x.toVal(st, x.field(st, so, i), s.Field(i).Type()), x.toVal(st, x.field(st, sn, i), s.Field(i).Type())
				x.oblige(st, name, c.Eq(a, b), fn.Pos())
			}
			continue
		}
		if mo, ok := orig.(*mapVal); ok {
			if mn, ok := o.val.(*mapVal); ok && mn.base == mo.base && len(mn.w) == len(mo.w) {
				continue
			}
			x.oblige(st, name, c.F, fn.Pos())
			continue
		}
		if _, ok := orig.(*ghostObj); ok {
			continue
		}
		a, b := x.toVal(st, orig, o.typ), x.toVal(st, o.val, o.typ)
		x.oblige(st, name, c.Eq(a, b), fn.Pos())
	}
}

// freshCheck: the result is nil, or allocated by the function and not reachable from older objects.
func (x *Exec) freshCheck(st *State, con *Contract, fn *ssa.Function, n string, v Value) {
	name := shortFn(fn) + "/fresh:" + n
	id := 0
	switch v := v.(type) {
	case *VPtr:
		if v.sym != nil || v.obj == 0 {
			x.oblige(st, name, x.isNil(st, v), fn.Pos())
			return
		}
		id = v.obj
	case *VSlice:
		if v.base == nil {
			return
		}
		if v.base.sym != nil {
			x.oblige(st, name, x.c.F, fn.Pos())
			return
		}
		id = v.base.obj
	default:
		x.abort("fresh %s: not a pointer or slice", n)
	}
	ok := !st.heap[id].pre
	for _, o := range st.heap {
		if ok && o.pre && refersTo(o.val, id, 0) {
			ok = false
		}
	}
	if ok {
		x.rep.vc(name)
		x.rep.ok(name, "simplifier", 0)
		return
	}
	x.oblige(st, name, x.c.F, fn.Pos())
}

func refersTo(v Value, id, d int) bool {
	if d > 8 {
		return false
	}
	switch v := v.(type) {
	case *VPtr:
		return v.sym == nil && v.obj == id
	case *VSlice:
		return v.base != nil && refersTo(v.base, id, d+1)
	case *VStruct:
		for _, f := range v.f {
			if f != nil && refersTo(f, id, d+1) {
				return true
			}
		}
	case *VArr:
		for _, f := range v.e {
			if refersTo(f, id, d+1) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) origVal(st *State, entry map[int]*Obj, id int) Value {
	if o := entry[id]; o != nil {
		return o.val
	}
	if v, ok := x.orig[id]; ok {
		return v
	}
	return nil
}

func sameVal(a, b Value) bool {
	if a == b {
		return true
	}
	switch av := a.(type) {
	case *VStruct:
		bv, ok := b.(*VStruct)
		if !ok || av.sym != bv.sym || len(av.f) != len(bv.f) {
			return false
		}
		for i := range av.f {
			if av.f[i] != nil && bv.f[i] != nil && !sameVal(av.f[i], bv.f[i]) {
				return false
			}
			if (av.f[i] == nil) != (bv.f[i] == nil) && bv.f[i] != nil {
				return false
			}
		}
		return true
	case *VSeq:
		bv, ok := b.(*VSeq)
		return ok && av.base == bv.base && len(av.w) == len(bv.w)
	case *VPtr:
		bv, ok := b.(*VPtr)
		return ok && av.sym == bv.sym && av.obj == bv.obj && len(av.path) == len(bv.path) && len(av.path) == 0
	case *VSlice:
		bv, ok := b.(*VSlice)
		return ok && av.off == bv.off && av.len == bv.len && av.nilT == bv.nilT && (av.base == bv.base || av.base != nil && bv.base != nil && sameVal(av.base, bv.base))
	case *VIface:
		bv, ok := b.(*VIface)
		return ok && av.sym != nil && av.sym == bv.sym
	case *VMap:
		bv, ok := b.(*VMap)
		return ok && av.sym == bv.sym && av.obj == bv.obj
	case *VFunc:
		bv, ok := b.(*VFunc)
		return ok && av.sym == bv.sym && av.sym != nil
	case *VArr:
		bv, ok := b.(*VArr)
		if !ok || len(av.e) != len(bv.e) {
			return false
		}
		for i := range av.e {
			if !sameVal(av.e[i], bv.e[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// ---------- property runs ----------

var funcBudget = 240

type RunResult struct {
	reports []*FuncReport
	wall    time.Duration
}

func runFuncs(w *World, specs *Specs, keys []string, tags map[string]bool, secs int, closure bool) *RunResult {
	t0 := time.Now()
	full := map[string]bool{} // verified with every clause
	res := map[string]*FuncReport{}
	work := keys
	for len(work) > 0 {
		var wg sync.WaitGroup
		reps := make([]*FuncReport, len(work))
		sem := make(chan struct{}, 7)
		for i, k := range work {
			wg.Add(1)
			go func(i int, k string) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				reps[i] = verifyFunc(w, specs, k, tags, secs)
			}(i, k)
		}
		wg.Wait()
		for i, k := range work {
			res[k] = reps[i]
			if len(tags) == 0 || specs.allTagged(k, tags) {
				full[k] = true
			}
		}
		var next []string
		seen := map[string]bool{}
		for _, r := range res {
			for k := range r.uses {
				c := specs.contracts[k]
				if c != nil && !c.trusted && !full[k] && !seen[k] {
					seen[k] = true
					next = append(next, k)
				}
			}
		}
		sort.Strings(next)
		work = next
		// callee contracts are relied on as a whole, so they are verified as a whole
		tags = nil
		if !closure {
			break
		}
	}
	var all []*FuncReport
	for _, r := range res {
		all = append(all, r)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Key < all[j].Key })
	return &RunResult{all, time.Since(t0)}
}

// allTagged: every postcondition of k is selected by tags.
func (s *Specs) allTagged(k string, tags map[string]bool) bool {
	for _, e := range s.contracts[k].ensures {
		ok := len(e.tags) == 0
		for _, t := range e.tags {
			ok = ok || tags[t]
		}
		if !ok {
			return false
		}
	}
	return true
}
