package main

// Statement contracts: "cut E: inv" in the contract of a function states what holds
// whenever control reaches the call that emits event E. Every path that reaches the call
// proves the clauses there and stops; verification goes on once, from a state that knows
// only what all those paths have in common and the clauses.

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type suspended struct {
	st    *State
	facts []*Term
	d, i  int
	b     *ssa.BasicBlock
	event string
}

type cutSpec struct {
	event string
	invs  []*Clause
	keeps []letDef
}

// cutHere suspends the path in front of a call named by a cut clause.
func (x *Exec) cutHere(st *State, d int, b *ssa.BasicBlock, i int, in *ssa.Call) bool {
	if len(x.con.cuts) == 0 || len(x.discs) > 0 || x.entry == nil {
		return false
	}
	ev := x.callEvent(&in.Call)
	if ev == "" || st.cuts[ev] {
		return false
	}
	for _, cs := range x.con.cuts {
		if cs.event != ev {
			continue
		}
		for _, f := range st.frames {
			for _, l := range f.loops {
				if l != nil {
					x.abort("cut %s inside a loop", ev)
				}
			}
		}
		for k, inv := range cs.invs {
			x.obligeHint(st, inv, fmt.Sprintf("%s/cut:%s.inv%d%s", shortFn(st.frames[0].fn), ev, k, inv.tagStr()), x.evalInv(st, 0, inv), in.Pos())
		}
		x.susp = append(x.susp, &suspended{st.clone(), x.sv.Facts(), d, i, b, ev})
		return true
	}
	return false
}

// callEvent is the event of the contract of the callee.
func (x *Exec) callEvent(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		if n, ok := cc.Value.Type().(*types.Named); ok {
			if con := x.specs.contracts["("+typeKeyFull(n)+")."+cc.Method.Name()]; con != nil {
				return con.event
			}
		}
		return ""
	}
	if f, ok := cc.Value.(*ssa.Function); ok {
		if con := x.specs.contracts[calleeKey(f)]; con != nil {
			return con.event
		}
	}
	return ""
}

func typeKeyFull(n *types.Named) string {
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

// joins continues the suspended paths, joined.
func (x *Exec) joins() {
	for len(x.susp) > 0 {
		first := x.susp[0]
		var grp, rest []*suspended
		for _, s := range x.susp {
			if s.b == first.b && s.i == first.i && s.event == first.event && len(s.st.frames) == len(first.st.frames) {
				grp = append(grp, s)
			} else {
				rest = append(rest, s)
			}
		}
		x.susp = rest
		if os.Getenv("GOVC_CUTS") != "" {
			fmt.Fprintf(os.Stderr, "cut %s: %d paths\n", first.event, len(grp))
		}
		x.sv.Push()
		st := x.join(grp)
		for _, cs := range x.con.cuts {
			if cs.event == first.event {
				for _, inv := range cs.invs {
					x.assume(st, x.evalInv(st, 0, inv))
				}
				for _, k := range cs.keeps {
					m := map[string]Value{}
					for n, v := range st.kept {
						m[n] = v
					}
					m[k.name] = x.evalInvV(st, 0, k.e)
					st.kept = m
				}
			}
		}
		x.note("cut", fmt.Sprintf("%d paths joined before %s in %s", len(grp), first.event, shortFn(st.frames[0].fn)))
		x.run(st, first.d, first.b, first.i)
		x.sv.Pop()
	}
}

func sameJ(a, b Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if _, ok := a.(VTuple); !ok {
		if _, ok := b.(VTuple); ok {
			return false
		}
		if a == b {
			return true
		}
	}
	switch av := a.(type) {
	case *Term:
		return false
	case VTuple:
		bv, ok := b.(VTuple)
		if !ok || len(av) != len(bv) {
			return false
		}
		for i := range av {
			if !sameJ(av[i], bv[i]) {
				return false
			}
		}
		return true
	case *VPtr:
		bv, ok := b.(*VPtr)
		if !ok || av.sym != bv.sym || av.obj != bv.obj || len(av.path) != len(bv.path) {
			return false
		}
		for i := range av.path {
			if av.path[i] != bv.path[i] {
				return false
			}
		}
		return true
	case *VSlice:
		bv, ok := b.(*VSlice)
		return ok && av.off == bv.off && av.len == bv.len && av.cap == bv.cap && av.nilT == bv.nilT && (av.base == bv.base || av.base != nil && bv.base != nil && sameJ(av.base, bv.base))
	case *VIface:
		bv, ok := b.(*VIface)
		if !ok {
			return false
		}
		if av.sym != nil || bv.sym != nil {
			return av.sym == bv.sym
		}
		return av.typ == bv.typ && sameJ(av.v, bv.v)
	case *VFunc:
		bv, ok := b.(*VFunc)
		if !ok || av.sym != bv.sym || av.fn != bv.fn || len(av.binds) != len(bv.binds) {
			return false
		}
		for i := range av.binds {
			if !sameJ(av.binds[i], bv.binds[i]) {
				return false
			}
		}
		return true
	case *VStruct:
		bv, ok := b.(*VStruct)
		if !ok || av.sym != bv.sym || len(av.f) != len(bv.f) {
			return false
		}
		for i := range av.f {
			if !sameJ(av.f[i], bv.f[i]) {
				return false
			}
		}
		return true
	case *VSeq:
		bv, ok := b.(*VSeq)
		return ok && av.base == bv.base && av.n == bv.n && len(av.w) == 0 && len(bv.w) == 0
	case *mapVal:
		bv, ok := b.(*mapVal)
		return ok && av.base == bv.base && len(av.w) == 0 && len(bv.w) == 0
	}
	return sameVal(a, b)
}

// joinVal is a value all of vs are instances of.
func (x *Exec) joinVal(st *State, vs []Value, T types.Type, from []*State) Value {
	same := true
	for _, v := range vs[1:] {
		if !sameJ(vs[0], v) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	switch v0 := vs[0].(type) {
	case *VStruct:
		s, ok := under(v0.typ).(*types.Struct)
		if !ok {
			break
		}
		r := v0
		for i := 0; i < s.NumFields(); i++ {
			var fs []Value
			allNil := true
			for k, v := range vs {
				sv, ok := v.(*VStruct)
				if !ok {
					return x.havocVal(st, T, "join")
				}
				if sv.f[i] != nil || sv.sym != v0.sym {
					allNil = false
				}
				_ = k
			}
			if allNil {
				continue
			}
			for k, v := range vs {
				fs = append(fs, x.field(from[k], v.(*VStruct), i))
			}
			r = r.with(i, x.joinVal(st, fs, s.Field(i).Type(), from))
		}
		return r
	case *ghostObj:
		g := &ghostObj{kind: v0.kind, f: map[string]Value{}}
		for k, fv := range v0.f {
			var fs []Value
			eq := true
			for _, v := range vs {
				o, ok := v.(*ghostObj)
				if !ok || o.kind != v0.kind || o.f[k] == nil {
					x.abort("cut: model objects differ")
				}
				fs = append(fs, o.f[k])
				if !sameJ(o.f[k], fv) {
					eq = false
				}
			}
			if eq {
				g.f[k] = fv
			} else if t, ok := fv.(*Term); ok {
				g.f[k] = x.fresh("j_"+k, t.sort)
			} else {
				x.abort("cut: model objects differ")
			}
		}
		return g
	case *mapVal:
		return &mapVal{base: x.fresh("map", SVal), typ: v0.typ}
	case *VArr:
		r := &VArr{elem: v0.elem}
		for i := range v0.e {
			var es []Value
			for _, v := range vs {
				a, ok := v.(*VArr)
				if !ok || len(a.e) != len(v0.e) {
					x.abort("cut: arrays differ in length")
				}
				es = append(es, a.e[i])
			}
			r.e = append(r.e, x.joinVal(st, es, v0.elem, from))
		}
		return r
	case *VSeq:
		for _, v := range vs {
			if s, ok := v.(*VSeq); !ok || s.n != v0.n {
				x.abort("cut: sequences differ in length")
			}
		}
		return &VSeq{elem: v0.elem, base: x.fresh("seq", SVal), n: v0.n}
	case *Term:
		if v0.sort == SBytes && T != nil && isByteSlice(T) { // a backing array
			return x.fresh("join", SBytes)
		}
	}
	if T == nil {
		x.abort("cut: cannot join %T", vs[0])
	}
	return x.havocVal(st, T, "join")
}

func (x *Exec) changed(st *State, id int) bool {
	o := st.heap[id]
	if o == nil || !o.pre {
		return true
	}
	ov, ok := x.orig[id]
	return !ok || !sameJ(ov, o.val)
}

func (x *Exec) join(grp []*suspended) *State {
	n := grp[0].st.clone()
	states := make([]*State, len(grp))
	for i, g := range grp {
		states[i] = g.st
	}
	// facts known on every path
	base := map[*Term]bool{}
	for _, t := range x.sv.Facts() {
		base[t] = true
	}
	cnt := map[*Term]int{}
	for _, g := range grp {
		seen := map[*Term]bool{}
		for _, t := range g.facts {
			if !seen[t] {
				seen[t] = true
				cnt[t]++
			}
		}
	}
	for _, t := range grp[0].facts {
		if cnt[t] == len(grp) && !base[t] {
			base[t] = true
			x.sv.Assert(t)
		}
	}
	if len(grp) == 1 {
		n.cuts = withCut(n.cuts, grp[0].event)
		return n
	}
	// lazily created objects
	lazy := func(what string, keys func(*State) map[string]int, drop func(k string), stale bool) {
		all := map[string]bool{}
		for _, s := range states {
			for k := range keys(s) {
				all[k] = true
			}
		}
		var ks []string
		for k := range all {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			id, ok := keys(states[0])[k]
			common := ok
			for _, s := range states[1:] {
				if id2, ok := keys(s)[k]; !ok || id2 != id {
					common = false
				}
			}
			if common {
				continue
			}
			ch := false
			for _, s := range states {
				if id, ok := keys(s)[k]; ok && x.changed(s, id) {
					ch = true
				}
			}
			drop(k)
			if ch {
				if !stale {
					x.abort("cut: %s changed on one of the paths only", what)
				}
				if n.stale == nil {
					n.stale = map[string]bool{}
				}
				n.stale[k] = true
			}
		}
	}
	lazy("object", func(s *State) map[string]int { return s.lazyPtr }, func(k string) { delete(n.lazyPtr, k) }, true)
	conv := func(m map[int]int) map[string]int {
		r := map[string]int{}
		for k, v := range m {
			r[fmt.Sprint(k)] = v
		}
		return r
	}
	del := func(m map[int]int) func(string) {
		return func(k string) {
			for i := range m {
				if fmt.Sprint(i) == k {
					delete(m, i)
				}
			}
		}
	}
	lazy("slice", func(s *State) map[string]int { return conv(s.lazySlice) }, del(n.lazySlice), false)
	lazy("map", func(s *State) map[string]int { return conv(s.lazyMap) }, del(n.lazyMap), false)
	for g := range n.globals {
		_ = g
	}
	gl := map[*ssa.Global]bool{}
	for _, s := range states {
		for g := range s.globals {
			gl[g] = true
		}
	}
	for g := range gl {
		id, ok := states[0].globals[g]
		common := ok
		for _, s := range states[1:] {
			if id2, ok := s.globals[g]; !ok || id2 != id {
				common = false
			}
		}
		if common {
			continue
		}
		for _, s := range states {
			if id, ok := s.globals[g]; ok && s.heap[id].pre && x.changed(s, id) {
				x.abort("cut: global %s changed on one of the paths only", g.Name())
			}
		}
		delete(n.globals, g)
	}
	// heap
	var ids []int
	for id := range n.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := n.heap[id]
		common, same := true, true
		vs := make([]Value, len(states))
		for i, s := range states {
			so := s.heap[id]
			if so == nil {
				common = false
				break
			}
			vs[i] = so.val
			if so != o && !sameJ(so.val, o.val) {
				same = false
			}
		}
		if !common {
			delete(n.heap, id)
			continue
		}
		if same {
			continue
		}
		no := *o
		no.val = x.joinVal(n, vs, o.typ, states)
		n.heap[id] = &no
	}
	// frames
	for k, f := range n.frames {
		for _, s := range states[1:] {
			sf := s.frames[k]
			if sf.fn != f.fn || len(sf.defers) != len(f.defers) {
				x.abort("cut: call stacks differ")
			}
		}
		old := f.env
		f.env = map[ssa.Value]Value{}
		joined := map[ssa.Value]bool{}
		for v := range old {
			vs := make([]Value, len(states))
			ok := true
			for i, s := range states {
				vs[i] = s.frames[k].env[v]
				if vs[i] == nil {
					ok = false
				}
			}
			if !ok {
				continue
			}
			if refs := v.Referrers(); refs != nil && len(*refs) == 0 {
				continue
			}
			same := true
			for _, w := range vs[1:] {
				if !sameJ(vs[0], w) {
					same = false
				}
			}
			if same {
				f.env[v] = vs[0]
				continue
			}
			if _, ok := vs[0].(VTuple); ok {
				f.env[v] = x.havocVal(n, v.Type(), "join")
			} else {
				f.env[v] = x.joinVal(n, vs, v.Type(), states)
			}
			joined[v] = true
		}
		names := map[string]Value{}
		for nm, v0 := range f.names {
			ok, same := true, true
			for _, s := range states[1:] {
				w, has := s.frames[k].names[nm]
				if !has {
					ok = false
					break
				}
				if !sameJ(v0, w) {
					same = false
				}
			}
			if !ok {
				continue
			}
			if same {
				names[nm] = v0
				continue
			}
			for v := range joined {
				m := true
				for _, s := range states {
					if !sameJ(s.frames[k].env[v], s.frames[k].names[nm]) {
						m = false
						break
					}
				}
				if m {
					names[nm] = f.env[v]
					break
				}
			}
		}
		f.names = names
	}
	// events
	p := 0
	for {
		ok := true
		for _, s := range states {
			if p >= len(s.trace) || p >= len(states[0].trace) {
				ok = false
				break
			}
			a, b := states[0].trace[p], s.trace[p]
			if a.name != b.name || len(a.args) != len(b.args) || a.loop != nil && len(a.loop) != len(b.loop) || len(a.args) > 0 && &a.args[0] != &b.args[0] {
				ok = false
				break
			}
		}
		if !ok {
			break
		}
		p++
	}
	taint := map[string]bool{}
	for _, s := range states {
		for _, ev := range s.trace[p:] {
			if ev.loop != nil {
				for e := range ev.loop {
					taint[e] = true
				}
			} else {
				taint[ev.name] = true
			}
		}
	}
	n.trace = append([]Event{}, states[0].trace[:p]...)
	if len(taint) > 0 {
		n.trace = append(n.trace, Event{name: "*cut", loop: taint})
	}
	// channels and goroutines
	for _, s := range states[1:] {
		if len(s.gos) != len(n.gos) || len(s.chans) != len(n.chans) {
			x.abort("cut: goroutines differ")
		}
		for i := range n.gos {
			if s.gos[i].call != n.gos[i].call || !sameJ(VTuple(s.gos[i].args), VTuple(n.gos[i].args)) {
				x.abort("cut: goroutines differ")
			}
		}
		for k, c := range n.chans {
			if o := s.chans[k]; o == nil || !sameJ(VTuple(o.queue), VTuple(c.queue)) {
				x.abort("cut: channels differ")
			}
		}
	}
	n.desc = []string{fmt.Sprintf("join of %d paths before %s", len(grp), grp[0].event)}
	n.cuts = withCut(n.cuts, grp[0].event)
	return n
}

func withCut(m map[string]bool, e string) map[string]bool {
	r := map[string]bool{e: true}
	for k := range m {
		r[k] = true
	}
	return r
}
