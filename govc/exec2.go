package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func exprIdent(e ast.Expr) string {
	if id, ok := e.(*ast.Ident); ok {
		return id.Name
	}
	return ""
}

func (x *Exec) checkPtr(st *State, p *VPtr, pos token.Pos) {
	x.mayPanic(st, "nil", x.c.Not(x.isNil(st, p)), pos)
}

// simple executes non-branching, non-call instructions.
func (x *Exec) simple(st *State, d int, in ssa.Instruction) {
	c := x.c
	fr := st.frames[d]
	set := func(v ssa.Value, r Value) { fr.env[v] = r }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		id := x.newObjIn(st, x.zero(st, t), t, in.Comment)
		p := &VPtr{obj: id, elem: t}
		set(in, p)
		if in.Comment != "" {
			fr.names["&"+in.Comment] = p
		}
	case *ssa.BinOp:
		set(in, x.binop(st, in.Op, x.val(st, d, in.X), x.val(st, d, in.Y), in.X.Type(), in.Y.Type(), in.Type(), in.Pos()))
	case *ssa.UnOp:
		v := x.val(st, d, in.X)
		switch in.Op {
		case token.MUL:
			p := v.(*VPtr)
			x.checkPtr(st, p, in.Pos())
			set(in, x.settle(x.load(st, p)))
		case token.NOT:
			set(in, c.Not(v.(*Term)))
		case token.SUB:
			if isFloat(in.Type()) {
				set(in, c.UF("fneg", SVal, v.(*Term)))
				return
			}
			set(in, x.wrap(c.Sub(c.Int(0), v.(*Term)), in.Type()))
		case token.XOR:
			bits, signed := x.typeBits(in.Type())
			if signed {
				set(in, c.Sub(c.Int(-1), v.(*Term)))
			} else {
				m := new(big.Int).Sub(new(big.Int).Lsh(bigOne, bits), bigOne)
				set(in, c.Sub(c.Big(m), v.(*Term)))
			}
		case token.ARROW:
			x.note("channel receive", shortFn(fr.fn))
			if in.CommaOk {
				tp := in.Type().(*types.Tuple)
				set(in, VTuple{x.havocVal(st, tp.At(0).Type(), "recv"), x.fresh("recvok", SBool)})
			} else {
				set(in, x.havocVal(st, in.Type(), "recv"))
			}
		default:
			x.abort("unop %v", in.Op)
		}
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var X ssa.Value
		if ct, ok := in.(*ssa.ChangeType); ok {
			X = ct.X
			r := x.val(st, d, X)
			if sv, ok := r.(*VStruct); ok {
				n := &VStruct{typ: ct.Type(), f: make([]Value, len(sv.f))}
				for i := range sv.f {
					n.f[i] = x.field(st, sv, i)
				}
				r = n
			}
			set(ct, r)
			return
		}
		X = in.(*ssa.ChangeInterface).X
		set(in.(ssa.Value), x.val(st, d, X))
	case *ssa.Convert:
		set(in, x.convert(st, x.val(st, d, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		set(in, x.convert(st, x.val(st, d, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeInterface:
		set(in, &VIface{typ: in.X.Type(), v: x.val(st, d, in.X)})
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range in.Bindings {
			bs = append(bs, x.val(st, d, b))
		}
		set(in, &VFunc{fn: in.Fn.(*ssa.Function), binds: bs})
	case *ssa.MakeMap:
		mt := under(in.Type()).(*types.Map)
		id := x.newObjIn(st, &mapVal{typ: mt}, in.Type(), "map")
		set(in, &VMap{obj: id, typ: mt})
	case *ssa.MakeChan:
		r := x.fresh("chan", SVal)
		x.fact(st, c.Not(c.UF("isnil", SBool, r)))
		if n, ok := x.val(st, d, in.Size).(*Term); ok && n.isInt() && n.I64() > 0 {
			if st.chans == nil {
				st.chans = map[*Term]*chanState{}
			}
			st.chans[r] = &chanState{cap: n.I64()}
		}
		set(in, r)
	case *ssa.MakeSlice:
		n := x.val(st, d, in.Len).(*Term)
		cp := x.val(st, d, in.Cap).(*Term)
		x.mayPanic(st, "makeslice", c.And(c.Le(c.Int(0), n), c.Le(n, cp)), in.Pos())
		et := under(in.Type()).(*types.Slice).Elem()
		var v Value
		if isByteT(et) {
			v = c.Zeros(cp)
		} else if cp.isInt() && cp.I64() <= 256 && cp.I64() >= 0 {
			a := &VArr{elem: et}
			for k := int64(0); k < cp.I64(); k++ {
				a.e = append(a.e, x.zero(st, et))
			}
			v = a
		} else {
			base := x.zeroSeq(st, et)
			v = &VSeq{elem: et, base: base, n: cp}
		}
		id := x.newObjIn(st, v, in.Type(), "make")
		set(in, &VSlice{nilT: c.F, base: &VPtr{obj: id, elem: in.Type()}, off: c.Int(0), len: n, cap: cp, elem: et})
	case *ssa.FieldAddr:
		p := x.val(st, d, in.X).(*VPtr)
		x.checkPtr(st, p, in.Pos())
		p = x.resolve(st, p)
		ft := in.Type().(*types.Pointer).Elem()
		set(in, &VPtr{obj: p.obj, path: append(append([]PE{}, p.path...), PE{f: in.Field}), elem: ft})
	case *ssa.Field:
		switch sv := x.val(st, d, in.X).(type) {
		case *VStruct:
			set(in, x.field(st, sv, in.Field))
		case *Term:
			set(in, x.havocVal(st, in.Type(), "fld"))
		}
	case *ssa.IndexAddr:
		i := x.val(st, d, in.Index).(*Term)
		et := in.Type().(*types.Pointer).Elem()
		switch b := x.val(st, d, in.X).(type) {
		case *VSlice:
			x.mayPanic(st, "bounds", c.And(c.Le(c.Int(0), i), c.Lt(i, b.len)), in.Pos())
			if b.base == nil {
				set(in, &VPtr{sym: x.fresh("badidx", SVal), elem: et})
				return
			}
			set(in, &VPtr{obj: b.base.obj, path: append(append([]PE{}, b.base.path...), PE{idx: c.Add(b.off, i)}), elem: et})
		case *VPtr: // pointer to array
			x.checkPtr(st, b, in.Pos())
			n := under(b.elem).(*types.Array).Len()
			x.mayPanic(st, "bounds", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(n))), in.Pos())
			b = x.resolve(st, b)
			set(in, &VPtr{obj: b.obj, path: append(append([]PE{}, b.path...), PE{idx: i}), elem: et})
		default:
			x.abort("indexaddr %T", b)
		}
	case *ssa.Index:
		i := x.val(st, d, in.Index).(*Term)
		a := x.val(st, d, in.X)
		var n *Term
		if at, ok := under(in.X.Type()).(*types.Array); ok {
			n = c.Int(at.Len())
		} else {
			n = c.Len(a.(*Term))
		}
		x.mayPanic(st, "bounds", c.And(c.Le(c.Int(0), i), c.Lt(i, n)), in.Pos())
		set(in, x.elemAt(st, a, i, in.Type()))
	case *ssa.Slice:
		set(in, x.slice(st, d, in))
	case *ssa.Store:
		p := x.val(st, d, in.Addr).(*VPtr)
		x.checkPtr(st, p, in.Pos())
		v := x.val(st, d, in.Val)
		if g, ok := in.Addr.(*ssa.Global); ok {
			x.emitEv(st, Event{name: "global:" + g.Pkg.Pkg.Path() + "." + g.Name()})
		}
		x.store(st, p, v)
	case *ssa.MapUpdate:
		m := x.val(st, d, in.Map).(*VMap)
		x.mayPanic(st, "nilmap", c.Not(x.isNil(st, m)), in.Pos())
		k := x.toVal(st, x.val(st, d, in.Key), m.typ.Key())
		x.mapSet(st, m, k, x.val(st, d, in.Value))
	case *ssa.Lookup:
		if m, ok := x.val(st, d, in.X).(*VMap); ok {
			k := x.toVal(st, x.val(st, d, in.Index), m.typ.Key())
			ok, v := x.mapGet(st, m, k)
			if in.CommaOk {
				set(in, VTuple{v, ok})
			} else {
				set(in, v)
			}
			return
		}
		s := x.val(st, d, in.X).(*Term)
		i := x.val(st, d, in.Index).(*Term)
		x.mayPanic(st, "bounds", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Len(s))), in.Pos())
		set(in, c.At(s, i))
	case *ssa.Extract:
		t := x.val(st, d, in.Tuple)
		tp, ok := t.(VTuple)
		if !ok {
			x.abort("extract from %T", t)
		}
		set(in, tp[in.Index])
	case *ssa.TypeAssert:
		x.typeAssert(st, d, in)
	case *ssa.Range:
		v := x.val(st, d, in.X)
		g := &ghostObj{kind: "range", f: map[string]Value{"over": v, "pos": c.Int(0), "vis": c.UF("K_emptyset", SVal)}}
		if m, ok := v.(*VMap); ok && !(m.sym == nil && m.obj == 0) {
			g.f["snap"] = &rangeSnap{st.heap[x.mapObj(st, m)].val.(*mapVal)}
		}
		set(in, &VPtr{obj: x.newObjIn(st, g, nil, "range")})
	case *ssa.Next:
		it := x.val(st, d, in.Iter).(*VPtr)
		g := st.heap[it.obj].val.(*ghostObj)
		ok := x.fresh("nextok", SBool)
		if m, isM := g.f["over"].(*VMap); isM {
			kv := x.havocVal(st, m.typ.Key(), "key")
			kt := x.toVal(st, kv, m.typ.Key())
			dom, v := x.mapGet(st, m, kt)
			vis := g.f["vis"].(*Term)
			x.fact(st, c.Imp(ok, c.And(dom, c.Not(c.inSet(vis, kt)))))
			if m.sym == nil && m.obj == 0 {
				x.fact(st, c.Not(ok))
			} else if sn, isS := g.f["snap"].(*rangeSnap); isS && sameMap(sn.m, st.heap[x.mapObj(st, m)].val.(*mapVal)) {
				// the map did not change: the iteration ends when every key was visited
				bk := c.FreshBound("k", SVal)
				bt := x.toVal(st, x.fromVal(st, bk, m.typ.Key()), m.typ.Key())
				bd, _ := x.mapGet(st, m, bt)
				x.fact(st, c.Imp(c.Not(ok), c.Forall([]*Term{bk}, c.Imp(bd, c.inSet(vis, bt)))))
				// pos counts the visited keys
				n, pos := x.mapLen(st, m), g.f["pos"].(*Term)
				x.fact(st, c.And(c.Le(c.Int(0), pos), c.Le(pos, n), c.Eq(ok, c.Lt(pos, n))))
			}
			x.noteWriteObj(st, it.obj, -1)
			x.ghostSet(st, it.obj, "pos", c.Ite(ok, c.AddK(g.f["pos"].(*Term), 1), g.f["pos"].(*Term)))
			x.ghostSet(st, it.obj, "vis", c.Ite(ok, c.UF("K_setadd", SVal, vis, kt), vis))
			set(in, VTuple{ok, kv, v})
			return
		}
		s := g.f["over"].(*Term)
		i := g.f["pos"].(*Term)
		r := x.fresh("rune", SInt)
		w := x.fresh("width", SInt)
		x.fact(st, c.Le(c.Int(0), i))
		x.fact(st, c.Le(i, c.Len(s)))
		x.fact(st, c.Eq(ok, c.Lt(i, c.Len(s))))
		x.fact(st, c.And(c.Le(c.Int(0), r), c.Le(r, c.Int(0x10ffff)), c.Le(c.Int(1), w), c.Le(w, c.Int(4))))
		ascii := c.Lt(c.At(s, i), c.Int(128))
		x.fact(st, c.Imp(c.And(ok, ascii), c.And(c.Eq(r, c.At(s, i)), c.Eq(w, c.Int(1)))))
		x.fact(st, c.Imp(c.And(ok, c.Not(ascii)), c.And(c.Le(c.Int(128), r), c.Le(c.Add(i, w), c.Len(s)))))
		x.noteWriteObj(st, it.obj, -1)
		x.ghostSet(st, it.obj, "pos", c.Ite(ok, c.Add(i, w), i))
		set(in, VTuple{ok, i, r})
	case *ssa.SliceToArrayPointer:
		s := x.val(st, d, in.X).(*VSlice)
		at := in.Type().(*types.Pointer).Elem()
		n := under(at).(*types.Array).Len()
		x.mayPanic(st, "bounds", c.Le(c.Int(n), s.len), in.Pos())
		// copy semantics: aliasing with the slice is not modelled
		b := x.sliceBytes(st, s)
		id := x.newObjIn(st, c.SubB(b, c.Int(0), c.Int(n)), at, "s2a")
		set(in, &VPtr{obj: id, elem: at})
	case *ssa.Send:
		x.note("channel send", shortFn(fr.fn))
	case *ssa.Select:
		x.note("select", shortFn(fr.fn))
		tp := in.Type().(*types.Tuple)
		r := x.havocVal(st, tp, "select").(VTuple)
		if idx, ok := r[0].(*Term); ok {
			lo := int64(0)
			if !in.Blocking {
				lo = -1
			}
			x.fact(st, c.And(c.Le(c.Int(lo), idx), c.Lt(idx, c.Int(int64(len(in.States))))))
		}
		set(in, r)
	default:
		x.abort("instruction %T in %s", in, fr.fn)
	}
}

func (x *Exec) zeroSeq(st *State, et types.Type) *Term {
	c := x.c
	base := x.fresh("zeroseq", SVal)
	j := c.FreshBound("j", SInt)
	e := c.UF("elem", SVal, base, j)
	var body *Term
	switch {
	case isInteger(et):
		body = c.Eq(c.UF("vI", SInt, e), c.Int(0))
	case isBoolT(et):
		body = c.Not(c.UF("vB", SBool, e))
	case isString(et):
		body = c.rawEq(c.UF("vS", SBytes, e), c.Empty())
	case isByteArray(et):
		body = c.rawEq(c.UF("vS", SBytes, e), c.Zeros(c.Int(under(et).(*types.Array).Len())))
	default:
		switch under(et).(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
			body = c.And(c.UF("isnil", SBool, e))
		default:
			return base
		}
	}
	x.sv.Assert(c.Forall([]*Term{j}, body))
	return base
}

func (x *Exec) slice(st *State, d int, in *ssa.Slice) Value {
	c := x.c
	lo := c.Int(0)
	if in.Low != nil {
		lo = x.val(st, d, in.Low).(*Term)
	}
	var hi, mx *Term
	if in.High != nil {
		hi = x.val(st, d, in.High).(*Term)
	}
	if in.Max != nil {
		mx = x.val(st, d, in.Max).(*Term)
	}
	switch b := x.val(st, d, in.X).(type) {
	case *Term: // string
		L := c.Len(b)
		if hi == nil {
			hi = L
		}
		x.mayPanic(st, "bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, L)), in.Pos())
		return c.SubB(b, lo, hi)
	case *VSlice:
		if hi == nil {
			hi = b.len
		}
		lim := b.cap
		if mx != nil {
			x.mayPanic(st, "bounds", c.And(c.Le(hi, mx), c.Le(mx, b.cap)), in.Pos())
			lim = mx
		}
		if c.Le(hi, b.len) == c.T || x.c.holds(c.Le(hi, b.len)) {
			lim = hi // sufficient
			if c.Le(hi, b.len) != c.T {
				lim = b.len
			}
		}
		x.mayPanic(st, "bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, lim)), in.Pos())
		cp := b.cap
		if mx != nil {
			cp = mx
		}
		cut := b.cut
		if in.High != nil && b.base != nil {
			cut = b.base.sym != nil || st.heap[b.base.obj].pre
			cut = cut && mx == nil && !c.holds(c.Le(b.len, hi))
		}
		return &VSlice{nilT: b.nilT, base: b.base, off: c.Add(b.off, lo), len: c.Sub(hi, lo), cap: c.Sub(cp, lo), elem: b.elem, cut: cut}
	case *VPtr: // *array
		x.checkPtr(st, b, in.Pos())
		at := under(b.elem).(*types.Array)
		b = x.resolve(st, b)
		n := c.Int(at.Len())
		if hi == nil {
			hi = n
		}
		x.mayPanic(st, "bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), in.Pos())
		if mx == nil {
			mx = n
		}
		return &VSlice{nilT: c.F, base: b, off: lo, len: c.Sub(hi, lo), cap: c.Sub(mx, lo), elem: at.Elem()}
	default:
		x.abort("slice of %T", b)
	}
	return nil
}

func (x *Exec) typeAssert(st *State, d int, in *ssa.TypeAssert) {
	c := x.c
	fr := st.frames[d]
	v, isI := x.val(st, d, in.X).(*VIface)
	if !isI {
		x.abort("typeassert on %T", x.val(st, d, in.X))
	}
	T := in.AssertedType
	var ok *Term
	var r Value
	if isIface(T) {
		if v.sym == nil {
			if v.typ == nil {
				ok = c.F
			} else {
				ok = c.Bool(types.Implements(v.typ, under(T).(*types.Interface)))
			}
		} else {
			ok = c.And(c.Not(x.isNil(st, v)), c.UF("impl:"+typeKey(T), SBool, v.sym))
		}
		r = v
		if in.CommaOk && ok == c.F {
			r = &VIface{}
		}
	} else {
		if v.sym == nil {
			if v.typ == nil {
				ok = c.F
				r = x.zero(st, T)
			} else if types.Identical(v.typ, T) {
				ok, r = c.T, v.v
			} else {
				ok, r = c.F, x.zero(st, T)
			}
		} else {
			k := "K_box:" + typeKey(T)
			x.boxTypes[k] = T
			payload := c.UF("unbox:"+typeKey(T), SVal, v.sym)
			ok = c.Eq(v.sym, c.UF(k, SVal, payload))
			r = x.fromVal(st, payload, T)
		}
	}
	if in.CommaOk {
		if !isIface(T) && ok != c.T && ok != c.F {
			r = x.iteV(st, ok, r, x.zero(st, T), T)
		}
		fr.env[in] = VTuple{r, ok}
		return
	}
	x.mayPanic(st, "typeassert", ok, in.Pos())
	fr.env[in] = r
}

// ---------- maps ----------

func (x *Exec) mapObj(st *State, m *VMap) int {
	if m.sym == nil {
		return m.obj
	}
	id, ok := st.lazyMap[m.sym.id]
	if !ok {
		id = x.newObjIn(st, &mapVal{base: x.c.UF("mapc", SVal, m.sym), typ: m.typ}, m.typ, "lzmap")
		x.markPre(st, id, m.sym)
		st.lazyMap[m.sym.id] = id
	}
	return id
}
func (x *Exec) mapSet(st *State, m *VMap, k *Term, v Value) {
	id := x.mapObj(st, m)
	o := *st.heap[id]
	mv := o.val.(*mapVal)
	o.val = &mapVal{base: mv.base, typ: mv.typ, w: append(append([]mapW{}, mv.w...), mapW{k: k, v: v})}
	x.noteWriteObj(st, id, -1)
	st.heap[id] = &o
}
func (x *Exec) mapDel(st *State, m *VMap, k *Term) {
	id := x.mapObj(st, m)
	if st.heap[id] == nil {
		return
	}
	o := *st.heap[id]
	mv := o.val.(*mapVal)
	o.val = &mapVal{base: mv.base, typ: mv.typ, w: append(append([]mapW{}, mv.w...), mapW{k: k, del: true})}
	x.noteWriteObj(st, id, -1)
	st.heap[id] = &o
}
func (x *Exec) mapGet(st *State, m *VMap, k *Term) (ok *Term, v Value) {
	c := x.c
	if m.sym == nil && m.obj == 0 {
		return c.F, x.zero(st, m.typ.Elem())
	}
	id := x.mapObj(st, m)
	mv := st.heap[id].val.(*mapVal)
	zero := x.zero(st, m.typ.Elem())
	var f func(n int) (*Term, Value)
	f = func(n int) (*Term, Value) {
		if n == 0 {
			if mv.base == nil {
				return c.F, zero
			}
			dom := c.UF("mapdom", SBool, mv.base, k)
			val := x.fromVal(st, c.UF("mapval", SVal, mv.base, k), m.typ.Elem())
			return dom, val
		}
		w := mv.w[n-1]
		eq := c.Eq(w.k, k)
		if eq != c.F && (eq == c.T || c.holds(eq)) {
			if w.del {
				return c.F, zero
			}
			return c.T, w.v
		}
		d0, v0 := f(n - 1)
		if eq == c.F || c.holds(c.Not(eq)) {
			return d0, v0
		}
		if w.del {
			return c.And(c.Not(eq), d0), x.iteV(st, eq, zero, v0, m.typ.Elem())
		}
		return c.Or(eq, d0), x.iteV(st, eq, w.v, v0, m.typ.Elem())
	}
	ok, v = f(len(mv.w))
	// a nil map has an empty domain
	if m.sym != nil {
		ok = c.And(ok, c.Not(c.UF("isnil", SBool, m.sym)))
	}
	if x.sv != nil && !k.bound {
		v = x.iteZero(st, ok, v, zero, m.typ.Elem())
	}
	return ok, v
}

// iteZero: value of a lookup is the zero value when the key is absent.
func (x *Exec) iteZero(st *State, ok *Term, v, zero Value, T types.Type) Value {
	c := x.c
	if ok == c.T {
		return v
	}
	if ok == c.F {
		return zero
	}
	switch vv := v.(type) {
	case *Term:
		if z, o := zero.(*Term); o && vv.sort == z.sort {
			return c.Ite(ok, vv, z)
		}
	case *VPtr, *VSlice, *VMap, *VIface:
		// absent => nil (asserted on the lazily resolved value)
		x.fact(st, c.Imp(c.Not(ok), x.isNil(st, v)))
	}
	return v
}

// ---------- operators ----------

func (x *Exec) binop(st *State, op token.Token, a, b Value, ta, tb, tr types.Type, pos token.Pos) Value {
	c := x.c
	switch op {
	case token.EQL:
		return x.eqV(st, a, b)
	case token.NEQ:
		return c.Not(x.eqV(st, a, b))
	}
	A, ok1 := a.(*Term)
	B, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		x.abort("binop %v on %T", op, a)
	}
	if isFloat(ta) {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return c.UF("f"+op.String(), SBool, A, B)
		}
		return c.UF("f"+op.String(), SVal, A, B)
	}
	if A.sort == SBytes {
		switch op {
		case token.ADD:
			return c.Cat(A, B)
		case token.LSS:
			return c.Lt(c.UF("bcmp", SInt, A, B), c.Int(0))
		case token.LEQ:
			return c.Le(c.UF("bcmp", SInt, A, B), c.Int(0))
		case token.GTR:
			return c.Lt(c.UF("bcmp", SInt, B, A), c.Int(0))
		case token.GEQ:
			return c.Le(c.UF("bcmp", SInt, B, A), c.Int(0))
		}
	}
	switch op {
	case token.LSS:
		return c.Lt(A, B)
	case token.LEQ:
		return c.Le(A, B)
	case token.GTR:
		return c.Gt(A, B)
	case token.GEQ:
		return c.Ge(A, B)
	case token.ADD:
		return x.wrap(c.Add(A, B), tr)
	case token.SUB:
		return x.wrap(c.Sub(A, B), tr)
	case token.MUL:
		return x.wrap(c.Mul(A, B), tr)
	case token.QUO, token.REM:
		x.mayPanic(st, "divzero", c.Not(c.Eq(B, c.Int(0))), pos)
		la, _ := c.rng(A)
		lb, _ := c.rng(B)
		nonneg := (la != nil && la.Sign() >= 0 || c.holds(c.Le(c.Int(0), A))) && (lb != nil && lb.Sign() >= 0 || c.holds(c.Le(c.Int(0), B)))
		if nonneg {
			if op == token.QUO {
				return c.Div(A, B)
			}
			return c.Mod(A, B)
		}
		// truncated division
		absA := c.Ite(c.Le(c.Int(0), A), A, c.Sub(c.Int(0), A))
		absB := c.Ite(c.Le(c.Int(0), B), B, c.Sub(c.Int(0), B))
		qq := c.Div(absA, absB)
		neg := c.Not(c.Eq(c.Le(c.Int(0), A), c.Le(c.Int(0), B)))
		quo := c.Ite(neg, c.Sub(c.Int(0), qq), qq)
		if op == token.QUO {
			return x.wrap(quo, tr)
		}
		m := c.Mod(absA, absB)
		return c.Ite(c.Le(c.Int(0), A), m, c.Sub(c.Int(0), m))
	case token.SHL:
		if B.isInt() && B.i.IsInt64() && B.I64() >= 0 {
			if B.I64() > 128 {
				return c.Int(0)
			}
			return x.wrap(c.Mul(A, c.Big(new(big.Int).Lsh(bigOne, uint(B.I64())))), tr)
		}
		return x.wrap(c.Mul(A, c.UF("pow2", SInt, B)), tr)
	case token.SHR:
		if B.isInt() && B.i.IsInt64() && B.I64() >= 0 {
			if B.I64() > 128 {
				B = c.Int(128)
			}
			return c.Div(A, c.Big(new(big.Int).Lsh(bigOne, uint(B.I64()))))
		}
		return c.Div(A, c.UF("pow2", SInt, B))
	case token.AND:
		if A.isInt() {
			A, B = B, A
		}
		if B.isInt() {
			if A.isInt() {
				return c.Big(new(big.Int).And(A.i, B.i))
			}
			p := new(big.Int).Add(B.i, bigOne)
			if B.i.Sign() >= 0 && new(big.Int).And(B.i, p).Sign() == 0 { // 2^k-1
				return c.Mod(A, c.Big(p))
			}
			lo, _ := c.rng(A)
			if B.i.Sign() > 0 && lo != nil && lo.Sign() >= 0 && B.i.BitLen() <= 64 {
				// sum of masked bit runs
				return x.maskRuns(A, B.i)
			}
		}
		r := c.UF("band", SInt, A, B)
		return x.bitFacts(r, A, B, tr)
	case token.OR, token.XOR:
		if A.isInt() && B.isInt() {
			if op == token.OR {
				return c.Big(new(big.Int).Or(A.i, B.i))
			}
			return c.Big(new(big.Int).Xor(A.i, B.i))
		}
		if x.disjoint(A, B) || x.disjoint(B, A) {
			return c.Add(A, B)
		}
		n := "bor"
		if op == token.XOR {
			n = "bxor"
			if A == B {
				return c.Int(0)
			}
		}
		if A.id > B.id {
			A, B = B, A
		}
		return x.bitFacts(c.UF(n, SInt, A, B), A, B, tr)
	case token.AND_NOT:
		if A.isInt() && B.isInt() {
			return c.Big(new(big.Int).AndNot(A.i, B.i))
		}
		return x.bitFacts(c.UF("bandnot", SInt, A, B), A, B, tr)
	}
	x.abort("binop %v", op)
	return nil
}

func (x *Exec) maskRuns(a *Term, m *big.Int) *Term {
	c := x.c
	r := c.Int(0)
	i := 0
	for i < m.BitLen() {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < m.BitLen() && m.Bit(j) == 1 {
			j++
		}
		p := new(big.Int).Lsh(bigOne, uint(i))
		r = c.Add(r, c.Mul(c.Big(p), c.Mod(c.Div(a, c.Big(p)), c.Big(new(big.Int).Lsh(bigOne, uint(j-i))))))
		i = j
	}
	return r
}

func (x *Exec) bitFacts(r, a, b *Term, T types.Type) *Term {
	if r.op == "uf" && !r.bound {
		if _, ok := x.c.rlo[r.id]; !ok {
			lo, hi := intRange(T)
			x.c.SetRange(r, lo, hi)
		}
	}
	return r
}

// disjoint: a < 2^k and b is a multiple of 2^k, both non-negative
func (x *Exec) disjoint(a, b *Term) bool {
	lo, hi := x.c.rng(a)
	lb, _ := x.c.rng(b)
	if lo == nil || hi == nil || lo.Sign() < 0 || lb == nil || lb.Sign() < 0 {
		return false
	}
	k := hi.BitLen()
	p := new(big.Int).Lsh(bigOne, uint(k))
	z := func(i *big.Int) bool { return new(big.Int).Mod(i, p).Sign() == 0 }
	if b.isInt() {
		return z(b.i)
	}
	if b.op != "+" || !z(b.i) {
		return false
	}
	for _, cf := range b.coefs {
		if !z(cf) {
			return false
		}
	}
	return true
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	c := x.c
	switch {
	case isString(to) && isByteSlice(from):
		return x.sliceBytes(st, v.(*VSlice))
	case isByteSlice(to) && isString(from):
		b := v.(*Term)
		return x.bytesSlice(st, b)
	case isString(to) && isString(from):
		return v
	case isString(to) && isInteger(from):
		i := v.(*Term)
		if i.isInt() {
			return c.Lit(string(rune(i.I64())))
		}
		if lo, hi := c.rng(i); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(127)) <= 0 {
			return c.Unit(i)
		}
		return c.UF("utf8", SBytes, i)
	case isInteger(to) && isInteger(from):
		return x.wrap(v.(*Term), to)
	case isFloat(to) && isInteger(from):
		return c.UF("i2f", SVal, v.(*Term))
	case isFloat(to) && isFloat(from):
		if under(to) == under(from) {
			return v
		}
		return c.UF("f2f:"+typeKey(to), SVal, v.(*Term))
	case isInteger(to) && isFloat(from):
		r := c.UF("f2i:"+typeKey(to), SInt, v.(*Term))
		if r.op == "uf" && !r.bound {
			lo, hi := intRange(to)
			c.SetRange(r, lo, hi)
		}
		return r
	}
	switch under(to).(type) {
	case *types.Slice, *types.Pointer, *types.Map, *types.Struct, *types.Array, *types.Signature, *types.Chan:
		if types.Identical(under(from), under(to)) {
			return v
		}
	}
	x.note("conversion", typeKey(from)+"->"+typeKey(to))
	return x.havocVal(st, to, "conv")
}

// ---------- builtins ----------

func (x *Exec) builtinLen(st *State, name string, v Value) Value {
	c := x.c
	switch v := v.(type) {
	case *VSlice:
		if name == "cap" {
			return v.cap
		}
		return v.len
	case *Term:
		if v.sort == SBytes {
			return c.Len(v)
		}
		r := x.fresh("chlen", SInt)
		c.SetRange(r, bigZero, maxLen)
		return r
	case *VMap:
		return x.mapLen(st, v)
	case *VPtr:
		return c.Int(under(v.elem).(*types.Array).Len())
	case *VArr:
		return c.Int(int64(len(v.e)))
	}
	x.abort("len of %T", v)
	return nil
}

// asBytes views strings, byte slices and byte arrays as Bytes.
func (x *Exec) asBytes(st *State, v Value) *Term {
	switch v := v.(type) {
	case *Term:
		if v.sort == SBytes {
			return v
		}
	case *VSlice:
		return x.sliceBytes(st, v)
	case *VPtr:
		r := x.load(st, v)
		if t, ok := r.(*Term); ok && t.sort == SBytes {
			return t
		}
		if s, ok := r.(*VSlice); ok && isByteT(s.elem) {
			return x.sliceBytes(st, s)
		}
	case *VIface:
		if v.typ != nil {
			return x.asBytes(st, v.v)
		}
	}
	return nil
}

// writeBytes stores src into slice v at index off (bounds known to hold).
func (x *Exec) writeBytes(st *State, v *VSlice, off, src *Term) {
	if v.base == nil || x.c.Len(src) == x.c.Int(0) {
		return
	}
	b := x.load(st, v.base).(*Term)
	x.store(st, v.base, x.c.Splice(b, x.c.Add(v.off, off), src))
}

func (x *Exec) builtin(st *State, d int, name string, args []Value, call *ssa.CallCommon, rt types.Type) (Value, bool) {
	c := x.c
	switch name {
	case "len", "cap":
		return x.builtinLen(st, name, args[0]), true
	case "append":
		a := args[0].(*VSlice)
		if a.cut {
			n := c.Int(0)
			if b, ok := args[1].(*VSlice); ok {
				n = b.len
			} else {
				n = c.Len(x.asBytes(st, args[1]))
			}
			x.oblige(st, shortFn(st.frames[d].fn)+"/append-overwrites", c.Le(n, c.Int(0)), call.Pos())
			na := *a
			na.cut = false
			a = &na
		}
		return x.appendV(st, a, args[1], under(rt).(*types.Slice)), true
	case "copy":
		dst := args[0].(*VSlice)
		var n *Term
		if isByteT(dst.elem) {
			src := x.asBytes(st, args[1])
			ls := c.Len(src)
			switch {
			case c.holds(c.Le(ls, dst.len)):
				n = ls
			case c.holds(c.Le(dst.len, ls)):
				n = dst.len
			default:
				n = c.Ite(c.Le(ls, dst.len), ls, dst.len)
			}
			x.writeBytes(st, dst, c.Int(0), c.SubB(src, c.Int(0), n))
			return n, true
		}
		src := args[1].(*VSlice)
		if c.holds(c.Le(src.len, dst.len)) {
			n = src.len
		} else if c.holds(c.Le(dst.len, src.len)) {
			n = dst.len
		} else {
			n = c.Ite(c.Le(src.len, dst.len), src.len, dst.len)
		}
		if dst.base == nil || src.base == nil {
			return n, true
		}
		x.seqWriteRange(st, dst, c.Int(0), n, src)
		return n, true
	case "delete":
		m := args[0].(*VMap)
		x.mapDel(st, m, x.toVal(st, args[1], m.typ.Key()))
		return nil, true
	case "print", "println":
		return nil, true
	case "close":
		return nil, true
	case "recover":
		return &VIface{}, true
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			b := a.(*Term)
			if name == "min" {
				r = c.Ite(c.Le(r, b), r, b)
			} else {
				r = c.Ite(c.Le(b, r), r, b)
			}
		}
		return r, true
	case "clear":
		if m, ok := args[0].(*VMap); ok {
			id := x.mapObj(st, m)
			o := *st.heap[id]
			o.val = &mapVal{typ: m.typ}
			x.noteWriteObj(st, id, -1)
			st.heap[id] = &o
			return nil, true
		}
	case "ssa:wrapnilchk":
		return args[0], true
	}
	return nil, false
}

func (x *Exec) seqWriteRange(st *State, dst *VSlice, off, n *Term, src *VSlice) {
	c := x.c
	cur := x.load(st, dst.base)
	srcv := x.load(st, src.base)
	at := c.Add(dst.off, off)
	if n.isInt() && n.I64() <= 64 {
		v := cur
		for k := int64(0); k < n.I64(); k++ {
			v = x.upd(st, v, []PE{{idx: c.AddK(at, k)}}, x.elemAt(st, srcv, c.AddK(src.off, k), dst.elem))
		}
		x.store(st, dst.base, v)
		return
	}
	var sq *VSeq
	switch cv := cur.(type) {
	case *VSeq:
		sq = cv
	case *VArr:
		sq = &VSeq{elem: cv.elem, base: x.fresh("arrseq", SVal), n: c.Int(int64(len(cv.e)))}
		for k := range cv.e {
			sq.w = append(sq.w, seqW{i: c.Int(int64(k)), v: cv.e[k]})
		}
	}
	ns := &VSeq{elem: sq.elem, base: sq.base, n: sq.n, w: append(append([]seqW{}, sq.w...), seqW{i: at, n: n, src: srcv, so: src.off})}
	x.store(st, dst.base, ns)
}

// appendV models append with copy semantics: the result never aliases the
// argument's spare capacity (assumption stated in DESIGN.md).
func (x *Exec) appendV(st *State, a *VSlice, b Value, t *types.Slice) Value {
	c := x.c
	if isByteT(t.Elem()) {
		bb := x.asBytes(st, b)
		r := c.Cat(x.sliceBytes(st, a), bb)
		s := x.bytesSlice(st, r)
		s.elem = t.Elem()
		s.nilT = c.And(a.nilT, c.Eq(c.Len(bb), c.Int(0)))
		return s
	}
	bs := b.(*VSlice)
	n := c.Add(a.len, bs.len)
	var v Value
	var av Value
	if a.base != nil {
		av = x.load(st, a.base)
	}
	aarr, aIsArr := av.(*VArr)
	if a.len.isInt() && (a.base == nil || aIsArr || a.len.I64() == 0) && bs.len.isInt() && bs.len.I64() <= 256 {
		arr := &VArr{elem: t.Elem()}
		for k := int64(0); k < a.len.I64(); k++ {
			arr.e = append(arr.e, x.elemAt(st, aarr, c.AddK(a.off, k), t.Elem()))
		}
		if bs.base != nil {
			bv := x.load(st, bs.base)
			for k := int64(0); k < bs.len.I64(); k++ {
				arr.e = append(arr.e, x.elemAt(st, bv, c.AddK(bs.off, k), t.Elem()))
			}
		}
		v = arr
	} else {
		sq := &VSeq{elem: t.Elem(), n: n}
		if cur, ok := av.(*VSeq); ok && a.off.isInt() && a.off.i.Sign() == 0 {
			sq.base, sq.w = cur.base, append([]seqW{}, cur.w...)
		} else {
			sq.base = x.fresh("app", SVal)
			if a.base != nil {
				sq.w = append(sq.w, seqW{i: c.Int(0), n: a.len, src: av, so: a.off})
			}
		}
		if bs.base != nil {
			bv := x.load(st, bs.base)
			if bs.len.isInt() && bs.len.I64() <= 16 {
				for k := int64(0); k < bs.len.I64(); k++ {
					sq.w = append(sq.w, seqW{i: c.AddK(a.len, k), v: x.elemAt(st, bv, c.AddK(bs.off, k), t.Elem())})
				}
			} else {
				sq.w = append(sq.w, seqW{i: a.len, n: bs.len, src: bv, so: bs.off})
			}
		}
		v = sq
	}
	id := x.newObjIn(st, v, t, "append")
	return &VSlice{nilT: c.And(a.nilT, c.Eq(bs.len, c.Int(0))), base: &VPtr{obj: id, elem: t}, off: c.Int(0), len: n, cap: n, elem: t.Elem()}
}

// ---------- calls ----------

func (x *Exec) callOperands(st *State, d int, cc *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range cc.Args {
		args = append(args, x.val(st, d, a))
	}
	return x.val(st, d, cc.Value), args
}

func (x *Exec) call(st *State, d int, in *ssa.Call, cc *ssa.CallCommon, k func(*State, Value), sync *bool) {
	fn, args := x.callOperands(st, d, cc)
	x.dispatch(st, d, in, cc, fn, args, k, sync)
}

func resultType(cc *ssa.CallCommon) types.Type {
	r := cc.Signature().Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

func (x *Exec) dispatch(st *State, d int, in *ssa.Call, cc *ssa.CallCommon, fnv Value, args []Value, k func(*State, Value), sync *bool) {
	rt := resultType(cc)
	done := func(v Value) {
		*sync = true
		k(st, v)
	}
	if cc.IsInvoke() {
		iv, ok := fnv.(*VIface)
		if !ok {
			x.abort("invoke on %T", fnv)
		}
		ikey := "(" + types.TypeString(cc.Value.Type(), nil) + ")." + cc.Method.Name()
		if iv.typ != nil {
			if g, ok := x.ghostOf(st, iv.v); ok {
				if r, ok := x.ghostCall(st, g, cc.Method.Name(), iv, args, rt); ok {
					done(r)
					return
				}
				x.abort("method %s of model object %s", cc.Method.Name(), x.ghost(st, g).kind)
			}
			if m := x.w.prog.LookupMethod(iv.typ, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				x.callStatic(st, d, m, append([]Value{iv.v}, args...), nil, rt, k, sync)
				return
			}
		}
		x.mayPanic(st, "nil", x.c.Not(x.isNil(st, iv)), cc.Pos())
		if con := x.specs.contracts[ikey]; con != nil {
			x.applyContract(st, con, nil, append([]Value{iv}, args...), cc.Signature(), rt, k, cc.Pos(), true)
			return
		}
		if r, ok := x.ifaceModel(st, cc.Method.Name(), typeKey(cc.Value.Type()), iv, args, rt); ok {
			done(r)
			return
		}
		x.note("opaque", ikey)
		for _, a := range args {
			x.havocReach(st, a, map[int]bool{})
		}
		done(x.havocVal(st, rt, "ext_"+cc.Method.Name()))
		return
	}
	f, ok := fnv.(*VFunc)
	if !ok {
		x.abort("call of %T", fnv)
	}
	switch fn := f.fn.(type) {
	case *ssa.Builtin:
		if r, ok := x.builtin(st, d, fn.Name(), args, cc, rt); ok {
			done(r)
			return
		}
		x.abort("builtin %s", fn.Name())
	case *ssa.Function:
		x.callStatic(st, d, fn, args, f.binds, rt, k, sync)
		return
	}
	x.mayPanic(st, "nil", x.c.Not(x.isNil(st, f)), cc.Pos())
	x.note("opaque", "function value "+cc.Value.Name()+" in "+shortFn(st.frames[d].fn))
	nm := ""
	if f.sym != nil {
		nm = trunc(x.c.Str(f.sym), 60)
	}
	names, eargs := []string{"f"}, append([]Value{x.c.Lit(nm)}, args...)
	for i := range args {
		names = append(names, fmt.Sprintf("a%d", i))
	}
	if x.con != nil && x.con.roCalls {
		x.note("readonly", "function values called by "+shortFn(st.frames[d].fn)+" leave their arguments unchanged")
	} else {
		for _, a := range args {
			x.havocReach(st, a, map[int]bool{})
		}
	}
	res := x.havocVal(st, rt, "fv")
	if tp, ok := res.(VTuple); ok {
		for i, r := range tp {
			names, eargs = append(names, fmt.Sprintf("r%d", i)), append(eargs, r)
		}
	} else if res != nil {
		names, eargs = append(names, "r0"), append(eargs, res)
	}
	x.emitEv(st, Event{name: "funcvalue", names: names, args: eargs})
	done(res)
}

func (x *Exec) callStatic(st *State, d int, fn *ssa.Function, args, binds []Value, rt types.Type, k func(*State, Value), sync *bool) {
	key := calleeKey(fn)
	con := x.specs.contracts[key]
	if con != nil && !con.inline {
		if con.trusted || fn.Blocks != nil {
			x.rep.uses[key] = true
			x.applyContract(st, con, fn, args, fn.Signature, rt, k, fn.Pos(), con.trusted)
			return
		}
	}
	if m, ok := models[key]; ok {
		if r, ok := m(x, st, args, rt); ok {
			x.rep.model(key)
			*sync = true
			k(st, r)
			return
		}
	}
	if x.fnModel(st, d, key, fn, args, rt, k, sync) {
		x.rep.model(key)
		return
	}
	inMod := fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) || fn.Parent() != nil && fn.Blocks != nil ||
		fn.Pkg == nil && fn.Blocks != nil && fn.Synthetic != "" && strings.Contains(fn.String(), modPath)
	if fn.Blocks != nil && (inMod || x.specs.inlineExt[key]) && !x.specs.noInline[key] {
		for _, f := range st.frames {
			if f.fn == fn {
				x.abort("recursive call of %s needs a contract", key)
			}
		}
		x.rep.inl(key)
		x.enter(st, fn, args, binds, k)
		return
	}
	x.note("opaque", key)
	pure := isPurePkg(key)
	if !pure {
		for _, a := range args {
			x.havocReach(st, a, map[int]bool{})
		}
	}
	*sync = true
	k(st, x.havocVal(st, rt, "ext_"+fn.Name()))
}

func isPurePkg(key string) bool {
	for _, p := range []string{"fmt.Sprint", "fmt.Errorf", "fmt.Print", "strings.", "strconv.", "errors.", "math.", "(time.", "time.",
		"github.com/frankbraun/codechain", "log.", "github.com/mutecomm/mute/log", "path.", "path/filepath.", "unicode", "net.", "net/url"} {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

// havocReach: an unmodelled callee may write anything reachable from its arguments.
func (x *Exec) havocReach(st *State, v Value, seen map[int]bool) {
	do := func(id int) {
		if id == 0 || seen[id] || st.heap[id] == nil {
			return
		}
		seen[id] = true
		old := st.heap[id].val
		if _, isG := old.(*ghostObj); isG {
			return
		}
		x.noteWriteObj(st, id, -1)
		x.havocObj(st, id, map[int]bool{-1: true})
		x.havocReach(st, old, seen)
	}
	switch v := v.(type) {
	case *VPtr:
		if v.sym != nil || v.obj != 0 {
			if v.obj == 0 && v.elem == nil {
				return
			}
			p := x.resolve(st, v)
			do(p.obj)
		}
	case *VSlice:
		if v.base != nil {
			do(v.base.obj)
		}
	case *VMap:
		if v.sym != nil || v.obj != 0 {
			do(x.mapObj(st, v))
		}
	case *VStruct:
		for _, f := range v.f {
			if f != nil {
				x.havocReach(st, f, seen)
			}
		}
	case *VIface:
		if v.typ != nil {
			x.havocReach(st, v.v, seen)
		}
	case *VArr:
		for _, e := range v.e {
			x.havocReach(st, e, seen)
		}
	case *VSeq:
		for _, w := range v.w {
			if w.src != nil {
				x.havocReach(st, w.src, seen)
			} else {
				x.havocReach(st, w.v, seen)
			}
		}
	case VTuple:
		for _, e := range v {
			x.havocReach(st, e, seen)
		}
	case *VFunc:
		for _, e := range v.binds {
			x.havocReach(st, e, seen)
		}
	}
}

func (x *Exec) ghostOf(st *State, v Value) (int, bool) {
	if p, ok := v.(*VPtr); ok && p.obj != 0 && len(p.path) == 0 {
		if o := st.heap[p.obj]; o != nil {
			if _, ok := o.val.(*ghostObj); ok {
				return p.obj, true
			}
		}
	}
	return 0, false
}
func (x *Exec) newGhost(st *State, kind string, f map[string]Value) *VPtr {
	return &VPtr{obj: x.newObjIn(st, &ghostObj{kind: kind, f: f}, nil, kind)}
}
func (x *Exec) ghostSet(st *State, id int, k string, v Value) {
	o := *st.heap[id]
	g := o.val.(*ghostObj)
	n := &ghostObj{kind: g.kind, f: map[string]Value{}}
	for a, b := range g.f {
		n.f[a] = b
	}
	n.f[k] = v
	o.val = n
	x.noteWriteObj(st, id, -1)
	st.heap[id] = &o
}
func (x *Exec) ghost(st *State, id int) *ghostObj { return st.heap[id].val.(*ghostObj) }

// ghostIface wraps a model object as an interface value of an anonymous dynamic type.
func (x *Exec) ghostIface(p *VPtr) *VIface { return &VIface{typ: ghostType, v: p} }

var ghostType types.Type = types.NewPointer(types.NewStruct(nil, nil))

func (x *Exec) freshErr(st *State, name string) (*VIface, *Term) {
	t := x.fresh("err_"+name, SVal)
	return &VIface{sym: t}, x.c.UF("isnil", SBool, t)
}
func (x *Exec) someErr(st *State, name string) *VIface {
	e, n := x.freshErr(st, name)
	x.fact(st, x.c.Not(n))
	return e
}

func fmtKey(v Value) string { return fmt.Sprintf("%T", v) }

// mapLen: the number of entries, a function of the content.
func (x *Exec) mapLen(st *State, v *VMap) *Term {
	c := x.c
	if v.sym == nil && v.obj == 0 {
		return c.Int(0)
	}
	mv := st.heap[x.mapObj(st, v)].val.(*mapVal)
	if mv.base == nil && len(mv.w) == 0 {
		return c.Int(0)
	}
	var as []*Term
	if mv.base != nil {
		as = append(as, mv.base)
	}
	k := "maplen"
	for _, w := range mv.w {
		if w.del {
			k += "-"
		} else {
			k += "+"
		}
		as = append(as, w.k)
	}
	r := c.UF(fmt.Sprintf("%s%d", k, len(as)), SInt, as...)
	c.SetRange(r, bigZero, maxLen)
	return r
}

type rangeSnap struct{ m *mapVal }

func sameMap(a, b *mapVal) bool {
	return a == b || a.base == b.base && len(a.w) == len(b.w) && len(a.w) == 0
}

// inSet: membership in a visited set.
func (c *Ctx) inSet(s, k *Term) *Term {
	switch {
	case s.op == "uf" && s.name == "K_emptyset":
		return c.F
	case s.op == "uf" && s.name == "K_setadd":
		return c.Or(c.Eq(s.args[1], k), c.inSet(s.args[0], k))
	case s.op == "ite":
		return c.Ite(s.args[0], c.inSet(s.args[1], k), c.inSet(s.args[2], k))
	}
	return c.UF("inset", SBool, s, k)
}
