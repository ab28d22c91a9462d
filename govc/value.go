package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Program values.
type Value interface{}

type PE struct { // path element
	f   int   // struct field / concrete array element when idx == nil
	idx *Term // array index
}
type VPtr struct {
	obj  int // 0: nil (when sym == nil)
	path []PE
	sym  *Term      // lazily resolved pointer
	elem types.Type // pointee type
	orig *VPtr      // of a copy made for an event: the pointer itself
}
type VSlice struct {
	nilT          *Term
	base          *VPtr // pointer to the backing array (nil for the nil slice)
	off, len, cap *Term
	elem          types.Type
	cut           bool // elements of an older array may lie behind the end: appending could overwrite them
}
type VStruct struct {
	typ  types.Type // named or struct type
	sym  *Term      // lazy source; nil with zero==true for zero values
	zero bool
	f    []Value // nil entries are lazy
}
type VArr struct { // fixed-length or concrete backing array of non-bytes
	elem types.Type
	e    []Value
}
type VSeq struct { // backing array of symbolic length
	elem types.Type
	base *Term // Val
	n    *Term
	w    []seqW
}
type seqW struct {
	i *Term
	v Value
	// range copy: elements [i, i+n) come from src shifted by so
	n   *Term
	src Value
	so  *Term
}
type VIface struct {
	typ types.Type // dynamic type, nil when symbolic
	v   Value
	sym *Term
}
type VMap struct {
	obj int
	sym *Term
	typ *types.Map
}
type VFunc struct {
	fn    interface{} // *ssa.Function or *ssa.Builtin or model name
	binds []Value
	recv  Value
	sym   *Term
}
type VTuple []Value

type mapW struct {
	k   *Term
	v   Value
	del bool
}
type mapVal struct { // content of a map object
	base *Term // nil: empty map
	w    []mapW
	typ  *types.Map
}
type ghostObj struct { // model objects: hash states, ciphers, readers ...
	kind string
	f    map[string]Value
}

type Obj struct {
	val   Value
	typ   types.Type
	name  string
	pre   bool // existed at function entry (reachable from inputs)
	loopv bool // array of a slice variable changed by a loop: other variables may share it
}

func under(t types.Type) types.Type { return t.Underlying() }
func isByteT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}
func isByteArray(t types.Type) bool {
	a, ok := under(t).(*types.Array)
	return ok && isByteT(a.Elem())
}
func isByteSlice(t types.Type) bool {
	a, ok := under(t).(*types.Slice)
	return ok && isByteT(a.Elem())
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBoolT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}
func isIface(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := under(t).(*types.Interface)
	return ok
}

func intRange(t types.Type) (lo, hi *big.Int) {
	b := under(t).(*types.Basic)
	p := func(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }
	m1 := func(x *big.Int) *big.Int { return new(big.Int).Sub(x, bigOne) }
	neg := func(x *big.Int) *big.Int { return new(big.Int).Neg(x) }
	switch b.Kind() {
	case types.Int8:
		return neg(p(7)), m1(p(7))
	case types.Int16:
		return neg(p(15)), m1(p(15))
	case types.Int32, types.UntypedRune:
		return neg(p(31)), m1(p(31))
	case types.Int, types.Int64, types.UntypedInt:
		return neg(p(63)), m1(p(63))
	case types.Uint8:
		return bigZero, m1(p(8))
	case types.Uint16:
		return bigZero, m1(p(16))
	case types.Uint32:
		return bigZero, m1(p(32))
	default:
		return bigZero, m1(p(64))
	}
}

var qualifier = func(p *types.Package) string {
	return strings.TrimPrefix(p.Path(), "github.com/mutecomm/")
}

func typeKey(t types.Type) string { return types.TypeString(t, qualifier) }

// ---------- encoding to and from Val ----------

func (x *Exec) toVal(st *State, v Value, t types.Type) *Term {
	c := x.c
	switch v := v.(type) {
	case *Term:
		switch v.sort {
		case SInt:
			return c.UF("K_int", SVal, v)
		case SBool:
			return c.UF("K_bool", SVal, v)
		case SBytes:
			return c.UF("K_bytes", SVal, v)
		}
		return v
	case *VPtr:
		if v.sym != nil {
			return v.sym
		}
		if v.obj == 0 {
			return c.UF("K_nil", SVal)
		}
		ph := c.Lit("")
		for _, p := range v.path {
			if p.idx != nil {
				ph = c.Cat(ph, c.Lit("i"), c.UF("le", SBytes, c.Int(8), p.idx))
			} else {
				ph = c.Cat(ph, c.Lit(fmt.Sprintf("f%d.", p.f)))
			}
		}
		return c.UF("K_ptr", SVal, c.Int(int64(v.obj)), ph)
	case *VSlice:
		if isByteT(v.elem) {
			return c.UF("K_slice", SVal, x.sliceBytes(st, v), v.nilT)
		}
		a := x.seqTerm(st, v)
		if !(v.off.isInt() && v.off.i.Sign() == 0) {
			a = c.UF("shift", SVal, a, v.off)
		}
		return c.UF("K_seq", SVal, a, v.len, v.nilT)
	case *VStruct:
		if v.sym != nil {
			pure := true
			for _, f := range v.f {
				if f != nil {
					pure = false
				}
			}
			if pure {
				return v.sym
			}
		}
		s := under(v.typ).(*types.Struct)
		var as []*Term
		for i := 0; i < s.NumFields(); i++ {
			as = append(as, x.toVal(st, x.field(st, v, i), s.Field(i).Type()))
		}
		return c.UF("K_s:"+typeKey(v.typ), SVal, as...)
	case *VArr:
		var as []*Term
		for i := range v.e {
			as = append(as, x.toVal(st, v.e[i], v.elem))
		}
		return c.UF(fmt.Sprintf("K_arr%d", len(as)), SVal, as...)
	case *VSeq:
		return x.seqTermOf(st, v)
	case *VIface:
		if v.sym != nil {
			return v.sym
		}
		if v.typ == nil {
			return c.UF("K_nil", SVal)
		}
		k := "K_box:" + typeKey(v.typ)
		x.boxTypes[k] = v.typ
		return c.UF(k, SVal, x.toVal(st, v.v, v.typ))
	case *VMap:
		if v.sym != nil {
			return v.sym
		}
		if v.obj == 0 {
			return c.UF("K_nil", SVal)
		}
		return c.UF("K_map", SVal, c.Int(int64(v.obj)))
	case *VFunc:
		if v.sym != nil {
			return v.sym
		}
		if v.fn == nil {
			return c.UF("K_nil", SVal)
		}
		return c.UF("K_func:"+fmt.Sprint(v.fn), SVal)
	case VTuple:
		var as []*Term
		for _, e := range v {
			as = append(as, x.toVal(st, e, nil))
		}
		return c.UF(fmt.Sprintf("K_tup%d", len(as)), SVal, as...)
	case *ghostObj:
		return c.UF("K_ghost:"+v.kind, SVal)
	case nil:
		return c.UF("K_nil", SVal)
	}
	panic(fmt.Sprintf("toVal %T", v))
}

// fromVal decodes a Val term as a value of type t. Pointers and slices are resolved lazily
// and cached per term, so that the same term always denotes the same object.
func (x *Exec) fromVal(st *State, t *Term, T types.Type) Value {
	c := x.c
	if nt, ok := T.(*types.Named); ok && x.opaqueType(nt) {
		return t
	}
	switch u := under(T).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			r := c.UF("vI", SInt, t)
			if r.op == "uf" && !r.bound {
				lo, hi := intRange(T)
				if _, ok := c.rlo[r.id]; !ok {
					c.SetRange(r, lo, hi)
				}
			}
			return r
		case u.Info()&types.IsBoolean != 0:
			return c.UF("vB", SBool, t)
		case u.Info()&types.IsString != 0:
			return c.UF("vS", SBytes, t)
		}
		return t
	case *types.Pointer:
		if t.op == "uf" && t.name == "K_nil" {
			return &VPtr{elem: u.Elem()}
		}
		if t.op == "uf" && t.name == "K_ptr" && t.args[1].op == "lit" && t.args[1].str == "" {
			return &VPtr{obj: int(t.args[0].I64()), elem: u.Elem()}
		}
		return &VPtr{sym: t, elem: u.Elem()}
	case *types.Slice:
		if t.op == "uf" && t.name == "K_nil" {
			return x.nilSlice(u.Elem())
		}
		key := t.id
		nilT := c.UF("isnil", SBool, t)
		if isByteT(u.Elem()) {
			content := c.UF("vS", SBytes, t)
			ln := c.Len(content)
			if t.bound {
				// quantified: build a transient slice
				id := x.newObjIn(st, content, T, "q")
				return &VSlice{nilT: nilT, base: &VPtr{obj: id, elem: T}, off: c.Int(0), len: ln, cap: ln, elem: u.Elem()}
			}
			id, ok := st.lazySlice[key]
			if !ok {
				id = x.newObjIn(st, content, T, "sl")
				x.markPre(st, id, t)
				st.lazySlice[key] = id
				x.fact(st, c.Imp(nilT, c.Eq(ln, c.Int(0))))
				x.fact(st, c.Le(ln, c.Big(maxLen)))
			}
			return &VSlice{nilT: nilT, base: &VPtr{obj: id, elem: T}, off: c.Int(0), len: ln, cap: ln, elem: u.Elem()}
		}
		var arr, ln, off *Term
		if t.op == "uf" && t.name == "K_seq" {
			arr, off, ln, nilT = t.args[0], c.Int(0), t.args[1], t.args[2]
		} else {
			arr = c.UF("arr", SVal, t)
			ln = c.UF("vL", SInt, t)
			off = c.Int(0)
			if ln.op == "uf" && !ln.bound {
				if _, ok := c.rlo[ln.id]; !ok {
					c.SetRange(ln, bigZero, maxLen)
				}
			}
		}
		if t.bound {
			id := x.newObjIn(st, &VSeq{elem: u.Elem(), base: arr, n: c.Add(off, ln)}, T, "q")
			return &VSlice{nilT: nilT, base: &VPtr{obj: id, elem: T}, off: off, len: ln, cap: ln, elem: u.Elem()}
		}
		id, ok := st.lazySlice[key]
		if !ok {
			id = x.newObjIn(st, &VSeq{elem: u.Elem(), base: arr, n: c.Add(off, ln)}, T, "sl")
			x.markPre(st, id, t)
			st.lazySlice[key] = id
			x.fact(st, c.Imp(nilT, c.Eq(ln, c.Int(0))))
		}
		return &VSlice{nilT: nilT, base: &VPtr{obj: id, elem: T}, off: off, len: ln, cap: ln, elem: u.Elem()}
	case *types.Array:
		if isByteT(u.Elem()) {
			r := c.UF("vS", SBytes, t)
			if opaque(r) && !r.bound {
				c.SetLen(r, u.Len())
			}
			return r
		}
		if u.Len() <= 64 {
			a := &VArr{elem: u.Elem()}
			for i := int64(0); i < u.Len(); i++ {
				a.e = append(a.e, x.fromVal(st, c.UF("elem", SVal, c.UF("arr", SVal, t), c.Int(i)), u.Elem()))
			}
			return a
		}
		return &VSeq{elem: u.Elem(), base: c.UF("arr", SVal, t), n: c.Int(u.Len())}
	case *types.Struct:
		return &VStruct{typ: T, sym: t, f: make([]Value, u.NumFields())}
	case *types.Interface:
		if t.op == "uf" && t.name == "K_nil" {
			return &VIface{}
		}
		if t.op == "uf" && strings.HasPrefix(t.name, "K_box:") {
			if bt := x.boxTypes[t.name]; bt != nil {
				return &VIface{typ: bt, v: x.fromVal(st, t.args[0], bt)}
			}
		}
		return &VIface{sym: t}
	case *types.Map:
		if t.op == "uf" && t.name == "K_nil" {
			return &VMap{typ: u}
		}
		if t.op == "uf" && t.name == "K_map" {
			return &VMap{obj: int(t.args[0].I64()), typ: u}
		}
		return &VMap{sym: t, typ: u}
	case *types.Signature:
		if t.op == "uf" && t.name == "K_nil" {
			return &VFunc{}
		}
		return &VFunc{sym: t}
	case *types.Tuple:
		var r VTuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, x.fromVal(st, c.UF(fmt.Sprintf("tup%d", i), SVal, t), u.At(i).Type()))
		}
		return r
	}
	return t // channels, unsafe pointers, type params: opaque
}

// opaqueType: external types whose structure the models hide.
func (x *Exec) opaqueType(n *types.Named) bool {
	p := n.Obj().Pkg()
	if p == nil {
		return false
	}
	switch p.Path() + "." + n.Obj().Name() {
	case "time.Time", "reflect.Value", "math/big.Int", "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Once":
		return true
	}
	return false
}

func (x *Exec) zero(st *State, T types.Type) Value {
	c := x.c
	if nt, ok := T.(*types.Named); ok && x.opaqueType(nt) {
		return c.UF("K_zero:"+typeKey(T), SVal)
	}
	switch u := under(T).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return c.Int(0)
		case u.Info()&types.IsBoolean != 0:
			return c.F
		case u.Info()&types.IsString != 0:
			return c.Empty()
		case u.Info()&types.IsFloat != 0:
			return c.UF("K_float", SVal, c.Lit("0"))
		}
		return c.UF("K_nil", SVal)
	case *types.Pointer:
		return &VPtr{elem: u.Elem()}
	case *types.Slice:
		return x.nilSlice(u.Elem())
	case *types.Array:
		if isByteT(u.Elem()) {
			return c.Zeros(c.Int(u.Len()))
		}
		if u.Len() <= 4096 {
			a := &VArr{elem: u.Elem()}
			for i := int64(0); i < u.Len(); i++ {
				a.e = append(a.e, x.zero(st, u.Elem()))
			}
			return a
		}
		return &VSeq{elem: u.Elem(), base: x.fresh("bigarr", SVal), n: c.Int(u.Len())}
	case *types.Struct:
		return &VStruct{typ: T, zero: true, f: make([]Value, u.NumFields())}
	case *types.Interface:
		return &VIface{}
	case *types.Map:
		return &VMap{typ: u}
	case *types.Signature:
		return &VFunc{}
	case *types.Tuple:
		var r VTuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, x.zero(st, u.At(i).Type()))
		}
		return r
	}
	return c.UF("K_nil", SVal)
}

func (x *Exec) nilSlice(elem types.Type) *VSlice {
	z := x.c.Int(0)
	return &VSlice{nilT: x.c.T, off: z, len: z, cap: z, elem: elem}
}

// field reads field i of a struct value.
func (x *Exec) field(st *State, v *VStruct, i int) Value {
	if v.f[i] != nil {
		return v.f[i]
	}
	ft := under(v.typ).(*types.Struct).Field(i).Type()
	if v.zero {
		return x.zero(st, ft)
	}
	return x.fromVal(st, x.c.UF(fmt.Sprintf("f:%s#%d", typeKey(v.typ), i), SVal, v.sym), ft)
}
func (v *VStruct) with(i int, nv Value) *VStruct {
	n := &VStruct{typ: v.typ, sym: v.sym, zero: v.zero, f: append([]Value{}, v.f...)}
	n.f[i] = nv
	return n
}

// elemAt reads element i (absolute index) of an array-like value.
func (x *Exec) elemAt(st *State, a Value, i *Term, et types.Type) Value {
	c := x.c
	switch a := a.(type) {
	case *Term:
		if a.sort == SBytes {
			return c.At(a, i)
		}
		return x.fromVal(st, c.UF("elem", SVal, c.UF("arr", SVal, a), i), et)
	case *VArr:
		if i.isInt() {
			k := i.I64()
			if k >= 0 && k < int64(len(a.e)) {
				return a.e[k]
			}
			return x.fromVal(st, x.fresh("oob", SVal), et)
		}
		// case split into ite over leaf values
		if len(a.e) == 0 {
			return x.fromVal(st, x.fresh("oob", SVal), et)
		}
		r := a.e[len(a.e)-1]
		for k := len(a.e) - 2; k >= 0; k-- {
			r = x.iteV(st, c.Eq(i, c.Int(int64(k))), a.e[k], r, et)
		}
		return r
	case *VSeq:
		return x.seqAt(st, a, len(a.w), i)
	}
	panic(fmt.Sprintf("elemAt %T", a))
}
func (x *Exec) seqAt(st *State, a *VSeq, nw int, i *Term) Value {
	c := x.c
	for k := nw - 1; k >= 0; k-- {
		w := a.w[k]
		if w.src != nil {
			in := c.And(c.Le(w.i, i), c.Lt(i, c.Add(w.i, w.n)))
			if in == c.T || c.holds(in) {
				return x.elemAt(st, w.src, c.Add(c.Sub(i, w.i), w.so), a.elem)
			}
			if in == c.F || c.holds(c.Not(in)) {
				continue
			}
			return x.iteV(st, in, x.elemAt(st, w.src, c.Add(c.Sub(i, w.i), w.so), a.elem), x.seqAt(st, a, k, i), a.elem)
		}
		eq := c.Eq(w.i, i)
		if eq == c.T || c.holds(eq) {
			return w.v
		}
		if eq == c.F || c.holds(c.Not(eq)) {
			continue
		}
		return x.iteV(st, eq, w.v, x.seqAt(st, a, k, i), a.elem)
	}
	return x.fromVal(st, c.UF("elem", SVal, a.base, i), a.elem)
}

func (x *Exec) iteV(st *State, g *Term, a, b Value, T types.Type) Value {
	c := x.c
	if g == c.T {
		return a
	}
	if g == c.F {
		return b
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if ok1 && ok2 {
		return c.Ite(g, ta, tb)
	}
	va, vb := x.toVal(st, a, T), x.toVal(st, b, T)
	if va == vb {
		return a
	}
	r := x.fromVal(st, c.Ite(g, va, vb), T)
	if s, ok := r.(*VSlice); ok {
		sa, _ := a.(*VSlice)
		sb, _ := b.(*VSlice)
		if sa != nil && sa.cut || sb != nil && sb.cut {
			n := *s
			n.cut = true
			return &n
		}
	}
	return r
}

// seqTerm gives a Val term for the backing array of a non-byte slice.
func (x *Exec) seqTerm(st *State, v *VSlice) *Term {
	if v.base == nil {
		return x.c.UF("K_emptyseq", SVal)
	}
	return x.seqTermOf(st, x.load(st, v.base))
}
func (x *Exec) seqTermOf(st *State, a Value) *Term {
	c := x.c
	switch a := a.(type) {
	case *VSeq:
		t := a.base
		for _, w := range a.w {
			if w.src != nil {
				t = c.UF("seqcopy", SVal, t, w.i, w.n, x.seqTermOf(st, w.src), w.so)
			} else {
				t = c.UF("seqset", SVal, t, w.i, x.toVal(st, w.v, a.elem))
			}
		}
		return t
	case *VArr:
		var as []*Term
		for i := range a.e {
			as = append(as, x.toVal(st, a.e[i], a.elem))
		}
		return c.UF(fmt.Sprintf("K_arr%d", len(as)), SVal, as...)
	case *Term:
		return c.UF("K_bytes", SVal, a)
	}
	panic(fmt.Sprintf("seqTermOf %T", a))
}

// sliceBytes: contents of a byte slice.
func (x *Exec) sliceBytes(st *State, v *VSlice) *Term {
	c := x.c
	if v.base == nil {
		return c.Empty()
	}
	b := x.load(st, v.base)
	if t, ok := b.(*Term); ok && t.sort == SBytes {
		return c.SubB(t, v.off, c.Add(v.off, v.len))
	}
	panic(fmt.Sprintf("sliceBytes of %T", b))
}

func (x *Exec) newObjIn(st *State, v Value, t types.Type, name string) int {
	x.nextObj++
	st.heap[x.nextObj] = &Obj{val: v, typ: t, name: name}
	return x.nextObj
}

// resolve gives a concrete pointer for a lazily initialised one (non-nil assumed).
func (x *Exec) resolve(st *State, p *VPtr) *VPtr {
	if p.sym == nil {
		return p
	}
	if p.sym.op == "uf" && p.sym.name == "K_ptr" && p.sym.args[1].op == "lit" && p.sym.args[1].str == "" {
		return &VPtr{obj: int(p.sym.args[0].I64()), path: p.path, elem: p.elem}
	}
	key := fmt.Sprintf("%d/%s", p.sym.id, typeKey(p.elem))
	if st.stale[key] {
		x.abort("an object changed before a cut is used after it")
	}
	id, ok := st.lazyPtr[key]
	if !ok {
		id = x.newObjIn(st, x.fromVal(st, x.c.UF("deref", SVal, p.sym), p.elem), p.elem, "lz")
		x.markPre(st, id, p.sym)
		st.lazyPtr[key] = id
	}
	return &VPtr{obj: id, path: p.path, elem: p.elem}
}

func (x *Exec) load(st *State, p *VPtr) Value {
	p = x.resolve(st, p)
	o := st.heap[p.obj]
	if o == nil {
		// dangling (nil) pointer: total semantics
		return x.fromVal(st, x.fresh("niload", SVal), p.elem)
	}
	return x.nav(st, o.val, p.path, o.typ)
}
func (x *Exec) nav(st *State, v Value, path []PE, T types.Type) Value {
	for _, pe := range path {
		switch cv := v.(type) {
		case *VStruct:
			T = under(cv.typ).(*types.Struct).Field(pe.f).Type()
			v = x.field(st, cv, pe.f)
		case *Term:
			if cv.sort == SBytes {
				i := pe.idx
				if i == nil {
					i = x.c.Int(int64(pe.f))
				}
				v = x.c.At(cv, i)
			} else {
				return x.fromVal(st, x.fresh("opq", SVal), T)
			}
		case *VArr, *VSeq:
			i := pe.idx
			if i == nil {
				i = x.c.Int(int64(pe.f))
			}
			var et types.Type
			if a, ok := cv.(*VArr); ok {
				et = a.elem
			} else {
				et = cv.(*VSeq).elem
			}
			v = x.elemAt(st, cv, i, et)
			T = et
		default:
			panic(fmt.Sprintf("nav into %T", v))
		}
	}
	return v
}

func (x *Exec) store(st *State, p *VPtr, nv Value) {
	p = x.resolve(st, p)
	o := st.heap[p.obj]
	if o == nil {
		return
	}
	if x.lent[p.obj] {
		x.abort("store to a slice whose storage a bytes.Buffer uses")
	}
	x.noteWrite(st, p)
	no := *o
	no.val = x.upd(st, o.val, p.path, nv)
	st.heap[p.obj] = &no
}
func (x *Exec) upd(st *State, v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	pe := path[0]
	c := x.c
	switch cv := v.(type) {
	case *VStruct:
		return cv.with(pe.f, x.upd(st, x.field(st, cv, pe.f), path[1:], nv))
	case *Term:
		if cv.sort == SBytes {
			i := pe.idx
			if i == nil {
				i = c.Int(int64(pe.f))
			}
			return c.Splice(cv, i, c.Unit(nv.(*Term)))
		}
		return x.fresh("opq", SVal)
	case *VArr:
		i := pe.idx
		if i == nil {
			i = c.Int(int64(pe.f))
		}
		n := &VArr{elem: cv.elem, e: append([]Value{}, cv.e...)}
		if i.isInt() {
			k := i.I64()
			if k >= 0 && k < int64(len(n.e)) {
				n.e[k] = x.upd(st, n.e[k], path[1:], nv)
			}
			return n
		}
		for k := range n.e {
			n.e[k] = x.iteV(st, c.Eq(i, c.Int(int64(k))), x.upd(st, n.e[k], path[1:], nv), n.e[k], cv.elem)
		}
		return n
	case *VSeq:
		i := pe.idx
		if i == nil {
			i = c.Int(int64(pe.f))
		}
		if len(path) > 1 {
			nv = x.upd(st, x.elemAt(st, cv, i, cv.elem), path[1:], nv)
		}
		return &VSeq{elem: cv.elem, base: cv.base, n: cv.n, w: append(append([]seqW{}, cv.w...), seqW{i: i, v: nv})}
	}
	panic(fmt.Sprintf("upd into %T", v))
}

func (x *Exec) isNil(st *State, v Value) *Term {
	c := x.c
	switch v := v.(type) {
	case *VPtr:
		if v.orig != nil {
			v = v.orig
		}
		if v.sym != nil {
			return c.UF("isnil", SBool, v.sym)
		}
		return c.Bool(v.obj == 0)
	case *VSlice:
		return v.nilT
	case *VIface:
		if v.sym != nil {
			return c.UF("isnil", SBool, v.sym)
		}
		return c.Bool(v.typ == nil)
	case *VMap:
		if v.sym != nil {
			return c.UF("isnil", SBool, v.sym)
		}
		return c.Bool(v.obj == 0)
	case *VFunc:
		if v.sym != nil {
			return c.UF("isnil", SBool, v.sym)
		}
		return c.Bool(v.fn == nil)
	case *Term:
		if v.sort == SVal {
			return c.UF("isnil", SBool, v)
		}
		return c.F
	case nil:
		return c.T
	}
	return c.F
}

// eqV: Go equality of two values of the same type.
// isNew: p points to an object allocated by the function (or a callee) itself.
func (x *Exec) isNew(st *State, p *VPtr) bool {
	if p.sym != nil || p.obj == 0 {
		return false
	}
	o := st.heap[p.obj]
	if o == nil || o.pre || o.loopv {
		return false
	}
	for _, e := range p.path {
		if e.idx != nil {
			return false
		}
	}
	_, ok := under(o.typ).(*types.Struct)
	return ok
}

// preTerm: t denotes a part of the entry state.
func preTerm(t *Term) bool {
	switch t.op {
	case "int":
		return true
	case "lit":
		return true
	case "var":
		return !strings.Contains(t.name, "!") && !t.bound
	case "uf":
		switch {
		case strings.HasPrefix(t.name, "f:"), t.name == "deref", t.name == "mapval", t.name == "mapc", t.name == "elem", t.name == "arr", t.name == "K_bytes", t.name == "vS":
			for _, a := range t.args {
				if a.sort == SVal && !preTerm(a) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (x *Exec) eqV(st *State, a, b Value) *Term {
	c := x.c
	switch av := a.(type) {
	case *Term:
		if bv, ok := b.(*Term); ok {
			return c.Eq(av, bv)
		}
	case *VPtr:
		bv, ok := b.(*VPtr)
		if !ok {
			break
		}
		if av.orig != nil {
			av = av.orig
		}
		if bv.orig != nil {
			bv = bv.orig
		}
		if av.sym == nil && av.obj == 0 {
			return x.isNil(st, bv)
		}
		if bv.sym == nil && bv.obj == 0 {
			return x.isNil(st, av)
		}
		// a concrete (freshly allocated) object differs from a lazily resolved input
		if x.isNew(st, av) && bv.sym != nil && preTerm(bv.sym) || x.isNew(st, bv) && av.sym != nil && preTerm(av.sym) {
			return c.F
		}
		eq := c.Eq(x.toVal(st, av, nil), x.toVal(st, bv, nil))
		if av.sym != nil && bv.sym != nil {
			return c.Or(eq, c.And(x.isNil(st, av), x.isNil(st, bv)))
		}
		return eq
	case *VIface:
		bv, ok := b.(*VIface)
		if !ok {
			break
		}
		if av.sym == nil && av.typ == nil {
			return x.isNil(st, bv)
		}
		if bv.sym == nil && bv.typ == nil {
			return x.isNil(st, av)
		}
		return c.Eq(x.toVal(st, av, nil), x.toVal(st, bv, nil))
	case *VStruct:
		bv, ok := b.(*VStruct)
		if !ok {
			break
		}
		s := under(av.typ).(*types.Struct)
		var cs []*Term
		for i := 0; i < s.NumFields(); i++ {
			cs = append(cs, x.eqV(st, x.field(st, av, i), x.field(st, bv, i)))
		}
		return c.And(cs...)
	case *VArr:
		bv, ok := b.(*VArr)
		if !ok {
			break
		}
		var cs []*Term
		for i := range av.e {
			cs = append(cs, x.eqV(st, av.e[i], bv.e[i]))
		}
		return c.And(cs...)
	case *VSlice:
		if bv, ok := b.(*VSlice); ok {
			if av.base == nil {
				return bv.nilT
			}
			if bv.base == nil {
				return av.nilT
			}
		}
	case *VMap, *VFunc:
		if x.isNil(st, b) == c.T {
			return x.isNil(st, a)
		}
		if x.isNil(st, a) == c.T {
			return x.isNil(st, b)
		}
	}
	return c.Eq(x.toVal(st, a, nil), x.toVal(st, b, nil))
}

func (x *Exec) fresh(pfx string, s Sort) *Term { return x.c.Fresh(pfx, s) }

// havocVal makes an arbitrary value of type T.
func (x *Exec) havocVal(st *State, T types.Type, name string) Value {
	if tp, ok := T.(*types.Tuple); ok {
		var r VTuple
		for i := 0; i < tp.Len(); i++ {
			r = append(r, x.havocVal(st, tp.At(i).Type(), name))
		}
		return r
	}
	return x.fromVal(st, x.fresh(name, SVal), T)
}

// markPre: the object is reachable from the inputs; remember its entry value.
func (x *Exec) markPre(st *State, id int, t *Term) {
	if decoded(t) {
		return // memory a JSON decoder allocated
	}
	st.heap[id].pre = true
	if x.orig != nil {
		x.orig[id] = st.heap[id].val
	}
}

// decoded: t is a part of a value decoded from JSON.
func decoded(t *Term) bool {
	for t != nil && t.op == "uf" && len(t.args) > 0 {
		if strings.HasPrefix(t.name, "unjson:") {
			return true
		}
		if !strings.HasPrefix(t.name, "f:") && t.name != "arr" && t.name != "deref" && t.name != "elem" {
			return false
		}
		t = t.args[0]
	}
	return false
}
