package main

import (
	"crypto"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions: the trusted base on external code. Each model is a
// deterministic description over uninterpreted functions (crypto) or an
// over-approximation (fresh results constrained by documented behaviour).

type modelFn func(x *Exec, st *State, args []Value, rt types.Type) (Value, bool)

// lengths of fixed-size built-in functions
var builtinLens = map[string]int{
	"sha1": 20, "sha256": 32, "sha512": 64, "hmacsha512": 64, "hmacsha256": 32, "hmacsha1": 20,
	"dh": 32, "dhpub": 32, "edsign": 64, "edpub": 32,
}

var hashSizes = map[string]int64{"sha1": 20, "sha256": 32, "sha512": 64}

func byteSliceT() types.Type { return types.NewSlice(types.Typ[types.Byte]) }

func (x *Exec) b(st *State, v Value) *Term {
	t := x.asBytes(st, v)
	if t == nil {
		x.abort("model: not bytes: %T", v)
	}
	return t
}
func (x *Exec) arr32(st *State, v Value) *Term { // contents of *[32]byte
	p, ok := v.(*VPtr)
	if !ok {
		x.abort("model: pointer expected, got %T", v)
	}
	x.mayPanic(st, "nil", x.c.Not(x.isNil(st, p)), 0)
	return x.load(st, p).(*Term)
}

// errIff returns an error value that is nil exactly when ok holds.
func (x *Exec) errIff(st *State, name string, ok *Term) *VIface {
	if ok == x.c.T {
		return &VIface{}
	}
	if ok == x.c.F {
		return x.someErr(st, name)
	}
	e, n := x.freshErr(st, name)
	x.fact(st, x.c.Eq(n, ok))
	return e
}

func hashAlg(v Value) string {
	if f, ok := v.(*VFunc); ok {
		if fn, ok := f.fn.(*ssa.Function); ok {
			switch fn.String() {
			case "crypto/sha1.New":
				return "sha1"
			case "crypto/sha256.New":
				return "sha256"
			case "crypto/sha512.New":
				return "sha512"
			case "(crypto.Hash).New$bound":
				if len(f.binds) == 1 {
					return cryptoHash(f.binds[0])
				}
			}
		}
	}
	return ""
}

// cryptoHash: the name of a crypto.Hash (whose package is linked).
func cryptoHash(v Value) string {
	if t, ok := v.(*Term); ok && t.isInt() {
		return map[int64]string{int64(crypto.SHA1): "sha1", int64(crypto.SHA256): "sha256", int64(crypto.SHA512): "sha512"}[t.I64()]
	}
	return ""
}

// ---------- bytes.Buffer as a struct value (buf, off) ----------

func isBufferPtr(v Value) (*VPtr, bool) {
	p, ok := v.(*VPtr)
	if !ok || p.elem == nil {
		return nil, false
	}
	n, ok := p.elem.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "bytes" || n.Obj().Name() != "Buffer" {
		return nil, false
	}
	return p, true
}
func (x *Exec) bufGet(st *State, p *VPtr) *Term {
	x.checkPtr(st, p, 0)
	sv := x.load(st, p).(*VStruct)
	buf := x.sliceBytes(st, x.field(st, sv, 0).(*VSlice))
	off := x.field(st, sv, 1).(*Term)
	if off.isInt() && off.i.Sign() == 0 {
		return buf
	}
	x.fact(st, x.c.And(x.c.Le(x.c.Int(0), off), x.c.Le(off, x.c.Len(buf))))
	return x.c.SubB(buf, off, x.c.Len(buf))
}

// bufRead leaves b as the unread part. The buffer gets a copy: a slice that shares
// the storage must not be written to as long as the buffer is used (see store).
func (x *Exec) bufRead(st *State, p *VPtr, b *Term) {
	sv := x.load(st, p).(*VStruct)
	old, _ := x.field(st, sv, 0).(*VSlice)
	ns := x.bytesSlice(st, b)
	if old != nil && old.base != nil {
		o := x.resolve(st, old.base)
		if sh := x.shared[o.obj]; sh != nil {
			x.shared[ns.base.obj] = sh
			for _, q := range sh {
				x.lent[q.obj] = true
			}
		}
	}
	x.store(st, p, sv.with(0, ns).with(1, x.c.Int(0)))
}

// bufSet changes the content: slices handed out before are no longer valid.
func (x *Exec) bufSet(st *State, p *VPtr, b *Term) {
	sv := x.load(st, p).(*VStruct)
	if old, _ := x.field(st, sv, 0).(*VSlice); old != nil && old.base != nil {
		for _, q := range x.shared[x.resolve(st, old.base).obj] {
			if st.heap[q.obj] == nil {
				continue
			}
			if t, ok := x.load(st, q).(*Term); ok {
				lent := x.lent[q.obj]
				x.lent[q.obj] = false
				x.store(st, q, x.freshBytes(st, "stale", x.c.Len(t)))
				x.lent[q.obj] = lent
			}
		}
	}
	x.store(st, p, sv.with(0, x.bytesSlice(st, b)).with(1, x.c.Int(0)))
}

// bufBytes returns the unread part sharing the storage of the buffer.
func (x *Exec) bufBytes(st *State, p *VPtr) *VSlice {
	b := x.bufGet(st, p)
	sv := x.load(st, p).(*VStruct)
	s := x.field(st, sv, 0).(*VSlice)
	off := x.field(st, sv, 1).(*Term)
	if s.base == nil || !(off.isInt() && off.i.Sign() == 0) {
		s = x.bytesSlice(st, b)
		x.store(st, p, sv.with(0, s).with(1, x.c.Int(0)))
	}
	q := x.resolve(st, s.base)
	for _, e := range x.shared[q.obj] {
		if e.obj == q.obj {
			return s
		}
	}
	x.shared[q.obj] = append(append([]*VPtr{}, x.shared[q.obj]...), q)
	return s
}

// ---------- fixed-size binary encoding ----------

func (x *Exec) binSize(T types.Type) (int64, bool) {
	switch u := under(T).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1, true
		case types.Int16, types.Uint16:
			return 2, true
		case types.Int32, types.Uint32, types.Float32:
			return 4, true
		case types.Int64, types.Uint64, types.Float64:
			return 8, true
		}
	case *types.Array:
		n, ok := x.binSize(u.Elem())
		return n * u.Len(), ok
	case *types.Struct:
		var t int64
		for i := 0; i < u.NumFields(); i++ {
			n, ok := x.binSize(u.Field(i).Type())
			if !ok {
				return 0, false
			}
			t += n
		}
		return t, true
	}
	return 0, false
}
func (x *Exec) binEnc(st *State, ord string, v Value, T types.Type) *Term {
	c := x.c
	switch u := under(T).(type) {
	case *types.Basic:
		if isBoolT(T) {
			return c.Unit(c.Ite(v.(*Term), c.Int(1), c.Int(0)))
		}
		n, ok := x.binSize(T)
		if !ok || isFloat(T) {
			return nil
		}
		t := v.(*Term)
		if _, signed := x.typeBits(T); signed {
			t = c.Mod(t, c.Big(new(big.Int).Lsh(bigOne, uint(8*n))))
		}
		if n == 1 {
			return c.Unit(t)
		}
		return c.UF(ord, SBytes, c.Int(n), t)
	case *types.Array:
		if isByteT(u.Elem()) {
			return v.(*Term)
		}
		var ts []*Term
		for i := int64(0); i < u.Len(); i++ {
			e := x.binEnc(st, ord, x.elemAt(st, v, c.Int(i), u.Elem()), u.Elem())
			if e == nil {
				return nil
			}
			ts = append(ts, e)
		}
		return c.Cat(ts...)
	case *types.Struct:
		var ts []*Term
		for i := 0; i < u.NumFields(); i++ {
			e := x.binEnc(st, ord, x.field(st, v.(*VStruct), i), u.Field(i).Type())
			if e == nil {
				return nil
			}
			ts = append(ts, e)
		}
		return c.Cat(ts...)
	case *types.Slice:
		s, ok := v.(*VSlice)
		if !ok {
			return nil
		}
		if isByteT(u.Elem()) {
			return x.sliceBytes(st, s)
		}
		if s.len.isInt() && s.len.I64() <= 64 {
			var ts []*Term
			for i := int64(0); i < s.len.I64(); i++ {
				e := x.binEnc(st, ord, x.elemAt(st, x.load(st, s.base), c.AddK(s.off, i), u.Elem()), u.Elem())
				if e == nil {
					return nil
				}
				ts = append(ts, e)
			}
			return c.Cat(ts...)
		}
	}
	return nil
}
func (x *Exec) binDec(st *State, ord string, b *Term, off int64, T types.Type) (Value, int64) {
	c := x.c
	switch u := under(T).(type) {
	case *types.Basic:
		n, ok := x.binSize(T)
		if !ok || isFloat(T) {
			return nil, 0
		}
		s := c.SubB(b, c.Int(off), c.Int(off+n))
		if isBoolT(T) {
			return c.Not(c.Eq(c.At(b, c.Int(off)), c.Int(0))), off + n
		}
		var t *Term
		if n == 1 {
			t = c.At(b, c.Int(off))
		} else {
			t = c.UF("from"+ord, SInt, s)
		}
		if _, signed := x.typeBits(T); signed {
			t = x.wrap(t, T)
		}
		return t, off + n
	case *types.Array:
		if isByteT(u.Elem()) {
			return c.SubB(b, c.Int(off), c.Int(off+u.Len())), off + u.Len()
		}
		a := &VArr{elem: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			var v Value
			v, off = x.binDec(st, ord, b, off, u.Elem())
			if v == nil {
				return nil, 0
			}
			a.e = append(a.e, v)
		}
		return a, off
	case *types.Struct:
		sv := &VStruct{typ: T, f: make([]Value, u.NumFields())}
		for i := 0; i < u.NumFields(); i++ {
			sv.f[i], off = x.binDec(st, ord, b, off, u.Field(i).Type())
			if sv.f[i] == nil {
				return nil, 0
			}
		}
		return sv, off
	}
	return nil, 0
}
func orderOf(v Value) string {
	if iv, ok := v.(*VIface); ok && iv.typ != nil {
		if strings.Contains(typeKey(iv.typ), "bigEndian") {
			return "be"
		}
		if strings.Contains(typeKey(iv.typ), "littleEndian") {
			return "le"
		}
	}
	return ""
}

// readInto models io.ReadFull on any reader.
// fillBytes overwrites the whole slice with nb, which is as long.
func (x *Exec) fillBytes(st *State, v *VSlice, nb *Term) {
	if v.base != nil && v.off == x.c.Int(0) {
		if b, ok := x.load(st, v.base).(*Term); ok && x.c.Len(b) == v.len {
			x.store(st, v.base, nb)
			return
		}
	}
	x.writeBytes(st, v, x.c.Int(0), nb)
}

func (x *Exec) readInto(st *State, r Value, dst *VSlice) (Value, bool) {
	c := x.c
	iv, _ := r.(*VIface)
	n := dst.len
	if iv != nil && iv.typ != nil {
		if g, ok := x.ghostOf(st, iv.v); ok {
			gh := x.ghost(st, g)
			switch gh.kind {
			case "hkdf":
				off := gh.f["off"].(*Term)
				out := c.UF("hkdf"+string(gh.f["alg"].(*Term).str), SBytes, gh.f["secret"].(*Term), gh.f["salt"].(*Term), gh.f["info"].(*Term), off, n)
				lim := c.Int(255 * hashSizes[gh.f["alg"].(*Term).str])
				ok := c.Le(c.Add(off, n), lim)
				x.writeBytes(st, dst, c.Int(0), out)
				x.ghostSet(st, g, "off", c.Add(off, n))
				return VTuple{n, x.errIff(st, "hkdf", ok)}, true
			}
		}
		if p, ok := isBufferPtr(iv.v); ok {
			b := x.bufGet(st, p)
			ok := c.Le(n, c.Len(b))
			if c.holds(ok) {
				x.writeBytes(st, dst, c.Int(0), c.SubB(b, c.Int(0), n))
				x.bufRead(st, p, c.SubB(b, n, c.Len(b)))
				return VTuple{n, &VIface{}}, true
			}
			nb := x.freshBytes(st, "rd", n)
			x.fact(st, c.Imp(ok, c.Eq(nb, c.SubB(b, c.Int(0), n))))
			x.fillBytes(st, dst, nb)
			rest := x.fresh("rest", SBytes)
			x.fact(st, c.Imp(ok, c.Eq(rest, c.SubB(b, n, c.Len(b)))))
			x.fact(st, c.Imp(c.Not(ok), c.Eq(c.Len(rest), c.Int(0))))
			x.bufRead(st, p, rest)
			m := x.fresh("nread", SInt)
			x.fact(st, c.And(c.Le(c.Int(0), m), c.Le(m, n), c.Imp(ok, c.Eq(m, n))))
			return VTuple{m, x.errIff(st, "readfull", ok)}, true
		}
	}
	x.mayPanic(st, "nil", c.Not(x.isNil(st, r)), 0)
	nb := x.freshBytes(st, "rd", n)
	x.fillBytes(st, dst, nb)
	m := x.fresh("nread", SInt)
	e, isn := x.freshErr(st, "readfull")
	x.fact(st, c.And(c.Le(c.Int(0), m), c.Le(m, n), c.Imp(isn, c.Eq(m, n))))
	x.emitEv(st, Event{name: "read", names: []string{"r", "data", "ok", "n"}, args: []Value{x.toVal(st, r, nil), nb, isn, m}})
	return VTuple{m, e}, true
}
func (x *Exec) freshBytes(st *State, name string, n *Term) *Term {
	c := x.c
	if n.isInt() && n.i.Sign() == 0 {
		return c.Empty()
	}
	b := x.fresh(name, SBytes)
	if n.isInt() {
		c.SetLen(b, n.I64())
	} else {
		c.SetLenT(b, n)
	}
	return b
}

// writeTo models w.Write(data) for any writer.
func (x *Exec) writeTo(st *State, w Value, data *Term) (Value, bool) {
	c := x.c
	if iv, ok := w.(*VIface); ok && iv.typ != nil {
		if g, ok := x.ghostOf(st, iv.v); ok {
			gh := x.ghost(st, g)
			switch gh.kind {
			case "hash":
				x.ghostSet(st, g, "buf", c.Cat(gh.f["buf"].(*Term), data))
				return VTuple{c.Len(data), &VIface{}}, true
			case "multiwriter":
				k := 0
				for {
					s, ok := gh.f["w"+string(rune('0'+k))]
					if !ok {
						break
					}
					x.writeTo(st, s, data)
					k++
				}
				n := x.fresh("nwr", SInt)
				e, isn := x.freshErr(st, "write")
				x.fact(st, c.And(c.Le(c.Int(0), n), c.Le(n, c.Len(data)), c.Imp(isn, c.Eq(n, c.Len(data)))))
				return VTuple{n, e}, true
			case "b64w":
				x.ghostSet(st, g, "buf", c.Cat(gh.f["buf"].(*Term), data))
				n := x.fresh("nwr", SInt)
				e, isn := x.freshErr(st, "write")
				x.fact(st, c.And(c.Le(c.Int(0), n), c.Le(n, c.Len(data)), c.Imp(isn, c.Eq(n, c.Len(data)))))
				return VTuple{n, e}, true
			}
			return nil, false
		}
		if p, ok := isBufferPtr(iv.v); ok {
			x.bufSet(st, p, c.Cat(x.bufGet(st, p), data))
			return VTuple{c.Len(data), &VIface{}}, true
		}
	}
	x.mayPanic(st, "nil", c.Not(x.isNil(st, w)), 0)
	n := x.fresh("nwr", SInt)
	e, isn := x.freshErr(st, "write")
	x.fact(st, c.And(c.Le(c.Int(0), n), c.Le(n, c.Len(data)), c.Imp(isn, c.Eq(n, c.Len(data)))))
	x.emitEv(st, Event{name: "write", names: []string{"w", "data", "ok"}, args: []Value{x.toVal(st, w, nil), data, isn}})
	return VTuple{n, e}, true
}

func (x *Exec) ghostField(st *State, v Value, kind, f string) Value {
	if iv, ok := v.(*VIface); ok {
		v = iv.v
	}
	if g, ok := x.ghostOf(st, v); ok {
		if gh := x.ghost(st, g); gh.kind == kind {
			return gh.f[f]
		}
	}
	return nil
}

// ghostCall: methods of model objects held in interfaces.
func (x *Exec) ghostCall(st *State, id int, method string, iv *VIface, args []Value, rt types.Type) (Value, bool) {
	c := x.c
	g := x.ghost(st, id)
	T := func(n string) *Term { return g.f[n].(*Term) }
	switch g.kind + "." + method {
	case "hash.Write":
		return x.writeTo(st, iv, x.b(st, args[0]))
	case "hash.Sum":
		alg := T("alg").str
		var h *Term
		if k, ok := g.f["key"]; ok {
			h = c.UF("hmac"+alg, SBytes, k.(*Term), T("buf"))
		} else {
			h = c.UF(alg, SBytes, T("buf"))
		}
		return x.bytesSlice(st, c.Cat(x.b(st, args[0]), h)), true
	case "hash.Reset":
		x.ghostSet(st, id, "buf", c.Empty())
		return nil, true
	case "hash.Size":
		return c.Int(hashSizes[T("alg").str]), true
	case "hash.BlockSize":
		if T("alg").str == "sha512" {
			return c.Int(128), true
		}
		return c.Int(64), true
	case "ctrstream.XORKeyStream":
		dst := args[0].(*VSlice)
		src := x.b(st, args[1])
		n := c.Len(src)
		x.mayPanic(st, "xorkeystream", c.Le(n, dst.len), 0)
		off := T("off")
		var out *Term
		if off.isInt() && off.i.Sign() == 0 {
			out = c.UF("ctr", SBytes, T("key"), T("iv"), src)
		} else {
			out = c.UF("ctrat", SBytes, T("key"), T("iv"), off, src)
		}
		x.writeBytes(st, dst, c.Int(0), out)
		x.ghostSet(st, id, "off", c.Add(off, n))
		return nil, true
	case "cbc.CryptBlocks":
		dst := args[0].(*VSlice)
		src := x.b(st, args[1])
		n := c.Len(src)
		x.mayPanic(st, "cryptblocks", c.And(c.Eq(c.Mod(n, c.Int(16)), c.Int(0)), c.Le(n, dst.len)), 0)
		x.writeBytes(st, dst, c.Int(0), c.UF(T("op").str, SBytes, T("key"), T("iv"), src))
		// chaining: the next call continues from a new IV
		x.ghostSet(st, id, "iv", x.fresh("cbciv", SBytes))
		return nil, true
	case "cbc.BlockSize", "aesblock.BlockSize":
		return c.Int(16), true
	case "gcm.NonceSize":
		return c.Int(12), true
	case "gcm.Overhead":
		return c.Int(16), true
	case "gcm.Seal":
		nonce, pt, ad := x.b(st, args[1]), x.b(st, args[2]), x.b(st, args[3])
		x.mayPanic(st, "gcmnonce", c.Eq(c.Len(nonce), c.Int(12)), 0)
		return x.bytesSlice(st, c.Cat(x.b(st, args[0]), c.UF("gcmseal", SBytes, T("key"), nonce, pt, ad))), true
	case "gcm.Open":
		nonce, ct, ad := x.b(st, args[1]), x.b(st, args[2]), x.b(st, args[3])
		x.mayPanic(st, "gcmnonce", c.Eq(c.Len(nonce), c.Int(12)), 0)
		ok := c.UF("gcmok", SBool, T("key"), nonce, ct, ad)
		out := c.UF("gcmopen", SBytes, T("key"), nonce, ct, ad)
		x.fact(st, c.Imp(ok, c.Eq(c.Len(out), c.AddK(c.Len(ct), -16))))
		s := x.bytesSlice(st, c.Cat(x.b(st, args[0]), out))
		s.nilT = c.Not(ok)
		if c.holds(c.Not(ok)) {
			return VTuple{x.nilSlice(types.Typ[types.Byte]), x.someErr(st, "gcm")}, true
		}
		return VTuple{s, x.errIff(st, "gcm", ok)}, true
	case "b64w.Write", "multiwriter.Write":
		return x.writeTo(st, iv, x.b(st, args[0]))
	case "b64w.Close":
		enc := c.UF("b64enc", SBytes, T("buf"))
		x.writeTo(st, g.f["w"], enc)
		e, _ := x.freshErr(st, "close")
		return e, true
	}
	return nil, false
}

func (x *Exec) blockCtor(kind, op string) modelFn {
	return func(x *Exec, st *State, args []Value, rt types.Type) (Value, bool) {
		c := x.c
		k := x.ghostField(st, args[0], "aesblock", "key")
		if k == nil {
			return nil, false
		}
		iv := x.b(st, args[1])
		x.mayPanic(st, "ivlen", c.Eq(c.Len(iv), c.Int(16)), 0)
		f := map[string]Value{"key": k, "iv": iv, "off": c.Int(0)}
		if op != "" {
			f["op"] = c.Lit(op)
		}
		return x.ghostIface(x.newGhost(st, kind, f)), true
	}
}

func logErr(x *Exec, st *State, args []Value, rt types.Type) (Value, bool) {
	if s, ok := args[len(args)-1].(*VSlice); ok && len(args) == 1 && s.base != nil && s.len.isInt() && s.len.I64() == 1 {
		if iv, ok := x.elemAt(st, x.load(st, s.base), s.off, s.elem).(*VIface); ok {
			if iv.typ == nil && iv.sym != nil {
				return iv, true
			}
			if iv.typ != nil {
				if types.Implements(iv.typ, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
					return iv, true
				}
			}
		}
	}
	return x.someErr(st, "log"), true
}
func nop(x *Exec, st *State, args []Value, rt types.Type) (Value, bool) { return nil, true }
func mkErr(x *Exec, st *State, args []Value, rt types.Type) (Value, bool) {
	return x.someErr(st, "err"), true
}

// errText returns an error with a known text.
func (x *Exec) errText(st *State, text *Term) *VIface {
	e := x.someErr(st, "err")
	x.fact(st, x.c.Eq(x.c.UF("errstr", SBytes, e.sym), text))
	return e
}
func bytesEq(x *Exec, st *State, args []Value, rt types.Type) (Value, bool) {
	return x.c.Eq(x.b(st, args[0]), x.b(st, args[1])), true
}
func hashSum(alg string) modelFn {
	return func(x *Exec, st *State, args []Value, rt types.Type) (Value, bool) {
		return x.c.UF(alg, SBytes, x.b(st, args[0])), true
	}
}
func hashNew(alg string) modelFn {
	return func(x *Exec, st *State, args []Value, rt types.Type) (Value, bool) {
		return x.ghostIface(x.newGhost(st, "hash", map[string]Value{"alg": x.c.Lit(alg), "buf": x.c.Empty()})), true
	}
}
func getN(ord string, n int64) modelFn {
	return func(x *Exec, st *State, args []Value, rt types.Type) (Value, bool) {
		c := x.c
		b := x.b(st, args[len(args)-1])
		x.mayPanic(st, "bounds", c.Le(c.Int(n), c.Len(b)), 0)
		return c.UF("from"+ord, SInt, c.SubB(b, c.Int(0), c.Int(n))), true
	}
}
func putN(ord string, n int64) modelFn {
	return func(x *Exec, st *State, args []Value, rt types.Type) (Value, bool) {
		c := x.c
		s := args[len(args)-2].(*VSlice)
		x.mayPanic(st, "bounds", c.Le(c.Int(n), s.len), 0)
		x.writeBytes(st, s, c.Int(0), c.UF(ord, SBytes, c.Int(n), args[len(args)-1].(*Term)))
		return nil, true
	}
}

// pureUF: deterministic external function: results are functions of the arguments.
func pureUF(key string) modelFn {
	return func(x *Exec, st *State, args []Value, rt types.Type) (Value, bool) {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, x.toVal(st, a, nil))
		}
		if tp, ok := rt.(*types.Tuple); ok {
			if tp.Len() == 0 {
				return nil, true
			}
			var r VTuple
			for i := 0; i < tp.Len(); i++ {
				r = append(r, x.fromVal(st, x.c.UF("ext:"+key+"#"+string(rune('0'+i)), SVal, ts...), tp.At(i).Type()))
			}
			return r, true
		}
		return x.fromVal(st, x.c.UF("ext:"+key, SVal, ts...), rt), true
	}
}

var models map[string]modelFn

func init() {
	var xx *Exec
	L := "github.com/mutecomm/mute/log."
	models = map[string]modelFn{
		"bytes.Equal": bytesEq, "crypto/hmac.Equal": bytesEq,
		"bytes.Compare": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			return x.c.UF("bcmp", SInt, x.b(st, a[0]), x.b(st, a[1])), true
		},
		"crypto/subtle.ConstantTimeCompare": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			return x.c.Ite(x.c.Eq(x.b(st, a[0]), x.b(st, a[1])), x.c.Int(1), x.c.Int(0)), true
		},
		"crypto/sha1.Sum": hashSum("sha1"), "crypto/sha256.Sum256": hashSum("sha256"), "crypto/sha512.Sum512": hashSum("sha512"),
		"crypto/sha1.New": hashNew("sha1"), "crypto/sha256.New": hashNew("sha256"), "crypto/sha512.New": hashNew("sha512"),
		"(crypto.Hash).New": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			alg := cryptoHash(a[0])
			if alg == "" {
				return nil, false
			}
			return hashNew(alg)(x, st, nil, rt)
		},
		"crypto/hmac.New": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			alg := hashAlg(a[0])
			if alg == "" {
				return nil, false
			}
			return x.ghostIface(x.newGhost(st, "hash", map[string]Value{"alg": x.c.Lit(alg), "buf": x.c.Empty(), "key": x.b(st, a[1])})), true
		},
		"crypto/aes.NewCipher": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			c := x.c
			key := x.b(st, a[0])
			n := c.Len(key)
			ok := c.Or(c.Eq(n, c.Int(16)), c.Eq(n, c.Int(24)), c.Eq(n, c.Int(32)))
			return VTuple{x.ghostIface(x.newGhost(st, "aesblock", map[string]Value{"key": key})), x.errIff(st, "aes", ok)}, true
		},
		"crypto/cipher.NewCTR":          xx.blockCtor("ctrstream", ""),
		"crypto/cipher.NewCBCEncrypter": xx.blockCtor("cbc", "cbcenc"),
		"crypto/cipher.NewCBCDecrypter": xx.blockCtor("cbc", "cbcdec"),
		"crypto/cipher.NewGCM": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			k := x.ghostField(st, a[0], "aesblock", "key")
			if k == nil {
				return nil, false
			}
			return VTuple{x.ghostIface(x.newGhost(st, "gcm", map[string]Value{"key": k})), &VIface{}}, true
		},
		"golang.org/x/crypto/hkdf.New": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			alg := hashAlg(a[0])
			if alg == "" {
				return nil, false
			}
			return x.ghostIface(x.newGhost(st, "hkdf", map[string]Value{"alg": x.c.Lit(alg), "secret": x.b(st, a[1]),
				"salt": x.b(st, a[2]), "info": x.b(st, a[3]), "off": x.c.Int(0)})), true
		},
		"golang.org/x/crypto/pbkdf2.Key": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			n := a[3].(*Term)
			alg := hashAlg(a[4])
			if alg == "" {
				return nil, false
			}
			r := x.c.UF("pbkdf2"+alg, SBytes, x.b(st, a[0]), x.b(st, a[1]), a[2].(*Term), n)
			x.fact(st, x.c.Eq(x.c.Len(r), n))
			return x.bytesSlice(st, r), true
		},
		"golang.org/x/crypto/curve25519.ScalarMult": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			x.checkPtr(st, a[0].(*VPtr), 0)
			x.store(st, a[0].(*VPtr), x.c.UF("dh", SBytes, x.arr32(st, a[1]), x.arr32(st, a[2])))
			return nil, true
		},
		"golang.org/x/crypto/curve25519.ScalarBaseMult": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			x.checkPtr(st, a[0].(*VPtr), 0)
			x.store(st, a[0].(*VPtr), x.c.UF("dhpub", SBytes, x.arr32(st, a[1])))
			return nil, true
		},
		"crypto/ed25519.GenerateKey": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			c := x.c
			priv := x.fresh("edpriv", SBytes)
			c.SetLen(priv, 64)
			pub := c.UF("edpub", SBytes, priv)
			x.fact(st, c.Eq(c.SubB(priv, c.Int(32), c.Int(64)), pub))
			e, isn := x.freshErr(st, "edgen")
			x.emitEv(st, Event{name: "edgen", names: []string{"r", "priv", "ok"}, args: []Value{x.toVal(st, a[0], nil), priv, isn}})
			p1, p2 := x.bytesSlice(st, pub), x.bytesSlice(st, priv)
			return VTuple{p1, p2, e}, true
		},
		"crypto/ed25519.Sign": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			c := x.c
			k := x.b(st, a[0])
			x.mayPanic(st, "edkeylen", c.Eq(c.Len(k), c.Int(64)), 0)
			return x.bytesSlice(st, c.UF("edsign", SBytes, k, x.b(st, a[1]))), true
		},
		"crypto/ed25519.Verify": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			c := x.c
			k, sig := x.b(st, a[0]), x.b(st, a[2])
			x.mayPanic(st, "edkeylen", c.Eq(c.Len(k), c.Int(32)), 0)
			ok := c.UF("edok", SBool, k, x.b(st, a[1]), sig)
			x.fact(st, c.Imp(ok, c.Eq(c.Len(sig), c.Int(64))))
			return ok, true
		},
		"golang.org/x/crypto/nacl/box.GenerateKey": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			c := x.c
			priv := x.fresh("boxpriv", SBytes)
			c.SetLen(priv, 32)
			e, isn := x.freshErr(st, "boxgen")
			at := types.NewArray(types.Typ[types.Byte], 32)
			p1 := &VPtr{obj: x.newObjIn(st, c.UF("dhpub", SBytes, priv), at, "boxpub"), elem: at}
			p2 := &VPtr{obj: x.newObjIn(st, priv, at, "boxpriv"), elem: at}
			x.emitEv(st, Event{name: "boxgen", names: []string{"r", "priv", "ok"}, args: []Value{x.toVal(st, a[0], nil), priv, isn}})
			return VTuple{p1, p2, e}, true
		},
		"golang.org/x/crypto/nacl/box.Seal": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			c := x.c
			nonce := x.load(st, a[2].(*VPtr)).(*Term)
			sh := c.UF("dh", SBytes, x.arr32(st, a[4]), x.arr32(st, a[3]))
			return x.bytesSlice(st, c.Cat(x.b(st, a[0]), c.UF("boxseal", SBytes, sh, nonce, x.b(st, a[1])))), true
		},
		"golang.org/x/crypto/nacl/box.Open": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			c := x.c
			nonce := x.load(st, a[2].(*VPtr)).(*Term)
			sh := c.UF("dh", SBytes, x.arr32(st, a[4]), x.arr32(st, a[3]))
			ct := x.b(st, a[1])
			ok := c.UF("boxok", SBool, sh, nonce, ct)
			out := c.UF("boxopen", SBytes, sh, nonce, ct)
			x.fact(st, c.Imp(ok, c.Eq(c.Len(out), c.AddK(c.Len(ct), -16))))
			// a failed Open returns nil
			r := x.bytesSlice(st, c.Ite(ok, c.Cat(x.b(st, a[0]), out), c.Empty()))
			r.nilT = c.Not(ok)
			return VTuple{r, ok}, true
		},
		"github.com/frankbraun/codechain/util/bzero.Bytes": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			s := a[0].(*VSlice)
			x.writeBytes(st, s, x.c.Int(0), x.c.Zeros(s.len))
			return nil, true
		},
		"github.com/ronperry/cryptoedge/lioness.New": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			return VTuple{x.newGhost(st, "lioness", map[string]Value{"key": x.b(st, a[0])}), x.zero(st, rt.(*types.Tuple).At(1).Type())}, true
		},
		"io.ReadFull": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			return x.readInto(st, a[0], a[1].(*VSlice))
		},
		"io.Copy": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			c := x.c
			var data *Term
			if iv, ok := a[1].(*VIface); ok && iv.typ != nil {
				if p, ok := isBufferPtr(iv.v); ok {
					data = x.bufGet(st, p)
					x.bufRead(st, p, c.Empty())
				} else if _, ok := x.ghostOf(st, iv.v); ok {
					return nil, false
				}
			}
			rok := Value(c.T)
			var rerr Value
			if data == nil {
				data = x.fresh("copied", SBytes)
				e, isn := x.freshErr(st, "copyread")
				rok, rerr = isn, e
				x.emitEv(st, Event{name: "read", names: []string{"r", "data", "ok"}, args: []Value{x.toVal(st, a[1], nil), data, rok}})
			}
			w, ok := x.writeTo(st, a[0], data)
			if !ok {
				return nil, false
			}
			tp := w.(VTuple)
			if rerr == nil {
				return tp, true
			}
			e, isn := x.freshErr(st, "copy")
			x.fact(st, c.Eq(isn, c.And(rok.(*Term), x.isNil(st, tp[1]))))
			return VTuple{tp[0], e}, true
		},
		"io.WriteString": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			return x.writeTo(st, a[0], x.b(st, a[1]))
		},
		"io.MultiWriter": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			s := a[0].(*VSlice)
			if !s.len.isInt() || s.len.I64() > 8 || s.base == nil {
				return nil, false
			}
			f := map[string]Value{}
			for k := int64(0); k < s.len.I64(); k++ {
				f["w"+string(rune('0'+k))] = x.elemAt(st, x.load(st, s.base), x.c.AddK(s.off, k), s.elem)
			}
			return x.ghostIface(x.newGhost(st, "multiwriter", f)), true
		},
		"io/ioutil.ReadAll": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			c := x.c
			if iv, ok := a[0].(*VIface); ok && iv.typ != nil {
				if p, ok := isBufferPtr(iv.v); ok {
					b := x.bufGet(st, p)
					x.bufRead(st, p, c.Empty())
					return VTuple{x.bytesSlice(st, b), &VIface{}}, true
				}
			}
			b := x.fresh("readall", SBytes)
			e, isn := x.freshErr(st, "readall")
			x.emitEv(st, Event{name: "read", names: []string{"r", "data", "ok"}, args: []Value{x.toVal(st, a[0], nil), b, isn}})
			x.emitEv(st, Event{name: "ReadAll", names: []string{"r", "data", "ok"}, args: []Value{x.toVal(st, a[0], nil), b, isn}})
			return VTuple{x.bytesSlice(st, b), e}, true
		},
		"bytes.NewBuffer": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			pt := rt.(*types.Pointer)
			ns := x.bytesSlice(st, x.b(st, a[0]))
			if src, ok := a[0].(*VSlice); ok && src.base != nil {
				q := x.resolve(st, src.base)
				x.lent[q.obj] = true
				x.shared[ns.base.obj] = []*VPtr{q}
			}
			sv := x.zero(st, pt.Elem()).(*VStruct).with(0, ns)
			return &VPtr{obj: x.newObjIn(st, sv, pt.Elem(), "buffer"), elem: pt.Elem()}, true
		},
		"(*bytes.Buffer).Bytes": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			return x.bufBytes(st, a[0].(*VPtr)), true
		},
		"(*bytes.Buffer).String": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			return x.bufGet(st, a[0].(*VPtr)), true
		},
		"(*bytes.Buffer).Len": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			return x.c.Len(x.bufGet(st, a[0].(*VPtr))), true
		},
		"(*bytes.Buffer).Reset": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			x.bufSet(st, a[0].(*VPtr), x.c.Empty())
			return nil, true
		},
		"(*bytes.Buffer).Write": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			p := a[0].(*VPtr)
			d := x.b(st, a[1])
			x.bufSet(st, p, x.c.Cat(x.bufGet(st, p), d))
			return VTuple{x.c.Len(d), &VIface{}}, true
		},
		"(*bytes.Buffer).WriteByte": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			p := a[0].(*VPtr)
			x.bufSet(st, p, x.c.Cat(x.bufGet(st, p), x.c.Unit(a[1].(*Term))))
			return &VIface{}, true
		},
		"encoding/binary.Write": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			iv, ok := a[2].(*VIface)
			ord := orderOf(a[1])
			if !ok || iv.typ == nil || ord == "" {
				return nil, false
			}
			v, T := iv.v, iv.typ
			if p, ok := v.(*VPtr); ok {
				v, T = x.load(st, p), p.elem
			}
			e := x.binEnc(st, ord, v, T)
			if e == nil {
				return nil, false
			}
			r, ok := x.writeTo(st, a[0], e)
			if !ok {
				return nil, false
			}
			return r.(VTuple)[1], true
		},
		"encoding/binary.Read": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			c := x.c
			iv, ok := a[2].(*VIface)
			ord := orderOf(a[1])
			if !ok || iv.typ == nil || ord == "" {
				return nil, false
			}
			if s, ok := iv.v.(*VSlice); ok && isByteT(s.elem) {
				r, ok := x.readInto(st, a[0], s)
				if !ok {
					return nil, false
				}
				return r.(VTuple)[1], true
			}
			p, ok := iv.v.(*VPtr)
			if !ok {
				return nil, false
			}
			n, ok := x.binSize(p.elem)
			if !ok {
				return nil, false
			}
			tmp := x.bytesSlice(st, c.Zeros(c.Int(n)))
			r, ok := x.readInto(st, a[0], tmp)
			if !ok {
				return nil, false
			}
			nv, _ := x.binDec(st, ord, x.sliceBytes(st, tmp), 0, p.elem)
			if nv == nil {
				return nil, false
			}
			err := r.(VTuple)[1].(*VIface)
			okT := x.isNil(st, err)
			old := x.load(st, p)
			x.store(st, p, x.iteV(st, okT, nv, old, p.elem))
			return err, true
		},
		"(*encoding/base64.Encoding).EncodeToString": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			return x.c.UF("b64enc", SBytes, x.b(st, a[1])), true
		},
		"(*encoding/base64.Encoding).DecodeString": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			c := x.c
			s := x.b(st, a[1])
			ok := c.UF("b64ok", SBool, s)
			return VTuple{x.bytesSlice(st, c.UF("b64dec", SBytes, s)), x.errIff(st, "b64", ok)}, true
		},
		"encoding/base64.NewEncoder": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			return x.ghostIface(x.newGhost(st, "b64w", map[string]Value{"w": a[1], "buf": x.c.Empty()})), true
		},
		"encoding/hex.EncodeToString": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			c := x.c
			b := x.b(st, a[0])
			r := c.UF("hexenc", SBytes, b)
			x.fact(st, c.Eq(c.Len(r), c.Mul(c.Int(2), c.Len(b))))
			return r, true
		},
		"encoding/hex.DecodeString": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			c := x.c
			s := x.b(st, a[0])
			ok := c.UF("hexok", SBool, s)
			r := c.UF("hexdec", SBytes, s)
			x.fact(st, c.Imp(ok, c.Eq(c.Mul(c.Int(2), c.Len(r)), c.Len(s))))
			return VTuple{x.bytesSlice(st, r), x.errIff(st, "hex", ok)}, true
		},
		"encoding/json.Marshal": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			iv, ok := a[0].(*VIface)
			if !ok || iv.typ == nil {
				return nil, false
			}
			if _, ok := under(iv.typ).(*types.Map); ok {
				// maps of strings, integers, booleans and lists of them: the encoding exists
				return VTuple{x.bytesSlice(st, x.c.UF("jsonmap", SBytes, x.deep(st, iv.v, 0))), &VIface{}}, true
			}
			r, ok2 := x.jsonEnc(st, iv.v, iv.typ)
			return VTuple{x.bytesSlice(st, r), x.errIff(st, "json", ok2)}, true
		},
		"github.com/fatih/structs.Map": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			iv, ok := a[0].(*VIface)
			if !ok {
				return nil, false
			}
			v := x.deepx(st, iv)
			if v.op == "uf" && v.name == "K_some" {
				v = v.args[0] // a pointer and the struct it points to give the same map
			}
			return x.fromVal(st, x.c.UF("structsmap", SVal, v), rt), true
		},
		"encoding/asn1.Marshal": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			iv, ok := a[0].(*VIface)
			if !ok || iv.typ == nil {
				return nil, false
			}
			T := iv.typ
			v := x.deepx(st, iv.v)
			if p, ok := under(T).(*types.Pointer); ok {
				T = p.Elem()
			}
			if plainASN1(T) {
				x.c.plain[typeKey(T)] = true
			}
			r := x.c.UF("asn1:"+typeKey(T), SBytes, v)
			okT := x.c.UF("asn1encok:"+typeKey(T), SBool, v)
			if plainASN1(T) {
				okT = x.c.T
			}
			x.asn1Inverse(st, iv.v, T, r, okT)
			return VTuple{x.bytesSlice(st, r), x.errIff(st, "asn1", okT)}, true
		},
		"encoding/asn1.Unmarshal": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			iv, ok := a[1].(*VIface)
			if !ok || iv.typ == nil {
				return nil, false
			}
			p, ok := iv.v.(*VPtr)
			if !ok {
				return nil, false
			}
			data := x.b(st, a[0])
			T := typeKey(p.elem)
			ov := x.load(st, p)
			prev := ov
			if plainASN1(p.elem) { // every field is written; on errors nothing is known but that it depends on the data
				prev = x.zero(st, p.elem)
			}
			nv := x.fromVal(st, x.c.UF("unasn1:"+T, SVal, data, x.deep(st, prev, 0)), p.elem)
			if sv, ok := nv.(*VStruct); ok && plainASN1(p.elem) { // the decoded bytes are copies
				sv = &VStruct{typ: sv.typ, sym: sv.sym, f: append([]Value{}, sv.f...)}
				for i := range sv.f {
					if s, ok := x.field(st, sv, i).(*VSlice); ok && s.base != nil {
						id := x.newObjIn(st, x.load(st, s.base), s.base.elem, "asn1")
						n := *s
						n.base = &VPtr{obj: id, elem: s.base.elem}
						sv.f[i] = &n
						x.fact(st, x.c.Imp(x.isNil(st, &n), x.c.Eq(n.len, x.c.Int(0))))
					}
				}
				nv = sv
			}
			x.store(st, p, x.keepHidden(st, ov, nv, p.elem, 0))
			if sv, ok := nv.(*VStruct); ok && !plainASN1(p.elem) {
				for i := 0; i < under(p.elem).(*types.Struct).NumFields(); i++ {
					if s, ok := x.field(st, sv, i).(*VSlice); ok && s.base != nil && isByteT(s.elem) {
						x.fact(st, x.c.Imp(x.isNil(st, s), x.c.Eq(s.len, x.c.Int(0))))
					}
				}
			}
			x.asn1Ints(st, nv, p.elem, x.c.UF("asn1ok:"+T, SBool, data))
			rest := x.fresh("asn1rest", SBytes)
			return VTuple{x.bytesSlice(st, rest), x.errIff(st, "unasn1", x.c.UF("asn1ok:"+T, SBool, data))}, true
		},
		"(*math/big.Int).SetBytes": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			p, ok := a[0].(*VPtr)
			if !ok {
				return nil, false
			}
			x.store(st, p, x.c.UF("bigof", SVal, x.b(st, a[1])))
			return p, true
		},
		"(*math/big.Int).Bytes": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			p, ok := a[0].(*VPtr)
			if !ok {
				return nil, false
			}
			x.mayPanic(st, "nil", x.c.Not(x.isNil(st, p)), 0)
			r := x.bigBytes(x.load(st, p).(*Term))
			x.fact(st, x.c.Eq(x.bigBytes(x.c.UF("bigof", SVal, r)), r))
			return x.bytesSlice(st, r), true
		},
		"strings.HasPrefix": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			c := x.c
			s, p := x.b(st, a[0]), x.b(st, a[1])
			return c.And(c.Le(c.Len(p), c.Len(s)), c.Eq(c.SubB(s, c.Int(0), c.Len(p)), p)), true
		},
		"strings.HasSuffix": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			c := x.c
			s, p := x.b(st, a[0]), x.b(st, a[1])
			return c.And(c.Le(c.Len(p), c.Len(s)), c.Eq(c.SubB(s, c.Sub(c.Len(s), c.Len(p)), c.Len(s)), p)), true
		},
		"strconv.ParseUint": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			b, ok1 := a[1].(*Term)
			n, ok2 := a[2].(*Term)
			if !ok1 || !ok2 || !b.isInt() || b.i.Int64() != 10 || !n.isInt() || n.i.Int64() != 64 {
				return nil, false
			}
			s := x.b(st, a[0])
			v := x.c.UF("uintval", SInt, s)
			if v.op == "uf" && !v.bound {
				lo, hi := intRange(types.Typ[types.Uint64])
				x.c.SetRange(v, lo, hi)
			}
			return VTuple{v, x.errIff(st, "parseuint", x.c.UF("uintok", SBool, s))}, true
		},
		"encoding/json.Unmarshal": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			iv, ok := a[1].(*VIface)
			if !ok || iv.typ == nil {
				return nil, false
			}
			p, ok := iv.v.(*VPtr)
			if !ok {
				return nil, false
			}
			data := x.b(st, a[0])
			T := typeKey(p.elem)
			ov := x.load(st, p)
			nv := x.fromVal(st, x.c.UF("unjson:"+T, SVal, data, x.deep(st, ov, 0)), p.elem)
			x.store(st, p, x.keepHidden(st, ov, nv, p.elem, 0))
			return x.errIff(st, "unjson", x.c.UF("jsonok:"+T, SBool, data)), true
		},
		"reflect.DeepEqual": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			i1, ok1 := a[0].(*VIface)
			i2, ok2 := a[1].(*VIface)
			if !ok1 || !ok2 {
				return nil, false
			}
			if i1.typ != nil && i2.typ != nil {
				if !types.Identical(i1.typ, i2.typ) {
					return x.c.F, true
				}
				return x.c.Eq(x.deep(st, i1.v, 0), x.deep(st, i2.v, 0)), true
			}
			return nil, false
		},
		"strings.Index": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			c := x.c
			s, p := x.b(st, a[0]), x.b(st, a[1])
			i := c.UF("strindex", SInt, s, p)
			x.fact(st, c.And(c.Le(c.Int(-1), i), c.Le(i, c.Len(s))))
			x.fact(st, c.Imp(c.Le(c.Int(0), i), c.And(c.Le(c.Add(i, c.Len(p)), c.Len(s)), c.Eq(c.SubB(s, i, c.Add(i, c.Len(p))), p))))
			return i, true
		},
		"errors.New": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			return x.errText(st, x.b(st, a[0])), true
		},
		"fmt.Sprintf": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			// the text is known for a constant format with only %s of strings and bytes
			f, ok := a[0].(*Term)
			l, ok2 := a[1].(*VSlice)
			if ok && ok2 && f.op == "lit" {
				if r := x.sprintf(st, string(f.str), l); r != nil {
					return r, true
				}
			}
			return x.fresh("sprintf", SBytes), true
		},
		"fmt.Errorf": func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			// the text is known for a lone %s of a string or of bytes
			if f, ok := a[0].(*Term); ok && f == x.c.Lit("%s") {
				if l, ok := a[1].(*VSlice); ok && l.base != nil && l.len.isInt() && l.len.I64() == 1 {
					if iv, ok := x.elemAt(st, x.load(st, l.base), l.off, l.elem).(*VIface); ok && iv.typ != nil {
						switch t := iv.typ.(type) {
						case *types.Basic:
							if t.Kind() == types.String {
								return x.errText(st, x.b(st, iv.v)), true
							}
						case *types.Slice:
							if isByteT(t.Elem()) {
								return x.errText(st, x.b(st, iv.v)), true
							}
						}
					}
				}
			}
			return x.someErr(st, "err"), true
		},
		L + "Error": logErr, L + "Errorf": mkErr, L + "Critical": logErr, L + "Criticalf": mkErr, L + "Warn": logErr, L + "Warnf": mkErr,
		L + "Info": nop, L + "Infof": nop, L + "Debug": nop, L + "Debugf": nop, L + "Trace": nop, L + "Tracef": nop,
		"(*sync.Mutex).Lock": nop, "(*sync.Mutex).Unlock": nop, "(*sync.RWMutex).Lock": nop, "(*sync.RWMutex).Unlock": nop,
		"(*sync.WaitGroup).Add": nop, "(*sync.WaitGroup).Done": nop, "(*sync.WaitGroup).Wait": nop,
		"(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,
	}
	delete(models, "nil")
	models["sort.Sort"] = sortSort
	models["sort.Stable"] = sortSort
	for _, o := range []struct{ n, u string }{{"bigEndian", "be"}, {"littleEndian", "le"}} {
		for _, w := range []struct {
			n string
			k int64
		}{{"16", 2}, {"32", 4}, {"64", 8}} {
			models["(encoding/binary."+o.n+").Uint"+w.n] = getN(o.u, w.k)
			models["(encoding/binary."+o.n+").PutUint"+w.n] = putN(o.u, w.k)
		}
	}
	for _, m := range []struct{ meth, uf string }{{"Encrypt", "lionenc"}, {"Decrypt", "liondec"}} {
		m := m
		models["(*github.com/ronperry/cryptoedge/lioness.Lioness)."+m.meth] = func(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
			k := x.ghostField(st, a[0], "lioness", "key")
			if k == nil {
				return nil, false
			}
			d := x.b(st, a[1])
			r := x.c.UF(m.uf, SBytes, k.(*Term), d)
			// 32 bytes and the rest, which must not be empty
			isn := x.c.Le(x.c.Int(33), x.c.Len(d))
			x.fact(st, x.c.Imp(isn, x.c.Eq(x.c.Len(r), x.c.Len(d))))
			s := x.bytesSlice(st, r)
			s.nilT = x.c.Not(isn)
			return VTuple{s, x.errIff(st, m.meth, isn)}, true
		}
	}
	for _, k := range []string{"strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.TrimRight", "strings.Contains",
		"strings.Split", "strings.SplitN", "strings.Fields", "strings.Replace", "strconv.FormatInt", "strconv.FormatUint", "strconv.Itoa", "strconv.ParseInt", "strconv.Atoi",
		"path/filepath.Base", "path/filepath.Ext", "(time.Time).Unix", "(time.Time).UTC", "(time.Time).Format"} {
		models[k] = pureUF(k)
	}
}

// sortSort models sort.Sort of a slice whose Less has a contract with a clause
// "result == E": the elements are permuted (p, with inverse q) and afterwards
// no later element is less than an earlier one. Len and Swap need contracts, too.
func sortSort(x *Exec, st *State, a []Value, rt types.Type) (Value, bool) {
	c := x.c
	iv, ok := a[0].(*VIface)
	if !ok || iv.typ == nil {
		return nil, false
	}
	v, ok := iv.v.(*VSlice)
	if !ok || isByteT(v.elem) {
		return nil, false
	}
	var less *Contract
	for _, m := range []string{"Len", "Less", "Swap"} {
		k := "(" + strings.Replace(typeKey(iv.typ), "mute/", modPath+"/", 1) + ")." + m
		con := x.specs.contracts[k]
		if con == nil {
			x.abort("sort.Sort: %s has no contract", k)
		}
		if m == "Less" {
			less = con
		}
	}
	if v.base == nil {
		return VTuple{}, true
	}
	old := st.clone()
	x.havocObj(st, v.base.obj, map[int]bool{-1: true})
	x.noteWriteObj(st, v.base.obj, -1)
	n := v.len
	x.perms++
	pn, qn := fmt.Sprintf("perm%d", x.perms), fmt.Sprintf("perminv%d", x.perms)
	at := func(s *State, i *Term) *Term {
		return x.toVal(s, x.elemAt(s, x.load(s, v.base), c.Add(v.off, i), v.elem), v.elem)
	}
	in := func(i *Term) *Term { return c.And(c.Le(c.Int(0), i), c.Lt(i, n)) }
	b := c.FreshBound("j", SInt)
	p, q := c.UF(pn, SInt, b), c.UF(qn, SInt, b)
	x.fact(st, c.Forall([]*Term{b}, c.Imp(in(b), c.And(in(p), c.Eq(c.UF(qn, SInt, p), b), c.Eq(at(st, b), at(old, p))))))
	x.fact(st, c.Forall([]*Term{b}, c.Imp(in(b), c.And(in(q), c.Eq(c.UF(pn, SInt, q), b), c.Eq(at(old, b), at(st, q))))))
	i, j := c.FreshBound("i", SInt), c.FreshBound("j", SInt)
	done := false
	for _, cl := range less.ensures {
		be, ok := cl.e.(*ast.BinaryExpr)
		if !ok || be.Op != token.EQL {
			continue
		}
		if id, ok := be.X.(*ast.Ident); !ok || len(less.results) != 1 || id.Name != less.results[0] {
			continue
		}
		e := x.ctxFor(less, st, st, map[string]Value{less.params[0]: v, less.params[1]: j, less.params[2]: i})
		x.fact(st, c.Forall([]*Term{i, j}, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, j), c.Lt(j, n)), c.Not(e.boolT(be.Y)))))
		done = true
	}
	if !done {
		x.abort("sort.Sort: no usable contract for Less")
	}
	return VTuple{}, true
}

// fnModel: models that need control over forking.
func (x *Exec) fnModel(st *State, d int, key string, fn *ssa.Function, args []Value, rt types.Type, k func(*State, Value), sync *bool) bool {
	return false
}

// ifaceModel: methods of unknown implementations of well-known interfaces.
func (x *Exec) ifaceModel(st *State, method, tkey string, iv *VIface, args []Value, rt types.Type) (Value, bool) {
	switch tkey + "." + method {
	case "error.Error":
		return x.c.UF("errstr", SBytes, iv.sym), true
	case "io.Writer.Write", "io.WriteCloser.Write":
		return x.writeTo(st, iv, x.b(st, args[0]))
	}
	return nil, false
}

// sprintf: the text of a format with only %s, or nil.
func (x *Exec) sprintf(st *State, f string, l *VSlice) *Term {
	c := x.c
	var parts []*Term
	n := int64(0)
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			parts = append(parts, c.Lit(f))
			break
		}
		if i > 0 {
			parts = append(parts, c.Lit(f[:i]))
		}
		if i+1 >= len(f) {
			return nil
		}
		v := f[i+1]
		f = f[i+2:]
		if v == '%' {
			parts = append(parts, c.Lit("%"))
			continue
		}
		if v != 's' || l.base == nil || !l.len.isInt() || n >= l.len.I64() {
			return nil
		}
		iv, ok := x.elemAt(st, x.load(st, l.base), c.AddK(l.off, n), l.elem).(*VIface)
		n++
		if !ok || iv.typ == nil {
			return nil
		}
		switch t := iv.typ.(type) {
		case *types.Basic:
			if t.Kind() != types.String {
				return nil
			}
		case *types.Slice:
			if !isByteT(t.Elem()) {
				return nil
			}
		default:
			return nil
		}
		parts = append(parts, x.b(st, iv.v))
	}
	if l.base == nil && n > 0 || l.base != nil && (!l.len.isInt() || l.len.I64() != n) {
		return nil
	}
	return c.Cat(parts...)
}

// keepHidden: a decoder by reflection leaves unexported fields as they were.
func (x *Exec) keepHidden(st *State, ov, nv Value, T types.Type, d int) Value {
	c := x.c
	if d > 5 {
		return nv
	}
	switch u := under(T).(type) {
	case *types.Struct:
		os, ok1 := ov.(*VStruct)
		ns, ok2 := nv.(*VStruct)
		if !ok1 || !ok2 {
			return nv
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			o := x.field(st, os, i)
			if !f.Exported() {
				ns = ns.with(i, o)
				continue
			}
			n := x.field(st, ns, i)
			if k := x.keepHidden(st, o, n, f.Type(), d+1); k != n {
				ns = ns.with(i, k)
			}
		}
		return ns
	case *types.Pointer:
		// a target that was nil becomes a new object with zero unexported fields
		op, ok1 := ov.(*VPtr)
		np, ok2 := nv.(*VPtr)
		s, ok3 := under(u.Elem()).(*types.Struct)
		if !ok1 || !ok2 || !ok3 || op.sym != nil || op.obj != 0 || np.sym == nil {
			return nv
		}
		x.hiddenZero(st, c.UF("deref", SVal, np.sym), u.Elem(), s)
	case *types.Slice:
		os, ok1 := ov.(*VSlice)
		ns, ok2 := nv.(*VSlice)
		s, ok3 := under(u.Elem()).(*types.Struct)
		if !ok1 || !ok2 || !ok3 || os.base != nil || ns.base == nil {
			return nv
		}
		j := c.FreshBound("j", SInt)
		el := c.UF("elem", SVal, x.seqTerm(st, ns), j)
		var cs []*Term
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if f.Exported() {
				continue
			}
			if t := x.isZeroT(st, x.fromVal(st, c.UF(fmt.Sprintf("f:%s#%d", typeKey(u.Elem()), i), SVal, el), f.Type())); t != nil {
				cs = append(cs, t)
			}
		}
		if len(cs) > 0 {
			x.fact(st, c.Forall([]*Term{j}, c.Imp(c.And(c.Le(c.Int(0), j), c.Lt(j, ns.len)), c.And(cs...))))
		}
	}
	return nv
}

// jsonEnc: the JSON encoding of a value and whether it exists.
func (x *Exec) jsonEnc(st *State, val Value, T types.Type) (*Term, *Term) {
	v := x.deepx(st, val)
	if p, ok := under(T).(*types.Pointer); ok {
		T = p.Elem()
		if v.op == "uf" && v.name == "K_some" {
			v = v.args[0]
		}
	}
	return x.c.UF("json:"+typeKey(T), SBytes, v), x.c.UF("jsonencok:"+typeKey(T), SBool, v)
}

// asn1Ints: the big integers of a decoded value are there.
func (x *Exec) asn1Ints(st *State, v Value, T types.Type, ok *Term) {
	s, is := under(T).(*types.Struct)
	sv, isv := v.(*VStruct)
	if !is || !isv {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() || strings.Contains(s.Tag(i), "asn1:") {
			continue
		}
		switch u := f.Type().Underlying().(type) {
		case *types.Struct:
			if n, named := f.Type().(*types.Named); named && x.opaqueType(n) {
				continue
			}
			x.asn1Ints(st, x.field(st, sv, i), f.Type(), ok)
		case *types.Pointer:
			if u.Elem().String() == "math/big.Int" {
				x.fact(st, x.c.Imp(ok, x.c.Not(x.isNil(st, x.field(st, sv, i)))))
			}
		}
	}
}

// asn1Inverse: decoding an encoding gives the values of the leaf fields again.
func (x *Exec) asn1Inverse(st *State, v Value, T types.Type, enc, ok *Term) {
	if p, isp := v.(*VPtr); isp {
		v = x.load(st, p)
	}
	sv, is := v.(*VStruct)
	if !is {
		return
	}
	c := x.c
	s := under(T).(*types.Struct)
	dec := c.UF("unasn1:"+typeKey(T), SVal, enc, x.deep(st, x.zero(st, T), 0))
	x.fact(st, c.Imp(ok, c.UF("asn1ok:"+typeKey(T), SBool, enc)))
	dv := x.fromVal(st, dec, T).(*VStruct)
	for i := 0; i < s.NumFields(); i++ {
		if !s.Field(i).Exported() {
			continue
		}
		f, g := x.field(st, sv, i), x.field(st, dv, i)
		switch u := under(s.Field(i).Type()).(type) {
		case *types.Basic:
			x.fact(st, c.Imp(ok, c.Eq(f.(*Term), g.(*Term))))
		case *types.Slice:
			if isByteT(u.Elem()) {
				x.fact(st, c.Imp(ok, c.Eq(x.b(st, f), x.b(st, g))))
			} else if e, is := under(u.Elem()).(*types.Slice); is && isByteT(e.Elem()) {
				// a list of byte strings
				fs, is1 := f.(*VSlice)
				gs, is2 := g.(*VSlice)
				if !is1 || !is2 {
					continue
				}
				j := c.FreshBound("j", SInt)
				at := func(s *VSlice) *Term {
					return x.b(st, x.elemAt(st, x.load(st, s.base), c.Add(s.off, j), s.elem))
				}
				x.fact(st, c.Imp(ok, c.Eq(fs.len, gs.len)))
				if fs.base != nil && gs.base != nil {
					x.fact(st, c.Imp(ok, c.Forall([]*Term{j}, c.Imp(c.And(c.Le(c.Int(0), j), c.Lt(j, fs.len)), c.Eq(at(fs), at(gs))))))
				}
			}
		}
	}
}

// bigBytes: the big-endian bytes of a big integer, without leading zeros.
func (x *Exec) bigBytes(v *Term) *Term {
	return x.c.UF("bigbytes", SBytes, v)
}

func (x *Exec) isZeroT(st *State, v Value) *Term {
	switch v := v.(type) {
	case *Term:
		if v.sort == SBool {
			return x.c.Not(v)
		}
		if v.sort == SInt {
			return x.c.Eq(v, x.c.Int(0))
		}
	case *VPtr:
		return x.isNil(st, v)
	}
	return nil
}
func (x *Exec) hiddenZero(st *State, v *Term, T types.Type, s *types.Struct) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Exported() {
			continue
		}
		if t := x.isZeroT(st, x.fromVal(st, x.c.UF(fmt.Sprintf("f:%s#%d", typeKey(T), i), SVal, v), f.Type())); t != nil {
			x.fact(st, t)
		}
	}
}

// plainASN1: encoding/asn1 can encode every value of the type.
func plainASN1(T types.Type) bool {
	s, ok := under(T).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if !s.Field(i).Exported() || strings.Contains(s.Tag(i), "asn1") {
			return false
		}
		switch f := under(s.Field(i).Type()).(type) {
		case *types.Basic:
			switch f.Kind() {
			case types.Bool, types.Int, types.Int32, types.Int64:
			default:
				return false
			}
		case *types.Slice:
			if e, is := under(f.Elem()).(*types.Slice); !isByteT(f.Elem()) && !(is && isByteT(e.Elem())) {
				return false
			}
		default:
			return false
		}
	}
	return true
}
