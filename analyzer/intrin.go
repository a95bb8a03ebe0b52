package main

// Models of library functions.

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(e *Engine, fn *ssa.Function, a []Value) []Value

var intrinsics map[string]intrinsic

var billion = big.NewInt(1e9)

func one1(v Value) []Value { return []Value{v} }

func (e *Engine) errIf(cond Value, name string) Value {
	if cond == bFalse {
		return nilV
	}
	return ite(cond, e.newError(name, nil), nilV)
}

func resType(fn *ssa.Function, i int) types.Type { return fn.Signature.Results().At(i).Type() }

// --- math/big

func (e *Engine) bigGet(p Value) Value {
	return mapLeaves(p, func(p Value) Value {
		switch p := p.(type) {
		case *Ptr:
			return simp(e.loadPath(p.obj, p.path), e.st.pc)
		case *App:
			return intAtom("bigint", nil, nil, p)
		case *NilV:
			return unknown("nil *big.Int")
		}
		return badOr(p, "big.Int %s")
	})
}

func bigOp(f func(e *Engine, x []Value) Value) intrinsic {
	return func(e *Engine, fn *ssa.Function, a []Value) []Value {
		for _, p := range a {
			if _, ok := p.(*NilV); ok {
				e.panicIf(bTrue, "nil *big.Int")
			}
		}
		xs := make([]Value, 0, len(a))
		for i, p := range a[1:] {
			t := fn.Signature.Params().At(i).Type()
			if _, ok := under(t).(*types.Pointer); ok {
				xs = append(xs, e.bigGet(p))
			} else {
				xs = append(xs, p)
			}
		}
		v := f(e, xs)
		e.store(a[0], v)
		return one1(a[0])
	}
}

func bigQ(f func(e *Engine, x Value, rest []Value) Value) intrinsic {
	return func(e *Engine, fn *ssa.Function, a []Value) []Value {
		if _, ok := a[0].(*NilV); ok {
			e.panicIf(bTrue, "nil *big.Int")
		}
		return one1(f(e, e.bigGet(a[0]), a[1:]))
	}
}

func (e *Engine) newBig(v Value) Value {
	o := newObj("bigint", nil)
	e.st.heap[o] = v
	return mkPtr(o)
}

func euclidMod(e *Engine, x, y Value) Value {
	return lift2(x, y, func(x, y Value) Value {
		if c, ok := isConst(y); ok && c.Sign() > 0 {
			return floorMod(x, c)
		}
		if u := bad(x, y); u != nil {
			return u
		}
		return intAtom("mod", zero, nil, x, y)
	})
}

func euclidDiv(e *Engine, x, y Value) Value {
	return lift2(x, y, func(x, y Value) Value {
		if c, ok := isConst(y); ok && c.Sign() > 0 {
			return floorDiv(x, c)
		}
		if u := bad(x, y); u != nil {
			return u
		}
		return intAtom("div", nil, nil, x, y)
	})
}

func signOf(x Value) Value {
	return ite(lt(x, linInt(0)), linInt(-1), ite(le(x, linInt(0)), linInt(0), linInt(1)))
}

func cmpV(x, y Value) Value {
	return ite(lt(x, y), linInt(-1), ite(le(x, y), linInt(0), linInt(1)))
}

func (e *Engine) fillBytes(v Value, buf Value) {
	e.splitAll([]Value{v, buf}, func(vs []Value) {
		v, buf := vs[0], vs[1]
		s, ok := buf.(*SliceV)
		if !ok {
			if _, isNil := buf.(*NilV); isNil {
				e.panicIf(not(eqInt(v, linInt(0))), "big.Int.FillBytes: buffer too small")
			}
			return
		}
		e.splitAll([]Value{s.len}, func(ls []Value) {
			n, ok := constInt(ls[0])
			if !ok {
				mn := simp(ropeMin(simp(abs(v), e.st.pc)), e.st.pc).(*Rope)
				if pad := simp(sub(ls[0], ropeLen(mn)), e.st.pc); !isGate(pad) && bad(pad) == nil && withFacts(e.st.pc, func() Value { return le(linInt(0), pad) }) == bTrue {
					e.writeBytes(s.obj, s.path, s.off, ropeCat(mkRope([]Piece{{kind: "zeros", n: pad}}), mn))
					return
				}
				e.writeBytes(s.obj, s.path, s.off, ropeUnknown(unknown("FillBytes into buffer of length %s", show(ls[0]))))
				return
			}
			mag := abs(v)
			e.panicIf(le(linConst(pow2(8*n)), mag), "big.Int.FillBytes: buffer too small")
			e.writeBytes(s.obj, s.path, s.off, ropeFix(n, simp(mag, e.st.pc)))
		})
	})
}

// --- buffers and writers

func (e *Engine) bufRope(p Value) *Rope {
	return ropeOf(mapLeaves(p, func(p Value) Value {
		if q, ok := p.(*Ptr); ok {
			c := e.loadPath(q.obj, q.path)
			return mapLeaves(c, func(c Value) Value {
				if n, ok := c.(*Native); ok && n.kind == "buf" {
					return n.fs[0]
				}
				return badOr(c, "buffer %s")
			})
		}
		return badOr(p, "buffer %s")
	}))
}

func (e *Engine) bufSet(p Value, r *Rope) { e.store(p, mkNative("buf", r)) }

func bufWrite(get func(e *Engine, v Value) *Rope, withErr bool, n bool) intrinsic {
	return func(e *Engine, fn *ssa.Function, a []Value) []Value {
		r := get(e, a[1])
		e.derefCheck(a[0])
		e.bufSet(a[0], ropeCat(e.bufRope(a[0]), r))
		var out []Value
		if n {
			out = append(out, ropeLen(r))
		}
		if withErr {
			out = append(out, nilV)
		}
		return out
	}
}

func getBytes(e *Engine, v Value) *Rope { return e.bytesOf(v) }
func getByte(e *Engine, v Value) *Rope  { return e.byteRope(v) }

// writeTo writes r to an io.Writer value; returns n and err.
func (e *Engine) writeTo(w Value, r *Rope) (Value, Value) {
	if isGate(w) {
		rs := e.splitCall([]Value{w}, 2, func(vs []Value) []Value {
			n, err := e.writeTo(vs[0], r)
			return []Value{n, err}
		})
		return rs[0], rs[1]
	}
	i, ok := w.(*Iface)
	if !ok {
		if _, isNil := w.(*NilV); isNil {
			e.panicIf(bTrue, "write to nil writer")
		}
		e.unmodelled("write to " + show(w))
		u := badOr(w, "write to %s")
		return u, u
	}
	switch namedPath(derefT(i.typ)) {
	case "bytes.Buffer", "strings.Builder":
		e.derefCheck(i.v)
		e.bufSet(i.v, ropeCat(e.bufRope(i.v), r))
		return ropeLen(r), nilV
	}
	rs := e.invoke(i, "Write", []Value{e.newBytes(r)}, nil)
	if len(rs) == 2 {
		return rs[0], rs[1]
	}
	u := unknown("write to %s", i.typ)
	return u, u
}

func derefT(t types.Type) types.Type {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// --- formatting

func (e *Engine) format(f Value, args []Value) (*Rope, []Value) {
	var wrapped []Value
	s, ok := f.(*Rope)
	str := ""
	if ok {
		str, ok = ropeConstStr(s)
	}
	if !ok {
		return ropeStr("sprintf", nil, append([]Value{f}, e.deepAll(args)...)...), nil
	}
	out := emptyRope
	lit := ""
	flush := func() {
		if lit != "" {
			out = ropeCat(out, ropeConst(lit))
			lit = ""
		}
	}
	ai := 0
	for i := 0; i < len(str); i++ {
		if str[i] != '%' {
			lit += str[i : i+1]
			continue
		}
		i++
		if i >= len(str) {
			lit += "%!(NOVERB)"
			break
		}
		if str[i] == '%' {
			lit += "%"
			continue
		}
		spec := "%"
		for i < len(str) && strings.ContainsRune("+-# 0123456789.*", rune(str[i])) {
			spec += string(str[i])
			i++
		}
		if i >= len(str) {
			break
		}
		verb := str[i]
		spec += string(verb)
		if ai >= len(args) {
			lit += "%!" + string(verb) + "(MISSING)"
			continue
		}
		a := args[ai]
		ai++
		if verb == 'w' {
			wrapped = append(wrapped, a)
		}
		flush()
		out = ropeCat(out, e.formatArg(spec, verb, a))
	}
	flush()
	return out, wrapped
}

func (e *Engine) formatArg(spec string, verb byte, a Value) *Rope {
	return ropeOf(mapLeaves(a, func(a Value) Value {
		if u := bad(a); u != nil {
			return u
		}
		i, ok := a.(*Iface)
		if !ok {
			return ropeStr("fmt"+spec, nil, e.deep(a))
		}
		if nativeKind(i.typ) == "error" && len(spec) == 2 && (verb == 's' || verb == 'v' || verb == 'w') {
			if n := e.hashNative(i.v); n != nil {
				return ropeOf(n.fs[0])
			}
		}
		hasMethod := func(n string) bool {
			if nativeKind(i.typ) != "" {
				return true
			}
			return e.lookupMethod(i.typ, n) != nil
		}
		if len(spec) == 2 && (verb == 's' || verb == 'v') && !hasMethod("Error") && !hasMethod("String") {
			if r, ok := i.v.(*Rope); ok {
				return r
			}
			if s, ok := under(i.typ).(*types.Slice); ok && isByte(s.Elem()) && verb == 's' {
				return e.bytesOf(i.v)
			}
		}
		if hasMethod("Error") || hasMethod("String") {
			if verb == 's' || verb == 'v' || verb == 'w' {
				if r := e.ownText(i); r != nil && len(spec) == 2 {
					return r
				}
			}
			return ropeStr("fmt"+spec, nil, e.deep(i.v))
		}
		if r := foldFormat(spec, i); r != nil {
			return r
		}
		if b, ok := under(i.typ).(*types.Basic); ok && b.Info()&types.IsInteger != 0 && len(spec) == 2 && (verb == 'd' || verb == 'v') {
			return mapLeaves(i.v, func(v Value) Value {
				if c, ok := isConst(v); ok {
					return ropeConst(c.String())
				}
				return ropeStr("dec", nil, v)
			})
		}
		return ropeStr("fmt"+spec, nil, e.deep(i.v))
	}))
}

// ownText is the text a type of the repository gives for its values.
func (e *Engine) ownText(i *Iface) *Rope {
	for _, n := range []string{"Error", "String"} {
		if nativeKind(i.typ) != "" {
			return nil
		}
		fn := e.lookupMethod(i.typ, n)
		if fn == nil {
			continue
		}
		if !e.repoPath(pkgPathOf(fn)) || fn.Signature.Params().Len() != 0 {
			return nil
		}
		if rs := e.dispatch(fn, []Value{i.v}, nil); len(rs) == 1 {
			return ropeOf(rs[0])
		}
		return nil
	}
	return nil
}

// foldFormat formats constants.
func foldFormat(spec string, i *Iface) *Rope {
	if strings.ContainsRune(spec, '*') {
		return nil
	}
	switch b, _ := under(i.typ).(*types.Basic); {
	case b == nil:
	case b.Info()&types.IsString != 0:
		if r, ok := i.v.(*Rope); ok {
			if s, ok := ropeConstStr(r); ok {
				return ropeConst(fmt.Sprintf(spec, s))
			}
		}
	case b.Info()&types.IsInteger != 0:
		if c, ok := isConst(i.v); ok {
			if b.Info()&types.IsUnsigned != 0 && c.IsUint64() {
				return ropeConst(fmt.Sprintf(spec, c.Uint64()))
			}
			if c.IsInt64() {
				return ropeConst(fmt.Sprintf(spec, c.Int64()))
			}
		}
	case b.Info()&types.IsBoolean != 0:
		if i.v == bTrue || i.v == bFalse {
			return ropeConst(fmt.Sprintf(spec, i.v == bTrue))
		}
	}
	return nil
}

func (e *Engine) sprint(args []Value, ln bool) *Rope {
	out := emptyRope
	isStr := func(v Value) bool {
		i, ok := v.(*Iface)
		if !ok {
			return false
		}
		b, ok := under(i.typ).(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	for k, a := range args {
		if !ln && k > 0 && !isStr(a) && !isStr(args[k-1]) {
			out = ropeCat(out, ropeConst(" "))
		}
		if ln && k > 0 {
			out = ropeCat(out, ropeConst(" "))
		}
		out = ropeCat(out, e.formatArg("%v", 'v', a))
	}
	if ln {
		out = ropeCat(out, ropeConst("\n"))
	}
	return out
}

func (e *Engine) variadic(v Value) []Value {
	if es, ok := e.elems(v); ok {
		return es
	}
	return []Value{opq("varargs", v)}
}

// --- readers

// drawBytes reads exactly n bytes from a reader; returns content and error condition.
func (e *Engine) drawBytes(r Value, n int) (*Rope, Value, bool) {
	i, ok := r.(*Iface)
	if !ok {
		return nil, nil, false
	}
	if namedPath(derefT(i.typ)) == "os.File" {
		return e.drawFile(i, n)
	}
	switch nativeKind(i.typ) {
	case "multireader":
		rs := e.multi(r)
		if len(rs) == 0 {
			return nil, nil, false
		}
		data, err := e.viaBuffer(rs[0], n)
		fail := not(e.nilCond(err))
		for _, x := range rs[1:] {
			cond := fail
			var d2 *Rope = emptyRope
			var err2 Value = nilV
			e.branch(cond, func() { d2, err2 = e.viaBuffer(x, n) }, func() {})
			if d2 == nil || data == nil || bad(data) != nil || bad(d2) != nil {
				return nil, nil, false
			}
			data = ropeOf(ite(cond, d2, data))
			fail = and(cond, not(e.nilCond(err2)))
		}
		return data, fail, data != nil
	case "stream":
		p := i.v.(*Ptr)
		nat, ok := e.loadPath(p.obj, p.path).(*Native)
		if !ok {
			return nil, nil, false
		}
		ctr := e.drawn("bytes:"+strconv.Itoa(n), nat.fs[0], nat.fs[1])
		e.store(p, mkNative("stream", nat.fs[0], addI(nat.fs[1], 1)))
		return ropeStr("random", linInt(int64(n)), nat.fs[0], ctr, linInt(int64(n))), e.randFail(nat.fs[0], ctr), true
	case "hkdf":
		p := i.v.(*Ptr)
		nat, ok := e.loadPath(p.obj, p.path).(*Native)
		if !ok {
			return nil, nil, false
		}
		pos, ok := constInt(nat.fs[3])
		if !ok {
			return nil, nil, false
		}
		name, _ := ropeConstStr(nat.fs[0].(*Rope))
		sz := hashSizes[name]
		if sz == 0 {
			return nil, nil, false
		}
		end := pos + n
		if end > 255*sz {
			return emptyRope, bTrue, true
		}
		all := emptyRope
		for b := pos / sz; b*sz < end; b++ {
			all = ropeCat(all, ropeStr("hkdf", linInt(int64(sz)), nat.fs[0], nat.fs[1], nat.fs[2], linInt(int64(b+1))))
		}
		out, ok := ropeSlice(all, linInt(int64(pos-pos/sz*sz)), linInt(int64(n)))
		if !ok {
			return nil, nil, false
		}
		e.store(p, mkNative("hkdf", nat.fs[0], nat.fs[1], nat.fs[2], linInt(int64(end))))
		return out, bFalse, true
	}
	return nil, nil, false
}

func (e *Engine) readFull(r, buf Value) []Value {
	return e.splitCall([]Value{r, buf}, 2, func(vs []Value) []Value {
		r, buf := vs[0], vs[1]
		n, ok := constInt(e.sliceLen(buf))
		s, ok2 := buf.(*SliceV)
		if _, isNil := buf.(*NilV); isNil || (ok && n == 0) {
			return []Value{linInt(0), nilV}
		}
		if _, f := e.fileOf(r); f != nil && ok && ok2 && n == 1 && fileName(f) == "os.Stdin" && e.cli != nil && e.cli.keys != nil {
			return e.fileRead(r, buf)
		}
		if ok && ok2 {
			if fn := e.customReader(r); fn != nil {
				return e.readCustom(r, fn, s, n)
			}
			if data, fail, ok := e.drawBytes(r, n); ok {
				if fail == bFalse {
					e.writeBytes(s.obj, s.path, s.off, data)
					return []Value{linInt(int64(n)), nilV}
				}
				err := e.errIf(fail, "read failed")
				e.branch(fail, func() {
					e.writeBytes(s.obj, s.path, s.off, ropeStr("partialread", linInt(int64(n)), linInt(int64(e.fresh()))))
				}, func() {
					e.writeBytes(s.obj, s.path, s.off, data)
				})
				return []Value{ite(fail, intAtom("nread", zero, big.NewInt(int64(n)), linInt(int64(e.fresh()))), linInt(int64(n))), err}
			}
		}
		e.havocArgs([]Value{buf}, "read from unmodelled reader")
		e.opaque["read from "+show(r)]++
		u := unknown("read from %s", show(r))
		return []Value{u, u}
	})
}

// singleRead is one Read of a caller-supplied reader: it may return fewer bytes than asked.
func (e *Engine) singleRead(recv Value, s *SliceV) []Value {
	n, ok := constInt(s.len)
	if !ok {
		e.setPath(s.obj, s.path, unknown("single Read of a caller-supplied reader may be short"))
		return []Value{unknown("single Read"), unknown("single Read")}
	}
	r := mkIface(nativeType("stream"), recv)
	if n < 2 {
		return e.readFull(r, s)
	}
	id, ctr, _, ok := e.streamID(r)
	if !ok {
		e.setPath(s.obj, s.path, unknown("single Read of a caller-supplied reader may be short"))
		return []Value{unknown("single Read"), unknown("single Read")}
	}
	short := boolApp("shortread", id, ctr)
	var a, b []Value
	e.branch(short, func() { a = e.readFull(r, mkSlice(s.obj, s.path, s.off, linInt(int64(n-1)), s.capn)) },
		func() { b = e.readFull(r, s) })
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	return []Value{ite(short, a[0], b[0]), ite(short, a[1], b[1])}
}

// customReader gives the Read method of a reader that the program itself defines.
func (e *Engine) customReader(r Value) *ssa.Function {
	i, ok := r.(*Iface)
	if !ok || nativeKind(i.typ) != "" || e.embedded(i, "Read") != nil {
		return nil
	}
	fn := e.lookupMethod(i.typ, "Read")
	if fn == nil || fn.Pkg == nil || !e.repoPath(fn.Pkg.Pkg.Path()) || len(fn.Blocks) == 0 {
		return nil
	}
	return fn
}

// readCustom fills a buffer by calling a Read method of the program as often as needed.
func (e *Engine) readCustom(r Value, fn *ssa.Function, s *SliceV, n int) []Value {
	recv := r.(*Iface).v
	done := 0
	for k := 0; k < 40; k++ {
		res := e.dispatch(fn, []Value{recv, mkSlice(s.obj, s.path, addI(s.off, int64(done)), linInt(int64(n-done)), linInt(int64(n-done)))}, nil)
		if len(res) != 2 {
			break
		}
		m, ok := constInt(res[0])
		if !ok {
			if done == 0 {
				// all or nothing in every case
				full := true
				mapLeaves(res[0], func(v Value) Value {
					if c, ok := constInt(v); !ok || (c != n && c != 0) {
						full = false
					}
					return v
				})
				if full {
					return []Value{res[0], res[1]}
				}
			}
			break
		}
		done += m
		if done >= n {
			return []Value{linInt(int64(n)), nilV}
		}
		if res[1] != nilV {
			return []Value{linInt(int64(done)), res[1]}
		}
	}
	e.havocArgs([]Value{s}, "read from a reader of the program")
	u := unknown("read from %s", show(r))
	return []Value{u, u}
}

// viaBuffer draws n bytes from any modelled reader.
func (e *Engine) viaBuffer(r Value, n int) (*Rope, Value) {
	buf := e.newBytes(ropeZeros(linInt(int64(n))))
	res := e.readFull(r, buf)
	return e.bytesOf(buf), res[1]
}

var freshN int

func (e *Engine) fresh() int { freshN++; return freshN }

// --- hashes

var hashSizes = map[string]int{"sha1": 20, "sha256": 32, "sha224": 28, "sha384": 48, "sha512": 64, "md5": 16}
var hashBlock = map[string]int{"sha1": 64, "sha256": 64, "sha224": 64, "sha384": 128, "sha512": 128, "md5": 64}

func digest(name string, r *Rope) *Rope { return ropeStr(name, linInt(int64(hashSizes[name])), r) }

func (e *Engine) newHash(name string) Value {
	o := newObj("hash", nil)
	e.st.heap[o] = mkNative("hash", ropeConst(name), emptyRope)
	return mkIface(nativeType("hash"), mkPtr(o))
}

func (e *Engine) newHmac(name string, key *Rope) Value {
	o := newObj("hash", nil)
	e.st.heap[o] = mkNative("hash", ropeConst("hmac-"+name), emptyRope, key)
	return mkIface(nativeType("hash"), mkPtr(o))
}

func (e *Engine) hashNative(p Value) *Native {
	q, ok := p.(*Ptr)
	if !ok {
		return nil
	}
	n, _ := e.loadPath(q.obj, q.path).(*Native)
	return n
}

func (e *Engine) nativeMethod(kind string, recv Value, name string, a []Value, sig *types.Signature) []Value {
	u := func() []Value {
		if kind == "file" {
			e.unmodelled("method " + name + " of " + kind)
		} else {
			e.opaque["method "+name+" of "+kind]++
		}
		n := 1
		if sig != nil {
			n = sig.Results().Len()
		}
		out := make([]Value, n)
		for i := range out {
			out[i] = unknown("method %s of %s", name, kind)
		}
		return out
	}
	switch kind {
	case "hash":
		n := e.hashNative(recv)
		if n == nil {
			return u()
		}
		hn, _ := ropeConstStr(n.fs[0].(*Rope))
		base := strings.TrimPrefix(hn, "hmac-")
		switch name {
		case "Write":
			r := e.bytesOf(a[0])
			fs := append([]Value(nil), n.fs...)
			fs[1] = ropeCat(ropeOf(fs[1]), r)
			e.store(recv, mkNative("hash", fs...))
			return []Value{ropeLen(r), nilV}
		case "Sum":
			var d *Rope
			if len(n.fs) > 2 {
				d = ropeStr(hn, linInt(int64(hashSizes[base])), n.fs[2], n.fs[1])
			} else {
				d = digest(hn, ropeOf(n.fs[1]))
			}
			return one1(e.appendV([]Value{a[0], e.newBytes(d)}, []types.Type{byteSlice}))
		case "Reset":
			fs := append([]Value(nil), n.fs...)
			fs[1] = emptyRope
			e.store(recv, mkNative("hash", fs...))
			return nil
		case "Size":
			return one1(linInt(int64(hashSizes[base])))
		case "BlockSize":
			return one1(linInt(int64(hashBlock[base])))
		}
	case "stream", "hkdf", "multireader":
		if name == "Read" {
			// a single Read may return fewer bytes than asked for
			if kind == "stream" {
				if nat := e.hashNative(recv); nat != nil {
					if nm, _ := ropeConstStr(nat.fs[0].(*Rope)); nm != "crypto/rand" {
						s, ok := a[0].(*SliceV)
						if !ok {
							return u()
						}
						return e.singleRead(recv, s)
					}
				}
			}
			return e.readFull(mkIface(nativeType(kind), recv), a[0])
		}
	case "ctx":
		n := e.hashNative(recv)
		if n == nil {
			return u()
		}
		switch name {
		case "Done":
			return one1(n.fs[0])
		case "Err":
			if ready, _, _, _ := e.chanReady(n.fs[0]); ready != nil {
				return one1(ite(ready, e.pkgGlobal("context", "Canceled"), nilV))
			}
		}
	case "error":
		switch name {
		case "Error":
			n := e.hashNative(recv)
			if n == nil {
				return u()
			}
			return one1(ropeOf(n.fs[0]))
		case "Unwrap":
			n := e.hashNative(recv)
			if n != nil && len(n.fs) == 2 {
				return one1(n.fs[1])
			}
			return one1(nilV)
		}
	case "block":
		n := e.hashNative(recv)
		if n == nil {
			return u()
		}
		switch name {
		case "BlockSize":
			return one1(linInt(16))
		case "Encrypt", "Decrypt":
			dst, src := a[0], e.bytesOf(a[1])
			e.panicIf(lt(ropeLen(src), linInt(16)), "crypto/aes: input not full block")
			e.panicIf(lt(e.sliceLen(dst), linInt(16)), "crypto/aes: output not full block")
			in := ropeOf(ropeSliceU(src, linInt(0), linInt(16), e.st.pc))
			var out *Rope
			if name == "Encrypt" {
				out = aesEnc(n.fs[0].(*Rope), in)
			} else {
				out = aesDec(n.fs[0].(*Rope), in)
			}
			e.split(dst, func(d Value) {
				if s, ok := d.(*SliceV); ok {
					e.writeBytes(s.obj, s.path, s.off, out)
				}
			})
			return nil
		}
	case "cfb":
		if name == "XORKeyStream" {
			n := e.hashNative(recv)
			if n == nil {
				return u()
			}
			src := e.bytesOf(a[1])
			e.panicIf(lt(e.sliceLen(a[0]), ropeLen(src)), "crypto/cipher: output smaller than input")
			mode, _ := ropeConstStr(n.fs[0].(*Rope))
			out := ropeStr(mode, ropeLen(src), n.fs[1], n.fs[2], n.fs[3], src)
			e.split(a[0], func(d Value) {
				if s, ok := d.(*SliceV); ok {
					e.writeBytes(s.obj, s.path, s.off, out)
				}
			})
			e.store(recv, mkNative("cfb", n.fs[0], n.fs[1], n.fs[2], ropeCat(ropeOf(n.fs[3]), src)))
			return nil
		}
	case "armor":
		n := e.hashNative(recv)
		if n == nil {
			return u()
		}
		switch name {
		case "Write":
			r := e.bytesOf(a[0])
			e.store(recv, mkNative("armor", n.fs[0], n.fs[1], n.fs[2], ropeCat(ropeOf(n.fs[3]), r)))
			return []Value{ropeLen(r), nilV}
		case "Close":
			_, err := e.writeTo(n.fs[0], ropeStr("armor", nil, n.fs[1], n.fs[2], n.fs[3]))
			return one1(err)
		}
	}
	return u()
}

func aesPair(inv string, key, in *Rope) (*Rope, bool) {
	if len(in.ps) == 1 && in.ps[0].kind == "fix" {
		if l, ok := in.ps[0].v.(*Lin); ok && len(l.ts) == 1 && l.c.Sign() == 0 && l.ts[0].c.Cmp(one) == 0 {
			if a := l.ts[0].a; a.fn == "beint" {
				if b, ok := a.args[0].(*App); ok && b.fn == inv && b.args[0] == Value(key) {
					return b.args[1].(*Rope), true
				}
			}
		}
	}
	return nil, false
}

func aesEnc(key, in *Rope) *Rope {
	if r, ok := aesPair("aesdec", key, in); ok {
		return r
	}
	return ropeStr("aesenc", linInt(16), key, in)
}

func aesDec(key, in *Rope) *Rope {
	if r, ok := aesPair("aesenc", key, in); ok {
		return r
	}
	return ropeStr("aesdec", linInt(16), key, in)
}

// clamp is the X25519 scalar clamping of a 32-byte string.
func clamp(r *Rope) *Rope {
	v := ropeInt(r)
	// big-endian integer: byte 0 is the most significant one
	m := new(big.Int).Sub(pow2(256), one)
	m.Sub(m, new(big.Int).Lsh(big.NewInt(7), 248)) // byte 0 &= 248
	m.Sub(m, big.NewInt(0x80))                     // byte 31 &= 127
	v = bitOp("and", v, linConst(m))
	v = bitOp("or", v, linInt(64))
	return ropeFix(32, v)
}

func lower(r *Rope) *Rope {
	if len(r.ps) == 0 {
		return r
	}
	if s, ok := ropeConstStr(r); ok {
		return ropeConst(strings.ToLower(s))
	}
	if len(r.ps) == 1 && r.ps[0].kind == "gate" {
		return ropeOf(mapLeaves(r.ps[0].v, func(l Value) Value { return lower(l.(*Rope)) }))
	}
	if len(r.ps) == 1 && r.ps[0].kind == "sub" && r.ps[0].n == r.ps[0].a.n {
		switch r.ps[0].a.fn {
		case "word", "tolower":
			return r
		}
	}
	return ropeStr("tolower", nil, r)
}

func (e *Engine) seconds(d Value, unit *big.Int) Value { return floorDiv(d, unit) }

func timeNs(v Value) Value {
	return mapLeaves(v, func(v Value) Value {
		if t, ok := v.(*TimeV); ok {
			return t.ns
		}
		return badOr(v, "time %s")
	})
}

var (
	maxI64 = new(big.Int).Sub(pow2(63), one)
	minI64 = new(big.Int).Neg(pow2(63))
)

func saturate(d Value) Value {
	return mapLeaves(d, func(d Value) Value {
		if u := bad(d); u != nil {
			return u
		}
		return ite(lt(linConst(maxI64), d), linConst(maxI64), ite(lt(d, linConst(minI64)), linConst(minI64), d))
	})
}

func (e *Engine) bytesCmp(f func(a, b *Rope) Value) intrinsic {
	return func(e *Engine, fn *ssa.Function, a []Value) []Value {
		return one1(f(e.bytesOf(a[0]), e.bytesOf(a[1])))
	}
}

func putUint(n int, little bool) intrinsic {
	return func(e *Engine, fn *ssa.Function, a []Value) []Value {
		v := a[len(a)-1]
		buf := a[len(a)-2]
		e.panicIf(lt(e.sliceLen(buf), linInt(int64(n))), "index out of range")
		e.split(buf, func(b Value) {
			s, ok := b.(*SliceV)
			if !ok {
				e.havocArgs([]Value{b}, "PutUint")
				return
			}
			e.writeBytes(s.obj, s.path, s.off, intRope(v, n, little))
		})
		return nil
	}
}

func intRope(v Value, n int, little bool) *Rope {
	return ropeOf(mapLeaves(v, func(v Value) Value {
		if u := bad(v); u != nil {
			return u
		}
		if !little {
			return ropeFix(n, v)
		}
		var sum Value = linInt(0)
		for i := 0; i < n; i++ {
			sum = add(sum, scale(seg(v, 8*i, 8), pow2(8*(n-1-i))))
		}
		return ropeFix(n, sum)
	}))
}

func getUint(n int, little bool) intrinsic {
	return func(e *Engine, fn *ssa.Function, a []Value) []Value {
		buf := a[len(a)-1]
		e.panicIf(lt(e.sliceLen(buf), linInt(int64(n))), "index out of range")
		r := ropeOf(ropeSliceU(e.bytesOf(buf), linInt(0), linInt(int64(n)), e.st.pc))
		v := ropeInt(r)
		if little {
			var sum Value = linInt(0)
			for i := 0; i < n; i++ {
				sum = add(sum, scale(seg(v, 8*i, 8), pow2(8*(n-1-i))))
			}
			v = sum
		}
		return one1(v)
	}
}

func appendUint(n int, little bool) intrinsic {
	return func(e *Engine, fn *ssa.Function, a []Value) []Value {
		v, buf := a[len(a)-1], a[len(a)-2]
		return one1(e.appendV([]Value{buf, e.newBytes(intRope(v, n, little))}, []types.Type{types.NewSlice(types.Typ[types.Uint8])}))
	}
}

// binaryBytes encodes a fixed-size value as encoding/binary does.
func (e *Engine) binaryBytes(v Value, t types.Type, little bool) (*Rope, bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		bits, signed, ok := intType(t)
		if !ok || u.Kind() == types.Int || u.Kind() == types.Uint || u.Kind() == types.Uintptr {
			return nil, false
		}
		if signed {
			v = seg(v, 0, bits)
		}
		return intRope(v, bits/8, little), true
	case *types.Slice:
		if isByte(u.Elem()) {
			return e.bytesOf(v), true
		}
		es, ok := e.elems(v)
		if !ok {
			return nil, false
		}
		out := emptyRope
		for _, x := range es {
			r, ok := e.binaryBytes(x, u.Elem(), little)
			if !ok {
				return nil, false
			}
			out = ropeCat(out, r)
		}
		return out, true
	case *types.Array:
		if isByte(u.Elem()) {
			return ropeOf(v), true
		}
	case *types.Struct:
		a, ok := v.(*Agg)
		if !ok {
			return nil, false
		}
		out := emptyRope
		for i, x := range a.es {
			r, ok := e.binaryBytes(x, u.Field(i).Type(), little)
			if !ok {
				return nil, false
			}
			out = ropeCat(out, r)
		}
		return out, true
	case *types.Pointer:
		return e.binaryBytes(e.load(v, u.Elem()), u.Elem(), little)
	}
	return nil, false
}

func isLittle(v Value) bool {
	if i, ok := v.(*Iface); ok {
		return strings.Contains(i.typ.String(), "ittle")
	}
	return false
}

// streamID identifies a random stream or file read as one, its position, and advances it.
// embedded gives the embedded value whose method an interface value promotes.
func (e *Engine) embedded(i *Iface, name string) Value {
	if nativeKind(i.typ) != "" {
		return nil
	}
	ms := e.prog.MethodSets.MethodSet(i.typ)
	for k := 0; k < ms.Len(); k++ {
		s := ms.At(k)
		if s.Obj().Name() != name || len(s.Index()) < 2 {
			continue
		}
		v := i.v
		for _, f := range s.Index()[:len(s.Index())-1] {
			if p, ok := v.(*Ptr); ok {
				v = e.loadPath(p.obj, p.path)
			}
			a, ok := v.(*Agg)
			if !ok || f >= len(a.es) {
				return nil
			}
			v = a.es[f]
		}
		if _, ok := v.(*Iface); ok {
			return v
		}
		return nil
	}
	return nil
}

// multi gives the readers an io.MultiReader reads one after another.
func (e *Engine) multi(r Value) []Value {
	i, ok := r.(*Iface)
	if !ok || nativeKind(i.typ) != "multireader" {
		return nil
	}
	if n := e.hashNative(i.v); n != nil {
		return n.fs
	}
	return nil
}

func (e *Engine) streamID(r Value) (id, ctr Value, adv func(), ok bool) {
	i, isI := r.(*Iface)
	if !isI {
		return nil, nil, nil, false
	}
	if namedPath(derefT(i.typ)) == "os.File" {
		return e.fileStream(i)
	}
	if _, n := e.nativeAt(i, "bufreader"); n != nil {
		return e.streamID(n.fs[0])
	}
	if in := e.embedded(i, "Read"); in != nil {
		return e.streamID(in)
	}
	if namedPath(derefT(i.typ)) == "math/rand.Rand" {
		if n := e.hashNative(i.v); n != nil && n.kind == "rng" {
			return ropeStr("math/rand", linInt(8), n.fs[0]), linInt(int64(e.fresh())), func() {}, true
		}
	}
	if nativeKind(i.typ) != "stream" {
		return nil, nil, nil, false
	}
	p := i.v.(*Ptr)
	n, isN := e.loadPath(p.obj, p.path).(*Native)
	if !isN {
		return nil, nil, nil, false
	}
	return n.fs[0], n.fs[1], func() { e.store(p, mkNative("stream", n.fs[0], addI(n.fs[1], 1))) }, true
}

// draw returns the next concrete choice below n of the shuffle context.
func (e *Engine) draw(n int) int {
	if n <= 1 {
		return 0
	}
	e.drawMax = append(e.drawMax, n)
	v := 0
	if e.drawPos < len(e.draws) {
		v = e.draws[e.drawPos] % n
	}
	e.drawPos++
	return v
}

func (e *Engine) hashName(f Value) (string, bool) {
	rs := e.callValue(f, nil, nil)
	if len(rs) == 1 {
		if i, ok := rs[0].(*Iface); ok && nativeKind(i.typ) == "hash" {
			if n := e.hashNative(i.v); n != nil {
				s, ok := ropeConstStr(n.fs[0].(*Rope))
				return s, ok
			}
		}
	}
	return "", false
}

func (e *Engine) errIs(err, target Value, depth int) Value {
	return lift2(err, target, func(err, target Value) Value {
		if u := bad(err, target); u != nil {
			return undecidedCond(u)
		}
		if err == target {
			return bTrue
		}
		i, ok := err.(*Iface)
		if !ok {
			if _, isNil := err.(*NilV); isNil {
				return boolV(target == nilV)
			}
			return boolApp("errors.Is", err, target)
		}
		if nativeKind(i.typ) == "error" && depth < 6 {
			if n := e.hashNative(i.v); n != nil {
				r := e.eqVal(err, target)
				for _, w := range n.fs[1:] {
					r = or(r, e.errIs(w, target, depth+1))
				}
				return r
			}
		}
		return e.eqVal(err, target)
	})
}

func (e *Engine) mustLen(v Value, n int64, what string) {
	e.panicIf(not(eqInt(e.sliceLen(v), linInt(n))), what)
}

func init() {
	var m map[string]intrinsic
	e32 := func(n string) intrinsic {
		return func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(e.newHash(n)) }
	}
	sum := func(n string) intrinsic {
		return func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(digest(n, e.bytesOf(a[0]))) }
	}
	id := func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(a[0]) }
	nop := func(e *Engine, fn *ssa.Function, a []Value) []Value { return nil }
	m = map[string]intrinsic{
		// math/big
		"math/big.NewInt":           func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(e.newBig(a[0])) },
		"(*math/big.Int).Set":       bigOp(func(e *Engine, x []Value) Value { return x[0] }),
		"(*math/big.Int).SetInt64":  bigOp(func(e *Engine, x []Value) Value { return x[0] }),
		"(*math/big.Int).SetUint64": bigOp(func(e *Engine, x []Value) Value { return x[0] }),
		"(*math/big.Int).SetBytes":  bigOp(func(e *Engine, x []Value) Value { return ropeInt(e.bytesOf(x[0])) }),
		"(*math/big.Int).Lsh":       bigOp(func(e *Engine, x []Value) Value { return shl(x[0], x[1]) }),
		"(*math/big.Int).Rsh":       bigOp(func(e *Engine, x []Value) Value { return shr(x[0], x[1]) }),
		"(*math/big.Int).And":       bigOp(func(e *Engine, x []Value) Value { return bitOp("and", x[0], x[1]) }),
		"(*math/big.Int).Or":        bigOp(func(e *Engine, x []Value) Value { return bitOp("or", x[0], x[1]) }),
		"(*math/big.Int).Xor":       bigOp(func(e *Engine, x []Value) Value { return bitOp("xor", x[0], x[1]) }),
		"(*math/big.Int).AndNot":    bigOp(func(e *Engine, x []Value) Value { return bitOp("andnot", x[0], x[1]) }),
		"(*math/big.Int).Add":       bigOp(func(e *Engine, x []Value) Value { return add(x[0], x[1]) }),
		"(*math/big.Int).Sub":       bigOp(func(e *Engine, x []Value) Value { return sub(x[0], x[1]) }),
		"(*math/big.Int).Mul":       bigOp(func(e *Engine, x []Value) Value { return mul(x[0], x[1]) }),
		"(*math/big.Int).Neg":       bigOp(func(e *Engine, x []Value) Value { return neg(x[0]) }),
		"(*math/big.Int).Abs":       bigOp(func(e *Engine, x []Value) Value { return abs(x[0]) }),
		"(*math/big.Int).Not":       bigOp(func(e *Engine, x []Value) Value { return sub(linInt(-1), x[0]) }),
		"(*math/big.Int).Mod":       bigOp(func(e *Engine, x []Value) Value { return euclidMod(e, x[0], x[1]) }),
		"(*math/big.Int).Div":       bigOp(func(e *Engine, x []Value) Value { return euclidDiv(e, x[0], x[1]) }),
		"(*math/big.Int).Quo":       bigOp(func(e *Engine, x []Value) Value { return quo(x[0], x[1]) }),
		"(*math/big.Int).Rem":       bigOp(func(e *Engine, x []Value) Value { return rem(x[0], x[1]) }),
		"(*math/big.Int).Exp": bigOp(func(e *Engine, x []Value) Value {
			b, ok1 := isConst(x[0])
			k, ok2 := constInt(x[1])
			if ok1 && ok2 && k >= 0 && k < 5000 {
				return linConst(new(big.Int).Exp(b, big.NewInt(int64(k)), nil))
			}
			return unknown("big exponentiation")
		}),
		"(*math/big.Int).SetBit": bigOp(func(e *Engine, x []Value) Value {
			i, ok := constInt(x[1])
			if !ok {
				return unknown("SetBit at %s", show(x[1]))
			}
			return add(add(scale(floorDiv(x[0], pow2(i+1)), pow2(i+1)), scale(x[2], pow2(i))), seg(x[0], 0, i))
		}),
		"(*math/big.Int).DivMod": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			x, y := e.bigGet(a[1]), e.bigGet(a[2])
			q, r := euclidDiv(e, x, y), euclidMod(e, x, y)
			e.store(a[0], q)
			e.store(a[3], r)
			return []Value{a[0], a[3]}
		},
		"(*math/big.Int).QuoRem": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			x, y := e.bigGet(a[1]), e.bigGet(a[2])
			q, r := quo(x, y), rem(x, y)
			e.store(a[0], q)
			e.store(a[3], r)
			return []Value{a[0], a[3]}
		},
		"(*math/big.Int).BitLen": bigQ(func(e *Engine, x Value, _ []Value) Value { return bitLen(x) }),
		"(*math/big.Int).Sign":   bigQ(func(e *Engine, x Value, _ []Value) Value { return signOf(x) }),
		"(*math/big.Int).Cmp":    bigQ(func(e *Engine, x Value, r []Value) Value { return cmpV(x, e.bigGet(r[0])) }),
		"(*math/big.Int).CmpAbs": bigQ(func(e *Engine, x Value, r []Value) Value { return cmpV(abs(x), abs(e.bigGet(r[0]))) }),
		"(*math/big.Int).Bit": bigQ(func(e *Engine, x Value, r []Value) Value {
			if i, ok := constInt(r[0]); ok {
				return seg(x, i, 1)
			}
			return intAtom("bit", zero, one, x, r[0])
		}),
		"(*math/big.Int).Uint64":   bigQ(func(e *Engine, x Value, _ []Value) Value { return seg(abs(x), 0, 64) }),
		"(*math/big.Int).Int64":    bigQ(func(e *Engine, x Value, _ []Value) Value { return wrap(x, 64, true) }),
		"(*math/big.Int).IsUint64": bigQ(func(e *Engine, x Value, _ []Value) Value { return and(le(linInt(0), x), lt(x, linConst(pow2(64)))) }),
		"(*math/big.Int).IsInt64": bigQ(func(e *Engine, x Value, _ []Value) Value {
			return and(le(linConst(minI64), x), le(x, linConst(maxI64)))
		}),
		"(*math/big.Int).Bytes":  bigQ(func(e *Engine, x Value, _ []Value) Value { return e.newBytes(ropeMin(abs(x))) }),
		"(*math/big.Int).String": bigQ(func(e *Engine, x Value, _ []Value) Value { return ropeStr("decimal", nil, x) }),
		"(*math/big.Int).Text":   bigQ(func(e *Engine, x Value, r []Value) Value { return ropeStr("text", nil, x, r[0]) }),
		"(*math/big.Int).FillBytes": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			e.fillBytes(e.bigGet(a[0]), a[1])
			return one1(a[1])
		},

		// buffers
		"(*bytes.Buffer).Write":          bufWrite(getBytes, true, true),
		"(*bytes.Buffer).WriteString":    bufWrite(getBytes, true, true),
		"(*bytes.Buffer).WriteByte":      bufWrite(getByte, true, false),
		"(*strings.Builder).Write":       bufWrite(getBytes, true, true),
		"(*strings.Builder).WriteString": bufWrite(getBytes, true, true),
		"(*strings.Builder).WriteByte":   bufWrite(getByte, true, false),
		"(*bytes.Buffer).Grow":           nop,
		"(*strings.Builder).Grow":        nop,
		"(*bytes.Buffer).Len":            func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(ropeLen(e.bufRope(a[0]))) },
		"(*strings.Builder).Len":         func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(ropeLen(e.bufRope(a[0]))) },
		"(*bytes.Buffer).Bytes":          func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(e.newBytes(e.bufRope(a[0]))) },
		"(*bytes.Buffer).String":         func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(e.bufRope(a[0])) },
		"(*strings.Builder).String":      func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(e.bufRope(a[0])) },
		"(*bytes.Buffer).Reset":          func(e *Engine, fn *ssa.Function, a []Value) []Value { e.bufSet(a[0], emptyRope); return nil },
		"(*strings.Builder).Reset":       func(e *Engine, fn *ssa.Function, a []Value) []Value { e.bufSet(a[0], emptyRope); return nil },
		"bytes.NewBuffer": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			o := newObj("buffer", nil)
			e.st.heap[o] = mkNative("buf", e.bytesOf(a[0]))
			return one1(mkPtr(o))
		},
		"bytes.NewBufferString": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			o := newObj("buffer", nil)
			e.st.heap[o] = mkNative("buf", ropeOf(a[0]))
			return one1(mkPtr(o))
		},
		"bytes.Equal": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(ropeEq(e.bytesOf(a[0]), e.bytesOf(a[1])))
		},
		"bytes.Clone": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(mapLeaves(a[0], func(v Value) Value {
				if _, ok := v.(*NilV); ok {
					return v
				}
				return e.newBytes(e.bytesOf(v))
			}))
		},
		"bytes.Join": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			es, ok := e.elems(a[0])
			if !ok {
				return one1(unknown("bytes.Join"))
			}
			out := emptyRope
			for i, x := range es {
				if i > 0 {
					out = ropeCat(out, e.bytesOf(a[1]))
				}
				out = ropeCat(out, e.bytesOf(x))
			}
			return one1(e.newBytes(out))
		},
		"bytes.Repeat": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			r := e.bytesOf(a[0])
			return one1(mapLeaves(a[1], func(n Value) Value {
				if k, ok := constInt(n); ok && k >= 0 && k < 4096 {
					out := emptyRope
					for i := 0; i < k; i++ {
						out = ropeCat(out, r)
					}
					return e.newBytes(out)
				}
				return e.newBytes(ropeCyc(r, mul(n, ropeLen(r))))
			}))
		},
		"crypto/subtle.ConstantTimeCompare": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(ite(ropeEq(e.bytesOf(a[0]), e.bytesOf(a[1])), linInt(1), linInt(0)))
		},
		"crypto/subtle.ConstantTimeByteEq": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(ite(eqInt(a[0], a[1]), linInt(1), linInt(0)))
		},
		"crypto/subtle.ConstantTimeEq": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(ite(eqInt(a[0], a[1]), linInt(1), linInt(0)))
		},
		"crypto/subtle.ConstantTimeSelect": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(ite(eqInt(a[0], linInt(1)), a[1], a[2]))
		},

		// strings
		"strings.ToLower": func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(lower(ropeOf(a[0]))) },
		"bytes.ToLower":   func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(e.newBytes(lower(e.bytesOf(a[0])))) },
		"strings.Clone":   id,
		"bytes.TrimSpace": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(e.newBytes(trimSpace(e.bytesOf(a[0]))))
		},
		"strings.TrimSpace": func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(trimSpace(ropeOf(a[0]))) },
		"strings.Join": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			es, ok := e.elems(a[0])
			if !ok {
				return one1(ropeStr("join", nil, e.deep(a[0]), a[1]))
			}
			out := emptyRope
			for i, x := range es {
				if i > 0 {
					out = ropeCat(out, ropeOf(a[1]))
				}
				out = ropeCat(out, ropeOf(x))
			}
			return one1(out)
		},
		"strings.Repeat": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			if k, ok := constInt(a[1]); ok && k >= 0 && k < 4096 {
				out := emptyRope
				for i := 0; i < k; i++ {
					out = ropeCat(out, ropeOf(a[0]))
				}
				return one1(out)
			}
			e.panicIf(lt(a[1], linInt(0)), "strings: negative Repeat count")
			return one1(ropeCyc(ropeOf(a[0]), mul(a[1], ropeLen(ropeOf(a[0])))))
		},
		"strings.EqualFold": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(ropeEq(lower(ropeOf(a[0])), lower(ropeOf(a[1]))))
		},

		// fmt, errors
		"fmt.Sprintf": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			r, _ := e.format(a[0], e.variadic(a[1]))
			return one1(r)
		},
		"fmt.Sprint":   func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(e.sprint(e.variadic(a[0]), false)) },
		"fmt.Sprintln": func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(e.sprint(e.variadic(a[0]), true)) },
		"fmt.Appendf": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			r, _ := e.format(a[1], e.variadic(a[2]))
			return one1(e.appendV([]Value{a[0], e.newBytes(r)}, nil))
		},
		"fmt.Fprintf": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			r, _ := e.format(a[1], e.variadic(a[2]))
			n, err := e.writeTo(a[0], r)
			return []Value{n, err}
		},
		"fmt.Fprint": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			n, err := e.writeTo(a[0], e.sprint(e.variadic(a[1]), false))
			return []Value{n, err}
		},
		"fmt.Fprintln": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			n, err := e.writeTo(a[0], e.sprint(e.variadic(a[1]), true))
			return []Value{n, err}
		},
		"fmt.Errorf": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			msg, w := e.format(a[0], e.variadic(a[1]))
			return one1(e.newErrorMsg(msg, w))
		},
		"errors.New": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(e.newErrorMsg(ropeOf(a[0]), nil))
		},
		"errors.Is": func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(e.errIs(a[0], a[1], 0)) },
		"errors.Join": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			es, ok := e.elems(a[0])
			if !ok {
				return one1(unknown("errors.Join"))
			}
			c := bFalse
			for _, x := range es {
				c = or(c, not(e.nilCond(x)))
			}
			return one1(ite(c, e.newError("errors.Join", es), nilV))
		},
		"errors.Unwrap": func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(unknown("errors.Unwrap")) },

		// io
		"io.MultiReader": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			rs := e.variadic(a[0])
			if len(rs) == 0 {
				return one1(unknown("io.MultiReader of %s", show(a[0])))
			}
			if len(rs) == 1 {
				return one1(rs[0])
			}
			return one1(mkIface(nativeType("multireader"), e.newNative("multireader", rs...)))
		},
		"io.ReadFull": func(e *Engine, fn *ssa.Function, a []Value) []Value { return e.readFull(a[0], a[1]) },
		"io.ReadAtLeast": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			if eqInt(a[2], e.sliceLen(a[1])) == bTrue {
				return e.readFull(a[0], a[1])
			}
			e.havocArgs(a[1:2], "io.ReadAtLeast")
			return []Value{unknown("io.ReadAtLeast"), unknown("io.ReadAtLeast")}
		},
		"io.WriteString": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			n, err := e.writeTo(a[0], ropeOf(a[1]))
			return []Value{n, err}
		},

		// encoding/binary
		"encoding/binary.Write": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(mapLeaves(a[2], func(d Value) Value {
				i, ok := d.(*Iface)
				if !ok {
					return badOr(d, "binary.Write of %s")
				}
				r, ok := e.binaryBytes(i.v, i.typ, isLittle(a[1]))
				if !ok {
					return e.newError("binary.Write: invalid type", nil)
				}
				_, err := e.writeTo(a[0], r)
				return err
			}))
		},

		// crc, kdf, ciphers, signatures
		"hash/crc32.ChecksumIEEE": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(intAtom("crc32ieee", zero, new(big.Int).Sub(pow2(32), one), e.bytesOf(a[0])))
		},
		"golang.org/x/crypto/argon2.IDKey": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(e.newBytes(ropeStr("argon2id", a[5], e.bytesOf(a[0]), e.bytesOf(a[1]), a[2], a[3], a[4], a[5])))
		},
		"golang.org/x/crypto/argon2.Key": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(e.newBytes(ropeStr("argon2i", a[5], e.bytesOf(a[0]), e.bytesOf(a[1]), a[2], a[3], a[4], a[5])))
		},
		"golang.org/x/crypto/hkdf.Expand": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			h, ok := e.hashName(a[0])
			if !ok {
				return one1(unknown("hkdf with unknown hash"))
			}
			o := newObj("hkdf", nil)
			e.st.heap[o] = mkNative("hkdf", ropeConst(h), e.bytesOf(a[1]), e.bytesOf(a[2]), linInt(0))
			return one1(mkIface(nativeType("hkdf"), mkPtr(o)))
		},
		"golang.org/x/crypto/hkdf.Extract": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			h, ok := e.hashName(a[0])
			if !ok {
				return one1(unknown("hkdf with unknown hash"))
			}
			return one1(e.newBytes(ropeStr("hmac-"+h, linInt(int64(hashSizes[h])), e.bytesOf(a[2]), e.bytesOf(a[1]))))
		},
		"golang.org/x/crypto/hkdf.New": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			h, ok := e.hashName(a[0])
			if !ok {
				return one1(unknown("hkdf with unknown hash"))
			}
			prk := ropeStr("hmac-"+h, linInt(int64(hashSizes[h])), e.bytesOf(a[2]), e.bytesOf(a[1]))
			o := newObj("hkdf", nil)
			e.st.heap[o] = mkNative("hkdf", ropeConst(h), prk, e.bytesOf(a[3]), linInt(0))
			return one1(mkIface(nativeType("hkdf"), mkPtr(o)))
		},
		"crypto/hmac.New": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			h, ok := e.hashName(a[0])
			if !ok {
				return one1(unknown("hmac with unknown hash"))
			}
			return one1(e.newHmac(h, e.bytesOf(a[1])))
		},
		"crypto/ed25519.NewKeyFromSeed": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			e.mustLen(a[0], 32, "ed25519: bad seed length")
			s := e.bytesOf(a[0])
			return one1(e.newBytes(ropeCat(s, ropeStr("edpub", linInt(32), s))))
		},
		"(crypto/ed25519.PrivateKey).Public": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			e.panicIf(lt(e.sliceLen(a[0]), linInt(64)), "index out of range")
			pub := ropeSliceU(e.bytesOf(a[0]), linInt(32), linInt(32), e.st.pc)
			t := fn.Pkg.Pkg.Scope().Lookup("PublicKey").Type()
			return one1(mkIface(t, e.newBytes(ropeOf(pub))))
		},
		"(crypto/ed25519.PrivateKey).Seed": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			e.panicIf(lt(e.sliceLen(a[0]), linInt(32)), "index out of range")
			return one1(e.newBytes(ropeOf(ropeSliceU(e.bytesOf(a[0]), linInt(0), linInt(32), e.st.pc))))
		},
		"crypto/ed25519.Sign": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			e.mustLen(a[0], 64, "ed25519: bad private key length")
			return one1(e.newBytes(ropeStr("edsign", linInt(64), e.bytesOf(a[0]), e.bytesOf(a[1]))))
		},
		"golang.org/x/crypto/curve25519.X25519": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			sc, pt := e.bytesOf(a[0]), e.bytesOf(a[1])
			bad := or(not(eqInt(ropeLen(sc), linInt(32))), not(eqInt(ropeLen(pt), linInt(32))))
			if bad != bFalse {
				return []Value{unknown("x25519 with undecided lengths"), ite(bad, e.newError("bad x25519 input", nil), nilV)}
			}
			err := Value(nilV)
			if c, ok := ropeConstStr(pt); !ok || c[0] != 9 {
				err = e.errIf(boolApp("loworder", sc, pt), "bad input point: low order point")
			}
			return []Value{e.newBytes(ropeStr("x25519", linInt(32), clamp(sc), pt)), err}
		},
		"crypto/aes.NewCipher": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			k := e.bytesOf(a[0])
			n := ropeLen(k)
			ok := or(eqInt(n, linInt(16)), or(eqInt(n, linInt(24)), eqInt(n, linInt(32))))
			o := newObj("aes", nil)
			e.st.heap[o] = mkNative("block", k)
			return []Value{ite(ok, mkIface(nativeType("block"), mkPtr(o)), nilV), e.errIf(not(ok), "crypto/aes: invalid key size")}
		},
		"crypto/sha1.New": e32("sha1"), "crypto/sha256.New": e32("sha256"), "crypto/sha512.New": e32("sha512"),
		"crypto/sha512.New384": e32("sha384"), "crypto/sha256.New224": e32("sha224"), "crypto/md5.New": e32("md5"),
		"crypto/sha1.Sum": sum("sha1"), "crypto/sha256.Sum256": sum("sha256"), "crypto/sha512.Sum512": sum("sha512"),
		"crypto/sha512.Sum384": sum("sha384"), "crypto/md5.Sum": sum("md5"), "crypto/sha256.Sum224": sum("sha224"),

		// randomness
		"crypto/rand.Read": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			g := e.pkgGlobal("crypto/rand", "Reader")
			return e.readFull(g, a[0])
		},
		"crypto/rand.Int": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			mx := e.bigGet(a[1])
			e.panicIf(le(mx, linInt(0)), "crypto/rand: argument to Int is <= 0")
			c, okc := isConst(mx)
			if rf := e.customReader(a[0]); rf != nil && okc && c.Sign() > 0 && new(big.Int).And(c, new(big.Int).Sub(c, one)).Sign() == 0 {
				// a power of two: every draw is taken
				bits := c.BitLen() - 1
				data, err := e.viaBuffer(a[0], (bits+7)/8)
				v := seg(ropeInt(data), 0, bits)
				return []Value{ite(e.nilCond(err), e.newBig(v), nilV), err}
			}
			if rs := e.multi(a[0]); len(rs) > 0 {
				var err, v Value
				first := m["crypto/rand.Int"](e, fn, []Value{rs[0], a[1]})
				v, err = first[0], first[1]
				for _, r := range rs[1:] {
					failed := not(e.nilCond(err))
					var v2, err2 Value = nilV, nilV
					e.branch(failed, func() {
						x := m["crypto/rand.Int"](e, fn, []Value{r, a[1]})
						v2, err2 = x[0], x[1]
					}, func() {})
					v, err = ite(failed, v2, v), ite(failed, err2, err)
				}
				return []Value{v, err}
			}
			id, ctr, adv, ok := e.streamID(a[0])
			if !ok || !okc {
				e.opaque["rand.Int of "+show(a[0])]++
				return []Value{unknown("rand.Int from %s", show(a[0])), unknown("rand.Int from %s", show(a[0]))}
			}
			adv()
			ctr = e.drawn("int:"+c.String(), id, ctr)
			v := intAtom("randint", zero, new(big.Int).Sub(c, one), id, ctr, mx)
			fail := e.randFail(id, ctr)
			return []Value{ite(fail, nilV, e.newBig(v)), e.errIf(fail, "rand.Int failed")}
		},
		"math/rand.NewSource": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			o := newObj("rngsource", nil)
			e.st.heap[o] = mkNative("rngsource", a[0])
			return one1(mkIface(nativeType("rngsource"), mkPtr(o)))
		},
		"math/rand.New": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			o := newObj("rng", nil)
			seed := Value(unknown("rng source"))
			if i, ok := a[0].(*Iface); ok {
				if n := e.hashNative(i.v); n != nil && n.kind == "rngsource" {
					seed = n.fs[0]
				}
			}
			e.st.heap[o] = mkNative("rng", seed)
			return one1(mkPtr(o))
		},
		"(*math/rand.Rand).Shuffle": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			n := e.hashNative(a[0])
			if n != nil && n.kind == "rng" {
				e.shuffles = append(e.shuffles, n.fs[0])
			} else {
				e.shuffles = append(e.shuffles, unknown("shuffle by unknown generator"))
			}
			return e.shuffle(a[1], a[2])
		},
		"sort.Slice":       func(e *Engine, fn *ssa.Function, a []Value) []Value { return e.sortSlice(a) },
		"sort.SliceStable": func(e *Engine, fn *ssa.Function, a []Value) []Value { return e.sortSlice(a) },
		"math/rand.Shuffle": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			e.ambient("math/rand.Shuffle (global generator)")
			e.shuffles = append(e.shuffles, intAtom("ambient:math/rand.Shuffle", nil, nil, linInt(int64(e.fresh()))))
			return e.shuffle(a[0], a[1])
		},
		"(*math/rand.Rand).Intn": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			if n := e.hashNative(a[0]); n != nil && n.kind == "rng" {
				e.shuffles = append(e.shuffles, n.fs[0])
			}
			if k, ok := constInt(a[1]); ok {
				return one1(linInt(int64(e.draw(k))))
			}
			return one1(unknown("rng draw"))
		},
		"(*math/rand.Rand).Perm": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			if n := e.hashNative(a[0]); n != nil && n.kind == "rng" {
				e.shuffles = append(e.shuffles, n.fs[0])
			}
			k, ok := constInt(a[1])
			if !ok {
				return one1(unknown("rng draw"))
			}
			perm := make([]int, k)
			for i := range perm {
				j := e.draw(i + 1)
				perm[i] = perm[j]
				perm[j] = i
			}
			var es []Value
			for _, x := range perm {
				es = append(es, linInt(int64(x)))
			}
			return one1(e.newSliceOf(nil, es))
		},

		// armor
		"golang.org/x/crypto/openpgp/armor.Encode": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			o := newObj("armor", nil)
			e.st.heap[o] = mkNative("armor", a[0], ropeOf(a[1]), e.deep(a[2]), emptyRope)
			return []Value{mkIface(nativeType("armor"), mkPtr(o)), nilV}
		},

		// time
		"time.Now": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			e.ambient("time.Now")
			k := linInt(int64(e.fresh()))
			t := mkTime(intAtom("now", big.NewInt(0), nil, k))
			if e.cli != nil && e.cli.clockOK {
				// an instant a phrase can record
				unix := addI(intAtom("now-offset", zero, big.NewInt(1<<31-1), k), epochStart)
				cr := add(scale(unix, nsec), intAtom("now-ns", zero, big.NewInt(999999999), k))
				e.assume(le(cr, linConst(mulB(epochStart+1<<31-1))))
				t = mkTime(cr)
			}
			e.logEffect(effect{kind: "now", what: t})
			return one1(t)
		},
		"time.Unix": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(mkTime(add(scale(a[0], billion), a[1])))
		},
		"time.UnixMilli": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(mkTime(scale(a[0], big.NewInt(1e6))))
		},
		"time.Date": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			var v [7]int
			for i := 0; i < 7; i++ {
				k, ok := constInt(a[i])
				if !ok {
					return one1(unknown("time.Date with non-constant arguments"))
				}
				v[i] = k
			}
			if !e.isUTC(a[7]) {
				e.ambient("local time zone")
			}
			t := dateUTC(v)
			return one1(mkTime(linConst(t)))
		},
		"(time.Time).Add": func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(mkTime(add(timeNs(a[0]), a[1]))) },
		"(time.Time).Sub": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(saturate(sub(timeNs(a[0]), timeNs(a[1]))))
		},
		"time.Since": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			e.ambient("time.Since")
			return one1(intAtom("since", minI64, maxI64, timeNs(a[0]), linInt(int64(e.fresh()))))
		},
		"(time.Time).After":  func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(lt(timeNs(a[1]), timeNs(a[0]))) },
		"(time.Time).Before": func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(lt(timeNs(a[0]), timeNs(a[1]))) },
		"(time.Time).Equal":  func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(eqInt(timeNs(a[0]), timeNs(a[1]))) },
		"(time.Time).Compare": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(cmpV(timeNs(a[0]), timeNs(a[1])))
		},
		"(time.Time).Unix": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(wrap(floorDiv(timeNs(a[0]), billion), 64, true))
		},
		"(time.Time).UnixMilli": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(wrap(floorDiv(timeNs(a[0]), big.NewInt(1e6)), 64, true))
		},
		"(time.Time).UnixNano": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(wrap(timeNs(a[0]), 64, true))
		},
		"(time.Time).Nanosecond": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(floorMod(timeNs(a[0]), billion))
		},
		"(time.Time).UTC":   id,
		"(time.Time).Local": id,
		"(time.Time).In":    id,
		"(time.Time).IsZero": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(eqInt(timeNs(a[0]), linConst(zeroTimeNs)))
		},
		"(time.Time).Truncate": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			d, ok := isConst(a[1])
			if !ok || d.Sign() <= 0 {
				return one1(unknown("Truncate by %s", show(a[1])))
			}
			rel := sub(timeNs(a[0]), linConst(zeroTimeNs))
			return one1(mkTime(add(scale(floorDiv(rel, d), d), linConst(zeroTimeNs))))
		},
		"(time.Time).Round": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			d, ok := isConst(a[1])
			if !ok || d.Sign() <= 0 {
				return one1(a[0])
			}
			rel := add(sub(timeNs(a[0]), linConst(zeroTimeNs)), linConst(new(big.Int).Rsh(d, 1)))
			return one1(mkTime(add(scale(floorDiv(rel, d), d), linConst(zeroTimeNs))))
		},
		"(time.Duration).Seconds": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(mapLeaves(a[0], func(d Value) Value {
				if u := bad(d); u != nil {
					return u
				}
				return mkFloat(d, 1e9)
			}))
		},
		"(time.Duration).Hours": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(mapLeaves(a[0], func(d Value) Value {
				if u := bad(d); u != nil {
					return u
				}
				return mkFloat(d, 3600e9)
			}))
		},
		"(time.Duration).Milliseconds": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(quo(a[0], linInt(1e6)))
		},
		"(time.Duration).Microseconds": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			return one1(quo(a[0], linInt(1e3)))
		},
		"(time.Duration).Nanoseconds": id,
		"(time.Duration).Round": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			d, ok := isConst(a[1])
			if !ok {
				return one1(unknown("Round by %s", show(a[1])))
			}
			if d.Sign() <= 0 {
				return one1(a[0])
			}
			half := new(big.Int).Rsh(d, 1)
			if d.Bit(0) == 1 {
				half.Add(half, one)
			}
			up := func(x Value) Value {
				v := scale(floorDiv(add(x, linConst(half)), d), d)
				return ite(le(v, linConst(maxI64)), v, linConst(maxI64))
			}
			return one1(ite(le(linInt(0), a[0]), up(a[0]), sub(linInt(0), up(sub(linInt(0), a[0])))))
		},
		"(time.Duration).Truncate": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			d, ok := isConst(a[1])
			if !ok || d.Sign() <= 0 {
				return one1(a[0])
			}
			return one1(scale(quo(a[0], linConst(d)), d))
		},
		"math/bits.Len16":   func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(bitLen(a[0])) },
		"math/bits.Len8":    func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(bitLen(a[0])) },
		"math/bits.Len32":   func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(bitLen(a[0])) },
		"math/bits.Len64":   func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(bitLen(a[0])) },
		"math/bits.Len":     func(e *Engine, fn *ssa.Function, a []Value) []Value { return one1(bitLen(a[0])) },
		"runtime.KeepAlive": nop,
	}
	for _, mode := range []string{"CFBEncrypter", "CFBDecrypter", "CTR", "OFB"} {
		mode := mode
		m["crypto/cipher.New"+mode] = func(e *Engine, fn *ssa.Function, a []Value) []Value {
			e.mustLen(a[1], 16, "cipher: IV length must equal block size")
			i, ok := a[0].(*Iface)
			if !ok {
				return one1(unknown("cipher mode over %s", show(a[0])))
			}
			n := e.hashNative(i.v)
			if n == nil || n.kind != "block" {
				return one1(unknown("cipher mode over %s", show(a[0])))
			}
			o := newObj("cfb", nil)
			e.st.heap[o] = mkNative("cfb", ropeConst("aes-"+mode), n.fs[0], e.bytesOf(a[1]), emptyRope)
			return one1(mkIface(nativeType("cfb"), mkPtr(o)))
		}
	}
	for _, le := range []bool{false, true} {
		t := "bigEndian"
		if le {
			t = "littleEndian"
		}
		for _, n := range []int{2, 4, 8} {
			m[fmt.Sprintf("(encoding/binary.%s).PutUint%d", t, n*8)] = putUint(n, le)
			m[fmt.Sprintf("(encoding/binary.%s).Uint%d", t, n*8)] = getUint(n, le)
			m[fmt.Sprintf("(encoding/binary.%s).AppendUint%d", t, n*8)] = appendUint(n, le)
		}
	}
	intrinsics = m
	for k, v := range cliIntrinsics() {
		intrinsics[k] = v
	}

	appCons["tolower"] = func(a []Value) Value { return lower(a[0].(*Rope)) }
	appCons["aesenc"] = func(a []Value) Value { return aesEnc(a[0].(*Rope), a[1].(*Rope)) }
	appCons["aesdec"] = func(a []Value) Value { return aesDec(a[0].(*Rope), a[1].(*Rope)) }
	appCons["widx"] = func(a []Value) Value { v, _ := wordIndex(a[0].(*Rope)); return v }
	appCons["inlist"] = func(a []Value) Value { _, f := wordIndex(a[0].(*Rope)); return f }
}

// solid tells that a text does not begin (or end) with a space and is not empty.
func solid(p Piece, begin bool) bool {
	switch p.kind {
	case "sub":
		return (p.a.fn == "dec" || p.a.fn == "word") && p.n == p.a.n
	case "fix":
		s, ok := ropeConstStr(mkRope([]Piece{p}))
		if !ok || s == "" {
			return false
		}
		c := s[len(s)-1]
		if begin {
			c = s[0]
		}
		return c > ' ' && c < 0x7f
	}
	return false
}

func trimSpace(r *Rope) *Rope {
	if s, ok := ropeConstStr(r); ok {
		return ropeConst(strings.TrimSpace(s))
	}
	if len(r.ps) == 1 && r.ps[0].kind == "sub" && (r.ps[0].a.fn == "trimspace" || r.ps[0].a.fn == "word") && r.ps[0].n == r.ps[0].a.n {
		return r
	}
	if len(r.ps) == 1 && r.ps[0].kind == "gate" {
		return ropeOf(mapLeaves(r.ps[0].v, func(l Value) Value { return trimSpace(l.(*Rope)) }))
	}
	if n := len(r.ps); n > 0 && solid(r.ps[0], true) && solid(r.ps[n-1], false) {
		return r
	}
	if a := wholeApp(r, "tolower"); a != nil {
		// letters are not spaces: the two operations commute
		return lower(trimSpace(a.args[0].(*Rope)))
	}
	return ropeStr("trimspace", nil, r)
}

func (e *Engine) shuffle(n, swap Value) []Value {
	k, ok := constInt(n)
	if !ok {
		e.panicIf(lt(n, linInt(0)), "invalid argument to Shuffle")
		e.havocArgs([]Value{swap}, "shuffle of undecided length")
		return nil
	}
	for i := k - 1; i > 0; i-- {
		j := e.draw(i + 1)
		e.callValue(swap, []Value{linInt(int64(i)), linInt(int64(j))}, nil)
	}
	return nil
}

// sortSlice is sort.Slice and sort.SliceStable: an insertion sort whose exchanges
// depend on the answers of the comparison.
func (e *Engine) sortSlice(a []Value) []Value {
	x := a[0]
	var et types.Type
	if i, ok := x.(*Iface); ok {
		if t, ok := under(i.typ).(*types.Slice); ok {
			et = t.Elem()
		}
		x = i.v
	}
	if _, ok := x.(*NilV); ok {
		return nil
	}
	s, ok := x.(*SliceV)
	var n, off int
	if ok {
		var ok1, ok2 bool
		n, ok1 = constInt(s.len)
		off, ok2 = constInt(s.off)
		ok = ok1 && ok2 && n <= 12 && et != nil
	}
	if !ok {
		e.havocArgs(a, "sorted")
		return nil
	}
	at := func(i int) Value { return e.elemPtr(s.obj, s.path, linInt(int64(off+i)), et) }
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			r := e.callValue(a[1], []Value{linInt(int64(j)), linInt(int64(j - 1))}, nil)
			if len(r) != 1 || r[0] == bFalse {
				break
			}
			p, q := e.load(at(j), et), e.load(at(j-1), et)
			if bad(r[0]) != nil {
				e.store(at(j), r[0])
				e.store(at(j-1), r[0])
				continue
			}
			e.store(at(j), ite(r[0], q, p))
			e.store(at(j-1), ite(r[0], p, q))
		}
	}
	return nil
}

func (e *Engine) isUTC(v Value) bool {
	return strings.Contains(show(v), "time.UTC")
}

func dateUTC(v [7]int) *big.Int {
	// days from civil
	y, mo, d := v[0], v[1], v[2]
	y += (mo - 1) / 12
	mo = (mo-1)%12 + 1
	if mo <= 2 {
		y--
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mp := (mo + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	days := int64(era)*146097 + int64(doe) - 719468
	secs := days*86400 + int64(v[3])*3600 + int64(v[4])*60 + int64(v[5])
	r := new(big.Int).Mul(big.NewInt(secs), billion)
	return r.Add(r, big.NewInt(int64(v[6])))
}

// pkgGlobal loads a package-level variable.
func (e *Engine) pkgGlobal(pkg, name string) Value {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		return unknown("package %s not loaded", pkg)
	}
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		return unknown("no variable %s.%s", pkg, name)
	}
	return e.content(e.globalObj(g))
}
