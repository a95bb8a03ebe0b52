package main

// Transfer functions of SSA instructions.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (f *frame) instr(p *path, in ssa.Instruction) {
	e := f.e
	e.cur = in
	e.instrs++
	e.steps++
	if e.maxSteps > 0 && e.steps > e.maxSteps {
		panic(bail{"analysis budget exceeded"})
	}
	if e.steps&255 == 0 && stopNow.Load() {
		panic(bail{"analysis time or memory budget exceeded"})
	}
	set := func(v ssa.Value, x Value) {
		if x == nil {
			x = unknown("no value for %s", v.Name())
		}
		p.env[v] = x
	}
	get := func(v ssa.Value) Value { return f.get(p, v) }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		name := in.Comment
		if name == "" {
			name = "alloc"
		}
		o := newObj(name, t)
		e.st.heap[o] = e.zero(t)
		set(in, mkPtr(o))
	case *ssa.BinOp:
		set(in, e.binop(in.Op, get(in.X), get(in.Y), in.X.Type(), in.Y.Type(), in.Type()))
	case *ssa.UnOp:
		x := get(in.X)
		switch in.Op {
		case token.MUL:
			e.derefCheck(x)
			set(in, e.load(x, in.Type()))
		case token.NOT:
			set(in, e.notV(x))
		case token.SUB:
			if _, _, ok := intType(in.Type()); ok {
				set(in, e.wrapT(neg(x), in.Type()))
			} else {
				set(in, mapLeaves(x, func(x Value) Value {
					if fl, ok := x.(*FloatV); ok {
						return mkFloat(neg(fl.num), fl.den)
					}
					return opq("fneg", x)
				}))
			}
		case token.XOR:
			bits, signed, _ := intType(in.Type())
			if signed {
				set(in, sub(linInt(-1), x))
			} else {
				set(in, sub(linConst(new(big.Int).Sub(pow2(bits), one)), x))
			}
		case token.ARROW:
			set(in, e.recv(x, in.X.Type(), in.CommaOk))
		default:
			set(in, unknown("unary %s", in.Op))
		}
	case *ssa.Call:
		rs := f.call(p, &in.Call, in)
		sig := in.Call.Signature()
		switch sig.Results().Len() {
		case 0:
		case 1:
			if len(rs) > 0 {
				set(in, rs[0])
			} else {
				set(in, unknown("no result"))
			}
		default:
			set(in, mkAgg("tuple", rs))
		}
		if _, ok := in.Call.Value.(*ssa.Builtin); ok && len(rs) > 0 {
			set(in, rs[0])
		}
	case *ssa.Defer:
		fv, args := f.callee(p, &in.Call)
		p.defers = append(p.defers, mkAgg("tuple", append([]Value{fv}, args...)))
	case *ssa.Go:
		fv, args := f.callee(p, &in.Call)
		e.goStmt(fv, args, in.Call.Signature())
	case *ssa.ChangeType:
		set(in, get(in.X))
	case *ssa.ChangeInterface:
		set(in, get(in.X))
	case *ssa.Convert:
		set(in, e.convert(get(in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		set(in, e.convert(get(in.X), in.X.Type(), in.Type()))
	case *ssa.Extract:
		set(in, project(get(in.Tuple), []int{in.Index}, func(v Value, i int) Value { return unknown("component %d of %s", i, show(v)) }))
	case *ssa.Field:
		set(in, project(get(in.X), []int{in.Field}, func(v Value, i int) Value {
			if a, ok := v.(*App); ok {
				return e.symbolic(in.Type(), fmt.Sprintf("field%d", i), a)
			}
			return unknown("field of %s", show(v))
		}))
	case *ssa.FieldAddr:
		x := get(in.X)
		e.derefCheck(x)
		set(in, mapLeaves(x, func(x Value) Value {
			switch x := x.(type) {
			case *Ptr:
				return mkPtr(x.obj, append(append([]int(nil), x.path...), in.Field)...)
			case *App:
				if x.fn == "elemof" || x.fn == "fieldof" {
					return opq("fieldof", x, linInt(int64(in.Field)))
				}
				return opq(fmt.Sprintf("fieldptr%d", in.Field), x)
			case *NilV:
				return unknown("field of nil pointer")
			}
			return badOr(x, "field address of %s")
		}))
	case *ssa.Index:
		set(in, e.index(get(in.X), get(in.Index), in.Type()))
	case *ssa.IndexAddr:
		set(in, e.indexAddr(get(in.X), get(in.Index), in.X.Type(), in.Type()))
	case *ssa.Lookup:
		set(in, e.lookup(get(in.X), get(in.Index), in.X.Type(), in.CommaOk))
	case *ssa.MakeChan:
		set(in, e.makeChan())
	case *ssa.MakeClosure:
		binds := make([]Value, len(in.Bindings))
		for i, b := range in.Bindings {
			binds[i] = get(b)
		}
		set(in, mkFunc(in.Fn.(*ssa.Function), binds))
	case *ssa.MakeInterface:
		x := get(in.X)
		t := in.X.Type()
		set(in, mapLeaves(x, func(x Value) Value {
			if u := bad(x); u != nil {
				return u
			}
			return mkIface(t, x)
		}))
	case *ssa.MakeMap:
		o := newObj("map", in.Type())
		e.st.heap[o] = mkMapV(nil, nil)
		set(in, mkPtr(o))
	case *ssa.MakeSlice:
		n, c := get(in.Len), get(in.Cap)
		e.panicIf(e.orV(lt(n, linInt(0)), lt(c, n)), "makeslice: len out of range")
		set(in, e.makeSlice(in.Type(), n, c))
	case *ssa.MapUpdate:
		e.mapUpdate(get(in.Map), get(in.Key), get(in.Value))
	case *ssa.Range:
		x := get(in.X)
		o := newObj("iter", nil)
		e.st.heap[o] = mkNative("iter", x, linInt(0))
		set(in, mkPtr(o))
	case *ssa.Next:
		set(in, e.next(get(in.Iter), in))
	case *ssa.Send:
		e.send(get(in.Chan), get(in.X))
	case *ssa.Select:
		set(in, e.selectStmt(in, get))
	case *ssa.Slice:
		var lo, hi, mx Value
		if in.Low != nil {
			lo = get(in.Low)
		}
		if in.High != nil {
			hi = get(in.High)
		}
		if in.Max != nil {
			mx = get(in.Max)
		}
		set(in, e.slice(get(in.X), lo, hi, mx, in.X.Type()))
	case *ssa.SliceToArrayPointer:
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		x := get(in.X)
		e.panicIf(lt(e.sliceLen(x), linInt(n)), "slice shorter than array")
		if isByte(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()) {
			// aliasing of the array with the slice is not tracked; loads copy
			r := e.bytesOf(e.slice(x, nil, linInt(n), nil, in.X.Type()))
			o := newObj("array", nil)
			e.st.heap[o] = r
			set(in, mkPtr(o))
		} else {
			set(in, unknown("slice to array pointer"))
		}
	case *ssa.Store:
		a := get(in.Addr)
		e.derefCheck(a)
		e.store(a, get(in.Val))
	case *ssa.TypeAssert:
		set(in, e.typeAssert(get(in.X), in.AssertedType, in.CommaOk))
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, unknown("instruction %T", in))
		}
	}
}

func badOr(x Value, format string) Value {
	if u := bad(x); u != nil {
		return u
	}
	return unknown(format, show(x))
}

func (e *Engine) orV(a, b Value) Value {
	a, b = e.boolOf(a), e.boolOf(b)
	return or(a, b)
}

func (e *Engine) boolOf(v Value) Value {
	if isBool(v) {
		return v
	}
	return undecidedCond(v)
}

// undecidedCond is a condition nothing is known about, unrelated to every other one.
func undecidedCond(v Value) Value {
	freshN++
	return boolApp("undecided", v, linInt(int64(freshN)))
}

func (e *Engine) notV(x Value) Value {
	if u := bad(x); u != nil {
		return u
	}
	return not(e.boolOf(x))
}

func (e *Engine) wrapT(v Value, t types.Type) Value {
	bits, signed, ok := intType(t)
	if !ok {
		return v
	}
	return wrap(v, bits, signed)
}

// nilCond is the condition that v is nil.
func (e *Engine) nilCond(v Value) Value {
	return e.boolLeaves(v, func(v Value) Value {
		switch v := v.(type) {
		case *NilV:
			return bTrue
		case *Unknown:
			return boolApp("undecided-nil", v)
		case *App:
			if strings.HasPrefix(v.fn, "nonnil:") || strings.HasPrefix(v.fn, "fieldptr") {
				return bFalse
			}
			return boolApp("isnil", v)
		}
		return bFalse
	})
}

// boolLeaves maps each leaf to a condition and recombines.
func (e *Engine) boolLeaves(v Value, f func(Value) Value) Value {
	return mapLeaves(v, f)
}

func (e *Engine) derefCheck(x Value) {
	c := mapLeaves(x, func(x Value) Value {
		if _, ok := x.(*NilV); ok {
			return bTrue
		}
		return bFalse
	})
	if c != bFalse {
		e.panicIf(c, "nil pointer dereference")
	}
}

func (e *Engine) binop(op token.Token, x, y Value, xt, yt, rt types.Type) Value {
	switch op {
	case token.EQL:
		return e.eqVal(x, y)
	case token.NEQ:
		v := e.eqVal(x, y)
		if u := bad(v); u != nil {
			return u
		}
		return not(v)
	}
	if _, _, ok := intType(xt); ok {
		if u := bad(x, y); u != nil {
			return u
		}
		switch op {
		case token.ADD:
			return e.wrapT(add(x, y), rt)
		case token.SUB:
			return e.wrapT(sub(x, y), rt)
		case token.MUL:
			return e.wrapT(mul(x, y), rt)
		case token.QUO:
			e.panicIf(eqInt(y, linInt(0)), "integer divide by zero")
			return e.wrapT(quo(x, y), rt)
		case token.REM:
			e.panicIf(eqInt(y, linInt(0)), "integer divide by zero")
			return e.wrapT(rem(x, y), rt)
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			name := map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot"}[op]
			return e.wrapT(bitOp(name, x, y), rt)
		case token.SHL:
			if _, signed, _ := intType(yt); signed {
				e.panicIf(lt(y, linInt(0)), "negative shift amount")
			}
			return e.wrapT(shl(x, y), rt)
		case token.SHR:
			if _, signed, _ := intType(yt); signed {
				e.panicIf(lt(y, linInt(0)), "negative shift amount")
			}
			return shr(x, y)
		case token.LSS:
			return lt(x, y)
		case token.LEQ:
			return le(x, y)
		case token.GTR:
			return lt(y, x)
		case token.GEQ:
			return le(y, x)
		}
		return unknown("integer operator %s", op)
	}
	b, _ := under(xt).(*types.Basic)
	if b != nil && b.Info()&types.IsString != 0 {
		if op == token.ADD {
			return ropeCat(ropeOf(x), ropeOf(y))
		}
		return lift2(x, y, func(x, y Value) Value { return strOrder(op, x, y) })
	}
	if b != nil && b.Info()&types.IsFloat != 0 {
		return lift2(x, y, func(x, y Value) Value { return e.floatop(op, x, y) })
	}
	if b != nil && b.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND, token.LAND:
			return and(e.boolOf(x), e.boolOf(y))
		case token.OR, token.LOR:
			return or(e.boolOf(x), e.boolOf(y))
		}
	}
	return unknown("operator %s on %s", op, xt)
}

// strOrder is the result of an ordering operator on strings.
func strOrder(op token.Token, x, y Value) Value {
	if u := bad(x, y); u != nil {
		return u
	}
	switch op {
	case token.GTR:
		return strOrder(token.LSS, y, x)
	case token.GEQ:
		return not(strOrder(token.LSS, x, y))
	case token.LEQ:
		return not(strOrder(token.LSS, y, x))
	}
	if x == y {
		return bFalse
	}
	a, ok1 := ropeConstStr(ropeOf(x))
	b, ok2 := ropeConstStr(ropeOf(y))
	if ok1 && ok2 {
		return boolV(a < b)
	}
	return boolApp("str<", x, y)
}

func (e *Engine) floatop(op token.Token, x, y Value) Value {
	if u := bad(x, y); u != nil {
		return u
	}
	a, ok1 := x.(*FloatV)
	b, ok2 := y.(*FloatV)
	if ok1 && ok2 {
		ad, bd := big.NewInt(a.den), big.NewInt(b.den)
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			l, r := scale(a.num, bd), scale(b.num, ad)
			switch op {
			case token.LSS:
				return lt(l, r)
			case token.LEQ:
				return le(l, r)
			case token.GTR:
				return lt(r, l)
			}
			return le(r, l)
		}
		ca, oka := constInt(a.num)
		cb, okb := constInt(b.num)
		if oka && okb && abs64(ca) < 1<<40 && abs64(cb) < 1<<40 && a.den == 1 && b.den == 1 {
			switch op {
			case token.ADD:
				return mkFloat(linInt(int64(ca+cb)), 1)
			case token.SUB:
				return mkFloat(linInt(int64(ca-cb)), 1)
			case token.MUL:
				return mkFloat(linInt(int64(ca*cb)), 1)
			}
		}
		// multiplication or division by an exact constant
		if op == token.QUO && okb && b.den == 1 && cb > 0 && a.den == 1 {
			return mkFloat(a.num, int64(cb))
		}
	}
	if op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ {
		return boolApp("f"+op.String(), x, y)
	}
	return opq("f"+op.String(), x, y)
}

func abs64(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

// eqVal is the condition x == y.
func (e *Engine) eqVal(x, y Value) Value {
	if isBool(x) && isBool(y) {
		return ite(x, y, not(y))
	}
	return lift2(x, y, func(x, y Value) Value {
		if u := bad(x, y); u != nil {
			return undecidedCond(u)
		}
		if x == y {
			return bTrue
		}
		if isBool(x) && isBool(y) {
			return ite(x, y, not(y))
		}
		switch a := x.(type) {
		case *Lin:
			if b, ok := y.(*Lin); ok {
				return eqInt(a, b)
			}
		case *Rope:
			if b, ok := y.(*Rope); ok {
				return ropeEq(a, b)
			}
		case *TimeV:
			if b, ok := y.(*TimeV); ok {
				return eqInt(a.ns, b.ns)
			}
		case *FloatV:
			if b, ok := y.(*FloatV); ok {
				return eqInt(scale(a.num, big.NewInt(b.den)), scale(b.num, big.NewInt(a.den)))
			}
		case *Agg:
			if b, ok := y.(*Agg); ok && len(a.es) == len(b.es) {
				r := bTrue
				for i := range a.es {
					r = and(r, e.eqVal(a.es[i], b.es[i]))
				}
				return r
			}
		case *Iface:
			switch b := y.(type) {
			case *Iface:
				if typeKey(a.typ) != typeKey(b.typ) {
					return bFalse
				}
				return e.eqVal(a.v, b.v)
			case *NilV:
				return bFalse
			case *App:
				return boolApp("eq", x, y)
			default:
				return e.eqVal(a.v, y)
			}
		case *NilV:
			return e.nilCond(y)
		case *Ptr:
			switch b := y.(type) {
			case *Ptr:
				return boolV(a.obj == b.obj && samePath(a.path, b.path))
			case *NilV:
				return bFalse
			}
		case *FuncV, *SliceV, *BytePtr:
			if _, ok := y.(*NilV); ok {
				return bFalse
			}
		case *App:
			if _, ok := y.(*NilV); ok {
				return e.nilCond(x)
			}
		}
		if _, ok := y.(*NilV); ok {
			return e.nilCond(x)
		}
		if x.ID() > y.ID() {
			x, y = y, x
		}
		return boolApp("eq", x, y)
	})
}

func (e *Engine) convert(x Value, from, to types.Type) Value {
	if u := bad(x); u != nil {
		return u
	}
	fu, tu := under(from), under(to)
	if _, _, ok := intType(to); ok {
		if _, _, ok := intType(from); ok {
			return e.wrapT(x, to)
		}
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsFloat != 0 {
			return mapLeaves(x, func(x Value) Value { return e.floatToInt(x, to) })
		}
		return e.symbolic(to, "convert", x)
	}
	tb, _ := tu.(*types.Basic)
	fb, _ := fu.(*types.Basic)
	if tb != nil && tb.Info()&types.IsFloat != 0 {
		if _, _, ok := intType(from); ok {
			return mapLeaves(x, func(x Value) Value {
				lo, hi := bounds(x)
				if lo != nil && hi != nil && lo.BitLen() <= 53 && hi.BitLen() <= 53 {
					return mkFloat(x, 1)
				}
				return opq("float64", x)
			})
		}
		return x
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if fb != nil && fb.Info()&types.IsString != 0 {
			return x
		}
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			return ropeOf(mapLeaves(x, func(x Value) Value {
				lo, hi := bounds(x)
				if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(127)) <= 0 {
					return ropeFix(1, x)
				}
				return ropeStr("utf8", nil, x)
			}))
		}
		if s, ok := fu.(*types.Slice); ok && isByte(s.Elem()) {
			return e.bytesOf(x)
		}
		return ropeStr("tostring", nil, e.deep(x))
	}
	if s, ok := tu.(*types.Slice); ok {
		if isByte(s.Elem()) {
			return e.newBytes(ropeOf(x))
		}
		if fb != nil && fb.Info()&types.IsString != 0 {
			r := ropeOf(x)
			if s, ok := ropeConstStr(r); ok {
				var es []Value
				for _, c := range s {
					es = append(es, linInt(int64(c)))
				}
				return e.newSliceOf(tu, es)
			}
			return opq("runes", r)
		}
	}
	return x
}

func (e *Engine) floatToInt(x Value, to types.Type) Value {
	fl, ok := x.(*FloatV)
	if !ok {
		if u := bad(x); u != nil {
			return u
		}
		return e.symbolic(to, "f2i", x)
	}
	lo, hi := typeBounds(to)
	d := big.NewInt(fl.den)
	exact := fl.den == 1
	if !exact {
		exact = true
		if l, ok := fl.num.(*Lin); ok {
			for _, t := range l.ts {
				if new(big.Int).Mod(t.c, d).Sign() != 0 {
					exact = false
				}
			}
			if new(big.Int).Mod(l.c, d).Sign() != 0 {
				exact = false
			}
		} else {
			exact = false
		}
	}
	if !exact {
		return e.symbolic(to, "f2i", x)
	}
	v := quo(fl.num, linConst(d))
	bl, bh := bounds(v)
	if bl == nil || bh == nil || bl.Cmp(lo) < 0 || bh.Cmp(hi) > 0 {
		// out-of-range conversions are implementation-defined
		in := and(le(linConst(lo), v), le(v, linConst(hi)))
		return ite(in, v, e.symbolic(to, "f2i-overflow", v))
	}
	return v
}

// ---------------------------------------------------------------------------
// slices, arrays, maps

func (e *Engine) boundsCheck(i, n Value, what string) {
	c := e.orV(lt(i, linInt(0)), le(n, i))
	e.panicIf(c, what)
}

func (e *Engine) index(x, i Value, t types.Type) Value {
	e.boundsCheck(i, e.sliceLen(x), "index out of range")
	return lift2(x, i, func(x, i Value) Value {
		switch x := x.(type) {
		case *Rope:
			if _, ok := i.(*Lin); ok {
				return ropeByte(x, i)
			}
		case *Agg:
			if k, ok := constInt(i); ok {
				if k >= 0 && k < len(x.es) {
					return x.es[k]
				}
				return unknown("index out of range")
			}
			return e.selectElem(x.es, i)
		}
		if u := bad(x, i); u != nil {
			return u
		}
		return e.symbolic(t, "index", x, i)
	})
}

// selectElem gates over the possible elements.
func (e *Engine) selectElem(es []Value, i Value) Value {
	lo, hi := bounds(i)
	a, b := 0, len(es)-1
	if lo != nil && lo.IsInt64() && lo.Int64() > 0 {
		a = int(lo.Int64())
	}
	if hi != nil && hi.IsInt64() && hi.Int64() < int64(b) {
		b = int(hi.Int64())
	}
	if b < a || b-a > 64 {
		return unknown("element at undecided index %s", show(i))
	}
	r := es[b]
	for k := b - 1; k >= a; k-- {
		r = ite(eqInt(i, linInt(int64(k))), es[k], r)
	}
	return r
}

func (e *Engine) indexAddr(x, i Value, xt, rt types.Type) Value {
	var n Value
	if pt, ok := under(xt).(*types.Pointer); ok {
		n = linInt(under(pt.Elem()).(*types.Array).Len())
		e.derefCheck(x)
	} else {
		n = e.sliceLen(x)
	}
	e.boundsCheck(i, n, "index out of range")
	elemT := under(rt).(*types.Pointer).Elem()
	return lift2(x, i, func(x, i Value) Value {
		switch x := x.(type) {
		case *SliceV:
			return lift2(add(x.off, i), linInt(0), func(k, _ Value) Value { return e.elemPtr(x.obj, x.path, k, elemT) })
		case *Ptr:
			return e.elemPtr(x.obj, x.path, i, elemT)
		case *NilV:
			return unknown("index of nil slice")
		case *App:
			return opq("elemptr", x, i)
		}
		return badOr(x, "element address of %s")
	})
}

func (e *Engine) elemPtr(o *Obj, path []int, k Value, elemT types.Type) Value {
	if isByte(elemT) {
		if _, ok := k.(*Lin); !ok {
			return badOr(k, "index %s")
		}
		return mkBytePtr(o, path, k)
	}
	c, ok := constInt(k)
	if !ok {
		return opq("elemof", mkPtr(o, path...), k)
	}
	return mkPtr(o, append(append([]int(nil), path...), c)...)
}

func (e *Engine) makeSlice(t types.Type, n, c Value) Value {
	et := under(t).(*types.Slice).Elem()
	o := newObj("make", t)
	if isByte(et) {
		e.st.heap[o] = ropeZeros(c)
		return mkSlice(o, nil, linInt(0), n, c)
	}
	return lift2(n, c, func(n, c Value) Value {
		k, ok := constInt(c)
		if !ok || k > 1<<16 {
			if u := bad(n, c); u != nil {
				return u
			}
			// unknown capacity: model as growing storage when the length is constant
			if ln, ok := constInt(n); ok && ln <= 1<<16 {
				k = ln
				c = n
			} else {
				return opq("make", n, c, linInt(int64(o.num)))
			}
		}
		o := newObj("make", t)
		es := make([]Value, k)
		z := e.zero(et)
		for i := range es {
			es[i] = z
		}
		e.st.heap[o] = mkAgg("array", es)
		return mkSlice(o, nil, linInt(0), n, c)
	})
}

func (e *Engine) slice(x, lo, hi, mx Value, xt types.Type) Value {
	if lo == nil {
		lo = linInt(0)
	}
	if u := bad(x, lo); u != nil {
		return u
	}
	// strings
	if b, ok := under(xt).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		r := ropeOf(x)
		n := ropeLen(r)
		if hi == nil {
			hi = n
		}
		e.panicIf(e.orV(e.orV(lt(lo, linInt(0)), lt(hi, lo)), lt(n, hi)), "slice bounds out of range")
		return ropeOf(liftN([]Value{r, lo, hi}, func(vs []Value) Value {
			return ropeSliceU(vs[0].(*Rope), vs[1], sub(vs[2], vs[1]), e.st.pc)
		}))
	}
	if pt, ok := under(xt).(*types.Pointer); ok {
		n := Value(linInt(under(pt.Elem()).(*types.Array).Len()))
		e.derefCheck(x)
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		e.panicIf(e.orV(e.orV(lt(lo, linInt(0)), lt(hi, lo)), e.orV(lt(mx, hi), lt(n, mx))), "slice bounds out of range")
		return mapLeaves(x, func(x Value) Value {
			if p, ok := x.(*Ptr); ok {
				return mkSlice(p.obj, p.path, lo, sub(hi, lo), sub(mx, lo))
			}
			return badOr(x, "slice of %s")
		})
	}
	n := e.sliceLen(x)
	if hi == nil {
		hi = n
	}
	capn := mapLeaves(x, func(x Value) Value {
		switch x := x.(type) {
		case *SliceV:
			return x.capn
		case *NilV:
			return linInt(0)
		}
		return e.sliceLen(x)
	})
	if mx == nil {
		mx = capn
	}
	e.panicIf(e.orV(e.orV(lt(lo, linInt(0)), lt(hi, lo)), e.orV(lt(mx, hi), lt(capn, mx))), "slice bounds out of range")
	return mapLeaves(x, func(x Value) Value {
		switch x := x.(type) {
		case *SliceV:
			m := mx
			if mx == capn {
				m = x.capn
			}
			h := hi
			if hi == n {
				h = x.len
			}
			return mkSlice(x.obj, x.path, add(x.off, lo), sub(h, lo), sub(m, lo))
		case *NilV:
			return x
		case *App:
			return opq("subslice", x, lo, hi)
		}
		return badOr(x, "slice of %s")
	})
}

// ropeSliceU slices, falling back to an uninterpreted substring.
func ropeSliceU(r *Rope, off, n Value, pc Value) Value {
	if s, ok := ropeSliceG(r, off, n, pc); ok {
		return s
	}
	if u := bad(off, n); u != nil {
		return ropeUnknown(u)
	}
	r2 := simp(r, pc).(*Rope)
	o2, n2 := simp(off, pc), simp(n, pc)
	return ropeStr("substr", n2, r2, o2)
}

func (e *Engine) mapUpdate(m, k, v Value) {
	e.split(m, func(m Value) {
		e.split(k, func(k Value) {
			p, ok := m.(*Ptr)
			if !ok {
				if _, ok := m.(*NilV); ok {
					e.panicIf(bTrue, "assignment to entry in nil map")
				}
				return
			}
			c, ok := e.loadPath(p.obj, p.path).(*MapV)
			if !ok {
				return
			}
			for i, x := range c.ks {
				q := e.eqVal(x, k)
				if q == bTrue {
					vs := append([]Value(nil), c.vs...)
					vs[i] = v
					e.setPath(p.obj, p.path, mkMapV(c.ks, vs))
					return
				}
				if q != bFalse {
					e.setPath(p.obj, p.path, unknown("map update with undecided key"))
					return
				}
			}
			e.setPath(p.obj, p.path, mkMapV(append(append([]Value(nil), c.ks...), k), append(append([]Value(nil), c.vs...), v)))
		})
	})
}

func (e *Engine) lookup(m, k Value, mt types.Type, commaOk bool) Value {
	if b, ok := under(mt).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return e.index(m, k, types.Typ[types.Uint8])
	}
	mapT, ok := under(mt).(*types.Map)
	if !ok {
		return unknown("lookup in %s", mt)
	}
	zero := e.zero(mapT.Elem())
	pack := func(v, found Value) Value {
		if commaOk {
			return mkAgg("tuple", []Value{v, found})
		}
		return v
	}
	val, found := Value(nil), Value(nil)
	pair := lift2(m, k, func(m, k Value) Value {
		switch mm := m.(type) {
		case *NilV:
			return mkAgg("tuple", []Value{zero, bFalse})
		case *Ptr:
			c := e.loadPath(mm.obj, mm.path)
			return mapLeaves(c, func(c Value) Value {
				switch c := c.(type) {
				case *MapV:
					v, f := zero, bFalse
					for i := len(c.ks) - 1; i >= 0; i-- {
						q := e.eqVal(c.ks[i], k)
						if _, ok := v.(*Rope); ok {
							v = ropeOf(ite(q, c.vs[i], v))
						} else {
							v = ite(q, c.vs[i], v)
						}
						f = or(f, q)
					}
					return mkAgg("tuple", []Value{v, f})
				case *App:
					return e.lookupApp(c, k, mapT, zero)
				}
				return badOr(c, "lookup in %s")
			})
		case *App:
			return e.lookupApp(mm, k, mapT, zero)
		}
		return badOr(m, "lookup in %s")
	})
	pick := func(i int) Value {
		return project(pair, []int{i}, func(v Value, i int) Value { return badOr(v, "lookup %s") })
	}
	val, found = pick(0), pick(1)
	return pack(val, e.boolOf(found))
}

// lookupApp looks a key up in an uninterpreted map.
func (e *Engine) lookupApp(m *App, k Value, mapT *types.Map, zero Value) Value {
	if m.fn == "global:github.com/kklash/wordlist4096.WordMap" {
		v, ok := wordIndex(ropeOf(k))
		if e.cli != nil && e.cli.search != nil {
			// the words of the context are in the list, or not, as it says
			ok = mapLeaves(k, func(k Value) Value {
				if exact, _, known := e.cli.search(e, ropeOf(k)); known {
					return exact
				}
				_, in := wordIndex(ropeOf(k))
				return in
			})
		}
		return mkAgg("tuple", []Value{ite(ok, v, zero), ok})
	}
	f := boolApp("inmap", m, k)
	v := e.symbolic(mapT.Elem(), "mapelem", m, k)
	return mkAgg("tuple", []Value{ite(f, v, zero), f})
}

// wordIndex is the word list's inverse.
func wordIndex(r *Rope) (Value, Value) {
	if len(r.ps) == 1 && r.ps[0].kind == "gate" {
		v := mapLeaves(r.ps[0].v, func(l Value) Value { a, _ := wordIndex(l.(*Rope)); return a })
		f := mapLeaves(r.ps[0].v, func(l Value) Value { _, b := wordIndex(l.(*Rope)); return b })
		return v, f
	}
	if len(r.ps) == 1 && r.ps[0].kind == "sub" && r.ps[0].a.fn == "word" && r.ps[0].n == r.ps[0].a.n {
		return r.ps[0].a.args[0], bTrue
	}
	if len(r.ps) == 0 {
		return linInt(0), bFalse
	}
	return intAtom("widx", zero, big.NewInt(4095), r), boolApp("inlist", r)
}

func (e *Engine) next(it Value, in *ssa.Next) Value {
	tup := in.Type().(*types.Tuple)
	p, ok := it.(*Ptr)
	if !ok {
		return unknown("iterator %s", show(it))
	}
	n := e.content(p.obj)
	nat, ok := n.(*Native)
	if !ok {
		return unknown("iterator %s", show(n))
	}
	x := nat.fs[0]
	pos, ok := constInt(nat.fs[1])
	if !ok {
		return unknown("iterator position")
	}
	kz, vz := e.zeroOr(tup.At(1).Type()), e.zeroOr(tup.At(2).Type())
	if in.IsString {
		if s, ok := x.(*Rope); ok {
			if str, ok := ropeConstStr(s); ok {
				if pos >= len(str) {
					return mkAgg("tuple", []Value{bFalse, kz, vz})
				}
				for i, c := range str[pos:] {
					_ = i
					w := len(string(c))
					e.st.heap[p.obj] = mkNative("iter", x, linInt(int64(pos+w)))
					return mkAgg("tuple", []Value{bTrue, linInt(int64(pos)), linInt(int64(c))})
				}
			}
		}
		return unknown("range over string")
	}
	if mp, ok := x.(*Ptr); ok {
		x = e.loadPath(mp.obj, mp.path)
	}
	if _, ok := x.(*NilV); ok {
		return mkAgg("tuple", []Value{bFalse, kz, vz})
	}
	m, ok := x.(*MapV)
	if !ok {
		e.opaque["map iteration"]++
		return unknown("range over %s", show(x))
	}
	if len(m.ks) > 1 {
		e.ambient("iteration over a map (random order)")
	}
	if pos >= len(m.ks) {
		return mkAgg("tuple", []Value{bFalse, kz, vz})
	}
	e.st.heap[p.obj] = mkNative("iter", nat.fs[0], linInt(int64(pos+1)))
	if e.mapReverse {
		pos = len(m.ks) - 1 - pos
	}
	return mkAgg("tuple", []Value{bTrue, m.ks[pos], m.vs[pos]})
}

func (e *Engine) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nilV
	}
	return e.zero(t)
}

func (e *Engine) typeAssert(x Value, t types.Type, commaOk bool) Value {
	_, toIface := under(t).(*types.Interface)
	okc := mapLeaves(x, func(x Value) Value {
		switch x := x.(type) {
		case *NilV:
			return bFalse
		case *Iface:
			if toIface {
				if nk := nativeKind(x.typ); nk != "" {
					return boolV(nativeImplements(nk, t))
				}
				return boolV(types.Implements(x.typ, under(t).(*types.Interface)))
			}
			return boolV(typeKey(x.typ) == typeKey(t))
		case *Unknown:
			return boolApp("undecided-type", x)
		}
		return boolApp("istype:"+typeKey(t), x)
	})
	v := mapLeaves(x, func(x Value) Value {
		switch x := x.(type) {
		case *Iface:
			if toIface {
				return x
			}
			if typeKey(x.typ) == typeKey(t) {
				return x.v
			}
			return e.zero(t)
		case *NilV:
			return e.zero(t)
		case *Unknown:
			return x
		}
		if toIface {
			return x
		}
		return e.symbolic(t, "assert", x)
	})
	if commaOk {
		return mkAgg("tuple", []Value{v, okc})
	}
	e.panicIf(not(okc), "type assertion failed")
	return v
}

func nativeKind(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == nil && strings.HasPrefix(n.Obj().Name(), "·") {
		return strings.TrimPrefix(n.Obj().Name(), "·")
	}
	return ""
}

var nativeMethods = map[string][]string{
	"stream":      {"Read"},
	"multireader": {"Read"},
	"hash":        {"Write", "Sum", "Reset", "Size", "BlockSize"},
	"error":       {"Error", "Unwrap"},
	"armor":       {"Write", "Close"},
	"block":       {"BlockSize", "Encrypt", "Decrypt"},
	"cfb":         {"XORKeyStream"},
	"hkdf":        {"Read"},
	"file":        {"Read", "Write", "Close", "WriteString"},
	"ctx":         {"Done", "Err"},
}

func nativeImplements(kind string, t types.Type) bool {
	it := under(t).(*types.Interface)
	have := map[string]bool{}
	for _, m := range nativeMethods[kind] {
		have[m] = true
	}
	for i := 0; i < it.NumMethods(); i++ {
		if !have[it.Method(i).Name()] {
			return false
		}
	}
	return true
}

// deep snapshots a value: pointers and slices are replaced by their contents.
func (e *Engine) deep(v Value) Value { return e.deepD(v, 6) }

func (e *Engine) deepD(v Value, d int) Value {
	if d < 0 || v == nil {
		return v
	}
	return mapLeaves(v, func(v Value) Value {
		switch v := v.(type) {
		case *SliceV:
			c := e.loadPath(v.obj, v.path)
			if _, ok := c.(*Rope); ok {
				return e.bytesOf(v)
			}
			if es, ok := e.elems(v); ok {
				out := make([]Value, len(es))
				for i := range es {
					out[i] = e.deepD(es[i], d-1)
				}
				return mkAgg("array", out)
			}
			return badOr(c, "contents of %s")
		case *Ptr:
			return e.deepD(e.loadPath(v.obj, v.path), d-1)
		case *Agg:
			out := make([]Value, len(v.es))
			for i := range v.es {
				out[i] = e.deepD(v.es[i], d-1)
			}
			return mkAgg(v.kind, out)
		case *Native:
			out := make([]Value, len(v.fs))
			for i := range v.fs {
				out[i] = e.deepD(v.fs[i], d-1)
			}
			return mkNative(v.kind, out...)
		case *Iface:
			return mkIface(v.typ, e.deepD(v.v, d-1))
		case *MapV:
			// the order of entries is not part of a map
			idx := make([]int, len(v.ks))
			for i := range idx {
				idx[i] = i
			}
			sort.Slice(idx, func(a, b int) bool { return v.ks[idx[a]].ID() < v.ks[idx[b]].ID() })
			var out []Value
			for _, i := range idx {
				out = append(out, v.ks[i], e.deepD(v.vs[i], d-1))
			}
			return mkAgg("map", out)
		}
		return v
	})
}
