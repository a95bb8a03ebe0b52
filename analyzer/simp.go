package main

// Renormalisation of values under a path condition.

import (
	"fmt"
	"math/big"
)

type eqFacts struct {
	atoms map[int]Value // App id -> value
	segs  []segFact
	strs  map[int]*Rope // bytes App id -> value
}

type segFact struct {
	b     Value
	lo, w int
	v     *big.Int
}

var eqMemo = map[int]*eqFacts{}

func supportOf(c Value) []*BVar {
	seen := map[int]bool{}
	vs := map[*BVar]bool{}
	var out []*BVar
	var rec func(Value)
	rec = func(c Value) {
		n, ok := c.(*Node)
		if !ok || seen[n.id] {
			return
		}
		seen[n.id] = true
		if !vs[n.v] {
			vs[n.v] = true
			out = append(out, n.v)
		}
		rec(n.hi)
		rec(n.lo)
	}
	rec(c)
	return out
}

func equalities(pc Value) *eqFacts {
	if e, ok := eqMemo[pc.ID()]; ok {
		return e
	}
	e := &eqFacts{atoms: map[int]Value{}, strs: map[int]*Rope{}}
	eqMemo[pc.ID()] = e
	done := map[int]bool{}
	for _, v := range supportOf(pc) {
		switch v.kind {
		case vLin:
			if done[v.rank] {
				continue
			}
			done[v.rank] = true
			core := v.core.(*Lin)
			lo, hi := withFacts(pc, func() [2]*big.Int { a, b := bounds(core); return [2]*big.Int{a, b} })[0], withFacts(pc, func() [2]*big.Int { a, b := bounds(core); return [2]*big.Int{a, b} })[1]
			if lo == nil || hi == nil || lo.Cmp(hi) != 0 {
				continue
			}
			e.addEq(core, lo)
		case vEnum:
			if and(pc, not(mkNode(v, bTrue, bFalse))) == bFalse {
				if r, ok := v.core.(*Rope); ok && len(r.ps) == 1 && r.ps[0].kind == "sub" && r.ps[0].n == r.ps[0].a.n {
					if c, ok := v.cst.(*Rope); ok {
						e.strs[r.ps[0].a.id] = c
						if nl, ok := r.ps[0].a.n.(*Lin); ok {
							if cl, ok := isConst(ropeLen(c)); ok {
								e.addEq(nl, cl)
							}
						}
					}
				}
			}
		}
	}
	return e
}

func (e *eqFacts) addEq(core *Lin, val *big.Int) {
	if len(core.ts) == 0 {
		return
	}
	if val.Sign() == 0 {
		all := true
		for _, t := range core.ts {
			if t.c.Sign() < 0 || t.a.lo == nil || t.a.lo.Sign() < 0 {
				all = false
			}
		}
		if all {
			for _, t := range core.ts {
				e.addAtom(t.a, zero)
			}
			return
		}
	}
	if len(core.ts) == 1 {
		t := core.ts[0]
		q, m := new(big.Int).DivMod(val, t.c, new(big.Int))
		if m.Sign() == 0 {
			e.addAtom(t.a, q)
		}
		return
	}
	for i := len(core.ts) - 1; i >= 0; i-- {
		t := core.ts[i]
		if t.c.CmpAbs(one) == 0 {
			var rest []LTerm
			for j, u := range core.ts {
				if j != i {
					rest = append(rest, u)
				}
			}
			r := Value(mkLin(rest, new(big.Int).Neg(val)))
			if t.c.Sign() > 0 {
				r = neg(r)
			}
			if _, dup := e.atoms[t.a.id]; !dup {
				e.atoms[t.a.id] = r
			}
			return
		}
	}
}

func (e *eqFacts) addAtom(a *App, v *big.Int) {
	if b, lo, w, ok := segParts(a); ok {
		e.segs = append(e.segs, segFact{b, lo, w, v})
	}
	e.atoms[a.id] = linConst(v)
	if a.fn == "bitlen" && v.Sign() == 0 {
		if l, ok := a.args[0].(*Lin); ok {
			e.addEq(l, zero)
		}
	}
}

type simpKey struct{ pc, v int }

var simpMemo = map[simpKey]Value{}
var simpDepth int

// appCons re-applies the normalising constructor of an application.
var appCons = map[string]func(args []Value) Value{}

// simp renormalises v under pc.
func simp(v Value, pc Value) Value {
	if v == nil || pc == bFalse {
		return v
	}
	k := simpKey{pc.ID(), v.ID()}
	if r, ok := simpMemo[k]; ok {
		return r
	}
	if simpDepth > 400 {
		return v
	}
	simpDepth++
	r := withFacts(pc, func() Value { return simp1(v, pc) })
	simpDepth--
	simpMemo[k] = r
	return r
}

func simpAll(vs []Value, pc Value) ([]Value, bool) {
	out := make([]Value, len(vs))
	ch := false
	for i, x := range vs {
		out[i] = simp(x, pc)
		if out[i] != x {
			ch = true
		}
	}
	return out, ch
}

func simpVar(v *BVar, pc Value) Value {
	switch v.kind {
	case vLin:
		return le(simp(v.core, pc), linConst(v.bound))
	case vEnum:
		c := simp(v.core, pc)
		if r, ok := c.(*Rope); ok {
			return ropeEq(r, v.cst.(*Rope))
		}
		if c == v.core {
			return mkNode(v, bTrue, bFalse)
		}
		return enumEq(c, v.cst)
	}
	a := v.core.(*App)
	args, ch := simpAll(a.args, pc)
	if f := appCons[a.fn]; f != nil {
		return f(args)
	}
	if !ch {
		return mkNode(v, bTrue, bFalse)
	}
	return boolApp(a.fn, args...)
}

func simp1(v Value, pc Value) Value {
	switch v := v.(type) {
	case *Node:
		r := restrict(v, pc)
		n, ok := r.(*Node)
		if !ok {
			return simp(r, pc)
		}
		c := simpVar(n.v, pc)
		if c == bTrue {
			return simp(n.hi, pc)
		}
		if c == bFalse {
			return simp(n.lo, pc)
		}
		lit := mkNode(n.v, bTrue, bFalse)
		ph, pl := and(pc, lit), and(pc, not(lit))
		if ph == bFalse {
			return simp(n.lo, pc)
		}
		if pl == bFalse {
			return simp(n.hi, pc)
		}
		hi, lo := simp(n.hi, ph), simp(n.lo, pl)
		if hi == lo {
			return hi
		}
		// a value equal to the other one under its own condition subsumes it
		if !isBool(hi) {
			if simp(lo, ph) == hi {
				return lo
			}
			if simp(hi, pl) == lo {
				return hi
			}
		}
		return ite(c, hi, lo)
	case *Lin:
		e := equalities(pc)
		var r Value = linConst(v.c)
		for _, t := range v.ts {
			r = add(r, scale(simpAtom(t.a, pc, e), t.c))
		}
		return r
	case *App:
		if v.sort == SBytes {
			return simpBytes(v, pc)
		}
		args, ch := simpAll(v.args, pc)
		if f := appCons[v.fn]; f != nil && ch {
			return f(args)
		}
		if !ch {
			return v
		}
		return mkApp(v.fn, v.sort, v.lo, v.hi, v.n, args...)
	case *Rope:
		var ps []*Rope
		for _, p := range v.ps {
			ps = append(ps, simpPiece(p, pc))
		}
		return ropeCat(ps...)
	case *Agg:
		es, ch := simpAll(v.es, pc)
		if !ch {
			return v
		}
		return mkAgg(v.kind, es)
	case *Iface:
		x := simp(v.v, pc)
		if x == v.v {
			return v
		}
		return mkIface(v.typ, x)
	case *Native:
		es, ch := simpAll(v.fs, pc)
		if !ch {
			return v
		}
		return mkNative(v.kind, es...)
	case *SliceV:
		o, l, c := simp(v.off, pc), simp(v.len, pc), simp(v.capn, pc)
		return mkSlice(v.obj, v.path, o, l, c)
	case *BytePtr:
		return mkBytePtr(v.obj, v.path, simp(v.off, pc))
	case *TimeV:
		return mkTime(simp(v.ns, pc))
	case *FloatV:
		return mkFloat(simp(v.num, pc), v.den)
	case *MapV:
		es, _ := simpAll(v.vs, pc)
		return mkMapV(v.ks, es)
	case *FuncV:
		es, ch := simpAll(v.binds, pc)
		if !ch {
			return v
		}
		return mkFunc(v.fn, es)
	}
	return v
}

func simpBytes(a *App, pc Value) Value { // -> *Rope or *App
	e := equalities(pc)
	if r, ok := e.strs[a.id]; ok {
		return r
	}
	args, ch := simpAll(a.args, pc)
	n := simp(a.n, pc)
	if f := appCons[a.fn]; f != nil && (ch || n != a.n) {
		return f(args)
	}
	if !ch && n == a.n {
		return a
	}
	if !ch {
		// only the length got more precise
		return a
	}
	return mkApp(a.fn, SBytes, nil, nil, n, args...)
}

func simpAtom(a *App, pc Value, e *eqFacts) Value {
	if r, ok := e.atoms[a.id]; ok {
		return r
	}
	if b, lo, w, ok := segParts(a); ok {
		for _, f := range e.segs {
			if f.b == b && f.lo <= lo && lo+w <= f.lo+f.w {
				return seg(linConst(f.v), lo-f.lo, w)
			}
		}
		nb := simp(b, pc)
		return seg(nb, lo, w)
	}
	switch a.fn {
	case "fdiv":
		return floorDiv(simp(a.args[0], pc), a.args[1].(*Lin).c)
	case "bitlen", "bitlenabs":
		return bitLen(simp(a.args[0], pc))
	case "mul":
		return mul(simp(a.args[0], pc), simp(a.args[1], pc))
	case "quo":
		return quo(simp(a.args[0], pc), simp(a.args[1], pc))
	case "shl":
		return shl(simp(a.args[0], pc), simp(a.args[1], pc))
	case "shr":
		return shr(simp(a.args[0], pc), simp(a.args[1], pc))
	case "and", "or", "xor", "andnot":
		return bitOp(a.fn, simp(a.args[0], pc), simp(a.args[1], pc))
	case "beint":
		b := simp(a.args[0], pc)
		if r, ok := b.(*Rope); ok {
			return ropeInt(r)
		}
		if b == a.args[0] {
			return linAtom(a)
		}
		n, _ := constInt(a.args[0].(*App).n)
		return beint(b.(*App), n)
	case "beuint":
		return ropeInt(simp(a.args[0], pc).(*Rope))
	case "byteat":
		return ropeByte(simp(a.args[0], pc).(*Rope), simp(a.args[1], pc))
	case "byteof":
		return ropeByte(simp(a.args[0], pc).(*Rope), linInt(0))
	}
	args, ch := simpAll(a.args, pc)
	if !ch {
		return linAtom(a)
	}
	if f := appCons[a.fn]; f != nil {
		return f(args)
	}
	return linAtom(mkApp(a.fn, SInt, a.lo, a.hi, nil, args...))
}

func simpPiece(p Piece, pc Value) *Rope {
	switch p.kind {
	case "fix":
		n, _ := p.fixN()
		return ropeFix(n, simp(p.v, pc))
	case "zeros":
		return ropeZeros(simp(p.n, pc))
	case "min":
		return ropeMin(simp(p.v, pc))
	case "cyc":
		return ropeCyc(simp(p.v, pc).(*Rope), simp(p.n, pc))
	case "gate":
		return ropeOf(simp(p.v, pc))
	case "sub":
		b := simpBytes(p.a, pc)
		off, n := simp(p.off, pc), simp(p.n, pc)
		if r, ok := b.(*Rope); ok {
			if s, ok := ropeSlice(r, off, n); ok {
				return s
			}
			return ropeUnknown(unknown("slice of %s", show(r)))
		}
		return mkRope([]Piece{{kind: "sub", n: n, a: b.(*App), off: off}})
	}
	panic("piece " + p.kind)
}

func ropeZeros(n Value) *Rope {
	return ropeOf(mapLeaves(n, func(n Value) Value {
		if u := bad(n); u != nil {
			return u
		}
		return mkRope([]Piece{{kind: "zeros", n: n}})
	}))
}

func byteLen(v Value) Value { return floorDiv(addI(bitLen(v), 7), big.NewInt(8)) }

func ropeMin(v Value) *Rope {
	return ropeOf(mapLeaves(v, func(v Value) Value {
		if u := bad(v); u != nil {
			return u
		}
		return mkRope([]Piece{{kind: "min", n: byteLen(v), v: v}})
	}))
}

func ropeCyc(r *Rope, n Value) *Rope {
	return ropeOf(mapLeaves(n, func(n Value) Value {
		if u := bad(n); u != nil {
			return u
		}
		return mkRope([]Piece{{kind: "cyc", n: n, v: r}})
	}))
}

// unknownIn finds a reason for imprecision inside v.
func unknownIn(v Value) string {
	seen := map[int]bool{}
	var why string
	var rec func(Value)
	rec = func(v Value) {
		if v == nil || why != "" || seen[v.ID()] {
			return
		}
		seen[v.ID()] = true
		list := func(vs []Value) {
			for _, x := range vs {
				rec(x)
			}
		}
		switch v := v.(type) {
		case *Unknown:
			why = v.why
		case *Lin:
			for _, t := range v.ts {
				rec(t.a)
			}
		case *App:
			list(v.args)
			rec(v.n)
		case *Rope:
			for _, p := range v.ps {
				rec(p.n)
				rec(p.v)
				if p.a != nil {
					rec(p.a)
				}
			}
		case *Agg:
			list(v.es)
		case *Native:
			list(v.fs)
		case *Iface:
			rec(v.v)
		case *MapV:
			list(v.ks)
			list(v.vs)
		case *TimeV:
			rec(v.ns)
		case *Node:
			rec(v.v.core)
			rec(v.hi)
			rec(v.lo)
		}
	}
	rec(v)
	return why
}

// atomsIn collects the names of uninterpreted applications inside v.
func atomsIn(v Value) map[string]bool {
	out := map[string]bool{}
	seen := map[int]bool{}
	var rec func(Value)
	rec = func(v Value) {
		if v == nil || seen[v.ID()] {
			return
		}
		seen[v.ID()] = true
		list := func(vs []Value) {
			for _, x := range vs {
				rec(x)
			}
		}
		switch v := v.(type) {
		case *Unknown:
			out["unknown"] = true
		case *Lin:
			for _, t := range v.ts {
				rec(t.a)
			}
		case *App:
			out[v.fn] = true
			list(v.args)
			rec(v.n)
		case *Rope:
			for _, p := range v.ps {
				rec(p.n)
				rec(p.v)
				if p.a != nil {
					rec(p.a)
				}
			}
		case *Agg:
			list(v.es)
		case *Native:
			list(v.fs)
		case *Iface:
			rec(v.v)
		case *TimeV:
			rec(v.ns)
		case *Node:
			rec(v.v.core)
			rec(v.hi)
			rec(v.lo)
		}
	}
	rec(v)
	return out
}

var _ = fmt.Sprint
