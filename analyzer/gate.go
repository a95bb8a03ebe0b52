package main

// Conditions and gated values.
//
// A condition is a decision diagram over normalised predicates; a gated value
// (the analysis' phi) is the same diagram with arbitrary values at its leaves.
// Predicates over one integer expression ("core <= bound") are kept adjacent and
// sorted by bound, so that diagrams stay canonical with respect to the order on
// integers; predicates "x == constant" over one string are mutually exclusive.

import (
	"fmt"
	"math/big"
)

type BVar struct {
	rank  int // of the core
	kind  int // 0 lin, 1 enum, 2 opaque
	core  Value
	bound *big.Int // lin
	cst   Value    // enum constant
	ord   int      // order among enum constants
}

const (
	vLin = iota
	vEnum
	vOpaque
)

func (v *BVar) String() string {
	switch v.kind {
	case vLin:
		return fmt.Sprintf("[%s <= %s]", showD(v.core, 5), showD(linConst(v.bound), 1))
	case vEnum:
		return fmt.Sprintf("[%s == %s]", showD(v.core, 5), showD(v.cst, 3))
	}
	return "[" + showD(v.core, 5) + "]"
}

var coreRank = map[string]int{}
var bvars = map[string]*BVar{}

func rankOf(kind int, core Value) int {
	k := fmt.Sprintf("%d:%d", kind, core.ID())
	r, ok := coreRank[k]
	if !ok {
		r = len(coreRank) + 1
		coreRank[k] = r
	}
	return r
}

func (a *BVar) less(b *BVar) bool {
	if a.rank != b.rank {
		return a.rank < b.rank
	}
	switch a.kind {
	case vLin:
		return a.bound.Cmp(b.bound) < 0
	case vEnum:
		return a.ord < b.ord
	}
	return false
}

type Leaf struct {
	base
	b bool
}

var (
	bTrue  Value = intern("true", func(id int) Value { return &Leaf{base{id}, true} })
	bFalse Value = intern("false", func(id int) Value { return &Leaf{base{id}, false} })
)

func boolV(b bool) Value {
	if b {
		return bTrue
	}
	return bFalse
}

// Node is a gate: v ? hi : lo.
type Node struct {
	base
	v      *BVar
	hi, lo Value
	bool_  bool
}

func isBool(v Value) bool {
	switch v := v.(type) {
	case *Leaf:
		return true
	case *Node:
		return v.bool_
	}
	return false
}

func top(vs ...Value) *BVar {
	var t *BVar
	for _, v := range vs {
		if n, ok := v.(*Node); ok {
			if t == nil || n.v.less(t) {
				t = n.v
			}
		}
	}
	return t
}

// cof is the cofactor of x by literal v=b, where v is not below x's top variable.
func cof(x Value, v *BVar, b bool) Value {
	for {
		n, ok := x.(*Node)
		if !ok {
			return x
		}
		if n.v == v {
			if b {
				x = n.hi
			} else {
				x = n.lo
			}
			if !b {
				return x
			}
			continue
		}
		if b && n.v.rank == v.rank && v.kind != vOpaque && v.less(n.v) {
			if v.kind == vLin {
				x = n.hi
			} else {
				x = n.lo
			}
			continue
		}
		return x
	}
}

func mkNode(v *BVar, hi, lo Value) Value {
	hi = cof(hi, v, true)
	if hi == lo || cof(lo, v, true) == hi {
		return lo
	}
	return intern(fmt.Sprintf("gate:%p:%d:%d", v, hi.ID(), lo.ID()), func(id int) Value {
		return &Node{base{id}, v, hi, lo, isBool(hi) && isBool(lo)}
	})
}

type k3 [3]int

var iteMemo = map[k3]Value{}

// ite builds the gated value (f ? g : h).
func ite(f, g, h Value) Value {
	switch {
	case f == bTrue:
		return g
	case f == bFalse:
		return h
	case g == h:
		return g
	case g == bTrue && h == bFalse:
		return f
	}
	if _, ok := f.(*Unknown); ok {
		return f
	}
	k := k3{f.ID(), g.ID(), h.ID()}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	v := top(f, g, h)
	if v == nil {
		return unknown("gate on non-boolean %s", show(f))
	}
	r := mkNode(v, ite(cof(f, v, true), cof(g, v, true), cof(h, v, true)),
		ite(cof(f, v, false), cof(g, v, false), cof(h, v, false)))
	iteMemo[k] = r
	return r
}

func and(a, b Value) Value { return ite(a, b, bFalse) }
func or(a, b Value) Value  { return ite(a, bTrue, b) }
func not(a Value) Value    { return ite(a, bFalse, bTrue) }
func implies(a, b Value) bool {
	return and(a, not(b)) == bFalse
}

// mapLeaves applies f to every leaf of a gated value.
func mapLeaves(v Value, f func(Value) Value) Value {
	memo := map[int]Value{}
	var rec func(Value) Value
	rec = func(v Value) Value {
		n, ok := v.(*Node)
		if !ok {
			return f(v)
		}
		if n.bool_ {
			return f(v)
		}
		if r, ok := memo[v.ID()]; ok {
			return r
		}
		cond := mkNode(n.v, bTrue, bFalse)
		r := ite(cond, rec(n.hi), rec(n.lo))
		memo[v.ID()] = r
		return r
	}
	return rec(v)
}

func isGate(v Value) bool {
	n, ok := v.(*Node)
	return ok && !n.bool_
}

// lift2 applies f to all pairs of leaves of gated values a and b.
func lift2(a, b Value, f func(a, b Value) Value) Value {
	if !isGate(a) && !isGate(b) {
		return f(a, b)
	}
	memo := map[[2]int]Value{}
	var rec func(a, b Value) Value
	rec = func(a, b Value) Value {
		var v *BVar
		if isGate(a) {
			v = a.(*Node).v
		}
		if isGate(b) {
			if w := b.(*Node).v; v == nil || w.less(v) {
				v = w
			}
		}
		if v == nil {
			return f(a, b)
		}
		k := [2]int{a.ID(), b.ID()}
		if r, ok := memo[k]; ok {
			return r
		}
		ca := func(x Value, bv bool) Value {
			if isGate(x) {
				return cof(x, v, bv)
			}
			return x
		}
		r := ite(mkNode(v, bTrue, bFalse), rec(ca(a, true), ca(b, true)), rec(ca(a, false), ca(b, false)))
		memo[k] = r
		return r
	}
	return rec(a, b)
}

func liftN(vs []Value, f func([]Value) Value) Value {
	any_ := false
	for _, v := range vs {
		if v != nil && isGate(v) {
			any_ = true
		}
	}
	if !any_ {
		return f(vs)
	}
	var v *BVar
	for _, x := range vs {
		if x != nil && isGate(x) {
			if w := x.(*Node).v; v == nil || w.less(v) {
				v = w
			}
		}
	}
	side := func(b bool) []Value {
		out := make([]Value, len(vs))
		for i, x := range vs {
			if x != nil && isGate(x) {
				out[i] = cof(x, v, b)
			} else {
				out[i] = x
			}
		}
		return out
	}
	return ite(mkNode(v, bTrue, bFalse), liftN(side(true), f), liftN(side(false), f))
}

// restrict simplifies f using the knowledge that c holds (Coudert-Madre).
func restrict(f, c Value) Value {
	memo := map[[2]int]Value{}
	var rec func(f, c Value) Value
	rec = func(f, c Value) Value {
		fn, ok := f.(*Node)
		if !ok || c == bTrue || c == bFalse {
			return f
		}
		cn, ok := c.(*Node)
		if !ok {
			return f
		}
		k := [2]int{f.ID(), c.ID()}
		if r, ok := memo[k]; ok {
			return r
		}
		var r Value
		if cn.v != fn.v && cn.v.less(fn.v) {
			// variable of c above f's: f does not depend on it directly, but order
			// relations on the same core may still prune.
			hi, lo := cof(c, cn.v, true), cof(c, cn.v, false)
			if hi == bFalse {
				r = rec(cof(f, cn.v, false), lo)
			} else if lo == bFalse {
				r = rec(cof(f, cn.v, true), hi)
			} else if cn.v.rank == fn.v.rank {
				a, b := rec(cof(f, cn.v, true), hi), rec(f, lo)
				r = ite(mkNode(cn.v, bTrue, bFalse), a, b)
				if a == b {
					r = a
				}
			} else {
				r = rec(f, or(hi, lo))
			}
		} else {
			v := fn.v
			ch, cl := cof(c, v, true), cof(c, v, false)
			switch {
			case ch == bFalse:
				r = rec(cof(f, v, false), cl)
			case cl == bFalse:
				r = rec(cof(f, v, true), ch)
			default:
				r = mkNode2(v, rec(cof(f, v, true), ch), rec(cof(f, v, false), cl))
			}
		}
		memo[k] = r
		return r
	}
	return rec(f, c)
}

func mkNode2(v *BVar, hi, lo Value) Value { return ite(mkNode(v, bTrue, bFalse), hi, lo) }

// Cube is a conjunction of literals.
type Lit struct {
	v   *BVar
	pos bool
}

// cubes enumerates the paths of a condition to true, at most max of them.
func cubes(c Value, max int) ([][]Lit, bool) {
	var out [][]Lit
	var cur []Lit
	ok := true
	var rec func(c Value)
	rec = func(c Value) {
		if !ok || c == bFalse {
			return
		}
		if c == bTrue {
			if len(out) >= max {
				ok = false
				return
			}
			out = append(out, append([]Lit(nil), cur...))
			return
		}
		n := c.(*Node)
		cur = append(cur, Lit{n.v, true})
		rec(n.hi)
		cur[len(cur)-1].pos = false
		rec(n.lo)
		cur = cur[:len(cur)-1]
	}
	rec(c)
	return out, ok
}

// hull returns the tightest interval of core implied by condition c.
func hull(c Value, rank int) (lo, hi *big.Int, feasible bool) {
	type iv struct {
		lo, hi *big.Int
		ok     bool
	}
	memo := map[int]iv{}
	var rec func(c Value) iv
	rec = func(c Value) iv {
		if c == bTrue {
			return iv{nil, nil, true}
		}
		n, ok := c.(*Node)
		if !ok {
			return iv{}
		}
		if r, ok := memo[c.ID()]; ok {
			return r
		}
		h, l := rec(n.hi), rec(n.lo)
		if n.v.rank == rank && n.v.kind == vLin {
			if h.ok && (h.hi == nil || h.hi.Cmp(n.v.bound) > 0) {
				h.hi = n.v.bound
			}
			nb := new(big.Int).Add(n.v.bound, one)
			if l.ok && (l.lo == nil || l.lo.Cmp(nb) < 0) {
				l.lo = nb
			}
		}
		var r iv
		switch {
		case !h.ok:
			r = l
		case !l.ok:
			r = h
		default:
			r.ok = true
			if h.lo != nil && l.lo != nil {
				r.lo = h.lo
				if l.lo.Cmp(h.lo) < 0 {
					r.lo = l.lo
				}
			}
			if h.hi != nil && l.hi != nil {
				r.hi = h.hi
				if l.hi.Cmp(h.hi) > 0 {
					r.hi = l.hi
				}
			}
		}
		memo[c.ID()] = r
		return r
	}
	r := rec(c)
	return r.lo, r.hi, r.ok
}

func opaqueBool(core Value) Value {
	r := rankOf(vOpaque, core)
	k := fmt.Sprintf("o%d", r)
	v, ok := bvars[k]
	if !ok {
		v = &BVar{rank: r, kind: vOpaque, core: core}
		bvars[k] = v
	}
	return mkNode(v, bTrue, bFalse)
}

func boolApp(fn string, args ...Value) Value {
	return opaqueBool(mkApp(fn, SBool, nil, nil, nil, args...))
}

var enumOrd = map[string]int{}

func enumEq(core, cst Value) Value {
	r := rankOf(vEnum, core)
	k := fmt.Sprintf("e%d:%d", r, cst.ID())
	v, ok := bvars[k]
	if !ok {
		enumOrd[fmt.Sprint(r)]++
		v = &BVar{rank: r, kind: vEnum, core: core, cst: cst, ord: enumOrd[fmt.Sprint(r)]}
		bvars[k] = v
	}
	return mkNode(v, bTrue, bFalse)
}

func linLE(core *Lin, bound *big.Int) Value {
	r := rankOf(vLin, core)
	k := fmt.Sprintf("l%d:%s", r, bound.Text(62))
	v, ok := bvars[k]
	if !ok {
		v = &BVar{rank: r, kind: vLin, core: core, bound: new(big.Int).Set(bound)}
		bvars[k] = v
	}
	return mkNode(v, bTrue, bFalse)
}

// liftPC is liftN with the path condition of every combination of leaves.
func liftPC(vs []Value, pc Value, f func(vs []Value, pc Value) Value) Value {
	var v *BVar
	for i, x := range vs {
		if x != nil && isGate(x) {
			vs = append([]Value(nil), vs...)
			vs[i] = restrict(x, pc)
		}
	}
	for _, x := range vs {
		if x != nil && isGate(x) {
			if w := x.(*Node).v; v == nil || w.less(v) {
				v = w
			}
		}
	}
	if v == nil {
		return withFacts(pc, func() Value { return f(vs, pc) })
	}
	side := func(b bool) []Value {
		out := make([]Value, len(vs))
		for i, x := range vs {
			if x != nil && isGate(x) {
				out[i] = cof(x, v, b)
			} else {
				out[i] = x
			}
		}
		return out
	}
	c := mkNode(v, bTrue, bFalse)
	ph, pl := and(pc, c), and(pc, not(c))
	if ph == bFalse {
		return liftPC(side(false), pc, f)
	}
	if pl == bFalse {
		return liftPC(side(true), pc, f)
	}
	return ite(c, liftPC(side(true), ph, f), liftPC(side(false), pl, f))
}
