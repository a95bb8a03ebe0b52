package main

// Integer expressions: linear forms over atoms, with bit-field atoms.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

var (
	zero = big.NewInt(0)
	one  = big.NewInt(1)
	two  = big.NewInt(2)
)

type LTerm struct {
	a *App
	c *big.Int
}

type Lin struct {
	base
	ts []LTerm
	c  *big.Int
}

// facts is the path condition under which values are currently being normalised.
var facts Value = bTrue

func withFacts[T any](pc Value, f func() T) T {
	old := facts
	facts = pc
	defer func() { facts = old }()
	return f()
}

func mkLin(ts []LTerm, c *big.Int) *Lin {
	sort.Slice(ts, func(i, j int) bool { return ts[i].a.id < ts[j].a.id })
	var out []LTerm
	for _, t := range ts {
		if len(out) > 0 && out[len(out)-1].a == t.a {
			out[len(out)-1].c = new(big.Int).Add(out[len(out)-1].c, t.c)
			continue
		}
		out = append(out, LTerm{t.a, t.c})
	}
	w := out[:0]
	for _, t := range out {
		if t.c.Sign() != 0 {
			w = append(w, t)
		}
	}
	out = mergeSegs(w)
	var sb strings.Builder
	sb.WriteString("lin:")
	sb.WriteString(c.Text(62))
	for _, t := range out {
		fmt.Fprintf(&sb, ";%d*%s", t.a.id, t.c.Text(62))
	}
	return intern(sb.String(), func(id int) Value {
		return &Lin{base{id}, append([]LTerm(nil), out...), new(big.Int).Set(c)}
	}).(*Lin)
}

func segParts(a *App) (Value, int, int, bool) {
	if a.fn != "seg" {
		return nil, 0, 0, false
	}
	return a.args[0], int(a.args[1].(*Lin).c.Int64()), int(a.args[2].(*Lin).c.Int64()), true
}

// mergeSegs joins adjacent bit fields of the same base value.
func mergeSegs(ts []LTerm) []LTerm {
	for {
		merged := false
	outer:
		for i := range ts {
			b1, lo1, w1, ok := segParts(ts[i].a)
			if !ok {
				continue
			}
			for j := range ts {
				if i == j {
					continue
				}
				b2, lo2, w2, ok := segParts(ts[j].a)
				if !ok || lo2 != lo1+w1 {
					continue
				}
				if b1 != b2 {
					// the low field of b2 can be written with a smaller base
					if v, ok := seg(b2, lo1, w1).(*Lin); !ok || v != linAtom(ts[i].a) {
						continue
					}
					b1 = b2
				}
				// c2 == c1 << w1 ?
				if new(big.Int).Lsh(ts[i].c, uint(w1)).Cmp(ts[j].c) != 0 {
					continue
				}
				n := segAtom(b1, lo1, w1+w2)
				var out []LTerm
				for k := range ts {
					if k != i && k != j {
						out = append(out, ts[k])
					}
				}
				// the merged field may be the whole base value
				base := n
				if l, ok := b1.(*Lin); ok && lo1 == 0 && len(l.ts) == 1 && l.c.Sign() == 0 && l.ts[0].c.Cmp(one) == 0 {
					if a := l.ts[0].a; fitsAtom(a, w1+w2) {
						base = a
					}
				}
				out = append(out, LTerm{base, ts[i].c})
				sort.Slice(out, func(i, j int) bool { return out[i].a.id < out[j].a.id })
				// the base atom might already be present
				var o2 []LTerm
				for _, t := range out {
					if len(o2) > 0 && o2[len(o2)-1].a == t.a {
						o2[len(o2)-1].c = new(big.Int).Add(o2[len(o2)-1].c, t.c)
					} else {
						o2 = append(o2, t)
					}
				}
				ts = o2
				merged = true
				break outer
			}
		}
		if !merged {
			return ts
		}
	}
}

func pow2(k int) *big.Int { return new(big.Int).Lsh(one, uint(k)) }
func isPow2(x *big.Int) bool {
	return x.Sign() > 0 && new(big.Int).And(x, new(big.Int).Sub(x, one)).Sign() == 0
}

func fits(lo, hi *big.Int, w int) bool {
	return lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() <= w
}

func fitsAtom(a *App, w int) bool {
	lo, hi := atomBounds(a)
	return fits(lo, hi, w)
}

func segAtom(b Value, lo, w int) *App {
	return mkApp("seg", SInt, zero, new(big.Int).Sub(pow2(w), one), nil, b, linInt(int64(lo)), linInt(int64(w)))
}

func linConst(c *big.Int) *Lin { return mkLin(nil, c) }
func linInt(i int64) *Lin      { return mkLin(nil, big.NewInt(i)) }
func linAtom(a *App) *Lin      { return mkLin([]LTerm{{a, one}}, zero) }
func intAtom(fn string, lo, hi *big.Int, args ...Value) *Lin {
	return linAtom(mkApp(fn, SInt, lo, hi, nil, args...))
}

func isConst(v Value) (*big.Int, bool) {
	l, ok := v.(*Lin)
	if !ok || len(l.ts) != 0 {
		return nil, false
	}
	return l.c, true
}

func constInt(v Value) (int, bool) {
	c, ok := isConst(v)
	if !ok || !c.IsInt64() {
		return 0, false
	}
	return int(c.Int64()), true
}

func bad(vs ...Value) Value {
	for _, v := range vs {
		if v == nil {
			return unknown("missing value")
		}
		if u, ok := v.(*Unknown); ok {
			return u
		}
	}
	return nil
}

func lin2(a, b Value, f func(a, b *Lin) Value) Value {
	return lift2(a, b, func(a, b Value) Value {
		if u := bad(a, b); u != nil {
			return u
		}
		la, ok1 := a.(*Lin)
		lb, ok2 := b.(*Lin)
		if !ok1 || !ok2 {
			return unknown("arithmetic on %T/%T", a, b)
		}
		return f(la, lb)
	})
}

func add(a, b Value) Value {
	return lin2(a, b, func(a, b *Lin) Value {
		return mkLin(append(append([]LTerm(nil), a.ts...), b.ts...), new(big.Int).Add(a.c, b.c))
	})
}

func scale(a Value, k *big.Int) Value {
	return mapLeaves(a, func(a Value) Value {
		if u := bad(a); u != nil {
			return u
		}
		l, ok := a.(*Lin)
		if !ok {
			return unknown("scaling %T", a)
		}
		ts := make([]LTerm, len(l.ts))
		for i, t := range l.ts {
			ts[i] = LTerm{t.a, new(big.Int).Mul(t.c, k)}
		}
		return mkLin(ts, new(big.Int).Mul(l.c, k))
	})
}

func neg(a Value) Value    { return scale(a, big.NewInt(-1)) }
func sub(a, b Value) Value { return add(a, neg(b)) }
func addI(a Value, i int64) Value {
	return add(a, linInt(i))
}

func mul(a, b Value) Value {
	return lin2(a, b, func(a, b *Lin) Value {
		if len(a.ts) == 0 {
			return scale(b, a.c)
		}
		if len(b.ts) == 0 {
			return scale(a, b.c)
		}
		if a.id > b.id {
			a, b = b, a
		}
		lo, hi := mulBounds(a, b)
		return intAtom("mul", lo, hi, a, b)
	})
}

func mulBounds(a, b *Lin) (*big.Int, *big.Int) {
	al, ah := bounds(a)
	bl, bh := bounds(b)
	if al == nil || ah == nil || bl == nil || bh == nil {
		if al != nil && bl != nil && al.Sign() >= 0 && bl.Sign() >= 0 {
			return zero, nil
		}
		return nil, nil
	}
	var lo, hi *big.Int
	for _, x := range []*big.Int{al, ah} {
		for _, y := range []*big.Int{bl, bh} {
			p := new(big.Int).Mul(x, y)
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	}
	return lo, hi
}

// ---------------------------------------------------------------------------
// bounds

type bkey struct{ f, l int }
type bval struct{ lo, hi *big.Int }

var boundMemo = map[bkey]bval{}

func maxB(a, b *big.Int) *big.Int {
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) >= 0 {
		return a
	}
	return b
}
func minB(a, b *big.Int) *big.Int {
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) <= 0 {
		return a
	}
	return b
}

var boundDepth int

// bounds returns the interval of v under the current facts.
func bounds(v Value) (lo, hi *big.Int) {
	switch v := v.(type) {
	case *Lin:
		k := bkey{facts.ID(), v.id}
		if r, ok := boundMemo[k]; ok {
			return r.lo, r.hi
		}
		if boundDepth > 40 {
			return nil, nil
		}
		boundDepth++
		lo, hi = linBounds(v)
		boundDepth--
		boundMemo[k] = bval{lo, hi}
		return
	case *Node:
		if !isGate(v) {
			return nil, nil
		}
		// hull of leaves
		hl, hh := bounds(v.hi)
		ll, lh := bounds(v.lo)
		if hl != nil && ll != nil {
			lo = hl
			if ll.Cmp(hl) < 0 {
				lo = ll
			}
		}
		if hh != nil && lh != nil {
			hi = hh
			if lh.Cmp(hh) > 0 {
				hi = lh
			}
		}
		return
	}
	return nil, nil
}

func linBounds(l *Lin) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for _, t := range l.ts {
		al, ah := atomBounds(t.a)
		if t.c.Sign() < 0 {
			al, ah = ah, al
		}
		if al == nil || lo == nil {
			lo = nil
		} else {
			lo.Add(lo, new(big.Int).Mul(t.c, al))
		}
		if ah == nil || hi == nil {
			hi = nil
		} else {
			hi.Add(hi, new(big.Int).Mul(t.c, ah))
		}
	}
	if len(l.ts) == 0 {
		return
	}
	// facts on the same core
	core, k, flip, g := coreOf(l)
	if r, ok := coreRank[fmt.Sprintf("%d:%d", vLin, core.ID())]; ok {
		cl, ch, feas := hull(facts, r)
		if feas {
			// l = g*(±core) + k
			if flip {
				nl, nh := cl, ch
				cl, ch = nil, nil
				if nh != nil {
					cl = new(big.Int).Neg(nh)
				}
				if nl != nil {
					ch = new(big.Int).Neg(nl)
				}
			}
			if cl != nil {
				lo = maxB(lo, new(big.Int).Add(new(big.Int).Mul(cl, g), k))
			}
			if ch != nil {
				hi = minB(hi, new(big.Int).Add(new(big.Int).Mul(ch, g), k))
			}
		}
	}
	return
}

// coreOf writes l as g*(±core)+k with core's leading coefficient positive.
func coreOf(l *Lin) (core *Lin, k *big.Int, flip bool, g *big.Int) {
	g = new(big.Int)
	for _, t := range l.ts {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	flip = l.ts[0].c.Sign() < 0
	d := new(big.Int).Set(g)
	if flip {
		d.Neg(d)
	}
	ts := make([]LTerm, len(l.ts))
	for i, t := range l.ts {
		ts[i] = LTerm{t.a, new(big.Int).Quo(t.c, d)}
	}
	return mkLin(ts, zero), l.c, flip, g
}

func atomBounds(a *App) (lo, hi *big.Int) {
	lo, hi = a.lo, a.hi
	switch a.fn {
	case "seg":
		_, slo, w, _ := segParts(a)
		bl, bh := bounds(a.args[0])
		if bl != nil && bl.Sign() >= 0 && bh != nil && bh.BitLen() <= slo+w {
			lo = maxB(lo, new(big.Int).Rsh(bl, uint(slo)))
			hi = minB(hi, new(big.Int).Rsh(bh, uint(slo)))
		}
	case "fdiv":
		d := a.args[1].(*Lin).c
		bl, bh := bounds(a.args[0])
		if bl != nil {
			lo = maxB(lo, floorDivB(bl, d))
		}
		if bh != nil {
			hi = minB(hi, floorDivB(bh, d))
		}
	case "bitlen":
		bl, bh := bounds(a.args[0])
		if bl != nil && bh != nil && bl.Sign() >= 0 {
			lo = maxB(lo, big.NewInt(int64(bl.BitLen())))
			hi = minB(hi, big.NewInt(int64(bh.BitLen())))
		}
	case "lin":
		bl, bh := bounds(a.args[0])
		lo, hi = maxB(lo, bl), minB(hi, bh)
	case "mul":
		bl, bh := mulBounds(a.args[0].(*Lin), a.args[1].(*Lin))
		lo, hi = maxB(lo, bl), minB(hi, bh)
	}
	if facts != bTrue {
		core := linAtom(a)
		if r, ok := coreRank[fmt.Sprintf("%d:%d", vLin, core.ID())]; ok {
			cl, ch, feas := hull(facts, r)
			if feas {
				lo, hi = maxB(lo, cl), minB(hi, ch)
			}
		}
	}
	return
}

func floorDivB(a, d *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, d, new(big.Int)) // Euclidean; d>0 => floor
	_ = m
	return q
}

// ---------------------------------------------------------------------------
// comparisons

// le is the condition a <= b.
func le(a, b Value) Value {
	return lin2(sub(a, b), linInt(0), func(d, _ *Lin) Value { return leZero(d) })
}
func lt(a, b Value) Value { return le(addI(a, 1), b) }
func eqInt(a, b Value) Value {
	return lin2(sub(a, b), linInt(0), func(d, _ *Lin) Value {
		if len(d.ts) == 0 {
			return boolV(d.c.Sign() == 0)
		}
		// gcd test
		_, k, _, g := coreOf(d)
		if new(big.Int).Mod(k, g).Sign() != 0 {
			return bFalse
		}
		return and(leZero(d), leZero(neg(d).(*Lin)))
	})
}

func leZero(l *Lin) Value {
	if len(l.ts) == 0 {
		return boolV(l.c.Sign() <= 0)
	}
	lo, hi := bounds(l)
	if hi != nil && hi.Sign() <= 0 {
		return bTrue
	}
	if lo != nil && lo.Sign() > 0 {
		return bFalse
	}
	// a sum of non-negative terms is <= 0 iff every term is
	if l.c.Sign() == 0 && len(l.ts) > 1 {
		nn := true
		for _, t := range l.ts {
			al, _ := atomBounds(t.a)
			if t.c.Sign() < 0 || al == nil || al.Sign() < 0 {
				nn = false
				break
			}
		}
		if nn {
			r := bTrue
			for _, t := range l.ts {
				r = and(r, leZero(linAtom(t.a)))
			}
			return r
		}
	}
	if up, ok := remBelow(l); ok {
		if _, h := bounds(up); h != nil && h.Sign() <= 0 {
			return bTrue
		}
	}
	if up, ok := remBelow(neg(l).(*Lin)); ok {
		if _, h := bounds(up); h != nil && h.Sign() < 0 {
			return bFalse
		}
	}
	core, k, flip, g := coreOf(l)
	// g*(±core) + k <= 0
	if !flip {
		// core <= floor(-k/g)
		return coreLE(core, floorDivB(new(big.Int).Neg(k), g))
	}
	// core >= ceil(k/g)  <=> !(core <= ceil(k/g)-1)
	c := new(big.Int).Neg(floorDivB(new(big.Int).Neg(k), g))
	return not(coreLE(core, c.Sub(c, one)))
}

// coreLE normalises "core <= b" through monotone atoms.
func coreLE(core *Lin, b *big.Int) Value {
	if len(core.ts) == 1 && core.c.Sign() == 0 && core.ts[0].c.Cmp(one) == 0 {
		a := core.ts[0].a
		switch a.fn {
		case "bitlen":
			x := a.args[0]
			if l, _ := bounds(x); l != nil && l.Sign() >= 0 {
				if b.Sign() < 0 {
					return bFalse
				}
				if b.IsInt64() && b.Int64() < 100000 {
					return le(x, linConst(new(big.Int).Sub(pow2(int(b.Int64())), one)))
				}
			}
		case "fdiv":
			d := a.args[1].(*Lin).c
			t := new(big.Int).Mul(d, b)
			t.Add(t, d)
			t.Sub(t, one)
			return le(a.args[0], linConst(t))
		case "seg":
			bv, lo, w, _ := segParts(a)
			bl, bh := bounds(bv)
			if lo > 0 && bl != nil && bl.Sign() >= 0 && bh != nil && bh.BitLen() <= lo+w {
				t := new(big.Int).Lsh(b, uint(lo))
				t.Add(t, pow2(lo))
				t.Sub(t, one)
				return le(bv, linConst(t))
			}
		}
	}
	return linLE(core, b)
}

// ---------------------------------------------------------------------------
// bit fields

type bitField struct {
	lo, w int
	a     *App     // atom in [0,2^w), or nil for a constant
	c     *big.Int // constant bits
}

// bitsOf views l as disjoint bit fields (constants included), or fails.
func bitsOf(l *Lin) ([]bitField, bool) {
	if l.c.Sign() < 0 {
		return nil, false
	}
	var fs []bitField
	for _, t := range l.ts {
		if !isPow2(t.c) {
			return nil, false
		}
		lo, hi := atomBounds(t.a)
		if lo == nil || hi == nil || lo.Sign() < 0 {
			return nil, false
		}
		if hi.BitLen() == 0 {
			continue
		}
		fs = append(fs, bitField{t.c.BitLen() - 1, hi.BitLen(), t.a, nil})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].lo < fs[j].lo })
	for i := 1; i < len(fs); i++ {
		if fs[i-1].lo+fs[i-1].w > fs[i].lo {
			return nil, false
		}
	}
	// constant must not overlap any field
	for _, f := range fs {
		m := new(big.Int).Lsh(new(big.Int).Sub(pow2(f.w), one), uint(f.lo))
		if m.And(m, l.c).Sign() != 0 {
			return nil, false
		}
	}
	if l.c.Sign() > 0 {
		fs = append(fs, bitField{0, l.c.BitLen(), nil, l.c})
	}
	return fs, true
}

func fieldBits(f bitField, lo, w int) Value { // bits [lo,lo+w) relative to field
	if f.a == nil {
		x := new(big.Int).Rsh(f.c, uint(lo))
		return linConst(x.And(x, new(big.Int).Sub(pow2(w), one)))
	}
	return segRaw(linAtom(f.a), f.a, lo, w)
}

// segRaw extracts bits [lo,lo+w) of atom a.
func segRaw(l *Lin, a *App, lo, w int) Value {
	if w <= 0 {
		return linInt(0)
	}
	al, ah := atomBounds(a)
	if al != nil && al.Sign() >= 0 && ah != nil {
		n := ah.BitLen()
		if lo >= n {
			return linInt(0)
		}
		if lo+w > n {
			w = n - lo
		}
		if lo == 0 && w == n {
			return linAtom(a)
		}
		if x, y := new(big.Int).Rsh(al, uint(lo)), new(big.Int).Rsh(ah, uint(lo)); x.Cmp(y) == 0 {
			// the range fixes these bits
			return linConst(x.And(x, new(big.Int).Sub(pow2(w), one)))
		}
	}
	if b, slo, sw, ok := segParts(a); ok {
		if lo+w > sw {
			w = sw - lo
		}
		return linAtom(segAtom(b, slo+lo, w))
	}
	if a.fn == "fdiv" && isPow2(a.args[1].(*Lin).c) {
		return seg(a.args[0], lo+a.args[1].(*Lin).c.BitLen()-1, w)
	}
	return linAtom(segAtom(l, lo, w))
}

// seg is (v >> lo) mod 2^w, with floor semantics for negative v.
func seg(v Value, lo, w int) Value {
	return mapLeaves(v, func(v Value) Value {
		if u := bad(v); u != nil {
			return u
		}
		l, ok := v.(*Lin)
		if !ok {
			return unknown("bit field of %T", v)
		}
		if w <= 0 {
			return linInt(0)
		}
		if len(l.ts) == 0 {
			x := new(big.Int).Rsh(l.c, uint(lo))
			return linConst(x.And(x, new(big.Int).Sub(pow2(w), one)))
		}
		bl, bh := bounds(l)
		if bl != nil && bl.Sign() >= 0 && bh != nil && bh.BitLen() <= lo {
			return linInt(0)
		}
		if lo == 0 && bl != nil && bl.Sign() >= 0 && bh != nil && bh.BitLen() <= w {
			return l
		}
		if fs, ok := bitsOf(l); ok {
			var sum Value = linInt(0)
			for _, f := range fs {
				a, b := max(f.lo, lo), min(f.lo+f.w, lo+w)
				if a >= b {
					continue
				}
				sum = add(sum, scale(fieldBits(f, a-f.lo, b-a), pow2(a-lo)))
			}
			return sum
		}
		// drop multiples of 2^(lo+w)
		m := pow2(lo + w)
		var ts []LTerm
		changed := false
		for _, t := range l.ts {
			c := new(big.Int).Mod(t.c, m)
			if c.Cmp(t.c) != 0 {
				changed = true
			}
			// keep small negative coefficients readable and canonical
			if c.Sign() != 0 {
				ts = append(ts, LTerm{t.a, c})
			}
		}
		c := new(big.Int).Mod(l.c, m)
		if c.Cmp(l.c) != 0 {
			changed = true
		}
		if changed {
			// retry on the reduced form only if it helps (disjoint fields)
			r := mkLin(ts, c)
			return seg(r, lo, w)
		}
		// a part below 2^lo carries nothing upwards
		if lo > 0 {
			var hi, low []LTerm
			d := pow2(lo)
			for _, t := range l.ts {
				// one atom can occur in several fields of the number
				if q := new(big.Int).Rsh(t.c, uint(lo)); q.Sign() != 0 {
					hi = append(hi, LTerm{t.a, q})
				}
				if m := new(big.Int).Mod(t.c, d); m.Sign() != 0 {
					low = append(low, LTerm{t.a, m})
				}
			}
			if len(hi) > 0 || len(l.ts) > 1 || l.c.Cmp(d) >= 0 {
				lc := new(big.Int).Mod(l.c, d)
				bl, bh := bounds(mkLin(low, lc))
				if bl != nil && bl.Sign() >= 0 && bh != nil && bh.Cmp(d) < 0 {
					return seg(mkLin(hi, new(big.Int).Rsh(l.c, uint(lo))), 0, w)
				}
			}
		}
		// factor a common power of two out
		if len(l.ts) == 1 && l.c.Sign() == 0 && l.ts[0].c.Cmp(one) == 0 {
			return segRaw(l, l.ts[0].a, lo, w)
		}
		return linAtom(segAtom(l, lo, w))
	})
}

// floorDiv is floor(v/d) for a positive constant d.
func floorDiv(v Value, d *big.Int) Value {
	return mapLeaves(v, func(v Value) Value {
		if u := bad(v); u != nil {
			return u
		}
		l, ok := v.(*Lin)
		if !ok {
			return unknown("division of %T", v)
		}
		if d.Cmp(one) == 0 {
			return l
		}
		if len(l.ts) == 0 {
			return linConst(floorDivB(l.c, d))
		}
		// pull exact multiples out
		var out, rest []LTerm
		for _, t := range l.ts {
			if new(big.Int).Mod(t.c, d).Sign() == 0 {
				out = append(out, LTerm{t.a, new(big.Int).Div(t.c, d)})
			} else {
				rest = append(rest, t)
			}
		}
		qc := floorDivB(l.c, d)
		rc := new(big.Int).Sub(l.c, new(big.Int).Mul(qc, d))
		r := mkLin(rest, rc)
		q := mkLin(out, qc)
		if len(r.ts) == 0 {
			return q
		}
		rl, rh := bounds(r)
		if rl != nil && rh != nil {
			a, b := floorDivB(rl, d), floorDivB(rh, d)
			if a.Cmp(b) == 0 {
				return add(q, linConst(a))
			}
		}
		if isPow2(d) {
			k := d.BitLen() - 1
			if rl != nil && rl.Sign() >= 0 && rh != nil {
				return add(q, seg(r, k, max(rh.BitLen()-k, 0)))
			}
		}
		// nested division
		if len(r.ts) == 1 && r.c.Sign() == 0 && r.ts[0].c.Cmp(one) == 0 && r.ts[0].a.fn == "fdiv" {
			a := r.ts[0].a
			return add(q, floorDiv(a.args[0], new(big.Int).Mul(d, a.args[1].(*Lin).c)))
		}
		return add(q, intAtom("fdiv", nil, nil, r, linConst(d)))
	})
}

// floorMod is v mod d (non-negative).
func floorMod(v Value, d *big.Int) Value {
	return sub(v, scale(floorDiv(v, d), d))
}

// quo is Go's truncated division by a constant.
func quo(a, b Value) Value {
	return lin2(a, b, func(a, b *Lin) Value {
		if len(b.ts) != 0 {
			al, _ := bounds(a)
			bl, _ := bounds(b)
			if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() > 0 {
				_, ah := bounds(a)
				return intAtom("quo", zero, ah, a, b)
			}
			return intAtom("quo", nil, nil, a, b)
		}
		d := b.c
		if d.Sign() == 0 {
			return unknown("division by zero")
		}
		if d.Sign() < 0 {
			return neg(quo(a, linConst(new(big.Int).Neg(d))))
		}
		al, ah := bounds(a)
		if al != nil && al.Sign() >= 0 {
			return floorDiv(a, d)
		}
		if ah != nil && ah.Sign() <= 0 {
			return neg(floorDiv(neg(a), d))
		}
		return ite(le(linInt(0), a), floorDiv(a, d), neg(floorDiv(neg(a), d)))
	})
}

func rem(a, b Value) Value {
	return lin2(a, b, func(a, b *Lin) Value {
		if len(b.ts) != 0 {
			al, ah := bounds(a)
			bl, bh := bounds(b)
			if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() > 0 {
				if bh != nil && (ah == nil || ah.Cmp(bh) >= 0) {
					ah = new(big.Int).Sub(bh, one)
				}
				return intAtom("rem", zero, ah, a, b)
			}
		}
		return sub(a, mul(quo(a, b), b))
	})
}

// remBelow rewrites the remainders of l to their upper bounds (divisor - 1), giving a
// value that is at least l.
func remBelow(l *Lin) (Value, bool) {
	var r Value = l
	any := false
	for _, t := range l.ts {
		if t.a.fn == "rem" && t.c.Sign() > 0 {
			d := sub(addI(t.a.args[1], -1), linAtom(t.a))
			r = add(r, scale(d, t.c))
			any = true
		}
	}
	return r, any
}

func abs(a Value) Value { return ite(le(linInt(0), a), a, neg(a)) }

func bitLen(v Value) Value {
	return mapLeaves(v, func(v Value) Value {
		if u := bad(v); u != nil {
			return u
		}
		l, ok := v.(*Lin)
		if !ok {
			return unknown("bit length of %T", v)
		}
		if len(l.ts) == 0 {
			return linInt(int64(l.c.BitLen()))
		}
		lo, hi := bounds(l)
		if lo == nil || lo.Sign() < 0 {
			if hi != nil && hi.Sign() <= 0 {
				return bitLen(neg(l))
			}
			return intAtom("bitlenabs", zero, maxBits, l)
		}
		var h *big.Int
		if hi != nil {
			if lo.BitLen() == hi.BitLen() {
				return linInt(int64(lo.BitLen()))
			}
			_ = h
		}
		return intAtom("bitlen", zero, maxBits, l)
	})
}

// maxBits bounds the length of any integer that fits in memory.
var maxBits = pow2(44)

// bitOp evaluates a bitwise operation field by field on non-negative values.
func bitOp(op string, a, b Value) Value {
	return lin2(a, b, func(a, b *Lin) Value {
		if len(a.ts) == 0 && len(b.ts) == 0 {
			x := new(big.Int)
			switch op {
			case "and":
				x.And(a.c, b.c)
			case "or":
				x.Or(a.c, b.c)
			case "xor":
				x.Xor(a.c, b.c)
			case "andnot":
				x.AndNot(a.c, b.c)
			}
			return linConst(x)
		}
		// masks of unbounded or overlapping values
		if op == "and" {
			for i := 0; i < 2; i++ {
				if len(b.ts) == 0 && b.c.Sign() >= 0 {
					if _, ok := bitsOf(a); !ok {
						// a & mask for each run of ones in mask
						var sum Value = linInt(0)
						forRuns(b.c, func(lo, w int) { sum = add(sum, scale(seg(a, lo, w), pow2(lo))) })
						return sum
					}
				}
				a, b = b, a
			}
		}
		if op == "andnot" && len(b.ts) == 0 {
			return sub(a, bitOp("and", a, b))
		}
		fa, ok1 := bitsOf(a)
		fb, ok2 := bitsOf(b)
		if !ok1 || !ok2 {
			la, ha := bounds(a)
			lb, hb := bounds(b)
			if la != nil && lb != nil && la.Sign() >= 0 && lb.Sign() >= 0 && ha != nil && hb != nil {
				w := max(ha.BitLen(), hb.BitLen())
				if a.id > b.id && op != "andnot" {
					a, b = b, a
				}
				return intAtom(op, zero, new(big.Int).Sub(pow2(w), one), a, b)
			}
			if a.id > b.id && op != "andnot" {
				a, b = b, a
			}
			return intAtom(op, nil, nil, a, b)
		}
		// cut points
		cuts := map[int]bool{}
		addCuts := func(fs []bitField) {
			for _, f := range fs {
				if f.a != nil {
					cuts[f.lo] = true
					cuts[f.lo+f.w] = true
				} else {
					forRuns(f.c, func(lo, w int) { cuts[lo] = true; cuts[lo+w] = true })
				}
			}
		}
		addCuts(fa)
		addCuts(fb)
		var cs []int
		for c := range cuts {
			cs = append(cs, c)
		}
		sort.Ints(cs)
		var sum Value = linInt(0)
		for i := 0; i+1 < len(cs); i++ {
			lo, w := cs[i], cs[i+1]-cs[i]
			x, y := seg(a, lo, w), seg(b, lo, w)
			ones := linConst(new(big.Int).Sub(pow2(w), one))
			var r Value
			z := Value(linInt(0))
			switch op {
			case "and":
				switch {
				case x == z || y == z:
					r = z
				case x == Value(ones):
					r = y
				case y == Value(ones) || x == y:
					r = x
				}
			case "or":
				switch {
				case x == z:
					r = y
				case y == z || x == y:
					r = x
				case x == Value(ones) || y == Value(ones):
					r = ones
				}
			case "xor":
				switch {
				case x == z:
					r = y
				case y == z:
					r = x
				case x == y:
					r = z
				case x == Value(ones):
					r = sub(ones, y)
				case y == Value(ones):
					r = sub(ones, x)
				}
			case "andnot":
				switch {
				case x == z || y == Value(ones) || x == y:
					r = z
				case y == z:
					r = x
				case x == Value(ones):
					r = sub(ones, y)
				}
			}
			if r == nil {
				p, q := x, y
				if p.ID() > q.ID() && op != "andnot" {
					p, q = q, p
				}
				r = intAtom(op, zero, ones.c, p, q)
			}
			sum = add(sum, scale(r, pow2(lo)))
		}
		return sum
	})
}

func forRuns(c *big.Int, f func(lo, w int)) {
	n := c.BitLen()
	for i := 0; i < n; {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && c.Bit(j) == 1 {
			j++
		}
		f(i, j-i)
		i = j
	}
}

func shl(a Value, b Value) Value {
	return lin2(a, b, func(a, b *Lin) Value {
		if len(b.ts) == 0 && b.c.IsInt64() && b.c.Sign() >= 0 && b.c.Int64() < 1<<20 {
			return scale(a, pow2(int(b.c.Int64())))
		}
		return intAtom("shl", nil, nil, a, b)
	})
}

func shr(a Value, b Value) Value {
	return lin2(a, b, func(a, b *Lin) Value {
		if len(b.ts) == 0 && b.c.IsInt64() && b.c.Sign() >= 0 && b.c.Int64() < 1<<20 {
			return floorDiv(a, pow2(int(b.c.Int64())))
		}
		return intAtom("shr", nil, nil, a, b)
	})
}

// wrap reduces v to a machine integer type.
func wrap(v Value, bits int, signed bool) Value {
	return mapLeaves(v, func(v Value) Value {
		if u := bad(v); u != nil {
			return u
		}
		l, ok := v.(*Lin)
		if !ok {
			return unknown("integer conversion of %T", v)
		}
		lo, hi := zero, new(big.Int).Sub(pow2(bits), one)
		if signed {
			lo, hi = new(big.Int).Neg(pow2(bits-1)), new(big.Int).Sub(pow2(bits-1), one)
		}
		bl, bh := bounds(l)
		if bl != nil && bh != nil && bl.Cmp(lo) >= 0 && bh.Cmp(hi) <= 0 {
			return l
		}
		if !signed {
			return seg(l, 0, bits)
		}
		if len(l.ts) == 0 {
			x := new(big.Int).Mod(l.c, pow2(bits))
			if x.Bit(bits-1) == 1 {
				x.Sub(x, pow2(bits))
			}
			return linConst(x)
		}
		// signed wrap: ((v + 2^(b-1)) mod 2^b) - 2^(b-1)
		return sub(seg(add(l, linConst(pow2(bits-1))), 0, bits), linConst(pow2(bits-1)))
	})
}
