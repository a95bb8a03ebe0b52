package main

// Byte strings: concatenations of fixed-size chunks (as big-endian integers),
// slices of unknown strings, runs of zeroes, minimal big-endian encodings, cyclic
// repetitions, and gated alternatives.

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"unicode"
)

type Piece struct {
	kind string // fix, sub, zeros, min, cyc, gate
	n    Value  // length in bytes (Lin or gate)
	v    Value  // fix: integer; min: integer; gate: gated rope; cyc: rope
	a    *App   // sub: the string
	off  Value  // sub: offset
}

type Rope struct {
	base
	ps []Piece
}

func (p Piece) key() string {
	s := p.kind + "/" + fmt.Sprint(p.n.ID())
	if p.v != nil {
		s += fmt.Sprintf("/v%d", p.v.ID())
	}
	if p.a != nil {
		s += fmt.Sprintf("/a%d/o%d", p.a.id, p.off.ID())
	}
	return s
}

func (p Piece) fixN() (int, bool) {
	if p.kind != "fix" {
		return 0, false
	}
	return constInt(p.n)
}

func mkRope(ps []Piece) *Rope {
	var out []Piece
	var push func(p Piece)
	push = func(p Piece) {
		if c, ok := constInt(p.n); ok && c == 0 {
			return
		}
		switch p.kind {
		case "zeros":
			if c, ok := constInt(p.n); ok {
				p = Piece{kind: "fix", n: linInt(int64(c)), v: linInt(0)}
			}
		case "sub":
			// the whole of a fixed-length string is an integer chunk
			if c, ok := constInt(p.n); ok {
				if o, ok := constInt(p.off); ok {
					if ln, ok := constInt(p.a.n); ok && c > 0 && o >= 0 && o+c <= ln {
						p = Piece{kind: "fix", n: p.n, v: seg(beint(p.a, ln), 8*(ln-o-c), 8*c)}
					} else {
						_ = ln
					}
				}
			}
		case "min":
			if x, ok := isConst(p.v); ok {
				b := x.Bytes()
				p = Piece{kind: "fix", n: linInt(int64(len(b))), v: linConst(x)}
				if len(b) == 0 {
					return
				}
			} else {
				lo, hi := bounds(p.v)
				if lo != nil && hi != nil && lo.Sign() > 0 && (lo.BitLen()+7)/8 == (hi.BitLen()+7)/8 {
					p = Piece{kind: "fix", n: linInt(int64((lo.BitLen() + 7) / 8)), v: p.v}
				}
			}
		case "gate":
			if r, ok := p.v.(*Rope); ok {
				for _, q := range r.ps {
					push(q)
				}
				return
			}
		case "cyc":
			// Cyc(P, n) with n <= |P| is a prefix
			if r, ok := p.v.(*Rope); ok {
				if le(p.n, ropeLen(r)) == bTrue {
					if pre, ok := ropeSlice(r, linInt(0), p.n); ok {
						for _, q := range pre.ps {
							push(q)
						}
						return
					}
				}
				// of constant sizes: whole repetitions and a prefix
				N, ok1 := constInt(p.n)
				L, ok2 := constInt(ropeLen(r))
				if ok1 && ok2 && L > 0 && N%L != 0 {
					if pre, ok := ropeSlice(r, linInt(0), linInt(int64(N%L))); ok {
						push(Piece{kind: "cyc", n: linInt(int64(N - N%L)), v: r})
						for _, q := range pre.ps {
							push(q)
						}
						return
					}
				}
			}
		}
		if len(out) > 0 {
			l := &out[len(out)-1]
			if l.kind == "fix" && p.kind == "fix" && selfBounded(*l) && selfBounded(p) {
				a, _ := l.fixN()
				b, _ := p.fixN()
				*l = Piece{kind: "fix", n: linInt(int64(a + b)), v: add(scale(l.v, pow2(8*b)), p.v)}
				return
			}
			if l.kind == "zeros" && p.kind == "zeros" {
				*l = Piece{kind: "zeros", n: add(l.n, p.n)}
				return
			}
			if l.kind == "zeros" && p.kind == "min" {
				if N, ok := constInt(add(l.n, p.n)); ok {
					*l = Piece{kind: "fix", n: linInt(int64(N)), v: p.v}
					return
				}
			}
			if l.kind == "cyc" && p.kind == "cyc" && l.v == p.v && multipleOf(l.n, ropeLen(p.v.(*Rope))) {
				n := joinQuoRem(add(l.n, p.n))
				*l = Piece{kind: "cyc", n: n, v: l.v}
				return
			}
			if l.kind == "sub" && p.kind == "sub" && l.a == p.a && add(l.off, l.n) == p.off {
				*l = Piece{kind: "sub", n: add(l.n, p.n), a: l.a, off: l.off}
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range ps {
		push(p)
	}
	var sb strings.Builder
	sb.WriteString("rope:")
	for _, p := range out {
		sb.WriteString(p.key())
		sb.WriteByte(';')
	}
	return intern(sb.String(), func(id int) Value { return &Rope{base{id}, out} }).(*Rope)
}

// selfBounded chunks fit their width whatever the path condition is; only those are
// joined into larger chunks, so that they can be taken apart again anywhere.
func selfBounded(p Piece) bool {
	n, _ := p.fixN()
	b := withFacts(bTrue, func() [2]*big.Int { lo, hi := bounds(p.v); return [2]*big.Int{lo, hi} })
	return b[0] != nil && b[1] != nil && b[0].Sign() >= 0 && b[1].BitLen() <= 8*n
}

var emptyRope *Rope

// beint is the big-endian integer value of a byte string of n bytes.
func beint(a *App, n int) Value {
	return intAtom("beint", zero, new(big.Int).Sub(pow2(8*n), one), a)
}

func ropeConst(s string) *Rope {
	if len(s) == 0 {
		return emptyRope
	}
	return ropeFix(len(s), linConst(new(big.Int).SetBytes([]byte(s))))
}

func ropeFix(n int, v Value) *Rope {
	if g, ok := v.(*Node); ok {
		_ = g
		r := mapLeaves(v, func(l Value) Value { return ropeFix(n, l) })
		return ropeOf(r)
	}
	if _, ok := v.(*Unknown); ok {
		return ropeUnknown(v)
	}
	return mkRope([]Piece{{kind: "fix", n: linInt(int64(n)), v: v}})
}

// ropeUnknown is a byte string about which nothing is known.
func ropeUnknown(why Value) *Rope {
	a := mkApp("unknownbytes", SBytes, nil, nil, intAtom("len?", zero, nil, why), why)
	return ropeAtom(a)
}

// ropeAtom is the whole of an uninterpreted byte string.
func ropeAtom(a *App) *Rope {
	if g, ok := a.n.(*Node); ok && isGate(g) {
		// unknown-length handling needs plain lengths
		return mkRope([]Piece{{kind: "sub", n: a.n, a: a, off: linInt(0)}})
	}
	return mkRope([]Piece{{kind: "sub", n: a.n, a: a, off: linInt(0)}})
}

// strAtom makes an uninterpreted byte string with the given length (nil: unknown).
func strAtom(fn string, n Value, args ...Value) *App {
	if n == nil {
		n = intAtom("len:"+fn, zero, new(big.Int).Sub(pow2(62), one), args...)
	}
	return mkApp(fn, SBytes, nil, nil, n, args...)
}

func ropeStr(fn string, n Value, args ...Value) *Rope { return ropeAtom(strAtom(fn, n, args...)) }

// ropeOf turns a rope or a gated rope into a rope.
func ropeOf(v Value) *Rope {
	switch v := v.(type) {
	case *Rope:
		return v
	case *Unknown:
		return ropeUnknown(v)
	case *Node:
		return gateRope(v)
	}
	return ropeUnknown(unknown("not a byte string: %T", v))
}

func ropeLen(r *Rope) Value {
	var n Value = linInt(0)
	for _, p := range r.ps {
		n = add(n, p.n)
	}
	return n
}

func ropeCat(rs ...*Rope) *Rope {
	var ps []Piece
	for _, r := range rs {
		ps = append(ps, r.ps...)
	}
	return mkRope(ps)
}

// gateRope factors the common prefix and suffix out of the alternatives of a
// gated rope.
func gateRope(g *Node) *Rope {
	var leaves []*Rope
	seen := map[int]bool{}
	var col func(v Value)
	var why Value
	col = func(v Value) {
		if seen[v.ID()] {
			return
		}
		seen[v.ID()] = true
		switch v := v.(type) {
		case *Node:
			col(v.hi)
			col(v.lo)
		case *Rope:
			leaves = append(leaves, v)
		default:
			why = v
		}
	}
	col(g)
	if why != nil {
		return ropeUnknown(why)
	}
	var pre, suf []Piece
	for {
		p, rest, ok := commonFront(leaves)
		if !ok {
			break
		}
		pre = append(pre, p)
		g2 := mapLeavesN(g, leaves, rest)
		if r, ok := g2.(*Rope); ok {
			return mkRope(append(pre, r.ps...))
		}
		g = g2.(*Node)
		leaves = uniqRopes(rest)
	}
	for {
		p, rest, ok := commonBack(leaves)
		if !ok {
			break
		}
		suf = append([]Piece{p}, suf...)
		g2 := mapLeavesN(g, leaves, rest)
		if r, ok := g2.(*Rope); ok {
			return mkRope(append(append(pre, r.ps...), suf...))
		}
		g = g2.(*Node)
		leaves = uniqRopes(rest)
	}
	n := mapLeaves(g, func(l Value) Value { return ropeLen(l.(*Rope)) })
	return mkRope(append(append(pre, Piece{kind: "gate", n: n, v: g}), suf...))
}

func uniqRopes(rs []*Rope) []*Rope {
	seen := map[int]bool{}
	var out []*Rope
	for _, r := range rs {
		if !seen[r.id] {
			seen[r.id] = true
			out = append(out, r)
		}
	}
	return out
}

func mapLeavesN(g Value, from, to []*Rope) Value {
	m := map[int]*Rope{}
	for i := range from {
		m[from[i].id] = to[i]
	}
	return mapLeaves(g, func(l Value) Value { return m[l.ID()] })
}

func commonFront(rs []*Rope) (Piece, []*Rope, bool) {
	minFix := -1
	for _, r := range rs {
		if len(r.ps) == 0 {
			return Piece{}, nil, false
		}
		n, ok := r.ps[0].fixN()
		if !ok {
			minFix = 0
		} else if minFix != 0 && (minFix < 0 || n < minFix) {
			minFix = n
		}
	}
	same := true
	for _, r := range rs[1:] {
		if r.ps[0].key() != rs[0].ps[0].key() {
			same = false
		}
	}
	if same {
		var rest []*Rope
		for _, r := range rs {
			rest = append(rest, mkRope(r.ps[1:]))
		}
		return rs[0].ps[0], rest, true
	}
	if minFix <= 0 {
		return Piece{}, nil, false
	}
	// longest common byte prefix
	for k := minFix; k > 0; k-- {
		f := func(r *Rope) Value {
			n, _ := r.ps[0].fixN()
			return seg(r.ps[0].v, 8*(n-k), 8*k)
		}
		ok := true
		for _, r := range rs[1:] {
			if f(r) != f(rs[0]) {
				ok = false
				break
			}
		}
		if ok {
			var rest []*Rope
			for _, r := range rs {
				n, _ := r.ps[0].fixN()
				q := append([]Piece{{kind: "fix", n: linInt(int64(n - k)), v: seg(r.ps[0].v, 0, 8*(n-k))}}, r.ps[1:]...)
				rest = append(rest, mkRope(q))
			}
			return Piece{kind: "fix", n: linInt(int64(k)), v: f(rs[0])}, rest, true
		}
	}
	return Piece{}, nil, false
}

func commonBack(rs []*Rope) (Piece, []*Rope, bool) {
	minFix := -1
	last := func(r *Rope) Piece { return r.ps[len(r.ps)-1] }
	for _, r := range rs {
		if len(r.ps) == 0 {
			return Piece{}, nil, false
		}
		n, ok := last(r).fixN()
		if !ok {
			minFix = 0
		} else if minFix != 0 && (minFix < 0 || n < minFix) {
			minFix = n
		}
	}
	same := true
	for _, r := range rs[1:] {
		if last(r).key() != last(rs[0]).key() {
			same = false
		}
	}
	if same {
		var rest []*Rope
		for _, r := range rs {
			rest = append(rest, mkRope(r.ps[:len(r.ps)-1]))
		}
		return last(rs[0]), rest, true
	}
	if minFix <= 0 {
		return Piece{}, nil, false
	}
	for k := minFix; k > 0; k-- {
		f := func(r *Rope) Value { return seg(last(r).v, 0, 8*k) }
		ok := true
		for _, r := range rs[1:] {
			if f(r) != f(rs[0]) {
				ok = false
				break
			}
		}
		if ok {
			var rest []*Rope
			for _, r := range rs {
				n, _ := last(r).fixN()
				q := append(append([]Piece(nil), r.ps[:len(r.ps)-1]...), Piece{kind: "fix", n: linInt(int64(n - k)), v: seg(last(r).v, 8*k, 8*(n-k))})
				rest = append(rest, mkRope(q))
			}
			return Piece{kind: "fix", n: linInt(int64(k)), v: f(rs[0])}, rest, true
		}
	}
	return Piece{}, nil, false
}

// ropeSplit splits r at byte offset off; ok is false when the position relative to
// the pieces cannot be decided.
func ropeSplit(r *Rope, off Value) (a, b *Rope, ok bool) {
	var left []Piece
	pos := Value(linInt(0))
	for i, p := range r.ps {
		d := sub(off, pos) // bytes to take from here on
		if le(d, linInt(0)) == bTrue {
			if eqInt(d, linInt(0)) != bTrue {
				return nil, nil, false
			}
			return mkRope(left), mkRope(r.ps[i:]), true
		}
		if le(p.n, d) == bTrue {
			left = append(left, p)
			pos = add(pos, p.n)
			continue
		}
		// the cut is inside piece p (0 < d < n) or undecided
		if isGate(d) || isGate(p.n) {
			return nil, nil, false
		}
		if c, isC := isConst(p.v); !(lt(d, p.n) == bTrue || p.kind == "sub" || p.kind == "zeros" || p.kind == "fix" && isC && c.Sign() == 0) {
			// undecided: maybe p is empty or exactly d
			if p.kind != "min" {
				return nil, nil, false
			}
		}
		switch p.kind {
		case "fix":
			k, ok1 := constInt(d)
			n, _ := p.fixN()
			if c, isC := isConst(p.v); !ok1 && isC && c.Sign() == 0 && le(linInt(0), d) == bTrue && le(d, p.n) == bTrue {
				l, rr := Piece{kind: "zeros", n: d}, Piece{kind: "zeros", n: sub(p.n, d)}
				return mkRope(append(left, l)), mkRope(append([]Piece{rr}, r.ps[i+1:]...)), true
			}
			if !ok1 || k > n {
				return nil, nil, false
			}
			l := Piece{kind: "fix", n: linInt(int64(k)), v: seg(p.v, 8*(n-k), 8*k)}
			rr := Piece{kind: "fix", n: linInt(int64(n - k)), v: seg(p.v, 0, 8*(n-k))}
			return mkRope(append(left, l)), mkRope(append([]Piece{rr}, r.ps[i+1:]...)), true
		case "sub":
			if le(d, p.n) != bTrue {
				return nil, nil, false
			}
			l := Piece{kind: "sub", n: d, a: p.a, off: p.off}
			rr := Piece{kind: "sub", n: sub(p.n, d), a: p.a, off: add(p.off, d)}
			return mkRope(append(left, l)), mkRope(append([]Piece{rr}, r.ps[i+1:]...)), true
		case "zeros":
			if le(d, p.n) != bTrue {
				return nil, nil, false
			}
			l := Piece{kind: "zeros", n: d}
			rr := Piece{kind: "zeros", n: sub(p.n, d)}
			return mkRope(append(left, l)), mkRope(append([]Piece{rr}, r.ps[i+1:]...)), true
		}
		return nil, nil, false
	}
	if eqInt(sub(off, pos), linInt(0)) == bTrue {
		return mkRope(left), emptyRope, true
	}
	return nil, nil, false
}

func ropeSlice(r *Rope, off, n Value) (*Rope, bool) {
	_, b, ok := ropeSplit(r, off)
	if !ok {
		return nil, false
	}
	a, _, ok := ropeSplit(b, n)
	return a, ok
}

// ropeInt is the big-endian unsigned integer value of a rope.
func ropeInt(r *Rope) Value {
	var v Value = linInt(0)
	for i, p := range r.ps {
		switch p.kind {
		case "fix":
			n, _ := p.fixN()
			v = add(scale(v, pow2(8*n)), p.v)
		case "min":
			if i == 0 {
				v = p.v
				continue
			}
			return intAtom("beuint", zero, nil, r)
		case "zeros":
			if i == 0 {
				continue
			}
			return intAtom("beuint", zero, nil, r)
		case "gate":
			if len(r.ps) == 1 {
				return mapLeaves(p.v, func(l Value) Value { return ropeInt(l.(*Rope)) })
			}
			return mapLeaves(p.v, func(l Value) Value {
				q := append(append(append([]Piece(nil), r.ps[:i]...), l.(*Rope).ps...), r.ps[i+1:]...)
				return ropeInt(mkRope(q))
			})
		default:
			return intAtom("beuint", zero, nil, r)
		}
	}
	return v
}

func ropeByte(r *Rope, off Value) Value {
	if a, ok := ropeSlice(r, off, linInt(1)); ok {
		if len(a.ps) == 1 && a.ps[0].kind == "fix" {
			return a.ps[0].v
		}
		return intAtom("byteof", zero, big.NewInt(255), a)
	}
	return intAtom("byteat", zero, big.NewInt(255), r, off)
}

func ropeConstStr(r *Rope) (string, bool) {
	if len(r.ps) == 0 {
		return "", true
	}
	if len(r.ps) != 1 {
		return "", false
	}
	n, ok := r.ps[0].fixN()
	if !ok {
		return "", false
	}
	c, ok := isConst(r.ps[0].v)
	if !ok {
		return "", false
	}
	return string(c.FillBytes(make([]byte, n))), true
}

// ropeEq is the condition that two byte strings are equal.
func ropeEq(a, b *Rope) Value {
	if a == b {
		return bTrue
	}
	la, lb := ropeLen(a), ropeLen(b)
	leq := eqInt(la, lb)
	if leq == bFalse {
		return bFalse
	}
	if len(a.ps) == 0 || len(b.ps) == 0 {
		return leq
	}
	for i := 0; i < 2; i++ {
		if len(a.ps) == 1 && a.ps[0].kind == "gate" {
			bb := b
			return mapLeaves(a.ps[0].v, func(l Value) Value { return ropeEq(l.(*Rope), bb) })
		}
		a, b = b, a
	}
	if len(a.ps) == 1 && len(b.ps) == 1 {
		n1, ok1 := a.ps[0].fixN()
		n2, ok2 := b.ps[0].fixN()
		if ok1 && ok2 {
			if n1 != n2 {
				return bFalse
			}
			return eqInt(a.ps[0].v, b.ps[0].v)
		}
	}
	if _, ok := ropeConstStr(b); ok {
		return enumEq(a, b)
	}
	if _, ok := ropeConstStr(a); ok {
		return enumEq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return boolApp("streq", a, b)
}

// byteSum is the sum of all bytes of r.
func byteSum(r *Rope) (Value, bool) {
	var s Value = linInt(0)
	for _, p := range r.ps {
		switch p.kind {
		case "fix":
			n, _ := p.fixN()
			for i := 0; i < n; i++ {
				s = add(s, seg(p.v, 8*i, 8))
			}
		case "min":
			_, hi := bounds(p.v)
			if hi == nil {
				return nil, false
			}
			for i := 0; i < (hi.BitLen()+7)/8; i++ {
				s = add(s, seg(p.v, 8*i, 8))
			}
		case "zeros":
		case "sub":
			s = add(s, intAtom("bytesum", zero, nil, mkRope([]Piece{p})))
		case "gate":
			ok := true
			s = add(s, mapLeaves(p.v, func(l Value) Value {
				x, o := byteSum(l.(*Rope))
				if !o {
					ok = false
					return linInt(0)
				}
				return x
			}))
			if !ok {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	return s, true
}

func showRope(r *Rope, d int) string {
	if s, ok := ropeConstStr(r); ok {
		pr := true
		for _, c := range s {
			if !unicode.IsPrint(c) || c > 126 {
				pr = false
			}
		}
		if pr {
			return fmt.Sprintf("%q", s)
		}
		return "0x" + hex.EncodeToString([]byte(s))
	}
	var out []string
	for _, p := range r.ps {
		switch p.kind {
		case "fix":
			n, _ := p.fixN()
			if c, ok := isConst(p.v); ok {
				out = append(out, "0x"+hex.EncodeToString(c.FillBytes(make([]byte, n))))
			} else {
				out = append(out, fmt.Sprintf("be%d(%s)", n, showD(p.v, d-1)))
			}
		case "sub":
			if p.off == Value(linInt(0)) && p.n == p.a.n {
				out = append(out, showD(p.a, d-1))
			} else {
				out = append(out, fmt.Sprintf("%s[%s:+%s]", showD(p.a, d-1), showD(p.off, d-1), showD(p.n, d-1)))
			}
		case "zeros":
			out = append(out, fmt.Sprintf("zeros(%s)", showD(p.n, d-1)))
		case "min":
			out = append(out, fmt.Sprintf("minbe(%s)", showD(p.v, d-1)))
		case "cyc":
			out = append(out, fmt.Sprintf("cyclic(%s, %s)", showD(p.v, d-1), showD(p.n, d-1)))
		case "gate":
			out = append(out, showD(p.v, d-1))
		}
	}
	return "[" + strings.Join(out, " ++ ") + "]"
}

// ropePrefixDiff describes the first piece at which two ropes differ.
func ropeDiff(got, want *Rope) string {
	i := 0
	for i < len(got.ps) && i < len(want.ps) && got.ps[i].key() == want.ps[i].key() {
		i++
	}
	sh := func(r *Rope) string {
		if i >= len(r.ps) {
			return "(end)"
		}
		return showD(mkRope(r.ps[i:i+1]), 5)
	}
	if i < len(got.ps) && i < len(want.ps) {
		// narrow inside fixed chunks: find the first differing byte
		n1, ok1 := got.ps[i].fixN()
		n2, ok2 := want.ps[i].fixN()
		if ok1 && ok2 {
			for k := 0; k < n1 && k < n2; k++ {
				a, b := seg(got.ps[i].v, 8*(n1-1-k), 8), seg(want.ps[i].v, 8*(n2-1-k), 8)
				if a != b {
					return fmt.Sprintf("piece %d byte %d: got %s, want %s", i, k, showD(a, 5), showD(b, 5))
				}
			}
			return fmt.Sprintf("piece %d: got %d bytes, want %d bytes", i, n1, n2)
		}
	}
	return fmt.Sprintf("piece %d: got %s, want %s", i, sh(got), sh(want))
}

func init() { emptyRope = mkRope(nil) }

// multipleOf reports that n is syntactically a multiple of d.
func multipleOf(n, d Value) bool {
	if n == d {
		return true
	}
	l, ok := n.(*Lin)
	if !ok {
		return false
	}
	if dc, ok := constInt(d); ok && dc > 0 {
		m := big.NewInt(int64(dc))
		for _, t := range l.ts {
			if new(big.Int).Mod(t.c, m).Sign() != 0 {
				return false
			}
		}
		return new(big.Int).Mod(l.c, m).Sign() == 0
	}
	if l.c.Sign() != 0 || len(l.ts) != 1 {
		return false
	}
	a := l.ts[0].a
	return a.fn == "mul" && (a.args[0] == d || a.args[1] == d)
}

// joinQuoRem rewrites (a/b)*b + a%b to a.
func joinQuoRem(v Value) Value {
	l, ok := v.(*Lin)
	if !ok {
		return v
	}
	for _, t := range l.ts {
		if t.a.fn != "rem" {
			continue
		}
		q := mul(quo(t.a.args[0], t.a.args[1]), t.a.args[1])
		ql, ok := q.(*Lin)
		if !ok || len(ql.ts) != 1 {
			continue
		}
		for _, u := range l.ts {
			if u.a == ql.ts[0].a && u.c.Cmp(t.c) == 0 {
				d := sub(t.a.args[0], add(q, linAtom(t.a)))
				return joinQuoRem(add(l, scale(d, t.c)))
			}
		}
	}
	return v
}

// mapLeavesPC is mapLeaves with the path condition of every leaf.
func mapLeavesPC(v, pc Value, f func(leaf, pc Value) Value) Value {
	if isGate(v) {
		v = restrict(v, pc)
	}
	n, ok := v.(*Node)
	if !ok || n.bool_ {
		return withFacts(pc, func() Value { return f(v, pc) })
	}
	c := mkNode(n.v, bTrue, bFalse)
	ph, pl := and(pc, c), and(pc, not(c))
	if ph == bFalse {
		return mapLeavesPC(n.lo, pc, f)
	}
	if pl == bFalse {
		return mapLeavesPC(n.hi, pc, f)
	}
	return ite(c, mapLeavesPC(n.hi, ph, f), mapLeavesPC(n.lo, pl, f))
}

// ropeOp applies an operation on byte strings that may need to look inside gates.
func ropeOp(r *Rope, pc Value, op func(r *Rope, pc Value) (*Rope, bool)) (*Rope, bool) {
	if s, ok := op(r, pc); ok {
		return s, true
	}
	r2, isr := simp(r, pc).(*Rope)
	if !isr {
		return nil, false
	}
	if s, ok := withFacts2(pc, func() (*Rope, bool) { return op(r2, pc) }); ok {
		return s, true
	}
	for i, p := range r2.ps {
		if p.kind != "gate" {
			continue
		}
		all := true
		v := mapLeavesPC(p.v, pc, func(l, pc Value) Value {
			lr, ok := l.(*Rope)
			if !ok {
				all = false
				return l
			}
			x := ropeCat(mkRope(r2.ps[:i]), lr, mkRope(r2.ps[i+1:]))
			s, ok := ropeOp(x, pc, op)
			if !ok {
				all = false
				return l
			}
			return s
		})
		if !all {
			return nil, false
		}
		return ropeOf(v), true
	}
	return nil, false
}

func withFacts2(pc Value, f func() (*Rope, bool)) (*Rope, bool) {
	old := facts
	facts = pc
	defer func() { facts = old }()
	return f()
}

// ropeSliceG slices under a path condition.
func ropeSliceG(r *Rope, off, n, pc Value) (*Rope, bool) {
	return ropeOp(r, pc, func(r *Rope, pc Value) (*Rope, bool) {
		if s, ok := ropeSlice(r, off, n); ok {
			return s, true
		}
		o2, n2 := simp(off, pc), simp(n, pc)
		if isGate(o2) || isGate(n2) || bad(o2, n2) != nil {
			return nil, false
		}
		if s, ok := ropeSlice(r, o2, n2); ok {
			return s, true
		}
		if c, ok := constInt(o2); ok && c == 0 && !hasGate(r) && le(n2, ropeLen(r)) == bTrue {
			return ropeCyc(r, n2), true
		}
		return nil, false
	})
}

func hasGate(r *Rope) bool {
	for _, p := range r.ps {
		if p.kind == "gate" {
			return true
		}
	}
	return false
}

// ropeWriteG overwrites r at off with data under a path condition.
func ropeWriteG(r *Rope, off Value, data *Rope, pc Value) (*Rope, bool) {
	n := ropeLen(data)
	return ropeOp(r, pc, func(r *Rope, pc Value) (*Rope, bool) {
		o2, n2 := simp(off, pc), simp(n, pc)
		if isGate(o2) || isGate(n2) || bad(o2, n2) != nil {
			return nil, false
		}
		a, rest, ok := ropeSplit(r, o2)
		if !ok {
			return nil, false
		}
		_, b, ok := ropeSplit(rest, n2)
		if !ok {
			return nil, false
		}
		return ropeCat(a, data, b), true
	})
}
