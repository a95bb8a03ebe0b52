package main

// Loop acceleration and widening.
//
// A loop whose exit the analysis cannot decide is first tried against two induction
// schemes: folds whose body adds one byte of a fixed string per iteration, and bodies
// that append to a digest or buffer a string that does not depend on the iteration.
// Everything else is widened: values that change in the body become unknown.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

var loopSeq int

func headPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, phi)
	}
	return out
}

type trialResult struct {
	back  *path
	exits map[*ssa.BasicBlock]*path
	clean bool // only the head leaves the loop, and nothing panicked
	rets  []*retState
}

// trial analyses one iteration from p without touching the frame.
func (f *frame) trial(el *wtoElem, blocks map[*ssa.BasicBlock]bool, p *path) (res *trialResult) {
	e := f.e
	save, cur, fx := e.st, e.cur, facts
	np, nl, ne := len(e.panics), len(e.loops), len(e.effects)
	defer func() {
		e.panics, e.loops, e.effects = e.panics[:np], e.loops[:nl], e.effects[:ne]
		e.st, e.cur, facts = save, cur, fx
		if r := recover(); r != nil {
			if _, ok := r.(bail); !ok {
				panic(r)
			}
			res = nil
		}
	}()
	g := &frame{e: e, fn: f.fn, pending: map[*ssa.BasicBlock]*path{}}
	g.block(el.b, p.clone())
	before := map[*ssa.BasicBlock]*path{}
	for b, q := range g.pending {
		if !blocks[b] {
			before[b] = q
		}
	}
	g.run(el.body)
	res = &trialResult{back: g.pending[el.b], exits: map[*ssa.BasicBlock]*path{}, clean: len(e.panics) == np, rets: g.rets}
	for b, q := range g.pending {
		if !blocks[b] {
			res.exits[b] = q
			if before[b] != q {
				res.clean = false
			}
		}
	}
	if len(g.rets) > 0 {
		res.clean = false
	}
	return res
}

// headCond evaluates the loop head's exit test on p: the condition to stay.
func (f *frame) headCond(el *wtoElem, blocks map[*ssa.BasicBlock]bool, p *path) Value {
	b := el.b
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	e := f.e
	q := p.clone()
	save, cur, fx := e.st, e.cur, facts
	np, nl, ne := len(e.panics), len(e.loops), len(e.effects)
	defer func() {
		e.panics, e.loops, e.effects = e.panics[:np], e.loops[:nl], e.effects[:ne]
		e.st, e.cur, facts = save, cur, fx
	}()
	e.setState(q.st)
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		f.instr(q, in)
	}
	c := f.get(q, iff.Cond)
	if !isBool(c) {
		return nil
	}
	if !blocks[b.Succs[0]] {
		c = not(c)
	}
	return c
}

// tripCount solves "stay(k)" for the number of iterations: stay must be k < T.
func tripCount(stay Value, k *App) Value {
	n, ok := stay.(*Node)
	if !ok || n.v.kind != vLin {
		return nil
	}
	core, ok := n.v.core.(*Lin)
	if !ok {
		return nil
	}
	var ck *big.Int
	for _, t := range core.ts {
		if t.a == k {
			ck = t.c
		}
	}
	if ck == nil {
		return nil
	}
	rest := sub(core, scale(linAtom(k), ck))
	switch {
	case ck.Cmp(one) == 0 && n.hi == bTrue && n.lo == bFalse:
		// k + rest <= bound
		return addI(sub(linConst(n.v.bound), rest), 1)
	case ck.Cmp(big.NewInt(-1)) == 0 && n.hi == bFalse && n.lo == bTrue:
		// rest - k > bound  <=>  k < rest - bound
		return sub(rest, linConst(n.v.bound))
	}
	return nil
}

type loopVar struct {
	phi  *ssa.Phi
	v0   Value
	kind string // inv, ind, acc
	step Value
	sym  *App
}

func (f *frame) summarise(el *wtoElem, blocks map[*ssa.BasicBlock]bool, p *path) bool {
	e := f.e
	loopSeq++
	id := loopSeq
	t1 := f.trial(el, blocks, p)
	if t1 == nil || t1.back == nil || !t1.clean {
		return false
	}
	var vars []*loopVar
	for _, phi := range headPhis(el.b) {
		v0, v1 := p.env[phi], t1.back.env[phi]
		if v0 == nil || v1 == nil {
			return false
		}
		lv := &loopVar{phi: phi, v0: v0}
		switch {
		case v0 == v1:
			lv.kind = "inv"
		default:
			if _, _, ok := intType(phi.Type()); !ok {
				return false
			}
			d := sub(v1, v0)
			if _, ok := constInt(d); ok {
				lv.kind, lv.step = "ind", d
			} else {
				lv.kind = "acc"
			}
		}
		vars = append(vars, lv)
	}
	// objects changed by the body
	var muts []*Obj
	for o, v := range p.st.heap {
		if w, ok := t1.back.st.heap[o]; ok && w != v {
			muts = append(muts, o)
		}
	}
	sort.Slice(muts, func(i, j int) bool { return muts[i].num < muts[j].num })
	kv := intAtom(fmt.Sprintf("·k%d", id), zero, pow2(62))
	kApp := kv.ts[0].a
	try := func(indAsAcc bool) (*path, *trialResult, map[*Obj]*App, bool) {
		q := p.clone()
		for _, lv := range vars {
			switch lv.kind {
			case "ind":
				q.env[lv.phi] = add(lv.v0, mul(lv.step, kv))
			case "acc":
				lo, hi := typeBounds(lv.phi.Type())
				s := intAtom(fmt.Sprintf("·acc%d.%s", id, lv.phi.Name()), lo, hi)
				lv.sym = s.ts[0].a
				q.env[lv.phi] = s
			}
		}
		syms := map[*Obj]*App{}
		for i, o := range muts {
			nat, ok := p.st.heap[o].(*Native)
			if !ok || (nat.kind != "hash" && nat.kind != "buf") {
				return nil, nil, nil, false
			}
			di := dataField(nat)
			d := ropeStr(fmt.Sprintf("·d%d.%d", id, i), nil)
			syms[o] = d.ps[0].a
			fs := append([]Value(nil), nat.fs...)
			fs[di] = d
			q.st.heap[o] = mkNative(nat.kind, fs...)
		}
		t := f.trial(el, blocks, q)
		if t == nil || t.back == nil || !t.clean {
			return nil, nil, nil, false
		}
		// nothing else may change
		for o, v := range q.st.heap {
			if _, m := syms[o]; !m && t.back.st.heap[o] != v {
				return nil, nil, nil, false
			}
		}
		for _, lv := range vars {
			switch lv.kind {
			case "inv":
				if t.back.env[lv.phi] != lv.v0 {
					return nil, nil, nil, false
				}
			case "ind":
				if t.back.env[lv.phi] != add(lv.v0, mul(lv.step, addI(kv, 1))) {
					return nil, nil, nil, false
				}
			}
		}
		return q, t, syms, true
	}
	q, t2, syms, ok := try(false)
	if !ok {
		return false
	}
	stay := f.headCond(el, blocks, q)
	if stay == nil {
		return false
	}
	if f.splitOn = nil; true {
		stay = restrict(stay, q.st.pc)
		if v := otherVar(stay, kApp, vars); v != nil {
			// how often the loop runs depends on a condition fixed before it
			f.splitOn = mkNode(v, bTrue, bFalse)
			return false
		}
	}
	final := p.clone()
	finish := func() bool {
		// the head must decide to leave
		c := f.headCond(el, blocks, final)
		if c == nil || and(final.st.pc, c) != bFalse {
			return false
		}
		e.opaque["loop accelerated"]++
		f.block(el.b, final)
		return true
	}
	appended := func(o *Obj) *Rope {
		nat, ok := t2.back.st.heap[o].(*Native)
		if !ok {
			return nil
		}
		r, ok := nat.fs[dataField(nat)].(*Rope)
		if !ok || len(r.ps) == 0 || r.ps[0].kind != "sub" || r.ps[0].a != syms[o] || r.ps[0].n != syms[o].n {
			return nil
		}
		return mkRope(r.ps[1:])
	}
	setData := func(o *Obj, tail *Rope) {
		nat := p.st.heap[o].(*Native)
		fs := append([]Value(nil), nat.fs...)
		di := dataField(nat)
		fs[di] = ropeCat(ropeOf(fs[di]), tail)
		final.st.heap[o] = mkNative(nat.kind, fs...)
	}
	if T := tripCount(stay, kApp); T != nil {
		old := facts
		facts = p.st.pc
		nonneg := le(linInt(0), T) == bTrue
		facts = old
		if !nonneg {
			return false
		}
		for _, lv := range vars {
			switch lv.kind {
			case "ind":
				final.env[lv.phi] = add(lv.v0, mul(lv.step, T))
			case "acc":
				v1 := t2.back.env[lv.phi]
				r := foldBytes(v1, lv, kApp, T, t2.back.st.pc)
				if r == nil {
					return false
				}
				bits, signed, _ := intType(lv.phi.Type())
				final.env[lv.phi] = wrap(add(lv.v0, r), bits, signed)
			}
		}
		for _, o := range muts {
			a := appended(o)
			if a == nil || dependsOn(a, kApp, vars) {
				return false
			}
			setData(o, ropeCyc(a, mul(T, ropeLen(a))))
		}
		return finish()
	}
	// draining: while R > 0 { write P[:min(R,|P|)]; R -= min(R,|P|) }
	var R *loopVar
	for _, lv := range vars {
		if lv.kind == "acc" {
			if R != nil {
				return false
			}
			R = lv
		}
	}
	if R == nil || len(muts) != 1 || stay != lt(linInt(0), linAtom(R.sym)) {
		return false
	}
	for _, lv := range vars {
		if lv.kind == "ind" {
			return false
		}
	}
	a := appended(muts[0])
	if a == nil {
		return false
	}
	pcb := t2.back.st.pc
	old := facts
	facts = pcb
	defer func() { facts = old }()
	diff := simp(sub(linAtom(R.sym), t2.back.env[R.phi]), pcb)
	if simp(sub(diff, ropeLen(a)), pcb) != Value(linInt(0)) {
		return false
	}
	var full, part *Rope
	cnt := 0
	mapLeaves(gateLeaves(a), func(v Value) Value {
		r, ok := v.(*Rope)
		if !ok {
			cnt = 99
			return v
		}
		cnt++
		if dependsOnApp(r, R.sym) {
			part = r
		} else {
			full = r
		}
		return v
	})
	if cnt > 4 || full == nil || part == nil || ropeCyc(full, linAtom(R.sym)) != part && !prefixOf(part, full, linAtom(R.sym), pcb) {
		return false
	}
	final.env[R.phi] = linInt(0)
	facts = old
	setData(muts[0], ropeCyc(full, R.v0))
	return finish()
}

// otherVar finds a condition in a boolean that the loop variables do not take part in.
func otherVar(b Value, k *App, vars []*loopVar) *BVar {
	seen := map[*Node]bool{}
	var walk func(v Value) *BVar
	walk = func(v Value) *BVar {
		n, ok := v.(*Node)
		if !ok || seen[n] {
			return nil
		}
		seen[n] = true
		if !dependsOn(n.v.core, k, vars) {
			return n.v
		}
		if r := walk(n.hi); r != nil {
			return r
		}
		return walk(n.lo)
	}
	return walk(b)
}

func prefixOf(part, full *Rope, n Value, pc Value) bool {
	c := and(pc, le(n, ropeLen(full)))
	return withFacts(c, func() bool {
		v := ropeSliceU(full, linInt(0), n, c)
		return simp(v, c) == simp(part, c)
	})
}

func gateLeaves(r *Rope) Value {
	if len(r.ps) == 1 && r.ps[0].kind == "gate" {
		return r.ps[0].v
	}
	return r
}

func dataField(n *Native) int {
	if n.kind == "hash" {
		return 1
	}
	return 0
}

func dependsOnApp(v Value, a *App) bool {
	return atomsIn(v)[a.fn]
}

func dependsOn(v Value, k *App, vars []*loopVar) bool {
	at := atomsIn(v)
	if at[k.fn] {
		return true
	}
	for _, lv := range vars {
		if lv.sym != nil && at[lv.sym.fn] {
			return true
		}
	}
	return false
}

// foldBytes recognises acc' = wrap(acc + s[off+k]) and returns the sum of the bytes
// s[off : off+T].
func foldBytes(v1 Value, lv *loopVar, k *App, T Value, pc Value) Value {
	l, ok := v1.(*Lin)
	if !ok {
		return nil
	}
	bits, signed, ok := intType(lv.phi.Type())
	if !ok {
		return nil
	}
	acc := linAtom(lv.sym)
	// undo the wrap: v1 must equal wrap(acc + byte)
	for name := range appsIn(l) {
		a := name
		if a.fn != "byteat" && a.fn != "byteof" {
			continue
		}
		if wrap(add(acc, linAtom(a)), bits, signed) != v1 {
			continue
		}
		var r *Rope
		if a.fn == "byteat" {
			src, off := a.args[0].(*Rope), a.args[1]
			base := sub(off, linAtom(k))
			if dependsOnApp(base, k) || dependsOnApp(src, k) {
				continue
			}
			s := ropeSliceU(src, base, T, pc)
			r, ok = s.(*Rope)
		} else {
			p := a.args[0].(*Rope).ps[0]
			if p.kind != "sub" {
				continue
			}
			base := sub(p.off, linAtom(k))
			if dependsOnApp(base, k) {
				continue
			}
			r, ok = mkRope([]Piece{{kind: "sub", a: p.a, off: base, n: T}}), true
		}
		if !ok {
			continue
		}
		if s, ok := byteSum(r); ok {
			return s
		}
	}
	return nil
}

// appsIn collects the uninterpreted applications inside v.
func appsIn(v Value) map[*App]bool {
	out := map[*App]bool{}
	seen := map[int]bool{}
	var rec func(Value)
	rec = func(v Value) {
		if v == nil || seen[v.ID()] {
			return
		}
		seen[v.ID()] = true
		switch v := v.(type) {
		case *Lin:
			for _, t := range v.ts {
				rec(t.a)
			}
		case *App:
			out[v] = true
			for _, a := range v.args {
				rec(a)
			}
		case *Node:
			rec(v.v.core)
			rec(v.hi)
			rec(v.lo)
		}
	}
	rec(v)
	return out
}

// widen analyses one arbitrary iteration: every value or object the body changes is
// unknown at its start. Executions that leave from that iteration continue after the
// loop.
func (f *frame) widen(el *wtoElem, blocks map[*ssa.BasicBlock]bool, p *path) {
	e := f.e
	loopSeq++
	e.loops = append(e.loops, fmt.Sprintf("%s (%s)", e.posOf(headPos(el, blocks)), f.fn.Name()))
	q := p.clone()
	changed := map[*Obj]bool{}
	for _, phi := range headPhis(el.b) {
		q.env[phi] = e.freshOf(phi.Type(), fmt.Sprintf("·w%d.%s", loopSeq, phi.Name()), p.env[phi])
	}
	for round := 0; round < 8; round++ {
		t := f.trial(el, blocks, q)
		grew := false
		if t != nil && t.back != nil {
			for o, v := range q.st.heap {
				if w, ok := t.back.st.heap[o]; ok && w != v && !changed[o] {
					changed[o] = true
					grew = true
				}
			}
		}
		for o := range changed {
			q.st.heap[o] = e.havocValue(q.st.heap[o], fmt.Sprintf("·w%d.o%d", loopSeq, o.num))
		}
		if !grew {
			break
		}
	}
	// values at the back edge that are invariant keep their value
	f.pending[el.b] = nil
	delete(f.pending, el.b)
	f.block(el.b, q)
	f.run(el.body)
	delete(f.pending, el.b)
}

func headPos(el *wtoElem, blocks map[*ssa.BasicBlock]bool) (p tokenPos) {
	best := tokenPos(0)
	for b := range blocks {
		for _, in := range b.Instrs {
			if q := in.Pos(); q.IsValid() && (best == 0 || q < best) {
				best = q
			}
		}
	}
	return best
}

// fresh is an arbitrary value of type t.
func (e *Engine) freshOf(t types.Type, name string, old Value) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0 {
			return e.symbolic(t, name)
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return e.symbolic(t, name)
		}
	}
	return unknown("changed by a loop: %s", name)
}

func (e *Engine) havocValue(v Value, name string) Value {
	if n, ok := v.(*Native); ok {
		switch n.kind {
		case "stream", "error", "file":
			return v
		}
	}
	return unknown("changed by a loop: %s", name)
}
