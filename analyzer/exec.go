package main

// Abstract interpretation of SSA functions.
//
// Each block is analysed once per loop iteration on the join of the states of its
// predecessors; joined values become gates on the path conditions. Calls are
// analysed in the caller's state (full context sensitivity).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	heap map[*Obj]Value
	pc   Value
	eff  Value // effect log (rope-like list), nil if unused
}

func (s *State) clone() *State {
	h := make(map[*Obj]Value, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{h, s.pc, s.eff}
}

type path struct {
	st     *State
	env    map[ssa.Value]Value
	defers []Value
}

func (p *path) clone() *path {
	env := make(map[ssa.Value]Value, len(p.env)+8)
	for k, v := range p.env {
		env[k] = v
	}
	return &path{p.st.clone(), env, append([]Value(nil), p.defers...)}
}

type PanicSite struct {
	pos  string
	fn   string
	what string
	cond Value
}

type Engine struct {
	prog     *ssa.Program
	fset     *token.FileSet
	globals  map[*ssa.Global]*Obj
	depth    int
	panics   []PanicSite
	loops    []string  // loops that had to be widened
	runaway  []endless // loops with decided conditions that do not end
	opaque   map[string]int
	funcs    map[string]int // functions analysed
	instrs   int
	cur      ssa.Instruction
	st       *State // current state
	inRepo   func(*ssa.Package) bool
	draws    []int // concrete choices for the shuffle, in order
	drawPos  int
	apiCut   map[string]bool // functions kept uninterpreted
	repoRoot string
	steps    int
	maxSteps int
	sizes    types.Sizes
	mutated  map[*Obj]bool
	trace    bool
	p        *Program
	calls    map[string]int
	// mapReverse makes iterations over maps run backwards: any order is possible
	mapReverse bool
	ambients   map[string]string
	drawMax    []int
	cli        *cliEnv
	effects    []effect
	shuffles   []Value
}

type bail struct{ why string }

func (e *Engine) pos() string {
	if e.cur == nil {
		return ""
	}
	p := e.cur.Pos()
	if !p.IsValid() {
		if v := e.cur.Parent(); v != nil {
			p = v.Pos()
		}
	}
	return e.posOf(p)
}

func (e *Engine) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.fset.Position(p)
	f := strings.TrimPrefix(q.Filename, e.repoRoot+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) panicIf(cond Value, what string) {
	if e.st == nil {
		return
	}
	if _, ok := cond.(*Unknown); ok {
		cond = boolApp("undecided:"+what, cond)
	}
	if !isBool(cond) {
		cond = boolApp("undecided:"+what, cond)
	}
	c := and(e.st.pc, cond)
	if c != bFalse {
		c = simp(c, bTrue)
		c = simp(c, e.st.pc)
		c = and(c, e.st.pc)
	}
	if c != bFalse {
		fn := ""
		if e.cur != nil && e.cur.Parent() != nil {
			fn = e.cur.Parent().String()
		}
		e.panics = append(e.panics, PanicSite{e.pos(), fn, what, c})
		e.assume(not(cond))
	}
}

func (e *Engine) assume(c Value) {
	e.st.pc = and(e.st.pc, c)
	facts = e.st.pc
}

// ---------------------------------------------------------------------------
// types

func under(t types.Type) types.Type { return t.Underlying() }

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func intType(t types.Type) (bits int, signed, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func typeBounds(t types.Type) (lo, hi *big.Int) {
	bits, signed, ok := intType(t)
	if !ok {
		return nil, nil
	}
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), one)
	}
	return zero, new(big.Int).Sub(pow2(bits), one)
}

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// zeroTimeNs is the zero time.Time in nanoseconds since the Unix epoch.
var zeroTimeNs = new(big.Int).Mul(big.NewInt(-62135596800), big.NewInt(1e9))

func (e *Engine) zero(t types.Type) Value {
	switch namedPath(t) {
	case "bytes.Buffer", "strings.Builder":
		return mkNative("buf", emptyRope)
	case "math/big.Int":
		return linInt(0)
	case "time.Time":
		return mkTime(linConst(zeroTimeNs))
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return linInt(0)
		case u.Info()&types.IsBoolean != 0:
			return bFalse
		case u.Info()&types.IsString != 0:
			return emptyRope
		case u.Info()&types.IsFloat != 0:
			return mkFloat(linInt(0), 1)
		}
		return nilV
	case *types.Struct:
		es := make([]Value, u.NumFields())
		for i := range es {
			es[i] = e.zero(u.Field(i).Type())
		}
		return mkAgg("struct", es)
	case *types.Array:
		if isByte(u.Elem()) {
			return ropeZeros(linInt(u.Len()))
		}
		if u.Len() > 1<<16 {
			return unknown("large array")
		}
		es := make([]Value, u.Len())
		z := e.zero(u.Elem())
		for i := range es {
			es[i] = z
		}
		return mkAgg("array", es)
	case *types.Tuple:
		es := make([]Value, u.Len())
		for i := range es {
			es[i] = e.zero(u.At(i).Type())
		}
		return mkAgg("tuple", es)
	}
	return nilV
}

// symbolic makes an uninterpreted value of type t.
func (e *Engine) symbolic(t types.Type, fn string, args ...Value) Value {
	switch namedPath(t) {
	case "time.Time":
		return mkTime(intAtom(fn+".ns", nil, nil, args...))
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			lo, hi := typeBounds(t)
			return intAtom(fn, lo, hi, args...)
		case u.Info()&types.IsBoolean != 0:
			return boolApp(fn, args...)
		case u.Info()&types.IsString != 0:
			return ropeStr(fn, nil, args...)
		case u.Info()&types.IsFloat != 0:
			return opq(fn, args...)
		}
	case *types.Struct:
		es := make([]Value, u.NumFields())
		for i := range es {
			es[i] = e.symbolic(u.Field(i).Type(), fn+"."+u.Field(i).Name(), args...)
		}
		return mkAgg("struct", es)
	case *types.Slice:
		if isByte(u.Elem()) {
			return e.newBytes(ropeStr(fn, nil, args...))
		}
	case *types.Tuple:
		es := make([]Value, u.Len())
		for i := range es {
			es[i] = e.symbolic(u.At(i).Type(), fmt.Sprintf("%s#%d", fn, i), args...)
		}
		return mkAgg("tuple", es)
	case *types.Array:
		if isByte(u.Elem()) {
			return ropeStr(fn, linInt(u.Len()), args...)
		}
	case *types.Interface:
		if namedPath(t) == "" && t.String() == "error" || t.String() == "error" {
			return ite(boolApp(fn+".failed", args...), e.newError(fn+" error", nil), nilV)
		}
	}
	return opq(fn, args...)
}

// newBytes allocates a byte slice with the given content.
func (e *Engine) newBytes(r *Rope) Value {
	o := newObj("bytes", nil)
	e.st.heap[o] = r
	n := ropeLen(r)
	return mkSlice(o, nil, linInt(0), n, n)
}

func (e *Engine) newError(name string, wrapped []Value) Value {
	return e.newErrorMsg(ropeConst(name), wrapped)
}

func (e *Engine) newErrorMsg(msg *Rope, wrapped []Value) Value {
	o := newObj("error:"+show(msg), nil)
	e.st.heap[o] = mkNative("error", append([]Value{msg}, wrapped...)...)
	return mkIface(nativeErrType, mkPtr(o))
}

var nativeErrType = types.NewNamed(types.NewTypeName(token.NoPos, nil, "·error", nil), types.NewStruct(nil, nil), nil)

func nativeType(kind string) types.Type {
	if t, ok := natTypes[kind]; ok {
		return t
	}
	t := types.NewNamed(types.NewTypeName(token.NoPos, nil, "·"+kind, nil), types.NewStruct(nil, nil), nil)
	natTypes[kind] = t
	return t
}

var natTypes = map[string]types.Type{}

// ---------------------------------------------------------------------------
// memory

func (e *Engine) globalObj(g *ssa.Global) *Obj {
	o, ok := e.globals[g]
	if !ok {
		o = newObj(g.String(), g.Type().(*types.Pointer).Elem())
		o.global = true
		e.globals[g] = o
	}
	return o
}

func (e *Engine) content(o *Obj) Value {
	v, ok := e.st.heap[o]
	if !ok {
		if o.global {
			v = e.globalContent(o)
			e.st.heap[o] = v
			return v
		}
		return unknown("object %s not in state", o.name)
	}
	return v
}

func (e *Engine) globalContent(o *Obj) Value {
	switch o.name {
	case "crypto/rand.Reader":
		so := newObj("stream:crypto/rand", nil)
		e.st.heap[so] = mkNative("stream", ropeConst("crypto/rand"), linInt(0))
		return mkIface(nativeType("stream"), mkPtr(so))
	case "golang.org/x/crypto/curve25519.Basepoint":
		return e.newBytes(ropeConst("\x09" + strings.Repeat("\x00", 31)))
	case "golang.org/x/crypto/openpgp.PrivateKeyType":
		return ropeConst("PGP PRIVATE KEY BLOCK")
	case "golang.org/x/crypto/openpgp.PublicKeyType":
		return ropeConst("PGP PUBLIC KEY BLOCK")
	case "encoding/binary.BigEndian", "encoding/binary.LittleEndian":
		return mkAgg("struct", nil)
	case "os.ErrExist", "io/fs.ErrExist", "os.ErrNotExist", "io/fs.ErrNotExist", "os.ErrPermission", "io/fs.ErrPermission":
		return e.oserr(o.name[strings.LastIndex(o.name, ".")+1:])
	case "os.Stdout", "os.Stderr", "os.Stdin":
		so := newObj(o.name, nil)
		e.st.heap[so] = mkNative("file", ropeConst(o.name))
		return mkPtr(so)
	}
	if under(o.typ) != nil {
		if s, ok := under(o.typ).(*types.Slice); ok && isByte(s.Elem()) {
			return e.newBytes(ropeStr("global:"+o.name, nil))
		}
		if o.typ.String() == "error" {
			eo := newObj("error:"+o.name, nil)
			e.st.heap[eo] = mkNative("error", ropeConst(o.name))
			return mkIface(nativeErrType, mkPtr(eo))
		}
	}
	return e.symbolic(o.typ, "global:"+o.name)
}

func project(v Value, path []int, load func(v Value, i int) Value) Value {
	for _, i := range path {
		i := i
		v = mapLeaves(v, func(l Value) Value {
			if a, ok := l.(*Agg); ok {
				if i < 0 || i >= len(a.es) {
					return unknown("index %d out of range", i)
				}
				return a.es[i]
			}
			if u := bad(l); u != nil {
				return u
			}
			return load(l, i)
		})
	}
	return v
}

func (e *Engine) loadPath(o *Obj, path []int) Value {
	return project(e.content(o), path, func(v Value, i int) Value {
		return unknown("field %d of %s", i, show(v))
	})
}

func updatePath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	return mapLeaves(v, func(l Value) Value {
		a, ok := l.(*Agg)
		if !ok {
			if u := bad(l); u != nil {
				return u
			}
			return unknown("store into %s", show(l))
		}
		i := path[0]
		if i < 0 || i >= len(a.es) {
			return unknown("store index %d out of range", i)
		}
		es := append([]Value(nil), a.es...)
		es[i] = updatePath(es[i], path[1:], nv)
		return mkAgg(a.kind, es)
	})
}

func (e *Engine) setPath(o *Obj, path []int, nv Value) {
	if e.mutated != nil {
		e.mutated[o] = true
	}
	e.st.heap[o] = updatePath(e.content(o), path, nv)
}

const wordListGlobal = "global:github.com/kklash/wordlist4096.WordList"

// load reads through a pointer value.
func (e *Engine) load(p Value, t types.Type) Value {
	return mapLeaves(p, func(p Value) Value {
		switch p := p.(type) {
		case *Ptr:
			return e.loadPath(p.obj, p.path)
		case *BytePtr:
			c := e.loadPath(p.obj, p.path)
			return mapLeaves(c, func(c Value) Value {
				r, ok := c.(*Rope)
				if !ok {
					return unknown("byte of %s", show(c))
				}
				return lift2(p.off, linInt(0), func(off, _ Value) Value { return ropeByte(r, off) })
			})
		case *NilV:
			return unknown("nil dereference")
		case *App:
			switch p.fn {
			case "elemptr":
				if l, ok := p.args[0].(*App); ok && l.fn == wordListGlobal {
					return ropeStr("word", nil, p.args[1])
				}
			case "elemof":
				c := e.load(p.args[0], nil)
				return mapLeaves(c, func(c Value) Value {
					if a, ok := c.(*Agg); ok {
						return e.selectElem(a.es, p.args[1])
					}
					return badOr(c, "element of %s")
				})
			case "fieldof":
				if k, ok := constInt(p.args[1]); ok {
					return project(e.load(p.args[0], nil), []int{k}, func(v Value, i int) Value {
						return unknown("field %d of %s", i, show(v))
					})
				}
			}
			if t == nil {
				return unknown("load through %s", show(p))
			}
			return e.symbolic(t, "*", p)
		case *Unknown:
			return p
		}
		return unknown("load through %s", show(p))
	})
}

// split runs f for every leaf of a gated value on the state restricted to it.
func (e *Engine) split(v Value, f func(leaf Value)) {
	if !isGate(v) {
		f(v)
		return
	}
	v = restrict(v, e.st.pc)
	if !isGate(v) {
		f(v)
		return
	}
	n := v.(*Node)
	c := mkNode(n.v, bTrue, bFalse)
	e.branch(c, func() { e.split(n.hi, f) }, func() { e.split(n.lo, f) })
}

// branch runs a under cond and b otherwise and joins the resulting states.
func (e *Engine) branch(cond Value, a, b func()) {
	st := e.st
	pa, pb := and(st.pc, cond), and(st.pc, not(cond))
	if pa == bFalse {
		b()
		return
	}
	if pb == bFalse {
		a()
		return
	}
	sa, sb := st.clone(), st.clone()
	sa.pc, sb.pc = pa, pb
	e.setState(sa)
	a()
	sa = e.st
	e.setState(sb)
	b()
	sb = e.st
	m := e.merge(&path{st: sa}, &path{st: sb}, nil)
	*st = *m.st
	e.setState(st)
}

func (e *Engine) setState(s *State) {
	e.st = s
	facts = s.pc
}

func (e *Engine) store(p, v Value) {
	e.split(p, func(p Value) {
		switch p := p.(type) {
		case *Ptr:
			e.setPath(p.obj, p.path, v)
		case *BytePtr:
			e.writeBytes(p.obj, p.path, p.off, e.byteRope(v))
		case *NilV:
			e.panicIf(bTrue, "nil pointer dereference")
		case *App:
			if p.fn == "elemof" {
				c := e.load(p.args[0], nil)
				e.store(p.args[0], mapLeaves(c, func(c Value) Value {
					a, ok := c.(*Agg)
					if !ok || len(a.es) > 64 {
						return badOr(c, "store into an element of %s")
					}
					es := make([]Value, len(a.es))
					for i := range es {
						es[i] = ite(eqInt(p.args[1], linInt(int64(i))), v, a.es[i])
					}
					return mkAgg(a.kind, es)
				}))
				return
			}
			e.havocAll("store through " + show(p))
		case *Unknown:
			e.havocAll("store through unknown pointer: " + p.why)
		default:
			e.havocAll("store through " + show(p))
		}
	})
}

func (e *Engine) byteRope(v Value) *Rope {
	return ropeOf(mapLeaves(v, func(v Value) Value {
		if u := bad(v); u != nil {
			return u
		}
		return ropeFix(1, v)
	}))
}

// havocAll forgets every non-global mutable object.
func (e *Engine) havocAll(why string) {
	u := unknown("%s", why)
	for o := range e.st.heap {
		if !o.global {
			e.st.heap[o] = u
		}
	}
}

// writeBytes overwrites bytes of the array at obj/path starting at off.
func (e *Engine) writeBytes(o *Obj, path []int, off Value, data *Rope) {
	n := ropeLen(data)
	e.splitAll([]Value{off, n}, func(vs []Value) {
		off, n := vs[0], vs[1]
		if e.mutated != nil {
			e.mutated[o] = true
		}
		data := simp(data, e.st.pc).(*Rope)
		c := e.loadPath(o, path)
		c = simp(c, e.st.pc)
		r, ok := c.(*Rope)
		if !ok {
			if bad(c) == nil {
				e.setPath(o, path, unknown("byte write into %s", show(c)))
			}
			return
		}
		w, ok := ropeWriteG(r, off, data, e.st.pc)
		if !ok {
			debugf("WU off=%s n=%s r=%s", showD(off, 12), showD(n, 12), showD(r, 12))
			w = ropeUnknown(unknown("write at %s of %s bytes into %s", show(off), show(n), show(r)))
		}
		e.setPath(o, path, w)
	})
}

func (e *Engine) splitAll(vs []Value, f func([]Value)) {
	for i, v := range vs {
		if isGate(v) {
			i := i
			e.split(v, func(l Value) {
				w := append([]Value(nil), vs...)
				w[i] = l
				for j := range w {
					if j != i {
						w[j] = restrict(w[j], e.st.pc)
					}
				}
				e.splitAll(w, f)
			})
			return
		}
	}
	f(vs)
}

// bytesOf reads the content of a byte slice (or string) as a rope.
func (e *Engine) bytesOf(v Value) *Rope {
	r := mapLeaves(v, func(v Value) Value {
		switch v := v.(type) {
		case *Rope:
			return v
		case *NilV:
			return emptyRope
		case *SliceV:
			c := e.loadPath(v.obj, v.path)
			return liftPC([]Value{c, v.off, v.len}, e.st.pc, func(vs []Value, pc Value) Value {
				r, ok := vs[0].(*Rope)
				if !ok {
					if u := bad(vs[0]); u != nil {
						return u
					}
					return unknown("bytes of %s", show(vs[0]))
				}
				if s, ok := ropeSliceG(r, vs[1], vs[2], pc); ok {
					return s
				}
				return ropeUnknown(unknown("slice [%s:+%s] of %s", show(vs[1]), show(vs[2]), show(r)))
			})
		case *App:
			return ropeStr("bytesof", nil, v)
		case *Unknown:
			return v
		}
		return unknown("bytes of %s", show(v))
	})
	return ropeOf(r)
}

// sliceLen is len(v) for slices and strings.
func (e *Engine) sliceLen(v Value) Value {
	return mapLeaves(v, func(v Value) Value {
		switch v := v.(type) {
		case *Rope:
			return ropeLen(v)
		case *NilV:
			return linInt(0)
		case *SliceV:
			return v.len
		case *App:
			if v.fn == wordListGlobal {
				return linInt(4096)
			}
			return intAtom("len", zero, new(big.Int).Sub(pow2(62), one), v)
		case *Agg:
			return linInt(int64(len(v.es)))
		case *MapV:
			return linInt(int64(len(v.ks)))
		case *Unknown:
			return v
		case *Ptr:
			return e.sliceLen(e.loadPath(v.obj, v.path))
		}
		return unknown("len of %s", show(v))
	})
}

// elems returns the elements of a non-byte slice with concrete bounds.
func (e *Engine) elems(v Value) ([]Value, bool) {
	switch v := v.(type) {
	case *NilV:
		return nil, true
	case *SliceV:
		c := e.loadPath(v.obj, v.path)
		off, ok1 := constInt(v.off)
		n, ok2 := constInt(v.len)
		if !ok1 || !ok2 {
			return nil, false
		}
		if isGate(c) {
			c = simp(restrict(c, e.st.pc), e.st.pc)
		}
		if isGate(c) {
			// alternatives that are all long enough
			ok := true
			mapLeaves(c, func(l Value) Value {
				a, isA := l.(*Agg)
				ok = ok && isA && off+n <= len(a.es)
				return l
			})
			if !ok {
				return nil, false
			}
			out := make([]Value, n)
			for i := range out {
				out[i] = mapLeaves(c, func(l Value) Value { return l.(*Agg).es[off+i] })
			}
			return out, true
		}
		switch c := c.(type) {
		case *Agg:
			if off+n > len(c.es) {
				return nil, false
			}
			return c.es[off : off+n], true
		case *Rope:
			var out []Value
			for i := 0; i < n; i++ {
				out = append(out, ropeByte(c, linInt(int64(off+i))))
			}
			return out, true
		}
	}
	return nil, false
}

func (e *Engine) newSliceOf(t types.Type, es []Value) Value {
	o := newObj("slice", t)
	e.st.heap[o] = mkAgg("array", es)
	n := linInt(int64(len(es)))
	return mkSlice(o, nil, linInt(0), n, n)
}

// ---------------------------------------------------------------------------
// joins

type fuser struct {
	e    *Engine
	a, b *State
	c    Value // true on a's side
	pcA  Value
	pcB  Value
	m    map[*Obj]*Obj // old -> fused
	todo [][3]*Obj
}

func (e *Engine) merge(a, b *path, keep map[ssa.Value]bool) *path {
	if a == nil || a.st.pc == bFalse {
		return b
	}
	if b == nil || b.st.pc == bFalse {
		return a
	}
	pc := or(a.st.pc, b.st.pc)
	old := facts
	facts = pc
	defer func() { facts = old }()
	f := &fuser{e: e, a: a.st, b: b.st, pcA: a.st.pc, pcB: b.st.pc, m: map[*Obj]*Obj{}}
	f.c = restrict(a.st.pc, pc)
	out := &path{st: &State{heap: map[*Obj]Value{}, pc: pc}, env: map[ssa.Value]Value{}}
	for k, va := range a.env {
		if vb, ok := b.env[k]; ok {
			out.env[k] = f.val(va, vb)
		}
	}
	if a.st.eff != nil && b.st.eff != nil {
		out.st.eff = f.val(a.st.eff, b.st.eff)
	}
	if len(a.defers) == len(b.defers) {
		for i := range a.defers {
			out.defers = append(out.defers, f.val(a.defers[i], b.defers[i]))
		}
	} else if len(a.defers) > len(b.defers) {
		out.defers = a.defers
	} else {
		out.defers = b.defers
	}
	h := out.st.heap
	var common []*Obj
	for o := range a.st.heap {
		if _, ok := b.st.heap[o]; ok {
			common = append(common, o)
		} else {
			h[o] = a.st.heap[o]
		}
	}
	sort.Slice(common, func(i, j int) bool { return common[i].num < common[j].num })
	for _, o := range common {
		h[o] = f.val(a.st.heap[o], b.st.heap[o])
	}
	for o := range b.st.heap {
		if _, ok := a.st.heap[o]; !ok {
			h[o] = b.st.heap[o]
		}
	}
	for len(f.todo) > 0 {
		t := f.todo[0]
		f.todo = f.todo[1:]
		h[t[2]] = f.val(a.st.heap[t[0]], b.st.heap[t[1]])
	}
	if len(f.m) > 0 {
		r := &renamer{m: f.m, memo: map[int]Value{}}
		for k, v := range out.env {
			out.env[k] = r.val(v)
		}
		for o, v := range h {
			if _, dead := f.m[o]; dead {
				delete(h, o)
				continue
			}
			h[o] = r.val(v)
		}
		for i := range out.defers {
			out.defers[i] = r.val(out.defers[i])
		}
		if out.st.eff != nil {
			out.st.eff = r.val(out.st.eff)
		}
	}
	return out
}

func (f *fuser) fuse(x, y *Obj) *Obj {
	if x == y {
		return x
	}
	fx, okx := f.m[x]
	fy, oky := f.m[y]
	if okx && oky {
		if fx == fy {
			return fx
		}
		return nil
	}
	if okx || oky {
		return nil
	}
	if _, ok := f.b.heap[x]; ok {
		return nil
	}
	if _, ok := f.a.heap[y]; ok {
		return nil
	}
	if _, ok := f.a.heap[x]; !ok {
		return nil
	}
	if _, ok := f.b.heap[y]; !ok {
		return nil
	}
	o := newObj(x.name, x.typ)
	f.m[x], f.m[y] = o, o
	f.todo = append(f.todo, [3]*Obj{x, y, o})
	return o
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (f *fuser) val(x, y Value) Value {
	if x == y {
		return x
	}
	switch a := x.(type) {
	case *Agg:
		if b, ok := y.(*Agg); ok && a.kind == b.kind && len(a.es) == len(b.es) {
			es := make([]Value, len(a.es))
			for i := range es {
				es[i] = f.val(a.es[i], b.es[i])
			}
			return mkAgg(a.kind, es)
		}
	case *Native:
		if b, ok := y.(*Native); ok && a.kind == b.kind && len(a.fs) == len(b.fs) {
			es := make([]Value, len(a.fs))
			for i := range es {
				es[i] = f.val(a.fs[i], b.fs[i])
			}
			return mkNative(a.kind, es...)
		}
	case *Iface:
		if b, ok := y.(*Iface); ok && typeKey(a.typ) == typeKey(b.typ) {
			return mkIface(a.typ, f.val(a.v, b.v))
		}
	case *Ptr:
		if b, ok := y.(*Ptr); ok && samePath(a.path, b.path) {
			if o := f.fuse(a.obj, b.obj); o != nil {
				return mkPtr(o, a.path...)
			}
		}
	case *SliceV:
		if b, ok := y.(*SliceV); ok && samePath(a.path, b.path) {
			if o := f.fuse(a.obj, b.obj); o != nil {
				return mkSlice(o, a.path, f.val(a.off, b.off), f.val(a.len, b.len), f.val(a.capn, b.capn))
			}
		}
	case *TimeV:
		if b, ok := y.(*TimeV); ok {
			return mkTime(f.val(a.ns, b.ns))
		}
	case *FuncV:
		if b, ok := y.(*FuncV); ok && a.fn == b.fn && len(a.binds) == len(b.binds) {
			es := make([]Value, len(a.binds))
			for i := range es {
				es[i] = f.val(a.binds[i], b.binds[i])
			}
			return mkFunc(a.fn, es)
		}
	}
	if isBool(x) && isBool(y) {
		return restrict(ite(f.c, x, y), facts)
	}
	if isScalar(x) && isScalar(y) {
		// a value that already equals the other one on the other side
		if withFacts(f.pcA, func() bool { return simp(y, f.pcA) == simp(x, f.pcA) }) {
			return y
		}
		if withFacts(f.pcB, func() bool { return simp(x, f.pcB) == simp(y, f.pcB) }) {
			return x
		}
	}
	if _, ok := x.(*Rope); ok {
		return ropeOf(ite(f.c, x, y))
	}
	if _, ok := y.(*Rope); ok {
		if g, ok := x.(*Node); ok && isGate(g) {
			return ropeOf(ite(f.c, x, y))
		}
	}
	return ite(f.c, x, y)
}

func isScalar(v Value) bool {
	switch v := v.(type) {
	case *Lin, *Rope:
		return true
	case *Node:
		if v.bool_ {
			return false
		}
		return isScalar(v.hi) && isScalar(v.lo)
	}
	return false
}

type renamer struct {
	m    map[*Obj]*Obj
	memo map[int]Value
}

func (r *renamer) list(vs []Value) []Value {
	out := make([]Value, len(vs))
	for i, v := range vs {
		if v != nil {
			out[i] = r.val(v)
		}
	}
	return out
}

func (r *renamer) obj(o *Obj) *Obj {
	if n, ok := r.m[o]; ok {
		return n
	}
	return o
}

func (r *renamer) val(v Value) Value {
	switch v.(type) {
	case *Lin, *Rope, *Leaf, *Unknown, *NilV, *App, *TimeV, *FloatV:
		return v
	}
	if x, ok := r.memo[v.ID()]; ok {
		return x
	}
	out := v
	switch v := v.(type) {
	case *Ptr:
		if o := r.obj(v.obj); o != v.obj {
			out = mkPtr(o, v.path...)
		}
	case *BytePtr:
		if o := r.obj(v.obj); o != v.obj {
			out = mkBytePtr(o, v.path, v.off)
		}
	case *SliceV:
		if o := r.obj(v.obj); o != v.obj {
			out = mkSlice(o, v.path, v.off, v.len, v.capn)
		}
	case *Agg:
		out = mkAgg(v.kind, r.list(v.es))
	case *Native:
		out = mkNative(v.kind, r.list(v.fs)...)
	case *Iface:
		out = mkIface(v.typ, r.val(v.v))
	case *FuncV:
		out = mkFunc(v.fn, r.list(v.binds))
	case *MapV:
		out = mkMapV(v.ks, r.list(v.vs))
	case *Node:
		if !v.bool_ {
			out = ite(mkNode(v.v, bTrue, bFalse), r.val(v.hi), r.val(v.lo))
		}
	}
	r.memo[v.ID()] = out
	return out
}

// ---------------------------------------------------------------------------
// control flow

// wtoElem is a weak topological ordering element: a block or a loop.
type wtoElem struct {
	b    *ssa.BasicBlock
	body []*wtoElem // loop body when b is a loop head
	loop bool
}

var wtoCache = map[*ssa.Function][]*wtoElem{}

// wto computes Bourdoncle's weak topological ordering.
func wto(fn *ssa.Function) []*wtoElem {
	if w, ok := wtoCache[fn]; ok {
		return w
	}
	dfn := map[*ssa.BasicBlock]int{}
	num := 0
	var stack []*ssa.BasicBlock
	const inf = 1 << 30
	var visit func(v *ssa.BasicBlock, part *[]*wtoElem) int
	var component func(v *ssa.BasicBlock) *wtoElem
	component = func(v *ssa.BasicBlock) *wtoElem {
		var part []*wtoElem
		for _, s := range v.Succs {
			if dfn[s] == 0 {
				visit(s, &part)
			}
		}
		return &wtoElem{b: v, body: part, loop: true}
	}
	visit = func(v *ssa.BasicBlock, part *[]*wtoElem) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := num
		loop := false
		for _, s := range v.Succs {
			var m int
			if dfn[s] == 0 {
				m = visit(s, part)
			} else {
				m = dfn[s]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			el := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for el != v {
					dfn[el] = 0
					el = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append([]*wtoElem{component(v)}, *part...)
			} else {
				*part = append([]*wtoElem{{b: v}}, *part...)
			}
		}
		return head
	}
	var out []*wtoElem
	visit(fn.Blocks[0], &out)
	wtoCache[fn] = out
	return out
}

type frame struct {
	e       *Engine
	fn      *ssa.Function
	pending map[*ssa.BasicBlock]*path
	rets    []*retState
	inLoop  map[*ssa.BasicBlock]bool
	splitOn Value // a condition to split a loop on, found by summarise
	splits  int
}

type retState struct {
	p    *path
	vals []Value
}

const maxDepth = 60

// callFn analyses a function body in the current state and returns its results.
// Afterwards the current state is the join of all return states; a path condition
// of false means the call never returns.
func (e *Engine) callFn(fn *ssa.Function, args, binds []Value) []Value {
	if fn.Blocks == nil {
		return nil
	}
	if e.depth > maxDepth {
		// recursion: what happens beyond is not known
		e.opaque["call depth exceeded in "+fn.String()]++
		e.havocArgs(args, "recursion of "+funcName(fn))
		return e.unknownResults(fn.Signature, unknown("recursion of %s", funcName(fn)))
	}
	e.depth++
	e.funcs[fn.String()]++
	if e.trace {
		fmt.Fprintf(os.Stderr, "%*s%s pc=%s\n", e.depth, "", fn, short(show(e.st.pc)))
	}
	savedCur := e.cur
	caller := e.st
	defer func() {
		e.depth--
		e.cur = savedCur
	}()
	p := &path{st: caller.clone(), env: map[ssa.Value]Value{}}
	for i, prm := range fn.Params {
		if i < len(args) {
			p.env[prm] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			p.env[fv] = binds[i]
		}
	}
	f := &frame{e: e, fn: fn, pending: map[*ssa.BasicBlock]*path{fn.Blocks[0]: p}}
	f.run(wto(fn))
	var m *path
	const resKey = "res"
	for _, r := range f.rets {
		env := map[ssa.Value]Value{}
		for i, v := range r.vals {
			env[retVal(i)] = v
		}
		q := &path{st: r.p.st, env: env}
		if m == nil {
			m = q
		} else {
			m = e.merge(m, q, nil)
		}
	}
	if m == nil || m.st.pc == bFalse {
		caller.pc = bFalse
		e.setState(caller)
		n := fn.Signature.Results().Len()
		out := make([]Value, n)
		for i := range out {
			out[i] = e.zero(fn.Signature.Results().At(i).Type())
		}
		return out
	}
	caller.heap, caller.pc, caller.eff = m.st.heap, m.st.pc, m.st.eff
	e.setState(caller)
	n := fn.Signature.Results().Len()
	out := make([]Value, n)
	for i := range out {
		out[i] = m.env[retVal(i)]
	}
	return out
}

var retVals []*ssa.Parameter

func retVal(i int) ssa.Value {
	for len(retVals) <= i {
		retVals = append(retVals, &ssa.Parameter{})
	}
	return retVals[i]
}

const (
	maxUnroll  = 4096
	maxSymIter = 80
)

func (f *frame) run(els []*wtoElem) {
	for _, el := range els {
		if !el.loop {
			if p := f.pending[el.b]; p != nil {
				delete(f.pending, el.b)
				f.block(el.b, p)
			}
			continue
		}
		f.loop(el)
	}
}

func (f *frame) loop(el *wtoElem) {
	blocks := map[*ssa.BasicBlock]bool{}
	collectBlocks(el, blocks)
	sym := 0
	var first *path
	exits := f.exitCount(blocks)
	var prev *path
	for iter := 0; ; iter++ {
		p := f.pending[el.b]
		if p != nil && iter%100 == 99 {
			prev = p.clone()
		}
		if p != nil && sym == 0 && iter > 100 && iter%100 == 0 && p.st.pc != bFalse && (sameState(prev, p) || sameControl(el, blocks, prev, p)) {
			// nothing has changed since the iteration before: the loop does not end
			f.e.runaway = append(f.e.runaway, endless{p.st.pc, f.e.posOf(headPos(el, blocks))})
			delete(f.pending, el.b)
			return
		}
		if iter == 0 && p != nil {
			first = p.clone()
		}
		// a long loop with a decided number of iterations is summarised from its start
		if iter == 100 && sym == 0 && p != nil && f.exitCount(blocks) == exits {
			delete(f.pending, el.b)
			if f.summarise(el, blocks, first) || f.splitLoop(el, first) {
				return
			}
			f.pending[el.b] = p
		}
		if p == nil || p.st.pc == bFalse {
			delete(f.pending, el.b)
			return
		}
		if iter > maxUnroll || sym > maxSymIter {
			delete(f.pending, el.b)
			f.widen(el, blocks, p)
			return
		}
		if sym == 0 && f.headUndecided(el, blocks, p) {
			delete(f.pending, el.b)
			if f.summarise(el, blocks, p) || f.splitLoop(el, p) {
				return
			}
			f.pending[el.b] = p
			sym = 1
		} else if sym > 0 {
			sym++
		}
		delete(f.pending, el.b)
		f.block(el.b, p)
		f.run(el.body)
	}
}

// endless is a loop that is entered and never left.
type endless struct {
	pc  Value
	pos string
}

// splitLoop runs a loop once under f.splitOn and once under its negation.
func (f *frame) splitLoop(el *wtoElem, p *path) bool {
	c := f.splitOn
	f.splitOn = nil
	if c == nil || f.splits > 4 {
		return false
	}
	t, fl := and(p.st.pc, c), and(p.st.pc, not(c))
	if t == bFalse || fl == bFalse {
		return false
	}
	f.splits++
	q := p.clone()
	p = p.clone()
	p.st.pc, q.st.pc = t, fl
	f.pending[el.b] = p
	f.loop(el)
	f.pending[el.b] = q
	f.loop(el)
	f.splits--
	return true
}

// sameState compares two arrivals at a loop head: equal variables and memory, and no
// more way out than before.
func sameState(a, b *path) bool {
	if a.st.pc != b.st.pc || len(a.st.heap) != len(b.st.heap) {
		return false
	}
	for k, v := range b.env {
		if a.env[k] != v {
			return false
		}
	}
	for o, v := range b.st.heap {
		if a.st.heap[o] != v {
			return false
		}
	}
	return true
}

// sameControl compares two arrivals at a loop head in what decides the course of the loop:
// the variables its branches depend on and the memory these lead to. It applies to loops
// that call nothing and write only to memory they allocate, so that whatever else grows
// cannot end the loop.
func sameControl(el *wtoElem, blocks map[*ssa.BasicBlock]bool, a, b *path) bool {
	if a.st.pc != b.st.pc {
		return false
	}
	rel := map[ssa.Value]bool{}
	var need func(v ssa.Value) bool
	vars := []ssa.Value{}
	need = func(v ssa.Value) bool {
		if v == nil || rel[v] {
			return true
		}
		rel[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok || in.Block() == nil || !blocks[in.Block()] {
			return true // fixed during the loop
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == el.b {
				vars = append(vars, v)
			}
			for _, o := range x.Edges {
				if !need(o) {
					return false
				}
			}
			return true
		case *ssa.Call, *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.Slice, *ssa.IndexAddr, *ssa.Index, *ssa.Extract, *ssa.FieldAddr, *ssa.Field, *ssa.Lookup:
		default:
			return false
		}
		for _, o := range in.Operands(nil) {
			if *o != nil && !need(*o) {
				return false
			}
		}
		return true
	}
	local := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.Alloc:
				return blocks[x.Block()]
			default:
				return false
			}
		}
	}
	for blk := range blocks {
		for _, in := range blk.Instrs {
			switch x := in.(type) {
			case *ssa.If:
				if !need(x.Cond) {
					return false
				}
			case *ssa.IndexAddr:
				if !local(x) && !need(x.X) || !need(x.Index) {
					return false
				}
			case *ssa.Index:
				if !need(x.Index) || !need(x.X) {
					return false
				}
			case *ssa.Slice:
				if _, isSlice := x.X.Type().Underlying().(*types.Slice); isSlice && !need(x) {
					return false
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" && bi.Name() != "cap" && bi.Name() != "append" {
					return false
				}
			case *ssa.Store:
				if !local(x.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.Next, *ssa.Return, *ssa.TypeAssert:
				return false
			}
		}
	}
	for v := range rel {
		if c, ok := v.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				return false
			}
		}
	}
	for _, v := range vars {
		x, y := a.env[v], b.env[v]
		if x != y || x == nil {
			return false
		}
		same := true
		walk(x, func(z Value) bool {
			var o *Obj
			switch z := z.(type) {
			case *SliceV:
				o = z.obj
			case *Ptr:
				o = z.obj
			}
			if o != nil && a.st.heap[o] != b.st.heap[o] {
				same = false
			}
			return true
		})
		if !same {
			return false
		}
	}
	return true
}

func (f *frame) exitCount(blocks map[*ssa.BasicBlock]bool) int {
	n := len(f.rets)
	for b := range f.pending {
		if !blocks[b] {
			n++
		}
	}
	return n
}

func collectBlocks(el *wtoElem, out map[*ssa.BasicBlock]bool) {
	out[el.b] = true
	for _, s := range el.body {
		collectBlocks(s, out)
	}
}

// headUndecided reports whether the loop head ends in a branch that leaves the
// loop under a condition the analysis cannot decide.
func (f *frame) headUndecided(el *wtoElem, blocks map[*ssa.BasicBlock]bool, p *path) bool {
	b := el.b
	last := b.Instrs[len(b.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return false
	}
	if blocks[b.Succs[0]] && blocks[b.Succs[1]] {
		return false
	}
	// evaluate the head on a scratch copy
	q := p.clone()
	e := f.e
	save, sp, sl, se := e.st, len(e.panics), len(e.loops), len(e.effects)
	saveCur := e.cur
	e.setState(q.st)
	und := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(bail); !ok {
					panic(r)
				}
			}
		}()
		for _, in := range b.Instrs[:len(b.Instrs)-1] {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			f.instr(q, in)
		}
		c := f.get(q, iff.Cond)
		t, fl := and(e.st.pc, c), and(e.st.pc, not(c))
		und = t != bFalse && fl != bFalse
	}()
	e.panics = e.panics[:sp]
	e.loops = e.loops[:sl]
	e.effects = e.effects[:se]
	e.cur = saveCur
	e.setState(save)
	return und
}

// edge pushes a state along a control-flow edge, evaluating the phis of the target.
func (f *frame) edge(p *path, from, to *ssa.BasicBlock, pc Value) {
	if pc == bFalse {
		return
	}
	q := p.clone()
	q.st.pc = pc
	idx := -1
	for i, pr := range to.Preds {
		if pr == from {
			idx = i
		}
	}
	old := facts
	facts = pc
	vals := map[ssa.Value]Value{}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = f.get(q, phi.Edges[idx])
	}
	for k, v := range vals {
		q.env[k] = v
	}
	facts = old
	if r := f.pending[to]; r != nil {
		q = f.e.merge(r, q, nil)
	}
	f.pending[to] = q
}

func (f *frame) block(b *ssa.BasicBlock, p *path) {
	e := f.e
	e.setState(p.st)
	for _, in := range b.Instrs {
		if e.st.pc == bFalse {
			return
		}
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			e.cur = in
			c := f.get(p, in.Cond)
			if u, ok := c.(*Unknown); ok {
				c = undecidedCond(u)
			}
			pc := e.st.pc
			t, fl := and(pc, c), and(pc, not(c))
			f.edge(p, b, b.Succs[0], t)
			f.edge(p, b, b.Succs[1], fl)
			return
		case *ssa.Jump:
			f.edge(p, b, b.Succs[0], e.st.pc)
			return
		case *ssa.Return:
			e.cur = in
			vals := make([]Value, len(in.Results))
			for i, r := range in.Results {
				vals[i] = f.get(p, r)
			}
			f.rets = append(f.rets, &retState{p, vals})
			return
		case *ssa.Panic:
			e.cur = in
			e.panicIf(bTrue, "explicit panic")
			return
		case *ssa.RunDefers:
			e.cur = in
			ds := p.defers
			p.defers = nil
			for i := len(ds) - 1; i >= 0; i-- {
				d := ds[i].(*Agg)
				e.callValue(d.es[0], d.es[1:], nil)
			}
		default:
			f.instr(p, in)
		}
	}
}

func (f *frame) get(p *path, v ssa.Value) Value {
	e := f.e
	switch v := v.(type) {
	case *ssa.Const:
		return e.constant(v)
	case *ssa.Global:
		return mkPtr(e.globalObj(v))
	case *ssa.Function:
		return mkFunc(v, nil)
	case *ssa.Builtin:
		return unknown("builtin %s as value", v.Name())
	}
	x, ok := p.env[v]
	if !ok {
		return unknown("undefined value %s in %s", v.Name(), f.fn)
	}
	if n, ok := x.(*Node); ok {
		return restrict(n, facts)
	}
	return x
}

func (e *Engine) constant(c *ssa.Const) Value {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	t := under(c.Type())
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return boolV(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return ropeConst(constant.StringVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if x, ok := new(big.Int).SetString(v.ExactString(), 10); ok {
				return linConst(x)
			}
		case b.Info()&types.IsFloat != 0:
			if f, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return mkFloat(linInt(f), 1)
			}
		}
	}
	if c.Value.Kind() == constant.Int {
		if x, ok := new(big.Int).SetString(c.Value.ExactString(), 10); ok {
			return linConst(x)
		}
	}
	return opq("const:" + c.String())
}

func debugf(format string, a ...any) {
	if os.Getenv("VDEBUG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}
