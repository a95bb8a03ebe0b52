package main

// Abstract values of the interprocedural value-flow analysis.
//
// Every value is immutable and hash-consed ("value numbering"): two values that
// are provably the same expression have the same number, so comparing two
// values is a pointer comparison.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value.
type Value interface{ ID() int }

type base struct{ id int }

func (b *base) ID() int { return b.id }

var internTab = map[string]Value{}
var internNext = 1

func intern(key string, mk func(id int) Value) Value {
	if v, ok := internTab[key]; ok {
		return v
	}
	if stopNow.Load() {
		panic(bail{"analysis time or memory budget exceeded"})
	}
	internNext++
	v := mk(internNext)
	internTab[key] = v
	return v
}

// stopNow is set by the watchdog when a context uses too much time or memory.
var stopNow atomic.Bool

var internBase map[string]Value

// resetTables forgets what earlier contexts made, so that a context's analysis (variable
// order, memo tables, memory) does not depend on what was analysed before it.
func resetTables() {
	if internBase == nil {
		internBase = internTab
	}
	internTab = make(map[string]Value, len(internBase))
	for k, v := range internBase {
		internTab[k] = v
	}
	coreRank = map[string]int{}
	bvars = map[string]*BVar{}
	enumOrd = map[string]int{}
	iteMemo = map[k3]Value{}
	eqMemo = map[int]*eqFacts{}
	simpMemo = map[simpKey]Value{}
	boundMemo = map[bkey]bval{}
}

func ids(vs []Value) string {
	var sb strings.Builder
	for i, v := range vs {
		if i > 0 {
			sb.WriteByte(',')
		}
		if v == nil {
			sb.WriteString("-")
		} else {
			fmt.Fprintf(&sb, "%d", v.ID())
		}
	}
	return sb.String()
}

// Sorts of uninterpreted applications.
type Sort int

const (
	SInt Sort = iota
	SBytes
	SOpaque
	SBool
)

// App is an uninterpreted function application: the value number of the result
// of calling fn with args.
type App struct {
	base
	fn     string
	args   []Value
	sort   Sort
	lo, hi *big.Int // intrinsic bounds, ints only
	n      Value    // length, byte strings only
	pos    string   // where it was first created
}

var curPos func() string = func() string { return "" }

func mkApp(fn string, sort Sort, lo, hi *big.Int, n Value, args ...Value) *App {
	key := fmt.Sprintf("app:%s:%d:%s:%s:%s:", fn, sort, bs(lo), bs(hi), ids(args))
	if n != nil {
		key += fmt.Sprint(n.ID())
	}
	return intern(key, func(id int) Value {
		return &App{base{id}, fn, args, sort, lo, hi, n, curPos()}
	}).(*App)
}

func bs(b *big.Int) string {
	if b == nil {
		return "_"
	}
	return b.Text(62)
}

// Unknown is the top element: a value the analysis cannot describe.
type Unknown struct {
	base
	why string
}

func unknown(format string, a ...any) Value {
	why := fmt.Sprintf(format, a...)
	if p := curPos(); p != "" && !strings.Contains(why, " at ") {
		why += " at " + p
	}
	return intern("unk:"+why, func(id int) Value { return &Unknown{base{id}, why} })
}

// NilV is a nil pointer, slice, map, func, interface or channel.
type NilV struct{ base }

var nilV = intern("nil", func(id int) Value { return &NilV{base{id}} })

// Obj is an abstract heap object (one per evaluated allocation).
type Obj struct {
	num    int
	name   string
	typ    types.Type
	global bool
}

var objNext = 0

func newObj(name string, t types.Type) *Obj {
	objNext++
	return &Obj{num: objNext, name: name, typ: t}
}

// Ptr points to (a part of) an object; path selects struct fields / array elements.
type Ptr struct {
	base
	obj  *Obj
	path []int
}

func mkPtr(o *Obj, path ...int) Value {
	return intern(fmt.Sprintf("ptr:%d:%v", o.num, path), func(id int) Value {
		return &Ptr{base{id}, o, append([]int(nil), path...)}
	})
}

// BytePtr points at one byte of a byte-array object.
type BytePtr struct {
	base
	obj  *Obj
	path []int
	off  Value
}

func mkBytePtr(o *Obj, path []int, off Value) Value {
	return intern(fmt.Sprintf("bptr:%d:%v:%d", o.num, path, off.ID()), func(id int) Value {
		return &BytePtr{base{id}, o, append([]int(nil), path...), off}
	})
}

// SliceV is a non-nil slice of the array at obj/path.
type SliceV struct {
	base
	obj            *Obj
	path           []int
	off, len, capn Value
}

func mkSlice(o *Obj, path []int, off, ln, cp Value) Value {
	return intern(fmt.Sprintf("sl:%d:%v:%d:%d:%d", o.num, path, off.ID(), ln.ID(), cp.ID()), func(id int) Value {
		return &SliceV{base{id}, o, append([]int(nil), path...), off, ln, cp}
	})
}

// Agg is a struct, array or tuple value.
type Agg struct {
	base
	kind string // struct, array, tuple
	es   []Value
}

func mkAgg(kind string, es []Value) Value {
	return intern("agg:"+kind+":"+ids(es), func(id int) Value {
		return &Agg{base{id}, kind, append([]Value(nil), es...)}
	})
}

// Iface is a non-nil interface value with known dynamic type.
type Iface struct {
	base
	typ types.Type
	v   Value
}

var typeIDs = map[string]types.Type{}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	s := types.TypeString(t, nil)
	return s
}

func mkIface(t types.Type, v Value) Value {
	return intern(fmt.Sprintf("if:%s:%d", typeKey(t), v.ID()), func(id int) Value {
		return &Iface{base{id}, t, v}
	})
}

// FuncV is a function value.
type FuncV struct {
	base
	fn    *ssa.Function
	binds []Value
	bltn  *ssa.Builtin
}

func mkFunc(fn *ssa.Function, binds []Value) Value {
	return intern(fmt.Sprintf("fn:%p:%s", fn, ids(binds)), func(id int) Value {
		return &FuncV{base: base{id}, fn: fn, binds: binds}
	})
}

// Native is the content of an object whose type is modelled by the analysis
// (bytes.Buffer, hash states, block ciphers, random streams, ...).
type Native struct {
	base
	kind string
	fs   []Value
}

func mkNative(kind string, fs ...Value) Value {
	return intern("nat:"+kind+":"+ids(fs), func(id int) Value {
		return &Native{base{id}, kind, fs}
	})
}

// TimeV is an instant, in nanoseconds since the Unix epoch.
type TimeV struct {
	base
	ns Value
}

func mkTime(ns Value) Value {
	if g, ok := ns.(*Node); ok {
		return mapLeaves(g, func(l Value) Value { return mkTime(l) })
	}
	if u, ok := ns.(*Unknown); ok {
		return u
	}
	return intern(fmt.Sprintf("time:%d", ns.ID()), func(id int) Value { return &TimeV{base{id}, ns} })
}

// FloatV is the rational num/den.
type FloatV struct {
	base
	num Value
	den int64
}

func mkFloat(num Value, den int64) Value {
	return intern(fmt.Sprintf("flt:%d:%d", num.ID(), den), func(id int) Value { return &FloatV{base{id}, num, den} })
}

// MapV is a map with known keys.
type MapV struct {
	base
	ks, vs []Value
}

func mkMapV(ks, vs []Value) Value {
	return intern("map:"+ids(ks)+";"+ids(vs), func(id int) Value { return &MapV{base{id}, ks, vs} })
}

// Opq wraps an uninterpreted application of opaque sort as a value.
func opq(fn string, args ...Value) Value {
	return mkApp(fn, SOpaque, nil, nil, nil, args...)
}

// ---------------------------------------------------------------------------
// printing

func show(v Value) string { return showD(v, 6) }

func showD(v Value, d int) string {
	if v == nil {
		return "<none>"
	}
	if d < 0 {
		return "…"
	}
	list := func(vs []Value) string {
		var out []string
		for _, x := range vs {
			out = append(out, showD(x, d-1))
		}
		return strings.Join(out, ", ")
	}
	switch v := v.(type) {
	case *Lin:
		if len(v.ts) == 0 {
			if v.c.BitLen() > 70 {
				return "0x" + v.c.Text(16)
			}
			return v.c.String()
		}
		var parts []string
		ts := append([]LTerm(nil), v.ts...)
		sort.SliceStable(ts, func(i, j int) bool { return ts[i].c.CmpAbs(ts[j].c) > 0 })
		for _, t := range ts {
			s := showD(t.a, d-1)
			if t.c.Cmp(one) != 0 {
				if t.c.Sign() > 0 && isPow2(t.c) {
					s = fmt.Sprintf("%s<<%d", s, t.c.BitLen()-1)
				} else {
					s = fmt.Sprintf("%s*%s", t.c, s)
				}
			}
			parts = append(parts, s)
		}
		if v.c.Sign() != 0 {
			parts = append(parts, v.c.String())
		}
		return strings.Join(parts, " + ")
	case *App:
		switch v.fn {
		case "seg":
			return fmt.Sprintf("%s[%s:+%s]", showD(v.args[0], d-1), showD(v.args[1], d), showD(v.args[2], d))
		case "beint", "lin":
			return showD(v.args[0], d)
		}
		if len(v.args) == 0 {
			return v.fn
		}
		return v.fn + "(" + list(v.args) + ")"
	case *Unknown:
		return "UNKNOWN[" + v.why + "]"
	case *NilV:
		return "nil"
	case *Ptr:
		return fmt.Sprintf("&%s#%d%v", v.obj.name, v.obj.num, v.path)
	case *BytePtr:
		return fmt.Sprintf("&%s#%d%v[%s]", v.obj.name, v.obj.num, v.path, showD(v.off, d-1))
	case *SliceV:
		return fmt.Sprintf("%s#%d%v[%s:+%s]", v.obj.name, v.obj.num, v.path, showD(v.off, d-1), showD(v.len, d-1))
	case *Agg:
		return v.kind + "{" + list(v.es) + "}"
	case *Iface:
		return "iface(" + typeKey(v.typ) + "," + showD(v.v, d-1) + ")"
	case *FuncV:
		return "func " + v.fn.String()
	case *Native:
		return v.kind + "{" + list(v.fs) + "}"
	case *TimeV:
		return "time(" + showD(v.ns, d-1) + "ns)"
	case *FloatV:
		return fmt.Sprintf("(%s)/%d", showD(v.num, d-1), v.den)
	case *MapV:
		return "map{" + list(v.ks) + " -> " + list(v.vs) + "}"
	case *Rope:
		return showRope(v, d)
	case *Leaf:
		if v == bTrue {
			return "true"
		}
		return "false"
	case *Node:
		if isBool(v) {
			return showBool(v, d)
		}
		return fmt.Sprintf("(%s ? %s : %s)", v.v.String(), showD(v.hi, d-1), showD(v.lo, d-1))
	}
	return fmt.Sprintf("%T", v)
}

func showBool(v Value, d int) string {
	if v == bTrue {
		return "true"
	}
	if v == bFalse {
		return "false"
	}
	if d < 0 {
		return "…"
	}
	n := v.(*Node)
	switch {
	case n.hi == bTrue && n.lo == bFalse:
		return n.v.String()
	case n.hi == bFalse && n.lo == bTrue:
		return "!" + n.v.String()
	case n.lo == bFalse:
		return n.v.String() + " && " + showBool(n.hi, d-1)
	case n.hi == bFalse:
		return "!" + n.v.String() + " && " + showBool(n.lo, d-1)
	case n.hi == bTrue:
		return n.v.String() + " || " + showBool(n.lo, d-1)
	}
	return fmt.Sprintf("(%s ? %s : %s)", n.v, showBool(n.hi, d-1), showBool(n.lo, d-1))
}
