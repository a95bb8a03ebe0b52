package main

// Calls: builtins, dispatch, uninterpreted functions.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type boundMethod struct{}

// callee evaluates the function value and arguments of a call; an interface
// method call is represented by a Native "method".
func (f *frame) callee(p *path, c *ssa.CallCommon) (Value, []Value) {
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = f.get(p, a)
	}
	if c.IsInvoke() {
		return mkNative("method:"+c.Method.Name(), f.get(p, c.Value)), args
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return intern(fmt.Sprintf("bltn:%s", b.Name()), func(id int) Value { return &FuncV{base: base{id}, bltn: b} }), args
	}
	return f.get(p, c.Value), args
}

func (f *frame) call(p *path, c *ssa.CallCommon, in *ssa.Call) []Value {
	fv, args := f.callee(p, c)
	if fn, ok := fv.(*FuncV); ok && fn.bltn != nil {
		var at []types.Type
		for _, a := range c.Args {
			at = append(at, a.Type())
		}
		return []Value{f.e.builtin(fn.bltn.Name(), args, at, in)}
	}
	return f.e.callValue(fv, args, c.Signature())
}

// callValue calls a function value.
func (e *Engine) callValue(fv Value, args []Value, sig *types.Signature) []Value {
	cur := e.cur
	defer func() { e.cur = cur }()
	switch v := fv.(type) {
	case *Node:
		n := 0
		if sig != nil {
			n = sig.Results().Len()
		}
		return e.splitCall([]Value{fv}, n, func(vs []Value) []Value {
			return e.callValue(vs[0], args, sig)
		})
	case *FuncV:
		if v.bltn != nil {
			return []Value{e.builtin(v.bltn.Name(), args, nil, nil)}
		}
		return e.dispatch(v.fn, args, v.binds)
	case *NilV:
		e.panicIf(bTrue, "call of nil function")
		return e.unknownResults(sig, unknown("call of nil function"))
	case *Native:
		if m, ok := strings.CutPrefix(v.kind, "method:"); ok {
			recv := v.fs[0]
			if isGate(recv) {
				n := 0
				if sig != nil {
					n = sig.Results().Len()
				}
				return e.splitCall([]Value{recv}, n, func(vs []Value) []Value {
					return e.invoke(vs[0], m, args, sig)
				})
			}
			return e.invoke(recv, m, args, sig)
		}
	}
	e.unmodelled("call of " + show(fv))
	return e.unknownResults(sig, unknown("call of %s", show(fv)))
}

func (e *Engine) unknownResults(sig *types.Signature, u Value) []Value {
	if sig == nil {
		return nil
	}
	out := make([]Value, sig.Results().Len())
	for i := range out {
		out[i] = u
	}
	return out
}

// splitCall runs f for each combination of leaves of vs on restricted states and
// joins states and results.
func (e *Engine) splitCall(vs []Value, nres int, f func(vs []Value) []Value) []Value {
	ro := newObj("results", nil)
	e.st.heap[ro] = nilV
	e.splitAll(vs, func(vs []Value) {
		rs := f(vs)
		for len(rs) < nres {
			rs = append(rs, unknown("missing result"))
		}
		e.st.heap[ro] = mkAgg("tuple", rs)
	})
	r := e.st.heap[ro]
	delete(e.st.heap, ro)
	if a, ok := r.(*Agg); ok {
		return append([]Value(nil), a.es...)
	}
	out := make([]Value, nres)
	for i := range out {
		i := i
		out[i] = project(r, []int{i}, func(v Value, _ int) Value { return badOr(v, "result %s") })
	}
	return out
}

func (e *Engine) invoke(recv Value, name string, args []Value, sig *types.Signature) []Value {
	switch r := recv.(type) {
	case *NilV:
		e.panicIf(bTrue, "method call on nil interface")
		return e.unknownResults(sig, unknown("method on nil interface"))
	case *Iface:
		if k := nativeKind(r.typ); k != "" {
			return e.nativeMethod(k, r.v, name, args, sig)
		}
		fn := e.lookupMethod(r.typ, name)
		if fn == nil {
			return e.unknownResults(sig, unknown("no method %s on %s", name, r.typ))
		}
		return e.dispatch(fn, append([]Value{r.v}, args...), nil)
	}
	e.unmodelled("method " + name + " of " + show(recv))
	if u := bad(recv); u != nil {
		return e.unknownResults(sig, u)
	}
	e.havocArgs(args, "method "+name)
	out := make([]Value, 0)
	if sig != nil {
		for i := 0; i < sig.Results().Len(); i++ {
			out = append(out, e.symbolic(sig.Results().At(i).Type(), fmt.Sprintf("invoke:%s#%d", name, i), append([]Value{recv}, e.deepAll(args)...)...))
		}
	}
	return out
}

func (e *Engine) deepAll(args []Value) []Value {
	out := make([]Value, len(args))
	for i, a := range args {
		out[i] = e.deep(a)
	}
	return out
}

func (e *Engine) lookupMethod(t types.Type, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return e.prog.MethodValue(s)
		}
	}
	return nil
}

// funcName is the qualified name used in the intrinsics table.
func funcName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if obj := fn.Object(); obj != nil {
		if f, ok := obj.(*types.Func); ok {
			return f.Origin().FullName()
		}
	}
	return fn.String()
}

func pkgPathOf(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
		return obj.Pkg().Path()
	}
	if fn.Parent() != nil {
		return pkgPathOf(fn.Parent())
	}
	return ""
}

// interpreted lists the standard packages whose functions are analysed from source.
var interpreted = map[string]bool{
	"slices": true, "maps": true, "cmp": true, "sort": true, "math/bits": true,
	"encoding/binary": true, "iter": true, "io": true, "encoding/hex": true,
	"internal/byteorder": true, "flag": true, "errors": true, "internal/stringslite": true,
}

// pure lists packages whose functions are pure: uninterpreted applications suffice.
var pureP = map[string]bool{
	"strings": true, "bytes": true, "strconv": true, "unicode": true, "unicode/utf8": true,
	"math": true, "github.com/kklash/wordlist4096": true, "path": true, "path/filepath": true,
	"encoding/base64": true, "hash/crc32": true, "regexp": true, "crypto/subtle": true, "fmt": true,
}

func (e *Engine) dispatch(fn *ssa.Function, args, binds []Value) []Value {
	name := funcName(fn)
	nres := fn.Signature.Results().Len()
	if e.apiCut[name] {
		return e.uninterpreted(fn, name, args)
	}
	if e.cli != nil && e.cli.hooks[name] != nil {
		return e.splitCall(args, nres, func(vs []Value) []Value { return e.cli.hooks[name](e, fn, vs) })
	}
	if in, ok := intrinsics[name]; ok {
		e.calls[name]++
		// split over alternatives of pointers
		if needSplit(args) {
			return e.splitCall(args, nres, func(vs []Value) []Value { return in(e, fn, vs) })
		}
		return in(e, fn, args)
	}
	path := pkgPathOf(fn)
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Parent() == nil && fn.Signature.Recv() == nil {
		if !e.repoPath(path) {
			return nil
		}
	}
	if e.repoPath(path) || interpreted[path] || (fn.Synthetic != "" && path == "") || e.isWrapper(fn) {
		if fn.Blocks == nil && fn.Pkg != nil {
			fn.Pkg.Build()
		}
		if fn.Blocks != nil {
			e.calls[name]++
			return e.callFn(fn, args, binds)
		}
	}
	if e.cli != nil && outside[strings.SplitN(path, "/", 2)[0]] {
		e.logEffect(effect{kind: "outside", to: name, what: e.deepTuple(args)})
	}
	if isAmbient(fn, path, name) {
		e.ambient(name)
		res := fn.Signature.Results()
		out := make([]Value, res.Len())
		k := linInt(int64(e.fresh()))
		for i := range out {
			out[i] = e.symbolic(res.At(i).Type(), fmt.Sprintf("ambient:%s#%d", name, i), k)
		}
		return out
	}
	if pureP[path] {
		return e.uninterpreted(fn, name, args)
	}
	if harmless(path) {
		e.opaque["unmodelled function "+name]++
	} else {
		e.unmodelled("unmodelled function " + name)
	}
	e.havocArgs(args, "passed to unmodelled "+name)
	return e.unknownResults(fn.Signature, unknown("result of unmodelled %s", name))
}

// harmless reports whether the functions of a package leave files, terminal and standard
// streams alone.
func harmless(path string) bool {
	first, _, _ := strings.Cut(path, "/")
	switch first {
	case "time", "sync", "runtime", "context", "reflect", "math", "crypto", "unicode", "hash", "container", "strings", "strconv", "unsafe", "sort":
		return true
	}
	return false
}

// unmodelled notes that something the analysis does not know happens here: whatever the
// process prints, has written or left the terminal in is not known any more.
func (e *Engine) unmodelled(what string) {
	e.opaque[what]++
	if e.cli == nil || e.st.pc == bFalse || strings.Contains(what, "reflect.") {
		return
	}
	u := unknown("%s", what)
	c := e.cli
	e.st.heap[c.out] = ropeCat(ropeOf(e.st.heap[c.out]), ropeOf(u))
	e.st.heap[c.term], e.st.heap[c.pwPos], e.st.heap[c.inPos] = u, u, u
	e.logEffect(effect{kind: "write", to: "stderr", what: ropeOf(u)})
	for o, v := range e.st.heap {
		if n, ok := v.(*Native); ok && n.kind == "file" && len(n.fs) >= 6 {
			e.logEffect(effect{kind: "write", to: "file", what: ropeOf(u), args: []Value{n.fs[0]}})
			fs := append([]Value(nil), n.fs...)
			fs[4] = ropeCat(ropeOf(fs[4]), ropeOf(u))
			e.st.heap[o] = mkNative("file", fs...)
		}
	}
}

var ambientFns = map[string]bool{
	"os.Getenv": true, "os.LookupEnv": true, "os.Hostname": true, "os.Getpid": true, "os.Getppid": true, "os.Getuid": true,
	"os.Getgid": true, "os.Getwd": true, "os.Executable": true, "os.UserHomeDir": true, "os.TempDir": true,
	"runtime.NumGoroutine": true, "runtime.NumCPU": true, "runtime.GOMAXPROCS": true, "os.Getpagesize": true,
}

// isAmbient reports whether a function reads something outside the program: what it gives
// is an arbitrary value, different at every call.
func isAmbient(fn *ssa.Function, path, name string) bool {
	if ambientFns[name] {
		return true
	}
	return (path == "math/rand" || path == "math/rand/v2") && fn.Signature.Recv() == nil && !strings.HasPrefix(fn.Name(), "New") && fn.Name() != "Seed"
}

func (e *Engine) isWrapper(fn *ssa.Function) bool {
	return strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") || strings.Contains(fn.Synthetic, "bound")
}

func (e *Engine) repoPath(p string) bool {
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

const modPath = "github.com/kklash/mnemonikey"

func needSplit(args []Value) bool {
	for _, a := range args {
		if isGate(a) {
			ok := true
			mapLeaves(a, func(l Value) Value {
				switch l.(type) {
				case *Lin, *Rope, *TimeV, *FloatV, *Unknown:
				default:
					ok = false
				}
				return l
			})
			if !ok {
				return true
			}
		}
	}
	return false
}

// uninterpreted applies a pure function symbolically.
func (e *Engine) uninterpreted(fn *ssa.Function, name string, args []Value) []Value {
	if out, ok := e.fold(fn, name, args); ok {
		return out
	}
	d := e.deepAll(args)
	res := fn.Signature.Results()
	out := make([]Value, res.Len())
	for i := range out {
		nm := "call:" + name
		if res.Len() > 1 {
			nm = fmt.Sprintf("%s#%d", nm, i)
		}
		out[i] = e.symbolic(res.At(i).Type(), nm, d...)
	}
	return out
}

func (e *Engine) havocArgs(args []Value, why string) {
	u := unknown("%s", why)
	seen := map[*Obj]bool{}
	var rec func(v Value)
	rec = func(v Value) {
		switch v := v.(type) {
		case *Ptr:
			e.havocObj(v.obj, u, seen, rec)
		case *SliceV:
			e.havocObj(v.obj, u, seen, rec)
		case *BytePtr:
			e.havocObj(v.obj, u, seen, rec)
		case *Agg:
			for _, x := range v.es {
				rec(x)
			}
		case *Iface:
			rec(v.v)
		case *Native:
			for _, x := range v.fs {
				rec(x)
			}
		case *FuncV:
			for _, x := range v.binds {
				rec(x)
			}
		case *Node:
			rec(v.hi)
			rec(v.lo)
		}
	}
	for _, a := range args {
		rec(a)
	}
}

func (e *Engine) havocObj(o *Obj, u Value, seen map[*Obj]bool, rec func(Value)) {
	if seen[o] || o.global {
		return
	}
	seen[o] = true
	old, ok := e.st.heap[o]
	if !ok {
		return
	}
	if n, ok := old.(*Native); ok && (n.kind == "error" || n.kind == "stream" || n.kind == "file") {
		return
	}
	rec(old)
	if e.mutated != nil {
		e.mutated[o] = true
	}
	e.st.heap[o] = u
}

// ambient records a dependence on something outside the inputs.
func (e *Engine) ambient(what string) {
	if e.ambients == nil {
		e.ambients = map[string]string{}
	}
	if _, ok := e.ambients[what]; !ok {
		e.ambients[what] = e.pos()
	}
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------------------
// builtins

func (e *Engine) builtin(name string, args []Value, at []types.Type, in *ssa.Call) Value {
	switch name {
	case "len":
		x := args[0]
		if len(at) > 0 {
			switch under(at[0]).(type) {
			case *types.Map:
				return mapLeaves(x, func(x Value) Value {
					if p, ok := x.(*Ptr); ok {
						return e.sliceLen(e.loadPath(p.obj, p.path))
					}
					return e.sliceLen(x)
				})
			}
		}
		return e.sliceLen(x)
	case "cap":
		return mapLeaves(args[0], func(x Value) Value {
			switch x := x.(type) {
			case *SliceV:
				return x.capn
			case *NilV:
				return linInt(0)
			}
			return badOr(x, "cap of %s")
		})
	case "append":
		return e.appendV(args, at)
	case "copy":
		return e.copyV(args[0], args[1])
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			if name == "min" {
				r = ite(le(r, y), r, y)
			} else {
				r = ite(le(y, r), r, y)
			}
		}
		return r
	case "panic":
		e.panicIf(bTrue, "explicit panic")
		return nilV
	case "ssa:wrapnilchk":
		e.derefCheck(args[0])
		return args[0]
	case "recover":
		return nilV
	case "close", "print", "println":
		return nilV
	case "clear":
		e.split(args[0], func(x Value) {
			switch x := x.(type) {
			case *SliceV:
				c := e.loadPath(x.obj, x.path)
				if _, ok := c.(*Rope); ok {
					e.writeBytes(x.obj, x.path, x.off, ropeZeros(x.len))
				} else {
					e.setPath(x.obj, x.path, unknown("clear"))
				}
			case *Ptr:
				if _, ok := e.loadPath(x.obj, x.path).(*MapV); ok {
					e.setPath(x.obj, x.path, mkMapV(nil, nil))
				}
			}
		})
		return nilV
	case "delete":
		e.split(args[0], func(x Value) {
			if p, ok := x.(*Ptr); ok {
				e.setPath(p.obj, p.path, unknown("delete from map"))
			}
		})
		return nilV
	}
	return unknown("builtin %s", name)
}

func (e *Engine) isByteSlice(v Value, t types.Type) bool {
	if t != nil {
		switch u := under(t).(type) {
		case *types.Slice:
			return isByte(u.Elem())
		case *types.Basic:
			return true
		}
	}
	switch v := v.(type) {
	case *Rope:
		return true
	case *SliceV:
		_, ok := e.loadPath(v.obj, v.path).(*Rope)
		return ok
	case *Node:
		return e.isByteSlice(v.hi, nil) || e.isByteSlice(v.lo, nil)
	}
	return false
}

// appendV models append. Whether the backing array is reused depends on the
// capacity; the result is given fresh storage when capacity may be exceeded or is
// exactly used up, and shares storage otherwise.
func (e *Engine) appendV(args []Value, at []types.Type) Value {
	var t types.Type
	if len(at) > 0 {
		t = at[0]
	}
	rs := e.splitCall([]Value{args[0], args[1]}, 1, func(vs []Value) []Value {
		return []Value{e.append1(vs[0], vs[1], t)}
	})
	return rs[0]
}

func sliceLen(v Value) Value {
	if s, ok := v.(*SliceV); ok {
		return s.len
	}
	return linInt(0)
}

func withLen(v, n Value) Value {
	if s, ok := v.(*SliceV); ok {
		return mkSlice(s.obj, s.path, s.off, n, s.capn)
	}
	return v
}

func (e *Engine) append1(a, b Value, t types.Type) Value {
	if u := bad(a, b); u != nil {
		return u
	}
	if e.isByteSlice(a, t) {
		data := e.bytesOf(b)
		old := e.bytesOf(a)
		if s, ok := a.(*SliceV); ok {
			room := sub(s.capn, s.len)
			fitsC := le(ropeLen(data), room)
			if len(data.ps) == 0 {
				return a
			}
			if fitsC == bTrue {
				e.writeBytes(s.obj, s.path, add(s.off, s.len), data)
				return mkSlice(s.obj, s.path, s.off, add(s.len, ropeLen(data)), s.capn)
			}
			if fitsC != bFalse {
				// The bytes go to spare capacity of the array when they fit. The result is
				// modelled as a copy either way.
				e.branch(fitsC, func() {
					e.writeBytes(s.obj, s.path, add(s.off, s.len), data)
				}, func() {})
			}
		}
		return e.newBytes(ropeCat(old, data))
	}
	es, ok1 := e.elems(a)
	fs, ok2 := e.elems(b)
	if !ok1 || !ok2 {
		// lengths that depend on conditions
		la, lb := sliceLen(a), sliceLen(b)
		if isGate(la) || isGate(lb) {
			return e.splitCall([]Value{la, lb}, 1, func(vs []Value) []Value {
				return []Value{e.append1(withLen(a, vs[0]), withLen(b, vs[1]), t)}
			})[0]
		}
		return unknown("append of %s and %s", show(a), show(b))
	}
	if len(fs) == 0 {
		return a
	}
	if s, ok := a.(*SliceV); ok {
		off, _ := constInt(s.off)
		c, okc := constInt(s.capn)
		if okc && len(es)+len(fs) <= c {
			arr := e.loadPath(s.obj, s.path).(*Agg)
			ne := append([]Value(nil), arr.es...)
			for i, x := range fs {
				ne[off+len(es)+i] = x
			}
			e.setPath(s.obj, s.path, mkAgg("array", ne))
			return mkSlice(s.obj, s.path, s.off, linInt(int64(len(es)+len(fs))), s.capn)
		}
	}
	out := append(append([]Value(nil), es...), fs...)
	return e.newSliceOf(t, out)
}

func (e *Engine) copyV(dst, src Value) Value {
	rs := e.splitCall([]Value{dst, src}, 1, func(vs []Value) []Value {
		dst, src := vs[0], vs[1]
		if u := bad(dst, src); u != nil {
			e.havocArgs([]Value{dst}, "copy from unknown")
			return []Value{u}
		}
		dn, sn := e.sliceLen(dst), e.sliceLen(src)
		n := ite(le(dn, sn), dn, sn)
		d, ok := dst.(*SliceV)
		if !ok {
			return []Value{linInt(0)}
		}
		if e.isByteSlice(dst, nil) {
			data := e.bytesOf(src)
			out := e.splitCall([]Value{n}, 1, func(ns []Value) []Value {
				part := ropeSliceU(data, linInt(0), ns[0], e.st.pc)
				e.writeBytes(d.obj, d.path, d.off, ropeOf(part))
				return []Value{ns[0]}
			})
			return out
		}
		es, ok1 := e.elems(dst)
		fs, ok2 := e.elems(src)
		if !ok1 || !ok2 {
			e.setPath(d.obj, d.path, unknown("copy of %s", show(src)))
			return []Value{n}
		}
		off, _ := constInt(d.off)
		arr := e.loadPath(d.obj, d.path).(*Agg)
		ne := append([]Value(nil), arr.es...)
		k := min(len(es), len(fs))
		for i := 0; i < k; i++ {
			ne[off+i] = fs[i]
		}
		e.setPath(d.obj, d.path, mkAgg("array", ne))
		return []Value{linInt(int64(k))}
	})
	return rs[0]
}

var _ = big.NewInt

var byteSlice = types.NewSlice(types.Typ[types.Uint8])
