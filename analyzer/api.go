package main

// The library's public interface, addressed by exported names only.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (p *Program) fn(pkg, name string) *ssa.Function {
	path := p.module
	if pkg != "" {
		path += "/" + pkg
	}
	sp := p.ssa[path]
	if sp == nil {
		panic(bail{"package " + path + " not found"})
	}
	f := sp.Func(name)
	if f == nil {
		panic(bail{"function " + path + "." + name + " not found"})
	}
	return f
}

func (p *Program) typ(pkg, name string) *types.Named {
	path := p.module
	if pkg != "" {
		path += "/" + pkg
	}
	sp := p.ssa[path]
	if sp != nil {
		if o := sp.Pkg.Scope().Lookup(name); o != nil {
			if n, ok := types.Unalias(o.Type()).(*types.Named); ok {
				return n
			}
		}
	}
	panic(bail{"type " + path + "." + name + " not found"})
}

// method finds an exported method of *T or T.
func (p *Program) method(pkg, typ, name string) *ssa.Function {
	n := p.typ(pkg, typ)
	for _, t := range []types.Type{n, types.NewPointer(n)} {
		if s := types.NewMethodSet(t).Lookup(nil, name); s != nil {
			return p.prog.MethodValue(s)
		}
	}
	panic(bail{fmt.Sprintf("method %s.%s not found", typ, name)})
}

// call analyses an exported function in the current state.
func (e *Engine) api(f *ssa.Function, args ...Value) []Value {
	return e.callValue(mkFunc(f, nil), args, nil)
}

var maxU32 = new(big.Int).Sub(pow2(32), one)

// mkBig allocates a *big.Int holding v.
func (e *Engine) mkBig(v Value) Value {
	o := newObj("big", nil)
	e.st.heap[o] = v
	return mkPtr(o)
}

// mkSeed builds a seed from an arbitrary 128-bit integer through the public constructor.
func (e *Engine) mkSeed(name string) Value {
	v := intAtom(name, zero, new(big.Int).Sub(pow2(128), one))
	r := e.api(e.p.fn("", "NewSeed"), linInt(0), e.mkBig(v))
	return r[0]
}

// strings lists the elements of a slice of known length.
func (e *Engine) strings(v Value) []Value {
	s, ok := v.(*SliceV)
	if !ok {
		return nil
	}
	n, ok := constInt(s.len)
	if !ok {
		return nil
	}
	off, _ := constInt(s.off)
	var out []Value
	for i := 0; i < n; i++ {
		out = append(out, e.loadPath(s.obj, append(append([]int(nil), s.path...), off+i)))
	}
	return out
}
