package main

// walk visits v and what it is built from; f returns false to stop descending.
func walk(v Value, f func(Value) bool) {
	seen := map[int]bool{}
	var rec func(Value)
	rec = func(v Value) {
		if v == nil || seen[v.ID()] {
			return
		}
		seen[v.ID()] = true
		if !f(v) {
			return
		}
		switch v := v.(type) {
		case *Lin:
			for _, t := range v.ts {
				rec(t.a)
			}
		case *App:
			for _, a := range v.args {
				rec(a)
			}
			if v.n != nil {
				rec(v.n)
			}
		case *Rope:
			for _, p := range v.ps {
				if p.n != nil {
					rec(p.n)
				}
				if p.v != nil {
					rec(p.v)
				}
				if p.a != nil {
					rec(p.a)
				}
				if p.off != nil {
					rec(p.off)
				}
			}
		case *Agg:
			for _, x := range v.es {
				rec(x)
			}
		case *Native:
			for _, x := range v.fs {
				rec(x)
			}
		case *Iface:
			rec(v.v)
		case *MapV:
			for _, x := range v.ks {
				rec(x)
			}
			for _, x := range v.vs {
				rec(x)
			}
		case *TimeV:
			rec(v.ns)
		case *Node:
			if v.v.core != nil {
				rec(v.v.core)
			}
			rec(v.hi)
			rec(v.lo)
		}
	}
	rec(v)
}

// wholeApp is the application a byte string consists of entirely, if it does.
func wholeApp(r *Rope, fn string) *App {
	if r == nil || len(r.ps) != 1 {
		return nil
	}
	p := r.ps[0]
	if p.kind == "sub" && p.a.fn == fn {
		return p.a
	}
	if l, ok := p.v.(*Lin); ok && p.kind == "fix" && len(l.ts) == 1 && l.c.Sign() == 0 && l.ts[0].c.Cmp(one) == 0 {
		a := l.ts[0].a
		if a.fn == "beint" {
			if b, ok := a.args[0].(*App); ok && b.fn == fn {
				return b
			}
		}
	}
	return nil
}

// bitSource is a range of bits of an application.
type bitSource struct {
	a     *App
	lo, w int
}

// sourcesOf lists which applications' bits a constant-length byte string shows; ok is
// false if it also shows something else.
func sourcesOf(r *Rope) (out []bitSource, ok bool) {
	for _, p := range r.ps {
		if p.kind != "fix" {
			return nil, false
		}
		l, isLin := p.v.(*Lin)
		if !isLin {
			return nil, false
		}
		fs, fine := bitsOf(l)
		if !fine {
			return nil, false
		}
		for _, f := range fs {
			if f.a == nil {
				return nil, false
			}
			a, lo := f.a, 0
			if b, slo, _, isSeg := segParts(a); isSeg {
				bl, k := b.(*Lin)
				if !k || len(bl.ts) != 1 || bl.c.Sign() != 0 {
					return nil, false
				}
				a, lo = bl.ts[0].a, slo
			}
			if a.fn == "beint" {
				if x, k := a.args[0].(*App); k {
					a = x
				}
			}
			out = append(out, bitSource{a, lo, f.w})
		}
	}
	return out, true
}
