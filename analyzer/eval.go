package main

// Confirmation of a mismatch between two value expressions.
//
// Different value numbers do not by themselves mean different values: the normal
// form is not complete. A mismatch is only reported when some assignment to the
// atoms (the analysis' inputs) that satisfies the path condition makes the two
// expressions differ. Uninterpreted functions (digests, key derivation,
// signatures) are given arbitrary but functionally consistent values, which is
// exactly their meaning in the analysis. No code of the repository is run.

import (
	"bytes"
	"crypto/aes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"math/big"
	"math/rand"
	"sort"
	"strings"
)

type noEval struct{ why string }

type valuation struct {
	rng   *rand.Rand
	salt  uint64
	memo  map[int]any
	fixed map[int]any // App id -> forced value
	hints map[int][]*big.Int
	bits  map[int][]bitFix // App id -> forced bits
	steps int
	// atoms with forced values or bits, by function, for functional consistency
	forced map[string][]*App
	busy   map[int]bool
}

type bitFix struct {
	lo, w int
	x     *big.Int
}

// free atoms may take any value of their range.
func freeAtom(a *App) bool {
	return len(a.args) == 0 || arbitrary[a.fn] || a.fn == "widx" ||
		strings.HasPrefix(a.fn, "len:") && arbitrary[a.fn[4:]]
}

func (v *valuation) overlay(a *App, x *big.Int) *big.Int {
	for _, f := range v.bits[a.id] {
		y := new(big.Int).Rsh(x, uint(f.lo))
		y.Mod(y, pow2(f.w))
		y.Sub(f.x, y)
		x = new(big.Int).Add(x, y.Lsh(y, uint(f.lo)))
	}
	return x
}

func (v *valuation) fail(format string, a ...any) { panic(noEval{fmt.Sprintf(format, a...)}) }

func (v *valuation) hash(parts ...[]byte) []byte {
	h := sha256.New()
	binary.Write(h, binary.BigEndian, v.salt)
	for _, p := range parts {
		binary.Write(h, binary.BigEndian, uint64(len(p)))
		h.Write(p)
	}
	return h.Sum(nil)
}

func (v *valuation) stream(seed []byte, n int) []byte {
	out := make([]byte, 0, n+32)
	for i := 0; len(out) < n; i++ {
		var c [4]byte
		binary.BigEndian.PutUint32(c[:], uint32(i))
		s := sha256.Sum256(append(append([]byte(nil), seed...), c[:]...))
		out = append(out, s[:]...)
	}
	return out[:n]
}

func (v *valuation) int(x Value) *big.Int {
	r := v.eval(x)
	i, ok := r.(*big.Int)
	if !ok {
		v.fail("not an integer: %s", show(x))
	}
	return i
}

func (v *valuation) small(x Value) int {
	i := v.int(x)
	if !i.IsInt64() || i.Sign() < 0 || i.Int64() > 80<<20 {
		v.fail("length %s", i)
	}
	return int(i.Int64())
}

func (v *valuation) bytes(x Value) []byte {
	r := v.eval(x)
	b, ok := r.([]byte)
	if !ok {
		v.fail("not bytes: %s", show(x))
	}
	return b
}

func (v *valuation) bool(x Value) bool {
	r := v.eval(x)
	b, ok := r.(bool)
	if !ok {
		v.fail("not a condition: %s", show(x))
	}
	return b
}

// enc is a canonical encoding of an evaluated value.
func enc(r any) []byte {
	switch r := r.(type) {
	case *big.Int:
		return []byte("i" + r.Text(62))
	case []byte:
		if len(r) > 4096 {
			s := sha256.Sum256(r)
			return append([]byte(fmt.Sprintf("B%d:", len(r))), s[:]...)
		}
		return append([]byte("b"), r...)
	case bool:
		return []byte(fmt.Sprint(r))
	case string:
		return []byte("s" + r)
	}
	return []byte(fmt.Sprintf("?%v", r))
}

// longRope stands for a byte string too long to build: its length and both ends. Equal
// strings have equal stand-ins; strings that differ elsewhere only are not told apart.
func (v *valuation) longRope(r *Rope) []byte {
	const k = 1 << 13
	long := false
	for _, p := range r.ps {
		if p.kind == "cyc" && v.int(p.n).Cmp(big.NewInt(1<<20)) > 0 {
			long = true
		}
	}
	if !long {
		return nil
	}
	total := new(big.Int)
	var head, tail []byte
	for _, p := range r.ps {
		var h, t []byte
		if p.kind == "cyc" && v.int(p.n).Cmp(big.NewInt(1<<20)) > 0 {
			b, n := v.bytes(p.v), v.int(p.n)
			if len(b) == 0 {
				v.fail("cycle of nothing")
			}
			total.Add(total, n)
			for len(h) < k {
				h = append(h, b...)
			}
			h = h[:k]
			o := int(new(big.Int).Mod(new(big.Int).Sub(n, big.NewInt(k)), big.NewInt(int64(len(b)))).Int64())
			for i := 0; i < k; i++ {
				t = append(t, b[(o+i)%len(b)])
			}
		} else {
			h = v.rope(mkRope([]Piece{p}))
			t = h
			total.Add(total, big.NewInt(int64(len(h))))
		}
		if len(head) < k {
			head = append(head, h...)
		}
		tail = append(tail, t...)
		if len(tail) > k {
			tail = tail[len(tail)-k:]
		}
	}
	if len(head) > k {
		head = head[:k]
	}
	return append([]byte("long:"+total.String()+":"), append(head, tail...)...)
}

func (v *valuation) encAll(args []Value) []byte {
	var buf bytes.Buffer
	for _, a := range args {
		var e []byte
		if r, ok := a.(*Rope); ok {
			e = v.longRope(r)
		}
		if e == nil {
			e = enc(v.eval(a))
		}
		binary.Write(&buf, binary.BigEndian, uint32(len(e)))
		buf.Write(e)
	}
	return buf.Bytes()
}

func (v *valuation) eval(x Value) any {
	if x == nil {
		return "none"
	}
	if r, ok := v.memo[x.ID()]; ok {
		return r
	}
	v.steps++
	if v.steps > 400000 {
		v.fail("expression too large")
	}
	r := v.eval1(x)
	v.memo[x.ID()] = r
	return r
}

func (v *valuation) eval1(x Value) any {
	switch x := x.(type) {
	case *Lin:
		s := new(big.Int).Set(x.c)
		for _, t := range x.ts {
			s.Add(s, new(big.Int).Mul(t.c, v.int(t.a)))
		}
		return s
	case *Leaf:
		return x.b
	case *Node:
		if v.lit(x.v) {
			return v.eval(x.hi)
		}
		return v.eval(x.lo)
	case *Rope:
		return v.rope(x)
	case *App:
		return v.app(x)
	case *NilV:
		return "nil"
	case *Agg:
		return "agg" + string(v.encAll(x.es))
	case *Iface:
		return "if:" + typeKey(x.typ) + ":" + string(enc(v.eval(x.v)))
	case *Native:
		return "nat:" + x.kind + ":" + string(v.encAll(x.fs))
	case *TimeV:
		return "t" + v.int(x.ns).String()
	case *FloatV:
		return "f" + new(big.Rat).SetFrac(v.int(x.num), big.NewInt(x.den)).String()
	case *Ptr:
		return fmt.Sprintf("ptr:%d:%v", x.obj.num, x.path)
	}
	v.fail("cannot evaluate %s", show(x))
	return nil
}

func (v *valuation) lit(b *BVar) bool {
	switch b.kind {
	case vLin:
		return v.int(b.core).Cmp(b.bound) <= 0
	case vEnum:
		return bytes.Equal(enc(v.eval(b.core)), enc(v.eval(b.cst)))
	}
	return v.bool(b.core)
}

func (v *valuation) rope(r *Rope) []byte {
	var out []byte
	for _, p := range r.ps {
		switch p.kind {
		case "fix":
			n, _ := p.fixN()
			i := v.int(p.v)
			if i.Sign() < 0 || i.BitLen() > 8*n {
				v.fail("chunk out of range")
			}
			out = append(out, i.FillBytes(make([]byte, n))...)
		case "sub":
			b := v.bytes(p.a)
			o, n := v.small(p.off), v.small(p.n)
			if o+n > len(b) {
				v.fail("substring out of range")
			}
			out = append(out, b[o:o+n]...)
		case "zeros":
			out = append(out, make([]byte, v.small(p.n))...)
		case "min":
			i := v.int(p.v)
			if i.Sign() < 0 {
				v.fail("negative")
			}
			out = append(out, i.Bytes()...)
		case "cyc":
			b, n := v.bytes(p.v), v.small(p.n)
			if n > 0 && len(b) == 0 {
				v.fail("cycle of nothing")
			}
			for n > 0 {
				k := min(n, len(b))
				out = append(out, b[:k]...)
				n -= k
			}
		case "gate":
			out = append(out, v.bytes(p.v)...)
		default:
			v.fail("piece %s", p.kind)
		}
	}
	return out
}

// interpreted reports functions whose meaning the evaluator knows or which are
// genuinely arbitrary (inputs and cryptographic primitives).
var arbitrary = map[string]bool{
	"f2i-overflow": true, "math/rand": true, "shortread": true,
	"argon2id": true, "argon2i": true, "hkdf": true, "edpub": true, "edsign": true, "x25519": true,
	"sha1": true, "sha256": true, "sha224": true, "sha384": true, "sha512": true, "md5": true,
	"hmac-sha1": true, "hmac-sha256": true, "hmac-sha512": true,
	"random": true, "randint": true, "randfail": true, "armor": true,
	"aes-CFBEncrypter": true, "aes-CFBDecrypter": true, "aes-CTR": true, "aes-OFB": true,
	"now-offset": true, "now-ns": true, "exists": true, "openfail": true, "writefail": true, "closefail": true,
	"readerr": true, "readfail": true, "syncfail": true, "chmodfail": true, "removefail": true, "renamefail": true, "statfail": true,
	"notuint": true, "parseuint": true, "selected": true, "filecontent": true, "partialwrite": true, "nwritten": true,
	"partialread": true, "nread": true, "now": true, "since": true, "loworder": true,
	"completion": true, "completion2": true, "exactword": true,
}

func wordBytes(i int64) []byte { return []byte(fmt.Sprintf("word%04d", i)) }

func unword(b []byte) (int64, bool) {
	var i int64
	if n, _ := fmt.Sscanf(string(b), "word%04d", &i); n == 1 && string(wordBytes(i)) == string(b) && i >= 0 && i < 4096 {
		return i, true
	}
	return 0, false
}

func (v *valuation) pick(a *App, seed []byte) *big.Int {
	lo, hi := a.lo, a.hi
	r := rand.New(rand.NewSource(int64(binary.BigEndian.Uint64(seed))))
	if hs := v.hints[a.id]; len(hs) > 0 && r.Intn(3) > 0 {
		h := new(big.Int).Add(hs[r.Intn(len(hs))], big.NewInt(int64(r.Intn(3)-1)))
		if (!strings.HasPrefix(a.fn, "len") || h.Cmp(big.NewInt(1<<20)) < 0) && (lo == nil || h.Cmp(lo) >= 0) && (hi == nil || h.Cmp(hi) <= 0) {
			return h
		}
	}
	if strings.HasPrefix(a.fn, "len") {
		m := int64(70)
		l := int64(0)
		if lo != nil && lo.IsInt64() {
			l = lo.Int64()
		}
		if hi != nil && hi.IsInt64() && hi.Int64() < m {
			m = hi.Int64()
		}
		if m < l {
			m = l
		}
		return big.NewInt(l + r.Int63n(m-l+1))
	}
	if lo == nil && hi == nil {
		x := new(big.Int).Rand(r, pow2(1+r.Intn(70)))
		if r.Intn(4) == 0 {
			x.Neg(x)
		}
		return x
	}
	if lo == nil {
		return new(big.Int).Sub(hi, new(big.Int).Rand(r, pow2(1+r.Intn(70))))
	}
	if hi == nil {
		return new(big.Int).Add(lo, new(big.Int).Rand(r, pow2(1+r.Intn(70))))
	}
	span := new(big.Int).Sub(hi, lo)
	span.Add(span, one)
	switch r.Intn(8) {
	case 0:
		return lo
	case 1:
		return hi
	}
	return new(big.Int).Add(lo, new(big.Int).Rand(r, span))
}

// alias finds a forced application of the same function to the same argument values.
func (v *valuation) alias(a *App) *App {
	if len(a.args) == 0 || len(v.forced[a.fn]) == 0 || v.busy[a.id] {
		return nil
	}
	v.busy[a.id] = true
	defer delete(v.busy, a.id)
	var mine []byte
	for _, f := range v.forced[a.fn] {
		if f == a || f.id == a.id || v.busy[f.id] {
			continue
		}
		if mine == nil {
			mine = v.encAll(a.args)
		}
		if string(v.encAll(f.args)) == string(mine) {
			return f
		}
	}
	return nil
}

func (v *valuation) forceInt(a *App, x *big.Int) {
	v.fixed[a.id] = x
	v.forced[a.fn] = append(v.forced[a.fn], a)
}

func (v *valuation) app(a *App) any {
	if strings.Contains(a.fn, "·") {
		v.fail("value abstracted by a loop")
	}
	if _, ok := v.fixed[a.id]; !ok && len(v.bits[a.id]) == 0 {
		if f := v.alias(a); f != nil {
			return v.eval(f)
		}
	}
	if f, ok := v.fixed[a.id]; ok {
		if x, ok := f.(*big.Int); ok {
			return v.overlay(a, x)
		}
		return f
	}
	arg := func(i int) *big.Int { return v.int(a.args[i]) }
	switch a.fn {
	case "seg":
		lo, w := uint(arg(1).Int64()), uint(arg(2).Int64())
		x := new(big.Int).Rsh(arg(0), lo)
		return x.Mod(x, pow2(int(w)))
	case "fdiv":
		return floorDivB(arg(0), arg(1))
	case "bitlen", "bitlenabs":
		return big.NewInt(int64(arg(0).BitLen()))
	case "mul":
		return new(big.Int).Mul(arg(0), arg(1))
	case "quo", "rem", "div", "mod":
		x, y := arg(0), arg(1)
		if y.Sign() == 0 {
			v.fail("division by zero")
		}
		switch a.fn {
		case "quo":
			return new(big.Int).Quo(x, y)
		case "rem":
			return new(big.Int).Rem(x, y)
		case "div":
			return new(big.Int).Div(x, y)
		}
		return new(big.Int).Mod(x, y)
	case "shl":
		return new(big.Int).Lsh(arg(0), uint(v.small(a.args[1])))
	case "shr":
		return new(big.Int).Rsh(arg(0), uint(v.small(a.args[1])))
	case "and":
		return new(big.Int).And(arg(0), arg(1))
	case "or":
		return new(big.Int).Or(arg(0), arg(1))
	case "xor":
		return new(big.Int).Xor(arg(0), arg(1))
	case "andnot":
		return new(big.Int).AndNot(arg(0), arg(1))
	case "bit":
		return big.NewInt(int64(arg(0).Bit(v.small(a.args[1]))))
	case "beint", "beuint":
		return new(big.Int).SetBytes(v.bytes(a.args[0]))
	case "byteof", "byteat":
		b := v.bytes(a.args[0])
		i := 0
		if a.fn == "byteat" {
			i = v.small(a.args[1])
		}
		if i >= len(b) {
			v.fail("byte out of range")
		}
		return big.NewInt(int64(b[i]))
	case "bytesum":
		s := int64(0)
		for _, c := range v.bytes(a.args[0]) {
			s += int64(c)
		}
		return big.NewInt(s)
	case "crc32ieee":
		return new(big.Int).SetUint64(uint64(crc32.ChecksumIEEE(v.bytes(a.args[0]))))
	case "word":
		return wordBytes(arg(0).Int64())
	case "len:word":
		return big.NewInt(int64(len(wordBytes(arg(0).Int64()))))
	case "widx":
		if i, ok := unword(v.bytes(a.args[0])); ok {
			return big.NewInt(i)
		}
		return v.overlay(a, new(big.Int).SetUint64(binary.BigEndian.Uint64(v.hash([]byte("widx"), v.bytes(a.args[0])))%4096))
	case "inlist":
		b := v.bytes(a.args[0])
		if _, ok := unword(b); ok {
			return true
		}
		return len(b) > 0 && v.hash([]byte("inlist"), b)[0]%8 != 0
	case "streq", "eq":
		return bytes.Equal(enc(v.eval(a.args[0])), enc(v.eval(a.args[1])))
	case "tolower":
		return bytes.ToLower(v.bytes(a.args[0]))
	case "len:tolower":
		return big.NewInt(int64(len(bytes.ToLower(v.bytes(a.args[0])))))
	case "trimspace":
		return bytes.TrimSpace(v.bytes(a.args[0]))
	case "len:trimspace":
		return big.NewInt(int64(len(bytes.TrimSpace(v.bytes(a.args[0])))))
	case "substr":
		b := v.bytes(a.args[0])
		o, n := v.small(a.args[1]), v.small(a.n)
		if o+n > len(b) {
			v.fail("substring out of range")
		}
		return b[o : o+n]
	case "len:substr":
		v.fail("length of substring")
	case "aesenc", "aesdec":
		k := sha256.Sum256(v.bytes(a.args[0]))
		c, _ := aes.NewCipher(k[:])
		in, out := v.bytes(a.args[1]), make([]byte, 16)
		if len(in) != 16 {
			v.fail("block size")
		}
		if a.fn == "aesenc" {
			c.Encrypt(out, in)
		} else {
			c.Decrypt(out, in)
		}
		return out
	case "decimal", "dec":
		return []byte(arg(0).String())
	case "len:decimal", "len:dec":
		return big.NewInt(int64(len(arg(0).String())))
	}
	if f := evalFuncs[strings.TrimPrefix(a.fn, "len:")]; f != nil {
		r := f(v, a)
		if strings.HasPrefix(a.fn, "len:") {
			return big.NewInt(int64(len(r.([]byte))))
		}
		return r
	}
	if strings.Contains(a.fn, "global:") {
		v.fail("variable of another module")
	}
	base := strings.TrimPrefix(a.fn, "len:")
	if len(a.args) > 0 && !arbitrary[base] {
		v.fail("unmodelled function %s", a.fn)
	}
	if strings.HasPrefix(a.fn, "undecided") || a.fn == "unknownbytes" {
		v.fail("undecided value")
	}
	seed := v.hash([]byte(a.fn), v.encAll(a.args))
	switch a.sort {
	case SBytes:
		n := v.small(a.n)
		return v.stream(seed, n)
	case SBool:
		return seed[0]%3 == 0
	case SInt:
		return v.overlay(a, v.pick(a, seed))
	}
	return "o" + string(seed)
}

// evalFuncs interprets further pure functions.
var evalFuncs map[string]func(v *valuation, a *App) any

func init() {
	evalFuncs = map[string]func(v *valuation, a *App) any{
		"call:strings.ToUpper": func(v *valuation, a *App) any { return bytes.ToUpper(v.bytes(a.args[0])) },
		"call:strings.Title":   func(v *valuation, a *App) any { return bytes.Title(v.bytes(a.args[0])) },
		"call:strings.TrimSuffix": func(v *valuation, a *App) any {
			return bytes.TrimSuffix(v.bytes(a.args[0]), v.bytes(a.args[1]))
		},
		"call:strings.TrimPrefix": func(v *valuation, a *App) any {
			return bytes.TrimPrefix(v.bytes(a.args[0]), v.bytes(a.args[1]))
		},
		"call:strings.Trim": func(v *valuation, a *App) any {
			return bytes.Trim(v.bytes(a.args[0]), string(v.bytes(a.args[1])))
		},
		"call:strings.TrimRight": func(v *valuation, a *App) any {
			return bytes.TrimRight(v.bytes(a.args[0]), string(v.bytes(a.args[1])))
		},
		"call:strings.TrimLeft": func(v *valuation, a *App) any {
			return bytes.TrimLeft(v.bytes(a.args[0]), string(v.bytes(a.args[1])))
		},
		"call:strings.ReplaceAll": func(v *valuation, a *App) any {
			return bytes.ReplaceAll(v.bytes(a.args[0]), v.bytes(a.args[1]), v.bytes(a.args[2]))
		},
		"call:strings.Contains":  func(v *valuation, a *App) any { return bytes.Contains(v.bytes(a.args[0]), v.bytes(a.args[1])) },
		"call:strings.HasPrefix": func(v *valuation, a *App) any { return bytes.HasPrefix(v.bytes(a.args[0]), v.bytes(a.args[1])) },
		"call:strings.HasSuffix": func(v *valuation, a *App) any { return bytes.HasSuffix(v.bytes(a.args[0]), v.bytes(a.args[1])) },
		"call:strings.Index": func(v *valuation, a *App) any {
			return big.NewInt(int64(bytes.Index(v.bytes(a.args[0]), v.bytes(a.args[1]))))
		},
		"call:strings.ContainsRune": func(v *valuation, a *App) any {
			return bytes.ContainsRune(v.bytes(a.args[0]), rune(v.int(a.args[1]).Int64()))
		},
		"call:strings.ContainsAny": func(v *valuation, a *App) any {
			return bytes.ContainsAny(v.bytes(a.args[0]), string(v.bytes(a.args[1])))
		},
	}
}

// hintsFor collects, for each plain input atom, the thresholds it is compared with.
func hintsFor(vs ...Value) map[int][]*big.Int {
	out := map[int][]*big.Int{}
	seen := map[*BVar]bool{}
	visited := map[int]bool{}
	var rec func(Value)
	rec = func(x Value) {
		if x == nil || visited[x.ID()] {
			return
		}
		visited[x.ID()] = true
		list := func(xs []Value) {
			for _, y := range xs {
				rec(y)
			}
		}
		switch x := x.(type) {
		case *Node:
			if !seen[x.v] {
				seen[x.v] = true
				if l, ok := x.v.core.(*Lin); ok && x.v.kind == vLin && len(l.ts) == 1 && l.ts[0].c.Sign() > 0 {
					t := l.ts[0]
					q := floorDivB(new(big.Int).Sub(x.v.bound, l.c), t.c)
					if t.a.fn == "fdiv" {
						if il, ok := t.a.args[0].(*Lin); ok && len(il.ts) == 1 {
							d := t.a.args[1].(*Lin).c
							for k := int64(0); k < 2; k++ {
								w := new(big.Int).Mul(new(big.Int).Add(q, big.NewInt(k)), d)
								w.Sub(w, il.c)
								out[il.ts[0].a.id] = append(out[il.ts[0].a.id], floorDivB(w, il.ts[0].c))
							}
						}
					} else {
						out[t.a.id] = append(out[t.a.id], q, new(big.Int).Add(q, one))
					}
				}
				rec(x.v.core)
			}
			rec(x.hi)
			rec(x.lo)
		case *Lin:
			for _, t := range x.ts {
				rec(t.a)
			}
		case *App:
			list(x.args)
			rec(x.n)
		case *Rope:
			for _, p := range x.ps {
				rec(p.n)
				rec(p.v)
				if p.a != nil {
					rec(p.a)
				}
			}
		case *Agg:
			list(x.es)
		case *Iface:
			rec(x.v)
		case *Native:
			list(x.fs)
		case *TimeV:
			rec(x.ns)
		}
	}
	for _, x := range vs {
		rec(x)
	}
	return out
}

// force derives values of atoms from a cube: booleans directly, integers over a
// single atom by range.
func (v *valuation) force(cube []Lit) {
	type rg struct {
		a      *App
		lo, hi *big.Int
	}
	rs := map[int]*rg{}
	for _, l := range cube {
		switch l.v.kind {
		case vOpaque:
			if a, ok := l.v.core.(*App); ok {
				v.fixed[a.id] = l.pos
				v.forced[a.fn] = append(v.forced[a.fn], a)
			}
		case vEnum:
			if r, ok := l.v.core.(*Rope); ok && l.pos && len(r.ps) == 1 && r.ps[0].kind == "sub" && len(r.ps[0].a.args) == 0 && r.ps[0].n == r.ps[0].a.n {
				if c, ok := ropeConstStr(l.v.cst.(*Rope)); ok {
					v.fixed[r.ps[0].a.id] = []byte(c)
					if nl, ok := r.ps[0].a.n.(*Lin); ok && len(nl.ts) == 1 {
						v.fixed[nl.ts[0].a.id] = big.NewInt(int64(len(c)))
					}
				}
			}
		case vLin:
			c, ok := l.v.core.(*Lin)
			if !ok || len(c.ts) != 1 {
				continue
			}
			a := c.ts[0].a
			b := new(big.Int).Sub(l.v.bound, c.c)
			k := c.ts[0].c
			// outer linear function of an inner one-atom expression
			for a.fn == "fdiv" {
				il, ok := a.args[0].(*Lin)
				if !ok || len(il.ts) != 1 || k.Cmp(one) != 0 {
					break
				}
				d := a.args[1].(*Lin).c
				// floor(x/d) <= b  <=>  x <= b*d + d-1
				b = new(big.Int).Mul(new(big.Int).Add(b, one), d)
				b.Sub(b, one)
				b.Sub(b, il.c)
				k = il.ts[0].c
				a = il.ts[0].a
			}
			if k.Sign() <= 0 {
				continue
			}
			if b, _, _, ok := segParts(a); ok {
				if bl, ok := b.(*Lin); !ok || len(bl.ts) != 1 || bl.c.Sign() != 0 || bl.ts[0].c.Cmp(one) != 0 || !freeAtom(bl.ts[0].a) {
					continue
				}
			} else if !freeAtom(a) {
				continue
			}
			r := rs[a.id]
			if r == nil {
				r = &rg{a, a.lo, a.hi}
				rs[a.id] = r
			}
			q := floorDivB(b, k)
			if l.pos {
				r.hi = minB2(r.hi, q)
			} else {
				r.lo = maxB2(r.lo, new(big.Int).Add(q, one))
			}
		}
	}
	var ks []int
	for k := range rs {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		r := rs[k]
		if r.lo != nil && r.hi != nil && r.lo.Cmp(r.hi) > 0 {
			continue
		}
		t := &App{fn: r.a.fn, lo: r.lo, hi: r.hi}
		t.id = r.a.id
		if _, done := v.fixed[k]; !done {
			var seed [8]byte
			binary.BigEndian.PutUint64(seed[:], v.rng.Uint64())
			x := v.pick(t, seed[:])
			if b, lo, w, ok := segParts(r.a); ok {
				ba := b.(*Lin).ts[0].a
				v.bits[ba.id] = append(v.bits[ba.id], bitFix{lo, w, x})
				v.forced[ba.fn] = append(v.forced[ba.fn], ba)
				continue
			}
			v.forceInt(r.a, x)
		}
	}
}

// repair adjusts inputs until the literals of the cube hold, if it can.
func (v *valuation) repair(cond Value, cube []Lit) bool {
	for round := 0; round < 12; round++ {
		done := true
		for _, l := range cube {
			if l.v.kind != vLin || v.lit(l.v) == l.pos {
				continue
			}
			done = false
			var lo, hi *big.Int
			if l.pos {
				hi = l.v.bound
			} else {
				lo = new(big.Int).Add(l.v.bound, one)
			}
			v.want(l.v.core, lo, hi, 0)
			v.memo = map[int]any{}
		}
		if v.bool(cond) {
			return true
		}
		if done {
			return false
		}
	}
	return false
}

// want tries to bring an integer expression into a range by changing one input.
func (v *valuation) want(x Value, lo, hi *big.Int, depth int) {
	if depth > 8 {
		return
	}
	target := func() *big.Int {
		small := big.NewInt(int64(v.rng.Intn(20)))
		switch {
		case lo == nil && hi == nil:
			return new(big.Int)
		case lo == nil:
			return new(big.Int).Sub(hi, small)
		case hi == nil:
			return new(big.Int).Add(lo, small)
		}
		span := new(big.Int).Sub(hi, lo)
		if span.Sign() < 0 {
			return lo
		}
		switch v.rng.Intn(4) {
		case 0:
			return lo
		case 1:
			return hi
		}
		return new(big.Int).Add(lo, new(big.Int).Rand(v.rng, span.Add(span, one)))
	}
	switch x := x.(type) {
	case *Lin:
		if len(x.ts) == 0 {
			return
		}
		t := x.ts[v.rng.Intn(len(x.ts))]
		rest := new(big.Int).Sub(v.int(x), new(big.Int).Mul(t.c, v.int(t.a)))
		var l, h *big.Int
		if lo != nil {
			l = new(big.Int).Sub(lo, rest)
		}
		if hi != nil {
			h = new(big.Int).Sub(hi, rest)
		}
		k := t.c
		if k.Sign() < 0 {
			k = new(big.Int).Neg(k)
			if l != nil {
				l = new(big.Int).Neg(l)
			}
			if h != nil {
				h = new(big.Int).Neg(h)
			}
			l, h = h, l
		}
		if l != nil {
			l = new(big.Int).Neg(floorDivB(new(big.Int).Neg(l), k))
		}
		if h != nil {
			h = floorDivB(h, k)
		}
		v.want(t.a, l, h, depth+1)
	case *App:
		if b, slo, w, ok := segParts(x); ok {
			if lo == nil || lo.Sign() < 0 {
				lo = new(big.Int)
			}
			if m := new(big.Int).Sub(pow2(w), one); hi == nil || hi.Cmp(m) > 0 {
				hi = m
			}
			if lo.Cmp(hi) > 0 {
				return
			}
			cur := v.int(b)
			f := new(big.Int).Rsh(cur, uint(slo))
			f.Mod(f, pow2(w))
			f.Sub(target(), f)
			y := new(big.Int).Add(cur, f.Lsh(f, uint(slo)))
			v.want(b, y, y, depth+1)
			return
		}
		switch x.fn {
		case "fdiv":
			d := v.int(x.args[1])
			if d.Sign() <= 0 {
				return
			}
			if lo != nil {
				lo = new(big.Int).Mul(lo, d)
			}
			if hi != nil {
				hi = new(big.Int).Mul(hi, d)
				hi.Add(hi, d).Sub(hi, one)
			}
			v.want(x.args[0], lo, hi, depth+1)
			return
		case "bitlen", "bitlenabs":
			n := target()
			if n.Sign() < 0 || n.Cmp(big.NewInt(4096)) > 0 {
				return
			}
			if n.Sign() == 0 {
				v.want(x.args[0], new(big.Int), new(big.Int), depth+1)
				return
			}
			v.want(x.args[0], pow2(int(n.Int64())-1), new(big.Int).Sub(pow2(int(n.Int64())), one), depth+1)
			return
		case "beint":
			s, ok := x.args[0].(*App)
			if !ok || !freeAtom(s) {
				return
			}
			n := v.small(s.n)
			if t := target(); t.Sign() >= 0 && t.BitLen() <= 8*n {
				v.fixed[s.id] = t.FillBytes(make([]byte, n))
				v.forced[s.fn] = append(v.forced[s.fn], s)
			}
			return
		}
		if !freeAtom(x) {
			return
		}
		if x.lo != nil && (lo == nil || lo.Cmp(x.lo) < 0) {
			lo = x.lo
		}
		if x.hi != nil && (hi == nil || hi.Cmp(x.hi) > 0) {
			hi = x.hi
		}
		t := target()
		if strings.HasPrefix(x.fn, "len") && t.Cmp(big.NewInt(1<<21)) > 0 {
			return
		}
		delete(v.bits, x.id)
		v.forceInt(x, t)
	}
}

func minB2(a, b *big.Int) *big.Int {
	if a == nil || b.Cmp(a) < 0 {
		return b
	}
	return a
}
func maxB2(a, b *big.Int) *big.Int {
	if a == nil || b.Cmp(a) > 0 {
		return b
	}
	return a
}

// randomCube walks a random path of the diagram to true.
func randomCube(c Value, rng *rand.Rand) ([]Lit, bool) {
	memo := map[int]float64{}
	var count func(Value) float64
	count = func(c Value) float64 {
		if c == bTrue {
			return 1
		}
		if c == bFalse {
			return 0
		}
		if r, ok := memo[c.ID()]; ok {
			return r
		}
		n := c.(*Node)
		r := count(n.hi) + count(n.lo)
		memo[c.ID()] = r
		return r
	}
	var out []Lit
	for c != bTrue {
		n, ok := c.(*Node)
		if !ok {
			return nil, false
		}
		h, l := count(n.hi), count(n.lo)
		if h+l == 0 {
			return nil, false
		}
		// mostly by weight, sometimes evenly, so that rare paths are visited too
		p := h / (h + l)
		if h > 0 && l > 0 && rng.Intn(2) == 0 {
			p = 0.5
		}
		if rng.Float64() < p {
			out = append(out, Lit{n.v, true})
			c = n.hi
		} else {
			out = append(out, Lit{n.v, false})
			c = n.lo
		}
	}
	return out, true
}

const witnessTries = 600

// findWitness looks for an assignment under which cond holds and differ reports a
// difference. The second result tells why evaluation was impossible, if it was.
func findWitness(cond Value, vals []Value, differ func(v *valuation) string) (string, string) {
	hints := hintsFor(append([]Value{cond}, vals...)...)
	why := ""
	sat := 0
	for i := 0; i < witnessTries; i++ {
		v := &valuation{rng: rand.New(rand.NewSource(int64(i) + 1)), salt: uint64(i) + 1, memo: map[int]any{}, fixed: map[int]any{}, hints: hints, bits: map[int][]bitFix{}, forced: map[string][]*App{}, busy: map[int]bool{}}
		cube, ok := randomCube(cond, v.rng)
		if !ok {
			return "", "no path"
		}
		v.force(cube)
		res := func() (s string) {
			defer func() {
				if r := recover(); r != nil {
					if n, ok := r.(noEval); ok {
						why = n.why
						return
					}
					panic(r)
				}
			}()
			if !v.bool(cond) && !v.repair(cond, cube) {
				return ""
			}
			sat++
			d := differ(v)
			if d == "" {
				return ""
			}
			return d + v.inputs(vals, cond)
		}()
		if res != "" {
			return res, ""
		}
		if i > 60 && sat == 0 && why != "" {
			break
		}
	}
	debugf("NOWITNESS %s", showD(cond, 30))
	if why == "" {
		why = fmt.Sprintf("no distinguishing assignment among %d tried (%d satisfied the condition)", witnessTries, sat)
	}
	return "", why
}

// inputs describes the assignment of the plain inputs.
func (v *valuation) inputs(vals []Value, cond Value) string {
	var names []string
	seen := map[string]bool{}
	for _, x := range append(append([]Value(nil), vals...), cond) {
		for a := range appsIn(x) {
			if len(a.args) != 0 || seen[a.fn] {
				continue
			}
			if r, ok := v.memo[a.id]; ok {
				seen[a.fn] = true
				s := ""
				switch r := r.(type) {
				case *big.Int:
					s = r.String()
				case []byte:
					s = fmt.Sprintf("%d bytes", len(r))
				default:
					s = fmt.Sprint(r)
				}
				if len(s) > 40 {
					s = s[:40] + "…"
				}
				names = append(names, a.fn+"="+s)
			}
		}
	}
	sort.Strings(names)
	if len(names) > 12 {
		names = names[:12]
	}
	return " (e.g. for " + strings.Join(names, ", ") + ")"
}
