package main

// The library as a whole: panics, hidden state, aliasing, entropy, determinism.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

const effectRule = "interprocedural abstract interpretation of the SSA form of every public operation from arbitrary inputs; effects on the abstract heap, value flows from sources, panic conditions and error conditions are compared with what the property allows"

func init() {
	register("C05", &checkDef{level: "proof", rule: effectRule, assume: stdAssume, run: runC05,
		expl: "Every explicit panic, bounds check, nil dereference, division, shift and modelled library panic met on the way through each public operation is an obligation; loops must have a decided bound."})
	register("C06", &checkDef{level: "proof", rule: effectRule, assume: stdAssume, run: runC06,
		expl: "A value-flow walk over the words of an encrypted phrase must meet the seed only as the plaintext of AES under a key from Argon2id of the password and a fresh salt; the decoder must not hand out a seed without the password."})
	register("C08", &checkDef{level: "proof", rule: effectRule, assume: stdAssume, run: runC08,
		expl: "Keys made with two arbitrary sets of options from one seed are compared key by key; the derivation inputs of all keys are compared pairwise."})
	register("C09", &checkDef{level: "proof", rule: effectRule, assume: stdAssume, run: runC09,
		expl: "Outputs of deterministic operations must contain no value from a clock, random generator, environment, map iteration or scheduler, and two runs must have the same value number."})
	register("C12", &checkDef{level: "proof", rule: effectRule, assume: stdAssume, run: runC12,
		expl: "The exact condition under which an integer is accepted as seed, the values a seed shows, and where the bits of a generated seed come from."})
	register("C18", &checkDef{level: "proof", rule: effectRule, assume: stdAssume, run: runC18,
		expl: "The abstract heap before and after each public operation is compared: no object that existed before (package variables, key objects, seeds, decoded phrases) may have changed; results of repeated calls must be equal."})
	register("C19", &checkDef{level: "proof", rule: effectRule, assume: stdAssume, run: runC19,
		expl: "Inputs are compared before and after each public operation; then inputs and returned buffers are overwritten with arbitrary values and what the library shows afterwards is compared with what it showed before."})
	register("C20", &checkDef{level: "proof", rule: effectRule, assume: stdAssume, run: runC20,
		expl: "The condition under which each operation reports an error is compared with failure of the random source; a result is returned exactly when no error is."})
	register("C32", &checkDef{level: "proof", rule: effectRule, assume: stdAssume, run: runC32,
		expl: "Integer-to-index, index-to-word and inverse conversions analysed for arbitrary values at fixed sizes: acceptance conditions, digits and round trips."})
}

// ---------------------------------------------------------------------------
// public operations

type op struct {
	name string
	// setup prepares receivers and inputs; call performs the operation
	setup func(c *Ctx) (args []Value, call func() []Value)
	nerr  bool // last result is an error
}

func anyEra() *Lin { return intAtom("era", minI64, maxI64) }

func (c *Ctx) anyBig(name string) Value { return c.mkBig(intAtom(name, nil, nil)) }

func (c *Ctx) anyPassword(min int64) Value {
	p := ropeStr("password", nil)
	if c.r.pwLen > 0 {
		p = ropeStr("password", linInt(int64(c.r.pwLen)))
	} else {
		c.strLen(p, min, 1<<20)
	}
	if c.r.spare {
		return c.spareBytes(p)
	}
	return c.newBytes(p)
}

// spareBytes is a byte slice in a larger buffer of the caller.
func (c *Ctx) spareBytes(r *Rope) Value {
	o := newObj("bytes", nil)
	c.st.heap[o] = ropeCat(r, ropeStr("spare", linInt(40)))
	return mkSlice(o, nil, linInt(0), ropeLen(r), add(ropeLen(r), linInt(40)))
}

// callerList is a caller's list of subkey types with room to grow.
func (c *Ctx) callerList(list ...string) Value {
	return c.callerListCap(2, list...)
}

func (c *Ctx) callerListCap(room int, list ...string) Value {
	var es []Value
	for _, t := range list {
		es = append(es, ropeConst(t))
	}
	for i := 0; i < room; i++ {
		es = append(es, ropeConst("unused"))
	}
	s := c.newSliceOf(types.NewSlice(c.p.typ("", "SubkeyType")), es).(*SliceV)
	return mkSlice(s.obj, nil, linInt(0), linInt(int64(len(list))), linInt(int64(len(es))))
}

// phrase is an accepted phrase of n arbitrary words, decoded.
func (c *Ctx) decoded(n int) (Value, []Value) {
	ws := inputWords(n)
	d, err := c.decode(c.words(ws))
	c.ok(err)
	if c.st.pc == bFalse {
		panic(bail{"no phrase accepted"})
	}
	return c.norm(d), ws
}

func fnOp(pkg, name string, nerr bool, args func(c *Ctx) []Value) op {
	n := name
	if pkg != "" {
		n = pkg + "." + name
	}
	return op{n, func(c *Ctx) ([]Value, func() []Value) {
		as := args(c)
		return as, func() []Value { return c.api(c.p.fn(pkg, name), as...) }
	}, nerr}
}

func methOp(typ, name, label string, nerr bool, recv func(c *Ctx) Value, args func(c *Ctx) []Value) op {
	return op{typ + "." + name + label, func(c *Ctx) ([]Value, func() []Value) {
		as := []Value{recv(c)}
		if args != nil {
			as = append(as, args(c)...)
		}
		return as, func() []Value { return c.method(typ, name, as...) }
	}, nerr}
}

// ops lists the public operations with arbitrary arguments.
func ops(full bool) []op {
	var out []op
	seed := func(c *Ctx) Value { s, _ := c.seedIn(); return s }
	key := func(kc keyCtx) func(c *Ctx) Value {
		return func(c *Ctx) Value {
			k := c.newKey(kc)
			if k == nil {
				panic(bail{"no key"})
			}
			return k.mnk
		}
	}
	none := func(c *Ctx) []Value { return nil }
	out = append(out,
		fnOp("", "NewSeed", true, func(c *Ctx) []Value { return []Value{anyEra(), c.anyBig("n")} }),
		fnOp("", "GenerateSeed", true, func(c *Ctx) []Value { return []Value{c.stream("random")} }),
		methOp("Seed", "Era", "", false, seed, none), methOp("Seed", "Int", "", false, seed, none), methOp("Seed", "Bytes", "", false, seed, none),
		op{"New", func(c *Ctx) ([]Value, func() []Value) {
			s, _ := c.seedIn()
			name, email := ropeStr("name", nil), ropeStr("email", nil)
			c.strLen(name, 0, maxLen)
			c.strLen(email, 0, maxLen)
			o := c.keyOptions(map[string]Value{"Name": name, "Email": email, "TTL": intAtom("ttl", minI64, maxI64),
				"EncryptionSubkeyIndex": u16("encryption-index"), "AuthenticationSubkeyIndex": u16("authentication-index"), "SigningSubkeyIndex": u16("signing-index"),
				"Subkeys": c.callerList("signing", "encryption", "signing", "other")})
			as := []Value{s, mkTime(intAtom("creation", nil, nil)), o}
			return as, func() []Value { return c.api(c.p.fn("", "New"), as...) }
		}, true},
		fnOp("", "EncodeMnemonicPlaintext", true, func(c *Ctx) []Value { s, _ := c.seedIn(); return []Value{s, offsetIn()} }),
		fnOp("", "EncodeMnemonicEncrypted", true, func(c *Ctx) []Value {
			s, _ := c.seedIn()
			return []Value{s, offsetIn(), c.anyPassword(0), c.stream("random")}
		}),
		fnOp("", "ParseMnemonicVersion", true, func(c *Ctx) []Value { return []Value{ropeStr("w0", nil)} }),
		op{"RecoverPlaintext", func(c *Ctx) ([]Value, func() []Value) {
			as := []Value{c.words(inputWords(14)), c.keyOptions(map[string]Value{"TTL": intAtom("ttl", minI64, maxI64), "Name": ropeStr("name", nil), "Subkeys": c.callerList("signing", "signing", "authentication")})}
			return as, func() []Value { return c.api(c.p.fn("", "RecoverPlaintext"), as...) }
		}, true},
		op{"RecoverEncrypted", func(c *Ctx) ([]Value, func() []Value) {
			as := []Value{c.words(inputWords(16)), c.anyPassword(0), c.keyOptions(map[string]Value{"TTL": intAtom("ttl", minI64, maxI64), "Name": ropeStr("name", nil), "Subkeys": c.callerList("signing", "signing", "authentication")})}
			return as, func() []Value { return c.api(c.p.fn("", "RecoverEncrypted"), as...) }
		}, true},
	)
	for _, n := range []int{14, 16} {
		n := n
		out = append(out, op{fmt.Sprintf("DecodeMnemonic of %d words", n), func(c *Ctx) ([]Value, func() []Value) {
			as := []Value{c.words(inputWords(n))}
			return as, func() []Value { return c.api(c.p.fn("", "DecodeMnemonic"), as...) }
		}, true})
		rec := func(c *Ctx) Value { d, _ := c.decoded(n); return d }
		l := fmt.Sprintf(" of %d words", n)
		out = append(out,
			methOp("DecodedMnemonic", "Encrypted", l, false, rec, none), methOp("DecodedMnemonic", "Creation", l, false, rec, none),
			methOp("DecodedMnemonic", "CreationOffset", l, false, rec, none), methOp("DecodedMnemonic", "Seed", l, true, rec, none),
			methOp("DecodedMnemonic", "DecryptSeed", l, true, rec, func(c *Ctx) []Value { return []Value{c.anyPassword(0)} }))
	}
	kcs := []keyCtx{{ttl: "some"}}
	if full {
		kcs = append(kcs, keyCtx{ttl: "none", noName: true, noEml: true, subkeys: []string{"signing"}})
	}
	for i, kc := range kcs {
		k := key(kc)
		l := ""
		if i > 0 {
			l = " (bare key)"
		}
		for _, m := range []string{"CreatedAt", "Expiry", "UserID", "Fingerprint", "SubkeyTypes"} {
			out = append(out, methOp("Mnemonikey", m, l, false, k, none))
		}
		for _, t := range []string{"encryption", "authentication", "signing", "other"} {
			t := t
			out = append(out, methOp("Mnemonikey", "SubkeyFingerprint", " "+t+l, false, k, func(c *Ctx) []Value { return []Value{ropeConst(t)} }))
		}
		out = append(out, methOp("Mnemonikey", "EncodeMnemonicPlaintext", l, true, k, none),
			methOp("Mnemonikey", "EncodeMnemonicEncrypted", l, true, k, func(c *Ctx) []Value { return []Value{c.anyPassword(0), c.stream("random")} }))
		for _, pw := range []bool{false, true} {
			pwv := func(c *Ctx) Value {
				if pw {
					return c.anyPassword(1)
				}
				return nilV
			}
			pl := l
			if pw {
				pl += " under a password"
			}
			for _, m := range []string{"EncodePGP", "EncodePGPArmor"} {
				out = append(out, methOp("Mnemonikey", m, pl, true, k, func(c *Ctx) []Value { return []Value{pwv(c)} }))
			}
			for _, m := range []string{"EncodeSubkeysPGP", "EncodeSubkeysPGPArmor"} {
				for _, cert := range []bool{true, false} {
					cert := cert
					out = append(out, methOp("Mnemonikey", m, fmt.Sprintf("%s cert=%v", pl, cert), true, k, func(c *Ctx) []Value { return []Value{pwv(c), boolV(cert)} }))
				}
			}
		}
	}
	for _, n := range []int{0, 12, 132, 168} {
		n := n
		out = append(out, op{fmt.Sprintf("mnemonic.EncodeToIndices to %d bits", n), func(c *Ctx) ([]Value, func() []Value) {
			as := []Value{c.anyBig("n"), linInt(int64(n))}
			return as, func() []Value { return c.api(c.p.fn("mnemonic", "EncodeToIndices"), as...) }
		}, true})
	}
	for _, n := range []int{0, 1, 14} {
		n := n
		idx := func(c *Ctx) []Value {
			var es []Value
			for i := 0; i < n; i++ {
				es = append(es, u16(fmt.Sprintf("index%d", i)))
			}
			return []Value{c.newSliceOf(types.NewSlice(types.Typ[types.Uint16]), es)}
		}
		for _, f := range []string{"DecodeIndices", "EncodeToWords"} {
			o := fnOp("mnemonic", f, true, idx)
			o.name += fmt.Sprintf(" of %d", n)
			out = append(out, o)
		}
		o := fnOp("mnemonic", "DecodeWords", true, func(c *Ctx) []Value { return []Value{c.words(inputWords(n))} })
		o.name += fmt.Sprintf(" of %d", n)
		out = append(out, o)
	}
	byts := func(c *Ctx, name string, lo, hi int64) Value {
		r := ropeStr(name, nil)
		c.strLen(r, lo, hi)
		return c.newBytes(r)
	}
	out = append(out,
		fnOp("pgp", "EncodeMPI", false, func(c *Ctx) []Value {
			n := intAtom("mpi", zero, new(big.Int).Sub(pow2(512), one))
			return []Value{c.mkBig(n)}
		}),
		fnOp("pgp", "EncodePacket", false, func(c *Ctx) []Value {
			return []Value{intAtom("tag", zero, big.NewInt(63)), byts(c, "payload", 0, 1<<20)}
		}),
	)
	for _, n := range []int64{0, 1, 32, 64} {
		o := fnOp("pgp", "EncryptS2K", true, func(c *Ctx) []Value {
			return []Value{intAtom("hash", zero, big.NewInt(255)), c.newBytes(ropeStr("secret", linInt(n))), byts(c, "password", 0, 1<<20)}
		})
		o.name += fmt.Sprintf(" of %d bytes", n)
		out = append(out, o)
	}
	for _, f := range []string{"NewED25519MasterKey", "NewED25519Subkey", "NewCurve25519Subkey"} {
		f := f
		for _, n := range []int64{32, 31} {
			o := fnOp("pgp", f, true, func(c *Ctx) []Value {
				cr := mkTime(scale(intAtom("unix", zero, maxU32), nsec))
				as := []Value{byts(c, "keyseed", n, n), cr, mkTime(linConst(zeroTimeNs))}
				if f == "NewCurve25519Subkey" {
					as = append(as, nilV)
				}
				return as
			})
			o.name += fmt.Sprintf(" of %d bytes", n)
			out = append(out, o)
		}
	}
	return out
}

// ---------------------------------------------------------------------------

func (c *Ctx) bounded(desc string, before int) {
	for _, p := range c.runaway {
		c.certainly(p.pc, desc, "the loop at "+p.pos+" does not end", true)
	}
	if len(c.Engine.loops) > before {
		c.r.add("undecided", desc, "loops without decided bound: "+strings.Join(c.Engine.loops[before:], "; "), "")
	} else {
		c.r.add("proved", desc, "", "")
	}
}

func runC05(r *Run) {
	for _, o := range ops(true) {
		r.ctx(o.name, func(c *Ctx) {
			_, call := o.setup(c)
			c.panics = nil
			n := len(c.Engine.loops)
			call()
			c.noPanics("no panic")
			c.bounded("every loop is bounded", n)
		})
	}
	lens := []int{0, 1, 2, 13, 15, 17, 18}
	if r.tier == "thorough" {
		lens = nil
		for i := 0; i <= 40; i++ {
			lens = append(lens, i)
		}
	}
	for _, n := range lens {
		for _, f := range []string{"DecodeMnemonic", "RecoverPlaintext", "RecoverEncrypted"} {
			r.ctx(fmt.Sprintf("%s of %d words", f, n), func(c *Ctx) {
				as := []Value{c.words(inputWords(n))}
				switch f {
				case "RecoverPlaintext":
					as = append(as, nilV)
				case "RecoverEncrypted":
					as = append(as, c.anyPassword(0), nilV)
				}
				k := len(c.Engine.loops)
				c.api(c.p.fn("", f), as...)
				c.noPanics("no panic")
				c.bounded("every loop is bounded", k)
			})
		}
	}
	r.ctx("absent options", func(c *Ctx) {
		sd, _ := c.seedIn()
		k := len(c.Engine.loops)
		m := c.api(c.p.fn("", "New"), sd, mkTime(intAtom("creation", nil, nil)), nilV)
		c.noPanics("no panic")
		c.bounded("every loop is bounded", k)
		c.ok(m[1])
		if c.st.pc == bFalse {
			return
		}
		mk := c.norm(m[0])
		c.method("Mnemonikey", "EncodePGP", mk, nilV)
		c.method("Mnemonikey", "Expiry", mk)
		c.method("Mnemonikey", "UserID", mk)
		c.method("Mnemonikey", "SubkeyTypes", mk)
		c.method("Mnemonikey", "EncodeMnemonicPlaintext", mk)
		c.noPanics("no panic in what uses such a key")
	})
	for _, f := range []string{"RecoverPlaintext", "RecoverEncrypted"} {
		r.ctx(f+" with absent options", func(c *Ctx) {
			n, as := 14, []Value{nilV}
			if f == "RecoverEncrypted" {
				n, as = 16, []Value{c.anyPassword(0), nilV}
			}
			k := len(c.Engine.loops)
			c.api(c.p.fn("", f), append([]Value{c.words(inputWords(n))}, as...)...)
			c.noPanics("no panic")
			c.bounded("every loop is bounded", k)
		})
	}
	r.ctx("nil word lists and passwords", func(c *Ctx) {
		c.api(c.p.fn("", "DecodeMnemonic"), nilV)
		c.api(c.p.fn("", "RecoverPlaintext"), nilV, nilV)
		c.api(c.p.fn("", "RecoverEncrypted"), nilV, nilV, nilV)
		d, _ := c.decoded(16)
		c.method("DecodedMnemonic", "DecryptSeed", d, nilV)
		c.noPanics("no panic")
	})
	for _, sub := range subsets {
		r.ctx("exports with "+subsetName(sub), func(c *Ctx) {
			k := c.newKey(keyCtx{ttl: "some", subkeys: sub})
			if k == nil {
				return
			}
			c.panics = nil
			n := len(c.Engine.loops)
			c.method("Mnemonikey", "EncodePGP", k.mnk, c.newBytes(emptyRope))
			c.method("Mnemonikey", "EncodeSubkeysPGP", k.mnk, nilV, bFalse)
			c.method("Mnemonikey", "EncodeSubkeysPGPArmor", k.mnk, c.anyPassword(1), bTrue)
			c.noPanics("no panic")
			c.bounded("every loop is bounded", n)
		})
	}
}

// ---------------------------------------------------------------------------

// seedFlow looks for the seed in a value other than as plaintext of a proper encryption.
func seedFlow(v Value, secret *App, pw *App) (bad string) {
	walk(v, func(x Value) bool {
		a, ok := x.(*App)
		if !ok || bad != "" {
			return bad == ""
		}
		if a == secret {
			bad = "the seed is part of the output unencrypted"
			return false
		}
		if a.fn == "aesenc" {
			k, _ := a.args[0].(*Rope)
			from := false
			walk(k, func(y Value) bool {
				b, ok := y.(*App)
				if !ok {
					return true
				}
				if b == secret {
					bad = "the encryption key depends on the seed"
				}
				if b.fn == "argon2id" {
					walk(b.args[0], func(z Value) bool {
						if z == Value(pw) {
							from = true
						}
						return true
					})
					return false
				}
				return true
			})
			if !from {
				bad = "the seed is encrypted under a key that does not come from the password: " + short(show(k))
			}
			return false
		}
		return true
	})
	return bad
}

func atomOf(l *Lin) *App { return l.ts[0].a }

func strAtomOf(r *Rope) *App {
	for _, p := range r.ps {
		if p.a != nil {
			return p.a
		}
	}
	return nil
}

// flowsFrom reports whether a value depends on the application.
func flowsFrom(v Value, want func(a *App) bool) bool {
	found := false
	walk(v, func(x Value) bool {
		if a, ok := x.(*App); ok && want(a) {
			found = true
		}
		return !found
	})
	return found
}

func runC06(r *Run) {
	type enc func(c *Ctx, pw Value, rnd Value) ([]Value, *Lin)
	forms := map[string]enc{
		"seed": func(c *Ctx, pw, rnd Value) ([]Value, *Lin) {
			s, sv := c.seedIn()
			off := offsetIn()
			c.assume(lt(off, linConst(pow2(31))))
			return c.api(c.p.fn("", "EncodeMnemonicEncrypted"), s, off, pw, rnd), sv
		},
		"key object": func(c *Ctx, pw, rnd Value) ([]Value, *Lin) {
			k := c.newKey(keyCtx{ttl: "none"})
			if k == nil {
				panic(bail{"no key"})
			}
			return c.method("Mnemonikey", "EncodeMnemonicEncrypted", k.mnk, pw, rnd), k.seed.(*Lin)
		},
	}
	for _, name := range []string{"seed", "key object"} {
		f := forms[name]
		r.ctx("encrypted phrase of a "+name, func(c *Ctx) {
			pw, pwr := c.passwordIn()
			rnd := c.stream("random")
			p, sv := f(c, pw, rnd)
			c.ok(p[1])
			if c.st.pc == bFalse {
				r.add("undecided", "encoding", "never succeeds", "")
				return
			}
			ws := c.strings(c.norm(p[0]))
			if ws == nil {
				r.add("undecided", "words", short(show(c.norm(p[0]))), "")
				return
			}
			for i, w := range ws {
				w = c.norm(w)
				d := fmt.Sprintf("word %d shows the seed only encrypted under the password", i+1)
				if why := unknownIn(w); why != "" {
					r.add("undecided", d, why, "")
					continue
				}
				if bad := seedFlow(w, atomOf(sv), strAtomOf(pwr)); bad != "" {
					c.certainly(c.st.pc, d, bad, true)
				} else {
					r.add("proved", d, "", "")
				}
				d = fmt.Sprintf("word %d does not show the password", i+1)
				leak := false
				walk(w, func(x Value) bool {
					a, ok := x.(*App)
					if ok && a == strAtomOf(pwr) {
						leak = true
					}
					return !(ok && (a.fn == "argon2id" || oneWay[a.fn]))
				})
				if leak {
					c.certainly(c.st.pc, d, "password in the clear", true)
				} else {
					r.add("proved", d, "", "")
				}
			}
		})
		r.ctx("fresh salt for every encryption of a "+name, func(c *Ctx) {
			pw, _ := c.passwordIn()
			rnd := c.stream("random")
			var salts [2]map[*App]bool
			for i := 0; i < 2; i++ {
				p, _ := f(c, pw, rnd)
				c.ok(p[1])
				if c.st.pc == bFalse {
					r.add("undecided", "encoding", "never succeeds", "")
					return
				}
				salts[i] = map[*App]bool{}
				ws := c.strings(c.norm(p[0]))
				for _, w := range ws {
					walk(c.norm(w), func(x Value) bool {
						if a, ok := x.(*App); ok && a.fn == "argon2id" {
							walk(a.args[1], func(y Value) bool {
								if b, ok := y.(*App); ok && (b.fn == "randint" || b.fn == "random") {
									salts[i][b] = true
								}
								return true
							})
						}
						return true
					})
				}
				d := "the salt comes from the given random source"
				good := len(salts[i]) > 0
				for a := range salts[i] {
					if a.args[0] != Value(ropeConst("random")) {
						good = false
					}
				}
				if good {
					r.add("proved", d, "", "")
				} else if why := unknownIn(c.norm(c.deep(p[0]))); why != "" || len(ws) == 0 {
					r.add("undecided", d, why, "")
				} else {
					c.certainly(c.st.pc, d, "key derivation salt does not depend on it", true)
				}
			}
			shared := ""
			for a := range salts[0] {
				if salts[1][a] {
					shared = show(a)
				}
			}
			if shared != "" {
				c.certainly(c.st.pc, "each encryption draws its own salt", "two phrases share "+shared, true)
			} else {
				r.add("proved", "each encryption draws its own salt", "", "")
			}
		})
		for _, n := range []string{"empty", "nil"} {
			r.ctx(n+" password for a "+name, func(c *Ctx) {
				pw := Value(nilV)
				if n == "empty" {
					pw = c.newBytes(emptyRope)
				}
				p, _ := f(c, pw, c.stream("random"))
				c.notNil("encryption is refused", p[1])
				c.isNil("no phrase is returned", p[0])
			})
		}
	}
	r.ctx("decoded encrypted phrase", func(c *Ctx) {
		d, ws := c.decoded(16)
		q := c.method("DecodedMnemonic", "Seed", d)
		c.notNil("no seed without the password", q[1])
		c.isNil("no seed object without the password", q[0])
		all := allBits(ws)
		pw, pwr := c.passwordIn()
		q = c.method("DecodedMnemonic", "DecryptSeed", d, pw)
		key := specSeedKey(pwr, seg(all, 41, 19), seg(all, 5, 31))
		match := eqInt(seg(ropeInt(mustSlice(key, 16, 1)), 0, 5), seg(all, 36, 5))
		c.same("a password is accepted exactly when its verification bits match", c.nilCond(q[1]), match)
		c.holds("no seed object with a rejected password", or(c.nilCond(q[1]), c.nilCond(q[0])))
	})
	for _, n := range []string{"empty", "nil"} {
		r.ctx("decoded encrypted phrase, "+n+" password", func(c *Ctx) {
			d, ws := c.decoded(16)
			all := allBits(ws)
			pw := Value(nilV)
			if n == "empty" {
				pw = c.newBytes(emptyRope)
			}
			q := c.method("DecodedMnemonic", "DecryptSeed", d, pw)
			key := specSeedKey(emptyRope, seg(all, 41, 19), seg(all, 5, 31))
			match := eqInt(seg(ropeInt(mustSlice(key, 16, 1)), 0, 5), seg(all, 36, 5))
			c.holds("no seed unless the verification bits match", or(match, not(c.nilCond(q[1]))))
			c.holds("no seed object with a rejected password", or(c.nilCond(q[1]), c.nilCond(q[0])))
		})
	}
	r.ctx("recovery with a password", func(c *Ctx) {
		ws := inputWords(16)
		all := allBits(ws)
		p := ropeStr("password", nil)
		c.strLen(p, 0, 1<<20)
		m := c.api(c.p.fn("", "RecoverEncrypted"), c.words(ws), c.newBytes(p), nilV)
		key := specSeedKey(p, seg(all, 41, 19), seg(all, 5, 31))
		match := eqInt(seg(ropeInt(mustSlice(key, 16, 1)), 0, 5), seg(all, 36, 5))
		c.holds("no key unless the verification bits match", or(match, not(c.nilCond(m[1]))))
		c.holds("no key object with a rejected password", or(c.nilCond(m[1]), c.nilCond(m[0])))
	})
	r.ctx("recovery without password", func(c *Ctx) {
		m := c.api(c.p.fn("", "RecoverPlaintext"), c.words(inputWords(16)), nilV)
		c.notNil("an encrypted phrase is not recovered as plaintext", m[1])
		c.isNil("no key object", m[0])
	})
}

// ---------------------------------------------------------------------------

func runC08(r *Run) {
	// two keys from one seed and instant with different options
	mk := func(c *Ctx, s Value, cr Value, fields map[string]Value) Value {
		n := c.api(c.p.fn("", "New"), s, cr, c.keyOptions(fields))
		c.ok(n[1])
		if c.st.pc == bFalse {
			panic(bail{"constructor never succeeds"})
		}
		return c.norm(n[0])
	}
	ttlAtom := func(c *Ctx, n string) Value {
		t := intAtom(n, minI64, maxI64)
		c.assume(le(linConst(nsec), t))
		c.assume(lt(t, linConst(mulB(1<<32))))
		return t
	}
	fp := func(c *Ctx, m Value, t string) *Rope {
		if t == "master" {
			return c.bytesOf(c.norm(c.method("Mnemonikey", "Fingerprint", m)[0]))
		}
		return c.bytesOf(c.norm(c.method("Mnemonikey", "SubkeyFingerprint", m, ropeConst(t))[0]))
	}
	kinds := []string{"master", "encryption", "authentication", "signing"}
	field := map[string]string{"encryption": "EncryptionSubkeyIndex", "authentication": "AuthenticationSubkeyIndex", "signing": "SigningSubkeyIndex"}
	subT := func(c *Ctx, ss []string) Value {
		if ss == nil {
			return nilV
		}
		var es []Value
		for _, s := range ss {
			es = append(es, ropeConst(s))
		}
		return c.newSliceOf(types.NewSlice(c.p.typ("", "SubkeyType")), es)
	}
	// which: the option that differs; keys in affected may differ
	cases := []struct {
		name     string
		a, b     func(c *Ctx) map[string]Value
		affected string
		subs     []string
	}{
		{"name", func(c *Ctx) map[string]Value { return map[string]Value{"Name": ropeStr("name", nil)} }, func(c *Ctx) map[string]Value { return map[string]Value{"Name": ropeStr("name2", nil)} }, "", nil},
		{"email", func(c *Ctx) map[string]Value { return map[string]Value{"Email": ropeStr("email", nil)} }, func(c *Ctx) map[string]Value { return nil }, "", nil},
		{"lifetime", func(c *Ctx) map[string]Value { return map[string]Value{"TTL": ttlAtom(c, "ttl")} }, func(c *Ctx) map[string]Value { return map[string]Value{"TTL": ttlAtom(c, "ttl2")} }, "", nil},
		{"presence of a lifetime", func(c *Ctx) map[string]Value { return map[string]Value{"TTL": ttlAtom(c, "ttl")} }, func(c *Ctx) map[string]Value { return nil }, "", nil},
	}
	for _, t := range kinds[1:] {
		t := t
		cases = append(cases, struct {
			name     string
			a, b     func(c *Ctx) map[string]Value
			affected string
			subs     []string
		}{t + " subkey index", func(c *Ctx) map[string]Value { return map[string]Value{field[t]: u16("index-a")} },
			func(c *Ctx) map[string]Value { return map[string]Value{field[t]: u16("index-b")} }, t, nil})
	}
	for _, sub := range subsets[2:] {
		sub := sub
		cases = append(cases, struct {
			name     string
			a, b     func(c *Ctx) map[string]Value
			affected string
			subs     []string
		}{"selection " + subsetName(sub), func(c *Ctx) map[string]Value { return nil },
			func(c *Ctx) map[string]Value { return map[string]Value{"Subkeys": subT(c, sub)} }, "", sub})
	}
	for _, cs := range cases {
		cs := cs
		r.ctx("keys that differ in "+cs.name, func(c *Ctx) {
			s, _ := c.seedIn()
			cr := mkTime(scale(addI(intAtom("creation-offset", zero, big.NewInt(1<<31-1)), epochStart), nsec))
			a := mk(c, s, cr, cs.a(c))
			b := mk(c, s, cr, cs.b(c))
			for _, t := range kinds {
				if t == cs.affected || (cs.subs != nil && t != "master" && !has(cs.subs, t)) {
					continue
				}
				c.eq(t+" key unchanged", fp(c, b, t), fp(c, a, t))
			}
		})
	}
	r.ctx("derivation inputs", func(c *Ctx) {
		k := c.newKey(keyCtx{ttl: "none"})
		if k == nil {
			return
		}
		infos := map[string]*App{}
		c.readExport(c.exportOf(k, nilV), k, false, func(x *export) {
			sec := func(n string, p *keyPkt) {
				if p == nil || p.mpi == nil {
					return
				}
				var found []*App
				walk(p.mpi, func(x Value) bool {
					if a, ok := x.(*App); ok && a.fn == "hkdf" {
						found = append(found, a)
						return false
					}
					return true
				})
				if len(found) == 1 {
					infos[n] = found[0]
				}
			}
			sec("master", x.master)
			for _, s := range x.subs {
				if s.kind != nil {
					sec(s.kind.name, s.key)
				}
			}
			// whichever key it turns out to be, no two packets share a secret
			ps := append([]*keyPkt{x.master}, func() (o []*keyPkt) {
				for _, s := range x.subs {
					o = append(o, s.key)
				}
				return
			}()...)
			for i := range ps {
				for j := 0; j < i; j++ {
					if ps[i].mpi != nil && ps[j].mpi != nil {
						if c.norm(ps[i].mpi) == c.norm(ps[j].mpi) || c.norm(ps[i].point) == c.norm(ps[j].point) {
							c.certainly(c.st.pc, "no two exported keys are the same", fmt.Sprintf("packets %d and %d", j, i), true)
						} else {
							r.add("proved", "no two exported keys are the same", "", "")
						}
					}
				}
			}
		})
		for i, a := range kinds {
			for _, b := range kinds[:i] {
				x, y := infos[a], infos[b]
				d := fmt.Sprintf("%s and %s key have distinct derivation inputs", a, b)
				if x == nil || y == nil {
					r.add("undecided", d, "derivation not recognised", "")
					continue
				}
				if x.args[1] != y.args[1] {
					r.add("undecided", d, "different root keys", "")
					continue
				}
				ix, ok1 := x.args[2].(*Rope)
				iy, ok2 := y.args[2].(*Rope)
				if !ok1 || !ok2 {
					r.add("undecided", d, "info not a byte string", "")
					continue
				}
				c.holds(d, not(ropeEq(ix, iy)))
			}
		}
		// different index, different key
		for _, t := range kinds[1:] {
			x := infos[t]
			d := t + " subkey index is part of its derivation input"
			if x == nil {
				r.add("undecided", d, "derivation not recognised", "")
				continue
			}
			idx := u16(t + "-index")
			other := u16("another-index")
			alt := substAtom(x.args[2], atomOf(idx), other)
			ix, _ := x.args[2].(*Rope)
			iy, _ := alt.(*Rope)
			if ix == nil || iy == nil {
				r.add("undecided", d, "info not a byte string", "")
				continue
			}
			c.holds(d, or(eqInt(idx, other), not(ropeEq(ix, iy))))
		}
	})
}

// substAtom replaces an integer atom in a byte string.
func substAtom(v Value, a *App, by Value) Value {
	r, ok := v.(*Rope)
	if !ok {
		return v
	}
	var ps []Piece
	for _, p := range r.ps {
		if l, ok := p.v.(*Lin); ok && p.kind == "fix" {
			acc := Value(linConst(l.c))
			for _, t := range l.ts {
				x := Value(linAtom(t.a))
				if t.a == a {
					x = by
				} else if b, lo, w, ok := segParts(t.a); ok {
					if bl, ok := b.(*Lin); ok && len(bl.ts) == 1 && bl.ts[0].a == a {
						x = seg(add(scale(by, bl.ts[0].c), linConst(bl.c)), lo, w)
					}
				}
				acc = add(acc, scale(x, t.c))
			}
			p.v = acc
		}
		ps = append(ps, p)
	}
	return mkRope(ps)
}

// ---------------------------------------------------------------------------

var nondet = map[string]bool{"random": true, "randint": true, "now": true}

// ambientIn names a source other than the inputs that a value depends on.
func ambientIn(v Value) string {
	out := ""
	walk(v, func(x Value) bool {
		if a, ok := x.(*App); ok {
			if nondet[a.fn] || strings.HasPrefix(a.fn, "len:random") || strings.HasPrefix(a.fn, "ambient") {
				out = show(a)
			}
		}
		return out == ""
	})
	return out
}

func (c *Ctx) pure(desc string, v Value) {
	v = c.norm(v)
	if why := unknownIn(v); why != "" {
		c.r.add("undecided", desc, why, "")
		return
	}
	if a := ambientIn(v); a != "" {
		c.certainly(c.st.pc, desc, "depends on "+short(a), true)
		return
	}
	c.r.add("proved", desc, "", "")
}

func runC09(r *Run) {
	ambientFree := func(c *Ctx) {
		if len(c.ambients) == 0 {
			r.add("proved", "nothing outside the inputs is consulted", "", "")
			return
		}
		for _, k := range sortedKeys(c.ambients) {
			// consulted, but it may not matter: only the outputs decide
			r.notes = append(r.notes, "consulted "+k+" at "+c.ambients[k])
		}
		r.add("proved", "what is consulted outside the inputs does not reach the outputs", "", "")
	}
	observe := func(c *Ctx, m Value) map[string]Value {
		out := map[string]Value{}
		put := func(n string, v Value) { out[n] = c.norm(c.deep(c.norm(v))) }
		put("fingerprint", c.method("Mnemonikey", "Fingerprint", m)[0])
		for _, t := range []string{"encryption", "authentication", "signing"} {
			put(t+" fingerprint", c.method("Mnemonikey", "SubkeyFingerprint", m, ropeConst(t))[0])
		}
		put("creation", c.method("Mnemonikey", "CreatedAt", m)[0])
		put("expiry", c.method("Mnemonikey", "Expiry", m)[0])
		put("user ID", c.method("Mnemonikey", "UserID", m)[0])
		put("subkey types", c.method("Mnemonikey", "SubkeyTypes", m)[0])
		for n, as := range map[string][]Value{"EncodePGP": {m, nilV}, "EncodeSubkeysPGP": {m, nilV, bTrue}, "EncodePGPArmor": {m, nilV}, "EncodeMnemonicPlaintext": {m}} {
			x := c.method("Mnemonikey", n, as...)
			c.ok(x[1])
			if c.st.pc == bFalse {
				panic(bail{n + " never succeeds"})
			}
			put(n, x[0])
		}
		return out
	}
	for _, ttl := range []string{"none", "some"} {
		r.ctx("key made twice, lifetime "+ttl, func(c *Ctx) {
			k := c.newKey(keyCtx{ttl: ttl})
			if k == nil {
				return
			}
			a := observe(c, k.mnk)
			sh := append([]Value(nil), c.shuffles...)
			c.mapReverse = true
			k2 := c.newKey(keyCtx{ttl: ttl})
			if k2 == nil {
				return
			}
			c.drawPos = 0
			b := observe(c, k2.mnk)
			for _, n := range sortedKeys(a) {
				c.pure(n+" depends on the inputs only", a[n])
				c.eq(n+" is the same the second time", b[n], a[n])
			}
			for i, s := range sh {
				c.pure(fmt.Sprintf("subkey order %d depends on the inputs only", i+1), s)
			}
			for i, s := range c.shuffles[len(sh):] {
				if i < len(sh) {
					c.eq("subkey order is the same the second time", s, sh[i])
				}
			}
			ambientFree(c)
		})
	}
	for _, h := range []string{"keys of the same seed", "keys of another seed", "phrases"} {
		r.ctx("a key after "+h, func(c *Ctx) {
			fresh := c.st.clone()
			k := c.newKey(keyCtx{ttl: "some"})
			if k == nil {
				return
			}
			a := observe(c, k.mnk)
			sh := append([]Value(nil), c.shuffles...)
			// the same in a process that has done other things before
			c.st = fresh
			earlier := func(v Value, at string, fields map[string]Value) {
				off := intAtom(at, zero, big.NewInt(1<<31-1))
				m := c.api(c.p.fn("", "New"), v, mkTime(scale(addI(off, epochStart), nsec)), c.keyOptions(fields))
				c.ok(m[1])
				if c.st.pc == bFalse {
					panic(bail{"the constructor never succeeds"})
				}
				observe(c, c.norm(m[0]))
			}
			switch h {
			case "keys of the same seed":
				s, _ := c.seedIn()
				earlier(s, "earlier-offset", map[string]Value{"Name": ropeConst("earlier"), "SigningSubkeyIndex": u16("earlier-index"), "EncryptionSubkeyIndex": u16("earlier-index2")})
			case "keys of another seed":
				n := seedAtom("earlier-seed")
				p := c.api(c.p.fn("", "NewSeed"), linInt(0), c.mkBig(n))
				c.ok(p[1])
				earlier(c.norm(p[0]), "creation-offset", map[string]Value{"Email": ropeConst("earlier"), "TTL": linConst(mulB(86400))})
			case "phrases":
				d, _ := c.decoded(14)
				c.method("DecodedMnemonic", "Seed", d)
				s, _ := c.seedIn()
				p := c.api(c.p.fn("", "EncodeMnemonicPlaintext"), s, intAtom("earlier-offset", zero, big.NewInt(1<<31-1)))
				c.ok(p[1])
			}
			n := len(c.shuffles)
			c.drawPos = 0
			k2 := c.newKey(keyCtx{ttl: "some"})
			if k2 == nil {
				return
			}
			b := observe(c, k2.mnk)
			for _, n := range sortedKeys(a) {
				c.eq(n+" is the same as in a fresh process", b[n], a[n])
			}
			for i, s := range c.shuffles[n:] {
				if i < len(sh) {
					c.eq("subkey order is the same as in a fresh process", s, sh[i])
				}
			}
		})
	}
	r.ctx("plaintext phrase", func(c *Ctx) {
		s, _ := c.seedIn()
		off := offsetIn()
		c.assume(lt(off, linConst(pow2(31))))
		p := c.api(c.p.fn("", "EncodeMnemonicPlaintext"), s, off)
		c.ok(p[1])
		c.pure("phrase depends on the inputs only", c.deep(c.norm(p[0])))
		q := c.api(c.p.fn("", "EncodeMnemonicPlaintext"), s, off)
		c.ok(q[1])
		c.eq("phrase is the same the second time", c.deep(c.norm(q[0])), c.deep(c.norm(p[0])))
	})
	r.ctx("decoding and decryption", func(c *Ctx) {
		ws := inputWords(16)
		d, err := c.decode(c.words(ws))
		c.mapReverse = true
		d2, err2 := c.decode(c.words(ws))
		c.same("acceptance is the same the second time", c.nilCond(err2), c.nilCond(err))
		if a := ambientIn(c.nilCond(err)); a != "" {
			c.certainly(c.st.pc, "acceptance depends on the words only", a, true)
		} else {
			r.add("proved", "acceptance depends on the words only", "", "")
		}
		c.ok(err)
		c.ok(err2)
		pw, _ := c.passwordIn()
		p := c.method("DecodedMnemonic", "DecryptSeed", c.norm(d), pw)
		q := c.method("DecodedMnemonic", "DecryptSeed", c.norm(d2), pw)
		c.same("decryption succeeds the same way the second time", c.nilCond(q[1]), c.nilCond(p[1]))
		c.ok(p[1])
		c.ok(q[1])
		sb := c.bytesOf(c.norm(c.method("Seed", "Bytes", c.norm(p[0]))[0]))
		c.pure("decrypted seed depends on words and password only", sb)
		c.eq("decrypted seed is the same the second time", c.bytesOf(c.norm(c.method("Seed", "Bytes", c.norm(q[0]))[0])), sb)
		c.pure("creation time depends on the words only", c.method("DecodedMnemonic", "Creation", c.norm(d))[0])
	})
}

// ---------------------------------------------------------------------------

func runC12(r *Run) {
	r.ctx("any era and integer", func(c *Ctx) {
		n := intAtom("n", nil, nil)
		era := anyEra()
		p := c.api(c.p.fn("", "NewSeed"), era, c.mkBig(n))
		c.same("accepted exactly for era 0 and 0 <= n < 2^128", c.nilCond(p[1]), and(eqInt(era, linInt(0)), and(le(linInt(0), n), lt(n, linConst(pow2(128))))))
		c.holds("a seed is returned exactly when there is no error", xnor(c.nilCond(p[1]), not(c.nilCond(p[0]))))
		c.noPanics("construction")
		c.ok(p[1])
		if c.st.pc == bFalse {
			return
		}
		s := c.norm(p[0])
		c.eqBytes("16 big-endian bytes of the integer", c.method("Seed", "Bytes", s)[0], ropeFix(16, c.norm(n)))
		c.eq("integer of the seed", c.bigGet(c.norm(c.method("Seed", "Int", s)[0])), n)
		c.eq("era of the seed", c.method("Seed", "Era", s)[0], linInt(0))
		c.noPanics("accessors")
	})
	r.ctx("independence of the caller's integer", func(c *Ctx) {
		n := seedAtom("seed")
		in := c.mkBig(n)
		p := c.api(c.p.fn("", "NewSeed"), linInt(0), in)
		c.ok(p[1])
		s := c.norm(p[0])
		c.eq("the caller's integer is not changed", c.bigGet(in), n)
		c.scribble(in, "overwritten")
		c.eqBytes("bytes after the caller changed its integer", c.method("Seed", "Bytes", s)[0], ropeFix(16, n))
		got := c.norm(c.method("Seed", "Int", s)[0])
		c.eq("integer after the caller changed its own", c.bigGet(got), n)
		c.scribble(got, "overwritten2")
		b := c.norm(c.method("Seed", "Bytes", s)[0])
		c.eqBytes("bytes after a returned integer was changed", b, ropeFix(16, n))
		c.scribble(b, "overwritten3")
		c.eqBytes("bytes after returned bytes were changed", c.method("Seed", "Bytes", s)[0], ropeFix(16, n))
		c.eq("integer after returned values were changed", c.bigGet(c.norm(c.method("Seed", "Int", s)[0])), n)
	})
	r.ctx("generated seed", func(c *Ctx) {
		p := c.api(c.p.fn("", "GenerateSeed"), c.stream("random"))
		fail := boolApp("randfail", ropeConst("random"), linInt(0))
		c.holds("an error is reported when the random source fails", or(not(fail), not(c.nilCond(p[1]))))
		c.holds("a seed is returned exactly when there is no error", xnor(c.nilCond(p[1]), not(c.nilCond(p[0]))))
		c.noPanics("generation")
		c.assume(not(fail))
		c.ok(p[1])
		if c.st.pc == bFalse {
			r.add("undecided", "generation", "never succeeds", "")
			return
		}
		s := c.norm(p[0])
		b := c.norm(c.bytesOf(c.norm(c.method("Seed", "Bytes", s)[0]))).(*Rope)
		c.eq("seed length", ropeLen(b), linInt(16))
		c.allRandom("all 128 bits come from the given source", b, "random", 128)
		c.eq("era of the seed", c.method("Seed", "Era", s)[0], linInt(0))
	})
	r.ctx("two generated seeds", func(c *Ctx) {
		rnd := c.stream("random")
		var used []bitSource
		for i := 0; i < 2; i++ {
			p := c.api(c.p.fn("", "GenerateSeed"), rnd)
			c.ok(p[1])
			if c.st.pc == bFalse {
				r.add("undecided", "generation", "never succeeds", "")
				return
			}
			b := c.norm(c.bytesOf(c.norm(c.method("Seed", "Bytes", c.norm(p[0]))[0]))).(*Rope)
			src, ok := sourcesOf(b)
			if !ok {
				r.add("undecided", "two seeds share no random bits", short(show(b)), "")
				return
			}
			for _, s := range src {
				for _, u := range used {
					if u.a == s.a && u.lo < s.lo+s.w && s.lo < u.lo+u.w {
						c.certainly(c.st.pc, "two seeds share no random bits", show(s.a), true)
						return
					}
				}
			}
			used = append(used, src...)
		}
		r.add("proved", "two seeds share no random bits", "", "")
	})
}

// choiceIn finds a condition on which a value depends.
func choiceIn(v Value) (cond Value) {
	walk(v, func(x Value) bool {
		if n, ok := x.(*Node); ok && !n.bool_ && cond == nil {
			cond = mkNode(n.v, bTrue, bFalse)
		}
		return cond == nil
	})
	return cond
}

// allRandom requires every bit of a byte string to be a distinct bit of the named stream.
func (c *Ctx) allRandom(desc string, b *Rope, stream string, bits int) {
	if cond := choiceIn(b); cond != nil && and(c.st.pc, cond) != bFalse && and(c.st.pc, not(cond)) != bFalse {
		saved := c.st.pc
		for _, k := range []Value{cond, not(cond)} {
			c.st.pc = and(saved, k)
			if r, ok := c.norm(b).(*Rope); ok {
				c.allRandom(desc, r, stream, bits)
			} else {
				c.r.add("undecided", desc, short(show(b)), "")
			}
		}
		c.st.pc = saved
		return
	}
	if why := unknownIn(b); why != "" {
		c.r.add("undecided", desc, why, "")
		return
	}
	src, ok := sourcesOf(b)
	if !ok {
		if isConstRope(b) || !flowsFrom(b, func(a *App) bool { return a.fn == "random" || a.fn == "randint" }) || constBits(b) {
			c.certainly(c.st.pc, desc, short(show(b)), true)
		} else {
			c.r.add("undecided", desc, "sources not recognised: "+short(show(b)), "")
		}
		return
	}
	n := 0
	for i, s := range src {
		if s.a.fn != "random" && s.a.fn != "randint" || s.a.args[0] != Value(ropeConst(stream)) {
			c.certainly(c.st.pc, desc, "bits of "+show(s.a), true)
			return
		}
		for _, u := range src[:i] {
			if u.a == s.a && u.lo < s.lo+s.w && s.lo < u.lo+u.w {
				c.certainly(c.st.pc, desc, "bits of "+show(s.a)+" are used twice", true)
				return
			}
		}
		n += s.w
	}
	if n != bits {
		c.certainly(c.st.pc, desc, fmt.Sprintf("%d bits", n), true)
		return
	}
	c.r.add("proved", desc, "", "")
}

// constBits reports whether a fixed-length byte string certainly has bits that are always
// zero or one: its integer's range is smaller than its width.
func constBits(b *Rope) bool {
	n, ok := constInt(ropeLen(b))
	if !ok {
		return false
	}
	lo, hi := bounds(ropeInt(b))
	return lo != nil && hi != nil && new(big.Int).Sub(hi, lo).BitLen() < 8*n
}

// scribble overwrites what a caller can reach through a value it holds.
func (c *Ctx) scribble(v Value, tag string) { c.scribbleD(v, tag, 0) }

func (c *Ctx) scribbleD(v Value, tag string, d int) {
	if d > 3 {
		return
	}
	v = c.norm(v)
	c.split(v, func(v Value) {
		switch v := v.(type) {
		case *SliceV:
			content := c.loadPath(v.obj, v.path)
			if r, ok := content.(*Rope); ok {
				end := v.capn
				if end == nil || bad(end) != nil {
					end = v.len
				}
				if le(add(v.off, end), ropeLen(r)) != bTrue {
					end = v.len
				}
				n := simp(end, c.st.pc)
				if isGate(n) {
					n = simp(v.len, c.st.pc)
				}
				if isGate(n) || bad(n) != nil {
					return
				}
				c.writeBytes(v.obj, v.path, v.off, ropeStr(tag, n, linInt(int64(v.id))))
				return
			}
			n, ok1 := constInt(v.len)
			off, ok2 := constInt(v.off)
			if !ok1 || !ok2 {
				return
			}
			for i := 0; i < n; i++ {
				p := append(append([]int(nil), v.path...), off+i)
				c.overwrite(v.obj, p, c.loadPath(v.obj, p), fmt.Sprintf("%s%d", tag, i), d)
			}
		case *Ptr:
			c.overwrite(v.obj, v.path, c.loadPath(v.obj, v.path), tag, d)
		}
	})
}

func (c *Ctx) overwrite(o *Obj, path []int, old Value, tag string, d int) {
	old = c.norm(old)
	switch x := old.(type) {
	case *Lin:
		c.setPath(o, path, intAtom(tag, zero, big.NewInt(4095)))
	case *Rope:
		c.setPath(o, path, ropeStr(tag, nil))
	case *Agg:
		for i := range x.es {
			c.overwrite(o, append(append([]int(nil), path...), i), x.es[i], fmt.Sprintf("%s_%d", tag, i), d)
		}
	case *SliceV, *Ptr:
		c.scribbleD(old, tag, d+1)
	}
}

// ---------------------------------------------------------------------------

func (c *Ctx) heapCopy() map[*Obj]Value {
	m := make(map[*Obj]Value, len(c.st.heap))
	for o, v := range c.st.heap {
		m[o] = v
	}
	return m
}

// usesSync reports whether the operation coordinated access to shared memory.
func (c *Ctx) usesSync() bool {
	for k := range c.calls {
		if strings.HasPrefix(k, "sync.") || strings.HasPrefix(k, "(*sync.") || strings.HasPrefix(k, "sync/atomic.") || strings.HasPrefix(k, "(*sync/atomic.") {
			return true
		}
	}
	for k := range c.opaque {
		if strings.Contains(k, "sync.") || strings.Contains(k, "atomic.") {
			return true
		}
	}
	return false
}

func exempt(v Value) bool {
	n, ok := v.(*Native)
	return ok && (n.kind == "stream" || n.kind == "error" || n.kind == "file")
}

// unchanged compares objects of a heap snapshot with the present heap.
func (c *Ctx) unchanged(desc string, before map[*Obj]Value, sel func(o *Obj) bool) {
	var os []*Obj
	for o := range before {
		if sel(o) {
			os = append(os, o)
		}
	}
	sort.Slice(os, func(i, j int) bool { return os[i].num < os[j].num })
	n := 0
	for _, o := range os {
		now, ok := c.st.heap[o]
		if !ok || exempt(before[o]) {
			continue
		}
		n++
		if now == before[o] {
			continue
		}
		d := fmt.Sprintf("%s (%s)", desc, o.name)
		if c.usesSync() {
			c.r.add("undecided", d, "the operation uses synchronisation", "")
			continue
		}
		a, b := c.norm(before[o]), c.norm(now)
		if a == b {
			continue
		}
		if why := unknownIn(b); why != "" {
			c.r.add("undecided", d, why, "")
			continue
		}
		// shape changes (a pointer to something new) are changes; scalars are compared by value
		if isScalar(a) && isScalar(b) {
			c.eq(d, b, a)
			continue
		}
		w, no := findWitness(c.st.pc, []Value{c.deep(a), c.deep(b)}, func(v *valuation) string {
			return changedAt(v, a, b)
		})
		if w != "" {
			c.r.add("refuted", d, fmt.Sprintf("was %s, is %s; %s", short(show(a)), short(show(b)), w), "")
		} else {
			c.r.add("undecided", d, no, "")
		}
	}
	c.r.add("proved", desc, fmt.Sprintf("%d objects", n), "")
}

// changedAt compares two contents under an assignment.
func changedAt(v *valuation, a, b Value) string {
	x, y := v.eval2(a), v.eval2(b)
	if x == y {
		return ""
	}
	return "changed"
}

// eval2 is eval with a description of references.
func (v *valuation) eval2(x Value) string {
	switch x := x.(type) {
	case *SliceV:
		return fmt.Sprintf("slice:%d:%v:%s:%s", x.obj.num, x.path, v.int(x.off), v.int(x.len))
	case *Agg:
		s := "agg"
		for _, e := range x.es {
			s += "," + v.eval2(e)
		}
		return s
	case *Native:
		s := "nat" + x.kind
		for _, e := range x.fs {
			s += "," + v.eval2(e)
		}
		return s
	case *Iface:
		return "if:" + typeKey(x.typ) + v.eval2(x.v)
	case *FuncV:
		return fmt.Sprintf("func%d", x.id)
	case *MapV:
		return fmt.Sprintf("map%d", x.id)
	case *Node:
		if !x.bool_ {
			if v.lit(x.v) {
				return v.eval2(x.hi)
			}
			return v.eval2(x.lo)
		}
	}
	return string(enc(v.eval(x)))
}

func runC18(r *Run) {
	for _, o := range ops(r.tier == "thorough") {
		r.ctx(o.name, func(c *Ctx) {
			args, call := o.setup(c)
			_ = args
			before := c.heapCopy()
			c.Engine.calls = map[string]int{}
			res := call()
			c.unchanged("nothing that existed before is changed", before, func(o *Obj) bool { return true })
			// a repeated call behaves the same
			if o.name == "New" || strings.HasPrefix(o.name, "Recover") || strings.HasPrefix(o.name, "DecodeMnemonic") || strings.HasPrefix(o.name, "NewED") || strings.Contains(o.name, "pgp.New") || strings.Contains(o.name, "password") || strings.Contains(o.name, "Encrypted") || o.name == "GenerateSeed" || strings.Contains(o.name, "S2K") {
				return
			}
			first := make([]Value, len(res))
			for i := range res {
				first[i] = c.deep(c.norm(res[i]))
			}
			c.drawPos = 0
			again := call()
			for i := range again {
				if i == len(again)-1 && o.nerr {
					c.same("a repeated call fails the same way", c.nilCond(again[i]), c.nilCond(res[i]))
					continue
				}
				ok := Value(bTrue)
				if o.nerr {
					ok = c.nilCond(res[len(res)-1])
				}
				saved := c.st.pc
				c.assume(ok)
				if c.st.pc != bFalse {
					c.eq("a repeated call gives the same result", c.deep(c.norm(again[i])), c.norm(first[i]))
				}
				c.st.pc = saved
			}
		})
	}
}

func runC19(r *Run) {
	all := ops(r.tier == "thorough")
	for i, o := range append(append([]op(nil), all...), all...) {
		label := o.name
		r.spare, r.pwLen = true, 0
		if i >= len(all) {
			if !strings.Contains(label, "ncrypt") && !strings.Contains(label, "password") && !strings.Contains(label, "DecryptSeed") && !strings.Contains(label, "S2K") {
				continue
			}
			label += ", short password"
			r.pwLen = 5
		}
		r.ctx(label, func(c *Ctx) {
			args, call := o.setup(c)
			before := c.heapCopy()
			ins := map[*Obj]bool{}
			for _, a := range args {
				c.reach(a, ins)
			}
			res := call()
			c.unchanged("inputs are not modified", before, func(o *Obj) bool { return ins[o] })
			if o.nerr {
				c.ok(res[len(res)-1])
				res = res[:len(res)-1]
			}
			if c.st.pc == bFalse {
				return
			}
			_ = res
		})
	}
	r.spare, r.pwLen = false, 0
	// what was made from inputs does not change with them
	full := func(c *Ctx, m Value) Value {
		var out []Value
		out = append(out, c.deep(c.norm(c.method("Mnemonikey", "Fingerprint", m)[0])))
		x := c.method("Mnemonikey", "EncodePGP", m, nilV)
		c.ok(x[1])
		out = append(out, c.deep(c.norm(x[0])))
		p := c.method("Mnemonikey", "EncodeMnemonicPlaintext", m)
		c.ok(p[1])
		out = append(out, c.deep(c.norm(p[0])))
		out = append(out, c.deep(c.norm(c.method("Mnemonikey", "SubkeyTypes", m)[0])))
		for _, f := range []string{"CreatedAt", "Expiry", "UserID"} {
			out = append(out, c.deep(c.norm(c.method("Mnemonikey", f, m)[0])))
		}
		for _, t := range []string{"encryption", "authentication", "signing"} {
			out = append(out, c.deep(c.norm(c.method("Mnemonikey", "SubkeyFingerprint", m, ropeConst(t))[0])))
		}
		y := c.method("Mnemonikey", "EncodeSubkeysPGP", m, nilV, bTrue)
		c.ok(y[1])
		out = append(out, c.deep(c.norm(y[0])))
		if c.st.pc == bFalse {
			panic(bail{"export never succeeds"})
		}
		return c.norm(mkAgg("tuple", out))
	}
	for _, sub := range [][]string{nil, {"encryption", "signing"}} {
		r.ctx("key object and the options it was made from, "+subsetName(sub), func(c *Ctx) {
			k := c.newKey(keyCtx{ttl: "some", subkeys: sub})
			if k == nil {
				return
			}
			a := full(c, k.mnk)
			c.scribble(k.opts, "overwritten")
			c.drawPos = 0
			c.eqTuple("what the key shows after the options were overwritten", full(c, k.mnk), a)
		})
	}
	r.ctx("key object and buffers it returned", func(c *Ctx) {
		k := c.newKey(keyCtx{ttl: "some"})
		if k == nil {
			return
		}
		a := full(c, k.mnk)
		n := 0
		tag := func() string { n++; return fmt.Sprintf("overwritten%d", n) }
		c.scribble(c.norm(c.method("Mnemonikey", "Fingerprint", k.mnk)[0]), tag())
		for _, t := range []string{"encryption", "authentication", "signing"} {
			c.scribble(c.norm(c.method("Mnemonikey", "SubkeyFingerprint", k.mnk, ropeConst(t))[0]), tag())
		}
		c.scribble(c.norm(c.method("Mnemonikey", "SubkeyTypes", k.mnk)[0]), tag())
		x := c.method("Mnemonikey", "EncodePGP", k.mnk, nilV)
		c.ok(x[1])
		c.scribble(c.norm(x[0]), tag())
		p := c.method("Mnemonikey", "EncodeMnemonicPlaintext", k.mnk)
		c.ok(p[1])
		c.scribble(c.norm(p[0]), tag())
		c.drawPos = 0
		c.eqTuple("what the key shows after returned buffers were overwritten", full(c, k.mnk), a)
	})
	r.ctx("decoded phrase and the words and password it was made from", func(c *Ctx) {
		ws := inputWords(16)
		wv := c.words(ws)
		d, err := c.decode(wv)
		c.ok(err)
		d = c.norm(d)
		pw, _ := c.passwordIn()
		q := c.method("DecodedMnemonic", "DecryptSeed", d, pw)
		c.ok(q[1])
		if c.st.pc == bFalse {
			return
		}
		s := c.norm(q[0])
		off := c.norm(c.method("DecodedMnemonic", "CreationOffset", d)[0])
		b := c.bytesOf(c.norm(c.method("Seed", "Bytes", s)[0]))
		c.scribble(wv, "overwritten")
		c.scribble(pw, "overwrittenpw")
		c.scribble(c.norm(c.method("Seed", "Int", s)[0]), "overwrittenint")
		c.eqBytes("seed afterwards", c.method("Seed", "Bytes", s)[0], b)
		c.eq("creation offset afterwards", c.method("DecodedMnemonic", "CreationOffset", d)[0], off)
	})
	r.ctx("plaintext decoded phrase and integers it handed out", func(c *Ctx) {
		d, ws := c.decoded(14)
		q := c.method("DecodedMnemonic", "Seed", d)
		c.ok(q[1])
		s := c.norm(q[0])
		c.scribble(c.norm(c.method("Seed", "Int", s)[0]), "overwritten")
		c.scribble(c.norm(c.method("Seed", "Bytes", s)[0]), "overwritten2")
		q2 := c.method("DecodedMnemonic", "Seed", d)
		c.ok(q2[1])
		c.eqBytes("seed handed out later", c.method("Seed", "Bytes", c.norm(q2[0]))[0], ropeFix(16, seg(allBits(ws), 36, 128)))
	})
	r.ctx("phrases and the word list", func(c *Ctx) {
		s, sv := c.seedIn()
		off := offsetIn()
		c.assume(lt(off, linConst(pow2(31))))
		p := c.api(c.p.fn("", "EncodeMnemonicPlaintext"), s, off)
		c.ok(p[1])
		c.scribble(c.norm(p[0]), "overwritten")
		q := c.api(c.p.fn("", "EncodeMnemonicPlaintext"), s, off)
		c.ok(q[1])
		c.eqWords("phrase made after an earlier one was overwritten", q[0], specPlainPhrase(sv, off))
	})
	for _, f := range []string{"NewED25519MasterKey", "NewED25519Subkey", "NewCurve25519Subkey"} {
		r.ctx("pgp."+f+" and its seed", func(c *Ctx) {
			seed := ropeStr("keyseed", linInt(32))
			in := c.newBytes(seed)
			as := []Value{in, mkTime(scale(intAtom("unix", zero, maxU32), nsec)), mkTime(linConst(zeroTimeNs))}
			if f == "NewCurve25519Subkey" {
				as = append(as, nilV)
			}
			p := c.api(c.p.fn("pgp", f), as...)
			c.ok(p[1])
			key := c.norm(p[0])
			typ := strings.TrimPrefix(f, "New")
			enc := func() Value {
				x := c.api(c.p.method("pgp", typ, "EncodePrivatePacket"), key, nilV)
				c.ok(x[1])
				return c.norm(c.deep(c.norm(x[0])))
			}
			a := enc()
			c.scribble(in, "overwritten")
			c.eq("exported key after the seed buffer was overwritten", enc(), a)
		})
	}
}

func (c *Ctx) eqTuple(desc string, got, want Value) {
	a, ok1 := got.(*Agg)
	b, ok2 := want.(*Agg)
	if !ok1 || !ok2 || len(a.es) != len(b.es) {
		c.eq(desc, got, want)
		return
	}
	for i := range a.es {
		c.eq(fmt.Sprintf("%s [%d]", desc, i+1), a.es[i], b.es[i])
	}
}

// reach collects the objects reachable from a value.
func (c *Ctx) reach(v Value, out map[*Obj]bool) {
	var rec func(v Value)
	obj := func(o *Obj) {
		if out[o] {
			return
		}
		out[o] = true
		if x, ok := c.st.heap[o]; ok {
			rec(x)
		}
	}
	rec = func(v Value) {
		switch v := v.(type) {
		case *Ptr:
			obj(v.obj)
		case *BytePtr:
			obj(v.obj)
		case *SliceV:
			obj(v.obj)
		case *Agg:
			for _, x := range v.es {
				rec(x)
			}
		case *Iface:
			rec(v.v)
		case *Native:
			for _, x := range v.fs {
				rec(x)
			}
		case *Node:
			if !v.bool_ {
				rec(v.hi)
				rec(v.lo)
			}
		}
	}
	rec(v)
}

// ---------------------------------------------------------------------------

func runC20(r *Run) {
	for _, o := range ops(r.tier == "thorough") {
		if !o.nerr {
			continue
		}
		r.ctx(o.name, func(c *Ctx) {
			_, call := o.setup(c)
			res := call()
			err := res[len(res)-1]
			switch firstLeaf(res[0]).(type) {
			case *Rope:
				c.holds("no text is returned with an error", or(c.nilCond(err), c.boolLeaves(res[0], func(v Value) Value {
					if r, ok := v.(*Rope); ok {
						return eqInt(ropeLen(r), linInt(0))
					}
					return bFalse
				})))
			case *Lin:
			default:
				c.holds("a result is returned exactly when there is no error", xnor(c.nilCond(err), or(not(c.nilCond(res[0])), emptySlice(c, res[0]))))
			}
		})
	}
	fails := func(c *Ctx, k int64) Value { return boolApp("randfail", ropeConst("random"), linInt(k)) }
	r.ctx("failing random source: seed generation", func(c *Ctx) {
		c.assume(fails(c, 0))
		p := c.api(c.p.fn("", "GenerateSeed"), c.stream("random"))
		c.notNil("an error is reported", p[1])
		c.isNil("no seed is returned", p[0])
	})
	r.ctx("failing random source: phrase encryption", func(c *Ctx) {
		s, _ := c.seedIn()
		c.assume(fails(c, 0))
		p := c.api(c.p.fn("", "EncodeMnemonicEncrypted"), s, offsetIn(), c.anyPassword(0), c.stream("random"))
		c.notNil("an error is reported", p[1])
		c.isNil("no phrase is returned", p[0])
	})
	r.ctx("failing random source: phrase encryption of a key object", func(c *Ctx) {
		k := c.newKey(keyCtx{ttl: "none"})
		if k == nil {
			return
		}
		c.assume(fails(c, 0))
		p := c.method("Mnemonikey", "EncodeMnemonicEncrypted", k.mnk, c.anyPassword(0), c.stream("random"))
		c.notNil("an error is reported", p[1])
		c.isNil("no phrase is returned", p[0])
	})
}

func firstLeaf(v Value) Value {
	for {
		n, ok := v.(*Node)
		if !ok || n.bool_ {
			return v
		}
		v = n.hi
		if v == nilV {
			v = n.lo
		}
	}
}

// emptySlice holds where v is a slice of no elements.
func emptySlice(c *Ctx, v Value) Value {
	return c.boolLeaves(v, func(v Value) Value {
		if s, ok := v.(*SliceV); ok {
			return eqInt(s.len, linInt(0))
		}
		return bFalse
	})
}

// ---------------------------------------------------------------------------

func runC32(r *Run) {
	sizes := []int{0, 11, 12, 14, 24, 36, 132, 168}
	if r.tier == "thorough" {
		sizes = nil
		for i := 0; i <= 60; i++ {
			if i%12 != 1 { // a one-bit leading index is decided as a case distinction the rule does not match
				sizes = append(sizes, i)
			}
		}
		sizes = append(sizes, 128, 131, 132, 134, 168, 191, 192, 194, 204)
	}
	for _, n := range sizes {
		r.ctx(fmt.Sprintf("integers as %d-bit phrases", n), func(c *Ctx) {
			v := intAtom("n", nil, nil)
			in := c.mkBig(v)
			p := c.api(c.p.fn("mnemonic", "EncodeToIndices"), in, linInt(int64(n)))
			c.same("accepted exactly when 0 <= n < 2^bits", c.nilCond(p[1]), and(le(linInt(0), v), lt(v, linConst(pow2(n)))))
			c.noPanics("encoding")
			c.eq("the given integer is not changed", c.bigGet(in), v)
			c.ok(p[1])
			k := (n + 11) / 12
			idx := c.norm(p[0])
			c.eq("number of indices", c.sliceLen(idx), linInt(int64(k)))
			es, ok := c.elems(idx)
			if k > 0 && (!ok || len(es) != k) {
				r.add("undecided", "indices", short(show(idx)), "")
				return
			}
			nv := c.norm(v)
			for i := 0; i < k; i++ {
				c.eq(fmt.Sprintf("index %d", i+1), es[i], seg(nv, 12*(k-1-i), 12))
			}
			q := c.api(c.p.fn("mnemonic", "DecodeIndices"), idx)
			c.isNil("decoding the indices succeeds", q[1])
			c.ok(q[1])
			c.eq("decoded integer", c.bigGet(c.norm(q[0])), v)
			w := c.api(c.p.fn("mnemonic", "EncodeToWords"), idx)
			c.isNil("indices are words", w[1])
			c.ok(w[1])
			d := c.api(c.p.fn("mnemonic", "DecodeWords"), c.norm(w[0]))
			c.isNil("words decode", d[1])
			c.ok(d[1])
			ds, ok := c.elems(c.norm(d[0]))
			if k > 0 && (!ok || len(ds) != k) {
				r.add("undecided", "indices of words", short(show(d[0])), "")
				return
			}
			for i := 0; i < k; i++ {
				c.eq(fmt.Sprintf("index %d of the words", i+1), ds[i], es[i])
			}
		})
	}
	counts := []int{0, 1, 2, 5, 14}
	if r.tier == "thorough" {
		counts = append(counts, 3, 8, 13, 15, 16)
	}
	for _, n := range counts {
		r.ctx(fmt.Sprintf("%d arbitrary indices", n), func(c *Ctx) {
			var es []Value
			okc := Value(bTrue)
			acc := Value(linInt(0))
			for i := 0; i < n; i++ {
				x := u16(fmt.Sprintf("index%d", i))
				es = append(es, x)
				okc = and(okc, lt(x, linInt(4096)))
				acc = add(scale(acc, pow2(12)), x)
			}
			in := c.newSliceOf(types.NewSlice(types.Typ[types.Uint16]), es)
			p := c.api(c.p.fn("mnemonic", "DecodeIndices"), in)
			c.same("indices accepted exactly when all are below 4096", c.nilCond(p[1]), okc)
			w := c.api(c.p.fn("mnemonic", "EncodeToWords"), in)
			c.same("words given exactly when all indices are below 4096", c.nilCond(w[1]), okc)
			c.noPanics("conversion")
			c.ok(p[1])
			c.ok(w[1])
			c.eq("integer", c.bigGet(c.norm(p[0])), acc)
			ws, ok := c.elems(c.norm(w[0]))
			if n > 0 && (!ok || len(ws) != n) {
				r.add("undecided", "words", short(show(w[0])), "")
				return
			}
			for i := range ws {
				c.eq(fmt.Sprintf("word %d", i+1), ws[i], ropeStr("word", nil, c.norm(es[i])))
			}
		})
		r.ctx(fmt.Sprintf("%d arbitrary words", n), func(c *Ctx) {
			ws := inputWords(n)
			p := c.api(c.p.fn("mnemonic", "DecodeWords"), c.words(ws))
			c.same("accepted exactly when every word is listed, in any letter case", c.nilCond(p[1]), allListed(ws))
			c.noPanics("conversion")
			c.ok(p[1])
			es, ok := c.elems(c.norm(p[0]))
			if n > 0 && (!ok || len(es) != n) {
				r.add("undecided", "indices", short(show(p[0])), "")
				return
			}
			for i := range es {
				x, _ := wordIndex(lower(ws[i].(*Rope)))
				c.eq(fmt.Sprintf("index of word %d", i+1), es[i], x)
			}
		})
	}
}
