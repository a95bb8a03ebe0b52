package main

// Recovery phrases: encoding, decoding, encryption, seeds.

import "fmt"

const absintRule = "interprocedural abstract interpretation of the SSA form over a value-number domain (linear integers, bit segments, byte ropes, gated joins), every public entry point analysed from arbitrary inputs; the value number of each observable result must equal the one built from the published specification"

var stdAssume = []string{
	"Go 1.27 type checker and SSA construction (golang.org/x/tools) represent the source faithfully; amd64 sizes",
	"standard library and golang.org/x/crypto functions behave as documented (modelled by hand; cryptographic primitives are uninterpreted functions, AES decryption is the inverse of encryption)",
	"the wordlist4096 dependency maps indices 0..4095 to distinct lower-case words and back",
	"allocation does not fail; strings and slices are shorter than 2^31 bytes",
}

func init() {
	register("C01", &checkDef{
		level: "proof", rule: absintRule, assume: stdAssume,
		expl: "Encode of an arbitrary 128-bit seed and arbitrary 31-bit offset, followed by decode, analysed as one abstract composition; obligations compare what decoding yields with the inputs.",
		run:  runC01,
	})
	register("C02", &checkDef{
		level: "proof", rule: absintRule, assume: stdAssume,
		expl: "Encrypted encode with an arbitrary non-empty password and arbitrary random source, followed by decode and decrypt with the same password, analysed as one abstract composition.",
		run:  runC02,
	})
	register("C03", &checkDef{
		level: "proof", rule: absintRule, assume: stdAssume,
		expl: "The value number of every word of plaintext and encrypted phrases is compared with the published bit layout, and the decoder's fields with the same layout read backwards.",
		run:  runC03,
	})
	register("C04", &checkDef{
		level: "proof", rule: absintRule, assume: stdAssume,
		expl: "For each phrase length the exact condition under which arbitrary input words are accepted is computed as a gate over the words and compared with: right length for the version, all words listed, checksum equal.",
		run:  runC04,
	})
}

func (c *Ctx) decode(words Value) (Value, Value) {
	d := c.api(c.p.fn("", "DecodeMnemonic"), words)
	return d[0], d[1]
}

func offsetIn() *Lin { return intAtom("offset", zero, maxU32) }

func runC01(r *Run) {
	r.ctx("plaintext phrase of any seed and offset", func(c *Ctx) {
		s, sv := c.seedIn()
		off := offsetIn()
		c.assume(lt(off, linConst(pow2(31))))
		p := c.api(c.p.fn("", "EncodeMnemonicPlaintext"), s, off)
		c.isNil("encoding succeeds", p[1])
		c.ok(p[1])
		d, err := c.decode(c.norm(p[0]))
		c.isNil("decoding the phrase succeeds", err)
		c.ok(err)
		d = c.norm(d)
		c.decodedIs(d, off, false)
		q := c.method("DecodedMnemonic", "Seed", d)
		c.isNil("the seed is available", q[1])
		c.ok(q[1])
		c.seedIs("recovered seed", c.norm(q[0]), sv)
		q = c.method("DecodedMnemonic", "DecryptSeed", d, c.newBytes(ropeStr("anypassword", nil)))
		c.isNil("decrypting a plaintext phrase succeeds", q[1])
		c.ok(q[1])
		c.seedIs("seed from decrypting a plaintext phrase", c.norm(q[0]), sv)
		c.noPanics("round trip")
	})
	for _, up := range []bool{false, true} {
		name := "phrase of a key object"
		if up {
			name = "phrase of a key object, recovered"
		}
		r.ctx(name, func(c *Ctx) {
			k := c.newKey(keyCtx{ttl: "none"})
			if k == nil {
				return
			}
			p := c.method("Mnemonikey", "EncodeMnemonicPlaintext", k.mnk)
			c.isNil("encoding succeeds", p[1])
			c.ok(p[1])
			if !up {
				d, err := c.decode(c.norm(p[0]))
				c.isNil("decoding the phrase succeeds", err)
				c.ok(err)
				d = c.norm(d)
				c.decodedIs(d, k.off, false)
				q := c.method("DecodedMnemonic", "Seed", d)
				c.ok(q[1])
				c.seedIs("recovered seed", c.norm(q[0]), k.seed)
				return
			}
			m := c.api(c.p.fn("", "RecoverPlaintext"), c.norm(p[0]), k.opts)
			c.isNil("recovery succeeds", m[1])
			c.ok(m[1])
			c.sameKey(k, c.norm(m[0]))
			c.noPanics("recovery")
		})
	}
}

func (c *Ctx) decodedIs(d Value, off Value, encrypted bool) {
	c.eq("decoded creation offset", c.method("DecodedMnemonic", "CreationOffset", d)[0], off)
	t := c.method("DecodedMnemonic", "Creation", d)[0]
	c.eq("decoded creation time", timeNs(c.norm(t)), scale(addI(off, epochStart), nsec))
	c.holds(fmt.Sprintf("phrase reported as encrypted=%v", encrypted), xnor(c.method("DecodedMnemonic", "Encrypted", d)[0], boolV(encrypted)))
}

func xnor(a, b Value) Value { return ite(a, b, not(b)) }

func (c *Ctx) seedIs(desc string, s Value, want Value) {
	c.eqBytes(desc+": bytes", c.method("Seed", "Bytes", s)[0], ropeFix(16, want))
	c.eq(desc+": integer", c.bigGet(c.norm(c.method("Seed", "Int", s)[0])), want)
	c.eq(desc+": era", c.method("Seed", "Era", s)[0], linInt(0))
}

func runC02(r *Run) {
	r.ctx("encrypted phrase of any seed, offset and password", func(c *Ctx) {
		s, sv := c.seedIn()
		off := offsetIn()
		c.assume(lt(off, linConst(pow2(31))))
		pw, _ := c.passwordIn()
		p := c.api(c.p.fn("", "EncodeMnemonicEncrypted"), s, off, pw, c.stream("random"))
		c.ok(p[1])
		d, err := c.decode(c.norm(p[0]))
		c.isNil("decoding the phrase succeeds", err)
		c.ok(err)
		d = c.norm(d)
		c.decodedIs(d, off, true)
		q := c.method("DecodedMnemonic", "DecryptSeed", d, pw)
		c.isNil("decryption with the same password succeeds", q[1])
		c.ok(q[1])
		c.seedIs("decrypted seed", c.norm(q[0]), sv)
		// a second decryption gives the same answer
		q = c.method("DecodedMnemonic", "DecryptSeed", d, pw)
		c.isNil("a second decryption succeeds", q[1])
		c.ok(q[1])
		c.seedIs("seed decrypted a second time", c.norm(q[0]), sv)
		c.noPanics("round trip")
	})
	r.ctx("encryption only fails when the random source fails", func(c *Ctx) {
		s, _ := c.seedIn()
		off := offsetIn()
		c.assume(lt(off, linConst(pow2(31))))
		pw, _ := c.passwordIn()
		c.assume(not(boolApp("randfail", ropeConst("random"), linInt(0))))
		p := c.api(c.p.fn("", "EncodeMnemonicEncrypted"), s, off, pw, c.stream("random"))
		c.isNil("encoding succeeds", p[1])
	})
	for _, up := range []bool{false, true} {
		name := "encrypted phrase of a key object"
		if up {
			name = "encrypted phrase of a key object, recovered"
		}
		r.ctx(name, func(c *Ctx) {
			k := c.newKey(keyCtx{ttl: "none"})
			if k == nil {
				return
			}
			pw, _ := c.passwordIn()
			p := c.method("Mnemonikey", "EncodeMnemonicEncrypted", k.mnk, pw, c.stream("random"))
			c.ok(p[1])
			if !up {
				d, err := c.decode(c.norm(p[0]))
				c.isNil("decoding the phrase succeeds", err)
				c.ok(err)
				d = c.norm(d)
				c.decodedIs(d, k.off, true)
				q := c.method("DecodedMnemonic", "DecryptSeed", d, pw)
				c.isNil("decryption succeeds", q[1])
				c.ok(q[1])
				c.seedIs("decrypted seed", c.norm(q[0]), k.seed)
				return
			}
			m := c.api(c.p.fn("", "RecoverEncrypted"), c.norm(p[0]), pw, k.opts)
			c.isNil("recovery succeeds", m[1])
			c.ok(m[1])
			c.sameKey(k, c.norm(m[0]))
			c.noPanics("recovery")
		})
	}
}

func runC03(r *Run) {
	r.ctx("plaintext phrase layout", func(c *Ctx) {
		s, sv := c.seedIn()
		off := offsetIn()
		p := c.api(c.p.fn("", "EncodeMnemonicPlaintext"), s, off)
		c.same("refused exactly for offsets of more than 31 bits", c.nilCond(p[1]), lt(off, linConst(pow2(31))))
		c.ok(p[1])
		c.eqWords("plaintext phrase", p[0], specPlainPhrase(sv, off))
	})
	r.ctx("encrypted phrase layout", func(c *Ctx) {
		s, sv := c.seedIn()
		off := offsetIn()
		pw, pwr := c.passwordIn()
		c.assume(lt(off, linConst(pow2(31))))
		p := c.api(c.p.fn("", "EncodeMnemonicEncrypted"), s, off, pw, c.stream("random"))
		c.ok(p[1])
		salt := intAtom("randint", zero, pow2(19).Sub(pow2(19), one), ropeConst("random"), linInt(0), linConst(pow2(19)))
		c.eqWords("encrypted phrase", p[0], specEncPhrase(sv, off, pwr, salt))
	})
	r.ctx("encrypted phrase offsets", func(c *Ctx) {
		s, _ := c.seedIn()
		off := offsetIn()
		pw, _ := c.passwordIn()
		c.assume(le(linConst(pow2(31)), off))
		p := c.api(c.p.fn("", "EncodeMnemonicEncrypted"), s, off, pw, c.stream("random"))
		c.notNil("offsets of more than 31 bits are refused", p[1])
	})
	for v, n := range []int{14, 16} {
		r.ctx(fmt.Sprintf("decoding of version %d words", v), func(c *Ctx) {
			ws := inputWords(n)
			d, err := c.decode(c.words(ws))
			c.ok(err)
			d = c.norm(d)
			all := allBits(ws)
			c.assume(eqInt(seg(all, 12*n-4, 4), linInt(int64(v))))
			if c.st.pc == bFalse {
				r.add("undecided", "decoding", "no phrase accepted", "")
				return
			}
			c.eq("creation offset of the decoded phrase", c.method("DecodedMnemonic", "CreationOffset", d)[0], seg(all, 5, 31))
			if v == 0 {
				q := c.method("DecodedMnemonic", "Seed", d)
				c.isNil("seed available", q[1])
				c.ok(q[1])
				c.seedIs("decoded seed", c.norm(q[0]), seg(all, 36, 128))
			} else {
				q := c.method("DecodedMnemonic", "Seed", d)
				c.notNil("no seed before decryption", q[1])
				pw := ropeStr("password", nil)
				q = c.method("DecodedMnemonic", "DecryptSeed", d, c.newBytes(pw))
				key := specSeedKey(pw, seg(all, 41, 19), seg(all, 5, 31))
				c.same("decryption succeeds exactly when the verification bits match", c.nilCond(q[1]),
					eqInt(seg(ropeInt(mustSlice(key, 16, 1)), 0, 5), seg(all, 36, 5)))
				c.ok(q[1])
				c.seedIs("decrypted seed", c.norm(q[0]), ropeInt(aesDec(mustSlice(key, 0, 16), ropeFix(16, seg(all, 60, 128)))))
			}
		})
	}
}

// allBits is the integer spelled by words.
func allBits(ws []Value) Value {
	var acc Value = linInt(0)
	for _, w := range ws {
		i, _ := wordIndex(lower(w.(*Rope)))
		acc = add(scale(acc, pow2(12)), i)
	}
	return acc
}

func allListed(ws []Value) Value {
	acc := Value(bTrue)
	for _, w := range ws {
		_, ok := wordIndex(lower(w.(*Rope)))
		acc = and(acc, ok)
	}
	return acc
}

// accepted is the condition under which words are a valid phrase.
func accepted(ws []Value) Value {
	n := len(ws)
	if n != 14 && n != 16 {
		return bFalse
	}
	ver := 0
	if n == 16 {
		ver = 1
	}
	all := allBits(ws)
	payload := seg(all, 5, 12*n-5)
	crc := intAtom("crc32ieee", zero, maxU32, ropeFix((12*n-5+7)/8, payload))
	return and(and(allListed(ws), eqInt(seg(all, 12*n-4, 4), linInt(int64(ver)))), eqInt(seg(crc, 0, 5), seg(all, 0, 5)))
}

func runC04(r *Run) {
	lens := []int{0, 1, 2, 3, 13, 14, 15, 16, 17, 18}
	if r.tier == "thorough" {
		lens = nil
		for i := 0; i <= 40; i++ {
			lens = append(lens, i)
		}
	}
	for _, n := range lens {
		r.ctx(fmt.Sprintf("%d arbitrary words", n), func(c *Ctx) {
			ws := inputWords(n)
			d, err := c.decode(c.words(ws))
			c.same("accepted exactly when the phrase is valid", c.nilCond(err), accepted(ws))
			c.holds("a result is returned exactly when there is no error", xnor(c.nilCond(err), not(c.nilCond(d))))
			c.noPanics("decoding")
		})
	}
	r.ctx("version of the first word", func(c *Ctx) {
		w := ropeStr("w0", nil)
		i, listed := wordIndex(lower(w))
		v := c.api(c.p.fn("", "ParseMnemonicVersion"), w)
		ver := seg(i, 8, 4)
		c.same("accepted exactly when listed and of a known version", c.nilCond(v[1]), and(listed, le(ver, linInt(1))))
		c.ok(v[1])
		c.eq("version", v[0], ver)
		c.eq("phrase length of the version", c.method("MnemonicVersion", "MnemonicSize", c.norm(v[0]))[0], ite(eqInt(ver, linInt(0)), linInt(14), linInt(16)))
		c.same("encrypted exactly for version 1", c.method("MnemonicVersion", "Encrypted", c.norm(v[0]))[0], eqInt(ver, linInt(1)))
	})
}
