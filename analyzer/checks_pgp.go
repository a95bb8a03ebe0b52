package main

// Exported OpenPGP keys: derivation, framing, signatures, protection.

import (
	"fmt"
	"math/big"
)

const pgpRule = "interprocedural abstract interpretation of the SSA form; the exported byte string's value number is read by an abstract OpenPGP reader (partitioned on header forms, user ID shapes and subkey orders) and each field is compared with the value the published formats prescribe"

func init() {
	register("C07", &checkDef{level: "proof", rule: pgpRule, assume: stdAssume, run: runC07,
		expl: "Secret and public parts of every exported key packet are compared, as value numbers over an arbitrary seed, creation time and subkey indices, with the published derivation."})
	register("C10", &checkDef{level: "proof", rule: pgpRule, assume: stdAssume, run: runC10,
		expl: "The exact condition under which a creation instant is accepted, and the creation time shown by the key object, by every key and signature packet and by the phrase, for an arbitrary instant."})
	register("C11", &checkDef{level: "proof", rule: pgpRule, assume: stdAssume, run: runC11,
		expl: "The exact condition under which a lifetime is accepted, and the expiry shown by the key object and by every signature, for an arbitrary lifetime."})
	register("C13", &checkDef{level: "proof", rule: pgpRule, assume: stdAssume, run: runC13,
		expl: "The exported byte string is read as a packet sequence for every user ID shape and length class, subkey subset and subkey order; order, lengths, integers, checksums and user ID are compared."})
	register("C14", &checkDef{level: "proof", rule: pgpRule, assume: stdAssume, run: runC14,
		expl: "Every signature value number must be an Ed25519 signature by the exported key it names over the digest of exactly the exported public keys, user ID and hashed subpackets."})
	register("C15", &checkDef{level: "proof", rule: pgpRule, assume: stdAssume, run: runC15,
		expl: "Every secret key packet of a password-protected export is compared with the OpenPGP string-to-key format over the secret of the unprotected export; salts and IVs are traced to disjoint bytes of the system random generator."})
	register("C16", &checkDef{level: "proof", rule: pgpRule, assume: stdAssume, run: runC16,
		expl: "The subkey-only export is read packet by packet; a value-flow walk shows the master secret reaches the output only through one-way functions; remaining packets are compared with the full export."})
	register("C17", &checkDef{level: "proof", rule: pgpRule, assume: stdAssume, run: runC17,
		expl: "Fingerprints reported by the key object are compared with the digest of the exported public key bodies for every subkey subset."})
}

// orders runs f in one context per subkey order the export can have.
func (r *Run) orders(name string, all bool, f func(c *Ctx)) {
	r.draws(name, all, f)
}

func (r *Run) draws(name string, all bool, f func(c *Ctx)) {
	var todo [][]int
	todo = append(todo, nil)
	done := map[string]bool{"[]": true}
	n := 0
	for len(todo) > 0 && n < 24 {
		d := todo[0]
		todo = todo[1:]
		n++
		nm := name
		if len(d) > 0 {
			nm = fmt.Sprintf("%s, subkey order %v", name, d)
		}
		r.ctx(nm, func(c *Ctx) {
			c.Engine.draws = d
			f(c)
			if !all || len(c.drawMax) == 0 || len(d) > 0 || len(c.drawMax) > 4 {
				return
			}
			var rec func(i int, cur []int)
			rec = func(i int, cur []int) {
				if i == len(c.drawMax) {
					k := fmt.Sprint(cur)
					zero := true
					for _, x := range cur {
						zero = zero && x == 0
					}
					if !done[k] && !zero {
						done[k] = true
						todo = append(todo, append([]int(nil), cur...))
					}
					return
				}
				for v := 0; v < c.drawMax[i]; v++ {
					rec(i+1, append(append([]int(nil), cur...), v))
				}
			}
			if len(c.drawMax) <= 2 {
				rec(0, nil)
			} else {
				// several exports in one context: same choices for each
				for v := 0; v < 6; v++ {
					cur := make([]int, len(c.drawMax))
					for i := range cur {
						if i%2 == 0 {
							cur[i] = v % c.drawMax[i]
						} else {
							cur[i] = (v / 3) % c.drawMax[i]
						}
					}
					k := fmt.Sprint(cur)
					if !done[k] && v > 0 {
						done[k] = true
						todo = append(todo, cur)
					}
				}
			}
		})
	}
}

// exportOf is the full export of a key, unprotected.
func (c *Ctx) exportOf(k *Key, pw Value) *Rope {
	x := c.method("Mnemonikey", "EncodePGP", k.mnk, pw)
	if pw == nilV {
		c.isNil("unprotected export succeeds", x[1])
	}
	c.ok(x[1])
	if c.st.pc == bFalse {
		c.r.add("undecided", "export", "no export succeeds", "")
		panic(bail{"export never succeeds"})
	}
	return c.bytesOf(c.norm(x[0]))
}

var subsets = [][]string{
	nil, {}, {"encryption"}, {"authentication"}, {"signing"},
	{"encryption", "authentication"}, {"encryption", "signing"}, {"authentication", "signing"},
	{"signing", "authentication", "encryption"}, {"encryption", "encryption"},
}

func subsetName(s []string) string {
	if s == nil {
		return "default subkeys"
	}
	return fmt.Sprintf("subkeys %v", s)
}

func runC07(r *Run) {
	for _, sub := range subsets {
		r.ctx("export with "+subsetName(sub), func(c *Ctx) {
			k := c.newKey(keyCtx{ttl: "none", subkeys: sub})
			if k == nil {
				return
			}
			b := c.exportOf(k, nilV)
			c.readExport(b, k, false, func(x *export) {
				ks := k.keys()
				c.derived("master", x.master, ks[0])
				c.holds(fmt.Sprintf("%d subkeys exported", len(ks)-1), boolV(len(x.subs) == len(ks)-1))
				for i, s := range x.subs {
					if s.kind == nil {
						c.certainly(c.st.pc, fmt.Sprintf("subkey %d is one that was asked for", i+1), "no key left it could be", true)
						continue
					}
					c.derived(s.kind.name, s.key, s.kind)
				}
			})
		})
	}
	r.ctx("export without options", func(c *Ctx) {
		s, sv := c.seedIn()
		off := intAtom("creation-offset", zero, big.NewInt(1<<31-1))
		unix := addI(off, epochStart)
		n := c.api(c.p.fn("", "New"), s, mkTime(scale(unix, nsec)), nilV)
		c.isNil("construction succeeds", n[1])
		c.ok(n[1])
		k := &Key{mnk: c.norm(n[0]), seed: sv, off: off, unix: unix, name: emptyRope, email: emptyRope, kc: keyCtx{noName: true, noEml: true}, zeroIdx: true}
		b := c.exportOf(k, nilV)
		c.readExport(b, k, false, func(x *export) {
			c.derived("master", x.master, k.keys()[0])
			for _, s := range x.subs {
				if s.kind != nil {
					c.derived(s.kind.name, s.key, s.kind)
				}
			}
		})
	})
	r.ctx("recovered keys", func(c *Ctx) {
		// recovery from arbitrary words derives from the seed and offset they spell
		ws := inputWords(14)
		all := allBits(ws)
		k := &Key{seed: seg(all, 36, 128), off: seg(all, 5, 31), name: emptyRope, email: emptyRope, kc: keyCtx{noName: true, noEml: true}, zeroIdx: true}
		k.unix = addI(k.off, epochStart)
		m := c.api(c.p.fn("", "RecoverPlaintext"), c.words(ws), nilV)
		c.ok(m[1])
		if c.st.pc == bFalse {
			r.add("undecided", "recovery", "never succeeds", "")
			return
		}
		k.mnk = c.norm(m[0])
		b := c.exportOf(k, nilV)
		c.readExport(b, k, false, func(x *export) {
			c.derived("master", x.master, k.keys()[0])
			for _, s := range x.subs {
				if s.kind != nil {
					c.derived(s.kind.name, s.key, s.kind)
				}
			}
		})
	})
}

// derived compares a key packet with the key the derivation prescribes.
func (c *Ctx) derived(what string, p *keyPkt, kk *keyKind) {
	c.eq(what+" public key", p.point, kk.public())
	if p.mpi == nil {
		c.certainly(c.st.pc, what+" secret key", "no secret integer in the packet", true)
		return
	}
	want := kk.seed
	if kk.ecdh() {
		want = reverse(clamp(kk.seed))
	}
	c.eq(what+" secret key", ropeInt(p.mpi), ropeInt(want))
}

func runC10(r *Run) {
	r.ctx("any creation instant", func(c *Ctx) {
		k := c.makeKey(keyCtx{ttl: "none", anyCreation: true})
		cr := intAtom("creation", nil, nil)
		inRange := and(le(linConst(mulB(epochStart)), cr), le(cr, linConst(mulB(epochStart+1<<31-1))))
		c.same("accepted exactly in the representable range", c.nilCond(k.err), inRange)
		c.holds("a key is returned exactly when there is no error", xnor(c.nilCond(k.err), not(c.nilCond(k.mnk))))
		c.noPanics("construction")
		c.ok(k.err)
		c.assume(inRange)
		k.mnk = c.norm(k.mnk)
		t := c.norm(c.method("Mnemonikey", "CreatedAt", k.mnk)[0])
		c.eq("creation time of the key object", timeNs(t), scale(k.unix, nsec))
	})
	for _, pw := range []bool{false, true} {
		r.ctx(fmt.Sprintf("creation time in packets, password=%v", pw), func(c *Ctx) {
			k := c.newKey(keyCtx{ttl: "some"})
			if k == nil {
				return
			}
			t := c.norm(c.method("Mnemonikey", "CreatedAt", k.mnk)[0])
			c.eq("creation time of the key object", timeNs(t), scale(k.unix, nsec))
			pv := Value(nilV)
			if pw {
				p := ropeStr("password", nil)
				c.strLen(p, 1, 1<<20)
				pv = c.newBytes(p)
			}
			c.readExport(c.exportOf(k, pv), k, false, func(x *export) {
				c.eq("creation time of the master key packet", x.master.unix, k.unix)
				for _, s := range x.subs {
					n := roleName(s)
					c.eq("creation time of the "+n+" packet", s.key.unix, k.unix)
					if b := c.oneSub(n+" binding signature has a time", s.sig.hashed, s.sig, 2); b != nil {
						c.eq("time of the "+n+" binding signature", ropeInt(b), k.unix)
					}
				}
				if x.cert != nil {
					if b := c.oneSub("self-certification has a time", x.cert.hashed, x.cert, 2); b != nil {
						c.eq("time of the self-certification", ropeInt(b), k.unix)
					}
				}
			})
		})
	}
	r.ctx("creation time in phrases", func(c *Ctx) {
		k := c.newKey(keyCtx{ttl: "none"})
		if k == nil {
			return
		}
		p := c.method("Mnemonikey", "EncodeMnemonicPlaintext", k.mnk)
		c.ok(p[1])
		d, err := c.decode(c.norm(p[0]))
		c.ok(err)
		c.eq("creation time of the decoded phrase", timeNs(c.norm(c.method("DecodedMnemonic", "Creation", c.norm(d))[0])), scale(k.unix, nsec))
	})
}

func roleName(s subRead) string {
	if s.kind == nil {
		return "unidentified subkey"
	}
	return s.kind.name + " subkey"
}

func runC11(r *Run) {
	r.ctx("any lifetime", func(c *Ctx) {
		k := c.makeKey(keyCtx{ttl: "any"})
		t := k.ttl
		ok := or(eqInt(t, linInt(0)), and(le(linConst(nsec), t), lt(t, linConst(mulB(1<<32)))))
		c.same("accepted exactly when zero or between one second and 2^32-1 seconds", c.nilCond(k.err), ok)
		c.holds("a key is returned exactly when there is no error", xnor(c.nilCond(k.err), not(c.nilCond(k.mnk))))
		c.noPanics("construction")
	})
	for _, ttl := range []string{"none", "some"} {
		r.ctx("lifetime "+ttl, func(c *Ctx) {
			k := c.newKey(keyCtx{ttl: ttl})
			if k == nil {
				return
			}
			secs := floorDiv(k.ttl, nsec)
			e := c.norm(c.method("Mnemonikey", "Expiry", k.mnk)[0])
			if ttl == "none" {
				c.eq("key object shows no expiry", timeNs(e), linConst(zeroTimeNs))
			} else {
				c.eq("expiry of the key object", timeNs(e), scale(add(k.unix, secs), nsec))
			}
			c.readExport(c.exportOf(k, nilV), k, false, func(x *export) {
				check := func(n string, s *sigPkt) {
					if ttl == "none" {
						c.holds("no expiry in the "+n, boolV(len(s.find(s.hashed, 9)) == 0 && len(s.find(s.unhashed, 9)) == 0))
						c.holds("no signature expiry in the "+n, boolV(len(s.find(s.hashed, 3)) == 0 && len(s.find(s.unhashed, 3)) == 0))
						return
					}
					if b := c.oneSub("one signed expiry in the "+n, s.hashed, s, 9); b != nil {
						c.eq("lifetime signed by the "+n, ropeInt(b), secs)
						c.eq("size of the lifetime field of the "+n, ropeLen(b), linInt(4))
					}
				}
				if x.cert != nil {
					check("self-certification", x.cert)
				}
				for _, s := range x.subs {
					check(roleName(s)+" binding signature", s.sig)
				}
			})
		})
	}
}

// uidShapes are the user ID classes: presence of name and email, and length bounds.
type uidShape struct {
	name          string
	noName, noEml bool
	max           int64
}

var uidShapes = []uidShape{
	{"name and email", false, false, 60},
	{"name only", false, true, 190},
	{"email only", true, false, 190},
	{"no user ID", true, true, 0},
	{"long name and email", false, false, 1 << 20},
	{"long name", false, true, 1 << 20},
	{"long email", true, false, 1 << 20},
}

func runC13(r *Run) {
	one := func(c *Ctx, k *Key, armor bool) {
		b := c.exportOf(k, nilV)
		c.readExport(b, k, true, func(x *export) { c.framing(x, k, true) })
		if armor {
			a := c.method("Mnemonikey", "EncodePGPArmor", k.mnk, nilV)
			c.isNil("armored export succeeds", a[1])
			c.ok(a[1])
			app := wholeApp(ropeOf(c.norm(a[0])), "armor")
			if app == nil {
				c.r.add("undecided", "armored export is an armor block", short(show(c.norm(a[0]))), "")
				return
			}
			c.eq("armor block type", app.args[0], ropeConst("PGP PRIVATE KEY BLOCK"))
			c.eq("armored bytes are the binary export", app.args[2], b)
		}
	}
	for _, u := range uidShapes {
		for _, ttl := range []string{"none", "some"} {
			if ttl == "some" && u.name != "name and email" && r.tier != "thorough" {
				continue
			}
			u := u
			r.draws(fmt.Sprintf("%s, lifetime %s", u.name, ttl), u.name == "name and email" || r.tier == "thorough", func(c *Ctx) {
				k := c.newKey(keyCtx{ttl: ttl, noName: u.noName, noEml: u.noEml, uidMax: u.max})
				if k != nil {
					one(c, k, u.name == "name and email")
				}
			})
		}
	}
	for _, sub := range subsets[1:] {
		r.draws(subsetName(sub), true, func(c *Ctx) {
			k := c.newKey(keyCtx{ttl: "none", subkeys: sub})
			if k != nil {
				one(c, k, false)
			}
		})
	}
	r.ctx("armored subkey export", func(c *Ctx) {
		k := c.newKey(keyCtx{ttl: "some"})
		if k == nil {
			return
		}
		for _, cert := range []bool{true, false} {
			x := c.method("Mnemonikey", "EncodeSubkeysPGP", k.mnk, nilV, boolV(cert))
			c.isNil("subkey export succeeds", x[1])
			c.ok(x[1])
			a := c.method("Mnemonikey", "EncodeSubkeysPGPArmor", k.mnk, nilV, boolV(cert))
			c.isNil("armored subkey export succeeds", a[1])
			c.ok(a[1])
			b := c.bytesOf(c.norm(x[0]))
			app := wholeApp(ropeOf(c.norm(a[0])), "armor")
			if app == nil {
				c.r.add("undecided", "armored export is an armor block", short(show(c.norm(a[0]))), "")
				return
			}
			c.eq("armor block type", app.args[0], ropeConst("PGP PRIVATE KEY BLOCK"))
			c.eq("armored bytes are the binary export", app.args[2], b)
			c.readExport(b, k, true, func(x *export) { c.framing(x, k, cert) })
		}
	})
}

// framing checks that an export is a well-formed transferable secret key.
func (c *Ctx) framing(x *export, k *Key, cert bool) {
	want := "5 13"
	if cert {
		want += " 2"
	}
	ks := k.keys()
	for range ks[1:] {
		want += " 7 2"
	}
	if got := tags(x.pkts); got != want {
		c.certainly(c.st.pc, "packet order", "packet tags "+got+" instead of "+want, true)
	} else {
		c.r.add("proved", "packet order", "", "")
	}
	c.eq("user ID packet", x.uid, k.uid())
	c.eq("user ID of the key object", c.method("Mnemonikey", "UserID", k.mnk)[0], k.uid())
	if x.master.algo != 22 {
		c.certainly(c.st.pc, "master key algorithm", fmt.Sprint(x.master.algo), true)
	}
	c.keyFraming("master key", x.master)
	if x.cert != nil {
		c.sigFraming("self-certification", x.cert)
	}
	seen := map[string]bool{}
	for _, s := range x.subs {
		n := roleName(s)
		if s.kind == nil || seen[s.kind.name] {
			c.certainly(c.st.pc, "each enabled subkey occurs once", n+" is not one that was asked for", true)
			continue
		}
		seen[s.kind.name] = true
		c.keyFraming(n, s.key)
		if s.kind.ecdh() {
			if s.key.algo != 18 {
				c.certainly(c.st.pc, n+" algorithm", fmt.Sprint(s.key.algo), true)
			} else {
				c.eq(n+" KDF parameters", s.key.kdf, ropeConst("\x01\x08\x07"))
			}
		} else if s.key.algo != 22 {
			c.certainly(c.st.pc, n+" algorithm", fmt.Sprint(s.key.algo), true)
		}
		c.sigFraming(n+" binding signature", s.sig)
	}
	for _, kk := range ks[1:] {
		if !seen[kk.name] {
			c.certainly(c.st.pc, "each enabled subkey occurs once", kk.name+" subkey missing", true)
		}
	}
}

func (c *Ctx) keyFraming(n string, p *keyPkt) {
	if p.usage != 0 {
		return
	}
	c.eq(n+": secret integer has its exact bit count", p.mpiN, bitLen(ropeInt(p.mpi)))
	s, ok := byteSum(ropeCat(ropeFix(2, p.mpiN), p.mpi))
	if !ok {
		c.r.add("undecided", n+": checksum", "byte sum not expressible", "")
		return
	}
	c.eq(n+": checksum is the byte sum", p.sum, seg(s, 0, 16))
}

func (c *Ctx) sigFraming(n string, s *sigPkt) {
	c.eq(n+": R has its exact bit count", s.rBits, bitLen(ropeInt(s.r)))
	c.eq(n+": S has its exact bit count", s.sBits, bitLen(ropeInt(s.s)))
}

// ---------------------------------------------------------------------------

var sigHashes = map[int]string{8: "sha256", 9: "sha384", 10: "sha512", 11: "sha224"}

// signer is the private seed behind an exported Ed25519 public point.
func signer(point *Rope) *Rope {
	if a := wholeApp(point, "edpub"); a != nil {
		return a.args[0].(*Rope)
	}
	return nil
}

// signedBy checks one signature: made with the private half of `key` over `data`.
func (c *Ctx) signedBy(n string, s *sigPkt, typ int, key *keyPkt, data *Rope) {
	if s.typ != typ {
		c.certainly(c.st.pc, n+": signature type", fmt.Sprintf("%#x instead of %#x", s.typ, typ), true)
	}
	if s.pk != 22 {
		c.certainly(c.st.pc, n+": algorithm", fmt.Sprint(s.pk), true)
	}
	h := sigHashes[s.hash]
	if h == "" {
		c.certainly(c.st.pc, n+": hash algorithm", fmt.Sprint(s.hash), true)
		return
	}
	seed := signer(key.point)
	if seed == nil {
		c.r.add("undecided", n+": signer", "exported point is not an Ed25519 public key: "+short(show(key.point)), "")
		return
	}
	d := digest(h, ropeCat(data, s.head, ropeConst("\x04\xff"), ropeFix(4, seg(ropeLen(s.head), 0, 32))))
	c.eq(n+": digest prefix", s.preview, mustSlice(c.norm(d).(*Rope), 0, 2))
	sig := ropeStr("edsign", linInt(64), ropeCat(seed, key.point), c.norm(d).(*Rope))
	c.eq(n+": R of the signature over the exported data", ropeInt(s.r), ropeInt(mustSlice(sig, 0, 32)))
	c.eq(n+": S of the signature over the exported data", ropeInt(s.s), ropeInt(mustSlice(sig, 32, 32)))
	fp := digest("sha1", hashedKey(key.pub))
	if b := c.oneSub(n+": one signed issuer fingerprint", s.hashed, s, 33); b != nil {
		c.eq(n+": issuer fingerprint", b, ropeCat(ropeConst("\x04"), fp))
	}
	for _, b := range append(s.find(s.hashed, 16), s.find(s.unhashed, 16)...) {
		c.eq(n+": issuer key ID", b.body, mustSlice(fp, 12, 8))
	}
}

func (c *Ctx) flagsAre(n string, s *sigPkt, want byte) {
	if b := c.oneSub(n+": one signed set of key flags", s.hashed, s, 27); b != nil {
		c.eq(n+": key flags", b, ropeConst(string([]byte{want})))
	}
	c.holds(n+": no unsigned key flags", boolV(len(s.find(s.unhashed, 27)) == 0))
}

func (c *Ctx) signatures(x *export, cert bool) {
	mk := hashedKey(x.master.pub)
	if cert {
		if x.cert == nil {
			c.certainly(c.st.pc, "self-certification", "missing", true)
		} else {
			c.signedBy("self-certification", x.cert, 0x13, x.master, ropeCat(mk, ropeConst("\xb4"), ropeFix(4, ropeLen(x.uid)), x.uid))
			c.flagsAre("self-certification", x.cert, 0x01)
		}
	}
	for _, s := range x.subs {
		n := roleName(s) + " binding"
		data := ropeCat(mk, hashedKey(s.key.pub))
		c.signedBy(n, s.sig, 0x18, x.master, data)
		if s.kind == nil {
			continue
		}
		c.flagsAre(n, s.sig, s.kind.flags)
		emb := append(s.sig.find(s.sig.hashed, 32), s.sig.find(s.sig.unhashed, 32)...)
		if s.kind.name != "signing" {
			c.holds(n+": no embedded signature", boolV(len(emb) == 0))
			continue
		}
		if len(emb) != 1 {
			c.certainly(c.st.pc, n+": one embedded signature", fmt.Sprint(len(emb)), true)
			continue
		}
		back, e := parseSig(emb[0].body, c.st.pc, n+" cross-certification")
		if e != nil {
			c.certainly(e.where(c.st.pc), n+": cross-certification readable", e.why, e.certain)
			continue
		}
		c.signedBy(n+" cross-certification", back, 0x19, s.key, data)
	}
}

func runC14(r *Run) {
	for _, u := range uidShapes {
		for _, ttl := range []string{"none", "some"} {
			if ttl == "some" && u.name != "name and email" && r.tier != "thorough" {
				continue
			}
			u := u
			r.draws(fmt.Sprintf("%s, lifetime %s", u.name, ttl), r.tier == "thorough", func(c *Ctx) {
				k := c.newKey(keyCtx{ttl: ttl, noName: u.noName, noEml: u.noEml, uidMax: u.max})
				if k == nil {
					return
				}
				c.readExport(c.exportOf(k, nilV), k, false, func(x *export) { c.signatures(x, true) })
			})
		}
	}
	for _, sub := range subsets[1:] {
		r.draws(subsetName(sub), r.tier == "thorough", func(c *Ctx) {
			k := c.newKey(keyCtx{ttl: "none", subkeys: sub})
			if k == nil {
				return
			}
			c.readExport(c.exportOf(k, nilV), k, false, func(x *export) { c.signatures(x, true) })
		})
	}
	for _, cert := range []bool{true, false} {
		r.ctx(fmt.Sprintf("subkey export, self-certification=%v", cert), func(c *Ctx) {
			k := c.newKey(keyCtx{ttl: "some"})
			if k == nil {
				return
			}
			b := c.method("Mnemonikey", "EncodeSubkeysPGP", k.mnk, nilV, boolV(cert))
			c.ok(b[1])
			c.readExport(c.bytesOf(c.norm(b[0])), k, false, func(x *export) { c.signatures(x, cert) })
		})
	}
	r.ctx("password-protected export", func(c *Ctx) {
		k := c.newKey(keyCtx{ttl: "some"})
		if k == nil {
			return
		}
		p := ropeStr("password", nil)
		c.strLen(p, 1, 1<<20)
		c.readExport(c.exportOf(k, c.newBytes(p)), k, false, func(x *export) { c.signatures(x, true) })
	})
}

// ---------------------------------------------------------------------------

const s2kCount = 65011712

var oneWay = map[string]bool{"edpub": true, "edsign": true, "x25519": true, "sha1": true, "sha256": true, "sha512": true, "argon2id": true, "hkdf": true, "bitlen": true}

// showsSecret looks for the secrets of keys in a value, not looking into one-way
// functions or into ciphertexts.
func showsSecret(v Value, secrets map[*App]string, through func(a *App) bool) string {
	found := ""
	walk(v, func(x Value) bool {
		if a, ok := x.(*App); ok {
			if n := secretName(a, secrets); n != "" && found == "" {
				found = n
			}
			if oneWay[a.fn] || (through != nil && through(a)) {
				return false
			}
		}
		return true
	})
	return found
}

// secretName recognises a secret, also where facts of the path have rewritten its arguments.
func secretName(a *App, secrets map[*App]string) string {
	if n := secrets[a]; n != "" || a.fn != "hkdf" || len(a.args) < 4 {
		return n
	}
	info, ok := a.args[2].(*Rope)
	if !ok {
		return ""
	}
	for s, n := range secrets {
		if s.fn != "hkdf" || s.args[0] != a.args[0] || s.args[3] != a.args[3] {
			continue
		}
		if s.args[2] == a.args[2] || !isConstRope(info) && ropeLen(s.args[2].(*Rope)) == ropeLen(info) {
			return n
		}
	}
	return ""
}

func secretApps(ks []*keyKind) map[*App]string {
	out := map[*App]string{}
	for _, k := range ks {
		if a := wholeApp(k.seed, "hkdf"); a != nil {
			out[a] = k.name
		}
	}
	return out
}

// protected checks one password-protected key packet against the secret of the same key
// in the unprotected export.
func (c *Ctx) protected(n string, p, plain *keyPkt, pw *Rope, used *[]bitSource) {
	if p.usage != 254 {
		c.certainly(c.st.pc, n+": secret is encrypted", fmt.Sprintf("string-to-key usage octet %d", p.usage), true)
		return
	}
	kl := map[int]int64{7: 16, 8: 24, 9: 32}[p.cipher]
	if kl == 0 || p.mode != 3 || sigHashes[p.hash] == "" {
		c.certainly(c.st.pc, n+": string-to-key parameters", fmt.Sprintf("cipher %d mode %d hash %d", p.cipher, p.mode, p.hash), true)
		return
	}
	if p.cipher != 9 || p.hash != 8 {
		c.certainly(c.st.pc, n+": AES-256 under SHA-256", fmt.Sprintf("cipher %d hash %d", p.cipher, p.hash), true)
		return
	}
	count := int64(16+p.count&15) << (uint(p.count>>4) + 6)
	if count != s2kCount {
		c.certainly(c.st.pc, n+": iteration count is the maximum", fmt.Sprint(count), true)
	}
	c.eq(n+": public part unchanged", p.pub, plain.pub)
	// salt and IV
	for _, f := range []struct {
		n string
		r *Rope
	}{{"salt", p.salt}, {"IV", p.iv}} {
		src, ok := sourcesOf(c.norm(f.r).(*Rope))
		fresh := ok
		for _, s := range src {
			if s.a.fn != "random" || s.a.args[0] != Value(ropeConst("crypto/rand")) {
				fresh = false
			}
		}
		if !fresh {
			if !ok && !isConstRope(c.norm(f.r).(*Rope)) {
				c.r.add("undecided", n+": "+f.n+" is random", short(show(c.norm(f.r))), "")
			} else {
				c.certainly(c.st.pc, n+": "+f.n+" is random", short(show(c.norm(f.r))), true)
			}
			continue
		}
		c.r.add("proved", n+": "+f.n+" is random", "", "")
		for _, s := range src {
			for _, u := range *used {
				if u.a == s.a && u.lo < s.lo+s.w && s.lo < u.lo+u.w {
					c.certainly(c.st.pc, n+": "+f.n+" is fresh", "bytes of the random generator are used twice: "+short(show(c.norm(f.r))), true)
				}
			}
		}
		*used = append(*used, src...)
	}
	pre := ropeCat(p.salt, pw)
	key := digest("sha256", ropeCyc(pre, linInt(count)))
	m := ropeCat(ropeFix(2, plain.mpiN), plain.mpi)
	pt := ropeCat(m, digest("sha1", m))
	want := ropeStr("aes-CFBEncrypter", ropeLen(pt), key, p.iv, emptyRope, pt)
	c.eq(n+": ciphertext is the secret of the unprotected export under the password", p.ct, want)
}

// sameRest requires the packets of two readings that hold no secret to be equal.
func (c *Ctx) sameRest(what string, x, y *export, cert bool) {
	c.eq("user ID as in "+what, x.uid, y.uid)
	body := func(e *export, n int) *Rope {
		k := 0
		for _, p := range e.pkts {
			if p.tag == 2 {
				if k == n {
					return p.body
				}
				k++
			}
		}
		return nil
	}
	bi, bj := 0, 0
	if x.cert != nil {
		bi = 1
	}
	if y.cert != nil {
		bj = 1
	}
	if cert && x.cert != nil && y.cert != nil {
		c.eq("self-certification as in "+what, body(x, 0), body(y, 0))
	}
	for i, s := range x.subs {
		for j, t := range y.subs {
			if s.kind == nil || t.kind == nil || s.kind.name != t.kind.name {
				continue
			}
			c.eq(roleName(s)+" public part as in "+what, s.key.pub, t.key.pub)
			if a, b := body(x, bi+i), body(y, bj+j); a != nil && b != nil {
				c.eq(roleName(s)+" binding signature as in "+what, a, b)
			}
			if i != j {
				c.certainly(c.st.pc, "order of subkeys as in "+what, fmt.Sprintf("%s is number %d instead of %d", roleName(s), i+1, j+1), true)
			}
		}
	}
}

// sameOrder requires the subkey orders of two exports to be drawn from the same values.
func (c *Ctx) sameOrder(what string, got, want []Value) {
	for i, s := range got {
		if i < len(want) {
			c.eq("order of subkeys as in "+what, s, want[i])
		}
	}
}

func isConstRope(r *Rope) bool { _, ok := ropeConstStr(r); return ok }

func runC15(r *Run) {
	fixed := int64(0)
	pwIn := func(c *Ctx) (*Rope, Value) {
		if fixed > 0 {
			p := ropeStr("password", linInt(fixed))
			return p, c.newBytes(p)
		}
		p := ropeStr("password", nil)
		c.strLen(p, 1, 1<<20)
		return p, c.newBytes(p)
	}
	cases := []struct {
		sub string
		pw  int64
	}{{"full", 0}, {"subkeys", 0}, {"full, lifetime", 0}, {"full", 7}, {"subkeys", 1}, {"full", 40}, {"full", 100}, {"subkeys", 1500}}
	for _, cs := range cases {
		sub := cs.sub
		fixed = cs.pw
		label := sub + " export under any password"
		if fixed > 0 {
			label += fmt.Sprintf(" of %d bytes", fixed)
		}
		r.ctx(label, func(c *Ctx) {
			ttl := "none"
			if sub == "full, lifetime" {
				ttl = "some"
			}
			k := c.newKey(keyCtx{ttl: ttl})
			if k == nil {
				return
			}
			plain := c.exportOf(k, nilV)
			order := append([]Value(nil), c.shuffles...)
			pw, pv := pwIn(c)
			var used []bitSource
			for round := 1; round <= 2; round++ {
				var b *Rope
				c.drawPos = 0
				made := len(c.shuffles)
				if sub == "subkeys" {
					x := c.method("Mnemonikey", "EncodeSubkeysPGP", k.mnk, pv, bTrue)
					c.ok(x[1])
					b = c.bytesOf(c.norm(x[0]))
				} else {
					b = c.exportOf(k, pv)
				}
				c.sameOrder("the unprotected export", c.shuffles[made:], order)
				first := true
				start := used
				c.readExport(b, k, true, func(x *export) {
					used := &used
					if !first {
						// another header form of the same bytes
						cp := append([]bitSource(nil), start...)
						used = &cp
					}
					first = false
					ref := map[string]*keyPkt{}
					saved := c.st.pc
					n := 0
					c.readExport(plain, k, false, func(y *export) {
						n++
						ref["master"] = y.master
						for _, s := range y.subs {
							ref[roleName(s)] = s.key
						}
						c.sameRest("the unprotected export", x, y, true)
					})
					c.st.pc = saved
					if n == 0 || ref["master"] == nil {
						return
					}
					if sub == "subkeys" {
						c.holds("master packet is a stub", boolV(x.master.stub))
					} else {
						c.protected("master", x.master, ref["master"], pw, used)
					}
					for _, s := range x.subs {
						if p := ref[roleName(s)]; p != nil {
							c.protected(roleName(s), s.key, p, pw, used)
						}
					}
				})
				leak := showsSecret(b, secretApps(k.keys()), func(a *App) bool { return a.fn == "aes-CFBEncrypter" })
				if leak != "" {
					c.certainly(c.st.pc, "no secret outside the ciphertexts", leak+" secret appears in the clear", true)
				} else {
					c.r.add("proved", "no secret outside the ciphertexts", "", "")
				}
			}
			c.noPanics("export")
		})
	}
	fixed = 0
	r.ctx("armored export under any password", func(c *Ctx) {
		k := c.newKey(keyCtx{ttl: "none"})
		if k == nil {
			return
		}
		_, pv := pwIn(c)
		for _, sub := range []bool{false, true} {
			var a []Value
			if sub {
				a = c.method("Mnemonikey", "EncodeSubkeysPGPArmor", k.mnk, pv, bTrue)
			} else {
				a = c.method("Mnemonikey", "EncodePGPArmor", k.mnk, pv)
			}
			c.ok(a[1])
			leak := showsSecret(c.norm(a[0]), secretApps(k.keys()), func(a *App) bool { return a.fn == "aes-CFBEncrypter" })
			if leak != "" {
				c.certainly(c.st.pc, "no secret outside the ciphertexts", leak+" secret appears in the clear", true)
			} else {
				c.r.add("proved", "no secret outside the ciphertexts", "", "")
			}
			app := wholeApp(ropeOf(c.norm(a[0])), "armor")
			if app == nil {
				c.r.add("undecided", "armored export is an armor block", short(show(c.norm(a[0]))), "")
				continue
			}
			c.readExport(app.args[2].(*Rope), k, false, func(x *export) {
				if !sub {
					c.holds("master packet is encrypted", boolV(x.master.usage == 254 && !x.master.stub))
				}
				for _, s := range x.subs {
					c.holds(roleName(s)+" packet is encrypted", boolV(s.key.usage == 254 && !s.key.stub))
				}
			})
		}
	})
	r.ctx("empty password", func(c *Ctx) {
		k := c.newKey(keyCtx{ttl: "none"})
		if k == nil {
			return
		}
		plain := c.exportOf(k, nilV)
		c.eq("export under an empty password is the unprotected export", c.exportOf(k, c.newBytes(emptyRope)), plain)
	})
}

func runC16(r *Run) {
	for _, pw := range []bool{false, true} {
		for _, cert := range []bool{true, false} {
			for _, sub := range [][]string{nil, {}, {"signing"}} {
				if sub != nil && (pw || !cert) && r.tier != "thorough" {
					continue
				}
				r.draws(fmt.Sprintf("password=%v, self-certification=%v, %s", pw, cert, subsetName(sub)), r.tier == "thorough", func(c *Ctx) {
					k := c.newKey(keyCtx{ttl: "some", subkeys: sub})
					if k == nil {
						return
					}
					pv := Value(nilV)
					if pw {
						p := ropeStr("password", nil)
						c.strLen(p, 1, 1<<20)
						pv = c.newBytes(p)
					}
					made := len(c.shuffles)
					x := c.method("Mnemonikey", "EncodeSubkeysPGP", k.mnk, pv, boolV(cert))
					order := append([]Value(nil), c.shuffles[made:]...)
					if !pw {
						c.isNil("export succeeds", x[1])
					}
					c.ok(x[1])
					b := c.bytesOf(c.norm(x[0]))
					if why := unknownIn(b); why != "" {
						r.add("undecided", "subkey export", why, "")
						return
					}
					ks := k.keys()
					if showsSecret(b, secretApps(ks[:1]), nil) != "" {
						c.certainly(c.st.pc, "master secret does not reach the output", "the master key's private seed is part of the exported bytes", true)
					} else {
						r.add("proved", "master secret does not reach the output", "", "")
					}
					a := c.method("Mnemonikey", "EncodeSubkeysPGPArmor", k.mnk, pv, boolV(cert))
					c.ok(a[1])
					if showsSecret(c.norm(a[0]), secretApps(ks[:1]), nil) != "" {
						c.certainly(c.st.pc, "master secret does not reach the armored output", "the master key's private seed is part of the exported bytes", true)
					} else {
						r.add("proved", "master secret does not reach the armored output", "", "")
					}
					made = len(c.shuffles)
					c.drawPos = 0
					full := c.exportOf(k, nilV)
					c.sameOrder("the full export", order, c.shuffles[made:])
					c.readExport(b, k, true, func(x *export) {
						c.holds("master packet is a stub without secret", boolV(x.master.stub && x.master.mpi == nil && x.master.ct == nil))
						c.holds(fmt.Sprintf("self-certification present: %v", cert), boolV((x.cert != nil) == cert))
						saved := c.st.pc
						c.readExport(full, k, false, func(y *export) {
							c.eq("master public part", x.master.pub, y.master.pub)
							c.sameRest("the full export", x, y, cert)
							if len(x.subs) != len(y.subs) {
								c.certainly(c.st.pc, "same subkeys as the full export", fmt.Sprintf("%d instead of %d", len(x.subs), len(y.subs)), true)
								return
							}
							for _, s := range x.subs {
								for _, t := range y.subs {
									if s.kind == nil || t.kind == nil || s.kind.name != t.kind.name {
										continue
									}
									if !pw {
										c.eq(roleName(s)+" secret", ropeInt(orEmpty(s.key.mpi)), ropeInt(orEmpty(t.key.mpi)))
									}
									c.holds(roleName(s)+" has its secret", boolV(!s.key.stub && (s.key.mpi != nil || s.key.ct != nil)))
								}
							}
						})
						c.st.pc = saved
					})
					c.noPanics("export")
				})
			}
		}
	}
}

func orEmpty(r *Rope) *Rope {
	if r == nil {
		return emptyRope
	}
	return r
}

func runC17(r *Run) {
	for _, sub := range subsets {
		r.ctx(subsetName(sub), func(c *Ctx) {
			k := c.newKey(keyCtx{ttl: "none", subkeys: sub})
			if k == nil {
				return
			}
			fp := c.norm(c.method("Mnemonikey", "Fingerprint", k.mnk)[0])
			c.readExport(c.exportOf(k, nilV), k, false, func(x *export) {
				c.eqBytes("master fingerprint", fp, digest("sha1", hashedKey(x.master.pub)))
				for _, s := range x.subs {
					if s.kind == nil {
						continue
					}
					f := c.norm(c.method("Mnemonikey", "SubkeyFingerprint", k.mnk, ropeConst(s.kind.name))[0])
					c.eqBytes(roleName(s)+" fingerprint", f, digest("sha1", hashedKey(s.key.pub)))
				}
			})
			var want []Value
			for _, t := range []string{"encryption", "authentication", "signing"} {
				if has(k.kc.subs(), t) {
					want = append(want, ropeConst(t))
				} else {
					f := c.norm(c.method("Mnemonikey", "SubkeyFingerprint", k.mnk, ropeConst(t))[0])
					c.eq("no fingerprint for the absent "+t+" subkey", c.sliceLen(f), linInt(0))
				}
			}
			other := ropeStr("other-type", nil)
			c.assume(not(ropeEq(other, ropeConst("encryption"))))
			c.assume(not(ropeEq(other, ropeConst("authentication"))))
			c.assume(not(ropeEq(other, ropeConst("signing"))))
			f := c.norm(c.method("Mnemonikey", "SubkeyFingerprint", k.mnk, other)[0])
			c.eq("no fingerprint for other names", c.sliceLen(f), linInt(0))
			ts := c.norm(c.method("Mnemonikey", "SubkeyTypes", k.mnk)[0])
			c.eq("number of subkey types", c.sliceLen(ts), linInt(int64(len(want))))
			got := c.strings(ts)
			if len(got) == len(want) {
				left := map[Value]int{}
				for _, w := range want {
					left[w]++
				}
				for _, g := range got {
					left[c.norm(g)]--
				}
				for w, n := range left {
					if n != 0 {
						c.certainly(c.st.pc, "subkey types listed", short(show(w)), true)
					}
				}
			}
			c.noPanics("fingerprints")
		})
	}
}
