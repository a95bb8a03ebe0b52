package main

// Contexts in which a key object is made through the public constructor.

import (
	"go/types"
	"math/big"
)

type keyCtx struct {
	ttl           string // none, some, any
	noName, noEml bool
	uidMax        int64
	subkeys       []string // nil: default (all)
	anyCreation   bool
}

// Key is a key object together with what it was made from.
type Key struct {
	mnk     Value
	opts    Value
	seedV   Value
	seed    Value
	off     Value // creation offset in seconds
	unix    Value
	ttl     Value
	name    *Rope
	email   *Rope
	kc      keyCtx
	fields  map[string]Value
	err     Value
	zeroIdx bool
}

func u16(n string) *Lin { return intAtom(n, zero, maxU16) }

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (kc keyCtx) subs() []string {
	if kc.subkeys == nil {
		return []string{"encryption", "authentication", "signing"}
	}
	return kc.subkeys
}

// newKey calls the constructor; the result is the state in which it succeeded.
func (c *Ctx) newKey(kc keyCtx) *Key {
	k := c.makeKey(kc)
	c.ok(k.err)
	if c.st.pc == bFalse {
		c.r.add("undecided", "key constructed", "the constructor never succeeds", "")
		return nil
	}
	k.mnk = c.norm(k.mnk)
	return k
}

// makeKey calls the constructor without assuming that it succeeds.
func (c *Ctx) makeKey(kc keyCtx) *Key {
	k := &Key{kc: kc}
	k.seedV, k.seed = func() (Value, Value) { a, b := c.seedIn(); return a, b }()
	if kc.uidMax == 0 {
		kc.uidMax = 60
	}
	k.name, k.email = ropeStr("name", nil), ropeStr("email", nil)
	if kc.noName {
		k.name = emptyRope
	} else {
		c.strLen(k.name, 1, kc.uidMax)
	}
	if kc.noEml {
		k.email = emptyRope
	} else {
		c.strLen(k.email, 1, kc.uidMax)
	}
	var cr Value
	if kc.anyCreation {
		cr = intAtom("creation", nil, nil)
		k.unix = floorDiv(cr, nsec)
		k.off = addI(k.unix, -epochStart)
	} else {
		// every instant from the epoch on that a phrase can record
		k.off = intAtom("creation-offset", zero, big.NewInt(1<<31-1))
		k.unix = addI(k.off, epochStart)
		cr = add(scale(k.unix, nsec), intAtom("creation-ns", zero, big.NewInt(999999999)))
		c.assume(le(cr, linConst(mulB(epochStart+1<<31-1))))
	}
	k.ttl = linInt(0)
	switch kc.ttl {
	case "some":
		t := intAtom("ttl", minI64, maxI64)
		c.assume(le(linConst(nsec), t))
		c.assume(lt(t, linConst(mulB(1<<32))))
		k.ttl = t
	case "any":
		k.ttl = intAtom("ttl", minI64, maxI64)
	}
	k.fields = map[string]Value{
		"Name": k.name, "Email": k.email, "TTL": k.ttl,
		"EncryptionSubkeyIndex":     u16("encryption-index"),
		"AuthenticationSubkeyIndex": u16("authentication-index"),
		"SigningSubkeyIndex":        u16("signing-index"),
	}
	if kc.subkeys != nil {
		var es []Value
		for _, s := range kc.subkeys {
			es = append(es, ropeConst(s))
		}
		k.fields["Subkeys"] = c.newSliceOf(types.NewSlice(c.p.typ("", "SubkeyType")), es)
	}
	k.opts = c.keyOptions(k.fields)
	r := c.api(c.p.fn("", "New"), k.seedV, mkTime(cr), k.opts)
	k.mnk, k.err = r[0], r[1]
	return k
}

// keys lists the keys the specification derives: the master key first.
func (k *Key) keys() []*keyKind {
	root := specRoot(ropeFix(16, k.seed), k.unix)
	out := []*keyKind{{"master", specMaster(root), 0x01}}
	fl := map[string]byte{"encryption": 0x0c, "authentication": 0x20, "signing": 0x02}
	for _, t := range []string{"encryption", "authentication", "signing"} {
		if has(k.kc.subs(), t) {
			idx := Value(u16(t + "-index"))
			if k.zeroIdx {
				idx = linInt(0)
			}
			out = append(out, &keyKind{t, specSub(root, t, idx), fl[t]})
		}
	}
	return out
}

func (k *Key) uid() *Rope { return specUID(k.name, k.email, !k.kc.noName, !k.kc.noEml) }

// sameKey requires another key object to be the same key as k in all it shows.
func (c *Ctx) sameKey(k *Key, m Value) {
	c.eqBytes("fingerprint", c.method("Mnemonikey", "Fingerprint", m)[0], c.bytesOf(c.norm(c.method("Mnemonikey", "Fingerprint", k.mnk)[0])))
	for _, t := range []string{"encryption", "authentication", "signing"} {
		c.eqBytes(t+" subkey fingerprint", c.method("Mnemonikey", "SubkeyFingerprint", m, ropeConst(t))[0],
			c.bytesOf(c.norm(c.method("Mnemonikey", "SubkeyFingerprint", k.mnk, ropeConst(t))[0])))
	}
	c.eq("creation time", timeNs(c.norm(c.method("Mnemonikey", "CreatedAt", m)[0])), timeNs(c.norm(c.method("Mnemonikey", "CreatedAt", k.mnk)[0])))
	c.eq("user ID", c.method("Mnemonikey", "UserID", m)[0], c.norm(c.method("Mnemonikey", "UserID", k.mnk)[0]))
	a := c.method("Mnemonikey", "EncodePGP", m, nilV)
	b := c.method("Mnemonikey", "EncodePGP", k.mnk, nilV)
	c.isNil("export of the recovered key succeeds", a[1])
	c.ok(a[1])
	c.ok(b[1])
	c.eqBytes("exported packets", a[0], c.bytesOf(c.norm(b[0])))
}
