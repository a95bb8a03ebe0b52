package main

// The published formats, as value expressions over the inputs. The expected values a
// check compares with are built here, independently of the repository's code.

import (
	"fmt"
	"go/types"
	"math/big"
)

const epochStart = 1672531200

var (
	maxU16 = new(big.Int).Sub(pow2(16), one)
	nsec   = big.NewInt(1e9)
)

func seedAtom(name string) *Lin {
	return intAtom(name, zero, new(big.Int).Sub(pow2(128), one))
}

// bitField of a phrase payload: a value and its width.
type bitVal struct {
	v Value
	w int
}

// packBits concatenates fields, most significant first.
func packBits(fs ...bitVal) (Value, int) {
	var acc Value = linInt(0)
	n := 0
	for _, f := range fs {
		acc = add(scale(acc, pow2(f.w)), f.v)
		n += f.w
	}
	return acc, n
}

// phraseOf appends the checksum to a payload and splits it into words.
func phraseOf(payload Value, bits int) []Value {
	crc := intAtom("crc32ieee", zero, maxU32, ropeFix((bits+7)/8, payload))
	all := add(scale(payload, pow2(5)), seg(crc, 0, 5))
	n := (bits + 5) / 12
	var ws []Value
	for i := 0; i < n; i++ {
		ws = append(ws, ropeStr("word", nil, seg(all, 12*(n-1-i), 12)))
	}
	return ws
}

func specPlainPhrase(seed, off Value) []Value {
	p, n := packBits(bitVal{linInt(0), 4}, bitVal{seed, 128}, bitVal{off, 31})
	return phraseOf(p, n)
}

// specSeedKey is the key which encrypts the seed of an encrypted phrase.
func specSeedKey(pw *Rope, salt, off Value) *Rope {
	s, _ := packBits(bitVal{salt, 19}, bitVal{off, 31})
	return ropeStr("argon2id", linInt(17), pw, ropeFix(7, s), linInt(4), linInt(0x80000), linInt(2), linInt(17))
}

func mustSlice(r *Rope, off, n int64) *Rope {
	s, ok := ropeSlice(r, linInt(off), linInt(n))
	if !ok {
		panic(bail{"cannot slice " + show(r)})
	}
	return s
}

func specEncPhrase(seed, off Value, pw *Rope, salt Value) []Value {
	key := specSeedKey(pw, salt, off)
	enc := ropeInt(aesEnc(mustSlice(key, 0, 16), ropeFix(16, seed)))
	verify := seg(ropeInt(mustSlice(key, 16, 1)), 0, 5)
	p, n := packBits(bitVal{linInt(1), 4}, bitVal{enc, 128}, bitVal{salt, 19}, bitVal{verify, 5}, bitVal{off, 31})
	return phraseOf(p, n)
}

// ---------------------------------------------------------------------------
// keys

func specRoot(seed *Rope, unix Value) *Rope {
	return ropeStr("argon2id", linInt(32), seed, ropeFix(4, seg(unix, 0, 32)), linInt(4), linInt(0x80000), linInt(2), linInt(32))
}

func specExpand(root, info *Rope) *Rope {
	return ropeStr("hkdf", linInt(32), ropeConst("sha256"), root, info, linInt(1))
}

func specMaster(root *Rope) *Rope { return specExpand(root, ropeConst("mnemonikey master key")) }
func specSub(root *Rope, typ string, idx Value) *Rope {
	return specExpand(root, ropeCat(ropeConst("mnemonikey "+typ+" subkey"), ropeFix(2, idx)))
}

// keyKind is what the published layout says about one key.
type keyKind struct {
	name  string // master, encryption, authentication, signing
	seed  *Rope  // 32 byte private seed
	flags byte
}

func (k *keyKind) ecdh() bool { return k.name == "encryption" }

func (k *keyKind) public() *Rope {
	if k.ecdh() {
		base := make([]byte, 32)
		base[0] = 9
		return ropeStr("x25519", linInt(32), clamp(k.seed), ropeConst(string(base)))
	}
	return ropeStr("edpub", linInt(32), k.seed)
}

func mpi(r *Rope) *Rope {
	v := ropeInt(r)
	return ropeCat(ropeFix(2, bitLen(v)), ropeMin(v))
}

// publicBody is the body of the version 4 public key packet.
func (k *keyKind) publicBody(unix Value) *Rope {
	head := ropeCat(ropeConst("\x04"), ropeFix(4, unix))
	point := ropeCat(ropeConst("\x40"), k.public())
	if k.ecdh() {
		return ropeCat(head, ropeConst("\x12\x0a\x2b\x06\x01\x04\x01\x97\x55\x01\x05\x01"), mpi(point), ropeConst("\x03\x01\x08\x07"))
	}
	return ropeCat(head, ropeConst("\x16\x09\x2b\x06\x01\x04\x01\xda\x47\x0f\x01"), mpi(point))
}

// privateMPI is the integer stored in the secret key packet.
func (k *keyKind) privateMPI() *Rope {
	if k.ecdh() {
		return mpi(reverse(clamp(k.seed)))
	}
	return mpi(k.seed)
}

func reverse(r *Rope) *Rope {
	var out []*Rope
	for i := int64(31); i >= 0; i-- {
		out = append(out, mustSlice(r, i, 1))
	}
	return ropeCat(out...)
}

func hashedKey(pub *Rope) *Rope {
	return ropeCat(ropeConst("\x99"), ropeFix(2, ropeLen(pub)), pub)
}

func (k *keyKind) fingerprint(unix Value) *Rope {
	return digest("sha1", hashedKey(k.publicBody(unix)))
}

// specUID is the user ID string for the given name and email, by emptiness.
func specUID(name, email *Rope, hasName, hasEmail bool) *Rope {
	switch {
	case hasName && hasEmail:
		return ropeCat(name, ropeConst(" <"), email, ropeConst(">"))
	case hasEmail:
		return email
	}
	return name
}

// ---------------------------------------------------------------------------
// contexts

// words builds a []string of the given strings.
func (c *Ctx) words(ws []Value) Value {
	return c.newSliceOf(types.NewSlice(types.Typ[types.String]), ws)
}

func inputWords(n int) []Value {
	var ws []Value
	for i := 0; i < n; i++ {
		ws = append(ws, ropeStr("w"+fmt.Sprint(i), nil))
	}
	return ws
}

// lenBelow bounds the length of an input string (and requires it to be non-empty or empty).
func (c *Ctx) strLen(r *Rope, lo, hi int64) {
	c.assume(le(linInt(lo), ropeLen(r)))
	c.assume(le(ropeLen(r), linInt(hi)))
}

const maxLen = 1<<31 - 1

func (c *Ctx) method(typ, name string, args ...Value) []Value {
	return c.api(c.p.method("", typ, name), args...)
}

// eqWords compares a returned phrase with the specified one.
func (c *Ctx) eqWords(desc string, got Value, want []Value) bool {
	got = c.norm(got)
	n := c.sliceLen(got)
	if !c.eq(desc+": number of words", n, linInt(int64(len(want)))) {
		return false
	}
	ws := c.strings(c.norm(got))
	if len(ws) != len(want) {
		c.r.add("undecided", desc, "words not known: "+short(show(got)), "")
		return false
	}
	ok := true
	for i := range ws {
		ok = c.eq(fmt.Sprintf("%s: word %d", desc, i+1), ws[i], want[i]) && ok
	}
	return ok
}

// eqBytes compares the content of a byte slice.
func (c *Ctx) eqBytes(desc string, got Value, want *Rope) bool {
	return c.eq(desc, c.bytesOf(c.norm(got)), want)
}

// isNil requires an error (or pointer) to be nil.
func (c *Ctx) isNil(desc string, v Value) bool { return c.holds(desc, c.nilCond(v)) }

func (c *Ctx) notNil(desc string, v Value) bool { return c.holds(desc, not(c.nilCond(v))) }

// seedIn builds an arbitrary seed through the public constructor.
func (c *Ctx) seedIn() (Value, *Lin) {
	a := seedAtom("seed")
	r := c.api(c.p.fn("", "NewSeed"), linInt(0), c.mkBig(a))
	c.ok(r[1])
	return c.norm(r[0]), a
}

// passwordIn is an arbitrary non-empty password.
func (c *Ctx) passwordIn() (Value, *Rope) {
	r := ropeStr("password", nil)
	c.strLen(r, 1, maxLen)
	return c.newBytes(r), r
}

func mulB(s int64) *big.Int { return new(big.Int).Mul(big.NewInt(s), nsec) }
