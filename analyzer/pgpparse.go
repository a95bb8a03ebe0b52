package main

// A reader of OpenPGP packets over abstract byte strings. Where a header has more than
// one possible form (a length on either side of 192), the reading is partitioned.

import (
	"fmt"
	"math/big"
)

type parseErr struct {
	why     string
	certain bool  // the bytes are certainly wrong, not merely not understood
	pc      Value // certain where this holds (nil: everywhere)
}

func malformed(format string, a ...any) { panic(parseErr{fmt.Sprintf(format, a...), true, nil}) }
func unclear(format string, a ...any)   { panic(parseErr{fmt.Sprintf(format, a...), false, nil}) }

// malformedWhen reports bytes which are wrong where pc holds.
func malformedWhen(pc Value, format string, a ...any) {
	panic(parseErr{fmt.Sprintf(format, a...), true, pc})
}

type reader struct {
	pc   Value
	rest *Rope
	what string
}

func (r *reader) left() Value { return simp(ropeLen(r.rest), r.pc) }

func (r *reader) empty() bool {
	n := r.left()
	if c, ok := constInt(n); ok {
		return c == 0
	}
	z := withFacts(r.pc, func() Value { return eqInt(n, linInt(0)) })
	z = restrict(and(z, r.pc), r.pc)
	if and(r.pc, z) == bFalse {
		return false
	}
	unclear("%s: whether bytes are left is not decided (%s)", r.what, short(show(n)))
	return false
}

// take reads n bytes.
func (r *reader) take(n Value, what string) *Rope {
	left := r.left()
	fits := withFacts(r.pc, func() Value { return le(n, left) })
	if isBool(fits) && and(r.pc, fits) == bFalse {
		malformed("%s: %s needs %s bytes but only %s are left", r.what, what, short(show(n)), short(show(left)))
	}
	a, ok := ropeSliceG(r.rest, linInt(0), n, r.pc)
	if !ok {
		if isBool(fits) && and(r.pc, not(fits)) != bFalse {
			malformedWhen(and(r.pc, not(fits)), "%s: %s: length %s not decided against %s", r.what, what, short(show(n)), short(show(left)))
		}
		unclear("%s: %s: cannot cut %s bytes from %s", r.what, what, short(show(n)), short(showRope(r.rest, 3)))
	}
	b, ok := ropeSliceG(r.rest, n, sub(ropeLen(r.rest), n), r.pc)
	if !ok {
		unclear("%s: cannot cut after %s", r.what, what)
	}
	r.rest = b
	return simp(a, r.pc).(*Rope)
}

func (r *reader) bytes(n int64, what string) *Rope { return r.take(linInt(n), what) }

// uint reads an n-byte big-endian integer.
func (r *reader) uint(n int64, what string) Value {
	x := r.bytes(n, what)
	return simp(ropeInt(x), r.pc)
}

// octet reads a byte whose value is known.
func (r *reader) octet(what string) int {
	v := r.uint(1, what)
	c, ok := constInt(v)
	if !ok {
		unclear("%s: %s is not a constant: %s", r.what, what, short(show(v)))
	}
	return c
}

type packet struct {
	tag     int
	body    *Rope
	partial bool
}

type parsed struct {
	pc   Value
	pkts []packet
	err  *parseErr
}

// lengthForms reads an OpenPGP length; each possible form is a separate reading.
func lengthForms(r reader, what string) (out []struct {
	r reader
	n Value
}, err *parseErr) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(parseErr); ok {
				err = &e
				return
			}
			panic(x)
		}
	}()
	l := Value(nil)
	try := func(cond Value, f func(r *reader) Value) {
		pc := and(r.pc, cond)
		if pc == bFalse {
			return
		}
		q := r
		q.pc = pc
		q.rest = simp(r.rest, pc).(*Rope)
		n := f(&q)
		out = append(out, struct {
			r reader
			n Value
		}{q, simp(n, pc)})
	}
	// the first octet decides the form; a gate at the front is split first
	q := r
	front := partsOf(q.rest, q.pc)
	wrong, wrongL := Value(bFalse), Value(nil)
	for _, f := range front {
		q := r
		q.pc, q.rest = f.pc, f.rope
		base := q
		l = q.uint(1, what+" length")
		r = base
		after := q.rest
		small := withFacts(base.pc, func() Value { return le(l, linInt(191)) })
		mid := withFacts(base.pc, func() Value { return and(le(linInt(192), l), le(l, linInt(223))) })
		big5 := withFacts(base.pc, func() Value { return eqInt(l, linInt(255)) })
		bad := and(base.pc, and(not(small), and(not(mid), not(big5))))
		if bad != bFalse {
			if and(base.pc, not(bad)) == bFalse {
				malformed("%s: partial or invalid length octet %s", what, short(show(l)))
			}
			wrong, wrongL = or(wrong, bad), l
		}
		if f.pc == bFalse {
			continue
		}
		try(small, func(r *reader) Value { r.rest = simp(after, r.pc).(*Rope); return l })
		try(mid, func(r *reader) Value {
			r.rest = simp(after, r.pc).(*Rope)
			l2 := r.uint(1, "second length octet")
			return addI(add(scale(addI(l, -192), pow2(8)), l2), 192)
		})
		try(big5, func(r *reader) Value { r.rest = simp(after, r.pc).(*Rope); return r.uint(4, "long length") })
	}
	if wrong != bFalse {
		malformedWhen(wrong, "%s: length octet %s has no decided form", what, short(show(wrongL)))
	}
	return out, nil
}

type part struct {
	pc   Value
	rope *Rope
}

// partsOf splits a byte string that begins with a gate into its alternatives.
func partsOf(r *Rope, pc Value) []part {
	r = simp(r, pc).(*Rope)
	if len(r.ps) == 0 || r.ps[0].kind != "gate" {
		return []part{{pc, r}}
	}
	var out []part
	mapLeavesPC(r.ps[0].v, pc, func(l, pc Value) Value {
		if lr, ok := l.(*Rope); ok {
			out = append(out, partsOf(ropeCat(lr, mkRope(r.ps[1:])), pc)...)
		} else {
			out = append(out, part{pc, nil})
		}
		return l
	})
	return out
}

// parsePackets reads a sequence of packets; every possible header form is one reading.
func parsePackets(rope *Rope, pc Value) []parsed {
	var out []parsed
	var rec func(r reader, done []packet)
	rec = func(r reader, done []packet) {
		var es *parseErr
		var forms []struct {
			r reader
			n Value
		}
		finished := false
		tag := 0
		func() {
			defer func() {
				if x := recover(); x != nil {
					if e, ok := x.(parseErr); ok {
						es = &e
						return
					}
					panic(x)
				}
			}()
			r.what = fmt.Sprintf("packet %d", len(done)+1)
			if r.empty() {
				finished = true
				return
			}
			h := r.octet("packet header")
			if h&0xc0 != 0xc0 {
				malformed("%s: header octet %#x is not a new-format packet header", r.what, h)
			}
			tag = h & 0x3f
			var e *parseErr
			forms, e = lengthForms(r, r.what)
			if e != nil {
				panic(*e)
			}
		}()
		if es != nil {
			out = append(out, parsed{r.pc, done, es})
			return
		}
		if finished {
			out = append(out, parsed{r.pc, done, nil})
			return
		}
		if len(done) > 40 || len(out) > 64 {
			out = append(out, parsed{r.pc, done, &parseErr{"too many packets", false, nil}})
			return
		}
		for _, f := range forms {
			f := f
			var body *Rope
			var es *parseErr
			func() {
				defer func() {
					if x := recover(); x != nil {
						if e, ok := x.(parseErr); ok {
							es = &e
							return
						}
						panic(x)
					}
				}()
				body = f.r.take(f.n, "body")
			}()
			if es != nil {
				out = append(out, parsed{f.r.pc, done, es})
				continue
			}
			rec(f.r, append(append([]packet(nil), done...), packet{tag: tag, body: body}))
		}
	}
	rec(reader{pc: pc, rest: rope}, nil)
	return out
}

// ---------------------------------------------------------------------------
// key packets

type keyPkt struct {
	pub    *Rope // the public key part
	unix   Value
	algo   int
	point  *Rope
	kdf    *Rope
	usage  int
	mpiN   Value
	mpi    *Rope
	sum    Value
	cipher int
	mode   int
	hash   int
	salt   *Rope
	count  int
	iv     *Rope
	ct     *Rope
	stub   bool
	extra  *Rope
}

func guardParse(f func()) (err *parseErr) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(parseErr); ok {
				err = &e
				return
			}
			panic(x)
		}
	}()
	f()
	return nil
}

func (r *reader) readMPI(what string) (bits Value, data *Rope) {
	bits = r.uint(2, what+" bit count")
	n := withFacts(r.pc, func() Value { return floorDiv(addI(bits, 7), big.NewInt(8)) })
	return bits, r.take(simp(n, r.pc), what)
}

func parseKey(body *Rope, pc Value, what string) (k *keyPkt, err *parseErr) {
	k = &keyPkt{}
	err = guardParse(func() {
		r := &reader{pc: pc, rest: body, what: what}
		if v := r.octet("version"); v != 4 {
			malformed("%s: key version %d", what, v)
		}
		k.unix = r.uint(4, "creation time")
		k.algo = r.octet("algorithm")
		n := r.octet("curve identifier length")
		oid, ok := ropeConstStr(r.bytes(int64(n), "curve identifier"))
		if !ok {
			unclear("%s: curve identifier not constant", what)
		}
		switch k.algo {
		case 22:
			if oid != "\x2b\x06\x01\x04\x01\xda\x47\x0f\x01" {
				malformed("%s: curve identifier %x is not Ed25519", what, oid)
			}
		case 18:
			if oid != "\x2b\x06\x01\x04\x01\x97\x55\x01\x05\x01" {
				malformed("%s: curve identifier %x is not Curve25519", what, oid)
			}
		default:
			malformed("%s: key algorithm %d", what, k.algo)
		}
		bits := r.uint(2, "point bit count")
		if c, ok := constInt(bits); !ok || c != 263 {
			if ok {
				malformed("%s: point of %d bits", what, c)
			}
			unclear("%s: point bit count %s", what, short(show(bits)))
		}
		if p := r.octet("point prefix"); p != 0x40 {
			malformed("%s: point prefix %#x", what, p)
		}
		k.point = r.bytes(32, "point")
		if k.algo == 18 {
			n := r.octet("KDF parameter length")
			k.kdf = r.bytes(int64(n), "KDF parameters")
		}
		pn := sub(ropeLen(body), ropeLen(r.rest))
		pub, ok := ropeSliceG(body, linInt(0), pn, pc)
		if !ok {
			unclear("%s: public part", what)
		}
		k.pub = pub
		k.usage = r.octet("string-to-key usage")
		switch k.usage {
		case 0:
			k.mpiN, k.mpi = r.readMPI("secret")
			k.sum = r.uint(2, "checksum")
		case 254:
			k.cipher = r.octet("cipher")
			k.mode = r.octet("string-to-key mode")
			k.hash = r.octet("string-to-key hash")
			if k.mode == 101 {
				id, _ := ropeConstStr(r.bytes(3, "GNU marker"))
				m := r.octet("GNU mode")
				if id != "GNU" || m != 1 {
					malformed("%s: stub marker %q %d", what, id, m)
				}
				k.stub = true
				break
			}
			if k.mode == 1 || k.mode == 3 {
				k.salt = r.bytes(8, "salt")
			}
			if k.mode == 3 {
				k.count = r.octet("iteration count")
			}
			k.iv = r.bytes(16, "initialisation vector")
			k.ct = r.take(r.left(), "encrypted secret")
		default:
			malformed("%s: string-to-key usage octet %d", what, k.usage)
		}
		if !r.empty() {
			malformed("%s: trailing bytes after the secret part", what)
		}
	})
	return
}

// ---------------------------------------------------------------------------
// signature packets

type subpacket struct {
	typ  int
	crit bool
	body *Rope
}

type sigPkt struct {
	typ, pk, hash int
	head          *Rope // version .. end of hashed subpackets
	hashed        []subpacket
	unhashed      []subpacket
	preview       *Rope
	rBits, sBits  Value
	r, s          *Rope
}

func (s *sigPkt) find(list []subpacket, typ int) []subpacket {
	var out []subpacket
	for _, p := range list {
		if p.typ == typ {
			out = append(out, p)
		}
	}
	return out
}

func parseSubpackets(area *Rope, pc Value, what string) []subpacket {
	var out []subpacket
	r := reader{pc: pc, rest: area, what: what}
	for !r.empty() {
		forms, e := lengthForms(r, what)
		if e != nil {
			panic(*e)
		}
		if len(forms) != 1 {
			unclear("%s: subpacket length has several forms", what)
		}
		r = forms[0].r
		b := r.take(forms[0].n, "subpacket")
		q := &reader{pc: r.pc, rest: b, what: what}
		t := q.octet("subpacket type")
		out = append(out, subpacket{t & 0x7f, t&0x80 != 0, q.rest})
		if len(out) > 40 {
			unclear("%s: too many subpackets", what)
		}
	}
	return out
}

func parseSig(body *Rope, pc Value, what string) (s *sigPkt, err *parseErr) {
	s = &sigPkt{}
	err = guardParse(func() {
		r := &reader{pc: pc, rest: body, what: what}
		if v := r.octet("version"); v != 4 {
			malformed("%s: signature version %d", what, v)
		}
		s.typ = r.octet("type")
		s.pk = r.octet("public key algorithm")
		s.hash = r.octet("hash algorithm")
		n := r.uint(2, "hashed area length")
		h := r.take(n, "hashed area")
		s.hashed = parseSubpackets(h, pc, what+" hashed area")
		head, ok := ropeSliceG(body, linInt(0), sub(ropeLen(body), ropeLen(r.rest)), pc)
		if !ok {
			unclear("%s: signed head", what)
		}
		s.head = simp(head, pc).(*Rope)
		n = r.uint(2, "unhashed area length")
		u := r.take(n, "unhashed area")
		s.unhashed = parseSubpackets(u, pc, what+" unhashed area")
		s.preview = r.bytes(2, "digest prefix")
		s.rBits, s.r = r.readMPI("R")
		s.sBits, s.s = r.readMPI("S")
		if !r.empty() {
			malformed("%s: trailing bytes", what)
		}
	})
	return
}
