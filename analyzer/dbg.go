package main

import (
	"fmt"
	"go/types"
)

func (e *Engine) stream(name string) Value {
	so := newObj("stream:"+name, nil)
	e.st.heap[so] = mkNative("stream", ropeConst(name), linInt(0))
	return mkIface(nativeType("stream"), mkPtr(so))
}

func (e *Engine) given(c Value) {
	e.assume(c)
}

func (e *Engine) dbg(args []string) {
	p := e.p
	switch args[0] {
	case "enc2":
		s := e.mkSeed("seed")
		off := intAtom("offset", zero, maxU32)
		pw := e.newBytes(ropeStr("password", nil))
		r := e.api(p.fn("", "EncodeMnemonicEncrypted"), s, off, pw, e.stream("random"))
		fmt.Println(show(r[0]))
		fmt.Println(show(r[1]))
		e.assume(e.nilCond(r[1]))
		fmt.Println("pc", show(e.st.pc))
		r[0] = restrict(r[0], e.st.pc)
		for i, w := range e.strings(r[0]) {
			fmt.Println(i, show(w))
		}
		d := e.api(p.fn("", "DecodeMnemonic"), r[0])
		fmt.Println(show(d[0]), show(d[1]))
		q := e.api(p.method("", "DecodedMnemonic", "DecryptSeed"), d[0], pw)
		fmt.Println(show(q[0]), show(q[1]))
		z := e.api(p.method("", "Seed", "Bytes"), q[0])
		fmt.Println(show(e.bytesOf(z[0])))
	case "rt":
		s := e.mkSeed("seed")
		off := intAtom("offset", zero, maxU32)
		r := e.api(p.fn("", "EncodeMnemonicPlaintext"), s, off)
		e.assume(e.nilCond(r[1]))
		r[0] = restrict(r[0], e.st.pc)
		d := e.api(p.fn("", "DecodeMnemonic"), r[0])
		fmt.Println(show(d[0]), show(d[1]))
		fmt.Println(show(e.api(p.method("", "DecodedMnemonic", "CreationOffset"), d[0])[0]))
		q := e.api(p.method("", "DecodedMnemonic", "Seed"), d[0])
		fmt.Println(show(q[0]), show(q[1]))
		z := e.api(p.method("", "Seed", "Bytes"), q[0])
		fmt.Println(show(e.bytesOf(z[0])))
	case "dec":
		var ws []Value
		n := 14
		fmt.Sscan(args[1], &n)
		for i := 0; i < n; i++ {
			ws = append(ws, ropeStr("w"+fmt.Sprint(i), nil))
		}
		w := e.newSliceOf(types.NewSlice(types.Typ[types.String]), ws)
		d := e.api(p.fn("", "DecodeMnemonic"), w)
		fmt.Println(show(d[0]), show(d[1]))
	}
}

// keyOptions allocates the public options struct with the given exported fields.
func (e *Engine) keyOptions(fields map[string]Value) Value {
	n := e.p.typ("", "KeyOptions")
	st := n.Underlying().(*types.Struct)
	z := e.zero(n).(*Agg)
	es := append([]Value(nil), z.es...)
	for i := 0; i < st.NumFields(); i++ {
		if v, ok := fields[st.Field(i).Name()]; ok {
			es[i] = v
		}
	}
	o := newObj("KeyOptions", n)
	e.st.heap[o] = mkAgg("struct", es)
	return mkPtr(o)
}

func (e *Engine) dbg2(args []string) {
	if args[0] != "pgp" {
		return
	}
	p := e.p
	s := e.mkSeed("seed")
	cr := mkTime(intAtom("creation", nil, nil))
	u16 := func(n string) Value { return intAtom(n, zero, pow2(16).Sub(pow2(16), one)) }
	opts := e.keyOptions(map[string]Value{
		"Name": ropeStr("name", nil), "Email": ropeStr("email", nil),
		"TTL":                       intAtom("ttl", pow2(63).Neg(pow2(63)), pow2(63).Sub(pow2(63), one)),
		"EncryptionSubkeyIndex":     u16("encidx"),
		"AuthenticationSubkeyIndex": u16("authidx"),
		"SigningSubkeyIndex":        u16("sigidx"),
	})
	mx := linInt(1 << 31)
	e.assume(lt(ropeLen(ropeStr("name", nil)), mx))
	e.assume(lt(ropeLen(ropeStr("email", nil)), mx))
	e.assume(lt(linInt(0), ropeLen(ropeStr("email", nil))))
	e.assume(lt(linInt(0), ropeLen(ropeStr("name", nil))))
	e.assume(lt(ropeLen(ropeStr("email", nil)), linInt(60)))
	e.assume(lt(ropeLen(ropeStr("name", nil)), linInt(60)))
	e.assume(eqInt(intAtom("ttl", pow2(63).Neg(pow2(63)), pow2(63).Sub(pow2(63), one)), linInt(0)))
	r := e.api(p.fn("", "New"), s, cr, opts)
	fmt.Println("NEW", show(r[0]))
	fmt.Println("ERR", show(r[1]))
	e.assume(e.nilCond(r[1]))
	r[0] = restrict(r[0], e.st.pc)
	fmt.Println("PC", show(e.st.pc))
	fmt.Println("FPR", show(e.bytesOf(e.api(p.method("", "Mnemonikey", "Fingerprint"), r[0])[0])))
	var pw Value = nilV
	if len(args) > 1 {
		pw = e.newBytes(ropeStr("password", nil))
		e.assume(lt(linInt(0), e.sliceLen(pw)))
	}
	x := e.api(p.method("", "Mnemonikey", "EncodePGP"), r[0], pw)
	fmt.Println("ERR", show(x[1]))
	fmt.Println("PC", show(e.st.pc))
	e.assume(e.nilCond(x[1]))
	rp := e.bytesOf(restrict(x[0], e.st.pc))
	for i, pc := range rp.ps {
		fmt.Println(i, showRope(mkRope([]Piece{pc}), 4))
	}
	fmt.Println("unknown:", unknownIn(rp))
}
