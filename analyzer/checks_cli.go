package main

// The command-line program: main is analysed from its entry point with given arguments,
// input, terminal and files.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"strings"
)

type cliCase struct {
	args      []Value // after the program name; strings are ropes
	passwords []*Rope
	interrupt int // 1-based prompt at which Ctrl-C is pressed; 0: never
	notty     bool
	keys      []*Rope
	lines     []*Rope
	words     []Value
	inPath    *Rope
	readable  []*Rope
	width     Value
	sizeErr   bool
	search    func(e *Engine, q *Rope) (Value, []Value, bool)
	hooks     map[string]intrinsic
	faults    bool // clock, random source and files may fail
}

// exitState is one way the program ends.
type exitState struct {
	code Value
	st   *State
	how  string
	pos  string
}

func (x exitState) success() bool {
	n, ok := constInt(x.code)
	return ok && n == 0
}

func (x exitState) String() string {
	if x.how == "return" {
		return "normal end"
	}
	return fmt.Sprintf("exit(%s) at %s", show(x.code), x.pos)
}

func cstr(ss ...string) []Value {
	var out []Value
	for _, s := range ss {
		out = append(out, ropeConst(s))
	}
	return out
}

func argv(vs ...any) []Value {
	var out []Value
	for _, v := range vs {
		switch v := v.(type) {
		case string:
			out = append(out, ropeConst(v))
		case []Value:
			out = append(out, v...)
		case Value:
			out = append(out, v)
		}
	}
	return out
}

// cliMain analyses the program's main function and returns all its ends.
func (c *Ctx) cliMain(cc cliCase) []exitState {
	env := c.setupCLI()
	env.tty = !cc.notty
	env.interrupt = cc.interrupt - 1
	env.passwords, env.keys, env.lines = cc.passwords, cc.keys, cc.lines
	env.fileWords, env.inPath, env.readable = cc.words, cc.inPath, cc.readable
	env.search, env.hooks = cc.search, cc.hooks
	env.clockOK, env.randOK, env.filesOK = !cc.faults, !cc.faults, !cc.faults
	if cc.width != nil {
		env.width = cc.width
	}
	env.sizeErr = cc.sizeErr
	args := append([]Value{ropeConst("mnemonikey")}, cc.args...)
	o := newObj("args", nil)
	c.st.heap[o] = mkAgg("array", args)
	n := linInt(int64(len(args)))
	g := c.p.ssa["os"].Var("Args")
	c.st.heap[c.globalObj(g)] = mkSlice(o, nil, linInt(0), n, n)
	c.callValue(mkFunc(c.p.fn("cmd/mnemonikey", "main"), nil), nil, nil)
	var out []exitState
	for _, ef := range c.effects {
		if ef.kind == "exit" {
			how := "exit"
			if ef.to != "" {
				how = ef.to
			}
			out = append(out, exitState{ef.what, ef.st, how, ef.pos})
		}
	}
	if c.st.pc != bFalse {
		out = append(out, exitState{linInt(0), c.st, "return", ""})
	}
	dumpCLI(c, out)
	return out
}

// at evaluates f in the state in which the program ended.
func (c *Ctx) at(x exitState, f func()) {
	save, n := c.st, len(c.effects)
	c.setState(x.st.clone())
	f()
	c.effects = c.effects[:n]
	c.setState(save)
}

// spec evaluates f as at does, with f's random draws standing for the program's.
func (c *Ctx) spec(x exitState, fromEnd bool, f func()) {
	c.at(x, func() {
		rep := map[string][]Value{}
		for _, ef := range c.effects {
			if ef.kind == "draw" && and(ef.pc, x.st.pc) != bFalse {
				rep[ef.to] = append(rep[ef.to], ef.what)
			}
		}
		if fromEnd {
			// which of several draws is used cannot be told from the number of draws alone
			for k, l := range rep {
				if len(l) > 1 {
					rep[k] = l[len(l)/2:]
				}
			}
		}
		c.cli.replay = rep
		c.cli.randOK = true
		ps := c.panics
		f()
		c.panics = ps
		c.cli.replay = nil
	})
}

// nows lists the times the program looked at the clock.
func (c *Ctx) nows(x exitState) []Value {
	var out []Value
	for _, ef := range c.effects {
		if ef.kind == "now" && and(ef.pc, x.st.pc) != bFalse {
			out = append(out, ef.what)
		}
	}
	return out
}

// writes lists what was written to a stream on the way to an end, in order.
func (c *Ctx) writes(x exitState, to string) []effect {
	var out []effect
	for _, ef := range c.effects {
		if ef.kind == "write" && ef.to == to && and(ef.pc, x.st.pc) != bFalse {
			out = append(out, ef)
		}
	}
	return out
}

func (c *Ctx) stdout(x exitState) *Rope {
	return ropeOf(simp(restrict(x.st.heap[c.cli.out], x.st.pc), x.st.pc))
}

func dumpCLI(c *Ctx, xs []exitState) {
	if os.Getenv("VDEBUG") != "2" {
		return
	}
	for _, x := range xs {
		fmt.Printf("EXIT %s code=%s at %s pc=%s\n   stdout=%s\n   term=%s\n", x.how, show(x.code), x.pos, short(show(x.st.pc)), short(show(x.st.heap[c.cli.out])), show(x.st.heap[c.cli.term]))
	}
	for _, ef := range c.effects {
		fmt.Printf("EFFECT %s %s %s %s [%s]\n", ef.kind, ef.to, short(show(ef.what)), ef.pos, short(show(ef.pc)))
	}
	for _, p := range c.panics {
		fmt.Println("PANIC", p.pos, p.what, short(show(p.cond)))
	}
	fmt.Println("OPAQUE", c.opaque)
}

// ---------------------------------------------------------------------------
// the key the flags ask for

// keyAsk is what the command line asks for.
type keyAsk struct {
	name, email *Rope // after trimming
	ttl         Value
	master      bool
	subs        []string // nil: all
	enc, aut    Value
	sig         Value
	selfCert    bool
	anyCert     Value // self-certification if it is not known beforehand
	pw          *Rope // nil: no password
}

func (c *Ctx) subkeyList(l []string) Value {
	return c.newSliceOf(types.NewSlice(c.p.typ("", "SubkeyType")), cstr(l...))
}

func (c *Ctx) askOptions(a keyAsk) Value {
	idx := func(v Value) Value {
		if v == nil {
			return linInt(0)
		}
		return v
	}
	ttl := a.ttl
	if ttl == nil {
		ttl = linInt(0)
	}
	f := map[string]Value{
		"Name": a.name, "Email": a.email, "TTL": ttl,
		"EncryptionSubkeyIndex":     idx(a.enc),
		"AuthenticationSubkeyIndex": idx(a.aut),
		"SigningSubkeyIndex":        idx(a.sig),
	}
	if a.subs != nil {
		f["Subkeys"] = c.subkeyList(a.subs)
	}
	return c.keyOptions(f)
}

// askKey is the library's key for the given seed, time and options, in the current state.
func (c *Ctx) askKey(seed, when Value, a keyAsk) (mnk, err Value) {
	r := c.api(c.p.fn("", "New"), seed, when, c.askOptions(a))
	return r[0], r[1]
}

// askArmor is the armored export of that key.
func (c *Ctx) askArmor(mnk Value, a keyAsk) (text, err Value) {
	var pw Value = nilV
	if a.pw != nil {
		pw = c.newBytes(a.pw)
	}
	var r []Value
	if a.master {
		r = c.method("Mnemonikey", "EncodePGPArmor", mnk, pw)
	} else {
		cert := boolV(a.selfCert)
		if a.anyCert != nil {
			cert = a.anyCert
		}
		r = c.method("Mnemonikey", "EncodeSubkeysPGPArmor", mnk, pw, cert)
	}
	return r[0], r[1]
}

// flagCase is a set of flags with what they ask for.
type flagCase struct {
	name string
	args []Value
	ask  keyAsk
	pws  []*Rope // passwords typed for the key
	pre  func(c *Ctx)
}

func pwRope(n string, l int64) *Rope { return ropeStr(n, linInt(l)) }

// anyFlag is a boolean flag given as true or false.
func anyFlag(n string) (*Rope, Value) {
	v := boolApp("flag " + n)
	return ropeCat(ropeConst("-"+n+"="), ropeOf(ite(v, ropeConst("1"), ropeConst("0")))), v
}

func flagArg(n string) Value { r, _ := anyFlag(n); return r }

// dec is the decimal text of an integer.
func decText(v Value) *Rope { return ropeStr("dec", nil, v) }

func trimmed(n string) (*Rope, *Rope) {
	r := ropeStr(n, nil)
	return r, trimSpace(r)
}

var (
	day    = big.NewInt(24 * 3600 * 1e9)
	unitNs = map[string]*big.Int{"d": day, "w": mulI(day, 7), "m": big.NewInt(2628000 * 1e9), "y": mulI(day, 365)}
)

func mulI(b *big.Int, n int64) *big.Int { return new(big.Int).Mul(b, big.NewInt(n)) }

// keyFlags lists the flags generate and recover have in common.
func keyFlags(cmd string, thorough bool) []flagCase {
	anon := ropeConst("anonymous")
	base := keyAsk{name: anon, email: emptyRope, master: true, selfCert: true}
	name, tname := trimmed("name")
	email, temail := trimmed("email")
	lens := func(rs ...*Rope) func(c *Ctx) {
		return func(c *Ctx) {
			for _, r := range rs {
				c.strLen(r, 1, 60)
			}
		}
	}
	mod := func(f func(a *keyAsk)) keyAsk { a := base; f(&a); return a }
	var out []flagCase
	addc := func(n string, args []Value, ask keyAsk, pre func(c *Ctx)) {
		out = append(out, flagCase{name: n, args: args, ask: ask, pre: pre})
	}
	addc("no flags", nil, base, nil)
	addc("-name", argv("-name", name), mod(func(a *keyAsk) { a.name = tname }), lens(tname))
	addc("-email", argv("-email", email), mod(func(a *keyAsk) { a.email = temail }), lens(temail))
	addc("-name -email -verbose", argv("-verbose", "-email", email, "-name", name),
		mod(func(a *keyAsk) { a.name, a.email = tname, temail }), lens(tname, temail))
	addc("-name '' -email", argv("-name", "", "-email", email),
		mod(func(a *keyAsk) { a.name, a.email = emptyRope, temail }), lens(temail))
	for _, u := range []string{"d", "w", "m", "y"} {
		if !thorough && (u == "w" || u == "m") {
			continue
		}
		n := intAtom("ttl", zero, new(big.Int).Sub(pow2(64), one))
		u := u
		addc("-ttl <n>"+u, argv("-ttl", ropeCat(decText(n), ropeConst(u))), mod(func(a *keyAsk) { a.ttl = scale(n, unitNs[u]) }),
			func(c *Ctx) {
				c.assume(le(linInt(1), n))
				c.assume(le(scale(n, unitNs[u]), linConst(mulB(1<<32-1))))
			})
	}
	for _, o := range []struct {
		s  string
		m  bool
		ss []string
	}{
		{"master", true, []string{}},
		{"encryption", false, []string{"encryption"}},
		{"signing,authentication", false, []string{"signing", "authentication"}},
		{"master,authentication", true, []string{"authentication"}},
		{"encryption,signing,authentication", false, []string{"encryption", "signing", "authentication"}},
		{"encryption,signing,master,authentication", true, []string{"encryption", "signing", "authentication"}},
		{"signing", false, []string{"signing"}},
		{"authentication", false, []string{"authentication"}},
		{"signing,master", true, []string{"signing"}},
		{"encryption,authentication", false, []string{"encryption", "authentication"}},
	} {
		o := o
		addc("-only "+o.s, argv("-only", o.s), mod(func(a *keyAsk) { a.master, a.subs = o.m, o.ss }), nil)
	}
	pw := pwRope("key-password", 9)
	addc("-encrypt-keys", argv("-encrypt-keys"), mod(func(a *keyAsk) { a.pw = pw }), nil)
	out[len(out)-1].pws = []*Rope{pw, pw}
	addc("-encrypt-keys -only encryption", argv("-encrypt-keys", "-only", "encryption"), mod(func(a *keyAsk) { a.pw, a.master, a.subs = pw, false, []string{"encryption"} }), nil)
	out[len(out)-1].pws = []*Rope{pw, pw}
	if cmd == "recover" {
		i := intAtom("index", zero, maxU16)
		j := intAtom("index2", zero, maxU16)
		k := intAtom("index3", zero, maxU16)
		addc("-enc-index", argv("-enc-index", decText(i)), mod(func(a *keyAsk) { a.enc = i }), nil)
		addc("-auth-index", argv("-auth-index", decText(i)), mod(func(a *keyAsk) { a.aut = i }), nil)
		addc("-sig-index", argv("-sig-index", decText(i)), mod(func(a *keyAsk) { a.sig = i }), nil)
		addc("all indexes", argv("-sig-index", decText(i), "-auth-index", decText(j), "-enc-index", decText(k)), mod(func(a *keyAsk) { a.sig, a.aut, a.enc = i, j, k }), nil)
		addc("-self-cert=false", argv("-self-cert=false", "-only", "signing"), mod(func(a *keyAsk) { a.selfCert, a.master, a.subs = false, false, []string{"signing"} }), nil)
		addc("-self-cert=false with master", argv("-self-cert=false"), mod(func(a *keyAsk) { a.selfCert = false }), nil)
	}
	return out
}

// manyFlags gives most of the flags at once, with arbitrary values.
func manyFlags(cmd, unit string, only string, withPw bool) flagCase {
	name, tname := trimmed("name")
	email, temail := trimmed("email")
	n := intAtom("ttl", zero, new(big.Int).Sub(pow2(64), one))
	a := keyAsk{name: tname, email: temail, ttl: scale(n, unitNs[unit]), master: true, selfCert: true}
	args := argv("-ttl", ropeCat(decText(n), ropeConst(unit)), "-name", name, "-email", email)
	if cmd == "recover" {
		i, j, k := intAtom("index", zero, maxU16), intAtom("index2", zero, maxU16), intAtom("index3", zero, maxU16)
		a.sig, a.aut, a.enc = i, j, k
		cert, v := anyFlag("self-cert")
		a.anyCert = v
		args = append(args, argv("-sig-index", decText(i), "-auth-index", decText(j), "-enc-index", decText(k), cert)...)
	}
	if only != "" {
		args = append(args, argv("-only", only)...)
		a.master, a.subs = false, []string{}
		for _, t := range strings.Split(only, ",") {
			if t == "master" {
				a.master = true
			} else {
				a.subs = append(a.subs, t)
			}
		}
	}
	var pws []*Rope
	if withPw {
		a.pw = pwRope("key-password", 9)
		pws = []*Rope{a.pw, a.pw}
		args = append(args, argv("-encrypt-keys")...)
	}
	return flagCase{name: "many flags " + only, args: args, ask: a, pws: pws, pre: func(c *Ctx) {
		c.strLen(tname, 1, 60)
		c.strLen(temail, 1, 60)
		c.assume(le(linInt(1), n))
		c.assume(le(a.ttl, linConst(mulB(1<<32-1))))
	}}
}

// ends sorts the program's ends and requires that it can only end in the given way.
func (c *Ctx) onlySuccess(xs []exitState) {
	n := 0
	for _, x := range xs {
		x := x
		if x.success() {
			n++
			continue
		}
		c.at(x, func() { c.holdsAt("the command succeeds", bFalse, x.pos) })
	}
	if n == 0 && len(xs) == 0 {
		c.r.add("undecided", "the command succeeds", "no end of the program found", "")
	}
}

// matches tells whether got is want in every way the program ends in x, trying the
// alternatives in turn; the last one is reported.
func (c *Ctx) matches(desc string, x exitState, alts []func() (got, want Value)) {
	for i, f := range alts {
		done := false
		c.spec(x, i%2 == 1, func() {
			g, w := f()
			if c.norm(g) == c.norm(w) {
				c.r.add("proved", desc, "", "")
				done = true
			}
		})
		if done {
			return
		}
	}
	c.spec(x, false, func() {
		g, w := alts[0]()
		n := len(c.r.obs)
		c.eq(desc, g, w)
		if len(c.r.obs) == n+1 && c.r.obs[n].Status == "undecided" && unknownIn(g) == "" {
			// surroundings the specification does not mention
			for a := range atomsIn(c.norm(g)) {
				if strings.HasPrefix(a, "ambient:os.") && !atomsIn(c.norm(w))[a] {
					c.r.obs = c.r.obs[:n]
					c.reachableAt(desc, "it depends on "+strings.TrimPrefix(a, "ambient:"), c.st.pc, x.pos)
					return
				}
			}
		}
	})
}

// expectKey requires standard output to be the armored key the flags ask for and a newline.
func (c *Ctx) expectKey(x exitState, ask keyAsk, mk func() (seed Value, whens []Value)) {
	var alts []func() (Value, Value)
	k := 1
	c.spec(x, false, func() {
		_, ws := mk()
		k = len(ws)
	})
	for i := 0; i < k; i++ {
		for j := 0; j < 2; j++ {
			i := i
			alts = append(alts, func() (Value, Value) {
				s, ws := mk()
				m, err := c.askKey(s, ws[i], ask)
				c.ok(err)
				t, err := c.askArmor(c.norm(m), ask)
				c.ok(err)
				return c.stdout(exitState{st: c.st}), ropeCat(ropeOf(c.norm(t)), ropeConst("\n"))
			})
		}
	}
	if len(alts) == 0 {
		c.r.add("undecided", "standard output is the requested key", "creation time not found", "")
		return
	}
	c.matches("standard output is the requested key", x, alts)
}

var _ = strings.Contains

// phraseIn is a valid phrase in a word file.
type phraseIn struct {
	seed, off Value
	words     []Value
	path      *Rope
	pws       []*Rope
}

func plainIn() phraseIn {
	s, o := seedAtom("seed"), intAtom("creation-offset", zero, big.NewInt(1<<31-1))
	return phraseIn{s, o, specPlainPhrase(s, o), ropeStr("in-path", linInt(8)), nil}
}

func encIn() phraseIn {
	s, o := seedAtom("seed"), intAtom("creation-offset", zero, big.NewInt(1<<31-1))
	pw := pwRope("phrase-password", 7)
	salt := intAtom("salt", zero, new(big.Int).Sub(pow2(19), one))
	return phraseIn{s, o, specEncPhrase(s, o, pw, salt), ropeStr("in-path", linInt(8)), []*Rope{pw}}
}

func (c *Ctx) phraseSeed(p phraseIn) (Value, []Value) {
	r := c.api(c.p.fn("", "NewSeed"), linInt(0), c.mkBig(p.seed))
	c.ok(r[1])
	return c.norm(r[0]), []Value{mkTime(scale(addI(p.off, epochStart), nsec))}
}

// ---------------------------------------------------------------------------
// scenarios

// scenario is one way to use the program.
type scenario struct {
	name    string
	cmd     string // generate, recover, convert, or "" for help and usage errors
	cc      cliCase
	pre     func(c *Ctx)
	key     bool // a key is printed when the command succeeds
	shown   bool // the phrase is displayed when it succeeds
	saved   *Rope
	mayFail bool // even without faults
	fails   bool // the command must fail
	help    bool
	ask     keyAsk
	in      *phraseIn
	phrase  *Rope // password of the phrase that is handed out; nil: plaintext
	entropy string
}

// Values belong to the context they are made in, so lists of cases are made anew in each.
func (r *Run) each(list func() []scenario, suffix string, f func(c *Ctx, s scenario)) {
	for i, s := range list() {
		r.ctx(s.name+suffix, func(c *Ctx) { f(c, list()[i]) })
	}
}

func faulty(s scenario) scenario {
	s.cc.faults = true
	if len(s.cc.passwords) > 0 && s.ask.pw != nil && !strings.Contains(s.name, "signing") {
		// fewer keys to encrypt, hence fewer places to fail
		s.cc.args = append(s.cc.args, argv("-only", "master")...)
		s.ask.subs = []string{}
	}
	return s
}

func baseAsk() keyAsk {
	return keyAsk{name: ropeConst("anonymous"), email: emptyRope, master: true, selfCert: true}
}

func scenarios() []scenario {
	var out []scenario
	outPath := ropeStr("out-path", linInt(9))
	pa, pb := pwRope("key-password", 9), pwRope("new-phrase-password", 11)
	gen := func(name string, args []Value, s scenario) {
		s.name, s.cmd, s.key = "generate "+name, "generate", true
		s.cc.args = argv("generate", flagArg("verbose"), args)
		s.shown = s.saved == nil
		if s.ask.name == nil {
			s.ask = baseAsk()
		}
		out = append(out, s)
	}
	gen("", nil, scenario{})
	withPw := baseAsk()
	withPw.pw = pa
	gen("-encrypt-keys", argv("-encrypt-keys"), scenario{cc: cliCase{passwords: []*Rope{pa, pa}}, ask: withPw})
	gen("-encrypt-phrase", argv("-encrypt-phrase"), scenario{cc: cliCase{passwords: []*Rope{pb, pb}}, phrase: pb})
	gen("-encrypt-keys -encrypt-phrase", argv("-encrypt-keys", "-encrypt-phrase"),
		scenario{cc: cliCase{passwords: []*Rope{pa, pa, pb, pb}}, ask: withPw, phrase: pb})
	gen("-out-word-file", argv("-out-word-file", outPath), scenario{saved: outPath})
	gen("-out-word-file -encrypt-phrase", argv("-encrypt-phrase", "-out-word-file", outPath), scenario{cc: cliCase{passwords: []*Rope{pb, pb}}, saved: outPath, phrase: pb})
	ent := ropeStr("entropy-path", linInt(10))
	gen("-unsafe-entropy file", argv("-unsafe-entropy", ent), scenario{cc: cliCase{readable: []*Rope{ent}}, entropy: "file"})
	gen("-unsafe-entropy -", argv("-unsafe-entropy", "-"), scenario{entropy: "stdin"})
	gen("-unsafe-entropy file -encrypt-phrase -encrypt-keys", argv("-encrypt-keys", "-encrypt-phrase", "-unsafe-entropy", ent),
		scenario{cc: cliCase{readable: []*Rope{ent}, passwords: []*Rope{pa, pa, pb, pb}}, ask: withPw, phrase: pb, entropy: "file"})

	for _, only := range []string{"", "signing"} {
		fc := manyFlags("generate", "d", only, true)
		gen("with many flags "+only, argv(fc.args, "-encrypt-phrase", "-out-word-file", outPath),
			scenario{cc: cliCase{passwords: []*Rope{pa, pa, pb, pb}}, saved: outPath, phrase: pb, ask: fc.ask, pre: fc.pre})
	}
	for _, only := range []string{"", "encryption,signing"} {
		p, fc := encIn(), manyFlags("recover", "y", only, true)
		out = append(out, scenario{name: "recover with many flags " + only, cmd: "recover", key: true, in: &p, ask: fc.ask, pre: fc.pre,
			cc: cliCase{args: argv("recover", flagArg("verbose"), flagArg("simple"), "-in-word-file", p.path, fc.args), words: p.words, inPath: p.path, passwords: append(append([]*Rope(nil), p.pws...), pa, pa)}})
	}

	ins := []struct {
		n string
		f func() phraseIn
	}{{"plain", plainIn}, {"encrypted", encIn}}
	for _, in := range ins {
		for _, v := range []struct {
			n   string
			a   []Value
			pws []*Rope
			ask keyAsk
		}{{"", nil, nil, baseAsk()}, {" -encrypt-keys", argv("-encrypt-keys"), []*Rope{pa, pa}, withPw}} {
			p := in.f()
			out = append(out, scenario{name: "recover " + in.n + v.n, cmd: "recover", key: true, in: &p, ask: v.ask,
				cc: cliCase{args: argv("recover", flagArg("verbose"), flagArg("simple"), "-in-word-file", p.path, v.a), words: p.words, inPath: p.path, passwords: append(append([]*Rope(nil), p.pws...), v.pws...)}})
		}
		for _, v := range []struct {
			n   string
			a   []Value
			pws []*Rope
			sav *Rope
			ph  *Rope
		}{{"", nil, nil, nil, nil}, {" -encrypt-phrase", argv("-encrypt-phrase"), []*Rope{pb, pb}, nil, pb},
			{" -out-word-file", argv("-out-word-file", outPath), nil, outPath, nil},
			{" -encrypt-phrase -out-word-file", argv("-encrypt-phrase", "-out-word-file", outPath), []*Rope{pb, pb}, outPath, pb}} {
			p := in.f()
			out = append(out, scenario{name: "convert " + in.n + v.n, cmd: "convert", in: &p, shown: v.sav == nil, saved: v.sav, phrase: v.ph,
				cc: cliCase{args: argv("convert", flagArg("verbose"), flagArg("simple"), "-in-word-file", p.path, v.a), words: p.words, inPath: p.path, passwords: append(append([]*Rope(nil), p.pws...), v.pws...)}})
		}
	}
	return out
}

// usageErrors are command lines that must be refused.
func usageErrors() []scenario {
	var out []scenario
	add := func(args ...string) {
		out = append(out, scenario{name: strings.Join(append([]string{"mnemonikey"}, args...), " "), fails: true, cc: cliCase{args: cstr(args...)}})
	}
	add()
	add("frobnicate")
	for _, n := range []string{"Generate", "version", "gen", "restore", "generate ", "", "helps", "HELP", "list", "export", "import", "encrypt", "decrypt", "new", "init"} {
		add(n)
	}
	add("-nope")
	for _, cmd := range []string{"generate", "recover", "convert"} {
		add(cmd, "-nope")
		add(cmd, "-verbose=maybe")
	}
	for _, cmd := range []string{"generate", "recover"} {
		add(cmd, "-ttl")
		add(cmd, "-ttl", "10")
		add(cmd, "-ttl", "y")
		add(cmd, "-ttl", "10x")
		add(cmd, "-ttl", "-3d")
		add(cmd, "-ttl", "1.5y")
		add(cmd, "-ttl", "9999999999999999999y")
		add(cmd, "-only", "everything")
		add(cmd, "-only", "master,sign")
		add(cmd, "-only", "Encryption")
		add(cmd, "-only", "encryption,")
	}
	for _, f := range []string{"-enc-index", "-auth-index", "-sig-index"} {
		add("recover", f, "65536")
		add("recover", f, "-1")
		add("recover", f, "4294967296")
		add("recover", f, "one")
	}
	out = append(out, scenario{name: "mnemonikey <any other command>", fails: true, cc: cliCase{args: argv(ropeStr("command", linInt(9)), "-verbose")}, pre: func(c *Ctx) {
		w := ropeStr("command", linInt(9))
		c.assume(not(eqInt(ropeByte(w, linInt(0)), linInt('-'))))
	}})
	for i := range out {
		if len(out[i].cc.args) > 0 && out[i].cc.args[0] == Value(ropeConst("recover")) {
			// a valid phrase is at hand
			p := plainIn()
			out[i].cc.args = argv("recover", "-in-word-file", p.path, out[i].cc.args[1:])
			out[i].cc.words, out[i].cc.inPath = p.words, p.path
		}
	}
	return out
}

// badInputs are invalid phrases and unavailable input.
func badInputs() []scenario {
	var out []scenario
	path := ropeStr("in-path", linInt(8))
	for _, cmd := range []string{"recover", "convert"} {
		add := func(n string, s scenario) {
			s.name, s.cmd = cmd+" "+n, cmd
			s.cc.args = argv(cmd, flagArg("verbose"), "-in-word-file", path)
			s.cc.inPath = path
			s.key, s.shown = cmd == "recover", cmd == "convert"
			out = append(out, s)
		}
		add("empty word file", scenario{fails: true})
		for _, n := range []int{1, 2, 13, 15} {
			add(fmt.Sprintf("%d words", n), scenario{fails: true, cc: cliCase{words: inputWords(n)}})
		}
		p, e := plainIn(), encIn()
		add("password prompt without terminal", scenario{fails: true, cc: cliCase{words: e.words, notty: true}})
		add("no password", scenario{fails: true, cc: cliCase{words: e.words}})
		add("word missing", scenario{fails: true, cc: cliCase{words: p.words[:13]}})
		more := func(ws []Value, n int) []Value {
			ws = append([]Value(nil), ws...)
			for i := 0; i < n; i++ {
				ws = append(ws, ropeStr("word", nil, intAtom(fmt.Sprintf("extra%d", i), zero, big.NewInt(4095))))
			}
			return ws
		}
		pws := []*Rope{e.pws[0], e.pws[0], e.pws[0]}
		for _, n := range []int{17, 20, 32} {
			add(fmt.Sprintf("%d listed words", n), scenario{fails: true, cc: cliCase{words: more(nil, n), passwords: pws}})
		}
		for _, j := range []string{"notaword", "#", "1:", "abandonn", "-", "\x00"} {
			for _, at := range []int{0, 5, 14} {
				add(fmt.Sprintf("%q before word %d", j, at+1), scenario{fails: true, cc: cliCase{words: append(append(append([]Value(nil), p.words[:at]...), ropeConst(j)), p.words[at:]...)}})
			}
		}
		add("extra word", scenario{fails: true, cc: cliCase{words: more(p.words, 1)}})
		add("two extra words", scenario{fails: true, cc: cliCase{words: more(p.words, 2)}})
		add("the phrase twice", scenario{fails: true, cc: cliCase{words: append(append([]Value(nil), p.words...), p.words...)}})
		add("encrypted, extra word", scenario{fails: true, cc: cliCase{words: more(e.words, 1), passwords: pws}})
		add("encrypted, three extra words", scenario{fails: true, cc: cliCase{words: more(e.words, 3), passwords: pws}})
		add("encrypted, word missing", scenario{fails: true, cc: cliCase{words: e.words[:15], passwords: pws}})
		add("encrypted, two words missing", scenario{fails: true, cc: cliCase{words: e.words[:14], passwords: pws}})
	}
	for _, in := range []func() phraseIn{plainIn, encIn} {
		p := in()
		out = append(out, scenario{name: fmt.Sprintf("convert of %d words onto the input file", len(p.words)), cmd: "convert", fails: true, saved: path,
			cc: cliCase{args: argv("convert", flagArg("verbose"), "-in-word-file", path, "-out-word-file", path), words: p.words, inPath: path, passwords: p.pws}})
	}
	out = append(out, scenario{name: "generate -encrypt-keys, no password", cmd: "generate", fails: true, cc: cliCase{args: cstr("generate", "-encrypt-keys")}})
	out = append(out, scenario{name: "generate -encrypt-phrase, no password", cmd: "generate", fails: true, cc: cliCase{args: cstr("generate", "-encrypt-phrase")}})
	out = append(out, scenario{name: "generate -encrypt-keys, no terminal", cmd: "generate", fails: true, cc: cliCase{args: cstr("generate", "-encrypt-keys"), notty: true}})
	a, b := pwRope("key-password", 9), pwRope("other-password", 9)
	out = append(out, scenario{name: "generate -encrypt-keys, never confirmed", cmd: "generate", fails: true, cc: cliCase{args: cstr("generate", "-encrypt-keys"), passwords: []*Rope{a, b, b, a}},
		pre: func(c *Ctx) { c.assume(not(ropeEq(a, b))) }})
	out = append(out, scenario{name: "generate -encrypt-keys, confirmation missing", cmd: "generate", fails: true, cc: cliCase{args: cstr("generate", "-encrypt-keys"), passwords: []*Rope{a}}})
	return out
}

func helps() []scenario {
	var out []scenario
	for _, a := range [][]string{{"help"}, {"generate", "help"}, {"recover", "help"}, {"convert", "help"}, {"-h"}, {"--help"}, {"generate", "-h"}, {"recover", "--help"}, {"convert", "-help"}} {
		out = append(out, scenario{name: "mnemonikey " + strings.Join(a, " "), help: true, cc: cliCase{args: cstr(a...)}})
	}
	return out
}

func (c *Ctx) runScenario(s scenario) []exitState {
	if s.pre != nil {
		s.pre(c)
	}
	return c.cliMain(s.cc)
}

// ---------------------------------------------------------------------------
// C21: what is on standard output

// armoredKey reports whether a text is one armored key followed by a newline.
func armoredKey(v Value) bool {
	r, ok := v.(*Rope)
	if !ok || len(r.ps) != 2 {
		return false
	}
	nl, ok := ropeConstStr(mkRope(r.ps[1:]))
	return ok && nl == "\n" && wholeApp(mkRope(r.ps[:1]), "armor") != nil
}

// badText is the condition under which a text with alternatives is not good.
func badText(out *Rope, good func(*Rope) bool) (Value, string) {
	n := 0
	var rec func(done *Rope, todo []Piece) Value
	rec = func(done *Rope, todo []Piece) Value {
		for i, p := range todo {
			if p.kind == "gate" && n < 200 {
				d := ropeCat(done, mkRope(todo[:i]))
				return mapLeaves(p.v, func(l Value) Value {
					n++
					return rec(d, append(append([]Piece(nil), ropeOf(l).ps...), todo[i+1:]...))
				})
			}
		}
		return boolV(!good(ropeCat(done, mkRope(todo))))
	}
	v := rec(emptyRope, out.ps)
	if n >= 200 {
		return bFalse, "text depends on too many conditions: " + short(show(out))
	}
	return v, ""
}

func (c *Ctx) stdoutIs(x exitState, key bool) {
	what := "standard output stays empty"
	if key {
		what = "standard output is one armored key and a newline"
	}
	out := c.stdout(x)
	good := false
	if key {
		good = armoredKey(out)
	} else {
		good = out == emptyRope
	}
	if good {
		c.r.add("proved", what, "", "")
		return
	}
	if why := unknownIn(out); why != "" {
		c.r.add("undecided", what, why, x.pos)
		return
	}
	if why := unknownIn(x.st.pc); why != "" {
		c.r.add("undecided", what, why, x.pos)
		return
	}
	bad, why := badText(out, func(r *Rope) bool {
		if key {
			return armoredKey(r)
		}
		return r == emptyRope
	})
	if why != "" {
		c.r.add("undecided", what, why, x.pos)
		return
	}
	bad = and(x.st.pc, bad)
	if bad == bFalse {
		c.r.add("proved", what, "", "")
		return
	}
	pos := x.pos
	if ws := c.writes(x, "stdout"); len(ws) > 0 {
		pos = ws[len(ws)-1].pos
	}
	w, why := findWitness(bad, nil, func(v *valuation) string { return "reachable" })
	if w == "" {
		c.r.add("undecided", what, why, pos)
		return
	}
	c.r.add("refuted", what, fmt.Sprintf("at %s it holds %s; %s", x, short(show(out)), w), pos)
}

func runC21(r *Run) {
	rule := func(c *Ctx, s scenario) {
		for _, x := range c.runScenario(s) {
			c.stdoutIs(x, s.key && x.success())
		}
	}
	r.each(scenarios, "", rule)
	r.each(scenarios, " with faults", func(c *Ctx, s scenario) { rule(c, faulty(s)) })
	r.each(usageErrors, "", rule)
	r.each(badInputs, "", rule)
	r.each(helps, "", rule)
}

// ---------------------------------------------------------------------------
// C22: where secrets go

var typedWord = regexp.MustCompile(`^(w|line)[0-9]+$`)

// leak finds a secret in a text, outside of what is public by design.
func leak(v Value, wordsOK bool) string {
	found := ""
	seen := map[int]bool{}
	var rec func(v Value)
	rec = func(v Value) {
		if v == nil || seen[v.ID()] || found != "" {
			return
		}
		seen[v.ID()] = true
		switch v := v.(type) {
		case *Lin:
			for _, t := range v.ts {
				rec(t.a)
			}
		case *App:
			switch v.fn {
			case "sha1", "edpub", "x25519", "edsign":
				return
			case "seg":
				// the version of the format
				if b, lo, w, ok := segParts(v); ok && lo == 8 && w == 4 {
					if l, ok := b.(*Lin); ok && len(l.ts) == 1 && l.ts[0].a.fn == "widx" {
						return
					}
				}
			case "timefmt":
				// the creation time that words hold
				if !wordsOK {
					if l := leak(v.args[0], true); l != "" {
						found = l
					}
					return
				}
			case "word":
				if wordsOK {
					return
				}
				found = "a word of the recovery phrase"
				return
			case "seed":
				found = "the seed"
				return
			case "key-password", "phrase-password", "new-phrase-password", "other-password", "third-password", "partial-password":
				found = "a password"
				return
			case "randint", "random":
				if len(v.args) >= 3 {
					if n, ok := isConst(v.args[2]); ok && (v.fn == "random" && n.Cmp(big.NewInt(16)) < 0 || v.fn == "randint" && n.BitLen() < 64) {
						return // a salt
					}
				}
				found = "the random seed"
				return
			}
			if typedWord.MatchString(v.fn) && !wordsOK {
				found = "a word of the recovery phrase"
				return
			}
			for _, a := range v.args {
				rec(a)
			}
		case *Rope:
			for _, p := range v.ps {
				if p.v != nil {
					rec(p.v)
				}
				if p.a != nil {
					rec(p.a)
				}
			}
		case *Agg:
			for _, x := range v.es {
				rec(x)
			}
		case *Native:
			for _, x := range v.fs {
				rec(x)
			}
		case *Iface:
			rec(v.v)
		case *TimeV:
			rec(v.ns)
		case *Node:
			rec(v.hi)
			rec(v.lo)
		}
	}
	rec(v)
	return found
}

func (c *Ctx) reachableAt(desc, detail string, pc Value, pos string) {
	if pc == bFalse {
		c.r.add("proved", desc, "", "")
		return
	}
	if why := unknownIn(pc); why != "" {
		c.r.add("undecided", desc, why, pos)
		return
	}
	w, why := findWitness(pc, nil, func(v *valuation) string { return "reachable" })
	if w == "" {
		c.r.add("undecided", desc, why, pos)
		return
	}
	c.r.add("refuted", desc, detail+"; "+w, pos)
}

func (c *Ctx) noLeaks(s scenario) {
	nw := 0
	for _, ef := range c.effects {
		wordsOK := false
		where := ""
		switch ef.kind {
		case "write":
			switch ef.to {
			case "stderr":
				where, wordsOK = "the terminal", s.shown
			case "file":
				where = "a file"
				wordsOK = s.saved != nil && len(ef.args) > 0 && ef.args[0] == Value(s.saved)
			default:
				continue
			}
		case "env", "run", "net", "outside":
			where = ef.to
		case "open", "create":
			where = "a file name"
		default:
			continue
		}
		nw++
		l := leak(ef.what, wordsOK)
		if l != "" {
			// only on paths that cannot be taken?
			l = leak(simp(restrict(ef.what, ef.pc), ef.pc), wordsOK)
		}
		if l != "" {
			c.reachableAt("secrets stay inside the program", l+" goes to "+where, ef.pc, ef.pos)
		} else if ef.kind == "run" || ef.kind == "net" {
			c.reachableAt("no other program or machine is contacted", "call of "+ef.to, ef.pc, ef.pos)
		}
	}
	c.r.add("proved", fmt.Sprintf("%d outputs examined", nw), "", "")
}

func runC22(r *Run) {
	rule := func(c *Ctx, s scenario) {
		c.runScenario(s)
		c.noLeaks(s)
	}
	r.each(scenarios, "", rule)
	r.each(scenarios, " with faults", func(c *Ctx, s scenario) { rule(c, faulty(s)) })
	r.each(badInputs, "", func(c *Ctx, s scenario) {
		s.shown = false
		rule(c, s)
	})
	// phrases the library may refuse
	for _, n := range []int{14, 16} {
		for _, cmd := range []string{"recover", "convert"} {
			r.ctx(fmt.Sprintf("%s any %d words", cmd, n), func(c *Ctx) {
				path, out := ropeStr("in-path", linInt(8)), ropeStr("out-path", linInt(9))
				pw := pwRope("phrase-password", 7)
				cc := cliCase{args: argv(cmd, flagArg("verbose"), "-in-word-file", path), words: inputWords(n), inPath: path, passwords: []*Rope{pw, pw}}
				s := scenario{cmd: cmd, cc: cc}
				if cmd == "convert" {
					s.cc.args = append(s.cc.args, argv("-out-word-file", out)...)
					s.saved = out
				}
				rule(c, s)
			})
		}
	}
	for _, cmd := range []string{"recover", "convert"} {
		for _, n := range []int{14, 16} {
			r.ctx(fmt.Sprintf("%s -simple, %d lines", cmd, n), func(c *Ctx) {
				cc, _ := c.simpleInput(cmd, n, flagArg("verbose"))
				rule(c, scenario{cmd: cmd, cc: cc})
			})
		}
	}
	// a wrong password is not shown either
	r.ctx("recover with a wrong password first", func(c *Ctx) {
		in := encIn()
		wrong := pwRope("other-password", 6)
		rule(c, scenario{cmd: "recover", cc: cliCase{args: argv("recover", "-verbose", "-in-word-file", in.path), words: in.words, inPath: in.path, passwords: []*Rope{wrong, in.pws[0]}}})
	})
}

// ---------------------------------------------------------------------------
// C23: the word file

// handedOut is the phrase the command should hand out, in the current (specification) state.
func (c *Ctx) handedOut(s scenario, x exitState, when Value) Value {
	var seed, off Value
	if s.in != nil {
		seed, _ = c.phraseSeed(*s.in)
		off = s.in.off
	} else {
		seed = c.drawSeed(s)
		off = addI(floorDiv(timeNs(when), nsec), -epochStart)
	}
	var r []Value
	if s.phrase != nil {
		r = c.api(c.p.fn("", "EncodeMnemonicEncrypted"), seed, off, c.newBytes(s.phrase), c.pkgGlobal("crypto/rand", "Reader"))
	} else {
		r = c.api(c.p.fn("", "EncodeMnemonicPlaintext"), seed, off)
	}
	c.ok(r[1])
	return c.norm(r[0])
}

// drawSeed repeats the program's draw of a seed from the source the flags name.
func (c *Ctx) drawSeed(s scenario) Value {
	src := c.pkgGlobal("crypto/rand", "Reader")
	switch s.entropy {
	case "stdin":
		src = mkIface(c.fileType(), c.pkgGlobal("os", "Stdin"))
		c.st.heap[c.cli.inPos] = linInt(0)
	case "file":
		o := newObj("file", nil)
		c.st.heap[o] = mkNative("file", s.cc.readable[0], bTrue, linInt(0), linInt(0), emptyRope, linInt(0))
		src = mkIface(c.fileType(), mkPtr(o))
	}
	r := c.api(c.p.fn("", "GenerateSeed"), src)
	c.ok(r[1])
	return c.norm(r[0])
}

func (c *Ctx) fileType() types.Type {
	return types.NewPointer(c.p.ssa["os"].Pkg.Scope().Lookup("File").Type())
}

// whens lists the creation times the key may have.
func (c *Ctx) whens(s scenario, x exitState) []Value {
	if s.in != nil {
		return []Value{nil}
	}
	return c.nows(x)
}

func joined(ws []Value) *Rope {
	out := emptyRope
	for i, w := range ws {
		if i > 0 {
			out = ropeCat(out, ropeConst(" "))
		}
		out = ropeCat(out, ropeOf(w))
	}
	return ropeCat(out, ropeConst("\n"))
}

func (c *Ctx) fileRules(s scenario) {
	for _, ef := range c.effects {
		if ef.kind != "open" && ef.kind != "create" && ef.kind != "overwrite" && ef.kind != "chmod" && ef.kind != "rename" && ef.kind != "remove" {
			continue
		}
		switch ef.kind {
		case "open":
			fl, _ := constInt(ef.args[0])
			if fl&(oWRONLY|oRDWR|oCREATE|oTRUNC) == 0 {
				continue
			}
			if s.saved != nil && ef.what == Value(s.saved) {
				continue
			}
			c.reachableAt("no file other than the named one is written", "opens "+short(show(ef.what)), ef.pc, ef.pos)
		case "create":
			p, ok := constInt(ef.args[1])
			if !ok {
				c.r.add("undecided", "the word file is private", "mode "+short(show(ef.args[1])), ef.pos)
			} else if p&0o077 != 0 {
				c.reachableAt("the word file is private", fmt.Sprintf("created with mode %04o", p), ef.pc, ef.pos)
			} else {
				c.r.add("proved", "the word file is private", "", ef.pos)
			}
		case "overwrite", "rename":
			c.reachableAt("an existing file is never overwritten", ef.kind+" of "+short(show(ef.what)), ef.pc, ef.pos)
		case "chmod":
			p, ok := constInt(ef.args[0])
			if !ok || p&0o077 == 0 {
				continue
			}
			c.reachableAt("the word file is private", fmt.Sprintf("mode changed to %04o", p), ef.pc, ef.pos)
		case "remove":
			pc := ef.pc
			for _, g := range c.effects {
				if g.kind == "create" && g.what == ef.what {
					pc = and(pc, not(g.pc))
				}
			}
			c.reachableAt("an existing file is never removed", "removes "+short(show(ef.what)), pc, ef.pos)
		}
	}
}

// fileContent requires what was written to the word file to be the phrase.
func (c *Ctx) fileContent(s scenario, x exitState) {
	var alts []func() (Value, Value)
	for _, w := range c.whens(s, x) {
		for j := 0; j < 2; j++ {
			w := w
			alts = append(alts, func() (Value, Value) {
				got := emptyRope
				for _, ef := range c.writes(x, "file") {
					if len(ef.args) > 0 && ef.args[0] == Value(s.saved) {
						got = ropeCat(got, ropeOf(simp(restrict(ef.what, ef.pc), ef.pc)))
					}
				}
				return got, joined(c.strings(c.handedOut(s, x, w)))
			})
		}
	}
	c.matches("the word file holds the phrase, separated by spaces and ended by a newline", x, alts)
}

func runC23(r *Run) {
	r.each(scenarios, "", func(c *Ctx, s scenario) {
		xs := c.runScenario(s)
		c.fileRules(s)
		if s.saved == nil {
			return
		}
		c.onlySuccess(xs)
		for _, x := range xs {
			if x.success() {
				c.fileContent(s, x)
			}
		}
	})
	for _, l := range []func() []scenario{badInputs, usageErrors, helps} {
		r.each(l, "", func(c *Ctx, s scenario) {
			c.runScenario(s)
			c.fileRules(s)
		})
	}
	r.each(scenarios, " with faults", func(c *Ctx, s scenario) {
		s = faulty(s)
		xs := c.runScenario(s)
		c.fileRules(s)
		for _, x := range xs {
			if x.success() {
				c.noFaultsAt(x, "exists", "writefail", "closefail", "openfail")
			} else if s.saved != nil {
				c.stdoutIs(x, false)
			}
		}
	})
}

// noFaultsAt requires that the command does not report success after a fault.
func (c *Ctx) noFaultsAt(x exitState, kinds ...string) {
	for _, ef := range c.effects {
		if ef.kind != "fault" || ef.to == "exists" || !has(kinds, ef.to) {
			continue
		}
		if and(and(ef.pc, ef.what), x.st.pc) == bFalse {
			c.r.add("proved", "no success after "+faultName[ef.to], "", ef.pos)
			continue
		}
		c.at(x, func() { c.holdsAt("no success after "+faultName[ef.to], not(and(ef.pc, ef.what)), ef.pos) })
	}
	for _, v := range supportOf(x.st.pc) {
		a, ok := v.core.(*App)
		if !ok || v.kind != vOpaque || a.fn != "exists" || !has(kinds, a.fn) {
			continue
		}
		if a.fn == "exists" && c.cli.inPath != nil && a.args[0] == Value(c.cli.inPath) {
			continue
		}
		if a.fn == "exists" {
			skip := false
			for _, r := range c.cli.readable {
				skip = skip || a.args[0] == Value(r)
			}
			if skip {
				continue
			}
		}
		c.at(x, func() { c.holdsAt("no success after "+faultName[a.fn], not(mkNode(v, bTrue, bFalse)), x.pos) })
	}
	c.r.add("proved", "faults on the way to success examined", "", "")
}

var faultName = map[string]string{"exists": "finding the word file in existence", "writefail": "a failed write", "closefail": "a failed close",
	"openfail": "a failed open", "randfail": "a failure of the random source", "readerr": "a read error"}

// ---------------------------------------------------------------------------
// C24: the key on standard output

func runC24(r *Run) {
	th := r.tier == "thorough"
	for i, fc := range keyFlags("recover", th) {
		ins := []func() phraseIn{plainIn}
		if th || fc.name == "no flags" || strings.Contains(fc.name, "encrypt-keys") {
			ins = append(ins, encIn)
		}
		for j, in := range ins {
			r.ctx("recover "+fc.name+[]string{"", " from an encrypted phrase"}[j], func(c *Ctx) {
				p, fc := in(), keyFlags("recover", th)[i]
				if fc.pre != nil {
					fc.pre(c)
				}
				xs := c.cliMain(cliCase{args: argv("recover", "-in-word-file", p.path, fc.args), passwords: append(p.pws, fc.pws...), words: p.words, inPath: p.path})
				c.onlySuccess(xs)
				for _, x := range xs {
					if x.success() {
						c.expectKey(x, fc.ask, func() (Value, []Value) { return c.phraseSeed(p) })
					}
				}
			})
		}
	}
	for i, fc := range keyFlags("generate", th) {
		r.ctx("generate "+fc.name, func(c *Ctx) {
			fc := keyFlags("generate", th)[i]
			if fc.pre != nil {
				fc.pre(c)
			}
			xs := c.cliMain(cliCase{args: argv("generate", fc.args), passwords: fc.pws})
			c.onlySuccess(xs)
			for _, x := range xs {
				if x.success() {
					c.expectKey(x, fc.ask, func() (Value, []Value) { return c.drawSeed(scenario{}), c.nows(x) })
				}
			}
		})
	}
	for _, only := range []string{"", "master", "signing", "encryption,authentication", "authentication,master", "signing,encryption,authentication", "authentication,signing,master,encryption"} {
		for _, pw := range []bool{false, true} {
			suf := only
			if pw {
				suf += " -encrypt-keys"
			}
			if pw && !th && strings.Count(only, ",") > 1 {
				continue
			}
			r.ctx("recover with many flags, "+suf, func(c *Ctx) {
				p, fc := plainIn(), manyFlags("recover", "w", only, pw)
				if !pw {
					p = encIn()
				}
				fc.pre(c)
				xs := c.cliMain(cliCase{args: argv("recover", flagArg("verbose"), flagArg("simple"), "-in-word-file", p.path, fc.args), passwords: append(p.pws, fc.pws...), words: p.words, inPath: p.path})
				c.onlySuccess(xs)
				for _, x := range xs {
					if x.success() {
						c.expectKey(x, fc.ask, func() (Value, []Value) { return c.phraseSeed(p) })
					}
				}
			})
			r.ctx("generate with many flags, "+suf, func(c *Ctx) {
				fc := manyFlags("generate", "m", only, pw)
				fc.pre(c)
				out, pb := ropeStr("out-path", linInt(9)), pwRope("new-phrase-password", 11)
				xs := c.cliMain(cliCase{args: argv("generate", flagArg("verbose"), fc.args, "-encrypt-phrase", "-out-word-file", out), passwords: append(fc.pws, pb, pb)})
				c.onlySuccess(xs)
				for _, x := range xs {
					if x.success() {
						c.expectKey(x, fc.ask, func() (Value, []Value) { return c.drawSeed(scenario{}), c.nows(x) })
					}
				}
			})
		}
	}
	for _, n := range []string{"Ann B. Lee", "  Ann   Mary  Lee ", "\tann\n", "O'Neil (home) <x>", "Zoë 李", "-"} {
		for _, em := range []string{"", " ann@Example.ORG ", "not an address"} {
			r.ctx(fmt.Sprintf("recover -name %q -email %q", n, em), func(c *Ctx) {
				p := plainIn()
				ask := baseAsk()
				ask.name, ask.email = ropeConst(strings.TrimSpace(n)), ropeConst(strings.TrimSpace(em))
				for _, x := range c.cliMain(cliCase{args: argv("recover", "-in-word-file", p.path, "-name", n, "-email", em), words: p.words, inPath: p.path}) {
					if x.success() {
						c.expectKey(x, ask, func() (Value, []Value) { return c.phraseSeed(p) })
					}
				}
			})
		}
	}
	r.ctx("recover with further arguments", func(c *Ctx) {
		p := plainIn()
		arg := ropeStr("argument", linInt(5))
		for _, x := range c.cliMain(cliCase{args: argv("recover", "-in-word-file", p.path, "extra", arg), words: p.words, inPath: p.path}) {
			if x.success() {
				c.expectKey(x, baseAsk(), func() (Value, []Value) { return c.phraseSeed(p) })
			}
		}
	})
	r.ctx("generate with further arguments", func(c *Ctx) {
		arg := ropeStr("argument", linInt(5))
		for _, x := range c.cliMain(cliCase{args: argv("generate", "extra", arg)}) {
			if x.success() {
				c.expectKey(x, baseAsk(), func() (Value, []Value) { return c.drawSeed(scenario{}), c.nows(x) })
			}
		}
	})
	for _, o := range []string{"everything", "Encryption", "MASTER", " signing", "master, signing", "signing ", "encryption,", ",", ",master", "master,,signing", "sign", "auth", "masters", "master;signing", "encryption authentication", "all", "certify"} {
		for _, cmd := range []string{"recover", "generate"} {
			r.ctx(fmt.Sprintf("%s -only %q", cmd, o), func(c *Ctx) {
				cc := cliCase{args: argv(cmd, "-only", o)}
				if cmd == "recover" {
					p := plainIn()
					cc.args = append(cc.args, argv("-in-word-file", p.path)...)
					cc.words, cc.inPath = p.words, p.path
				}
				c.onlyFailure(c.cliMain(cc))
			})
		}
	}
	for _, f := range []string{"enc", "auth", "sig"} {
		r.ctx("recover with too large -"+f+"-index", func(c *Ctx) {
			n := intAtom("index", pow2(16), new(big.Int).Sub(pow2(64), one))
			p := plainIn()
			c.onlyFailure(c.cliMain(cliCase{args: argv("recover", "-in-word-file", p.path, "-"+f+"-index", decText(n)), words: p.words, inPath: p.path}))
		})
	}
}

func (c *Ctx) onlyFailure(xs []exitState) {
	for _, x := range xs {
		if !x.success() {
			if _, ok := constInt(x.code); ok {
				c.r.add("proved", "the command fails", "", x.pos)
			} else {
				c.at(x, func() { c.holdsAt("the command fails", not(eqInt(x.code, linInt(0))), x.pos) })
			}
			continue
		}
		c.at(x, func() { c.holdsAt("the command fails", bFalse, x.pos) })
	}
	if len(xs) == 0 {
		c.r.add("undecided", "the command fails", "no end of the program found", "")
	}
}

// ---------------------------------------------------------------------------
// C25: the validity period

func runC25(r *Run) {
	for _, s := range []string{"d", "y", "5", "10", "5x", "-1d", "+1d", "1.5y", "1_0d", " 5d", "5d ", "5 d", "0x10d", "18446744073709551616d", "99999999999999999999999y", "5dd", "5s", "5h", "１y", "d5", "1e3d", "", "1y6m"} {
		if s == "" {
			continue
		}
		r.ctx("-ttl "+s, func(c *Ctx) {
			p := plainIn()
			c.onlyFailure(c.cliMain(cliCase{args: argv("recover", "-ttl", s, "-in-word-file", p.path), words: p.words, inPath: p.path}))
		})
	}
	for _, u := range []string{"d", "w", "m", "y", "D", "W", "M", "Y"} {
		for _, cmd := range []string{"recover", "generate"} {
			if cmd == "generate" && r.tier != "thorough" && u != "d" && u != "Y" {
				continue
			}
			r.ctx(cmd+" -ttl <n>"+u, func(c *Ctx) {
				p := plainIn()
				n := intAtom("ttl", zero, new(big.Int).Sub(pow2(64), one))
				ns := scale(n, unitNs[strings.ToLower(u)])
				c.assume(le(linInt(1), n))
				cc := cliCase{args: argv(cmd, "-ttl", ropeCat(decText(n), ropeConst(u)))}
				if cmd == "recover" {
					cc.args = append(cc.args, argv("-in-word-file", p.path)...)
					cc.words, cc.inPath = p.words, p.path
				}
				xs := c.cliMain(cc)
				ok := bFalse
				for _, x := range xs {
					if x.success() {
						ok = or(ok, x.st.pc)
					}
				}
				max := linConst(mulB(1<<32 - 1))
				for _, x := range xs {
					if !x.success() {
						c.at(x, func() {
							c.holdsAt("periods an OpenPGP key can have are accepted", not(le(ns, max)), x.pos)
						})
						continue
					}
					c.at(x, func() { c.holds("periods that do not fit an OpenPGP key are refused", le(ns, max)) })
					ask := baseAsk()
					ask.ttl = ns
					c.expectKey(x, ask, func() (Value, []Value) {
						if cmd == "recover" {
							return c.phraseSeed(p)
						}
						return c.drawSeed(scenario{}), c.nows(x)
					})
				}
				if ok == bFalse {
					c.r.add("undecided", "periods an OpenPGP key can have are accepted", "no successful end", "")
				}
			})
		}
	}
	for _, u := range []string{"d", "Y"} {
		for _, pw := range []bool{false, true} {
			r.ctx(fmt.Sprintf("recover -ttl <n>%s with other flags, encryption %v", u, pw), func(c *Ctx) {
				p, fc := plainIn(), manyFlags("recover", strings.ToLower(u), map[bool]string{false: "master,signing", true: "encryption"}[pw], pw)
				fc.pre(c)
				xs := c.cliMain(cliCase{args: argv("recover", flagArg("verbose"), flagArg("simple"), "-in-word-file", p.path, fc.args), passwords: append(p.pws, fc.pws...), words: p.words, inPath: p.path})
				c.onlySuccess(xs)
				for _, x := range xs {
					if x.success() {
						c.expectKey(x, fc.ask, func() (Value, []Value) { return c.phraseSeed(p) })
					}
				}
			})
		}
	}
	r.ctx("-ttl <text>d", func(c *Ctx) {
		p := plainIn()
		t := ropeStr("text", nil)
		c.strLen(t, 1, 40)
		c.assume(boolApp("notuint", t))
		c.onlyFailure(c.cliMain(cliCase{args: argv("recover", "-ttl", ropeCat(t, ropeConst("d")), "-in-word-file", p.path), words: p.words, inPath: p.path}))
	})
}

// ---------------------------------------------------------------------------
// C26: failures are reported

func (c *Ctx) failuresShow(s scenario, xs []exitState) {
	for _, x := range xs {
		if x.success() {
			c.noFaultsAt(x, "exists", "writefail", "closefail", "openfail", "randfail", "readerr")
			if s.key {
				c.stdoutIs(x, true)
			}
		} else {
			c.stdoutIs(x, false)
			said := false
			for _, w := range c.writes(x, "stderr") {
				said = said || w.what != Value(emptyRope)
			}
			if !said {
				c.reachableAt("a failure is explained", "nothing is printed before "+x.String(), x.st.pc, x.pos)
			} else {
				c.r.add("proved", "a failure is explained", "", "")
			}
		}
	}
	c.noHangs()
	c.noPanics("no panic")
}

func (c *Ctx) noHangs() {
	for _, ef := range c.effects {
		if ef.kind == "hang" {
			c.reachableAt("the program does not hang", ef.to, ef.pc, ef.pos)
		}
	}
	for _, p := range c.runaway {
		c.reachableAt("the program does not hang", "the loop does not end", p.pc, p.pos)
	}
}

func runC26(r *Run) {
	good := func(c *Ctx, s scenario) {
		xs := c.runScenario(s)
		c.onlySuccess(xs)
		c.noHangs()
		c.noPanics("no panic")
	}
	bad := func(c *Ctx, s scenario) {
		xs := c.runScenario(s)
		c.onlyFailure(xs)
		c.failuresShow(s, xs)
	}
	r.each(scenarios, "", good)
	r.each(helps, "", good)
	r.each(scenarios, " with faults", func(c *Ctx, s scenario) {
		s = faulty(s)
		c.failuresShow(s, c.runScenario(s))
	})
	r.each(usageErrors, "", bad)
	r.each(badInputs, "", bad)
	// any words: success exactly when the library accepts them
	for _, n := range []int{14, 16} {
		for _, cmd := range []string{"recover", "convert"} {
			r.ctx(fmt.Sprintf("%s any %d words", cmd, n), func(c *Ctx) {
				path := ropeStr("in-path", linInt(8))
				ws := inputWords(n)
				xs := c.cliMain(cliCase{args: argv(cmd, "-in-word-file", path), words: ws, inPath: path, passwords: nil})
				for _, x := range xs {
					c.at(x, func() {
						var low []Value
						for _, w := range ws {
							low = append(low, w)
						}
						rs := c.api(c.p.fn("", "DecodeMnemonic"), c.words(low))
						bad := not(c.nilCond(rs[1]))
						if x.success() {
							c.holdsAt("success only for phrases the library accepts", not(bad), x.pos)
						} else if n == 14 {
							c.holdsAt("failure only for phrases the library refuses", bad, x.pos)
						}
					})
					c.stdoutIs(x, cmd == "recover" && x.success())
				}
				c.noPanics("no panic")
			})
		}
	}
}

// ---------------------------------------------------------------------------
// C27: the terminal and passwords

func (c *Ctx) cooked(x exitState) {
	m := simp(restrict(x.st.heap[c.cli.term], x.st.pc), x.st.pc)
	desc := "the terminal is in its original mode at the end"
	if m == Value(ropeConst("cooked")) {
		c.r.add("proved", desc, "", "")
		return
	}
	if why := unknownIn(m); why != "" {
		c.r.add("undecided", desc, why, x.pos)
		return
	}
	pc := and(x.st.pc, not(ropeEqV(m, "cooked")))
	c.reachableAt(desc, "mode "+short(show(m))+" at "+x.String(), pc, x.pos)
}

func ropeEqV(v Value, s string) Value {
	return mapLeaves(v, func(v Value) Value {
		if r, ok := v.(*Rope); ok {
			return ropeEq(r, ropeConst(s))
		}
		return bFalse
	})
}

func (c *Ctx) hidden() {
	n := 0
	for _, ef := range c.effects {
		switch ef.kind {
		case "echo":
			c.reachableAt("passwords are read without echo", "a password is read as ordinary input", ef.pc, ef.pos)
		case "prompt":
			n++
		}
	}
	c.r.add("proved", fmt.Sprintf("%d password prompts examined", n), "", "")
}

func runC27(r *Run) {
	for i, s := range scenarios() {
		np := len(s.cc.passwords)
		if np == 0 {
			continue
		}
		r.ctx(s.name, func(c *Ctx) {
			for _, x := range c.runScenario(scenarios()[i]) {
				c.cooked(x)
			}
			c.hidden()
			c.noHangs()
		})
		for k := 1; k <= np; k++ {
			r.ctx(fmt.Sprintf("%s, Ctrl-C at prompt %d", s.name, k), func(c *Ctx) {
				s := scenarios()[i]
				s.cc.interrupt = k
				xs := c.runScenario(s)
				c.onlyFailure(xs)
				for _, x := range xs {
					c.cooked(x)
					c.stdoutIs(x, false)
				}
				c.noHangs()
				c.fileRules(scenario{})
			})
			r.ctx(fmt.Sprintf("%s, end of input at prompt %d", s.name, k), func(c *Ctx) {
				s := scenarios()[i]
				s.cc.passwords = s.cc.passwords[:k-1]
				xs := c.runScenario(s)
				c.onlyFailure(xs)
				for _, x := range xs {
					c.cooked(x)
				}
				c.noHangs()
			})
		}
		r.ctx(s.name+" with faults", func(c *Ctx) {
			for _, x := range c.runScenario(faulty(scenarios()[i])) {
				c.cooked(x)
			}
		})
	}
	// confirmation
	type typed struct {
		n   string
		pws []*Rope
	}
	scripts := func() ([]typed, *Rope, *Rope) {
		a, b := pwRope("key-password", 9), pwRope("other-password", 9)
		cc := pwRope("third-password", 5)
		return []typed{
			{"mistyped once", []*Rope{b, a, a, a}},
			{"mistyped twice", []*Rope{a, b, b, a, a, a}},
			{"different lengths", []*Rope{cc, a, a, a}},
			{"prefix", []*Rope{ropeCat(a, cc), a, a, a}},
			{"empty first", []*Rope{emptyRope, a, a}},
			{"empty twice", []*Rope{emptyRope, emptyRope, a, a}},
			{"empty confirmation", []*Rope{b, emptyRope, a, a}},
		}, a, b
	}
	l, _, _ := scripts()
	for i, v := range l {
		for _, cmd := range []string{"recover", "generate"} {
			r.ctx(cmd+" -encrypt-keys: "+v.n, func(c *Ctx) {
				l, a, b := scripts()
				v := l[i]
				p := plainIn()
				c.assume(not(ropeEq(a, b)))
				k := cliCase{args: argv(cmd, "-encrypt-keys", flagArg("verbose")), passwords: v.pws}
				if cmd == "recover" {
					k.args = append(k.args, argv("-in-word-file", p.path, flagArg("simple"), flagArg("self-cert"))...)
					k.words, k.inPath = p.words, p.path
				}
				xs := c.cliMain(k)
				c.onlySuccess(xs)
				ask := baseAsk()
				ask.pw = a
				for _, x := range xs {
					c.cooked(x)
					if x.success() {
						c.expectKey(x, ask, func() (Value, []Value) {
							if cmd == "recover" {
								return c.phraseSeed(p)
							}
							return c.drawSeed(scenario{}), c.nows(x)
						})
					}
				}
				c.hidden()
			})
		}
	}
	// phrases
	r.ctx("recover with a wrong password first", func(c *Ctx) {
		in := encIn()
		wrong := pwRope("other-password", 6)
		salt := intAtom("salt", zero, new(big.Int).Sub(pow2(19), one))
		k1, k2 := specSeedKey(in.pws[0], salt, in.off), specSeedKey(wrong, salt, in.off)
		v1, v2 := seg(ropeInt(mustSlice(k1, 16, 1)), 0, 5), seg(ropeInt(mustSlice(k2, 16, 1)), 0, 5)
		c.assume(not(eqInt(v1, v2)))
		xs := c.cliMain(cliCase{args: argv("recover", "-in-word-file", in.path), words: in.words, inPath: in.path, passwords: []*Rope{wrong, in.pws[0]}})
		c.onlySuccess(xs)
		for _, x := range xs {
			c.cooked(x)
			if x.success() {
				c.expectKey(x, baseAsk(), func() (Value, []Value) { return c.phraseSeed(in) })
			}
		}
	})
}

// ---------------------------------------------------------------------------
// C30: the phrase that is handed out

type shownWord struct {
	num int
	w   Value
	pos string
}

// shownWords lists the words of a phrase in displayed text, with the numbers before them.
func (c *Ctx) shownWords(x exitState) (out []shownWord, why string) {
	num := -1
	for _, ef := range c.writes(x, "stderr") {
		r := ropeOf(simp(restrict(ef.what, and(ef.pc, x.st.pc)), and(ef.pc, x.st.pc)))
		if u := unknownIn(r); u != "" {
			return nil, u
		}
		for _, p := range r.ps {
			pr := mkRope([]Piece{p})
			if s, ok := ropeConstStr(pr); ok {
				s = stripANSI(s)
				d := ""
				for _, ch := range s {
					if ch >= '0' && ch <= '9' {
						d += string(ch)
					} else {
						if d != "" {
							fmt.Sscan(d, &num)
						}
						d = ""
					}
				}
				if d != "" {
					fmt.Sscan(d, &num)
				}
				continue
			}
			if wholeApp(pr, "word") != nil {
				if num == -2 {
					return nil, "number of a word not recognised"
				}
				out = append(out, shownWord{num, pr, ef.pos})
				num = -1
				continue
			}
			num = -2 // may end in a number
			if leak(pr, false) == "a word of the recovery phrase" {
				return nil, "word in unexpected text " + short(show(pr))
			}
		}
	}
	return out, ""
}

func stripANSI(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b && i+1 < len(s) && s[i+1] == '[' {
			j := i + 2
			for j < len(s) && (s[j] < '@' || s[j] > '~') {
				j++
			}
			i = j
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func (c *Ctx) phraseShown(s scenario, x exitState) {
	desc := "the displayed phrase restores the key"
	ws, why := c.shownWords(x)
	if why != "" {
		c.r.add("undecided", desc, why, "")
		return
	}
	var got []Value
	for _, w := range ws {
		got = append(got, w.w)
	}
	var alts []func() (Value, Value)
	for _, w := range c.whens(s, x) {
		for j := 0; j < 2; j++ {
			alts = append(alts, func() (Value, Value) {
				return mkAgg("words", got), mkAgg("words", c.strings(c.handedOut(s, x, w)))
			})
		}
	}
	if len(alts) == 0 {
		c.r.add("undecided", desc, "creation time not found", "")
		return
	}
	c.matches(desc, x, alts)
	for i, w := range ws {
		if w.num != i+1 {
			c.reachableAt("words are numbered in order", fmt.Sprintf("word %d is shown as number %d", i+1, w.num), x.st.pc, w.pos)
			return
		}
	}
	c.r.add("proved", "words are numbered in order", "", "")
}

func runC30(r *Run) {
	list := func() []scenario {
		var out []scenario
		for _, s := range scenarios() {
			if s.cmd != "recover" {
				out = append(out, s)
			}
		}
		return out
	}
	r.each(list, "", func(c *Ctx, s scenario) {
		xs := c.runScenario(s)
		c.onlySuccess(xs)
		for _, x := range xs {
			if !x.success() {
				continue
			}
			if s.shown {
				c.phraseShown(s, x)
			} else {
				c.fileContent(s, x)
			}
			if s.key {
				// with the same seed and time as the key on standard output
				c.expectKey(x, s.ask, func() (Value, []Value) { return c.drawSeed(s), c.nows(x) })
			}
		}
	})
}

// ---------------------------------------------------------------------------
// C31: where randomness comes from

func runC31(r *Run) {
	list := func() []scenario {
		var out []scenario
		for _, s := range scenarios() {
			if s.cmd == "generate" {
				out = append(out, s)
			}
		}
		return out
	}
	r.each(list, "", func(c *Ctx, s scenario) {
		xs := c.runScenario(s)
		c.onlySuccess(xs)
		for _, x := range xs {
			if x.success() {
				c.expectKey(x, s.ask, func() (Value, []Value) { return c.drawSeed(s), c.nows(x) })
			}
		}
		c.sources(s)
	})
	r.each(list, " with faults", func(c *Ctx, s scenario) {
		s = faulty(s)
		for _, x := range c.runScenario(s) {
			if x.success() {
				c.noFaultsAt(x, "randfail", "openfail", "readerr")
			}
		}
		c.sources(s)
	})
}

// seedDraw lists the shapes of a draw of 128 bits.
var seedDraw = map[string]bool{"int:340282366920938463463374607431768211456": true, "bytes:16": true}

func fileSource(id Value) bool {
	r, ok := id.(*Rope)
	if !ok || len(r.ps) == 0 {
		return false
	}
	for _, p := range []string{"file:", "os.Stdin"} {
		if h, ok := ropeSlice(r, linInt(0), linInt(int64(len(p)))); ok && h == Value(ropeConst(p)) {
			return true
		}
	}
	return false
}

func (c *Ctx) sources(s scenario) {
	for _, ef := range c.effects {
		if ef.kind != "draw" {
			continue
		}
		id := show(ef.args[0])
		fromFile := fileSource(ef.args[0])
		if fromFile && s.entropy == "" {
			c.reachableAt("only the system's random source is used", "draw from "+id, ef.pc, ef.pos)
		} else if fromFile && !seedDraw[strings.Fields(ef.to)[0]] {
			c.reachableAt("only the seed comes from the given source", "draw from "+id, ef.pc, ef.pos)
		} else {
			c.r.add("proved", "the source of a draw is the intended one", "", ef.pos)
		}
	}
}

const cliRule = "main is abstractly interpreted with given arguments, abstract word file, keys, passwords, clock, random stream and files; all ends of the program (exit calls, return, interrupt) are collected with the condition under which they are reached and the effects on the way (writes, files, terminal modes, draws)"

var cliAssume = append([]string{"the models of os, bufio, flag, fmt, x/term and os/signal in cli.go and intrin.go describe those packages",
	"a failing operating-system call returns an error and has no other effect"}, stdAssume...)

func init() {
	reg := func(id string, run func(*Run), expl string) {
		register(id, &checkDef{level: "proof", rule: cliRule, assume: cliAssume, run: run, expl: expl})
	}
	reg("C21", runC21, "The text on standard output at every end is compared with one armored key and a newline (success of generate and recover) or nothing.")
	reg("C22", runC22, "Every write to the terminal or a file, file name, environment change and call outside of the program is searched for values that depend on a secret other than through a public key, signature or hash of public material.")
	reg("C23", runC23, "Every file operation is examined (flags, mode, path); at successful ends the written text is compared with the library's phrase; no success is reachable together with a file fault.")
	reg("C24", runC24, "Standard output is compared with the library's armored export for the seed, time and options that the flags ask for; out-of-range indices lead to failure only.")
	reg("C25", runC25, "The condition under which a period of n units is accepted is compared with n units fitting 32 bits of seconds, and the key with the library's key of exactly that lifetime; malformed texts lead to failure only.")
	reg("C26", runC26, "No successful end is reachable together with a fault or refused input, every failing end is preceded by output on standard error, no panic or endless loop is reachable; acceptance of arbitrary words is compared with the library's.")
	reg("C27", runC27, "The terminal mode at every end is the original one; prompts read hidden; the key is compared with the library's export under the password typed twice.")
	reg("C30", runC30, "Words displayed or saved are compared with the library's phrase for the seed and time of the key on standard output, and their numbers with their positions.")
	reg("C31", runC31, "The stream of each random draw is examined, the key compared with the library's key for a seed drawn from the intended stream, and success excluded where a draw fails.")
}
