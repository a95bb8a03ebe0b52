package main

// Interactive input of a phrase, and help texts.

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// typist builds a script of keys and what the program should take them for.
type typist struct {
	keys               []*Rope
	want               []Value
	cur                []*Rope // letters of the word being typed
	n                  int
	nomatch, completed map[*Rope]bool
	version            map[*Rope]int // of first words; -1: not supported
	steps              int
}

func newTypist() *typist {
	return &typist{nomatch: map[*Rope]bool{}, completed: map[*Rope]bool{}, version: map[*Rope]int{}}
}

func (t *typist) key(b byte) *typist { t.keys = append(t.keys, ropeConst(string([]byte{b}))); return t }

// letter types an arbitrary lower-case letter.
func (t *typist) letter() *typist {
	t.n++
	l := ropeFix(1, intAtom(fmt.Sprintf("letter%d", t.n), big.NewInt('a'), big.NewInt('z')))
	t.keys = append(t.keys, l)
	t.cur = append(t.cur, l)
	return t
}

func (t *typist) letters(n int) *typist {
	for i := 0; i < n; i++ {
		t.letter()
	}
	return t
}

func (t *typist) query() *Rope { return ropeCat(t.cur...) }

func completion(q *Rope) *Rope { return ropeStr("completion", linInt(3), q) }

// tab completes the word being typed.
func (t *typist) tab() *typist {
	t.key('\t')
	if len(t.cur) > 0 && !t.nomatch[t.query()] {
		t.cur = append(t.cur, completion(t.query()))
	}
	return t
}

func (t *typist) backspace() *typist {
	t.key(0x7f)
	if n := len(t.cur); n > 0 {
		if l, ok := constInt(ropeLen(t.cur[n-1])); ok && l > 1 {
			t.cur[n-1] = mustSlice(t.cur[n-1], 0, int64(l-1))
		} else {
			t.cur = t.cur[:n-1]
		}
	}
	return t
}

// submit enters the word; v is the version of the phrase if it is the first word.
func (t *typist) submit(k byte, v int) *typist {
	t.key(k)
	q := t.query()
	if len(t.cur) == 0 || t.nomatch[q] {
		return t
	}
	w := ropeCat(q, completion(q))
	t.completed[w] = true
	if len(t.want) == 0 {
		if old, ok := t.version[w]; ok {
			v = old
		}
		t.version[w] = v
		if v < 0 {
			return t
		}
	}
	t.want = append(t.want, w)
	t.cur = nil
	return t
}

func (t *typist) word(v int) *typist { return t.letters(2).submit('\r', v) }

func (t *typist) left() *typist {
	// arrow keys arrive as ESC [ D
	t.key(0x1b).key('[').key('D')
	if len(t.want) > 0 {
		t.want = t.want[:len(t.want)-1]
	}
	t.cur = nil
	return t
}

func (t *typist) bad(n int) *typist {
	t.letters(n)
	t.nomatch[t.query()] = true
	return t
}

func (t *typist) upTo(n int) *typist {
	for len(t.want) < n {
		t.word(0)
	}
	return t
}

func (t *typist) search(e *Engine, q *Rope) (Value, []Value, bool) {
	if q == emptyRope || t.nomatch[q] {
		return bFalse, nil, true
	}
	if t.completed[q] {
		return bTrue, cstr(""), true
	}
	n, _ := constInt(ropeLen(q))
	if n > 0 {
		if _, ok := t.version[q]; ok {
			return bTrue, cstr(""), true
		}
	}
	return boolApp("exactword", q), []Value{completion(q), ropeStr("completion2", linInt(4), q)}, true
}

// observe replaces the library's decoder by an observer.
func (c *Ctx) observeDecoder(versions func(w *Rope) (int, bool)) map[string]intrinsic {
	mod := c.p.module
	return map[string]intrinsic{
		mod + ".DecodeMnemonic": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			e.split(restrict(a[0], e.st.pc), func(v Value) {
				ws := []Value{unknown("words")}
				switch s := v.(type) {
				case *SliceV:
					l := e.strings(s)
					if n, ok := constInt(s.len); ok && n == len(l) {
						ws = l
					}
				case *NilV:
					ws = nil
				}
				e.logEffect(effect{kind: "decode", what: mkAgg("words", ws)})
			})
			return []Value{nilV, e.newError("observed", nil)}
		},
		mod + ".ParseMnemonicVersion": func(e *Engine, fn *ssa.Function, a []Value) []Value {
			if v, ok := versions(ropeOf(a[0])); ok {
				if v < 0 {
					return []Value{linInt(0), e.newError("version not supported", nil)}
				}
				return []Value{linInt(int64(v)), nilV}
			}
			return []Value{unknown("version of %s", show(a[0])), unknown("version of %s", show(a[0]))}
		},
	}
}

// taken requires the words given to the decoder to be the ones entered.
func (c *Ctx) taken(xs []exitState, want []Value, cooked bool) {
	n := 0
	for _, ef := range c.effects {
		if ef.kind != "decode" {
			continue
		}
		n++
		save := c.st
		st := save.clone()
		st.pc = ef.pc
		c.setState(st)
		c.eq("the words taken are the words entered", ef.what, mkAgg("words", want))
		c.setState(save)
	}
	if n == 0 {
		if why := c.undecidedEnds(xs); why != "" {
			c.r.add("undecided", "the words entered are taken", why, "")
		} else {
			for _, x := range xs {
				c.reachableAt("the words entered are taken", "the program ends without using them: "+x.String(), x.st.pc, x.pos)
			}
		}
	}
	for _, x := range xs {
		c.cooked(x)
	}
	c.noHangs()
	c.noPanics("no panic")
}

func (c *Ctx) undecidedEnds(xs []exitState) string {
	if len(xs) == 0 {
		return "no end of the program found"
	}
	for _, x := range xs {
		if why := unknownIn(x.st.pc); why != "" {
			return why
		}
	}
	for k := range c.opaque {
		if k != "loop accelerated" {
			return k
		}
	}
	return ""
}

type inputScript struct {
	name string
	mk   func() *typist
}

func rawScripts(thorough bool) []inputScript {
	s := []inputScript{
		{"14 words", func() *typist { return newTypist().upTo(14) }},
		{"16 words", func() *typist { t := newTypist().word(1); return t.upTo(16) }},
		{"submitted with space", func() *typist { return newTypist().letters(3).submit(' ', 0).letters(1).submit(' ', 0).upTo(14) }},
		{"words of one and many letters", func() *typist {
			return newTypist().letters(1).submit('\r', 0).letters(9).submit('\r', 0).upTo(14)
		}},
		{"completed before submitting", func() *typist {
			return newTypist().letters(2).tab().submit('\r', 0).letters(1).tab().submit(' ', 0).upTo(14)
		}},
		{"completed twice", func() *typist { return newTypist().upTo(5).letters(2).tab().tab().submit('\r', 0).upTo(14) }},
		{"completed, then revised", func() *typist {
			return newTypist().upTo(3).letters(2).tab().backspace().letters(1).submit('\r', 0).upTo(14)
		}},
		{"typing errors corrected", func() *typist {
			return newTypist().letters(2).backspace().letters(2).submit('\r', 0).letters(1).backspace().backspace().backspace().word(0).upTo(14)
		}},
		{"unknown words", func() *typist {
			return newTypist().word(0).bad(3).submit('\r', 0).backspace().submit('\r', 0).bad(2).submit(' ', 0).tab().backspace().backspace().letters(2).submit(' ', 0).upTo(14)
		}},
		{"unknown first word", func() *typist {
			return newTypist().bad(2).submit('\r', 0).backspace().letters(1).submit('\r', 0).upTo(14)
		}},
		{"unsupported version first", func() *typist {
			t := newTypist().letters(2).submit('\r', -1)
			t.backspace().backspace()
			return t.upTo(14)
		}},
		{"empty submissions", func() *typist {
			return newTypist().submit('\r', 0).submit(' ', 0).word(0).submit('\r', 0).submit(' ', 0).tab().upTo(14)
		}},
		{"other keys ignored", func() *typist {
			return newTypist().key('A').key('9').key(0x80).letters(1).key('Z').key('-').letters(1).key(0x1b).key('[').key('A').submit('\r', 0).upTo(14)
		}},
		{"previous word revised", func() *typist { return newTypist().upTo(4).left().word(0).upTo(14) }},
		{"two previous words revised", func() *typist { return newTypist().upTo(6).left().left().upTo(14) }},
		{"last word revised", func() *typist { return newTypist().upTo(13).left().upTo(14) }},
		{"first word revised", func() *typist { return newTypist().word(0).left().word(0).upTo(14) }},
		{"first word revised to a longer phrase", func() *typist { return newTypist().word(0).left().word(1).upTo(16) }},
		{"first word revised to a shorter phrase", func() *typist { return newTypist().word(1).word(0).left().left().word(0).upTo(14) }},
		{"left arrow at the start", func() *typist { return newTypist().left().left().upTo(14) }},
		{"left arrow within a word", func() *typist { return newTypist().upTo(3).letters(2).left().word(0).upTo(14) }},
		{"everything revised", func() *typist {
			t := newTypist().upTo(9)
			for i := 0; i < 11; i++ {
				t.left()
			}
			return t.word(1).upTo(16)
		}},
	}
	if thorough {
		for k := 1; k <= 13; k++ {
			for b := 1; b <= k; b++ {
				s = append(s, inputScript{fmt.Sprintf("%d words, then %d revised", k, b), func() *typist {
					t := newTypist().upTo(k)
					for i := 0; i < b; i++ {
						t.left()
					}
					return t.upTo(14)
				}})
			}
		}
	}
	return s
}

func runC28(r *Run) {
	for _, cmd := range []string{"recover", "convert"} {
		for i, s := range rawScripts(r.tier == "thorough") {
			if cmd == "convert" && i > 1 {
				break
			}
			r.ctx(cmd+", "+s.name, func(c *Ctx) {
				t := s.mk()
				env := cliCase{args: argv(cmd), keys: t.keys, search: t.search}
				env.hooks = c.observeDecoder(func(w *Rope) (int, bool) { return t.version[w], true })
				c.taken(c.cliMain(env), t.want, true)
			})
		}
	}
	// giving up
	for _, k := range []struct {
		n string
		b byte
	}{{"Ctrl-C", 3}, {"Ctrl-D", 4}} {
		for _, n := range []int{0, 1, 7, 13} {
			r.ctx(fmt.Sprintf("%s after %d words", k.n, n), func(c *Ctx) {
				t := newTypist().upTo(n).letters(1).key(k.b)
				env := cliCase{args: argv("recover"), keys: t.keys, search: t.search}
				env.hooks = c.observeDecoder(func(w *Rope) (int, bool) { return t.version[w], true })
				c.gaveUp(c.cliMain(env))
			})
		}
	}
	for _, k := range []byte{3, 4} {
		for _, n := range []int{0, 1, 7, 13} {
			for _, part := range []bool{false, true} {
				r.ctx(fmt.Sprintf("key %d after %d words, then more keys, word begun %v", k, n, part), func(c *Ctx) {
					t := newTypist().upTo(n)
					if part {
						t.letters(1)
					}
					t.key(k)
					t.cur = nil
					t.upTo(14)
					t.word(0)
					env := cliCase{args: argv("recover"), keys: t.keys, search: t.search}
					env.hooks = c.observeDecoder(func(w *Rope) (int, bool) { return t.version[w], true })
					c.gaveUp(c.cliMain(env))
				})
			}
		}
	}
	for _, n := range []int{1, 13, 14, 15} {
		r.ctx(fmt.Sprintf("end of input after %d of 16 words", n), func(c *Ctx) {
			t := newTypist().word(1).upTo(n)
			env := cliCase{args: argv("recover"), keys: t.keys, search: t.search}
			env.hooks = c.observeDecoder(func(w *Rope) (int, bool) { return t.version[w], true })
			c.gaveUp(c.cliMain(env))
		})
		r.ctx(fmt.Sprintf("-simple, end of input after %d of 16 lines", n), func(c *Ctx) {
			cc, _ := c.simpleInput("recover", 16)
			cc.lines = cc.lines[:n]
			c.gaveUp(c.cliMain(cc))
		})
	}
	for _, n := range []int{0, 5, 13} {
		r.ctx(fmt.Sprintf("end of input after %d words", n), func(c *Ctx) {
			t := newTypist().upTo(n).letters(1)
			env := cliCase{args: argv("recover"), keys: t.keys, search: t.search}
			env.hooks = c.observeDecoder(func(w *Rope) (int, bool) { return t.version[w], true })
			c.gaveUp(c.cliMain(env))
		})
	}
	// line input
	lines := map[string]func() []line{
		"14 lines": func() []line { return make14(14) },
		"16 lines": func() []line { l := make14(16); l[0].v = 1; return l },
		"unknown words between": func() []line {
			l := make14(14)
			return append([]line{{false, 0}}, append(l[:3:3], append([]line{{false, 0}, {false, 0}}, l[3:]...)...)...)
		},
		"unsupported version first": func() []line { return append([]line{{true, -1}}, make14(14)...) },
	}
	for _, n := range []string{"14 lines", "16 lines", "unknown words between", "unsupported version first"} {
		for _, notty := range []bool{false, true} {
			name := "-simple, " + n
			if notty {
				name = "without terminal, " + n
			}
			r.ctx(name, func(c *Ctx) {
				args := argv("recover", "-simple")
				if notty {
					args = argv("recover")
				}
				var ls []*Rope
				var want []Value
				exact := map[*Rope]bool{}
				vers := map[*Rope]int{}
				first := true
				for i, l := range lines[n]() {
					t := ropeStr(fmt.Sprintf("line%d", i), nil)
					c.strLen(t, 1, 40)
					ls = append(ls, t)
					w := lower(trimSpace(t))
					if !l.ok {
						continue
					}
					exact[w] = true
					if first {
						vers[w] = l.v
						if l.v < 0 {
							continue
						}
						first = false
					}
					want = append(want, w)
				}
				env := cliCase{args: args, lines: ls, notty: notty, search: func(e *Engine, q *Rope) (Value, []Value, bool) {
					if exact[q] {
						return bTrue, cstr(""), true
					}
					return bFalse, []Value{completion(q)}, true
				}}
				env.hooks = c.observeDecoder(func(w *Rope) (int, bool) { return vers[w], true })
				c.taken(c.cliMain(env), want, true)
			})
		}
	}
	r.ctx("-simple, end of input", func(c *Ctx) {
		env := cliCase{args: argv("recover", "-simple"), lines: []*Rope{}, search: func(e *Engine, q *Rope) (Value, []Value, bool) { return bFalse, nil, true }}
		env.hooks = c.observeDecoder(func(w *Rope) (int, bool) { return 0, false })
		c.gaveUp(c.cliMain(env))
	})
}

// simpleInput is the program asking for n valid words line by line; it stops where the
// words are given to the decoder.
func (c *Ctx) simpleInput(cmd string, n int, args ...Value) (cliCase, []Value) {
	var ls []*Rope
	var want []Value
	exact := map[*Rope]bool{}
	for i := 0; i < n; i++ {
		t := ropeStr(fmt.Sprintf("line%d", i), nil)
		c.strLen(t, 1, 40)
		ls = append(ls, t)
		w := lower(trimSpace(t))
		exact[w] = true
		want = append(want, w)
	}
	v := 0
	if n == 16 {
		v = 1
	}
	cc := cliCase{args: argv(cmd, "-simple", args), lines: ls, search: func(e *Engine, q *Rope) (Value, []Value, bool) {
		if exact[q] {
			return bTrue, cstr(""), true
		}
		return bFalse, []Value{completion(q)}, true
	}}
	cc.hooks = c.observeDecoder(func(w *Rope) (int, bool) { return v, true })
	return cc, want
}

type line struct {
	ok bool
	v  int
}

func make14(n int) []line {
	out := make([]line, n)
	for i := range out {
		out[i].ok = true
	}
	return out
}

func (c *Ctx) gaveUp(xs []exitState) {
	c.onlyFailure(xs)
	for _, ef := range c.effects {
		if ef.kind == "decode" {
			c.reachableAt("an incomplete phrase is not used", "decoder called", ef.pc, ef.pos)
		}
	}
	for _, x := range xs {
		c.cooked(x)
		c.stdoutIs(x, false)
	}
	c.noHangs()
	c.noPanics("no panic")
}

// ---------------------------------------------------------------------------
// C29: help

func runC29(r *Run) {
	widths := []int{0, 1, 2, 7, 8, 9, 10, 11, 12, 20, 40, 79, 80, 132, 200, 1000}
	if r.tier == "thorough" {
		widths = nil
		for i := 0; i <= 260; i++ {
			widths = append(widths, i)
		}
		widths = append(widths, 500, 1000, 5000, 65535)
	}
	cmds := [][]string{{"help"}, {"generate", "help"}, {"recover", "help"}, {"convert", "help"}, {"recover", "-h"}, {}, {"nonsense"}, {"generate", "-ttl", "x"}}
	for _, args := range cmds {
		ws := append([]int{-1}, widths...)
		if r.tier != "thorough" && len(args) == 2 && args[0] == "recover" && args[1] == "help" {
			// the command with the most options, at every width
			ws = []int{-1}
			for i := 0; i <= 140; i++ {
				ws = append(ws, i)
			}
			ws = append(ws, 200, 1000)
		}
		for _, w := range ws {
			if r.tier != "thorough" && len(args) > 0 && (args[len(args)-1] == "-h" || args[0] == "nonsense") && w != 80 && w != 0 {
				continue
			}
			name := fmt.Sprintf("mnemonikey %s, width %d", strings.Join(args, " "), w)
			if w < 0 {
				name = fmt.Sprintf("mnemonikey %s, width unknown", strings.Join(args, " "))
			}
			r.ctx(name, func(c *Ctx) {
				xs := c.cliMain(cliCase{args: cstr(args...), width: linInt(int64(w)), sizeErr: w < 0, keys: []*Rope{}, lines: []*Rope{}})
				c.helpRules(args, w, xs)
			})
		}
	}
	// the display of a phrase adapts to the terminal as well
	for _, w := range widths {
		if r.tier == "thorough" && w > 100 {
			break
		}
		r.ctx(fmt.Sprintf("generate, width %d", w), func(c *Ctx) {
			xs := c.cliMain(cliCase{args: cstr("generate"), width: linInt(int64(w))})
			c.onlySuccess(xs)
			c.noHangs()
			c.noPanics("no panic")
		})
	}
}

func (c *Ctx) helpRules(args []string, w int, xs []exitState) {
	help := len(args) > 0 && (args[len(args)-1] == "help" || args[len(args)-1] == "-h")
	if help {
		c.onlySuccess(xs)
	} else {
		c.onlyFailure(xs)
	}
	c.noHangs()
	c.noPanics("no panic")
	for _, x := range xs {
		text := emptyRope
		for _, ef := range c.writes(x, "stderr") {
			text = ropeCat(text, ropeOf(ef.what))
		}
		// the parts of the text that are not known (default values) are left out
		s := ""
		for _, p := range text.ps {
			if k, ok := ropeConstStr(mkRope([]Piece{p})); ok {
				s += k
			} else {
				s += "\x00"
			}
		}
		s = stripANSI(s)
		// every flag the command defines is explained
		missing := ""
		for _, f := range c.flagNames(args) {
			if !strings.Contains(s, "-"+f) {
				missing = f
			}
		}
		if missing != "" {
			c.reachableAt("help names every option", "-"+missing+" is not mentioned", x.st.pc, x.pos)
		} else {
			c.r.add("proved", "help names every option", "", "")
		}
		if w >= 0 {
			// no paragraph is wider than the terminal, unless a single word is
			for _, l := range strings.Split(s, "\n") {
				if i := strings.Index(l, " (default"); i >= 0 {
					l = l[:i]
				}
				f := strings.Fields(l)
				if len(f) < 2 || strings.Contains(l, "\x00") || len(l) <= w || !prose(f) {
					continue
				}
				indent := len(l) - len(strings.TrimLeft(l, " "))
				if indent+len(f[0])+1+len(f[1]) > w*4/5 {
					continue
				}
				c.reachableAt("descriptions fit the terminal", fmt.Sprintf("line of %d characters on a terminal of %d: %q", len(l), w, l), x.st.pc, x.pos)
				break
			}
		}
	}
}

// prose tells a description from a usage example or an error message.
func prose(f []string) bool {
	return f[0] != "mnemonikey" && f[0] != "ERROR:" && !strings.HasPrefix(f[0], "-") && f[0] != "invalid" && f[0] != "flag"
}

func (c *Ctx) flagNames(args []string) []string {
	if len(args) == 0 {
		return nil
	}
	common := []string{"verbose"}
	switch args[0] {
	case "generate":
		return append(common, "name", "email", "ttl", "encrypt-keys", "only", "out-word-file", "encrypt-phrase", "unsafe-entropy")
	case "recover":
		return append(common, "name", "email", "ttl", "encrypt-keys", "only", "simple", "in-word-file", "self-cert", "enc-index", "auth-index", "sig-index")
	case "convert":
		return append(common, "simple", "in-word-file", "out-word-file", "encrypt-phrase")
	}
	return nil
}

func init() {
	register("C28", &checkDef{level: "proof", rule: cliRule, assume: append([]string{"word search of the wordlist4096 package completes prefixes correctly"}, cliAssume...), run: runC28,
		expl: "Scripts of keys with arbitrary letters are fed to the terminal model; the words given to the library's decoder are compared with the words submitted."})
	register("C29", &checkDef{level: "proof", rule: cliRule, assume: cliAssume, run: runC29,
		expl: "Usage texts are computed for each width and searched for each option and for lines wider than the terminal; every loop and index is accounted for."})
}
