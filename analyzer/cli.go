package main

// Model of the process a command-line program runs in: arguments, standard streams,
// files, the terminal, signals, goroutines and channels.
//
// Everything the program does to its surroundings is an effect. Written text and files
// live in the abstract heap (so that they follow the paths), and every effect is also
// recorded with its path condition and position.

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// effect is one thing the program does to its surroundings.
type effect struct {
	kind string // write, open, exit, term, now, run, ...
	what Value  // text written, path
	to   string // stdout, stderr, file name
	args []Value
	pc   Value
	pos  string
	st   *State // state at exit
}

type cliEnv struct {
	out, err, term, pwPos, inPos *Obj
	tty                          bool
	interrupt                    int // password prompt during which Ctrl-C is pressed; -1: never
	passwords                    []*Rope
	keys                         []*Rope // bytes typed in raw mode
	lines                        []*Rope // lines on standard input
	fileWords                    []Value // words in the word file
	inPath                       *Rope
	readable                     []*Rope            // other files that exist
	replay                       map[string][]Value // draws the specification repeats, by source and shape
	width                        Value
	sizeErr                      bool
	search                       func(e *Engine, q *Rope) (exact Value, suffixes []Value, ok bool)
	intChans                     []*Obj
	blocked                      *State
	goDepth                      int
	hooks                        map[string]intrinsic // functions observed instead of analysed
	clockOK                      bool                 // the clock shows a time a phrase can record
	randOK                       bool                 // the system's random source works
	filesOK                      bool                 // files that are read exist, files that are written do not, and nothing fails
}

func (e *Engine) logEffect(ef effect) {
	if e.cli == nil || e.st == nil || e.st.pc == bFalse {
		return
	}
	ef.pc = e.st.pc
	ef.pos = e.pos()
	e.effects = append(e.effects, ef)
}

// outside lists packages through which data leaves the process.
var outside = map[string]bool{"net": true, "syscall": true, "log": true, "plugin": true}

func (e *Engine) deepTuple(vs []Value) Value {
	var out []Value
	for _, v := range vs {
		out = append(out, e.deep(v))
	}
	return mkAgg("tuple", out)
}

func (e *Engine) setupCLI() *cliEnv {
	c := &cliEnv{interrupt: -1, tty: true, width: linInt(80)}
	e.cli = c
	c.out, c.err = newObj("·stdout", nil), newObj("·stderr", nil)
	c.term, c.pwPos, c.inPos = newObj("·terminal", nil), newObj("·passwords", nil), newObj("·stdin", nil)
	e.st.heap[c.out] = emptyRope
	e.st.heap[c.err] = emptyRope
	e.st.heap[c.term] = ropeConst("cooked")
	e.st.heap[c.pwPos] = linInt(0)
	e.st.heap[c.inPos] = linInt(0)
	return c
}

// fileOf finds the model of an *os.File value.
func (e *Engine) fileOf(v Value) (*Ptr, *Native) {
	if i, ok := v.(*Iface); ok {
		v = i.v
	}
	p, ok := v.(*Ptr)
	if !ok {
		return nil, nil
	}
	n, ok := e.loadPath(p.obj, p.path).(*Native)
	if !ok || n.kind != "file" {
		return nil, nil
	}
	return p, n
}

// A file is Native "file"(name) for the standard streams and
// "file"(path, mode, flags, perm, content, position) otherwise.
func fileName(n *Native) string {
	if len(n.fs) == 1 {
		if s, ok := ropeConstStr(n.fs[0].(*Rope)); ok {
			return s
		}
	}
	return ""
}

func (e *Engine) fileWrite(f Value, r *Rope) []Value {
	p, n := e.fileOf(f)
	if n == nil {
		if _, isNil := f.(*NilV); isNil {
			return []Value{linInt(0), e.newError("invalid argument", nil)}
		}
		e.unmodelled("write to " + show(f))
		u := badOr(f, "write to %s")
		return []Value{u, u}
	}
	switch fileName(n) {
	case "os.Stdout", "os.Stderr":
		if e.cli == nil {
			return []Value{ropeLen(r), nilV}
		}
		o, to := e.cli.out, "stdout"
		if fileName(n) == "os.Stderr" {
			o, to = e.cli.err, "stderr"
		}
		e.logEffect(effect{kind: "write", to: to, what: r})
		if to == "stdout" {
			e.st.heap[o] = ropeCat(ropeOf(e.st.heap[o]), r)
		}
		return []Value{ropeLen(r), nilV}
	case "os.Stdin":
		return []Value{linInt(0), e.newError("bad file descriptor", nil)}
	}
	if len(n.fs) < 6 {
		return []Value{unknown("write to file"), unknown("write to file")}
	}
	e.logEffect(effect{kind: "write", to: "file", what: r, args: []Value{n.fs[0]}})
	fail := e.fault("writefail", n.fs[0])
	e.branch(fail, func() {
		fs := append([]Value(nil), n.fs...)
		fs[4] = ropeCat(ropeOf(fs[4]), ropeStr("partialwrite", nil, r))
		e.store(p, mkNative("file", fs...))
	}, func() {
		fs := append([]Value(nil), n.fs...)
		fs[4] = ropeCat(ropeOf(fs[4]), r)
		e.store(p, mkNative("file", fs...))
	})
	return []Value{ite(fail, intAtom("nwritten", zero, nil, linInt(int64(e.fresh()))), ropeLen(r)), e.errIf(fail, "write error")}
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

func (e *Engine) oserr(name string) Value {
	return e.pkgGlobal("internal/oserror", name)
}

func (e *Engine) exists(path Value) Value {
	return e.fault("exists", path)
}

func (e *Engine) openFile(path, flags, perm Value) []Value {
	r := ropeOf(path)
	fl, ok := constInt(flags)
	if !ok {
		e.unmodelled("os.OpenFile with unknown flags")
		u := unknown("os.OpenFile with flags %s", show(flags))
		return []Value{u, u}
	}
	e.logEffect(effect{kind: "open", what: r, args: []Value{flags, perm}})
	ex := e.exists(r)
	errExist, errNo := e.oserr("ErrExist"), e.oserr("ErrNotExist")
	other := e.fault("openfail", r)
	mkFile := func(existing bool) Value {
		o := newObj("file", nil)
		var content Value = emptyRope
		if existing && fl&oTRUNC == 0 {
			content = ropeStr("filecontent", nil, r)
		}
		e.st.heap[o] = mkNative("file", r, boolV(existing), flags, perm, content, linInt(0))
		return mkPtr(o)
	}
	ro := newObj("opened", nil)
	set := func(f, err Value) { e.st.heap[ro] = mkAgg("tuple", []Value{f, err}) }
	e.branch(other, func() {
		set(nilV, e.newError("open: permission denied", []Value{e.oserr("ErrPermission")}))
	}, func() {
		e.branch(ex, func() {
			if fl&oCREATE != 0 && fl&oEXCL != 0 {
				set(nilV, e.newError("open: file exists", []Value{errExist}))
				return
			}
			if fl&(oWRONLY|oRDWR) != 0 {
				e.logEffect(effect{kind: "overwrite", what: r, args: []Value{flags}})
			}
			set(mkFile(true), nilV)
		}, func() {
			if fl&oCREATE == 0 {
				set(nilV, e.newError("open: no such file", []Value{errNo}))
				return
			}
			e.logEffect(effect{kind: "create", what: r, args: []Value{flags, perm}})
			set(mkFile(false), nilV)
		})
	})
	t := e.st.heap[ro]
	delete(e.st.heap, ro)
	get := func(i int) Value {
		return project(t, []int{i}, func(v Value, _ int) Value { return badOr(v, "result %s") })
	}
	return []Value{get(0), get(1)}
}

// stdinRead reads from standard input: one typed byte, or bytes of an entropy stream.
func (e *Engine) fileRead(f, buf Value) []Value {
	_, n := e.fileOf(f)
	s, ok := buf.(*SliceV)
	if n == nil || !ok {
		e.havocArgs([]Value{buf}, "read from "+show(f))
		u := badOr(f, "read from %s")
		return []Value{u, u}
	}
	if fileName(n) == "os.Stdin" && e.cli != nil && e.cli.keys != nil {
		return e.splitCall([]Value{e.st.heap[e.cli.inPos]}, 2, func(vs []Value) []Value {
			k, ok := constInt(vs[0])
			if !ok {
				return []Value{unknown("position in input"), unknown("position in input")}
			}
			e.st.heap[e.cli.inPos] = linInt(int64(k + 1))
			if k >= len(e.cli.keys) {
				return []Value{linInt(0), e.pkgGlobal("io", "EOF")}
			}
			if n, ok := constInt(s.len); !ok || n < 1 {
				e.havocArgs([]Value{buf}, "short buffer")
				return []Value{unknown("read of an unknown number of bytes"), unknown("read")}
			}
			e.writeBytes(s.obj, s.path, s.off, e.cli.keys[k])
			return []Value{linInt(1), nilV}
		})
	}
	nb, ok := constInt(s.len)
	if !ok {
		e.havocArgs([]Value{buf}, "read from file")
		return []Value{unknown("read"), unknown("read")}
	}
	// a single Read may be short
	k := linInt(int64(e.fresh()))
	e.writeBytes(s.obj, s.path, s.off, ropeStr("partialread", linInt(int64(nb)), k))
	return []Value{intAtom("nread", zero, big.NewInt(int64(nb)), k), e.errIf(boolApp("readfail", n.fs[0], k), "read error")}
}

// drawFile reads exactly n bytes of entropy from a file.
func (e *Engine) drawFile(i *Iface, n int) (*Rope, Value, bool) {
	id, ctr, adv, ok := e.fileStream(i)
	if !ok {
		return nil, nil, false
	}
	adv()
	ctr = e.drawn("bytes:"+strconv.Itoa(n), id, ctr)
	return ropeStr("random", linInt(int64(n)), id, ctr, linInt(int64(n))), e.randFail(id, ctr), true
}

// fileStream identifies a file used as a source of bytes.
func (e *Engine) fileStream(i *Iface) (id, ctr Value, adv func(), ok bool) {
	p, f := e.fileOf(i)
	if f == nil {
		return nil, nil, nil, false
	}
	switch {
	case fileName(f) == "os.Stdin" && e.cli != nil:
		ctr = e.st.heap[e.cli.inPos]
		return ropeConst("os.Stdin"), ctr, func() { e.st.heap[e.cli.inPos] = addI(ctr, 1) }, true
	case len(f.fs) >= 6:
		ctr = f.fs[5]
		return ropeCat(ropeConst("file:"), ropeOf(f.fs[0])), ctr, func() {
			fs := append([]Value(nil), f.fs...)
			fs[5] = addI(ctr, 1)
			e.store(p, mkNative("file", fs...))
		}, true
	}
	return nil, nil, nil, false
}

func (e *Engine) newNative(kind string, fs ...Value) Value {
	o := newObj(kind, nil)
	e.st.heap[o] = mkNative(kind, fs...)
	return mkPtr(o)
}

func (e *Engine) nativeAt(v Value, kind string) (*Ptr, *Native) {
	if i, ok := v.(*Iface); ok {
		v = i.v
	}
	p, ok := v.(*Ptr)
	if !ok {
		return nil, nil
	}
	n, ok := e.loadPath(p.obj, p.path).(*Native)
	if !ok || n.kind != kind {
		return nil, nil
	}
	return p, n
}

// --- goroutines and channels

// A channel is Native "chan"(ready, value, closed): at most one pending value.
func (e *Engine) makeChan() Value { return e.newNative("chan", bFalse, nilV, bFalse) }

func (e *Engine) chanOf(v Value) (*Ptr, *Native) { return e.nativeAt(v, "chan") }

func (e *Engine) send(ch, v Value) {
	e.split(ch, func(ch Value) {
		p, n := e.chanOf(ch)
		if n == nil {
			e.unmodelled("send on " + show(ch))
			return
		}
		if and(e.st.pc, n.fs[0]) != bFalse {
			// a second value while the first is pending: not modelled
			e.unmodelled("second send on a channel")
			e.store(p, mkNative("chan", unknown("second send"), unknown("second send"), n.fs[2]))
			return
		}
		e.store(p, mkNative("chan", bTrue, v, n.fs[2]))
	})
}

// chanReady gives the condition under which a receive would not block, and the value.
func (e *Engine) chanReady(ch Value) (ready, val, open Value, take func()) {
	switch c := ch.(type) {
	case *NilV:
		return bFalse, nilV, bFalse, func() {}
	case *Ptr:
		p, n := e.chanOf(c)
		if n != nil && isBool(n.fs[0]) && isBool(n.fs[2]) {
			return or(n.fs[0], n.fs[2]), n.fs[1], n.fs[0], func() {
				e.store(p, mkNative("chan", bFalse, nilV, n.fs[2]))
			}
		}
	}
	return nil, nil, nil, nil
}

func (e *Engine) recv(ch Value, t types.Type, commaOk bool) Value {
	ready, val, open, take := e.chanReady(ch)
	if ready == nil {
		e.unmodelled("channel receive")
		return unknown("channel receive")
	}
	e.hangIf(not(ready), "receive from a channel nobody sends on")
	take()
	if ch, ok := under(t).(*types.Chan); ok {
		if _, isNil := val.(*NilV); isNil {
			val = e.zero(ch.Elem())
		}
	}
	if commaOk {
		return mkAgg("tuple", []Value{val, open})
	}
	return val
}

// hangIf records paths that block for ever and removes them.
func (e *Engine) hangIf(cond Value, what string) {
	c := and(e.st.pc, cond)
	if c == bFalse {
		return
	}
	st := e.st.clone()
	st.pc = c
	save := e.st
	e.st = st
	e.logEffect(effect{kind: "hang", to: what, st: st})
	e.setState(save)
	e.assume(not(cond))
}

func (e *Engine) selectStmt(in *ssa.Select, get func(ssa.Value) Value) Value {
	type arm struct {
		ready, val, open Value
		take             func()
		i                int
		recv             bool
		t                types.Type
	}
	var arms []arm
	nrecv := 0
	for i, s := range in.States {
		ch := get(s.Chan)
		ct, _ := under(s.Chan.Type()).(*types.Chan)
		if s.Dir == types.SendOnly {
			e.unmodelled("select with send")
			return unknown("select with send")
		}
		nrecv++
		ready, val, open, take := e.chanReady(ch)
		if ready == nil {
			e.unmodelled("select on " + show(ch))
			return unknown("select")
		}
		if _, isNil := val.(*NilV); isNil {
			val = e.zero(ct.Elem())
		}
		arms = append(arms, arm{ready, val, open, take, i, true, ct.Elem()})
	}
	n := 2 + nrecv
	mk := func(idx int64, ok Value, k int, v Value) Value {
		es := make([]Value, n)
		es[0], es[1] = linInt(idx), ok
		for j := range arms {
			es[2+j] = e.zero(arms[j].t)
		}
		if k >= 0 {
			es[2+k] = v
		}
		return mkAgg("tuple", es)
	}
	none := bTrue
	for _, a := range arms {
		none = and(none, not(a.ready))
	}
	if in.Blocking {
		e.hangIf(none, "select on channels nobody sends on")
	}
	ro := newObj("selected", nil)
	e.st.heap[ro] = mk(-1, bFalse, -1, nil)
	var rec func(k int)
	rec = func(k int) {
		if k >= len(arms) {
			return
		}
		later := bFalse
		for _, a := range arms[k+1:] {
			later = or(later, a.ready)
		}
		// any ready case may be chosen
		cond := and(arms[k].ready, or(not(later), boolApp("selected", linInt(int64(e.fresh())))))
		e.branch(cond, func() {
			arms[k].take()
			e.st.heap[ro] = mk(int64(arms[k].i), arms[k].open, k, arms[k].val)
		}, func() { rec(k + 1) })
	}
	rec(0)
	v := e.st.heap[ro]
	delete(e.st.heap, ro)
	return v
}

// goStmt runs the goroutine up to where it returns or blocks for ever, and continues with
// the join of both: the rest of the program sees all of its effects. (Interleavings matter
// only through channels, which the model handles at the receive.)
func (e *Engine) goStmt(fv Value, args []Value, sig *types.Signature) {
	if e.cli == nil {
		e.opaque["go statement"]++
		return
	}
	saved := e.cli.blocked
	e.cli.blocked = nil
	e.cli.goDepth++
	e.callValue(fv, args, sig)
	e.cli.goDepth--
	b := e.cli.blocked
	e.cli.blocked = saved
	if b != nil {
		st := e.st
		m := e.merge(&path{st: st.clone()}, &path{st: b}, nil)
		*st = *m.st
		e.setState(st)
	}
}

// blockHere stops the running goroutine for good.
func (e *Engine) blockHere() {
	st := e.st.clone()
	if e.cli.blocked == nil {
		e.cli.blocked = st
	} else {
		e.cli.blocked = e.merge(&path{st: e.cli.blocked}, &path{st: st}, nil).st
	}
	e.st.pc = bFalse
	facts = bFalse
}

// --- terminal

func (e *Engine) setTerm(mode Value) {
	e.logEffect(effect{kind: "term", what: mode})
	e.st.heap[e.cli.term] = mode
}

func (e *Engine) readPassword() []Value {
	c := e.cli
	if !c.tty {
		return []Value{nilV, e.newError("inappropriate ioctl for device", nil)}
	}
	return e.splitCall([]Value{e.st.heap[c.pwPos]}, 2, func(vs []Value) []Value {
		k, ok := constInt(vs[0])
		if !ok {
			return []Value{unknown("password position"), unknown("password position")}
		}
		e.st.heap[c.pwPos] = linInt(int64(k + 1))
		if k == c.interrupt {
			e.setTerm(ropeConst("noecho"))
			e.logEffect(effect{kind: "interrupt"})
			for _, o := range c.intChans {
				e.st.heap[o] = mkNative("chan", bTrue, opq("signal"), bFalse)
			}
			if len(c.intChans) == 0 {
				// the default action of the signal ends the process
				e.logEffect(effect{kind: "exit", what: linInt(130), to: "interrupt", st: e.st.clone()})
				e.st.pc = bFalse
				facts = bFalse
				return []Value{nilV, nilV}
			}
			e.blockHere()
			return []Value{nilV, nilV}
		}
		e.logEffect(effect{kind: "prompt", what: e.st.heap[c.term]})
		if k >= len(c.passwords)+40 {
			e.logEffect(effect{kind: "hang", to: "a password is asked for again and again after the end of the input"})
			e.st.pc = bFalse
			facts = bFalse
			return []Value{nilV, nilV}
		}
		if k >= len(c.passwords) {
			// what was typed before the failure is returned along with it
			return []Value{e.newBytes(pwRope("partial-password", 3)), e.pkgGlobal("io", "EOF")}
		}
		return []Value{e.newBytes(c.passwords[k]), nilV}
	})
}

func cliIntrinsics() map[string]intrinsic {
	type fn = *ssa.Function
	write := func(get func(e *Engine, v Value) *Rope) intrinsic {
		return func(e *Engine, f fn, a []Value) []Value { return e.fileWrite(a[0], get(e, a[1])) }
	}
	rope := func(e *Engine, v Value) *Rope { return ropeOf(v) }
	print := func(mk func(e *Engine, a []Value) *Rope) intrinsic {
		return func(e *Engine, f fn, a []Value) []Value {
			return e.fileWrite(e.pkgGlobal("os", "Stdout"), mk(e, a))
		}
	}
	errIsG := func(name string) intrinsic {
		return func(e *Engine, f fn, a []Value) []Value { return one1(e.errIs(a[0], e.oserr(name), 0)) }
	}
	stat := func(e *Engine, f fn, a []Value) []Value {
		r := ropeOf(a[0])
		ex := e.exists(r)
		other := e.fault("statfail", r)
		err := ite(other, e.newError("stat: permission denied", []Value{e.oserr("ErrPermission")}),
			ite(ex, nilV, e.newError("stat: no such file", []Value{e.oserr("ErrNotExist")})))
		return []Value{ite(and(ex, not(other)), opq("fileinfo", r), nilV), err}
	}
	needCLI := func(in intrinsic) intrinsic {
		return func(e *Engine, f fn, a []Value) []Value {
			if e.cli == nil {
				e.opaque["unmodelled function "+funcName(f)]++
				e.havocArgs(a, "passed to "+funcName(f))
				return e.unknownResults(f.Signature, unknown("result of %s", funcName(f)))
			}
			return in(e, f, a)
		}
	}
	forbidden := func(kind string) intrinsic {
		return func(e *Engine, f fn, a []Value) []Value {
			e.logEffect(effect{kind: kind, to: funcName(f), what: e.deepTuple(a)})
			e.opaque["unmodelled function "+funcName(f)]++
			return e.unknownResults(f.Signature, unknown("result of %s", funcName(f)))
		}
	}
	fields := func(e *Engine, f fn, a []Value) []Value {
		src := ropeOf(a[0])
		inBytes := funcName(f) == "bytes.Fields"
		if inBytes {
			src = e.bytesOf(a[0])
		}
		var items []Value
		if s, ok := ropeConstStr(src); ok {
			for _, w := range strings.Fields(s) {
				items = append(items, ropeConst(w))
			}
		} else if app := wholeApp(src, "filecontent"); app != nil && e.cli != nil && e.cli.inPath != nil && e.cli.inPath == app.args[0] {
			items = append(items, e.cli.fileWords...)
		} else {
			return e.uninterpreted(f, funcName(f), a)
		}
		if inBytes {
			for i := range items {
				items[i] = e.newBytes(ropeOf(items[i]))
			}
		}
		o := newObj("strings", nil)
		e.st.heap[o] = mkAgg("array", items)
		n := linInt(int64(len(items)))
		return one1(mkSlice(o, nil, linInt(0), n, n))
	}
	bufWriter := func(e *Engine, f fn, a []Value) []Value {
		return one1(e.newNative("bufwriter", a[0], emptyRope))
	}
	bufReader := func(e *Engine, f fn, a []Value) []Value {
		return one1(e.newNative("bufreader", a[0]))
	}
	bufWrite := func(get func(e *Engine, v Value) *Rope) intrinsic {
		return func(e *Engine, f fn, a []Value) []Value {
			p, n := e.nativeAt(a[0], "bufwriter")
			if n == nil {
				e.unmodelled("write to " + show(a[0]))
				return e.unknownResults(f.Signature, unknown("buffered write"))
			}
			r := get(e, a[1])
			e.store(p, mkNative("bufwriter", n.fs[0], ropeCat(n.fs[1].(*Rope), r)))
			return []Value{ropeLen(r), nilV}
		}
	}
	one := func(in intrinsic) intrinsic {
		return func(e *Engine, f fn, a []Value) []Value { return in(e, f, a)[1:] }
	}
	m := map[string]intrinsic{
		"os.Exit": func(e *Engine, f fn, a []Value) []Value {
			e.splitAll([]Value{a[0]}, func(vs []Value) {
				e.logEffect(effect{kind: "exit", what: vs[0], st: e.st.clone()})
				e.st.pc = bFalse
				facts = bFalse
			})
			return nil
		},
		"(*os.File).Write":       write(getBytes),
		"(*os.File).WriteString": write(rope),
		"(*os.File).Read":        func(e *Engine, f fn, a []Value) []Value { return e.fileRead(a[0], a[1]) },
		"(*os.File).Fd": func(e *Engine, f fn, a []Value) []Value {
			if _, n := e.fileOf(a[0]); n != nil {
				switch fileName(n) {
				case "os.Stdin":
					return one1(linInt(0))
				case "os.Stdout":
					return one1(linInt(1))
				case "os.Stderr":
					return one1(linInt(2))
				}
			}
			return one1(intAtom("fd", zero, maxU32, e.deep(a[0])))
		},
		"(*os.File).Name": func(e *Engine, f fn, a []Value) []Value {
			if _, n := e.fileOf(a[0]); n != nil && len(n.fs) >= 6 {
				return one1(n.fs[0])
			}
			return one1(ropeStr("filename", nil, e.deep(a[0])))
		},
		"(*os.File).Close": func(e *Engine, f fn, a []Value) []Value {
			_, n := e.fileOf(a[0])
			if n == nil || len(n.fs) < 6 {
				return one1(nilV)
			}
			if fl, ok := constInt(n.fs[2]); ok && fl&(oWRONLY|oRDWR) == 0 {
				return one1(nilV)
			}
			return one1(e.errIf(e.closeFault(a[0], n.fs[0]), "close error"))
		},
		"(*os.File).Sync": func(e *Engine, f fn, a []Value) []Value {
			_, n := e.fileOf(a[0])
			if n == nil {
				return one1(nilV)
			}
			return one1(e.errIf(e.fault("syncfail", n.fs[0]), "sync error"))
		},
		"(*os.File).Chmod": func(e *Engine, f fn, a []Value) []Value {
			if _, n := e.fileOf(a[0]); n != nil {
				e.logEffect(effect{kind: "chmod", what: n.fs[0], args: []Value{a[1]}})
			}
			return one1(e.errIf(e.fault("chmodfail", nilV), "chmod error"))
		},
		"os.Chmod": func(e *Engine, f fn, a []Value) []Value {
			e.logEffect(effect{kind: "chmod", what: ropeOf(a[0]), args: []Value{a[1]}})
			return one1(e.errIf(e.fault("chmodfail", nilV), "chmod error"))
		},
		"os.Remove": func(e *Engine, f fn, a []Value) []Value {
			e.logEffect(effect{kind: "remove", what: ropeOf(a[0])})
			return one1(e.errIf(e.fault("removefail", nilV), "remove error"))
		},
		"os.Rename": func(e *Engine, f fn, a []Value) []Value {
			e.logEffect(effect{kind: "rename", what: ropeOf(a[1]), args: []Value{a[0]}})
			return one1(e.errIf(e.fault("renamefail", nilV), "rename error"))
		},
		"os.OpenFile": func(e *Engine, f fn, a []Value) []Value { return e.openFile(a[0], a[1], a[2]) },
		"os.Open":     func(e *Engine, f fn, a []Value) []Value { return e.openFile(a[0], linInt(0), linInt(0)) },
		"os.Create": func(e *Engine, f fn, a []Value) []Value {
			return e.openFile(a[0], linInt(oRDWR|oCREATE|oTRUNC), linInt(0o666))
		},
		"os.CreateTemp": func(e *Engine, f fn, a []Value) []Value {
			path := ropeStr("temp-path", linInt(12), linInt(int64(e.fresh())))
			fail := e.fault("openfail", path)
			flags, perm := linInt(oRDWR|oCREATE|oEXCL), linInt(0o600)
			e.logEffect(effect{kind: "open", what: path, args: []Value{flags, perm}})
			e.logEffect(effect{kind: "create", what: path, args: []Value{flags, perm}})
			o := newObj("file", nil)
			e.st.heap[o] = mkNative("file", path, bFalse, flags, perm, emptyRope, linInt(0))
			return []Value{ite(fail, nilV, mkPtr(o)), e.errIf(fail, "create error")}
		},
		"os.WriteFile": func(e *Engine, f fn, a []Value) []Value {
			rs := e.openFile(a[0], linInt(oWRONLY|oCREATE|oTRUNC), a[2])
			data := e.bytesOf(a[1])
			ro := newObj("written", nil)
			e.st.heap[ro] = rs[1]
			e.branch(e.nilCond(rs[1]), func() {
				e.split(restrict(rs[0], e.st.pc), func(f Value) {
					e.st.heap[ro] = e.fileWrite(f, data)[1]
				})
			}, func() {})
			v := e.st.heap[ro]
			delete(e.st.heap, ro)
			return one1(v)
		},
		"os.ReadFile": func(e *Engine, f fn, a []Value) []Value {
			rs := e.openFile(a[0], linInt(0), linInt(0))
			fail := or(not(e.nilCond(rs[1])), e.readErr(ropeOf(a[0])))
			b := e.newBytes(ropeStr("filecontent", nil, ropeOf(a[0])))
			return []Value{ite(fail, nilV, b), ite(e.nilCond(rs[1]), e.errIf(e.readErr(ropeOf(a[0])), "read error"), rs[1])}
		},
		"io.ReadAll": func(e *Engine, f fn, a []Value) []Value {
			_, n := e.fileOf(a[0])
			if n == nil || len(n.fs) < 6 {
				return e.unknownResults(f.Signature, unknown("io.ReadAll"))
			}
			fail := e.readErr(n.fs[0])
			b := e.newBytes(ropeStr("filecontent", nil, n.fs[0]))
			return []Value{ite(fail, nilV, b), e.errIf(fail, "read error")}
		},
		"os.Stat":       stat,
		"os.Lstat":      stat,
		"os.IsExist":    errIsG("ErrExist"),
		"os.IsNotExist": errIsG("ErrNotExist"),
		"fmt.Print":     print(func(e *Engine, a []Value) *Rope { return e.sprint(e.variadic(a[0]), false) }),
		"fmt.Println":   print(func(e *Engine, a []Value) *Rope { return e.sprint(e.variadic(a[0]), true) }),
		"fmt.Printf": print(func(e *Engine, a []Value) *Rope {
			r, _ := e.format(a[0], e.variadic(a[1]))
			return r
		}),
		"log.Print": func(e *Engine, f fn, a []Value) []Value {
			e.fileWrite(e.pkgGlobal("os", "Stderr"), e.sprint(e.variadic(a[0]), false))
			return nil
		},
		"log.Println": func(e *Engine, f fn, a []Value) []Value {
			e.fileWrite(e.pkgGlobal("os", "Stderr"), e.sprint(e.variadic(a[0]), true))
			return nil
		},
		"log.Printf": func(e *Engine, f fn, a []Value) []Value {
			r, _ := e.format(a[0], e.variadic(a[1]))
			e.fileWrite(e.pkgGlobal("os", "Stderr"), r)
			return nil
		},
		"os.Setenv":       forbidden("env"),
		"os/exec.Command": forbidden("run"),
		"os.StartProcess": forbidden("run"),
		"syscall.Exec":    forbidden("run"),
		"net.Dial":        forbidden("net"),
		"net/http.Get":    forbidden("net"),
		"net/http.Post":   forbidden("net"),

		"bufio.NewScanner": needCLI(func(e *Engine, f fn, a []Value) []Value {
			return one1(e.newNative("scanner", a[0], ropeConst("lines"), linInt(0), emptyRope))
		}),
		"(*bufio.Scanner).Split": needCLI(func(e *Engine, f fn, a []Value) []Value {
			p, n := e.nativeAt(a[0], "scanner")
			if n == nil {
				return nil
			}
			name := "unknown"
			if fv, ok := a[1].(*FuncV); ok && fv.fn != nil {
				switch funcName(fv.fn) {
				case "bufio.ScanWords":
					name = "words"
				case "bufio.ScanLines":
					name = "lines"
				}
			}
			e.store(p, mkNative("scanner", n.fs[0], ropeConst(name), n.fs[2], n.fs[3]))
			return nil
		}),
		"(*bufio.Scanner).Buffer": func(e *Engine, f fn, a []Value) []Value { return nil },
		"(*bufio.Scanner).Scan":   needCLI(func(e *Engine, f fn, a []Value) []Value { return one1(e.scan(a[0])) }),
		"(*bufio.Scanner).Text": needCLI(func(e *Engine, f fn, a []Value) []Value {
			if _, n := e.nativeAt(a[0], "scanner"); n != nil {
				return one1(n.fs[3])
			}
			return one1(unknown("scanner"))
		}),
		"(*bufio.Scanner).Bytes": needCLI(func(e *Engine, f fn, a []Value) []Value {
			if _, n := e.nativeAt(a[0], "scanner"); n != nil {
				return one1(e.newBytes(ropeOf(n.fs[3])))
			}
			return one1(unknown("scanner"))
		}),
		"(*bufio.Scanner).Err": needCLI(func(e *Engine, f fn, a []Value) []Value {
			_, n := e.nativeAt(a[0], "scanner")
			if n == nil {
				return one1(unknown("scanner"))
			}
			if e.srcRope(n.fs[0]) != nil {
				return one1(nilV)
			}
			_, fl := e.fileOf(n.fs[0])
			if fl == nil {
				return one1(unknown("scanner"))
			}
			return one1(e.errIf(e.readErr(fl.fs[0]), "read error"))
		}),

		"strings.NewReader": func(e *Engine, f fn, a []Value) []Value {
			return one1(e.newNative("reader", ropeOf(a[0])))
		},
		"bytes.NewReader": func(e *Engine, f fn, a []Value) []Value {
			return one1(e.newNative("reader", e.bytesOf(a[0])))
		},
		"bufio.NewWriter":             bufWriter,
		"bufio.NewWriterSize":         bufWriter,
		"(*bufio.Writer).Write":       bufWrite(getBytes),
		"(*bufio.Writer).WriteString": bufWrite(rope),
		"(*bufio.Writer).WriteByte":   one(bufWrite(getByte)),
		"(*bufio.Writer).Flush": func(e *Engine, f fn, a []Value) []Value {
			p, n := e.nativeAt(a[0], "bufwriter")
			if n == nil {
				e.unmodelled("flush of " + show(a[0]))
				return one1(unknown("flush"))
			}
			e.store(p, mkNative("bufwriter", n.fs[0], emptyRope))
			if n.fs[1] == Value(emptyRope) {
				return one1(nilV)
			}
			_, err := e.writeTo(n.fs[0], n.fs[1].(*Rope))
			return one1(err)
		},
		"bufio.NewReader":     bufReader,
		"bufio.NewReaderSize": bufReader,
		"(*bufio.Reader).Read": func(e *Engine, f fn, a []Value) []Value {
			_, n := e.nativeAt(a[0], "bufreader")
			if n == nil {
				e.unmodelled("read from " + show(a[0]))
				return e.unknownResults(f.Signature, unknown("buffered read"))
			}
			return e.fileRead(n.fs[0], a[1])
		},
		"(*bufio.Reader).ReadByte": func(e *Engine, f fn, a []Value) []Value {
			_, n := e.nativeAt(a[0], "bufreader")
			if n == nil || e.cli == nil {
				e.unmodelled("read from " + show(a[0]))
				return e.unknownResults(f.Signature, unknown("buffered read"))
			}
			b := e.newBytes(ropeConst("\x00")).(*SliceV)
			rs := e.fileRead(n.fs[0], b)
			return []Value{ite(e.nilCond(rs[1]), ropeInt(e.bytesOf(b)), linInt(0)), rs[1]}
		},
		"(*bufio.Reader).ReadString": func(e *Engine, f fn, a []Value) []Value {
			_, n := e.nativeAt(a[0], "bufreader")
			d, ok := constInt(a[1])
			if n == nil || e.cli == nil || e.cli.lines == nil || !ok || d != 10 {
				e.unmodelled("read from " + show(a[0]))
				return e.unknownResults(f.Signature, unknown("buffered read"))
			}
			if _, fl := e.fileOf(n.fs[0]); fl == nil || fileName(fl) != "os.Stdin" {
				e.unmodelled("read from " + show(a[0]))
				return e.unknownResults(f.Signature, unknown("buffered read"))
			}
			return e.splitCall([]Value{e.st.heap[e.cli.inPos]}, 2, func(vs []Value) []Value {
				k, ok := constInt(vs[0])
				if !ok {
					return []Value{unknown("position in input"), unknown("position in input")}
				}
				e.st.heap[e.cli.inPos] = linInt(int64(k + 1))
				if k >= len(e.cli.lines)+40 {
					e.logEffect(effect{kind: "hang", to: "a line is asked for again and again after the end of the input"})
					e.st.pc = bFalse
					facts = bFalse
					return []Value{emptyRope, nilV}
				}
				if k >= len(e.cli.lines) {
					return []Value{emptyRope, e.pkgGlobal("io", "EOF")}
				}
				return []Value{ropeCat(ropeOf(e.cli.lines[k]), ropeConst("\n")), nilV}
			})
		},

		"context.Background": func(e *Engine, f fn, a []Value) []Value {
			return one1(mkIface(nativeType("ctx"), e.newNative("ctx", e.makeChan())))
		},
		"context.TODO": func(e *Engine, f fn, a []Value) []Value {
			return one1(mkIface(nativeType("ctx"), e.newNative("ctx", e.makeChan())))
		},
		"os/signal.NotifyContext": needCLI(func(e *Engine, f fn, a []Value) []Value {
			ch := e.makeChan()
			if e.catchesInterrupt(a[1]) {
				e.cli.intChans = append(e.cli.intChans, ch.(*Ptr).obj)
			}
			return []Value{mkIface(nativeType("ctx"), e.newNative("ctx", ch)), mkFunc(e.nopFunc(), nil)}
		}),
		"os/signal.Notify": needCLI(func(e *Engine, f fn, a []Value) []Value {
			if p, n := e.chanOf(a[0]); n != nil && e.catchesInterrupt(a[1]) {
				e.cli.intChans = append(e.cli.intChans, p.obj)
			}
			return nil
		}),
		"os/signal.Stop":  func(e *Engine, f fn, a []Value) []Value { return nil },
		"os/signal.Reset": func(e *Engine, f fn, a []Value) []Value { return nil },

		"golang.org/x/term.GetState": needCLI(func(e *Engine, f fn, a []Value) []Value {
			if !e.cli.tty {
				return []Value{nilV, e.newError("inappropriate ioctl for device", nil)}
			}
			return []Value{e.newNative("termstate", e.st.heap[e.cli.term]), nilV}
		}),
		"golang.org/x/term.MakeRaw": needCLI(func(e *Engine, f fn, a []Value) []Value {
			if !e.cli.tty {
				return []Value{nilV, e.newError("inappropriate ioctl for device", nil)}
			}
			old := e.st.heap[e.cli.term]
			e.setTerm(ropeConst("raw"))
			return []Value{e.newNative("termstate", old), nilV}
		}),
		"golang.org/x/term.Restore": needCLI(func(e *Engine, f fn, a []Value) []Value {
			if fd, ok := constInt(a[0]); ok && fd != 0 {
				// the terminal is where input comes from; output may go elsewhere
				return one1(e.newError("inappropriate ioctl for device", nil))
			}
			_, n := e.nativeAt(a[1], "termstate")
			if n == nil {
				if _, isNil := a[1].(*NilV); isNil {
					e.panicIf(bTrue, "nil terminal state")
				}
				e.setTerm(unknown("terminal state %s", show(a[1])))
				return one1(unknown("restore"))
			}
			e.setTerm(n.fs[0])
			return one1(nilV)
		}),
		"golang.org/x/term.IsTerminal": needCLI(func(e *Engine, f fn, a []Value) []Value { return one1(boolV(e.cli.tty)) }),
		"golang.org/x/term.GetSize": needCLI(func(e *Engine, f fn, a []Value) []Value {
			if e.cli.sizeErr {
				return []Value{linInt(0), linInt(0), e.newError("inappropriate ioctl for device", nil)}
			}
			return []Value{e.cli.width, intAtom("height", zero, big.NewInt(65535)), nilV}
		}),
		"golang.org/x/term.ReadPassword": needCLI(func(e *Engine, f fn, a []Value) []Value { return e.readPassword() }),

		"github.com/kklash/wordlist4096.Search": func(e *Engine, f fn, a []Value) []Value {
			q := ropeOf(a[0])
			var exact Value
			var suf []Value
			ok := false
			if e.cli != nil && e.cli.search != nil {
				exact, suf, ok = e.cli.search(e, q)
			}
			if !ok {
				e.opaque["wordlist4096.Search"]++
				_, exact = wordIndex(q)
				ro := newObj("searchresult", derefT(resType(f, 0)))
				e.st.heap[ro] = mkAgg("struct", []Value{exact, unknown("completions of %s", short(show(q)))})
				return one1(mkPtr(ro))
			}
			o := newObj("strings", nil)
			e.st.heap[o] = mkAgg("array", suf)
			n := linInt(int64(len(suf)))
			ro := newObj("searchresult", derefT(resType(f, 0)))
			e.st.heap[ro] = mkAgg("struct", []Value{exact, mkSlice(o, nil, linInt(0), n, n)})
			return one1(mkPtr(ro))
		},
		"strconv.ParseUint": func(e *Engine, f fn, a []Value) []Value { return e.parseUint(ropeOf(a[0]), a[1], a[2]) },
		"strconv.ParseBool": func(e *Engine, f fn, a []Value) []Value {
			known := true
			leaf := func(val bool) func(Value) Value {
				return func(v Value) Value {
					s, ok := ropeConstStr(ropeOf(v))
					if !ok {
						known = false
						return bFalse
					}
					b, err := strconv.ParseBool(s)
					if val {
						return boolV(b)
					}
					return boolV(err != nil)
				}
			}
			t := gateLeaves(ropeOf(a[0]))
			val, bad := mapLeaves(t, leaf(true)), mapLeaves(t, leaf(false))
			if !known {
				return e.uninterpreted(f, "strconv.ParseBool", a)
			}
			var err Value = nilV
			if bad != bFalse {
				err = ite(bad, e.newError("strconv.ParseBool", nil), nilV)
			}
			return []Value{val, err}
		},
		"strconv.FormatBool": func(e *Engine, f fn, a []Value) []Value {
			return one1(ite(a[0], ropeConst("true"), ropeConst("false")))
		},
		"strconv.Itoa": func(e *Engine, f fn, a []Value) []Value {
			return one1(mapLeaves(a[0], func(v Value) Value {
				if c, ok := isConst(v); ok {
					return ropeConst(c.String())
				}
				return ropeStr("dec", nil, v)
			}))
		},
		"strings.Split": func(e *Engine, f fn, a []Value) []Value {
			s, ok1 := ropeConstStr(ropeOf(a[0]))
			sep, ok2 := ropeConstStr(ropeOf(a[1]))
			if !ok1 || !ok2 {
				return e.uninterpreted(f, "strings.Split", a)
			}
			return one1(e.stringSlice(strings.Split(s, sep)))
		},
		"strings.Fields": fields,
		"bytes.Fields":   fields,
		"unicode/utf8.RuneCountInString": func(e *Engine, f fn, a []Value) []Value {
			if s, ok := ropeConstStr(ropeOf(a[0])); ok {
				return one1(linInt(int64(len([]rune(s)))))
			}
			return e.uninterpreted(f, "utf8.RuneCountInString", a)
		},
		"(time.Time).Format": func(e *Engine, f fn, a []Value) []Value {
			return one1(ropeStr("timefmt", nil, timeNs(a[0]), a[1]))
		},
	}
	strFold := func(name string, f1 func(a, b string) Value) {
		m[name] = func(e *Engine, f fn, a []Value) []Value {
			x, ok1 := ropeConstStr(ropeOf(a[0]))
			y, ok2 := ropeConstStr(ropeOf(a[1]))
			if ok1 && ok2 {
				return one1(f1(x, y))
			}
			return e.uninterpreted(f, name, a)
		}
	}
	for n, f := range map[string]func(a, b string) Value{
		"strings.Compare":    func(a, b string) Value { return linInt(int64(strings.Compare(a, b))) },
		"strings.Contains":   func(a, b string) Value { return boolV(strings.Contains(a, b)) },
		"strings.HasPrefix":  func(a, b string) Value { return boolV(strings.HasPrefix(a, b)) },
		"strings.HasSuffix":  func(a, b string) Value { return boolV(strings.HasSuffix(a, b)) },
		"strings.Index":      func(a, b string) Value { return linInt(int64(strings.Index(a, b))) },
		"strings.TrimPrefix": func(a, b string) Value { return ropeConst(strings.TrimPrefix(a, b)) },
		"strings.TrimSuffix": func(a, b string) Value { return ropeConst(strings.TrimSuffix(a, b)) },
		"strings.TrimRight":  func(a, b string) Value { return ropeConst(strings.TrimRight(a, b)) },
		"strings.TrimLeft":   func(a, b string) Value { return ropeConst(strings.TrimLeft(a, b)) },
		"strings.Trim":       func(a, b string) Value { return ropeConst(strings.Trim(a, b)) },
	} {
		if _, have := intrinsics[n]; !have {
			strFold(n, f)
		}
	}
	m["strings.ToUpper"] = func(e *Engine, f fn, a []Value) []Value {
		if s, ok := ropeConstStr(ropeOf(a[0])); ok {
			return one1(ropeConst(strings.ToUpper(s)))
		}
		return e.uninterpreted(f, "strings.ToUpper", a)
	}
	return m
}

func (e *Engine) stringSlice(ss []string) Value {
	es := make([]Value, len(ss))
	for i, s := range ss {
		es[i] = ropeConst(s)
	}
	o := newObj("strings", nil)
	e.st.heap[o] = mkAgg("array", es)
	n := linInt(int64(len(es)))
	return mkSlice(o, nil, linInt(0), n, n)
}

func (e *Engine) catchesInterrupt(sigs Value) bool {
	es, ok := e.elems(sigs)
	if !ok {
		return true
	}
	if len(es) == 0 {
		return true
	}
	for _, s := range es {
		if strings.Contains(show(s), "Interrupt") || strings.Contains(showD(e.deep(s), 4), "Interrupt") {
			return true
		}
		if i, ok := s.(*Iface); ok {
			if c, ok := constInt(i.v); ok && c == 2 {
				return true
			}
		}
	}
	return false
}

func (e *Engine) nopFunc() *ssa.Function {
	// some function without effect: os/signal.Stop is modelled as one
	return e.p.ssa["os/signal"].Func("Stop")
}

// srcRope is the text behind a reader over a string, or nil.
func (e *Engine) srcRope(v Value) *Rope {
	if _, n := e.nativeAt(v, "reader"); n != nil {
		return n.fs[0].(*Rope)
	}
	return nil
}

// scanRope models Scan on a scanner over a text in memory.
func (e *Engine) scanRope(p *Ptr, n *Native, src *Rope, mode string) Value {
	var items []Value
	if s, ok := ropeConstStr(src); ok && (mode == "words" || mode == "lines") {
		l := strings.Fields(s)
		if mode == "lines" {
			l = strings.Split(strings.TrimSuffix(s, "\n"), "\n")
			if s == "" {
				l = nil
			}
		}
		for _, x := range l {
			items = append(items, ropeConst(x))
		}
	} else if app := wholeApp(src, "filecontent"); app != nil && mode == "words" && e.cli != nil && e.cli.inPath != nil && e.cli.inPath == app.args[0] {
		items = e.cli.fileWords
	} else {
		return unknown("scanner of %s", short(show(src)))
	}
	rs := e.splitCall([]Value{n.fs[2]}, 1, func(vs []Value) []Value {
		k, ok := constInt(vs[0])
		if !ok {
			return one1(unknown("position in text"))
		}
		if k >= len(items) {
			e.store(p, mkNative("scanner", n.fs[0], n.fs[1], n.fs[2], emptyRope))
			return one1(bFalse)
		}
		e.store(p, mkNative("scanner", n.fs[0], n.fs[1], linInt(int64(k+1)), items[k]))
		return one1(bTrue)
	})
	return rs[0]
}

// scan models (*bufio.Scanner).Scan on the word file or standard input.
func (e *Engine) scan(sc Value) Value {
	p, n := e.nativeAt(sc, "scanner")
	if n == nil {
		return unknown("scanner")
	}
	_, fl := e.fileOf(n.fs[0])
	mode, _ := ropeConstStr(n.fs[1].(*Rope))
	if src := e.srcRope(n.fs[0]); src != nil {
		return e.scanRope(p, n, src, mode)
	}
	if fl == nil {
		e.opaque["scanner of "+show(n.fs[0])]++
		return unknown("scanner of %s", show(n.fs[0]))
	}
	if fileName(fl) == "os.Stdin" && mode == "lines" && e.cli.lines == nil && len(e.cli.passwords) > 0 {
		// a password typed at a terminal that shows it
		e.logEffect(effect{kind: "echo"})
		rs := e.splitCall([]Value{e.st.heap[e.cli.pwPos]}, 1, func(vs []Value) []Value {
			k, ok := constInt(vs[0])
			if !ok {
				return one1(unknown("position in input"))
			}
			e.st.heap[e.cli.pwPos] = linInt(int64(k + 1))
			if k >= len(e.cli.passwords) {
				return one1(bFalse)
			}
			e.store(p, mkNative("scanner", n.fs[0], n.fs[1], n.fs[2], e.cli.passwords[k]))
			return one1(bTrue)
		})
		return rs[0]
	}
	if fileName(fl) == "os.Stdin" && mode == "lines" && e.cli.lines != nil {
		rs := e.splitCall([]Value{e.st.heap[e.cli.inPos]}, 1, func(vs []Value) []Value {
			k, ok := constInt(vs[0])
			if !ok {
				return one1(unknown("position in input"))
			}
			if k >= len(e.cli.lines) {
				e.store(p, mkNative("scanner", n.fs[0], n.fs[1], n.fs[2], emptyRope))
				return one1(bFalse)
			}
			e.st.heap[e.cli.inPos] = linInt(int64(k + 1))
			e.store(p, mkNative("scanner", n.fs[0], n.fs[1], n.fs[2], e.cli.lines[k]))
			return one1(bTrue)
		})
		return rs[0]
	}
	if len(fl.fs) >= 6 && mode == "words" && e.cli.inPath != nil && fl.fs[0] == Value(e.cli.inPath) {
		rs := e.splitCall([]Value{n.fs[2]}, 1, func(vs []Value) []Value {
			k, ok := constInt(vs[0])
			if !ok {
				return one1(unknown("position in file"))
			}
			if k >= len(e.cli.fileWords) {
				e.readErr(fl.fs[0])
				e.store(p, mkNative("scanner", n.fs[0], n.fs[1], n.fs[2], emptyRope))
				return one1(bFalse)
			}
			e.store(p, mkNative("scanner", n.fs[0], n.fs[1], linInt(int64(k+1)), e.cli.fileWords[k]))
			return one1(bTrue)
		})
		return rs[0]
	}
	e.opaque["scanner of "+mode]++
	return unknown("scanner of %s", mode)
}

func (e *Engine) parseUint(r *Rope, base, bits Value) []Value {
	if s, ok := ropeConstStr(r); ok {
		b, _ := constInt(base)
		n, ok := constInt(bits)
		if n == 0 {
			n = 64
		}
		v, good := new(big.Int).SetString(s, b)
		if strings.HasPrefix(s, "+") || strings.HasPrefix(s, "-") || (b != 0 && strings.Contains(s, "_")) {
			good = false
		}
		if ok {
			if !good || v.Sign() < 0 || v.BitLen() > n {
				var x Value = linInt(0)
				if good && v.Sign() >= 0 {
					x = linConst(new(big.Int).Sub(pow2(n), one))
				}
				return []Value{x, e.newError("strconv.ParseUint: parsing "+s, nil)}
			}
			return []Value{linConst(v), nilV}
		}
	}
	if a := wholeApp(r, "dec"); a != nil {
		if lo, hi := bounds(a.args[0]); lo != nil && hi != nil && lo.Sign() >= 0 {
			b, ok1 := constInt(base)
			n, ok2 := constInt(bits)
			if n == 0 {
				n = 64
			}
			if ok1 && ok2 && (b == 10 || b == 0) {
				max := linConst(new(big.Int).Sub(pow2(n), one))
				fits := le(a.args[0], max)
				return []Value{ite(fits, a.args[0], max), e.errIf(not(fits), "strconv.ParseUint: value out of range")}
			}
		}
	}
	fail := boolApp("notuint", r)
	if b, ok := constInt(base); !ok || b != 10 {
		u := unknown("strconv.ParseUint with base %s", show(base))
		return []Value{u, u}
	}
	n, ok := constInt(bits)
	if !ok || n == 0 {
		n = 64
	}
	v := intAtom("parseuint", zero, new(big.Int).Sub(pow2(n), one), r)
	return []Value{ite(fail, linInt(0), v), e.errIf(fail, "strconv.ParseUint")}
}

var _ = fmt.Sprint

func (e *Engine) randFail(id, ctr Value) Value {
	if e.cli != nil && e.cli.randOK {
		return bFalse
	}
	c := boolApp("randfail", id, ctr)
	e.logEffect(effect{kind: "fault", to: "randfail", what: c})
	return c
}

// fault is a condition of the surroundings the program cannot foresee.
func (e *Engine) fault(kind string, path Value) Value {
	if e.cli != nil && e.cli.filesOK {
		if kind == "exists" {
			for _, r := range append(e.cli.readable, e.cli.inPath) {
				if r != nil && path == Value(r) {
					return bTrue
				}
			}
		}
		return bFalse
	}
	c := boolApp(kind, path, linInt(int64(e.fresh())))
	e.logEffect(effect{kind: "fault", to: kind, what: c})
	return c
}

// closeFault is the failure to close a file; a file is closed once, so that closing it
// again after success is harmless.
func (e *Engine) closeFault(f Value, path Value) Value {
	if e.cli != nil && e.cli.filesOK {
		return bFalse
	}
	c := boolApp("closefail", path, f)
	e.logEffect(effect{kind: "fault", to: "closefail", what: c})
	return c
}

func (e *Engine) readErr(path Value) Value {
	if e.cli != nil && e.cli.filesOK {
		return bFalse
	}
	c := boolApp("readerr", path)
	e.logEffect(effect{kind: "fault", to: "readerr", what: c})
	return c
}

// drawn records a draw from a random source. When a specification is evaluated after the
// program, its draws stand for those of the program: the k-th draw of a shape from a source
// is the program's k-th such draw (independent draws have no other identity).
func (e *Engine) drawn(shape string, id, ctr Value) Value {
	if e.cli == nil {
		return ctr
	}
	key := shape + " " + show(id)
	if e.cli.replay != nil {
		if l := e.cli.replay[key]; len(l) > 0 {
			e.cli.replay[key] = l[1:]
			return l[0]
		}
		return ctr
	}
	e.logEffect(effect{kind: "draw", to: key, what: ctr, args: []Value{id}})
	return ctr
}
