package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(10 << 30)
	dir := os.Getenv("VERIF_REPO")
	if dir == "" {
		dir = "/repo"
	}
	if len(os.Args) > 1 && os.Args[1] == "debug" {
		debugMain(dir, os.Args[2:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(checkMain(dir, os.Args[2]))
	}
	fmt.Fprintln(os.Stderr, "usage: analyzer check ID")
	os.Exit(2)
}

// checkMain decides one property on the tree in dir.
func checkMain(dir, id string) int {
	d := checks[id]
	if d == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	p, err := loadRepo(dir)
	if err != nil {
		fmt.Println("cannot load the repository:", err)
		return 2
	}
	r := newRun(p, id, tier)
	r.watch(d, verif)
	r.guarded(d)
	return r.finish(d, verif)
}

// guarded runs the check; whatever stops it outside a context leaves the rest undecided.
func (r *Run) guarded(d *checkDef) {
	defer func() {
		if x := recover(); x != nil {
			why := fmt.Sprintf("internal: %v", x)
			if b, ok := x.(bail); ok {
				why = b.why
			}
			if os.Getenv("VDEBUG") != "" {
				fmt.Fprintln(os.Stderr, x, string(debug.Stack()))
			}
			r.add("undecided", "every context analysed", why, "")
		}
	}()
	d.run(r)
}

func debugMain(dir string, args []string) {
	t0 := time.Now()
	p, err := loadRepo(dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(t0))
	e := p.newEngine()
	curPos = e.pos
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(bail); ok {
				fmt.Println("BAIL", b.why)
				os.Exit(2)
			}
			panic(r)
		}
	}()
	e.initGlobals()
	fmt.Println("init", time.Since(t0), "panics", len(e.panics))
	for g, o := range e.globals {
		if v, ok := e.st.heap[o]; ok && unknownIn(v) != "" {
			fmt.Println("unknown global", g, show(v))
		}
	}
	for _, ps := range e.panics {
		fmt.Println(ps.pos, ps.fn, ps.what, show(ps.cond))
	}
	e.dbg(args)
	e.dbg2(args)
	switch args[0] {
	case "enc":
		s := e.mkSeed("seed")
		off := intAtom("offset", zero, maxU32)
		r := e.api(p.fn("", "EncodeMnemonicPlaintext"), s, off)
		fmt.Println(show(r[0]))
		fmt.Println(show(r[1]))
		fmt.Println("pc", show(e.st.pc))
		e.assume(e.nilCond(r[1]))
		r[0] = restrict(r[0], e.st.pc)
		for i, w := range e.strings(r[0]) {
			fmt.Println(i, show(w))
		}
	}
	e.report()
	fmt.Println("time", time.Since(t0))
}

func (e *Engine) report() {
	for _, ps := range e.panics {
		fmt.Println("PANIC", ps.pos, ps.fn, ps.what, show(ps.cond))
	}
	fmt.Println("loops", e.loops)
	fmt.Println("opaque", e.opaque)
	fmt.Println("ambient", e.ambients)
	fmt.Println("instrs", e.instrs, "funcs", len(e.funcs))
}
