package main

// Obligations: what a check has to establish, and the verdict on each.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type Ob struct {
	Ctx    string `json:"context"`
	Desc   string `json:"obligation"`
	Status string `json:"status"` // proved, refuted, undecided
	Detail string `json:"detail,omitempty"`
	Pos    string `json:"where,omitempty"`
}

type Run struct {
	p        *Program
	id       string
	tier     string
	obs      []*Ob
	cur      string
	funcs    map[string]int
	instrs   int
	ctxs     int
	loops    map[string]bool
	opaque   map[string]int
	calls    map[string]int
	t0       time.Time
	deadline time.Time
	notes    []string
	extra    map[string]any
	pwLen    int  // length of passwords in contexts; 0: any
	spare    bool // input buffers have spare capacity
}

func newRun(p *Program, id, tier string) *Run {
	limit := 400 * time.Second
	if tier == "thorough" {
		limit = 700 * time.Second
	}
	return &Run{p: p, id: id, tier: tier, funcs: map[string]int{}, loops: map[string]bool{}, opaque: map[string]int{},
		calls: map[string]int{}, t0: time.Now(), deadline: time.Now().Add(limit), extra: map[string]any{}}
}

func (r *Run) add(status, desc, detail, pos string) *Ob {
	o := &Ob{r.cur, desc, status, detail, pos}
	r.obs = append(r.obs, o)
	return o
}

func (r *Run) count(status string) int {
	n := 0
	for _, o := range r.obs {
		if o.Status == status {
			n++
		}
	}
	return n
}

// Ctx is one analysis context: a fresh abstract machine with initialised globals.
type Ctx struct {
	*Engine
	r *Run
}

// ctx runs f in a fresh context; whatever cannot be analysed is undecided.
func (r *Run) ctx(name string, f func(c *Ctx)) {
	r.cur = name
	if time.Now().After(r.deadline) {
		r.add("undecided", "context analysed", "time budget used up", "")
		return
	}
	if only := os.Getenv("VONLY"); only != "" && !strings.Contains(name, only) {
		return
	}
	r.ctxs++
	resetTables()
	t0 := time.Now()
	r.begin(name)
	defer func() {
		r.begin("")
		if os.Getenv("VDEBUG") != "" {
			fmt.Fprintf(os.Stderr, "CTX %s %.1fs\n", name, time.Since(t0).Seconds())
		}
	}()
	e := r.p.newEngine()
	curPos = e.pos
	e.trace = os.Getenv("VTRACE") != ""
	c := &Ctx{e, r}
	defer func() {
		for k, v := range e.funcs {
			r.funcs[k] += v
		}
		for k, v := range e.opaque {
			r.opaque[k] += v
		}
		for k, v := range e.calls {
			r.calls[k] += v
		}
		for _, l := range e.loops {
			r.loops[l] = true
		}
		r.instrs += e.instrs
		if x := recover(); x != nil {
			if b, ok := x.(bail); ok {
				r.add("undecided", "context analysed", b.why, "")
				return
			}
			st := string(debug.Stack())
			if os.Getenv("VDEBUG") != "" {
				fmt.Fprintln(os.Stderr, x, st)
			}
			r.add("undecided", "context analysed", fmt.Sprintf("internal: %v", x), e.pos())
		}
	}()
	e.initGlobals()
	e.panics = nil
	f(c)
}

func (c *Ctx) norm(v Value) Value {
	if v == nil {
		return unknown("missing")
	}
	return simp(restrict(v, c.st.pc), c.st.pc)
}

// dead reports (as undecided) that the context became unreachable.
func (c *Ctx) dead(what string) bool {
	if c.st.pc == bFalse {
		return true
	}
	return false
}

// eq requires got and want to be the same value in the current context.
func (c *Ctx) eq(desc string, got, want Value) bool {
	if c.st.pc == bFalse {
		c.r.add("undecided", desc, "no execution reaches this point", "")
		return false
	}
	g, w := c.norm(got), c.norm(want)
	if why := unknownIn(g); why != "" {
		c.r.add("undecided", desc, why, "")
		return false
	}
	if g == w {
		c.r.add("proved", desc, "", "")
		return true
	}
	if why := unknownIn(c.st.pc); why != "" {
		c.r.add("undecided", desc, why, "")
		return false
	}
	pos := c.blame(g, w)
	witness, why := findWitness(c.st.pc, []Value{g, w}, func(v *valuation) string {
		a, b := enc(v.eval(g)), enc(v.eval(w))
		if string(a) == string(b) {
			return ""
		}
		return "values differ" + diffAt(v.eval(g), v.eval(w))
	})
	if witness != "" {
		c.r.add("refuted", desc, fmt.Sprintf("got %s, specified %s; %s", short(diffShow(g, w, true)), short(diffShow(g, w, false)), witness), pos)
	} else {
		c.r.add("undecided", desc, fmt.Sprintf("normal forms differ (%s / %s) but %s", short(diffShow(g, w, true)), short(diffShow(g, w, false)), why), pos)
	}
	return false
}

func diffAt(a, b any) string {
	x, ok1 := a.([]byte)
	y, ok2 := b.([]byte)
	if !ok1 || !ok2 {
		return ""
	}
	if len(x) != len(y) {
		return fmt.Sprintf(": %d bytes instead of %d", len(x), len(y))
	}
	for i := range x {
		if x[i] != y[i] {
			return fmt.Sprintf(" from byte %d on", i)
		}
	}
	return ""
}

func diffShow(g, w Value, got bool) string {
	a, ok1 := g.(*Rope)
	b, ok2 := w.(*Rope)
	if ok1 && ok2 {
		d := ropeDiff(a, b)
		i := strings.Index(d, ": got ")
		j := strings.Index(d, ", want ")
		if i >= 0 && j > i {
			if got {
				return d[i+6:j] + " at " + d[:i]
			}
			return d[j+7:]
		}
	}
	if got {
		return showD(g, 5)
	}
	return showD(w, 5)
}

func short(s string) string {
	if len(s) > 400 {
		return strings.ToValidUTF8(s[:400], "") + "…"
	}
	return s
}

// blame names where parts of got that are not in want were computed.
func (c *Ctx) blame(got, want Value) string {
	w := appsIn(want)
	best := ""
	bid := -1
	for a := range appsIn(got) {
		if !w[a] && a.pos != "" && strings.Contains(a.pos, ".go:") && !strings.HasPrefix(a.pos, "/") && a.id > bid {
			best, bid = a.pos, a.id
		}
	}
	return best
}

// holds requires cond to be true in the current context.
func (c *Ctx) holds(desc string, cond Value) bool { return c.holdsAt(desc, cond, "") }

func (c *Ctx) holdsAt(desc string, cond Value, pos string) bool {
	if c.st.pc == bFalse {
		c.r.add("proved", desc, "", "")
		return true
	}
	if !isBool(cond) {
		c.r.add("undecided", desc, "condition not decided: "+short(show(cond)), pos)
		return false
	}
	neg := and(c.st.pc, not(cond))
	if neg != bFalse {
		neg = and(c.st.pc, not(simp(cond, c.st.pc)))
	}
	if neg == bFalse {
		c.r.add("proved", desc, "", "")
		return true
	}
	if why := unknownIn(neg); why != "" {
		c.r.add("undecided", desc, why, pos)
		return false
	}
	witness, why := findWitness(neg, nil, func(v *valuation) string { return "can fail" })
	if witness != "" {
		c.r.add("refuted", desc, witness+"; condition "+short(show(cond)), pos)
	} else {
		c.r.add("undecided", desc, why, pos)
	}
	return false
}

// possible requires cond to be satisfiable in the current context.
func (c *Ctx) possible(desc string, cond Value) bool {
	k := and(c.st.pc, cond)
	if k == bFalse {
		c.r.add("refuted", desc, "cannot happen", "")
		return false
	}
	c.r.add("proved", desc, "", "")
	return true
}

// same requires two conditions to be equivalent.
func (c *Ctx) same(desc string, got, want Value) bool {
	if !isBool(got) {
		c.r.add("undecided", desc, "condition not decided: "+short(show(got)), "")
		return false
	}
	return c.holds(desc, ite(got, want, not(want)))
}

// noPanics turns every possible run-time panic recorded so far into an obligation.
func (c *Ctx) noPanics(desc string) {
	ps := c.panics
	c.panics = nil
	if len(ps) == 0 {
		c.r.add("proved", desc, "", "")
		return
	}
	for _, p := range ps {
		d := fmt.Sprintf("%s: %s in %s", desc, p.what, p.fn)
		if why := unknownIn(p.cond); why != "" {
			c.r.add("undecided", d, why, p.pos)
			continue
		}
		w, why := findWitness(p.cond, nil, func(v *valuation) string { return "reachable" })
		if w != "" {
			c.r.add("refuted", d, w+"; condition "+short(show(p.cond)), p.pos)
		} else {
			c.r.add("undecided", d, why, p.pos)
		}
	}
}

// ok assumes that an error result is nil.
func (c *Ctx) ok(err Value) { c.assume(c.nilCond(err)) }

// ---------------------------------------------------------------------------
// reporting

type checkDef struct {
	level  string
	rule   string
	expl   string
	assume []string
	run    func(r *Run)
}

var checks = map[string]*checkDef{}

func register(id string, d *checkDef) { checks[id] = d }

type knownFinding struct{ prop, match, text string }

func loadKnown(path, id string) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if rest, ok := strings.CutPrefix(l, "finding: property="+id+" "); ok {
			out = append(out, rest)
		}
	}
	return out
}

func (r *Run) finish(d *checkDef, verif string) int {
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(filepath.Join(ev, "replay"), 0o755)
	known := loadKnown(filepath.Join(verif, "KNOWN_FINDINGS"), r.id)
	var bad, kn []*Ob
	for _, o := range r.obs {
		if o.Status != "refuted" {
			continue
		}
		isKnown := false
		for _, k := range known {
			// a finding names the context and obligation that fails
			if i := strings.Index(k, " :: "); i > 0 && o.Ctx+" | "+o.Desc == k[:i] {
				isKnown = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, k[i+4:])
			}
		}
		if isKnown {
			kn = append(kn, o)
		} else {
			bad = append(bad, o)
		}
	}
	var fs []string
	repoFs := 0
	for f := range r.funcs {
		if strings.Contains(f, r.p.module) {
			repoFs++
		}
		fs = append(fs, f)
	}
	sort.Strings(fs)
	var und []*Ob
	for _, o := range r.obs {
		if o.Status == "undecided" {
			und = append(und, o)
		}
	}
	cov := map[string]any{
		"explanation":           d.expl,
		"rule":                  d.rule,
		"contexts_analysed":     r.ctxs,
		"obligations":           len(r.obs),
		"discharged":            r.count("proved"),
		"checker_cmd":           "/verif/check.sh " + r.id,
		"trusted_base":          d.assume,
		"obligations_refuted":   r.count("refuted"),
		"obligations_undecided": len(und),
		"functions_analysed":    repoFs,
		"instructions_analysed": r.instrs,
		"functions":             fs,
		"loops_widened":         keysOf(r.loops),
		"unmodelled_calls":      r.opaque,
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	if len(und) > 0 {
		if len(und) > 40 {
			und = und[:40]
		}
		cov["undecided"] = und
	}
	list := r.obs
	if len(list) > 400 {
		list = list[:400]
	}
	cov["obligation_list"] = list
	viol := []any{}
	for _, o := range bad {
		viol = append(viol, map[string]any{"context": o.Ctx, "obligation": o.Desc, "where": o.Pos, "detail": o.Detail})
	}
	if len(viol) > 0 {
		cov["violation_list"] = viol
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	out := map[string]any{
		"property": r.id, "tier": r.tier, "seed": seed, "level": d.level,
		"coverage": cov, "assumptions": d.assume, "wall_s": time.Since(r.t0).Seconds(), "violations": len(viol),
	}
	if len(kn) > 0 {
		out["known_findings"] = kn
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(filepath.Join(ev, r.id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("property %s (%s): %d contexts, %d functions, %d instructions; %d obligations: %d proved, %d refuted, %d undecided; %.1fs\n",
		r.id, r.tier, r.ctxs, repoFs, r.instrs, len(r.obs), r.count("proved"), r.count("refuted"), r.count("undecided"), time.Since(r.t0).Seconds())
	if len(bad) == 0 {
		return 0
	}
	rp := filepath.Join(ev, "replay", r.id+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s violated\nrule: %s\n", r.id, d.rule)
	for i, o := range bad {
		fmt.Fprintf(&sb, "\n%d. %s\n   context: %s\n   where: %s\n   %s\n", i+1, o.Desc, o.Ctx, o.Pos, o.Detail)
	}
	fmt.Fprintf(&sb, "\nto reproduce: /verif/check.sh %s\n", r.id)
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, o := range bad {
		if i == 12 {
			fmt.Printf("  ... and %d more\n", len(bad)-i)
			break
		}
		fmt.Printf("  refuted: %s [%s] %s %s\n", o.Desc, o.Ctx, o.Pos, short(o.Detail))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, rp)
	return 1
}

func keysOf(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = big.NewInt
