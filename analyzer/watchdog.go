package main

import (
	"fmt"
	"os"
	"runtime/metrics"
	"sync"
	"time"
)

// The watchdog keeps a context within its budget. An analysis that is cut off is undecided.

const memBudget = 14 << 30

type guard struct {
	mu    sync.Mutex
	name  string
	since time.Time
	limit time.Duration
}

var theGuard guard

func (r *Run) begin(name string) {
	theGuard.mu.Lock()
	theGuard.name, theGuard.since, theGuard.limit = name, time.Now(), r.perCtx()
	stopNow.Store(false)
	theGuard.mu.Unlock()
}

// perCtx is the time a context may take.
func (r *Run) perCtx() time.Duration {
	d := 60 * time.Second
	if r.tier == "thorough" {
		d = 240 * time.Second
	}
	if left := time.Until(r.deadline) + 30*time.Second; left < d {
		d = left
	}
	return d
}

func heapBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// watch stops contexts over budget, and as a last resort ends the run with what it has.
func (r *Run) watch(d *checkDef, verif string) {
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			theGuard.mu.Lock()
			g := theGuard.name
			over := g != "" && (time.Since(theGuard.since) > theGuard.limit || heapBytes() > memBudget)
			late := g != "" && time.Since(theGuard.since) > theGuard.limit+60*time.Second || heapBytes() > memBudget+(8<<30)
			if over {
				stopNow.Store(true)
			}
			theGuard.mu.Unlock()
			if late || time.Now().After(r.deadline.Add(150*time.Second)) {
				r.add("undecided", "context analysed", "analysis did not stop in its budget: "+g, "")
				code := r.finish(d, verif)
				fmt.Fprintln(os.Stderr, "cut off in", g)
				os.Exit(code)
			}
		}
	}()
}
