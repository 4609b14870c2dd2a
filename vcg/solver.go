package main

import (
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SolveResult struct {
	Status  string // "unsat" (proved), "sat", "unknown"
	Backend string
	Secs    float64
	Output  string
}

type solverCmd struct {
	name string
	args func(sec int) []string
}

var solverCmds = []solverCmd{
	{"z3-new", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s)} }},
	{"z3", func(s int) []string { return []string{"z3", "-in", fmt.Sprintf("-T:%d", s)} }},
	{"z3-new -mbqi", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s), "smt.mbqi=false"} }},
	{"cvc5", func(s int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), "--full-saturate-quant", "-"}
	}},
}

// proofDeadline (unix nanoseconds, 0 for none) bounds the solver time of a run.
var proofDeadline atomic.Int64

var solverSem = make(chan struct{}, 8)

func runSolver(ctx context.Context, c solverCmd, q string, sec int) SolveResult {
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return SolveResult{Status: "unknown", Backend: c.name, Output: "cancelled"}
	}
	defer func() { <-solverSem }()
	t0 := time.Now()
	if d := proofDeadline.Load(); d != 0 {
		left := int(time.Until(time.Unix(0, d)).Seconds())
		if left < 1 {
			return SolveResult{Status: "unknown", Backend: c.name, Output: "time budget of the run used up"}
		}
		if left < sec {
			sec = left
		}
	}
	a := c.args(sec)
	cctx, cancel := context.WithTimeout(ctx, time.Duration(sec+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	r := SolveResult{Backend: c.name, Secs: time.Since(t0).Seconds(), Output: out.String()}
	first := ""
	for _, l := range strings.Split(r.Output, "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "WARNING") {
			first = l
			break
		}
	}
	switch first {
	case "unsat", "sat":
		r.Status = first
	default:
		r.Status = "unknown"
		if strings.Contains(r.Output, "error") {
			r.Status = "error"
		}
	}
	return r
}

// fast gives every solver a short attempt, one after the other.
func fast(q string, quick int) SolveResult {
	var r SolveResult
	secs := 0.0
	for _, c := range []struct{ i, sec int }{{0, 2}, {1, 2}, {3, 4}, {0, quick}} {
		if c.sec > quick {
			c.sec = quick
		}
		if c.sec == quick && quick <= 4 && c.i == 0 && secs > 0 {
			break
		}
		r = runSolver(context.Background(), solverCmds[c.i], q, c.sec)
		secs += r.Secs
		r.Secs = secs
		if r.Status == "unsat" || r.Status == "sat" || r.Status == "error" {
			break
		}
	}
	return r
}

// solve tries a quick attempt, then the portfolio in parallel. parts are
// queries that together imply q.
func solve(q string, quick, full int, parts ...string) SolveResult {
	r := fast(q, quick)
	if r.Status != "unknown" {
		return r
	}
	secs := r.Secs
	if len(parts) > 1 {
		open := 0
		var rest []string
		for _, p := range parts {
			x := fast(p, quick)
			secs += x.Secs
			if x.Status == "sat" || x.Status == "error" {
				x.Secs = secs
				return x
			}
			if x.Status != "unsat" {
				rest = append(rest, p)
				if open++; open > 2 {
					break
				}
			} else {
				r = x
			}
		}
		if open == 0 {
			r.Secs = secs
			r.Backend += " (conjunct by conjunct)"
			return r
		}
		if open <= 2 && full > 0 {
			for _, p := range rest {
				r = portfolio(p, r, full)
				secs += r.Secs
				if r.Status != "unsat" {
					break
				}
			}
			if r.Status == "unsat" {
				r.Secs = secs
				r.Backend += " (conjunct by conjunct)"
				return r
			}
		}
	}
	if full <= 0 {
		return r
	}
	r.Status = "unknown"
	r = portfolio(q, r, full)
	r.Secs += secs
	return r
}

func portfolio(q string, r SolveResult, full int) SolveResult {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan SolveResult, len(solverCmds))
	var wg sync.WaitGroup
	for _, c := range solverCmds {
		wg.Add(1)
		go func(c solverCmd) { defer wg.Done(); ch <- runSolver(ctx, c, q, full) }(c)
	}
	best := r
	best.Status = "unknown"
	best.Secs = 0
	for range solverCmds {
		x := <-ch
		best.Secs += x.Secs
		if x.Status == "unsat" {
			x.Secs = best.Secs
			return x
		}
		if x.Status == "sat" && best.Status != "sat" {
			s := best.Secs
			best = x
			best.Secs = s
			// a sat answer with quantifiers is definite for z3/cvc5
			return best
		}
	}
	return best
}

// abstractNL replaces products of two unknowns by an uninterpreted function:
// a proof of the weaker query is a proof of the query.
func abstractNL(ts []*Term) ([]*Term, bool) {
	declFun("nlmul", SInt, SInt, SInt)
	found := false
	memo := map[*Term]*Term{}
	gmemo := map[*Term]bool{}
	var ground func(t *Term) bool
	ground = func(t *Term) bool {
		if r, ok := gmemo[t]; ok {
			return r
		}
		r := t.Op != "var"
		for _, a := range t.Args {
			r = r && ground(a)
		}
		gmemo[t] = r
		return r
	}
	var prods []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if len(t.Args) > 0 {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			if t.Op == "*" && t.Args[0].Op != "int" && t.Args[1].Op != "int" {
				found = true
				a, b := args[0], args[1]
				if a.id > b.id {
					a, b = b, a
				}
				r = App("nlmul", a, b)
				if ground(r) && !seen[r] {
					seen[r] = true
					prods = append(prods, r)
				}
			} else if ch {
				r = rebuild(t, args, rec)
			}
		}
		memo[t] = r
		return r
	}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = rec(t)
	}
	// true facts about the products at hand
	var facts []*Term
	for _, p := range prods {
		a, b := p.Args[0], p.Args[1]
		facts = append(facts, Imp(Or(Eq(a, IntC(0)), Eq(b, IntC(0))), Eq(p, IntC(0))),
			Imp(Eq(a, IntC(1)), Eq(p, b)), Imp(Eq(b, IntC(1)), Eq(p, a)))
	}
	if len(prods) <= 16 {
		step := func(p, q, x, y, f *Term) { // p = x*f, q = y*f
			facts = append(facts, Imp(Eq(x, Add(y, IntC(1))), Eq(p, Add(q, f))))
		}
		for i, p := range prods {
			for j, q := range prods {
				if i == j {
					continue
				}
				for k := 0; k < 2; k++ {
					for l := 0; l < 2; l++ {
						if p.Args[1-k] == q.Args[1-l] {
							step(p, q, p.Args[k], q.Args[l], p.Args[1-k])
						}
					}
				}
			}
		}
	}
	if n := len(out); n > 0 && len(facts) > 0 {
		goal := out[n-1]
		out = append(append(append([]*Term{}, out[:n-1]...), facts...), goal)
	}
	return out, found
}
