package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type solveRes struct {
	status string // unsat sat unknown
	solver string
	out    string
	secs   float64
}

var (
	solverSlots = make(chan struct{}, 8)
	solverTime  int64 // nanoseconds
	solverCalls int64
	scratch     string
	scratchSeq  int64
	deadline    = time.Now().Add(100 * time.Hour)
)

func runSolver(ctx context.Context, solver, file string, secs int) solveRes {
	select {
	case solverSlots <- struct{}{}:
	case <-ctx.Done():
		return solveRes{status: "unknown", solver: solver}
	}
	defer func() { <-solverSlots }()
	if ctx.Err() != nil {
		return solveRes{status: "unknown", solver: solver}
	}
	c2, cancel := context.WithTimeout(ctx, time.Duration(secs+5)*time.Second)
	defer cancel()
	var cmd *exec.Cmd
	switch solver {
	case "cvc5":
		cmd = exec.CommandContext(c2, "cvc5", "--lang", "smt2", fmt.Sprintf("--tlimit=%d", secs*1000), "--produce-models", file)
	case "z3":
		cmd = exec.CommandContext(c2, "z3", fmt.Sprintf("-T:%d", secs), "-memory:3000", file)
	default:
		cmd = exec.CommandContext(c2, solver, fmt.Sprintf("-T:%d", secs), "-memory:3000", file)
	}
	t0 := time.Now()
	b, _ := cmd.CombinedOutput()
	d := time.Since(t0)
	atomic.AddInt64(&solverTime, int64(d))
	atomic.AddInt64(&solverCalls, 1)
	out := string(b)
	st := "unknown"
	first := strings.TrimSpace(strings.SplitN(out, "\n", 2)[0])
	switch first {
	case "sat", "unsat":
		st = first
	default:
		if strings.Contains(out, "rror") && first != "unknown" && first != "timeout" && !strings.Contains(out, "interrupted") && ctx.Err() == nil {
			st = "error"
		}
	}
	return solveRes{st, solver, out, d.Seconds()}
}

// decide runs the portfolio: a quick z3 attempt, then z3-new, z3 and cvc5 side by side.
func decide(text string, quick, full int) solveRes {
	if left := int(time.Until(deadline).Seconds()); left < quick+full {
		if left < 1 {
			return solveRes{status: "unknown", out: "the check's time budget is used up"}
		}
		if quick > left {
			quick = left
		}
		if full > left-quick {
			full = left - quick
		}
	}
	file := fmt.Sprintf("%s/q%d.smt2", scratch, atomic.AddInt64(&scratchSeq, 1))
	if err := os.WriteFile(file, []byte(text), 0o644); err != nil {
		return solveRes{status: "unknown", out: err.Error()}
	}
	defer func() {
		if os.Getenv("GOVC_KEEP") == "" {
			os.Remove(file)
		}
	}()
	total := 0.0
	r := runSolver(context.Background(), "z3-new", file, quick)
	total += r.secs
	if r.status == "error" {
		fmt.Fprintf(os.Stderr, "solver error (%s): %s\n", file, firstLines(r.out, 3))
	}
	if r.status == "sat" || r.status == "unsat" || full == 0 {
		return r
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan solveRes, 3)
	ss := []string{"z3-new", "cvc5", "z3"}
	for _, s := range ss {
		go func(s string) { ch <- runSolver(ctx, s, file, full) }(s)
	}
	best := r
	for range ss {
		x := <-ch
		if x.status == "sat" || x.status == "unsat" {
			x.secs += total
			return x
		}
		best = x
	}
	best.status = "unknown"
	return best
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

type SolveOpts struct {
	quick, full int
	verbose     bool
	patient     bool // the automatic candidates get all the time there is, too
	cross       bool // thorough: confirm with a second solver
	want        func(*Obl) bool
}

// Job is a function case made ready for the solver; nothing in it refers to the term table.
type Job struct {
	res    *FuncResult
	groups []*Problem // candidate events
	probs  []*Problem // everything else
	cands  []*Cand
	err    string
	buildS float64
}

func (pg *Program) buildJob(res *FuncResult, want func(*Obl) bool) (job *Job) {
	t0 := time.Now()
	job = &Job{res: res, err: res.err}
	defer func() { job.buildS = time.Since(t0).Seconds() }()
	if res.err != "" {
		return
	}
	ex := res.ex
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case specError:
				job.err = "contract does not fit the code: " + x.msg
			case unsupportedErr:
				job.err = "outside the verifier's reach: " + x.msg
			default:
				panic(r)
			}
		}
	}()
	job.cands = ex.cands
	for i := 0; i < len(res.obls); {
		o := res.obls[i]
		if o.cand != nil {
			j := i
			for j < len(res.obls) && res.obls[j].group == o.group && res.obls[j].cand != nil {
				j++
			}
			var os []*Obl
			for _, x := range res.obls[i:j] {
				if x.goal != TTrue {
					os = append(os, x)
				} else {
					x.result = "proved"
					x.solver = "simplifier"
				}
			}
			if len(os) > 0 {
				job.groups = append(job.groups, ex.buildProblem(fmt.Sprintf("group%d", o.group), o.nfacts, os, false))
			}
			i = j
			continue
		}
		i++
		if want != nil && !want(o) {
			o.result = "skipped"
			continue
		}
		if o.goal == TTrue && !o.cover {
			o.result = "proved"
			o.solver = "simplifier"
			continue
		}
		if o.cover && o.goal == TFalse {
			o.result = "failed"
			o.solver = "simplifier"
			o.reason = "unreachable"
			continue
		}
		pr := ex.buildProblem(o.name, o.nfacts, []*Obl{o}, o.cover)
		if o.before != nil {
			pr.before = ex.buildProblem(o.name, o.before.nfacts, []*Obl{o.before}, true)
		}
		job.probs = append(job.probs, pr)
	}
	return
}

// solve tries first without the "+1" variants of the loop candidates (they matter only when a loop
// is written with its counter one step behind) and without those marked {alt} (for loops written in
// other ways), then with the latter, then with all of them.
func (j *Job) solve(opt SolveOpts) {
	if j.err != "" {
		return
	}
	was := map[*Cand]bool{}
	plus, alt := false, false
	for _, c := range j.cands {
		was[c] = c.alive
		alt = alt || c.alive && c.alt
		plus = plus || c.alive && !c.auto && strings.Contains(c.text, "+1")
	}
	attempt := func(withAlt, withPlus bool) bool {
		for _, c := range j.cands {
			c.alive = was[c] && (withAlt || !c.alt) && (withPlus || c.auto || !strings.Contains(c.text, "+1"))
		}
		j.solveWith(opt)
		for _, p := range j.probs {
			if o := p.obls[0]; o.result == "failed" {
				return false
			}
		}
		return true
	}
	if (alt || plus) && attempt(false, false) {
		return
	}
	if alt && plus && attempt(true, false) {
		return
	}
	if attempt(true, true) {
		return
	}
	// a candidate may have been dropped only because the machine was busy
	for _, c := range j.cands {
		if c.late {
			opt.quick, opt.patient = 6*opt.quick, true
			attempt(true, true)
			return
		}
	}
}

func (j *Job) solveWith(opt SolveOpts) {
	// Houdini on the loop candidates
	for {
		changed := false
		var mu sync.Mutex
		var wg sync.WaitGroup
		for _, g := range j.groups {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				if j.houdini(g, opt, &mu) {
					mu.Lock()
					changed = true
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if !changed {
			break
		}
	}
	var wg sync.WaitGroup
	for _, p := range j.probs {
		p := p
		wg.Add(1)
		go func() {
			defer wg.Done()
			o := p.obls[0]
			goal := "(not goal_0)"
			if p.cover {
				goal = "goal_0"
			}
			txt := p.text(goal)
			if !p.cover && len(p.values) > 0 {
				txt += "(get-value (" + strings.Join(p.values, " ") + "))\n"
			}
			full := opt.full
			if p.cover {
				full = 0
			}
			if j.res.c.Timeout > full && !p.cover {
				full = j.res.c.Timeout
			}
			q := opt.quick
			if p.cover && q < 10 {
				q = 10
			}
			if p.before != nil {
				q = 2
			}
			r := decide(txt, q, full)
			o.solver, o.secs = r.solver, r.secs
			switch {
			case p.cover:
				o.result = "proved"
				if r.status == "unsat" && p.before != nil {
					// code that cannot be reached anyway says nothing about the contract
					if r2 := decide(p.before.text(goal), 10, 0); r2.status == "sat" {
						o.result = "failed"
						o.reason = "the contract excludes every continuation"
					} else if r2.status != "unsat" {
						o.result = "undecided"
					}
				} else if r.status == "unsat" {
					o.result = "failed"
					o.reason = "unreachable: the specification or the code excludes every execution"
				} else if r.status != "sat" {
					o.result = "undecided"
				}
			case r.status == "unsat":
				o.result = "proved"
				if opt.cross {
					file := fmt.Sprintf("%s/x%d.smt2", scratch, atomic.AddInt64(&scratchSeq, 1))
					os.WriteFile(file, []byte(p.text(goal)), 0o644)
					second := "cvc5"
					if r.solver == "cvc5" {
						second = "z3-new"
					}
					r2 := runSolver(context.Background(), second, file, 20)
					os.Remove(file)
					if r2.status == "unsat" {
						o.solver = r.solver + "+" + second
					} else if r2.status == "sat" {
						o.result = "failed"
						o.reason = "solvers disagree: " + r.solver + " unsat, " + second + " sat"
					}
				}
			case r.status == "sat":
				o.result = "failed"
				o.reason = "counterexample"
				o.model = r.out
			default:
				o.result = "failed"
				o.reason = "no proof found within the time limit (" + firstLines(r.out, 2) + ")"
			}
		}()
	}
	wg.Wait()
}

func (j *Job) houdini(g *Problem, opt SolveOpts, mu *sync.Mutex) bool {
	killed := false
	for {
		mu.Lock()
		var live []int
		for i, o := range g.obls {
			if o.cand.alive {
				live = append(live, i)
			}
		}
		if len(live) == 0 {
			mu.Unlock()
			return killed
		}
		var gs []string
		for _, i := range live {
			gs = append(gs, fmt.Sprintf("goal_%d", i))
		}
		all := strings.Join(gs, " ")
		txt := g.text("(not (and true " + all + "))")
		mu.Unlock()
		r := decide(txt+"(get-value ("+all+"))\n", opt.quick, 0)
		if r.status == "unsat" {
			for _, i := range live {
				g.obls[i].result = "proved"
				g.obls[i].solver = r.solver
				g.obls[i].secs = r.secs / float64(len(live))
			}
			return killed
		}
		n := 0
		if r.status == "sat" {
			mu.Lock()
			for _, i := range live {
				if strings.Contains(r.out, fmt.Sprintf("(goal_%d false)", i)) {
					g.obls[i].cand.alive = false
					n++
				}
			}
			mu.Unlock()
		}
		if n == 0 {
			// decide one by one
			var wg sync.WaitGroup
			res := make([]string, len(live))
			for k, i := range live {
				k, i := k, i
				wg.Add(1)
				mu.Lock()
				t1 := g.text(fmt.Sprintf("(not goal_%d)", i))
				mu.Unlock()
				full := 0
				if !g.obls[i].cand.auto || opt.patient {
					full = opt.full
				}
				go func() {
					defer wg.Done()
					res[k] = decide(t1, opt.quick, full).status
				}()
			}
			wg.Wait()
			mu.Lock()
			for k, i := range live {
				if res[k] != "unsat" && g.obls[i].cand.alive {
					g.obls[i].cand.alive = false
					g.obls[i].cand.late = g.obls[i].cand.late || res[k] != "sat"
					n++
				}
			}
			mu.Unlock()
			if n == 0 {
				for _, i := range live {
					g.obls[i].result = "proved"
				}
				return killed
			}
		}
		killed = true
	}
}
