package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// replayConf says how to search for a concrete failing input against the real code.
type replayConf struct {
	Pkg    string            `json:"pkg"`    // directory below /repo
	Files  map[string]string `json:"files"`  // name in the package -> file beside conf.json
	Run    string            `json:"run"`    // test name pattern
	Always bool              `json:"always"` // bounded stand-in: run on every check
	What   string            `json:"what"`
	Bound  string            `json:"bound"`
	Race   bool              `json:"race"` // with the race detector
	More   []*replayConf     `json:"more"` // further searches, in other packages
}

type failure struct {
	fn, name, reason, model, pos, src string
	known                             string
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "")
	repo := fs.String("repo", "/repo", "")
	home := fs.String("verif", "/verif", "")
	fs.Parse(args)
	P := *prop
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	deadline = t0.Add(600 * time.Second)
	opt := SolveOpts{quick: 2, full: 40}
	if tier == "thorough" {
		opt = SolveOpts{quick: 20, full: 120, cross: true}
		deadline = t0.Add(3 * time.Hour)
	}
	os.MkdirAll(filepath.Join(*home, "evidence", "replays"), 0o755)

	var fails []failure
	var jobs []*Job
	var list []string
	funcsUnder := map[string]bool{}
	assumed := map[string]bool{}
	inlined := map[string]bool{}
	externals := map[string]bool{}
	trusted := map[string]bool{}
	elsewhere := map[string]bool{}

	pg, err := loadProgram(*repo)
	if err == nil {
		err = pg.loadSpecs(filepath.Join(*home, "specs"))
	}
	if err != nil {
		fails = append(fails, failure{fn: "(loading)", name: "the source loads and type-checks", reason: err.Error()})
	} else {
		var work []*Contract
		queued := map[string]bool{}
		for _, c := range pg.order {
			if hasTag(c.Props, P) && c.Kind == "func" && c.Trusted == "" {
				work = append(work, c)
				queued[c.Key] = true
			}
		}
		if len(work) == 0 {
			fails = append(fails, failure{fn: "(specs)", name: "there are contracts for " + P, reason: "no contract"})
		}
		want := func(o *Obl) bool {
			if len(o.tags) == 0 {
				return true
			}
			real := false
			for _, t := range o.tags {
				if t == P {
					return true
				}
				if t != "own" && t != "optional" {
					real = true
				}
			}
			return !real
		}
		var wg sync.WaitGroup
		for len(work) > 0 {
			c := work[0]
			work = work[1:]
			if some := c.SplitIn[P]; some != nil {
				assumed[fmt.Sprintf("%s: verified here for the cases %s of %s only; the others are verified by the checks of %s", c.Key, strings.Join(some, ", "), strings.TrimSpace(c.Split.src), strings.Join(c.Props, ", "))] = true
			}
			for _, j := range pg.buildAll(c, want, P) {
				j := j
				jobs = append(jobs, j)
				wg.Add(1)
				go func() { defer wg.Done(); j.solve(opt) }()
				for k := range j.res.ex.contractsUsed {
					cc := pg.contracts[k]
					if queued[k] {
						continue
					}
					queued[k] = true
					if cc.Kind == "func" && cc.Trusted == "" {
						work = append(work, cc)
						continue
					}
					trusted[k] = true
				}
			}
		}
		wg.Wait()
	}
	nobl, ndis, nundec := 0, 0, 0
	bySolver := map[string]int{}
	kinds := map[string]int{}
	deadCands := 0
	liveCands := 0
	for _, j := range jobs {
		c := j.res.c
		key := c.Key
		funcsUnder[key] = true
		if j.err != "" {
			nobl++
			fails = append(fails, failure{fn: key + j.res.kase, name: key + ": the contract applies to the code", reason: j.err})
			continue
		}
		for k := range j.res.ex.assumed {
			assumed[k] = true
		}
		for k := range j.res.ex.inlined {
			inlined[k] = true
		}
		for k := range j.res.ex.externals {
			externals[k] = true
		}
		for _, c := range j.cands {
			if c.alive {
				liveCands++
			} else {
				deadCands++
			}
		}
		for _, o := range j.res.obls {
			if o.cand != nil {
				if o.cand.alive {
					nobl++
					ndis++
					kinds["loop invariant"]++
					bySolver[o.solver]++
				}
				continue
			}
			if o.result == "skipped" {
				elsewhere[o.name] = true
				continue
			}
			if o.cover {
				kinds["cover"]++
				if o.result == "undecided" {
					nundec++
				}
			} else {
				nobl++
				kinds[o.kind]++
			}
			switch o.result {
			case "proved":
				if !o.cover {
					ndis++
					bySolver[o.solver]++
				}
				if len(list) < 4000 && (o.kind == "ensures" || o.kind == "oncall" || o.kind == "exits") {
					list = append(list, o.name+j.res.kase)
				}
			case "failed":
				src := ""
				if o.clause != nil {
					src = o.clause.src
				}
				fails = append(fails, failure{fn: key + j.res.kase, name: o.name + j.res.kase, reason: o.reason, model: o.model, pos: o.pos, src: src})
			}
		}
	}

	// known findings
	known := loadKnown(filepath.Join(*home, "known_findings.txt"))
	var open []failure
	for _, f := range fails {
		hit := false
		for _, k := range known {
			if k.prop == P && k.obl == f.name {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", P, k.text)
				hit = true
			}
		}
		if !hit {
			open = append(open, f)
		}
	}

	// concrete search on the real code
	conf, confDir := loadReplay(filepath.Join(*home, "replay", P))
	replayOut, replayRan, replayFail := "", false, ""
	replayStats := map[string]interface{}{}
	if conf != nil && (conf.Always || len(open) > 0 || tier == "thorough") {
		replayRan = true
		budget := 20
		if tier == "thorough" {
			budget = 120
		}
		if len(open) > 0 {
			budget = 60
		}
		confs := append([]*replayConf{conf}, conf.More...)
		for _, c := range confs {
			o, f := runReplay(*repo, c, confDir, seed, budget/len(confs))
			replayOut += o
			if f != "" {
				replayFail = f
				break
			}
		}
		for _, l := range strings.Split(replayOut, "\n") {
			if i := strings.Index(l, "REPLAY-STATS "); i >= 0 {
				json.Unmarshal([]byte(l[i+13:]), &replayStats)
			}
		}
	}

	ev := map[string]interface{}{
		"property": P, "tier": tier, "seed": seed, "level": "proof",
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(open),
		"assumptions": append(append(standingAssumptions(),
			prefixed("assumed while executing: ", keys(assumed))...), prefixed("dependency call given arbitrary results and no effect on the recorder's own objects: ", keys(externals))...),
	}
	cov := map[string]interface{}{
		"obligations": nobl, "discharged": ndis,
		"checker_cmd":                  "govc check --property " + P + " (SMT: z3-new, cvc5, z3)",
		"trusted_base":                 append([]string{"govc: Go SSA -> verification conditions (golang.org/x/tools/go/ssa)", "z3 / cvc5"}, prefixed("assumed contract: ", keys(trusted))...),
		"functions_under_contract":     keys(funcsUnder),
		"functions_inlined":            keys(inlined),
		"obligations_by_kind":          kinds,
		"obligations_by_back_end":      bySolver,
		"loop_invariants_kept":         liveCands,
		"loop_candidates_dropped":      deadCands,
		"reachability_undecided":       nundec,
		"solver_calls":                 solverCalls,
		"solver_seconds":               float64(solverTime) / 1e9,
		"property_obligations_proved":  list,
		"clauses_of_other_properties":  keys(elsewhere),
		"bounded_search_on_real_code":  replayRan,
		"bounded_search_stats":         replayStats,
	}
	if conf != nil {
		cov["bounded_search"] = conf.What + " — bounded, not counted as proved: " + conf.Bound
	}
	ev["coverage"] = cov

	code := 0
	if len(open) > 0 || replayFail != "" {
		code = 1
		path := filepath.Join(*home, "evidence", "replays", P+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n\n", P)
		sort.SliceStable(open, func(i, j int) bool { return open[i].name < open[j].name })
		for _, f := range open {
			fmt.Fprintf(&sb, "FAILED OBLIGATION %s\n  function under contract: %s\n  near: %s\n  clause: %s\n  %s\n", f.name, f.fn, f.pos, f.src, f.reason)
			if f.model != "" {
				fmt.Fprintf(&sb, "  verifier output:\n    %s\n", strings.ReplaceAll(firstN(f.model, 4000), "\n", "\n    "))
			}
			fmt.Printf("failed obligation: %s (%s) %s\n", f.name, f.reason, f.pos)
		}
		if replayRan {
			fmt.Fprintf(&sb, "\nsearch on the real code:\n%s\n", firstN(replayOut, 20000))
		}
		suffix := " no-failing-input-found"
		if replayFail != "" {
			suffix = ""
			fmt.Fprintf(&sb, "\nFAILING INPUT: %s\n", replayFail)
			fmt.Printf("failing input: %s\n", replayFail)
		}
		os.WriteFile(path, []byte(sb.String()), 0o644)
		ev["violations"] = len(open)
		if len(open) == 0 {
			ev["violations"] = 1
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", P, path, suffix)
	} else {
		fmt.Printf("%s: %d obligations, %d discharged, %d functions under contract, %.1fs\n", P, nobl, ndis, len(funcsUnder), time.Since(t0).Seconds())
	}
	ev["wall_s"] = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*home, "evidence", P+".json"), b, 0o644)
	return code
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func prefixed(p string, l []string) []string {
	var out []string
	for _, x := range l {
		out = append(out, p+x)
	}
	return out
}

func standingAssumptions() []string {
	return []string{
		"int and int64 arithmetic is treated as mathematical (no 64-bit overflow); narrower and unsigned types wrap exactly",
		"verified functions run without interference from other goroutines except where a contract says otherwise (locks are tracked, data races are not)",
		"the Go compiler and go/ssa agree on the meaning of the source",
		"append never shares the spare capacity of its argument with another live slice",
	}
}

type knownFinding struct{ prop, obl, text string }

// known findings: lines "known: property=<id> obligation=<name> :: <what fails>"
func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " obligation=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		out = append(out, knownFinding{l[:i], l[i+len(" obligation=") : j], l[j+4:]})
	}
	return out
}

func loadReplay(dir string) (*replayConf, string) {
	b, err := os.ReadFile(filepath.Join(dir, "conf.json"))
	if err != nil {
		return nil, dir
	}
	c := &replayConf{}
	if err := json.Unmarshal(b, c); err != nil {
		return nil, dir
	}
	return c, dir
}

func runReplay(repo string, c *replayConf, dir string, seed, budget int) (out string, failing string) {
	rep := map[string]map[string]string{"Replace": {}}
	for name, file := range c.Files {
		rep["Replace"][filepath.Join(repo, c.Pkg, name)] = filepath.Join(dir, file)
	}
	b, _ := json.Marshal(rep)
	ov := filepath.Join(scratch, "overlay.json")
	os.WriteFile(ov, b, 0o644)
	work := filepath.Join(scratch, "replay")
	os.MkdirAll(work, 0o777)
	cmd := exec.Command("timeout", "-k", "10", strconv.Itoa(budget+90), "go", "test", "-overlay", ov, "-count=1", "-run", c.Run, "-v", "-timeout", fmt.Sprintf("%ds", budget+60), "./"+c.Pkg)
	if c.Race {
		cmd.Args = append(cmd.Args[:len(cmd.Args)-1], "-race", "./"+c.Pkg)
	}
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.Itoa(seed), "VERIF_BUDGET="+strconv.Itoa(budget), "VERIF_SCRATCH="+work, "GOFLAGS=-mod=readonly -buildvcs=false")
	o, err := cmd.CombinedOutput()
	out = string(o)
	for _, l := range strings.Split(out, "\n") {
		if i := strings.Index(l, "REPLAY-FAIL "); i >= 0 {
			return out, l[i+12:]
		}
	}
	if err != nil && strings.Contains(out, "REPLAY-START") && (strings.Contains(out, "panic: ") || strings.Contains(out, "fatal error: ")) {
		// the code under test crashed outside a recoverable call
		last := ""
		for _, l := range strings.Split(out, "\n") {
			if i := strings.Index(l, "REPLAY-CASE "); i >= 0 {
				last = l[i+12:]
			}
			if strings.Contains(l, "panic: test timed out") {
				return out, ""
			}
		}
		return out, "crash in " + last
	}
	return out, ""
}
