package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc check|func|list")
		os.Exit(1)
	}
	var err error
	scratch, err = os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	code := 1
	func() {
		defer os.RemoveAll(scratch)
		switch os.Args[1] {
		case "func":
			code = cmdFunc(os.Args[2:])
		case "list":
			code = cmdList(os.Args[2:])
		case "lint":
			code = cmdLint(os.Args[2:])
		case "check":
			code = cmdCheck(os.Args[2:])
		}
	}()
	os.Exit(code)
}

func cmdList(args []string) int {
	fs := flag.NewFlagSet("list", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	pg, err := loadProgram(*repo)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	var ks []string
	for k := range pg.funcs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k, pg.funcs[k].Params)
	}
	return 0
}

// cmdLint names the contracts of dependencies that no verified function uses (for development).
func cmdLint(args []string) int {
	fs := flag.NewFlagSet("lint", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	pg, err := loadProgram(*repo)
	if err == nil {
		err = pg.loadSpecs("/verif/specs")
	}
	if err != nil {
		fmt.Println(err)
		return 1
	}
	used, ext := map[string]bool{}, map[string]bool{}
	for _, k := range sortedKeys(pg.contracts) {
		c := pg.contracts[k]
		if c.Kind != "func" || c.Inline || pg.funcs[k] == nil {
			continue
		}
		if len(c.Anchors) > 0 && !c.Anchored {
			fmt.Println(k, "does not fit its anchors", c.Anchors)
		}
		r := pg.verifyCase(c, pg.funcs[k], -1)
		if r.err != "" {
			fmt.Println(k, r.err)
		}
		for u := range r.ex.contractsUsed {
			used[u] = true
		}
		for u := range r.ex.externals {
			ext[u] = true
		}
	}
	for _, k := range sortedKeys(pg.contracts) {
		if c := pg.contracts[k]; c.Kind != "func" && !used[k] {
			fmt.Println("never used:", c.Kind, k)
		}
	}
	fmt.Println("without a contract:", keys(ext))
	return 0
}

// cmdFunc verifies single functions and prints everything (for development).
func cmdFunc(args []string) int {
	fs := flag.NewFlagSet("func", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	specs := fs.String("specs", "/verif/specs", "")
	quick := fs.Int("quick", 2, "")
	full := fs.Int("full", 10, "")
	v := fs.Bool("v", false, "")
	dump := fs.String("dump", "", "write the problem of obligations whose name contains this to /tmp/dump.smt2")
	ssaf := fs.Bool("ssa", false, "")
	fs.Parse(args)
	t0 := time.Now()
	pg, err := loadProgram(*repo)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	if err := pg.loadSpecs(*specs); err != nil {
		fmt.Println(err)
		return 1
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	bad := 0
	for _, key := range fs.Args() {
		if *ssaf {
			if fn := pg.funcs[key]; fn != nil {
				fn.WriteTo(os.Stdout)
			}
			continue
		}
		c := pg.contracts[key]
		if c == nil {
			fmt.Println("no contract for", key)
			continue
		}
		for _, j := range pg.buildAll(c, nil, "") {
			t1 := time.Now()
			j.solve(SolveOpts{quick: *quick, full: *full})
			fmt.Printf("== %s%s  vcgen %.2fs solve %.2fs facts %d\n", key, j.res.kase, j.buildS, time.Since(t1).Seconds(), len(j.res.ex.facts))
			if j.err != "" {
				fmt.Println("  ERROR", j.err)
				bad++
				continue
			}
			for _, c := range j.cands {
				if c.alive && *v || !c.auto {
					fmt.Printf("  cand alive=%v %s\n", c.alive, c.text)
				}
			}
			for _, o := range j.res.obls {
				if o.cand != nil {
					continue
				}
				if o.result != "proved" || *v {
					fmt.Printf("  %-9s %-8s %s [%s %.2fs] %s %s\n", o.result, o.kind, o.name, o.solver, o.secs, o.reason, o.pos)
					if o.result == "failed" {
						bad++
						if *v {
							fmt.Println(o.model)
						}
					}
				}
			}
			if *dump != "" {
				for _, p := range append(append([]*Problem{}, j.probs...), j.groups...) {
					if contains(p.name, *dump) {
						g := "(not goal_0)"
						if p.cover {
							g = "goal_0"
						}
						os.WriteFile("/tmp/dump.smt2", []byte(p.text(g)+"(get-model)\n"), 0o644)
					}
				}
			}
			fmt.Println("  assumed:", keys(j.res.ex.assumed), "inlined:", keys(j.res.ex.inlined), "ext:", keys(j.res.ex.externals), "contracts:", keys(j.res.ex.contractsUsed))
		}
	}
	fmt.Printf("total %.1fs, failures %d\n", time.Since(t0).Seconds(), bad)
	if bad > 0 {
		return 1
	}
	return 0
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func contains(a, b string) bool {
	for i := 0; i+len(b) <= len(a); i++ {
		if a[i:i+len(b)] == b {
			return true
		}
	}
	return false
}


// buildAll makes the solver jobs of a contract (one per case of its split).
func (pg *Program) buildAll(c *Contract, want func(*Obl) bool, prop string) []*Job {
	fn := pg.funcs[c.Key]
	if fn == nil && c.Optional {
		return nil // an internal helper: whoever needs it is verified with what replaced it
	}
	if fn == nil {
		return []*Job{{res: &FuncResult{c: c, ex: &Exec{}}, err: "contract does not fit the code: there is no function " + c.Key}}
	}
	if c.Split == nil {
		return []*Job{pg.buildJob(pg.verifyCase(c, fn, -1), want)}
	}
	var out []*Job
	for k, v := range c.SplitVals {
		if some := c.SplitIn[prop]; some != nil && !hasTag(some, v) {
			continue
		}
		out = append(out, pg.buildJob(pg.verifyCase(c, fn, k), want))
	}
	return out
}
