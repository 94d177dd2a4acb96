package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type job struct {
	c  *Contract
	fn *ssa.Function
}

type Report struct {
	Property    string            `json:"property"`
	Obligations int               `json:"obligations"`
	Discharged  int               `json:"discharged"`
	Named       int               `json:"named_obligations"`
	ByBackend   map[string]int    `json:"by_backend"`
	ByKind      map[string]int    `json:"by_kind"`
	Functions   []string          `json:"functions_under_contract"`
	Inlined     []string          `json:"functions_inlined"`
	Assumptions []string          `json:"assumptions"`
	Failed      []*Obl            `json:"failed"`
	Agreed      int64             `json:"second_solver_agreed"`
	Silent      int64             `json:"second_solver_no_answer"`
	Disagreed   int64             `json:"second_solver_disagreed"`
	SolverMS    int64             `json:"solver_ms"`
	Queries     int64             `json:"solver_queries"`
	WallMS      int64             `json:"wall_ms"`
	Slowest     []string          `json:"slowest"`
	Invariants  int               `json:"loop_invariants"`
	BadSpecs    []string          `json:"bad_specs"`
	Missing     []string          `json:"missing_targets"`
	Rename      map[string]string `json:"-"`
}

func hasProp(ps []string, p string) bool {
	for _, q := range ps {
		if q == p {
			return true
		}
	}
	return false
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	spec := flag.String("spec", "/verif/specs", "specifications")
	prop := flag.String("prop", "", "property id")
	target := flag.String("target", "", "only this contract")
	impl := flag.String("impl", "", "with -target: only implementations whose name contains this")
	out := flag.String("out", "", "write a JSON report here")
	pats := flag.String("pkgs", "./...", "package patterns")
	verbose := flag.Bool("v", false, "print every obligation")
	list := flag.Bool("list", false, "list contracts")
	dump := flag.String("dump", "", "directory for slow or failed queries")
	secs := flag.Int("sec", 300, "time budget per function")
	prof := flag.String("cpuprofile", "", "")
	thorough := flag.Bool("thorough", false, "longer solver limits, and ask the second solver about every obligation")
	flag.Parse()
	crossCheck = *thorough
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	dumpDir = *dump
	t0 := time.Now()
	e, err := LoadEng(*repo, *spec, strings.Fields(*pats))
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	if *list {
		for _, t := range sortedKeys(e.contracts) {
			fmt.Println(t)
		}
		fmt.Println("missing", e.missing, "bad", e.badSpecs, "ctors", len(ifaceDT.Ctors))
		return
	}
	curProp = *prop
	rep := &Report{Property: *prop, ByBackend: map[string]int{}, ByKind: map[string]int{}, BadSpecs: e.badSpecs}
	var queue []*Contract
	queued := map[string]bool{}
	push := func(c *Contract) {
		if c != nil && !queued[c.Target] {
			queued[c.Target] = true
			queue = append(queue, c)
		}
	}
	for _, t := range sortedKeys(e.contracts) {
		c := e.contracts[t]
		if *target != "" {
			if t == *target {
				push(c)
			}
			continue
		}
		for _, cl := range c.all() {
			if hasProp(cl.Props, *prop) {
				push(c)
			}
		}
	}
	for _, m := range e.missing {
		for _, cl := range e.contracts[m].all() {
			if hasProp(cl.Props, *prop) || *target == m {
				rep.Missing = append(rep.Missing, m)
				break
			}
		}
	}
	var mu sync.Mutex
	assume := map[string]bool{}
	inl := map[string]bool{}
	fns := map[string]bool{}
	var obls []*Obl
	sem := make(chan struct{}, runtime.NumCPU())
	for len(queue) > 0 {
		batch := queue
		queue = nil
		var jobs []job
		for _, c := range batch {
			switch {
			case c.Fn != nil:
				if c.has("trusted") {
					assume["trusted contract: "+c.Target] = true
					continue
				}
				jobs = append(jobs, job{c, c.Fn})
			case c.IMethod:
				for _, f := range c.Impls {
					if *impl != "" && !strings.Contains(fnName(f), *impl) {
						continue
					}
					jobs = append(jobs, job{c, f})
				}
			}
		}
		var wg sync.WaitGroup
		usedAll := map[string]bool{}
		for _, j := range jobs {
			j := j
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				x := NewExec(e, j.c)
				x.setLimits(*secs, 500, 12000)
				if *thorough {
					x.setLimits(*secs, 5000, 60000)
				}
				ts := time.Now()
				x.VerifyFn(j.c, j.fn)
				x.sol.Close()
				mu.Lock()
				defer mu.Unlock()
				name := fnName(j.fn)
				fns[name] = true
				for k := range x.assume {
					assume[k] = true
				}
				for k := range x.inl {
					inl[k] = true
				}
				for k := range x.used {
					usedAll[k] = true
				}
				obls = append(obls, x.obls...)
				rep.Invariants += x.invs
				if *verbose || *target != "" {
					ok, bad := 0, 0
					for _, o := range x.obls {
						if o.Result == "proved" {
							ok++
						} else {
							bad++
						}
					}
					fmt.Printf("%-60s paths=%d returns=%d proved=%d failed=%d queries=%d %v\n", name, x.paths, x.retN, ok, bad, x.sol.Queries, time.Since(ts).Round(time.Millisecond))
				}
			}()
		}
		wg.Wait()
		for _, t := range sortedKeys(usedAll) {
			if c := e.contracts[t]; c != nil && !c.Lemma && *target == "" {
				push(c)
			}
		}
	}
	named := map[string]bool{}
	var slow []*Obl
	for _, o := range obls {
		rep.Obligations++
		named[o.Name] = true
		rep.ByKind[o.Kind]++
		slow = append(slow, o)
		if o.Result == "proved" {
			rep.Discharged++
			rep.ByBackend[o.Backend]++
		} else {
			rep.Failed = append(rep.Failed, o)
		}
		if *verbose {
			fmt.Printf("  %-8s %-10s %s %dms\n", o.Result, o.Kind, o.Name, o.Millis)
		}
	}
	sort.Slice(slow, func(i, j int) bool { return slow[i].Millis > slow[j].Millis })
	for i := 0; i < len(slow) && i < 5; i++ {
		rep.Slowest = append(rep.Slowest, fmt.Sprintf("%s %dms", slow[i].Name, slow[i].Millis))
	}
	rep.Named = len(named)
	rep.Functions = sortedKeys(fns)
	rep.Inlined = sortedKeys(inl)
	rep.Assumptions = sortedKeys(assume)
	rep.SolverMS = totalSolverNS / 1e6
	rep.Queries = totalQueries
	rep.Agreed, rep.Silent, rep.Disagreed = crossAgreed, crossSilent, crossDisagreed
	rep.WallMS = time.Since(t0).Milliseconds()
	sort.Slice(rep.Failed, func(i, j int) bool { return rep.Failed[i].Name < rep.Failed[j].Name })
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0644)
	}
	fmt.Printf("property=%s obligations=%d discharged=%d failed=%d functions=%d queries=%d wall=%dms\n", *prop, rep.Obligations, rep.Discharged, len(rep.Failed), len(rep.Functions), rep.Queries, rep.WallMS)
	for _, b := range rep.BadSpecs {
		fmt.Println("BAD SPEC", b)
	}
	seen := map[string]int{}
	for _, o := range rep.Failed {
		seen[o.Name]++
		if seen[o.Name] <= 2 {
			fmt.Printf("FAILED %s [%s]\n    %s\n", o.Name, o.Kind, strings.ReplaceAll(trunc(o.Detail, 1500), "\n", "\n    "))
		}
	}
	if len(rep.Failed) > 0 || rep.Obligations == 0 || len(rep.Missing) > 0 {
		os.Exit(1)
	}
}
