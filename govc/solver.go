package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	memo    map[string]Result
	Queries int
	Time    time.Duration
	ByCvc5  int
	dead    bool
	iscMiss int // attempts at instantiated branch queries in a row that gave no answer
	mu      sync.Mutex
	running *os.Process
}

var totalQueries, totalSolverNS, totalCvc5 int64

func NewSolver() *Solver {
	return &Solver{memo: map[string]Result{}}
}

func (s *Solver) start() error {
	s.cmd = exec.Command("z3-new", "-in", "-memory:3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	return s.cmd.Start()
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// script builds a full SMT-LIB script for the conjunction of ts.
func script(ts []*Term, axioms func(syms map[string]*Sym) []*Term) string {
	syms := map[string]*Sym{}
	sorts := map[string]*Sort{}
	refc := map[int]int{}
	terms := map[int]*Term{}
	var addSort func(so *Sort)
	addSort = func(so *Sort) {
		if _, ok := sorts[so.Name]; ok {
			return
		}
		sorts[so.Name] = so
		switch so.Kind {
		case SArray:
			addSort(so.K)
			addSort(so.V)
		case SData:
			for _, c := range dtOf(so.Name).Ctors {
				for _, a := range c.Args {
					addSort(a)
				}
			}
		}
	}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		refc[t.id]++
		if _, ok := terms[t.id]; ok {
			return
		}
		terms[t.id] = t
		addSort(t.sort)
		if t.sym != nil {
			syms[t.sym.Name] = t.sym
			for _, a := range t.sym.Args {
				addSort(a)
			}
		}
		for _, a := range t.args {
			visit(a)
		}
		order = append(order, t)
	}
	for _, t := range ts {
		visit(t)
	}
	if axioms != nil {
		for {
			ax := axioms(syms)
			n := len(syms)
			for _, a := range ax {
				if refc[a.id] == 0 {
					ts = append(ts, a)
					visit(a)
				}
			}
			if len(syms) == n {
				break
			}
		}
	}
	var sb strings.Builder
	// sorts
	var sn []string
	for n := range sorts {
		sn = append(sn, n)
	}
	sort.Strings(sn)
	var dts []*Datatype
	for _, n := range sn {
		so := sorts[n]
		if so.Kind == SUnint {
			fmt.Fprintf(&sb, "(declare-sort %s 0)\n", n)
		}
		if so.Kind == SData {
			dts = append(dts, dtOf(n))
		}
	}
	if len(dts) > 0 {
		sb.WriteString("(declare-datatypes (")
		for _, d := range dts {
			fmt.Fprintf(&sb, "(%s 0)", d.Sort.Name)
		}
		sb.WriteString(") (")
		for _, d := range dts {
			sb.WriteString("(")
			for _, c := range d.Ctors {
				fmt.Fprintf(&sb, "(%s", ctorName(c.Name))
				for i := range c.Args {
					fmt.Fprintf(&sb, " (%s %s)", symName(c.Sels[i]), c.Args[i].Name)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")\n")
		}
		sb.WriteString("))\n")
	}
	var syn []string
	for n := range syms {
		syn = append(syn, n)
	}
	sort.Strings(syn)
	for _, n := range syn {
		y := syms[n]
		var as []string
		for _, a := range y.Args {
			as = append(as, a.Name)
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", symName(n), strings.Join(as, " "), y.Ret.Name)
	}
	names := map[int]string{}
	nn := 0
	for _, t := range order {
		if t.bound || len(t.args) == 0 || refc[t.id] < 2 || t.size < 4 {
			continue
		}
		if t.op == "bv" {
			continue
		}
		nn++
		nm := fmt.Sprintf("t!%d", nn)
		fmt.Fprintf(&sb, "(define-fun %s () %s ", nm, t.sort.Name)
		printTerm(&sb, t, names, 0)
		sb.WriteString(")\n")
		names[t.id] = nm
	}
	for _, t := range ts {
		sb.WriteString("(assert ")
		printTerm(&sb, t, names, 0)
		sb.WriteString(")\n")
	}
	return sb.String()
}

var solverAxioms func(syms map[string]*Sym) []*Term

// Check decides satisfiability of the conjunction.
func (s *Solver) Check(ts []*Term, timeoutMS int, fallback bool) Result {
	for _, t := range ts {
		if t.isFalse() {
			return Unsat
		}
	}
	sc := script(ts, solverAxioms)
	if r, ok := s.memo[sc]; ok && (r != Unknown || !fallback) {
		return r
	}
	t0 := time.Now()
	r := Unknown
	if os.Getenv("GOVC_SLOW") != "" {
		defer func() {
			if d := time.Since(t0); d > time.Second {
				fmt.Fprintf(os.Stderr, "slow %v to=%d fb=%v r=%v last=%.300s\n", d, timeoutMS, fallback, r, ts[len(ts)-1])
			}
		}()
	}
	quant := strings.Contains(sc, "(forall ") || strings.Contains(sc, "(exists ")
	first := timeoutMS
	if fallback && first > 1500 {
		first = 1500
	}
	var isc, fsc string
	if quant {
		// quick attempts: the quantified parts replaced by ground instances, and
		// the solver's own instantiation; for branch decisions that is all
		gil.Lock()
		its := instantiate(ts, 0)
		gil.Unlock()
		if !anyQuant(its) {
			isc = script(its, nil)
		}
		fsc = ""
		if len(isc) > 100000 {
			gil.Lock()
			fts := instantiate(ts, focusRounds)
			gil.Unlock()
			if !anyQuant(fts) {
				fsc = script(fts, nil)
			}
		}
		if fsc != "" && len(fsc) < len(isc)/2 && s.run(fsc, 300, true) == Unsat {
			r = Unsat
		} else if fallback {
			if isc != "" && s.run(isc, first/2, true) == Unsat {
				r = Unsat
			} else if s.run(sc, first/2, false) == Unsat {
				r = Unsat
			}
		} else {
			ri := Unknown
			if isc != "" && s.iscMiss < 6 {
				if ri = s.run(isc, 150, true); ri == Unknown {
					s.iscMiss++
				} else {
					s.iscMiss = 0
				}
			}
			if ri == Unsat {
				r = Unsat
			} else if ri == Unknown && s.run(sc, first, false) == Unsat {
				r = Unsat
			}
		}
	} else {
		r = s.run(sc, first, true)
	}
	if r == Unknown && fallback {
		var by string
		r, by = portfolio(sc, isc, quant, timeoutMS)
		if by == "cvc5" {
			s.ByCvc5++
			atomic.AddInt64(&totalCvc5, 1)
		}
	}
	d := time.Since(t0)
	s.Time += d
	s.Queries++
	atomic.AddInt64(&totalQueries, 1)
	atomic.AddInt64(&totalSolverNS, int64(d))
	s.memo[sc] = r
	if dumpDir != "" && (d > 1500*time.Millisecond || r == Unknown) {
		if isc != "" {
			if fsc != "" {
				os.WriteFile(fmt.Sprintf("%s/f%d.smt2", dumpDir, atomic.LoadInt64(&totalQueries)), []byte(fsc+"(check-sat)\n"), 0644)
			}
			os.WriteFile(fmt.Sprintf("%s/i%d.smt2", dumpDir, atomic.LoadInt64(&totalQueries)), []byte(isc+"(check-sat)\n"), 0644)
		}
		os.WriteFile(fmt.Sprintf("%s/q%d-%s-%d-%v.smt2", dumpDir, atomic.LoadInt64(&totalQueries), r, d.Milliseconds(), fallback), []byte(sc+"(check-sat)\n"), 0644)
	}
	return r
}

var dumpDir string

const focusRounds = 3

func (s *Solver) run(sc string, timeoutMS int, mbqi bool) Result {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown
		}
	}
	q := fmt.Sprintf("(reset)\n(set-option :timeout %d)\n(set-option :smt.random_seed 7)\n(set-option :smt.mbqi %v)\n%s(check-sat)\n(echo \"<done>\")\n", timeoutMS, mbqi, sc)
	s.mu.Lock()
	s.running = s.cmd.Process
	s.mu.Unlock()
	defer func() { s.mu.Lock(); s.running = nil; s.mu.Unlock() }()
	done := make(chan struct{})
	timer := time.AfterFunc(time.Duration(timeoutMS+3000)*time.Millisecond, func() {
		s.cmd.Process.Kill()
	})
	defer timer.Stop()
	go func() {
		io.WriteString(s.in, q)
		close(done)
	}()
	res := Unknown
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.cmd.Process.Kill()
			s.cmd.Wait()
			s.cmd = nil
			<-done
			return Unknown
		}
		line = strings.TrimSpace(line)
		if line == "<done>" || line == "\"<done>\"" {
			break
		}
		switch line {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		case "unknown", "timeout":
			res = Unknown
		default:
			if strings.HasPrefix(line, "(error") {
				fmt.Fprintln(os.Stderr, "solver:", line)
				if dumpDir != "" {
					os.WriteFile(dumpDir+"/error.smt2", []byte(q), 0644)
				}
				res = Unknown
				solverErrors++
			}
		}
	}
	<-done
	return res
}

var solverErrors int

func runCvc5(sc string, timeoutMS int) Result {
	return cvc5(context.Background(), sc, timeoutMS)
}

// slots bounds the solver processes that run at once
var slots = make(chan struct{}, runtime.NumCPU()+2)

// portfolio asks several solvers with several seeds; the first definite answer
// counts. isc is a weakening of sc without quantifiers (or empty), of which
// only "unsat" says something.
func portfolio(sc, isc string, quant bool, timeoutMS int) (Result, string) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type ans struct {
		r  Result
		by string
	}
	type job struct {
		by   string
		weak bool
		f    func() Result
	}
	var jobs []job
	z := func(bin, text string, seed int, mbqi, weak bool) {
		jobs = append(jobs, job{"z3", weak, func() Result { return z3proc(ctx, bin, text, seed, mbqi, timeoutMS) }})
	}
	c := func(text string, weak bool) {
		jobs = append(jobs, job{"cvc5", weak, func() Result { return cvc5(ctx, text, timeoutMS) }})
	}
	if isc != "" {
		c(isc, true)
		z("z3-new", isc, 0, true, true)
		c(sc, false)
		z("z3-new", sc, 7, true, false)
		z("z3-new", isc, 1, true, true)
		z("z3", isc, 0, true, true)
		z("z3-new", sc, 3, false, true)
	} else {
		c(sc, false)
		z("z3-new", sc, 0, true, false)
		z("z3", sc, 0, true, false)
		z("z3-new", sc, 1, true, false)
		z("z3-new", sc, 3, !quant, quant)
	}
	ch := make(chan ans, len(jobs))
	for _, j := range jobs {
		go func(j job) {
			select {
			case slots <- struct{}{}:
			case <-ctx.Done():
				ch <- ans{Unknown, j.by}
				return
			}
			r := j.f()
			<-slots
			if j.weak && r == Sat {
				r = Unknown
			}
			ch <- ans{r, j.by}
		}(j)
	}
	for range jobs {
		if a := <-ch; a.r != Unknown {
			return a.r, a.by
		}
	}
	return Unknown, ""
}

func z3proc(parent context.Context, bin, sc string, seed int, mbqi bool, timeoutMS int) Result {
	ctx, cancel := context.WithTimeout(parent, time.Duration(timeoutMS+1000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-in", "-memory:3000", fmt.Sprintf("-t:%d", timeoutMS))
	cmd.Stdin = strings.NewReader(fmt.Sprintf("(set-option :smt.random_seed %d)\n(set-option :smt.mbqi %v)\n%s(check-sat)\n", seed, mbqi, sc))
	out, _ := cmd.Output()
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "(error"):
			return Unknown
		case l == "sat":
			return Sat
		case l == "unsat":
			return Unsat
		}
	}
	return Unknown
}

func cvc5(parent context.Context, sc string, timeoutMS int) Result {
	ctx, cancel := context.WithTimeout(parent, time.Duration(timeoutMS+1000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, "cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", timeoutMS), "-")
	cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + sc + "(check-sat)\n")
	out, _ := cmd.Output()
	for _, l := range strings.Split(string(out), "\n") {
		switch strings.TrimSpace(l) {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		}
	}
	return Unknown
}

// crossCheck: every query behind a discharged obligation goes to the second
// solver as well; a disagreement counts as not discharged
var crossCheck bool
var crossAgreed, crossSilent, crossDisagreed int64

func (s *Solver) Cross(ts []*Term) Result {
	switch runCvc5(script(ts, solverAxioms), 5000) {
	case Unsat:
		atomic.AddInt64(&crossAgreed, 1)
	case Sat:
		atomic.AddInt64(&crossDisagreed, 1)
		return Unknown
	default:
		atomic.AddInt64(&crossSilent, 1)
	}
	return Unsat
}
