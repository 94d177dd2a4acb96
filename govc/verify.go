package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func NewExec(e *Eng, c *Contract) *Exec {
	x := &Exec{eng: e, sol: NewSolver(), target: c, assume: map[string]bool{}, used: map[string]bool{}, inl: map[string]bool{},
		recReads: map[string]bool{}, recFuel: 1, recDepth: map[*ssa.Function]int{}}
	if c != nil {
		if f, ok := c.Attrs["fuel"]; ok && f != "" {
			x.recFuel = int(f[0] - '0')
		}
	}
	x.setLimits(120, 2000, 12000)
	return x
}

func (x *Exec) setLimits(sec, branchMS, oblMS int) {
	x.end = time.Now().Add(time.Duration(sec) * time.Second)
	x.branchTO, x.oblTO = branchMS, oblMS
	x.invTO = 4000
	if x.recReads == nil {
		x.recReads = map[string]bool{}
	}
}

func (x *Exec) checkT(st *State, ms int, extra ...*Term) Result {
	if time.Now().After(x.end) {
		return Unknown
	}
	ts := append(append([]*Term{}, st.pc...), extra...)
	gil.Unlock()
	defer gil.Lock()
	return x.sol.Check(ts, ms, false)
}

func (x *Exec) targetName() string {
	if x.target == nil {
		return "?"
	}
	return x.target.Target
}

func (x *Exec) targetProps() []string {
	if x.target == nil {
		return nil
	}
	var ps []string
	seen := map[string]bool{}
	for _, c := range x.target.all() {
		for _, p := range c.Props {
			if !seen[p] {
				seen[p] = true
				ps = append(ps, p)
			}
		}
	}
	return ps
}

// oblige records a proof obligation and discharges it
func (x *Exec) oblige(st *State, kind, name string, props []string, goal *Term) bool {
	if x.dry > 0 || st.spec || x.inSpec > 0 {
		return true
	}
	o := &Obl{Name: name, Kind: kind, Props: props, Func: x.targetName()}
	x.obls = append(x.obls, o)
	if len(props) == 0 {
		o.Props = x.targetProps()
	}
	if goal.isTrue() {
		o.Result, o.Backend = "proved", "simplifier"
		return true
	}
	if v, ok := st.known(goal); ok && v {
		o.Result, o.Backend = "proved", "simplifier"
		return true
	}
	if x.failedN[name] >= 4 {
		o.Result, o.Detail = "failed", "not attempted: the same obligation already failed on other paths"
		return false
	}
	t0 := time.Now()
	// conjunctions are proved part by part
	parts := []*Term{goal}
	if goal.op == "and" {
		parts = goal.args
	}
	cv := x.sol.ByCvc5
	for _, p := range parts {
		if v, ok := st.known(p); ok && v {
			continue
		}
		ts := append(append([]*Term{}, st.pc...), Not(p))
		gil.Unlock()
		r := x.sol.Check(ts, x.oblTO, true)
		gil.Lock()
		if r == Unsat && crossCheck {
			gil.Unlock()
			r = x.sol.Cross(ts)
			gil.Lock()
		}
		if r != Unsat {
			if x.failedN == nil {
				x.failedN = map[string]int{}
			}
			x.failedN[name]++
			o.Result = "failed"
			o.Detail = fmt.Sprintf("solver answered %s\nfalse part: %s\npath: %s\ngoal: %s", r, x.explain(ts, p, 0), strings.Join(st.notes, " "), trunc(p.String(), 3000))
			if dumpDir != "" {
				os.WriteFile(fmt.Sprintf("%s/fail-%s.smt2", dumpDir, sanitize(name)), []byte(script(ts, solverAxioms)+"(check-sat)\n(get-model)\n"), 0644)
			}
			o.Millis = time.Since(t0).Milliseconds()
			return false
		}
	}
	o.Result = "proved"
	o.Backend = "z3"
	if x.sol.ByCvc5 > cv {
		o.Backend = "cvc5"
	}
	o.Millis = time.Since(t0).Milliseconds()
	return true
}

// explain walks into an undischarged goal to the parts that can be false
func (x *Exec) explain(ts []*Term, g *Term, depth int) string {
	chk := func(c *Term) bool {
		gil.Unlock()
		r := x.sol.Check(append(ts[:len(ts):len(ts)], c), 2000, false)
		gil.Lock()
		return r != Unsat
	}
	if depth > 25 {
		return g.String()
	}
	switch g.op {
	case "and":
		for _, c := range g.args {
			if chk(Not(c)) {
				return x.explain(append(ts[:len(ts):len(ts)], Not(c)), c, depth+1)
			}
		}
	case "or":
		var out []string
		for _, c := range g.args {
			out = append(out, x.explain(ts, c, depth+5))
			if len(out) > 4 {
				break
			}
		}
		return "(or " + strings.Join(out, " ") + ")"
	case "ite":
		if chk(g.args[0]) {
			return "[" + trunc(g.args[0].String(), 300) + "] " + x.explain(append(ts[:len(ts):len(ts)], g.args[0]), g.args[1], depth+1)
		}
		return x.explain(ts, g.args[2], depth+1)
	case "not":
		a := g.args[0]
		switch a.op {
		case "and":
			var ns []*Term
			for _, c := range a.args {
				ns = append(ns, Not(c))
			}
			return x.explain(ts, mk("or", "", Bool, ns, nil, nil), depth+1)
		case "or":
			var ns []*Term
			for _, c := range a.args {
				ns = append(ns, Not(c))
			}
			return x.explain(ts, mk("and", "", Bool, ns, nil, nil), depth+1)
		}
	}
	return trunc(g.String(), 600)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (x *Exec) fail(kind, name, detail string) {
	x.obls = append(x.obls, &Obl{Name: name, Kind: kind, Func: x.targetName(), Props: x.targetProps(), Result: "failed", Detail: detail})
}

// VerifyFn checks one function body against its contract. For interface
// contracts fn is one implementation.
func (x *Exec) VerifyFn(c *Contract, fn *ssa.Function) {
	name := c.Target
	if c.IMethod {
		name = fnName(fn)
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				x.fail("unsupported", name+"/supported", "outside the verified subset: "+u.msg)
				return
			}
			panic(r)
		}
	}()
	gil.Lock()
	defer gil.Unlock()
	st := NewState()
	var args []Value
	for _, p := range fn.Params {
		v, facts := freshValue("arg."+p.Name(), p.Type(), Age{0, 0})
		st.assume(facts...)
		x.argFacts(st, v, p.Type())
		args = append(args, v)
	}
	if fn.Signature.Recv() != nil {
		if p, ok := args[0].(*PtrV); ok && !c.has("nilrecv") {
			st.assume(Gt(p.ref, IntT(0)))
		}
	}
	var binds []Value
	for _, fv := range fn.FreeVars {
		v, facts := freshValue("fv."+fv.Name(), fv.Type(), Age{0, 0})
		st.assume(facts...)
		if p, ok := v.(*PtrV); ok {
			st.assume(Gt(p.ref, IntT(0)))
		}
		binds = append(binds, v)
	}
	specArgs := append([]Value{}, args...)
	specArgs = append(specArgs, binds...)
	if c.IMethod {
		specArgs[0] = x.coerceRecv(st, args[0], fn)
	}
	x.topArgs = specArgs
	entry := st.fork()
	x.topEntry = entry
	x.recState = entry
	st.entry = entry
	for _, r := range c.Requires {
		t := x.evalClause(st, entry, r, specArgs, nil)
		st.assume(t)
	}
	entry = st.fork()
	x.topEntry, x.recState, st.entry = entry, entry, entry
	if r := x.check(st); r == Unsat {
		x.fail("vacuity", name+"/requires-satisfiable", "the precondition is contradictory")
		return
	}
	var outs []Outcome
	if c.Lemma {
		outs = x.callFn(st, fn, args, binds, nil)
	} else {
		outs = x.callFn(st, fn, args, binds, nil)
	}
	nret := 0
	for _, o := range outs {
		switch o.kind {
		case oRet:
			nret++
			x.finish(c, name, fn, entry, o, specArgs)
		case oPanic:
			x.panicked(c, name, fn, entry, o, specArgs)
		}
	}
	if nret == 0 && !c.has("noreturn") && len(outs) > 0 {
		ext := false
		for _, o := range outs {
			if o.kind == oPanic {
				ext = true
			}
		}
		if !ext || len(c.Panics) == 0 {
			x.fail("vacuity", name+"/returns", "no path of the function returns")
		}
	}
	if len(c.Iters) > 0 && x.iters == 0 {
		x.fail("vacuity", name+"/iterates", "the function has no loop for its per-iteration clauses")
	}
	x.paths = len(outs)
	x.retN = nret
}

func (x *Exec) coerceRecv(st *State, v Value, fn *ssa.Function) Value {
	rt := fn.Signature.Recv().Type()
	if _, ok := ifaceByType[typeKey(rt)]; ok {
		return x.makeIface(st, v, rt)
	}
	// value receiver: seen through the pointer type held in interfaces
	panic(unsupported("receiver type " + typeKey(rt)))
}

func (x *Exec) argFacts(st *State, v Value, t types.Type) {
	if isIface(t) {
		tm := v.(*Term)
		if c, ok := x.eng.contracts["iface:"+typeKey(t)]; ok && c.has("closed") {
			cs := append(x.implCtors(t), ifaceNil)
			st.assume(x.oneOf(tm, cs))
		} else if it := under(t).(*types.Interface); it.NumMethods() > 0 {
			// the dynamic type implements the interface
			var or []*Term
			or = append(or, ifaceNil.Is(tm), ifaceOther.Is(tm))
			for _, c := range ifaceDT.Ctors {
				if ty, ok := ifaceType[c.Name]; ok && types.Implements(ty, it) {
					or = append(or, c.Is(tm))
				}
			}
			st.assume(Or(or...))
		}
	}
}

func (x *Exec) finish(c *Contract, name string, fn *ssa.Function, entry *State, o Outcome, args []Value) {
	st := o.st
	st.entry = entry
	rets := o.vals
	for _, i := range c.Fresh {
		t := toTerm(rets[i], fn.Signature.Results().At(i).Type())
		if t.sort == sliceDT.Sort {
			t = sliceC.Sel(0, t)
		}
		x.oblige(st, "fresh", name+"/fresh", nil, Gt(t, allocTerm(entry.alloc)))
	}
	for _, e := range c.Ensures {
		if _, ok := e.Attrs["label"]; ok {
			continue // gives new storage its ghost labels
		}
		if c.Lemma {
			continue
		}
		s := st.fork()
		t := x.evalClause(s, entry, e, args, rets)
		x.oblige(s, "ensures", name+"/"+e.Name, e.Props, t)
	}
	if len(c.Panics) > 0 {
		s := st.fork()
		for _, p := range c.Panics {
			if _, ok := p.Attrs["may"]; ok {
				continue
			}
			t := x.evalClause(s, entry, p, args, []Value{})
			x.oblige(s, "panics", name+"/"+p.Name+"-must-panic", p.Props, Not(t))
		}
	}
	x.frame(c, name, entry, st, args)
}

func (x *Exec) panicked(c *Contract, name string, fn *ssa.Function, entry *State, o Outcome, args []Value) {
	st := o.st
	st.entry = entry
	if o.ext {
		for _, p := range c.OnPanic {
			if _, own := p.Attrs["own"]; own {
				continue
			}
			s := st.fork()
			t := x.evalClause(s, entry, p, args, []Value{o.pv})
			x.oblige(s, "onpanic", name+"/"+p.Name, p.Props, t)
		}
		return
	}
	if len(c.Panics) > 0 {
		s := st.fork()
		var any []*Term
		for _, p := range c.Panics {
			any = append(any, x.evalClause(s, entry, p, args, []Value{o.pv}))
		}
		x.oblige(s, "panics", name+"/"+c.Panics[0].Name, c.Panics[0].Props, Or(any...))
		for _, p := range c.OnPanic {
			if _, own := p.Attrs["own"]; own {
				s := st.fork()
				t := x.evalClause(s, entry, p, args, []Value{o.pv})
				x.oblige(s, "onpanic", name+"/"+p.Name, p.Props, t)
			}
		}
		return
	}
	if c.has("maypanic") {
		return
	}
	x.oblige(st, "safety", name+"/no-panic", nil, tFalse)
	if n := len(x.obls); n > 0 && x.obls[n-1].Result == "failed" {
		x.obls[n-1].Detail += "\npanic: " + o.why
	}
}

// frame: everything written existed not at entry or is listed by the contract
func (x *Exec) frame(c *Contract, name string, entry, st *State, args []Value) {
	frozen := x.recReads
	mustFrame := x.useContract(c) && !c.Lemma && !c.has("noframe")
	if !mustFrame && len(frozen) == 0 {
		return
	}
	var ms *modSet
	if mustFrame {
		ms = x.evalMods(entry.fork(), c, args)
	}
	for _, key := range sortedKeys(st.heaps) {
		if !mustFrame && !frozen[key] {
			continue
		}
		for n := st.heaps[key]; n != nil && n != entry.heaps[key] && n.kind != hBase; n = n.parent {
			var refs []*Term
			if n.kind == hStore {
				refs = []*Term{n.ref}
			} else {
				refs = n.refs
				if n.all {
					x.oblige(st, "frame", name+"/frame", nil, tFalse)
					continue
				}
			}
			for _, r := range refs {
				if l, ok := lowAge(r); ok && entry.alloc.le(l) {
					continue
				}
				ok := []*Term{Gt(r, allocTerm(entry.alloc)), Eq(r, IntT(0))}
				if ms != nil {
					if mc := ms.cells[key]; mc != nil {
						for _, m := range mc.refs {
							ok = append(ok, Eq(r, m))
						}
					}
				}
				x.obligeFrame(st, name, key, Or(ok...))
			}
		}
	}
}

func (x *Exec) obligeFrame(st *State, name, key string, t *Term) {
	x.oblige(st, "frame", name+"/frame", nil, t)
	if n := len(x.obls); n > 0 && x.obls[n-1].Result == "failed" {
		x.obls[n-1].Detail = "writes to " + key + " outside its frame\n" + x.obls[n-1].Detail
	}
}
