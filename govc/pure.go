package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Pure evaluation of specification code: one pass over the acyclic control
// flow graph, merging values at joins. Nothing forks and no solver is needed.

type pureFrame struct {
	fr *Frame
}

func topo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]int{}
	var out []*ssa.BasicBlock
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		seen[b] = 1
		for _, s := range b.Succs {
			switch seen[s] {
			case 0:
				rec(s)
			case 1:
				panic(unsupported("loop in specification code: " + fn.String()))
			}
		}
		seen[b] = 2
		out = append(out, b)
	}
	rec(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (x *Exec) evalPure(st *State, fn *ssa.Function, args, bindings []Value) []Value {
	if len(fn.Blocks) == 0 {
		panic(unsupported("specification calls bodyless " + fn.String()))
	}
	x.pureDepth++
	defer func() { x.pureDepth-- }()
	if x.pureDepth > 80 {
		panic(unsupported("specification recursion: " + fn.String()))
	}
	x.budget()
	outer := st.guard
	if outer == nil {
		outer = tTrue
	}
	savedSpec := st.spec
	st.spec = true
	x.inSpec++
	defer func() { st.guard = outer; st.spec = savedSpec; x.inSpec-- }()
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, bindings: bindings}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bindings[i]
	}
	type edge struct{ from, to *ssa.BasicBlock }
	eg := map[edge]*Term{}
	bg := map[*ssa.BasicBlock]*Term{fn.Blocks[0]: tTrue}
	rt := fn.Signature.Results()
	var res []Value
	resG := tFalse
	for _, b := range topo(fn) {
		var g *Term
		if b == fn.Blocks[0] {
			g = tTrue
		} else {
			var gs []*Term
			for _, p := range b.Preds {
				if e, ok := eg[edge{p, b}]; ok {
					gs = append(gs, e)
				}
			}
			g = Or(gs...)
			g = simplifyJoin(gs, g)
		}
		if g.isFalse() {
			continue
		}
		bg[b] = g
		st.guard = And(outer, g)
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				var v Value
				var first = true
				for i, p := range b.Preds {
					e, ok := eg[edge{p, b}]
					if !ok || e.isFalse() {
						continue
					}
					ev := x.val(fr, in.Edges[i])
					if first {
						v, first = ev, false
					} else {
						v = mergeValues(e, ev, v, in.Type())
					}
				}
				fr.env[in] = v
			case *ssa.Jump:
				setEdge(eg, edge{b, b.Succs[0]}, g)
			case *ssa.If:
				c := x.val(fr, in.Cond).(*Term)
				if v, ok := st.known(c); ok {
					c = BoolT(v)
				}
				if b.Succs[0] == b.Succs[1] {
					setEdge(eg, edge{b, b.Succs[0]}, g)
				} else {
					setEdge(eg, edge{b, b.Succs[0]}, And(g, c))
					setEdge(eg, edge{b, b.Succs[1]}, And(g, Not(c)))
				}
			case *ssa.Return:
				var vs []Value
				for _, r := range in.Results {
					vs = append(vs, x.val(fr, r))
				}
				if resG.isFalse() {
					res = vs
				} else {
					for i := range vs {
						res[i] = mergeValues(g, vs[i], res[i], rt.At(i).Type())
					}
				}
				resG = Or(resG, g)
			case *ssa.Panic:
			case *ssa.RunDefers:
			case *ssa.Call:
				outs := x.doCall(fr, st, &in.Call, in.Pos(), false)
				var vals []Value
				got := false
				for _, o := range outs {
					if o.kind == oRet {
						if got {
							panic(unsupported("branching call in specification: " + in.String()))
						}
						vals, got = o.vals, true
					}
				}
				if !got {
					rv, _ := freshValue("undef", in.Call.Signature().Results(), st.alloc)
					vals = rv.(TupleV)
				}
				if _, ok := in.Type().(*types.Tuple); ok {
					fr.env[in] = TupleV(vals)
				} else {
					fr.env[in] = vals[0]
				}
			default:
				if _, ok := in.(*ssa.Defer); ok {
					continue
				}
				x.step(fr, st, in)
			}
		}
	}
	if resG.isFalse() && rt.Len() > 0 {
		rv, _ := freshValue("undef", rt, st.alloc)
		return rv.(TupleV)
	}
	// where the code would have panicked the value is unspecified
	if !resG.isTrue() && rt.Len() > 0 && hasPanic(fn) {
		und, _ := freshValue("undef", rt, st.alloc)
		for i := range res {
			res[i] = mergeValues(resG, res[i], und.(TupleV)[i], rt.At(i).Type())
		}
	}
	return res
}

func setEdge[K comparable](m map[K]*Term, k K, g *Term) {
	if o, ok := m[k]; ok {
		g = Or(o, g)
	}
	m[k] = g
}

func hasPanic(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Panic); ok {
				return true
			}
		}
	}
	return false
}

// simplifyJoin: (g & c) | (g & !c) = g
func simplifyJoin(gs []*Term, g *Term) *Term {
	for {
		if len(gs) < 2 {
			return g
		}
		merged := false
	outer:
		for i := 0; i < len(gs); i++ {
			for j := 0; j < len(gs); j++ {
				if i == j {
					continue
				}
				if m := mergeGuards(gs[i], gs[j]); m != nil {
					var rest []*Term
					for k := range gs {
						if k != i && k != j {
							rest = append(rest, gs[k])
						}
					}
					gs = append(rest, m)
					merged = true
					break outer
				}
			}
		}
		if !merged {
			return Or(gs...)
		}
		if len(gs) == 1 {
			return gs[0]
		}
	}
}

func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

func mergeGuards(a, b *Term) *Term {
	if a == b || a.isTrue() {
		return a
	}
	if b.isTrue() {
		return b
	}
	ca, cb := conj(a), conj(b)
	if len(ca) > len(cb) {
		ca, cb = cb, ca
	}
	// common prefix
	n := 0
	for n < len(ca) && ca[n] == cb[n] {
		n++
	}
	if n == len(ca) { // ca subset of cb
		return And(ca...)
	}
	if len(ca) == len(cb) && n == len(ca)-1 && ca[n] == Not(cb[n]) {
		return And(ca[:n]...)
	}
	if n == len(ca)-1 {
		// p & c  |  p & !c & d  = p & (c | d)
		if ca[n] == Not(cb[n]) {
			return nil
		}
	}
	return nil
}

// evalClause evaluates a specification function to a boolean term. Facts
// discovered on the way are added to st.
func (x *Exec) evalClause(st, old *State, c *Clause, args, rets []Value) *Term {
	v := x.evalClauseV(st, old, c, args, rets)
	if len(v) == 0 {
		return tTrue
	}
	return v[0].(*Term)
}

func (x *Exec) evalClauseV(st, old *State, c *Clause, args, rets []Value) []Value {
	all := append(append([]Value{}, args...), rets...)
	np := len(c.Fn.Params)
	if len(all) < np {
		panic(unsupported(fmt.Sprintf("specification %s takes %d values, %d available", c.Fn.Name(), np, len(all))))
	}
	all = all[:np]
	for i, p := range c.Fn.Params {
		all[i] = x.coerce(st, all[i], p.Type())
	}
	return x.evalSpecFn(st, old, c.Fn, all)
}

// coerce adapts a value to a specification parameter: a concrete receiver
// becomes an interface value and back.
func (x *Exec) coerce(st *State, v Value, t types.Type) Value {
	if isIface(t) {
		switch w := v.(type) {
		case *PtrV:
			if _, ok := ifaceByType[typeKey(types.NewPointer(w.typ))]; ok {
				return x.makeIface(st, w, types.NewPointer(w.typ))
			}
		case *StructV:
			return x.makeIface(st, w, w.typ)
		}
		return v
	}
	if tm, ok := v.(*Term); ok && tm.sort == ifaceDT.Sort {
		if c, ok := ifaceByType[typeKey(t)]; ok {
			return fromTerm(c.Sel(0, tm), t)
		}
	}
	return v
}

func (x *Exec) evalSpecFn(st, old *State, fn *ssa.Function, args []Value) []Value {
	s := st.fork()
	s.spec = true
	s.guard = tTrue
	s.entry = old
	s.events = st.events
	n := len(s.pc)
	v := x.evalPure(s, fn, args, nil)
	st.assume(s.pc[n:]...)
	st.unf = s.unf
	return v
}

// evalAt evaluates a closure in another state
func (x *Exec) evalAt(st, other *State, f *FuncV, args []Value) []Value {
	s := other.fork()
	s.spec = true
	s.guard = st.guard
	s.entry = st.entry
	s.pc = st.pc[:len(st.pc):len(st.pc)]
	n := len(s.pc)
	s.unf = st.unf
	v := x.evalPure(s, f.fn, args, f.bindings)
	st.assume(s.pc[n:]...)
	st.unf = s.unf
	return v
}

// ---- recursive specification functions

func (x *Exec) recCall(st *State, fn *ssa.Function, args []Value) Value {
	var ts []*Term
	for i, p := range fn.Params {
		ts = append(ts, toTerm(x.coerce(st, args[i], p.Type()), p.Type()))
	}
	rt := fn.Signature.Results().At(0).Type()
	u := UF("rec."+fnName(fn), sortOf(rt), ts...)
	if u.bound && x.eng.recGeneral[fn] && x.recFuel > 0 && !ts[0].bound {
		x.recGeneral(st, fn, ts, rt)
	}
	if u.bound || x.recFuel == 0 || st.unf.has(u.id) || (st.guard != nil && st.guard.bound) {
		return fromTerm(u, rt)
	}
	// an argument of unknown dynamic type is not unfolded, but for nil
	onlyNil := false
	if len(ts) > 0 && ts[0].sort == ifaceDT.Sort && ts[0].op != "ctor" {
		onlyNil = true
		for _, c := range ifaceDT.Ctors {
			if k, ok := st.known(c.Is(ts[0])); ok && k && c != ifaceOther {
				ts[0] = c.Mk(selAll(c, ts[0])...)
				u2 := UF("rec."+fnName(fn), sortOf(rt), ts...)
				st.assume(Same(u, u2))
				u, onlyNil = u2, false
				break
			}
		}
	}
	if !onlyNil && (x.recDepth[fn] >= x.recFuel || st.unf.has(u.id)) {
		return fromTerm(u, rt)
	}
	st.unf = &unfList{id: u.id, next: st.unf}
	if onlyNil {
		st.unf.fn, st.unf.ts = fn, ts
	}
	uts := ts
	if onlyNil {
		uts = append([]*Term{ifaceNil.Mk()}, ts[1:]...)
	}
	x.recDepth[fn]++
	base := st
	if x.recState != nil {
		base = x.recState
	}
	save := x.rlog
	x.rlog = x.recReads
	s := base.fork()
	s.spec = true
	s.guard = tTrue
	s.entry = base
	s.unf = st.unf
	s.pc = append(base.pc[:len(base.pc):len(base.pc)], st.pc...)
	n := len(s.pc)
	var cargs []Value
	for i, p := range fn.Params {
		cargs = append(cargs, fromTerm(uts[i], p.Type()))
	}
	v := x.evalPure(s, fn, cargs, nil)
	x.rlog = save
	x.recDepth[fn]--
	st.assume(s.pc[n:]...)
	st.unf = s.unf
	if onlyNil {
		st.assume(Implies(ifaceNil.Is(ts[0]), Same(u, toTerm(v[0], rt))))
	} else {
		st.assume(Same(u, toTerm(v[0], rt)))
	}
	return fromTerm(u, rt)
}

// narrow unfolds the applications to a value whose dynamic type a branch just
// established
func (x *Exec) narrow(st *State, cond *Term) {
	if cond.op != "is" || st.spec || st.guard != nil {
		return
	}
	v := cond.args[0]
	for l := st.unf; l != nil; l = l.next {
		if l.fn == nil || l.ts[0] != v {
			continue
		}
		for _, c := range ifaceDT.Ctors {
			if k, ok := st.known(c.Is(v)); ok && k && c != ifaceOther && c != ifaceNil {
				ts := append([]*Term{c.Mk(selAll(c, v)...)}, l.ts[1:]...)
				rt := l.fn.Signature.Results().At(0).Type()
				st.assume(Same(UF("rec."+fnName(l.fn), sortOf(rt), l.ts...), UF("rec."+fnName(l.fn), sortOf(rt), ts...)))
				var args []Value
				for i, p := range l.fn.Params {
					args = append(args, fromTerm(ts[i], p.Type()))
				}
				x.recCall(st, l.fn, args)
				break
			}
		}
	}
}

// recGeneral assumes the definition of a function for a given first argument
// and all values of the others
func (x *Exec) recGeneral(st *State, fn *ssa.Function, ts []*Term, rt types.Type) {
	key := UF("general."+fnName(fn), Bool, ts[0])
	if st.unf.has(key.id) || x.recDepth[fn] >= x.recFuel {
		return
	}
	st.unf = &unfList{id: key.id, next: st.unf}
	bs := []*Term{}
	args := []*Term{ts[0]}
	for _, t := range ts[1:] {
		b := BoundVar(t.sort)
		bs, args = append(bs, b), append(args, b)
	}
	x.recDepth[fn]++
	base := st
	if x.recState != nil {
		base = x.recState
	}
	save := x.rlog
	x.rlog = x.recReads
	s := base.fork()
	s.spec = true
	s.guard = tTrue
	s.entry = base
	s.unf = st.unf
	s.pc = append(base.pc[:len(base.pc):len(base.pc)], st.pc...)
	n := len(s.pc)
	var cargs []Value
	for i, p := range fn.Params {
		cargs = append(cargs, fromTerm(args[i], p.Type()))
	}
	v := x.evalPure(s, fn, cargs, nil)
	x.rlog = save
	x.recDepth[fn]--
	for _, t := range s.pc[n:] {
		if !t.bound {
			st.assume(t)
		}
	}
	st.unf = s.unf
	st.assume(Forall(bs, Same(UF("rec."+fnName(fn), sortOf(rt), args...), toTerm(v[0], rt))))
}

func selAll(c *Ctor, t *Term) []*Term {
	var as []*Term
	for i := range c.Args {
		as = append(as, c.Sel(i, t))
	}
	return as
}
