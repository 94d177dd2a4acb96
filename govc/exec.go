package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type okind int

const (
	oRet okind = iota
	oPanic
	oBack
	oExit
)

type Outcome struct {
	kind okind
	st   *State
	vals []Value
	pv   *Term // panic value (Iface)
	ext  bool  // panic raised by unknown code
	why  string
	loop *loopCtx
	fr   *Frame
	from *ssa.BasicBlock
}

type deferred struct {
	instr *ssa.Defer
	call  *ssa.CallCommon
	fn    Value
	args  []Value
}

type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Value
	bindings []Value
	defers   []deferred
	loops    []*loopCtx
	unroll   map[*ssa.BasicBlock]int
	depth    int
	caller   *Frame
	deferFr  bool
}

func (f *Frame) fork() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loops = f.loops[:len(f.loops):len(f.loops)]
	if f.unroll != nil {
		n.unroll = map[*ssa.BasicBlock]int{}
		for k, v := range f.unroll {
			n.unroll[k] = v
		}
	}
	return &n
}

type Obl struct {
	Name    string   `json:"name"`
	Kind    string   `json:"kind"`
	Props   []string `json:"props"`
	Func    string   `json:"func"`
	Result  string   `json:"result"`
	Detail  string   `json:"detail"`
	Millis  int64    `json:"millis"`
	Backend string   `json:"backend"`
}

type Exec struct {
	failedN    map[string]int
	eng        *Eng
	sol        *Solver
	target     *Contract
	obls       []*Obl
	dry        int
	rlog       map[string]bool
	assume     map[string]bool // assumptions used (externals, etc.)
	used       map[string]bool // contracts used at call sites
	inl        map[string]bool // functions inlined
	end        time.Time
	paths      int
	retN       int
	topArgs    []Value
	iters      int // per-iteration clauses evaluated
	entryAlloc Age
	branchTO   int
	oblTO      int
	inSpec     int
	cache      map[string]Value
	loopsCut   int
	invs       int
	invTO      int
	initMode   bool
	initVals   map[*ssa.Global]Value
	inModel    int
	mods       *modSet
	pureDepth  int
	recDepth   map[*ssa.Function]int
	recFuel    int
	recState   *State
	recReads   map[string]bool
	topEntry   *State
}

func (x *Exec) noteRead(key string) {
	if x.rlog != nil {
		x.rlog[key] = true
	}
}

func (x *Exec) noteWrite(st *State, key string, ref *Term) {
}

func (x *Exec) check(st *State, extra ...*Term) Result {
	if time.Now().After(x.end) {
		return Unknown
	}
	gil.Unlock()
	defer gil.Lock()
	return x.sol.Check(append(append([]*Term{}, st.pc...), extra...), x.branchTO, false)
}

// decide a branch condition: returns whether each side is possible
func (x *Exec) decide(st *State, c *Term) (bool, bool) {
	if v, ok := st.known(c); ok {
		return v, !v
	}
	t := x.check(st, c) != Unsat
	if !t {
		return false, true
	}
	f := x.check(st, Not(c)) != Unsat
	return t, f
}

func (x *Exec) feasible(st *State, c *Term) bool {
	if v, ok := st.known(c); ok {
		return v
	}
	return x.check(st, c) != Unsat
}

// ---- running code

func (x *Exec) callFn(st *State, fn *ssa.Function, args []Value, bindings []Value, caller *Frame) []Outcome {
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > 60 {
		panic(unsupported("call depth at " + fn.String()))
	}
	for f := caller; f != nil; f = f.caller {
		if f.fn == fn && f.fn.Synthetic == "" {
			panic(unsupported("recursion without contract: " + fn.String()))
		}
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, bindings: bindings, depth: depth, caller: caller}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bindings[i]
	}
	outs := x.run(fr, st, fn.Blocks[0], nil, 0)
	return outs
}

func (x *Exec) budget() {
	x.paths++
	if x.paths > 400000 || time.Now().After(x.end) {
		panic(unsupported("path or time budget exceeded"))
	}
}

func (x *Exec) run(fr *Frame, st *State, b, prev *ssa.BasicBlock, start int) []Outcome {
	var outs []Outcome
	for {
		x.budget()
		if start == 0 {
			// leaving or repeating active loops
			for n := len(fr.loops); n > 0; n = len(fr.loops) {
				L := fr.loops[n-1]
				if b == L.header {
					return append(outs, Outcome{kind: oBack, st: st, loop: L, fr: fr, from: prev})
				}
				if L.blocks[b] {
					break
				}
				if L.dry {
					return append(outs, Outcome{kind: oExit, st: st, loop: L, fr: fr})
				}
				x.checkIter(fr, st, L, false)
				fr.loops = fr.loops[:n-1]
			}
			if li := x.eng.loopInfo(fr.fn); li[b] != nil && prev != nil {
				if !x.tryUnroll(fr, st, b, prev, li[b]) {
					return append(outs, x.enterLoop(fr, st, b, prev, li[b])...)
				}
			}
			x.evalPhis(fr, b, prev)
		}
		next, more, done := x.runInstrs(fr, st, b, start)
		outs = append(outs, more...)
		if done {
			return outs
		}
		prev, b, start = b, next, 0
	}
}

func (x *Exec) evalPhis(fr *Frame, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.val(fr, p.Edges[idx]))
		phis = append(phis, p)
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

// runInstrs executes from instruction start; returns the next block when
// control continues in this frame.
func (x *Exec) runInstrs(fr *Frame, st *State, b *ssa.BasicBlock, start int) (*ssa.BasicBlock, []Outcome, bool) {
	var outs []Outcome
	for i := start; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return b.Succs[0], outs, false
		case *ssa.If:
			c := x.val(fr, in.Cond).(*Term)
			t, f := x.decide(st, c)
			if t && f {
				fr2, st2 := fr.fork(), st.fork()
				st.assume(c)
				st2.assume(Not(c))
				x.narrow(st, c)
				at := x.pos(b.Instrs[i].(*ssa.If).Cond.Pos())
				st.notes = append(st.notes, at+"T")
				st2.notes = append(st2.notes, at+"F")
				outs = append(outs, x.run(fr, st, b.Succs[0], b, 0)...)
				outs = append(outs, x.run(fr2, st2, b.Succs[1], b, 0)...)
				return nil, outs, true
			}
			if t {
				st.assume(c)
				return b.Succs[0], outs, false
			}
			if f {
				st.assume(Not(c))
				return b.Succs[1], outs, false
			}
			return nil, outs, true // infeasible path
		case *ssa.Return:
			var vals []Value
			for _, r := range in.Results {
				vals = append(vals, x.val(fr, r))
			}
			for n := len(fr.loops); n > 0; n-- {
				L := fr.loops[n-1]
				if L.dry {
					return nil, append(outs, Outcome{kind: oExit, st: st, loop: L, fr: fr}), true
				}
				x.checkIter(fr, st, L, false)
			}
			return nil, append(outs, Outcome{kind: oRet, st: st, vals: vals, fr: fr}), true
		case *ssa.Panic:
			v := toTerm(x.val(fr, in.X), in.X.Type())
			// passing a foreign panic on is not a panic of this code
			ext := st.extPV != nil && st.extPV == v
			return nil, append(outs, x.raise(fr, st, v, ext, "panic at "+x.pos(in.Pos()))...), true
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			ds := fr.defers
			fr.defers = nil
			res := x.runDefers(fr, st, ds, nil, false)
			cont := false
			for _, r := range res {
				if r.kind == oRet {
					fr2 := fr.fork()
					nb, o2, done := x.runInstrs(fr2, r.st, b, i+1)
					outs = append(outs, o2...)
					if !done {
						outs = append(outs, x.run(fr2, r.st, nb, b, 0)...)
					}
				} else {
					outs = append(outs, r)
				}
			}
			_ = cont
			return nil, outs, true
		case *ssa.Defer:
			d := deferred{instr: in, call: &in.Call}
			if !in.Call.IsInvoke() {
				d.fn = x.val(fr, in.Call.Value)
			} else {
				d.fn = x.val(fr, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.val(fr, a))
			}
			fr.defers = append(fr.defers, d)
			continue
		case *ssa.Go:
			res := x.doCall(fr, st, &in.Call, in.Pos(), true)
			// a goroutine's panic is not this function's outcome
			o2, done := x.contAfter(fr, b, i, res, nil)
			if done {
				return nil, append(outs, o2...), true
			}
			outs = append(outs, o2...)
			st.become(res[0].st)
			continue
		case *ssa.Call:
			res := x.doCall(fr, st, &in.Call, in.Pos(), false)
			o2, done := x.contAfter(fr, b, i, res, in)
			if done {
				return nil, append(outs, o2...), true
			}
			outs = append(outs, o2...)
			st.become(res[len(res)-1].st)
			continue
		case *ssa.Select:
			res := x.doSelect(fr, st, in)
			o2, done := x.contAfter(fr, b, i, res, in)
			if done {
				return nil, append(outs, o2...), true
			}
			outs = append(outs, o2...)
			st.become(res[len(res)-1].st)
			continue
		case *ssa.Next:
			res := x.doNext(fr, st, in)
			o2, done := x.contAfter(fr, b, i, res, in)
			if done {
				return nil, append(outs, o2...), true
			}
			outs = append(outs, o2...)
			st.become(res[len(res)-1].st)
			continue
		default:
			pans := x.step(fr, st, in)
			for _, p := range pans {
				if x.feasible(st, p.cond) {
					st2 := st.fork()
					st2.assume(p.cond)
					outs = append(outs, x.raise(fr.fork(), st2, p.val, false, p.why+" at "+x.pos(in.Pos()))...)
					if x.feasible(st, Not(p.cond)) {
						st.assume(Not(p.cond))
					} else {
						return nil, outs, true
					}
				} else {
					st.assume(Not(p.cond))
				}
			}
		}
	}
	panic("block without terminator")
}

// contAfter continues the instruction stream after a multi-outcome
// instruction. The last returning outcome is left to the caller (done=false)
// when it is the only one; otherwise all are run to completion.
func (x *Exec) contAfter(fr *Frame, b *ssa.BasicBlock, i int, res []Outcome, dst ssa.Value) ([]Outcome, bool) {
	var rets []Outcome
	var outs []Outcome
	for _, r := range res {
		if r.kind == oRet {
			rets = append(rets, r)
		} else if r.kind == oPanic {
			outs = append(outs, x.raise(fr.fork(), r.st, r.pv, r.ext, r.why)...)
		} else {
			outs = append(outs, r)
		}
	}
	set := func(f *Frame, r Outcome) {
		if dst == nil {
			return
		}
		if tup, ok := dst.Type().(*types.Tuple); ok {
			if tup.Len() == 1 && len(r.vals) == 1 {
				f.env[dst] = TupleV(r.vals)
			} else {
				f.env[dst] = TupleV(r.vals)
			}
		} else if len(r.vals) > 0 {
			f.env[dst] = r.vals[0]
		}
	}
	if len(rets) == 1 && len(res) == 1 {
		set(fr, rets[0])
		return outs, false
	}
	for _, r := range rets {
		f2 := fr.fork()
		set(f2, r)
		nb, o2, done := x.runInstrs(f2, r.st, b, i+1)
		outs = append(outs, o2...)
		if !done {
			outs = append(outs, x.run(f2, r.st, nb, b, 0)...)
		}
	}
	return outs, true
}

func (x *Exec) raise(fr *Frame, st *State, pv *Term, ext bool, why string) []Outcome {
	for n := len(fr.loops); n > 0; n-- {
		L := fr.loops[n-1]
		if L.dry && len(fr.defers) == 0 {
			return []Outcome{{kind: oExit, st: st, loop: L, fr: fr}}
		}
	}
	ds := fr.defers
	fr.defers = nil
	if len(ds) == 0 {
		return []Outcome{{kind: oPanic, st: st, pv: pv, ext: ext, why: why, fr: fr}}
	}
	res := x.runDefers(fr, st, ds, pv, ext)
	var outs []Outcome
	for _, r := range res {
		if r.kind == oRet { // recovered
			if fr.fn.Recover == nil {
				var vals []Value
				rt := fr.fn.Signature.Results()
				for i := 0; i < rt.Len(); i++ {
					vals = append(vals, zeroValue(rt.At(i).Type()))
				}
				outs = append(outs, Outcome{kind: oRet, st: r.st, vals: vals, fr: fr})
				continue
			}
			f2 := fr.fork()
			f2.loops = nil
			nb, o2, done := x.runInstrs(f2, r.st, fr.fn.Recover, 0)
			outs = append(outs, o2...)
			if !done {
				outs = append(outs, x.run(f2, r.st, nb, fr.fn.Recover, 0)...)
			}
		} else {
			if r.kind == oPanic && r.why == "" {
				r.why = why
			}
			outs = append(outs, r)
		}
	}
	return outs
}

// runDefers runs deferred calls in LIFO order. With pv set the frame is
// panicking: oRet outcomes are those that recovered.
func (x *Exec) runDefers(fr *Frame, st *State, ds []deferred, pv *Term, ext bool) []Outcome {
	if len(ds) == 0 {
		if pv != nil {
			return []Outcome{{kind: oPanic, st: st, pv: pv, ext: ext, fr: fr}}
		}
		return []Outcome{{kind: oRet, st: st, fr: fr}}
	}
	d := ds[len(ds)-1]
	rest := ds[:len(ds)-1]
	saved, savedR := st.panicV, st.recovd
	st.panicV, st.recovd = pv, false
	if pv != nil && ext {
		st.extPV = pv
	}
	res := x.callValue(fr, st, d.call, d.fn, d.args, d.instr.Pos(), false)
	var outs []Outcome
	for _, r := range res {
		npv, next := pv, ext
		if r.kind == oPanic {
			npv, next = r.pv, r.ext
			r.st.notes = append(r.st.notes, "panic in a deferred call: "+r.why)
		} else if r.kind == oRet && r.st.recovd {
			npv = nil
		} else if r.kind != oRet {
			outs = append(outs, r)
			continue
		}
		r.st.panicV, r.st.recovd = saved, savedR
		outs = append(outs, x.runDefers(fr, r.st, rest, npv, next)...)
	}
	return outs
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := x.eng.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, x.eng.repo+"/"), q.Line)
}

func (x *Exec) val(fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Builtin:
		return &FuncV{builtin: v.Name()}
	case *ssa.Global:
		return x.eng.globalPtr(v)
	}
	r, ok := fr.env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("unbound value %s in %s", v.Name(), fr.fn)))
	}
	return r
}

func (x *Exec) term(fr *Frame, v ssa.Value) *Term { return toTerm(x.val(fr, v), v.Type()) }

type panicCond struct {
	cond *Term
	val  *Term
	why  string
}

// a runtime error value: an error of unknown concrete type
func runtimePanic(kind string) *Term {
	t := ifaceOther.Mk(IntT(77), IntT(int64(len(kind))))
	return t
}

func (x *Exec) nilCheck(st *State, p *PtrV) []panicCond {
	if st.spec || p.cell != nil || p.glob != nil {
		return nil
	}
	if p.elem || p.path != "" {
		return nil
	}
	c := Eq(p.ref, IntT(0))
	if v, ok := st.known(c); ok && !v {
		return nil
	}
	return []panicCond{{c, runtimePanic("nil dereference"), "nil dereference"}}
}

// step executes a straight-line instruction
func (x *Exec) step(fr *Frame, st *State, in ssa.Instruction) []panicCond {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		if x.inSpec > 0 && in.Heap && !capturedOnly(in) {
			fr.env[in] = x.allocReal(st, t)
		} else {
			fr.env[in] = x.alloc(st, t)
		}
	case *ssa.BinOp:
		v, ps := x.binop(fr, st, in)
		fr.env[in] = v
		return ps
	case *ssa.UnOp:
		return x.unop(fr, st, in)
	case *ssa.ChangeType:
		v := x.val(fr, in.X)
		if sv, ok := v.(*StructV); ok {
			v = &StructV{typ: in.Type(), fields: sv.fields}
		} else if p, ok := v.(*PtrV); ok {
			q := *p
			if pt, ok := under(in.Type()).(*types.Pointer); ok && p.path == "" && !p.elem && p.cell == nil && p.glob == nil {
				q.typ, q.root = pt.Elem(), x.eng.canonRoot(p.root, pt.Elem())
			}
			v = &q
		} else if t, ok := v.(*Term); ok && t.sort != sortOf(in.Type()) {
			v = UF("conv."+typeKey(in.X.Type())+"->"+typeKey(in.Type()), sortOf(in.Type()), t)
		}
		fr.env[in] = v
	case *ssa.ChangeInterface:
		fr.env[in] = x.val(fr, in.X)
	case *ssa.Convert:
		fr.env[in] = x.convert(st, x.val(fr, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		fr.env[in] = x.makeIface(st, x.val(fr, in.X), in.X.Type())
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range in.Bindings {
			bs = append(bs, x.val(fr, b))
		}
		fr.env[in] = &FuncV{fn: in.Fn.(*ssa.Function), bindings: bs}
	case *ssa.MakeMap:
		fr.env[in] = x.newMap(st, under(in.Type()).(*types.Map))
	case *ssa.MakeChan:
		ref := st.newRef()
		x.writeHeap(st, "chan|cap", Int, ref, x.term(fr, in.Size))
		if x.target != nil && x.target.has("answers") {
			// ghost: what the channels made here are for
			st.assume(SpecUF("chan.answers", Bool, ref))
		} else if x.target != nil && x.target.has("noanswers") {
			st.assume(Not(SpecUF("chan.answers", Bool, ref)))
		}
		fr.env[in] = ref
	case *ssa.MakeSlice:
		et := under(in.Type()).(*types.Slice).Elem()
		ref := st.newRef()
		l, c := x.term(fr, in.Len), x.term(fr, in.Cap)
		for _, lf := range leaves(et) {
			so := elemSort(lf.typ)
			if so == String && isByte(lf.typ) {
				x.writeHeap(st, elemKey(et, lf.path), so, ref, FreshVar("bytes", String, st.alloc))
				continue
			}
			x.writeHeap(st, elemKey(et, lf.path), so, ref, ConstArr(so, zeroTerm(lf.typ)))
		}
		fr.env[in] = &SliceV{ref, IntT(0), l, c, et}
		return []panicCond{{Or(Lt(l, IntT(0)), Lt(c, l)), runtimePanic("makeslice"), "makeslice: out of range"}}
	case *ssa.MultiConvert:
		fr.env[in] = x.convert(st, x.val(fr, in.X), in.X.Type(), in.Type())
	case *ssa.FieldAddr:
		p := x.val(fr, in.X).(*PtrV)
		ft := under(under(in.X.Type()).(*types.Pointer).Elem()).(*types.Struct).Field(in.Field)
		q := *p
		q.path = joinPath(p.path, ft.Name())
		q.typ = ft.Type()
		fr.env[in] = &q
		return x.nilCheck(st, p)
	case *ssa.Field:
		fr.env[in] = x.field(x.val(fr, in.X), in.X.Type(), in.Field)
	case *ssa.IndexAddr:
		return x.indexAddr(fr, st, in)
	case *ssa.Index:
		return x.index(fr, st, in)
	case *ssa.Lookup:
		return x.lookup(fr, st, in)
	case *ssa.MapUpdate:
		m := under(in.Map.Type()).(*types.Map)
		ref := x.term(fr, in.Map)
		var ps []panicCond
		c := Eq(ref, IntT(0))
		if v, ok := st.known(c); !(ok && !v) && !st.spec {
			ps = append(ps, panicCond{c, runtimePanic("nil map"), "assignment to nil map"})
		}
		if len(ps) > 0 && !x.feasible(st, c) {
			ps = nil
		}
		if len(ps) > 0 {
			// raise is handled by the caller; the store happens in the non-nil world
			st2 := st
			_ = st2
		}
		x.mapStore(st, m, ref, x.term(fr, in.Key), x.val(fr, in.Value))
		return ps
	case *ssa.Range:
		if _, ok := under(in.X.Type()).(*types.Map); !ok {
			panic(unsupported("range over string"))
		}
		m := under(in.X.Type()).(*types.Map)
		ref := x.term(fr, in.X)
		st.iters[in] = ConstArr(ArraySort(sortOf(m.Key()), Bool), tFalse)
		fr.env[in] = &IterV{instr: in, mapref: ref, mt: m}
	case *ssa.Slice:
		return x.slice(fr, st, in)
	case *ssa.Store:
		p := x.val(fr, in.Addr).(*PtrV)
		ps := x.nilCheck(st, p)
		if len(ps) > 0 && !x.feasible(st, ps[0].cond) {
			ps = nil
		}
		x.store(st, p, x.val(fr, in.Val))
		return ps
	case *ssa.Send:
		x.chanSend(fr, st, in.Chan.Type(), x.val(fr, in.Chan), x.val(fr, in.X))
		x.event(st, fr.fn, "chan.send", []Value{x.val(fr, in.Chan), x.val(fr, in.X)}, []types.Type{in.Chan.Type(), in.X.Type()}, nil, nil)
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, in)
	case *ssa.Extract:
		tv := x.val(fr, in.Tuple).(TupleV)
		fr.env[in] = tv[in.Index]
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	return nil
}

// capturedOnly: the variable is on the heap only because closures read it
func capturedOnly(a ssa.Value) bool {
	for _, r := range *a.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			if i.Addr != a {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			f := i.Fn.(*ssa.Function)
			for k, b := range i.Bindings {
				if b == a && !capturedOnly(f.FreeVars[k]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (x *Exec) alloc(st *State, t types.Type) *PtrV {
	if x.inSpec > 0 {
		if _, arr := under(t).(*types.Array); !arr {
			return &PtrV{root: t, typ: t, cell: &Cell{v: zeroValue(t), guard: st.guard}}
		}
	}
	ref := st.newRef()
	p := &PtrV{root: t, ref: ref, typ: t}
	if a, ok := under(t).(*types.Array); ok {
		for _, lf := range leaves(a.Elem()) {
			so := elemSort(lf.typ)
			if so == String && isByte(lf.typ) {
				x.writeHeap(st, elemKey(a.Elem(), ""), so, ref, StrT(strings.Repeat("\x00", int(a.Len()))))
				continue
			}
			x.writeHeap(st, elemKey(a.Elem(), lf.path), so, ref, ConstArr(so, zeroTerm(lf.typ)))
		}
		return p
	}
	x.store(st, p, zeroValue(t))
	return p
}

func (x *Exec) field(v Value, t types.Type, i int) Value {
	if sv, ok := v.(*StructV); ok {
		return sv.fields[i]
	}
	f := under(t).(*types.Struct).Field(i)
	return fromTerm(UF("fld."+typeKey(t)+"."+f.Name(), sortOf(f.Type()), v.(*Term)), f.Type())
}

func (x *Exec) event(st *State, in *ssa.Function, name string, args []Value, typs []types.Type, rets []Value, rt []types.Type) {
	x.eventPV(st, in, name, args, typs, rets, rt, nil)
}

func (x *Exec) eventPV(st *State, in *ssa.Function, name string, args []Value, typs []types.Type, rets []Value, rt []types.Type, pv *Term) {
	if st.spec || x.inSpec > 0 {
		return
	}
	e := &Event{name: name, args: args, typs: typs, rets: rets, rtyp: rt, st: st.fork(), in: in, pv: pv}
	st.events = append(st.events, e)
}

// ---- operators

func (x *Exec) valEq(st *State, a, b Value, t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Slice:
		// only comparison with nil is legal Go; specs use it so too
		sa, sb := a.(*SliceV), b.(*SliceV)
		if sb.base.isInt() && sb.base.iv.Sign() == 0 {
			return Eq(sa.base, IntT(0))
		}
		if sa.base.isInt() && sa.base.iv.Sign() == 0 {
			return Eq(sb.base, IntT(0))
		}
		return And(Eq(sa.base, sb.base), Eq(sa.off, sb.off), Eq(sa.len, sb.len))
	case *types.Signature:
		return Eq(toTerm(a, t), toTerm(b, t))
	case *types.Struct:
		if isTransparent(t) {
			va, vb := a.(*StructV), b.(*StructV)
			var cs []*Term
			for i := 0; i < u.NumFields(); i++ {
				cs = append(cs, x.valEq(st, va.fields[i], vb.fields[i], u.Field(i).Type()))
			}
			return And(cs...)
		}
	}
	return Eq(toTerm(a, t), toTerm(b, t))
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) (Value, []panicCond) {
	a, b := x.val(fr, in.X), x.val(fr, in.Y)
	t := in.X.Type()
	switch in.Op {
	case token.EQL:
		return x.valEq(st, a, b, t), nil
	case token.NEQ:
		return Not(x.valEq(st, a, b, t)), nil
	}
	ta, tb := toTerm(a, t), toTerm(b, in.Y.Type())
	isF := ta.sort == Float
	isS := ta.sort == String
	switch in.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if in.Op == token.GTR || in.Op == token.GEQ {
			ta, tb = tb, ta
		}
		strict := in.Op == token.LSS || in.Op == token.GTR
		switch {
		case isF:
			if strict {
				return Op("fp.lt", Bool, ta, tb), nil
			}
			return Op("fp.leq", Bool, ta, tb), nil
		case isS:
			if strict {
				return Op("str.<", Bool, ta, tb), nil
			}
			return Op("str.<=", Bool, ta, tb), nil
		}
		if strict {
			return Lt(ta, tb), nil
		}
		return Le(ta, tb), nil
	case token.ADD:
		if isS {
			return Concat(ta, tb), nil
		}
		if isF {
			return UF("fp.add", Float, ta, tb), nil
		}
		return Add(ta, tb), nil
	case token.SUB:
		if !isF {
			return Sub(ta, tb), nil
		}
		return UF("fp.sub", Float, ta, tb), nil
	case token.MUL:
		if !isF {
			return Mul(ta, tb), nil
		}
		return UF("fp.mul", Float, ta, tb), nil
	case token.QUO, token.REM:
		if ta.sort == Int {
			r := UF("int."+in.Op.String(), Int, ta, tb)
			return r, []panicCond{{Eq(tb, IntT(0)), runtimePanic("div"), "division by zero"}}
		}
		return UF("fp."+in.Op.String(), Float, ta, tb), nil
	case token.AND:
		if ta.sort == Int {
			return UF("int.and", Int, ta, tb), nil
		}
	case token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		return UF("int."+in.Op.String(), Int, ta, tb), nil
	}
	panic(unsupported("binop " + in.Op.String()))
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) []panicCond {
	v := x.val(fr, in.X)
	switch in.Op {
	case token.MUL:
		p, ok := v.(*PtrV)
		if !ok {
			p = fromTerm(v.(*Term), in.X.Type()).(*PtrV)
		}
		ps := x.nilCheck(st, p)
		if len(ps) > 0 && !x.feasible(st, Not(ps[0].cond)) {
			fr.env[in] = zeroValue(p.typ)
			return ps
		}
		fr.env[in] = x.load(st, p)
		return ps
	case token.NOT:
		fr.env[in] = Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if t.sort == Float {
			fr.env[in] = Op("fp.neg", Float, t)
		} else {
			fr.env[in] = Mul(IntT(-1), t)
		}
	case token.ARROW:
		et := under(in.X.Type()).(*types.Chan).Elem()
		rv, facts := freshValue("recv", et, st.alloc)
		st.assume(facts...)
		ok := FreshVar("recvok", Bool, st.alloc)
		x.chanRecv(st, in.X.Type(), v, rv, ok)
		x.event(st, fr.fn, "chan.recv", []Value{v}, []types.Type{in.X.Type()}, []Value{rv, ok}, []types.Type{et, types.Typ[types.Bool]})
		if in.CommaOk {
			fr.env[in] = TupleV{rv, ok}
		} else {
			fr.env[in] = rv
		}
	default:
		fr.env[in] = UF("int.unop."+in.Op.String(), Int, v.(*Term))
	}
	return nil
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	fu, tu := under(from), under(to)
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok {
			t := v.(*Term)
			switch {
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
				return t
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
				return intToFloat(t)
			case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
				return UF("f2i", Int, t)
			case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
				return t
			case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
				return t
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
				return UF("rune2str", String, t)
			}
			return t
		}
		if ts, ok := tu.(*types.Slice); ok && fb.Info()&types.IsString != 0 {
			if isByte(ts.Elem()) {
				return x.stringToBytes(st, v.(*Term))
			}
		}
	}
	if fs, ok := fu.(*types.Slice); ok && isByte(fs.Elem()) {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			return x.bytesToString(st, v.(*SliceV))
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	if p, ok := v.(*PtrV); ok {
		if pt, ok := tu.(*types.Pointer); ok {
			q := *p
			q.typ = pt.Elem()
			q.root = x.eng.canonRoot(p.root, pt.Elem())
			return &q
		}
	}
	panic(unsupported(fmt.Sprintf("convert %s to %s", from, to)))
}

func intToFloat(t *Term) *Term {
	if t.isInt() {
		f, _ := new(bigFloat).SetInt(t.iv).Float64()
		return floatConst(f)
	}
	return UF("i2f", Float, t)
}

func (x *Exec) makeIface(st *State, v Value, t types.Type) *Term {
	if isIface(t) {
		return v.(*Term)
	}
	return ifaceCtor(t).Mk(toTerm(v, t))
}

func (x *Exec) boundsCheck(st *State, idx, n *Term) []panicCond {
	if st.spec {
		return nil
	}
	c := Or(Lt(idx, IntT(0)), Ge(idx, n))
	if c.isFalse() {
		return nil
	}
	return []panicCond{{c, runtimePanic("index"), "index out of range"}}
}

func (x *Exec) indexAddr(fr *Frame, st *State, in *ssa.IndexAddr) []panicCond {
	idx := x.term(fr, in.Index)
	switch u := under(in.X.Type()).(type) {
	case *types.Slice:
		s := x.val(fr, in.X).(*SliceV)
		fr.env[in] = &PtrV{root: u.Elem(), ref: s.base, elem: true, idx: Add(s.off, idx), typ: u.Elem()}
		return x.boundsCheck(st, idx, s.len)
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		p := x.val(fr, in.X).(*PtrV)
		if p.path != "" || p.elem || p.cell != nil {
			panic(unsupported("array inside a struct"))
		}
		fr.env[in] = &PtrV{root: a.Elem(), ref: p.ref, elem: true, idx: idx, typ: a.Elem()}
		return x.boundsCheck(st, idx, IntT(a.Len()))
	}
	panic(unsupported("indexaddr"))
}

func (x *Exec) index(fr *Frame, st *State, in *ssa.Index) []panicCond {
	idx := x.term(fr, in.Index)
	v := x.val(fr, in.X)
	if b, ok := under(in.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := v.(*Term)
		fr.env[in] = Op("str.to_code", Int, Op("str.at", String, s, idx))
		return x.boundsCheck(st, idx, StrLen(s))
	}
	a := under(in.X.Type()).(*types.Array)
	fr.env[in] = fromTerm(Select(v.(*Term), idx), a.Elem())
	return x.boundsCheck(st, idx, IntT(a.Len()))
}

func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) []panicCond {
	if b, ok := under(in.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		idx := x.term(fr, in.Index)
		s := x.term(fr, in.X)
		fr.env[in] = Op("str.to_code", Int, Op("str.at", String, s, idx))
		return x.boundsCheck(st, idx, StrLen(s))
	}
	m := under(in.X.Type()).(*types.Map)
	ref, key := x.term(fr, in.X), x.term(fr, in.Index)
	has := x.mapHas(st, m, ref, key)
	v := x.mapVal(st, m, ref, key)
	v = mergeValues(has, v, zeroValue(m.Elem()), m.Elem())
	if in.CommaOk {
		fr.env[in] = TupleV{v, has}
	} else {
		fr.env[in] = v
	}
	return nil
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) []panicCond {
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.term(fr, v)
	}
	switch u := under(in.X.Type()).(type) {
	case *types.Basic:
		s := x.term(fr, in.X)
		n := StrLen(s)
		lo, hi := opt(in.Low, IntT(0)), opt(in.High, n)
		fr.env[in] = substr(s, lo, Sub(hi, lo))
		if st.spec {
			return nil
		}
		return []panicCond{{Or(Lt(lo, IntT(0)), Gt(lo, hi), Gt(hi, n)), runtimePanic("slice"), "slice bounds out of range"}}
	case *types.Slice:
		s := x.val(fr, in.X).(*SliceV)
		lo, hi := opt(in.Low, IntT(0)), opt(in.High, s.len)
		mx := opt(in.Max, s.cap)
		fr.env[in] = &SliceV{s.base, Add(s.off, lo), Sub(hi, lo), Sub(mx, lo), s.elem}
		if st.spec {
			return nil
		}
		bad := Or(Lt(lo, IntT(0)), Gt(lo, hi), Gt(hi, mx), Gt(mx, s.cap))
		if bad.isFalse() {
			return nil
		}
		return []panicCond{{bad, runtimePanic("slice"), "slice bounds out of range"}}
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		p := x.val(fr, in.X).(*PtrV)
		n := IntT(a.Len())
		lo, hi := opt(in.Low, IntT(0)), opt(in.High, n)
		mx := opt(in.Max, n)
		fr.env[in] = &SliceV{p.ref, lo, Sub(hi, lo), Sub(mx, lo), a.Elem()}
		bad := Or(Lt(lo, IntT(0)), Gt(lo, hi), Gt(hi, mx), Gt(mx, n))
		if bad.isFalse() || st.spec {
			return nil
		}
		return []panicCond{{bad, runtimePanic("slice"), "slice bounds out of range"}}
	}
	panic(unsupported("slice of " + in.X.Type().String()))
}

func substr(s, off, n *Term) *Term {
	if off.isInt() && off.iv.Sign() == 0 && n == StrLen(s) {
		return s
	}
	return Op("str.substr", String, s, off, n)
}

// implements: the predicate "the dynamic type of v implements iface"
func (x *Exec) implements(v *Term, it *types.Interface, name string) *Term {
	var cs []*Term
	for _, c := range ifaceDT.Ctors {
		if c == ifaceNil {
			continue
		}
		if c == ifaceOther {
			if it.NumMethods() == 0 {
				cs = append(cs, c.Is(v))
			} else if isErrorIface(it) && v.op == "ctor" && v.name == "I_other" && v.args[0].isInt() && v.args[0].iv.Int64() == 77 {
				cs = append(cs, tTrue)
			} else {
				cs = append(cs, And(c.Is(v), UF("implements."+name, Bool, ifaceOther.Sel(0, v))))
			}
			continue
		}
		if types.Implements(ifaceType[c.Name], it) {
			cs = append(cs, c.Is(v))
		}
	}
	return Or(cs...)
}

func isErrorIface(it *types.Interface) bool {
	return it.NumMethods() == 1 && it.Method(0).Name() == "Error"
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) []panicCond {
	v := x.term(fr, in.X)
	var ok *Term
	var val Value
	if it, isI := under(in.AssertedType).(*types.Interface); isI {
		if it.NumMethods() == 0 {
			ok = Not(ifaceNil.Is(v))
		} else {
			ok = x.implements(v, it, typeKey(in.AssertedType))
		}
		val = v
		if in.CommaOk {
			val = Ite(ok, v, ifaceNil.Mk())
		}
	} else {
		c := ifaceCtor(in.AssertedType)
		ok = c.Is(v)
		pay := c.Sel(0, v)
		if in.CommaOk {
			if kv, known := st.known(ok); known && kv {
				val = fromTerm(pay, in.AssertedType)
			} else if known {
				val = zeroValue(in.AssertedType)
			} else {
				val = mergeValues(ok, fromTerm(pay, in.AssertedType), zeroValue(in.AssertedType), in.AssertedType)
			}
		} else {
			val = fromTerm(pay, in.AssertedType)
		}
		if !ok.isFalse() && !v.bound {
			if s, isS := val.(*SliceV); isS {
				x.sliceInv(st, s)
			}
			if _, isP := val.(*PtrV); isP {
				st.assume(Implies(ok, Ge(pay, IntT(0))))
			}
			if _, isM := under(in.AssertedType).(*types.Map); isM {
				st.assume(Implies(ok, Ge(pay, IntT(0))))
			}
		}
	}
	if in.CommaOk {
		fr.env[in] = TupleV{val, ok}
		return nil
	}
	fr.env[in] = val
	if st.spec || ok.isTrue() {
		return nil
	}
	return []panicCond{{Not(ok), runtimePanic("type assertion"), "type assertion"}}
}

// ---- map iteration

func (x *Exec) doNext(fr *Frame, st *State, in *ssa.Next) []Outcome {
	if in.IsString {
		panic(unsupported("range over string"))
	}
	it := x.val(fr, in.Iter).(*IterV)
	ks := sortOf(it.mt.Key())
	visited := st.iters[it.instr]
	dom := x.mapDom(st, it.mt, it.mapref)
	var outs []Outcome
	// another key
	if !(it.mapref.isInt() && it.mapref.iv.Sign() == 0) {
		st1 := st.fork()
		k := FreshVar("key", ks, st1.alloc)
		st1.assume(Select(dom, k), Not(Select(visited, k)), Not(Eq(it.mapref, IntT(0))))
		x.mapHas(st1, it.mt, it.mapref, k)
		if x.check(st1) != Unsat {
			v := x.mapVal(st1, it.mt, it.mapref, k)
			st1.iters[it.instr] = Store(visited, k, tTrue)
			st1.keys[it.instr] = k
			outs = append(outs, Outcome{kind: oRet, st: st1, vals: []Value{tTrue, fromTerm(k, it.mt.Key()), v}})
		}
	}
	// exhausted
	st2 := st.fork()
	b := BoundVar(ks)
	st2.assume(Or(Eq(it.mapref, IntT(0)), Forall([]*Term{b}, Implies(Select(dom, b), Select(visited, b)))))
	if x.check(st2) != Unsat {
		outs = append(outs, Outcome{kind: oRet, st: st2, vals: []Value{tFalse, zeroValue(it.mt.Key()), zeroValue(it.mt.Elem())}})
	}
	return outs
}

// chanInv: what holds of every value sent over channels of a type; checked at
// every send, relied on at every receive
func (x *Exec) chanInv(ct types.Type) *Contract {
	c := x.eng.contracts["chan:"+typeKey(under(ct).(*types.Chan).Elem())]
	if c == nil || x.inSpec > 0 {
		return nil
	}
	return c
}

func (x *Exec) chanSend(fr *Frame, st *State, ct types.Type, ch, v Value) {
	if c := x.chanInv(ct); c != nil {
		for _, r := range c.Requires {
			t := x.evalClause(st, st, r, []Value{ch, v}, nil)
			x.oblige(st, "requires", "send on "+c.Target+"@"+fnName(fr.fn)+"/"+r.Name, r.Props, t)
			st.assume(t)
		}
	}
}

func (x *Exec) chanRecv(st *State, ct types.Type, ch, v Value, ok *Term) {
	et := under(ct).(*types.Chan).Elem()
	st.assume(Or(ok, Eq(toTerm(v, et), zeroTerm(et))))
	if c := x.chanInv(ct); c != nil {
		x.assume["values received from channels of "+c.Target[5:]+" satisfy the invariant that every send is checked against"] = true
		for _, r := range c.Requires {
			st.assume(Or(Not(ok), x.evalClause(st, st, r, []Value{ch, v}, nil)))
		}
	}
}

func (x *Exec) doSelect(fr *Frame, st *State, in *ssa.Select) []Outcome {
	var outs []Outcome
	rt := in.Type().(*types.Tuple)
	mk := func(s *State, idx int, ok *Term, recvIdx int, rv Value) {
		vals := []Value{IntT(int64(idx)), ok}
		for i := 2; i < rt.Len(); i++ {
			if i-2 == recvIdx {
				vals = append(vals, rv)
			} else {
				vals = append(vals, zeroValue(rt.At(i).Type()))
			}
		}
		outs = append(outs, Outcome{kind: oRet, st: s, vals: vals})
	}
	ri := 0
	for _, s := range in.States {
		x.event(st, fr.fn, "select.case", []Value{x.val(fr, s.Chan)}, []types.Type{s.Chan.Type()}, nil, nil)
	}
	for i, s := range in.States {
		s2 := st.fork()
		ch := x.val(fr, s.Chan)
		if s.Dir == types.SendOnly {
			x.chanSend(fr, s2, s.Chan.Type(), ch, x.val(fr, s.Send))
			x.event(s2, fr.fn, "chan.send", []Value{ch, x.val(fr, s.Send)}, []types.Type{s.Chan.Type(), s.Send.Type()}, nil, nil)
			mk(s2, i, tFalse, -1, nil)
		} else {
			et := under(s.Chan.Type()).(*types.Chan).Elem()
			rv, facts := freshValue("recv", et, s2.alloc)
			s2.assume(facts...)
			ok := FreshVar("recvok", Bool, s2.alloc)
			x.chanRecv(s2, s.Chan.Type(), ch, rv, ok)
			x.event(s2, fr.fn, "chan.recv", []Value{ch}, []types.Type{s.Chan.Type()}, []Value{rv, ok}, []types.Type{et, types.Typ[types.Bool]})
			mk(s2, i, ok, ri, rv)
			ri++
		}
	}
	if !in.Blocking {
		mk(st.fork(), -1, tFalse, -1, nil)
	}
	return outs
}
