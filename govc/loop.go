package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

type loopCtx struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	dry    bool
	k      *Term
	evBase int
	iter   *ssa.Range
	head   *State
}

const maxUnroll = 48

// tryUnroll: the loop condition is a constant on this path, so the next
// iteration (or the exit) can be executed as straight-line code.
func (x *Exec) tryUnroll(fr *Frame, st *State, b, prev *ssa.BasicBlock, li *loop) bool {
	if fr.unroll == nil {
		fr.unroll = map[*ssa.BasicBlock]int{}
	}
	if fr.unroll[b] >= maxUnroll {
		return false
	}
	f2, s2 := fr.fork(), st.fork()
	ok := false
	x.dry++
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(unsupportedErr); !is {
					panic(r)
				}
			}
		}()
		x.evalPhis(f2, b, prev)
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				c := f2.env[in.Cond]
				if c == nil {
					c = x.val(f2, in.Cond)
				}
				ct := c.(*Term)
				var v bool
				v, ok = s2.known(ct)
				if ok && !ct.isTrue() && !ct.isFalse() {
					// known only by an assumption: leave the loop, but do not peel
					next := b.Succs[1]
					if v {
						next = b.Succs[0]
					}
					if li != nil && li.blocks[next] {
						ok = false
					}
				}
				return
			case *ssa.BinOp, *ssa.UnOp, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.Convert:
				x.step(f2, s2, in)
			case *ssa.Next:
				it, isIt := x.val(f2, in.Iter).(*IterV)
				if !isIt || in.IsString {
					return
				}
				if it.mapref.isInt() && it.mapref.iv.Sign() == 0 {
					ok = true
				}
				return
			case *ssa.Call:
				if bi, isB := in.Call.Value.(*ssa.Builtin); isB && (bi.Name() == "len" || bi.Name() == "cap") {
					outs := x.doCall(f2, s2, &in.Call, in.Pos(), false)
					f2.env[in] = outs[0].vals[0]
					continue
				}
				return
			default:
				return
			}
		}
	}()
	x.dry--
	if ok {
		fr.unroll[b]++
	}
	return ok
}

// ---- what a loop may change

type change struct {
	vs    *Sort
	refs  []*Term
	newer bool // objects allocated since loop entry
	all   bool
}

type loopMod struct {
	cells  map[string]*change
	events map[string]*Event
	alloc  bool
}

// invariantTerm: mentions nothing created since the loop was entered
func invariantTerm(t *Term, since Age) bool {
	ok := true
	walk(t, func(u *Term) {
		if u.sym != nil && since.less(u.sym.Birth) {
			ok = false
		}
		if e, is := exactAge(u); is && since.less(e) {
			ok = false
		}
	})
	return ok
}

func (x *Exec) note(m *loopMod, end *State, key string, vs *Sort, ref *Term, entry Age) bool {
	c := m.cells[key]
	if c == nil {
		c = &change{vs: vs}
		m.cells[key] = c
	}
	if ref.op == "var" && ref.sym.Alt != nil && ref.sym.HasLow && entry.le(ref.sym.Low) {
		a := x.note(m, end, key, vs, ref.sym.Alt, entry)
		if !c.newer {
			c.newer = true
			return true
		}
		return a
	}
	if invariantTerm(ref, entry) {
		for _, r := range c.refs {
			if r == ref {
				return false
			}
		}
		c.refs = append(c.refs, ref)
		return true
	}
	if l, ok := lowAge(ref); ok && entry.le(l) {
		if !c.newer {
			c.newer = true
			return true
		}
		return false
	}
	if c.all {
		return false
	}
	// the solver may know that it is one of the known objects or a newer one
	if !ref.bound {
		is := []*Term{Gt(ref, allocTerm(entry))}
		for _, r := range c.refs {
			is = append(is, Eq(ref, r))
		}
		if x.proveHyp(end, Or(is...)) {
			ch := !c.newer
			c.newer = true
			return ch
		}
	}
	c.all = true
	return true
}

// collect adds the heap changes between the loop head and a back edge
func (x *Exec) collect(m *loopMod, head, end *State, entry Age) bool {
	ch := false
	for _, key := range sortedKeys(end.heaps) {
		base := head.heaps[key]
		for n := end.heaps[key]; n != nil && n != base; n = n.parent {
			switch n.kind {
			case hStore:
				if x.note(m, end, key, n.vs, n.ref, entry) {
					ch = true
				}
			case hHavoc:
				for _, r := range n.refs {
					if x.note(m, end, key, n.vs, r, entry) {
						ch = true
					}
				}
				if n.all {
					c := m.cells[key]
					if c == nil {
						c = &change{vs: n.vs}
						m.cells[key] = c
					}
					if !c.all {
						c.all, ch = true, true
					}
				} else if !n.onlyRefs {
					c := m.cells[key]
					if c == nil {
						c = &change{vs: n.vs}
						m.cells[key] = c
					}
					if !c.newer {
						c.newer, ch = true, true
					}
				}
			}
		}
	}
	for _, e := range end.events[len(head.events):] {
		if m.events[e.name] == nil {
			m.events[e.name] = e
			ch = true
		}
	}
	if end.alloc != head.alloc {
		if !m.alloc {
			m.alloc = true
			ch = true
		}
	}
	return ch
}

type candidate struct {
	outer *ssa.Range // the map iteration the loop is inside of
	name  string
	ann   bool
	f     func(st *State, vals map[*ssa.Phi]Value, k *Term) *Term
}

type headState struct {
	fr   *Frame
	st   *State
	vals map[*ssa.Phi]Value
	k    *Term
}

func (x *Exec) enterLoop(fr *Frame, st *State, b, prev *ssa.BasicBlock, li *loop) []Outcome {
	x.loopsCut++
	entryFr, entry := fr.fork(), st.fork()
	x.evalPhis(entryFr, b, prev)
	var phis []*ssa.Phi
	init := map[*ssa.Phi]Value{}
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
			init[p] = entryFr.env[p]
		}
	}
	// map iteration driving this loop
	var iter *ssa.Range
	for bb := range li.blocks {
		for _, in := range bb.Instrs {
			if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
				if r, ok := nx.Iter.(*ssa.Range); ok && !li.blocks[r.Block()] && bb == b {
					iter = r
				}
			}
		}
	}
	mod := &loopMod{cells: map[string]*change{}, events: map[string]*Event{}}
	fresh := map[*ssa.Phi]bool{} // base of the phi allocated since loop entry (or its initial value)
	untracked := map[cellAt]bool{}
	mkHead := func(cands []*candidate) *headState {
		h := &headState{fr: entryFr.fork(), st: entry.fork(), vals: map[*ssa.Phi]Value{}}
		h.st.newEpoch()
		for _, key := range sortedKeys(mod.cells) {
			c := mod.cells[key]
			n := h.st.node(key, c.vs)
			h.st.heaps[key] = &HNode{kind: hHavoc, parent: n, sym: declSym(freshName("L!"+key), []*Sort{Int}, c.vs, h.st.alloc),
				bound: entry.alloc, refs: c.refs, all: c.all, vs: c.vs, onlyRefs: !c.newer && !c.all}
		}
		for _, key := range sortedKeys(mod.cells) {
			c := mod.cells[key]
			if c.vs != sliceDT.Sort {
				continue
			}
			for _, r := range c.refs {
				if untracked[cellAt{key, r}] {
					continue
				}
				v0 := x.readHeap(entry, key, c.vs, r)
				if !startsStorage(v0) {
					untracked[cellAt{key, r}] = true
					continue
				}
				cur := x.readHeap(h.st, key, c.vs, r)
				var v Value = &SliceV{nil, IntT(0), sliceC.Sel(2, cur), sliceC.Sel(3, cur), types.Typ[types.Int]}
				x.makeFreshPhi(h.st, &v, &SliceV{base: sliceC.Sel(0, v0)}, anySlice, entry.alloc)
				x.writeHeap(h.st, key, c.vs, r, toTerm(v, anySlice))
			}
		}
		for _, p := range phis {
			v, facts := freshValue("phi."+p.Comment+"."+p.Name(), p.Type(), h.st.alloc)
			h.st.assume(facts...)
			if fresh[p] {
				x.makeFreshPhi(h.st, &v, init[p], p.Type(), entry.alloc)
			}
			h.vals[p] = v
			h.fr.env[p] = v
		}
		if iter != nil {
			it := entryFr.env[iter].(*IterV)
			ks := sortOf(it.mt.Key())
			v := FreshVar("visited", ArraySort(ks, Bool), h.st.alloc)
			bv := BoundVar(ks)
			h.st.assume(Forall([]*Term{bv}, Implies(Select(v, bv), Select(x.mapDom(h.st, it.mt, it.mapref), bv))))
			h.st.iters[iter] = v
		}
		for _, n := range sortedKeys(mod.events) {
			h.st.events = append(h.st.events, &Event{name: n, sum: true, st: h.st})
		}
		h.k = FreshVar("k", Int, h.st.alloc)
		h.st.assume(Ge(h.k, IntT(0)))
		h.st.k = h.k
		for _, c := range cands {
			if t := x.candTerm(c, h.st, h.vals, h.k, iter); t != nil {
				h.st.assume(t)
			}
		}
		return h
	}
	runBody := func(h *headState, dry bool) []Outcome {
		L := &loopCtx{header: b, blocks: li.blocks, dry: dry, k: h.k, evBase: len(h.st.events), iter: iter}
		L.head = h.st.fork()
		f := h.fr
		f.loops = append(f.loops, L)
		if dry {
			x.dry++
			defer func() { x.dry-- }()
		}
		next, outs, done := x.runInstrs(f, h.st, b, 0)
		if !done {
			outs = append(outs, x.run(f, h.st, next, b, 0)...)
		}
		return outs
	}
	mine := func(o Outcome) bool { return o.kind == oBack && o.loop != nil && o.loop.header == b }
	phiNext := func(o Outcome) map[*ssa.Phi]Value {
		m := map[*ssa.Phi]Value{}
		idx := -1
		for i, p := range b.Preds {
			if p == o.from {
				idx = i
			}
		}
		for _, p := range phis {
			m[p] = x.val(o.fr, p.Edges[idx])
		}
		return m
	}
	// 1. what changes
	// and which references only ever hold the initial object or newer ones
	for _, p := range phis {
		if isRefLike(p.Type()) && refOf(init[p]) != nil {
			fresh[p] = true
		}
	}
	for i := 0; ; i++ {
		if i > 12 {
			panic(unsupported("loop effects do not stabilise in " + fr.fn.String()))
		}
		h := mkHead(nil)
		ch := false
		nEv := len(h.st.events)
		headSt := h.st.fork()
		for _, o := range runBody(h, true) {
			if !mine(o) {
				continue
			}
			_ = nEv
			if x.collect(mod, headSt, o.st, entry.alloc) {
				ch = true
			}
			for _, key := range sortedKeys(mod.cells) {
				c := mod.cells[key]
				if c.vs != sliceDT.Sort {
					continue
				}
				for _, r := range c.refs {
					if untracked[cellAt{key, r}] {
						continue
					}
					v0, v := x.readHeap(entry, key, c.vs, r), x.readHeap(o.st, key, c.vs, r)
					b0, b := sliceC.Sel(0, v0), sliceC.Sel(0, v)
					if !startsStorage(v) || !x.proveHyp(o.st, Or(Eq(b, IntT(0)), Eq(b, b0), Gt(b, allocTerm(entry.alloc)))) {
						untracked[cellAt{key, r}], ch = true, true
					}
				}
			}
			nv := phiNext(o)
			for _, p := range phis {
				if fresh[p] && !x.isFreshOr(o.st, nv[p], h.vals[p], init[p], entry.alloc) {
					delete(fresh, p)
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	// 2. invariants
	cands := x.candidates(fr, entry, b, li, phis, init, iter, mod)
	for n := len(fr.loops); n > 0 && iter == nil; n-- {
		if out := fr.loops[n-1].iter; out != nil {
			for _, c := range cands {
				c.outer = out
			}
			break
		}
	}
	var keep []*candidate
	for _, c := range cands {
		t := x.candTerm(c, entry, init, IntT(0), iter)
		if t == nil {
			continue
		}
		if c.name == "fresh" {
			keep = append(keep, c)
			continue
		}
		s := entry.fork()
		s.assume(Not(t))
		if t.isTrue() || x.proveCand(entry, c, t) {
			keep = append(keep, c)
		} else if os.Getenv("GOVC_DEBUG") != "" && c.ann {
			fmt.Fprintf(os.Stderr, "loop %s: %s does not hold on entry: %.300s\n", fr.fn, c.name, t)
		}
	}
	for round := 0; ; round++ {
		if round > 25 {
			panic(unsupported("loop invariants do not stabilise in " + fr.fn.String()))
		}
		h := mkHead(keep)
		outs := runBody(h, true)
		bad := map[*candidate]bool{}
		for _, o := range outs {
			if !mine(o) {
				continue
			}
			nv := phiNext(o)
			for _, c := range keep {
				if bad[c] {
					continue
				}
				t := x.candTerm(c, o.st, nv, Add(h.k, IntT(1)), iter)
				if t == nil || !(t.isTrue() || x.proveCand(o.st, c, t)) {
					bad[c] = true
					if os.Getenv("GOVC_DEBUG") != "" && (c.ann || os.Getenv("GOVC_DEBUG") == "2") {
						fmt.Fprintf(os.Stderr, "loop %s: %s not preserved\n", fr.fn, c.name)
						if os.Getenv("GOVC_DEBUG") == "2" && t != nil {
							fmt.Fprintln(os.Stderr, "   ", t)
						}
					}
				}
			}
		}
		if len(bad) == 0 {
			break
		}
		var k2 []*candidate
		for _, c := range keep {
			if !bad[c] {
				k2 = append(k2, c)
			}
		}
		keep = k2
	}
	if os.Getenv("GOVC_DEBUG") != "" && x.dry == 0 {
		for _, c := range keep {
			fmt.Fprintf(os.Stderr, "loop %s: invariant %s\n", fr.fn, c.name)
		}
		fmt.Fprintf(os.Stderr, "loop %s: changes %v events %v\n", fr.fn, sortedKeys(mod.cells), sortedKeys(mod.events))
	}
	x.invs += len(keep)
	// 3. the real run
	h := mkHead(keep)
	var outs []Outcome
	for _, o := range runBody(h, false) {
		if mine(o) {
			x.checkIter(o.fr, o.st, o.loop, true)
			continue
		}
		outs = append(outs, o)
	}
	return outs
}

type cellAt struct {
	key string
	ref *Term
}

var anySlice = types.NewSlice(types.Typ[types.Int])

// startsStorage: a slice value whose offset is zero
func startsStorage(v *Term) bool {
	off := sliceC.Sel(1, v)
	return off.op == "sel" || off.isInt() && off.iv.Sign() == 0
}

func nilLike(v Value) bool {
	switch v := v.(type) {
	case *SliceV:
		return v.base.isInt() && v.base.iv.Sign() == 0
	case *PtrV:
		return v.ref != nil && v.ref.isInt() && v.ref.iv.Sign() == 0
	case *Term:
		return v.isInt() && v.iv.Sign() == 0
	}
	return false
}

func isRefLike(t types.Type) bool {
	switch under(t).(type) {
	case *types.Slice, *types.Pointer, *types.Map:
		return true
	}
	return false
}

func refOf(v Value) *Term {
	switch v := v.(type) {
	case *SliceV:
		return v.base
	case *PtrV:
		if v.path == "" && !v.elem && v.cell == nil {
			return v.ref
		}
	case *Term:
		if v.sort == Int {
			return v
		}
	}
	return nil
}

func (x *Exec) isFreshOr(st *State, v, head, init Value, low Age) bool {
	r := refOf(v)
	if r == nil {
		return false
	}
	if r == refOf(head) || r == refOf(init) || r.isInt() && r.iv.Sign() == 0 {
		return true
	}
	if l, ok := lowAge(r); ok && low.le(l) {
		return true
	}
	return false
}

// makeFreshPhi: a reference that is nil, the initial one, or newer than low
func (x *Exec) makeFreshPhi(st *State, v *Value, init Value, t types.Type, low Age) {
	n := freshName("fphi")
	sym := declSym(n, nil, Int, st.alloc)
	sym.HasLow, sym.Low = true, low
	r := VarOf(sym)
	is := []*Term{Eq(r, IntT(0)), Gt(r, allocTerm(low))}
	if r0 := refOf(init); !(r0.isInt() && r0.iv.Sign() == 0) {
		sym.Alt = r0
		is = append(is, Eq(r, r0))
	}
	st.assume(Or(is...), Le(r, allocTerm(st.alloc)), Ge(r, IntT(0)))
	switch under(t).(type) {
	case *types.Pointer, *types.Map:
		*v = fromTerm(r, t)
	case *types.Slice:
		s := (*v).(*SliceV)
		ns := &SliceV{r, s.off, s.len, s.cap, s.elem}
		if sym.Alt == nil {
			ns.off = IntT(0)
		}
		st.assume(sliceFacts(ns)...)
		*v = ns
	}
}

func (x *Exec) candTerm(c *candidate, st *State, vals map[*ssa.Phi]Value, k *Term, iter *ssa.Range) (t *Term) {
	save, saveKey, spec := st.curIt, st.curKey, x.inSpec
	defer func() {
		st.curIt, st.curKey, x.inSpec = save, saveKey, spec
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); !ok {
				panic(r)
			}
			if os.Getenv("GOVC_DEBUG") != "" && c.ann {
				fmt.Fprintf(os.Stderr, "candidate %s: %v\n", c.name, r)
			}
			t = nil
		}
	}()
	if iter != nil {
		st.curIt, st.curKey = st.iters[iter], nil
	} else {
		st.curIt, st.curKey = nil, nil
		if out := c.outer; out != nil {
			// a loop inside a map iteration: the keys seen, and the one being visited
			st.curIt, st.curKey = st.iters[out], st.keys[out]
		}
	}
	return c.f(st, vals, k)
}

// proveCand: invariants nobody stated get less time
func (x *Exec) proveCand(st *State, c *candidate, t *Term) bool {
	if !c.ann {
		defer func(n int) { x.invTO = n }(x.invTO)
		x.invTO = 1000
	}
	return x.proveHyp(st, t)
}

func (x *Exec) proveHyp(st *State, t *Term) bool {
	if t.isFalse() {
		return false
	}
	if v, ok := st.known(t); ok && v {
		return true
	}
	return x.checkT(st, x.invTO, Not(t)) == Unsat
}

// headerValues: what the loop header computes when the loop is entered
func (x *Exec) headerValues(fr *Frame, entry *State, b *ssa.BasicBlock, init map[*ssa.Phi]Value) map[ssa.Value]Value {
	f2, s2 := fr.fork(), entry.fork()
	for p, v := range init {
		f2.env[p] = v
	}
	x.dry++
	defer func() {
		x.dry--
		if r := recover(); r != nil {
			if _, is := r.(unsupportedErr); !is {
				panic(r)
			}
		}
	}()
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp, *ssa.UnOp, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.Convert:
			x.step(f2, s2, in)
		case *ssa.Call:
			if bi, isB := in.Call.Value.(*ssa.Builtin); isB && (bi.Name() == "len" || bi.Name() == "cap") {
				f2.env[in] = x.doCall(f2, s2, &in.Call, in.Pos(), false)[0].vals[0]
				continue
			}
			return f2.env
		default:
			return f2.env
		}
	}
	return f2.env
}

// candidates: inferred shapes plus the annotated invariants of the contract
// being verified.
func (x *Exec) candidates(fr *Frame, entry *State, b *ssa.BasicBlock, li *loop, phis []*ssa.Phi, init map[*ssa.Phi]Value, iter *ssa.Range, mod *loopMod) []*candidate {
	var cs []*candidate
	add := func(name string, f func(st *State, vals map[*ssa.Phi]Value, k *Term) *Term) {
		cs = append(cs, &candidate{name: name, f: f})
	}
	var bounds []*Term
	hdr := x.headerValues(fr, entry, b, init)
	for _, in := range b.Instrs {
		bo, ok := in.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch bo.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			for _, v := range []ssa.Value{bo.X, bo.Y} {
				if bt, ok := under(v.Type()).(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
					continue
				}
				if c, ok := v.(*ssa.Const); ok {
					bounds = append(bounds, constTerm(c).(*Term))
				} else if e, ok := fr.env[v]; ok {
					bounds = append(bounds, e.(*Term))
				} else if _, isPhi := v.(*ssa.Phi); !isPhi && hdr[v] != nil {
					if e, ok := hdr[v].(*Term); ok {
						bounds = append(bounds, e)
					}
				}
				// len(x) evaluated in the header
				if cl, ok := v.(*ssa.Call); ok {
					if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						if e, ok := fr.env[cl.Call.Args[0]]; ok {
							if s, ok := e.(*SliceV); ok {
								bounds = append(bounds, s.len)
							}
						}
					}
				}
			}
		}
	}
	for _, p := range phis {
		p := p
		i0 := init[p]
		if t0, ok := i0.(*Term); ok && t0.sort == Int && sortOf(p.Type()) == Int {
			add(p.Name()+"==init", func(st *State, v map[*ssa.Phi]Value, k *Term) *Term { return Eq(v[p].(*Term), t0) })
			if bt, ok := under(p.Type()).(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				for _, c := range []int64{1, -1, 2} {
					c := c
					add(fmt.Sprintf("%s==init%+d*k", p.Name(), c), func(st *State, v map[*ssa.Phi]Value, k *Term) *Term {
						return Eq(v[p].(*Term), Add(t0, Mul(IntT(c), k)))
					})
				}
				for _, bt := range bounds {
					bt := bt
					add(p.Name()+"<=bound", func(st *State, v map[*ssa.Phi]Value, k *Term) *Term { return Le(v[p].(*Term), bt) })
					add(p.Name()+"<bound", func(st *State, v map[*ssa.Phi]Value, k *Term) *Term { return Lt(v[p].(*Term), bt) })
					add(p.Name()+">=bound", func(st *State, v map[*ssa.Phi]Value, k *Term) *Term { return Ge(v[p].(*Term), bt) })
				}
				add(p.Name()+">=init", func(st *State, v map[*ssa.Phi]Value, k *Term) *Term { return Ge(v[p].(*Term), t0) })
				add(p.Name()+"<=init+k", func(st *State, v map[*ssa.Phi]Value, k *Term) *Term { return Le(v[p].(*Term), Add(t0, k)) })
			}
			continue
		}
		if t0, ok := i0.(*Term); ok {
			add(p.Name()+"==init", func(st *State, v map[*ssa.Phi]Value, k *Term) *Term { return Same(v[p].(*Term), t0) })
			continue
		}
		if s0, ok := i0.(*SliceV); ok {
			add(p.Name()+" len==init", func(st *State, v map[*ssa.Phi]Value, k *Term) *Term { return Eq(v[p].(*SliceV).len, s0.len) })
			add(p.Name()+" len==init+k", func(st *State, v map[*ssa.Phi]Value, k *Term) *Term {
				return Eq(v[p].(*SliceV).len, Add(s0.len, k))
			})
			add(p.Name()+" base==init", func(st *State, v map[*ssa.Phi]Value, k *Term) *Term { return Eq(v[p].(*SliceV).base, s0.base) })
			add(p.Name()+" cap==init", func(st *State, v map[*ssa.Phi]Value, k *Term) *Term { return Eq(v[p].(*SliceV).cap, s0.cap) })
			continue
		}
		if p0, ok := i0.(*PtrV); ok && refOf(p0) != nil {
			add(p.Name()+"==init", func(st *State, v map[*ssa.Phi]Value, k *Term) *Term {
				r := refOf(v[p])
				if r == nil {
					return nil
				}
				return Eq(r, p0.ref)
			})
		}
	}
	// cells with a known address keep their value or count iterations
	for _, key := range sortedKeys(mod.cells) {
		c := mod.cells[key]
		for _, r := range c.refs {
			key, r, c := key, r, c
			get := func(st *State) *Term { return x.readHeap(st, key, c.vs, r) }
			v0 := get(entry)
			add("cell "+key+"==init", func(st *State, v map[*ssa.Phi]Value, k *Term) *Term { return Same(get(st), v0) })
			if c.vs == Int {
				add("cell "+key+"==init+k", func(st *State, v map[*ssa.Phi]Value, k *Term) *Term { return Eq(get(st), Add(v0, k)) })
			}
			if c.vs == sliceDT.Sort {
				add("cell "+key+" len==init+k", func(st *State, v map[*ssa.Phi]Value, k *Term) *Term {
					return Eq(sliceC.Sel(2, get(st)), Add(sliceC.Sel(2, v0), k))
				})
				add("cell "+key+" len==init", func(st *State, v map[*ssa.Phi]Value, k *Term) *Term {
					return Eq(sliceC.Sel(2, get(st)), sliceC.Sel(2, v0))
				})
			}
		}
	}
	// values loaded in the loop from local cells are not phis: nothing to do
	if x.target != nil && len(x.target.Invs) > 0 {
		for _, cl := range x.target.Invs {
			cs = append(cs, x.annotated(cl, phis, init, mod, fr)...)
		}
	}
	return cs
}

// annotated turns an invariant clause into candidates. Its parameters are:
// the iteration count k, the parameters of the verified function, and then
// accumulators matched by type against the loop's variables.
func (x *Exec) annotated(cl *Clause, phis []*ssa.Phi, init map[*ssa.Phi]Value, mod *loopMod, fr *Frame) []*candidate {
	np := len(cl.Fn.Params)
	fixed := 1 + len(x.topArgs)
	extra := np - fixed
	if extra < 0 {
		fixed = np
		extra = 0
	}
	type getter func(st *State, vals map[*ssa.Phi]Value) Value
	var combos [][]getter
	combos = append(combos, nil)
	for i := 0; i < extra; i++ {
		t := cl.Fn.Params[fixed+i].Type()
		var opts []getter
		for _, p := range phis {
			p := p
			if types.Identical(p.Type(), t) {
				opts = append(opts, func(st *State, vals map[*ssa.Phi]Value) Value { return vals[p] })
			}
		}
		_, isSlice := under(t).(*types.Slice)
		// variables defined before the loop (maps, pointers filled by it), and
		// the maps of the callers
		_, isMap := under(t).(*types.Map)
		seen := map[string]bool{}
		for f := fr; f != nil; f = f.caller {
			if f != fr && (!isMap || len(opts) >= 4) || isSlice && len(opts) > 0 {
				break // a slice built by the loop is one of its variables
			}
			for v, val := range f.env {
				if _, isPhi := v.(*ssa.Phi); isPhi && f == fr && init[v.(*ssa.Phi)] != nil {
					continue
				}
				if !types.Identical(v.Type(), t) {
					continue
				}
				r := refOf(val)
				if r == nil || isMap && seen[r.String()] {
					continue
				}
				if _, ok := exactAge(r); !ok {
					if _, low := lowAge(r); !low {
						continue
					}
				}
				seen[r.String()] = true
				val := val
				opts = append(opts, func(st *State, vals map[*ssa.Phi]Value) Value { return val })
				if isSlice {
					break
				}
			}
		}
		if len(opts) == 0 || len(opts) > 6 {
			return nil
		}
		var nc [][]getter
		for _, c := range combos {
			for _, o := range opts {
				nc = append(nc, append(c[:len(c):len(c)], o))
			}
		}
		combos = nc
	}
	var cs []*candidate
	for i, combo := range combos {
		combo := combo
		cs = append(cs, &candidate{name: fmt.Sprintf("%s#%d", cl.Name, i), ann: true, f: func(st *State, vals map[*ssa.Phi]Value, k *Term) *Term {
			args := []Value{k}
			args = append(args, x.topArgs...)
			args = args[:fixed]
			for _, g := range combo {
				args = append(args, g(st, vals))
			}
			for i, p := range cl.Fn.Params {
				args[i] = x.coerce(st, args[i], p.Type())
			}
			return x.evalSpecFn(st, x.topEntry, cl.Fn, args)[0].(*Term)
		}})
	}
	return cs
}

// checkIter checks the per-iteration clauses of a reactive loop
func (x *Exec) checkIter(fr *Frame, st *State, L *loopCtx, back bool) {
	if x.dry > 0 || x.target == nil || len(x.target.Iters) == 0 {
		return
	}
	for _, cl := range x.target.Iters {
		// "inlined": also the loops of functions that are part of this one
		if _, ok := cl.Attrs["inlined"]; !ok && fr.fn != x.target.Fn {
			continue
		}
		if w, ok := cl.Attrs["on"]; ok {
			if (w == "back") != back {
				continue
			}
		}
		s := st.fork()
		s.events = st.events[L.evBase:]
		head := L.head
		args := x.topArgs
		for n := len(fr.loops); n > 0; n-- {
			if it := fr.loops[n-1].iter; it != nil {
				s.curIt, s.curKey = s.iters[it], s.keys[it]
				break
			}
		}
		x.iters++
		s.mapLoop = L.iter != nil
		t := x.evalClause(s, head, cl, args, []Value{BoolT(back), L.k})
		st.assume(s.pc[len(st.pc):]...)
		x.oblige(s, "iter", x.target.Target+"/"+cl.Name, cl.Props, t)
	}
}
