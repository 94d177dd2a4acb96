package main

import (
	"fmt"
	"go/token"
	"go/types"
	"net/textproto"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func strConst(v Value) string {
	t, ok := v.(*Term)
	if !ok || t.op != "str" {
		panic(unsupported("specification needs a constant name"))
	}
	return t.name
}

func intConst(v Value) int {
	t, ok := v.(*Term)
	if !ok || !t.isInt() {
		panic(unsupported("specification needs a constant index"))
	}
	return int(t.iv.Int64())
}

func (x *Exec) closure(v Value) *FuncV {
	f, ok := v.(*FuncV)
	if !ok || f.fn == nil {
		panic(unsupported("specification needs a function literal"))
	}
	return f
}

// variadic returns the elements of a ...any argument with constant length
func (x *Exec) variadic(st *State, v Value) []*Term {
	s := v.(*SliceV)
	if !s.len.isInt() {
		panic(unsupported("variadic"))
	}
	var out []*Term
	for i := int64(0); i < s.len.iv.Int64(); i++ {
		out = append(out, underGuard(st.guard, x.sliceElem(st, s, IntT(i)).(*Term)))
	}
	return out
}

// underGuard drops alternatives excluded by the guard of the evaluation
func underGuard(g, t *Term) *Term {
	if g == nil || t.op != "ite" {
		return t
	}
	have := map[*Term]bool{}
	var walk func(g *Term)
	walk = func(g *Term) {
		have[g] = true
		if g.op == "and" {
			for _, a := range g.args {
				walk(a)
			}
		}
	}
	walk(g)
	holds := func(c *Term) bool {
		if have[c] {
			return true
		}
		if c.op == "and" {
			for _, a := range c.args {
				if !have[a] {
					return false
				}
			}
			return true
		}
		return false
	}
	for t.op == "ite" {
		switch {
		case holds(t.args[0]):
			t = t.args[1]
		case holds(Not(t.args[0])):
			t = t.args[2]
		// a value boxed under the guard; unset otherwise
		case t.args[2] == ifaceNil.Mk() && t.args[1].op == "ctor":
			t = t.args[1]
		case t.args[1] == ifaceNil.Mk() && t.args[2].op == "ctor":
			t = t.args[2]
		default:
			return t
		}
	}
	return t
}

// SpecUF is the uninterpreted function that specifications name nm: its full
// name carries the sorts, so one name can be used at several types.
func SpecUF(nm string, ret *Sort, ts ...*Term) *Term {
	for _, t := range ts {
		nm += ":" + t.sort.Name
	}
	return UF(nm+":"+ret.Name, ret, ts...)
}

// payload strips a known interface constructor so that uninterpreted
// functions are applied to plain values
func payload(t *Term) *Term {
	if t.op == "ctor" && t.sort == ifaceDT.Sort && len(t.args) == 1 {
		return t.args[0]
	}
	return t
}

func (x *Exec) intrinsic(fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	name := fn.Name()
	if o := fn.Origin(); o != nil {
		name = o.Name()
	}
	rt := types.Type(nil)
	if fn.Signature.Results().Len() > 0 {
		rt = fn.Signature.Results().At(0).Type()
	}
	pure := func(f func() Value) []Outcome {
		saved, sg := st.spec, st.guard
		st.spec = true
		if st.guard == nil {
			st.guard = tTrue
		}
		x.inSpec++
		v := f()
		x.inSpec--
		st.spec, st.guard = saved, sg
		return ret(st, v)
	}
	switch name {
	case "init":
		return ret(st, nil)
	case "Forall", "Exists":
		return pure(func() Value {
			lo, hi := args[0].(*Term), args[1].(*Term)
			f := x.closure(args[2])
			b := BoundVar(Int)
			in := And(Le(lo, b), Lt(b, hi))
			body := x.evalPure(st, f.fn, []Value{b}, f.bindings)[0].(*Term)
			if name == "Forall" {
				return Forall([]*Term{b}, Implies(in, body))
			}
			return Not(Forall([]*Term{b}, Not(And(in, body))))
		})
	case "ForallInt":
		return pure(func() Value {
			f := x.closure(args[0])
			b := BoundVar(Int)
			return Forall([]*Term{b}, x.evalPure(st, f.fn, []Value{b}, f.bindings)[0].(*Term))
		})
	case "ForallStr", "ExistsStr":
		return pure(func() Value {
			f := x.closure(args[0])
			b := BoundVar(String)
			body := x.evalPure(st, f.fn, []Value{b}, f.bindings)[0].(*Term)
			if name == "ForallStr" {
				return Forall([]*Term{b}, body)
			}
			return Not(Forall([]*Term{b}, Not(body)))
		})
	case "ForallKey", "ExistsKey":
		return pure(func() Value {
			f := x.closure(args[1])
			mt := under(fn.Signature.Params().At(0).Type()).(*types.Map)
			ref := args[0].(*Term)
			b := BoundVar(sortOf(mt.Key()))
			has := And(Not(Eq(ref, IntT(0))), Select(x.mapDom(st, mt, ref), b))
			v := x.mapVal(st, mt, ref, b)
			body := x.evalPure(st, f.fn, []Value{fromTerm(b, mt.Key()), v}, f.bindings)[0].(*Term)
			if name == "ForallKey" {
				return Forall([]*Term{b}, Implies(has, body))
			}
			return Not(Forall([]*Term{b}, Not(And(has, body))))
		})
	case "Has":
		return pure(func() Value {
			mt := under(fn.Signature.Params().At(0).Type()).(*types.Map)
			return x.mapHas(st, mt, args[0].(*Term), toTerm(args[1], mt.Key()))
		})
	case "SameKeys":
		return pure(func() Value {
			ma := under(fn.Signature.Params().At(0).Type()).(*types.Map)
			mb := under(fn.Signature.Params().At(1).Type()).(*types.Map)
			return Same(x.mapDom(st, ma, args[0].(*Term)), x.mapDom(st, mb, args[1].(*Term)))
		})
	case "Old":
		if st.entry == nil {
			panic(unsupported("Old without an entry state"))
		}
		return pure(func() Value { f := x.closure(args[0]); return x.evalAt(st, st.entry, f, nil)[0] })
	case "And":
		var cs []*Term
		s := args[0].(*SliceV)
		for i := int64(0); i < s.len.iv.Int64(); i++ {
			cs = append(cs, x.sliceElem(st, s, IntT(i)).(*Term))
		}
		return ret(st, And(cs...))
	case "Imp":
		return ret(st, Implies(args[0].(*Term), args[1].(*Term)))
	case "Iff":
		return ret(st, Same(args[0].(*Term), args[1].(*Term)))
	case "Same", "SameAs":
		pt := fn.Signature.Params().At(0).Type()
		return ret(st, Same(toTerm(args[0], pt), toTerm(args[1], pt)))
	case "Fresh":
		t := toTerm(args[0], fn.Signature.Params().At(0).Type())
		if t.sort == ifaceDT.Sort {
			if p := payload(t); p != t {
				t = p
			} else {
				var cs []*Term
				for _, c := range x.implCtors(fn.Signature.Params().At(0).Type()) {
					if len(c.Args) == 1 && c.Args[0] == Int {
						cs = append(cs, And(c.Is(t), Gt(c.Sel(0, t), allocTerm(st.entry.alloc))))
					}
				}
				return ret(st, Or(cs...))
			}
		}
		if t.sort == sliceDT.Sort {
			t = sliceC.Sel(0, t)
		}
		if t.sort != Int {
			panic(unsupported("Fresh of a value"))
		}
		return ret(st, Gt(t, allocTerm(st.entry.alloc)))
	case "IsNil":
		t := toTerm(args[0], fn.Signature.Params().At(0).Type())
		if t.sort == sliceDT.Sort {
			return ret(st, Eq(sliceC.Sel(0, t), IntT(0)))
		}
		return ret(st, Eq(t, IntT(0)))
	case "Base":
		t := toTerm(args[0], fn.Signature.Params().At(0).Type())
		return ret(st, sliceC.Sel(0, t))
	case "Ref":
		return ret(st, payload(toTerm(args[0], fn.Signature.Params().At(0).Type())))
	case "Alloc":
		return ret(st, allocTerm(st.alloc))
	case "Seen":
		if st.curIt == nil {
			panic(unsupported("Seen outside a map iteration"))
		}
		k := toTerm(args[0], fn.Signature.Params().At(0).Type())
		if k.sort != st.curIt.sort.K {
			return ret(st, tFalse)
		}
		return ret(st, Select(st.curIt, k))
	case "Key":
		if st.curKey == nil || sortOf(rt) != st.curKey.sort {
			panic(unsupported("Key outside a loop inside a map iteration"))
		}
		return ret(st, fromTerm(st.curKey, rt))
	case "SeenCount":
		if st.curIt == nil {
			panic(unsupported("SeenCount outside a map iteration"))
		}
		return ret(st, UF("card", Int, st.curIt))
	case "UF":
		nm := strConst(args[0])
		var ts []*Term
		for _, t := range x.variadic(st, args[1]) {
			ts = append(ts, payload(t))
		}
		if nm == "http.canon" && len(ts) == 1 && ts[0].op == "str" {
			return ret(st, StrT(textproto.CanonicalMIMEHeaderKey(strConst(ts[0]))))
		}
		v := fromTerm(SpecUF(nm, sortOf(rt), ts...), rt)
		x.loadFacts(st, v, rt)
		return ret(st, v)
	case "Any":
		v, facts := freshValue("any", rt, st.alloc)
		st.assume(facts...)
		return ret(st, v)
	case "New":
		pt := under(rt).(*types.Pointer)
		return ret(st, x.allocReal(st, pt.Elem()))
	case "Assume":
		st.assume(args[0].(*Term))
		if x.dry == 0 && x.inModel == 0 && !st.spec {
			// inside a lemma: a hypothesis
		}
		return ret(st)
	case "Assert":
		x.oblige(st, "assert", x.targetName()+"/"+strConst(args[0]), x.targetProps(), args[1].(*Term))
		st.assume(args[1].(*Term))
		return ret(st)
	case "Unreachable":
		x.oblige(st, "unreachable", x.targetName()+"/"+strConst(args[0]), x.targetProps(), tFalse)
		return nil
	case "Mod":
		x.addMod(st, args[0], fn.Signature.Params().At(0).Type())
		return ret(st)
	case "ModElems":
		s := args[0].(*SliceV)
		for _, lf := range leaves(s.elem) {
			x.modAdd(elemKey(s.elem, lf.path), elemSort(lf.typ), s.base)
		}
		return ret(st)
	case "ModMap":
		mt := under(fn.Signature.Params().At(0).Type()).(*types.Map)
		ref := args[0].(*Term)
		x.modAdd(mapBase(mt)+"#n", Int, ref)
		x.modAdd(mapBase(mt)+"#d", ArraySort(sortOf(mt.Key()), Bool), ref)
		for _, lf := range leaves(mt.Elem()) {
			x.modAdd(mapBase(mt)+"#v."+lf.path, ArraySort(sortOf(mt.Key()), sortOf(lf.typ)), ref)
		}
		return ret(st)
	case "Event":
		var vs []Value
		var ts []types.Type
		anyT := types.NewInterfaceType(nil, nil)
		for _, t := range x.variadic(st, args[1]) {
			vs = append(vs, t)
			ts = append(ts, anyT)
		}
		x.event(st, fr.fn, strConst(args[0]), vs, ts, nil, nil)
		return ret(st)
	case "Count":
		pat := strConst(args[0])
		n := 0
		for _, e := range st.events {
			if matchEvent(pat, e.name) {
				if e.sum {
					v := FreshVar("evcount", Int, st.alloc)
					st.assume(Ge(v, IntT(0)))
					return ret(st, v)
				}
				n++
			}
		}
		return ret(st, IntT(int64(n)))
	case "Loops":
		// the loops completed in which such calls may have been made
		n := 0
		for _, e := range st.events {
			if e.sum && matchEvent(strConst(args[0]), e.name) {
				n++
			}
		}
		return ret(st, IntT(int64(n)))
	case "Pure":
		return ret(st, x.evalAt(st, st, args[0].(*FuncV), nil)[0])
	case "MapLoop":
		return ret(st, BoolT(st.mapLoop))
	case "LoopPos":
		for i, e := range st.events {
			if e.sum && matchEvent(strConst(args[0]), e.name) {
				return ret(st, IntT(int64(i)))
			}
		}
		return ret(st, FreshVar("noevent", Int, st.alloc))
	case "Pos":
		pat, k := strConst(args[0]), intConst(args[1])
		i := x.eventIdx(st, pat, k)
		if i < 0 {
			return ret(st, FreshVar("noevent", Int, st.alloc))
		}
		return ret(st, IntT(int64(i)))
	case "Arg", "Ret":
		e := x.findEvent(st, strConst(args[0]), intConst(args[1]))
		i := intConst(args[2])
		if e == nil {
			v, _ := freshValue("noevent", rt, st.alloc)
			return ret(st, v)
		}
		vs, ts := e.args, e.typs
		if name == "Ret" {
			vs, ts = e.rets, e.rtyp
		}
		if i >= len(vs) {
			if name == "Ret" { // the call panicked
				v, _ := freshValue("noret", rt, st.alloc)
				return ret(st, v)
			}
			panic(unsupported(fmt.Sprintf("event %s has %d args", e.name, len(vs))))
		}
		v := vs[i]
		vt := ts[i]
		if isIface(rt) && !isIface(vt) {
			v = x.makeIface(st, v, vt)
		} else if !isIface(rt) && isIface(vt) {
			c := ifaceCtor(rt)
			v = fromTerm(c.Sel(0, v.(*Term)), rt)
		} else if sortOf(rt) != sortOf(vt) {
			panic(unsupported(fmt.Sprintf("event %s arg %d has type %s, not %s", e.name, i, vt, rt)))
		} else {
			v = fromTerm(toTerm(v, vt), rt)
		}
		return ret(st, v)
	case "At":
		e := x.findEvent(st, strConst(args[0]), intConst(args[1]))
		f := x.closure(args[2])
		if e == nil {
			v, _ := freshValue("noevent", rt, st.alloc)
			return ret(st, v)
		}
		return pure(func() Value { return x.evalAt(st, e.st, f, nil)[0] })
	case "Prefix":
		return ret(st, Op("str.prefixof", Bool, args[1].(*Term), args[0].(*Term)))
	case "Matches":
		return ret(st, reMatch(args[0].(*Term), strConst(args[1])))
	case "ToCode":
		return ret(st, Op("str.to_code", Int, Op("str.at", String, args[0].(*Term), args[1].(*Term))))
	case "Bytes":
		return ret(st, x.bytesToString(st, args[0].(*SliceV)))
	case "PathLit":
		return ret(st, StrT(fmt.Sprint(st.notes)))
	}
	if h, ok := moreIntrinsics[name]; ok {
		return h(x, fr, st, fn, args, rt)
	}
	panic(unsupported("intrinsic " + name))
}

type intrinFn func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, rt types.Type) []Outcome

var moreIntrinsics = map[string]intrinFn{}

func (x *Exec) allocReal(st *State, t types.Type) *PtrV {
	save := x.inSpec
	x.inSpec = 0
	defer func() { x.inSpec = save }()
	sp := st.spec
	st.spec = false
	defer func() { st.spec = sp }()
	return x.alloc(st, t)
}

func (x *Exec) addMod(st *State, v Value, t types.Type) {
	p, ok := v.(*PtrV)
	if !ok {
		if tm, ok2 := v.(*Term); ok2 && tm.sort == ifaceDT.Sort {
			pl := payload(tm)
			if pl != tm {
				vt := ifaceType[tm.name]
				x.addMod(st, fromTerm(pl, vt), vt)
				return
			}
		}
		panic(unsupported("Mod of a non-pointer"))
	}
	if p.cell != nil {
		return
	}
	if isStruct(p.typ) && !isTransparent(p.typ) {
		for _, k := range sortedKeys(ghostKeys) {
			x.modAdd("ghost!"+k, ghostKeys[k], p.ref)
		}
	}
	for _, lf := range leaves(p.typ) {
		full := joinPath(p.path, lf.path)
		if p.elem {
			x.modAdd(elemKey(p.root, full), elemSort(lf.typ), p.ref)
			continue
		}
		x.modAdd(rootKey(p.root)+"|"+full, sortOf(lf.typ), p.ref)
	}
}

func (x *Exec) modAdd(key string, vs *Sort, ref *Term) {
	if x.mods != nil {
		x.mods.add(key, vs, ref)
	}
}

func matchEvent(pat, name string) bool {
	for _, p := range strings.Split(pat, "|") {
		if strings.HasSuffix(p, "*") {
			if strings.HasPrefix(name, p[:len(p)-1]) {
				return true
			}
		} else if p == name {
			return true
		}
	}
	return false
}

func (x *Exec) eventIdx(st *State, pat string, k int) int {
	n := 0
	for i, e := range st.events {
		if matchEvent(pat, e.name) {
			if e.sum {
				return -1
			}
			if n == k {
				return i
			}
			n++
		}
	}
	return -1
}

func (x *Exec) findEvent(st *State, pat string, k int) *Event {
	if i := x.eventIdx(st, pat, k); i >= 0 {
		return st.events[i]
	}
	return nil
}

func init() {
	moreIntrinsics["PanicOf"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, rt types.Type) []Outcome {
		e := x.findEvent(st, strConst(args[0]), intConst(args[1]))
		if e == nil {
			v, _ := freshValue("noevent", rt, st.alloc)
			return ret(st, v)
		}
		if e.pv == nil {
			return ret(st, ifaceNil.Mk())
		}
		return ret(st, e.pv)
	}
	moreIntrinsics["LibError"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, rt types.Type) []Outcome {
		return ret(st, libErr(st, "lib"))
	}
	moreIntrinsics["Elems"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, rt types.Type) []Outcome {
		s := args[0].(*SliceV)
		if !s.off.isInt() || s.off.iv.Sign() != 0 {
			panic(unsupported("Elems of a slice that does not start its storage"))
		}
		return ret(st, x.sliceArr(st, s, "", s.elem))
	}
	moreIntrinsics["StrAt"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, rt types.Type) []Outcome {
		return ret(st, Select(args[0].(*Term), args[1].(*Term)))
	}
}
