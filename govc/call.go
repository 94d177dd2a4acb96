package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ret(st *State, vals ...Value) []Outcome {
	return []Outcome{{kind: oRet, st: st, vals: vals}}
}

func (x *Exec) doCall(fr *Frame, st *State, call *ssa.CallCommon, pos token.Pos, isGo bool) []Outcome {
	var fn Value = x.val(fr, call.Value)
	var args []Value
	for _, a := range call.Args {
		args = append(args, x.val(fr, a))
	}
	if isGo {
		return x.goStmt(fr, st, call, fn, args)
	}
	return x.callValue(fr, st, call, fn, args, pos, isGo)
}

func (x *Exec) goStmt(fr *Frame, st *State, call *ssa.CallCommon, fn Value, args []Value) []Outcome {
	name := "go:?"
	var typs []types.Type
	if call.IsInvoke() {
		name = "go:" + typeKey(call.Value.Type()) + "." + call.Method.Name()
		args = append([]Value{fn}, args...)
		typs = append(typs, call.Value.Type())
	} else if f, ok := fn.(*FuncV); ok && f.fn != nil {
		name = "go:" + fnName(f.fn)
		for i, b := range f.bindings {
			args = append(args, b)
			_ = i
		}
	}
	for _, a := range call.Args {
		typs = append(typs, a.Type())
	}
	if f, ok := fn.(*FuncV); ok && f.fn != nil {
		for _, fv := range f.fn.FreeVars {
			typs = append(typs, fv.Type())
		}
	}
	x.event(st, fr.fn, name, args, typs, nil, nil)
	f, ok := fn.(*FuncV)
	if !ok || f.fn == nil || x.inSpec > 0 {
		return ret(st)
	}
	if c := x.eng.byFn[f.fn]; c != nil {
		// it must be safe to start
		for _, r := range c.Requires {
			t := x.evalClause(st, st, r, args[:len(f.fn.Params)], nil)
			x.oblige(st, "requires", name+"@"+fnName(fr.fn)+"/"+r.Name, r.Props, t)
			st.assume(t)
		}
		return ret(st)
	}
	if x.eng.callsEvent(f.fn, map[*ssa.Function]bool{}) {
		// code of this function that runs later: what it calls counts
		x.assume["the body of a goroutine acts as if it ran where it is started"] = true
		return x.callStatic(fr, st, f.fn, args[:len(f.fn.Params)], f.bindings, call.Pos())
	}
	return ret(st)
}

// callsEvent: a function without contract that calls one under contract
func (e *Eng) callsEvent(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] || !isRepoFn(fn) {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if f := ci.Common().StaticCallee(); f != nil {
				if c := e.byFn[f]; c != nil && c.has("event") && !c.has("inline") {
					return true
				}
				if e.byFn[f] == nil && e.callsEvent(f, seen) {
					return true
				}
			}
		}
	}
	return false
}

// callValue calls a function value (or method, for invoke mode fn is the
// receiver).
func (x *Exec) callValue(fr *Frame, st *State, call *ssa.CallCommon, fn Value, args []Value, pos token.Pos, isGo bool) []Outcome {
	if call.IsInvoke() {
		return x.invoke(fr, st, toTerm(fn, call.Value.Type()), call.Value.Type(), call.Method, args, pos)
	}
	f, ok := fn.(*FuncV)
	if !ok {
		f = fromTerm(fn.(*Term), call.Value.Type()).(*FuncV)
	}
	if f.builtin != "" {
		return x.builtin(fr, st, f.builtin, call, args)
	}
	if f.fn != nil {
		return x.callStatic(fr, st, f.fn, args, f.bindings, pos)
	}
	if f.term.op == "ite" {
		var outs []Outcome
		t, fl := x.decide(st, f.term.args[0])
		if t {
			s2 := st.fork()
			s2.assume(f.term.args[0])
			outs = append(outs, x.callValue(fr, s2, call, fromTerm(f.term.args[1], call.Value.Type()), args, pos, isGo)...)
		}
		if fl {
			s2 := st.fork()
			s2.assume(Not(f.term.args[0]))
			outs = append(outs, x.callValue(fr, s2, call, fromTerm(f.term.args[2], call.Value.Type()), args, pos, isGo)...)
		}
		return outs
	}
	// unknown function value
	sig := under(call.Value.Type()).(*types.Signature)
	var typs []types.Type
	typs = append(typs, call.Value.Type())
	for _, a := range call.Args {
		typs = append(typs, a.Type())
	}
	var outs []Outcome
	if !st.spec {
		c := Eq(f.term, IntT(0))
		if x.feasible(st, c) {
			s2 := st.fork()
			s2.assume(c)
			outs = append(outs, Outcome{kind: oPanic, st: s2, pv: runtimePanic("nil dereference"), why: "call of nil function at " + x.pos(pos)})
		}
		st.assume(Not(c))
	}
	return append(outs, x.opaqueCall(fr, st, "dyn:"+typeKey(call.Value.Type()), append([]Value{f.term}, args...), typs, sig, true)...)
}

// opaqueCall: an event with fresh results
func (x *Exec) opaqueCall(fr *Frame, st *State, name string, args []Value, typs []types.Type, sig *types.Signature, mayPanic bool) []Outcome {
	st.newEpochQuiet()
	rv, facts := freshValue("r:"+short(name), sig.Results(), st.alloc)
	st.assume(facts...)
	vals := []Value(rv.(TupleV))
	var rt []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		rt = append(rt, sig.Results().At(i).Type())
	}
	x.assume["external call "+name+" returns an arbitrary value and leaves the library's own memory alone"] = true
	var outs []Outcome
	if mayPanic && !st.spec && x.inSpec == 0 {
		s2 := st.fork()
		pv := FreshVar("panicval", ifaceDT.Sort, s2.alloc)
		s2.assume(Not(ifaceNil.Is(pv)))
		if c := x.eng.contracts[name]; c != nil && strings.HasPrefix(name, "dyn:") {
			for _, p := range c.OnPanic {
				s2.assume(x.evalClause(s2, s2.fork(), p, args[1:], []Value{pv}))
			}
		}
		x.eventPV(s2, fr.fn, name, args, typs, nil, nil, pv)
		outs = append(outs, Outcome{kind: oPanic, st: s2, pv: pv, ext: true, why: "panic in " + name})
	}
	if c := x.eng.contracts[name]; c != nil && strings.HasPrefix(name, "dyn:") {
		x.assumeDyn(st, c, args[1:], vals)
	} else if c != nil && strings.HasPrefix(name, "iface:") && len(c.Ensures) > 0 {
		x.assumeDyn(st, c, args, vals)
	}
	x.event(st, fr.fn, name, args, typs, vals, rt)
	return append(outs, Outcome{kind: oRet, st: st, vals: vals})
}

// assumeDyn: what is assumed of functions of a named function type
func (x *Exec) assumeDyn(st *State, c *Contract, args, vals []Value) {
	x.assume["implementations of "+strings.SplitN(c.Target, ":", 2)[1]+" keep their stated contract"] = true
	pre := st.fork()
	ms := x.evalMods(pre, c, args)
	st.newEpoch()
	for _, key := range sortedKeys(ms.cells) {
		mc := ms.cells[key]
		n := st.node(key, mc.vs)
		st.heaps[key] = &HNode{kind: hHavoc, parent: n, sym: declSym(freshName("C!"+key), []*Sort{Int}, mc.vs, st.alloc), bound: pre.alloc, refs: mc.refs, vs: mc.vs, onlyRefs: true}
	}
	for _, en := range c.Ensures {
		st.assume(x.evalClause(st, pre, en, args, vals))
	}
}

func short(s string) string {
	if len(s) > 40 {
		return s[:40]
	}
	return s
}

// ---- interface method calls

func (x *Exec) concreteMethod(c *Ctor, m *types.Func) *ssa.Function {
	t := ifaceType[c.Name]
	sel := x.eng.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return x.eng.prog.MethodValue(sel)
}

// pureInvoke evaluates a method call in a specification, merging over the
// possible dynamic types of the receiver.
func (x *Exec) pureInvoke(fr *Frame, st *State, v *Term, it types.Type, m *types.Func, args []Value, pos token.Pos) []Value {
	sig := m.Type().(*types.Signature)
	und := func() []Value {
		rv, _ := freshValue("undef", sig.Results(), st.alloc)
		return rv.(TupleV)
	}
	if v.op == "ctor" {
		if v.name == "I_nil" {
			return und()
		}
		if v.name != "I_other" {
			c := findCtor(ifaceDT.Sort, v.name)
			if fn := x.concreteMethod(c, m); fn != nil {
				return x.callStatic(fr, st, fn, append([]Value{fromTerm(v.args[0], ifaceType[c.Name])}, args...), nil, pos)[0].vals
			}
		}
		return x.opaqueInvoke(fr, st, v, it, m, args)[0].vals
	}
	for _, c := range ifaceDT.Ctors {
		if k, ok := st.known(c.Is(v)); ok && k && c != ifaceOther && c != ifaceNil {
			return x.pureInvoke(fr, st, c.Mk(c.Sel(0, v)), it, m, args, pos)
		}
	}
	if !x.eng.closedIface(it) {
		return x.opaqueInvoke(fr, st, v, it, m, args)[0].vals
	}
	var res []Value
	og := st.guard
	if og == nil {
		og = tTrue
	}
	for _, c := range x.implCtors(it) {
		is := c.Is(v)
		if k, ok := st.known(is); ok && !k {
			continue
		}
		st.guard = And(og, is)
		if st.guard.isFalse() {
			continue
		}
		vs := x.pureInvoke(fr, st, c.Mk(c.Sel(0, v)), it, m, args, pos)
		if res == nil {
			res = append([]Value{}, vs...)
			continue
		}
		for i := range vs {
			res[i] = mergeValues(is, vs[i], res[i], sig.Results().At(i).Type())
		}
	}
	st.guard = og
	if res == nil {
		return und()
	}
	return res
}

func (x *Exec) invoke(fr *Frame, st *State, v *Term, it types.Type, m *types.Func, args []Value, pos token.Pos) []Outcome {
	if st.spec || x.inSpec > 0 {
		return ret(st, x.pureInvoke(fr, st, v, it, m, args, pos)...)
	}
	if v.op == "ctor" && v.name != "I_other" {
		if v.name == "I_nil" {
			if st.spec {
				return ret(st, x.freshResults(st, m)...)
			}
			return []Outcome{{kind: oPanic, st: st, pv: runtimePanic("nil dereference"), why: "method call on nil interface at " + x.pos(pos)}}
		}
		c := findCtor(ifaceDT.Sort, v.name)
		if c2 := x.eng.imethodContract(it, m); c2 != nil && x.useContract(c2) {
			return x.applyContract(fr, st, c2, m, append([]Value{v}, args...), pos)
		}
		if fn := x.concreteMethod(c, m); fn != nil {
			return x.callStatic(fr, st, fn, append([]Value{fromTerm(v.args[0], ifaceType[c.Name])}, args...), nil, pos)
		}
		return x.opaqueInvoke(fr, st, v, it, m, args)
	}
	if v.op == "ite" {
		var outs []Outcome
		t, fl := x.decide(st, v.args[0])
		for i, ok := range []bool{t, fl} {
			if !ok {
				continue
			}
			s2 := st.fork()
			if i == 0 {
				s2.assume(v.args[0])
			} else {
				s2.assume(Not(v.args[0]))
			}
			outs = append(outs, x.invoke(fr, s2, v.args[1+i], it, m, args, pos)...)
		}
		return outs
	}
	var outs []Outcome
	if c := ifaceNil.Is(v); x.feasible(st, c) {
		s2 := st.fork()
		s2.assume(c)
		outs = append(outs, Outcome{kind: oPanic, st: s2, pv: runtimePanic("nil dereference"), why: "method call on nil interface at " + x.pos(pos)})
	}
	st.assume(Not(ifaceNil.Is(v)))
	// the constructor may already be determined
	for _, c := range ifaceDT.Ctors {
		if k, ok := st.known(c.Is(v)); ok && k && c != ifaceOther {
			return append(outs, x.invoke(fr, st, c.Mk(c.Sel(0, v)), it, m, args, pos)...)
		}
	}
	if c2 := x.eng.imethodContract(it, m); c2 != nil && x.useContract(c2) {
		return append(outs, x.applyContract(fr, st, c2, m, append([]Value{v}, args...), pos)...)
	}
	if x.eng.closedIface(it) {
		cs := x.implCtors(it)
		st.assume(x.oneOf(v, cs))
		for _, c := range cs {
			is := c.Is(v)
			if !x.feasible(st, is) {
				continue
			}
			s2 := st.fork()
			s2.assume(is)
			pay := c.Sel(0, v)
			if _, ok := under(ifaceType[c.Name]).(*types.Pointer); ok {
				s2.assume(Gt(pay, IntT(0)))
			}
			outs = append(outs, x.invoke(fr, s2, c.Mk(pay), it, m, args, pos)...)
		}
		return outs
	}
	return append(outs, x.opaqueInvoke(fr, st, v, it, m, args)...)
}

func (x *Exec) oneOf(v *Term, cs []*Ctor) *Term {
	var or []*Term
	for _, c := range cs {
		or = append(or, c.Is(v))
	}
	return Or(or...)
}

func (x *Exec) implCtors(it types.Type) []*Ctor {
	var cs []*Ctor
	ifc := under(it).(*types.Interface)
	for _, c := range ifaceDT.Ctors {
		if t, ok := ifaceType[c.Name]; ok && types.Implements(t, ifc) && repoType(t) {
			cs = append(cs, c)
		}
	}
	return cs
}

func repoType(t types.Type) bool {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), repoPath)
}

func (e *Eng) closedIface(t types.Type) bool {
	c := e.contracts["iface:"+typeKey(t)]
	return c != nil && c.has("closed")
}

func (e *Eng) imethodContract(it types.Type, m *types.Func) *Contract {
	c := e.contracts[typeKey(it)+"."+m.Name()]
	if c != nil && c.IMethod {
		return c
	}
	return nil
}

func (x *Exec) freshResults(st *State, m *types.Func) []Value {
	rv, facts := freshValue("r:"+m.Name(), m.Type().(*types.Signature).Results(), st.alloc)
	st.assume(facts...)
	return rv.(TupleV)
}

func (x *Exec) opaqueInvoke(fr *Frame, st *State, v *Term, it types.Type, m *types.Func, args []Value) []Outcome {
	sig := m.Type().(*types.Signature)
	typs := []types.Type{it}
	for i := 0; i < sig.Params().Len(); i++ {
		typs = append(typs, sig.Params().At(i).Type())
	}
	full := typeKey(it) + "." + m.Name()
	if md, ok := ifaceModels[full]; ok {
		return md(x, fr, st, v, it, m, args)
	}
	if mf, ok := x.eng.models["iface:"+full]; ok {
		x.assume["trusted model of "+full] = true
		all := append([]Value{v}, args...)
		if x.inSpec > 0 {
			return ret(st, x.evalPure(st, mf, all, nil)...)
		}
		x.inModel++
		outs := x.callFn(st, mf, all, nil, fr)
		x.inModel--
		return outs
	}
	if st.spec {
		return ret(st, x.ufCall("inv:"+full, append([]Value{v}, args...), typs, sig)...)
	}
	// Error() on an arbitrary error: a function of the error
	if pureMethods[m.Name()] && sig.Results().Len() == 1 && sig.Params().Len() == 0 {
		return ret(st, x.ufCall("inv:"+full, append([]Value{v}, args...), typs, sig)...)
	}
	return x.opaqueCall(fr, st, "iface:"+full, append([]Value{v}, args...), typs, sig, !trustedIface(it))
}

var pureMethods = map[string]bool{"Error": true, "Err": true, "String": true}

// standard-library interfaces are assumed not to panic
func trustedIface(it types.Type) bool {
	if n, ok := types.Unalias(it).(*types.Named); ok && n.Obj().Pkg() != nil {
		return !strings.HasPrefix(n.Obj().Pkg().Path(), repoPath)
	}
	return true
}

// ---- static calls

func (x *Exec) useContract(c *Contract) bool {
	if c.has("inline") {
		return false
	}
	if x.inSpec > 0 {
		return false
	}
	return len(c.Ensures) > 0 || len(c.Panics) > 0 || len(c.Modifies) > 0
}

func (x *Exec) callStatic(fr *Frame, st *State, fn *ssa.Function, args, bindings []Value, pos token.Pos) []Outcome {
	if p := fnPkg(fn); p != nil && p.Path() == vcPath {
		return x.intrinsic(fr, st, fn, args, pos)
	}
	full := fn.String()
	if o := fn.Origin(); o != nil {
		full = o.String()
	}
	if mf, ok := x.eng.models[full]; ok && fn != mf {
		x.assume["trusted model of "+full] = true
		if x.inSpec > 0 {
			return ret(st, x.evalPure(st, mf, args, nil)...)
		}
		x.inModel++
		outs := x.callFn(st, mf, args, nil, fr)
		x.inModel--
		return outs
	}
	if m, ok := goModels[full]; ok {
		x.assume["trusted model of "+full] = true
		return m(x, fr, st, fn, args, pos)
	}
	if x.eng.recs[fn] {
		return ret(st, x.recCall(st, fn, args))
	}
	if c := x.eng.byFn[fn]; c != nil && x.useContract(c) {
		return x.applyContract(fr, st, c, nil, args, pos)
	} else if c != nil && (c.has("event") && !c.has("inline") || x.target != nil && hasProp(splitProps(c.Attrs["eventin"]), x.target.Target)) && x.inSpec == 0 {
		// the call itself is what the caller's contract speaks about
		var typs []types.Type
		for _, p := range fn.Params {
			typs = append(typs, p.Type())
		}
		return x.opaqueCall(fr, st, c.Target, args, typs, fn.Signature, true)
	}
	if len(fn.Blocks) > 0 && (isRepoFn(fn) || fn.Synthetic != "") {
		// an implementation of an interface method under contract
		if c := x.eng.implContract(fn); c != nil && x.useContract(c) && fn.Signature.Recv() != nil {
			rt := fn.Signature.Recv().Type()
			if v := x.asIface(st, args[0], rt); v != nil {
				return x.applyContract(fr, st, c, nil, append([]Value{v}, args[1:]...), pos)
			}
		}
		if x.inSpec > 0 {
			return ret(st, x.evalPure(st, fn, args, bindings)...)
		}
		if fn.Synthetic == "" {
			x.inl[fnName(fn)] = true
		}
		return x.callFn(st, fn, args, bindings, fr)
	}
	return x.external(fr, st, fn, args, pos)
}

// asIface wraps a receiver of a registered pointer type
func (x *Exec) asIface(st *State, v Value, t types.Type) Value {
	if _, ok := ifaceByType[typeKey(t)]; !ok {
		return nil
	}
	return x.makeIface(st, v, t)
}

func (e *Eng) implContract(fn *ssa.Function) *Contract {
	if e.implOf == nil {
		e.implOf = map[*ssa.Function]*Contract{}
		for _, c := range e.contracts {
			if c.IMethod {
				for _, f := range c.Impls {
					e.implOf[f] = c
				}
			}
		}
	}
	return e.implOf[fn]
}

func scalarSort(s *Sort) bool { return s == Int || s == Bool || s == String || s == Float }

func (x *Exec) ufCall(name string, args []Value, typs []types.Type, sig *types.Signature) []Value {
	var ts []*Term
	for i, a := range args {
		var t types.Type
		if i < len(typs) {
			t = typs[i]
		}
		ts = append(ts, toTerm(a, t))
	}
	var out []Value
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		n := name
		if i > 0 {
			n = fmt.Sprintf("%s#%d", name, i)
		}
		out = append(out, fromTerm(UF(n, sortOf(rt), ts...), rt))
	}
	return out
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "path": true, "unicode": true, "net/url": true, "net/textproto": true, "math": true, "bytes": true}
var quietPkgs = map[string]bool{"fmt": true, "errors": true, "github.com/pkg/errors": true, "github.com/sirupsen/logrus": true, "time": true, "context": true, "github.com/google/uuid": true, "log": true}

// quietFns only keep what they are given; they write nothing of it
var quietFns = map[string]bool{"golang.org/x/net/http2/h2c.NewHandler": true}

func (x *Exec) external(fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	full := fn.String()
	sig := fn.Signature
	var typs []types.Type
	for _, p := range fn.Params {
		typs = append(typs, p.Type())
	}
	if len(fn.Params) == 0 && len(args) > 0 {
		if r := sig.Recv(); r != nil {
			typs = append(typs, r.Type())
		}
		for i := 0; i < sig.Params().Len(); i++ {
			typs = append(typs, sig.Params().At(i).Type())
		}
	}
	pk := ""
	if p := fnPkg(fn); p != nil {
		pk = p.Path()
	}
	scalar := sig.Results().Len() > 0
	for i := range args {
		if !scalarSort(sortOf(typs[i])) && sortOf(typs[i]).Kind != SUnint {
			scalar = false
		}
		if _, ok := under(typs[i]).(*types.Pointer); ok {
			scalar = false
		}
	}
	if recv := sig.Recv(); recv != nil && typeKey(recv.Type()) == "json.Number" {
		scalar, pk = true, "strconv"
	}
	if (purePkgs[pk] && scalar) || st.spec || x.inSpec > 0 {
		x.assume["external function "+full+" is a deterministic function of its arguments"] = true
		vals := x.ufCall(full, args, typs, sig)
		for i := range vals {
			if t, ok := vals[i].(*Term); ok {
				st.assume(typeFacts(t, sig.Results().At(i).Type())...)
			}
			x.loadFacts(st, vals[i], sig.Results().At(i).Type())
		}
		return ret(st, vals...)
	}
	// memory handed over directly may be written by the callee
	if !quietPkgs[pk] && !purePkgs[pk] && !quietFns[full] {
		for i, a := range args {
			if i == 0 && sig.Recv() != nil {
				continue
			}
			x.havocArg(st, a, typs[i])
		}
	}
	outs := x.opaqueCall(fr, st, "call:"+full, args, typs, sig, false)
	for _, o := range outs {
		if o.kind == oRet {
			x.resultConvention(o.st, o.vals, sig)
			if pk != "fmt" {
				x.foreignErrors(o.st, o.vals, sig)
			}
		}
	}
	return outs
}

// foreignErrors: what a library outside the repository reports wraps none of
// the repository's error values
func (x *Exec) foreignErrors(st *State, vals []Value, sig *types.Signature) {
	for i, v := range vals {
		t, ok := v.(*Term)
		if !ok || !types.Identical(sig.Results().At(i).Type(), types.Universe.Lookup("error").Type()) {
			continue
		}
		x.assume["errors returned by external calls are not, and do not wrap, errors of the repository's own types"] = true
		for _, c := range x.errTypes() {
			if !x.eng.repoType(ifaceType[c.Name]) {
				continue
			}
			if h, _ := x.errAs(t, c); !h.isFalse() {
				st.assume(Not(h))
			}
		}
	}
}

// resultConvention: (value, error) results follow Go's convention
func (x *Exec) resultConvention(st *State, vals []Value, sig *types.Signature) {
	n := sig.Results().Len()
	nonNil := func(v Value, t types.Type) *Term {
		switch under(t).(type) {
		case *types.Pointer:
			return Gt(toTerm(v, t), IntT(0))
		case *types.Interface:
			return Not(ifaceNil.Is(toTerm(v, t)))
		}
		return nil
	}
	if n == 1 {
		if t := sig.Results().At(0).Type(); !isIface(t) {
			if c := nonNil(vals[0], t); c != nil {
				st.assume(c)
				x.assume["pointer results of external constructors are non-nil"] = true
			}
		}
		return
	}
	if n < 2 {
		return
	}
	last := sig.Results().At(n - 1).Type()
	if !isIface(last) || !isErrorIface(under(last).(*types.Interface)) {
		return
	}
	ok := ifaceNil.Is(toTerm(vals[n-1], last))
	for i := 0; i < n-1; i++ {
		if c := nonNil(vals[i], sig.Results().At(i).Type()); c != nil {
			st.assume(Implies(ok, c))
			x.assume["external functions returning (value, error) return a non-nil value when the error is nil"] = true
		}
	}
}

func (x *Exec) havocArg(st *State, a Value, t types.Type) {
	if tm, ok := a.(*Term); ok && isIface(t) {
		if tm.op == "ctor" && len(tm.args) == 1 {
			if ty, ok := ifaceType[tm.name]; ok {
				x.havocArg(st, fromTerm(tm.args[0], ty), ty)
			}
		}
		return
	}
	p, ok := a.(*PtrV)
	if !ok || p.cell != nil || p.glob != nil {
		return
	}
	if _, ok := exactAge(p.ref); !ok {
		return // only memory this call allocated itself
	}
	if _, isA := under(p.typ).(*types.Array); isA {
		return
	}
	v, facts := freshValue("out", p.typ, st.alloc)
	st.assume(facts...)
	x.store(st, p, v)
}

func (s *State) newEpochQuiet() { s.newEpoch() }

// ---- builtins

func (x *Exec) builtin(fr *Frame, st *State, name string, call *ssa.CallCommon, args []Value) []Outcome {
	switch name {
	case "len", "cap":
		t := call.Args[0].Type()
		switch u := under(t).(type) {
		case *types.Slice:
			s := args[0].(*SliceV)
			if name == "len" {
				return ret(st, s.len)
			}
			return ret(st, s.cap)
		case *types.Basic:
			return ret(st, StrLen(args[0].(*Term)))
		case *types.Map:
			return ret(st, x.mapLen(st, u, args[0].(*Term)))
		case *types.Array:
			return ret(st, IntT(u.Len()))
		case *types.Chan:
			v := FreshVar("chanlen", Int, st.alloc)
			st.assume(Ge(v, IntT(0)))
			return ret(st, v)
		}
	case "append":
		return x.appendSlice(fr, st, args[0].(*SliceV), args[1], call)
	case "copy":
		d := args[0].(*SliceV)
		if s, ok := args[1].(*SliceV); ok {
			return ret(st, x.copySlice(st, d, s))
		}
	case "delete":
		m := under(call.Args[0].Type()).(*types.Map)
		ref := args[0].(*Term)
		if t, f := x.decide(st, Eq(ref, IntT(0))); t && !f {
			return ret(st)
		} else if t {
			s2 := st.fork()
			s2.assume(Eq(ref, IntT(0)))
			st.assume(Not(Eq(ref, IntT(0))))
			x.mapDelete(st, m, ref, toTerm(args[1], m.Key()))
			return append(ret(st), ret(s2)...)
		}
		x.mapDelete(st, m, ref, toTerm(args[1], m.Key()))
		return ret(st)
	case "close":
		x.event(st, fr.fn, "chan.close", args, []types.Type{call.Args[0].Type()}, nil, nil)
		return ret(st)
	case "recover":
		if st.panicV != nil && !st.recovd {
			st.recovd = true
			return ret(st, st.panicV)
		}
		return ret(st, ifaceNil.Mk())
	case "print", "println":
		return ret(st)
	case "ssa:wrapnilchk":
		return ret(st, args[0])
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			c := Le(r, a.(*Term))
			if name == "min" {
				r = Ite(c, r, a.(*Term))
			} else {
				r = Ite(c, a.(*Term), r)
			}
		}
		return ret(st, r)
	}
	panic(unsupported("builtin " + name))
}

func (x *Exec) appendSlice(fr *Frame, st *State, s *SliceV, more Value, call *ssa.CallCommon) []Outcome {
	if t, ok := more.(*Term); ok { // append([]byte, string...)
		cur := x.bytesToString(st, s)
		return ret(st, x.stringToBytes(st, Concat(cur, t)))
	}
	m := more.(*SliceV)
	if isByte(s.elem) {
		return ret(st, x.stringToBytes(st, Concat(x.bytesToString(st, s), x.bytesToString(st, m))))
	}
	if m.len.isInt() && m.len.iv.Sign() == 0 {
		return ret(st, s)
	}
	nl := Add(s.len, m.len)
	fits := Le(nl, s.cap)
	var outs []Outcome
	t, f := x.decide(st, fits)
	if x.inSpec > 0 {
		t, f = false, true
	}
	if t {
		s2 := st
		if f {
			s2 = st.fork()
			s2.assume(fits)
		}
		r := &SliceV{s.base, s.off, nl, s.cap, s.elem}
		for _, lf := range leaves(s.elem) {
			so := elemSort(lf.typ)
			key := elemKey(s.elem, lf.path)
			arr := x.readHeap(s2, key, so, s.base)
			na := x.spliced(s2, arr, Add(s.off, s.len), x.readHeap(s2, key, so, m.base), m.off, m.len, so)
			x.writeHeap(s2, key, so, s.base, na)
		}
		outs = append(outs, Outcome{kind: oRet, st: s2, vals: []Value{r}})
		if !f {
			return outs
		}
	}
	if f {
		if t {
			st.assume(Not(fits))
		}
		ref := st.newRef()
		c := FreshVar("cap", Int, st.alloc)
		st.assume(Ge(c, nl))
		r := &SliceV{ref, IntT(0), nl, c, s.elem}
		for _, lf := range leaves(s.elem) {
			so := elemSort(lf.typ)
			key := elemKey(s.elem, lf.path)
			var base *Term
			if s.len.isInt() && s.len.iv.Sign() == 0 {
				base = ConstArr(so, zeroTerm(lf.typ))
			} else {
				arr := x.readHeap(st, key, so, s.base)
				base = x.shifted(st, arr, s.off, s.len, so)
			}
			na := x.spliced(st, base, s.len, x.readHeap(st, key, so, m.base), m.off, m.len, so)
			x.writeHeap(st, key, so, ref, na)
		}
		outs = append(outs, Outcome{kind: oRet, st: st, vals: []Value{r}})
	}
	return outs
}

// shifted: an array whose index i is arr[off+i]
func (x *Exec) shifted(st *State, arr, off, n *Term, so *Sort) *Term {
	if off.isInt() && off.iv.Sign() == 0 {
		return arr
	}
	a := FreshVar("shift", so, st.alloc)
	i := BoundVar(Int)
	st.assume(Forall([]*Term{i}, Implies(And(Le(IntT(0), i), Lt(i, n)), Same(Select(a, i), Select(arr, Add(off, i))))))
	return a
}

// spliced: dst with n elements of src (from soff) written at doff
func (x *Exec) spliced(st *State, dst, doff, src, soff, n *Term, so *Sort) *Term {
	if n.isInt() && n.iv.Int64() <= 12 {
		for i := int64(0); i < n.iv.Int64(); i++ {
			dst = Store(dst, Add(doff, IntT(i)), Select(src, Add(soff, IntT(i))))
		}
		return dst
	}
	a := FreshVar("splice", so, st.alloc)
	i := BoundVar(Int)
	in := And(Le(doff, i), Lt(i, Add(doff, n)))
	st.assume(Forall([]*Term{i}, Same(Select(a, i), Ite(in, Select(src, Add(Sub(i, doff), soff)), Select(dst, i)))))
	return a
}

func (x *Exec) copySlice(st *State, d, s *SliceV) *Term {
	n := Ite(Le(d.len, s.len), d.len, s.len)
	if v, ok := st.known(Le(d.len, s.len)); ok {
		if v {
			n = d.len
		} else {
			n = s.len
		}
	}
	if d.len == s.len {
		n = d.len
	}
	for _, lf := range leaves(d.elem) {
		so := elemSort(lf.typ)
		key := elemKey(d.elem, lf.path)
		if so == String && isByte(lf.typ) {
			panic(unsupported("copy of bytes"))
		}
		da, sa := x.readHeap(st, key, so, d.base), x.readHeap(st, key, so, s.base)
		x.writeHeap(st, key, so, d.base, x.spliced(st, da, d.off, sa, s.off, n, so))
	}
	return n
}

// ---- contracts at call sites

func (x *Exec) applyContract(fr *Frame, st *State, c *Contract, m *types.Func, args []Value, pos token.Pos) []Outcome {
	x.used[c.Target] = true
	site := c.Target + "@" + fnName(fr.fn)
	for _, r := range c.Requires {
		t := x.evalClause(st, st, r, args, nil)
		x.oblige(st, "requires", site+"/"+r.Name, r.Props, t)
		st.assume(t)
	}
	pre := st.fork()
	var sig *types.Signature
	if c.Fn != nil {
		sig = c.Fn.Signature
	} else {
		sig = c.Impls[0].Signature
	}
	// effects
	ms := x.evalMods(pre, c, args)
	st.newEpoch()
	bound := pre.alloc
	for _, key := range sortedKeys(ms.cells) {
		mc := ms.cells[key]
		n := st.node(key, mc.vs)
		st.heaps[key] = &HNode{kind: hHavoc, parent: n, sym: declSym(freshName("C!"+key), []*Sort{Int}, mc.vs, st.alloc), bound: bound, refs: mc.refs, vs: mc.vs, onlyRefs: true}
	}
	var outs []Outcome
	if len(c.Panics) > 0 {
		for _, p := range c.Panics {
			pc := x.evalClause(pre, pre, p, args, []Value{})
			if x.feasible(st, pc) {
				s2 := st.fork()
				s2.assume(pc)
				pv := FreshVar("panicval", ifaceDT.Sort, s2.alloc)
				s2.assume(Not(ifaceNil.Is(pv)))
				if c.has("event") {
					x.event(s2, fr.fn, c.Target, args, sigTypes(sig), nil, nil)
				}
				outs = append(outs, Outcome{kind: oPanic, st: s2, pv: pv, why: "panic of " + c.Target + " called at " + x.pos(pos)})
			}
			st.assume(Not(pc))
		}
	}
	if c.has("extpanic") && !st.spec {
		// foreign code called by the callee may panic
		s2 := st.fork()
		pv := FreshVar("panicval", ifaceDT.Sort, s2.alloc)
		s2.assume(Not(ifaceNil.Is(pv)))
		for _, p := range c.OnPanic {
			if _, local := p.Attrs["local"]; !local {
				s2.assume(x.evalClause(s2, pre, p, args, []Value{pv}))
			}
		}
		if c.has("event") {
			x.eventPV(s2, fr.fn, c.Target, args, sigTypes(sig), nil, nil, pv)
		}
		outs = append(outs, Outcome{kind: oPanic, st: s2, pv: pv, ext: true, why: "foreign panic in " + c.Target + " called at " + x.pos(pos)})
	}
	rv, facts := freshValue("r:"+c.Target, sig.Results(), st.alloc)
	st.assume(facts...)
	vals := []Value(rv.(TupleV))
	for _, i := range c.Fresh {
		x.makeFresh(st, &vals[i], sig.Results().At(i).Type(), pre.alloc)
	}
	for _, en := range c.Ensures {
		if _, ok := en.Attrs["local"]; ok {
			continue // not exported to callers
		}
		t := x.evalClause(st, pre, en, args, vals)
		st.assume(t)
	}
	if !st.spec {
		if res := x.check(st); res == Unsat {
			return outs
		}
	}
	if c.has("event") {
		var rt []types.Type
		for i := 0; i < sig.Results().Len(); i++ {
			rt = append(rt, sig.Results().At(i).Type())
		}
		x.event(st, fr.fn, c.Target, args, sigTypes(sig), vals, rt)
	}
	return append(outs, Outcome{kind: oRet, st: st, vals: vals})
}

func sigTypes(sig *types.Signature) []types.Type {
	var ts []types.Type
	if r := sig.Recv(); r != nil {
		ts = append(ts, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

// makeFresh: a reference allocated by the callee
func (x *Exec) makeFresh(st *State, v *Value, t types.Type, low Age) {
	n := freshName("fresh")
	sym := declSym(n, nil, Int, st.alloc)
	sym.HasLow, sym.Low = true, low
	r := VarOf(sym)
	st.assume(Gt(r, allocTerm(low)), Le(r, allocTerm(st.alloc)))
	switch u := under(t).(type) {
	case *types.Pointer, *types.Map:
		*v = fromTerm(r, t)
	case *types.Slice:
		s := (*v).(*SliceV)
		*v = &SliceV{r, IntT(0), s.len, s.cap, u.Elem()}
	case *types.Interface:
		// stays symbolic
	}
}

type modCell struct {
	vs   *Sort
	refs []*Term
}
type modSet struct{ cells map[string]*modCell }

func (m *modSet) add(key string, vs *Sort, ref *Term) {
	c := m.cells[key]
	if c == nil {
		c = &modCell{vs: vs}
		m.cells[key] = c
	}
	for _, r := range c.refs {
		if r == ref {
			return
		}
	}
	c.refs = append(c.refs, ref)
}

func (x *Exec) evalMods(st *State, c *Contract, args []Value) *modSet {
	ms := &modSet{cells: map[string]*modCell{}}
	save := x.mods
	x.mods = ms
	for _, m := range c.Modifies {
		x.evalClauseV(st, st, m, args, nil)
	}
	x.mods = save
	return ms
}

func (e *Eng) repoType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), repoPath)
}
