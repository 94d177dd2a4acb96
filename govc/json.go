package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Trusted model of encoding/json. A JSON document is its text D. The model
// fixes which members and elements a decoder looks at, what it takes from
// them, and that decoding is a function of the text:
//
//	json.doc(src,pos)     text of the pos-th value in a byte source
//	json.hasdoc(src,pos)  it is a syntactically valid value
//	json.has(D,name)      D is an object with a non-null member name
//	json.member(D,name)   its text
//	json.isobj/islist/isstr/isint(D), json.null(D)
//	json.any(D,num)       the interface value decoded from D (num: UseNumber)
//	json.len(D), json.elem(D,i)  the elements of a list
//	json.text(v)          the text an interface value encodes to
//	json.norm(D)          the value D denotes, abstracting from its spelling

func jD(n string, ret *Sort, ts ...*Term) *Term { return SpecUF("json."+n, ret, ts...) }

func (x *Exec) ghostGet(st *State, name string, so *Sort, ref *Term) *Term {
	return x.readHeap(st, "ghost!"+name, so, ref)
}
func (x *Exec) ghostSet(st *State, name string, so *Sort, ref, v *Term) {
	x.writeHeap(st, "ghost!"+name, so, ref, v)
}

var ghostKeys = map[string]*Sort{"src": String, "pos": Int, "num": Bool}

// jsonNames: every member name a json tag of the repository mentions
var jsonNames = map[string]bool{}

func isRawMessage(t types.Type) bool {
	if a, ok := t.(*types.Alias); ok && a.Obj().Name() == "RawMessage" {
		return true
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json" && n.Obj().Name() == "RawMessage"
}

func hasJSONMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(types.NewPointer(t))
	return ms.Lookup(nil, name) != nil
}

// readerText: what an io.Reader delivers
func (x *Exec) readerText(st *State, v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		t = refTerm(v)
	}
	if t.op == "ctor" && len(t.args) == 1 && t.args[0].sort == Int {
		return x.ghostGet(st, "src", String, t.args[0])
	}
	if t.sort == Int {
		return x.ghostGet(st, "src", String, t)
	}
	return SpecUF("reader.text", String, t)
}

// jNull: d is the null document; a member that is there is not
func jNull(st *State, d *Term) *Term {
	// json.member is only looked at where the member is there and not null
	if d.op == "app" && strings.HasPrefix(d.name, "json.member") {
		return tFalse
	}
	n := jD("null", Bool, d)
	if v, ok := st.known(n); ok {
		return BoolT(v)
	}
	return n
}

func isMember(d, pos *Term) bool {
	return d.op == "app" && strings.HasPrefix(d.name, "json.member") && pos.isInt() && pos.iv.Sign() == 0
}

func jDoc(src, pos *Term) *Term {
	if isMember(src, pos) {
		return src
	}
	return jD("doc", String, src, pos)
}

func jHasDoc(src, pos *Term) *Term {
	if isMember(src, pos) {
		return tTrue
	}
	return jD("hasdoc", Bool, src, pos)
}

// decoded gives the condition under which text d decodes into type t and the
// resulting value (old: the value already there, kept on null).
func (x *Exec) decoded(st *State, t types.Type, d, num *Term, old Value) (*Term, Value) {
	if isRawMessage(t) {
		st.assume(jD("valid", Bool, d))
		s := x.stringToBytes(st, d)
		return tTrue, s
	}
	null := jNull(st, d)
	if hasJSONMethod(t, "UnmarshalJSON") {
		panic(unsupported("custom unmarshaller of " + t.String()))
	}
	switch u := under(t).(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			panic(unsupported("json into " + t.String()))
		}
		v := jD("any", ifaceDT.Sort, d, num)
		st.assume(Implies(num, Same(jD("norm", Int, jD("text", String, v)), jD("norm", Int, d))))
		st.assume(Same(ifaceNil.Is(v), null))
		return tTrue, v
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Or(null, jD("isstr", Bool, d)), Ite(null, toTerm(old, t), jD("str", String, d))
		case u.Info()&types.IsBoolean != 0:
			return Or(null, jD("isbool", Bool, d)), Ite(null, toTerm(old, t), jD("bool", Bool, d))
		case u.Info()&types.IsInteger != 0:
			v := jD("int:"+u.Name(), Int, d)
			st.assume(typeFacts(v, t)...)
			return Or(null, jD("isint:"+u.Name(), Bool, d)), Ite(null, toTerm(old, t), v)
		case u.Info()&types.IsFloat != 0:
			return Or(null, jD("isnum", Bool, d)), Ite(null, toTerm(old, t), jD("float", Float, d))
		}
	case *types.Pointer:
		e := u.Elem()
		p := x.allocReal(st, e)
		ok, v := x.decoded(st, e, d, num, zeroValue(e))
		x.store(st, p, v)
		r := Ite(null, IntT(0), p.ref)
		return Or(null, ok), fromTerm(r, t)
	case *types.Slice:
		if isByte(u.Elem()) {
			return Or(null, jD("isstr", Bool, d)), x.stringToBytes(st, jD("base64", String, d))
		}
		if it, ok := under(u.Elem()).(*types.Interface); ok && it.NumMethods() == 0 {
			n := jD("len", Int, d)
			st.assume(Ge(n, IntT(0)))
			ref := st.newRef()
			so := ArraySort(Int, ifaceDT.Sort)
			arr := jD("elems", so, d, num)
			b := BoundVar(Int)
			v := jD("any", ifaceDT.Sort, jD("elem", String, d, b), num)
			st.assume(Forall([]*Term{b}, Same(Select(arr, b), v)))
			st.assume(Implies(num, Forall([]*Term{b}, Same(jD("norm", Int, jD("text", String, Select(arr, b))), jD("norm", Int, jD("elem", String, d, b))))))
			x.writeHeap(st, elemKey(u.Elem(), ""), so, ref, arr)
			return Or(null, jD("islist", Bool, d)), &SliceV{Ite(null, IntT(0), ref), IntT(0), Ite(null, IntT(0), n), Ite(null, IntT(0), n), u.Elem()}
		}
		ref := st.newRef()
		n := jD("len", Int, d)
		st.assume(Ge(n, IntT(0)))
		for _, lf := range leaves(u.Elem()) {
			so := elemSort(lf.typ)
			x.writeHeap(st, elemKey(u.Elem(), lf.path), so, ref, jD("elems:"+typeKey(u.Elem())+lf.path, so, d, num))
		}
		return Or(null, jD("islist:"+typeKey(u.Elem()), Bool, d)), &SliceV{Ite(null, IntT(0), ref), IntT(0), Ite(null, IntT(0), n), Ite(null, IntT(0), n), u.Elem()}
	case *types.Map:
		if it, ok := under(u.Elem()).(*types.Interface); ok && it.NumMethods() == 0 && sortOf(u.Key()) == String {
			// every member, null ones included
			ref := x.newMap(st, u)
			keys, vals := jD("keys", ArraySort(String, Bool), d), jD("vals", ArraySort(String, ifaceDT.Sort), d, num)
			k := BoundVar(String)
			st.assume(Forall([]*Term{k}, And(
				Same(Select(keys, k), jD("present", Bool, d, k)),
				Implies(jD("present", Bool, d, k), Same(Select(vals, k), jD("any", ifaceDT.Sort, jD("member", String, d, k), num))))))
			x.writeHeap(st, mapBase(u)+"#d", ArraySort(String, Bool), ref, keys)
			x.writeHeap(st, mapBase(u)+"#v.", ArraySort(String, ifaceDT.Sort), ref, vals)
			n := jD("size", Int, d)
			st.assume(Ge(n, IntT(0)))
			x.writeHeap(st, mapBase(u)+"#n", Int, ref, n)
			return Or(null, jD("isobj", Bool, d)), Ite(null, toTerm(old, t), ref)
		}
		ref := x.newMap(st, u)
		ks, vs := sortOf(u.Key()), ""
		for _, lf := range leaves(u.Elem()) {
			vs += lf.path
			x.writeHeap(st, mapBase(u)+"#v."+lf.path, ArraySort(ks, sortOf(lf.typ)), ref, jD("vals:"+typeKey(u.Elem())+lf.path, ArraySort(ks, sortOf(lf.typ)), d, num))
		}
		x.writeHeap(st, mapBase(u)+"#d", ArraySort(ks, Bool), ref, jD("keys", ArraySort(ks, Bool), d))
		n := jD("size", Int, d)
		st.assume(Ge(n, IntT(0)))
		x.writeHeap(st, mapBase(u)+"#n", Int, ref, n)
		return Or(null, jD("isobj:"+typeKey(u.Elem()), Bool, d)), Ite(null, toTerm(old, t), ref)
	case *types.Struct:
		if !isTransparent(t) {
			break
		}
		sv, ok := old.(*StructV)
		if !ok {
			sv = fromTerm(old.(*Term), t).(*StructV)
		}
		out := &StructV{typ: t, fields: append([]Value{}, sv.fields...)}
		conds := []*Term{Or(null, jD("isobj", Bool, d))}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			name, _, skip := jsonName(f, u.Tag(i))
			if skip {
				continue
			}
			if f.Embedded() {
				panic(unsupported("json into embedded field"))
			}
			has := And(Not(null), jD("has", Bool, d, StrT(name)))
			m := jD("member", String, d, StrT(name))
			st.assume(Implies(has, Not(jD("null", Bool, m))))
			ok, v := x.decoded(st, f.Type(), m, num, sv.fields[i])
			conds = append(conds, Implies(has, ok))
			out.fields[i] = fromTerm(Ite(has, toTerm(v, f.Type()), toTerm(sv.fields[i], f.Type())), f.Type())
			if s, ok := v.(*SliceV); ok && isByte(s.elem) {
				if has.isTrue() {
					out.fields[i] = s
				}
			}
		}
		return And(conds...), out
	}
	panic(unsupported("json into " + t.String()))
}

func jsonName(f *types.Var, tag string) (name string, omitempty, skip bool) {
	if !f.Exported() && !f.Embedded() {
		return "", false, true
	}
	parts := strings.Split(reflect.StructTag(tag).Get("json"), ",")
	name = parts[0]
	if name == "-" {
		return "", false, true
	}
	if name == "" {
		name = f.Name()
	}
	for _, p := range parts[1:] {
		if p == "omitempty" {
			omitempty = true
		} else if p != "" {
			panic(unsupported("json tag option " + p))
		}
	}
	return
}

// decodeInto stores the decoding of d at the pointer held by target: one
// outcome for success, one for failure.
func (x *Exec) decodeInto(st *State, target Value, okDoc, d, num *Term) []Outcome {
	t, isT := target.(*Term)
	if !isT || t.op != "ctor" || len(t.args) != 1 {
		panic(unsupported("json decoding into an unknown target"))
	}
	pt, ok := under(ifaceType[t.name]).(*types.Pointer)
	if !ok {
		panic(unsupported("json decoding into a non-pointer"))
	}
	p := fromTerm(t.args[0], ifaceType[t.name]).(*PtrV)
	if p.typ == nil {
		p.typ = pt.Elem()
	}
	bad := st.fork()
	old := x.load(st, p)
	ok2, v := x.decoded(st, pt.Elem(), d, num, old)
	good := And(okDoc, ok2)
	var outs []Outcome
	gt, gf := x.decide(st, good)
	if gt {
		st.assume(good)
		x.store(st, p, v)
		outs = append(outs, ret(st, ifaceNil.Mk())...)
	}
	if gf {
		bad.assume(Not(good))
		junk, facts := freshValue("undecoded", pt.Elem(), bad.alloc)
		bad.assume(facts...)
		x.store(bad, p, junk)
		// json errors are none of the library's error types
		outs = append(outs, ret(bad, ifaceOther.Mk(UF("errtag.json", Int), FreshVar("jsonerr", Int, bad.alloc)))...)
	}
	return outs
}

// ---- encoding

// encoded gives the text a value of type t encodes to and the condition
// under which encoding succeeds.
func (x *Exec) encoded(st *State, t types.Type, v Value) (*Term, *Term) {
	if isRawMessage(t) {
		return tTrue, x.bytesToString(st, v.(*SliceV))
	}
	if hasJSONMethod(t, "MarshalJSON") && repoType(t) {
		return jD("encodable:"+typeKey(t), Bool, toTerm(v, t)), jD("custom:"+typeKey(t), String, toTerm(v, t))
	}
	switch u := under(t).(type) {
	case *types.Interface:
		tm := v.(*Term)
		if tm.op == "ctor" && len(tm.args) == 1 {
			ct := ifaceType[tm.name]
			switch under(ct).(type) {
			case *types.Pointer, *types.Slice, *types.Struct, *types.Map:
				ok, e := x.encoded(st, ct, fromTerm(tm.args[0], ct))
				st.assume(Same(e, jD("text", String, tm)))
				return ok, e
			case *types.Basic:
				if b := under(ct).(*types.Basic); b.Info()&(types.IsString|types.IsInteger|types.IsBoolean) != 0 && !hasJSONMethod(ct, "MarshalJSON") {
					_, e := x.encoded(st, ct, fromTerm(tm.args[0], ct))
					st.assume(jD("encodable", Bool, tm), Same(e, jD("text", String, tm)))
					x.textFacts(st, tm, e)
					return tTrue, e
				}
			}
		}
		e := jD("text", String, tm)
		x.textFacts(st, tm, e)
		return jD("encodable", Bool, tm), e
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			d := jD("quote", String, toTerm(v, t))
			st.assume(jD("isstr", Bool, d), Same(jD("str", String, d), toTerm(v, t)), Not(jD("null", Bool, d)))
			return tTrue, d
		case u.Info()&types.IsInteger != 0:
			d := jD("itoa", String, toTerm(v, t))
			st.assume(jD("isint:int", Bool, d), Same(jD("int:int", Int, d), toTerm(v, t)), Not(jD("null", Bool, d)))
			return tTrue, d
		}
		return tTrue, jD("text:"+u.Name(), String, toTerm(v, t))
	case *types.Pointer:
		p, ok := v.(*PtrV)
		if !ok {
			break
		}
		nilp := Eq(p.ref, IntT(0))
		if !isTransparent(u.Elem()) {
			break
		}
		ok2, e := x.encoded(st, u.Elem(), x.load(st, p))
		nul := StrT("null")
		st.assume(jD("null", Bool, nul))
		if v, ok := st.known(nilp); ok && !v {
			return ok2, e
		}
		return Or(nilp, ok2), Ite(nilp, nul, e)
	case *types.Slice:
		s := v.(*SliceV)
		if it, ok := under(u.Elem()).(*types.Interface); ok && it.NumMethods() == 0 {
			isnil := Eq(s.base, IntT(0))
			arr := x.sliceArr(st, s, "", u.Elem())
			d := jD("listtext", String, isnil, arr, s.off, s.len)
			st.assume(Same(jD("null", Bool, d), isnil), Implies(Not(isnil), And(jD("islist", Bool, d), Same(jD("len", Int, d), s.len))))
			b := BoundVar(Int)
			in := And(Le(IntT(0), b), Lt(b, s.len))
			el := Select(arr, Add(s.off, b))
			st.assume(Forall([]*Term{b}, Implies(in, And(Same(jD("elem", String, d, b), jD("text", String, el))))))
			ok := Forall([]*Term{b}, Implies(in, jD("encodable", Bool, el)))
			return ok, d
		}
	case *types.Struct:
		if !isTransparent(t) {
			break
		}
		sv, ok := v.(*StructV)
		if !ok {
			sv = fromTerm(v.(*Term), t).(*StructV)
		}
		conds := []*Term{}
		type member struct {
			name       string
			present, e *Term
		}
		var mem []member
		var parts []*Term
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			name, omit, skip := jsonName(f, u.Tag(i))
			if skip {
				continue
			}
			ok, e := x.encoded(st, f.Type(), sv.fields[i])
			conds = append(conds, ok)
			present := tTrue
			if omit {
				switch fu := under(f.Type()).(type) {
				case *types.Basic:
					present = Not(Same(toTerm(sv.fields[i], f.Type()), zeroTerm(f.Type())))
				case *types.Interface:
					present = Not(ifaceNil.Is(sv.fields[i].(*Term)))
				case *types.Pointer:
					present = Not(Eq(refTerm(sv.fields[i]), IntT(0)))
				case *types.Slice:
					present = Not(Eq(sv.fields[i].(*SliceV).len, IntT(0)))
				default:
					_ = fu
					panic(unsupported("omitempty of " + f.Type().String()))
				}
			}
			mem = append(mem, member{name, present, e})
			parts = append(parts, present, e)
		}
		d := jD("obj:"+typeKey(t), String, parts...)
		st.assume(jD("isobj", Bool, d), Not(jD("null", Bool, d)), jD("valid", Bool, d), Same(jD("doc", String, d, IntT(0)), d), jD("hasdoc", Bool, d, IntT(0)))
		for _, m := range mem {
			st.assume(Same(jD("present", Bool, d, StrT(m.name)), m.present))
			st.assume(Same(jD("has", Bool, d, StrT(m.name)), And(m.present, Not(jD("null", Bool, m.e)))))
			st.assume(Implies(m.present, Same(jD("member", String, d, StrT(m.name)), m.e)))
		}
		// nothing else is in the object
		for _, n := range sortedKeys(jsonNames) {
			in := false
			for _, m := range mem {
				in = in || m.name == n
			}
			if !in {
				st.assume(Not(jD("present", Bool, d, StrT(n))), Not(jD("has", Bool, d, StrT(n))))
			}
		}
		return And(conds...), d
	}
	return jD("encodable:"+typeKey(t), Bool, toTerm(v, t)), jD("text:"+typeKey(t), String, toTerm(v, t))
}

// textFacts: how ids and scalars appear in JSON
func (x *Exec) textFacts(st *State, v, e *Term) {
	if c, ok := ifaceByType["int"]; ok {
		st.assume(Implies(c.Is(v), And(jD("isint:int", Bool, e), Same(jD("int:int", Int, e), c.Sel(0, v)), Not(jD("null", Bool, e)))))
	}
	if c, ok := ifaceByType["string"]; ok {
		st.assume(Implies(c.Is(v), And(jD("isstr", Bool, e), Not(jD("isint:int", Bool, e)), Same(jD("str", String, e), c.Sel(0, v)), Not(jD("null", Bool, e)))))
	}
	st.assume(Implies(ifaceNil.Is(v), jD("null", Bool, e)))
}

func init() {
	reader := func(text func(x *Exec, st *State, a Value) *Term) goModel {
		return func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			t := fn.Signature.Results().At(0).Type()
			ref := st.newRef()
			x.ghostSet(st, "src", String, ref, text(x, st, args[0]))
			x.ghostSet(st, "pos", Int, ref, IntT(0))
			return ret(st, fromTerm(ref, t))
		}
	}
	goModels["bytes.NewReader"] = reader(func(x *Exec, st *State, a Value) *Term { return x.bytesToString(st, a.(*SliceV)) })
	// a buffer is also known by its struct: that of a new one is arbitrary
	buffer := func(m goModel) goModel {
		return func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			outs := m(x, fr, st, fn, args, pos)
			for _, o := range outs {
				x.writeHeap(o.st, "bytes.Buffer!off", Int, refTerm(o.vals[0]), FreshVar("off", Int, o.st.alloc))
			}
			return outs
		}
	}
	goModels["bytes.NewBuffer"] = buffer(goModels["bytes.NewReader"])
	goModels["strings.NewReader"] = reader(func(x *Exec, st *State, a Value) *Term { return a.(*Term) })
	goModels["bytes.NewBufferString"] = buffer(goModels["strings.NewReader"])
	goModels["encoding/json.NewDecoder"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		ref := st.newRef()
		x.ghostSet(st, "src", String, ref, x.readerText(st, args[0]))
		x.ghostSet(st, "pos", Int, ref, IntT(0))
		x.ghostSet(st, "num", Bool, ref, tFalse)
		return ret(st, fromTerm(ref, fn.Signature.Results().At(0).Type()))
	}
	goModels["(*encoding/json.Decoder).UseNumber"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		x.ghostSet(st, "num", Bool, refTerm(args[0]), tTrue)
		return ret(st)
	}
	goModels["(*encoding/json.Decoder).Decode"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		r := refTerm(args[0])
		src, p, num := x.ghostGet(st, "src", String, r), x.ghostGet(st, "pos", Int, r), x.ghostGet(st, "num", Bool, r)
		x.ghostSet(st, "pos", Int, r, Add(p, IntT(1)))
		return x.decodeInto(st, args[1], jHasDoc(src, p), jDoc(src, p), num)
	}
	goModels["encoding/json.Unmarshal"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		d := x.bytesToString(st, args[0].(*SliceV))
		ok := jD("valid", Bool, d)
		if isMember(d, IntT(0)) {
			ok = tTrue
		}
		return x.decodeInto(st, args[1], ok, d, tFalse)
	}
	goModels["encoding/json.Marshal"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		anyT := types.NewInterfaceType(nil, nil)
		ok, d := x.encoded(st, anyT, args[0])
		code := FreshVar("jsonerr", Int, st.alloc)
		b := x.stringToBytes(st, d)
		st.assume(Implies(ok, And(jD("valid", Bool, d), Same(jD("doc", String, d, IntT(0)), d), jD("hasdoc", Bool, d, IntT(0)))))
		bad := st.fork()
		var outs []Outcome
		gt, gf := x.decide(st, ok)
		if gt {
			st.assume(ok)
			outs = append(outs, ret(st, b, ifaceNil.Mk())...)
		}
		if gf {
			bad.assume(Not(ok))
			outs = append(outs, ret(bad, nilSlice(b.elem), ifaceOther.Mk(UF("errtag.json", Int), code))...)
		}
		return outs
	}
	moreIntrinsics["Ghost"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, rt types.Type) []Outcome {
		n := strConst(args[1])
		so := ghostKeys[n]
		if so == nil {
			panic(unsupported("ghost " + n))
		}
		t := args[0].(*Term)
		if t.sort == ifaceDT.Sort {
			t = payload(t)
		}
		return ret(st, fromTerm(x.ghostGet(st, n, so, t), rt))
	}
	moreIntrinsics["JSONText"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, rt types.Type) []Outcome {
		return ret(st, jD("text", String, args[0].(*Term)))
	}
	moreIntrinsics["Encodable"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, rt types.Type) []Outcome {
		return ret(st, jD("encodable", Bool, args[0].(*Term)))
	}
	moreIntrinsics["ReaderText"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, rt types.Type) []Outcome {
		return ret(st, x.readerText(st, args[0]))
	}
}

func nilSlice(elem types.Type) *SliceV {
	return &SliceV{IntT(0), IntT(0), IntT(0), IntT(0), elem}
}
