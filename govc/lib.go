package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Trusted models of further library functions.

// libErr is an error of a library: none of the repository's error types
func libErr(st *State, tag string) *Term {
	e := ifaceOther.Mk(UF("errtag."+tag, Int), FreshVar("err", Int, st.alloc))
	for _, c := range ifaceDT.Ctors {
		t := ifaceType[c.Name]
		if t != nil && types.Implements(t, errorIface) && isRepoType(t) {
			st.assume(Not(SpecUF("as."+c.Name, Bool, e)))
		}
	}
	return e
}

func isRepoType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), repoPath)
}

func init() {
	goModels["strconv.ParseBool"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		s := args[0].(*Term)
		one := func(ss ...string) *Term {
			var cs []*Term
			for _, k := range ss {
				cs = append(cs, Eq(s, StrT(k)))
			}
			return Or(cs...)
		}
		t := one("1", "t", "T", "TRUE", "true", "True")
		f := one("0", "f", "F", "FALSE", "false", "False")
		return ret(st, t, Ite(Or(t, f), ifaceNil.Mk(), ifaceOther.Mk(UF("errtag.strconv", Int), IntT(0))))
	}
	// files: what a file holds does not change while it is read
	goModels["os.Open"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		name := args[0].(*Term)
		ft := fn.Signature.Results().At(0).Type()
		ok := SpecUF("os.opens", Bool, name)
		bad := st.fork()
		var outs []Outcome
		gt, gf := x.decide(st, ok)
		if gt {
			st.assume(ok)
			ref := st.newRef()
			x.ghostSet(st, "src", String, ref, SpecUF("os.content", String, name))
			x.ghostSet(st, "pos", Int, ref, IntT(0))
			outs = append(outs, ret(st, fromTerm(ref, ft), ifaceNil.Mk())...)
		}
		if gf {
			bad.assume(Not(ok))
			outs = append(outs, ret(bad, fromTerm(IntT(0), ft), libErr(bad, "os"))...)
		}
		return outs
	}
	goModels["(*os.File).Close"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		v, facts := freshValue("closed", fn.Signature.Results().At(0).Type(), st.alloc)
		st.assume(facts...)
		return ret(st, v)
	}

	// big integers are mathematical integers; their decimal text is a function of the value
	bigVal := func(x *Exec, st *State, p Value) *Term {
		x.assume["math/big.Int holds a mathematical integer (copies never share state); SetString(s, 10) succeeds exactly on [+-]?[0-9]+ and String gives a decimal that reads back as the same integer"] = true
		return toTerm(x.load(st, p.(*PtrV)), bigElem(p.(*PtrV)))
	}
	goModels["(*math/big.Int).String"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		v := bigVal(x, st, args[0])
		t := SpecUF("big.text", String, v)
		st.assume(reMatch(t, "^-?[0-9]+$"), Eq(SpecUF("big.parse", Int, t), v), Eq(jD("quote", String, t), Concat(Concat(StrT("\""), t), StrT("\""))))
		return ret(st, t)
	}
	goModels["(*math/big.Int).SetString"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		s, b := args[1].(*Term), args[2].(*Term)
		bigVal(x, st, args[0])
		if !b.isInt() || b.iv.Int64() != 10 {
			panic(unsupported("big.Int.SetString with another base"))
		}
		p := args[0].(*PtrV)
		ok := reMatch(s, "^[-+]?[0-9]+$")
		bad := st.fork()
		var outs []Outcome
		gt, gf := x.decide(st, ok)
		if gt {
			st.assume(ok)
			x.store(st, p, fromTerm(SpecUF("big.parse", Int, s), bigElem(p)))
			outs = append(outs, ret(st, p, tTrue)...)
		}
		if gf {
			bad.assume(Not(ok))
			x.store(bad, p, FreshVar("bigundef", Int, bad.alloc))
			outs = append(outs, ret(bad, fromTerm(IntT(0), fn.Signature.Results().At(0).Type()), tFalse)...)
		}
		return outs
	}
	goModels["(*math/big.Int).Set"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		x.store(st, args[0].(*PtrV), bigVal(x, st, args[1]))
		return ret(st, args[0])
	}
	goModels["(*math/big.Int).SetInt64"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		x.store(st, args[0].(*PtrV), args[1])
		return ret(st, args[0])
	}
	goModels["(*math/big.Int).Cmp"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		a, b := bigVal(x, st, args[0]), bigVal(x, st, args[1])
		return ret(st, Ite(Lt(a, b), IntT(-1), Ite(Eq(a, b), IntT(0), IntT(1))))
	}
	goModels["fmt.Sprintf"] = sprintf
}

func bigElem(p *PtrV) types.Type { return p.typ }

// sprintf: a constant format of %s and %v over strings is concatenation;
// anything else is an unknown text
// itoa: the decimal text of an integer
func itoa(n *Term) *Term { return UF("strconv.Itoa", String, n) }

func init() {
	goModels["strconv.Itoa"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		return ret(st, itoa(args[0].(*Term)))
	}
	goModels["strconv.FormatInt"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		if b := args[1].(*Term); b.isInt() && b.iv.Int64() == 10 {
			return ret(st, itoa(args[0].(*Term)))
		}
		return x.external(fr, st, fn, args, pos)
	}
}

func sprintf(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	unknown := func() []Outcome {
		return ret(st, FreshVar("sprintf", String, st.alloc))
	}
	f, ok := args[0].(*Term)
	if !ok || f.op != "str" {
		return unknown()
	}
	va, ok := args[1].(*SliceV)
	if !ok || !va.len.isInt() {
		return unknown()
	}
	els := x.variadic(st, va)
	n := 0
	var parts []*Term
	lit := ""
	for i := 0; i < len(f.name); i++ {
		if b := f.name[i]; b != '%' {
			lit += string([]byte{b})
			continue
		}
		i++
		if i >= len(f.name) {
			return unknown()
		}
		if f.name[i] == '%' {
			lit += "%"
			continue
		}
		if n >= len(els) {
			return unknown()
		}
		a := els[n]
		n++
		var part *Term
		if c, ok := ifaceByType["string"]; ok && c.Is(a).isTrue() && (f.name[i] == 's' || f.name[i] == 'v') {
			part = c.Sel(0, a)
		} else if f.name[i] == 'd' || f.name[i] == 'v' {
			for _, k := range []string{"int", "int64", "int32", "uint", "uint64"} {
				if c, ok := ifaceByType[k]; ok && c.Is(a).isTrue() {
					part = itoa(c.Sel(0, a))
				}
			}
		}
		if part == nil {
			return unknown()
		}
		if lit != "" {
			parts = append(parts, StrT(lit))
			lit = ""
		}
		parts = append(parts, part)
	}
	if n != len(els) {
		return unknown()
	}
	if lit != "" {
		parts = append(parts, StrT(lit))
	}
	t := StrT("")
	for _, p := range parts {
		t = Concat(t, p)
	}
	return ret(st, t)
}

// ---- errors

// errTypes are the error types the code looks for
func (x *Exec) errTypes() []*Ctor {
	if x.eng.errCtors == nil {
		x.eng.errCtors = []*Ctor{}
		for _, c := range ifaceDT.Ctors {
			t := ifaceType[c.Name]
			if t == nil || !types.Implements(t, errorIface) {
				continue
			}
			x.eng.errCtors = append(x.eng.errCtors, c)
		}
	}
	return x.eng.errCtors
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// errAs: the chain of e holds an error of c's type; and the first such error
func (x *Exec) errAs(e *Term, c *Ctor) (*Term, *Term) {
	is := c.Is(e)
	if is.isTrue() {
		return is, c.Sel(0, e)
	}
	has := Or(is, And(ifaceOther.Is(e), SpecUF("as."+c.Name, Bool, e)))
	if has.isFalse() {
		return has, UF("asval."+c.Name, c.Args[0], e)
	}
	return has, Ite(is, c.Sel(0, e), SpecUF("asval."+c.Name, c.Args[0], e))
}

func (x *Exec) newError(st *State, tag string, of *Term) *Term {
	x.assume["errors: New and Errorf give a new error wrapping nothing; Wrap and its relatives give nil for nil and otherwise a new error whose chain holds what the wrapped chain holds; errors.As finds exactly that"] = true
	w := ifaceOther.Mk(UF("errtag."+tag, Int), FreshVar("err", Int, st.alloc))
	for _, c := range x.errTypes() {
		if of == nil {
			st.assume(Not(SpecUF("as."+c.Name, Bool, w)))
			continue
		}
		h, v := x.errAs(of, c)
		st.assume(Eq(SpecUF("as."+c.Name, Bool, w), h))
		if !h.isFalse() {
			st.assume(Implies(h, Same(SpecUF("asval."+c.Name, c.Args[0], w), v)))
		}
	}
	return w
}

func init() {
	mk := func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		return ret(st, x.newError(st, "new", nil))
	}
	for _, n := range []string{"errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf"} {
		goModels[n] = mk
	}
	wrap := func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		e := args[0].(*Term)
		isNil := ifaceNil.Is(e)
		if v, ok := st.known(isNil); ok {
			isNil = BoolT(v)
		}
		if isNil.isTrue() {
			return ret(st, ifaceNil.Mk())
		}
		return ret(st, Ite(isNil, ifaceNil.Mk(), x.newError(st, "wrap", e)))
	}
	for _, n := range []string{"Wrap", "Wrapf", "WithStack", "WithMessage", "WithMessagef"} {
		goModels["github.com/pkg/errors."+n] = wrap
	}
	as := func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		e, t := args[0].(*Term), args[1].(*Term)
		tt, ok := ifaceType[t.name]
		if t.op != "ctor" || !ok {
			panic(unsupported("errors.As with an unknown target"))
		}
		p := fromTerm(t.args[0], tt).(*PtrV)
		if isIface(p.typ) {
			panic(unsupported("errors.As with an interface target"))
		}
		c, ok := ifaceByType[typeKey(p.typ)]
		if !ok {
			panic(unsupported("errors.As with target " + typeKey(p.typ)))
		}
		has, val := x.errAs(e, c)
		if _, isp := p.typ.Underlying().(*types.Pointer); isp && !isRepoType(p.typ) {
			x.assume["errors: libraries hand out no nil pointers as their own errors"] = true
			st.assume(Implies(has, Not(Eq(val, IntT(0)))))
		}
		old := toTerm(x.load(st, p), p.typ)
		x.store(st, p, fromTerm(Ite(has, val, old), p.typ))
		return ret(st, has)
	}
	goModels["errors.As"] = as
	goModels["github.com/pkg/errors.As"] = as
	is := func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		e, t := args[0].(*Term), args[1].(*Term)
		return ret(st, Or(Same(e, t), And(Not(ifaceNil.Is(e)), SpecUF("errors.is", Bool, e, t))))
	}
	goModels["errors.Is"] = is
	goModels["github.com/pkg/errors.Is"] = is
}
