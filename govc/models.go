package main

import (
	"go/token"
	"go/types"
	"regexp/syntax"

	"golang.org/x/tools/go/ssa"
)

// goModel interprets a call of a library function. These models are the
// trusted contracts of the standard library and of the dependencies.
type goModel func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome
type ifModel func(x *Exec, fr *Frame, st *State, v *Term, it types.Type, m *types.Func, args []Value) []Outcome

var goModels = map[string]goModel{}
var ifaceModels = map[string]ifModel{}

// ---- strings

func strAt(s, i *Term) *Term { return Op("str.to_code", Int, Op("str.at", String, s, i)) }

func model1(f func(st *State, a []*Term) *Term) goModel {
	return func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, a.(*Term))
		}
		return ret(st, f(st, ts))
	}
}

func prefixOf(p, s *Term) *Term {
	if p.op == "str" && s.op == "str" {
		return BoolT(len(s.name) >= len(p.name) && s.name[:len(p.name)] == p.name)
	}
	return Op("str.prefixof", Bool, p, s)
}

func init() {
	goModels["strings.HasPrefix"] = model1(func(st *State, a []*Term) *Term { return prefixOf(a[1], a[0]) })
	goModels["strings.HasSuffix"] = model1(func(st *State, a []*Term) *Term { return Op("str.suffixof", Bool, a[1], a[0]) })
	goModels["strings.Contains"] = model1(func(st *State, a []*Term) *Term { return Op("str.contains", Bool, a[0], a[1]) })
	goModels["strings.Index"] = model1(func(st *State, a []*Term) *Term { return Op("str.indexof", Int, a[0], a[1], IntT(0)) })
	goModels["strings.TrimPrefix"] = model1(func(st *State, a []*Term) *Term {
		return Ite(prefixOf(a[1], a[0]), Op("str.substr", String, a[0], StrLen(a[1]), Sub(StrLen(a[0]), StrLen(a[1]))), a[0])
	})

	goModels["strings.Join"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		s := args[0].(*SliceV)
		if !s.off.isInt() || s.off.iv.Sign() != 0 {
			panic(unsupported("strings.Join of a slice that does not start its storage"))
		}
		return ret(st, SpecUF("strings.Join", String, x.sliceArr(st, s, "", s.elem), s.len, args[1].(*Term)))
	}

	// regular expressions with constant patterns
	goModels["regexp.MatchString"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		p := args[0].(*Term)
		if p.op != "str" {
			panic(unsupported("regexp with a computed pattern"))
		}
		return ret(st, reMatch(args[1].(*Term), p.name), ifaceNil.Mk())
	}
	compile := func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		t := fn.Signature.Results().At(0).Type()
		r := UF("regexp.compiled", Int, args[0].(*Term))
		if fn.Signature.Results().Len() == 2 {
			return ret(st, fromTerm(r, t), ifaceNil.Mk())
		}
		return ret(st, fromTerm(r, t))
	}
	goModels["regexp.MustCompile"] = compile
	goModels["regexp.Compile"] = compile
	goModels["(*regexp.Regexp).MatchString"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		r := refTerm(args[0])
		if r == nil || r.op != "app" || len(r.args) != 1 || r.args[0].op != "str" {
			panic(unsupported("regexp with an unknown pattern"))
		}
		return ret(st, reMatch(args[1].(*Term), r.args[0].name))
	}
}

func refTerm(v Value) *Term {
	switch t := v.(type) {
	case *Term:
		return t
	case *PtrV:
		return t.ref
	}
	return nil
}

func classTerm(re *syntax.Regexp, c *Term) *Term {
	switch re.Op {
	case syntax.OpLiteral:
		if len(re.Rune) == 1 && re.Flags&syntax.FoldCase == 0 {
			return Eq(c, IntT(int64(re.Rune[0])))
		}
	case syntax.OpCharClass:
		var or []*Term
		for i := 0; i+1 < len(re.Rune); i += 2 {
			lo, hi := int64(re.Rune[i]), int64(re.Rune[i+1])
			if hi > 127 {
				return nil
			}
			or = append(or, And(Le(IntT(lo), c), Le(c, IntT(hi))))
		}
		return Or(or...)
	}
	return nil
}

// reMatch: the string matches the pattern. A sequence of single ASCII classes
// followed by one repeated class is expressed position by position; everything
// else goes to the solver's regular-expression theory.
func reMatch(s *Term, pat string) *Term {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		panic(unsupported("regexp " + pat))
	}
	subs := []*syntax.Regexp{re}
	if re.Op == syntax.OpConcat {
		subs = re.Sub
	}
	begin, end := false, false
	if len(subs) > 0 && subs[0].Op == syntax.OpBeginText {
		begin, subs = true, subs[1:]
	}
	if n := len(subs); n > 0 && subs[n-1].Op == syntax.OpEndText {
		end, subs = true, subs[:n-1]
	}
	if begin && end {
		var cs []*Term
		ok := true
		n := int64(0)
		rep := false
		for i, r := range subs {
			if r.Op == syntax.OpStar || r.Op == syntax.OpPlus {
				if i != len(subs)-1 {
					ok = false
					break
				}
				b := BoundVar(Int)
				c := classTerm(r.Sub[0], strAt(s, b))
				if c == nil {
					ok = false
					break
				}
				cs = append(cs, Forall([]*Term{b}, Implies(And(Le(IntT(n), b), Lt(b, StrLen(s))), c)))
				if r.Op == syntax.OpPlus {
					n++
				}
				rep = true
				break
			}
			var c *Term
			if r.Op == syntax.OpLiteral && r.Flags&syntax.FoldCase == 0 {
				for _, q := range r.Rune {
					if q > 127 {
						ok = false
					}
					cs = append(cs, Eq(strAt(s, IntT(n)), IntT(int64(q))))
					n++
				}
				continue
			}
			if c = classTerm(r, strAt(s, IntT(n))); c == nil {
				ok = false
				break
			}
			cs = append(cs, c)
			n++
		}
		if ok {
			if rep {
				return And(append([]*Term{Ge(StrLen(s), IntT(n))}, cs...)...)
			}
			return And(append([]*Term{Eq(StrLen(s), IntT(n))}, cs...)...)
		}
	}
	t := reTerm(re)
	all := Op("re.all", reSort)
	if !begin {
		t = Op("re.++", reSort, all, t)
	}
	if !end {
		t = Op("re.++", reSort, t, all)
	}
	return Op("str.in_re", Bool, s, t)
}

var reSort = &Sort{Kind: SBool, Name: "RegLan"}

func reTerm(re *syntax.Regexp) *Term {
	bad := func() *Term { panic(unsupported("regexp " + re.String())) }
	lit := func(r rune) *Term {
		if r > 127 {
			return bad()
		}
		return Op("str.to_re", reSort, StrT(string(r)))
	}
	cat := func(ts []*Term) *Term {
		switch len(ts) {
		case 0:
			return Op("str.to_re", reSort, StrT(""))
		case 1:
			return ts[0]
		}
		return Op("re.++", reSort, ts...)
	}
	switch re.Op {
	case syntax.OpBeginText, syntax.OpEndText, syntax.OpEmptyMatch:
		return cat(nil)
	case syntax.OpLiteral:
		if re.Flags&syntax.FoldCase != 0 {
			return bad()
		}
		var ts []*Term
		for _, r := range re.Rune {
			ts = append(ts, lit(r))
		}
		return cat(ts)
	case syntax.OpCharClass:
		var ts []*Term
		for i := 0; i+1 < len(re.Rune); i += 2 {
			if re.Rune[i] > 127 {
				return bad()
			}
			hi := re.Rune[i+1]
			if hi > 127 {
				return bad()
			}
			ts = append(ts, Op("re.range", reSort, StrT(string(re.Rune[i])), StrT(string(hi))))
		}
		if len(ts) == 1 {
			return ts[0]
		}
		return Op("re.union", reSort, ts...)
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return Op("re.allchar", reSort)
	case syntax.OpStar:
		return Op("re.*", reSort, reTerm(re.Sub[0]))
	case syntax.OpPlus:
		return Op("re.+", reSort, reTerm(re.Sub[0]))
	case syntax.OpQuest:
		return Op("re.opt", reSort, reTerm(re.Sub[0]))
	case syntax.OpCapture:
		return reTerm(re.Sub[0])
	case syntax.OpConcat:
		var ts []*Term
		for _, s := range re.Sub {
			ts = append(ts, reTerm(s))
		}
		return cat(ts)
	case syntax.OpAlternate:
		var ts []*Term
		for _, s := range re.Sub {
			ts = append(ts, reTerm(s))
		}
		return Op("re.union", reSort, ts...)
	}
	return bad()
}
