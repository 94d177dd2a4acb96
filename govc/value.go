package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const repoPath = "github.com/superisaac/jlib"

type Value interface{}

// PtrV is a pointer: an object reference, possibly into a field or an element.
type PtrV struct {
	root types.Type // type of the root object (pointee); for elem: element type
	ref  *Term
	path string // dotted field path inside root
	elem bool   // pointer to element idx of the backing array ref
	idx  *Term
	typ  types.Type // pointee type
	cell *Cell      // spec-local variable
	glob *ssa.Global
}

// Cell is a variable of specification code; guard is the condition under which
// it was made: a store under the same condition need not keep the old value
type Cell struct {
	v     Value
	guard *Term
}

type StructV struct {
	typ    types.Type
	fields []Value
}

type SliceV struct {
	base, off, len, cap *Term
	elem                types.Type
}

type FuncV struct {
	fn       *ssa.Function
	bindings []Value
	builtin  string
	term     *Term // unknown function value
	bound    *BoundMethod
}

type BoundMethod struct {
	recv   *Term
	method *types.Func
}

type TupleV []Value

type IterV struct {
	instr  *ssa.Range
	mapref *Term
	mt     *types.Map
	key    string
	isStr  bool
}

func under(t types.Type) types.Type { return t.Underlying() }

var tkQual = func(p *types.Package) string { return p.Name() }

// typeKey names a type; the names byte, rune and any are not other types
func typeKey(t types.Type) string {
	if k, ok := typeKeys.Load(t); ok {
		return k.(string)
	}
	k := types.TypeString(types.Unalias(t), tkQual)
	k = predeclared.ReplaceAllStringFunc(k, func(m string) string {
		switch m[len(m)-3:] {
		case "any":
			return m[:len(m)-3] + "interface{}"
		case "yte":
			return m[:len(m)-4] + "uint8"
		}
		return m[:len(m)-4] + "int32"
	})
	typeKeys.Store(t, k)
	return k
}

var typeKeys sync.Map
var predeclared = regexp.MustCompile(`(^|[^.\w/])(byte|rune|any)\b`)

// bigLike: big.Int or a named type made from it; its value is a mathematical integer
func bigLike(t types.Type) bool {
	s, ok := under(t).(*types.Struct)
	if !ok || s.NumFields() != 2 {
		return false
	}
	f := s.Field(0)
	return f.Pkg() != nil && f.Pkg().Path() == "math/big" && f.Name() == "neg"
}

func rootKey(t types.Type) string {
	if bigLike(t) {
		return "big.Int"
	}
	return typeKey(t)
}

// openStructs are library structs whose fields are looked into as values
var openStructs = map[string]bool{"github.com/golang-jwt/jwt.StandardClaims": true}

func isTransparent(t types.Type) bool {
	if bigLike(t) {
		return false
	}
	if _, ok := under(t).(*types.Struct); !ok {
		return false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		p := n.Obj().Pkg()
		return p != nil && (strings.HasPrefix(p.Path(), repoPath) || openStructs[p.Path()+"."+n.Obj().Name()])
	}
	return true
}

func isStruct(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }
func isIface(t types.Type) bool  { _, ok := under(t).(*types.Interface); return ok }
func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ---- sorts of Go types

var sliceDT, ifaceDT *Datatype
var sliceC *Ctor
var ifaceNil, ifaceOther *Ctor
var ifaceByType = map[string]*Ctor{}
var ifaceType = map[string]types.Type{} // ctor name -> go type
var structDT = map[string]*Datatype{}

func initSorts() {
	sliceDT = NewDatatype("Slice")
	sliceC = sliceDT.AddCtor("mk_slice", []string{"sl_base", "sl_off", "sl_len", "sl_cap"}, []*Sort{Int, Int, Int, Int})
	ifaceDT = NewDatatype("Iface")
	ifaceNil = ifaceDT.AddCtor("I_nil", nil, nil)
	ifaceOther = ifaceDT.AddCtor("I_other", []string{"other_tag", "other_id"}, []*Sort{Int, Int})
}

func registerIfaceType(t types.Type) *Ctor {
	k := typeKey(t)
	if c, ok := ifaceByType[k]; ok {
		return c
	}
	name := "I_" + k
	c := ifaceDT.AddCtor(name, []string{"unI_" + k}, []*Sort{sortOf(t)})
	ifaceByType[k] = c
	ifaceType[name] = t
	return c
}

var ifaceFrozen bool

func ifaceCtor(t types.Type) *Ctor {
	k := typeKey(t)
	if c, ok := ifaceByType[k]; ok {
		return c
	}
	if ifaceFrozen {
		panic(unsupported("interface type not registered: " + k))
	}
	return registerIfaceType(t)
}

// isStrs: the specification type of string slice contents
func isStrs(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Strs" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == vcPath
}

func sortOf(t types.Type) *Sort {
	if isStrs(t) {
		return ArraySort(Int, String)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool
		case u.Info()&types.IsInteger != 0:
			return Int
		case u.Info()&types.IsFloat != 0:
			return Float
		case u.Info()&types.IsString != 0:
			return String
		}
		return Int
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return Int
	case *types.Slice:
		return sliceDT.Sort
	case *types.Interface:
		return ifaceDT.Sort
	case *types.Struct:
		if isTransparent(t) {
			return structSort(t).Sort
		}
		if bigLike(t) {
			return Int
		}
		return UnintSort("O_" + sanitize(typeKey(t)))
	case *types.Array:
		if isByte(u.Elem()) {
			return String
		}
		return ArraySort(Int, sortOf(u.Elem()))
	case *types.Tuple:
		return Int
	case *types.TypeParam:
		return Int
	}
	panic("sortOf " + t.String())
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		return '_'
	}, s)
}

func structSort(t types.Type) *Datatype {
	k := typeKey(t)
	if d, ok := structDT[k]; ok {
		return d
	}
	d := NewDatatype("S_" + sanitize(k))
	structDT[k] = d
	st := under(t).(*types.Struct)
	var sels []string
	var args []*Sort
	for i := 0; i < st.NumFields(); i++ {
		sels = append(sels, fmt.Sprintf("S_%s_%s", sanitize(k), st.Field(i).Name()))
		args = append(args, sortOf(st.Field(i).Type()))
	}
	d.AddCtor("mk_S_"+sanitize(k), sels, args)
	return d
}

// ---- conversions Value <-> Term

var floatZero = FloatT("(_ +zero 11 53)")

func floatConst(f float64) *Term {
	bits := math.Float64bits(f)
	s := bits >> 63
	e := (bits >> 52) & 0x7ff
	m := bits & (1<<52 - 1)
	return FloatT(fmt.Sprintf("(fp #b%b #b%011b #b%052b)", s, e, m))
}

func zeroTerm(t types.Type) *Term {
	switch s := sortOf(t); s {
	case Bool:
		return tFalse
	case Int:
		return IntT(0)
	case String:
		if a, ok := under(t).(*types.Array); ok {
			return StrT(strings.Repeat("\x00", int(a.Len())))
		}
		return StrT("")
	case Float:
		return floatZero
	case sliceDT.Sort:
		return sliceC.Mk(IntT(0), IntT(0), IntT(0), IntT(0))
	case ifaceDT.Sort:
		return ifaceNil.Mk()
	default:
		if s.Kind == SData {
			st := under(t).(*types.Struct)
			var as []*Term
			for i := 0; i < st.NumFields(); i++ {
				as = append(as, zeroTerm(st.Field(i).Type()))
			}
			return structSort(t).Ctors[0].Mk(as...)
		}
		if isStrs(t) {
			return ConstArr(s, StrT(""))
		}
		if s.Kind == SArray {
			return ConstArr(s, zeroTerm(under(t).(*types.Array).Elem()))
		}
		return VarOf(declSym("zero."+s.Name, nil, s, Age{}))
	}
}

func fromTerm(t *Term, typ types.Type) Value {
	switch u := under(typ).(type) {
	case *types.Slice:
		off := sliceC.Sel(1, t)
		if off.op == "sel" {
			off = IntT(0)
		}
		return &SliceV{sliceC.Sel(0, t), off, sliceC.Sel(2, t), sliceC.Sel(3, t), u.Elem()}
	case *types.Pointer:
		if t.op == "app" {
			if p, ok := interiorPtrs[t.id]; ok {
				return p
			}
		}
		return &PtrV{root: u.Elem(), ref: t, typ: u.Elem()}
	case *types.Struct:
		if isTransparent(typ) {
			c := structSort(typ).Ctors[0]
			sv := &StructV{typ: typ}
			for i := 0; i < u.NumFields(); i++ {
				sv.fields = append(sv.fields, fromTerm(c.Sel(i, t), u.Field(i).Type()))
			}
			return sv
		}
	case *types.Signature:
		if t.op == "int" {
			funcMu.Lock()
			f, ok := funcById[t.iv.Int64()]
			funcMu.Unlock()
			if ok {
				return f
			}
			return &FuncV{term: t}
		}
		return &FuncV{term: t}
	}
	return t
}

var interiorPtrs = map[int]*PtrV{}
var funcMu sync.Mutex
var funcById = map[int64]*FuncV{}
var funcIds = map[string]int64{}

func funcTerm(f *FuncV) *Term {
	if f.term != nil {
		return f.term
	}
	if f.fn == nil {
		funcMu.Lock()
		id := int64(3000000 + len(funcById))
		funcById[id] = f
		funcMu.Unlock()
		return IntT(id)
	}
	key := f.fn.RelString(nil)
	for _, b := range f.bindings {
		key += "|" + bindKey(b)
	}
	funcMu.Lock()
	id, ok := funcIds[key]
	if !ok {
		id = int64(2000000 + len(funcById))
		funcIds[key] = id
		funcById[id] = f
	}
	funcMu.Unlock()
	return IntT(id)
}

func bindKey(v Value) string {
	switch v := v.(type) {
	case *Term:
		return fmt.Sprint(v.id)
	case *PtrV:
		if v.cell != nil {
			return fmt.Sprintf("%p", v.cell)
		}
		if v.ref == nil {
			return "p?"
		}
		s := fmt.Sprintf("p%d.%s", v.ref.id, v.path)
		if v.elem {
			s += fmt.Sprintf("[%d]", v.idx.id)
		}
		return s
	}
	return fmt.Sprintf("%p", v)
}

func toTerm(v Value, typ types.Type) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *SliceV:
		return sliceC.Mk(v.base, v.off, v.len, v.cap)
	case *PtrV:
		if v.glob != nil {
			return v.ref
		}
		if v.cell != nil {
			panic(unsupported("spec-local pointer escapes"))
		}
		if v.path == "" && !v.elem {
			return v.ref
		}
		var t *Term
		if v.elem {
			t = UF("iptr.E:"+typeKey(v.root)+"."+v.path, Int, v.ref, v.idx)
		} else {
			t = UF("iptr."+typeKey(v.root)+"."+v.path, Int, v.ref)
		}
		tt.Lock()
		interiorPtrs[t.id] = v
		tt.Unlock()
		return t
	case *StructV:
		st := under(v.typ).(*types.Struct)
		var as []*Term
		for i, f := range v.fields {
			as = append(as, toTerm(f, st.Field(i).Type()))
		}
		return structSort(v.typ).Ctors[0].Mk(as...)
	case *FuncV:
		return funcTerm(v)
	case nil:
		return zeroTerm(typ)
	}
	panic(unsupported(fmt.Sprintf("toTerm %T", v)))
}

func zeroValue(t types.Type) Value { return fromTerm(zeroTerm(t), t) }

func bigOf(v interface{}) *big.Int {
	switch v := v.(type) {
	case int64:
		return big.NewInt(v)
	case *big.Int:
		return v
	}
	panic(unsupported("big const"))
}

func constTerm(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolT(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return IntT(i)
			}
			b := constant.Val(v)
			return BigT(bigOf(b))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return floatConst(f)
		case u.Info()&types.IsString != 0:
			return StrT(constant.StringVal(c.Value))
		}
	}
	panic(unsupported("const " + c.String()))
}

// freshValue makes an unconstrained value of a type, expanded to components.
func freshValue(prefix string, t types.Type, birth Age) (Value, []*Term) {
	switch u := under(t).(type) {
	case *types.Slice:
		b := FreshVar(prefix+".base", Int, birth)
		l := FreshVar(prefix+".len", Int, birth)
		c := FreshVar(prefix+".cap", Int, birth)
		if isByte(u.Elem()) {
			l = StrLen(App(declSym("H!"+elemKey(types.Typ[types.Uint8], ""), []*Sort{Int}, String, Age{0, 0}), b))
		}
		s := &SliceV{b, IntT(0), l, c, u.Elem()}
		return s, sliceFacts(s)
	case *types.Struct:
		if isTransparent(t) {
			sv := &StructV{typ: t}
			var facts []*Term
			for i := 0; i < u.NumFields(); i++ {
				f, ff := freshValue(prefix+"."+u.Field(i).Name(), u.Field(i).Type(), birth)
				sv.fields = append(sv.fields, f)
				facts = append(facts, ff...)
			}
			return sv, facts
		}
	case *types.Tuple:
		var tv TupleV
		var facts []*Term
		for i := 0; i < u.Len(); i++ {
			f, ff := freshValue(fmt.Sprintf("%s.%d", prefix, i), u.At(i).Type(), birth)
			tv = append(tv, f)
			facts = append(facts, ff...)
		}
		return tv, facts
	}
	v := FreshVar(prefix, sortOf(t), birth)
	return fromTerm(v, t), typeFacts(v, t)
}

func typeFacts(v *Term, t types.Type) []*Term {
	switch u := under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []*Term{Ge(v, IntT(0))}
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			return []*Term{Ge(v, IntT(0))}
		}
	}
	return nil
}

func sliceFacts(s *SliceV) []*Term {
	return []*Term{Ge(s.base, IntT(0)), Ge(s.len, IntT(0)), Le(s.len, s.cap), Implies(Eq(s.base, IntT(0)), Eq(s.cap, IntT(0)))}
}

// leaves of a type: a transparent struct is stored field by field
type leaf struct {
	path string
	typ  types.Type
}

var leafMemo = map[types.Type][]leaf{}

func leaves(t types.Type) []leaf {
	tt.Lock()
	l, ok := leafMemo[t]
	tt.Unlock()
	if ok {
		return l
	}
	if isTransparent(t) {
		st := under(t).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			for _, s := range leaves(st.Field(i).Type()) {
				l = append(l, leaf{joinPath(st.Field(i).Name(), s.path), s.typ})
			}
		}
	} else {
		l = []leaf{{"", t}}
	}
	tt.Lock()
	leafMemo[t] = l
	tt.Unlock()
	return l
}

func joinPath(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + "." + b
}

// assemble a value of type t from its leaves
func assemble(t types.Type, get func(path string, lt types.Type) Value) Value {
	if isTransparent(t) {
		st := under(t).(*types.Struct)
		sv := &StructV{typ: t}
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			sv.fields = append(sv.fields, assemble(st.Field(i).Type(), func(p string, lt types.Type) Value {
				return get(joinPath(n, p), lt)
			}))
		}
		return sv
	}
	return get("", t)
}

func disassemble(v Value, t types.Type, put func(path string, lt types.Type, v Value)) {
	if isTransparent(t) {
		st := under(t).(*types.Struct)
		sv, ok := v.(*StructV)
		if !ok {
			sv = fromTerm(v.(*Term), t).(*StructV)
		}
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			disassemble(sv.fields[i], st.Field(i).Type(), func(p string, lt types.Type, v Value) {
				put(joinPath(n, p), lt, v)
			})
		}
		return
	}
	put("", t, v)
}

func fieldType(t types.Type, path string) types.Type {
	if path == "" {
		return t
	}
	parts := strings.SplitN(path, ".", 2)
	st := under(t).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == parts[0] {
			rest := ""
			if len(parts) > 1 {
				rest = parts[1]
			}
			return fieldType(st.Field(i).Type(), rest)
		}
	}
	panic("fieldType " + t.String() + " " + path)
}

// ---- ages

var ageMemo = map[int]Age{}

func maxAge(a, b Age) Age {
	if a.less(b) {
		return b
	}
	return a
}

func exactAge(t *Term) (Age, bool) {
	if t.op == "var" && t.sym.AllocEpoch >= 0 {
		return Age{t.sym.AllocEpoch, 0}, true
	}
	if t.op == "+" && len(t.args) == 2 && t.args[0].op == "var" && t.args[0].sym.AllocEpoch >= 0 && t.args[1].op == "int" {
		return Age{t.args[0].sym.AllocEpoch, int(t.args[1].iv.Int64())}, true
	}
	return Age{}, false
}

func ageOf(t *Term) Age {
	tt.Lock()
	a, ok := ageMemo[t.id]
	tt.Unlock()
	if ok {
		return a
	}
	if e, ok := exactAge(t); ok {
		a = e
	} else {
		if t.sym != nil {
			a = t.sym.Birth
		}
		args := t.args
		switch t.op {
		case "select":
			args = args[:1] // what is stored, wherever it is stored
		case "ite":
			args = args[1:]
		case "store":
			args = []*Term{args[0], args[2]}
		}
		for _, x := range args {
			a = maxAge(a, ageOf(x))
		}
	}
	tt.Lock()
	ageMemo[t.id] = a
	tt.Unlock()
	return a
}

// lowAge: the ref is nil or was allocated strictly after the returned age
func lowAge(t *Term) (Age, bool) {
	if e, ok := exactAge(t); ok && e.o > 0 {
		return Age{e.e, e.o - 1}, true
	}
	if t.op == "var" && t.sym.HasLow {
		if t.sym.Alt != nil {
			return lowAge(t.sym.Alt)
		}
		return t.sym.Low, true
	}
	if t.op == "ite" {
		a, ok1 := lowAge(t.args[1])
		b, ok2 := lowAge(t.args[2])
		if ok1 && ok2 {
			if a.less(b) {
				return a, true
			}
			return b, true
		}
	}
	return Age{}, false
}

type cmp int

const (
	cSame cmp = iota
	cDistinct
	cUnknown
)

func refCmp(a, b *Term) cmp {
	if a == b {
		return cSame
	}
	if a.isInt() && b.isInt() {
		return cDistinct
	}
	if a.op == "bv" || b.op == "bv" {
		return cUnknown
	}
	ea, oka := exactAge(a)
	eb, okb := exactAge(b)
	if oka && okb {
		if ea == eb {
			return cSame
		}
		return cDistinct
	}
	if l, ok := lowAge(a); ok && ageOf(b).le(l) {
		return cDistinct
	}
	if l, ok := lowAge(b); ok && ageOf(a).le(l) {
		return cDistinct
	}
	return cUnknown
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return "unsupported: " + u.msg }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }
