package main

// Terms: hash-consed SMT terms with light simplification.

import (
	"fmt"
	"hash/fnv"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type SortKind int

const (
	SBool SortKind = iota
	SInt
	SString
	SFloat
	SArray
	SData
	SUnint
)

type Sort struct {
	Kind SortKind
	Name string
	K, V *Sort
}

var (
	Bool   = &Sort{Kind: SBool, Name: "Bool"}
	Int    = &Sort{Kind: SInt, Name: "Int"}
	String = &Sort{Kind: SString, Name: "String"}
	Float  = &Sort{Kind: SFloat, Name: "Float64"}
)

var sortTab = struct {
	sync.Mutex
	m map[string]*Sort
}{m: map[string]*Sort{}}

func ArraySort(k, v *Sort) *Sort {
	name := "(Array " + k.Name + " " + v.Name + ")"
	sortTab.Lock()
	defer sortTab.Unlock()
	if s, ok := sortTab.m[name]; ok {
		return s
	}
	s := &Sort{Kind: SArray, Name: name, K: k, V: v}
	sortTab.m[name] = s
	return s
}

func UnintSort(name string) *Sort {
	sortTab.Lock()
	defer sortTab.Unlock()
	if s, ok := sortTab.m[name]; ok {
		return s
	}
	s := &Sort{Kind: SUnint, Name: name}
	sortTab.m[name] = s
	return s
}

// Datatypes
type Ctor struct {
	Name string
	Sels []string
	Args []*Sort
	DT   *Datatype
}

type Datatype struct {
	Sort  *Sort
	Ctors []*Ctor
	byN   map[string]*Ctor
}

// dtTab is read while scripts are written, outside the lock on the rest
var dtMu sync.RWMutex
var dtAll = map[string]*Datatype{}

func dtOf(name string) *Datatype {
	dtMu.RLock()
	defer dtMu.RUnlock()
	return dtAll[name]
}

func NewDatatype(name string) *Datatype {
	s := &Sort{Kind: SData, Name: name}
	d := &Datatype{Sort: s, byN: map[string]*Ctor{}}
	dtMu.Lock()
	dtAll[name] = d
	dtMu.Unlock()
	return d
}

func (d *Datatype) AddCtor(name string, sels []string, args []*Sort) *Ctor {
	c := &Ctor{Name: name, Sels: sels, Args: args, DT: d}
	d.Ctors = append(d.Ctors, c)
	d.byN[name] = c
	return c
}

type Term struct {
	id    int
	op    string // "var","int","str","bool","app"(uf) or SMT op; "ctor","sel","is","forall","exists"
	name  string // symbol
	args  []*Term
	sort  *Sort
	iv    *big.Int
	bound bool // contains bound variable
	size  int
	// symbol info for "var" / "uf": birth age
	sym *Sym
}

// Age is a position in allocation order: (epoch, off).
type Age struct{ e, o int }

func (a Age) less(b Age) bool { return a.e < b.e || (a.e == b.e && a.o < b.o) }
func (a Age) le(b Age) bool   { return !b.less(a) }

type Sym struct {
	Name string
	Args []*Sort
	Ret  *Sort
	// Birth: references read off this symbol (at arguments of age <= Birth)
	// are allocated at or before Birth.
	Birth Age
	// AllocEpoch >= 0 when this is the allocation counter of that epoch
	AllocEpoch int
	// Low: when HasLow, the value (a ref) was allocated after Low
	HasLow bool
	// Alt: the value may also be this (older) reference
	Alt *Term
	Low Age
	// axiom of the symbol, emitted when the symbol occurs (e.g. string bounds)
	Pure bool
}

var tt = struct {
	sync.Mutex
	m    map[string]*Term
	n    int
	syms map[string]*Sym
	cnt  map[string]int
}{m: map[string]*Term{}, syms: map[string]*Sym{}, cnt: map[string]int{}}

func mk(op, name string, s *Sort, args []*Term, iv *big.Int, sym *Sym) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(s.Name)
	if iv != nil {
		sb.WriteByte('#')
		sb.WriteString(iv.String())
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	tt.Lock()
	defer tt.Unlock()
	if t, ok := tt.m[k]; ok {
		return t
	}
	tt.n++
	t := &Term{id: tt.n, op: op, name: name, args: args, sort: s, iv: iv, sym: sym, size: 1}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	if op == "bv" {
		t.bound = true
	}
	tt.m[k] = t
	return t
}

func freshName(prefix string) string {
	tt.Lock()
	defer tt.Unlock()
	tt.cnt[prefix]++
	return fmt.Sprintf("%s!%d", prefix, tt.cnt[prefix])
}

func declSym(name string, args []*Sort, ret *Sort, birth Age) *Sym {
	tt.Lock()
	defer tt.Unlock()
	if s, ok := tt.syms[name]; ok {
		return s
	}
	s := &Sym{Name: name, Args: args, Ret: ret, Birth: birth, AllocEpoch: -1}
	tt.syms[name] = s
	return s
}

func FreshVar(prefix string, s *Sort, birth Age) *Term {
	n := freshName(prefix)
	sym := declSym(n, nil, s, birth)
	return mk("var", n, s, nil, nil, sym)
}

func VarOf(sym *Sym) *Term { return mk("var", sym.Name, sym.Ret, nil, nil, sym) }

func BoundVar(s *Sort) *Term {
	return mk("bv", freshName("b"), s, nil, nil, nil)
}

func App(sym *Sym, args ...*Term) *Term {
	if len(args) != len(sym.Args) {
		panic("arity " + sym.Name)
	}
	for i, a := range args {
		if a.sort != sym.Args[i] {
			panic(fmt.Sprintf("sort mismatch in %s arg %d: %s vs %s", sym.Name, i, a.sort.Name, sym.Args[i].Name))
		}
	}
	if len(args) == 0 {
		return VarOf(sym)
	}
	return mk("app", sym.Name, sym.Ret, args, nil, sym)
}

func UF(name string, ret *Sort, args ...*Term) *Term {
	ss := make([]*Sort, len(args))
	for i, a := range args {
		ss[i] = a.sort
	}
	return App(declSym(name, ss, ret, Age{}), args...)
}

var tTrue, tFalse *Term

func init() {
	tTrue = mk("bool", "true", Bool, nil, nil, nil)
	tFalse = mk("bool", "false", Bool, nil, nil, nil)
}

func BoolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func IntT(i int64) *Term       { return mk("int", "", Int, nil, big.NewInt(i), nil) }
func BigT(i *big.Int) *Term    { return mk("int", "", Int, nil, new(big.Int).Set(i), nil) }
func StrT(s string) *Term      { return mk("str", s, String, nil, nil, nil) }
func FloatT(bits string) *Term { return mk("fp", bits, Float, nil, nil, nil) }

func (t *Term) isTrue() bool  { return t == tTrue }
func (t *Term) isFalse() bool { return t == tFalse }
func (t *Term) isInt() bool   { return t.op == "int" }
func (t *Term) isConst() bool {
	return t.op == "int" || t.op == "str" || t.op == "bool" || t.op == "fp"
}

func Not(a *Term) *Term {
	if a.isTrue() {
		return tFalse
	}
	if a.isFalse() {
		return tTrue
	}
	if a.op == "not" {
		return a.args[0]
	}
	return mk("not", "", Bool, []*Term{a}, nil, nil)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isTrue() || seen[t.id] {
			return true
		}
		if t.isFalse() {
			return false
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", Bool, out, nil, nil)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isFalse() || seen[t.id] {
			return true
		}
		if t.isTrue() {
			return false
		}
		if t.op == "or" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "", Bool, out, nil, nil)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.sort.Name, b.sort.Name))
	}
	if a.sort == Bool {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return Not(c)
		}
		if a.isTrue() {
			return Or(c, b)
		}
		if a.isFalse() {
			return And(Not(c), b)
		}
		if b.isTrue() {
			return Or(Not(c), a)
		}
		if b.isFalse() {
			return And(c, a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	return mk("ite", "", a.sort, []*Term{c, a, b}, nil, nil)
}

// linear sums --------------------------------------------------------

func linParts(t *Term) (map[*Term]*big.Int, *big.Int) {
	m := map[*Term]*big.Int{}
	c := new(big.Int)
	var rec func(t *Term, k *big.Int)
	rec = func(t *Term, k *big.Int) {
		switch {
		case t.op == "int":
			c.Add(c, new(big.Int).Mul(k, t.iv))
		case t.op == "+":
			for _, a := range t.args {
				rec(a, k)
			}
		case t.op == "*" && t.args[0].op == "int":
			rec(t.args[1], new(big.Int).Mul(k, t.args[0].iv))
		default:
			if v, ok := m[t]; ok {
				v.Add(v, k)
				if v.Sign() == 0 {
					delete(m, t)
				}
			} else if k.Sign() != 0 {
				m[t] = new(big.Int).Set(k)
			}
		}
	}
	rec(t, big.NewInt(1))
	return m, c
}

func fromLin(m map[*Term]*big.Int, c *big.Int) *Term {
	var ks []*Term
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var parts []*Term
	one := big.NewInt(1)
	for _, k := range ks {
		if m[k].Cmp(one) == 0 {
			parts = append(parts, k)
		} else {
			parts = append(parts, mk("*", "", Int, []*Term{BigT(m[k]), k}, nil, nil))
		}
	}
	if c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, BigT(c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("+", "", Int, parts, nil, nil)
}

func Add(a, b *Term) *Term {
	m, c := linParts(a)
	m2, c2 := linParts(b)
	for k, v := range m2 {
		if w, ok := m[k]; ok {
			w.Add(w, v)
			if w.Sign() == 0 {
				delete(m, k)
			}
		} else {
			m[k] = v
		}
	}
	c.Add(c, c2)
	return fromLin(m, c)
}

func Mul(a, b *Term) *Term {
	if a.op != "int" && b.op == "int" {
		a, b = b, a
	}
	if a.op == "int" {
		m, c := linParts(b)
		if a.iv.Sign() == 0 {
			return IntT(0)
		}
		for _, v := range m {
			v.Mul(v, a.iv)
		}
		c.Mul(c, a.iv)
		return fromLin(m, c)
	}
	return mk("*", "", Int, []*Term{a, b}, nil, nil)
}

func Sub(a, b *Term) *Term { return Add(a, Mul(IntT(-1), b)) }

func Le(a, b *Term) *Term {
	m, c := linParts(Sub(b, a))
	if len(m) == 0 {
		return BoolT(c.Sign() >= 0)
	}
	return mk("<=", "", Bool, []*Term{a, b}, nil, nil)
}
func Lt(a, b *Term) *Term { return Not(Le(b, a)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		if a.sort == Float {
			return mk("fp.eq", "", Bool, []*Term{a, b}, nil, nil)
		}
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s / %s", a.sort.Name, b.sort.Name, a.String(), b.String()))
	}
	if a.sort == Float {
		return mk("fp.eq", "", Bool, []*Term{a, b}, nil, nil)
	}
	return same(a, b)
}

// same is identity ("=") rather than Go's ==, they differ on floats only
func same(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() && a.sort != Float {
		return tFalse
	}
	if a.sort == Bool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return Not(b)
		}
		if b.isFalse() {
			return Not(a)
		}
		if a == Not(b) {
			return tFalse
		}
	}
	if a.op == "ctor" && b.op == "ctor" {
		if a.name != b.name {
			return tFalse
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, same(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.op == "ite" && (b.op == "ctor" || b.isConst()) {
		x, y := same(a.args[1], b), same(a.args[2], b)
		if x.op == "bool" || y.op == "bool" {
			return Ite(a.args[0], x, y)
		}
	}
	if b.op == "ite" && (a.op == "ctor" || a.isConst()) {
		return same(b, a)
	}
	if a.sort == Int {
		m, c := linParts(Sub(a, b))
		if len(m) == 0 {
			return BoolT(c.Sign() == 0)
		}
		// an allocated reference is none of the reserved ones
		if len(m) == 1 {
			for t, k := range m {
				if t.sym != nil && strings.HasPrefix(t.sym.Name, "alloc!") && k.IsInt64() && (k.Int64() == 1 && c.Cmp(big.NewInt(-globalRefLimit)) > 0 || k.Int64() == -1 && c.Cmp(big.NewInt(globalRefLimit)) < 0) {
					return tFalse
				}
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", Bool, []*Term{a, b}, nil, nil)
}

func Same(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("same sorts %s %s", a.sort.Name, b.sort.Name))
	}
	return same(a, b)
}

func Select(a, i *Term) *Term {
	for a.op == "store" {
		e := same(a.args[1], i)
		if e.isTrue() {
			return a.args[2]
		}
		if e.isFalse() {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if a.op == "ite" && (a.args[1].op != "app" || a.args[2].op != "app") {
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	}
	return mk("select", "", a.sort.V, []*Term{a, i}, nil, nil)
}

func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	return mk("store", "", a.sort, []*Term{a, i, v}, nil, nil)
}

func ConstArr(s *Sort, v *Term) *Term {
	return mk("constarr", s.Name, s, []*Term{v}, nil, nil)
}

func (c *Ctor) Mk(args ...*Term) *Term {
	if len(args) != len(c.Args) {
		panic("ctor arity " + c.Name)
	}
	for i := range args {
		if args[i].sort != c.Args[i] {
			panic(fmt.Sprintf("ctor %s arg %d sort %s want %s", c.Name, i, args[i].sort.Name, c.Args[i].Name))
		}
	}
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && len(c.DT.Ctors) == 1 {
		ok := true
		var base *Term
		for i, a := range args {
			if c.Sels[i] == "sl_off" && a.op == "int" && a.iv.Sign() == 0 {
				continue // unknown slices have offset 0
			}
			if a.op != "sel" || a.name != c.Sels[i] {
				ok = false
				break
			}
			if base == nil {
				base = a.args[0]
			} else if base != a.args[0] {
				ok = false
				break
			}
		}
		if ok && base != nil {
			return base
		}
	}
	return mk("ctor", c.Name, c.DT.Sort, args, nil, nil)
}

func (c *Ctor) Is(t *Term) *Term {
	if t.op == "ctor" {
		return BoolT(t.name == c.Name)
	}
	if len(c.DT.Ctors) == 1 {
		return tTrue
	}
	if t.op == "ite" {
		x, y := c.Is(t.args[1]), c.Is(t.args[2])
		if x.op == "bool" || y.op == "bool" {
			return Ite(t.args[0], x, y)
		}
	}
	return mk("is", c.Name, Bool, []*Term{t}, nil, nil)
}

func (c *Ctor) Sel(i int, t *Term) *Term {
	if t.op == "ctor" && t.name == c.Name {
		return t.args[i]
	}
	if t.op == "ite" {
		a, b := t.args[1], t.args[2]
		if a.op == "ctor" && b.op == "ctor" {
			if a.name != c.Name && b.name == c.Name {
				return b.args[i]
			}
			if b.name != c.Name && a.name == c.Name {
				return a.args[i]
			}
			if a.name == c.Name && b.name == c.Name {
				return Ite(t.args[0], a.args[i], b.args[i])
			}
		} else if a.op == "ctor" && a.name != c.Name {
			return c.Sel(i, b)
		} else if b.op == "ctor" && b.name != c.Name {
			return c.Sel(i, a)
		}
	}
	return mk("sel", c.Sels[i], c.Args[i], []*Term{t}, nil, nil)
}

func Op(op string, s *Sort, args ...*Term) *Term {
	if r := simpStr(op, args); r != nil {
		return r
	}
	return mk(op, "", s, args, nil, nil)
}

func Concat(a, b *Term) *Term {
	if a.op == "str" && b.op == "str" {
		return StrT(a.name + b.name)
	}
	if a.op == "str" && a.name == "" {
		return b
	}
	if b.op == "str" && b.name == "" {
		return a
	}
	if b.op == "str" && a.op == "str.++" && a.args[1].op == "str" {
		return Concat(a.args[0], StrT(a.args[1].name+b.name))
	}
	if b.op == "str.++" { // left-assoc
		return Concat(Concat(a, b.args[0]), b.args[1])
	}
	return Op("str.++", String, a, b)
}

func StrLen(a *Term) *Term {
	if a.op == "str" {
		return IntT(int64(len(a.name)))
	}
	if a.op == "str.++" {
		return Add(StrLen(a.args[0]), StrLen(a.args[1]))
	}
	return Op("str.len", Int, a)
}

func Forall(vars []*Term, body *Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	used := map[*Term]bool{}
	walk(body, func(t *Term) {
		if t.op == "bv" {
			used[t] = true
		}
	})
	var vs []*Term
	for _, v := range vars {
		if used[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	t := mk("forall", "", Bool, append(append([]*Term{}, vs...), body), nil, nil)
	t.bound = false
	walkFree(t, func(x *Term) { t.bound = true })
	return t
}

// walkFree calls f on bound variables free in t
func walkFree(t *Term, f func(*Term)) {
	var rec func(t *Term, env map[*Term]bool)
	rec = func(t *Term, env map[*Term]bool) {
		if !t.bound && t.op != "forall" {
			return
		}
		if t.op == "bv" {
			if !env[t] {
				f(t)
			}
			return
		}
		if t.op == "forall" {
			e2 := map[*Term]bool{}
			for k := range env {
				e2[k] = true
			}
			n := len(t.args) - 1
			for _, v := range t.args[:n] {
				e2[v] = true
			}
			rec(t.args[n], e2)
			return
		}
		for _, a := range t.args {
			rec(a, env)
		}
	}
	rec(t, map[*Term]bool{})
}

func walk(t *Term, f func(*Term)) {
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		f(t)
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

// Subst replaces terms
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		ch := false
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = Add(r, a)
		}
		return r
	case "*":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "=":
		return same(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "ctor":
		return findCtor(t.sort, t.name).Mk(args...)
	case "is":
		return findCtor(t.args[0].sort, t.name).Is(args[0])
	case "sel":
		for _, c := range dtOf(t.args[0].sort.Name).Ctors {
			for i, s := range c.Sels {
				if s == t.name {
					return c.Sel(i, args[0])
				}
			}
		}
		panic("sel")
	case "str.++":
		return Concat(args[0], args[1])
	case "str.len":
		return StrLen(args[0])
	case "app":
		return App(t.sym, args...)
	case "forall":
		n := len(args) - 1
		return Forall(args[:n], args[n])
	}
	return mk(t.op, t.name, t.sort, args, t.iv, t.sym)
}

func findCtor(s *Sort, name string) *Ctor {
	return dtOf(s.Name).byN[name]
}

// printing ------------------------------------------------------------

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			sb.WriteString(`""`)
		} else if c < 32 || c > 126 || c == '\\' {
			fmt.Fprintf(&sb, `\u{%x}`, c)
		} else {
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// ctorName: constructors are printed without quotes (cvc5 takes no quoted
// symbol in a tester)
func ctorName(n string) string {
	ok := func(r rune) bool {
		return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("+-/*=%?!.$_~&^<>@", r)
	}
	c := strings.Map(func(r rune) rune {
		if ok(r) {
			return r
		}
		return '_'
	}, n)
	if c != n {
		h := fnv.New32a()
		h.Write([]byte(n))
		c = fmt.Sprintf("%s!%x", c, h.Sum32())
	}
	return "K" + c
}

func symName(n string) string {
	return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(n) + "|"
}

func (t *Term) String() string {
	if t.size > 5000 {
		return "a large condition"
	}
	var sb strings.Builder
	printTerm(&sb, t, nil, 0)
	return sb.String()
}

func printTerm(sb *strings.Builder, t *Term, names map[int]string, depth int) {
	if names != nil {
		if n, ok := names[t.id]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.op {
	case "var":
		sb.WriteString(symName(t.name))
	case "bv":
		sb.WriteString(symName(t.name))
	case "int":
		if t.iv.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.iv).String())
		} else {
			sb.WriteString(t.iv.String())
		}
	case "str":
		sb.WriteString(smtStr(t.name))
	case "bool":
		sb.WriteString(t.name)
	case "fp":
		sb.WriteString(t.name)
	case "raw":
		sb.WriteString(t.name)
	case "forall":
		n := len(t.args) - 1
		sb.WriteString("(forall (")
		for _, v := range t.args[:n] {
			fmt.Fprintf(sb, "(%s %s)", symName(v.name), v.sort.Name)
		}
		sb.WriteString(") ")
		printTerm(sb, t.args[n], names, depth+1)
		sb.WriteString(")")
	case "constarr":
		fmt.Fprintf(sb, "((as const %s) ", t.sort.Name)
		printTerm(sb, t.args[0], names, depth+1)
		sb.WriteString(")")
	case "is":
		fmt.Fprintf(sb, "((_ is %s) ", ctorName(t.name))
		printTerm(sb, t.args[0], names, depth+1)
		sb.WriteString(")")
	default:
		op := t.op
		switch op {
		case "ctor":
			op = ctorName(t.name)
		case "app", "sel":
			op = symName(t.name)
		}
		if len(t.args) == 0 {
			sb.WriteString(op)
			return
		}
		sb.WriteByte('(')
		sb.WriteString(op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			printTerm(sb, a, names, depth+1)
		}
		sb.WriteByte(')')
	}
}

// pieces of a concatenation
func pieces(t *Term) []*Term {
	if t.op == "str.++" {
		return append(pieces(t.args[0]), pieces(t.args[1])...)
	}
	if t.op == "str" && t.name == "" {
		return nil
	}
	return []*Term{t}
}

func join(ps []*Term) *Term {
	t := StrT("")
	for _, p := range ps {
		t = Concat(t, p)
	}
	return t
}

// simpStr: substrings and characters of concatenations with known pieces
func simpStr(op string, args []*Term) *Term {
	switch op {
	case "str.to_code":
		if a := args[0]; a.op == "str" && len(a.name) == 1 {
			return IntT(int64(a.name[0]))
		}
	case "str.at":
		s, i := args[0], args[1]
		if s.op == "str" && i.isInt() && i.iv.IsInt64() {
			if n := i.iv.Int64(); n >= 0 && n < int64(len(s.name)) {
				return StrT(s.name[n : n+1])
			}
			return nil
		}
		if s.op != "str.++" {
			return nil
		}
		ps := pieces(s)
		off := IntT(0)
		for _, p := range ps {
			if p.op == "str" {
				if d := Sub(i, off); d.isInt() && d.iv.IsInt64() && d.iv.Sign() >= 0 && d.iv.Int64() < int64(len(p.name)) {
					n := d.iv.Int64()
					return StrT(p.name[n : n+1])
				}
			}
			off = Add(off, StrLen(p))
		}
	case "str.substr":
		s, off, n := args[0], args[1], args[2]
		if off.isInt() && off.iv.Sign() == 0 && n == StrLen(s) {
			return s
		}
		if s.op != "str.++" && s.op != "str" {
			return nil
		}
		ps := pieces(s)
		// drop whole pieces and literal prefixes in front
		for len(ps) > 0 {
			l := StrLen(ps[0])
			if off == l && !(off.isInt() && off.iv.Sign() == 0) {
				off, ps = IntT(0), ps[1:]
				continue
			}
			if ps[0].op == "str" && off.isInt() && off.iv.IsInt64() && off.iv.Sign() > 0 {
				k := off.iv.Int64()
				m := int64(len(ps[0].name))
				if k >= m {
					off, ps = IntT(k-m), ps[1:]
				} else {
					ps = append([]*Term{StrT(ps[0].name[k:])}, ps[1:]...)
					off = IntT(0)
				}
				continue
			}
			break
		}
		if !(off.isInt() && off.iv.Sign() == 0) {
			return nil
		}
		// a prefix made of whole pieces and part of a literal
		have := IntT(0)
		for i := 0; i <= len(ps); i++ {
			d := Sub(n, have)
			if d.isInt() && d.iv.Sign() == 0 {
				return join(ps[:i])
			}
			if i < len(ps) && ps[i].op == "str" && d.isInt() && d.iv.IsInt64() && d.iv.Sign() > 0 && d.iv.Int64() <= int64(len(ps[i].name)) {
				return join(append(ps[:i:i], StrT(ps[i].name[:d.iv.Int64()])))
			}
			if i < len(ps) {
				have = Add(have, StrLen(ps[i]))
			}
		}
	case "str.prefixof":
		if p, ps := args[0], pieces(args[1]); p.op == "str" && len(ps) > 0 && ps[0].op == "str" {
			l := ps[0].name
			if len(l) >= len(p.name) {
				return BoolT(l[:len(p.name)] == p.name)
			}
			if p.name[:len(l)] != l {
				return tFalse
			}
		}
	case "str.suffixof":
		if p, ps := args[0], pieces(args[1]); p.op == "str" && len(ps) > 0 && ps[len(ps)-1].op == "str" {
			l := ps[len(ps)-1].name
			if len(l) >= len(p.name) {
				return BoolT(l[len(l)-len(p.name):] == p.name)
			}
		}
	}
	return nil
}
