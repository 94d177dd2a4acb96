package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- heaps

type hkind int

const (
	hBase hkind = iota
	hStore
	hHavoc
)

type HNode struct {
	kind     hkind
	parent   *HNode
	ref      *Term
	val      *Term
	sym      *Sym
	bound    Age // hHavoc: refs allocated after bound may have changed
	refs     []*Term
	all      bool
	onlyRefs bool
	vs       *Sort
	seq      int
}

type Event struct {
	name string
	args []Value
	rets []Value
	typs []types.Type // argument types
	rtyp []types.Type
	st   *State // state snapshot right before the event
	sum  bool   // summary: an unknown number of such events
	in   *ssa.Function
	pv   *Term // the panic value when the call panicked
}

type State struct {
	pc       []*Term
	heaps    map[string]*HNode
	alloc    Age
	events   []*Event
	iters    map[*ssa.Range]*Term // visited set
	entry    *State               // state at entry of the verified function
	spec     bool                 // pure evaluation
	guard    *Term
	fuel     int
	recs     map[string]bool
	unf      *unfList // recursive applications unfolded on this path
	k        *Term
	curIt    *Term // visited set visible to vc.Seen
	mapLoop  bool
	curKey   *Term                // the key being visited, in a loop inside a map iteration
	keys     map[*ssa.Range]*Term // the key each map iteration is at
	seenKS   *Sort
	panicV   *Term // value being recovered
	extPV    *Term // panic value of foreign code that reached a deferred call
	recovd   bool
	notes    []string
	initRefs *int
}

type unfList struct {
	id   int
	next *unfList
	// an application whose first argument has an unknown dynamic type
	fn *ssa.Function
	ts []*Term
}

func (l *unfList) has(id int) bool {
	for ; l != nil; l = l.next {
		if l.id == id {
			return true
		}
	}
	return false
}

func (s *State) fork() *State {
	n := *s
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.notes = s.notes[:len(s.notes):len(s.notes)]
	n.events = s.events[:len(s.events):len(s.events)]
	n.heaps = make(map[string]*HNode, len(s.heaps)+2)
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.keys = make(map[*ssa.Range]*Term, len(s.keys))
	for k, v := range s.keys {
		n.keys[k] = v
	}
	n.iters = make(map[*ssa.Range]*Term, len(s.iters))
	for k, v := range s.iters {
		n.iters[k] = v
	}
	return &n
}

// become continues s as the (otherwise unused) state t; callers hold s
func (s *State) become(t *State) {
	if s != t {
		*s = *t
	}
}

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t.isTrue() {
			continue
		}
		if t.op == "and" {
			s.assume(t.args...)
			continue
		}
		dup := false
		for _, p := range s.pc {
			if p == t {
				dup = true
				break
			}
		}
		if !dup {
			s.pc = append(s.pc, t)
		}
	}
}

// known evaluates c under syntactic facts of the path condition
func (s *State) known(c *Term) (bool, bool) {
	if c.isTrue() {
		return true, true
	}
	if c.isFalse() {
		return false, true
	}
	n := Not(c)
	for _, p := range s.pc {
		if p == c {
			return true, true
		}
		if p == n {
			return false, true
		}
	}
	if c.op == "and" {
		all := true
		for _, a := range c.args {
			v, ok := s.known(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	if c.op == "not" {
		if v, ok := s.known2(c.args[0]); ok {
			return !v, true
		}
	}
	return s.known2(c)
}

func (s *State) known2(c *Term) (bool, bool) {
	// testers: another constructor known
	if c.op == "is" {
		for _, p := range s.pc {
			if p.op == "is" && p.args[0] == c.args[0] && p.name != c.name {
				return false, true
			}
			if p.op == "=" && (p.args[0] == c.args[0] && p.args[1].op == "ctor" || p.args[1] == c.args[0] && p.args[0].op == "ctor") {
				k := p.args[1]
				if p.args[1] == c.args[0] {
					k = p.args[0]
				}
				return k.name == c.name, true
			}
		}
	}
	if c.op == "=" && c.args[0].sort == Int {
		if refCmp2(c.args[0], c.args[1]) {
			return false, true
		}
		if a, ok := exactAge(c.args[0]); ok && a.o > 0 && c.args[1].isInt() && c.args[1].iv.Sign() == 0 {
			return false, true
		}
		if a, ok := exactAge(c.args[1]); ok && a.o > 0 && c.args[0].isInt() && c.args[0].iv.Sign() == 0 {
			return false, true
		}
	}
	if c.op == "=" && c.args[0].sort.Kind == SData {
		x, k := c.args[0], c.args[1]
		if x.op == "ctor" {
			x, k = k, x
		}
		if k.op == "ctor" {
			for _, p := range s.pc {
				if p.op == "is" && p.args[0] == x && p.name != k.name {
					return false, true
				}
				if p.op == "not" && p.args[0].op == "is" && p.args[0].args[0] == x && p.args[0].name == k.name {
					return false, true
				}
			}
		}
	}
	if c.op == "or" {
		for _, a := range c.args {
			if v, ok := s.known(a); ok && v {
				return true, true
			}
		}
	}
	return false, false
}

func allocTerm(a Age) *Term {
	v := VarOf(allocSym(a.e))
	return Add(v, IntT(int64(a.o)))
}

func allocSym(e int) *Sym {
	n := fmt.Sprintf("alloc!%d", e)
	s := declSym(n, nil, Int, Age{e, 0})
	s.AllocEpoch = e
	return s
}

const globalRefLimit = 1000000

func NewState() *State {
	s := &State{heaps: map[string]*HNode{}, iters: map[*ssa.Range]*Term{}, recs: map[string]bool{}}
	allocSym(0)
	s.assume(Ge(allocTerm(Age{0, 0}), IntT(globalRefLimit)))
	return s
}

func (s *State) newRef() *Term {
	if s.initRefs != nil {
		*s.initRefs++
		return IntT(int64(1000 + *s.initRefs))
	}
	s.alloc.o++
	return allocTerm(s.alloc)
}

func (s *State) newEpoch() {
	old := s.alloc
	s.alloc = Age{old.e + 1, 0}
	s.assume(Ge(allocTerm(s.alloc), allocTerm(old)))
}

func (s *State) node(key string, vs *Sort) *HNode {
	if n, ok := s.heaps[key]; ok {
		return n
	}
	sym := declSym("H!"+key, []*Sort{Int}, vs, Age{0, 0})
	n := &HNode{kind: hBase, sym: sym, vs: vs}
	s.heaps[key] = n
	return n
}

func (s *State) readNode(n *HNode, ref *Term, use func(...*Term)) *Term {
	if ref.op == "ite" {
		if v, ok := s.known(ref.args[0]); ok {
			if v {
				return s.readNode(n, ref.args[1], use)
			}
			return s.readNode(n, ref.args[2], use)
		}
		return Ite(ref.args[0], s.readNode(n, ref.args[1], use), s.readNode(n, ref.args[2], use))
	}
	switch n.kind {
	case hBase:
		if ref.isInt() {
			if v, ok := globHeap[n.sym.Name+"@"+ref.iv.String()]; ok {
				return v
			}
		}
		return App(n.sym, ref)
	case hStore:
		switch refCmp(ref, n.ref) {
		case cSame:
			return n.val
		case cDistinct:
			return s.readNode(n.parent, ref, use)
		}
		ageFacts(ref, use)
		ageFacts(n.ref, use)
		c := Eq(ref, n.ref)
		if v, ok := s.known(c); ok {
			if v {
				return n.val
			}
			return s.readNode(n.parent, ref, use)
		}
		return Ite(c, n.val, s.readNode(n.parent, ref, use))
	case hHavoc:
		if n.all {
			return App(n.sym, ref)
		}
		var in []*Term
		unk := false
		for _, r := range n.refs {
			switch refCmp(ref, r) {
			case cSame:
				return App(n.sym, ref)
			case cUnknown:
				c := Eq(ref, r)
				if v, ok := s.known(c); ok {
					if v {
						return App(n.sym, ref)
					}
					continue
				}
				unk = true
				ageFacts(ref, use)
				ageFacts(r, use)
				in = append(in, c)
			}
		}
		if n.onlyRefs || ageOf(ref).le(n.bound) {
			// unchanged
		} else if l, ok := lowAge(ref); ok && n.bound.le(l) {
			return App(n.sym, ref)
		} else {
			unk = true
			ageFacts(ref, use)
			in = append(in, Gt(ref, allocTerm(n.bound)))
		}
		if !unk {
			return s.readNode(n.parent, ref, use)
		}
		return Ite(Or(in...), App(n.sym, ref), s.readNode(n.parent, ref, use))
	}
	panic("hnode")
}

func ageFacts(ref *Term, use func(...*Term)) {
	if use == nil || ref.bound || ref.isInt() {
		return
	}
	if _, ok := exactAge(ref); ok {
		return
	}
	use(Le(ref, allocTerm(ageOf(ref))))
	if l, ok := lowAge(ref); ok {
		use(Or(Eq(ref, IntT(0)), Gt(ref, allocTerm(l))))
	}
}

func (x *Exec) readHeap(st *State, key string, vs *Sort, ref *Term) *Term {
	x.noteRead(key)
	return st.readNode(st.node(key, vs), ref, func(ts ...*Term) { st.assume(ts...) })
}

func (x *Exec) writeHeap(st *State, key string, vs *Sort, ref, val *Term) {
	if st.spec && st.guard != nil && !st.guard.isTrue() {
		if _, ok := exactAge(ref); !ok {
			panic(unsupported("store in specification"))
		}
		old := x.readHeap(st, key, vs, ref)
		val = Ite(st.guard, val, old)
	}
	if !st.spec {
		x.noteWrite(st, key, ref)
	}
	n := st.node(key, vs)
	if n.kind == hStore && n.ref == ref {
		st.heaps[key] = &HNode{kind: hStore, parent: n.parent, ref: ref, val: val, vs: vs}
		return
	}
	st.heaps[key] = &HNode{kind: hStore, parent: n, ref: ref, val: val, vs: vs}
}

// ---- typed access

func elemKey(t types.Type, path string) string { return "E:" + typeKey(t) + "." + path }

func elemSort(lt types.Type) *Sort {
	if isByte(lt) {
		return String
	}
	return ArraySort(Int, sortOf(lt))
}

func (x *Exec) loadLeaf(st *State, p *PtrV, path string, lt types.Type) Value {
	full := joinPath(p.path, path)
	if p.elem {
		if isByte(lt) && full == "" {
			arr := x.readHeap(st, elemKey(p.root, full), String, p.ref)
			return Op("str.to_code", Int, Op("str.at", String, arr, p.idx))
		}
		arr := x.readHeap(st, elemKey(p.root, full), elemSort(lt), p.ref)
		return fromTerm(Select(arr, p.idx), lt)
	}
	if a, ok := under(p.root).(*types.Array); ok && full == "" {
		return x.readHeap(st, elemKey(a.Elem(), ""), elemSort(a.Elem()), p.ref)
	}
	return fromTerm(x.readHeap(st, rootKey(p.root)+"|"+full, sortOf(lt), p.ref), lt)
}

func (x *Exec) storeLeaf(st *State, p *PtrV, path string, lt types.Type, v Value) {
	full := joinPath(p.path, path)
	t := toTerm(v, lt)
	if p.elem {
		key := elemKey(p.root, full)
		if isByte(lt) && full == "" {
			arr := x.readHeap(st, key, String, p.ref)
			ch := Op("str.from_code", String, t)
			if t.isInt() && t.iv.IsInt64() && t.iv.Sign() >= 0 && t.iv.Int64() < 256 {
				ch = StrT(string([]byte{byte(t.iv.Int64())}))
			}
			next := Add(p.idx, IntT(1))
			nv := Concat(Concat(substr(arr, IntT(0), p.idx), ch), substr(arr, next, Sub(StrLen(arr), next)))
			x.writeHeap(st, key, String, p.ref, nv)
			return
		}
		arr := x.readHeap(st, key, elemSort(lt), p.ref)
		x.writeHeap(st, key, elemSort(lt), p.ref, Store(arr, p.idx, t))
		return
	}
	if a, ok := under(p.root).(*types.Array); ok && full == "" {
		x.writeHeap(st, elemKey(a.Elem(), ""), elemSort(a.Elem()), p.ref, t)
		return
	}
	x.writeHeap(st, rootKey(p.root)+"|"+full, sortOf(lt), p.ref, t)
}

func (x *Exec) load(st *State, p *PtrV) Value {
	if p.cell != nil {
		if p.path == "" {
			return p.cell.v
		}
		return structField(p.cell.v, p.path)
	}
	if p.glob != nil {
		return x.loadGlobal(st, p.glob)
	}
	v := assemble(p.typ, func(path string, lt types.Type) Value { return x.loadLeaf(st, p, path, lt) })
	x.loadFacts(st, v, p.typ)
	return v
}

func (x *Exec) loadFacts(st *State, v Value, t types.Type) {
	switch v := v.(type) {
	case *SliceV:
		x.sliceInv(st, v)
	case *StructV:
		s := under(t).(*types.Struct)
		for i, f := range v.fields {
			x.loadFacts(st, f, s.Field(i).Type())
		}
	case *PtrV:
		if v.ref != nil && !v.elem && v.path == "" && !v.ref.bound && v.ref.op != "int" {
			if _, ok := exactAge(v.ref); !ok {
				st.assume(Ge(v.ref, IntT(0)))
				ageFacts(v.ref, func(ts ...*Term) { st.assume(ts...) })
			}
		}
	}
}

func (x *Exec) sliceInv(st *State, s *SliceV) {
	if s.base.bound || s.len.bound {
		return
	}
	if s.len.op == "int" && s.cap.op == "int" {
		return
	}
	st.assume(sliceFacts(s)...)
	ageFacts(s.base, func(ts ...*Term) { st.assume(ts...) })
}

func structField(v Value, path string) Value {
	for path != "" {
		sv := v.(*StructV)
		head := path
		rest := ""
		for i := 0; i < len(path); i++ {
			if path[i] == '.' {
				head, rest = path[:i], path[i+1:]
				break
			}
		}
		st := under(sv.typ).(*types.Struct)
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == head {
				v = sv.fields[i]
				found = true
				break
			}
		}
		if !found {
			panic("structField " + path)
		}
		path = rest
	}
	return v
}

func (x *Exec) store(st *State, p *PtrV, v Value) {
	if p.cell != nil {
		if p.path != "" {
			panic(unsupported("store to field of spec-local struct"))
		}
		if st.guard != nil && !st.guard.isTrue() && p.cell.v != nil && st.guard != p.cell.guard {
			p.cell.v = mergeValues(st.guard, v, p.cell.v, p.typ)
		} else {
			p.cell.v = v
		}
		return
	}
	if p.glob != nil {
		x.storeGlobal(st, p.glob, v)
		return
	}
	disassemble(v, p.typ, func(path string, lt types.Type, v Value) { x.storeLeaf(st, p, path, lt, v) })
}

func mergeValues(c *Term, a, b Value, t types.Type) Value {
	if a == b {
		return a
	}
	if sa, ok := a.(*StructV); ok {
		if sb, ok := b.(*StructV); ok {
			st := under(t).(*types.Struct)
			r := &StructV{typ: sa.typ}
			for i := range sa.fields {
				r.fields = append(r.fields, mergeValues(c, sa.fields[i], sb.fields[i], st.Field(i).Type()))
			}
			return r
		}
	}
	if sa, ok := a.(*SliceV); ok {
		if sb, ok := b.(*SliceV); ok {
			return &SliceV{Ite(c, sa.base, sb.base), Ite(c, sa.off, sb.off), Ite(c, sa.len, sb.len), Ite(c, sa.cap, sb.cap), sa.elem}
		}
	}
	if ta, ok := a.(TupleV); ok {
		tb := b.(TupleV)
		tup := t.(*types.Tuple)
		var r TupleV
		for i := range ta {
			r = append(r, mergeValues(c, ta[i], tb[i], tup.At(i).Type()))
		}
		return r
	}
	if pa, ok := a.(*PtrV); ok && pa.cell != nil {
		panic(unsupported("merge of spec-local pointers"))
	}
	return fromTerm(Ite(c, toTerm(a, t), toTerm(b, t)), t)
}

// ---- maps

type mapKeys struct{ d, n string }

func mapBase(m *types.Map) string { return "M:" + typeKey(m) }

func (x *Exec) mapDom(st *State, m *types.Map, ref *Term) *Term {
	if ref.isInt() && ref.iv.Sign() == 0 {
		return ConstArr(ArraySort(sortOf(m.Key()), Bool), tFalse)
	}
	return x.readHeap(st, mapBase(m)+"#d", ArraySort(sortOf(m.Key()), Bool), ref)
}
func (x *Exec) mapLen(st *State, m *types.Map, ref *Term) *Term {
	if ref.isInt() && ref.iv.Sign() == 0 {
		return IntT(0)
	}
	n := x.readHeap(st, mapBase(m)+"#n", Int, ref)
	if !n.bound {
		st.assume(Ge(n, IntT(0)), Implies(Eq(ref, IntT(0)), Eq(n, IntT(0))))
	}
	return n
}
func (x *Exec) mapVal(st *State, m *types.Map, ref, key *Term) Value {
	v := assemble(m.Elem(), func(path string, lt types.Type) Value {
		arr := x.readHeap(st, mapBase(m)+"#v."+path, ArraySort(sortOf(m.Key()), sortOf(lt)), ref)
		return fromTerm(Select(arr, key), lt)
	})
	x.loadFacts(st, v, m.Elem())
	return v
}

// mapHas: membership; nil map has nothing
func (x *Exec) mapHas(st *State, m *types.Map, ref, key *Term) *Term {
	h := Select(x.mapDom(st, m, ref), key)
	if _, ok := exactAge(ref); ok {
		return h
	}
	if !ref.isInt() && !ref.bound && !key.bound {
		if v, ok := st.known(Eq(ref, IntT(0))); !(ok && !v) {
			st.assume(Implies(Eq(ref, IntT(0)), Not(h)))
		}
		// a non-empty domain has positive length
		st.assume(Implies(h, Gt(x.mapLen(st, m, ref), IntT(0))))
		return h
	}
	if !ref.isInt() {
		if !ref.bound {
			if v, ok := st.known(Eq(ref, IntT(0))); ok && !v {
				return h
			}
		}
		return And(Not(Eq(ref, IntT(0))), h)
	}
	return h
}

func (x *Exec) mapStore(st *State, m *types.Map, ref, key *Term, v Value) {
	dom := x.mapDom(st, m, ref)
	n := x.mapLen(st, m, ref)
	x.writeHeap(st, mapBase(m)+"#n", Int, ref, Ite(Select(dom, key), n, Add(n, IntT(1))))
	x.writeHeap(st, mapBase(m)+"#d", ArraySort(sortOf(m.Key()), Bool), ref, Store(dom, key, tTrue))
	disassemble(v, m.Elem(), func(path string, lt types.Type, v Value) {
		hk := mapBase(m) + "#v." + path
		so := ArraySort(sortOf(m.Key()), sortOf(lt))
		arr := x.readHeap(st, hk, so, ref)
		x.writeHeap(st, hk, so, ref, Store(arr, key, toTerm(v, lt)))
	})
}

func (x *Exec) mapDelete(st *State, m *types.Map, ref, key *Term) {
	dom := x.mapDom(st, m, ref)
	n := x.mapLen(st, m, ref)
	x.writeHeap(st, mapBase(m)+"#n", Int, ref, Ite(Select(dom, key), Sub(n, IntT(1)), n))
	x.writeHeap(st, mapBase(m)+"#d", ArraySort(sortOf(m.Key()), Bool), ref, Store(dom, key, tFalse))
}

func (x *Exec) newMap(st *State, m *types.Map) *Term {
	ref := st.newRef()
	x.writeHeap(st, mapBase(m)+"#n", Int, ref, IntT(0))
	x.writeHeap(st, mapBase(m)+"#d", ArraySort(sortOf(m.Key()), Bool), ref, ConstArr(ArraySort(sortOf(m.Key()), Bool), tFalse))
	return ref
}

// ---- bytes and slices

func (x *Exec) bytesToString(st *State, s *SliceV) *Term {
	if s.len.isInt() && s.len.iv.Sign() == 0 {
		return StrT("")
	}
	c := x.readHeap(st, elemKey(types.Typ[types.Uint8], ""), String, s.base)
	if s.off.isInt() && s.off.iv.Sign() == 0 && s.len == StrLen(c) {
		return c
	}
	return Op("str.substr", String, c, s.off, s.len)
}

func (x *Exec) stringToBytes(st *State, t *Term) *SliceV {
	ref := st.newRef()
	x.writeHeap(st, elemKey(types.Typ[types.Uint8], ""), String, ref, t)
	n := StrLen(t)
	return &SliceV{ref, IntT(0), n, n, types.Typ[types.Uint8]}
}

// a slice value of bytes whose whole content is the string c
func (x *Exec) sliceElem(st *State, s *SliceV, i *Term) Value {
	p := &PtrV{root: s.elem, ref: s.base, elem: true, idx: Add(s.off, i), typ: s.elem}
	return x.load(st, p)
}

// sliceArr gives the content array of one leaf, shifted so that index 0 is the
// first element when the offset is zero.
func (x *Exec) sliceArr(st *State, s *SliceV, path string, lt types.Type) *Term {
	return x.readHeap(st, elemKey(s.elem, path), elemSort(lt), s.base)
}

var globHeap = map[string]*Term{}

// refCmp2: two references certainly differ
func refCmp2(a, b *Term) bool {
	_, ea := exactAge(a)
	_, eb := exactAge(b)
	_, la := lowAge(a)
	_, lb := lowAge(b)
	if !ea && !eb && !la && !lb {
		return false
	}
	if a.bound || b.bound {
		return false
	}
	if a.isInt() && a.iv.Sign() == 0 || b.isInt() && b.iv.Sign() == 0 {
		return ea && b.isInt() || eb && a.isInt()
	}
	return refCmp(a, b) == cDistinct
}
