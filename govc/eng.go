package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type bigFloat = big.Float

// gil serialises symbolic execution; it is released around solver calls
var gil sync.Mutex

const vcPath = repoPath + "/internal/vc"

// Clause is one specification function attached to a target.
type Clause struct {
	Kind  string // requires ensures modifies panics onpanic invariant iter
	Name  string
	Props []string
	Fn    *ssa.Function
	Attrs map[string]string
	File  string
}

// Contract of one function (or of all implementations of an interface method,
// or a lemma).
type Contract struct {
	Target   string
	Fn       *ssa.Function
	IMethod  bool
	Lemma    bool
	Requires []*Clause
	Ensures  []*Clause
	Modifies []*Clause
	Panics   []*Clause
	OnPanic  []*Clause
	Invs     []*Clause
	Iters    []*Clause
	Attrs    map[string]string
	Impls    []*ssa.Function
	Fresh    []int
	For      *Contract // implementation obligations of an interface contract
}

func (c *Contract) all() []*Clause {
	var l []*Clause
	for _, s := range [][]*Clause{c.Requires, c.Ensures, c.Modifies, c.Panics, c.OnPanic, c.Invs, c.Iters} {
		l = append(l, s...)
	}
	return l
}

func (c *Contract) has(attr string) bool {
	if _, ok := c.Attrs[attr]; ok {
		return true
	}
	l, ok := c.Attrs[attr+"@"]
	return ok && hasProp(splitProps(l), curProp)
}

var curProp string

type Eng struct {
	repo       string
	specDir    string
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package
	funcs      map[string]*ssa.Function
	contracts  map[string]*Contract
	byFn       map[*ssa.Function]*Contract
	models     map[string]*ssa.Function
	recs       map[*ssa.Function]bool
	recGeneral map[*ssa.Function]bool // unfolded for every value of arguments other than the first
	opaque     map[*ssa.Function]bool
	errCtors   []*Ctor
	specFns    map[*ssa.Function]bool
	loops      map[*ssa.Function]map[*ssa.BasicBlock]*loop
	missing    []string
	badSpecs   []string
	globals    map[*ssa.Global]*globInfo
	gfacts     func(x *Exec, st *State)
	gheap      []gfact
	implOf     map[*ssa.Function]*Contract
	trusted    map[string]string // name -> note
	mu         sync.Mutex
}

type globInfo struct {
	id  int
	mut bool
	val Value
	ext bool
}

type gfact struct {
	key string
	vs  *Sort
	ref *Term
	val *Term
}

func fnName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		n := fn.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			return fnName(fn.Parent()) + n[i:]
		}
		return fnName(fn.Parent()) + "$" + n
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnName(o)
	}
	if r := fn.Signature.Recv(); r != nil {
		return "(" + typeKey(r.Type()) + ")." + fn.Name()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Name() + "." + fn.Name()
	}
	return fn.Name()
}

func isRepoFn(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && strings.HasPrefix(p.Path(), repoPath)
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if f.Object() != nil {
			return f.Object().Pkg()
		}
	}
	return nil
}

func isSpecFile(name string) bool { return strings.HasPrefix(filepath.Base(name), "vcspec_") }

// overlay maps spec files into the repository tree
func overlay(repo, specDir string, skip map[string]bool) (map[string][]byte, error) {
	ov := map[string][]byte{}
	for dir, dst := range map[string]string{"vc": "internal/vc", "jlib": ".", "schema": "schema", "http": "http", "fifo": "examples/fifo"} {
		fs, _ := filepath.Glob(filepath.Join(specDir, dir, "*.go"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			name := filepath.Base(f)
			if dir != "vc" {
				name = "vcspec_" + name
			}
			p := filepath.Join(repo, dst, name)
			if skip[p] {
				continue
			}
			ov[p] = b
		}
	}
	return ov, nil
}

func LoadEng(repo, specDir string, patterns []string) (*Eng, error) {
	skip := map[string]bool{}
	var e *Eng
	for try := 0; try < 8; try++ {
		ov, err := overlay(repo, specDir, skip)
		if err != nil {
			return nil, err
		}
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
				packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir: repo, Overlay: ov,
		}
		ps, err := packages.Load(cfg, patterns...)
		if err != nil {
			return nil, err
		}
		bad := false
		var fatal []string
		for _, p := range ps {
			for _, er := range p.Errors {
				f := strings.SplitN(er.Pos, ":", 2)[0]
				if isSpecFile(f) && !skip[f] {
					skip[f] = true
					bad = true
					e2 := fmt.Sprintf("%s: %s", er.Pos, er.Msg)
					if e == nil {
						e = &Eng{}
					}
					e.badSpecs = append(e.badSpecs, e2)
				} else if !isSpecFile(f) {
					fatal = append(fatal, er.Error())
				}
			}
		}
		if bad {
			continue
		}
		if len(fatal) > 0 {
			return nil, fmt.Errorf("repository does not load: %s", strings.Join(fatal, "; "))
		}
		var bs []string
		if e != nil {
			bs = e.badSpecs
		}
		e = &Eng{badSpecs: bs}
		return e, e.build(repo, specDir, ps)
	}
	return nil, fmt.Errorf("specifications do not load")
}

func (e *Eng) build(repo, specDir string, ps []*packages.Package) error {
	e.repo, e.specDir = repo, specDir
	e.pkgs = map[string]*ssa.Package{}
	e.funcs = map[string]*ssa.Function{}
	e.contracts = map[string]*Contract{}
	e.byFn = map[*ssa.Function]*Contract{}
	e.models = map[string]*ssa.Function{}
	e.recs = map[*ssa.Function]bool{}
	e.recGeneral = map[*ssa.Function]bool{}
	e.opaque = map[*ssa.Function]bool{}
	e.specFns = map[*ssa.Function]bool{}
	e.loops = map[*ssa.Function]map[*ssa.BasicBlock]*loop{}
	e.globals = map[*ssa.Global]*globInfo{}
	e.trusted = map[string]string{}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	for _, sp := range sps {
		if sp != nil {
			e.pkgs[sp.Pkg.Path()] = sp
		}
	}
	initSorts()
	for fn := range ssautil.AllFunctions(prog) {
		if !isRepoFn(fn) || fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "instance") {
			continue
		}
		// of a generic function, an instance is what runs
		if old := e.funcs[fnName(fn)]; old != nil && len(old.TypeArgs()) > 0 && (len(fn.TypeArgs()) == 0 || fn.String() > old.String()) {
			continue
		}
		e.funcs[fnName(fn)] = fn
	}
	for i, sp := range sps {
		if sp == nil {
			continue
		}
		// methods are not package members
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok {
				for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(ty)
					for j := 0; j < ms.Len(); j++ {
						if f := prog.MethodValue(ms.At(j)); f != nil && f.Synthetic == "" {
							e.funcs[fnName(f)] = f
						}
					}
				}
			}
		}
		_ = i
	}
	e.registerTypes()
	for i, p := range ps {
		sp := sps[i]
		if sp == nil {
			continue
		}
		for j, file := range p.Syntax {
			if !isSpecFile(p.CompiledGoFiles[j]) {
				continue
			}
			docs := map[*ast.Comment]bool{}
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
					for _, c := range fd.Doc.List {
						docs[c] = true
					}
				}
			}
			for _, g := range file.Comments {
				for _, c := range g.List {
					if !strings.HasPrefix(c.Text, "//vc:") || docs[c] {
						continue
					}
					if !strings.HasPrefix(c.Text, "//vc:attr ") {
						return fmt.Errorf("%s: directive not attached to a function: %s", p.CompiledGoFiles[j], c.Text)
					}
					fs := strings.Fields(c.Text)
					ct := e.contract(fs[1])
					for _, k := range fs[2:] {
						v := ""
						if i := strings.Index(k, "="); i > 0 {
							k, v = k[:i], k[i+1:]
						}
						// name@C01,C02: for these properties only
						if i := strings.Index(k, "@"); i > 0 {
							k, v = k[:i+1], k[i+1:]
						}
						ct.Attrs[k] = v
					}
				}
			}
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				fn := sp.Func(fd.Name.Name)
				if fn == nil {
					continue
				}
				e.markSpec(fn)
				if fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//vc:") {
						if err := e.directive(c.Text[5:], fn, p.CompiledGoFiles[j]); err != nil {
							return fmt.Errorf("%s: %v", fd.Name.Name, err)
						}
					}
				}
			}
		}
	}
	e.resolve()
	e.initGlobals()
	return nil
}

func (e *Eng) markSpec(fn *ssa.Function) {
	e.specFns[fn] = true
	for _, a := range fn.AnonFuncs {
		e.markSpec(a)
	}
}

func splitProps(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

func (e *Eng) contract(target string) *Contract {
	c := e.contracts[target]
	if c == nil {
		c = &Contract{Target: target, Attrs: map[string]string{}}
		e.contracts[target] = c
	}
	return c
}

func (e *Eng) directive(text string, fn *ssa.Function, file string) error {
	fs := strings.Fields(text)
	kind := fs[0]
	cl := &Clause{Kind: kind, Name: fn.Name(), Fn: fn, Attrs: map[string]string{}, File: filepath.Base(file)}
	target := ""
	for _, f := range fs[1:] {
		if i := strings.Index(f, "="); i > 0 {
			k, v := f[:i], f[i+1:]
			switch k {
			case "name":
				cl.Name = v
			case "props":
				cl.Props = splitProps(v)
			default:
				cl.Attrs[k] = v
			}
		} else if target == "" {
			target = f
		} else {
			cl.Attrs[f] = ""
		}
	}
	switch kind {
	case "rec":
		e.recs[fn] = true
		if target == "general" {
			e.recGeneral[fn] = true
		}
		return nil
	case "opaque":
		e.opaque[fn] = true
		return nil
	case "model":
		e.models[target] = fn
		if len(fs) > 2 {
			e.trusted["model "+target] = strings.Join(fs[2:], " ")
		}
		return nil
	case "lemma":
		c := e.contract("lemma:" + fn.Name())
		c.Lemma = true
		c.Fn = fn
		cl.Name = target
		if target == "" {
			cl.Name = fn.Name()
		}
		c.Ensures = append(c.Ensures, cl)
		for k, v := range cl.Attrs {
			c.Attrs[k] = v
		}
		return nil
	case "attr":
		c := e.contract(target)
		for k, v := range cl.Attrs {
			c.Attrs[k] = v
		}
		return nil
	}
	c := e.contract(target)
	switch kind {
	case "requires":
		c.Requires = append(c.Requires, cl)
	case "ensures":
		c.Ensures = append(c.Ensures, cl)
	case "modifies":
		c.Modifies = append(c.Modifies, cl)
	case "panics":
		c.Panics = append(c.Panics, cl)
	case "onpanic":
		c.OnPanic = append(c.OnPanic, cl)
	case "invariant":
		c.Invs = append(c.Invs, cl)
	case "iter":
		c.Iters = append(c.Iters, cl)
	default:
		return fmt.Errorf("unknown directive %s", kind)
	}
	if f, ok := cl.Attrs["fresh"]; ok {
		for _, s := range strings.Split(f, ",") {
			n, _ := strconv.Atoi(s)
			c.Fresh = append(c.Fresh, n)
		}
	}
	for _, k := range []string{"inline", "abstract"} {
		if _, ok := cl.Attrs[k]; ok {
			c.Attrs[k] = ""
		}
	}
	return nil
}

func otherRecv(t string) string {
	switch {
	case strings.HasPrefix(t, "(*"):
		return "(" + t[2:]
	case strings.HasPrefix(t, "("):
		return "(*" + t[1:]
	}
	return ""
}

func (e *Eng) resolve() {
	for _, t := range sortedKeys(e.contracts) {
		c := e.contracts[t]
		if c.Lemma || strings.HasPrefix(t, "dyn:") || strings.HasPrefix(t, "chan:") {
			continue
		}
		if f, ok := e.funcs[t]; ok {
			c.Fn = f
			e.byFn[f] = c
			continue
		}
		// the receiver may be a value or a pointer
		if f, ok := e.funcs[otherRecv(t)]; ok {
			c.Fn = f
			e.byFn[f] = c
			continue
		}
		// interface method: pkg.Type.Method
		if im := e.findIMethod(t); im != nil {
			c.IMethod = true
			c.Impls = im
			continue
		}
		e.missing = append(e.missing, t)
	}
}

// findIMethod resolves "pkg.Iface.Method" to its implementations in the repo
func (e *Eng) findIMethod(t string) []*ssa.Function {
	parts := strings.Split(t, ".")
	if len(parts) != 3 {
		return nil
	}
	for _, sp := range e.pkgs {
		if sp.Pkg.Name() != parts[0] {
			continue
		}
		ty, ok := sp.Members[parts[1]].(*ssa.Type)
		if !ok {
			continue
		}
		it, ok := under(ty.Type()).(*types.Interface)
		if !ok {
			continue
		}
		return e.implsOf(it, parts[2])
	}
	return nil
}

func (e *Eng) implsOf(it *types.Interface, method string) []*ssa.Function {
	seen := map[string]*ssa.Function{}
	for _, sp := range e.pkgs {
		for _, m := range sp.Members {
			tt, ok := m.(*ssa.Type)
			if !ok || isIface(tt.Type()) || types.Universe.Lookup(tt.Name()) != nil {
				continue
			}
			if nm, ok := types.Unalias(tt.Type()).(*types.Named); ok && nm.TypeParams().Len() > 0 {
				continue
			}
			ty := tt.Type()
			if !types.Implements(ty, it) {
				ty = types.NewPointer(ty)
				if !types.Implements(ty, it) {
					continue
				}
			}
			sel := e.prog.MethodSets.MethodSet(ty).Lookup(sp.Pkg, method)
			if sel == nil {
				continue
			}
			f := e.prog.MethodValue(sel)
			seen[f.String()] = f
		}
	}
	var out []*ssa.Function
	for _, k := range sortedKeys(seen) {
		out = append(out, seen[k])
	}
	return out
}

// registerTypes fixes the constructors of the interface datatype: every
// concrete type converted to or asserted from an interface in the repository.
func (e *Eng) registerTypes() {
	ts := map[string]types.Type{}
	add := func(t types.Type) {
		if t == nil || isIface(t) {
			return
		}
		if _, ok := t.(*types.Tuple); ok {
			return
		}
		if hasTypeParam(t) {
			return
		}
		ts[typeKey(t)] = t
	}
	for _, b := range []types.BasicKind{types.Bool, types.Int, types.Int64, types.Uint64, types.Float64, types.String, types.Uint, types.Int32, types.Float32} {
		add(types.Typ[b])
	}
	anyT := types.NewInterfaceType(nil, nil)
	_ = anyT
	var visit func(fn *ssa.Function)
	seen := map[*ssa.Function]bool{}
	visit = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeInterface:
					add(in.X.Type())
					// what errors.As may look for
					if p, ok := in.X.Type().(*types.Pointer); ok {
						if _, ok := p.Elem().(*types.Pointer); ok {
							add(p.Elem())
						}
					}
				case *ssa.TypeAssert:
					add(in.AssertedType)
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for fn := range ssautil.AllFunctions(e.prog) {
		if isRepoFn(fn) {
			visit(fn)
		}
	}
	for _, sp := range e.pkgs {
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok {
				visit(f)
			}
		}
	}
	for _, f := range e.funcs {
		visit(f)
	}
	// types implementing an interface declared in the repository
	var ifs []*types.Interface
	for _, sp := range e.pkgs {
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok {
				if it, ok := under(t.Type()).(*types.Interface); ok && it.NumMethods() > 0 {
					ifs = append(ifs, it)
				}
			}
		}
	}
	for _, sp := range e.pkgs {
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok || isIface(t.Type()) {
				continue
			}
			if nm, ok := types.Unalias(t.Type()).(*types.Named); ok && nm.TypeParams().Len() > 0 {
				continue
			}
			for _, it := range ifs {
				if types.Implements(t.Type(), it) {
					// value receivers: the pointer is what the library uses
					if ts[typeKey(t.Type())] == nil {
						add(types.NewPointer(t.Type()))
					}
				} else if types.Implements(types.NewPointer(t.Type()), it) {
					add(types.NewPointer(t.Type()))
				}
			}
		}
	}
	// the member names the code and the contracts know
	for _, sp := range e.pkgs {
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok {
				if st, ok := under(t.Type()).(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if n := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]; n != "" && n != "-" {
							jsonNames[n] = true
						}
					}
				}
			}
		}
	}
	for _, k := range sortedKeys(ts) {
		registerIfaceType(ts[k])
	}
	ifaceFrozen = true
}

func hasTypeParam(t types.Type) bool {
	switch t := t.(type) {
	case *types.TypeParam:
		return true
	case *types.Pointer:
		return hasTypeParam(t.Elem())
	case *types.Slice:
		return hasTypeParam(t.Elem())
	case *types.Map:
		return hasTypeParam(t.Key()) || hasTypeParam(t.Elem())
	case *types.Signature:
		for i := 0; i < t.Params().Len(); i++ {
			if hasTypeParam(t.Params().At(i).Type()) {
				return true
			}
		}
		for i := 0; i < t.Results().Len(); i++ {
			if hasTypeParam(t.Results().At(i).Type()) {
				return true
			}
		}
	case *types.Named:
		for i := 0; i < t.TypeArgs().Len(); i++ {
			if hasTypeParam(t.TypeArgs().At(i)) {
				return true
			}
		}
	}
	return false
}

// canonRoot: converting *T to *U (same underlying struct) keeps the object's
// own root type, so both views address the same cells.
func (e *Eng) canonRoot(root, pointee types.Type) types.Type { return root }

// ---- globals

func (e *Eng) globalPtr(g *ssa.Global) Value {
	gi := e.globals[g]
	if gi == nil {
		e.mu.Lock()
		gi = &globInfo{id: 500000 + len(e.globals), mut: true}
		if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), repoPath) {
			gi.ext, gi.mut = true, false
		}
		e.globals[g] = gi
		e.mu.Unlock()
	}
	t := g.Type().(*types.Pointer).Elem()
	return &PtrV{root: t, ref: IntT(int64(gi.id)), typ: t, glob: g}
}

func globName(g *ssa.Global) string {
	if g.Pkg != nil {
		return g.Pkg.Pkg.Path() + "." + g.Name()
	}
	return g.Name()
}

func (x *Exec) loadGlobal(st *State, g *ssa.Global) Value {
	p := x.eng.globalPtr(g).(*PtrV)
	gi := x.eng.globals[g]
	t := p.typ
	if x.initMode {
		if v, ok := x.initVals[g]; ok {
			return v
		}
		return zeroValue(t)
	}
	if !gi.mut && gi.val != nil {
		return gi.val
	}
	if !gi.mut {
		sym := declSym("G!"+globName(g), nil, sortOf(t), Age{0, 0})
		v := VarOf(sym)
		if gi.ext && isIface(t) && types.Identical(t, types.Universe.Lookup("error").Type()) {
			st.assume(ifaceOther.Is(v), Same(ifaceOther.Sel(0, v), UF("globtag", Int, StrT(globName(g)))), Same(ifaceOther.Sel(1, v), IntT(int64(gi.id))))
		}
		return fromTerm(v, t)
	}
	q := *p
	q.glob = nil
	return x.load(st, &q)
}

func (x *Exec) storeGlobal(st *State, g *ssa.Global, v Value) {
	p := x.eng.globalPtr(g).(*PtrV)
	if x.initMode {
		x.initVals[g] = v
		return
	}
	q := *p
	q.glob = nil
	x.store(st, &q, v)
}

// initGlobals evaluates package initialisers: globals only assigned there get
// their initial value, and the objects they point to their initial contents.
func (e *Eng) initGlobals() {
	stored := map[*ssa.Global]bool{}
	mutated := map[string]bool{} // struct types written through anything but a local allocation
	for fn := range ssautil.AllFunctions(e.prog) {
		if !isRepoFn(fn) || fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						stored[g] = true
					}
					a := s.Addr
					name := ""
					for {
						fa, ok := a.(*ssa.FieldAddr)
						if !ok {
							break
						}
						name = typeKey(fa.X.Type().Underlying().(*types.Pointer).Elem())
						a = fa.X
					}
					if _, loc := a.(*ssa.Alloc); !loc {
						if name == "" {
							name = typeKey(s.Addr.Type().Underlying().(*types.Pointer).Elem())
						}
						mutated[name] = true
					}
				}
			}
		}
	}
	var paths []string
	for p := range e.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	x := &Exec{eng: e, initMode: true, initVals: map[*ssa.Global]Value{}, assume: map[string]bool{}, used: map[string]bool{}, inl: map[string]bool{}}
	x.setLimits(20, 500, 500)
	x.sol = NewSolver()
	defer x.sol.Close()
	n := 0
	for _, p := range paths {
		sp := e.pkgs[p]
		fn := sp.Func("init")
		if fn == nil || p == vcPath {
			continue
		}
		st := NewState()
		st.initRefs = &n
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupportedErr); ok {
						if os.Getenv("GOVC_DEBUG") != "" {
							fmt.Fprintln(os.Stderr, "init of", p, "not evaluated:", u)
						}
						return
					}
					panic(r)
				}
			}()
			gil.Lock()
			defer gil.Unlock()
			outs := x.callFn(st, fn, nil, nil, nil)
			for _, o := range outs {
				if o.kind != oRet {
					continue
				}
				if len(outs) > 1 && len(o.st.heaps) == 0 {
					continue
				}
				for _, k := range sortedKeys(o.st.heaps) {
					for h := o.st.heaps[k]; h != nil && h.kind == hStore; h = h.parent {
						dup := false
						for _, f := range e.gheap {
							if f.key == k && f.ref == h.ref {
								dup = true
							}
						}
						if i := strings.LastIndex(k, "|"); i > 0 && mutated[k[:i]] {
							dup = true
						}
						if !dup {
							e.gheap = append(e.gheap, gfact{k, h.vs, h.ref, h.val})
							globHeap["H!"+k+"@"+h.ref.String()] = h.val
						}
					}
				}
			}
		}()
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			e.globalPtr(g)
			gi := e.globals[g]
			gi.mut = stored[g]
			if !gi.mut {
				if v, ok := x.initVals[g]; ok {
					gi.val = v
				}
			}
		}
	}
}

// ---- loops

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	latch  []*ssa.BasicBlock
}

func (e *Eng) loopInfo(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	if l, ok := e.loops[fn]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				l.latch = append(l.latch, b)
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	e.loops[fn] = m
	return m
}
