package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program in SSA form together with what the
// analyses derive from it.
type Prog struct {
	onWiden func(*Term) // told of the loop values that an owner is derived from

	dir   string
	pkg   *packages.Package
	fset  *token.FileSet
	prog  *ssa.Program
	spkg  *ssa.Package
	types *types.Package

	fns   []*ssa.Function // every function of the package, with literals
	named []*types.Named

	loops    map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	fnByAux  map[string]*ssa.Function
	noReturn map[*ssa.Function]bool
	errCtor  map[*ssa.Function]bool
	mods     map[*ssa.Function]map[string]bool
	effs     map[*ssa.Function]*fnEffects
	addrOf   map[string][]*ssa.Function // address-taken functions by signature
	callers  map[*ssa.Function][]callSite

	canon   map[string]string
	zeroErr map[*ssa.Function][]bool

	derivedField string
	urlPtrT      types.Type
	constNames   map[string]bool

	roles *Roles
}

type callSite struct {
	in  *ssa.Function
	ins ssa.CallInstruction
}

func load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule | packages.NeedExportFile,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var root *packages.Package
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
		if p.Name == "nanomux" {
			root = p
		}
	}
	if root == nil {
		return nil, fmt.Errorf("package nanomux not found under %s", dir)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{
		dir: dir, pkg: root, fset: root.Fset, prog: prog, types: root.Types,
		loops:   map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		fnByAux: map[string]*ssa.Function{}, noReturn: map[*ssa.Function]bool{},
		errCtor: map[*ssa.Function]bool{}, mods: map[*ssa.Function]map[string]bool{},
		addrOf: map[string][]*ssa.Function{}, callers: map[*ssa.Function][]callSite{},
	}
	for i, q := range pkgs {
		if q == root {
			p.spkg = spkgs[i]
		}
	}
	if p.spkg == nil {
		return nil, fmt.Errorf("no SSA form of the package")
	}
	p.collect()
	p.deriveFlow()
	p.resolveCalls()
	p.findDerivedField()
	for _, imp := range p.types.Imports() {
		if imp.Path() == "net/url" {
			if o := imp.Scope().Lookup("URL"); o != nil {
				p.urlPtrT = types.NewPointer(o.Type())
			}
		}
	}
	return p, nil
}

// nonNilGlobals are the package variables that are never nil: they are set
// once, when the package is initialised, to something that isn't nil.
var nonNilGlobals = map[string]bool{}

func (p *Prog) findNonNilGlobals() {
	sets := map[*ssa.Global]int{}
	bad := map[*ssa.Global]bool{}
	for _, f := range p.fns {
		init := f.Parent() == nil && f.Name() == "init" && f.Signature.Recv() == nil
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var rands []*ssa.Value
				for _, r := range in.Operands(rands) {
					g, ok := (*r).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if in.Addr == ssa.Value(g) && in.Val != ssa.Value(g) && init && nonNilValue(in.Val) {
							sets[g]++
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					bad[g] = true
				}
			}
		}
	}
	nonNilGlobals = map[string]bool{}
	for g, n := range sets {
		if n == 1 && !bad[g] {
			nonNilGlobals[g.Name()] = true
		}
	}
}

func nonNilValue(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function:
		return true
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && f.Pkg != nil {
			n := f.Pkg.Pkg.Path() + "." + f.Name()
			return n == "fmt.Errorf" || n == "errors.New"
		}
	}
	return false
}

func (p *Prog) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if len(f.Blocks) > 0 {
			p.fns = append(p.fns, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var names []string
	for n := range p.spkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := p.spkg.Members[n].(type) {
		case *ssa.Function:
			if m.Origin() == nil || m.Origin() == m {
				add(m)
			}
		case *ssa.Type:
			nt, ok := m.Type().(*types.Named)
			if !ok {
				continue
			}
			if nt.Obj().IsAlias() {
				continue
			}
			p.named = append(p.named, nt)
			for i := 0; i < nt.NumMethods(); i++ {
				add(p.prog.FuncValue(nt.Method(i)))
			}
		}
	}
	for _, f := range p.fns {
		p.fnByAux[p.fnName(f)] = f
	}
	p.findNonNilGlobals()
}

func (p *Prog) inPkg(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg == p.spkg {
			return true
		}
		if o := g.Object(); o != nil && o.Pkg() == p.types {
			return true
		}
		if g.Origin() != nil && g.Origin() != g && g.Origin().Pkg == p.spkg {
			return true
		}
	}
	return false
}

func (p *Prog) inPkgType(t types.Type) bool {
	t = derefType(t)
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg() == p.types
	}
	return false
}

func (p *Prog) fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil && o != f {
		return o.String()
	}
	return f.String()
}

// short is the name without the package path.
func (p *Prog) short(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return f.RelString(p.types)
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	x := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(x.Filename), x.Line)
}

func (p *Prog) at(f *ssa.Function, pos token.Pos) string {
	if !pos.IsValid() && f != nil {
		pos = f.Pos()
	}
	return p.pos(pos) + " (" + p.short(f) + ")"
}

// ------------------------------------------------------------ control flow

func (p *Prog) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := p.loops[f]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			set := l[s]
			if set == nil {
				set = map[*ssa.BasicBlock]bool{s: true}
				l[s] = set
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if set[x] {
					continue
				}
				set[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	p.loops[f] = l
	return l
}

// deriveFlow finds the functions that never return and those that only make
// errors.
func (p *Prog) deriveFlow() {
	for changed := true; changed; {
		changed = false
		for _, f := range p.fns {
			if !p.noReturn[f] && !p.canReturn(f) {
				p.noReturn[f] = true
				changed = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.fns {
			if !p.errCtor[f] && p.onlyMakesErrors(f) {
				p.errCtor[f] = true
				changed = true
			}
		}
	}
}

func (p *Prog) canReturn(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		dead := false
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Return:
				return true
			case *ssa.Call:
				if c := in.Call.StaticCallee(); c != nil && p.noReturn[c] {
					dead = true
				}
			}
			if dead {
				break
			}
		}
		if !dead {
			work = append(work, b.Succs...)
		}
	}
	return false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (p *Prog) onlyMakesErrors(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if rs.Len() != 1 || !isErrorType(rs.At(0).Type()) || len(f.Blocks) == 0 {
		return false
	}
	var made func(v ssa.Value, d int) bool
	made = func(v ssa.Value, d int) bool {
		if d > 5 {
			return false
		}
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !made(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.Call:
			c := v.Call.StaticCallee()
			if c == nil {
				return false
			}
			n := p.fnName(c)
			return n == "fmt.Errorf" || n == "errors.New" || p.errCtor[c]
		}
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Return:
				n++
				if !made(in.Results[0], 0) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Go, *ssa.Send:
				return false
			case *ssa.Call:
				if in.Call.IsInvoke() {
					return false
				}
			}
		}
	}
	return n > 0
}

// -------------------------------------------------------------------- values

func (p *Prog) fnTerm(f *ssa.Function) *Term {
	n := p.fnName(f)
	p.fnByAux[n] = f
	return mk("fn", n, f.Signature)
}

func (p *Prog) closure(f *ssa.Function, bindings []*Term) *Term {
	n := p.fnName(f)
	p.fnByAux[n] = f
	return mk("clo", n, f.Signature, bindings...)
}

func (p *Prog) termFn(t *Term) (*ssa.Function, []*Term) {
	switch t.Op {
	case "fn":
		return p.fnByAux[t.Aux], nil
	case "clo":
		return p.fnByAux[t.Aux], t.A
	}
	return nil, nil
}

// bound returns the method and the receiver of a bound method value.
func (p *Prog) bound(t *Term) (*ssa.Function, *Term) {
	if t.Op != "clo" || len(t.A) != 1 {
		return nil, nil
	}
	f := p.fnByAux[t.Aux]
	if f == nil || !strings.HasPrefix(f.Synthetic, "bound method wrapper") {
		return nil, nil
	}
	o, _ := f.Object().(*types.Func)
	if o == nil {
		return nil, nil
	}
	return p.prog.FuncValue(o), strip(t.A[0])
}

func (p *Prog) lookupType(name string) *types.Named {
	o := p.types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

func (p *Prog) method(typ, name string) *ssa.Function {
	n := p.lookupType(typ)
	if n == nil {
		return nil
	}
	for _, t := range []types.Type{n, types.NewPointer(n)} {
		if s := types.NewMethodSet(t).Lookup(p.types, name); s != nil {
			if o, ok := s.Obj().(*types.Func); ok {
				return p.prog.FuncValue(o)
			}
		}
	}
	return nil
}

func (p *Prog) fn(name string) *ssa.Function {
	f, _ := p.spkg.Members[name].(*ssa.Function)
	return f
}

func (p *Prog) structOf(name string) *types.Struct {
	n := p.lookupType(name)
	if n == nil {
		return nil
	}
	s, _ := n.Underlying().(*types.Struct)
	return s
}

func (p *Prog) findDerivedField() {
	s := p.structOf("_ResponderBase")
	r := p.lookupType("_Responder")
	if s == nil || r == nil {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), r) && !s.Field(i).Embedded() {
			p.derivedField = s.Field(i).Name()
		}
	}
}

func (p *Prog) isPtrTo(t types.Type, names ...string) bool {
	if t == nil {
		return false
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() != p.types {
		return false
	}
	for _, x := range names {
		if n.Obj().Name() == x {
			return true
		}
	}
	return false
}

// iface boxes a concrete value.
func (p *Prog) iface(x *Term, dyn, it types.Type) *Term {
	if p.isPtrTo(dyn, "Host", "Resource") && x.T != nil && p.isPtrTo(x.T, "_ResponderBase") {
		return mk("derived", "", it, x)
	}
	n := p.tyName(dyn)
	return mk("iface", n, dyn, x)
}

// derived is the value kept in the field that refers to the embedding object.
func (p *Prog) derived(base *Term, t types.Type) *Term {
	if base.T != nil {
		if p.isPtrTo(base.T, "Host", "Resource") {
			return p.iface(base, base.T, t)
		}
		if _, ok := base.T.Underlying().(*types.Interface); ok {
			return base
		}
	}
	return mk("derived", "", t, base)
}

func (p *Prog) tyName(t types.Type) string {
	n := typeName(t)
	if _, ok := t.Underlying().(*types.Interface); ok {
		n = "I:" + n
		ifaceTypes[n] = t
		return n
	}
	dynTypes[n] = t
	return n
}

func (p *Prog) urlPtr(*Term) types.Type { return p.urlPtrT }

// --------------------------------------------------------------------- calls

// implementers returns the in-package methods that an interface method call
// may reach.
func (p *Prog) implementers(it types.Type, m *types.Func) []*ssa.Function {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	seen := map[*types.Func]bool{}
	var r []*ssa.Function
	for _, n := range p.named {
		if types.IsInterface(n) {
			continue
		}
		for _, t := range []types.Type{n, types.NewPointer(n)} {
			if !types.Implements(t, iface) {
				continue
			}
			s := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
			if s == nil {
				continue
			}
			o, ok := s.Obj().(*types.Func)
			if !ok || seen[o] {
				continue
			}
			seen[o] = true
			if f := p.prog.FuncValue(o); f != nil {
				r = append(r, f)
			}
		}
	}
	return r
}

func (p *Prog) methodOf(t types.Type, m *types.Func) *ssa.Function {
	s := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
	if s == nil {
		return nil
	}
	return p.prog.MethodValue(s)
}

func (p *Prog) resolveInvoke(recv *Term, m *types.Func, f *Facts) *ssa.Function {
	if recv.Op == "iface" {
		if t, ok := dynTypes[recv.Aux]; ok {
			return p.methodOf(t, m)
		}
	}
	if ty, ok := f.ty[recv]; ok {
		if t, ok := dynTypes[ty]; ok {
			return p.methodOf(t, m)
		}
	}
	sig := m.Type().(*types.Signature)
	if sig.Recv() == nil {
		return nil
	}
	it := sig.Recv().Type()
	if !p.inPkgType(it) {
		return nil
	}
	// the interface must be closed: it has unexported methods
	iface, _ := it.Underlying().(*types.Interface)
	closed := false
	for i := 0; iface != nil && i < iface.NumMethods(); i++ {
		if !iface.Method(i).Exported() {
			closed = true
		}
	}
	if !closed {
		return nil
	}
	c := p.implementers(it, m)
	if len(c) == 1 {
		return c[0]
	}
	return nil
}

// invokees returns all the in-package targets of an interface method call.
func (p *Prog) invokees(c *ssa.CallCommon) []*ssa.Function {
	return p.implementers(c.Value.Type(), c.Method)
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

// unwrap follows thunks and bound method wrappers to the declared method.
func (p *Prog) unwrap(f *ssa.Function) *ssa.Function {
	if f != nil && f.Synthetic != "" {
		if o, ok := f.Object().(*types.Func); ok {
			if g := p.prog.FuncValue(o); g != nil && len(g.Blocks) > 0 {
				return g
			}
		}
	}
	return f
}

// resolveCalls indexes address-taken functions and the callers of functions.
func (p *Prog) resolveCalls() {
	take := func(f *ssa.Function) {
		f = p.unwrap(f)
		if f == nil || !p.inPkg(f) {
			return
		}
		k := sigKey(f.Signature)
		for _, g := range p.addrOf[k] {
			if g == f {
				return
			}
		}
		p.addrOf[k] = append(p.addrOf[k], f)
	}
	for _, f := range p.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					take(mc.Fn.(*ssa.Function))
				}
				for _, op := range in.Operands(nil) {
					if *op == nil || *op == callee {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if _, isMC := in.(*ssa.MakeClosure); !isMC {
							take(g)
						}
					}
				}
			}
		}
	}
	for _, f := range p.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range p.callees(c.Common()) {
					p.callers[g] = append(p.callers[g], callSite{f, c})
				}
			}
		}
	}
}

// addrTaken: the function is used as a value somewhere.
func (p *Prog) addrTaken(f *ssa.Function) bool {
	for _, g := range p.addrOf[sigKey(f.Signature)] {
		if g == f {
			return true
		}
	}
	return false
}

// allFns are the functions of the package including the package initialiser.
func (p *Prog) allFns() []*ssa.Function {
	r := p.fns
	if f := p.spkg.Func("init"); f != nil {
		has := false
		for _, g := range r {
			if g == f {
				has = true
			}
		}
		if !has {
			r = append(r[:len(r):len(r)], f)
		}
	}
	return r
}

// callees are the in-package functions that a call may reach.
func (p *Prog) callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		var r []*ssa.Function
		for _, f := range p.invokees(c) {
			if p.inPkg(f) {
				r = append(r, f)
			}
		}
		return r
	}
	if f := c.StaticCallee(); f != nil {
		f = p.unwrap(f)
		if p.inPkg(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	return p.addrOf[sigKey(c.Signature())]
}

// ------------------------------------------------------------------- effects

// cellOf names the memory cell that an address denotes.
func (p *Prog) cellOf(a ssa.Value) string {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		s := derefType(a.X.Type()).Underlying().(*types.Struct)
		return s.Field(a.Field).Name()
	case *ssa.Global:
		return "global:" + a.Name()
	case *ssa.IndexAddr:
		return "elem:" + p.originOf(a.X)
	case *ssa.Alloc:
		return "alloc"
	case *ssa.FreeVar:
		return "free"
	}
	return "ptr"
}

func (p *Prog) originOf(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return p.cellOf(v.X)
		}
	case *ssa.Slice:
		return p.originOf(v.X)
	case *ssa.Call:
		return "call"
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e != ssa.Value(v) {
				if _, ok := e.(*ssa.Phi); !ok {
					return p.originOf(e)
				}
			}
		}
	case *ssa.FieldAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		return p.cellOf(v)
	}
	return "val"
}

// directWrites are the cells that the function itself writes. The bits of
// fresh are the parameters whose objects the caller of interest can't know.
func (p *Prog) directWrites(f *ssa.Function, fresh uint) map[string]bool {
	w := map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if p.freshVal(in.Addr, f, fresh, 0) {
					continue // the caller can't know the object
				}
				c := p.cellOf(in.Addr)
				w[c] = true
				p.structCells(derefType(in.Addr.Type()), w)
			case *ssa.MapUpdate:
				w["map:"+p.originOf(in.Map)] = true
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "copy":
						w["elem:"+p.originOf(in.Call.Args[0])] = true
					case "delete":
						w["map:"+p.originOf(in.Call.Args[0])] = true
					case "append":
						// may write the spare capacity of the slice; the
						// visible elements stay the same
					}
				}
			}
		}
	}
	return w
}

// freshVal: the value is (in) an object that was allocated by the function,
// by a function it called, or by its caller for the parameters in fresh.
func (p *Prog) freshVal(a ssa.Value, f *ssa.Function, fresh uint, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return p.freshVal(x.X, f, fresh, depth)
	case *ssa.IndexAddr:
		if _, ok := derefType(x.X.Type()).Underlying().(*types.Array); ok {
			return p.freshVal(x.X, f, fresh, depth)
		}
	case *ssa.Alloc:
		return true
	case *ssa.Parameter:
		for i, q := range f.Params {
			if q == x && i < 60 {
				return fresh&(1<<uint(i)) != 0
			}
		}
	case *ssa.Call:
		return p.freshResult(x, 0, depth)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return p.freshResult(c, x.Index, depth)
		}
	}
	return false
}

// alwaysFresh: the value is an object that was allocated by the function, or
// given to it by callers that allocated it.
func (p *Prog) alwaysFresh(a ssa.Value, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if p.freshVal(a, f, 0, 0) {
		return true
	}
	x, ok := a.(*ssa.Parameter)
	if !ok || seen[f] || f.Object() == nil || f.Object().Exported() || p.addrTaken(f) || len(p.callers[f]) == 0 {
		return false
	}
	seen[f] = true
	i := -1
	for j, q := range f.Params {
		if q == x {
			i = j
		}
	}
	for _, cs := range p.callers[f] {
		args := cs.ins.Common().Args
		if cs.ins.Common().IsInvoke() || i < 0 || i >= len(args) || !p.alwaysFresh(args[i], cs.in, seen) {
			return false
		}
	}
	return true
}

// freshResult: the called function returns an object that it has allocated,
// or nil.
func (p *Prog) freshResult(c *ssa.Call, i, depth int) bool {
	g := c.Call.StaticCallee()
	if g == nil || len(g.Blocks) == 0 {
		return false
	}
	n := 0
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			if k, ok := r.Results[i].(*ssa.Const); ok && k.IsNil() {
				continue
			}
			if !p.freshVal(r.Results[i], g, 0, depth+1) {
				return false
			}
			n++
		}
	}
	return n > 0
}

func (p *Prog) structCells(t types.Type, w map[string]bool) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			w[s.Field(i).Name()] = true
			if s.Field(i).Embedded() {
				p.structCells(s.Field(i).Type(), w)
			}
		}
	}
}

// modset is the set of cells that a call of the function may write.
func (p *Prog) modset(f *ssa.Function) map[string]bool {
	if m, ok := p.mods[f]; ok {
		return m
	}
	type use struct {
		f     *ssa.Function
		fresh uint
	}
	seen := map[use]bool{}
	m := map[string]bool{}
	work := []use{{f, 0}}
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[g] {
			continue
		}
		seen[g] = true
		for c := range p.directWrites(g.f, g.fresh) {
			m[c] = true
		}
		for _, b := range g.f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					cc := in.Common()
					var fresh uint
					if cc.StaticCallee() != nil {
						for i, a := range cc.Args {
							if i < 60 && p.freshVal(a, g.f, g.fresh, 0) {
								fresh |= 1 << uint(i)
							}
						}
					}
					for _, h := range p.callees(cc) {
						if h == cc.StaticCallee() {
							work = append(work, use{h, fresh})
						} else {
							work = append(work, use{h, 0})
						}
					}
				}
			}
		}
	}
	p.mods[f] = m
	return m
}

func (p *Prog) modsetOfMethod(name string) map[string]bool {
	m := map[string]bool{}
	for _, f := range p.fns {
		if f.Name() == name && f.Signature.Recv() != nil {
			for c := range p.modset(f) {
				m[c] = true
			}
		}
	}
	return m
}

type fnEffects struct{}

// files returns the syntax trees by file name.
func (p *Prog) files() map[string]*ast.File {
	m := map[string]*ast.File{}
	for _, f := range p.pkg.Syntax {
		m[filepath.Base(p.fset.Position(f.Pos()).Filename)] = f
	}
	return m
}
