package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Roles maps the parts that the properties talk about to the constructs of
// the current source. The parts are found through the exported API and through
// the identifiers that the package's own tests pin; where neither helps, a
// structural search is used. A part that can't be found fails the check.
type Roles struct {
	// fields of Args
	path, raw, clean, idx, sub, handled, hpv, r, slc string
	// fields of _ResponderBase
	recv, passer, handler, redirector, redirH, prc, cfs string
	rhb                                                 string
	static, pattern, wild, papa, tmpl, impl, shared     string
	// fields of _RequestHandlerBase
	pairs, notAllowed string
	// package variables
	gNotFound, gCommon, gPRC, gPool string

	recvHost, recvRes, passHost, passRes, roPass *ssa.Function
	serveRouter, serveHost, serveRes             *ssa.Function
	handleRequest                                *ssa.Function

	bit  map[string]int // single flag bits by name
	mask map[string]int64

	missing []string
}

func (r *Roles) miss(format string, a ...any) {
	r.missing = append(r.missing, fmt.Sprintf(format, a...))
}

func fieldsOf(s *types.Struct, pred func(*types.Var) bool) []string {
	var ns []string
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if pred(s.Field(i)) {
			ns = append(ns, s.Field(i).Name())
		}
	}
	return ns
}

func hasField(s *types.Struct, n string) bool {
	return len(fieldsOf(s, func(v *types.Var) bool { return v.Name() == n })) == 1
}

// pick returns the preferred name if the struct has it, or the only candidate.
func (r *Roles) pick(s *types.Struct, what, pref string, pred func(*types.Var) bool) string {
	c := fieldsOf(s, pred)
	for _, n := range c {
		if n == pref {
			return n
		}
	}
	if len(c) == 1 {
		return c[0]
	}
	r.miss("%s (%d candidates)", what, len(c))
	return "?" + pref
}

func named(t types.Type, names ...string) bool {
	n, ok := types.Unalias(derefType(t)).(*types.Named)
	if !ok {
		return false
	}
	for _, x := range names {
		if n.Obj().Name() == x {
			return true
		}
	}
	return false
}

func basicKind(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

func (p *Prog) findRoles() *Roles {
	r := &Roles{bit: map[string]int{}, mask: map[string]int64{}}
	p.roles = r
	as := p.structOf("Args")
	rb := p.structOf("_ResponderBase")
	rh := p.structOf("_RequestHandlerBase")
	if as == nil || rb == nil || rh == nil {
		r.miss("types Args, _ResponderBase, _RequestHandlerBase")
		return r
	}
	kind := func(k types.BasicKind) func(*types.Var) bool {
		return func(v *types.Var) bool { return basicKind(v.Type(), k) }
	}
	r.path = r.pick(as, "Args: request path", "path", kind(types.String))
	r.idx = r.pick(as, "Args: cursor", "currentPathSegmentIdx", kind(types.Int))
	r.hpv = r.pick(as, "Args: host and path values", "hostPathValues", func(v *types.Var) bool {
		return named(v.Type(), "TemplateValues")
	})
	r.r = r.pick(as, "Args: current responder", "_r", func(v *types.Var) bool { return named(v.Type(), "_Responder") })
	r.slc = r.pick(as, "Args: custom arguments", "slc", func(v *types.Var) bool {
		if named(v.Type(), "TemplateValues") {
			return false
		}
		switch v.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
			return true
		}
		return false
	})
	r.findArgsBools(as)

	isHandler := func(v *types.Var) bool { return named(v.Type(), "Handler") }
	r.passer = r.pick(rb, "request passer", "requestPasser", isHandler)
	r.handler = r.pick(rb, "request handler", "requestHandler", isHandler)
	r.recv = p.storedField("_ResponderBase", "RedirectAnyRequestTo", rb, isHandler, "requestReceiver")
	r.redirector = p.storedField("_ResponderBase", "RedirectRequestTo", rb, isHandler, "requestRedirector")
	// the field that's left when the name isn't known, whatever is stored
	for _, x := range []struct {
		role *string
		name string
	}{{&r.recv, "requestReceiver"}, {&r.redirector, "requestRedirector"}} {
		if contains(fieldsOf(rb, isHandler), x.name) {
			*x.role = x.name
		}
	}
	for _, n := range []string{r.passer, r.handler} {
		if r.recv == n || r.redirector == n {
			r.miss("request receiver and redirector fields of their own")
		}
	}
	if r.recv == "" || r.redirector == "" || r.recv == r.redirector {
		r.miss("request receiver and redirector fields")
	}
	r.redirH = r.pick(rb, "redirect handler", "redirectHandler", func(v *types.Var) bool { return named(v.Type(), "RedirectHandler") })
	r.prc = r.pick(rb, "permanent redirect code", "permanentRedirectCode", kind(types.Int))
	r.cfs = r.pick(rb, "configuration flags", "cfs", func(v *types.Var) bool { return named(v.Type(), "_ConfigFlags") })
	r.rhb = r.pick(rb, "request handler base", "_RequestHandlerBase", func(v *types.Var) bool {
		return named(v.Type(), "_RequestHandlerBase")
	})
	r.static = r.pick(rb, "static resources", "staticResources", func(v *types.Var) bool {
		_, ok := v.Type().Underlying().(*types.Map)
		return ok
	})
	r.pattern = r.pick(rb, "pattern resources", "patternResources", func(v *types.Var) bool {
		_, ok := v.Type().Underlying().(*types.Slice)
		return ok
	})
	r.wild = r.pick(rb, "wildcard resource", "wildcardResource", func(v *types.Var) bool { return p.isPtrTo(v.Type(), "Resource") })
	r.papa = r.pick(rb, "parent", "papa", func(v *types.Var) bool { return named(v.Type(), "_Parent") })
	r.tmpl = r.pick(rb, "template", "tmpl", func(v *types.Var) bool { return p.isPtrTo(v.Type(), "Template") })
	r.impl = r.pick(rb, "implementation", "impl", func(v *types.Var) bool { return named(v.Type(), "Impl") })
	r.shared = r.pick(rb, "shared data", "sharedData", func(v *types.Var) bool {
		_, ok := v.Type().Underlying().(*types.Interface)
		return ok
	})
	r.pairs = r.pick(rh, "method handlers", "mhPairs", func(v *types.Var) bool { return named(v.Type(), "_MethodHandlerPairs") })
	r.notAllowed = r.pick(rh, "not allowed method handler", "notAllowedHTTPMethodHandler", isHandler)

	r.gNotFound = p.storedGlobal("SetHandlerForNotFound")
	r.gCommon = p.storedGlobal("SetCommonRedirectHandler")
	r.gPRC = p.storedGlobal("SetPermanentRedirectCode")
	for n, m := range p.spkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		if typeName(derefType(g.Type())) == "sync.Pool" {
			if r.gPool != "" {
				r.miss("a single sync.Pool")
			}
			r.gPool = n
		}
	}
	for what, n := range map[string]string{
		"variable of the not-found handler": r.gNotFound, "variable of the common redirect handler": r.gCommon,
		"variable of the permanent redirect code": r.gPRC, "pool of Args": r.gPool,
	} {
		if n == "" {
			r.miss("%s", what)
		}
	}

	r.serveRouter = p.method("Router", "ServeHTTP")
	r.serveHost = p.method("Host", "ServeHTTP")
	r.serveRes = p.method("Resource", "ServeHTTP")
	r.handleRequest = p.method("_RequestHandlerBase", "handleRequest")
	r.recvHost = p.boundIn("Host", r.recv)
	r.recvRes = p.boundIn("Resource", r.recv)
	r.passHost = p.boundIn("Host", r.passer)
	r.passRes = p.boundIn("Resource", r.passer)
	r.roPass = p.boundIn("Router", "requestPasser")
	for n, f := range map[string]*ssa.Function{
		"Router.ServeHTTP": r.serveRouter, "Host.ServeHTTP": r.serveHost, "Resource.ServeHTTP": r.serveRes,
		"handleRequest": r.handleRequest, "host's request receiver": r.recvHost, "resource's request receiver": r.recvRes,
		"host's request passer": r.passHost, "resource's request passer": r.passRes, "router's request passer": r.roPass,
	} {
		if f == nil {
			r.miss("function: %s", n)
		}
	}
	p.findBits(r)
	return r
}

// storedField finds the field that an exported setter stores into.
func (p *Prog) storedField(typ, meth string, s *types.Struct, pred func(*types.Var) bool, pref string) string {
	f := p.method(typ, meth)
	if f == nil {
		return ""
	}
	cand := map[string]bool{}
	for _, n := range fieldsOf(s, pred) {
		cand[n] = true
	}
	found := ""
	for _, g := range append([]*ssa.Function{f}, p.staticCallees(f, 2)...) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						n := p.cellOf(fa)
						if cand[n] && derefType(fa.X.Type()).Underlying() == s {
							found = n
						}
					}
				}
			}
		}
	}
	if found == "" && cand[pref] {
		return pref
	}
	return found
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

func (p *Prog) staticCallees(f *ssa.Function, d int) []*ssa.Function {
	if d == 0 {
		return nil
	}
	var r []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil {
					g = p.unwrap(g)
					if p.inPkg(g) && len(g.Blocks) > 0 {
						r = append(r, g)
						r = append(r, p.staticCallees(g, d-1)...)
					}
				}
			}
		}
	}
	return r
}

func (p *Prog) storedGlobal(fn string) string {
	f := p.fn(fn)
	if f == nil {
		return ""
	}
	for _, g := range append([]*ssa.Function{f}, p.staticCallees(f, 2)...) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if gl, ok := st.Addr.(*ssa.Global); ok {
						return gl.Name()
					}
				}
			}
		}
	}
	return ""
}

// boundIn finds the method whose bound value constructors store in the
// field of objects of the type.
func (p *Prog) boundIn(typ, field string) *ssa.Function {
	var found *ssa.Function
	for _, f := range p.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || p.cellOf(fa) != field {
					continue
				}
				v := st.Val
				for {
					if c, ok := v.(*ssa.ChangeType); ok {
						v = c.X
						continue
					}
					break
				}
				mc, ok := v.(*ssa.MakeClosure)
				if !ok || len(mc.Bindings) != 1 {
					continue
				}
				if p.rootTypeName(mc.Bindings[0]) != typ {
					continue
				}
				g := p.unwrap(mc.Fn.(*ssa.Function))
				if found == nil {
					found = g
				}
			}
		}
	}
	return found
}

// rootTypeName is the type of the object that embeds the one v points to.
func (p *Prog) rootTypeName(v ssa.Value) string {
	for {
		if fa, ok := v.(*ssa.FieldAddr); ok {
			v = fa.X
			continue
		}
		break
	}
	if n, ok := types.Unalias(derefType(v.Type())).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (r *Roles) findArgsBools(as *types.Struct) {
	bools := fieldsOf(as, func(v *types.Var) bool { return basicKind(v.Type(), types.Bool) })
	set := map[string]bool{}
	for _, n := range bools {
		set[n] = true
	}
	want := []struct {
		dst  *string
		name string
	}{{&r.raw, "rawPath"}, {&r.clean, "cleanPath"}, {&r.sub, "subtreeExists"}, {&r.handled, "handled"}}
	var missing []*string
	for _, w := range want {
		if set[w.name] {
			*w.dst = w.name
			delete(set, w.name)
		} else {
			missing = append(missing, w.dst)
		}
	}
	if len(missing) == 1 && len(set) == 1 {
		for n := range set {
			*missing[0] = n
		}
		return
	}
	for i := range missing {
		r.miss("boolean field of Args #%d", i)
		*missing[i] = "?"
	}
}

// findBits runs the analysis on the conversion of a configuration with a
// single property set, to learn the flags' bits.
func (p *Prog) findBits(r *Roles) {
	f := p.method("Config", "asFlags")
	cs := p.structOf("Config")
	if f == nil || cs == nil {
		r.miss("Config.asFlags")
		return
	}
	for i := 0; i < cs.NumFields(); i++ {
		var fs []*Term
		for k := 0; k < cs.NumFields(); k++ {
			fs = append(fs, tBool(k == i))
		}
		n := p.lookupType("Config")
		ip := p.newInterp()
		outs := ip.Run(newState(), f, []*Term{mk("struct", structTag(n), n, fs...)})
		if ip.err != "" || len(outs) != 1 || len(outs[0].Res) != 1 {
			r.miss("flags of Config.%s: %s", cs.Field(i).Name(), ip.err)
			continue
		}
		v, ok := outs[0].Res[0].intVal()
		if !ok {
			r.miss("flags of Config.%s", cs.Field(i).Name())
			continue
		}
		r.mask[cs.Field(i).Name()] = v
	}
	for n, c := range map[string]string{
		"active": "flagActive", "subtree": "flagSubtreeHandler", "secure": "flagSecure", "redirects": "flagRedirectsInsecure",
		"tslash": "flagTrailingSlash", "strict": "flagStrictOnTrailingSlash", "lenientSlash": "flagLenientOnTrailingSlash",
		"lenientPath": "flagLenientOnUncleanPath",
	} {
		o, ok := p.types.Scope().Lookup(c).(*types.Const)
		if !ok {
			r.miss("constant %s", c)
			continue
		}
		v, _ := constant.Int64Val(o.Val())
		k := 0
		for v > 1 {
			v >>= 1
			k++
		}
		r.bit[n] = k
	}
}

// ------------------------------------------------------------ term building

// symT is an unknown; unknowns of different types are different.
func symT(name string, t types.Type) *Term {
	if t != nil {
		name += ":" + types.TypeString(t, func(o *types.Package) string { return o.Name() })
	}
	return mk("sym", name, t)
}

func sym(name string, t types.Type) *Term { return symT("$"+name, t) }

func (p *Prog) fieldType(x *Term, name string) types.Type {
	if x.T == nil {
		return nil
	}
	o, _, _ := types.LookupFieldOrMethod(derefType(x.T), true, p.types, name)
	if v, ok := o.(*types.Var); ok {
		return v.Type()
	}
	return nil
}

// fld is the initial value of a field of the object.
func (p *Prog) fld(x *Term, name string) *Term {
	t := p.fieldType(x, name)
	var pt types.Type
	if t != nil {
		pt = types.NewPointer(t)
	}
	a := mk("faddr", name, pt, x)
	if name == p.derivedField {
		return p.derived(x, t)
	}
	return mk("init", "", t, a)
}

func (p *Prog) glob(name string) *Term {
	g, _ := p.spkg.Members[name].(*ssa.Global)
	if g == nil {
		return mk("init", "", nil, mk("global", name, nil))
	}
	return mk("init", "", derefType(g.Type()), mk("global", name, g.Type()))
}

// params makes the symbolic arguments of a function.
func params(f *ssa.Function) []*Term {
	var as []*Term
	for i, q := range f.Params {
		_, isFn := q.Type().Underlying().(*types.Signature)
		_, isPt := q.Type().Underlying().(*types.Pointer)
		e, isIf := q.Type().Underlying().(*types.Interface)
		first := i == 0 && f.Signature.Recv() != nil
		open := f.Object() != nil && f.Object().Exported() && f.Name() != "ServeHTTP"
		if isIf && e.NumMethods() == 0 || open && !first && (isFn || isPt) {
			as = append(as, symT(q.Name(), q.Type()))
			continue
		}
		as = append(as, paramSym(i, q.Name(), q.Type()))
	}
	return as
}

func paramSym(i int, name string, t types.Type) *Term {
	if name == "" || name == "_" {
		name = fmt.Sprintf("unused%d", i)
	}
	return symT("$"+name, t)
}

func trimPkg(s string) string {
	return strings.ReplaceAll(s, "github.com/shohruhadham/nanomux.", "")
}
