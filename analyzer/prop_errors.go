package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Errors aren't dropped: a function succeeds only when everything it called
// succeeded, or when it recognised the error of what failed.

// errorResult is the index of the function's error result; -1 without one.
func errorResult(s *types.Signature) int {
	for i := 0; i < s.Results().Len(); i++ {
		if isErr(s.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// failable are the in-package functions that return errors of their own.
func (p *Prog) failable() map[string]bool {
	m := map[string]bool{}
	for _, f := range p.allFns() {
		if f.Parent() == nil && f.Synthetic == "" && p.inPkg(f) && errorResult(f.Signature) >= 0 && !p.errCtor[f] && !takesError(f) {
			m[p.canonical(f.Name())] = true
		}
	}
	return m
}

// takesError: the function decides about an error of its caller, so it's
// followed as a part of the caller.
func takesError(f *ssa.Function) bool {
	if f.Object() == nil || f.Object().Exported() {
		return false
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if isErr(f.Signature.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

// serves: the function has a response to write; what goes wrong while a request
// is served is answered, not returned.
func serves(f *ssa.Function) bool {
	for _, p := range f.Params {
		if typeName(p.Type()) == "net/http.ResponseWriter" || typeName(p.Type()) == "http.ResponseWriter" {
			return true
		}
	}
	if r := f.Signature.Recv(); r != nil && strings.HasSuffix(typeName(r.Type()), ".Args") {
		return true
	}
	return false
}

// calledFailable are the failable callees of a function.
func (p *Prog) calledFailable(f *ssa.Function, errs map[string]bool) []string {
	m := map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				cc := call.Common()
				if _, b := cc.Value.(*ssa.Builtin); !b && !cc.IsInvoke() && cc.StaticCallee() == nil && errorResult(cc.Signature()) >= 0 {
					m["a function value"] = true
				}
				if g := cc.StaticCallee(); p.externalError(g) {
					m[p.fnName(g)] = true
				}
				if n := p.calleeName(call); errs[n] {
					m[n] = true
				}
			}
		}
	}
	var r []string
	for n := range m {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func (p *Prog) canonical(n string) string {
	if c, ok := p.canonNames()[n]; ok {
		return c
	}
	return n
}

// calleeName is the bare name of an in-package callee.
func (p *Prog) calleeName(call ssa.CallInstruction) string {
	cc := call.Common()
	if cc.IsInvoke() {
		if p.inPkgType(cc.Value.Type()) {
			return p.canonical(cc.Method.Name())
		}
		return ""
	}
	if g := cc.StaticCallee(); g != nil && p.inPkg(g) && g.Parent() == nil && g.Synthetic == "" {
		return p.canonical(g.Name())
	}
	return ""
}

// neverFails: the argument is a function literal that always returns nil.
func (p *Prog) neverFails(t *Term) bool {
	f, _ := p.termFn(strip(t))
	if f == nil || errorResult(f.Signature) < 0 {
		return false
	}
	k := errorResult(f.Signature)
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				c, isC := r.Results[k].(*ssa.Const)
				if !isC || !c.IsNil() {
					return false
				}
				n++
			}
		}
	}
	return n > 0
}

// zeroOnError: the results that are zero whenever the function fails.
func (c *Checker) zeroOnError(fn *ssa.Function, errs map[string]bool) []bool {
	if r, ok := c.p.zeroErr[fn]; ok {
		return r
	}
	if c.p.zeroErr == nil {
		c.p.zeroErr = map[*ssa.Function][]bool{}
	}
	k := errorResult(fn.Signature)
	r := make([]bool, fn.Signature.Results().Len())
	c.p.zeroErr[fn] = make([]bool, len(r))
	ip := c.p.newInterp()
	ip.Model = c.p.regModel(errs, nil)
	outs := ip.Run(newState(), fn, params(fn))
	if ip.err != "" {
		return r
	}
	for i := range r {
		r[i] = i != k
	}
	for i := range outs {
		o := &outs[i]
		if o.Kind != "return" {
			continue
		}
		for _, f := range o.St.facts.assume(isNilT(o.Res[k]), false) {
			for i := range r {
				if r[i] && !isZeroNow(f, o.Res[i]) && !c.zeroOf(f, o, i, errs) {
					r[i] = false
				}
			}
		}
	}
	c.p.zeroErr[fn] = r
	return r
}

// zeroOf: the result is one of a function that failed and returned zero values.
func (c *Checker) zeroOf(f *Facts, o *Outcome, i int, errs map[string]bool) bool {
	for _, e := range o.St.trace {
		if e.Kind != "reg" || e.Callee == nil {
			continue
		}
		k := errorResult(e.Callee.Signature)
		if k < 0 || f.eval(isNilT(e.res(k))) != no {
			continue
		}
		for j, z := range c.zeroOnError(e.Callee, errs) {
			if z && e.res(j) == o.Res[i] {
				return true
			}
		}
	}
	return false
}

// isZeroNow: the value is known to be the zero value of its type.
func isZeroNow(f *Facts, x *Term) bool {
	if x == nil {
		return false
	}
	if x.T != nil && isStringType(x.T) {
		return f.eval(tEqC(tLen(x), 0)) == yes
	}
	return x == zeroOf(x.T) || f.eval(isNilT(x)) == yes
}

// nonZeroNow: the value is known to be other than zero.
func nonZeroNow(f *Facts, x *Term) bool {
	if x.T != nil && isStringType(x.T) {
		return f.eval(tEqC(tLen(x), 0)) == no
	}
	if x.T != nil {
		switch x.T.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature:
			return f.eval(isNilT(x)) == no
		}
	}
	return false
}

// heeded: the event's error is known to be nil, or it was recognised.
func (c *Checker) heeded(f *Facts, e *Event, k int, errs map[string]bool) bool {
	err := e.res(k)
	if f.eval(isNilT(err)) == yes {
		return true
	}
	if f.find(func(t *Term) bool {
		return t.Op == "call" && t.Aux == "errors.Is" && t.A[0] == err && f.eval(t) == yes
	}) != nil {
		return true
	}
	for _, a := range e.Args {
		if a != nil && c.p.neverFails(a) {
			return true
		}
	}
	if e.Callee != nil {
		for i, z := range c.zeroOnError(e.Callee, errs) {
			if z && nonZeroNow(f, e.res(i)) {
				return true
			}
		}
	}
	// a function that can't fail itself looked at another package's error and
	// went on without the result
	if e.Callee == nil && e.In != nil && strings.Contains(e.Name, ".") && errorResult(e.In.Signature) < 0 && f.eval(isNilT(err)) == no {
		return true
	}
	// parents: only routers can be parents of everything
	if e.Name == "setParent" && len(e.Args) == 2 {
		p := e.Args[1]
		return p.isNil() || f.eval(isNilT(p)) == yes || p.Op == "iface" && c.p.isPtrTo(p.A[0].T, "Router")
	}
	return false
}

// externalError: a function of another package that can fail; writing to memory
// doesn't fail.
func (p *Prog) externalError(g *ssa.Function) bool {
	if g == nil || p.inPkg(g) || errorResult(g.Signature) < 0 {
		return false
	}
	n := p.fnName(g)
	return !strings.HasPrefix(n, "(*strings.Builder).") && !strings.HasPrefix(n, "(*bytes.Buffer).") &&
		n != "fmt.Errorf" && n != "errors.New" && n != "errors.Unwrap" && n != "errors.Join"
}

// withExternalErrors makes the calls of such functions events, too.
func (p *Prog) withExternalErrors(m modelFn) modelFn {
	return func(ip *Interp, st *State, in *ssa.Function, name string, fn *ssa.Function, args []*Term, site string) ([]callRes, bool) {
		if !p.externalError(fn) {
			return m(ip, st, in, name, fn, args, site)
		}
		n := p.fnName(fn)
		ev := &Event{Kind: "reg", Name: n, Args: args, In: in, Mem: copyMem(st.mem), NFacts: st.facts.clone(), Callee: nil}
		ev.Res = multi("reg:"+n, site, fn.Signature, args)
		st.trace = append(st.trace, ev)
		for _, a := range args {
			ip.escape(st, a)
		}
		return []callRes{{st: st, res: ev.Res}}, true
	}
}

// unread: the calls of functions of other packages whose error nobody looks
// at; writing to memory doesn't fail.
func (c *Checker) unread() {
	for _, fn := range c.p.allFns() {
		if serves(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := call.Call.StaticCallee()
				if !c.p.externalError(g) {
					continue
				}
				n := c.p.fnName(g)
				read := false
				k := errorResult(g.Signature)
				for _, r := range *call.Referrers() {
					if x, ok := r.(*ssa.Extract); ok && g.Signature.Results().Len() > 1 {
						read = read || x.Index == k && len(*x.Referrers()) > 0
						continue
					}
					if _, dbg := r.(*ssa.DebugRef); !dbg {
						read = true
					}
				}
				c.ob(read, "unread", c.p.short(fn)+": "+n, c.at(fn, call.Pos()), "nobody looks at the error of %s", n)
			}
		}
	}
}

func checkP22(c *Checker) {
	c.rule("errors: a path of a function that ends in success has a nil error from each failable function it called, or recognised the error with errors.Is")
	c.rule("setParent: a router or nothing can be the parent of every responder")
	c.rule("unread: the error of each function of another package is looked at; writing to memory doesn't fail")
	errs := c.p.failable()
	c.unread()
	if len(errs) < 15 {
		c.undecided("failable functions", "only %d were found", len(errs))
	}
	n := 0
	for _, fn := range c.p.allFns() {
		if fn.Synthetic != "" || len(fn.Blocks) == 0 || !c.p.inPkg(fn) {
			continue
		}
		if serves(fn) || c.p.errCtor[fn] || len(c.p.calledFailable(fn, errs)) == 0 {
			continue
		}
		n++
		ip := c.p.newInterp()
		ip.Model = c.p.withExternalErrors(c.p.regModel(errs, nil))
		var outs []Outcome
		if len(fn.FreeVars) > 0 {
			var free []*Term
			for _, v := range fn.FreeVars {
				free = append(free, mk("sym", "$"+v.Name(), v.Type()))
			}
			outs = ip.RunClosure(newState(), fn, params(fn), free)
			c.mark(ip, len(outs))
			if ip.err != "" {
				c.undecided(c.p.short(fn), "%s", ip.err)
				continue
			}
		} else {
			outs = c.run(ip, newState(), fn, params(fn))
		}
		judge := func(f *Facts, tr []*Event) {
			for _, e := range tr {
				if e.Kind != "reg" && e.Kind != "dyn" {
					continue
				}
				if e.Kind == "dyn" && e.Name == "" {
					e.Name = "a function value"
				}
				k := -1
				if e.Res != nil && e.Res.Op == "tuple" {
					for i, x := range e.Res.A {
						if isErr(x.T) {
							k = i
						}
					}
				} else if e.Res != nil && isErr(e.Res.T) {
					k = 0
				}
				if k < 0 {
					continue
				}
				c.ob(c.heeded(f, e, k, errs), "errors", c.p.short(fn)+": "+e.Name, c.at(e.In, e.Pos), "the function goes on as if %s succeeded though it may have failed [path: %s]", e.Name, clip(f.String(), 300))
			}
		}
		for i := range outs {
			o := &outs[i]
			outcomeOf(o, func(f *Facts, failed bool) {
				if !failed {
					judge(f, o.St.trace)
				}
			})
		}
		for i := range ip.backedges {
			b := &ip.backedges[i]
			judge(b.St.facts, b.St.trace[b.Head:])
		}
	}
	c.min("errors", 33)
}

func init() {
	register("P22", "Every function that calls a function of the package that can fail is analysed; on the paths that end in success, and from one iteration of a loop to the next, each error is nil or recognised.", checkP22)
}
