package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The entry points that serve requests: the ServeHTTP methods. They acquire
// an Args from the pool, route the request and give the Args back.

type entryMis struct {
	fn   *ssa.Function
	pos  string
	tag  string // reset, life, path, direct
	key  string
	what string
}

type entryResult struct {
	mis    []entryMis
	leaves map[string]int
	errs   []string
	ips    []*Interp
	n      int
}

func (s *entryResult) bad(p *Prog, o *Outcome, tag, key, format string, a ...any) {
	s.mis = append(s.mis, entryMis{o.In, p.at(o.In, o.Pos), tag, key,
		fmt.Sprintf(format, a...) + " [path: " + clip(o.St.facts.String(), 600) + "]"})
}

var entryCache *entryResult

const poolGet, poolPut = "(*sync.Pool).Get", "(*sync.Pool).Put"

// poolModel makes Pool.Get return an object with unknown contents.
func (p *Prog) poolModel(next modelFn) modelFn {
	at := types.NewPointer(p.lookupType("Args"))
	return func(ip *Interp, st *State, in *ssa.Function, name string, fn *ssa.Function, args []*Term, site string) ([]callRes, bool) {
		if name == poolGet {
			n := 0
			for _, e := range st.trace {
				if e.Kind == "poolget" {
					n++
				}
			}
			nm := "pooled"
			if n > 0 {
				nm = fmt.Sprintf("pooled%d", n+1)
			}
			x := sym(nm, at)
			st.trace = append(st.trace, &Event{Kind: "poolget", Args: args, Res: x, In: in})
			return []callRes{{st: st, res: p.iface(x, at, types.NewInterfaceType(nil, nil))}}, true
		}
		if next != nil {
			return next(ip, st, in, name, fn, args, site)
		}
		return nil, false
	}
}

type modelFn = func(*Interp, *State, *ssa.Function, string, *ssa.Function, []*Term, string) ([]callRes, bool)

func (p *Prog) entries() *entryResult {
	if entryCache != nil {
		return entryCache
	}
	r := p.roles
	res := &entryResult{leaves: map[string]int{}}
	entryCache = res
	argsS := p.structOf("Args")
	needsReset := map[string]string{} // fields whose pooled content is seen
	dirtyPut := map[string]*Outcome{}
	fns := []*ssa.Function{r.serveRouter, r.serveHost, r.serveRes}
	if f := p.method("_RequestHandlerBase", "ServeHTTP"); f != nil {
		fns = append(fns, f)
	}
	for _, fn := range fns {
		ps := params(fn)
		if len(ps) != 3 {
			res.errs = append(res.errs, p.short(fn)+": unexpected signature")
			continue
		}
		// The first run leaves the contents of the Args unknown (reset, life);
		// the second one knows what the reset rule establishes.
		for pass := 0; pass < 2; pass++ {
			ip := p.newInterp()
			ip.DynHavoc = p.argsHavoc()
			ip.Model = p.poolModel(p.matchModel())
			st := newState()
			// What the reset rule establishes: numbers and flags are clean.
			pooled := sym("pooled", types.NewPointer(p.lookupType("Args")))
			for k := 0; k < argsS.NumFields(); k++ {
				if pass == 0 {
					break
				}
				n, t := argsS.Field(k).Name(), argsS.Field(k).Type()
				switch {
				case n == r.raw:
				case isBoolType(t):
					st.mem[p.cell(pooled, n)] = tBool(false)
				case basicKind(t, types.Int):
					st.mem[p.cell(pooled, n)] = tInt(0)
				}
			}
			outs := ip.Run(st, fn, ps)
			res.ips = append(res.ips, ip)
			res.n += len(outs)
			if ip.err != "" {
				res.errs = append(res.errs, p.short(fn)+": "+ip.err)
				continue
			}
			if len(outs) == 0 {
				res.errs = append(res.errs, p.short(fn)+": no paths")
			}
			for i := range outs {
				o := &outs[i]
				if o.Kind != "return" {
					res.bad(p, o, "life", "panic", "%s panics", p.short(fn))
					continue
				}
				a := p.lifecycle(res, fn, o)
				if a == nil {
					continue
				}
				if pass == 1 {
					p.routed(res, fn, o, a)
					continue
				}
				// what the first user of Args sees
				for _, e := range o.St.trace {
					if e.Kind != "dyn" || !hasTerm(e.Args, a) {
						continue
					}
					for k := 0; k < argsS.NumFields(); k++ {
						n := argsS.Field(k).Name()
						v := memAt(e, a, n)
						old := mk("init", "", argsS.Field(k).Type(), p.cell(a, n))
						if v == nil || mentions(v, old) {
							needsReset[n] = p.short(fn)
						} else {
							res.leaves["reset: "+n+" set when acquired"]++
						}
					}
					break
				}
				for _, e := range o.St.trace {
					if e.Kind != "ext" || e.Name != poolPut {
						continue
					}
					for k := 0; k < argsS.NumFields(); k++ {
						n, t := argsS.Field(k).Name(), argsS.Field(k).Type()
						v := memAt(e, a, n)
						if v == nil {
							v = ip.loadInit(o.St, p.cell(a, n), t)
							if v == mk("init", "", t, p.cell(a, n)) {
								continue // as clean as it was when acquired
							}
						}
						if !isClean(o.St.facts, v, t) {
							dirtyPut[n] = o
						} else {
							res.leaves["reset: "+n+" clean when given back"]++
						}
					}
				}
			}
		}
	}
	for n, f := range needsReset {
		if o := dirtyPut[n]; o != nil {
			res.bad(p, o, "reset", "Args."+n, "the field %s is neither set when an Args is acquired (%s) nor cleared when it's given back, so a request sees what an earlier one left", n, f)
		}
	}
	p.poolNew(res, needsReset)
	return res
}

func hasTerm(ts []*Term, x *Term) bool {
	for _, t := range ts {
		if strip(t) == x {
			return true
		}
	}
	return false
}

// isClean: a zero value, or a slice without elements.
func isClean(f *Facts, v *Term, t types.Type) bool {
	if v == zeroOf(t) || v.isNil() || v.Op == "empty" || v.Op == "list" && len(v.A) == 0 {
		return true
	}
	if v.Op == "mkslice" && len(v.A) > 0 && v.A[0] == tInt(0) {
		return true
	}
	if b, ok := v.boolVal(); ok {
		return !b
	}
	if n, ok := v.intVal(); ok {
		return n == 0
	}
	if s, ok := v.strVal(); ok {
		return s == ""
	}
	switch {
	case isBoolType(t):
		return f.eval(v) == no
	case basicKind(t, types.Int):
		return f.eval(tEq(v, tInt(0))) == yes
	case isStringType(t):
		return f.eval(tEqC(tLen(v), 0)) == yes
	}
	if f.eval(isNilT(v)) == yes {
		return true
	}
	return f.eval(tEqC(tLen(v), 0)) == yes
}

// poolNew checks the object that the pool makes when it's empty.
func (p *Prog) poolNew(res *entryResult, needs map[string]string) {
	var fns []*ssa.Function
	for _, f := range p.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || p.cellOf(fa) != "New" {
					continue
				}
				if typeName(derefType(fa.X.Type())) != "sync.Pool" {
					continue
				}
				v := st.Val
				for {
					switch x := v.(type) {
					case *ssa.ChangeType:
						v = x.X
						continue
					case *ssa.MakeClosure:
						v = x.Fn
						continue
					}
					break
				}
				if g, ok := v.(*ssa.Function); ok {
					fns = append(fns, g)
				}
			}
		}
	}
	if len(fns) == 0 {
		res.errs = append(res.errs, "the function that makes new Args for the pool was not found")
		return
	}
	for _, f := range fns {
		ip := p.newInterp()
		outs := ip.Run(newState(), f, nil)
		res.ips = append(res.ips, ip)
		if ip.err != "" || len(outs) == 0 {
			res.errs = append(res.errs, "New of the pool: "+ip.err)
			continue
		}
		s := p.structOf("Args")
		for i := range outs {
			o := &outs[i]
			if o.Kind != "return" || len(o.Res) != 1 || strip(o.Res[0]).Op != "alloc" {
				res.bad(p, o, "reset", "New", "the pool doesn't make a new Args each time it's empty")
				continue
			}
			x := strip(o.Res[0])
			for k := 0; k < s.NumFields(); k++ {
				n, t := s.Field(k).Name(), s.Field(k).Type()
				if _, ok := needs[n]; !ok {
					continue
				}
				v := ip.load(o.St, p.cell(x, n), t)
				if !isClean(o.St.facts, v, t) {
					res.bad(p, o, "reset", "New: "+n, "a new Args starts with the %s %s", n, clip(v.String(), 60))
				} else {
					res.leaves["reset: new "+n]++
				}
			}
		}
	}
}

// lifecycle: one acquisition, every use before the object is given back, given
// back exactly once.
func (p *Prog) lifecycle(res *entryResult, fn *ssa.Function, o *Outcome) *Term {
	var a *Term
	put := 0
	for _, e := range o.St.trace {
		switch {
		case e.Kind == "poolget":
			if a != nil {
				res.bad(p, o, "life", "acquired once", "%s acquires more than one Args for a request", p.short(fn))
				return nil
			}
			if len(e.Args) < 1 || e.Args[0] != mk("global", p.roles.gPool, nil) && e.Args[0].Aux != p.roles.gPool {
				res.bad(p, o, "life", "pool", "%s acquires Args from something else than the package's pool", p.short(fn))
			}
			a = e.Res
		case e.Kind == "ext" && e.Name == poolPut:
			put++
			if len(e.Args) < 2 || strip(e.Args[1]) != a || a == nil {
				res.bad(p, o, "life", "gives back", "%s gives something else than the acquired Args back to the pool", p.short(fn))
			}
			if put > 1 {
				res.bad(p, o, "life", "given back once", "%s gives the Args back more than once, so two later requests may share it", p.short(fn))
			}
		default:
			if put > 0 && a != nil {
				if e.Kind == "store" && rootOf(e.Target) == a || hasTerm(e.Args, a) {
					res.bad(p, o, "life", "used after", "%s uses the Args after it has been given back to the pool", p.short(fn))
				}
			}
			if (e.Kind == "go" || e.Kind == "send") && a != nil {
				res.bad(p, o, "life", "goroutine", "%s starts a goroutine with the request's Args in use", p.short(fn))
			}
			if e.Kind == "store" && a != nil && len(e.Args) == 1 && strip(e.Args[0]) == a {
				if rt := rootOf(e.Target); !(rt.Op == "alloc") {
					res.bad(p, o, "life", "kept", "%s keeps the Args in %s", p.short(fn), clip(e.Target.String(), 60))
				}
			}
		}
	}
	if a == nil {
		// nothing to give back
		if put == 0 && len(dynEvents(o.St.trace)) == 0 {
			return nil
		}
		res.bad(p, o, "life", "acquired", "%s routes a request without acquiring an Args from the pool", p.short(fn))
		return nil
	}
	res.leaves["life"]++
	if put == 0 {
		res.bad(p, o, "life", "given back", "%s returns without giving the Args back to the pool", p.short(fn))
	}
	return a
}

// routed judges the routing path and what the entry point does with the
// request.
func (p *Prog) routed(res *entryResult, fn *ssa.Function, o *Outcome, a *Term) {
	r := p.roles
	ps := params(fn)
	self, w, req := ps[0], ps[1], ps[2]
	url := p.fld(req, "URL")
	up, ur := p.fld(url, "Path"), p.fld(url, "RawPath")
	evs := dynEvents(o.St.trace)
	get := func(n string) *Term {
		for _, e := range o.St.trace {
			if e.Kind == "dyn" && hasTerm(e.Args, a) {
				if v := memAt(e, a, n); v != nil {
					return v
				}
			}
		}
		for _, e := range o.St.trace {
			if e.Kind == "ext" && e.Name == poolPut {
				if v := memAt(e, a, n); v != nil {
					return v
				}
			}
		}
		return p.fld(a, n)
	}
	path, raw, clean := get(r.path), get(r.raw), get(r.clean)
	if len(evs) == 0 {
		clean = nil // reset by now
	}
	fork(o.St.facts, tEqC(tLen(ur), 0), func(f *Facts, none bool) {
		base := ur
		if none {
			base = up
		}
		judge := func(f *Facts, want *Term, alt *Term, wclean tri) {
			res.leaves["path"]++
			if len(evs) == 0 && isStr(path, "") {
				// no handler has seen it, and it's reset by now
				p.direct(res, fn, o, f, a, self, w, req, want, triOf(!none))
				return
			}
			if path != want && path != alt && f.eval(tEq(path, want)) != yes {
				res.bad(p, o, "path", "path", "the request is routed by %s instead of %s", clip(path.String(), 100), clip(want.String(), 100))
			}
			if g := f.eval(raw); g != triOf(!none) {
				res.bad(p, o, "path", "escaped", "the routing path is taken for an escaped one exactly if it isn't")
			}
			if clean != nil {
				g := f.eval(clean)
				if p.fld(a, r.clean) == clean {
					g = no // as it was given back; see reset
				}
				if g != wclean {
					res.bad(p, o, "path", "unclean", "whether the path had to be cleaned isn't kept correctly")
				}
			}
			p.direct(res, fn, o, f, a, self, w, req, want, triOf(!none))
		}
		fork(f, tLt(tInt(1), tLen(base)), func(f *Facts, long bool) {
			if !long {
				judge(f, base, nil, no)
				return
			}
			fork(f, mk("first", "47", types.Typ[types.Bool], base), func(f *Facts, abs bool) {
				p1 := base
				if !abs {
					p1 = tConcat(tStr("/"), base)
				}
				fork(f, lastIs(base, '/'), func(f *Facts, ts bool) {
					cl := mk("call", "path.Clean", types.Typ[types.String], p1)
					fin := func(f *Facts, cl *Term) {
						diff := tNot(tEq(tLen(cl), tLen(p1)))
						if d := tNot(tEq(cl, p1)); f.eval(d) != unk {
							diff = d
						}
						fork(f, diff, func(f *Facts, changed bool) {
							if changed {
								judge(f, cl, nil, yes)
							} else {
								judge(f, p1, cl, no)
							}
						})
					}
					if !ts {
						fin(f, cl)
						return
					}
					long := tLt(tInt(1), tLen(cl))
					if d := tEq(cl, tStr("/")); f.eval(d) != unk {
						long = tNot(d)
					}
					fork(f, long, func(f *Facts, l bool) {
						if l {
							fin(f, tConcat(cl, tStr("/")))
						} else {
							fin(f, cl)
						}
					})
				})
			})
		})
	})
}

// direct: what the entry point gives the request to.
func (p *Prog) direct(res *entryResult, fn *ssa.Function, o *Outcome, f *Facts, a, self, w, req, path *Term, raw tri) {
	r := p.roles
	evs := dynEvents(o.St.trace)
	bad := func(key, format string, x ...any) {
		res.bad(p, o, "direct", p.short(fn)+": "+key, format, x...)
	}
	// to gives the request to target; an unhandled one goes to not found
	to := func(f *Facts, target *Term, what string, cur, idx *Term) {
		res.leaves[p.short(fn)+": "+what]++
		if len(evs) == 0 || evs[0].Target != target || !sameTerms(evs[0].Args, []*Term{w, req, a}) {
			bad(what, "the request isn't given to the %s first", what)
			return
		}
		e := evs[0]
		if cur != nil {
			if g := memAt(e, a, r.r); g == nil || strip(g) != cur {
				bad(what, "the current responder isn't the one that is used directly")
			}
		}
		if idx != nil {
			g := memAt(e, a, r.idx)
			if g == nil {
				g = tInt(0) // see reset
			}
			if f.eval(tEq(g, idx)) != yes && !(g == p.fld(a, r.idx) && idx == tInt(0)) {
				bad(what, "the request is received at the position %s instead of %s", clip(g.String(), 60), clip(idx.String(), 60))
			}
		}
		fork(f, e.Res, func(f *Facts, handled bool) {
			if handled {
				if len(evs) != 1 {
					bad(what, "a handled request is given to another handler")
				}
				return
			}
			if len(evs) != 2 || evs[1].Target != p.glob(r.gNotFound) || !sameTerms(evs[1].Args, []*Term{w, req, a}) {
				bad(what, "an unhandled request isn't given to the not-found handler")
			}
		})
	}
	notFound := func(f *Facts, why string) {
		res.leaves[p.short(fn)+": "+why]++
		if len(evs) != 1 || evs[0].Target != p.glob(r.gNotFound) || !sameTerms(evs[0].Args, []*Term{w, req, a}) {
			bad(why, "%s, but the request isn't given (only) to the not-found handler", why)
		}
	}
	for _, e := range o.St.trace {
		if e.Kind == "ext" && hasTerm(e.Args, w) && e.Name != "net/http.Error" && e.Name != poolPut {
			bad("response", "the entry point writes to the response itself")
		}
	}
	switch fn {
	case r.serveRouter:
		to(f, p.fld(self, p.routerPasser()), "router's request passer", nil, tInt(0))
	case r.serveHost:
		hostName(p, req, f, func(f *Facts, host *Term) {
			if host == tStr("") {
				notFound(f, "no host name")
				return
			}
			fork(f, matchedBy(f, p.fld(self, r.tmpl), host), func(f *Facts, m bool) {
				if !m {
					notFound(f, "another host")
					return
				}
				to(f, p.fld(self, r.recv), "host", self, tInt(0))
			})
		})
	case r.serveRes:
		root := tEq(p.fld(self, r.tmpl), p.glob("rootTmpl"))
		first := tInt(1)
		fork(f, tEqC(tLen(path), 0), func(f *Facts, empty bool) {
			if empty {
				first = tInt(0)
			}
			fork(f, root, func(f *Facts, root bool) {
				if root {
					to(f, p.fld(self, r.recv), "root resource", self, first)
					return
				}
				p.segmentOf(f, path, first, raw, func(f *Facts, seg, idx, err *Term) {
					decide := func(f *Facts) {
						fork(f, tEqC(tLen(seg), 0), func(f *Facts, empty bool) {
							if empty {
								notFound(f, "no segment")
								return
							}
							fork(f, matchedBy(f, p.fld(self, r.tmpl), seg), func(f *Facts, m bool) {
								if !m {
									notFound(f, "another segment")
									return
								}
								to(f, p.fld(self, r.recv), "resource", self, idx)
							})
						})
					}
					if err == nil {
						decide(f)
						return
					}
					fork(f, isNilT(err), func(f *Facts, ok bool) {
						if ok {
							decide(f)
							return
						}
						res.leaves[p.short(fn)+": bad escape"]++
						n := 0
						for _, e := range o.St.trace {
							if e.Kind == "ext" && e.Name == "net/http.Error" && len(e.Args) == 3 && e.Args[0] == w && e.Args[2] == tInt(400) {
								n++
							}
						}
						if n != 1 || len(evs) > 0 {
							bad("bad escape", "a segment that can't be unescaped isn't answered with the status code 400 only")
						}
					})
				})
			})
		})
	}
}

// matchedBy is the predicate that the template matches the string; several
// templates terms may denote the receiver's template.
func matchedBy(f *Facts, tmpl, str *Term) *Term { return matchAtom(tmpl, str) }

// routerPasser is the field with the router's request passer.
func (p *Prog) routerPasser() string {
	s := p.structOf("Router")
	ns := fieldsOf(s, func(v *types.Var) bool { return named(v.Type(), "Handler") })
	if len(ns) == 1 {
		return ns[0]
	}
	return "requestPasser"
}

// segmentOf derives the segment of the path at the position.
func (p *Prog) segmentOf(f *Facts, path, idx0 *Term, raw tri, k func(f *Facts, seg, newIdx, err *Term)) {
	fork(f, tEq(idx0, tLen(path)), func(f *Facts, end bool) {
		if end {
			k(f, tStr(""), idx0, nil)
			return
		}
		rest := tSlice(path, idx0, nil)
		i := mk("call", "strings.IndexByte", types.Typ[types.Int], rest, tInt('/'))
		fork(f, tLt(i, tInt(0)), func(f *Facts, last bool) {
			seg, nidx := rest, tLen(path)
			if !last {
				seg = tSlice(path, idx0, tAdd(idx0, i))
				nidx = tAdd(tAdd(idx0, i), tInt(1))
			}
			if raw != yes {
				k(f, seg, nidx, nil)
				return
			}
			un := mk("call", "net/url.PathUnescape", nil, seg)
			k(f, mk("ext", "0", types.Typ[types.String], un), nidx, mk("ext", "1", types.Universe.Lookup("error").Type(), un))
		})
	})
}

func (c *Checker) entryReport(rule string, leaf func(string) bool, tags ...string) {
	res := c.p.entries()
	for _, e := range res.errs {
		c.undecided("entry points", "%s", e)
	}
	for _, ip := range res.ips {
		c.mark(ip, 0)
	}
	c.paths += res.n
	n, bad := 0, 0
	for s, k := range res.leaves {
		if leaf(s) {
			n += k
			c.samples = append(c.samples, fmt.Sprintf("%s: %d", s, k))
		}
	}
	for i := range res.mis {
		m := &res.mis[i]
		for _, t := range tags {
			if m.tag == t {
				bad++
				c.viol(rule, m.key, m.pos, "%s", m.what)
			}
		}
	}
	c.obligations += n
	c.counts[rule] += n
	if n > bad {
		c.discharged += n - bad
	}
	if n == 0 {
		c.viol("coverage", rule, "", "no path decides the rule")
	}
}

// extCallers are the functions that call the named external function.
func (c *Checker) extCallers(name string) map[*ssa.Function]ssa.CallInstruction {
	m := map[*ssa.Function]ssa.CallInstruction{}
	for _, f := range c.p.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil && c.p.fnName(g) == name {
					m[f] = ci
				}
			}
		}
	}
	return m
}

func init() {
	const how = "Every abstract path of the ServeHTTP methods of Router, Host and Resource is analysed with an Args of unknown contents coming out of the pool. "
	register("P01", how+"Judged: every field of Args is either set between the acquisition and the first use, or cleared wherever an Args is given back to the pool and in the objects that the pool makes.", func(c *Checker) {
		c.rule("reset: each field of Args is set when acquired, or clean at every return to the pool and in new objects")
		c.entryReport("reset", func(s string) bool { return strings.HasPrefix(s, "reset") }, "reset")
	})
	register("P02", how+"Judged: an Args is acquired once, given back exactly once on every path and not used afterwards; only the entry points acquire and give back Args.", func(c *Checker) {
		c.rule("life: one acquisition, one return to the pool, nothing after it")
		c.rule("pool: the pool is used only by the entry points")
		c.entryReport("life", func(s string) bool { return s == "life" }, "life")
		roots := map[*ssa.Function]bool{c.r.serveRouter: true, c.r.serveHost: true, c.r.serveRes: true,
			c.p.method("_RequestHandlerBase", "ServeHTTP"): true}
		for _, n := range []string{poolGet, poolPut} {
			for f, ci := range c.extCallers(n) {
				c.ob(c.onlyFrom(f, roots, map[*ssa.Function]bool{}), "pool", c.p.short(f)+" calls "+n, c.at(f, ci.Pos()),
					"the pool of Args is used outside of the entry points")
			}
		}
		c.min("pool", 1)
	})
	register("P05", how+"Judged: the path the request is routed by, whether it's an escaped one, and whether it had to be cleaned, against the derivation from the URL; and that nothing else writes them.", func(c *Checker) {
		c.rule("path: RawPath or Path, made absolute and cleaned, with the trailing slash kept")
		c.rule("constant: the routing path is written only when an Args is acquired")
		c.entryReport("path", func(s string) bool { return s == "path" }, "path")
		roots := map[*ssa.Function]bool{c.r.serveRouter: true, c.r.serveHost: true, c.r.serveRes: true,
			c.p.method("_RequestHandlerBase", "ServeHTTP"): true}
		for _, f := range c.p.allFns() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || !named(fa.X.Type(), "Args") {
						continue
					}
					switch c.p.cellOf(fa) {
					case c.r.path, c.r.raw, c.r.clean:
						c.ob(c.onlyFrom(f, roots, map[*ssa.Function]bool{}), "constant", c.p.short(f)+" writes Args."+c.p.cellOf(fa), c.at(f, st.Pos()),
							"the routing path changes while the request is being routed")
					}
				}
			}
		}
		c.min("constant", 1)
	})
	register("P37", how+"Judged: which function gets the request, with which arguments, current responder and position, and that an unhandled request is given to the not-found handler.", func(c *Checker) {
		c.rule("direct: router => its request passer; host => itself if its template matches the host name; resource => itself if its template matches the first segment; else the not-found handler")
		c.entryReport("direct", func(s string) bool { return strings.Contains(s, ": ") && !strings.HasPrefix(s, "reset") }, "direct")
	})
}
