package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// What the constructors make.

type newSpec struct {
	c *Checker
	// fields of _URLTmpl and the field of Resource that keeps one
	urlt, uHost, uPrefix string
}

func (s *newSpec) sameVal(f *Facts, x, y *Term) bool {
	if x == y {
		return true
	}
	if x == nil || y == nil {
		return false
	}
	if isBool(x) || isBool(y) {
		v := f.eval(x)
		return v != unk && v == f.eval(y)
	}
	return f.eval(tEq(x, y)) == yes
}

func isBool(x *Term) bool {
	if x.T == nil {
		return x == tBool(true) || x == tBool(false)
	}
	b, ok := x.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func zeroVal(t *Term) bool {
	return t.isNil() || t == tBool(false) || t == tStr("") || t == tInt(0)
}

// made judges the object that a constructor returns.
func (s *newSpec) made(f *Facts, o *Outcome, id, at string, typ string, tmpl *Term, impl *Term, rhb *Term, host, prefix *Term) *Term {
	c := s.c
	x := strip(o.Res[0])
	if !c.ob(x != nil && x.Op == "alloc" && x.T != nil && named(x.T, typ), "new", id+": a new object", at, "the constructor doesn't return a new object") {
		return nil
	}
	recv, pass := c.r.recvHost, c.r.passHost
	if typ == "Resource" {
		recv, pass = c.r.recvRes, c.r.passRes
	}
	own := func(field string, fn *ssa.Function, what string) {
		v := memOf(o.St, x, field)
		ok := false
		if v != nil {
			g, self := c.p.bound(strip(v))
			ok = g != nil && g == fn && sameResponder(self, x)
		}
		c.ob(ok, "new", id+": "+what, at, "the %s of the new responder isn't its own", what)
	}
	own(c.r.recv, recv, "request receiver")
	own(c.r.passer, pass, "request passer")
	d := memOf(o.St, x, c.p.derivedField)
	c.ob(d != nil && sameResponder(d, x), "new", id+": responder", at, "the new responder isn't known as the host or the resource that it's a part of")
	t := memOf(o.St, x, c.r.tmpl)
	c.ob(t != nil && s.sameVal(f, strip(t), strip(tmpl)), "new", id+": template", at, "the template of the new responder isn't the given one [path: %s]", clip(f.String(), 300))
	set := map[string]bool{c.r.recv: true, c.r.passer: true, c.p.derivedField: true, c.r.tmpl: true}
	// the flags belong to configure, the handlers to setRequestHandlerBase
	set[c.r.cfs], set[c.r.rhb] = true, true
	im := memOf(o.St, x, c.r.impl)
	if f.eval(isNilT(impl)) == yes {
		c.ob(im == nil || im.isNil() || im == impl, "new", id+": implementation", at, "the new dormant responder has an implementation")
		c.ob(len(regs(o.St.trace, "setRequestHandlerBase")) == 0, "new", id+": handlers", at, "a dormant responder gets request handlers")
	} else {
		c.ob(im == impl, "new", id+": implementation", at, "the new responder doesn't keep its implementation")
		es := regs(o.St.trace, "setRequestHandlerBase")
		c.ob(len(es) == 1 && sameResponder(es[0].Args[0], x) && es[0].Args[1] == rhb, "new", id+": handlers", at, "the handlers of the implementation aren't set once")
	}
	set[c.r.impl] = true
	if typ == "Resource" {
		set[s.urlt] = true
		u := memOf(o.St, x, s.urlt)
		if f.eval(tEqC(tLen(host), 0)) == yes && f.eval(tEqC(tLen(prefix), 0)) == yes {
			c.ob(u == nil || u.isNil(), "new", id+": place", at, "a place in the tree is kept though the URL template has none")
		} else {
			ok := u != nil && u.Op == "alloc"
			if ok {
				val := func(field string) *Term {
					if v := memOf(o.St, u, field); v != nil {
						return v
					}
					return tStr("")
				}
				ok = s.text(f, val(s.uHost), host) && s.text(f, val(s.uPrefix), prefix)
			}
			c.ob(ok, "new", id+": place", at, "the host and the prefix path segments of the URL template aren't kept [path: %s]", clip(f.String(), 300))
		}
	}
	for a, v := range o.St.mem {
		if a.Op == "faddr" && a.A[0] == x && !set[a.Aux] {
			c.ob(v != nil && zeroVal(v), "new", id+": "+a.Aux, at, "the field %s of a new responder is set", a.Aux)
		}
	}
	return x
}

func (s *newSpec) text(f *Facts, x, y *Term) bool {
	if x == y || sameStr(f, x, y) {
		return true
	}
	return f.eval(tEqC(tLen(x), 0)) == yes && f.eval(tEqC(tLen(y), 0)) == yes
}

// config judges the configuration of the new object.
func (s *newSpec) config(f *Facts, o *Outcome, id, at string, x, config *Term, secure, tslash *Term, root bool) {
	c := s.c
	es := regs(o.St.trace, "configure")
	if !c.ob(len(es) == 1, "configured", id+": once", at, "a new responder is configured %d times", len(es)) {
		return
	}
	e := es[0]
	at = c.at(e.In, e.Pos)
	if root {
		tslash = tBool(false)
	}
	c.ob(sameResponder(e.Args[0], x), "configured", id+": the new one", at, "something else than the new responder is configured")
	c.ob(s.sameVal(f, e.Args[1], secure), "configured", id+": security", at, "the security isn't the URL template's [path: %s]", clip(f.String(), 300))
	c.ob(s.sameVal(f, e.Args[2], tslash), "configured", id+": trailing slash", at, "the trailing slash isn't the URL template's [path: %s]", clip(f.String(), 300))
	if f.eval(isNilT(config)) == yes {
		c.ob(e.Args[3].isNil() || f.eval(isNilT(e.Args[3])) == yes, "configured", id+": no config", at, "there's no config but the responder gets one")
		return
	}
	v := e.Mem[e.Args[3]]
	if !c.ob(v != nil && v.Op == "call" && v.Aux == "asFlags" && v.A[0].Op == "struct", "configured", id+": config", at, "the flags aren't those of the config") {
		return
	}
	st := c.p.structOf("Config")
	got := v.A[0]
	want := func(f *Facts, n string) *Term {
		old := mk("init", "", boolT, mk("faddr", n, nil, config))
		switch n {
		case "Secure":
			return secure
		case "HasTrailingSlash":
			return tslash
		}
		if root {
			switch n {
			case "LenientOnTrailingSlash", "StrictOnTrailingSlash", "HandlesThePathAsIs":
				return tBool(false)
			case "LenientOnUncleanPath":
				asIs := mk("init", "", boolT, mk("faddr", "HandlesThePathAsIs", nil, config))
				if f.eval(asIs) == yes {
					return tBool(true)
				}
			}
		}
		return old
	}
	judge := func(f *Facts) {
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			w := want(f, n)
			c.ob(s.sameVal(f, got.A[i], w), "configured", id+": "+n, at, "%s of the config is %s, not %s [path: %s]", n, clip(got.A[i].String(), 100), clip(w.String(), 100), clip(f.String(), 300))
		}
	}
	if root {
		fork(f, mk("init", "", boolT, mk("faddr", "HandlesThePathAsIs", nil, config)), func(f *Facts, _ bool) { judge(f) })
	} else {
		judge(f)
	}
}

var newEvents = set("getHost", "splitURL", "TryToParse", "configure", "detectHTTPMethodHandlersOf", "setRequestHandlerBase")

// create judges createHost and createResource.
func (s *newSpec) create(typ, name string) {
	c := s.c
	fn := c.p.actual("-", name)
	if fn == nil {
		c.undecided(name, "the function was not found")
		return
	}
	ip := c.p.newInterp()
	ip.Model = c.p.regModel(newEvents, set("asFlags"))
	st := newState()
	// it's parsed once and for all; see rootTmpl
	st.facts = st.facts.assume(isNilT(c.p.glob("rootTmpl")), false)[0]
	rr := &regRun{ip: ip, ps: params(fn), fn: fn}
	if rr.outs = c.run(ip, st, fn, rr.ps); rr.outs == nil {
		return
	}
	u, impl, config := rr.ps[0], rr.ps[1], rr.ps[2]
	n := 0
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		if !c.ob(o.Kind == "return" && len(o.Res) == 2, "new", name+": returns", at, "the constructor doesn't return") {
			continue
		}
		tr := o.St.trace
		split, secI := "getHost", 1
		if typ == "Resource" {
			split, secI = "splitURL", 3
		}
		sp := regs(tr, split)
		if !c.ob(len(sp) == 1 && sp[0].Args[0] == u, "new", name+": template", at, "the URL template isn't taken apart once") {
			continue
		}
		spErr := sp[0].res(secI + 2)
		outcomeOf(o, func(f *Facts, failed bool) {
			must := func(fails bool, why string) bool {
				return c.ob(failed == fails, "refused", name+": "+why, at, "for %s failing is %v [path: %s]", why, failed, clip(f.String(), 300)) && !failed
			}
			fork(f, isNilT(spErr), func(f *Facts, ok bool) {
				if !ok {
					must(true, "a bad URL template")
					return
				}
				host, prefix, last := tStr(""), tStr(""), sp[0].res(0)
				secure, tslash := sp[0].res(secI), sp[0].res(secI+1)
				if typ == "Resource" {
					host, prefix, last = sp[0].res(0), sp[0].res(1), sp[0].res(2)
				}
				rest := func(f *Facts, tmpl *Term, root bool) {
					done := func(f *Facts) {
						var rhb *Term
						fin := func(f *Facts) {
							if !must(false, "a good one") {
								return
							}
							n++
							fork(f, tEqC(tLen(host), 0), func(f *Facts, _ bool) {
								fork(f, tEqC(tLen(prefix), 0), func(f *Facts, _ bool) {
									if x := s.made(f, o, name, at, typ, tmpl, impl, rhb, host, prefix); x != nil {
										s.config(f, o, name, at, x, config, secure, tslash, root)
									}
								})
							})
						}
						fork(f, isNilT(impl), func(f *Facts, dormant bool) {
							if dormant {
								fin(f)
								return
							}
							es := regs(tr, "detectHTTPMethodHandlersOf")
							if len(es) == 0 {
								must(true, "an implementation that isn't searched for handlers")
								return
							}
							c.ob(len(es) == 1 && es[0].Args[0] == impl, "new", name+": implementation", at, "something else than the implementation is searched for handlers")
							rhb = es[0].res(0)
							fork(f, isNilT(es[0].res(1)), func(f *Facts, ok bool) {
								if ok {
									fin(f)
								} else {
									must(true, "an implementation without handlers")
								}
							})
						})
					}
					fork(f, isNilT(config), func(f *Facts, none bool) {
						if none {
							done(f)
							return
						}
						ri := mk("init", "", boolT, mk("faddr", "RedirectsInsecureRequest", nil, config))
						fork(f, ri, func(f *Facts, redirects bool) {
							fork(f, secure, func(f *Facts, secure bool) {
								if redirects && !secure {
									must(true, "an insecure responder that redirects insecure requests")
								} else {
									done(f)
								}
							})
						})
					})
				}
				parse := func(f *Facts) {
					es := regs(tr, "TryToParse")
					if len(es) == 0 {
						must(true, "a template that isn't parsed")
						return
					}
					c.ob(len(es) == 1 && s.text(f, es[0].Args[0], last), "new", name+": parsed", at, "something else than the responder's template is parsed")
					fork(f, isNilT(es[0].res(1)), func(f *Facts, ok bool) {
						if !ok {
							must(true, "a template that can't be parsed")
							return
						}
						t := es[0].res(0)
						if typ == "Resource" {
							// the parser makes a new template
							fork(f, tEq(t, c.p.glob("rootTmpl")), func(f *Facts, root bool) {
								if !root {
									rest(f, t, false)
								}
							})
							return
						}
						fork(f, mk("call", "IsWildcard", boolT, t), func(f *Facts, wild bool) {
							if wild {
								must(true, "a wildcard host")
							} else {
								rest(f, t, false)
							}
						})
					})
				}
				if typ == "Host" {
					parse(f)
					return
				}
				fork(f, tEq(last, tStr("/")), func(f *Facts, root bool) {
					if !root {
						parse(f)
						return
					}
					fork(f, tEqC(tLen(host), 0), func(f *Facts, none bool) {
						if !none {
							must(true, "a root under a host")
							return
						}
						rest(f, c.p.glob("rootTmpl"), true)
					})
				})
			})
		})
	}
	c.ob(n > 0, "new", name+": made", "", "the constructor makes nothing")
}

// dormant judges createDormantHost and createDormantResource.
func (s *newSpec) dormant(typ, name string) {
	c := s.c
	rr := c.pureRun("-", name, newEvents, nil)
	if rr == nil {
		return
	}
	tmpl := rr.ps[0]
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		if !c.ob(o.Kind == "return" && len(o.Res) == 2, "new", name+": returns", at, "the constructor doesn't return") {
			continue
		}
		outcomeOf(o, func(f *Facts, failed bool) {
			fork(f, isNilT(tmpl), func(f *Facts, none bool) {
				if none {
					c.ob(failed, "refused", name+": nil", at, "a responder is made without a template")
					return
				}
				ok := func(f *Facts) {
					if !c.ob(!failed, "refused", name+": good", at, "a good template is refused") {
						return
					}
					if x := s.made(f, o, name, at, typ, tmpl, tNil(), nil, tStr(""), tStr("")); x != nil {
						v := memOf(o.St, x, c.r.cfs)
						c.ob((v == nil || zeroVal(v)) && len(regs(o.St.trace, "configure")) == 0, "new", name+": not configured", at, "the new responder is configured")
						v = memOf(o.St, x, c.r.rhb)
						c.ob(v == nil || zeroVal(v), "new", name+": no handlers", at, "the new responder has handlers")
					}
				}
				if typ == "Resource" {
					ok(f)
					return
				}
				fork(f, mk("call", "IsWildcard", boolT, tmpl), func(f *Facts, wild bool) {
					if wild {
						c.ob(failed, "refused", name+": wildcard", at, "a wildcard host is made")
					} else {
						ok(f)
					}
				})
			})
		})
	}
}

// public judges an exported constructor.
func (s *newSpec) public(typ, name, create string) {
	c := s.c
	rr := c.pureRun("-", name, set("createHost", "createResource", "createDormantResource", "newDormantResource"), nil)
	if rr == nil {
		return
	}
	var impl, config *Term
	for _, p := range rr.ps[min(1, len(rr.ps)):] {
		switch {
		case named(p.T, "Impl"):
			impl = p
		case named(p.T, "Config"):
			config = p
		}
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		outcomeOf(o, func(f *Facts, failed bool) {
			body := func(f *Facts) {
				es := regs(o.St.trace, create)
				if !c.ob(len(es) == 1, "made", name+": once", at, "%d responders are made", len(es)) {
					return
				}
				e := es[0]
				if len(rr.ps) > 0 {
					c.ob(e.Args[0] == rr.ps[0], "made", name+": template", at, "the responder is made from something else than the given template")
				} else {
					c.ob(isGlob(e.Args[0], "rootTmpl"), "made", name+": template", at, "the root resource is made from another template")
				}
				if len(e.Args) == 3 {
					if impl != nil {
						c.ob(e.Args[1] == impl, "made", name+": implementation", at, "the responder is made with another implementation")
					} else {
						c.ob(e.Args[1].isNil(), "made", name+": implementation", at, "the dormant responder is made with an implementation")
					}
					if config == nil {
						c.ob(e.Args[2].isNil(), "made", name+": config", at, "the responder is made with a config")
					} else {
						c.ob(c.holds(e, e.Args[2], config), "made", name+": config", at, "the responder is made with another config")
					}
				}
				if len(e.Args) == 1 && create == "newDormantResource" {
					c.ob(!failed && o.Res[0] == e.res(0), "made", name+": result", at, "something else than the responder made is returned")
					return
				}
				fork(f, isNilT(e.res(1)), func(f *Facts, ok bool) {
					if !ok {
						c.ob(o.Kind == "panic", "made", name+": failure", at, "the failure is hidden")
						return
					}
					c.ob(o.Kind == "return" && len(o.Res) == 1 && o.Res[0] == e.res(0), "made", name+": result", at, "something else than the responder made is returned")
				})
			}
			if impl == nil {
				body(f)
				return
			}
			fork(f, isNilT(impl), func(f *Facts, none bool) {
				if none {
					c.ob(o.Kind == "panic", "made", name+": nil", at, "a nil implementation is accepted")
				} else {
					body(f)
				}
			})
		})
	}
}

// holds: the local variable holds the parameter's value.
func (c *Checker) holds(e *Event, addr, param *Term) bool {
	if addr.Op != "alloc" {
		return false
	}
	if v := e.Mem[addr]; v != nil && v == param {
		return true
	}
	st, _ := param.T.Underlying().(*types.Struct)
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		v := memAt(e, addr, n)
		if v == nil || v.Op != "fld" || v.Aux != n || v.A[0] != param {
			return false
		}
	}
	return true
}

func isGlob(t *Term, name string) bool {
	t = strip(t)
	for t != nil && (t.Op == "init" || t.Op == "load") {
		t = t.A[0]
	}
	return t != nil && t.Op == "global" && t.Aux == name
}

func checkP39(c *Checker) {
	c.rule("new: a constructor returns a new object that knows itself, has the given template, its own request receiver and passer, the implementation and its handlers if there's one, the host and prefix path of its URL template, and nothing else")
	c.rule("configured: it's configured once, with the security and trailing slash of the URL template and the rest of the given config")
	c.rule("refused: it fails for the templates, configs and implementations that can't make a responder, and only for these")
	c.rule("made: the exported constructors return what's made from their arguments, and panic otherwise")
	s := &newSpec{c: c}
	u, r := c.p.structOf("_URLTmpl"), c.p.structOf("Resource")
	if u == nil || r == nil {
		c.undecided("_URLTmpl", "the types were not found")
		return
	}
	if ns := fieldsOf(r, func(v *types.Var) bool { return named(v.Type(), "_URLTmpl") }); len(ns) == 1 {
		s.urlt = ns[0]
	} else {
		c.undecided("_URLTmpl", "the field of Resource was not found")
		return
	}
	s.uHost, s.uPrefix = "Host", "PrefixPath"
	c.ob(hasField(u, s.uHost) && hasField(u, s.uPrefix), "new", "_URLTmpl", "", "the fields of _URLTmpl are unknown")
	s.dormant("Host", "createDormantHost")
	s.dormant("Resource", "createDormantResource")
	s.create("Host", "createHost")
	s.create("Resource", "createResource")
	for _, x := range []string{"Host", "Resource"} {
		for _, n := range []string{"New%s", "New%sUsingConfig", "NewDormant%s", "NewDormant%sUsingConfig"} {
			s.public(x, replace1(n, x), "create"+x)
		}
	}
	s.public("Resource", "newDormantResource", "createDormantResource")
	s.public("Resource", "newRootResource", "newDormantResource")
	s.router()
	s.rootTmpl()
}

func replace1(s, x string) string {
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '%' {
			return s[:i] + x + s[i+2:]
		}
	}
	return s
}

// router judges NewRouter.
func (s *newSpec) router() {
	c := s.c
	rr := c.pureRun("-", "NewRouter", nil, nil)
	if rr == nil {
		return
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		if !c.ob(o.Kind == "return" && len(o.Res) == 1 && o.Res[0].Op == "alloc", "new", "NewRouter: returns", at, "the constructor doesn't return a new router") {
			continue
		}
		x := o.Res[0]
		n := 0
		for a, v := range o.St.mem {
			if a.Op != "faddr" || a.A[0] != x || zeroVal(v) || v.Op == "mkmap" || v.Op == "mkslice" {
				continue
			}
			n++
			fn, self := c.p.bound(strip(v))
			c.ob(fn != nil && fn == c.r.roPass && self == x, "new", "NewRouter: request passer", at, "the request passer of the new router isn't its own")
		}
		c.ob(n == 1, "new", "NewRouter: fields", at, "%d fields of a new router are set", n)
	}
}

// rootTmpl: the root's template is parsed from a slash, once.
func (s *newSpec) rootTmpl() {
	c := s.c
	n := 0
	for _, fn := range c.p.allFns() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.Name() != "rootTmpl" {
					continue
				}
				n++
				call, ok := st.Val.(*ssa.Call)
				ok = ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().Name() == "Parse" && len(call.Call.Args) == 1
				if ok {
					k, isK := call.Call.Args[0].(*ssa.Const)
					ok = isK && k.Value != nil && k.Value.ExactString() == `"/"`
				}
				c.ob(ok, "new", "rootTmpl", c.at(fn, st.Pos()), "the root's template isn't parsed from a slash")
			}
		}
	}
	c.ob(n == 1, "new", "rootTmpl: once", "", "the root's template is set %d times", n)
}

func init() {
	register("P39", "Every abstract path of the constructors is analysed. Judged: the fields of the object that is returned, the one call that configures it and the flags that it gets, the handlers that it gets, and exactly when construction fails.", checkP39)
}
