package main

import (
	"go/token"
	"go/types"
)

// A responder is used through a URL only when it fits what the URL and the
// configuration say; a dormant one gets what they say.

// isFlag: what the path knows about a flag of the responder's.
func (c *Checker) flagT(self *Term, bit string) *Term {
	return bitOf(c.p.fld(self, c.r.cfs), c.r.bit[bit])
}

// compatSpec judges checkForConfigCompatibility.
func (c *Checker) compatSpec() {
	p, r := c.p, c.r
	fn := p.actual("_ResponderBase", "checkForConfigCompatibility")
	if fn == nil {
		c.undecided("checkForConfigCompatibility", "the function was not found")
		return
	}
	ip := p.newInterp()
	ip.Model = p.regModel(nil, nil)
	ps := params(fn)
	ps[3] = symT("arg", ps[3].T)
	outs := c.run(ip, newState(), fn, ps)
	self, secure, tslash, cfs := ps[0], ps[1], ps[2], ps[3]
	old := p.fld(self, r.cfs)
	given := mk("init", "", derefType(cfs.T), cfs)
	subset := tEq(tBin(token.AND, old, given, old.T), given)
	subset2 := tEqC(tBin(token.AND_NOT, given, old, old.T), 0)
	derived := p.derivedOf(self)
	for i := range outs {
		o := &outs[i]
		at := c.at(o.In, o.Pos)
		ob := func(ok bool, what string, f *Facts, format string) {
			c.ob(ok, "compatible", what, at, format+" [path: %s]", clip(f.String(), 300))
		}
		if o.Kind != "return" {
			ob(false, "panics", o.St.facts, "the check panics")
			continue
		}
		ob(len(p.writesIn(o.St.trace)) == 0, "no change", o.St.facts, "the check changes something")
		e := o.Res[0]
		is := func(f *Facts, name string) tri {
			if f.eval(isNilT(e)) == yes {
				return no
			}
			return f.eval(mk("call", "errors.Is", nil, e, p.glob(name)))
		}
		fork(o.St.facts, c.flagT(self, "active"), func(f *Facts, active bool) {
			if !active {
				// every responder is a host or a resource
				if f.eval(mk("tyok", "*"+p.types.Name()+".Host", nil, derived)) == no && f.eval(mk("tyok", "*"+p.types.Name()+".Resource", nil, derived)) == no {
					return
				}
				ob(f.eval(isNilT(e)) == no && (is(f, "errDormantHost") == yes || is(f, "errDormantResource") == yes), "dormant", f, "a responder that isn't configured yet isn't reported")
				return
			}
			fork(f, secure, func(f *Facts, s bool) {
				fork(f, c.flagT(self, "secure"), func(f *Facts, s2 bool) {
					fork(f, c.flagT(self, "lenientSlash"), func(f *Facts, len bool) {
						fork(f, tslash, func(f *Facts, t bool) {
							fork(f, c.flagT(self, "tslash"), func(f *Facts, t2 bool) {
								fork(f, isNilT(cfs), func(f *Facts, none bool) {
									sub := func(f *Facts, fits bool) {
										ok := s == s2 && (len || t == t2) && (none || fits)
										if ok {
											ob(f.eval(isNilT(e)) == yes, "accepted", f, "a responder is rejected that has the security, the trailing slash and the configuration")
											return
										}
										ob(f.eval(isNilT(e)) == no, "rejected", f, "a responder is accepted that has another security, trailing slash or configuration")
										ob(is(f, "errDormantHost") == no && is(f, "errDormantResource") == no, "reason", f, "a conflict is reported as a responder that isn't configured")
									}
									switch {
									case none:
										sub(f, true)
									case f.eval(subset) == unk && f.eval(subset2) != unk:
										sub(f, f.eval(subset2) == yes)
									default:
										fork(f, subset, sub)
									}
								})
							})
						})
					})
				})
			})
		})
	}
}

// derivedOf is the value that a base knows its host or resource by.
func (p *Prog) derivedOf(self *Term) *Term {
	return mk("derived", "", nil, self)
}

type compatUse struct {
	typ, name string
	cfg       bool // the last argument is a configuration
	lookup    bool // nothing is created
	lenient   bool // a dormant responder may be rejected
}

func (c *Checker) compatUses() {
	opq := union(regNames)
	for _, x := range []compatUse{
		{"Router", "Host", false, false, false}, {"Router", "HostUsingConfig", true, false, false},
		{"Router", "Resource", false, false, false}, {"Router", "ResourceUsingConfig", true, false, false},
		{"Router", "_Responder", false, false, false},
		{"_ResponderBase", "Resource", false, false, false}, {"_ResponderBase", "ResourceUsingConfig", true, false, false},
		{"Router", "RegisteredHost", false, true, false}, {"_ResponderBase", "RegisteredResource", false, true, false},
		{"Router", "RegisteredResource", false, true, true}, {"Router", "registered_Responder", false, true, true},
	} {
		rr := c.pureRun(x.typ, x.name, opq, set("asFlags"))
		if rr == nil {
			continue
		}
		for i := range rr.outs {
			c.compatUse(x, rr, &rr.outs[i])
		}
	}
}

func (c *Checker) compatUse(x compatUse, rr *regRun, o *Outcome) {
	id := x.typ + "." + x.name
	at := c.at(o.In, o.Pos)
	tr := o.St.trace
	ob := func(ok bool, what string, f *Facts, format string) {
		c.ob(ok, "fits", id+": "+what, at, format+" [path: %s]", clip(f.String(), 300))
	}
	cfg := rr.ps[len(rr.ps)-1]
	var secure, tslash, path *Term
	for _, e := range tr {
		if e.Kind != "reg" {
			continue
		}
		switch {
		case e.Name == "splitHostAndPath":
			secure, tslash, path = e.res(2), e.res(3), e.res(1)
		case e.Name == "getHost":
			secure, tslash = e.res(1), e.res(2)
		case e.Name == "host" && secure == nil:
			secure, tslash = e.res(2), e.res(3)
		}
	}
	checks, confs := regs(tr, "checkForConfigCompatibility"), regs(tr, "configure")
	outcomeOf(o, func(f *Facts, failed bool) {
		if failed {
			// not because of a responder that fits
			for _, e := range checks {
				ob(f.eval(isNilT(e.res(0))) != yes, "rejected", f, "a responder is rejected though it fits")
			}
			return
		}
		if secure == nil {
			ob(false, "URL", f, "the URL isn't looked at")
			return
		}
		if x.cfg {
			for _, g := range f.assume(c.cfgField(cfg, "RedirectsInsecureRequest"), true) {
				ob(g.eval(secure) == yes, "redirects", g, "a responder without security is to redirect insecure requests")
			}
		}
		r := o.Res[0]
		known := func(e *Event) bool {
			if !sameResponder(e.Args[0], r) || e.Args[1] != secure {
				return false
			}
			// the root's path has no trailing slash
			if e.Args[2] != tslash && !(path != nil && f.eval(tEq(path, tStr("/"))) == yes && e.Args[2] == tBool(false)) {
				return false
			}
			k := e.Args[3]
			if !x.cfg {
				return k.isNil() || f.eval(isNilT(k)) == yes
			}
			v := e.Mem[k]
			return v != nil && v.Op == "call" && v.Aux == "asFlags" && c.sameConfig(v.A[0], cfg)
		}
		for _, e := range checks {
			ob(known(e), "check", f, "something else is checked than the responder against the URL and the configuration")
		}
		for _, e := range confs {
			ob(known(e), "configure", f, "something else is configured than the responder with what the URL and the configuration say")
		}
		if x.lookup {
			if isZeroNow(f, r) || unbase(r).isNil() || f.eval(isNilT(unbase(r))) == yes {
				return
			}
		}
		made := c.made(f, tr, r)
		switch {
		case made:
			ob(len(checks) == 0 && len(confs) == 1, "new", f, "a new responder isn't configured exactly once")
		case len(checks) != 1:
			ob(false, "known", f, "a responder that exists isn't checked exactly once")
		default:
			e := checks[0].res(0)
			fork(f, isNilT(e), func(f *Facts, fits bool) {
				if fits {
					ob(len(confs) == 0, "fits", f, "a responder that fits is configured again")
					return
				}
				d := f.eval(mk("call", "errors.Is", nil, e, c.p.glob("errDormantHost"))) == yes ||
					f.eval(mk("call", "errors.Is", nil, e, c.p.glob("errDormantResource"))) == yes
				ob(d, "conflict", f, "a responder is accepted that doesn't fit")
				ob(len(confs) == 1, "dormant", f, "a responder that isn't configured yet isn't configured exactly once")
			})
		}
	})
}

// sameConfig: the value is the configuration that was passed.
func (c *Checker) sameConfig(v, cfg *Term) bool {
	if v == cfg {
		return true
	}
	st, ok := derefType(cfg.T).Underlying().(*types.Struct)
	if v.Op != "struct" || !ok || len(v.A) != st.NumFields() {
		return false
	}
	for i := range v.A {
		if v.A[i] != c.cfgField(cfg, st.Field(i).Name()) {
			return false
		}
	}
	return true
}

// made: the responder was created by the call.
func (c *Checker) made(f *Facts, tr []*Event, r *Term) bool {
	for _, e := range tr {
		if e.Kind != "reg" {
			continue
		}
		switch e.Name {
		case "pathSegmentResources":
			if sameResponder(e.res(2), r) && f.eval(isNilT(e.res(1))) == no {
				return true
			}
			// see P21: the last registered responder is a new host only when
			// there's no segment
			if sameResponder(e.res(0), r) {
				for _, h := range regs(tr, "host") {
					if sameResponder(h.res(0), e.Args[0]) && f.eval(h.res(1)) == yes {
						return true
					}
				}
			}
		case "host":
			if sameResponder(e.res(0), r) && f.eval(e.res(1)) == yes {
				return true
			}
		}
	}
	return false
}

func checkP25(c *Checker) {
	c.rule("compatible: a configured responder is accepted exactly when its security, its trailing slash (unless it's lenient) and its configuration are what the URL and the configuration say; one that isn't configured is reported as dormant")
	c.rule("fits: the responder that's found is checked against the scheme, the trailing slash and the configuration that are given, a dormant or new one is configured with them, exactly once, and nothing else is")
	c.rule("merge: a resource that gets the template of a registered one is accepted exactly when the registered one isn't configured or has its security, its trailing slash and its configuration")
	c.compatSpec()
	c.compatUses()
	c.merges()
	c.min("compatible", 13)
	c.min("merge", 6)
	c.min("fits", 20)
}

func init() {
	register("P25", "Every abstract path of checkForConfigCompatibility and of the functions that find or create a responder by URL is analysed.", checkP25)
}

// merges judges the registration of a resource where another one has its
// template.
func (c *Checker) merges() {
	rr := c.regOf("_ResponderBase", "keepResourceOrItsChildResources")
	if rr == nil {
		return
	}
	kid := rr.ps[1]
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		ob := func(ok bool, what string, f *Facts, format string) {
			c.ob(ok, "merge", what, at, format+" [path: %s]", clip(f.String(), 300))
		}
		lk := regs(o.St.trace, "resourceWithTemplate")
		if len(lk) == 0 {
			continue // see P18
		}
		old := lk[0].res(0)
		outcomeOf(o, func(f *Facts, failed bool) {
			if failed {
				return // see P18
			}
			fork(f, isNilT(old), func(f *Facts, none bool) {
				checks := regs(o.St.trace, "checkForConfigCompatibility")
				if none {
					ob(len(checks) == 0, "none", f, "there's nothing that the resource has to fit")
					return
				}
				if len(checks) != 1 {
					ob(false, "once", f, "the resource that's registered already isn't compared exactly once with the one that has its template")
					return
				}
				e := checks[0]
				ob(sameResponder(e.Args[0], old), "responder", f, "something else is compared than the resource that's registered already")
				same := func(x, y *Term) bool { return x == y || f.eval(x) != unk && f.eval(x) == f.eval(y) }
				ob(same(e.Args[1], c.flagT(kid, "secure")), "security", f, "the security of the resources isn't compared")
				ob(same(e.Args[2], c.flagT(kid, "tslash")), "trailing slash", f, "the trailing slashes of the resources aren't compared")
				k := e.Args[3]
				v := e.Mem[k]
				ob(v != nil && v == c.p.fld(kid, c.r.cfs) || k == mk("faddr", c.r.cfs, k.T, kid), "configuration", f, "the configurations of the resources aren't compared")
				res := e.res(0)
				fork(f, isNilT(res), func(f *Facts, fits bool) {
					if !fits {
						ob(f.eval(mk("call", "errors.Is", nil, res, c.p.glob("errDormantResource"))) == yes, "conflict", f, "a resource is accepted that doesn't fit the one that's registered already")
					}
				})
			})
		})
	}
}
