package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where a resource with a URL template is registered.

type placeSpec struct {
	c    *Checker
	urlt string // the field of Resource that keeps the URL template
}

// rooted: the path with a slash in front.
func rooted(f *Facts, p *Term, k func(f *Facts, p *Term)) {
	fork(f, tEqC(tLen(p), 0), func(f *Facts, empty bool) {
		if empty {
			k(f, tStr(""))
			return
		}
		fork(f, firstIs(p, '/'), func(f *Facts, slash bool) {
			if slash {
				k(f, p)
			} else {
				k(f, tConcat(tStr("/"), p))
			}
		})
	})
}

// trimmed: the path without a slash at its end.
func trimmed(f *Facts, p *Term, k func(f *Facts, p *Term)) {
	if p == tStr("") {
		k(f, p)
		return
	}
	for _, g := range f.assume(tLt(tInt(0), tLen(p)), true) {
		fork(g, lastIs(p, '/'), func(f *Facts, slash bool) {
			if slash {
				k(f, tSlice(p, tInt(0), tSub(tLen(p), tInt(1))))
			} else {
				k(f, p)
			}
		})
	}
	for _, g := range f.assume(tLt(tInt(0), tLen(p)), false) {
		k(g, tStr(""))
	}
}

func eqText(f *Facts, x, y *Term) bool {
	if x == y || sameStr(f, x, y) || f.eval(tEq(x, y)) == yes {
		return true
	}
	return f.eval(tEqC(tLen(x), 0)) == yes && f.eval(tEqC(tLen(y), 0)) == yes
}

// run analyses a function that registers a resource.
func (s *placeSpec) run(typ, name string) *regRun {
	c := s.c
	fn := c.p.actual(typ, name)
	if fn == nil {
		c.undecided(typ+"."+name, "the function was not found")
		return nil
	}
	ip := c.p.newInterp()
	ip.Model = c.p.regModel(regNames, set("parent"))
	ps := params(fn)
	for i, p := range ps {
		if i > 0 && named(p.T, "Resource") {
			ps[i] = symT("arg", p.T)
		}
	}
	outs := c.run(ip, newState(), fn, ps)
	if outs == nil {
		return nil
	}
	return &regRun{ip, outs, ps, fn}
}

// basic: the reasons for which any registration is refused.
func (s *placeSpec) refused(f *Facts, tr []*Event, self, r *Term) bool {
	c := s.c
	if f.eval(isNilT(r)) == yes || c.rootNow(f, r) == yes {
		return true
	}
	if f.eval(isNilT(mk("call", "parent", nil, unbase(r)))) == no || f.eval(isNilT(c.p.fld(unbase(r), c.r.papa))) == no {
		return true
	}
	if c.failedEvent(f, tr) {
		return true
	}
	// the resource is the responder itself or above it
	for t, v := range f.b {
		if v && t.Op == "eq" && (sameResponder(t.A[0], r) || sameResponder(t.A[1], r)) {
			return true
		}
	}
	return sameResponder(self, r)
}

// kept: the resource is registered once, under the path or right below.
func (s *placeSpec) kept(f *Facts, tr []*Event, id, at string, under, path, r *Term) {
	c := s.c
	ev := regs(tr, "registerResourceUnder", "keepResourceOrItsChildResources", "registerNewRoot", "registerResource")
	if !c.ob(len(ev) == 1, "place", id+": once", at, "the resource is registered %d times [path: %s]", len(ev), clip(f.String(), 300)) {
		return
	}
	e := ev[0]
	c.ob(f.eval(isNilT(e.res(0))) == yes, "place", id+": success", at, "success is reported though the resource may not be registered")
	c.ob(sameResponder(e.Args[len(e.Args)-1], r), "place", id+": the resource", at, "something else is registered")
	if under != nil {
		c.ob(sameResponder(e.Args[0], under), "place", id+": under", at, "the resource is registered under another responder [path: %s]", clip(f.String(), 300))
	}
	empty := f.eval(tEqC(tLen(path), 0)) == yes
	if e.Name == "registerResourceUnder" {
		c.ob(s.samePath(f, e.Args[1], path) && !empty, "place", id+": path", at, "the resource is registered under the path %s, not %s [path: %s]", clip(e.Args[1].String(), 200), clip(path.String(), 200), clip(f.String(), 300))
		return
	}
	c.ob(empty, "place", id+": path", at, "the resource isn't registered under the path %s [path: %s]", clip(path.String(), 200), clip(f.String(), 300))
}

// samePath: the same path; a slash at its end doesn't count, nor does whether
// it begins with one.
func (s *placeSpec) samePath(f *Facts, x, y *Term) bool {
	if eqText(f, x, y) {
		return true
	}
	ok := true
	trimmed(f, y, func(f *Facts, t *Term) {
		one := eqText(f, x, t)
		rooted(f, y, func(f *Facts, y *Term) {
			ok = ok && (one || eqText(f, x, y))
		})
	})
	return ok
}

// urlOf is the resource's URL template with its host and its prefix path.
func (s *placeSpec) urlOf(r *Term) (u, host, prefix *Term) {
	u = s.c.p.fld(r, s.urlt)
	return u, s.c.p.fld(u, "Host"), s.c.p.fld(u, "PrefixPath")
}

func (s *placeSpec) each(rr *regRun, id string, k func(f *Facts, o *Outcome, failed bool, at string)) {
	for i := range rr.outs {
		o := &rr.outs[i]
		outcomeOf(o, func(f *Facts, failed bool) { k(f, o, failed, s.c.at(o.In, o.Pos)) })
	}
}

// register judges RegisterResource of hosts and resources.
func (s *placeSpec) register() {
	c := s.c
	const id = "_ResponderBase.RegisterResource"
	rr := s.run("_ResponderBase", "RegisterResource")
	if rr == nil {
		return
	}
	self, r := rr.ps[0], rr.ps[1]
	u, host, prefix := s.urlOf(r)
	s.each(rr, id, func(f *Facts, o *Outcome, failed bool, at string) {
		tr := o.St.trace
		if failed {
			c.ob(s.refused(f, tr, self, r), "refused", id, at, "a resource is refused for no reason [path: %s]", clip(f.String(), 4000))
			return
		}
		fork(f, isNilT(u), func(f *Facts, none bool) {
			vs := regs(tr, "validateURL")
			if none {
				s.kept(f, tr, id, at, self, tStr(""), r)
				return
			}
			if !c.ob(len(vs) == 1, "checked", id+": URL", at, "the URL template of the resource isn't checked") {
				return
			}
			v := vs[0]
			c.ob(sameResponder(v.Args[0], self) && v.Args[1] == host && v.Args[2] == prefix && f.eval(isNilT(v.res(1))) == yes, "checked", id+": URL", at,
				"the URL template of the resource doesn't have to fit the responder's [path: %s]", clip(f.String(), 300))
			s.kept(f, tr, id, at, self, v.res(0), r)
		})
	})
}

// registerUnder judges RegisterResourceUnder of hosts and resources.
func (s *placeSpec) registerUnder() {
	c := s.c
	const id = "_ResponderBase.RegisterResourceUnder"
	rr := s.run("_ResponderBase", "RegisterResourceUnder")
	if rr == nil {
		return
	}
	self, given, r := rr.ps[0], rr.ps[1], rr.ps[2]
	u, host, prefix := s.urlOf(r)
	s.each(rr, id, func(f *Facts, o *Outcome, failed bool, at string) {
		tr := o.St.trace
		if failed && s.refused(f, tr, self, r) {
			c.ob(true, "refused", id, at, "")
			return
		}
		must := func(f *Facts, fails bool, why string) bool {
			return c.ob(failed == fails, "refused", id+": "+why, at, "for %s failing is %v [path: %s]", why, failed, clip(f.String(), 4000)) && !failed
		}
		rest := func(f *Facts, path *Term) {
			fork(f, isNilT(u), func(f *Facts, none bool) {
				if none {
					if must(f, false, "a resource without a URL template") {
						s.kept(f, tr, id, at, self, path, r)
					}
					return
				}
				rooted(f, prefix, func(f *Facts, prefix *Term) {
					trimmed(f, path, func(f *Facts, short *Term) {
						end := affix(false, prefix, short)
						if short == tStr("") {
							end = tBool(true)
						}
						fork(f, tLt(tLen(prefix), tLen(short)), func(f *Facts, longer bool) {
							if longer {
								if f.eval(end) == yes {
									return // can't be
								}
								must(f, true, "a prefix path longer than the URL template's")
								return
							}
							fork(f, end, func(f *Facts, fits bool) {
								if !fits {
									must(f, true, "a prefix path that isn't the URL template's end")
									return
								}
								vs := regs(tr, "validateURL")
								if len(vs) == 0 {
									must(f, true, "a URL template that isn't checked")
									return
								}
								v := vs[0]
								before := tSlice(prefix, tInt(0), tSub(tLen(prefix), tLen(short)))
								if short == tStr("") {
									before = prefix
								}
								c.ob(len(vs) == 1 && sameResponder(v.Args[0], self) && v.Args[1] == host && eqText(f, v.Args[2], before), "checked", id+": URL", at,
									"what's before the prefix path in the URL template doesn't have to be the responder's: %s instead of %s [path: %s]", clip(v.Args[2].String(), 200), clip(before.String(), 200), clip(f.String(), 300))
								fork(f, isNilT(v.res(1)), func(f *Facts, ok bool) {
									if !ok {
										must(f, true, "a URL template that doesn't fit")
										return
									}
									fork(f, tEqC(tLen(v.res(0)), 0), func(f *Facts, none bool) {
										if !none {
											must(f, true, "segments between the responder and the prefix path")
											return
										}
										if must(f, false, "a URL template that fits") {
											s.kept(f, tr, id, at, self, path, r)
										}
									})
								})
							})
						})
					})
				})
			})
		}
		fork(f, tEq(given, tStr("/")), func(f *Facts, slash bool) {
			if !slash {
				rooted(f, given, rest)
				return
			}
			switch c.p.tyAtom(f, c.p.fld(self, c.p.derivedField), "Host") {
			case no:
				must(f, true, "a root under a resource")
			case yes:
				rest(f, tStr(""))
			default:
				c.ob(false, "refused", id+": a slash", at, "a slash is accepted whether the responder is a host or not")
			}
		})
	})
}

// router judges the router's RegisterResource and RegisterResourceUnder.
func (s *placeSpec) router(name string) {
	c := s.c
	id := "Router." + name
	rr := s.run("Router", name)
	if rr == nil {
		return
	}
	self, r := rr.ps[0], rr.ps[len(rr.ps)-1]
	u, uhost, uprefix := s.urlOf(r)
	s.each(rr, id, func(f *Facts, o *Outcome, failed bool, at string) {
		tr := o.St.trace
		must := func(f *Facts, fails bool, why string) bool {
			return c.ob(failed == fails, "refused", id+": "+why, at, "for %s failing is %v [path: %s]", why, failed, clip(f.String(), 4000)) && !failed
		}
		if failed && (f.eval(isNilT(r)) == yes || f.eval(isNilT(mk("call", "parent", nil, unbase(r)))) == no || c.failedEvent(f, tr)) {
			c.ob(true, "refused", id, at, "")
			return
		}
		// below a host or the root, at the path
		place := func(f *Facts, host, path *Term) {
			isRoot := c.rootNow(f, r)
			fork(f, tEqC(tLen(host), 0), func(f *Facts, none bool) {
				if none && isRoot == yes {
					fork(f, tEqC(tLen(path), 0), func(f *Facts, none bool) {
						if !none {
							must(f, true, "a root under a path")
							return
						}
						if must(f, false, "a root") {
							s.kept(f, tr, id, at, self, tStr(""), r)
							ev := regs(tr, "registerNewRoot")
							c.ob(len(ev) == 1, "place", id+": root", at, "the root resource isn't registered as the root")
						}
					})
					return
				}
				if none {
					if c.ob(isRoot == no, "place", id+": root", at, "whether the resource is a root isn't known [path: %s]", clip(f.String(), 300)) && must(f, false, "a resource without a host") {
						s.kept(f, tr, id, at, nil, path, r)
						for _, e := range regs(tr, "registerResourceUnder", "keepResourceOrItsChildResources") {
							ok := e.Args[0].Op == "init" || e.Args[0].Op == "havoc" || e.Args[0].Op == "load" || c.nowRoot(e.Args[0], self)
							c.ob(ok && c.rootOfRouter(e, self), "place", id+": root", at, "a resource without a host isn't registered under the router's root resource: %s", clip(e.Args[0].String(), 200))
						}
						c.ob(len(regs(tr, "host", "registerHost")) == 0, "place", id+": host", at, "a host is registered for a resource without one")
					}
					return
				}
				if isRoot == yes {
					must(f, true, "a root under a host")
					return
				}
				hs := regs(tr, "host")
				if len(hs) == 0 {
					c.ob(false, "place", id+": host", at, "the host isn't looked up [path: %s]", clip(f.String(), 300))
					return
				}
				c.ob(len(hs) == 1 && eqText(f, hs[0].Args[1], host) && hs[0].Args[0] == self, "place", id+": host", at, "another host is looked up: %s [path: %s]", clip(hs[0].Args[1].String(), 200), clip(f.String(), 300))
				if failed {
					// a new host with the name of another one
					named := false
					for _, e := range regs(tr, "HostNamed") {
						named = named || f.eval(isNilT(e.Res)) == no && f.eval(hs[0].res(1)) == yes
					}
					c.ob(named, "refused", id+": host", at, "a resource with a host is refused for no reason [path: %s]", clip(f.String(), 4000))
					return
				}
				s.kept(f, tr, id, at, hs[0].res(0), path, r)
				rs := regs(tr, "registerHost")
				fork(f, hs[0].res(1), func(f *Facts, fresh bool) {
					if !fresh {
						c.ob(len(rs) == 0, "place", id+": old host", at, "a host that's already there is registered again")
						return
					}
					c.ob(len(rs) == 1 && sameResponder(rs[0].Args[1], hs[0].res(0)) && f.eval(isNilT(rs[0].Res)) == yes, "place", id+": new host", at,
						"a host that's new isn't registered [path: %s]", clip(f.String(), 300))
				})
			})
		}
		if len(rr.ps) == 2 {
			fork(f, isNilT(u), func(f *Facts, none bool) {
				if none {
					place(f, tStr(""), tStr(""))
					return
				}
				fork(f, tEqC(tLen(uhost), 0), func(f *Facts, nohost bool) {
					if nohost {
						place(f, tStr(""), uprefix)
						return
					}
					fork(f, tEq(uprefix, tStr("/")), func(f *Facts, slash bool) {
						if slash {
							place(f, uhost, tStr(""))
						} else {
							place(f, uhost, uprefix)
						}
					})
				})
			})
			return
		}
		given := rr.ps[1]
		under := func(f *Facts, host, path, secure *Term) {
			rooted(f, path, func(f *Facts, path *Term) {
				fin := func(f *Facts, path *Term) {
					fork(f, tEq(path, tStr("/")), func(f *Facts, slash bool) {
						if slash {
							if c.rootNow(f, r) == yes {
								// "/" is no place for a root
								must(f, true, "a root under a path")
								return
							}
							path = tStr("")
						}
						place(f, host, path)
						if !failed && c.rootNow(f, r) == no {
							s.secured(f, tr, id, at, r, secure)
						}
					})
				}
				fork(f, isNilT(u), func(f *Facts, none bool) {
					if none {
						fin(f, path)
						return
					}
					fork(f, tEqC(tLen(uhost), 0), func(f *Facts, nohost bool) {
						same := func(f *Facts) {
							trimmed(f, path, func(f *Facts, path *Term) {
								fork(f, tEq(uprefix, tStr("/")), func(f *Facts, slash bool) {
									p := uprefix
									if slash {
										p = tStr("")
									}
									rooted(f, p, func(f *Facts, p *Term) {
										fork(f, tEq(path, p), func(f *Facts, eq bool) {
											if !eq && !eqText(f, path, p) {
												must(f, true, "another prefix path than the URL template's")
												return
											}
											fin(f, path)
										})
									})
								})
							})
						}
						if nohost {
							same(f)
							return
						}
						if f.eval(tEq(tLen(uhost), tLen(host))) == no {
							must(f, true, "another host than the URL template's")
							return
						}
						fork(f, tEq(uhost, host), func(f *Facts, eq bool) {
							if !eq {
								must(f, true, "another host than the URL template's")
								return
							}
							same(f)
						})
					})
				})
			})
		}
		fork(f, tEqC(tLen(given), 0), func(f *Facts, empty bool) {
			if empty {
				under(f, tStr(""), tStr(""), tBool(false))
				return
			}
			sp := regs(tr, "splitHostAndPath")
			if !c.ob(len(sp) == 1 && sp[0].Args[0] == given, "place", id+": URL", at, "the URL template isn't taken apart once") {
				return
			}
			under(f, sp[0].res(0), sp[0].res(1), sp[0].res(2))
		})
	})
}

// rootOfRouter: the event's responder is what the router's root field held.
func (c *Checker) rootOfRouter(e *Event, ro *Term) bool {
	t := unbase(e.Args[0])
	if isFieldNow(t, ro, c.p.rootField()) {
		return true
	}
	v := memAt(e, ro, c.p.rootField())
	return v != nil && sameResponder(v, t)
}

// secured: a resource that's registered under a secure URL is secure.
func (s *placeSpec) secured(f *Facts, tr []*Event, id, at string, r, secure *Term) {
	c := s.c
	flags := c.p.fld(r, c.r.cfs)
	var last *Term
	n := 0
	for _, e := range tr {
		if e.Kind == "store" && e.Target.Op == "faddr" && e.Target.Aux == c.r.cfs && sameResponder(e.Target.A[0], r) {
			last = e.Args[0]
			n++
		}
	}
	switch f.eval(secure) {
	case yes:
		c.ob(last != nil && f.eval(bitOf(last, c.r.bit["secure"])) == yes, "secure", id, at, "a resource that's registered under a secure URL isn't secure [path: %s]", clip(f.String(), 300))
	case no:
		c.ob(n == 0, "secure", id, at, "the flags of a resource are changed")
	default:
		c.ob(last == nil && f.eval(bitOf(flags, c.r.bit["secure"])) == yes, "secure", id, at, "a resource that's registered under a secure URL may not be secure [path: %s]", clip(f.String(), 300))
	}
}

// hostFits judges validateHostTmpl.
func (s *placeSpec) hostFits() {
	c := s.c
	const id = "validateHostTmpl"
	rr := c.pureRun("_ResponderBase", id, regNames, set("parent", "Host"))
	if rr == nil {
		return
	}
	self, tmpl := rr.ps[0], rr.ps[1]
	s.each(rr, id, func(f *Facts, o *Outcome, failed bool, at string) {
		tr := o.St.trace
		must := func(f *Facts, fails bool, why string) {
			c.ob(failed == fails, "host", id+": "+why, at, "for %s failing is %v [path: %s]", why, failed, clip(f.String(), 4000))
		}
		fork(f, tEqC(tLen(tmpl), 0), func(f *Facts, empty bool) {
			if empty {
				must(f, false, "no host")
				return
			}
			host := self
			if c.p.tyAtom(f, c.p.fld(self, c.p.derivedField), "Host") != yes {
				host = mk("call", "Host", nil, unbase(self))
				for t := range f.b {
					if t.Op == "isnil" && sameResponder(t.A[0], host) {
						host = t.A[0]
					}
				}
				if f.eval(isNilT(host)) == yes || f.eval(isNilT(unbase(host))) == yes {
					must(f, true, "a responder without a host")
					return
				}
				if !c.ob(f.eval(isNilT(host)) == no || f.eval(isNilT(unbase(host))) == no || failed, "host", id+": which", at, "the host isn't the responder's [path: %s]", clip(f.String(), 300)) {
					return
				}
			}
			ps := regs(tr, "TryToParse")
			if len(ps) == 0 {
				c.ob(failed && c.p.tyAtom(f, c.p.fld(self, c.p.derivedField), "Resource") != yes, "host", id+": parsed", at, "the host's template isn't parsed [path: %s]", clip(f.String(), 300))
				return
			}
			c.ob(len(ps) == 1 && ps[0].Args[0] == tmpl, "host", id+": parsed", at, "something else is parsed")
			fork(f, isNilT(ps[0].res(1)), func(f *Facts, ok bool) {
				if !ok {
					must(f, true, "a bad template")
					return
				}
				t := ps[0].res(0)
				sim := f.find(func(x *Term) bool {
					return x.Op == "call" && (x.Aux == "SimilarityWith" || x.Aux == "Err") && mentions(x, t)
				})
				fork(f, mk("call", "IsWildcard", boolT, t), func(f *Facts, wild bool) {
					if wild {
						must(f, true, "a wildcard")
						return
					}
					if !c.ob(sim != nil, "host", id+": compared", at, "the template isn't compared with the host's [path: %s]", clip(f.String(), 300)) {
						return
					}
					same := sim
					if sim.Aux == "Err" {
						same = sim.A[0]
					}
					own := c.tmplOf(host)
					good := same.Op == "call" && same.Aux == "SimilarityWith" && (s.isTmpl(same.A[0], host, own) && same.A[1] == t || s.isTmpl(same.A[1], host, own) && same.A[0] == t)
					c.ob(good, "host", id+": compared", at, "something else than the host's template is compared: %s", clip(same.String(), 200))
					if sim.Aux == "Err" {
						fork(f, isNilT(sim), func(f *Facts, ok bool) { must(f, !ok, "a similar template") })
						return
					}
					fork(f, tEqC(sim, s.theSame()), func(f *Facts, ok bool) { must(f, !ok, "a similar template") })
				})
			})
		})
	})
}

func (s *placeSpec) isTmpl(t, of, own *Term) bool {
	t = strip(t)
	if t == own {
		return true
	}
	return t.Op == "init" && t.A[0].Op == "faddr" && t.A[0].Aux == s.c.r.tmpl && sameResponder(t.A[0].A[0], of)
}

func (s *placeSpec) theSame() int64 {
	if k, ok := s.c.p.spkg.Members["TheSame"].(*ssa.NamedConst); ok {
		return k.Value.Int64()
	}
	return 0
}

// urlFits judges validateURL.
func (s *placeSpec) urlFits() {
	c := s.c
	const id = "validateURL"
	rr := c.regOf("_ResponderBase", id)
	if rr == nil {
		return
	}
	self, host, path := rr.ps[0], rr.ps[1], rr.ps[2]
	l := &lookSpec{c, rr, self, path}
	// list, and whether its first one is a host
	above := func(tr []*Event) *Term {
		es := regs(tr, "respondersInThePath")
		if len(es) != 1 || !sameResponder(es[0].Args[0], self) {
			return nil
		}
		return es[0].Res
	}
	at0 := func(list *Term) *Term { return mk("init", "", nil, mk("iaddr", "", nil, list, tInt(0))) }
	isHost := func(f *Facts, list *Term) tri { return c.p.tyAtom(f, at0(list), "Host") }
	hostChecked := func(f *Facts, tr []*Event, list *Term) tri {
		es := regs(tr, "validateHostTmpl")
		if len(es) != 1 || es[0].Args[1] != host || !sameResponder(es[0].Args[0], at0(list)) {
			return unk
		}
		return f.eval(isNilT(es[0].Res))
	}
	// compared: the segment and the responder that the iteration compares
	compared := func(f *Facts, tr []*Event, list *Term) (seg, parsed *Event, idx *Term, same tri) {
		same = unk
		ns := regs(tr, "nextSegment")
		if len(ns) == 0 || !l.iterates(tr, ns[len(ns)-1].Args[0]) {
			return
		}
		seg = ns[len(ns)-1]
		for _, e := range regs(tr, "TryToParse") {
			if strip(e.Args[0]) == seg.Res {
				parsed = e
			}
		}
		if parsed == nil {
			return
		}
		t := f.find(func(x *Term) bool {
			return x.Op == "call" && x.Aux == "SimilarityWith" && mentions(x, parsed.res(0))
		})
		if t == nil {
			return
		}
		other := t.A[0]
		if strip(other) == parsed.res(0) {
			other = t.A[1]
		} else if strip(t.A[1]) != parsed.res(0) {
			return
		}
		other = strip(other)
		if other.Op != "init" || other.A[0].Op != "faddr" || other.A[0].Aux != c.r.tmpl {
			return
		}
		el := unbase(other.A[0].A[0])
		if el.Op != "init" || el.A[0].Op != "iaddr" || strip(el.A[0].A[0]) != list {
			return
		}
		idx = el.A[0].A[1]
		same = f.eval(tEqC(t, s.theSame()))
		return
	}
	n := 0
	for i := range rr.ip.backedges {
		b := &rr.ip.backedges[i]
		f, tr := b.St.facts, b.St.trace
		at := c.at(b.Fn, b.Fn.Pos())
		list := above(tr)
		if !c.ob(list != nil, "walk", id+": responders", at, "the responders in the path aren't those of the responder") {
			continue
		}
		n++
		c.ob(hostChecked(f, tr, list) == yes, "host", id+": checked", at, "the path is compared though the host may not fit")
		seg, parsed, idx, same := compared(f, tr, list)
		if !c.ob(seg != nil && parsed != nil && idx != nil, "walk", id+": compared", at, "an iteration doesn't compare the next segment with a responder's template [path: %s]", clip(f.String(), 300)) {
			continue
		}
		c.ob(f.eval(tEqC(tLen(seg.Res), 0)) == no && f.eval(isNilT(parsed.res(1))) == yes && same == yes, "walk", id+": same", at, "the walk goes on though a segment isn't the responder's")
		c.ob(s.from(f, idx, isHost(f, list)), "walk", id+": each one", at, "the walk doesn't start at the first resource and go on one by one: %s", idx)
		c.ob(len(regs(tr, "nextSegment")) == 1, "walk", id+": one segment", at, "an iteration takes several segments")
	}
	c.ob(n > 0, "walk", id, c.at(rr.fn, rr.fn.Pos()), "there's no walk over the responders")
	s.each(rr, id, func(f *Facts, o *Outcome, failed bool, at string) {
		tr := o.St.trace
		list := above(tr)
		if !c.ob(list != nil && o.Kind == "return", "walk", id+": responders", at, "the responders in the path aren't those of the responder") {
			return
		}
		hc := hostChecked(f, tr, list)
		if failed {
			seg, parsed, idx, same := compared(f, tr, list)
			why := hc == no
			if seg != nil && f.eval(tEqC(tLen(seg.Res), 0)) == yes {
				why = true
			}
			if parsed != nil && f.eval(isNilT(parsed.res(1))) == no {
				why = true
			}
			if idx != nil && same == no && s.from(f, idx, isHost(f, list)) {
				why = true
			}
			c.ob(why, "refused", id, at, "a URL template is refused for no reason [path: %s]", clip(f.String(), 300))
			return
		}
		c.ob(hc == yes, "host", id+": checked", at, "a URL template fits though its host may not")
		isH := isHost(f, list)
		if isH == yes && f.eval(tEqC(tLen(list), 1)) == yes && (f.eval(tEqC(tLen(path), 0)) == yes || f.eval(tEq(path, tStr("/"))) == yes) {
			c.ob(f.eval(tEqC(tLen(o.Res[0]), 0)) == yes, "rest", id+": host", at, "something is left of an empty path")
			return
		}
		// all were compared
		all := false
		first := int64(0)
		if isH == yes {
			first = 1
		}
		if f.eval(tLt(tInt(first), tLen(list))) == no {
			all = true
		}
		f.terms(func(t *Term) {
			if t.Op != "lt" {
				return
			}
			// x < y+d, or not
			d := int64(atoi(t.Aux))
			for i, x := range t.A {
				if x.Op != "ind" || t.A[1-i] != tLen(list) {
					continue
				}
				start, step := indParts(x)
				over := d + first - start
				if i == 1 {
					over = 1 - d + first - start
				}
				if step == 1 && over >= 0 && f.eval(t) == triOf(i == 1) {
					all = true
				}
			}
		})
		c.ob(all, "walk", id+": all", at, "a URL template fits though not every responder in the path was compared [path: %s]", clip(f.String(), 300))
		es := regs(tr, "remainingPath")
		c.ob(len(es) == 1 && l.iterates(tr, es[0].Args[0]) && o.Res[0] == es[0].Res && tr[len(tr)-1] == es[0], "rest", id, at, "what's returned isn't the rest of the path")
	})
}

// from: the index starts at the first resource and goes up by one.
func (s *placeSpec) from(f *Facts, idx *Term, host tri) bool {
	if idx.Op != "ind" || host == unk {
		return false
	}
	start, step := indParts(idx)
	want := int64(0)
	if host == yes {
		want = 1
	}
	return step == 1 && start == want
}

func indParts(t *Term) (start, step int64) {
	p := strings.SplitN(t.Aux, "|", 3)
	return int64(atoi(p[1])), int64(atoi(p[2]))
}

// forgets: the URL template of a resource is only forgotten when it gets a
// place in the tree.
func (s *placeSpec) forgets() {
	c := s.c
	n := 0
	for _, fn := range c.p.allFns() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || c.p.cellOf(fa) != s.urlt || !named(fa.X.Type(), "Resource") {
					continue
				}
				n++
				if c.p.alwaysFresh(fa.X, fn, map[*ssa.Function]bool{}) {
					continue
				}
				k, isNil := st.Val.(*ssa.Const)
				c.ob(isNil && k.Value == nil, "forgotten", c.p.short(fn), c.at(fn, st.Pos()), "the URL template of a resource is replaced")
			}
		}
	}
	c.ob(n > 0, "forgotten", "urlt", "", "nothing keeps the URL template of a resource")
	for _, x := range []struct{ typ, name string }{{"_ResponderBase", "registerResource"}, {"_ResponderBase", "replaceResource"},
		{"_ResponderBase", "registerResourceUnder"}, {"_ResponderBase", "keepResourceOrItsChildResources"},
		{"_ResponderBase", "RegisterResource"}, {"_ResponderBase", "RegisterResourceUnder"},
		{"Router", "RegisterResource"}, {"Router", "RegisterResourceUnder"}, {"Router", "registerNewRoot"}} {
		rr := c.regOf(x.typ, x.name)
		if rr == nil {
			continue
		}
		for i := range rr.outs {
			o := &rr.outs[i]
			at := c.at(o.In, o.Pos)
			for _, e := range o.St.trace {
				if e.Kind != "store" || e.Target.Op != "faddr" || e.Target.Aux != s.urlt {
					continue
				}
				r := e.Target.A[0]
				if r.Op == "alloc" {
					continue
				}
				outcomeOf(o, func(f *Facts, failed bool) {
					c.ob(!failed, "forgotten", x.name+": failure", at, "the URL template of a resource is forgotten though it isn't registered")
					set := false
					for _, p := range o.St.trace {
						if p.Kind == "store" && p.Target.Op == "faddr" && p.Target.Aux == c.r.papa && sameResponder(p.Target.A[0], r) {
							set = true
						}
					}
					c.ob(set || len(regs(o.St.trace, "setParent")) > 0, "forgotten", x.name+": place", at, "the URL template of a resource is forgotten though it gets no place in the tree")
				})
			}
		}
	}
}

func checkP41(c *Checker) {
	c.rule("checked: a resource with a URL template is registered under a responder only if the host and the segments of the URL template up to the responder are the responder's")
	c.rule("place: it's registered once, where its URL template and the given prefix path or URL say")
	c.rule("refused: registration is refused only for a stated reason")
	c.rule("secure: a resource that's registered under an https URL becomes secure, and no other")
	c.rule("host, walk, rest: a URL template fits if its host is the responder's host and its segments are those of the responders above, each compared once, in order; the rest is what's left")
	c.rule("forgotten: the URL template is forgotten only when the resource gets its place")
	s := &placeSpec{c: c}
	u, r := c.p.structOf("_URLTmpl"), c.p.structOf("Resource")
	if u != nil && r != nil {
		if ns := fieldsOf(r, func(v *types.Var) bool { return named(v.Type(), "_URLTmpl") }); len(ns) == 1 {
			s.urlt = ns[0]
		}
	}
	if s.urlt == "" || !hasField(u, "Host") || !hasField(u, "PrefixPath") {
		c.undecided("_URLTmpl", "the field of Resource was not found")
		return
	}
	s.register()
	s.registerUnder()
	s.router("RegisterResource")
	s.router("RegisterResourceUnder")
	s.hostFits()
	s.urlFits()
	s.forgets()
}

func init() {
	register("P41", "Every abstract path of the functions that register a resource with a URL template and of those that compare a URL template with a responder is analysed; loops over the responders in the path are judged by their iterations.", checkP41)
}
