package main

// What a URL or path template names is created exactly once, at its place.

// exactly one responder is registered per new one
type creation struct {
	c    *Checker
	rr   *regRun
	id   string
	ro   bool // the function is the router's
	o    *Outcome
	at   string
	rule string
}

func (k *creation) ob(ok bool, what, format string, a ...any) {
	k.c.ob(ok, k.rule, k.id+": "+what, k.at, format, a...)
}

// nowRoot: the value is the router's root resource.
func (c *Checker) nowRoot(t, ro *Term) bool {
	t = unbase(t)
	return t != nil && isFieldNow(t, ro, c.p.rootField())
}

// registered: how often the responder is registered under the other one.
func registered(f *Facts, tr []*Event, name string, to, r *Term) (n int, ok bool) {
	ok = true
	for _, e := range regs(tr, name) {
		if sameResponder(e.Args[1], r) && (to == nil || sameResponder(e.Args[0], to)) {
			n++
			ok = ok && f.eval(isNilT(e.res(0))) == yes
		}
	}
	return n, ok
}

// isPath: the value is the path, or the path after a slash.
func isPath(f *Facts, t, path *Term) bool {
	if f.eval(tEq(t, path)) == yes {
		return true
	}
	return t.Op == "concat" && len(t.A) == 2 && isStr(t.A[0], "/") && t.A[1] == path
}

func isStr(t *Term, s string) bool {
	v, ok := t.strVal()
	return ok && v == s
}

// place judges one successful path: the host, the segments and the result.
func (k *creation) place(f *Facts, result func(f *Facts, t *Term)) {
	c, o, rr := k.c, k.o, k.rr
	tr := o.St.trace
	self := rr.ps[0]
	url := regs(tr, "splitHostAndPath")
	var host, path *Term
	switch {
	case len(url) == 1:
		host, path = url[0].res(0), url[0].res(1)
		k.ob(url[0].Args[len(url[0].Args)-1] == rr.ps[1], "URL", "something else than the given template is taken apart")
	case len(url) == 0:
		host = rr.ps[1]
	default:
		k.ob(false, "URL", "the template is taken apart several times")
		return
	}
	// the root resource is made only when there's none
	for _, e := range regs(tr, "initializeRootResource") {
		t := e.NFacts.find(func(t *Term) bool { return isFieldNow(t, self, c.p.rootField()) && e.NFacts.eval(isNilT(t)) == yes })
		k.ob(t != nil, "root resource", "a root resource is made though there may be one already")
	}
	hosts, ps := regs(tr, "host"), regs(tr, "pathSegmentResources")
	withHost := func(f *Facts, h *Event) {
		from := self
		switch {
		case h != nil:
			from = h.res(0)
		case k.ro:
			from = nil
		}
		segs := func(f *Facts) {
			var last *Term
			switch {
			case len(ps) == 0:
				last = from
				if path != nil {
					k.ob(f.eval(tOr(tEqC(tLen(path), 0), tEq(path, tStr("/")))) == yes, "path", "the path of the URL isn't looked up though it isn't the root path [path: %s]", clip(f.String(), 300))
				}
				if last == nil && path != nil && f.eval(tEqC(tLen(path), 0)) == yes {
					return // there's a host or a path; see urlSpec
				}
				if last == nil {
					result(f, nil)
					return
				}
				result(f, last)
			case len(ps) == 1:
				p := ps[0]
				if from != nil {
					k.ob(sameResponder(p.Args[0], from), "from", "the path isn't looked up from the host of the URL or from the responder itself")
				} else {
					k.ob(c.nowRoot(p.Args[0], self), "from", "the path isn't looked up from the router's root resource")
				}
				k.ob(path != nil && isPath(f, p.Args[1], path), "path", "the path that's looked up isn't the URL's")
				fork(f, isNilT(p.res(1)), func(f *Facts, none bool) {
					if none {
						k.ob(len(regs(tr, "registerResource")) == 0, "nothing new", "a resource is registered though there's no new one")
						result(f, p.res(0))
						return
					}
					n, ok := registered(f, tr, "registerResource", p.res(0), p.res(1))
					k.ob(n == 1 && ok && len(regs(tr, "registerResource")) == 1, "new segments", "the first new segment isn't registered exactly once, below the last registered one [path: %s]", clip(f.String(), 300))
					result(f, p.res(2))
				})
			default:
				k.ob(false, "path", "the path is looked up several times")
			}
		}
		if h == nil {
			k.ob(len(regs(tr, "registerHost")) == 0, "no host", "a host is registered though the URL has none")
			segs(f)
			return
		}
		fork(f, h.res(1), func(f *Facts, isNew bool) {
			// a new host has no resources: every segment is new, and the last
			// registered responder is the host
			if isNew && len(ps) == 1 && sameResponder(ps[0].Args[0], h.res(0)) && f.eval(isNilT(ps[0].res(1))) == yes {
				return
			}
			reg := regs(tr, "registerHost")
			if !isNew {
				k.ob(len(reg) == 0, "known host", "a host that's registered already is registered again")
				segs(f)
				return
			}
			n := 0
			for _, e := range reg {
				same := sameResponder(e.Args[1], h.res(0)) || len(ps) == 1 && sameResponder(e.Args[1], ps[0].res(0)) && sameResponder(ps[0].Args[0], h.res(0))
				if same && sameResponder(e.Args[0], self) && f.eval(isNilT(e.res(0))) == yes {
					n++
				}
			}
			k.ob(n == 1 && len(reg) == 1, "new host", "a new host isn't registered exactly once [path: %s]", clip(f.String(), 300))
			segs(f)
		})
	}
	switch len(hosts) {
	case 0:
		if k.ro {
			k.ob(len(url) == 1 && f.eval(tEqC(tLen(host), 0)) == yes, "host", "the URL's host isn't looked up")
		}
		withHost(f, nil)
	case 1:
		k.ob(sameResponder(hosts[0].Args[0], self) && f.eval(tEq(hosts[0].Args[1], host)) == yes, "host", "the host that's looked up isn't the URL's")
		withHost(f, hosts[0])
	default:
		k.ob(false, "host", "the host is looked up several times")
	}
}

// urlSpec: a URL template has a host or a path.
func (c *Checker) urlSpec() {
	rr := c.regOf("-", "splitHostAndPath", "splitHostAndPath")
	if rr == nil {
		return
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		outcomeOf(o, func(f *Facts, failed bool) {
			if failed || len(o.Res) < 2 {
				return
			}
			for _, g := range f.assume(tEqC(tLen(o.Res[0]), 0), true) {
				c.ob(len(g.assume(tEqC(tLen(o.Res[1]), 0), true)) == 0, "created", "URL", c.at(o.In, o.Pos), "a URL without a host and without a path is accepted %v [path: %s]", o.Res, clip(g.String(), 3000))
			}
		})
	}
}

// hostSpec judges Router.host and registeredHost.
func (c *Checker) hostSpec() {
	rr := c.regOf("Router", "host", "registeredHost")
	if rr == nil {
		return
	}
	self, str := rr.ps[0], rr.ps[1]
	for i := range rr.outs {
		o := &rr.outs[i]
		outcomeOf(o, func(f *Facts, failed bool) {
			if failed {
				return
			}
			k := &creation{c, rr, "Router.host", true, o, c.at(o.In, o.Pos), "created"}
			tr := o.St.trace
			gh, tp, look := regs(tr, "getHost"), regs(tr, "TryToParse"), regs(tr, "hostWithTemplate")
			if len(gh) != 1 || len(tp) != 1 || len(look) != 1 {
				k.ob(false, "lookup", "the host isn't looked up exactly once")
				return
			}
			tmpl := tp[0].res(0)
			k.ob(gh[0].Args[0] == str && tp[0].Args[0] == gh[0].res(0), "template", "the template isn't the host of the URL")
			k.ob(f.eval(tmplQ("IsWildcard", tmpl)) == no, "wildcard", "a host with a wildcard template is accepted")
			k.ob(sameResponder(look[0].Args[0], self) && look[0].Args[1] == tmpl, "lookup", "another host is looked up")
			mk := regs(tr, "createDormantHost")
			fork(f, isNilT(look[0].res(0)), func(f *Facts, none bool) {
				fork(f, o.Res[1], func(f *Facts, isNew bool) {
					k.ob(isNew == none, "new", "the host isn't reported as new exactly if there was none")
				})
				if none {
					k.ob(len(mk) == 1 && mk[0].Args[0] == tmpl && sameResponder(o.Res[0], mk[0].res(0)), "new", "the result isn't a new host with the template")
				} else {
					k.ob(len(mk) == 0 && sameResponder(o.Res[0], look[0].res(0)), "found", "the result isn't the host that was found")
				}
			})
		})
	}
}

// pathSpec judges pathSegmentResources.
// It reports whether the root path may be refused.
func (c *Checker) pathSpec() (refused bool) {
	rr := c.regOf("_ResponderBase", "pathSegmentResources")
	if rr == nil {
		return
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		outcomeOf(o, func(f *Facts, failed bool) {
			k := &creation{c, rr, "pathSegmentResources", false, o, c.at(o.In, o.Pos), "created"}
			tr := o.St.trace
			sp, sg := regs(tr, "splitPathSegments"), regs(tr, "segmentResources")
			if failed {
				if len(sp) == 1 && f.eval(sp[0].res(1)) == yes && f.eval(isNilT(sp[0].res(3))) == yes {
					refused = true
				}
				return
			}
			if len(sp) != 1 {
				k.ob(false, "path", "the path isn't taken apart exactly once")
				return
			}
			k.ob(sp[0].Args[0] == rr.ps[1], "path", "something else than the path is taken apart")
			fork(f, sp[0].res(1), func(f *Facts, root bool) {
				if root {
					k.ob(len(sg) == 0 && sameResponder(o.Res[0], rr.ps[0]) && f.eval(isNilT(o.Res[1])) == yes && f.eval(isNilT(o.Res[2])) == yes, "root", "the root path's responder isn't the responder itself")
					return
				}
				ok := len(sg) == 1 && sameResponder(sg[0].Args[0], rr.ps[0]) && sg[0].Args[1] == sp[0].res(0)
				for j := 0; ok && j < 3; j++ {
					ok = o.Res[j] == sg[0].res(j) || sameResponder(o.Res[j], sg[0].res(j))
				}
				k.ok3(ok)
			})
		})
	}
	return refused
}

func (k *creation) ok3(ok bool) {
	k.ob(ok, "segments", "the result isn't that of looking up the path's segments")
}

// segmentSpec judges segmentResources.
func (c *Checker) segmentSpec() {
	rr := c.regOf("_ResponderBase", "segmentResources")
	if rr == nil {
		return
	}
	self, list := rr.ps[0], rr.ps[1]
	mine := func(t *Term) bool { // a new resource
		return t != nil && (t.Op == "reg:newDormantResource" || t.Op == "ext" && t.Aux == "0" && t.A[0].Op == "reg:createDormantResource")
	}
	loops := map[string]bool{}
	var O, F, L *Term // the loop's variables
	for i := range rr.outs {
		o := &rr.outs[i]
		outcomeOf(o, func(f *Facts, failed bool) {
			if failed || len(o.Res) < 3 {
				return
			}
			at := func(t *Term) *Term {
				t = strip(t)
				if t.Op == "widen" {
					return t
				}
				return nil
			}
			if a, b, d := at(o.Res[0]), at(o.Res[1]), at(o.Res[2]); a != nil {
				if b == nil && f.eval(isNilT(o.Res[1])) == yes {
					b = F
				}
				if d == nil && f.eval(isNilT(o.Res[2])) == yes {
					d = L
				}
				if b != nil {
					F = b
				}
				if d != nil {
					L = d
				}
				O = a
			}
			// every segment was looked at
			over := f.eval(tEqC(tLen(list), 0)) == yes
			for t, v := range f.b {
				over = over || !v && t.Op == "lt" && t.Aux == "0" && ascending(t.A[0]) && t.A[1].Op == "len" && t.A[1].A[0] == list
			}
			c.ob(over, "created", "segments: all", c.at(o.In, o.Pos), "the result is returned before every segment was looked at")
		})
	}
	if O == nil || F == nil || L == nil {
		c.undecided("segmentResources", "the loop's variables were not recognised")
		return
	}
	for i := range rr.ip.backedges {
		b := &rr.ip.backedges[i]
		if _, ok := b.Next[O]; !ok {
			continue
		}
		loops[b.Loop] = true
		at := c.at(b.Fn, b.Fn.Pos())
		ob := func(ok bool, what, format string, a ...any) {
			c.ob(ok, "created", "segments: "+what, at, format, a...)
		}
		ob(sameResponder(b.Init[O], self) && b.Init[F].isNil() && b.Init[L].isNil(), "start", "the search doesn't start at the responder itself")
		tr := b.St.trace[b.Head:]
		// both variables are nil or none is
		for _, g := range sameNil(b.St.facts, F, L) {
			f := g
			tp := regs(tr, "TryToParse")
			if len(tp) != 1 || !elemNow(tp[0].Args[0], list) {
				ob(false, "template", "an iteration isn't about the next segment")
				continue
			}
			tmpl := tp[0].res(0)
			var news, under, look []*Event
			for _, e := range tr {
				switch {
				case e.Kind == "reg" && (e.Name == "newDormantResource" || e.Name == "createDormantResource"):
					news = append(news, e)
				case e.Kind == "reg" && e.Name == "registerResource":
					under = append(under, e)
				case e.Kind == "reg" && e.Name == "resourceWithTemplate" && sameResponder(e.Args[0], O) && e.Args[1] == tmpl:
					look = append(look, e)
				}
			}
			same := func(w *Term) bool { return sameResponder(b.Next[w], w) || b.Next[w] == w }
			if len(news) == 0 {
				ok := len(look) == 1 && f.eval(isNilT(F)) == yes && f.eval(isNilT(look[0].res(0))) == no &&
					sameResponder(b.Next[O], look[0].res(0)) && (same(F) || b.Next[F].isNil()) && (same(L) || b.Next[L].isNil()) && len(under) == 0
				ob(ok, "registered segment", "the search doesn't go on with the child that has the segment's template [path: %s]", clip(f.String(), 300))
				continue
			}
			n := news[0].res(0)
			ok := len(news) == 1 && mine(n) && news[0].Args[0] == tmpl && same(O) && sameResponder(b.Next[L], n)
			ob(ok, "new segment", "a missing segment doesn't become a new resource with its template [path: %s]", clip(f.String(), 300))
			fork(f, isNilT(F), func(f *Facts, first bool) {
				if first {
					ob(len(look) == 1 && f.eval(isNilT(look[0].res(0))) == yes, "first new segment", "a new resource is made though there may be one with the template")
					ob(sameResponder(b.Next[F], n) && len(under) == 0, "first new segment", "the first new segment isn't kept for its registration")
					return
				}
				ob(same(F) && len(under) == 1 && sameResponder(under[0].Args[0], L) && sameResponder(under[0].Args[1], n) && f.eval(isNilT(under[0].res(0))) == yes,
					"next new segment", "a new segment isn't registered below the new one before it")
			})
		}
	}
	if len(loops) != 1 {
		c.undecided("segmentResources", "%d loops were recognised", len(loops))
	}
}

// elemNow: the value is the element of the list at an ascending index.
func elemNow(t, list *Term) bool {
	return t != nil && t.Op == "init" && t.A[0].Op == "iaddr" && t.A[0].A[0] == list && ascending(t.A[0].A[1])
}

// sameNil are the cases in which both are nil or none is.
func sameNil(f *Facts, x, y *Term) []*Facts {
	var r []*Facts
	for _, v := range []bool{true, false} {
		for _, g := range f.assume(isNilT(x), v) {
			r = append(r, g.assume(isNilT(y), v)...)
		}
	}
	return r
}

// underSpec judges registerResourceUnder.
func (c *Checker) underSpec() {
	rr := c.regOf("_ResponderBase", "registerResourceUnder")
	if rr == nil {
		return
	}
	self, path, r := rr.ps[0], rr.ps[1], rr.ps[2]
	for i := range rr.outs {
		o := &rr.outs[i]
		outcomeOf(o, func(f *Facts, failed bool) {
			if failed {
				return
			}
			k := &creation{c, rr, "registerResourceUnder", false, o, c.at(o.In, o.Pos), "created"}
			tr := o.St.trace
			ps := regs(tr, "pathSegmentResources")
			if len(ps) != 1 {
				k.ob(false, "path", "the path isn't looked up exactly once")
				return
			}
			p := ps[0]
			k.ob(sameResponder(p.Args[0], self) && p.Args[1] == path, "path", "another path is looked up")
			keep := regs(tr, "keepResourceOrItsChildResources")
			under := regs(tr, "registerResource")
			fork(f, isNilT(p.res(1)), func(f *Facts, none bool) {
				if none {
					k.ob(len(keep) == 1 && len(under) == 0 && sameResponder(keep[0].Args[0], p.res(0)) && sameResponder(keep[0].Args[1], r) && f.eval(isNilT(keep[0].res(0))) == yes,
						"registered segments", "the resource isn't registered once below the last segment")
					return
				}
				n1, ok1 := registered(f, tr, "registerResource", p.res(2), r)
				n2, ok2 := registered(f, tr, "registerResource", p.res(0), p.res(1))
				k.ob(len(keep) == 0 && len(under) == 2 && n1 == 1 && n2 == 1 && ok1 && ok2, "new segments", "the resource isn't registered once below the last new segment and the first one once below the registered ones")
			})
		})
	}
}

func checkP21(c *Checker) {
	c.rule("created: the host and the path of the URL are looked up once, from the right place; what's new is registered once, what's not new isn't; the result is what the last segment names")
	c.rule("registered: a resource that's given is registered exactly once when the call succeeds")
	c.urlSpec()
	c.hostSpec()
	refused := c.pathSpec()
	c.segmentSpec()
	c.underSpec()
	for _, x := range []struct{ typ, name string }{
		{"Router", "Host"}, {"Router", "HostUsingConfig"}, {"Router", "Resource"}, {"Router", "ResourceUsingConfig"}, {"Router", "_Responder"},
		{"_ResponderBase", "Resource"}, {"_ResponderBase", "ResourceUsingConfig"},
	} {
		rr := c.regOf(x.typ, x.name)
		if rr == nil {
			continue
		}
		for i := range rr.outs {
			o := &rr.outs[i]
			if x.typ == "Router" && refused {
				for _, e := range regs(o.St.trace, "pathSegmentResources") {
					if c.nowRoot(e.Args[0], rr.ps[0]) {
						c.ob(e.NFacts.eval(tEq(e.Args[1], tStr("/"))) == no, "created", x.typ+"."+x.name+": root path", c.at(o.In, o.Pos), "the root path is looked up below the root resource, which fails")
					}
				}
			}
			outcomeOf(o, func(f *Facts, failed bool) {
				if failed {
					return
				}
				k := &creation{c, rr, x.typ + "." + x.name, x.typ == "Router", o, c.at(o.In, o.Pos), "created"}
				k.place(f, func(f *Facts, last *Term) {
					if last == nil {
						k.ob(c.nowRoot(o.Res[0], rr.ps[0]), "result", "the result isn't the root resource")
						return
					}
					k.ob(sameResponder(o.Res[0], last), "result", "the result isn't what the last segment of the URL names [path: %s]", clip(f.String(), 300))
				})
			})
		}
	}
	for _, x := range []struct {
		typ, name string
		arg       int
		how       []string
	}{
		{"Router", "RegisterResource", 1, []string{"registerNewRoot", "registerResourceUnder", "keepResourceOrItsChildResources"}},
		{"Router", "RegisterResourceUnder", 2, []string{"registerNewRoot", "registerResourceUnder", "keepResourceOrItsChildResources"}},
		{"_ResponderBase", "RegisterResource", 1, []string{"registerResourceUnder", "keepResourceOrItsChildResources"}},
		{"_ResponderBase", "RegisterResourceUnder", 2, []string{"registerResourceUnder", "keepResourceOrItsChildResources"}},
	} {
		rr := c.regOf(x.typ, x.name)
		if rr == nil {
			continue
		}
		for i := range rr.outs {
			o := &rr.outs[i]
			outcomeOf(o, func(f *Facts, failed bool) {
				if failed {
					return
				}
				k := &creation{c, rr, x.typ + "." + x.name, x.typ == "Router", o, c.at(o.In, o.Pos), "registered"}
				es := regs(o.St.trace, x.how...)
				ok := len(es) == 1
				if ok {
					e := es[0]
					ok = sameResponder(e.Args[len(e.Args)-1], rr.ps[x.arg]) && f.eval(isNilT(e.res(0))) == yes
				}
				k.ob(ok && len(regs(o.St.trace, "registerResource")) == 0, "once", "the resource isn't registered exactly once")
				for _, e := range regs(o.St.trace, "initializeRootResource") {
					t := e.NFacts.find(func(t *Term) bool { return isFieldNow(t, rr.ps[0], c.p.rootField()) && e.NFacts.eval(isNilT(t)) == yes })
					k.ob(t != nil, "root resource", "a root resource is made though there may be one already")
				}
				if !k.ro {
					return
				}
				hs, reg := regs(o.St.trace, "host"), regs(o.St.trace, "registerHost")
				if len(hs) == 0 {
					k.ob(len(reg) == 0, "no host", "a host is registered though there's none")
					if len(es) == 1 && es[0].Name != "registerNewRoot" {
						k.ob(c.nowRoot(es[0].Args[0], rr.ps[0]), "under", "the resource isn't registered below the root resource")
					}
					return
				}
				h := hs[0]
				k.ob(len(hs) == 1 && len(es) == 1 && sameResponder(es[0].Args[0], h.res(0)), "under", "the resource isn't registered below its host")
				fork(f, h.res(1), func(f *Facts, isNew bool) {
					n := 0
					for _, e := range reg {
						if sameResponder(e.Args[1], h.res(0)) && f.eval(isNilT(e.res(0))) == yes {
							n++
						}
					}
					k.ob(isNew && n == 1 && len(reg) == 1 || !isNew && len(reg) == 0, "host", "a new host isn't registered exactly once, or a registered one is again")
				})
			})
		}
	}
	// hosts and dormant resources are made nowhere else
	c.min("created", 33)
	c.min("registered", 6)
}

func init() {
	register("P21", "Every abstract path of the functions that look up and create responders by URL is analysed; the lookup of the segments is a loop whose every iteration is judged.", checkP21)
}
