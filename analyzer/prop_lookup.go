package main

// Lookups of registered responders by URL and path templates.

type lookSpec struct {
	c    *Checker
	rr   *regRun
	self *Term
	path *Term
}

// iterator: the event's iterator goes over the given path.
func (l *lookSpec) iterates(tr []*Event, it *Term) bool {
	for _, e := range tr {
		if e.Kind == "reg" && e.Name == "makePathSegmentIterator" && e.Args[0] == l.path {
			if it == e.Res || strip(it) == e.Res {
				return true
			}
			// kept in a variable
			for _, s := range tr {
				if s.Kind == "store" && s.Target.Op == "faddr" && s.Target.A[0] == it &&
					findTerm(s.Args[0], func(t *Term) bool { return t == e.Res }) != nil {
					return true
				}
			}
			return false
		}
	}
	return false
}

// segment: the text is the next one of the path's segments.
func (l *lookSpec) segment(tr []*Event, s *Term) bool {
	s = strip(s)
	isNext := func(tr []*Event, s *Term) bool {
		for _, e := range regs(tr, "nextSegment") {
			if e.Res == s {
				return l.iterates(tr, e.Args[0])
			}
		}
		return false
	}
	if isNext(tr, s) {
		return true
	}
	if !isWiden(s) {
		return false
	}
	bs := l.rr.ip.stepsOf(s)
	for _, b := range bs {
		ini, next := strip(nonNil(b.Init[s])), strip(nonNil(b.Next[s]))
		if !isNext(b.St.trace, ini) || !isNext(b.St.trace, next) || ini == next {
			return false
		}
	}
	return len(bs) > 0
}

// newest: the number of segments that a trace takes is the number of lookups
// in the iteration plus the one that's next.
func (l *lookSpec) lookups(tr []*Event) (es []*Event) {
	return regs(tr, "ChildResourceNamed", "resourceWithTemplate")
}

// answered judges one lookup in one responder.
func (l *lookSpec) answered(f *Facts, tr []*Event, e *Event, in *Term, at string) {
	c := l.c
	c.ob(sameResponder(e.Args[0], in), "walk", "in the last one found", at, "a segment isn't looked up in the resource found for the segment before")
	parts := regs(tr, "templateNameAndContent")
	var part *Event
	for _, x := range parts {
		if l.segment(tr, x.Args[0]) {
			part = x
		}
	}
	if !c.ob(part != nil, "segment", "divided", at, "the segment isn't divided into name and content") {
		return
	}
	seg := part.Args[0]
	empty := f.eval(tEqC(tLen(part.res(1)), 0))
	switch e.Name {
	case "ChildResourceNamed":
		c.ob(empty == yes && strip(e.Args[1]) == part.res(0) && f.eval(tEqC(tLen(part.res(0)), 0)) == no, "segment", "by name", at,
			"a resource is looked up by name, but the segment isn't just that name [%s]", clip(e.Args[1].String(), 200))
	default:
		ok := false
		for _, x := range regs(tr, "TryToParse") {
			if strip(e.Args[1]) == x.res(0) && strip(x.Args[0]) == strip(seg) && f.eval(isNilT(x.res(1))) == yes {
				ok = true
			}
		}
		c.ob(ok && empty == no, "segment", "by template", at, "a resource is looked up by a template that isn't the segment's")
	}
}

func (c *Checker) lookupPath() {
	rr := c.regOf("_ResponderBase", "registeredResource")
	if rr == nil {
		return
	}
	if len(rr.ps) != 2 {
		c.undecided("registeredResource", "the function has other parameters")
		return
	}
	l := &lookSpec{c, rr, rr.ps[0], rr.ps[1]}
	walks, founds := map[*Term]bool{}, map[*Term]bool{}
	for i := range rr.ip.backedges {
		b := &rr.ip.backedges[i]
		for w := range b.Next {
			if sameResponder(strip(nonNil(b.Init[w])), l.self) {
				walks[w] = true
			}
		}
	}
	if !c.ob(len(walks) == 1, "walk", "walk", c.at(rr.fn, rr.fn.Pos()), "there isn't one walk from the responder downwards") {
		return
	}
	var w *Term
	for x := range walks {
		w = x
	}
	for i := range rr.ip.backedges {
		b := &rr.ip.backedges[i]
		f, tr := b.St.facts, b.St.trace
		at := c.at(b.Fn, b.Fn.Pos())
		n, ok := b.Next[w]
		if !ok {
			continue
		}
		es := l.lookups(tr)
		if !c.ob(len(es) == 1, "walk", "one lookup", at, "an iteration looks up %d resources", len(es)) {
			continue
		}
		l.answered(f, tr, es[0], w, at)
		c.ob(sameResponder(n, es[0].res(0)), "walk", "goes down", at, "the walk doesn't go on in the resource that was found")
		c.ob(f.eval(isNilT(es[0].res(0))) == no, "walk", "found", at, "the walk goes on though the resource wasn't found")
		if es[0].Res.Op == "tuple" {
			c.ob(f.eval(isNilT(es[0].res(1))) == yes, "error", "kept", at, "the walk goes on after an error")
		}
		for r := range b.Next {
			if r != w && sameResponder(b.Next[r], n) {
				founds[r] = true
			}
		}
	}
	for r := range founds {
		for _, b := range rr.ip.stepsOf(r) {
			if !sameResponder(b.Next[r], b.Next[w]) || !strip(nonNil(b.Init[r])).isNil() {
				delete(founds, r)
			}
		}
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		tr := o.St.trace
		c.ob(len(c.p.writesIn(tr)) == 0, "changes", "registeredResource", at, "a lookup changes something")
		if !c.ob(o.Kind == "return", "error", "panics", at, "a lookup panics") {
			continue
		}
		es := l.lookups(tr)
		for _, e := range es {
			l.answered(o.St.facts, tr, e, w, at)
		}
		outcomeOf(o, func(f *Facts, failed bool) {
			if failed {
				c.ob(l.c.failedEvent(f, tr, "templateNameAndContent", "TryToParse", "resourceWithTemplate") || l.badSegment(f, tr), "error", "why", at,
					"the lookup fails though nothing is wrong with the template [path: %s]", clip(f.String(), 400))
				return
			}
			fork(f, isNilT(o.Res[0]), func(f *Facts, none bool) {
				r := strip(o.Res[0])
				if founds[r] {
					ended := false
					for _, e := range regs(tr, "remainingPath") {
						ended = ended || l.iterates(tr, e.Args[0]) && f.eval(tEqC(tLen(e.Res), 0)) == yes
					}
					last := l.lastEmpty(f, tr)
					c.ob(ended && last, "walk", "all segments", at, "the walk ends before the last segment [path: %s]", clip(f.String(), 400))
					return
				}
				if none {
					ok := len(es) == 1 && f.eval(isNilT(es[0].res(0))) == yes && (es[0].Res.Op != "tuple" || f.eval(isNilT(es[0].res(1))) == yes)
					c.ob(ok, "walk", "not found", at, "nothing is found though each segment's resource is there [path: %s]", clip(f.String(), 400))
					return
				}
				c.ob(false, "walk", "result", at, "the result isn't the resource of the last segment [%s]", clip(r.String(), 200))
			})
		})
	}
}

// lastEmpty: there's no segment left.
func (l *lookSpec) lastEmpty(f *Facts, tr []*Event) bool {
	for _, e := range regs(tr, "nextSegment") {
		if f.eval(tEqC(tLen(e.Res), 0)) == yes {
			return true
		}
	}
	s := f.find(func(t *Term) bool { return isWiden(t) && l.segment(tr, t) })
	return s != nil && f.eval(tEqC(tLen(s), 0)) == yes
}

// badSegment: a segment is empty or has neither a name nor a content.
func (l *lookSpec) badSegment(f *Facts, tr []*Event) bool {
	for _, e := range regs(tr, "remainingPath") {
		if l.iterates(tr, e.Args[0]) && f.eval(tEqC(tLen(e.Res), 0)) == no && l.lastEmpty(f, tr) {
			return true
		}
	}
	for _, e := range regs(tr, "templateNameAndContent") {
		if f.eval(tEqC(tLen(e.res(0)), 0)) == yes && f.eval(tEqC(tLen(e.res(1)), 0)) == yes {
			return true
		}
	}
	return false
}

// failedEvent: one of the calls failed.
func (c *Checker) failedEvent(f *Facts, tr []*Event, names ...string) bool {
	for _, e := range regs(tr, names...) {
		if e.Res != nil && e.Res.Op == "tuple" {
			if x := e.Res.A[len(e.Res.A)-1]; x.T != nil && isErr(x.T) && f.eval(isNilT(x)) == no {
				return true
			}
		} else if e.Res != nil && e.Res.T != nil && isErr(e.Res.T) && f.eval(isNilT(e.Res)) == no {
			return true
		}
	}
	return false
}

// lookupHost judges the lookup of a host by its template.
func (c *Checker) lookupHost() {
	rr := c.regOf("Router", "registeredHost")
	if rr == nil {
		return
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		tr := o.St.trace
		c.ob(len(c.p.writesIn(tr)) == 0, "changes", "registeredHost", at, "a lookup changes something")
		ps, hs := regs(tr, "TryToParse"), regs(tr, "hostWithTemplate")
		if !c.ob(o.Kind == "return" && len(ps) == 1 && strip(ps[0].Args[0]) == rr.ps[1], "host", "parsed", at, "the host's template isn't what is parsed") {
			continue
		}
		tmpl := ps[0].res(0)
		outcomeOf(o, func(f *Facts, failed bool) {
			wild := f.find(func(t *Term) bool { return t.Op == "call" && t.Aux == "IsWildcard" && strip(t.A[0]) == tmpl })
			if failed {
				c.ob(c.failedEvent(f, tr, "TryToParse", "hostWithTemplate") || wild != nil && f.eval(wild) == yes, "error", "host", at, "the lookup of a host fails though its template is valid")
				return
			}
			c.ob(len(hs) == 1 && hs[0].Args[0] == unbase(rr.ps[0]) && strip(hs[0].Args[1]) == tmpl && strip(o.Res[0]) == hs[0].res(0), "host", "found", at, "the host isn't the one with the template")
			c.ob(wild != nil && f.eval(wild) == no, "host", "wildcard", at, "a wildcard is looked up as a host")
			c.ob(!c.failedEvent(f, tr, "TryToParse", "hostWithTemplate") && f.eval(isNilT(ps[0].res(1))) == yes, "error", "host: kept", at, "an error is lost")
			c.ob(len(o.Res) < 2 || strip(o.Res[1]) == tmpl || isErr(o.Res[1].T), "host", "template", at, "the template isn't the parsed one")
		})
	}
}

type byURL struct {
	typ, name string
	hosts     bool // only a host can be found
	err       bool // errors are returned
	dormant   bool // a dormant one is configured
}

// byURL judges the functions that find a responder by the whole template.
func (c *Checker) byURL(m byURL) {
	rr := c.regOf(m.typ, m.name)
	if rr == nil {
		return
	}
	id := m.typ + "." + m.name
	self, arg := rr.ps[0], rr.ps[1]
	split := "splitHostAndPath"
	if m.hosts {
		split = "getHost"
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		tr := o.St.trace
		for _, e := range c.p.writesIn(tr) {
			c.ob(false, "changes", id, at, "a lookup changes something [%s]", e.Kind)
		}
		ss := regs(tr, split)
		if !c.ob(len(ss) == 1 && strip(ss[0].Args[0]) == arg, "split", id, at, "the template isn't split by %s", split) {
			continue
		}
		s := ss[0]
		host, path, secure, tslash, serr := s.res(0), tStr(""), s.res(1), s.res(2), s.Res.A[len(s.Res.A)-1]
		if !m.hosts {
			path, secure, tslash = s.res(1), s.res(2), s.res(3)
		}
		conf, checks := regs(tr, "configure"), regs(tr, "checkForConfigCompatibility")
		find := func(name string, in, tmpl *Term) *Event {
			for _, e := range regs(tr, name) {
				if e.Args[0] == unbase(in) && strip(e.Args[1]) == tmpl {
					return e
				}
			}
			return nil
		}
		judge := func(f *Facts, failed bool) {
			if failed {
				why := c.failedEvent(f, tr, split, "registeredHost", "registeredResource", "checkForConfigCompatibility")
				if m.typ == "_ResponderBase" {
					why = why || f.eval(tEqC(tLen(host), 0)) == no || f.eval(tEq(path, tStr("/"))) == yes
				}
				if !m.hosts {
					// an empty path isn't a resource's
					why = why || f.eval(tEqC(tLen(path), 0)) == yes && !m.err
				}
				c.ob(why, "error", id, at, "the lookup fails though nothing is wrong [path: %s]", clip(f.String(), 400))
				c.ob(len(conf) == 0, "changes", id+": failed", at, "a failed lookup configures a responder")
				return
			}
			c.ob(f.eval(isNilT(serr)) == yes && !c.failedEvent(f, tr, "registeredHost", "registeredResource"), "error", id+": kept", at, "an error is lost")
			result := strip(o.Res[0])
			target := func(f *Facts, t *Term, isHost bool) {
				fork(f, isNilT(t), func(f *Facts, none bool) {
					if none {
						c.ob(f.eval(isNilT(result)) == yes, "result", id+": none", at, "a responder is returned though it isn't registered")
						return
					}
					c.ob(sameResponder(result, t) || f.eval(tEq(result, t)) == yes, "result", id, at, "the result isn't the responder of the template [%s, path: %s]", clip(result.String(), 200), clip(f.String(), 300))
					ok := len(checks) == 1 && sameResponder(checks[0].Args[0], t) && checks[0].Args[1] == secure && checks[0].Args[2] == tslash && strip(checks[0].Args[3]).isNil()
					if !c.ob(ok, "compatible", id, at, "it isn't checked that the responder is compatible with the template's scheme and trailing slash") {
						return
					}
					fork(f, isNilT(checks[0].Res), func(f *Facts, fits bool) {
						if fits {
							c.ob(len(conf) == 0, "compatible", id+": kept", at, "a compatible responder is configured")
							return
						}
						ok := len(conf) == 1 && sameResponder(conf[0].Args[0], t) && conf[0].Args[1] == secure && conf[0].Args[2] == tslash && strip(conf[0].Args[3]).isNil()
						q := f.find(func(t *Term) bool {
							return t.Op == "call" && t.Aux == "errors.Is" && t.A[0] == checks[0].Res && (isGlobal(t.A[1], "errDormantResource") || isGlobal(t.A[1], "errDormantHost"))
						})
						c.ob(ok && q != nil && f.eval(q) == yes, "compatible", id+": dormant", at, "an incompatible responder is returned")
					})
				})
			}
			if m.hosts {
				e := find("registeredHost", self, host)
				if c.ob(e != nil, "base", id, at, "the host isn't looked up") {
					target(f, e.res(0), true)
				}
				return
			}
			below := func(f *Facts, base *Term, isHost bool) {
				fork(f, isNilT(base), func(f *Facts, none bool) {
					if none {
						c.ob(f.eval(isNilT(result)) == yes, "result", id+": no base", at, "a responder is returned though the host or root isn't registered")
						return
					}
					fork(f, tEqC(tLen(path), 0), func(f *Facts, nopath bool) {
						if nopath {
							if !isHost {
								return // rejected by the split
							}
							target(f, base, true)
							return
						}
						fork(f, tEq(path, tStr("/")), func(f *Facts, slash bool) {
							if slash {
								if isHost {
									return // never: the slash of a host is its trailing slash
								}
								target(f, base, false)
								return
							}
							e := find("registeredResource", base, path)
							if c.ob(e != nil, "base", id, at, "the path isn't looked up below the host, the root or the responder itself [path: %s]", clip(f.String(), 300)) {
								target(f, e.res(0), false)
							}
						})
					})
				})
			}
			fork(f, tEqC(tLen(host), 0), func(f *Facts, nohost bool) {
				if m.err {
					fork(f, tEqC(tLen(path), 0), func(f *Facts, nopath bool) {
						if nohost && nopath {
							return
						}
						c.ob(f.eval(o.Res[1]) == toTri(!nohost && nopath), "result", id+": kind", at, "whether the template is a host's is told wrong")
					})
				}
				if m.typ == "_ResponderBase" {
					c.ob(nohost, "base", id+": host", at, "a template with a host is looked up below a responder")
					if nohost {
						below(f, self, false)
					}
					return
				}
				if nohost {
					root := c.p.fld(self, "r")
					below(f, root, false)
					return
				}
				e := find("registeredHost", self, host)
				if c.ob(e != nil, "base", id+": host", at, "the host isn't looked up") {
					below(f, e.res(0), true)
				}
			})
		}
		if m.err {
			outcomeOf(o, judge)
		} else {
			judge(o.St.facts, o.Kind == "panic")
		}
	}
}

func toTri(b bool) tri {
	if b {
		return yes
	}
	return no
}

func checkP40(c *Checker) {
	c.rule("walk: a path is looked up segment by segment, each in the resource that was found for the segment before, from the responder on; all of them have to be found")
	c.rule("segment: a segment that's only a name is looked up by name, others by the segment's template")
	c.rule("host: a host is looked up by its parsed template, which isn't a wildcard")
	c.rule("split, base: the template is split into host and path; the path is looked up below the host with that template, without a host below the router's root, or below the responder itself")
	c.rule("result: what was found is returned, and nil if it isn't there")
	c.rule("compatible: the responder is checked against the template's scheme and trailing slash; an incompatible one is an error unless it's dormant and gets configured")
	c.rule("error: a lookup fails only if the template is invalid or incompatible; errors aren't lost")
	c.rule("changes: a lookup changes nothing else")
	c.lookupPath()
	c.lookupHost()
	c.byURL(byURL{"_ResponderBase", "RegisteredResource", false, false, true})
	c.byURL(byURL{"Router", "RegisteredHost", true, false, true})
	c.byURL(byURL{"Router", "RegisteredResource", false, false, false})
	c.byURL(byURL{"Router", "registered_Responder", false, true, false})
	c.min("walk", 5)
	c.min("segment", 4)
	c.min("host", 2)
	c.min("split", 12)
	c.min("base", 6)
	c.min("result", 10)
	c.min("compatible", 5)
	c.min("error", 10)
	c.min("changes", 4)
}

func init() {
	register("P40", "Every abstract path of the lookups by URL and path templates is analysed, the loop over the segments included; splitting and parsing, the lookups in one responder and the check of compatibility are events.", checkP40)
}
