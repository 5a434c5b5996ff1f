package main

import (
	"go/types"
	"strings"
)

// Questions about the tree of responders.

// walk judges a walk from a responder upwards: found is asked of every
// responder on the way; start is where it begins.
func (c *Checker) walk(rule, name string, rr *regRun, start *Term, result func(x *Term) *Term, found func(f *Facts, x *Term) tri, endsAtRouter bool) {
	p := c.p
	same := func(x, y *Term) bool { return x == y || sameResponder(x, y) }
	steps := map[*Term]bool{}
	for j := range rr.ip.backedges {
		b := &rr.ip.backedges[j]
		at := c.at(b.Fn, b.Fn.Pos())
		n := 0
		for w, next := range b.Next {
			if !same(strip(nonNil(b.Init[w])), start) {
				continue
			}
			n++
			steps[w] = true
			nx := strip(nonNil(next))
			c.ob(nx.Op == "call" && nx.Aux == "parent" && same(nx.A[0], w), rule, name+": up", at, "the walk doesn't go on with the parent [%s]", nx)
			c.ob(found(b.St.facts, w) == no, rule, name+": goes on", at, "the walk goes on though it may have found what it looks for")
		}
		c.ob(n == 1, rule, name+": walk", at, "a loop doesn't go upwards from the responder")
	}
	steps[start] = true
	for i := range rr.outs {
		o := &rr.outs[i]
		if !c.quiet(rule, name, o) {
			continue
		}
		at := c.at(o.In, o.Pos)
		f := o.St.facts
		hit, end := false, false
		for w := range steps {
			if result(w) == nil || same(strip(o.Res[0]), w) || o.Res[0] == result(w) {
				hit = hit || found(f, w) == yes && (o.Res[0] == result(w) || same(strip(o.Res[0]), result(w)))
			}
			end = end || f.eval(isNilT(w)) == yes || endsAtRouter && p.tyAtom(f, w, "Router") == yes
		}
		none := f.eval(isNilT(o.Res[0])) == yes || o.Res[0] == tBool(false)
		if none {
			c.ob(end, rule, name+": none", at, "nothing is reported though the walk hasn't reached the top [path: %s]", clip(f.String(), 300))
			continue
		}
		c.ob(hit, rule, name+": found", at, "what is reported isn't known to be what was looked for [%s]", o.Res[0])
	}
}

// collects judges what a list is made of; into counts the containers.
func (k kids) collects(ip *Interp, f *Facts, v *Term, into map[string]int) string {
	v = strip(v)
	switch {
	case v.isNil() || v.Op == "list" && len(v.A) == 0 || v.Op == "mkslice" && len(v.A) > 0 && v.A[0] == tInt(0):
		return ""
	case isFieldNow(v, k.self, k.pattern):
		into["pattern"]++
		return ""
	case v.Op == "slice" && v.A[1] == tInt(0) && (v.A[2] == tInt(0)):
		return ""
	case v.Op == "append":
		for _, e := range v.A[1:] {
			s := k.source(e)
			if s != "wildcard" || f.eval(isNilT(strip(e))) != no {
				return "something is added that isn't known to be a child: " + e.String()
			}
			into[s]++
		}
		return k.collects(ip, f, v.A[0], into)
	case v.Op == "appendall":
		if s := k.collects(ip, f, v.A[1], into); s != "" {
			return s
		}
		return k.collects(ip, f, v.A[0], into)
	}
	if v.Op == "mkslice" && len(v.A) > 0 {
		var l *Term
		for _, e := range k.trace {
			if e.Kind == "copy" && strip(e.Args[0]) == v && f.eval(tEq(v.A[0], tLen(strip(e.Args[1])))) == yes {
				return k.collects(ip, f, e.Args[1], into)
			}
		}
		for i := range ip.backedges {
			for a, x := range ip.backedges[i].St.mem {
				if x = strip(x); a.Op == "iaddr" && a.A[0] == v && x.Op == "init" && x.A[0].Op == "iaddr" && tLen(x.A[0].A[0]) == v.A[0] {
					l = x.A[0].A[0]
				}
			}
		}
		if l == nil {
			return "the elements aren't those of a list of children"
		}
		if s := k.c.p.mapped(ip, f, v, l, ""); s != "" {
			return s
		}
		return k.collects(ip, f, l, into)
	}
	bs := ip.stepsOf(v)
	if len(bs) == 0 {
		return "it's " + clip(v.String(), 120)
	}
	where := ""
	var init *Term
	left := false
	var inner map[string]int
	for _, b := range bs {
		init = b.Init[v]
		n := b.Next[v]
		if n == nil || n.Op != "append" || len(n.A) != 2 || n.A[0] != v {
			return "an iteration doesn't add exactly one child"
		}
		e := strip(n.A[1])
		bf := b.St.facts
		switch {
		case e.Op == "mapget" && isFieldNow(e.A[0], k.self, k.static) && e.A[1].Op == "rkey" && rangeLoop(e.A[1].Aux, b.Loop):
			where = "static"
			left = k.done(f, "static", nil)
		case e.Op == "init" && e.A[0].Op == "iaddr":
			l, i := e.A[0].A[0], e.A[0].A[1]
			if !ascending(i) || !sameLoop(i, b.Loop) {
				return "an iteration doesn't add the child at the loop's index"
			}
			m := map[string]int{}
			if s := k.collects(ip, bf, l, m); s != "" {
				return s
			}
			where = "list"
			if exhaustedBy(f, i, l) && samePath(f, bf, i) {
				for s, n := range m {
					if inner != nil && inner[s] != n {
						return "the loop goes over different lists"
					}
				}
				left, inner = true, m
			}
		default:
			return "an iteration adds something that isn't a child: " + clip(e.String(), 120)
		}
	}
	if !left {
		return "the loop may end before the last child"
	}
	if where == "static" {
		into["static"]++
	}
	for s, n := range inner {
		into[s] += n
	}
	return k.collects(ip, f, nonNil(init), into)
}

// samePath: an iteration may be one of those before the path left the loop.
func samePath(f, iter *Facts, i *Term) bool {
	for t, v := range iter.b {
		if w, ok := f.b[t]; ok && w != v && !mentions(t, i) && t.Op != "rok" {
			return false
		}
	}
	return true
}

// eqResp: whether two references are known to be one responder.
func eqResp(f *Facts, x, y *Term) tri {
	if sameResponder(x, y) {
		return yes
	}
	if v := f.eval(tEq(x, y)); v != unk {
		return v
	}
	for t, v := range f.b {
		if t.Op == "eq" && len(t.A) == 2 && (sameResponder(t.A[0], x) && sameResponder(t.A[1], y) || sameResponder(t.A[0], y) && sameResponder(t.A[1], x)) {
			return triOf(v)
		}
	}
	return unk
}

// complete: every container is in once.
func (k kids) complete(f *Facts, into map[string]int) string {
	var miss []string
	for _, s := range []string{"static", "pattern", "wildcard"} {
		n := into[s]
		if n > 1 {
			return "a child is reported twice"
		}
		if n == 0 && !k.done(f, s, nil) || n == 0 && s != "wildcard" && !k.empty(f, s) {
			miss = append(miss, s)
		}
	}
	if len(miss) > 0 {
		return "not every child is reported: " + strings.Join(miss, ", ")
	}
	return ""
}

// empty: the path knows that the container has no children.
func (k kids) empty(f *Facts, where string) bool {
	field := map[string]string{"static": k.static, "pattern": k.pattern}[where]
	return f.find(func(t *Term) bool {
		return t.Op == "len" && isFieldNow(t.A[0], k.self, field) && f.eval(tEqC(t, 0)) == yes
	}) != nil
}

func (c *Checker) lists(typ, name string, k func(self *Term) kids) {
	rr := c.pureRun(typ, name, nil, nil)
	if rr == nil {
		return
	}
	ks := k(rr.ps[0])
	for i := range rr.outs {
		o := &rr.outs[i]
		if !c.quiet("all", name, o) {
			continue
		}
		into := map[string]int{}
		ks.trace = o.St.trace
		s := ks.collects(rr.ip, o.St.facts, o.Res[0], into)
		if s == "" {
			s = ks.complete(o.St.facts, into)
		}
		if s != "" && len(into) == 0 {
			// a complete list has no elements
			o.St.facts.terms(func(t *Term) {
				if t.Op == "len" || t.Op == "isnil" {
					m := map[string]int{}
					if o.St.facts.eval(tEqC(tLen(t.A[0]), 0)) == yes && ks.collects(rr.ip, o.St.facts, t.A[0], m) == "" && ks.complete(o.St.facts, m) == "" {
						s = ""
					}
				}
			})
		}
		c.ob(s == "", "all", typ+"."+name, c.at(o.In, o.Pos), "the list isn't the list of all children: %s", s)
		own := false
		for t := strip(o.Res[0]); t != nil; {
			if isFieldNow(t, ks.self, ks.pattern) {
				own = true
			}
			if t.Op == "append" || t.Op == "appendall" {
				t = strip(t.A[0])
				continue
			}
			break
		}
		c.ob(!own, "all", typ+"."+name+": copy", c.at(o.In, o.Pos), "the list that the responder itself keeps is given away")
	}
}

func (c *Checker) hasAny(typ, name string, k func(self *Term) kids) {
	rr := c.pureRun(typ, name, nil, nil)
	if rr == nil {
		return
	}
	ks := k(rr.ps[0])
	for i := range rr.outs {
		o := &rr.outs[i]
		if !c.quiet("any", name, o) {
			continue
		}
		conds := []*Term{tEqC(tLen(c.p.fld(ks.self, ks.static)), 0), tEqC(tLen(c.p.fld(ks.self, ks.pattern)), 0)}
		if ks.wild != "" {
			conds = append(conds, isNilT(c.p.fld(ks.self, ks.wild)))
		}
		var split func(f *Facts, i int, some bool)
		split = func(f *Facts, i int, some bool) {
			if i < len(conds) {
				fork(f, conds[i], func(f *Facts, none bool) { split(f, i+1, some || !none) })
				return
			}
			c.ob(f.eval(o.Res[0]) == triOf(some), "any", typ+"."+name, c.at(o.In, o.Pos), "the answer isn't whether there's a child [path: %s]", clip(f.String(), 300))
		}
		split(o.St.facts, 0, false)
	}
}

func (c *Checker) has(typ, name string, hosts bool, k func(self *Term) kids) {
	rr := c.pureRun(typ, name, set("ChildResources", "Hosts"), nil)
	if rr == nil {
		return
	}
	ks := k(rr.ps[0])
	x := rr.ps[1]
	seen := map[string]bool{}
	for j := range rr.ip.backedges {
		b := &rr.ip.backedges[j]
		e, where := ks.loopChild(b)
		if e == nil {
			c.ob(false, "has", name+": loop", c.at(b.Fn, b.Fn.Pos()), "a loop isn't about children")
			continue
		}
		seen[where] = true
		c.ob(!e.isNil() && b.St.facts.eval(tEq(x, e)) == no, "has", name+": next "+where, c.at(b.Fn, b.Fn.Pos()), "the search goes on though the child may be the one, or leaves it out")
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		if !c.quiet("has", name, o) {
			continue
		}
		at := c.at(o.In, o.Pos)
		fork(o.St.facts, o.Res[0], func(f *Facts, has bool) {
			if has {
				ok := f.eval(isNilT(x)) == no && f.find(func(t *Term) bool { return ks.source(t) != "" && f.eval(tEq(x, t)) == yes }) != nil
				c.ob(ok, "has", name+": yes", at, "the argument isn't known to be a child [path: %s]", clip(f.String(), 300))
				return
			}
			if f.eval(isNilT(x)) == yes {
				c.ob(true, "has", name+": nil", at, "")
				return
			}
			tmpl := c.tmplOf(x)
			c.containerOf(f, tmpl, hosts, func(f *Facts, where string) {
				ok := ks.done(f, where, seen)
				if where == "wildcard" {
					ok = ok || f.find(func(t *Term) bool { return ks.source(t) == "wildcard" && f.eval(tEq(x, t)) == no }) != nil
				}
				if where == "static" {
					ok = ok || f.find(func(t *Term) bool {
						return ks.source(t) == "key" && isQ(t.A[1], "UnescapedContent", tmpl) && f.eval(tEq(x, t)) == no
					}) != nil
				}
				c.ob(ok, "has", name+": no, "+where, at, "the answer is no though not every child was compared [path: %s]", clip(f.String(), 300))
			})
		})
	}
}

// rootKids are the responders directly below the router.
func (c *Checker) rootKids(self *Term) kids {
	k := c.hostKids(self)
	k.wild = c.p.rootField()
	return k
}

func checkP38(c *Checker) {
	p, r := c.p, c.r
	c.rule("up: the router, the host and the parent of a responder are found by following parents to the first one of the kind, or to the top")
	c.rule("all: a list of children has every child once, of all kinds, and isn't the list that the responder keeps")
	c.rule("any: there's a child if and only if a container isn't empty")
	c.rule("has: the argument is a child if and only if it's one of those in the container for its kind of template")
	c.rule("named: the child with the name, nil only when all were compared")
	c.rule("own: name and template are those the responder was made with")
	pure := set("parent")
	host, res := "Host", "Resource"
	_ = res
	is := func(typ string) func(f *Facts, x *Term) tri {
		return func(f *Facts, x *Term) tri {
			if f.eval(isNilT(x)) == yes {
				return no
			}
			return f.eval(mk("tyok", "*"+p.types.Name()+"."+typ, nil, x))
		}
	}
	id := func(x *Term) *Term { return x }
	if rr := c.pureRun("Resource", "Host", nil, pure); rr != nil {
		c.walk("up", "Resource.Host", rr, p.fld(rr.ps[0], r.papa), id, is(host), true)
	}
	if rr := c.pureRun("_ResponderBase", "Router", nil, pure); rr != nil {
		c.walk("up", "Router", rr, p.fld(rr.ps[0], r.papa), id, is("Router"), false)
	}
	if rr := c.pureRun("_ResponderBase", "isBelow", nil, pure); rr != nil {
		x := rr.ps[1]
		c.walk("up", "isBelow", rr, p.derivedOf(rr.ps[0]), func(*Term) *Term { return tBool(true) },
			func(f *Facts, y *Term) tri { return eqResp(f, x, y) }, false)
	}
	if rr := c.pureRun("Resource", "Parent", nil, nil); rr != nil {
		papa := p.fld(rr.ps[0], r.papa)
		for i := range rr.outs {
			o := &rr.outs[i]
			if !c.quiet("up", "Parent", o) {
				continue
			}
			fork(o.St.facts, isNilT(papa), func(f *Facts, none bool) {
				if none {
					c.ob(f.eval(isNilT(o.Res[0])) == yes, "up", "Parent: none", c.at(o.In, o.Pos), "a resource without a parent has one")
					return
				}
				fork(f, mk("tyok", "*"+p.types.Name()+".Resource", nil, papa), func(f *Facts, isRes bool) {
					if isRes {
						c.ob(sameResponder(o.Res[0], papa), "up", "Parent: resource", c.at(o.In, o.Pos), "the parent isn't returned")
					} else {
						c.ob(f.eval(isNilT(o.Res[0])) == yes, "up", "Parent: other", c.at(o.In, o.Pos), "what isn't a resource is returned as one")
					}
				})
			})
		}
	}
	for _, m := range []struct{ typ, name string }{{"_ResponderBase", "parent"}, {"Router", "parent"}, {"_ResponderBase", "Template"}, {"_ResponderBase", "Name"}} {
		rr := c.pureRun(m.typ, m.name, nil, nil)
		if rr == nil {
			continue
		}
		for i := range rr.outs {
			o := &rr.outs[i]
			if !c.quiet("own", m.name, o) {
				continue
			}
			got := strip(o.Res[0])
			ok := false
			switch {
			case m.typ == "Router":
				ok = o.St.facts.eval(isNilT(got)) == yes
			case m.name == "parent":
				ok = got == p.fld(rr.ps[0], r.papa)
			case m.name == "Template":
				ok = got == p.fld(rr.ps[0], r.tmpl)
			default:
				ok = got == c.nameOf(p.fld(rr.ps[0], r.tmpl))
			}
			c.ob(ok, "own", m.typ+"."+m.name, c.at(o.In, o.Pos), "what is returned isn't the responder's own [%s]", got)
		}
	}
	c.lists("_ResponderBase", "ChildResources", c.resourceKids)
	c.lists("_ResponderBase", "_Responders", c.resourceKids)
	c.lists("Router", "Hosts", c.hostKids)
	c.lists("Router", "_Responders", c.rootKids)
	c.hasAny("_ResponderBase", "HasAnyChildResources", c.resourceKids)
	c.hasAny("Router", "HasAnyHost", c.hostKids)
	c.has("_ResponderBase", "HasChildResource", false, c.resourceKids)
	c.has("Router", "HasHost", true, c.hostKids)
	c.byName("_ResponderBase", "ChildResourceNamed", c.resourceKids)
	c.byName("Router", "HostNamed", c.hostKids)
	c.min("up", 10)
	c.min("all", 4)
	c.min("any", 4)
	c.min("has", 6)
	c.min("named", 4)
	c.min("own", 4)
}

var _ types.Type

func init() {
	register("P38", "Every abstract path of the exported questions about the tree, and of the lists of responders that subtree operations use, is analysed. Judged: whether the answer follows from the containers and parents, with every child considered.", checkP38)
}
