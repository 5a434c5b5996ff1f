package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Names and templates are unique: among siblings and within a URL.

// kids describes the containers of children of a responder or of the router.
type kids struct {
	c                     *Checker
	self                  *Term
	static, pattern, wild string
	all                   string
	trace                 []*Event // of the path, if it's known
}

func (c *Checker) resourceKids(self *Term) kids {
	return kids{c, self, c.r.static, c.r.pattern, c.r.wild, "ChildResources", nil}
}

func (c *Checker) hostKids(self *Term) kids {
	s, p := c.p.hostFields()
	return kids{c, self, s, p, "", "Hosts", nil}
}

// isAll: the list of all children as the responder itself returns it.
func (k kids) isAll(l *Term) bool {
	l = strip(l)
	return l != nil && l.Op == "reg:"+k.all && sameResponder(l.A[0], k.self)
}

// source tells which container a value is an element of; "key" is a static
// child found by its key.
func (k kids) source(t *Term) string {
	t = strip(t)
	if t == nil {
		return ""
	}
	switch {
	case t.Op == "mapget" && isFieldNow(t.A[0], k.self, k.static):
		if t.A[1].Op == "rkey" {
			return "static"
		}
		return "key"
	case t.Op == "init" && t.A[0].Op == "iaddr":
		l := t.A[0].A[0]
		if isFieldNow(l, k.self, k.pattern) {
			return "pattern"
		}
		if k.isAll(l) {
			return "all"
		}
	}
	if k.wild != "" && isFieldNow(t, k.self, k.wild) {
		return "wildcard"
	}
	return ""
}

// element: the value is in the container for sure.
func (k kids) element(x *Term) bool {
	switch k.source(x) {
	case "static", "pattern", "all":
		return true
	}
	return false
}

// loopChild is the child that an iteration is about.
func (k kids) loopChild(b *BackEdge) (*Term, string) {
	f := b.St.facts
	var r *Term
	for t, v := range f.b {
		if t.Op == "lt" && t.Aux == "0" && v && sameLoop(t.A[0], b.Loop) && ascending(t.A[0]) && t.A[1].Op == "len" {
			l, i := t.A[1].A[0], t.A[0]
			r = f.find(func(t *Term) bool {
				return t.Op == "init" && t.A[0].Op == "iaddr" && t.A[0].A[0] == l && t.A[0].A[1] == i
			})
			if r == nil && (isFieldNow(l, k.self, k.pattern) || k.isAll(l)) {
				return tNil(), "pattern"
			}
			if r != nil && k.source(r) != "" {
				return r, k.source(r)
			}
		}
		if t.Op == "rok" && v && rangeLoop(t.Aux, b.Loop) && isFieldNow(t.A[0], k.self, k.static) {
			r = f.find(func(x *Term) bool {
				return x.Op == "mapget" && x.A[0] == t.A[0] && x.A[1].Op == "rkey" && x.A[1].Aux == t.Aux
			})
			if r == nil {
				return tNil(), "static"
			}
			return r, "static"
		}
	}
	return nil, ""
}

// rangeLoop: the iteration step is in the head of the loop.
func rangeLoop(site, loop string) bool {
	i := strings.LastIndex(loop, "/L")
	return i >= 0 && strings.HasPrefix(site, loop[:i]+"/"+loop[i+2:]+".")
}

// done: the path went through the whole container; seen are the containers
// whose loops were judged.
func (k kids) done(f *Facts, where string, seen map[string]bool) bool {
	if where != "all" && k.done(f, "all", seen) {
		return true
	}
	over := func(isList func(l *Term) bool) bool {
		for t, v := range f.b {
			if !v && t.Op == "lt" && t.Aux == "0" && ascending(t.A[0]) && t.A[1].Op == "len" && isList(t.A[1].A[0]) {
				return true
			}
		}
		// An index that goes down from the last element is below the first one.
		if f.find(func(t *Term) bool {
			if t.Op != "ind" || !strings.HasSuffix(t.Aux, "|0|-1") {
				return false
			}
			return f.find(func(l *Term) bool {
				return l.Op == "len" && isList(l.A[0]) && f.eval(tLt(tInt(0), tAdd(l, t))) == no
			}) != nil
		}) != nil {
			return true
		}
		return f.find(func(t *Term) bool {
			return t.Op == "len" && isList(t.A[0]) && f.eval(tEqC(t, 0)) == yes
		}) != nil
	}
	switch where {
	case "all":
		return over(k.isAll) && seen["all"]
	case "pattern":
		return over(func(l *Term) bool { return isFieldNow(l, k.self, k.pattern) })
	case "static":
		for t, v := range f.b {
			if !v && t.Op == "rok" && isFieldNow(t.A[0], k.self, k.static) {
				return true
			}
		}
		return f.find(func(t *Term) bool {
			return t.Op == "len" && isFieldNow(t.A[0], k.self, k.static) && f.eval(tEqC(t, 0)) == yes ||
				isFieldNow(t, k.self, k.static) && f.eval(isNilT(t)) == yes
		}) != nil
	case "wildcard":
		if k.wild == "" {
			return true
		}
		return f.find(func(t *Term) bool { return isFieldNow(t, k.self, k.wild) && f.eval(isNilT(t)) == yes }) != nil
	}
	return false
}

// now is the container's value as the path tests it.
func (k kids) wildNow(f *Facts) *Term {
	if k.wild == "" {
		return tNil()
	}
	if t := f.find(func(t *Term) bool { return isFieldNow(t, k.self, k.wild) }); t != nil {
		return t
	}
	return k.c.p.fld(k.self, k.wild)
}

func (c *Checker) tmplOf(x *Term) *Term { return c.p.fld(unbase(x), c.r.tmpl) }
func (c *Checker) nameOf(tmpl *Term) *Term {
	return c.p.fld(tmpl, "name")
}

// simIs: what the path knows about the similarity of two templates.
func (c *Checker) simIs(f *Facts, x, y *Term, names ...string) tri {
	ks := c.simConsts()
	var sims []*Term
	f.find(func(t *Term) bool {
		if t.Op == "call" && t.Aux == "SimilarityWith" && (t.A[0] == x && t.A[1] == y || t.A[0] == y && t.A[1] == x) {
			sims = append(sims, t)
		}
		return false
	})
	r := unk
	for _, s := range sims {
		some := no
		for _, n := range names {
			switch f.eval(tEqC(s, ks[n])) {
			case yes:
				return yes
			case unk:
				some = unk
			}
		}
		if some == no {
			r = no
		} else if f.oneOf(s, ks, names) {
			return yes
		}
	}
	return r
}

// oneOf: the value is known to be one of the named constants.
func (f *Facts) oneOf(s *Term, ks map[string]int64, names []string) bool {
	gs := []*Facts{f}
	for _, n := range names {
		var next []*Facts
		for _, g := range gs {
			next = append(next, g.assume(tEqC(s, ks[n]), false)...)
		}
		gs = next
	}
	return len(gs) == 0
}

func (c *Checker) simConsts() map[string]int64 {
	r := map[string]int64{}
	for _, n := range c.p.types.Scope().Names() {
		if k, ok := c.p.types.Scope().Lookup(n).(*types.Const); ok && named(k.Type(), "Similarity") {
			if v, ok := constant.Int64Val(k.Val()); ok {
				r[n] = v
			}
		}
	}
	for _, n := range []string{"TheSame", "DifferentNames", "DifferentValueNames", "Different"} {
		if _, ok := r[n]; !ok {
			c.undecided("Similarity."+n, "the constant was not found")
		}
	}
	return r
}

// withTemplate judges resourceWithTemplate and hostWithTemplate.
func (c *Checker) withTemplate(typ, name string, mk1 func(*Term) kids) {
	rr := c.regOf(typ, name)
	if rr == nil {
		return
	}
	k := mk1(rr.ps[0])
	tmpl := rr.ps[1]
	same := func(f *Facts, x *Term, where string) bool {
		xt := c.tmplOf(x)
		if f.eval(tEq(xt, tmpl)) == yes {
			return true
		}
		if where == "key" && isQ(strip(x).A[1], "UnescapedContent", tmpl) && f.eval(tEq(c.nameOf(xt), c.nameOf(tmpl))) == yes {
			return true
		}
		return c.simIs(f, xt, tmpl, "TheSame") == yes
	}
	conflict := func(f *Facts, x *Term, where string) bool {
		xt := c.tmplOf(x)
		if where == "key" && f.eval(tEq(c.nameOf(xt), c.nameOf(tmpl))) == no {
			return true
		}
		return c.simIs(f, xt, tmpl, "DifferentNames", "DifferentValueNames") == yes
	}
	differs := func(f *Facts, x *Term) bool {
		return c.simIs(f, c.tmplOf(x), tmpl, "TheSame", "DifferentNames", "DifferentValueNames") == no
	}
	seen := map[string]bool{}
	for i := range rr.ip.backedges {
		b := &rr.ip.backedges[i]
		x, where := k.loopChild(b)
		if x == nil {
			continue
		}
		seen[where] = true
		c.ob(!x.isNil() && differs(b.St.facts, x), "lookup", name+": next "+where, c.at(b.Fn, b.Fn.Pos()), "the search goes on though the child's template may be similar to the given one [path: %s]", clip(b.St.facts.String(), 300))
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		if o.Kind != "return" {
			c.ob(false, "lookup", name+": panics", at, "the query panics")
			continue
		}
		x, e := o.Res[0], o.Res[1]
		fork(o.St.facts, isNilT(e), func(f *Facts, ok bool) {
			if !ok {
				why := false
				for _, y := range c.childrenIn(f, k) {
					why = why || conflict(f, y, k.source(y))
				}
				c.ob(why, "lookup", name+": conflict", at, "a template is rejected without a conflict with a child's [path: %s]", clip(f.String(), 300))
				return
			}
			fork(f, isNilT(x), func(f *Facts, none bool) {
				if none && k.element(x) {
					return // the containers have no nil elements
				}
				if !none {
					where := k.source(x)
					c.ob(where != "" && same(f, x, where), "lookup", name+": found", at, "the result isn't known to be a child with the given template [path: %s]", clip(f.String(), 300))
					return
				}
				c.containerOf(f, tmpl, k.wild == "", func(f *Facts, where string) {
					ok := false
					switch where {
					case "static":
						ok = k.done(f, "static", seen) || f.find(func(t *Term) bool {
							return t.Op == "mapget" && k.source(t) == "key" && isQ(t.A[1], "UnescapedContent", tmpl) && f.eval(isNilT(t)) == yes
						}) != nil
					case "wildcard":
						w := k.wildNow(f)
						ok = f.eval(isNilT(w)) == yes || differs(f, w)
					case "pattern":
						ok = k.done(f, "pattern", seen)
					}
					c.ob(ok, "lookup", name+": none, "+where, at, "no child is reported though not every child with a %s template was considered [path: %s]", where, clip(f.String(), 300))
				})
			})
		})
	}
}

// childrenIn are the children that the facts are about.
func (c *Checker) childrenIn(f *Facts, k kids) []*Term {
	var r []*Term
	f.find(func(t *Term) bool {
		if k.source(t) != "" {
			r = append(r, t)
		}
		return false
	})
	return r
}

// byName judges ChildResourceNamed and HostNamed.
func (c *Checker) byName(typ, name string, mk1 func(*Term) kids) {
	rr := c.regOf(typ, name)
	if rr == nil {
		return
	}
	k := mk1(rr.ps[0])
	nm := rr.ps[1]
	seen := map[string]bool{}
	differs := func(f *Facts, x *Term) bool { return f.eval(tEq(c.nameOf(c.tmplOf(x)), nm)) == no }
	for i := range rr.ip.backedges {
		b := &rr.ip.backedges[i]
		x, where := k.loopChild(b)
		if x == nil {
			continue
		}
		seen[where] = true
		c.ob(!x.isNil() && differs(b.St.facts, x), "named", name+": next "+where, c.at(b.Fn, b.Fn.Pos()), "the search goes on though the child may have the name")
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		if o.Kind != "return" {
			c.ob(false, "named", name+": panics", at, "the query panics")
			continue
		}
		x := o.Res[0]
		fork(o.St.facts, isNilT(x), func(f *Facts, none bool) {
			if none && k.element(x) {
				return
			}
			if !none {
				c.ob(k.source(x) != "" && f.eval(tEq(c.nameOf(c.tmplOf(x)), nm)) == yes && f.eval(tEqC(tLen(nm), 0)) == no, "named", name+": found", at,
					"the result isn't known to be a child with the name")
				return
			}
			if f.eval(tEqC(tLen(nm), 0)) == yes {
				c.ob(true, "named", name+": no name", at, "")
				return
			}
			w := k.wildNow(f)
			ok := k.done(f, "static", seen) && k.done(f, "pattern", seen) &&
				(k.done(f, "wildcard", seen) || k.wild != "" && differs(f, w))
			c.ob(ok, "named", name+": none", at, "no child is reported though not every one was considered [path: %s]", clip(f.String(), 300))
		})
	}
}

// pureRun analyses a function in which the named methods are pure questions.
func (c *Checker) pureRun(typ, name string, opq, pure map[string]bool) *regRun {
	fn := c.p.actual(typ, name)
	if fn == nil {
		c.undecided(typ+"."+name, "the function was not found")
		return nil
	}
	ip := c.p.newInterp()
	ip.Model = c.p.regModel(opq, pure)
	ps := params(fn)
	outs := c.run(ip, newState(), fn, ps)
	if outs == nil {
		return nil
	}
	return &regRun{ip, outs, ps, fn}
}

// urlNames judges checkNamesAreUniqueInTheURL.
func (c *Checker) urlNames() {
	const name = "checkNamesAreUniqueInTheURL"
	rr := c.pureRun("_ResponderBase", name, set(name), set("parent"))
	if rr == nil {
		return
	}
	self, tmpl := rr.ps[0], rr.ps[1]
	nm := c.nameOf(tmpl)
	vns := mk("call", "ValueNames", nil, tmpl)
	isVNs := func(t *Term) bool { return t == vns || isQ(strip(t), "ValueNames", tmpl) }
	noValues := func(f *Facts) bool {
		return f.find(func(t *Term) bool {
			return isVNs(t) && (f.eval(isNilT(t)) == yes || f.eval(tEqC(tLen(t), 0)) == yes)
		}) != nil
	}
	noName := func(f *Facts) bool { return f.eval(tEqC(tLen(nm), 0)) == yes }
	// the responder x has other names
	clear := func(f *Facts, x *Term) bool {
		xt := c.tmplOf(x)
		if !noName(f) && f.eval(tEq(c.nameOf(xt), nm)) != no {
			return false
		}
		if noValues(f) {
			return true
		}
		return f.find(func(t *Term) bool {
			return t.Op == "call" && t.Aux == "HasValueName" && t.A[0] == xt && len(t.A) == 2 && isVNs(t.A[1]) && f.eval(t) == no
		}) != nil
	}
	isParent := func(t, x *Term) bool {
		t = strip(t)
		return t != nil && (t.Op == "call" && t.Aux == "parent" && sameResponder(t.A[0], x) ||
			t.Op == "init" && t.A[0].Op == "faddr" && t.A[0].Aux == c.r.papa && sameResponder(t.A[0].A[0], x))
	}
	good := map[*Term]bool{}
	for i := range rr.ip.backedges {
		b := &rr.ip.backedges[i]
		at := c.at(b.Fn, b.Fn.Pos())
		var w *Term
		for t, n := range b.Next {
			if isParent(n, t) {
				w = t
			}
		}
		if w == nil {
			c.ob(false, "url", "loop", at, "an iteration doesn't go on with the parent")
			continue
		}
		ok := sameResponder(b.Init[w], self)
		c.ob(ok, "url", "loop: start", at, "the search doesn't start at the responder itself")
		ok2 := clear(b.St.facts, w)
		c.ob(ok2, "url", "loop: next", at, "the search goes on though the responder may have the same name or a value with the same name [path: %s]", clip(b.St.facts.String(), 300))
		good[w] = true
	}
	notResponder := func(f *Facts, w *Term) bool {
		if f.eval(isNilT(w)) == yes {
			return true
		}
		for k, v := range f.b {
			if k.Op == "tyok" && k.A[0] == w {
				if !v && strings.HasSuffix(k.Aux, "._Responder") || v && strings.HasSuffix(k.Aux, ".Router") {
					return true
				}
			}
		}
		return false
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		outcomeOf(o, func(f *Facts, failed bool) {
			rec := regs(o.St.trace, name)
			if failed {
				why := false
				f.find(func(t *Term) bool {
					if t.Op == "call" && t.Aux == "HasValueName" && len(t.A) == 2 && isVNs(t.A[1]) && f.eval(t) == yes {
						why = true
					}
					if t.Op == "init" && t.A[0].Op == "faddr" && t.A[0].Aux == "name" && t != nm && f.eval(tEq(t, nm)) == yes && f.eval(tEqC(tLen(nm), 0)) == no {
						why = true
					}
					return false
				})
				for _, e := range rec {
					why = why || f.eval(isNilT(e.res(0))) != yes
				}
				c.ob(why, "url", "rejected", at, "names are rejected though none of them is in the URL")
				return
			}
			ok := noName(f) && noValues(f)
			for w := range good {
				ok = ok || notResponder(f, w)
			}
			for _, e := range rec {
				ok = ok || e.Args[1] == tmpl && isParent(e.Args[0], self) && clear(f, self) && f.eval(isNilT(e.res(0))) == yes
			}
			if !ok && clear(f, self) {
				t := f.find(func(t *Term) bool { return isParent(t, self) && notResponder(f, t) })
				ok = t != nil
			}
			c.ob(ok, "url", "accepted", at, "names are accepted before every responder up to the root of the URL was considered [path: %s]", clip(f.String(), 300))
		})
	}
}

// subtreeNames judges checkChildResourceNamesAreUniqueInURL.
func (c *Checker) subtreeNames() {
	const name = "checkChildResourceNamesAreUniqueInURL"
	rr := c.regOf("_ResponderBase", name)
	if rr == nil {
		return
	}
	self, res := rr.ps[0], rr.ps[1]
	k := c.resourceKids(res)
	checked := func(f *Facts, tr []*Event, x *Term) bool {
		n := 0
		for _, e := range regs(tr, "checkNamesAreUniqueInTheURL") {
			if sameResponder(e.Args[0], self) && e.Args[1] == c.tmplOf(x) && f.eval(isNilT(e.res(0))) == yes {
				n |= 1
			}
		}
		for _, e := range regs(tr, name) {
			if sameResponder(e.Args[0], self) && sameResponder(e.Args[1], x) && f.eval(isNilT(e.res(0))) == yes {
				n |= 2
			}
		}
		return n == 3
	}
	seen := map[string]bool{}
	for i := range rr.ip.backedges {
		b := &rr.ip.backedges[i]
		at := c.at(b.Fn, b.Fn.Pos())
		var x *Term
		for _, e := range regs(b.St.trace[b.Head:], name) {
			x = e.Args[1]
		}
		where := ""
		if x != nil {
			where = k.source(x)
			if l, i := elem(x); l != nil && !ascending(i) && !descending(i, l) {
				where = ""
			}
		}
		c.ob(where != "" && checked(b.St.facts, b.St.trace[b.Head:], x), "subtree", "loop: "+where, at, "the search goes on before the names of a child and of its own children were checked")
		seen[where] = true
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		outcomeOf(o, func(f *Facts, failed bool) {
			if failed {
				why := false
				for _, e := range regs(o.St.trace, "checkNamesAreUniqueInTheURL", name) {
					why = why || f.eval(isNilT(e.res(0))) != yes
				}
				c.ob(why, "subtree", "rejected", at, "the children are rejected though no name of theirs was")
				return
			}
			ok := k.done(f, "all", seen)
			if !ok {
				w := k.wildNow(f)
				ok = k.done(f, "static", seen) && k.done(f, "pattern", seen) && (seen["static"] && seen["pattern"]) &&
					(k.done(f, "wildcard", seen) || checked(f, o.St.trace, w))
			}
			c.ob(ok, "subtree", "accepted", at, "the children are accepted before every one of them was checked [path: %s]", clip(f.String(), 300))
		})
	}
}

// nilCheck: the event was successful, on what the event knew.
func okEvent(f *Facts, tr []*Event, name string, args ...*Term) bool {
	for _, e := range regs(tr, name) {
		if len(e.Args) != len(args) {
			continue
		}
		ok := true
		for i := range args {
			ok = ok && args[i] != nil && (e.Args[i] == args[i] || sameResponder(e.Args[i], args[i]))
		}
		if ok && f.eval(isNilT(e.res(len2(e)-1))) == yes {
			return true
		}
	}
	return false
}

func len2(e *Event) int {
	if e.Res != nil && e.Res.Op == "tuple" {
		return len(e.Res.A)
	}
	return 1
}

// valid: the template's names were checked against the responder's URL.
func (c *Checker) validated(f *Facts, tr []*Event, x, tmpl *Term) bool {
	return okEvent(f, tr, "validate", x, tmpl) || okEvent(f, tr, "checkNamesAreUniqueInTheURL", x, tmpl)
}

// before returns the trace up to the event.
func before(tr []*Event, e *Event) []*Event {
	for i, x := range tr {
		if x == e {
			return tr[:i]
		}
	}
	return tr
}

// noSibling: no child has the name.
func (c *Checker) noSibling(f *Facts, tr []*Event, lookup string, self, nm *Term) bool {
	if f.eval(tEqC(tLen(nm), 0)) == yes {
		return true
	}
	for _, e := range regs(tr, lookup) {
		if sameResponder(e.Args[0], self) && e.Args[1] == nm && f.eval(isNilT(e.res(0))) == yes {
			return true
		}
	}
	return false
}

// segments judges segmentResources.
func (c *Checker) segments() {
	rr := c.regOf("_ResponderBase", "segmentResources")
	if rr == nil {
		return
	}
	// every new resource, on back edges and on paths out of the loop
	judge := func(f *Facts, tr []*Event, at string) {
		for _, e := range regs(tr, "newDormantResource", "createDormantResource") {
			tmpl, r := e.Args[0], e.res(0)
			var olds []*Term
			for _, v := range regs(tr, "validate", "checkNamesAreUniqueInTheURL") {
				if (v.Args[1] == tmpl || v.Args[1] == c.tmplOf(r)) && f.eval(isNilT(v.res(0))) == yes {
					olds = append(olds, v.Args[0])
				}
			}
			under := regs(tr, "registerResource")
			var ins *Event
			for _, u := range under {
				if sameResponder(u.Args[1], r) {
					ins = u
				}
			}
			if ins != nil {
				// below another new resource: checked against it and against
				// the last registered one
				okNew, okOld := false, false
				for _, x := range olds {
					if sameResponder(x, ins.Args[0]) {
						okNew = true
					} else {
						okOld = true
					}
				}
				c.ob(okNew && okOld, "segments", "next new segment", at, "a new segment's names aren't checked against both the new and the registered segments before it")
				c.ob(f.eval(isNilT(ins.res(0))) == yes, "segments", "next new segment: registered", at, "a new segment counts as registered though it wasn't")
				continue
			}
			c.ob(len(olds) > 0, "segments", "first new segment: URL", at, "the first new segment's names aren't checked against the registered segments before it")
			ok := false
			for _, x := range olds {
				ok = ok || c.noSibling(f, tr, "ChildResourceNamed", x, c.nameOf(tmpl))
			}
			c.ob(ok, "segments", "first new segment: sibling", at, "the first new segment's name isn't checked against its siblings'")
		}
	}
	for i := range rr.ip.backedges {
		b := &rr.ip.backedges[i]
		judge(b.St.facts, b.St.trace[b.Head:], c.at(b.Fn, b.Fn.Pos()))
	}
	c.min("segments", 1)
}

// hostBefore: the last registered responder on a path is the host that the
// path is under when it's a host at all, as the argument of registerHost is; the
// others are resources.
func (c *Checker) hostBefore(h *Term, tr []*Event) *Term {
	for _, s := range regs(tr, "pathSegmentResources", "segmentResources") {
		if sameResponder(s.res(0), h) {
			return s.Args[0]
		}
	}
	return nil
}

// insertions: before a responder gets into the tree, its names and its
// children's were checked.
func (c *Checker) insertions() {
	analysed := map[*ssa.Function]bool{}
	note := func(rr *regRun) {
		for f := range rr.ip.analysed {
			analysed[f] = true
		}
	}
	every := func(rr *regRun, k func(e *Event, tr []*Event, at string)) {
		done := map[*Event]bool{}
		go1 := func(tr []*Event) {
			for _, e := range tr {
				if e.Kind == "reg" && !done[e] {
					done[e] = true
					k(e, before(tr, e), c.at(e.In, e.Pos))
				}
			}
		}
		for i := range rr.outs {
			go1(rr.outs[i].St.trace)
		}
		for i := range rr.ip.backedges {
			go1(rr.ip.backedges[i].St.trace)
		}
	}
	type fnID struct{ typ, name string }
	for _, x := range []fnID{
		{"_ResponderBase", "keepResourceOrItsChildResources"}, {"_ResponderBase", "registerResourceUnder"}, {"_ResponderBase", "RegisterResource"},
		{"_ResponderBase", "RegisterResourceUnder"}, {"_ResponderBase", "Resource"}, {"_ResponderBase", "ResourceUsingConfig"},
		{"Router", "RegisterResource"}, {"Router", "RegisterResourceUnder"}, {"Router", "Resource"}, {"Router", "ResourceUsingConfig"},
		{"Router", "_Responder"}, {"Router", "Host"}, {"Router", "HostUsingConfig"}, {"Router", "RegisterHost"},
	} {
		rr := c.regOf(x.typ, x.name)
		if rr == nil {
			continue
		}
		note(rr)
		id := x.typ + "." + x.name
		every(rr, func(e *Event, tr []*Event, at string) {
			f := e.NFacts
			switch e.Name {
			case "keepResourceOrItsChildResources":
				to, r := e.Args[0], e.Args[1]
				c.ob(c.validated(f, tr, to, c.tmplOf(r)), "insertion", id+": names", at, "a resource gets into the tree before its names were checked against the URL [path: %s]", clip(f.String(), 300))
				c.ob(okEvent(f, tr, "checkChildResourceNamesAreUniqueInURL", to, r), "insertion", id+": children's names", at, "a resource gets into the tree before the names of its children were checked against the URL")
			case "registerHost":
				h := e.Args[1]
				ok := c.noSibling(f, tr, "HostNamed", e.Args[0], c.nameOf(c.tmplOf(h)))
				if g := c.hostBefore(h, tr); g != nil && !ok {
					ok = c.noSibling(f, tr, "HostNamed", e.Args[0], c.nameOf(c.tmplOf(g)))
				}
				c.ob(ok, "insertion", id+": host name", at, "a host gets into the tree before its name was compared with the other hosts'")
			case "registerResource":
				to, r := e.Args[0], e.Args[1]
				if x.name == "keepResourceOrItsChildResources" {
					c.ob(c.noSibling(f, tr, "ChildResourceNamed", to, c.nameOf(c.tmplOf(r))), "insertion", id+": siblings", at, "a resource gets into the tree before its name was compared with its siblings'")
					return
				}
				// the new segments of a path: checked when they were made
				for _, s := range regs(tr, "pathSegmentResources", "segmentResources") {
					if sameResponder(s.res(0), to) && sameResponder(s.res(1), r) {
						c.ob(true, "insertion", id+": new segments", at, "")
						return
					}
				}
				for _, s := range regs(tr, "pathSegmentResources", "segmentResources") {
					if sameResponder(s.res(2), to) {
						ok := true
						for _, y := range []*Term{s.res(0), s.res(2)} {
							ok = ok && c.validated(f, tr, y, c.tmplOf(r)) && okEvent(f, tr, "checkChildResourceNamesAreUniqueInURL", y, r)
						}
						c.ob(ok, "insertion", id+": under new segments", at, "a resource gets below new segments before its names and its children's were checked against both the new and the registered segments")
						return
					}
				}
				c.ob(false, "insertion", id+": unknown", at, "a resource gets into the tree unchecked")
			}
		})
	}
	// nothing else inserts
	ok := map[*ssa.Function]bool{}
	for _, x := range []fnID{{"_ResponderBase", "passChildResourcesTo"}, {"_ResponderBase", "segmentResources"}} {
		if f := c.p.actual(x.typ, x.name); f != nil {
			ok[f] = true
			analysed[f] = true
			rr := c.regOf(x.typ, x.name)
			if rr != nil {
				note(rr)
			}
		}
	}
	ins := set("registerResource", "registerHost", "keepResourceOrItsChildResources")
	for _, f := range c.p.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, isCall := in.(ssa.CallInstruction)
				if !isCall {
					continue
				}
				n := ""
				if cc := call.Common(); cc.IsInvoke() {
					if c.p.inPkgType(cc.Value.Type()) {
						n = cc.Method.Name()
					}
				} else if g := cc.StaticCallee(); g != nil && c.p.inPkg(g) && g.Synthetic == "" {
					n = g.Name()
				}
				if !ins[n] || f.Synthetic != "" {
					continue
				}
				c.ob(analysed[f], "insertion", c.p.short(f)+" inserts", c.at(f, in.Pos()), "a function that wasn't analysed puts responders into the tree")
			}
		}
	}
	c.min("insertion", 10)
}

func (c *Checker) validateSpec() {
	rr := c.regOf("_ResponderBase", "validate")
	if rr == nil {
		return
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		outcomeOf(o, func(f *Facts, failed bool) {
			if failed {
				return
			}
			c.ob(f.eval(isNilT(rr.ps[1])) == no && okEvent(f, o.St.trace, "checkNamesAreUniqueInTheURL", rr.ps[0], rr.ps[1]), "url", "validate", at, "a template is accepted whose names weren't checked")
		})
	}
}

func checkP19(c *Checker) {
	c.rule("lookup: a child is found by a template only when its template is the same, an error only when the names conflict, and nothing only after every child of that kind was considered")
	c.rule("named: a child is found by a name only when it has the name, and nothing only after every child was considered")
	c.rule("url: names are accepted only after every responder up to the host or root has other names, and rejected only when one hasn't")
	c.rule("subtree: the names of every descendant are checked")
	c.rule("segments: the names of every new segment are checked against the registered and the new segments above it and its siblings")
	c.rule("insertion: nothing gets into the tree before its names, its descendants' and its siblings' were checked")
	c.withTemplate("_ResponderBase", "resourceWithTemplate", c.resourceKids)
	c.withTemplate("Router", "hostWithTemplate", c.hostKids)
	c.byName("_ResponderBase", "ChildResourceNamed", c.resourceKids)
	c.byName("Router", "HostNamed", c.hostKids)
	c.urlNames()
	c.validateSpec()
	c.subtreeNames()
	c.segments()
	c.insertions()
	c.min("lookup", 6)
	c.min("named", 3)
	c.min("url", 2)
	c.min("subtree", 1)
}

func init() {
	register("P19", "Every abstract path of the searches for templates and names and of the functions that register responders is analysed; searches are loops whose every iteration and exit is judged.", checkP19)
}
