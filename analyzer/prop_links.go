package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The links between responders: containers of children and the parent.

// slotOf finds the value kept in a map under a key at the end of a path.
func slotOf(st *State, m, k *Term) *Term {
	for a, v := range st.mem {
		if a.Op == "mapslot" && a.A[0] == m && a.A[1] == k {
			return v
		}
	}
	return nil
}

// changedSlots are the map slots that the path wrote, as (map, key).
func changedSlots(st *State) []*Term {
	var r []*Term
	for a := range st.mem {
		if a.Op == "mapslot" {
			r = append(r, a)
		}
	}
	return r
}

// contents describes how a path changed a container of children.
type childStore struct {
	where string // static, pattern, wildcard, root
	key   *Term
	kid   *Term
	how   string // "", or what's wrong
}

// childStores lists what the path put into the responder's containers.
func (c *Checker) childStores(o *Outcome, self *Term, static, pattern, wild string) []childStore {
	p := c.p
	var r []childStore
	old := p.fld(self, static)
	cur := memOf(o.St, self, static)
	if cur == nil {
		cur = old
	}
	lost := cur != old && o.St.facts.eval(tEqC(tLen(old), 0)) != yes && o.St.facts.eval(isNilT(old)) != yes
	n := 0
	for _, a := range changedSlots(o.St) {
		if a.A[0] != cur && a.A[0] != old {
			continue
		}
		n++
		x := childStore{where: "static", key: a.A[1], kid: o.St.mem[a]}
		if a.A[0] != cur {
			x.how = "it's put into a map that's replaced"
		}
		if lost {
			x.how = "the map with the other children is replaced"
		}
		r = append(r, x)
	}
	if lost && n == 0 {
		r = append(r, childStore{where: "static", kid: cur, how: "the map of children is replaced"})
	}
	oldp := p.fld(self, pattern)
	if v := memOf(o.St, self, pattern); v != nil && v != oldp {
		x := childStore{where: "pattern", kid: v}
		if v.Op == "append" && len(v.A) == 2 && v.A[0] == oldp {
			x.kid = v.A[1]
		} else {
			x.how = "it isn't added behind the others"
		}
		r = append(r, x)
	}
	for a, v := range o.St.mem {
		if a.Op == "iaddr" && a.A[0] == oldp {
			r = append(r, childStore{where: "pattern", key: a.A[1], kid: v})
		}
	}
	if wild != "" {
		if v := memOf(o.St, self, wild); v != nil && v != p.fld(self, wild) {
			r = append(r, childStore{where: "wildcard", kid: v})
		}
	}
	return r
}

func tmplQ(q string, tmpl *Term) *Term {
	if strings.HasPrefix(q, "Is") {
		return mk("call", q, boolT, tmpl)
	}
	return mk("call", q, nil, tmpl)
}

func isQ(t *Term, q string, tmpl *Term) bool {
	return t != nil && t.Op == "call" && t.Aux == q && len(t.A) == 1 && t.A[0] == tmpl
}

// containerOf follows the kind of a template.
func (c *Checker) containerOf(f *Facts, tmpl *Term, hosts bool, k func(f *Facts, where string)) {
	fork(f, tmplQ("IsStatic", tmpl), func(f *Facts, v bool) {
		if v {
			k(f, "static")
			return
		}
		if hosts {
			k(f, "pattern")
			return
		}
		fork(f, tmplQ("IsWildcard", tmpl), func(f *Facts, v bool) {
			if v {
				k(f, "wildcard")
				return
			}
			k(f, "pattern")
		})
	})
}

func (c *Checker) parentIs(o *Outcome, kid, self *Term) bool {
	v := memOf(o.St, kid, c.r.papa)
	if v == nil || !sameResponder(v, self) {
		return false
	}
	// the embedding host or resource, not the base itself
	if named(self.T, "_ResponderBase") {
		for ; v.Op == "iface" || v.Op == "ta"; v = v.A[0] {
		}
		return v.Op == "derived"
	}
	return true
}

// inserts judges registerResource and registerHost.
func (c *Checker) inserts(typ, name, static, pattern, wild string) {
	rr := c.regOf(typ, name)
	if rr == nil {
		return
	}
	p := c.p
	self, kid := rr.ps[0], rr.ps[1]
	tmpl := p.fld(kid, c.r.tmpl)
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		outcomeOf(o, func(f *Facts, failed bool) {
			if failed {
				return
			}
			c.ob(c.parentIs(o, kid, self), "insert", name+": parent", at, "a registered child doesn't get the responder as its parent [path: %s]", clip(f.String(), 300))
			cs := c.childStores(o, self, static, pattern, wild)
			c.containerOf(f, tmpl, wild == "", func(f *Facts, where string) {
				ok := len(cs) == 1 && cs[0].where == where && cs[0].kid == kid && cs[0].how == "" &&
					(where != "static" || isQ(cs[0].key, "UnescapedContent", tmpl)) && (where != "pattern" || cs[0].key == nil)
				c.ob(ok, "insert", name+": "+where, at, "a child with a %s template isn't kept where such children are looked up %s", where, describe(cs))
			})
		})
	}
}

func describe(cs []childStore) string {
	s := ""
	for _, x := range cs {
		s += "[" + x.where + " " + x.how + "]"
	}
	return s
}

// replaces judges replaceResource and replaceHost.
func (c *Checker) replaces(typ, name, static, pattern, wild string) {
	rr := c.regOf(typ, name)
	if rr == nil {
		return
	}
	p := c.p
	self, old, kid := rr.ps[0], rr.ps[1], rr.ps[2]
	tmpl := p.fld(old, c.r.tmpl)
	list := p.fld(self, pattern)
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		outcomeOf(o, func(f *Facts, failed bool) {
			if failed {
				return
			}
			// the two are replaced for one another only when their templates
			// are the same, so it doesn't matter which one is asked
			tmpl := tmpl
			if x := p.fld(kid, c.r.tmpl); f.find(func(t *Term) bool { return isQ(t, "IsStatic", x) }) != nil {
				tmpl = x
			}
			cs := c.childStores(o, self, static, pattern, wild)
			if len(cs) == 1 && cs[0].where == "pattern" && cs[0].key != nil {
				if n, ok := cs[0].key.intVal(); ok && n < 0 {
					return // the old child isn't among the children
				}
				if exhausted(f, list) && f.find(func(t *Term) bool {
					return t.Op == "init" && t.A[0].Op == "iaddr" && t.A[0].A[0] == list && t.A[0].A[1] == cs[0].key
				}) == nil {
					return // neither
				}
			}
			if len(cs) == 0 && exhausted(f, list) && f.eval(tmplQ("IsStatic", tmpl)) == no {
				return
			}
			c.ob(c.parentIs(o, kid, self), "replace", name+": new parent", at, "the child that replaces another one doesn't get the responder as its parent")
			v := memOf(o.St, old, c.r.papa)
			c.ob(v != nil && v.isNil(), "replace", name+": old parent", at, "a replaced child keeps its parent")
			c.containerOf(f, tmpl, wild == "", func(f *Facts, where string) {
				ok := len(cs) == 1 && cs[0].where == where && cs[0].kid == kid && (cs[0].how == "" || where == "pattern" && cs[0].key != nil)
				switch {
				case ok && where == "static":
					ok = isQ(cs[0].key, "UnescapedContent", tmpl)
				case ok && where == "pattern":
					ok = cs[0].key != nil
					if ok {
						e := f.find(func(t *Term) bool {
							return t.Op == "init" && t.A[0].Op == "iaddr" && t.A[0].A[0] == list && t.A[0].A[1] == cs[0].key
						})
						ok = e != nil && f.eval(tEq(e, old)) == yes
					}
				}
				c.ob(ok, "replace", name+": "+where, at, "a child with a %s template isn't replaced in its own place %s", where, describe(cs))
			})
		})
	}
}

func (c *Checker) setParentSpec() {
	rr := c.regOf("_ResponderBase", "setParent")
	if rr == nil {
		return
	}
	p := c.p
	self, par := rr.ps[0], rr.ps[1]
	der := mk("derived", "", nil, self)
	_ = der
	root := tEq(mk("call", "UnescapedContent", nil, p.fld(self, c.r.tmpl)), tStr("/"))
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		v := memOf(o.St, self, c.r.papa)
		outcomeOf(o, func(f *Facts, failed bool) {
			if failed {
				c.ob(v == nil || v == p.fld(self, c.r.papa), "parent", "setParent: rejected", at, "a rejected parent is set")
				return
			}
			c.ob(v != nil && (v == par || v.isNil() && f.eval(isNilT(par)) == yes), "parent", "setParent: accepted", at, "the parent isn't set")
			fork(f, isNilT(par), func(f *Facts, isnil bool) {
				if isnil {
					return
				}
				ro := p.tyAtom(f, par, "Router")
				if ro == yes {
					return
				}
				c.ob(f.eval(root) == no, "parent", "setParent: root", at, "the root resource gets a parent that isn't a router")
				h := p.tyAtom(f, p.fld(self, p.derivedField), "Host")
				c.ob(h == no, "parent", "setParent: host", at, "a host gets a parent that isn't a router")
			})
		})
	}
}

// tyAtom: what the path knows about a value being of the pointer type.
func (p *Prog) tyAtom(f *Facts, x *Term, typ string) tri {
	want := "*" + p.types.Name() + "." + typ
	for k, v := range f.b {
		if k.Op == "tyok" && k.Aux == want && sameResponder(k.A[0], x) {
			return triOf(v)
		}
	}
	for k, v := range f.ty {
		if sameResponder(k, x) {
			return triOf(v == want)
		}
	}
	return unk
}

// passes judges passChildResourcesTo.
func (c *Checker) passes() {
	rr := c.regOf("_ResponderBase", "passChildResourcesTo")
	if rr == nil {
		return
	}
	p, r := c.p, c.r
	self, to := rr.ps[0], rr.ps[1]
	lists := map[string]*Term{"static": p.fld(self, r.static), "pattern": p.fld(self, r.pattern), "all": nil}
	seen := map[string]bool{}
	for i := range rr.ip.backedges {
		b := &rr.ip.backedges[i]
		at := c.at(b.Fn, b.Fn.Pos())
		es := regs(b.St.trace[b.Head:], "keepResourceOrItsChildResources")
		if len(es) != 1 || !sameResponder(es[0].Args[0], to) {
			c.ob(false, "pass", "loop", at, "an iteration doesn't give exactly one child to the other responder")
			continue
		}
		k := c.childSource(es[0].Args[1], self, lists)
		c.ob(k != "", "pass", "child", at, "what's given to the other responder isn't a child of this one")
		c.ob(b.St.facts.eval(isNilT(es[0].res(0))) == yes, "pass", "error", at, "the children are passed on though one of them was rejected")
		seen[k] = true
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		outcomeOf(o, func(f *Facts, failed bool) {
			if failed {
				ok := false
				for _, e := range regs(o.St.trace) {
					ok = ok || f.eval(isNilT(e.res(0))) == no || f.eval(isNilT(e.res(0))) == unk
				}
				c.ob(ok, "pass", "failure", at, "an error is returned though no child was rejected")
				return
			}
			all := c.sourceDone(f, self, "all", seen, lists)
			c.ob(all || c.sourceDone(f, self, "static", seen, lists), "pass", "every static child", at, "not every static child is passed")
			c.ob(all || c.sourceDone(f, self, "pattern", seen, lists), "pass", "every pattern child", at, "not every child with a pattern is passed")
			w := c.wildNow(o, self)
			fork(f, isNilT(w), func(f *Facts, none bool) {
				if none || all {
					return
				}
				ok := false
				for _, e := range regs(o.St.trace, "keepResourceOrItsChildResources") {
					ok = ok || sameResponder(e.Args[0], to) && isWild(e.Args[1], self, r.wild) && f.eval(isNilT(e.res(0))) == yes
				}
				c.ob(ok, "pass", "the wildcard child", at, "the wildcard child isn't passed")
			})
			for _, n := range []string{r.static, r.pattern, r.wild} {
				v := memOf(o.St, self, n)
				if v == nil && n == r.wild && f.eval(isNilT(p.fld(self, n))) == yes {
					continue // there was none, and only others got children
				}
				empty := v != nil && (v.isNil() || v.Op == "mkmap" && slotless(o.St, v))
				c.ob(empty, "pass", "emptied: "+n, at, "the responder keeps the children that it passed on")
			}
		})
	}
	c.min("pass", 3)
}

func slotless(st *State, m *Term) bool {
	for a := range st.mem {
		if a.Op == "mapslot" && a.A[0] == m {
			return false
		}
	}
	return true
}

// isFieldNow recognises the field's value, before or after other functions
// were called.
func isFieldNow(t, self *Term, field string) bool {
	t = strip(t)
	if t.Op == "fld" {
		return t.Aux == field && sameResponder(t.A[0], self)
	}
	if t.Op == "widen" || t.Op == "init" {
		a := t.A[0]
		return a.Op == "faddr" && a.Aux == field && sameResponder(a.A[0], self)
	}
	return false
}

func isWild(t, self *Term, field string) bool { return isFieldNow(t, self, field) }

func (c *Checker) wildNow(o *Outcome, self *Term) *Term {
	// the value tested on the path
	if t := o.St.facts.find(func(t *Term) bool { return isFieldNow(t, self, c.r.wild) }); t != nil {
		return t
	}
	return c.p.fld(self, c.r.wild)
}

// childSource tells which container a value is an element of.
func (c *Checker) childSource(t, self *Term, lists map[string]*Term) string {
	t = strip(t)
	switch {
	case t.Op == "mapget" && isFieldNow(t.A[0], self, c.r.static):
		if t.A[1].Op == "rkey" {
			return "static"
		}
	case t.Op == "init" && t.A[0].Op == "iaddr":
		l, i := t.A[0].A[0], t.A[0].A[1]
		if !ascending(i) {
			return ""
		}
		if isFieldNow(l, self, c.r.pattern) {
			return "pattern"
		}
		if e := strip(l); strings.HasPrefix(e.Op, "reg:ChildResources") && sameResponder(e.A[0], self) {
			return "all"
		}
	}
	return ""
}

// sourceDone: the path left the loop over the container at its end.
func (c *Checker) sourceDone(f *Facts, self *Term, kind string, seen map[string]bool, lists map[string]*Term) bool {
	switch kind {
	case "all":
		for k, v := range f.b {
			if !v && k.Op == "lt" && k.Aux == "0" && ascending(k.A[0]) && k.A[1].Op == "len" &&
				strings.HasPrefix(strip(k.A[1].A[0]).Op, "reg:ChildResources") {
				return seen["all"]
			}
		}
		return false
	case "pattern":
		for k, v := range f.b {
			if !v && k.Op == "lt" && k.Aux == "0" && ascending(k.A[0]) && k.A[1].Op == "len" && isFieldNow(k.A[1].A[0], self, c.r.pattern) {
				return seen["pattern"]
			}
		}
		return f.find(func(t *Term) bool {
			return t.Op == "len" && isFieldNow(t.A[0], self, c.r.pattern) && f.eval(tEqC(t, 0)) == yes
		}) != nil
	case "static":
		for k, v := range f.b {
			if !v && k.Op == "rok" && isFieldNow(k.A[0], self, c.r.static) {
				return seen["static"]
			}
		}
		return f.find(func(t *Term) bool {
			return t.Op == "len" && isFieldNow(t.A[0], self, c.r.static) && f.eval(tEqC(t, 0)) == yes
		}) != nil
	}
	return false
}

// keeps judges keepResourceOrItsChildResources, RegisterHost and
// registerNewRoot: what happens to a responder whose template is already in
// use.
func (c *Checker) keeps(typ, name, lookup, sibling, insert, replace string) {
	rr := c.regOf(typ, name)
	if rr == nil {
		return
	}
	p, r := c.p, c.r
	self, kid := rr.ps[0], rr.ps[1]
	can := func(x *Term) *Term { return p.canHandle(x) }
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		f := o.St.facts
		changes := regs(o.St.trace, insert, replace, "passChildResourcesTo")
		lk := regs(o.St.trace, lookup)
		if len(lk) == 0 {
			outcomeOf(o, func(f *Facts, failed bool) {
				c.ob(failed && len(changes) == 0, "keep", name+": lookup", at, "a responder is registered without a look for one with the same template")
			})
			continue
		}
		e := lk[0]
		c.ob(sameResponder(e.Args[0], self) && e.Args[1] == p.fld(kid, r.tmpl), "keep", name+": lookup arguments", at, "the responder with the same template isn't looked up among this one's children")
		rwt, lerr := e.res(0), e.res(1)
		ok := true
		for _, ch := range changes {
			for _, x := range ch.Args {
				ok = ok && (sameResponder(x, self) || sameResponder(x, kid) || sameResponder(x, rwt))
			}
		}
		seq := func() string {
			s := []string{}
			for _, ch := range changes {
				x := ch.Name + "("
				for _, a := range ch.Args {
					switch {
					case sameResponder(a, self):
						x += "s"
					case sameResponder(a, kid):
						x += "k"
					case sameResponder(a, rwt):
						x += "o"
					default:
						x += "?"
					}
				}
				s = append(s, x+")")
			}
			return strings.Join(s, " ")
		}()
		outcomeOf(o, func(f *Facts, failed bool) {
			if failed {
				why := false
				for _, x := range regs(o.St.trace) {
					r := x.Res
					if r != nil && r.Op == "tuple" {
						r = r.A[len(r.A)-1]
					}
					if r != nil && r.T != nil && (isErr(r.T) || x.Name == sibling) {
						why = why || f.eval(isNilT(r)) != yes
					}
				}
				why = why || f.eval(can(kid)) == yes && f.eval(can(rwt)) == yes
				c.ob(why, "keep", name+": rejected", at, "a responder is rejected without a conflict, though a registered one without handlers has to be replaced [path: %s]", clip(f.String(), 300))
				return
			}
			c.ob(f.eval(isNilT(lerr)) == yes, "keep", name+": conflict", at, "a responder whose template conflicts with a registered one is accepted")
			for _, ch := range changes {
				c.ob(f.eval(isNilT(ch.res(0))) == yes, "keep", name+": error of "+ch.Name, at, "the responder counts as registered though a step failed")
			}
			fork(f, isNilT(rwt), func(f *Facts, none bool) {
				if none {
					c.ob(seq == insert+"(sk)", "keep", name+": new", at, "a responder with a new template isn't registered: %s", seq)
					return
				}
				fork(f, can(kid), func(f *Facts, can1 bool) {
					if !can1 {
						c.ob(seq == "passChildResourcesTo(ko)", "keep", name+": only its children", at,
							"a responder without handlers doesn't hand its children to the registered one: %s", seq)
						return
					}
					fork(f, can(rwt), func(f *Facts, can2 bool) {
						if can2 {
							c.ob(false, "keep", name+": duplicate", at, "two responders with handlers and the same template are accepted: %s", seq)
							return
						}
						c.ob(seq == "passChildResourcesTo(ok) "+replace+"(sok)", "keep", name+": replaced", at,
							"a registered responder without handlers isn't replaced, or loses its children: %s", seq)
					})
				})
			})
		})
		_ = f
	}
}

// canHandle is the condition that a responder has HTTP method handlers.
func (p *Prog) canHandle(x *Term) *Term {
	rhb := p.fld(unbase(x), p.roles.rhb)
	return tAnd(tNot(isNilT(rhb)), tLt(tInt(0), tLen(p.fld(rhb, p.roles.pairs))))
}

func (c *Checker) roots() {
	p, r := c.p, c.r
	ro := p.rootField()
	if ro == "" {
		c.undecided("Router", "the router's root resource was not found")
		return
	}
	if rr := c.regOf("Router", "initializeRootResource"); rr != nil {
		for i := range rr.outs {
			o := &rr.outs[i]
			at := c.at(o.In, o.Pos)
			if o.Kind != "return" {
				continue
			}
			v := memOf(o.St, rr.ps[0], ro)
			c.ob(v != nil && strings.HasPrefix(v.Op, "reg:newRoot") || v != nil && v.Op == "alloc", "root", "implicit: created", at, "the root resource isn't created")
			if v != nil {
				c.ob(c.parentIs(o, v, rr.ps[0]), "root", "implicit: parent", at, "the implicitly created root resource doesn't get the router as its parent")
			}
		}
	}
	rr := c.regOf("Router", "registerNewRoot")
	if rr == nil {
		return
	}
	self, kid := rr.ps[0], rr.ps[1]
	old := p.fld(self, ro)
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		outcomeOf(o, func(f *Facts, failed bool) {
			v := memOf(o.St, self, ro)
			changed := v != nil && v != old
			if failed {
				c.ob(!changed, "root", "rejected", at, "a rejected root resource is kept")
				return
			}
			pass := regs(o.St.trace, "passChildResourcesTo")
			for _, e := range pass {
				c.ob(f.eval(isNilT(e.res(0))) == yes, "root", "error", at, "the root resource counts as registered though a step failed")
			}
			if changed {
				c.ob(sameResponder(v, kid) && c.parentIs(o, kid, self), "root", "new: parent", at, "the registered root resource doesn't get the router as its parent")
			}
			fork(f, isNilT(old), func(f *Facts, none bool) {
				if none {
					c.ob(changed && len(pass) == 0, "root", "new", at, "the first root resource isn't kept")
					return
				}
				fork(f, p.canHandle(kid), func(f *Facts, can bool) {
					if !can {
						c.ob(!changed && len(pass) == 1 && sameResponder(pass[0].Args[0], kid) && sameResponder(pass[0].Args[1], old), "root", "only its children", at,
							"a root resource without handlers doesn't hand its children to the registered one")
						return
					}
					fork(f, p.canHandle(old), func(f *Facts, can bool) {
						if can {
							c.ob(false, "root", "duplicate", at, "two root resources with handlers are accepted")
							return
						}
						c.ob(changed && len(pass) == 1 && sameResponder(pass[0].Args[0], old) && sameResponder(pass[0].Args[1], kid), "root", "replaced", at,
							"a registered root resource without handlers isn't replaced, or loses its children")
						ov := memOf(o.St, old, r.papa)
						c.ob(ov != nil && ov.isNil(), "root", "replaced: parent", at, "a replaced root resource keeps its parent")
					})
				})
			})
		})
	}
}

// rootField is the router's field with its root resource.
func (p *Prog) rootField() string {
	s := p.structOf("Router")
	if s == nil {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if p.isPtrTo(s.Field(i).Type(), "Resource") {
			return s.Field(i).Name()
		}
	}
	return ""
}

func (p *Prog) hostFields() (static, pattern string) {
	s := p.structOf("Router")
	for i := 0; s != nil && i < s.NumFields(); i++ {
		switch n := s.Field(i).Name(); n {
		case "staticHosts":
			static = n
		case "patternHosts":
			pattern = n
		}
	}
	return
}

// linkWriters: nothing but the registration functions writes the links.
func (c *Checker) linkWriters() {
	p, r := c.p, c.r
	hs, hp := p.hostFields()
	ro := p.rootField()
	roots := map[*ssa.Function]bool{}
	for _, x := range [][2]string{{"_ResponderBase", "registerResource"}, {"_ResponderBase", "replaceResource"}, {"_ResponderBase", "passChildResourcesTo"},
		{"_ResponderBase", "setParent"}, {"Router", "registerHost"}, {"Router", "replaceHost"}, {"Router", "registerNewRoot"}, {"Router", "initializeRootResource"}} {
		if f := p.method(x[0], x[1]); f != nil {
			roots[f] = true
		}
	}
	fields := map[string]bool{r.static: true, r.pattern: true, r.wild: true, r.papa: true, hs: true, hp: true, ro: true}
	for _, f := range p.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var fl string
				switch in := in.(type) {
				case *ssa.Store:
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						if named(a.X.Type(), "_ResponderBase", "Router") {
							fl = p.cellOf(a)
						}
					case *ssa.IndexAddr:
						fl = p.loadedField(a.X)
					}
				case *ssa.MapUpdate:
					fl = p.loadedField(in.Map)
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy") {
						fl = p.loadedField(in.Call.Args[0])
					}
				}
				if fl == "" || !fields[fl] {
					continue
				}
				c.ob(c.onlyFrom(f, roots, map[*ssa.Function]bool{}), "writers", p.short(f)+" writes "+fl, c.at(f, in.Pos()),
					"the links between responders are changed outside of the registration functions")
			}
		}
	}
	c.min("writers", 3)
}

// loadedField: the value was loaded from a field of a responder or router.
func (p *Prog) loadedField(v ssa.Value) string {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && named(fa.X.Type(), "_ResponderBase", "Router") {
				return p.cellOf(fa)
			}
			return ""
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return ""
		}
	}
	return ""
}

func checkP18(c *Checker) {
	r := c.r
	hs, hp := c.p.hostFields()
	c.rule("insert: a registered child is kept in the container of its kind, under its own key or behind the others, and gets the responder as its parent")
	c.rule("replace: the new child takes the old one's place and gets the parent, the old one loses it")
	c.rule("parent: hosts and root resources get only routers as parents; a rejected parent isn't set")
	c.rule("pass: every child is given to the other responder, and the own containers are emptied")
	c.rule("keep: no responder with the template: registered; new one without handlers: its children passed; old one without handlers: its children passed and replaced; otherwise an error")
	c.rule("root: the same for the router's root resource")
	c.rule("writers: nothing else changes the links")
	c.inserts("_ResponderBase", "registerResource", r.static, r.pattern, r.wild)
	c.inserts("Router", "registerHost", hs, hp, "")
	c.replaces("_ResponderBase", "replaceResource", r.static, r.pattern, r.wild)
	c.replaces("Router", "replaceHost", hs, hp, "")
	c.setParentSpec()
	c.passes()
	c.keeps("_ResponderBase", "keepResourceOrItsChildResources", "resourceWithTemplate", "ChildResourceNamed", "registerResource", "replaceResource")
	c.keeps("Router", "RegisterHost", "hostWithTemplate", "HostNamed", "registerHost", "replaceHost")
	c.roots()
	c.linkWriters()
	c.min("insert", 3)
	c.min("replace", 3)
	c.min("parent", 2)
	c.min("keep", 5)
	c.min("root", 2)
}

func init() {
	const how = "Every abstract path of the functions that register responders is analysed; calls between them are events with unknown results. "
	register("P18", how+"Judged: the containers of children and the parents after every successful path.", checkP18)
}
