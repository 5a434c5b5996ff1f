package main

import "golang.org/x/tools/go/ssa"

// Registering a responder that may not be registered changes nothing.

// changes are the functions that change the tree.
var changes = set("registerResource", "registerResourceUnder", "keepResourceOrItsChildResources", "passChildResourcesTo",
	"replaceResource", "registerHost", "replaceHost", "registerNewRoot", "initializeRootResource", "configure", "setConfigFlags")

// parentOf: the value is the parent of the responder.
func (c *Checker) parentOf(t, x *Term) bool {
	t = strip(t)
	return t != nil && (t.Op == "call" && t.Aux == "parent" && sameResponder(t.A[0], x) ||
		t.Op == "init" && t.A[0].Op == "faddr" && t.A[0].Aux == c.r.papa && sameResponder(t.A[0].A[0], x))
}

// climbs: loops that go from the responder up to the top of its tree, and on
// only while the responder they are at isn't the given one; by the loop's
// variable.
func (c *Checker) climbs(rr *regRun, from, r *Term) map[*Term]bool {
	good := map[*Term]bool{}
	for i := range rr.ip.backedges {
		b := &rr.ip.backedges[i]
		for w, n := range b.Next {
			if c.parentOf(n, w) {
				ok := sameResponder(b.Init[w], from) && different(b.St.facts, w, r)
				if g, seen := good[w]; seen {
					ok = ok && g
				}
				good[w] = ok
			}
		}
	}
	return good
}

// different: the path knows that they are different responders.
func different(f *Facts, x, y *Term) bool {
	for t, v := range f.b {
		if !v && t.Op == "eq" && (sameResponder(t.A[0], x) && sameResponder(t.A[1], y) || sameResponder(t.A[0], y) && sameResponder(t.A[1], x)) {
			return true
		}
	}
	return f.eval(tEq(unbase(x), unbase(y))) == no
}

// notAbove: the path knows that r isn't the responder itself nor above it.
func notAbove(f *Facts, climbs map[*Term]bool) bool {
	for w, ok := range climbs {
		if ok && f.eval(isNilT(w)) == yes {
			return true
		}
	}
	return false
}

// isRootNow: whether the resource has the root's template.
func (c *Checker) rootNow(f *Facts, r *Term) tri {
	return f.eval(tEq(c.tmplOf(r), c.p.glob("rootTmpl")))
}

func checkP20(c *Checker) {
	c.rule("guard: before anything is changed the path knows that the responder isn't nil, has no parent, is no root (unless it's registered by the router) and isn't above the one it's registered under")
	c.rule("refused: when one of these is not so, the call ends in a panic or an error")
	for _, x := range []struct {
		typ, name string
		arg       int
		kind      string // under, router, host, root
	}{
		{"_ResponderBase", "RegisterResource", 1, "under"}, {"_ResponderBase", "RegisterResourceUnder", 2, "under"},
		{"Router", "RegisterResource", 1, "router"}, {"Router", "RegisterResourceUnder", 2, "router"},
		{"Router", "RegisterHost", 1, "host"}, {"Router", "registerNewRoot", 1, "root"},
	} {
		fn := c.p.actual(x.typ, x.name)
		id := x.typ + "." + x.name
		if fn == nil {
			c.undecided(id, "the function was not found")
			continue
		}
		ip := c.p.newInterp()
		ip.Model = c.p.regModel(regNames, set("parent"))
		ps := params(fn)
		if len(ps) <= x.arg {
			c.undecided(id, "the function has other parameters")
			continue
		}
		if x.kind != "root" {
			ps[x.arg] = symT("arg", ps[x.arg].T)
		}
		outs := c.run(ip, newState(), fn, ps)
		if outs == nil {
			continue
		}
		rr := &regRun{ip, outs, ps, fn}
		self, r := ps[0], ps[x.arg]
		var up map[*Term]bool
		if x.kind == "under" {
			up = c.climbs(rr, self, r)
		}
		papa := mk("call", "parent", nil, unbase(r))
		papa2 := c.p.fld(unbase(r), c.r.papa)
		guard := func(f *Facts, at, what string, toRoot bool) {
			c.ob(f.eval(isNilT(r)) == no, "guard", id+": nil", at, "%s though the argument may be nil", what)
			c.ob(f.eval(isNilT(papa)) == yes || f.eval(isNilT(papa2)) == yes, "guard", id+": registered", at, "%s though the argument may be registered already", what)
			switch x.kind {
			case "under":
				c.ob(c.rootNow(f, r) == no, "guard", id+": root", at, "%s though the argument may be a root resource", what)
				c.ob(notAbove(f, up), "guard", id+": above", at, "%s though the argument may be the responder itself or above it [path: %s]", what, clip(f.String(), 300))
			case "router":
				c.ob(toRoot || c.rootNow(f, r) == no || hasHost(f, r), "guard", id+": root", at, "%s though the argument may be a root resource", what)
			}
		}
		judge := func(f *Facts, tr []*Event) {
			for _, e := range tr {
				at := c.at(e.In, e.Pos)
				if e.Kind == "reg" && changes[e.Name] {
					guard(e.NFacts, at, "the tree is changed", e.Name == "registerNewRoot")
				}
				if (e.Kind == "store" || e.Kind == "mapset") && !c.fresh(e.Target) {
					guard(f, at, "an object is changed", true)
				}
			}
		}
		for i := range outs {
			o := &outs[i]
			judge(o.St.facts, o.St.trace)
			outcomeOf(o, func(f *Facts, failed bool) {
				if !failed {
					guard(f, c.at(o.In, o.Pos), "the call succeeds", len(regs(o.St.trace, "registerNewRoot")) > 0)
				}
			})
		}
		for i := range ip.backedges {
			judge(ip.backedges[i].St.facts, ip.backedges[i].St.trace)
		}
	}
	c.rootsHaveNoHost()
	c.min("guard", 33)
}

// hasHost: the resource's URL template has a host, so it's no root.
func hasHost(f *Facts, r *Term) bool {
	return f.find(func(t *Term) bool {
		if t.Op != "init" || t.A[0].Op != "faddr" || t.A[0].Aux != "Host" || f.eval(tEqC(tLen(t), 0)) != no {
			return false
		}
		u := t.A[0].A[0]
		return u.Op == "init" && u.A[0].Op == "faddr" && named(u.T, "_URLTmpl") && sameResponder(u.A[0].A[0], r)
	}) != nil
}

// rootsHaveNoHost judges the function that makes resources with URL templates.
func (c *Checker) rootsHaveNoHost() {
	rr := c.regOf("-", "createResource", "createDormantResource")
	if rr == nil {
		c.undecided("createResource", "the function was not found")
		return
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		outcomeOf(o, func(f *Facts, failed bool) {
			if failed {
				return
			}
			mem := func(obj *Term, field string) *Term {
				for a, v := range o.St.mem {
					if a.Op == "faddr" && a.Aux == field && unbase(rootOf(a)) == unbase(obj) {
						return v
					}
				}
				return nil
			}
			r := o.Res[0]
			tmpl, urlt := mem(r, c.r.tmpl), mem(r, "urlt")
			if tmpl == nil {
				c.ob(false, "guard", "createResource: template", c.at(o.In, o.Pos), "a resource without a template is made")
				return
			}
			if f.eval(tEq(tmpl, c.p.glob("rootTmpl"))) == no || urlt == nil || f.eval(isNilT(urlt)) == yes {
				return
			}
			h := mem(urlt, "Host")
			c.ob(tmpl.Op == "ext" && tmpl.A[0].Op == "reg:TryToParse" || h == nil || f.eval(tEqC(tLen(h), 0)) == yes, "guard", "createResource: root", c.at(o.In, o.Pos),
				"a root resource gets a host in its URL template")
		})
	}
}

// fresh: the cell is in an object that the call allocated.
func (c *Checker) fresh(a *Term) bool {
	r := rootOf(a)
	return r != nil && (r.Op == "alloc" || r.Op == "mkmap" || r.Op == "mkslice" || r.Op == "append")
}

var _ *ssa.Function

func init() {
	register("P20", "Every abstract path of the functions that register responders; at every change and every success the conditions are known.", checkP20)
}
