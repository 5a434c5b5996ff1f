package main

// The methods that find a responder and apply an operation to it.

type atMethod struct {
	typ, name, op string
	path          int // index of the template parameter
	registered    bool
}

var atOps = []struct {
	name, op   string
	path       int
	registered bool
}{
	{"SetSharedDataAt", "SetSharedData", 1, false},
	{"SharedDataAt", "SharedData", 1, true},
	{"ConfigurationAt", "Configuration", 1, true},
	{"SetImplementationAt", "SetImplementation", 1, false},
	{"ImplementationAt", "Implementation", 1, true},
	{"Set#HandlerFor", "SetHandlerFor", 2, false},
	{"#HandlerOf", "HandlerOf", 2, true},
	{"WrapRequestPasserAt", "WrapRequestPasser", 1, false},
	{"WrapRequestHandlerAt", "WrapRequestHandler", 1, false},
	{"Wrap#HandlerOf", "WrapHandlerOf", 2, true},
	{"SetPermanentRedirectCodeAt", "SetPermanentRedirectCode", 1, false},
	{"PermanentRedirectCodeAt", "PermanentRedirectCode", 1, true},
	{"SetRedirectHandlerAt", "SetRedirectHandler", 1, false},
	{"RedirectHandlerAt", "RedirectHandler", 1, true},
	{"WrapRedirectHandlerAt", "WrapRedirectHandler", 1, false},
	{"RedirectRequestAt", "RedirectRequestTo", 1, false},
	{"RedirectAnyRequestAt", "RedirectAnyRequestTo", 1, false},
}

var lookupNames = set("Resource", "RegisteredResource", "_Responder", "registered_Responder", "Host", "HostUsingConfig",
	"ResourceUsingConfig", "RegisteredHost")

func opNames() map[string]bool {
	m := set("SetConfiguration")
	for _, x := range atOps {
		m[x.op] = true
	}
	return m
}

func (c *Checker) opRun(typ, name string, opq map[string]bool) *regRun {
	fn := c.p.actual(typ, name)
	if fn == nil {
		c.undecided(typ+"."+name, "the function was not found")
		return nil
	}
	ip := c.p.newInterp()
	ip.Model = c.p.regModel(opq, nil)
	ps := params(fn)
	outs := c.run(ip, newState(), fn, ps)
	if outs == nil {
		return nil
	}
	return &regRun{ip, outs, ps, fn}
}

// getterHolds: the result is what the getter returns for the responder.
func (c *Checker) getterHolds(f *Facts, o *Outcome, op string, r, res *Term) bool {
	p := c.p
	r = unbase(r)
	g := func(field string) *Term {
		if v := memOf(o.St, r, field); v != nil {
			return v
		}
		return p.fld(r, field)
	}
	same := func(x, y *Term) bool { return strip(x) == strip(y) || f.eval(tEq(x, y)) == yes }
	switch op {
	case "SharedData":
		return same(res, g("sharedData"))
	case "Implementation":
		return same(res, g("impl"))
	case "PermanentRedirectCode":
		own := g("permanentRedirectCode")
		ok := true
		fork(f, tLt(tInt(0), own), func(f *Facts, set bool) {
			if set {
				ok = ok && f.eval(tEq(res, own)) == yes
			} else {
				ok = ok && isGlobal(res, "permanentRedirectCode")
			}
		})
		return ok
	case "RedirectHandler":
		own := g("redirectHandler")
		ok := true
		fork(f, isNilT(own), func(f *Facts, none bool) {
			if none {
				ok = ok && isGlobal(res, "commonRedirectHandler")
			} else {
				ok = ok && same(res, own)
			}
		})
		return ok
	}
	return false
}

func isGlobal(t *Term, name string) bool {
	t = strip(t)
	for t != nil && (t.Op == "init" || t.Op == "load") {
		t = t.A[0]
	}
	return t != nil && t.Op == "global" && t.Aux == name
}

func (c *Checker) atSpec(m atMethod) {
	opq := union(lookupNames, opNames())
	delete(opq, m.name)
	rr := c.opRun(m.typ, m.name, opq)
	if rr == nil {
		return
	}
	id := m.typ + "." + m.name
	self := rr.ps[0]
	tmpl := rr.ps[m.path]
	var rest []*Term
	for i, x := range rr.ps {
		if i != 0 && i != m.path {
			rest = append(rest, x)
		}
	}
	lookup := "Resource"
	if m.typ == "Router" {
		lookup = "_Responder"
	}
	if m.registered {
		lookup = "RegisteredResource"
		if m.typ == "Router" {
			lookup = "registered_Responder"
		}
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		f := o.St.facts
		at := c.at(o.In, o.Pos)
		es := regs(o.St.trace)
		if len(es) == 0 || es[0].Name != lookup || !sameResponder(es[0].Args[0], self) || es[0].Args[1] != tmpl {
			c.ob(false, "lookup", id, at, "the responder isn't looked up with %s and the given template first", lookup)
			continue
		}
		r := es[0].res(0)
		var lerr *Term
		if es[0].Res.Op == "tuple" {
			lerr = es[0].Res.A[len(es[0].Res.A)-1]
		}
		ops := es[1:]
		if o.Kind == "panic" {
			why := lerr != nil && f.eval(isNilT(lerr)) != yes || m.registered && f.eval(isNilT(r)) != no
			c.ob(why, "rejected", id, at, "the call is rejected though the responder was found")
			c.ob(len(ops) == 0, "rejected", id+": no operation", at, "a rejected call has an effect")
			continue
		}
		if lerr != nil {
			c.ob(f.eval(isNilT(lerr)) == yes, "error", id, at, "a failed lookup isn't reported")
		}
		if m.registered {
			c.ob(f.eval(isNilT(r)) == no, "error", id+": not registered", at, "a responder that isn't registered isn't reported")
		}
		if len(ops) == 0 && len(o.Res) == 1 {
			c.ob(c.getterHolds(f, o, m.op, r, o.Res[0]), "operation", id, at, "the result isn't the responder's %s", m.op)
			continue
		}
		ok := len(ops) == 1 && ops[0].Name == m.op && sameResponder(ops[0].Args[0], r) && sameTerms(ops[0].Args[1:], rest)
		c.ob(ok, "operation", id, at, "the responder that was found isn't given exactly %s with the arguments of the call%s", m.op, evNames(ops))
		if ok && len(o.Res) == 1 {
			c.ob(sameAnswer(o.St.facts, o.Res[0], ops[0].Res), "operation", id+": result", at, "the operation's result isn't returned")
		}
	}
}

func evNames(es []*Event) string {
	s := ""
	for _, e := range es {
		s += " " + e.Name
	}
	return " (" + s + " )"
}

// setConfigurationAt: existing responders are configured, others created.
func (c *Checker) setConfigurationAt(typ string) {
	opq := union(lookupNames, opNames())
	rr := c.opRun(typ, "SetConfigurationAt", opq)
	if rr == nil {
		return
	}
	id := typ + ".SetConfigurationAt"
	self, tmpl, config := rr.ps[0], rr.ps[1], rr.ps[2]
	lookup := "RegisteredResource"
	if typ == "Router" {
		lookup = "registered_Responder"
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		f := o.St.facts
		at := c.at(o.In, o.Pos)
		es := regs(o.St.trace)
		if len(es) == 0 || es[0].Name != lookup || !sameResponder(es[0].Args[0], self) || es[0].Args[1] != tmpl {
			c.ob(false, "lookup", id, at, "the responder isn't looked up with %s and the given template first", lookup)
			continue
		}
		r, ops := es[0].res(0), es[1:]
		if es[0].Res.Op == "tuple" {
			lerr := es[0].Res.A[len(es[0].Res.A)-1]
			if o.Kind == "panic" {
				c.ob(f.eval(isNilT(lerr)) != yes && len(ops) == 0, "rejected", id, at, "the call is rejected though the lookup succeeded")
				continue
			}
			c.ob(f.eval(isNilT(lerr)) == yes, "error", id, at, "a failed lookup isn't reported")
		} else if o.Kind == "panic" {
			c.ob(false, "rejected", id, at, "the call is rejected though the lookup succeeded")
			continue
		}
		fork(f, isNilT(r), func(f *Facts, none bool) {
			if !none {
				ok := len(ops) == 1 && ops[0].Name == "SetConfiguration" && sameResponder(ops[0].Args[0], r) && ops[0].Args[1] == config
				c.ob(ok, "operation", id+": existing", at, "a registered responder isn't given the configuration%s", evNames(ops))
				return
			}
			create := func(f *Facts, name string) {
				ok := len(ops) == 1 && ops[0].Name == name && sameResponder(ops[0].Args[0], self) && ops[0].Args[1] == tmpl && ops[0].Args[2] == config
				c.ob(ok, "operation", id+": new by "+name, at, "a responder that isn't registered isn't created with the configuration%s", evNames(ops))
			}
			if typ == "Router" {
				fork(f, es[0].res(1), func(f *Facts, host bool) {
					if host {
						create(f, "HostUsingConfig")
					} else {
						create(f, "ResourceUsingConfig")
					}
				})
				return
			}
			create(f, "ResourceUsingConfig")
		})
	}
}

func checkP26(c *Checker) {
	c.rule("lookup: the first step looks up the responder with the given template; methods that set things create it, the others need it to be registered")
	c.rule("error: a failed lookup and a responder that isn't registered are reported by a panic, without any effect")
	c.rule("operation: exactly the operation that the method is named after, on exactly the responder that was found, with exactly the given arguments, and its result is returned")
	for _, typ := range []string{"_ResponderBase", "Router"} {
		sub := "Path"
		if typ == "Router" {
			sub = "URL"
		}
		for _, x := range atOps {
			name := ""
			for _, ch := range x.name {
				if ch == '#' {
					name += sub
				} else {
					name += string(ch)
				}
			}
			c.atSpec(atMethod{typ, name, x.op, x.path, x.registered})
		}
		c.setConfigurationAt(typ)
	}
	c.min("operation", 12)
	c.min("error", 6)
}

func init() {
	register("P26", "Every abstract path of the methods that find a responder by a template and apply an operation to it is analysed; the lookups and operations are events.", checkP26)
}
