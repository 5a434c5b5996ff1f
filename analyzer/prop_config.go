package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// What is set on responders and package-wide is kept and returned.

// writesIn are the writes of a path to objects that it hasn't made itself.
func (p *Prog) writesIn(tr []*Event) []*Event {
	var r []*Event
	for _, e := range effects(tr, "store", "mapset", "mapdel", "clear", "copy") {
		t := rootOf(e.Target)
		switch t.Op {
		case "alloc", "mkmap", "mkslice", "list":
			continue
		}
		r = append(r, e)
	}
	return r
}

// kept: the path's only write is the value into the cell.
func (p *Prog) kept(o *Outcome, cell, v *Term) bool {
	ws := p.writesIn(o.St.trace)
	if len(ws) == 0 {
		return false
	}
	for _, w := range ws {
		if w.Target != cell {
			return false
		}
	}
	last := ws[len(ws)-1]
	return strip(last.Args[0]) == strip(v) || o.St.facts.eval(tEq(last.Args[0], v)) == yes
}

type setter struct {
	typ, name string
	cell      func(ps []*Term) *Term
	valid     func(v *Term) *Term
	getter    string
}

func (c *Checker) setters() []setter {
	p, r := c.p, c.r
	field := func(n string) func([]*Term) *Term { return func(ps []*Term) *Term { return p.cell(ps[0], n) } }
	glob := func(n string) func([]*Term) *Term { return func([]*Term) *Term { return p.glob(n).A[0] } }
	any := func(*Term) *Term { return tBool(true) }
	notNil := func(v *Term) *Term { return tNot(isNilT(v)) }
	code := func(v *Term) *Term { return tOr(tEqC(v, 301), tEqC(v, 308)) }
	return []setter{
		{"_ResponderBase", "SetSharedData", field(r.shared), any, "SharedData"},
		{"_ResponderBase", "SetPermanentRedirectCode", field(r.prc), code, "PermanentRedirectCode"},
		{"_ResponderBase", "SetRedirectHandler", field(r.redirH), notNil, "RedirectHandler"},
		{"_ResponderBase", "", field(r.impl), nil, "Implementation"},
		{"-", "SetPermanentRedirectCode", glob(r.gPRC), code, "PermanentRedirectCode"},
		{"-", "SetCommonRedirectHandler", glob(r.gCommon), notNil, "CommonRedirectHandler"},
		{"-", "SetHandlerForNotFound", glob(r.gNotFound), notNil, "HandlerOfNotFound"},
	}
}

func checkP27(c *Checker) {
	p, r := c.p, c.r
	c.rule("set: a valid value is kept in its own place and nothing else is changed")
	c.rule("reject: an invalid value is rejected by a panic, and nothing is changed")
	c.rule("get: the value that was set is returned, or the documented default when none was set; nothing is changed")
	for _, s := range c.setters() {
		if s.name != "" {
			c.setSpec(s)
		}
		c.getSpec(s)
	}
	// SetImplementation
	if rr := c.opRun("_ResponderBase", "SetImplementation", set("detectHTTPMethodHandlersOf", "setRequestHandlerBase")); rr != nil {
		self, impl := rr.ps[0], rr.ps[1]
		for i := range rr.outs {
			o := &rr.outs[i]
			at := c.at(o.In, o.Pos)
			f := o.St.facts
			ds := regs(o.St.trace, "detectHTTPMethodHandlersOf")
			if o.Kind == "panic" {
				c.ob(f.eval(isNilT(impl)) != no || len(ds) == 1 && f.eval(isNilT(ds[0].res(1))) != yes, "reject", "SetImplementation: reason", at, "a valid implementation is rejected")
				c.ob(len(p.writesIn(o.St.trace)) == 0 && len(regs(o.St.trace, "setRequestHandlerBase")) == 0, "reject", "SetImplementation: no change", at, "a rejected implementation changes the responder")
				continue
			}
			ok := len(ds) == 1 && ds[0].Args[0] == impl && f.eval(isNilT(impl)) == no && f.eval(isNilT(ds[0].res(1))) == yes
			c.ob(ok, "set", "SetImplementation: detected", at, "an implementation is accepted whose handlers weren't detected")
			c.ob(p.kept(o, p.cell(self, r.impl), impl), "set", "SetImplementation: kept", at, "the implementation isn't kept, or something else is changed")
			if !ok {
				continue
			}
			fork(f, isNilT(ds[0].res(0)), func(f *Facts, none bool) {
				ss := regs(o.St.trace, "setRequestHandlerBase")
				if none {
					// without handlers the table may stay or be cleared, but not be another one
					for _, e := range ss {
						c.ob(f.eval(isNilT(e.Args[1])) == yes, "set", "SetImplementation: no handlers", at, "a responder gets handlers that its implementation doesn't have")
					}
					return
				}
				c.ob(len(ss) == 1 && sameResponder(ss[0].Args[0], self) && ss[0].Args[1] == ds[0].res(0), "set", "SetImplementation: handlers", at,
					"the detected handlers don't become the responder's")
			})
		}
	}
	// handlers of HTTP methods, through the responder
	if rr := c.opRun("_ResponderBase", "SetHandlerFor", set("setHandlerFor")); rr != nil {
		self := rr.ps[0]
		for i := range rr.outs {
			o := &rr.outs[i]
			at := c.at(o.In, o.Pos)
			f := o.St.facts
			es := regs(o.St.trace, "setHandlerFor")
			if len(es) != 1 {
				c.ob(false, "set", "SetHandlerFor: once", at, "the handler isn't set exactly once")
				continue
			}
			e := es[0]
			if o.Kind == "panic" {
				c.ob(f.eval(isNilT(e.res(0))) != yes, "reject", "SetHandlerFor", at, "the call is rejected though the handler was set")
				continue
			}
			c.ob(f.eval(isNilT(e.res(0))) == yes, "reject", "SetHandlerFor: error", at, "a handler that wasn't set isn't reported")
			old := p.fld(self, r.rhb)
			fork(f, isNilT(old), func(f *Facts, none bool) {
				cur := memOf(o.St, self, r.rhb)
				if none {
					c.ob(cur != nil && cur.Op == "alloc" && e.Args[0] == cur, "set", "SetHandlerFor: first", at, "the first handler doesn't get into the responder's new table")
				} else {
					c.ob((cur == nil || cur == old) && e.Args[0] == old, "set", "SetHandlerFor: next", at, "the handler doesn't get into the responder's table")
				}
			})
			c.ob(sameTerms(e.Args[1:], rr.ps[1:]), "set", "SetHandlerFor: arguments", at, "the methods and the handler aren't the given ones")
		}
	}
	if rr := c.opRun("_ResponderBase", "HandlerOf", set("handlerOf")); rr != nil {
		old := p.fld(rr.ps[0], r.rhb)
		for i := range rr.outs {
			o := &rr.outs[i]
			at := c.at(o.In, o.Pos)
			if o.Kind != "return" {
				c.ob(false, "get", "HandlerOf: panics", at, "the call is rejected")
				continue
			}
			es := regs(o.St.trace, "handlerOf")
			fork(o.St.facts, isNilT(old), func(f *Facts, none bool) {
				if none {
					c.ob(o.Res[0].isNil(), "get", "HandlerOf: none", at, "a handler is returned though there's none")
					return
				}
				c.ob(len(es) == 1 && es[0].Args[0] == old && es[0].Args[1] == rr.ps[1] && o.Res[0] == es[0].Res, "get", "HandlerOf", at, "the handler isn't looked up in the responder's table by the given method")
			})
			c.ob(len(p.writesIn(o.St.trace)) == 0, "get", "HandlerOf: no change", at, "the query changes something")
		}
	}
	c.min("set", 4)
	c.min("reject", 2)
	c.min("get", 2)
}

func (c *Checker) setSpec(s setter) {
	p := c.p
	rr := c.opRun(s.typ, s.name, nil)
	if rr == nil {
		return
	}
	id := s.typ + "." + s.name
	v := rr.ps[len(rr.ps)-1]
	cell := s.cell(rr.ps)
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		fork(o.St.facts, s.valid(v), func(f *Facts, valid bool) {
			if !valid {
				c.ob(o.Kind == "panic" && len(p.writesIn(o.St.trace)) == 0, "reject", id, at, "an invalid value is accepted, or changes something [path: %s]", clip(f.String(), 200))
				return
			}
			c.ob(o.Kind == "return" && p.kept(o, cell, v), "set", id, at, "a valid value isn't kept, or something else is changed [path: %s]", clip(f.String(), 200))
		})
	}
}

func (c *Checker) getSpec(s setter) {
	p := c.p
	rr := c.opRun(s.typ, s.getter, nil)
	if rr == nil {
		return
	}
	id := s.typ + "." + s.getter
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		if o.Kind != "return" {
			c.ob(false, "get", id+": panics", at, "the query panics")
			continue
		}
		c.ob(len(p.writesIn(o.St.trace)) == 0, "get", id+": no change", at, "the query changes something")
		if s.typ == "-" {
			c.ob(o.Res[0].Op == "init" && o.Res[0].A[0] == s.cell(nil), "get", id, at, "the result isn't what was set")
			continue
		}
		c.ob(c.getterHolds(o.St.facts, o, s.getter, rr.ps[0], o.Res[0]), "get", id, at, "the result isn't what was set or the default")
	}
}

// ------------------------------------------------------------ configuration

// bits are the flags by the property of the configuration they stand for.
var cfgBits = []struct {
	bit    string
	fields []string
}{
	{"subtree", []string{"SubtreeHandler"}},
	{"secure", []string{"Secure", "RedirectsInsecureRequest"}},
	{"redirects", []string{"RedirectsInsecureRequest"}},
	{"tslash", []string{"HasTrailingSlash"}},
	{"strict", []string{"StrictOnTrailingSlash"}},
	{"lenientSlash", []string{"LenientOnTrailingSlash", "HandlesThePathAsIs"}},
	{"lenientPath", []string{"LenientOnUncleanPath", "HandlesThePathAsIs"}},
}

// cfgField is a property of a configuration value.
func (c *Checker) cfgField(cfg *Term, name string) *Term {
	cs := c.p.structOf("Config")
	for i := 0; cs != nil && i < cs.NumFields(); i++ {
		if cs.Field(i).Name() == name {
			if cfg.Op == "struct" && i < len(cfg.A) {
				return cfg.A[i]
			}
			return c.cfgSel(cfg, i, name)
		}
	}
	c.undecided("Config."+name, "the property was not found")
	return tBool(false)
}

// cfgSel builds the term that the interpreter makes of a selection.
func (c *Checker) cfgSel(cfg *Term, i int, name string) *Term {
	cs := c.p.structOf("Config")
	ip := c.p.newInterp()
	return ip.field(cfg, c.p.lookupType("Config"), i2(cs, i))
}

func i2(_ *types.Struct, i int) int { return i }

// symConfig is a configuration whose properties are separate unknowns.
func (c *Checker) symConfig(name string) *Term {
	cs, n := c.p.structOf("Config"), c.p.lookupType("Config")
	var fs []*Term
	for i := 0; i < cs.NumFields(); i++ {
		fs = append(fs, sym(name+"."+cs.Field(i).Name(), cs.Field(i).Type()))
	}
	return mk("struct", structTag(n), n, fs...)
}

func orAll(ts ...*Term) *Term {
	r := tBool(false)
	for _, t := range ts {
		r = tOr(r, t)
	}
	return r
}

// sameFlag compares a bit with its specification on a path.
func sameFlag(f *Facts, bit, want *Term) bool {
	ok := true
	fork(f, want, func(f *Facts, w bool) {
		ok = ok && f.eval(bit) == triOf(w)
	})
	return ok
}

func (c *Checker) flagsSpec() {
	p, r := c.p, c.r
	cfg := c.symConfig("config")
	fn := p.method("Config", "asFlags")
	if fn == nil {
		c.undecided("asFlags", "not found")
		return
	}
	ip := p.newInterp()
	outs := c.run(ip, newState(), fn, []*Term{cfg})
	for i := range outs {
		o := &outs[i]
		at := c.at(o.In, o.Pos)
		if o.Kind != "return" {
			c.ob(false, "flags", "asFlags: panics", at, "a configuration is rejected")
			continue
		}
		for _, b := range cfgBits {
			var fs []*Term
			for _, x := range b.fields {
				fs = append(fs, c.cfgField(cfg, x))
			}
			c.ob(sameFlag(o.St.facts, bitOf(o.Res[0], r.bit[b.bit]), orAll(fs...)), "flags", "asFlags: "+b.bit, at,
				"the flag isn't set exactly when %v is", b.fields)
		}
	}
	// the flags as configuration and the single queries
	has := func(x *Term, ns ...string) *Term {
		t := tBool(true)
		for _, n := range ns {
			t = tAnd(t, bitOf(x, r.bit[n]))
		}
		return t
	}
	back := map[string][]string{
		"SubtreeHandler": {"subtree"}, "Secure": {"secure"}, "RedirectsInsecureRequest": {"redirects"}, "HasTrailingSlash": {"tslash"},
		"StrictOnTrailingSlash": {"strict"}, "LenientOnTrailingSlash": {"lenientSlash"}, "LenientOnUncleanPath": {"lenientPath"},
		"HandlesThePathAsIs": {"lenientSlash", "lenientPath"},
	}
	if rr := c.opRun("_ResponderBase", "Configuration", nil); rr != nil {
		x := p.fld(rr.ps[0], r.cfs)
		for i := range rr.outs {
			o := &rr.outs[i]
			at := c.at(o.In, o.Pos)
			if o.Kind != "return" {
				c.ob(false, "report", "Configuration: panics", at, "the query panics")
				continue
			}
			for n, bs := range back {
				c.ob(sameFlag(o.St.facts, c.cfgField(o.Res[0], n), has(x, bs...)), "report", "Configuration: "+n, at, "the property isn't reported as it was configured")
			}
			c.ob(len(p.writesIn(o.St.trace)) == 0, "report", "Configuration: no change", at, "the query changes something")
		}
	}
	for n, bs := range map[string][]string{
		"IsSubtreeHandler": {"subtree"}, "IsSecure": {"secure"}, "RedirectsInsecureRequest": {"redirects"}, "HasTrailingSlash": {"tslash"},
		"IsStrictOnTrailingSlash": {"strict"}, "IsLenientOnTrailingSlash": {"lenientSlash"}, "IsLenientOnUncleanPath": {"lenientPath"},
		"HandlesThePathAsIs": {"lenientSlash", "lenientPath"},
	} {
		rr := c.opRun("_ResponderBase", n, nil)
		if rr == nil {
			continue
		}
		x := p.fld(rr.ps[0], r.cfs)
		for i := range rr.outs {
			o := &rr.outs[i]
			at := c.at(o.In, o.Pos)
			ok := o.Kind == "return" && sameFlag(o.St.facts, o.Res[0], has(x, bs...)) && len(p.writesIn(o.St.trace)) == 0
			c.ob(ok, "report", n, at, "the property isn't reported as it was configured, or the query changes something")
		}
	}
}

// rootCond is the condition that a template is the root's, as the path tests
// it.
func rootCond(f *Facts, p *Prog, tmpl *Term) *Term {
	if t := f.find(func(t *Term) bool { return t.Op == "eqs" || t.Op == "eq" || t.Op == "eqc" }); t != nil {
		_ = t
	}
	if f.find(func(t *Term) bool { return isQ(t, "UnescapedContent", tmpl) }) != nil {
		return tEq(mk("call", "UnescapedContent", nil, tmpl), tStr("/"))
	}
	if f.find(func(t *Term) bool { return t.Op == "init" && t.A[0].Op == "global" && t.A[0].Aux == "rootTmpl" }) != nil {
		return tEq(tmpl, p.glob("rootTmpl"))
	}
	return tEq(mk("call", "Content", nil, tmpl), tStr("/"))
}

func (c *Checker) setConfiguration(rule string, only map[string]bool) {
	p, r := c.p, c.r
	fn := p.method("_ResponderBase", "SetConfiguration")
	if fn == nil {
		c.undecided("SetConfiguration", "not found")
		return
	}
	ip := p.newInterp()
	ip.Model = p.regModel(nil, nil)
	ps := params(fn)
	cfg := c.symConfig("config")
	ps[1] = cfg
	outs := c.run(ip, newState(), fn, ps)
	self := ps[0]
	old := p.fld(self, r.cfs)
	tmpl := p.fld(self, r.tmpl)
	for i := range outs {
		o := &outs[i]
		at := c.at(o.In, o.Pos)
		if o.Kind != "return" {
			c.ob(false, rule, "SetConfiguration: panics", at, "a configuration is rejected")
			continue
		}
		v := memOf(o.St, self, r.cfs)
		if v == nil {
			v = old
		}
		for _, w := range p.writesIn(o.St.trace) {
			c.ob(w.Target == p.cell(self, r.cfs), rule, "SetConfiguration: else", at, "something else is changed")
		}
		root := rootCond(o.St.facts, p, tmpl)
		fork(o.St.facts, root, func(f *Facts, isRoot bool) {
			for _, b := range cfgBits {
				if only != nil && !only[b.bit] {
					continue
				}
				var fs []*Term
				for _, x := range b.fields {
					fs = append(fs, c.cfgField(cfg, x))
				}
				want := orAll(fs...)
				if isRoot && (b.bit == "tslash" || b.bit == "strict" || b.bit == "lenientSlash") {
					want = tBool(false)
				}
				if b.bit == "secure" || b.bit == "tslash" {
					want = tOr(want, bitOf(old, r.bit[b.bit]))
				}
				c.ob(sameFlag(f, bitOf(v, r.bit[b.bit]), want), rule, fmt.Sprintf("SetConfiguration: %s (root %v)", b.bit, isRoot), at,
					"after configuring, the flag isn't what the configuration says [path: %s]", clip(f.String(), 300))
			}
			if only == nil {
				c.ob(f.eval(bitOf(v, r.bit["active"])) == yes, rule, "SetConfiguration: active", at, "a configured responder counts as not configured")
			}
		})
	}
}

// configure adds flags.
func (c *Checker) configureSpec() {
	p, r := c.p, c.r
	rr := c.opRun("_ResponderBase", "configure", nil)
	if rr == nil {
		return
	}
	self, secure, tslash, cfs := rr.ps[0], rr.ps[1], rr.ps[2], rr.ps[3]
	old := p.fld(self, r.cfs)
	given := mk("init", "", derefType(cfs.T), cfs)
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		if o.Kind != "return" {
			c.ob(false, "configure", "panics", at, "a configuration is rejected")
			continue
		}
		v := memOf(o.St, self, r.cfs)
		if v == nil {
			v = old
		}
		for _, w := range p.writesIn(o.St.trace) {
			c.ob(w.Target == p.cell(self, r.cfs), "configure", "else", at, "something else is changed")
		}
		fork(o.St.facts, isNilT(cfs), func(f *Facts, none bool) {
			for n, k := range r.bit {
				want := bitOf(old, k)
				switch n {
				case "active":
					want = tBool(true)
				case "secure":
					want = tOr(want, secure)
				case "tslash":
					want = tOr(want, tslash)
				}
				if !none {
					want = tOr(want, bitOf(given, k))
				}
				c.ob(sameFlag(f, bitOf(v, k), want), "configure", n, at, "after configuring, the flag isn't what was set before or given [path: %s]", clip(f.String(), 300))
			}
		})
	}
}

func checkP23(c *Checker) {
	c.rule("flags: each property of a configuration sets its own flag, and what it implies")
	c.rule("set: after SetConfiguration every flag is what the configuration says; security and trailing slash stay once set; the root has no trailing slash")
	c.rule("report: Configuration and the single queries report the flags as the properties they were set for")
	c.flagsSpec()
	c.setConfiguration("set", nil)
	c.min("flags", 2)
	c.min("set", 5)
	c.min("report", 5)
}

// ------------------------------------------------------------ sticky flags

// checkP24: the security and the trailing slash of a responder come from its
// URL and are never taken away.
func checkP24(c *Checker) {
	p, r := c.p, c.r
	c.rule("writers: the flags of a responder are written only where flags are added to the current ones, or by SetConfiguration")
	c.rule("keep: SetConfiguration keeps the security and the trailing slash; configuring adds to the flags that are set")
	n := 0
	var resets []*ssa.Function
	for _, f := range p.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					// the address may be given to a method of the flags
					if call, ok := in.(ssa.CallInstruction); ok {
						for _, a := range call.Common().Args {
							if fa, ok := a.(*ssa.FieldAddr); ok && p.cellOf(fa) == r.cfs && named(fa.X.Type(), "_ResponderBase") {
								n++
								c.flagsAdder(f, call)
							}
						}
					}
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || p.cellOf(fa) != r.cfs || !named(fa.X.Type(), "_ResponderBase") {
					continue
				}
				n++
				if addsTo(st.Val, fa) {
					c.ob(true, "writers", p.short(f)+" adds", c.at(f, in.Pos()), "")
					continue
				}
				resets = append(resets, f)
			}
		}
	}
	sc := p.method("_ResponderBase", "SetConfiguration")
	for _, f := range resets {
		ok := f == sc || c.onlyFrom(f, map[*ssa.Function]bool{sc: true}, map[*ssa.Function]bool{})
		c.ob(ok, "writers", p.short(f)+" replaces the flags", c.at(f, f.Pos()), "the flags of a responder are replaced outside of SetConfiguration")
	}
	if n == 0 {
		c.undecided("writers", "no writer of the flags was found")
	}
	c.setConfiguration("keep", map[string]bool{"secure": true, "tslash": true})
	c.configureSpec()
	c.min("writers", 1)
	c.min("keep", 1)
	c.min("configure", 2)
}

// addsTo: the stored value is the loaded one with more bits.
func addsTo(v ssa.Value, fa *ssa.FieldAddr) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op.String() != "|" {
		return false
	}
	for _, x := range []ssa.Value{b.X, b.Y} {
		if u, ok := x.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.FieldAddr); ok && g.X == fa.X && g.Field == fa.Field {
				return true
			}
		}
	}
	return false
}

// flagsAdder: a function that gets the address of the flags only adds to them.
func (c *Checker) flagsAdder(f *ssa.Function, call ssa.CallInstruction) {
	p := c.p
	callee := call.Common().StaticCallee()
	at := c.at(f, call.Pos())
	id := p.short(f) + " gives the flags to another function"
	if callee == nil || !p.inPkg(callee) {
		c.ob(false, "writers", id, at, "the address of the flags is given away")
		return
	}
	ip := p.newInterp()
	ps := params(callee)
	outs := c.run(ip, newState(), callee, ps)
	for i := range outs {
		o := &outs[i]
		for j, x := range ps {
			if _, ok := x.T.Underlying().(*types.Pointer); !ok || !named(x.T, "_ConfigFlags") {
				continue
			}
			_ = j
			old := mk("init", "", derefType(x.T), x)
			v := o.St.mem[x]
			if v == nil {
				v = old
			}
			for k := 0; k < 16; k++ {
				ok := o.Kind == "return"
				fork(o.St.facts, bitOf(old, k), func(f *Facts, was bool) {
					if was {
						ok = ok && f.eval(bitOf(v, k)) == yes
					}
				})
				c.ob(ok, "writers", id+": bit "+itoa(k), at, "a flag may be taken away")
			}
		}
	}
}

func init() {
	register("P27", "Every abstract path of the setters and getters of responders and of the package is analysed; judged: what they write, return and reject.", checkP27)
	register("P23", "Every abstract path of the conversions between configurations and flags, of SetConfiguration and of the queries is analysed, flag by flag.", checkP23)
	register("P24", "Every function that writes the flags of a responder is found; each adds flags only, or is SetConfiguration, whose paths are analysed flag by flag.", checkP24)
}
