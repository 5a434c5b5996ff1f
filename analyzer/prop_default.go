package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the package does until its handlers and codes are replaced.

// globalStores are the functions that store into the package variable.
func (c *Checker) globalStores(name string) map[*ssa.Function]*ssa.Store {
	m := map[*ssa.Function]*ssa.Store{}
	for _, f := range c.p.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && g.Name() == name {
						m[f] = st
					}
				}
			}
		}
	}
	return m
}

// initials runs the initialisation of the package.
func (c *Checker) initials() []Outcome {
	p := c.p
	f := p.spkg.Func("init")
	if f == nil {
		return nil
	}
	ip := p.newInterp()
	parse := set("Parse", "TryToParse")
	ip.Opaque = func(f *ssa.Function) bool { return f.Signature.Recv() == nil && parse[f.Name()] }
	ip.Pure = ip.Opaque
	var outs []Outcome
	guard := mk("init", "", nil, mk("global", "init$guard", nil))
	for _, o := range c.run(ip, newState(), f, nil) {
		if o.St.facts.eval(guard) != yes {
			outs = append(outs, o)
		}
	}
	return outs
}

func checkP45(c *Checker) {
	p, r := c.p, c.r
	c.rule("not found: the initial not-found handler answers with the status code 404, once, and reports the request as handled")
	c.rule("redirect: the initial redirect handler redirects to the given URL with the given status code, once, and reports the request as handled")
	c.rule("code: the initial permanent redirect code is 308")
	c.rule("root: the root resources' template is the root path")
	c.rule("kept: the initial values are replaced only by the package's setters and wrappers")
	f := p.spkg.Func("init")
	outs := c.initials()
	for i := range outs {
		o := &outs[i]
		at := c.at(o.In, o.Pos)
		if !c.ob(o.Kind == "return", "kept", "init", at, "the initialisation of the package panics") {
			continue
		}
		value := func(name string) *Term { return o.St.mem[mk("global", name, nil)] }
		fun := func(name string) *ssa.Function {
			v := value(name)
			if v == nil {
				return nil
			}
			v = strip(v)
			if v.Op != "fn" && v.Op != "clo" || len(v.A) != 0 {
				return nil
			}
			return p.fnByAux[v.Aux]
		}
		if h := fun(r.gNotFound); c.ob(h != nil, "not found", "initial value", at, "the initial not-found handler isn't a function of the package") {
			c.notFoundDefault(h)
		}
		if h := fun(r.gCommon); c.ob(h != nil, "redirect", "initial value", at, "the initial redirect handler isn't a function of the package") {
			c.redirectDefault(h)
		}
		v := value(r.gPRC)
		n, ok := int64(0), false
		if v != nil {
			n, ok = v.intVal()
		}
		c.ob(ok && n == 308, "code", "initial value", at, "the initial permanent redirect code isn't 308 [%v]", v)
		t := value("rootTmpl")
		c.ob(t != nil && findTerm(t, func(t *Term) bool { return t.Op == "call" && len(t.A) >= 1 && isStr(t.A[0], "/") }) != nil, "root", "rootTmpl", at, "the template of root resources isn't made of the root path [%v]", t)
	}
	for _, name := range []string{r.gNotFound, r.gCommon, r.gPRC, "rootTmpl"} {
		roots := map[*ssa.Function]bool{f: true}
		if name != "rootTmpl" {
			for _, g := range p.allFns() {
				n := g.Name()
				if g.Parent() == nil && g.Signature.Recv() == nil && (strings.HasPrefix(n, "Set") || strings.HasPrefix(n, "Wrap")) {
					roots[g] = true
				}
			}
		}
		for g, st := range c.globalStores(name) {
			ini := g.Signature.Recv() == nil && g.Parent() == nil && strings.HasPrefix(g.Name(), "init#")
			c.ob(roots[g] || ini || c.onlyFrom(g, roots, map[*ssa.Function]bool{}), "kept", name+" in "+p.short(g), c.at(g, st.Pos()), "%s is replaced outside of its setters and wrappers", name)
		}
	}
	c.min("not found", 2)
	c.min("redirect", 2)
	c.min("code", 1)
	c.min("root", 1)
	c.min("kept", 4)
}

func (c *Checker) notFoundDefault(fn *ssa.Function) {
	p := c.p
	ip := p.newInterp()
	ps := params(fn)
	if len(ps) != 3 {
		c.undecided("not found", "the handler has another signature")
		return
	}
	for _, o := range c.run(ip, newState(), fn, ps) {
		o := o
		at := c.at(o.In, o.Pos)
		if !c.ob(o.Kind == "return", "not found", "panic", at, "the default not-found handler panics") {
			continue
		}
		st := c.answer(ip, &o, ps[0])
		n := 0
		for _, e := range o.St.trace {
			if e.Name == "net/http.NotFound" && e.Args[0] == ps[0] {
				n++
			}
		}
		if st == "" && n == 1 {
			st = "404"
		} else if n > 0 {
			st = "several"
		}
		c.ob(st == "404" && len(dynEvents(o.St.trace)) == 0 && o.St.facts.eval(o.Res[0]) == yes, "not found", "answer", at,
			"the default not-found handler doesn't answer once with 404 (%s) or doesn't report the request as handled", st)
	}
}

func (c *Checker) redirectDefault(fn *ssa.Function) {
	p := c.p
	ip := p.newInterp()
	ps := params(fn)
	if len(ps) != 5 {
		c.undecided("redirect", "the handler has another signature")
		return
	}
	w, req, url, code := ps[0], ps[1], ps[2], ps[3]
	for _, o := range c.run(ip, newState(), fn, ps) {
		at := c.at(o.In, o.Pos)
		if !c.ob(o.Kind == "return", "redirect", "panic", at, "the default redirect handler panics") {
			continue
		}
		n, other := 0, false
		for _, e := range o.St.trace {
			switch {
			case e.Name == "net/http.Redirect":
				if e.Args[0] == w && e.Args[1] == req && e.Args[2] == url && e.Args[3] == code {
					n++
				} else {
					other = true
				}
			case e.Name == "net/http.Error", e.Name == "net/http.NotFound", strings.HasSuffix(e.Name, "http.ResponseWriter.WriteHeader"):
				other = true
			}
		}
		c.ob(n == 1 && !other && len(dynEvents(o.St.trace)) == 0, "redirect", "answer", at, "the default redirect handler doesn't redirect to the given URL with the given code, once")
		c.ob(o.St.facts.eval(o.Res[0]) == yes, "redirect", "handled", at, "the default redirect handler doesn't report the request as handled")
	}
}

func init() {
	register("P45", "The initialisation of the package is analysed, and every abstract path of the handlers that it makes the defaults; every store into those variables is found.", checkP45)
}
