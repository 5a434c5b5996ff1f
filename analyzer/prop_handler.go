package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The table of HTTP method handlers, its default answers, and middleware.

func (p *Prog) pairFields() (method, handler string) {
	s := p.structOf("_MethodHandlerPair")
	if n := p.lookupType("_MethodHandlerPairs"); n != nil {
		if sl, ok := n.Underlying().(*types.Slice); ok {
			s, _ = sl.Elem().Underlying().(*types.Struct)
		}
	}
	if s == nil {
		return "", ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			method = s.Field(i).Name()
		} else {
			handler = s.Field(i).Name()
		}
	}
	return
}

// getOf recognises the handler that pairs.get returned for a method.
func (p *Prog) isGet(t *Term, comp string, pairs, method *Term) bool {
	return t != nil && t.Op == "ext" && t.Aux == comp && t.A[0].Op == "call" && len(t.A[0].A) == 2 &&
		t.A[0].A[0] == pairs && t.A[0].A[1] == method
}

func (c *Checker) pairsFns() (get, set *ssa.Function) {
	return c.p.method("_MethodHandlerPairs", "get"), c.p.method("_MethodHandlerPairs", "set")
}

func (c *Checker) tableInterp() *Interp {
	p := c.p
	get, set := c.pairsFns()
	split := p.fn("toUpperSplitByCommaSpace")
	ip := p.newInterp()
	ip.DynHavoc = p.argsHavoc()
	ip.Opaque = func(f *ssa.Function) bool { return f == get || f == set || f == split }
	ip.Pure = func(f *ssa.Function) bool { return f == get || f == split }
	return ip
}

func (p *Prog) getTerm(get *ssa.Function, pairs, method *Term) *Term {
	base := mk("call", p.fnName(get), nil, pairs, method)
	return mk("ext", "1", get.Signature.Results().At(1).Type(), base)
}

// isDefaultFor: the value is the bound default handler of the base.
func (p *Prog) isBound(t *Term, name string, recv *Term) bool {
	f, r := p.bound(strip(t))
	return f != nil && f.Name() == name && r == recv
}

func checkP15(c *Checker) {
	p, r := c.p, c.r
	c.rule("dispatch: no table => not-found handler; handler of r.Method => it; else the configured handler of not allowed methods; else the default 405")
	c.rule("bind: whenever a responder gets a method table, its request handler becomes that table's dispatch")
	get, _ := c.pairsFns()
	fn := r.handleRequest
	ip := c.tableInterp()
	ps := params(fn)
	rhb, w, req, args := ps[0], ps[1], ps[2], ps[3]
	outs := c.run(ip, newState(), fn, ps)
	pairs := p.fld(rhb, r.pairs)
	na := p.fld(rhb, r.notAllowed)
	h := p.getTerm(get, pairs, p.fld(req, "Method"))
	for i := range outs {
		o := &outs[i]
		if o.Kind != "return" {
			continue
		}
		evs := dynEvents(o.St.trace)
		at := c.at(o.In, o.Pos)
		given := func(f *Facts, target *Term, what string) {
			ok := len(evs) == 1 && evs[0].Target == target && sameTerms(evs[0].Args, []*Term{w, req, args}) && sameAnswer(o.St.facts, o.Res[0], evs[0].Res)
			c.ob(ok, "dispatch", what, at, "the request isn't given to %s (once, with its arguments, and its answer returned) [path: %s]", what, clip(f.String(), 500))
		}
		empty := tOr(isNilT(rhb), tEqC(tLen(pairs), 0))
		fork(o.St.facts, empty, func(f *Facts, v bool) {
			if v {
				given(f, p.glob(r.gNotFound), "the not-found handler when there are no method handlers")
				return
			}
			fork(f, isNilT(h), func(f *Facts, none bool) {
				if !none {
					given(f, h, "the handler of the request's method")
					return
				}
				fork(f, isNilT(na), func(f *Facts, none bool) {
					if !none {
						given(f, na, "the configured handler of not allowed methods")
						return
					}
					st := c.answer(ip, o, w)
					c.ob(len(evs) == 0 && st == "405" && o.St.facts.eval(o.Res[0]) == yes, "dispatch", "the default 405", at,
						"a method without a handler isn't answered with the status code 405 (%s)", st)
				})
			})
		})
	}
	c.min("dispatch", 1)
	// whoever stores a table into a responder also binds its dispatch
	n := 0
	for _, f := range p.allFns() {
		if !c.storesField(f, "_ResponderBase", r.rhb) {
			continue
		}
		ip := c.tableInterp()
		outs := c.run(ip, newState(), f, params(f))
		for i := range outs {
			o := &outs[i]
			if o.Kind != "return" {
				continue
			}
			for a, v := range o.St.mem {
				if a.Op != "faddr" || a.Aux != r.rhb {
					continue
				}
				hv := memOf(o.St, a.A[0], r.handler)
				ok := false
				if hv != nil {
					g, recv := p.bound(strip(hv))
					ok = g == fn && (recv == v || recv == strip(v))
				}
				n++
				c.ob(ok, "bind", p.short(f), c.at(f, f.Pos()), "the responder gets a method table, but its request handler isn't that table's dispatch")
			}
		}
	}
	c.min("bind", 1)
}

// storesField: the function itself stores into the field.
func (c *Checker) storesField(f *ssa.Function, typ, field string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if ok && named(fa.X.Type(), typ) && c.p.cellOf(fa) == field {
				return true
			}
		}
	}
	return false
}

// answer describes what the package itself answered on a path: the status
// code; "" if nothing, "several" if more than once.
func (c *Checker) answer(ip *Interp, o *Outcome, w *Term) string {
	code := ""
	for _, e := range o.St.trace {
		var t *Term
		switch {
		case e.Name == "net/http.Error" && e.Args[0] == w:
			t = e.Args[2]
		case strings.HasSuffix(e.Name, "http.ResponseWriter.WriteHeader") && e.Args[0] == w:
			t = e.Args[1]
		default:
			continue
		}
		n, ok := t.intVal()
		if !ok || code != "" {
			return "several"
		}
		code = fmt.Sprint(n)
	}
	return code
}

// answers405: the function answers each request with 405 itself.
func (c *Checker) answers405(fn *ssa.Function) bool {
	ip := c.tableInterp()
	ps := params(fn)
	if len(ps) != 4 {
		return false
	}
	n := 0
	for _, o := range c.run(ip, newState(), fn, ps) {
		o := o
		if o.Kind != "return" || len(dynEvents(o.St.trace)) > 0 || c.answer(ip, &o, ps[1]) != "405" || o.St.facts.eval(o.Res[0]) != yes {
			return false
		}
		n++
	}
	return n > 0
}

func (c *Checker) allowHeader(ip *Interp, o *Outcome, rhb, w *Term, what string) {
	p, r := c.p, c.r
	method, _ := p.pairFields()
	at := c.at(o.In, o.Pos)
	pairs := p.fld(rhb, r.pairs)
	n, status := 0, -1
	for i, e := range o.St.trace {
		if e.Name == "net/http.Error" || strings.HasSuffix(e.Name, "http.ResponseWriter.WriteHeader") || strings.HasSuffix(e.Name, "http.ResponseWriter.Write") {
			if status < 0 {
				status = i
			}
		}
		var v *Term
		switch {
		case (e.Name == "(net/http.Header).Add" || e.Name == "(net/http.Header).Set") && e.Args[1] == tStr("Allow"):
			v = e.Args[2]
		case e.Kind == "mapset" && len(e.Args) == 2 && e.Args[0] == tStr("Allow"):
			if x := e.Args[1]; x.Op == "list" && len(x.A) == 1 {
				v = x.A[0]
			} else {
				v = x
			}
		case (e.Name == "(net/http.Header).Del") && e.Args[1] == tStr("Allow"):
			c.ob(false, "allow", what+" header removed", at, "the Allow header is removed")
			continue
		default:
			continue
		}
		n++
		c.ob(status < 0, "allow", what+" order", at, "the Allow header is set after the status code was written")
		d := p.joined(ip, o.St.facts, v, pairs, method, ", ")
		c.ob(d == "", "allow", what+" value", at, "the Allow header isn't the list of all methods with a handler: %s", d)
	}
	c.ob(n == 1, "allow", what+" header", at, "the answer has %d Allow headers", n)
}

func checkP16(c *Checker) {
	p, r := c.p, c.r
	c.rule("allow: the default answers have one Allow header, written before the status code, joining the methods of the table in order with \", \"")
	c.rule("status: 405 for methods without a handler, 200 for OPTIONS, and the request counts as handled")
	c.rule("list: AllowedHTTPMethods returns the methods of the table in order")
	// 405
	ip := c.tableInterp()
	ps := params(r.handleRequest)
	rhb, w := ps[0], ps[1]
	for _, o := range c.run(ip, newState(), r.handleRequest, ps) {
		o := o
		if o.Kind != "return" || len(dynEvents(o.St.trace)) > 0 {
			continue
		}
		c.ob(c.answer(ip, &o, w) == "405" && o.St.facts.eval(o.Res[0]) == yes, "status", "405", c.at(o.In, o.Pos),
			"the default answer isn't the status code 405, or the request doesn't count as handled")
		c.allowHeader(ip, &o, rhb, w, "405")
	}
	// OPTIONS
	opt := p.method("_RequestHandlerBase", "handleOptionsHTTPMethod")
	if opt == nil {
		c.undecided("anchor", "handleOptionsHTTPMethod was not found")
		return
	}
	ip = c.tableInterp()
	ps = params(opt)
	rhb, w = ps[0], ps[1]
	for _, o := range c.run(ip, newState(), opt, ps) {
		o := o
		if o.Kind != "return" {
			continue
		}
		c.ob(len(dynEvents(o.St.trace)) == 0 && c.answer(ip, &o, w) == "200" && o.St.facts.eval(o.Res[0]) == yes, "status", "OPTIONS", c.at(o.In, o.Pos),
			"the default answer to OPTIONS isn't the status code 200, or the request doesn't count as handled")
		c.allowHeader(ip, &o, rhb, w, "OPTIONS")
	}
	c.min("status", 1)
	c.min("allow", 2)
	al := p.method("_RequestHandlerBase", "AllowedHTTPMethods")
	ip = c.tableInterp()
	ps = params(al)
	method, _ := p.pairFields()
	for _, o := range c.run(ip, newState(), al, ps) {
		if o.Kind != "return" {
			continue
		}
		pairs := p.fld(ps[0], r.pairs)
		if o.St.facts.eval(tOr(isNilT(ps[0]), tEqC(tLen(pairs), 0))) == yes {
			c.ob(o.Res[0].isNil() || o.Res[0].Op == "list" && len(o.Res[0].A) == 0, "list", "empty", c.at(o.In, o.Pos), "methods are listed though there are none")
			continue
		}
		d := p.mapped(ip, o.St.facts, o.Res[0], pairs, method)
		c.ob(d == "", "list", "methods", c.at(o.In, o.Pos), "AllowedHTTPMethods isn't the list of all methods with a handler: %s", d)
	}
	c.min("list", 1)
}

// ------------------------------------------------------------------ P17

func checkP17(c *Checker) {
	c.rule("get: returns the index and handler of a pair with the given method; gives up only when the list is exhausted, or the halves that can't contain the method are dropped")
	c.rule("set: replaces the handler of the method's pair, or appends a pair and sorts")
	c.rule("sorted: the list is sorted as a whole by method, either by a sort function of the standard library, or by partitions of which all elements are compared with the pivot, only exchanged, and sorted in turn on both sides of where the indexes meet")
	c.rule("setHandlerFor: sets the handler for every listed method, or as the handler of not allowed methods for a lone \"!\"; then a default OPTIONS handler if there is none")
	c.rule("handlerOf: the handler of the first listed method, or of not allowed methods for \"!\"")
	c.rule("detect: every method HandleX of the implementation with a handler's signature becomes the handler of X in upper case; HandleNotAllowedMethod the handler of not allowed methods; OPTIONS by default")
	c.checkGet()
	c.checkSet()
	c.checkSetHandlerFor()
	c.checkHandlerOf()
	c.checkDetect()
}

func (c *Checker) checkGet() {
	p := c.p
	get, _ := c.pairsFns()
	method, handler := p.pairFields()
	ip := p.newInterp()
	ps := params(get)
	list, m := ps[0], ps[1]
	outs := c.run(ip, newState(), get, ps)
	elemMethod := func(i *Term) *Term {
		for _, o := range outs {
			if t := findElem(o.St.facts, list, i, method); t != nil {
				return t
			}
		}
		for _, b := range ip.backedges {
			if t := findElem(b.St.facts, list, i, method); t != nil {
				return t
			}
		}
		return nil
	}
	eq := func(f *Facts, i *Term) tri {
		e := elemMethod(i)
		if e == nil {
			return unk
		}
		if v := f.eval(tEq(e, m)); v != unk {
			return v
		}
		lt, gt := f.eval(sLt(e, m)), f.eval(sLt(m, e))
		if lt == yes || gt == yes {
			return no
		}
		if lt == no && gt == no {
			return yes
		}
		return unk
	}
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		at := c.at(o.In, o.Pos)
		f := o.St.facts
		i, h := o.Res[0], o.Res[1]
		if f.eval(tLt(i, tInt(0))) == yes {
			c.ob(h.isNil(), "get", "none: handler", at, "a handler is returned with a negative index")
			c.ob(c.getGaveUp(ip, f, list, elemMethod, m), "get", "none: search", at,
				"the search gives up though the method may still be in the list [path: %s]", clip(f.String(), 400))
			continue
		}
		c.ob(eq(f, i) == yes, "get", "found: index", at, "the pair at the returned index isn't known to have the method")
		c.ob(p.elemOf(list, i, handler)(h), "get", "found: handler", at, "the returned handler isn't the one at the returned index")
	}
	for k := range ip.backedges {
		b := &ip.backedges[k]
		at := c.at(b.Fn, b.Fn.Pos())
		f := b.St.facts
		ind := false
		isElem := func(t *Term) bool {
			return t.Op == "init" && t.A[0].Op == "faddr" && t.A[0].Aux == method && t.A[0].A[0].Op == "iaddr" && t.A[0].A[0].A[0] == list &&
				sameLoop(t.A[0].A[0].A[1], b.Loop)
		}
		if e := f.find(isElem); e != nil {
			ind = true
			c.ob(f.eval(tEq(e, m)) == no && ascending(e.A[0].A[0].A[1]), "get", "linear: next", at, "the search goes on though the pair has the method")
		}
		if ind {
			continue
		}
		// a halving step: lo or hi moves to the middle
		lo, hi := boundsOf(f, b)
		if lo == nil {
			c.ob(false, "get", "loop", at, "the search isn't recognised as a linear or a binary one [%s]", clip(f.String(), 300))
			continue
		}
		nlo, nhi := b.Next[lo], b.Next[hi]
		c.ob(b.Init[lo] == tInt(0) && b.Init[hi] == tLen(list), "get", "binary: start", at, "the search doesn't start with the whole list")
		switch {
		case nlo == lo && nhi != hi:
			c.ob(middle(nhi, lo, hi) && lessAt(f, elemMethod(nhi), m, false), "get", "binary: lower half", at,
				"the upper half is dropped though it may contain the method")
		case nhi == hi && nlo != lo:
			mid := nlo
			if x, k := splitAdd(nlo); k == 1 && x != nil && !middle(nlo, lo, hi) {
				mid = x
			}
			c.ob(middle(mid, lo, hi) && lessAt(f, elemMethod(mid), m, true), "get", "binary: upper half", at,
				"the lower half is dropped though it may contain the method")
		default:
			c.ob(false, "get", "binary: step", at, "a step of the search drops neither half")
		}
	}
	c.min("get", 2)
}

func sLt(x, y *Term) *Term { return mk("slt", "", boolT, x, y) }

// lessAt: elem < m (less) or m < elem.
func lessAt(f *Facts, e, m *Term, less bool) bool {
	if e == nil {
		return false
	}
	x, y := e, m
	if !less {
		x, y = m, e
	}
	return f.eval(sLt(x, y)) == yes || f.eval(sLt(y, x)) == no && f.eval(tEq(e, m)) == no
}

// findElem finds the term of list[i].field among the facts.
func findElem(f *Facts, list, i *Term, field string) *Term {
	var r *Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if r != nil {
			return
		}
		if t.Op == "init" && t.A[0].Op == "faddr" && t.A[0].Aux == field {
			if a := t.A[0].A[0]; a.Op == "iaddr" && a.A[0] == list && a.A[1] == i {
				r = t
				return
			}
		}
		for _, x := range t.A {
			walk(x)
		}
	}
	for k := range f.b {
		walk(k)
	}
	return r
}

// boundsOf finds the two widened bounds of a halving loop: lo < hi is known.
func boundsOf(f *Facts, b *BackEdge) (lo, hi *Term) {
	for k, v := range f.b {
		if v && k.Op == "lt" && k.Aux == "0" {
			if _, ok := b.Next[k.A[0]]; !ok {
				continue
			}
			if _, ok := b.Next[k.A[1]]; !ok {
				continue
			}
			return k.A[0], k.A[1]
		}
	}
	return nil, nil
}

// middle: lo+(hi-lo)/2 or (lo+hi)/2.
func middle(t, lo, hi *Term) bool {
	if t == nil {
		return false
	}
	s := t.String()
	l, h := lo.String(), hi.String()
	for _, x := range []string{
		"plus(" + l + ", ((" + h + " - " + l + ") / 2))",
		"plus(((" + h + " - " + l + ") / 2), " + l + ")",
		"(plus(" + l + ", " + h + ") / 2)",
		"(plus(" + h + ", " + l + ") / 2)",
		"(plus(" + l + ", " + h + ") >> 1)",
		"plus(" + l + ", ((" + h + " - " + l + ") >> 1))",
	} {
		if s == x {
			return true
		}
	}
	return false
}

func (c *Checker) getGaveUp(ip *Interp, f *Facts, list *Term, elem func(*Term) *Term, m *Term) bool {
	if f.eval(tEqC(tLen(list), 0)) == yes || exhausted(f, list) {
		return true
	}
	for i := range ip.backedges {
		b := &ip.backedges[i]
		lo, hi := boundsOf(b.St.facts, b)
		if lo == nil {
			continue
		}
		if f.eval(tLt(lo, hi)) == no {
			return true
		}
		// one element is left (lo == mid) and it's less than the method
		for k, v := range f.iv {
			half := k.String()
			if v.lo == 0 && v.hi == 0 && (half == "(("+hi.String()+" - "+lo.String()+") / 2)" || half == "(("+hi.String()+" - "+lo.String()+") >> 1)") {
				for e, v := range f.b {
					if v && e.Op == "slt" && e.A[1] == m && e.A[0].Op == "init" && mentions(e.A[0], list) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *Checker) checkSet() {
	p := c.p
	_, set := c.pairsFns()
	get, _ := c.pairsFns()
	method, handler := p.pairFields()
	ip := p.newInterp()
	var sorts []*ssa.Function
	ip.Opaque = func(f *ssa.Function) bool {
		if f == get {
			return true
		}
		// a function of the list only, without results: it sorts
		s := f.Signature
		if s.Results().Len() == 0 && len(f.Params) >= 1 && named(f.Params[0].Type(), "_MethodHandlerPairs") && onlyInts(f.Params[1:]) {
			sorts = append(sorts, f)
			return true
		}
		return false
	}
	ip.Pure = func(f *ssa.Function) bool { return f == get }
	ps := params(set)
	cell, m, h := ps[0], ps[1], ps[2]
	outs := c.run(ip, newState(), set, ps)
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		at := c.at(o.In, o.Pos)
		var idx, old *Term
		for _, e := range o.St.trace {
			if e.Kind == "pure" && e.Callee == get && e.Args[1] == m {
				old = e.Args[0]
				idx = mk("ext", "0", nil, mk("call", e.Name, nil, e.Args...))
			}
		}
		if idx == nil {
			c.ob(false, "set", "search", at, "the pair of the method isn't looked up first")
			continue
		}
		fork(o.St.facts, tLt(idx, tInt(0)), func(f *Facts, none bool) {
			if none {
				v := o.St.mem[cell]
				ok := v != nil && v.Op == "append" && len(v.A) == 2 && v.A[0] == old && v.A[1].Op == "struct" && len(v.A[1].A) == 2 &&
					(v.A[1].A[0] == m && v.A[1].A[1] == h || v.A[1].A[0] == h && v.A[1].A[1] == m)
				// after the sort the cell may have been havocked
				if v == nil || !ok {
					for _, e := range o.St.trace {
						if e.Kind == "store" && e.Target == cell {
							v = e.Args[0]
						}
					}
					ok = v != nil && v.Op == "append" && len(v.A) == 2 && v.A[0] == old && v.A[1].Op == "struct" && sameSet(v.A[1].A, []*Term{m, h})
				}
				c.ob(ok, "set", "new: append", at, "a new method's pair isn't appended to the list")
				sorted := false
				for _, e := range o.St.trace {
					if strings.HasPrefix(e.Name, "sort.") || strings.HasPrefix(e.Name, "slices.Sort") {
						sorted = true
						c.ob(c.lessByMethod(e, old), "sorted", "set: comparison", at, "the pairs aren't compared by their methods in ascending order")
					}
					if e.Kind == "opaque" && e.Callee != get && len(e.Args) >= 1 && v != nil && e.Args[0] == v {
						// The cell and the sorted slice share their elements,
						// so either may be first.
						for _, g := range o.St.trace {
							sorted = sorted || g.Kind == "store" && g.Target == cell && g.Args[0] == v
						}
					}
				}
				c.ob(sorted, "set", "new: sort", at, "the list isn't sorted after a pair was appended")
				return
			}
			ok, n := false, 0
			for a, v := range o.St.mem {
				if a.Op == "faddr" && a.A[0].Op == "iaddr" && a.A[0].A[0] == old {
					n++
					ok = a.Aux == handler && v == h && f.eval(tEq(a.A[0].A[1], idx)) == yes
				}
				if a == cell && v != old && v != strip(old) {
					n += 2
				}
			}
			c.ob(ok && n == 1, "set", "existing: replace", at, "the handler of the method's pair isn't replaced")
		})
	}
	_ = method
	c.min("set", 1)
	c.checkOrder(sorts)
}

func onlyInts(ps []*ssa.Parameter) bool {
	for _, q := range ps {
		if b, ok := q.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return false
		}
	}
	return true
}

func sameSet(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		ok := false
		for _, y := range b {
			ok = ok || x == y
		}
		if !ok {
			return false
		}
	}
	return true
}

// setCalls are the calls of pairs.set in a trace.
func setCalls(tr []*Event, set *ssa.Function) []*Event {
	var r []*Event
	for _, e := range tr {
		if e.Kind == "opaque" && e.Callee == set {
			r = append(r, e)
		}
	}
	return r
}

// defaultOptions checks what a path does about OPTIONS after the table was
// filled.
func (c *Checker) defaultOptions(o *Outcome, calls []*Event, cell, rhb *Term, rule, at string) {
	p := c.p
	get, _ := c.pairsFns()
	var found *Term
	for _, e := range o.St.trace {
		if e.Kind == "pure" && e.Callee == get && e.Args[1] == tStr("OPTIONS") {
			found = mk("ext", "1", nil, mk("call", e.Name, nil, e.Args...))
		}
	}
	if found == nil {
		c.ob(false, rule, "default OPTIONS", at, "it isn't checked whether OPTIONS has a handler")
		return
	}
	fork(o.St.facts, isNilT(found), func(f *Facts, none bool) {
		ok := len(calls) == 1 && calls[0].Args[0] == cell && calls[0].Args[1] == tStr("OPTIONS") &&
			p.isBound(calls[0].Args[2], "handleOptionsHTTPMethod", rhb)
		if none {
			c.ob(ok, rule, "default OPTIONS", at, "OPTIONS doesn't get the default handler though it has none")
			return
		}
		c.ob(len(calls) == 0, rule, "own OPTIONS", at, "the handler of OPTIONS is replaced")
	})
}

func (c *Checker) checkSetHandlerFor() {
	p, r := c.p, c.r
	_, set := c.pairsFns()
	fn := p.method("_RequestHandlerBase", "setHandlerFor")
	split := p.fn("toUpperSplitByCommaSpace")
	if fn == nil || split == nil {
		c.undecided("setHandlerFor", "anchor not found")
		return
	}
	ip := c.tableInterp()
	ps := params(fn)
	rhb, methods, h := ps[0], ps[1], ps[2]
	ms := mk("call", p.fnName(split), split.Signature.Results().At(0).Type(), methods)
	outs := c.run(ip, newState(), fn, ps)
	for i := range outs {
		o := &outs[i]
		if o.Kind != "return" {
			continue
		}
		at := c.at(o.In, o.Pos)
		calls := setCalls(o.St.trace, set)
		na := memOf(o.St, rhb, r.notAllowed)
		nothing := func() bool { return len(calls) == 0 && na == nil }
		isErr := o.Res[0].Op == "newerr"
		fork(o.St.facts, isNilT(h), func(f *Facts, v bool) {
			if v {
				c.ob(isErr && nothing(), "setHandlerFor", "nil handler", at, "a nil handler is accepted")
				return
			}
			fork(f, tEqC(tLen(ms), 0), func(f *Facts, v bool) {
				if v {
					c.ob(isErr && nothing(), "setHandlerFor", "no method", at, "an empty list of methods is accepted")
					return
				}
				first := mk("init", "", types.Typ[types.String], mk("iaddr", "", nil, ms, tInt(0)))
				first = elemTerm(o, ms, first)
				bang := tAnd(tEqC(tLen(ms), 1), tEq(first, tStr("!")))
				fork(f, bang, func(f *Facts, v bool) {
					if v {
						c.ob(na == h && len(calls) == 0 && o.Res[0].isNil(), "setHandlerFor", "!", at, "the handler isn't set for not allowed methods")
						return
					}
					c.ob(na == nil && o.Res[0].isNil(), "setHandlerFor", "methods: others", at, "the handler of not allowed methods is changed, or an error is returned")
					c.ob(exhausted(f, ms), "setHandlerFor", "methods: all", at, "the handler isn't set for every listed method")
					c.defaultOptions(o, calls, p.cell(rhb, r.pairs), rhb, "setHandlerFor", at)
				})
			})
		})
	}
	for k := range ip.backedges {
		b := &ip.backedges[k]
		calls := setCalls(b.St.trace[b.Head:], set)
		ok := len(calls) == 1 && calls[0].Args[0] == p.cell(rhb, r.pairs) && calls[0].Args[2] == h && p.elemOf(ms, nil, "")(calls[0].Args[1]) &&
			sameLoop(calls[0].Args[1].A[0].A[1], b.Loop) && ascending(calls[0].Args[1].A[0].A[1])
		c.ob(ok, "setHandlerFor", "methods: each", c.at(b.Fn, b.Fn.Pos()), "an iteration doesn't set the handler for the listed method")
	}
	c.min("setHandlerFor", 2)
}

// elemTermF is the term that the analysed code uses for list[0], if any.
func elemTermF(f *Facts, list *Term) *Term {
	return f.find(func(t *Term) bool {
		return t.Op == "init" && t.A[0].Op == "iaddr" && t.A[0].A[0] == list && t.A[0].A[1] == tInt(0)
	})
}

func elemTerm(o *Outcome, list, def *Term) *Term {
	if t := elemTermF(o.St.facts, list); t != nil {
		return t
	}
	return def
}

func (c *Checker) checkHandlerOf() {
	p, r := c.p, c.r
	get, _ := c.pairsFns()
	fn := p.method("_RequestHandlerBase", "handlerOf")
	split := p.fn("toUpperSplitByCommaSpace")
	if fn == nil || split == nil {
		c.undecided("handlerOf", "anchor not found")
		return
	}
	ip := c.tableInterp()
	ps := params(fn)
	rhb := ps[0]
	ms := mk("call", p.fnName(split), split.Signature.Results().At(0).Type(), ps[1])
	outs := c.run(ip, newState(), fn, ps)
	pairs := p.fld(rhb, r.pairs)
	na := p.fld(rhb, r.notAllowed)
	var first *Term
	for i := range outs {
		if t := elemTerm(&outs[i], ms, nil); t != nil {
			first = t
		}
	}
	if first == nil {
		c.ob(false, "handlerOf", "first", c.at(fn, fn.Pos()), "the first listed method isn't looked at")
		return
	}
	for i := range outs {
		o := &outs[i]
		at := c.at(o.In, o.Pos)
		fork(o.St.facts, tEqC(tLen(ms), 0), func(f *Facts, v bool) {
			if v {
				c.ob(o.Kind == "panic", "handlerOf", "no method", at, "an empty list of methods is accepted")
				return
			}
			if o.Kind == "panic" {
				c.ob(false, "handlerOf", "panic", at, "a listed method makes it panic")
				return
			}
			fork(f, tEq(first, tStr("!")), func(f *Facts, v bool) {
				if v {
					fork(f, isNilT(na), func(f *Facts, none bool) {
						if !none {
							c.ob(o.Res[0] == na, "handlerOf", "!", at, "the handler of not allowed methods isn't returned")
							return
						}
						fb, recv := p.bound(strip(o.Res[0]))
						c.ob(fb != nil && recv == rhb && c.answers405(fb), "handlerOf", "! default", at, "the default handler of not allowed methods isn't returned")
					})
					return
				}
				fork(f, tEqC(tLen(pairs), 0), func(f *Facts, v bool) {
					if v && o.Res[0].isNil() {
						c.ob(true, "handlerOf", "none", at, "")
						return
					}
					c.ob(o.Res[0] == p.getTerm(get, pairs, first), "handlerOf", "method", at, "the handler of the method isn't returned")
				})
			})
		})
	}
	c.min("handlerOf", 1)
}

func (c *Checker) checkDetect() {
	p, r := c.p, c.r
	_, set := c.pairsFns()
	fn := p.fn("detectHTTPMethodHandlersOf")
	if fn == nil {
		c.undecided("detect", "anchor not found")
		return
	}
	ip := c.tableInterp()
	ps := params(fn)
	impl := ps[0]
	outs := c.run(ip, newState(), fn, ps)
	// The names: a loop over all methods of the implementation's type.
	names, all := 0, map[*Term]bool{}
	typ := mk("call", "reflect.TypeOf", nil, impl)
	for k := range ip.backedges {
		b := &ip.backedges[k]
		at := c.at(b.Fn, b.Fn.Pos())
		var ms []*Event
		var meth *Event
		for _, e := range b.St.trace[b.Head:] {
			if e.Kind == "mapset" {
				ms = append(ms, e)
			}
			if e.Name == "invoke reflect.Type.Method" {
				meth = e
			}
		}
		if meth == nil {
			continue
		}
		names++
		i := meth.Args[1]
		c.ob(meth.Args[0] == typ && ascending(i) && sameLoop(i, b.Loop), "detect", "names: each method", at, "not every method of the implementation is looked at")
		all[i] = true
		n := mk("fld", "Name", types.Typ[types.String], meth.Res)
		n = findFld(b.St, "Name", meth.Res, n)
		pre := mk("call", "firstaffix", boolT, n, tStr("Handle"))
		if b.St.facts.eval(pre) == yes {
			if len(ms) == 0 && impossibleSelfSlice(b.St.facts, n) {
				continue
			}
			ok := len(ms) == 1 && ms[0].Args[0].Op == "call" && ms[0].Args[0].Aux == "strings.ToUpper" &&
				ms[0].Args[0].A[0] == tSlice(n, tInt(6), nil) && ms[0].Args[1] == n
			c.ob(ok, "detect", "names: Handle", at, "a method HandleX isn't kept as the handler of X in upper case")
		} else {
			c.ob(len(ms) == 0, "detect", "names: others", at, "a method without the prefix Handle is taken for a handler")
		}
	}
	c.ob(names >= 2, "detect", "names", c.at(fn, fn.Pos()), "the names of the implementation's methods aren't collected in a loop")
	// The handlers.
	handlers := 0
	var naVal *Term
	for k := range ip.backedges {
		b := &ip.backedges[k]
		at := c.at(b.Fn, b.Fn.Pos())
		var rk *Term
		for t, v := range b.St.facts.b {
			if t.Op == "rok" && v {
				rk = mk("rkey", t.Aux, nil, t.A...)
			}
		}
		if rk == nil {
			continue
		}
		handlers++
		f := b.St.facts
		calls := setCalls(b.St.trace[b.Head:], set)
		// the method value of that name
		isM := func(t *Term) bool {
			t = strip(t)
			return (t.Op == "ta" || t.Op == "iface" || true) && t.String() != "" && mentionsOp(t, "rkey", rk) && mentionsAux(t, "(reflect.Value).MethodByName") && mentionsAux(t, "(reflect.Value).Interface")
		}
		sig := no // has the handler's signature
		for t, v := range f.b {
			if t.Op == "eq" && mentionsAux(t, "(reflect.Value).Type") {
				sig = triOf(v)
			}
			if t.Op == "tyok" && mentionsAux(t, "(reflect.Value).Interface") && sig != no {
				sig = triOf(v)
			}
		}
		var changed *Term
		for h, nx := range b.Next {
			if nx != h && isHandlerT(nx) && h.Op == "widen" {
				changed, naVal = nx, h
			}
		}
		if sig != yes {
			c.ob(len(calls) == 0 && changed == nil, "detect", "handlers: signature", at, "a method without a handler's signature is taken for a handler")
			continue
		}
		fork(f, tEq(rk, tStr("NOTALLOWEDMETHOD")), func(f *Facts, v bool) {
			if v {
				c.ob(len(calls) == 0 && changed != nil && isM(changed), "detect", "handlers: not allowed", at, "HandleNotAllowedMethod isn't kept as the handler of not allowed methods")
				return
			}
			c.ob(changed == nil && len(calls) == 1 && calls[0].Args[1].Op == "rkey" && isM(calls[0].Args[2]), "detect", "handlers: method", at,
				"a method HandleX isn't set as the handler of X")
		})
	}
	c.ob(handlers >= 2, "detect", "handlers", c.at(fn, fn.Pos()), "the handlers aren't set in a loop over their names")
	var tables []*Term
	firstTable := func(o *Outcome) *Term {
		for _, e := range o.St.trace {
			if e.Kind == "store" && e.Target != nil && e.Target.Op == "faddr" && e.Target.Aux == r.pairs && !e.Args[0].isNil() {
				return e.Args[0]
			}
		}
		return memOf(o.St, o.Res[0], r.pairs)
	}
	for i := range outs {
		if o := &outs[i]; o.Kind == "return" && o.Res[1].isNil() && !o.Res[0].isNil() {
			if t := firstTable(o); t != nil && !t.isNil() {
				tables = append(tables, t)
			}
		}
	}
	for i := range outs {
		o := &outs[i]
		if o.Kind != "return" {
			continue
		}
		at := c.at(o.In, o.Pos)
		if o.Res[1].Op == "newerr" {
			c.ob(o.Res[0].isNil(), "detect", "result: error", at, "a table is returned with an error")
			continue
		}
		if o.Res[0].isNil() {
			ok := naVal != nil && o.St.facts.eval(isNilT(naVal)) == yes
			c.ob(ok, "detect", "result: none", at, "no table is returned though handlers were found")
			continue
		}
		na := memOf(o.St, o.Res[0], r.notAllowed)
		c.ob(na == naVal, "detect", "result: not allowed", at, "the handler of not allowed methods isn't kept in the table")
		tab := memOf(o.St, o.Res[0], r.pairs)
		first := firstTable(o)
		if first == nil || first.isNil() {
			none := false
			for _, t := range tables {
				none = none || o.St.facts.eval(tEqC(tLen(t), 0)) == yes
			}
			c.ob(none, "detect", "result: table", at, "the found handlers aren't kept in the table")
			continue
		}
		fork(o.St.facts, tEqC(tLen(first), 0), func(f *Facts, empty bool) {
			if empty {
				return
			}
			c.ob(tab == nil || !tab.isNil(), "detect", "result: table", at, "the found handlers aren't kept in the table")
			c.defaultOptions(o, setCalls(o.St.trace, set), p.cell(o.Res[0], r.pairs), o.Res[0], "detect", at)
		})
	}
	c.min("detect", 3)
}

func isHandlerT(t *Term) bool {
	if t == nil || t.T == nil {
		return false
	}
	s, ok := t.T.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 3 && s.Results().Len() == 1
}

func findFld(st *State, name string, of, def *Term) *Term {
	if t := st.facts.find(func(t *Term) bool { return t.Op == "fld" && t.Aux == name && t.A[0] == of }); t != nil {
		return t
	}
	return def
}

func findTerm(t *Term, pred func(*Term) bool) *Term {
	if pred(t) {
		return t
	}
	for _, a := range t.A {
		if x := findTerm(a, pred); x != nil {
			return x
		}
	}
	return nil
}

func mentionsAux(t *Term, aux string) bool {
	return findTerm(t, func(t *Term) bool { return t.Aux == aux }) != nil
}

func mentionsOp(t *Term, op string, x *Term) bool {
	return findTerm(t, func(t *Term) bool { return t.Op == op && t.Aux == x.Aux }) != nil
}

// impossibleSelfSlice: a string can't equal its own suffix.
func impossibleSelfSlice(f *Facts, n *Term) bool {
	return f.eval(tEq(n, tSlice(n, tInt(6), nil))) == yes
}

// ------------------------------------------------------------------ P28

// A fold goes over the middlewares in order; each one wraps the value that
// the previous one returned.

type foldDest struct {
	name  string
	fn    *ssa.Function
	mws   int                              // index of the parameter
	dest  func(ps []*Term) *Term           // the cell that's wrapped
	start func(f *Facts, ps []*Term) *Term // its value before
	rhb   bool                             // it may get a new method table first
}

func (c *Checker) folds() []foldDest {
	p, r := c.p, c.r
	var ds []foldDest
	add := func(typ, name string, dest func([]*Term) *Term, start func(*Facts, []*Term) *Term) {
		f := p.method(typ, name)
		if typ == "-" {
			f = p.fn(name)
		}
		if f == nil {
			c.undecided(name, "the function was not found")
			return
		}
		ds = append(ds, foldDest{name: p.short(f), fn: f, mws: len(f.Params) - 1, dest: dest, start: start})
	}
	field := func(n string) func([]*Term) *Term {
		return func(ps []*Term) *Term { return p.cell(ps[0], n) }
	}
	global := func(n string) func([]*Term) *Term {
		return func([]*Term) *Term { return p.glob(n).A[0] }
	}
	add("Router", "WrapRequestPasser", field(p.routerPasser()), nil)
	add("_ResponderBase", "WrapRequestPasser", field(r.passer), nil)
	add("_ResponderBase", "WrapRequestHandler", field(r.handler), nil)
	ds[len(ds)-1].rhb = true
	add("_ResponderBase", "WrapRedirectHandler", field(r.redirH), func(f *Facts, ps []*Term) *Term {
		h := p.fld(ps[0], r.redirH)
		switch f.eval(isNilT(h)) {
		case yes:
			return p.glob(r.gCommon)
		case no:
			return h
		}
		return nil
	})
	add("-", "WrapCommonRedirectHandler", global(r.gCommon), nil)
	add("-", "WrapHandlerOfNotFound", global(r.gNotFound), nil)
	return ds
}

// mwCall finds the middleware calls of an iteration.
func mwCalls(p *Prog, tr []*Event, mws *Term) []*Event {
	var r []*Event
	for _, e := range tr {
		if e.Kind == "dyn" && e.Target != nil && p.elemOf(mws, nil, "")(e.Target) {
			r = append(r, e)
		}
	}
	return r
}

func checkP28(c *Checker) {
	p, r := c.p, c.r
	c.rule("fold: the middlewares are applied one after another, first to last, each to the result of the previous one, starting with the current function; the last result is kept")
	c.rule("reject: no middleware, or a nil middleware, is an error")
	for _, d := range c.folds() {
		ip := c.tableInterp()
		ps := params(d.fn)
		mws := ps[d.mws]
		cell := d.dest(ps)
		outs := c.run(ip, newState(), d.fn, ps)
		loops, kept := map[*Term]bool{}, map[*Term]int{}
		for k := range ip.backedges {
			b := &ip.backedges[k]
			at := c.at(b.Fn, b.Fn.Pos())
			calls := mwCalls(p, b.St.trace[b.Head:], mws)
			if len(calls) != 1 {
				c.ob(false, "fold", d.name+": each", at, "an iteration doesn't apply exactly one middleware")
				continue
			}
			i := calls[0].Target.A[0].A[1]
			cur := calls[0].Args[0]
			nx, isHead := b.Next[cur]
			c.ob(ascending(i) && sameLoop(i, b.Loop), "fold", d.name+": order", at, "the middlewares aren't applied from the first to the last")
			c.ob(isHead && nx == calls[0].Res, "fold", d.name+": chain", at, "a middleware isn't applied to the result of the previous one")
			c.ob(b.St.facts.eval(isNilT(calls[0].Target)) == no, "reject", d.name+": nil middleware", at, "a nil middleware is called")
			current := func(init *Term) bool {
				switch {
				case d.start != nil:
					w := d.start(b.St.facts, ps)
					return w != nil && (init == w || init == nil && w.Op == "init" && w.A[0] == cell)
				case init == nil || init.Op == "init" && init.A[0] == cell:
					return true
				case d.rhb:
					g, _ := p.bound(strip(init))
					return g == r.handleRequest
				}
				return false
			}
			if isHead {
				c.ob(current(b.Init[cur]), "fold", d.name+": start", at, "the first middleware isn't applied to the current function")
			}
			loops[cur] = true
			// what's kept along with it
			for w, n := range b.Next {
				if n == calls[0].Res && current(b.Init[w]) {
					kept[w]++
				}
			}
		}
		for i := range outs {
			o := &outs[i]
			at := c.at(o.In, o.Pos)
			if o.St.facts.eval(tEqC(tLen(mws), 0)) == yes {
				c.ob(o.Kind == "panic", "reject", d.name+": no middleware", at, "an empty list of middlewares is accepted")
				continue
			}
			if o.Kind == "panic" {
				nilMw := false
				for t, v := range o.St.facts.b {
					if v && t.Op == "isnil" && p.elemOf(mws, nil, "")(t.A[0]) {
						nilMw = true
					}
				}
				c.ob(nilMw, "reject", d.name+": panic", at, "a call with non-nil middlewares panics")
				continue
			}
			got := o.St.mem[cell]
			ok := false
			for cur := range loops {
				ok = ok || got == cur
			}
			ok = ok || got != nil && kept[got] == len(ip.backedges) && kept[got] > 0
			c.ob(ok, "fold", d.name+": result", at, "the result of the last middleware isn't kept")
			c.ob(exhausted(o.St.facts, mws), "fold", d.name+": all", at, "not every middleware is applied")
		}
		c.ob(len(loops) > 0, "fold", d.name, c.at(d.fn, d.fn.Pos()), "the middlewares aren't applied in a loop")
	}
	c.min("fold", 10)
	c.wrapHandlerOf()
}

// wrapHandlerOf wraps the handlers of the listed methods.
func (c *Checker) wrapHandlerOf() {
	p, r := c.p, c.r
	get, set := c.pairsFns()
	split := p.fn("toUpperSplitByCommaSpace")
	fn := p.method("_RequestHandlerBase", "wrapHandlerOf")
	if fn == nil {
		c.undecided("wrapHandlerOf", "anchor not found")
		return
	}
	method, handler := p.pairFields()
	ip := c.tableInterp()
	ps := params(fn)
	rhb, mws := ps[0], ps[2]
	ms := mk("call", p.fnName(split), split.Signature.Results().At(0).Type(), ps[1])
	outs := c.run(ip, newState(), fn, ps)
	naCell, pairsCell := p.cell(rhb, r.notAllowed), p.cell(rhb, r.pairs)
	kinds := map[string]int{}
	// the handlers that are kept once all middlewares were applied to them,
	// instead of after each one
	deferred := map[string]map[*Term]*Term{"*": {}, "m": {}}
	// the method of the same pair
	isPair := func(t *Term, field string) bool {
		if t == nil {
			return false
		}
		if t.Op == "widen" && len(t.A) == 1 && t.A[0].Op == "faddr" && t.A[0].Aux == field {
			return true
		}
		return t.Op == "init" && t.A[0].Op == "faddr" && t.A[0].Aux == field
	}
	ofMethod := func(init, m *Term) bool {
		return init != nil && init.Op == "ext" && init.Aux == "1" && init.A[0].Op == "call" && init.A[0].Aux == p.fnName(get) && init.A[0].A[1] == m
	}
	kindOf := func(f *Facts) string {
		first := elemTermF(f, ms)
		if first != nil && f.eval(tEqC(tLen(ms), 1)) == yes {
			switch {
			case f.eval(tEq(first, tStr("!"))) == yes:
				return "!"
			case f.eval(tEq(first, tStr("*"))) == yes:
				return "*"
			}
		}
		return "m"
	}
	for k := range ip.backedges {
		b := &ip.backedges[k]
		calls := mwCalls(p, b.St.trace[b.Head:], mws)
		if len(calls) == 1 && len(setCalls(b.St.trace[b.Head:], set)) == 0 {
			if d := deferred[kindOf(b.St.facts)]; d != nil {
				d[calls[0].Args[0]] = b.Init[calls[0].Args[0]]
			}
		}
	}
	for k := range ip.backedges {
		b := &ip.backedges[k]
		at := c.at(b.Fn, b.Fn.Pos())
		calls := mwCalls(p, b.St.trace[b.Head:], mws)
		if len(calls) == 0 {
			// the outer loops: over the methods or the pairs. The inner loop
			// must have been exhausted.
			done := exhausted(b.St.facts, mws)
			c.ob(done, "fold", "wrapHandlerOf: all middlewares", at, "not every middleware is applied before the next method")
			kind := kindOf(b.St.facts)
			if d := deferred[kind]; len(d) > 0 {
				sets := setCalls(b.St.trace[b.Head:], set)
				ok := len(sets) == 1 && sets[0].Args[0] == pairsCell
				var init *Term
				if ok {
					init = d[sets[0].Args[2]]
				}
				if kind == "*" {
					c.ob(ok && init != nil, "fold", "wrapHandlerOf: * kept", at, "the result of the last middleware isn't kept for the method")
					c.ob(ok && isPair(sets[0].Args[1], method) && isPair(init, handler), "fold", "wrapHandlerOf: * start", at, "the first middleware isn't applied to the method's handler")
				} else {
					ok = ok && p.elemOf(ms, nil, "")(sets[0].Args[1])
					c.ob(ok && init != nil, "fold", "wrapHandlerOf: method kept", at, "the result of the last middleware isn't kept for the listed method")
					c.ob(ok && ofMethod(init, sets[0].Args[1]), "fold", "wrapHandlerOf: method start", at, "the first middleware isn't applied to the handler of the listed method")
				}
			}
			continue
		}
		if len(calls) != 1 {
			c.ob(false, "fold", "wrapHandlerOf: each", at, "an iteration doesn't apply exactly one middleware")
			continue
		}
		i, cur, res := calls[0].Target.A[0].A[1], calls[0].Args[0], calls[0].Res
		nx, isHead := b.Next[cur]
		c.ob(ascending(i) && sameLoop(i, b.Loop), "fold", "wrapHandlerOf: order", at, "the middlewares aren't applied from the first to the last")
		c.ob(isHead && nx == res, "fold", "wrapHandlerOf: chain", at, "a middleware isn't applied to the result of the previous one")
		c.ob(b.St.facts.eval(isNilT(calls[0].Target)) == no, "reject", "wrapHandlerOf: nil middleware", at, "a nil middleware is called")
		init := b.Init[cur]
		sets := setCalls(b.St.trace[b.Head:], set)
		switch kindOf(b.St.facts) {
		case "!":
			kinds["!"]++
			// the handler of not allowed methods, or the default one
			h := p.fld(rhb, r.notAllowed)
			ok := init == h || init == nil
			if !ok && b.St.facts.eval(isNilT(h)) == yes {
				g, recv := p.bound(strip(init))
				ok = g != nil && recv == rhb
			}
			if !ok {
				// an infeasible path: "!" split again is not "!"
				ok = infeasibleBang(b.St.facts)
			}
			c.ob(ok, "fold", "wrapHandlerOf: ! start", at, "the first middleware isn't applied to the handler of not allowed methods")
		case "*":
			kinds["*"]++
			if len(sets) == 0 {
				continue // kept after the loop
			}
			ok := len(sets) == 1 && sets[0].Args[0] == pairsCell && sets[0].Args[2] == res
			c.ob(ok, "fold", "wrapHandlerOf: * kept", at, "the result of a middleware isn't kept for the method")
			c.ob(ok && isPair(sets[0].Args[1], method) && isPair(init, handler), "fold", "wrapHandlerOf: * start", at, "the first middleware isn't applied to the method's handler")
		default:
			kinds["m"]++
			if len(sets) == 0 {
				continue
			}
			ok := len(sets) == 1 && sets[0].Args[0] == pairsCell && sets[0].Args[2] == res && p.elemOf(ms, nil, "")(sets[0].Args[1])
			c.ob(ok, "fold", "wrapHandlerOf: method kept", at, "the result of a middleware isn't kept for the listed method")
			c.ob(ok && ofMethod(init, sets[0].Args[1]), "fold", "wrapHandlerOf: method start", at, "the first middleware isn't applied to the handler of the listed method")
		}
	}
	for _, k := range []string{"!", "*", "m"} {
		c.ob(kinds[k] > 0, "fold", "wrapHandlerOf: "+k, c.at(fn, fn.Pos()), "the middlewares aren't applied for %q", k)
	}
	for i := range outs {
		o := &outs[i]
		if o.Kind != "return" {
			continue
		}
		at := c.at(o.In, o.Pos)
		f := o.St.facts
		if !o.Res[0].isNil() {
			continue
		}
		c.ob(f.eval(tEqC(tLen(mws), 0)) == no, "reject", "wrapHandlerOf: no middleware", at, "an empty list of middlewares is accepted")
		switch kindOf(f) {
		case "!":
			v := o.St.mem[naCell]
			c.ob(exhausted(f, mws) && v != nil && v.Op == "widen", "fold", "wrapHandlerOf: ! result", at, "the result of the last middleware isn't kept as the handler of not allowed methods")
		case "*":
			done := false
			for t, v := range f.b {
				if !v && t.Op == "lt" && t.Aux == "0" && ascending(t.A[0]) && t.A[1].Op == "len" && strings.Contains(t.A[1].String(), r.pairs) {
					done = true
				}
			}
			c.ob(done || f.eval(tEqC(tLen(p.fld(rhb, r.pairs)), 0)) == yes, "fold", "wrapHandlerOf: * all", at, "not every method's handler is wrapped")
		default:
			c.ob(exhausted(f, ms), "fold", "wrapHandlerOf: all methods", at, "not every listed method's handler is wrapped")
		}
	}
}

// infeasibleBang: "!" is known to be split into something else than "!".
func infeasibleBang(f *Facts) bool {
	t := f.find(func(t *Term) bool {
		return t.Op == "init" && t.A[0].Op == "iaddr" && findTerm(t.A[0].A[0], func(t *Term) bool {
			return t.Op == "call" && len(t.A) == 1 && t.A[0] == tStr("!")
		}) != nil
	})
	return t != nil && f.eval(tEq(t, tStr("!"))) == no
}

func init() {
	const how = "Every abstract path of the functions around the method table (dispatch, default answers, lookup, setting, detection, wrapping) is analysed, loops by their invariant and their step. "
	register("P15", how+"Judged: which handler gets the request, and that a responder's request handler is the dispatch of its table.", checkP15)
	register("P16", how+"Judged: the default answers to OPTIONS and to methods without a handler, and the list of allowed methods.", checkP16)
	register("P17", how+"Judged: the lookup, the setting and the detection of handlers.", checkP17)
	register("P28", how+"Judged: every function that applies middlewares.", checkP28)
}
