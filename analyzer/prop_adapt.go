package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Adapters of net/http handlers and middlewares.

const serveHTTP = "invoke http.Handler.ServeHTTP"

// ctxOf is the context of a request.
func ctxOf(req *Term) *Term {
	req = strip(req)
	if req.Op == "call" && req.Aux == "(*net/http.Request).WithContext" {
		return strip(req.A[1])
	}
	return mk("call", "(*net/http.Request).Context", nil, req)
}

// baseReq is the request that another one was derived from.
func baseReq(req *Term) *Term {
	req = strip(req)
	for req.Op == "call" && req.Aux == "(*net/http.Request).WithContext" {
		req = strip(req.A[0])
	}
	return req
}

// ctxValue is what the context has under the key; nil if it's not known to
// have it.
func (p *Prog) ctxValue(ctx, key *Term) *Term {
	for ctx.Op == "call" && ctx.Aux == "context.WithValue" {
		if sameKey(ctx.A[1], key) {
			return strip(ctx.A[2])
		}
		if !p.otherKey(ctx.A[1], key) {
			return nil
		}
		ctx = strip(ctx.A[0])
	}
	return nil
}

// otherKey: the two keys differ for sure; they are variables that are set once
// to values of different types, or such values.
func (p *Prog) otherKey(x, y *Term) bool {
	tx, ty := p.keyType(x), p.keyType(y)
	return tx != nil && ty != nil && !types.Identical(tx, ty)
}

func (p *Prog) keyType(t *Term) types.Type {
	for t.Op == "iface" {
		t = t.A[0]
	}
	if t.Op == "init" && t.A[0].Op == "global" {
		var typ types.Type
		n := 0
		for _, f := range p.allFns() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					g, ok := s.Addr.(*ssa.Global)
					if !ok || g.Name() != t.A[0].Aux || g.Pkg != p.spkg {
						continue
					}
					n++
					if m, ok := s.Val.(*ssa.MakeInterface); ok {
						typ = m.X.Type()
					} else if !types.IsInterface(s.Val.Type()) {
						typ = s.Val.Type()
					}
				}
			}
		}
		if n == 1 {
			return typ
		}
		return nil
	}
	if t.T != nil && !types.IsInterface(t.T) {
		return t.T
	}
	return nil
}

// adapter makes the handler that the adapter returns.
func (c *Checker) adapter(name string) (rr *regRun, fn *ssa.Function, free []*Term) {
	rr = c.pureRun("-", name, nil, nil)
	if rr == nil {
		return nil, nil, nil
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		if !c.ob(o.Kind == "return" && len(c.p.writesIn(o.St.trace)) == 0 && len(effects(o.St.trace, "dyn")) == 0, "adapt", name+": quiet", at, "making the handler does more than that") {
			return nil, nil, nil
		}
		fn, free = c.p.termFn(strip(o.Res[0]))
		c.ob(fn != nil, "adapt", name+": handler", at, "the handler isn't known [%s]", o.Res[0])
	}
	if len(rr.outs) != 1 {
		c.ob(false, "adapt", name+": handler", c.at(rr.fn, rr.fn.Pos()), "which handler is returned depends on something")
		return nil, nil, nil
	}
	return rr, fn, free
}

// ownWrites are the writes to anything but objects that the call made itself.
func (p *Prog) ownWrites(captured []*Term, tr []*Event) []*Event {
	var r []*Event
	for _, e := range effects(tr, "store", "mapset", "mapdel", "clear", "copy") {
		t := rootOf(e.Target)
		if t.Op == "alloc" && !within(captured, t) || t.Op == "mkmap" || t.Op == "mkslice" || t.Op == "list" {
			continue
		}
		r = append(r, e)
	}
	return r
}

func within(ts []*Term, x *Term) bool {
	for _, t := range ts {
		if findTerm(t, func(y *Term) bool { return y == x }) != nil {
			return true
		}
	}
	return false
}

// ctxEnd is the context that values were added to.
func ctxEnd(ctx *Term) *Term {
	for ctx.Op == "call" && ctx.Aux == "context.WithValue" {
		ctx = strip(ctx.A[0])
	}
	return ctx
}

func ctxKept(req, r *Term) bool {
	x := ctxEnd(ctxOf(req))
	return x.Op == "call" && x.Aux == "(*net/http.Request).Context" && strip(x.A[0]) == r
}

func checkP35(c *Checker) {
	c.rule("adapt: making an adapter calls nothing and changes nothing")
	c.rule("call: the adapted handler is called exactly once with the response writer and the request, and counts as having handled it")
	c.rule("args: the adapted handler's request has the arguments in its context under the key that ArgsFrom reads")
	c.rule("wrap: the middleware is applied once, when a handler is wrapped, to a handler that leads to the next one")
	c.rule("next: when the middleware goes on, the next handler is called once per call with the middleware's response writer and request and the arguments of the request")
	c.rule("result: the result is the next handler's; a request that the middleware doesn't pass on is handled")
	key := c.argsKey("args")
	if key == nil {
		return
	}
	for _, a := range []struct {
		name string
		args bool
	}{{"Hr", false}, {"FnHr", false}, {"HrWithArgs", true}, {"FnHrWithArgs", true}} {
		rr, fn, free := c.adapter(a.name)
		if fn == nil {
			continue
		}
		c.adapted(a.name, rr, fn, free, key, a.args)
	}
	c.mw(key)
	c.min("adapt", 8)
	c.min("call", 12)
	c.min("args", 4)
	c.min("wrap", 3)
	c.min("next", 3)
	c.min("result", 3)
}

func (c *Checker) adapted(name string, rr *regRun, fn *ssa.Function, free []*Term, key *Term, withArgs bool) {
	p := c.p
	st := p.later(rr.outs[0].St)
	ip := p.newInterp()
	ip.DynHavoc = p.argsHavoc()
	ps := params(fn)
	if len(ps) != 3 {
		c.undecided(name, "the handler has other parameters")
		return
	}
	outs := ip.RunClosure(st.clone(), fn, ps, free)
	c.mark(ip, len(outs))
	if ip.err != "" || len(outs) == 0 {
		c.undecided(p.short(fn), "%s", ip.err)
		return
	}
	h := rr.ps[0]
	for i := range outs {
		o := &outs[i]
		at := c.at(o.In, o.Pos)
		if !c.ob(o.Kind == "return", "call", name+": panics", at, "the handler panics") {
			continue
		}
		f := o.St.facts
		calls := c.handlerCalls(o.St.trace, h)
		if !c.ob(len(calls) == 1, "call", name+": once", at, "the adapted handler isn't called exactly once [path: %s]", clip(f.String(), 300)) {
			continue
		}
		w, req := calls[0][0], calls[0][1]
		c.ob(strip(w) == ps[0], "call", name+": writer", at, "the adapted handler gets another response writer [%s]", w)
		c.ob(baseReq(req) == ps[1], "call", name+": request", at, "the adapted handler gets another request [%s]", req)
		c.ob(ctxKept(req, ps[1]), "call", name+": context", at, "the request's own context is lost [%s]", clip(ctxOf(req).String(), 300))
		c.ob(f.eval(tEq(o.Res[0], tBool(true))) == yes, "call", name+": handled", at, "a request that the adapted handler got may count as not handled")
		c.ob(len(p.ownWrites(free, o.St.trace)) == 0, "call", name+": only that", at, "the handler changes something")
		if withArgs {
			c.ob(p.ctxValue(ctxOf(req), key) == ps[2], "args", name+": context", at, "the arguments of the request aren't in the context under the key that ArgsFrom reads [%s]", clip(ctxOf(req).String(), 300))
		}
	}
}

// handlerCalls are the arguments of the calls of a net/http handler.
func (c *Checker) handlerCalls(tr []*Event, h *Term) [][]*Term {
	var r [][]*Term
	for _, e := range tr {
		switch {
		case e.Kind == "dyn" && strip(e.Target) == h && len(e.Args) == 2:
			r = append(r, e.Args)
		case (e.Kind == "ext" || e.Kind == "dyn") && len(e.Args) == 3 && (e.Name == serveHTTP || e.Name == "(net/http.HandlerFunc).ServeHTTP") && strip(e.Args[0]) == h:
			r = append(r, e.Args[1:])
		case e.Kind == "dyn" && len(e.Args) == 2 && strings.HasSuffix(e.Target.Aux, "Handler).ServeHTTP$bound") && len(e.Target.A) == 1 && strip(e.Target.A[0]) == h:
			r = append(r, e.Args)
		}
	}
	return r
}

// mw judges the adapter of middlewares.
func (c *Checker) mw(key *Term) {
	p := c.p
	rr, fn, free := c.adapter("Mw")
	if fn == nil {
		return
	}
	mwT := rr.ps[0]
	ip := p.newInterp()
	st := p.later(rr.outs[0].St)
	ps := params(fn)
	outs := ip.RunClosure(st.clone(), fn, ps, free)
	c.mark(ip, len(outs))
	if ip.err != "" || len(outs) == 0 || len(ps) != 1 {
		c.undecided(p.short(fn), "%s", ip.err)
		return
	}
	for i := range outs {
		o := &outs[i]
		at := c.at(o.In, o.Pos)
		ds := effects(o.St.trace, "dyn")
		if !c.ob(o.Kind == "return" && len(ds) == 1 && strip(ds[0].Target) == mwT && len(ds[0].Args) == 1, "wrap", "Mw: applied", at, "the middleware isn't applied exactly once when a handler is wrapped") {
			continue
		}
		c.ob(len(p.ownWrites(free, o.St.trace)) == 0, "wrap", "Mw: only that", at, "wrapping changes something")
		bridge, bfree := p.termFn(strip(ds[0].Args[0]))
		handler, hfree := p.termFn(strip(o.Res[0]))
		if !c.ob(bridge != nil && len(bridge.Params) == 2, "wrap", "Mw: next", at, "the handler that the middleware gets isn't known [%s]", ds[0].Args[0]) ||
			!c.ob(handler != nil && len(handler.Params) == 3, "wrap", "Mw: handler", at, "the handler that is made isn't known [%s]", o.Res[0]) {
			continue
		}
		c.wrapped(o, ds[0].Res, ps[0], bridge, bfree, handler, hfree, key)
	}
}

// wrapped judges the handler that a middleware was made to.
func (c *Checker) wrapped(made *Outcome, h, next *Term, bridge *ssa.Function, bfree []*Term, handler *ssa.Function, hfree []*Term, key *Term) {
	p := c.p
	base := p.later(made.St)
	// how often the middleware calls the next handler
	for n := 0; n <= 2; n++ {
		ip := p.newInterp()
		ip.DynHavoc = p.argsHavoc()
		ip.Model = func(ip *Interp, st *State, in *ssa.Function, name string, fn *ssa.Function, args []*Term, site string) ([]callRes, bool) {
			isH := name == serveHTTP && len(args) == 3
			if !isH || strip(args[0]) != h {
				return nil, false
			}
			st.trace = append(st.trace, &Event{Kind: "mw", Args: args, In: in, Pos: token.NoPos, Mem: copyMem(st.mem)})
			for _, a := range args {
				ip.escape(st, a)
			}
			cur := []*State{st}
			var rs []callRes
			for k := 0; k < n; k++ {
				var nx []*State
				for _, s := range cur {
					w2 := symT("$mw.w"+itoa(k), args[1].T)
					ctx := ctxOf(args[2])
					r2 := mk("call", "(*net/http.Request).WithContext", args[2].T, symT("$mw.r"+itoa(k), args[2].T), ctx)
					for _, o := range ip.RunClosure(s, bridge, []*Term{w2, r2}, bfree) {
						if o.Kind != "return" {
							o := o
							rs = append(rs, callRes{st: o.St, out: &o})
							continue
						}
						nx = append(nx, o.St)
					}
				}
				cur = nx
			}
			for _, s := range cur {
				rs = append(rs, callRes{st: s})
			}
			return rs, true
		}
		ps := params(handler)
		outs := ip.RunClosure(base.clone(), handler, ps, hfree)
		c.mark(ip, len(outs))
		if ip.err != "" || len(outs) == 0 {
			c.undecided(p.short(handler), "%s", ip.err)
			return
		}
		what := []string{"not called", "called", "called twice"}[n]
		for i := range outs {
			o := &outs[i]
			at := c.at(o.In, o.Pos)
			if !c.ob(o.Kind == "return", "call", "Mw: panics", at, "the handler panics when the next one is %s [path: %s]", what, clip(o.St.facts.String(), 300)) {
				continue
			}
			f := o.St.facts
			calls := effects(o.St.trace, "mw")
			if !c.ob(len(calls) == 1, "call", "Mw: once", at, "the middleware's handler isn't called exactly once [path: %s]", clip(f.String(), 300)) {
				continue
			}
			w, req := calls[0].Args[1], calls[0].Args[2]
			c.ob(strip(w) == ps[0], "call", "Mw: writer", at, "the middleware's handler gets another response writer [%s]", w)
			c.ob(baseReq(req) == ps[1], "call", "Mw: request", at, "the middleware's handler gets another request [%s]", req)
			c.ob(ctxKept(req, ps[1]), "call", "Mw: own context", at, "the request's own context is lost [%s]", clip(ctxOf(req).String(), 300))
			c.ob(p.ctxValue(ctxOf(req), key) == ps[2], "args", "Mw: context", at, "the arguments of the request aren't in the context under the key that ArgsFrom reads [%s]", clip(ctxOf(req).String(), 300))
			for _, e := range p.ownWrites(append(append([]*Term(nil), hfree...), bfree...), o.St.trace) {
				ok := cellName(e.Target) == c.r.handled && rootOf(e.Target) == ps[2]
				c.ob(ok, "call", "Mw: only that", at, "state that calls of the handler share is changed [%s]", e.Target)
			}
			ds := effects(o.St.trace, "dyn")
			if !c.ob(len(ds) == n, "next", "Mw: "+what, at, "the next handler isn't called once for each call of the middleware") {
				continue
			}
			for k, d := range ds {
				ok := strip(d.Target) == next && len(d.Args) == 3
				if !c.ob(ok, "next", "Mw: next "+what, at, "another handler is called [%s]", d.Target) {
					continue
				}
				c.ob(strip(d.Args[0]) == symT("$mw.w"+itoa(k), w.T), "next", "Mw: writer "+what, at, "the next handler gets another response writer than the middleware passes on [%s]", d.Args[0])
				c.ob(baseReq(d.Args[1]) == symT("$mw.r"+itoa(k), req.T), "next", "Mw: request "+what, at, "the next handler gets another request than the middleware passes on [%s]", d.Args[1])
				c.ob(strip(d.Args[2]) == ps[2], "next", "Mw: args "+what, at, "the next handler gets other arguments [%s]", d.Args[2])
			}
			want := tBool(true)
			if n > 0 {
				want = ds[n-1].Res
			}
			ok := strip(o.Res[0]) == want || f.eval(tEq(o.Res[0], want)) == yes
			c.ob(ok, "result", "Mw: "+what, at, "the result isn't %s [%s]", clip(want.String(), 200), o.Res[0])
		}
	}
}

func init() {
	register("P35", "Every abstract path of the adapters and of the handlers that they return is analysed; a middleware is taken to call the next handler not at all, once and twice. Judged: who is called with which response writer, request and arguments, what the context holds, and the result.", checkP35)
}
