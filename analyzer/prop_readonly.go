package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which objects functions write. The target of every write on every abstract
// path is traced back to where the object comes from.

// owner describes where the object that an address belongs to comes from:
// "fresh", "args", "request" (things reached through the response writer or
// the request's context) or a description of shared state.
func (p *Prog) owner(st *State, a *Term, shared bool) string {
	if rootOf(a).isNil() {
		return "fresh" // the write panics
	}
	for d := 0; d < 40; d++ {
		switch a.Op {
		case "faddr", "iaddr":
			a = a.A[0]
			continue
		case "slice", "append", "appendall", "empty", "widen", "matchvals", "conv", "ta":
			if len(a.A) == 0 {
				return "fresh"
			}
			if a.Op == "widen" && p.onWiden != nil {
				p.onWiden(a)
			}
			if a.Op == "widen" && (a.A[0].isConst() || a.A[0].isNil()) {
				return "fresh"
			}
			if (a.Op == "append" || a.Op == "appendall") && a.A[0].isNil() {
				return "fresh"
			}
			a = a.A[0]
			continue
		case "iface":
			a = a.A[0]
			continue
		case "alloc", "mkslice", "mkmap", "list", "const", "struct", "clo", "newerr":
			return "fresh"
		case "sym":
			if a.T != nil && (named(a.T, "Args") || named(a.T, "TemplateValues", "_Args")) {
				return "args"
			}
			if a.T != nil && typeName(a.T) == "http.ResponseWriter" {
				return "request"
			}
			return a.String()
		case "invres", "extres":
			if len(a.A) > 0 {
				a = a.A[0]
				continue
			}
			return a.String()
		case "call":
			switch a.Aux {
			case "invoke http.ResponseWriter.Header", "invoke context.Context.Value", "(*net/http.Request).Context":
				return "request"
			}
			return "fresh"
		case "init":
			c := a.A[0]
			if c.Op == "faddr" && (c.Aux == p.roles.hpv || c.Aux == p.roles.slc) {
				if o := p.owner(st, c, shared); o == "args" {
					return "args"
				}
			}
			if c.Op == "sym" && c.T != nil && named(derefType(derefType(c.T)), "TemplateValues", "_Args") {
				return "args"
			}
			return c.String()
		case "ext":
			a = a.A[0]
			continue
		default:
			if strings.HasPrefix(a.Op, "ext:") || strings.HasPrefix(a.Op, "call:") {
				return "fresh"
			}
			return a.String()
		}
	}
	return a.String()
}

type write struct {
	fn   *ssa.Function
	kind string
	what string
	pos  string
	own  string
}

// writes runs the function and returns its writes to objects that aren't
// fresh.
func (p *Prog) writes(c *Checker, ip *Interp, f *ssa.Function, args, free []*Term) ([]write, []Outcome, bool) {
	seen := map[string]bool{}
	var ws []write
	n := 0
	// what a loop changes is an object that an iteration may have replaced
	type changed struct {
		w   write
		own string
		t   *Term
	}
	var ch []changed
	ip.Effect = func(st *State, e *Event) {
		kind, t := e.Kind, e.Target
		var own string
		var wid []*Term
		p.onWiden = func(t *Term) { wid = append(wid, t) }
		defer func() { p.onWiden = nil }()
		switch e.Kind {
		case "store", "mapset", "mapdel", "clear", "copy":
			own = p.owner(st, t, true)
		case "append":
			// writes the spare capacity of the array under the slice
			if t.isNil() {
				return
			}
			own = p.owner(st, t, true)
		case "ext":
			if !mutatingExt(e.Name) {
				return
			}
			for _, a := range e.Args {
				if !sharable(a) {
					continue
				}
				if o := p.owner(st, a, true); o != "fresh" && o != "args" && o != "request" {
					own, t = o, a
				}
			}
			kind = "call of " + e.Name
			if own == "" {
				return
			}
		default:
			return
		}
		n++
		for _, x := range wid {
			ch = append(ch, changed{write{e.In, kind, clip(t.String(), 80), p.at(e.In, e.Pos), ""}, own, x})
		}
		if own == "fresh" {
			return
		}
		k := kind + own + p.short(e.In) + t.String()
		if seen[k] {
			return
		}
		seen[k] = true
		ws = append(ws, write{e.In, kind, clip(t.String(), 80), p.at(e.In, e.Pos), own})
	}
	outs := ip.RunClosure(newState(), f, args, free)
	c.mark(ip, len(outs))
	if ip.err != "" {
		c.undecided(p.short(f), "%s", ip.err)
		return nil, nil, false
	}
	for _, x := range ch {
		for i := range ip.backedges {
			b := &ip.backedges[i]
			nx := b.Next[x.t]
			if nx == nil || nx == x.t {
				continue
			}
			if o := p.owner(b.St, nx, true); o != "fresh" && o != "args" && o != "request" && o != x.own {
				w := x.w
				w.own = o
				if k := w.kind + o + p.short(w.fn) + w.what; !seen[k] {
					seen[k] = true
					ws = append(ws, w)
				}
			}
		}
	}
	return ws, outs, true
}

func sharable(a *Term) bool {
	a = strip(a)
	if a.T == nil {
		return true
	}
	switch a.T.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}

// mutatingExt: functions of other packages that may write what they are given.
// Synchronised containers are left out: their use isn't a race.
func mutatingExt(n string) bool {
	if purePkgs[pkgOfName(n)] || pureFns[n] {
		return false
	}
	switch pkgOfName(n) {
	case "sync", "sync/atomic", "fmt":
		return false
	}
	switch n {
	case "net/http.Error", "net/http.Redirect", "net/http.NotFound",
		"(net/http.Header).Get", "(net/http.Header).Values", "(net/http.Header).Clone",
		"(*net/http.Request).UserAgent", "(*net/http.Request).Referer", "(*net/http.Request).Cookie", "(*net/http.Request).Cookies",
		"(*net/url.URL).Query", "(net/url.Values).Get", "(net/url.Values).Has":
		return false
	}
	if strings.HasPrefix(n, "invoke ") {
		// the user's handler or the response writer
		return false
	}
	return true
}

// servingFns are the functions that run while requests are served: entry
// points, receivers, passers, method handlers, and the closures with the
// signature of a handler that the package makes.
func (p *Prog) servingFns() []*ssa.Function {
	r := p.roles
	set := map[*ssa.Function]bool{}
	for _, f := range []*ssa.Function{r.serveRouter, r.serveHost, r.serveRes, r.recvHost, r.recvRes, r.passHost, r.passRes, r.roPass, r.handleRequest,
		p.method("_RequestHandlerBase", "ServeHTTP")} {
		if f != nil {
			set[f] = true
		}
	}
	ht := p.lookupType("Handler")
	rt := p.lookupType("RedirectHandler")
	for _, f := range p.allFns() {
		if len(f.Blocks) == 0 || strings.HasPrefix(f.Name(), "init") && f.Parent() == nil {
			continue
		}
		sig := types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic())
		for _, t := range []*types.Named{ht, rt} {
			if t != nil && types.Identical(sig, t.Underlying()) {
				set[f] = true
			}
		}
		// http.HandlerFunc closures of the adapters
		if f.Parent() != nil && sigKey(f.Signature) == sigKey(r.serveRouter.Signature) {
			set[f] = true
		}
	}
	var fs []*ssa.Function
	for f := range set {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return p.short(fs[i]) < p.short(fs[j]) })
	return fs
}

func init() {
	register("P03", "Every abstract path of every function that runs while requests are served (entry points, request receivers and passers, method handlers, redirectors, adapters, the methods of Args, matching of templates) is analysed, and the target of every write (stores, map updates, copy, append, calls of other packages' functions that write) is traced back to the object's origin.", func(c *Checker) {
		c.rule("origin: the target of every write is an object made on the path, the request's Args, or reached through the response writer or the request's context")
		p := c.p
		fns := p.servingFns()
		seen := map[*ssa.Function]bool{}
		for _, f := range fns {
			seen[f] = true
		}
		for _, m := range []string{"HostPathValues", "RemainingPath", "ResponderSharedData", "ResponderImpl", "Host", "CurrentResource", "Set", "Get"} {
			if f := p.method("Args", m); f != nil && !seen[f] {
				fns = append(fns, f)
			} else if f == nil {
				c.undecided("Args."+m, "the method was not found")
			}
		}
		if f := p.method("Template", "Match"); f != nil {
			fns = append(fns, f)
		}
		for _, n := range []string{"Get", "Set"} {
			if f := p.method("TemplateValues", n); f != nil {
				fns = append(fns, f)
			}
		}
		for _, f := range fns {
			ip := p.newInterp()
			ip.DynHavoc = p.argsHavoc()
			mm := p.matchModel()
			if f.Name() == "Match" {
				mm = nil
			}
			ip.Model = p.poolModel(mm)
			ws, _, ok := p.writes(c, ip, f, params(f), nil)
			if !ok {
				continue
			}
			bad := 0
			for _, w := range ws {
				if w.own == "args" || w.own == "request" {
					continue
				}
				bad++
				c.ob(false, "origin", p.short(f)+" writes "+trimPkg(w.own), w.pos, "while a request is served, %s of %s, which belongs to %s: concurrent requests see it", w.kind, w.what, w.own)
			}
			if bad == 0 {
				c.ob(true, "origin", p.short(f), "", "")
			}
		}
		c.min("origin", 8)
	})
}
