package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The dispatch of a responder: what a host or a resource does with a request
// that has reached it. The specification is a decision over the request and
// the configuration; every abstract path of the request receiver is compared
// with it.

type dispatchMismatch struct {
	fn     *ssa.Function
	pos    string
	stage  string // the stage of the decision that isn't met
	secure bool   // the policies that decide or influence this path
	slash  bool
	clean  bool
	target bool // the redirect's target, code or handler is wrong
	what   string
}

type dispatchResult struct {
	paths  map[string]int
	leaves map[string]int // judged leaves by stage
	mis    []dispatchMismatch
	ip     []*Interp
	n      int
	errs   []string
}

var dispatchCache *dispatchResult

type dispatchCtx struct {
	p    *Prog
	r    *Roles
	res  *dispatchResult
	fn   *ssa.Function
	host bool

	self, w, req, args                  *Term
	path, raw, clean, idx, cfs, tls     *Term
	url, urlHost, urlScheme, urlPath    *Term
	urlRawPath, reqHost, handler, redir *Term
	passer, rhbT, canH, redirH, prc     *Term
	tsl, unesc, unescErr                *Term
}

func (d *dispatchCtx) bit(n string) *Term { return bitOf(d.cfs, d.r.bit[n]) }

func (p *Prog) dispatch() *dispatchResult {
	if dispatchCache != nil {
		return dispatchCache
	}
	res := &dispatchResult{paths: map[string]int{}, leaves: map[string]int{}}
	for _, host := range []bool{false, true} {
		p.dispatchOf(res, host)
	}
	dispatchCache = res
	return res
}

func (p *Prog) newDispatchCtx(fn *ssa.Function, host bool) *dispatchCtx {
	r := p.roles
	ps := params(fn)
	d := &dispatchCtx{p: p, r: r, fn: fn, host: host}
	if len(ps) != 4 {
		return nil
	}
	d.self, d.w, d.req, d.args = ps[0], ps[1], ps[2], ps[3]
	d.path, d.raw, d.clean, d.idx = p.fld(d.args, r.path), p.fld(d.args, r.raw), p.fld(d.args, r.clean), p.fld(d.args, r.idx)
	d.cfs = p.fld(d.self, r.cfs)
	d.tls = p.fld(d.req, "TLS")
	d.url = p.fld(d.req, "URL")
	d.urlHost, d.urlScheme = p.fld(d.url, "Host"), p.fld(d.url, "Scheme")
	d.urlPath, d.urlRawPath = p.fld(d.url, "Path"), p.fld(d.url, "RawPath")
	d.reqHost = p.fld(d.req, "Host")
	d.handler, d.redir, d.passer = p.fld(d.self, r.handler), p.fld(d.self, r.redirector), p.fld(d.self, r.passer)
	d.rhbT = p.fld(d.self, r.rhb)
	d.redirH, d.prc = p.fld(d.self, r.redirH), p.fld(d.self, r.prc)
	pairs := p.fld(d.rhbT, r.pairs)
	d.canH = tAnd(tNot(isNilT(d.rhbT)), tLt(tInt(0), tLen(pairs)))
	d.tsl = tAnd(tNot(tEq(d.path, tStr("/"))), lastIs(d.path, '/'))
	un := mk("call", "net/url.PathUnescape", nil, d.path)
	d.unesc = mk("ext", "0", types.Typ[types.String], un)
	d.unescErr = mk("ext", "1", types.Universe.Lookup("error").Type(), un)
	return d
}

// feasible removes the abstract states that the acquisition of Args excludes:
// the routing path is the URL's escaped path if there is one and the path
// otherwise, and unless it was cleaned, it ends the way they do.
func (d *dispatchCtx) feasible(f *Facts) bool {
	switch f.eval(d.raw) {
	case yes:
		if f.eval(tEqC(tLen(d.urlRawPath), 0)) == yes {
			return false
		}
	case no:
		if f.eval(tEqC(tLen(d.urlRawPath), 0)) == no {
			return false
		}
	}
	if f.eval(d.tsl) == yes {
		// cleaning keeps the trailing slash
		if f.eval(lastIs(d.urlPath, '/')) == no {
			return false
		}
		if d.escaped(f) == yes && f.eval(lastIs(d.urlRawPath, '/')) == no {
			return false
		}
		if f.eval(lastIs(d.unesc, '/')) == no && f.eval(isNilT(d.unescErr)) == yes {
			return false
		}
	}
	if f.eval(d.tsl) == no && f.eval(tEq(d.path, tStr("/"))) == no {
		if d.escaped(f) == no && f.eval(lastIs(d.urlPath, '/')) == yes {
			return false
		}
		if d.escaped(f) == yes && f.eval(lastIs(d.urlRawPath, '/')) == yes {
			return false
		}
	}
	return true
}

// escaped: the URL has an escaped path.
func (d *dispatchCtx) escaped(f *Facts) tri {
	if t := f.eval(d.raw); t != unk {
		return t
	}
	return f.eval(tEqC(tLen(d.urlRawPath), 0)).not()
}

func (p *Prog) dispatchOf(res *dispatchResult, host bool) {
	r := p.roles
	fn := r.recvRes
	if host {
		fn = r.recvHost
	}
	name := p.short(fn)
	d := p.newDispatchCtx(fn, host)
	if d == nil {
		res.errs = append(res.errs, name+": unexpected signature")
		return
	}
	d.res = res
	ip := p.newInterp()
	ip.DynHavoc = p.argsHavoc()
	st := newState()
	// the cursor never passes the end of the path
	f := st.facts
	if host {
		f = f.assume(tEq(d.idx, tInt(0)), true)[0]
	} else {
		f = f.assume(tLt(tLen(d.path), d.idx), false)[0]
		f = f.assume(tLt(d.idx, tInt(0)), false)[0]
	}
	st.facts = f.clone()
	outs := ip.Run(st, fn, []*Term{d.self, d.w, d.req, d.args})
	res.ip = append(res.ip, ip)
	res.n += len(outs)
	res.paths[name] = len(outs)
	if ip.err != "" {
		res.errs = append(res.errs, name+": "+ip.err)
		return
	}
	if len(outs) == 0 {
		res.errs = append(res.errs, name+": no paths")
	}
	for i := range outs {
		if !d.feasible(outs[i].St.facts) {
			continue
		}
		d.judge(&outs[i])
	}
	for _, b := range ip.backedges {
		_ = b
		res.errs = append(res.errs, name+": the receiver has a loop that is not understood")
		break
	}
}

type actual struct {
	kind string // passerTrue, false, notFound, redirect, redirector, handler, other, panic
	ev   *Event
	what string
}

func (d *dispatchCtx) classify(o *Outcome) (actual, []*Event) {
	evs := dynEvents(o.St.trace)
	if o.Kind != "return" {
		return actual{kind: "panic", what: "panics"}, evs
	}
	e := resultEvent(o)
	if len(o.Res) == 1 && (e == nil || e.Kind == "dyn" && e.Target == d.passer) {
		if b, ok := o.Res[0].boolVal(); ok {
			if b {
				return actual{kind: "true", what: "returns true"}, evs
			}
			return actual{kind: "false", what: "returns false"}, evs
		}
	}
	if e == nil || e.Kind != "dyn" {
		return actual{kind: "other", what: "returns " + clip(fmt.Sprint(o.Res), 80)}, evs
	}
	a := actual{kind: "other", ev: e, what: "calls " + clip(e.Target.String(), 80)}
	switch e.Target {
	case d.p.glob(d.r.gNotFound):
		a.kind = "notFound"
	case d.redirH, d.p.glob(d.r.gCommon):
		a.kind = "redirect"
	case d.redir:
		a.kind = "redirector"
	case d.handler:
		a.kind = "handler"
	case d.passer:
		a.kind = "passer"
	}
	if a.kind != "other" {
		a.what = "calls the " + map[string]string{
			"notFound": "not-found handler", "redirect": "redirect handler", "redirector": "request redirector",
			"handler": "request handler", "passer": "request passer",
		}[a.kind]
	}
	return a, evs
}

func (d *dispatchCtx) bad(o *Outcome, f *Facts, stage string, target bool, pol [3]bool, format string, a ...any) {
	ff := f
	d.res.mis = append(d.res.mis, dispatchMismatch{
		fn: d.fn, pos: d.p.at(o.In, o.Pos), stage: stage, target: target,
		secure: pol[0], slash: pol[1], clean: pol[2],
		what: fmt.Sprintf(format, a...) + " [path: " + clip(ff.String(), 700) + "]",
	})
}

func (d *dispatchCtx) judge(o *Outcome) {
	p, r := d.p, d.r
	act, evs := d.classify(o)
	// 1. the passer
	toPass := tNot(tEq(d.idx, tLen(d.path)))
	if d.host {
		toPass = tLt(tInt(1), tLen(d.path))
	}
	fork(o.St.facts, toPass, func(f *Facts, pass bool) {
		if !d.feasible(f) {
			return
		}
		if !pass {
			d.final(o, f, act, evs, false)
			return
		}
		if len(evs) == 0 || evs[0].Target != d.passer || !sameTerms(evs[0].Args, []*Term{d.w, d.req, d.args}) {
			d.bad(o, f, "passer", false, [3]bool{}, "the request isn't given to the request passer first though there are path segments left")
			return
		}
		d.res.leaves["passer"]++
		pe := evs[0]
		was := p.fld(d.args, r.sub)
		sub := memAt(pe, d.args, r.sub)
		if sub == nil {
			sub = was
		}
		switch {
		case f.eval(d.bit("subtree")) == yes && f.eval(sub) != yes:
			d.bad(o, f, "subtree", false, [3]bool{}, "a subtree handler doesn't announce itself to the responders below")
		case f.eval(d.bit("subtree")) == no && sub != was && (f.eval(sub) == unk || f.eval(sub) != f.eval(was)):
			d.bad(o, f, "subtree", false, [3]bool{}, "a responder that isn't a subtree handler changes what is announced to the responders below")
		}
		if ix := memAt(pe, d.args, r.idx); d.host && (ix == nil || f.eval(tEq(ix, tInt(1))) != yes) {
			d.bad(o, f, "cursor", false, [3]bool{}, "the cursor isn't moved past the root before the request is passed")
		} else if !d.host && ix != nil && f.eval(tEq(ix, d.idx)) != yes {
			d.bad(o, f, "cursor", false, [3]bool{}, "the cursor is moved before the request is passed")
		}
		fork(f, pe.Res, func(f *Facts, handled bool) {
			if handled {
				d.res.leaves["passed"]++
				if !(act.kind == "true" || act.kind == "passer") || len(evs) != 1 {
					d.bad(o, f, "passed", false, [3]bool{}, "the request is handled below, but the responder %s", act.what)
				}
				return
			}
			fork(f, d.bit("subtree"), func(f *Facts, sub bool) {
				if sub {
					d.final(o, f, act, evs[1:], true)
					return
				}
				d.res.leaves["not passed"]++
				ok := act.kind == "false" || act.kind == "passer"
				if d.host && act.kind == "notFound" {
					ok = true
				}
				if !ok {
					d.bad(o, f, "not-passed", false, [3]bool{}, "the request isn't handled below and the responder is not a subtree handler, but it %s", act.what)
				}
			})
		})
	})
}

// final judges what the responder does with a request that it must handle.
func (d *dispatchCtx) final(o *Outcome, f *Facts, act actual, evs []*Event, passed bool) {
	p, r := d.p, d.r
	want3 := []*Term{d.w, d.req, d.args}
	count := func(s string) { d.res.leaves[s]++ }
	if len(evs) > 1 {
		d.bad(o, f, "once", false, [3]bool{true, true, true}, "more than one handler is called for the request")
		return
	}
	if passed && len(evs) == 1 {
		if cur := memAt(evs[0], d.args, r.r); cur == nil || strip(cur) != d.self {
			d.bad(o, f, "current", false, [3]bool{}, "the responder isn't the current one again when it handles the request after its subtree didn't")
		}
	} else if len(evs) == 1 {
		if cur := memAt(evs[0], d.args, r.r); cur != nil && strip(cur) != d.self && cur != p.fld(d.args, r.r) {
			d.bad(o, f, "current", false, [3]bool{}, "another responder is the current one when the request is handled")
		}
	}
	notFound := func(f *Facts, stage, why string, pol [3]bool) {
		count(stage)
		if act.kind != "notFound" {
			d.bad(o, f, stage, false, pol, "%s, but the responder %s", why, act.what)
		} else if !sameTerms(act.ev.Args, want3) {
			d.bad(o, f, stage, false, pol, "the not-found handler is given other arguments")
		}
	}
	fork(f, tOr(d.canH, tNot(isNilT(d.redir))), func(f *Facts, can bool) {
		if !d.feasible(f) {
			return
		}
		if !can {
			notFound(f, "cannot-handle", "the responder can't handle any request", [3]bool{})
			return
		}
		fork(f, tAnd(isNilT(d.tls), d.bit("secure")), func(f *Facts, insecure bool) {
			step := func(f *Facts) { d.path2(o, f, act, insecure, passed) }
			if !insecure {
				step(f)
				return
			}
			fork(f, d.bit("redirects"), func(f *Facts, redirects bool) {
				if !redirects {
					notFound(f, "insecure", "an insecure request reaches a secure responder that doesn't redirect", [3]bool{true, false, false})
					return
				}
				step(f)
			})
		})
	})
}

func (d *dispatchCtx) path2(o *Outcome, f *Facts, act actual, insecure, passed bool) {
	if !d.feasible(f) {
		return
	}
	fork(f, tAnd(d.clean, tNot(d.bit("lenientPath"))), func(f *Facts, unclean bool) {
		applies := tNot(d.bit("lenientSlash"))
		if d.host {
			applies = tAnd(tAnd(applies, d.bit("subtree")), tLt(tInt(1), tLen(d.path)))
		} else if passed {
			applies = tBool(false)
		}
		add := tAnd(applies, tAnd(d.bit("tslash"), tNot(d.tsl)))
		del := tAnd(applies, tAnd(tNot(d.bit("tslash")), d.tsl))
		fork(f, add, func(f *Facts, add bool) {
			fork(f, del, func(f *Facts, del bool) {
				if !d.feasible(f) {
					return
				}
				if !add && !del {
					d.terminal(o, f, act, insecure, unclean, 0)
					return
				}
				fork(f, d.bit("strict"), func(f *Facts, strict bool) {
					if strict {
						d.res.leaves["strict-slash"]++
						if act.kind != "notFound" {
							d.bad(o, f, "strict-slash", false, [3]bool{insecure, true, unclean}, "the trailing slash doesn't match a strict responder, but it %s", act.what)
						} else if !sameTerms(act.ev.Args, []*Term{d.w, d.req, d.args}) {
							d.bad(o, f, "strict-slash", false, [3]bool{false, true, false}, "the not-found handler is given other arguments")
						}
						return
					}
					n := 1
					if del {
						n = -1
					}
					d.terminal(o, f, act, insecure, unclean, n)
				})
			})
		})
	})
}

func (d *dispatchCtx) terminal(o *Outcome, f *Facts, act actual, insecure, unclean bool, slash int) {
	if !insecure && !unclean && slash == 0 {
		want := "handler"
		fork(f, isNilT(d.redir), func(f *Facts, none bool) {
			want = "redirector"
			if none {
				want = "handler"
			}
			d.res.leaves[want]++
			if act.kind != want {
				// policies that are configured or triggered on this path
				pol := [3]bool{
					f.eval(d.bit("secure")) == yes || f.eval(isNilT(d.tls)) == yes,
					f.eval(d.bit("lenientSlash")) != unk || f.eval(d.tsl) != unk || f.eval(d.bit("tslash")) != unk,
					f.eval(d.clean) == yes || act.kind == "redirect",
				}
				d.bad(o, f, "final", false, pol, "no policy applies, so the request belongs to the request %s, but the responder %s", want, act.what)
			} else if !sameTerms(act.ev.Args, []*Term{d.w, d.req, d.args}) {
				d.bad(o, f, "final", false, [3]bool{}, "the request %s is given other arguments", want)
			}
		})
		return
	}
	pol := [3]bool{insecure, slash != 0, unclean}
	var ss []string
	for i, n := range []string{"insecure", "slash", "unclean"} {
		if pol[i] {
			ss = append(ss, n)
		}
	}
	stage := "redirect-" + strings.Join(ss, "-")
	d.res.leaves[stage]++
	if act.kind != "redirect" {
		d.bad(o, f, stage, false, pol, "the request must be redirected (%s), but the responder %s", strings.Join(ss, ", "), act.what)
		return
	}
	ev := act.ev
	if len(ev.Args) != 5 || ev.Args[0] != d.w || ev.Args[1] != d.req || ev.Args[4] != d.args {
		d.bad(o, f, stage, true, pol, "the redirect handler is given other arguments")
		return
	}
	// the handler
	fork(f, isNilT(d.redirH), func(f *Facts, none bool) {
		want := d.redirH
		if none {
			want = d.p.glob(d.r.gCommon)
		}
		if ev.Target != want {
			d.bad(o, f, stage, true, [3]bool{}, "the redirect goes to a wrong redirect handler")
		}
	})
	fork(f, tLt(tInt(0), d.prc), func(f *Facts, own bool) {
		want := d.prc
		if !own {
			want = d.p.glob(d.r.gPRC)
		}
		if ev.Args[3] != want {
			d.bad(o, f, stage, true, [3]bool{}, "the redirect has a wrong status code")
		}
	})
	u := ev.Args[2]
	if u.Op != "urlstring" || u.A[0].Op != "struct" {
		d.bad(o, f, stage, true, pol, "the redirect's target isn't a URL made from the request's URL")
		return
	}
	got := map[string]*Term{}
	us := d.p.urlPtrT.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < us.NumFields() && i < len(u.A[0].A); i++ {
		got[us.Field(i).Name()] = u.A[0].A[i]
	}
	for n, g := range got {
		switch n {
		case "Scheme", "Host", "Path", "RawPath":
		default:
			if g != d.p.fld(d.url, n) {
				d.bad(o, f, stage, true, [3]bool{}, "the redirect's target changes the URL's %s", n)
			}
		}
	}
	fork(f, tEqC(tLen(d.urlHost), 0), func(f *Facts, none bool) {
		want := d.urlHost
		if none {
			want = d.reqHost
		}
		if got["Host"] != want {
			d.bad(o, f, stage, true, [3]bool{}, "the redirect's target has a wrong host")
		}
	})
	if insecure {
		if got["Scheme"] != tStr("https") {
			d.bad(o, f, stage, true, [3]bool{true, false, false}, "the insecure request isn't redirected to https")
		}
	} else {
		fork(f, tEqC(tLen(d.urlScheme), 0), func(f *Facts, none bool) {
			if !none {
				if got["Scheme"] != d.urlScheme {
					d.bad(o, f, stage, true, [3]bool{}, "the redirect's target changes the scheme")
				}
				return
			}
			fork(f, isNilT(d.tls), func(f *Facts, insec bool) {
				want := "https"
				if insec {
					want = "http"
				}
				if got["Scheme"] != tStr(want) {
					d.bad(o, f, stage, true, [3]bool{insec, false, false}, "the redirect's target has a wrong scheme")
				}
			})
		})
	}
	polP := [3]bool{false, slash != 0, unclean}
	checkPath := func(f *Facts, path, raw *Term) {
		if !d.feasible(f) {
			return
		}
		fork(f, tEqC(tLen(raw), 0), func(f *Facts, none bool) {
			if !d.feasible(f) {
				return
			}
			wp, wr := path, raw
			if none {
				wr = raw // an empty string in any form
			}
			switch slash {
			case 1:
				wp = tConcat(path, tStr("/"))
				if !none {
					wr = tConcat(raw, tStr("/"))
				}
			case -1:
				wp = tSlice(path, nil, tAdd(tLen(path), tInt(-1)))
				if !none {
					wr = tSlice(raw, nil, tAdd(tLen(raw), tInt(-1)))
				}
			}
			if got["Path"] != wp {
				d.bad(o, f, stage, true, polP, "the redirect's target has the path %s instead of %s", got["Path"], wp)
			}
			gr := got["RawPath"]
			if gr != wr && !(none && (gr == tStr("") || gr == raw)) {
				d.bad(o, f, stage, true, polP, "the redirect's target has the escaped path %s instead of %s", gr, wr)
			}
		})
	}
	if !unclean {
		checkPath(f, d.urlPath, d.urlRawPath)
		return
	}
	fork(f, d.raw, func(f *Facts, raw bool) {
		if !raw {
			checkPath(f, d.path, tStr(""))
			return
		}
		fork(f, isNilT(d.unescErr), func(f *Facts, ok bool) {
			if ok {
				checkPath(f, d.unesc, d.path)
			} else {
				checkPath(f, d.path, tStr(""))
			}
		})
	})
}

// report turns the mismatches that concern a property into violations.
func (c *Checker) dispatchReport(res *dispatchResult, rule string, sel func(m *dispatchMismatch) bool, stages func(s string) bool) {
	for _, e := range res.errs {
		c.undecided("dispatch", "%s", e)
	}
	for _, ip := range res.ip {
		c.mark(ip, 0)
	}
	c.paths += res.n
	n := 0
	var ss []string
	for s, k := range res.leaves {
		if stages(s) {
			n += k
			ss = append(ss, fmt.Sprintf("%s: %d decisions", s, k))
		}
	}
	sort.Strings(ss)
	bad := 0
	seen := map[string]bool{}
	for i := range res.mis {
		m := &res.mis[i]
		if !sel(m) {
			continue
		}
		bad++
		k := c.p.short(m.fn) + ": " + m.stage
		if seen[k] {
			continue
		}
		seen[k] = true
		c.viol(rule, k, m.pos, "%s", m.what)
	}
	c.obligations += n
	c.counts[rule] += n
	if n > bad {
		c.discharged += n - bad
	}
	c.samples = append(c.samples, ss...)
	if n == 0 {
		c.viol("coverage", rule, "", "no path decides the rule")
	}
}

// onlyCallers checks that a function value kept in a field is called (as
// opposed to being stored or returned) only in the given functions.
func (c *Checker) fieldCallSites(field string, owner string) map[*ssa.Function][]ssa.CallInstruction {
	m := map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range c.p.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().IsInvoke() {
					continue
				}
				v := ci.Common().Value
				if u, ok := v.(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && c.p.cellOf(fa) == field && named(fa.X.Type(), owner) {
						m[f] = append(m[f], ci)
					}
				}
			}
		}
	}
	return m
}

// onlyFrom reports whether every call of the function is reached through the
// given roots only: the function itself is one of them, or all its callers
// are reached only from them.
func (c *Checker) onlyFrom(f *ssa.Function, roots map[*ssa.Function]bool, seen map[*ssa.Function]bool) bool {
	if roots[f] {
		return true
	}
	if seen[f] {
		return true
	}
	seen[f] = true
	if f.Parent() != nil {
		return c.onlyFrom(f.Parent(), roots, seen)
	}
	if f.Object() != nil && f.Object().Exported() {
		return false
	}
	cs := c.p.callers[f]
	if len(cs) == 0 {
		// a function that nothing calls is reached if it's used as a value
		return f.Name() != "init" && !c.p.addrTaken(f)
	}
	for _, x := range cs {
		if !c.onlyFrom(x.in, roots, seen) {
			return false
		}
	}
	return true
}

func (c *Checker) receiversOnly(rule string, fields ...string) {
	roots := map[*ssa.Function]bool{c.r.recvHost: true, c.r.recvRes: true}
	for _, fl := range fields {
		n := 0
		for f, cs := range c.fieldCallSites(fl, "_ResponderBase") {
			for _, ci := range cs {
				n++
				c.ob(c.onlyFrom(f, roots, map[*ssa.Function]bool{}), rule, c.p.short(f)+" calls "+fl, c.at(f, ci.Pos()),
					"the responder's %s is called outside of its request receiver, so the policies of the responder don't apply", fl)
			}
		}
		if n == 0 {
			c.viol("coverage", fl, "", "no call of the responder's %s was found", fl)
		}
	}
}

func init() {
	const how = "Every abstract path of the request receivers of Host and Resource (predicate-sensitive dataflow over the SSA form, helpers included) is compared with the decision the specification gives for the predicates that hold on that path. "
	register("P06", how+"Judged here: the decisions that depend on TLS and on the Secure/RedirectsInsecureRequest flags, and that the handler of a responder isn't called around its receiver.", func(c *Checker) {
		c.rule("insecure: TLS absent and Secure set => not-found handler, or a redirect to https if RedirectsInsecureRequest is set")
		c.rule("guarded: the fields with the request handler and the request redirector are called only within the request receivers")
		res := c.p.dispatch()
		c.dispatchReport(res, "insecure", func(m *dispatchMismatch) bool { return m.secure },
			func(s string) bool { return strings.Contains(s, "insecure") || s == "handler" || s == "redirector" })
		c.receiversOnly("guarded", c.r.handler, c.r.redirector)
	})
	register("P07", how+"Judged here: the decisions that depend on the trailing slash of the request's path and on the trailing slash flags.", func(c *Checker) {
		c.rule("slash: a mismatch of the trailing slash => not-found handler if strict, a redirect to the toggled path if neither strict nor lenient, no effect if lenient")
		c.dispatchReport(c.p.dispatch(), "slash", func(m *dispatchMismatch) bool { return m.slash },
			func(s string) bool { return strings.Contains(s, "slash") || s == "handler" || s == "redirector" })
	})
	register("P08", how+"Judged here: the decisions that depend on whether the request's path was cleaned and on the leniency on unclean paths.", func(c *Checker) {
		c.rule("unclean: a cleaned path => a redirect to the clean path, unless the responder is lenient on unclean paths")
		c.dispatchReport(c.p.dispatch(), "unclean", func(m *dispatchMismatch) bool { return m.clean },
			func(s string) bool { return strings.Contains(s, "unclean") || s == "handler" || s == "redirector" })
	})
	register("P09", how+"Judged here: the handler, the arguments, the status code and every field of the target of the redirects that the policies make.", func(c *Checker) {
		c.rule("target: the URL fields, the status code and the redirect handler of every policy redirect")
		c.dispatchReport(c.p.dispatch(), "target", func(m *dispatchMismatch) bool {
			return m.target || strings.HasPrefix(m.stage, "redirect-")
		}, func(s string) bool { return strings.HasPrefix(s, "redirect-") })
	})
	register("P10", how+"Judged here: when the request passer is asked, what its answer leads to, and which handler gets a request no policy applies to.", func(c *Checker) {
		c.rule("dispatch: passer first if segments are left; the subtree handler, the redirector and the request handler get what is left")
		c.dispatchReport(c.p.dispatch(), "dispatch", func(m *dispatchMismatch) bool {
			switch m.stage {
			case "passer", "subtree", "cursor", "passed", "not-passed", "once", "current", "cannot-handle", "final":
				return true
			}
			return false
		}, func(s string) bool { return true })
	})
}
