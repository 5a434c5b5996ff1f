package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Selection of the responder that gets a request: among the children of a
// responder by the next path segment, and among the router's hosts.

type selMismatch struct {
	fn   *ssa.Function
	pos  string
	tag  string // select, unmatched, restore, args
	key  string
	what string
}

type selResult struct {
	mis    []selMismatch
	leaves map[string]int
	errs   []string
	ips    []*Interp
	n      int
	fns    []string
}

func (s *selResult) bad(p *Prog, o *Outcome, f *Facts, fn *ssa.Function, tag, key, format string, a ...any) {
	s.mis = append(s.mis, selMismatch{fn, p.at(o.In, o.Pos), tag, key,
		fmt.Sprintf(format, a...) + " [path: " + clip(f.String(), 700) + "]"})
}

// matchAtom is the predicate "the template matches the string".
func matchAtom(tmpl, str *Term) *Term {
	return mk("matched", "", types.Typ[types.Bool], tmpl, str)
}

// matchModel replaces calls of Template.Match by its contract: it returns the
// passed values when the template doesn't match (P30 checks this).
func (p *Prog) matchModel() func(*Interp, *State, *ssa.Function, string, *ssa.Function, []*Term, string) ([]callRes, bool) {
	m := p.method("Template", "Match")
	return func(ip *Interp, st *State, in *ssa.Function, name string, fn *ssa.Function, args []*Term, site string) ([]callRes, bool) {
		if fn == nil || fn != m || len(args) != 3 {
			return nil, false
		}
		at := matchAtom(args[0], args[1])
		vals := mk("matchvals", "", args[2].T, args...)
		var rs []callRes
		for _, f := range st.facts.assume(at, true) {
			s := st.withFacts(f)
			s.trace = append(s.trace, &Event{Kind: "match", Args: args, Res: vals, In: in})
			rs = append(rs, callRes{st: s, res: tuple(tBool(true), vals)})
		}
		for _, f := range st.facts.assume(at, false) {
			s := st.withFacts(f)
			s.trace = append(s.trace, &Event{Kind: "match", Args: args, Res: args[2], In: in})
			rs = append(rs, callRes{st: s, res: tuple(tBool(false), args[2])})
		}
		return rs, true
	}
}

type selCtx struct {
	p    *Prog
	r    *Roles
	res  *selResult
	fn   *ssa.Function
	self *Term
	w    *Term
	req  *Term
	args *Term
	path *Term
	idx0 *Term
	hpv0 *Term
	o    *Outcome
	evs  []*Event
	// restore the position and the values after the call (path segments)
	restores bool
	retArgs  []*Term
}

func (s *selCtx) bad(f *Facts, tag, key, format string, a ...any) {
	s.res.bad(s.p, s.o, f, s.fn, tag, key, format, a...)
}

func (s *selCtx) leaf(n string) { s.res.leaves[n]++ }

// mapFeasible: a map of registered resources or hosts has no nil values.
func mapFeasible(f *Facts, m, k *Term) bool {
	got := mk("mapget", "", nil, m, k)
	ok := f.eval(mk("mapok", "", types.Typ[types.Bool], m, k))
	n := f.eval(isNilT(got))
	if ok == no && n == no || ok == yes && n == yes {
		return false
	}
	return true
}

// element recognises list[i] where i runs over the list from the start.
func element(t, list *Term) (*Term, bool) {
	if t.Op != "init" || t.A[0].Op != "iaddr" || t.A[0].A[0] != list {
		return nil, false
	}
	i := t.A[0].A[1]
	if i.Op != "ind" {
		return nil, false
	}
	if !strings.HasSuffix(i.Aux, "|0|1") {
		return nil, false
	}
	return i, true
}

// exhausted reports whether the path left the loop over the list at its end
// (or the list is empty).
func exhausted(f *Facts, list *Term) bool {
	if f.eval(tEqC(tLen(list), 0)) == yes {
		return true
	}
	for k, v := range f.b {
		if !v && k.Op == "lt" && k.Aux == "0" && k.A[1] == tLen(list) && k.A[0].Op == "ind" && strings.HasSuffix(k.A[0].Aux, "|0|1") {
			return true
		}
		if v && k.Op == "eq" && (k.A[0] == tLen(list) || k.A[1] == tLen(list)) {
			for _, x := range k.A {
				if x.Op == "ind" && strings.HasSuffix(x.Aux, "|0|1") {
					return true
				}
			}
		}
	}
	return false
}

// elementOn returns the element of the list that matched on the path.
func matchedElement(f *Facts, list, str *Term, p *Prog, tmpl string) *Term {
	for k, v := range f.b {
		if !v || k.Op != "matched" || k.A[1] != str {
			continue
		}
		t := k.A[0]
		if t.Op != "init" || t.A[0].Op != "faddr" || t.A[0].Aux != tmpl {
			continue
		}
		if _, ok := element(t.A[0].A[0], list); ok {
			return t.A[0].A[0]
		}
	}
	return nil
}

// given checks that the request is given to a responder and that the answer
// is kept and returned.
func (s *selCtx) given(f *Facts, child, hpv, newIdx *Term, stage string) {
	p, r := s.p, s.r
	s.leaf(stage)
	recv := p.fld(child, r.recv)
	if len(s.evs) != 1 || s.evs[0].Target != recv {
		what := "no responder gets it"
		if len(s.evs) > 0 {
			what = "it's given to " + clip(s.evs[0].Target.String(), 80)
			if len(s.evs) > 1 {
				what = "more than one handler gets it"
			}
		}
		s.bad(f, "select", stage, "the request belongs to the %s, but %s", stage, what)
		return
	}
	e := s.evs[0]
	if !sameTerms(e.Args, []*Term{s.w, s.req, s.args}) {
		s.bad(f, "select", stage+" arguments", "the %s is given other arguments", stage)
	}
	if cur := memAt(e, s.args, r.r); cur == nil || strip(cur) != child {
		s.bad(f, "args", stage+" current", "the %s isn't the current responder when it receives the request", stage)
	}
	if hpv != nil {
		got := memAt(e, s.args, r.hpv)
		if got == nil {
			got = s.hpv0
		}
		if got != hpv {
			s.bad(f, "args", stage+" values", "the %s receives the values %s instead of %s", stage, clip(got.String(), 80), clip(hpv.String(), 80))
		}
	}
	if newIdx != nil {
		got := memAt(e, s.args, r.idx)
		if got == nil {
			got = s.idx0
		}
		if got != newIdx && f.eval(tEq(got, newIdx)) != yes {
			s.bad(f, "restore", stage+" position", "the %s receives the request at the position %s instead of %s", stage, clip(got.String(), 80), clip(newIdx.String(), 80))
		}
	}
	s.returns(f, e.Res, stage)
	s.restored(f, e.Res, stage)
}

// returns checks that the answer of the responder is returned and kept.
func (s *selCtx) returns(f *Facts, ans *Term, stage string) {
	if len(s.o.Res) != 1 || s.o.Res[0] != ans && (f.eval(s.o.Res[0]) == unk || f.eval(s.o.Res[0]) != f.eval(ans)) {
		s.bad(f, "select", stage+" answer", "the answer of the %s isn't returned", stage)
	}
	if h := memOf(s.o.St, s.args, s.r.handled); h != nil && h != ans && (f.eval(h) == unk || f.eval(h) != f.eval(ans)) {
		s.bad(f, "args", stage+" handled", "the answer of the %s isn't kept in Args", stage)
	}
}

// restored checks that the position (and, if the request wasn't handled, the
// values) are what they were.
func (s *selCtx) restored(f *Facts, ans *Term, stage string) {
	if !s.restores {
		return
	}
	s.leaf("restore")
	got := memOf(s.o.St, s.args, s.r.idx)
	if got == nil && len(s.evs) > 0 || got != nil && f.eval(tEq(got, s.idx0)) != yes {
		s.bad(f, "restore", stage+" cursor", "the position in the path isn't restored after the %s", stage)
	}
	if ans == nil || f.eval(ans) == yes {
		return
	}
	// unhandled (or unknown): the values must be the ones from before
	got = memOf(s.o.St, s.args, s.r.hpv)
	if got != nil && got != s.hpv0 {
		if f.eval(ans) == no {
			s.bad(f, "restore", stage+" values", "the host and path values aren't restored after the %s didn't handle the request", stage)
		}
		return
	}
	if got == nil && f.eval(ans) == no && len(s.evs) > 0 {
		if m := memAt(s.evs[0], s.args, s.r.hpv); m != nil && m != s.hpv0 {
			s.bad(f, "restore", stage+" values", "the host and path values aren't restored after the %s didn't handle the request", stage)
		}
	}
	if got == nil && f.eval(ans) == unk && len(s.evs) > 0 {
		if m := memAt(s.evs[0], s.args, s.r.hpv); m != nil && m != s.hpv0 {
			s.bad(f, "restore", stage+" values", "the host and path values aren't restored after the %s, whether or not it handled the request", stage)
		}
	}
}

// notFound checks that the request is given to the not-found handler.
func (s *selCtx) notFound(f *Facts, stage string) {
	s.leaf(stage)
	if len(s.evs) != 1 || s.evs[0].Target != s.p.glob(s.r.gNotFound) || !sameTerms(s.evs[0].Args, []*Term{s.w, s.req, s.args}) {
		s.bad(f, "unmatched", stage, "nothing matches the request, but it isn't given to the not-found handler")
		return
	}
	s.returns(f, s.evs[0].Res, stage)
	s.restored(f, nil, stage)
}

// pick follows the order static, patterns, rest.
func (s *selCtx) pick(f *Facts, static, pattern, str, newIdx *Term, what string, rest func(f *Facts)) {
	p, r := s.p, s.r
	if !mapFeasible(f, static, str) {
		return
	}
	var et types.Type
	if mt, ok := static.T.Underlying().(*types.Map); ok {
		et = mt.Elem()
	}
	sr := mk("mapget", "", et, static, str)
	fork(f, isNilT(sr), func(f *Facts, none bool) {
		if !mapFeasible(f, static, str) {
			return
		}
		if !none {
			s.given(f, sr, s.hpv0, newIdx, "static "+what)
			return
		}
		if el := matchedElement(f, pattern, str, p, r.tmpl); el != nil {
			vals := mk("matchvals", "", s.hpv0.T, p.fld(el, r.tmpl), str, s.hpv0)
			s.given(f, el, vals, newIdx, "pattern "+what)
			return
		}
		if !exhausted(f, pattern) {
			s.leaf("patterns")
			s.bad(f, "select", "patterns", "not every pattern %s is tried, in their order, before going on", what)
			return
		}
		rest(f)
	})
}

func (p *Prog) newSel(fn *ssa.Function, res *selResult) *selCtx {
	ps := params(fn)
	if len(ps) != 4 {
		res.errs = append(res.errs, p.short(fn)+": unexpected signature")
		return nil
	}
	r := p.roles
	s := &selCtx{p: p, r: r, res: res, fn: fn, self: ps[0], w: ps[1], req: ps[2], args: ps[3]}
	s.path, s.idx0, s.hpv0 = p.fld(s.args, r.path), p.fld(s.args, r.idx), p.fld(s.args, r.hpv)
	return s
}

func (s *selCtx) run(st *State) []Outcome {
	ip := s.p.newInterp()
	ip.DynHavoc = s.p.argsHavoc()
	ip.Model = s.p.matchModel()
	outs := ip.Run(st, s.fn, []*Term{s.self, s.w, s.req, s.args})
	s.res.ips = append(s.res.ips, ip)
	s.res.n += len(outs)
	s.res.fns = append(s.res.fns, s.p.short(s.fn))
	if ip.err != "" {
		s.res.errs = append(s.res.errs, s.p.short(s.fn)+": "+ip.err)
		return nil
	}
	if len(outs) == 0 {
		s.res.errs = append(s.res.errs, s.p.short(s.fn)+": no paths")
	}
	// A loop goes to the next element only when the current one doesn't match
	// and without any effect.
	for _, b := range ip.backedges {
		s.leaf("next element")
		unmatched := false
		for k, v := range b.St.facts.b {
			if !v && k.Op == "matched" {
				unmatched = true
			}
		}
		if !unmatched {
			s.res.mis = append(s.res.mis, selMismatch{s.fn, s.p.at(b.Fn, b.Fn.Pos()), "select", "next element",
				"the search goes on to the next pattern though the current one isn't known not to match"})
		}
		if len(dynEvents(b.St.trace)) > 0 {
			s.res.mis = append(s.res.mis, selMismatch{s.fn, s.p.at(b.Fn, b.Fn.Pos()), "select", "next element",
				"the search goes on after the request has been given to a responder"})
		}
	}
	return outs
}

// pathSelection analyses the request passer of hosts and resources.
func (p *Prog) pathSelection() *selResult {
	r := p.roles
	res := &selResult{leaves: map[string]int{}}
	done := map[*ssa.Function]bool{}
	for _, fn := range []*ssa.Function{r.passRes, r.passHost} {
		if done[fn] {
			continue
		}
		done[fn] = true
		s := p.newSel(fn, res)
		if s == nil {
			continue
		}
		s.restores = true
		st := newState()
		f := st.facts.assume(tLt(tLen(s.path), s.idx0), false)[0]
		f = f.assume(tLt(s.idx0, tInt(1)), false)[0]
		st.facts = f.clone()
		outs := s.run(st)
		static, pattern, wild := p.fld(s.self, r.static), p.fld(s.self, r.pattern), p.fld(s.self, r.wild)
		for i := range outs {
			s.o = &outs[i]
			s.evs = dynEvents(s.o.St.trace)
			if s.o.Kind != "return" {
				s.bad(s.o.St.facts, "select", "panic", "the request passer panics")
				continue
			}
			s.segment(s.o.St.facts, func(f *Facts, seg, newIdx *Term, err *Term) {
				decide := func(f *Facts) {
					fork(f, tEqC(tLen(seg), 0), func(f *Facts, empty bool) {
						rest := func(f *Facts) {
							fork(f, p.fld(s.args, r.sub), func(f *Facts, sub bool) {
								if !sub {
									s.notFound(f, "unmatched segment")
									return
								}
								s.leaf("left to the subtree handler")
								if len(s.evs) > 0 || len(s.o.Res) != 1 || f.eval(s.o.Res[0]) != no {
									s.bad(f, "unmatched", "subtree", "nothing matches the segment and there is a subtree handler above, but the request isn't left to it")
								}
								s.restored(f, tBool(false), "unmatched segment")
							})
						}
						if empty {
							rest(f)
							return
						}
						s.pick(f, static, pattern, seg, newIdx, "resource", func(f *Facts) {
							fork(f, isNilT(wild), func(f *Facts, none bool) {
								if none {
									rest(f)
									return
								}
								// the values are what the wildcard's template gives
								var hpv *Term
								for _, e := range s.o.St.trace {
									if e.Kind == "match" && e.Args[0] == p.fld(wild, r.tmpl) && e.Args[1] == seg && e.Args[2] == s.hpv0 {
										hpv = e.Res
									}
								}
								if hpv == nil {
									s.bad(f, "args", "wildcard values", "the segment's value isn't taken by the wildcard resource's template")
								}
								s.given(f, wild, hpv, newIdx, "wildcard resource")
							})
						})
					})
				}
				if err == nil {
					decide(f)
					return
				}
				fork(f, isNilT(err), func(f *Facts, ok bool) {
					if ok {
						decide(f)
						return
					}
					s.leaf("bad escape")
					s.badRequest(f)
				})
			})
		}
	}
	return res
}

// badRequest: the segment isn't escaped correctly.
func (s *selCtx) badRequest(f *Facts) {
	if len(s.evs) > 0 {
		s.bad(f, "unmatched", "bad escape", "a segment that can't be unescaped is given to a handler")
	}
	n := 0
	for _, e := range s.o.St.trace {
		if e.Kind == "ext" && e.Name == "net/http.Error" && len(e.Args) == 3 && e.Args[0] == s.w && e.Args[2] == tInt(400) {
			n++
		} else if e.Kind == "ext" && len(e.Args) > 0 && e.Args[0] == s.w {
			n += 2
		}
	}
	if n != 1 {
		s.bad(f, "unmatched", "bad escape", "a segment that can't be unescaped isn't answered with the status code 400")
	}
	if len(s.o.Res) == 1 && f.eval(s.o.Res[0]) != yes {
		s.bad(f, "unmatched", "bad escape", "the answered request isn't reported as handled")
	}
	s.restored(f, nil, "bad segment")
}

// segment derives the next path segment and the next position.
func (s *selCtx) segment(f *Facts, k func(f *Facts, seg, newIdx, err *Term)) {
	p, r := s.p, s.r
	raw := p.fld(s.args, r.raw)
	fork(f, tEq(s.idx0, tLen(s.path)), func(f *Facts, end bool) {
		if end {
			k(f, tStr(""), s.idx0, nil)
			return
		}
		rest := tSlice(s.path, s.idx0, nil)
		i := mk("call", "strings.IndexByte", types.Typ[types.Int], rest, tInt('/'))
		fork(f, tLt(i, tInt(0)), func(f *Facts, last bool) {
			seg, nidx := rest, tLen(s.path)
			if !last {
				seg = tSlice(s.path, s.idx0, tAdd(s.idx0, i))
				nidx = tAdd(tAdd(s.idx0, i), tInt(1))
			}
			fork(f, raw, func(f *Facts, raw bool) {
				if !raw {
					k(f, seg, nidx, nil)
					return
				}
				un := mk("call", "net/url.PathUnescape", nil, seg)
				k(f, mk("ext", "0", types.Typ[types.String], un), nidx, mk("ext", "1", types.Universe.Lookup("error").Type(), un))
			})
		})
	})
}

// hostName derives the name that hosts are selected by.
func hostName(p *Prog, req *Term, f *Facts, k func(f *Facts, host *Term)) {
	reqHost := p.fld(req, "Host")
	urlHost := p.fld(p.fld(req, "URL"), "Host")
	fork(f, tEqC(tLen(reqHost), 0), func(f *Facts, none bool) {
		h := reqHost
		if none {
			h = urlHost
		}
		fork(f, tEqC(tLen(h), 0), func(f *Facts, none bool) {
			if none {
				k(f, tStr(""))
				return
			}
			// no port: nothing to split
			sp := mk("call", "net.SplitHostPort", nil, h)
			err := mk("ext", "2", types.Universe.Lookup("error").Type(), sp)
			split := mk("ext", "0", types.Typ[types.String], sp)
			colon := mk("call", "strings.LastIndexByte", types.Typ[types.Int], h, tInt(':'))
			noColon := tLt(colon, tInt(0))
			for _, alt := range []*Term{tLt(mk("call", "strings.IndexByte", types.Typ[types.Int], h, tInt(':')), tInt(0)),
				tNot(mk("has", "58", types.Typ[types.Bool], h))} {
				if f.eval(alt) != unk {
					noColon = alt
				}
			}
			// SplitHostPort fails for a host without a colon
			if f.eval(isNilT(err)) != unk {
				fork(f, isNilT(err), func(f *Facts, ok bool) {
					if ok {
						k(f, split)
					} else {
						k(f, h)
					}
				})
				return
			}
			fork(f, noColon, func(f *Facts, nc bool) {
				if nc {
					k(f, h)
					return
				}
				fork(f, isNilT(err), func(f *Facts, ok bool) {
					if ok {
						k(f, split)
					} else {
						k(f, h)
					}
				})
			})
		})
	})
}

// hostSelection analyses the router's request passer and the entry points of
// hosts and resources that are used directly.
func (p *Prog) hostSelection() *selResult {
	r := p.roles
	res := &selResult{leaves: map[string]int{}}
	s := p.newSel(r.roPass, res)
	if s == nil {
		return res
	}
	st := newState()
	f := st.facts.assume(tEq(s.idx0, tInt(0)), true)[0]
	st.facts = f.clone()
	outs := s.run(st)
	static := p.fld(s.self, "staticHosts")
	pattern := p.fld(s.self, "patternHosts")
	root := p.fld(s.self, "r")
	urlPath := p.fld(p.fld(s.req, "URL"), "Path")
	for i := range outs {
		s.o = &outs[i]
		s.evs = dynEvents(s.o.St.trace)
		if s.o.Kind != "return" {
			s.bad(s.o.St.facts, "host", "panic", "the router's request passer panics")
			continue
		}
		f := s.o.St.facts
		// the path used for routing is empty exactly if the URL has no path
		empty := f.eval(tEqC(tLen(s.path), 0)) == yes || f.eval(tEq(s.idx0, tLen(s.path))) == yes
		if empty && f.eval(tEqC(tLen(urlPath), 0)) == no {
			continue
		}
		hostName(p, s.req, f, func(f *Facts, host *Term) {
			rest := func(f *Facts) {
				fork(f, tAnd(tNot(isNilT(root)), tNot(tEqC(tLen(urlPath), 0))), func(f *Facts, has bool) {
					if !has {
						s.notFound(f, "no host and no root resource")
						return
					}
					if empty {
						return
					}
					s.given(f, root, s.hpv0, tInt(1), "root resource")
				})
			}
			if host == tStr("") {
				rest(f)
				return
			}
			s.pick(f, static, pattern, host, s.idx0, "host", rest)
		})
	}
	return res
}

func (c *Checker) selReport(res *selResult, rule string, tags ...string) {
	for _, e := range res.errs {
		c.undecided("selection", "%s", e)
	}
	for _, ip := range res.ips {
		c.mark(ip, 0)
	}
	c.paths += res.n
	n := 0
	for s, k := range res.leaves {
		n += k
		c.samples = append(c.samples, fmt.Sprintf("%s: %d decisions", s, k))
	}
	bad := 0
	for i := range res.mis {
		m := &res.mis[i]
		for _, t := range tags {
			if m.tag == t {
				bad++
				c.viol(rule, c.p.short(m.fn)+": "+m.key, m.pos, "%s", m.what)
			}
		}
	}
	c.obligations += n
	c.counts[rule] += n
	if n > bad {
		c.discharged += n - bad
	}
	if n == 0 {
		c.viol("coverage", rule, "", "no path decides the rule")
	}
}

func init() {
	const how = "Every abstract path of the request passer (helpers included, loops over the pattern resources brought to a fixpoint) is compared with the selection that the specification derives from the predicates on that path. "
	register("P11", how+"Judged: which child gets the request, with which arguments, current responder and values.", func(c *Checker) {
		c.rule("select: static child by the unescaped segment, else the first matching pattern child in list order, else the wildcard child")
		res := c.p.pathSelection()
		c.selReport(res, "select", "select", "args")
		for _, s := range []string{"static resource", "pattern resource", "wildcard resource", "next element"} {
			c.ob(res.leaves[s] > 0, "stages", s, "", "no path selects the %s", s)
		}
	})
	register("P12", how+"Judged: what happens to requests that match nothing or whose segment can't be unescaped.", func(c *Checker) {
		c.rule("unmatched: not-found handler, unless a subtree handler above is announced; 400 for a bad escape")
		res := c.p.pathSelection()
		c.selReport(res, "unmatched", "unmatched", "select")
	})
	register("P13", how+"Judged: the position in the path while a child receives the request and after it returns, and the values after an unhandled request.", func(c *Checker) {
		c.rule("restore: cursor on every return; host and path values when the request wasn't handled")
		c.selReport(c.p.pathSelection(), "restore", "restore")
	})
	register("P14", how+"Judged: the name by which hosts are selected, the order static, pattern, root resource, not found.", func(c *Checker) {
		c.rule("host: Host header or URL host, without the port; static host, else first matching pattern host, else the root resource, else not found")
		c.selReport(c.p.hostSelection(), "host", "select", "args", "unmatched", "restore", "host")
	})
}
