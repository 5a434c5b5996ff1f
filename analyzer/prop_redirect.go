package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The redirects that a responder is configured with.

// later is the state in which a function value that was made on a path is
// called some time after: only what the maker kept for the function is known.
func (p *Prog) later(st *State) *State {
	n := newState()
	n.facts = st.facts.clone()
	fs := map[string]bool{}
	for a, v := range st.mem {
		if r := rootOf(a); r.Op == "alloc" && st.fresh[r] {
			n.mem[a] = v
			n.fresh[r] = true
			n.esc[r] = true
		}
	}
	for _, typ := range []string{"_ResponderBase", "_RequestHandlerBase", "Resource", "Host", "Router", "Args", "Template"} {
		if s := p.structOf(typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				fs[s.Field(i).Name()] = true
			}
		}
	}
	for _, m := range p.pkg.Types.Scope().Names() {
		if _, ok := p.pkg.Types.Scope().Lookup(m).(*types.Var); ok {
			fs["global:"+m] = true
		}
	}
	for f := range fs {
		n.epoch[f] = st.epoch[f] + 1
	}
	return n
}

// joinable are the ways to write base+rest with exactly one slash between.
func joinable(f *Facts, base, rest *Term) (want []*Term, decided bool) {
	b, r := f.eval(affix(false, base, tStr("/"))), f.eval(affix(true, rest, tStr("/")))
	cutB := tSlice(base, nil, tSub(tLen(base), tInt(1)))
	cutR := tSlice(rest, tInt(1), nil)
	switch {
	case b == unk || r == unk:
		return nil, false
	case b == yes && r == yes:
		want = []*Term{tConcat(base, cutR), tConcat(cutB, rest), tConcat(tConcat(cutB, tStr("/")), cutR)}
	case b == yes:
		want = []*Term{tConcat(base, rest), tConcat(tConcat(cutB, tStr("/")), rest)}
	case r == yes:
		want = []*Term{tConcat(base, rest), tConcat(tConcat(base, tStr("/")), cutR)}
	default:
		want = []*Term{tConcat(tConcat(base, tStr("/")), rest)}
	}
	return want, true
}

func checkP34(c *Checker) {
	p, r := c.p, c.r
	c.rule("accept: a redirect is configured only with a URL and a 3xx code; then nothing but the redirector, or the receiver for any request, is set")
	c.rule("location: the configured URL, made absolute with a slash unless it has an http or https scheme, joined with the escaped remaining path by exactly one slash, or alone if nothing remains")
	c.rule("handler: the responder's redirect handler, or the common one, that is set when the request comes, is called once with the request, that location, the configured code and the arguments, and its answer is returned")
	remaining := p.method("Args", "RemainingPath")
	for _, m := range []struct{ name, field string }{{"RedirectRequestTo", r.redirector}, {"RedirectAnyRequestTo", r.recv}} {
		rr := c.opRun("_ResponderBase", m.name, nil)
		if rr == nil {
			continue
		}
		self, url, code := rr.ps[0], rr.ps[1], rr.ps[2]
		for i := range rr.outs {
			o := &rr.outs[i]
			at := c.at(o.In, o.Pos)
			valid := tAnd(tNot(tEqC(tLen(url), 0)), tAnd(tNot(tLt(code, tInt(300))), tLt(code, tInt(400))))
			fork(o.St.facts, valid, func(f *Facts, v bool) {
				if !v {
					c.ob(o.Kind == "panic" && len(p.writesIn(o.St.trace)) == 0, "accept", m.name+": invalid", at, "an empty URL or a code that isn't 3xx is accepted, or something is changed [path: %s]", clip(f.String(), 300))
					return
				}
				c.ob(o.Kind == "return", "accept", m.name+": valid", at, "a valid redirect is rejected [path: %s]", clip(f.String(), 300))
			})
			if o.Kind != "return" {
				continue
			}
			v := memOf(o.St, self, m.field)
			fn, free := p.termFn(strip(nonNil(v)))
			if !c.ob(fn != nil && p.kept(o, p.cell(self, m.field), v), "accept", m.name+": set", at, "the redirect isn't kept as the responder's %s, or something else is changed", m.field) {
				continue
			}
			c.redirectBy(m.name, o, fn, free, self, url, code, remaining)
		}
	}
	c.min("accept", 2)
	c.min("location", 4)
	c.min("handler", 4)
}

func nonNil(t *Term) *Term {
	if t == nil {
		return tNil()
	}
	return t
}

func (c *Checker) redirectBy(name string, made *Outcome, fn *ssa.Function, free []*Term, self, url, code *Term, remaining *ssa.Function) {
	p, r := c.p, c.r
	st := p.later(made.St)
	ip := p.newInterp()
	ip.DynHavoc = p.argsHavoc()
	ip.Opaque = func(f *ssa.Function) bool { return f == remaining }
	ip.Pure = ip.Opaque
	own := ip.load(st, p.cell(self, r.redirH), nil)
	common := ip.load(st, mk("global", r.gCommon, nil), nil)
	ps := params(fn)
	outs := ip.RunClosure(st.clone(), fn, ps, free)
	c.mark(ip, len(outs))
	if ip.err != "" {
		c.undecided(p.short(fn), "%s", ip.err)
		return
	}
	w, req, args := ps[0], ps[1], ps[2]
	rp := mk("call", p.fnName(remaining), types.Typ[types.String], args)
	raw := ip.load(st, p.cell(args, r.raw), boolT)
	abs := affix(true, url, tStr("http://"))
	abss := affix(true, url, tStr("https://"))
	for i := range outs {
		o := &outs[i]
		at := c.at(o.In, o.Pos)
		if o.Kind != "return" {
			c.ob(false, "handler", name+": panic", at, "a redirect panics")
			continue
		}
		for _, x := range effects(o.St.trace, "store", "mapset", "mapdel") {
			c.ob(!st.fresh[rootOf(x.Target)], "location", name+": again", c.at(x.In, x.Pos), "a redirect changes what the next one is made of")
		}
		es := dynEvents(o.St.trace)
		if !c.ob(len(es) == 1 && len(es[0].Args) == 5 && sameAnswer(o.St.facts, o.Res[0], es[0].Res), "handler", name+": once", at, "a redirect handler isn't called once, with its answer returned") {
			continue
		}
		e := es[0]
		ok := e.Args[0] == w && e.Args[1] == req && e.Args[4] == args
		c.ob(ok, "handler", name+": request", at, "the redirect handler isn't given the request and its arguments")
		c.ob(e.Args[3] == code, "handler", name+": code", at, "the redirect handler isn't given the configured code")
		fork(o.St.facts, isNilT(own), func(f *Facts, none bool) {
			want := own
			if none {
				want = common
			}
			c.ob(sameCell(e.Target, want), "handler", name+": which", at, "the redirect handler in use isn't called [%s]", e.Target)
		})
		fork(o.St.facts, tNot(tOr(abs, abss)), func(f *Facts, rel bool) {
			fork(f, tAnd(tBool(rel), tNot(affix(true, url, tStr("/")))), func(f *Facts, noSlash bool) {
				base := url
				if noSlash {
					base = tConcat(tStr("/"), url)
				}
				fork(f, raw, func(f *Facts, isRaw bool) {
					rest := rp
					if !isRaw {
						rest = mk("call", "(*net/url.URL).EscapedPath", types.Typ[types.String], rp, tStr(""))
					}
					loc := e.Args[2]
					fork(f, tEqC(tLen(rest), 0), func(f *Facts, nothing bool) {
						if nothing {
							c.ob(loc == base || loc == tConcat(base, rest), "location", name+": nothing remains", at, "the location isn't the configured URL [%s]", clip(loc.String(), 300))
							return
						}
						fork(f, affix(true, rest, tStr("/")), func(f *Facts, _ bool) {
							fork(f, affix(false, base, tStr("/")), func(f *Facts, _ bool) {
								want, decided := joinable(f, base, rest)
								good := false
								for _, x := range want {
									good = good || x == loc
								}
								c.ob(decided && good, "location", name+": joined", at, "the location isn't the configured URL joined with the escaped remaining path by one slash [%s, path: %s]", clip(loc.String(), 300), clip(f.String(), 400))
							})
						})
					})
				})
			})
		})
	}
}

// sameCell: the same value, whatever its term's type.
func sameCell(x, y *Term) bool {
	return x == y || x != nil && y != nil && x.String() == y.String()
}

func init() {
	register("P34", "Every abstract path of the methods that configure a redirect is analysed, and every path of the function that they keep, as it runs at any later time. Judged: what is accepted and set; and location, code, handler and answer of the redirect.", checkP34)
}
