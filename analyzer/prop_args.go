package main

import "go/types"

// What handlers learn from their arguments.

// sameStr: the same string, or the same part of a string.
func sameStr(f *Facts, x, y *Term) bool {
	if x == y || f.eval(tEq(x, y)) == yes {
		return true
	}
	part := func(t *Term) (s, lo, hi *Term) {
		if t.Op == "slice" {
			return t.A[0], t.A[1], t.A[2]
		}
		return t, tInt(0), tNil()
	}
	xs, xl, xh := part(x)
	ys, yl, yh := part(y)
	end := func(s, h *Term) *Term {
		if h.isNil() {
			return tLen(s)
		}
		return h
	}
	if xs == ys && f.eval(tEq(xl, yl)) == yes && f.eval(tEq(end(xs, xh), end(ys, yh))) == yes {
		return true
	}
	none := func(s, l, h *Term) bool { return f.eval(tEq(l, end(s, h))) == yes }
	return none(xs, xl, xh) && none(ys, yl, yh)
}

// quiet: the method returns and changes nothing.
func (c *Checker) quiet(rule, name string, o *Outcome) bool {
	at := c.at(o.In, o.Pos)
	ok := c.ob(o.Kind == "return", rule, name+": panics", at, "the query panics")
	return c.ob(len(c.p.writesIn(o.St.trace)) == 0, rule, name+": changes", at, "the query changes something") && ok
}

func checkP36(c *Checker) {
	p, r := c.p, c.r
	c.rule("remaining: nothing if the last segment was reached; otherwise the rest of the path from the current segment on, with its slash in front unless a resource with a trailing slash, the root or the router asks")
	c.rule("responder: shared data, implementation, host and resource are those of the current responder; nil without one")
	c.rule("values: the host and path values of the request are returned")
	c.rule("set: a key's value is replaced, or the pair is added when no value has the key; nothing else changes")
	c.rule("get: the value whose key is equal, nil when every key was compared and differs")
	c.rule("context: the arguments kept in the request's context under the package's key, nil without them")
	run := func(name string, pure ...string) *regRun { return c.pureRun("Args", name, nil, set(pure...)) }

	if rr := run("RemainingPath"); rr != nil {
		self := rr.ps[0]
		path, idx, cur := p.fld(self, r.path), p.fld(self, r.idx), p.fld(self, r.r)
		for i := range rr.outs {
			o := &rr.outs[i]
			if !c.quiet("remaining", "RemainingPath", o) {
				continue
			}
			at := c.at(o.In, o.Pos)
			is := func(f *Facts, what string, want *Term) {
				c.ob(sameStr(f, o.Res[0], want), "remaining", what, at, "the remaining path isn't %s [%s, path: %s]", clip(want.String(), 200), clip(o.Res[0].String(), 200), clip(f.String(), 300))
			}
			rest, slash := tSlice(path, idx, nil), tSlice(path, tSub(idx, tInt(1)), nil)
			fork(o.St.facts, tEq(idx, tLen(path)), func(f *Facts, end bool) {
				if end {
					c.ob(f.eval(tEqC(tLen(o.Res[0]), 0)) == yes || sameStr(f, o.Res[0], rest), "remaining", "nothing remains", at, "a remaining path is returned though nothing remains")
					return
				}
				fork(f, isNilT(cur), func(f *Facts, none bool) {
					if none {
						is(f, "for the router", rest)
						return
					}
					fork(f, mk("tyok", "*"+p.types.Name()+".Resource", nil, cur), func(f *Facts, isRes bool) {
						cut := tEq(path, tStr("/"))
						if isRes {
							cut = tOr(cut, c.flagT(cur, "tslash"))
						}
						fork(f, cut, func(f *Facts, cut bool) {
							fork(f, tEqC(idx, 0), func(f *Facts, first bool) {
								switch {
								case cut && first:
									is(f, "without the slash, at the start", tSlice(path, tInt(1), nil))
								case cut || first:
									is(f, "without the slash", rest)
								default:
									fork(f, tLt(tInt(0), idx), func(f *Facts, pos bool) {
										if pos {
											is(f, "with the slash", slash)
										}
									})
								}
							})
						})
					})
				})
			})
		}
	}

	for _, m := range []struct{ name, field, pure string }{{"ResponderSharedData", "sharedData", "SharedData"}, {"ResponderImpl", r.impl, "Implementation"}} {
		rr := run(m.name)
		if rr == nil {
			continue
		}
		cur := p.fld(rr.ps[0], r.r)
		for i := range rr.outs {
			o := &rr.outs[i]
			if !c.quiet("responder", m.name, o) {
				continue
			}
			fork(o.St.facts, isNilT(cur), func(f *Facts, none bool) {
				if none {
					c.ob(f.eval(isNilT(o.Res[0])) == yes, "responder", m.name+": none", c.at(o.In, o.Pos), "something is returned without a responder")
					return
				}
				c.ob(c.getterHolds(f, o, m.pure, cur, o.Res[0]), "responder", m.name, c.at(o.In, o.Pos), "what is returned isn't the responder's [%s]", o.Res[0])
			})
		}
	}
	host, res := "*"+p.types.Name()+".Host", "*"+p.types.Name()+".Resource"
	for _, name := range []string{"Host", "CurrentResource"} {
		rr := run(name, map[string]string{"Host": "Host", "CurrentResource": ""}[name])
		if rr == nil {
			continue
		}
		cur := p.fld(rr.ps[0], r.r)
		for i := range rr.outs {
			o := &rr.outs[i]
			if !c.quiet("responder", name, o) {
				continue
			}
			at := c.at(o.In, o.Pos)
			is := func(f *Facts, what string, want *Term) {
				got := strip(o.Res[0])
				if want == nil {
					c.ob(f.eval(isNilT(got)) == yes, "responder", name+": "+what, at, "something is returned that isn't the current responder's [%s]", got)
					return
				}
				c.ob(sameResponder(got, want) || f.eval(tEq(got, want)) == yes, "responder", name+": "+what, at, "what is returned isn't the current responder's [%s]", got)
			}
			fork(o.St.facts, isNilT(cur), func(f *Facts, none bool) {
				if none {
					is(f, "none", nil)
					return
				}
				fork(f, mk("tyok", res, nil, cur), func(f *Facts, isRes bool) {
					if isRes {
						if name == "Host" {
							is(f, "of a resource", mk("call", "Host", nil, unbase(cur)))
						} else {
							is(f, "resource", cur)
						}
						return
					}
					if name == "CurrentResource" {
						is(f, "no resource", nil)
						return
					}
					fork(f, mk("tyok", host, nil, cur), func(f *Facts, isHost bool) {
						if isHost {
							is(f, "host", cur)
						} else {
							is(f, "neither", nil)
						}
					})
				})
			})
		}
	}

	if rr := run("HostPathValues"); rr != nil {
		want := p.fld(rr.ps[0], r.hpv)
		for i := range rr.outs {
			o := &rr.outs[i]
			if c.quiet("values", "HostPathValues", o) {
				c.ob(strip(o.Res[0]) == want, "values", "HostPathValues", c.at(o.In, o.Pos), "the values aren't those of the request [%s]", o.Res[0])
			}
		}
	}

	c.customArgs()

	c.argsKey("context")
	c.min("remaining", 6)
	c.min("responder", 8)
	c.min("values", 1)
	c.min("set", 2)
	c.min("get", 2)
	c.min("context", 2)
}

// argsKey judges ArgsFrom and tells which key of the context it reads.
func (c *Checker) argsKey(rule string) *Term {
	p := c.p
	fn := p.fn("ArgsFrom")
	if fn == nil {
		c.undecided("ArgsFrom", "the function was not found")
		return nil
	}
	ip := p.newInterp()
	ps := params(fn)
	outs := c.run(ip, newState(), fn, ps)
	var key *Term
	for i := range outs {
		o := &outs[i]
		if !c.quiet(rule, "ArgsFrom", o) {
			continue
		}
		at := c.at(o.In, o.Pos)
		v := o.St.facts.find(func(t *Term) bool {
			return t.Op == "call" && t.Aux == "invoke context.Context.Value" && len(t.A) == 2 &&
				t.A[0].Op == "call" && t.A[0].Aux == "(*net/http.Request).Context" && t.A[0].A[0] == ps[0]
		})
		if !c.ob(v != nil, rule, "ArgsFrom: value", at, "the arguments aren't looked for in the request's context") {
			continue
		}
		c.ob(key == nil || sameKey(key, v.A[1]), rule, "ArgsFrom: key", at, "different keys are used")
		key = v.A[1]
		fork(o.St.facts, mk("tyok", "*"+p.types.Name()+".Args", nil, v), func(f *Facts, ok bool) {
			if ok {
				c.ob(strip(o.Res[0]) == strip(v), rule, "ArgsFrom: found", at, "the arguments in the context aren't returned")
				return
			}
			c.ob(f.eval(isNilT(o.Res[0])) == yes, rule, "ArgsFrom: none", at, "something is returned though the context has no arguments")
		})
	}
	return key
}

// sameKey: the same variable or the same value.
func sameKey(x, y *Term) bool {
	g := func(t *Term) string {
		t = strip(t)
		for t != nil && (t.Op == "init" || t.Op == "load") {
			t = t.A[0]
		}
		if t == nil {
			return ""
		}
		return t.String()
	}
	return x != nil && y != nil && g(x) == g(y)
}

// customArgs judges Set and Get.
func (c *Checker) customArgs() {
	p, r := c.p, c.r
	var elem *types.Struct
	if s := p.structOf("Args"); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == r.slc {
				if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
					elem, _ = sl.Elem().Underlying().(*types.Struct)
				}
			}
		}
	}
	if !c.ob(elem != nil && elem.NumFields() == 2, "set", "pairs", "", "the custom arguments aren't kept as pairs") {
		return
	}
	// the key is the field that Get compares, the value the one that it returns
	key, val := elem.Field(0).Name(), elem.Field(1).Name()
	if val == "key" {
		key, val = val, key
	}
	differs := func(f *Facts, list, i, k *Term) bool {
		return f.find(func(t *Term) bool { return p.elemOf(list, i, key)(t) && f.eval(tEq(k, t)) == no }) != nil
	}
	// search judges the loop's iterations, and tells whether all keys differ
	search := func(rule, name string, rr *regRun, list, k *Term) func(f *Facts) bool {
		for j := range rr.ip.backedges {
			b := &rr.ip.backedges[j]
			i := c.linearIndex(b.St.facts, list)
			c.ob(i != nil && ascending(i) && sameLoop(i, b.Loop) && differs(b.St.facts, list, i, k), rule, name+": next", c.at(b.Fn, b.Fn.Pos()), "the search goes on though the key may be equal, or leaves a pair out")
		}
		return func(f *Facts) bool {
			if f.eval(tEqC(tLen(list), 0)) == yes {
				return true
			}
			i := c.linearIndex(f, list)
			return i != nil && ascending(i) && exhaustedBy(f, i, list)
		}
	}
	elemWith := func(f *Facts, a *Term, list, k *Term, field string) bool {
		return a.Op == "faddr" && a.Aux == field && a.A[0].Op == "iaddr" && a.A[0].A[0] == list &&
			f.find(func(t *Term) bool { return p.elemOf(list, a.A[0].A[1], key)(t) && f.eval(tEq(k, t)) == yes }) != nil
	}
	if rr := c.pureRun("Args", "Get", nil, nil); rr != nil {
		list, k := p.fld(rr.ps[0], r.slc), rr.ps[1]
		none := search("get", "Get", rr, list, k)
		for i := range rr.outs {
			o := &rr.outs[i]
			if !c.quiet("get", "Get", o) {
				continue
			}
			at := c.at(o.In, o.Pos)
			v := strip(o.Res[0])
			if v.Op == "init" {
				c.ob(elemWith(o.St.facts, v.A[0], list, k, val), "get", "Get: found", at, "the value returned isn't known to have the key")
				continue
			}
			c.ob(v.isNil() && none(o.St.facts), "get", "Get: none", at, "no value is returned though not every key was compared [%s]", v)
		}
	}
	if rr := c.pureRun("Args", "Set", nil, nil); rr != nil {
		list, k, nv := p.fld(rr.ps[0], r.slc), rr.ps[1], rr.ps[2]
		none := search("set", "Set", rr, list, k)
		for i := range rr.outs {
			o := &rr.outs[i]
			at := c.at(o.In, o.Pos)
			if !c.ob(o.Kind == "return", "set", "Set: panics", at, "setting an argument panics") {
				continue
			}
			var replaced, added, other int
			for _, x := range p.writesIn(o.St.trace) {
				a, v := x.Target, strip(x.Args[0])
				switch {
				case a == p.cell(rr.ps[0], r.slc):
					if v.Op == "append" && len(v.A) == 2 && v.A[0] == list && v.A[1].Op == "struct" && c.pairIs(elem, v.A[1], key, k, val, nv) && none(o.St.facts) {
						added++
					} else {
						other++
					}
				case elemWith(o.St.facts, a, list, k, val) && v == strip(nv):
					replaced++
				case elemWith(o.St.facts, a, list, k, key) && v == strip(k):
				default:
					other++
				}
			}
			c.ob(other == 0 && replaced+added == 1, "set", "Set", at, "the pair with the key doesn't get the value, or something else changes [replaced %d, added %d, other %d]", replaced, added, other)
		}
	}
}

func (c *Checker) pairIs(s *types.Struct, t *Term, key string, k *Term, val string, v *Term) bool {
	for i := 0; i < s.NumFields() && i < len(t.A); i++ {
		switch s.Field(i).Name() {
		case key:
			if strip(t.A[i]) != strip(k) {
				return false
			}
		case val:
			if strip(t.A[i]) != strip(v) {
				return false
			}
		}
	}
	return len(t.A) == s.NumFields()
}

// linearIndex is the loop index that the path compares with the list's length.
func (c *Checker) linearIndex(f *Facts, list *Term) *Term {
	for t := range f.b {
		if t.Op == "lt" && t.A[0].Op == "ind" && t.A[1] == tLen(list) {
			return t.A[0]
		}
	}
	return nil
}

func init() {
	register("P36", "Every abstract path of the methods of Args that handlers call, and of ArgsFrom, is analysed. Judged: the value that is returned or kept, as a function of the request's state and the current responder.", checkP36)
}
