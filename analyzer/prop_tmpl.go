package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Templates: matching, applying, comparing.

type tmplSpec struct {
	c    *Checker
	rr   *regRun
	self *Term
	rule string
	id   string
}

// tmplRun analyses a function of templates; lookups of values by their name
// are followed unless they're opaque.
func (c *Checker) tmplRun(rule, typ, name string, opaque bool) *tmplSpec {
	fn := c.p.actual(typ, name)
	if fn == nil {
		c.undecided(typ+"."+name, "the function was not found")
		return nil
	}
	ip := c.p.newInterp()
	if opaque {
		ip.Model = func(ip *Interp, st *State, in *ssa.Function, name string, fn *ssa.Function, args []*Term, site string) ([]callRes, bool) {
			t, base := c.p.bareName(name, fn)
			if fn == nil || t != "TemplateValues" || base != "get" && base != "Get" {
				return nil, false
			}
			return []callRes{{st: st, res: c.valueOf(args[0], args[1], base)}}, true
		}
	}
	ps := params(fn)
	outs := c.run(ip, newState(), fn, ps)
	if outs == nil {
		return nil
	}
	return &tmplSpec{c, &regRun{ip, outs, ps, fn}, ps[0], rule, name}
}

// valueOf is the lookup of a value by its name.
func (c *Checker) valueOf(values, name *Term, what string) *Term {
	fn := c.p.actual("TemplateValues", what)
	if fn == nil {
		return tNil()
	}
	return multi("call", "values."+what, fn.Signature, []*Term{strip(values), name})
}

func (s *tmplSpec) ob(ok bool, what, at, format string, args ...any) bool {
	return s.c.ob(ok, s.rule, s.id+": "+what, at, format, args...)
}

// segments of a template
func (s *tmplSpec) slices(t *Term) *Term   { return s.c.p.fld(t, "slices") }
func (s *tmplSpec) wildcard(t *Term) *Term { return s.c.p.fld(t, "wildcardIdx") }

func (s *tmplSpec) seg(t, i *Term) (static, vp, name, re *Term) {
	p := s.c.p
	e := mk("iaddr", "", nil, s.slices(t), i)
	static, vp = p.fld(e, "staticStr"), p.fld(e, "valuePattern")
	return static, vp, p.fld(vp, "name"), p.fld(vp, "re")
}

// linear divides an integer into multiples of terms and a constant.
func linear(t *Term) (m map[*Term]int64, c int64) {
	m = map[*Term]int64{}
	var add func(t *Term, by int64)
	add = func(t *Term, by int64) {
		if n, ok := t.intVal(); ok {
			c += by * n
			return
		}
		switch {
		case t.Op == "add":
			c += by * int64(atoi(t.Aux))
			add(t.A[0], by)
		case t.Op == "plus":
			add(t.A[0], by)
			add(t.A[1], by)
		case t.Op == "bin" && t.Aux == "-":
			add(t.A[0], by)
			add(t.A[1], -by)
		case t.Op == "ind":
			p := strings.SplitN(t.Aux, "|", 3)
			c += by * int64(atoi(p[1]))
			m[mk("ind", p[0]+"|0|"+p[2], t.T)] += by
		default:
			m[t] += by
		}
	}
	add(t, 1)
	for k, n := range m {
		if n == 0 {
			delete(m, k)
		}
	}
	return m, c
}

// walk tells how an index goes through a list: from the first element on
// ("up"), from the last one back ("down"), or neither.
func walk(i, list *Term) string {
	m, c := linear(i)
	l := tLen(list)
	var ind *Term
	n := int64(0)
	for k, by := range m {
		switch {
		case k.Op == "ind" && ind == nil:
			ind = k
			_, step := indParts(k)
			n = by * step
		case k == l && by == 1:
		default:
			return ""
		}
	}
	switch {
	case ind == nil:
		return ""
	case m[l] == 0 && c == 0 && n == 1:
		return "up"
	case m[l] == 1 && c == -1 && n == -1:
		return "down"
	}
	return ""
}

// indexes are the places in the list that the facts are about.
func indexes(f *Facts, list *Term) (r []*Term) {
	seen := map[*Term]bool{}
	f.find(func(x *Term) bool {
		if x.Op == "iaddr" && strip(x.A[0]) == list && !seen[x.A[1]] {
			seen[x.A[1]] = true
			r = append(r, x.A[1])
		}
		return false
	})
	return r
}

// quiet: nothing but what the function itself made is changed.
func (s *tmplSpec) quiet() {
	for i := range s.rr.outs {
		o := &s.rr.outs[i]
		s.ob(len(s.c.p.writesIn(o.St.trace)) == 0, "changes", s.c.at(o.In, o.Pos), "something is changed")
	}
}

func (s *tmplSpec) eachOut(k func(f *Facts, o *Outcome, at string)) {
	for i := range s.rr.outs {
		o := &s.rr.outs[i]
		k(o.St.facts, o, s.c.at(o.In, o.Pos))
	}
}

func (s *tmplSpec) eachStep(k func(f *Facts, b *BackEdge, at string)) {
	for i := range s.rr.ip.backedges {
		b := &s.rr.ip.backedges[i]
		k(b.St.facts, b, s.c.at(b.Fn, b.Fn.Pos()))
	}
}

func (s *tmplSpec) path(f *Facts) string { return clip(f.String(), 1500) }

// ---------------------------------------------------------------------------

// loopState is what a walk over the segments carries along.
type loopState struct {
	str, vals *Term // the rest of the string and the values
	idx       *Term
}

// fit is what a segment makes of the string.
type fit struct {
	ok         tri
	rest, name *Term // name is nil if there's no value
	val        *Term
}

// fits: whether the segment fits the string's beginning or end, and what's
// left of it. The continuation gets the refined facts.
func (s *tmplSpec) fits(f *Facts, str, idx *Term, up bool, k func(f *Facts, x fit)) {
	static, _, name, re := s.seg(s.self, idx)
	fork(f, tEqC(tLen(static), 0), func(f *Facts, dynamic bool) {
		if !dynamic {
			fork(f, affix(up, str, static), func(f *Facts, ok bool) {
				rest := tSlice(str, tInt(0), tSub(tLen(str), tLen(static)))
				if up {
					rest = tSlice(str, tLen(static), tNil())
				}
				k(f, fit{ok: triOf(ok), rest: rest})
			})
			return
		}
		at := func(l *Term, i int64) *Term { return mk("init", "", nil, mk("iaddr", "", nil, l, tInt(i))) }
		one := mk("call", "(*regexp.Regexp).FindStringIndex", nil, re, str)
		all := mk("call", "(*regexp.Regexp).FindAllStringIndex", nil, re, str, tInt(-1))
		if up {
			fork(f, noMatch(f, one), func(f *Facts, none bool) {
				k(f, fit{triOf(!none), tSlice(str, at(one, 1), tNil()), name, tSlice(str, tInt(0), at(one, 1))})
			})
			return
		}
		loc, hit := one, tNot(noMatch(f, one))
		if f.find(func(t *Term) bool { return t == all }) != nil {
			loc, hit = at(all, 0), tEqC(tLen(all), 1)
		}
		fork(f, hit, func(f *Facts, ok bool) {
			k(f, fit{triOf(ok), tSlice(str, tInt(0), at(loc, 0)), name, tSlice(str, at(loc, 0), tNil())})
		})
	})
}

// noMatch: a regexp found nothing. Places that were found are never empty.
func noMatch(f *Facts, found *Term) *Term {
	if l := tEqC(tLen(found), 0); f.eval(isNilT(found)) == unk && f.eval(l) != unk {
		return l
	}
	return isNilT(found)
}

// added: the values with one more.
func (s *tmplSpec) added(f *Facts, got, vals, name, val *Term) bool {
	got = strip(got)
	if got == nil {
		return false
	}
	n := len(got.A)
	isPair := func(t *Term) bool {
		return t.Op == "struct" && len(t.A) == 2 && t.A[0] == name && eqText(f, t.A[1], val)
	}
	switch got.Op {
	case "append":
		return n == 2 && strip(got.A[0]) == vals && isPair(got.A[1])
	case "list":
		return n == 1 && isPair(got.A[0]) && (f.eval(isNilT(vals)) == yes || f.eval(tEqC(tLen(vals), 0)) == yes)
	}
	return false
}

// match judges Match.
func (s *tmplSpec) match() {
	list, wild := s.slices(s.self), s.wildcard(s.self)
	str0, vals0 := s.rr.ps[1], s.rr.ps[2]
	// the end of the walk from the front
	type dirState struct{ str, vals, idx *Term }
	dirs := map[string]*dirState{}
	// the strings and values that a loop carries along
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		for w := range b.Next {
			if !isWiden(w) || w.A[0].Op == "faddr" {
				continue
			}
			for _, i := range indexes(f, list) {
				d := walk(i, list)
				if d == "" {
					continue
				}
				if dirs[d] == nil {
					dirs[d] = &dirState{}
				}
				dirs[d].idx = i
				switch r := s.origin(w); r {
				case str0:
					dirs[d].str = w
				case vals0:
					dirs[d].vals = w
				}
			}
		}
	})
	up, down := dirs["up"], dirs["down"]
	at := s.c.at(s.rr.fn, s.rr.fn.Pos())
	if !s.ob(up != nil && up.str != nil && up.vals != nil && down != nil && down.str != nil && down.vals != nil, "walks", at, "the segments aren't gone through from the front and from the back") {
		return
	}
	// limit: where the walk from the front ends
	limit := func(f *Facts, k func(f *Facts, lim *Term, wild bool)) {
		fork(f, tLt(wild, tInt(0)), func(f *Facts, none bool) {
			if none {
				k(f, tLen(list), false)
			} else {
				k(f, wild, true)
			}
		})
	}
	inUp := func(f *Facts, lim *Term) tri { return f.eval(tLt(up.idx, lim)) }
	inDown := func(f *Facts) tri { return f.eval(tLt(wild, down.idx)) }
	steps := map[string]int{}
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		limit(f, func(f *Facts, lim *Term, hasWild bool) {
			for d, x := range dirs {
				if _, ok := b.Next[x.str]; !ok {
					continue
				}
				steps[d]++
				from := str0
				vals := vals0
				if d == "down" {
					from, vals = up.str, up.vals
					s.ob(inUp(f, lim) == no, "order", at, "the end is compared before the beginning [path: %s]", s.path(f))
					s.ob(hasWild && inDown(f) == yes, "back", at, "the walk from the back goes further than the wildcard segment [path: %s]", s.path(f))
				} else {
					s.ob(inUp(f, lim) == yes, "front", at, "the walk from the front goes further than the wildcard segment [path: %s]", s.path(f))
				}
				s.ob(b.Init[x.str] == from && b.Init[x.vals] == vals, d+": begins", at, "the walk doesn't begin with what's left of the string")
				s.fits(f, x.str, x.idx, d == "up", func(f *Facts, ft fit) {
					if !s.ob(ft.ok == yes, d+": fits", at, "the walk goes on though a segment doesn't fit [path: %s]", s.path(f)) {
						return
					}
					s.ob(s.same(f, b.Next[x.str], ft.rest), d+": rest", at, "%s is left of the string and not %s", clip(fmt.Sprint(b.Next[x.str]), 200), clip(ft.rest.String(), 200))
					next := b.Next[x.vals]
					if ft.name == nil {
						s.ob(next == x.vals, d+": values", at, "a static segment changes the values")
						return
					}
					known := s.c.valueOf(x.vals, ft.name, "get")
					fork(f, tLt(known.A[0], tInt(0)), func(f *Facts, fresh bool) {
						if fresh {
							s.ob(s.added(f, next, x.vals, ft.name, ft.val), d+": new value", at, "the segment's value isn't added: %s [path: %s]", clip(fmt.Sprint(next), 300), s.path(f))
							return
						}
						s.ob(next == x.vals && f.eval(tEq(ft.val, known.A[1])) == yes, d+": repeated value", at, "the walk goes on though the value differs from the one under the name [path: %s]", s.path(f))
					})
				})
			}
		})
	})
	s.ob(steps["up"] > 0 && steps["down"] > 0, "walks", at, "no walk over the segments")
	s.eachOut(func(f *Facts, o *Outcome, at string) {
		if !s.ob(o.Kind == "return", "panics", at, "matching panics") {
			return
		}
		limit(f, func(f *Facts, lim *Term, hasWild bool) {
			fork(f, o.Res[0], func(f *Facts, ok bool) {
				end := up
				if hasWild {
					end = down
				}
				if !ok {
					s.ob(strip(o.Res[1]) == vals0, "failure", at, "other values than the given ones are returned without a match: %s", clip(o.Res[1].String(), 200))
					why := false
					for d, x := range dirs {
						in := inUp(f, lim) == yes
						if d == "down" {
							in = inUp(f, lim) == no && hasWild && inDown(f) == yes
						}
						if !in {
							continue
						}
						all := true
						s.fits(f, x.str, x.idx, d == "up", func(f *Facts, ft fit) {
							if ft.ok == no {
								return
							}
							if ft.name != nil {
								known := s.c.valueOf(x.vals, ft.name, "get")
								if f.eval(tLt(known.A[0], tInt(0))) == no && f.eval(tEq(ft.val, known.A[1])) == no {
									return
								}
							}
							all = false
						})
						why = why || all
					}
					if !hasWild && inUp(f, lim) == no && f.eval(tEqC(tLen(up.str), 0)) == no {
						why = true
					}
					s.ob(why, "no match", at, "a string that matches is refused [path: %s]", s.path(f))
					return
				}
				done := inUp(f, lim) == no && (!hasWild || inDown(f) == no)
				if !s.ob(done, "all segments", at, "a string matches though not every segment was compared [path: %s]", s.path(f)) {
					return
				}
				fork(f, tEqC(tLen(end.str), 0), func(f *Facts, none bool) {
					if none {
						s.ob(strip(o.Res[1]) == end.vals, "values", at, "the values aren't those of the segments: %s", clip(o.Res[1].String(), 200))
						return
					}
					if !s.ob(hasWild, "rest", at, "a string matches though something is left of it [path: %s]", s.path(f)) {
						return
					}
					_, _, name, _ := s.seg(s.self, wild)
					s.ob(s.added(f, o.Res[1], end.vals, name, end.str), "wildcard", at, "the wildcard's value isn't what's left of the string: %s", clip(o.Res[1].String(), 300))
				})
			})
		})
	})
	s.quiet()
}

// same: the same text.
func (s *tmplSpec) same(f *Facts, x, y *Term) bool {
	x, y = strip(x), strip(y)
	return x != nil && (x == y || eqText(f, x, y))
}

// origin is what a value that loops carry along was at first.
func (s *tmplSpec) origin(w *Term) *Term {
	for isWiden(w) {
		w = w.A[0]
	}
	return w
}

// ---------------------------------------------------------------------------

// grows checks a text or a list that a loop over the segments makes: it
// returns the term that holds it, if it's that.
func (s *tmplSpec) carried(t *Term, empty func(t *Term) bool) bool {
	t = strip(t)
	if !isWiden(t) {
		return false
	}
	bs := s.rr.ip.stepsOf(t)
	for _, b := range bs {
		if i := b.Init[t]; i != nil && !empty(strip(i)) {
			return false
		}
	}
	return len(bs) > 0
}

func emptyText(t *Term) bool { return t == nil || t == tStr("") || t.isNil() || t.Op == "zero" }

// apply judges TryToApply.
func (s *tmplSpec) apply() {
	list := s.slices(s.self)
	vals, ignore := s.rr.ps[1], s.rr.ps[2]
	var text *Term
	s.eachOut(func(f *Facts, o *Outcome, at string) {
		if o.Kind == "return" && f.eval(isNilT(o.Res[1])) == yes && s.carried(o.Res[0], emptyText) {
			text = strip(o.Res[0])
		}
	})
	at := s.c.at(s.rr.fn, s.rr.fn.Pos())
	if !s.ob(text != nil, "text", at, "no text is made of the segments one after another") {
		return
	}
	// here: the segment that the path is about
	here := func(f *Facts) *Term {
		for _, i := range indexes(f, list) {
			if walk(i, list) == "up" && f.eval(tLt(i, tLen(list))) == yes {
				return i
			}
		}
		return nil
	}
	// part: what the segment becomes; nil if there's a reason to fail
	part := func(f *Facts, i *Term, k func(f *Facts, p *Term, why string)) {
		static, _, name, re := s.seg(s.self, i)
		fork(f, tEqC(tLen(static), 0), func(f *Facts, dynamic bool) {
			if !dynamic {
				k(f, static, "a static segment")
				return
			}
			v := s.c.valueOf(vals, name, "get")
			fork(f, tLt(v.A[0], tInt(0)), func(f *Facts, none bool) {
				if none {
					fork(f, ignore, func(f *Facts, ignore bool) {
						if ignore {
							k(f, tStr(""), "a missing value that's ignored")
						} else {
							k(f, nil, "a missing value")
						}
					})
					return
				}
				fork(f, isNilT(re), func(f *Facts, wild bool) {
					if wild {
						k(f, v.A[1], "a wildcard's value")
						return
					}
					m := mk("call", "(*regexp.Regexp).FindStringIndex", nil, re, v.A[1])
					at := func(i int64) *Term { return mk("init", "", nil, mk("iaddr", "", nil, m, tInt(i))) }
					fork(f, noMatch(f, m), func(f *Facts, none bool) {
						if none {
							k(f, nil, "a value that doesn't match")
							return
						}
						fork(f, tEqC(at(0), 0), func(f *Facts, begin bool) {
							fork(f, tEq(at(1), tLen(v.A[1])), func(f *Facts, end bool) {
								if begin && end {
									k(f, v.A[1], "a value")
								} else {
									k(f, nil, "a value that matches partly")
								}
							})
						})
					})
				})
			})
		})
	}
	n := 0
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		next, ok := b.Next[text]
		i := here(f)
		if !s.ob(ok && i != nil, "step", at, "an iteration isn't about the next segment [path: %s]", s.path(f)) {
			return
		}
		n++
		part(f, i, func(f *Facts, p *Term, why string) {
			if !s.ob(p != nil, "refused: "+why, at, "%s is put into the text [path: %s]", why, s.path(f)) {
				return
			}
			s.ob(s.same(f, next, tConcat(text, p)), "text: "+why, at, "the text gets %s and not %s", clip(fmt.Sprint(next), 300), clip(p.String(), 300))
		})
	})
	s.ob(n > 0, "step", at, "no walk over the segments")
	s.eachOut(func(f *Facts, o *Outcome, at string) {
		if !s.ob(o.Kind == "return", "panics", at, "applying panics") {
			return
		}
		fork(f, isNilT(o.Res[1]), func(f *Facts, ok bool) {
			if ok {
				done := false
				s.counters(text, func(i *Term) { done = done || f.eval(tLt(i, tLen(list))) == no })
				s.ob(done && strip(o.Res[0]) == text, "all segments", at, "the text isn't that of all segments [path: %s]", s.path(f))
				return
			}
			i := here(f)
			if !s.ob(i != nil, "refused", at, "values are refused for no reason [path: %s]", s.path(f)) {
				return
			}
			part(f, i, func(f *Facts, p *Term, why string) {
				s.ob(p == nil, "refused: "+why, at, "%s is refused [path: %s]", why, s.path(f))
			})
		})
	})
	s.quiet()
}

// counters calls k with the indexes of the segments in the loop that carries
// the value.
func (s *tmplSpec) counters(w *Term, k func(i *Term)) {
	list := s.slices(s.self)
	for _, b := range s.rr.ip.stepsOf(w) {
		for _, i := range indexes(b.St.facts, list) {
			if walk(i, list) == "up" {
				k(i)
			}
		}
	}
}

func checkP30(c *Checker) {
	c.rule("match: a string matches a template if its segments fit the string's beginning one after another up to the wildcard, and its end one before another down to it, and without a wildcard nothing is left")
	c.rule("match: a pattern's value is the text it matched and is added under its name, unless there's a value under the name: then it must be the same; what's left is the wildcard's")
	c.rule("match: without a match the given values are returned, and nothing is ever changed")
	if s := c.tmplRun("match", "Template", "Match", true); s != nil {
		s.match()
	}
}

func checkP32(c *Checker) {
	c.rule("apply: the text is that of the segments in order, a static segment's own text and the value under a dynamic one's name, which its whole pattern has to match")
	c.rule("apply: a missing value is an error unless it's ignored, and a value is refused only if it doesn't match")
	if s := c.tmplRun("apply", "Template", "TryToApply", true); s != nil {
		s.apply()
	}
	if rr := c.pureRun("Template", "Apply", nil, set("TryToApply")); rr != nil {
		s := &tmplSpec{c, rr, rr.ps[0], "apply", "Apply"}
		s.eachOut(func(f *Facts, o *Outcome, at string) {
			ps := rr.ps
			res := multi("call", "TryToApply", c.p.actual("Template", "TryToApply").Signature, []*Term{unbase(ps[0]), ps[1], ps[2]})
			fork(f, isNilT(res.A[1]), func(f *Facts, ok bool) {
				if ok {
					s.ob(o.Kind == "return" && s.same(f, o.Res[0], res.A[0]), "text", at, "the text isn't that of TryToApply with the same values")
				} else {
					s.ob(o.Kind == "panic", "error", at, "an error doesn't become a panic")
				}
			})
		})
		s.quiet()
	}
}

func init() {
	register("P30", "Every abstract path and iteration of Template.Match is compared with a specification of matching: the segments in their order from both ends, the regexps and lookups of values opaque.", checkP30)
	register("P32", "Every abstract path and iteration of Template.TryToApply is compared with a specification of applying values to the segments in order.", checkP32)
}
