package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Comparing templates, asking about them, and the values' lists.

func (c *Checker) constOf(name string) (int64, bool) {
	if k, ok := c.p.spkg.Members[name].(*ssa.NamedConst); ok {
		return k.Value.Int64(), true
	}
	return 0, false
}

// isStatic, isWild: the kinds of templates that have one segment.
func (s *tmplSpec) isStatic(t *Term) *Term {
	st, _, _, _ := s.seg(t, tInt(0))
	return tAnd(tEqC(tLen(s.slices(t)), 1), tNot(tEqC(tLen(st), 0)))
}

func (s *tmplSpec) isWild(t *Term) *Term {
	return tAnd(tEqC(tLen(s.slices(t)), 1), tEqC(s.wildcard(t), 0))
}

// similarity judges SimilarityWith.
func (s *tmplSpec) similarity() {
	c := s.c
	t1, t2 := s.self, s.rr.ps[1]
	l1 := s.slices(t1)
	deg := map[string]int64{}
	for _, n := range []string{"Different", "DifferentValueNames", "DifferentNames", "TheSame"} {
		k, ok := c.constOf(n)
		if !s.ob(ok, "degrees", "", "there's no degree %s", n) {
			return
		}
		deg[n] = k
	}
	seen := map[int64]bool{}
	for _, k := range deg {
		seen[k] = true
	}
	s.ob(len(seen) == 4, "degrees", "", "the degrees aren't different from each other")
	at0 := c.at(s.rr.fn, s.rr.fn.Pos())
	// compare: a segment of both templates
	compare := func(f *Facts, i *Term, k func(f *Facts, same, names bool)) {
		st1, _, n1, re1 := s.seg(t1, i)
		st2, _, n2, re2 := s.seg(t2, i)
		fork(f, tEqC(tLen(st1), 0), func(f *Facts, dyn1 bool) {
			fork(f, tEqC(tLen(st2), 0), func(f *Facts, dyn2 bool) {
				switch {
				case dyn1 != dyn2:
					k(f, false, false)
					return
				case !dyn1:
					fork(f, tEq(st1, st2), func(f *Facts, eq bool) { k(f, eq, eq) })
					return
				}
				names := func(f *Facts) {
					fork(f, tEq(n1, n2), func(f *Facts, eq bool) { k(f, true, eq) })
				}
				fork(f, isNilT(re1), func(f *Facts, w1 bool) {
					fork(f, isNilT(re2), func(f *Facts, w2 bool) {
						switch {
						case w1 != w2:
							k(f, false, false)
						case w1:
							names(f)
						default:
							str := func(re *Term) *Term { return mk("call", "(*regexp.Regexp).String", nil, re) }
							fork(f, tEq(str(re1), str(re2)), func(f *Facts, eq bool) {
								if eq {
									names(f)
								} else {
									k(f, false, false)
								}
							})
						}
					})
				})
			})
		})
	}
	here := func(f *Facts) *Term {
		for _, i := range indexes(f, l1) {
			if walk(i, l1) == "up" && f.eval(tLt(i, tLen(l1))) == yes {
				return i
			}
		}
		return nil
	}
	// kept: what the loop remembers of the names
	var kept *Term
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		for w, n := range b.Next {
			if isWiden(w) && w.A[0].Op != "faddr" && b.Init[w] != nil && b.Init[w].isConst() && n != w {
				kept = w
			}
		}
	})
	var other *Term
	n := 0
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		i := here(f)
		if !s.ob(i != nil, "step", at, "an iteration isn't about the next segment of the templates [path: %s]", s.path(f)) {
			return
		}
		n++
		compare(f, i, func(f *Facts, same, names bool) {
			if !s.ob(same, "segments", at, "the comparison goes on though the segments differ [path: %s]", s.path(f)) {
				return
			}
			if kept == nil {
				s.ob(names, "value names", at, "different value names are forgotten")
				return
			}
			v := b.Next[kept]
			if names {
				s.ob(v == kept, "value names", at, "templates with the same value names differ: %s [path: %s]", v, s.path(f))
				return
			}
			ok := v != nil && v.isConst() && v != b.Init[kept] && (other == nil || other == v)
			s.ob(ok, "value names", at, "different value names are forgotten: %s [path: %s]", v, s.path(f))
			other = v
		})
	})
	s.ob(n > 0, "step", at0, "the segments aren't compared one by one")
	s.eachOut(func(f *Facts, o *Outcome, at string) {
		fork(f, isNilT(t2), func(f *Facts, none bool) {
			if none {
				s.ob(o.Kind == "panic", "nil", at, "a comparison with nothing doesn't panic")
				return
			}
			if !s.ob(o.Kind == "return", "panics", at, "a comparison of templates panics") {
				return
			}
			is := func(f *Facts, name string) {
				s.ob(f.eval(tEqC(o.Res[0], deg[name])) == yes, name, at, "the result is %s and not %s [path: %s]", o.Res[0], name, s.path(f))
			}
			names := func(f *Facts) {
				fork(f, tEq(c.p.fld(t1, "name"), c.p.fld(t2, "name")), func(f *Facts, eq bool) {
					if eq {
						is(f, "TheSame")
					} else {
						is(f, "DifferentNames")
					}
				})
			}
			fork(f, s.isStatic(t1), func(f *Facts, static1 bool) {
				if static1 {
					fork(f, s.isStatic(t2), func(f *Facts, static2 bool) {
						if !static2 {
							is(f, "Different")
							return
						}
						a, _, _, _ := s.seg(t1, tInt(0))
						b, _, _, _ := s.seg(t2, tInt(0))
						fork(f, tEq(a, b), func(f *Facts, eq bool) {
							if eq {
								names(f)
							} else {
								is(f, "Different")
							}
						})
					})
					return
				}
				fork(f, s.isWild(t1), func(f *Facts, wild1 bool) {
					if wild1 {
						fork(f, s.isWild(t2), func(f *Facts, wild2 bool) {
							if !wild2 {
								is(f, "Different")
								return
							}
							_, _, a, _ := s.seg(t1, tInt(0))
							_, _, b, _ := s.seg(t2, tInt(0))
							fork(f, tEq(a, b), func(f *Facts, eq bool) {
								if eq {
									names(f)
								} else {
									is(f, "DifferentValueNames")
								}
							})
						})
						return
					}
					fork(f, tOr(s.isStatic(t2), s.isWild(t2)), func(f *Facts, one bool) {
						if one {
							is(f, "Different")
							return
						}
						fork(f, tEq(s.wildcard(t1), s.wildcard(t2)), func(f *Facts, eq bool) {
							if !eq {
								is(f, "Different")
								return
							}
							fork(f, tEq(tLen(l1), tLen(s.slices(t2))), func(f *Facts, eq bool) {
								if !eq {
									is(f, "Different")
									return
								}
								if i := here(f); i != nil && s.inLoop(f, i) {
									compare(f, i, func(f *Facts, same, _ bool) {
										if s.ob(!same, "segments", at, "the comparison ends before the last segment [path: %s]", s.path(f)) {
											is(f, "Different")
										}
									})
									return
								}
								done := false
								s.steps(l1, func(i *Term) { done = done || f.eval(tLt(i, tLen(l1))) == no })
								if !s.ob(done, "segments", at, "not every segment is compared [path: %s]", s.path(f)) {
									return
								}
								if kept == nil {
									names(f)
									return
								}
								var init *Term
								for _, b := range s.rr.ip.stepsOf(kept) {
									init = b.Init[kept]
								}
								fork(f, tEq(kept, init), func(f *Facts, same bool) {
									if same {
										names(f)
										return
									}
									if o.Res[0] == kept && other != nil {
										s.ob(other == tInt(deg["DifferentValueNames"]), "DifferentValueNames", at, "the result is %s for different value names", other)
										return
									}
									is(f, "DifferentValueNames")
								})
							})
						})
					})
				})
			})
		})
	})
	s.quiet()
}

// inLoop: the path ends within an iteration.
func (s *tmplSpec) inLoop(f *Facts, i *Term) bool {
	return f.eval(tLt(i, tLen(s.slices(s.self)))) == yes
}

// steps calls k with the indexes with which loops go through the list.
func (s *tmplSpec) steps(list *Term, k func(i *Term)) {
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		for _, i := range indexes(f, list) {
			if walk(i, list) == "up" {
				k(i)
			}
		}
	})
}

// iff: the answer is yes exactly if the condition holds.
func (s *tmplSpec) iff(cond *Term) {
	s.eachOut(func(f *Facts, o *Outcome, at string) {
		fork(f, cond, func(f *Facts, yes bool) {
			s.ob(o.Kind == "return" && f.eval(o.Res[0]) == triOf(yes), "answer", at, "the answer isn't %v [path: %s]", yes, s.path(f))
		})
	})
	s.quiet()
}

// exists: the answer is yes exactly if a segment fulfils the condition.
func (s *tmplSpec) exists(cond func(i *Term) *Term) {
	list := s.slices(s.self)
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		ok := false
		for _, i := range indexes(f, list) {
			ok = ok || walk(i, list) == "up" && f.eval(tLt(i, tLen(list))) == yes && len(f.assume(cond(i), true)) == 0
		}
		s.ob(ok, "next", at, "the search goes on though the segment may be one [path: %s]", s.path(f))
	})
	s.eachOut(func(f *Facts, o *Outcome, at string) {
		if !s.ob(o.Kind == "return", "panics", at, "a question panics") {
			return
		}
		fork(f, o.Res[0], func(f *Facts, has bool) {
			ok := false
			if has {
				for _, i := range indexes(f, list) {
					ok = ok || f.eval(tLt(i, tLen(list))) == yes && f.eval(cond(i)) == yes
				}
				s.ob(ok, "yes", at, "the answer is yes without such a segment [path: %s]", s.path(f))
				return
			}
			s.steps(list, func(i *Term) { ok = ok || f.eval(tLt(i, tLen(list))) == no })
			s.ob(ok, "no", at, "the answer is no though not every segment was asked about [path: %s]", s.path(f))
		})
	})
	s.quiet()
}

// collected: the list is made of something of each segment in order, and
// nothing else. pick tells what a segment adds.
func (s *tmplSpec) collected(w *Term, pick func(f *Facts, i *Term, k func(f *Facts, v *Term))) string {
	return s.collectedOf(w, s.slices(s.self), pick)
}

func (s *tmplSpec) collectedOf(w, list *Term, pick func(f *Facts, i *Term, k func(f *Facts, v *Term))) string {
	if !s.carried(w, emptyList) {
		return "it isn't made by one loop"
	}
	bad := ""
	for _, b := range s.rr.ip.stepsOf(w) {
		f := b.St.facts
		var at *Term
		for _, i := range indexes(f, list) {
			if walk(i, list) == "up" && f.eval(tLt(i, tLen(list))) == yes {
				at = i
			}
		}
		if at == nil {
			return "an iteration isn't about the next segment"
		}
		pick(f, at, func(f *Facts, v *Term) {
			n := strip(b.Next[w])
			switch {
			case v == nil && n != w:
				bad = fmt.Sprintf("a segment adds %s", clip(fmt.Sprint(n), 200))
			case v != nil && (n == nil || n.Op != "append" || len(n.A) != 2 || strip(n.A[0]) != w || strip(n.A[1]) != v):
				bad = fmt.Sprintf("a segment adds %s and not %s", clip(fmt.Sprint(n), 200), clip(v.String(), 200))
			}
		})
	}
	return bad
}

// valueNames is what the list of value names is made of.
func (s *tmplSpec) valueName(f *Facts, i *Term, k func(f *Facts, v *Term)) {
	_, vp, name, _ := s.seg(s.self, i)
	fork(f, isNilT(vp), func(f *Facts, none bool) {
		if none {
			k(f, nil)
		} else {
			k(f, name)
		}
	})
}

func (s *tmplSpec) valueNames() {
	list := s.slices(s.self)
	s.eachOut(func(f *Facts, o *Outcome, at string) {
		if !s.ob(o.Kind == "return", "panics", at, "a question panics") {
			return
		}
		w := strip(o.Res[0])
		if emptyList(w) {
			s.ob(f.eval(tEqC(tLen(list), 0)) == yes, "names", at, "no names are returned [path: %s]", s.path(f))
			return
		}
		bad := s.collected(w, s.valueName)
		s.ob(bad == "", "names", at, "the names aren't those of the segments: %s", bad)
		ok := false
		s.counters(w, func(i *Term) { ok = ok || f.eval(tLt(i, tLen(list))) == no })
		s.ob(ok, "all", at, "not every segment's name is returned [path: %s]", s.path(f))
	})
	s.quiet()
}

// hasValueName judges HasValueName.
func (s *tmplSpec) hasValueName() {
	list, names := s.slices(s.self), s.rr.ps[1]
	// own: the text is the name of a value in the template
	own := func(f *Facts, t *Term) bool {
		t = strip(t)
		if t.Op != "init" {
			return false
		}
		for _, i := range indexes(f, list) {
			if _, _, n, _ := s.seg(s.self, i); n == t && f.eval(tLt(i, tLen(list))) == yes {
				return true
			}
		}
		return t.A[0].Op == "iaddr" && s.collected(strip(t.A[0].A[0]), s.valueName) == ""
	}
	// lists are those that have to be gone through
	lists := map[*Term]bool{names: true}
	asked := false
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		f.find(func(t *Term) bool {
			if t.Op != "eq" {
				return false
			}
			for i, x := range t.A {
				y := t.A[1-i]
				if own(f, x) && y.Op == "init" && y.A[0].Op == "iaddr" && strip(y.A[0].A[0]) == names {
					asked = true
					s.ob(f.eval(t) == no, "next", at, "the search goes on though the name is one")
					if l := strip(x.A[0]); l.Op == "iaddr" {
						lists[strip(l.A[0])] = true
					} else {
						lists[list] = true
					}
				}
			}
			return false
		})
	})
	s.ob(asked, "compared", s.c.at(s.rr.fn, s.rr.fn.Pos()), "the names aren't compared with the template's")
	// every loop goes through one of the lists from the beginning on
	goes := map[string]*Term{}
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		ok := false
		f.find(func(t *Term) bool {
			if t.Op == "lt" && f.eval(t) == yes && t.A[1].Op == "len" {
				l := t.A[1].A[0]
				if walk(t.A[0], l) == "up" && t.Aux == "0" && mentionsLoop(t.A[0], b.Loop) {
					ok = true
					goes[b.Loop] = l
				}
			}
			return false
		})
		s.ob(ok, "step", at, "a loop doesn't go through a list [path: %s]", s.path(f))
	})
	past := func(f *Facts, l *Term) bool {
		return f.find(func(t *Term) bool {
			return t.Op == "lt" && t.Aux == "0" && t.A[1] == tLen(l) && walk(t.A[0], l) == "up" && f.eval(t) == no
		}) != nil
	}
	// an outer iteration ends when the inner list has been gone through
	type through struct {
		loop string
		list *Term
	}
	outer := map[through]bool{}
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		for l := range lists {
			if past(f, l) {
				outer[through{b.Loop, l}] = true
			}
		}
	})
	s.eachOut(func(f *Facts, o *Outcome, at string) {
		if !s.ob(o.Kind == "return", "panics", at, "a question panics") {
			return
		}
		fork(f, o.Res[0], func(f *Facts, has bool) {
			if has {
				ok := f.find(func(t *Term) bool {
					if t.Op != "eq" || f.eval(t) != yes {
						return false
					}
					for i, x := range t.A {
						y := t.A[1-i]
						if own(f, x) && y.Op == "init" && y.A[0].Op == "iaddr" && strip(y.A[0].A[0]) == names {
							return true
						}
					}
					return false
				}) != nil
				s.ob(ok, "yes", at, "the answer is yes though no name is the template's [path: %s]", s.path(f))
				return
			}
			ok := false
			for t := range outer {
				ok = ok || goes[t.loop] != nil && goes[t.loop] != t.list && past(f, goes[t.loop])
			}
			for l := range lists {
				ok = ok || f.eval(tEqC(tLen(l), 0)) == yes
			}
			s.ob(ok, "no", at, "the answer is no though not every name was asked about [path: %s]", s.path(f))
		})
	})
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		nameless := false
		if goes[b.Loop] == list {
			for _, i := range indexes(f, list) {
				_, vp, _, _ := s.seg(s.self, i)
				nameless = nameless || walk(i, list) == "up" && f.eval(isNilT(vp)) == yes
			}
		}
		for l := range lists {
			if outer[through{b.Loop, l}] && !nameless {
				s.ob(past(f, l), "inner", at, "an iteration ends though not all were compared [path: %s]", s.path(f))
			}
		}
	})
	s.quiet()
}

// mentionsLoop: the index counts the loop's iterations.
func mentionsLoop(i *Term, loop string) bool {
	return findTerm(i, func(t *Term) bool { return t.Op == "ind" && strings.HasPrefix(t.Aux, loop+".") }) != nil
}

// lookup judges the lookup of a value by its name: the last one's.
func (s *tmplSpec) lookup(byIndex bool) {
	list, key := s.rr.ps[0], s.rr.ps[1]
	p := s.c.p
	el := func(i *Term, name string) *Term { return p.fld(mk("iaddr", "", nil, list, i), name) }
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		ok := false
		for _, i := range indexes(f, list) {
			ok = ok || walk(i, list) != "" && f.eval(tEq(key, el(i, "key"))) == no
		}
		s.ob(ok, "next", at, "the search goes on though the key may be the one [path: %s]", s.path(f))
	})
	s.eachOut(func(f *Facts, o *Outcome, at string) {
		if !s.ob(o.Kind == "return", "panics", at, "a lookup panics") {
			return
		}
		v := strip(o.Res[len(o.Res)-1])
		if v.Op == "init" && v.A[0].Op == "faddr" && v.A[0].Aux == "value" && v.A[0].A[0].Op == "iaddr" && strip(v.A[0].A[0].A[0]) == list {
			i := v.A[0].A[0].A[1]
			s.ob(f.eval(tEq(key, el(i, "key"))) == yes && (!byIndex || o.Res[0] == i), "found", at, "the value isn't that of the key [path: %s]", s.path(f))
			return
		}
		if !s.ob(v == tStr("") && (!byIndex || f.eval(tLt(o.Res[0], tInt(0))) == yes), "none", at, "something else is returned without a value: %s", v) {
			return
		}
		s.ob(s.exhausted(f, list), "all", at, "no value is returned though not every key was compared [path: %s]", s.path(f))
	})
	s.quiet()
}

// exhausted: a loop went through the whole list.
func (s *tmplSpec) exhausted(f *Facts, list *Term) bool {
	if f.eval(tEqC(tLen(list), 0)) == yes {
		return true
	}
	ok := false
	s.eachStep(func(g *Facts, b *BackEdge, at string) {
		for _, i := range indexes(g, list) {
			switch walk(i, list) {
			case "up":
				ok = ok || f.eval(tLt(i, tLen(list))) == no
			case "down":
				ok = ok || f.eval(tLt(i, tInt(0))) == yes
			}
		}
	})
	return ok
}

// put judges setting a value.
func (s *tmplSpec) put() {
	p := s.c.p
	at0 := s.c.at(s.rr.fn, s.rr.fn.Pos())
	key, val := s.rr.ps[1], s.rr.ps[2]
	ptr := s.rr.ps[0]
	var list *Term
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		f.find(func(t *Term) bool {
			if t.Op == "iaddr" && strip(t.A[0]).Op == "init" && strip(t.A[0]).A[0] == ptr {
				list = strip(t.A[0])
			}
			return false
		})
	})
	if !s.ob(list != nil, "search", at0, "the keys aren't compared") {
		return
	}
	keyOf := func(i *Term) *Term { return p.fld(mk("iaddr", "", nil, list, i), "key") }
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		ok := false
		for _, i := range indexes(f, list) {
			ok = ok || walk(i, list) != "" && f.eval(tEq(key, keyOf(i))) == no
		}
		s.ob(ok, "next", at, "the search goes on though the key may be the one [path: %s]", s.path(f))
	})
	s.eachOut(func(f *Facts, o *Outcome, at string) {
		if !s.ob(o.Kind == "return", "panics", at, "setting a value panics") {
			return
		}
		var replaced, added, other int
		for _, e := range p.writesIn(o.St.trace) {
			a, v := e.Target, strip(e.Args[0])
			if a == ptr {
				if v.Op == "append" && len(v.A) == 2 && strip(v.A[0]) == list && v.A[1].Op == "struct" && v.A[1].A[0] == key && v.A[1].A[1] == val && s.exhausted(f, list) {
					added++
				} else {
					other++
				}
				continue
			}
			if a.Op != "faddr" || a.A[0].Op != "iaddr" || strip(a.A[0].A[0]) != list || f.eval(tEq(key, keyOf(a.A[0].A[1]))) != yes {
				other++
				continue
			}
			switch {
			case a.Aux == "value" && v == val:
				replaced++
			case a.Aux == "key" && v == key:
			default:
				other++
			}
		}
		s.ob(other == 0 && replaced+added == 1, "set", at, "the key doesn't get the value, or something else changes [replaced %d, added %d, other %d]", replaced, added, other)
	})
}

func checkP43(c *Checker) {
	c.rule("similarity: two templates are the same if they have the same name and the same segments, and differ only in names or value names if nothing else differs; all segments are compared")
	c.rule("queries: static, wildcard, has a pattern, has a value name, value names, name: as the segments say")
	c.rule("values: the value returned or replaced is the one under the equal key; without one nothing is returned, and the pair is added")
	if s := c.tmplRun("similarity", "Template", "SimilarityWith", false); s != nil {
		s.similarity()
	}
	if s := c.tmplRun("queries", "Template", "IsStatic", false); s != nil {
		s.iff(s.isStatic(s.self))
	}
	if s := c.tmplRun("queries", "Template", "IsWildcard", false); s != nil {
		s.iff(s.isWild(s.self))
	}
	if s := c.tmplRun("queries", "Template", "HasPattern", false); s != nil {
		s.exists(func(i *Term) *Term {
			_, vp, _, re := s.seg(s.self, i)
			return tAnd(tNot(isNilT(vp)), tNot(isNilT(re)))
		})
	}
	if s := c.tmplRun("queries", "Template", "ValueNames", false); s != nil {
		s.valueNames()
	}
	if s := c.tmplRun("queries", "Template", "HasValueName", false); s != nil {
		s.hasValueName()
	}
	if s := c.tmplRun("queries", "Template", "Name", false); s != nil {
		s.eachOut(func(f *Facts, o *Outcome, at string) {
			s.ob(o.Kind == "return" && o.Res[0] == c.p.fld(s.self, "name"), "name", at, "the name isn't the template's")
		})
		s.quiet()
	}
	if s := c.tmplRun("queries", "Template", "SetName", false); s != nil {
		s.eachOut(func(f *Facts, o *Outcome, at string) {
			ws := c.p.writesIn(o.St.trace)
			s.ob(o.Kind == "return" && len(ws) == 1 && ws[0].Target == c.p.cell(s.self, "name") && ws[0].Args[0] == s.rr.ps[1], "name", at, "the template doesn't get the name and nothing else")
		})
	}
	if s := c.tmplRun("similarity", "Similarity", "Err", false); s != nil {
		errs := map[string]string{"Different": "ErrDifferentTemplates", "DifferentValueNames": "ErrDifferentValueNames", "DifferentNames": "ErrDifferentNames"}
		s.eachOut(func(f *Facts, o *Outcome, at string) {
			done := false
			for _, n := range []string{"Different", "DifferentValueNames", "DifferentNames", "TheSame"} {
				k, ok := c.constOf(n)
				if !ok || len(f.assume(tEqC(s.self, k), true)) == 0 {
					continue
				}
				done = true
				good := o.Kind == "return"
				if e := errs[n]; good && e != "" {
					good = isGlob(strip(o.Res[0]), e)
				} else if good {
					good = f.eval(isNilT(o.Res[0])) == yes
				}
				s.ob(good, n, at, "the error of %s is %v", n, o.Res)
			}
			s.ob(done || o.Kind == "panic", "undefined", at, "an undefined degree has an error")
		})
	}
	if s := c.tmplRun("values", "TemplateValues", "get", false); s != nil {
		s.lookup(true)
	}
	if s := c.tmplRun("values", "TemplateValues", "Get", false); s != nil {
		s.lookup(false)
	}
	if s := c.tmplRun("values", "TemplateValues", "Set", false); s != nil {
		s.put()
	}
}

func init() {
	register("P43", "Every abstract path and iteration of the comparison of templates, of the questions about templates and of the lists of values is compared with a specification.", checkP43)
}
