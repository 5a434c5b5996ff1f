package main

import (
	"go/constant"
	"go/types"
	"regexp/syntax"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// How URL templates are divided.

func indexByte(s *Term, b byte) *Term {
	return mk("call", "strings.IndexByte", intT, s, tInt(int64(b)))
}

type splitSpec struct {
	c *Checker
}

func (s *splitSpec) same(f *Facts, rule, what, at string, got, want *Term) {
	ok := got == want || sameStr(f, got, want)
	s.c.ob(ok, rule, what, at, "%s is %s, not %s [path: %s]", what, clip(got.String(), 150), clip(want.String(), 150), clip(f.String(), 300))
}

// scheme follows the three forms of a template.
func scheme(f *Facts, u *Term, k func(f *Facts, rest *Term, absolute, secure bool)) {
	fork(f, affix(true, u, tStr("https://")), func(f *Facts, https bool) {
		if https {
			k(f, tSlice(u, tInt(8), tNil()), true, true)
			return
		}
		fork(f, affix(true, u, tStr("http://")), func(f *Facts, http bool) {
			if http {
				k(f, tSlice(u, tInt(7), tNil()), true, false)
				return
			}
			k(f, u, false, false)
		})
	})
}

// returned calls k for the ways a function returns, with the error's fate.
func (s *splitSpec) each(rule, name string, rr *regRun, n int, k func(f *Facts, o *Outcome, failed bool, at string)) {
	c := s.c
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		if !c.ob(o.Kind == "return" && len(o.Res) == n, rule, name+": returns", at, "dividing a template panics") {
			continue
		}
		c.ob(len(c.p.writesIn(o.St.trace)) == 0, rule, name+": changes", at, "dividing a template changes something")
		outcomeOf(o, func(f *Facts, failed bool) { k(f, o, failed, at) })
	}
}

func (s *splitSpec) hostAndPath() {
	c := s.c
	rr := c.pureRun("-", "splitHostAndPath", nil, nil)
	if rr == nil {
		return
	}
	u := rr.ps[0]
	s.each("host and path", "splitHostAndPath", rr, 5, func(f *Facts, o *Outcome, failed bool, at string) {
		must := func(fails bool, why string) bool {
			return c.ob(failed == fails, "host and path", why, at, "for %s failing is %v [path: %s]", why, failed, clip(f.String(), 300)) && !failed
		}
		fork(f, tEqC(tLen(u), 0), func(f *Facts, empty bool) {
			if empty {
				must(true, "an empty template")
				return
			}
			scheme(f, u, func(f *Facts, rest *Term, absolute, secure bool) {
				path := func(f *Facts, host, path *Term) {
					fork(f, tEqC(tLen(host), 0), func(f *Facts, nohost bool) {
						if nohost {
							host = tStr("")
						}
						done := func(f *Facts, path *Term, tslash bool, what string) {
							if !must(false, what) {
								return
							}
							s.same(f, "host and path", "the host of "+what, at, o.Res[0], host)
							s.same(f, "host and path", "the path of "+what, at, o.Res[1], path)
							s.same(f, "host and path", "the security of "+what, at, o.Res[2], tBool(secure))
							s.same(f, "host and path", "the trailing slash of "+what, at, o.Res[3], tBool(tslash))
						}
						if absolute && path != tStr("") {
							// it starts with a slash
							fork(f, tEq(path, tStr("/")), func(f *Facts, slash bool) {
								switch {
								case !slash:
									for _, f := range f.assume(tLt(tInt(1), tLen(path)), true) {
										fork(f, lastIs(path, '/'), func(f *Facts, slash bool) {
											if slash {
												done(f, tSlice(path, tInt(0), tSub(tLen(path), tInt(1))), true, "a URL template with a trailing slash")
											} else {
												done(f, path, false, "a URL template without one")
											}
										})
									}
								case nohost:
									done(f, path, false, "the root")
								default:
									done(f, tStr(""), true, "a host with a slash")
								}
							})
							return
						}
						fork(f, tLt(tInt(1), tLen(path)), func(f *Facts, long bool) {
							if long {
								fork(f, lastIs(path, '/'), func(f *Facts, slash bool) {
									if slash {
										done(f, tSlice(path, tInt(0), tSub(tLen(path), tInt(1))), true, "a template with a trailing slash")
									} else {
										done(f, path, false, "a template without one")
									}
								})
								return
							}
							fork(f, tEqC(tLen(path), 0), func(f *Facts, none bool) {
								if none {
									// only after a scheme: a host alone
									done(f, path, false, "a host")
									return
								}
								done(f, path, false, "a single character")
							})
						})
					})
				}
				if !absolute {
					path(f, tStr(""), u)
					return
				}
				i := indexByte(rest, '/')
				fork(f, tLt(i, tInt(0)), func(f *Facts, none bool) {
					if !none {
						path(f, tSlice(rest, tInt(0), i), tSlice(rest, i, tNil()))
						return
					}
					fork(f, tEqC(tLen(rest), 0), func(f *Facts, empty bool) {
						if empty {
							must(true, "a scheme alone")
							return
						}
						path(f, rest, tStr(""))
					})
				})
			})
		})
	})
}

func (s *splitSpec) host() {
	c := s.c
	rr := c.pureRun("-", "getHost", nil, nil)
	if rr == nil {
		return
	}
	u := rr.ps[0]
	s.each("host", "getHost", rr, 4, func(f *Facts, o *Outcome, failed bool, at string) {
		must := func(fails bool, why string) bool {
			return c.ob(failed == fails, "host", why, at, "for %s failing is %v [path: %s]", why, failed, clip(f.String(), 300)) && !failed
		}
		fork(f, tEqC(tLen(u), 0), func(f *Facts, empty bool) {
			if empty {
				must(true, "an empty template")
				return
			}
			scheme(f, u, func(f *Facts, rest *Term, absolute, secure bool) {
				done := func(f *Facts, host *Term, tslash bool, what string) {
					if !must(false, what) {
						return
					}
					s.same(f, "host", "the host of "+what, at, o.Res[0], host)
					s.same(f, "host", "the security of "+what, at, o.Res[1], tBool(secure))
					s.same(f, "host", "the trailing slash of "+what, at, o.Res[2], tBool(tslash))
				}
				i := indexByte(rest, '/')
				fork(f, tLt(i, tInt(0)), func(f *Facts, none bool) {
					if none {
						done(f, rest, false, "a host")
						return
					}
					path := tSlice(rest, i, tNil())
					fork(f, tEq(path, tStr("/")), func(f *Facts, slash bool) {
						if slash {
							done(f, tSlice(rest, tInt(0), i), true, "a host with a slash")
						} else {
							must(true, "a host with a path")
						}
					})
				})
			})
		})
	})
}

// decoded: the text with its encoded slashes decoded.
func (s *splitSpec) decoded(f *Facts, got, want *Term) bool {
	if got == want || sameStr(f, got, want) {
		// nothing to decode
		return f.eval(tEqC(tLen(want), 0)) == yes
	}
	if got.Op == "call" && got.Aux == "(*regexp.Regexp).ReplaceAllLiteralString" && len(got.A) == 3 {
		return s.slashes(got.A[0]) && (got.A[1] == want || sameStr(f, got.A[1], want)) && got.A[2] == tStr("/")
	}
	return false
}

// slashes: the expression's matches are exactly the encoded slashes.
func (s *splitSpec) slashes(re *Term) bool {
	for re != nil && (re.Op == "init" || re.Op == "load") {
		re = re.A[0]
	}
	if re == nil || re.Op != "global" {
		return false
	}
	pat, n := "", 0
	for _, fn := range s.c.p.allFns() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.Name() != re.Aux {
					continue
				}
				n++
				call, ok := st.Val.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != "regexp.MustCompile" {
					return false
				}
				k, ok := call.Call.Args[0].(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					return false
				}
				pat = constant.StringVal(k.Value)
			}
		}
	}
	if n != 1 {
		return false
	}
	x, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false
	}
	ws, ok := words(x.Simplify(), 64)
	if !ok || len(ws) != 2 {
		return false
	}
	return ws["%2f"] && ws["%2F"]
}

// words lists the words of a finite language.
func words(x *syntax.Regexp, max int) (map[string]bool, bool) {
	one := func(s string) (map[string]bool, bool) { return map[string]bool{s: true}, true }
	switch x.Op {
	case syntax.OpEmptyMatch:
		return one("")
	case syntax.OpLiteral:
		r := map[string]bool{"": true}
		for _, c := range x.Rune {
			alts := []rune{c}
			if x.Flags&syntax.FoldCase != 0 {
				for d := unicode.SimpleFold(c); d != c; d = unicode.SimpleFold(d) {
					alts = append(alts, d)
				}
			}
			n := map[string]bool{}
			for p := range r {
				for _, a := range alts {
					n[p+string(a)] = true
				}
			}
			if r = n; len(r) > max {
				return nil, false
			}
		}
		return r, true
	case syntax.OpCharClass:
		r := map[string]bool{}
		for i := 0; i+1 < len(x.Rune); i += 2 {
			if x.Rune[i+1]-x.Rune[i] > rune(max) {
				return nil, false
			}
			for c := x.Rune[i]; c <= x.Rune[i+1]; c++ {
				r[string(c)] = true
			}
		}
		return r, len(r) <= max
	case syntax.OpCapture:
		return words(x.Sub[0], max)
	case syntax.OpQuest:
		r, ok := words(x.Sub[0], max)
		if ok {
			r[""] = true
		}
		return r, ok
	case syntax.OpAlternate:
		r := map[string]bool{}
		for _, s := range x.Sub {
			ws, ok := words(s, max)
			if !ok {
				return nil, false
			}
			for w := range ws {
				r[w] = true
			}
		}
		return r, len(r) <= max
	case syntax.OpConcat:
		r := map[string]bool{"": true}
		for _, s := range x.Sub {
			ws, ok := words(s, max)
			if !ok {
				return nil, false
			}
			n := map[string]bool{}
			for p := range r {
				for w := range ws {
					n[p+w] = true
				}
			}
			if r = n; len(r) > max {
				return nil, false
			}
		}
		return r, true
	}
	return nil, false
}

func (s *splitSpec) url() {
	c := s.c
	rr := c.pureRun("-", "splitURL", set("splitHostAndPath"), nil)
	if rr == nil {
		return
	}
	s.each("url", "splitURL", rr, 6, func(f *Facts, o *Outcome, failed bool, at string) {
		es := regs(o.St.trace, "splitHostAndPath")
		if !c.ob(len(es) == 1 && es[0].Args[0] == rr.ps[0], "url", "divided", at, "the template isn't divided into host and path first") {
			return
		}
		e := es[0]
		if failed {
			c.ob(f.eval(isNilT(e.res(4))) == no, "url", "error", at, "a valid template is rejected")
			return
		}
		c.ob(f.eval(isNilT(e.res(4))) == yes, "url", "error", at, "an invalid template isn't rejected")
		c.ob(o.Res[0] == e.res(0) && o.Res[3] == e.res(2) && o.Res[4] == e.res(3), "url", "host, security and trailing slash", at, "the host, the security and the trailing slash aren't those of the template")
		path := e.res(1)
		plain := func(f *Facts) {
			s.same(f, "url", "the prefix of a single segment", at, o.Res[1], tStr(""))
			s.same(f, "url", "a single segment", at, o.Res[2], path)
		}
		fork(f, tEqC(tLen(path), 0), func(f *Facts, none bool) {
			if none {
				plain(f)
				return
			}
			fork(f, tEq(path, tStr("/")), func(f *Facts, slash bool) {
				if slash {
					plain(f)
					return
				}
				i := mk("call", "strings.LastIndexByte", intT, path, tInt('/'))
				fork(f, tLt(i, tInt(0)), func(f *Facts, none bool) {
					prefix, last := tStr(""), path
					if !none {
						prefix, last = tSlice(path, tInt(0), i), tSlice(path, tAdd(i, tInt(1)), tNil())
					}
					s.same(f, "url", "the prefix", at, o.Res[1], prefix)
					c.ob(s.decoded(f, o.Res[2], last), "url", "last segment", at, "the last segment isn't what follows the last slash, with encoded slashes decoded [%s]", clip(o.Res[2].String(), 200))
				})
			})
		})
	})
}

// iterator judges the functions of the path segment iterator.
func (s *splitSpec) iterator() {
	c, p := s.c, s.c.p
	mkr := c.pureRun("-", "makePathSegmentIterator", nil, nil)
	next := c.pureRun("_PathSegmentIterator", "nextSegment", nil, nil)
	rest := c.pureRun("_PathSegmentIterator", "remainingPath", nil, nil)
	if mkr == nil || next == nil || rest == nil {
		return
	}
	// the part of the path that's left
	field := ""
	for i := range next.outs {
		for _, e := range next.outs[i].St.trace {
			if e.Kind == "store" && e.Target.Op == "faddr" && e.Target.A[0] == next.ps[0] {
				if field != "" && field != e.Target.Aux {
					c.ob(false, "segments", "one field", c.at(next.fn, next.fn.Pos()), "the iterator changes more than the path that's left")
				}
				field = e.Target.Aux
			}
		}
	}
	if !c.ob(field != "", "segments", "goes on", c.at(next.fn, next.fn.Pos()), "the iterator doesn't go on") {
		return
	}
	for i := range mkr.outs {
		o := &mkr.outs[i]
		at := c.at(o.In, o.Pos)
		if c.ob(o.Kind == "return" && len(o.Res) == 1, "segments", "make", at, "no iterator is made") {
			v := c.structField(o.St, o.Res[0], field)
			c.ob(v == mkr.ps[0], "segments", "starts", at, "the iterator doesn't start with the whole path")
		}
	}
	left := func(o *Outcome, self, was *Term) *Term {
		if v := memOf(o.St, self, field); v != nil {
			return v
		}
		return was
	}
	path := p.fld(next.ps[0], field)
	for i := range next.outs {
		o := &next.outs[i]
		at := c.at(o.In, o.Pos)
		if !c.ob(o.Kind == "return" && len(o.Res) == 1, "segments", "next: returns", at, "the iterator panics") {
			continue
		}
		f := o.St.facts
		fork(f, tEqC(tLen(path), 0), func(f *Facts, none bool) {
			if none {
				s.same(f, "segments", "the segment after the last one", at, o.Res[0], tStr(""))
				s.same(f, "segments", "the rest after the last one", at, left(o, next.ps[0], path), tStr(""))
				return
			}
			fork(f, firstIs(path, '/'), func(f *Facts, slash bool) {
				q := path
				if slash {
					q = tSlice(path, tInt(1), tNil())
				}
				i := indexByte(q, '/')
				fork(f, tLt(i, tInt(0)), func(f *Facts, last bool) {
					seg, rest := q, tStr("")
					if !last {
						seg, rest = tSlice(q, tInt(0), i), tSlice(q, i, tNil())
					}
					c.ob(s.decoded(f, o.Res[0], seg), "segments", "next", at, "the segment isn't what's up to the next slash, with encoded slashes decoded [%s]", clip(o.Res[0].String(), 200))
					s.same(f, "segments", "the rest", at, left(o, next.ps[0], path), rest)
				})
			})
		})
	}
	path = p.fld(rest.ps[0], field)
	for i := range rest.outs {
		o := &rest.outs[i]
		at := c.at(o.In, o.Pos)
		if !c.ob(o.Kind == "return" && len(o.Res) == 1, "segments", "remaining: returns", at, "the iterator panics") {
			continue
		}
		r := o.Res[0]
		fork(o.St.facts, tEqC(tLen(path), 0), func(f *Facts, none bool) {
			if none {
				s.same(f, "segments", "what remains at the end", at, r, tStr(""))
				return
			}
			fork(f, firstIs(path, '/'), func(f *Facts, slash bool) {
				if slash {
					s.same(f, "segments", "what remains after a slash", at, r, tSlice(path, tInt(1), tNil()))
				} else {
					s.same(f, "segments", "what remains", at, r, path)
				}
			})
		})
	}
}

func firstIs(x *Term, b byte) *Term { return tEqC(mk("at", "str", nil, x, tInt(0)), int64(b)) }

// structField is a field of a struct value.
func (c *Checker) structField(st *State, v *Term, field string) *Term {
	v = strip(v)
	switch v.Op {
	case "struct":
		if t, ok := derefType(v.T).Underlying().(*types.Struct); ok {
			for i := 0; i < t.NumFields() && i < len(v.A); i++ {
				if t.Field(i).Name() == field {
					return v.A[i]
				}
			}
		}
	case "init", "load":
		for a, x := range st.mem {
			if a.Op == "faddr" && a.Aux == field && a.A[0] == v.A[0] {
				return x
			}
		}
	}
	return nil
}

// pathSegments judges splitPathSegments.
func (s *splitSpec) pathSegments() {
	c := s.c
	rr := c.pureRun("-", "splitPathSegments", set("makePathSegmentIterator", "nextSegment", "remainingPath"), nil)
	if rr == nil {
		return
	}
	path := rr.ps[0]
	l := &lookSpec{c, rr, nil, path}
	lists := map[*Term]bool{}
	for i := range rr.ip.backedges {
		b := &rr.ip.backedges[i]
		for v, n := range b.Next {
			n = nonNil(n)
			if n.Op == "append" && n.A[0] == v {
				ok := len(n.A) == 2 && l.segment(b.St.trace, n.A[1]) && b.St.facts.eval(tEqC(tLen(n.A[1]), 0)) == no
				c.ob(ok && emptyList(b.Init[v]), "list", "added", c.at(b.Fn, b.Fn.Pos()), "what is added isn't the next segment")
				lists[v] = true
			} else if n != v && v.Op == "widen" && b.Init[v] != nil && emptyList(b.Init[v]) && !l.segment(b.St.trace, n) {
				c.ob(false, "list", "added", c.at(b.Fn, b.Fn.Pos()), "an iteration changes something else")
			}
		}
	}
	for v := range lists {
		for _, b := range rr.ip.stepsOf(v) {
			c.ob(nonNil(b.Next[v]).Op == "append", "list", "each", c.at(b.Fn, b.Fn.Pos()), "an iteration adds no segment")
		}
	}
	s.each("list", "splitPathSegments", rr, 4, func(f *Facts, o *Outcome, failed bool, at string) {
		tr := o.St.trace
		fork(f, tEqC(tLen(path), 0), func(f *Facts, none bool) {
			if none {
				c.ob(!failed && strip(o.Res[0]).isNil() && o.Res[1] == tBool(false), "list", "empty", at, "an empty path has segments")
				return
			}
			fork(f, tEq(path, tStr("/")), func(f *Facts, slash bool) {
				if slash {
					c.ob(!failed && o.Res[0].Op == "list" && len(o.Res[0].A) == 1 && o.Res[0].A[0] == tStr("/") && o.Res[1] == tBool(true), "list", "root", at, "the root's path isn't the root segment")
					return
				}
				left := no
				for _, e := range regs(tr, "remainingPath") {
					if l.iterates(tr, e.Args[0]) {
						left = f.eval(tNot(tEqC(tLen(e.Res), 0)))
					}
				}
				none := false
				for v := range lists {
					none = none || noneIn(f, v)
				}
				if failed {
					c.ob((none || left == yes) && l.lastEmpty(f, tr), "list", "rejected", at, "a valid path is rejected [path: %s]", clip(f.String(), 300))
					return
				}
				c.ob(lists[o.Res[0]] && l.lastEmpty(f, tr) && len(regs(tr, "remainingPath")) == 1 && left == no, "list", "all", at, "the result isn't all of the path's segments")
				c.ob(o.Res[1] == tBool(false), "list", "not the root", at, "a path is said to be the root's")
			})
		})
	})
}

// methods judges the division of a list of HTTP methods.
func (s *splitSpec) methods() {
	c := s.c
	rr := c.pureRun("-", "toUpperSplitByCommaSpace", nil, nil)
	if rr == nil {
		return
	}
	arg := rr.ps[0]
	isStart := func(t *Term) bool {
		t = strip(t)
		return t == arg || t.Op == "call" && t.Aux == "strings.TrimSpace" && t.A[0] == arg
	}
	var rest *Term
	lists := map[*Term]bool{}
	for i := range rr.ip.backedges {
		b := &rr.ip.backedges[i]
		for v, n := range b.Next {
			switch {
			case isStart(nonNil(b.Init[v])):
				rest = v
			case nonNil(n).Op == "append" && n.A[0] == v:
				lists[v] = true
			}
		}
	}
	if !c.ob(rest != nil && len(lists) == 1, "methods", "loop", c.at(rr.fn, rr.fn.Pos()), "there isn't one loop over the string") {
		return
	}
	var list *Term
	for v := range lists {
		list = v
	}
	up := func(t *Term) *Term { return mk("call", "strings.ToUpper", strT, t) }
	index := func(f *Facts) *Term {
		return f.find(func(t *Term) bool {
			return t.Op == "call" && t.Aux == "strings.IndexAny" && t.A[0] == rest && (t.A[1] == tStr(", ") || t.A[1] == tStr(" ,"))
		})
	}
	isUp := func(f *Facts, t, s *Term) bool {
		return t == up(s) || t.Op == "call" && t.Aux == "strings.ToUpper" && sameStr(f, t.A[0], s)
	}
	for _, b := range rr.ip.stepsOf(rest) {
		at := c.at(b.Fn, b.Fn.Pos())
		f := b.St.facts
		c.ob(emptyList(b.Init[list]), "methods", "start", at, "the list isn't empty at the start")
		i := index(f)
		n, l := b.Next[rest], b.Next[list]
		if !c.ob(i != nil && n != nil && l != nil, "methods", "separator", at, "an iteration doesn't look for a comma or a space") {
			continue
		}
		added := func(w *Term) bool { return l.Op == "append" && len(l.A) == 2 && l.A[0] == list && isUp(f, l.A[1], w) }
		fork(f, tLt(i, tInt(0)), func(f *Facts, none bool) {
			if none {
				c.ob(added(rest) && f.eval(tEqC(tLen(n), 0)) == yes, "methods", "last word", at, "the last word isn't added")
				return
			}
			fork(f, tEqC(i, 0), func(f *Facts, sep bool) {
				if sep {
					c.ob(l == list && (sameStr(f, n, tSlice(rest, tInt(1), tNil())) || sameStr(f, n, tSlice(rest, tAdd(i, tInt(1)), tNil()))), "methods", "separator skipped", at, "a separator isn't skipped")
					return
				}
				w := tSlice(rest, tInt(0), i)
				c.ob(added(w), "methods", "word", at, "a word isn't added in upper case")
				c.ob(sameStr(f, n, tSlice(rest, tAdd(i, tInt(1)), tNil())) || sameStr(f, n, tSlice(rest, i, tNil())), "methods", "after the word", at, "the loop doesn't go on after the word")
			})
		})
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		if !c.ob(o.Kind == "return" && len(o.Res) == 1, "methods", "returns", at, "the function panics") {
			continue
		}
		f, r := o.St.facts, o.Res[0]
		switch {
		case r == list:
			c.ob(f.eval(tEqC(tLen(rest), 0)) == yes, "methods", "all words", at, "the loop ends before the last word")
		case r.Op == "append" && len(r.A) == 2 && r.A[0] == list:
			i := index(f)
			c.ob(i != nil && f.eval(tLt(i, tInt(0))) == yes && isUp(f, r.A[1], rest), "methods", "all words", at, "the loop ends before the last word")
		case emptyList(r):
			none := f.eval(tEqC(tLen(arg), 0)) == yes || f.find(func(t *Term) bool { return isStart(t) && f.eval(tEqC(tLen(t), 0)) == yes }) != nil
			c.ob(none, "methods", "no words", at, "there are no words")
		default:
			c.ob(false, "methods", "result", at, "the result isn't the list of words")
		}
	}
}

func checkP42(c *Checker) {
	c.rule("host and path: a template is absolute only with http:// or https://, which is secure; its host ends at the first slash; the path is the rest, without its trailing slash")
	c.rule("host: the same for a template that has nothing after the host but a slash")
	c.rule("url: the last segment is what follows the path's last slash, its encoded slashes decoded; the prefix is what precedes it")
	c.rule("segments: each segment of a path in order, its encoded slashes decoded")
	c.rule("list: all segments of the path; an empty segment before another is an error")
	c.rule("methods: each word of the list that commas or spaces separate, in upper case, in order")
	s := &splitSpec{c}
	s.hostAndPath()
	s.host()
	s.url()
	s.iterator()
	s.pathSegments()
	s.methods()
	c.min("host and path", 40)
	c.min("host", 15)
	c.min("url", 10)
	c.min("segments", 12)
	c.min("list", 6)
	c.min("methods", 6)
}

func init() {
	register("P42", "Every abstract path of the functions that divide URL templates, paths and lists of methods is analysed; their results are compared, as parts of the given string, with the parts that the documentation names.", checkP42)
}
