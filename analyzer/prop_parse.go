package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Making templates: value patterns, segments, names.

const perlFlags = 212 // syntax.Perl

// wraps: the error is the named one, or it wraps it.
func (s *tmplSpec) wraps(e *Term, name string) bool {
	e = strip(e)
	if isGlob(e, name) {
		return true
	}
	if e == nil || e.Op != "newerr" || len(e.A) < 2 {
		return false
	}
	format, ok := e.A[0].strVal()
	if !ok {
		return false
	}
	// the argument of %w
	verbs := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) || format[i] == '%' {
			continue
		}
		verbs++
		if format[i] == 'w' && verbs < len(e.A) && isGlob(strip(e.A[verbs]), name) {
			return true
		}
	}
	return false
}

// passed: the error is e, maybe wrapped.
func (s *tmplSpec) passed(got, e *Term) bool {
	got = strip(got)
	if got == nil || e == nil {
		return false
	}
	if got == e {
		return true
	}
	if got.Op == "newerr" {
		for _, a := range got.A[1:] {
			if strip(a) == e {
				return true
			}
		}
	}
	return false
}

func parsed(x *Term, i int) *Term {
	return extOf(mk("call", "regexp/syntax.Parse", nil, x, tInt(perlFlags)), i)
}

func extOf(call *Term, i int) *Term { return mk("ext", itoa(i), nil, call) }

// compiled are the results of compiling an expression with the given text, as
// the facts or the objects know it.
func compiled(t *Term) (text *Term, i string, ok bool) {
	t = strip(t)
	if t == nil || t.Op != "ext" || len(t.A) != 1 || t.A[0].Op != "call" || t.A[0].Aux != "regexp.Compile" {
		return nil, "", false
	}
	return t.A[0].A[0], t.Aux, true
}

// plain: anchors bind to the whole pattern without a group, or the pattern is
// invalid.
func (s *tmplSpec) plain(f *Facts, pat *Term) bool {
	bare, grouped := s.cat("^", pat, "$"), s.cat("^(?:", pat, ")$")
	is := func(t, text *Term, i string) bool {
		return t.Op == "ext" && t.Aux == i && t.A[0].Op == "call" && t.A[0].Aux == "regexp/syntax.Parse" &&
			t.A[0].A[0] == text && t.A[0].A[1] == tInt(perlFlags)
	}
	return f.find(func(t *Term) bool {
		if (is(t, bare, "1") || is(t, grouped, "1")) && f.eval(isNilT(t)) == no {
			return true
		}
		return t.Op == "call" && t.Aux == "(*regexp/syntax.Regexp).Equal" && f.eval(t) == yes &&
			(is(t.A[0], bare, "0") && is(t.A[1], grouped, "0") || is(t.A[1], bare, "0") && is(t.A[0], grouped, "0"))
	}) != nil
}

func (s *tmplSpec) cat(a string, t *Term, b string) *Term {
	return tConcat(tConcat(tStr(a), t), tStr(b))
}

// anchored is the text of the expression that the pattern is compiled from.
func (s *tmplSpec) anchored(f *Facts, pat *Term, atEnd bool) *Term {
	a, b := "^", ""
	if atEnd {
		a, b = "", "$"
	}
	if s.plain(f, pat) {
		return s.cat(a, pat, b)
	}
	return s.cat(a+"(?:", pat, ")"+b)
}

// addDynamic judges appendDynamicSegmentTo.
func (s *tmplSpec) addDynamic() {
	p := s.c.p
	_, name, pat, vps, wild := s.rr.ps[0], s.rr.ps[1], s.rr.ps[2], s.rr.ps[3], s.rr.ps[4]
	// the list as the loops know it
	lists := map[*Term]bool{vps: true}
	for i := range s.rr.ip.backedges {
		for w, v := range s.rr.ip.backedges[i].Init {
			if isWiden(w) && v == vps {
				lists[w] = true
			}
		}
	}
	isEl := func(t, i *Term) bool {
		t = strip(t)
		return t != nil && (t.Op == "init" || isWiden(t)) && t.A[0].Op == "iaddr" && lists[strip(t.A[0].A[0])] && t.A[0].A[1] == i
	}
	elFld := func(f *Facts, i *Term, field string) *Term {
		var r *Term
		f.find(func(t *Term) bool {
			if t.Op == "init" && t.A[0].Op == "faddr" && t.A[0].Aux == field && isEl(t.A[0].A[0], i) {
				r = t
			}
			return r != nil
		})
		if r == nil {
			r = p.fld(mk("init", "", nil, mk("iaddr", "", nil, vps, i)), field)
		}
		return r
	}
	isFld := func(t, i *Term, field string) bool {
		t = strip(t)
		return t != nil && t.Op == "init" && t.A[0].Op == "faddr" && t.A[0].Aux == field && isEl(t.A[0].A[0], i)
	}
	elemIdx := func(f *Facts) (r []*Term) {
		for l := range lists {
			for _, i := range indexes(f, l) {
				seen := false
				for _, j := range r {
					seen = seen || i == j
				}
				if !seen {
					r = append(r, i)
				}
			}
		}
		return r
	}
	walks := func(i *Term) bool {
		for l := range lists {
			if walk(i, l) != "" {
				return true
			}
		}
		return false
	}
	over := func(f *Facts, i *Term) bool {
		for l := range lists {
			if over(f, i, l) {
				return true
			}
		}
		return false
	}
	within := func(f *Facts, i *Term) bool {
		for l := range lists {
			if f.eval(tLt(i, tLen(l))) == yes || f.eval(tLt(i, tInt(0))) == no && walk(i, l) == "down" {
				return true
			}
		}
		return false
	}
	str := func(re *Term) *Term { return mk("call", "(*regexp.Regexp).String", nil, re) }
	at0 := s.c.at(s.rr.fn, s.rr.fn.Pos())

	// the searches by name and the loop that anchors the patterns again
	searches := map[string]*Term{}
	var again *Term
	reanchored := func(f *Facts) (i, re *Term) {
		f.find(func(t *Term) bool {
			text, n, ok := compiled(t)
			if !ok || n != "1" || text.Op != "concat" || len(text.A) != 2 || text.A[1] != tStr("$") {
				return false
			}
			sl := text.A[0]
			if sl.Op != "slice" || sl.A[1] != tInt(1) || !(sl.A[2].isNil() || sl.A[2] == tLen(sl.A[0])) {
				return false
			}
			if sl.A[0].Op != "call" || sl.A[0].Aux != "(*regexp.Regexp).String" {
				return false
			}
			for _, j := range elemIdx(f) {
				if sl.A[0].A[0] == elFld(f, j, "re") {
					i, re = j, t
					return true
				}
			}
			return false
		})
		return
	}
	key := func(i *Term) string {
		l, _ := linear(i)
		for k := range l {
			if k.Op == "ind" {
				return strings.SplitN(k.Aux, "|", 2)[0]
			}
		}
		return ""
	}
	inner := map[string]bool{} // loops within the one that anchors again
	n := 0
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		for _, i := range elemIdx(f) {
			if walks(i) && f.eval(tEq(name, elFld(f, i, "name"))) == no && carries(b, i) {
				searches[key(i)] = i
				return
			}
		}
		if i, _ := reanchored(f); i != nil && walks(i) {
			if carries(b, i) {
				if again == nil {
					again = i
				}
				return
			}
			// a search among the patterns, replaced or not yet
			ok := false
			f.find(func(t *Term) bool {
				if t.Op == "init" && t.A[0].Op == "faddr" && t.A[0].Aux == "name" && t != elFld(f, i, "name") {
					ok = ok || f.eval(tEq(t, elFld(f, i, "name"))) == no
				}
				return false
			})
			if s.ob(ok, "search", at, "the search for a name goes on though it may be the one [path: %s]", s.path(f)) {
				for w := range b.Next {
					inner[key(w)] = true
				}
			}
			return
		}
		s.ob(false, "loop", at, "an iteration that isn't about the next name or pattern [path: %s]", s.path(f))
	})
	searched := func(f *Facts) string {
		if f.eval(tEqC(tLen(vps), 0)) == yes {
			return "all"
		}
		for k, i := range searches {
			if over(f, i) {
				return k
			}
		}
		return ""
	}
	// impossible: a name that isn't among the names is among them
	impossible := func(f *Facts) bool {
		if searched(f) == "" {
			return false
		}
		for _, i := range elemIdx(f) {
			if f.eval(tEq(name, elFld(f, i, "name"))) == yes && within(f, i) {
				return true
			}
		}
		return false
	}
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		i, e := reanchored(f)
		if i == nil || !carries(b, i) {
			return
		}
		n++
		s.ob(searched(f) != "" && f.eval(tLt(wild, tInt(0))) == yes && f.eval(tEqC(tLen(pat), 0)) == yes, "again: when", at, "patterns are anchored again though the segment isn't the template's first wildcard [path: %s]", s.path(f))
		s.ob(f.eval(isNilT(e)) == yes, "again: error", at, "the error of a pattern is ignored [path: %s]", s.path(f))
		// the inner search ended without finding the name: impossible
		missing := false
		f.find(func(t *Term) bool {
			if t.Op == "ind" && inner[key(t)] && f.find(func(x *Term) bool {
				return x.Op == "init" && mentions(x, t) && f.eval(tEq(x, elFld(f, i, "name"))) == yes
			}) == nil {
				missing = true
			}
			return missing
		})
		done := 0
		for _, w := range b.St.trace {
			if w.Kind != "store" || w.Target.Op != "iaddr" {
				continue
			}
			list := strip(w.Target.A[0])
			v := strip(w.Args[0])
			text, _, ok := compiled(memOf(b.St, v, "re"))
			et, _, _ := compiled(e)
			right := ok && text == et && v.Op == "alloc" && isFld(memOf(b.St, v, "name"), i, "name")
			j := w.Target.A[1]
			place := lists[list] && j == i
			if !place {
				place = f.find(func(t *Term) bool {
					return t.Op == "init" && t.A[0].Op == "faddr" && t.A[0].Aux == "name" && isElemW(t.A[0].A[0], list, j) && f.eval(tEq(t, elFld(f, i, "name"))) == yes
				}) != nil
			}
			if lists[list] {
				if s.ob(right && place, "again: pattern", at, "a value's pattern isn't replaced with a new one that is anchored at the end: %s [path: %s]", clip(fmt.Sprint(w.Target, " = ", v), 300), s.path(f)) {
					done++
				}
			}
		}
		s.ob(done == 1 || missing, "again: pattern", at, "a value's pattern isn't anchored at the end after a wildcard [path: %s]", s.path(f))
	})
	s.ob(n > 0 && len(searches) > 0, "loops", at0, "the names aren't searched or the patterns aren't anchored again")

	s.eachOut(func(f *Facts, o *Outcome, at string) {
		if !s.ob(o.Kind == "return", "panics", at, "a segment's appending panics") {
			return
		}
		if impossible(f) {
			return
		}
		var old *Term
		if searched(f) == "" {
			for _, i := range elemIdx(f) {
				if f.eval(tEq(name, elFld(f, i, "name"))) == yes && f.eval(tLt(i, tLen(vps))) != no && f.eval(tLt(i, tInt(0))) != yes {
					old = i
				}
			}
			if !s.ob(old != nil, "search", at, "it isn't known if the value name has a pattern [path: %s]", s.path(f)) {
				return
			}
		}
		fork(f, isNilT(o.Res[3]), func(f *Facts, ok bool) {
			fork(f, tEqC(tLen(pat), 0), func(f *Facts, bare bool) {
				fork(f, tLt(wild, tInt(0)), func(f *Facts, noWild bool) {
					s.dynamicResult(f, o, at, ok, bare, noWild, old, lists, again != nil && over(f, again), func(i *Term) *Term { return str(elFld(f, i, "re")) })
				})
			})
		})
	})
	// nothing else is changed
	for i := range s.rr.outs {
		o := &s.rr.outs[i]
		for _, w := range p.writesIn(o.St.trace) {
			t := w.Target
			l := t
			if t.Op == "iaddr" {
				l = strip(t.A[0])
			}
			s.ob(t.Op == "iaddr" && (l == vps || isWiden(l)) || t.Op == "alloc" || rootOf(t).Op == "alloc", "changes", s.c.at(o.In, o.Pos), "something else than the list of patterns is changed: %s", clip(t.String(), 200))
		}
	}
}

// dynamicResult judges a result of appendDynamicSegmentTo.
func (s *tmplSpec) dynamicResult(f *Facts, o *Outcome, at string, ok, bare, noWild bool, old *Term, lists map[*Term]bool, all bool, str func(i *Term) *Term) {
	tss, name, pat, vps, wild := s.rr.ps[0], s.rr.ps[1], s.rr.ps[2], s.rr.ps[3], s.rr.ps[4]
	appends := func(t *Term) *Term {
		t = strip(t)
		if t.Op == "append" && len(t.A) == 2 && strip(t.A[0]) == tss && t.A[1].Op == "struct" && len(t.A[1].A) == 2 {
			if st := strip(t.A[1].A[0]); st == tStr("") || st.Op == "zero" || st.Op == "nil" {
				return strip(t.A[1].A[1])
			}
		}
		return nil
	}
	kept := func(t *Term) bool { return strip(t) == vps }
	err := o.Res[3]
	if old != nil {
		same := yes
		if !bare {
			same = f.eval(tEq(s.anchored(f, pat, !noWild), str(old)))
			if same == unk {
				// the expressions are what's compared
				same = f.eval(tEq(str(old), s.anchored(f, pat, !noWild)))
			}
			if !s.ob(same != unk, "repeated", at, "a repeated value's pattern isn't compared with the first one's [path: %s]", s.path(f)) {
				return
			}
		}
		if !ok {
			s.ob(same == no && s.wraps(err, "ErrDifferentPattern"), "repeated: error", at, "a repeated value name fails with %s [path: %s]", clip(err.String(), 200), s.path(f))
			return
		}
		vp := appends(o.Res[0])
		s.ob(same == yes, "repeated: pattern", at, "a value name is repeated with a different pattern [path: %s]", s.path(f))
		s.ob(vp != nil && isElem(vp, vps, old), "repeated: shared", at, "a repeated value name doesn't share its pattern: %s [path: %s]", clip(o.Res[0].String(), 300), s.path(f))
		s.ob(kept(o.Res[1]) && strip(o.Res[2]) == wild, "repeated: rest", at, "a repeated value name changes the patterns or the wildcard")
		return
	}
	fresh := func(vp *Term, re func(re *Term) bool) bool {
		if vp == nil || vp.Op != "alloc" || memOf(o.St, vp, "name") != name {
			return false
		}
		return re(memOf(o.St, vp, "re"))
	}
	if bare {
		if !noWild {
			wn := s.c.p.fld(s.c.p.fld(mk("iaddr", "", nil, tss, wild), "valuePattern"), "name")
			fork(f, tEq(name, wn), func(f *Facts, same bool) {
				e := "ErrAnotherWildcardName"
				if same {
					e = "ErrRepeatedWildcardName"
				}
				s.ob(!ok && s.wraps(err, e), "second wildcard", at, "a template with two wildcards is allowed, or the error isn't %s: %s [path: %s]", e, clip(err.String(), 200), s.path(f))
			})
			return
		}
		if !ok {
			_, n, isC := compiled(err)
			s.ob(isC && n == "1", "wildcard: error", at, "a first wildcard fails with %s [path: %s]", clip(err.String(), 200), s.path(f))
			return
		}
		s.ob(fresh(appends(o.Res[0]), func(re *Term) bool { return re == nil || re.isNil() || re.Op == "zero" }), "wildcard", at, "a wildcard segment isn't appended: %s", clip(o.Res[0].String(), 300))
		s.ob(strip(o.Res[2]) == tLen(tss), "wildcard: index", at, "the wildcard's index isn't that of the new segment: %s", o.Res[2])
		l := strip(o.Res[1])
		keeps := lists[l]
		s.ob(keeps, "wildcard: patterns", at, "the patterns are lost after a wildcard: %s", clip(l.String(), 200))
		s.ob(f.eval(tEqC(tLen(vps), 0)) == yes || all, "wildcard: all patterns", at, "not every pattern is anchored again after a wildcard [path: %s]", s.path(f))
		return
	}
	text := s.anchored(f, pat, !noWild)
	if !ok {
		t, n, isC := compiled(err)
		if !isC && strip(err).Op == "newerr" {
			for _, a := range strip(err).A[1:] {
				if t, n, isC = compiled(a); isC {
					break
				}
			}
		}
		s.ob(isC && n == "1" && t == text, "pattern: error", at, "a valid pattern is refused with %s [path: %s]", clip(err.String(), 200), s.path(f))
		return
	}
	vp := appends(o.Res[0])
	got := ""
	good := fresh(vp, func(re *Term) bool {
		t, n, isC := compiled(re)
		got = clip(fmt.Sprint(t), 200)
		return isC && n == "0" && t == text && s.noError(f, strip(re).A[0])
	})
	s.ob(good, "pattern", at, "the segment's pattern isn't anchored to where it's going to be matched: %s and not %s [path: %s]", got, text, s.path(f))
	l := strip(o.Res[1])
	s.ob(l.Op == "append" && len(l.A) == 2 && strip(l.A[0]) == vps && strip(l.A[1]) == vp, "pattern: kept", at, "the pattern isn't kept for when its value name is repeated: %s [path: %s]", clip(l.String(), 200), s.path(f))
	s.ob(strip(o.Res[2]) == wild, "pattern: wildcard", at, "a segment with a pattern changes the wildcard's index")
}

// noError: the call is known to have returned no error.
func (s *tmplSpec) noError(f *Facts, call *Term) bool {
	return f.find(func(t *Term) bool {
		return t.Op == "ext" && t.Aux == "1" && t.A[0] == call && f.eval(isNilT(t)) == yes
	}) != nil
}

// isElem: the pointer that the list holds at the index.
func isElem(t, list, i *Term) bool {
	t = strip(t)
	return t != nil && t.Op == "init" && t.A[0].Op == "iaddr" && strip(t.A[0].A[0]) == list && t.A[0].A[1] == i
}

// isElemW: as above, for lists that loops change.
func isElemW(t, list, i *Term) bool {
	for t != nil && (t.Op == "init" || isWiden(t)) {
		t = t.A[0]
	}
	return t != nil && t.Op == "iaddr" && strip(t.A[0]) == list && t.A[1] == i
}

// carries: the iteration moves the index.
func carries(b *BackEdge, i *Term) bool {
	for w := range b.Next {
		if mentions(i, w) {
			return true
		}
		if w.Op == "ind" && i.Op == "ind" && sameLoop(i, strings.SplitN(w.Aux, "|", 2)[0]) {
			return true
		}
	}
	m, _ := linear(i)
	for k := range m {
		if k.Op == "ind" && sameLoop(k, b.Loop) {
			return true
		}
	}
	return false
}

// over: the walk has gone past the list.
func over(f *Facts, i, list *Term) bool {
	switch walk(i, list) {
	case "up":
		return f.eval(tLt(i, tLen(list))) == no
	case "down":
		return f.eval(tLt(i, tInt(0))) == yes
	}
	return false
}

// parseRun analyses a function that makes templates; the calls of the named
// functions are events. What they change was made by them.
func (c *Checker) parseRun(rule, name string, opq map[string]bool) *tmplSpec {
	fn := c.p.actual("-", name)
	if fn == nil {
		c.undecided(name, "the function was not found")
		return nil
	}
	ip := c.p.newInterp()
	ip.Model = func(ip *Interp, st *State, in *ssa.Function, name string, fn *ssa.Function, args []*Term, site string) ([]callRes, bool) {
		typ, base := c.p.bareName(name, fn)
		if n, ok := c.p.canonNames()[base]; ok {
			base = n
		}
		if fn == nil || typ != "" || !opq[base] {
			return nil, false
		}
		ev := &Event{Kind: "reg", Name: base, Args: args, In: in, Mem: copyMem(st.mem), NFacts: st.facts.clone(), Callee: fn}
		ev.Res = multi("reg:"+base, site, fn.Signature, args)
		st.trace = append(st.trace, ev)
		return []callRes{{st: st, res: ev.Res}}, true
	}
	ps := params(fn)
	outs := c.run(ip, newState(), fn, ps)
	if outs == nil {
		return nil
	}
	return &tmplSpec{c, &regRun{ip, outs, ps, fn}, ps[0], rule, name}
}

// parseState is what parsing has come to.
type parseState struct {
	rest, tss, vps, wild *Term
	errs                 []*Term // the errors that the steps may have had
	failed               bool    // the last step failed
	last                 *Term   // the appended static text, if any
}

// parsing follows the steps of an iteration; the facts are refined.
func (s *tmplSpec) parsing(f *Facts, tr []*Event, at string, st parseState, k func(f *Facts, st parseState)) {
	var next func(f *Facts, es []*Event, st parseState, want string)
	next = func(f *Facts, es []*Event, st parseState, want string) {
		if len(es) == 0 {
			if want == "dynamicSegment" && !st.failed && f.eval(tEqC(tLen(st.rest), 0)) != yes || want == "appendDynamicSegmentTo" && !st.failed {
				s.ob(false, "steps", at, "a segment's parsing is left unfinished [path: %s]", s.path(f))
				return
			}
			k(f, st)
			return
		}
		e := es[0]
		if !s.ob(!st.failed, "errors", at, "parsing goes on after an error") {
			return
		}
		if !s.ob(e.Name == want, "steps", at, "%s is called and not %s", e.Name, want) {
			return
		}
		switch e.Name {
		case "staticSegment":
			if !s.ob(s.same(f, e.Args[0], st.rest), "rest", at, "%s is parsed and not the rest of the template", clip(e.Args[0].String(), 200)) {
				return
			}
			s.ob(f.eval(tEqC(tLen(st.rest), 0)) != yes, "end", at, "parsing goes on after the end")
			fork(f, isNilT(e.res(2)), func(f *Facts, ok bool) {
				st := st
				st.errs = append(append([]*Term(nil), st.errs...), e.res(2))
				if !ok {
					st.failed = true
					next(f, es[1:], st, "")
					return
				}
				fork(f, tEqC(tLen(e.res(0)), 0), func(f *Facts, none bool) {
					st := st
					st.rest = e.res(1)
					st.last = nil
					if !none {
						st.last = e.res(0)
					}
					next(f, es[1:], st, "dynamicSegment")
				})
			})
		case "dynamicSegment":
			s.ob(s.same(f, e.Args[0], st.rest), "rest", at, "%s is parsed and not the rest of the template", clip(e.Args[0].String(), 200))
			s.ob(f.eval(tEqC(tLen(st.rest), 0)) == no, "end", at, "parsing goes on after the end")
			fork(f, isNilT(e.res(3)), func(f *Facts, ok bool) {
				st := st
				st.errs = append(append([]*Term(nil), st.errs...), e.res(3))
				if !ok {
					st.failed = true
					next(f, es[1:], st, "")
					return
				}
				st.rest = e.res(2)
				next(f, es[1:], st, "appendDynamicSegmentTo")
			})
		case "appendDynamicSegmentTo":
			d := e.Args
			s.ob(s.isList(f, d[0], st), "segments", at, "the dynamic segment isn't appended to the segments so far: %s [path: %s]", clip(d[0].String(), 200), s.path(f))
			last := s.before(tr, e)
			s.ob(last != nil && s.same(f, d[1], last.res(0)) && s.same(f, d[2], last.res(1)), "segment", at, "the dynamic segment isn't the parsed one")
			s.ob(strip(d[3]) == strip(st.vps), "patterns", at, "the patterns so far aren't used: %s", clip(d[3].String(), 200))
			s.ob(strip(d[4]) == strip(st.wild), "wildcard", at, "the wildcard's index so far isn't used: %s", d[4])
			fork(f, isNilT(e.res(3)), func(f *Facts, ok bool) {
				st := st
				st.errs = append(append([]*Term(nil), st.errs...), e.res(3))
				if !ok {
					st.failed = true
				} else {
					st.tss, st.vps, st.wild, st.last = e.res(0), e.res(1), e.res(2), nil
				}
				next(f, es[1:], st, "staticSegment")
			})
		}
	}
	next(f, regs(tr), st, "staticSegment")
}

func (s *tmplSpec) before(tr []*Event, e *Event) (r *Event) {
	for _, x := range regs(tr) {
		if x == e {
			return r
		}
		r = x
	}
	return nil
}

// isList: the segments so far.
func (s *tmplSpec) isList(f *Facts, t *Term, st parseState) bool {
	t = strip(t)
	if st.last == nil {
		return t == strip(st.tss)
	}
	isSeg := func(t *Term) bool {
		return t.Op == "struct" && len(t.A) == 2 && strip(t.A[0]) == strip(st.last) && (t.A[1].isNil() || t.A[1].Op == "zero")
	}
	return t.Op == "append" && len(t.A) == 2 && strip(t.A[0]) == strip(st.tss) && isSeg(t.A[1])
}

// parse judges parse.
func (s *tmplSpec) parse() {
	p := s.c.p
	at0 := s.c.at(s.rr.fn, s.rr.fn.Pos())
	str := s.rr.ps[0]
	// what the loop carries along
	var rest, tss, vps, wild *Term
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		for _, e := range regs(b.St.trace) {
			if e.Name == "staticSegment" {
				rest = strip(e.Args[0])
			}
			if e.Name == "appendDynamicSegmentTo" {
				vps, wild = strip(e.Args[3]), strip(e.Args[4])
				if n := strip(e.Args[0]); n.Op == "append" {
					tss = strip(n.A[0])
				} else {
					tss = n
				}
			}
		}
	})
	if !s.ob(rest != nil && tss != nil && isWiden(rest) && isWiden(tss) && isWiden(vps) && isWiden(wild), "loop", at0, "the template isn't parsed segment by segment") {
		return
	}
	head := parseState{rest: rest, tss: tss, vps: vps, wild: wild}
	empty := func(t *Term) bool { return emptyList(t) || t.Op == "mkslice" && t.A[0] == tInt(0) }
	s.eachStep(func(f *Facts, b *BackEdge, at string) {
		if _, ok := b.Next[rest]; !ok {
			s.ob(false, "loop", at, "another loop")
			return
		}
		s.ob(b.Init[rest] == str && empty(strip(b.Init[tss])) && empty(strip(b.Init[vps])) && b.Init[wild] == tInt(-1), "begins", at, "parsing doesn't begin with the whole template and no segments")
		s.parsing(f, b.St.trace, at, head, func(f *Facts, st parseState) {
			s.ob(!st.failed, "errors", at, "an error is ignored [path: %s]", s.path(f))
			s.ob(b.Next[rest] == st.rest && s.isList(f, b.Next[tss], st) && b.Next[vps] == st.vps && b.Next[wild] == st.wild, "goes on", at, "parsing doesn't go on with what a segment left [path: %s]", s.path(f))
		})
	})
	s.eachOut(func(f *Facts, o *Outcome, at string) {
		if !s.ob(o.Kind == "return", "panics", at, "parsing panics") {
			return
		}
		err := o.Res[2]
		if f.eval(tEqC(tLen(str), 0)) == yes {
			s.ob(s.wraps(err, "ErrInvalidTemplate"), "empty", at, "an empty template isn't refused")
			return
		}
		s.parsing(f, o.St.trace, at, head, func(f *Facts, st parseState) {
			if st.failed {
				s.ob(s.passed(err, st.errs[len(st.errs)-1]), "errors", at, "an error is ignored: %s [path: %s]", clip(err.String(), 200), s.path(f))
				return
			}
			s.ob(f.eval(tEqC(tLen(st.rest), 0)) == yes, "end", at, "the end of the template isn't parsed [path: %s]", s.path(f))
			s.lastSegment(f, o, at, st)
		})
	})
	for i := range s.rr.outs {
		o := &s.rr.outs[i]
		for _, w := range p.writesIn(o.St.trace) {
			s.ob(rootOf(w.Target).Op == "alloc" || rootOf(w.Target) == strip(o.Res[0]), "changes", s.c.at(o.In, o.Pos), "something else than the new segments is changed: %s", clip(w.Target.String(), 200))
		}
	}
}

// lastSegment: the pattern at the end of the template matches to the end.
func (s *tmplSpec) lastSegment(f *Facts, o *Outcome, at string, st parseState) {
	p := s.c.p
	r := strip(o.Res[0])
	err := o.Res[2]
	var list *Term // the parsed segments
	var lists []*Term
	isCopy := func(x *Term) bool {
		if s.isList(f, x, st) {
			list = x
			return true
		}
		for _, e := range o.St.trace {
			if e.Kind == "copy" && strip(e.Args[0]) == x && s.isList(f, e.Args[1], st) && x.Op == "mkslice" {
				list = strip(e.Args[1])
				return x.A[0] == tLen(list) || f.eval(tEq(x.A[0], tLen(list))) == yes
			}
		}
		if x.Op == "appendall" && (emptyList(strip(x.A[0])) || x.A[0].isNil()) && s.isList(f, x.A[1], st) ||
			x.Op == "call" && strings.HasPrefix(x.Aux, "slices.Clone") && s.isList(f, x.A[0], st) {
			list = strip(x.A[len(x.A)-1])
			return true
		}
		return false
	}
	if f.eval(isNilT(err)) == yes {
		if !s.ob(isCopy(r), "segments", at, "the result isn't the parsed segments: %s", clip(r.String(), 300)) {
			return
		}
		lists = []*Term{r, list}
		s.ob(strip(o.Res[1]) == st.wild, "wildcard", at, "the result isn't the wildcard's index: %s", o.Res[1])
	} else {
		f.find(func(t *Term) bool {
			if t.Op == "iaddr" && strip(t.A[0]) != nil && isCopy(strip(t.A[0])) {
				lists = append(lists, strip(t.A[0]))
			}
			return false
		})
	}
	// the pattern of the last segment
	var vp *Term
	for _, l := range lists {
		f.find(func(t *Term) bool {
			if t.Op != "init" || t.A[0].Op != "faddr" || t.A[0].Aux != "valuePattern" || t.A[0].A[0].Op != "iaddr" || strip(t.A[0].A[0].A[0]) != l {
				return false
			}
			i := t.A[0].A[0].A[1]
			if i == tSub(tLen(l), tInt(1)) || i == tSub(tLen(list), tInt(1)) || f.eval(tEq(i, tSub(tLen(list), tInt(1)))) == yes {
				vp = t
			}
			return false
		})
	}
	if vp == nil {
		if st.last != nil || f.eval(tLt(st.wild, tInt(0))) == no {
			// it's static or has a wildcard before it or in it
			s.ob(f.eval(isNilT(err)) == yes && s.changed(o, lists) == 0, "last segment", at, "the last segment is changed")
			return
		}
		s.ob(false, "last segment", at, "the template's last segment isn't looked at [path: %s]", s.path(f))
		return
	}
	re := p.fld(vp, "re")
	cond := tAnd(tAnd(tNot(isNilT(vp)), tNot(isNilT(re))), tLt(st.wild, tInt(0)))
	fork(f, cond, func(f *Facts, must bool) {
		if f.eval(isNilT(err)) != yes {
			_, n, isC := compiled(err)
			s.ob(must && isC && n == "1", "last segment: error", at, "a valid template is refused: %s", clip(err.String(), 200))
			return
		}
		if !must {
			s.ob(s.changed(o, lists) == 0, "last segment", at, "the last segment is changed though it's not a pattern, or there's a wildcard before it [path: %s]", s.path(f))
			return
		}
		good := 0
		for _, w := range effects(o.St.trace, "store") {
			t, v := w.Target, strip(w.Args[0])
			if t.Op != "faddr" || t.Aux != "valuePattern" || t.A[0].Op != "iaddr" || v.Op != "alloc" {
				continue
			}
			i := t.A[0].A[1]
			text, n, isC := compiled(memOf(o.St, v, "re"))
			ok := isC && n == "0" && text == tConcat(mk("call", "(*regexp.Regexp).String", nil, re), tStr("$"))
			ok = ok && memOf(o.St, v, "name") == p.fld(vp, "name")
			if ok && (i == vp.A[0].A[0].A[1] || f.eval(tEq(i, tSub(tLen(list), tInt(1)))) == yes) {
				good++
			}
		}
		s.ob(good == 1 && s.changed(o, lists) == 1, "last segment", at, "the last segment's pattern isn't anchored at the end with a new pattern [path: %s]", s.path(f))
	})
}

// changed counts the changes of segments.
func (s *tmplSpec) changed(o *Outcome, lists []*Term) (n int) {
	for _, w := range effects(o.St.trace, "store") {
		for _, l := range lists {
			if r := rootOf(w.Target); l != nil && (r == l || strip(r) == l) {
				n++
				break
			}
		}
	}
	return n
}

// tryParse judges TryToParse.
func (s *tmplSpec) tryParse() {
	p := s.c.p
	str := s.rr.ps[0]
	s.eachOut(func(f *Facts, o *Outcome, at string) {
		if !s.ob(o.Kind == "return", "panics", at, "parsing panics") {
			return
		}
		x, err := strip(o.Res[0]), o.Res[1]
		failed := func() bool { return x.isNil() }
		if f.eval(tEqC(tLen(str), 0)) == yes {
			s.ob(failed() && s.wraps(err, "ErrInvalidTemplate"), "empty", at, "an empty template isn't refused")
			return
		}
		es := regs(o.St.trace)
		if !s.ob(len(es) > 0 && es[0].Name == "templateNameAndContent" && es[0].Args[0] == str, "name", at, "the name and the content aren't divided first") {
			return
		}
		n := es[0]
		fork(f, isNilT(n.res(2)), func(f *Facts, ok bool) {
			if !ok {
				s.ob(failed() && s.passed(err, n.res(2)), "errors", at, "an error is ignored")
				return
			}
			if !s.ob(len(es) == 2 && es[1].Name == "parse" && es[1].Args[0] == n.res(1), "content", at, "the content isn't parsed once") {
				return
			}
			c := es[1]
			fork(f, isNilT(c.res(2)), func(f *Facts, ok bool) {
				if !ok {
					s.ob(failed() && s.passed(err, c.res(2)), "errors", at, "an error is ignored")
					return
				}
				if !s.ob(f.eval(isNilT(err)) == yes && x.Op == "alloc" && named(x.T, "Template"), "result", at, "a valid template is refused: %s", clip(err.String(), 200)) {
					return
				}
				s.ob(memOf(o.St, x, "slices") == c.res(0) && memOf(o.St, x, "wildcardIdx") == c.res(1), "segments", at, "the template's segments aren't the parsed ones")
				s.defaultName(f, at, strip(memOf(o.St, x, "name")), n.res(0), c.res(0), c.res(1))
			})
		})
	})
	for i := range s.rr.outs {
		o := &s.rr.outs[i]
		for _, w := range p.writesIn(o.St.trace) {
			s.ob(rootOf(w.Target).Op == "alloc", "changes", s.c.at(o.In, o.Pos), "something else than the new template is changed: %s", clip(w.Target.String(), 200))
		}
	}
}

// defaultName: a template without a name is named after its only value.
func (s *tmplSpec) defaultName(f *Facts, at string, got, name, list, wild *Term) {
	p := s.c.p
	seg := func(i *Term) (static, vp *Term) {
		e := mk("iaddr", "", nil, list, i)
		return p.fld(e, "staticStr"), p.fld(e, "valuePattern")
	}
	if got == nil {
		got = tStr("")
	}
	kept := func(f *Facts) bool { return got == name || s.same(f, got, name) }
	fork(f, tEqC(tLen(name), 0), func(f *Facts, none bool) {
		if !none {
			s.ob(kept(f), "name", at, "the template's own name is lost: %s [path: %s]", clip(got.String(), 200), s.path(f))
			return
		}
		st0, vp0 := seg(tInt(0))
		fork(f, tAnd(tEqC(tLen(list), 1), tNot(tEqC(tLen(st0), 0))), func(f *Facts, static bool) {
			if static {
				s.ob(kept(f) || f.eval(tEqC(tLen(got), 0)) == yes, "name: static", at, "a static template gets a name: %s", clip(got.String(), 200))
				return
			}
			if f.eval(tAnd(tEqC(tLen(list), 1), tEqC(wild, 0))) == yes {
				s.ob(got == p.fld(vp0, "name"), "name: wildcard", at, "a wildcard template isn't named after its value: %s", clip(got.String(), 200))
				return
			}
			s.onlyValue(f, at, got, name, list, seg)
		})
	})
}

func (s *tmplSpec) onlyValue(f *Facts, at string, got, name, list *Term, seg func(i *Term) (*Term, *Term)) {
	p := s.c.p
	// a list of the values' names
	if w := f.find(func(t *Term) bool {
		return t.Op == "len" && isWiden(strip(t.A[0])) && !isPtr(strip(t.A[0]).T) && s.carried(strip(t.A[0]), emptyList)
	}); w != nil && len(s.rr.ip.stepsOf(strip(w.A[0]))) > 0 {
		names := strip(w.A[0])
		bad := s.collectedOf(names, list, func(f *Facts, i *Term, k func(f *Facts, v *Term)) {
			_, vp := seg(i)
			fork(f, isNilT(vp), func(f *Facts, none bool) {
				if none {
					k(f, nil)
				} else {
					k(f, p.fld(vp, "name"))
				}
			})
		})
		if s.ob(bad == "", "name: values", at, "the names of the template's values aren't collected: %s", bad) {
			fork(f, tEqC(tLen(names), 1), func(f *Facts, one bool) {
				if !one {
					s.ob(got == name || s.same(f, got, name), "name: several values", at, "a template is named after one of several values: %s", clip(got.String(), 200))
					return
				}
				s.ob(got.Op == "init" && got.A[0] == mk("iaddr", "", nil, names, tInt(0)), "name: one value", at, "a template with a single value isn't named after it: %s [path: %s]", clip(got.String(), 200), s.path(f))
			})
		}
		return
	}
	// what the loop remembers of the values
	var mark, idx *Term
	s.eachStep(func(g *Facts, b *BackEdge, at string) {
		for w, v := range b.Next {
			if isWiden(w) && w.A[0].Op != "faddr" && v != w && v != nil && (b.Init[w] == tInt(-1) || b.Init[w].isNil()) {
				mark = w
			}
		}
		for _, i := range indexes(g, list) {
			if walk(i, list) != "" {
				idx = i
			}
		}
	})
	if !s.ob(mark != nil && idx != nil, "name: values", at, "the values of the template aren't gone through") {
		return
	}
	isInt := f.eval(isNilT(mark)) == unk && mark.A[0] == tInt(-1)
	unset := isNilT(mark)
	if isInt {
		unset = tLt(mark, tInt(0))
	}
	s.eachStep(func(g *Facts, b *BackEdge, at string) {
		_, vp := seg(idx)
		g2 := g
		fork(g2, isNilT(vp), func(g *Facts, static bool) {
			v := b.Next[mark]
			if static {
				s.ob(v == mark, "name: values", at, "a static segment counts as a value")
				return
			}
			s.ob(g.eval(unset) == yes && (isInt && v == idx || !isInt && (strip(v) == vp)), "name: values", at, "a value is forgotten [path: %s]", s.path(g))
		})
	})
	_, vp := seg(idx)
	if over(f, idx, list) {
		fork(f, unset, func(f *Facts, none bool) {
			if none {
				s.ob(got == name || s.same(f, got, name), "name: no values", at, "a template without values gets a name")
				return
			}
			only := mark
			if isInt {
				_, only = seg(mark)
			}
			s.ob(got == p.fld(only, "name"), "name: one value", at, "a template with a single value isn't named after it: %s [path: %s]", clip(got.String(), 200), s.path(f))
		})
		return
	}
	s.ob(f.eval(unset) == no && f.eval(isNilT(vp)) == no, "name: several values", at, "the search for the template's only value ends too early [path: %s]", s.path(f))
	s.ob(got == name || s.same(f, got, name), "name: several values", at, "a template with several values is named after one: %s", clip(got.String(), 200))
}

// mustParse judges Parse.
func (s *tmplSpec) mustParse() {
	s.eachOut(func(f *Facts, o *Outcome, at string) {
		es := regs(o.St.trace)
		if !s.ob(len(es) == 1 && es[0].Args[0] == s.rr.ps[0], "parses", at, "the template isn't parsed once") {
			return
		}
		fork(f, isNilT(es[0].res(1)), func(f *Facts, ok bool) {
			if f.eval(isNilT(es[0].res(0))) == triOf(ok) {
				// there's a template if there's no error
				return
			}
			s.ob(ok == (o.Kind == "return"), "panics", at, "parsing panics without an error, or doesn't panic with one [path: %s]", s.path(f))
			s.ob(!ok || o.Kind == "return" && o.Res[0] == es[0].res(0), "result", at, "the result isn't the parsed template")
		})
	})
	s.quiet()
}

// clear judges Clear.
func (s *tmplSpec) clear() {
	p := s.c.p
	s.eachOut(func(f *Facts, o *Outcome, at string) {
		val := func(field string) *Term {
			v := o.St.mem[p.cell(s.self, field)]
			if v == nil {
				return p.fld(s.self, field)
			}
			return strip(v)
		}
		name, list, wild := val("name"), val("slices"), val("wildcardIdx")
		s.ob(o.Kind == "return" && emptyText(name) && (list.isNil() || list.Op == "zero" || emptyList(list)) && wild == tInt(-1), "clears", at, "a cleared template keeps something: %s, %s, %s", name, list, wild)
	})
}

// immutable: templates and their segments are shared by responders, so what
// was parsed isn't changed by anything.
func (c *Checker) immutable() {
	p := c.p
	var only func(f *ssa.Function, name string, seen map[*ssa.Function]bool) bool
	only = func(f *ssa.Function, name string, seen map[*ssa.Function]bool) bool {
		if f.Name() == name && recvName(f) == "Template" {
			return true
		}
		if seen[f] || f.Object() == nil || f.Object().Exported() || p.addrTaken(f) || len(p.callers[f]) == 0 {
			return false
		}
		seen[f] = true
		for _, cs := range p.callers[f] {
			if !only(cs.in, name, seen) {
				return false
			}
		}
		return true
	}
	n := 0
	part := func(t types.Type) string {
		for _, x := range []string{"Template", "_TemplateSegment", "_ValuePattern"} {
			if _, ok := types.Unalias(t).(*types.Named); ok && named(t, x) {
				return x
			}
		}
		return ""
	}
	for _, f := range p.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var target ssa.Value
				field := ""
				what := ""
				switch x := in.(type) {
				case *ssa.Store:
					target = x.Addr
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						t := derefType(fa.X.Type())
						what = part(t)
						if what != "" {
							field = t.Underlying().(*types.Struct).Field(fa.Field).Name()
						}
						target = fa.X
					} else {
						what = part(derefType(x.Addr.Type()))
					}
				case *ssa.Call:
					bi, ok := x.Call.Value.(*ssa.Builtin)
					if !ok || bi.Name() != "copy" && bi.Name() != "append" && bi.Name() != "clear" || len(x.Call.Args) == 0 {
						continue
					}
					sl, ok := x.Call.Args[0].Type().Underlying().(*types.Slice)
					if !ok || part(sl.Elem()) == "" {
						continue
					}
					what = part(sl.Elem())
					target = x.Call.Args[0]
				default:
					continue
				}
				if what == "" {
					continue
				}
				n++
				at := p.at(f, in.Pos())
				ok := p.alwaysFresh(target, f, map[*ssa.Function]bool{}) || p.ownList(target, f, map[ssa.Value]bool{}, 0)
				if !ok && what == "Template" {
					ok = field == "name" && only(f, "SetName", map[*ssa.Function]bool{}) || only(f, "Clear", map[*ssa.Function]bool{})
				}
				c.ob(ok, "immutable", "writes: "+p.short(f)+" "+what+"."+field, at, "%s changes a %s that may be in use", p.short(f), what)
			}
		}
	}
	c.ob(n > 0, "immutable", "writes", "", "no template is ever made")
}

// ownList: the list isn't one that a template holds: it's made by the
// function, or it's a parameter that is given such lists.
func (p *Prog) ownList(v ssa.Value, f *ssa.Function, seen map[ssa.Value]bool, depth int) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if depth > 20 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.MakeSlice, *ssa.Alloc:
		return true
	case *ssa.IndexAddr:
		return p.ownList(x.X, f, seen, depth+1)
	case *ssa.FieldAddr:
		return p.ownList(x.X, f, seen, depth+1)
	case *ssa.Slice:
		return p.ownList(x.X, f, seen, depth+1)
	case *ssa.ChangeType:
		return p.ownList(x.X, f, seen, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.ownList(e, f, seen, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		// a local variable
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a && !p.ownList(st.Val, f, seen, depth+1) {
					return false
				}
			}
			return true
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			return bi.Name() == "append" && p.ownList(x.Call.Args[0], f, seen, depth+1)
		}
		if g := x.Call.StaticCallee(); g != nil {
			if strings.HasPrefix(g.String(), "slices.Clone") || g.Origin() != nil && strings.HasPrefix(g.Origin().String(), "slices.Clone") {
				return true
			}
			return p.ownResult(g, 0, seen, depth+1)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil {
				return p.ownResult(g, x.Index, seen, depth+1)
			}
		}
	case *ssa.Parameter:
		if f.Object() == nil || f.Object().Exported() || p.addrTaken(f) || len(p.callers[f]) == 0 {
			return false
		}
		for i, q := range f.Params {
			if q != x {
				continue
			}
			for _, cs := range p.callers[f] {
				args := cs.ins.Common().Args
				if cs.ins.Common().IsInvoke() || i >= len(args) || !p.ownList(args[i], cs.in, seen, depth+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (p *Prog) ownResult(g *ssa.Function, i int, seen map[ssa.Value]bool, depth int) bool {
	if len(g.Blocks) == 0 || !p.inPkg(g) {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && !p.ownList(r.Results[i], g, seen, depth+1) {
				return false
			}
		}
	}
	return true
}

func checkP31(c *Checker) {
	c.rule("dynamic segment: a value name's patterns are compared with the first one, which is shared; a new one is compiled with the anchor of the direction that it's going to be matched in, grouped if an anchor wouldn't bind to all of it; a second wildcard is refused; the first one makes every pattern be anchored at the end")
	c.rule("segments: the template is divided into static and dynamic segments to its end, every error is returned, and the pattern at the end is anchored there")
	c.rule("template: a new template has the name, the segments and the wildcard that were parsed; without a name it's named after its only value")
	c.rule("immutable: templates, segments and patterns are changed by nothing but what makes them, SetName and Clear")
	if s := c.tmplRun("dynamic segment", "-", "appendDynamicSegmentTo", false); s != nil {
		s.addDynamic()
	}
	if s := c.parseRun("segments", "parse", set("staticSegment", "dynamicSegment", "appendDynamicSegmentTo")); s != nil {
		s.parse()
	}
	if s := c.parseRun("template", "TryToParse", set("templateNameAndContent", "parse")); s != nil {
		s.tryParse()
	}
	if s := c.parseRun("template", "Parse", set("TryToParse")); s != nil {
		s.mustParse()
	}
	if s := c.tmplRun("template", "Template", "Clear", false); s != nil {
		s.clear()
	}
	c.immutable()
}

func init() {
	register("P31", "Every abstract path and iteration of the functions that make templates is compared with a specification; every write to templates in the package is checked.", checkP31)
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}
