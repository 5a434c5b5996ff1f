package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// The texts of templates: what is escaped in them and what isn't.

// A piece of a text is a literal, a part of a text between two places, or a
// text that was escaped.
type piece struct {
	lit          string
	base, lo, hi *Term
	set          string // escaped characters of base
}

func (p piece) String() string {
	switch {
	case p.base == nil:
		return fmt.Sprintf("%q", p.lit)
	case p.set != "":
		return fmt.Sprintf("escaped<%s>(%s)", p.set, clip(p.base.String(), 60))
	}
	return fmt.Sprintf("%s[%s:%s]", clip(p.base.String(), 60), clip(p.lo.String(), 60), clip(p.hi.String(), 60))
}

func showPieces(ps []piece) string {
	var s []string
	for _, p := range ps {
		s = append(s, p.String())
	}
	return strings.Join(s, " ")
}

func samePlace(f *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	if m, c := linear(tSub(a, b)); len(m) == 0 {
		return c == 0
	}
	return f.eval(tEq(a, b)) == yes
}

func charAt(t, i *Term) *Term { return mk("at", "str", nil, t, i) }

// placeAfter is the place after the character at k.
func (s *textSpec) placeAfter(f *Facts, t, k *Term) *Term {
	if k.Op != "rkey" {
		return tAdd(k, tInt(1))
	}
	r := mk("rune", "", nil, t, k)
	for _, c := range "{}:\\$" {
		if f.eval(tEqC(r, int64(c))) == yes {
			return tAdd(k, tInt(1))
		}
	}
	return mk("placeafter", "", nil, k)
}

type textSpec struct {
	c    *Checker
	rr   *regRun
	id   string
	rule string
	// the loops that escape texts, by what they make
	made map[*Term]*escaping
	// the character under examination
	t, k *Term
}

// escaping is a loop that escapes the characters of a text.
type escaping struct {
	set  string
	text *Term
	from *Term // the place from which on the text wasn't written yet, or
	rest *Term // the rest of the text
	init func(f *Facts) *Term
	done func(f *Facts) bool
}

func (s *textSpec) ob(ok bool, what, at, format string, args ...any) bool {
	return s.c.ob(ok, s.rule, s.id+": "+what, at, format, args...)
}

func isNone(t *Term) bool { return t == nil || t.isNil() || t == tStr("") || t.Op == "zero" }

// pieces are the parts of a text.
func (s *textSpec) pieces(f *Facts, ts ...*Term) []piece {
	var r []piece
	add := func(p piece) {
		if p.base == nil && p.lit == "" {
			return
		}
		if n := len(r); n > 0 {
			l := &r[n-1]
			switch {
			case p.base == nil && l.base == nil:
				l.lit += p.lit
				return
			case p.base != nil && p.base == l.base && p.set == "" && l.set == "" && samePlace(f, l.hi, p.lo):
				l.hi = p.hi
				if samePlace(f, l.lo, l.hi) {
					r = r[:n-1]
				}
				return
			}
		}
		r = append(r, p)
	}
	part := func(t, lo, hi *Term) {
		if hi == nil || hi.isNil() {
			hi = tLen(t)
		}
		if samePlace(f, lo, hi) || f.eval(tEqC(tLen(t), 0)) == yes {
			return
		}
		if t == s.t && s.k != nil && t != nil {
			// up to and with the current character
			ch := s.char()
			for _, c := range "{}:\\$" {
				if f.eval(tEqC(ch, int64(c))) == yes && samePlace(f, hi, tAdd(s.k, tInt(1))) {
					if !samePlace(f, lo, s.k) {
						add(piece{base: t, lo: lo, hi: s.k})
					}
					add(piece{lit: string(c)})
					return
				}
			}
		}
		add(piece{base: t, lo: lo, hi: hi})
	}
	var one func(t *Term)
	one = func(t *Term) {
		t = strip(t)
		if isNone(t) {
			return
		}
		if v, ok := t.strVal(); ok {
			add(piece{lit: v})
			return
		}
		switch {
		case t.Op == "concat":
			for _, a := range t.A {
				one(a)
			}
		case t.Op == "slice" && isStr0(t):
			part(strip(t.A[0]), t.A[1], t.A[2])
		case t.Op == "conv":
			x := strip(t.A[0])
			for x.Op == "conv" {
				x = strip(x.A[0])
			}
			for c := int64(32); c < 127; c++ {
				if x == tInt(c) || strings.ContainsRune("{}:\\$", rune(c)) && f.eval(tEqC(x, c)) == yes {
					add(piece{lit: string(rune(c))})
					return
				}
			}
			if x.Op == "rune" || x.Op == "at" {
				part(strip(x.A[0]), x.A[1], s.placeAfter(f, x.A[0], x.A[1]))
				return
			}
			part(t, tInt(0), tNil())
		case t.Op == "call" && t.Aux == "strings.ReplaceAll" && len(t.A) == 3:
			if set, x := replaced(t); x != nil {
				if f.eval(tEqC(tLen(x), 0)) != yes {
					add(piece{base: x, set: set, lo: tInt(0), hi: tLen(x)})
				}
				return
			}
			part(t, tInt(0), tNil())
		default:
			part(t, tInt(0), tNil())
		}
	}
	for _, t := range ts {
		one(t)
	}
	if len(s.made) == 0 {
		return r
	}
	// the results of escaping loops
	for i := 0; i < len(r); i++ {
		e := s.made[r[i].base]
		if e == nil || r[i].set != "" || !e.done(f) {
			continue
		}
		n := i + 1
		switch {
		case e.rest != nil:
			if n < len(r) && r[n].base == e.rest {
				n++
			} else if f.eval(tEqC(tLen(e.rest), 0)) != yes {
				continue
			}
		case e.from != nil:
			if n < len(r) && r[n].base == e.text && r[n].set == "" && samePlace(f, r[n].lo, e.from) && samePlace(f, r[n].hi, tLen(e.text)) {
				n++
			} else {
				continue
			}
		}
		was := s.pieces(f, e.init(f))
		if f.eval(tEqC(tLen(e.text), 0)) != yes {
			was = append(was, piece{base: e.text, set: e.set, lo: tInt(0), hi: tLen(e.text)})
		}
		tail := append([]piece{}, r[n:]...)
		r = append(append(append([]piece{}, r[:i]...), was...), tail...)
		// literals that meet
		for j := 0; j+1 < len(r); j++ {
			for j+1 < len(r) && r[j].base == nil && r[j+1].base == nil {
				r[j].lit += r[j+1].lit
				r = append(r[:j+1], r[j+2:]...)
			}
		}
	}
	return r
}

func isStr0(t *Term) bool { return len(t.A) == 3 }

// replaced: colons or curly braces with a backslash in front of them.
func replaced(t *Term) (set string, text *Term) {
	x := strip(t)
	for x.Op == "call" && x.Aux == "strings.ReplaceAll" && len(x.A) == 3 {
		from, ok1 := x.A[1].strVal()
		to, ok2 := x.A[2].strVal()
		if !ok1 || !ok2 || len(from) != 1 || to != "\\"+from || from == "\\" {
			return "", nil
		}
		set += from
		x = strip(x.A[0])
	}
	b := strings.Split(set, "")
	sort.Strings(b)
	return strings.Join(b, ""), x
}

func (s *textSpec) eqPieces(f *Facts, a, b []piece) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.lit != y.lit || x.base != y.base || x.set != y.set {
			return false
		}
		if x.base != nil && (!samePlace(f, x.lo, y.lo) || !samePlace(f, x.hi, y.hi)) {
			return false
		}
	}
	return true
}

// is judges a text.
func (s *textSpec) is(f *Facts, what, at string, got, want []*Term) bool {
	g, w := s.pieces(f, got...), s.pieces(f, want...)
	return s.ob(s.eqPieces(f, g, w), what, at, "%s: the text is %s, not %s [path: %s]", what, showPieces(g), showPieces(w), clip(f.String(), 600))
}

func (s *textSpec) char() *Term {
	if s.k.Op == "rkey" {
		return mk("rune", "", nil, s.t, s.k)
	}
	return charAt(s.t, s.k)
}

func (s *textSpec) isChar(c byte) *Term { return tEqC(s.char(), int64(c)) }

func (s *textSpec) more() *Term {
	if s.k.Op == "rkey" {
		return mk("rok", s.k.Aux, nil, s.k.A...)
	}
	return tLt(s.k, tLen(s.t))
}

// carriedBase is the variable of a loop in a place.
func carriedBase(k *Term) (*Term, int64) {
	b, c := splitAdd(k)
	return b, c
}

func next(b *BackEdge, t *Term) *Term {
	if t == nil {
		return nil
	}
	if t.Op == "ind" {
		_, step := indParts(t)
		return tAdd(t, tInt(step))
	}
	base, c := carriedBase(t)
	n := b.Next[base]
	if n == nil {
		return t
	}
	if c == 0 {
		return strip(n)
	}
	return tAdd(n, tInt(c))
}

func initial(b *BackEdge, t *Term) *Term {
	if t.Op == "ind" {
		start, _ := indParts(t)
		return tInt(start)
	}
	base, c := carriedBase(t)
	n := b.Init[base]
	if n == nil {
		return nil
	}
	if c == 0 {
		return strip(n)
	}
	return tAdd(n, tInt(c))
}

// steps are the iterations of the loop that carries the variable.
func (s *textSpec) steps(loop string) (r []*BackEdge) {
	for i := range s.rr.ip.backedges {
		b := &s.rr.ip.backedges[i]
		if b.Loop == loop {
			r = append(r, b)
		}
	}
	return r
}

// charLoops are the loops over the characters of texts: the text and the
// place of the current one.
func (s *textSpec) charLoops() map[string][2]*Term {
	r := map[string][2]*Term{}
	for i := range s.rr.ip.backedges {
		b := &s.rr.ip.backedges[i]
		b.St.facts.find(func(x *Term) bool {
			if x.Op != "rune" && !(x.Op == "at" && x.Aux == "str") {
				return false
			}
			k, t := x.A[1], strip(x.A[0])
			switch {
			case k.Op == "rkey":
				// the loop of this range
				if !b.carries(k) {
					return false
				}
			case k.Op == "ind":
				if !sameLoop(k, b.Loop) {
					return false
				}
			default:
				base, _ := carriedBase(k)
				if base == nil || !isWiden(base) || b.Next[base] == nil {
					return false
				}
			}
			if k.Op != "rkey" && b.St.facts.eval(tLt(k, tLen(t))) != yes {
				return false
			}
			old, ok := r[b.Loop]
			if ok && old[0] == t {
				if m, c := linear(tSub(k, old[1])); len(m) == 0 && c <= 0 {
					return false
				}
			}
			if !ok || old[0] == t {
				r[b.Loop] = [2]*Term{t, k}
			}
			return false
		})
	}
	return r
}

// carries: the key of a range over a text is of the loop itself: the range is
// exhausted by an iterator that is advanced in the loop's head.
func (b *BackEdge) carries(k *Term) bool {
	i := strings.LastIndexByte(b.Loop, '/')
	if i < 0 || !strings.HasPrefix(k.Aux, b.Loop[:i+1]) {
		return false
	}
	rest := k.Aux[i+1:]
	j := strings.IndexByte(rest, '.')
	return j > 0 && "L"+rest[:j] == b.Loop[i+1:]
}

// escapedBy are the ways in which the loop knows that the previous character
// is a backslash.
func (s *textSpec) escapedBy(loop string, from *Term) []*Term {
	bs := s.steps(loop)
	var r []*Term
	if s.k.Op != "rkey" {
		prev := tAdd(s.k, tInt(-1))
		r = append(r, tAnd(tLt(from, s.k), tEqC(charAt(s.t, prev), '\\')))
	}
	if len(bs) == 0 {
		return r
	}
vars:
	for v := range bs[0].Next {
		char, flag := true, true
		for _, b := range bs {
			n, i := strip(b.Next[v]), strip(b.Init[v])
			if n == nil || i == nil {
				continue vars
			}
			for n.Op == "conv" {
				n = strip(n.A[0])
			}
			if c, ok := i.intVal(); n != s.char() || !ok || c == '\\' {
				// it may be known which character it is
				c2, ok2 := n.intVal()
				if !(ok2 && ok && c != '\\' && b.St.facts.eval(tEqC(s.char(), c2)) == yes) {
					char = false
				}
			}
			f := b.St.facts
			if w, ok := i.boolVal(); !ok || w {
				flag = false
			} else if x := f.eval(s.isChar('\\')); x == unk && n != s.isChar('\\') || x != unk && f.eval(n) != x {
				flag = false
			}
		}
		switch {
		case char:
			r = append(r, tEqC(v, '\\'))
		case flag:
			r = append(r, v)
		}
	}
	return r
}

func decide(f *Facts, conds []*Term) tri {
	for _, c := range conds {
		if x := f.eval(c); x != unk {
			return x
		}
	}
	return unk
}

// tail finds the variables of a loop that hold the text made so far, and the
// place from which on nothing was taken yet.
func (s *textSpec) tail(f *Facts, res *Term, t *Term, end *Term) (c, from *Term, ok bool) {
	for _, p := range s.pieces(f, res) {
		switch {
		case p.base == nil:
			return nil, nil, false
		case p.base == t && p.set == "" && from == nil && samePlace(f, p.hi, end):
			from = p.lo
		case c == nil && from == nil && isWiden(p.base):
			c = p.base
		default:
			return nil, nil, false
		}
	}
	return c, from, c != nil || from != nil
}

func (s *textSpec) pend(c, from, upto *Term) []*Term {
	r := []*Term{}
	if c != nil {
		r = append(r, c)
	}
	if from != nil {
		r = append(r, tSlice(s.t, from, upto))
	}
	return r
}

func (s *textSpec) each(k func(f *Facts, o *Outcome, at string)) {
	for i := range s.rr.outs {
		o := &s.rr.outs[i]
		at := s.c.at(o.In, o.Pos)
		if !s.ob(o.Kind == "return", "returns", at, "reading or writing a template's text panics") {
			continue
		}
		s.ob(len(s.c.p.writesIn(o.St.trace)) == 0, "changes", at, "reading or writing a template's text changes something")
		k(o.St.facts, o, at)
	}
}

func (c *Checker) textRun(rule, typ, name string, pure map[string]bool) *textSpec {
	rr := c.pureRun(typ, name, nil, pure)
	if rr == nil {
		return nil
	}
	return &textSpec{c: c, rr: rr, rule: rule, id: strings.TrimPrefix(typ+"."+name, "-.")}
}

// invalid: the template is rejected.
func (s *textSpec) invalid(f *Facts, o *Outcome, at, why string) {
	n := len(o.Res) - 1
	ts := tmplSpec{c: s.c}
	s.ob(ts.wraps(o.Res[n], "ErrInvalidTemplate"), why, at, "%s: the template isn't rejected as an invalid one [path: %s]", why, clip(f.String(), 500))

}

func (s *textSpec) valid(f *Facts, o *Outcome, at, what string) bool {
	e := o.Res[len(o.Res)-1]
	return s.ob(f.eval(isNilT(e)) == yes, what, at, "%s: the template is rejected with %s [path: %s]", what, clip(e.String(), 100), clip(f.String(), 500))
}

// static judges staticSegment.
func (s *textSpec) static() {
	t := s.rr.ps[0]
	var loop string
	for l, x := range s.charLoops() {
		if x[0] == t {
			if loop != "" {
				s.ob(false, "loop", s.id, "more than one loop reads the characters of the segment")
				return
			}
			loop, s.t, s.k = l, t, x[1]
		}
	}
	if !s.ob(loop != "", "loop", s.id, "no loop that reads the characters of the segment was recognised") {
		return
	}
	var made, from *Term
	s.each(func(f *Facts, o *Outcome, at string) {
		if made == nil && f.eval(s.more()) == no {
			if c, fr, ok := s.tail(f, o.Res[0], t, tLen(t)); ok && c != nil {
				made, from = c, fr
			}
		}
	})
	if !s.ob(made != nil, "text", s.id, "the static segment's text isn't made by the loop") {
		return
	}
	if from == nil {
		from = s.k
	}
	esc := s.escapedBy(loop, tInt(0))
	s.starts(loop, made, from, tInt(0), tStr(""))
	for _, b := range s.steps(loop) {
		at := s.c.at(b.Fn, b.Fn.Pos())
		fork(b.St.facts, s.isChar('{'), func(f *Facts, open bool) {
			fork(f, s.isChar('}'), func(f *Facts, closed bool) {
				k := s.placeAfter(f, t, s.k)
				got := s.pend(next(b, made), s.nextFrom(b, from, k), k)
				if !open && !closed {
					s.is(f, "a character", at, got, s.pend(made, from, k))
					return
				}
				if !s.ob(decide(f, esc) == yes, "curly brace", at, "a curly brace that isn't escaped is passed over [path: %s]", clip(f.String(), 500)) {
					return
				}
				ch := "}"
				if open {
					ch = "{"
				}
				s.is(f, "an escaped curly brace", at, got, append(s.pend(made, from, tAdd(s.k, tInt(-1))), tStr(ch)))
			})
		})
	}
	s.each(func(f *Facts, o *Outcome, at string) {
		if f.eval(s.more()) == no {
			if s.valid(f, o, at, "a static segment") {
				end := from
				if from == s.k {
					end = nil
				}
				s.is(f, "the last segment", at, o.Res[:1], s.pend(made, end, tNil()))
				s.ob(len(s.pieces(f, o.Res[1])) == 0, "the last segment", at, "%s is left after the end", o.Res[1])
			}
			return
		}
		fork(f, s.isChar('{'), func(f *Facts, open bool) {
			fork(f, s.isChar('}'), func(f *Facts, closed bool) {
				if !s.ob(open || closed, "character", at, "a segment ends at a character that isn't a curly brace [path: %s]", clip(f.String(), 500)) {
					return
				}
				if !s.ob(decide(f, esc) == no, "curly brace", at, "an escaped curly brace ends the segment [path: %s]", clip(f.String(), 500)) {
					return
				}
				if closed {
					s.invalid(f, o, at, "a closing curly brace")
					return
				}
				if s.valid(f, o, at, "a segment") {
					end := from
					if from == s.k {
						end = nil
					}
					s.is(f, "the static segment", at, o.Res[:1], s.pend(made, end, s.k))
					s.is(f, "what is left", at, o.Res[1:2], []*Term{tSlice(t, s.k, tNil())})
				}
			})
		})
	})
}

// nextFrom: what isn't taken yet after the iteration.
func (s *textSpec) nextFrom(b *BackEdge, from, k *Term) *Term {
	if from == s.k {
		return k
	}
	return next(b, from)
}

// starts: the loop begins with the given text at the given place.
func (s *textSpec) starts(loop string, made, from, place, text *Term) {
	for _, b := range s.steps(loop) {
		at := s.c.at(b.Fn, b.Fn.Pos())
		f := b.St.facts
		if made != nil && text != nil {
			i := initial(b, made)
			s.ob(s.eqPieces(f, s.pieces(f, i), s.pieces(f, text)), "start", at, "the text begins with %s", i)
		}
		if from != s.k && from != nil {
			i := initial(b, from)
			s.ob(i != nil && samePlace(f, i, place), "start", at, "the text is taken from %s on", i)
		}
		if s.k != nil && s.k.Op != "rkey" {
			i := initial(b, s.k)
			s.ob(i != nil && samePlace(f, i, place), "start", at, "the first character is the one at %s", i)
			n := next(b, s.k)
			s.ob(n != nil && samePlace(f, n, tAdd(s.k, tInt(1))), "next", at, "the character at %s isn't read next, but the one at %s", tAdd(s.k, tInt(1)), n)
		}
	}
}

// name judges templateNameAndContent.
func (s *textSpec) name() {
	t := s.rr.ps[0]
	named := firstIs(t, '$')
	for l, x := range s.charLoops() {
		if x[0] == t && !s.finds(l) {
			s.t, s.k = t, x[1]
			s.nameByChars(l)
			return
		}
	}
	// the loop that looks for colons
	loop := ""
	var rest, colon *Term
	for i := range s.rr.ip.backedges {
		b := &s.rr.ip.backedges[i]
		if x, r := s.searches(b.Loop); x != nil {
			loop, colon, rest = b.Loop, x, r
		}
	}
	if !s.ob(loop != "", "loop", s.id, "no loop that looks for the end of the name was recognised") {
		return
	}
	s.t = t
	base, off := rest, tInt(0)
	if rest.Op == "slice" {
		base, off = strip(rest.A[0]), rest.A[1]
	}
	sub := func(lo, hi *Term) *Term {
		if !hi.isNil() {
			hi = tAdd(off, hi)
		}
		return tSlice(base, tAdd(off, lo), hi)
	}
	esc := tAnd(tLt(tInt(0), colon), tEqC(charAt(base, tAdd(off, tAdd(colon, tInt(-1)))), '\\'))
	var made *Term
	s.each(func(f *Facts, o *Outcome, at string) {
		if made == nil && f.eval(named) == yes && (f.eval(tEqC(colon, -1)) == yes || f.eval(tLt(colon, tInt(0))) == yes) {
			ps := s.pieces(f, o.Res[0])
			if len(ps) == 2 && isWiden(ps[0].base) {
				made = ps[0].base
			}
		}
	})
	if !s.ob(made != nil, "text", s.id, "the name isn't made by the loop that looks for its end") {
		return
	}
	for _, b := range s.steps(loop) {
		at := s.c.at(b.Fn, b.Fn.Pos())
		f := b.St.facts
		s.ob(f.eval(named) == yes, "name", at, "a name is read from a template without one")
		s.ob(isNone(initial(b, made)), "start", at, "the name begins with %s", initial(b, made))
		var left, first *Term
		if rest.Op == "slice" {
			first = tSlice(base, initial(b, off), tNil())
			left = tSlice(base, next(b, off), tNil())
		} else {
			first, left = initial(b, rest), next(b, rest)
		}
		s.ob(first == tSlice(t, tInt(1), tNil()), "start", at, "the name isn't read from the second character on, but %s", first)
		if s.ob(f.eval(tLt(tInt(-1), colon)) == yes && f.eval(esc) == yes, "colon", at, "a colon that isn't escaped is passed over [path: %s]", clip(f.String(), 500)) {
			s.is(f, "an escaped colon", at, []*Term{next(b, made), left},
				[]*Term{made, sub(tInt(0), tAdd(colon, tInt(-1))), tStr(":"), sub(tAdd(colon, tInt(1)), tNil())})
		}
	}
	s.nameless(func(f *Facts, o *Outcome, at string) {
		if !s.valid(f, o, at, "a template with a name") {
			return
		}
		over := tNot(tLt(off, tLen(t)))
		if rest.Op != "slice" {
			over = tEqC(tLen(rest), 0)
		}
		if f.eval(over) == yes {
			s.is(f, "a name up to the end", at, o.Res[:1], []*Term{made})
			s.endOf(f, loop, o.Res[1], off, at)
			return
		}
		fork(f, tLt(colon, tInt(0)), func(f *Facts, none bool) {
			if none {
				s.is(f, "a name without an end", at, o.Res[:1], []*Term{made, rest})
				s.ob(len(s.pieces(f, o.Res[1])) == 0, "a name without an end", at, "the content is %s", o.Res[1])
				return
			}
			if s.ob(f.eval(esc) == no, "colon", at, "an escaped colon ends the name [path: %s]", clip(f.String(), 500)) {
				s.is(f, "a name", at, o.Res[:1], []*Term{made, sub(tInt(0), colon)})
				s.is(f, "a named template's content", at, o.Res[1:2], []*Term{sub(tAdd(colon, tInt(1)), tNil())})
			}
		})
	})
}

// endOf: nothing is left when the loop has come to the end.
func (s *textSpec) endOf(f *Facts, loop string, x, off *Term, at string) {
	ps := s.pieces(f, x)
	if len(ps) == 0 {
		return
	}
	ok := len(ps) == 1 && ps[0].base == s.t && samePlace(f, ps[0].hi, tLen(s.t))
	if ok {
		for _, b := range s.steps(loop) {
			// the place is the end when the loop's next one is
			ok = ok && samePlace(b.St.facts, next(b, ps[0].lo), next(b, off))
			i := initial(b, ps[0].lo)
			ok = ok && i != nil && (samePlace(b.St.facts, i, initial(b, off)) || b.St.facts.eval(tLt(initial(b, off), tLen(s.t))) == yes)
		}
	}
	s.ob(ok, "a name up to the end", at, "the content is %s", x)
}

func (s *textSpec) finds(loop string) bool {
	x, _ := s.searches(loop)
	return x != nil
}

// searches is the search for a colon in the rest of a text that a loop's
// iterations make, and the rest.
func (s *textSpec) searches(loop string) (colon, rest *Term) {
	bs := s.steps(loop)
	for _, b := range bs {
		x := b.St.facts.find(func(x *Term) bool {
			if x.Op != "call" || x.Aux != "strings.IndexByte" || len(x.A) != 2 || x.A[1] != tInt(':') {
				return false
			}
			r := strip(x.A[0])
			if r.Op == "slice" && r.A[2].isNil() {
				base, _ := carriedBase(r.A[1])
				return base != nil && (isWiden(base) && b.Next[base] != nil || base.Op == "ind")
			}
			return isWiden(r) && b.Next[r] != nil
		})
		if x != nil {
			return x, strip(x.A[0])
		}
	}
	if len(bs) == 0 {
		return nil, nil
	}
	// the place of the colon may be carried along
	vars := sortedTerms(bs[0].Next)
	for _, v := range vars {
		for _, r := range vars {
			ok := v != r
			for _, b := range bs {
				nv, nr, iv, ir := next(b, v), next(b, r), initial(b, v), initial(b, r)
				ok = ok && nv != nil && nr != nil && iv != nil && ir != nil &&
					nv == indexByte(nr, ':') && iv == indexByte(ir, ':')
			}
			if ok {
				return v, r
			}
		}
	}
	return nil, nil
}

// nameless judges templates without names, and calls k for the others.
func (s *textSpec) nameless(k func(f *Facts, o *Outcome, at string)) {
	t := s.t
	s.each(func(f *Facts, o *Outcome, at string) {
		fork(f, tEqC(tLen(t), 0), func(f *Facts, empty bool) {
			if empty {
				return
			}
			fork(f, firstIs(t, '$'), func(f *Facts, named bool) {
				if named {
					fork(f, tEqC(tLen(t), 1), func(f *Facts, alone bool) {
						if alone {
							s.invalid(f, o, at, "a dollar sign alone")
						} else {
							k(f, o, at)
						}
					})
					return
				}
				if !s.valid(f, o, at, "a template without a name") {
					return
				}
				s.ob(len(s.pieces(f, o.Res[0])) == 0, "no name", at, "a template without a name gets the name %s", o.Res[0])
				bs := func(f *Facts, dollar bool) {
					want := t
					if dollar {
						want = tSlice(t, tInt(1), tNil())
					}
					s.is(f, "the content without a name", at, o.Res[1:2], []*Term{want})
				}
				if x := f.eval(affix(true, t, tStr("\\$"))); x != unk {
					bs(f, x == yes)
					return
				}
				fork(f, firstIs(t, '\\'), func(f *Facts, b bool) {
					if !b {
						bs(f, false)
						return
					}
					fork(f, tLt(tInt(1), tLen(t)), func(f *Facts, long bool) {
						if !long {
							bs(f, false)
							return
						}
						fork(f, tEqC(charAt(t, tInt(1)), '$'), bs)
					})
				})
			})
		})
	})
}

// nameByChars judges a loop over the characters of a name.
func (s *textSpec) nameByChars(loop string) {
	t := s.t
	var made, from *Term
	s.each(func(f *Facts, o *Outcome, at string) {
		if made == nil && f.eval(s.more()) == no && f.eval(firstIs(t, '$')) == yes {
			if c, fr, ok := s.tail(f, o.Res[0], t, tLen(t)); ok && c != nil {
				made, from = c, fr
			}
		}
	})
	if !s.ob(made != nil && s.k.Op != "rkey", "text", s.id, "the name isn't made by the loop that looks for its end") {
		return
	}
	if from == nil {
		from = s.k
	}
	esc := s.escapedBy(loop, tInt(1))
	s.starts(loop, made, from, tInt(1), tStr(""))
	for _, b := range s.steps(loop) {
		at := s.c.at(b.Fn, b.Fn.Pos())
		fork(b.St.facts, s.isChar(':'), func(f *Facts, colon bool) {
			k := tAdd(s.k, tInt(1))
			got := s.pend(next(b, made), s.nextFrom(b, from, k), k)
			if !colon {
				s.is(f, "a character", at, got, s.pend(made, from, k))
				return
			}
			if s.ob(decide(f, esc) == yes, "colon", at, "a colon that isn't escaped is passed over [path: %s]", clip(f.String(), 500)) {
				s.is(f, "an escaped colon", at, got, append(s.pend(made, from, tAdd(s.k, tInt(-1))), tStr(":")))
			}
		})
	}
	s.nameless(func(f *Facts, o *Outcome, at string) {
		if !s.valid(f, o, at, "a template with a name") {
			return
		}
		end := from
		if from == s.k {
			end = nil
		}
		if f.eval(s.more()) == no {
			s.is(f, "a name without an end", at, o.Res[:1], s.pend(made, end, tNil()))
			s.ob(len(s.pieces(f, o.Res[1])) == 0, "a name without an end", at, "the content is %s", o.Res[1])
			return
		}
		if s.ob(f.eval(s.isChar(':')) == yes && decide(f, esc) == no, "colon", at, "something else than a colon that isn't escaped ends the name [path: %s]", clip(f.String(), 500)) {
			s.is(f, "a name", at, o.Res[:1], s.pend(made, end, s.k))
			s.is(f, "a named template's content", at, o.Res[1:2], []*Term{tSlice(t, tAdd(s.k, tInt(1)), tNil())})
		}
	})
}

// ---------------------------------------------------------------------------

// dynamic judges dynamicSegment.
func (s *textSpec) dynamic() {
	t := s.rr.ps[0]
	s.t = t
	var loop string
	for l, x := range s.charLoops() {
		if x[0] == t {
			if loop != "" {
				s.ob(false, "loop", s.id, "more than one loop reads the characters of the segment")
				return
			}
			loop, s.k = l, x[1]
		}
	}
	if !s.ob(loop != "" && s.k.Op != "rkey", "loop", s.id, "no loop that reads the characters of the segment was recognised") {
		return
	}
	k1 := tAdd(s.k, tInt(1))
	bs := s.steps(loop)
	// the variables
	var made, from, name *Term
	s.each(func(f *Facts, o *Outcome, at string) {
		if f.eval(isNilT(o.Res[3])) != yes || f.eval(s.more()) != yes {
			return
		}
		if len(s.pieces(f, o.Res[1])) == 0 {
			if c, fr, ok := s.tail(f, o.Res[0], t, s.k); ok && c != nil {
				made, from = c, fr
			}
		} else if n := s.pieces(f, o.Res[0]); len(n) == 1 && isWiden(n[0].base) {
			name = n[0].base
		}
	})
	if !s.ob(made != nil && from != nil && name != nil && name != made, "text", s.id, "the value name and the pattern aren't taken from the characters that the loop reads") {
		return
	}
	esc := tAnd(tLt(tInt(1), s.k), tEqC(charAt(t, tAdd(s.k, tInt(-1))), '\\'))
	// the depth, the class and the variables that tell whether the name ended
	var depth, class *Term
	var modes []*Term
	for _, v := range sortedTerms(bs[0].Next) {
		if v == made || v == from || v == name || v == s.k {
			continue
		}
		up, down, toK, changes, steady := false, false, false, false, true
		for _, b := range bs {
			n := next(b, v)
			switch {
			case n == nil || n == v:
			case n == tAdd(v, tInt(1)) && b.St.facts.eval(s.isChar('{')) == yes:
				up = true
			case n == tAdd(v, tInt(-1)) && b.St.facts.eval(s.isChar('}')) == yes:
				down = true
			case n == s.k && b.St.facts.eval(s.isChar('[')) == yes:
				toK = true
			}
			moved := next(b, name) != name
			if moved != (n != nil && n != v) {
				steady = false
			}
			changes = changes || moved
		}
		switch {
		case up || down:
			depth = v
		case toK:
			class = v
		case changes && steady:
			modes = append(modes, v)
		}
	}
	if !s.ob(depth != nil && class != nil, "state", s.id, "the variables that count the open curly braces and hold the character class's place weren't recognised") {
		return
	}
	// the two values of the variables that tell whether the name has ended
	var before, after []*Term
	for _, v := range modes {
		i := initial(bs[0], v)
		if i == nil {
			continue
		}
		if w, ok := i.boolVal(); ok {
			c := v
			if !w {
				c = tNot(v)
			}
			before, after = append(before, c), append(after, tNot(c))
			continue
		}
		a, ok := i.intVal()
		if !ok {
			continue
		}
		var vals []int64
		for _, b := range bs {
			if n := next(b, v); n != nil && n != v {
				for w := a - 4; w <= a+4; w++ {
					if w != a && b.St.facts.eval(tEqC(n, w)) == yes {
						vals = append(vals, w)
					}
				}
			}
		}
		same := len(vals) > 0
		for _, w := range vals {
			same = same && w == vals[0]
		}
		if same {
			before, after = append(before, tEqC(v, a)), append(after, tEqC(v, vals[0]))
		}
	}
	if len(before) == 0 {
		before, after = []*Term{tEqC(tLen(name), 0)}, []*Term{tNot(tEqC(tLen(name), 0))}
	}
	inName := func(f *Facts) tri { return f.eval(before[0]) }
	modeFork := func(f *Facts, k func(f *Facts)) {
		for i, conds := range [][]*Term{before, after} {
			fs := []*Facts{f}
			if i == 0 {
				// a character class is open only in the pattern
				conds = append(append([]*Term{}, conds...), tLt(class, tInt(0)))
			}
			for _, c := range conds {
				var r []*Facts
				for _, f := range fs {
					r = append(r, f.assume(c, true)...)
				}
				fs = r
			}
			for _, f := range fs {
				k(f)
			}
		}
	}
	// the start
	for _, b := range bs {
		at := s.c.at(b.Fn, b.Fn.Pos())
		f := b.St.facts
		for _, x := range []struct {
			v    *Term
			want *Term
			what string
		}{{s.k, tInt(1), "the first character"}, {from, tInt(1), "the beginning of the name"}, {depth, tInt(1), "the count of curly braces"}} {
			i := initial(b, x.v)
			s.ob(i != nil && samePlace(f, i, x.want), "start", at, "%s is %s", x.what, i)
		}
		i := initial(b, class)
		s.ob(i != nil && f.eval(tLt(i, tInt(0))) == yes, "start", at, "the place of the character class is %s at first", i)
		s.ob(isNone(initial(b, made)) && isNone(initial(b, name)), "start", at, "the name begins with a text")
	}
	inClass := tLt(tInt(-1), class)
	// the state of the reader decides what has to happen
	type want struct {
		ends    bool // a result
		what    string
		fails   bool
		name    []*Term // the name read
		pat     bool
		k       *Term
		depth   int64
		class   string // "", "open", "close"
		taken   []*Term
		switch_ bool
	}
	specIn := func(f *Facts, at string, k func(f *Facts, w want)) {
		fork(f, s.isChar('{'), func(f *Facts, open bool) {
			fork(f, s.isChar('}'), func(f *Facts, closed bool) {
				switch inName(f) {
				case yes:
					switch {
					case open:
						k(f, want{what: "a curly brace in the name", k: k1, depth: 1})
					case closed:
						fork(f, tLt(tInt(1), depth), func(f *Facts, inner bool) {
							if inner {
								k(f, want{what: "a closing curly brace in the name", k: k1, depth: -1})
								return
							}
							n := s.pend(made, from, s.k)
							if len(s.pieces(f, n...)) == 0 {
								k(f, want{what: "an empty segment", ends: true, fails: true})
								return
							}
							k(f, want{what: "the end of a segment without a pattern", ends: true, name: n})
						})
					default:
						fork(f, s.isChar(':'), func(f *Facts, colon bool) {
							if !colon {
								k(f, want{what: "a character of the name", k: k1})
								return
							}
							fork(f, tLt(tInt(1), s.k), func(f *Facts, later bool) {
								e := no
								if later {
									e = f.eval(esc)
								}
								s.ob(e != unk, "colon", at, "it isn't examined whether a colon is escaped [path: %s]", clip(f.String(), 500))
								if e == yes {
									k(f, want{what: "an escaped colon", k: k1, taken: append(s.pend(made, from, tAdd(s.k, tInt(-1))), tStr(":"))})
									return
								}
								fork(f, tLt(tInt(1), depth), func(f *Facts, inner bool) {
									n := s.pend(made, from, s.k)
									switch {
									case inner:
										k(f, want{what: "an open curly brace in the name", ends: true, fails: true})
									case len(s.pieces(f, n...)) == 0 || f.eval(tEqC(tLen(tConcat(n[0], n[1])), 0)) == yes:
										k(f, want{what: "an empty name", ends: true, fails: true})
									default:
										k(f, want{what: "the end of the name", switch_: true, name: n, k: k1})
									}
								})
							})
						})
					}
				case no:
					if !open && !closed {
						fork(f, s.isChar('\\'), func(f *Facts, b bool) {
							if b {
								k(f, want{what: "a backslash in the pattern", k: tAdd(s.k, tInt(2))})
								return
							}
							fork(f, inClass, func(f *Facts, in bool) {
								if !in {
									fork(f, s.isChar('['), func(f *Facts, b bool) {
										if b {
											k(f, want{what: "the beginning of a character class", k: k1, class: "open"})
										} else {
											k(f, want{what: "a character of the pattern", k: k1})
										}
									})
									return
								}
								fork(f, s.isChar(']'), func(f *Facts, b bool) {
									if !b {
										k(f, want{what: "a character of a character class", k: k1})
										return
									}
									d := tSub(s.k, class)
									fs := f.assume(tLt(tInt(0), d), true)
									if len(fs) != 1 {
										return
									}
									fork(fs[0], tLt(tInt(1), d), func(f *Facts, far bool) {
										if !far && f.eval(tEq(s.k, tAdd(class, tInt(1)))) == no {
											return
										}
										if !far {
											k(f, want{what: "a bracket at the beginning of a character class", k: k1})
											return
										}
										fork(f, tEqC(d, 2), func(f *Facts, second bool) {
											if !second {
												k(f, want{what: "the end of a character class", k: k1, class: "close"})
												return
											}
											fork(f, tEqC(charAt(t, tAdd(s.k, tInt(-1))), '^'), func(f *Facts, neg bool) {
												if neg {
													k(f, want{what: "a bracket at the beginning of a negated character class", k: k1})
												} else {
													k(f, want{what: "the end of a character class", k: k1, class: "close"})
												}
											})
										})
									})
								})
							})
						})
						return
					}
					fork(f, inClass, func(f *Facts, in bool) {
						switch {
						case in:
							k(f, want{what: "a curly brace in a character class", k: k1})
						case open:
							k(f, want{what: "a curly brace in the pattern", k: k1, depth: 1})
						default:
							fork(f, tLt(tInt(1), depth), func(f *Facts, inner bool) {
								if inner {
									k(f, want{what: "a closing curly brace in the pattern", k: k1, depth: -1})
									return
								}
								fork(f, tEq(s.k, from), func(f *Facts, empty bool) {
									if empty {
										k(f, want{what: "an empty pattern", ends: true, fails: true})
									} else {
										k(f, want{what: "the end of a segment with a pattern", ends: true, name: []*Term{name}, pat: true})
									}
								})
							})
						}
					})
				default:
					s.ob(false, "state", at, "it isn't known whether the name has ended [path: %s]", clip(f.String(), 500))
				}
			})
		})
	}
	spec := func(f *Facts, at string, k func(f *Facts, w want)) {
		modeFork(f, func(f *Facts) { specIn(f, at, k) })
	}
	inv := tLt(tInt(0), depth)
	for _, b := range bs {
		at := s.c.at(b.Fn, b.Fn.Pos())
		for _, f := range b.St.facts.assume(inv, true) {
			spec(f, at, func(f *Facts, w want) {
				if !s.ob(!w.ends, w.what, at, "%s doesn't end the segment [path: %s]", w.what, clip(f.String(), 500)) {
					return
				}
				n := next(b, s.k)
				s.ob(n != nil && samePlace(f, n, w.k), w.what, at, "after %s, the character at %s is read", w.what, n)
				n = next(b, depth)
				s.ob(n != nil && samePlace(f, n, tAdd(depth, tInt(w.depth))), w.what, at, "after %s, the count of open curly braces is %s", w.what, n)
				n = next(b, class)
				switch w.class {
				case "open":
					s.ob(n != nil && samePlace(f, n, s.k), w.what, at, "after %s, its place is %s", w.what, n)
				case "close":
					s.ob(n != nil && f.eval(tLt(n, tInt(0))) == yes, w.what, at, "after %s, the place of the character class is %s [path: %s]", w.what, n, clip(f.String(), 700))
				default:
					s.ob(n == class, w.what, at, "after %s, the place of the character class is %s [path: %s]", w.what, n, clip(f.String(), 700))
				}
				if w.switch_ {
					s.is(f, w.what, at, []*Term{next(b, name)}, w.name)
					nf := next(b, from)
					s.ob(nf != nil && samePlace(f, nf, k1), w.what, at, "the pattern begins at %s", nf)
					moved := false
					for _, v := range modes {
						moved = moved || next(b, v) != v
					}
					s.ob(moved || len(modes) == 0, w.what, at, "the name doesn't end")
					return
				}
				s.ob(next(b, name) == name, w.what, at, "after %s, the name is %s", w.what, next(b, name))
				for _, v := range modes {
					s.ob(next(b, v) == v, w.what, at, "%s ends the name", w.what)
				}
				if w.taken != nil {
					s.is(f, w.what, at, s.pend(next(b, made), next(b, from), k1), w.taken)
				} else if inName(f) == yes {
					s.is(f, w.what, at, s.pend(next(b, made), next(b, from), k1), s.pend(made, from, k1))
				} else {
					s.ob(next(b, from) == from, w.what, at, "%s moves the beginning of the pattern to %s", w.what, next(b, from))
				}
			})
		}
	}
	s.each(func(f *Facts, o *Outcome, at string) {
		for _, f := range f.assume(inv, true) {
			if f.eval(s.more()) == no {
				s.invalid(f, o, at, "a segment without an end")
				continue
			}
			spec(f, at, func(f *Facts, w want) {
				if !s.ob(w.ends, w.what, at, "%s ends the segment [path: %s]", w.what, clip(f.String(), 500)) {
					return
				}
				if w.fails {
					s.invalid(f, o, at, w.what)
					return
				}
				if !s.valid(f, o, at, w.what) {
					return
				}
				s.is(f, w.what+": the name", at, o.Res[:1], w.name)
				var pat []*Term
				if w.pat {
					pat = []*Term{tSlice(t, from, s.k)}
				}
				s.is(f, w.what+": the pattern", at, o.Res[1:2], pat)
				s.is(f, w.what+": what is left", at, o.Res[2:3], []*Term{tSlice(t, k1, tNil())})
			})
		}
	})
}

func sortedTerms(m map[*Term]*Term) []*Term {
	var r []*Term
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// ---------------------------------------------------------------------------

// escapings finds the loops that write texts with backslashes in front of some
// of their characters.
func (s *textSpec) escapings() {
	s.made = map[*Term]*escaping{}
	for l, x := range s.charLoops() {
		s.escapeByChars(l, x[0], x[1])
	}
	seen := map[string]bool{}
	for i := range s.rr.ip.backedges {
		b := &s.rr.ip.backedges[i]
		if seen[b.Loop] {
			continue
		}
		seen[b.Loop] = true
		if x, r := s.searches(b.Loop); x != nil {
			s.escapeByColons(b.Loop, x, r)
		}
	}
}

// grown are the texts that a loop adds to.
func (s *textSpec) grown(loop string) (r []*Term) {
	bs := s.steps(loop)
	for _, v := range sortedTerms(bs[0].Next) {
		for _, b := range bs {
			n := next(b, v)
			if n != nil && n != v && n.Op == "concat" && n.A[0] == v {
				r = append(r, v)
				break
			}
		}
	}
	return r
}

func (s *textSpec) escapeByChars(loop string, t, k *Term) {
	s.t, s.k = t, k
	defer func() { s.t, s.k = nil, nil }()
	bs := s.steps(loop)
	for _, made := range s.grown(loop) {
		// the place from which on the text wasn't written yet
		var from *Term
		for _, b := range bs {
			for _, p := range s.pieces(b.St.facts, next(b, made)) {
				if p.base == t && p.set == "" && !samePlace(b.St.facts, p.lo, k) {
					from = p.lo
				}
			}
		}
		if from == nil {
			for _, v := range sortedTerms(bs[0].Next) {
				if n := next(bs[0], v); v != made && n != nil && v.Op == "widen" && samePlace(bs[0].St.facts, n, v) && initial(bs[0], v) == tInt(0) {
					from = v
				}
			}
		}
		if from == nil {
			from = k
		}
		set := ""
		good := true
		var good1 string
		for _, b := range bs {
			at := s.c.at(b.Fn, b.Fn.Pos())
			_ = at
			if from != k {
				if i := initial(b, from); i == nil || !samePlace(b.St.facts, i, tInt(0)) {
					good, good1 = false, "it doesn't begin with the first character"
				}
			}
			if k.Op != "rkey" {
				i, n := initial(b, k), next(b, k)
				if i == nil || !samePlace(b.St.facts, i, tInt(0)) || n == nil || !samePlace(b.St.facts, n, tAdd(k, tInt(1))) {
					good, good1 = false, "it doesn't go through all characters"
				}
			}
		}
		for _, c := range []string{"{}", ":"} {
			all := true
			why := ""
			for _, b := range bs {
				s.eachSpecial(b.St.facts, c, func(f *Facts, ch string) {
					k1 := s.placeAfter(f, t, k)
					got := s.pieces(f, s.pend(next(b, made), s.nextFrom(b, from, k1), k1)...)
					want := s.pieces(f, s.pend(made, from, k1)...)
					if ch != "" {
						want = s.pieces(f, append(s.pend(made, from, k), tStr("\\"+ch))...)
					}
					if !s.eqPieces(f, got, want) {
						all = false
						why = fmt.Sprintf("the text becomes %s and not %s [path: %s]", showPieces(got), showPieces(want), clip(f.String(), 400))
					}
				})
			}
			if all {
				set = c
			} else if good1 == "" {
				good1 = why
			}
		}
		if !s.ob(good && set != "", "escaping", s.id+" "+loop, "a loop over a text's characters doesn't escape them: %s", good1) {
			continue
		}
		e := &escaping{set: set, text: t}
		if from != k {
			e.from = from
		}
		more := s.more()
		e.done = func(f *Facts) bool { return f.eval(more) == no }
		e.init = s.initOf(bs, made)
		s.made[made] = e
	}
}

// initOf is the text before the loop.
func (s *textSpec) initOf(bs []*BackEdge, made *Term) func(f *Facts) *Term {
	return func(f *Facts) *Term { return initial(bs[0], made) }
}

func (s *textSpec) eachSpecial(f *Facts, set string, k func(f *Facts, ch string)) {
	if set == "" {
		k(f, "")
		return
	}
	fork(f, s.isChar(set[0]), func(f *Facts, is bool) {
		if is {
			k(f, set[:1])
			return
		}
		s.eachSpecial(f, set[1:], k)
	})
}

func (s *textSpec) escapeByColons(loop string, colon, rest *Term) {
	bs := s.steps(loop)
	base, off := rest, tInt(0)
	if rest.Op == "slice" {
		base, off = strip(rest.A[0]), rest.A[1]
	}
	sub := func(lo, hi *Term) *Term {
		if !hi.isNil() {
			hi = tAdd(off, hi)
		}
		return tSlice(base, tAdd(off, lo), hi)
	}
	for _, made := range s.grown(loop) {
		good, why := true, ""
		var text *Term
		for _, b := range bs {
			f := b.St.facts
			var left, first *Term
			if rest.Op == "slice" {
				left, first = tSlice(base, next(b, off), tNil()), tSlice(base, initial(b, off), tNil())
			} else {
				left, first = next(b, rest), initial(b, rest)
			}
			if text != nil && first != text || first == nil {
				good, why = false, "it isn't about one text"
				continue
			}
			text = first
			if f.eval(tLt(tInt(-1), colon)) != yes {
				good, why = false, "an iteration isn't about a colon"
				continue
			}
			got := s.pieces(f, next(b, made), left)
			want := s.pieces(f, made, sub(tInt(0), colon), tStr("\\:"), sub(tAdd(colon, tInt(1)), tNil()))
			if !s.eqPieces(f, got, want) {
				good, why = false, fmt.Sprintf("the text becomes %s and not %s", showPieces(got), showPieces(want))
			}
		}
		if !s.ob(good && text != nil, "escaping", s.id+" "+loop, "a loop over a text's colons doesn't escape them: %s", why) {
			continue
		}
		e := &escaping{set: ":", text: text}
		if rest.Op == "slice" {
			e.from = off
			over := tNot(tLt(off, tLen(base)))
			e.done = func(f *Facts) bool { return f.eval(tLt(colon, tInt(0))) == yes || f.eval(over) == yes }
		} else {
			e.rest = rest
			e.done = func(f *Facts) bool { return f.eval(tLt(colon, tInt(0))) == yes || f.eval(tEqC(tLen(rest), 0)) == yes }
		}
		e.init = s.initOf(bs, made)
		s.made[made] = e
	}
}

func escTerm(set string, t *Term) *Term {
	r := t
	for i := range set {
		r = mk("call", "strings.ReplaceAll", types.Typ[types.String], r, tStr(set[i:i+1]), tStr("\\"+set[i:i+1]))
	}
	return r
}

// content judges Content and UnescapedContent.
func (s *textSpec) content(escape bool) {
	p := s.c.p
	self := s.rr.ps[0]
	ts := tmplSpec{c: s.c, rr: s.rr, self: self, rule: s.rule, id: s.id}
	list := p.fld(self, "slices")
	s.escapings()
	esc := func(set string, t *Term) *Term {
		if escape {
			return escTerm(set, t)
		}
		return t
	}
	// the text as a whole
	var made *Term
	s.each(func(f *Facts, o *Outcome, at string) {
		r := strip(o.Res[0])
		if isWiden(r) && s.made[r] == nil {
			s.ob(made == nil || made == r, "text", at, "the text is made by several loops")
			made = r
		} else {
			s.ob(isNone(r) && f.eval(tEqC(tLen(list), 0)) == yes, "text", at, "the text is %s [path: %s]", clip(r.String(), 200), clip(f.String(), 400))
		}
	})
	if !s.ob(made != nil, "text", s.id, "the text isn't made by a loop over the segments") {
		return
	}
	marks := map[*Term]bool{}
	for _, b := range s.rr.ip.stepsOf(made) {
		at := s.c.at(b.Fn, b.Fn.Pos())
		f := b.St.facts
		var i *Term
		for _, x := range indexes(f, list) {
			if walk(x, list) == "up" && f.eval(tLt(x, tLen(list))) == yes {
				i = x
			}
		}
		if !s.ob(i != nil, "segment", at, "an iteration isn't about the next segment") {
			continue
		}
		// the beginning
		ini := strip(b.Init[made])
		if !escape {
			s.ob(isNone(ini), "beginning", at, "the text begins with %s", ini)
		} else {
			first, _, _, _ := ts.seg(self, tInt(0))
			fork(f, tEqC(tLen(p.fld(self, "name")), 0), func(f *Facts, unnamed bool) {
				fork(f, tEqC(tLen(first), 0), func(f *Facts, none bool) {
					dollar := func(f *Facts, is bool) {
						if is {
							s.ob(ini == tStr("\\"), "beginning", at, "the dollar sign at the beginning of a template without a name isn't escaped: it begins with %s", ini)
						} else {
							s.ob(isNone(ini), "beginning", at, "the text begins with %s [path: %s]", ini, clip(f.String(), 400))
						}
					}
					if !unnamed || none {
						dollar(f, false)
						return
					}
					fork(f, firstIs(first, '$'), dollar)
				})
			})
		}
		static, vp, name, re := ts.seg(self, i)
		_ = vp
		fork(f, tEqC(tLen(static), 0), func(f *Facts, dynamic bool) {
			if !dynamic {
				s.is(f, "a static segment", at, []*Term{next(b, made)}, []*Term{made, esc("{}", static)})
				return
			}
			begin := []*Term{made, tStr("{"), esc(":", name)}
			fork(f, isNilT(re), func(f *Facts, wild bool) {
				if wild {
					s.is(f, "a wildcard segment", at, []*Term{next(b, made)}, append(begin, tStr("}")))
					return
				}
				again := s.seenBefore(f, name)
				if !s.ob(again != unk, "repetition", at, "it isn't examined whether the segment is a repetition [path: %s]", clip(f.String(), 700)) {
					return
				}
				if again == yes {
					s.is(f, "a repeated regexp segment", at, []*Term{next(b, made)}, append(begin, tStr("}")))
					return
				}
				s.is(f, "a regexp segment", at, []*Term{next(b, made)},
					append(begin, tStr(":"), mk("call", "(*regexp.Regexp).String", types.Typ[types.String], re), tStr("}")))
				marked := false
				for _, e := range effects(b.St.trace[b.Head:], "mapset") {
					if len(e.Args) == 2 && e.Args[0] == name && f.eval(e.Args[1]) == yes {
						marked = true
						marks[e.Target] = true
					}
				}
				s.ob(marked, "repetition", at, "a regexp segment isn't remembered, so that its repetition repeats the pattern")
			})
		})
		// what is remembered stays
		for _, e := range b.St.trace[b.Head:] {
			if e.Kind == "mapset" && len(e.Args) == 2 && e.Args[1] == tBool(false) || e.Kind == "mapdel" || e.Kind == "clear" {
				s.ob(false, "repetition", at, "a regexp segment is forgotten")
			}
		}
		for v, n := range b.Next {
			if n != nil && isWiden(v) && strip(n).Op == "mkmap" {
				s.ob(f.eval(isNilT(v)) == yes, "repetition", at, "the segments that were remembered are dropped")
			}
		}
	}
	s.ob(len(marks) > 0, "repetition", s.id, "no regexp segment is remembered")
}

// seenBefore: the name is among the remembered ones.
func (s *textSpec) seenBefore(f *Facts, name *Term) tri {
	r := unk
	f.find(func(x *Term) bool {
		for y := x; y != nil && len(y.A) > 0; y = y.A[0] {
			if y.Op == "mapslot" || y.Op == "mapok" || y.Op == "mapval" || y.Op == "mapget" {
				if len(y.A) == 2 && y.A[1] == name {
					if v := f.eval(x); v != unk {
						r = v
					}
				}
				return false
			}
		}
		return false
	})
	return r
}

// full judges String.
func (s *textSpec) full() {
	self := s.rr.ps[0]
	name := s.c.p.fld(self, "name")
	s.escapings()
	s.each(func(f *Facts, o *Outcome, at string) {
		cont := mk("call", "Content", nil, unbase(self))
		fork(f, tEqC(tLen(name), 0), func(f *Facts, unnamed bool) {
			want := []*Term{cont}
			if !unnamed {
				want = []*Term{tStr("$"), escTerm(":", name), tStr(":"), cont}
			}
			s.is(f, "the template's text", at, o.Res[:1], want)
		})
	})
}

func checkP44(c *Checker) {
	for _, x := range []struct {
		rule, typ, name, what string
		pure                  map[string]bool
		judge                 func(s *textSpec)
	}{
		{"name", "-", "templateNameAndContent", "the name is what is between the dollar sign and the first colon that isn't escaped, without the backslashes of escaped colons; the content is what follows; an escaped dollar sign loses its backslash", nil, (*textSpec).name},
		{"static segment", "-", "staticSegment", "the segment ends before the first open curly brace that isn't escaped, escaped curly braces lose their backslash, and a closing one that isn't escaped is an error", nil, (*textSpec).static},
		{"dynamic segment", "-", "dynamicSegment", "the value name ends at the first colon that isn't escaped, or at the closing curly brace; the pattern ends at the curly brace that closes the segment, and curly braces that are escaped or in a character class don't count; a segment without an end, a name or a pattern is an error", nil, (*textSpec).dynamic},
		{"content", "Template", "Content", "curly braces of static segments, colons of value names and the dollar sign at the beginning of a template without a name are escaped; a pattern is written once", nil, func(s *textSpec) { s.content(true) }},
		{"unescaped content", "Template", "UnescapedContent", "the segments in their order as they are; a pattern is written once", nil, func(s *textSpec) { s.content(false) }},
		{"text", "Template", "String", "the name after a dollar sign with its colons escaped, a colon, and the content", set("Content"), (*textSpec).full},
	} {
		c.rule(x.rule + ": " + x.what)
		if s := c.textRun(x.rule, x.typ, x.name, x.pure); s != nil {
			x.judge(s)
		}
	}
}

func init() {
	register("P44", "Every abstract path and every iteration of the functions that read a template's name and segments and of those that write a template's text is compared with a specification of what is taken from the text, what is escaped and what is rejected.", checkP44)
}
