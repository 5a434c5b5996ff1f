package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The order of the pairs: what sorts them sorts them.

// checkOrder judges the functions that sort the pairs by method.
func (c *Checker) checkOrder(sorts []*ssa.Function) {
	p := c.p
	done := map[*ssa.Function]bool{}
	for _, g := range sorts {
		if done[g] {
			continue
		}
		done[g] = true
		c.analysed[p.short(g)] = true
		name := p.short(g)
		rec := p.recursiveFrom(g)
		ip := p.newInterp()
		ip.Opaque = func(f *ssa.Function) bool { return rec != nil && f == rec && g != rec }
		ps := params(g)
		list := ps[0]
		if g != rec {
			outs := c.run(ip, newState(), g, ps)
			for _, o := range outs {
				if o.Kind != "return" {
					continue
				}
				at := c.at(o.In, o.Pos)
				f := o.St.facts
				short := f.eval(tLt(tLen(list), tInt(2))) == yes
				n := 0
				for _, e := range o.St.trace {
					switch {
					case e.Kind == "opaque" && e.Callee == rec && rec != nil:
						if len(e.Args) == 3 && e.Args[0] == list && f.eval(tEq(e.Args[1], tInt(0))) == yes &&
							f.eval(tEq(e.Args[2], tAdd(tLen(list), tInt(-1)))) == yes {
							n++
						} else {
							n += 2
						}
					case strings.HasPrefix(e.Name, "sort.Slice") || strings.HasPrefix(e.Name, "slices.SortFunc") || strings.HasPrefix(e.Name, "slices.SortStableFunc"):
						n++
						c.ob(c.lessByMethod(e, list), "sorted", name+": comparison", at, "the pairs aren't compared by their methods in ascending order")
					}
				}
				c.ob(n == 1 || short && n == 0, "sorted", name+": whole", at, "the list isn't sorted once, as a whole")
			}
		}
		if rec != nil {
			c.partitions(rec)
		}
	}
	if len(sorts) > 0 {
		c.min("sorted", 1)
	}
}

// recursiveFrom finds the function on a list of pairs and two indexes that
// calls itself.
func (p *Prog) recursiveFrom(g *ssa.Function) *ssa.Function {
	for _, f := range p.reached([]*ssa.Function{g}) {
		if len(f.Params) != 3 || !named(f.Params[0].Type(), "_MethodHandlerPairs") {
			continue
		}
		within := map[*ssa.Function]bool{}
		for _, h := range p.reached([]*ssa.Function{f}) {
			within[h] = true
		}
		for _, cs := range p.callers[f] {
			if within[cs.in] {
				return f
			}
		}
	}
	return nil
}

// lessByMethod judges the comparison given to a sort function.
func (c *Checker) lessByMethod(e *Event, list *Term) bool {
	method, _ := c.p.pairFields()
	for _, a := range e.Args {
		fn, _ := c.p.termFn(strip(a))
		if fn == nil {
			continue
		}
		ip := c.p.newInterp()
		ps := params(fn)
		outs := c.run(ip, newState(), fn, ps)
		for _, o := range outs {
			if o.Kind != "return" || len(o.Res) != 1 {
				return false
			}
			r := strip(o.Res[0])
			if len(r.A) != 2 || !(r.Op == "slt" || r.Op == "lt" && r.Aux == "0" || r.Op == "call" && (r.Aux == "strings.Compare" || strings.HasPrefix(r.Aux, "cmp.Compare"))) {
				return false
			}
			for i := 0; i < 2; i++ {
				x := r.A[i]
				if !mentionsField(x, method) || !mentions(x, ps[i]) || mentions(x, ps[1-i]) {
					return false
				}
			}
		}
		return len(outs) > 0
	}
	return false
}

func mentionsField(t *Term, field string) bool {
	if (t.Op == "faddr" || t.Op == "fld") && t.Aux == field {
		return true
	}
	for _, x := range t.A {
		if mentionsField(x, field) {
			return true
		}
	}
	return false
}

// sorting is the run of a function that partitions a part of a list and calls
// itself for both parts.
type sorting struct {
	c      *Checker
	ip     *Interp
	rec    *ssa.Function
	list   *Term
	l, h   *Term
	p      *Term // pivot
	method string
	name   string
}

// elem is the index of the element whose field the value is.
func (s *sorting) elem(v *Term, field string) *Term {
	v = strip(v)
	if (v.Op == "init" || v.Op == "widen") && len(v.A) == 1 {
		if a := v.A[0]; a.Op == "faddr" && a.Aux == field && a.A[0].Op == "iaddr" && a.A[0].A[0] == s.list {
			return a.A[0].A[1]
		}
	}
	return nil
}

// less: the element at x is known to be less than the pivot (or, with above,
// the pivot less than it).
func (s *sorting) less(f *Facts, x *Term, above bool) tri {
	r := unk
	for k := range f.b {
		if k.Op != "slt" && !(k.Op == "lt" && k.Aux == "0") {
			continue
		}
		a, b := k.A[0], k.A[1]
		if above {
			a, b = b, a
		}
		if b == s.p && s.elem(a, s.method) == x {
			if v := f.eval(k); v != unk {
				r = v
			}
		}
	}
	return r
}

// root is the bound that an index started from.
func (s *sorting) root(x *Term) *Term {
	for n := 0; n < 20; n++ {
		m, _ := linear(x)
		var t *Term
		for k, by := range m {
			if k.Op == "ind" {
				continue
			}
			if t != nil || by != 1 {
				return nil
			}
			t = k
		}
		if t == nil {
			return nil
		}
		if t.Op != "widen" {
			return t
		}
		x = nil
		for i := range s.ip.backedges {
			if v := s.ip.backedges[i].Init[t]; v != nil {
				x = v
			}
		}
		if x == nil {
			return nil
		}
	}
	return nil
}

// swaps are the pairs of indexes whose elements were exchanged; "" or what's
// wrong with the stores.
func (s *sorting) swaps(tr []*Event) (m map[*Term]*Term, wrong string) {
	type slot struct {
		x *Term
		f string
	}
	got := map[slot]*Term{}
	for _, e := range tr {
		if e.Kind != "store" {
			continue
		}
		a := e.Target
		if a.Op == "iaddr" && a.A[0] == s.list {
			return nil, "an element is overwritten"
		}
		if a.Op != "faddr" || a.A[0].Op != "iaddr" || a.A[0].A[0] != s.list {
			continue
		}
		y := s.elem(e.Args[0], a.Aux)
		if y == nil || got[slot{a.A[0].A[1], a.Aux}] != nil {
			return nil, "an element gets something else than another element"
		}
		got[slot{a.A[0].A[1], a.Aux}] = y
	}
	m = map[*Term]*Term{}
	st := s.c.p.lookupType("_MethodHandlerPair").Underlying().(*types.Struct)
	for k, y := range got {
		if m[k.x] != nil && m[k.x] != y {
			return nil, "an element is put together from several"
		}
		m[k.x] = y
		for i := 0; i < st.NumFields(); i++ {
			if got[slot{y, st.Field(i).Name()}] != k.x || got[slot{k.x, st.Field(i).Name()}] != y {
				return nil, "two elements aren't exchanged as a whole"
			}
		}
	}
	return m, ""
}

func (c *Checker) partitions(rec *ssa.Function) {
	p := c.p
	s := &sorting{c: c, rec: rec, ip: p.newInterp(), name: p.short(rec)}
	s.method, _ = p.pairFields()
	c.analysed[s.name] = true
	ps := params(rec)
	s.list, s.l, s.h = ps[0], ps[1], ps[2]
	s.ip.Opaque = func(f *ssa.Function) bool { return f == rec }
	outs := c.run(s.ip, newState(), rec, ps)
	ob := func(ok bool, site, at, format string, args ...any) {
		c.ob(ok, "sorted", s.name+": "+site, at, format, args...)
	}
	// the pivot is the method of the element in the middle, read before the
	// elements are exchanged
	mid := func(x *Term) bool {
		switch x {
		case tAdd(s.l, mk("bin", "/", nil, mk("bin", "-", nil, s.h, s.l), tInt(2))),
			mk("bin", "/", nil, tAdd(s.l, s.h), tInt(2)),
			mk("bin", ">>", nil, tAdd(s.l, s.h), tInt(1)),
			tAdd(s.l, mk("bin", ">>", nil, mk("bin", "-", nil, s.h, s.l), tInt(1))):
			return true
		}
		return false
	}
	pivots := map[*Term]bool{}
	look := func(f *Facts) {
		for k := range f.b {
			if k.Op == "slt" || k.Op == "lt" && k.Aux == "0" {
				for _, x := range k.A {
					if e := s.elem(x, s.method); e != nil && x.Op == "init" && mid(e) {
						pivots[x] = true
					}
				}
			}
		}
	}
	for i := range s.ip.backedges {
		look(s.ip.backedges[i].St.facts)
	}
	for i := range outs {
		look(outs[i].St.facts)
	}
	if len(pivots) != 1 {
		ob(false, "pivot", p.at(rec, rec.Pos()), "the elements aren't compared with the method of the one in the middle")
		return
	}
	for x := range pivots {
		s.p = x
	}
	for i := range s.ip.backedges {
		b := &s.ip.backedges[i]
		at := c.at(b.Fn, b.Fn.Pos())
		f := b.St.facts
		sw, wrong := s.swaps(b.St.trace[b.Head:])
		ob(wrong == "", "exchange", at, "%s", wrong)
		if wrong != "" {
			continue
		}
		for k, next := range b.Next {
			if next == nil || !s.index(k) {
				continue
			}
			r := s.root(k)
			x, by := splitAdd(next)
			if r == nil || s.root(next) != r || r != s.l && r != s.h || x == nil {
				ob(false, "steps", at, "an index isn't moved from its bound on [%s]", clip(next.String(), 200))
				continue
			}
			if y, _ := splitAdd(k); y == x || k == x {
				by -= addOf(k)
			}
			switch {
			case by == 0:
				ob(true, "steps", at, "")
			case by == 1 && r == s.l:
				ok := s.less(f, x, false) == yes && sw[x] == nil || sw[x] != nil && s.less(f, sw[x], true) == no
				ob(ok, "steps: up", at, "an element that isn't known to be less than the pivot is left on the left")
			case by == -1 && r == s.h:
				ok := s.less(f, x, true) == yes && sw[x] == nil || sw[x] != nil && s.less(f, sw[x], false) == no
				ob(ok, "steps: down", at, "an element that isn't known to be greater than the pivot is left on the right")
			default:
				ob(false, "steps", at, "an index doesn't go on by one")
			}
		}
	}
	for i := range outs {
		o := &outs[i]
		if o.Kind != "return" {
			continue
		}
		at := c.at(o.In, o.Pos)
		f := o.St.facts
		var calls []*Event
		for _, e := range o.St.trace {
			if e.Kind == "opaque" && e.Callee == rec {
				calls = append(calls, e)
			}
		}
		sw, wrong := s.swaps(o.St.trace)
		ob(wrong == "" && len(sw) == 0, "exchange", at, "elements are exchanged after the partition")
		if f.eval(tLt(s.l, s.h)) == no {
			ob(len(calls) == 0, "end", at, "a part with less than two elements isn't the end")
			continue
		}
		var a, b *Term // the parts are l..a and b..h
		ok := true
		for _, e := range calls {
			switch {
			case len(e.Args) != 3 || e.Args[0] != s.list:
				ok = false
			case e.Args[1] == s.l && a == nil:
				a = e.Args[2]
			case e.Args[2] == s.h && b == nil:
				b = e.Args[1]
			default:
				ok = false
			}
		}
		// a part with less than two elements needs no call
		if a == nil {
			for x := range s.idx(f) {
				if s.root(x) == s.h && x != s.h && f.eval(tLt(s.l, x)) == no {
					a = x
				}
			}
		}
		if b == nil {
			for x := range s.idx(f) {
				if s.root(x) == s.l && x != s.l && f.eval(tLt(x, s.h)) == no {
					b = x
				}
			}
		}
		ob(ok && a != nil && b != nil, "parts", at, "the function isn't called once for the left and once for the right part")
		if !ok || a == nil || b == nil {
			continue
		}
		// some pair of indexes that met
		met := false
		for x := range s.idx(f, a, b) {
			for y := range s.idx(f, a, b) {
				if s.root(x) != s.l || s.root(y) != s.h || f.eval(tLt(x, y)) != no {
					continue
				}
				past := f.eval(tLt(y, x)) == yes
				switch {
				case a == y && b == tAdd(y, tInt(1)):
					met = met || past || s.less(f, y, true) == no
				case b == x && a == tAdd(x, tInt(-1)):
					met = met || past || s.less(f, x, false) == no
				case a == y && b == x:
					met = met || past
				}
			}
		}
		ob(met, "meet", at, "the parts aren't those up to and from where the indexes met")
	}
}

// idx are the indexes that the facts and the parts are about.
func (s *sorting) idx(f *Facts, ts ...*Term) map[*Term]bool {
	r := map[*Term]bool{}
	add := func(t *Term) {
		if t == nil {
			return
		}
		if x, _ := splitAdd(t); x != nil {
			r[x] = true
		}
		r[t] = true
	}
	for _, t := range ts {
		add(t)
	}
	for k := range f.b {
		if k.Op == "lt" || k.Op == "slt" {
			for _, x := range k.A {
				if e := s.elem(x, s.method); e != nil {
					add(e)
				} else {
					add(x)
				}
			}
		}
	}
	return r
}

// index: a number that starts at a bound of the part.
func (s *sorting) index(k *Term) bool {
	r := s.root(k)
	return r == s.l || r == s.h
}

func addOf(t *Term) int64 {
	_, c := splitAdd(t)
	return c
}
