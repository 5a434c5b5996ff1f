package main

import (
	"go/types"
	"strings"
)

// fork evaluates a condition of the specification under the facts of a path;
// when the facts don't decide it, both refinements are followed.
func fork(f *Facts, cond *Term, k func(f *Facts, v bool)) {
	switch f.eval(cond) {
	case yes:
		k(f, true)
		return
	case no:
		k(f, false)
		return
	}
	for _, g := range f.assume(cond, true) {
		k(g, true)
	}
	for _, g := range f.assume(cond, false) {
		k(g, false)
	}
}

// holds reports whether the formula may be true under the facts.
func may(f *Facts, cond *Term) bool { return len(f.assume(cond, true)) > 0 }

func isNilT(x *Term) *Term { return tEq(x, tNil()) }

func lastIs(x *Term, c byte) *Term {
	for x.Op == "slice" {
		// s[lo:hi] ends where s[:hi] does
		if !x.A[2].isNil() {
			return tEqC(mk("at", "str", nil, x.A[0], tAdd(x.A[2], tInt(-1))), int64(c))
		}
		x = x.A[0]
	}
	return tEqC(mk("at", "str", nil, x, tAdd(tLen(x), tInt(-1))), int64(c))
}

// memAt is the value of a field of an object at an event; nil if it's not
// known.
func memAt(e *Event, obj *Term, field string) *Term {
	for a, v := range e.Mem {
		if a.Op == "faddr" && a.Aux == field && a.A[0] == obj {
			return v
		}
	}
	return nil
}

func memOf(st *State, obj *Term, field string) *Term {
	for a, v := range st.mem {
		if a.Op == "faddr" && a.Aux == field && a.A[0] == obj {
			return v
		}
	}
	return nil
}

// cell is the address of a field of an object.
func (p *Prog) cell(x *Term, name string) *Term {
	t := p.fieldType(x, name)
	var pt types.Type
	if t != nil {
		pt = types.NewPointer(t)
	}
	return mk("faddr", name, pt, x)
}

// handlersRes returns the event whose result the path returns.
func resultEvent(o *Outcome) *Event {
	if len(o.Res) != 1 {
		return nil
	}
	for i := len(o.St.trace) - 1; i >= 0; i-- {
		e := o.St.trace[i]
		if e.Res != nil && (e.Res == o.Res[0] || e.Kind == "dyn" && sameAnswer(o.St.facts, o.Res[0], e.Res)) {
			return e
		}
	}
	return nil
}

// sameAnswer: the value returned is the answer, as it is or as a constant.
func sameAnswer(f *Facts, got, want *Term) bool {
	if got == want {
		return true
	}
	if got == nil || want == nil || want.T == nil || !isBoolType(want.T) {
		return false
	}
	g := f.eval(got)
	return g != unk && g == f.eval(want)
}

func dynEvents(tr []*Event) []*Event {
	var r []*Event
	for _, e := range tr {
		if e.Kind == "dyn" {
			r = append(r, e)
		}
	}
	return r
}

func effects(tr []*Event, kinds ...string) []*Event {
	var r []*Event
	for _, e := range tr {
		for _, k := range kinds {
			if e.Kind == k {
				r = append(r, e)
			}
		}
	}
	return r
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// mentions reports whether a term occurs in another one.
func mentions(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.A {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

func clip(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// terms calls fn for every term that the facts are about.
func (f *Facts) terms(fn func(t *Term)) {
	for t := range f.b {
		fn(t)
	}
	for t := range f.iv {
		fn(t)
	}
	for t := range f.eq {
		fn(t)
	}
	for t := range f.ne {
		fn(t)
	}
	for t := range f.ty {
		fn(t)
	}
}

// find finds a term within the facts.
func (f *Facts) find(pred func(*Term) bool) *Term {
	var r *Term
	f.terms(func(t *Term) {
		if r == nil {
			r = findTerm(t, pred)
		}
	})
	return r
}
