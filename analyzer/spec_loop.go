package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Loops that go over a list. A register or cell that a loop changes is
// described by its value at the loop's entry and by its value after an
// iteration on every back edge.

// steps are the back edges of the loop whose head has the value.
func (ip *Interp) stepsOf(v *Term) []*BackEdge {
	var r []*BackEdge
	for i := range ip.backedges {
		if _, ok := ip.backedges[i].Next[v]; ok {
			r = append(r, &ip.backedges[i])
		}
	}
	return r
}

// emptyList: a list without elements.
func emptyList(t *Term) bool {
	t = strip(t)
	return t == nil || t.isNil() || t.Op == "list" && len(t.A) == 0 || t.Op == "mkslice" && len(t.A) > 0 && t.A[0] == tInt(0)
}

// alwaysNil: the variable of a loop is nil at its start and after every
// iteration.
func (ip *Interp) alwaysNil(v *Term) bool {
	bs := ip.stepsOf(v)
	for _, b := range bs {
		if x := b.Init[v]; x == nil || !x.isNil() {
			return false
		}
		if n := b.Next[v]; n != v && !n.isNil() && b.St.facts.eval(isNilT(n)) != yes {
			return false
		}
	}
	return len(bs) > 0
}

// stayNil adds to the outcomes' facts that variables are nil which no
// iteration sets.
func (ip *Interp) stayNil(outs []Outcome) []Outcome {
	known := map[*Term]bool{}
	nilVar := func(v *Term) bool {
		r, ok := known[v]
		if !ok {
			r = ip.alwaysNil(v)
			known[v] = r
		}
		return r
	}
	kept := outs[:0]
	for _, o := range outs {
		vs := map[*Term]bool{}
		note := func(t *Term) {
			for _, x := range []*Term{t, strip(t)} {
				if isWiden(x) && nilVar(x) {
					vs[x] = true
				}
			}
		}
		for _, x := range o.Res {
			if x != nil {
				note(x)
			}
		}
		o.St.facts.terms(func(t *Term) {
			note(t)
			for _, a := range t.A {
				note(a)
			}
		})
		dead := false
		for v := range vs {
			fs := o.St.facts.assume(isNilT(v), true)
			if len(fs) == 0 {
				dead = true
				break
			}
			if len(fs) == 1 {
				o.St.facts = fs[0]
			}
		}
		if !dead {
			kept = append(kept, o)
		}
	}
	return kept
}

// elemOf is list[i].field or list[i].
func (p *Prog) elemOf(list, i *Term, field string) func(t *Term) bool {
	return func(t *Term) bool {
		t = strip(t)
		if t.Op != "init" {
			return false
		}
		a := t.A[0]
		if field != "" {
			if a.Op != "faddr" || a.Aux != field {
				return false
			}
			a = a.A[0]
			// the field of a pointer element
			if a.Op == "init" {
				a = a.A[0]
			}
		}
		return a.Op == "iaddr" && a.A[0] == list && (i == nil || a.A[1] == i)
	}
}

// indexIn finds the index with which elements of the list are addressed.
func indexIn(t, list *Term) *Term {
	if t.Op == "iaddr" && t.A[0] == list {
		return t.A[1]
	}
	for _, a := range t.A {
		if x := indexIn(a, list); x != nil {
			return x
		}
	}
	return nil
}

// ascending: an induction variable that starts at 0 and grows by 1.
func ascending(i *Term) bool {
	return i != nil && i.Op == "ind" && strings.HasSuffix(i.Aux, "|0|1")
}

func sameLoop(i *Term, key string) bool {
	if i == nil || i.Op != "ind" {
		return false
	}
	j := strings.LastIndexByte(strings.SplitN(i.Aux, "|", 2)[0], '.')
	return j >= 0 && i.Aux[:j] == key
}

// exhaustedBy: the path left the loop with the index at the list's end.
func exhaustedBy(f *Facts, i, list *Term) bool {
	return f.eval(tLt(i, tLen(list))) == no
}

// mapped reports whether the value is the list of list[i].field for all i, in
// order; the text says what differs.
func (p *Prog) mapped(ip *Interp, f *Facts, v, list *Term, field string) string {
	empty := emptyList
	if f.eval(tEqC(tLen(list), 0)) == yes && empty(v) {
		return ""
	}
	if field == "" && v.Op == "appendall" && empty(v.A[0]) && v.A[1] == list {
		return ""
	}
	if v.Op == "mkslice" && len(v.A) > 0 && v.A[0] == tLen(list) {
		for i := range ip.backedges {
			b := &ip.backedges[i]
			n := 0
			for a, x := range b.St.mem {
				if a.Op == "iaddr" && a.A[0] == v {
					if !ascending(a.A[1]) || !p.elemOf(list, a.A[1], field)(x) {
						return "an element is stored at another index"
					}
					if !exhaustedBy(f, a.A[1], list) {
						return "the loop may end before the last element"
					}
					n++
				}
			}
			if n > 0 {
				return ""
			}
		}
		return "the elements of the result aren't set"
	}
	bs := ip.stepsOf(v)
	if len(bs) == 0 {
		return fmt.Sprintf("it's %s", clip(v.String(), 120))
	}
	for _, b := range bs {
		if !empty(b.Init[v]) {
			return "the list isn't empty at the start"
		}
		n := b.Next[v]
		if n == nil || n.Op != "append" || len(n.A) != 2 || n.A[0] != v {
			return "an iteration doesn't add exactly one element"
		}
		i := indexIn(n.A[1], list)
		if !ascending(i) || !sameLoop(i, b.Loop) || !p.elemOf(list, i, field)(n.A[1]) {
			return "an iteration doesn't add the element at the loop's index"
		}
		if !exhaustedBy(f, i, list) {
			return "the loop may end before the last element"
		}
	}
	return ""
}

// joined reports whether the string joins list[i].field for all i, in order,
// with the separator.
func (p *Prog) joined(ip *Interp, f *Facts, v, list *Term, field, sep string) string {
	if f.eval(tEqC(tLen(list), 0)) == yes && v == tStr("") {
		return ""
	}
	if v.Op == "call" && v.Aux == "strings.Join" {
		if v.A[1] != tStr(sep) {
			return "another separator is used"
		}
		return p.mapped(ip, f, v.A[0], list, field)
	}
	bs := ip.stepsOf(v)
	if len(bs) == 0 {
		return fmt.Sprintf("it's %s", clip(v.String(), 120))
	}
	for _, b := range bs {
		if x := b.Init[v]; x != nil && x != tStr("") && !(x.Op == "init" && rootOf(x.A[0]).Op == "alloc") {
			return "the string isn't empty at the start"
		}
		n := b.Next[v]
		if n == nil || n.Op != "concat" || n.A[0] != v || len(n.A) < 2 || len(n.A) > 3 {
			return "an iteration doesn't add exactly one element"
		}
		last := n.A[len(n.A)-1]
		i := indexIn(last, list)
		if !ascending(i) || !sameLoop(i, b.Loop) || !p.elemOf(list, i, field)(last) {
			return "an iteration doesn't add the element at the loop's index"
		}
		first := b.St.facts.eval(tEqC(i, 0))
		if first == unk {
			first = b.St.facts.eval(tEqC(tLen(v), 0))
		}
		if len(n.A) == 2 && first != yes {
			return "a separator is missing"
		}
		if len(n.A) == 3 && (n.A[1] != tStr(sep) || first != no) {
			return "a separator is misplaced or different"
		}
		if !exhaustedBy(f, i, list) {
			return "the loop may end before the last element"
		}
	}
	return ""
}

var (
	boolT = types.Typ[types.Bool]
	intT  = types.Typ[types.Int]
	strT  = types.Typ[types.String]
)
