package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Facts is a conjunction of primitive predicates that hold on the way to a
// program point: the finite predicate abstraction the analysis propagates.
// Consistency between predicates is decided by the small closure rules below
// (intervals of integers, lengths and end characters of strings, nilness,
// single bits of flag words, dynamic types); nothing is handed to a solver.
type Facts struct {
	b  map[*Term]bool
	iv map[*Term]ival
	eq map[*Term]string
	ne map[*Term]map[string]bool
	ty map[*Term]string

	depth int // of the narrowing that goes on
	fuel  int // what is left for it
}

const inf = int64(1) << 60

type ival struct {
	lo, hi int64
	ne     string // "|3|5|" excluded points
}

func newFacts() *Facts {
	return &Facts{
		b: map[*Term]bool{}, iv: map[*Term]ival{}, eq: map[*Term]string{},
		ne: map[*Term]map[string]bool{}, ty: map[*Term]string{},
	}
}

func (f *Facts) clone() *Facts {
	g := &Facts{
		b: make(map[*Term]bool, len(f.b)+2), iv: make(map[*Term]ival, len(f.iv)+1),
		eq: make(map[*Term]string, len(f.eq)+1), ne: make(map[*Term]map[string]bool, len(f.ne)+1),
		ty: make(map[*Term]string, len(f.ty)+1),
	}
	for k, v := range f.b {
		g.b[k] = v
	}
	for k, v := range f.iv {
		g.iv[k] = v
	}
	for k, v := range f.eq {
		g.eq[k] = v
	}
	for k, v := range f.ne {
		m := make(map[string]bool, len(v))
		for s := range v {
			m[s] = true
		}
		g.ne[k] = m
	}
	for k, v := range f.ty {
		g.ty[k] = v
	}
	return g
}

type tri int8

const (
	unk tri = iota
	yes
	no
)

func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}

func (t tri) not() tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unk
}

func (f *Facts) ivalOf(t *Term) ival {
	if n, ok := t.intVal(); ok {
		return ival{n, n, ""}
	}
	if t.Op == "bin" && t.Aux == "-" {
		v, ok := f.iv[t]
		if !ok {
			v = ival{-inf, inf, ""}
		}
		lo, hi := f.diff(t.A[0], t.A[1])
		if lo > v.lo {
			v.lo = lo
		}
		if hi < v.hi {
			v.hi = hi
		}
		return v
	}
	if t.Op == "plus" {
		v, ok := f.iv[t]
		if !ok {
			v = ival{-inf, inf, ""}
		}
		x, y := f.ivalOf(t.A[0]), f.ivalOf(t.A[1])
		if x.lo > -inf && y.lo > -inf && x.lo+y.lo > v.lo {
			v.lo = x.lo + y.lo
		}
		if x.hi < inf && y.hi < inf && x.hi+y.hi < v.hi {
			v.hi = x.hi + y.hi
		}
		return v
	}
	if v, ok := f.iv[t]; ok {
		return v
	}
	if t.Op == "add" {
		n, _ := strconv.ParseInt(t.Aux, 10, 64)
		return f.ivalOf(t.A[0]).shift(n)
	}
	switch t.Op {
	case "len", "at":
		if t.Op == "len" && t.A[0].Op == "call" && t.A[0].Aux == "path.Clean" {
			return ival{1, inf, ""}
		}
		return ival{0, inf, ""}
	case "ind":
		p := strings.SplitN(t.Aux, "|", 3)
		st, _ := strconv.ParseInt(p[1], 10, 64)
		step, _ := strconv.ParseInt(p[2], 10, 64)
		if step > 0 {
			return ival{st, inf, ""}
		}
		return ival{-inf, st, ""}
	case "call":
		if indexFns[t.Aux] {
			if l := f.ivalOf(tLen(t.A[0])); l.hi < inf {
				return ival{-1, l.hi - 1, ""}
			}
			return ival{-1, inf, ""}
		}
	}
	return ival{-inf, inf, ""}
}

var indexFns = map[string]bool{
	"strings.IndexByte": true, "strings.LastIndexByte": true,
	"strings.Index": true, "strings.LastIndex": true, "strings.IndexAny": true,
	"strings.IndexRune": true,
}

// diff bounds x - y by what is known about the two together.
func (f *Facts) diff(x, y *Term) (lo, hi int64) {
	lo, hi = -inf, inf
	up := func(h int64) {
		if h < hi {
			hi = h
		}
	}
	down := func(l int64) {
		if l > lo {
			lo = l
		}
	}
	for k, v := range f.b {
		if k.Op != "lt" && k.Op != "eqd" {
			continue
		}
		fwd := k.A[0] == x && k.A[1] == y
		if !fwd && !(k.A[0] == y && k.A[1] == x) {
			continue
		}
		d, _ := strconv.ParseInt(k.Aux, 10, 64)
		switch {
		case k.Op == "eqd" && v && fwd:
			up(d)
			down(d)
		case k.Op == "eqd" && v:
			up(-d)
			down(-d)
		case k.Op == "eqd":
		case fwd && v: // x < y + d
			up(d - 1)
		case fwd: // x >= y + d
			down(d)
		case v: // y < x + d
			down(1 - d)
		default: // y >= x + d
			up(-d)
		}
	}
	// an index is less than the length
	for _, p := range [2][2]*Term{{x, y}, {y, x}} {
		if p[0].Op == "call" && indexFns[p[0].Aux] {
			if l, c := splitAdd(tLen(p[0].A[0])); l == p[1] {
				if p[0] == x {
					up(c - 1)
				} else {
					down(1 - c)
				}
			}
		}
	}
	return lo, hi
}

// eval evaluates a formula under the facts.
func (f *Facts) eval(t *Term) tri {
	if b, ok := t.boolVal(); ok {
		return triOf(b)
	}
	switch t.Op {
	case "not":
		return f.eval(t.A[0]).not()
	case "and":
		a := f.eval(t.A[0])
		if a == no {
			return no
		}
		b := f.eval(t.A[1])
		if b == no {
			return no
		}
		if a == yes && b == yes {
			return yes
		}
		return unk
	}
	if b, ok := f.b[t]; ok {
		return triOf(b)
	}
	switch t.Op {
	case "ltc":
		c, _ := strconv.ParseInt(t.Aux, 10, 64)
		v := f.ivalOf(t.A[0])
		if v.hi < c {
			return yes
		}
		if v.lo >= c {
			return no
		}
	case "eqc":
		c, _ := strconv.ParseInt(t.Aux, 10, 64)
		v := f.ivalOf(t.A[0])
		if v.lo == c && v.hi == c {
			return yes
		}
		if c < v.lo || c > v.hi || strings.Contains(v.ne, "|"+t.Aux+"|") {
			return no
		}
	case "lt":
		d, _ := strconv.ParseInt(t.Aux, 10, 64)
		x, y := f.ivalOf(t.A[0]), f.ivalOf(t.A[1])
		if y.hi < inf && x.lo > -inf && x.lo >= y.hi+d {
			return no
		}
		if x.hi < inf && y.lo > -inf && x.hi < y.lo+d {
			return yes
		}
		if lo, hi := f.diff(t.A[0], t.A[1]); hi < d {
			return yes
		} else if lo >= d {
			return no
		}
		if d == 0 {
			// y < x  or  x == y
			if f.b[mk("lt", "0", nil, t.A[1], t.A[0])] {
				return no
			}
			if e, ok := f.b[tEq(t.A[0], t.A[1])]; ok {
				if e {
					return no
				}
				if g, ok := f.b[mk("lt", "0", nil, t.A[1], t.A[0])]; ok && !g {
					return yes
				}
			}
		}
	case "eqs":
		x := t.A[0]
		s := t.Aux
		if e, ok := f.eq[x]; ok {
			return triOf(e == s)
		}
		if f.ne[x][s] {
			return no
		}
		l := f.ivalOf(tLen(x))
		n := int64(len(s))
		if n < l.lo || n > l.hi || strings.Contains(l.ne, "|"+strconv.FormatInt(n, 10)+"|") {
			return no
		}
		first := f.eval(mk("first", strconv.Itoa(int(s[0])), nil, x))
		last := f.eval(mk("last", strconv.Itoa(int(s[len(s)-1])), nil, x))
		if first == no || last == no {
			return no
		}
		if n == 1 && l.lo == 1 && l.hi == 1 && (first == yes || last == yes) {
			return yes
		}
	case "first", "last":
		x := t.A[0]
		c, _ := strconv.Atoi(t.Aux)
		if e, ok := f.eq[x]; ok {
			if e == "" {
				return no
			}
			if t.Op == "first" {
				return triOf(int(e[0]) == c)
			}
			return triOf(int(e[len(e)-1]) == c)
		}
		l := f.ivalOf(tLen(x))
		if l.hi == 0 {
			return no
		}
		if t.Op == "first" {
			if b, ok := f.firstOf(x); ok {
				return triOf(int(b) == c)
			}
		}
		for k, v := range f.b {
			if v && k.Op == t.Op && k.A[0] == x && k.Aux != t.Aux {
				return no
			}
		}
		if l.lo == 1 && l.hi == 1 {
			other := "first"
			if t.Op == "first" {
				other = "last"
			}
			if b, ok := f.b[mk(other, t.Aux, nil, x)]; ok {
				return triOf(b)
			}
		}
		// the last part of a concatenation
		if x.Op == "concat" {
			p := x.A[len(x.A)-1]
			if t.Op == "first" {
				p = x.A[0]
			}
			if s, ok := p.strVal(); ok && s != "" {
				if t.Op == "first" {
					return triOf(int(s[0]) == c)
				}
				return triOf(int(s[len(s)-1]) == c)
			}
		}
	case "isnil":
		x := t.A[0]
		if nonNilOp(x) {
			return no
		}
		if x.isNil() {
			return yes
		}
		if f.ivalOf(tLen(x)).lo >= 1 {
			return no
		}
		if _, ok := f.ty[x]; ok {
			return no
		}
	case "tyok":
		x := t.A[0]
		if x.Op == "iface" {
			return triOf(typeMatches(x.Aux, t.Aux, x))
		}
		if x.isNil() {
			return no
		}
		if ty, ok := f.ty[x]; ok && !isIfaceName(t.Aux) {
			return triOf(ty == t.Aux)
		}
		if f.b[mk("isnil", "", nil, x)] {
			return no
		}
	case "call":
		if t.Aux == "errors.Is" && len(t.A) == 2 {
			if t.A[0].isNil() || f.b[mk("isnil", "", nil, t.A[0])] {
				return no
			}
			if r := errIs(t.A[0], t.A[1]); r != unk {
				return r
			}
		}
	case "eqd":
		d, _ := strconv.ParseInt(t.Aux, 10, 64)
		if r := f.eqIvals(t.A[0], t.A[1], d); r != unk {
			return r
		}
		if lo, hi := f.diff(t.A[0], t.A[1]); hi < d || lo > d {
			return no
		} else if lo == d && hi == d {
			return yes
		}
	case "eq":
		x, y := t.A[0], t.A[1]
		if r := f.eqIvals(x, y, 0); r != unk {
			return r
		}
		if textEq(t) {
			a, b := f.ivalOf(tLen(x)), f.ivalOf(tLen(y))
			if a.lo > b.hi || b.lo > a.hi {
				return no
			}
			if a.hi == 0 && b.hi == 0 {
				return yes
			}
		}
		if t.Aux == "" {
			a, ok1 := f.b[mk("lt", "0", nil, x, y)]
			b, ok2 := f.b[mk("lt", "0", nil, y, x)]
			if a || b {
				return no
			}
			if ok1 && ok2 {
				return yes
			}
		}
		if nonNilOp(x) && f.b[mk("isnil", "", nil, y)] {
			return no
		}
		if nonNilOp(y) && f.b[mk("isnil", "", nil, x)] {
			return no
		}
		if nx, ok := f.b[mk("isnil", "", nil, x)]; ok {
			if ny, ok2 := f.b[mk("isnil", "", nil, y)]; ok2 {
				if nx != ny {
					return no
				}
				if nx && ny {
					return yes
				}
			}
		}
	}
	return unk
}

// eqIvals decides x == y + d from the intervals of integer terms.
func (f *Facts) eqIvals(x, y *Term, d int64) tri {
	_, okx := f.iv[x]
	_, oky := f.iv[y]
	if !(okx || x.Op == "len" || x.isConst()) || !(oky || y.Op == "len" || y.isConst()) {
		return unk
	}
	a, b := f.ivalOf(x), f.ivalOf(y)
	if b.lo > -inf {
		b.lo += d
	}
	if b.hi < inf {
		b.hi += d
	}
	if a.hi < b.lo || b.hi < a.lo {
		return no
	}
	if a.lo == a.hi && b.lo == b.hi {
		return yes
	}
	return unk
}

// errIs decides errors.Is for errors whose construction is known.
func errIs(e, target *Term) tri {
	if e == target {
		return yes
	}
	if e.Op == "newerr" {
		r := no
		for _, a := range e.A {
			a = strip(a)
			switch errIs(a, target) {
			case yes:
				return yes
			case unk:
				if a.Op != "const" && !(a.T != nil && isStringType(a.T)) {
					r = unk
				}
			}
		}
		return r
	}
	if e.Op == "init" && target.Op == "init" && e.A[0].Op == "global" && target.A[0].Op == "global" {
		return no // two different error variables
	}
	return unk
}

func isIfaceName(s string) bool { return strings.HasPrefix(s, "I:") }

// typeMatches reports whether a boxed value of dynamic type dyn satisfies an
// assertion to the type named want.
func typeMatches(dyn, want string, x *Term) bool {
	if !isIfaceName(want) {
		return dyn == want
	}
	it, _ := ifaceTypes[want].Underlying().(*types.Interface)
	if it == nil || x.T == nil {
		return true
	}
	if d, ok := dynTypes[dyn]; ok {
		return types.Implements(d, it)
	}
	return true
}

var (
	ifaceTypes = map[string]types.Type{}
	dynTypes   = map[string]types.Type{}
)

// assume returns the disjoint refinements of the facts in which the formula
// has the value v.
func (f *Facts) assume(t *Term, v bool) []*Facts {
	switch f.eval(t) {
	case yes:
		if v {
			return []*Facts{f}
		}
		return nil
	case no:
		if v {
			return nil
		}
		return []*Facts{f}
	}
	switch t.Op {
	case "not":
		return f.assume(t.A[0], !v)
	case "and":
		if v {
			var out []*Facts
			for _, g := range f.assume(t.A[0], true) {
				out = append(out, g.assume(t.A[1], true)...)
			}
			return out
		}
		out := f.assume(t.A[0], false)
		for _, g := range f.assume(t.A[0], true) {
			out = append(out, g.assume(t.A[1], false)...)
		}
		return out
	}
	g := f.clone()
	if !g.set(t, v) {
		return nil
	}
	return []*Facts{g}
}

// shift adds n to the values.
func (v ival) shift(n int64) ival {
	r := ival{-inf, inf, ""}
	if v.lo > -inf {
		r.lo = v.lo + n
	}
	if v.hi < inf {
		r.hi = v.hi + n
	}
	for _, s := range strings.Split(v.ne, "|") {
		if c, err := strconv.ParseInt(s, 10, 64); err == nil {
			r.ne += "|" + strconv.FormatInt(c+n, 10) + "|"
		}
	}
	return r
}

func (f *Facts) setIval(t *Term, v ival) bool {
	if t.Op == "add" {
		n, _ := strconv.ParseInt(t.Aux, 10, 64)
		v = v.shift(-n)
		t = t.A[0]
		w := f.ivalOf(t)
		if w.lo > v.lo {
			v.lo = w.lo
		}
		if w.hi < v.hi {
			v.hi = w.hi
		}
		for _, p := range strings.Split(w.ne, "|") {
			if p != "" && !strings.Contains(v.ne, "|"+p+"|") {
				v.ne += "|" + p + "|"
			}
		}
	}
	for v.lo <= v.hi && strings.Contains(v.ne, fmt.Sprintf("|%d|", v.lo)) {
		v.lo++
	}
	for v.lo <= v.hi && v.hi < inf && strings.Contains(v.ne, fmt.Sprintf("|%d|", v.hi)) {
		v.hi--
	}
	if v.lo > v.hi {
		return false
	}
	f.iv[t] = v
	if f.depth == 0 {
		f.fuel = 400
	}
	if f.depth > 20 || f.fuel == 0 {
		return true // narrowed enough
	}
	f.depth++
	f.fuel--
	defer func() { f.depth-- }()
	if t.Op == "len" || t.Op == "plus" || t.Op == "bin" {
		for k, b := range f.b {
			if k.Op == "eq" && textEq(k) && !f.sameLen(k, b) || b && isAffix(k) && !f.affixLen(k) {
				return false
			}
		}
	}
	if t.Op == "plus" {
		if !f.operands(t) {
			return false
		}
	} else {
		for k := range f.iv {
			if k.Op == "plus" && (k.A[0] == t || k.A[1] == t) && !f.operands(k) {
				return false
			}
		}
	}
	if t.Op == "call" && indexFns[t.Aux] && v.lo >= 0 {
		// an index is less than the length
		l := f.ivalOf(tLen(t.A[0]))
		if v.lo >= l.hi {
			return false
		}
		if n := tLen(t.A[0]); l.lo < 1 && n.Op == "len" {
			l.lo = 1
			if !f.setIval(n, l) {
				return false
			}
		}
	}
	if t.Op == "len" && v.lo >= 1 {
		if b, ok := f.b[mk("isnil", "", nil, t.A[0])]; ok && b {
			return false
		}
	}
	if t.Op == "len" {
		x := t.A[0]
		if e, ok := f.eq[x]; ok && (int64(len(e)) < v.lo || int64(len(e)) > v.hi) {
			return false
		}
		if v.hi == 0 {
			for k, b := range f.b {
				if b && (k.Op == "first" || k.Op == "last") && k.A[0] == x {
					return false
				}
			}
		}
		if v.lo == 1 && v.hi == 1 {
			// the first and the last characters are the same one
			for k, b := range f.b {
				if (k.Op == "first" || k.Op == "last") && k.A[0] == x {
					other := "first"
					if k.Op == "first" {
						other = "last"
					}
					if ob, ok := f.b[mk(other, k.Aux, nil, x)]; ok && ob != b {
						return false
					}
					if b && f.ne[x][string(rune(atoi(k.Aux)))] {
						return false
					}
				}
			}
		}
	}
	return true
}

// textEq: texts are compared.
func textEq(t *Term) bool {
	for _, x := range t.A {
		if isStringType(x.T) || x.Op == "concat" {
			return true
		}
	}
	return false
}

// sameLen: texts that are equal are equally long, and empty ones are equal.
func (f *Facts) sameLen(t *Term, eq bool) bool {
	lx, ly := tLen(t.A[0]), tLen(t.A[1])
	a, b := f.ivalOf(lx), f.ivalOf(ly)
	if !eq {
		return a.hi > 0 || b.hi > 0
	}
	if n, ok := tSub(lx, ly).intVal(); ok && n != 0 {
		return false
	}
	lo, hi := a.lo, a.hi
	if b.lo > lo {
		lo = b.lo
	}
	if b.hi < hi {
		hi = b.hi
	}
	if lo > hi {
		return false
	}
	for _, x := range []struct {
		l *Term
		v ival
	}{{lx, a}, {ly, b}} {
		if x.v.lo != lo || x.v.hi != hi {
			if x.l.isConst() {
				continue
			}
			x.v.lo, x.v.hi = lo, hi
			if w, ok := f.iv[x.l]; ok && w.lo == lo && w.hi == hi {
				continue
			}
			if !f.setIval(x.l, x.v) {
				return false
			}
		}
	}
	return true
}

func isAffix(t *Term) bool {
	return t.Op == "call" && (t.Aux == "firstaffix" || t.Aux == "lastaffix")
}

// affixLen: a text is at least as long as what it begins or ends with.
func (f *Facts) affixLen(t *Term) bool {
	lx, ly := tLen(t.A[0]), tLen(t.A[1])
	if f.eval(tLt(lx, ly)) == yes {
		return false
	}
	a, b := f.ivalOf(lx), f.ivalOf(ly)
	if b.lo > a.lo && !lx.isConst() {
		a.lo = b.lo
		if w, ok := f.iv[lx]; !ok || w.lo < a.lo {
			if !f.setIval(lx, a) {
				return false
			}
		}
	}
	if a.hi < b.hi && !ly.isConst() {
		b.hi = a.hi
		if w, ok := f.iv[ly]; !ok || w.hi > b.hi {
			return f.setIval(ly, b)
		}
	}
	return true
}

// operands narrows the operands of a sum.
func (f *Facts) operands(sum *Term) bool {
	for i := range sum.A {
		v, x, y := f.ivalOf(sum), f.ivalOf(sum.A[i]), f.ivalOf(sum.A[1-i])
		n := x
		if v.lo > -inf && y.hi < inf && v.lo-y.hi > n.lo {
			n.lo = v.lo - y.hi
		}
		if v.hi < inf && y.lo > -inf && v.hi-y.lo < n.hi {
			n.hi = v.hi - y.lo
		}
		if (n.lo != x.lo || n.hi != x.hi) && (n.lo > n.hi || !f.setIval(sum.A[i], n)) {
			return false
		}
	}
	return true
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// set records a primitive predicate; false means a contradiction.
func (f *Facts) set(t *Term, v bool) bool {
	switch t.Op {
	case "ltc":
		c, _ := strconv.ParseInt(t.Aux, 10, 64)
		iv := f.ivalOf(t.A[0])
		if v {
			if c-1 < iv.hi {
				iv.hi = c - 1
			}
		} else if c > iv.lo {
			iv.lo = c
		}
		return f.setIval(t.A[0], iv)
	case "eqc":
		c, _ := strconv.ParseInt(t.Aux, 10, 64)
		iv := f.ivalOf(t.A[0])
		if v {
			iv.lo, iv.hi = c, c
		} else {
			iv.ne += "|" + t.Aux + "|"
		}
		return f.setIval(t.A[0], iv)
	case "eqs":
		x := t.A[0]
		if v {
			f.eq[x] = t.Aux
			iv := f.ivalOf(tLen(x))
			n := int64(len(t.Aux))
			if n < iv.lo || n > iv.hi {
				return false
			}
			f.iv[tLen(x)] = ival{n, n, ""}
			for k, b := range f.b {
				if (k.Op == "first" || k.Op == "last") && k.A[0] == x {
					ch := t.Aux[0]
					if k.Op == "last" {
						ch = t.Aux[len(t.Aux)-1]
					}
					if (strconv.Itoa(int(ch)) == k.Aux) != b {
						return false
					}
				}
			}
			return true
		}
		if f.ne[x] == nil {
			f.ne[x] = map[string]bool{}
		}
		f.ne[x][t.Aux] = true
		if b, ok := f.firstOf(x); ok {
			f.b[mk("first", strconv.Itoa(int(b)), nil, x)] = true
		}
		return f.refineSingle(x)
	case "first", "last":
		f.b[t] = v
		if x := t.A[0]; x.Op == "concat" && len(x.A) == 2 {
			y := x.A[1]
			if t.Op == "first" {
				y = x.A[0]
			}
			if y = mk(t.Op, t.Aux, nil, y); f.ivalOf(tLen(y.A[0])).lo > 0 && f.eval(y) == unk && !f.set(y, v) {
				return false
			}
		}
		if v {
			iv := f.ivalOf(tLen(t.A[0]))
			if iv.lo < 1 {
				iv.lo = 1
			}
			if !f.setIval(tLen(t.A[0]), iv) {
				return false
			}
			return f.refineSingle(t.A[0])
		}
		return true
	case "mapok":
		f.b[t] = v
		if !v {
			// what isn't in a map is read as the zero value
			get := mk("mapget", t.Aux, nil, t.A...)
			if f.eval(isNilT(get)) == no || f.eval(get) == yes {
				return false
			}
			f.b[mk("isnil", "", nil, get)] = true
			f.b[get] = false
		}
		return true
	case "isnil":
		f.b[t] = v
		if x := t.A[0]; !v && x.Op == "mapget" {
			f.b[mk("mapok", x.Aux, nil, x.A...)] = true
		}
		if v {
			x := t.A[0]
			iv := f.ivalOf(tLen(x))
			if iv.lo > 0 {
				return false
			}
			f.iv[tLen(x)] = ival{0, 0, ""}
			for k, b := range f.b {
				if b && k.Op == "call" && k.Aux == "errors.Is" && k.A[0] == x {
					return false
				}
			}
		}
		return true
	case "tyok":
		f.b[t] = v
		if v {
			x := t.A[0]
			if !isIfaceName(t.Aux) {
				f.ty[x] = t.Aux
			}
			f.b[mk("isnil", "", nil, x)] = false
		}
		return true
	case "call":
		if t.Aux == "errors.Is" && v {
			f.b[mk("isnil", "", nil, t.A[0])] = false
		}
		if v && isAffix(t) && !f.affixLen(t) {
			return false
		}
		// a template is of one kind
		if v && len(t.A) == 1 && (t.Aux == "IsStatic" || t.Aux == "IsWildcard" || t.Aux == "HasPattern") {
			for _, q := range []string{"IsStatic", "IsWildcard", "HasPattern"} {
				if x := mk("call", q, nil, t.A[0]); q != t.Aux {
					if f.eval(x) == yes {
						return false
					}
					f.b[x] = false
				}
			}
		}
	case "eq":
		f.b[t] = v
		return !textEq(t) || f.sameLen(t, v)
	}
	f.b[t] = v
	return true
}

// firstOf: what begins at the index of a character begins with it.
func (f *Facts) firstOf(x *Term) (byte, bool) {
	if x.Op != "slice" || !x.A[2].isNil() {
		return 0, false
	}
	i, k := splitAdd(x.A[1])
	if i == nil || i.Op != "call" || i.Aux != "strings.IndexByte" && i.Aux != "strings.LastIndexByte" {
		return 0, false
	}
	c, ok := i.A[1].intVal()
	if !ok || c <= 0 || c > 127 || k < 0 {
		return 0, false
	}
	if i.A[0] != tSlice(x.A[0], tInt(k), tNil()) || f.ivalOf(i).lo < 0 {
		return 0, false
	}
	return byte(c), true
}

// refineSingle: x ends (or begins) with c and x is not "c", so it's longer.
func (f *Facts) refineSingle(x *Term) bool {
	for k, b := range f.b {
		if b && (k.Op == "first" || k.Op == "last") && k.A[0] == x {
			if f.ne[x][string(rune(atoi(k.Aux)))] {
				iv := f.ivalOf(tLen(x))
				if iv.lo == 1 {
					iv.lo = 2
					return f.setIval(tLen(x), iv)
				}
			}
		}
	}
	return true
}

func (f *Facts) String() string {
	var s []string
	for k, v := range f.b {
		if v {
			s = append(s, k.String())
		} else {
			s = append(s, "!"+k.String())
		}
	}
	for k, v := range f.iv {
		switch {
		case v.lo == v.hi:
			s = append(s, fmt.Sprintf("%s==%d", k, v.lo))
		case v.hi >= inf && v.lo > -inf:
			s = append(s, fmt.Sprintf("%s>=%d%s", k, v.lo, v.ne))
		case v.lo <= -inf:
			s = append(s, fmt.Sprintf("%s<=%d%s", k, v.hi, v.ne))
		default:
			s = append(s, fmt.Sprintf("%d<=%s<=%d", v.lo, k, v.hi))
		}
	}
	for k, v := range f.eq {
		s = append(s, fmt.Sprintf("%s==%q", k, v))
	}
	for k, m := range f.ne {
		for v := range m {
			s = append(s, fmt.Sprintf("%s!=%q", k, v))
		}
	}
	sort.Strings(s)
	return strings.Join(s, " && ")
}

// key is a canonical description used to merge equal abstract states.
func (f *Facts) key() string {
	var s []string
	for k, v := range f.b {
		s = append(s, fmt.Sprintf("b%d%v", k.id, v))
	}
	for k, v := range f.iv {
		s = append(s, fmt.Sprintf("i%d:%d:%d:%s", k.id, v.lo, v.hi, v.ne))
	}
	for k, v := range f.eq {
		s = append(s, fmt.Sprintf("e%d:%s", k.id, v))
	}
	for k, m := range f.ne {
		for v := range m {
			s = append(s, fmt.Sprintf("n%d:%s", k.id, v))
		}
	}
	for k, v := range f.ty {
		s = append(s, fmt.Sprintf("t%d:%s", k.id, v))
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}
