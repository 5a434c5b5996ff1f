package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Subtree operations.

// noneIn: the list is known to have no elements.
func noneIn(f *Facts, l *Term) bool {
	return l.isNil() || l.Op == "list" && len(l.A) == 0 || f.eval(isNilT(l)) == yes || f.eval(tEqC(tLen(l), 0)) == yes
}

func elem(t *Term) (list, i *Term) {
	t = strip(t)
	if t.Op == "init" && t.A[0].Op == "iaddr" {
		return t.A[0].A[0], t.A[0].A[1]
	}
	return nil, nil
}

// isWiden: the value that a loop's register has at the loop's head.
func isWiden(t *Term) bool { return t != nil && t.Op == "widen" }

// traversal judges the function that goes over the responders of subtrees.
func (c *Checker) traversal() {
	p := c.p
	fn := p.actual("-", "traverseAndCall")
	if fn == nil {
		c.undecided("traverseAndCall", "the function that goes over subtrees was not found")
		return
	}
	ip := p.newInterp()
	ip.Model = p.regModel(set("traverseAndCall"), set("_Responders"))
	ps := params(fn)
	outs := c.run(ip, newState(), fn, ps)
	if outs == nil {
		return
	}
	t := &trav{c: c, ip: ip, fn: fn, rs: ps[0], call: ps[1]}
	for i := range ip.backedges {
		t.iteration(&ip.backedges[i])
	}
	for i := range ip.backedges {
		t.round(&ip.backedges[i])
	}
	for i := range outs {
		t.end(&outs[i])
	}
	c.ob(t.calls > 0, "each", "traversal: calls", c.at(fn, fn.Pos()), "no loop calls the function for the responders of a list")
}

type trav struct {
	c        *Checker
	ip       *Interp
	fn       *ssa.Function
	rs, call *Term
	calls    int
	lists    []lst // what the inner loops go over
	next     string
}

type lst struct {
	list, i *Term
	loop    string
}

// dynOf are the calls of the function in a trace.
func (t *trav) dynOf(tr []*Event) []*Event {
	var r []*Event
	for _, e := range effects(tr, "dyn") {
		if e.Target == t.call {
			r = append(r, e)
		}
	}
	return r
}

// iteration judges an iteration that handles a responder.
func (t *trav) iteration(b *BackEdge) {
	c := t.c
	at := c.at(b.Fn, b.Fn.Pos())
	ds := t.dynOf(b.St.trace)
	if len(ds) == 0 {
		return
	}
	t.calls++
	f := b.St.facts
	if !c.ob(len(ds) == 1 && len(effects(b.St.trace, "dyn")) == 1, "each", "traversal: one call", at, "an iteration doesn't call the function exactly once") {
		return
	}
	x := ds[0].Args[0]
	c.ob(f.eval(isNilT(ds[0].Res)) == yes, "stop", "traversal: goes on", at, "the traversal goes on though the function may have failed")
	list, i := elem(x)
	if list == nil {
		c.ob(false, "each", "traversal: element", at, "the function isn't called with the element of a list [%s]", x)
		return
	}
	irs := mk("call", "_Responders", nil, unbase(x))
	f.find(func(y *Term) bool {
		if y.Op == "call" && y.Aux == "_Responders" && unbase(y.A[0]) == unbase(x) {
			irs = y
		}
		return false
	})
	for _, v := range b.Next {
		findTerm(nonNil(v), func(y *Term) bool {
			if y.Op == "call" && y.Aux == "_Responders" && unbase(y.A[0]) == unbase(x) {
				irs = y
			}
			return false
		})
	}
	for _, v := range b.St.mem {
		if v.Op == "call" && v.Aux == "_Responders" && unbase(v.A[0]) == unbase(x) {
			irs = v
		}
	}
	none := noneIn(f, irs)
	if isWiden(list) && i == tInt(0) || isWiden(list) && i == tSub(tLen(list), tInt(1)) {
		// a queue or stack of responders
		n := b.Next[list]
		rest := tSlice(list, tInt(1), nil)
		if i != tInt(0) {
			rest = tSlice(list, nil, i)
		}
		ok := n == rest && none || n != nil && n.Op == "appendall" && sliceEq(n.A[0], rest) && n.A[1] == irs || n != nil && sliceEq(n, rest) && none
		c.ob(ok, "below", "traversal: queue", at, "the queue isn't continued with the responders below [%s]", nonNil(n))
		c.ob(t.isStart(b.Init[list]), "start", "traversal: queue start", at, "the queue doesn't start with the given responders")
		t.lists = append(t.lists, lst{list, nil, b.Loop})
		return
	}
	c.ob(ascending(i) && sameLoop(i, b.Loop), "each", "traversal: index", at, "the loop doesn't go over the list from its first element to the last")
	t.lists = append(t.lists, lst{list, i, b.Loop})
	switch {
	case isWiden(list) && b.Next[list] != nil && b.Next[list] != list:
		// a growing list
		n := b.Next[list]
		c.ob(n.Op == "appendall" && n.A[0] == list && n.A[1] == irs, "below", "traversal: list", at, "the list isn't continued with the responders below [%s]", n)
		c.ob(t.isStart(b.Init[list]), "start", "traversal: list start", at, "the list doesn't start with the given responders")
	case isWiden(list) && b.Next[list] == list && none:
	case list == t.rs:
		// recursion
		rec := regs(b.St.trace, "traverseAndCall")
		ok := len(rec) == 0 && none || len(rec) == 1 && rec[0].Args[0] == irs && rec[0].Args[1] == t.call
		c.ob(ok, "below", "traversal: recursion", at, "the responders below aren't traversed exactly once")
		for _, e := range rec {
			c.ob(f.eval(isNilT(e.res(0))) == yes, "stop", "traversal: recursion goes on", at, "the traversal goes on though the function may have failed below")
		}
		t.next = "recursion"
	case isWiden(list):
		// levels
		added, kept := 0, false
		for w, n := range b.Next {
			switch {
			case n.Op == "appendall" && n.A[0] == w && n.A[1] == irs:
				added++
				t.next = w.Aux
				ini := strip(nonNil(b.Init[w]))
				c.ob(ini.Op != "slice" && noneIn(newFacts(), ini), "below", "traversal: new level", at, "the list of the next level isn't a new one at the start [%s]", ini)
			case n == w && t.next == w.Aux:
				kept = true
			case n == w && none && noneIn(newFacts(), strip(nonNil(b.Init[w]))):
				kept = true
			}
		}
		c.ob(added == 1 || kept && none, "below", "traversal: level", at, "the next level isn't continued with the responders below")
	default:
		t.linked(b, list, irs, none)
	}
}

func (t *trav) isStart(v *Term) bool {
	if v == nil {
		return false
	}
	v = strip(v)
	return v == t.rs || v.Op == "appendall" && noneIn(newFacts(), strip(v.A[0])) && v.A[1] == t.rs
}

func sliceEq(x, y *Term) bool {
	return x == y || x.Op == "slice" && y.Op == "slice" && sameTerms(x.A, y.A)
}

// linked judges an iteration of a traversal that keeps lists in linked nodes.
func (t *trav) linked(b *BackEdge, list, irs *Term, none bool) {
	c := t.c
	at := c.at(b.Fn, b.Fn.Pos())
	if q, i := elem(list); q != nil && isWiden(q) && i == tInt(0) {
		// a queue of lists
		n := 0
		for w, next := range b.Next {
			if ini := strip(nonNil(b.Init[w])); isWiden(w) && sliceEq(ini, tSlice(q, tInt(1), nil)) {
				n++
				t.next = w.Aux
				ok := next == w && none || next.Op == "append" && len(next.A) == 2 && next.A[0] == w && next.A[1] == irs
				c.ob(ok, "below", "traversal: lists", at, "the responders below aren't added to the queue of lists")
			}
		}
		c.ob(n == 1, "below", "traversal: queue of lists", at, "the responders below aren't kept for the traversal")
		return
	}
	if list.Op != "init" || list.A[0].Op != "faddr" || !isWiden(list.A[0].A[0]) {
		c.ob(false, "below", "traversal: shape", at, "the way in which the lists of responders are kept isn't recognised [%s]", list)
		return
	}
	field := list.A[0].Aux
	// the node that was made for the responders below
	var node *Term
	for a, v := range b.St.mem {
		if a.Op == "faddr" && a.Aux == field && a.A[0].Op == "alloc" && v == irs {
			node = a.A[0]
		}
	}
	if node == nil {
		c.ob(none, "below", "traversal: nodes", at, "the responders below aren't kept for the traversal")
		for _, e := range t.links(b.St.trace, field) {
			c.ob(false, "below", "traversal: nodes", at, "the chain of nodes is changed though there's nothing to add [%s]", e.Target)
		}
		return
	}
	ls := t.links(b.St.trace, field)
	if !c.ob(len(ls) == 1 && ls[0].Args[0] == node && isWiden(ls[0].Target.A[0]), "below", "traversal: link", at, "the new node isn't linked to the last one") {
		return
	}
	tail := ls[0].Target.A[0]
	t.next = ls[0].Target.Aux
	c.ob(b.Next[tail] == node, "below", "traversal: tail", at, "the last node isn't the new one afterwards")
}

// links are the writes to the nodes' fields besides those of new nodes.
func (t *trav) links(tr []*Event, field string) []*Event {
	var r []*Event
	for _, e := range effects(tr, "store") {
		if e.Target.Op == "faddr" && (e.Target.A[0].Op != "alloc" || e.Target.Aux != field) {
			r = append(r, e)
		}
	}
	return r
}

// round judges the back edges between the lists.
func (t *trav) round(b *BackEdge) {
	c := t.c
	at := c.at(b.Fn, b.Fn.Pos())
	f := b.St.facts
	// the last node of a chain
	for w, n := range b.Next {
		if !isWiden(w) || !t.isTail(w) {
			continue
		}
		ini := b.Init[w]
		c.ob(ini != nil && (t.isTail(ini) || t.isFirst(b, ini)), "below", "traversal: first tail", at, "the last node isn't the first one at the start")
		c.ob(n == w || t.isTail(n) || len(t.dynOf(b.St.trace)) > 0 && n.Op == "alloc", "below", "traversal: keeps the tail", at, "the last node is another one in the next round [%s]", n)
	}
	if len(t.dynOf(b.St.trace)) > 0 {
		return
	}
	for _, l := range t.lists {
		if l.i == nil || l.list == t.rs {
			continue
		}
		head := l.list
		q, _ := elem(head)
		if head.Op == "init" {
			head = head.A[0].A[0]
		}
		n, ok := b.Next[head]
		if !ok {
			continue
		}
		c.ob(exhaustedBy(f, l.i, l.list), "each", "traversal: round", at, "the next list is taken before the last responder of the current one was handled")
		if q != nil {
			c.ob(isWiden(n) && n.Aux == t.next, "below", "traversal: rest", at, "the traversal doesn't go on with the rest of the queue [%s]", n)
			ini := strip(nonNil(b.Init[head]))
			ok := ini.Op == "list" && len(ini.A) == 1 && ini.A[0] == t.rs || ini.Op == "append" && len(ini.A) == 2 && noneIn(newFacts(), ini.A[0]) && ini.A[1] == t.rs
			c.ob(ok, "start", "traversal: first list", at, "the traversal doesn't start with the given responders [%s]", ini)
		} else if l.list.Op == "init" {
			want := mk("init", "", nil, mk("faddr", t.next, nil, head))
			c.ob(n.Op == "init" && n.A[0].Op == "faddr" && n.A[0].Aux == t.next && n.A[0].A[0] == head, "below", "traversal: next node", at, "the traversal doesn't go on with the next node [%s instead of %s]", n, want)
			c.ob(b.Init[head] != nil && t.isFirst(b, b.Init[head]), "start", "traversal: first node", at, "the traversal doesn't start with the given responders")
		} else {
			c.ob(isWiden(n) && n.Aux == t.next, "below", "traversal: next level", at, "the traversal doesn't go on with the next level [%s]", n)
			c.ob(t.isStart(b.Init[head]), "start", "traversal: first level", at, "the traversal doesn't start with the given responders")
		}
	}
}

// isTail: the value is the last node; new nodes are linked to it.
func (t *trav) isTail(v *Term) bool {
	if !isWiden(v) {
		return false
	}
	for i := range t.ip.backedges {
		b := &t.ip.backedges[i]
		for _, e := range effects(b.St.trace, "store") {
			if e.Target.Op != "faddr" || !isWiden(e.Target.A[0]) || len(t.dynOf(b.St.trace)) == 0 {
				continue
			}
			for w := e.Target.A[0]; isWiden(w); w = w.A[0] {
				if w == v {
					return true
				}
			}
		}
	}
	return false
}

// isFirst: the node holds the given responders.
func (t *trav) isFirst(b *BackEdge, n *Term) bool {
	if n.Op != "alloc" {
		return false
	}
	for _, e := range effects(b.St.trace, "store") {
		if e.Target.Op == "faddr" && e.Target.A[0] == n && len(e.Args) == 1 && e.Args[0] == t.rs {
			return true
		}
	}
	return false
}

// end judges the traversal's end.
func (t *trav) end(o *Outcome) {
	c := t.c
	at := c.at(o.In, o.Pos)
	if !c.ob(o.Kind == "return", "stop", "traversal: panics", at, "the traversal panics") {
		return
	}
	f := o.St.facts
	res := o.Res[0]
	fork(f, isNilT(res), func(f *Facts, isnil bool) {
		if !isnil {
			ok := res.Op == "reg:traverseAndCall"
			for _, e := range t.dynOf(o.St.trace) {
				ok = ok || e.Res == res
			}
			c.ob(ok, "stop", "traversal: error", at, "the error that is returned isn't the function's [%s]", res)
			return
		}
		for _, e := range t.dynOf(o.St.trace) {
			c.ob(f.eval(isNilT(e.Res)) == yes && t.next == "recursion", "stop", "traversal: ends", at, "the traversal ends in the middle of a list")
		}
		done := noneIn(f, t.rs)
		for _, l := range t.lists {
			switch {
			case l.list == t.rs:
				done = done || exhaustedBy(f, l.i, l.list)
			case l.list.Op == "init" && l.list.A[0].Op == "iaddr":
				done = done || noneIn(f, l.list.A[0].A[0])
			case l.list.Op == "init":
				done = done || f.eval(isNilT(l.list.A[0].A[0])) == yes
			case l.i != nil && sameLoopKey(l.list, l.loop):
				// a list that grows
				done = done || exhaustedBy(f, l.i, l.list)
			default:
				done = done || noneIn(f, l.list)
			}
		}
		c.ob(done, "each", "traversal: all", at, "the traversal ends though responders may be left [path: %s]", clip(f.String(), 300))
	})
}

func sameLoopKey(w *Term, loop string) bool {
	return isWiden(w) && strings.HasPrefix(w.Aux, loop+".")
}

// intUnder evaluates an integer term with a value for another term.
func intUnder(t, x *Term, v int64) (int64, bool) {
	if t == x {
		return v, true
	}
	if n, ok := t.intVal(); ok {
		return n, true
	}
	if t.Op == "conv" && len(t.A) == 1 {
		return intUnder(t.A[0], x, v)
	}
	if t.Op != "bin" {
		return 0, false
	}
	a, ok1 := intUnder(t.A[0], x, v)
	b, ok2 := intUnder(t.A[1], x, v)
	if !ok1 || !ok2 {
		return 0, false
	}
	switch t.Aux {
	case "|":
		return a | b, true
	case "&":
		return a & b, true
	case "&^":
		return a &^ b, true
	case "^":
		return a ^ b, true
	case "+":
		return a + b, true
	case "-":
		return a - b, true
	}
	return 0, false
}

func boolUnder(t, x *Term, v int64) tri {
	switch t.Op {
	case "ltc":
		if a, ok := intUnder(t.A[0], x, v); ok {
			n, _ := strconv.ParseInt(t.Aux, 10, 64)
			return triOf(a < n)
		}
	case "lt":
		a, ok1 := intUnder(t.A[0], x, v)
		b, ok2 := intUnder(t.A[1], x, v)
		if ok1 && ok2 {
			n, _ := strconv.ParseInt(t.Aux, 10, 64)
			return triOf(a < b+n)
		}
	case "eq":
		a, ok1 := intUnder(t.A[0], x, v)
		b, ok2 := intUnder(t.A[1], x, v)
		if ok1 && ok2 {
			return triOf(a == b)
		}
	case "eqc":
		if a, ok := intUnder(t.A[0], x, v); ok {
			n, err := strconv.ParseInt(t.Aux, 10, 64)
			if err == nil {
				return triOf(a == n)
			}
		}
	case "bit":
		if a, ok := intUnder(t.A[0], x, v); ok {
			n, _ := strconv.Atoi(t.Aux)
			return triOf(a>>uint(n)&1 == 1)
		}
	}
	return unk
}

// under reports whether the path is possible when x has the value.
func under(f *Facts, x *Term, v int64) bool {
	for t, b := range f.b {
		if w := boolUnder(t, x, v); w != unk && w != triOf(b) {
			return false
		}
	}
	ok := true
	f.terms(func(t *Term) {
		if t == x || t.Op == "bin" {
			if n, is := intUnder(t, x, v); is && (n < f.ivalOf(t).lo || n > f.ivalOf(t).hi || strings.Contains(f.ivalOf(t).ne, "|"+strconv.FormatInt(n, 10)+"|")) {
				ok = false
			}
		}
	})
	return ok
}

// subtreeOp is an operation for all responders below.
type subtreeOp struct {
	typ, name string
	kind      string
}

var subtreeOps = []subtreeOp{
	{"_ResponderBase", "SetSharedDataForSubtree", "data"},
	{"_ResponderBase", "SetConfigurationForSubtree", "config"},
	{"_ResponderBase", "WrapSubtreeRequestPassers", "WrapRequestPasser"},
	{"_ResponderBase", "WrapSubtreeRequestHandlers", "WrapRequestHandler"},
	{"_ResponderBase", "WrapSubtreeHandlersOf", "methods"},
	{"Router", "SetSharedDataForAll", "data"},
	{"Router", "SetConfigurationForAll", "config"},
	{"Router", "WrapAllRequestPassers", "WrapRequestPasser"},
	{"Router", "WrapAllRequestHandlers", "WrapRequestHandler"},
	{"Router", "WrapAllHandlersOf", "methods"},
}

func checkP29(c *Checker) {
	c.rule("each: the function is called once for each responder of a list, from the first to the last, and the traversal ends only after the last list")
	c.rule("below: the responders directly below each one are traversed as well")
	c.rule("start: the traversal begins with the given responders")
	c.rule("stop: an error of the function ends the traversal and is returned")
	c.rule("op: the operation traverses the responders below its receiver once and does to each one what its name says")
	c.traversal()
	for _, m := range subtreeOps {
		c.subtreeOp(m)
	}
	c.min("each", 2)
	c.min("below", 1)
	c.min("stop", 2)
	c.min("op", 40)
}

func (c *Checker) subtreeOp(m subtreeOp) {
	p := c.p
	opq := set("traverseAndCall", "toUpperSplitByCommaSpace")
	rr := c.pureRun(m.typ, m.name, opq, set("_Responders"))
	if rr == nil {
		return
	}
	self := rr.ps[0]
	for i := range rr.outs {
		o := &rr.outs[i]
		at := c.at(o.In, o.Pos)
		f := o.St.facts
		ts := regs(o.St.trace, "traverseAndCall")
		ms := regs(o.St.trace, "toUpperSplitByCommaSpace")
		if len(c.p.writesIn(o.St.trace)) > 0 {
			c.ob(false, "op", m.name+": changes", at, "the operation itself changes something")
		}
		if m.kind == "methods" {
			ok := len(ms) == 1 && strip(ms[0].Args[0]) == rr.ps[1]
			if !c.ob(ok, "op", m.name+": methods", at, "the list of methods isn't the given one") {
				continue
			}
			if noneIn(f, ms[0].res(0)) {
				c.ob(o.Kind == "panic" && len(ts) == 0, "op", m.name+": no methods", at, "an empty list of methods is accepted")
				continue
			}
		}
		if !c.ob(len(ts) == 1, "op", m.name+": once", at, "the responders below aren't traversed exactly once") {
			continue
		}
		e := ts[0]
		l := strip(e.Args[0])
		c.ob(l.Op == "call" && l.Aux == "_Responders" && sameResponder(l.A[0], self), "op", m.name+": below", at, "what is traversed isn't what's below the receiver [%s]", l)
		fork(f, isNilT(e.res(0)), func(f *Facts, isnil bool) {
			if isnil {
				c.ob(o.Kind == "return", "op", m.name+": panics", at, "the operation panics though nothing failed")
			} else if m.kind == "methods" {
				c.ob(o.Kind == "panic", "op", m.name+": fails", at, "the operation ignores an error")
			}
		})
		fn, free := p.termFn(strip(e.Args[1]))
		if fn == nil || len(fn.Params) != 1 {
			c.ob(false, "op", m.name+": function", at, "the function called for each responder isn't known")
			continue
		}
		c.eachOp(m, o, fn, free, rr, ms)
	}
}

func (c *Checker) eachOp(m subtreeOp, made *Outcome, fn *ssa.Function, free []*Term, rr *regRun, ms []*Event) {
	p, r := c.p, c.r
	st := p.later(made.St)
	ip := p.newInterp()
	ip.Model = p.regModel(set("SetSharedData", "SetConfiguration", "WrapRequestPasser", "WrapRequestHandler", "WrapHandlerOf", "wrapHandlerOf", "handlerOf", "setHandlerFor"),
		set("SharedData", "configFlags", "canHandleRequest", "requestHandlerBase"))
	ps := params(fn)
	outs := ip.RunClosure(st, fn, ps, free)
	c.mark(ip, len(outs))
	if ip.err != "" || len(outs) == 0 {
		c.undecided(p.short(fn), "%s", ip.err)
		return
	}
	x := ps[0]
	isArg := func(t *Term, i int) bool {
		want := rr.ps[i]
		t = strip(t)
		return t == want || t.Op == "appendall" && noneIn(newFacts(), t.A[0]) && t.A[1] == want
	}
	at := c.at(fn, fn.Pos())
	if m.kind != "methods" {
		for range ip.backedges {
			c.ob(false, "op", m.name+": loop", at, "the function called for each responder has a loop")
		}
	}
	for i := range outs {
		o := &outs[i]
		at := c.at(o.In, o.Pos)
		f := o.St.facts
		ev := regs(o.St.trace)
		c.ob(len(p.writesIn(o.St.trace)) == 0, "op", m.name+": only that", at, "something else is changed")
		if m.kind != "methods" {
			c.ob(o.Kind == "return" && f.eval(isNilT(o.Res[0])) == yes, "op", m.name+": goes on", at, "the operation may end at a responder")
		}
		one := func(name string, arg int) bool {
			return len(ev) == 1 && ev[0].Name == name && sameResponder(ev[0].Args[0], x) && len(ev[0].Args) == 2 && isArg(ev[0].Args[1], arg)
		}
		switch m.kind {
		case "data":
			q := mk("call", "SharedData", nil, x)
			f.find(func(y *Term) bool {
				if y.Op == "call" && y.Aux == "SharedData" && sameResponder(y.A[0], x) {
					q = y
				}
				return false
			})
			fork(f, isNilT(q), func(f *Facts, none bool) {
				if none {
					c.ob(one("SetSharedData", 1), "op", m.name+": sets", at, "a responder without shared data doesn't get the given data")
				} else {
					c.ob(len(ev) == 0, "op", m.name+": keeps", at, "shared data that a responder has is replaced")
				}
			})
		case "config":
			var q *Term
			f.find(func(y *Term) bool {
				if y.Op == "call" && y.Aux == "configFlags" && sameResponder(y.A[0], x) {
					q = y
				}
				return false
			})
			if q == nil {
				c.ob(false, "op", m.name+": configured", at, "the responder's configuration isn't looked at")
				continue
			}
			mask := int64(0)
			for _, b := range []string{"active", "secure", "tslash"} {
				mask |= 1 << uint(r.bit[b])
			}
			top := 0
			for _, b := range r.bit {
				top = max(top, b)
			}
			bad := ""
			for v := int64(0); v < 1<<uint(top+1); v++ {
				if !under(f, q, v) {
					continue
				}
				if v&^mask != 0 && len(ev) != 0 {
					bad = "a responder that was configured is configured again"
				}
				if v&^mask == 0 && !(len(ev) == 1 && ev[0].Name == "SetConfiguration" && sameResponder(ev[0].Args[0], x)) {
					bad = "a responder that wasn't configured doesn't get the configuration "
				}
			}
			c.ob(bad == "", "op", m.name+": configured", at, "%s", bad)
			if len(ev) == 1 && bad == "" {
				c.ob(c.sameStruct(ip, o.St, ev[0].Args[1], rr.ps[1]), "op", m.name+": configuration", at, "the configuration isn't the given one [%s]", clip(ev[0].Args[1].String(), 300))
			}
		case "WrapRequestPasser", "WrapRequestHandler":
			c.ob(one(m.kind, 1), "op", m.name+": wraps", at, "the middlewares aren't applied to the responder exactly once")
		case "methods":
			q := mk("call", "canHandleRequest", nil, x)
			f.find(func(y *Term) bool {
				if y.Op == "call" && y.Aux == "canHandleRequest" && sameResponder(y.A[0], x) {
					q = y
				}
				return false
			})
			fork(f, tEq(q, tBool(true)), func(f *Facts, can bool) {
				if !can {
					c.ob(len(ev) == 0 && o.Kind == "return" && f.eval(isNilT(o.Res[0])) == yes, "op", m.name+": no handlers", at, "a responder without handlers isn't skipped")
					return
				}
				c.ob(o.Kind == "return", "op", m.name+": panics", at, "the function panics")
				if o.Kind != "return" {
					return
				}
				fork(f, isNilT(o.Res[0]), func(f *Facts, isnil bool) {
					if isnil {
						done := false
						for j := range ip.backedges {
							if i := c.methodOf(&ip.backedges[j], ms[0].res(0), x, rr.ps[2]); i != nil {
								done = done || exhaustedBy(f, i, ms[0].res(0))
							}
						}
						c.ob(done && len(ev) == 0, "op", m.name+": all methods", at, "not every method of the list is handled")
						return
					}
					last := len(ev) == 1 && ev[0].Name == "wrapHandlerOf" && mentions(o.Res[0], ev[0].res(0)) && f.eval(isNilT(ev[0].res(0))) == no
					c.ob(last, "op", m.name+": error", at, "the error isn't that of wrapping a handler")
				})
			})
		}
	}
	if m.kind == "methods" {
		n := 0
		for j := range ip.backedges {
			b := &ip.backedges[j]
			i := c.methodOf(b, ms[0].res(0), x, rr.ps[2])
			if !c.ob(i != nil, "op", m.name+": each method", at, "an iteration doesn't wrap the handler of the list's method with the middlewares exactly once") {
				continue
			}
			n++
			e := regs(b.St.trace)[0]
			f := b.St.facts
			ign := f.eval(isNilT(e.res(0))) == yes || f.find(func(t *Term) bool {
				return t.Op == "call" && t.Aux == "errors.Is" && f.eval(t) == yes && mentions(t.A[0], e.res(0)) && isGlobal(t.A[1], "errNoHandlerExists")
			}) != nil
			c.ob(ign, "op", m.name+": ignores", at, "an error other than that of a missing handler is ignored")
		}
		c.ob(n > 0, "op", m.name+": wraps", at, "no handlers are wrapped")
	}
}

// methodOf is the index of the method whose handler the iteration wraps.
func (c *Checker) methodOf(b *BackEdge, list, x, mws *Term) *Term {
	ev := regs(b.St.trace)
	if len(ev) != 1 || ev[0].Name != "wrapHandlerOf" || len(ev[0].Args) != 3 {
		return nil
	}
	rhb := strip(ev[0].Args[0])
	l, i := elem(ev[0].Args[1])
	if l != list || !ascending(i) || !sameLoop(i, b.Loop) || strip(ev[0].Args[2]) != mws {
		return nil
	}
	if rhb.Op != "call" || rhb.Aux != "requestHandlerBase" || !sameResponder(rhb.A[0], x) {
		return nil
	}
	return i
}

// sameStruct: the value is the given one, field by field.
func (c *Checker) sameStruct(ip *Interp, st *State, v, want *Term) bool {
	v = strip(v)
	if v == want {
		return true
	}
	if v.Op == "struct" {
		stt, ok := want.T.Underlying().(*types.Struct)
		if !ok || stt.NumFields() != len(v.A) {
			return false
		}
		for i, a := range v.A {
			if strip(a) != ip.field(want, want.T, i) {
				return false
			}
		}
		return true
	}
	return false
}

func init() {
	register("P29", "Every abstract path of the traversal and of the ten operations on subtrees is analysed, with the functions they apply to each responder. Judged: calls per element, what is queued below it, when the traversal may end, and which responders an operation applies to.", checkP29)
}
