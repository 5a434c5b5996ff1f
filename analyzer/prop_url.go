package main

import (
	"strings"
)

// URLs of responders.

type urlSpec struct {
	c        *Checker
	ip       *Interp
	r, vals  *Term
	segs     map[*Term]bool // registers that collect the segments in the walk
	walks    map[*Term]bool
	hostVars map[*Term]bool
}

// value: the text is the template's with the values put in.
func (u *urlSpec) value(f *Facts, v, w *Term, tr []*Event) bool {
	v = strip(v)
	tmpl := mk("call", "Template", nil, unbase(w))
	is := func(t *Term) bool {
		return t.Op == "call" && t.Aux == "Template" && unbase(t.A[0]) == unbase(w) || t == tmpl
	}
	if v.Op == "call" && v.Aux == "UnescapedContent" && is(v.A[0]) {
		return f.find(func(t *Term) bool {
			return t.Op == "call" && t.Aux == "IsStatic" && t.A[0] == v.A[0] && f.eval(tEq(t, tBool(true))) == yes
		}) != nil
	}
	for _, e := range regs(tr, "TryToApply") {
		if e.res(0) == v {
			return is(strip(e.Args[0])) && e.Args[1] == u.vals && e.Args[2] == tBool(false) && f.eval(isNilT(e.res(1))) == yes
		}
	}
	return false
}

func (u *urlSpec) kind(f *Facts, w *Term) string {
	ty := func(n string) tri {
		return f.eval(mk("tyok", "*"+u.c.p.types.Name()+"."+n, nil, w))
	}
	switch {
	case f.eval(isNilT(w)) == yes:
		return "end"
	case ty("Resource") == yes:
		switch f.eval(tEq(u.isRoot(f, w), tBool(true))) {
		case yes:
			return "root"
		case no:
			return "resource"
		}
		return "?"
	case ty("Host") == yes:
		return "host"
	case ty("Router") == yes || ty("Resource") == no && ty("Host") == no:
		return "router"
	}
	return "?"
}

func (u *urlSpec) isRoot(f *Facts, w *Term) *Term { return u.question(f, "isRoot", w) }

func (u *urlSpec) question(f *Facts, name string, w *Term) *Term {
	if q := f.find(func(t *Term) bool {
		return t.Op == "call" && t.Aux == name && len(t.A) == 1 && unbase(t.A[0]) == unbase(w)
	}); q != nil {
		return q
	}
	return mk("call", name, boolT, unbase(w))
}

// descending: the index goes from the list's last element to the first.
func descending(i, list *Term) bool {
	x := tSub(tAdd(i, tInt(1)), tLen(list))
	return x.Op == "ind" && strings.HasSuffix(x.Aux, "|0|-1")
}

// backwards: i is len(list)-1-k for an ascending k.
func backwards(i, list *Term) *Term {
	k := tSub(tSub(tLen(list), tInt(1)), i)
	if ascending(k) {
		return k
	}
	return nil
}

// path: the text has a slash before each segment, from the top one down.
func (u *urlSpec) path(f *Facts, v *Term) string {
	v = strip(v)
	if u.segs[v] {
		for _, b := range u.ip.stepsOf(v) {
			if n := b.Next[v]; n != v && n.Op != "concat" {
				return "the path is the list of segments"
			}
		}
		return ""
	}
	empty := func() bool {
		for s := range u.segs {
			if noneIn(f, s) {
				return true
			}
		}
		return false
	}
	if v == tStr("") {
		if empty() {
			return ""
		}
		return "the segments are left out"
	}
	bs := u.ip.stepsOf(v)
	if len(bs) == 0 {
		return "it's " + clip(v.String(), 120)
	}
	for _, b := range bs {
		if x := b.Init[v]; x != nil && x != tStr("") && !(x.Op == "init" && rootOf(x.A[0]).Op == "alloc") {
			return "the path isn't empty at the start"
		}
		n := b.Next[v]
		if n == nil || n.Op != "concat" || len(n.A) != 3 || n.A[0] != v || n.A[1] != tStr("/") {
			return "an iteration doesn't add a slash and a segment"
		}
		l, i := elem(n.A[2])
		if l == nil || !u.segs[l] {
			return "what an iteration adds isn't a segment"
		}
		k := backwards(i, l)
		switch {
		case descending(i, l):
			if f.eval(tLt(i, tInt(0))) != yes {
				return "the loop may end before the first segment"
			}
		case k != nil:
			if !exhaustedBy(f, k, l) {
				return "the loop may end before the first segment"
			}
		default:
			return "the segments aren't added from the last to the first"
		}
	}
	return ""
}

func checkP33(c *Checker) {
	p := c.p
	c.rule("walk: from the responder up to the host or the top, every resource except the root adds its segment, and nothing else does")
	c.rule("segment: a static template's text, or the template with the given values, all of which are needed")
	c.rule("path: the segments from the top down, each after a slash; a slash at the end if the responder has one, or is the root")
	c.rule("host: the host's template with the values; empty without a host")
	c.rule("scheme: https if and only if the responder is secure")
	c.rule("error: only values that don't fit make it fail")
	c.rule("own: URL asks for the responder's own URL with the given values")
	fn := p.actual("-", "responderURL")
	if fn == nil {
		c.undecided("responderURL", "the function that makes a responder's URL was not found")
		return
	}
	ip := p.newInterp()
	ip.Model = p.regModel(set("TryToApply"), set("parent", "isRoot", "Template", "IsSecure", "HasTrailingSlash"))
	ps := params(fn)
	if len(ps) != 2 {
		c.undecided("responderURL", "the function has other parameters")
		return
	}
	outs := c.run(ip, newState(), fn, ps)
	if outs == nil {
		return
	}
	u := &urlSpec{c: c, ip: ip, r: ps[0], vals: ps[1], segs: map[*Term]bool{}, walks: map[*Term]bool{}, hostVars: map[*Term]bool{}}
	for j := range ip.backedges {
		b := &ip.backedges[j]
		for w := range b.Next {
			if sameResponder(strip(nonNil(b.Init[w])), u.r) {
				u.walks[w] = true
			}
		}
	}
	c.ob(len(u.walks) == 1, "walk", "walk", c.at(fn, fn.Pos()), "there isn't one walk from the responder upwards")
	for j := range ip.backedges {
		b := &ip.backedges[j]
		f := b.St.facts
		for w := range u.walks {
			n, ok := b.Next[w]
			if !ok {
				continue
			}
			at := c.at(b.Fn, b.Fn.Pos())
			n = strip(n)
			c.ob(n.Op == "call" && n.Aux == "parent" && sameResponder(n.A[0], w), "walk", "walk: up", at, "the walk doesn't go on with the parent [%s]", n)
			kind := u.kind(f, w)
			added := 0
			for s, nx := range b.Next {
				if s == w {
					continue
				}
				ini := strip(nonNil(b.Init[s]))
				list := ini.isNil() || ini.Op == "list" && len(ini.A) == 0 || ini.Op == "mkslice"
				str := ini == tStr("") || ini.Op == "init" && rootOf(ini.A[0]).Op == "alloc"
				switch {
				case nx == s:
					if list {
						u.segs[s] = true
					}
				case list && nx.Op == "append" && len(nx.A) == 2 && nx.A[0] == s && kind == "resource":
					added++
					u.segs[s] = true
					c.ob(u.value(f, nx.A[1], w, b.St.trace), "segment", "segment", at, "what is added isn't the segment of the resource [%s]", nx.A[1])
				case str && nx.Op == "concat" && len(nx.A) == 3 && nx.A[0] == tStr("/") && nx.A[2] == s && kind == "resource":
					added++
					u.segs[s] = true
					c.ob(u.value(f, nx.A[1], w, b.St.trace), "segment", "segment", at, "what is added isn't the segment of the resource [%s]", nx.A[1])
				case kind == "host" && u.value(f, nx, w, b.St.trace):
					u.hostVars[s] = true
				case nx.isNil() || s.Op != "widen":
				default:
					c.ob(false, "walk", "walk: only segments", at, "at %s something else is collected [%s]", kind, clip(nx.String(), 200))
				}
			}
			want := 0
			if kind == "resource" {
				want = 1
			}
			c.ob(kind != "?" && kind != "end" && added == want, "walk", "walk: "+kind, at, "at %s, %d segments are added [path: %s]", kind, added, clip(f.String(), 300))
		}
	}
	for i := range outs {
		u.result(&outs[i])
	}
	u.own()
	c.min("walk", 6)
	c.min("segment", 1)
	c.min("path", 4)
	c.min("host", 3)
	c.min("scheme", 2)
	c.min("error", 1)
	c.min("own", 2)
}

func (u *urlSpec) result(o *Outcome) {
	c, p := u.c, u.c.p
	at := c.at(o.In, o.Pos)
	if !c.ob(o.Kind == "return" && len(o.Res) == 2, "error", "panics", at, "making the URL panics") {
		return
	}
	c.ob(len(p.writesIn(o.St.trace)) == 0, "error", "changes", at, "making the URL changes something")
	fork(o.St.facts, isNilT(o.Res[1]), func(f *Facts, isnil bool) {
		if !isnil {
			ok := false
			for _, e := range regs(o.St.trace, "TryToApply") {
				ok = ok || f.eval(isNilT(e.res(1))) == no
			}
			c.ob(ok, "error", "error", at, "the URL isn't made though nothing is wrong with the values")
			return
		}
		url := strip(o.Res[0])
		if !c.ob(url.Op == "alloc", "path", "result", at, "the URL isn't a new one [%s]", url) {
			return
		}
		got := map[string]*Term{}
		for a, v := range o.St.mem {
			if a.Op == "faddr" && a.A[0] == url {
				got[a.Aux] = v
			}
		}
		for n, v := range got {
			switch n {
			case "Scheme", "Host", "Path":
			default:
				ok := v.isNil() || v == tStr("") || v == tBool(false)
				c.ob(ok, "path", "only that", at, "the URL's %s is set", n)
			}
		}
		field := func(n string) *Term {
			if v := got[n]; v != nil {
				return strip(v)
			}
			return tStr("")
		}
		// the scheme
		fork(f, tEq(u.question(f, "IsSecure", u.r), tBool(true)), func(f *Facts, sec bool) {
			want := "http"
			if sec {
				want = "https"
			}
			c.ob(field("Scheme") == tStr(want), "scheme", want, at, "the scheme of a responder with IsSecure %v is %s", sec, field("Scheme"))
		})
		// the host
		for w := range u.walks {
			h := field("Host")
			switch u.kind(f, w) {
			case "host":
				c.ob(u.value(f, h, w, o.St.trace), "host", "host", at, "the URL's host isn't the host's template with the values [%s]", h)
			case "end", "router":
				c.ob(h == tStr("") || u.hostVar(h), "host", "none", at, "the URL has a host though the responder has none [%s]", h)
			default:
				c.ob(false, "host", "end of the walk", at, "the walk ends at %s [path: %s]", u.kind(f, w), clip(f.String(), 300))
			}
		}
		u.tail(f, o, field("Path"), at)
	})
}

// hostVar: the register is set at hosts only.
func (u *urlSpec) hostVar(v *Term) bool {
	if !u.hostVars[v] {
		return false
	}
	for _, b := range u.ip.stepsOf(v) {
		if b.Init[v] != nil && strip(b.Init[v]) != tStr("") {
			return false
		}
	}
	return true
}

func (u *urlSpec) tail(f *Facts, o *Outcome, path *Term, at string) {
	c := u.c
	base, slash := path, false
	if path.Op == "concat" && path.A[len(path.A)-1] == tStr("/") {
		slash = true
		base = tStr("")
		for _, a := range path.A[:len(path.A)-1] {
			base = tConcat(base, a)
		}
	} else if path == tStr("/") {
		base, slash = tStr(""), true
	}
	s := u.path(f, base)
	c.ob(s == "", "path", "segments", at, "the path isn't made of the segments from the top down: %s", s)
	want := func(f *Facts, yes bool, what string) {
		c.ob(slash == yes, "path", what, at, "for %s a slash at the end is %v, not %v [path: %s]", what, slash, yes, clip(f.String(), 300))
	}
	ts := tEq(u.question(f, "HasTrailingSlash", u.r), tBool(true))
	is := func(f *Facts, n string) tri { return f.eval(mk("tyok", "*"+c.p.types.Name()+"."+n, nil, u.r)) }
	plain := func(f *Facts, k string) {
		fork(f, ts, func(f *Facts, has bool) {
			want(f, has, "a "+k+map[bool]string{true: " with a trailing slash", false: " without one"}[has])
		})
	}
	switch {
	case is(f, "Resource") == yes:
		fork(f, tEq(u.isRoot(f, u.r), tBool(true)), func(f *Facts, root bool) {
			if !root {
				plain(f, "resource")
			} else if f.eval(tEqC(tLen(base), 0)) != no {
				// the root has no segments
				want(f, true, "the root")
			}
		})
	case is(f, "Host") == yes:
		plain(f, "host")
	case is(f, "Resource") == no && is(f, "Host") == no:
		// there are no other responders
		c.ob(!slash || f.eval(ts) == yes, "path", "other", at, "a slash is added though the responder has no trailing slash")
	case is(f, "Resource") == no:
		plain(f, "host")
	default:
		c.ob(false, "path", "slash", at, "the slash at the end doesn't follow from the responder's kind [path: %s]", clip(f.String(), 300))
	}
}

// own judges the exported method.
func (u *urlSpec) own() {
	c := u.c
	rr := c.pureRun("_ResponderBase", "URL", set("responderURL"), nil)
	if rr == nil {
		return
	}
	for i := range rr.outs {
		o := &rr.outs[i]
		if !c.quiet("own", "URL", o) {
			continue
		}
		at := c.at(o.In, o.Pos)
		es := regs(o.St.trace, "responderURL")
		if !c.ob(len(es) == 1 && sameResponder(es[0].Args[0], rr.ps[0]) && es[0].Args[1] == rr.ps[1], "own", "URL: asks", at, "it isn't the responder's own URL with the given values") {
			continue
		}
		fork(o.St.facts, isNilT(es[0].res(1)), func(f *Facts, isnil bool) {
			if isnil {
				c.ob(strip(o.Res[0]) == es[0].res(0) && f.eval(isNilT(o.Res[1])) == yes, "own", "URL: result", at, "the URL that was made isn't returned")
			} else {
				c.ob(f.eval(isNilT(o.Res[1])) == no, "own", "URL: error", at, "the error is lost")
			}
		})
	}
}

func init() {
	register("P33", "Every abstract path of URL and of the function that makes a responder's URL is analysed, its walk upwards and the loop that joins the segments included. Judged: scheme, host, which segments are taken with which values, their order and the slash at the end.", checkP33)
}
