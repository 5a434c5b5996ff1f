package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Registration is judged function by function: a call of another registration
// function is an event, its result is a function of nothing that's known, and
// the questions that templates answer are pure functions of the templates.

var pureTmpl = map[string]bool{
	"Content": true, "UnescapedContent": true, "IsStatic": true, "IsWildcard": true, "SimilarityWith": true,
	"ValueNames": true, "HasValueName": true, "String": true, "Name": true,
}

// set makes a set of names.
func set(ns ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range ns {
		m[n] = true
	}
	return m
}

func union(ms ...map[string]bool) map[string]bool {
	r := map[string]bool{}
	for _, m := range ms {
		for k := range m {
			r[k] = true
		}
	}
	return r
}

// unbase normalises a reference to a responder: the embedding object, the
// base it embeds and the interface value kept in the base are one responder.
func unbase(t *Term) *Term {
	for t != nil {
		switch {
		case t.Op == "derived":
			t = t.A[0]
			continue
		case t.Op == "iface" || t.Op == "ta":
			t = t.A[0]
			continue
		}
		break
	}
	return t
}

func sameResponder(x, y *Term) bool { return x != nil && y != nil && unbase(x) == unbase(y) }

// bareName is the name of the called in-package function or method; "" for
// others.
func (p *Prog) bareName(name string, fn *ssa.Function) (string, string) {
	if fn != nil {
		if !p.inPkg(fn) || fn.Parent() != nil {
			return "", ""
		}
		if r := fn.Signature.Recv(); r != nil {
			t := r.Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n, ok := types.Unalias(t).(*types.Named); ok {
				return n.Obj().Name(), fn.Name()
			}
		}
		return "", fn.Name()
	}
	if strings.HasPrefix(name, "invoke "+p.types.Name()+".") {
		s := strings.TrimPrefix(name, "invoke "+p.types.Name()+".")
		if i := strings.LastIndexByte(s, '.'); i >= 0 {
			return s[:i], s[i+1:]
		}
	}
	return "", ""
}

// regModel makes the calls of the named functions events and the template's
// questions pure functions.
func (p *Prog) regModel(opq map[string]bool, pure map[string]bool) modelFn {
	errT := types.Universe.Lookup("error").Type()
	_ = errT
	return func(ip *Interp, st *State, in *ssa.Function, name string, fn *ssa.Function, args []*Term, site string) ([]callRes, bool) {
		typ, base := p.bareName(name, fn)
		if base == "" {
			return nil, false
		}
		var sig *types.Signature
		if fn != nil {
			sig = fn.Signature
		} else {
			sig = p.ifaceMethodSig(typ, base)
		}
		if sig == nil {
			return nil, false
		}
		if n, ok := p.canonNames()[base]; ok {
			base = n
		}
		isPure := typ == "Template" && pureTmpl[base] && base != "Name" || typ == "Similarity" && base == "Err" || pure[base]
		if isPure {
			na := make([]*Term, len(args))
			for i, a := range args {
				na[i] = a
				if i == 0 && pure[base] {
					na[i] = unbase(a)
				}
			}
			return []callRes{{st: st, res: multi("call", base, sig, na)}}, true
		}
		if !opq[base] {
			return nil, false
		}
		na := append([]*Term(nil), args...)
		if len(na) > 0 && sig.Recv() != nil {
			na[0] = unbase(na[0])
		}
		ev := &Event{Kind: "reg", Name: base, Args: na, In: in, Mem: copyMem(st.mem), NFacts: st.facts.clone(), Callee: fn}
		ev.Res = multi("reg:"+base, site, sig, na)
		st.trace = append(st.trace, ev)
		for _, a := range args {
			ip.escape(st, a)
		}
		if fn != nil {
			ip.havoc(st, p.modset(fn))
		} else {
			ip.havoc(st, p.modsetOfMethod(base))
		}
		if ip.Effect != nil {
			ip.Effect(st, ev)
		}
		if base == "TryToParse" && ev.Res != nil && ev.Res.Op == "tuple" {
			// there's a template if there's no error
			var rs []callRes
			for _, fails := range []bool{true, false} {
				for _, f := range st.facts.assume(isNilT(ev.res(1)), !fails) {
					fs := []*Facts{f}
					if !fails {
						fs = f.assume(isNilT(ev.res(0)), false)
					}
					for _, f := range fs {
						s := st.clone()
						s.facts = f
						rs = append(rs, callRes{st: s, res: ev.Res})
					}
				}
			}
			return rs, true
		}
		return []callRes{{st: st, res: ev.Res}}, true
	}
}

func multi(op, aux string, sig *types.Signature, args []*Term) *Term {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return mk(op, aux, sig.Results().At(0).Type(), args...)
	}
	base := mk(op, aux, nil, args...)
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, mk("ext", itoa(i), sig.Results().At(i).Type(), base))
	}
	return tuple(rs...)
}

func (p *Prog) ifaceMethodSig(typ, name string) *types.Signature {
	n := p.lookupType(typ)
	if n == nil {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			s, _ := it.Method(i).Type().(*types.Signature)
			return s
		}
	}
	return nil
}

// result i of an event's call.
func (e *Event) res(i int) *Term {
	if e.Res != nil && e.Res.Op == "tuple" {
		return e.Res.A[i]
	}
	return e.Res
}

// regs are the events of the named functions; all of them without names.
func regs(tr []*Event, names ...string) []*Event {
	var r []*Event
	for _, e := range tr {
		if e.Kind != "reg" {
			continue
		}
		if len(names) == 0 {
			r = append(r, e)
		}
		for _, n := range names {
			if e.Name == n {
				r = append(r, e)
			}
		}
	}
	return r
}

var isErr = isErrorType

// outcomeOf splits an outcome into success and failure: k is called with
// failed for panics and returns of a non-nil error.
func outcomeOf(o *Outcome, k func(f *Facts, failed bool)) {
	if o.Kind == "panic" {
		k(o.St.facts, true)
		return
	}
	for _, x := range o.Res {
		if x != nil && x.T != nil && isErr(x.T) || x != nil && x.Op == "newerr" {
			fork(o.St.facts, isNilT(x), func(f *Facts, isnil bool) { k(f, !isnil) })
			return
		}
	}
	k(o.St.facts, false)
}

// all registration functions, by the names that the package's tests use.
var regNames = set("registerResource", "registerResourceUnder", "replaceResource", "registerHost", "replaceHost",
	"registerNewRoot", "initializeRootResource", "passChildResourcesTo", "keepResourceOrItsChildResources",
	"resourceWithTemplate", "hostWithTemplate", "pathSegmentResources", "segmentResources", "checkNamesAreUniqueInTheURL",
	"checkChildResourceNamesAreUniqueInURL", "validate", "validateHostTmpl", "validateURL",
	"checkForConfigCompatibility", "configure", "registeredResource", "registeredHost", "host",
	"splitHostAndPath", "splitPathSegments", "splitURL", "getHost", "TryToParse", "createDormantHost", "createDormantResource",
	"newDormantResource", "newRootResource", "detectHTTPMethodHandlersOf", "respondersInThePath", "HostNamed",
	"ChildResourceNamed", "ChildResources", "Hosts", "traverseAndCall", "makePathSegmentIterator", "nextSegment", "remainingPath",
	"templateNameAndContent", "setHandlerFor", "wrapHandlerOf", "handlerOf")

func (p *Prog) regInterp(inline ...string) *Interp {
	ip := p.newInterp()
	opq := union(regNames)
	for _, n := range inline {
		delete(opq, n)
	}
	ip.Model = p.regModel(opq, nil)
	return ip
}

type regRun struct {
	ip   *Interp
	outs []Outcome
	ps   []*Term
	fn   *ssa.Function
}

// regOf analyses a registration function; the listed ones are analysed in
// place instead of being events.
func (c *Checker) regOf(typ, name string, inline ...string) *regRun {
	fn := c.p.actual(typ, name)
	if fn == nil {
		c.undecided(name, "the function was not found")
		return nil
	}
	ip := c.p.regInterp(inline...)
	// the function itself is analysed; it's an event when called again
	ps := params(fn)
	if len(ps) > 0 && fn.Signature.Recv() != nil {
		// a nil receiver isn't considered
	}
	outs := c.run(ip, newState(), fn, ps)
	if outs == nil {
		return nil
	}
	return &regRun{ip, outs, ps, fn}
}
func itoa(i int) string { return strconv.Itoa(i) }

// canonical signatures of the helpers that the package's tests don't name; a
// helper with another name is known by its receiver and signature.
var canonSigs = map[string]string{
	"-.splitHostAndPath":        "func(string) (string, string, bool, bool, error)",
	"-.splitURL":                "func(string) (string, string, string, bool, bool, error)",
	"-.getHost":                 "func(string) (string, bool, bool, error)",
	"-.createHost":              "func(string, Impl, *Config) (*Host, error)",
	"-.createResource":          "func(string, Impl, *Config) (*Resource, error)",
	"-.splitPathSegments":       "func(string) ([]string, bool, bool, error)",
	"-.makePathSegmentIterator": "func(string) (_PathSegmentIterator)",
	"_ResponderBase.configure":  "func(bool, bool, *_ConfigFlags)",
	"_ResponderBase.checkForConfigCompatibility": "func(bool, bool, *_ConfigFlags) (error)",
	"_ResponderBase.validateURL":                 "func(string, string) (string, error)",
	"_ResponderBase.registeredResource":          "func(string) (*Resource, bool, error)",
	"Router.registeredHost":                      "func(string) (*Host, *Template, error)",
	"Router.host":                                "func(string) (*Host, bool, bool, bool, error)",
	"-.traverseAndCall":                          "func([]_Responder, func(_Responder) error) (error)",
	"-.responderURL":                             "func(_Responder, TemplateValues) (*url.URL, error)",
	"-.redirector":                               "func(*_ResponderBase, string, int) (Handler, error)",
	"-.wrapEveryHandlerOf":                       "func(string, []_Responder, []Middleware) (error)",
	"_ResponderBase.resetConfigFlags":            "func(_ConfigFlags)",
	"_ConfigFlags.asConfig":                      "func() (Config)",
	"_PathSegmentIterator.nextSegment":           "",
}

func (p *Prog) sigString(s *types.Signature) string {
	q := func(o *types.Package) string {
		if o == p.types {
			return ""
		}
		return o.Name()
	}
	str := func(t *types.Tuple) string {
		r := ""
		for i := 0; i < t.Len(); i++ {
			if i > 0 {
				r += ", "
			}
			r += types.TypeString(types.Unalias(t.At(i).Type()), q)
		}
		return r
	}
	r := "func(" + str(s.Params()) + ")"
	if s.Results().Len() > 0 {
		r += " (" + str(s.Results()) + ")"
	}
	return r
}

func recvName(f *ssa.Function) string {
	r := f.Signature.Recv()
	if r == nil {
		return "-"
	}
	t := r.Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return "?"
}

// canonNames maps the names of helpers to the names used here.
func (p *Prog) canonNames() map[string]string {
	if p.canon != nil {
		return p.canon
	}
	p.canon = map[string]string{}
	have := map[string]bool{}
	by := map[string][]*ssa.Function{}
	for _, f := range p.allFns() {
		if f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		k := recvName(f)
		have[k+"."+f.Name()] = true
		by[k+" "+p.sigString(f.Signature)] = append(by[k+" "+p.sigString(f.Signature)], f)
	}
	for k, s := range canonSigs {
		if have[k] || s == "" {
			continue
		}
		i := strings.IndexByte(k, '.')
		var c []*ssa.Function
		for _, f := range by[k[:i]+" "+s] {
			if _, known := canonSigs[k[:i]+"."+f.Name()]; !known && !pinned[f.Name()] {
				c = append(c, f)
			}
		}
		if len(c) == 1 {
			p.canon[c[0].Name()] = k[i+1:]
		}
	}
	return p.canon
}

// names that belong to other functions for sure.
var pinned = set("setConfigFlags", "validate", "parse", "hostWithTemplate", "resourceWithTemplate")

// actual finds a function by the name used here.
func (p *Prog) actual(typ, name string) *ssa.Function {
	get := func(n string) *ssa.Function {
		if typ == "-" {
			return p.fn(n)
		}
		return p.method(typ, n)
	}
	if f := get(name); f != nil {
		return f
	}
	for a, c := range p.canonNames() {
		if c == name {
			if f := get(a); f != nil {
				return f
			}
		}
	}
	return nil
}
