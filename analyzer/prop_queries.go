package main

import (
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Questions change nothing.

// changer: the exported method is one that configures, registers or serves.
func changer(typ, name string) bool {
	switch name {
	case "ServeHTTP", "Resource", "ResourceUsingConfig", "HostUsingConfig", "Clear", "SetName", "RedirectAnyRequestTo", "Match":
		return true
	case "Host":
		return typ == "Router"
	}
	for _, p := range []string{"Set", "Wrap", "Register", "RedirectRequest", "RedirectAnyRequest", "Handle"} {
		if strings.HasPrefix(name, p) && len(name) > len(p) && ast.IsExported(name[len(p):]) {
			return true
		}
	}
	return name == "Set"
}

// questions are the exported methods that only answer.
func (p *Prog) questions() (r []*ssa.Function) {
	for _, typ := range []string{"_ResponderBase", "Host", "Resource", "Router", "Template", "_RequestHandlerBase"} {
		n := p.lookupType(typ)
		if n == nil {
			continue
		}
		for i := 0; i < n.NumMethods(); i++ {
			m := n.Method(i)
			if !m.Exported() || changer(typ, m.Name()) {
				continue
			}
			if f := p.method(typ, m.Name()); f != nil && len(f.Blocks) > 0 {
				r = append(r, f)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return p.short(r[i]) < p.short(r[j]) })
	return r
}

// activating: the exported method looks for a responder by its URL template
// and activates it if it's dormant.
func activating(name string) bool {
	return strings.HasPrefix(name, "Registered") || strings.HasSuffix(name, "At") || name == "PathHandlerOf" || name == "URLHandlerOf"
}

// reached are the functions that the given ones may call; functions that they
// refer to, if something of their kind is called.
func (p *Prog) reached(from []*ssa.Function) (r []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	refs := map[*ssa.Function]bool{}
	called := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		f = p.unwrap(f)
		if f == nil || seen[f] || !p.inPkg(f) {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					if c.Common().IsInvoke() || c.Common().StaticCallee() != nil {
						for _, g := range p.callees(c.Common()) {
							visit(g)
						}
					} else if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
						called[sigKey(c.Common().Signature())] = true
					}
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee {
						refs[p.unwrap(g)] = true
					}
				}
			}
		}
	}
	for _, f := range from {
		visit(f)
	}
	for n := -1; n != len(seen); {
		n = len(seen)
		for g := range refs {
			if called[sigKey(g.Signature)] {
				visit(g)
			}
		}
	}
	return r
}

// origins decides where objects were made, for calls within a set of
// functions.
type origins struct {
	p    *Prog
	in   map[*ssa.Function]bool
	seen map[ssa.Value]bool
}

func (p *Prog) originsIn(fns []*ssa.Function) *origins {
	o := &origins{p: p, in: map[*ssa.Function]bool{}}
	for _, f := range fns {
		o.in[f] = true
	}
	return o
}

// own: the object that the address belongs to was made by the function or by
// those who call it.
func (o *origins) own(v ssa.Value, f *ssa.Function) bool {
	o.seen = map[ssa.Value]bool{}
	return o.made(v, f)
}

// args are what the callers give to a parameter.
func (o *origins) args(x *ssa.Parameter, f *ssa.Function, k func(a ssa.Value, in *ssa.Function) bool) bool {
	if f.Object() == nil || f.Object().Exported() && !o.private(f) || o.p.addrTaken(f) {
		return false
	}
	n := 0
	for i, q := range f.Params {
		if q != x {
			continue
		}
		for _, cs := range o.p.callers[f] {
			if !o.in[cs.in] {
				continue
			}
			args := cs.ins.Common().Args
			if cs.ins.Common().IsInvoke() || i >= len(args) || !k(args[i], cs.in) {
				return false
			}
			n++
		}
	}
	return n > 0
}

// private: a method of a type that users can't name.
func (o *origins) private(f *ssa.Function) bool {
	n := recvName(f)
	return n != "" && !ast.IsExported(n) && n != "_ResponderBase"
}

func (o *origins) made(v ssa.Value, f *ssa.Function) bool {
	if o.seen[v] {
		return true
	}
	o.seen[v] = true
	p := o.p
	if g := v.Parent(); g != nil {
		f = g
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Alloc:
		return true
	case *ssa.IndexAddr:
		return o.made(x.X, f)
	case *ssa.FieldAddr:
		return o.made(x.X, f)
	case *ssa.Slice:
		return o.made(x.X, f)
	case *ssa.ChangeType:
		return o.made(x.X, f)
	case *ssa.Convert:
		return o.made(x.X, f)
	case *ssa.MakeInterface:
		return o.made(x.X, f)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !o.made(e, f) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		return o.loaded(x.X, f)
	case *ssa.FreeVar:
		b, in := p.binding(x, f)
		return b != nil && o.made(b, in)
	case *ssa.Call:
		return o.result(x, 0, f)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return o.result(c, x.Index, f)
		}
	case *ssa.Parameter:
		return o.args(x, f, o.made)
	}
	return false
}

// loaded: whatever the variable or the field of an own object holds was made
// here too.
func (o *origins) loaded(cell ssa.Value, f *ssa.Function) bool {
	if g := cell.Parent(); g != nil {
		f = g
	}
	switch x := cell.(type) {
	case *ssa.Alloc:
		for _, v := range cellStores(x) {
			if !o.made(v, x.Parent()) {
				return false
			}
		}
		return true
	case *ssa.FreeVar:
		b, in := o.p.binding(x, f)
		return b != nil && o.loaded(b, in)
	case *ssa.Parameter:
		for _, v := range cellStores(x) {
			if !o.made(v, f) {
				return false
			}
		}
		return o.args(x, f, o.loaded)
	case *ssa.UnOp:
		// a variable that has the address
		root := x.X
		if fv, ok := root.(*ssa.FreeVar); ok {
			root, _ = o.p.binding(fv, f)
		}
		if _, ok := root.(*ssa.Alloc); !ok {
			return false
		}
		for _, v := range cellStores(root) {
			if !o.loaded(v, f) {
				return false
			}
		}
		return true
	case *ssa.FieldAddr:
		// a field of a struct in a variable
		a, ok := x.X.(*ssa.Alloc)
		if !ok || a.Referrers() == nil {
			return o.field(x, f)
		}
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				if r.Field != x.Field {
					continue
				}
				for _, v := range cellStores(r) {
					if !o.made(v, f) {
						return false
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return o.field(x, f)
			}
		}
		return true
	}
	return false
}

// field: the object was made here, and whatever is stored anywhere in the
// field of such objects was made here too.
func (o *origins) field(x *ssa.FieldAddr, f *ssa.Function) bool {
	if !o.made(x.X, f) {
		return false
	}
	t := x.X.Type().Underlying().(*types.Pointer).Elem()
	for g := range o.in {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if types.Identical(st.Val.Type(), t) {
					// a copy of another object
					return false
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.Field == x.Field && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), t) && !o.made(st.Val, g) {
					return false
				}
			}
		}
	}
	return true
}

func (o *origins) result(c *ssa.Call, i int, f *ssa.Function) bool {
	if bi, ok := c.Call.Value.(*ssa.Builtin); ok {
		return bi.Name() == "append" && o.made(c.Call.Args[0], f)
	}
	g := c.Call.StaticCallee()
	if g == nil {
		return false
	}
	if n := o.p.fnName(g); !o.p.inPkg(g) {
		switch n {
		case "slices.Clone", "slices.Sorted", "slices.Collect", "maps.Clone", "slices.Concat", "strings.Split", "(*regexp.Regexp).Split":
			return true
		}
		return false
	}
	if len(g.Blocks) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && !o.made(r.Results[i], g) {
				return false
			}
		}
	}
	return true
}

// cellStores are the values that a variable gets, also in closures.
func cellStores(a ssa.Value) (r []ssa.Value) {
	if a.Referrers() == nil {
		return nil
	}
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == a {
				r = append(r, u.Val)
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == a {
					r = append(r, cellStores(u.Fn.(*ssa.Function).FreeVars[i])...)
				}
			}
		}
	}
	return r
}

// binding is the variable that a closure has from where it's made.
func (p *Prog) binding(fv *ssa.FreeVar, f *ssa.Function) (ssa.Value, *ssa.Function) {
	parent := f.Parent()
	if parent == nil {
		return nil, nil
	}
	for _, b := range parent.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			for i, x := range f.FreeVars {
				if x == fv {
					if up, ok := mc.Bindings[i].(*ssa.FreeVar); ok {
						return p.binding(up, parent)
					}
					return mc.Bindings[i], parent
				}
			}
		}
	}
	return nil, nil
}

// writesOwn: the functions write only to what they made themselves, or to
// values of the excepted type.
func (c *Checker) writesOwn(fns []*ssa.Function, but string) {
	p := c.p
	o := p.originsIn(fns)
	for _, f := range fns {
		c.analysed[p.short(f)] = true
		n := 0
		check := func(in ssa.Instruction, v ssa.Value, what string) {
			n++
			if pt, ok := v.Type().Underlying().(*types.Pointer); ok && but != "" {
				if nt, ok := pt.Elem().(*types.Named); ok && nt.Obj().Name() == but {
					return
				}
			}
			c.ob(o.own(v, f), "writes", p.short(f)+": "+what, p.at(f, in.Pos()), "%s %s %s, which it didn't make; it's reached by an exported function that only answers a question", p.short(f), what, v.Type())
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					check(in, x.Addr, "writes to")
				case *ssa.MapUpdate:
					check(in, x.Map, "updates")
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "clear", "delete":
							check(in, cc.Args[0], bi.Name()+"s to")
						}
						continue
					}
					g := cc.StaticCallee()
					if g == nil || p.inPkg(p.unwrap(g)) || !mutatingExt(p.fnName(g)) {
						continue
					}
					for _, a := range cc.Args {
						switch a.Type().Underlying().(type) {
						case *types.Pointer, *types.Slice, *types.Map:
							check(in, a, "lets "+p.fnName(g)+" change")
						}
					}
				}
			}
		}
		if n == 0 {
			c.ob(true, "writes", p.short(f), "", "")
		}
	}
}

func checkP04(c *Checker) {
	c.rule("writes: every write in the functions that the questions reach goes to an object that they made themselves")
	c.rule("lists: a list that a question returns isn't one that a responder or a template holds")
	p := c.p
	qs := p.questions()
	c.ob(len(qs) > 20, "questions", "all", "", "the exported questions were not found")
	var strict, lax []*ssa.Function
	for _, f := range qs {
		if activating(f.Name()) {
			lax = append(lax, f)
		} else {
			strict = append(strict, f)
		}
	}
	c.ob(len(lax) > 0 && len(strict) > len(lax), "questions", "kinds", "", "the exported questions were not found")
	c.writesOwn(p.reached(strict), "")
	c.writesOwn(p.reached(lax), "_ConfigFlags")
	for _, f := range qs {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			switch f.Signature.Results().At(i).Type().Underlying().(type) {
			case *types.Slice, *types.Map:
			default:
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if r, ok := in.(*ssa.Return); ok {
						c.ob(p.originsIn(p.reached(qs)).own(r.Results[i], f), "lists", p.short(f), p.at(f, in.Pos()), "%s returns a list that it didn't make: the caller can change what a responder or a template holds", p.short(f))
					}
				}
			}
		}
	}
}

func init() {
	register("P04", "Every function that the exported questions about responders, the router and templates reach is found, and the target of every write in them, and every list that they return, is traced back to where it was made.", checkP04)
}
