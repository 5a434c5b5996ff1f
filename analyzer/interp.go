package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The interpreter is a predicate-sensitive dataflow analysis over SSA. The
// abstract state is (abstract values of registers and memory cells) x (finite
// set of predicates) x (trace of effects). States are propagated forward over
// the control flow graph; in-package callees are analysed in the caller's
// abstract state; loops are brought to a fixpoint by widening every register
// and memory cell that the body changes.

type Event struct {
	Kind   string // dyn, opaque, ext, store, mapset, pool…
	Name   string
	Target *Term
	Args   []*Term
	Res    *Term
	Pos    token.Pos
	In     *ssa.Function
	Mem    map[*Term]*Term
	Callee *ssa.Function
	NFacts *Facts
}

func (e *Event) String() string {
	var as []string
	for _, a := range e.Args {
		as = append(as, a.String())
	}
	n := e.Name
	if e.Target != nil {
		n += " " + e.Target.String()
	}
	return e.Kind + ":" + n + "(" + strings.Join(as, ", ") + ")"
}

type State struct {
	mem   map[*Term]*Term
	epoch map[string]int
	fresh map[*Term]bool
	esc   map[*Term]bool
	facts *Facts
	trace []*Event
}

func newState() *State {
	return &State{
		mem: map[*Term]*Term{}, epoch: map[string]int{}, fresh: map[*Term]bool{},
		esc: map[*Term]bool{}, facts: newFacts(),
	}
}

func (s *State) clone() *State {
	n := &State{
		mem: make(map[*Term]*Term, len(s.mem)+4), epoch: make(map[string]int, len(s.epoch)),
		fresh: make(map[*Term]bool, len(s.fresh)+1), esc: make(map[*Term]bool, len(s.esc)),
		facts: s.facts.clone(), trace: s.trace[:len(s.trace):len(s.trace)],
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	for k, v := range s.fresh {
		n.fresh[k] = v
	}
	for k, v := range s.esc {
		n.esc[k] = v
	}
	return n
}

func (s *State) withFacts(f *Facts) *State {
	n := s.clone()
	n.facts = f.clone()
	return n
}

type Outcome struct {
	Kind  string // return, panic
	Res   []*Term
	St    *State
	Pos   token.Pos
	In    *ssa.Function
	Trace []*Event
}

type BackEdge struct {
	Loop string
	Fn   *ssa.Function
	St   *State
	Head int // number of events at the head of the loop
	// Next is the value that each register and cell of the loop's head has
	// after the iteration.
	Next map[*Term]*Term
	// Init is the value they had when the loop was entered.
	Init map[*Term]*Term
}

type callRes struct {
	st  *State
	res *Term // a tuple for several results; nil if none
	out *Outcome
}

type Interp struct {
	p *Prog

	// Opaque makes calls of an in-package function an event.
	Opaque func(*ssa.Function) bool
	// Pure makes an opaque function's result a function of its arguments.
	Pure func(*ssa.Function) bool
	// DynHavoc lists the fields that a call of a function value may change.
	DynHavoc map[string]bool
	// OpaqueHavoc returns the fields that an opaque callee may change.
	OpaqueHavoc func(*ssa.Function) map[string]bool
	// Effect is told about every write and external call, on every path and
	// in every iteration of the loops' fixpoints.
	Effect func(st *State, e *Event)
	// Model may override any call.
	Model func(ip *Interp, st *State, in *ssa.Function, name string, fn *ssa.Function, args []*Term, site string) ([]callRes, bool)

	steps    int
	MaxSteps int
	err      string

	stack     []*ssa.Function
	backedges []BackEdge
	analysed  map[*ssa.Function]bool
	nbranch   int

	probing, probeOver bool // see threaded
}

func (p *Prog) newInterp() *Interp {
	return &Interp{p: p, MaxSteps: 8_000_000, analysed: map[*ssa.Function]bool{}}
}

type loopCtx struct {
	key    string
	header *ssa.BasicBlock
	set    map[*ssa.BasicBlock]bool
	parent *loopCtx
	exits  *[]loopExit
	backs  *[]loopExit
}

type loopExit struct {
	env  map[ssa.Value]*Term
	st   *State
	to   *ssa.BasicBlock
	from *ssa.BasicBlock
	dfr  []deferred
}

type deferred struct {
	call *ssa.CallCommon
	fnT  *Term
	args []*Term
	site string
	pos  token.Pos
}

type frame struct {
	fn   *ssa.Function
	path string
	outs *[]Outcome
}

// Run analyses fn from the state with the given arguments.
func (ip *Interp) Run(st *State, fn *ssa.Function, args []*Term) []Outcome {
	return ip.runFunc(st, fn, args, nil, fn.Name())
}

// RunClosure analyses a function literal with given free variables.
func (ip *Interp) RunClosure(st *State, fn *ssa.Function, args, free []*Term) []Outcome {
	return ip.runFunc(st, fn, args, free, fn.Name())
}

func (ip *Interp) runFunc(st *State, fn *ssa.Function, args, free []*Term, path string) []Outcome {
	ip.analysed[fn] = true
	ip.stack = append(ip.stack, fn)
	defer func() { ip.stack = ip.stack[:len(ip.stack)-1] }()
	env := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		} else {
			env[p] = mk("sym", "param:"+p.Name(), p.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) {
			env[fv] = free[i]
		} else {
			env[fv] = symT("$free:"+fv.Name(), fv.Type())
		}
	}
	var outs []Outcome
	fr := &frame{fn: fn, path: path, outs: &outs}
	if len(fn.Blocks) == 0 {
		ip.fail("no body: " + fn.String())
		return nil
	}
	ip.enter(fr, env, st, fn.Blocks[0], nil, nil, nil)
	return outs
}

func (ip *Interp) fail(s string) {
	if ip.err == "" {
		ip.err = s
	}
}

func cloneEnv(e map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(e)+8)
	for k, v := range e {
		n[k] = v
	}
	return n
}

// enter moves control to block b coming from prev.
func (ip *Interp) enter(fr *frame, env map[ssa.Value]*Term, st *State, b, prev *ssa.BasicBlock, lc *loopCtx, dfr []deferred) {
	if ip.err != "" {
		return
	}
	for l := lc; l != nil; l = l.parent {
		_ = l
		break
	}
	if lc != nil {
		if b == lc.header {
			*lc.backs = append(*lc.backs, loopExit{env, st, b, prev, dfr})
			return
		}
		if !lc.set[b] {
			*lc.exits = append(*lc.exits, loopExit{env, st, b, prev, dfr})
			return
		}
	}
	loops := ip.p.loopsOf(fr.fn)
	if set, ok := loops[b]; ok {
		if ip.probing {
			ip.probeOver = true
			return
		}
		ip.runLoop(fr, env, st, b, prev, set, lc, dfr)
		return
	}
	ip.assignPhis(env, b, prev)
	ip.exec(fr, env, st, b, 0, lc, dfr)
}

func (ip *Interp) assignPhis(env map[ssa.Value]*Term, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
			break
		}
	}
	type pv struct {
		v ssa.Value
		t *Term
	}
	var ps []pv
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, pv{phi, ip.val(env, phi.Edges[idx])})
	}
	for _, x := range ps {
		env[x.v] = x.t
	}
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

// stepOf recognises header phis of the form phi = phi + c on every back edge.
func stepOf(phi *ssa.Phi, set map[*ssa.BasicBlock]bool) (int64, bool) {
	b := phi.Block()
	var step int64
	found := false
	for i, e := range phi.Edges {
		if !set[b.Preds[i]] {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(phi) {
			return 0, false
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0, false
		}
		n := c.Int64()
		switch bo.Op {
		case token.ADD:
		case token.SUB:
			n = -n
		default:
			return 0, false
		}
		if found && n != step {
			return 0, false
		}
		step, found = n, true
	}
	return step, found && step != 0
}

func (ip *Interp) runLoop(fr *frame, env0 map[ssa.Value]*Term, st0 *State, h, prev *ssa.BasicBlock, set map[*ssa.BasicBlock]bool, lc *loopCtx, dfr []deferred) {
	key := fr.path + "/L" + strconv.Itoa(h.Index)
	pi := predIndex(h, prev)
	if n := ip.tripCount(env0, h, pi, set); n >= 0 && n <= maxUnroll {
		ip.unroll(fr, env0, st0, h, prev, set, lc, dfr, int(n))
		return
	}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			phis = append(phis, phi)
		} else {
			break
		}
	}
	mode := map[*ssa.Phi]int{} // 0 invariant, 1 induction, 2 widened
	step := map[*ssa.Phi]int64{}
	for _, phi := range phis {
		if n, ok := stepOf(phi, set); ok {
			mode[phi], step[phi] = 1, n
		}
	}
	widened := map[*Term]bool{}
	havocked := map[string]bool{}
	outsMark := len(*fr.outs)
	beMark := len(ip.backedges)
	var exits []loopExit
	for round := 0; ; round++ {
		if round > 12 {
			ip.fail("loop does not stabilise in " + fr.fn.String())
			return
		}
		*fr.outs = (*fr.outs)[:outsMark]
		ip.backedges = ip.backedges[:beMark]
		exits = nil
		var backs []loopExit
		env := cloneEnv(env0)
		st := st0.clone()
		head := map[*ssa.Phi]*Term{}
		for _, phi := range phis {
			init := ip.val(env0, phi.Edges[pi])
			var t *Term
			switch mode[phi] {
			case 0:
				t = init
			case 1:
				base, c := splitAdd(init)
				if base == nil {
					t = mk("ind", fmt.Sprintf("%s.%s|%d|%d", key, phi.Name(), c, step[phi]), phi.Type())
				} else {
					t = tAdd(init, mk("ind", fmt.Sprintf("%s.%s|0|%d", key, phi.Name(), step[phi]), phi.Type()))
				}
			default:
				t = mk("widen", key+"."+phi.Name(), phi.Type(), init)
			}
			head[phi] = t
		}
		for phi, t := range head {
			env[phi] = t
		}
		for a := range widened {
			st.mem[a] = mk("widen", key+".mem", nil, a)
		}
		for n := range havocked {
			st.epoch[n]++
		}
		headMem := make(map[*Term]*Term, len(st.mem))
		for k, v := range st.mem {
			headMem[k] = v
		}
		headTrace := len(st.trace)
		freshAtHead := st.fresh
		in := &loopCtx{key: key, header: h, set: set, parent: lc, exits: &exits, backs: &backs}
		preds := loopPreds(phis, mode)
		seen := map[string]bool{}
		var todo []vector
		reach := func(f *Facts, val func(*ssa.Phi) *Term) {
			for _, v := range vectorsOf(f, preds, val) {
				if !seen[string(v)] {
					seen[string(v)] = true
					todo = append(todo, v)
				}
			}
		}
		reach(st0.facts, func(phi *ssa.Phi) *Term { return ip.val(env0, phi.Edges[pi]) })
		for len(todo) > 0 {
			v := todo[0]
			todo = todo[1:]
			at := len(backs)
			for _, f := range v.at(st.facts, preds, func(phi *ssa.Phi) *Term { return head[phi] }) {
				ip.exec(fr, cloneEnv(env), st.withFacts(f), h, 0, in, dfr)
				if ip.err != "" {
					return
				}
			}
			kept := backs[:at:at]
			for _, be := range backs[at:] {
				if ex, ok := ip.threaded(fr, be, h, set, lc, key); ok {
					exits = append(exits, ex...)
				} else {
					kept = append(kept, be)
				}
			}
			backs = kept
			for _, be := range backs[at:] {
				bi := predIndex(h, be.from)
				reach(be.st.facts, func(phi *ssa.Phi) *Term { return ip.val(be.env, phi.Edges[bi]) })
			}
		}
		again := false
		for _, be := range backs {
			bi := predIndex(h, be.from)
			next, init := map[*Term]*Term{}, map[*Term]*Term{}
			for a := range widened {
				next[st.mem[a]] = be.st.mem[a]
				init[st.mem[a]] = st0.mem[a]
			}
			for _, phi := range phis {
				v := ip.val(be.env, phi.Edges[bi])
				next[head[phi]] = v
				init[head[phi]] = ip.val(env0, phi.Edges[pi])
				switch mode[phi] {
				case 0:
					if v != head[phi] {
						mode[phi] = 2
						again = true
					}
				case 1:
					if v != tAdd(head[phi], tInt(step[phi])) {
						mode[phi] = 2
						again = true
					}
				}
			}
			for a, v := range be.st.mem {
				hv, ok := headMem[a]
				if !ok {
					if r := rootOf(a); r.Op == "alloc" && !freshAtHead[r] {
						continue // allocated by the body
					}
					hv = ip.loadInit(st, a, v.T)
				}
				if v != hv && !widened[a] {
					widened[a] = true
					again = true
				}
			}
			for n, e := range be.st.epoch {
				if e != st.epoch[n] && !havocked[n] {
					havocked[n] = true
					again = true
				}
			}
			for a := range headMem {
				if _, ok := be.st.mem[a]; !ok && !widened[a] {
					widened[a] = true
					again = true
				}
			}
			ip.backedges = append(ip.backedges, BackEdge{key, fr.fn, be.st, headTrace, next, init})
		}
		if !again {
			break
		}
	}
	for _, e := range exits {
		ip.enter(fr, e.env, e.st, e.to, e.from, lc, e.dfr)
	}
}

// threaded: what's known at the end of the iteration decides that the loop is
// left: there's nothing but the evaluation of conditions before it is.
func (ip *Interp) threaded(fr *frame, be loopExit, h *ssa.BasicBlock, set map[*ssa.BasicBlock]bool, lc *loopCtx, key string) ([]loopExit, bool) {
	var pe, pb []loopExit
	env := cloneEnv(be.env)
	ip.assignPhis(env, h, be.from)
	in := &loopCtx{key: key, header: h, set: set, parent: lc, exits: &pe, backs: &pb}
	if ip.probing {
		return nil, false
	}
	ip.probing, ip.probeOver = true, false
	n := len(*fr.outs)
	ip.exec(fr, env, be.st.clone(), h, 0, in, be.dfr)
	ip.probing = false
	if ip.probeOver || len(pb) > 0 || len(*fr.outs) != n || !endsByVariable(h, set, pe) {
		*fr.outs = (*fr.outs)[:n]
		return nil, false
	}
	return pe, true
}

// endsByVariable: the loop is left when a truth value among its variables
// has, or a variable that may be nil is, something.
func endsByVariable(h *ssa.BasicBlock, set map[*ssa.BasicBlock]bool, at []loopExit) bool {
	for _, x := range at {
		b := x.from
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || set[b.Succs[0]] && set[b.Succs[1]] {
			continue
		}
		c := iff.Cond
		for {
			if n, ok := c.(*ssa.UnOp); ok && n.Op == token.NOT {
				c = n.X
				continue
			}
			if n, ok := c.(*ssa.BinOp); ok && (n.Op == token.EQL || n.Op == token.NEQ) {
				if k, ok := n.Y.(*ssa.Const); ok && (k.IsNil() || isBoolType(k.Type())) {
					c = n.X
					continue
				}
			}
			break
		}
		if phi, ok := c.(*ssa.Phi); ok && phi.Block() == h {
			return true
		}
	}
	return false
}

// inert instructions do nothing but compute.
func inert(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Phi, *ssa.DebugRef, *ssa.BinOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Extract,
		*ssa.If, *ssa.Jump, *ssa.ChangeType, *ssa.Convert, *ssa.ChangeInterface, *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		return in.Op != token.ARROW
	case *ssa.Call:
		b, ok := in.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len"
	}
	return false
}

// A loop with truth values among its variables is followed from every
// combination of these and of the variables that are nil or not that it can
// begin an iteration with (predicate abstraction): the combinations it is
// entered with and the ones its iterations lead to.
type vector []byte

const maxLoopPreds = 6

// loopPreds are the variables of the loop whose truth or nilness is followed.
func loopPreds(phis []*ssa.Phi, mode map[*ssa.Phi]int) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, phi := range phis {
		if b, ok := phi.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && mode[phi] == 2 {
			ps = append(ps, phi)
		}
	}
	if len(ps) == 0 {
		return nil
	}
	for _, iface := range []bool{false, true} {
		for _, phi := range phis {
			if mode[phi] != 2 {
				continue
			}
			_, p := phi.Type().Underlying().(*types.Pointer)
			if p && !iface || types.IsInterface(phi.Type()) && iface {
				ps = append(ps, phi)
			}
		}
	}
	if len(ps) > maxLoopPreds {
		ps = ps[:maxLoopPreds]
	}
	return ps
}

func predOf(phi *ssa.Phi, v *Term) *Term {
	if _, ok := phi.Type().Underlying().(*types.Basic); ok {
		return v
	}
	return isNilT(v)
}

// vectorsOf are the combinations that are possible.
func vectorsOf(f *Facts, preds []*ssa.Phi, val func(*ssa.Phi) *Term) []vector {
	fs := []*Facts{f}
	vs := []vector{{}}
	for _, phi := range preds {
		t := predOf(phi, val(phi))
		var fs2 []*Facts
		var vs2 []vector
		for i, g := range fs {
			for _, b := range []bool{true, false} {
				var c byte = '0'
				if b {
					c = '1'
				}
				if k, ok := t.boolVal(); ok {
					if k == b {
						fs2, vs2 = append(fs2, g), append(vs2, append(vs[i][:len(vs[i]):len(vs[i])], c))
					}
					continue
				}
				for _, h := range g.assume(t, b) {
					fs2, vs2 = append(fs2, h), append(vs2, append(vs[i][:len(vs[i]):len(vs[i])], c))
				}
			}
		}
		fs, vs = fs2, vs2
	}
	return vs
}

// at are the facts with the combination.
func (v vector) at(f *Facts, preds []*ssa.Phi, val func(*ssa.Phi) *Term) []*Facts {
	fs := []*Facts{f}
	for i, phi := range preds {
		var fs2 []*Facts
		for _, g := range fs {
			fs2 = append(fs2, g.assume(predOf(phi, val(phi)), v[i] == '1')...)
		}
		fs = fs2
	}
	return fs
}

// maxUnroll is the number of iterations up to which a loop over a list whose
// length is known is followed iteration by iteration.
const maxUnroll = 10

// tripCount is the number of iterations of a loop that counts from a constant
// to a constant, or -1.
func (ip *Interp) tripCount(env map[ssa.Value]*Term, h *ssa.BasicBlock, pi int, set map[*ssa.BasicBlock]bool) int64 {
	if len(h.Instrs) == 0 || len(h.Succs) != 2 {
		return -1
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Block() != h || cmp.Op != token.LSS || !set[h.Succs[0]] || set[h.Succs[1]] {
		return -1
	}
	limit, ok := cmp.Y.(ssa.Value)
	if !ok {
		return -1
	}
	if in, ok := limit.(ssa.Instruction); ok && set[in.Block()] {
		return -1
	}
	n, ok := ip.val(env, limit).intVal()
	if !ok {
		return -1
	}
	x, off := cmp.X, int64(0)
	if add, ok := x.(*ssa.BinOp); ok && add.Op == token.ADD && add.Block() == h {
		k, ok := add.Y.(*ssa.Const)
		if !ok || k.Value == nil {
			return -1
		}
		x, off = add.X, k.Int64()
	}
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != h {
		return -1
	}
	step, ok := stepOf(phi, set)
	if !ok || step != 1 {
		return -1
	}
	start, ok := ip.val(env, phi.Edges[pi]).intVal()
	if !ok {
		return -1
	}
	if c := n - start - off; c > 0 {
		return c
	}
	return 0
}

// unroll follows a loop iteration by iteration.
func (ip *Interp) unroll(fr *frame, env0 map[ssa.Value]*Term, st0 *State, h, prev *ssa.BasicBlock, set map[*ssa.BasicBlock]bool, lc *loopCtx, dfr []deferred, n int) {
	var exits []loopExit
	cur := []loopExit{{env0, st0, h, prev, dfr}}
	for k := 0; k <= n && len(cur) > 0; k++ {
		it := &frame{fn: fr.fn, path: fr.path + "#" + strconv.Itoa(h.Index) + "." + strconv.Itoa(k), outs: fr.outs}
		var backs []loopExit
		in := &loopCtx{key: it.path, header: h, set: set, parent: lc, exits: &exits, backs: &backs}
		for _, e := range cur {
			env := cloneEnv(e.env)
			ip.assignPhis(env, h, e.from)
			ip.exec(it, env, e.st.clone(), h, 0, in, e.dfr)
			if ip.err != "" {
				return
			}
		}
		cur = backs
	}
	if len(cur) > 0 {
		ip.fail("a loop runs longer than expected in " + fr.fn.String())
		return
	}
	for _, e := range exits {
		ip.enter(fr, e.env, e.st, e.to, e.from, lc, e.dfr)
	}
}

// loadInit is the value of a cell that has not been written in the state.
func (ip *Interp) loadInit(st *State, a *Term, t types.Type) *Term {
	if r := rootOf(a); r.Op == "alloc" && st.fresh[r] && !st.esc[r] {
		return zeroOf(t)
	}
	return mk("init", epochTag(st, a), t, a)
}

func epochTag(st *State, a *Term) string {
	if n := st.epoch[cellName(a)]; n > 0 {
		return "@" + strconv.Itoa(n)
	}
	return ""
}

// cellName is the name under which a cell is havocked: its field name.
func cellName(a *Term) string {
	switch a.Op {
	case "faddr":
		return a.Aux
	case "global":
		return "global:" + a.Aux
	case "iaddr":
		return "elem:" + cellNameOfBase(a.A[0])
	}
	return a.Op
}

func cellNameOfBase(b *Term) string {
	for b.Op == "slice" || b.Op == "append" || b.Op == "appendall" || b.Op == "widen" {
		b = b.A[0]
	}
	if b.Op == "init" {
		return cellName(b.A[0])
	}
	return b.Op
}

func rootOf(a *Term) *Term {
	for a.Op == "faddr" || a.Op == "iaddr" {
		a = a.A[0]
	}
	return a
}

func (ip *Interp) val(env map[ssa.Value]*Term, v ssa.Value) *Term {
	if t, ok := env[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(v.Type())
		}
		return tConst(v.Value, v.Type())
	case *ssa.Global:
		return mk("global", v.Name(), v.Type())
	case *ssa.Function:
		return ip.p.fnTerm(v)
	case *ssa.Builtin:
		return mk("builtin", v.Name(), nil)
	}
	return mk("sym", "undef:"+v.Name(), v.Type())
}

func (ip *Interp) site(fr *frame, in ssa.Instruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fr.path + "/" + strconv.Itoa(b.Index) + "." + strconv.Itoa(i)
		}
	}
	return fr.path + "/?"
}

// exec interprets the instructions of b from idx on.
func (ip *Interp) exec(fr *frame, env map[ssa.Value]*Term, st *State, b *ssa.BasicBlock, idx int, lc *loopCtx, dfr []deferred) {
	for i := idx; i < len(b.Instrs); i++ {
		if ip.err != "" {
			return
		}
		ip.steps++
		if ip.steps > ip.MaxSteps {
			ip.fail("analysis budget exceeded in " + ip.stack[0].String())
			return
		}
		in := b.Instrs[i]
		if ip.probing && !inert(in) {
			ip.probeOver = true
			return
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Alloc:
			t := mk("alloc", ip.site(fr, in)+":"+in.Comment, in.Type())
			for a := range st.mem {
				if rootOf(a) == t {
					delete(st.mem, a)
				}
			}
			st.fresh[t] = true
			delete(st.esc, t)
			env[in] = t
		case *ssa.BinOp:
			env[in] = ip.binop(in, ip.val(env, in.X), ip.val(env, in.Y))
		case *ssa.UnOp:
			x := ip.val(env, in.X)
			switch in.Op {
			case token.MUL:
				env[in] = ip.load(st, x, in.Type())
			case token.NOT:
				env[in] = tNot(x)
			case token.SUB:
				if n, ok := x.intVal(); ok {
					env[in] = tInt(-n)
				} else {
					env[in] = mk("neg", "", in.Type(), x)
				}
			case token.XOR:
				if n, ok := x.intVal(); ok {
					env[in] = tInt(maskInt(^n, in.Type()))
				} else {
					env[in] = mk("compl", "", in.Type(), x)
				}
			default:
				env[in] = mk("unop", in.Op.String()+ip.site(fr, in), in.Type(), x)
			}
		case *ssa.ChangeType:
			env[in] = ip.val(env, in.X)
		case *ssa.ChangeInterface:
			env[in] = ip.val(env, in.X)
		case *ssa.Convert:
			env[in] = ip.convert(ip.val(env, in.X), in.X.Type(), in.Type())
		case *ssa.MultiConvert:
			env[in] = mk("conv", typeName(in.Type()), in.Type(), ip.val(env, in.X))
		case *ssa.MakeInterface:
			x := ip.val(env, in.X)
			env[in] = ip.p.iface(x, in.X.Type(), in.Type())
		case *ssa.MakeClosure:
			var bs []*Term
			for _, bv := range in.Bindings {
				bs = append(bs, ip.val(env, bv))
			}
			env[in] = ip.p.closure(in.Fn.(*ssa.Function), bs)
		case *ssa.MakeMap:
			t := mk("mkmap", ip.site(fr, in), in.Type())
			env[in] = t
		case *ssa.MakeSlice:
			env[in] = mk("mkslice", ip.site(fr, in), in.Type(), ip.val(env, in.Len))
		case *ssa.MakeChan:
			env[in] = mk("mkchan", ip.site(fr, in), in.Type())
		case *ssa.FieldAddr:
			x := ip.val(env, in.X)
			if x.Op == "init" && x.A[0].Op == "iaddr" && st.facts.eval(isNilT(x)) == unk {
				// a nil element would end the path here
				if fs := st.facts.assume(isNilT(x), false); len(fs) == 1 {
					st = st.withFacts(fs[0])
				}
			}
			env[in] = ip.faddr(x, in.X.Type(), in.Field, in.Type())
		case *ssa.Field:
			env[in] = ip.field(ip.val(env, in.X), in.X.Type(), in.Field)
		case *ssa.IndexAddr:
			x := ip.val(env, in.X)
			env[in] = ip.iaddr(x, ip.val(env, in.Index), in.Type())
		case *ssa.Index:
			x := ip.val(env, in.X)
			env[in] = ip.index(x, ip.val(env, in.Index), in.X.Type(), in.Type())
		case *ssa.Lookup:
			x, k := ip.val(env, in.X), ip.val(env, in.Index)
			if isStringType(in.X.Type()) {
				env[in] = ip.index(x, k, in.X.Type(), in.Type())
				break
			}
			var v *Term
			mt := in.X.Type().Underlying().(*types.Map)
			tag := epochTag(st, mk("faddr", "map:"+cellNameOfBase(x), nil, x))
			if mv, ok := st.mem[mk("mapslot", "", nil, x, k)]; ok {
				v = mv
			} else if x.isNil() {
				v = zeroOf(mt.Elem())
			} else {
				v = mk("mapget", tag, mt.Elem(), x, k)
			}
			if in.CommaOk {
				env[in] = tuple(v, mk("mapok", tag, types.Typ[types.Bool], x, k))
			} else {
				env[in] = v
			}
		case *ssa.Slice:
			env[in] = ip.sliceOp(st, env, in)
		case *ssa.SliceToArrayPointer:
			env[in] = mk("conv", "arrptr", in.Type(), ip.val(env, in.X))
		case *ssa.TypeAssert:
			x := ip.val(env, in.X)
			if in.CommaOk {
				ok := ip.tyok(x, in.AssertedType)
				v := ip.assertVal(x, in.AssertedType)
				// If the assertion fails, the value is the zero value.
				for _, f := range st.facts.assume(ok, false) {
					e2 := cloneEnv(env)
					e2[in] = tuple(zeroOf(in.AssertedType), tBool(false))
					ip.exec(fr, e2, st.withFacts(f), b, i+1, lc, dfr)
				}
				fs := st.facts.assume(ok, true)
				if len(fs) == 0 {
					return
				}
				for _, f := range fs {
					e2 := cloneEnv(env)
					e2[in] = tuple(v, tBool(true))
					ip.exec(fr, e2, st.withFacts(f), b, i+1, lc, dfr)
				}
				return
			}
			ok := ip.tyok(x, in.AssertedType)
			fs := st.facts.assume(ok, true)
			if len(fs) == 0 {
				return // the assertion always panics
			}
			st = st.withFacts(fs[0])
			env[in] = ip.assertVal(x, in.AssertedType)
		case *ssa.Extract:
			x := ip.val(env, in.Tuple)
			env[in] = extract(x, in.Index, in.Type())
		case *ssa.Range:
			env[in] = mk("range", ip.site(fr, in), nil, ip.val(env, in.X))
		case *ssa.Next:
			it := ip.val(env, in.Iter)
			x := it
			if it.Op == "range" {
				x = it.A[0]
			}
			key := ip.site(fr, in)
			tt := in.Type().(*types.Tuple)
			k := mk("rkey", key, tt.At(1).Type(), x)
			var v *Term
			if in.IsString {
				v = mk("rune", "", types.Typ[types.Rune], x, k)
			} else {
				v = mk("mapget", "", tt.At(2).Type(), x, k)
			}
			env[in] = tuple(mk("rok", key, types.Typ[types.Bool], x), k, v)
		case *ssa.Store:
			ip.store(st, fr.fn, ip.val(env, in.Addr), ip.val(env, in.Val), derefType(in.Addr.Type()), in.Pos())
		case *ssa.MapUpdate:
			m, k, v := ip.val(env, in.Map), ip.val(env, in.Key), ip.val(env, in.Value)
			st.mem[mk("mapslot", "", nil, m, k)] = v
			ip.escape(st, v)
			ip.emit(st, &Event{Kind: "mapset", Target: m, Args: []*Term{k, v}, Pos: in.Pos(), In: fr.fn, Mem: copyMem(st.mem)})
		case *ssa.Defer:
			d := deferred{call: &in.Call, site: ip.site(fr, in), pos: in.Pos()}
			d.fnT, d.args = ip.callParts(env, &in.Call)
			dfr = append(dfr[:len(dfr):len(dfr)], d)
		case *ssa.Go:
			fnT, args := ip.callParts(env, &in.Call)
			ip.emit(st, &Event{Kind: "go", Target: fnT, Args: args, Pos: in.Pos(), In: fr.fn})
		case *ssa.RunDefers:
			if len(dfr) == 0 {
				continue
			}
			d := dfr[len(dfr)-1]
			rest := dfr[:len(dfr)-1]
			for _, r := range ip.call(fr, st, d.call, d.fnT, d.args, d.site, d.pos) {
				if r.out != nil {
					*fr.outs = append(*fr.outs, *r.out)
					continue
				}
				// The same instruction runs again for the remaining calls.
				ip.exec(fr, cloneEnv(env), r.st, b, i, lc, rest)
			}
			return
		case *ssa.Call:
			fnT, args := ip.callParts(env, &in.Call)
			rs := ip.call(fr, st, &in.Call, fnT, args, ip.site(fr, in), in.Pos())
			if len(rs) == 1 && rs[0].out == nil {
				st = rs[0].st
				if rs[0].res != nil {
					env[in] = rs[0].res
				}
				continue
			}
			for _, r := range rs {
				if r.out != nil {
					*fr.outs = append(*fr.outs, *r.out)
					continue
				}
				e2 := cloneEnv(env)
				if r.res != nil {
					e2[in] = r.res
				}
				ip.exec(fr, e2, r.st, b, i+1, lc, dfr)
			}
			return
		case *ssa.If:
			c := ip.val(env, in.Cond)
			if bv, ok := c.boolVal(); ok {
				t := b.Succs[0]
				if !bv {
					t = b.Succs[1]
				}
				ip.enter(fr, env, st, t, b, lc, dfr)
				return
			}
			ip.nbranch++
			tf := st.facts.assume(c, true)
			ff := st.facts.assume(c, false)
			for _, f := range tf {
				ip.enter(fr, cloneEnv(env), st.withFacts(f), b.Succs[0], b, lc, dfr)
			}
			for _, f := range ff {
				ip.enter(fr, cloneEnv(env), st.withFacts(f), b.Succs[1], b, lc, dfr)
			}
			return
		case *ssa.Jump:
			ip.enter(fr, env, st, b.Succs[0], b, lc, dfr)
			return
		case *ssa.Return:
			var rs []*Term
			for _, r := range in.Results {
				rs = append(rs, ip.val(env, r))
			}
			*fr.outs = append(*fr.outs, Outcome{Kind: "return", Res: rs, St: st, Pos: in.Pos(), In: fr.fn})
			return
		case *ssa.Panic:
			*fr.outs = append(*fr.outs, Outcome{Kind: "panic", Res: []*Term{ip.val(env, in.X)}, St: st, Pos: in.Pos(), In: fr.fn})
			return
		case *ssa.Send:
			ip.emit(st, &Event{Kind: "send", Target: ip.val(env, in.Chan), Args: []*Term{ip.val(env, in.X)}, Pos: in.Pos(), In: fr.fn})
		case *ssa.Select:
			env[in] = mk("select", ip.site(fr, in), in.Type())
		default:
			ip.fail(fmt.Sprintf("unsupported instruction %T in %s", in, fr.fn))
			return
		}
	}
}

func (ip *Interp) emit(st *State, e *Event) {
	st.trace = append(st.trace, e)
	if ip.Effect != nil {
		ip.Effect(st, e)
	}
}

func maskInt(n int64, t types.Type) int64 {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return n & 0xff
		case types.Uint16:
			return n & 0xffff
		case types.Uint32:
			return n & 0xffffffff
		}
	}
	return n
}

func copyMem(m map[*Term]*Term) map[*Term]*Term {
	n := make(map[*Term]*Term, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func tuple(ts ...*Term) *Term { return mk("tuple", "", nil, ts...) }

func extract(x *Term, i int, t types.Type) *Term {
	if x.Op == "tuple" && i < len(x.A) {
		return x.A[i]
	}
	return mk("ext", strconv.Itoa(i), t, x)
}

func (ip *Interp) binop(in *ssa.BinOp, x, y *Term) *Term {
	if in.Op == token.ADD && isStringType(in.Type()) {
		return tConcat(x, y)
	}
	if in.Op == token.EQL || in.Op == token.NEQ {
		if isBoolType(in.X.Type()) {
			if x.T == nil {
				x.T = types.Typ[types.Bool]
			}
		}
		if _, ok := in.X.Type().Underlying().(*types.Struct); ok {
			r := mk("eq", "struct", types.Typ[types.Bool], x, y)
			if x == y {
				r = tBool(true)
			}
			if in.Op == token.NEQ {
				return tNot(r)
			}
			return r
		}
	}
	return tBin(in.Op, x, y, in.Type())
}

func (ip *Interp) convert(x *Term, from, to types.Type) *Term {
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	if _, ok := x.intVal(); ok {
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			n, _ := x.intVal()
			return tInt(maskInt(n, to))
		}
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			n, _ := x.intVal()
			return tStr(string(rune(n)))
		}
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		return x // widths don't matter for the values the package uses
	}
	return mk("conv", typeName(to), to, x)
}

func (ip *Interp) faddr(x *Term, xt types.Type, i int, t types.Type) *Term {
	stt := derefType(xt).Underlying().(*types.Struct)
	f := stt.Field(i)
	if f.Embedded() {
		if _, isPtr := f.Type().Underlying().(*types.Pointer); !isPtr {
			if _, ok := f.Type().Underlying().(*types.Struct); ok && ip.p.inPkgType(f.Type()) {
				return x // an embedded struct is the same object
			}
		}
	}
	x = strip(x)
	return mk("faddr", f.Name(), t, x)
}

func (ip *Interp) field(x *Term, xt types.Type, i int) *Term {
	if x.Op == "struct" && i < len(x.A) {
		return x.A[i]
	}
	stt := xt.Underlying().(*types.Struct)
	return mk("fld", stt.Field(i).Name(), stt.Field(i).Type(), x)
}

func (ip *Interp) iaddr(x, i *Term, t types.Type) *Term {
	// An element of a subslice is an element of the slice.
	if x.Op == "slice" {
		return ip.iaddr(x.A[0], tAdd(x.A[1], i), t)
	}
	return mk("iaddr", "", t, x, i)
}

func (ip *Interp) index(x, i *Term, xt, t types.Type) *Term {
	if s, ok := x.strVal(); ok {
		if n, ok := i.intVal(); ok && n >= 0 && n < int64(len(s)) {
			return tInt(int64(s[n]))
		}
	}
	if isStringType(xt) {
		if x.Op == "slice" && x.A[0].Op != "alloc" {
			// s[lo:hi][i] is s[lo+i]
			if !x.A[2].isNil() && i == tAdd(tLen(x), tInt(-1)) {
				return mk("at", "str", t, x.A[0], tAdd(x.A[2], tInt(-1)))
			}
			return ip.index(x.A[0], tAdd(x.A[1], i), xt, t)
		}
		return mk("at", "str", t, x, i)
	}
	if x.Op == "array" {
		if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(x.A) {
			return x.A[n]
		}
	}
	return mk("at", "", t, x, i)
}

func (ip *Interp) sliceOp(st *State, env map[ssa.Value]*Term, in *ssa.Slice) *Term {
	x := ip.val(env, in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = ip.val(env, in.Low)
	}
	if in.High != nil {
		hi = ip.val(env, in.High)
	}
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := p.Elem().Underlying().(*types.Array); ok {
			if in.Low == nil && x.Op == "alloc" && at.Len() <= 64 {
				n := at.Len()
				if hi != nil {
					if h, ok := hi.intVal(); ok {
						n = h
					} else {
						return mk("mkslice", x.Aux, in.Type(), hi)
					}
				}
				var es []*Term
				for i := int64(0); i < n; i++ {
					es = append(es, ip.load(st, mk("iaddr", "", nil, x, tInt(i)), at.Elem()))
				}
				return mk("list", "", in.Type(), es...)
			}
		}
	}
	if lo != nil {
		if n, ok := lo.intVal(); ok && n == 0 {
			lo = nil
		}
	}
	if hi != nil && lo == nil {
		if n, ok := hi.intVal(); ok && n == 0 {
			if isStringType(in.Type()) {
				return tStr("")
			}
			return mk("empty", "", in.Type(), x) // x[:0]
		}
	}
	return tSlice(x, lo, hi)
}

func (ip *Interp) load(st *State, a *Term, t types.Type) *Term {
	if t != nil {
		if stt, ok := t.Underlying().(*types.Struct); ok && a.Op != "mapslot" {
			if v, ok := st.mem[a]; ok {
				return v
			}
			if ip.p.inPkgType(t) || isURL(t) || rootOf(a).Op == "alloc" {
				var fs []*Term
				for i := 0; i < stt.NumFields(); i++ {
					fa := ip.faddr(a, types.NewPointer(t), i, types.NewPointer(stt.Field(i).Type()))
					if fa == a { // embedded
						fs = append(fs, mk("embedded", "", stt.Field(i).Type(), a))
						continue
					}
					fs = append(fs, ip.load(st, fa, stt.Field(i).Type()))
				}
				return mk("struct", structTag(t), t, fs...)
			}
		}
	}
	if v, ok := st.mem[a]; ok {
		return v
	}
	if t != nil && rootOf(a).Op == "alloc" {
		if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= 64 {
			es := make([]*Term, at.Len())
			for i := range es {
				es[i] = ip.load(st, mk("iaddr", "", nil, a, tInt(int64(i))), at.Elem())
			}
			return mk("array", "", t, es...)
		}
	}
	if a.Op == "faddr" && a.A[0].Op == "iaddr" && a.A[0].A[0].Op == "list" {
		// a field of an element of a list of struct values
		base := a.A[0].A[0]
		if n, ok := a.A[0].A[1].intVal(); ok && n >= 0 && int(n) < len(base.A) {
			if e := base.A[n]; e.Op == "struct" && e.T != nil {
				if stt, ok := e.T.Underlying().(*types.Struct); ok && stt.NumFields() == len(e.A) {
					for i := range e.A {
						if stt.Field(i).Name() == a.Aux {
							return e.A[i]
						}
					}
				}
			}
		}
	}
	if a.Op == "iaddr" {
		base, i := a.A[0], a.A[1]
		if n, ok := i.intVal(); ok {
			if base.Op == "list" && n >= 0 && int(n) < len(base.A) {
				return base.A[n]
			}
			if base.Op == "append" {
				if m, ok := tLen(base.A[0]).intVal(); ok && n >= m && int(n-m) < len(base.A)-1 {
					return base.A[1+n-m]
				}
			}
		}
	}
	if a.Op == "faddr" && a.Aux == ip.p.derivedField {
		return ip.p.derived(a.A[0], t)
	}
	return ip.loadInit(st, a, t)
}

func isURL(t types.Type) bool { return typeName(t) == "url.URL" }

func (ip *Interp) store(st *State, in *ssa.Function, a, v *Term, t types.Type, pos token.Pos) {
	if stt, ok := t.Underlying().(*types.Struct); ok && (ip.p.inPkgType(t) || isURL(t) || rootOf(a).Op == "alloc" || v.Op == "struct") {
		for i := 0; i < stt.NumFields(); i++ {
			fa := ip.faddr(a, types.NewPointer(t), i, types.NewPointer(stt.Field(i).Type()))
			fv := ip.field(v, t, i)
			if fa == a {
				ip.store(st, in, a, fv, stt.Field(i).Type(), pos)
				continue
			}
			ip.store(st, in, fa, fv, stt.Field(i).Type(), pos)
		}
		return
	}
	if v.Op == "embedded" {
		return
	}
	if v.Op == "array" && rootOf(a).Op == "alloc" {
		if at, ok := t.Underlying().(*types.Array); ok {
			for i, e := range v.A {
				ip.store(st, in, mk("iaddr", "", nil, a, tInt(int64(i))), e, at.Elem(), pos)
			}
			return
		}
	}
	st.mem[a] = v
	r := rootOf(a)
	if !(r.Op == "alloc" && st.fresh[r] && !st.esc[r]) {
		ip.escape(st, v)
	}
	ip.emit(st, &Event{Kind: "store", Target: a, Args: []*Term{v}, Pos: pos, In: in, NFacts: nil})
}

// escape marks fresh objects reachable from v as shared.
func (ip *Interp) escape(st *State, v *Term) {
	var walk func(t *Term, d int)
	seen := map[*Term]bool{}
	walk = func(t *Term, d int) {
		if t == nil || d > 6 || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "alloc" && st.fresh[t] && !st.esc[t] {
			// Contents written so far stay known; the object may from now on
			// be changed by calls that change its fields.
			st.esc[t] = true
			ip.zeroFill(st, t)
			for a, w := range st.mem {
				if rootOf(a) == t {
					walk(w, d+1)
				}
			}
			return
		}
		if (t.Op == "widen" || t.Op == "init") && len(t.A) == 1 && (t.A[0].Op == "faddr" || t.A[0].Op == "iaddr" || t.A[0].Op == "alloc") {
			// the contents of the cell, not its address
			return
		}
		for _, a := range t.A {
			walk(a, d+1)
		}
	}
	walk(v, 0)
}

// zeroFill makes the zero values of an object's unwritten fields explicit.
func (ip *Interp) zeroFill(st *State, t *Term) {
	if t.T == nil {
		return
	}
	et := derefType(t.T)
	var fill func(a *Term, et types.Type, d int)
	fill = func(a *Term, et types.Type, d int) {
		if stt, ok := et.Underlying().(*types.Struct); ok && d < 4 {
			for i := 0; i < stt.NumFields(); i++ {
				ft := stt.Field(i).Type()
				fa := ip.faddr(a, types.NewPointer(et), i, types.NewPointer(ft))
				fill(fa, ft, d+1)
			}
			return
		}
		if at, ok := et.Underlying().(*types.Array); ok {
			if at.Len() > 32 {
				return
			}
			for i := int64(0); i < at.Len(); i++ {
				fill(mk("iaddr", "", nil, a, tInt(i)), at.Elem(), d+1)
			}
			return
		}
		if _, ok := st.mem[a]; !ok {
			st.mem[a] = zeroOf(et)
		}
	}
	fill(t, et, 0)
}

func (ip *Interp) tyok(x *Term, t types.Type) *Term {
	n := ip.p.tyName(t)
	if x.Op == "derived" {
		// the dynamic type of the embedding object
		return mk("tyok", n, types.Typ[types.Bool], x)
	}
	if y := strip(x); y.T != nil && types.Identical(y.T, t) && !types.IsInterface(t) && !y.isNil() {
		// a value of the asserted type was boxed
		return tBool(true)
	}
	return mk("tyok", n, types.Typ[types.Bool], x)
}

func (ip *Interp) assertVal(x *Term, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return x
	}
	if x.Op == "iface" {
		return x.A[0]
	}
	if x.Op == "derived" {
		return x.A[0]
	}
	if x.T != nil {
		if _, isI := x.T.Underlying().(*types.Interface); !isI {
			return x
		}
	}
	if _, ok := t.Underlying().(*types.Pointer); ok && ip.p.inPkgType(derefType(t)) {
		return x // the same object
	}
	return mk("ta", typeName(t), t, x)
}

// ------------------------------------------------------------------- calls

func (ip *Interp) callParts(env map[ssa.Value]*Term, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, ip.val(env, a))
	}
	return ip.val(env, c.Value), args
}

func (ip *Interp) call(fr *frame, st *State, c *ssa.CallCommon, fnT *Term, args []*Term, site string, pos token.Pos) []callRes {
	if c.IsInvoke() {
		return ip.invoke(fr, st, c, fnT, args, site, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return []callRes{ip.builtin(fr, st, b, c, args, site, pos)}
	}
	if f := c.StaticCallee(); f != nil {
		var free []*Term
		if fnT.Op == "clo" {
			free = fnT.A
		}
		return ip.callFn(fr, st, f, args, free, site, pos, c.Signature())
	}
	// a function value
	if f, free := ip.p.termFn(fnT); f != nil {
		return ip.callFn(fr, st, f, args, free, site, pos, c.Signature())
	}
	return []callRes{ip.dynCall(fr, st, fnT, args, site, pos, c.Signature())}
}

func (ip *Interp) dynCall(fr *frame, st *State, fnT *Term, args []*Term, site string, pos token.Pos, sig *types.Signature) callRes {
	if ip.Model != nil {
		if rs, ok := ip.Model(ip, st, fr.fn, "dyn", nil, append([]*Term{fnT}, args...), site); ok && len(rs) == 1 {
			return rs[0]
		}
	}
	ev := &Event{Kind: "dyn", Target: fnT, Args: args, Pos: pos, In: fr.fn, Mem: copyMem(st.mem)}
	res := ip.resultOf("dyn", site, sig, append([]*Term{fnT}, args...))
	ev.Res = res
	st.trace = append(st.trace, ev)
	for _, a := range args {
		ip.escape(st, a)
	}
	ip.havoc(st, ip.DynHavoc)
	return callRes{st: st, res: res}
}

func (ip *Interp) resultOf(op, site string, sig *types.Signature, args []*Term) *Term {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return mk(op+"res", site, sig.Results().At(0).Type(), args...)
	}
	var rs []*Term
	base := mk(op+"res", site, nil, args...)
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, mk("ext", strconv.Itoa(i), sig.Results().At(i).Type(), base))
	}
	return tuple(rs...)
}

func (ip *Interp) havoc(st *State, fields map[string]bool) {
	if len(fields) == 0 {
		return
	}
	for a := range st.mem {
		n := cellName(a)
		if a.Op == "mapslot" {
			n = "map:" + cellNameOfBase(a.A[0])
		}
		if !fields[n] {
			continue
		}
		r := rootOf(a)
		if r.Op == "alloc" && st.fresh[r] && !st.esc[r] {
			continue
		}
		delete(st.mem, a)
	}
	var ns []string
	for f := range fields {
		ns = append(ns, f)
	}
	sort.Strings(ns)
	for _, f := range ns {
		st.epoch[f]++
	}
}

func (ip *Interp) invoke(fr *frame, st *State, c *ssa.CallCommon, recv *Term, args []*Term, site string, pos token.Pos) []callRes {
	if it, ok := c.Value.Type().Underlying().(*types.Interface); ok {
		_ = it
	}
	if f := ip.p.resolveInvoke(recv, c.Method, st.facts); f != nil {
		return ip.callFn(fr, st, f, append([]*Term{strip(recv)}, args...), nil, site, pos, c.Signature())
	}
	name := "invoke " + typeName(c.Value.Type()) + "." + c.Method.Name()
	all := append([]*Term{recv}, args...)
	if rs, ok := ip.external(fr, st, name, all, site, pos, c.Signature()); ok {
		return rs
	}
	if ip.Model != nil {
		if rs, ok := ip.Model(ip, st, fr.fn, name, nil, all, site); ok {
			return rs
		}
	}
	ev := &Event{Kind: "ext", Name: name, Args: all, Pos: pos, In: fr.fn, Mem: copyMem(st.mem)}
	res := ip.resultOf("inv", site, c.Signature(), all)
	ev.Res = res
	ip.emit(st, ev)
	if ip.p.inPkgType(c.Value.Type()) {
		ip.havoc(st, ip.p.modsetOfMethod(c.Method.Name()))
	}
	return []callRes{{st: st, res: res}}
}

func (ip *Interp) onStack(f *ssa.Function) bool {
	for _, g := range ip.stack {
		if g == f {
			return true
		}
	}
	return false
}

func (ip *Interp) callFn(fr *frame, st *State, f *ssa.Function, args, free []*Term, site string, pos token.Pos, sig *types.Signature) []callRes {
	name := ip.p.fnName(f)
	if fv := f.FreeVars; len(fv) == 1 && len(free) == 1 && !ip.p.inPkg(f) && strings.HasPrefix(f.Synthetic, "bound method wrapper") && types.IsInterface(fv[0].Type()) {
		// a method value of an interface
		name = "invoke " + typeName(fv[0].Type()) + "." + strings.TrimSuffix(f.Name(), "$bound")
		args = append([]*Term{free[0]}, args...)
		if rs, ok := ip.external(fr, st, name, args, site, pos, sig); ok {
			return rs
		}
		if ip.Model != nil {
			if rs, ok := ip.Model(ip, st, fr.fn, name, nil, args, site); ok {
				return rs
			}
		}
		ev := &Event{Kind: "ext", Name: name, Args: args, Pos: pos, In: fr.fn, Mem: copyMem(st.mem)}
		ev.Res = ip.resultOf("inv", site, sig, args)
		ip.emit(st, ev)
		return []callRes{{st: st, res: ev.Res}}
	}
	if ip.Model != nil {
		if rs, ok := ip.Model(ip, st, fr.fn, name, f, args, site); ok {
			return rs
		}
	}
	if !ip.p.inPkg(f) || len(f.Blocks) == 0 {
		if rs, ok := ip.external(fr, st, name, args, site, pos, sig); ok {
			return rs
		}
		ev := &Event{Kind: "ext", Name: name, Args: args, Pos: pos, In: fr.fn, Mem: copyMem(st.mem)}
		res := ip.resultOf("ext:"+name, site, sig, args)
		ev.Res = res
		ip.emit(st, ev)
		return []callRes{{st: st, res: res}}
	}
	if ip.p.noReturn[f] {
		// panics with an error
		return []callRes{{out: &Outcome{Kind: "panic", Res: args, St: st, Pos: pos, In: fr.fn}}}
	}
	if ip.p.errCtor[f] {
		return []callRes{{st: st, res: mk("newerr", "", f.Signature.Results().At(0).Type(), flatten(args)...)}}
	}
	// Splitting a single upper case word gives that word (the splitting itself
	// is decided by P42).
	if m, ok := singleWord(args); ok && f.Signature.Recv() == nil && f.Name() == "toUpperSplitByCommaSpace" {
		return []callRes{{st: st, res: mk("list", "", sig.Results().At(0).Type(), tStr(m))}}
	}
	opaque := ip.Opaque != nil && ip.Opaque(f)
	if opaque || ip.onStack(f) || len(ip.stack) > 24 {
		if opaque && ip.Pure != nil && ip.Pure(f) {
			var res *Term
			if sig.Results().Len() == 1 {
				res = mk("call", name, sig.Results().At(0).Type(), args...)
			} else {
				base := mk("call", name, nil, args...)
				var rs []*Term
				for i := 0; i < sig.Results().Len(); i++ {
					rs = append(rs, mk("ext", strconv.Itoa(i), sig.Results().At(i).Type(), base))
				}
				res = tuple(rs...)
			}
			st.trace = append(st.trace, &Event{Kind: "pure", Name: name, Args: args, Res: res, Pos: pos, In: fr.fn, Callee: f, Mem: copyMem(st.mem)})
			return []callRes{{st: st, res: res}}
		}
		ev := &Event{Kind: "opaque", Name: name, Args: args, Pos: pos, In: fr.fn, Callee: f, Mem: copyMem(st.mem)}
		res := ip.resultOf("call:"+name, site, sig, args)
		ev.Res = res
		st.trace = append(st.trace, ev)
		for _, a := range args {
			ip.escape(st, a)
		}
		var h map[string]bool
		if ip.OpaqueHavoc != nil {
			h = ip.OpaqueHavoc(f)
		} else {
			h = ip.p.modset(f)
		}
		ip.havoc(st, h)
		// cells whose addresses were passed
		for _, a := range args {
			if a := strip(a); a.Op == "faddr" || a.Op == "iaddr" || a.Op == "alloc" {
				if pt, ok := typeOfTerm(a).(*types.Pointer); ok {
					if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
						continue
					}
				}
				delete(st.mem, a)
				st.epoch[cellName(a)]++
			}
		}
		return []callRes{{st: st, res: res}}
	}
	outs := ip.runFunc(st, f, args, free, site+">"+f.Name())
	outs = ip.merge(outs)
	var rs []callRes
	for i := range outs {
		o := outs[i]
		if o.Kind == "panic" {
			rs = append(rs, callRes{out: &o})
			continue
		}
		var res *Term
		switch len(o.Res) {
		case 0:
		case 1:
			res = o.Res[0]
		default:
			res = tuple(o.Res...)
		}
		rs = append(rs, callRes{st: o.St, res: res})
	}
	return rs
}

// merge joins outcomes of a callee whose abstract states are equal.
func (ip *Interp) merge(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	seen := map[string]bool{}
	var r []Outcome
	for _, o := range outs {
		var sb strings.Builder
		sb.WriteString(o.Kind)
		for _, t := range o.Res {
			fmt.Fprintf(&sb, ",%d", t.id)
		}
		fmt.Fprintf(&sb, "|%d|", len(o.St.trace))
		for _, e := range o.St.trace {
			fmt.Fprintf(&sb, "%p,", e)
		}
		var ms []string
		for a, v := range o.St.mem {
			ms = append(ms, fmt.Sprintf("%d=%d", a.id, v.id))
		}
		sort.Strings(ms)
		sb.WriteString(strings.Join(ms, ","))
		sb.WriteString(o.St.facts.key())
		k := sb.String()
		if seen[k] {
			continue
		}
		seen[k] = true
		r = append(r, o)
	}
	return r
}

func flatten(args []*Term) []*Term {
	var r []*Term
	for _, a := range args {
		if a.Op == "list" {
			for _, x := range a.A {
				r = append(r, strip(x))
			}
			continue
		}
		r = append(r, strip(a))
	}
	return r
}

func (ip *Interp) builtin(fr *frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, site string, pos token.Pos) callRes {
	switch b.Name() {
	case "len":
		if args[0].Op == "empty" {
			return callRes{st: st, res: tInt(0)}
		}
		return callRes{st: st, res: tLen(args[0])}
	case "cap":
		return callRes{st: st, res: mk("cap", "", types.Typ[types.Int], args[0])}
	case "append":
		x := args[0]
		if len(args) == 1 {
			return callRes{st: st, res: x}
		}
		y := args[1]
		t := c.Args[0].Type()
		if ip.Effect != nil {
			ip.Effect(st, &Event{Kind: "append", Target: x, Args: []*Term{y}, Pos: pos, In: fr.fn})
		}
		if y.isNil() || (y.Op == "list" && len(y.A) == 0) {
			return callRes{st: st, res: x}
		}
		if y.Op == "list" {
			for _, e := range y.A {
				ip.escape(st, e)
			}
			if x.isNil() || (x.Op == "list" && len(x.A) == 0) {
				return callRes{st: st, res: mk("list", "", t, y.A...)}
			}
			if x.Op == "list" {
				return callRes{st: st, res: mk("list", "", t, append(append([]*Term{}, x.A...), y.A...)...)}
			}
			if x.Op == "append" {
				return callRes{st: st, res: mk("append", "", t, append(append([]*Term{}, x.A...), y.A...)...)}
			}
			return callRes{st: st, res: mk("append", "", t, append([]*Term{x}, y.A...)...)}
		}
		return callRes{st: st, res: mk("appendall", "", t, x, y)}
	case "copy":
		ip.emit(st, &Event{Kind: "copy", Target: args[0], Args: args, Pos: pos, In: fr.fn})
		if args[0].Op == "mkslice" || args[0].Op == "list" {
			st.mem[mk("faddr", "$copied", nil, args[0])] = args[1]
		}
		return callRes{st: st, res: mk("copyres", site, types.Typ[types.Int], args...)}
	case "delete":
		st.mem[mk("mapslot", "", nil, args[0], args[1])] = tNil()
		ip.emit(st, &Event{Kind: "mapdel", Target: args[0], Args: args[1:], Pos: pos, In: fr.fn})
		return callRes{st: st}
	case "clear":
		ip.emit(st, &Event{Kind: "clear", Target: args[0], Args: args, Pos: pos, In: fr.fn})
		return callRes{st: st}
	case "ssa:wrapnilchk":
		return callRes{st: st, res: args[0]}
	case "min", "max":
		return callRes{st: st, res: mk("call", b.Name(), c.Value.Type(), args...)}
	case "recover":
		return callRes{st: st, res: mk("call", "recover", nil)}
	}
	st.trace = append(st.trace, &Event{Kind: "builtin", Name: b.Name(), Args: args, Pos: pos, In: fr.fn})
	return callRes{st: st, res: mk("builtinres", site, nil, args...)}
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "path": true, "net": true, "net/url": true,
	"regexp": true, "regexp/syntax": true, "errors": true, "context": true,
	"reflect": true, "unicode": true, "unicode/utf8": true, "bytes": true, "runtime": true,
	"maps": true, "cmp": true, "math": true,
}

var pureFns = map[string]bool{
	"net/http.StatusText": true, "fmt.Sprintf": true, "fmt.Sprint": true,
	"fmt.Errorf": true, "errors.New": true, "(*net/http.Request).Context": true,
	"(*net/http.Request).WithContext": true, "(*net/url.URL).String": true,
	"net/http.CanonicalHeaderKey": true, "slices.Contains": true, "slices.Index": true,
	"slices.IndexFunc": true, "slices.Clone": true, "slices.Equal": true,
	"invoke http.ResponseWriter.Header": true, "invoke context.Context.Value": true,
	"(*net/http.Request).Clone": true,
}

func pkgOfName(n string) string {
	n = strings.TrimPrefix(n, "(")
	n = strings.TrimPrefix(n, "*")
	i := strings.LastIndex(n, "/")
	j := strings.IndexByte(n[i+1:], '.')
	if j < 0 {
		return n
	}
	return n[:i+1+j]
}

func oneRes(st *State, t *Term) ([]callRes, bool) { return []callRes{{st: st, res: t}}, true }

// external models calls that leave the package.
func (ip *Interp) external(fr *frame, st *State, name string, a []*Term, site string, pos token.Pos, sig *types.Signature) ([]callRes, bool) {
	fork := func(cond, x, y *Term) ([]callRes, bool) {
		var rs []callRes
		for _, f := range st.facts.assume(cond, true) {
			rs = append(rs, callRes{st: st.withFacts(f), res: x})
		}
		for _, f := range st.facts.assume(cond, false) {
			rs = append(rs, callRes{st: st.withFacts(f), res: y})
		}
		return rs, true
	}
	switch name {
	case "strings.HasPrefix", "strings.HasSuffix":
		return oneRes(st, affix(name == "strings.HasPrefix", a[0], a[1]))
	case "strings.TrimPrefix", "strings.TrimSuffix":
		pre := name == "strings.TrimPrefix"
		var cut *Term
		if pre {
			cut = tSlice(a[0], tLen(a[1]), nil)
		} else {
			cut = tSlice(a[0], nil, tSub(tLen(a[0]), tLen(a[1])))
		}
		return fork(affix(pre, a[0], a[1]), cut, a[0])
	case "strings.CutPrefix", "strings.CutSuffix":
		pre := name == "strings.CutPrefix"
		var cut *Term
		if pre {
			cut = tSlice(a[0], tLen(a[1]), nil)
		} else {
			cut = tSlice(a[0], nil, tSub(tLen(a[0]), tLen(a[1])))
		}
		return fork(affix(pre, a[0], a[1]), tuple(cut, tBool(true)), tuple(a[0], tBool(false)))
	case "strings.Contains", "strings.ContainsRune":
		if s, ok := a[1].strVal(); ok && len(s) == 1 {
			return oneRes(st, mk("has", strconv.Itoa(int(s[0])), types.Typ[types.Bool], a[0]))
		}
		if n, ok := a[1].intVal(); ok {
			return oneRes(st, mk("has", strconv.Itoa(int(n)), types.Typ[types.Bool], a[0]))
		}
	case "strings.Index", "strings.LastIndex":
		if s, ok := a[1].strVal(); ok && len(s) == 1 {
			return oneRes(st, mk("call", name+"Byte", types.Typ[types.Int], a[0], tInt(int64(s[0]))))
		}
	case "strings.IndexRune":
		if n, ok := a[1].intVal(); ok && n < 128 {
			return oneRes(st, mk("call", "strings.IndexByte", types.Typ[types.Int], a[0], a[1]))
		}
	case "strings.Cut":
		if s, ok := a[1].strVal(); ok && len(s) == 1 {
			i := mk("call", "strings.IndexByte", types.Typ[types.Int], a[0], tInt(int64(s[0])))
			return fork(tLt(i, tInt(0)), tuple(a[0], tStr(""), tBool(false)),
				tuple(tSlice(a[0], nil, i), tSlice(a[0], tAdd(i, tInt(1)), nil), tBool(true)))
		}
	case "strings.EqualFold":
		return oneRes(st, mk("call", name, types.Typ[types.Bool], a...))
	case "fmt.Errorf", "errors.New":
		return oneRes(st, mk("newerr", "", sig.Results().At(0).Type(), flatten(a)...))
	case "errors.Is":
		return oneRes(st, mk("call", name, types.Typ[types.Bool], strip(a[0]), strip(a[1])))
	case "(*net/url.URL).String":
		sv := ip.load(st, strip(a[0]), derefType(ip.p.urlPtr(a[0])))
		return oneRes(st, mk("urlstring", "", types.Typ[types.String], sv))
	case "(*net/url.URL).EscapedPath":
		// depends on two fields only
		u, t := strip(a[0]), types.Typ[types.String]
		return oneRes(st, mk("call", name, t, ip.load(st, mk("faddr", "Path", types.NewPointer(t), u), t), ip.load(st, mk("faddr", "RawPath", types.NewPointer(t), u), t)))
	case "(*net/http.Request).Context":
		if a[0].Op == "call" && a[0].Aux == "(*net/http.Request).WithContext" {
			return oneRes(st, a[0].A[1])
		}
	case "invoke context.Context.Value":
		c := strip(a[0])
		for c.Op == "call" && c.Aux == "context.WithValue" {
			if c.A[1] == a[1] {
				return oneRes(st, c.A[2])
			}
			if !(c.A[1].Op == "init" && a[1].Op == "init") && !(c.A[1].Op == "iface" && a[1].Op == "iface") {
				break
			}
			c = strip(c.A[0])
		}
		return oneRes(st, mk("call", name, sig.Results().At(0).Type(), c, a[1]))
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune":
		cell := mk("faddr", "$content", nil, a[0])
		cur, ok := st.mem[cell]
		if !ok {
			cur = tStr("")
		}
		s := a[1]
		if n, ok := s.intVal(); ok {
			s = tStr(string(rune(n)))
		} else if name != "(*strings.Builder).WriteString" {
			s = mk("conv", "string", types.Typ[types.String], s)
		}
		st.mem[cell] = tConcat(cur, s)
		switch name {
		case "(*strings.Builder).WriteByte":
			return oneRes(st, tNil())
		}
		return oneRes(st, tuple(tLen(s), tNil()))
	case "(*strings.Builder).String", "(*strings.Builder).Len":
		cell := mk("faddr", "$content", nil, a[0])
		cur, ok := st.mem[cell]
		if !ok {
			cur = tStr("")
		}
		if name == "(*strings.Builder).Len" {
			return oneRes(st, tLen(cur))
		}
		return oneRes(st, cur)
	case "(*strings.Builder).Reset":
		st.mem[mk("faddr", "$content", nil, a[0])] = tStr("")
		return []callRes{{st: st}}, true
	case "(*strings.Builder).Grow":
		return []callRes{{st: st}}, true
	}
	if pureFns[name] || purePkgs[pkgOfName(name)] {
		var res *Term
		var as []*Term
		for _, x := range a {
			as = append(as, strip(x))
		}
		switch sig.Results().Len() {
		case 0:
			return []callRes{{st: st}}, true
		case 1:
			res = mk("call", name, sig.Results().At(0).Type(), as...)
		default:
			base := mk("call", name, nil, as...)
			var rs []*Term
			for i := 0; i < sig.Results().Len(); i++ {
				rs = append(rs, mk("ext", strconv.Itoa(i), sig.Results().At(i).Type(), base))
			}
			res = tuple(rs...)
		}
		// Function values given to pure functions are not followed.
		return oneRes(st, res)
	}
	return nil, false
}

// singleWord: the only argument is a constant word without a lower case
// letter, a comma or a space.
func singleWord(args []*Term) (string, bool) {
	if len(args) != 1 {
		return "", false
	}
	s, ok := args[0].strVal()
	return s, ok && s != "" && s == strings.ToUpper(s) && !strings.ContainsAny(s, ", \t")
}

func affix(pre bool, x, s *Term) *Term {
	op := "last"
	if pre {
		op = "first"
	}
	if x == s {
		return tBool(true)
	}
	// x[:n] begins x, and x[n:] ends it.
	base, lo, hi := x, tInt(0), tNil()
	if x.Op == "slice" {
		base, lo, hi = x.A[0], x.A[1], x.A[2]
	}
	if s.Op == "slice" && s.A[0] == base && hi.isNil() && x.Op != "alloc" {
		if pre && s.A[1] == lo || !pre && s.A[2].isNil() && base == x {
			return tBool(true)
		}
	}
	if c, ok := s.strVal(); ok {
		if v, ok := x.strVal(); ok {
			if pre {
				return tBool(strings.HasPrefix(v, c))
			}
			return tBool(strings.HasSuffix(v, c))
		}
		switch len(c) {
		case 0:
			return tBool(true)
		case 1:
			if !pre && x.Op == "slice" && x.A[0].Op != "alloc" {
				return tAnd(tLt(tInt(0), tLen(x)), lastIs(x, c[0]))
			}
			return mk(op, strconv.Itoa(int(c[0])), types.Typ[types.Bool], x)
		}
	}
	return mk("call", op+"affix", types.Typ[types.Bool], x, s)
}

func typeOfTerm(t *Term) types.Type {
	if t.T == nil {
		return nil
	}
	return t.T.Underlying()
}
