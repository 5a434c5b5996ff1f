package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// Term is a hash-consed abstract value. Terms are immutable: two values that
// are built the same way from the same inputs are the same *Term, which is
// what makes the analysis insensitive to how the source spells a computation.
type Term struct {
	Op  string
	Aux string
	A   []*Term
	T   types.Type // may be nil; not a part of the identity

	id int
}

var (
	interned = map[string]*Term{}
	nextID   = 1
)

func mk(op, aux string, t types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte(0)
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if x, ok := interned[k]; ok {
		if x.T == nil && t != nil {
			x.T = t
		}
		return x
	}
	x := &Term{Op: op, Aux: aux, A: args, T: t, id: nextID}
	nextID++
	interned[k] = x
	return x
}

func tInt(n int64) *Term { return mk("const", "i:"+strconv.FormatInt(n, 10), nil) }
func tStr(s string) *Term {
	return mk("const", "s:"+s, types.Typ[types.String])
}
func tBool(b bool) *Term {
	if b {
		return mk("const", "b:true", types.Typ[types.Bool])
	}
	return mk("const", "b:false", types.Typ[types.Bool])
}
func tNil() *Term { return mk("nil", "", nil) }

func tConst(v constant.Value, t types.Type) *Term {
	if v == nil {
		return zeroOf(t)
	}
	switch v.Kind() {
	case constant.Bool:
		return tBool(constant.BoolVal(v))
	case constant.String:
		return tStr(constant.StringVal(v))
	case constant.Int:
		if n, ok := constant.Int64Val(v); ok {
			return tInt(n)
		}
	}
	return mk("const", "x:"+v.ExactString(), t)
}

func zeroOf(t types.Type) *Term {
	if t == nil {
		return tNil()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tBool(false)
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Info()&types.IsNumeric != 0:
			return tInt(0)
		}
		return tNil()
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroOf(u.Field(i).Type()))
		}
		return mk("struct", structTag(t), t, fs...)
	}
	return tNil()
}

func structTag(t types.Type) string {
	return typeName(t)
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *Term) isConst() bool { return t.Op == "const" }
func (t *Term) isNil() bool   { return t.Op == "nil" }

func (t *Term) intVal() (int64, bool) {
	if t.Op == "const" && strings.HasPrefix(t.Aux, "i:") {
		n, err := strconv.ParseInt(t.Aux[2:], 10, 64)
		return n, err == nil
	}
	return 0, false
}

func (t *Term) strVal() (string, bool) {
	if t.Op == "const" && strings.HasPrefix(t.Aux, "s:") {
		return t.Aux[2:], true
	}
	return "", false
}

func (t *Term) boolVal() (bool, bool) {
	if t.Op == "const" {
		switch t.Aux {
		case "b:true":
			return true, true
		case "b:false":
			return false, true
		}
	}
	return false, false
}

func (t *Term) String() string {
	return t.str(0)
}

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 14 {
		return "…"
	}
	var as []string
	for _, a := range t.A {
		as = append(as, a.str(d+1))
	}
	switch t.Op {
	case "const":
		if s, ok := t.strVal(); ok {
			return strconv.Quote(s)
		}
		return t.Aux[2:]
	case "nil":
		return "nil"
	case "sym", "alloc", "global":
		return t.Aux
	case "faddr":
		return "&" + as[0] + "." + t.Aux
	case "init":
		s := as[0]
		if strings.HasPrefix(s, "&") {
			return s[1:] + t.Aux
		}
		return "*" + s + t.Aux
	case "iaddr":
		return "&" + as[0] + "[" + as[1] + "]"
	case "bin":
		return "(" + as[0] + " " + t.Aux + " " + as[1] + ")"
	case "not":
		return "!" + as[0]
	case "ext":
		return as[0] + "#" + t.Aux
	case "iface":
		return as[0]
	case "ind":
		return "i"
	}
	return t.Op + optAux(t.Aux) + "(" + strings.Join(as, ", ") + ")"
}

func optAux(s string) string {
	if s == "" {
		return ""
	}
	return "<" + s + ">"
}

// strip removes interface boxing, so that identity of the boxed value can be
// compared.
func strip(t *Term) *Term {
	for t != nil && (t.Op == "iface" || t.Op == "derived") {
		t = t.A[0]
	}
	return t
}

// ---------------------------------------------------------------- builders

func tLen(x *Term) *Term {
	switch x.Op {
	case "const":
		if s, ok := x.strVal(); ok {
			return tInt(int64(len(s)))
		}
	case "nil":
		return tInt(0)
	case "concat":
		var r *Term = tInt(0)
		for _, a := range x.A {
			r = tAdd(r, tLen(a))
		}
		return r
	case "list":
		return tInt(int64(len(x.A)))
	case "append":
		return tAdd(tLen(x.A[0]), tInt(int64(len(x.A)-1)))
	case "slice":
		// slice(x, lo, hi)
		hi := x.A[2]
		if hi.isNil() {
			hi = tLen(x.A[0])
		}
		return tSub(hi, x.A[1])
	case "mkslice":
		return x.A[0]
	}
	return mk("len", "", types.Typ[types.Int], x)
}

// Linear terms: add(t, c) with a constant c.
func splitAdd(t *Term) (*Term, int64) {
	if n, ok := t.intVal(); ok {
		return nil, n
	}
	if t.Op == "add" {
		n, _ := strconv.ParseInt(t.Aux, 10, 64)
		return t.A[0], n
	}
	return t, 0
}

func mkAdd(t *Term, c int64) *Term {
	if t == nil {
		return tInt(c)
	}
	if c == 0 {
		return t
	}
	if t.Op == "ind" {
		// An induction variable is described by its loop, start and step, so
		// that adding a constant is only a different start.
		p := strings.SplitN(t.Aux, "|", 3)
		st, _ := strconv.ParseInt(p[1], 10, 64)
		return mk("ind", fmt.Sprintf("%s|%d|%s", p[0], st+c, p[2]), t.T)
	}
	return mk("add", strconv.FormatInt(c, 10), t.T, t)
}

func tAdd(x, y *Term) *Term {
	bx, cx := splitAdd(x)
	by, cy := splitAdd(y)
	switch {
	case bx == nil:
		return mkAdd(by, cx+cy)
	case by == nil:
		return mkAdd(bx, cx+cy)
	}
	if bx.id > by.id {
		bx, by = by, bx
	}
	for _, p := range [2][2]*Term{{bx, by}, {by, bx}} {
		// a + (b - a) = b
		if p[1] != nil && p[1].Op == "bin" && p[1].Aux == "-" && p[1].A[1] == p[0] {
			a, ca := splitAdd(p[1].A[0])
			if a == nil {
				return tInt(ca + cx + cy)
			}
			return mkAdd(a, ca+cx+cy)
		}
	}
	return mkAdd(mk("plus", "", x.T, bx, by), cx+cy)
}

func tSub(x, y *Term) *Term {
	bx, cx := splitAdd(x)
	by, cy := splitAdd(y)
	if by == nil {
		return mkAdd(bx, cx-cy)
	}
	if bx == by {
		return tInt(cx - cy)
	}
	if bx != nil && bx.Op == "plus" {
		if bx.A[0] == by {
			return mkAdd(bx.A[1], cx-cy)
		}
		if bx.A[1] == by {
			return mkAdd(bx.A[0], cx-cy)
		}
	}
	if bx == nil {
		return mk("bin", "-", x.T, tInt(cx-cy), by)
	}
	if by.Op == "bin" && by.Aux == "-" && by.A[0] == bx {
		// a - (a - b) = b
		return mkAdd(by.A[1], cx-cy)
	}
	return mkAdd(mk("bin", "-", x.T, bx, by), cx-cy)
}

func tConcat(x, y *Term) *Term {
	var parts []*Term
	add := func(t *Term) {
		if t.Op == "concat" {
			parts = append(parts, t.A...)
		} else {
			parts = append(parts, t)
		}
	}
	add(x)
	add(y)
	var out []*Term
	for _, p := range parts {
		if s, ok := p.strVal(); ok {
			if s == "" {
				continue
			}
			if len(out) > 0 {
				if s2, ok := out[len(out)-1].strVal(); ok {
					out[len(out)-1] = tStr(s2 + s)
					continue
				}
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return tStr("")
	case 1:
		return out[0]
	}
	return mk("concat", "", types.Typ[types.String], out...)
}

func tSlice(x, lo, hi *Term) *Term {
	if lo == nil {
		lo = tInt(0)
	}
	if hi == nil {
		hi = tNil()
	}
	if hi == tLen(x) {
		hi = tNil()
	}
	if n, ok := lo.intVal(); ok && n == 0 && hi.isNil() && x.Op != "alloc" {
		return x
	}
	if s, ok := x.strVal(); ok {
		l, ok1 := lo.intVal()
		h, ok2 := hi.intVal()
		if hi.isNil() {
			h, ok2 = int64(len(s)), true
		}
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(s)) {
			return tStr(s[l:h])
		}
	}
	if x.Op == "slice" {
		// slice(slice(y, a, b), lo, hi) = slice(y, a+lo, a+hi or b)
		nlo := tAdd(x.A[1], lo)
		nhi := x.A[2]
		if !hi.isNil() {
			nhi = tAdd(x.A[1], hi)
		}
		return tSlice(x.A[0], nlo, nhi)
	}
	return mk("slice", "", x.T, x, lo, hi)
}

func tNot(x *Term) *Term {
	if b, ok := x.boolVal(); ok {
		return tBool(!b)
	}
	if x.Op == "not" {
		return x.A[0]
	}
	return mk("not", "", types.Typ[types.Bool], x)
}

func tAnd(x, y *Term) *Term {
	if b, ok := x.boolVal(); ok {
		if b {
			return y
		}
		return x
	}
	if b, ok := y.boolVal(); ok {
		if b {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	return mk("and", "", types.Typ[types.Bool], x, y)
}

func tOr(x, y *Term) *Term { return tNot(tAnd(tNot(x), tNot(y))) }

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func tBin(op token.Token, x, y *Term, t types.Type) *Term {
	switch op {
	case token.ADD:
		if isStringType(t) {
			return tConcat(x, y)
		}
		r := tAdd(x, y)
		return r
	case token.SUB:
		return tSub(x, y)
	case token.EQL:
		return tEq(x, y)
	case token.NEQ:
		return tNot(tEq(x, y))
	case token.LSS:
		return tLt(x, y)
	case token.GTR:
		return tLt(y, x)
	case token.LEQ:
		return tNot(tLt(y, x))
	case token.GEQ:
		return tNot(tLt(x, y))
	}
	if a, ok := x.intVal(); ok {
		if b, ok := y.intVal(); ok {
			switch op {
			case token.AND:
				return tInt(a & b)
			case token.OR:
				return tInt(a | b)
			case token.AND_NOT:
				return tInt(a &^ b)
			case token.XOR:
				return tInt(a ^ b)
			case token.SHL:
				return tInt(a << uint(b))
			case token.SHR:
				return tInt(a >> uint(b))
			case token.MUL:
				return tInt(a * b)
			}
		}
	}
	switch op {
	case token.AND, token.OR, token.XOR, token.MUL:
		if x.id > y.id {
			x, y = y, x
		}
	}
	return mk("bin", op.String(), t, x, y)
}

// cancel removes the summands that two sums have in common.
func cancel(x, y *Term) (*Term, *Term) {
	// a - b < y  is  a < y + b
	for i := 0; i < 4; i++ {
		if b, c := splitAdd(x); b != nil && b.Op == "bin" && b.Aux == "-" {
			x, y = mkAdd2(b.A[0], c), tAdd(y, b.A[1])
			continue
		}
		if b, c := splitAdd(y); b != nil && b.Op == "bin" && b.Aux == "-" {
			y, x = mkAdd2(b.A[0], c), tAdd(x, b.A[1])
			continue
		}
		break
	}
	bx, cx := splitAdd(x)
	by, cy := splitAdd(y)
	if bx == nil || by == nil || (bx.Op != "plus" && by.Op != "plus") {
		return x, y
	}
	xs, ys := summands(bx), summands(by)
	var rest []*Term
	for _, a := range xs {
		found := false
		for j, b := range ys {
			if a == b {
				ys = append(ys[:j:j], ys[j+1:]...)
				found = true
				break
			}
		}
		if !found {
			rest = append(rest, a)
		}
	}
	sum := func(ts []*Term, c int64) *Term {
		r := tInt(0)
		for _, t := range ts {
			r = tAdd(r, t)
		}
		return tAdd(r, tInt(c))
	}
	return sum(rest, cx), sum(ys, cy)
}

func mkAdd2(t *Term, c int64) *Term { return tAdd(t, tInt(c)) }

func summands(t *Term) []*Term {
	if t.Op == "plus" {
		return append(summands(t.A[0]), summands(t.A[1])...)
	}
	return []*Term{t}
}

// tLt builds x < y, moving constants to one side.
func tLt(x, y *Term) *Term {
	x, y = cancel(x, y)
	bx, cx := splitAdd(x)
	by, cy := splitAdd(y)
	switch {
	case bx == nil && by == nil:
		return tBool(cx < cy)
	case bx == by:
		return tBool(cx < cy)
	case by == nil:
		return mk("ltc", strconv.FormatInt(cy-cx, 10), types.Typ[types.Bool], bx)
	case bx == nil:
		// c < t  <=>  !(t < c+1)
		return tNot(mk("ltc", strconv.FormatInt(cx-cy+1, 10), types.Typ[types.Bool], by))
	}
	if isStringType(x.T) {
		return mk("slt", "", types.Typ[types.Bool], x, y)
	}
	// bx < by + d
	return mk("lt", strconv.FormatInt(cy-cx, 10), types.Typ[types.Bool], bx, by)
}

// tEq builds x == y as a formula over primitive atoms.
func tEq(x, y *Term) *Term {
	if x == y {
		return tBool(true)
	}
	// identity of boxed values
	if x.Op == "iface" && y.Op == "iface" {
		if x.Aux != y.Aux {
			return tBool(false)
		}
		return tEq(x.A[0], y.A[0])
	}
	if y.isNil() || x.isNil() {
		if x.isNil() {
			x, y = y, x
		}
		if nonNilOp(x) {
			return tBool(false)
		}
		return mk("isnil", "", types.Typ[types.Bool], x)
	}
	// booleans
	if isBoolType(x.T) || isBoolType(y.T) {
		if b, ok := x.boolVal(); ok {
			if b {
				return y
			}
			return tNot(y)
		}
		if b, ok := y.boolVal(); ok {
			if b {
				return x
			}
			return tNot(x)
		}
		return tOr(tAnd(x, y), tAnd(tNot(x), tNot(y)))
	}
	// strings against constants
	if _, ok := x.strVal(); ok {
		x, y = y, x
	}
	if s, ok := y.strVal(); ok {
		if _, ok := x.strVal(); ok {
			return tBool(false)
		}
		if s == "" {
			return tEqC(tLen(x), 0)
		}
		return mk("eqs", s, types.Typ[types.Bool], x)
	}
	// integers
	x, y = cancel(x, y)
	if x == y {
		return tBool(true)
	}
	bx, cx := splitAdd(x)
	by, cy := splitAdd(y)
	if bx == nil || by == nil || cx != 0 || cy != 0 {
		switch {
		case bx == nil && by == nil:
			return tBool(cx == cy)
		case bx == by:
			return tBool(cx == cy)
		case by == nil:
			return tEqC(bx, cy-cx)
		case bx == nil:
			return tEqC(by, cx-cy)
		}
		if bx.id > by.id {
			bx, by = by, bx
			cx, cy = cy, cx
		}
		return mk("eqd", strconv.FormatInt(cy-cx, 10), types.Typ[types.Bool], bx, by)
	}
	if disjointAddr(x, y) {
		return tBool(false)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return mk("eq", "", types.Typ[types.Bool], x, y)
}

func disjointAddr(x, y *Term) bool {
	fresh := func(t *Term) bool { return t.Op == "alloc" || t.Op == "fn" || t.Op == "clo" }
	return fresh(x) && fresh(y) && x != y
}

func nonNilOp(x *Term) bool {
	switch x.Op {
	case "reg:newDormantResource", "reg:newRootResource": // P39
		return true
	case "iface", "alloc", "faddr", "iaddr", "clo", "fn", "mkmap", "mkslice", "global", "newerr", "struct", "const", "list":
		return true
	case "append":
		return len(x.A) > 1
	case "derived":
		return true
	case "init":
		return x.A[0].Op == "global" && nonNilGlobals[x.A[0].Aux]
	case "sym":
		return strings.HasPrefix(x.Aux, "$")
	}
	return false
}

// tEqC builds t == c for an integer term; character positions and single bit
// masks get their own atoms.
func tEqC(t *Term, c int64) *Term {
	if t.Op == "bin" && t.Aux == "-" {
		// a - b == c  is  a == b + c
		return tEq(t.A[0], tAdd(t.A[1], tInt(c)))
	}
	if t.Op == "at" && t.Aux == "str" {
		// first or last character
		s, i := t.A[0], t.A[1]
		if n, ok := i.intVal(); ok && n == 0 {
			return mk("first", strconv.FormatInt(c, 10), types.Typ[types.Bool], s)
		}
		if i == tAdd(tLen(s), tInt(-1)) {
			return mk("last", strconv.FormatInt(c, 10), types.Typ[types.Bool], s)
		}
	}
	if t.Op == "bin" && t.Aux == "&" {
		x, m := t.A[0], t.A[1]
		mv, ok := m.intVal()
		if !ok {
			x, m = m, x
			mv, ok = m.intVal()
		}
		if ok {
			if c&^mv != 0 {
				return tBool(false)
			}
			r := tBool(true)
			for k := 0; k < 63; k++ {
				if mv&(1<<uint(k)) == 0 {
					continue
				}
				b := bitOf(x, k)
				if c&(1<<uint(k)) == 0 {
					b = tNot(b)
				}
				r = tAnd(r, b)
			}
			return r
		}
	}
	if t.Op == "bin" && t.Aux == "&^" && c == 0 {
		if mv, ok := t.A[1].intVal(); ok {
			r := tBool(true)
			for k := 0; k < 8; k++ {
				if mv&(1<<uint(k)) == 0 {
					r = tAnd(r, tNot(bitOf(t.A[0], k)))
				}
			}
			return r
		}
	}
	return mk("eqc", strconv.FormatInt(c, 10), types.Typ[types.Bool], t)
}

func bitOf(x *Term, k int) *Term {
	if n, ok := x.intVal(); ok {
		return tBool(n&(1<<uint(k)) != 0)
	}
	if x.Op == "bin" {
		switch x.Aux {
		case "|":
			return tOr(bitOf(x.A[0], k), bitOf(x.A[1], k))
		case "&":
			return tAnd(bitOf(x.A[0], k), bitOf(x.A[1], k))
		case "&^":
			return tAnd(bitOf(x.A[0], k), tNot(bitOf(x.A[1], k)))
		case "^":
			a, b := bitOf(x.A[0], k), bitOf(x.A[1], k)
			return tOr(tAnd(a, tNot(b)), tAnd(tNot(a), b))
		}
	}
	return mk("bit", strconv.Itoa(k), types.Typ[types.Bool], x)
}
