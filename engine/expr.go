package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Var is a symbolic variable over the finite domain 0..d-1. A symbolic byte
// has d = 256; a symbolic choice has as many values as it has alternatives.
type Var struct {
	id   int
	d    int
	name string
	init []uint64 // initial domain
}

func (v *Var) width() int {
	w := bits.Len(uint(v.d - 1))
	if w == 0 {
		w = 1
	}
	return w
}

type Op uint8

const (
	OConst Op = iota
	OTab      // single-variable expression, tabulated over the variable's domain
	OAdd
	OSub
	OMul
	OAndB
	OOrB
	OXor
	OAndNot
	OShl
	OLshr
	OAshr
	OEq
	OUlt
	OSlt
	OUdiv
	OSdiv
	OUrem
	OSrem
	OAnd // boolean, n-ary
	OOr  // boolean, n-ary
	ONot
	OConv // width/sign conversion; a[0]; from width fw, signed fs
	OIte
)

// Expr is a symbolic scalar. Values are kept in V's normal form.
type Expr struct {
	op     Op
	w      uint8 // 1 = bool
	signed bool
	v      *Var
	tab    []uint64 // OTab, w > 1
	bits   []uint64 // OTab, w == 1: bitset over the domain
	a      []*Expr
	c      uint64
	vars   []*Var
	fw     uint8
	fs     bool
	smt    string
}

func words(d int) int { return (d + 63) / 64 }

func fullSet(d int) []uint64 {
	s := make([]uint64, words(d))
	for i := 0; i < d; i++ {
		s[i>>6] |= 1 << (uint(i) & 63)
	}
	return s
}

func setHas(s []uint64, i int) bool { return s[i>>6]>>(uint(i)&63)&1 != 0 }

func setEmpty(s []uint64) bool {
	for _, w := range s {
		if w != 0 {
			return false
		}
	}
	return true
}

func setFirst(s []uint64) int {
	for i, w := range s {
		if w != 0 {
			return i*64 + bits.TrailingZeros64(w)
		}
	}
	return -1
}

func setCount(s []uint64) int {
	n := 0
	for _, w := range s {
		n += bits.OnesCount64(w)
	}
	return n
}

func constE(c uint64, w uint8, signed bool) *Expr {
	return &Expr{op: OConst, c: c, w: w, signed: signed}
}

func varsOf(e *Expr) []*Var {
	switch e.op {
	case OConst:
		return nil
	case OTab:
		return []*Var{e.v}
	}
	return e.vars
}

func unionVars(args []*Expr) []*Var {
	var one *Var
	many := false
	for _, a := range args {
		switch a.op {
		case OConst:
		case OTab:
			if one == nil {
				one = a.v
			} else if one != a.v {
				many = true
			}
		default:
			many = true
		}
	}
	if !many {
		if one == nil {
			return nil
		}
		return []*Var{one}
	}
	seen := map[*Var]bool{}
	var out []*Var
	for _, a := range args {
		for _, v := range varsOf(a) {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// at evaluates e (constant or table) for value i of its variable.
func (e *Expr) at(i int) uint64 {
	if e.op == OConst {
		return e.c
	}
	if e.w == 1 {
		return e.bits[i>>6] >> (uint(i) & 63) & 1
	}
	return e.tab[i]
}

func normN(n uint64, w uint8, signed bool) uint64 {
	switch w {
	case 1:
		return n & 1
	case 8:
		if signed {
			return uint64(int64(int8(n)))
		}
		return n & 0xff
	case 16:
		if signed {
			return uint64(int64(int16(n)))
		}
		return n & 0xffff
	case 32:
		if signed {
			return uint64(int64(int32(n)))
		}
		return n & 0xffffffff
	}
	return n
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// evalOp computes one operation on concrete operands in normal form. aw is the
// operand width, signed the operand signedness.
func evalOp(op Op, w uint8, signed bool, x, y uint64, aw uint8) uint64 {
	switch op {
	case OAdd:
		return normN(x+y, w, signed)
	case OSub:
		return normN(x-y, w, signed)
	case OMul:
		return normN(x*y, w, signed)
	case OAndB:
		return normN(x&y, w, signed)
	case OOrB:
		return normN(x|y, w, signed)
	case OXor:
		return normN(x^y, w, signed)
	case OAndNot:
		return normN(x&^y, w, signed)
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return normN(x<<y, w, signed)
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return normN(x>>y, w, signed)
	case OAshr:
		if y >= 64 {
			y = 63
		}
		return normN(uint64(int64(x)>>y), w, signed)
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OSlt:
		return b2u(int64(x) < int64(y))
	case OUdiv:
		if y == 0 {
			return 0
		}
		return normN(x/y, w, signed)
	case OSdiv:
		if y == 0 {
			return 0
		}
		return normN(uint64(int64(x)/int64(y)), w, signed)
	case OUrem:
		if y == 0 {
			return 0
		}
		return normN(x%y, w, signed)
	case OSrem:
		if y == 0 {
			return 0
		}
		return normN(uint64(int64(x)%int64(y)), w, signed)
	}
	panic("evalOp")
}

func tabE(v *Var, w uint8, signed bool, f func(i int) uint64) *Expr {
	e := &Expr{op: OTab, w: w, signed: signed, v: v}
	if w == 1 {
		e.bits = make([]uint64, words(v.d))
		for i := 0; i < v.d; i++ {
			if f(i)&1 != 0 {
				e.bits[i>>6] |= 1 << (uint(i) & 63)
			}
		}
		return e
	}
	e.tab = make([]uint64, v.d)
	for i := range e.tab {
		e.tab[i] = f(i)
	}
	return e
}

// mkBin builds a binary operation; w/signed describe the result.
func mkBin(op Op, w uint8, signed bool, x, y *Expr) *Expr {
	if x.op == OConst && y.op == OConst {
		return constE(evalOp(op, w, signed, x.c, y.c, x.w), w, signed)
	}
	vs := unionVars([]*Expr{x, y})
	if len(vs) == 1 {
		return tabE(vs[0], w, signed, func(i int) uint64 {
			return evalOp(op, w, signed, x.at(i), y.at(i), x.w)
		})
	}
	return &Expr{op: op, w: w, signed: signed, a: []*Expr{x, y}, vars: vs}
}

func mkNot(x *Expr) *Expr {
	switch x.op {
	case OConst:
		return constE(x.c^1, 1, false)
	case OTab:
		e := &Expr{op: OTab, w: 1, v: x.v, bits: make([]uint64, len(x.bits))}
		full := fullSet(x.v.d)
		for i := range e.bits {
			e.bits[i] = full[i] &^ x.bits[i]
		}
		return e
	case ONot:
		return x.a[0]
	}
	return &Expr{op: ONot, w: 1, a: []*Expr{x}, vars: x.vars}
}

// mkAnd and mkOr merge the single-variable operands of each variable.
func mkAnd(xs []*Expr) *Expr { return mkNary(OAnd, xs) }
func mkOr(xs []*Expr) *Expr  { return mkNary(OOr, xs) }

func mkNary(op Op, xs []*Expr) *Expr {
	unit := uint64(1) // for And
	if op == OOr {
		unit = 0
	}
	var flat []*Expr
	var perVar map[*Var]*Expr
	var order []*Var
	var add func(x *Expr) bool
	add = func(x *Expr) bool {
		switch {
		case x.op == OConst:
			return x.c == unit
		case x.op == op:
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
		case x.op == OTab:
			if perVar == nil {
				perVar = map[*Var]*Expr{}
			}
			if p := perVar[x.v]; p != nil {
				m := &Expr{op: OTab, w: 1, v: x.v, bits: make([]uint64, len(x.bits))}
				for i := range m.bits {
					if op == OAnd {
						m.bits[i] = p.bits[i] & x.bits[i]
					} else {
						m.bits[i] = p.bits[i] | x.bits[i]
					}
				}
				perVar[x.v] = m
			} else {
				perVar[x.v] = x
				order = append(order, x.v)
			}
		default:
			flat = append(flat, x)
		}
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return constE(unit^1, 1, false)
		}
	}
	var out []*Expr
	for _, v := range order {
		p := perVar[v]
		n := setCount(p.bits)
		if op == OAnd {
			if n == 0 {
				return constE(0, 1, false)
			}
			if n == v.d {
				continue
			}
		} else {
			if n == v.d {
				return constE(1, 1, false)
			}
			if n == 0 {
				continue
			}
		}
		out = append(out, p)
	}
	out = append(out, flat...)
	if len(out) == 0 {
		return constE(unit, 1, false)
	}
	if len(out) == 1 {
		return out[0]
	}
	return &Expr{op: op, w: 1, a: out, vars: unionVars(out)}
}

func mkConv(x *Expr, w uint8, signed bool) *Expr {
	if x.op == OConst {
		return constE(normN(x.c, w, signed), w, signed)
	}
	if x.op == OTab {
		return tabE(x.v, w, signed, func(i int) uint64 { return normN(x.at(i), w, signed) })
	}
	return &Expr{op: OConv, w: w, signed: signed, a: []*Expr{x}, vars: x.vars, fw: x.w, fs: x.signed}
}

func mkIte(c, x, y *Expr) *Expr {
	if c.op == OConst {
		if c.c != 0 {
			return x
		}
		return y
	}
	args := []*Expr{c, x, y}
	vs := unionVars(args)
	if len(vs) == 1 {
		return tabE(vs[0], x.w, x.signed, func(i int) uint64 {
			if c.at(i) != 0 {
				return x.at(i)
			}
			return y.at(i)
		})
	}
	return &Expr{op: OIte, w: x.w, signed: x.signed, a: args, vars: vs}
}

// eval evaluates e under a model (value of each variable by id).
func (e *Expr) eval(m []uint16) uint64 {
	switch e.op {
	case OConst:
		return e.c
	case OTab:
		return e.at(int(m[e.v.id]))
	case OAnd:
		for _, x := range e.a {
			if x.eval(m) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for _, x := range e.a {
			if x.eval(m) != 0 {
				return 1
			}
		}
		return 0
	case ONot:
		return e.a[0].eval(m) ^ 1
	case OConv:
		return normN(e.a[0].eval(m), e.w, e.signed)
	case OIte:
		if e.a[0].eval(m) != 0 {
			return e.a[1].eval(m)
		}
		return e.a[2].eval(m)
	}
	return evalOp(e.op, e.w, e.signed, e.a[0].eval(m), e.a[1].eval(m), e.a[0].w)
}

// ---- SMT-LIB2 printing ----

func smtConst(c uint64, w uint8) string {
	if w == 1 {
		if c&1 != 0 {
			return "true"
		}
		return "false"
	}
	if w < 64 {
		c &= 1<<w - 1
	}
	return fmt.Sprintf("(_ bv%d %d)", c, w)
}

// smtMember prints "v in set".
func smtMember(name string, v *Var, set []uint64) string {
	n := setCount(set)
	if n == 0 {
		return "false"
	}
	if n == v.d {
		return "true"
	}
	w := v.width()
	var parts []string
	i := 0
	for i < v.d {
		if !setHas(set, i) {
			i++
			continue
		}
		j := i
		for j+1 < v.d && setHas(set, j+1) {
			j++
		}
		if i == j {
			parts = append(parts, fmt.Sprintf("(= %s (_ bv%d %d))", name, i, w))
		} else {
			parts = append(parts, fmt.Sprintf("(and (bvuge %s (_ bv%d %d)) (bvule %s (_ bv%d %d)))", name, i, w, name, j, w))
		}
		i = j + 1
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

func (e *Expr) smtStr(name func(*Var) string) string {
	switch e.op {
	case OConst:
		return smtConst(e.c, e.w)
	case OTab:
		nm := name(e.v)
		if e.w == 1 {
			return smtMember(nm, e.v, e.bits)
		}
		// identity of the same width
		if e.v.width() == int(e.w) {
			id := true
			for i, x := range e.tab {
				if x != uint64(i) {
					id = false
					break
				}
			}
			if id {
				return nm
			}
		}
		groups := map[uint64][]uint64{}
		var order []uint64
		for i, x := range e.tab {
			if groups[x] == nil {
				groups[x] = make([]uint64, words(e.v.d))
				order = append(order, x)
			}
			groups[x][i>>6] |= 1 << (uint(i) & 63)
		}
		var sb strings.Builder
		for k, x := range order {
			if k == len(order)-1 {
				sb.WriteString(smtConst(x, e.w))
				break
			}
			sb.WriteString("(ite " + smtMember(nm, e.v, groups[x]) + " " + smtConst(x, e.w) + " ")
		}
		sb.WriteString(strings.Repeat(")", len(order)-1))
		return sb.String()
	case OAnd, OOr:
		op := "and"
		if e.op == OOr {
			op = "or"
		}
		parts := make([]string, len(e.a))
		for i, x := range e.a {
			parts[i] = x.smtStr(name)
		}
		return "(" + op + " " + strings.Join(parts, " ") + ")"
	case ONot:
		return "(not " + e.a[0].smtStr(name) + ")"
	case OIte:
		return "(ite " + e.a[0].smtStr(name) + " " + e.a[1].smtStr(name) + " " + e.a[2].smtStr(name) + ")"
	case OConv:
		x := e.a[0].smtStr(name)
		switch {
		case e.w == e.fw:
			return x
		case e.w < e.fw:
			return fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, x)
		case e.fs:
			return fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.fw, x)
		default:
			return fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.fw, x)
		}
	}
	x, y := e.a[0].smtStr(name), e.a[1].smtStr(name)
	if e.op == OEq {
		return "(= " + x + " " + y + ")"
	}
	// shift counts are brought to the width of the shifted value
	if e.op == OShl || e.op == OLshr || e.op == OAshr {
		yw, ew := e.a[1].w, e.w
		if yw < ew {
			y = fmt.Sprintf("((_ zero_extend %d) %s)", ew-yw, y)
		} else if yw > ew {
			// saturate
			y = fmt.Sprintf("(ite (bvuge %s (_ bv%d %d)) (_ bv%d %d) ((_ extract %d 0) %s))", y, ew, yw, ew, ew, ew-1, y)
		}
	}
	var o string
	switch e.op {
	case OAdd:
		o = "bvadd"
	case OSub:
		o = "bvsub"
	case OMul:
		o = "bvmul"
	case OAndB:
		o = "bvand"
	case OOrB:
		o = "bvor"
	case OXor:
		o = "bvxor"
	case OAndNot:
		return "(bvand " + x + " (bvnot " + y + "))"
	case OShl:
		o = "bvshl"
	case OLshr:
		o = "bvlshr"
	case OAshr:
		o = "bvashr"
	case OUlt:
		o = "bvult"
	case OSlt:
		o = "bvslt"
	case OUdiv:
		o = "bvudiv"
	case OSdiv:
		o = "bvsdiv"
	case OUrem:
		o = "bvurem"
	case OSrem:
		o = "bvsrem"
	}
	return "(" + o + " " + x + " " + y + ")"
}
