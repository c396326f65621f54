package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// goPanic is a panic of the interpreted program.
type goPanic struct {
	v   V
	msg string
	rt  bool
	pos string
}

// pathEnd unwinds the interpreter at the end of a path.
type pathEnd struct {
	kind endKind
	msg  string
}

type endKind int

const (
	endOK endKind = iota
	endPanic
	endSteps
	endDepth
	endUnsupported
	endAssume
	endViolated
	endUnknown
)

type item struct {
	job   *Job
	model []uint16
	bound int
}

// Exec interprets one path at a time.
type Exec struct {
	eng     *Engine
	solver  *Solver
	globals []*V
	inited  map[*ssa.Package]bool
	initPkg *ssa.Package

	job     *Job
	model   []uint16
	bound   int
	dec     int
	dom     [][]uint64
	ent     []bool
	cons    []*Expr
	pushed  []item
	unknown bool

	steps, maxSteps int64
	depth           int
	stack           []V
	sp              int
	args            []V
	frames          []*Frame
	cov             []bool
	pureMemo        map[pureKey]V
	tabMemo         map[tabKey]*Expr
	trail           []*Fn

	obs       []V
	fails     []string // violations seen on this path (messages)
	asserts   int
	mapRev    bool
	total     bool
	trySteps  int64
	quiet     bool // nothing is observed
	sampleSat []sat
}

type sat struct {
	msg   string
	model []uint16
}

type pureKey struct {
	fn *Fn
	e  *Expr
}

type tabKey struct {
	op int
	e  *Expr
}

func newExec(e *Engine) *Exec {
	return &Exec{eng: e, solver: newSolver(e), inited: map[*ssa.Package]bool{}, stack: make([]V, 1<<16),
		pureMemo: map[pureKey]V{}, tabMemo: map[tabKey]*Expr{}, maxSteps: e.maxSteps}
}

func (ex *Exec) unsupported(msg string) {
	panic(&pathEnd{endUnsupported, msg})
}

func (ex *Exec) rtPanic(msg string) {
	pos := ""
	if n := ex.depth; n > 0 && n <= len(ex.frames) {
		pos = ex.frames[n-1].fn.name
	}
	panic(&goPanic{v: V{o: &Iface{t: rtypeOf(types.Typ[types.String]), v: cstr("runtime error: " + msg)}}, msg: "runtime error: " + msg, rt: true, pos: pos})
}

func (ex *Exec) ptr(v V) *V {
	p, ok := v.o.(*V)
	if !ok || p == nil {
		ex.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

// ---- decisions ----

func (ex *Exec) domOf(v *Var) []uint64 { return ex.dom[v.id] }

func (ex *Exec) decideV(v V) bool {
	if v.o == nil {
		return v.n != 0
	}
	return ex.decide(v.o.(*Expr))
}

// fold evaluates c if the current domains already settle it.
func (ex *Exec) fold(c *Expr) (bool, bool) {
	if c.op == OConst {
		return c.c != 0, true
	}
	if c.op == OTab {
		dom := ex.dom[c.v.id]
		in, out := false, false
		for i, w := range dom {
			b := c.bits[i]
			if w&b != 0 {
				in = true
			}
			if w&^b != 0 {
				out = true
			}
		}
		if !out {
			ex.solver.confirmEmpty(c.v, dom, mkNot(c).bits)
			return true, true
		}
		if !in {
			ex.solver.confirmEmpty(c.v, dom, c.bits)
			return false, true
		}
	}
	return false, false
}

func (ex *Exec) decide(c *Expr) bool {
	if r, ok := ex.fold(c); ok {
		return r
	}
	side := c.eval(ex.model) != 0
	taken, other := c, mkNot(c)
	if !side {
		taken, other = other, taken
	}
	idx := ex.dec
	ex.dec++
	if idx >= ex.bound {
		ex.fork(other, idx+1)
	}
	ex.assume(taken)
	return side
}

// fork pushes a work item for the side of a decision not taken, if feasible.
func (ex *Exec) fork(other *Expr, bound int) {
	var m []uint16
	if other.op == OTab && !ex.ent[other.v.id] {
		for i, w := range ex.dom[other.v.id] {
			if x := w & other.bits[i]; x != 0 {
				m = append([]uint16(nil), ex.model...)
				m[other.v.id] = uint16(pickBit(i, x))
				break
			}
		}
	} else {
		var st int
		st, m = ex.solve(other)
		if st < 0 {
			ex.unknown = true
		}
		if st != 1 {
			return
		}
	}
	ex.pushed = append(ex.pushed, item{ex.job, m, bound})
}

func pickBit(word int, x uint64) int {
	for b := 0; b < 64; b++ {
		if x>>uint(b)&1 != 0 {
			return word*64 + b
		}
	}
	return 0
}

// solve asks the solver for a model of the path condition and extra.
func (ex *Exec) solve(extra *Expr) (int, []uint16) {
	vars := map[*Var]bool{}
	for _, v := range varsOf(extra) {
		vars[v] = true
	}
	used := make([]bool, len(ex.cons))
	cons := []*Expr{extra}
	for changed := true; changed; {
		changed = false
		for i, c := range ex.cons {
			if used[i] {
				continue
			}
			for _, v := range varsOf(c) {
				if vars[v] {
					used[i] = true
					break
				}
			}
			if used[i] {
				cons = append(cons, c)
				for _, v := range varsOf(c) {
					vars[v] = true
				}
				changed = true
			}
		}
	}
	st, mm := ex.solver.check(cons, ex.domOf)
	if st != 1 {
		return st, nil
	}
	m := append([]uint16(nil), ex.model...)
	for v, x := range mm {
		m[v.id] = uint16(x)
	}
	return 1, m
}

func (ex *Exec) assume(c *Expr) {
	switch c.op {
	case OConst:
		return
	case OTab:
		old := ex.dom[c.v.id]
		nd := make([]uint64, len(old))
		for i := range nd {
			nd[i] = old[i] & c.bits[i]
		}
		ex.dom[c.v.id] = nd
		return
	case OAnd:
		for _, x := range c.a {
			ex.assume(x)
		}
		return
	case ONot:
		if c.a[0].op == OOr {
			for _, x := range c.a[0].a {
				ex.assume(mkNot(x))
			}
			return
		}
	}
	ex.cons = append(ex.cons, c)
	for _, v := range c.vars {
		ex.ent[v.id] = true
	}
}

// require restricts the path to c (a harness assumption).
func (ex *Exec) require(v V) {
	if v.o == nil {
		if v.n == 0 {
			panic(&pathEnd{endAssume, ""})
		}
		return
	}
	c := v.o.(*Expr)
	if r, ok := ex.fold(c); ok {
		if !r {
			panic(&pathEnd{endAssume, ""})
		}
		return
	}
	if c.eval(ex.model) != 0 {
		ex.assume(c)
		return
	}
	// a new model satisfying the assumption continues this very path
	st, m := ex.solve(c)
	if st == 1 {
		ex.pushed = append(ex.pushed, item{ex.job, m, max(ex.dec, ex.bound)})
	} else if st < 0 {
		ex.unknown = true
	}
	panic(&pathEnd{endAssume, ""})
}

// assert discharges one obligation: path condition implies v.
func (ex *Exec) assert(v V, msg string) {
	ex.asserts++
	st := &ex.eng.sstats
	st.asserts.Add(1)
	if v.o == nil {
		if v.n != 0 {
			st.assertT.Add(1)
			return
		}
		ex.violate(msg, ex.model)
		panic(&pathEnd{endViolated, msg})
	}
	c := v.o.(*Expr)
	r, m := ex.solve(mkNot(c))
	switch {
	case r < 0:
		ex.unknown = true
	case r == 1:
		ex.violate(msg, m)
		if c.eval(ex.model) == 0 {
			panic(&pathEnd{endViolated, msg})
		}
	}
	ex.assume(c)
}

func (ex *Exec) violate(msg string, m []uint16) {
	ex.sampleSat = append(ex.sampleSat, sat{msg, append([]uint16(nil), m...)})
}

// conc1 returns the value of e if its domain makes it constant.
func (ex *Exec) norm(v V) V {
	e, ok := v.o.(*Expr)
	if !ok {
		return v
	}
	if e.op == OTab {
		dom := ex.dom[e.v.id]
		first := true
		var val uint64
		for i, w := range dom {
			for w != 0 {
				b := pickBit(0, w)
				w &= w - 1
				x := e.at(i*64 + b)
				if first {
					val, first = x, false
				} else if x != val {
					return v
				}
			}
		}
		return V{n: val}
	}
	return v
}

func (ex *Exec) singleton(v *Var) bool {
	n := 0
	for _, w := range ex.dom[v.id] {
		if w != 0 {
			if w&(w-1) != 0 {
				return false
			}
			n++
		}
	}
	return n == 1
}

// concInt makes an integer concrete, forking over its other values.
func (ex *Exec) concInt(v V) int {
	if v.o == nil {
		return int(int64(v.n))
	}
	v = ex.norm(v)
	if v.o == nil {
		return int(int64(v.n))
	}
	e := v.o.(*Expr)
	n := e.eval(ex.model)
	ex.decide(mkBin(OEq, 1, false, e, constE(n, e.w, e.signed)))
	return int(int64(n))
}

func (ex *Exec) concStr(v V) string {
	s := strOf(v)
	if s == nil {
		return ""
	}
	if s.b == nil {
		return s.s
	}
	out := make([]byte, len(s.b))
	for i, b := range s.b {
		out[i] = byte(ex.concInt(b))
	}
	return string(out)
}

// underModel evaluates a string under the path's model.
func (ex *Exec) underModel(v V, m []uint16) string {
	s := strOf(v)
	if s == nil {
		return ""
	}
	if s.b == nil {
		return s.s
	}
	out := make([]byte, len(s.b))
	for i, b := range s.b {
		if e, ok := b.o.(*Expr); ok {
			out[i] = byte(e.eval(m))
		} else {
			out[i] = byte(b.n)
		}
	}
	return string(out)
}

func (ex *Exec) index(iv V, n int) int {
	if iv.o == nil {
		k := int(int64(iv.n))
		if k < 0 || k >= n {
			ex.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return k
	}
	e := iv.o.(*Expr)
	e64 := mkConv(e, 64, false)
	if !ex.decide(mkBin(OUlt, 1, false, e64, constE(uint64(n), 64, false))) {
		ex.rtPanic("index out of range (symbolic)")
	}
	return ex.concInt(iv)
}

func (ex *Exec) strIndex(v, iv V) V {
	s := strOf(v)
	if s == nil {
		ex.rtPanic("index out of range [0] with length 0")
	}
	if e, ok := iv.o.(*Expr); ok && s.b == nil && e.op == OTab {
		ok := true
		dom := ex.dom[e.v.id]
		for i := 0; i < e.v.d; i++ {
			if setHas(dom, i) && e.at(i) >= uint64(len(s.s)) {
				ok = false
				break
			}
		}
		if ok {
			return fromE(tabE(e.v, 8, false, func(i int) uint64 {
				if x := e.at(i); x < uint64(len(s.s)) {
					return uint64(s.s[x])
				}
				return 0
			}))
		}
	}
	k := ex.index(iv, s.length())
	b := s.at(k)
	if e, ok := b.o.(*Expr); ok && e.op == OTab && ex.singleton(e.v) {
		return ex.norm(b)
	}
	return b
}

func (ex *Exec) subStr(v V, i, j int) V {
	s := strOf(v)
	if s == nil || s.b == nil || j-i > 64 {
		return subStr(v, i, j)
	}
	for _, b := range s.b[i:j] {
		if e, ok := b.o.(*Expr); ok && (e.op != OTab || !ex.singleton(e.v)) {
			return subStr(v, i, j)
		}
	}
	out := make([]V, j-i)
	for k := range out {
		out[k] = ex.norm(s.b[i+k])
	}
	return mkStr(out)
}

func (ex *Exec) tableRead(f []V, e *Expr, t types.Type) (V, bool) {
	if !isScalar(t) {
		return V{}, false
	}
	w, signed := intInfo(t)
	dom := ex.dom[e.v.id]
	for i := 0; i < e.v.d; i++ {
		if setHas(dom, i) {
			k := e.at(i)
			if k >= uint64(len(f)) || f[k].o != nil {
				return V{}, false
			}
		}
	}
	return fromE(tabE(e.v, w, signed, func(i int) uint64 {
		if k := e.at(i); k < uint64(len(f)) && f[k].o == nil {
			return f[k].n
		}
		return 0
	})), true
}

// ---- strings ----

// strVar returns the only variable a string depends on.
func strVar(s *Str) (*Var, bool) {
	if s == nil || s.b == nil {
		return nil, true
	}
	var v *Var
	for i := range s.b {
		if e, ok := s.b[i].o.(*Expr); ok {
			if e.op != OTab {
				return nil, false
			}
			if v == nil {
				v = e.v
			} else if v != e.v {
				return nil, false
			}
		}
	}
	return v, true
}

func byteAtVal(v V, i int) byte {
	if e, ok := v.o.(*Expr); ok {
		return byte(e.at(i))
	}
	return byte(v.n)
}

func strEq(a, b V) V {
	x, y := strOf(a), strOf(b)
	n := x.length()
	if n != y.length() {
		return V{}
	}
	if n == 0 {
		return V{n: 1}
	}
	if x.b == nil && y.b == nil {
		return V{n: b2u(x.s == y.s)}
	}
	var parts []*Expr
	for i := 0; i < n; i++ {
		p, q := x.at(i), y.at(i)
		if p.o == nil && q.o == nil {
			if p.n != q.n {
				return V{}
			}
			continue
		}
		if p.o == q.o {
			continue
		}
		parts = append(parts, nil)
	}
	if len(parts) == 0 {
		return V{n: 1}
	}
	// one variable only: tabulate at once
	v1, ok1 := strVar(x)
	v2, ok2 := strVar(y)
	if ok1 && ok2 && (v1 == nil || v2 == nil || v1 == v2) {
		v := v1
		if v == nil {
			v = v2
		}
		e := tabE(v, 1, false, func(i int) uint64 {
			for k := 0; k < n; k++ {
				if byteAtVal(x.at(k), i) != byteAtVal(y.at(k), i) {
					return 0
				}
			}
			return 1
		})
		return foldTab(e)
	}
	parts = parts[:0]
	for i := 0; i < n; i++ {
		p, q := x.at(i), y.at(i)
		if p.o == nil && q.o == nil || p.o != nil && p.o == q.o {
			continue
		}
		parts = append(parts, mkBin(OEq, 1, false, toE(p, 8, false), toE(q, 8, false)))
	}
	return fromE(mkAnd(parts))
}

func foldTab(e *Expr) V {
	n := setCount(e.bits)
	if n == 0 {
		return V{}
	}
	if n == e.v.d {
		return V{n: 1}
	}
	return V{o: e}
}

func (ex *Exec) strLess(a, b V) V {
	x, y := strOf(a), strOf(b)
	if p, ok := conc(a); ok {
		if q, ok := conc(b); ok {
			return V{n: b2u(p < q)}
		}
	}
	n := min(x.length(), y.length())
	r := constE(b2u(x.length() < y.length()), 1, false)
	for i := n - 1; i >= 0; i-- {
		p, q := toE(x.at(i), 8, false), toE(y.at(i), 8, false)
		r = mkOr([]*Expr{mkBin(OUlt, 1, false, p, q), mkAnd([]*Expr{mkBin(OEq, 1, false, p, q), r})})
	}
	return fromE(r)
}

// ---- maps ----

func mapKey(v V) any {
	switch o := v.o.(type) {
	case nil:
		return v.n
	case *Str:
		return o.s
	case *Iface:
		return [2]any{o.t, mapKey(o.v)}
	case *Agg:
		var sb strings.Builder
		for _, f := range o.f {
			fmt.Fprintf(&sb, "%v|", mapKey(f))
		}
		return sb.String()
	}
	return v.o
}

func symbolicV(v V) bool {
	switch o := v.o.(type) {
	case *Expr:
		return true
	case *Str:
		return o.b != nil
	case *Iface:
		return symbolicV(o.v)
	case *Agg:
		for _, f := range o.f {
			if symbolicV(f) {
				return true
			}
		}
	}
	return false
}

func keyOf(v V, isStr bool) any {
	if isStr && v.o == nil {
		return ""
	}
	return mapKey(v)
}

func (ex *Exec) mapLookup(m *Map, k, z V) (V, V) {
	if m == nil || m.n == 0 {
		return z, V{}
	}
	if !symbolicV(k) && !m.symKeys {
		ky := mapKey(k)
		if k.o == nil && m.strKeys {
			ky = ""
		}
		if i, ok := m.idx[ky]; ok {
			return m.vals[i], V{n: 1}
		}
		return z, V{}
	}
	// symbolic key: one condition when every value is the same
	uniform := true
	var uv V
	first := true
	for i := range m.keys {
		if m.dead[i] {
			continue
		}
		if first {
			uv, first = m.vals[i], false
		} else if !sameConst(uv, m.vals[i]) {
			uniform = false
			break
		}
	}
	s := strOf2(k)
	if uniform && sameConst(uv, z) || uniform && s != nil {
		if v, ok := strVar(s); ok && v != nil && s != nil && !m.symKeys {
			buf := make([]byte, s.length())
			dom := ex.dom[v.id]
			e := tabE(v, 1, false, func(i int) uint64 {
				if !setHas(dom, i) {
					return 0
				}
				for j := range buf {
					buf[j] = byteAtVal(s.at(j), i)
				}
				_, ok := m.idx[string(buf)]
				return b2u(ok)
			})
			r := foldTab(e)
			if sameConst(uv, z) {
				return z, r
			}
			if ex.decideV(r) {
				return uv, V{n: 1}
			}
			return z, V{}
		}
		var parts []*Expr
		for i := range m.keys {
			if m.dead[i] {
				continue
			}
			c := ex.equal(m.keys[i], k)
			if c.o == nil {
				if c.n != 0 {
					return uv, V{n: 1}
				}
				continue
			}
			parts = append(parts, c.o.(*Expr))
		}
		r := fromE(mkOr(parts))
		if sameConst(uv, z) {
			return z, r
		}
		if ex.decideV(r) {
			return uv, V{n: 1}
		}
		return z, V{}
	}
	for i := range m.keys {
		if m.dead[i] {
			continue
		}
		if ex.decideV(ex.equal(m.keys[i], k)) {
			return m.vals[i], V{n: 1}
		}
	}
	return z, V{}
}

func strOf2(v V) *Str {
	s, _ := v.o.(*Str)
	return s
}

func sameConst(a, b V) bool {
	if a.o == nil && b.o == nil {
		return a.n == b.n
	}
	if x, ok := a.o.(*Agg); ok {
		if y, ok := b.o.(*Agg); ok {
			if len(x.f) != len(y.f) {
				return false
			}
			for i := range x.f {
				if !sameConst(x.f[i], y.f[i]) {
					return false
				}
			}
			return true
		}
	}
	return a.o == b.o && a.o != nil
}

func (ex *Exec) mapFind(m *Map, k V) int {
	if !symbolicV(k) && !m.symKeys {
		ky := mapKey(k)
		if k.o == nil && m.strKeys {
			ky = ""
		}
		if i, ok := m.idx[ky]; ok {
			return i
		}
		return -1
	}
	for i := range m.keys {
		if !m.dead[i] && ex.decideV(ex.equal(m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (ex *Exec) mapSet(m *Map, k, v V) {
	if _, ok := k.o.(*Str); ok {
		m.strKeys = true
		if i, ok := m.idx[uint64(0)]; ok { // an empty key stored before
			delete(m.idx, uint64(0))
			m.idx[""] = i
		}
	}
	if i := ex.mapFind(m, k); i >= 0 {
		m.vals[i] = v
		return
	}
	if symbolicV(k) {
		m.symKeys = true
	} else {
		ky := mapKey(k)
		if k.o == nil && m.strKeys {
			ky = ""
		}
		m.idx[ky] = len(m.keys)
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.dead = append(m.dead, false)
	m.n++
}

func (ex *Exec) mapDelete(m *Map, k V) {
	i := ex.mapFind(m, k)
	if i < 0 {
		return
	}
	m.dead[i] = true
	m.n--
	if !symbolicV(m.keys[i]) {
		ky := mapKey(m.keys[i])
		if m.keys[i].o == nil && m.strKeys {
			ky = ""
		}
		delete(m.idx, ky)
	}
}

type iterator struct {
	m     *Map
	order []int
	str   V
	i     int
	isStr bool
}

func (ex *Exec) rangeIter(v V) *iterator {
	if m, ok := v.o.(*Map); ok {
		it := &iterator{m: m}
		for i := range m.keys {
			if !m.dead[i] {
				it.order = append(it.order, i)
			}
		}
		if ex.mapRev {
			for i, j := 0, len(it.order)-1; i < j; i, j = i+1, j-1 {
				it.order[i], it.order[j] = it.order[j], it.order[i]
			}
		}
		return it
	}
	return &iterator{str: v, isStr: true}
}

func (ex *Exec) rangeNext(it *iterator) V {
	if it.isStr {
		s, _ := it.str.o.(*Str)
		if it.i >= s.length() {
			return V{o: &Agg{f: []V{{}, {}, {}}}}
		}
		pos := it.i
		r, n := ex.decodeRune(it.str, pos)
		it.i += n
		return V{o: &Agg{f: []V{{n: 1}, {n: uint64(pos)}, r}}}
	}
	for it.i < len(it.order) {
		k := it.order[it.i]
		it.i++
		if it.m.dead[k] {
			continue
		}
		return V{o: &Agg{f: []V{{n: 1}, it.m.keys[k], it.m.vals[k]}}}
	}
	return V{o: &Agg{f: []V{{}, {}, {}}}}
}

// decodeRune decodes the rune at byte i of a string.
func (ex *Exec) decodeRune(v V, i int) (V, int) {
	s := strOf(v)
	if s.b == nil {
		r, n := utf8.DecodeRuneInString(s.s[i:])
		return V{n: uint64(int64(r))}, n
	}
	b := ex.norm(s.b[i])
	if e, ok := b.o.(*Expr); ok {
		if ex.decide(mkBin(OUlt, 1, false, e, constE(0x80, 8, false))) {
			return fromE(mkConv(e, 32, true)), 1
		}
	} else if b.n < 0x80 {
		return V{n: b.n}, 1
	}
	// A multi-byte sequence: the real decoder is interpreted.
	if f := ex.eng.decodeFn; f != nil {
		r := ex.call(f, []V{ex.subStr(v, i, s.length())}, nil, nil)
		ag := r.o.(*Agg)
		return ag.f[0], ex.concInt(ag.f[1])
	}
	ex.unsupported("utf8 decode")
	return V{}, 0
}

// ---- equality ----

func (ex *Exec) equal(a, b V) V {
	switch x := a.o.(type) {
	case nil:
		switch y := b.o.(type) {
		case nil:
			return V{n: b2u(a.n == b.n)}
		case *Expr:
			return fromE(mkBin(OEq, 1, false, constE(a.n, y.w, y.signed), y))
		case *Str:
			return V{n: b2u(y.length() == 0 && a.n == 0)}
		case *Agg:
			return V{}
		}
		return V{}
	case *Expr:
		switch y := b.o.(type) {
		case *Expr:
			if x == y {
				return V{n: 1}
			}
			return fromE(mkBin(OEq, 1, false, x, y))
		case nil:
			return fromE(mkBin(OEq, 1, false, x, constE(b.n, x.w, x.signed)))
		}
		return V{}
	case *Str:
		if _, ok := b.o.(*Str); !ok {
			return V{n: b2u(b.o == nil && x.length() == 0)}
		}
		return strEq(a, b)
	case *Iface:
		y, ok := b.o.(*Iface)
		if !ok {
			return V{}
		}
		if x.t != y.t {
			return V{}
		}
		if !types.Comparable(x.t.t) {
			ex.rtPanic("comparing uncomparable type " + typeName(x.t.t))
		}
		return ex.equal(x.v, y.v)
	case *Agg:
		y, ok := b.o.(*Agg)
		if !ok || len(x.f) != len(y.f) {
			return V{}
		}
		var parts []*Expr
		for i := range x.f {
			r := ex.equal(x.f[i], y.f[i])
			if r.o == nil {
				if r.n == 0 {
					return V{}
				}
				continue
			}
			parts = append(parts, r.o.(*Expr))
		}
		return fromE(mkAnd(parts))
	}
	return V{n: b2u(a.o == b.o)}
}

// ---- calls ----

func (ex *Exec) callClosure(cl *Closure, args []V, caller *Frame) V {
	if cl.native != nil {
		return cl.native(ex, args)
	}
	fn := cl.fn
	if fn == nil {
		fn = ex.eng.fn(cl.sf)
	}
	return ex.call(fn, args, cl.env, caller)
}

func (ex *Exec) call(fn *Fn, args []V, env []V, caller *Frame) V {
	if fn.intr != nil {
		return fn.intr(ex, args)
	}
	if fn.isInit && ex.initPkg != fn.pkg {
		return V{}
	}
	if fn.pure {
		if e, ok := args[0].o.(*Expr); ok {
			if r, ok := ex.pureCall(fn, e); ok {
				return r
			}
		}
	}
	ex.depth++
	if ex.depth > ex.eng.maxDepth {
		panic(&pathEnd{endDepth, fn.name})
	}
	sp := ex.sp
	if sp+fn.nregs > len(ex.stack) {
		n := make([]V, max(len(ex.stack)*2, sp+fn.nregs+1024))
		ex.stack = n
	}
	r := ex.stack[sp : sp+fn.nregs : sp+fn.nregs]
	ex.sp = sp + fn.nregs
	copy(r, args)
	if len(env) > 0 {
		copy(r[fn.nparams:], env)
	}
	var fr *Frame
	if ex.depth <= len(ex.frames) {
		fr = ex.frames[ex.depth-1]
	} else {
		fr = &Frame{}
		ex.frames = append(ex.frames, fr)
	}
	*fr = Frame{r: r, fn: fn, caller: caller}
	var res V
	if fn.usesDefer() {
		fr = &Frame{r: r, fn: fn, caller: caller}
		ex.frames[ex.depth-1] = fr
		res = ex.runDefer(fr)
	} else {
		res = ex.run(fr, fn.blocks[0])
	}
	ex.depth--
	ex.sp = sp
	return res
}

func (fn *Fn) usesDefer() bool { return fn.hasDefer }

func (ex *Exec) run(fr *Frame, b *Block) V {
	for {
		ex.steps += int64(len(b.ins)) + 1
		if ex.steps > ex.maxSteps {
			panic(&pathEnd{endSteps, fr.fn.name})
		}
		if b.cov >= 0 {
			ex.cov[b.cov] = true
		}
		for _, in := range b.ins {
			in(ex, fr)
		}
		var e *edge
		switch b.term {
		case tJump:
			e = &b.e[0]
		case tIf:
			c := b.cond.get(ex, fr)
			var t bool
			if c.o == nil {
				t = c.n != 0
			} else {
				// merge chains of conditions that share a target
				x := c.o.(*Expr)
				for b.chain != nil {
					if _, ok := ex.fold(x); ok {
						break
					}
					n := b.chain
					or := b.chainOr
					for _, in := range n.ins {
						in(ex, fr)
					}
					y := toE(n.cond.get(ex, fr), 1, false)
					if or {
						x = mkOr([]*Expr{x, y})
					} else {
						x = mkAnd([]*Expr{x, y})
					}
					if n.cov >= 0 {
						ex.cov[n.cov] = true
					}
					b = n
					if n.chain != nil && n.chainOr != or {
						break
					}
				}
				t = ex.decide(x)
			}
			if t {
				e = &b.e[0]
			} else {
				e = &b.e[1]
			}
		case tRet:
			switch len(b.rets) {
			case 0:
				return V{}
			case 1:
				return b.rets[0].get(ex, fr)
			}
			ag := &Agg{f: make([]V, len(b.rets))}
			for i := range b.rets {
				ag.f[i] = b.rets[i].get(ex, fr)
			}
			return V{o: ag}
		case tPanic:
			v := b.cond.get(ex, fr)
			panic(&goPanic{v: v, msg: "panic: " + show(v), pos: fr.fn.name})
		default:
			ex.unsupported("fell off a block")
		}
		switch len(e.moves) {
		case 0:
		case 1:
			fr.r[e.moves[0].dst] = e.moves[0].src.get(ex, fr)
		default:
			var tmp [8]V
			t := tmp[:0]
			for i := range e.moves {
				t = append(t, e.moves[i].src.get(ex, fr))
			}
			for i := range e.moves {
				fr.r[e.moves[i].dst] = t[i]
			}
		}
		b = e.to
	}
}

func (ex *Exec) runDefer(fr *Frame) (res V) {
	depth, sp, na := ex.depth, ex.sp, len(ex.args)
	func() {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(*goPanic)
				if !ok {
					panic(r)
				}
				ex.depth, ex.sp, ex.args = depth, sp, ex.args[:na]
				fr.panicVal, fr.recov = gp, false
			}
		}()
		res = ex.run(fr, fr.fn.blocks[0])
	}()
	if fr.panicVal != nil {
		ex.runDefers(fr)
		if !fr.recov {
			panic(fr.panicVal)
		}
		fr.panicVal = nil
		if fr.fn.recover != nil {
			return ex.run(fr, fr.fn.recover)
		}
		return zero(fr.fn.retType)
	}
	return res
}

func (ex *Exec) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if d.fn == nil {
			continue
		}
		ex.callClosure(d.fn, d.args, fr)
	}
}

// pureCall summarises a one-argument pure function over the finite domain of
// the variable its argument depends on.
func (ex *Exec) pureCall(fn *Fn, e *Expr) (V, bool) {
	if e.op != OTab {
		return V{}, false
	}
	k := pureKey{fn, e}
	if r, ok := ex.pureMemo[k]; ok {
		return r, true
	}
	w, signed := intInfo(fn.ssa.Signature.Results().At(0).Type())
	memo := map[uint64]uint64{}
	res := tabE(e.v, w, signed, func(i int) uint64 {
		x := e.at(i)
		if y, ok := memo[x]; ok {
			return y
		}
		v := ex.call(fn, []V{{n: x}}, nil, nil)
		if v.o != nil {
			ex.unsupported("pure summary")
		}
		memo[x] = v.n
		return v.n
	})
	var r V
	if w == 1 {
		r = foldTab(res)
	} else {
		r = V{o: res}
	}
	ex.pureMemo[k] = r
	return r, true
}

// ---- globals ----

func (ex *Exec) global(i int) *V {
	for len(ex.globals) <= i {
		ex.globals = append(ex.globals, nil)
	}
	if g := ex.globals[i]; g != nil {
		return g
	}
	sg := ex.eng.globalAt(i)
	v := zero(deref(sg.Type()))
	g := &v
	ex.globals[i] = g
	if sg.Pkg.Pkg.Path() != ex.eng.targetPath {
		ex.initPackage(sg.Pkg)
	}
	return g
}

func (ex *Exec) initPackage(p *ssa.Package) {
	if ex.inited[p] {
		return
	}
	ex.inited[p] = true
	if !interpretable[p.Pkg.Path()] && p.Pkg.Path() != ex.eng.targetPath {
		ex.unsupported("global of package " + p.Pkg.Path())
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	old := ex.initPkg
	ex.initPkg = p
	ex.call(ex.eng.fn(f), nil, nil, nil)
	ex.initPkg = old
}

// resetTarget re-initialises the globals of the package under test.
func (ex *Exec) resetTarget() {
	for i, g := range ex.globals {
		if g != nil && ex.eng.globalAt(i).Pkg.Pkg.Path() == ex.eng.targetPath {
			ex.globals[i] = nil
		}
	}
	p := ex.eng.target
	ex.inited[p] = false
	ex.initPackage(p)
}

var _ = token.NoPos
