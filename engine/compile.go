package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type ins func(ex *Exec, fr *Frame)

type move struct {
	dst int
	src opd
}

type edge struct {
	to    *Block
	moves []move
}

const (
	tJump = iota
	tIf
	tRet
	tPanic
	tUnreach
)

type Block struct {
	cov  int // coverage index, -1 outside the target package
	ins  []ins
	term int
	cond opd
	e    [2]edge
	rets []opd
	pos  token.Pos

	// a successor that only computes another condition and shares a target
	// with this block; a symbolic condition is merged with it (c || d, c && d)
	chain   *Block
	chainOr bool
}

// Fn is a compiled function.
type Fn struct {
	name     string
	ssa      *ssa.Function
	nparams  int
	nregs    int
	blocks   []*Block
	recover  *Block
	hasDefer bool
	target   bool
	nres     int
	pure     bool // one scalar parameter, one scalar result, no effects
	retType  types.Type
	intr     func(ex *Exec, args []V) V
	pkg      *ssa.Package
	isInit   bool
}

type fnSlot struct {
	once sync.Once
	fn   *Fn
}

// opd is an operand: a register, a constant or a global.
type opd struct {
	reg int // >= 0 register, -1 constant, -2 global
	c   V
	g   int
}

func (o *opd) get(ex *Exec, fr *Frame) V {
	if o.reg >= 0 {
		return fr.r[o.reg]
	}
	if o.reg == -1 {
		return o.c
	}
	return V{o: ex.global(o.g)}
}

type Frame struct {
	r        []V
	fn       *Fn
	defers   []deferred
	panicVal *goPanic
	recov    bool
	result   V
	caller   *Frame
}

type deferred struct {
	fn   *Closure
	args []V
	bi   string
}

// fn returns the compiled form of f.
func (e *Engine) fn(f *ssa.Function) *Fn {
	sl, ok := e.fns.Load(f)
	if !ok {
		sl, _ = e.fns.LoadOrStore(f, &fnSlot{})
	}
	s := sl.(*fnSlot)
	s.once.Do(func() { s.fn = e.compile(f) })
	return s.fn
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil && o != f {
		return o.String()
	}
	return f.String()
}

func (e *Engine) compile(f *ssa.Function) *Fn {
	fn := &Fn{name: fnName(f), ssa: f, nparams: len(f.Params), retType: f.Signature.Results(), nres: f.Signature.Results().Len()}
	fn.pkg = f.Pkg
	if fn.pkg == nil && f.Origin() != nil {
		fn.pkg = f.Origin().Pkg
	}
	fn.target = fn.pkg != nil && fn.pkg.Pkg.Path() == e.targetPath
	if in, ok := intrinsics[fn.name]; ok {
		fn.intr = in
		return fn
	}
	if fn.target && strings.HasPrefix(f.Name(), "verif") && f.Parent() == nil {
		if in, ok := verifIntr[f.Name()]; ok {
			fn.intr = in
			return fn
		}
	}
	if f.Synthetic == "package initializer" {
		if !fn.target && !interpretable[fn.pkg.Pkg.Path()] {
			fn.intr = func(ex *Exec, args []V) V { return V{} }
			return fn
		}
		fn.isInit = true
	}
	if f.Blocks == nil {
		nm := fn.name
		fn.intr = func(ex *Exec, args []V) V { ex.unsupported("no body: " + nm); return V{} }
		return fn
	}
	if !fn.target && fn.pkg != nil && !interpretable[fn.pkg.Pkg.Path()] && f.Synthetic == "" {
		nm := fn.name
		fn.intr = func(ex *Exec, args []V) V { ex.unsupported("no model for " + nm); return V{} }
		return fn
	}
	c := &compiler{e: e, fn: fn, f: f, regs: map[ssa.Value]int{}}
	c.run()
	return fn
}

type compiler struct {
	e      *Engine
	fn     *Fn
	f      *ssa.Function
	regs   map[ssa.Value]int
	blocks map[*ssa.BasicBlock]*Block
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := len(c.regs)
	c.regs[v] = r
	return r
}

func (c *compiler) run() {
	f := c.f
	for _, p := range f.Params {
		c.reg(p)
	}
	for _, p := range f.FreeVars {
		c.reg(p)
	}
	c.blocks = map[*ssa.BasicBlock]*Block{}
	for _, b := range f.Blocks {
		nb := &Block{cov: -1}
		if c.fn.target {
			nb.cov = c.e.covIndex(f, b)
		}
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() {
				nb.pos = p
				break
			}
		}
		c.blocks[b] = nb
		c.fn.blocks = append(c.fn.blocks, nb)
	}
	if f.Recover != nil {
		c.fn.recover = c.blocks[f.Recover]
		if c.fn.recover == nil {
			nb := &Block{cov: -1}
			c.blocks[f.Recover] = nb
			c.fn.recover = nb
			c.block(f.Recover, nb)
		}
	}
	for _, b := range f.Blocks {
		c.block(b, c.blocks[b])
	}
	c.findChains()
	c.fn.nregs = len(c.regs)
	c.fn.pure = c.isPure()
}

func pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.BinOp:
		if !isScalar(x.X.Type()) && !isString(x.X.Type()) {
			return false
		}
		switch x.Op {
		case token.QUO, token.REM, token.SHL, token.SHR:
			return false
		}
		return true
	case *ssa.UnOp:
		return x.Op == token.NOT || x.Op == token.SUB || x.Op == token.XOR
	case *ssa.Convert:
		return isScalar(x.X.Type()) && isScalar(x.Type())
	case *ssa.ChangeType, *ssa.DebugRef:
		return true
	}
	return false
}

func (c *compiler) findChains() {
	for _, b := range c.f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok || b.Succs[0] == b.Succs[1] {
			continue
		}
		for k := 0; k < 2; k++ {
			// k == 0: the else successor continues an "or"; 1: the then successor an "and"
			n, t := b.Succs[1-k], b.Succs[k]
			if len(n.Preds) != 1 {
				continue
			}
			if _, ok := n.Instrs[len(n.Instrs)-1].(*ssa.If); !ok || n.Succs[k] != t || n.Succs[1-k] == t {
				continue
			}
			ok := true
			for _, in := range n.Instrs[:len(n.Instrs)-1] {
				if !pureInstr(in) {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			// the shared target must receive the same values either way
			pb, pn := -1, -1
			for i, p := range t.Preds {
				if p == b {
					pb = i
				}
				if p == n {
					pn = i
				}
			}
			for _, in := range t.Instrs {
				p, isPhi := in.(*ssa.Phi)
				if !isPhi {
					break
				}
				x, y := p.Edges[pb], p.Edges[pn]
				if x != y {
					cx, ok1 := x.(*ssa.Const)
					cy, ok2 := y.(*ssa.Const)
					if !ok1 || !ok2 || cx.Value == nil || cy.Value == nil || cx.Value.ExactString() != cy.Value.ExactString() {
						ok = false
						break
					}
				}
			}
			if ok {
				c.blocks[b].chain = c.blocks[n]
				c.blocks[b].chainOr = k == 0
				break
			}
		}
	}
}

// isPure recognises functions of one scalar argument without effects; they
// are summarised by tabulating them over the argument's finite domain.
func (c *compiler) isPure() bool {
	sig := c.f.Signature
	if sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 || len(c.f.FreeVars) > 0 {
		return false
	}
	if !isScalar(sig.Params().At(0).Type()) || !isScalar(sig.Results().At(0).Type()) {
		return false
	}
	for _, b := range c.f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.If, *ssa.Jump, *ssa.Phi, *ssa.Return, *ssa.DebugRef, *ssa.ChangeType:
			case *ssa.UnOp:
				if x.Op == token.MUL || x.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				cal := x.Call.StaticCallee()
				if cal == nil || cal == c.f {
					return false
				}
				s := cal.Signature
				if s.Recv() != nil || s.Params().Len() != 1 || !isScalar(s.Params().At(0).Type()) {
					return false
				}
				cf := c.e.fn(cal)
				if !cf.pure && !pureIntr[cf.name] {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func isScalar(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

func (c *compiler) op(v ssa.Value) opd {
	switch v := v.(type) {
	case *ssa.Const:
		return opd{reg: -1, c: constV(v)}
	case *ssa.Global:
		return opd{reg: -2, g: c.e.globalIndex(v)}
	case *ssa.Function:
		return opd{reg: -1, c: V{o: &Closure{sf: v}}}
	case *ssa.Builtin:
		return opd{reg: -1}
	}
	return opd{reg: c.reg(v)}
}

func (c *compiler) ops(vs []ssa.Value) []opd {
	out := make([]opd, len(vs))
	for i, v := range vs {
		out[i] = c.op(v)
	}
	return out
}

func constV(v *ssa.Const) V {
	if v.Value == nil {
		return zero(v.Type())
	}
	b, ok := v.Type().Underlying().(*types.Basic)
	if !ok {
		return zero(v.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return V{n: b2u(constant.BoolVal(v.Value))}
	case b.Info()&types.IsString != 0:
		return cstr(constant.StringVal(v.Value))
	case b.Info()&types.IsInteger != 0:
		x := constant.ToInt(v.Value)
		if n, ok := constant.Int64Val(x); ok {
			return V{n: uint64(n)}
		}
		n, _ := constant.Uint64Val(x)
		return V{n: n}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(v.Value)
		return V{n: math.Float64bits(f)}
	}
	return V{}
}

// intInfo gives width and signedness of an integer or bool type.
func intInfo(t types.Type) (w uint8, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return 64, false
}

func (c *compiler) block(b *ssa.BasicBlock, nb *Block) {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			if p, ok := x.(*ssa.Phi); ok {
				c.reg(p)
			}
		case *ssa.Jump:
			nb.term = tJump
			nb.e[0] = c.edge(b, b.Succs[0])
		case *ssa.If:
			nb.term = tIf
			nb.cond = c.op(x.Cond)
			nb.e[0] = c.edge(b, b.Succs[0])
			nb.e[1] = c.edge(b, b.Succs[1])
		case *ssa.Return:
			nb.term = tRet
			nb.rets = c.ops(x.Results)
		case *ssa.Panic:
			nb.term = tPanic
			nb.cond = c.op(x.X)
		default:
			nb.ins = append(nb.ins, c.instr(in))
		}
	}
}

func (c *compiler) edge(from, to *ssa.BasicBlock) edge {
	e := edge{to: c.blocks[to]}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.moves = append(e.moves, move{dst: c.reg(p), src: c.op(p.Edges[pi])})
	}
	return e
}

func onlyLoaded(x ssa.Value) bool {
	if x.Referrers() == nil {
		return false
	}
	for _, r := range *x.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			return false
		}
	}
	return true
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (c *compiler) instr(in ssa.Instruction) ins {
	switch x := in.(type) {
	case *ssa.Alloc:
		d := c.reg(x)
		t := deref(x.Type())
		if !isAgg(t) {
			return func(ex *Exec, fr *Frame) { fr.r[d] = V{o: &V{}} }
		}
		z := zero(t)
		return func(ex *Exec, fr *Frame) { cell := copyVal(z); fr.r[d] = V{o: &cell} }
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		return func(ex *Exec, fr *Frame) {
			storeInto(ex.ptr(a.get(ex, fr)), v.get(ex, fr))
		}
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.FieldAddr:
		d, a, i := c.reg(x), c.op(x.X), x.Field
		return func(ex *Exec, fr *Frame) {
			p := ex.ptr(a.get(ex, fr))
			fr.r[d] = V{o: &p.o.(*Agg).f[i]}
		}
	case *ssa.Field:
		d, a, i := c.reg(x), c.op(x.X), x.Field
		return func(ex *Exec, fr *Frame) {
			fr.r[d] = a.get(ex, fr).o.(*Agg).f[i]
		}
	case *ssa.IndexAddr:
		d, a, i := c.reg(x), c.op(x.X), c.op(x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			return func(ex *Exec, fr *Frame) {
				sl, _ := a.get(ex, fr).o.(*Slice)
				iv := i.get(ex, fr)
				if sl == nil {
					ex.rtPanic("index out of range")
				}
				k := ex.index(iv, len(sl.a))
				fr.r[d] = V{o: &sl.a[k]}
			}
		}
		loadOnly := onlyLoaded(x)
		return func(ex *Exec, fr *Frame) {
			p := ex.ptr(a.get(ex, fr))
			ag := p.o.(*Agg)
			iv := i.get(ex, fr)
			if e, ok := iv.o.(*Expr); ok && e.op == OTab && loadOnly {
				// constant tables read through a symbolic index
				if v, ok := ex.tableRead(ag.f, e, deref(x.Type())); ok {
					fr.r[d] = V{o: &v}
					return
				}
			}
			k := ex.index(iv, len(ag.f))
			fr.r[d] = V{o: &ag.f[k]}
		}
	case *ssa.Index:
		d, a, i := c.reg(x), c.op(x.X), c.op(x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			return func(ex *Exec, fr *Frame) {
				fr.r[d] = ex.strIndex(a.get(ex, fr), i.get(ex, fr))
			}
		}
		et := x.Type()
		return func(ex *Exec, fr *Frame) {
			ag := a.get(ex, fr).o.(*Agg)
			iv := i.get(ex, fr)
			if e, ok := iv.o.(*Expr); ok && e.op == OTab {
				if v, ok := ex.tableRead(ag.f, e, et); ok {
					fr.r[d] = v
					return
				}
			}
			fr.r[d] = ag.f[ex.index(iv, len(ag.f))]
		}
	case *ssa.Lookup:
		d, a, i := c.reg(x), c.op(x.X), c.op(x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			return func(ex *Exec, fr *Frame) {
				fr.r[d] = ex.strIndex(a.get(ex, fr), i.get(ex, fr))
			}
		}
		mt := x.X.Type().Underlying().(*types.Map)
		z := zero(mt.Elem())
		comma := x.CommaOk
		return func(ex *Exec, fr *Frame) {
			m, _ := a.get(ex, fr).o.(*Map)
			v, ok := ex.mapLookup(m, i.get(ex, fr), z)
			if comma {
				fr.r[d] = V{o: &Agg{f: []V{v, ok}}}
				return
			}
			fr.r[d] = v
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(ex *Exec, fr *Frame) {
			mm, _ := m.get(ex, fr).o.(*Map)
			if mm == nil {
				ex.rtPanic("assignment to entry in nil map")
			}
			ex.mapSet(mm, k.get(ex, fr), copyVal(v.get(ex, fr)))
		}
	case *ssa.MakeMap:
		d := c.reg(x)
		return func(ex *Exec, fr *Frame) { fr.r[d] = V{o: newMap()} }
	case *ssa.MakeSlice:
		d, l, cp := c.reg(x), c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		agg := isAgg(et)
		return func(ex *Exec, fr *Frame) {
			n, m := ex.concInt(l.get(ex, fr)), ex.concInt(cp.get(ex, fr))
			if n < 0 || m < n || m > 1<<24 {
				ex.rtPanic("makeslice: len out of range")
			}
			a := make([]V, m)
			if agg {
				for i := range a {
					a[i] = zero(et)
				}
			}
			fr.r[d] = V{o: &Slice{a: a[:n]}}
		}
	case *ssa.MakeInterface:
		d, a := c.reg(x), c.op(x.X)
		rt := rtypeOf(x.X.Type())
		return func(ex *Exec, fr *Frame) {
			fr.r[d] = V{o: &Iface{t: rt, v: a.get(ex, fr)}}
		}
	case *ssa.ChangeInterface:
		d, a := c.reg(x), c.op(x.X)
		return func(ex *Exec, fr *Frame) { fr.r[d] = a.get(ex, fr) }
	case *ssa.ChangeType:
		d, a := c.reg(x), c.op(x.X)
		return func(ex *Exec, fr *Frame) { fr.r[d] = a.get(ex, fr) }
	case *ssa.Convert:
		return c.convert(c.reg(x), c.op(x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return c.convert(c.reg(x), c.op(x.X), x.X.Type(), x.Type())
	case *ssa.MakeClosure:
		d := c.reg(x)
		f := x.Fn.(*ssa.Function)
		bs := c.ops(x.Bindings)
		return func(ex *Exec, fr *Frame) {
			env := make([]V, len(bs))
			for i := range bs {
				env[i] = bs[i].get(ex, fr)
			}
			fr.r[d] = V{o: &Closure{sf: f, env: env}}
		}
	case *ssa.Extract:
		d, a, i := c.reg(x), c.op(x.Tuple), x.Index
		return func(ex *Exec, fr *Frame) { fr.r[d] = a.get(ex, fr).o.(*Agg).f[i] }
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.Range:
		d, a := c.reg(x), c.op(x.X)
		return func(ex *Exec, fr *Frame) { fr.r[d] = V{o: ex.rangeIter(a.get(ex, fr))} }
	case *ssa.Next:
		d, a := c.reg(x), c.op(x.Iter)
		return func(ex *Exec, fr *Frame) { fr.r[d] = ex.rangeNext(a.get(ex, fr).o.(*iterator)) }
	case *ssa.Call:
		return c.call(x)
	case *ssa.Defer:
		c.fn.hasDefer = true
		fnv, args, bi := c.callee(&x.Call)
		return func(ex *Exec, fr *Frame) {
			cl, as := fnv(ex, fr), make([]V, 0, len(args)+1)
			if cl != nil && cl.recv != nil {
				as = append(as, *cl.recv)
			}
			for i := range args {
				as = append(as, args[i].get(ex, fr))
			}
			fr.defers = append(fr.defers, deferred{fn: cl, args: as, bi: bi})
		}
	case *ssa.RunDefers:
		return func(ex *Exec, fr *Frame) { ex.runDefers(fr) }
	case *ssa.SliceToArrayPointer:
		d, a := c.reg(x), c.op(x.X)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		return func(ex *Exec, fr *Frame) {
			sl, _ := a.get(ex, fr).o.(*Slice)
			if sl == nil || len(sl.a) < n {
				ex.rtPanic("slice to array pointer")
			}
			fr.r[d] = V{o: &V{o: &Agg{f: sl.a[:n:n]}}}
		}
	}
	msg := fmt.Sprintf("instruction %T in %s", in, c.fn.name)
	if v, ok := in.(ssa.Value); ok {
		c.reg(v)
	}
	return func(ex *Exec, fr *Frame) { ex.unsupported(msg) }
}

func (c *compiler) unop(x *ssa.UnOp) ins {
	d, a := c.reg(x), c.op(x.X)
	w, signed := intInfo(x.Type())
	switch x.Op {
	case token.MUL:
		if isAgg(x.Type()) {
			return func(ex *Exec, fr *Frame) { fr.r[d] = copyVal(*ex.ptr(a.get(ex, fr))) }
		}
		return func(ex *Exec, fr *Frame) { fr.r[d] = *ex.ptr(a.get(ex, fr)) }
	case token.NOT:
		return func(ex *Exec, fr *Frame) {
			v := a.get(ex, fr)
			if v.o == nil {
				fr.r[d] = V{n: v.n ^ 1}
				return
			}
			fr.r[d] = fromE(mkNot(v.o.(*Expr)))
		}
	case token.SUB:
		if isFloat(x.Type()) {
			return func(ex *Exec, fr *Frame) {
				fr.r[d] = V{n: math.Float64bits(-math.Float64frombits(a.get(ex, fr).n))}
			}
		}
		return func(ex *Exec, fr *Frame) {
			v := a.get(ex, fr)
			if v.o == nil {
				fr.r[d] = V{n: normN(-v.n, w, signed)}
				return
			}
			fr.r[d] = fromE(mkBin(OSub, w, signed, constE(0, w, signed), v.o.(*Expr)))
		}
	case token.XOR:
		return func(ex *Exec, fr *Frame) {
			v := a.get(ex, fr)
			if v.o == nil {
				fr.r[d] = V{n: normN(^v.n, w, signed)}
				return
			}
			fr.r[d] = fromE(mkBin(OXor, w, signed, constE(normN(^uint64(0), w, signed), w, signed), v.o.(*Expr)))
		}
	}
	msg := "unop " + x.Op.String()
	return func(ex *Exec, fr *Frame) { ex.unsupported(msg) }
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func fromE(e *Expr) V {
	if e.op == OConst {
		return V{n: e.c}
	}
	return V{o: e}
}

func toE(v V, w uint8, signed bool) *Expr {
	if e, ok := v.o.(*Expr); ok {
		return e
	}
	return constE(v.n, w, signed)
}

func (c *compiler) binop(x *ssa.BinOp) ins {
	d, a, b := c.reg(x), c.op(x.X), c.op(x.Y)
	t := x.X.Type()
	if isString(t) {
		switch x.Op {
		case token.ADD:
			return func(ex *Exec, fr *Frame) { fr.r[d] = concat(a.get(ex, fr), b.get(ex, fr)) }
		case token.EQL:
			return func(ex *Exec, fr *Frame) { fr.r[d] = strEq(a.get(ex, fr), b.get(ex, fr)) }
		case token.NEQ:
			return func(ex *Exec, fr *Frame) { fr.r[d] = notV(strEq(a.get(ex, fr), b.get(ex, fr))) }
		case token.LSS:
			return func(ex *Exec, fr *Frame) { fr.r[d] = ex.strLess(a.get(ex, fr), b.get(ex, fr)) }
		case token.GTR:
			return func(ex *Exec, fr *Frame) { fr.r[d] = ex.strLess(b.get(ex, fr), a.get(ex, fr)) }
		case token.LEQ:
			return func(ex *Exec, fr *Frame) { fr.r[d] = notV(ex.strLess(b.get(ex, fr), a.get(ex, fr))) }
		case token.GEQ:
			return func(ex *Exec, fr *Frame) { fr.r[d] = notV(ex.strLess(a.get(ex, fr), b.get(ex, fr))) }
		}
	}
	if isFloat(t) {
		return c.floatop(x, d, a, b)
	}
	if !isScalar(t) {
		// comparison of pointers, interfaces, structs, ...
		neg := x.Op == token.NEQ
		return func(ex *Exec, fr *Frame) {
			r := ex.equal(a.get(ex, fr), b.get(ex, fr))
			if neg {
				r = notV(r)
			}
			fr.r[d] = r
		}
	}
	w, signed := intInfo(t)
	rw, rs := intInfo(x.Type())
	var op Op
	neg, swap, check0 := false, false, false
	switch x.Op {
	case token.ADD:
		op = OAdd
	case token.SUB:
		op = OSub
	case token.MUL:
		op = OMul
	case token.AND:
		op = OAndB
	case token.OR:
		op = OOrB
	case token.XOR:
		op = OXor
	case token.AND_NOT:
		op = OAndNot
	case token.SHL:
		op = OShl
	case token.SHR:
		op = OLshr
		if signed {
			op = OAshr
		}
	case token.QUO:
		op = OUdiv
		if signed {
			op = OSdiv
		}
		check0 = true
	case token.REM:
		op = OUrem
		if signed {
			op = OSrem
		}
		check0 = true
	case token.EQL:
		op = OEq
	case token.NEQ:
		op, neg = OEq, true
	case token.LSS:
		op = OUlt
		if signed {
			op = OSlt
		}
	case token.GTR:
		op, swap = OUlt, true
		if signed {
			op = OSlt
		}
	case token.LEQ:
		op, swap, neg = OUlt, true, true
		if signed {
			op = OSlt
		}
	case token.GEQ:
		op, neg = OUlt, true
		if signed {
			op = OSlt
		}
	default:
		msg := "binop " + x.Op.String()
		return func(ex *Exec, fr *Frame) { ex.unsupported(msg) }
	}
	if swap {
		a, b = b, a
	}
	yw, ysigned := intInfo(x.Y.Type())
	if swap {
		yw, ysigned = intInfo(x.X.Type())
	}
	fast := func(p, q uint64) uint64 { return evalOp(op, rw, rs, p, q, w) }
	switch x.Op {
	case token.EQL:
		fast = func(p, q uint64) uint64 { return b2u(p == q) }
	case token.NEQ:
		fast = func(p, q uint64) uint64 { return b2u(p != q) }
	case token.ADD:
		if w == 64 {
			fast = func(p, q uint64) uint64 { return p + q }
		}
	case token.SUB:
		if w == 64 {
			fast = func(p, q uint64) uint64 { return p - q }
		}
	}
	negConc := neg && x.Op != token.NEQ
	return func(ex *Exec, fr *Frame) {
		p, q := a.get(ex, fr), b.get(ex, fr)
		if p.o == nil && q.o == nil {
			if check0 && q.n == 0 {
				ex.rtPanic("integer divide by zero")
			}
			r := fast(p.n, q.n)
			if negConc {
				r ^= 1
			}
			fr.r[d] = V{n: r}
			return
		}
		pe, qe := toE(p, w, signed), toE(q, yw, ysigned)
		if check0 {
			if ex.decide(mkBin(OEq, 1, false, qe, constE(0, yw, ysigned))) {
				ex.rtPanic("integer divide by zero")
			}
		}
		r := mkBin(op, rw, rs, pe, qe)
		if neg {
			r = mkNot(r)
		}
		fr.r[d] = fromE(r)
	}
}

func (c *compiler) floatop(x *ssa.BinOp, d int, a, b opd) ins {
	op := x.Op
	return func(ex *Exec, fr *Frame) {
		p, q := a.get(ex, fr), b.get(ex, fr)
		if p.o != nil || q.o != nil {
			ex.unsupported("symbolic float")
		}
		f, g := math.Float64frombits(p.n), math.Float64frombits(q.n)
		var r float64
		switch op {
		case token.ADD:
			r = f + g
		case token.SUB:
			r = f - g
		case token.MUL:
			r = f * g
		case token.QUO:
			r = f / g
		case token.EQL:
			fr.r[d] = V{n: b2u(f == g)}
			return
		case token.NEQ:
			fr.r[d] = V{n: b2u(f != g)}
			return
		case token.LSS:
			fr.r[d] = V{n: b2u(f < g)}
			return
		case token.LEQ:
			fr.r[d] = V{n: b2u(f <= g)}
			return
		case token.GTR:
			fr.r[d] = V{n: b2u(f > g)}
			return
		case token.GEQ:
			fr.r[d] = V{n: b2u(f >= g)}
			return
		}
		fr.r[d] = V{n: math.Float64bits(r)}
	}
}

func notV(v V) V {
	if v.o == nil {
		return V{n: v.n ^ 1}
	}
	return fromE(mkNot(v.o.(*Expr)))
}

func (c *compiler) convert(d int, a opd, from, to types.Type) ins {
	fu, tu := from.Underlying(), to.Underlying()
	switch {
	case isScalar(from) && isScalar(to):
		w, signed := intInfo(to)
		fw, fs := intInfo(from)
		return func(ex *Exec, fr *Frame) {
			v := a.get(ex, fr)
			if v.o == nil {
				fr.r[d] = V{n: normN(v.n, w, signed)}
				return
			}
			_ = fw
			_ = fs
			fr.r[d] = fromE(mkConv(v.o.(*Expr), w, signed))
		}
	case isString(from) && isString(to):
		return func(ex *Exec, fr *Frame) { fr.r[d] = a.get(ex, fr) }
	case isScalar(from) && isString(to):
		return func(ex *Exec, fr *Frame) {
			v := a.get(ex, fr)
			if v.o != nil {
				e := v.o.(*Expr)
				ascii := mkBin(OUlt, 1, false, mkConv(e, 64, false), constE(0x80, 64, false))
				if ex.decide(ascii) {
					fr.r[d] = mkStr([]V{fromE(mkConv(e, 8, false))})
					return
				}
				fr.r[d] = cstr(string(rune(ex.concInt(v))))
				return
			}
			fr.r[d] = cstr(string(rune(int64(v.n))))
		}
	case isString(from):
		sl, ok := tu.(*types.Slice)
		if ok {
			w, _ := intInfo(sl.Elem())
			if w == 8 {
				return func(ex *Exec, fr *Frame) {
					s := strOf(a.get(ex, fr))
					fr.r[d] = V{o: &Slice{a: appendBytes(nil, s)}}
				}
			}
			return func(ex *Exec, fr *Frame) {
				rs := []rune(ex.concStr(a.get(ex, fr)))
				out := make([]V, len(rs))
				for i, r := range rs {
					out[i] = V{n: uint64(int64(r))}
				}
				fr.r[d] = V{o: &Slice{a: out}}
			}
		}
	case isString(to):
		if sl, ok := fu.(*types.Slice); ok {
			w, _ := intInfo(sl.Elem())
			if w == 8 {
				return func(ex *Exec, fr *Frame) {
					s, _ := a.get(ex, fr).o.(*Slice)
					if s == nil {
						fr.r[d] = V{}
						return
					}
					fr.r[d] = mkStr(append([]V(nil), s.a...))
				}
			}
			return func(ex *Exec, fr *Frame) {
				s, _ := a.get(ex, fr).o.(*Slice)
				var sb strings.Builder
				if s != nil {
					for _, v := range s.a {
						sb.WriteRune(rune(ex.concInt(v)))
					}
				}
				fr.r[d] = cstr(sb.String())
			}
		}
	case isScalar(from) && isFloat(to):
		_, fs := intInfo(from)
		return func(ex *Exec, fr *Frame) {
			n := ex.concInt(a.get(ex, fr))
			if fs {
				fr.r[d] = V{n: math.Float64bits(float64(n))}
			} else {
				fr.r[d] = V{n: math.Float64bits(float64(uint64(n)))}
			}
		}
	case isFloat(from) && isScalar(to):
		w, signed := intInfo(to)
		return func(ex *Exec, fr *Frame) {
			fr.r[d] = V{n: normN(uint64(int64(math.Float64frombits(a.get(ex, fr).n))), w, signed)}
		}
	case isFloat(from) && isFloat(to):
		return func(ex *Exec, fr *Frame) { fr.r[d] = a.get(ex, fr) }
	}
	msg := fmt.Sprintf("convert %s to %s", from, to)
	return func(ex *Exec, fr *Frame) { ex.unsupported(msg) }
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) ins {
	d, a := c.reg(x), c.op(x.X)
	t := x.AssertedType
	comma := x.CommaOk
	z := zero(t)
	if it, ok := t.Underlying().(*types.Interface); ok {
		e := c.e
		return func(ex *Exec, fr *Frame) {
			v := a.get(ex, fr)
			ifc, _ := v.o.(*Iface)
			ok := ifc != nil && e.implements(ifc.t, it)
			if comma {
				if !ok {
					v = V{}
				}
				fr.r[d] = V{o: &Agg{f: []V{v, {n: b2u(ok)}}}}
				return
			}
			if !ok {
				ex.rtPanic("interface conversion")
			}
			fr.r[d] = v
		}
	}
	rt := rtypeOf(t)
	return func(ex *Exec, fr *Frame) {
		v := a.get(ex, fr)
		ifc, _ := v.o.(*Iface)
		ok := ifc != nil && ifc.t == rt
		r := z
		if ok {
			r = ifc.v
		}
		if comma {
			fr.r[d] = V{o: &Agg{f: []V{r, {n: b2u(ok)}}}}
			return
		}
		if !ok {
			ex.rtPanic("interface conversion")
		}
		fr.r[d] = r
	}
}

func (c *compiler) slice(x *ssa.Slice) ins {
	d, a := c.reg(x), c.op(x.X)
	var lo, hi, mx opd
	hasLo, hasHi, hasMx := x.Low != nil, x.High != nil, x.Max != nil
	if hasLo {
		lo = c.op(x.Low)
	}
	if hasHi {
		hi = c.op(x.High)
	}
	if hasMx {
		mx = c.op(x.Max)
	}
	str := isString(x.X.Type())
	_, ptr := x.X.Type().Underlying().(*types.Pointer)
	return func(ex *Exec, fr *Frame) {
		v := a.get(ex, fr)
		i := 0
		if hasLo {
			i = ex.concInt(lo.get(ex, fr))
		}
		if str {
			n := strLen(v)
			j := n
			if hasHi {
				j = ex.concInt(hi.get(ex, fr))
			}
			if i < 0 || j > n || i > j {
				ex.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", i, j, n))
			}
			fr.r[d] = ex.subStr(v, i, j)
			return
		}
		var arr []V
		isNil := false
		if ptr {
			arr = ex.ptr(v).o.(*Agg).f
		} else if s, _ := v.o.(*Slice); s != nil {
			arr = s.a
		} else {
			isNil = true
		}
		j, m := len(arr), cap(arr)
		if hasHi {
			j = ex.concInt(hi.get(ex, fr))
		}
		if hasMx {
			m = ex.concInt(mx.get(ex, fr))
		}
		if i < 0 || i > j || j > m || m > cap(arr) {
			ex.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", i, j, m, cap(arr)))
		}
		if isNil {
			fr.r[d] = V{}
			return
		}
		fr.r[d] = V{o: &Slice{a: arr[i:j:m]}}
	}
}

// callee returns a function yielding the closure to call (with recv set for
// interface calls) and the remaining operands.
func (c *compiler) callee(call *ssa.CallCommon) (func(ex *Exec, fr *Frame) *Closure, []opd, string) {
	args := c.ops(call.Args)
	if call.IsInvoke() {
		a := c.op(call.Value)
		m := call.Method
		e := c.e
		return func(ex *Exec, fr *Frame) *Closure {
			ifc, _ := a.get(ex, fr).o.(*Iface)
			if ifc == nil {
				ex.rtPanic("invalid memory address or nil pointer dereference")
			}
			f := e.method(ifc.t, m)
			rv := ifc.v
			return &Closure{fn: f, recv: &rv}
		}, args, ""
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return func(ex *Exec, fr *Frame) *Closure { return nil }, args, b.Name()
	}
	if f := call.StaticCallee(); f != nil {
		if mc, ok := call.Value.(*ssa.MakeClosure); ok {
			a := c.op(mc)
			return func(ex *Exec, fr *Frame) *Closure { return a.get(ex, fr).o.(*Closure) }, args, ""
		}
		e := c.e
		return func(ex *Exec, fr *Frame) *Closure { return &Closure{fn: e.fn(f)} }, args, ""
	}
	a := c.op(call.Value)
	return func(ex *Exec, fr *Frame) *Closure {
		cl, _ := a.get(ex, fr).o.(*Closure)
		if cl == nil {
			ex.rtPanic("invalid memory address or nil pointer dereference")
		}
		return cl
	}, args, ""
}

func (c *compiler) call(x *ssa.Call) ins {
	d := c.reg(x)
	call := &x.Call
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return c.builtin(d, b.Name(), call)
	}
	if call.IsInvoke() {
		a := c.op(call.Value)
		args := c.ops(call.Args)
		m := call.Method
		e := c.e
		return func(ex *Exec, fr *Frame) {
			ifc, _ := a.get(ex, fr).o.(*Iface)
			if ifc == nil {
				ex.rtPanic("invalid memory address or nil pointer dereference")
			}
			f := e.method(ifc.t, m)
			base := len(ex.args)
			ex.args = append(ex.args, ifc.v)
			for i := range args {
				ex.args = append(ex.args, args[i].get(ex, fr))
			}
			fr.r[d] = ex.call(f, ex.args[base:], nil, fr)
			ex.args = ex.args[:base]
		}
	}
	args := c.ops(call.Args)
	if f, ok := call.Value.(*ssa.Function); ok {
		var fn *Fn
		e := c.e
		var once sync.Once
		return func(ex *Exec, fr *Frame) {
			once.Do(func() { fn = e.fn(f) })
			base := len(ex.args)
			for i := range args {
				ex.args = append(ex.args, args[i].get(ex, fr))
			}
			fr.r[d] = ex.call(fn, ex.args[base:], nil, fr)
			ex.args = ex.args[:base]
		}
	}
	a := c.op(call.Value)
	return func(ex *Exec, fr *Frame) {
		cl, _ := a.get(ex, fr).o.(*Closure)
		if cl == nil {
			ex.rtPanic("invalid memory address or nil pointer dereference")
		}
		base := len(ex.args)
		for i := range args {
			ex.args = append(ex.args, args[i].get(ex, fr))
		}
		fr.r[d] = ex.callClosure(cl, ex.args[base:], fr)
		ex.args = ex.args[:base]
	}
}

func (c *compiler) builtin(d int, name string, call *ssa.CallCommon) ins {
	args := c.ops(call.Args)
	switch name {
	case "len":
		a := args[0]
		switch call.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			return func(ex *Exec, fr *Frame) { fr.r[d] = V{n: uint64(strLen(a.get(ex, fr)))} }
		case *types.Map:
			return func(ex *Exec, fr *Frame) {
				m, _ := a.get(ex, fr).o.(*Map)
				if m == nil {
					fr.r[d] = V{}
				} else {
					fr.r[d] = V{n: uint64(m.n)}
				}
			}
		default:
			return func(ex *Exec, fr *Frame) { fr.r[d] = V{n: uint64(lenOf(a.get(ex, fr)))} }
		}
	case "cap":
		a := args[0]
		return func(ex *Exec, fr *Frame) {
			v := a.get(ex, fr)
			if s, ok := v.o.(*Slice); ok {
				fr.r[d] = V{n: uint64(cap(s.a))}
				return
			}
			fr.r[d] = V{n: uint64(lenOf(v))}
		}
	case "append":
		a, b := args[0], args[1]
		bstr := isString(call.Args[1].Type())
		et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		agg := isAgg(et)
		return func(ex *Exec, fr *Frame) {
			v := a.get(ex, fr)
			s, _ := v.o.(*Slice)
			var base []V
			if s != nil {
				base = s.a
			}
			bv := b.get(ex, fr)
			if bstr {
				x := strOf(bv)
				if x.length() == 0 {
					fr.r[d] = v
					return
				}
				fr.r[d] = V{o: &Slice{a: appendBytes(base, x)}}
				return
			}
			t, _ := bv.o.(*Slice)
			if t == nil || len(t.a) == 0 {
				fr.r[d] = v
				return
			}
			if agg {
				n := len(base)
				base = append(base, t.a...)
				for i := n; i < len(base); i++ {
					base[i] = copyVal(base[i])
				}
			} else {
				base = append(base, t.a...)
			}
			fr.r[d] = V{o: &Slice{a: base}}
		}
	case "copy":
		a, b := args[0], args[1]
		bstr := isString(call.Args[1].Type())
		return func(ex *Exec, fr *Frame) {
			s, _ := a.get(ex, fr).o.(*Slice)
			if s == nil {
				fr.r[d] = V{}
				return
			}
			var src []V
			if bstr {
				src = appendBytes(nil, strOf(b.get(ex, fr)))
			} else if t, _ := b.get(ex, fr).o.(*Slice); t != nil {
				src = append([]V(nil), t.a...)
			}
			n := min(len(src), len(s.a))
			for i := 0; i < n; i++ {
				storeInto(&s.a[i], src[i])
			}
			fr.r[d] = V{n: uint64(n)}
		}
	case "delete":
		a, b := args[0], args[1]
		return func(ex *Exec, fr *Frame) {
			m, _ := a.get(ex, fr).o.(*Map)
			if m != nil {
				ex.mapDelete(m, b.get(ex, fr))
			}
		}
	case "recover":
		return func(ex *Exec, fr *Frame) {
			fr.r[d] = V{}
			// the frame whose deferred call is running
			if p := fr.caller; p != nil && p.panicVal != nil && !p.recov {
				p.recov = true
				fr.r[d] = p.panicVal.v
			}
		}
	case "min", "max":
		t := call.Args[0].Type()
		if isScalar(t) {
			w, signed := intInfo(t)
			op := OUlt
			if signed {
				op = OSlt
			}
			return func(ex *Exec, fr *Frame) {
				r := args[0].get(ex, fr)
				for _, b := range args[1:] {
					q := b.get(ex, fr)
					lt := mkBin(op, 1, false, toE(q, w, signed), toE(r, w, signed))
					if name == "max" {
						lt = mkBin(op, 1, false, toE(r, w, signed), toE(q, w, signed))
					}
					r = fromE(mkIte(lt, toE(q, w, signed), toE(r, w, signed)))
				}
				fr.r[d] = r
			}
		}
	case "print", "println":
		return func(ex *Exec, fr *Frame) {}
	case "clear":
		a := args[0]
		et := call.Args[0].Type()
		return func(ex *Exec, fr *Frame) {
			switch o := a.get(ex, fr).o.(type) {
			case *Map:
				*o = *newMap()
			case *Slice:
				z := zero(et.Underlying().(*types.Slice).Elem())
				for i := range o.a {
					o.a[i] = copyVal(z)
				}
			}
		}
	case "ssa:wrapnilchk":
		a := args[0]
		return func(ex *Exec, fr *Frame) {
			v := a.get(ex, fr)
			if v.o == nil {
				ex.rtPanic("value method called using nil pointer")
			}
			fr.r[d] = v
		}
	}
	msg := "builtin " + name
	return func(ex *Exec, fr *Frame) { ex.unsupported(msg) }
}

func lenOf(v V) int {
	switch o := v.o.(type) {
	case *Slice:
		return len(o.a)
	case *Agg:
		return len(o.f)
	case *V: // pointer to array
		if a, ok := o.o.(*Agg); ok {
			return len(a.f)
		}
	case *Map:
		return o.n
	}
	return 0
}
