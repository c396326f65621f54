package main

import (
	"go/types"
	"strings"
	"sync"
)

// verifIntr are the harness primitives. Their Go bodies in the harness file
// serve the native replay; here they act on symbolic values.
var verifIntr map[string]func(ex *Exec, args []V) V

const (
	modeNoPos    = 1
	modeNilEmpty = 2
	modeFold     = 4
	modeFoldAll  = 8
)

func init() {
	verifIntr = map[string]func(ex *Exec, args []V) V{
		"verifAssert": func(ex *Exec, a []V) V {
			ex.assert(a[0], ex.underModel(a[1], ex.model))
			return V{}
		},
		// a failed check is recorded and the harness goes on
		"verifCheck": func(ex *Exec, a []V) V {
			ex.asserts++
			st := &ex.eng.sstats
			st.asserts.Add(1)
			if a[0].o == nil && a[0].n != 0 {
				st.assertT.Add(1)
				return V{}
			}
			if !ex.decideV(a[0]) {
				ex.violate(ex.underModel(a[1], ex.model), ex.model)
			}
			return V{}
		},
		"verifFail": func(ex *Exec, a []V) V {
			ex.assert(V{}, ex.underModel(a[0], ex.model))
			return V{}
		},
		"verifAssume": func(ex *Exec, a []V) V { ex.require(a[0]); return V{} },
		"verifObserve": func(ex *Exec, a []V) V {
			if !ex.quiet {
				ex.obs = append(ex.obs, a[0])
			}
			return V{}
		},
		"verifTotal": func(ex *Exec, a []V) V { ex.total = true; return V{} },
		"verifMapOrder": func(ex *Exec, a []V) V {
			ex.mapRev = ex.concInt(a[0]) != 0
			return V{}
		},
		"verifSame": func(ex *Exec, a []V) V {
			var parts []*Expr
			x, _ := a[0].o.(*Iface)
			y, _ := a[1].o.(*Iface)
			if x == nil || y == nil {
				return V{n: b2u(x == nil && y == nil)}
			}
			if x.t != y.t {
				return V{}
			}
			if !ex.same(x.v, y.v, x.t.t, ex.concInt(a[2]), &parts, 0) {
				return V{}
			}
			return fromE(mkAnd(parts))
		},
		"verifCopy": func(ex *Exec, a []V) V {
			x, _ := a[0].o.(*Iface)
			if x == nil {
				return V{}
			}
			return V{o: &Iface{t: x.t, v: ex.deepCopy(x.v, map[*V]*V{})}}
		},
		"verifNodes": func(ex *Exec, a []V) V {
			var out []V
			x, _ := a[0].o.(*Iface)
			if x != nil {
				ex.nodes(x.v, x.t.t, &out, map[*V]bool{}, -1, nil)
			}
			return V{o: &Slice{a: out}}
		},
		"verifParents": func(ex *Exec, a []V) V {
			var out, par []V
			x, _ := a[0].o.(*Iface)
			if x != nil {
				ex.nodes(x.v, x.t.t, &out, map[*V]bool{}, -1, &par)
			}
			return V{o: &Slice{a: par}}
		},
		"verifTypeName": func(ex *Exec, a []V) V {
			x, _ := a[0].o.(*Iface)
			if x == nil {
				return cstr("<nil>")
			}
			return cstr(typeName(x.t.t))
		},
		"verifIsNil": func(ex *Exec, a []V) V {
			x, _ := a[0].o.(*Iface)
			return V{n: b2u(x == nil || x.v.o == nil)}
		},
		// a failure inside f ends f, not the path
		"verifTry": func(ex *Exec, a []V) V {
			depth, sp, na, steps := ex.depth, ex.sp, len(ex.args), ex.steps
			defer func() {
				ex.trySteps += ex.steps
				ex.steps = steps
				if r := recover(); r != nil {
					if end, ok := r.(*pathEnd); !ok || end.kind != endViolated {
						panic(r)
					}
					ex.depth, ex.sp, ex.args = depth, sp, ex.args[:na]
				}
				ex.quiet = false
			}()
			ex.steps, ex.quiet = 0, true
			ex.callClosure(a[0].o.(*Closure), a[1:], nil)
			return V{}
		},
		// the text with every byte the path determines made constant
		"verifConc": func(ex *Exec, a []V) V {
			s := strOf(a[0])
			if s == nil || s.b == nil {
				return a[0]
			}
			out := make([]byte, len(s.b))
			for i, b := range s.b {
				n := ex.norm(b)
				if n.o != nil {
					return a[0]
				}
				out[i] = byte(n.n)
			}
			return cstr(string(out))
		},
		// whether this harness has run on this very text before
		"verifSeen": func(ex *Exec, a []V) V {
			s := strOf(a[0])
			if s == nil || s.b != nil {
				return V{}
			}
			_, seen := ex.eng.seenTexts.LoadOrStore(ex.job.harness+"\x00"+s.s, true)
			return V{n: b2u(seen)}
		},
		"verifSteps": func(ex *Exec, a []V) V { return V{n: uint64(ex.steps)} },
	}
}

func (ex *Exec) isPos(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Pos" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == ex.eng.targetPath
}

// same compares two values structurally. Comparisons of symbolic scalars are
// collected instead of decided.
func (ex *Exec) same(a, b V, t types.Type, mode int, parts *[]*Expr, depth int) bool {
	if depth > 2000 {
		ex.unsupported("structure too deep to compare")
	}
	if mode&modeNoPos != 0 && ex.isPos(types.Unalias(t)) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		var r V
		if u.Info()&types.IsString != 0 {
			r = strEq(a, b)
			if mode&(modeFold|modeFoldAll) != 0 && !(r.o == nil && r.n != 0) {
				r = ex.equalFold(a, b)
			}
		} else {
			r = ex.equal(a, b)
		}
		if r.o != nil {
			*parts = append(*parts, r.o.(*Expr))
			return true
		}
		return r.n != 0
	case *types.Pointer:
		p, _ := a.o.(*V)
		q, _ := b.o.(*V)
		if p == nil || q == nil {
			return p == nil && q == nil
		}
		if p == q {
			return true
		}
		return ex.same(*p, *q, u.Elem(), mode, parts, depth+1)
	case *types.Struct:
		if mode&modeFold != 0 && exactText(t) {
			mode &^= modeFold
		}
		x, y := a.o.(*Agg), b.o.(*Agg)
		for i := range x.f {
			if !ex.same(x.f[i], y.f[i], u.Field(i).Type(), mode, parts, depth+1) {
				return false
			}
		}
		return true
	case *types.Array:
		x, y := a.o.(*Agg), b.o.(*Agg)
		for i := range x.f {
			if !ex.same(x.f[i], y.f[i], u.Elem(), mode, parts, depth+1) {
				return false
			}
		}
		return true
	case *types.Slice:
		x, _ := a.o.(*Slice)
		y, _ := b.o.(*Slice)
		if mode&modeNilEmpty == 0 && (x == nil) != (y == nil) {
			return false
		}
		var xa, ya []V
		if x != nil {
			xa = x.a
		}
		if y != nil {
			ya = y.a
		}
		if len(xa) != len(ya) {
			return false
		}
		for i := range xa {
			if !ex.same(xa[i], ya[i], u.Elem(), mode, parts, depth+1) {
				return false
			}
		}
		return true
	case *types.Interface:
		x, _ := a.o.(*Iface)
		y, _ := b.o.(*Iface)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		if x.t != y.t {
			return false
		}
		return ex.same(x.v, y.v, x.t.t, mode, parts, depth+1)
	case *types.Map:
		x, _ := a.o.(*Map)
		y, _ := b.o.(*Map)
		n, m := 0, 0
		if x != nil {
			n = x.n
		}
		if y != nil {
			m = y.n
		}
		if n != m {
			return false
		}
		if n == 0 {
			return true
		}
		for i := range x.keys {
			if x.dead[i] {
				continue
			}
			j := ex.mapFind(y, x.keys[i])
			if j < 0 || !ex.same(x.vals[i], y.vals[j], u.Elem(), mode, parts, depth+1) {
				return false
			}
		}
		return true
	}
	return ex.decideV(ex.equal(a, b))
}

// exactText tells the nodes whose text is significant to the letter case.
func exactText(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		switch n.Obj().Name() {
		case "Ident", "StringLiteral", "NumberLiteral":
			return true
		}
	}
	return false
}

func (ex *Exec) deepCopy(v V, seen map[*V]*V) V {
	switch o := v.o.(type) {
	case *V:
		if c, ok := seen[o]; ok {
			return V{o: c}
		}
		c := &V{}
		seen[o] = c
		*c = ex.deepCopy(*o, seen)
		return V{o: c}
	case *Agg:
		n := &Agg{f: make([]V, len(o.f))}
		for i := range o.f {
			n.f[i] = ex.deepCopy(o.f[i], seen)
		}
		return V{o: n}
	case *Slice:
		n := &Slice{a: make([]V, len(o.a))}
		for i := range o.a {
			n.a[i] = ex.deepCopy(o.a[i], seen)
		}
		return V{o: n}
	case *Iface:
		return V{o: &Iface{t: o.t, v: ex.deepCopy(o.v, seen)}}
	case *Map:
		n := newMap()
		for i := range o.keys {
			if !o.dead[i] {
				ex.mapSet(n, o.keys[i], ex.deepCopy(o.vals[i], seen))
			}
		}
		return V{o: n}
	}
	return v
}

// nodes lists every AST node reachable from v, parents before children, in
// field declaration order.
func (ex *Exec) nodes(v V, t types.Type, out *[]V, seen map[*V]bool, parent int, par *[]V) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, _ := v.o.(*V)
		if p == nil || seen[p] {
			return
		}
		seen[p] = true
		ex.nodeSlot(p, u.Elem(), out, seen, parent, par)
	case *types.Struct:
		ex.fieldNodes(v, u, out, seen, parent, par)
	case *types.Slice:
		if isScalar(u.Elem()) || isString(u.Elem()) {
			return
		}
		if s, _ := v.o.(*Slice); s != nil {
			for i := range s.a {
				ex.nodeSlot(&s.a[i], u.Elem(), out, seen, parent, par)
			}
		}
	case *types.Array:
		if ag, _ := v.o.(*Agg); ag != nil && !isScalar(u.Elem()) {
			for i := range ag.f {
				ex.nodeSlot(&ag.f[i], u.Elem(), out, seen, parent, par)
			}
		}
	case *types.Interface:
		if x, _ := v.o.(*Iface); x != nil {
			ex.nodes(x.v, x.t.t, out, seen, parent, par)
		}
	}
}

// nodeSlot visits the variable at p; if its address is a node, it is listed.
func (ex *Exec) nodeSlot(p *V, t types.Type, out *[]V, seen map[*V]bool, parent int, par *[]V) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		ex.nodes(*p, t, out, seen, parent, par)
		return
	}
	if ex.eng.exprIface != nil {
		rt := ptrRtypeOf(t)
		if ex.eng.implements(rt, ex.eng.exprIface) {
			if par != nil {
				*par = append(*par, V{n: uint64(int64(parent))})
			}
			parent = len(*out)
			*out = append(*out, V{o: &Iface{t: rt, v: V{o: p}}})
		}
	}
	ex.fieldNodes(*p, u, out, seen, parent, par)
}

func (ex *Exec) fieldNodes(v V, u *types.Struct, out *[]V, seen map[*V]bool, parent int, par *[]V) {
	ag, _ := v.o.(*Agg)
	if ag == nil {
		return
	}
	for i := range ag.f {
		ex.nodeSlot(&ag.f[i], u.Field(i).Type(), out, seen, parent, par)
	}
}

var ptrRT sync.Map

// ptrRtypeOf is the run-time type of pointers to t.
func ptrRtypeOf(t types.Type) *RType {
	if r, ok := ptrRT.Load(t); ok {
		return r.(*RType)
	}
	r := rtypeOf(types.NewPointer(t))
	ptrRT.Store(t, r)
	return r
}

var _ = strings.ToUpper
