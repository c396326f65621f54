package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// V is one interpreted Go value. Scalars live in n (sign- or zero-extended to
// 64 bits); everything else, including symbolic scalars (*Expr), lives in o.
type V struct {
	n uint64
	o any
}

// Str is an immutable string. If b is non-nil it holds the bytes (some of them
// symbolic); otherwise s does.
type Str struct {
	s string
	b []V
}

// Agg is a struct or array.
type Agg struct{ f []V }

// Slice is a slice header; len and cap are those of a.
type Slice struct{ a []V }

// Iface is a non-nil interface value.
type Iface struct {
	t *RType
	v V
}

// Closure is a function value.
type Closure struct {
	fn   *Fn
	sf   *ssa.Function // compiled on first use when fn is nil
	env  []V
	recv *V // receiver bound by an interface call
	// native, when set, is called instead of fn
	native func(ex *Exec, args []V) V
}

// Opaque is a host object an intrinsic hangs on an interpreted value.
type Opaque struct{ x any }

// Map is a map with insertion-ordered iteration.
type Map struct {
	idx     map[any]int
	keys    []V
	vals    []V
	dead    []bool
	n       int
	strKeys bool // keys are strings
	symKeys bool // some key is symbolic
}

func newMap() *Map { return &Map{idx: map[any]int{}} }

// RType is a canonical runtime type.
type RType struct {
	t  types.Type
	id int
	mu sync.Mutex
	ms map[string]*Fn
}

var (
	rtMu    sync.Mutex
	rtMap   typeutil.Map
	rtNext  int
	rtCache sync.Map // types.Type -> *RType
)

func rtypeOf(t types.Type) *RType {
	if r, ok := rtCache.Load(t); ok {
		return r.(*RType)
	}
	rtMu.Lock()
	defer rtMu.Unlock()
	t = types.Unalias(t)
	if r := rtMap.At(t); r != nil {
		rtCache.Store(t, r)
		return r.(*RType)
	}
	rtNext++
	r := &RType{t: t, id: rtNext, ms: map[string]*Fn{}}
	rtMap.Set(t, r)
	rtCache.Store(t, r)
	return r
}

func cstr(s string) V {
	if s == "" {
		return V{}
	}
	return V{o: &Str{s: s}}
}

func (s *Str) length() int {
	if s == nil {
		return 0
	}
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func strOf(v V) *Str {
	if v.o == nil {
		return nil
	}
	return v.o.(*Str)
}

func strLen(v V) int { return strOf(v).length() }

// at returns byte i as a value.
func (s *Str) at(i int) V {
	if s.b != nil {
		return s.b[i]
	}
	return V{n: uint64(s.s[i])}
}

// conc returns the concrete string, if it is one.
func conc(v V) (string, bool) {
	s := strOf(v)
	if s == nil {
		return "", true
	}
	if s.b == nil {
		return s.s, true
	}
	return "", false
}

func subStr(v V, i, j int) V {
	if i == j {
		return V{}
	}
	s := strOf(v)
	if s.b == nil {
		return V{o: &Str{s: s.s[i:j]}}
	}
	return mkStr(s.b[i:j])
}

// mkStr builds a string out of byte values, collapsing to a concrete one when
// no byte is symbolic. It may alias b.
func mkStr(b []V) V {
	if len(b) == 0 {
		return V{}
	}
	for i := range b {
		if b[i].o != nil {
			return V{o: &Str{b: b}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].n)
	}
	return V{o: &Str{s: string(bs)}}
}

func concat(a, b V) V {
	x, y := strOf(a), strOf(b)
	if x == nil {
		return b
	}
	if y == nil {
		return a
	}
	if x.b == nil && y.b == nil {
		return V{o: &Str{s: x.s + y.s}}
	}
	out := make([]V, 0, x.length()+y.length())
	out = appendBytes(out, x)
	out = appendBytes(out, y)
	return V{o: &Str{b: out}}
}

func appendBytes(out []V, s *Str) []V {
	if s == nil {
		return out
	}
	if s.b != nil {
		return append(out, s.b...)
	}
	for i := 0; i < len(s.s); i++ {
		out = append(out, V{n: uint64(s.s[i])})
	}
	return out
}

// zero returns the zero value of t.
func zero(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{f: make([]V, u.NumFields())}
		for i := range a.f {
			a.f[i] = zero(u.Field(i).Type())
		}
		return V{o: a}
	case *types.Array:
		a := &Agg{f: make([]V, int(u.Len()))}
		if isAgg(u.Elem()) {
			for i := range a.f {
				a.f[i] = zero(u.Elem())
			}
		}
		return V{o: a}
	case *types.Tuple:
		a := &Agg{f: make([]V, u.Len())}
		for i := range a.f {
			a.f[i] = zero(u.At(i).Type())
		}
		return V{o: a}
	}
	return V{}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// copyVal copies a value so the result shares no mutable memory by value.
func copyVal(v V) V {
	if a, ok := v.o.(*Agg); ok {
		b := &Agg{f: make([]V, len(a.f))}
		for i := range a.f {
			if _, isA := a.f[i].o.(*Agg); isA {
				b.f[i] = copyVal(a.f[i])
			} else {
				b.f[i] = a.f[i]
			}
		}
		return V{o: b}
	}
	return v
}

// storeInto stores v into the cell, in place for aggregates so interior
// pointers keep seeing the cell.
func storeInto(dst *V, v V) {
	if a, ok := v.o.(*Agg); ok {
		if d, ok := dst.o.(*Agg); ok && len(d.f) == len(a.f) {
			if d == a {
				return
			}
			for i := range a.f {
				storeInto(&d.f[i], a.f[i])
			}
			return
		}
		*dst = copyVal(v)
		return
	}
	*dst = v
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// show renders a value for diagnostics only.
func show(v V) string {
	switch o := v.o.(type) {
	case nil:
		return fmt.Sprint(int64(v.n))
	case *Str:
		if o.b == nil {
			return fmt.Sprintf("%q", o.s)
		}
		var sb strings.Builder
		for _, b := range o.b {
			if b.o == nil {
				sb.WriteByte(byte(b.n))
			} else {
				sb.WriteByte('?')
			}
		}
		return sb.String()
	case *Expr:
		return "<sym>"
	case *Iface:
		return typeName(o.t.t) + ":" + show(o.v)
	}
	return fmt.Sprintf("%T", v.o)
}
