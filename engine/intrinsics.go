package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// interpretable lists the standard packages whose functions are executed from
// their source when no model below applies.
var interpretable = map[string]bool{
	"strings": true, "slices": true, "sort": true, "errors": true, "unicode/utf8": true,
	"cmp": true, "maps": true, "iter": true, "strconv": true, "bytes": true, "math/bits": true,
	"internal/stringslite": true, "internal/bytealg": false, "unicode": true, "fmt": false,
	"container/list": true, "container/heap": true, "text/scanner": false,
}

// pureIntr names models that are scalar-to-scalar without effects.
var pureIntr = map[string]bool{
	"unicode.IsSpace": true, "unicode.IsDigit": true, "unicode.IsLetter": true, "unicode.IsUpper": true,
	"unicode.IsLower": true, "unicode.ToUpper": true, "unicode.ToLower": true, "unicode.IsControl": true,
	"unicode.IsPrint": true, "unicode.IsPunct": true, "unicode.IsNumber": true,
}

var intrinsics map[string]func(ex *Exec, args []V) V

// nativeFns are called directly once their arguments are concrete.
var nativeFns = map[string]any{
	"strings.Fields": strings.Fields, "strings.Split": strings.Split, "strings.SplitN": strings.SplitN,
	"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Title": strings.Title,
	"strings.Count": strings.Count, "strings.LastIndex": strings.LastIndex, "strings.IndexAny": strings.IndexAny,
	"strings.Compare": strings.Compare, "strings.ContainsAny": strings.ContainsAny, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.IndexRune": strings.IndexRune, "strings.ContainsRune": strings.ContainsRune,
	"strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt,
	"utf8.RuneLen": utf8.RuneLen, "unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString,
	"math.Float64bits": math.Float64bits, "math.Float64frombits": math.Float64frombits,
	"math/bits.Len": bits.Len, "math/bits.Len64": bits.Len64, "math/bits.TrailingZeros": bits.TrailingZeros, "math/bits.OnesCount": bits.OnesCount,
}

func init() {
	intrinsics = map[string]func(ex *Exec, args []V) V{
		"strings.ToUpper":   func(ex *Exec, a []V) V { return ex.caseMap(a[0], true) },
		"strings.ToLower":   func(ex *Exec, a []V) V { return ex.caseMap(a[0], false) },
		"strings.EqualFold": func(ex *Exec, a []V) V { return ex.equalFold(a[0], a[1]) },
		"strings.HasPrefix": func(ex *Exec, a []V) V { return hasPrefix(a[0], a[1]) },
		"strings.HasSuffix": func(ex *Exec, a []V) V { return hasSuffix(a[0], a[1]) },
		"strings.TrimPrefix": func(ex *Exec, a []V) V {
			if ex.decideV(hasPrefix(a[0], a[1])) {
				return ex.subStr(a[0], strLen(a[1]), strLen(a[0]))
			}
			return a[0]
		},
		"strings.TrimSuffix": func(ex *Exec, a []V) V {
			if ex.decideV(hasSuffix(a[0], a[1])) {
				return ex.subStr(a[0], 0, strLen(a[0])-strLen(a[1]))
			}
			return a[0]
		},
		"strings.Repeat": func(ex *Exec, a []V) V {
			n := ex.concInt(a[1])
			if n < 0 {
				panic(&goPanic{msg: "strings: negative Repeat count", v: cstr("strings: negative Repeat count")})
			}
			if s, ok := conc(a[0]); ok {
				if len(s)*n > 1<<24 {
					ex.unsupported("huge Repeat")
				}
				return cstr(strings.Repeat(s, n))
			}
			r := V{}
			for i := 0; i < n; i++ {
				r = concat(r, a[0])
			}
			return r
		},
		"strings.Join": func(ex *Exec, a []V) V {
			s, _ := a[0].o.(*Slice)
			r := V{}
			if s == nil {
				return r
			}
			for i := range s.a {
				if i > 0 {
					r = concat(r, a[1])
				}
				r = concat(r, s.a[i])
			}
			return r
		},
		"strings.Index":     func(ex *Exec, a []V) V { return V{n: uint64(int64(ex.strIndexOf(a[0], a[1])))} },
		"strings.Contains":  func(ex *Exec, a []V) V { return V{n: b2u(ex.strIndexOf(a[0], a[1]) >= 0)} },
		"strings.Clone":     func(ex *Exec, a []V) V { return a[0] },
		"strings.IndexByte": func(ex *Exec, a []V) V { return ex.indexByte(a[0], a[1]) },

		"internal/bytealg.IndexByteString": func(ex *Exec, a []V) V { return ex.indexByte(a[0], a[1]) },
		"internal/bytealg.IndexString":     func(ex *Exec, a []V) V { return V{n: uint64(int64(ex.strIndexOf(a[0], a[1])))} },
		"internal/stringslite.IndexByte":   func(ex *Exec, a []V) V { return ex.indexByte(a[0], a[1]) },
		"internal/stringslite.Index":       func(ex *Exec, a []V) V { return V{n: uint64(int64(ex.strIndexOf(a[0], a[1])))} },

		"(*strings.Builder).WriteByte": func(ex *Exec, a []V) V {
			sb := ex.builder(a[0])
			sb.b = append(sb.b, a[1])
			return V{}
		},
		"(*strings.Builder).WriteString": func(ex *Exec, a []V) V {
			sb := ex.builder(a[0])
			sb.b = appendBytes(sb.b, strOf(a[1]))
			return V{o: &Agg{f: []V{{n: uint64(strLen(a[1]))}, {}}}}
		},
		"(*strings.Builder).WriteRune": func(ex *Exec, a []V) V {
			sb := ex.builder(a[0])
			v := a[1]
			n := 1
			if e, ok := v.o.(*Expr); ok {
				if ex.decide(mkBin(OUlt, 1, false, mkConv(e, 32, false), constE(0x80, 32, false))) {
					sb.b = append(sb.b, fromE(mkConv(e, 8, false)))
					return V{o: &Agg{f: []V{{n: 1}, {}}}}
				}
			}
			s := string(rune(ex.concInt(v)))
			n = len(s)
			sb.b = appendBytes(sb.b, &Str{s: s})
			return V{o: &Agg{f: []V{{n: uint64(n)}, {}}}}
		},
		"(*strings.Builder).Write": func(ex *Exec, a []V) V {
			sb := ex.builder(a[0])
			n := 0
			if s, _ := a[1].o.(*Slice); s != nil {
				sb.b = append(sb.b, s.a...)
				n = len(s.a)
			}
			return V{o: &Agg{f: []V{{n: uint64(n)}, {}}}}
		},
		"(*strings.Builder).String": func(ex *Exec, a []V) V { return mkStr(append([]V(nil), ex.builder(a[0]).b...)) },
		"(*strings.Builder).Len":    func(ex *Exec, a []V) V { return V{n: uint64(len(ex.builder(a[0]).b))} },
		"(*strings.Builder).Cap":    func(ex *Exec, a []V) V { return V{n: uint64(cap(ex.builder(a[0]).b))} },
		"(*strings.Builder).Reset":  func(ex *Exec, a []V) V { ex.builder(a[0]).b = nil; return V{} },
		"(*strings.Builder).Grow":   func(ex *Exec, a []V) V { return V{} },

		"fmt.Sprintf":  func(ex *Exec, a []V) V { return ex.sprintf(a[0], a[1]) },
		"fmt.Sprint":   func(ex *Exec, a []V) V { return ex.sprint(a[0], false) },
		"fmt.Sprintln": func(ex *Exec, a []V) V { return ex.sprint(a[0], true) },
		"fmt.Errorf":   func(ex *Exec, a []V) V { return ex.errorf(a[0], a[1]) },
		"fmt.Fprintf": func(ex *Exec, a []V) V {
			s := ex.sprintf(a[1], a[2])
			return ex.writeTo(a[0], s)
		},
		"fmt.Fprint":                          func(ex *Exec, a []V) V { return ex.writeTo(a[0], ex.sprint(a[1], false)) },
		"errors.As":                           func(ex *Exec, a []V) V { return ex.errorsAs(a[0], a[1]) },
		"errors.Is":                           func(ex *Exec, a []V) V { return ex.errorsIs(a[0], a[1]) },
		"unicode/utf8.DecodeRuneInString":     func(ex *Exec, a []V) V { return ex.decodeRuneIntr(a[0]) },
		"reflect.ValueOf":                     func(ex *Exec, a []V) V { return V{o: &Agg{f: []V{a[0], {}, {}}}} },
		"(reflect.Value).IsNil":               reflectIsNil,
		"(reflect.Value).Kind":                reflectKind,
		"(reflect.Value).IsValid":             func(ex *Exec, a []V) V { return V{n: b2u(a[0].o.(*Agg).f[0].o != nil)} },
		"(reflect.Value).Interface":           func(ex *Exec, a []V) V { return a[0].o.(*Agg).f[0] },
		"(*sync.Once).Do":                     syncOnce,
		"(*sync.Mutex).Lock":                  func(ex *Exec, a []V) V { return V{} },
		"(*sync.Mutex).Unlock":                func(ex *Exec, a []V) V { return V{} },
		"(*sync.RWMutex).Lock":                func(ex *Exec, a []V) V { return V{} },
		"(*sync.RWMutex).Unlock":              func(ex *Exec, a []V) V { return V{} },
		"(*sync.RWMutex).RLock":               func(ex *Exec, a []V) V { return V{} },
		"(*sync.RWMutex).RUnlock":             func(ex *Exec, a []V) V { return V{} },
		"(*sync.Pool).Get":                    syncPoolGet,
		"(*sync.Pool).Put":                    syncPoolPut,
		"internal/race.Acquire":               func(ex *Exec, a []V) V { return V{} },
		"strconv.Quote":                       func(ex *Exec, a []V) V { return ex.quote(a[0]) },
		"unicode/utf8.RuneCountInString":      func(ex *Exec, a []V) V { return ex.runeCount(a[0]) },
		"unicode/utf8.DecodeLastRuneInString": nil,
	}
	delete(intrinsics, "unicode/utf8.DecodeLastRuneInString")
	for name, f := range map[string]func(rune) bool{
		"unicode.IsSpace": unicode.IsSpace, "unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter,
		"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsControl": unicode.IsControl,
		"unicode.IsPrint": unicode.IsPrint, "unicode.IsPunct": unicode.IsPunct, "unicode.IsNumber": unicode.IsNumber,
	} {
		f := f
		intrinsics[name] = func(ex *Exec, a []V) V {
			return ex.scalar1(a[0], 1, false, func(x uint64) uint64 { return b2u(f(rune(int32(x)))) })
		}
	}
	for name, f := range map[string]func(rune) rune{"unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower} {
		f := f
		intrinsics[name] = func(ex *Exec, a []V) V {
			return ex.scalar1(a[0], 32, true, func(x uint64) uint64 { return uint64(int64(f(rune(int32(x))))) })
		}
	}
	for name, f := range nativeFns {
		if _, ok := intrinsics[name]; !ok {
			intrinsics[name] = nativeCall(name, f)
		}
	}
}

// scalar1 tabulates a host function over the variable of v.
func (ex *Exec) scalar1(v V, w uint8, signed bool, f func(uint64) uint64) V {
	if v.o == nil {
		return V{n: f(v.n)}
	}
	e := v.o.(*Expr)
	if e.op != OTab {
		return V{n: f(uint64(int64(ex.concInt(v))))}
	}
	r := tabE(e.v, w, signed, func(i int) uint64 { return f(e.at(i)) })
	if w == 1 {
		return foldTab(r)
	}
	return V{o: r}
}

func nativeCall(name string, f any) func(ex *Exec, a []V) V {
	rv := reflect.ValueOf(f)
	rt := rv.Type()
	return func(ex *Exec, a []V) V {
		in := make([]reflect.Value, len(a))
		for i := range a {
			in[i] = ex.toGo(a[i], rt.In(i))
		}
		out := rv.Call(in)
		switch len(out) {
		case 0:
			return V{}
		case 1:
			return fromGo(out[0])
		}
		ag := &Agg{}
		for _, o := range out {
			ag.f = append(ag.f, fromGo(o))
		}
		return V{o: ag}
	}
}

func (ex *Exec) toGo(v V, t reflect.Type) reflect.Value {
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		r.SetString(ex.concStr(v))
	case reflect.Bool:
		r.SetBool(ex.concInt(v) != 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		r.SetInt(int64(ex.concInt(v)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		r.SetUint(uint64(ex.concInt(v)))
	case reflect.Float64:
		r.SetFloat(math.Float64frombits(v.n))
	case reflect.Slice:
		s, _ := v.o.(*Slice)
		if s == nil {
			return r
		}
		r = reflect.MakeSlice(t, len(s.a), len(s.a))
		for i := range s.a {
			r.Index(i).Set(ex.toGo(s.a[i], t.Elem()))
		}
	default:
		ex.unsupported("native argument " + t.String())
	}
	return r
}

func fromGo(v reflect.Value) V {
	switch v.Kind() {
	case reflect.String:
		return cstr(v.String())
	case reflect.Bool:
		return V{n: b2u(v.Bool())}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return V{n: uint64(v.Int())}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return V{n: v.Uint()}
	case reflect.Float64:
		return V{n: math.Float64bits(v.Float())}
	case reflect.Slice:
		if v.IsNil() {
			return V{}
		}
		s := &Slice{a: make([]V, v.Len())}
		for i := range s.a {
			s.a[i] = fromGo(v.Index(i))
		}
		return V{o: s}
	}
	panic(&pathEnd{endUnsupported, "native result " + v.Type().String()})
}

const (
	kUpper = iota + 1
	kLower
	kFold
	kASCII
)

// mapByte applies f to a symbolic byte, memoised per expression.
func (ex *Exec) mapByte(kind int, e *Expr, f func(b byte) byte) *Expr {
	k := tabKey{kind, e}
	if r, ok := ex.tabMemo[k]; ok {
		return r
	}
	r := tabE(e.v, 8, false, func(i int) uint64 { return uint64(f(byte(e.at(i)))) })
	ex.tabMemo[k] = r
	return r
}

func upperB(b byte) byte {
	if 'a' <= b && b <= 'z' {
		return b - 32
	}
	return b
}

func lowerB(b byte) byte {
	if 'A' <= b && b <= 'Z' {
		return b + 32
	}
	return b
}

// asciiOnly decides whether every byte of a symbolic string is ASCII.
func (ex *Exec) asciiOnly(s *Str) bool {
	for i := range s.b {
		e, ok := s.b[i].o.(*Expr)
		if !ok {
			if s.b[i].n >= 0x80 {
				return false
			}
			continue
		}
		if e.op == OTab {
			k := tabKey{kASCII, e}
			c, ok := ex.tabMemo[k]
			if !ok {
				c = tabE(e.v, 1, false, func(i int) uint64 { return b2u(e.at(i) < 0x80) })
				ex.tabMemo[k] = c
			}
			if setCount(c.bits) == e.v.d {
				continue
			}
			if !ex.decide(c) {
				return false
			}
			continue
		}
		if !ex.decide(mkBin(OUlt, 1, false, e, constE(0x80, 8, false))) {
			return false
		}
	}
	return true
}

func (ex *Exec) caseMap(v V, up bool) V {
	s := strOf(v)
	if s == nil {
		return v
	}
	if s.b == nil {
		if up {
			return cstr(strings.ToUpper(s.s))
		}
		return cstr(strings.ToLower(s.s))
	}
	if !ex.asciiOnly(s) {
		c := ex.concStr(v)
		if up {
			return cstr(strings.ToUpper(c))
		}
		return cstr(strings.ToLower(c))
	}
	kind, f := kUpper, upperB
	if !up {
		kind, f = kLower, lowerB
	}
	out := make([]V, len(s.b))
	for i, b := range s.b {
		switch e := b.o.(type) {
		case nil:
			out[i] = V{n: uint64(f(byte(b.n)))}
		case *Expr:
			if e.op == OTab {
				out[i] = V{o: ex.mapByte(kind, e, f)}
			} else {
				lo, hi, dl := uint64('a'), uint64('z'), uint64(0xe0)
				if !up {
					lo, hi, dl = 'A', 'Z', 32
				}
				in := mkAnd([]*Expr{mkNot(mkBin(OUlt, 1, false, e, constE(lo, 8, false))), mkNot(mkBin(OUlt, 1, false, constE(hi, 8, false), e))})
				out[i] = fromE(mkIte(in, mkBin(OAdd, 8, false, e, constE(dl, 8, false)), e))
			}
		}
	}
	return mkStr(out)
}

func (ex *Exec) equalFold(a, b V) V {
	x, y := strOf(a), strOf(b)
	if (x == nil || x.b == nil) && (y == nil || y.b == nil) {
		p, _ := conc(a)
		q, _ := conc(b)
		return V{n: b2u(strings.EqualFold(p, q))}
	}
	if x.length() != y.length() {
		// Only non-ASCII letters fold across lengths.
		xa := x == nil || x.b == nil && isASCII(x.s) || x.b != nil && ex.asciiOnly(x)
		if xa {
			ya := y == nil || y.b == nil && isASCII(y.s) || y.b != nil && ex.asciiOnly(y)
			if ya {
				return V{}
			}
		}
		return V{n: b2u(strings.EqualFold(ex.concStr(a), ex.concStr(b)))}
	}
	if x.b != nil && !ex.asciiOnly(x) || y.b != nil && !ex.asciiOnly(y) {
		return V{n: b2u(strings.EqualFold(ex.concStr(a), ex.concStr(b)))}
	}
	return strEq(ex.caseMap(a, false), ex.caseMap(b, false))
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func hasPrefix(a, b V) V {
	if strLen(a) < strLen(b) {
		return V{}
	}
	return strEq(subStr(a, 0, strLen(b)), b)
}

func hasSuffix(a, b V) V {
	n, m := strLen(a), strLen(b)
	if n < m {
		return V{}
	}
	return strEq(subStr(a, n-m, n), b)
}

func (ex *Exec) strIndexOf(a, b V) int {
	if p, ok := conc(a); ok {
		if q, ok := conc(b); ok {
			return strings.Index(p, q)
		}
	}
	n, m := strLen(a), strLen(b)
	for i := 0; i+m <= n; i++ {
		if ex.decideV(strEq(subStr(a, i, i+m), b)) {
			return i
		}
	}
	return -1
}

func (ex *Exec) indexByte(a, b V) V {
	s := strOf(a)
	for i := 0; i < s.length(); i++ {
		if ex.decideV(fromE(mkBin(OEq, 1, false, toE(s.at(i), 8, false), toE(b, 8, false)))) {
			return V{n: uint64(i)}
		}
	}
	return V{n: ^uint64(0)}
}

func (ex *Exec) runeCount(a V) V {
	s := strOf(a)
	if s == nil || s.b == nil {
		p, _ := conc(a)
		return V{n: uint64(utf8.RuneCountInString(p))}
	}
	n := 0
	for i := 0; i < s.length(); {
		_, k := ex.decodeRune(a, i)
		i += k
		n++
	}
	return V{n: uint64(n)}
}

func (ex *Exec) decodeRuneIntr(a V) V {
	s := strOf(a)
	if s == nil {
		return V{o: &Agg{f: []V{{n: uint64(int64(utf8.RuneError))}, {}}}}
	}
	if s.b != nil {
		b := ex.norm(s.b[0])
		if e, ok := b.o.(*Expr); ok {
			if ex.decide(mkBin(OUlt, 1, false, e, constE(0x80, 8, false))) {
				return V{o: &Agg{f: []V{fromE(mkConv(e, 32, true)), {n: 1}}}}
			}
		} else if b.n < 0x80 {
			return V{o: &Agg{f: []V{{n: b.n}, {n: 1}}}}
		}
		return ex.call(ex.eng.decodeFn, []V{a}, nil, nil)
	}
	r, n := utf8.DecodeRuneInString(s.s)
	return V{o: &Agg{f: []V{{n: uint64(int64(r))}, {n: uint64(n)}}}}
}

// ---- strings.Builder ----

type sbuf struct{ b []V }

func (ex *Exec) builder(v V) *sbuf {
	cell := ex.ptr(v)
	ag := cell.o.(*Agg)
	if sb, ok := ag.f[1].o.(*sbuf); ok {
		return sb
	}
	sb := &sbuf{}
	ag.f[1] = V{o: sb}
	return sb
}

func (ex *Exec) writeTo(w, s V) V {
	ifc, _ := w.o.(*Iface)
	if ifc == nil {
		ex.rtPanic("invalid memory address or nil pointer dereference")
	}
	if ifc.t.t.String() == "*strings.Builder" {
		sb := ex.builder(ifc.v)
		sb.b = appendBytes(sb.b, strOf(s))
		return V{o: &Agg{f: []V{{n: uint64(strLen(s))}, {}}}}
	}
	f := ex.eng.methodByName(ifc.t, "Write")
	if f == nil {
		ex.unsupported("Write on " + ifc.t.t.String())
	}
	return ex.call(f, []V{ifc.v, {o: &Slice{a: appendBytes(nil, strOf(s))}}}, nil, nil)
}

// ---- fmt ----

func (ex *Exec) quote(v V) V {
	s := strOf(v)
	if s == nil || s.b == nil {
		p, _ := conc(v)
		return cstr(strconv.Quote(p))
	}
	// A byte that prints as itself stays symbolic; any other becomes concrete.
	out := []V{{n: '"'}}
	for i := 0; i < len(s.b); {
		b := ex.norm(s.b[i])
		if e, ok := b.o.(*Expr); ok {
			plain := mkAnd([]*Expr{
				mkNot(mkBin(OUlt, 1, false, e, constE(0x20, 8, false))), mkBin(OUlt, 1, false, e, constE(0x7f, 8, false)),
				mkNot(mkBin(OEq, 1, false, e, constE('"', 8, false))), mkNot(mkBin(OEq, 1, false, e, constE('\\', 8, false)))})
			if ex.decide(plain) {
				out = append(out, b)
				i++
				continue
			}
			b = V{n: uint64(ex.concInt(b))}
		}
		if b.n < 0x80 {
			q := strconv.Quote(string(rune(b.n)))
			out = appendBytes(out, &Str{s: q[1 : len(q)-1]})
			i++
			continue
		}
		// a non-ASCII sequence: quote the rest concretely
		rest := ex.concStr(ex.subStr(v, i, len(s.b)))
		q := strconv.Quote(rest)
		out = appendBytes(out, &Str{s: q[1 : len(q)-1]})
		break
	}
	out = append(out, V{n: '"'})
	return mkStr(out)
}

func (ex *Exec) sprint(args V, ln bool) V {
	s, _ := args.o.(*Slice)
	r := V{}
	if s != nil {
		prevStr := true
		for i := range s.a {
			ifc, _ := s.a[i].o.(*Iface)
			isStr := ifc != nil && isString(ifc.t.t)
			if i > 0 && (ln || !isStr && !prevStr) {
				r = concat(r, cstr(" "))
			}
			r = concat(r, ex.fmtV(s.a[i], 'v', ""))
			prevStr = isStr
		}
	}
	if ln {
		r = concat(r, cstr("\n"))
	}
	return r
}

func (ex *Exec) sprintf(f, args V) V {
	format := ex.concStr(f)
	var as []V
	if s, _ := args.o.(*Slice); s != nil {
		as = s.a
	}
	var out V
	ai := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = concat(out, cstr(format[i:]))
			break
		}
		out = concat(out, cstr(format[i:i+j]))
		i += j + 1
		k := i
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			out = concat(out, cstr("%!(NOVERB)"))
			break
		}
		flags, verb := format[i:k], format[k]
		i = k + 1
		if verb == '%' {
			out = concat(out, cstr("%"))
			continue
		}
		if ai >= len(as) {
			out = concat(out, cstr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := as[ai]
		ai++
		out = concat(out, ex.fmtV(a, verb, flags))
	}
	if ai < len(as) {
		ex.unsupported("extra Sprintf arguments")
	}
	return out
}

func (ex *Exec) fmtV(a V, verb byte, flags string) V {
	ifc, _ := a.o.(*Iface)
	if ifc == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return cstr("%!s(<nil>)")
			}
			return cstr("<nil>")
		}
		return cstr("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return cstr(typeName(ifc.t.t))
	}
	v := ifc.v
	if verb == 's' || verb == 'v' || verb == 'q' || verb == 'w' {
		for _, m := range []string{"Error", "String"} {
			if f := ex.eng.methodByName(ifc.t, m); f != nil && f.ssa != nil && f.ssa.Signature.Params().Len() == 0 &&
				f.ssa.Signature.Results().Len() == 1 && isString(f.ssa.Signature.Results().At(0).Type()) {
				r := ex.call(f, []V{v}, nil, nil)
				if verb == 'q' {
					return ex.quote(r)
				}
				return r
			}
		}
	}
	switch t := ifc.t.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch verb {
			case 's', 'v':
				if flags != "" {
					return cstr(fmt.Sprintf("%"+flags+string(verb), ex.concStr(v)))
				}
				return v
			case 'q':
				return ex.quote(v)
			}
			return cstr(fmt.Sprintf("%"+flags+string(verb), ex.concStr(v)))
		case t.Info()&types.IsBoolean != 0:
			return cstr(fmt.Sprintf("%"+flags+string(verb), ex.concInt(v) != 0))
		case t.Info()&types.IsInteger != 0:
			if verb == 'c' && v.o != nil {
				e := v.o.(*Expr)
				if ex.decide(mkBin(OUlt, 1, false, mkConv(e, 64, false), constE(0x80, 64, false))) {
					return mkStr([]V{fromE(mkConv(e, 8, false))})
				}
			}
			n := ex.concInt(v)
			_, signed := intInfo(t)
			if t.Kind() == types.Int32 {
				return cstr(fmt.Sprintf("%"+flags+string(verb), rune(n)))
			}
			if signed {
				return cstr(fmt.Sprintf("%"+flags+string(verb), n))
			}
			return cstr(fmt.Sprintf("%"+flags+string(verb), uint64(n)))
		}
	case *types.Slice:
		if verb == 'v' || verb == 's' || verb == 'q' || verb == 'd' {
			r := cstr("[")
			s, _ := v.o.(*Slice)
			if s != nil {
				for i := range s.a {
					if i > 0 {
						r = concat(r, cstr(" "))
					}
					el := s.a[i]
					if _, isI := t.Elem().Underlying().(*types.Interface); !isI {
						el = V{o: &Iface{t: rtypeOf(t.Elem()), v: el}}
					}
					r = concat(r, ex.fmtV(el, verb, flags))
				}
			}
			return concat(r, cstr("]"))
		}
	case *types.Pointer:
		if v.o == nil && (verb == 'v' || verb == 's') {
			if verb == 's' {
				return cstr("%!s(" + typeName(ifc.t.t) + "=<nil>)")
			}
			return cstr("<nil>")
		}
	}
	ex.unsupported(fmt.Sprintf("fmt verb %%%c on %s", verb, ifc.t.t))
	return V{}
}

func (ex *Exec) errorf(f, args V) V {
	msg := ex.sprintf(f, args)
	var wrapped V
	format, _ := conc(f)
	if strings.Contains(format, "%w") {
		if s, _ := args.o.(*Slice); s != nil {
			for i := range s.a {
				if ifc, _ := s.a[i].o.(*Iface); ifc != nil && ex.eng.methodByName(ifc.t, "Error") != nil {
					wrapped = s.a[i]
					break
				}
			}
		}
	}
	if wrapped.o != nil && ex.eng.wrapErrorT != nil {
		cell := &V{o: &Agg{f: []V{msg, wrapped}}}
		return V{o: &Iface{t: ex.eng.wrapErrorT, v: V{o: cell}}}
	}
	cell := &V{o: &Agg{f: []V{msg}}}
	return V{o: &Iface{t: ex.eng.errorStringT, v: V{o: cell}}}
}

func (ex *Exec) unwrap(err V) []V {
	ifc, _ := err.o.(*Iface)
	if ifc == nil {
		return nil
	}
	f := ex.eng.methodByName(ifc.t, "Unwrap")
	if f == nil {
		return nil
	}
	r := ex.call(f, []V{ifc.v}, nil, nil)
	if s, ok := r.o.(*Slice); ok {
		return append([]V(nil), s.a...)
	}
	if r.o == nil {
		return nil
	}
	return []V{r}
}

func (ex *Exec) errorsAs(err, target V) V {
	ti, _ := target.o.(*Iface)
	if ti == nil {
		ex.rtPanic("errors: target cannot be nil")
	}
	et := deref(ti.t.t)
	cell := ex.ptr(ti.v)
	var walk func(e V) bool
	walk = func(e V) bool {
		ifc, _ := e.o.(*Iface)
		if ifc == nil {
			return false
		}
		if it, ok := et.Underlying().(*types.Interface); ok {
			if ex.eng.implements(ifc.t, it) {
				storeInto(cell, e)
				return true
			}
		} else if types.Identical(ifc.t.t, et) {
			storeInto(cell, ifc.v)
			return true
		}
		if f := ex.eng.methodByName(ifc.t, "As"); f != nil {
			if ex.decideV(ex.call(f, []V{ifc.v, target}, nil, nil)) {
				return true
			}
		}
		for _, u := range ex.unwrap(e) {
			if walk(u) {
				return true
			}
		}
		return false
	}
	return V{n: b2u(walk(err))}
}

func (ex *Exec) errorsIs(err, target V) V {
	var walk func(e V) bool
	walk = func(e V) bool {
		ifc, _ := e.o.(*Iface)
		if ifc == nil {
			return target.o == nil && e.o == nil
		}
		if ex.decideV(ex.equal(e, target)) {
			return true
		}
		for _, u := range ex.unwrap(e) {
			if walk(u) {
				return true
			}
		}
		return false
	}
	return V{n: b2u(walk(err))}
}

func reflectIsNil(ex *Exec, a []V) V {
	ifc, _ := a[0].o.(*Agg).f[0].o.(*Iface)
	if ifc == nil {
		panic(&goPanic{msg: "reflect: call of reflect.Value.IsNil on zero Value", v: cstr("reflect")})
	}
	switch ifc.t.t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Chan, *types.Interface:
		return V{n: b2u(ifc.v.o == nil)}
	}
	panic(&goPanic{msg: "reflect: call of reflect.Value.IsNil on " + ifc.t.t.String() + " Value", v: cstr("reflect")})
}

func reflectKind(ex *Exec, a []V) V {
	ifc, _ := a[0].o.(*Agg).f[0].o.(*Iface)
	if ifc == nil {
		return V{}
	}
	switch t := ifc.t.t.Underlying().(type) {
	case *types.Pointer:
		return V{n: uint64(reflect.Pointer)}
	case *types.Struct:
		return V{n: uint64(reflect.Struct)}
	case *types.Slice:
		return V{n: uint64(reflect.Slice)}
	case *types.Map:
		return V{n: uint64(reflect.Map)}
	case *types.Signature:
		return V{n: uint64(reflect.Func)}
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.String: reflect.String, types.Uint8: reflect.Uint8, types.Int64: reflect.Int64, types.Int32: reflect.Int32}
		if k, ok := m[t.Kind()]; ok {
			return V{n: uint64(k)}
		}
	}
	ex.unsupported("reflect kind")
	return V{}
}

type onceDone struct{}

func syncOnce(ex *Exec, a []V) V {
	cell := ex.ptr(a[0])
	ag := cell.o.(*Agg)
	if _, ok := ag.f[len(ag.f)-1].o.(*onceDone); ok {
		return V{}
	}
	cl, _ := a[1].o.(*Closure)
	// mark done afterwards, as sync does
	if cl != nil {
		ex.callClosure(cl, nil, nil)
	}
	ag.f[len(ag.f)-1] = V{o: &onceDone{}}
	return V{}
}

func poolField(ex *Exec, v V) (*Agg, *V, *V) {
	ag := ex.ptr(v).o.(*Agg)
	return ag, &ag.f[len(ag.f)-1], &ag.f[len(ag.f)-2]
}

func syncPoolGet(ex *Exec, a []V) V {
	_, nw, st := poolField(ex, a[0])
	if s, ok := st.o.(*Slice); ok && len(s.a) > 0 {
		v := s.a[len(s.a)-1]
		st.o = &Slice{a: s.a[:len(s.a)-1]}
		return v
	}
	if cl, ok := nw.o.(*Closure); ok {
		return ex.callClosure(cl, nil, nil)
	}
	return V{}
}

func syncPoolPut(ex *Exec, a []V) V {
	_, _, st := poolField(ex, a[0])
	s, _ := st.o.(*Slice)
	var arr []V
	if s != nil {
		arr = s.a
	}
	st.o = &Slice{a: append(arr[:len(arr):len(arr)], a[1])}
	return V{}
}

var _ *ssa.Function
