package parser

// Harness primitives. The solver engine interprets calls to these functions
// symbolically and never runs their bodies; the bodies below serve the native
// replay of concrete inputs.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
)

type verifState struct {
	Fails   []string `json:"fails"`
	Obs     [][]byte `json:"obs"`
	Panic   string   `json:"panic"`
	Assumed bool     `json:"assumed"`
	total   bool
	diff    string
	variant string
	quiet   bool
}

type verifStop struct{}

var verifCur *verifState

func verifAssert(c bool, msg string) {
	if !c {
		if verifCur.diff != "" {
			kind, detail, _ := strings.Cut(msg, "\n")
			msg = kind + " [" + verifCur.diff + "]\n" + detail
			verifCur.diff = ""
		}
		verifCur.Fails = append(verifCur.Fails, msg+verifCur.variant)
		panic(verifStop{})
	}
}

// verifTry runs f(in). A failure inside ends f, not the harness.
func verifTry(f func(string), in string) {
	verifCur.variant, verifCur.quiet = "\nVARIANT "+in, true
	defer func() {
		verifCur.variant, verifCur.quiet = "", false
		if r := recover(); r != nil {
			if _, ok := r.(verifStop); !ok {
				verifCur.variant = verifWhere() + "\nVARIANT " + in
				panic(r)
			}
		}
	}()
	f(in)
}

// verifConc gives in with every byte the path determines made constant.
func verifConc(in string) string { return in }

// verifSeen reports whether the harness has run on in on another path.
func verifSeen(in string) bool { return false }

// verifCheck records a failure and goes on.
func verifCheck(c bool, msg string) {
	if c {
		return
	}
	kind, _, _ := strings.Cut(msg, "\n")
	for _, f := range verifCur.Fails {
		if f == msg || strings.HasPrefix(f, kind+"\n") {
			return
		}
	}
	verifCur.Fails = append(verifCur.Fails, msg+verifCur.variant)
}

func verifFail(msg string) { verifAssert(false, msg) }

func verifAssume(c bool) {
	if !c {
		verifCur.Assumed = true
		panic(verifStop{})
	}
}

func verifObserve(s string) {
	if !verifCur.quiet {
		verifCur.Obs = append(verifCur.Obs, []byte(s))
	}
}

// verifTotal declares that the rest of the harness must not panic.
func verifTotal() { verifCur.total = true }

func verifMapOrder(rev bool) {}

func verifSteps() int { return 0 }

func verifTypeName(x any) string {
	if x == nil {
		return "<nil>"
	}
	return reflect.TypeOf(x).String()
}

func verifIsNil(x any) bool { return x == nil || reflect.ValueOf(x).IsNil() }

const (
	verifNoPos    = 1 // ignore source positions
	verifNilEmpty = 2 // a nil and an empty slice are the same
	verifFold     = 4 // ignore letter case, except in names and literals
	verifFoldAll  = 8 // ignore letter case everywhere
)

func verifSame(a, b any, mode int) bool {
	verifCur.diff = ""
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if !x.IsValid() || !y.IsValid() {
		return x.IsValid() == y.IsValid()
	}
	d := verifDiffV(x, y, mode, typeLabel(x))
	verifCur.diff = d
	return d == ""
}

func typeLabel(x reflect.Value) string {
	if x.Kind() == reflect.Ptr {
		return x.Type().Elem().Name()
	}
	return x.Type().Name()
}

func verifDiffV(a, b reflect.Value, mode int, path string) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %s vs %s", path, a.Type(), b.Type())
	}
	if mode&verifNoPos != 0 && a.Type() == reflect.TypeOf(Pos(0)) {
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() == b.IsNil() {
				return ""
			}
			return fmt.Sprintf("%s: nil %v vs nil %v", path, a.IsNil(), b.IsNil())
		}
		if a.Pointer() == b.Pointer() {
			return ""
		}
		return verifDiffV(a.Elem(), b.Elem(), mode, path)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() == b.IsNil() {
				return ""
			}
			return fmt.Sprintf("%s: nil %v vs nil %v", path, a.IsNil(), b.IsNil())
		}
		if a.Elem().Type() != b.Elem().Type() {
			return fmt.Sprintf("%s: %s vs %s", path, a.Elem().Type(), b.Elem().Type())
		}
		return verifDiffV(a.Elem(), b.Elem(), mode, path+"("+typeLabel(a.Elem())+")")
	case reflect.Struct:
		switch a.Type().Name() {
		case "Ident", "StringLiteral", "NumberLiteral":
			mode &^= verifFold
		}
		for i := 0; i < a.NumField(); i++ {
			if d := verifDiffV(a.Field(i), b.Field(i), mode, path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if d := verifDiffV(a.Index(i), b.Index(i), mode, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if mode&verifNilEmpty == 0 && a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil slice %v vs %v", path, a.IsNil(), b.IsNil())
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d vs %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := verifDiffV(a.Index(i), b.Index(i), mode, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d vs %d", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("%s: key %v", path, k)
			}
			if d := verifDiffV(a.MapIndex(k), y, mode, fmt.Sprintf("%s[%v]", path, k)); d != "" {
				return d
			}
		}
		return ""
	case reflect.String:
		if a.String() != b.String() && (mode&(verifFold|verifFoldAll) == 0 || !strings.EqualFold(a.String(), b.String())) {
			return fmt.Sprintf("%s: %q vs %q", path, a.String(), b.String())
		}
		return ""
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Bool(), b.Bool())
		}
		return ""
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %d vs %d", path, a.Int(), b.Int())
		}
		return ""
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %d vs %d", path, a.Uint(), b.Uint())
		}
		return ""
	case reflect.Func:
		if a.IsNil() != b.IsNil() {
			return path + ": func"
		}
		return ""
	}
	return path + ": cannot compare " + a.Kind().String()
}

// verifCopy makes a deep copy.
func verifCopy(x any) any {
	if x == nil {
		return nil
	}
	return verifCopyV(reflect.ValueOf(x), map[uintptr]reflect.Value{}).Interface()
}

func verifCopyV(v reflect.Value, seen map[uintptr]reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		if c, ok := seen[v.Pointer()]; ok && c.Type() == v.Type() {
			return c
		}
		n := reflect.New(v.Type().Elem())
		seen[v.Pointer()] = n
		n.Elem().Set(verifCopyV(v.Elem(), seen))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(verifCopyV(v.Elem(), seen))
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(verifCopyV(v.Field(i), seen))
			}
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(verifCopyV(v.Index(i), seen))
		}
		return n
	}
	return v
}

// verifNodes lists every AST node reachable from root, parents before
// children, in field declaration order.
func verifNodes(root any) []Expr {
	var out []Expr
	if root != nil {
		verifNodesV(reflect.ValueOf(root), &out, map[verifPtr]bool{}, -1, nil)
	}
	return out
}

// verifParents gives, for each of verifNodes, the index of the node it hangs
// from, and -1 for the root.
func verifParents(root any) []int {
	var out []Expr
	var par []int
	if root != nil {
		verifNodesV(reflect.ValueOf(root), &out, map[verifPtr]bool{}, -1, &par)
	}
	return par
}

type verifPtr struct {
	t reflect.Type
	p uintptr
}

func verifNodesV(v reflect.Value, out *[]Expr, seen map[verifPtr]bool, parent int, par *[]int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		k := verifPtr{v.Type(), v.Pointer()}
		if seen[k] {
			return
		}
		seen[k] = true
		if v.Type().Elem().Kind() == reflect.Struct && v.Type().Implements(reflect.TypeOf((*Expr)(nil)).Elem()) && v.CanInterface() {
			if par != nil {
				*par = append(*par, parent)
			}
			parent = len(*out)
			*out = append(*out, v.Interface().(Expr))
		}
		verifNodesV(v.Elem(), out, seen, parent, par)
	case reflect.Interface:
		if !v.IsNil() {
			verifNodesV(v.Elem(), out, seen, parent, par)
		}
	case reflect.Struct:
		if v.CanAddr() {
			// a node held by value
			if a := v.Addr(); a.Type().Implements(reflect.TypeOf((*Expr)(nil)).Elem()) && a.CanInterface() {
				k := verifPtr{a.Type(), a.Pointer()}
				if !seen[k] {
					seen[k] = true
					if par != nil {
						*par = append(*par, parent)
					}
					parent = len(*out)
					*out = append(*out, a.Interface().(Expr))
				}
			}
		}
		for i := 0; i < v.NumField(); i++ {
			verifNodesV(v.Field(i), out, seen, parent, par)
		}
	case reflect.Slice, reflect.Array:
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				verifNodesV(v.Index(i), out, seen, parent, par)
			}
		}
	}
}

// verifWhere names the function of the package that panicked.
func verifWhere() string {
	pc := make([]uintptr, 64)
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	seen := false
	for {
		f, more := fr.Next()
		if f.Function == "runtime.gopanic" {
			seen = true
		} else if seen && strings.Contains(f.Function, "/parser.") {
			return " in " + f.Function[strings.LastIndex(f.Function, "/")+1:]
		}
		if !more {
			return ""
		}
	}
}

func verifRun(h string, in string) (st *verifState) {
	st = &verifState{}
	verifCur = st
	f := verifHarnesses[h]
	if f == nil {
		st.Fails = append(st.Fails, "no harness "+h)
		return st
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(verifStop); ok {
				return
			}
			st.Panic = fmt.Sprint(r)
			if st.total {
				st.Fails = append(st.Fails, "panic: "+st.Panic+verifWhere()+st.variant)
			}
		}
	}()
	f(in)
	return st
}

// VerifServe answers replay requests on standard input.
func VerifServe() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) == 3 {
		st := verifRun(os.Args[1], os.Args[2])
		b, _ := json.MarshalIndent(st, "", " ")
		fmt.Println(string(b))
		for _, o := range st.Obs {
			fmt.Printf("observed %q\n", o)
		}
		return
	}
	sc := bufio.NewReaderSize(os.Stdin, 1<<16)
	w := bufio.NewWriter(os.Stdout)
	for {
		line, err := sc.ReadBytes('\n')
		if err != nil {
			return
		}
		var req struct {
			H  string `json:"h"`
			In []byte `json:"in"`
		}
		if json.Unmarshal(line, &req) != nil {
			return
		}
		b, _ := json.Marshal(verifRun(req.H, string(req.In)))
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}
