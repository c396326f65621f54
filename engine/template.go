package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// A template describes a set of inputs: concrete text with symbolic holes.
//
//	{a|b|}   a symbolic choice, padded with blanks to one width
//	$i       any one-letter identifier        $d  any digit
//	$q       any byte at all                  $p  any printable ASCII byte
//	$w       any keyword                      $t  any token
//	$_       any separator (blanks, newlines, comments)
//	~abc~    letters of either case
//	<<K>>    the text of the macro K (a line "@let K text" before)
//	\        escapes the next character (\n is a newline, \t a tab)
type Template struct {
	text string
	set  string
	file string
	line int
}

type Job struct {
	id      int
	prop    string
	harness string
	tmpl    *Template
	input   V
	vars    []*Var
	param   int

	paths, incomplete int
	done              bool
	pending           int
}

var identBytes = func() (out []byte) {
	for c := 0; c < 256; c++ {
		b := byte(c)
		if b == '_' || 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z' {
			out = append(out, b)
		}
	}
	return
}()

func byteRange(lo, hi int) (out []byte) {
	for c := lo; c <= hi; c++ {
		out = append(out, byte(c))
	}
	return
}

var separators = []string{" ", "\t", "\n", "\r\n", "  ", "/**/", "/* x */", "-- y\n", "--\r\n", "\n\n\t", "\v", "\f", "/*'*/", "--'\n", "/*\"`*/"}

type builder struct {
	e    *Engine
	vars []*Var
	out  []V
}

func (b *builder) newVar(d int, name string) *Var {
	v := &Var{id: len(b.vars), d: d, name: name, init: fullSet(d)}
	b.vars = append(b.vars, v)
	return v
}

func (b *builder) byteVar(set []byte, name string) {
	v := b.newVar(len(set), name)
	b.out = append(b.out, fromE(tabE(v, 8, false, func(i int) uint64 { return uint64(set[i]) })))
}

// choice appends a choice among alternatives padded to equal width.
func (b *builder) choice(alts []string, name string) {
	if len(alts) == 1 {
		b.lit(alts[0])
		return
	}
	w := 0
	for _, a := range alts {
		w = max(w, len(a))
	}
	v := b.newVar(len(alts), name)
	for k := 0; k < w; k++ {
		same := true
		at := func(i int) byte {
			if k < len(alts[i]) {
				return alts[i][k]
			}
			return ' '
		}
		for i := range alts {
			if at(i) != at(0) {
				same = false
				break
			}
		}
		if same {
			b.out = append(b.out, V{n: uint64(at(0))})
			continue
		}
		b.out = append(b.out, V{o: tabE(v, 8, false, func(i int) uint64 { return uint64(at(i)) })})
	}
}

func (b *builder) lit(s string) {
	for i := 0; i < len(s); i++ {
		b.out = append(b.out, V{n: uint64(s[i])})
	}
}

// build turns template text into a symbolic string.
func (e *Engine) buildTemplate(text string) (V, []*Var, error) {
	b := &builder{e: e}
	for i := 0; i < len(text); {
		c := text[i]
		switch c {
		case '\\':
			if i+1 >= len(text) {
				return V{}, nil, fmt.Errorf("trailing backslash")
			}
			b.lit(unesc(text[i+1]))
			i += 2
		case '{':
			var alts []string
			var cur strings.Builder
			j := i + 1
			ok := false
			for j < len(text) {
				if text[j] == '\\' && j+1 < len(text) {
					cur.WriteString(unesc(text[j+1]))
					j += 2
					continue
				}
				if text[j] == '|' {
					alts = append(alts, cur.String())
					cur.Reset()
					j++
					continue
				}
				if text[j] == '}' {
					ok = true
					break
				}
				cur.WriteByte(text[j])
				j++
			}
			if !ok {
				return V{}, nil, fmt.Errorf("unclosed choice in %q", text)
			}
			alts = append(alts, cur.String())
			b.choice(alts, "choice")
			i = j + 1
		case '$':
			if i+1 >= len(text) {
				return V{}, nil, fmt.Errorf("trailing $")
			}
			switch text[i+1] {
			case 'i':
				b.byteVar(identBytes, "ident")
			case 'd':
				b.byteVar([]byte("0123456789"), "digit")
			case 'q':
				b.byteVar(byteRange(0, 255), "byte")
			case 'p':
				b.byteVar(byteRange(0x20, 0x7e), "print")
			case 'w':
				b.choice(e.keywordList, "keyword")
			case 't':
				b.choice(e.tokenList, "token")
			case '_':
				b.choice(separators, "sep")
			default:
				return V{}, nil, fmt.Errorf("unknown hole $%c in %q", text[i+1], text)
			}
			i += 2
		case '~':
			j := strings.IndexByte(text[i+1:], '~')
			if j < 0 {
				return V{}, nil, fmt.Errorf("unclosed ~ in %q", text)
			}
			for _, ch := range []byte(text[i+1 : i+1+j]) {
				lo, up := lowerB(ch), upperB(ch)
				if lo == up {
					b.lit(string(ch))
				} else {
					b.byteVar([]byte{up, lo}, "case")
				}
			}
			i += j + 2
		default:
			b.out = append(b.out, V{n: uint64(c)})
			i++
		}
	}
	return mkStr(b.out), b.vars, nil
}

func unesc(c byte) string {
	switch c {
	case 'n':
		return "\n"
	case 't':
		return "\t"
	case 'r':
		return "\r"
	case '0':
		return "\x00"
	}
	return string(c)
}

// loadTemplates reads every template file.
func loadTemplates(dir string) ([]*Template, error) {
	files, err := filepath.Glob(filepath.Join(dir, "*.tmpl"))
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	var out []*Template
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		set := strings.TrimSuffix(filepath.Base(f), ".tmpl")
		macros := map[string]string{}
		for n, line := range strings.Split(string(data), "\n") {
			line = strings.TrimRight(line, "\r")
			if strings.TrimSpace(line) == "" || strings.HasPrefix(line, "#") {
				continue
			}
			for k, v := range macros {
				line = strings.ReplaceAll(line, "<<"+k+">>", v)
			}
			if strings.HasPrefix(line, "@let ") {
				k, v, _ := strings.Cut(line[5:], " ")
				macros[k] = v
				continue
			}
			if strings.HasPrefix(line, "@set ") {
				set = strings.TrimSpace(line[5:])
				continue
			}
			out = append(out, &Template{text: line, set: set, file: filepath.Base(f), line: n + 1})
		}
	}
	return out, nil
}
