package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Solver drives one SMT solver process over a pipe.
type Solver struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	eng *Engine

	cache   map[string]queryRes
	pending []string // domain-emptiness obligations awaiting confirmation
	pendKey map[string]bool
}

type queryRes struct {
	sat  int // 1 sat, 0 unsat, -1 unknown
	vals []int
}

type solverStats struct {
	queries  atomic.Int64
	cached   atomic.Int64
	sat      atomic.Int64
	unsat    atomic.Int64
	unknown  atomic.Int64
	ns       atomic.Int64
	domObl   atomic.Int64 // distinct domain-emptiness obligations
	domBatch atomic.Int64
	asserts  atomic.Int64 // assertion queries (path condition and not property)
	assertT  atomic.Int64 // assertions that folded to true before reaching the solver
	errors   atomic.Int64
}

// shared across workers: emptiness obligations already confirmed
var domSeen sync.Map

func newSolver(eng *Engine) *Solver {
	s := &Solver{eng: eng, cache: map[string]queryRes{}, pendKey: map[string]bool{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.eng.solverBin, s.eng.solverArgs...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	io.WriteString(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
}

func (s *Solver) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// raw sends one self-contained query and returns sat and the values asked for.
func (s *Solver) raw(decls []string, asserts []string, names []string) queryRes {
	st := &s.eng.sstats
	t0 := time.Now()
	defer func() { st.ns.Add(int64(time.Since(t0))) }()
	st.queries.Add(1)
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	for _, d := range decls {
		sb.WriteString(d)
		sb.WriteByte('\n')
	}
	for _, a := range asserts {
		sb.WriteString("(assert ")
		sb.WriteString(a)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	if s.eng.dumpQueries != nil {
		s.eng.dumpQueries(sb.String())
	}
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return s.broken()
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		return s.broken()
	}
	line = strings.TrimSpace(line)
	res := queryRes{sat: -1}
	switch line {
	case "sat":
		res.sat = 1
		st.sat.Add(1)
		if len(names) > 0 {
			io.WriteString(s.in, "(get-value ("+strings.Join(names, " ")+"))\n")
			txt, ok := s.readSexp()
			if !ok {
				return s.broken()
			}
			res.vals = make([]int, len(names))
			for i, nm := range names {
				p := strings.Index(txt, "("+nm+" ")
				if p < 0 {
					res.sat = -1
					break
				}
				t := txt[p+len(nm)+2:]
				res.vals[i] = parseBV(t)
			}
		}
	case "unsat":
		res.sat = 0
		st.unsat.Add(1)
	default:
		st.unknown.Add(1)
		if strings.Contains(line, "error") {
			st.errors.Add(1)
			s.eng.logf("solver said %q", line)
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	return res
}

func parseBV(t string) int {
	switch {
	case strings.HasPrefix(t, "#x"):
		j := 2
		for j < len(t) && t[j] != ')' && t[j] != ' ' {
			j++
		}
		v, _ := strconv.ParseUint(t[2:j], 16, 64)
		return int(v)
	case strings.HasPrefix(t, "#b"):
		j := 2
		for j < len(t) && (t[j] == '0' || t[j] == '1') {
			j++
		}
		v, _ := strconv.ParseUint(t[2:j], 2, 64)
		return int(v)
	case strings.HasPrefix(t, "(_ bv"):
		j := 5
		for j < len(t) && t[j] >= '0' && t[j] <= '9' {
			j++
		}
		v, _ := strconv.Atoi(t[5:j])
		return v
	}
	return 0
}

func (s *Solver) readSexp() (string, bool) {
	depth := 0
	var sb strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", false
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
		}
		if c == '\n' {
			c = ' '
		}
		sb.WriteByte(c)
		if depth == 0 && strings.TrimSpace(sb.String()) != "" {
			s.out.ReadString('\n')
			return sb.String(), true
		}
	}
}

func (s *Solver) broken() queryRes {
	s.eng.sstats.errors.Add(1)
	s.eng.sstats.unknown.Add(1)
	s.close()
	s.start()
	return queryRes{sat: -1}
}

// check decides the conjunction of cons together with the domains of every
// variable involved. On sat the model maps variables to values.
func (s *Solver) check(cons []*Expr, dom func(*Var) []uint64) (int, map[*Var]int) {
	vs := unionVars(cons)
	name := map[*Var]string{}
	for i, v := range vs {
		name[v] = "x" + strconv.Itoa(i)
	}
	nm := func(v *Var) string { return name[v] }
	var asserts []string
	for _, v := range vs {
		if m := smtMember(name[v], v, dom(v)); m != "true" || v.d != 1<<v.width() {
			if m == "true" {
				m = fmt.Sprintf("(bvule %s (_ bv%d %d))", name[v], v.d-1, v.width())
			}
			asserts = append(asserts, m)
		}
	}
	body := make([]string, len(cons))
	for i, c := range cons {
		body[i] = c.smtStr(nm)
	}
	sort.Strings(body)
	asserts = append(asserts, body...)
	key := strings.Join(asserts, "\n")
	var wk strings.Builder
	for _, v := range vs {
		wk.WriteString(strconv.Itoa(v.width()))
		wk.WriteByte(',')
	}
	key = wk.String() + key
	r, ok := s.cache[key]
	if ok {
		s.eng.sstats.cached.Add(1)
	} else {
		decls := make([]string, len(vs))
		names := make([]string, len(vs))
		for i, v := range vs {
			names[i] = name[v]
			decls[i] = fmt.Sprintf("(declare-const %s (_ BitVec %d))", name[v], v.width())
		}
		r = s.raw(decls, asserts, names)
		if r.sat >= 0 {
			s.cache[key] = r
		}
	}
	if r.sat != 1 {
		return r.sat, nil
	}
	m := map[*Var]int{}
	for i, v := range vs {
		m[v] = r.vals[i]
	}
	return 1, m
}

// confirmEmpty registers the verdict "no value of v's domain satisfies bits"
// for confirmation by the solver. Distinct obligations are batched.
func (s *Solver) confirmEmpty(v *Var, dom, cond []uint64) {
	var kb strings.Builder
	kb.WriteString(strconv.Itoa(v.d))
	for _, w := range dom {
		kb.WriteByte('.')
		kb.WriteString(strconv.FormatUint(w, 36))
	}
	kb.WriteByte('/')
	for _, w := range cond {
		kb.WriteByte('.')
		kb.WriteString(strconv.FormatUint(w, 36))
	}
	key := kb.String()
	if s.pendKey[key] {
		return
	}
	s.pendKey[key] = true
	if _, dup := domSeen.LoadOrStore(key, true); dup {
		return
	}
	s.eng.sstats.domObl.Add(1)
	n := "d" + strconv.Itoa(len(s.pending))
	w := v.width()
	s.pending = append(s.pending, fmt.Sprintf("(declare-const %s (_ BitVec %d))\n(and %s %s)", n, w, smtMember(n, v, dom), smtMember(n, v, cond)))
	if len(s.pending) >= 256 {
		s.flush()
	}
}

func (s *Solver) flush() {
	if len(s.pending) == 0 {
		return
	}
	var decls, parts []string
	for _, p := range s.pending {
		i := strings.IndexByte(p, '\n')
		decls = append(decls, p[:i])
		parts = append(parts, p[i+1:])
	}
	parts = append(parts, "false")
	s.pending = s.pending[:0]
	s.eng.sstats.domBatch.Add(1)
	r := s.raw(decls, []string{"(or " + strings.Join(parts, " ") + ")"}, nil)
	if r.sat != 0 {
		s.eng.engineErr("solver does not confirm a batch of domain verdicts (%d)", r.sat)
	}
}
