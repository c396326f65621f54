package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the program under test in SSA form and everything shared by
// the workers.
type Engine struct {
	repo, verif string
	targetPath  string
	solverBin   string
	solverArgs  []string

	prog   *ssa.Program
	target *ssa.Package
	fset   *token.FileSet

	fns     sync.Map
	gmu     sync.RWMutex
	gidx    map[*ssa.Global]int
	glist   []*ssa.Global
	covMu   sync.Mutex
	covPos  []covBlock
	implMu  sync.RWMutex
	implMap map[implKey]bool

	decodeFn     *Fn
	errorStringT *RType
	wrapErrorT   *RType
	exprIface    *types.Interface

	known []*Known

	keywordList []string
	tokenList   []string

	maxSteps  int64
	seenTexts sync.Map // texts a harness has run on
	maxDepth  int
	sstats    solverStats

	dumpQueries func(string)
	verbose     bool
	logMu       sync.Mutex
	engErrs     atomic.Int64
	errSeen     map[string]int
}

type covBlock struct {
	fn  string
	pos token.Position
}

type implKey struct {
	t  *RType
	it *types.Interface
}

func (e *Engine) logf(f string, a ...any) {
	e.logMu.Lock()
	defer e.logMu.Unlock()
	fmt.Fprintf(os.Stderr, f+"\n", a...)
}

// engineErr records a defect of the engine itself: never an alarm.
func (e *Engine) engineErr(f string, a ...any) {
	e.engErrs.Add(1)
	m := fmt.Sprintf(f, a...)
	e.logMu.Lock()
	e.errSeen[m]++
	n := e.errSeen[m]
	e.logMu.Unlock()
	if n == 1 && len(e.errSeen) < 40 {
		e.logf("engine: %s", m)
	}
}

func (e *Engine) load() error {
	e.gidx = map[*ssa.Global]int{}
	e.implMap = map[implKey]bool{}
	e.errSeen = map[string]int{}
	overlay := map[string][]byte{}
	for _, f := range e.harnessFiles() {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		overlay[filepath.Join(e.repo, "parser", filepath.Base(f))] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo |
			packages.NeedImports | packages.NeedDeps | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     e.repo,
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, "./parser")
	if err != nil {
		return err
	}
	if len(pkgs) != 1 {
		return fmt.Errorf("loaded %d packages", len(pkgs))
	}
	if len(pkgs[0].Errors) > 0 {
		return fmt.Errorf("package does not type-check: %v", pkgs[0].Errors[0])
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e.prog, e.target = prog, sp[0]
	e.targetPath = sp[0].Pkg.Path()
	e.fset = prog.Fset
	if o, ok := e.target.Pkg.Scope().Lookup("Expr").(*types.TypeName); ok {
		e.exprIface, _ = o.Type().Underlying().(*types.Interface)
	}
	for _, p := range prog.AllPackages() {
		switch p.Pkg.Path() {
		case "errors":
			if t := p.Type("errorString"); t != nil {
				e.errorStringT = rtypeOf(types.NewPointer(t.Type()))
			}
		case "fmt":
			if t := p.Type("wrapError"); t != nil {
				e.wrapErrorT = rtypeOf(types.NewPointer(t.Type()))
			}
		case "unicode/utf8":
			if f := p.Func("DecodeRuneInString"); f != nil {
				fn := &Fn{name: "unicode/utf8.DecodeRuneInString(src)", ssa: f, nparams: 1, retType: f.Signature.Results(), nres: 2, pkg: p}
				c := &compiler{e: e, fn: fn, f: f, regs: map[ssa.Value]int{}}
				c.run()
				e.decodeFn = fn
			}
		}
	}
	return nil
}

func (e *Engine) globalIndex(g *ssa.Global) int {
	e.gmu.Lock()
	defer e.gmu.Unlock()
	if i, ok := e.gidx[g]; ok {
		return i
	}
	i := len(e.glist)
	e.gidx[g] = i
	e.glist = append(e.glist, g)
	return i
}

func (e *Engine) globalAt(i int) *ssa.Global {
	e.gmu.RLock()
	defer e.gmu.RUnlock()
	return e.glist[i]
}

func (e *Engine) covIndex(f *ssa.Function, b *ssa.BasicBlock) int {
	e.covMu.Lock()
	defer e.covMu.Unlock()
	var pos token.Position
	for _, in := range b.Instrs {
		if p := in.Pos(); p.IsValid() {
			pos = e.fset.Position(p)
			break
		}
	}
	if !pos.IsValid() {
		pos = e.fset.Position(f.Pos())
	}
	e.covPos = append(e.covPos, covBlock{fnName(f), pos})
	return len(e.covPos) - 1
}

func (e *Engine) implements(t *RType, it *types.Interface) bool {
	if it.Empty() {
		return true
	}
	k := implKey{t, it}
	e.implMu.RLock()
	r, ok := e.implMap[k]
	e.implMu.RUnlock()
	if ok {
		return r
	}
	r = types.Implements(t.t, it)
	e.implMu.Lock()
	e.implMap[k] = r
	e.implMu.Unlock()
	return r
}

func (e *Engine) method(t *RType, m *types.Func) *Fn {
	key := m.Id()
	t.mu.Lock()
	f, ok := t.ms[key]
	t.mu.Unlock()
	if ok {
		return f
	}
	sf := e.prog.LookupMethod(t.t, m.Pkg(), m.Name())
	if sf == nil {
		panic(&pathEnd{endUnsupported, "method " + m.Name() + " of " + t.t.String()})
	}
	f = e.fn(sf)
	t.mu.Lock()
	t.ms[key] = f
	t.mu.Unlock()
	return f
}

// methodByName finds an exported method, or nil.
func (e *Engine) methodByName(t *RType, name string) *Fn {
	t.mu.Lock()
	f, ok := t.ms["."+name]
	t.mu.Unlock()
	if ok {
		return f
	}
	if sel := e.prog.MethodSets.MethodSet(t.t).Lookup(nil, name); sel != nil {
		if sf := e.prog.MethodValue(sel); sf != nil {
			f = e.fn(sf)
		}
	}
	t.mu.Lock()
	t.ms["."+name] = f
	t.mu.Unlock()
	return f
}

// precompileCoverage compiles every function of the target so that the
// coverage denominator covers the whole package.
func (e *Engine) precompile() {
	for f := range ssautil.AllFunctions(e.prog) {
		if f.Pkg == e.target && f.Blocks != nil {
			e.fn(f)
		}
	}
}

// ---- running ----

type Violation struct {
	prop, harness, tmpl, input, msg string
	viaSolver                       bool
	count                           int
	known                           *Known
}

// Run explores a set of jobs.
type Run struct {
	e        *Engine
	native   string
	workers  int
	deadline time.Time
	maxViol  int

	mu    sync.Mutex
	cond  *sync.Cond
	stack []item
	busy  int
	stop  bool

	paths, steps, decisions, asserts atomic.Int64
	forks                            atomic.Int64
	endCount                         [8]atomic.Int64
	unknown                          atomic.Int64
	replays, mismatches, unconfirmed atomic.Int64
	viol                             []*Violation
	violSeen                         map[string]*Violation
	unsup                            map[string]int
	cov                              []bool
	samples                          []map[string]any
	truncated                        bool
	maxPathsPerJob                   int
	fresh                            int
	onPanic                          func(j *Job, in string, gp *goPanic)
	onPath                           func(j *Job, input string, ex *Exec, end *pathEnd, res *NativeRes)
	nativeMissing                    bool
	fnsExecuted                      int
}

func (r *Run) push(its []item) {
	r.mu.Lock()
	for _, it := range its {
		it.job.pending++
	}
	r.stack = append(r.stack, its...)
	r.mu.Unlock()
	r.cond.Broadcast()
}

func (r *Run) pop() (item, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return item{}, false
		}
		if len(r.stack) > 0 {
			it := r.stack[len(r.stack)-1]
			r.stack = r.stack[:len(r.stack)-1]
			r.busy++
			return it, true
		}
		if r.busy == 0 {
			r.cond.Broadcast()
			return item{}, false
		}
		r.cond.Wait()
	}
}

func (r *Run) run(jobs []*Job) {
	r.cond = sync.NewCond(&r.mu)
	r.violSeen = map[string]*Violation{}
	r.unsup = map[string]int{}
	for i := len(jobs) - 1; i >= 0; i-- {
		j := jobs[i]
		j.pending = 1
		r.stack = append(r.stack, item{j, make([]uint16, len(j.vars)), 0})
	}
	var wg sync.WaitGroup
	for w := 0; w < r.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.worker()
		}()
	}
	done := make(chan bool)
	go func() {
		t := time.NewTicker(100 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				if time.Now().After(r.deadline) {
					r.mu.Lock()
					if !r.stop {
						r.stop = true
						r.truncated = true
					}
					r.mu.Unlock()
					r.cond.Broadcast()
				}
			}
		}
	}()
	wg.Wait()
	close(done)
}

func (r *Run) worker() {
	ex := newExec(r.e)
	ex.cov = make([]bool, len(r.e.covPos)+4096)
	nat := &Native{bin: r.native}
	defer nat.stop()
	defer ex.solver.close()
	for {
		it, ok := r.pop()
		if !ok {
			break
		}
		r.one(ex, nat, it)
		r.mu.Lock()
		r.busy--
		it.job.pending--
		if it.job.pending == 0 {
			it.job.done = true
		}
		r.mu.Unlock()
		r.cond.Broadcast()
	}
	ex.solver.flush()
	r.mu.Lock()
	for len(r.cov) < len(ex.cov) {
		r.cov = append(r.cov, false)
	}
	for i, c := range ex.cov {
		if c {
			r.cov[i] = true
		}
	}
	r.mu.Unlock()
}

// explore runs one path to its end.
func (ex *Exec) explore(it item) (end *pathEnd, gp *goPanic) {
	j := it.job
	if ex.job != j {
		ex.job = j
		if len(ex.tabMemo) > 20000 {
			ex.tabMemo = map[tabKey]*Expr{}
			ex.pureMemo = map[pureKey]V{}
		}
		if len(ex.solver.cache) > 50000 {
			ex.solver.cache = map[string]queryRes{}
		}
	}
	ex.model, ex.bound, ex.dec = it.model, it.bound, 0
	ex.dom = make([][]uint64, len(j.vars))
	for i, v := range j.vars {
		ex.dom[i] = v.init
	}
	ex.ent = make([]bool, len(j.vars))
	ex.cons = ex.cons[:0]
	ex.pushed = ex.pushed[:0]
	ex.unknown = false
	ex.steps, ex.depth, ex.sp, ex.args = 0, 0, 0, ex.args[:0]
	ex.obs, ex.fails, ex.asserts, ex.mapRev, ex.total, ex.quiet = nil, nil, 0, false, false, false
	ex.trySteps = 0
	ex.sampleSat = nil
	end = &pathEnd{kind: endOK}
	defer func() {
		if x := recover(); x != nil {
			switch p := x.(type) {
			case *pathEnd:
				end = p
			case *goPanic:
				end, gp = &pathEnd{endPanic, p.msg}, p
			default:
				buf := make([]byte, 1<<13)
				buf = buf[:runtime.Stack(buf, false)]
				ex.eng.engineErr("crash: %v\n%s", x, buf)
				end = &pathEnd{endUnsupported, "engine crash"}
			}
		}
	}()
	ex.resetTarget()
	ex.steps = 0
	f := ex.eng.target.Func("h" + j.harness)
	if f == nil {
		ex.unsupported("no harness " + j.harness)
	}
	ex.call(ex.eng.fn(f), []V{j.input}, nil, nil)
	return
}

func (r *Run) one(ex *Exec, nat *Native, it item) {
	j := it.job
	end, gp := ex.explore(it)
	if len(ex.pushed) > 0 {
		r.forks.Add(int64(len(ex.pushed)))
		trunc := false
		if r.maxPathsPerJob > 0 {
			r.mu.Lock()
			trunc = j.paths > r.maxPathsPerJob
			if trunc {
				j.incomplete += len(ex.pushed)
			}
			r.mu.Unlock()
		}
		if !trunc {
			r.push(append([]item(nil), ex.pushed...))
		}
	}
	r.steps.Add(ex.steps + ex.trySteps)
	r.decisions.Add(int64(ex.dec))
	r.asserts.Add(int64(ex.asserts))
	r.endCount[end.kind].Add(1)
	if ex.unknown {
		r.unknown.Add(1)
	}
	r.mu.Lock()
	if end.kind != endAssume {
		j.paths++
	}
	if end.kind == endUnsupported {
		r.unsup[end.msg]++
		j.incomplete++
	}
	r.mu.Unlock()
	if end.kind == endAssume {
		return
	}
	r.paths.Add(1)
	input := ex.underModel(j.input, ex.model)

	// candidates found by the solver are replayed on the real code
	for _, s := range ex.sampleSat {
		if sameModel(s.model, ex.model) {
			continue // the replay below shows it
		}
		in := ex.underModel(j.input, s.model)
		res := nat.run(j.harness, in, 20*time.Second)
		if len(res.Fails) == 0 && !res.crash && !res.timedOut {
			r.unconfirmed.Add(1)
			r.e.engineErr("not reproduced: %s %s on %q (%s)", j.harness, s.msg, in, j.tmpl.text)
			continue
		}
		r.reportAll(j, in, res, s.msg, true)
	}
	// every path's model is replayed: the engine and the compiled code have to
	// agree on everything the harness observes
	tmo := 10 * time.Second
	res := nat.run(j.harness, input, tmo)
	r.replays.Add(1)
	if res.timedOut || res.crash {
		// the process is retried alone before it counts
		res = nat.run(j.harness, input, 20*time.Second)
	}
	switch {
	case res.timedOut:
		r.report(j, input, "does not terminate", end.kind == endSteps)
	case res.crash:
		r.report(j, input, "crashes the process: "+res.Panic, end.kind == endDepth)
	case len(res.Fails) > 0:
		r.reportAll(j, input, res, "", end.kind == endViolated || end.kind == endPanic || len(ex.sampleSat) > 0)
	default:
		for _, s := range ex.sampleSat {
			if sameModel(s.model, ex.model) {
				r.unconfirmed.Add(1)
				r.e.engineErr("not reproduced: %s %s on %q (%s)", j.harness, s.msg, input, j.tmpl.text)
				break
			}
		}
		if end.kind == endOK || end.kind == endPanic {
			r.compare(ex, j, input, end, gp, &res)
		}
	}
	if r.onPath != nil {
		r.onPath(j, input, ex, end, &res)
	}
	if len(r.samples) < 12 || j.paths == 1 {
		r.mu.Lock()
		if len(r.samples) < 40 {
			r.samples = append(r.samples, map[string]any{"harness": j.harness, "template": j.tmpl.text, "input": input, "decisions": ex.dec, "steps": ex.steps, "assertions": ex.asserts})
		}
		r.mu.Unlock()
	}
}

func sameModel(a, b []uint16) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// reportAll reports every failure of one replay.
func (r *Run) reportAll(j *Job, in string, res NativeRes, def string, viaSolver bool) {
	if len(res.Fails) == 0 {
		r.report(j, in, failMsg(res, def), viaSolver)
	}
	for _, f := range res.Fails {
		r.report(j, in, f, viaSolver)
	}
}

func failMsg(res NativeRes, def string) string {
	if len(res.Fails) > 0 {
		return strings.Join(res.Fails, "; ")
	}
	if res.timedOut {
		return "does not terminate"
	}
	if res.crash {
		return "crashes the process: " + res.Panic
	}
	return def
}

func (r *Run) compare(ex *Exec, j *Job, input string, end *pathEnd, gp *goPanic, res *NativeRes) {
	if (end.kind == endPanic) != (res.Panic != "") {
		r.mismatches.Add(1)
		m := ""
		if gp != nil {
			m = gp.msg + " in " + gp.pos
		}
		r.e.engineErr("mismatch: %s on %q: engine panic %q, real %q", j.harness, input, m, res.Panic)
		return
	}
	if end.kind == endPanic {
		if r.onPanic != nil {
			r.onPanic(j, input, gp)
		}
		return
	}
	if len(ex.obs) != len(res.Obs) {
		r.mismatches.Add(1)
		r.e.engineErr("mismatch: %s on %q: %d observations, real %d", j.harness, input, len(ex.obs), len(res.Obs))
		return
	}
	for i := range ex.obs {
		if s := ex.underModel(ex.obs[i], ex.model); s != string(res.Obs[i]) {
			r.mismatches.Add(1)
			r.e.engineErr("mismatch: %s on %q: observed %q, real %q", j.harness, input, s, res.Obs[i])
			return
		}
	}
}

func (r *Run) report(j *Job, input, msg string, viaSolver bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	kind, _, _ := strings.Cut(msg, "\n")
	text := input
	if _, v, ok := strings.Cut(msg, "\nVARIANT "); ok {
		text = v
	}
	known := r.e.knownFinding(j.prop, j.harness, kind, text)
	if known != nil {
		known.count++
		if known.count == 1 {
			known.example = text
			r.viol = append(r.viol, &Violation{prop: j.prop, harness: j.harness, tmpl: j.tmpl.text, input: input, msg: msg, viaSolver: viaSolver, count: 1, known: known})
		}
		return
	}
	key := j.harness + "\x00" + j.tmpl.text + "\x00" + kind
	if v := r.violSeen[key]; v != nil {
		v.count++
		return
	}
	v := &Violation{prop: j.prop, harness: j.harness, tmpl: j.tmpl.text, input: input, msg: msg, viaSolver: viaSolver, count: 1}
	r.violSeen[key] = v
	r.viol = append(r.viol, v)
	r.fresh++
	if r.maxViol > 0 && r.fresh >= r.maxViol {
		r.stop = true
		go r.cond.Broadcast()
	}
}

// uncovered lists target blocks no path reached.
func (r *Run) coverage() (hit, total int, miss []covBlock) {
	seen := map[string]bool{}
	for i, c := range r.e.covPos {
		if strings.HasPrefix(filepath.Base(c.pos.Filename), "zz_") {
			continue
		}
		total++
		if i < len(r.cov) && r.cov[i] {
			hit++
		} else {
			k := fmt.Sprintf("%s:%d", c.pos.Filename, c.pos.Line)
			if !seen[k] {
				seen[k] = true
				miss = append(miss, c)
			}
		}
	}
	sort.Slice(miss, func(i, k int) bool {
		if miss[i].pos.Filename != miss[k].pos.Filename {
			return miss[i].pos.Filename < miss[k].pos.Filename
		}
		return miss[i].pos.Line < miss[k].pos.Line
	})
	return
}
