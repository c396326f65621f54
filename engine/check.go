package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Known is a genuine defect recorded in known_findings.json.
type Known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Message  string `json:"message"` // regular expression: first line of the failure
	Input    string `json:"input"`   // regular expression: the whole input
	What     string `json:"what"`

	msgRE, inRE *regexp.Regexp
	count       int
	example     string
}

type knownFile struct {
	Findings []*Known `json:"findings"`
	Fixed    []string `json:"fixed"`
}

func (e *Engine) loadKnown() error {
	b, err := os.ReadFile(filepath.Join(e.verif, "known_findings.json"))
	if err != nil {
		return err
	}
	var f knownFile
	if err := json.Unmarshal(b, &f); err != nil {
		return err
	}
	for _, k := range f.Findings {
		if k.msgRE, err = regexp.Compile("(?s)^(?:" + k.Message + ")$"); err != nil {
			return err
		}
		if k.inRE, err = regexp.Compile("(?is)^(?:" + k.Input + ")$"); err != nil {
			return err
		}
	}
	e.known = f.Findings
	return nil
}

// knownFinding returns the listed finding a failure belongs to, or nil.
func (e *Engine) knownFinding(prop, harness, kind, input string) *Known {
	base := harness // variants of a harness share its findings
	for _, v := range []string{"Short", "Swap", "Grow"} {
		base = strings.TrimSuffix(base, v)
	}
	for _, k := range e.known {
		if k.Property == prop && (k.Harness == "" || strings.Contains(" "+k.Harness+" ", " "+harness+" ") || strings.Contains(" "+k.Harness+" ", " "+base+" ")) && k.msgRE.MatchString(kind) && k.inRE.MatchString(input) {
			return k
		}
	}
	return nil
}

var keywords = strings.Fields(`ADD ADMIN AFTER ALIAS ALL ALTER AND ANTI ANY APPEND APPLY ARRAY AS ASC ASCENDING ASOF AST ASYNC ATTACH
BETWEEN BOTH BY CACHE CASE CAST CHECK CLEAR CLUSTER CODEC COLLATE COLLECTION COLUMN COLUMNS COMMENT COMPILED CONFIG CONSTRAINT CREATE
CROSS CUBE CURRENT DATABASE DATABASES DATE DAY DEDUPLICATE DEFAULT DELAY DELETE DEPENDS DESC DESCENDING DESCRIBE DETACH DETACHED
DICTIONARIES DICTIONARY DISK DISTINCT DISTRIBUTED DROP DNS ELSE EMBEDDED EMPTY END ENGINE ESTIMATE EVENTS EVERY EXCEPT EXISTS EXPLAIN
EXPRESSION EXTRACT FALSE FETCHES FILESYSTEM FILL FINAL FIRST FLUSH FOLLOWING FOR FORMAT FREEZE FROM FULL FUNCTION FUNCTIONS GLOBAL
GRANT GRANTEES GRANULARITY GROUP GROUPING HAVING HIERARCHICAL HOST HOUR ID IDENTIFIED IF ILIKE IN INDEX INF INJECTIVE INNER INSERT
INTERSECT INTERVAL INTERPOLATE INTO IP IS IS_OBJECT_ID JOIN JSON KEY KILL KERBEROS LAST LAYOUT LDAP LEADING LEFT LIFETIME LIKE LIMIT
LIVE LOCAL LOGS MARK MATERIALIZE MATERIALIZED MAX MERGES MIN MINUTE MODIFY MONTH MOVE MOVES MUTATION NAME NAMED NAN_SQL NO NONE NOT
NULL NULLS OFFSET ON OPTIMIZE OPTION OR ORDER OVERRIDABLE OUTER OUTFILE OVER OVERLAY PARTITION PLACING PIPELINE POLICY POPULATE
PRECEDING PREWHERE PRIMARY PROJECTION QUARTER QUERY QUEUES QUOTA RANDOMIZE RANGE REALM RECOMPRESS REFRESH REGEXP RELOAD REMOVE RENAME
REPLACE RESET REPLICA REPLICATED REPLICATION RESTART RIGHT ROLE ROLLUP ROW ROWS SAMPLE SECOND SELECT SEMI SENDS SERVER SET SETS SETTING
SETTINGS SHOW SHUTDOWN SKIP SOURCE START STALENESS STEP STOP SUBSTRING SYNC SYNTAX SYSTEM TABLE TABLES TEMPORARY TEST THEN TIES TIMEOUT
TIMESTAMP TO TOP TOTALS TRAILING TRIM TRUE TRUNCATE TTL TYPE UNBOUNDED UNCOMPRESSED UNION UPDATE USE USER USING UNTIL UUID VALID VALUES
VIEW VOLUME WATCH WEEK WHEN WHERE WINDOW WITH YEAR DEFINER SQL SECURITY`)

var tokens = strings.Fields("a `b` \"c\" 1 0x1f 1.5 1e3 -1 's' '' ( ) [ ] { } , . ; : :: -> + - * / % = == != <> < <= > >= || ? @ $x ()" +
	" SELECT FROM WHERE GROUP ORDER BY LIMIT WITH AS ON IN NOT AND OR IS NULL LIKE BETWEEN CASE WHEN THEN ELSE END CAST INTERVAL DAY EXISTS IF" +
	" UNION ALL DISTINCT EXCEPT JOIN LEFT USING FINAL SAMPLE OFFSET SETTINGS FORMAT TABLE TO FORMAT VALUES INTO DEFAULT PARTITION ID COLUMN INDEX" +
	" TTL COMMENT CLUSTER SET DROP ADD DATE array ENGINE PRIMARY KEY CODEC")

// vocabulary fixes what $w and $t stand for.
func (e *Engine) vocabulary() {
	e.keywordList = keywords
	seen := map[string]bool{}
	e.tokenList = append(e.tokenList, "")
	for _, t := range tokens {
		if !seen[t] {
			seen[t] = true
			e.tokenList = append(e.tokenList, t)
		}
	}
}

func (e *Engine) check(prop, tier string, workers int) int {
	t0 := time.Now()
	spec := properties[prop]
	if spec == nil {
		fmt.Fprintln(os.Stderr, "no such property:", prop)
		return 2
	}
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err := e.loadKnown(); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return 2
	}
	if err := e.load(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	e.vocabulary()
	e.precompile()
	out := filepath.Join(e.verif, "out", prop)
	os.RemoveAll(out)
	if err := os.MkdirAll(out, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	bin, err := e.buildNative(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ts, err := loadTemplates(filepath.Join(e.verif, "templates"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bySet := map[string][]*Template{}
	for _, t := range ts {
		bySet[t.set] = append(bySet[t.set], t)
	}
	runs := spec.quick
	secs := 240
	if tier == "thorough" {
		runs = append(append([]propRun(nil), runs...), spec.thorough...)
		secs = 720
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_SECS")); err == nil {
		secs = v
	}
	var jobs []*Job
	usedSets := map[string]int{}
	usedH := map[string]bool{}
	for _, pr := range runs {
		for _, s := range strings.Fields(pr.sets) {
			if len(bySet[s]) == 0 {
				fmt.Fprintln(os.Stderr, "no template set", s)
				return 2
			}
			for _, t := range bySet[s] {
				in, vars, err := e.buildTemplate(t.text)
				if err != nil {
					fmt.Fprintln(os.Stderr, t.file, t.line, err)
					return 2
				}
				for _, h := range strings.Fields(pr.harness) {
					usedH[h] = true
					usedSets[s]++
					jobs = append(jobs, &Job{id: len(jobs), prop: prop, harness: h, tmpl: t, input: in, vars: vars})
				}
			}
		}
	}
	setup := time.Since(t0)
	r := &Run{e: e, native: bin, workers: workers, maxViol: 8}
	r.deadline = time.Now().Add(time.Duration(secs) * time.Second)
	if tier == "thorough" {
		r.maxPathsPerJob = 60000
	} else {
		r.maxPathsPerJob = 20000
	}
	t1 := time.Now()
	r.run(jobs)
	explore := time.Since(t1)

	var fresh []*Violation
	for _, v := range r.viol {
		if v.known == nil {
			fresh = append(fresh, v)
		}
	}
	for _, k := range e.known {
		if k.count > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (for example %q)\n", prop, k.What, k.example)
		}
	}
	for i, v := range fresh {
		p := filepath.Join(out, fmt.Sprintf("replay-%d.json", i+1))
		b, _ := json.MarshalIndent(map[string]any{
			"property": prop, "harness": v.harness, "input": v.input, "input_bytes": []byte(v.input), "template": v.tmpl,
			"failure": v.msg, "found_by_solver": v.viaSolver, "same_kind": v.count,
			"replay": "./check.sh replay " + p,
		}, "", " ")
		os.WriteFile(p, b, 0o644)
		kind, detail, _ := strings.Cut(v.msg, "\n")
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		fmt.Printf("  %s: %s\n  input  %q\n", v.harness, kind, v.input)
		if detail != "" {
			fmt.Printf("  output %q\n", detail)
		}
	}
	r.evidence(spec, prop, tier, seed, jobs, usedSets, usedH, fresh, setup, explore, time.Since(t0), secs)
	st := &e.sstats
	fmt.Printf("%s %s: %d templates×harnesses, %d paths, %d assertions, %d solver queries, %d domain obligations in %d batches, %d replays, %d mismatches, %.1fs\n",
		prop, tier, len(jobs), r.paths.Load(), r.asserts.Load(), st.queries.Load(), st.domObl.Load(), st.domBatch.Load(), r.replays.Load(), r.mismatches.Load(), time.Since(t0).Seconds())
	if len(fresh) > 0 {
		return 1
	}
	if r.endCount[endOK].Load() == 0 || r.replays.Load() == 0 {
		fmt.Fprintln(os.Stderr, "nothing was explored")
		return 2
	}
	return 0
}

func (r *Run) evidence(spec *propSpec, prop, tier string, seed int, jobs []*Job, usedSets map[string]int, usedH map[string]bool, fresh []*Violation, setup, explore, wall time.Duration, secs int) {
	e := r.e
	st := &e.sstats
	complete, partial := 0, 0
	nvars, vocab := 0, 0.0
	for _, j := range jobs {
		if j.done && j.incomplete == 0 {
			complete++
		} else {
			partial++
		}
		nvars += len(j.vars)
		n := 1.0
		for _, v := range j.vars {
			n *= float64(v.d)
		}
		vocab += n
	}
	hit, total, _ := r.coverage()
	fns := map[string]bool{}
	for i, c := range e.covPos {
		if i < len(r.cov) && r.cov[i] && !strings.HasPrefix(filepath.Base(c.pos.Filename), "zz_") {
			fns[c.fn] = true
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var hs []string
	for h := range usedH {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	knownN := map[string]int{}
	for _, k := range e.known {
		if k.count > 0 {
			knownN[k.What] = k.count
		}
	}
	var samples []any
	for i, s := range r.samples {
		if i >= 12 {
			break
		}
		samples = append(samples, s)
	}
	unsup := map[string]int{}
	for m, n := range r.unsup {
		unsup[m] = n
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        r.paths.Load(),
			"transitions":                   r.decisions.Load(),
			"traces_validated_against_impl": r.replays.Load(),
			"samples":                       samples,
			"rule":                          "a state is one symbolic path of a harness over one template (all inputs of the template that take the same branches), a transition one branch decided by the solver or by the domains of the variables; every path is replayed on the compiled code with a model of its path condition and has to agree on everything observed",
			"harnesses":                     hs,
			"template_sets":                 usedSets,
			"templates_times_harnesses":     len(jobs),
			"explored_completely":           complete,
			"explored_partly":               partial,
			"symbolic_variables":            nvars,
			"inputs_described":              vocab,
			"path_ends": map[string]int64{"completed": r.endCount[endOK].Load(), "panicked": r.endCount[endPanic].Load(), "step_bound": r.endCount[endSteps].Load(),
				"depth_bound": r.endCount[endDepth].Load(), "unsupported": r.endCount[endUnsupported].Load(), "assumption_false": r.endCount[endAssume].Load(), "violated": r.endCount[endViolated].Load()},
			"unsupported":               unsup,
			"assertions_discharged":     st.asserts.Load(),
			"assertions_folded":         st.assertT.Load(),
			"solver":                    map[string]any{"name": e.solverBin, "queries": st.queries.Load(), "cached": st.cached.Load(), "sat": st.sat.Load(), "unsat": st.unsat.Load(), "unknown": st.unknown.Load(), "errors": st.errors.Load(), "domain_obligations": st.domObl.Load(), "domain_batches": st.domBatch.Load(), "seconds": float64(st.ns.Load()) / 1e9},
			"ssa_steps":                 r.steps.Load(),
			"engine_mismatches":         r.mismatches.Load(),
			"solver_models_unconfirmed": r.unconfirmed.Load(),
			"engine_errors":             e.engErrs.Load(),
			"functions_encoded":         len(fl),
			"functions":                 fl,
			"basic_blocks_reached":      hit,
			"basic_blocks":              total,
			"bounds":                    fmt.Sprintf("inputs: the languages of the listed template sets (/verif/templates), holes ranging over their whole alphabets; %d SSA steps and %d frames per path; %d paths per template; %d s", e.maxSteps, e.maxDepth, r.maxPathsPerJob, secs),
			"known_findings_seen":       knownN,
			"truncated":                 r.truncated,
			"exhaustive":                partial == 0 && !r.truncated,
			"setup_s":                   setup.Seconds(),
			"explore_s":                 explore.Seconds(),
		},
		"assumptions": append([]string{
			"inputs outside the template languages are not covered",
			"the SSA translation of golang.org/x/tools/go/ssa and the engine's model of the Go runtime are right; every path is cross-checked against the compiled code",
			"z3 is sound",
		}, spec.assume...),
		"wall_s":     wall.Seconds(),
		"violations": len(fresh),
	}
	dir := filepath.Join(e.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return
	}
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}

// replay runs one recorded violation on the compiled code.
func (e *Engine) replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v struct {
		Property string `json:"property"`
		Harness  string `json:"harness"`
		Input    []byte `json:"input_bytes"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	bin, err := e.buildNative(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	n := &Native{bin: bin}
	defer n.stop()
	res := n.run(v.Harness, string(v.Input), 20*time.Second)
	fmt.Printf("%s on %q\n", v.Harness, v.Input)
	for _, o := range res.Obs {
		fmt.Printf("observed %q\n", o)
	}
	if m := failMsg(res, ""); m != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", v.Property, file, m)
		return 1
	}
	fmt.Println("holds")
	return 0
}
