package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine check|dev|replay ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "tree under test")
	verif := fs.String("verif", "/verif", "this directory")
	harness := fs.String("h", "Total", "dev: harness")
	sets := fs.String("sets", "", "dev: template sets (comma separated)")
	tmpl := fs.String("t", "", "dev: one template")
	secs := fs.Int("secs", 60, "time budget")
	workers := fs.Int("j", 8, "workers")
	cov := fs.Bool("cov", false, "dev: list uncovered blocks")
	all := fs.Bool("all", false, "dev: list all violations")
	list := fs.Bool("list", false, "dev: list every path")
	perJob := fs.Bool("perjob", false, "dev: list jobs by cost")
	maxp := fs.Int("maxp", 0, "dev: path cap per template")
	prof := fs.String("prof", "", "cpu profile")
	prop := fs.String("prop", "", "check: property")
	tier := fs.String("tier", "quick", "check: tier")
	fs.Parse(os.Args[2:])
	e := &Engine{repo: *repo, verif: *verif, solverBin: "z3", solverArgs: []string{"-in"}, maxSteps: 30_000_000, maxDepth: 6000}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch cmd {
	case "check":
		code := e.check(*prop, *tier, *workers)
		pprof.StopCPUProfile()
		os.Exit(code)
	case "replay":
		if fs.NArg() != 1 {
			fmt.Fprintln(os.Stderr, "usage: engine replay FILE")
			os.Exit(2)
		}
		os.Exit(e.replay(fs.Arg(0)))
	case "dev":
		t0 := time.Now()
		if err := e.load(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		e.vocabulary()
		e.precompile()
		dir, _ := os.MkdirTemp("", "verif")
		defer os.RemoveAll(dir)
		bin, err := e.buildNative(dir)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fmt.Printf("setup %.1fs\n", time.Since(t0).Seconds())
		ts, err := loadTemplates(filepath.Join(*verif, "templates"))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if *tmpl != "" {
			ts = nil
			for _, x := range strings.Split(*tmpl, "\n") {
				ts = append(ts, &Template{text: x, set: "cmdline"})
			}
		} else if *sets != "" {
			var k []*Template
			for _, t := range ts {
				for _, s := range strings.Split(*sets, ",") {
					if t.set == s {
						k = append(k, t)
					}
				}
			}
			ts = k
		}
		var jobs []*Job
		for _, h := range strings.Split(*harness, ",") {
			for _, t := range ts {
				in, vars, err := e.buildTemplate(t.text)
				if err != nil {
					fmt.Fprintln(os.Stderr, t.file, t.line, err)
					os.Exit(2)
				}
				jobs = append(jobs, &Job{id: len(jobs), prop: "dev", harness: h, tmpl: t, input: in, vars: vars})
			}
		}
		r := &Run{e: e, native: bin, workers: *workers, deadline: time.Now().Add(time.Duration(*secs) * time.Second), maxPathsPerJob: *maxp}
		if *list {
			r.onPath = func(j *Job, input string, ex *Exec, end *pathEnd, res *NativeRes) {
				var o []string
				for _, b := range res.Obs {
					o = append(o, string(b))
				}
				e.logf("PATH %q end=%d %s dec=%d steps=%d obs=%q panic=%s", input, end.kind, end.msg, ex.dec, ex.steps, o, res.Panic)
			}
		}
		r.onPanic = func(j *Job, in string, gp *goPanic) { e.logf("PANIC %s %q: %s at %s", j.harness, in, gp.msg, gp.pos) }
		t1 := time.Now()
		r.run(jobs)
		r.summary(time.Since(t1), jobs, *all, *cov, *perJob)
	}
}

func (r *Run) summary(d time.Duration, jobs []*Job, all, cov, perJob bool) {
	st := &r.e.sstats
	done := 0
	for _, j := range jobs {
		if j.done && j.incomplete == 0 {
			done++
		}
	}
	fmt.Printf("%.1fs: jobs %d (complete %d) paths %d steps %.1fM decisions %d forks %d asserts %d replays %d mismatches %d unconfirmed %d\n",
		d.Seconds(), len(jobs), done, r.paths.Load(), float64(r.steps.Load())/1e6, r.decisions.Load(), r.forks.Load(), r.asserts.Load(), r.replays.Load(), r.mismatches.Load(), r.unconfirmed.Load())
	fmt.Printf("ends ok=%d panic=%d steps=%d depth=%d unsup=%d assume=%d viol=%d truncated=%v unknown=%d\n", r.endCount[0].Load(), r.endCount[1].Load(), r.endCount[2].Load(), r.endCount[3].Load(), r.endCount[4].Load(), r.endCount[5].Load(), r.endCount[6].Load(), r.truncated, r.unknown.Load())
	fmt.Printf("solver queries %d cached %d sat %d unsat %d unknown %d errors %d time %.1fs domain obligations %d in %d batches; assertions %d (folded %d)\n",
		st.queries.Load(), st.cached.Load(), st.sat.Load(), st.unsat.Load(), st.unknown.Load(), st.errors.Load(), float64(st.ns.Load())/1e9, st.domObl.Load(), st.domBatch.Load(), st.asserts.Load(), st.assertT.Load())
	for m, n := range r.unsup {
		fmt.Printf("unsupported %d: %s\n", n, m)
	}
	hit, total, miss := r.coverage()
	fmt.Printf("coverage %d/%d blocks\n", hit, total)
	if cov {
		for _, c := range miss {
			fmt.Printf("  miss %s:%d %s\n", filepath.Base(c.pos.Filename), c.pos.Line, c.fn)
		}
	}
	if perJob {
		for _, j := range jobs {
			fmt.Printf("  job %6d paths done=%v incomplete=%d %s %s\n", j.paths, j.done, j.incomplete, j.harness, j.tmpl.text)
		}
	}
	fmt.Printf("violations %d\n", len(r.viol))
	for i, v := range r.viol {
		if i >= 60 && !all {
			break
		}
		kind, detail, _ := strings.Cut(v.msg, "\n")
		fmt.Printf("  %s [%d] %s\n    tmpl %s\n    input %q\n    detail %s\n", v.harness, v.count, kind, v.tmpl, v.input, detail)
	}
}
