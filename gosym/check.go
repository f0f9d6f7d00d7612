package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---- check mode: decide one property, confirm what the solver found, write the evidence

type knownFinding struct{ prop, label, what string }

var kfRe = regexp.MustCompile(`^finding: property=(\S+) label="([^"]*)" (.*)$`)

func readKnown() ([]knownFinding, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if m := kfRe.FindStringSubmatch(l); m != nil {
			out = append(out, knownFinding{m[1], m[2], m[3]})
		}
	}
	return out, nil
}

// packagesFor finds the harness packages with a function for the property.
func packagesFor(prop string) ([]string, error) {
	files, err := harnessFiles(filepath.Join(verifDir, "harness"))
	if err != nil {
		return nil, err
	}
	set := map[string]bool{}
	for o, r := range files {
		ds, err := parseDirectives([]string{r})
		if err != nil {
			return nil, err
		}
		for _, d := range ds {
			if d.has(prop) {
				set[filepath.Base(filepath.Dir(o))] = true
			}
		}
	}
	return sorted(set), nil
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

var stdAssumptions = []string{
	"the SSA of golang.org/x/tools/go/ssa and the engine's semantics of it agree with the Go compiler (sampled path witnesses are re-run natively and compared)",
	"the unsat answers of cvc5 (paths) and z3 (merged states) are right",
	"regexp matching is executed by the engine's own backtracking matcher over regexp/syntax programs, sync/atomic, bytealg and maps by built-in models; text/template, fmt beyond participle's error texts and package initialisers outside the allow list are stubs",
	"goroutines interleave at channel operations and selects only (no data races are assumed beyond these points)",
	"input bytes are 0..127 unless a harness inserts literal multi-byte text",
}

func check(prop, tier string, budget time.Duration) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := &evidence{Property: prop, Tier: tier, Seed: seed, Level: "model_checking", Coverage: map[string]any{}, Assumptions: stdAssumptions}
	finish := func(code int) int {
		ev.WallS = float64(time.Since(t0).Milliseconds()) / 1000
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println("evidence:", err)
		}
		return code
	}
	inconclusive := func(why string) int {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", prop, why)
		ev.Coverage = map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []any{}, "inconclusive": why}
		return finish(0)
	}
	known, err := readKnown()
	if err != nil {
		return inconclusive(err.Error())
	}
	pkgs, err := packagesFor(prop)
	if err != nil || len(pkgs) == 0 {
		return inconclusive(fmt.Sprint("no harness: ", err))
	}
	l, err := load(pkgs)
	if err != nil {
		return inconclusive("the harness does not load against the current source: " + err.Error())
	}
	rpc := make(chan any, 1)
	go func() {
		rp, err := newReplayer(l.dirs)
		if err != nil {
			rpc <- err
		} else {
			rpc <- rp
		}
	}()
	ierr := initBase(l)
	var rp *Replayer
	switch x := (<-rpc).(type) {
	case *Replayer:
		rp = x
		rp.prop = prop
		defer rp.close()
	case error:
		return inconclusive(x.Error())
	}
	if ierr != nil {
		// the code no longer initialises or no longer parses the warm-up text: see whether that is so natively
		return inconclusive("initialisation: " + ierr.Error())
	}
	jobs, err := l.jobs(prop, tier, "")
	if err != nil {
		return inconclusive(err.Error())
	}
	if len(jobs) == 0 {
		return inconclusive("no jobs")
	}
	witMax = max(2, 120/len(jobs))
	res := l.prog.runJobs(jobs, runtime.NumCPU(), t0.Add(budget))

	// violations: by label, confirmed natively
	kfLabels := map[string]string{}
	for _, k := range known {
		if k.prop == prop {
			kfLabels[k.label] = k.what
		}
	}
	byLabel := map[string][]*Violation{}
	for _, r := range res {
		for _, v := range r.viol {
			byLabel[v.Label] = append(byLabel[v.Label], v)
		}
	}
	var labels []string
	for l := range byLabel {
		labels = append(labels, l)
	}
	sort.Strings(labels)
	confirmBy := time.Now().Add(240 * time.Second)
	nviol := 0
	code := 0
	var unconfirmed, confirmed []string
	for _, lab := range labels {
		vs := byLabel[lab]
		sort.SliceStable(vs, func(i, j int) bool { return len(vs[i].Inputs) < len(vs[j].Inputs) })
		done := false
		var how string
		for i, v := range vs {
			if i >= 12 || i > 0 && time.Now().After(confirmBy) {
				break
			}
			var ok bool
			ok, how = rp.confirm(v)
			if !ok {
				continue
			}
			done = true
			if what, is := kfLabels[lab]; is {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, what)
				confirmed = append(confirmed, "known: "+lab)
				break
			}
			nviol++
			code = 1
			confirmed = append(confirmed, lab)
			path := writeReplay(prop, nviol, v, how)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			fmt.Printf("  %s in %s case %d, inputs %s (native: %s)\n", lab, v.Fn, v.Case, showInputs(v.Inputs), how)
			break
		}
		if !done {
			unconfirmed = append(unconfirmed, lab)
			fmt.Printf("UNCONFIRMED property=%s %s in %s case %d, inputs %s: the native run gives %s\n", prop, lab, vs[0].Fn, vs[0].Case, showInputs(vs[0].Inputs), how)
		}
	}

	// witnesses of explored paths, replayed
	var ws []*Witness
	for _, r := range res {
		ws = append(ws, r.wit...)
	}
	if len(ws) > 400 {
		step := len(ws)/400 + 1
		var s []*Witness
		for i := 0; i < len(ws); i += step {
			s = append(s, ws[i])
		}
		ws = s
	}
	wok, wbad, wfail := rp.validate(ws)
	for _, v := range wfail {
		if _, is := kfLabels[v.Label]; is || byLabel[v.Label] != nil {
			continue
		}
		byLabel[v.Label] = []*Violation{v}
		if ok, how := rp.confirm(v); ok {
			nviol++
			code = 1
			confirmed = append(confirmed, v.Label)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, writeReplay(prop, nviol, v, how))
			fmt.Printf("  %s in %s case %d, inputs %s (native: %s)\n", v.Label, v.Fn, v.Case, showInputs(v.Inputs), how)
		}
	}
	for i, b := range wbad {
		if i < 5 {
			fmt.Println("WITNESS-MISMATCH", b)
		}
	}

	// totals
	fns := map[string]bool{}
	tot := map[string]int{}
	asserts := map[string]int{}
	reach := map[string]int{}
	unsup := map[string]int{}
	cuts := map[string]int{}
	var incomplete, jobsum []string
	var solver time.Duration
	q := [4]int{}
	for _, r := range res {
		for f, repo := range r.fns {
			fns[f] = fns[f] || repo
		}
		tot["paths"] += r.paths
		tot["forks"] += r.stat.forks
		tot["steps"] += r.stat.steps
		tot["merges"] += r.stat.merges
		tot["aconst"] += r.stat.assertsConst
		tot["asolver"] += r.stat.assertsSolver
		tot["unsure"] += r.unsure
		for i := range q {
			q[i] += r.q[i]
		}
		solver += r.solver
		for k, n := range r.asserts {
			if strings.HasPrefix(k, prop+":") {
				asserts[k] += n
			}
		}
		for k, n := range r.reach {
			reach[k] += n
		}
		for k, n := range r.unsup {
			unsup[k] += n
		}
		for k, n := range r.cuts {
			cuts[k] += n
		}
		if !r.complete {
			incomplete = append(incomplete, r.job.Name()+": "+r.why)
		}
		if len(r.serrs) > 0 {
			incomplete = append(incomplete, r.job.Name()+": solver "+r.serrs[0])
		}
	}
	bd := map[string]string{}
	for _, j := range jobs {
		n := j.D.Pkg + "." + j.D.Fn
		var ps []string
		for k, v := range j.D.Params {
			ps = append(ps, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(ps)
		bd[n+" ["+j.D.Mode+"] "+strings.Join(ps, " ")] = ""
	}
	cnt := map[string]int{}
	pathsBy := map[string]int{}
	for _, r := range res {
		n := r.job.D.Pkg + "." + r.job.D.Fn
		cnt[n]++
		pathsBy[n] += r.paths
	}
	for n := range cnt {
		jobsum = append(jobsum, fmt.Sprintf("%s: %d cases, %d paths", n, cnt[n], pathsBy[n]))
	}
	sort.Strings(jobsum)
	var vac []string
	for _, j := range jobs {
		for _, rl := range j.D.Reach {
			if reach[rl] == 0 {
				vac = append(vac, rl)
				reach[rl] = -1
			}
		}
	}
	if len(asserts) == 0 {
		vac = append(vac, "no assertion of the property was reached")
	}
	var repoFns []string
	lib := 0
	for f, repo := range fns {
		if repo {
			if !strings.Contains(f, "zzverif") {
				repoFns = append(repoFns, f)
			}
		} else {
			lib++
		}
	}
	sort.Strings(repoFns)
	var samples []any
	for _, r := range res {
		if len(samples) < 6 && len(r.wit) > 0 {
			w := r.wit[len(r.wit)-1]
			samples = append(samples, map[string]any{"harness": w.Fn, "case": w.Case, "inputs": w.Inputs, "observed": w.Obs})
		}
	}
	if samples == nil {
		samples = []any{}
	}
	var bounds []string
	for n := range bd {
		bounds = append(bounds, n)
	}
	sort.Strings(bounds)
	ev.Coverage = map[string]any{
		"states": tot["paths"] + tot["forks"] + tot["merges"], "transitions": tot["steps"], "traces_validated_against_impl": wok, "samples": samples,
		"jobs": len(jobs), "harnesses": jobsum, "bounds": bounds, "paths": tot["paths"], "forks": tot["forks"], "merges": tot["merges"],
		"assertions": asserts, "assertions_decided_by_solver": tot["asolver"], "assertions_constant_on_their_path": tot["aconst"],
		"queries": q[0], "sat": q[1], "unsat": q[2], "unknown": q[3], "solver_s": float64(solver.Milliseconds()) / 1000,
		"repo_functions_encoded": repoFns, "library_functions_encoded": lib, "witness_mismatches": len(wbad),
		"complete_within_bounds": len(incomplete) == 0 && len(unsup) == 0, "incomplete": capList(incomplete, 20), "unsupported_paths": unsup, "cut_paths": cuts,
		"unknown_on_path": tot["unsure"], "not_reached": vac, "reached": reach, "confirmed": confirmed, "unconfirmed": unconfirmed,
	}
	ev.Violations = nviol
	for _, u := range vac {
		fmt.Printf("NOT-REACHED property=%s %s\n", prop, u)
	}
	for _, s := range capList(incomplete, 5) {
		fmt.Printf("INCOMPLETE property=%s %s\n", prop, s)
	}
	for u, n := range unsup {
		fmt.Printf("UNSUPPORTED property=%s x%d %s\n", prop, n, u)
	}
	fmt.Printf("%s property=%s tier=%s jobs=%d paths=%d queries=%d (sat %d, unsat %d, unknown %d) solver=%.1fs witnesses=%d mismatches=%d wall=%.1fs\n",
		map[int]string{0: "HELD", 1: "BROKEN"}[code], prop, tier, len(jobs), tot["paths"], q[0], q[1], q[2], q[3], solver.Seconds(), wok, len(wbad), time.Since(t0).Seconds())
	return finish(code)
}

func capList(l []string, n int) []string {
	if len(l) > n {
		return append(append([]string(nil), l[:n]...), fmt.Sprintf("... and %d more", len(l)-n))
	}
	if l == nil {
		return []string{}
	}
	return l
}

func showInputs(in map[string]uint64) string {
	var ks []string
	for k := range in {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s=%d", k, in[k]))
	}
	s := strings.Join(out, " ")
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func writeReplay(prop string, n int, v *Violation, how string) string {
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, n))
	b, _ := json.MarshalIndent(map[string]any{"violation": v, "native": how, "replay_with": "/verif/check.sh replay " + p}, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

// replayFile runs a recorded violation natively.
func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var x struct{ Violation Violation }
	if err := json.Unmarshal(b, &x); err != nil {
		fmt.Println(err)
		return 2
	}
	pkg, _, _ := strings.Cut(x.Violation.Fn, ".")
	files, err := harnessFiles(filepath.Join(verifDir, "harness"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var fs []string
	for o, r := range files {
		if filepath.Base(filepath.Dir(o)) == pkg {
			fs = append(fs, r)
		}
	}
	ds, err := parseDirectives(fs)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rp, err := newReplayer(ds)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer rp.close()
	rp.prop = x.Violation.Prop
	ok, how := rp.confirm(&x.Violation)
	fmt.Println("reproduced:", ok, how)
	if ok {
		return 1
	}
	return 0
}
