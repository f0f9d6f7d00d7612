package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- directives: how the harness functions are to be run

type Directive struct {
	Pkg, Fn   string
	Props     []string
	Tier      string // quick, thorough, both
	Mode      string // fork, merge
	Cases     string
	Params    map[string]int
	PanicProp string
	Paths     int
	Secs      int
	MapOrder  bool
	Reach     []string
	Runs      int
}

var dirRe = regexp.MustCompile(`^//\s?verif\s+(.*)$`)
var fnRe = regexp.MustCompile(`^func ([A-Z]\w*)\(`)
var pkgRe = regexp.MustCompile(`^package (\w+)`)

func parseDirectives(files []string) ([]*Directive, error) {
	var out []*Directive
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		pkg := ""
		var pend []*Directive
		for _, line := range strings.Split(string(b), "\n") {
			if mm := pkgRe.FindStringSubmatch(line); mm != nil {
				pkg = mm[1]
			}
			if mm := dirRe.FindStringSubmatch(line); mm != nil {
				d := &Directive{Tier: "both", Mode: "fork", Params: map[string]int{}, Runs: 1}
				for _, kv := range strings.Fields(mm[1]) {
					k, v, ok := strings.Cut(kv, "=")
					if !ok {
						return nil, fmt.Errorf("%s: bad directive %q", f, kv)
					}
					switch k {
					case "prop":
						d.Props = strings.Split(v, ",")
					case "tier":
						d.Tier = v
					case "mode":
						d.Mode = v
					case "cases":
						d.Cases = v
					case "panic":
						d.PanicProp = v
					case "paths":
						d.Paths, _ = strconv.Atoi(v)
					case "secs":
						d.Secs, _ = strconv.Atoi(v)
					case "runs":
						d.Runs, _ = strconv.Atoi(v)
					case "reach":
						d.Reach = strings.Split(v, ",")
					default:
						n, err := strconv.Atoi(v)
						if err != nil {
							return nil, fmt.Errorf("%s: bad directive %q", f, kv)
						}
						d.Params[k] = n
					}
				}
				if d.PanicProp == "" && len(d.Props) > 0 {
					d.PanicProp = d.Props[0]
				}
				pend = append(pend, d)
			}
			if mm := fnRe.FindStringSubmatch(line); mm != nil {
				for _, d := range pend {
					d.Pkg, d.Fn = pkg, mm[1]
					out = append(out, d)
				}
				pend = nil
			}
		}
	}
	return out, nil
}

func (d *Directive) has(prop string) bool {
	if prop == "ALL" { // development
		return true
	}
	for _, p := range d.Props {
		if p == prop {
			return true
		}
	}
	return false
}

// ---- jobs

// counts says whether assertions of the property count in this job (ALL: development).
func (j *Job) counts(prop string) bool { return prop == j.Prop || j.Prop == "ALL" }

type Job struct {
	D    *Directive
	Fn   *ssa.Function
	Case int
	Prop string
}

func (j *Job) Name() string { return fmt.Sprintf("%s.%s#%d", j.D.Pkg, j.D.Fn, j.Case) }

type Violation struct {
	Prop   string            `json:"property"`
	Label  string            `json:"label"`
	Kind   string            `json:"kind"` // assert, panic, deadlock
	Fn     string            `json:"fn"`
	Case   int               `json:"case"`
	Params map[string]int    `json:"params"`
	Inputs map[string]uint64 `json:"inputs"`
	Detail string            `json:"detail"`
	Runs   int               `json:"runs"`
}

type Witness struct {
	Fn     string            `json:"fn"`
	Case   int               `json:"case"`
	Params map[string]int    `json:"params"`
	Inputs map[string]uint64 `json:"inputs"`
	Obs    []string          `json:"obs"`
}

type JobResult struct {
	job      *Job
	viol     []*Violation
	byLabel  map[string]int
	unsup    map[string]int
	cuts     map[string]int
	reach    map[string]int
	asserts  map[string]int
	paths    int
	complete bool
	why      string
	wit      []*Witness
	stat     Stats
	q        [4]int // queries, sat, unsat, unknown
	solver   time.Duration
	wall     time.Duration
	fns      map[string]bool
	serrs    []string
	unsure   int
	infeas   int
	mfails   map[int]int
	vars     int
	terms    int
}

func newJobResult(j *Job) *JobResult {
	return &JobResult{job: j, byLabel: map[string]int{}, unsup: map[string]int{}, cuts: map[string]int{}, reach: map[string]int{}, asserts: map[string]int{}, fns: map[string]bool{}}
}

func (m *Machine) inputs(model []uint64) map[string]uint64 {
	in := map[string]uint64{}
	for i, v := range m.tt.vars {
		if i < len(model) {
			in[v.name] = model[i]
		} else {
			in[v.name] = v.lo
		}
	}
	return in
}

const maxPerLabel = 4

func (r *JobResult) add(m *Machine, st *State, model []uint64, prop, label, kind, detail string) {
	if r.job == nil {
		r.viol = append(r.viol, &Violation{Label: label, Kind: kind, Detail: detail})
		return
	}
	if !r.job.counts(prop) {
		return
	}
	r.byLabel[label]++
	if r.byLabel[label] > maxPerLabel {
		return
	}
	r.viol = append(r.viol, &Violation{Prop: prop, Label: label, Kind: kind, Fn: r.job.D.Pkg + "." + r.job.D.Fn, Case: r.job.Case, Params: r.job.D.Params,
		Inputs: m.inputs(model), Detail: detail, Runs: r.job.D.Runs})
}

// pathModel asks the solver for a model of the path condition.
func (m *Machine) pathModel(st *State) ([]uint64, bool) {
	if len(st.pc) == 0 {
		return st.model, true
	}
	r, mod := m.solver.Check(st.pc, nil)
	switch r {
	case Sat:
		return mod, true
	case Unsat:
		m.res.infeas++
		return nil, false
	}
	st.unsure = true
	return st.model, true
}

func (m *Machine) panicText(st *State, v Value) string {
	x, ok := m.unq(v).(Iface)
	if !ok {
		return m.showVal(v)
	}
	if x.t == nil {
		return "nil"
	}
	switch y := x.v.(type) {
	case string:
		return y
	case *SStr:
		return m.showVal(y)
	}
	return x.t.name
}

func (m *Machine) unq(v Value) Value {
	if u, ok := v.(*Union); ok && len(u.alts) > 0 {
		return u.alts[0].v
	}
	return v
}

// panicProp is the property that a panic on this path breaks.
func (r *JobResult) panicProp(st *State) string {
	switch {
	case r.job == nil:
		return ""
	case st.panics || r.job.D.PanicProp == "*":
		return r.job.Prop
	}
	return r.job.D.PanicProp
}

// A hang is a path that does not end within the bounds on steps and call depth, which are far above what the inputs
// need. The native run decides.
type hang struct{ why string }

func (m *Machine) tooDeep() {
	if m.merging || m.res.job == nil {
		m.unsupported("call depth bound")
	}
	panic(hang{"call depth bound"})
}

func (r *JobResult) onHang(m *Machine, st *State, why string) {
	model, ok := m.pathModel(st)
	if !ok {
		return
	}
	r.paths++
	if r.panicProp(st) != r.job.Prop {
		r.unsup[why]++
		return
	}
	r.add(m, st, model, r.job.Prop, "does not end ("+why+")", "deadlock", m.where(st))
}

func (r *JobResult) onPanic(m *Machine, st *State, v Value) {
	model, ok := m.pathModel(st)
	if !ok {
		return
	}
	r.paths++
	r.add(m, st, model, r.panicProp(st), "panic: "+m.panicText(st, v), "panic", m.lastPanic)
}

func (r *JobResult) onUnsupported(m *Machine, st *State, msg string) {
	if verbose {
		fmt.Fprintln(os.Stderr, "UNSUPPORTED", msg, m.where(st))
	}
	if r.job == nil {
		msg += " at " + m.where(st)
	}
	r.unsup[msg]++
	r.paths++
}
func (r *JobResult) onCut(m *Machine, st *State, why string) { r.cuts[why]++ }
func (r *JobResult) onDeadlock(m *Machine, st *State) {
	model, ok := m.pathModel(st)
	if !ok {
		return
	}
	r.paths++
	r.add(m, st, model, r.panicProp(st), "deadlock", "deadlock", m.where(st))
}

var witMax = 6
var witAll = false // development: the witnesses of all paths

func (r *JobResult) onDone(m *Machine, st *State) {
	r.paths++
	if r.job == nil {
		return
	}
	if st.unsure {
		r.unsure++
	}
	// reservoir: keep the first few and then sparsely
	take := len(r.wit) < witMax && (r.paths <= 2 || r.paths%7 == 0) || witAll
	if r.paths > 4000 && !take && r.paths%16 != 0 {
		return
	}
	model, ok := m.pathModel(st)
	if !ok {
		return
	}
	if !take || m.merging && len(st.obs) > 0 && false {
		return
	}
	w := &Witness{Fn: r.job.D.Pkg + "." + r.job.D.Fn, Case: r.job.Case, Params: r.job.D.Params, Inputs: m.inputs(model)}
	memo := m.memo()
	for _, o := range st.obs {
		w.Obs = append(w.Obs, o.label+"="+m.evalObs(o.val, model, memo))
	}
	r.wit = append(r.wit, w)
}

func (m *Machine) evalObs(v Value, model []uint64, memo map[*Term]uint64) string {
	switch x := v.(type) {
	case I:
		return fmt.Sprint(int64(x))
	case bool:
		return fmt.Sprint(x)
	case string:
		return strconv.Quote(x)
	case *Term:
		k := m.tt.eval(x, model, memo)
		if x.w == 0 {
			return fmt.Sprint(k != 0)
		}
		return fmt.Sprint(sx(k, x.w))
	case *SStr:
		b := make([]byte, len(x.b))
		for i, e := range x.b {
			switch y := e.(type) {
			case I:
				b[i] = byte(y)
			case *Term:
				b[i] = byte(m.tt.eval(y, model, memo))
			}
		}
		return strconv.Quote(string(b))
	case *Union:
		for _, a := range x.alts {
			if m.tt.eval(a.g, model, memo) != 0 {
				return m.evalObs(a.v, model, memo)
			}
		}
	}
	return fmt.Sprintf("?%T", v)
}

// assert checks a condition on the current path: the solver decides whether its negation is possible.
func (m *Machine) assert(st *State, c Value, label string) {
	prop, _, _ := strings.Cut(label, ":")
	m.res.asserts[label]++
	if b, ok := c.(bool); ok {
		m.stat.assertsConst++
		if b {
			return
		}
		if m.res.job != nil && !m.res.job.counts(prop) {
			return // another property's business
		}
		model, ok := m.pathModel(st)
		if !ok {
			panic(pathEnd{"infeasible"})
		}
		m.res.add(m, st, model, prop, label, "assert", m.where(st))
		panic(pathEnd{"violated"})
	}
	t := c.(*Term)
	if m.res.job != nil && !m.res.job.counts(prop) {
		return
	}
	m.stat.assertsSolver++
	r, model := m.solver.Check(st.pc, m.tt.Not(t))
	switch r {
	case Unsat:
		return
	case Unknown:
		st.unsure = true
		m.unknowns++
		return
	}
	m.res.add(m, st, model, prop, label, "assert", m.where(st))
	// continue where it holds
	r, model = m.solver.Check(st.pc, t)
	if r == Unsat {
		panic(pathEnd{"violated"})
	}
	if r == Sat {
		st.model = model
	}
	m.addPC(st, t)
}

var verbose = os.Getenv("GOSYM_V") != ""

func (p *Program) runJob(j *Job, deadline time.Time) (r *JobResult) {
	t0 := time.Now()
	m := newMachine(p)
	r = newJobResult(j)
	m.res = r
	m.params = j.D.Params
	m.caseIdx = j.Case
	if j.D.Paths > 0 {
		m.maxPaths = j.D.Paths
	}
	if j.D.Secs > 0 {
		if d := t0.Add(time.Duration(j.D.Secs) * time.Second); d.Before(deadline) {
			deadline = d
		}
	}
	m.deadline = func() bool { return time.Now().After(deadline) }
	m.solver.deadline = m.deadline
	m.maxSteps, m.maxDepth = 40_000_000, 20_000
	if j.D.Mode == "merge" {
		m.maxSteps, m.maxDepth = 200_000_000, 3000
		m.globalIDs, m.merging = true, true
		m.solver.assume = true
	}
	r.complete = true
	defer func() {
		if x := recover(); x != nil {
			r.complete = false
			if _, ok := x.(stopJob); ok {
				if r.why == "" {
					r.why = "time or state bound"
				}
			} else {
				if debugPanics {
					panic(x)
				}
				r.why = fmt.Sprint("engine: ", x)
			}
		}
		r.stat = m.stat
		r.mfails = m.mfails
		r.q = [4]int{m.solver.queries, m.solver.sat, m.solver.unsat, m.solver.unknown}
		r.solver = m.solver.dur
		r.serrs = m.solver.errs
		r.wall = time.Since(t0)
		r.vars = len(m.tt.vars)
		r.terms = int(m.tt.n)
		for f := range m.fnsSeen {
			r.fns[f.name] = r.fns[f.name] || f.repo
		}
		m.solver.close()
	}()
	st := m.initialState(j.Fn)
	m.work = []*State{st}
	if m.merging {
		m.exploreMerging()
		return r
	}
	for len(m.work) > 0 {
		if r.paths >= m.maxPaths {
			r.complete, r.why = false, "path bound"
			break
		}
		if m.deadline() {
			r.complete, r.why = false, "time bound"
			break
		}
		s := m.work[len(m.work)-1]
		m.work = m.work[:len(m.work)-1]
		if m.run(s) == endDone {
			r.onDone(m, s)
		}
	}
	return r
}

// evalInt runs a harness function of type func() int concretely.
func (p *Program) evalInt(f *ssa.Function) (int, error) {
	m := newMachine(p)
	m.res = newJobResult(nil)
	st := m.initialState(f)
	g := st.gor()
	var got Value
	g.frames[0] = func() *Frame {
		c := *st.frameAt(g, 0)
		c.cont = func(m *Machine, st *State, res Value) {
			got = res
			st.gor().stat = gDone
		}
		return &c
	}()
	m.run(st)
	m.solver.close()
	if v, ok := got.(I); ok {
		return int(v), nil
	}
	return 0, fmt.Errorf("cannot evaluate %s: %v", f, m.res.unsup)
}

func (l *Loaded) jobs(prop, tier, only string) ([]*Job, error) {
	var out []*Job
	for _, d := range l.dirs {
		if !d.has(prop) || !(d.Tier == "both" || d.Tier == tier) {
			continue
		}
		if only != "" && d.Fn != only {
			continue
		}
		f := l.harn[d.Pkg+"."+d.Fn]
		if f == nil {
			return nil, fmt.Errorf("no harness function %s.%s", d.Pkg, d.Fn)
		}
		lo, hi := 0, 0
		if d.Cases == "" {
			if cf := l.harn[d.Pkg+"."+d.Fn+"Cases"]; cf != nil {
				n, err := l.prog.evalInt(cf)
				if err != nil {
					return nil, err
				}
				hi = n - 1
			}
		} else if a, b, ok := strings.Cut(d.Cases, "-"); ok {
			lo, _ = strconv.Atoi(a)
			hi, _ = strconv.Atoi(b)
		} else {
			lo, _ = strconv.Atoi(d.Cases)
			hi = lo
		}
		for c := lo; c <= hi; c++ {
			out = append(out, &Job{D: d, Fn: f, Case: c, Prop: strings.TrimSuffix(prop, "ALL")})
		}
	}
	return out, nil
}

// runJobs runs the jobs in order; jobs that do not come back in time (one step of the engine may take very long) are
// given up and count as incomplete.
func (p *Program) runJobs(jobs []*Job, workers int, deadline time.Time) []*JobResult {
	type done struct {
		i int
		r *JobResult
	}
	ch := make(chan int, len(jobs))
	out := make(chan done, len(jobs))
	for i := range jobs {
		ch <- i
	}
	close(ch)
	for w := 0; w < workers; w++ {
		go func() {
			for i := range ch {
				r := p.runJob(jobs[i], deadline)
				if verbose {
					fmt.Fprintf(os.Stderr, "%s\n", r.summary())
				}
				out <- done{i, r}
			}
		}()
	}
	res := make([]*JobResult, len(jobs))
	giveUp := time.After(time.Until(deadline) + 40*time.Second)
	for n := 0; n < len(jobs); n++ {
		select {
		case d := <-out:
			res[d.i] = d.r
		case <-giveUp:
			n = len(jobs)
		}
	}
	for i := range res {
		if res[i] == nil {
			res[i] = &JobResult{job: jobs[i], why: "time bound within one step"}
		}
	}
	return res
}

func (r *JobResult) summary() string {
	s := fmt.Sprintf("%s: paths=%d complete=%v %s steps=%d forks=%d merges=%d/%d queries=%v solver=%.2fs wall=%.2fs viol=%d", r.job.Name(), r.paths, r.complete, r.why, r.stat.steps, r.stat.forks, r.stat.merges, r.stat.mergeFail, r.q, r.solver.Seconds(), r.wall.Seconds(), len(r.viol))
	for u, n := range r.unsup {
		s += fmt.Sprintf("\n    UNSUPPORTED x%d %s", n, u)
	}
	for u, n := range r.cuts {
		s += fmt.Sprintf("\n    cut x%d %s", n, u)
	}
	if len(r.reach) > 0 {
		var ks []string
		for k, n := range r.reach {
			ks = append(ks, fmt.Sprintf("%s:%d", k, n))
		}
		sort.Strings(ks)
		s += "\n    reach " + strings.Join(ks, " ")
	}
	if len(r.mfails) > 0 {
		s += fmt.Sprint("\n    merge failures ", r.mfails)
	}
	if r.infeas > 0 {
		s += fmt.Sprintf("\n    INFEASIBLE x%d", r.infeas)
	}
	for _, e := range r.serrs {
		s += "\n    solver error " + e
	}
	return s
}
