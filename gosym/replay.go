package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Native replay: the harness is compiled against the real code with the Go compiler and run on recorded inputs.

type Replayer struct {
	bin  string
	dir  string
	prop string // the checked property: assertions of others are ignored
}

const replayMain = `package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	"github.com/hexbee-net/etxe/pkg/zzverif/v"
%s)

type task struct {
	Fn     string
	Case   int
	Params map[string]int
	Inputs map[string]uint64
	Runs   int
	Prop   string
}

type result struct {
	Status string   %s
	Label  string   %s
	Trace  []string %s
}

var fns = map[string]func(){
%s}

func one(t task) (r result) {
	f := fns[t.Fn]
	if f == nil {
		return result{Status: "nofn"}
	}
	v.In, v.Params, v.CaseNo, v.Prop = t.Inputs, t.Params, t.Case, t.Prop
	if v.In == nil {
		v.In = map[string]uint64{}
	}
	done := make(chan result, 1)
	go func() {
		var r result
		r.Status = "ok"
		defer func() {
			if x := recover(); x != nil {
				switch y := x.(type) {
				case v.AssumeFailed:
					r.Status = "assume"
				case v.AssertFailed:
					r.Status, r.Label = "assert", y.Label
				default:
					r.Status, r.Label = "panic", fmt.Sprint(x)
				}
			}
			r.Trace = v.Trace
			done <- r
		}()
		v.Reset()
		f()
	}()
	select {
	case r = <-done:
	case <-time.After(15 * time.Second):
		r.Status = "timeout"
	}
	return r
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var ts []task
	if err := json.Unmarshal(b, &ts); err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, t := range ts {
		n := t.Runs
		if n < 1 {
			n = 1
		}
		var r result
		for i := 0; i < n; i++ {
			r = one(t)
			if r.Status != "ok" && r.Status != "assume" {
				break
			}
		}
		enc.Encode(r)
	}
}
`

type replayResult struct {
	Status string
	Label  string
	Trace  []string
}

func newReplayer(dirs []*Directive) (*Replayer, error) {
	dir, err := os.MkdirTemp("", "gosymreplay")
	if err != nil {
		return nil, err
	}
	pk := map[string]bool{}
	fn := map[string]bool{}
	for _, d := range dirs {
		pk[d.Pkg] = true
		fn[d.Pkg+"."+d.Fn] = true
	}
	var imps, regs string
	for _, p := range sorted(pk) {
		imps += fmt.Sprintf("\t%q\n", repoMod+"/"+zzDir+"/"+p)
	}
	for _, f := range sorted(fn) {
		regs += fmt.Sprintf("\t%q: %s,\n", f, f)
	}
	q := "`json:\"%s\"`"
	src := fmt.Sprintf(replayMain, imps, fmt.Sprintf(q, "status"), fmt.Sprintf(q, "label"), fmt.Sprintf(q, "trace"), regs)
	mp := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mp, []byte(src), 0o644); err != nil {
		return nil, err
	}
	ov := map[string]string{filepath.Join(repoDir, zzDir, "replay", "main.go"): mp}
	files, err := harnessFiles(filepath.Join(verifDir, "harness"))
	if err != nil {
		return nil, err
	}
	for o, r := range files {
		ov[o] = r
	}
	ob, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(of, ob, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, "replay")
	cmd := exec.Command("go", "build", "-overlay", of, "-o", bin, repoMod+"/"+zzDir+"/replay")
	cmd.Dir = repoDir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("replay build: %v: %s", err, out)
	}
	return &Replayer{bin: bin, dir: dir}, nil
}

func sorted(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (r *Replayer) close() { os.RemoveAll(r.dir) }

type rtask struct {
	Fn     string
	Case   int
	Params map[string]int
	Inputs map[string]uint64
	Runs   int
	Prop   string
}

// run executes the tasks in one process; a crash of the process is reported as the result of the task it ran.
func (r *Replayer) run(ts []rtask) ([]replayResult, error) {
	b, _ := json.Marshal(ts)
	f, err := os.CreateTemp(r.dir, "in")
	if err != nil {
		return nil, err
	}
	f.Write(b)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", `ulimit -v 12000000; exec "$0" "$1"`, r.bin, f.Name())
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	var out []replayResult
	dec := json.NewDecoder(&so)
	for {
		var x replayResult
		if dec.Decode(&x) != nil {
			break
		}
		out = append(out, x)
	}
	if err != nil && len(out) < len(ts) {
		msg := se.String()
		st := "crash"
		lab := ""
		for _, l := range strings.Split(msg, "\n") {
			if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
				lab = l
				break
			}
		}
		if strings.HasPrefix(lab, "panic:") {
			st = "panic"
		}
		out = append(out, replayResult{Status: st, Label: lab})
	}
	return out, nil
}

// confirm replays a violation natively.
func (r *Replayer) confirm(v *Violation) (bool, string) {
	runs := v.Runs
	if runs < 1 {
		runs = 1
	}
	res, err := r.run([]rtask{{v.Fn, v.Case, v.Params, v.Inputs, runs, r.prop}})
	if err != nil || len(res) == 0 {
		return false, fmt.Sprint("replay failed: ", err)
	}
	x := res[0]
	switch v.Kind {
	case "assert":
		return x.Status == "assert" && x.Label == v.Label || x.Status == "panic" || x.Status == "timeout" || x.Status == "crash", x.Status + " " + x.Label
	case "panic":
		return x.Status == "panic" || x.Status == "crash" || x.Status == "timeout", x.Status + " " + x.Label
	case "deadlock":
		return x.Status == "timeout" || x.Status == "crash" || x.Status == "panic", x.Status + " " + x.Label
	}
	return false, x.Status
}

// validate replays sampled path witnesses and compares the observations.
// A native run that breaks an assertion of the property where the engine saw it hold is a counterexample of its own
// (the encoding was wrong about the library, but the input is one the solver gave and the code fails on it): failed.
func (r *Replayer) validate(ws []*Witness) (ok int, bad []string, failed []*Violation) {
	for len(ws) > 0 {
		n := min(len(ws), 500)
		batch := ws[:n]
		ws = ws[n:]
		var ts []rtask
		for _, w := range batch {
			ts = append(ts, rtask{w.Fn, w.Case, w.Params, w.Inputs, 1, r.prop})
		}
		res, err := r.run(ts)
		if err != nil {
			bad = append(bad, err.Error())
			return
		}
		for i, w := range batch {
			if i >= len(res) {
				bad = append(bad, fmt.Sprintf("%s#%d: no native result", w.Fn, w.Case))
				break
			}
			if res[i].Status != "ok" || strings.Join(res[i].Trace, "\n") != strings.Join(w.Obs, "\n") {
				bad = append(bad, fmt.Sprintf("%s#%d inputs %v: native %s %s %v, engine %v", w.Fn, w.Case, w.Inputs, res[i].Status, res[i].Label, res[i].Trace, w.Obs))
				if res[i].Status == "assert" && strings.HasPrefix(res[i].Label, r.prop+":") && strings.HasPrefix(w.Fn, "hetx.") {
					failed = append(failed, &Violation{Fn: w.Fn, Case: w.Case, Params: w.Params, Inputs: w.Inputs, Label: res[i].Label, Kind: "assert", Prop: r.prop, Runs: 1})
				}
				continue
			}
			ok++
		}
	}
	return
}
