package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
)

// Development only: the witnesses of a run of the engine, run natively against another version of the code. It tells
// quickly which changes the checks would report; it decides nothing.

const witPerJob = 8

func writeWit(file string, res []*JobResult) {
	var ts []rtask
	for _, r := range res {
		// a few per case, spread over its paths
		step := 1 + len(r.wit)/witPerJob
		for i := 0; i < len(r.wit); i += step {
			w := r.wit[i]
			ts = append(ts, rtask{w.Fn, w.Case, w.Params, w.Inputs, 1, ""})
		}
	}
	b, _ := json.Marshal(ts)
	os.WriteFile(file, b, 0o644)
	fmt.Println(len(ts), "witnesses")
}

func natRun(file string, pkgs []string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var ts []rtask
	if err := json.Unmarshal(b, &ts); err != nil {
		fmt.Println(err)
		return 2
	}
	want := map[string]bool{}
	for _, p := range pkgs {
		want[p] = true
	}
	files, _ := harnessFiles(filepath.Join(verifDir, "harness"))
	var fs []string
	for o, r := range files {
		if want[filepath.Base(filepath.Dir(o))] {
			fs = append(fs, r)
		}
	}
	ds, err := parseDirectives(fs)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rp, err := newReplayer(ds)
	if err != nil {
		fmt.Println("build:", err)
		return 2
	}
	defer rp.close()
	cnt := map[string]int{}
	var keep []rtask
	n := 0
	for len(ts) > 0 {
		k := min(len(ts), 250) // stop soon after the first failure
		if os.Getenv("NAT_KEEP") != "" {
			k = min(len(ts), 20000)
		} else if n > len(keep) {
			break
		}
		out, err := rp.run(ts[:k])
		if err != nil {
			fmt.Println(err)
			return 2
		}
		for i, x := range out {
			n++
			if x.Status == "ok" {
				keep = append(keep, ts[i])
				continue
			}
			l := x.Status + " " + x.Label
			if len(l) > 70 {
				l = l[:70]
			}
			cnt[l]++
		}
		ts = ts[k:]
		if len(out) < k {
			break
		}
	}
	var ls []string
	for l, c := range cnt {
		ls = append(ls, fmt.Sprintf("%d %s", c, l))
	}
	sort.Strings(ls)
	fmt.Println(n, "run,", n-len(keep), "fail", ls)
	if f := os.Getenv("NAT_KEEP"); f != "" {
		b, _ := json.Marshal(keep)
		os.WriteFile(f, b, 0o644)
	}
	return 0
}
