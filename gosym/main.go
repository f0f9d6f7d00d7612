package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("fn", "", "only this harness function")
	cs := flag.Int("case", -1, "only this case")
	dev := flag.Bool("dev", false, "print job summaries, no replay")
	budget := flag.Int("secs", 0, "time budget for the exploration")
	chk := flag.Bool("check", false, "decide the property and write its evidence")
	rep := flag.String("replay", "", "run a recorded violation natively")
	flag.BoolVar(&debugPanics, "debug", false, "let engine panics through")
	set := flag.String("set", "", "override harness parameters, NAME=int,... (development)")
	dumpWit := flag.String("dumpwit", "", "write the witnesses of all paths to a file (development)")
	natCheck := flag.String("natcheck", "", "run recorded witnesses natively (development)")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(16 << 30)
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if v := os.Getenv("REPO_DIR"); v != "" {
		repoDir = v
	}
	if pf := os.Getenv("GOSYM_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *rep != "" {
		os.Exit(replayFile(*rep))
	}
	if *natCheck != "" {
		os.Exit(natRun(*natCheck, flag.Args()))
	}
	witAll = *dumpWit != ""
	if *chk {
		b := 170
		if *tier == "thorough" {
			b = 780
		}
		if *budget > 0 {
			b = *budget
		}
		os.Exit(check(*prop, *tier, time.Duration(b)*time.Second))
	}
	if os.Getenv("GOSYM_STEPS") != "" {
		stepProf = map[string][2]int{}
	}
	t0 := time.Now()
	l, err := load(flag.Args())
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	tLoad := time.Since(t0)
	if err := initBase(l); err != nil {
		fmt.Println("init:", err)
		os.Exit(2)
	}
	fmt.Println("load", tLoad, "init", time.Since(t0)-tLoad)
	jobs, err := l.jobs(*prop, *tier, *only)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, kv := range strings.Split(*set, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			for _, j := range jobs {
				j.D.Params[k], _ = strconv.Atoi(v)
			}
		}
	}
	if *cs >= 0 {
		var js []*Job
		for _, j := range jobs {
			if j.Case == *cs {
				js = append(js, j)
			}
		}
		jobs = js
	}
	dl := 600 * time.Second
	if *budget > 0 {
		dl = time.Duration(*budget) * time.Second
	}
	res := l.prog.runJobs(jobs, runtime.NumCPU(), time.Now().Add(dl))
	if *dev {
		for _, r := range res {
			fmt.Println(r.summary())
			for _, v := range r.viol {
				fmt.Printf("  VIOL %s [%s] %v %s\n", v.Label, v.Kind, v.Inputs, v.Detail)
			}
		}
	}
	if witAll {
		writeWit(*dumpWit, res)
		return
	}
	if *dev {
		devReplay(l, res, *prop)
	}
	if stepProf != nil {
		for _, by := range []int{1, 0} {
			var ns []string
			for n := range stepProf {
				ns = append(ns, n)
			}
			sort.Slice(ns, func(i, j int) bool { return stepProf[ns[i]][by] > stepProf[ns[j]][by] })
			fmt.Println([]string{"-- self", "-- cumulative"}[by])
			for i, n := range ns {
				if i < 40 {
					fmt.Println(stepProf[n], n)
				}
			}
		}
	}
	fmt.Println("total", time.Since(t0))
}

func devReplay(l *Loaded, res []*JobResult, prop string) {
	rp, err := newReplayer(l.dirs)
	if err != nil {
		fmt.Println(err)
		return
	}
	rp.prop = prop
	defer rp.close()
	var ws []*Witness
	for _, r := range res {
		ws = append(ws, r.wit...)
		for _, v := range r.viol {
			ok, how := rp.confirm(v)
			fmt.Println("  replay", v.Label, ok, how)
		}
	}
	ok, bad, _ := rp.validate(ws)
	fmt.Println("witnesses ok", ok, "bad", len(bad))
	for _, b := range bad {
		fmt.Println("   ", b)
	}
}
