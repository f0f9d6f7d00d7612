package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/hexbee-net/etxe"
const zzDir = "pkg/zzverif"

// packages whose initialisers run (symbolically executed, concretely) before any job; the initialisers of all other
// packages are skipped, and a read of a global such a package initialises is reported as unsupported.
var initAllow = []string{
	"unicode", "unicode/utf8", "strconv", "strings", "errors", "io", "bytes", "sort", "math", "math/bits", "math/big", "bufio", "slices", "maps", "iter", "cmp",
	"text/scanner", "github.com/alecthomas/participle/v2", "github.com/alecthomas/participle/v2/lexer", "github.com/alecthomas/participle/v2/ebnf",
	"github.com/alecthomas/repr", "reflect", "fmt", "regexp", "regexp/syntax", "sync", "context", "hash", "hash/fnv", "container/list", "container/heap", "unique", "golang.org/x/xerrors",
}

func initAllowed(path string) bool {
	if strings.HasPrefix(path, repoMod) {
		return true
	}
	switch path {
	case "reflect", "fmt", "regexp", "sync", "context", "unique", "regexp/syntax", "bufio", "iter":
		return false
	}
	for _, a := range initAllow {
		if a == path {
			return true
		}
	}
	// other third-party modules
	return strings.Contains(strings.SplitN(path, "/", 2)[0], ".") && !strings.HasPrefix(path, "golang.org/x/sys")
}

type Loaded struct {
	prog  *Program
	harn  map[string]*ssa.Function // "pkg.Func"
	errs  []string
	roots []*ssa.Package
	dirs  []*Directive
}

func harnessFiles(root string) (map[string]string, error) {
	out := map[string]string{} // overlay path -> real path
	err := filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		out[filepath.Join(repoDir, zzDir, rel)] = p
		return nil
	})
	return out, err
}

var repoDir = "/repo"
var verifDir = "/verif"

func load(pkgsWanted []string) (*Loaded, error) {
	files, err := harnessFiles(filepath.Join(verifDir, "harness"))
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for o, r := range files {
		if strings.Contains(o, "/replay/") {
			continue
		}
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		ov[o] = b
	}
	ov[filepath.Join(repoDir, zzDir, "models", "models.go")] = []byte(modelsSrc)
	ov[filepath.Join(repoDir, zzDir, "models", "models.s")] = []byte("")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: ov,
		BuildFlags: []string{"-tags=math_big_pure_go,purego"}}
	pats := []string{modelsPkg, vpkg}
	for _, w := range pkgsWanted {
		pats = append(pats, repoMod+"/"+zzDir+"/"+w)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	l := &Loaded{harn: map[string]*ssa.Function{}}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.Contains(e.Error(), "missing function body") {
				continue
			}
			l.errs = append(l.errs, e.Error())
		}
	})
	if len(l.errs) > 0 {
		return l, fmt.Errorf("load errors: %s", strings.Join(l.errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, globals: map[*ssa.Global]int32{}, gdirty: map[*ssa.Global]bool{}, initOK: map[*ssa.Package]bool{},
		models: map[string]*ssa.Function{}, memo: map[string]*memoRec{}, sizes: gosizes}
	l.prog = p
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, pk := range all {
		var names []string
		for n := range pk.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := pk.Members[n].(*ssa.Global); ok {
				p.gnames = append(p.gnames, g)
				p.globals[g] = int32(len(p.gnames))
			}
		}
		if pk.Pkg.Path() == modelsPkg {
			for std, mn := range modelMap {
				if f := pk.Func(mn); f != nil {
					p.models[std] = f
				}
			}
		}
	}
	for _, pk := range all {
		for n, mem := range pk.Members {
			f, ok := mem.(*ssa.Function)
			if !ok || !(n == "init" || strings.HasPrefix(n, "init#")) {
				continue
			}
			markDirty(p, f)
		}
		if strings.HasPrefix(pk.Pkg.Path(), repoMod+"/"+zzDir+"/") {
			for n, mem := range pk.Members {
				if f, ok := mem.(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() {
					l.harn[pk.Pkg.Name()+"."+n] = f
				}
			}
			l.roots = append(l.roots, pk)
		}
	}
	var wanted []string
	for o, r := range files {
		for _, w := range pkgsWanted {
			if filepath.Dir(o) == filepath.Join(repoDir, zzDir, w) {
				wanted = append(wanted, r)
			}
		}
	}
	sort.Strings(wanted)
	l.dirs, err = parseDirectives(wanted)
	return l, err
}

func markDirty(p *Program, f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			var ops []*ssa.Value
			if s, ok := i.(*ssa.Store); ok {
				mark(p, s.Addr)
				continue
			}
			if _, ok := i.(*ssa.Call); ok {
				for _, o := range i.Operands(ops) {
					if *o != nil {
						if g, ok := (*o).(*ssa.Global); ok {
							p.gdirty[g] = true
						}
					}
				}
			}
		}
	}
}

func mark(p *Program, v ssa.Value) {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			p.gdirty[x] = true
			return
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return
		}
	}
}

func newMachine(p *Program) *Machine {
	tt := NewTermTable()
	m := &Machine{p: p, tt: tt, solver: NewSolver(tt), maxSteps: 200_000_000, maxPaths: 1 << 30, maxDepth: 3000, maxStates: 20000,
		fnsSeen: map[*FnInfo]bool{}, classMemo: map[classKey]*Term{}, params: map[string]int{}}
	return m
}

// initBase runs the package initialisers and the warm-up functions concretely; their heap becomes the base heap.
func initBase(l *Loaded) (err error) {
	p := l.prog
	m := newMachine(p)
	m.initMode = true
	m.res = newJobResult(nil)
	st := &State{tok: &token{}}
	st.heap.next = int32(len(p.gnames))
	run := func(f *ssa.Function) error {
		m.work = nil
		st.gs = []*Gor{{tok: st.tok}}
		st.cur = 0
		st.steps = 0
		r := m.call(st, p.fn(f).fv, nil)
		if r != pending {
			return nil
		}
		end := m.run(st)
		if end != endDone || len(m.work) > 0 {
			s := ""
			for _, v := range m.res.viol {
				s += v.Label + " " + v.Detail + "; "
			}
			for u := range m.res.unsup {
				s += "unsupported " + u + "; "
			}
			return fmt.Errorf("initialisation of %s: end=%d forks=%d %s", f, end, len(m.work), s)
		}
		return nil
	}
	for _, r := range l.roots {
		if err := run(r.Func("init")); err != nil {
			return err
		}
	}
	for _, pk := range p.prog.AllPackages() {
		if initAllowed(pk.Pkg.Path()) {
			p.initOK[pk] = true
		}
	}
	m.rtypeTI()
	var ws []string
	for n := range l.harn {
		if strings.HasSuffix(n, ".Warmup") {
			ws = append(ws, n)
		}
	}
	sort.Strings(ws)
	for _, n := range ws {
		if err := run(l.harn[n]); err != nil {
			return err
		}
	}
	h := st.heap
	p.base = &h
	return nil
}

func (m *Machine) initialState(f *ssa.Function) *State {
	st := &State{tok: &token{}}
	st.heap.next = m.p.base.next
	m.nextID = m.p.base.next + 1000
	st.heap.pages = append([]*page(nil), m.p.base.pages...)
	st.gs = []*Gor{{tok: st.tok}}
	r := m.call(st, m.p.fn(f).fv, nil)
	if r != pending {
		panic("harness function is native")
	}
	return st
}

var _ = types.Typ
