package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "quick", "quick or thorough")
	flagRepo    = flag.String("repo", "/repo", "repository")
	flagVerif   = flag.String("verif", "/verif", "framework directory")
	flagOnly    = flag.String("only", "", "only this target (development)")
	flagV       = flag.Bool("v", false, "verbose")
	flagNoRep   = flag.Bool("noreplay", false, "skip replay (development)")
	flagNoProve = flag.Bool("noprove", false, "skip proving (development)")
	flagNoRetry = flag.Bool("noretry", false, "no second attempt")
	flagBudget  = flag.Float64("budget", 420, "proof budget in seconds")
)

type specFile struct{ pkg, name, src string }

func main() {
	flag.Parse()
	t0 := time.Now()
	if p := os.Getenv("GOVC_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
		run(t0)
		return
	}
	code := run(t0)
	os.Exit(code)
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GO111MODULE=on", "CGO_ENABLED=0")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

// readSpecs returns the overlay files for the property.
func readSpecs(prop string) ([]specFile, error) {
	lp := strings.ToLower(prop)
	var out []specFile
	dsl, err := os.ReadFile(filepath.Join(*flagVerif, "specs", "dsl.go.txt"))
	if err != nil {
		return nil, err
	}
	dirs, _ := filepath.Glob(filepath.Join(*flagVerif, "specs", "*"))
	for _, d := range dirs {
		st, err := os.Stat(d)
		if err != nil || !st.IsDir() {
			continue
		}
		pkg := filepath.Base(d)
		fs, _ := filepath.Glob(filepath.Join(d, "zzv_*.go"))
		n := 0
		for _, f := range fs {
			b := filepath.Base(f)
			if strings.HasPrefix(b, "zzv_common") || fileOf(b, lp) || fileOf(b, "u"+lp[1:]) {
				src, err := os.ReadFile(f)
				if err != nil {
					return nil, err
				}
				out = append(out, specFile{pkg, b, string(src)})
				n++
			}
		}
		if n > 0 {
			out = append(out, specFile{pkg, "zzv_dsl.go", strings.Replace(string(dsl), "package PKG", "package "+pkgName(pkg), 1)})
		}
	}
	return out, nil
}

// fileOf: zzv_c06_c08_more.go belongs to C06 and C08
func fileOf(base, lp string) bool {
	for _, t := range strings.Split(strings.TrimSuffix(base, ".go"), "_") {
		if t == lp {
			return true
		}
	}
	return false
}

// elsewhere: contracts used here and proved by the check of another property
var elsewhere map[string]string

// provedBy: zzv_c06_u08.go is proved by C06 and used by C08
func provedBy(base string) string {
	for _, t := range strings.Split(strings.TrimSuffix(base, ".go"), "_") {
		if len(t) == 3 && t[0] == 'c' {
			return strings.ToUpper(t)
		}
	}
	return "?"
}

func pkgName(dir string) string { return filepath.Base(dir) }

type target struct {
	elsewhere string
	fn       *ssa.Function
	kind     string // lemma, contract
	contract *ssa.Function
	tfn      *ssa.Function
	pkg      string
	own      bool // belongs to the property (not only applied)
}

type targetResult struct {
	t       *target
	e       *Engine
	obls    []*Obl
	err     string
	secs    float64
	applied map[string]bool
	cases   int
}

// abortProof is set once running the code has shown a failing input: the verdict is then settled
var abortProof int32

var budgetScale = time.Duration(1)

// failed counts the obligations that were not discharged.
func (r *targetResult) failed() int {
	n := 0
	for _, o := range r.obls {
		if o.kind != "cand" && o.status != "proved" {
			n++
		}
	}
	return n
}

func shortName(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), repoPrefix+"/", "")
}

func run(t0 time.Time) int {
	prop := *flagProp
	specs, err := readSpecs(prop)
	if err != nil {
		return broken(prop, "cannot read specifications: "+err.Error(), t0)
	}
	overlay := map[string][]byte{}
	pkgs := map[string]bool{}
	propPkgs := map[string]bool{}
	for _, s := range specs {
		overlay[filepath.Join(*flagRepo, s.pkg, s.name)] = []byte(s.src)
		pkgs[s.pkg] = true
		if !strings.HasPrefix(s.name, "zzv_common") && !strings.HasPrefix(s.name, "zzv_dsl") {
			propPkgs[s.pkg] = true
		}
	}
	if len(propPkgs) == 0 {
		return broken(prop, "no specification files for "+prop, t0)
	}
	var pats []string
	for p := range pkgs {
		pats = append(pats, "./"+p)
	}
	sort.Strings(pats)
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: *flagRepo, Overlay: overlay, Env: goEnv()}
	// every repository package must be initial, so that function bodies are available
	loaded, err := packages.Load(cfg, append(pats, "./geom", "./mqo", "./mmd", "./fbx", "./unity", "./gltfutil", "./vrm", "./converter")...)
	if err != nil {
		return broken(prop, "load: "+err.Error(), t0)
	}
	var errs []string
	for _, p := range loaded {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return undecided(prop, "specifications do not type-check against the code", errs, t0)
	}
	prog, _ := ssautil.Packages(loaded, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	tLoad := time.Since(t0).Seconds()

	// collect specifications
	contracts := map[*ssa.Function]*ssa.Function{}
	lemmaOf := map[*ssa.Function]*target{}
	invs := map[string][]*ssa.Function{}
	var lemmas, conts []*target
	byTarget := map[*ssa.Function]*target{}
	names := map[string][]string{} // pkg -> replayable names
	for _, lp := range loaded {
		sp := prog.Package(lp.Types)
		if sp == nil {
			continue
		}
		var ms []string
		for n := range sp.Members {
			ms = append(ms, n)
		}
		sort.Strings(ms)
		rel := strings.TrimPrefix(lp.PkgPath, repoPrefix+"/")
		for _, n := range ms {
			fn, ok := sp.Members[n].(*ssa.Function)
			if !ok || !fn.Pos().IsValid() {
				continue
			}
			file := filepath.Base(prog.Fset.Position(fn.Pos()).Filename)
			if !strings.HasPrefix(file, "zzv_") {
				continue
			}
			own := fileOf(file, strings.ToLower(prop))
			switch {
			case strings.HasPrefix(n, "Lemma_"):
				lemmaOf[fn] = &target{fn: fn, kind: "lemma", pkg: rel, own: own}
				if own {
					lemmas = append(lemmas, lemmaOf[fn])
					names[rel] = append(names[rel], n)
				}
			case strings.HasPrefix(n, "Bounded_"):
				// bounded stand-in: executed on generated inputs only, never counted as proved
				if own {
					names[rel] = append(names[rel], n)
				}
			case strings.HasPrefix(n, "Contract_"):
				tf := contractTarget(fn, n)
				if tf == nil {
					if own {
						return undecided(prop, "contract "+n+" does not call its function", nil, t0)
					}
					continue
				}
				t := &target{fn: fn, kind: "contract", contract: fn, tfn: tf, pkg: rel, own: own}
				if !own && fileOf(file, "u"+strings.ToLower(prop)[1:]) {
					t.elsewhere = provedBy(file)
				}
				conts = append(conts, t)
				if !strings.Contains(n, "__") {
					contracts[tf] = fn
					byTarget[tf] = t
				}
				if own {
					names[rel] = append(names[rel], n)
				}
			case strings.HasPrefix(n, "Inv_"):
				k := invTarget(n)
				invs[k] = append(invs[k], fn)
			case strings.HasPrefix(n, "Gen_"):
				names[rel] = append(names[rel], n)
			}
		}
	}
	// replay in the background while proving
	var rep map[string]*replayRes
	repCh := make(chan map[string]*replayRes, 1)
	if !*flagNoRep {
		go func() {
			m := replayAll(prop, names, specs, nil)
			kn := readKnown()
			for _, r := range m {
				if r.Fail != "" && knownOf(kn, prop, r.Name, r.Fail) == nil {
					atomic.StoreInt32(&abortProof, 1)
				}
			}
			repCh <- m
		}()
	}

	var results []*targetResult
	if !*flagNoProve {
		var queue []*target
		queued := map[*target]bool{}
		elsewhere = map[string]string{}
		push := func(t *target) {
			if *flagOnly != "" && t.fn.Name() != *flagOnly {
				return
			}
			if t.elsewhere != "" {
				elsewhere[shortName(t.tfn)] = t.elsewhere
				return
			}
			if !queued[t] {
				queued[t] = true
				queue = append(queue, t)
			}
		}
		for _, c := range conts {
			if c.own {
				push(c)
			}
		}
		for _, l := range lemmas {
			push(l)
		}
		deadline := t0.Add(time.Duration(*flagBudget * float64(time.Second)))
		for i := 0; i < len(queue); i++ {
			r := runTarget(prog, queue[i], contracts, invs, deadline)
			results = append(results, r)
			for fn := range r.e.lemmasUsed {
				if t := lemmaOf[fn]; t != nil {
					push(t)
				}
				a, b := prog.Fset.Position(fn.Pos()), prog.Fset.Position(queue[i].fn.Pos())
				if a.Filename == b.Filename && a.Line >= b.Line || fn == queue[i].fn {
					r.err = "lemma " + fn.Name() + " must be declared before its use"
				}
			}
			for n := range r.applied {
				for tf, t := range byTarget {
					if tf.String() == n {
						push(t)
					}
				}
			}
			if *flagV {
				printResult(r)
			}
		}
	}
	if !*flagNoRep {
		rep = <-repCh
	}
	// a second attempt at what failed, with larger solver budgets and the machine to itself; pointless when
	// running the code already showed a failing input
	replayFailed := false
	for _, x := range rep {
		if x.Fail != "" && knownOf(readKnown(), prop, x.Name, x.Fail) == nil {
			replayFailed = true
		}
	}
	if !replayFailed && !*flagNoRetry {
		last := t0.Add(time.Duration(*flagBudget*1.6) * time.Second)
		for i, r := range results {
			if r.err != "" || r.failed() == 0 || time.Since(t0) > time.Duration(*flagBudget)*time.Second {
				continue
			}
			budgetScale = 3
			r2 := runTarget(prog, r.t, contracts, invs, last)
			budgetScale = 1
			if *flagV {
				fmt.Println("second attempt")
				printResult(r2)
			}
			if r2.err == "" && r2.failed() < r.failed() {
				results[i] = r2
			}
		}
	}
	return conclude(prop, results, rep, names, specs, tLoad, t0)
}

// contractTarget finds the function the contract calls: Contract_F or Contract_T_M.
func contractTarget(fn *ssa.Function, name string) *ssa.Function {
	want := strings.TrimPrefix(name, "Contract_")
	if i := strings.Index(want, "__"); i >= 0 {
		want = want[:i]
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if s := c.Call.StaticCallee(); s != nil && fnKeyName(s) == want {
					return s
				}
			}
		}
	}
	return nil
}

// runTarget explores every case of the specification's case distinctions (VDecide) and joins their obligations.
func runTarget(prog *ssa.Program, t *target, contracts map[*ssa.Function]*ssa.Function, invs map[string][]*ssa.Function, deadline time.Time) *targetResult {
	var all *targetResult
	var vec []bool
	for {
		r := runCase(prog, t, contracts, invs, deadline, vec)
		vec = r.e.decide
		if all == nil {
			all = r
		} else {
			all.cases++
			all.obls = append(all.obls, r.obls...)
			all.secs += r.secs
			if all.err == "" {
				all.err = r.err
			}
			for k := range r.applied {
				all.applied[k] = true
			}
			for _, p := range [][2]map[string]bool{{all.e.under, r.e.under}, {all.e.applied, r.e.applied}, {all.e.inlined, r.e.inlined}, {all.e.models, r.e.models}} {
				for k := range p[1] {
					p[0][k] = true
				}
			}
			for k := range r.e.lemmasUsed {
				all.e.lemmasUsed[k] = true
			}
			all.e.trusted = append(all.e.trusted, r.e.trusted...)
			all.e.cands = append(all.e.cands, r.e.cands...)
		}
		for len(vec) > 0 && !vec[len(vec)-1] {
			vec = vec[:len(vec)-1]
		}
		if len(vec) == 0 || all.err != "" || all.failed() > 20 {
			return all
		}
		vec = append([]bool{}, vec...)
		vec[len(vec)-1] = false
	}
}

func runCase(prog *ssa.Program, t *target, contracts map[*ssa.Function]*ssa.Function, invs map[string][]*ssa.Function, deadline time.Time, vec []bool) *targetResult {
	t0 := time.Now()
	e := newEngine(prog)
	e.contracts = contracts
	e.invs = invs
	e.lemma = t.fn.Name()
	e.decide = vec
	resetBounds(0)
	setupIfaces(e)
	r := &targetResult{t: t, e: e}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if u, ok := x.(unsupported); ok {
					r.err = u.msg
					if len(e.stack) > 0 {
						var tr []string
						for _, f := range e.stack {
							tr = append(tr, f.fn.Name())
						}
						r.err += " [in " + strings.Join(tr, " > ") + "]"
					}
					return
				}
				if os.Getenv("GOVC_PANIC") != "" {
					panic(x)
				}
				buf := make([]byte, 3000)
				n := runtime.Stack(buf, false)
				r.err = fmt.Sprintf("internal error: %v\n%s", x, buf[:n])
			}
		}()
		st := &State{heap: &Heap{map[string]*Term{}}, alloc: Birth{0, 0, true}, pc: tTrue, names: map[string]nameEnt{}}
		var args []Value
		for _, p := range t.fn.Params {
			v := e.symbolic(p.Name(), p.Type(), Birth{0, 0, true}, true)
			if pv, ok := v.(*PtrV); ok {
				e.assume(st, mkNe(pv.ref, nilRef), "parameter "+p.Name()+" is not nil")
				e.learn(mkNe(pv.ref, nilRef))
			}
			args = append(args, v)
		}
		var ap *applyCtx
		if t.kind == "contract" {
			ap = &applyCtx{target: t.tfn, verify: true}
			e.under[t.tfn.String()] = true
		}
		e.callFn(t.fn, args, nil, st, ap)
		if ap != nil && !ap.done {
			fail("contract never calls its function")
		}
	}()
	r.applied = e.applied
	if r.err == "" {
		e.prove(deadline)
	}
	r.obls = e.obls
	r.secs = time.Since(t0).Seconds()
	return r
}

// setupIfaces: the implementations of a repository interface are the repository types that satisfy it
// (closed world; recorded as an assumption when used).
var ifaceCache map[string][]types.Type

func setupIfaces(e *Engine) {
	if ifaceCache != nil {
		e.ifaceImpls = ifaceCache
		return
	}
	defer func() { ifaceCache = e.ifaceImpls }()
	var named []*types.Named
	for _, p := range e.prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), repoPrefix) {
			continue
		}
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if strings.HasPrefix(filepath.Base(e.prog.Fset.Position(tn.Pos()).Filename), "zzv_") {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
				named = append(named, nt)
			}
		}
	}
	sort.Slice(named, func(i, j int) bool { return named[i].String() < named[j].String() })
	for _, it := range named {
		in, ok := it.Underlying().(*types.Interface)
		if !ok || in.NumMethods() == 0 {
			continue
		}
		var impls []types.Type
		for _, t := range named {
			if _, isI := t.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(t, in) {
				impls = append(impls, t)
			} else if p := types.NewPointer(t); types.Implements(p, in) {
				impls = append(impls, p)
			}
		}
		if len(impls) > 0 {
			e.ifaceImpls[tyStr(it)] = impls
		}
	}
}

// ---- Houdini and final obligations

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func (e *Engine) prove(deadline time.Time) {
	var cands, rest []*Obl
	for _, o := range e.obls {
		if o.kind == "cand" {
			if !o.cand.dropped {
				cands = append(cands, o)
			}
		} else {
			rest = append(rest, o)
		}
	}
	left := func() bool { return time.Now().Before(deadline) && atomic.LoadInt32(&abortProof) == 0 }
	for round := 0; round < 30; round++ {
		var todo []*Obl
		for _, o := range cands {
			if !o.cand.dropped && o.status != "proved" {
				todo = append(todo, o)
			}
		}
		if len(todo) == 0 {
			break
		}
		rt := time.Now()
		parallel(len(todo), func(i int) {
			o := todo[i]
			if o.cand.dropped {
				return
			}
			if !left() {
				o.status = "unknown"
				o.out = "not attempted: budget exhausted, or a failing input was already found"
				return
			}
			b := Budget{budgetScale * 1500 * time.Millisecond, 0, true}
			if !o.cand.auto {
				b = Budget{budgetScale * 4 * time.Second, budgetScale * 5 * time.Second, true}
			}
			e.proveObl(o, b)
		})
		if os.Getenv("GOVC_ROUNDS") != "" {
			bad := 0
			for _, o := range todo {
				if o.status != "proved" {
					bad++
				}
			}
			fmt.Printf("round %d: %d obligations, %d failed, %.1fs\n", round, len(todo), bad, time.Since(rt).Seconds())
		}
		dropped := false
		for _, o := range todo {
			if o.status != "proved" && !o.cand.dropped {
				o.cand.dropped = true
				o.cand.why = o.name + ": " + o.out
				dropped = true
			}
		}
		if !dropped {
			break
		}
		for _, o := range cands {
			if o.status == "proved" && !o.cand.dropped {
				for c := range o.core {
					if c.dropped {
						o.status = ""
						break
					}
				}
			}
		}
	}
	parallel(len(rest), func(i int) {
		o := rest[i]
		if !left() {
			o.status = "unknown"
			o.out = "not attempted: budget exhausted, or a failing input was already found"
			return
		}
		e.proveObl(o, Budget{budgetScale * 4 * time.Second, budgetScale * 15 * time.Second, false})
	})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func printResult(r *targetResult) {
	var ok, bad, cand, candOK int
	for _, o := range r.obls {
		if o.kind == "cand" {
			cand++
			if o.status == "proved" && !o.cand.dropped {
				candOK++
			}
			continue
		}
		if o.status == "proved" {
			ok++
		} else {
			bad++
		}
	}
	fmt.Printf("%-50s %6.1fs ok=%d bad=%d cand=%d/%d err=%s\n", shortName(r.t.fn), r.secs, ok, bad, candOK, cand, r.err)
	for _, o := range r.obls {
		if o.kind != "cand" && o.status != "proved" {
			fmt.Printf("   FAIL %s %s %s [%s] %.1fs %s\n", o.kind, o.name, o.pos, o.fn, o.secs, clip(o.out, 400))
		}
	}
	if os.Getenv("GOVC_SLOW") != "" {
		for _, o := range r.obls {
			if o.status == "proved" && o.last > 0.7 {
				fmt.Printf("   slow %s %s %.1fs %s\n", o.kind, o.name, o.last, o.solver)
			}
		}
	}
	for _, c := range r.e.cands {
		if !c.auto && c.dropped {
			fmt.Printf("   dropped %s: %s\n", c.name, c.why)
		}
		if c.auto && c.dropped && os.Getenv("GOVC_CANDS") != "" {
			fmt.Printf("   auto dropped %s: %.200s\n", c.name, c.why)
		}
	}
}

// ---- replay

type replayRes struct {
	Name     string
	Tried    int
	Accepted int
	Fail     string
	Seed     int64
	Input    string
	Sample   string
	Stack    string
	Pkg      string
	Err      string
}

func seedVal() string {
	if s := os.Getenv("VERIF_SEED"); s != "" {
		return s
	}
	return "1"
}

func replayAll(prop string, names map[string][]string, specs []specFile, only map[string]bool) map[string]*replayRes {
	out := map[string]*replayRes{}
	for pkg, ns := range names {
		var run []string
		for _, n := range ns {
			if !strings.HasPrefix(n, "Gen_") && (only == nil || only[n]) {
				run = append(run, n)
			}
		}
		if len(run) == 0 {
			continue
		}
		secs := 12.0 / float64(len(run))
		if secs < 0.4 {
			secs = 0.4
		}
		n := "20000"
		if *flagTier == "thorough" || only != nil {
			secs *= 4
			n = "400000"
		}
		rs, err := replayPkg(pkg, ns, run, specs, secs, n)
		for _, r := range rs {
			r.Pkg = pkg
			out[r.Name] = r
		}
		if err != "" {
			for _, x := range run {
				if out[x] == nil {
					out[x] = &replayRes{Name: x, Pkg: pkg, Err: err}
				}
			}
		}
	}
	return out
}

func replayPkg(pkg string, all, run []string, specs []specFile, secs float64, n string) ([]*replayRes, string) {
	dir, err := os.MkdirTemp("", "govcreplay")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(dir)
	rep := map[string]string{}
	write := func(p, name, src string) {
		f := filepath.Join(dir, p+"_"+name)
		os.WriteFile(f, []byte(src), 0644)
		rep[filepath.Join(*flagRepo, p, name)] = f
	}
	for _, s := range specs {
		write(s.pkg, s.name, s.src)
	}
	rt, _ := os.ReadFile(filepath.Join(*flagVerif, "specs", "replay_test.go.txt"))
	write(pkg, "zzv_replay_test.go", strings.Replace(string(rt), "package PKG", "package "+pkgName(pkg), 1))
	gens, _ := filepath.Glob(filepath.Join(*flagVerif, "specs", pkg, "gen_*.go.txt"))
	for i, g := range gens {
		b, _ := os.ReadFile(g)
		if !strings.Contains(filepath.Base(g), "common") && !strings.Contains(filepath.Base(g), strings.ToLower(*flagProp)) {
			continue
		}
		write(pkg, fmt.Sprintf("zzv_gen%d_test.go", i), string(b))
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func Gen_") {
				nm := strings.TrimPrefix(l, "func ")
				all = append(all, nm[:strings.IndexByte(nm, '(')])
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("//go:build go1.21\n\npackage " + pkgName(pkg) + "\n\nvar vLemmas = map[string]interface{}{\n")
	for _, x := range all {
		fmt.Fprintf(&sb, "\t%q: %s,\n", x, x)
	}
	sb.WriteString("}\n")
	write(pkg, "zzv_reg_test.go", sb.String())
	// hide the package's own tests: they are not needed and may have side effects
	ts, _ := filepath.Glob(filepath.Join(*flagRepo, pkg, "*_test.go"))
	for _, t := range ts {
		rep[t] = ""
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, ov, 0644)
	res := filepath.Join(dir, "out.json")
	cmd := exec.Command("go", "test", "-overlay", of, "-vet=off", "-count=1", "-timeout", "200s", "-run", "TestZzvReplay", "./"+pkg)
	cmd.Dir = *flagRepo
	cmd.Env = append(goEnv(), "VP_LEMMAS="+strings.Join(run, ","), "VP_N="+n, fmt.Sprintf("VP_SECS=%f", secs), "VP_SEED="+seedVal(), "VP_OUT="+res)
	out, err := cmd.CombinedOutput()
	b, rerr := os.ReadFile(res)
	if rerr != nil {
		o := string(out)
		if len(o) > 4000 {
			o = o[:4000]
		}
		if cb, cerr := os.ReadFile(res + ".cur"); cerr == nil {
			var nm string
			var seed int64
			if k, _ := fmt.Sscan(string(cb), &nm, &seed); k == 2 {
				why := "the real code crashes or does not answer"
				if strings.Contains(o, "no answer within") {
					why = "the real code does not terminate within 20 s"
				}
				return []*replayRes{{Name: nm, Tried: 1, Accepted: 1, Fail: why, Seed: seed, Input: fmt.Sprintf("generated from seed %d", seed), Stack: o}}, ""
			}
		}
		return nil, "replay did not run: " + o
	}
	var rs []*replayRes
	if json.Unmarshal(b, &rs) != nil {
		return nil, "replay output unreadable"
	}
	return rs, ""
}
