package main

// Driver: one property check = harness instances explored symbolically in parallel, counterexamples and witnesses
// replayed natively against the real build.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Instance struct {
	dir    string // harness package directory
	fn     string
	params map[string]string
	opts   map[string]string
	line   string
	// results
	x       *Exec
	wall    time.Duration
	err     string
	skipped bool
}

type replayCase struct {
	Fn     string
	Params map[string]string
	Inputs map[string]uint64
}

type replayResult struct {
	I      int
	Status string
	Msg    string
	Obs    []string
	Covers []string
	Stack  string
}

var (
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "quick", "quick or thorough")
	flagOnly    = flag.String("only", "", "run only instances whose line contains this")
	flagInst    = flag.String("inst", "", "run only this instance line")
	flagVerbose = flag.Bool("v", false, "print per-instance results")
	flagProf    = flag.Bool("prof", false, "print fork sites")
	flagJobs    = flag.Int("j", 8, "parallel instances")
	flagBudget  = flag.Int("budget", 0, "seconds for the exploration (0: tier default)")
	flagTrace   = flag.Bool("trace", false, "trace merge failures")
	flagNoNat   = flag.Bool("nonative", false, "skip native replay")
	flagReplay  = flag.String("replay", "", "replay file to run natively")
	flagDebug   = flag.Bool("debug", false, "show vDebug output")
	flagCPU     = flag.String("cpuprofile", "", "")
)

type checkFiles struct {
	files map[string][]string // dir -> files
}

func discover(prop string) checkFiles {
	cf := checkFiles{files: map[string][]string{}}
	lp := strings.ToLower(prop)
	for _, p := range harnessPkgs {
		own, _ := filepath.Glob(filepath.Join(verifDir, "harness", p.dir, "zzv_"+lp+"*.go"))
		if len(own) == 0 {
			continue
		}
		shared, _ := filepath.Glob(filepath.Join(verifDir, "harness", p.dir, "zzv_h_*.go"))
		common, _ := filepath.Glob(filepath.Join(verifDir, "harness/common/zzv_h_*.go"))
		shared = append(shared, common...)
		need := map[string]bool{}
		for _, f := range own {
			cf.files[p.dir] = append(cf.files[p.dir], filepath.Base(f))
			b, _ := os.ReadFile(f)
			// "//use name" lines select the shared helper files
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "//use ") {
					for _, n := range strings.Fields(l[6:]) {
						need[n] = true
					}
				}
			}
		}
		// helpers may use helpers
		for ch := true; ch; {
			ch = false
			for _, f := range shared {
				n := strings.TrimSuffix(strings.TrimPrefix(filepath.Base(f), "zzv_h_"), ".go")
				if !need[n] {
					continue
				}
				b, _ := os.ReadFile(f)
				for _, l := range strings.Split(string(b), "\n") {
					if strings.HasPrefix(l, "//use ") {
						for _, m := range strings.Fields(l[6:]) {
							if !need[m] {
								need[m] = true
								ch = true
							}
						}
					}
				}
			}
		}
		for _, f := range shared {
			n := strings.TrimSuffix(strings.TrimPrefix(filepath.Base(f), "zzv_h_"), ".go")
			if need[n] {
				cf.files[p.dir] = append(cf.files[p.dir], filepath.Base(f))
			}
		}
	}
	return cf
}

func parseLine(dir, l string) *Instance {
	in := &Instance{dir: dir, params: map[string]string{}, opts: map[string]string{}, line: l}
	for i, f := range strings.Fields(l) {
		if i == 0 {
			in.fn = f
			continue
		}
		k, v, ok := strings.Cut(f, "=")
		if !ok {
			continue
		}
		if strings.HasPrefix(k, "@") {
			in.opts[k[1:]] = v
		} else {
			in.params[k] = v
		}
	}
	return in
}

// callConcrete runs a harness function returning []string concretely.
func callConcrete(fi *FnInfo, args ...Val) ([]string, error) {
	x := NewExec()
	x.concreteMode = true
	st := &State{h: P.baseHeap(), model: &Model{}}
	x.params["tier"] = *flagTier
	x.push(st, fi, args, nil, retNormal)
	x.explore(st)
	x.sol.Close()
	if len(x.result) != 1 {
		if len(x.incompl) == 0 && len(x.cands) == 0 && x.paths == 1 {
			return nil, nil
		}
		return nil, fmt.Errorf("enumeration %s failed: %v %v", fi.name, x.incompl, x.cands)
	}
	var out []string
	for _, v := range x.sliceVals(st, x.result[0], tiString) {
		s, _ := v.concStr()
		out = append(out, s)
	}
	return out, nil
}

// stopAt (UnixNano, 0 = never) is set once a violation is confirmed on the real code: what is still running then
// gets a little more time only.
var stopAt int64

// early replays candidates while the exploration goes on.
type early struct {
	bins map[string]*nativeBin
	tmp  string
	sem  chan bool
	wg   sync.WaitGroup
	mu   sync.Mutex
	done map[string]replayResult // by instance and position
}

func (e *early) key(in *Instance, i int) string { return fmt.Sprint(in.dir, in.line, "#", i) }

func (e *early) start(in *Instance, i int, c Candidate) {
	nb := e.bins[in.dir]
	if nb == nil || c.Kind == "sharedwrite" || i >= 8 {
		return
	}
	e.wg.Add(1)
	go func() {
		defer e.wg.Done()
		<-nb.done
		if nb.err != nil {
			return
		}
		e.sem <- true
		defer func() { <-e.sem }()
		k := e.key(in, i)
		r := runNative(nb, []replayCase{{in.fn, in.params, c.Inputs}}, e.tmp, 30*time.Second, fmt.Sprintf("e%x", sha256.Sum256([]byte(k))))[0]
		e.mu.Lock()
		e.done[k] = r
		e.mu.Unlock()
		if confirms(c.Kind, r) && in.opts["known"] == "" {
			atomic.CompareAndSwapInt64(&stopAt, 0, time.Now().Add(60*time.Second).UnixNano())
		}
	}()
}

func confirms(kind string, r replayResult) bool {
	if kind == "hang" {
		return r.Status == "hang" || r.Status == "crash"
	}
	return r.Status == "assert" || r.Status == "panic" || r.Status == "crash" || r.Status == "hang"
}

func outOfTime(deadline time.Time) bool {
	now := time.Now()
	s := atomic.LoadInt64(&stopAt)
	return !deadline.IsZero() && now.After(deadline) || s != 0 && now.UnixNano() > s
}

// The instance with the most pending states is given up when memory runs low.
var (
	memHigh  int32
	running  = map[*Exec]bool{}
	runMu    sync.Mutex
	memLimit = uint64(16 << 30)
)

func watchMemory() {
	var m runtime.MemStats
	for {
		time.Sleep(300 * time.Millisecond)
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > memLimit {
			runtime.GC()
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > memLimit {
				atomic.StoreInt32(&memHigh, 1)
				time.Sleep(2 * time.Second)
			}
		}
	}
}

// largest tells whether no other instance has more pending states.
func (x *Exec) largest() bool {
	runMu.Lock()
	defer runMu.Unlock()
	for o := range running {
		if atomic.LoadInt64(&o.pend) > int64(len(x.work)-x.ngone) {
			return false
		}
	}
	return true
}

func runInstance(in *Instance, deadline time.Time, e *early) {
	t0 := time.Now()
	x := NewExec()
	in.x = x
	runMu.Lock()
	running[x] = true
	runMu.Unlock()
	defer func() {
		runMu.Lock()
		delete(running, x)
		runMu.Unlock()
	}()
	x.onCand = func(i int, c Candidate) { e.start(in, i, c) }
	x.deadline = deadline
	x.params = in.params
	x.params["tier"] = *flagTier
	x.baseNext = P.base.next
	x.trace = *flagTrace
	if *flagProf || *flagVerbose {
		x.forkSites = map[string]int{}
	}
	geti := func(k string, d int) int {
		if v, ok := in.opts[k]; ok {
			n, _ := strconv.Atoi(v)
			return n
		}
		return d
	}
	x.maxSteps = int64(geti("steps", 3000000))
	x.maxConc = geti("conc", 300)
	x.allocCap = int64(geti("alloc", 1<<22))
	x.maxPaths = geti("paths", 1<<30)
	x.hangCand = geti("hang", 0) != 0
	x.merging = geti("merge", 1) != 0
	if t := geti("time", 0); t > 0 {
		if d := t0.Add(time.Duration(t) * time.Second); d.Before(deadline) {
			x.deadline = d
		}
	}
	x.sol.TimeoutMs = geti("qtime", 20000)
	if b, ok := in.opts["solver"]; ok {
		x.sol.bin = b
	}
	defer func() {
		x.sol.Close()
		in.wall = time.Since(t0)
		if r := recover(); r != nil {
			in.err = fmt.Sprint(r)
			if u, ok := r.(unsupported); ok {
				in.err = u.msg
			}
			if *flagVerbose {
				debug.PrintStack()
			}
			x.incomplete("internal error: " + in.err)
		}
	}()
	path, _ := pkgInfo(in.dir)
	fi := findFunc(path, in.fn)
	st := &State{h: P.baseHeap(), model: &Model{}}
	x.push(st, fi, nil, nil, retNormal)
	x.explore(st)
}

// ---------- native side

type nativeBin struct {
	path string
	err  error
	done chan struct{}
	race bool
}

func buildNative(dir string, files []string, fns []string, tmp string, race bool) *nativeBin {
	nb := &nativeBin{done: make(chan struct{}), race: race}
	go func() {
		defer close(nb.done)
		path, name := pkgInfo(dir)
		rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
		ov := map[string]string{}
		wr := filepath.Join(tmp, "nat_"+dir)
		if race {
			wr = filepath.Join(tmp, "race_"+dir)
		}
		os.MkdirAll(wr, 0755)
		for p, b := range harnessFiles(dir, files) {
			f := filepath.Join(wr, filepath.Base(p))
			os.WriteFile(f, b, 0644)
			ov[p] = f
		}
		b, err := os.ReadFile(filepath.Join(verifDir, "harness/rt/zzv_replay_test.go"))
		if err != nil {
			nb.err = err
			return
		}
		t := strings.Replace(string(b), "package HARNESS", "package "+name, 1)
		t += "\nvar vTable = map[string]func(){\n"
		for _, f := range fns {
			t += fmt.Sprintf("\t%q: %s,\n", f, f)
		}
		t += "}\n"
		f := filepath.Join(wr, "zzv_replay_test.go")
		os.WriteFile(f, []byte(t), 0644)
		ov[filepath.Join(repoDir, rel, "zzv_replay_test.go")] = f
		// the repository's own test files are not needed
		ents, _ := os.ReadDir(filepath.Join(repoDir, rel))
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), "_test.go") {
				ov[filepath.Join(repoDir, rel, e.Name())] = ""
			}
		}
		oj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		of := filepath.Join(wr, "overlay.json")
		os.WriteFile(of, oj, 0644)
		nb.path = filepath.Join(wr, "replay.test")
		args := []string{"test", "-overlay", of, "-vet=off", "-c", "-o", nb.path}
		if race {
			args = append(args, "-race")
		}
		args = append(args, path)
		cmd := exec.Command("go", args...)
		cmd.Dir = repoDir
		cmd.Env = goEnv(race)
		out, err := cmd.CombinedOutput()
		if err != nil {
			nb.err = fmt.Errorf("building the native replay for %s: %v\n%s", path, err, out)
		}
	}()
	return nb
}

// runNative replays cases; a crash of the process is reported as status "crash", a timeout as "hang".
func runNative(nb *nativeBin, cases []replayCase, tmp string, timeout time.Duration, id string) []replayResult {
	inF := filepath.Join(tmp, "in_"+id+".json")
	outF := filepath.Join(tmp, "out_"+id+".json")
	b, _ := json.Marshal(cases)
	os.WriteFile(inF, b, 0644)
	os.Remove(outF)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	lim := "ulimit -v 12000000; "
	if nb.race {
		lim = "" // the race detector reserves a large address space
	}
	cmd := exec.CommandContext(ctx, "bash", "-c", lim+"exec \"$0\" -test.run '^TestVReplay$' -test.timeout 0", nb.path)
	cmd.Dir = tmp
	cmd.WaitDelay = 2 * time.Second
	cmd.Env = append(goEnv(false), "VERIF_REPLAY="+inF, "VERIF_REPLAY_OUT="+outF, "GOTRACEBACK=single", "GOMEMLIMIT=off", "TMPDIR="+tmp)
	if nb.race {
		cmd.Env = append(cmd.Env, "VERIF_RACE=1", "GORACE=halt_on_error=1 exitcode=66")
	}
	var ob bytes.Buffer
	cmd.Stdout, cmd.Stderr = &limitW{&ob, 1 << 16}, &limitW{&ob, 1 << 16}
	err := cmd.Run()
	var res []replayResult
	data, _ := os.ReadFile(outF)
	for _, l := range strings.Split(string(data), "\n") {
		var r replayResult
		if l != "" && json.Unmarshal([]byte(l), &r) == nil {
			res = append(res, r)
		}
	}
	if len(res) < len(cases) {
		st := "crash"
		if ctx.Err() != nil {
			st = "hang"
		}
		msg := ob.String()
		if len(msg) > 1500 {
			msg = msg[:1500]
		}
		res = append(res, replayResult{I: len(res), Status: st, Msg: fmt.Sprint(err, " ", msg)})
	}
	return res
}

type limitW struct {
	b *bytes.Buffer
	n int
}

func (l *limitW) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

// ---------- known findings

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Fn       string `json:"fn"`
	Match    string `json:"match"`
	Fixed    string `json:"fixed,omitempty"`
}

func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known-findings.json:", err)
		os.Exit(3)
	}
	return f.Findings
}

func doReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 3
	}
	tmp, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(tmp)
	cf := discover(rf.Property)
	nb := buildNative(rf.Dir, cf.files[rf.Dir], []string{rf.Case.Fn}, tmp, rf.Kind == "sharedwrite")
	<-nb.done
	if nb.err != nil {
		fmt.Println(nb.err)
		return 3
	}
	rs := runNative(nb, []replayCase{rf.Case}, tmp, 60*time.Second, "replay")
	for _, r := range rs {
		fmt.Printf("status=%s msg=%s\n%s\n", r.Status, r.Msg, r.Stack)
		for _, o := range r.Obs {
			fmt.Println("  ", o)
		}
		if r.Status != "ok" && r.Status != "stop" {
			return 1
		}
	}
	return 0
}

type replayFile struct {
	Property string
	Dir      string
	Kind     string
	Msg      string
	Site     string
	Instance string
	Case     replayCase
	Native   replayResult
}

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(18 << 30)
	go watchMemory()
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	debugOut = *flagDebug
	if *flagReplay != "" {
		os.Exit(doReplay(*flagReplay))
	}
	if *flagCPU != "" {
		startCPU(*flagCPU)
	}
	rc := check()
	stopCPU()
	os.Exit(rc)
}

func check() int {
	t0 := time.Now()
	prop := *flagProp
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer os.RemoveAll(tmp)
	cf := discover(prop)
	if len(cf.files) == 0 {
		fmt.Println("no harness for", prop)
		return 3
	}
	overlay := preludeFiles()
	var paths, dirs []string
	for d, fs := range cf.files {
		for p, b := range harnessFiles(d, fs) {
			overlay[p] = b
		}
		path, _ := pkgInfo(d)
		paths = append(paths, path)
		dirs = append(dirs, d)
	}
	sort.Strings(paths)
	sort.Strings(dirs)
	if err := load(overlay, paths); err != nil {
		fmt.Println("cannot load the code under check:", err)
		return 3
	}
	tLoad := time.Since(t0)
	// instances
	var insts []*Instance
	var docs []string
	fnsOf := map[string]map[string]bool{}
	for _, d := range dirs {
		path, _ := pkgInfo(d)
		sp := P.byPath[path]
		if f := sp.Func("vDoc_" + prop); f != nil {
			ls, err := callConcrete(FI(f))
			if err != nil {
				fmt.Println(err)
				return 3
			}
			docs = append(docs, ls...)
		}
		f := sp.Func("vInst_" + prop)
		if f == nil {
			continue
		}
		ls, err := callConcrete(FI(f), mkStr(*flagTier))
		if err != nil {
			fmt.Println(err)
			return 3
		}
		if *flagInst != "" {
			*flagOnly = " "
			ls = []string{*flagInst + " "}
			if sp.Func(strings.Fields(*flagInst)[0]) == nil {
				continue
			}
		}
		for _, l := range ls {
			in := parseLine(d, l)
			if sp.Func(in.fn) == nil {
				fmt.Println("no harness function", in.fn)
				return 3
			}
			if fnsOf[d] == nil {
				fnsOf[d] = map[string]bool{}
			}
			fnsOf[d][in.fn] = true
			if *flagOnly != "" && !strings.Contains(l, *flagOnly) {
				continue
			}
			insts = append(insts, in)
		}
	}
	bins := map[string]*nativeBin{}
	natFns := map[string][]string{}
	if !*flagNoNat {
		for d, m := range fnsOf {
			var fns []string
			for f := range m {
				fns = append(fns, f)
			}
			sort.Strings(fns)
			natFns[d] = fns
			bins[d] = buildNative(d, cf.files[d], fns, tmp, false)
		}
	}
	budget := 420
	if *flagTier == "thorough" {
		budget = 3 * 3600
	}
	if *flagBudget > 0 {
		budget = *flagBudget
	}
	deadline := t0.Add(time.Duration(budget) * time.Second)
	ch := make(chan *Instance)
	erl := &early{bins: bins, tmp: tmp, sem: make(chan bool, 3), done: map[string]replayResult{}}
	var wg sync.WaitGroup
	for i := 0; i < *flagJobs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for in := range ch {
				if outOfTime(deadline) {
					in.skipped = true
					continue
				}
				runInstance(in, deadline, erl)
				if *flagVerbose {
					x := in.x
					fmt.Printf("[%6.2fs] %-70s paths=%d forks=%d merges=%d steps=%d q=%d(%.2fs) asserts=%d/%d cands=%d %v %s\n", in.wall.Seconds(), in.line, x.paths, x.nforks+x.nconc, x.nmerge, x.steps, x.sol.Queries, x.sol.Time.Seconds(), x.nassertProved, x.nassert, len(x.cands), x.incompl, in.err)
				}
				if *flagProf {
					printProf(in)
				}
				in.x.work = nil
				in.x.ts = nil
				in.x.sol.cache = nil
				in.x.sol.varsOf = nil
				in.x.vars = nil
			}
		}()
	}
	for _, in := range insts {
		ch <- in
	}
	close(ch)
	wg.Wait()
	erl.wg.Wait()
	return report(prop, cf, insts, docs, bins, natFns, erl, tmp, t0, tLoad)
}

func printProf(in *Instance) {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range in.x.forkSites {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	fmt.Println("forks of", in.line, "maxq", in.x.sol.MaxQ, "mergefail", in.x.mergeFail)
	for i, e := range l {
		if i > 14 {
			break
		}
		fmt.Printf("   %6d %s\n", e.n, e.k)
	}
}

func report(prop string, cf checkFiles, insts []*Instance, docs []string, bins map[string]*nativeBin, natFns map[string][]string, erl *early, tmp string, t0 time.Time, tLoad time.Duration) int {
	known := loadKnown()
	type viol struct {
		in *Instance
		c  Candidate
		r  replayResult
	}
	var viols []viol
	var unrep []string
	var incompl []string
	var states, asserts, proved, queries, qsat, qunsat, qunk, hits, tiny, merges, npaths int
	var steps int64
	var solTime time.Duration
	fns := map[string]bool{}
	covers := map[string]int{}
	var samples []interface{}
	traces, mism := 0, 0
	var mismMsg []string
	skipped := 0
	instr := 0
	for d, nb := range bins {
		<-nb.done
		if nb.err != nil {
			fmt.Println(nb.err)
			return 3
		}
		_ = d
	}
	type job struct {
		in *Instance
		c  Candidate
		k  string
	}
	var jobs []job
	for _, in := range insts {
		if in.skipped || in.x == nil {
			skipped++
			continue
		}
		x := in.x
		states += x.nstates + 1
		npaths += x.paths
		merges += x.nmerge
		steps += x.steps
		asserts += x.nassert
		proved += x.nassertProved
		queries += x.sol.Queries
		qsat += x.sol.QSat
		qunsat += x.sol.QUnsat
		qunk += x.sol.QUnknown
		hits += x.sol.ModelHits
		tiny += x.sol.Tiny
		solTime += x.sol.Time
		for f := range x.fns {
			fns[f.name] = true
		}
		for c, n := range x.covers {
			covers[c] += n
		}
		for m, n := range x.incompl {
			incompl = append(incompl, fmt.Sprintf("%s: %s (x%d)", in.line, m, n))
		}
		for _, e := range x.sol.Errors {
			incompl = append(incompl, in.line+": solver: "+e)
		}
		for _, want := range strings.Split(in.opts["cover"], ",") {
			if want != "" && x.covers[want] == 0 {
				incompl = append(incompl, in.line+": expected situation never reached: "+want)
			}
		}
		for i, c := range x.cands {
			jobs = append(jobs, job{in, c, erl.key(in, i)})
		}
	}
	if skipped > 0 {
		incompl = append(incompl, fmt.Sprintf("%d instances not started: time budget used up or a violation already confirmed", skipped))
	}
	// writes to shared storage are replayed under the race detector
	raceBins := map[string]*nativeBin{}
	for _, j := range jobs {
		if d := j.in.dir; j.c.Kind == "sharedwrite" && bins[d] != nil && raceBins[d] == nil {
			raceBins[d] = buildNative(d, cf.files[d], natFns[d], tmp, true)
		}
	}
	for _, nb := range raceBins {
		<-nb.done
		if nb.err != nil {
			fmt.Println("no race detector:", nb.err)
		}
	}
	// replay candidates natively, in parallel, each in its own process
	var mu sync.Mutex
	sem := make(chan bool, 6)
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			c := j.c
			var r replayResult
			ok := false
			if nb := bins[j.in.dir]; nb != nil {
				to := 30 * time.Second
				var have bool
				if r, have = erl.done[j.k]; !have {
					r = runNative(nb, []replayCase{{j.in.fn, j.in.params, c.Inputs}}, tmp, to, fmt.Sprint("c", i))[0]
				}
				if rb := raceBins[j.in.dir]; c.Kind == "sharedwrite" && rb.err == nil && r.Status == "ok" {
					r = runNative(rb, []replayCase{{j.in.fn, j.in.params, c.Inputs}}, tmp, 2*to, fmt.Sprint("r", i))[0]
				}
				ok = confirms(c.Kind, r)
			}
			mu.Lock()
			defer mu.Unlock()
			if ok {
				viols = append(viols, viol{j.in, c, r})
			} else {
				unrep = append(unrep, fmt.Sprintf("%s: %s %s at %s (native: %s %s)", j.in.line, c.Kind, c.Msg, c.Site, r.Status, r.Msg))
				if *flagVerbose {
					fmt.Println("NOT REPRODUCED", j.in.line, c.Kind, c.Msg, c.Site, "native:", r.Status, r.Msg, c.Inputs)
				}
			}
		}(i, j)
	}
	wg.Wait()
	// witnesses
	for d, nb := range bins {
		var cases []replayCase
		var recs []PathRec
		var ins []*Instance
		for _, in := range insts {
			if in.dir != d || in.x == nil || in.opts["nowit"] != "" {
				continue
			}
			for _, w := range in.x.wit {
				cases = append(cases, replayCase{in.fn, in.params, w.inputs})
				recs = append(recs, w)
				ins = append(ins, in)
			}
		}
		if len(cases) == 0 {
			continue
		}
		rs := runNative(nb, cases, tmp, 180*time.Second, "w"+d)
		for k, r := range rs {
			if k >= len(recs) {
				break
			}
			good := r.Status == "ok" && len(r.Obs) == len(recs[k].obs)
			if good {
				for q := range r.Obs {
					if recs[k].obs[q] != r.Obs[q] && !strings.HasSuffix(recs[k].obs[q], "=?") {
						good = false
					}
				}
			}
			if good {
				traces++
				if len(samples) < 6 && k%7 == 0 {
					samples = append(samples, map[string]interface{}{"harness": ins[k].line, "inputs": trimInputs(recs[k].inputs), "observed": recs[k].obs, "covers": recs[k].covers})
				}
			} else {
				mism++
				m := fmt.Sprintf("%s: engine %v native %s %s %v inputs %v %s", ins[k].line, recs[k].obs, r.Status, r.Msg, r.Obs, trimInputs(recs[k].inputs), r.Stack)
				if len(mismMsg) < 10 {
					mismMsg = append(mismMsg, m)
				}
				if *flagVerbose {
					fmt.Println("TRACE MISMATCH", m)
				}
			}
		}
	}
	// verdict
	sort.Slice(viols, func(i, j int) bool {
		if viols[i].in.line != viols[j].in.line {
			return viols[i].in.line < viols[j].in.line
		}
		return viols[i].c.Msg+viols[i].c.Site < viols[j].c.Msg+viols[j].c.Site
	})
	nviol := 0
	rdir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(rdir, 0755)
	old, _ := filepath.Glob(filepath.Join(rdir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	seenKF := map[string]bool{}
	for _, v := range viols {
		kf := ""
		for _, k := range known {
			if k.Property == prop && k.Fixed == "" && k.Fn == v.in.fn && v.in.opts["known"] == k.ID && strings.Contains(v.c.Msg, k.Match) {
				kf = k.ID
				if !seenKF[k.ID] {
					seenKF[k.ID] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, k.ID, k.What)
				}
			}
		}
		if kf != "" {
			continue
		}
		nviol++
		f := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, nviol))
		b, _ := json.MarshalIndent(replayFile{prop, v.in.dir, v.c.Kind, v.c.Msg, v.c.Site, v.in.line, replayCase{v.in.fn, v.in.params, v.c.Inputs}, v.r}, "", " ")
		os.WriteFile(f, b, 0644)
		if nviol <= 25 {
			fmt.Printf("violated: %s (%s) at %s in %s; native replay: %s %s\n", v.c.Msg, v.c.Kind, v.c.Site, v.in.line, v.r.Status, firstLine(v.r.Msg))
		}
		if nviol <= 5 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		}
	}
	var fl []string
	for f := range fns {
		if strings.Contains(f, "go-mp4") && !strings.Contains(f, "zzv") {
			fl = append(fl, strings.ReplaceAll(f, modPath, "mp4"))
		}
	}
	sort.Strings(fl)
	nstd := len(fns) - len(fl)
	for fi := range allFns(insts) {
		instr += fi.ninstr
	}
	sort.Strings(incompl)
	if len(samples) == 0 {
		for _, in := range insts {
			if in.x != nil && len(samples) < 3 {
				samples = append(samples, map[string]interface{}{"harness": in.line, "paths": in.x.paths, "steps": in.x.steps})
			}
		}
	}
	var bounds, assum, outside []string
	for _, d := range docs {
		k, v, _ := strings.Cut(d, ": ")
		switch k {
		case "bound":
			bounds = append(bounds, v)
		case "assume":
			assum = append(assum, v)
		case "outside":
			outside = append(outside, v)
		}
	}
	if len(incompl) > 60 {
		incompl = append(incompl[:60], fmt.Sprintf("... and %d more", len(incompl)-60))
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": prop, "tier": *flagTier, "seed": seed, "level": "model_checking",
		"wall_s": time.Since(t0).Seconds(), "violations": nviol, "assumptions": append(assum, stdAssumptions...),
		"coverage": map[string]interface{}{
			"states": states, "transitions": steps, "traces_validated_against_impl": traces, "samples": samples,
			"trace_mismatches": mism, "trace_mismatch_detail": mismMsg,
			"explanation":        "bounded symbolic execution of the SSA of the current /repo; states = symbolic states created, transitions = SSA instructions executed symbolically, each state standing for every input that satisfies its path condition; traces = solver models of completed paths replayed natively with equal observations",
			"instances":          len(insts) - skipped,
			"completed_paths":    npaths,
			"merged_states":      merges,
			"assertions_reached": asserts, "assertions_discharged": proved,
			"solver": z3bin, "solver_queries": queries, "solver_sat": qsat, "solver_unsat": qunsat, "solver_unknown": qunk,
			"solver_s": solTime.Seconds(), "queries_answered_by_model": hits, "queries_decided_by_8bit_domain_enumeration": tiny,
			"functions_encoded": fl, "library_functions_encoded": nstd, "ssa_instructions_encoded": instr,
			"bounds": bounds, "outside_the_claim": outside, "situations_covered": covers,
			"not_explored": incompl, "counterexamples_not_reproduced": unrep, "load_s": tLoad.Seconds(),
			"instance_list": instSummaries(insts),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if *flagOnly == "" {
		if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Println(err)
			return 3
		}
	}
	fmt.Printf("%s %s: %d instances, %d paths, %d states, %d SSA steps, %d assertions (%d discharged), %d solver queries in %.1fs, %d traces replayed (%d mismatches), %d not explored, %d unreproduced, %d violations, %.1fs (load %.1fs)\n",
		prop, *flagTier, len(insts), npaths, states, steps, asserts, proved, queries, solTime.Seconds(), traces, mism, len(incompl), len(unrep), nviol, time.Since(t0).Seconds(), tLoad.Seconds())
	for i, m := range incompl {
		if i < 12 || *flagVerbose {
			fmt.Println("  not explored:", m)
		}
	}
	for i, m := range unrep {
		if i < 8 {
			fmt.Println("  not reproduced natively:", m)
		}
	}
	for i, m := range mismMsg {
		if i < 3 {
			fmt.Println("  trace mismatch:", m)
		}
	}
	if nviol > 0 {
		return 1
	}
	return 0
}

var stdAssumptions = []string{
	"the SSA interpreter, its models of runtime, reflect, fmt, os and strconv, and the SMT solver are trusted; solver models of completed paths are replayed natively and compared",
	"numbers rendered as text are represented by an injective placeholder per (base, value)",
	"maps are iterated in insertion order",
	"calls run on one goroutine",
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func allFns(insts []*Instance) map[*FnInfo]bool {
	m := map[*FnInfo]bool{}
	for _, in := range insts {
		if in.x != nil {
			for f := range in.x.fns {
				m[f] = true
			}
		}
	}
	return m
}

func instSummaries(insts []*Instance) []string {
	var o []string
	for _, in := range insts {
		if in.x == nil {
			o = append(o, in.line+": not started")
			continue
		}
		o = append(o, fmt.Sprintf("%s: paths=%d queries=%d wall=%.2fs", in.line, in.x.paths, in.x.sol.Queries, in.wall.Seconds()))
	}
	if len(o) > 400 {
		o = append(o[:400], fmt.Sprintf("... and %d more", len(o)-400))
	}
	return o
}

func trimInputs(m map[string]uint64) map[string]uint64 {
	o := map[string]uint64{}
	for k, v := range m {
		if v != 0 && len(o) < 40 {
			o[k] = v
		}
	}
	return o
}

var _ = runtime.NumCPU
