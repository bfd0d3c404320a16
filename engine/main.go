package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type JobResult struct {
	H          *Harness
	Case       int
	Viol       []*Violation
	Obs        []ObsRecord
	Asserts    map[string]int
	Covers     map[string]int
	Incomplete map[string]int
	Funcs      map[string]int
	Notes      map[string]int
	Paths      int
	Forks      int
	Merges     int
	Instrs     int64
	Trans      int64
	Queries    int
	Sat        int
	Unsat      int
	Unknown    int
	SolverT    time.Duration
	MaxQ       time.Duration
	Wall       time.Duration
	Inputs     map[string]string
	Err        string
}

func runJob(l *Loaded, h *Harness, c int, cfg Config) (r *JobResult) {
	t0 := time.Now()
	r = &JobResult{H: h, Case: c, Funcs: map[string]int{}, Inputs: map[string]string{}}
	defer func() {
		r.Wall = time.Since(t0)
		if x := recover(); x != nil {
			r.Err = fmt.Sprintf("%v", x)
			if os.Getenv("SYMGO_DEBUG") != "" {
				r.Err += "\n" + string(debug.Stack())
			}
		}
	}()
	e := NewEngine(l, cfg)
	defer e.sol.Close()
	if e.debug {
		fmt.Fprintf(os.Stderr, "init done %.2fs objs=%d\n", time.Since(t0).Seconds(), e.nextObj)
	}
	e.deadline = time.Now().Add(cfg.Deadline)
	e.sol.deadline = e.deadline
	st := &State{heap: e.base.fork(), owner: new(int), model: NewModel(), mapOrder: cfg.MapOrder}
	g := &Gor{owner: st.owner}
	st.gors = []*Gor{g}
	nf := e.newFrame(st, h.Fn, []Value{e.f.BV(uint64(c), 64)}, nil)
	nf.hash = [2]uint64{17, 23}
	g.frames = []*Frame{nf}
	e.explore(st)
	r.Viol, r.Obs, r.Asserts, r.Covers, r.Incomplete, r.Notes = e.violations, e.observes, e.asserts, e.covers, e.incomplete, e.notes
	r.Paths, r.Forks, r.Merges, r.Instrs, r.Trans = e.paths, e.forks, e.merges, e.instrs, e.trans
	r.Queries, r.Sat, r.Unsat, r.Unknown, r.SolverT, r.MaxQ = e.sol.queries, e.sol.sat, e.sol.unsat, e.sol.unknown, e.sol.time, e.sol.maxQ
	for fn, n := range e.funcsRun {
		if !isHarnessFn(fn) {
			r.Funcs[fnName(fn)] += n
		}
	}
	for n, in := range e.inputs {
		r.Inputs[n] = fmt.Sprintf("%s/%d", in.kind, in.n)
	}
	if e.debug {
		fmt.Fprintf(os.Stderr, "job %s case %d: %.1fs paths=%d forks=%d merges=%d/%d instrs=%d queries=%d solver=%.1fs maxq=%.2fs terms=%d hashes=%d incomplete=%v covers=%v asserts=%v\n", h.Name, c, time.Since(t0).Seconds(), e.paths, e.forks, e.merges, e.mergeF, e.instrs, e.sol.queries, e.sol.time.Seconds(), e.sol.maxQ.Seconds(), len(e.f.all), len(e.hashes), e.incomplete, e.covers, e.asserts)
		dumpQprof()
	}
	return r
}

// ---- native side

type Native struct {
	dir  string
	bin  string
	race string
	l    *Loaded
	repo string
	err  error
	mu   sync.Mutex
}

func newNative(l *Loaded, repo string) *Native {
	n := &Native{l: l, repo: repo}
	n.dir, n.err = os.MkdirTemp("", "symgo")
	return n
}

func (n *Native) close() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
	if n.l != nil && n.l.GenDir != "" {
		os.RemoveAll(n.l.GenDir)
	}
}

func (n *Native) build(race bool) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.err != nil {
		return "", n.err
	}
	p := &n.bin
	if race {
		p = &n.race
	}
	if *p != "" {
		return *p, nil
	}
	ov := map[string]string{}
	for v, r := range n.l.Overlay {
		ov[v] = r
	}
	main := false
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"github.com/patrickbr/gtfstidy/zz_verif/vv\"\n\th \"github.com/patrickbr/gtfstidy/zz_verif\"\n)\n\nfunc main() {\n\tvv.Main(map[string]func(int){\n")
	for _, h := range n.l.H {
		main = main || h.Main
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", h.Name, h.Name)
	}
	sb.WriteString("\t})\n}\n")
	target := "."
	if !main {
		rp := filepath.Join(n.dir, "run.go")
		if err := os.WriteFile(rp, []byte(sb.String()), 0o644); err != nil {
			return "", err
		}
		ov[filepath.Join(n.repo, "zz_verif/run/main.go")] = rp
		target = "./zz_verif/run"
	} else {
		s := strings.Replace(sb.String(), "\th \"github.com/patrickbr/gtfstidy/zz_verif\"\n", "\t\"os\"\n", 1)
		s = strings.Replace(strings.ReplaceAll(s, ": h.", ": "), "func main() {\n", "func init() {\n\tif os.Getenv(\"VV_HARNESS\") == \"\" {\n\t\treturn\n\t}\n", 1)
		s = s[:len(s)-2] + "\tos.Exit(0)\n}\n"
		rp := filepath.Join(n.dir, "run.go")
		if err := os.WriteFile(rp, []byte(s), 0o644); err != nil {
			return "", err
		}
		ov[filepath.Join(n.repo, "zz_verif_run.go")] = rp
	}
	ob, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	op := filepath.Join(n.dir, "overlay.json")
	os.WriteFile(op, ob, 0o644)
	out := filepath.Join(n.dir, "replay")
	args := []string{"build", "-overlay", op, "-o", out}
	env := os.Environ()
	if race {
		out += "-race"
		args = []string{"build", "-race", "-overlay", op, "-o", out}
		env = append(env, "CGO_ENABLED=1")
	}
	if n.l.ModFile != "" {
		args = append(args, "-modfile", n.l.ModFile)
	}
	cmd := exec.Command("go", append(args, target)...)
	cmd.Dir = n.repo
	cmd.Env = env
	b, err := cmd.CombinedOutput()
	if err != nil {
		n.err = fmt.Errorf("native build: %v: %s", err, b)
		return "", n.err
	}
	*p = out
	return out, nil
}

type NatResult struct {
	Obs    map[string]string
	Fail   string // label of the failed assertion
	Crash  string
	Race   bool
	Dead   bool
	Ok     bool
	Assume bool
	Out    string
}

func (n *Native) run(h string, c int, inputs map[string]int64, repeat int, race bool, tier int) (*NatResult, error) {
	bin, err := n.build(race)
	if err != nil {
		return nil, err
	}
	d, err := os.MkdirTemp(n.dir, "w")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(d)
	ib, _ := json.Marshal(inputs)
	ip := filepath.Join(d, "in.json")
	os.WriteFile(ip, ib, 0o644)
	cmd := exec.Command(bin)
	cmd.Dir = d
	cmd.Env = append(os.Environ(), "VV_HARNESS="+h, "VV_CASE="+strconv.Itoa(c), "VV_INPUTS="+ip, "VV_REPEAT="+strconv.Itoa(repeat), "VV_TIER="+strconv.Itoa(tier), "GORACE=halt_on_error=1 exitcode=66", "VV_DIR="+d)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	r := &NatResult{Obs: map[string]string{}}
	select {
	case <-done:
	case <-time.After(70 * time.Second):
		// repetitions end after 20 s (vv.Main): a single one takes 50 s
		cmd.Process.Kill()
		<-done
		r.Dead = true
	}
	o := out.String()
	r.Out = o
	if len(r.Out) > 6000 {
		r.Out = r.Out[:3000] + "\n...\n" + r.Out[len(r.Out)-3000:]
	}
	for _, ln := range strings.Split(o, "\n") {
		if k := strings.Index(ln, "VV-"); k > 0 {
			ln = ln[k:]
		}
		switch {
		case strings.HasPrefix(ln, "VV-OBS "):
			p := strings.SplitN(ln[7:], "=", 2)
			if len(p) == 2 {
				s, err := strconv.Unquote(p[1])
				if err != nil {
					s = p[1]
				}
				if _, dup := r.Obs[p[0]]; !dup {
					r.Obs[p[0]] = s
				}
			}
		case strings.HasPrefix(ln, "VV-FAIL "):
			r.Fail = ln[8:]
		case strings.HasPrefix(ln, "VV-ASSUME"):
			r.Assume = true
		case strings.HasPrefix(ln, "VV-PANIC "):
			r.Crash = ln[9:]
		case strings.HasPrefix(ln, "VV-OK"):
			r.Ok = true
		}
	}
	if strings.Contains(o, "fatal error: all goroutines are asleep - deadlock!") {
		r.Dead = true
	} else if strings.Contains(o, "WARNING: DATA RACE") || strings.Contains(o, "fatal error: concurrent map") {
		r.Race = true
	} else if r.Crash == "" && !r.Ok && (strings.Contains(o, "panic: ") || strings.Contains(o, "fatal error: ")) {
		i := strings.Index(o, "panic: ")
		if i < 0 {
			i = strings.Index(o, "fatal error: ")
		}
		r.Crash = strings.SplitN(o[i:], "\n", 2)[0]
	}
	return r, nil
}

func reproduces(v *Violation, r *NatResult) bool {
	switch v.Kind {
	case "assert":
		return r.Fail != "" || r.Crash != "" || r.Dead
	case "panic":
		return r.Crash != "" || r.Race
	case "deadlock", "hang":
		return r.Dead || r.Crash != ""
	case "race":
		return r.Race
	}
	return false
}

// ---- confirmation of violations

type found struct {
	h  *Harness
	c  int
	v  *Violation
	nr *NatResult
}

// confirmer replays violations against the real code while the exploration
// goes on; the first one confirmed stops the exploration.
type confirmer struct {
	nat          *Native
	tier         int
	stop         atomic.Bool
	mu           sync.Mutex
	cond         *sync.Cond
	q            []found
	closed       bool
	end          time.Time
	over         chan bool
	found        []found
	inconclusive []string
}

func newConfirmer(n *Native, tier int) *confirmer {
	c := &confirmer{nat: n, tier: tier, over: make(chan bool)}
	c.cond = sync.NewCond(&c.mu)
	go c.loop()
	return c
}

func (c *confirmer) add(h *Harness, n int, v *Violation) {
	c.mu.Lock()
	c.q = append(c.q, found{h, n, v, nil})
	c.mu.Unlock()
	c.cond.Signal()
}

func (c *confirmer) finish() {
	c.mu.Lock()
	c.closed = true
	c.end = time.Now().Add(120 * time.Second)
	c.mu.Unlock()
	c.cond.Signal()
	<-c.over
}

func (c *confirmer) loop() {
	defer close(c.over)
	done := map[string]int{}
	tried := map[string]int{}
	for {
		c.mu.Lock()
		for len(c.q) == 0 && !c.closed {
			c.cond.Wait()
		}
		if len(c.q) == 0 || (c.closed && time.Now().After(c.end)) {
			c.mu.Unlock()
			return
		}
		x := c.q[0]
		c.q = c.q[1:]
		c.mu.Unlock()
		key := x.h.Name + "/" + x.v.Label
		if done[key] > 0 || tried[key] >= 6 || len(c.found) >= 6 {
			continue
		}
		tried[key]++
		nr, err := c.nat.run(x.h.Name, x.c, x.v.Inputs, 300, x.v.Kind == "race", c.tier)
		if err != nil {
			c.inconclusive = append(c.inconclusive, fmt.Sprintf("%s: %v", key, err))
			continue
		}
		if !reproduces(x.v, nr) {
			c.inconclusive = append(c.inconclusive, fmt.Sprintf("%s(%d): %s (%s) did not reproduce natively; inputs %v", x.h.Name, x.c, x.v.Label, x.v.Msg, x.v.Inputs))
			continue
		}
		done[key]++
		x.nr = nr
		c.found = append(c.found, x)
		c.stop.Store(true)
	}
}

// ---- check

type Known struct {
	Property string           `json:"property"`
	Harness  string           `json:"harness"`
	Case     int              `json:"case"`
	Inputs   map[string]int64 `json:"inputs"`
	Label    string           `json:"label"`
	What     string           `json:"what"`
}
type KnownFile struct {
	Known []Known  `json:"known"`
	Fixed []string `json:"fixed"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	verif := flag.String("verif", "/verif", "")
	repo := flag.String("repo", "/repo", "")
	only := flag.String("only", "", "substring of harness names to run")
	caseN := flag.Int("case", -1, "run this case only")
	par := flag.Int("j", 0, "parallel jobs")
	budget := flag.Int("budget", 0, "total wall seconds")
	tmo := flag.Int("timeout", 0, "per-job seconds (overrides)")
	replay := flag.String("replay", "", "replay file")
	noev := flag.Bool("noevidence", false, "")
	nobs := flag.Int("nobs", 3, "paths per job validated against the real code")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	debug.SetGCPercent(200)
	setupEnv()
	if pf := os.Getenv("SYMGO_PROF"); pf != "" {
		w, _ := os.Create(pf)
		pprof.StartCPUProfile(w)
	}
	if *replay != "" {
		os.Exit(doReplay(*replay, *verif, *repo))
	}
	rc := check(*prop, *tier, *verif, *repo, *only, *caseN, *par, *budget, *tmo, seed, !*noev, *nobs)
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func setupEnv() {
	for _, kv := range [][2]string{{"GOTOOLCHAIN", "local"}, {"GOPROXY", "off"}, {"GOWORK", "off"}, {"GOFLAGS", "-mod=mod"}, {"GOSUMDB", "off"}, {"GONOSUMDB", "*"}, {"GOTELEMETRY", "off"}} {
		os.Setenv(kv[0], kv[1])
	}
}

type replayFile struct {
	Property string           `json:"property"`
	Harness  string           `json:"harness"`
	Case     int              `json:"case"`
	Kind     string           `json:"kind"`
	Label    string           `json:"label"`
	Msg      string           `json:"message"`
	Pos      string           `json:"position"`
	Inputs   map[string]int64 `json:"inputs"`
	Native   string           `json:"native_output"`
	How      string           `json:"how_to_replay"`
}

func doReplay(file, verif, repo string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	l, err := loadAll(verif, repo, rf.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	n := newNative(l, repo)
	defer n.close()
	r, err := n.run(rf.Harness, rf.Case, rf.Inputs, 300, rf.Kind == "race", 0)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Println(r.Out)
	if reproduces(&Violation{Kind: rf.Kind}, r) {
		return 1
	}
	return 0
}

func check(prop, tier, verif, repo, only string, caseN, par, budget, tmo, seed int, writeEv bool, nobs int) int {
	t0 := time.Now()
	l, err := loadAll(verif, repo, prop)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	loadT := time.Since(t0)
	tierN := 0
	if tier == "thorough" {
		tierN = 1
	}
	if budget == 0 {
		budget = 560
		if tierN == 1 {
			budget = 3000
		}
		if s := os.Getenv("SYMGO_BUDGET"); s != "" {
			budget, _ = strconv.Atoi(s)
		}
	}
	if par == 0 {
		par = runtime.NumCPU()
		if par > 8 {
			par = 8
		}
	}
	type job struct {
		h *Harness
		c int
	}
	var jobs []job
	for _, h := range l.H {
		if only != "" && !strings.Contains(h.Name, only) {
			continue
		}
		n := h.Quick
		if tierN == 1 {
			n = h.Thorough
		}
		for c := 0; c < n; c++ {
			if caseN >= 0 && c != caseN {
				continue
			}
			jobs = append(jobs, job{h, c})
		}
	}
	nat := newNative(l, repo)
	defer nat.close()
	cf := newConfirmer(nat, tierN)
	end := t0.Add(time.Duration(budget) * time.Second)
	resultsW := make([]*JobResult, len(jobs))
	var rmu sync.Mutex
	set := func(i int, r *JobResult) {
		rmu.Lock()
		resultsW[i] = r
		rmu.Unlock()
	}
	var wg sync.WaitGroup
	ch := make(chan int, len(jobs))
	for i := range jobs {
		ch <- i
	}
	close(ch)
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				j := jobs[i]
				to := j.h.Timeout
				if tierN == 1 {
					to = j.h.TTimeout
				}
				if tmo > 0 {
					to = tmo
				}
				left := int(time.Until(end).Seconds())
				if cf.stop.Load() {
					set(i, &JobResult{H: j.h, Case: j.c, Incomplete: map[string]int{"not started: a violation was confirmed": 1}})
					continue
				}
				if left < 2 {
					set(i, &JobResult{H: j.h, Case: j.c, Incomplete: map[string]int{"not started: time budget": 1}})
					continue
				}
				if to > left {
					to = left
				}
				mi := j.h.MaxIter
				if mi == 0 {
					mi = 2000
				}
				cfg := Config{Tier: tierN, Seed: seed, SolverMs: 20000, Deadline: time.Duration(to) * time.Second, MaxIter: mi, Stop: &cf.stop, OnViol: func(v *Violation) { cf.add(j.h, j.c, v) }, NumCPU: 1, NObs: nobs, SliceU: j.h.SliceU, NoMerge: j.h.NoMerge}
				if cfg.SliceU == 0 {
					cfg.SliceU = 24
				}
				set(i, runJob(l, j.h, j.c, cfg))
			}
		}()
	}
	all := make(chan bool)
	go func() { wg.Wait(); close(all) }()
	select {
	case <-all:
	case <-time.After(time.Until(end) + 30*time.Second):
	}
	rmu.Lock()
	results := append([]*JobResult(nil), resultsW...)
	rmu.Unlock()
	for i, r := range results {
		if r == nil {
			results[i] = &JobResult{H: jobs[i].h, Case: jobs[i].c, Incomplete: map[string]int{"did not stop in time": 1}}
		}
	}
	cf.finish()

	// aggregate
	tot := &JobResult{Asserts: map[string]int{}, Covers: map[string]int{}, Incomplete: map[string]int{}, Funcs: map[string]int{}, Notes: map[string]int{}}
	complete, partial := 0, 0
	var partialNames []string
	jobInfo := []map[string]interface{}{}
	for _, r := range results {
		if r == nil {
			continue
		}
		for k, v := range r.Asserts {
			tot.Asserts[r.H.Name+"/"+k] += v
		}
		for k, v := range r.Covers {
			tot.Covers[r.H.Name+"/"+k] += v
		}
		for k, v := range r.Incomplete {
			tot.Incomplete[k] += v
		}
		for k, v := range r.Funcs {
			tot.Funcs[k] += v
		}
		for k, v := range r.Notes {
			tot.Notes[k] += v
		}
		tot.Paths += r.Paths
		tot.Forks += r.Forks
		tot.Merges += r.Merges
		tot.Instrs += r.Instrs
		tot.Trans += r.Trans
		tot.Queries += r.Queries
		tot.Sat += r.Sat
		tot.Unsat += r.Unsat
		tot.Unknown += r.Unknown
		tot.SolverT += r.SolverT
		if r.MaxQ > tot.MaxQ {
			tot.MaxQ = r.MaxQ
		}
		name := fmt.Sprintf("%s(%d)", r.H.Name, r.Case)
		if r.Err != "" {
			tot.Incomplete["engine error: "+r.Err]++
		}
		if len(r.Incomplete) == 0 && r.Err == "" {
			complete++
		} else {
			partial++
			partialNames = append(partialNames, name)
		}
		jobInfo = append(jobInfo, map[string]interface{}{"harness": name, "paths": r.Paths, "symbolic_inputs": len(r.Inputs), "queries": r.Queries, "wall_s": round(r.Wall.Seconds()), "incomplete": r.Incomplete})
	}

	// violations: replay natively
	exit := 0
	nviol := 0
	inconclusive := cf.inconclusive
	rdir := filepath.Join(verif, "replays")
	for i, x := range cf.found {
		nviol++
		exit = 1
		os.MkdirAll(rdir, 0o755)
		p := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, i))
		rf := replayFile{prop, x.h.Name, x.c, x.v.Kind, x.v.Label, x.v.Msg, x.v.Pos, x.v.Inputs, x.nr.Out, "/verif/check.sh -replay " + p}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		fmt.Printf("  %s: %s in %s case %d: %s\n", x.v.Kind, x.v.Label, x.h.Name, x.c, x.v.Msg)
	}

	// known findings
	var kf KnownFile
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		json.Unmarshal(b, &kf)
	}
	for _, k := range kf.Known {
		if k.Property != prop {
			continue
		}
		nr, err := nat.run(k.Harness, k.Case, k.Inputs, 100, false, tierN)
		if err == nil && (nr.Fail != "" || nr.Crash != "" || nr.Dead || nr.Race) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}

	// translator validation on completed paths
	validated, mismatches := 0, 0
	var mism []string
	samples := []interface{}{}
	vend := time.Now().Add(40 * time.Second)
	type obsJob struct {
		r *JobResult
		o ObsRecord
	}
	var ojobs []obsJob
	for k := 0; k < nobs; k++ {
		for _, r := range results {
			if r != nil && k < len(r.Obs) {
				ojobs = append(ojobs, obsJob{r, r.Obs[k]})
			}
		}
	}
	if exit == 0 {
		if _, err := nat.build(false); err == nil {
			var mu sync.Mutex
			var w2 sync.WaitGroup
			oc := make(chan obsJob, len(ojobs))
			for _, o := range ojobs {
				oc <- o
			}
			close(oc)
			for w := 0; w < par; w++ {
				w2.Add(1)
				go func() {
					defer w2.Done()
					for o := range oc {
						if time.Now().After(vend) {
							continue
						}
						nr, err := nat.run(o.r.H.Name, o.r.Case, o.o.inputs, 1, false, tierN)
						if err != nil {
							continue
						}
						bad := ""
						if !nr.Ok {
							bad = "native run did not finish: fail=" + nr.Fail + " crash=" + nr.Crash
							if nr.Assume {
								bad = "assumption fails natively"
							}
						}
						for _, ov := range o.o.obs {
							if g, ok := nr.Obs[ov.Name]; ok && g != ov.Val {
								bad += fmt.Sprintf(" %s: engine %q native %q", ov.Name, ov.Val, g)
							}
						}
						mu.Lock()
						if bad == "" {
							validated++
							if len(samples) < 3 {
								m := map[string]string{}
								for _, ov := range o.o.obs {
									m[ov.Name] = ov.Val
								}
								samples = append(samples, map[string]interface{}{"harness": o.r.H.Name, "case": o.r.Case, "inputs": o.o.inputs, "observed": m})
							}
						} else {
							mismatches++
							mism = append(mism, fmt.Sprintf("%s(%d) %v: %s", o.r.H.Name, o.r.Case, o.o.inputs, bad))
							// a native failure of the assertions is itself a violation
							if nr.Fail != "" || nr.Crash != "" {
								inconclusive = append(inconclusive, "native run on a path model fails: "+bad)
							}
						}
						mu.Unlock()
					}
				}()
			}
			w2.Wait()
		} else {
			inconclusive = append(inconclusive, err.Error())
		}
	}
	var vac []string
	for k, v := range tot.Covers {
		if v == 0 {
			vac = append(vac, k)
		}
	}
	sort.Strings(vac)
	for _, s := range inconclusive {
		fmt.Println("INCONCLUSIVE:", s)
	}
	if len(mism) > 0 {
		sort.Strings(mism)
		for _, s := range mism[:min(len(mism), 5)] {
			fmt.Println("TRANSLATION-MISMATCH:", s)
		}
	}
	for k, v := range tot.Incomplete {
		fmt.Printf("REDUCED-BOUND: %s (%d)\n", k, v)
	}
	for _, s := range vac {
		fmt.Println("VACUOUS:", s)
	}
	var funcs []string
	for f := range tot.Funcs {
		if strings.Contains(f, "patrickbr") {
			funcs = append(funcs, strings.ReplaceAll(f, "github.com/patrickbr/", ""))
		}
	}
	sort.Strings(funcs)
	if len(samples) == 0 {
		for _, r := range results {
			if r != nil && len(samples) < 3 {
				samples = append(samples, map[string]interface{}{"harness": r.H.Name, "case": r.Case, "symbolic_inputs": r.Inputs, "paths": r.Paths})
			}
		}
	}
	nAss := 0
	for _, v := range tot.Asserts {
		nAss += v
	}
	docs := map[string]string{}
	for _, h := range l.H {
		docs[h.Name] = strings.TrimSpace(h.Doc)
	}
	cov := map[string]interface{}{
		"states":                        tot.Paths + tot.Forks,
		"transitions":                   int(tot.Trans),
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"symbolic_paths_completed":      tot.Paths,
		"state_merges":                  tot.Merges,
		"ssa_instructions":              tot.Instrs,
		"assertions_decided":            nAss,
		"queries":                       tot.Queries,
		"queries_sat":                   tot.Sat,
		"queries_unsat":                 tot.Unsat,
		"queries_unknown":               tot.Unknown,
		"solver_s":                      round(tot.SolverT.Seconds()),
		"max_query_s":                   round(tot.MaxQ.Seconds()),
		"functions_encoded":             funcs,
		"harness_bounds":                docs,
		"jobs_complete":                 complete,
		"jobs_partial":                  partial,
		"partial":                       partialNames,
		"reduced_bound":                 tot.Incomplete,
		"jobs":                          jobInfo,
		"covers":                        tot.Covers,
		"vacuous":                       vac,
		"translation_mismatches":        mism,
		"inconclusive":                  inconclusive,
		"load_s":                        round(loadT.Seconds()),
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"inputs outside the bounds stated per harness are not covered",
			"FNV hashes of different inputs are treated as different (no hash collisions)",
			"Go map iteration order inside the processors: insertion order unless the harness asks for all orders; goroutine schedules: the ones the harness asks for",
			"output to stdout and formatting of error texts have empty bodies; math functions are evaluated natively on constants",
			"go/ssa, the symbolic executor in /verif/engine and z3 are trusted; completed paths are compared with native runs",
		},
		"wall_s":     round(time.Since(t0).Seconds()),
		"violations": nviol,
	}
	if writeEv {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644); err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d jobs complete, %d partial, %d paths, %d assertions, %d queries (%.1fs), %d paths validated natively, %d mismatches, %.1fs\n", prop, tier, complete, partial, tot.Paths, nAss, tot.Queries, tot.SolverT.Seconds(), validated, mismatches, time.Since(t0).Seconds())
	if exit == 0 && nAss == 0 {
		fmt.Println("ERROR: no assertion was reached")
		return 2
	}
	return exit
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
