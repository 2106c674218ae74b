package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"golang.org/x/tools/go/ssa"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Job struct {
	name     string
	h        *Harness
	shard    int
	maxSteps int
	mapRev   bool
	noMerge  bool
	thorough bool
	redirect bool
	known    map[string]bool
	vars     map[string]*Term
	limit    time.Duration
	maxPaths int
	solver   string
	seed     int64
}

type Witness struct {
	Harness string   `json:"harness"`
	Msg     string   `json:"msg"`
	Kind    string   `json:"kind,omitempty"`
	Vec     []uint64 `json:"vec"`
	Obs     []string `json:"obs,omitempty"`
	Where   string   `json:"where,omitempty"`
}

type JobResult struct {
	pendingModel *mEval
	shards       int
	asserts      int
	covers       map[string]int
	findings     map[string]*Witness
	viol         []*Witness
	violSeen     map[string]bool
	notes        map[string]int
	reduced      map[string]int
	unsup        map[string]int
	samples      []*Witness
	ends         map[string]int
	npaths       int
	eng          *Eng
	crashed      string
	wall         time.Duration
}

func (r *JobResult) reduce(s string)      { r.reduced[s]++ }
func (r *JobResult) note(s string)        { r.notes[s]++ }
func (r *JobResult) unsupported(s string) { r.unsup[s]++ }

func (e *Eng) vector(s *State, m *mEval) []uint64 {
	r := make([]uint64, 0, len(s.nd))
	for _, n := range s.nd {
		r = append(r, m.ev(n.t))
	}
	return r
}

func (e *Eng) obsStrings(s *State, m *mEval) []string {
	var r []string
	for _, o := range s.obs {
		v := o.vals[0]
		var x string
		switch v.k {
		case KStr:
			if isOpq(v) {
				continue
			}
			b := e.strBytes(v)
			bb := make([]byte, len(b))
			for i := range b {
				bb[i] = byte(m.ev(b[i]))
			}
			x = fmt.Sprintf("%x", bb)
		case KBool, KInt:
			x = fmt.Sprint(m.ev(e.term(v)))
		}
		r = append(r, o.label+"="+x)
	}
	return r
}

func (e *Eng) where(s *State) string {
	var r []string
	for i := len(s.frames) - 1; i >= 0 && len(r) < 6; i-- {
		f := s.frames[i]
		p := ""
		if int(f.pc) < len(f.cf.blocks[f.blk].ins) {
			if q := f.cf.blocks[f.blk].ins[f.pc].pos; q.IsValid() {
				pp := e.prog.prog.Fset.Position(q)
				p = fmt.Sprintf("@%s:%d", filepath.Base(pp.Filename), pp.Line)
			}
		}
		r = append(r, f.cf.name+p)
	}
	return strings.Join(r, " < ")
}

func (e *Eng) violate(s *State, m *mEval, msg string) {
	if e.res.violSeen[msg] {
		return
	}
	e.res.violSeen[msg] = true
	e.hurry()
	e.res.viol = append(e.res.viol, &Witness{Harness: e.job.name, Msg: msg, Kind: "assert", Vec: e.vector(s, m), Obs: e.obsStrings(s, m), Where: e.where(s)})
}

func (e *Eng) uncaught(s *State, p *panicRec) {
	e.Paths++
	e.res.ends["panic"]++
	k := "panic: " + p.msg
	if e.res.violSeen[k] {
		return
	}
	e.res.violSeen[k] = true
	e.hurry()
	e.res.viol = append(e.res.viol, &Witness{Harness: e.job.name, Msg: k, Kind: "panic", Vec: e.vector(s, s.m), Obs: e.obsStrings(s, s.m)})
}

// hurry leaves little time once there is a counterexample.
func (e *Eng) hurry() {
	if t := time.Now().Add(20 * time.Second); t.Before(e.deadline) {
		e.deadline = t
	}
}

// endless records a path that runs on and on, as a counterexample to be
// confirmed natively.
func (e *Eng) endless(s *State) {
	const k = "does not come to an end"
	if e.res.violSeen[k] {
		return
	}
	e.res.violSeen[k] = true
	e.hurry()
	e.res.viol = append(e.res.viol, &Witness{Harness: e.job.name, Msg: k, Kind: "endless", Vec: e.vector(s, s.m), Obs: e.obsStrings(s, s.m), Where: e.where(s)})
}

func (e *Eng) endPath(s *State, why string) {
	if why == "" {
		return
	}
	e.res.ends[strings.SplitN(why, ":", 2)[0]]++
}

func (e *Eng) finish(s *State) {
	e.Paths++
	e.res.ends["complete"]++
	w := &Witness{Harness: e.job.name, Kind: "sample", Vec: e.vector(s, s.m), Obs: e.obsStrings(s, s.m)}
	r := e.res
	r.npaths++
	const keep = 12
	if len(r.samples) < keep {
		r.samples = append(r.samples, w)
	} else if i := rand.New(rand.NewSource(e.job.seed*7919 + int64(r.npaths))).Intn(r.npaths); i < keep {
		r.samples[i] = w
	}
}

// runJob runs a job and gives up on it when it overruns its time.
func runJob(p *Prog, j *Job) *JobResult {
	ch := make(chan *JobResult, 1)
	go func() { ch <- runJob1(p, j) }()
	select {
	case r := <-ch:
		return r
	case <-time.After(j.limit + 15*time.Second):
		r := newJobResult()
		r.eng = &Eng{c: NewCtx(), paths: newPathTab(), prog: p, job: j, res: r, fns: map[*ssa.Function]*fnInfo{}, icache: map[*cin]icache{}}
		r.reduce("abandoned: overran the time limit")
		return r
	}
}

func newJobResult() *JobResult {
	return &JobResult{covers: map[string]int{}, findings: map[string]*Witness{}, violSeen: map[string]bool{}, notes: map[string]int{}, reduced: map[string]int{}, unsup: map[string]int{}, ends: map[string]int{}}
}

func runJob1(p *Prog, j *Job) (res *JobResult) {
	t0 := time.Now()
	res = newJobResult()
	e := &Eng{c: NewCtx(), paths: newPathTab(), prog: p, job: j, res: res, fns: map[*ssa.Function]*fnInfo{}, icache: map[*cin]icache{}, runeMemo: map[[4]int32]runeEnc{}, maxPaths: j.maxPaths}
	res.eng = e
	j.vars = map[string]*Term{}
	e.deadline = t0.Add(j.limit)
	defer func() {
		res.wall = time.Since(t0)
		if r := recover(); r != nil {
			res.crashed = fmt.Sprint(r)
			if os.Getenv("SEMSYM_TRACE") != "" {
				res.crashed += "\n" + string(debug.Stack())
			}
			res.reduce("engine error: " + fmt.Sprint(r))
		}
		if e.sol != nil {
			e.sol.Close()
		}
	}()
	sol, err := NewSolver(e.c, j.solver)
	if err != nil {
		res.reduce("solver: " + err.Error())
		return
	}
	e.sol = sol
	s := &State{id: e.newID(), m: newMEval(Model{})}
	s.inited = nil
	e.pushFrame(s, j.h.fn, nil, nil, -1, retNormal, nil)
	e.explore([]*State{s}, 1, -1)
	return
}

var natSeq int64

type nativeOut struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

type Native struct {
	bin string
	err error
	ch  chan struct{}
	dir string
}

// buildNative compiles the harness natively against the repository.
func buildNative(repo, verif string, dirs []string, hs []*Harness) *Native {
	n := &Native{ch: make(chan struct{})}
	n.dir, n.err = os.MkdirTemp("", "semsym")
	if n.err != nil {
		close(n.ch)
		return n
	}
	files, err := overlayFiles(repo, verif)
	if err != nil {
		n.err = err
		close(n.ch)
		return n
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n")
	for _, d := range dirs {
		fmt.Fprintf(&sb, "\tp_%s \"github.com/mem-memov/semnet/%s/%s\"\n", strings.ReplaceAll(d, "/", "_"), hdir, d)
	}
	sb.WriteString(")\n\nvar registry = map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t%q: p_%s.%s,\n", h.Name, strings.ReplaceAll(h.Dir, "/", "_"), h.Func)
	}
	sb.WriteString("}\n")
	reg := filepath.Join(n.dir, "registry.go")
	os.WriteFile(reg, []byte(sb.String()), 0o644)
	files[filepath.Join(repo, hdir, "run", "registry.go")] = reg
	ov, _ := json.Marshal(map[string]any{"Replace": files})
	ovf := filepath.Join(n.dir, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	n.bin = filepath.Join(n.dir, "runner")
	go func() {
		defer close(n.ch)
		cmd := exec.Command("go", "build", "-overlay", ovf, "-o", n.bin, "./"+hdir+"/run")
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), goEnv...)
		if out, err := cmd.CombinedOutput(); err != nil {
			n.err = fmt.Errorf("%v: %s", err, out)
		}
	}()
	return n
}

func (n *Native) run(ws []*Witness, thorough bool, known map[string]bool) ([]nativeOut, error) {
	<-n.ch
	if n.err != nil {
		return nil, n.err
	}
	in, _ := json.Marshal(ws)
	f := filepath.Join(n.dir, fmt.Sprintf("in%d.json", atomic.AddInt64(&natSeq, 1)))
	os.WriteFile(f, in, 0o644)
	limit := "90"
	if len(ws) == 1 {
		limit = "12"
	}
	cmd := exec.Command("timeout", limit, "bash", "-c", "ulimit -v 8000000; exec \"$0\" \"$1\"", n.bin, f)
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	cmd.Env = append(os.Environ(), "VERIF_KNOWN="+strings.Join(ks, ","), "VERIF_TH="+strconv.FormatBool(thorough))
	out, err := cmd.Output()
	var r []nativeOut
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "{") {
			var o nativeOut
			if json.Unmarshal([]byte(l), &o) == nil {
				r = append(r, o)
			}
		}
	}
	if len(r) < len(ws) && err != nil {
		// the process died on vector len(r)
		r = append(r, nativeOut{Status: "died", Msg: err.Error()})
	}
	return r, nil
}

func (n *Native) clean() {
	if n != nil && strings.Contains(n.dir, "semsym") {
		os.RemoveAll(n.dir)
	}
}

type Known struct {
	findings map[string]string // id -> description, for the property
	ids      map[string]bool
}

func loadKnown(path, prop string) Known {
	k := Known{map[string]string{}, map[string]bool{}}
	b, err := os.ReadFile(path)
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=C12 id=foo description
		f := strings.Fields(l[7:])
		if len(f) < 2 {
			continue
		}
		id := strings.TrimPrefix(f[1], "id=")
		if f[0] == "property="+prop {
			k.findings[id] = strings.Join(f[2:], " ")
			k.ids[id] = true
		}
	}
	return k
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(14 << 30)
	if len(os.Args) < 2 {
		fmt.Println("usage: semsym check|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("semsym", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	only := fs.String("only", "", "only harnesses whose name contains this")
	workers := fs.Int("j", runtime.NumCPU(), "workers")
	solver := fs.String("solver", "z3", "z3, z3-new or cvc5")
	verbose := fs.Bool("v", false, "verbose")
	budget := fs.Int("budget", 0, "overall seconds")
	oneShard := fs.Int("shard", -2, "only this shard")
	fs.Parse(os.Args[2:])
	if f := os.Getenv("SEMSYM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() {
			time.Sleep(20 * time.Second)
			pprof.StopCPUProfile()
			w.Close()
		}()
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(*prop, *tier, *repo, *verif, *only, *workers, *solver, *verbose, *budget, *oneShard))
	case "replay":
		os.Exit(replay(*repo, *verif, fs.Args()))
	}
	os.Exit(2)
}

func check(prop, tier, repo, verif, only string, workers int, solver string, verbose bool, budget int, oneShard int) int {
	t0 := time.Now()
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	thorough := tier == "thorough"
	if budget == 0 {
		budget = 240
		if thorough {
			budget = 800
		}
	}
	dirs, err := harnessDirs(verif, prop)
	if err != nil || len(dirs) == 0 {
		fmt.Println("no harness for", prop, err)
		return 2
	}
	p, hs, err := loadProg(repo, verif, dirs, prop)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	dirs = nil
	for _, h := range hs {
		if !contains(dirs, h.Dir) {
			dirs = append(dirs, h.Dir)
		}
	}
	nat := buildNative(repo, verif, dirs, hs)
	defer nat.clean()
	tLoad := time.Since(t0)
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), prop)
	redirs := map[string]bool{}
	// redirects: all of a harness's, or none where the code has changed its names
	for _, h := range hs {
		m := map[*ssa.Function]*ssa.Function{}
		for _, r := range strings.Split(h.Opts["redirect"], ";") {
			ab := strings.Split(strings.TrimSpace(r), "=>")
			if len(ab) != 2 {
				continue
			}
			a, b := p.findFunc(strings.TrimSpace(ab[0])), p.findFunc(strings.TrimSpace(ab[1]))
			if a == nil || b == nil {
				fmt.Println("NOTE:", h.Name, "runs without its summaries, there is no", strings.TrimSpace(r))
				m, h.Opts["redirect"] = nil, ""
				break
			}
			m[a] = b
		}
		for a, b := range m {
			p.redirects[a] = b
		}
		redirs[h.Name] = len(m) > 0
	}
	deadline := t0.Add(time.Duration(budget) * time.Second)
	mk := func(h *Harness, shard int) *Job {
		j := &Job{name: h.Name, h: h, shard: shard, thorough: thorough, known: known.ids, maxSteps: 80_000_000, maxPaths: 2_000_000, solver: solver, seed: seed}
		j.redirect = h.Opts["redirect"] != ""
		_, j.noMerge = h.Opts["nomerge"]
		_, j.mapRev = h.Opts["maprev"]
		j.limit = time.Until(deadline)
		if v, err := strconv.Atoi(h.Opts["time"]); err == nil && !thorough {
			j.limit = min(j.limit, time.Duration(v)*time.Second)
		}
		return j
	}
	var mu sync.Mutex
	results := map[*Harness][]*JobResult{}
	type todo struct {
		h     *Harness
		shard int
	}
	queue := make(chan todo, 100000)
	var wg sync.WaitGroup
	nh := 0
	for _, h := range hs {
		if only != "" && !strings.Contains(h.Name, only) {
			continue
		}
		if _, th := h.Opts["thorough"]; th && !thorough {
			continue
		}
		nh++
		wg.Add(1)
		queue <- todo{h, -1}
	}
	stop := false
	for i := 0; i < workers; i++ {
		go func() {
			for t := range queue {
				mu.Lock()
				st := stop
				mu.Unlock()
				if st {
					wg.Done()
					continue
				}
				r := runJob(p, mk(t.h, t.shard))
				if r.shards > 0 && t.shard < 0 {
					for k := 0; k < r.shards; k++ {
						if oneShard >= 0 && k != oneShard {
							continue
						}
						wg.Add(1)
						queue <- todo{t.h, k}
					}
				}
				mu.Lock()
				results[t.h] = append(results[t.h], r)
				if verbose {
					fmt.Printf("  %s shard %d: %v paths=%d forks=%d merges=%d/%d queries=%d (%d sat %d unsat, %d guessed) solver=%v wall=%v instrs=%d ends=%v reduced=%v unsup=%v viol=%d %s\n", t.h.Name, t.shard, "", r.eng.Paths, r.eng.Forks, r.eng.Merges, r.eng.MergeF, r.eng.sol.n().Queries, r.eng.sol.n().Sat, r.eng.sol.n().Unsat, r.eng.Guessed, r.eng.sol.n().Time.Round(time.Millisecond), r.wall.Round(time.Millisecond), r.eng.Instrs, r.ends, r.reduced, r.unsup, len(r.viol), r.crashed)
					for _, v := range r.viol {
						fmt.Printf("    viol %s %v %v %s\n", v.Msg, v.Vec, v.Obs, v.Where)
					}
				}
				st = stop
				mu.Unlock()
				if len(r.viol) > 0 && !verbose && !st && confirmed(nat, r.viol, thorough, known.ids) {
					mu.Lock()
					stop = true // one confirmed violation is enough
					mu.Unlock()
				}
				wg.Done()
			}
		}()
	}
	wg.Wait()
	close(queue)
	tSym := time.Since(t0)

	// collect
	var viol, samples []*Witness
	find := map[string]*Witness{}
	covers := map[string]int{}
	agg := map[string]int{}
	ends := map[string]int{}
	fns := map[string]bool{}
	lib := map[string]bool{}
	var blk, blkAll int
	var instrs, forks, paths, merges, queries, sat, unsat, unknown, asserts int64
	var stime time.Duration
	var guessed int64
	blkMap := map[*cfunc][]bool{}
	perH := map[string]map[string]any{}
	completeAll := true
	for h, rs := range results {
		var hp, hq, hf int
		red := map[string]int{}
		for _, r := range rs {
			viol = append(viol, r.viol...)
			samples = append(samples, r.samples...)
			for k, v := range r.findings {
				find[k] = v
			}
			for k, v := range r.covers {
				covers[h.Func+":"+k] += v
			}
			for k, v := range r.reduced {
				agg["reduced: "+h.Func+": "+k] += v
				red[k] += v
			}
			for k, v := range r.unsup {
				agg["unsupported: "+h.Func+": "+k] += v
				red[k] += v
			}
			for k, v := range r.notes {
				agg["note: "+k] += v
			}
			for k, v := range r.ends {
				ends[k] += v
			}
			e := r.eng
			for _, fi := range e.fns {
				cf := fi.cf
				if cf == nil {
					continue
				}
				n := cf.name
				if strings.Contains(n, hdir) {
					continue
				}
				if strings.Contains(n, p.mod) {
					fns[strings.ReplaceAll(n, p.mod, ".")] = true
					b := blkMap[cf]
					if b == nil {
						b = make([]bool, len(cf.blocks))
						blkMap[cf] = b
					}
					for i, x := range fi.seen {
						b[i] = b[i] || x
					}
				} else {
					lib[n] = true
				}
			}
			instrs += e.Instrs
			forks += int64(e.Forks)
			guessed += int64(e.Guessed)
			paths += int64(e.Paths)
			hp += e.Paths
			hf += e.Forks
			merges += int64(e.Merges)
			asserts += int64(r.asserts)
			if e.sol != nil {
				queries += int64(e.sol.Queries)
				hq += e.sol.Queries
				sat += int64(e.sol.Sat)
				unsat += int64(e.sol.Unsat)
				unknown += int64(e.sol.Unknown)
				stime += e.sol.Time
			}
		}
		if len(red) > 0 {
			completeAll = false
		}
		perH[h.Func] = map[string]any{"bounds": h.Opts["bounds"], "shards": len(rs), "completed_paths": hp, "forks": hf, "queries": hq, "exhausted_within_bounds": len(red) == 0, "reductions": red}
	}
	for _, b := range blkMap {
		for _, x := range b {
			blkAll++
			if x {
				blk++
			}
		}
	}
	code := 0
	nviol := 0
	// confirm violations natively
	rdir := filepath.Join(verif, "replay")
	sort.SliceStable(viol, func(i, j int) bool { return len(viol[i].Vec) < len(viol[j].Vec) })
	var unconf []string
	for i, v := range viol {
		if i >= 20 || nviol >= 3 {
			break
		}
		out, err := nat.run([]*Witness{v}, thorough, known.ids)
		if err != nil {
			fmt.Println("ERROR: native build:", err)
			return 2
		}
		ok := false
		st := nativeOut{}
		if len(out) > 0 {
			st = out[0]
			ok = st.bad()
		}
		if !ok {
			unconf = append(unconf, fmt.Sprintf("%s %q vec=%v native=%s %s", v.Harness, v.Msg, v.Vec, st.Status, st.Msg))
			continue
		}
		nviol++
		os.MkdirAll(rdir, 0o755)
		f := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, nviol))
		b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": v.Harness, "vec": v.Vec, "thorough": thorough, "engine": v, "native": st,
			"replay_cmd": "cd /verif && ./bin/semsym replay " + f}, "", " ")
		os.WriteFile(f, b, 0o644)
		fmt.Printf("counterexample: %s: %s; native run: %s %s\n", v.Harness, v.Msg, st.Status, st.Msg)
		for _, o := range st.Obs {
			fmt.Println("   ", o)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		code = 1
	}
	for _, u := range unconf {
		fmt.Println("UNCONFIRMED (not reported):", u)
	}
	// known findings
	for id, w := range find {
		out, err := nat.run([]*Witness{w}, thorough, known.ids)
		if err == nil && len(out) > 0 && out[0].Status == "finding" {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, id, known.findings[id])
		} else {
			fmt.Printf("UNCONFIRMED finding %s %v\n", id, out)
		}
	}
	// validate sampled paths against the real code
	rng := rand.New(rand.NewSource(seed))
	rng.Shuffle(len(samples), func(i, j int) { samples[i], samples[j] = samples[j], samples[i] })
	maxS := 150
	if thorough {
		maxS = 600
	}
	if len(samples) > maxS {
		samples = samples[:maxS]
	}
	validated, mism := 0, []string{}
	if code == 0 && len(samples) > 0 {
		out, err := nat.run(samples, thorough, known.ids)
		if err != nil {
			fmt.Println("ERROR: native build:", err)
			return 2
		}
		for i, o := range out {
			if i >= len(samples) {
				break
			}
			if o.Status == "ok" && comparable(redirs[samples[i].Harness], o.Obs) == comparable(redirs[samples[i].Harness], samples[i].Obs) {
				validated++
			} else {
				mism = append(mism, fmt.Sprintf("%s vec=%v status=%s %s native=%v engine=%v", samples[i].Harness, samples[i].Vec, o.Status, o.Msg, o.Obs, samples[i].Obs))
				if o.Status == "violation" || o.Status == "panic" {
					// the real run fails the property outright
					w := samples[i]
					os.MkdirAll(rdir, 0o755)
					f := filepath.Join(rdir, fmt.Sprintf("%s-v%d.json", prop, i))
					b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": w.Harness, "vec": w.Vec, "thorough": thorough, "native": o}, "", " ")
					os.WriteFile(f, b, 0o644)
					fmt.Printf("native run of a solver model fails: %s %s %s\n", w.Harness, o.Status, o.Msg)
					if code == 0 {
						fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
					}
					nviol++
					code = 1
				}
			}
		}
	}
	if len(mism) > 0 {
		for i, m := range mism {
			if i < 5 {
				fmt.Println("ENGINE/NATIVE MISMATCH:", m)
			}
		}
	}
	var fl, ll []string
	for f := range fns {
		fl = append(fl, f)
	}
	for f := range lib {
		ll = append(ll, f)
	}
	sort.Strings(fl)
	sort.Strings(ll)
	var smp []any
	for i, w := range samples {
		if i >= 6 {
			break
		}
		smp = append(smp, map[string]any{"harness": w.Harness, "solver_values": w.Vec, "observed": trunc(w.Obs, 12)})
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"wall_s": time.Since(t0).Seconds(), "violations": nviol,
		"assumptions": []string{
			"the SSA interpreter (engine/) and the solver are trusted; sampled solver models are re-run on the natively compiled code and their observations compared",
			"the storage behaves as harness/lib/store.go, which the harness H_C08_clew compares with clew; one caller at a time",
		},
		"coverage": map[string]any{
			"states":                        forks + paths + merges,
			"transitions":                   instrs,
			"traces_validated_against_impl": validated,
			"validation_mismatches":         len(mism),
			"samples":                       smp,
			"completed_symbolic_paths":      paths,
			"forks":                         forks,
			"merges":                        merges,
			"assertions_evaluated":          asserts,
			"path_ends":                     ends,
			"queries":                       queries, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unknown, "models_found_by_repair": guessed,
			"solver": solver, "solver_s": stime.Seconds(), "load_s": tLoad.Seconds(), "symbolic_s": tSym.Seconds(),
			"functions_encoded": fl, "library_functions_encoded": len(ll),
			"blocks_reached": blk, "blocks_in_encoded_functions": blkAll,
			"harnesses": perH, "reachability_witnesses": covers,
			"reductions": agg, "exhaustive_within_bounds": completeAll,
			"unconfirmed_counterexamples": unconf,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
	fmt.Printf("%s %s: harnesses=%d paths=%d forks=%d merges=%d queries=%d solver=%.1fs wall=%.1fs validated=%d/%d violations=%d exhaustive=%v blocks=%d/%d\n", prop, tier, nh, paths, forks, merges, queries, stime.Seconds(), time.Since(t0).Seconds(), validated, len(samples), nviol, completeAll, blk, blkAll)
	var ks []string
	for k := range agg {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  %s (x%d)\n", k, agg[k])
	}
	if verbose {
		fmt.Println("covers", covers)
		for cf, b := range blkMap {
			for i, x := range b {
				if !x {
					pos := "?"
					for _, in := range cf.blocks[i].ins {
						if in.pos.IsValid() {
							pp := p.prog.Fset.Position(in.pos)
							pos = fmt.Sprintf("%s:%d", pp.Filename, pp.Line)
							break
						}
					}
					if os.Getenv("SEMSYM_UNREACHED") != "" {
						fmt.Println("unreached:", cf.name, i, pos)
					}
				}
			}
		}
	}
	if code == 0 && paths == 0 && nh > 0 {
		fmt.Println("ERROR: nothing was explored")
		return 2
	}
	return code
}

func confirmed(nat *Native, ws []*Witness, thorough bool, known map[string]bool) bool {
	for i, w := range ws {
		if i >= 3 {
			break
		}
		out, err := nat.run([]*Witness{w}, thorough, known)
		if err == nil && len(out) > 0 && out[0].bad() {
			return true
		}
	}
	return false
}

func (o nativeOut) bad() bool {
	return o.Status == "violation" || o.Status == "panic" || o.Status == "died"
}

// comparable joins observations. Under a redirect the native run is not
// summarised, so identifiers of nodes differ and are left out.
func comparable(redirected bool, obs []string) string {
	var r []string
	for _, o := range obs {
		if !redirected || !strings.HasPrefix(o, "id:") {
			r = append(r, o)
		}
	}
	return strings.Join(r, "|")
}

func trunc(a []string, n int) []string {
	if len(a) > n {
		return a[:n]
	}
	return a
}

func replay(repo, verif string, args []string) int {
	if len(args) < 1 {
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var x struct {
		Property string
		Harness  string
		Vec      []uint64
		Thorough bool
	}
	if err := json.Unmarshal(b, &x); err != nil {
		fmt.Println(err)
		return 2
	}
	dirs, _ := harnessDirs(verif, x.Property)
	_, hs, err := loadProg(repo, verif, dirs, x.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	nat := buildNative(repo, verif, dirs, hs)
	defer nat.clean()
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), x.Property)
	out, err := nat.run([]*Witness{{Harness: x.Harness, Vec: x.Vec}}, x.Thorough, known.ids)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, o := range out {
		fmt.Println(o.Status, o.Msg)
		for _, l := range o.Obs {
			fmt.Println("  ", l)
		}
		if o.Status == "violation" || o.Status == "panic" || o.Status == "died" {
			return 1
		}
	}
	return 0
}
