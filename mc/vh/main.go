package vh

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/openconfig/gnmi/zz_verif/vrt"
)

type job struct {
	Idx    int     `json:"idx"`
	Bound  int     `json:"bound"`
	Budget float64 `json:"budget"`
	Seed   int64   `json:"seed"`
	Replay []int32 `json:"replay,omitempty"`
	IsRep  bool    `json:"isreplay,omitempty"`
	Trace  bool    `json:"trace,omitempty"`
	LogTo  string  `json:"logto,omitempty"`
}

func known(prop, file string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C08 scenario=<name|*> key=<key> <what fails>
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 5 || f[1] != "property="+prop {
			continue
		}
		m[strings.TrimPrefix(f[2], "scenario=")+"|"+strings.TrimPrefix(f[3], "key=")] = strings.Join(f[4:], " ")
	}
	return m
}

// Main is the entry point of every check binary.
func Main(c Check) {
	worker := flag.Bool("worker", false, "")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "")
	verif := flag.String("verif", "/verif", "")
	raceBin := flag.String("racebin", "", "")
	only := flag.String("only", "", "run only scenarios whose name contains this")
	replay := flag.String("replay", "", "replay a violation file")
	list := flag.Bool("list", false, "")
	secs := flag.Float64("secs", 0, "override the time budget")
	boundF := flag.Int("bound", -1, "override the largest bound")
	workers := flag.Int("workers", 0, "")
	flag.Parse()
	scs := c.Scenarios(*tier)
	seed, _ := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	kn := known(c.Property, filepath.Join(*verif, "known-findings.txt"))
	if *worker {
		workerMain(scs, kn, *tier)
		return
	}
	if *replay != "" {
		replayMain(scs, *replay, *raceBin, kn)
		return
	}
	if *list {
		for _, s := range scs {
			fmt.Println(s.Name, "seq:", s.Seq != nil, "bound:", s.MaxBound)
		}
		return
	}
	start := time.Now()
	budget := c.QuickSec
	if budget == 0 {
		budget = 45
	}
	if *tier == "thorough" {
		budget = c.ThoroughSec
		if budget == 0 {
			budget = 600
		}
	}
	if *secs > 0 {
		budget = *secs
	}
	nw := c.Workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	if *workers > 0 {
		nw = *workers
	}
	co := &coord{c: c, scs: scs, kn: kn, seed: seed, start: start, end: start.Add(time.Duration(budget * float64(time.Second))), nw: nw, tier: *tier, raceBin: *raceBin, verif: *verif}
	var plain, race []int
	maxB := 0
	for i, s := range scs {
		if *only != "" && !strings.Contains(s.Name, *only) {
			continue
		}
		if *boundF >= 0 {
			scs[i].MaxBound = *boundF
		}
		plain = append(plain, i)
		if scs[i].MaxBound > maxB {
			maxB = scs[i].MaxBound
		}
		if s.Race && *raceBin != "" {
			race = append(race, i)
		}
	}
	co.exploreAll(plain, race, maxB)
	os.Exit(co.report())
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type coord struct {
	c       Check
	scs     []Scenario
	kn      map[string]string
	seed    int64
	start   time.Time
	end     time.Time
	nw      int
	tier    string
	raceBin string
	verif   string

	mu        sync.Mutex
	best      map[string]*JobResult // per scenario (and race flag): the deepest result
	viol      []Violation
	unconf    []Violation
	crashes   []string
	totalExec int64
	totalTr   int64
	stop      bool
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

type tail struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 1<<20 {
		t.b.Write(p)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return t.b.String() }

func (co *coord) spawn(race bool) (*proc, error) {
	bin, _ := os.Executable()
	if race {
		bin = co.raceBin
	}
	cmd := exec.Command(bin, "-worker", "-tier", co.tier, "-verif", co.verif)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200", "GORACE=exitcode=0 halt_on_error=0 history_size=3")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p := &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), err: &tail{}}
	cmd.Stderr = p.err
	return p, cmd.Start()
}

func (p *proc) close() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func (p *proc) do(j job) (*JobResult, error) {
	b, _ := json.Marshal(j)
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	l, err := p.out.ReadBytes('\n')
	if err != nil {
		p.cmd.Wait()
		return nil, fmt.Errorf("worker died: %v\n%s", err, clip(p.err.String(), 6000))
	}
	var r JobResult
	if err := json.Unmarshal(l, &r); err != nil {
		return nil, err
	}
	return &r, nil
}

type task struct {
	job  job
	race bool
}

func (co *coord) exploreAll(plain, race []int, maxB int) {
	co.best = map[string]*JobResult{}
	finished := map[string]bool{}
	key := func(i int, r bool) string { return fmt.Sprintf("%d/%v", i, r) }
	for b := 1; ; b++ {
		var tasks []task
		if b == 1 {
			for _, i := range plain {
				if co.scs[i].Seq != nil && co.scs[i].First {
					tasks = append(tasks, task{job: job{Idx: i, Seed: co.seed}})
				}
			}
			for _, i := range plain {
				if co.scs[i].Seq != nil && !co.scs[i].First {
					tasks = append(tasks, task{job: job{Idx: i, Seed: co.seed}})
				}
			}
		}
		for _, i := range race {
			if co.scs[i].Body != nil && !finished[key(i, true)] && b <= co.scs[i].RaceBound {
				tasks = append(tasks, task{job{Idx: i, Bound: b, Seed: co.seed}, true})
			}
		}
		for _, i := range plain {
			if co.scs[i].Body != nil && !finished[key(i, false)] && (b <= co.scs[i].MaxBound || b == 1) {
				bb := b
				if bb > co.scs[i].MaxBound {
					bb = co.scs[i].MaxBound
				}
				tasks = append(tasks, task{job{Idx: i, Bound: bb, Seed: co.seed}, false})
			}
		}
		if len(tasks) == 0 {
			if b > maxB {
				return
			}
			continue
		}
		if time.Now().After(co.end) || co.stop {
			return
		}
		co.round(tasks, func(t task, r *JobResult) {
			if r.Complete || r.Seq {
				finished[key(t.job.Idx, t.race)] = true
			}
		})
		if co.stop {
			return
		}
	}
}

func (co *coord) round(tasks []task, done func(task, *JobResult)) {
	var next int
	var wsum float64
	weight := func(t task) float64 {
		if w := co.scs[t.job.Idx].Weight; w > 0 {
			return w
		}
		return 1
	}
	for _, t := range tasks {
		wsum += weight(t)
	}
	var wg sync.WaitGroup
	for w := 0; w < co.nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			procs := map[bool]*proc{}
			defer func() {
				for _, p := range procs {
					p.close()
				}
			}()
			for {
				co.mu.Lock()
				left := time.Until(co.end)
				if co.stop || next >= len(tasks) || (left <= 0 && tasks[next].job.Bound > 1) {
					co.mu.Unlock()
					return
				}
				t := tasks[next]
				next++
				wt := weight(t)
				share := left.Seconds() * float64(co.nw) * wt / wsum * 2.5
				wsum -= wt
				co.mu.Unlock()
				if share > left.Seconds() {
					share = left.Seconds()
				}
				min := 0.5
				if co.scs[t.job.Idx].Seq != nil {
					min = 5
				}
				if share < min {
					share = min
				}
				t.job.Budget = share
				p := procs[t.race]
				if p == nil {
					var err error
					if p, err = co.spawn(t.race); err != nil {
						co.mu.Lock()
						co.crashes = append(co.crashes, "spawn: "+err.Error())
						co.mu.Unlock()
						return
					}
					procs[t.race] = p
				}
				r, err := p.do(t.job)
				if err != nil {
					p.close()
					delete(procs, t.race)
					co.crashed(t, err)
					continue
				}
				for i := range r.Violations {
					if t.race {
						r.Violations[i].Msg += "\n" + clip(p.err.String(), 4000)
					}
					co.confirm(t, &r.Violations[i])
				}
				co.mu.Lock()
				co.totalExec += r.Execs
				co.totalTr += r.Trans
				k := fmt.Sprintf("%d/%v", t.job.Idx, t.race)
				if o := co.best[k]; o == nil || r.Execs >= o.Execs || r.Done {
					if o != nil {
						for kk, v := range o.Known {
							r.Known[kk] = v
						}
						if o.Done && !r.Done && r.Bound > o.Bound {
							r.note("bound_completed", int64(o.Bound))
						}
					}
					co.best[k] = r
				}
				done(t, r)
				co.mu.Unlock()
				if t.race {
					// The detector reports each pair of stacks once per process.
					if len(r.Violations) > 0 {
						p.close()
						delete(procs, true)
					}
				}
			}
		}()
	}
	wg.Wait()
}

// crashed handles a worker that died (fatal error, or killed by its watchdog):
// the job is run again with every schedule logged before it is executed.
func (co *coord) crashed(t task, err error) {
	sc := &co.scs[t.job.Idx]
	msg := err.Error()
	log := filepath.Join(os.TempDir(), fmt.Sprintf("vh-%d-%d.log", os.Getpid(), t.job.Idx))
	defer os.Remove(log)
	hits := 0
	var msg2 string
	for i := 0; i < 2; i++ {
		p, e := co.spawn(t.race)
		if e != nil {
			break
		}
		j := t.job
		j.LogTo = log
		j.Budget *= 2
		if _, e := p.do(j); e != nil {
			hits++
			msg2 = e.Error()
		}
		p.close()
	}
	co.mu.Lock()
	defer co.mu.Unlock()
	if hits == 0 || strings.Contains(msg2, "signal: killed") && !strings.Contains(msg2, "fatal error") && !strings.Contains(msg2, "no progress") {
		co.crashes = append(co.crashes, fmt.Sprintf("%s: worker died once, not reproduced: %s", sc.Name, clip(msg, 500)))
		return
	}
	lb, _ := os.ReadFile(log)
	key := "crash"
	if strings.Contains(msg2, "no progress") {
		key = "hang"
	}
	v := Violation{Scenario: sc.Name, Key: key, Msg: clip(msg2, 5000), Runs: hits + 1, Of: 3, Race: t.race, Trace: []string{"schedule when it died: " + strings.TrimSpace(string(lb))}, Seq: sc.Seq != nil}
	if i := strings.Index(string(lb), "["); i > 0 {
		for _, f := range strings.Fields(strings.Trim(strings.TrimSpace(string(lb)[i:]), "[]")) {
			n, _ := strconv.Atoi(f)
			v.Choices = append(v.Choices, int32(n))
		}
	}
	if _, ok := co.kn["*|"+key]; ok {
		return
	}
	co.viol = append(co.viol, v)
	co.stop = true
}

// confirm replays a violation in fresh processes.
func (co *coord) confirm(t task, v *Violation) {
	if !v.Seq {
		ok := 0
		for i := 0; i < 5; i++ {
			p, err := co.spawn(t.race)
			if err != nil {
				break
			}
			j := t.job
			j.IsRep, j.Replay, j.Trace = true, v.Choices, i == 0
			r, err := p.do(j)
			if err != nil {
				ok++
			} else if len(r.Violations) > 0 {
				ok++
				if i == 0 {
					v.Trace = r.Violations[0].Trace
					if !t.race {
						v.Msg = r.Violations[0].Msg
					}
				}
			}
			p.close()
		}
		v.Runs, v.Of = ok, 5
	}
	co.mu.Lock()
	defer co.mu.Unlock()
	if v.Runs == 0 {
		co.unconf = append(co.unconf, *v)
		return
	}
	co.viol = append(co.viol, *v)
	co.stop = true
}

func (co *coord) report() int {
	c := co.c
	prop := c.Property
	exhaustive := true
	var states, trans, execs, replayed, pruned, horizon, diverged int64
	outs := map[uint64]bool{}
	var per []map[string]any
	var samples []string
	seenKnown := map[string]string{}
	notes := map[string]int64{}
	boundHist := map[string]int{}
	for i := range co.scs {
		for _, race := range []bool{false, true} {
			r := co.best[fmt.Sprintf("%d/%v", i, race)]
			if r == nil {
				if !race {
					exhaustive = false
				}
				continue
			}
			states += r.States
			trans += r.Trans
			execs += r.Execs
			replayed += r.Redone
			pruned += r.Pruned
			horizon += r.Horizon
			diverged += r.Diverged
			for _, h := range r.OutHash {
				outs[h] = true
			}
			for k, v := range r.Known {
				seenKnown[k] = v
			}
			for k, v := range r.Notes {
				notes[k] += v
			}
			cov := "sequential: "
			done := r.Bound
			if !r.Done {
				done = r.Bound - 1
				if v, ok := r.Notes["bound_completed"]; ok {
					done = int(v)
				}
			}
			switch {
			case r.Seq && r.Done:
				cov += "enumerated completely"
			case r.Seq:
				cov += "cut by the time budget"
				exhaustive = false
			case r.Complete:
				cov = "all schedules explored"
				boundHist["complete"]++
			default:
				cov = fmt.Sprintf("all schedules with at most %d deviations explored", done)
				boundHist[fmt.Sprintf("bound %d", done)]++
				decl := co.scs[i].Declared
				if decl == 0 {
					decl = 1
				}
				if decl > co.scs[i].MaxBound {
					decl = co.scs[i].MaxBound
				}
				if done < decl && !race {
					exhaustive = false
				}
			}
			m := map[string]any{"scenario": r.Scenario, "coverage": cov, "executions": r.Execs, "states": r.States, "transitions": r.Trans, "outcomes": r.Outcomes}
			if r.MaxThreads > 0 {
				m["threads"] = r.MaxThreads
			}
			if race {
				m["race_detector"] = true
			}
			if r.DivMsg != "" {
				m["divergence"] = r.DivMsg
			}
			per = append(per, m)
			if len(samples) < 12 && len(r.Samples) > 0 {
				samples = append(samples, r.Samples[0])
			}
		}
	}
	if len(co.viol) > 0 || len(co.crashes) > 0 || diverged > 0 {
		exhaustive = false
	}
	if len(per) > 400 {
		per = per[:400]
	}
	ev := map[string]any{
		"property": prop, "tier": co.tier, "seed": co.seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": execs,
			"samples": samples, "exhaustive": exhaustive, "executions_total_all_rounds": co.totalExec,
			"transitions_total_all_rounds":       co.totalTr,
			"executions_pruned_at_visited_state": pruned, "executions_cut_at_horizon": horizon,
			"schedules_replayed_for_determinism": replayed, "divergences": diverged,
			"distinct_outcomes": len(outs), "deviation_bounds_completed": boundHist,
			"scenarios": per, "counters": notes,
			"rule": c.Rule, "unconfirmed": co.unconf, "worker_crashes": co.crashes,
			"explanation": "Every execution runs the real implementation (sources rebuilt from /repo with synchronisation redirected to the controlled scheduler), so each explored trace is a trace of the implementation; states are distinct happens-before fingerprints (concurrent scenarios) or canonical states (sequential ones).",
		},
		"assumptions": c.Assumptions,
		"wall_s":      time.Since(co.start).Seconds(),
		"violations":  len(co.viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(co.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(co.verif, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	for _, k := range sortedKeys(seenKnown) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, seenKnown[k])
	}
	fmt.Printf("%s %s: %d scenarios, %d executions, %d states, %d transitions, %d outcomes, bounds %v, exhaustive=%v, %.1fs\n", prop, co.tier, len(per), execs, states, trans, len(outs), boundHist, exhaustive, time.Since(co.start).Seconds())
	for _, u := range co.unconf {
		fmt.Printf("UNCONFIRMED (not counted): %s %s: %s\n", u.Scenario, u.Key, clip(u.Msg, 300))
	}
	for _, u := range co.crashes {
		fmt.Printf("NOTE: %s\n", u)
	}
	if diverged > 0 {
		fmt.Printf("NOTE: %d divergences while replaying\n", diverged)
	}
	if len(co.viol) == 0 {
		return 0
	}
	dir := filepath.Join(co.verif, "replays")
	os.MkdirAll(dir, 0o755)
	for i, v := range co.viol {
		f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, i))
		vb, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, vb, 0o644)
		fmt.Printf("scenario %s, key %s, reproduced %d/%d:\n%s\n", v.Scenario, v.Key, v.Runs, v.Of, clip(v.Msg, 3000))
		if len(v.Trace) > 0 {
			tr := v.Trace
			if len(tr) > 60 {
				tr = tr[len(tr)-60:]
			}
			fmt.Println(clip(strings.Join(tr, "\n"), 6000))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
	}
	return 1
}

// cpuTime is the processor time this process has used.
func cpuTime() time.Duration {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

func workerMain(scs []Scenario, kn map[string]string, tier string) {
	debug.SetMemoryLimit(3 << 30)
	debug.SetMaxStack(256 << 20)
	var busy bool
	var mu sync.Mutex
	go func() {
		var lastP uint64
		var lastL int64
		still := 0
		var since time.Duration
		for {
			time.Sleep(time.Second)
			mu.Lock()
			b := busy
			mu.Unlock()
			p, l := vrt.Progress(), liveCounter.Load()
			if !b || p != lastP || l != lastL {
				still, since = 0, cpuTime()
			} else if still++; still >= 40 && (cpuTime()-since > 30*time.Second || still >= 150) {
				// 30 s of its own work, or 150 s asleep: on a busy machine a
				// process may well get nothing for 40 s.
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "no progress for 40s\n%s\n", buf)
				os.Exit(97)
			}
			lastP, lastL = p, l
		}
	}()
	in := bufio.NewReader(os.Stdin)
	out := os.Stdout
	os.Stdout = os.Stderr // code under test must not write into the protocol
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		if json.Unmarshal(l, &j) != nil {
			return
		}
		sc := &scs[j.Idx]
		var logf *os.File
		if j.LogTo != "" {
			logf, _ = os.Create(j.LogTo)
		}
		mu.Lock()
		busy = true
		mu.Unlock()
		if pf := os.Getenv("VH_PROF"); pf != "" {
			if f, err := os.Create(fmt.Sprintf("%s.%d", pf, os.Getpid())); err == nil {
				pprof.StartCPUProfile(f)
			}
		}
		var r *JobResult
		switch {
		case j.IsRep:
			r = &JobResult{Scenario: sc.Name}
			opt := sc.Opt
			opt.Trace = j.Trace
			res, _ := runOne(sc, opt, j.Replay, nil)
			r.DivMsg = res.Diverged
			if res.Fail != nil {
				r.Violations = append(r.Violations, Violation{Scenario: sc.Name, Key: res.Fail.Key, Msg: res.Fail.Msg, Trace: res.Trace})
			}
		case sc.Seq != nil:
			r = runSeq(sc, time.Duration(j.Budget*float64(time.Second)), kn, tier)
		default:
			r = explore(sc, j.Bound, time.Duration(j.Budget*float64(time.Second)), j.Seed, kn, logf)
		}
		pprof.StopCPUProfile()
		mu.Lock()
		busy = false
		mu.Unlock()
		b, err := json.Marshal(r)
		if err != nil {
			fmt.Fprintln(os.Stderr, "marshal:", err)
			return
		}
		out.Write(append(b, '\n'))
		debug.FreeOSMemory()
	}
}

// replayMain re-executes one recorded violation, without exploration.
func replayMain(scs []Scenario, file, raceBin string, kn map[string]string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for i := range scs {
		sc := &scs[i]
		if sc.Name != v.Scenario {
			continue
		}
		if v.Race && !vrt.RaceEnabled {
			cmd := exec.Command(raceBin, "-replay", file)
			cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
			if cmd.Run() != nil {
				os.Exit(1)
			}
			return
		}
		if sc.Seq != nil {
			r := runSeq(sc, 10*time.Minute, kn, "quick")
			for _, v := range r.Violations {
				fmt.Println(v.Key, v.Msg, strings.Join(v.Trace, "\n"))
				os.Exit(1)
			}
			fmt.Println("not reproduced")
			return
		}
		r, _ := traceOf(sc, v.Choices)
		fmt.Println(strings.Join(r.Trace, "\n"))
		if r.Fail != nil {
			fmt.Println(r.Fail.Key, r.Fail.Msg)
			os.Exit(1)
		}
		fmt.Println("not reproduced", r.Diverged)
		return
	}
	fmt.Println("no such scenario", v.Scenario)
	os.Exit(2)
}
