package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"gpsverif/sim"
)

type limits struct {
	runs   int           // upper bound on simulated runs
	budget time.Duration // wall budget of the exploration
	shrink time.Duration // wall budget for minimisation
}

func tierLimits(prop string, thorough bool) limits {
	if thorough {
		return limits{runs: 4_000_000, budget: 240 * time.Second, shrink: 90 * time.Second}
	}
	return limits{runs: 400_000, budget: 20 * time.Second, shrink: 30 * time.Second}
}

const runWatchdog = 90 * time.Second

// stats of a worker, summed by the master.
type stats struct {
	Runs       int
	Nontrivial int
	Steps      int64
	SimTime    int64
	Switches   int64
	Preempt    int64
	Faults     map[string]int
	Events     map[string]int
	Probes     map[string]int
	Scn        map[string]int
	Other      map[string]int
	OtherAt    map[string]int // first index+1
	Hashes     []uint64
	Samples    []string
	Rechecked  int
	Mismatch   int
	Errors     []string
}

func newStats() *stats {
	return &stats{Faults: map[string]int{}, Events: map[string]int{}, Probes: map[string]int{}, Scn: map[string]int{}, Other: map[string]int{}, OtherAt: map[string]int{}}
}

func (s *stats) merge(o *stats) {
	s.Runs += o.Runs
	s.Nontrivial += o.Nontrivial
	s.Steps += o.Steps
	s.SimTime += o.SimTime
	s.Switches += o.Switches
	s.Preempt += o.Preempt
	s.Rechecked += o.Rechecked
	s.Mismatch += o.Mismatch
	add := func(a, b map[string]int) {
		for k, v := range b {
			a[k] += v
		}
	}
	add(s.Faults, o.Faults)
	add(s.Events, o.Events)
	add(s.Probes, o.Probes)
	add(s.Scn, o.Scn)
	add(s.Other, o.Other)
	for k, v := range o.OtherAt {
		if s.OtherAt[k] == 0 || s.OtherAt[k] > v {
			s.OtherAt[k] = v
		}
	}
	s.Hashes = append(s.Hashes, o.Hashes...)
	if len(s.Samples) < 3 {
		s.Samples = append(s.Samples, o.Samples...)
	}
	s.Errors = append(s.Errors, o.Errors...)
}

type message struct {
	Kind  string // start, viol, error, done
	Index int
	Case  *Case
	Stats *stats
	Err   string
}

func (s *stats) add(cs *Case, o *Outcome) {
	s.Runs++
	s.Steps += o.Res.Steps
	s.SimTime += o.Res.SimTime
	s.Switches += o.Res.Switches
	s.Preempt += o.Res.Preemptions
	for k, v := range o.Res.Faults {
		s.Faults[k] += v
	}
	for k, v := range o.Ctx.Count {
		s.Events[k] += v
	}
	for k, v := range o.Res.Probes {
		s.Probes[k] += v
	}
	s.Scn[cs.Plan.Scn]++
	for _, v := range o.Other {
		s.Other[v.Prop+":"+v.Class]++
		if k := "at " + v.Prop + ":" + v.Class; s.OtherAt[k] == 0 || s.OtherAt[k] > cs.Index+1 {
			s.OtherAt[k] = cs.Index + 1
		}
	}
	if o.Ctx.Work > 0 {
		s.Nontrivial++
		s.Hashes = append(s.Hashes, mix(o.Res.Hash, cs.Seed>>1))
	}
}

func sample(cs *Case, o *Outcome) string {
	b, _ := json.Marshal(cs.Plan)
	if len(b) > 700 {
		b = append(b[:700], "..."...)
	}
	return fmt.Sprintf("run %d seed %d: %s; %d steps, %.3f simulated s, %d switches, %d threads, schedule hash %016x", cs.Index, cs.Seed, b,
		o.Res.Steps, float64(o.Res.SimTime)/1e9, o.Res.Switches, o.Res.Threads, o.Res.Hash)
}

func watchdog(what string) func() {
	t := time.AfterFunc(runWatchdog, func() {
		buf := make([]byte, 1<<16)
		n := runtime.Stack(buf, true)
		fmt.Fprintf(os.Stderr, "harness: %s exceeded the wall-clock limit\n%s\n", what, buf[:n])
		os.Exit(7)
	})
	return func() { t.Stop() }
}

// worker explores the run indexes start, start+stride, ...
func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	start := fs.Int("start", 0, "")
	stride := fs.Int("stride", 1, "")
	max := fs.Int("max", 1000, "")
	budget := fs.Duration("budget", time.Second, "")
	thorough := fs.Bool("thorough", false, "")
	race := fs.Bool("race", false, "")
	keep := fs.Bool("keep", false, "") // go on after a violation
	fs.Parse(args)
	runtime.GOMAXPROCS(2)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	send := func(m message) { enc.Encode(m); out.Flush() }
	st := newStats()
	end := time.Now().Add(*budget)
	for i := *start; i < *max && time.Now().Before(end); i += *stride {
		cs := genCase(*prop, *seed, i, *thorough, *race)
		stop := watchdog(fmt.Sprintf("run %d of %s", i, *prop))
		fmt.Fprintf(os.Stderr, "@run %d\n", i)
		o := execCase(cs)
		stop()
		if o.Err != "" {
			st.Errors = append(st.Errors, fmt.Sprintf("run %d: %s", i, o.Err))
			send(message{Kind: "error", Index: i, Err: o.Err})
			break
		}
		st.add(cs, o)
		if len(st.Samples) < 1 && o.Ctx.Work > 0 && (i-*start) / *stride > 3 {
			st.Samples = append(st.Samples, sample(cs, o))
		}
		if len(o.V) > 0 {
			cs.Class, cs.Detail, cs.Stack = o.V[0].Class, o.V[0].Detail, clip(o.Res.Stack, 4000)
			send(message{Kind: "viol", Index: i, Case: cs})
			if !*keep {
				break
			}
		} else if rechecked(i, *stride, *race) {
			o2 := execCase(genCase(*prop, *seed, i, *thorough, *race))
			st.Rechecked++
			if o2.Res.Hash != o.Res.Hash || o2.Res.Steps != o.Res.Steps || len(o2.V) != len(o.V) || len(o2.Other) != len(o.Other) {
				st.Mismatch++
			}
		}
	}
	send(message{Kind: "done", Stats: st})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func self(args ...string) *exec.Cmd {
	exe, err := os.Executable()
	if err != nil {
		fatalf("%v", err)
	}
	c := exec.Command(exe, args...)
	c.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=4 atexit_sleep_ms=0", "GOTRACEBACK=all")
	return c
}

type workerEnd struct {
	viols []*Case
	st    *stats
	err   string
	crash int // run index during which the process died, or -1
	tail  string
}

func runWorker(w int, prop string, seed uint64, n int, lim limits, thorough, race, keep bool, stop <-chan struct{}) workerEnd {
	end := workerEnd{crash: -1}
	c := self("worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-start", fmt.Sprint(w), "-stride", fmt.Sprint(n),
		"-max", fmt.Sprint(lim.runs), "-budget", lim.budget.String(), "-thorough="+strconv.FormatBool(thorough), "-race="+strconv.FormatBool(race), "-keep="+strconv.FormatBool(keep))
	stdout, _ := c.StdoutPipe()
	stderr, _ := c.StderrPipe()
	if err := c.Start(); err != nil {
		end.err = err.Error()
		return end
	}
	stopped := make(chan struct{})
	go func() {
		select {
		case <-stop:
			c.Process.Kill()
		case <-stopped:
		}
	}()
	var tail []string
	last := -1
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		sc := bufio.NewScanner(stderr)
		sc.Buffer(make([]byte, 1<<16), 1<<22)
		for sc.Scan() {
			l := sc.Text()
			if strings.HasPrefix(l, "@run ") {
				last, _ = strconv.Atoi(l[5:])
				tail = tail[:0]
				continue
			}
			if len(tail) < 60 {
				tail = append(tail, l)
			}
		}
	}()
	dec := json.NewDecoder(stdout)
	for {
		var m message
		if err := dec.Decode(&m); err != nil {
			break
		}
		switch m.Kind {
		case "viol":
			end.viols = append(end.viols, m.Case)
		case "error":
			end.err = m.Err
		case "done":
			end.st = m.Stats
		}
	}
	wg.Wait()
	err := c.Wait()
	close(stopped)
	if end.st == nil {
		select {
		case <-stop:
			return end
		default:
		}
		end.crash = last
		end.tail = strings.Join(tail, "\n")
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 7 {
			end.err = "watchdog"
		}
	}
	return end
}

func seedFromEnv() uint64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	if v, err := strconv.ParseUint(s, 10, 63); err == nil {
		return v
	}
	return hashStr(s) >> 2
}

func root() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

// check is the master: explore, and minimise what is found.
func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	race := fs.Bool("race", false, "")
	nw := fs.Int("workers", runtime.NumCPU(), "")
	budget := fs.Duration("budget", 0, "")
	runs := fs.Int("runs", 0, "")
	noEvidence := fs.Bool("noevidence", false, "")
	noShrink := fs.Bool("noshrink", false, "")
	keep := fs.Bool("keep", false, "")
	seed := fs.Uint64("seed", seedFromEnv(), "")
	fs.Parse(args)
	thorough := *tier == "thorough"
	if propScn[*prop] == nil {
		fatalf("unknown property %q", *prop)
	}
	lim := tierLimits(*prop, thorough)
	if *budget > 0 {
		lim.budget = *budget
	}
	if *runs > 0 {
		lim.runs = *runs
	}
	t0 := time.Now()
	ends := make([]workerEnd, *nw)
	stop := make(chan struct{})
	var once sync.Once
	var wg sync.WaitGroup
	for i := 0; i < *nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ends[i] = runWorker(i, *prop, *seed, *nw, lim, thorough, *race, *keep, stop)
			if len(ends[i].viols) > 0 && !*keep || ends[i].crash >= 0 || ends[i].err != "" {
				// give the others a moment to report earlier findings
				time.AfterFunc(200*time.Millisecond, func() { once.Do(func() { close(stop) }) })
			}
		}(i)
	}
	wg.Wait()
	once.Do(func() {})
	explored := time.Since(t0)
	st := newStats()
	var viols []*Case
	crash, crashTail, werr := -1, "", ""
	for _, e := range ends {
		if e.st != nil {
			st.merge(e.st)
		}
		viols = append(viols, e.viols...)
		if e.crash >= 0 && (crash < 0 || e.crash < crash) {
			crash, crashTail = e.crash, e.tail
		}
		if e.err != "" {
			werr = e.err
		}
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].Index < viols[j].Index })
	if *keep {
		n := map[string]int{}
		ex := map[string]*Case{}
		for _, v := range viols {
			n[v.Class]++
			if ex[v.Class] == nil {
				ex[v.Class] = v
			}
		}
		fmt.Printf("%s: %d runs, %d violations\n", *prop, st.Runs, len(viols))
		for _, k := range sortedKeys(n) {
			fmt.Printf("  %6d %s (first: run %d) %s\n", n[k], k, ex[k].Index, clip(ex[k].Detail, 300))
		}
		for _, k := range sortedKeys(st.Other) {
			fmt.Printf("  other %6d %s (first: run %d)\n", st.Other[k], k, st.OtherAt["at "+k]-1)
		}
		fmt.Printf("  events %v\n  faults %v\n  mismatch %d/%d\n", st.Events, st.Faults, st.Mismatch, st.Rechecked)
		if werr != "" || crash >= 0 {
			fmt.Printf("  error %s crash %d\n%s\n", werr, crash, clip(crashTail, 3000))
		}
		return
	}
	var final *Case
	if len(viols) > 0 {
		final = confirm(viols, lim, *noShrink)
		if final == nil {
			final = confirmHistory(viols, lim, *noShrink, *seed, *nw, thorough)
		}
		if final == nil {
			fmt.Fprintf(os.Stderr, "run %d reported %s but a fresh process does not reproduce it\n", viols[0].Index, viols[0].Class)
			os.Exit(2)
		}
	} else if crash >= 0 {
		// The process died (fatal error) or hung during a run: reproduce.
		cs := genCase(*prop, *seed, crash, thorough, *race)
		class, detail := replayInChild(cs, 2*runWatchdog)
		if class == "" {
			cs.Before, cs.BaseSeed, cs.Thorough = history(crash, *nw, *race), *seed, thorough
			class, detail = replayInChild(cs, 2*runWatchdog)
		}
		if class == "" {
			fmt.Fprintf(os.Stderr, "worker died during run %d: %s\n%s\n", crash, werr, crashTail)
			os.Exit(2)
		}
		cs.Class, cs.Detail = class, detail
		final = cs
	} else if werr != "" || len(st.Errors) > 0 {
		fmt.Fprintf(os.Stderr, "harness error: %s %v\n", werr, st.Errors)
		os.Exit(2)
	}
	path := ""
	if final != nil {
		path = saveReplay(final)
	}
	if !*noEvidence {
		writeEvidence(*prop, *tier, *seed, st, lim, explored, time.Since(t0), final, path, *race)
	}
	fmt.Printf("%s: %d simulated runs, %.0f simulated s, %d distinct non-trivial schedules, %d context switches in %.1f s\n",
		*prop, st.Runs, float64(st.SimTime)/1e9, distinct(st.Hashes), st.Switches, explored.Seconds())
	if final != nil {
		fmt.Printf("%s: %s\n", final.Class, final.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		os.Exit(1)
	}
}

func distinct(h []uint64) int {
	m := map[uint64]bool{}
	for _, x := range h {
		m[x] = true
	}
	return len(m)
}

// confirm reproduces a reported case in a fresh process, minimises it and
// reproduces the result again.
func confirm(viols []*Case, lim limits, noShrink bool) *Case {
	for i, v := range viols {
		if i >= 6 {
			break
		}
		class, detail := replayInChild(v, 2*runWatchdog)
		// The detector keeps a bounded history: give a race more than one chance.
		for k := 0; k < 3 && class == "" && v.Race; k++ {
			class, detail = replayInChild(v, 2*runWatchdog)
		}
		if class == "" {
			continue
		}
		v.Class, v.Detail = class, detail
		if noShrink {
			return v
		}
		f := tmpCase(v)
		defer os.Remove(f)
		c := self("minimise", "-budget", lim.shrink.String(), f)
		var buf bytes.Buffer
		c.Stdout = &buf
		if err := c.Run(); err == nil {
			var m Case
			if json.Unmarshal(buf.Bytes(), &m) == nil && m.Plan.Scn != "" {
				if cl, de := replayInChild(&m, 2*runWatchdog); cl != "" {
					m.Class, m.Detail = cl, de
					return &m
				}
			}
		}
		return v
	}
	return nil
}

// history lists the runs that a worker executed before run idx, in order.
func history(idx, workers int, race bool) (l []int) {
	for i := idx % workers; i < idx; i += workers {
		l = append(l, i)
		if rechecked(i, workers, race) {
			l = append(l, i)
		}
	}
	return l
}

func rechecked(i, stride int, race bool) bool { return (i/stride)%40 == 7 && !race }

// confirmHistory reproduces a violation that a run alone does not show: the
// library kept something from earlier runs in the process. The shortest list
// of earlier runs that is found with which it still shows becomes part of the
// replay file.
func confirmHistory(viols []*Case, lim limits, noShrink bool, seed uint64, workers int, thorough bool) *Case {
	for i, v := range viols {
		if i >= 4 {
			break
		}
		v.Before, v.BaseSeed, v.Thorough = history(v.Index, workers, v.Race), seed, thorough
		class, detail := replayInChild(v, 0)
		if class == "" {
			class, detail = replayInChild(v, 0)
		}
		if class == "" {
			continue
		}
		v.Class, v.Detail = class, detail
		end := time.Now().Add(lim.shrink)
		try := func(before []int) bool {
			c := *v
			c.Before = before
			cl, de := replayInChild(&c, 0)
			if cl != class {
				return false
			}
			v.Before, v.Detail = before, de
			return true
		}
		for n := len(v.Before); !noShrink && n >= 1 && time.Now().Before(end); {
			again := false
			for at := 0; at < len(v.Before) && time.Now().Before(end); {
				to := at + n
				if to > len(v.Before) {
					to = len(v.Before)
				}
				if try(append(append([]int{}, v.Before[:at]...), v.Before[to:]...)) {
					again = true
				} else {
					at += n
				}
			}
			if !again || n > 1 {
				n /= 2
			}
		}
		return v
	}
	return nil
}

func tmpCase(cs *Case) string {
	f, err := os.CreateTemp("", "gpsverif-case-*.json")
	if err != nil {
		fatalf("%v", err)
	}
	json.NewEncoder(f).Encode(cs)
	f.Close()
	return f.Name()
}

// replayInChild runs a case in a fresh process; class is empty when it holds.
func replayInChild(cs *Case, limit time.Duration) (class, detail string) {
	f := tmpCase(cs)
	defer os.Remove(f)
	c := self("replay", "-json", f)
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	err := c.Run()
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
		var v Violation
		if json.Unmarshal(out.Bytes(), &v) == nil {
			if v.Class == "race" {
				v.Class, v.Detail = raceClass(errb.String())
			}
			return v.Class, v.Detail
		}
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() == 7 {
			return "hang", "the run does not end: " + clip(errb.String(), 600)
		}
		if s := errb.String(); ee.ExitCode() == 2 && strings.Contains(s, "fatal error:") {
			i := strings.Index(s, "fatal error:")
			return "fatal", clip(s[i:], 1500)
		}
	}
	return "", ""
}

// raceClass summarises the first race report.
func raceClass(s string) (string, string) {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return "race", "data race"
	}
	s = s[i:]
	if j := strings.Index(s[10:], "=================="); j > 0 {
		s = s[:j+10]
	}
	var fns []string
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.Contains(l, " by ") && strings.HasSuffix(l, ":") && i+1 < len(lines) && !strings.Contains(l, "created") {
			f := strings.TrimSpace(lines[i+1])
			if k := strings.LastIndex(f, "/"); k >= 0 {
				f = f[k+1:]
			}
			f = strings.TrimSuffix(f, "()")
			fns = append(fns, f)
		}
	}
	sort.Strings(fns)
	return "race", strings.Join(fns, " / ") + "\n" + clip(s, 3000)
}

func saveReplay(cs *Case) string {
	dir := filepath.Join(root(), "replays")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(cs, "", " ")
	p := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", cs.Prop, hashStr(string(b))))
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fatalf("%v", err)
	}
	return p
}

func loadCase(p string) *Case {
	b, err := os.ReadFile(p)
	if err != nil {
		fatalf("%v", err)
	}
	cs := new(Case)
	if err := json.Unmarshal(b, cs); err != nil {
		fatalf("%v", err)
	}
	return cs
}

func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	asJSON := fs.Bool("json", false, "")
	fs.Parse(args)
	p := fs.Arg(0)
	cs := loadCase(p)
	for _, i := range cs.Before {
		stop := watchdog(fmt.Sprintf("run %d before the replay", i))
		execCase(genCase(cs.Prop, cs.BaseSeed, i, cs.Thorough, cs.Race))
		stop()
	}
	defer watchdog("replay")()
	o := execCase(cs)
	if o.Err != "" {
		fatalf("%s", o.Err)
	}
	if len(o.V) == 0 {
		if !*asJSON {
			fmt.Printf("no violation: %s after %d steps, hash %016x\n", o.Res.Status, o.Res.Steps, o.Res.Hash)
			for _, v := range o.Other {
				fmt.Printf("(of another property: %s %s: %s)\n", v.Prop, v.Class, v.Detail)
			}
		}
		return
	}
	v := o.V[0]
	for _, x := range o.V {
		if x.Class == cs.Class {
			v = x
		}
	}
	if *asJSON {
		json.NewEncoder(os.Stdout).Encode(v)
	} else {
		for _, x := range o.V {
			fmt.Printf("%s: %s\n", x.Class, x.Detail)
		}
		if o.Res.Stack != "" {
			fmt.Println(o.Res.Stack)
		}
		fmt.Printf("steps %d, simulated time %.3f s, schedule hash %016x\n", o.Res.Steps, float64(o.Res.SimTime)/1e9, o.Res.Hash)
		fmt.Printf("VIOLATION property=%s replay=%s\n", cs.Prop, p)
	}
	os.Exit(1)
}

func writeEvidence(prop, tier string, seed uint64, st *stats, lim limits, explored, wall time.Duration, final *Case, path string, race bool) {
	hours := explored.Hours()
	faults := map[string]int{}
	for k, v := range st.Faults {
		if v > 0 {
			faults[k] = v
		}
	}
	for k, v := range st.Events {
		faults[k] = v
	}
	cov := map[string]any{
		"evaluations":                 st.Runs,
		"distinct_nontrivial":         distinct(st.Hashes),
		"rule":                        "one evaluation is one simulated run of a plan generated from the run's seed (swarm-style configuration, workload, faults, schedule strategy); it is non-trivial when the scenario reached the situation the property is about at least once (its oracle compared something), and distinct by the hash of its complete schedule (sequence of thread choices and switch positions) combined with its seed",
		"samples":                     st.Samples,
		"runs_per_hour":               int(float64(st.Runs) / hours),
		"seeds":                       fmt.Sprintf("run k uses mix(VERIF_SEED, property, k) for k below %d", lim.runs),
		"simulated_seconds":           float64(st.SimTime) / 1e9,
		"simulated_steps":             st.Steps,
		"context_switches":            st.Switches,
		"preemptions":                 st.Preempt,
		"faults_and_events_injected":  faults,
		"scenarios":                   st.Scn,
		"determinism_rechecks":        st.Rechecked,
		"determinism_mismatches":      st.Mismatch,
		"nontrivial_runs":             st.Nontrivial,
		"exploration_wall_s":          explored.Seconds(),
		"reports_of_other_properties": st.Other,
		"real_components":             "all packages of github.com/mmadfox/go-gpsgen, google.golang.org/protobuf, orb/geojson, gpxgo, utm, colorful, uuid (compiled from the working tree and the module cache)",
		"stubbed_components":          "goroutine scheduling, sync, channels, time and tickers, context cancellation, math/rand, fastrand, crypto/rand, runtime.NumCPU, map iteration order" + map[bool]string{true: "; race detector active on the real code", false: ""}[race],
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(),
		"assumptions": []string{
			"sampling, not enumeration: what was not generated was not decided",
			"statement-level interleaving of the code of go-gpsgen; third-party code runs atomically between its yield points",
		},
	}
	if final != nil {
		ev["violations"] = 1
		cov["violation"] = map[string]any{"class": final.Class, "detail": final.Detail, "replay": path, "run": final.Index}
	} else {
		ev["violations"] = 0
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(root(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
}

func main() {
	if len(os.Args) < 2 {
		fatalf("usage: harness check|worker|replay|minimise|one")
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "minimise":
		minimise(os.Args[2:])
	case "one":
		one(os.Args[2:])
	case "hash":
		hashRuns(os.Args[2:])
	default:
		fatalf("unknown command %s", os.Args[1])
	}
}

// one executes a single generated run verbosely.
func one(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	idx := fs.Int("i", 0, "")
	th := fs.Bool("thorough", false, "")
	race := fs.Bool("race", false, "")
	save := fs.String("save", "", "")
	fs.Parse(args)
	cs := genCase(*prop, *seed, *idx, *th, *race)
	b, _ := json.Marshal(cs)
	if *save != "" {
		os.WriteFile(*save, b, 0o644)
	}
	fmt.Println(string(b))
	o := execCase(cs)
	fmt.Printf("err=%q status=%s steps=%d sim=%.3fs switches=%d work=%d events=%v faults=%v\n", o.Err, o.Res.Status, o.Res.Steps, float64(o.Res.SimTime)/1e9, o.Res.Switches, o.Ctx.Work, o.Ctx.Count, o.Res.Faults)
	for _, v := range o.V {
		fmt.Printf("V %s %s: %s\n", v.Prop, v.Class, v.Detail)
	}
	for _, v := range o.Other {
		fmt.Printf("other %s %s: %s\n", v.Prop, v.Class, v.Detail)
	}
	if o.Res.Stack != "" {
		fmt.Println(o.Res.Stack)
	}
	_ = sim.Finished
}

// hashRuns prints a digest of the first runs: two processes must agree.
func hashRuns(args []string) {
	fs := flag.NewFlagSet("hash", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	n := fs.Int("n", 50, "")
	fs.Parse(args)
	h := uint64(0)
	for i := 0; i < *n; i++ {
		o := execCase(genCase(*prop, 1, i, false, false))
		h = mix(h, o.Res.Hash, uint64(o.Res.Steps), uint64(len(o.V)), uint64(o.Res.SimTime))
	}
	fmt.Printf("%s %016x\n", *prop, h)
}
