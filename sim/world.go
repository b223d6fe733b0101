// Package sim is a deterministic simulator for ordinary Go code.
//
// Code under test is rewritten at build time (cmd/instr) so that goroutines,
// channels, locks, timers, clocks and randomness go through this package. One
// simulated thread runs at a time; which one, and when it is preempted, is
// decided from one seed (or from a recorded trace). Threads are real
// goroutines that are parked and released one at a time.
//
// The package is always compiled without race instrumentation (see build.sh):
// in the -race build only the code under test and the happens-before edges it
// really creates are visible to the race detector.
package sim

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// Config describes one simulated run. Everything a run does is a function of
// it, of the scenario and of the code under test.
type Config struct {
	Seed        uint64
	Strategy    int     // 0 random quantum, 1 priorities, 2 mostly sequential
	MeanQuantum int     // statements between preemptions
	SyncPreempt float64 // chance to preempt at a synchronisation operation
	ChangePts   int     // priority change points (strategy 1)
	EstSteps    int64   // rough length of the run, for placing change points
	StepCost    int64   // simulated nanoseconds per statement
	TimerJitter int64   // max lateness of timers, ns
	StallRate   float64 // chance per scheduling decision to stall a thread
	StallMax    int64   // max stall, ns
	MaxSteps    int64
	Horizon     int64 // simulated ns after which the run is stuck
	ModernTimer bool  // Stop/Reset of timers drain the channel (go >= 1.23)
	MapOrder    bool  // randomise map iteration order (else sorted)
	Trace       *Trace
}

// Trace is a recorded schedule: every decision that deviates from the default
// policy (keep running; when blocked, next runnable thread in id order).
type Trace struct {
	Switches []Switch `json:"switches"`
	Stalls   []Stall  `json:"stalls,omitempty"`
}

type Switch struct {
	Step   int64 `json:"s"`
	Thread int   `json:"t"`
}

type Stall struct {
	Step   int64 `json:"s"`
	Thread int   `json:"t"`
	Dur    int64 `json:"d"`
}

const (
	stRunnable = iota
	stBlocked
	stDone
)

type Thread struct {
	ID     int
	Name   string
	Lib    bool // started by the code under test
	wake   chan struct{}
	st     int
	ready  func() bool
	what   string
	epoch  uint64 // last epoch at which ready() was false
	stall  int64  // not schedulable before this time
	prio   int64
	cases  []*Case // blocked channel operations
	chosen int
	site   string
	steps  int64
	own    *Stream // draws of the code under test, if not the common ones
	group  int     // inherited from the thread that started it
}

// Result of one run.
type Result struct {
	Status      string // ok, panic, deadlock, horizon, steps
	Detail      string
	Stack       string
	Steps       int64
	SimTime     int64
	Switches    int64
	Preemptions int64
	Trace       Trace
	Hash        uint64
	Threads     int
	Faults      map[string]int
	Probes      map[string]int
	RaceErrors  int
	Ticks       []TickRec
	Walls       []WallRec
}

type world struct {
	cfg      Config
	threads  []*Thread
	live     int
	doneCh   chan struct{}
	finished bool
	status   string
	detail   string
	stack    string

	clock    int64 // monotonic simulated ns since start of run
	lastStep int64
	wallOff  int64
	events   eventHeap
	evSeq    uint64
	epoch    uint64

	sched *Stream // scheduling
	env   *Stream // select choices, map order, timer jitter
	lib   *Stream // randomness consumed by the code under test
	tr    Trace
	trPos int
	stPos int
	hash  uint64
	sw    int64
	pre   int64
	chg   []int64
	lowPr int64
	root  *Thread

	faults [len(faultNames)]int
	probes [maxProbes]int
	quiet  bool
	tchans []unsafe.Pointer // no map: maps are seen by the race detector
	ticks  []TickRec        // of group 0
	others []groupTick
	walls  []WallRec
}

// TickRec is one value received from a timer channel by a library thread.
type TickRec struct {
	Step  int64 // when it was received
	Clock int64 // simulated time of the reception
	When  int64 // simulated (monotonic) time the value carries
}

type groupTick struct {
	TickRec
	group int
}

func (w *world) ticksOf(g int) (l []TickRec) {
	for _, t := range w.others {
		if t.group == g {
			l = append(l, t.TickRec)
		}
	}
	return
}

// WallRec is a change of the wall clock.
type WallRec struct{ Clock, Off int64 }

// Ticks lists the timer values received so far by library threads.
func Ticks() []TickRec {
	if w == nil {
		return nil
	}
	if cur != nil && cur.group > 0 {
		return w.ticksOf(cur.group)
	}
	return w.ticks
}

// SetGroup puts the running thread, and those that it starts, into a group.
// Ticks and LiveLib concern the group of the caller; results list those of
// group 0.
func SetGroup(g int) { cur.group = g }

// Quiet turns stalls and timer lateness off (and on again).
func Quiet(q bool) { w.quiet = q }

// InKill reports whether the run is being torn down.
func InKill() bool { return killing }

// Fault kinds counted by the simulator itself.
const (
	FStall = iota
	FTimerLate
	FTickDrop
	FWallJump
	FPreemptLocked
)

var faultNames = [...]string{"thread_stall", "timer_late", "tick_dropped", "wall_clock_jump", "preempt_holding_lock"}

const maxProbes = 64

var probeNames []string

// Probe registers a named reach probe; call at init time.
func Probe(name string) int {
	probeNames = append(probeNames, name)
	if len(probeNames) > maxProbes {
		panic("too many probes")
	}
	return len(probeNames) - 1
}

// Hit counts a probe.
//
//go:noinline
func Hit(p int) {
	if w != nil {
		w.probes[p]++
	}
}

var (
	w         *world
	cur       *Thread
	steps     int64
	nextStop  int64
	killing   bool
	runID     uint64
	heldLocks int
	joinTok   byte
)

// Active reports whether the caller is on a simulated thread.
//
//go:noinline
func Active() bool { return cur != nil && !killing }

// Y is the statement-level yield point inserted by the instrumenter.
//
//go:noinline
func Y() {
	if cur == nil {
		return
	}
	steps++
	if steps >= nextStop {
		slowYield(false)
	}
}

//go:noinline
func slowYield(sync bool) {
	if killing {
		runtime.Goexit()
	}
	if steps > w.cfg.MaxSteps {
		me := cur
		finish("steps", fmt.Sprintf("no progress: thread %s is still running after %d steps", me.Name, steps), string(debug.Stack()))
		parkForever(me)
	}
	schedule(true)
}

// syncPoint is called at every synchronisation operation.
//
//go:noinline
func syncPoint() {
	steps++
	if killing {
		return
	}
	if w.cfg.Trace == nil && steps < nextStop {
		switch {
		case w.cfg.Strategy == 1:
			nextStop = steps
		case w.cfg.SyncPreempt > 0 && w.sched.P(w.cfg.SyncPreempt):
			nextStop = steps
		}
	}
	if steps >= nextStop {
		slowYield(true)
	}
}

func (w *world) quantum() int64 {
	switch w.cfg.Strategy {
	case 1:
		return 16 + int64(w.sched.Intn(64))
	case 2:
		return 2000 + int64(w.sched.Intn(20000))
	}
	m := w.cfg.MeanQuantum
	if m <= 1 {
		return 1
	}
	// geometric-ish: mixture of short and long slices
	switch w.sched.Intn(4) {
	case 0:
		return 1 + int64(w.sched.Intn(3))
	case 1:
		return 1 + int64(w.sched.Intn(m))
	default:
		return 1 + int64(w.sched.Intn(2*m))
	}
}

func (w *world) syncClock() {
	if d := steps - w.lastStep; d > 0 {
		w.clock += d * w.cfg.StepCost
		w.lastStep = steps
	}
}

func (w *world) isRunnable(t *Thread) bool {
	if t.stall > w.clock {
		return false
	}
	switch t.st {
	case stRunnable:
		return true
	case stBlocked:
		if t.ready == nil {
			return false
		}
		if t.epoch == w.epoch {
			return false
		}
		if t.ready() {
			return true
		}
		t.epoch = w.epoch
	}
	return false
}

// schedule picks the next thread and transfers control to it. yield is true
// when the current thread could continue.
func schedule(yield bool) {
	me := cur
	w.syncClock()
	var next *Thread
	fired := false
	for {
		if w.fireDue() {
			fired = true
		}
		next = w.pick(me, yield, fired, true)
		if next != nil {
			break
		}
		// Nothing can run: advance to the next event or stall end.
		t := int64(-1)
		if len(w.events) > 0 {
			t = w.events[0].at
		}
		for _, th := range w.threads {
			if th.st != stDone && th.stall > w.clock && (t < 0 || th.stall < t) {
				t = th.stall
			}
		}
		if t < 0 {
			w.endInSchedule(me, "deadlock", "all threads are blocked forever: "+w.describe())
			return
		}
		if t > w.cfg.Horizon {
			w.endInSchedule(me, "horizon", "still waiting at the end of simulated time: "+w.describe())
			return
		}
		if t > w.clock {
			w.clock = t
			w.epoch++
		}
	}
	w.hash = (w.hash ^ uint64(next.ID+1)) * 0x100000001b3
	if next != me {
		w.sw++
		w.hash = (w.hash ^ uint64(steps)) * 0x100000001b3
		if yield {
			w.pre++
			if heldLocks > 0 {
				w.faults[FPreemptLocked]++
			}
		}
	}
	w.setStop()
	if next.st == stBlocked {
		next.st = stRunnable
		next.ready = nil
	}
	if next == me {
		return
	}
	cur = next
	done := me.st == stDone // read before the hand-over
	raceDisable()
	next.wake <- struct{}{}
	if !done {
		<-me.wake
	}
	raceEnable()
	if !done && killing {
		runtime.Goexit()
	}
}

// endInSchedule ends the run from inside schedule. A thread that is exiting
// just returns; a blocked one is parked until the run is torn down.
func (w *world) endInSchedule(me *Thread, status, detail string) {
	done := me.st == stDone
	finish(status, detail, "")
	if !done {
		parkForever(me)
	}
}

func (w *world) setStop() {
	if w.cfg.Trace != nil {
		nextStop = w.cfg.MaxSteps + 1
		if w.trPos < len(w.cfg.Trace.Switches) {
			if s := w.cfg.Trace.Switches[w.trPos].Step; s < nextStop {
				nextStop = s
			}
		}
		if w.stPos < len(w.cfg.Trace.Stalls) {
			if s := w.cfg.Trace.Stalls[w.stPos].Step; s < nextStop {
				nextStop = s
			}
		}
		if nextStop <= steps {
			nextStop = steps + 1
		}
		return
	}
	nextStop = steps + w.quantum()
	if w.cfg.Strategy == 1 {
		for _, c := range w.chg {
			if c > steps && c < nextStop {
				nextStop = c
			}
		}
	}
	if nextStop > w.cfg.MaxSteps+1 {
		nextStop = w.cfg.MaxSteps + 1
	}
}

// pick returns the thread to run next, or nil when none is runnable.
func (w *world) pick(me *Thread, yield, fired, mayStall bool) *Thread {
	// Default policy.
	var def *Thread
	if yield && w.isRunnable(me) {
		def = me
	} else {
		n := len(w.threads)
		for i := 1; i <= n; i++ {
			t := w.threads[(me.ID+i)%n]
			if w.isRunnable(t) {
				def = t
				break
			}
		}
	}
	if tr := w.cfg.Trace; tr != nil {
		for w.stPos < len(tr.Stalls) && tr.Stalls[w.stPos].Step < steps {
			w.stPos++
		}
		if def == nil {
			return nil
		}
		if mayStall && w.stPos < len(tr.Stalls) && tr.Stalls[w.stPos].Step == steps {
			s := tr.Stalls[w.stPos]
			w.stPos++
			if s.Thread < len(w.threads) && w.threads[s.Thread].st != stDone {
				t := w.threads[s.Thread]
				t.stall = w.clock + s.Dur
				w.faults[FStall]++
				w.tr.Stalls = append(w.tr.Stalls, s)
				if t == def {
					return w.pick(me, yield, fired, false)
				}
			}
		}
		for w.trPos < len(tr.Switches) && tr.Switches[w.trPos].Step < steps {
			w.trPos++
		}
		if w.trPos < len(tr.Switches) && tr.Switches[w.trPos].Step == steps {
			id := tr.Switches[w.trPos].Thread
			if id < len(w.threads) && w.isRunnable(w.threads[id]) {
				w.trPos++
				w.tr.Switches = append(w.tr.Switches, Switch{steps, id})
				return w.threads[id]
			}
		}
		if fired {
			w.tr.Switches = append(w.tr.Switches, Switch{steps, def.ID})
		}
		return def
	}
	if def == nil {
		return nil
	}
	if mayStall && w.cfg.StallRate > 0 && !w.quiet && w.sched.P(w.cfg.StallRate) {
		// Stall some live thread (a slow or descheduled goroutine).
		t := w.threads[w.sched.Intn(len(w.threads))]
		if t.st != stDone && t.stall <= w.clock && t != w.root {
			d := 1 + int64(w.sched.Float64()*w.sched.Float64()*float64(w.cfg.StallMax))
			t.stall = w.clock + d
			w.faults[FStall]++
			w.tr.Stalls = append(w.tr.Stalls, Stall{steps, t.ID, d})
			if t == def {
				return w.pick(me, yield, fired, false)
			}
		}
	}
	var c *Thread
	switch w.cfg.Strategy {
	case 1:
		for _, p := range w.chg {
			if p == steps {
				w.lowPr--
				me.prio = w.lowPr
			}
		}
		for _, t := range w.threads {
			if t.st == stDone || (c != nil && t.prio <= c.prio) {
				continue
			}
			if w.isRunnable(t) {
				c = t
			}
		}
	default:
		n := 0
		for _, t := range w.threads {
			if t.st == stDone || !w.isRunnable(t) {
				continue
			}
			n++
			if w.sched.Intn(n) == 0 {
				c = t
			}
		}
	}
	if c == nil {
		c = def
	}
	if c != def || fired {
		w.tr.Switches = append(w.tr.Switches, Switch{steps, c.ID})
	}
	return c
}

func (w *world) describe() string {
	var sb strings.Builder
	n := 0
	for _, t := range w.threads {
		if t.st == stDone {
			continue
		}
		if n > 0 {
			sb.WriteString("; ")
		}
		n++
		if n > 24 {
			sb.WriteString("...")
			break
		}
		fmt.Fprintf(&sb, "%s: %s", t.Name, t.describe())
	}
	return sb.String()
}

func (t *Thread) describe() string {
	if t.st == stBlocked {
		return "blocked on " + t.what
	}
	return "runnable"
}

func finish(status, detail, stack string) {
	if w.finished {
		return
	}
	w.finished = true
	w.status, w.detail, w.stack = status, detail, stack
	nextStop = 0
	cur = nil
	raceDisable()
	close(w.doneCh) // last action: the driver takes over from here
	raceEnable()
}

// parkForever stops the current thread until the run is torn down.
func parkForever(me *Thread) {
	raceDisable()
	<-me.wake
	raceEnable()
	runtime.Goexit()
}

// block suspends the current thread until ready reports true.
func block(what string, ready func() bool) {
	if killing {
		return
	}
	me := cur
	steps++
	me.what = what
	me.ready = ready
	me.st = stBlocked
	me.epoch = ^uint64(0)
	schedule(false)
	me.what = ""
}

func (w *world) newThread(name string, lib bool) *Thread {
	t := &Thread{ID: len(w.threads), Name: name, Lib: lib, wake: make(chan struct{}, 1), st: stRunnable, epoch: ^uint64(0)}
	if cur != nil {
		t.group = cur.group
	}
	if w.cfg.Strategy == 1 {
		t.prio = int64(w.sched.Intn(1 << 20))
	}
	w.threads = append(w.threads, t)
	w.live++
	w.epoch++
	return t
}

func startThread(t *Thread, fn func()) {
	go func() {
		raceDisable()
		<-t.wake
		raceEnable()
		defer threadExit(t)
		if killing {
			return
		}
		fn()
	}()
}

func threadExit(t *Thread) {
	var detail, stack string
	if r := recover(); r != nil && !killing {
		detail, stack = fmt.Sprintf("thread %s panicked: %v", t.Name, r), string(debug.Stack())
	}
	raceRelease(unsafe.Pointer(&joinTok))
	t.st = stDone
	w.live--
	w.epoch++
	switch {
	case killing:
		raceDisable()
		killAck <- struct{}{}
		raceEnable()
	case stack != "":
		finish("panic", detail, stack)
	case t == w.root:
		finish("ok", "", "")
	default:
		steps++
		schedule(false)
	}
}

var killAck = make(chan struct{})

// Run executes root as the first simulated thread and returns when it does,
// or when the run is stuck.
func Run(cfg Config, root func()) Result {
	if w != nil {
		panic("sim: nested run")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 3_000_000
	}
	if cfg.Horizon == 0 {
		cfg.Horizon = int64(3600e9 * 24 * 30)
	}
	runID++
	w = &world{cfg: cfg, doneCh: make(chan struct{}),
		sched: NewStream(cfg.Seed, "sched"), env: NewStream(cfg.Seed, "env"), lib: NewStream(cfg.Seed, "lib"),
		hash: 14695981039346656037, walls: []WallRec{{0, 0}}}
	steps, heldLocks, killing = 0, 0, false
	if cfg.Strategy == 1 {
		n := cfg.EstSteps
		if n <= 0 {
			n = 20000
		}
		for i := 0; i < cfg.ChangePts; i++ {
			w.chg = append(w.chg, int64(w.sched.Float64()*w.sched.Float64()*float64(n)))
		}
		sort.Slice(w.chg, func(i, j int) bool { return w.chg[i] < w.chg[j] })
	}
	raceBefore := RaceErrors()
	raceAcquire(unsafe.Pointer(&joinTok))
	t := w.newThread("root", false)
	w.root = t
	w.setStop()
	startThread(t, root)
	raceDisable()
	cur = t
	t.wake <- struct{}{}
	<-w.doneCh
	raceEnable()
	// Tear down whatever is left.
	res := Result{Status: w.status, Detail: w.detail, Stack: w.stack, Steps: steps, SimTime: w.clock,
		Switches: w.sw, Preemptions: w.pre, Trace: w.tr, Hash: w.hash, Threads: len(w.threads),
		Faults: map[string]int{}, Probes: map[string]int{}, Ticks: w.ticks, Walls: w.walls}
	for i, n := range w.faults {
		res.Faults[faultNames[i]] += n
	}
	for i, n := range probeNames {
		res.Probes[n] = w.probes[i]
	}
	raceDisable()
	killing = true
	for i := 0; i < len(w.threads); i++ {
		t := w.threads[i]
		if t.st == stDone {
			continue
		}
		cur = t
		t.wake <- struct{}{}
		<-killAck
	}
	cur = nil
	killing = false
	raceEnable()
	raceAcquire(unsafe.Pointer(&joinTok))
	res.RaceErrors = RaceErrors() - raceBefore
	w = nil
	return res
}

// Go starts a harness thread.
func Go(name string, fn func()) *Thread {
	if cur == nil {
		panic("sim: Go outside of a run")
	}
	t := w.newThread(name, false)
	startThread(t, fn)
	return t
}

// GoLib replaces the go statement in instrumented code.
func GoLib(fn func()) {
	if cur == nil {
		go fn()
		return
	}
	if killing {
		return
	}
	syncPoint2()
	t := w.newThread(fmt.Sprintf("lib%d", len(w.threads)), true)
	startThread(t, fn)
	syncPoint2()
}

func syncPoint2() {
	syncPoint()
}

// Yield is an explicit scheduling point.
//
//go:noinline
func Yield() {
	if cur == nil || killing {
		return
	}
	syncPoint2()
}

// ForceYield always offers the processor to the other threads.
//
//go:noinline
func ForceYield() {
	if cur == nil || killing {
		return
	}
	steps++
	if w.cfg.Trace == nil {
		nextStop = steps
	}
	if steps >= nextStop {
		slowYield(true)
	}
}

// Join waits until t has finished.
func Join(t *Thread) {
	if cur == nil || killing {
		return
	}
	if t.st != stDone {
		block("join "+t.Name, func() bool { return t.st == stDone })
	}
	raceAcquire(unsafe.Pointer(&joinTok))
}

// JoinFor waits until t has finished or d has passed; it reports whether t finished.
func JoinFor(t *Thread, d int64) bool {
	if t.st != stDone {
		end := false
		w.at(w.now()+d, func() { end = true })
		block("join "+t.Name, func() bool { return t.st == stDone || end })
	}
	if t.st == stDone {
		raceAcquire(unsafe.Pointer(&joinTok))
		return true
	}
	return false
}

// WaitFor blocks until cond holds or d simulated ns have passed. cond must
// only depend on simulated state and be cheap.
func WaitFor(what string, d int64, cond func() bool) bool {
	if cond() {
		return true
	}
	end := false
	w.at(w.now()+d, func() { end = true })
	ok := false
	block(what, func() bool { ok = cond(); return ok || end })
	return cond()
}

// Poke tells the simulator that state read by WaitFor conditions changed.
func Poke() {
	if w != nil {
		w.epoch++
	}
}

// Done reports whether the thread has finished.
func (t *Thread) Done() bool { return t.st == stDone }

// LiveLib lists threads started by the code under test that still exist.
func LiveLib() []string {
	var out []string
	for _, t := range w.threads {
		if t.Lib && t.st != stDone && t.group == cur.group {
			out = append(out, t.Name+" ("+t.describe()+")")
		}
	}
	return out
}

// NumLib counts threads ever started by the code under test.
func NumLib() int {
	n := 0
	for _, t := range w.threads {
		if t.Lib {
			n++
		}
	}
	return n
}

// Self returns the id of the running thread.
func Self() int {
	if cur == nil {
		return -1
	}
	return cur.ID
}

// Steps is the global step counter; it orders events of a run totally.
func Steps() int64 { return steps }

// Tick advances and returns the step counter: a unique, ordered stamp.
//
//go:noinline
func Tick() int64 { steps++; return steps }

// Finished reports whether the run has ended.
func Finished() bool { return w == nil || w.finished }

// NowNs is the simulated monotonic clock.
func NowNs() int64 { return w.now() }

// EnvRand is the stream for environment choices made by harness seams.
func EnvRand() *Stream { return w.env }

// LibState returns the state of the randomness stream of the code under test.
func LibState() [4]uint64 { return libStream().State() }

// SetLibState rewinds that stream (to give two replicas the same draws).
func SetLibState(s [4]uint64) { libStream().SetState(s) }
