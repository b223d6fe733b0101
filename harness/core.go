package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"gpsverif/sim"
)

// Op is one step of a client or one injected fault. Arguments are plain
// numbers that every scenario reduces into its valid range, so that any
// subset or shrunk version of a plan is again a plan.
type Op struct {
	K string  `json:"k"`
	A []int64 `json:"a,omitempty"`
	S string  `json:"s,omitempty"`
}

func (o Op) arg(i int) int64 {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

// idx reduces argument i into [0,n).
func (o Op) idx(i, n int) int {
	if n <= 0 {
		return 0
	}
	v := int(o.arg(i) % int64(n))
	if v < 0 {
		v += n
	}
	return v
}

// Plan is everything a run does apart from its schedule.
type Plan struct {
	Scn     string         `json:"scenario"`
	Cfg     map[string]int `json:"cfg"`
	Clients [][]Op         `json:"clients,omitempty"`
}

// Case is a repeatable run.
type Case struct {
	Prop   string     `json:"property"`
	Seed   uint64     `json:"seed"`
	Index  int        `json:"index"`
	Plan   Plan       `json:"plan"`
	Sim    sim.Config `json:"sim"`
	Race   bool       `json:"race,omitempty"`
	Class  string     `json:"class,omitempty"`
	Detail string     `json:"detail,omitempty"`
	Stack  string     `json:"stack,omitempty"`
	// Runs of the same check that are executed first in the same process: a
	// violation may need what they left behind in it.
	Before   []int  `json:",omitempty"`
	BaseSeed uint64 `json:",omitempty"`
	Thorough bool   `json:",omitempty"`
}

// Violation of a property.
type Violation struct {
	Prop   string `json:"property"`
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Ctx is the state of one run.
type Ctx struct {
	Case  *Case
	P     *Plan
	V     []Violation
	Count map[string]int // injected faults and events
	Work  int            // what makes the run non-trivial
	state any

	counts []counter
}

func (c *Ctx) cfg(k string) int { return c.P.Cfg[k] }

// clamp returns a configuration value forced into [lo,hi].
func (c *Ctx) clamp(k string, lo, hi int) int {
	v := c.P.Cfg[k]
	if v < lo {
		v = lo
	}
	if v > hi {
		v = hi
	}
	return v
}

// bad records a violation; class must be stable under minimisation.
func (c *Ctx) bad(prop, class, format string, a ...any) {
	if sim.InKill() {
		return
	}
	for i := range c.V {
		if c.V[i].Prop == prop && c.V[i].Class == class {
			return
		}
	}
	c.V = append(c.V, Violation{prop, class, fmt.Sprintf(format, a...)})
}

// count counts an event. The counters are not a map while the run lasts: the
// race detector would see it.
func (c *Ctx) count(k string) {
	for i := range c.counts {
		if c.counts[i].k == k {
			c.counts[i].n++
			return
		}
	}
	c.counts = append(c.counts, counter{k, 1})
}

type counter struct {
	k string
	n int
}

// Scenario is one family of runs.
type Scenario struct {
	Gen  func(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config)
	Run  func(c *Ctx)
	Post func(c *Ctx, res *sim.Result)
}

var scenarios = map[string]*Scenario{}

// propScn says which scenarios explore a property, with weights.
type weighted struct {
	scn    string
	weight int
}

var propScn = map[string][]weighted{}

// Outcome of one execution.
type Outcome struct {
	V     []Violation // of the property under check
	Other []Violation
	Res   sim.Result
	Ctx   *Ctx
	Err   string // harness trouble
}

func mix(vals ...uint64) uint64 {
	x := uint64(0x9e3779b97f4a7c15)
	for _, v := range vals {
		x ^= v + 0x9e3779b97f4a7c15 + (x << 6) + (x >> 2)
		x ^= x >> 30
		x *= 0xbf58476d1ce4e5b9
		x ^= x >> 27
		x *= 0x94d049bb133111eb
		x ^= x >> 31
	}
	return x
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// genCase derives run number idx of a check from the seed.
func genCase(prop string, seed uint64, idx int, thorough, race bool) *Case {
	cs := &Case{Prop: prop, Index: idx, Race: race}
	cs.Seed = mix(seed, hashStr(prop), uint64(idx))
	r := sim.NewStream(cs.Seed, "plan")
	l := propScn[prop]
	tot := 0
	for _, x := range l {
		tot += x.weight
	}
	n := r.Intn(tot)
	for _, x := range l {
		if n < x.weight {
			cs.Plan, cs.Sim = scenarios[x.scn].Gen(r, prop, thorough)
			cs.Plan.Scn = x.scn
			break
		}
		n -= x.weight
	}
	cs.Sim.Seed = mix(cs.Seed, 77)
	return cs
}

// execCase runs one case.
func execCase(cs *Case) *Outcome {
	b, _ := json.Marshal(cs.Plan)
	var p Plan
	_ = json.Unmarshal(b, &p) // scenarios may not modify the case
	ctx := &Ctx{Case: cs, P: &p, Count: map[string]int{}}
	o := &Outcome{Ctx: ctx}
	scn := scenarios[p.Scn]
	if scn == nil {
		o.Err = "unknown scenario " + p.Scn
		return o
	}
	o.Res = sim.Run(cs.Sim, func() { scn.Run(ctx) })
	defer func() {
		for _, x := range ctx.counts {
			ctx.Count[x.k] = x.n
		}
	}()
	switch o.Res.Status {
	case "ok":
		if scn.Post != nil && !(cs.Race && cs.Prop == "G10") {
			post(scn, ctx, &o.Res)
		}
	case "panic":
		fn, own := panicSite(o.Res.Stack)
		if own {
			// The scenarios take for granted what every correct version
			// does, such as that valid options are accepted.
			ctx.V = append(ctx.V, Violation{cs.Prop, "unexpected@" + fn, "the scenario cannot go on with what the library returned: " + o.Res.Detail + " at " + fn})
			break
		}
		ctx.V = append([]Violation{{cs.Prop, "panic@" + fn, o.Res.Detail + " at " + fn}}, ctx.V...)
	default:
		ctx.V = append([]Violation{{cs.Prop, "stuck:" + o.Res.Status, o.Res.Detail}}, ctx.V...)
	}
	if cs.Race && o.Res.RaceErrors > 0 {
		ctx.V = append(ctx.V, Violation{"G10", "race", fmt.Sprintf("%d data race(s)", o.Res.RaceErrors)})
	}
	for _, v := range ctx.V {
		if v.Prop == cs.Prop {
			o.V = append(o.V, v)
		} else {
			o.Other = append(o.Other, v)
		}
	}
	return o
}

func post(scn *Scenario, ctx *Ctx, res *sim.Result) {
	defer func() {
		if p := recover(); p != nil {
			res.Stack = string(debug.Stack())
			fn, _ := panicSite(res.Stack)
			ctx.V = append(ctx.V, Violation{ctx.Case.Prop, "unexpected@" + fn, fmt.Sprintf("the history cannot be judged: %v at %s", p, fn)})
		}
	}()
	scn.Post(ctx, res)
}

// panicSite finds the function in which a panic arose; own is true when that
// is the harness itself.
func panicSite(stack string) (fn string, own bool) {
	lines := strings.Split(stack, "\n")
	at := -1
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.gopanic(") {
			at = i
		}
	}
	for i := at + 1; i < len(lines); i++ {
		l := lines[i]
		if l == "" || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "runtime/") || strings.HasPrefix(l, "gpsverif/sim") ||
			strings.HasPrefix(l, "panic(") {
			continue
		}
		f := l
		if j := strings.LastIndex(f, "("); j > 0 {
			f = f[:j]
		}
		if strings.HasPrefix(f, "created by") {
			continue
		}
		return f, strings.HasPrefix(f, "main.")
	}
	return "unknown", false
}

// ---- swarm configuration of the simulator ----

type swarmOpt struct {
	interval  int64 // generator interval, ns (0: no timers matter)
	maxSteps  int64
	est       int64
	noFaults  bool // no stalls and no late timers
	stepCost  int64
	stepCosts []int64
}

func swarm(r *sim.Stream, o swarmOpt) sim.Config {
	c := sim.Config{MapOrder: true, MaxSteps: o.maxSteps, EstSteps: o.est, ModernTimer: r.Intn(3) > 0}
	switch x := r.Intn(10); {
	case x < 6:
		c.Strategy = 0
		c.MeanQuantum = []int{1, 2, 4, 8, 20, 50, 150, 500, 3000}[r.Intn(9)]
	case x < 9:
		c.Strategy = 1
		c.ChangePts = r.Range(1, 12)
	default:
		c.Strategy = 2
	}
	c.SyncPreempt = []float64{0, 0.02, 0.1, 0.3, 0.5}[r.Intn(5)]
	c.StepCost = []int64{20, 200, 1000}[r.Intn(3)]
	if o.stepCost > 0 {
		c.StepCost = o.stepCost
	}
	if !o.noFaults {
		if o.interval > 0 {
			c.TimerJitter = []int64{0, 0, 1e6, 100e6, o.interval + o.interval/2}[r.Intn(5)]
			if r.Intn(2) == 0 {
				c.StallRate = []float64{0.0002, 0.002, 0.02}[r.Intn(3)]
				c.StallMax = []int64{1e6, 200e6, o.interval, 3 * o.interval}[r.Intn(4)]
			}
		} else if r.Intn(3) == 0 {
			c.StallRate = []float64{0.001, 0.01}[r.Intn(2)]
			c.StallMax = []int64{1e6, 1e9}[r.Intn(2)]
		}
	}
	return c
}

func pick[T any](r *sim.Stream, v ...T) T { return v[r.Intn(len(v))] }

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func fatalf(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", a...)
	os.Exit(2)
}

// enlarge makes a world with many sensors or routes now and then.
func enlarge(r *sim.Stream, cfg map[string]int) {
	if r.Intn(20) == 0 {
		cfg["sensors"] = r.Range(6, 24)
	}
	if r.Intn(20) == 0 {
		cfg["routes"] = r.Range(5, 14)
	}
	if _, ok := cfg["preS"]; ok {
		if cfg["sensors"] > 5 {
			cfg["preS"] = r.Range(0, cfg["sensors"])
		}
		if cfg["routes"] > 4 {
			cfg["preR"] = r.Range(0, cfg["routes"])
		}
	}
}
