package main

import (
	"fmt"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"gpsverif/sim"
)

// The callbacks scenario: callbacks that are set, replaced by others or by
// those of before, and removed while a generator runs, by several goroutines
// and from inside callbacks. Every delivery goes to exactly one callback that
// was in force between the start of its tick and its own start (G12).

func init() {
	scenarios["callbacks"] = &Scenario{Gen: genCallbacks, Run: runCallbacks}
	propScn["G12"] = append(propScn["G12"], weighted{"callbacks", 10})
}

const (
	onPacket = iota
	onError
	onNext
	numKinds
)

var kindNames = [...]string{"packet", "error", "next-step"}

func genCallbacks(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config) {
	cfg := map[string]int{"seed": r.Intn(1 << 30), "n": pick(r, 0, 1, 2, 4, 8), "workers": pick(r, 1, 2, 4, 8), "cpus": pick(r, 1, 2, 4),
		"bad": r.Intn(3) / 2, "slow_ms": pick(r, 0, 0, 0, 400, 1700), "slow_one": r.Intn(4), "initial": pick(r, 0, 7, 7, 7, 1, 5, r.Intn(8)),
		"ticks": r.Range(3, 9), "every": pick(r, 1, 1, 2, 5), "late_ms": pick(r, 0, 0, 0, 500, 4500)}
	if r.Intn(12) == 0 { // several slices per tick
		cfg["n"], cfg["workers"], cfg["ticks"] = r.Range(45, 70), pick(r, 32, 16), r.Range(3, 4)
	}
	if thorough {
		cfg["ticks"] += r.Intn(20)
	}
	op := func() Op {
		return Op{K: "set", A: []int64{int64(r.Intn(numKinds)), int64(pick(r, -1, 0, 1, 2, 3, 3, 3))}}
	}
	p := Plan{Cfg: cfg}
	for i := r.Range(0, 2); i >= 0; i-- {
		var ops []Op
		for j := r.Intn(14); j > 0; j-- {
			if r.Intn(2) == 0 {
				ops = append(ops, Op{K: "sleep", A: []int64{pick[int64](r, 1, 200, 500, 900, 999, 1000, 1700, int64(r.Intn(1500)))}})
			}
			ops = append(ops, op())
		}
		p.Clients = append(p.Clients, ops)
	}
	return p, swarm(r, swarmOpt{interval: 1e9, maxSteps: 6_000_000, est: 4000})
}

// A setting is one call that installed a function, or none (0).
type setting struct {
	fn        int
	call, ret int64
}

type invocation struct {
	fn         int
	start, end int64
	clock      int64
	ids        []string
}

func runCallbacks(c *Ctx) {
	r := sim.NewStream(uint64(c.cfg("seed")), "callbacks")
	sim.SimCPUs = c.clamp("cpus", 1, 4)
	sim.Quiet(true)
	g := gpsgen.New(&gpsgen.Options{Interval: time.Second, PacketSize: 1024, NumWorkers: c.clamp("workers", 1, 64)})
	var ids []string
	for i := 0; i < c.clamp("n", 0, 100); i++ {
		o := fleetOptions(r)
		o.ID = fmt.Sprintf("cb-%03d", i)
		d := mustDevice(o)
		if i == 0 && c.cfg("bad") > 0 {
			d.SetDescription("\xff")
		}
		g.Attach(d)
		ids = append(ids, o.ID)
	}
	var sets [numKinds][]setting
	var calls [numKinds][]*invocation
	var fns [numKinds][]func(*invocation)
	var install func(kind, which int)
	var inside []Op // done by the callbacks, one by one
	every, seen := c.clamp("every", 1, 100), 0
	slow := time.Duration(c.clamp("slow_ms", 0, 5000)) * time.Millisecond
	closing := false
	invoke := func(kind, fn int, ids []string) {
		if closing {
			return
		}
		v := &invocation{fn: fn, start: sim.Tick(), end: never, clock: sim.NowNs(), ids: ids}
		calls[kind] = append(calls[kind], v)
		seen++
		if len(inside) > 0 && seen%every == 0 {
			op := inside[0]
			inside = inside[1:]
			if op.K == "set" {
				install(op.idx(0, numKinds), int(op.arg(1)))
				c.count("set_from_callback")
			}
		}
		if slow > 0 && fn%4 == c.cfg("slow_one") {
			sim.Sleep(slow)
		}
		v.end = sim.Tick()
	}
	install = func(kind, which int) {
		// -1 removes, 0..2 is one of the latest functions again, 3 a new one
		fn := 0
		if n := len(fns[kind]); which >= 0 {
			if which > 2 || which >= n {
				fns[kind] = append(fns[kind], nil)
				fn = n + 1
			} else {
				fn = n - which
			}
		}
		i := len(sets[kind])
		sets[kind] = append(sets[kind], setting{fn, sim.Tick(), never})
		switch {
		case kind == onPacket && fn == 0:
			g.OnPacket(nil)
		case kind == onPacket:
			g.OnPacket(func(b []byte) {
				p, err := gpsgen.PacketFromBytes(b)
				if err != nil {
					c.bad("G08", "packet", "a packet cannot be decoded: %v", err)
					return
				}
				var ids []string
				for _, d := range p.Devices {
					ids = append(ids, d.Id)
				}
				invoke(onPacket, fn, ids)
			})
		case kind == onError && fn == 0:
			g.OnError(nil)
		case kind == onError:
			g.OnError(func(error) { invoke(onError, fn, nil) })
		case fn == 0:
			g.OnNext(nil)
		default:
			g.OnNext(func() { invoke(onNext, fn, nil) })
		}
		sets[kind][i].ret = sim.Tick()
		c.count("callback_set")
	}
	for k := 0; k < numKinds; k++ {
		sets[k] = []setting{{0, 0, 0}} // none at first
		if c.cfg("initial")&(1<<k) != 0 {
			install(k, 3)
		}
	}
	run := sim.Go("run", func() {
		sim.Sleep(time.Duration(c.clamp("late_ms", 0, 10000)) * time.Millisecond)
		g.Run()
	})
	sim.Quiet(false)
	var cl []*sim.Thread
	for i, ops := range c.P.Clients {
		if i == 0 {
			inside = ops
			continue
		}
		ops := ops
		cl = append(cl, sim.Go(fmt.Sprint("client", i), func() {
			for _, op := range ops {
				switch op.K {
				case "sleep":
					sim.Sleep(time.Duration(op.arg(0)) * time.Millisecond)
				case "set":
					install(op.idx(0, numKinds), int(op.arg(1)))
				}
			}
		}))
	}
	sim.Sleep(time.Duration(c.clamp("late_ms", 0, 10000)+1000*c.clamp("ticks", 1, 60)+500) * time.Millisecond)
	for _, t := range cl {
		sim.Join(t)
	}
	sim.Quiet(true)
	sim.Sleep(time.Duration(c.Case.Sim.StallMax) + 3500*time.Millisecond)
	end, endClock := sim.Tick(), sim.NowNs()
	closing = true
	g.Close()
	if !sim.JoinFor(run, 60e9) {
		c.bad("G04", "not-closed", "Run did not return after Close")
		return
	}
	// may tells whether a function may have been in force at some instant of [a, b].
	may := func(kind, fn int, a, b int64) bool {
	next:
		for i, s := range sets[kind] {
			if s.fn != fn || s.call > b {
				continue
			}
			for j, o := range sets[kind] {
				if j != i && o.call > s.ret && o.ret < a {
					continue next // replaced before
				}
			}
			return true
		}
		return false
	}
	tk := sim.Ticks()
	first := func(kind int, v *invocation) (at int64) { // start of the tick in progress
		for _, x := range tk {
			// The ticks do not wait for the next-step callback to be called.
			if x.Step < v.start && (kind != onNext || x.Clock <= v.clock-3*c.Case.Sim.StallMax) {
				at = x.Step
			}
		}
		return
	}
	for kind, l := range calls {
		for _, v := range l {
			if a := first(kind, v); !may(kind, v.fn, a, v.start) {
				c.bad("G12", "replaced-called", "the %s callback %d was called at step %d, in the tick that began at step %d; settings: %v", kindNames[kind], v.fn, v.start, a, sets[kind])
			}
			c.count("callback_" + kindNames[kind])
		}
	}
	for k, x := range tk {
		next := end
		if k+1 < len(tk) {
			next = tk[k+1].Step
		} else if sec(endClock-x.Clock) < 0.1+2*slow.Seconds()+sec(c.Case.Sim.StallMax) {
			break // perhaps not complete
		}
		if x.When < int64(c.clamp("late_ms", 0, 10000))*1e6+3*c.Case.Sim.StallMax+30e6 { // perhaps of before Run
			continue
		}
		got := map[string]int{}
		for _, v := range calls[onPacket] {
			if v.start > x.Step && v.start < next {
				for _, id := range v.ids {
					got[id]++
				}
			}
		}
		var lost []string
		for _, id := range ids {
			if got[id] > 1 {
				c.bad("G12", "twice", "the record of %s for tick %d went to packet callbacks %d times; settings: %v", id, k+1, got[id], sets[onPacket])
			}
			if got[id] == 0 {
				lost = append(lost, id)
			}
		}
		if len(lost) > 0 && c.cfg("bad") == 0 && !may(onPacket, 0, x.Step, next) {
			c.bad("G12", "lost", "the records of %d of %d trackers for tick %d went to no callback although there was one all the time, from step %d to %d; settings: %v", len(lost), len(ids), k+1, x.Step, next, sets[onPacket])
		}
		if c.cfg("bad") > 0 && len(ids) > 0 && !may(onError, 0, x.Step, next) {
			n := 0
			for _, v := range calls[onError] {
				if v.start > x.Step && v.start < next {
					n++
				}
			}
			if n == 0 {
				c.bad("G12", "error-lost", "the failure of tick %d went to no callback although there was one all the time, from step %d to %d; settings: %v", k+1, x.Step, next, sets[onError])
			}
		}
		// The notification may have to wait for the callback in progress.
		until, late := end, x.Clock+int64(slow)+c.Case.Sim.StallMax*2+2_500_000_000
		for _, y := range tk {
			if y.Clock >= late {
				until = y.Step
				break
			}
		}
		if until == end && endClock < late || may(onNext, 0, x.Step, until) {
			continue
		}
		n := 0
		for _, v := range calls[onNext] {
			if v.start > x.Step && v.start < until {
				n++
			}
		}
		if n == 0 {
			c.bad("G12", "notification-lost", "the end of tick %d was notified to no callback although there was one all the time, from step %d to %d; settings: %v", k+1, x.Step, until, sets[onNext])
		}
		c.count("callback_ticks_checked")
	}
	c.Work++
}
