package main

import (
	"fmt"
	"math"
	"sync/atomic"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/types"
	"gpsverif/sim"
)

// The steps scenario: several goroutines step one or two trackers directly,
// beside readers and editors that keep them busy and perhaps a generator that
// steps them as well. No time may be lost, repeated or invented (G06).

func init() {
	scenarios["steps"] = &Scenario{Gen: genSteps, Run: runSteps}
	propScn["G06"] = append(propScn["G06"], weighted{"steps", 4})
}

func genSteps(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config) {
	cfg := map[string]int{"seed": r.Intn(1 << 30), "n": pick(r, 1, 1, 1, 2), "gen": r.Intn(2) * r.Intn(2), "workers": pick(r, 1, 2, 4), "cpus": pick(r, 1, 2)}
	p := Plan{Cfg: cfg}
	for i := r.Range(2, 5); i > 0; i-- {
		var ops []Op
		other := []string{"state", "hold", "snapshot", "edit", "sensor", "read", "each", "mount"}
		share := r.Intn(4) // how often it steps
		for j := r.Range(1, 14); j > 0; j-- {
			k := "next"
			if r.Intn(4) > share {
				k = other[r.Intn(len(other))]
			}
			if cfg["gen"] > 0 && r.Intn(3) == 0 {
				ops = append(ops, Op{K: "sleep", A: []int64{pick[int64](r, 1000, 999, 300, 500, 1001)}})
			}
			ops = append(ops, Op{K: k, A: []int64{int64(r.Intn(64)), int64(r.Intn(1 << 16)), int64(r.Intn(3000))}})
		}
		p.Clients = append(p.Clients, ops)
	}
	o := swarmOpt{maxSteps: 1_000_000, est: 3000}
	if cfg["gen"] > 0 {
		o.interval = 1e9
	}
	sc := swarm(r, o)
	if sc.MeanQuantum > 50 {
		sc.MeanQuantum = pick(r, 1, 2, 5, 10, 30)
	}
	return p, sc
}

// steptrk counts in 1/64 s, so that every sum is exact.
type steptrk struct {
	d      *gpsgen.Device
	begun  atomic.Int64 // of steps whose call began
	done   atomic.Int64 // of steps whose call returned
	record atomic.Int64
}

func runSteps(c *Ctx) {
	r := sim.NewStream(uint64(c.cfg("seed")), "steps")
	sim.SimCPUs = c.clamp("cpus", 1, 4)
	sim.Quiet(true)
	var ts []*steptrk
	for i := 0; i < c.clamp("n", 1, 3); i++ {
		o := fleetOptions(r)
		o.ID = fmt.Sprint("step", i)
		o.Battery.ChargeTime = 1000 * time.Hour // no offline periods
		d := mustDevice(o)
		d.AddRoute(newRoute(shLong, r.Uint64()))
		for k := r.Intn(3); k > 0; k-- {
			d.AddSensor(newSensor(r, fmt.Sprint("s", k)))
		}
		ts = append(ts, &steptrk{d: d})
	}
	withGen := c.cfg("gen") > 0
	var g *gpsgen.Generator
	var run *sim.Thread
	runClk := sim.NowNs()
	if withGen {
		g = gpsgen.New(&gpsgen.Options{Interval: time.Second, PacketSize: 1024, NumWorkers: c.clamp("workers", 1, 8)})
		for _, t := range ts {
			g.Attach(t.d)
		}
		run = sim.Go("run", func() {
			runClk = sim.NowNs()
			g.Run()
		})
		sim.Sleep(20 * time.Millisecond) // it has read its clock
	}
	sim.Quiet(false)
	check := func(t *steptrk, dur float64, what string) {
		b := float64(t.begun.Load()) / 64
		if withGen {
			b += sec(sim.NowNs()-runClk) + slack
		}
		if dur > b {
			c.bad("G06", "invented", "%s shows %v s of simulated time, but only %v s have passed or been stepped", what, dur, b)
		}
		c.count("steps_checked")
	}
	var cl []*sim.Thread
	for i := range c.P.Clients {
		i := i
		cl = append(cl, sim.Go(fmt.Sprint("client", i), func() {
			for k, op := range c.P.Clients[i] {
				t := ts[op.idx(0, len(ts))]
				d := t.d
				switch op.K {
				case "sleep":
					sim.Sleep(time.Duration(op.arg(0)) * time.Millisecond)
				case "next":
					n := op.arg(1)%640 + 1
					if n%16 == 3 { // no length of time
						d.Next(pickInt(n/16, math.NaN(), math.Inf(1), -7, math.Inf(-1)))
					}
					t.begun.Add(n)
					d.Next(float64(n) / 64)
					t.done.Add(n)
					c.count("direct_steps")
				case "state":
					st := d.State()
					check(t, st.Duration, "a state")
				case "read":
					check(t, d.Duration(), "the duration")
				case "snapshot":
					check(t, d.Snapshot().Duration, "a snapshot")
				case "hold":
					d.EachSensor(func(int, *types.Sensor) bool {
						if withGen {
							sim.Sleep(time.Duration(op.arg(2)) * time.Millisecond)
						} else {
							for y := op.arg(2) % 20; y > 0; y-- {
								sim.Yield()
							}
						}
						return false
					})
				case "mount": // it joins and leaves a generator that never runs
					if g == nil {
						if g2 := gpsgen.New(nil); g2.Attach(d) == nil {
							g2.Detach(d.ID())
							c.count("mounts")
						}
					}
				case "each":
					if g != nil {
						g.Each(func(_ int, d *gpsgen.Device) bool { d.Model(); return true })
					}
				case "edit":
					d.SetModel(fmt.Sprint("model ", k))
				case "sensor":
					d.AddSensor(newSensor(sim.NewStream(uint64(op.arg(1)), "s"), fmt.Sprint("s", k)))
				}
			}
		}))
	}
	for _, t := range cl {
		sim.Join(t)
	}
	sim.Quiet(true)
	gen := 0.0
	if g != nil {
		sim.Sleep(2500*time.Millisecond + time.Duration(c.Case.Sim.StallMax)) // ticks without contention take in what is pending
		tk := sim.Ticks()
		sim.Sleep(100 * time.Millisecond)
		if len(tk) != len(sim.Ticks()) { // in the middle of one
			tk = sim.Ticks()
			sim.Sleep(100 * time.Millisecond)
		}
		g.Close()
		sim.JoinFor(run, 60e9)
		if len(tk) == 0 {
			return
		}
		gen = sec(tk[len(tk)-1].When - runClk)
	}
	for i, t := range ts {
		before := t.d.State().Duration
		t.d.Next(2)
		t.d.Next(3)
		st := t.d.State()
		want := float64(t.begun.Load())/64 + 5
		if t.begun.Load() != t.done.Load() {
			c.bad("G06", "step-lost", "a step did not return")
		}
		if !withGen {
			if st.Duration != want {
				c.bad("G06", "direct-sum", "tracker %d: %d/64 s were stepped directly and 5 s more at the end, but its time is %v (%v before)", i, t.begun.Load(), st.Duration, before)
			}
		} else {
			if x := st.Duration - want; math.Abs(x-gen) > slack {
				c.bad("G06", "direct-sum-gen", "tracker %d gained %v s besides the %v s stepped directly; the clock of its generator measured %v s", i, x, want, gen)
			}
			c.count("gen_sums_checked")
		}
	}
	c.Work++
}
