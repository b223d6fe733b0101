package main

import (
	"fmt"
	"math"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/types"
	"gpsverif/sim"
)

// The held scenario: clients iterate over the sensors or routes of trackers
// for many intervals, so that tick after tick finds them busy, and call the
// generator from inside the iteration. The generator must neither stop nor
// wait for them, and what the busy trackers missed must be made up (G05, G06).
// Nobody edits the trackers meanwhile: a waiting writer would make the nested
// reads of an iteration wait as well, which is the client's own doing.

func init() {
	scenarios["held"] = &Scenario{Gen: genHeld, Run: runHeld}
	propScn["G05"] = append(propScn["G05"], weighted{"held", 2})
	propScn["G06"] = append(propScn["G06"], weighted{"held", 2})
	propScn["G02"] = append(propScn["G02"], weighted{"held", 1})
}

var heldCalls = []string{"attach", "attachdetach", "num", "lookup", "has", "each", "eachhold", "onnext", "state", "snapshot", "none"}

func genHeld(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config) {
	cfg := map[string]int{
		"seed": r.Intn(1 << 30), "n": pick(r, 1, 2, 3, 5, 8), "workers": pick(r, 1, 2, 4, 8),
		"interval": pick(r, 1000, 1000, 1500, 4000, 61500), "cb": r.Intn(8), "cbsleep": pick(r, 0, 0, 30, 700, 2500),
	}
	p := Plan{Cfg: cfg}
	for i := r.Range(1, 3); i > 0; i-- {
		var ops []Op
		long := 0 // the trackers must not reach the end of their routes
		for j := r.Range(1, 5); j > 0; j-- {
			if cfg["interval"] > 10000 {
				if long++; long > 2 {
					break
				}
			}
			kind := pick(r, "sensors", "sensors", "routes", "plain")
			ops = append(ops, Op{K: kind, A: []int64{
				int64(r.Intn(64)), int64(r.Intn(len(heldCalls))),
				int64(pick(r, 0, 1, 500, 999, 1000, 2500, 4300, 11000, 25000)) * int64(cfg["interval"]) / 1000, // held before the call
				int64(pick(r, 0, 1, 500, 1000, 3300)) * int64(cfg["interval"]) / 1000,                          // and afterwards
				int64(r.Intn(1500)), // then a pause
				int64(r.Intn(3)),    // how many of its parts
			}})
			if a := ops[len(ops)-1].A; cfg["interval"] > 10000 {
				a[2] = min(a[2], 5*int64(cfg["interval"])/2)
				a[3] = min(a[3], int64(cfg["interval"]))
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	sc := swarm(r, swarmOpt{maxSteps: 3_000_000, est: 8000, interval: int64(cfg["interval"]) * 1e6})
	return p, sc
}

func runHeld(c *Ctx) {
	r := sim.NewStream(uint64(c.cfg("seed")), "held")
	sim.SimCPUs = 2
	sim.Quiet(true)
	iv := time.Duration(c.clamp("interval", 1000, 61500)) * time.Millisecond
	g := gpsgen.New(&gpsgen.Options{Interval: iv, PacketSize: 1024, NumWorkers: c.clamp("workers", 1, 8)})
	type trk struct {
		d    *gpsgen.Device
		id   string
		held int
		seen int64 // tick count at its last record
	}
	var ts []*trk
	byID := map[string]*trk{}
	for i := 0; i < c.clamp("n", 1, 10); i++ {
		o := fleetOptions(r)
		o.ID = fmt.Sprint("held", i)
		d := mustDevice(o)
		d.AddRoute(newRoute(shLong, r.Uint64()))
		for k := 2; k > 0; k-- {
			d.AddSensor(newSensor(r, fmt.Sprint("s", k)))
		}
		t := &trk{d: d, id: o.ID}
		ts = append(ts, t)
		byID[t.id] = t
		if err := g.Attach(d); err != nil {
			c.bad("G05", "attach-failed", "%v", err)
		}
	}
	calm := false
	cb := c.cfg("cb")
	pause := func() {
		if !calm && c.cfg("cbsleep") > 0 {
			sim.Sleep(time.Duration(c.cfg("cbsleep")) * time.Millisecond)
		}
	}
	recs := 0
	g.OnPacket(func(b []byte) {
		p, err := gpsgen.PacketFromBytes(b)
		if err != nil {
			return
		}
		for _, s := range p.Devices {
			if t := byID[s.GetId()]; t != nil {
				t.seen = sim.NowNs()
			}
		}
		recs++
		if cb&1 != 0 {
			pause()
		}
	})
	if cb&2 != 0 {
		g.OnNext(pause)
	}
	runClk := sim.NowNs()
	run := sim.Go("run", func() {
		runClk = sim.NowNs()
		g.Run()
	})
	sim.Sleep(20 * time.Millisecond) // it has read its clock
	sim.Quiet(false)
	extra := 0
	call := func(k string, t *trk) {
		c.count("nested_" + k)
		switch k {
		case "attach", "attachdetach":
			extra++
			o := fleetOptions(sim.NewStream(uint64(extra), "extra"))
			o.ID = fmt.Sprint("extra", extra)
			d := mustDevice(o)
			if err := g.Attach(d); err != nil {
				c.bad("G05", "attach-failed", "%v", err)
			}
			if k == "attachdetach" {
				if err := g.Detach(o.ID); err != nil {
					c.bad("G05", "detach-failed", "%v", err)
				}
			}
		case "num":
			g.NumDevices()
		case "lookup":
			if d, ok := g.Lookup(t.id); !ok || d != t.d {
				c.bad("G05", "lookup", "an attached tracker is not found")
			}
		case "has":
			g.HasTracker(t.id)
		case "each":
			g.Each(func(_ int, d *gpsgen.Device) bool { d.ID(); return true })
		case "eachhold":
			g.Each(func(_ int, d *gpsgen.Device) bool {
				d.EachRoute(func(int, *navigator.Route) bool { return true })
				return true
			})
		case "onnext":
			g.OnNext(pause)
		case "state":
			t.d.State()
		case "snapshot":
			t.d.Snapshot()
		}
	}
	var cl []*sim.Thread
	for i := range c.P.Clients {
		i := i
		cl = append(cl, sim.Go(fmt.Sprint("client", i), func() {
			for _, op := range c.P.Clients[i] {
				t := ts[op.idx(0, len(ts))]
				k := heldCalls[op.idx(1, len(heldCalls))]
				before := time.Duration(op.arg(2)) * time.Millisecond
				after := time.Duration(op.arg(3)) * time.Millisecond
				inside := func() {
					t.held++
					sim.Sleep(before)
					call(k, t)
					sim.Sleep(after)
					t.held--
					c.count("held")
				}
				switch op.K {
				case "sensors":
					t.d.EachSensor(func(i int, _ *types.Sensor) bool {
						inside()
						return i < int(op.arg(5))
					})
				case "routes":
					t.d.EachRoute(func(int, *navigator.Route) bool {
						inside()
						return false
					})
				default:
					sim.Sleep(after)
					call(k, t)
				}
				sim.Sleep(time.Duration(op.arg(4)) * time.Millisecond)
			}
		}))
	}
	limit := int64(2000*time.Second) + 100*c.Case.Sim.StallMax
	for _, ops := range c.P.Clients {
		for _, op := range ops { // a list has two sensors
			limit += 2*(op.arg(2)+op.arg(3))*1e6 + op.arg(4)*1e6
		}
	}
	for _, t := range cl {
		if !sim.JoinFor(t, limit) {
			c.bad("G05", "client-stuck", "a client that iterates over a tracker and calls the generator never returns (%s)", t.Name)
			return
		}
	}
	sim.Quiet(true)
	calm = true
	// faults have stopped: within a few intervals all are published again
	sim.Sleep(3*iv + time.Duration(c.Case.Sim.StallMax) + time.Duration(c.cfg("cbsleep"))*time.Millisecond*3)
	from := sim.NowNs()
	n0 := recs
	sim.Sleep(4*iv + iv/10)
	if recs == n0 {
		c.bad("G05", "stalled", "no packet was delivered in the last 4 intervals, although nobody holds a tracker any more")
	}
	for _, t := range ts {
		if t.seen < from {
			c.bad("G05", "not-published", "tracker %s is no longer published", t.id)
		}
	}
	// what was missed is made up
	tk := sim.Ticks()
	sim.Sleep(100 * time.Millisecond)
	if len(tk) != len(sim.Ticks()) { // in the middle of one
		tk = sim.Ticks()
		sim.Sleep(100 * time.Millisecond)
	}
	var durs []float64
	for _, t := range ts {
		durs = append(durs, t.d.Duration())
	}
	g.Close()
	if !sim.JoinFor(run, int64(60*time.Second)) {
		c.bad("G05", "run-stuck", "Run did not return after Close")
		return
	}
	if len(tk) == 0 {
		c.bad("G05", "stalled", "no tick was taken")
		return
	}
	last := sec(tk[len(tk)-1].When - runClk)
	if cfg := c.Case.Sim; cfg.StallMax == 0 && (cb == 0 || c.cfg("cbsleep") == 0) {
		for k := 1; k < len(tk); k++ {
			if gap := tk[k].Clock - tk[k-1].Clock; gap > int64(iv)*3/2+3*cfg.TimerJitter {
				c.bad("G05", "waited", "tick %d was taken %v s after the one before, at an interval of %v s, although trackers were only being read", k+1, sec(gap), iv.Seconds())
			}
		}
		c.count("held_ticks_on_time")
	}
	for i, t := range ts {
		if math.Abs(durs[i]-last) > slack {
			c.bad("G06", "held-sum", "tracker %s was held again and again: its time is %v s, the clock measured %v s", t.id, durs[i], last)
		}
		if math.Abs(durs[i]-durs[0]) > slack {
			c.bad("G02", "held-others", "trackers attached throughout differ: %v s and %v s", durs[i], durs[0])
		}
	}
	c.count("held_sums_checked")
	c.Work++
}
