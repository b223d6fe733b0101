package main

import (
	"fmt"
	"runtime"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/types"
	"gpsverif/sim"
)

// The lasting scenario: the same things are done in every interval of a
// running generator, for many intervals, on a fleet whose size stays the same.
// What the generator and its trackers hold on to (goroutines, timers, memory)
// must not grow with the number of ticks and operations (G11).

func init() {
	scenarios["lasting"] = &Scenario{Gen: genLasting, Run: runLasting}
	propScn["G11"] = append(propScn["G11"], weighted{"lasting", 10})
}

var lastingOps = []string{"churn", "state", "snapshot", "encode", "decode", "load", "text", "sensor", "route", "track",
	"jump", "move", "offline", "reset", "each", "lookup", "callbacks", "step", "docs", "failattach", "generator"}

func genLasting(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config) {
	cfg := map[string]int{"seed": r.Intn(1 << 30), "n": pick(r, 0, 1, 2, 5, 12, 24), "cb": pick(r, 7, 7, 7, 0, 1, 2, 4),
		"workers": pick(r, 1, 2, 4, 8), "cpus": pick(r, 1, 2, 4), "rounds": r.Range(12, 24), "bad": r.Intn(3) / 2,
		"slow_ms": pick(r, 0, 0, 0, 700, 2500), "run": pick(r, 1, 1, 1, 0), "reps": pick(r, 1, 2, 6), "keep_slow": r.Intn(2)}
	if thorough {
		cfg["rounds"] = r.Range(20, 60)
	}
	p := Plan{Cfg: cfg}
	few := r.Intn(3) == 0 // little to do, for a long time
	nc := r.Range(0, 2)
	if few {
		nc = r.Intn(2)
		cfg["n"], cfg["reps"], cfg["rounds"] = pick(r, 0, 1, 3), 1, r.Range(100, 300)
	}
	for i := nc; i > 0; i-- {
		var ops []Op
		for j := r.Range(1, 5); j > 0; j-- {
			ops = append(ops, Op{K: lastingOps[r.Intn(len(lastingOps))], A: []int64{int64(r.Intn(64)), int64(r.Intn(1 << 16))}})
		}
		p.Clients = append(p.Clients, ops)
	}
	sc := swarm(r, swarmOpt{interval: 1e9, maxSteps: 60_000_000, est: 20000, stepCost: 20})
	if sc.MeanQuantum < 100 {
		sc.MeanQuantum = pick(r, 100, 400, 1000) // each switch is recorded, and that takes memory
	}
	return p, sc
}

type held struct {
	heap, objects int64
	threads       int
	timers        int
	started       int
	work          int64 // steps for finding nobody and listing everybody
}

func (h held) String() string {
	return fmt.Sprintf("%d bytes in %d objects, %d goroutines, %d timers, %d steps for a lookup and a listing", h.heap, h.objects, h.threads, h.timers, h.work)
}

func measureHeld(g *gpsgen.Generator) (h held) {
	start := sim.Steps()
	g.Lookup("nobody")
	g.Detach("nobody")
	g.NumDevices()
	g.Each(func(int, *gpsgen.Device) bool { return true })
	work := sim.Steps() - start
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return held{int64(m.HeapAlloc) - sim.Kept(), int64(m.HeapObjects), len(sim.LiveLib()), sim.Armed(), sim.NumLib(), work}
}

func runLasting(c *Ctx) {
	r := sim.NewStream(uint64(c.cfg("seed")), "lasting")
	sim.SimCPUs = c.clamp("cpus", 1, 4)
	sim.Quiet(true)
	iv := int64(1e9)
	g := gpsgen.New(&gpsgen.Options{Interval: time.Second, PacketSize: 1024, NumWorkers: c.clamp("workers", 1, 16)})
	routes, err := gpsgen.EncodeRoutes([]*navigator.Route{newRoute(shLong, r.Uint64())})
	if err != nil {
		panic(err)
	}
	made := 0
	mk := func() *gpsgen.Device {
		o := fleetOptions(r)
		o.ID = fmt.Sprintf("lasting-%08d", made)
		made++
		d := mustDevice(o)
		l, err := gpsgen.DecodeRoutes(routes)
		if err != nil {
			c.bad("P05", "route", "a route cannot be decoded: %v", err)
			return d
		}
		d.AddRoute(l...)
		return d
	}
	var ds []*gpsgen.Device
	for i := c.clamp("n", 0, 64); i > 0; i-- {
		d := mk()
		ds = append(ds, d)
		g.Attach(d)
	}
	if c.cfg("bad") > 0 && len(ds) > 0 {
		ds[0].SetDescription("\xff")
	}
	calm := false
	slow := func() {
		if ms := c.clamp("slow_ms", 0, 5000); ms > 0 && !calm {
			sim.Sleep(time.Duration(ms) * time.Millisecond)
		}
	}
	packets := 0
	cb := c.cfg("cb")
	callbacks := func() {
		if cb&cbPacket != 0 {
			g.OnPacket(func(b []byte) { packets += len(b); slow() })
		}
		if cb&cbError != 0 {
			g.OnError(func(error) { slow() })
		}
		if cb&cbNext != 0 {
			g.OnNext(func() { slow() })
		}
	}
	callbacks()
	var singles []*gpsgen.Device // never attached, one for each client
	for range c.P.Clients {
		singles = append(singles, mk())
	}
	stored := mk().Snapshot()
	spare := make([]byte, 0, 1<<20)
	do := func(i int, op Op, k int) {
		single := singles[i]
		d := single
		if n := len(ds); n > 0 {
			d = ds[op.idx(0, n)]
		}
		own := fmt.Sprintf("%d-%06d", i, k) // a text not used before
		switch op.K {
		case "churn":
			times := 1
			if op.arg(1)%3 == 0 {
				times = 12
			}
			for n := len(ds); n > 0 && i == 0 && times > 0; times-- {
				old := ds[0]
				g.Detach(old.ID())
				copy(ds, ds[1:])
				ds[n-1] = mk()
				g.Attach(ds[n-1])
			}
		case "state":
			d.State()
		case "snapshot":
			d.Snapshot()
		case "encode":
			b, _ := d.MarshalBinary()
			spare = append(spare[:0], b...)
		case "decode":
			if b, err := d.MarshalBinary(); err == nil {
				gpsgen.DecodeTracker(b)
			}
		case "load":
			single.FromSnapshot(stored)
		case "text":
			d.SetModel("model " + own)
			d.SetUserID(own)
		case "sensor":
			if s, err := types.NewSensor("sensor "+own, 1, 2, 8, 0); err == nil {
				d.AddSensor(s)
				d.RemoveSensor(s.ID())
			}
		case "route":
			if l, err := gpsgen.DecodeRoutes(routes); err == nil {
				x := navigator.RestoreRoute("route "+own, "#010203", nil)
				x.AddTrack(l[0].TrackAt(0))
				d.AddRoute(x)
				d.RemoveRoute(x.ID())
			}
		case "track":
			if l, err := gpsgen.DecodeRoutes(routes); err == nil {
				base := sim.NewStream(uint64(op.arg(1)), "track")
				if t, err := navigator.RestoreTrack("track "+own, "#010203", walk(base, basePoint(base), 4, 10, 100)); err == nil {
					x := navigator.RestoreRoute("route t"+own, "#010203", nil)
					x.AddTrack(l[0].TrackAt(0)).AddTrack(t)
					d.AddRoute(x)
					d.RemoveTrack(x.ID(), t.ID())
					d.RemoveRoute(x.ID())
				}
			}
		case "jump":
			d.DestinationTo(float64(op.arg(1)))
		case "move":
			d.MoveToSegment(0, 0, int(op.arg(1))%8)
		case "offline":
			d.ToOffline()
		case "reset":
			d.ResetNavigator()
		case "each":
			g.Each(func(_ int, d *gpsgen.Device) bool { d.Model(); return true })
		case "lookup":
			g.Lookup(own)
			g.Lookup(d.ID())
		case "callbacks":
			callbacks()
		case "step":
			single.Next(1)
		case "docs":
			l := single.Routes() // they are not copies: another client could change them
			if b, err := gpsgen.EncodeGPXRoutes(l); err == nil {
				gpsgen.DecodeGPXRoutes(b)
			}
			if b, err := gpsgen.EncodeGeoJSONRoutes(l); err == nil {
				gpsgen.DecodeGeoJSONRoutes(b)
			}
		case "failattach":
			if i == 0 { // another client could attach again what was just detached
				g.Attach(d)
			}
			g.Detach("nobody " + own)
		case "generator": // one that lives for a moment
			g2 := gpsgen.New(&gpsgen.Options{Interval: time.Second, PacketSize: 1024, NumWorkers: 2})
			g2.Close()
			g2.Run()
		}
	}
	var run *sim.Thread
	if c.cfg("run") > 0 {
		run = sim.Go("run", func() { g.Run() })
	}
	ops := 0
	phase := func(rounds int) {
		calm = false
		sim.Quiet(false)
		end := sim.NowNs() + int64(rounds)*iv
		var cl []*sim.Thread
		for i := range c.P.Clients {
			i := i
			cl = append(cl, sim.Go(fmt.Sprint("client", i), func() {
				for next := sim.NowNs(); next < end; {
					for rep := c.clamp("reps", 1, 50); rep > 0; rep-- {
						for _, op := range c.P.Clients[i] {
							ops++
							do(i, op, ops)
						}
					}
					next += iv
					if d := next - sim.NowNs(); d > 0 {
						sim.Sleep(time.Duration(d))
					}
				}
			}))
		}
		for _, t := range cl {
			sim.Join(t)
		}
		if d := end - sim.NowNs(); d > 0 {
			sim.Sleep(time.Duration(d))
		}
	}
	settle := func() {
		calm = c.cfg("keep_slow") == 0
		sim.Quiet(true)
		sim.Sleep(time.Duration(c.Case.Sim.StallMax) + 8*time.Second)
		if tk := sim.Ticks(); len(tk) > 0 { // well inside an interval
			last := tk[len(tk)-1].When
			k := (sim.NowNs()-last)/iv + 1
			sim.Sleep(time.Duration(last + k*iv + iv/2 - sim.NowNs()))
		}
	}
	m := c.clamp("rounds", 4, 1000)
	phase(4)
	settle()
	a := measureHeld(g)
	phase(m)
	settle()
	b := measureHeld(g)
	grows := func(a, b held) string {
		n := int64(b.started - a.started) // the simulator remembers these
		spare := 0
		if !calm { // callbacks may be in progress
			spare = 4
		}
		switch {
		case b.threads > a.threads+spare:
			return "goroutines"
		case b.timers > a.timers+spare:
			return "timers"
		case b.work > a.work+50+a.work/20:
			return "work"
		case b.objects-a.objects-4*n > 120, b.heap-a.heap-500*n > 200_000:
			return "memory"
		}
		return ""
	}
	// Twice: what is kept may be limited, but not reach the limit at once.
	if what := grows(a, b); what != "" {
		phase(m)
		settle()
		if d := measureHeld(g); grows(b, d) == what {
			c.bad("G11", what, "what is held keeps growing while the same is done on the same number of trackers: %v, after %d more intervals %v, after as many again %v; goroutines %v",
				a, m, b, d, sim.LiveLib())
		}
	}
	c.count("held_checked")
	if run != nil {
		g.Close()
		if !sim.JoinFor(run, 60e9) {
			c.bad("G04", "not-closed", "Run did not return after Close")
		}
	}
	runtime.KeepAlive(ds)
	runtime.KeepAlive(singles)
	runtime.KeepAlive(stored)
	runtime.KeepAlive(spare)
	c.Work++
}
