package main

import (
	"fmt"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"gpsverif/sim"
)

// The twins scenario: a generator whose trackers share their ids, as they may
// ("the first one of that id" is what lookup and detach mean). They differ in
// their user id only, by which the records are told apart. Every tracker is
// published and advanced like any other (G01, G02).

func init() {
	scenarios["twins"] = &Scenario{Gen: genTwins, Run: runTwins}
	propScn["G01"] = append(propScn["G01"], weighted{"twins", 2})
	propScn["G02"] = append(propScn["G02"], weighted{"twins", 2})
}

func genTwins(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config) {
	cfg := map[string]int{"seed": r.Intn(1 << 30), "n": r.Range(1, 12), "ids": pick(r, 1, 1, 2, 3),
		"workers": pick(r, 1, 2, 4), "cpus": pick(r, 1, 2, 4), "routed": pick(r, 0, 60, 100), "alike": r.Intn(2)}
	p := Plan{Cfg: cfg}
	var ops []Op
	for i := r.Intn(10) * r.Intn(2); i > 0; i-- {
		if r.Intn(2) == 0 {
			ops = append(ops, Op{K: "sleep", A: []int64{pick[int64](r, 1, 300, 700, 999, 1000, 1700)}})
		}
		ops = append(ops, Op{K: pick(r, "attach", "detach"), A: []int64{int64(r.Intn(3))}})
		if r.Intn(2) == 0 { // one goes, another comes
			ops = append(ops, Op{K: pick(r, "attach", "detach"), A: []int64{int64(r.Intn(3))}})
		}
	}
	p.Clients = append(p.Clients, ops)
	return p, swarm(r, swarmOpt{interval: 1e9, maxSteps: 3_000_000, est: 4000})
}

type twin struct {
	user    string
	id      string
	d       *gpsgen.Device
	attCall int64
	attRet  int64
	detCall int64
	detRet  int64
	routed  bool
	dur     float64
	start   float64
	recs    []twinRec
}

type twinRec struct {
	step int64
	dur  float64
}

func runTwins(c *Ctx) {
	r := sim.NewStream(uint64(c.cfg("seed")), "twins")
	sim.SimCPUs = c.clamp("cpus", 1, 4)
	sim.Quiet(true)
	iv := time.Second
	g := gpsgen.New(&gpsgen.Options{Interval: iv, PacketSize: 1024, NumWorkers: c.clamp("workers", 1, 8)})
	var all, list []*twin
	by := map[string]*twin{}
	nid := c.clamp("ids", 1, 4)
	alike := fleetOptions(r)
	add := func(k int) *twin {
		o := alike
		if c.cfg("alike") == 0 {
			o = fleetOptions(r)
		}
		o.ID = fmt.Sprint("same", k%nid)
		o.UserID = fmt.Sprint("twin-", len(all))
		o.Battery.ChargeTime = 1000 * time.Hour
		t := &twin{user: o.UserID, id: o.ID, d: mustDevice(o), detCall: never, detRet: never}
		if r.Intn(100) < c.cfg("routed") {
			t.routed = true
			t.d.AddRoute(newRoute(shLong, r.Uint64()))
		}
		t.start = t.d.Duration()
		all = append(all, t)
		by[t.user] = t
		return t
	}
	attach := func(t *twin) {
		t.attCall = sim.Tick()
		if err := g.Attach(t.d); err != nil {
			c.bad("G03", "twin-attach", "attaching a tracker that shares its id with another failed: %v", err)
		}
		t.attRet = sim.Tick()
		list = append(list, t)
	}
	for i := c.clamp("n", 1, 40); i > 0; i-- {
		attach(add(r.Intn(nid)))
	}
	g.OnPacket(func(b []byte) {
		s := sim.Tick()
		p, err := gpsgen.PacketFromBytes(b)
		if err != nil {
			c.bad("G01", "packet", "a packet cannot be decoded: %v", err)
			return
		}
		for _, x := range p.Devices {
			t := by[x.UserId]
			if t == nil {
				c.bad("G01", "foreign-record", "a record is of no tracker: id %q, user %q", x.Id, x.UserId)
				continue
			}
			t.recs = append(t.recs, twinRec{s, x.Duration})
		}
	})
	run := sim.Go("run", func() { g.Run() })
	sim.Sleep(20 * time.Millisecond) // no stall before Run has read the clock
	sim.Quiet(false)
	cl := sim.Go("client", func() {
		for _, op := range c.P.Clients[0] {
			switch op.K {
			case "sleep":
				sim.Sleep(time.Duration(op.arg(0)) * time.Millisecond)
			case "attach":
				if len(all) < 60 {
					attach(add(int(op.arg(0))))
				}
			case "detach":
				id := fmt.Sprint("same", int(op.arg(0))%nid)
				for i, t := range list {
					if t.id == id {
						list = append(list[:i:i], list[i+1:]...)
						t.detCall = sim.Tick()
						if err := g.Detach(id); err != nil {
							c.bad("G03", "twin-detach", "detaching a tracker that shares its id with another failed: %v", err)
						}
						t.detRet = sim.Tick()
						break
					}
				}
			}
		}
	})
	sim.Sleep(3500 * time.Millisecond)
	sim.Join(cl)
	sim.Quiet(true)
	sim.Sleep(time.Duration(c.Case.Sim.StallMax) + 3500*time.Millisecond)
	end := sim.Tick()
	g.Close()
	if !sim.JoinFor(run, 60e9) {
		c.bad("G04", "not-closed", "Run did not return after Close")
		return
	}
	tk := sim.Ticks()
	if len(tk) < 3 {
		c.bad("G05", "silent", "%d ticks in 7 intervals", len(tk))
		return
	}
	for k, x := range tk {
		next := end
		if k+1 < len(tk) {
			next = tk[k+1].Step
		} else if sec(sim.NowNs()-x.Clock) < 0.1 {
			break // perhaps cut short
		}
		if x.When < 30e6 {
			continue
		}
		for _, t := range all {
			n := 0
			var rec twinRec
			for _, y := range t.recs {
				if y.step > x.Step && y.step < next {
					n++
					rec = y
				}
			}
			what := fmt.Sprintf("tick %d: the tracker of user %q (id %q, one of %d trackers)", k+1, t.user, t.id, len(all))
			switch {
			case n > 1:
				c.bad("G01", "twin-twice", "%s was published %d times", what, n)
			case t.attRet < x.Step && t.detCall > next && n == 0:
				c.bad("G01", "twin-missing", "%s was not published", what)
			case t.attRet < x.Step && t.detCall > next && n == 1:
				busy := false // an operation may have been holding the tracker
				for _, o := range all {
					busy = busy || o.attCall < next && o.attRet > x.Step || o.detCall < next && o.detRet > x.Step
				}
				if t.routed && !busy && rec.dur <= max(t.dur, t.start) {
					c.bad("G02", "twin-unadvanced", "%s was published without having been advanced, with a duration of %v", what, rec.dur)
				}
				t.dur = rec.dur
				c.count("twin_records_checked")
			case (t.detRet < x.Step || t.attCall > next) && n > 0:
				c.bad("G02", "twin-detached", "%s was published although it was not attached", what)
			}
		}
	}
	c.Work++
}
