package main

import (
	"fmt"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/random"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"gpsverif/sim"
)

// The race scenario lets several threads do anything with one or two running
// generators and their trackers at the same time; the race detector watches
// the real code and sees only the synchronisation that this creates (G10).

func init() {
	scenarios["race"] = &Scenario{Gen: genRace, Run: runRace}
	propScn["G05"] = append(propScn["G05"], weighted{"race", 4})
	propScn["G10"] = append(propScn["G10"], weighted{"race", 12}, weighted{"fleet", 2}, weighted{"regs", 1}, weighted{"edits", 1}, weighted{"registry", 1})
}

var raceKinds = []string{
	"attach", "detach", "has", "num", "lookup", "each", "onpacket", "onerror", "onnext",
	"next", "state", "read", "read", "ids", "edit", "edit", "sensor", "rmS", "resetS", "readS", "addR", "rmR", "rmT", "resetR", "readR",
	"jump", "move", "reset", "offline", "update", "snapshot", "marshal", "encode", "restore", "unmarshal", "status",
	"new", "random", "codec", "gen2"}

func genRace(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config) {
	cfg := map[string]int{"seed": r.Intn(1 << 30), "gens": r.Range(1, 2), "n": pick(r, 1, 1, 2, 3, 5), "workers": pick(r, 1, 2, 4, 8),
		"cpus": pick(r, 1, 2, 4), "shared": r.Intn(2), "cb": r.Intn(8), "reent": pick(r, 0, 0, 30, 100), "kind": r.Intn(8), "battery": r.Intn(4)}
	if r.Intn(12) == 0 {
		cfg["fill"], cfg["workers"] = r.Range(66, 90), 32
	}
	kinds := raceKinds
	switch r.Intn(3) {
	case 0: // a few kinds, often
		k := []string{}
		for i := r.Range(2, 6); i > 0; i-- {
			k = append(k, kinds[r.Intn(len(kinds))])
		}
		kinds = k
	}
	var cl [][]Op
	for i := r.Range(2, 4); i > 0; i-- {
		var ops []Op
		for j := r.Range(2, 12); j > 0; j-- {
			if r.Intn(3) == 0 {
				ops = append(ops, Op{K: "sleep", A: []int64{pick[int64](r, 0, 0, 1, 300, 990, 999, 1000, 1001), int64(r.Intn(1000))}})
			}
			ops = append(ops, Op{K: kinds[r.Intn(len(kinds))], A: []int64{int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20))}})
		}
		cl = append(cl, ops)
	}
	p := Plan{Cfg: cfg, Clients: cl}
	sc := swarm(r, swarmOpt{interval: 1e9, maxSteps: 4_000_000, est: 8000})
	return p, sc
}

type racer struct {
	c    *Ctx
	seed uint64
	gs   []*gpsgen.Generator
	ds   []*gpsgen.Device
	sens [][]string
	rts  [][]string
	old  [][]byte
	olds []*pb.Snapshot
	at   []string // what the clients are doing
	nth  uint64
}

func runRace(c *Ctx) {
	y := &racer{c: c, seed: uint64(c.cfg("seed"))}
	c.state = y
	sim.SimCPUs = c.clamp("cpus", 1, 8)
	r := sim.NewStream(y.seed, "race")
	shared := newRoute(shMulti, y.seed)
	for i := 0; i < c.clamp("n", 1, 20); i++ {
		var d *gpsgen.Device
		if c.cfg("kind") < 2 {
			d = gpsgen.NewTracker()
		} else {
			d = snapDevice(c, r)
			o := devOptions(r)
			o.ID = fmt.Sprint("race", i)
			d = mustDevice(o)
		}
		var ids []string
		for k := r.Intn(4); k > 0; k-- {
			s := newSensor(r, fmt.Sprint("s", k))
			ids = append(ids, s.ID())
			d.AddSensor(s)
		}
		y.sens = append(y.sens, ids)
		ids = nil
		for k := r.Intn(3); k > 0; k-- {
			rt := newRoute(pick(r, shMulti, shSingle, shGaps, shLong), r.Uint64())
			ids = append(ids, rt.ID())
			d.AddRoute(rt)
		}
		if c.cfg("shared") > 0 {
			ids = append(ids, shared.ID())
			d.AddRoute(shared)
		}
		y.rts = append(y.rts, ids)
		b, _ := d.MarshalBinary()
		y.old = append(y.old, b)
		y.olds = append(y.olds, d.Snapshot())
		y.ds = append(y.ds, d)
	}
	var runs []*sim.Thread
	for i := 0; i < c.clamp("gens", 1, 3); i++ {
		g := gpsgen.New(&gpsgen.Options{Interval: time.Second, PacketSize: 1024, NumWorkers: c.clamp("workers", 1, 32)})
		y.gs = append(y.gs, g)
		m := c.cfg("cb")
		if m&1 != 0 {
			y.install(g, "onpacket", 0)
		}
		if m&2 != 0 {
			y.install(g, "onnext", 0)
		}
		if m&4 != 0 {
			y.install(g, "onerror", 0)
		}
	}
	for i, d := range y.ds {
		if i%4 != 3 {
			y.gs[i%len(y.gs)].Attach(d)
		}
	}
	for i := c.clamp("fill", 0, 100); i > 0; i-- { // so many that a tick has several slices
		o := devOptions(r)
		o.ID = fmt.Sprint("fill", i)
		y.gs[0].Attach(mustDevice(o))
	}
	for _, g := range y.gs {
		runs = append(runs, sim.Go("run", g.Run))
	}
	var cl []*sim.Thread
	y.at = make([]string, len(c.P.Clients))
	for i, ops := range c.P.Clients {
		i, ops := i, ops
		cl = append(cl, sim.Go(fmt.Sprint("client", i), func() {
			for k, o := range ops {
				y.doing(i, o.K)
				y.do(o, mix(y.seed, uint64(i), uint64(k)))
			}
		}))
	}
	limit := 120e9 + 100*c.Case.Sim.StallMax
	for i, t := range cl {
		if !sim.JoinFor(t, limit) {
			c.bad("G05", "operation-stuck", "client %d does not return from %s", i, y.at[i])
			return
		}
	}
	sim.Quiet(true)
	sim.Sleep(1200 * time.Millisecond)
	n := len(sim.Ticks())
	sim.Sleep(6 * time.Second)
	if k := len(sim.Ticks()) - n; k < 4*len(y.gs) {
		c.bad("G05", "stalled", "%d generators took %d ticks in 6 s at the end of the run", len(y.gs), k)
	}
	for _, g := range y.gs {
		g.Close()
	}
	for _, t := range runs {
		if !sim.JoinFor(t, limit) {
			c.bad("G05", "run-not-returned", "Run does not return after Close")
			return
		}
	}
	c.Work++
}

func (y *racer) install(g *gpsgen.Generator, what string, k int64) {
	switch what {
	case "onpacket":
		g.OnPacket(func(b []byte) {
			p, err := gpsgen.PacketFromBytes(b)
			if err == nil && k%3 == 0 && len(p.Devices) > 0 {
				g.Lookup(p.Devices[0].Id)
			}
			y.reenter()
		})
	case "onnext":
		g.OnNext(func() {
			g.NumDevices()
			if k%3 == 1 {
				g.Each(func(_ int, d *gpsgen.Device) bool { proto.Marshal(d.State()); return true })
			}
			y.reenter()
		})
	default:
		g.OnError(func(err error) { _ = err.Error(); y.reenter() })
	}
}

//go:norace
func (y *racer) draw() uint64 { y.nth++; return mix(y.seed, 99, y.nth) }

//go:norace
func (y *racer) doing(i int, k string) { y.at[i] = k }

// reenter does one of the clients' operations inside a callback.
func (y *racer) reenter() {
	k := y.c.cfg("reent")
	if k == 0 || sim.InKill() {
		return
	}
	x := y.draw()
	if int(x%100) >= k {
		return
	}
	o := Op{K: raceKinds[x/100%uint64(len(raceKinds))], A: []int64{int64(x >> 40), int64(x >> 30 % 1024), int64(x >> 20 % 1024)}}
	if o.K == "sleep" || o.K == "gen2" {
		return
	}
	y.c.count("op_in_callback")
	y.do(o, x)
}

func (y *racer) do(o Op, salt uint64) {
	c := y.c
	r := sim.NewStream(salt, "op")
	i := o.idx(0, len(y.ds))
	d, g := y.ds[i], y.gs[o.idx(1, len(y.gs))]
	a := o.arg(2)
	sid, rid := "", ""
	if n := len(y.sens[i]); n > 0 {
		sid = y.sens[i][int(a)%n]
	}
	if n := len(y.rts[i]); n > 0 {
		rid = y.rts[i][int(a)%n]
	}
	c.count("op_" + o.K)
	switch o.K {
	case "sleep":
		sim.Sleep(time.Duration(o.arg(0))*time.Millisecond + time.Duration(o.arg(1))*time.Microsecond)
	case "attach":
		g.Attach(d)
	case "detach":
		g.Detach(d.ID())
	case "has":
		g.HasTracker(d.ID())
	case "num":
		g.NumDevices()
	case "lookup":
		if x, ok := g.Lookup(d.ID()); ok {
			x.Location()
		}
	case "each":
		g.Each(func(_ int, x *gpsgen.Device) bool { x.Model(); x.Status(); return a%5 > 0 })
	case "onpacket", "onerror", "onnext":
		y.install(g, o.K, a)
	case "next":
		for k := int64(0); k <= a%3; k++ {
			d.Next(1 + float64(a%7))
		}
	case "state":
		st := d.State()
		sim.Yield()
		proto.Marshal(st)
		_ = proto.Clone(st)
		if st.Location != nil { // ours to change
			st.Location.Lat = 0
			st.Id = "mine"
		}
	case "read":
		readOne(d, raceReads, a)
	case "ids":
		readOne(d, raceIDs, a)
	case "edit":
		switch a % 4 {
		case 0:
			d.SetModel(fmt.Sprint("model ", a))
		case 1:
			d.SetUserID(fmt.Sprint("user", a))
		case 2:
			d.SetDescription(fmt.Sprint("descr ", a))
		default:
			d.SetColor(someColor(a))
		}
	case "sensor":
		d.AddSensor(newSensor(r, fmt.Sprint("n", a)))
	case "rmS":
		d.RemoveSensor(sid)
	case "resetS":
		d.ResetSensors()
	case "readS":
		d.Sensors()
		if s, ok := d.SensorByID(sid); ok {
			s.ID()
			s.Name()
			s.Min()
			s.Max()
		}
		d.SensorAt(0)
		d.EachSensor(func(_ int, s *types.Sensor) bool { s.ValueX(); s.ValueY(); return true })
	case "addR":
		d.AddRoute(newRoute(pick(r, shMulti, shSingle, shRepeat), r.Uint64()))
	case "rmR":
		d.RemoveRoute(rid)
	case "rmT":
		// tracks of a shared route belong to all
		if c.cfg("shared") == 0 {
			id := ""
			d.EachRoute(func(_ int, x *navigator.Route) bool {
				if x.ID() == rid && x.NumTracks() > 0 {
					id = x.TrackAt(0).ID()
				}
				return true
			})
			d.RemoveTrack(rid, id)
		}
	case "resetR":
		d.ResetRoutes()
	case "readR":
		d.Routes()
		if x := d.RouteAt(0); x != nil {
			x.ID()
		}
		d.CurrentRoute()
		d.CurrentTrack()
		d.EachRoute(func(_ int, x *navigator.Route) bool {
			x.Distance()
			x.Name()
			x.Color()
			x.EachTrack(func(_ int, t *navigator.Track) bool { t.Distance(); t.NumSegments(); return true })
			return true
		})
	case "jump":
		d.DestinationTo(float64(a % 5000))
	case "move":
		switch a % 7 {
		case 0:
			d.MoveToSegment(int(a%2), int(a%3), int(a%5))
		case 1:
			d.MoveToTrack(int(a%2), int(a%3))
		case 2:
			d.MoveToRoute(int(a % 3))
		case 3:
			d.MoveToRouteByID(rid)
		case 4:
			d.MoveToTrackByID(rid, "none")
		case 5:
			d.ToNextRoute()
		default:
			d.ToPrevRoute()
		}
	case "reset":
		d.ResetNavigator()
	case "offline":
		d.ToOffline()
	case "update":
		d.Update()
	case "snapshot":
		s := d.Snapshot()
		sim.Yield()
		proto.Marshal(s)
	case "marshal":
		b, err := d.MarshalBinary()
		if err == nil && a%2 == 0 {
			new(gpsgen.Device).UnmarshalBinary(b)
		}
	case "encode":
		b, err := gpsgen.EncodeTracker(d)
		if err == nil && a%2 == 0 {
			gpsgen.DecodeTracker(b)
		}
	case "restore": // the same snapshot, perhaps into several trackers
		d.FromSnapshot(y.olds[int(a)%len(y.olds)])
	case "unmarshal":
		d.UnmarshalBinary(y.old[i])
	case "status":
		d.Status()
		g.HasTracker(d.ID())
	case "new": // trackers of its own
		o := devOptions(r)
		e := []func() *gpsgen.Device{gpsgen.NewTracker, gpsgen.NewKidsTracker, gpsgen.NewAnimalTracker, gpsgen.NewBicycleTracker, gpsgen.NewDroneTracker,
			func() *gpsgen.Device { return mustDevice(o) }}[a%6]()
		e.AddRoute(newRoute(shSingle, r.Uint64()))
		e.AddSensor(newSensor(r, "own"))
		for k := 0; k < 4; k++ {
			e.Next(float64(30 * k))
		}
		if a%3 == 0 {
			g.Attach(e)
		}
	case "random":
		rt := gpsgen.RandomRoute(r.Float64()*10, r.Float64()*10, 2, gpsgen.RouteLevelS)
		rt.Distance()
		switch a % 5 {
		case 0:
			gpsgen.RandomRouteForParis()
		case 1:
			gpsgen.RandomRouteForMoscow()
		case 2:
			gpsgen.RandomRouteForNewYork()
		case 3:
			random.String(8)
			random.LatLon()
			random.LatLonByCountry("DE")
			random.BoundingBox("FR")
			random.EachCountry(func(a, b string) {})
			random.Polygon(5, 10)
		default:
			types.RandomModel()
			geo.Distance(1, 2, 3, r.Float64())
		}
	case "codec": // routes and sensors of its own
		rt := []*navigator.Route{newRoute(shMulti, r.Uint64()), newRoute(shGaps, r.Uint64())}
		rt[0].Props().Set("k", a)
		if b, err := gpsgen.EncodeRoutes(rt); err == nil {
			gpsgen.DecodeRoutes(b)
		}
		if b, err := gpsgen.EncodeGeoJSONRoutes(rt); err == nil {
			gpsgen.DecodeGeoJSONRoutes(b)
		}
		if b, err := gpsgen.EncodeGPXRoutes(rt); err == nil {
			gpsgen.DecodeGPXRoutes(b)
		}
		if b, err := gpsgen.EncodeSensors([]*types.Sensor{newSensor(r, "x")}); err == nil {
			gpsgen.DecodeSensors(b)
		}
	case "gen2": // a generator of its own
		g := gpsgen.New(nil)
		g.Attach(gpsgen.NewTracker())
		t := sim.Go("run2", g.Run)
		sim.Sleep(time.Duration(a%1500) * time.Millisecond)
		g.Close()
		sim.JoinFor(t, 60e9)
	}
}

// raceReads and raceIDs are the accessors without arguments. The results go to
// keep: the compiler would drop loads that nobody uses.
var raceReads = []func(*gpsgen.Device){
	func(d *gpsgen.Device) { keep(d.CurrentBearing()) },
	func(d *gpsgen.Device) { keep(d.Distance()) },
	func(d *gpsgen.Device) { keep(d.CurrentDistance()) },
	func(d *gpsgen.Device) { keep(d.RouteDistance()) },
	func(d *gpsgen.Device) { keep(d.CurrentRouteDistance()) },
	func(d *gpsgen.Device) { keep(d.TrackDistance()) },
	func(d *gpsgen.Device) { keep(d.CurrentTrackDistance()) },
	func(d *gpsgen.Device) { keep(d.SegmentDistance()) },
	func(d *gpsgen.Device) { keep(d.CurrentSegmentDistance()) },
	func(d *gpsgen.Device) { keep(b2f(d.IsFinish())) },
	func(d *gpsgen.Device) { keep(d.CurrentSegment().Distance()) },
	func(d *gpsgen.Device) { keep(float64(d.RouteIndex())) },
	func(d *gpsgen.Device) { keep(float64(d.TrackIndex())) },
	func(d *gpsgen.Device) { keep(float64(d.SegmentIndex())) },
	func(d *gpsgen.Device) { keep(b2f(d.IsOffline())) },
	func(d *gpsgen.Device) { keep(d.Location().Lon) },
	func(d *gpsgen.Device) { keep(d.Duration()) },
	func(d *gpsgen.Device) { keep(float64(d.Version()[0])) },
	func(d *gpsgen.Device) { keep(float64(d.NumRoutes())) },
	func(d *gpsgen.Device) { keep(float64(d.NumSensors())) },
}

var raceIDs = []func(*gpsgen.Device){
	func(d *gpsgen.Device) { keepText(d.ID()) },
	func(d *gpsgen.Device) { keepText(d.Model()) },
	func(d *gpsgen.Device) { keepText(d.UserID()) },
	func(d *gpsgen.Device) { keepText(d.Color()) },
	func(d *gpsgen.Device) { keepText(d.Descr()) },
	func(d *gpsgen.Device) { keep(float64(d.Status())) },
}

// readOne calls one of the accessors, or now and then all of them: between two
// calls that lock, an access without a lock is rarely seen.
func readOne(d *gpsgen.Device, list []func(*gpsgen.Device), a int64) {
	n := int64(len(list))
	if a%8 == 0 {
		for k := range list {
			list[(int64(k)+a/8)%n](d)
		}
		return
	}
	list[(a/8)%n](d)
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

//go:noinline
func keep(x float64) float64 { return x }

//go:noinline
func keepText(x string) int { return len(x) }
