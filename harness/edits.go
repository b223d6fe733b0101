package main

import (
	"fmt"
	"strings"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"gpsverif/sim"
)

// The edits scenario records concurrent histories of sensor, route and track
// edits and reads of one tracker, with ticks in progress, and decides whether
// they are linearizable against ordered lists (D06).

func init() {
	scenarios["edits"] = &Scenario{Gen: genEdits, Run: runEdits, Post: postEdits}
	propScn["D06"] = append(propScn["D06"], weighted{"edits", 10})
}

type edits struct {
	c      *Ctx
	d      *gpsgen.Device
	sens   []*types.Sensor
	routes []*navigator.Route
	tracks [][]string        // initial tracks of each route
	name   map[string]string // id to model name
	ops    []linOp
	ticks  bool
	init   string
}

var editKinds = []string{
	"addS", "addS", "addS", "rmS", "rmS", "rmS", "resetS", "numS", "atS", "byS", "listS", "eachS",
	"addR", "addR", "rmR", "rmR", "resetR", "numR", "atR", "listR", "eachR", "rmT", "rmT",
	"state", "state", "state", "state", "snap",
}

func genEdits(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config) {
	cfg := map[string]int{"sensors": r.Range(1, 5), "routes": r.Range(1, 4), "seed": r.Intn(1 << 30),
		"preS": r.Intn(4), "preR": r.Intn(3), "warm": r.Intn(4), "tick": pick(r, 0, 0, 1), "gen": pick(r, 0, 0, 0, 1)}
	enlarge(r, cfg)
	p := Plan{Cfg: cfg}
	nc := r.Range(2, 4)
	per := r.Range(3, 9)
	kinds := editKinds
	switch r.Intn(4) { // swarm: fewer kinds, denser conflicts
	case 0:
		kinds = []string{"addS", "addS", "rmS", "rmS", "resetS", "state", "state", "listS", "eachS", "atS", "byS", "numS"}
	case 1:
		kinds = []string{"addR", "addR", "rmR", "resetR", "rmT", "rmT", "state", "state", "listR", "eachR", "atR", "numR", "snap"}
	}
	for i := 0; i < nc; i++ {
		var ops []Op
		for k := 0; k < per; k++ {
			if cfg["tick"] > 0 && r.Intn(3) == 0 {
				ops = append(ops, Op{K: pick(r, "tick", "tick", "tick", "jump", "move", "update"), A: []int64{int64(r.Intn(64)), int64(r.Intn(2000))}})
				continue
			}
			if cfg["gen"] > 0 && r.Intn(3) == 0 {
				ops = append(ops, Op{K: "sleep", A: []int64{pick[int64](r, 1000, 999, 300, 500, 1001)}})
			}
			ops = append(ops, Op{K: kinds[r.Intn(len(kinds))], A: []int64{int64(r.Intn(64)), int64(r.Intn(64))}})
		}
		p.Clients = append(p.Clients, ops)
	}
	o := swarmOpt{maxSteps: 1_000_000, est: 4000}
	if cfg["gen"] > 0 {
		o.interval = 1e9
	}
	sc := swarm(r, o)
	if sc.MeanQuantum > 50 {
		sc.MeanQuantum = pick(r, 1, 3, 10, 20, 50)
	}
	return p, sc
}

func runEdits(c *Ctx) {
	e := &edits{c: c, name: map[string]string{}}
	c.state = e
	r := sim.NewStream(uint64(c.cfg("seed")), "edits")
	sim.Quiet(true)
	o := devOptions(r)
	o.ID = "dev"
	o.Battery.ChargeTime = 100 * time.Hour
	e.d = mustDevice(o)
	for i := 0; i < c.clamp("sensors", 1, 40); i++ {
		s := newSensor(r, fmt.Sprintf("sensor %d", i))
		for k := 0; k < c.clamp("warm", 0, 5)*i; k++ {
			s.Next(float64(k%20) / 20)
		}
		e.sens = append(e.sens, s)
		e.name[s.ID()] = fmt.Sprintf("s%d", i)
	}
	var tr []string
	for i := 0; i < c.clamp("routes", 1, 20); i++ {
		rt := newRoute(pick(r, shMulti, shSingle, shRepeat, shLong), uint64(i)+uint64(c.cfg("seed")))
		e.routes = append(e.routes, rt)
		e.name[rt.ID()] = fmt.Sprintf("r%d", i)
		var ts []string
		for j := 0; j < rt.NumTracks(); j++ {
			ts = append(ts, rt.TrackAt(j).ID())
			e.name[rt.TrackAt(j).ID()] = fmt.Sprintf("t%d.%d", i, j)
		}
		e.tracks = append(e.tracks, ts)
		var l []string
		for _, t := range ts {
			l = append(l, e.name[t])
		}
		tr = append(tr, strings.Join(l, ","))
	}
	e.init = "||" + strings.Join(tr, "/")
	e.ticks = c.cfg("tick") > 0 || c.cfg("gen") > 0
	for i := 0; i < c.clamp("preS", 0, 40); i++ {
		e.do(Op{K: "addS", A: []int64{int64(i), 0}})
	}
	for i := 0; i < c.clamp("preR", 0, 40); i++ {
		e.do(Op{K: "addR", A: []int64{int64(i), 0}})
	}
	var g *gpsgen.Generator
	var run *sim.Thread
	if c.cfg("gen") > 0 {
		g = gpsgen.New(&gpsgen.Options{Interval: time.Second, PacketSize: 1024, NumWorkers: 1})
		g.Attach(e.d)
		g.OnPacket(func(b []byte) {
			ret := sim.Tick()
			p, err := gpsgen.PacketFromBytes(b)
			if err != nil || len(p.Devices) != 1 {
				c.bad("D06", "packet", "packet does not hold the tracker: %v", err)
				return
			}
			// the record was taken at some time since the tick
			tk := sim.Ticks()
			e.state(tk[len(tk)-1].Step, ret, p.Devices[0], "packet")
		})
		run = sim.Go("run", g.Run)
	}
	sim.Quiet(false)
	var cl []*sim.Thread
	for i := range c.P.Clients {
		i := i
		cl = append(cl, sim.Go(fmt.Sprintf("client%d", i), func() {
			for _, o := range c.P.Clients[i] {
				e.do(o)
			}
		}))
	}
	for _, t := range cl {
		sim.Join(t)
	}
	sim.Quiet(true)
	if g != nil {
		g.Close()
		sim.JoinFor(run, 20e9)
	}
	for _, k := range []string{"listS", "listR", "state", "snap"} {
		e.do(Op{K: k})
	}
	e.values(e.d.State(), "the final state")
	e.do(Op{K: "addS", A: []int64{1, 3}})
	e.values(e.d.State(), "the state after adding sensors")
	e.do(Op{K: "state"})
	e.without()
}

// without does edits that change nothing; only valid while nothing else runs.
func (e *edits) without() {
	d := e.d
	d.Next(3)
	before := portrait(d)
	var what string
	for k := 0; k < 6; k++ {
		switch k {
		case 0:
			what = "adding the sensors it has"
			d.AddSensor(d.Sensors()...)
		case 1:
			what = "adding no sensor"
			d.AddSensor(nil)
			d.AddSensor()
		case 2:
			what = "removing an unknown sensor"
			d.RemoveSensor("nope")
		case 3:
			what = "adding the routes it has"
			d.AddRoute(d.Routes()...)
		case 4:
			what = "removing an unknown route"
			d.RemoveRoute("nope")
			d.RemoveRoute("")
		case 5:
			what = "removing an unknown track"
			d.RemoveTrack("nope", "nope")
			if l := d.Routes(); len(l) > 0 {
				d.RemoveTrack(l[0].ID(), "nope")
			}
		}
		now := portrait(d)
		var a, b []string
		for i, l := range [][]string{before, now} {
			for _, x := range l {
				if !strings.HasPrefix(x, "version") && !strings.HasPrefix(x, "snapshot") {
					if i == 0 {
						a = append(a, x)
					} else {
						b = append(b, x)
					}
				}
			}
		}
		if l, m := portraitDiff(a, b); l != "" {
			e.c.bad("D06", "no-edit-"+l, "%s changed the tracker: %s", what, m)
			return
		}
	}
}

// values compares the sensor values of a state with the sensors themselves;
// only valid while nothing else runs.
func (e *edits) values(st *pb.Device, what string) {
	c := e.c
	l := e.d.Sensors()
	if len(l) != len(st.Sensors) {
		c.bad("D06", "sensor-count", "%s lists %d sensors, the tracker has %d", what, len(st.Sensors), len(l))
		return
	}
	for i, s := range l {
		x := st.Sensors[i]
		if x.Id != s.ID() || x.Name != s.Name() || x.ValX != s.ValueX() || x.ValY != s.ValueY() {
			c.bad("D06", "sensor-values", "%s has %s/%s at (%v, %v), the sensor is %s/%s at (%v, %v)", what, x.Id, x.Name, x.ValX, x.ValY, s.ID(), s.Name(), s.ValueX(), s.ValueY())
		}
	}
}

func (e *edits) names(ids []string) string {
	var l []string
	for _, i := range ids {
		n := e.name[i]
		if n == "" {
			n = "?" + i
		}
		l = append(l, n)
	}
	return strings.Join(l, ",")
}

type emodel struct {
	s, r string
	t    []string
}

func parseModel(x string) *emodel {
	p := strings.Split(x, "|")
	return &emodel{p[0], p[1], strings.Split(p[2], "/")}
}

func (m *emodel) String() string { return m.s + "|" + m.r + "|" + strings.Join(m.t, "/") }

func (e *edits) rec(call, ret int64, desc string, step func(m *emodel) bool) {
	e.c.Work++
	e.ops = append(e.ops, linOp{call: call, ret: ret, desc: desc, step: func(s string) (string, bool) {
		m := parseModel(s)
		ok := step(m)
		return m.String(), ok
	}})
}

// state records that a state with these lists was handed out.
func (e *edits) state(call, ret int64, st *pb.Device, what string) {
	var ss, rs []string
	for _, x := range st.Sensors {
		ss = append(ss, x.Id)
		if i := e.sensor(x.Id); i >= 0 {
			s := e.sens[i]
			if x.Name != s.Name() {
				e.c.bad("D06", "sensor-name", "a state names sensor %s %q, its name is %q", x.Id, x.Name, s.Name())
			}
			if !e.ticks && (x.ValX != s.ValueX() || x.ValY != s.ValueY()) {
				e.c.bad("D06", "sensor-values", "a state has sensor %s at (%v, %v), its values are (%v, %v)", x.Name, x.ValX, x.ValY, s.ValueX(), s.ValueY())
			}
		}
	}
	type rt struct{ r, t string }
	var full []rt
	for _, x := range st.Routes.Routes {
		rs = append(rs, x.RouteId)
		var ts []string
		for _, t := range x.Tracks {
			ts = append(ts, t.TrackId)
		}
		full = append(full, rt{e.names([]string{x.RouteId}), e.names(ts)})
	}
	sn, rn := e.names(ss), e.names(rs)
	e.rec(call, ret, fmt.Sprintf("%s=%s|%v", what, sn, full), func(m *emodel) bool {
		if m.s != sn || m.r != rn {
			return false
		}
		for _, x := range full {
			var i int
			if _, err := fmt.Sscanf(x.r, "r%d", &i); err != nil || i >= len(m.t) || m.t[i] != x.t {
				return false
			}
		}
		return true
	})
}

func (e *edits) sensor(id string) int {
	for i, s := range e.sens {
		if s.ID() == id {
			return i
		}
	}
	return -1
}

func (e *edits) do(o Op) {
	c, d := e.c, e.d
	c.count("op_" + o.K)
	si, ri := o.idx(0, len(e.sens)), o.idx(0, len(e.routes))
	s, rt := e.sens[si], e.routes[ri]
	call := sim.Tick()
	rec := func(desc string, step func(m *emodel) bool) { e.rec(call, sim.Tick(), desc, step) }
	switch o.K {
	case "sleep":
		sim.Sleep(time.Duration(o.arg(0)) * time.Millisecond)
	case "tick":
		d.Next(float64(o.arg(0)%5) + 0.5)
	case "jump":
		d.DestinationTo(float64(o.arg(1)))
	case "move":
		d.MoveToSegment(int(o.arg(0)%2), int(o.arg(0)/2%2), int(o.arg(1)%3))
	case "update":
		d.Update()
	case "addS":
		l := []*types.Sensor{s}
		for k := 1; k < 1+o.idx(1, 4); k++ {
			l = append(l, e.sens[(si+k*(1+o.idx(1, 3)))%len(e.sens)])
		}
		if o.arg(1)%11 == 0 {
			l = append(l, nil)
		}
		var ids []string
		for _, x := range l {
			if x != nil {
				ids = append(ids, e.name[x.ID()])
			}
		}
		d.AddSensor(l...)
		rec(fmt.Sprint("AddSensor", ids), func(m *emodel) bool {
			for _, x := range ids {
				if lindex(m.s, x) < 0 {
					m.s = ladd(m.s, x)
				}
			}
			return true
		})
	case "rmS":
		n := e.name[s.ID()]
		ok := d.RemoveSensor(s.ID())
		rec(fmt.Sprintf("RemoveSensor(%s)=%v", n, ok), func(m *emodel) bool {
			had := lindex(m.s, n) >= 0
			m.s = ldel(m.s, n)
			return had == ok
		})
	case "resetS":
		d.ResetSensors()
		rec("ResetSensors()", func(m *emodel) bool { m.s = ""; return true })
	case "numS":
		n := d.NumSensors()
		rec(fmt.Sprintf("NumSensors()=%d", n), func(m *emodel) bool { return n == len(lsplit(m.s)) })
	case "atS":
		i := int(o.arg(0)%7) - 1
		x := d.SensorAt(i)
		n := ""
		if x != nil {
			n = e.names([]string{x.ID()})
		}
		rec(fmt.Sprintf("SensorAt(%d)=%s", i, n), func(m *emodel) bool {
			l := lsplit(m.s)
			return i >= 0 && i < len(l) && l[i] == n || (i < 0 || i >= len(l)) && n == ""
		})
	case "byS":
		n := e.name[s.ID()]
		x, ok := d.SensorByID(s.ID())
		if ok && x != s {
			c.bad("D06", "wrong-sensor", "SensorByID(%s) returns another sensor", n)
		}
		rec(fmt.Sprintf("SensorByID(%s)=%v", n, ok), func(m *emodel) bool { return ok == (lindex(m.s, n) >= 0) })
	case "listS", "eachS":
		var ids []string
		if o.K == "listS" {
			for _, x := range d.Sensors() {
				ids = append(ids, x.ID())
			}
		} else {
			d.EachSensor(func(i int, x *types.Sensor) bool {
				if i != len(ids) {
					c.bad("D06", "each-index", "EachSensor passed index %d as call %d", i, len(ids))
				}
				ids = append(ids, x.ID())
				return true
			})
		}
		n := e.names(ids)
		rec(fmt.Sprintf("%s()=%s", o.K, n), func(m *emodel) bool { return m.s == n })
	case "addR":
		l := []*navigator.Route{rt}
		if o.arg(1)%3 == 0 {
			l = append(l, e.routes[(ri+1)%len(e.routes)])
		}
		var ids []string
		for _, x := range l {
			ids = append(ids, e.name[x.ID()])
		}
		err := d.AddRoute(l...)
		rec(fmt.Sprintf("AddRoute%v=%v", ids, err), func(m *emodel) bool {
			for _, x := range ids {
				if lindex(m.r, x) < 0 {
					m.r = ladd(m.r, x)
				}
			}
			return err == nil
		})
	case "rmR":
		n := e.name[rt.ID()]
		ok := d.RemoveRoute(rt.ID())
		rec(fmt.Sprintf("RemoveRoute(%s)=%v", n, ok), func(m *emodel) bool {
			had := lindex(m.r, n) >= 0
			m.r = ldel(m.r, n)
			return had == ok
		})
	case "resetR":
		ok := d.ResetRoutes()
		rec(fmt.Sprintf("ResetRoutes()=%v", ok), func(m *emodel) bool {
			had := m.r != ""
			m.r = ""
			return had == ok
		})
	case "rmT":
		if len(e.tracks[ri]) == 0 {
			return
		}
		id := e.tracks[ri][o.idx(1, len(e.tracks[ri]))]
		rn, n := e.name[rt.ID()], e.name[id]
		ok := d.RemoveTrack(rt.ID(), id)
		rec(fmt.Sprintf("RemoveTrack(%s,%s)=%v", rn, n, ok), func(m *emodel) bool {
			had := lindex(m.r, rn) >= 0 && lindex(m.t[ri], n) >= 0
			if had {
				m.t[ri] = ldel(m.t[ri], n)
			}
			return had == ok
		})
	case "numR":
		n := d.NumRoutes()
		rec(fmt.Sprintf("NumRoutes()=%d", n), func(m *emodel) bool { return n == len(lsplit(m.r)) })
	case "atR":
		i := int(o.arg(0)%6) - 1
		x := d.RouteAt(i)
		n := ""
		if x != nil {
			n = e.names([]string{x.ID()})
		}
		rec(fmt.Sprintf("RouteAt(%d)=%s", i, n), func(m *emodel) bool {
			l := lsplit(m.r)
			return i >= 0 && i < len(l) && l[i] == n || (i < 0 || i >= len(l)) && n == ""
		})
	case "listR", "eachR":
		var ids []string
		if o.K == "listR" {
			for _, x := range d.Routes() {
				ids = append(ids, x.ID())
			}
		} else {
			d.EachRoute(func(i int, x *navigator.Route) bool {
				if i != len(ids) {
					c.bad("D06", "each-index", "EachRoute passed index %d as call %d", i, len(ids))
				}
				ids = append(ids, x.ID())
				return true
			})
		}
		n := e.names(ids)
		rec(fmt.Sprintf("%s()=%s", o.K, n), func(m *emodel) bool { return m.r == n })
	case "state":
		st := d.State()
		e.state(call, sim.Tick(), st, "State")
	case "snap":
		sn := d.Snapshot()
		ret := sim.Tick()
		st := &pb.Device{Routes: &pb.Device_Routes{}}
		for _, x := range sn.Sensors {
			st.Sensors = append(st.Sensors, &pb.Device_Sensor{Id: x.Id, Name: x.Name})
			if i := e.sensor(x.Id); i >= 0 {
				st.Sensors[len(st.Sensors)-1].ValX = x.ValX
				st.Sensors[len(st.Sensors)-1].ValY = x.ValY
			}
		}
		for _, x := range sn.Navigator.Routes {
			y := &pb.Device_Routes_Route{RouteId: x.Id}
			for _, t := range x.Tracks {
				y.Tracks = append(y.Tracks, &pb.Device_Routes_Route_Track{TrackId: t.Id})
			}
			st.Routes.Routes = append(st.Routes.Routes, y)
		}
		e.state(call, ret, st, "Snapshot")
	}
}

func postEdits(c *Ctx, res *sim.Result) {
	e, _ := c.state.(*edits)
	if e == nil || e.d == nil {
		return
	}
	ok, why, gave := linearizable(e.init, append([]linOp{}, e.ops...))
	if gave {
		c.count("search_given_up")
	}
	if !ok {
		c.bad("D06", "not-linearizable", "%s", why)
	}
}
