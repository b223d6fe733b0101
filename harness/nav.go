package main

import (
	"fmt"
	"math"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"gpsverif/sim"
)

// The nav scenario drives one tracker through a history of ticks (on time,
// late, missed because the tracker was busy), route and track edits, moves,
// jumps, offline requests, crashes with restarts, and checks every step
// against the routes themselves (D01-D05).

func init() {
	scenarios["nav"] = &Scenario{Gen: genNav, Run: runNav}
	for _, p := range []string{"D01", "D02", "D03", "D04", "D05"} {
		propScn[p] = append(propScn[p], weighted{"nav", 10})
	}
	propScn["G07"] = append(propScn["G07"], weighted{"nav", 4})
}

// obs is everything observable about the tracker's place.
type obs struct {
	bearing               float64
	ri, ti, si            int
	routeID, trackID      string
	loc                   geo.LatLonPoint
	seg, trk, rte, cur    float64 // progress
	segD, trkD, rteD, tot float64 // lengths
	off                   bool
	st                    *pb.Device
	layout                []lane // track by track
	numRoutes             int
	lapL                  float64 // distance from the start of the track
}

// lane is one place a tracker visits in turn: a track, or an empty route.
type lane struct {
	ri, ti int
	len    float64
	nseg   int
}

type nav struct {
	c       *Ctx
	d       *gpsgen.Device
	o       *gpsgen.DeviceOptions
	pending float64 // time of missed ticks
	moved   bool    // progress no longer measures a lap
	dirty   bool    // routes were edited behind the tracker's back
	steps   int     // ticks that took effect
	went    bool    // moved at least once
	mode    map[string]types.SensorMode
	stepped map[string]bool
	spare   []*navigator.Route
	extra   int
	seed    uint64
	scale   float64
	conc    bool
	used    float64 // battery: seconds since the last restoration
	charge  float64
	low     bool
	laps    int
	gaps    map[string]map[int]bool // by track: segments after which there is a gap
	atGap   bool                    // the last tick ended at one
}

var navKinds = []string{"tick", "tick", "tick", "tick", "tick", "ticks", "ticks", "held", "held",
	"addR", "rmR", "rmT", "resetR", "addT", "rmTd", "moveS", "moveS", "moveT", "moveR", "moveRID", "moveTID",
	"nextR", "prevR", "jump", "jump", "jump", "offline", "reset", "restart", "sensor", "rmS", "update", "name", "paint"}

func genNav(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config) {
	cfg := map[string]int{"seed": r.Intn(1 << 30), "routes": r.Range(1, 3), "shape": r.Intn(numShapes + 3),
		"scale": r.Intn(6), "laps": r.Intn(3), "battery": r.Intn(3), "offline": r.Intn(5), "speed": r.Intn(5), "sensors": r.Intn(3)}
	enlarge(r, cfg)
	p := Plan{Cfg: cfg}
	kinds := navKinds
	switch r.Intn(5) {
	case 0: // travel only
		kinds = []string{"tick", "ticks", "ticks", "held", "restart"}
	case 1:
		kinds = []string{"tick", "ticks", "ticks", "held", "jump", "moveS", "moveT", "moveR", "offline", "restart"}
	case 2:
		kinds = []string{"tick", "ticks", "addR", "rmR", "rmT", "addT", "rmTd", "resetR", "jump", "moveS", "restart", "update", "paint"}
	}
	nc := 1
	if (prop == "D01" || prop == "D05" || prop == "G07") && r.Intn(4) == 0 {
		nc = r.Range(2, 3) // several goroutines at once
	}
	cfg["laps"] = 0
	if prop == "D02" && r.Intn(4) > 0 || prop != "D02" && r.Intn(4) == 0 {
		cfg["laps"] = r.Range(1, 3)
	}
	for i := 0; i < nc; i++ {
		var ops []Op
		n := r.Range(2, 30)
		if nc > 1 {
			n = r.Range(3, 12)
		}
		for k := 0; k < n; k++ {
			ops = append(ops, Op{K: kinds[r.Intn(len(kinds))], A: []int64{int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20))}})
		}
		p.Clients = append(p.Clients, ops)
	}
	sc := swarm(r, swarmOpt{maxSteps: 8_000_000, est: 3000, noFaults: nc == 1})
	if nc == 1 {
		sc.MapOrder = r.Intn(2) == 0
	} else if sc.MeanQuantum > 50 {
		sc.MeanQuantum = pick(r, 1, 3, 10, 50)
	}
	return p, sc
}

func (n *nav) options() *gpsgen.DeviceOptions {
	c := n.c
	r := sim.NewStream(n.seed, "navopt")
	o := devOptions(r)
	o.ID = "nav"
	switch c.cfg("speed") {
	case 0:
		o.Speed.Min, o.Speed.Max = 7, 7
	case 1:
		o.Speed.Min, o.Speed.Max = 0.1, 0.4
	case 2:
		o.Speed.Min, o.Speed.Max = 20, 900
	}
	if r.Intn(4) == 0 {
		o.Speed.Amplitude = pick(r, 5, 128, 512)
		o.Navigator.Elevation.Amplitude = pick(r, 5, 128, 512)
	}
	o.Navigator.SkipOffline = false
	switch c.cfg("offline") {
	case 0:
		o.Navigator.SkipOffline = true
	case 1:
		o.Navigator.Offline.Min, o.Navigator.Offline.Max = 0, 1
	case 2:
		o.Navigator.Offline.Min, o.Navigator.Offline.Max = 1, 3
	case 3:
		o.Navigator.Offline.Min, o.Navigator.Offline.Max = 2, 12
	}
	o.Battery.Min, o.Battery.Max = 0, 100
	switch c.cfg("battery") {
	case 0:
		o.Battery.ChargeTime = 1000 * time.Hour
	case 1:
		o.Battery.Min, o.Battery.Max = 10, 90
	case 2:
		o.Battery.Min = 20
	}
	return o
}

func (n *nav) route() *navigator.Route {
	sh := n.c.cfg("shape")
	n.extra++
	if sh >= numShapes {
		sh = int(mix(n.seed, uint64(n.extra), 3) % numShapes)
	}
	rt := newRoute(sh, mix(n.seed, uint64(n.extra)))
	if mix(n.seed, uint64(n.extra), 5)%4 == 0 {
		rt = n.split(rt)
	}
	rt.Props().Set("number", n.extra)
	return rt
}

// split puts gaps into the tracks of a route, as documents have them.
func (n *nav) split(rt *navigator.Route) *navigator.Route {
	r := sim.NewStream(mix(n.seed, uint64(n.extra)), "gaps")
	s := rt.Snapshot()
	found := false
	for _, t := range s.Tracks {
		for k := 0; k < len(t.Segmenets)-1; k++ {
			if x := t.Segmenets[k]; x.Distance > 0 && r.Intn(3) == 0 {
				x.Rel = -1
				if n.gaps == nil {
					n.gaps = map[string]map[int]bool{}
				}
				if n.gaps[t.Id] == nil {
					n.gaps[t.Id] = map[int]bool{}
				}
				n.gaps[t.Id][k] = true
				found = true
			}
		}
	}
	x := new(navigator.Route)
	if !found || x.RouteFromSnapshot(s) != nil {
		return rt
	}
	n.c.count("route_with_gaps")
	return x
}

// gapIn tells whether there is a gap between two segments of a track.
func (n *nav) gapIn(track string, from, to int) bool {
	for k := from; k < to; k++ {
		if n.gaps[track][k] {
			return true
		}
	}
	return false
}

func runNav(c *Ctx) {
	n := &nav{c: c, seed: uint64(c.cfg("seed")), stepped: map[string]bool{}, charge: -1}
	c.state = n
	n.conc = len(c.P.Clients) > 1
	n.o = n.options()
	r := sim.NewStream(n.seed, "nav")
	var first []*navigator.Route
	tot := 0.0
	for i := 0; i < c.clamp("routes", 1, 20); i++ {
		rt := n.route()
		tot += rt.Distance()
		first = append(first, rt)
	}
	avg := (n.o.Speed.Min + n.o.Speed.Max) / 2
	n.scale = []float64{1, 5, tot / avg / 200, tot / avg / 40, tot / avg / 10, tot / avg}[c.clamp("scale", 0, 5)]
	if n.scale < 0.5 {
		n.scale = 0.5
	}
	if n.o.Battery.ChargeTime < 1000*time.Hour {
		// some discharges per lap at most
		n.o.Battery.ChargeTime = time.Duration(math.Max(n.scale*float64(5+r.Intn(80)), 5)) * time.Second
		if c.cfg("laps") > 0 {
			n.o.Battery.ChargeTime = time.Duration(math.Max(tot/avg*(0.2+3*r.Float64()), 30)) * time.Second
		}
	}
	n.d = mustDevice(n.o)
	for i := 0; i < c.clamp("sensors", 0, 40); i++ {
		n.sensor(newSensor(r, fmt.Sprint("s", i)))
	}
	if err := n.d.AddRoute(first...); err != nil {
		panic(err)
	}
	if n.conc {
		n.concurrent()
		return
	}
	for _, cl := range c.P.Clients {
		for _, o := range cl {
			n.do(o)
			if len(c.V) > 0 {
				return
			}
		}
	}
	if c.cfg("laps") > 0 {
		n.travel(c.clamp("laps", 1, 3))
	}
	n.curves()
}

// sensor adds a sensor and remembers how its curve was ordered.
func (n *nav) sensor(s *types.Sensor) {
	if n.mode == nil {
		n.mode = map[string]types.SensorMode{}
	}
	n.mode[s.ID()] = types.SensorMode(s.Snapshot().Gen.Mode)
	n.d.AddSensor(s)
}

// curves checks, on copies, that the curves of the sensors and the elevation
// still begin and end at their minimum if they were built to, whatever laps
// and restarts there were.
func (n *nav) curves() {
	check := func(what string, snap *types.SensorSnapshot, mode types.SensorMode) {
		for t := 0; t < 2; t++ {
			if mode&[]types.SensorMode{types.WithSensorStartMode, types.WithSensorEndMode}[t] == 0 {
				continue
			}
			x := new(types.Sensor)
			if err := x.FromSnapshot(proto.Clone(snap).(*types.SensorSnapshot)); err != nil {
				n.c.bad("D03", "curve", "%s cannot be copied: %v", what, err)
				return
			}
			x.Next(float64(t))
			if !near(x.ValueY(), x.Min(), 1e-7*(1+math.Abs(x.Min())+math.Abs(x.Max()))) {
				n.c.bad("D03", "curve-end", "%s of mode %d has a minimum of %v, but is at %v at the %s of its curve", what, mode, x.Min(), x.ValueY(), []string{"beginning", "end"}[t])
			}
			n.c.count("curve_ends")
		}
	}
	snap := n.d.Snapshot()
	check("the elevation", snap.Navigator.Elevation, n.o.Navigator.Elevation.Mode)
	for _, s := range snap.Sensors {
		check("sensor "+s.Name, s, n.mode[s.Id])
	}
}

// look takes an observation and checks that the parts describing the place
// of the tracker agree with its routes.
func (n *nav) look() *obs {
	c, d := n.c, n.d
	o := &obs{ri: d.RouteIndex(), ti: d.TrackIndex(), si: d.SegmentIndex(), loc: d.Location(),
		seg: d.CurrentSegmentDistance(), trk: d.CurrentTrackDistance(), rte: d.CurrentRouteDistance(), cur: d.CurrentDistance(),
		segD: d.SegmentDistance(), trkD: d.TrackDistance(), rteD: d.RouteDistance(), tot: d.Distance(),
		off: d.IsOffline(), st: d.State(), numRoutes: d.NumRoutes()}
	cr, ct, cs := d.CurrentRoute(), d.CurrentTrack(), d.CurrentSegment()
	o.bearing = d.CurrentBearing()
	if cr != nil {
		o.routeID = cr.ID()
	}
	if ct != nil {
		o.trackID = ct.ID()
	}
	routes := d.Routes()
	if len(routes) != o.numRoutes {
		c.bad("D05", "num-routes", "NumRoutes %d but %d routes", o.numRoutes, len(routes))
	}
	sum := 0.0
	for i, rt := range routes {
		rs := 0.0
		for j := 0; j < rt.NumTracks(); j++ {
			t := rt.TrackAt(j)
			ts := 0.0
			for k := 0; k < t.NumSegments(); k++ {
				s := t.SegmentAt(k)
				if x := refDist(s.PointA(), s.PointB()); !near(x, s.Distance(), 1e-3+1e-6*x) {
					c.bad("D05", "segment-length", "segment %d of track %d is %f m long, not %f", k, j, x, s.Distance())
				}
				ts += s.Distance()
			}
			if !relNear(ts, t.Distance()) {
				c.bad("D05", "track-length", "track %d of route %d has length %f, its segments sum to %f", j, i, t.Distance(), ts)
			}
			rs += ts
			o.layout = append(o.layout, lane{i, j, ts, t.NumSegments()})
		}
		if rt.NumTracks() == 0 {
			o.layout = append(o.layout, lane{i, 0, 0, 0})
		}
		if !relNear(rs, rt.Distance()) {
			c.bad("D05", "route-length", "route %d has length %f, its tracks sum to %f", i, rt.Distance(), rs)
		}
		sum += rs
	}
	if n.dirty {
		return o
	}
	if !relNear(sum, o.tot) {
		c.bad("D05", "total", "total distance %f, the routes sum to %f", o.tot, sum)
	}
	if len(routes) == 0 {
		if cr != nil || ct != nil || o.ri != 0 || o.ti != 0 || o.si != 0 {
			c.bad("D01", "place-without-routes", "no routes, but at route %d track %d segment %d", o.ri, o.ti, o.si)
		}
	} else if o.ri < 0 || o.ri >= len(routes) {
		c.bad("D01", "route-index", "at route %d of %d", o.ri, len(routes))
	} else {
		rt := routes[o.ri]
		if cr != rt {
			c.bad("D01", "route-id", "route %d is %s but the current route is %s", o.ri, rt.ID(), o.routeID)
		}
		if !relNear(rt.Distance(), o.rteD) {
			c.bad("D05", "route-distance", "RouteDistance %f, the route has %f", o.rteD, rt.Distance())
		}
		if rt.NumTracks() == 0 {
			if ct != nil || o.ti != 0 || o.si != 0 {
				c.bad("D01", "place-without-tracks", "route %d has no tracks, but at track %d segment %d", o.ri, o.ti, o.si)
			}
		} else if o.ti < 0 || o.ti >= rt.NumTracks() {
			c.bad("D01", "track-index", "at track %d of %d", o.ti, rt.NumTracks())
		} else {
			t := rt.TrackAt(o.ti)
			if ct != t {
				c.bad("D01", "track-id", "track %d is %s but the current track is %s", o.ti, t.ID(), o.trackID)
			}
			if !relNear(t.Distance(), o.trkD) {
				c.bad("D05", "track-distance", "TrackDistance %f, the track has %f", o.trkD, t.Distance())
			}
			if o.si < 0 || o.si >= t.NumSegments() {
				c.bad("D01", "segment-index", "at segment %d of %d", o.si, t.NumSegments())
			} else {
				s := t.SegmentAt(o.si)
				if cs != s && !s.IsEmpty() {
					c.bad("D01", "segment", "the current segment is not segment %d of the track", o.si)
				}
				if !relNear(s.Distance(), o.segD) {
					c.bad("D05", "segment-distance", "SegmentDistance %f, the segment has %f", o.segD, s.Distance())
				}
				for k := 0; k < o.si; k++ {
					o.lapL += t.SegmentAt(k).Distance()
				}
				o.lapL += o.seg
			}
		}
	}
	tol := 1e-6 * (1 + o.tot)
	if o.seg < -tol || o.seg > o.trk+tol || o.trk > o.rte+tol || o.rte > o.cur+tol {
		c.bad("D05", "progress-order", "progress in segment %f, track %f, route %f, in total %f", o.seg, o.trk, o.rte, o.cur)
	}
	if o.seg > o.segD+tol || !n.moved && (o.trk > o.trkD+tol || o.rte > o.rteD+tol || o.cur > o.tot+tol && o.cur != 0.1) {
		c.bad("D05", "progress-length", "progress %f of segment %f, %f of track %f, %f of route %f, %f of total %f", o.seg, o.segD, o.trk, o.trkD, o.rte, o.rteD, o.cur, o.tot)
	}
	if n.o.Navigator.SkipOffline && o.off {
		c.bad("D04", "offline-disabled", "offline although the offline mode is disabled")
	}
	n.checkState(o, routes)
	return o
}

// checkState compares the published state with the accessors.
func (n *nav) checkState(o *obs, routes []*navigator.Route) {
	c, s := n.c, o.st
	if s.IsOffline != o.off || s.IsOffline != (s.OfflineDuration > 0) {
		c.bad("D04", "offline-state", "IsOffline %v, published %v with a duration of %d", o.off, s.IsOffline, s.OfflineDuration)
	}
	if s.OfflineDuration > 0 && int(s.OfflineDuration) > n.o.Navigator.Offline.Max {
		c.bad("D04", "offline-long", "offline for %d, configured maximum %d", s.OfflineDuration, n.o.Navigator.Offline.Max)
	}
	// the summary of routes
	ok := len(routes) == len(s.Routes.Routes)
	for i := 0; ok && i < len(routes); i++ {
		a, b := routes[i], s.Routes.Routes[i]
		ok = a.ID() == b.RouteId && relNear(a.Distance(), b.Distance) && a.Color() == b.Color && a.NumTracks() == len(b.Tracks) && int64(len(a.Props())) == b.PropsCount
		for j := 0; ok && j < a.NumTracks(); j++ {
			t, u := a.TrackAt(j), b.Tracks[j]
			ok = t.ID() == u.TrackId && relNear(t.Distance(), u.Distance) && t.Color() == u.Color && int64(t.NumSegments()) == u.NumSegments
		}
	}
	if !ok {
		c.bad("D05", "summary", "the published summary lists %v, the tracker has %d routes: %s", s.Routes.Routes, len(routes), describe(routes))
	}
	if cl, m := recCheck(s); cl != "" {
		badRec(c, cl, m)
	}
	if s.Tick == 0 && s.Navigator.CurrentRouteId == "" {
		return // before the first step
	}
	v, x := s.Navigator, s.Distance
	if int(v.CurrentRouteIndex) != o.ri || int(v.CurrentTrackIndex) != o.ti || int(v.CurrentSegmentIndex) != o.si || v.CurrentRouteId != o.routeID || v.CurrentTrackId != o.trackID {
		c.bad("D01", "state-place", "published place %v, tracker at route %d %s track %d %s segment %d", v, o.ri, o.routeID, o.ti, o.trackID, o.si)
		c.bad("G07", "nav-place", "published place %v, tracker at route %d %s track %d %s segment %d", v, o.ri, o.routeID, o.ti, o.trackID, o.si)
	}
	if s.Location.Lat != o.loc.Lat || s.Location.Lon != o.loc.Lon {
		c.bad("D01", "state-location", "published at %v %v, tracker at %v", s.Location.Lat, s.Location.Lon, o.loc)
		c.bad("G07", "nav-location", "published at %v %v, tracker at %v", s.Location.Lat, s.Location.Lon, o.loc)
	}
	if s.Location.Bearing != o.bearing {
		c.bad("G07", "nav-bearing", "published bearing %v, tracker heads for %v", s.Location.Bearing, o.bearing)
	}
	if !relNear(x.Distance, o.tot) || !relNear(x.CurrentDistance, o.cur) || !relNear(x.RouteDistance, o.rteD) || !relNear(x.CurrentRouteDistance, o.rte) ||
		!relNear(x.TrackDistance, o.trkD) || !relNear(x.CurrentTrackDistance, o.trk) || !relNear(x.SegmentDistance, o.segD) || !relNear(x.CurrentSegmentDistance, o.seg) {
		c.bad("D05", "state-distances", "published distances %v, tracker %f/%f %f/%f %f/%f %f/%f", x, o.cur, o.tot, o.rte, o.rteD, o.trk, o.trkD, o.seg, o.segD)
		c.bad("G07", "nav-distances", "published distances %v, tracker %f/%f %f/%f %f/%f %f/%f", x, o.cur, o.tot, o.rte, o.rteD, o.trk, o.trkD, o.seg, o.segD)
	}
	n.checkLimits(s)
}

// badRec reports a contradiction inside a published state.
func badRec(c *Ctx, cl, m string) {
	p := "D01"
	switch cl {
	case "route-sum", "total", "route-distance", "track-distance":
		p = "D05"
	case "offline":
		p = "D04"
	}
	c.bad(p, "state-"+cl, "%s", m)
	c.bad("G07", "nav-"+cl, "%s", m)
}

func describe(routes []*navigator.Route) string {
	s := ""
	for _, r := range routes {
		s += fmt.Sprintf("{%s %.3f m, %d tracks} ", r.ID(), r.Distance(), r.NumTracks())
	}
	return s
}

func (n *nav) checkLimits(s *pb.Device) {
	c, o := n.c, n.o
	in := func(v, lo, hi float64) bool {
		t := 1e-7 * (1 + math.Abs(lo) + math.Abs(hi))
		return v >= lo-t && v <= hi+t
	}
	if n.steps == 0 {
		return
	}
	if !in(s.Speed, o.Speed.Min, o.Speed.Max) {
		c.bad("D03", "speed", "speed %v outside %v..%v", s.Speed, o.Speed.Min, o.Speed.Max)
	}
	if !in(s.Battery.Charge, o.Battery.Min, o.Battery.Max) {
		c.bad("D03", "battery", "battery %v outside %v..%v", s.Battery.Charge, o.Battery.Min, o.Battery.Max)
	}
	if n.went && !in(s.Location.Elevation, o.Navigator.Elevation.Min, o.Navigator.Elevation.Max) {
		c.bad("D03", "elevation", "elevation %v outside %v..%v", s.Location.Elevation, o.Navigator.Elevation.Min, o.Navigator.Elevation.Max)
	}
	for _, x := range s.Sensors {
		if !n.stepped[x.Id] {
			continue
		}
		q, ok := n.d.SensorByID(x.Id)
		if ok && !in(x.ValY, q.Min(), q.Max()) {
			c.bad("D03", "sensor", "sensor %s at %v, limits %v..%v", x.Name, x.ValY, q.Min(), q.Max())
		}
	}
}

// onSegment checks the location after a move or jump that was reported.
func (n *nav) onSegment(o *obs, what string) {
	s := n.d.CurrentSegment()
	want := s.PointA()
	if s.Distance() > 0 {
		want = refAlong(s.PointA(), s.PointB(), o.seg)
	} else if o.numRoutes > 0 {
		// a segment of length zero is reported as an empty one
		if rt := n.d.RouteAt(o.ri); rt != nil && rt.TrackAt(o.ti) != nil {
			want = rt.TrackAt(o.ti).SegmentAt(o.si).PointA()
		}
	}
	if x := refDist(want, o.loc); x > 0.01+1e-6*s.Distance() {
		n.c.bad("D01", "off-segment", "after %s the location is %.3f m away from the place at %.3f m of segment %d", what, x, o.seg, o.si)
	}
}

func (o *obs) lane() int {
	for i, l := range o.layout {
		if l.ri == o.ri && l.ti == o.ti {
			return i
		}
	}
	return -1
}

func (n *nav) secs(v int64) float64 {
	switch v % 16 {
	case 0:
		return 1
	case 1:
		return n.scale * 3
	case 2:
		if v%64 == 2 {
			return 0
		}
		return 0.25
	case 3:
		return math.Floor(n.scale) + 1
	}
	return n.scale * (0.3 + float64(v/16%1000)/700)
}

// tick advances the tracker and checks the step.
func (n *nav) tick(secs float64, p *obs) *obs {
	c, d := n.c, n.d
	if p == nil {
		p = n.look()
	}
	wasDirty := n.dirty
	had := p.numRoutes > 0
	ok := d.Next(secs)
	c.count("tick")
	if had {
		n.dirty = false
		n.steps++
	}
	if ok {
		n.went = true
		for i := 0; i < d.NumSensors(); i++ {
			n.stepped[d.SensorAt(i).ID()] = true
		}
	}
	n.atGap = false
	total := secs + n.pending
	if had {
		n.pending = 0
	}
	lap := false
	if wasDirty {
		n.moved = true // a restart is not certain
	}
	// A lap or a reset puts the progress right again.
	if had && d.RouteIndex() == 0 && d.TrackIndex() == 0 && d.SegmentIndex() == 0 && d.CurrentDistance() == 0 {
		n.moved = false
	}
	q := n.look()
	c.Work++
	if !had {
		if ok || q.st.Duration != p.st.Duration {
			c.bad("D02", "step-without-route", "a tracker without routes moved")
		}
		return q
	}
	if !relNear(q.st.Tick, total) {
		c.bad("G06", "tick-length", "a tick of %f s after %f s of missed ticks counts as %f s", secs, total-secs, q.st.Tick)
		c.bad("D02", "tick-length", "a tick of %f s after %f s of missed ticks counts as %f s", secs, total-secs, q.st.Tick)
	}
	low := n.battery(q, total)
	n.low = low
	if wasDirty {
		if ok {
			n.onSegment(q, "a step")
		}
		return q
	}
	tol := 1e-6 * (1 + q.tot)
	i, j := p.lane(), q.lane()
	if i < 0 || j < 0 {
		return q // reported by look
	}
	unchanged := i == j && p.si == q.si && p.seg == q.seg && p.loc == q.loc
	max := total*q.st.Speed*(1+1e-9) + tol
	min := total*n.o.Speed.Min*(1-1e-9) - tol
	if p.st.Tick == 0 && p.st.OfflineDuration == 0 && p.off {
		p.st.OfflineDuration = 1 // before the first state
	}
	if p.off && !low {
		if !unchanged {
			c.bad("D04", "moved-offline", "offline with %d to go, but moved from track %d segment %d at %f to track %d segment %d at %f", p.st.OfflineDuration, p.ti, p.si, p.seg, q.ti, q.si, q.seg)
		}
		if q.st.OfflineDuration != p.st.OfflineDuration-1 {
			c.bad("D04", "offline-count", "offline with %d to go, after one tick with %d to go", p.st.OfflineDuration, q.st.OfflineDuration)
		}
		if ok {
			c.bad("D04", "step-offline", "a step was reported while offline")
		}
		c.count("offline_tick")
		return q
	}
	switch {
	case ok:
		if i != j {
			c.bad("D02", "track-left-moving", "a step went from track %d/%d at %f of %f to track %d/%d", p.ri, p.ti, p.lapL, p.layout[i].len, q.ri, q.ti)
			break
		}
		if q.lapL < p.lapL-tol {
			c.bad("D02", "backwards", "went back from %f to %f on a track of %f m (segment %d to %d)", p.lapL, q.lapL, p.layout[i].len, p.si, q.si)
		} else if q.lapL-p.lapL < min {
			c.bad("D02", "too-slow", "went %f m in %f s at a minimum speed of %f", q.lapL-p.lapL, total, n.o.Speed.Min)
		}
		if q.lapL-p.lapL > max {
			c.bad("D03", "too-fast", "went %f m in %f s at a speed of %f", q.lapL-p.lapL, total, q.st.Speed)
			c.bad("D02", "left-out", "went %f m in %f s at a speed of %f", q.lapL-p.lapL, total, q.st.Speed)
		}
		if n.gapIn(p.trackID, p.si, q.si) {
			c.bad("D04", "gap-passed", "a step went from segment %d to segment %d across a gap", p.si, q.si)
		}
		if q.off {
			c.bad("D04", "moved-offline", "moved and is offline with %d to go", q.st.OfflineDuration)
		}
		n.onSegment(q, "a step")
	case i == j && q.si > p.si && q.seg == 0 && n.gapIn(q.trackID, q.si-1, q.si):
		n.atGap = true
		if n.gapIn(p.trackID, p.si, q.si-1) {
			c.bad("D04", "gap-passed", "a step went from segment %d to segment %d across a gap", p.si, q.si)
		}
		if rest := q.lapL - p.lapL; rest > max {
			c.bad("D03", "too-fast", "went %f m in %f s at a speed of %f", rest, total, q.st.Speed)
			c.bad("D02", "left-out", "went %f m in %f s at a speed of %f", rest, total, q.st.Speed)
		}
		if !q.off && !n.o.Navigator.SkipOffline && n.o.Navigator.Offline.Min > 0 {
			c.bad("D04", "not-offline", "reached a gap, but is not offline")
		}
		c.count("gap")
	case low && unchanged:
		lap = len(p.layout) == 1
		// went offline because of the battery; a period of one tick is over already
	case i == j && q.si == p.si && q.seg == p.seg && !(q.si == 0 && q.seg == 0):
		if q.off {
			c.bad("D04", "offline-unprompted", "went offline at %f of %f m of track %d/%d, with a battery at %f", p.lapL, p.layout[i].len, p.ri, p.ti, q.st.Battery.Charge)
		}
		c.bad("D02", "stuck", "a tick of %f s at a speed of %f did nothing at %f of %f on track %d/%d, not offline", total, q.st.Speed, p.lapL, p.layout[i].len, p.ri, p.ti)
	default:
		// the end of a track
		next := i + 1
		if next == len(p.layout) {
			next = 0
			lap = true
		}
		if j != next || q.si != 0 || q.seg != 0 {
			c.bad("D02", "order", "after track %d/%d at %f of %f came track %d/%d segment %d at %f", p.ri, p.ti, p.lapL, p.layout[i].len, q.ri, q.ti, q.si, q.seg)
			break
		}
		if n.gapIn(p.trackID, p.si, p.layout[i].nseg-1) {
			c.bad("D04", "gap-passed", "a step went from segment %d to the end of the track across a gap", p.si)
		}
		if !q.off && !n.o.Navigator.SkipOffline && n.o.Navigator.Offline.Min > 0 {
			c.bad("D04", "not-offline", "reached the end of a track, but is not offline")
		}
		if rest := p.layout[i].len - p.lapL; rest > max {
			c.bad("D02", "left-out", "left track %d/%d with %f m to go after a tick of %f s at a speed of %f", p.ri, p.ti, rest, total, q.st.Speed)
			c.bad("D03", "too-fast", "left track %d/%d with %f m to go after a tick of %f s at a speed of %f", p.ri, p.ti, rest, total, q.st.Speed)
		}
		c.count("track_end")
	}
	if lap {
		n.laps++
		c.count("lap")
		if q.st.Duration != 0 && !relNear(q.st.Duration, p.st.Duration+total) {
			c.bad("G06", "duration", "duration %f after %f and a tick of %f", q.st.Duration, p.st.Duration, total)
		}
	} else if !relNear(q.st.Duration, p.st.Duration+total) {
		c.bad("G06", "duration", "duration %f after %f and a tick of %f", q.st.Duration, p.st.Duration, total)
	}
	return q
}

// battery checks the level after a tick; it reports whether it was exhausted.
func (n *nav) battery(q *obs, secs float64) (low bool) {
	c, o := n.c, n.o
	if o.Battery.Max-o.Battery.Min < 1 {
		return false
	}
	got := q.st.Battery.Charge
	prev := n.charge
	if prev < 0 {
		prev = o.Battery.Max
	}
	n.charge = got
	fall := secs / float64(o.Battery.ChargeTime/time.Second) * 100
	exp := prev - fall
	switch {
	case near(got, o.Battery.Max, 1e-6) && fall > 1e-6:
		if exp > o.Battery.Min+1e-6 {
			c.bad("D03", "battery-restored", "battery went from %f to %f in %f s although it would have been at %f", prev, got, secs, exp)
			return false // no reason to go offline
		}
		c.count("battery_exhausted")
		return true
	case exp < o.Battery.Min-1e-6:
		c.bad("D03", "battery-empty", "battery exhausted (%f falling by %f) but at %f instead of restored", prev, fall, got)
	case !near(got, exp, 1e-6) && !(fall <= 1e-6):
		c.bad("D03", "battery-rate", "battery went from %f to %f in %f s, expected %f", prev, got, secs, exp)
	}
	return false
}

// travel lets the tracker go until it has finished some laps.
func (n *nav) travel(laps int) {
	c := n.c
	r := sim.NewStream(n.seed, "travel")
	p := n.look()
	if n.dirty {
		n.d.Update()
		n.dirty = false
		n.moved = true
		p = n.look()
	}
	if p.numRoutes == 0 {
		return
	}
	ends, segs, length := 0, 0, 0.0
	for _, l := range p.layout {
		ends++
		segs += l.nseg
		length += l.len
	}
	goal := n.laps + laps
	need := float64(laps+1) * length // the first lap may be a partial one
	idle := (laps + 1) * (ends + segs + 2) * 2
	moved := 0.0
	// about 60 steps per lap
	avg := (n.o.Speed.Min + n.o.Speed.Max) / 2
	step := math.Max(length/avg/float64(10+r.Intn(60)), 0.5)
	if n.c.cfg("battery") != 0 && step > n.o.Battery.ChargeTime.Seconds()/8 {
		c.count("travel_skipped")
		return
	}
	for k := 0; n.laps < goal; k++ {
		if len(c.V) > 0 {
			return
		}
		if k > 3000 || sim.Steps() > 6_000_000 {
			c.count("travel_cut")
			return
		}
		if r.Intn(12) == 0 {
			n.held(step)
		}
		if r.Intn(25) == 0 {
			n.do(Op{K: "restart", A: []int64{int64(k), int64(k)}})
			p = nil
		}
		secs := step * (0.2 + 1.6*r.Float64())
		if r.Intn(40) == 0 {
			secs *= 10
		}
		was := p
		if was == nil {
			was = n.look()
		}
		p = n.tick(secs, was)
		switch {
		case was.off || p.off || n.low:
		case n.atGap:
			idle--
		case p.lapL > was.lapL && p.lane() == was.lane():
			moved += p.st.Tick * n.o.Speed.Min
		default:
			idle--
		}
		if moved > need*(1+1e-6)+1 || idle < 0 {
			c.bad("D02", "no-lap", "%d ticks, worth %f m at minimum speed on routes of %f m, but only %d of %d laps; now at track %d/%d %f of %f", k, moved, length, laps-(goal-n.laps), laps, p.ri, p.ti, p.lapL, p.trkD)
			return
		}
	}
	c.count("laps_travelled")
}

// held is a tick that finds the tracker busy.
func (n *nav) held(secs float64) {
	d := n.d
	if d.NumRoutes() == 0 {
		return
	}
	before := d.State()
	d.EachRoute(func(int, *navigator.Route) bool {
		if d.Next(secs) {
			n.c.bad("G06", "busy-step", "a step was reported while the tracker was busy")
		}
		return false
	})
	n.pending += secs
	n.c.count("missed_tick")
	if !n.conc && before.Duration != d.Duration() {
		n.c.bad("G06", "busy-time", "a busy tracker was advanced")
	}
}

func (n *nav) addSpare() *navigator.Route {
	if len(n.spare) > 0 && n.extra%2 == 0 {
		r := n.spare[0]
		n.spare = n.spare[1:]
		return r
	}
	return n.route()
}

func (n *nav) do(o Op) {
	c, d := n.c, n.d
	c.count("op_" + o.K)
	a, b := o.arg(0), o.arg(1)
	routes := d.Routes()
	var rt *navigator.Route
	var tr *navigator.Track
	if len(routes) > 0 {
		rt = routes[o.idx(0, len(routes))]
		if rt.NumTracks() > 0 {
			tr = rt.TrackAt(o.idx(1, rt.NumTracks()))
		}
	}
	edited, ri0, ti0, si0 := n.dirty, d.RouteIndex(), d.TrackIndex(), d.SegmentIndex()
	moved := func(ok bool, what string) {
		if !ok {
			return
		}
		// another segment, track or route is entered with no progress in it
		if ri, ti, si := d.RouteIndex(), d.TrackIndex(), d.SegmentIndex(); !edited &&
			(ri != ri0 && d.CurrentRouteDistance() != 0 ||
				(ri != ri0 || ti != ti0) && d.CurrentTrackDistance() != 0 ||
				(ri != ri0 || ti != ti0 || si != si0) && d.CurrentSegmentDistance() != 0) {
			c.bad("D05", "move-progress", "%s from %d,%d,%d to %d,%d,%d left %f m of progress in the segment, %f m in the track, %f m in the route",
				what, ri0, ti0, si0, ri, ti, si, d.CurrentSegmentDistance(), d.CurrentTrackDistance(), d.CurrentRouteDistance())
		}
		n.dirty = false
		n.moved = true
		n.onSegment(n.look(), what)
		c.Work++
	}
	switch o.K {
	case "tick":
		if b%16 == 3 {
			n.nonsense(b / 16)
		}
		n.tick(n.secs(a), nil)
		return
	case "ticks":
		var p *obs
		for k := 0; k < int(b%12)+2 && len(c.V) == 0; k++ {
			p = n.tick(n.secs(a+int64(k)*7), p)
		}
		return
	case "held":
		n.held(n.secs(a))
	case "addR":
		if len(routes) > 4 {
			return
		}
		l := []*navigator.Route{n.addSpare()}
		if b%4 == 0 {
			l = append(l, n.addSpare())
		}
		if b%7 == 0 {
			l = append(l, nil, l[0])
		}
		if err := d.AddRoute(l...); err != nil {
			c.bad("D05", "add-route", "AddRoute: %v", err)
		}
		n.dirty, n.moved = false, false
	case "rmR":
		if rt == nil {
			return
		}
		if !d.RemoveRoute(rt.ID()) {
			c.bad("D05", "remove-route", "cannot remove a route")
		}
		n.spare = append(n.spare, rt)
		n.dirty, n.moved = false, false
	case "rmT":
		if tr == nil {
			return
		}
		if !d.RemoveTrack(rt.ID(), tr.ID()) {
			c.bad("D05", "remove-track", "cannot remove a track")
		}
		n.dirty, n.moved = false, false
	case "resetR":
		if a%3 != 0 {
			return
		}
		d.ResetRoutes()
		if len(routes) > 0 {
			n.dirty, n.moved = false, false
		}
	case "addT":
		if rt == nil || rt.NumTracks() > 6 {
			return
		}
		sh := int(b % numShapes)
		if sh == shNoTracks || sh == shRandom {
			sh = shSingle
		}
		pts := trackPoints(sim.NewStream(mix(n.seed, uint64(a)), "addT"), sh)
		if b%5 == 0 {
			pts = []geo.LatLonPoint{pts[0], pts[0]}
		}
		rt.AddTrack(mustTrack(pts))
		n.dirty, n.moved = true, true
	case "rmTd":
		if tr == nil {
			return
		}
		rt.RemoveTrack(tr.ID())
		if o.arg(2)%3 == 0 { // it comes last now; the distance is the same
			rt.AddTrack(tr)
		}
		n.dirty, n.moved = true, true
	case "moveS":
		ri := int(a % 4)
		ti := int(b % 4)
		si := int(o.arg(2) % 9)
		if a%31 == 0 {
			ri -= 2
		}
		if b%31 == 0 {
			ti -= 2
		}
		ok := d.MoveToSegment(ri, ti, si)
		if ok && (d.RouteIndex() != ri || d.TrackIndex() != ti || d.SegmentIndex() != si) {
			c.bad("D01", "move-elsewhere", "MoveToSegment(%d,%d,%d) went to %d,%d,%d", ri, ti, si, d.RouteIndex(), d.TrackIndex(), d.SegmentIndex())
		}
		moved(ok, "MoveToSegment")
	case "moveT":
		ri, ti := int(a%4), int(b%5)
		ok := d.MoveToTrack(ri, ti)
		if ok && (d.RouteIndex() != ri || d.TrackIndex() != ti || d.SegmentIndex() != 0) {
			c.bad("D01", "move-elsewhere", "MoveToTrack(%d,%d) went to %d,%d,%d", ri, ti, d.RouteIndex(), d.TrackIndex(), d.SegmentIndex())
		}
		moved(ok, "MoveToTrack")
	case "moveR":
		ri := int(a % 5)
		ok := d.MoveToRoute(ri)
		if ok && (d.RouteIndex() != ri || d.TrackIndex() != 0 || d.SegmentIndex() != 0) {
			c.bad("D01", "move-elsewhere", "MoveToRoute(%d) went to %d,%d,%d", ri, d.RouteIndex(), d.TrackIndex(), d.SegmentIndex())
		}
		moved(ok, "MoveToRoute")
	case "moveRID":
		if rt == nil {
			return
		}
		ok := d.MoveToRouteByID(rt.ID())
		if ok && d.CurrentRoute() != rt {
			c.bad("D01", "move-elsewhere", "MoveToRouteByID went to another route")
		}
		moved(ok, "MoveToRouteByID")
	case "moveTID":
		if tr == nil {
			return
		}
		ok := d.MoveToTrackByID(rt.ID(), tr.ID())
		if ok && (d.CurrentRoute() != rt || d.CurrentTrack() != tr) {
			c.bad("D01", "move-elsewhere", "MoveToTrackByID went to another track")
		}
		moved(ok, "MoveToTrackByID")
	case "nextR":
		i := d.RouteIndex()
		ok := d.ToNextRoute()
		if ok && !n.dirty && d.RouteIndex() != i+1 {
			c.bad("D01", "move-elsewhere", "ToNextRoute went from %d to %d", i, d.RouteIndex())
		}
		moved(ok, "ToNextRoute")
	case "prevR":
		i := d.RouteIndex()
		ok := d.ToPrevRoute()
		if ok && !n.dirty && d.RouteIndex() != i-1 {
			c.bad("D01", "move-elsewhere", "ToPrevRoute went from %d to %d", i, d.RouteIndex())
		}
		moved(ok, "ToPrevRoute")
	case "jump":
		if b%16 == 3 {
			n.nonsense(b / 16)
		}
		n.jump(a, b)
	case "offline":
		d.ToOffline()
		n.dirty = false
	case "reset":
		d.ResetNavigator()
		n.dirty, n.moved = false, false
	case "restart":
		n.restart(a)
	case "sensor":
		n.extra++
		n.sensor(newSensor(sim.NewStream(mix(n.seed, uint64(n.extra)), "sensor"), fmt.Sprint("x", n.extra)))
	case "rmS":
		if d.NumSensors() > 0 {
			d.RemoveSensor(d.SensorAt(o.idx(0, d.NumSensors())).ID())
		}
	case "update":
		d.Update()
		if n.dirty {
			n.dirty, n.moved = false, true
		}
	case "name":
		d.SetDescription(fmt.Sprint(a))
	case "paint": // visible from the next step on
		p := n.look()
		if rt == nil || len(c.V) > 0 {
			return
		}
		if tr != nil && b%3 > 0 {
			tr.ChangeColor(someColor(a).Hex())
		} else {
			rt.ChangeColor(someColor(a))
		}
		n.tick(n.secs(a), p)
		return
	}
	n.look()
}

// nonsense passes what is neither a length of time nor a distance: the tracker
// refuses it and stays as it is.
func (n *nav) nonsense(b int64) {
	c, d := n.c, n.d
	if n.dirty {
		return
	}
	before, snap := d.State(), d.Snapshot()
	x := pickInt(b/2, math.NaN(), math.Inf(-1), -3, -0.5, -1e6, math.Inf(1))
	prop, ok := "D03", false
	if b%2 == 0 {
		ok = d.Next(x)
	} else if prop = "D01"; !math.IsInf(x, 1) {
		ok = d.DestinationTo(x)
	}
	c.count("nonsense")
	if ok || !proto.Equal(before, d.State()) || !proto.Equal(snap, d.Snapshot()) {
		c.bad(prop, "nonsense-accepted", "a step of %v (%v) changed the tracker: %v, before %v", x, ok, d.State(), before)
	}
}

func pickInt(i int64, l ...float64) float64 { return l[i%int64(len(l))] }

func (n *nav) jump(a, b int64) {
	c, d := n.c, n.d
	tot := 0.0
	for _, r := range d.Routes() {
		tot += r.Distance()
	}
	var m float64
	switch a % 6 {
	case 0:
		m = tot
	case 1:
		m = tot * 2
	case 2:
		m = 0.5
	case 3: // the boundary between two tracks
		for _, r := range d.Routes() {
			for j := 0; j < r.NumTracks() && b > 0; j++ {
				m += r.TrackAt(j).Distance()
				b -= 1 << 17
			}
		}
	default:
		m = tot * float64(b%10000) / 10000
	}
	ok := d.DestinationTo(m)
	if !ok {
		if m >= 1.001 && tot >= 1.001 {
			c.bad("D01", "jump-refused", "cannot jump to %f of %f m", m, tot)
		}
		return
	}
	n.dirty, n.moved = false, false
	c.Work++
	q := n.look()
	n.onSegment(q, "a jump")
	// the place must be at this distance along all routes
	want := math.Min(m, tot)
	at := q.lapL
	for i, l := range q.layout {
		if i == q.lane() {
			break
		}
		at += l.len
	}
	if !near(at, want, 1e-6*(1+tot)) {
		c.bad("D01", "jump-elsewhere", "a jump to %f m went to %f m", want, at)
	}
	if !near(q.cur, want, 1e-6*(1+tot)) {
		c.bad("D05", "jump-progress", "after a jump to %f m the progress is %f", want, q.cur)
	}
}

// restart saves the tracker, loses the process and loads it again.
func (n *nav) restart(a int64) {
	c := n.c
	var d2 *gpsgen.Device
	switch a % 3 {
	case 0:
		d2 = mustDevice(gpsgen.DefaultTrackerOptions())
		if err := d2.FromSnapshot(n.d.Snapshot()); err != nil {
			c.bad("P01", "restore-failed", "%v", err)
			c.bad(c.Case.Prop, "restore-failed", "%v", err)
			return
		}
	case 1:
		b, err := n.d.MarshalBinary()
		if err == nil {
			d2 = new(gpsgen.Device)
			err = d2.UnmarshalBinary(b)
		}
		if err != nil {
			c.bad(c.Case.Prop, "restore-failed", "%v", err)
			return
		}
	case 2:
		b, err := gpsgen.EncodeTracker(n.d)
		if err == nil {
			d2, err = gpsgen.DecodeTracker(b)
		}
		if err != nil {
			c.bad(c.Case.Prop, "restore-failed", "%v", err)
			return
		}
	}
	n.d = d2
	n.pending = 0
	if n.dirty {
		n.dirty, n.moved = false, true
	}
	c.count("crash_restart")
}

// concurrent lets several goroutines work on the tracker at once; every state
// handed out must be consistent, and at the end everything is checked.
func (n *nav) concurrent() {
	c, d := n.c, n.d
	check := func(s *pb.Device) {
		c.Work++
		if cl, m := recCheck(s); cl != "" {
			badRec(c, cl, m)
		}
		x := s.Distance
		tol := 1e-6 * (1 + x.Distance)
		if x.CurrentSegmentDistance > x.CurrentTrackDistance+tol || x.CurrentTrackDistance > x.CurrentRouteDistance+tol || x.CurrentRouteDistance > x.CurrentDistance+tol {
			c.bad("D05", "state-progress-order", "published progress %v", x)
		}
		if x.CurrentSegmentDistance > x.SegmentDistance+tol {
			c.bad("D05", "state-progress-length", "published progress %v", x)
		}
	}
	var cl []*sim.Thread
	for i := range c.P.Clients {
		ops := c.P.Clients[i]
		cl = append(cl, sim.Go(fmt.Sprintf("client%d", i), func() {
			for _, o := range ops {
				a, b := o.arg(0), o.arg(1)
				var rt *navigator.Route
				rts := d.Routes()
				if len(rts) > 0 {
					rt = rts[o.idx(0, len(rts))]
				}
				c.count("op_" + o.K)
				switch o.K {
				case "tick", "held", "ticks":
					d.Next(n.secs(a))
				case "addR":
					if len(rts) < 5 {
						d.AddRoute(n.addSpare())
					}
				case "rmR":
					if rt != nil && d.RemoveRoute(rt.ID()) {
						n.spare = append(n.spare, rt)
					}
				case "rmT", "rmTd":
					if rt != nil {
						// by identity as published
						s := d.State()
						for _, x := range s.Routes.Routes {
							if x.RouteId == rt.ID() && len(x.Tracks) > 0 {
								d.RemoveTrack(x.RouteId, x.Tracks[o.idx(1, len(x.Tracks))].TrackId)
							}
						}
					}
				case "resetR":
					if a%4 == 0 {
						d.ResetRoutes()
					}
				case "moveS":
					d.MoveToSegment(int(a%3), int(b%3), int(o.arg(2)%7))
				case "moveT":
					d.MoveToTrack(int(a%3), int(b%4))
				case "moveR":
					d.MoveToRoute(int(a % 4))
				case "moveRID":
					if rt != nil {
						d.MoveToRouteByID(rt.ID())
					}
				case "nextR":
					d.ToNextRoute()
				case "prevR":
					d.ToPrevRoute()
				case "jump":
					d.DestinationTo(float64(b%4000) * d.Distance() / 4000)
				case "offline":
					d.ToOffline()
				case "reset":
					d.ResetNavigator()
				case "restart":
					// saved now, loaded again in place: all else stays
					if err := d.FromSnapshot(d.Snapshot()); err != nil {
						c.bad(c.Case.Prop, "restore-failed", "%v", err)
					}
				case "sensor":
					s, _ := types.NewSensor("q", 1, 5, 8, 0)
					d.AddSensor(s)
				default:
					d.Update()
				}
				check(d.State())
				d.CurrentRoute()
				d.CurrentTrack()
				d.CurrentSegment()
				d.CurrentBearing()
			}
		}))
	}
	for _, t := range cl {
		sim.Join(t)
	}
	n.moved = true
	n.look()
	n.charge = -2
	d.Next(1)
	n.look()
	n.dirty = false
}
