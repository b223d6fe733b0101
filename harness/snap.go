package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/lucasb-eyer/go-colorful"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"gpsverif/sim"
)

// The snap scenario drives one tracker through a history; at arbitrary
// points it is saved, the process "crashes" and a copy is loaded in a new
// one. From then on the copies get the same ticks, edits and random draws as
// the original and have to stay exactly equal to it (P01).

func init() {
	scenarios["snap"] = &Scenario{Gen: genSnap, Run: runSnap}
	propScn["P01"] = append(propScn["P01"], weighted{"snap", 10})
	scenarios["regs"] = &Scenario{Gen: genRegs, Run: runRegs}
	propScn["P02"] = append(propScn["P02"], weighted{"regs", 10})
	propScn["G07"] = append(propScn["G07"], weighted{"regs", 3})
}

var snapKinds = []string{"tick", "tick", "tick", "ticks", "held", "addR", "rmR", "rmT", "resetR", "addT", "rmTd",
	"moveS", "moveT", "moveR", "nextR", "prevR", "jump", "jump", "offline", "reset", "sensor", "sensor", "rmS", "resetS", "update",
	"descr", "model", "color", "user", "rname", "rcolor", "rprops", "tname", "tcolor", "tprops", "reload", "parts", "failmove", "byID", "byID"}

func genSnap(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config) {
	cfg := map[string]int{"seed": r.Intn(1 << 30), "routes": r.Intn(4), "shape": r.Intn(numShapes + 3), "battery": r.Intn(4),
		"sensors": r.Intn(3), "kind": r.Intn(8), "scale": r.Intn(3)}
	enlarge(r, cfg)
	p := Plan{Cfg: cfg}
	kinds := snapKinds
	switch r.Intn(4) {
	case 0:
		kinds = []string{"tick", "tick", "ticks", "jump", "moveS", "offline", "sensor"}
	case 1:
		kinds = append(kinds, "tick", "ticks", "ticks", "ticks", "ticks", "tick", "tick", "tick")
	}
	var ops []Op
	n := r.Range(3, 30)
	crash := r.Range(1, 4)
	for k := 0; k < n; k++ {
		if r.Intn(n) < crash {
			ops = append(ops, Op{K: "crash", A: []int64{int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20))}})
			if r.Intn(3) == 0 {
				ops = append(ops, Op{K: "rollback", A: []int64{int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20))}})
			}
		}
		ops = append(ops, Op{K: kinds[r.Intn(len(kinds))], A: []int64{int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20))}})
	}
	p.Clients = [][]Op{ops}
	sc := swarm(r, swarmOpt{maxSteps: 20_000_000, est: 3000, noFaults: true})
	sc.MapOrder = r.Intn(2) == 0
	return p, sc
}

// replica is a tracker with the state that the harness keeps about it.
type replica struct {
	d    *gpsgen.Device
	name string
}

type saved struct {
	bytes []byte
	face  []string
}

type snapRun struct {
	c     *Ctx
	prop  string
	all   []*replica
	old   []saved
	scale float64
	dirty bool
	seed  uint64
	extra int
	shape int
}

func snapDevice(c *Ctx, r *sim.Stream) *gpsgen.Device {
	var o *gpsgen.DeviceOptions
	switch c.cfg("kind") {
	case 0:
		o = gpsgen.DefaultTrackerOptions()
	case 1:
		o = gpsgen.DogTrackerOptions()
	case 2:
		o = gpsgen.DroneTrackerOptions()
	case 3:
		o = gpsgen.KidsTrackerOptions()
	default:
		o = devOptions(r)
		if r.Intn(3) == 0 {
			o.Speed.Amplitude = pick(r, 128, 512)
		}
	}
	o.ID = "snap"
	switch c.cfg("battery") {
	case 0:
		o.Battery.ChargeTime = 100*time.Second + time.Duration(r.Intn(3)*r.Intn(1e9))
	case 1:
		o.Battery.ChargeTime = 1050*time.Second + time.Duration(r.Intn(1e9))
	case 2:
		o.Battery.ChargeTime = 0
	}
	return mustDevice(o)
}

func (s *snapRun) setup(c *Ctx, label string) {
	s.c = c
	s.seed = uint64(c.cfg("seed"))
	s.shape = c.cfg("shape")
	s.scale = []float64{1, 30, 1000}[c.clamp("scale", 0, 2)]
	r := sim.NewStream(s.seed, label)
	d := snapDevice(c, r)
	for i := 0; i < c.clamp("sensors", 0, 40); i++ {
		d.AddSensor(newSensor(r, fmt.Sprint("s", i)))
	}
	for i := 0; i < c.clamp("routes", 0, 20); i++ {
		d.AddRoute(s.route(uint64(i)))
	}
	s.all = []*replica{{d, "original"}}
}

func (s *snapRun) route(k uint64) *navigator.Route {
	sh := s.shape
	if sh >= numShapes {
		sh = int(mix(s.seed, k, 3) % numShapes)
	}
	return newRoute(sh, mix(s.seed, k))
}

func runSnap(c *Ctx) {
	s := &snapRun{prop: "P01"}
	c.state = s
	s.setup(c, "snap")
	for _, cl := range c.P.Clients {
		for _, o := range cl {
			c.count("op_" + o.K)
			switch o.K {
			case "crash":
				s.crash(o)
			case "rollback":
				s.rollback(o)
			default:
				s.apply(o)
			}
			if len(c.V) > 0 {
				return
			}
		}
	}
	// a last stretch together
	for k := 0; k < 6 && len(c.V) == 0; k++ {
		s.apply(Op{K: "ticks", A: []int64{int64(k) * 77, 9, 0}})
	}
}

// apply performs one operation on all replicas with the same draws.
func (s *snapRun) apply(o Op) {
	c := s.c
	start := sim.LibState()
	var end [4]uint64
	var res string
	for i, r := range s.all {
		sim.SetLibState(start)
		x := s.do(r.d, o, i)
		if i == 0 {
			end, res = sim.LibState(), x
			continue
		}
		if x != res {
			c.bad("P01", "result-"+o.K, "%s returned %s on the original and %s on the tracker %s", o.K, res, x, r.name)
			return
		}
		if o.K != "parts" && sim.LibState() != end {
			c.bad("P01", "draws", "%s draws other random numbers on the original than on the tracker %s", o.K, r.name)
			return
		}
	}
	sim.SetLibState(end)
	s.extra++
	switch o.K {
	case "addT", "rmTd", "rname", "rcolor", "rprops", "tname", "tcolor", "tprops":
		s.dirty = true
	}
	if s.dirty {
		s.refresh()
	}
	if len(s.all) > 1 {
		c.Work++
	}
	s.compare("after " + o.K)
}

func (s *snapRun) refresh() {
	for _, r := range s.all {
		r.d.Update()
	}
	s.dirty = false
}

func (s *snapRun) compare(when string) {
	if len(s.all) < 2 {
		return
	}
	a := portrait(s.all[0].d)
	for _, r := range s.all[1:] {
		if l, m := portraitDiff(a, portrait(r.d)); l != "" {
			s.c.bad("P01", "differs-"+l, "%s the tracker %s differs from the original: %s", when, r.name, m)
			return
		}
	}
}

// crash saves the original at this point and loads it in another process.
func (s *snapRun) crash(o Op) {
	c := s.c
	orig := s.all[0].d
	a := int(o.arg(0))
	st := orig.State()
	if st.Tick == 0 && st.Navigator.CurrentRouteId == "" {
		s.refresh() // gives a new tracker its place, as loading does
	}
	before := portrait(orig)
	start := sim.LibState()
	var b []byte
	var err error
	how := ""
	switch a % 3 {
	case 0:
		how = "snapshot"
		b, err = proto.Marshal(orig.Snapshot())
	case 1:
		how = "binary"
		b, err = orig.MarshalBinary()
	case 2:
		how = "encoded"
		b, err = gpsgen.EncodeTracker(orig)
	}
	if err != nil {
		c.bad("P01", "save-failed", "%v", err)
		return
	}
	if l, m := portraitDiff(before, portrait(orig)); l != "" {
		c.bad("P01", "save-alters-"+l, "saving the tracker altered it: %s", m)
		c.bad("P02", "save-alters", "saving the tracker altered it: %s", m)
		return
	}
	d := s.target(int(o.arg(1)))
	was := d
	ids := names{}
	if o.arg(1)%4 != 0 { // a zero Device holds nothing and is only good for loading
		ids = namesOf(d)
	}
	kind := a / 3 % 3
	switch {
	case kind == 0 && how == "encoded":
		d, err = gpsgen.DecodeTracker(b)
	case kind == 1:
		err = d.UnmarshalBinary(b)
	default:
		x := new(pb.Snapshot)
		if err = proto.Unmarshal(b, x); err == nil {
			y := digest(x)
			err = d.FromSnapshot(x)
			if digest(x) != y {
				c.bad("P01", "snapshot-altered", "loading a snapshot altered it")
			}
		}
	}
	if err != nil {
		c.bad("P01", "load-failed", "a tracker cannot be loaded: %v", err)
		return
	}
	sim.SetLibState(start)
	c.count("crash_restart")
	if was == d {
		s.ghosts(d, ids)
	}
	r := &replica{d, fmt.Sprintf("loaded (%s, copy %d)", how, len(s.old))}
	if len(s.all) < 4 {
		s.all = append(s.all, r)
	} else {
		s.all[1+a/9%3] = r
	}
	s.old = append(s.old, saved{b, before})
	c.Work++
	s.compare("right after loading")
}

// rollback loads an earlier version into a tracker that has gone on since.
func (s *snapRun) rollback(o Op) {
	if len(s.old) == 0 || len(s.all) < 2 {
		return
	}
	c := s.c
	v := s.old[o.idx(0, len(s.old))]
	start := sim.LibState()
	i := 1 + o.idx(1, len(s.all)-1)
	r := s.all[i]
	ids := namesOf(r.d)
	if err := r.d.UnmarshalBinary(v.bytes); err != nil {
		c.bad("P01", "load-failed", "an earlier version cannot be loaded: %v", err)
		return
	}
	if l, m := portraitDiff(v.face, portrait(r.d)); l != "" {
		c.bad("P01", "rollback-"+l, "loading an earlier version into a used tracker: %s", m)
	}
	s.ghosts(r.d, ids)
	// it does not take part any more
	s.all = append(s.all[:i:i], s.all[i+1:]...)
	sim.SetLibState(start)
}

// names are the ids of what a tracker holds.
type names struct {
	sensors, routes []string
	tracks          map[string]string
}

func namesOf(d *gpsgen.Device) names {
	n := names{tracks: map[string]string{}}
	for _, s := range d.Sensors() {
		n.sensors = append(n.sensors, s.ID())
	}
	for _, r := range d.Routes() {
		n.routes = append(n.routes, r.ID())
		for k := 0; k < r.NumTracks(); k++ {
			n.tracks[r.TrackAt(k).ID()] = r.ID()
		}
	}
	return n
}

func has(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

// ghosts checks that a loaded tracker knows what it holds by name, and
// nothing of what it held before.
func (s *snapRun) ghosts(d *gpsgen.Device, was names) {
	c := s.c
	now := namesOf(d)
	for i, id := range now.sensors {
		if x, ok := d.SensorByID(id); !ok || x.ID() != id || !has(now.sensors[:i], id) && x != d.SensorAt(i) {
			c.bad("P01", "sensor-by-id", "after loading the sensor %s is not found by its id", id)
			return
		}
	}
	for _, id := range was.sensors {
		if has(now.sensors, id) {
			continue
		}
		c.count("ghosts")
		if _, ok := d.SensorByID(id); ok || d.RemoveSensor(id) {
			c.bad("P01", "ghost-sensor", "after loading the tracker still knows the sensor %s that it had before", id)
			return
		}
	}
	for _, id := range was.routes {
		if has(now.routes, id) {
			continue
		}
		c.count("ghosts")
		if d.MoveToRouteByID(id) || d.RemoveRoute(id) {
			c.bad("P01", "ghost-route", "after loading the tracker still knows the route %s that it had before", id)
			return
		}
	}
	for _, id := range sorted(was.tracks) {
		rid := was.tracks[id]
		if _, ok := now.tracks[id]; ok {
			continue
		}
		if d.MoveToTrackByID(rid, id) || d.RemoveTrack(rid, id) {
			c.bad("P01", "ghost-track", "after loading the tracker still knows the track %s that it had before", id)
			return
		}
	}
}

func sorted(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// target is the tracker that the data is loaded into.
func (s *snapRun) target(a int) *gpsgen.Device {
	switch a % 4 {
	case 0:
		return new(gpsgen.Device)
	case 1:
		return gpsgen.NewTracker()
	}
	r := sim.NewStream(mix(s.seed, uint64(a)), "target")
	d := mustDevice(devOptions(r))
	for k := 0; k < 1+a/4%3; k++ {
		d.AddSensor(newSensor(r, "other"))
		d.AddRoute(newRoute(pick(r, shMulti, shSingle, shRepeat), uint64(a+k)))
	}
	for k := 0; k < a/16%4; k++ {
		d.Next(5)
	}
	if a/64%3 == 0 {
		d.DestinationTo(50)
	}
	if a/64%3 == 1 {
		d.ToOffline()
	}
	if a/256%4 == 0 {
		d.EachRoute(func(int, *navigator.Route) bool { d.Next(1000); return false })
	}
	d.SetDescription("another")
	return d
}

func (s *snapRun) secs(v int64) float64 {
	switch v % 8 {
	case 0:
		return 1
	case 1:
		return 0.25
	case 2:
		return 0
	}
	return s.scale * (0.1 + float64(v/8%1000)/300)
}

// do performs one operation; i tells the original (0) from the copies.
func (s *snapRun) do(d *gpsgen.Device, o Op, i int) string {
	a, b := o.arg(0), o.arg(1)
	routes := d.Routes()
	var rt *navigator.Route
	var tr *navigator.Track
	if len(routes) > 0 {
		rt = routes[o.idx(0, len(routes))]
		if rt.NumTracks() > 0 {
			tr = rt.TrackAt(o.idx(1, rt.NumTracks()))
		}
	}
	draw := func(label string) *sim.Stream { return sim.NewStream(mix(s.seed, uint64(s.extra)), label) }
	switch o.K {
	case "tick":
		return fmt.Sprint(d.Next(s.secs(a)))
	case "ticks":
		var l []bool
		for k := int64(0); k < b%14+2; k++ {
			l = append(l, d.Next(s.secs(a+k*13)))
		}
		return fmt.Sprint(l)
	case "held":
		if rt != nil {
			d.EachRoute(func(int, *navigator.Route) bool { d.Next(s.secs(a)); return false })
		}
		return fmt.Sprint(d.Next(1))
	case "addR":
		if len(routes) > 4 {
			return ""
		}
		return fmt.Sprint(d.AddRoute(s.route(uint64(s.extra) + 100)))
	case "rmR":
		if rt != nil {
			return fmt.Sprint(d.RemoveRoute(rt.ID()))
		}
	case "rmT":
		if tr != nil {
			return fmt.Sprint(d.RemoveTrack(rt.ID(), tr.ID()))
		}
	case "resetR":
		if a%3 == 0 {
			return fmt.Sprint(d.ResetRoutes())
		}
	case "addT":
		if rt != nil && rt.NumTracks() < 7 {
			pts := trackPoints(draw("addT"), pick(draw("shape"), shSingle, shRepeat, shTiny, shMulti))
			if b%5 == 0 {
				pts = []geo.LatLonPoint{pts[0], pts[0]}
			}
			rt.AddTrack(mustTrack(pts))
		}
	case "rmTd":
		if tr != nil {
			ok := rt.RemoveTrack(tr.ID())
			if o.arg(2)%3 == 0 { // it comes last now; the distance is the same
				rt.AddTrack(tr)
			}
			return fmt.Sprint(ok)
		}
	case "moveS":
		return fmt.Sprint(d.MoveToSegment(int(a%3), int(b%3), int(o.arg(2)%8)))
	case "moveT":
		return fmt.Sprint(d.MoveToTrack(int(a%3), int(b%4)))
	case "moveR":
		return fmt.Sprint(d.MoveToRoute(int(a % 4)))
	case "byID":
		if rt != nil {
			x := fmt.Sprint(d.MoveToRouteByID(rt.ID()))
			if tr != nil {
				x += fmt.Sprint(d.MoveToTrackByID(rt.ID(), tr.ID()))
			}
			return x
		}
	case "failmove":
		return fmt.Sprint(d.MoveToSegment(-1, 99, 0), d.MoveToRouteByID("nope"), d.DestinationTo(-5), d.RemoveRoute("nope"), d.RemoveSensor("nope"),
			d.Next(pickInt(b, math.NaN(), math.Inf(1), math.Inf(-1), -7)), d.DestinationTo(math.NaN()))
	case "nextR":
		return fmt.Sprint(d.ToNextRoute())
	case "prevR":
		return fmt.Sprint(d.ToPrevRoute())
	case "jump":
		return fmt.Sprint(d.DestinationTo(d.Distance() * float64(b%5000) / 4800))
	case "offline":
		d.ToOffline()
	case "reset":
		d.ResetNavigator()
	case "sensor":
		if d.NumSensors() < 6 {
			l := []*types.Sensor{newSensor(draw("sensor"), fmt.Sprint("x", s.extra))}
			if b%8 == 3 { // limits that no sensor can have, or one that can be stored
				lo, hi := pickInt(b/8, math.NaN(), math.Inf(-1), 0, -math.MaxFloat64), pickInt(b/32, math.NaN(), math.Inf(1), math.MaxFloat64, 7)
				if x, err := types.NewSensor("odd", lo, hi, 8, types.WithSensorRandomMode); err == nil {
					l = append(l, x)
				}
			}
			d.AddSensor(l...)
		}
	case "rmS":
		if d.NumSensors() > 0 {
			return fmt.Sprint(d.RemoveSensor(d.SensorAt(o.idx(0, d.NumSensors())).ID()))
		}
	case "resetS":
		if a%3 == 0 {
			d.ResetSensors()
		}
	case "update":
		d.Update()
	case "descr":
		d.SetDescription(fmt.Sprintf("d%d \"ü\"\n", a))
	case "model":
		return fmt.Sprint(d.SetModel(fmt.Sprint("model-", a)))
	case "color":
		return fmt.Sprint(d.SetColor(someColor(a)))
	case "user":
		return fmt.Sprint(d.SetUserID(fmt.Sprint("user", a)))
	case "rname":
		if rt != nil {
			return fmt.Sprint(rt.ChangeName(fmt.Sprint("route ", a)))
		}
	case "rcolor":
		if rt != nil {
			return fmt.Sprint(rt.ChangeColor(someColor(a)))
		}
	case "rprops":
		if rt != nil {
			editProps(rt.Props(), a, b)
		}
	case "tname":
		if tr != nil {
			return fmt.Sprint(tr.ChangeName(fmt.Sprint("track ", a)))
		}
	case "tcolor":
		if tr != nil {
			return fmt.Sprint(tr.ChangeColor(someColor(a).Hex()))
		}
	case "tprops":
		if tr != nil {
			editProps(tr.Props(), a, b)
		}
	case "reload":
		// the copies are saved and loaded once more
		if i > 0 {
			x, err := gpsgen.EncodeTracker(d)
			if err == nil {
				err = d.UnmarshalBinary(x)
			}
			if err != nil {
				return err.Error()
			}
		} else {
			d.Update()
		}
	case "parts":
		return s.parts(d, i)
	}
	return ""
}

// parts takes the sensors and routes off and puts them back; the copies get
// encoded and decoded ones.
func (s *snapRun) parts(d *gpsgen.Device, i int) string {
	ss, rs := d.Sensors(), d.Routes()
	if i > 0 {
		start := sim.LibState()
		if len(ss) > 0 {
			b, err := gpsgen.EncodeSensors(ss)
			if err == nil {
				ss, err = gpsgen.DecodeSensors(b)
			}
			if err != nil {
				return err.Error()
			}
		}
		if len(rs) > 0 {
			b, err := gpsgen.EncodeRoutes(rs)
			if err == nil {
				rs, err = gpsgen.DecodeRoutes(b)
			}
			if err != nil {
				return err.Error()
			}
		}
		sim.SetLibState(start)
	}
	d.ResetSensors()
	d.ResetRoutes()
	d.AddSensor(ss...)
	if len(rs) > 0 {
		if err := d.AddRoute(rs...); err != nil {
			return err.Error()
		}
	}
	return ""
}

func someColor(a int64) colorful.Color {
	return colorful.Color{R: float64(a%7) / 7, G: float64(a%11) / 11, B: float64(a%13) / 13}
}

func editProps(p map[string]interface{}, a, b int64) {
	k := fmt.Sprint("key", a%4)
	switch b % 6 {
	case 0:
		delete(p, k)
	case 1:
		p[k] = float64(a) / 8
	case 2:
		p[k] = []interface{}{"x", float64(1), nil, true}
	case 3:
		p[k] = map[string]interface{}{"a": fmt.Sprint(a), "color": "red"}
	case 4:
		p[k] = a%2 == 0
	default:
		p[k] = fmt.Sprintf("v%d ü\"<>", a)
	}
}

// portrait lists everything that can be observed of a tracker.
func portrait(d *gpsgen.Device) []string {
	var l []string
	add := func(label string, v ...interface{}) { l = append(l, label+"\x00"+fmt.Sprint(v...)) }
	add("id", d.ID(), "|", d.Model(), "|", d.UserID(), "|", d.Color(), "|", d.Descr())
	add("status", d.Status())
	add("place", d.RouteIndex(), " ", d.TrackIndex(), " ", d.SegmentIndex(), " ", d.Location(), " ", d.CurrentBearing())
	add("progress", d.CurrentSegmentDistance(), " ", d.CurrentTrackDistance(), " ", d.CurrentRouteDistance(), " ", d.CurrentDistance())
	add("lengths", d.SegmentDistance(), " ", d.TrackDistance(), " ", d.RouteDistance(), " ", d.Distance())
	add("offline", d.IsOffline())
	add("duration", d.Duration())
	add("version", d.Version())
	id := func(r *navigator.Route, t *navigator.Track) string {
		x := ""
		if r != nil {
			x = r.ID()
		}
		if t != nil {
			x += " " + t.ID()
		}
		return x
	}
	add("current", id(d.CurrentRoute(), d.CurrentTrack()), d.CurrentSegment())
	for i := 0; i < d.NumSensors(); i++ {
		add("sensor", sensorPortrait(d.SensorAt(i)))
	}
	rs := d.Routes()
	add("counts", d.NumSensors(), " ", d.NumRoutes(), " ", len(rs), " ", len(d.Sensors()))
	for _, r := range rs {
		l = append(l, routePortrait(r)...)
	}
	st := d.State()
	st.ProtoReflect().Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		add("state-"+string(f.Name()), canonical(v, f))
		return true
	})
	sn := d.Snapshot()
	b, _ := detMarshal.Marshal(canonSnapshot(sn))
	add("snapshot", digestBytes(b))
	sort.Strings(l[len(l)-1:])
	return l
}

// canonical prints a field of a message.
func canonical(v protoreflect.Value, f protoreflect.FieldDescriptor) string {
	if f.Kind() == protoreflect.MessageKind && !f.IsList() && !f.IsMap() {
		var l []string
		v.Message().Range(func(g protoreflect.FieldDescriptor, w protoreflect.Value) bool {
			l = append(l, string(g.Name())+"="+canonical(w, g))
			return true
		})
		sort.Strings(l)
		return "{" + strings.Join(l, " ") + "}"
	}
	if f.IsList() && f.Kind() == protoreflect.MessageKind {
		var l []string
		for i := 0; i < v.List().Len(); i++ {
			var m []string
			v.List().Get(i).Message().Range(func(g protoreflect.FieldDescriptor, w protoreflect.Value) bool {
				m = append(m, string(g.Name())+"="+canonical(w, g))
				return true
			})
			sort.Strings(m)
			l = append(l, "{"+strings.Join(m, " ")+"}")
		}
		return "[" + strings.Join(l, ", ") + "]"
	}
	if f.Kind() == protoreflect.BytesKind {
		return canonJSON(v.Bytes())
	}
	return v.String()
}

func canonJSON(b []byte) string {
	var x interface{}
	if json.Unmarshal(b, &x) != nil {
		return string(b)
	}
	if m, ok := x.(map[string]interface{}); ok && len(m) == 0 || x == nil {
		return ""
	}
	c, _ := json.Marshal(x)
	return string(c)
}

// canonSnapshot evens out differences without meaning: no properties at all
// and an empty set of them.
func canonSnapshot(s *pb.Snapshot) *pb.Snapshot {
	x := proto.Clone(s).(*pb.Snapshot)
	for _, r := range x.Navigator.GetRoutes() {
		r.Props = []byte(canonJSON(r.Props))
		for _, t := range r.Tracks {
			t.Props = []byte(canonJSON(t.Props))
		}
	}
	return x
}

func sensorPortrait(s *types.Sensor) string {
	return fmt.Sprintf("%s %s %v %v %v %v %s %x", s.ID(), s.Name(), s.Min(), s.Max(), s.ValueX(), s.ValueY(), s.String(), digest(s.Snapshot()))
}

func routePortrait(r *navigator.Route) []string {
	p, _ := json.Marshal(r.Props())
	l := []string{fmt.Sprintf("route\x00%s %s %s %v %d %s", r.ID(), r.Color(), r.Name(), r.Distance(), r.NumTracks(), p)}
	r.EachTrack(func(i int, t *navigator.Track) bool {
		p, _ := json.Marshal(t.Props())
		l = append(l, fmt.Sprintf("track\x00%d %s %s %s %v %v %d %s", i, t.ID(), t.Color(), t.Name(), t.Distance(), t.IsClosed(), t.NumSegments(), p))
		for k := 0; k < t.NumSegments(); k++ {
			l = append(l, fmt.Sprintf("segment\x00%v", t.SegmentAt(k)))
		}
		return true
	})
	return l
}

// portraitDiff returns the label of the first difference.
func portraitDiff(a, b []string) (string, string) {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "", ""
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x == y {
			continue
		}
		l, u, _ := strings.Cut(x, "\x00")
		m, v, _ := strings.Cut(y, "\x00")
		if l == "" {
			l = m
		}
		if len(u) > 300 {
			u = u[:300]
		}
		if len(v) > 300 {
			v = v[:300]
		}
		return l, fmt.Sprintf("%s is %s, now %s %s", l, u, m, v)
	}
	return "", ""
}

// ---- P02, G07: copies of a live tracker ----

// The regs scenario has one goroutine that ticks and edits the tracker and
// notes each version it had; others take snapshots, encodings and states,
// which all have to be one of the versions of their time.

type version struct {
	from, to int64 // the version came into being in between
	snap, st uint64
	what     string
	fresh    bool
}

func genRegs(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config) {
	cfg := map[string]int{"seed": r.Intn(1 << 30), "routes": r.Range(1, 3), "shape": r.Intn(numShapes + 3), "battery": r.Intn(4),
		"sensors": r.Intn(4), "kind": r.Intn(8), "scale": r.Intn(3)}
	enlarge(r, cfg)
	p := Plan{Cfg: cfg}
	kinds := []string{"tick", "tick", "tick", "tick", "addR", "rmR", "rmT", "resetR", "moveS", "moveT", "moveR", "jump", "jump", "offline",
		"reset", "sensor", "rmS", "resetS", "update", "descr", "model", "color", "user", "load"}
	if r.Intn(3) == 0 {
		kinds = []string{"tick", "tick", "jump", "moveS", "offline", "load"}
	}
	var w []Op
	for k := 0; k < r.Range(3, 14); k++ {
		w = append(w, Op{K: kinds[r.Intn(len(kinds))], A: []int64{int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20))}})
	}
	p.Clients = append(p.Clients, w)
	for i := 0; i < r.Range(1, 3); i++ {
		var ops []Op
		for k := 0; k < r.Range(2, 10); k++ {
			kind := pick(r, "snapshot", "snapshot", "binary", "encode", "state", "state")
			if prop == "G07" {
				kind = pick(r, "state", "state", "state", "snapshot")
			}
			ops = append(ops, Op{K: kind, A: []int64{int64(r.Intn(1 << 20))}})
		}
		p.Clients = append(p.Clients, ops)
	}
	sc := swarm(r, swarmOpt{maxSteps: 4_000_000, est: 4000})
	if sc.MeanQuantum > 150 {
		sc.MeanQuantum = pick(r, 1, 5, 20, 100)
	}
	return p, sc
}

type reading struct {
	call, ret int64
	kind      string
	dig       uint64
	snap      *pb.Snapshot
	st        *pb.Device
	bytes     []byte
}

func runRegs(c *Ctx) {
	s := &snapRun{prop: "P02"}
	c.state = s
	sim.Quiet(true)
	s.setup(c, "regs")
	d := s.all[0].d
	// a version to load later on
	start := sim.LibState()
	other := s.target(int(c.cfg("seed")%1000)*4 + 2)
	load := other.Snapshot()
	sim.SetLibState(start)
	d.Next(1)
	d.Update()
	var vs []version
	note := func(from int64, what string) {
		v := version{from: from, to: sim.Tick(), what: what}
		b, _ := detMarshal.Marshal(canonSnapshot(d.Snapshot()))
		v.snap = digestBytes(b)
		st := d.State()
		v.st = digest(st)
		v.fresh = st.Tick == 0 // has no place before its first step
		vs = append(vs, v)
	}
	note(sim.Tick(), "the beginning")
	sim.Quiet(false)
	var reads []reading
	var cl []*sim.Thread
	for i := range c.P.Clients {
		i := i
		ops := c.P.Clients[i]
		if i == 0 {
			cl = append(cl, sim.Go("writer", func() {
				for _, o := range ops {
					c.count("op_" + o.K)
					from := sim.Tick()
					if o.K == "load" {
						if o.arg(0)%2 == 0 {
							d.FromSnapshot(proto.Clone(load).(*pb.Snapshot))
						} else {
							x, _ := proto.Marshal(load)
							d.UnmarshalBinary(x)
						}
					} else {
						s.do(d, o, 0)
						s.extra++
					}
					sim.Quiet(true)
					note(from, o.K)
					sim.Quiet(false)
					c.Work++
					sim.ForceYield()
					// nobody else may have changed anything
					sim.Quiet(true)
					v := vs[len(vs)-1]
					b, _ := detMarshal.Marshal(canonSnapshot(d.Snapshot()))
					if digestBytes(b) != v.snap {
						c.bad("P02", "altered", "taking snapshots altered the tracker after %s", o.K)
					}
					if digest(d.State()) != v.st {
						c.bad("G07", "altered", "the published state changed by itself after %s", o.K)
					}
					sim.Quiet(false)
				}
			}))
			continue
		}
		cl = append(cl, sim.Go(fmt.Sprint("reader", i), func() {
			for _, o := range ops {
				r := reading{kind: o.K, call: sim.Tick()}
				var err error
				switch o.K {
				case "snapshot":
					r.snap = d.Snapshot()
				case "binary":
					r.bytes, err = d.MarshalBinary()
				case "encode":
					r.bytes, err = gpsgen.EncodeTracker(d)
				default:
					r.st = d.State()
				}
				r.ret = sim.Tick()
				c.count("read_" + o.K)
				if err != nil {
					c.bad("P02", "save-failed", "%v", err)
					return
				}
				sim.Quiet(true)
				switch {
				case r.st != nil:
					r.dig = digest(r.st)
				default:
					x := r.snap
					if r.bytes != nil {
						x = new(pb.Snapshot)
						if err := proto.Unmarshal(r.bytes, x); err != nil {
							c.bad("P02", "undecodable", "%v", err)
							return
						}
						r.snap = x
					}
					b, _ := detMarshal.Marshal(canonSnapshot(x))
					r.dig = digestBytes(b)
				}
				sim.Quiet(false)
				reads = append(reads, r)
				c.Work++
				for k := int64(0); k < o.arg(0)%4; k++ {
					sim.ForceYield()
				}
			}
		}))
	}
	for _, t := range cl {
		sim.Join(t)
	}
	sim.Quiet(true)
	s.unasked(d)
	for i, r := range reads {
		isState := r.st != nil
		prop := "P02"
		if isState {
			prop = "G07"
		}
		hit := -1
		var near []string
		for k, v := range vs {
			if v.from > r.ret || k+1 < len(vs) && vs[k+1].to < r.call {
				continue
			}
			near = append(near, v.what)
			if isState && v.st == r.dig || !isState && v.snap == r.dig {
				hit = k
				break
			}
		}
		if hit < 0 {
			c.bad(prop, "never-real", "a %s is none of the states the tracker had at the time (after %v)", r.kind, near)
			return
		}
		// not changed afterwards
		if isState {
			if digest(r.st) != r.dig {
				c.bad("G07", "changed-later", "a state handed out changed later on")
			}
			continue
		}
		b, _ := detMarshal.Marshal(canonSnapshot(r.snap))
		if digestBytes(b) != r.dig {
			c.bad("P02", "changed-later", "a snapshot changed later on")
			continue
		}
		if i > 6 {
			continue
		}
		// can be restored to that state
		e := s.target(i*7 + 1)
		if err := e.FromSnapshot(r.snap); err != nil {
			c.bad("P02", "load-failed", "a snapshot of a live tracker cannot be loaded: %v", err)
			continue
		}
		b, _ = detMarshal.Marshal(canonSnapshot(e.Snapshot()))
		if digestBytes(b) != r.dig {
			c.bad("P02", "load-differs", "a tracker loaded from a snapshot is another one")
		}
		if x := digest(e.State()); x != vs[hit].st && !vs[hit].fresh {
			c.bad("P02", "load-state", "a tracker loaded from a snapshot publishes another state than the original did: %v", e.State())
		}
		e.Next(1)
		if digest(r.snap) == 0 || digestBytes(mustDet(canonSnapshot(r.snap))) != r.dig {
			c.bad("P02", "shared", "a tracker loaded from a snapshot shares data with it")
		}
	}
}

// unasked edits the tracker's routes directly and saves it before it has
// noticed: that must not make it notice.
func (s *snapRun) unasked(d *gpsgen.Device) {
	rts := d.Routes()
	if len(rts) == 0 || len(s.c.V) > 0 {
		return
	}
	rt := rts[s.seed%uint64(len(rts))]
	if k := rt.NumTracks(); k > 1 && s.seed/8%2 == 0 {
		rt.RemoveTrack(rt.TrackAt(int(s.seed / 16 % uint64(k))).ID())
	} else {
		r := s.route(s.seed % 1000)
		for j := 0; j < r.NumTracks(); j++ {
			rt.AddTrack(r.TrackAt(j))
		}
	}
	place := func() string {
		return fmt.Sprint(d.RouteIndex(), d.TrackIndex(), d.SegmentIndex(), d.Location(), d.CurrentDistance(), d.CurrentRouteDistance(),
			d.CurrentTrackDistance(), d.CurrentSegmentDistance(), d.Distance(), d.Version(), digest(d.State()))
	}
	was := place()
	snap := d.Snapshot()
	if _, err := d.MarshalBinary(); err != nil && s.seed%2 == 0 {
		return
	}
	if now := place(); now != was {
		s.c.bad("P02", "taking-alters", "saving a tracker whose routes had been edited changed it from %s to %s", was, now)
	}
	s.c.count("saved_unnoticed")
	e := new(gpsgen.Device)
	if err := e.FromSnapshot(snap); err != nil {
		s.c.bad("P02", "load-failed", "a tracker saved after an edit of its routes cannot be loaded: %v", err)
	}
}

func mustDet(m proto.Message) []byte {
	b, _ := detMarshal.Marshal(m)
	return b
}
