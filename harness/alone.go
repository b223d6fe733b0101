package main

import (
	"fmt"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"gpsverif/sim"
)

// The alone scenario gives each of several trackers a goroutine of its own,
// next to a running generator with others, and overwrites what they were
// given and what they handed out. Afterwards each history is repeated by a
// tracker that is alone, with the same draws: it has to be the same (D07).

func init() {
	scenarios["alone"] = &Scenario{Gen: genAlone, Run: runAlone}
	propScn["D07"] = append(propScn["D07"], weighted{"alone", 10})
}

func genAlone(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config) {
	cfg := map[string]int{"seed": r.Intn(1 << 30), "routes": r.Intn(3), "shape": r.Intn(numShapes + 3), "battery": r.Intn(4),
		"sensors": r.Intn(3), "kind": r.Intn(12), "scale": r.Intn(3), "gen": pick(r, 0, 0, 1), "twins": pick(r, 0, 0, 0, 1), "alike": pick(r, 0, 0, 1)}
	enlarge(r, cfg)
	p := Plan{Cfg: cfg}
	kinds := append([]string{}, snapKinds...)
	kinds = append(kinds, "given", "given", "given", "taken", "taken", "taken", "text", "formats", "formats", "sleep")
	for i := pick(r, 1, 2, 2, 3, 4); i > 0; i-- {
		var ops []Op
		for k := r.Range(2, 10); k > 0; k-- {
			ops = append(ops, Op{K: kinds[r.Intn(len(kinds))], A: []int64{int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20))}})
		}
		p.Clients = append(p.Clients, ops)
	}
	sc := swarm(r, swarmOpt{maxSteps: 20_000_000, est: 20000, noFaults: true})
	if sc.MeanQuantum > 200 {
		sc.MeanQuantum = pick(r, 3, 10, 50, 200)
	}
	return p, sc
}

type single struct {
	snapRun
	d     *gpsgen.Device
	draws *sim.Stream
	spoil bool
	faces [][]string
	res   []string
}

type alone struct {
	c *Ctx
}

func runAlone(c *Ctx) {
	a := &alone{c}
	c.state = a
	sim.Quiet(true)
	n := len(c.P.Clients)
	o := gpsgen.NewDeviceOptions()
	var crowd, lone []*single
	for i := 0; i < n; i++ {
		s := a.newSingle(i, o, true)
		crowd = append(crowd, s)
	}
	var g *gpsgen.Generator
	var run *sim.Thread
	if c.cfg("gen") > 0 {
		g = gpsgen.New(&gpsgen.Options{Interval: time.Second, PacketSize: 1024, NumWorkers: 2})
		for i := 0; i < 2; i++ {
			o := devOptions(sim.NewStream(uint64(c.cfg("seed")), "noise"))
			o.ID = fmt.Sprint("noise", i)
			d := mustDevice(o)
			d.AddRoute(newRoute(shMulti, mix(uint64(c.cfg("seed")), uint64(i), 99)))
			g.Attach(d)
		}
		g.OnPacket(func([]byte) {})
		run = sim.Go("run", g.Run)
	}
	sim.Quiet(false)
	var th []*sim.Thread
	for i, s := range crowd {
		i, s := i, s
		th = append(th, sim.Go(fmt.Sprint("tracker", i), func() { s.live(c.P.Clients[i]) }))
	}
	for _, t := range th {
		sim.Join(t)
	}
	sim.Quiet(true)
	if g != nil {
		g.Close()
		sim.JoinFor(run, 20e9)
	}
	for i, s := range crowd {
		l := a.newSingle(i, gpsgen.NewDeviceOptions(), false)
		lone = append(lone, l)
		l.live(c.P.Clients[i])
		for k := range l.faces {
			what := "after it was built"
			if k > 0 {
				what = "after " + c.P.Clients[i][k-1].K
			}
			if k > 0 && l.res[k-1] != s.res[k-1] {
				c.bad("D07", "result-"+c.P.Clients[i][k-1].K, "%s returned %s on a tracker that is alone and %s among others", c.P.Clients[i][k-1].K, cut(l.res[k-1]), cut(s.res[k-1]))
				return
			}
			if f, m := portraitDiff(l.faces[k], s.faces[k]); f != "" {
				c.bad("D07", "influenced-"+f, "%s a tracker is not what it is when it is alone: %s", what, m)
				return
			}
		}
		// and nothing later either
		if f, m := portraitDiff(l.faces[len(l.faces)-1], portrait(s.d)); f != "" {
			c.bad("D07", "later-"+f, "a tracker changed while others were used: %s", m)
			return
		}
		c.Work += len(l.faces)
	}
}

func cut(s string) string {
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// newSingle builds a tracker with draws of its own. With spoil, what it was
// built from is overwritten at once.
func (a *alone) newSingle(i int, o *gpsgen.DeviceOptions, spoil bool) *single {
	c := a.c
	k := uint64(i)
	if c.cfg("twins") > 0 {
		k /= 2
	}
	s := &single{spoil: spoil}
	s.c, s.shape = c, c.cfg("shape")
	s.seed = mix(uint64(c.cfg("seed")), k)
	s.scale = []float64{1, 30, 1000}[c.clamp("scale", 0, 2)]
	r := sim.NewStream(s.seed, "alone")
	s.draws = sim.NewStream(s.seed, "draws")
	sim.OwnDraws(s.draws)
	defer sim.OwnDraws(nil)
	switch c.cfg("kind") {
	case 0:
		s.d = gpsgen.NewTracker()
	case 1:
		s.d = gpsgen.NewAnimalTracker()
	case 2:
		s.d = gpsgen.NewDroneTracker()
	case 3:
		s.d = gpsgen.NewKidsTracker()
	case 4:
		s.d = gpsgen.NewBicycleTracker()
	default:
		x := devOptions(r)
		id := o.ID
		*o = *x
		o.ID, o.Color, o.Model = id, "", "" // left to the library
		s.d = mustDevice(o)
		if o.ID != id || o.Color != "" || o.Model != "" {
			c.bad("D07", "options-altered", "building a tracker altered the options it was given: identity %q, colour %q, model %q", o.ID, o.Color, o.Model)
		}
		if spoil {
			*o = gpsgen.DeviceOptions{}
		}
	}
	for j := 0; j < c.clamp("sensors", 0, 40); j++ {
		s.d.AddSensor(newSensor(r, fmt.Sprint("s", j)))
	}
	for j := 0; j < c.clamp("routes", 0, 20); j++ {
		rt := s.route(uint64(j))
		if c.cfg("alike") > 0 { // properties that all have
			rt.Props().Set("kind", "walk")
			rt.EachTrack(func(_ int, t *navigator.Track) bool { t.Props().Set("kind", "walk"); return true })
		}
		s.d.AddRoute(rt)
	}
	if c.cfg("alike") > 0 && r.Intn(2) == 0 { // a tracker that was loaded
		b, err := s.d.MarshalBinary()
		if err == nil {
			err = s.d.UnmarshalBinary(b)
		}
		if err != nil {
			c.bad("D07", "load", "a new tracker cannot be loaded from its own snapshot: %v", err)
		}
	}
	return s
}

func (s *single) live(ops []Op) {
	sim.OwnDraws(s.draws)
	defer sim.OwnDraws(nil)
	s.faces = append(s.faces, portrait(s.d))
	for _, o := range ops {
		s.c.count("op_" + o.K)
		res := ""
		switch o.K {
		case "given":
			res = s.given(o)
		case "taken":
			s.taken(o)
		case "formats":
			res = s.formats(o)
		case "text":
			res = fmt.Sprint(len(s.d.State().String()) > 0, sensorsText(s.d))
		case "sleep":
			if s.spoil {
				sim.Sleep(time.Duration(o.arg(0)%3000) * time.Millisecond)
			}
		default:
			res = s.do(s.d, o, 0)
		}
		s.extra++
		s.res = append(s.res, res)
		s.faces = append(s.faces, portrait(s.d))
	}
}

func sensorsText(d *gpsgen.Device) string {
	x := ""
	for _, s := range d.Sensors() {
		x += s.String() + "\n"
	}
	return x
}

// given hands something to the tracker and overwrites it afterwards.
func (s *single) given(o Op) string {
	d := s.d
	r := sim.NewStream(mix(s.seed, uint64(s.extra)), "given")
	switch o.arg(0) % 6 {
	case 0: // a list of points
		pts := trackPoints(r, pick(r, shSingle, shMulti, shRepeat))
		t := mustTrack(pts)
		rt := navigator.NewRoute()
		rt.AddTrack(t)
		if d.NumRoutes() < 5 {
			d.AddRoute(rt)
		}
		if s.spoil {
			for i := range pts {
				pts[i] = geo.LatLonPoint{Lat: 1, Lon: 2}
			}
		}
	case 1: // a snapshot
		x := d.Snapshot()
		if err := d.FromSnapshot(x); err != nil {
			return err.Error()
		}
		if s.spoil {
			scribble(x.ProtoReflect())
		}
	case 2: // an encoding
		b, err := d.MarshalBinary()
		if err != nil {
			return err.Error()
		}
		if err := d.UnmarshalBinary(b); err != nil {
			return err.Error()
		}
		if s.spoil {
			spoilBytes(b)
		}
	case 3: // lists of routes and sensors
		rs := d.Routes()
		ss := d.Sensors()
		d.ResetRoutes()
		d.ResetSensors()
		if len(rs) > 0 {
			d.AddRoute(rs...)
		}
		d.AddSensor(ss...)
		if s.spoil {
			clear(rs)
			clear(ss)
		}
	case 4: // encoded routes
		rs := d.Routes()
		if len(rs) == 0 {
			return ""
		}
		b, err := gpsgen.EncodeRoutes(rs)
		if err == nil {
			rs, err = gpsgen.DecodeRoutes(b)
		}
		if err != nil {
			return err.Error()
		}
		d.ResetRoutes()
		d.AddRoute(rs...)
		if s.spoil {
			spoilBytes(b)
			clear(rs)
		}
	case 5: // a snapshot of a sensor
		if d.NumSensors() == 0 {
			return ""
		}
		x := d.SensorAt(o.idx(1, d.NumSensors()))
		y := new(types.Sensor)
		sn := x.Snapshot()
		if err := y.FromSnapshot(sn); err != nil {
			return err.Error()
		}
		d.RemoveSensor(x.ID())
		d.AddSensor(y)
		if s.spoil {
			scribble(sn.ProtoReflect())
		}
	}
	return ""
}

// taken overwrites what the tracker hands out.
func (s *single) taken(o Op) {
	d := s.d
	st, sn := d.State(), d.Snapshot()
	b, _ := d.MarshalBinary()
	rs, ss := d.Routes(), d.Sensors()
	var parts []proto.Message
	for _, r := range rs {
		parts = append(parts, r.Snapshot())
	}
	for _, x := range ss {
		parts = append(parts, x.Snapshot())
	}
	if !s.spoil {
		return
	}
	scribble(st.ProtoReflect())
	scribble(sn.ProtoReflect())
	for _, p := range parts {
		scribble(p.ProtoReflect())
	}
	spoilBytes(b)
	clear(rs)
	clear(ss)
}

// formats writes and reads all forms; the results are only compared.
func (s *single) formats(o Op) string {
	d := s.d
	rs := d.Routes()
	if len(rs) == 0 {
		return ""
	}
	b1, e1 := gpsgen.EncodeRoutes(rs)
	b2, e2 := gpsgen.EncodeGeoJSONRoutes(rs)
	b3, e3 := gpsgen.EncodeGPXRoutes(rs)
	p, e4 := proto.Marshal(&pb.Packet{Devices: []*pb.Device{d.State()}})
	res := fmt.Sprint(e1, e2, e3, e4)
	if e1 == nil {
		x, err := gpsgen.DecodeRoutes(b1)
		res += fmt.Sprint(err, routesText(x))
	}
	if e2 == nil {
		x, err := gpsgen.DecodeGeoJSONRoutes(b2)
		res += fmt.Sprint(err, routesText(x))
	}
	if e3 == nil {
		x, err := gpsgen.DecodeGPXRoutes(b3)
		res += fmt.Sprint(err, routesText(x))
	}
	if e4 == nil {
		x, err := gpsgen.PacketFromBytes(p)
		res += fmt.Sprint(err)
		if err == nil && len(x.Devices) == 1 {
			res += fmt.Sprint(digest(x.Devices[0]) == digest(d.State()))
		}
		if s.spoil {
			spoilBytes(p)
			scribble(x.ProtoReflect())
		}
	}
	return res
}

func routesText(rs []*navigator.Route) string {
	x := ""
	for _, r := range rs {
		for _, l := range routePortrait(r) {
			x += l + "\n"
		}
	}
	return x
}

func spoilBytes(b []byte) {
	for i := range b {
		b[i] ^= 0x55
	}
}

// scribble overwrites every part of a message in place.
func scribble(m protoreflect.Message) {
	if !m.IsValid() {
		return
	}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if !m.Has(f) || f.IsMap() {
			continue
		}
		switch {
		case f.IsList():
			l := m.Mutable(f).List()
			for k := 0; k < l.Len(); k++ {
				if f.Kind() == protoreflect.MessageKind {
					scribble(l.Get(k).Message())
				} else if v, ok := scribbled(f, l.Get(k)); ok {
					l.Set(k, v)
				}
			}
		case f.Kind() == protoreflect.MessageKind:
			scribble(m.Mutable(f).Message())
		default:
			if v, ok := scribbled(f, m.Get(f)); ok {
				m.Set(f, v)
			}
		}
	}
}

func scribbled(f protoreflect.FieldDescriptor, v protoreflect.Value) (protoreflect.Value, bool) {
	switch f.Kind() {
	case protoreflect.BytesKind:
		spoilBytes(v.Bytes())
	case protoreflect.StringKind:
		return protoreflect.ValueOfString("overwritten"), true
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(v.Float() + 1.5), true
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(v.Float() + 1.5)), true
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(!v.Bool()), true
	case protoreflect.Int64Kind:
		return protoreflect.ValueOfInt64(v.Int() + 1), true
	case protoreflect.Int32Kind:
		return protoreflect.ValueOfInt32(int32(v.Int() + 1)), true
	}
	return v, false
}
