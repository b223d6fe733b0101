package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"gpsverif/sim"
)

// The damage scenario stores trackers, routes, sensors and packets, lets
// storage faults damage them, loads them and uses whatever was loaded (P03,
// P04).

func init() {
	scenarios["damage"] = &Scenario{Gen: genDamage, Run: runDamage}
	propScn["P03"] = append(propScn["P03"], weighted{"damage", 10})
	propScn["P04"] = append(propScn["P04"], weighted{"damage", 10})
}

func genDamage(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config) {
	cfg := map[string]int{"seed": r.Intn(1 << 30), "routes": r.Intn(4), "shape": r.Intn(numShapes + 3), "battery": r.Intn(4),
		"sensors": r.Intn(4), "kind": r.Intn(8), "scale": r.Intn(3), "gen": pick(r, 0, 0, 0, 0, 1)}
	enlarge(r, cfg)
	p := Plan{Cfg: cfg}
	var ops []Op
	for k := 0; k < r.Range(1, 8); k++ {
		ops = append(ops, Op{K: pick(r, "tick", "ticks", "jump", "moveS", "sensor", "rprops", "tname", "rname", "offline", "addR", "rmT", "rmTd"), A: []int64{int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20))}})
	}
	what := []string{"tracker"}
	if prop == "P04" {
		what = []string{"binary", "geojson", "gpx", "sensors", "packet"}
	}
	for k := 0; k < r.Range(2, 10); k++ {
		ops = append(ops, Op{K: "damage", S: what[r.Intn(len(what))], A: []int64{int64(r.Intn(1 << 30)), int64(r.Intn(4))}})
	}
	p.Clients = [][]Op{ops}
	sc := swarm(r, swarmOpt{maxSteps: 20_000_000, est: 3000, noFaults: true})
	sc.MapOrder = r.Intn(2) == 0
	return p, sc
}

func runDamage(c *Ctx) {
	s := &snapRun{prop: c.Case.Prop}
	c.state = s
	s.setup(c, "damage")
	d := s.all[0].d
	r0 := sim.NewStream(s.seed, "old")
	old := d
	if r0.Intn(2) == 0 {
		old = s.target(4*r0.Intn(1000) + 2)
	}
	oldSnap := old.Snapshot()
	oldRoutes := old.Routes()
	oldSensors := old.Sensors()
	for _, o := range c.P.Clients[0] {
		c.count("op_" + o.K)
		if o.K != "damage" {
			s.do(d, o, 0)
			s.extra++
			continue
		}
		r := sim.NewStream(mix(s.seed, uint64(o.arg(0))), "damage")
		n := 1
		if o.arg(1) == 3 {
			n = 1 + r.Intn(3)
		}
		c.count("damaged_" + o.S)
		switch o.S {
		case "tracker":
			s.damagedTracker(d, oldSnap, r, n)
		default:
			s.damagedParts(o.S, d, oldRoutes, oldSensors, oldSnap, r, n)
		}
		c.Work++
		if len(c.V) > 0 {
			return
		}
	}
}

func (s *snapRun) damagedTracker(d *gpsgen.Device, old *pb.Snapshot, r *sim.Stream, n int) {
	c := s.c
	var b []byte
	if r.Intn(2) == 0 {
		x := d.Snapshot()
		for ; n > 0; n-- {
			damageMessage(c, r, x.ProtoReflect())
		}
		b, _ = proto.Marshal(x)
		if b == nil {
			return
		}
	} else {
		b, _ = d.MarshalBinary()
		ob, _ := proto.Marshal(old)
		for ; n > 0; n-- {
			b = damage(c, r, b, ob)
		}
	}
	var e *gpsgen.Device
	var err error
	var before []string
	switch r.Intn(4) {
	case 0:
		e, err = gpsgen.DecodeTracker(b)
		if err == nil && e == nil {
			c.bad("P03", "nil-tracker", "neither a tracker nor an error")
			return
		}
		if err != nil {
			c.count("load_refused")
			return
		}
	case 1:
		e = new(gpsgen.Device)
		if err = e.UnmarshalBinary(b); err != nil {
			c.count("load_refused")
			return
		}
	default:
		e = s.target(4*r.Intn(1000) + 1 + r.Intn(3))
		before = portrait(e)
		if r.Intn(2) == 0 {
			err = e.UnmarshalBinary(b)
		} else {
			x := new(pb.Snapshot)
			if proto.Unmarshal(b, x) != nil {
				return
			}
			err = e.FromSnapshot(x)
		}
		if err != nil {
			c.count("load_refused")
			if l, m := portraitDiff(before, portrait(e)); l != "" {
				c.bad("P03", "failed-load-changed-"+l, "loading damaged data failed (%v) but changed the tracker: %s", err, m)
				return
			}
		}
	}
	c.count("load_used")
	// saving it again
	x, err2 := e.MarshalBinary()
	if err2 != nil {
		c.bad("P03", "unsavable", "a tracker loaded from damaged data cannot be saved: %v", err2)
		return
	}
	if _, err2 = gpsgen.DecodeTracker(x); err2 != nil {
		c.bad("P03", "unloadable", "a tracker loaded from damaged data was saved but cannot be loaded again: %v", err2)
		return
	}
	s.use(e, r, "P03")
}

// use performs all operations of a tracker.
func (s *snapRun) use(d *gpsgen.Device, r *sim.Stream, prop string) {
	c := s.c
	kinds := append([]string{}, snapKinds...)
	for i := len(kinds) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		kinds[i], kinds[j] = kinds[j], kinds[i]
	}
	d.Next(1)
	d.Next(s.secs(int64(r.Intn(8000))))
	portrait(d)
	encode := func() {
		if _, err := proto.Marshal(d.State()); err != nil {
			c.bad(prop, "unpublishable", "the state cannot be encoded: %v", err)
		}
		if _, err := d.MarshalBinary(); err != nil {
			c.bad(prop, "unsavable", "the tracker cannot be saved: %v", err)
		}
	}
	encode()
	for _, k := range kinds[:r.Range(8, len(kinds))] {
		s.do(d, Op{K: k, A: []int64{int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20))}}, 1)
		s.extra++
	}
	portrait(d)
	encode()
	if c.cfg("gen") == 0 || sim.Steps() > 10_000_000 {
		return
	}
	// published beside a sound one
	c.count("published")
	g := gpsgen.New(&gpsgen.Options{Interval: time.Second, PacketSize: 1024, NumWorkers: 1})
	sound := gpsgen.NewTracker()
	sound.AddRoute(newRoute(shLong, 1))
	seen := map[string]int{}
	g.OnPacket(func(b []byte) {
		p, err := gpsgen.PacketFromBytes(b)
		if err != nil {
			return
		}
		for _, x := range p.Devices {
			seen[x.Id]++
		}
	})
	var errs []error
	g.OnError(func(err error) { errs = append(errs, err) })
	g.Attach(sound)
	if err := g.Attach(d); err != nil && d.ID() != sound.ID() {
		c.bad(prop, "unattachable", "the tracker cannot be attached: %v", err)
	}
	t := sim.Go("run", g.Run)
	sim.Sleep(3500 * time.Millisecond)
	g.Close()
	if !sim.JoinFor(t, 20e9) {
		c.bad(prop, "run-stuck", "a generator with the tracker does not stop")
	}
	if seen[sound.ID()] < 3 || seen[d.ID()] < 3 {
		c.bad(prop, "unpublished", "in 3 ticks a sound tracker was published %d times, the loaded one %d times; errors %v", seen[sound.ID()], seen[d.ID()], errs)
	}
}

// damageMessage changes one part somewhere in a message.
func damageMessage(c *Ctx, r *sim.Stream, m protoreflect.Message) {
	// go down at random
	for depth := 0; depth < 12; depth++ {
		var subs []protoreflect.FieldDescriptor
		m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			if f.Kind() == protoreflect.MessageKind && (!f.IsList() || v.List().Len() > 0) {
				subs = append(subs, f)
			}
			return true
		})
		sortFields(subs)
		if len(subs) == 0 || r.Intn(3) == 0 {
			break
		}
		f := subs[r.Intn(len(subs))]
		v := m.Get(f)
		if f.IsList() {
			m = v.List().Get(r.Intn(v.List().Len())).Message()
		} else {
			m = v.Message()
		}
	}
	var fs []protoreflect.FieldDescriptor
	for i := 0; i < m.Descriptor().Fields().Len(); i++ {
		fs = append(fs, m.Descriptor().Fields().Get(i))
	}
	if len(fs) == 0 {
		return
	}
	f := fs[r.Intn(len(fs))]
	c.count("damage_field")
	if f.IsList() {
		l := m.Mutable(f).List()
		n := l.Len()
		if n == 0 {
			if f.Kind() == protoreflect.MessageKind && r.Intn(2) == 0 {
				l.Append(l.NewElement())
			}
			return
		}
		i, j := r.Intn(n), r.Intn(n)
		switch r.Intn(4) {
		case 0: // a part is missing
			for k := i; k+1 < n; k++ {
				l.Set(k, l.Get(k+1))
			}
			l.Truncate(n - 1)
		case 1: // repeated
			if f.Kind() == protoreflect.MessageKind {
				l.Append(protoreflect.ValueOfMessage(proto.Clone(l.Get(i).Message().Interface()).ProtoReflect()))
			} else {
				l.Append(l.Get(i))
			}
		case 2: // out of order
			a, b := l.Get(i), l.Get(j)
			l.Set(i, b)
			l.Set(j, a)
		default:
			l.Truncate(i)
		}
		return
	}
	if r.Intn(3) == 0 {
		m.Clear(f)
		return
	}
	switch f.Kind() {
	case protoreflect.MessageKind:
		if r.Intn(2) == 0 {
			m.Set(f, m.NewField(f)) // present but empty
		} else {
			m.Clear(f)
		}
	case protoreflect.DoubleKind:
		m.Set(f, protoreflect.ValueOfFloat64(oddFloat(r, m.Get(f).Float())))
	case protoreflect.FloatKind:
		m.Set(f, protoreflect.ValueOfFloat32(float32(oddFloat(r, m.Get(f).Float()))))
	case protoreflect.Int64Kind:
		m.Set(f, protoreflect.ValueOfInt64(oddInt(r, m.Get(f).Int())))
	case protoreflect.Int32Kind:
		m.Set(f, protoreflect.ValueOfInt32(int32(oddInt(r, m.Get(f).Int()))))
	case protoreflect.BoolKind:
		m.Set(f, protoreflect.ValueOfBool(!m.Get(f).Bool()))
	case protoreflect.StringKind:
		x := m.Get(f).String()
		m.Set(f, protoreflect.ValueOfString(pick(r, "", x+x, "\x00", x[:len(x)/2], "ü")))
	case protoreflect.BytesKind:
		x := m.Get(f).Bytes()
		m.Set(f, protoreflect.ValueOfBytes([]byte(pick(r, "", "null", "{}", "[]", "{\"a\":null}", "{\"a\":", string(x)+string(x), "7"))))
	}
}

func sortFields(l []protoreflect.FieldDescriptor) {
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j].Number() < l[i].Number() {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
}

func oddFloat(r *sim.Stream, v float64) float64 {
	switch r.Intn(8) {
	case 0:
		return -v
	case 1:
		return pick(r, math.NaN(), math.Inf(1), math.Inf(-1))
	case 2:
		return pick(r, 1e308, -1e308, 1e18, 5e-324, 1e-300)
	case 3:
		return v * pick(r, 0.5, 2, 1e6, 1e-6)
	case 4:
		return 0
	}
	return math.Float64frombits(math.Float64bits(v) ^ 1<<r.Intn(64))
}

func oddInt(r *sim.Stream, v int64) int64 {
	switch r.Intn(5) {
	case 0:
		return -v - 1
	case 1:
		return pick(r, int64(math.MaxInt64), math.MinInt64, math.MaxInt32+1, 1<<32, 1<<53)
	case 2:
		return v + pick[int64](r, 1, -1, 2, 100)
	}
	return v ^ 1<<r.Intn(64)
}

func (s *snapRun) damagedParts(what string, d *gpsgen.Device, oldR []*navigator.Route, oldS []*types.Sensor, oldSnap *pb.Snapshot, r *sim.Stream, n int) {
	c := s.c
	rs := d.Routes()
	if len(rs) == 0 {
		rs = []*navigator.Route{s.route(uint64(s.extra) + 500)}
		s.extra++
	}
	spoil := func(b, o []byte) []byte {
		for ; n > 0; n-- {
			b = damage(c, r, b, o)
		}
		return b
	}
	switch what {
	case "binary":
		b, err := gpsgen.EncodeRoutes(rs)
		if err != nil {
			return
		}
		if r.Intn(2) == 0 {
			x := new(pb.Snapshot_Navigator_Routes)
			proto.Unmarshal(b, x)
			for k := 0; k < n; k++ {
				damageMessage(c, r, x.ProtoReflect())
			}
			b, _ = proto.Marshal(x)
		} else {
			o, _ := gpsgen.EncodeRoutes(oldR)
			b = spoil(b, o)
		}
		x, err := gpsgen.DecodeRoutes(b)
		s.travel(x, err, r, what)
	case "geojson":
		b, err := gpsgen.EncodeGeoJSONRoutes(rs)
		if r.Intn(3) == 0 {
			// as another program writes it
			c.count("foreign_documents")
			b, err = foreignGeoJSON(r), nil
			n -= r.Intn(2)
		}
		if err != nil {
			return
		}
		if r.Intn(2) == 0 {
			b = damageJSON(c, r, b, n)
		} else {
			o, _ := gpsgen.EncodeGeoJSONRoutes(oldR)
			b = spoil(b, o)
		}
		x, err := gpsgen.DecodeGeoJSONRoutes(b)
		s.travel(x, err, r, what)
	case "gpx":
		b, err := gpsgen.EncodeGPXRoutes(rs)
		if r.Intn(3) == 0 {
			// as another program writes it
			c.count("foreign_documents")
			b, err = foreignGPX(r), nil
			n -= r.Intn(2)
		}
		if err != nil {
			return
		}
		if r.Intn(2) == 0 {
			b = damageXML(c, r, b, n)
		} else {
			o, _ := gpsgen.EncodeGPXRoutes(oldR)
			b = spoil(b, o)
		}
		x, err := gpsgen.DecodeGPXRoutes(b)
		s.travel(x, err, r, what)
	case "sensors":
		ss := d.Sensors()
		if len(ss) == 0 {
			ss = []*types.Sensor{newSensor(r, "one"), newSensor(r, "two")}
		}
		b, err := gpsgen.EncodeSensors(ss)
		if err != nil {
			return
		}
		if r.Intn(2) == 0 {
			x := new(pb.Snapshot_Sensors)
			proto.Unmarshal(b, x)
			for k := 0; k < n; k++ {
				damageMessage(c, r, x.ProtoReflect())
			}
			b, _ = proto.Marshal(x)
		} else {
			o, _ := gpsgen.EncodeSensors(oldS)
			b = spoil(b, o)
		}
		x, err := gpsgen.DecodeSensors(b)
		if err != nil {
			c.count("load_refused")
			return
		}
		c.count("load_used")
		e := s.target(4*r.Intn(1000) + 2)
		for _, q := range x {
			if q == nil {
				c.bad("P04", "nil-sensor", "decoding sensors yields nil")
				return
			}
			sensorPortrait(q)
		}
		e.AddSensor(x...)
		for _, q := range x {
			y, ok := e.SensorByID(q.ID())
			if len(q.ID()) > 0 && (!ok || y == nil) {
				c.bad("P04", "sensor-unusable", "a loaded sensor %q cannot be added", q.ID())
			}
		}
		s.use(e, r, "P04")
	case "packet":
		p := &pb.Packet{Timestamp: 12345, Devices: []*pb.Device{d.State(), s.target(4*r.Intn(1000) + 2).State()}}
		b, err := proto.Marshal(p)
		if err != nil {
			return
		}
		if r.Intn(2) == 0 {
			for k := 0; k < n; k++ {
				damageMessage(c, r, p.ProtoReflect())
			}
			b, _ = proto.Marshal(p)
		} else {
			e := new(gpsgen.Device)
			e.FromSnapshot(proto.Clone(oldSnap).(*pb.Snapshot))
			o, _ := proto.Marshal(&pb.Packet{Devices: []*pb.Device{e.State()}})
			b = spoil(b, o)
		}
		q, err := gpsgen.PacketFromBytes(b)
		if err != nil {
			c.count("load_refused")
			return
		}
		if q == nil {
			c.bad("P04", "nil-packet", "neither a packet nor an error")
			return
		}
		c.count("load_used")
		for _, x := range q.Devices {
			recCheck(x)
			x.GetNavigator().GetCurrentRouteId()
			_ = x.String()
		}
		if _, err := proto.Marshal(q); err != nil {
			c.bad("P04", "packet-unusable", "a packet that was decoded cannot be encoded: %v", err)
		}
	}
}

// travel gives loaded routes to a tracker and lets it travel them.
func (s *snapRun) travel(rs []*navigator.Route, err error, r *sim.Stream, what string) {
	c := s.c
	if err != nil {
		c.count("load_refused")
		return
	}
	c.count("load_used")
	for _, x := range rs {
		if x == nil {
			c.bad("P04", "nil-route", "decoding %s routes yields nil", what)
			return
		}
		routePortrait(x)
	}
	d := s.target(1)
	if len(rs) > 0 {
		if err := d.AddRoute(rs...); err != nil {
			c.bad("P04", "route-unusable", "a tracker refuses loaded routes: %v", err)
			return
		}
	}
	for _, x := range rs {
		if y := d.Routes(); len(x.ID()) > 0 && len(y) == 0 {
			c.bad("P04", "route-unusable", "loaded routes are not added")
		}
	}
	for k := 0; k < 12; k++ {
		d.Next(float64(k*k*k) + 1)
		if st := d.State(); bad(st.Location.Lat) || bad(st.Location.Lon) || bad(st.Distance.Distance) || bad(st.Distance.CurrentDistance) {
			c.bad("P04", "not-a-place", "on %s routes loaded from damaged data the tracker is at %v with distances %v", what, st.Location, st.Distance)
			return
		}
	}
	d.DestinationTo(d.Distance() * r.Float64())
	gpsgen.EncodeRoutes(rs)
	gpsgen.EncodeGeoJSONRoutes(rs)
	gpsgen.EncodeGPXRoutes(rs)
	s.use(d, r, "P04")
}

func bad(v float64) bool { return math.IsNaN(v) || math.IsInf(v, 0) }

// damageJSON changes parts of a document.
func damageJSON(c *Ctx, r *sim.Stream, b []byte, n int) []byte {
	var x interface{}
	if json.Unmarshal(b, &x) != nil {
		return b
	}
	odd := func(v interface{}) interface{} {
		c.count("damage_json_part")
		switch r.Intn(9) {
		case 0:
			return nil
		case 1:
			return []interface{}{}
		case 2:
			return map[string]interface{}{}
		case 3:
			return pick(r, "x", "", "null", "Feature", "LineString", "GeometryCollection", "MultiPolygon", "Point")
		case 4:
			return pick(r, 0.0, -1.0, 1e300, 91.5, 1e9)
		case 5:
			return []interface{}{v, v}
		case 6:
			return []interface{}{nil}
		case 7:
			return true
		}
		return []interface{}{v}
	}
	var walk func(v interface{}, depth int) interface{}
	walk = func(v interface{}, depth int) interface{} {
		if r.Intn(5) == 0 && depth > 0 {
			return odd(v)
		}
		switch m := v.(type) {
		case map[string]interface{}:
			if len(m) == 0 {
				return odd(v)
			}
			ks := sortedKeys(m)
			k := ks[r.Intn(len(ks))]
			switch r.Intn(6) {
			case 0:
				delete(m, k)
				c.count("damage_json_missing")
			case 1:
				m[k] = m[ks[r.Intn(len(ks))]]
				c.count("damage_json_mixed")
			default:
				m[k] = walk(m[k], depth+1)
			}
			return m
		case []interface{}:
			if len(m) == 0 {
				return odd(v)
			}
			i := r.Intn(len(m))
			switch r.Intn(6) {
			case 0:
				c.count("damage_json_missing")
				return append(m[:i:i], m[i+1:]...)
			case 1:
				c.count("damage_json_repeated")
				return append(m, m[i])
			}
			m[i] = walk(m[i], depth+1)
			return m
		}
		return odd(v)
	}
	for ; n > 0; n-- {
		x = walk(x, 0)
	}
	b, err := json.Marshal(x)
	if err != nil {
		return []byte("null")
	}
	return b
}

// damageXML changes one number, tag or attribute at a time.
func damageXML(c *Ctx, r *sim.Stream, b []byte, n int) []byte {
	for ; n > 0; n-- {
		var cuts []int // starts of tags and values
		for i, x := range b {
			if x == '<' || x == '"' || x == '>' {
				cuts = append(cuts, i)
			}
		}
		if len(cuts) < 4 {
			return b
		}
		k := r.Intn(len(cuts) - 3)
		i, j := cuts[k], cuts[k+1+r.Intn(3)]
		c.count("damage_xml_part")
		mid := []byte{}
		switch r.Intn(6) {
		case 0: // part missing
		case 1: // a whole line missing
			for i > 0 && b[i] != '\n' {
				i--
			}
			for j < len(b)-1 && b[j] != '\n' {
				j++
			}
		case 2: // a whole line repeated
			for i > 0 && b[i] != '\n' {
				i--
			}
			for j < len(b)-1 && b[j] != '\n' {
				j++
			}
			mid = append(append(mid, b[i:j]...), b[i:j]...)
		default:
			i++
			mid = []byte(pick(r, "", "NaN", "+Inf", "1e400", "-1", "91", "x", "&#0;", "gpsgen", strconv.Itoa(r.Intn(1000)), fmt.Sprint(r.Float64()*1e9)))
			j = cuts[k+1]
		}
		b = append(append(append([]byte{}, b[:i]...), mid...), b[j:]...)
	}
	return b
}
