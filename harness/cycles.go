package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"github.com/lucasb-eyer/go-colorful"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/types"
	"gpsverif/sim"
)

// The cycles scenario writes routes and sensors to a simulated disk in all
// forms, in any order, loses the process in between and reads them back,
// edits them and goes on (P05).

func init() {
	scenarios["cycles"] = &Scenario{Gen: genCycles, Run: runCycles}
	propScn["P05"] = append(propScn["P05"], weighted{"cycles", 10})
}

func genCycles(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config) {
	cfg := map[string]int{"seed": r.Intn(1 << 30), "routes": r.Range(1, 4), "shape": r.Intn(numShapes + 4), "sensors": r.Range(1, 3), "text": r.Intn(3)}
	enlarge(r, cfg)
	kinds := []string{"binary", "binary", "geojson", "geojson", "geojson", "gpx", "gpx", "gpx", "tracker", "sensors", "sensors", "stracker",
		"rname", "rcolor", "rprops", "rprops", "tname", "tcolor", "tprops", "tprops", "rmT", "addT", "addR", "draw", "together", "foreign"}
	if r.Intn(3) == 0 {
		k := pick(r, "binary", "geojson", "gpx", "tracker", "sensors")
		kinds = append(kinds, k, k, k, k, k, k, k, k)
	}
	var ops []Op
	for k := r.Range(2, 24); k > 0; k-- {
		ops = append(ops, Op{K: kinds[r.Intn(len(kinds))], A: []int64{int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20)), int64(r.Intn(1 << 20))}})
	}
	p := Plan{Cfg: cfg, Clients: [][]Op{ops}}
	sc := swarm(r, swarmOpt{maxSteps: 20_000_000, est: 3000, noFaults: true})
	sc.MapOrder = r.Intn(4) > 0
	return p, sc
}

// what a route has to be.
type mRoute struct {
	id, name, color string
	props           map[string]interface{}
	tracks          []mTrack
}

type mTrack struct {
	id, name, color string
	closed          bool
	props           map[string]interface{}
	pts             []geo.LatLonPoint
	orig            []geo.LatLonPoint // before any rounding
}

func mProps(p map[string]interface{}) map[string]interface{} {
	m := map[string]interface{}{}
	for k, v := range p {
		m[k] = v
	}
	return m
}

func mRouteOf(r *navigator.Route) mRoute {
	m := mRoute{id: r.ID(), name: r.Name().String(), color: r.Color(), props: mProps(r.Props())}
	for i := 0; i < r.NumTracks(); i++ {
		m.tracks = append(m.tracks, mTrackOf(r.TrackAt(i)))
	}
	return m
}

func mTrackOf(t *navigator.Track) mTrack {
	m := mTrack{id: t.ID(), name: t.Name().String(), color: t.Color(), closed: t.IsClosed(), props: mProps(t.Props())}
	for i := 0; i < t.NumSegments(); i++ {
		s := t.SegmentAt(i)
		if i == 0 {
			m.pts = append(m.pts, s.PointA())
		}
		m.pts = append(m.pts, s.PointB())
	}
	m.orig = m.pts
	return m
}

type cycles struct {
	c      *Ctx
	seed   uint64
	extra  uint64
	routes []*navigator.Route
	model  []mRoute
	disk   *disk
	sens   []*types.Sensor // the originals, never written
	twins  []*types.Sensor // written and read back
}

// someText is a text for a name, an identity or a property.
func someText(r *sim.Stream, kind int) string {
	plain := []string{"route one", "R2-D2", "North/South", "path_7", "a.b.c", "0x1F", "long " + strings.Repeat("name ", 40)}
	odd := []string{"<a&b>", "\"quoted\" 'text'", "Straße 東京 🚚", " leading", "trailing ", "two  blanks", "tab\tinside", "line\nbreak", "]]>", "&amp;", "{\"a\":1}",
		"\\u0041", "-1e5", "+5", "007", "1.50", "true", "TRUE", "NaN", "Inf", "null", "<nil>", "0x10", "1_000", "1e400", "<!-- x -->", "\r\n--", "é\u0301", "\u2028x", "\ufeffx"}
	alien := []string{"bell\x07bell", "\x00\x00\x00", "esc\x1b[0m", "bad\xff\xfeutf", "\xed\xa0\x80x", "\ufffexx"}
	switch {
	case kind == 0 || r.Intn(4) == 0:
		return plain[r.Intn(len(plain))]
	case kind == 2 && r.Intn(4) == 0:
		return alien[r.Intn(len(alien))]
	}
	return odd[r.Intn(len(odd))]
}

func (y *cycles) draw(label string) *sim.Stream {
	y.extra++
	return sim.NewStream(mix(y.seed, y.extra), label)
}

// points also at the edges of the map.
func (y *cycles) points(r *sim.Stream) []geo.LatLonPoint {
	switch r.Intn(8) {
	case 0:
		return []geo.LatLonPoint{{Lat: 90, Lon: 0}, {Lat: 0, Lon: 180}, {Lat: 0, Lon: -180}, {Lat: -90, Lon: 10}}
	case 1: // on round coordinates
		b := geo.LatLonPoint{Lat: float64(r.Intn(17)-8) * 10, Lon: float64(r.Intn(35)-17) * 10}
		p := []geo.LatLonPoint{b}
		for k := 0; k < r.Range(1, 5); k++ {
			b.Lat += pick(r, 0, 0.5, 1, 0.0001)
			b.Lon += pick(r, 0, 1, 0.001, -0.25)
			p = append(p, b)
		}
		return p
	case 2: // next to zero
		return []geo.LatLonPoint{{Lat: 1e-9, Lon: -1e-9}, {Lat: 0.00001 * r.Float64(), Lon: 1e-5}, {Lat: -3e-7, Lon: 0}}
	}
	sh := y.c.cfg("shape")
	if sh >= numShapes {
		sh = r.Intn(numShapes)
	}
	p := trackPoints(r, sh)
	if r.Intn(5) == 0 {
		p = append(p, p[0])
	}
	return p
}

func (y *cycles) newTrack(r *sim.Stream, kind int) *navigator.Track {
	for {
		p := y.points(r)
		if r.Intn(4) == 0 {
			t, err := navigator.RestoreTrack(someText(r, kind)+fmt.Sprint(r.Intn(1000)), someColor(int64(r.Intn(1000))).Hex(), p)
			if err == nil {
				return t
			}
			continue
		}
		if t, err := navigator.NewTrack(p); err == nil {
			return t
		}
	}
}

func (y *cycles) newRoute(r *sim.Stream, kind int) *navigator.Route {
	var rt *navigator.Route
	switch r.Intn(4) {
	case 0:
		rt = navigator.RestoreRoute(someText(r, kind)+fmt.Sprint(r.Intn(1000)), someColor(int64(r.Intn(1000))).Hex(), nil)
	default:
		rt = navigator.NewRoute()
	}
	for k := pick(r, 1, 1, 2, 3, 5); k > 0; k-- {
		rt.AddTrack(y.newTrack(r, kind))
	}
	return rt
}

func runCycles(c *Ctx) {
	y := &cycles{c: c, seed: uint64(c.cfg("seed"))}
	c.state = y
	r := y.draw("start")
	y.disk = newDisk(c, y.draw("disk"))
	text := c.clamp("text", 0, 2)
	for k := c.clamp("routes", 1, 20); k > 0; k-- {
		y.routes = append(y.routes, y.newRoute(r, text))
	}
	y.learn()
	for k := c.clamp("sensors", 1, 40); k > 0; k-- {
		s := y.newSensor(r, text)
		y.sens = append(y.sens, s)
	}
	b, err := gpsgen.EncodeSensors(y.sens)
	if err == nil {
		y.twins, err = gpsgen.DecodeSensors(b)
	}
	if err != nil {
		if text == 2 {
			c.count("refused_sensors")
		} else {
			c.bad("P05", "sensors-refused", "sensors cannot be written and read back: %v", err)
		}
		y.sens, y.twins = nil, nil
	}
	for _, o := range c.P.Clients[0] {
		c.count("op_" + o.K)
		y.do(o, text)
		if len(c.V) > 0 {
			return
		}
	}
	y.do(Op{K: "sensors"}, text)
	y.do(Op{K: "draw"}, text)
}

func (y *cycles) newSensor(r *sim.Stream, text int) *types.Sensor {
	if r.Intn(3) == 0 {
		s, err := types.NewSensor(someText(r, text), pick(r, -1e9, 0, 1e-9, -5), pick(r, 1e12, 1, 0.5, 2e-9), pick(r, 4, 512, 128), pickMode(r))
		if err == nil {
			return s
		}
	}
	s := newSensor(r, someText(r, text))
	for k := r.Intn(4); k > 0; k-- {
		s.Next(r.Float64())
	}
	return s
}

// learn takes over what the routes are after an edit.
func (y *cycles) learn() {
	y.model = nil
	for _, r := range y.routes {
		y.model = append(y.model, mRouteOf(r))
	}
}

func (y *cycles) do(o Op, text int) {
	c := y.c
	var rt *navigator.Route
	var tr *navigator.Track
	ri, ti := 0, 0
	if len(y.routes) > 0 {
		ri = o.idx(0, len(y.routes))
		rt = y.routes[ri]
		if rt.NumTracks() > 0 {
			ti = o.idx(1, rt.NumTracks())
			tr = rt.TrackAt(ti)
		}
	}
	r := y.draw("op")
	a := o.arg(2)
	switch o.K {
	case "binary", "geojson", "gpx", "tracker":
		y.hop(o.K, r)
	case "sensors", "stracker":
		y.sensors(o.K, r)
	case "draw":
		y.future(r)
	case "together":
		y.together(r)
	case "rname":
		if s := someText(r, text); rt.ChangeName(s) == nil {
			y.model[ri].name = s
		}
	case "tname":
		if s := someText(r, text); tr != nil && tr.ChangeName(s) == nil {
			y.model[ri].tracks[ti].name = s
		}
	case "rcolor":
		if x := someColor(a); rt.ChangeColor(x) == nil {
			y.model[ri].color = x.Hex()
		}
	case "tcolor":
		if x := someColor(a).Hex(); tr != nil && tr.ChangeColor(x) == nil {
			h, _ := colorful.Hex(x)
			y.model[ri].tracks[ti].color = h.Hex()
		}
	case "rprops":
		k, v := y.prop(r, text)
		rt.Props()[k] = v
		y.model[ri].props[k] = v
	case "tprops":
		if tr != nil {
			k, v := y.prop(r, text)
			tr.Props()[k] = v
			y.model[ri].tracks[ti].props[k] = v
		}
	case "rmT":
		if tr != nil && rt.NumTracks() > 1 && rt.RemoveTrack(tr.ID()) {
			y.relearn(ri)
		}
	case "addT":
		if rt.NumTracks() < 7 {
			rt.AddTrack(y.newTrack(r, text))
			y.relearn(ri)
		}
	case "foreign":
		y.load(r)
	case "addR":
		if len(y.routes) < 5 {
			n := y.newRoute(r, text)
			y.routes = append(y.routes, n)
			y.model = append(y.model, mRouteOf(n))
		}
	}
	c.Work++
}

// relearn takes over the tracks of one route after an edit of its tracks.
func (y *cycles) relearn(i int) {
	n := mRouteOf(y.routes[i])
	for k := range n.tracks {
		for _, old := range y.model[i].tracks {
			if old.id == n.tracks[k].id && len(old.orig) == len(n.tracks[k].pts) {
				n.tracks[k].orig = old.orig
			}
		}
	}
	y.model[i] = n
}

func (y *cycles) prop(r *sim.Stream, text int) (string, interface{}) {
	keys := []string{"speed", "driver", "k1", "k2", "note"}
	if text > 0 {
		keys = append(keys, "id", "name", "_name", "__name", "_", "color", "distance", "routeID", "trackID", "tracksInfo", "numTracks", "units", "_units", "ü", "K", "snake_case", "x-y", "x.y", "properties")
	}
	if text > 1 {
		keys = append(keys, "a b", "", "1x", "xmlns", "xmlns:a", "a:b", "<", "a=b", "a\"b", "type", "-", " ")
	}
	k := keys[r.Intn(len(keys))]
	switch r.Intn(12) {
	case 0:
		return k, r.Intn(1000000) - 1000
	case 1:
		return k, pick[interface{}](r, int64(1)<<53, int64(-1)<<53, int32(7), uint8(3), int64(1)<<40+1)
	case 2:
		return k, pick(r, 1.5, -0.25, 1e21, 1e-7, 123456789.125, 0.1, 5, math.MaxFloat64)
	case 3:
		return k, r.Intn(2) == 0
	case 4:
		if text > 1 {
			return k, pick[interface{}](r, math.NaN(), math.Inf(1), nil, func() {}, []int{1})
		}
	case 5:
		return k, []interface{}{"x", 1.5, true, nil, map[string]interface{}{"id": "7"}}
	case 6:
		return k, map[string]interface{}{"name": someText(r, min(text, 1)), "n": 2.5, "color": []interface{}{}}
	case 7:
		return k, ""
	}
	return k, someText(r, text)
}

// hop writes all routes in one form, loses the process and reads them back.
func (y *cycles) hop(form string, r *sim.Stream) {
	c := y.c
	var b []byte
	var err error
	before := y.portrait(y.routes)
	switch form {
	case "binary":
		b, err = gpsgen.EncodeRoutes(y.routes)
	case "geojson":
		b, err = gpsgen.EncodeGeoJSONRoutes(y.routes)
	case "gpx":
		b, err = gpsgen.EncodeGPXRoutes(y.routes)
	case "tracker":
		ids := map[string]bool{}
		for _, m := range y.model {
			ids[m.id] = true
		}
		if len(ids) < len(y.model) {
			c.count("not_addable") // a tracker takes one of several routes of the same identity
			return
		}
		d := gpsgen.NewTracker()
		if err = d.AddRoute(y.routes...); err == nil {
			b, err = gpsgen.EncodeTracker(d)
		} else {
			c.count("not_addable") // the same route twice
			return
		}
	}
	if l, m := portraitDiff(before, y.portrait(y.routes)); l != "" {
		c.bad("P05", "write-alters-"+l, "writing %s altered the routes: %s", form, m)
		return
	}
	if err != nil {
		c.count("refused_" + form)
		if why := y.expressible(form); why == "" {
			c.bad("P05", "refused-"+form, "routes that %s can express are refused: %v", form, err)
		}
		return
	}
	c.count("written_" + form)
	// the only thing left is what is on the disk
	y.disk.write(form, b, false)
	y.disk.sync(form)
	y.disk.crash()
	b = y.disk.read(form)
	var got []*navigator.Route
	switch form {
	case "binary":
		got, err = gpsgen.DecodeRoutes(b)
	case "geojson":
		got, err = gpsgen.DecodeGeoJSONRoutes(b)
	case "gpx":
		got, err = gpsgen.DecodeGPXRoutes(b)
	case "tracker":
		var d *gpsgen.Device
		if d, err = gpsgen.DecodeTracker(b); err == nil {
			got = d.Routes()
		}
	}
	if err != nil {
		c.bad("P05", "unreadable-"+form, "what was written as %s without an error cannot be read: %v", form, err)
		return
	}
	y.check(form, got)
	y.routes = got
}

func (y *cycles) portrait(rs []*navigator.Route) []string {
	var l []string
	for _, r := range rs {
		l = append(l, routePortrait(r)...)
		l = append(l, fmt.Sprintf("properties\x00%#v", jsonish(r.Props())))
	}
	return l
}

// jsonish is the number of properties, for properties that JSON cannot express.
func jsonish(p map[string]interface{}) int { return len(p) }

// expressible says why a form may refuse the routes; "" if it may not.
func (y *cycles) expressible(form string) string {
	texts := func(s ...string) string {
		for _, t := range s {
			if strings.ToValidUTF8(t, "") != t {
				return "encoding"
			}
			for _, r := range t {
				if form == "gpx" && (r < 32 && r != 9 && r != 10 && r != 13 || r == 0xfffe || r == 0xffff) {
					return "characters"
				}
			}
		}
		return ""
	}
	props := func(p map[string]interface{}) string {
		b, err := json.Marshal(p)
		if err != nil {
			return "properties"
		}
		if strings.Contains(string(b), "\ufffd") || strings.Contains(string(b), "\\ufffd") {
			return "encoding"
		}
		for k, v := range p {
			if form == "gpx" {
				for i, x := range k {
					if !(x == '_' || x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z' || x == 'ü' || i > 0 && (x == '-' || x == '.' || x >= '0' && x <= '9')) {
						return "property name"
					}
				}
				if k == "" || k == "xmlns" {
					return "property name"
				}
				if w := texts(fmt.Sprint(v)); w != "" {
					return w
				}
			}
		}
		return ""
	}
	for _, r := range y.model {
		if w := texts(r.id, r.name, r.color); w != "" {
			return w
		}
		if w := props(r.props); w != "" {
			return w
		}
		for _, t := range r.tracks {
			if w := texts(t.id, t.name, t.color); w != "" {
				return w
			}
			if form == "gpx" && strings.TrimSpace(t.id) != t.id {
				return "blanks around the identity of a track"
			}
			if w := props(t.props); w != "" {
				return w
			}
		}
	}
	return ""
}

func (y *cycles) check(form string, got []*navigator.Route) {
	c := y.c
	bad := func(class, format string, a ...any) {
		c.bad("P05", class+"-"+form, "after a cycle through %s "+format, append([]any{form}, a...)...)
	}
	if len(got) != len(y.model) {
		bad("routes", "there are %d routes instead of %d", len(got), len(y.model))
		return
	}
	for i := range y.model {
		m := &y.model[i]
		n := mRouteOf(got[i])
		what := fmt.Sprintf("route %d", i)
		if n.id != m.id {
			bad("identity", "%s has the identity %q instead of %q", what, n.id, m.id)
		}
		if n.name != m.name {
			bad("name", "%s has the name %q instead of %q", what, n.name, m.name)
		}
		if n.color != m.color {
			bad("color", "%s has the color %q instead of %q", what, n.color, m.color)
		}
		if w := sameProps(form, m.props, n.props); w != "" {
			bad("properties", "%s has other properties: %s", what, w)
		}
		if len(n.tracks) != len(m.tracks) {
			bad("tracks", "%s has %d tracks instead of %d", what, len(n.tracks), len(m.tracks))
			return
		}
		sum := 0.0
		for k := range m.tracks {
			x, z := &m.tracks[k], &n.tracks[k]
			what := fmt.Sprintf("track %d of route %d", k, i)
			if z.id != x.id {
				bad("track-identity", "%s has the identity %q instead of %q", what, z.id, x.id)
			}
			if z.name != x.name {
				bad("track-name", "%s has the name %q instead of %q", what, z.name, x.name)
			}
			if z.color != x.color {
				bad("track-color", "%s has the color %q instead of %q", what, z.color, x.color)
			}
			if z.closed != x.closed {
				bad("closed", "%s: closed is %v instead of %v", what, z.closed, x.closed)
			}
			if w := sameProps(form, x.props, z.props); w != "" {
				bad("track-properties", "%s has other properties: %s", what, w)
			}
			if len(z.pts) != len(x.pts) {
				bad("points", "%s has %d points instead of %d", what, len(z.pts), len(x.pts))
				return
			}
			tol := 0.0
			if form == "gpx" {
				tol = 1.02e-10 // ten decimal places, zero is one off
			}
			ref := 0.0
			for j := range z.pts {
				if math.Abs(z.pts[j].Lat-x.pts[j].Lat) > tol || math.Abs(z.pts[j].Lon-x.pts[j].Lon) > tol {
					bad("points", "point %d of %s is %v instead of %v", j, what, z.pts[j], x.pts[j])
					return
				}
				if math.Abs(z.pts[j].Lat-x.orig[j].Lat) > 2e-10 || math.Abs(z.pts[j].Lon-x.orig[j].Lon) > 2e-10 {
					bad("points", "point %d of %s has gone from %v to %v", j, what, x.orig[j], z.pts[j])
					return
				}
				if j > 0 {
					ref += refDist(z.pts[j-1], z.pts[j])
				}
			}
			d := got[i].TrackAt(k).Distance()
			if !relNear(d, ref) && math.Abs(d-ref) > 0.01 {
				bad("distance", "%s has the distance %v instead of %v", what, d, ref)
			}
			sum += d
		}
		if !relNear(got[i].Distance(), sum) {
			bad("distance", "%s has the distance %v instead of %v", what, got[i].Distance(), sum)
		}
		// what the properties are now, in the types of the form
		m.props = n.props
		for k := range m.tracks {
			m.tracks[k].props = n.tracks[k].props
			m.tracks[k].pts = n.tracks[k].pts
		}
	}
}

// sameProps compares properties before and after a cycle.
func sameProps(form string, a, b map[string]interface{}) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%q instead of %q", sortedKeys(b), sortedKeys(a))
	}
	for _, k := range sortedKeys(a) {
		v := a[k]
		w, ok := b[k]
		if !ok {
			return fmt.Sprintf("%q is missing", k)
		}
		if form == "gpx" {
			// a text may become the number it denotes, but not one that no
			// other form can express
			f, isNum := w.(float64)
			g, isAny := number(w)
			if n, ok := number(v); ok && !bad(n) && (!isAny || g != n) {
				return fmt.Sprintf("%q is %#v instead of the number %#v", k, w, v)
			}
			if _, ok := v.(bool); ok && w != v {
				return fmt.Sprintf("%q is %#v instead of %#v", k, w, v)
			}
			if _, text := v.(string); fmt.Sprint(v) == fmt.Sprint(w) && !(text && isNum && bad(f)) {
				continue
			}
			return fmt.Sprintf("%q is %#v instead of %#v", k, w, v)
		}
		x, e1 := json.Marshal(v)
		z, e2 := json.Marshal(w)
		if e1 != nil || e2 != nil || string(x) != string(z) {
			f, ok1 := number(v)
			g, ok2 := number(w)
			if ok1 && ok2 && f == g {
				continue
			}
			return fmt.Sprintf("%q is %#v instead of %#v", k, w, v)
		}
	}
	return ""
}

func number(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case int64:
		return float64(x), true
	case int32:
		return float64(x), true
	case uint8:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

// sensors writes the twins, loses the process and reads them back.
func (y *cycles) sensors(form string, r *sim.Stream) {
	if len(y.twins) == 0 {
		return
	}
	c := y.c
	start := sim.LibState()
	var b []byte
	var err error
	if form == "stracker" {
		d := gpsgen.NewTracker()
		d.AddSensor(y.twins...)
		b, err = gpsgen.EncodeTracker(d)
	} else {
		b, err = gpsgen.EncodeSensors(y.twins)
	}
	if err != nil {
		c.bad("P05", "sensors-refused", "sensors cannot be written any more: %v", err)
		return
	}
	y.disk.write("sensors", b, false)
	y.disk.sync("sensors")
	y.disk.crash()
	b = y.disk.read("sensors")
	var got []*types.Sensor
	if form == "stracker" {
		var d *gpsgen.Device
		if d, err = gpsgen.DecodeTracker(b); err == nil {
			got = d.Sensors()
		}
	} else {
		got, err = gpsgen.DecodeSensors(b)
	}
	if err != nil {
		c.bad("P05", "sensors-unreadable", "sensors that were written cannot be read: %v", err)
		return
	}
	sim.SetLibState(start)
	c.count("written_" + form)
	y.twins = got
	y.sameSensors("right after a cycle")
}

func (y *cycles) sameSensors(when string) {
	if len(y.twins) != len(y.sens) {
		y.c.bad("P05", "sensors", "%s there are %d sensors instead of %d", when, len(y.twins), len(y.sens))
		return
	}
	for i := range y.sens {
		if a, b := sensorPortrait(y.sens[i]), sensorPortrait(y.twins[i]); a != b {
			y.c.bad("P05", "sensor", "%s sensor %d is %s instead of %s", when, i, b, a)
			return
		}
	}
}

// future draws the same next values from the originals and the twins.
func (y *cycles) future(r *sim.Stream) {
	start := sim.LibState()
	end := start
	n, seed := r.Range(1, 12), r.Uint64()
	for k, l := range [][]*types.Sensor{y.sens, y.twins} {
		sim.SetLibState(start)
		q := sim.NewStream(seed, "future")
		for j := 0; j < n; j++ {
			for _, s := range l {
				if q.Intn(5) == 0 {
					s.Shuffle()
				}
				s.Next(pick(q, 0, 1, 0.5, q.Float64(), q.Float64()))
			}
		}
		if k == 0 {
			end = sim.LibState()
		} else if sim.LibState() != end {
			y.c.bad("P05", "sensor-draws", "sensors that were read back draw other random numbers")
		}
	}
	sim.SetLibState(end)
	y.sameSensors("some values later")
}

// together writes the same routes from several threads at once.
func (y *cycles) together(r *sim.Stream) {
	for _, x := range y.routes { // the properties exist from now on
		x.Props()
		x.EachTrack(func(_ int, t *navigator.Track) bool { t.Props(); return true })
	}
	enc := []func([]*navigator.Route) ([]byte, error){gpsgen.EncodeRoutes, gpsgen.EncodeGeoJSONRoutes, gpsgen.EncodeGPXRoutes}
	want := make([]string, 3)
	res := func(k int) string {
		b, err := enc[k](y.routes)
		if err != nil {
			return "error"
		}
		if k == 1 { // not in a fixed order
			return canonJSON(b)
		}
		if k == 0 {
			return fmt.Sprint(len(b))
		}
		return string(b)
	}
	for k := range want {
		want[k] = res(k)
	}
	var ts []*sim.Thread
	for j := 0; j < 3; j++ {
		k := r.Intn(3)
		ts = append(ts, sim.Go(fmt.Sprint("writer", j), func() {
			if got := res(k); got != want[k] {
				y.c.bad("P05", "together", "several threads write the same routes and get different data")
			}
		}))
	}
	for _, t := range ts {
		sim.Join(t)
	}
}
