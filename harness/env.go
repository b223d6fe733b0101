package main

import (
	"fmt"
	"hash/fnv"
	"math"

	"github.com/icholy/utm"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"gpsverif/sim"
)

// ---- reference geodesy (independent of package geo) ----

const earthR = 6371e3

func rad(d float64) float64 { return d * math.Pi / 180 }

func refDist(a, b geo.LatLonPoint) float64 {
	s1 := math.Sin((rad(b.Lat) - rad(a.Lat)) / 2)
	s2 := math.Sin((rad(b.Lon) - rad(a.Lon)) / 2)
	h := s1*s1 + math.Cos(rad(a.Lat))*math.Cos(rad(b.Lat))*s2*s2
	return 2 * earthR * math.Asin(math.Min(1, math.Sqrt(h)))
}

type vec struct{ x, y, z float64 }

func toVec(p geo.LatLonPoint) vec {
	return vec{math.Cos(rad(p.Lat)) * math.Cos(rad(p.Lon)), math.Cos(rad(p.Lat)) * math.Sin(rad(p.Lon)), math.Sin(rad(p.Lat))}
}

// refAlong is the point at d meters from a towards b on the great circle.
func refAlong(a, b geo.LatLonPoint, d float64) geo.LatLonPoint {
	tot := refDist(a, b) / earthR
	if tot == 0 {
		return a
	}
	f := d / earthR
	va, vb := toVec(a), toVec(b)
	s := math.Sin(tot)
	k1, k2 := math.Sin(tot-f)/s, math.Sin(f)/s
	v := vec{k1*va.x + k2*vb.x, k1*va.y + k2*vb.y, k1*va.z + k2*vb.z}
	return geo.LatLonPoint{Lat: math.Atan2(v.z, math.Hypot(v.x, v.y)) * 180 / math.Pi, Lon: math.Atan2(v.y, v.x) * 180 / math.Pi}
}

// ---- routes ----

const (
	shLong      = iota // one long line
	shMulti            // several short tracks
	shSingle           // one segment
	shRepeat           // repeated points
	shLoop             // closed polygon
	shRandom           // the library's own random route
	shZeroTrack        // a track of length zero among others
	shNoTracks         // no tracks at all
	shTiny             // many very short segments
	shGaps             // short tracks, some names and properties
	numShapes
)

func basePoint(r *sim.Stream) geo.LatLonPoint {
	switch r.Intn(6) {
	case 0:
		return geo.LatLonPoint{Lat: 0, Lon: 0}
	case 1:
		return geo.LatLonPoint{Lat: -33.9 + r.Float64(), Lon: 151 + r.Float64()}
	case 2:
		return geo.LatLonPoint{Lat: 64 + r.Float64(), Lon: -21 + r.Float64()}
	}
	return geo.LatLonPoint{Lat: -60 + 120*r.Float64(), Lon: -170 + 340*r.Float64()}
}

// walk makes n points with steps of lo..hi meters.
func walk(r *sim.Stream, from geo.LatLonPoint, n int, lo, hi float64) []geo.LatLonPoint {
	pts := []geo.LatLonPoint{from}
	dir := r.Float64() * 2 * math.Pi
	for len(pts) < n {
		dir += (r.Float64() - 0.5)
		d := lo + r.Float64()*(hi-lo)
		p := pts[len(pts)-1]
		p.Lat += d * math.Cos(dir) / 111195
		p.Lon += d * math.Sin(dir) / 111195 / math.Cos(rad(p.Lat))
		if p.Lat > 80 || p.Lat < -80 {
			p.Lat = pts[len(pts)-1].Lat
			dir += math.Pi
		}
		pts = append(pts, p)
	}
	return pts
}

func mustTrack(pts []geo.LatLonPoint) *navigator.Track {
	t, err := navigator.NewTrack(pts)
	if err != nil {
		panic(fmt.Sprintf("NewTrack failed on %d points: %v", len(pts), err))
	}
	return t
}

// trackPoints makes the points of one track of a shape.
func trackPoints(r *sim.Stream, shape int) []geo.LatLonPoint {
	b := basePoint(r)
	switch shape {
	case shLong:
		return walk(r, b, 12+r.Intn(10), 20000, 60000)
	case shSingle:
		return walk(r, b, 2, 100, 1500)
	case shRepeat:
		p := walk(r, b, 4+r.Intn(5), 20, 300)
		for k := 0; k < 1+r.Intn(3); k++ {
			i := r.Intn(len(p))
			p = append(p[:i+1], append([]geo.LatLonPoint{p[i]}, p[i+1:]...)...)
		}
		return p
	case shLoop:
		p := walk(r, b, 4+r.Intn(5), 50, 400)
		return append(p, p[0])
	case shTiny:
		return walk(r, b, 8+r.Intn(20), 0.5, 6)
	}
	return walk(r, b, 3+r.Intn(6), 15, 350)
}

func newRoute(shape int, seed uint64) *navigator.Route {
	r := sim.NewStream(seed, "route")
	switch shape {
	case shRandom:
		b := basePoint(r)
		return gpsgen.RandomRoute(b.Lon, b.Lat, 1+r.Intn(3), pick(r, gpsgen.RouteLevelS, gpsgen.RouteLevelM, gpsgen.RouteLevelL))
	case shNoTracks:
		return navigator.NewRoute()
	}
	rt := navigator.NewRoute()
	short := mix(seed, 77)%4 == 0 // identities of another system
	if short {
		rt = navigator.RestoreRoute(rt.ID()[:8], rt.Color(), nil)
	}
	n := 1
	switch shape {
	case shMulti, shGaps:
		n = 2 + r.Intn(4)
	case shZeroTrack:
		n = 2 + r.Intn(2)
	case shSingle, shLoop, shRepeat, shTiny:
		n = 1 + r.Intn(2)
	}
	large := mix(seed, 91)%24 == 0 // now and then a route that is large in one way
	if large && shape == shMulti {
		n = 8 + r.Intn(33)
	}
	zero := r.Intn(n)
	for i := 0; i < n; i++ {
		if large && i == 0 && (shape == shTiny || shape == shSingle || shape == shLoop) {
			rt.AddTrack(mustTrack(walk(r, basePoint(r), 130+r.Intn(270), 0.5, pick(r, 6, 40.0, 200))))
			continue
		}
		if shape == shZeroTrack && i == zero {
			p := basePoint(r)
			rt.AddTrack(mustTrack([]geo.LatLonPoint{p, p}))
			continue
		}
		t := mustTrack(trackPoints(r, shape))
		if short && i%2 == 0 {
			t = shortID(t)
		}
		rt.AddTrack(t)
	}
	return rt
}

// shortID returns the track with a short identity.
func shortID(t *navigator.Track) *navigator.Track {
	x, err := navigator.RestoreTrack(t.ID()[:8], t.Color(), mTrackOf(t).pts)
	if err != nil {
		panic(err)
	}
	return x
}

// ---- trackers ----

func devOptions(r *sim.Stream) *gpsgen.DeviceOptions {
	o := gpsgen.NewDeviceOptions()
	o.Descr = "d" + fmt.Sprint(r.Intn(1000))
	o.UserID = "u" + fmt.Sprint(r.Intn(1000))
	switch r.Intn(4) {
	case 0:
		o.Speed.Min, o.Speed.Max = 3, 3
	case 1:
		o.Speed.Min, o.Speed.Max = 0.5, 40
	case 2:
		o.Speed.Min, o.Speed.Max = 1, 5
	default:
		o.Speed.Min, o.Speed.Max = 10, 30
	}
	o.Speed.Amplitude = pick(r, 4, 16, 64)
	if r.Intn(24) == 0 {
		o.Speed.Min, o.Speed.Max = 200, pick(r, 200.0, 340, 1000)
	}
	if r.Intn(24) == 0 {
		o.Speed.Amplitude = pick(r, 128, 512)
	}
	o.Navigator.SkipOffline = r.Intn(2) == 0
	o.Navigator.Offline.Min = r.Intn(4)
	o.Navigator.Offline.Max = o.Navigator.Offline.Min + 1 + r.Intn(5)
	if r.Intn(24) == 0 {
		o.Navigator.Offline.Min = 30 + r.Intn(300)
		o.Navigator.Offline.Max = o.Navigator.Offline.Min + pick(r, 1, 2, 100)
	}
	o.Navigator.Elevation.Min = float64(r.Intn(200))
	o.Navigator.Elevation.Max = o.Navigator.Elevation.Min + 1 + float64(r.Intn(900))
	o.Navigator.Elevation.Amplitude = pick(r, 4, 8, 32)
	o.Navigator.Elevation.Mode = pickMode(r)
	o.Battery.Min = float64(r.Intn(30))
	o.Battery.Max = pick(r, 100.0, 100.0, 80.0, 60.5)
	if r.Intn(2) == 0 { // no whole numbers
		x := r.Float64()
		o.Speed.Max = math.Min(o.Speed.Max+x*(o.Speed.Max-o.Speed.Min), 1000)
		o.Navigator.Elevation.Min += x
		o.Navigator.Elevation.Max += x / 3
		o.Battery.Min += x
		o.Battery.Max -= x / 7
	}
	return o
}

// fleetOptions are for trackers that may not finish a lap.
func fleetOptions(r *sim.Stream) *gpsgen.DeviceOptions {
	o := devOptions(r)
	if o.Speed.Min > 100 {
		o.Speed.Min, o.Speed.Max = o.Speed.Min/20, o.Speed.Max/20
	}
	return o
}

func pickMode(r *sim.Stream) types.SensorMode {
	switch r.Intn(5) {
	case 0:
		return types.WithSensorStartMode
	case 1:
		return types.WithSensorEndMode
	case 2:
		return types.WithSensorStartMode | types.WithSensorEndMode
	}
	return types.WithSensorRandomMode
}

func newSensor(r *sim.Stream, name string) *types.Sensor {
	lo := float64(r.Intn(200) - 100)
	if r.Intn(2) == 0 {
		lo += r.Float64()
	}
	hi, amp := lo+1+float64(r.Intn(100)), pick(r, 4, 8, 16, 64)
	switch r.Intn(24) {
	case 0:
		hi = lo
	case 1:
		lo, hi = lo*1e4, lo*1e4+hi*hi*1e6
	case 2:
		lo, hi = lo/1e4, lo/1e4+1e-3
	case 3:
		amp = pick(r, 128, 512)
	}
	s, err := types.NewSensor(name, lo, hi, amp, pickMode(r))
	if err != nil {
		panic(err)
	}
	return s
}

func mustDevice(o *gpsgen.DeviceOptions) *gpsgen.Device {
	d, err := gpsgen.NewDevice(o)
	if err != nil {
		panic(err)
	}
	return d
}

// ---- states ----

var detMarshal = proto.MarshalOptions{Deterministic: true}

func digest(m proto.Message) uint64 {
	b, err := detMarshal.Marshal(m)
	if err != nil {
		// unencodable text: fall back to the printed form
		b = []byte(fmt.Sprintf("%v", m))
	}
	return digestBytes(b)
}

func digestBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func cloneState(s *pb.Device) *pb.Device { return proto.Clone(s).(*pb.Device) }

func near(a, b, tol float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	return math.Abs(a-b) <= tol
}

func relNear(a, b float64) bool {
	return near(a, b, 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b))))
}

// recCheck looks for contradictions inside one published state; it returns a
// class and a description, or "".
func recCheck(s *pb.Device) (string, string) {
	if s == nil {
		return "nil-record", "nil record"
	}
	if s.Id == "" {
		return "empty-record", "record without identity"
	}
	if s.Distance == nil || s.Navigator == nil || s.Location == nil || s.Battery == nil || s.Routes == nil {
		return "incomplete", "record of " + s.Id + " lacks parts"
	}
	if s.IsOffline != (s.OfflineDuration > 0) {
		return "offline", fmt.Sprintf("isOffline=%v with offlineDuration=%d", s.IsOffline, s.OfflineDuration)
	}
	n, d, rs := s.Navigator, s.Distance, s.Routes.Routes
	sum := 0.0
	for _, r := range rs {
		sum += r.Distance
		ts := 0.0
		for _, t := range r.Tracks {
			ts += t.Distance
		}
		if !relNear(ts, r.Distance) {
			return "route-sum", fmt.Sprintf("route %s distance %f, its tracks sum to %f", r.RouteId, r.Distance, ts)
		}
	}
	if !relNear(sum, d.Distance) {
		return "total", fmt.Sprintf("total distance %f, routes sum to %f", d.Distance, sum)
	}
	if len(rs) == 0 {
		if n.CurrentRouteId != "" || n.CurrentTrackId != "" {
			return "route-id", fmt.Sprintf("current route %q track %q but no routes", n.CurrentRouteId, n.CurrentTrackId)
		}
		return "", ""
	}
	if s.Tick == 0 && n.CurrentRouteId == "" && n.CurrentTrackId == "" {
		return "", "" // no step taken yet
	}
	ri := int(n.CurrentRouteIndex)
	if ri < 0 || ri >= len(rs) {
		return "route-index", fmt.Sprintf("route index %d of %d", ri, len(rs))
	}
	if rs[ri].RouteId != n.CurrentRouteId {
		return "route-id", fmt.Sprintf("route id %q at index %d but current id %q", rs[ri].RouteId, ri, n.CurrentRouteId)
	}
	if !relNear(rs[ri].Distance, d.RouteDistance) {
		return "route-distance", fmt.Sprintf("route distance %f, summary says %f", d.RouteDistance, rs[ri].Distance)
	}
	ts := rs[ri].Tracks
	if len(ts) > 0 {
		ti := int(n.CurrentTrackIndex)
		if ti < 0 || ti >= len(ts) {
			return "track-index", fmt.Sprintf("track index %d of %d", ti, len(ts))
		}
		if ts[ti].TrackId != n.CurrentTrackId {
			return "track-id", fmt.Sprintf("track id %q at index %d but current id %q", ts[ti].TrackId, ti, n.CurrentTrackId)
		}
		if !relNear(ts[ti].Distance, d.TrackDistance) {
			return "track-distance", fmt.Sprintf("track distance %f, summary says %f", d.TrackDistance, ts[ti].Distance)
		}
		if si := n.CurrentSegmentIndex; si < 0 || si >= ts[ti].NumSegments {
			return "segment-index", fmt.Sprintf("segment index %d of %d", si, ts[ti].NumSegments)
		}
	}
	return posCheck(s)
}

// posCheck compares the notations of the position with each other.
func posCheck(s *pb.Device) (string, string) {
	l := s.Location
	if l.LatDms == nil || l.LonDms == nil || l.Utm == nil {
		return "incomplete", "record lacks DMS or UTM"
	}
	if l.Lat == 0 && l.Lon == 0 && l.LatDms.Direction == "" && l.Utm.LatZone == "" {
		return "", "" // no position yet
	}
	dms := func(v float64, m *pb.Device_Location_DMS, pos, neg string) bool {
		x := float64(m.Degrees) + float64(m.Minutes)/60 + m.Seconds/3600
		if !near(x, math.Abs(v), 1e-7) {
			return false
		}
		return v == 0 || v > 0 && m.Direction == pos || v < 0 && m.Direction == neg
	}
	if !dms(l.Lat, l.LatDms, "N", "S") || !dms(l.Lon, l.LonDms, "E", "W") {
		return "dms", fmt.Sprintf("lat %.8f lon %.8f but DMS %v %v", l.Lat, l.Lon, l.LatDms, l.LonDms)
	}
	e, n, z := utm.ToUTM(l.Lat, l.Lon)
	if !near(e, l.Utm.Easting, 0.01) || !near(n, l.Utm.Northing, 0.01) || int64(z.Number) != l.Utm.LongZone {
		return "utm", fmt.Sprintf("lat %.8f lon %.8f is %f %f zone %d but record has %v", l.Lat, l.Lon, e, n, z.Number, l.Utm)
	}
	return "", ""
}
