package main

import (
	"encoding/json"
	"fmt"
	"strings"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"gpsverif/sim"
)

// Documents as other programs write them: geometries of all types, GPX
// routes, tracks and waypoints, foreign properties and extensions.

func foreignLine(r *sim.Stream, closed bool) []interface{} {
	p := trackPoints(r, pick(r, shSingle, shMulti, shTiny, shRepeat))
	if closed && len(p) > 2 {
		p = append(p, p[0])
	}
	var l []interface{}
	for _, x := range p {
		c := []interface{}{x.Lon, x.Lat}
		if r.Intn(4) == 0 {
			c = append(c, 12.5)
		}
		l = append(l, c)
	}
	return l
}

func foreignGeometry(r *sim.Stream, depth int) map[string]interface{} {
	g := func(t string, c interface{}) map[string]interface{} {
		return map[string]interface{}{"type": t, "coordinates": c}
	}
	rings := func() []interface{} {
		l := []interface{}{foreignLine(r, true)}
		if r.Intn(3) == 0 {
			l = append(l, foreignLine(r, true)) // a hole
		}
		return l
	}
	switch r.Intn(12) {
	case 0, 1, 2:
		return g("LineString", foreignLine(r, r.Intn(3) == 0))
	case 3, 4:
		return g("MultiLineString", []interface{}{foreignLine(r, false), foreignLine(r, r.Intn(2) == 0)})
	case 5, 6:
		return g("Polygon", rings())
	case 7:
		return g("MultiPolygon", []interface{}{rings(), rings()})
	case 8:
		return g("MultiPoint", foreignLine(r, false))
	case 9:
		if r.Intn(3) == 0 {
			return g("Point", foreignLine(r, false)[0])
		}
	}
	if depth > 0 {
		return g("LineString", foreignLine(r, false))
	}
	var l []interface{}
	for k := r.Range(1, 3); k > 0; k-- {
		l = append(l, foreignGeometry(r, depth+1))
	}
	return map[string]interface{}{"type": "GeometryCollection", "geometries": l}
}

func foreignGeoJSON(r *sim.Stream) []byte {
	var fs []interface{}
	for k := r.Range(1, 3); k > 0; k-- {
		p := map[string]interface{}{}
		if r.Intn(2) == 0 {
			p["name"] = someText(r, 1)
			p["stroke-width"] = 2.5
		}
		if r.Intn(4) == 0 {
			p["color"] = "#00ff00"
			p["nested"] = map[string]interface{}{"id": 7, "l": []interface{}{1, nil, "x"}}
		}
		f := map[string]interface{}{"type": "Feature", "properties": p, "geometry": foreignGeometry(r, 0)}
		if r.Intn(4) == 0 {
			f["properties"] = nil
		}
		if r.Intn(3) == 0 {
			f["id"] = r.Intn(100)
		}
		fs = append(fs, f)
	}
	b, err := json.Marshal(map[string]interface{}{"type": "FeatureCollection", "features": fs})
	if err != nil {
		panic(err)
	}
	return b
}

func foreignGPX(r *sim.Stream) []byte {
	var s strings.Builder
	version := pick(r, "1.1", "1.1", "1.0")
	fmt.Fprintf(&s, "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<gpx version=%q creator=\"another\" xmlns=\"http://www.topografix.com/GPX/%s\">\n", version, strings.ReplaceAll(version, ".", "/"))
	if r.Intn(2) == 0 && version == "1.1" {
		s.WriteString("<metadata><name>trip</name><time>2023-01-02T03:04:05Z</time></metadata>\n")
	}
	points := func(tag string) {
		for _, p := range trackPoints(r, pick(r, shSingle, shMulti, shTiny, shRepeat)) {
			fmt.Fprintf(&s, "<%s lat=\"%v\" lon=\"%v\">", tag, p.Lat, p.Lon)
			if r.Intn(2) == 0 {
				s.WriteString("<ele>4.5</ele><time>2023-01-02T03:04:05Z</time>")
			}
			fmt.Fprintf(&s, "</%s>\n", tag)
		}
	}
	what := r.Range(1, 7)
	if r.Intn(3) > 0 {
		what = pick(r, 1, 2, 4)
	}
	if what&1 != 0 {
		points("wpt")
	}
	if what&2 != 0 {
		for k := r.Range(1, 2); k > 0; k-- {
			s.WriteString("<rte><name>r</name>\n")
			points("rtept")
			s.WriteString("</rte>\n")
		}
	}
	if what&4 != 0 {
		for k := r.Range(1, 3); k > 0; k-- {
			s.WriteString("<trk><name>t</name>\n")
			for q := r.Range(1, 3); q > 0; q-- {
				s.WriteString("<trkseg>\n")
				points("trkpt")
				s.WriteString("</trkseg>\n")
			}
			s.WriteString("</trk>\n")
		}
	}
	if r.Intn(3) == 0 && version == "1.1" {
		s.WriteString("<extensions><other a=\"1\"><x>y</x></other></extensions>\n")
	}
	s.WriteString("</gpx>\n")
	return []byte(s.String())
}

// load takes over routes from a document of another program.
func (y *cycles) load(r *sim.Stream) {
	var got []*navigator.Route
	var err error
	if r.Intn(2) == 0 {
		got, err = gpsgen.DecodeGeoJSONRoutes(foreignGeoJSON(r))
	} else {
		got, err = gpsgen.DecodeGPXRoutes(foreignGPX(r))
	}
	if err != nil {
		y.c.count("foreign_refused")
		return
	}
	y.c.count("foreign_loaded")
	for _, x := range got {
		if len(y.routes) < 5 {
			y.routes = append(y.routes, x)
			y.model = append(y.model, mRouteOf(x))
		}
	}
}
