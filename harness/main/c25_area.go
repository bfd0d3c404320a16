package main

import (
	"errors"
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
	"github.com/paulmach/go.geojson"
)

// zzArea runs main with an area given as option o, and returns what the parser or the
// filter is told.
func zzArea(o string, complete bool, vals func() []string) (*zzRun, []gtfsparser.Polygon) {
	r := zzMain(func() {
		zzStrs(o, vals()...)
		zzBool("complete-filtered-trips", complete)
	}, []string{"in"}, nil, true)
	vv.Assert(zzMissing == "", "the options exist")
	if r.feed == nil {
		vv.Assert(r.parses == 0 && r.exits == 1, "nothing is read with a wrong area")
		return r, nil
	}
	if complete {
		vv.Assert(len(r.opts[0].PolygonFilter) == 0, "the parser does not drop parts of trips")
		vv.Assert(len(r.procs) == 1, "the filter runs")
		q, ok := r.procs[0].(processors.CompleteTripsGeoFilter)
		vv.Assert(ok, "the filter runs")
		return r, q.Polygons
	}
	vv.Assert(len(r.procs) == 0, "only the parser filters")
	return r, r.opts[0].PolygonFilter
}

// zzRing: the ring is the points (latitude, longitude), closed.
func zzRing(ring [][2]float64, pts [][2]float64) bool {
	n := len(pts)
	if len(ring) != n && len(ring) != n+1 {
		return false
	}
	ok := true
	for i := 0; i < n; i++ {
		ok = vv.And(ok, ring[i][0] == pts[i][1], ring[i][1] == pts[i][0])
	}
	closed := n < 2
	if n > 1 {
		closed = vv.And(pts[0][0] == pts[n-1][0], pts[0][1] == pts[n-1][1])
	}
	if len(ring) == n {
		return vv.And(ok, closed)
	}
	return vv.And(ok, !closed, ring[n][0] == pts[0][1], ring[n][1] == pts[0][0])
}

var zzSpace = []string{"", " ", "\n", "  "}

func zzDigit(name string) string {
	return string([]byte{byte('0' + vv.Int(name, 0, 9))})
}

// zzVerifC25_polygon: polygons of up to five points with any digits
// as coordinates.
//
//vv:cases quick=10 thorough=40 timeout=120 ttimeout=400
func zzVerifC25_polygon(c int) {
	np := []int{1, 2, 3, 4, 5, 6, 8}[c%5+c/20*2]
	file := (c/5)%2 == 1
	complete := c%2 == 1
	s := ""
	var pts [][2]float64
	for i := 0; i < np; i++ {
		var p [2]float64
		for k := 0; k < 2; k++ {
			d := zzDigit("coordinate" + vv.Itoa(i) + "/" + vv.Itoa(k))
			if len(s) > 0 {
				s += ","
			}
			sp := zzSpace[(c+i+k)%len(zzSpace)]
			p[k] = float64(int(d[0] - '0'))
			switch {
			case c >= 10 && (i+k)%3 == 1:
				s += sp + "-" + d + ".5"
				p[k] = -p[k] - 0.5
			default:
				s += sp + d + sp
			}
		}
		pts = append(pts, p)
	}
	o := "polygon"
	v := s
	if file {
		o, v = "polygon-file", "area.txt"
		zzFiles = map[string]string{"area.txt": s + "\n"}
	}
	r, ps := zzArea(o, complete, func() []string { return []string{v, v} })
	vv.Assert(r.feed != nil, "numbers are accepted")
	vv.Assert(len(ps) == 2, "there is an area for each option")
	for _, p := range ps {
		vv.Assert(len(p.InnerRings) == 0, "there are no holes")
		vv.Assert(zzRing(p.OuterRing, pts), "the ring consists of the points, and is closed")
	}
	vv.ObsInt("points", len(ps[0].OuterRing))
}

// zzVerifC25_bbox: boxes given by any two points.
//
//vv:cases quick=2 thorough=2 timeout=120
func zzVerifC25_bbox(c int) {
	complete := c == 1
	x := make([]float64, 4)
	s := ""
	for k := 0; k < 4; k++ {
		d := zzDigit("coordinate" + vv.Itoa(k))
		if k > 0 {
			s += ","
		}
		s += zzSpace[k] + d
		x[k] = float64(int(d[0] - '0'))
	}
	r, ps := zzArea("bounding-box", complete, func() []string { return []string{" " + s + " ", "1,2,3,4"} })
	vv.Assert(r.feed != nil, "numbers are accepted")
	vv.Assert(len(ps) == 2, "there is an area for each option")
	ring := ps[0].OuterRing
	vv.ObsInt("points", len(ring))
	vv.Assert(len(ps[0].InnerRings) == 0, "there are no holes")
	n := len(ring)
	vv.Assert(n >= 4, "a box has four corners")
	vv.Assert(vv.And(ring[0][0] == ring[n-1][0], ring[0][1] == ring[n-1][1]), "the box is closed")
	at := func(i int, lat, lon float64) bool { return vv.And(ring[i][0] == lon, ring[i][1] == lat) }
	is := func(lat, lon float64) bool {
		f := false
		for i := 0; i < n; i++ {
			f = vv.Or(f, at(i, lat, lon))
		}
		return f
	}
	vv.Assert(vv.And(is(x[0], x[1]), is(x[0], x[3]), is(x[2], x[1]), is(x[2], x[3])), "all corners are there")
	for i := 0; i < n; i++ {
		vv.Assert(vv.Or(at(i, x[0], x[1]), at(i, x[0], x[3]), at(i, x[2], x[1]), at(i, x[2], x[3])), "only corners are there")
		if i > 0 {
			vv.Assert(vv.Or(ring[i][0] == ring[i-1][0], ring[i][1] == ring[i-1][1]), "the sides do not cross")
		}
	}
	want := [][2]float64{{1, 2}, {1, 4}, {3, 4}, {3, 2}}
	for _, w := range want {
		f := false
		for _, p := range ps[1].OuterRing {
			f = f || p[0] == w[1] && p[1] == w[0]
		}
		vv.Assert(f, "the second box")
	}
}

// zzVerifC25_tokens: lists of numbers and of anything else.
//
//vv:cases quick=12 thorough=15 timeout=120 ttimeout=400 nomerge=1
func zzVerifC25_tokens(c int) {
	toks := []string{"1", "-2.5", " 3", "4.25 ", "5\n", "", "x", "nan", "Inf", "1e400", "6 7", "1e1"}
	val := []float64{1, -2.5, 3, 4.25, 5, 0, 0, 0, 0, 0, 0, 10}
	n := 1 + c/3
	var xs []int
	o := []string{"polygon", "polygon-file", "bounding-box"}[c%3]
	r, ps := zzArea(o, false, func() []string {
		s := ""
		for i := 0; i < n; i++ {
			k := 0
			if i > 3 {
				k = 1
			}
			t := vv.Split(vv.Int("token"+vv.Itoa(i), k, len(toks)-1))
			if n > 2 && vv.Tier() == 0 {
				vv.Assume(t != 1 && t != 3 && t < 8)
			} else if n > 3 {
				vv.Assume(t != 1 && t != 3 && t < 9)
			}
			xs = append(xs, t)
			if i > 0 {
				s += ","
			}
			s += toks[t]
		}
		if c%3 == 1 {
			zzFiles = map[string]string{"area.txt": s}
			return []string{"area.txt"}
		}
		return []string{s}
	})
	if n == 1 && xs[0] == 5 {
		return // nothing given at all
	}
	ok := n%2 == 0
	for _, t := range xs {
		ok = ok && (t < 5 || t == 11)
	}
	if c%3 == 2 && n != 4 {
		ok = false // not two points
	}
	vv.ObsBool("accepted", r.feed != nil)
	vv.Cover("accepted", r.feed != nil || n%2 == 1 || c%3 == 2)
	vv.Cover("rejected", r.feed == nil)
	vv.Assert((r.feed != nil) == ok, "exactly pairs of numbers are accepted")
	if r.feed == nil {
		return
	}
	vv.Assert(len(ps) == 1, "there is one area")
	if c%3 != 2 {
		var pts [][2]float64
		for i := 0; i < n; i += 2 {
			pts = append(pts, [2]float64{val[xs[i]], val[xs[i+1]]})
		}
		vv.Assert(zzRing(ps[0].OuterRing, pts), "the ring consists of the points, and is closed")
	}
}

// zzVerifC25_json: areas from GeoJSON.
//
//vv:cases quick=4 thorough=4 timeout=120
func zzVerifC25_json(c int) {
	pt := func(i int) []float64 {
		return []float64{vv.F64("x"+vv.Itoa(i), -5, 0, 7.5), vv.F64("y"+vv.Itoa(i), 1, 48.25)}
	}
	mk := func(k int) [][][]float64 {
		a, b, d := pt(k), pt(k+1), pt(k+2)
		ps := [][][]float64{{a, b, d, a}}
		if vv.Split(vv.Int("hole"+vv.Itoa(k), 0, 1)) == 1 {
			ps = append(ps, [][]float64{b, d, a, b})
		}
		return ps
	}
	var want [][][][]float64
	fc := &geojson.FeatureCollection{}
	add := func(g *geojson.Geometry) { fc.Features = append(fc.Features, &geojson.Feature{Geometry: g}) }
	for i := 0; i < 2; i++ {
		switch vv.Split(vv.Int("geometry"+vv.Itoa(i), 0, 2)) {
		case 0:
			p := mk(10 * i)
			want = append(want, p)
			add(geojson.NewPolygonGeometry(p))
		case 1:
			p, q := mk(10*i), mk(10*i+5)
			want = append(want, p, q)
			add(geojson.NewMultiPolygonGeometry(p, q))
		case 2:
			add(geojson.NewPointGeometry(pt(10 * i)))
		}
	}
	fail := c >= 2
	geojson.VVUnmarshalFeatureCollection = func(data []byte) (*geojson.FeatureCollection, error) {
		if fail {
			return nil, errors.New("no GeoJSON")
		}
		return fc, nil
	}
	file := []string{"a.json", "a.geojson"}[c%2]
	zzFiles = map[string]string{file: "{}"}
	r, ps := zzArea("polygon-file", c == 1, func() []string { return []string{file} })
	geojson.VVUnmarshalFeatureCollection = nil
	vv.Assert((r.feed == nil) == fail, "exactly GeoJSON is accepted")
	vv.Cover("accepted", fail || r.feed != nil)
	if fail {
		return
	}
	vv.ObsInt("areas", len(ps))
	vv.Assert(len(ps) == len(want), "all polygons are areas")
	for i, w := range want {
		vv.Assert(len(ps[i].OuterRing) == len(w[0]) && len(ps[i].InnerRings) == len(w)-1, "outer and inner rings")
		for k, p := range w[0] {
			vv.Assert(vv.And(ps[i].OuterRing[k][0] == p[0], ps[i].OuterRing[k][1] == p[1]), "the outer ring")
		}
		for j := 1; j < len(w); j++ {
			vv.Assert(len(ps[i].InnerRings[j-1]) == len(w[j]), "inner ring")
			for k, p := range w[j] {
				q := ps[i].InnerRings[j-1][k]
				vv.Assert(vv.And(q[0] == p[0], q[1] == p[1]), "the inner ring")
			}
		}
	}
}

// zzVerifC25_digits: coordinates with up to 17 significant digits.
//
//vv:cases quick=2 thorough=4 timeout=120
func zzVerifC25_digits(c int) {
	menu := []string{"47.99834291", "-7.123456789012345", "0.1", "179.99999999", "12345678.875", "-0.000000123", "1e-3", "90"}
	var pts [][2]float64
	s := ""
	for i := 0; i < 3; i++ {
		var p [2]float64
		for k := 0; k < 2; k++ {
			j := (vv.Split(vv.Int("coordinate"+vv.Itoa(i)+"/"+vv.Itoa(k), 0, 1))*5 + i*2 + k + c*3) % len(menu)
			p[k] = []float64{47.99834291, -7.123456789012345, 0.1, 179.99999999, 12345678.875, -0.000000123, 1e-3, 90}[j]
			if len(s) > 0 {
				s += ","
			}
			s += menu[j]
		}
		pts = append(pts, p)
	}
	r, ps := zzArea("polygon", c%2 == 1, func() []string { return []string{s} })
	vv.Assert(r.feed != nil, "numbers are accepted")
	vv.Assert(len(ps) == 1, "there is an area for each option")
	vv.Assert(zzRing(ps[0].OuterRing, pts), "the ring consists of the points, and is closed")
	vv.ObsInt("points", len(ps[0].OuterRing))
}
