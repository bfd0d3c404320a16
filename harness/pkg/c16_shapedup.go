package zz_verif

import (
	"math"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

type line struct {
	xy [][2]float64 // meters
	m  []float64    // measures, NaN if there are none
}

// coveredBy says whether every part of a is within d of b.
func (a *line) coveredBy(b *line, d float64) bool {
	at := func(x, y float64) bool {
		if len(b.xy) == 1 {
			return segDist(x, y, b.xy[0][0], b.xy[0][1], b.xy[0][0], b.xy[0][1]) <= d
		}
		for j := 1; j < len(b.xy); j++ {
			if segDist(x, y, b.xy[j-1][0], b.xy[j-1][1], b.xy[j][0], b.xy[j][1]) <= d {
				return true
			}
		}
		return false
	}
	for i, p := range a.xy {
		if !at(p[0], p[1]) {
			return false
		}
		if i > 0 {
			q := a.xy[i-1]
			l := math.Sqrt((p[0]-q[0])*(p[0]-q[0]) + (p[1]-q[1])*(p[1]-q[1]))
			k := int(l/20) + 1
			for s := 1; s < k; s++ {
				t := float64(s) / float64(k)
				if !at(q[0]+t*(p[0]-q[0]), q[1]+t*(p[1]-q[1])) {
					return false
				}
			}
		}
	}
	return true
}

// measuredLike says whether the measures of all but the last point of a are among
// those of the points of b around.
func (a *line) measuredLike(b *line) bool {
	for i := 0; i < len(a.xy)-1; i++ {
		best, bi := math.Inf(1), 0
		for j := 1; j < len(b.xy); j++ {
			if d := segDist(a.xy[i][0], a.xy[i][1], b.xy[j-1][0], b.xy[j-1][1], b.xy[j][0], b.xy[j][1]); d < best {
				best, bi = d, j
			}
		}
		lo, hi := bi-3, bi+2
		if lo < 0 {
			lo = 0
		}
		if hi > len(b.xy)-1 {
			hi = len(b.xy) - 1
		}
		if a.m[i] < b.m[lo]-1 || a.m[i] > b.m[hi]+1 {
			return false
		}
	}
	return true
}

// C16_shapes: a shape, a second one of ten courses near or not so near to it, a
// third one, all with or without measures of different units, and trips on them.
//
//vv:cases quick=8 thorough=24 timeout=400 ttimeout=2500
func C16_shapes(c int) {
	f := gtfsparser.NewFeed()
	const maxD = 10.0
	lat0, lon0 := 0.0, 0.0
	if c%2 == 1 {
		lat0, lon0 = 48, 7.8
	}
	k := math.Cos(lat0 * math.Pi / 180)
	base := [][2]float64{{0, 0}, {100, 10}, {200, 20}, {300, 40}, {330, 45}}
	off := func(d float64) (r [][2]float64) {
		for _, p := range base {
			r = append(r, [2]float64{p[0], p[1] + d})
		}
		return r
	}
	course := func(kind int) [][2]float64 {
		switch kind {
		case 1:
			return off(6)
		case 2:
			return off(30)
		case 3: // a point less
			return [][2]float64{{0, 0}, {200, 20}, {300, 40}, {330, 45}}
		case 4: // a point elsewhere
			return [][2]float64{{0, 0}, {100, 10}, {200, 60}, {300, 40}, {330, 45}}
		case 5: // longer
			return append(off(0), [2]float64{400, 50})
		case 6: // the other way round
			return [][2]float64{{330, 45}, {300, 40}, {200, 20}, {100, 10}, {0, 0}}
		case 7: // shorter
			return base[:4]
		case 8: // a spike
			return [][2]float64{{0, 0}, {100, 10}, {150, 15}, {150, 55}, {150.5, 15}, {200, 20}, {300, 40}, {330, 45}}
		case 9: // starts elsewhere
			return [][2]float64{{0, 40}, {100, 10}, {200, 20}, {300, 40}, {330, 45}}
		case 10:
			return off(12)
		case 11: // one point
			return base[:1]
		case 12: // two points
			return [][2]float64{{0, 0}, {330, 45}}
		}
		return off(0)
	}
	ls := make(map[*gtfs.Shape]*line)
	shapes := make([]*gtfs.Shape, 3)
	add := func(i int, id string, kind int, me int) {
		s := &gtfs.Shape{Id: id}
		l := &line{xy: course(kind)}
		d := 0.0
		for j, p := range l.xy {
			if j > 0 {
				q := l.xy[j-1]
				d += math.Sqrt((p[0]-q[0])*(p[0]-q[0]) + (p[1]-q[1])*(p[1]-q[1]))
			}
			m := d
			switch me {
			case 0:
				m = math.NaN()
			case 2:
				m = 2 * d
			case 3:
				m = d + 1000
			case 4: // measured in between only
				if j == 0 || j == len(l.xy)-1 {
					m = math.NaN()
				}
			}
			l.m = append(l.m, m)
			s.Points = append(s.Points, gtfs.ShapePoint{Lat: float32(lat0 + p[1]*degPerM), Lon: float32(lon0 + p[0]*degPerM/k), Sequence: uint32(j), Dist_traveled: float32(m)})
		}
		f.Shapes[id] = s
		ls[s] = l
		shapes[i] = s
	}
	add(0, "a", 0, vv.Split(vv.Int("ma", 0, 1)))
	if c/2%4 == 3 {
		add(1, "b", 1, vv.Split(vv.Int("mb", 0, 1)))
		add(2, "c", []int{0, 10, 12}[vv.Split(vv.Int("c", 0, 2))], vv.Split(vv.Int("mc", 0, 4)))
	} else {
		add(1, "b", vv.Split(vv.Int("b", 0, 9)), vv.Split(vv.Int("mb", 0, 4)))
		add(2, "c", []int{11, 2, 12}[c/2%4], c/2%2)
	}
	r := addRoute(f, "r", addAgency(f, "ag"))
	sv := addService(f, "s", 127, day(0), day(1))
	st := addStop(f, "st")
	trips := make([]*gtfs.Trip, 5)
	for i := range trips {
		trips[i] = addTrip(f, vv.N("t", i), r, sv)
		trips[i].StopTimes = gtfs.StopTimes{stime(st, 1, hms(0), hms(0), vv.F32("d", 0, 5, 120)), stime(st, 2, hms(9), hms(9), 150)}
		if i < 3 {
			trips[i].Shape = shapes[i]
		}
	}
	trips[4].Shape = shapes[vv.Split(vv.Int("t4", 0, 1))]
	free(f, 0)
	before := snap(f)
	was := make([]*gtfs.Shape, len(trips))
	for i, t := range trips {
		was[i] = t.Shape
	}
	vv.MapOrder([]int{0, 1, 2}[c/8%3])
	vv.SetCPU([]int{1, 2, 3, 8}[c/2%4])

	processors.ShapeDuplicateRemover{MaxEqDist: maxD}.Run(f)

	closed(f)
	unaltered(f, before, mayDrop|mayShape)
	var near [3][3]bool
	for i, s := range shapes {
		for j, o := range shapes {
			a, b := ls[s], ls[o]
			near[i][j] = i == j || len(a.xy) > 1 && len(b.xy) > 1 && a.coveredBy(b, maxD+1) && b.coveredBy(a, maxD+1) && a.measuredLike(b) && b.measuredLike(a)
		}
	}
	for k := range shapes {
		for i := range shapes {
			for j := range shapes {
				near[i][j] = near[i][j] || near[i][k] && near[k][j]
			}
		}
	}
	idx := func(s *gtfs.Shape) int {
		for i, o := range shapes {
			if o == s {
				return i
			}
		}
		return -1
	}
	for i, t := range trips {
		vv.Assert(f.Trips[t.Id] == t, "trips are kept")
		if was[i] == nil {
			vv.Assert(t.Shape == nil, "trips without shape stay without")
			continue
		}
		j := idx(t.Shape)
		vv.Assert(j >= 0 && f.Shapes[t.Shape.Id] == t.Shape, "trips with a shape have one of the remaining shapes")
		if j < 0 {
			continue
		}
		o := idx(was[i])
		vv.Assert(near[o][j], "the shape of a trip is near equal to the one it had")
		vv.Assert(f.Shapes[was[i].Id] != was[i] || t.Shape == was[i], "trips keep a shape that is kept")
		n, n2 := len(ls[shapes[o]].m), len(ls[shapes[j]].m)
		vv.Assert(math.IsNaN(ls[shapes[o]].m[n-1]) || !math.IsNaN(ls[shapes[j]].m[n2-1]), "trips with a measured shape get a measured shape")
	}
	for i, s := range shapes {
		if f.Shapes[s.Id] == s {
			continue
		}
		ok := false
		for j, o := range shapes {
			ok = ok || i != j && near[i][j] && f.Shapes[o.Id] == o
		}
		vv.Assert(ok, "shapes are only removed if a near equal one remains")
	}
	if c/2%4 != 3 {
		vv.ObsInt("shapes", len(f.Shapes))
	}
	vv.Cover("merged", len(f.Shapes) < 3)
	vv.Cover("all kept", len(f.Shapes) == 3)
}

// C16_groups: more shapes at one of three places each, forming any number of groups.
//
//vv:cases quick=2 thorough=8 timeout=300 ttimeout=2500
func C16_groups(c int) {
	n := 4 + c/4
	f := gtfsparser.NewFeed()
	r := addRoute(f, "r", addAgency(f, "ag"))
	sv := addService(f, "s", 127, day(0), day(1))
	var kind [5]int
	var ts [5]*gtfs.Trip
	ids := []string{"aaa", "b", "cc", "dddd", "eeeee"}
	for i := 0; i < n; i++ {
		kind[i] = vv.Split(vv.Int(vv.N("kind", i), 0, 2))
		s := &gtfs.Shape{Id: ids[i]}
		for j := 0; j < 3; j++ {
			s.Points = append(s.Points, gtfs.ShapePoint{Lat: float32(float64(kind[i]*50+i) * degPerM), Lon: float32(float64(100*j) * degPerM), Sequence: uint32(j), Dist_traveled: float32(100 * j)})
		}
		f.Shapes[s.Id] = s
		ts[i] = addTrip(f, vv.N("t", i), r, sv)
		ts[i].Shape = s
	}
	vv.SetCPU([]int{1, 3, 2, 8}[c%4])
	vv.MapOrder(c % 2)
	processors.ShapeDuplicateRemover{MaxEqDist: 10}.Run(f)
	closed(f)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			vv.Assert((kind[i] == kind[j]) == (ts[i].Shape == ts[j].Shape), "exactly the near equal shapes are merged")
		}
		var k int
		for j := 0; j < n; j++ {
			if ts[i].Shape.Id == ids[j] {
				k = kind[j]
			}
		}
		vv.Assert(k == kind[i], "the shape of a trip is near equal to the one it had")
	}
	vv.ObsInt("shapes", len(f.Shapes))
}
