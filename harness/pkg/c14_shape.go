package zz_verif

import (
	"math"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// C14_minimize: a shape of 5 (6) points along one of several courses with free
// lateral offsets and measures, next to a shape of one or two points.
//
//vv:cases quick=7 thorough=14 timeout=300 ttimeout=2500
func C14_minimize(c int) {
	f := gtfsparser.NewFeed()
	eps := []float64{1, 1, 1, 5, 1, 1, 0}[c%7]
	// meters along the line: straight, unequal steps, there and back, ring, one
	// place, back and there, long
	course := [][]float64{{0, 20, 40, 60, 80, 100}, {0, 1, 100, 101, 103, 400}, {0, 50, 100, 50, 20, 0}, {0, 100, 50, 20, 0, 0}, {0, 0, 0, 0, 0, 0}, {100, 0, 30, 110, 50, 90}, {0, 1000, 2000, 3000, 4000, 5000}}[c%7]
	n := 5
	if c >= 7 {
		n = 6
	}
	offs := []float64{0, 0.6, 2.4, 30}
	seq, step := []int{0, 1, 0, 5}[c%4], []int{1, 1, 3, 5}[c%4]
	add := func(id string, n int) *gtfs.Shape {
		s := &gtfs.Shape{Id: id}
		f.Shapes[id] = s
		return s
	}
	s := add("s", n)
	xs, ys := make([]float64, n), make([]float64, n)
	f.ShapesAddFlds["x"] = map[string]map[int]string{"s": {}, "o": {3: "o0", 7: "o1"}}
	vals := f.ShapesAddFlds["x"]["s"]
	has := make([]bool, n)
	for i := 0; i < n; i++ {
		xs[i] = course[i]
		if i == n-1 && c%7 == 3 {
			xs[i] = 0
		} else if i > 0 {
			ys[i] = offs[vv.Split(vv.Int(vv.N("y", i), 0, 3))]
		}
		p := gtfs.ShapePoint{Lat: float32(ys[i] * degPerM), Lon: float32(xs[i] * degPerM), Sequence: uint32(seq + i*step)}
		if c%2 == 1 {
			p.Lat, p.Lon = p.Lon, p.Lat
		}
		// measures tell the points of courses that visit a place twice apart
		p.Dist_traveled = float32(10 * i)
		if c%7 < 2 || c%7 > 4 {
			p.Dist_traveled = vv.F32(vv.N("m", i), float32(10*i), float32(10*i+5), float32(math.NaN()))
		}
		s.Points = append(s.Points, p)
		if has[i] = i != 2; has[i] {
			vals[seq+i*step] = vv.N("v", i)
		}
	}
	o := add("o", 2)
	o.Points = gtfs.ShapePoints{{Lat: 1, Lon: 2, Sequence: 3, Dist_traveled: 4}, {Lat: 2, Lon: 2, Sequence: 7, Dist_traveled: 5}}
	if c%2 == 1 {
		o.Points = o.Points[:1]
	}
	f.Shapes["ring"] = &gtfs.Shape{Id: "ring", Points: gtfs.ShapePoints{{Lat: 1, Lon: 2, Sequence: 1}, {Lat: 1.5, Lon: 2, Sequence: 2}, {Lat: 1.5, Lon: 2.5, Sequence: 3}, {Lat: 1, Lon: 2, Sequence: 4}}}
	r := addRoute(f, "r", addAgency(f, "ag"))
	t := addTrip(f, "t", r, addService(f, "sv", 127, day(0), day(1)))
	t.Shape = s
	t.StopTimes = gtfs.StopTimes{stime(addStop(f, "st"), 1, hms(0), hms(0), 0)}
	free(f, 0)
	before := snap(f)
	vv.SetCPU([]int{1, 2, 3, 8}[c%4])

	processors.ShapeMinimizer{Epsilon: eps}.Run(f)

	closed(f)
	unaltered(f, before, mayPoints)
	check := func(s *gtfs.Shape, was []gtfs.ShapePoint) (kept []int) {
		vv.Assert(len(s.Points) > 0 && len(s.Points) <= len(was), "no points are added")
		j := 0
		for i := range s.Points {
			p := &s.Points[i]
			for j < len(was) && !(p.Lat == was[j].Lat && p.Lon == was[j].Lon && (c%7 < 2 || c%7 > 4 || s.Id != "s" || p.Dist_traveled == was[j].Dist_traveled)) {
				j++
			}
			vv.Assert(j < len(was), "the points are some of the original ones in their order")
			if j == len(was) {
				return nil
			}
			vv.Assert(eqDist(p.Dist_traveled, was[j].Dist_traveled), "measures of points are unchanged")
			vv.Assert(i == 0 || s.Points[i-1].Sequence < p.Sequence, "sequence numbers increase")
			kept = append(kept, j)
			j++
		}
		vv.Assert(kept[0] == 0, "the first point is kept")
		vv.Assert(s.Points[len(s.Points)-1].Lat == was[len(was)-1].Lat && s.Points[len(s.Points)-1].Lon == was[len(was)-1].Lon && eqDist(s.Points[len(s.Points)-1].Dist_traveled, was[len(was)-1].Dist_traveled), "the last point is kept")
		return kept
	}
	for k, x := range before.sh {
		kept := check(x, before.shP[k])
		if x == o {
			vv.Assert(len(kept) == len(before.shP[k]), "ends of other shapes are kept")
			vv.Assert(f.ShapesAddFlds["x"]["o"][int(o.Points[0].Sequence)] == "o0", "additional fields stay with their point")
		}
		if x != s || kept == nil {
			continue
		}
		for i, j := range kept {
			v, ok := f.ShapesAddFlds["x"]["s"][int(s.Points[i].Sequence)]
			vv.Assert(ok == has[j] && (!ok || v == vv.N("v", j)), "additional fields stay with their point")
			if i == 0 {
				continue
			}
			a := kept[i-1]
			for d := a + 1; d < j; d++ {
				vv.Assert(segDist(xs[d], ys[d], xs[a], ys[a], xs[j], ys[j]) <= eps+0.02, "dropped points are near the simplified line")
			}
		}
		vv.ObsInt("kept", len(kept))
		vv.Cover("dropped", len(kept) < n)
		vv.Cover("all kept", len(kept) == n)
	}
}
