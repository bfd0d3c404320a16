package zz_verif

import (
	"math"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// C17_remeasure: a trip of 3 (4) stop times at free places near or far from its
// shape, which has one of several courses and measures.
//
//vv:cases quick=8 thorough=32 timeout=300 ttimeout=2500
func C17_remeasure(c int) {
	f := gtfsparser.NewFeed()
	nan := float32(math.NaN())
	n := 3
	if c >= 16 {
		n = 4
	}
	// straight, there and back, loop, one point, equal points, two points, zigzag
	course := [][][2]float64{
		{{0, 0}, {400, 0}, {1000, 0}, {1500, 0}},
		{{0, 0}, {500, 0}, {1000, 0}, {500, 5}, {0, 5}},
		{{0, 0}, {700, 0}, {700, 700}, {0, 700}, {0, 0}},
		{{400, 0}},
		{{0, 0}, {0, 0}, {400, 0}, {400, 0}, {1500, 0}},
		{{0, 0}, {1500, 0}},
		{{0, 0}, {300, 100}, {600, 0}, {900, 100}, {1200, 0}},
		{{1500, 0}, {1000, 0}, {400, 0}, {0, 0}},
	}[c%8]
	lat0, lon0, k := 0.0, 0.0, 1.0
	if c%2 == 1 {
		lat0, lon0, k = 48, 7.8, math.Cos(48*math.Pi/180)
	}
	s := &gtfs.Shape{Id: "s"}
	f.Shapes["s"] = s
	me := vv.Split(vv.Int("measures", 0, 2))
	m := 0
	for i, p := range course {
		sp := gtfs.ShapePoint{Lat: float32(lat0 + p[1]*degPerM), Lon: float32(lon0 + p[0]*degPerM/k), Sequence: uint32(i), Dist_traveled: nan}
		switch me {
		case 1: // grows unevenly, in floats that do not add up exactly
			sp.Dist_traveled = []float32{0.1, 4.1, 10.7, 29.85, 61}[i]
		case 2:
			m += vv.Int(vv.N("step", i), 0, 2)
			sp.Dist_traveled = float32(m)
		}
		s.Points = append(s.Points, sp)
	}
	f.Shapes["o"] = &gtfs.Shape{Id: "o", Points: gtfs.ShapePoints{{Lat: 0, Lon: 2, Sequence: 3, Dist_traveled: 0}, {Lat: 0, Lon: 2.5, Sequence: 7, Dist_traveled: 9}}}
	f.Shapes["one"] = &gtfs.Shape{Id: "one", Points: gtfs.ShapePoints{{Lat: 0, Lon: 2, Sequence: 3, Dist_traveled: 0}}}
	r := addRoute(f, "r", addAgency(f, "ag"))
	sv := addService(f, "sv", 127, day(0), day(1))
	t := addTrip(f, "t", r, sv)
	t.Shape = s
	places := [][2]float64{{0, 10}, {400, 3}, {200, -150}, {1000, 0}, {700, 2000}, {1500, 0}}
	var stops []*gtfs.Stop
	last := 0
	bef := vv.Split(vv.Int("before", 0, 3)) // stop times measured before: none, all but one, all, one
	if bef == 3 {
		bef = -1
	}
	for i := 0; i < n; i++ {
		p := vv.N("st", i)
		pl := places[vv.Split(vv.Int(p, 0, len(places)-1))]
		st := addStop(f, p)
		st.Lat, st.Lon = float32(lat0+pl[1]*degPerM), float32(lon0+pl[0]*degPerM/k)
		stops = append(stops, st)
		d := nan
		if bef == 2 || bef == 1 && i != 1+c%2 || bef == -1 && i == c%3 {
			last += vv.Int(p+"step", 0, 3)
			d = float32(last)
		}
		x := stime(st, i+1, hms(60*i), hms(60*i+30), d)
		x.SetPickup_type(uint8(vv.Int(p+"pick", 0, 3)))
		x.SetDrop_off_type(uint8(vv.Int(p+"drop", 0, 3)))
		t.StopTimes = append(t.StopTimes, x)
	}
	u := addTrip(f, "u", r, sv)
	u.StopTimes = gtfs.StopTimes{stime(stops[0], 1, hms(0), hms(0), nan), stime(stops[1], 2, hms(60), hms(60), vv.F32("ud", 0, 7, nan))}
	addTrip(f, "v", r, sv).Shape = f.Shapes["one"]
	w := addTrip(f, "w", r, sv)
	w.Shape = f.Shapes["one"]
	w.StopTimes = gtfs.StopTimes{stime(stops[0], 1, hms(0), hms(0), nan)}
	f.Transfers[gtfs.TransferKey{From_stop: stops[0], To_stop: stops[1]}] = gtfs.TransferVal{Transfer_type: 1}

	before := snap(f)
	vv.MapOrder(c / 8 % 2)
	vv.SetCPU([]int{1, 2, 3, 8}[c%4])

	processors.StopTimeRemeasurer{}.Run(f)

	closed(f)
	unaltered(f, before, mayTimes)
	for i, x := range before.tr {
		vv.Assert(len(x.StopTimes) == len(before.trT[i]), "stop times are kept")
		if len(x.StopTimes) != len(before.trT[i]) {
			continue
		}
		for j := range x.StopTimes {
			vv.Assert(sameST(&x.StopTimes[j], &before.trT[i][j], x != t && x != w), "stop times keep all but their measure, without shape also their measure")
			if x != t {
				continue
			}
			a, b := x.StopTimes[j].Shape_dist_traveled(), before.trT[i][j].Shape_dist_traveled()
			e := s.Points[len(s.Points)-1].Dist_traveled
			vv.Assert(vv.Or(bef < 2, eqDist(a, b)), "fully measured trips keep their measures")
			vv.Assert(vv.Or(a != a, eqDist(a, b), vv.And(s.Points[0].Dist_traveled <= a, a <= e)), "new measures are in the range of the shape")
			if j > 0 {
				vv.Assert(vv.Or(a != a, !(x.StopTimes[j-1].Shape_dist_traveled() > a)), "measures never decrease")
			}
			vv.Assert(vv.Implies(me == 0 && b != b, a != a), "shapes without measures give none")
		}
	}
	a := t.StopTimes
	vv.Cover("measured", vv.And(bef == 0, me == 2, !(a[0].Shape_dist_traveled() != a[0].Shape_dist_traveled())))
	vv.Cover("failed", vv.And(bef == 0, me == 2, a[0].Shape_dist_traveled() != a[0].Shape_dist_traveled()))
	d := a[n-1].Shape_dist_traveled()
	vv.ObsInt("last", vv.IteInt(d == d, int(100*d), -1))
}
