package zz_verif

import (
	"math"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// C15_measure: a shape of 5 (6) points at free distances, some of them with free
// measures that do not decrease.
//
//vv:cases quick=8 thorough=24 timeout=300 ttimeout=2500
func C15_measure(c int) {
	f := gtfsparser.NewFeed()
	n := 5
	if c >= 8 {
		n = 6
	}
	force := c%2 == 1
	nan := float32(math.NaN())
	// unit of the measures
	unit := []int{1, 100, 1, 3}[c%4]
	legs := [][][]int{{{100, 100, 100, 100, 100}, {0, 100, 400, 0, 100}}, {{0, 0, 1000, 10, 10}, {1000, 10, 10, 300, 10}}, {{10, 10, 10, 700, 0}, {0, 200, 0, 200, 200}}, {{0, 0, 0, 0, 0}, {100, 50, 25, 12, 6}}}[c/2%4][vv.Split(vv.Int("legs", 0, 1))]
	steps := 2 - c/8%2
	s := &gtfs.Shape{Id: "s"}
	f.Shapes["s"] = s
	x := 0
	last := 0
	has := make([]bool, n)
	m := make([]int, n)
	at := make([]int, n)
	for i := 0; i < n; i++ {
		p := vv.N("p", i)
		if i > 0 {
			x += legs[i-1]
		}
		at[i] = x
		sp := gtfs.ShapePoint{Lon: float32(float64(x) * degPerM), Sequence: uint32(i * 2), Dist_traveled: nan}
		if has[i] = vv.Split(vv.Int(p+"has", 0, 1)) == 1; has[i] {
			last += unit * vv.Split(vv.Int(p+"step", 0, steps))
			m[i] = last
			sp.Dist_traveled = float32(last)
		}
		s.Points = append(s.Points, sp)
	}
	// a second shape, without measures, and one of one point
	f.Shapes["o"] = &gtfs.Shape{Id: "o", Points: gtfs.ShapePoints{{Lat: 0, Lon: 2, Sequence: 3, Dist_traveled: nan}, {Lat: 0, Lon: 2.5, Sequence: 7, Dist_traveled: nan}}}
	f.Shapes["one"] = &gtfs.Shape{Id: "one", Points: gtfs.ShapePoints{{Lat: 0, Lon: 2, Sequence: 3, Dist_traveled: nan}}}
	r := addRoute(f, "r", addAgency(f, "ag"))
	t := addTrip(f, "t", r, addService(f, "sv", 127, day(0), day(1)))
	t.Shape = s
	t.StopTimes = gtfs.StopTimes{stime(addStop(f, "st"), 1, hms(0), hms(0), 0), stime(addStop(f, "st2"), 2, hms(60), hms(60), vv.F32("stdist", 0.5, 3, 150, 100000))}
	if c%3 != 2 {
		// others, which may be at or beyond the end, too
		for i := 3; i < 5; i++ {
			t.StopTimes = append(t.StopTimes, stime(f.Stops["st"], i, hms(60*i), hms(60*i), vv.F32(vv.N("stdist", i), 3, 150, 100000, nan)))
		}
	}
	if c%3 == 1 {
		t.StopTimes[0].SetShape_dist_traveled(nan)
	}
	free(f, freePlatform|freeBoarding)
	before := snap(f)
	vv.SetCPU([]int{1, 2, 3, 8}[c%4])

	processors.ShapeRemeasurer{Force: force}.Run(f)

	closed(f)
	unaltered(f, before, mayPoints|mayTimes)
	for i := range t.StopTimes {
		a, b := &t.StopTimes[i], &before.trT[0][i]
		vv.Assert(sameST(a, b, false), "stop times keep all but their measure")
		ad, bd, e := a.Shape_dist_traveled(), b.Shape_dist_traveled(), s.Points[n-1].Dist_traveled
		vv.Assert(vv.Or(eqDist(ad, bd), vv.And(bd > e, ad == e)), "measures of stop times only change to the end of the shape")
		vv.Assert(vv.Or(ad != ad, e != e, ad <= e), "no stop time is measured beyond the end of the shape")
	}
	// does a part between two measured points give a unit of measurement?
	none, unitKnown := true, false
	prev := -1
	for i := 0; i < n; i++ {
		if !has[i] {
			continue
		}
		none = false
		if prev >= 0 && at[i] > at[prev] {
			unitKnown = vv.Or(unitKnown, m[i] > m[prev])
		}
		prev = i
	}
	all := vv.Or(none, unitKnown, force)
	for i := range s.Points {
		p := &s.Points[i]
		var was *gtfs.ShapePoint
		for k, x := range before.sh {
			if x == s {
				was = &before.shP[k][i]
			}
		}
		vv.Assert(p.Lat == was.Lat && p.Lon == was.Lon && p.Sequence == was.Sequence, "points keep their position")
		set := p.Dist_traveled == p.Dist_traveled
		vv.Assert(vv.Implies(all, set), "every point has a measure")
		if has[i] {
			vv.Assert(vv.Implies(all, p.Dist_traveled == float32(m[i])), "measures that were there are kept")
		}
		vv.Assert(vv.Implies(set, p.Dist_traveled >= 0), "measures are not negative")
		vv.Assert(vv.Or(all, !set), "measures without a unit are removed")
		if i > 0 {
			vv.Assert(vv.Implies(all, s.Points[i-1].Dist_traveled <= p.Dist_traveled), "measures never decrease")
		}
	}
	vv.ObsInt("end", vv.IteInt(all, int(s.Points[n-1].Dist_traveled), -1))
	vv.Assert(len(s.Points) == n, "no point is added or removed")
	if none {
		for i := range s.Points {
			d := float64(s.Points[i].Dist_traveled) - float64(at[i])
			vv.Assert(vv.And(d < 0.5, d > -0.5), "shapes without measures are measured in meters")
		}
	}
	// what is filled in is proportional to the way, at the unit of what is known
	last2, u, same := -1, -1.0, true
	for i := 0; i < n; i++ {
		if !has[i] {
			continue
		}
		if last2 >= 0 && at[i] > at[last2] {
			v := float64(m[i]-m[last2]) / float64(at[i]-at[last2])
			same = same && (u < 0 || u == v)
			u = v
			for j := last2 + 1; j < i; j++ {
				d := float64(s.Points[j].Dist_traveled) - float64(m[last2]) - v*float64(at[j]-at[last2])
				vv.Assert(!all || d < 0.1+0.01*float64(m[i]) && d > -0.1-0.01*float64(m[i]), "measures between known ones are proportional to the way")
			}
		}
		last2 = i
	}
	if u <= 0 {
		u, same = 1, force && same
	}
	for i := last2 + 1; i < n && last2 >= 0 && all && same; i++ {
		e := float64(m[last2]) + u*float64(at[i]-at[last2])
		d := float64(s.Points[i].Dist_traveled) - e
		vv.Assert(d < 0.1+0.01*e && d > -0.1-0.01*e, "measures after the last known one continue at the same unit")
		vv.Cover("continued", true)
	}
	vv.Cover("filled", vv.And(all, !has[1], has[0], has[2]))
	vv.Cover("removed", vv.And(!all, has[0]))
}
