package zz_verif

import (
	"math"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// C18_adj: a trip of 3 (4) stop times at one or two stops; every stop time has
// free times, boarding rules, headsign, timepoint flag and distance measure.
//
//vv:cases quick=5 thorough=9 timeout=300 ttimeout=2500
func C18_adj(c int) {
	f := gtfsparser.NewFeed()
	a, b := addStop(f, "a"), addStop(f, "b")
	r := addRoute(f, "r", addAgency(f, "ag"))
	sv := addService(f, "s", 127, day(0), day(1))
	h1, h2 := "h", "h2"
	t := addTrip(f, "t", r, sv)
	t.Headsign = &h1
	n := 3
	if c >= 5 {
		n = 4
	}
	last := 0
	for i := 0; i < n; i++ {
		p := vv.N("st", i)
		s := a
		if vv.Split(vv.Int(p+"stop", 0, 1)) == 1 {
			s = b
		}
		arr, dep := noTime(), noTime()
		if c%5 == 2 && vv.Split(vv.Int(p+"empty", 0, 1)) == 1 {
		} else {
			ar, de := vv.Int(p+"arr", 0, 59), vv.Int(p+"dep", 0, 59)
			vv.Assume(vv.And(last <= ar, ar <= de))
			last = de
			arr, dep = gtfs.Time{Hour: 8, Minute: int8(ar)}, gtfs.Time{Hour: 8, Minute: int8(de)}
		}
		x := gtfs.StopTime{}
		x.SetStop(s)
		x.SetSequence(3*i + 1)
		x.SetArrival_time(arr)
		x.SetDeparture_time(dep)
		x.SetHeadsign(&h1)
		x.SetContinuous_pickup(1)
		x.SetContinuous_drop_off(1)
		x.SetShape_dist_traveled(float32(math.NaN()))
		switch c % 5 {
		case 0:
			x.SetPickup_type(uint8(vv.Int(p+"pu", 0, 3)))
			x.SetDrop_off_type(uint8(vv.Int(p+"do", 0, 3)))
		case 1:
			y := gtfs.StopTime{}
			y.SetStop(s)
			y.SetSequence(3*i + 1)
			y.SetArrival_time(arr)
			y.SetDeparture_time(dep)
			y.SetHeadsign(&h1)
			y.SetPickup_type(uint8(vv.Int(p+"pu", 0, 1)))
			y.SetContinuous_pickup(uint8(vv.Int(p+"cpu", 0, 3)))
			y.SetContinuous_drop_off(uint8(vv.Int(p+"cdo", 0, 3)))
			y.SetShape_dist_traveled(1)
			x = y
		case 3:
			x.SetShape_dist_traveled([]float32{float32(math.NaN()), 1, 2, float32(i)}[vv.Split(vv.Int(p+"dist", 0, 3))])
		case 4:
			if vv.Split(vv.Int(p+"head", 0, 1)) == 1 {
				x.SetHeadsign(&h2)
			}
		}
		x.SetTimepoint(c%5 != 2 && (c%5 != 4 || vv.Split(vv.Int(p+"tp", 0, 1)) == 1))
		t.StopTimes = append(t.StopTimes, x)
	}
	addTrip(f, "t2", r, sv).StopTimes = gtfs.StopTimes{stime(a, 1, hms(0), hms(0), 0)}
	addTrip(f, "t3", r, sv)
	before := snap(f)
	old := append(gtfs.StopTimes{}, t.StopTimes...)

	processors.AdjacentStopTimeGrouper{}.Run(f)

	closed(f)
	unaltered(f, before, mayTimes)
	vv.Assert(len(f.Trips["t2"].StopTimes) == 1 && f.Trips["t2"].StopTimes[0] == stime(a, 1, hms(0), hms(0), 0) && len(f.Trips["t3"].StopTimes) == 0, "other trips are unaltered")
	vv.Cover("grouped", len(t.StopTimes) < n)
	vv.Assert(len(t.StopTimes) > 0 && t.StopTimes[0].Sequence() == 1, "the first visit is kept")
	next := 0
	for i := range t.StopTimes {
		x := &t.StopTimes[i]
		vv.Assert(next < n && x.Sequence() == old[next].Sequence(), "visits are in order")
		first := &old[next]
		end := n
		if i+1 < len(t.StopTimes) {
			end = (t.StopTimes[i+1].Sequence() - 1) / 3
		}
		vv.Assert(end > next && end <= n, "visits are in order")
		lst := &old[end-1]
		tp := true
		for k := next + 1; k < end; k++ {
			p, q := &old[k-1], &old[k]
			vv.Assert(p.Stop() == q.Stop(), "grouped visits are at the same stop")
			vv.Assert(p.Headsign() == q.Headsign(), "grouped visits have the same headsign")
			vv.Assert(vv.And(p.Continuous_pickup() == q.Continuous_pickup(), p.Continuous_drop_off() == q.Continuous_drop_off()), "grouped visits have the same continuous boarding rules")
			vv.Assert(eqDist(p.Shape_dist_traveled(), q.Shape_dist_traveled()), "there is no travel between grouped visits")
			vv.Assert(p.Arrival_time().Empty() == q.Arrival_time().Empty(), "visits with and without times are not grouped")
			tp = vv.And(tp, p.Timepoint() == q.Timepoint())
		}
		if end == next+1 {
			vv.Assert(sameST(x, first, true), "other visits are unaltered")
		} else {
			vv.Assert(x.Stop() == first.Stop() && x.Headsign() == first.Headsign(), "a merged visit keeps stop and headsign")
			vv.Assert(x.Arrival_time() == first.Arrival_time(), "a merged visit arrives with the first")
			vv.Assert(x.Departure_time() == lst.Departure_time(), "a merged visit departs with the last")
			vv.Assert(x.Pickup_type() == lst.Pickup_type(), "a merged visit allows boarding as the last")
			vv.Assert(x.Drop_off_type() == first.Drop_off_type(), "a merged visit allows alighting as the first")
			vv.Assert(vv.And(x.Continuous_pickup() == first.Continuous_pickup(), x.Continuous_drop_off() == first.Continuous_drop_off()), "a merged visit keeps the continuous boarding rules")
			vv.Assert(eqDist(x.Shape_dist_traveled(), first.Shape_dist_traveled()), "a merged visit keeps the distance")
			vv.Assert(vv.Or(!tp, x.Timepoint() == first.Timepoint()), "a merged visit keeps the timepoint flag")
		}
		next = end
	}
	vv.Assert(next == n, "no visit is lost")
	vv.ObsInt("n", len(t.StopTimes))
}
