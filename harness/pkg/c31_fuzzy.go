package zz_verif

import (
	"math"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// extended and standard route types, and which mode of transport they are
var zzModes = [][2]int{{3, 3}, {700, 3}, {2, 2}, {109, 2}, {0, 0}, {900, 0}}

// C31_dates: three trips that may differ in route, headsign and accessibility, on
// services with arbitrary dates, and one of another mode of transport.
//
//vv:cases quick=8 thorough=16 timeout=300 ttimeout=2500
func C31_dates(c int) {
	f := gtfsparser.NewFeed()
	a, b := gtfs.EmptyService(), gtfs.EmptyService()
	for id, s := range map[string]*gtfs.Service{"a": a, "b": b} {
		s.SetId(id)
		f.Services[id] = s
	}
	off := []int{0, 2, 4, 7}[c%4]
	symService(a, "a", 0, 3, []int{1})
	symService(b, "b", off, 3, []int{off + 2})
	lo, hi := -2, 15
	wa, wb := daysOf(a, lo, hi), daysOf(b, lo, hi)
	for d := 0; d < 7; d++ {
		if d == 1 || d == 3 {
			vv.Split(vv.IteInt(a.Daymap(d), 1, 0))
			vv.Split(vv.IteInt(b.Daymap(d), 1, 0))
		} else if d == 2 || d == 4 {
			vv.Split(vv.IteInt(a.Daymap(d), 1, 0))
			vv.Assume(vv.Iff(a.Daymap(d), b.Daymap(d)))
		} else {
			vv.Assume(vv.And(!a.Daymap(d), !b.Daymap(d)))
		}
	}
	splitDays(wa)
	splitDays(wb)
	ag := addAgency(f, "ag")
	r, q, x := addRoute(f, "r", ag), addRoute(f, "q", ag), addRoute(f, "x", ag)
	q.Type, x.Type = 700, 2
	s1, s2 := addStop(f, "s1"), addStop(f, "s2")
	stTrip(f, "t0", r, a, "x", s1, s2)
	stTrip(f, "t1", q, b, "y", s1, s2).Wheelchair_accessible = 1
	t2 := stTrip(f, "t2", r, a, "z", s1, s2)
	wx := orDays(wa, wb)
	var wy []bool
	if c/4%2 == 0 {
		t2.Route = x
		wy = wa
	} else {
		s := addService(f, "c", 127, day(1), day(2))
		t2.Service = s
		wx = orDays(wx, daysOf(s, lo, hi))
		wy = make([]bool, len(wx))
	}
	vv.SetCPU(1)
	vv.MapOrder(c / 8 % 2)
	processors.TripDuplicateRemover{Fuzzy: true, Aggressive: c%2 == 1, MaxDayDist: 7}.Run(f)
	closed(f)
	nx := make([]bool, len(wx))
	ny := make([]bool, len(wx))
	for _, t := range f.Trips {
		vv.Assert(len(t.StopTimes) == 2 && t.StopTimes[0] == stime(s1, 1, hms(100), hms(110), 0) && t.StopTimes[1] == stime(s2, 2, hms(200), hms(210), 1), "remaining trips are unaltered")
		now := daysOf(t.Service, lo, hi)
		vv.Assert(!t.Service.IsActiveOn(day(lo-7)) && !t.Service.IsActiveOn(day(hi+7)), "no trip gains a running date")
		if t.Route == x {
			ny = orDays(ny, now)
		} else {
			nx = orDays(nx, now)
		}
	}
	vv.Assert(sameDays(nx, wx), "trips run on the same dates as before")
	vv.Assert(sameDays(ny, wy), "another mode of transport runs on the same dates as before")
	vv.Cover("merged", len(f.Trips) < 3)
	vv.Cover("none merged", len(f.Trips) == 3)
	vv.ObsInt("trips", len(f.Trips))
	vv.ObsInt("services", len(f.Services))
}

// C31_attr: two trips on the same, equal, containing, overlapping or adjacent services
// with arbitrary attributes and stop times at stops that may share a station.
//
//vv:cases quick=15 thorough=30 timeout=300 ttimeout=2500
func C31_attr(c int) {
	f := gtfsparser.NewFeed()
	ag := addAgency(f, "ag")
	ra, rb := addRoute(f, "ra", ag), addRoute(f, "rb", ag)
	sa := addService(f, "sa", 127, day(0), day(9))
	second := c / 3 % 5
	sb := addService(f, "sb", 127, day([]int{0, 0, 3, 4, 10}[second]), day([]int{0, 9, 5, 12, 14}[second]))
	st := addStop(f, "st")
	st.Location_type = 1
	s1, s2, s3 := addStop(f, "s1"), addStop(f, "s2"), addStop(f, "s3")
	s1.Parent_station, s2.Parent_station = st, st
	h1, h2, h3 := "h", "", "kk"
	heads := []*string{&h1, &h2, &h3}
	n := 3
	nan := float32(math.NaN())
	var ts [2]*gtfs.Trip
	var mode [2]int
	freq := [2]bool{}
	for i := range ts {
		k := "t" + vv.Itoa(i)
		t := addTrip(f, k, []*gtfs.Route{ra, rb}[i], sa)
		t.Headsign = &h1
		if c%3 == 0 { // trip attributes
			m := zzModes[vv.Split(vv.Int(k+"mode", 0, (len(zzModes)-1)*i))]
			t.Route.Type, mode[i] = int16(m[0]), m[1]
			t.Headsign = heads[vv.Split(vv.Int(k+"head", 0, 2))]
			t.Short_name = pickStrP(k+"short", "a", "bb")
			t.Block_id = pickStrP(k+"block", "a", "bb")
			t.Wheelchair_accessible = int8(vv.Int(k+"wheel", 0, 2))
			t.Bikes_allowed = int8(vv.Int(k+"bikes", 0, 2))
			t.Direction_id = int8(vv.Int(k+"dir", 0, 2))
			if fr := vv.Split(vv.Int(k+"freq", 0, 2)); fr > 0 {
				x := make([]*gtfs.Frequency, 0)
				if fr == 2 {
					x = append(x, &gtfs.Frequency{Start_time: hms(0), End_time: hms(3600), Headway_secs: 600})
					freq[i] = true
				}
				t.Frequencies = &x
			}
		}
		if c%3 == 2 && vv.Split(vv.Int(k+"shape", 0, 1)) == 1 {
			t.Shape = &gtfs.Shape{Id: k, Points: gtfs.ShapePoints{{Lat: 0, Lon: 0, Sequence: 1, Dist_traveled: 0}, {Lat: 0, Lon: 1, Sequence: 2, Dist_traveled: 100}}}
			f.Shapes[k] = t.Shape
		}
		for j := 0; j < n; j++ {
			kk := k + "s" + vv.Itoa(j)
			x := stime(s3, j+1, hms(100*j), hms(100*j+10), nan)
			if c%3 == 1 { // stops and times
				w, ar, de := vv.Int(kk+"stop", 0, 2), vv.Int(kk+"arr", 0, 2), vv.Int(kk+"dep", 0, 2)
				if j == 0 {
					vv.Assume(vv.Or(i > 0, vv.And(w == 0, de == 1)))
					w, de = vv.Split(w), vv.Split(de)
				}
				if j == n-1 {
					vv.Assume(vv.Or(i > 0, vv.And(w == 2-2*(c/15%2), ar == 1)))
					w, ar = vv.Split(w), vv.Split(ar)
				}
				if w == 0 {
					x.SetStop(s1)
				} else if w == 1 {
					x.SetStop(s2)
				}
				x.SetArrival_time(hms(100*j + ar))
				x.SetDeparture_time(hms(100*j + 10 + de))
			}
			if c%3 == 2 { // boarding rules, headsigns and measures
				x.SetPickup_type(uint8(vv.Int(kk+"pu", 0, 3)))
				x.SetDrop_off_type(uint8(vv.Int(kk+"do", 0, 3)))
				x.SetHeadsign(pickStrP(kk+"head", "a", "b"))
				if t.Shape != nil {
					x.SetShape_dist_traveled(float32(10*i + j))
				}
			}
			t.StopTimes = append(t.StopTimes, x)
		}
		ts[i] = t
	}
	if second > 0 {
		ts[1].Service = sb
	}
	a, b := *ts[0], *ts[1]
	a.StopTimes, b.StopTimes = append(gtfs.StopTimes{}, a.StopTimes...), append(gtfs.StopTimes{}, b.StopTimes...)
	lo, hi := -2, 17
	wa, wb := daysOf(a.Service, lo, hi), daysOf(b.Service, lo, hi)
	vv.SetCPU(1)
	vv.MapOrder(c / 15 % 2)
	processors.TripDuplicateRemover{Fuzzy: true, MaxDayDist: 7}.Run(f)
	closed(f)
	eq := mode[0] == mode[1]
	for j := 0; j < n; j++ {
		x, y := a.StopTimes[j], b.StopTimes[j]
		p, q := x.Stop(), y.Stop()
		eq = vv.And(eq, vv.Or(p == q, vv.And(p.Parent_station != nil, p.Parent_station == q.Parent_station)))
		if j > 0 {
			eq = vv.And(eq, x.Arrival_time() == y.Arrival_time())
		}
		if j < n-1 {
			eq = vv.And(eq, x.Departure_time() == y.Departure_time())
		}
	}
	_, in0 := f.Trips["t0"]
	_, in1 := f.Trips["t1"]
	both := vv.And(in0, in1)
	vv.Assert(vv.Or(in0, in1), "one of the trips remains")
	vv.Assert(vv.Or(eq, both), "only trips of the same mode at the same stations and times are merged")
	vv.Assert(vv.Or(!freq[0], in0) && vv.Or(!freq[1], in1), "trips with frequencies are kept")
	noFreq := !freq[0] && !freq[1]
	vv.Assert(vv.Or(!noFreq, !eq, second > 2, !both), "trips of the same mode, stations and times on dates of the other are merged")
	in := []bool{in0, in1}
	was := []*gtfs.Trip{&a, &b}
	var now []bool
	for i, t := range ts {
		o, p := was[i], was[1-i]
		days := daysOf(t.Service, lo, hi)
		for d := range days {
			days[d] = vv.And(in[i], days[d])
		}
		if i == 0 {
			now = days
		} else {
			now = orDays(now, days)
		}
		vv.Assert(vv.Implies(vv.And(both, !eq), sameDays(daysOf(t.Service, lo, hi), [][]bool{wa, wb}[i])), "trips that are not alike keep their dates")
		vv.Assert(t.Route == o.Route && eqStrP(t.Block_id, o.Block_id) && t.Direction_id == o.Direction_id, "the remaining trip keeps its route, block and direction")
		vv.Assert(vv.Implies(both, vv.And(eqStrP(t.Headsign, o.Headsign), eqStrP(t.Short_name, o.Short_name), t.Wheelchair_accessible == o.Wheelchair_accessible, t.Bikes_allowed == o.Bikes_allowed)), "trips that are not merged keep their attributes")
		better := func(x, y, z int8) bool { // y merged with z is x
			return vv.Or(x == y, vv.And(x == z, vv.Or(y == 0, vv.And(y == 2, z == 1))))
		}
		vv.Assert(vv.And(better(t.Wheelchair_accessible, o.Wheelchair_accessible, p.Wheelchair_accessible), better(t.Bikes_allowed, o.Bikes_allowed, p.Bikes_allowed)), "what is known of the trips is kept")
		vv.Assert(vv.Or(eqStrP(t.Headsign, o.Headsign), *o.Headsign == "" && eqStrP(t.Headsign, p.Headsign)), "the headsign is kept, or is that of the other trip")
		vv.Assert(vv.Or(eqStrP(t.Short_name, o.Short_name), o.Short_name == nil && eqStrP(t.Short_name, p.Short_name)), "the short name is kept, or is that of the other trip")
		vv.Assert(len(t.StopTimes) == n, "stop times are kept")
		vv.Assert(t.Shape == o.Shape || o.Shape == nil && t.Shape == p.Shape, "the shape is kept, or is that of the other trip")
		for j := 0; j < n; j++ {
			x, y := t.StopTimes[j], o.StopTimes[j]
			vv.Assert(sameST(&x, &y, false), "stop times keep all but their measure")
			m := y.Shape_dist_traveled()
			if t.Shape != o.Shape {
				m = p.StopTimes[j].Shape_dist_traveled()
			}
			vv.Assert(eqDist(x.Shape_dist_traveled(), m), "measures belong to the shape")
		}
	}
	vv.Assert(vv.Or(!eq, sameDays(now, orDays(wa, wb))), "trips run on the same dates as before")
	vv.Cover("merged", !both)
	vv.Cover("not merged", both)
	vv.ObsBool("both", both)
}
