package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// C05_dates: up to three equal trips on services with arbitrary dates, and a
// different trip that may share the service of the first. The case selects the
// position of the services, sharing, aggressive merging and map order.
//
//vv:cases quick=8 thorough=32 timeout=300 ttimeout=3000
func C05_dates(c int) {
	f := gtfsparser.NewFeed()
	base := 0
	off := []int{0, 2, 4, 7}[c%4]
	a, b := gtfs.EmptyService(), gtfs.EmptyService()
	for id, s := range map[string]*gtfs.Service{"a": a, "b": b} {
		s.SetId(id)
		f.Services[id] = s
	}
	var exa, exb []int
	ln := 3
	switch (c / 8) % 4 {
	case 0:
		exa, exb = []int{base + 1}, []int{base + off + 2}
	case 1:
		exa, exb = []int{base - 1, base + 3}, []int{base + off}
	case 2:
		ln = 0
		exa, exb = []int{base, base + 1, base + 2}, []int{base + off, base + off + 1, base + off + 4}
	case 3:
		exa, exb = []int{}, []int{base + off - 1, base + off + 3}
		ln = 4
	}
	symService(a, "a", base, ln, exa)
	symService(b, "b", base+off, ln, exb)
	lo, hi := base-2, base+15
	wa, wb := daysOf(a, lo, hi), daysOf(b, lo, hi)
	if ln > 0 {
		same := vv.Split(vv.Int("same", 0, 1)) == 1
		if same {
			vv.Assume(a.RawDaymap() == b.RawDaymap())
		}
		for d := 0; d < 7; d++ {
			if d >= 1 && d <= 4 {
				vv.Split(vv.IteInt(a.Daymap(d), 1, 0))
			} else {
				vv.Assume(!a.Daymap(d))
			}
			if !same && (d == 1 || d == 3) {
				vv.Split(vv.IteInt(b.Daymap(d), 1, 0))
			} else if !same && (d != 5 || off != 2) {
				vv.Assume(!b.Daymap(d))
			}
		}
	}
	splitDays(wa)
	splitDays(wb)
	r := addRoute(f, "r", addAgency(f, "ag"))
	s1, s2 := addStop(f, "s1"), addStop(f, "s2")
	stTrip(f, "t0", r, a, "x", s1, s2)
	stTrip(f, "t1", r, b, "x", s1, s2)
	var wy []bool
	if c/4%2 == 0 {
		stTrip(f, "t2", r, a, "y", s1, s2)
		wy = wa
	} else {
		// a third equal one
		s := gtfs.EmptyService()
		s.SetId("merged0")
		s.SetRawDaymap(127)
		s.SetStart_date(day(base + 2))
		s.SetEnd_date(day(base + 2 + off%3))
		f.Services["merged0"] = s
		stTrip(f, "t2", r, s, "x", s1, s2)
		wa = orDays(wa, daysOf(s, lo, hi))
	}
	wx := orDays(wa, wb)
	vv.SetCPU(1)
	vv.MapOrder(c / 2 % 2)
	processors.TripDuplicateRemover{Aggressive: c%2 == 1, MaxDayDist: 7}.Run(f)
	closed(f)
	nx := make([]bool, len(wx))
	ny := make([]bool, len(wx))
	for _, t := range f.Trips {
		vv.Assert(t.Route == r && len(t.StopTimes) == 2 && t.StopTimes[0] == stime(s1, 1, hms(100), hms(110), 0) && t.StopTimes[1] == stime(s2, 2, hms(200), hms(210), 1), "remaining trips are unaltered")
		now := daysOf(t.Service, lo, hi)
		vv.Assert(!t.Service.IsActiveOn(day(lo-7)) && !t.Service.IsActiveOn(day(hi+7)), "no trip gains a running date")
		if *t.Headsign == "x" {
			nx = orDays(nx, now)
		} else {
			vv.Assert(*t.Headsign == "y", "no trip is invented")
			ny = orDays(ny, now)
		}
	}
	vv.Assert(sameDays(nx, wx), "equal trips run on the same dates as before")
	if wy != nil {
		vv.Assert(sameDays(ny, wy), "another trip runs on the same dates as before")
	}
	vv.Cover("merged", len(f.Trips) < 3)
	vv.Cover("none merged", len(f.Trips) == 3)
	vv.Cover("new service", len(f.Services) == 3 && wy != nil)
	vv.ObsInt("trips", len(f.Trips))
	vv.ObsInt("services", len(f.Services))
}

// C05_attr: two trips on the same or containing services with arbitrary attributes
// and stop times at stops that may share a station.
//
//vv:cases quick=6 thorough=12 timeout=300 ttimeout=3000
func C05_attr(c int) {
	f := gtfsparser.NewFeed()
	ag := addAgency(f, "ag")
	ra, rb := addRoute(f, "ra", ag), addRoute(f, "rb", ag)
	sa := addService(f, "sa", 127, day(0), day(9))
	sb := addService(f, "sb", 127, day(3), day(5))
	st := addStop(f, "st")
	st.Location_type = 1
	s1, s2, s3 := addStop(f, "s1"), addStop(f, "s2"), addStop(f, "s3")
	s1.Parent_station, s2.Parent_station = st, st
	h1, h2, h3 := "h", "h", "k"
	heads := []*string{&h1, &h2, &h3}
	n := 3
	var ts [2]*gtfs.Trip
	fld(f.TripsAddFlds, "q")
	for i := range ts {
		k := "t" + vv.Itoa(i)
		t := addTrip(f, k, ra, sa)
		switch c % 3 {
		case 0: // trip attributes
			if vv.Split(vv.Int(k+"route", 0, 1)) == 1 {
				t.Route = rb
			}
			hs := vv.Split(vv.Int(k+"head", 0, 2))
			t.Headsign = heads[hs]
			h4, h5, h6 := "a", "a", "b"
			t.Short_name = []*string{nil, &h4, &h5, &h6}[vv.Split(vv.Int(k+"short", 0, 3))]
			t.Block_id = pickStrP(k+"block", "a", "b")
			t.Wheelchair_accessible = int8(vv.Int(k+"wheel", 0, 2))
			t.Bikes_allowed = int8(vv.Int(k+"bikes", 0, 2))
			t.Direction_id = int8(vv.Int(k+"dir", 0, 2))
			if vv.Bool(k + "fld") {
				f.TripsAddFlds["q"][k] = vv.Str(k+"fldv", "1", "2")
			}
			if fr := vv.Int(k+"freq", 0, 2); fr > 0 {
				x := make([]*gtfs.Frequency, 0)
				if fr == 2 {
					x = append(x, &gtfs.Frequency{Start_time: hms(0), End_time: hms(3600), Headway_secs: 600})
				}
				t.Frequencies = &x
			}
		default:
			t.Headsign = &h1
		}
		for j := 0; j < n; j++ {
			kk := k + "s" + vv.Itoa(j)
			x := stime(s3, j+1, hms(100*j), hms(100*j+10), 0)
			if c%3 == 1 { // stops and times
				// the ends of the first trip are fixed
				w, ar, de := vv.Int(kk+"stop", 0, 2), vv.Int(kk+"arr", 0, 2), vv.Int(kk+"dep", 0, 2)
				if j == 0 {
					vv.Assume(vv.Or(i > 0, vv.And(w == 0, de == 1)))
					w, de = vv.Split(w), vv.Split(de)
				}
				if j == n-1 {
					vv.Assume(vv.Or(i > 0, vv.And(w == 2-2*(c/6%2), ar == 1)))
					w, ar = vv.Split(w), vv.Split(ar)
				}
				if w == 0 {
					x.SetStop(s1)
				} else if w == 1 {
					x.SetStop(s2)
				}
				x.SetArrival_time(hms(100*j + ar))
				x.SetDeparture_time(hms(100*j + 10 + de))
			}
			if c%3 == 2 { // boarding rules
				x.SetPickup_type(uint8(vv.Int(kk+"pu", 0, 3)))
				x.SetDrop_off_type(uint8(vv.Int(kk+"do", 0, 3)))
				x.SetContinuous_pickup(uint8(vv.Int(kk+"cpu", 0, 3)))
				x.SetContinuous_drop_off(uint8(vv.Int(kk+"cdo", 0, 3)))
				x.SetHeadsign(pickStrP(kk+"head", "a", "b"))
			}
			t.StopTimes = append(t.StopTimes, x)
		}
		ts[i] = t
	}
	if c/3%2 == 1 {
		ts[1].Service = sb
	}
	a, b := *ts[0], *ts[1]
	vv.SetCPU(1)
	vv.MapOrder(c / 6 % 2)
	fa, fb := f.TripsAddFlds["q"]["t0"], f.TripsAddFlds["q"]["t1"]
	processors.TripDuplicateRemover{MaxDayDist: 7}.Run(f)
	closed(f)
	eq := vv.And(a.Route == b.Route, eqStrP(a.Headsign, b.Headsign), eqStrP(a.Short_name, b.Short_name), eqStrP(a.Block_id, b.Block_id),
		a.Wheelchair_accessible == b.Wheelchair_accessible, a.Bikes_allowed == b.Bikes_allowed, a.Direction_id == b.Direction_id, fa == fb)
	for j := 0; j < n; j++ {
		x, y := a.StopTimes[j], b.StopTimes[j]
		p, q := x.Stop(), y.Stop()
		eq = vv.And(eq, vv.Or(p == q, vv.And(p.Parent_station != nil, p.Parent_station == q.Parent_station)))
		if j > 0 {
			eq = vv.And(eq, x.Arrival_time() == y.Arrival_time())
		}
		if j < n-1 {
			eq = vv.And(eq, x.Departure_time() == y.Departure_time())
		}
		eq = vv.And(eq, x.Pickup_type() == y.Pickup_type(), x.Drop_off_type() == y.Drop_off_type(),
			x.Continuous_pickup() == y.Continuous_pickup(), x.Continuous_drop_off() == y.Continuous_drop_off(), eqStrP(x.Headsign(), y.Headsign()))
	}
	_, in0 := f.Trips["t0"]
	_, in1 := f.Trips["t1"]
	vv.Assert(vv.Or(in0, in1), "one of the trips remains")
	vv.Assert(vv.Or(eq, vv.And(in0, in1)), "only equal trips are merged")
	if c/3%2 == 1 {
		vv.Assert(in0, "the trip with more dates remains")
	}
	noFreq := vv.And(vv.Or(a.Frequencies == nil, vv.Int("t0freq", 0, 2) < 2), vv.Or(b.Frequencies == nil, vv.Int("t1freq", 0, 2) < 2))
	vv.Assert(vv.Or(noFreq, vv.And(in0, in1)), "trips with frequencies are kept")
	for i, o := range []gtfs.Trip{a, b} {
		t := ts[i]
		vv.Assert(vv.And(t.Route == o.Route, t.Headsign == o.Headsign, t.Short_name == o.Short_name, t.Block_id == o.Block_id, t.Wheelchair_accessible == o.Wheelchair_accessible, t.Bikes_allowed == o.Bikes_allowed, t.Direction_id == o.Direction_id, t.Service == o.Service), "remaining trip is unaltered")
	}
	vv.Cover("merged", !vv.And(in0, in1))
	vv.Cover("not merged", vv.And(in0, in1))
	vv.ObsBool("both", vv.And(in0, in1))
}

// C05_groups: more trips of up to three kinds on one of three overlapping services
// each, with several workers.
//
//vv:cases quick=4 thorough=16 timeout=300 ttimeout=2500
func C05_groups(c int) {
	n := 4 + c/8
	f := gtfsparser.NewFeed()
	r := addRoute(f, "r", addAgency(f, "a"))
	s1, s2 := addStop(f, "s1"), addStop(f, "s2")
	ss := []*gtfs.Service{addService(f, "u", 127, day(0), day(1)), addService(f, "v", 127, day(1), day(2)), addService(f, "w", 127, day(3), day(3))}
	kinds := []string{"x", "y", "z"}
	var want [3][6]bool
	for i := 0; i < n; i++ {
		k := 0
		if i > 0 {
			// the first one has the first kind, the second one the second or the same
			k = vv.Split(vv.Int(vv.N("kind", i), 0, []int{0, 1, 2, 2, 2}[i]))
		}
		nv := 1
		if i > 2 {
			nv = 2
		}
		v := vv.Split(vv.Int(vv.N("service", i), 0, nv))
		stTrip(f, vv.N("t", i), r, ss[v], kinds[k], s1, s2)
		for d := 0; d < 6; d++ {
			want[k][d] = want[k][d] || ss[v].IsActiveOn(day(d))
		}
	}
	vv.SetCPU([]int{1, 3, 2, 8}[c%4])
	vv.MapOrder(c % 2)
	processors.TripDuplicateRemover{Aggressive: c/4%2 == 1, MaxDayDist: 7}.Run(f)
	closed(f)
	var now [3][6]bool
	for _, t := range f.Trips {
		for k := range kinds {
			for d := 0; d < 6; d++ {
				now[k][d] = now[k][d] || *t.Headsign == kinds[k] && t.Service.IsActiveOn(day(d))
			}
		}
		vv.Assert(t.Route == r && len(t.StopTimes) == 2, "remaining trips are unaltered")
		vv.Assert(!t.Service.IsActiveOn(day(-1)) && !t.Service.IsActiveOn(day(7)), "no trip gains a running date")
	}
	for k := range kinds {
		for d := 0; d < 6; d++ {
			vv.Assert(now[k][d] == want[k][d], "equal trips run on the same dates as before")
		}
	}
	vv.ObsBool("merged", len(f.Trips) < n)
}
