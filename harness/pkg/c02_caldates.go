package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// C02_dates: one service with arbitrary dates and two trips, and one that is
// split into two blocks, with one trip.
//
//vv:cases quick=8 thorough=28 timeout=300 ttimeout=3000
func C02_dates(c int) {
	f := gtfsparser.NewFeed()
	off := c % 7
	s := gtfs.EmptyService()
	s.SetId("s")
	f.Services["s"] = s
	exc := []int{off + 1, off + 4}
	ln := 3
	if vv.Tier() > 0 {
		ln = []int{3, 4, 1, 0}[(c/7)%4]
		exc = []int{off - 1, off + 1, off + ln + 1}
	}
	if c == 7 {
		ln = 0
		exc = []int{off, off + 1, off + 3, off + 8}
	}
	symService(s, "a", off, ln, exc)
	u := gtfs.EmptyService()
	u.SetId("s1")
	u.SetRawDaymap(127)
	u.SetStart_date(day(off))
	u.SetEnd_date(day(off + 2))
	u.Exceptions()[day(off+1)] = false
	f.Services["s1"] = u
	lo, hi := off-3, off+11
	was := daysOf(s, lo, hi)
	splitDays(was)
	for d := 0; d < 7 && ln > 0; d++ {
		vv.Split(vv.IteInt(s.Daymap((off+1+d)%7), 1, 0))
	}
	r := addRoute(f, "r", addAgency(f, "a"))
	st := addStop(f, "st")
	os := []*gtfs.Trip{richTrip(f, "t", r, s, st, 0), richTrip(f, "t1", r, s, st, 1), richTrip(f, "t2", r, u, st, 2)}
	f.TripsAddFlds["x"] = map[string]string{"t": "v0", "t1": "v1", "t2": "v2"}
	var orig []*gtfs.Trip
	for _, o := range os {
		x := *o
		x.StopTimes = append(gtfs.StopTimes{}, o.StopTimes...)
		orig = append(orig, &x)
	}
	wasAll := [][]bool{was, was, daysOf(u, lo, hi)}
	vv.MapOrder(c % 2)
	processors.ServiceCalDatesRem{}.Run(f)
	for id, s := range f.Services {
		vv.Assert(s.Id() == id, "service under its own ID")
		vv.Assert(len(s.Exceptions()) == 0, "no exceptions are left")
	}
	checkRuns(f, orig, wasAll, lo, hi)
	for id, t := range f.Trips {
		vv.Assert(f.TripsAddFlds["x"][id] == "v"+(*t.Headsign)[1:], "additional fields of the trip are kept")
	}
	vv.Cover("split", len(f.Services) > 3)
	vv.Cover("not split", len(f.Services) == 3)
	vv.ObsInt("services", len(f.Services))
	vv.ObsInt("trips", len(f.Trips))
}

// C02_ids: services that are split into up to twelve blocks, with IDs of services
// and trips that look like generated ones.
//
//vv:cases quick=4 thorough=8 timeout=200 ttimeout=1500
func C02_ids(c int) {
	f := gtfsparser.NewFeed()
	menu := []string{"x1", "x2", "x11", "x12", "x", "y"}
	sid, tid := menu[vv.Pick("sid", 6)], menu[vv.Pick("tid", 6)]
	r := addRoute(f, "r", addAgency(f, "a"))
	st := addStop(f, "st")
	var ss []*gtfs.Service
	var os []*gtfs.Trip
	var was [][]bool
	n := 9 + c/2
	for k, id := range []string{sid, "x", "x3"} {
		if id == "x" && k == 0 {
			vv.Assume(false)
		}
		s := gtfs.EmptyService()
		s.SetId(id)
		f.Services[id] = s
		m := n
		if k != 1 {
			m = 3
		}
		for d := 0; d < m; d++ {
			s.Exceptions()[day(2*d)] = true
		}
		ss = append(ss, s)
	}
	vv.Assume(tid != "x")
	for k, id := range []string{tid, "x", "x4"} {
		o := richTrip(f, id, r, ss[k], st, k)
		x := *o
		x.StopTimes = append(gtfs.StopTimes{}, o.StopTimes...)
		os = append(os, &x)
		was = append(was, daysOf(ss[k], -1, 2*n))
	}
	vv.MapOrder(c % 2)
	processors.ServiceCalDatesRem{}.Run(f)
	checkRuns(f, os, was, -1, 2*n)
	vv.Assert(len(f.Services) == n+6 && len(f.Trips) == n+6, "no trip or service is overwritten")
	vv.Cover("split", len(f.Services) > 3)
	vv.ObsInt("services", len(f.Services))
}
