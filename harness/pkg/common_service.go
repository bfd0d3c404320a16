package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// symService fills s with an arbitrary weekday map on [from, from+ln) (none for
// ln = 0) and arbitrary exceptions on the days exc. The exploration is split over
// the presence of the exceptions, so the first and last defined dates are known.
func symService(s *gtfs.Service, name string, from, ln int, exc []int) (nex int) {
	if ln > 0 {
		s.SetRawDaymap(uint8(vv.Int(name+"map", 0, 127)))
		s.SetStart_date(day(from))
		s.SetEnd_date(day(from + ln - 1))
	}
	for i, d := range exc {
		h, ty := vv.Split(vv.Int(vv.N(name+"ex", i), 0, 1)) == 1, vv.Bool(vv.N(name+"type", i))
		if h {
			s.Exceptions()[day(d)] = ty
			nex++
		}
	}
	// a service with neither calendar nor exceptions does not occur
	vv.Assume(ln > 0 || nex > 0)
	return
}

// daysOf records on which days of [lo, hi] a service runs.
func daysOf(s *gtfs.Service, lo, hi int) []bool {
	r := make([]bool, hi-lo+1)
	for i := range r {
		r[i] = s.IsActiveOn(day(lo + i))
	}
	return r
}

// splitDays splits the exploration over days.
func splitDays(r []bool) (n int) {
	for i := range r {
		n += vv.Split(vv.IteInt(r[i], 1, 0))
	}
	return
}

func sameDays(a, b []bool) bool {
	r := true
	for i := range a {
		r = vv.And(r, a[i] == b[i])
	}
	return r
}

func anyDay(a []bool) bool {
	r := false
	for i := range a {
		r = vv.Or(r, a[i])
	}
	return r
}

// richTrip is a trip with all attributes set; its headsign identifies the
// original trip in what the processors make of it.
func richTrip(f *gtfsparser.Feed, id string, r *gtfs.Route, s *gtfs.Service, st *gtfs.Stop, n int) *gtfs.Trip {
	t := addTrip(f, id, r, s)
	h, sn, bl := "h"+vv.Itoa(n), "n"+vv.Itoa(n), "b"+vv.Itoa(n)
	t.Headsign, t.Short_name, t.Block_id = &h, &sn, &bl
	t.Direction_id, t.Wheelchair_accessible, t.Bikes_allowed = int8(n%2), int8(n%3), int8((n+1)%3)
	t.StopTimes = append(t.StopTimes, stime(st, 1, hms(100+n), hms(110+n), 0), stime(st, 2, hms(200+n), hms(210+n), 1))
	t.Frequencies = &[]*gtfs.Frequency{{Exact_times: true, Start_time: hms(0), End_time: hms(3600), Headway_secs: 600 + n}}
	t.Attributions = &[]*gtfs.Attribution{{Id: "at" + vv.Itoa(n), Organization_name: "o"}}
	return t
}

// checkCopy asserts that t has the content of the original o.
func checkCopy(t, o *gtfs.Trip) {
	vv.Assert(t.Route == o.Route && t.Shape == o.Shape, "route and shape of the trip are kept")
	vv.Assert(eqStrP(t.Headsign, o.Headsign) && eqStrP(t.Short_name, o.Short_name) && eqStrP(t.Block_id, o.Block_id), "headsign, short name and block of the trip are kept")
	vv.Assert(t.Direction_id == o.Direction_id && t.Wheelchair_accessible == o.Wheelchair_accessible && t.Bikes_allowed == o.Bikes_allowed, "direction and accessibility of the trip are kept")
	vv.Assert(len(t.StopTimes) == len(o.StopTimes), "stop times of the trip are kept")
	for i := range t.StopTimes {
		vv.Assert(t.StopTimes[i] == o.StopTimes[i], "stop times of the trip are kept")
	}
	vv.Assert((t.Frequencies == nil) == (o.Frequencies == nil), "frequencies of the trip are kept")
	if o.Frequencies != nil {
		vv.Assert(len(*t.Frequencies) == len(*o.Frequencies), "frequencies of the trip are kept")
		for i := range *t.Frequencies {
			vv.Assert(*(*t.Frequencies)[i] == *(*o.Frequencies)[i], "frequencies of the trip are kept")
		}
	}
	vv.Assert((t.Attributions == nil) == (o.Attributions == nil), "attributions of the trip are kept")
	if o.Attributions != nil {
		vv.Assert(len(*t.Attributions) == len(*o.Attributions), "attributions of the trip are kept")
		for i := range *t.Attributions {
			vv.Assert(*(*t.Attributions)[i] == *(*o.Attributions)[i], "attributions of the trip are kept")
		}
	}
}

// checkRuns asserts that on every day of [lo, hi] the original trips os are
// represented exactly once if they ran and not at all otherwise.
func checkRuns(f *gtfsparser.Feed, os []*gtfs.Trip, was [][]bool, lo, hi int) {
	cnt := make([][]int, len(os))
	for k := range os {
		cnt[k] = make([]int, hi-lo+1)
	}
	for id, t := range f.Trips {
		vv.Assert(t.Id == id, "trip under its own ID")
		vv.Assert(f.Services[t.Service.Id()] == t.Service, "service of trip in feed")
		k := -1
		for i, o := range os {
			if *t.Headsign == *o.Headsign {
				k = i
			}
		}
		vv.Assert(k >= 0, "no trip is invented")
		checkCopy(t, os[k])
		days := daysOf(t.Service, lo, hi)
		for d := range days {
			cnt[k][d] += vv.IteInt(days[d], 1, 0)
		}
	}
	for k := range os {
		for d := range cnt[k] {
			vv.Assert(cnt[k][d] == vv.IteInt(was[k][d], 1, 0), "trip is offered once on each of its days and on no other day")
		}
	}
}

func stTrip(f *gtfsparser.Feed, id string, r *gtfs.Route, s *gtfs.Service, h string, a, b *gtfs.Stop) *gtfs.Trip {
	t := addTrip(f, id, r, s)
	t.Headsign = &h
	t.StopTimes = append(t.StopTimes, stime(a, 1, hms(100), hms(110), 0), stime(b, 2, hms(200), hms(210), 1))
	return t
}

func orDays(a, b []bool) []bool {
	r := make([]bool, len(a))
	for i := range a {
		r[i] = vv.Or(a[i], b[i])
	}
	return r
}
