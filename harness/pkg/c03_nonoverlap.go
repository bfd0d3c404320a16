package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// C03_dates: two services with arbitrary dates among four days (same and other
// weekdays, weeks and years), in half of the cases a third one that runs on all of
// them, and three or four trips.
//
//vv:cases quick=8 thorough=20 timeout=300 ttimeout=3000
func C03_dates(c int) {
	f := gtfsparser.NewFeed()
	// days relative to Monday 2024-01-01; day 364 is a Monday in ISO week 1 of 2025,
	// day 735 the Monday of week 2 of 2026
	days := [][]int{{0, 1, 7, 8}, {0, 7, 14, 28}, {0, 7, 364}, {6, 13, 20, 27}, {1, 365, 729}}[c/2%5]
	a, b := gtfs.EmptyService(), gtfs.EmptyService()
	a.SetId("a")
	b.SetId("b")
	f.Services["a"], f.Services["b"] = a, b
	symService(a, "a", 0, 0, days)
	if c%2 == 0 {
		symService(b, "b", 0, 0, days[1:])
	} else {
		symService(b, "b", days[0], 8, days[len(days)-1:])
		for d := 0; d < 7; d++ {
			if x := (days[0] + 1 + d) % 7; d > 1 {
				vv.Assume(!b.Daymap(x))
			} else {
				vv.Split(vv.IteInt(b.Daymap(x), 1, 0))
			}
		}
	}
	lo := -1
	hi := 0
	for _, d := range days {
		if d > hi {
			hi = d
		}
	}
	if hi < 9 {
		hi = 9
	}
	chk := append([]int{lo, hi + 1, 2, 9, 15}, days...)
	// run days of the originals on the days of interest
	wa, wb := make([]bool, len(chk)), make([]bool, len(chk))
	for i, d := range chk {
		wa[i], wb[i] = a.IsActiveOn(day(d)), b.IsActiveOn(day(d))
	}
	splitDays(wa)
	splitDays(wb)
	r := addRoute(f, "r", addAgency(f, "a"))
	st := addStop(f, "st")
	os := []*gtfs.Trip{richTrip(f, "t0", r, a, st, 0), richTrip(f, "t1", r, b, st, 1)}
	// a third trip on the first service, or on one that runs on all days
	w3, s3 := wa, a
	if c%4 > 1 {
		s3 = gtfs.EmptyService()
		s3.SetId("c")
		f.Services["c"] = s3
		w3 = make([]bool, len(chk))
		for i, d := range chk {
			if i > 4 {
				s3.Exceptions()[day(d)] = true
				w3[i] = true
			}
		}
	}
	os = append(os, richTrip(f, "t2", r, s3, st, 2))
	if c%8 > 5 {
		os = append(os, richTrip(f, "s", r, s3, st, 3))
	}
	var orig []*gtfs.Trip
	for _, o := range os {
		x := *o
		x.StopTimes = append(gtfs.StopTimes{}, o.StopTimes...)
		orig = append(orig, &x)
	}
	was := [][]bool{wa, wb, w3, w3}
	vv.MapOrder(c / 2 % 2)
	processors.ServiceNonOverlapper{DayNames: []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}, YearWeekName: "WW"}.Run(f)
	var perDay [9]int
	for id, s := range f.Services {
		vv.Assert(s.Id() == id, "service under its own ID")
		for i, d := range chk {
			perDay[i] += vv.IteInt(s.IsActiveOn(day(d)), 1, 0)
		}
	}
	for i := range chk {
		vv.Assert(perDay[i] <= 1, "no two services share a running date")
	}
	var cnt [4][9]int
	for id, t := range f.Trips {
		vv.Assert(t.Id == id, "trip under its own ID")
		vv.Assert(f.Services[t.Service.Id()] == t.Service, "service of trip in feed")
		k := -1
		for i, o := range orig {
			if *t.Headsign == *o.Headsign {
				k = i
			}
		}
		vv.Assert(k >= 0, "no trip is invented")
		checkCopy(t, orig[k])
		for i, d := range chk {
			cnt[k][i] += vv.IteInt(t.Service.IsActiveOn(day(d)), 1, 0)
		}
	}
	for k := range orig {
		for i := range chk {
			vv.Assert(cnt[k][i] == vv.IteInt(was[k][i], 1, 0), "trip is offered once on each of its days and on no other day")
		}
	}
	vv.Cover("several services", len(f.Services) > 2)
	vv.Cover("one service", len(f.Services) == 1)
	vv.ObsInt("services", len(f.Services))
	vv.ObsInt("trips", len(f.Trips))
}
