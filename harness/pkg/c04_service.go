package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// C04_dates: three services, two of them with arbitrary dates in different
// representations, one with one of four calendars, and trips on each of them. The
// case selects representations, position in the year, worker count and map order.
//
//vv:cases quick=6 thorough=36 timeout=300 ttimeout=3000
func C04_dates(c int) {
	f := gtfsparser.NewFeed()
	base := []int{0, 364, 58, 5}[(c/3)%4]
	var ss [3]*gtfs.Service
	for i := range ss {
		ss[i] = gtfs.EmptyService()
		ss[i].SetId(vv.N("s", i))
		f.Services[ss[i].Id()] = ss[i]
	}
	switch c % 3 {
	case 0:
		symService(ss[0], "a", base, 3, []int{base})
		symService(ss[1], "b", 0, 0, []int{base, base + 1, base + 2})
	case 1:
		symService(ss[0], "a", base, 2, []int{base + 1})
		symService(ss[1], "b", base+1, 3, []int{base, base + 2})
	case 2:
		symService(ss[0], "a", base, 3, []int{})
		symService(ss[1], "b", base-1, 4, []int{base - 1})
	}
	// the third one
	switch vv.Split(vv.Int("third", 0, 2)) {
	case 0: // no running date
		ss[2].SetStart_date(day(base))
		ss[2].SetEnd_date(day(base + 1))
	case 1:
		ss[2].Exceptions()[day(base+1)] = true
	case 2:
		ss[2].SetRawDaymap(127)
		ss[2].SetStart_date(day(base))
		ss[2].SetEnd_date(day(base + 1))
		ss[2].Exceptions()[day(base)] = false
	}
	lo, hi := base-2, base+5
	var was [3][]bool
	for i, s := range ss {
		was[i] = daysOf(s, lo, hi)
	}
	splitDays(was[0])
	splitDays(was[1])
	r := addRoute(f, "r", addAgency(f, "a"))
	var ts [4]*gtfs.Trip
	for i := range ts {
		ts[i] = addTrip(f, vv.N("t", i), r, ss[i%3])
	}
	vv.SetCPU(1 + (c/3)%3)
	vv.MapOrder(c / 3 % 2)
	processors.ServiceDuplicateRemover{}.Run(f)
	closed(f)
	vv.Assert(len(f.Trips) == 4, "no trip is lost")
	for i, t := range ts {
		vv.Assert(f.Trips[vv.N("t", i)] == t && t.Route == r, "trip is kept")
		vv.Assert(sameDays(daysOf(t.Service, lo, hi), was[i%3]), "trip runs on the same days")
	}
	var in [3]bool
	var now [3][]bool
	left := 0
	for i, s := range ss {
		now[i] = daysOf(s, lo, hi)
		x, ok := f.Services[vv.N("s", i)]
		vv.Assert(vv.Or(!ok, x == s), "service under its ID")
		in[i] = ok
		left += vv.IteInt(ok, 1, 0)
		vv.Assert(sameDays(now[i], was[i]), "remaining service runs on the same days")
	}
	vv.Assert(left == len(f.Services), "no service is invented")
	for i := range ss {
		have := in[i]
		for j := range ss {
			have = vv.Or(have, vv.And(in[j], sameDays(was[i], was[j])))
			if i < j {
				vv.Assert(!vv.And(in[i], in[j], anyDay(was[i]), sameDays(was[i], was[j])), "no two services with the same days remain")
			}
		}
		vv.Assert(have, "a removed service has an equal one")
	}
	vv.Cover("merged", left < 3)
	vv.Cover("none merged", left == 3)
	vv.ObsInt("left", left)
}

// C04_shift: two services with the same arbitrary pattern of dates, one shifted by
// some days, by a month or by a year (or not at all).
//
//vv:cases quick=2 thorough=4 timeout=100 ttimeout=1000
func C04_shift(c int) {
	f := gtfsparser.NewFeed()
	base := []int{0, 8, 59, 213}[c%4]
	sh := []int{0, 1, 7, 31, 366, -7}[vv.Split(vv.Int("shift", 0, 5))]
	var ss [2]*gtfs.Service
	n := 0
	for i := range ss {
		ss[i] = gtfs.EmptyService()
		ss[i].SetId(vv.N("s", i))
		f.Services[ss[i].Id()] = ss[i]
	}
	for d := 0; d < 3; d++ {
		if vv.Split(vv.Int(vv.N("d", d), 0, 1)) == 1 {
			ss[0].Exceptions()[day(base+d)] = true
			ss[1].Exceptions()[day(base+d+sh)] = true
			n++
		}
	}
	vv.Assume(n > 0)
	r := addRoute(f, "r", addAgency(f, "a"))
	t0, t1 := addTrip(f, "t0", r, ss[0]), addTrip(f, "t1", r, ss[1])
	vv.SetCPU(1)
	vv.MapOrder(1 - c%2)
	processors.ServiceDuplicateRemover{}.Run(f)
	vv.Assert(len(f.Services) == vv.IteInt(sh == 0, 1, 2), "services are merged if and only if they run on the same days")
	vv.Assert(f.Services[t0.Service.Id()] == t0.Service && f.Services[t1.Service.Id()] == t1.Service, "services of trips in feed")
	for d := 0; d < 3; d++ {
		was := vv.Int(vv.N("d", d), 0, 1) == 1
		vv.Assert(t0.Service.IsActiveOn(day(base+d)) == was, "trip runs on the same days")
		vv.Assert(t1.Service.IsActiveOn(day(base+d+sh)) == was, "trip runs on the same days")
	}
	vv.ObsInt("left", len(f.Services))
}

// C04_groups: more services that run on one of three days each, forming any number of groups.
//
//vv:cases quick=4 thorough=8 timeout=200 ttimeout=1500
func C04_groups(c int) {
	n := 4 + c/4
	f := gtfsparser.NewFeed()
	r := addRoute(f, "r", addAgency(f, "a"))
	var kind [5]int
	var ts [5]*gtfs.Trip
	ids := []string{"aaa", "b", "cc", "dddd", "eeeee"}
	for i := 0; i < n; i++ {
		s := gtfs.EmptyService()
		s.SetId(ids[i])
		f.Services[ids[i]] = s
		kind[i] = vv.Split(vv.Int(vv.N("kind", i), 0, 2))
		s.Exceptions()[day(kind[i])] = true
		ts[i] = addTrip(f, vv.N("t", i), r, s)
	}
	vv.SetCPU([]int{1, 3, 2, 8}[c%4])
	vv.MapOrder(c % 2)
	processors.ServiceDuplicateRemover{}.Run(f)
	closed(f)
	for i := 0; i < n; i++ {
		for d := 0; d < 3; d++ {
			vv.Assert(ts[i].Service.IsActiveOn(day(d)) == (d == kind[i]), "trip runs on the same days")
		}
		for j := i + 1; j < n; j++ {
			vv.Assert((kind[i] == kind[j]) == (ts[i].Service == ts[j].Service), "no two services with the same days remain")
		}
	}
	vv.ObsInt("left", len(f.Services))
}
