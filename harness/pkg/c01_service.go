package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// checkMinimized runs the minimizer over one service and compares its running
// days on [lo, hi] before and after. The exploration is split over the running
// days in [lo, hi]; all calendars with the same days are handled together.
func checkMinimized(f *gtfsparser.Feed, s *gtfs.Service, nex, lo, hi int) {
	was := make([]bool, hi-lo+1)
	nrun := 0
	for i := range was {
		was[i] = s.IsActiveOn(day(lo + i))
	}
	for i := range was {
		nrun += vv.Split(vv.IteInt(was[i], 1, 0))
	}
	id := s.Id()
	hadDays := s.RawDaymap() > 0
	vv.MapOrder(0)
	processors.ServiceMinimizer{}.Run(f)
	vv.Assert(f.Services[id] == s && s.Id() == id, "service is kept under its ID")
	for i := range was {
		vv.Assert(s.IsActiveOn(day(lo+i)) == was[i], "service runs on the same days")
	}
	for i := 1; i < 8; i++ {
		vv.Assert(!s.IsActiveOn(day(lo-i)) && !s.IsActiveOn(day(hi+i)), "service does not run on other days")
	}
	n := len(s.Exceptions())
	vv.Assert(vv.Or(n <= nex, n <= nrun), "not more exceptions than needed")
	vv.Cover("exceptions removed", n < nex)
	vv.Cover("calendar found", vv.And(!hadDays, s.RawDaymap() > 0))
	vv.ObsInt("n", n)
	vv.ObsInt("map", int(s.RawDaymap()))
}

// C01_window: one service with an arbitrary weekday map over a short calendar
// range (or none) and arbitrary exceptions on three days in and around it. The
// case is the weekday the window starts with and the length of the range.
//
//vv:cases quick=14 thorough=63 timeout=300 ttimeout=3000
func C01_window(c int) {
	ln := []int{4, 0, 6, 1, 2, 3, 5, 7, 8}[c/7]
	c %= 7
	f := gtfsparser.NewFeed()
	s := gtfs.EmptyService()
	s.SetId("s")
	f.Services["s"] = s
	if ln > 0 {
		s.SetRawDaymap(uint8(vv.Int("daymap", 0, 127)))
		s.SetStart_date(day(c))
		s.SetEnd_date(day(c + ln - 1))
	}
	exc := []int{c - 1, c + 2, c + ln}
	if ln == 0 {
		exc = []int{c, c + 1, c + 2, c + 7}
	}
	nex := 0
	for i, d := range exc {
		h, ty := vv.Split(vv.Int(vv.N("ex", i), 0, 1)) == 1, vv.Bool(vv.N("type", i))
		if h {
			s.Exceptions()[day(d)] = ty
		}
		nex += vv.IteInt(h, 1, 0)
	}
	// a service with neither calendar nor exceptions does not occur
	vv.Assume(vv.Or(s.RawDaymap() > 0, nex > 0))
	checkMinimized(f, s, nex, c-1, c+8)
}

// C01_weeks: a calendar range of two to three weeks with typical weekday maps and
// arbitrary exceptions on three days.
//
//vv:cases quick=6 thorough=42 timeout=300 ttimeout=3000
func C01_weeks(c int) {
	maps := []uint8{0x3e, 0x7f, 0x41, 0x04, 0x2a, 0x00}
	m := maps[c%6]
	off := (c/6 + 3*c) % 7
	ln := 15 + (c+c/6)%4
	f := gtfsparser.NewFeed()
	s := gtfs.EmptyService()
	s.SetId("s")
	f.Services["s"] = s
	exc := []int{off, off + 8, off + ln - 2}
	if m != 0 {
		s.SetRawDaymap(m)
		s.SetStart_date(day(off))
		s.SetEnd_date(day(off + ln - 1))
	} else {
		exc = []int{off, off + 1, off + 7, off + 8, off + 14, off + 16}
	}
	if vv.Tier() > 0 {
		exc = append(exc, off+3, off-2)
	}
	nex := 0
	for i, d := range exc {
		h, ty := vv.Split(vv.Int(vv.N("ex", i), 0, 1)) == 1, vv.Bool(vv.N("type", i))
		if h {
			s.Exceptions()[day(d)] = ty
		}
		nex += vv.IteInt(h, 1, 0)
	}
	vv.Assume(vv.Or(s.RawDaymap() > 0, nex > 0))
	checkMinimized(f, s, nex, off-2, off+ln)
}

// C01_chunks: every service of the feed is minimized, and none is influenced by
// another one, for any division of the services among the workers.
//
//vv:cases quick=4 thorough=8 timeout=300 ttimeout=1500
func C01_chunks(c int) {
	vv.SetCPU(1 + c%4)
	n := 3 + c/4
	f := gtfsparser.NewFeed()
	var ss []*gtfs.Service
	var was [4][5]bool
	for i := 0; i < n; i++ {
		s := gtfs.EmptyService()
		s.SetId(vv.N("s", i))
		f.Services[s.Id()] = s
		s.Exceptions()[day(i)] = true
		s.Exceptions()[day(i+1)] = vv.Bool(vv.N("t", i))
		s.Exceptions()[day(i+2)] = vv.Bool(vv.N("u", i))
		for d := 0; d < 5; d++ {
			was[i][d] = s.IsActiveOn(day(i + d))
		}
		ss = append(ss, s)
	}
	vv.MapOrder(1)
	processors.ServiceMinimizer{}.Run(f)
	vv.Assert(len(f.Services) == n, "no service is lost")
	for i, s := range ss {
		vv.Assert(f.Services[s.Id()] == s && s.Id() == vv.N("s", i), "service is kept under its ID")
		for d := 0; d < 5; d++ {
			vv.Assert(s.IsActiveOn(day(i+d)) == was[i][d], "service runs on the same days")
		}
		vv.Assert(!s.IsActiveOn(day(i-1)) && !s.IsActiveOn(day(i+5)), "service does not run on other days")
		vv.Assert(len(s.Exceptions()) <= 3, "not more exceptions than needed")
		vv.Cover("minimized", s.RawDaymap() != 0)
	}
}
