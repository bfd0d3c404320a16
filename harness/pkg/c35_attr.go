package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// attrs are between none and two attributions (or an empty list).
func attrs(k string, split bool) []*gtfs.Attribution {
	n := vv.Int(k+"attributions", 0, 3)
	if split {
		n = vv.Split(n)
	}
	var ret []*gtfs.Attribution
	if n == 1 {
		ret = []*gtfs.Attribution{}
	}
	for i := 0; i < n-1; i++ {
		ret = append(ret, &gtfs.Attribution{Id: k + "/" + vv.Itoa(i), Organization_name: "org " + k, Is_operator: true})
	}
	return ret
}

func count(l []*gtfs.Attribution, a *gtfs.Attribution) (n int) {
	for _, x := range l {
		if x == a {
			n++
		}
	}
	return n
}

// C35_trips: three trips, equal ones or not, with attributions, on the same or equal
// services, or on services that contain, overlap or follow each other.
//
//vv:cases quick=30 thorough=60 timeout=300 ttimeout=2000 nomerge=1
func C35_trips(c int) {
	f := gtfsparser.NewFeed()
	kind, mode, order := c%5, c/5%3, c/15%2 // mode: exact, fuzzy, aggressive
	r := addRoute(f, "r", addAgency(f, "ag"))
	s1, s2 := addStop(f, "s1"), addStop(f, "s2")
	sa := addService(f, "sa", 127, day(0), day(6))
	sb := sa
	if kind > 0 {
		sb = addService(f, "sb", 127, day([]int{0, 0, 2, 4, 7}[kind]), day([]int{0, 6, 4, 9, 13}[kind]))
	}
	ss := []*gtfs.Service{sa, sb}
	if kind == 3 { // among the dates of the others
		ss = append(ss, addService(f, "sc", 127, day(2), day(7)))
	}
	sc := ss[vv.Split(vv.Int("third", 0, len(ss)-1))]
	heads := []string{"x", "y"}
	if mode == 1 { // headsigns do not matter
		r2 := addRoute(f, "r2", f.Agencies["ag"])
		r2.Type = 2
	}
	kinds := [3]int{0, vv.Split(vv.Int("kind1", 0, 1)), vv.Split(vv.Int("kind2", 0, 1))}
	was := map[string][]*gtfs.Attribution{}
	of := map[string]int{}
	for i, s := range []*gtfs.Service{sa, sb, sc} {
		id := "t" + vv.Itoa(i)
		t := stTrip(f, id, r, s, heads[kinds[i]], s1, s2)
		if mode == 1 && kinds[i] == 1 {
			t.Route = f.Routes["r2"]
		}
		if l := attrs(id, true); l != nil {
			was[id] = append([]*gtfs.Attribution{}, l...)
			t.Attributions = &l
		}
		of[id] = kinds[i]
	}
	if order == 1 && c >= 30 {
		sh := &gtfs.Shape{Id: "sh", Points: gtfs.ShapePoints{{Sequence: 1}, {Lon: 1, Sequence: 2, Dist_traveled: 1}}}
		f.Shapes["sh"] = sh
		f.Trips["t0"].Shape = sh
	}
	vv.SetCPU(1 + c%2)
	vv.MapOrder(order)
	processors.TripDuplicateRemover{Fuzzy: mode == 1, Aggressive: mode == 2, MaxDayDist: 7}.Run(f)
	closed(f)
	for id, l := range was {
		_, in := f.Trips[id]
		for _, a := range l {
			n, own := 0, 0
			for id2, t := range f.Trips {
				if t.Attributions == nil {
					continue
				}
				k := count(*t.Attributions, a)
				n += k
				if id2 == id {
					own += k
				}
				vv.Assert(k == 0 || of[id2] == of[id], "trips get the attributions of trips like them only")
				vv.Assert(k <= 1, "no attribution is doubled")
			}
			vv.Assert(n > 0, "attributions are kept")
			vv.Assert(!in || own == 1, "remaining trips keep their attributions")
		}
	}
	for _, t := range f.Trips {
		if t.Attributions != nil {
			for _, a := range *t.Attributions {
				known := false
				for _, l := range was {
					known = known || count(l, a) == 1
				}
				vv.Assert(known, "no attributions are invented")
			}
		}
	}
	vv.Cover("merged", len(f.Trips) < 3)
	vv.Cover("none merged", len(f.Trips) == 3 || kind < 3)
	vv.ObsInt("trips", len(f.Trips))
}

// C35_others: routes or agencies, equal ones or not, with attributions.
//
//vv:cases quick=4 thorough=8 timeout=300 ttimeout=1000 nomerge=1
func C35_others(c int) {
	f := gtfsparser.NewFeed()
	routes := c%2 == 1
	kinds := [3]int{0, vv.Split(vv.Int("kind1", 0, 1)), vv.Split(vv.Int("kind2", 0, 1))}
	names := []string{"x", "yy"}
	was := map[string][]*gtfs.Attribution{}
	of := map[string]int{}
	ag := addAgency(f, "ag")
	for i := 0; i < 3; i++ {
		id := "e" + vv.Itoa(i)
		l := attrs(id, true)
		was[id] = append([]*gtfs.Attribution{}, l...)
		of[id] = kinds[i]
		if routes {
			r := addRoute(f, id, ag)
			r.Short_name, r.Attributions = names[kinds[i]], l
		} else {
			a := addAgency(f, id)
			a.Name, a.Attributions = names[kinds[i]], l
			addRoute(f, "r"+vv.Itoa(i), a)
		}
	}
	vv.SetCPU(1 + c/4)
	vv.MapOrder(c / 2 % 2)
	now := map[string][]*gtfs.Attribution{}
	if routes {
		processors.RouteDuplicateRemover{}.Run(f)
		for id, r := range f.Routes {
			now[id] = r.Attributions
		}
	} else {
		processors.AgencyDuplicateRemover{}.Run(f)
		for id, a := range f.Agencies {
			now[id] = a.Attributions
		}
	}
	closed(f)
	total := 0
	for id, l := range was {
		_, in := now[id]
		total += len(l)
		for _, a := range l {
			n := 0
			for id2, l2 := range now {
				k := count(l2, a)
				n += k
				vv.Assert(k == 0 || of[id2] == of[id] && id2 != "ag", "only what is alike shares attributions")
			}
			vv.Assert(n == 1, "attributions are kept")
			vv.Assert(!in || count(now[id], a) == 1, "what remains keeps its attributions")
		}
	}
	for _, l := range now {
		total -= len(l)
	}
	vv.Assert(total == 0, "no attributions are invented")
	vv.Cover("merged", len(now) < 3)
	vv.Cover("none merged", len(now) > 3 || kinds[1] != kinds[0] && routes)
	vv.ObsInt("left", len(now))
}

// C35_services: a trip with attributions whose service is split so that no two
// services overlap.
//
//vv:cases quick=2 thorough=4 timeout=300 ttimeout=1000 nomerge=1
func C35_services(c int) {
	f := gtfsparser.NewFeed()
	r := addRoute(f, "r", addAgency(f, "ag"))
	s1, s2 := addStop(f, "s1"), addStop(f, "s2")
	sa, sb := addService(f, "sa", 127, day(0), day(3)), addService(f, "sb", 127, day(vv.Split(vv.Int("from", 0, 4))), day(5))
	was := map[string][]*gtfs.Attribution{}
	for i, s := range []*gtfs.Service{sa, sb} {
		h := vv.Itoa(i)
		t := stTrip(f, "t"+h, r, s, h, s1, s2)
		if l := attrs("t"+h, true); l != nil {
			was[h] = append([]*gtfs.Attribution{}, l...)
			t.Attributions = &l
		}
	}
	vv.SetCPU(1 + c/2)
	vv.MapOrder(c % 2)
	processors.ServiceNonOverlapper{DayNames: []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}, YearWeekName: "WW"}.Run(f)
	closed(f)
	for _, t := range f.Trips {
		l := was[*t.Headsign]
		n := 0
		if t.Attributions != nil {
			n = len(*t.Attributions)
		}
		vv.Assert(n == len(l), "trips keep the number of their attributions")
		for _, a := range l {
			vv.Assert(count(*t.Attributions, a) == 1, "trips keep their attributions")
		}
	}
	vv.Cover("split", len(f.Trips) > 2)
	vv.ObsInt("trips", len(f.Trips))
}
