package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// C20_geo: two stations, platforms, a boarding area and an entrance at free places
// inside or outside of one or two areas, two trips over them.
//
//vv:cases quick=6 thorough=12 timeout=300 ttimeout=2500
func C20_geo(c int) {
	f := gtfsparser.NewFeed()
	st, st2 := addStop(f, "st"), addStop(f, "st2")
	p1, p2, p3 := addStop(f, "p1"), addStop(f, "p2"), addStop(f, "p3")
	ba, en := addStop(f, "ba"), addStop(f, "en")
	st.Location_type, st2.Location_type, ba.Location_type, en.Location_type = 1, 1, 4, 2
	p1.Parent_station, ba.Parent_station, en.Parent_station = st, p1, st2
	p2.Parent_station = []*gtfs.Stop{nil, st, st2}[vv.Split(vv.Int("p2", 0, 2))]
	if vv.Split(vv.Int("en", 0, 1)) == 1 {
		en.Parent_station = st
	}

	// a triangle and, sometimes, a rectangle
	poly := []gtfsparser.Polygon{gtfsparser.NewPolygon([][2]float64{{10, 40}, {20, 40}, {20, 50}, {10, 40}}, nil)}
	if c%3 == 1 {
		poly = append(poly, gtfsparser.NewPolygon([][2]float64{{30, 40}, {31, 40}, {31, 41}, {30, 41}, {30, 40}}, nil))
	}
	if c%3 == 2 {
		poly = append([]gtfsparser.Polygon{gtfsparser.NewPolygon([][2]float64{{30, 40}, {31, 40}, {31, 41}, {30, 41}}, nil)}, poly...)
	}
	// lon, lat: in the triangle, in its bounding box only, far away, in the rectangle, swapped
	places := [][2]float32{{19, 42}, {11, 49}, {0, 0}, {30.5, 40.5}, {42, 19}}
	inside := make(map[*gtfs.Stop]bool)
	put := func(s *gtfs.Stop, n string, from, to int) {
		i := vv.Split(vv.Int(n, from, to))
		s.Lon, s.Lat = places[i][0], places[i][1]
		inside[s] = i == 0 || i == 3 && len(poly) == 2
	}
	put(st, "st", 2, 2)
	put(st2, "st2", 2+c%2, 2+c%2)
	put(p1, "pp1", 0, 4)
	put(p2, "pp2", 1, 3)
	put(p3, "pp3", 0, 1)
	put(ba, "pba", 2, 3)
	put(en, "pen", 2, 2)

	r := addRoute(f, "r", addAgency(f, "ag"))
	sv := addService(f, "s", 127, day(0), day(1))
	t1, t2 := addTrip(f, "t1", r, sv), addTrip(f, "t2", r, sv)
	t1.StopTimes = gtfs.StopTimes{stime(p1, 1, hms(0), hms(1), 0), stime(p2, 2, hms(10), hms(11), 0)}
	if vv.Split(vv.Int("t2", 0, 1)) == 1 {
		t2.StopTimes = gtfs.StopTimes{stime(p3, 1, hms(0), hms(1), 0), stime(p3, 2, hms(10), hms(11), 0), stime(p2, 3, hms(20), hms(21), 0)}
	}
	for i, k := range []gtfs.TransferKey{{From_stop: p1, To_stop: p2}, {From_stop: p3, To_stop: st}, {From_trip: t1, To_trip: t2}, {From_stop: p3, To_stop: p3, From_route: r}} {
		f.Transfers[k] = gtfs.TransferVal{Transfer_type: i, Min_transfer_time: i}
	}
	for i, w := range [][2]*gtfs.Stop{{p1, st}, {en, p2}, {p3, p3}, {ba, p1}, {p1, p3}, {p3, p1}} {
		id := vv.N("w", i)
		f.Pathways[id] = &gtfs.Pathway{Id: id, From_stop: w[0], To_stop: w[1], Mode: 1}
		fld(f.PathwaysAddFlds, "x")[id] = id
		f.FareAttributes[id] = &gtfs.FareAttribute{Id: id, Price: "1", Rules: []*gtfs.FareAttributeRule{{Route: r}}}
		fld(f.FareAttributesAddFlds, "x")[id] = id
	}
	fld(f.StopsAddFlds, "x")["p1"] = "v"
	free(f, freePlatform|freeBoarding)
	before := snap(f)

	vv.MapOrder(c / 3 % 2)
	processors.CompleteTripsGeoFilter{Polygons: poly}.Run(f)

	closed(f)
	unaltered(f, before, mayDrop)
	need := make(map[*gtfs.Stop]bool)
	use := func(s *gtfs.Stop) {
		for ; s != nil; s = s.Parent_station {
			need[s] = true
		}
	}
	for _, s := range before.st {
		if inside[s] {
			use(s)
		}
	}
	kept := make(map[*gtfs.Trip]bool)
	for _, t := range before.tr {
		touch := false
		for i := range t.StopTimes {
			touch = touch || inside[t.StopTimes[i].Stop()]
		}
		if touch {
			kept[t] = true
			for i := range t.StopTimes {
				use(t.StopTimes[i].Stop())
			}
		}
		vv.Assert((f.Trips[t.Id] == t) == touch, "trips are kept if they touch the area")
	}
	for _, s := range before.st {
		ok := f.Stops[s.Id] == s
		vv.Assert(ok || !need[s], "stops in the area, of kept trips, and their stations are kept")
		vv.Assert(!ok || need[s] || s.Location_type > 1 && need[s.Parent_station], "other stops are removed")
	}
	in := func(s *gtfs.Stop) bool { return s == nil || f.Stops[s.Id] == s }
	for _, p := range before.pw {
		ok := f.Pathways[p.Id] == p
		vv.Assert(ok == (in(p.From_stop) && in(p.To_stop)), "pathways between kept stops are kept")
		v, okA := f.PathwaysAddFlds["x"][p.Id]
		vv.Assert(ok == okA && (!ok || v == p.Id), "additional fields of pathways are kept with them")
	}
	for _, k := range before.tk {
		_, ok := f.Transfers[k]
		vv.Assert(ok == (in(k.From_stop) && in(k.To_stop) && (k.From_trip == nil || kept[k.From_trip]) && (k.To_trip == nil || kept[k.To_trip])), "transfers between kept stops are kept")
	}
	for _, x := range before.fa {
		vv.Assert(f.FareAttributes[x.Id] == x && f.FareAttributesAddFlds["x"][x.Id] == x.Id, "fares are kept")
	}
	vv.Assert(len(f.Routes) == 1 && len(f.Services) == 1 && len(f.Agencies) == 1, "other entities are kept")
	vv.Assert(f.Stops["p1"] == nil || f.StopsAddFlds["x"]["p1"] == "v", "additional fields are kept")
	vv.Cover("some kept", len(f.Trips) > 0 && len(f.Stops) < 7)
	vv.Cover("none kept", len(f.Trips) == 0)
	vv.ObsInt("trips", len(f.Trips))
	vv.ObsInt("stops", len(f.Stops))
}
