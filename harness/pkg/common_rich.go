package zz_verif

import (
	"math"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// what may be special about the feed of rich
const (
	rDupAg    = 1 << iota // the agencies and routes are equal
	rDupSe                // the services are equal
	rDupSh                // the shapes are equal
	rDupSt                // the stops and stations are equal
	rDupTr                // the trips are equal
	rNoParent             // stops have no parents
	rNoMeas               // neither shapes nor stop times are measured
	rNoTimes              // some stop times have no times
	rFast                 // a trip is too fast
	rNoAgency             // a route has no agency
	rNoShape              // trips have no shapes
	rPoint                // shapes of one point
	rShort                // trips with no or one stop time
	rEmptySe              // services without any date
	rLonely               // no other trips, routes, stops
	rOdd                  // nil and empty lists in other places
	rAll      = 1<<iota - 1
)

// zzRich is a feed with all kinds of entities and references.
type zzRich struct {
	f  *gtfsparser.Feed
	ag []*gtfs.Agency
	ro []*gtfs.Route
	se []*gtfs.Service
	sh []*gtfs.Shape
	st []*gtfs.Stop
	tr []*gtfs.Trip
	fa []*gtfs.FareAttribute
}

func zzShape(f *gtfsparser.Feed, id string, lat, lon float32, measured bool) *gtfs.Shape {
	s := &gtfs.Shape{Id: id}
	for i := 0; i < 4; i++ {
		d := float32(math.NaN())
		if measured {
			d = float32(i) * 1000
		}
		s.Points = append(s.Points, gtfs.ShapePoint{Lat: lat, Lon: lon + float32(i)/128, Sequence: uint32(i + 1), Dist_traveled: d})
	}
	f.Shapes[id] = s
	return s
}

// rich makes a feed; what is special about it is chosen among may.
func rich(may, must int) (*zzRich, int) {
	f := gtfsparser.NewFeed()
	r := &zzRich{f: f}
	for i := 0; i < 2; i++ {
		l := &gtfs.Level{Id: vv.N("l", i), Name: vv.N("level", i), Index: float32(i)}
		f.Levels[l.Id] = l
		a := addAgency(f, vv.N("ag", i))
		a.Name = "Agency"
		r.ag = append(r.ag, a)
	}
	for i := 0; i < 3; i++ {
		x := addRoute(f, vv.N("r", i), r.ag[i%2])
		x.Short_name = vv.N("R", i)
		r.ro = append(r.ro, x)
	}
	r.se = append(r.se, addService(f, "sv0", 127, day(0), day(3)), addService(f, "sv1", 62, day(0), day(3)), addService(f, "sv2", 0, gtfs.Date{}, gtfs.Date{}))
	r.se[1].SetExceptionTypeOn(day(2), 2)
	r.se[2].SetExceptionTypeOn(day(1), 1)
	for i := 0; i < 8; i++ {
		s := addStop(f, vv.N("st", i))
		s.Lat, s.Lon, s.Name = 0.25, 0.25+float32(i)/128, vv.N("Stop ", i)
		if i < 2 {
			s.Level = f.Levels["l0"]
		}
		r.st = append(r.st, s)
	}
	st := r.st
	st[0].Location_type, st[5].Location_type = 1, 1
	st[4].Location_type, st[6].Location_type = 4, 2
	st[4].Parent_station, st[6].Parent_station = st[1], st[5]
	st[1].Platform_code = "1"
	hs, block := "headsign", "b"
	for i := 0; i < 5; i++ {
		t := addTrip(f, vv.N("t", i), r.ro[0], r.se[0])
		t.Headsign, t.Short_name = &hs, &hs
		if i > 2 {
			t.Block_id = &block
		}
		r.tr = append(r.tr, t)
	}
	tr := r.tr
	for i := 0; i < 2; i++ {
		x := &gtfs.FareAttribute{Id: vv.N("fa", i), Price: "1", Agency: r.ag[i]}
		for k := 0; k < 2; k++ {
			x.Rules = append(x.Rules, &gtfs.FareAttributeRule{Route: r.ro[(i+k)%2], Origin_id: "z"})
		}
		f.FareAttributes[x.Id] = x
		r.fa = append(r.fa, x)
		p := &gtfs.Pathway{Id: vv.N("p", i), From_stop: st[1+3*i], To_stop: st[2+4*i], Length: 1}
		f.Pathways[p.Id] = p
	}
	f.Pathways["p2"] = &gtfs.Pathway{Id: "p2", From_stop: st[2], To_stop: st[6]}
	for i, k := range []gtfs.TransferKey{{From_stop: st[1], To_stop: st[3]}, {From_stop: st[2], To_stop: st[3]}, {From_stop: st[0], To_stop: st[5]}, {From_stop: st[5], To_stop: st[0]}, {From_route: r.ro[0], To_route: r.ro[1]}, {From_route: r.ro[1], To_route: r.ro[0]}, {From_trip: tr[0], To_trip: tr[1]}, {From_trip: tr[1], To_trip: tr[2]}, {From_stop: st[2], To_stop: st[1], From_route: r.ro[1], To_trip: tr[4]}, {From_stop: st[7], To_stop: st[7], From_trip: tr[3], To_trip: tr[3], From_route: r.ro[0], To_route: r.ro[0]}} {
		f.Transfers[k] = gtfs.TransferVal{Transfer_type: 2, Min_transfer_time: i}
	}
	at := func() *gtfs.Attribution { return &gtfs.Attribution{Organization_name: "org", Is_producer: true} }
	f.Attributions = append(f.Attributions, at())
	r.ag[1].Attributions = append(r.ag[1].Attributions, at())
	r.ro[1].Attributions = append(r.ro[1].Attributions, at())
	tr[1].Attributions = &[]*gtfs.Attribution{at()}

	// what is special
	b := must
	for i := 1; i <= may; i <<= 1 {
		if may&i != 0 && b&i == 0 && vv.Split(vv.Int(vv.N("bit", i), 0, 1)) == 1 {
			b |= i
		}
	}
	has := func(i int) bool { return b&i != 0 }

	if !has(rDupAg) {
		r.ag[1].Name = "Other"
		r.ro[2].Agency = r.ag[0]
	} else {
		r.ro[1].Short_name = r.ro[0].Short_name
		for i := 2; i < 4; i++ {
			a := addAgency(f, vv.N("ag", i))
			a.Name = "Agency"
		}
		for i := 3; i < 5; i++ {
			x := addRoute(f, vv.N("r", i), r.ro[2].Agency)
			x.Short_name = r.ro[2].Short_name
			r.ro = append(r.ro, x)
		}
	}
	if has(rNoAgency) {
		r.ro[0].Agency = nil
		r.fa[0].Agency = nil
	}
	if has(rDupSe) {
		r.se[1].SetRawDaymap(127)
		r.se[1].Exceptions()[day(2)] = true
		delete(r.se[1].Exceptions(), day(2))
		for i := 3; i < 5; i++ {
			addService(f, vv.N("sv", i), 127, day(0), day(3))
		}
	}
	if has(rEmptySe) {
		// removed on all of its days, or without any
		r.se[1].SetRawDaymap(1)
		r.se[1].SetExceptionTypeOn(day(2), 2)
		if has(rDupSe) {
			r.se[0].SetRawDaymap(1)
		}
		r.se[2].SetExceptionTypeOn(day(1), 2)
	}
	nan := float32(math.NaN())
	r.sh = append(r.sh, zzShape(f, "sh0", 0.25, 0.25, !has(rNoMeas)))
	if has(rDupSh) {
		r.sh = append(r.sh, zzShape(f, "sh1", 0.25, 0.25, !has(rNoMeas)))
		r.sh = append(r.sh, zzShape(f, "sh3", 0.25, 0.25, !has(rNoMeas)))
	} else {
		r.sh = append(r.sh, zzShape(f, "sh1", 0.2505, 0.25, !has(rNoMeas)))
	}
	r.sh = append(r.sh, zzShape(f, "sh2", 0.5, 0.25, !has(rNoMeas)))
	if has(rPoint) {
		for _, s := range r.sh {
			s.Points = s.Points[:1]
		}
	}
	if has(rDupSt) {
		st[2].Lat, st[2].Lon, st[2].Name, st[2].Level = st[1].Lat, st[1].Lon, st[1].Name, st[1].Level
		st[2].Platform_code = "1"
		st[5].Lat, st[5].Lon, st[5].Name, st[5].Level = st[0].Lat, st[0].Lon, st[0].Name, st[0].Level
	}
	if has(rDupSt) {
		for i := 8; i < 10; i++ {
			s := *st[2]
			s.Id = vv.N("st", i)
			f.Stops[s.Id] = &s
			r.st = append(r.st, &s)
			if !has(rNoParent) {
				s.Parent_station = st[0]
			}
		}
	}
	if !has(rNoParent) {
		st[1].Parent_station = st[0]
		st[2].Parent_station = st[5]
	}
	if has(rDupTr) {
		t := addTrip(f, "t5", r.ro[0], r.se[0])
		t.Headsign, t.Short_name = &hs, &hs
		tr = append(tr, t)
		r.tr = tr
	}
	for i, t := range tr {
		if !has(rNoShape) {
			t.Shape = r.sh[i%2]
		}
		at := 36000
		if !has(rDupTr) {
			at += i * 600
			if i == 4 {
				t.Service = r.se[1]
				t.Route = r.ro[1]
			}
		} else {
			t.Service = r.se[i%2]
			t.Route = r.ro[i/2%2]
		}
		for k, s := range []*gtfs.Stop{st[1], st[2], st[3], st[7]} {
			at += 120
			if has(rFast) && i == 3 {
				at -= 119
				s.Lon = s.Lon // far apart for a second
			}
			d := nan
			if !has(rNoMeas) {
				d = float32(k) * 1000
			}
			x := stime(s, k+1, hms(at), hms(at), d)
			if has(rNoTimes) && (k == 1 || i == 2 && k < 3) {
				x.SetArrival_time(noTime())
				x.SetDeparture_time(noTime())
				x.SetTimepoint(false)
			}
			x.SetHeadsign(t.Headsign)
			t.StopTimes = append(t.StopTimes, x)
		}
	}
	tr[2].Frequencies = &[]*gtfs.Frequency{{Start_time: hms(36000), End_time: hms(39600), Headway_secs: 600}}
	if has(rShort) {
		tr[1].StopTimes = tr[1].StopTimes[:1]
		tr[2].StopTimes = gtfs.StopTimes{}
		tr[3].StopTimes = nil
	}
	if has(rOdd) {
		tr[0].Frequencies = &[]*gtfs.Frequency{}
		tr[0].Attributions = &[]*gtfs.Attribution{}
		tr[3].Short_name, tr[3].Headsign = nil, new(string)
		r.fa[1].Rules = nil
		r.fa[0].Rules[1].Route = nil
		st[3].Name = ""
		delete(f.Levels, "l1")
		for k := range f.Transfers {
			if k.From_trip != nil {
				delete(f.Transfers, k)
			}
		}
	}
	if has(rLonely) {
		for _, t := range tr[1:] {
			delete(f.Trips, t.Id)
		}
		for _, x := range r.ro[1:] {
			delete(f.Routes, x.Id)
		}
		f.Transfers = map[gtfs.TransferKey]gtfs.TransferVal{}
		f.FareAttributes = map[string]*gtfs.FareAttribute{}
	}
	return r, b
}

// zzProcs are the processors with the options main runs them with.
var zzProcs = []struct {
	name string
	bits int
	p    func() processors.Processor
}{
	{"TooFastTripRemover", rFast | rNoTimes | rShort | rNoMeas | rNoShape, func() processors.Processor { return processors.TooFastTripRemover{} }},
	{"CompleteTripsGeoFilter", rDupSt | rNoParent | rShort | rLonely | rOdd, func() processors.Processor {
		return processors.CompleteTripsGeoFilter{Polygons: []gtfsparser.Polygon{gtfsparser.NewPolygon([][2]float64{{0.24, 0.24}, {0.24, 0.26}, {0.275, 0.26}, {0.275, 0.24}, {0.24, 0.24}}, nil)}}
	}},
	{"OrphanRemover", rDupAg | rNoParent | rNoShape | rShort | rLonely | rOdd | rNoAgency, func() processors.Processor { return processors.OrphanRemover{} }},
	{"AgencyDuplicateRemover", rDupAg | rNoAgency | rLonely | rOdd, func() processors.Processor { return processors.AgencyDuplicateRemover{} }},
	{"StopParentAverager", rDupSt | rNoParent | rLonely, func() processors.Processor { return processors.StopParentAverager{MaxDist: 100} }},
	{"StopDuplicateRemover", rDupSt | rNoParent | rShort | rLonely | rOdd, func() processors.Processor {
		return processors.StopDuplicateRemover{DistThresholdStop: 5, DistThresholdStation: 50}
	}},
	{"StopDuplicateRemover fuzzy", rDupSt | rNoParent | rShort | rLonely | rOdd, func() processors.Processor {
		return processors.StopDuplicateRemover{DistThresholdStop: 5, DistThresholdStation: 50, Fuzzy: true}
	}},
	{"StopReclusterer", rDupSt | rNoParent | rLonely | rOdd, func() processors.Processor {
		return processors.StopReclusterer{DistThreshold: 75, NameSimiThreshold: 0.55, GridCellSize: 10000}
	}},
	{"PlatformCodeDropper", rDupSt | rNoParent, func() processors.Processor { return processors.PlatformCodeDropper{} }},
	{"ShapeRemeasurer", rNoMeas | rPoint | rDupSh | rShort | rNoShape | rLonely, func() processors.Processor { return processors.ShapeRemeasurer{} }},
	{"ShapeRemeasurer forced", rNoMeas | rPoint | rDupSh | rShort | rNoShape | rLonely, func() processors.Processor { return processors.ShapeRemeasurer{Force: true} }},
	{"ShapeMinimizer", rNoMeas | rPoint | rDupSh, func() processors.Processor { return processors.ShapeMinimizer{Epsilon: 1.0} }},
	{"StopTimeRemeasurer", rNoMeas | rPoint | rShort | rNoShape | rNoTimes, func() processors.Processor { return processors.StopTimeRemeasurer{} }},
	{"ShapeSnapper", rNoMeas | rPoint | rShort | rNoShape | rNoParent | rDupSt, func() processors.Processor { return processors.ShapeSnapper{MaxDist: 100} }},
	{"ShapeDuplicateRemover", rDupSh | rNoMeas | rPoint | rShort | rNoShape | rLonely, func() processors.Processor { return processors.ShapeDuplicateRemover{MaxEqDist: 1} }},
	{"RouteDuplicateRemover", rDupAg | rNoAgency | rDupTr | rLonely | rOdd, func() processors.Processor { return processors.RouteDuplicateRemover{} }},
	{"ServiceDuplicateRemover", rDupSe | rDupTr | rEmptySe | rLonely, func() processors.Processor { return processors.ServiceDuplicateRemover{} }},
	{"AdjacentStopTimeGrouper", rDupSt | rNoTimes | rShort | rNoMeas, func() processors.Processor { return processors.AdjacentStopTimeGrouper{} }},
	{"ServiceMinimizer", rDupSe | rEmptySe | rLonely, func() processors.Processor { return processors.ServiceMinimizer{} }},
	{"TripDuplicateRemover", rDupTr | rDupSe | rDupAg | rNoTimes | rShort | rEmptySe | rOdd, func() processors.Processor { return processors.TripDuplicateRemover{MaxDayDist: 7} }},
	{"TripDuplicateRemover aggressive", rDupTr | rDupSe | rDupAg | rDupSt | rShort | rEmptySe | rOdd, func() processors.Processor {
		return processors.TripDuplicateRemover{MaxDayDist: 7, Aggressive: true}
	}},
	{"TripDuplicateRemover fuzzy", rDupTr | rDupSe | rDupAg | rDupSt | rNoTimes | rShort | rEmptySe, func() processors.Processor {
		return processors.TripDuplicateRemover{MaxDayDist: 7, Fuzzy: true}
	}},
	{"ServiceNonOverlapper", rDupSe | rDupTr | rEmptySe | rLonely | rShort, func() processors.Processor {
		return processors.ServiceNonOverlapper{DayNames: []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}, YearWeekName: "WW"}
	}},
	{"FrequencyMinimizer", rDupTr | rDupSe | rNoTimes | rShort | rOdd | rNoMeas, func() processors.Processor {
		return processors.FrequencyMinimizer{MinHeadway: 1, MaxHeadway: 3600}
	}},
	{"ServiceCalDatesRem", rDupSe | rDupTr | rEmptySe | rLonely, func() processors.Processor { return processors.ServiceCalDatesRem{} }},
	{"StopParentEnforcer", rDupSt | rNoParent | rLonely | rOdd, func() processors.Processor { return processors.StopParentEnforcer{} }},
	{"IDMinimizer", rDupAg | rDupTr | rLonely | rOdd | rShort, func() processors.Processor { return processors.IDMinimizer{Prefix: "", Base: 36} }},
	{"IDMinimizer keep", rDupAg | rDupTr | rLonely | rOdd | rShort, func() processors.Processor {
		return processors.IDMinimizer{Prefix: "x", Base: 10, KeepTrips: true, KeepStations: true}
	}},
}
