package main

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

func zzDay(i int) gtfs.Date { return gtfs.NewDate(1, 1, 2024).GetOffsettedDate(i) }

func zzTime(s int) gtfs.Time {
	return gtfs.Time{Hour: int8(s / 3600), Minute: int8(s / 60 % 60), Second: int8(s % 60)}
}

func zzSecs(t gtfs.Time) int { return int(t.Hour)*3600 + int(t.Minute)*60 + int(t.Second) }

// zzPlace is where a stop is: places are on a grid, stops within some meters of it.
func zzPlace(s *gtfs.Stop) string {
	return vv.Itoa(int(s.Lon*64+0.5)) + "/" + vv.Itoa(int(s.Lat*64+0.5))
}

// zzTable is what runs on each of the days: keys tell mode or route, places and times.
func zzTable(f *gtfsparser.Feed, fuzzy, shapes bool, days int) (ret []map[string]int) {
	for d := 0; d < days; d++ {
		ret = append(ret, map[string]int{})
	}
	for _, t := range f.Trips {
		if len(t.StopTimes) == 0 || shapes && t.Shape == nil {
			continue
		}
		ref := zzSecs(t.StopTimes[0].Departure_time())
		base := ""
		mode := gtfs.GetTypeFromExtended(t.Route.Type)
		if fuzzy {
			base = vv.Itoa(int(mode))
		} else {
			ag := ""
			if t.Route.Agency != nil {
				ag = t.Route.Agency.Name
			}
			base = ag + "|" + t.Route.Short_name + "|" + vv.Itoa(int(t.Route.Type)) + "|" + *t.Headsign + "|" + vv.Itoa(int(t.Wheelchair_accessible)) + vv.Itoa(int(t.Direction_id))
		}
		if shapes {
			// where the shape leads, and its northernmost place
			n, top := len(t.Shape.Points)-1, t.Shape.Points[0].Lat
			for i := range t.Shape.Points {
				if t.Shape.Points[i].Lat > top {
					top = t.Shape.Points[i].Lat
				}
			}
			base += "|" + vv.Itoa(int(t.Shape.Points[0].Lon*64+0.5)) + "-" + vv.Itoa(int(t.Shape.Points[n].Lon*64+0.5)) + " " + vv.Itoa(int(top*4096+0.5))
			for i := range t.StopTimes {
				if x := &t.StopTimes[i]; x.HasDistanceTraveled() && t.Shape.Points[n].HasDistanceTraveled() {
					vv.Assert(x.Shape_dist_traveled() <= t.Shape.Points[n].Dist_traveled, "stop times are measured along the shape")
				}
			}
		}
		run := func(shift int) {
			k := base
			for i := range t.StopTimes {
				x := &t.StopTimes[i]
				k += "|" + zzPlace(x.Stop())
				if !fuzzy {
					s := x.Stop()
					if s.Parent_station != nil {
						s = s.Parent_station
					}
					k += " " + s.Name + " " + vv.Itoa(int(x.Pickup_type())) + vv.Itoa(int(x.Drop_off_type()))
				}
				if i > 0 {
					k += " " + vv.Itoa(zzSecs(x.Arrival_time())+shift)
				}
				if i < len(t.StopTimes)-1 {
					k += " " + vv.Itoa(zzSecs(x.Departure_time())+shift)
				}
			}
			for d := range ret {
				if t.Service.IsActiveOn(zzDay(d - 3)) {
					ret[d][k]++
				}
			}
		}
		if t.Frequencies == nil || len(*t.Frequencies) == 0 {
			run(0)
			continue
		}
		for _, q := range *t.Frequencies {
			for s := zzSecs(q.Start_time); s < zzSecs(q.End_time); s += q.Headway_secs {
				run(s - ref)
			}
		}
	}
	return ret
}

// zzClosed: everything the feed refers to is part of it, under its ID.
func zzClosed(f *gtfsparser.Feed) {
	for id, t := range f.Trips {
		vv.Assert(t.Id == id && f.Routes[t.Route.Id] == t.Route && f.Services[t.Service.Id()] == t.Service, "trips have a route and service of the feed")
		vv.Assert(t.Shape == nil || f.Shapes[t.Shape.Id] == t.Shape, "trips have a shape of the feed")
		for i := range t.StopTimes {
			s := t.StopTimes[i].Stop()
			vv.Assert(f.Stops[s.Id] == s, "trips visit stops of the feed")
		}
	}
	for id, s := range f.Stops {
		vv.Assert(s.Id == id && (s.Parent_station == nil || f.Stops[s.Parent_station.Id] == s.Parent_station) && (s.Level == nil || f.Levels[s.Level.Id] == s.Level), "stops have a parent and level of the feed")
	}
	for id, r := range f.Routes {
		vv.Assert(r.Id == id && (r.Agency == nil || f.Agencies[r.Agency.Id] == r.Agency), "routes have an agency of the feed")
	}
	for id, s := range f.Services {
		vv.Assert(s.Id() == id, "services are known by their ID")
	}
	for id, s := range f.Shapes {
		vv.Assert(s.Id == id, "shapes are known by their ID")
	}
	for id, a := range f.Agencies {
		vv.Assert(a.Id == id, "agencies are known by their ID")
	}
	for k := range f.Transfers {
		vv.Assert((k.From_stop == nil || f.Stops[k.From_stop.Id] == k.From_stop) && (k.To_stop == nil || f.Stops[k.To_stop.Id] == k.To_stop) && (k.From_trip == nil || f.Trips[k.From_trip.Id] == k.From_trip) && (k.To_trip == nil || f.Trips[k.To_trip.Id] == k.To_trip) && (k.From_route == nil || f.Routes[k.From_route.Id] == k.From_route) && (k.To_route == nil || f.Routes[k.To_route.Id] == k.To_route), "transfers are between entities of the feed")
	}
	for id, a := range f.FareAttributes {
		vv.Assert(a.Id == id && (a.Agency == nil || f.Agencies[a.Agency.Id] == a.Agency), "fares have an agency of the feed")
		for _, r := range a.Rules {
			vv.Assert(r.Route == nil || f.Routes[r.Route.Id] == r.Route, "fare rules have a route of the feed")
		}
	}
	for id, p := range f.Pathways {
		vv.Assert(p.Id == id && f.Stops[p.From_stop.Id] == p.From_stop && f.Stops[p.To_stop.Id] == p.To_stop, "pathways are between stops of the feed")
	}
}

// zzLosslessOpts are sets of options that keep the timetable.
var zzLosslessOpts = [][]string{
	{"compress"},
	{"Compress"},
	{"merge"},
	{"Merge"},
	{"compress", "minimize-stoptimes", "keep-ids", "remove-cal-dates", "red-trips-aggressive"},
	{"merge", "non-overlapping-services", "remeasure-stop-times", "remeasure-shapes", "ensure-stop-parents", "minimize-ids-num"},
	{"Compress", "snap-stops", "fix-far-away-parents", "drop-platform-for-parentless", "recluster-stops", "non-overlapping-services"},
	{"minimize-services", "remove-red-trips", "remove-cal-dates", "ensure-stop-parents", "minimize-ids-char", "keep-station-ids"},
}

// zzVerifC33_pipe: a feed with equal, nearly equal and different agencies, routes,
// services, stops and trips runs through all processors of a set of options.
//
//vv:cases quick=32 thorough=64 timeout=400 ttimeout=1500 nomerge=1
func zzVerifC33_pipe(c int) {
	opts := zzLosslessOpts[c%8]
	fuzzy := c%8 == 1 || c%8 == 3 || c%8 == 6
	group := c / 8 % 4
	two := c%3 == 2
	pick := func(g int, n string, max int) int {
		if g != group {
			return 0
		}
		return vv.Split(vv.Int(n, 0, max))
	}
	paths := []string{"in"}
	if two {
		paths = []string{"in", "in2"}
	}
	const days = 24
	var was, wasS []map[string]int
	n := 0
	vv.SetCPU(1 + c/8%3)
	r := zzMain(func() {
		for _, o := range opts {
			zzBool(o, true)
		}
		if c/32 == 1 {
			zzStr("prefix", "p")
		}
	}, paths, func(f *gtfsparser.Feed, path, p string) error {
		second := n == 1
		n++
		// agencies and routes
		var ags []*gtfs.Agency
		for i := 0; i < 2; i++ {
			a := &gtfs.Agency{Id: p + "a" + vv.Itoa(i), Name: "Agency"}
			if i == 1 && pick(0, "agency", 1) == 0 {
				a.Name = "Other"
			}
			f.Agencies[a.Id] = a
			ags = append(ags, a)
		}
		var rs []*gtfs.Route
		for i := 0; i < 3; i++ {
			x := &gtfs.Route{Id: p + "r" + vv.Itoa(i), Short_name: "R" + vv.Itoa(i), Type: 3, Agency: ags[i%2]}
			if i > 0 {
				switch pick(0, "route"+vv.Itoa(i), 2) {
				case 1:
					x.Short_name = "R0"
				case 2:
					x.Type = 700
				}
			}
			f.Routes[x.Id] = x
			rs = append(rs, x)
		}
		// services
		var ss []*gtfs.Service
		for i := 0; i < 3; i++ {
			s := gtfs.EmptyService()
			s.SetId(p + "s" + vv.Itoa(i))
			k := i
			if i > 0 {
				k = (i + pick(1, "service"+vv.Itoa(i), 5)) % 6
			}
			if second && i == 0 {
				k = pick(1, "second", 2) * 2
			}
			switch k {
			case 0, 3: // five days a week
				s.SetRawDaymap(62)
				s.SetStart_date(zzDay(0))
				s.SetEnd_date(zzDay(6 + 3*k/3))
			case 1: // the weekend only
				s.SetExceptionTypeOn(zzDay(5), 1)
				s.SetExceptionTypeOn(zzDay(6), 1)
			case 2: // as 0, day by day
				for d := 0; d < 5; d++ {
					s.SetExceptionTypeOn(zzDay(d), 1)
				}
			case 4: // every day but one
				s.SetRawDaymap(127)
				s.SetStart_date(zzDay(2))
				s.SetEnd_date(zzDay(9))
				s.SetExceptionTypeOn(zzDay(4), 2)
			case 5: // never
				s.SetRawDaymap(1)
				s.SetStart_date(zzDay(0))
				s.SetEnd_date(zzDay(3))
			}
			f.Services[s.Id()] = s
			ss = append(ss, s)
		}
		// stops: at places 0, 1 and 2, and at station 3
		var st []*gtfs.Stop
		l := &gtfs.Level{Id: p + "l", Index: 1, Name: "L"}
		f.Levels[l.Id] = l
		for i := 0; i < 7; i++ {
			s := &gtfs.Stop{Id: p + "st" + vv.Itoa(i), Name: "Stop " + vv.Itoa(i%3), Lat: 1, Lon: 1 + float32(i%3)/64}
			if i > 2 {
				s.Name, s.Lon = "Station", 1+3.0/64
			}
			f.Stops[s.Id] = s
			st = append(st, s)
		}
		st[3].Location_type, st[6].Location_type = 1, 1
		st[4].Parent_station, st[5].Parent_station = st[3], st[3]
		if pick(2, "station", 1) == 1 {
			st[5].Parent_station = st[6]
		}
		switch pick(2, "platform", 3) {
		case 1:
			st[4].Platform_code, st[5].Platform_code = "1", "2"
		case 2:
			st[5].Name = "Station East"
			st[5].Lon += 1.0 / 65536
		case 3:
			st[5].Level = l
		}
		switch pick(2, "equal", 2) {
		case 1: // another one at place 0
			st[1].Lon, st[1].Name = st[0].Lon, st[0].Name
		case 2: // the same name elsewhere
			st[1].Name = st[0].Name
		}
		// shapes
		var sh []*gtfs.Shape
		for i := 0; i < 2; i++ {
			x := &gtfs.Shape{Id: p + "sh" + vv.Itoa(i)}
			kind := pick(3, "shape"+vv.Itoa(i), 3*i)
			if c%8 == 6 {
				kind = 0 // stops would be moved there
			}
			for j := 0; j < 4; j++ {
				lat := float32(1)
				if kind == 1 && (j == 1 || j == 2) {
					lat += 1.0 / 64
				}
				if kind == 2 && j == 1 {
					lat += 1.0 / 131072 // less than a meter
				}
				if kind == 3 && (j == 1 || j == 2) {
					lat += 1.0 / 1024 // about 100 meters
				}
				x.Points = append(x.Points, gtfs.ShapePoint{Lat: lat, Lon: 1 + float32(j)/64, Sequence: uint32(j), Dist_traveled: float32(1000 * j)})
			}
			f.Shapes[x.Id] = x
			sh = append(sh, x)
		}
		// trips
		hs, hs2 := "H", "H2"
		var ts []*gtfs.Trip
		for i := 0; i < 5; i++ {
			t := &gtfs.Trip{Id: p + "t" + vv.Itoa(i), Route: rs[i%3], Service: ss[i%3], Headsign: &hs}
			start := 8 * 3600
			if i == 3 {
				start += 600 * pick(3, "start", 2)
			}
			if i > 2 && pick(3, "route", 1) == 1 {
				t.Route = rs[0]
			}
			if i > 2 && pick(3, "service", 1) == 1 {
				t.Service = ss[0]
			}
			if i == 4 {
				start += 1200
				if pick(3, "headsign", 1) == 1 {
					t.Headsign = &hs2
				}
			}
			if group == 3 && i < 4 || group != 3 && !two && i < 3 {
				t.Shape = sh[i%2]
			}
			for j := 0; j < 3; j++ {
				s := st[j]
				if j == 2 {
					s = st[4+i%2]
				}
				x := gtfs.StopTime{}
				x.SetStop(s)
				x.SetSequence(j + 1)
				x.SetArrival_time(zzTime(start + 120*j))
				x.SetDeparture_time(zzTime(start + 120*j + 30))
				x.SetHeadsign(t.Headsign)
				x.SetShape_dist_traveled(float32(1000 * j))
				t.StopTimes = append(t.StopTimes, x)
			}
			f.Trips[t.Id] = t
			ts = append(ts, t)
		}
		if pick(3, "frequency", 1) == 1 {
			ts[1].Frequencies = &[]*gtfs.Frequency{{Start_time: zzTime(8 * 3600), End_time: zzTime(9 * 3600), Headway_secs: 1200, Exact_times: true}}
		}
		// transfers, fares, pathways
		f.Transfers[gtfs.TransferKey{From_stop: st[0], To_stop: st[4]}] = gtfs.TransferVal{Transfer_type: 2, Min_transfer_time: 60}
		f.Transfers[gtfs.TransferKey{From_stop: st[4], To_stop: st[5]}] = gtfs.TransferVal{Transfer_type: 2, Min_transfer_time: 60}
		f.Transfers[gtfs.TransferKey{From_stop: st[0], To_stop: st[4], From_trip: ts[0], To_trip: ts[1]}] = gtfs.TransferVal{Transfer_type: 1}
		fa := &gtfs.FareAttribute{Id: p + "f", Price: "1", Currency_type: "EUR", Agency: ags[1]}
		fa.Rules = append(fa.Rules, &gtfs.FareAttributeRule{Route: rs[1]})
		f.FareAttributes[fa.Id] = fa
		f.Pathways[p+"p"] = &gtfs.Pathway{Id: p + "p", From_stop: st[4], To_stop: st[5], Mode: 1, Is_bidirectional: true}
		was, wasS = zzTable(f, fuzzy, false, days), zzTable(f, fuzzy, true, days)
		vv.MapOrder(c / 32)
		return nil
	}, false)
	f := r.feed
	vv.Assert(zzMissing == "" && f != nil, "there is an output")
	zzClosed(f)
	now, nowS := zzTable(f, fuzzy, false, days), zzTable(f, fuzzy, true, days)
	for d := range was {
		for k, x := range was[d] {
			vv.Assert(now[d][k] > 0, "what ran before runs in the output")
			vv.Assert(now[d][k] <= x, "nothing runs more often than before")
		}
		for k := range nowS[d] {
			ok := fuzzy
			for e := range wasS {
				ok = ok || wasS[e][k] > 0
			}
			vv.Assert(ok, "trips follow a shape of the same trips")
		}
		for k := range now[d] {
			vv.Assert(was[d][k] > 0, "what runs in the output ran before")
		}
	}
	// transfers between stops
	a, b := false, false
	for k, v := range f.Transfers {
		if k.From_trip != nil {
			continue
		}
		vv.Assert(v.Transfer_type == 2 && v.Min_transfer_time == 60, "transfers keep their values")
		a = a || zzPlace(k.From_stop) == "64/64" && zzPlace(k.To_stop) == "67/64"
		b = b || zzPlace(k.From_stop) == "67/64" && zzPlace(k.To_stop) == "67/64"
	}
	vv.Assert(a && b, "transfers between stops are kept")
	if !fuzzy {
		ok := false
		for _, x := range f.FareAttributes {
			for _, y := range x.Rules {
				ok = ok || x.Price == "1" && y.Route != nil
			}
		}
		vv.Assert(ok, "fares are kept")
	}
	vv.Cover("fewer trips", len(f.Trips) < 5)
	vv.Cover("all trips", len(f.Trips) >= 5)
	vv.ObsInt("stops", len(f.Stops))
}
