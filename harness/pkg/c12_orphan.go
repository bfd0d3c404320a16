package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// checkOrphans runs the orphan removal on a feed and compares what is left with
// what is reachable from the trips that can be used.
func checkOrphans(f *gtfsparser.Feed) {
	before := snap(f)
	processors.OrphanRemover{}.Run(f)
	closed(f)
	unaltered(f, before, mayDrop)

	// trips
	usedTrip := make(map[*gtfs.Trip]bool)
	for i, t := range before.tr {
		board, alight := false, false
		for k := range before.trT[i] {
			st := &before.trT[i][k]
			board = vv.Or(board, st.Pickup_type() != 1, st.Continuous_pickup() != 1, t.Route.Continuous_pickup != 1)
			alight = vv.Or(alight, st.Drop_off_type() != 1, st.Continuous_drop_off() != 1, t.Route.Continuous_drop_off != 1)
		}
		_, ok := f.Trips[before.trV[i].Id]
		vv.Assert(vv.Iff(ok, vv.And(board, alight)), "trips are kept if they have stops, boarding and alighting")
		if ok {
			usedTrip[t] = true
		}
	}

	usedRoute := make(map[*gtfs.Route]bool)
	usedServ := make(map[*gtfs.Service]bool)
	usedShape := make(map[*gtfs.Shape]bool)
	served := make(map[*gtfs.Stop]bool) // stops of trips and the stations they belong to
	for t := range usedTrip {
		usedRoute[t.Route] = true
		usedServ[t.Service] = true
		if t.Shape != nil {
			usedShape[t.Shape] = true
		}
		for i := range t.StopTimes {
			for s := t.StopTimes[i].Stop(); s != nil; s = s.Parent_station {
				served[s] = true
			}
		}
	}

	// transfers
	usedStop := make(map[*gtfs.Stop]bool)
	need := func(s *gtfs.Stop) {
		for ; s != nil; s = s.Parent_station {
			usedStop[s] = true
		}
	}
	nTransf := 0
	for _, k := range before.tk {
		use := (k.From_stop == nil || served[k.From_stop]) && (k.To_stop == nil || served[k.To_stop]) && (k.From_route == nil || usedRoute[k.From_route]) && (k.To_route == nil || usedRoute[k.To_route]) && (k.From_trip == nil || usedTrip[k.From_trip]) && (k.To_trip == nil || usedTrip[k.To_trip])
		_, ok := f.Transfers[k]
		vv.Assert(ok == use, "transfers are kept if their stops, routes and trips are used")
		if use {
			need(k.From_stop)
			need(k.To_stop)
			nTransf++
		}
	}

	// stops
	for s := range served {
		need(s)
	}
	for _, p := range before.pw {
		vv.Assert(f.Pathways[p.Id] == p, "pathways are kept")
		need(p.From_stop)
		need(p.To_stop)
	}
	for _, s := range before.st {
		if s.Location_type == 2 {
			need(s)
		}
	}
	for i, s := range before.st {
		_, ok := f.Stops[before.stV[i].Id]
		vv.Assert(ok == usedStop[s], "stops are kept if they are used")
	}

	// routes, services, shapes, agencies
	for _, fa := range before.fa {
		vv.Assert(f.FareAttributes[fa.Id] == fa, "fares are kept")
		for _, r := range fa.Rules {
			if r.Route != nil {
				usedRoute[r.Route] = true
			}
		}
	}
	usedAg := make(map[*gtfs.Agency]bool)
	for i, r := range before.ro {
		_, ok := f.Routes[before.roV[i].Id]
		vv.Assert(ok == usedRoute[r], "routes are kept if they are used")
		if usedRoute[r] && r.Agency != nil {
			usedAg[r.Agency] = true
		}
	}
	for _, fa := range before.fa {
		if fa.Agency != nil {
			usedAg[fa.Agency] = true
		}
	}
	for i, a := range before.ag {
		_, ok := f.Agencies[before.agV[i].Id]
		vv.Assert(ok == usedAg[a], "agencies are kept if they are used")
	}
	for i, s := range before.se {
		_, ok := f.Services[before.seI[i]]
		vv.Assert(ok == usedServ[s], "services are kept if they are used")
	}
	for _, s := range before.sh {
		_, ok := f.Shapes[s.Id]
		vv.Assert(ok == usedShape[s], "shapes are kept if they are used")
	}
	for _, l := range before.le {
		vv.Assert(f.Levels[l.Id] == l, "levels are kept")
	}
	// additional fields follow
	for _, id := range []string{"p1", "p2", "st"} {
		_, ok := f.Stops[id]
		v, okA := f.StopsAddFlds["x"][id]
		vv.Assert(ok == okA && (!ok || v == id), "additional fields of stops are kept with them")
	}
	vv.ObsInt("trips", len(f.Trips))
	vv.ObsInt("stops", len(f.Stops))
	vv.ObsInt("routes", len(f.Routes))
	vv.ObsInt("transfers", len(f.Transfers))
	vv.ObsInt("other", len(f.Services)+10*len(f.Shapes)+100*len(f.Agencies))

	n := len(f.Trips) + len(f.Stops) + len(f.Routes) + len(f.Transfers) + len(f.Services) + len(f.Shapes) + len(f.Agencies)
	processors.OrphanRemover{}.Run(f)
	vv.Assert(n == len(f.Trips)+len(f.Stops)+len(f.Routes)+len(f.Transfers)+len(f.Services)+len(f.Shapes)+len(f.Agencies), "a second run removes nothing")
}

// orphanFeed has a little of everything.
func orphanFeed() *gtfsparser.Feed {
	f := gtfsparser.NewFeed()
	a1, a2 := addAgency(f, "a1"), addAgency(f, "a2")
	l := &gtfs.Level{Id: "l"}
	f.Levels["l"] = l
	st := addStop(f, "st")
	st.Location_type = 1
	p1 := addStop(f, "p1")
	p1.Level = l
	addStop(f, "p2")
	addRoute(f, "r1", a1)
	addRoute(f, "r2", a2)
	addService(f, "s1", 127, day(0), day(2))
	addService(f, "s2", 1, day(0), day(1))
	f.Shapes["sh1"] = &gtfs.Shape{Id: "sh1", Points: gtfs.ShapePoints{gtfs.ShapePoint{Lat: 1, Lon: 1, Sequence: 1}}}
	f.Shapes["sh2"] = &gtfs.Shape{Id: "sh2", Points: gtfs.ShapePoints{gtfs.ShapePoint{Lat: 1, Lon: 1, Sequence: 1}}}
	for _, id := range []string{"p1", "p2", "st"} {
		fld(f.StopsAddFlds, "x")[id] = id
	}
	return f
}

func fullStop(s *gtfs.Stop, seq int) gtfs.StopTime {
	x := stime(s, seq, hms(60*seq), hms(60*seq), 0)
	x.SetContinuous_pickup(1)
	x.SetContinuous_drop_off(1)
	return x
}

// C12_trips: trips with 0-2 stop times and every combination of boarding rules.
//
//vv:cases quick=3 thorough=6 timeout=300 ttimeout=2500
func C12_trips(c int) {
	f := orphanFeed()
	for _, id := range []string{"r1", "r2"} {
		f.Routes[id].Continuous_pickup = int8(vv.Int("cp"+id, 0, 3))
		f.Routes[id].Continuous_drop_off = int8(vv.Int("cd"+id, 0, 3))
	}
	for i := 0; i < 2; i++ {
		t := addTrip(f, vv.N("t", i), f.Routes[vv.N("r", i+1)], f.Services[vv.N("s", i+1)])
		if c%2 == 0 {
			t.Shape = f.Shapes["sh1"]
		}
		n := 1
		if i == 0 {
			n = []int{1, 2, 0}[c%3]
		}
		for k := 0; k < n; k++ {
			x := stime(f.Stops[vv.N("p", k+1)], k+1, hms(60*k), hms(60*k), 0)
			q := vv.N(vv.N("st", i), k)
			x.SetPickup_type(uint8(vv.Int(q+"pu", 0, 3)))
			x.SetDrop_off_type(uint8(vv.Int(q+"do", 0, 3)))
			x.SetContinuous_pickup(uint8(vv.Int(q+"cpu", 0, 3)))
			x.SetContinuous_drop_off(uint8(vv.Int(q+"cdo", 0, 3)))
			t.StopTimes = append(t.StopTimes, x)
		}
		if n == 0 && vv.Bool("fr") {
			t.Frequencies = &[]*gtfs.Frequency{{Start_time: hms(0), End_time: hms(10), Headway_secs: 5}}
		}
	}
	f.Transfers[gtfs.TransferKey{From_stop: f.Stops["p1"], To_stop: f.Stops["p1"], From_trip: f.Trips["t1"]}] = gtfs.TransferVal{}
	f.Transfers[gtfs.TransferKey{From_trip: f.Trips["t0"], To_trip: f.Trips["t1"]}] = gtfs.TransferVal{Transfer_type: 4}
	vv.MapOrder(c / 3 % 2)
	checkOrphans(f)
}

// C12_refs: routes, services, shapes, agencies, fares and transfers of trips.
//
//vv:cases quick=4 thorough=8 timeout=300 ttimeout=2500
func C12_refs(c int) {
	f := orphanFeed()
	pickR := func(n string) *gtfs.Route {
		return []*gtfs.Route{nil, f.Routes["r1"], f.Routes["r2"]}[vv.Split(vv.Int(n, 0, 2))]
	}
	alive := vv.Split(vv.Int("alive", 0, 1)) == 1
	for i := 0; i < 2; i++ {
		t := addTrip(f, vv.N("t", i), f.Routes[vv.N("r", 1+vv.Split(vv.Int(vv.N("tr", i), 0, 1)))], f.Services["s1"])
		if alive || i == 0 {
			t.StopTimes = append(t.StopTimes, fullStop(f.Stops["p1"], 1))
		}
		if c%2 == 0 {
			t.Service = f.Services[vv.N("s", 1+vv.Split(vv.Int(vv.N("ts", i), 0, 1)))]
			t.Shape = []*gtfs.Shape{nil, f.Shapes["sh1"], f.Shapes["sh2"]}[vv.Split(vv.Int(vv.N("tsh", i), 0, 2))]
		}
	}
	if c%2 == 1 {
		k := gtfs.TransferKey{From_stop: f.Stops["p1"], To_stop: f.Stops["p1"]}
		k.From_route, k.To_route = pickR("fr"), pickR("to")
		k.From_trip = []*gtfs.Trip{nil, f.Trips["t0"], f.Trips["t1"]}[vv.Split(vv.Int("ft", 0, 2))]
		f.Transfers[k] = gtfs.TransferVal{Transfer_type: 1}
	}
	if vv.Split(vv.Int("agency", 0, 1)) == 1 {
		f.Routes["r2"].Agency = []*gtfs.Agency{nil, f.Agencies["a1"]}[c/2%2]
	}
	fa := &gtfs.FareAttribute{Id: "f", Agency: []*gtfs.Agency{nil, f.Agencies["a2"]}[vv.Split(vv.Int("fag", 0, 1))]}
	f.FareAttributes["f"] = fa
	if r := vv.Split(vv.Int("rule", 0, 3)); r < 3 {
		fa.Rules = append(fa.Rules, &gtfs.FareAttributeRule{Route: []*gtfs.Route{nil, f.Routes["r1"], f.Routes["r2"]}[r]})
	}
	vv.MapOrder(c / 2 % 2)
	checkOrphans(f)
}

// C12_stops: parents, transfers and pathways between used and unused stops of up to
// three levels.
//
//vv:cases quick=6 thorough=16 timeout=300 ttimeout=2500
func C12_stops(c int) {
	f := orphanFeed()
	st, p1, p2 := f.Stops["st"], f.Stops["p1"], f.Stops["p2"]
	st2, b, e := addStop(f, "st2"), addStop(f, "b"), addStop(f, "e")
	st2.Location_type, b.Location_type = 1, 4
	b.Parent_station = p1
	e.Parent_station = st2
	e.Location_type = []int8{0, 2, 3}[vv.Split(vv.Int("e", 0, 2))]
	p1.Parent_station = []*gtfs.Stop{nil, st, st2}[vv.Split(vv.Int("p1", 0, 2))]
	p2.Parent_station = []*gtfs.Stop{nil, st}[vv.Split(vv.Int("p2", 0, 1))]
	t := addTrip(f, "t0", f.Routes["r1"], f.Services["s1"])
	for i, n := 0, vv.Split(vv.Int("first", 0, 2)); i < 1; i++ {
		t.StopTimes = append(t.StopTimes, fullStop([]*gtfs.Stop{p1, p2, e}[n], 1))
	}
	all := []*gtfs.Stop{st, p1, p2, st2, b, e}
	pick := func(n string) *gtfs.Stop { return all[vv.Split(vv.Int(n, 0, len(all)-1))] }
	switch c % 3 {
	case 0: // one transfer
		k := gtfs.TransferKey{From_stop: pick("from"), To_stop: pick("to")}
		f.Transfers[k] = gtfs.TransferVal{Min_transfer_time: vv.Int("min", 0, 100)}
	case 1: // one pathway
		f.Pathways["p"] = &gtfs.Pathway{Id: "p", From_stop: pick("from"), To_stop: pick("to")}
	case 2: // both
		f.Transfers[gtfs.TransferKey{From_stop: pick("from"), To_stop: st2}] = gtfs.TransferVal{}
		f.Pathways["p"] = &gtfs.Pathway{Id: "p", From_stop: p1, To_stop: pick("to")}
	}
	vv.MapOrder([]int{0, 1}[c/3%2])
	checkOrphans(f)
}
