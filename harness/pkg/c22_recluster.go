package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// zzRep are the stops which may stand for a stop of the input.
func zzRep(f *gtfsparser.Feed, orig []*gtfs.Stop, s *gtfs.Stop, is *gtfs.Stop) bool {
	if s == nil || is == nil {
		return s == is
	}
	if f.Stops[s.Id] == s {
		return s == is
	}
	// a station that was merged into another one
	return s.Location_type == 1 && is.Location_type == 1 && f.Stops[is.Id] == is
}

// C22_recluster: four stops of any type next to each other or apart, with
// equal, similar or different names, with transfers and pathways.
//
//vv:cases quick=16 thorough=48 timeout=200 ttimeout=1500 nomerge=1
func C22_recluster(c int) {
	f := gtfsparser.NewFeed()
	// these span the index, whatever the order of the stops
	lo := addStop(f, "lo")
	lo.Lat, lo.Lon, lo.Name = 0.01, 0.01, "Lower"
	hi := addStop(f, "hi")
	hi.Lat, hi.Lon, hi.Name = 0.5, 0.5, "Upper"
	s := []*gtfs.Stop{}
	names := []string{"Main Street", "Main Street 2", "Market", ""}
	// 1/1024 degree is 108.7 m
	offs := []float32{0, 1.0 / 4096, 2.0 / 4096, 5.0 / 4096, 0.05}
	kinds := c % 16
	np, nn := 4, 2
	if vv.Tier() > 0 {
		np, nn = 5, 4
	}
	for i := 0; i < 4; i++ {
		p := vv.N("s", i)
		x := addStop(f, p)
		x.Lat, x.Lon = 0.25, 0.25
		if i > 0 {
			x.Lon += offs[vv.Split(vv.Int(p+"off", 0, np-1))]
		}
		if c >= 32 && i == 2 {
			x.Lat += 1.0 / 4096
		}
		x.Name = names[0]
		if i > 0 {
			x.Name = names[vv.Split(vv.Int(p+"name", 0, nn-1))*(1+c/16%2)]
		}
		x.Wheelchair_boarding = int8(i % 3)
		if i == 1 {
			x.Url = urls[0]
		}
		s = append(s, x)
	}
	if kinds&1 != 0 {
		s[0].Location_type = 1
	}
	if kinds&2 != 0 {
		s[1].Location_type = 1
	}
	for i := 2; i < 4; i++ {
		up := s[i-2]
		if kinds&(4<<(i-2)) == 0 {
			continue
		}
		s[i].Parent_station = up
		if up.Location_type == 0 {
			s[i].Location_type = 4
		} else if i == 3 {
			s[i].Location_type = 2
		} else if kinds&2 != 0 {
			s[i].Location_type = 3
		}
	}
	lo2 := addStop(f, "lo2")
	lo2.Lat, lo2.Lon, lo2.Name = 0.005, 0.005, "Lowest"

	r := addRoute(f, "r", addAgency(f, "ag"))
	t := addTrip(f, "t", r, addService(f, "sv", 127, day(0), day(1)))
	for i, x := range append(s, lo, hi) {
		if x.Location_type == 0 {
			t.StopTimes = append(t.StopTimes, stime(x, i+1, hms(i), hms(i), 0))
		}
	}
	keys := []gtfs.TransferKey{{From_stop: s[0], To_stop: s[1]}, {From_stop: s[0], To_stop: hi}, {From_stop: s[1], To_stop: hi}, {From_stop: s[2], To_stop: s[0], From_route: r}, {From_stop: s[3], To_stop: s[1], To_trip: t}, {From_trip: t, To_trip: t}, {From_stop: s[0], To_stop: s[0]}, {From_stop: s[1], To_stop: s[1]}}
	f.TransfersAddFlds["x"] = map[gtfs.TransferKey]string{}
	for i, k := range keys {
		f.Transfers[k] = gtfs.TransferVal{Transfer_type: 2, Min_transfer_time: i}
		f.TransfersAddFlds["x"][k] = vv.Itoa(i)
	}
	from, to := []*gtfs.Stop{s[0], s[2], s[3], s[1], s[0]}, []*gtfs.Stop{s[1], s[3], s[1], s[1], s[0]}
	for i := range from {
		id := vv.N("p", i)
		f.Pathways[id] = &gtfs.Pathway{Id: id, From_stop: from[i], To_stop: to[i]}
	}
	for _, x := range s {
		fld(f.StopsAddFlds, "x")[x.Id] = "v" + x.Id
	}

	before := snap(f)
	vv.MapOrder(vv.Split(vv.Int("order", 0, 1)))
	processors.StopReclusterer{DistThreshold: 75, NameSimiThreshold: 0.55, GridCellSize: 10000}.Run(f)
	closed(f)
	vv.ObsInt("pathways", len(f.Pathways))

	// nothing but parents changes
	vv.Assert(len(f.Trips) == 1 && sameTimes(t.StopTimes, before.trT[0]) && sameTripRest(t, &before.trV[0]), "trips and stop times are unaltered")
	merged, added := 0, 0
	for i, x := range before.st {
		v := &before.stV[i]
		vv.Assert(vv.And(sameStopRest(x, v), samePos(x, v), x.Platform_code == v.Platform_code), "stops are unaltered")
		if x.Location_type == 1 && f.Stops[x.Id] != x {
			merged++
			continue
		}
		vv.Assert(f.Stops[x.Id] == x, "only stations are merged")
		p := x.Parent_station
		switch x.Location_type {
		case 1:
			vv.Assert(p == nil, "stations have no parent")
		case 4:
			vv.Assert(p == v.Parent_station, "boarding areas keep their platform")
		default:
			vv.Assert(p == nil || p.Location_type == 1 && p.Parent_station == nil && f.Stops[p.Id] == p, "parents are stations")
			vv.Assert(p != nil || v.Parent_station == nil, "no stop leaves its station")
		}
	}
	for _, x := range []*gtfs.Stop{lo, hi, lo2} {
		vv.Assert(x.Parent_station == nil, "a stop far from all others stays alone")
	}
	for i, x := range before.st {
		v := &before.stV[i]
		vv.Assert(merged > 0 || v.Parent_station == nil || x.Parent_station == v.Parent_station, "stops stay at their stations unless stations are merged")
	}
	for id, x := range f.Stops {
		known := false
		for _, y := range before.st {
			known = known || x == y
		}
		if !known {
			added++
			vv.Assert(x.Location_type == 1 && x.Parent_station == nil, "only stations are added")
			_, ok := f.StopsAddFlds["x"][id]
			vv.Assert(!ok, "the new station has no additional fields of others")
			// the stops below it are connected by short distances
			var in []*gtfs.Stop
			for _, y := range s {
				up := y
				if y.Location_type == 4 {
					up = y.Parent_station
				}
				if up.Parent_station == x {
					in = append(in, y)
				}
			}
			vv.Assert(len(in) > 1, "a new station has several stops")
			seen := []*gtfs.Stop{in[0]}
			for k := 0; k < len(seen); k++ {
				for _, y := range in {
					have := false
					for _, z := range seen {
						have = have || z == y
					}
					d := metersTo(float64(y.Lat), float64(y.Lon), float64(seen[k].Lat), float64(seen[k].Lon))
					if !have && (d < 76 || y.Parent_station == seen[k] || seen[k].Parent_station == y) {
						seen = append(seen, y)
					}
				}
			}
			vv.Assert(len(seen) == len(in), "stops of a new station are near each other")
		}
	}
	vv.Cover("stations are merged", merged > 0)
	vv.Cover("stations are added", added > 0)
	for _, x := range s {
		if f.Stops[x.Id] == x {
			vv.Assert(f.StopsAddFlds["x"][x.Id] == "v"+x.Id, "additional fields of stops stay")
		}
	}

	// transfers and pathways
	for _, k := range keys {
		found := false
		for n := range f.Transfers {
			found = found || zzRep(f, s, k.From_stop, n.From_stop) && zzRep(f, s, k.To_stop, n.To_stop) && k.From_route == n.From_route && k.To_trip == n.To_trip && k.From_trip == n.From_trip
		}
		vv.Assert(found, "no transfer is lost")
	}
	for n, v := range f.Transfers {
		k := keys[v.Min_transfer_time]
		vv.Assert(v.Transfer_type == 2 && zzRep(f, s, k.From_stop, n.From_stop) && zzRep(f, s, k.To_stop, n.To_stop) && k.From_route == n.From_route && k.To_trip == n.To_trip && k.From_trip == n.From_trip, "transfers connect what they connected")
		vv.Assert(f.TransfersAddFlds["x"][n] == vv.Itoa(v.Min_transfer_time), "additional fields of transfers move along")
	}
	vv.Assert(len(f.Pathways) == len(from), "no pathway is lost")
	for i := range from {
		p := f.Pathways[vv.N("p", i)]
		vv.Assert(zzRep(f, s, from[i], p.From_stop) && zzRep(f, s, to[i], p.To_stop), "pathways connect what they connected")
	}
}

// C22_near: two stops (or stations, each with a stop) of the same name next to each
// other, anywhere in a feed of differently named stops.
//
//vv:cases quick=6 thorough=12 timeout=200 ttimeout=600 nomerge=1
func C22_near(c int) {
	f := gtfsparser.NewFeed()
	// one of these places holds the pair; 1/8 degree is 14 km
	places := [][2]float32{{0.25, 0.25}, {0.25, 0.375}, {0.375, 0.25}, {0.5, 0.5}, {0.26, 0.26}, {0.4, 0.3}, {0.25, 0.5}}
	switch c % 6 {
	case 1: // all in a line
		places = [][2]float32{{0.25, 0.25}, {0.25, 0.375}, {0.25, 0.5}}
	case 2:
		places = [][2]float32{{48.25, 7.25}, {48.375, 7.25}, {48.5, 7.25}}
	case 3: // a small town
		places = [][2]float32{{48, 7.875}, {48.015, 7.86}, {47.99, 7.88}, {48.01, 7.85}}
	case 4: // across the equator and meridian
		places = [][2]float32{{0, 0}, {-0.25, 0.25}, {0.25, -0.25}, {-0.25, -0.25}, {0.3, 0.3}}
	case 5: // far apart
		places = [][2]float32{{-33.9, 18.4}, {48, 7.8}, {60.2, 24.9}}
	}
	at := vv.Split(vv.Int("at", 0, len(places)-1))
	first := vv.Split(vv.Int("first", 0, 1)) == 1 // the pair comes before the others
	names := []string{"Lower Market", "Harbour", "Upper Square", "Bridge", "Church", "School", "Mill"}
	others := func() {
		for i, p := range places {
			if i != at {
				x := addStop(f, vv.N("o", i))
				x.Lat, x.Lon, x.Name = p[0], p[1], names[i]
			}
		}
	}
	if !first {
		others()
	}
	off := []float32{0, 1.0 / 8192, 1.0 / 4096}[vv.Split(vv.Int("off", 0, 2))]
	south := vv.Split(vv.Int("south", 0, 1)) == 1
	stations := vv.Split(vv.Int("stations", 0, 2))
	var s []*gtfs.Stop
	for i := 0; i < 2; i++ {
		x := addStop(f, vv.N("s", i))
		x.Lat, x.Lon, x.Name = places[at][0], places[at][1], "Central Station"
		if i == 1 && south {
			x.Lat -= off
		} else if i == 1 {
			x.Lon += off
		}
		s = append(s, x)
		if i < stations {
			y := *x
			y.Id = vv.N("st", i)
			y.Location_type = 1
			f.Stops[y.Id] = &y
			x.Parent_station = &y
		}
	}
	if first {
		others()
	}
	vv.MapOrder(c / 6)

	processors.StopReclusterer{DistThreshold: 75, NameSimiThreshold: 0.55, GridCellSize: 10000}.Run(f)

	closed(f)
	p := s[0].Parent_station
	vv.ObsBool("station", p != nil)
	vv.Assert(p != nil && s[1].Parent_station == p, "stops of the same name next to each other get the same station")
	vv.Assert(p == nil || f.Stops[p.Id] == p && p.Location_type == 1, "the station is part of the feed")
	for id, x := range f.Stops {
		vv.Assert(id[0] != 'o' || x.Parent_station == nil, "stops far from all others stay alone")
	}
}
