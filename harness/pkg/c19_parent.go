package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// C19_parents: four stops of free types and parents, with IDs like those of the
// stations that are added.
//
//vv:cases quick=6 thorough=18 timeout=300 ttimeout=2500
func C19_parents(c int) {
	f := gtfsparser.NewFeed()
	ids := [][]string{
		{"a", "par::a", "par1::a", "b"},
		{"a", "b", "c", "st"},
		{"par::a", "a", "par::par::a", "st"},
		{"a", "par1::a", "par2::a", "par::a"},
		{"", "par::", "par1::", "::"},
		{"b", "a", "par::b", "par::a"},
	}[c%6]
	var stops []*gtfs.Stop
	st := addStop(f, "station")
	st.Location_type = 1
	l := &gtfs.Level{Id: "l"}
	f.Levels["l"] = l
	for i, id := range ids {
		s := addStop(f, id)
		p := vv.N("s", i)
		s.Name = vv.Str(p+"name", "N", "M", "")
		s.Lat = vv.F32(p+"lat", 1, 1.5, -3)
		s.Lon = vv.F32(p+"lon", 2, 7.25)
		s.Wheelchair_boarding = int8(vv.Int(p+"wh", 0, 2))
		s.Url = pickUrl(p + "url")
		s.Level = l
		s.Location_type = []int8{0, 0, 1, 2, 3}[vv.Split(vv.Int(p+"type", 0, 4))]
		if s.Location_type > 1 || s.Location_type == 0 && vv.Split(vv.Int(p+"par", 0, 1)) == 1 {
			s.Parent_station = st
		}
		stops = append(stops, s)
	}
	ba := addStop(f, "ba")
	ba.Location_type, ba.Parent_station = 4, stops[0]
	r := addRoute(f, "r", addAgency(f, "ag"))
	t := addTrip(f, "t", r, addService(f, "s", 127, day(0), day(1)))
	for i, s := range stops {
		t.StopTimes = append(t.StopTimes, stime(s, i+1, hms(i), hms(i), 0))
	}
	f.Transfers[gtfs.TransferKey{From_stop: stops[0], To_stop: stops[1]}] = gtfs.TransferVal{Transfer_type: 1}
	f.Pathways["p"] = &gtfs.Pathway{Id: "p", From_stop: stops[2], To_stop: stops[3]}
	fld(f.StopsAddFlds, "x")[ids[0]] = "v"
	free(f, freePlatform|freeBoarding)
	before := snap(f)

	vv.MapOrder(c / 6 % 3)
	processors.StopParentEnforcer{}.Run(f)

	closed(f)
	unaltered(f, before, mayAdd|mayParent)
	added := 0
	seen := make(map[*gtfs.Stop]bool)
	for i, s := range before.st {
		v := &before.stV[i]
		if s.Location_type != 0 || v.Parent_station != nil {
			vv.Assert(s.Parent_station == v.Parent_station, "stops with a parent, and stations, keep theirs")
			continue
		}
		added++
		p := s.Parent_station
		vv.Assert(p != nil, "every stop has a parent")
		vv.Assert(p.Location_type == 1 && p.Parent_station == nil, "the parent is a station")
		vv.Assert(f.Stops[p.Id] == p, "the parent is in the feed")
		vv.Assert(!seen[p] && p != st, "every stop has a station of its own")
		seen[p] = true
		vv.Assert(vv.And(p.Name == v.Name, samePos(p, v)), "the station has the name and position of its stop")
	}
	for _, s := range f.Stops {
		vv.Assert(s.Location_type != 0 || s.Parent_station != nil, "every stop has a parent")
	}
	vv.Assert(len(f.Stops) == len(before.st)+added, "nothing else is added")
	vv.Assert(len(f.Transfers) == 1 && len(f.Pathways) == 1 && len(f.Levels) == 1 && len(f.Trips) == 1, "nothing else is added")
	vv.Assert(f.StopsAddFlds["x"][ids[0]] == "v", "additional fields are kept")
	vv.Cover("added", added > 0)
	vv.ObsInt("stops", len(f.Stops))
}
