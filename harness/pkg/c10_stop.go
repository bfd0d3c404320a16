package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

var c10proc = processors.StopDuplicateRemover{DistThresholdStop: 5, DistThresholdStation: 50}

// C10_attr: two stops that may differ in every attribute, in additional fields, in
// level, parent and position.
//
//vv:cases quick=4 thorough=8 timeout=300 ttimeout=2000
func C10_attr(c int) {
	f := gtfsparser.NewFeed()
	r, sv := addRoute(f, "r", addAgency(f, "ag")), addService(f, "sv", 127, day(0), day(6))
	p1, p2 := addStop(f, "p1"), addStop(f, "p2")
	for _, p := range []*gtfs.Stop{p1, p2} {
		p.Location_type = 1
	}
	p2.Name = "other"
	var ls [3]*gtfs.Level
	for i := range ls {
		ls[i] = &gtfs.Level{Id: "l" + vv.Itoa(i), Index: 1, Name: "L"}
		f.Levels[ls[i].Id] = ls[i]
	}
	ls[2].Index = float32(vv.Int("level", 1, 2))
	ids := []string{"aaa", "bb"}
	fl := fld(f.StopsAddFlds, "x")
	var ss [2]*gtfs.Stop
	var orig [2]gtfs.Stop
	var ts [2]*gtfs.Trip
	var ex [2]string
	for i, id := range ids {
		s := addStop(f, id)
		s.Name = "S"
		if i == 1 {
			// hashed attributes
			d := func(n string) string {
				return []string{"", "x"}[vv.Split(vv.Int(n, 0, 1))]
			}
			switch c % 4 {
			case 0:
				s.Code, s.Platform_code = d("code"), d("platform")
				s.Name += d("name")
			case 1:
				s.Desc, s.Zone_id = d("desc"), d("zone")
				s.Timezone = tzOf(vv.Split(vv.Int("tz", 0, 1)) == 1)
			case 2:
				s.Location_type = int8(vv.Split(vv.Int("type", 0, 1)) * 2)
				s.Wheelchair_boarding = int8(vv.Split(vv.Int("wheel", 0, 2)))
			}
		}
		s.Url = pickUrl(id + "url")
		if c%4 == 2 {
			switch vv.Split(vv.Int(id+"level", 0, 3)) {
			case 1:
				s.Level = ls[0]
			case 2:
				s.Level = ls[1]
			case 3:
				s.Level = ls[2]
			}
		}
		if c%4 == 3 {
			switch vv.Split(vv.Int(id+"parent", 0, 2)) {
			case 1:
				s.Parent_station = p1
			case 2:
				s.Parent_station = p2
			}
		}
		ex[i] = vv.Str(id+"extra", "", "v")
		fl[id] = ex[i]
		s.Platform_code += ""
		ss[i], orig[i] = s, *s
		ts[i] = visit(f, "t"+vv.Itoa(i), r, sv, s)
	}
	near := true
	if c%4 == 3 {
		at := vv.Split(vv.Int("at", 0, 3))
		ss[1].Lat += []float32{0, 4, 7, 60}[at] * meter
		near = at < 2
		switch k := vv.Split(vv.Int("kind", 0, 4)); k {
		case 0:
		case 1:
			vv.Assume(ss[0].Parent_station == nil && ss[1].Parent_station == nil)
			ss[0].Location_type, ss[1].Location_type = 1, 1
			near = at < 3
		default: // entrances, nodes, boarding areas
			ss[0].Location_type, ss[1].Location_type = int8(k), int8(k)
		}
		orig[0], orig[1] = *ss[0], *ss[1]
	}
	vv.SetCPU(1 + c/4)
	vv.MapOrder(c % 2)
	c10proc.Run(f)
	closed(f)
	eq := vv.And(sameStop(&orig[0], &orig[1]), eqLevel(orig[0].Level, orig[1].Level), orig[0].Parent_station == orig[1].Parent_station, ex[0] == ex[1], near)
	_, in0 := f.Stops["aaa"]
	_, in1 := f.Stops["bb"]
	vv.Assert(vv.Or(in0, in1), "one of the stops remains")
	vv.Assert(f.Stops["p1"] == p1 && f.Stops["p2"] == p2, "different stops are not merged")
	vv.Assert(vv.Iff(eq, !vv.And(in0, in1)), "exactly equal and near stops are merged")
	for i := range ts {
		s := ts[i].StopTimes[0].Stop()
		vv.Assert(vv.And(sameStop(s, &orig[i]), eqLevel(s.Level, orig[i].Level), s.Parent_station == orig[i].Parent_station, fl[s.Id] == ex[i]), "stop time points to an equal stop")
		vv.Assert(vv.Or(s == ss[i], near), "stop time points to a near stop")
		vv.Assert(vv.And(s.Lat == 1, s.Lon == 1) || s == ss[1] && c%4 == 3, "stops are not moved")
	}
	vv.Cover("merged", !vv.And(in0, in1))
	vv.Cover("kept", vv.And(in0, in1))
	vv.ObsInt("stops", len(f.Stops))
	vv.ObsInt("levels", len(f.Levels))
}

// C10_refs: four stops, some of them equal, with arbitrary transfers and pathways
// between them, stations that are merged before their children, and levels.
//
//vv:cases quick=8 thorough=24 timeout=300 ttimeout=2500
func C10_refs(c int) {
	f := gtfsparser.NewFeed()
	r, sv := addRoute(f, "r", addAgency(f, "ag")), addService(f, "sv", 127, day(0), day(6))
	r2 := addRoute(f, "r2", r.Agency)
	ids := []string{"aa", "b", "x:c", "d"}
	// equal names may be merged
	names := [][]string{{"s", "s", "t", "t"}, {"s", "s", "s", "t"}, {"s", "s", "s", "s"}, {"s", "t", "s", "u"}}[c%4]
	var ss [4]*gtfs.Stop
	var ts [4]*gtfs.Trip
	par := vv.Split(vv.Int("parents", 0, 2))
	l1, l2 := &gtfs.Level{Id: "l1", Name: "L"}, &gtfs.Level{Id: "l2", Name: "L"}
	f.Levels["l1"], f.Levels["l2"] = l1, l2
	for i, id := range ids {
		ss[i] = addStop(f, id)
		ss[i].Name = names[i]
		if i < 2 {
			ss[i].Level = l1
		} else {
			ss[i].Level = l2
		}
		if par > 0 {
			p := addStop(f, "p"+id)
			p.Name, p.Location_type = names[i], 1
			if par == 2 && i == 1 {
				// the stations are further apart
				p.Lat += 100 * meter
			}
			ss[i].Parent_station = p
		}
		ts[i] = visit(f, "t"+vv.Itoa(i), r, sv, ss[i])
	}
	grp := func(i int) int {
		if par == 2 && i == 1 {
			return 9
		}
		for j := range names {
			if names[j] == names[i] && !(par == 2 && j == 1) {
				return j
			}
		}
		return i
	}
	const k = 2
	var from, to [k]int
	var val [k]gtfs.TransferVal
	extra := make(map[gtfs.TransferKey]string)
	f.TransfersAddFlds["x"] = extra
	for i := 0; i < k; i++ {
		from[i], to[i] = vv.Split(vv.Int(vv.N("from", i), 0, 3)), vv.Split(vv.Int(vv.N("to", i), 0, 3))
		tk := gtfs.TransferKey{From_stop: ss[from[i]], To_stop: ss[to[i]]}
		if vv.Split(vv.Int("route", 0, 1)) == 1 && i == 1 {
			tk.From_route = r2
		}
		val[i] = gtfs.TransferVal{Transfer_type: 2, Min_transfer_time: 60 * (i + 1)}
		f.Transfers[tk] = val[i]
		extra[tk] = vv.N("e", i)
	}
	hasRoute := vv.Split(vv.Int("route", 0, 1)) == 1
	vv.Assume(hasRoute || from[0] != from[1] || to[0] != to[1])
	// a pathway along each transfer
	var ps [k]*gtfs.Pathway
	for i := range ps {
		ps[i] = &gtfs.Pathway{Id: vv.N("p", i), From_stop: ss[from[i]], To_stop: ss[to[i]], Mode: 1, Length: 7}
		f.Pathways[ps[i].Id] = ps[i]
	}
	vv.SetCPU(1)
	vv.MapOrder(c / 4 % 3)
	c10proc.Run(f)
	closed(f)
	vv.Assert(len(f.Levels) == 1, "equal levels are merged")
	at := func(i int) *gtfs.Stop { return ts[i].StopTimes[0].Stop() }
	groups := make(map[int]bool)
	for i := range ss {
		groups[grp(i)] = true
		s := at(i)
		vv.Assert(s.Name == names[i], "stop time points to an equal stop")
		vv.Assert(s.Level.Name == "L", "stop keeps an equal level")
		if par > 0 {
			vv.Assert(s.Parent_station.Name == names[i] && s.Parent_station.Location_type == 1, "stop keeps an equal parent")
			vv.Assert(s.Parent_station.Lat == 1 || i == 1, "stop keeps a near parent")
		}
		for j := range ss {
			vv.Assert((grp(i) == grp(j)) == (at(i) == at(j)), "exactly the equal stops are merged")
		}
	}
	want := len(groups)
	if par > 0 {
		want *= 2
	}
	vv.Assert(len(f.Stops) == want, "exact duplicates do not remain")
	keys := 0
	for i := 0; i < k; i++ {
		tk := gtfs.TransferKey{From_stop: at(from[i]), To_stop: at(to[i])}
		if hasRoute && i == 1 {
			tk.From_route = r2
		}
		o := gtfs.TransferKey{From_stop: at(from[1-i]), To_stop: at(to[1-i])}
		same := tk.From_stop == o.From_stop && tk.To_stop == o.To_stop && !hasRoute
		v, ok := f.Transfers[tk]
		vv.Assert(ok, "transfer is kept")
		vv.Assert(v == val[i] && extra[tk] == vv.N("e", i) || same && v == val[1-i] && extra[tk] == vv.N("e", 1-i), "transfer keeps its values")
		if !same || i == 0 {
			keys++
		}
	}
	vv.Assert(len(f.Transfers) == keys, "no transfer is invented")
	vv.Assert(len(f.Pathways) == k, "pathways are kept")
	for i, p := range ps {
		vv.Assert(f.Pathways[p.Id] == p && p.From_stop == at(from[i]) && p.To_stop == at(to[i]) && p.Mode == 1 && p.Length == 7, "pathways are kept")
	}
	vv.Cover("transfers merged", len(f.Transfers) == 1)
	vv.ObsInt("stops", len(f.Stops))
	vv.ObsInt("transfers", len(f.Transfers))
}

// C10_near: three equal stops (or stations) at arbitrary places of a grid. Stops are
// merged along chains of near ones only.
//
//vv:cases quick=4 thorough=8 timeout=200 ttimeout=1500
func C10_near(c int) {
	f := gtfsparser.NewFeed()
	r, sv := addRoute(f, "r", addAgency(f, "ag")), addService(f, "sv", 127, day(0), day(6))
	th := []float64{5, 50}[c%2]
	var ss [3]*gtfs.Stop
	var ts [3]*gtfs.Trip
	var x, y [3]float64
	for i, id := range []string{"a", "bb", "c:c"} {
		s := addStop(f, id)
		s.Location_type = int8(c % 2)
		if i > 0 {
			x[i], y[i] = []float64{0, 0.8, 1.6, 4}[vv.Split(vv.Int(id+"x", 0, 3))]*th, []float64{0, 0.5, 1.05}[vv.Split(vv.Int(id+"y", 0, 2))]*th
		}
		s.Lat, s.Lon = 1+float32(y[i]*meter), 1+float32(x[i]*meter)
		ss[i] = s
		q := s
		if c%2 == 1 {
			// a platform of the station
			q = addStop(f, "p"+id)
			q.Name = id
			q.Parent_station = s
		}
		s.Name = "same"
		ts[i] = visit(f, "t"+id, r, sv, q)
	}
	near := func(i, j int) bool {
		return (x[i]-x[j])*(x[i]-x[j])+(y[i]-y[j])*(y[i]-y[j]) <= th*th
	}
	vv.SetCPU(1)
	vv.MapOrder(c / 2 % 3)
	c10proc.Run(f)
	closed(f)
	at := func(i int) *gtfs.Stop {
		s := ts[i].StopTimes[0].Stop()
		if c%2 == 1 {
			vv.Assert(s == f.Stops["p"+ss[i].Id], "different stops are not merged")
			return s.Parent_station
		}
		return s
	}
	any := false
	for i := range ss {
		for j := range ss {
			k := 3 - i - j
			chain := i == j || near(i, j) || k >= 0 && k < 3 && k != i && k != j && near(i, k) && near(k, j)
			vv.Assert(at(i) != ss[j] || chain, "stop is replaced by a near one")
			if i < j {
				any = any || near(i, j)
				vv.Assert(x[i] != x[j] || y[i] != y[j] || at(i) == at(j), "exact duplicates do not remain")
			}
		}
	}
	vv.Assert(any == (len(f.Stops) < 3+c%2*3), "near equal stops are merged")
	vv.ObsBool("any", any)
}

// C10_groups: more stops, stations and levels that differ in one attribute, forming
// any number of groups.
//
//vv:cases quick=6 thorough=12 timeout=200 ttimeout=1500
func C10_groups(c int) {
	n := 4 + c/6
	f := gtfsparser.NewFeed()
	r, sv := addRoute(f, "r", addAgency(f, "ag")), addService(f, "sv", 127, day(0), day(6))
	ids := []string{"aaa", "b", "cc", "dddd", "eeeee"}
	var kind [5]int
	var ts [5]*gtfs.Trip
	for i := 0; i < n; i++ {
		kind[i] = vv.Split(vv.Int(vv.N("kind", i), 0, 2))
		s := addStop(f, ids[i])
		q := s
		if c%3 == 0 {
			s.Name = "s"
		}
		if c%3 == 1 {
			// a platform of each station
			q = addStop(f, "p"+ids[i])
			s.Name, s.Location_type, q.Name, q.Parent_station = "s", 1, ids[i], s
		}
		if c%3 == 2 {
			// levels of different stops
			s.Name = ids[i]
			s.Level = &gtfs.Level{Id: ids[i], Index: float32(kind[i])}
			f.Levels[ids[i]] = s.Level
		} else {
			s.Code = []string{"a", "b", "c"}[kind[i]]
		}
		ts[i] = visit(f, vv.N("t", i), r, sv, q)
	}
	vv.SetCPU([]int{1, 3, 2, 8}[c/3%4])
	vv.MapOrder(c / 3 % 2)
	c10proc.Run(f)
	closed(f)
	for i := 0; i < n; i++ {
		s := ts[i].StopTimes[0].Stop()
		if c%3 == 2 {
			vv.Assert(s.Id == ids[i] && s.Level.Index == float32(kind[i]), "stop keeps an equal level")
		} else {
			if c%3 == 1 {
				vv.Assert(s.Id == "p"+ids[i], "different stops are not merged")
				s = s.Parent_station
			}
			vv.Assert(s.Code == []string{"a", "b", "c"}[kind[i]], "stop time points to an equal stop")
		}
		for j := i + 1; j < n; j++ {
			o := ts[j].StopTimes[0].Stop()
			same := s == o
			if c%3 == 1 {
				same = s == o.Parent_station
			}
			if c%3 == 2 {
				same = s.Level == o.Level
			}
			vv.Assert(same == (kind[i] == kind[j]), "exactly the equal stops are merged")
		}
	}
	vv.ObsInt("stops", len(f.Stops))
	vv.ObsInt("levels", len(f.Levels))
}
