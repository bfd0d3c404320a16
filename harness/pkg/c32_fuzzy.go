package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

var c32proc = processors.StopDuplicateRemover{DistThresholdStop: 5, DistThresholdStation: 50, Fuzzy: true}

// match: the stops are the same to a fuzzy eye. near: within the threshold, close:
// within half of that of stops.
func match(a, b *gtfs.Stop, near, close bool) bool {
	at := vv.And(close, a.Parent_station != nil)
	return vv.And(a.Desc == b.Desc, a.Zone_id == b.Zone_id, vv.Or(a.Url == nil, b.Url == nil, eqUrl(a.Url, b.Url)),
		a.Location_type == b.Location_type, a.Parent_station == b.Parent_station, a.Timezone.GetTzString() == b.Timezone.GetTzString(),
		a.Wheelchair_boarding == b.Wheelchair_boarding, vv.Or(a.Level == nil, b.Level == nil, eqLevel(a.Level, b.Level)),
		vv.Or(a.Code == b.Code, a.Code == "", b.Code == "", at), vv.Or(a.Name == b.Name, at),
		vv.Or(a.Platform_code == b.Platform_code, vv.And(at, vv.Or(a.Platform_code == "", b.Platform_code == ""))), near)
}

// C32_attr: two stops that may differ in every attribute, in level, parent and position.
//
//vv:cases quick=5 thorough=10 timeout=300 ttimeout=2000
func C32_attr(c int) {
	f := gtfsparser.NewFeed()
	r, sv := addRoute(f, "r", addAgency(f, "ag")), addService(f, "sv", 127, day(0), day(6))
	p1, p2 := addStop(f, "p1"), addStop(f, "p2")
	p1.Location_type, p2.Location_type = 1, 1
	p1.Name, p2.Name = "one", "other"
	p1.Code, p2.Code = "1", "2"
	var ls [3]*gtfs.Level
	for i := range ls {
		ls[i] = &gtfs.Level{Id: "l" + vv.Itoa(i), Index: 1, Name: "L"}
		f.Levels[ls[i].Id] = ls[i]
	}
	ls[2].Index = float32(vv.Int("level", 1, 2))
	ids := []string{"aaa", "bb"}
	var ss [2]*gtfs.Stop
	var orig [2]gtfs.Stop
	var ts [2]*gtfs.Trip
	for i, id := range ids {
		s := addStop(f, id)
		s.Name = "S"
		d := func(n string) string {
			return []string{"", "x"}[i*vv.Split(vv.Int(n, 0, 1))]
		}
		switch c % 5 {
		case 0, 1:
			s.Code = vv.Str(id+"code", "", "x", "yy")
			s.Platform_code = vv.Str(id+"platform", "", "x", "yy")
			s.Name = vv.Str(id+"name", "x", "yy")
		case 2:
			s.Desc, s.Zone_id = d("desc"), d("zone")
			s.Timezone = tzOf(i*vv.Split(vv.Int("tz", 0, 1)) == 1)
		case 3:
			s.Location_type = int8(i * vv.Split(vv.Int("type", 0, 1)) * 2)
			s.Wheelchair_boarding = int8(i * vv.Split(vv.Int("wheel", 0, 2)))
			s.Level = []*gtfs.Level{nil, ls[0], ls[1], ls[2]}[vv.Split(vv.Int(id+"level", 0, 3))]
		}
		if c%5 > 0 {
			s.Parent_station = []*gtfs.Stop{nil, p1, p2}[vv.Split(vv.Int(id+"parent", 0, 2))]
		}
		s.Url = pickUrl(id + "url")
		fld(f.StopsAddFlds, "x")[id] = id
		ss[i] = s
	}
	at, kind := 0, 0
	if c%5 == 0 || c%5 == 4 {
		at = vv.Split(vv.Int("at", 0, 4))
		ss[1].Lat += []float32{0, 2, 4, 7, 60}[at] * meter
		kind = vv.Split(vv.Int("kind", 0, 4))
		if kind == 1 {
			vv.Assume(ss[0].Parent_station == nil && ss[1].Parent_station == nil)
		}
		ss[0].Location_type, ss[1].Location_type = int8(kind), int8(kind)
	} else if c%5 == 1 {
		at = vv.Split(vv.Int("at", 0, 2))
		ss[1].Lon += []float32{0, 2, 4}[at] * meter
	}
	for i := range ss {
		orig[i] = *ss[i]
		ts[i] = visit(f, "t"+vv.Itoa(i), r, sv, ss[i])
	}
	vv.SetCPU(1 + c/5)
	vv.MapOrder(c % 2)
	c32proc.Run(f)
	closed(f)
	eq := match(&orig[0], &orig[1], at < 3 || at == 3 && kind == 1, at < 2)
	_, in0 := f.Stops["aaa"]
	_, in1 := f.Stops["bb"]
	vv.Assert(vv.Or(in0, in1), "one of the stops remains")
	vv.Assert(f.Stops["p1"] == p1 && f.Stops["p2"] == p2, "different stops are not merged")
	vv.Assert(vv.Iff(eq, !vv.And(in0, in1)), "exactly matching and near stops are merged")
	for i := range ts {
		s := ts[i].StopTimes[0].Stop()
		vv.Assert(f.Stops[s.Id] == s && (s == ss[i] || s == ss[1-i]), "stop time points to a matching stop")
	}
	for i, s := range ss {
		vv.Assert(vv.And(sameStop(s, &orig[i]), eqLevel(s.Level, orig[i].Level), s.Parent_station == orig[i].Parent_station, s.Lat == orig[i].Lat, s.Lon == orig[i].Lon), "stops are not altered")
	}
	vv.Cover("merged", !vv.And(in0, in1))
	vv.Cover("kept", vv.And(in0, in1))
	vv.ObsInt("stops", len(f.Stops))
	vv.ObsInt("levels", len(f.Levels))
}

// C32_refs: four stops (or platforms of a station) with arbitrary names, codes and
// platform codes at arbitrary places, with transfers and pathways between them.
//
//vv:cases quick=8 thorough=32 timeout=300 ttimeout=2500
func C32_refs(c int) {
	f := gtfsparser.NewFeed()
	r, sv := addRoute(f, "r", addAgency(f, "ag")), addService(f, "sv", 127, day(0), day(6))
	ids := []string{"aa", "b", "x:c", "d"}
	var ss [4]*gtfs.Stop
	var orig [4]gtfs.Stop
	var ts [4]*gtfs.Trip
	var x [4]int
	var p *gtfs.Stop
	if c%2 == 1 {
		p = addStop(f, "p")
		p.Location_type = 1
	}
	what := c / 2 % 4
	for i, id := range ids {
		s := addStop(f, id)
		s.Name, s.Parent_station = "s", p
		k := 2
		if i == 3 {
			k = 1
		}
		switch what {
		case 0:
			s.Code = []string{"", "x", "y"}[vv.Split(vv.Int(id+"code", 0, k))]
		case 1:
			s.Platform_code = []string{"", "x", "y"}[vv.Split(vv.Int(id+"platform", 0, k))]
		case 2:
			s.Name = []string{"s", "t", "u"}[vv.Split(vv.Int(id+"name", 0, k))]
		case 3:
			if l := vv.Split(vv.Int(id+"level", 0, k)); l > 0 {
				s.Level = &gtfs.Level{Id: id, Index: float32(l), Name: "L"}
				f.Levels[id] = s.Level
			}
		}
		if i > 0 && i < 3 {
			x[i] = []int{0, 2, 4}[vv.Split(vv.Int(id+"x", 0, 2))]
		}
		s.Lon += float32(float64(x[i]) * meter)
		ss[i], orig[i] = s, *s
		ts[i] = visit(f, "t"+vv.Itoa(i), r, sv, s)
	}
	// the parser's stations refer to no other, and platforms may have boarding areas
	ba := addStop(f, "ba")
	ba.Location_type, ba.Parent_station = 4, ss[1]
	tk := gtfs.TransferKey{From_stop: ss[0], To_stop: ss[1]}
	tl := gtfs.TransferKey{From_stop: ss[1], To_stop: ss[2]}
	f.Transfers[tk] = gtfs.TransferVal{Transfer_type: 2, Min_transfer_time: 60}
	f.Transfers[tl] = gtfs.TransferVal{Transfer_type: 2, Min_transfer_time: 70}
	pw := &gtfs.Pathway{Id: "pw", From_stop: ss[2], To_stop: ss[3], Mode: 1, Length: 7}
	f.Pathways["pw"] = pw
	vv.SetCPU(1 + c/16)
	vv.MapOrder(c / 8 % 2)
	c32proc.Run(f)
	closed(f)
	at := func(i int) *gtfs.Stop { return ts[i].StopTimes[0].Stop() }
	var eq, chain [4][4]bool
	for i := range ss {
		for j := range ss {
			d := x[i] - x[j]
			if d < 0 {
				d = -d
			}
			eq[i][j] = i == j || match(&orig[i], &orig[j], true, d < 3)
			chain[i][j] = eq[i][j]
		}
	}
	for k := range ss {
		for i := range ss {
			for j := range ss {
				chain[i][j] = chain[i][j] || chain[i][k] && chain[k][j]
			}
		}
	}
	for i := range ss {
		for j := range ss {
			vv.Assert(at(i) != ss[j] || chain[i][j], "stop is replaced by one that matches it")
			vv.Assert(i == j || !eq[i][j] || f.Stops[ids[i]] == nil || f.Stops[ids[j]] == nil, "matching stops do not remain")
		}
		o := orig[i]
		vv.Assert(f.Stops[ids[i]] == nil || at(i) == ss[i], "stop time of a remaining stop is kept")
		vv.Assert(sameStop(ss[i], &o) && ss[i].Parent_station == p && ss[i].Lon == o.Lon && ss[i].Lat == o.Lat && eqLevel(ss[i].Level, o.Level), "stops are not altered")
	}
	vv.Assert(f.Stops["ba"] == ba && ba.Parent_station == at(1), "child follows its parent")
	tk, tl = gtfs.TransferKey{From_stop: at(0), To_stop: at(1)}, gtfs.TransferKey{From_stop: at(1), To_stop: at(2)}
	v, w := f.Transfers[tk], f.Transfers[tl]
	vv.Assert(v.Transfer_type == 2 && w.Transfer_type == 2, "transfer is kept")
	if tk == tl {
		vv.Assert(len(f.Transfers) == 1 && (v.Min_transfer_time == 60 || v.Min_transfer_time == 70), "transfer keeps its values")
	} else {
		vv.Assert(len(f.Transfers) == 2 && v.Min_transfer_time == 60 && w.Min_transfer_time == 70, "transfer keeps its values")
	}
	vv.Assert(f.Pathways["pw"] == pw && pw.From_stop == at(2) && pw.To_stop == at(3) && pw.Length == 7, "pathway is kept")
	vv.Cover("all merged", len(f.Stops) == 2+c%2)
	vv.Cover("some merged", len(f.Stops) == 4+c%2)
	vv.ObsInt("levels", len(f.Levels))
}

// C32_parents: two stations that may match, with a platform each that may match, with
// a boarding area each that may match.
//
//vv:cases quick=2 thorough=2 timeout=200 ttimeout=1500
func C32_parents(c int) {
	f := gtfsparser.NewFeed()
	r, sv := addRoute(f, "r", addAgency(f, "ag")), addService(f, "sv", 127, day(0), day(6))
	var ss [3][2]*gtfs.Stop
	var code [3][2]string
	for k := range ss {
		for i := range ss[k] {
			id := []string{"st", "pl", "ba"}[k] + vv.Itoa(i)
			s := addStop(f, id)
			s.Name, s.Location_type = "s", []int8{1, 0, 4}[k]
			code[k][i] = []string{"", "x", "y"}[vv.Split(vv.Int(id+"code", 0, 2))]
			s.Code = code[k][i]
			if k > 0 {
				s.Parent_station = ss[k-1][i]
			}
			if i == 1 && k == 0 {
				s.Lat += []float32{0, 40, 60}[vv.Split(vv.Int("far", 0, 2))] * meter
			} else if i == 1 {
				s.Lat += 4 * meter
			}
			ss[k][i] = s
		}
	}
	far := ss[0][1].Lat > 1+50*meter
	var ts [2]*gtfs.Trip
	for i := range ts {
		ts[i] = visit(f, "t"+vv.Itoa(i), r, sv, ss[1][i])
	}
	vv.SetCPU(1)
	vv.MapOrder(c)
	c32proc.Run(f)
	closed(f)
	merge := !far
	for k := range ss {
		a, b := code[k][0], code[k][1]
		merge = merge && (a == b || a == "" || b == "")
		in0, in1 := f.Stops[ss[k][0].Id] == ss[k][0], f.Stops[ss[k][1].Id] == ss[k][1]
		vv.Assert(in0 || in1, "one of the stops remains")
		vv.Assert((in0 && in1) == !merge, "exactly matching stops of the same parent are merged")
		if k > 0 {
			for i, s := range ss[k] {
				vv.Assert(f.Stops[s.Id] == nil || f.Stops[s.Parent_station.Id] == s.Parent_station && (f.Stops[ss[k-1][i].Id] == nil || s.Parent_station == ss[k-1][i]), "child follows its parent")
			}
		}
	}
	for i, t := range ts {
		s := t.StopTimes[0].Stop()
		vv.Assert(f.Stops[s.Id] == s && (s == ss[1][i] || f.Stops[ss[1][i].Id] == nil), "stop time follows its stop")
	}
	vv.Cover("all merged", len(f.Stops) == 3)
	vv.Cover("none merged", len(f.Stops) == 6)
	vv.ObsInt("stops", len(f.Stops))
}
