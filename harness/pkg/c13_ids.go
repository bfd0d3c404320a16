package zz_verif

import (
	"strconv"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// C13_ids: three entities of every kind, with old IDs that may equal new ones, and
// additional fields on all of them. Every kind may be kept or minimized.
//
//vv:cases quick=12 thorough=48 timeout=300 ttimeout=2500
func C13_ids(c int) {
	f := gtfsparser.NewFeed()
	const n = 3
	ids := [][]string{{"2", "1", "3"}, {"3", "1", "x"}, {"x", "p1", "p2"}, {"p3", "p2", "1"}}[vv.Split(vv.Int("ids", 0, 3))]
	prefix := []string{"", "p"}[vv.Split(vv.Int("prefix", 0, 1))]
	base := []int{10, 36}[c%2]
	var ags [n]*gtfs.Agency
	var stops [n]*gtfs.Stop
	var routes [n]*gtfs.Route
	var trips [n]*gtfs.Trip
	var svcs [n]*gtfs.Service
	var fares [n]*gtfs.FareAttribute
	var shapes [n]*gtfs.Shape
	var levels [n]*gtfs.Level
	var ways [n]*gtfs.Pathway
	var atts [4 * n]*gtfs.Attribution
	for i, id := range ids {
		att := func(k int) []*gtfs.Attribution {
			x := &gtfs.Attribution{Id: id + vv.Itoa(k), Organization_name: id}
			atts[4*i+k] = x
			return []*gtfs.Attribution{x}
		}
		v := "v" + vv.Itoa(i)
		a := addAgency(f, id)
		a.Attributions = att(0)
		ags[i] = a
		l := &gtfs.Level{Id: id, Name: "L", Index: 1}
		f.Levels[id], levels[i] = l, l
		s := addStop(f, id)
		s.Level, s.Zone_id = l, "z"+vv.Itoa(i/2)
		if i > 0 {
			s.Parent_station = stops[0]
		}
		stops[i] = s
		r := addRoute(f, id, a)
		r.Attributions = att(1)
		routes[i] = r
		sv := addService(f, id, 127, day(0), day(i))
		svcs[i] = sv
		sh := &gtfs.Shape{Id: id, Points: gtfs.ShapePoints{gtfs.ShapePoint{Lat: 1, Lon: 1, Sequence: 1}}}
		f.Shapes[id], shapes[i] = sh, sh
		t := addTrip(f, id, r, sv)
		bl := "b" + vv.Itoa(i/2)
		t.Block_id, t.Shape = &bl, sh
		t.StopTimes = append(t.StopTimes, stime(s, 1, hms(i), hms(i), 0))
		fr := &gtfs.Frequency{Start_time: hms(0), End_time: hms(100), Headway_secs: 5 + i}
		t.Frequencies = &[]*gtfs.Frequency{fr}
		ta := att(2)
		t.Attributions = &ta
		trips[i] = t
		fa := &gtfs.FareAttribute{Id: id, Agency: a, Rules: []*gtfs.FareAttributeRule{{Route: r, Origin_id: "z1"}}}
		f.FareAttributes[id], fares[i] = fa, fa
		pw := &gtfs.Pathway{Id: id, From_stop: stops[0], To_stop: s, Mode: 1}
		f.Pathways[id], ways[i] = pw, pw
		f.Transfers[gtfs.TransferKey{From_stop: s, To_stop: stops[0], From_route: r, From_trip: t}] = gtfs.TransferVal{Transfer_type: 2, Min_transfer_time: i}
		f.Attributions = append(f.Attributions, att(3)...)
		// the last of the three has no additional fields
		if i < 2 {
			fld(f.AgenciesAddFlds, "x")[id] = v + "a"
			fld(f.StopsAddFlds, "x")[id] = v + "s"
			fld(f.RoutesAddFlds, "x")[id] = v + "r"
			fld(f.TripsAddFlds, "x")[id] = v + "t"
			fld(f.LevelsAddFlds, "x")[id] = v + "l"
			fld(f.PathwaysAddFlds, "x")[id] = v + "p"
			fld(f.FareAttributesAddFlds, "x")[id] = v + "f"
			if i == 0 {
				f.StopTimesAddFlds["x"] = make(map[string]map[int]string)
				f.ShapesAddFlds["x"] = make(map[string]map[int]string)
				f.FrequenciesAddFlds["x"] = make(map[string]map[*gtfs.Frequency]string)
				f.FareRulesAddFlds["x"] = make(map[string]map[*gtfs.FareAttributeRule]string)
				f.AttributionsAddFlds["x"] = make(map[*gtfs.Attribution]string)
			}
			f.StopTimesAddFlds["x"][id] = map[int]string{1: v + "st"}
			f.ShapesAddFlds["x"][id] = map[int]string{1: v + "sh"}
			f.FrequenciesAddFlds["x"][id] = map[*gtfs.Frequency]string{fr: v + "fr"}
			f.FareRulesAddFlds["x"][id] = map[*gtfs.FareAttributeRule]string{fa.Rules[0]: v + "ru"}
			f.AttributionsAddFlds["x"][atts[4*i]] = v + "at"
		}
	}
	m := processors.IDMinimizer{Prefix: prefix, Base: base}
	keep := []*bool{&m.KeepTrips, &m.KeepStations, &m.KeepRoutes, &m.KeepShapes, &m.KeepAgencies, &m.KeepServices, &m.KeepFares, &m.KeepPathways, &m.KeepLevels, &m.KeepAttributions}
	switch k := c / 2 % 6; k {
	case 0: // nothing is kept
	case 1:
		for _, p := range keep {
			*p = true
		}
	case 2: // one is kept
		*keep[vv.Split(vv.Int("kept", 0, 9))] = true
	case 3: // all but one are kept
		for i, p := range keep {
			*p = i != vv.Split(vv.Int("kept", 0, 9))
		}
	case 4: // kept or not, first half
		for i, p := range keep {
			*p = i < 5 && vv.Split(vv.Int(vv.N("keep", i), 0, 1)) == 1
		}
	case 5:
		for i, p := range keep {
			*p = i >= 5 && vv.Split(vv.Int(vv.N("keep", i), 0, 1)) == 1
		}
	}
	m.KeepBlocks = c%2 == 1
	vv.MapOrder([]int{0, 1, 1, 0}[(c+c/12)%4])
	vv.Sched(c / 2 % 2)
	m.Run(f)
	closed(f)
	vv.Assert(len(f.Trips) == n && len(f.Stops) == n && len(f.Routes) == n && len(f.Shapes) == n && len(f.Agencies) == n && len(f.Services) == n && len(f.FareAttributes) == n && len(f.Pathways) == n && len(f.Levels) == n && len(f.Attributions) == n && len(f.Transfers) == n, "every entity is present exactly once")
	isNew := func(id string, cnt int) bool {
		for k := 1; k <= cnt; k++ {
			if id == prefix+strconv.FormatInt(int64(k), base) {
				return true
			}
		}
		return false
	}
	for i := range ids {
		v := "v" + vv.Itoa(i)
		has := i < 2
		idOK := func(kept bool, id string) {
			vv.Assert(!kept || id == ids[i], "IDs to be kept are unchanged")
			vv.Assert(kept || isNew(id, n), "other IDs are minimized")
		}
		want := func(s string, val string) {
			vv.Assert(val == v+s || !has && val == "", "additional fields stay with their entity")
		}
		a := ags[i]
		vv.Assert(f.Agencies[a.Id] == a && a.Name == "N" && len(a.Attributions) == 1 && a.Attributions[0] == atts[4*i], "agency is unchanged")
		idOK(m.KeepAgencies, a.Id)
		want("a", f.AgenciesAddFlds["x"][a.Id])
		s := stops[i]
		vv.Assert(f.Stops[s.Id] == s && s.Level == levels[i] && s.Zone_id == "z"+vv.Itoa(i/2) && s.Name == ids[i] && s.Lat == 1 && (i == 0) == (s.Parent_station == nil) && (i == 0 || s.Parent_station == stops[0]), "stop is unchanged")
		idOK(m.KeepStations, s.Id)
		want("s", f.StopsAddFlds["x"][s.Id])
		r := routes[i]
		vv.Assert(f.Routes[r.Id] == r && r.Agency == a && r.Short_name == "R" && r.Type == 3 && len(r.Attributions) == 1 && r.Attributions[0] == atts[4*i+1], "route is unchanged")
		idOK(m.KeepRoutes, r.Id)
		want("r", f.RoutesAddFlds["x"][r.Id])
		sv := svcs[i]
		vv.Assert(f.Services[sv.Id()] == sv && sv.RawDaymap() == 127 && sv.Start_date() == day(0) && sv.End_date() == day(i), "service is unchanged")
		idOK(m.KeepServices, sv.Id())
		l := levels[i]
		vv.Assert(f.Levels[l.Id] == l && l.Name == "L" && l.Index == 1, "level is unchanged")
		idOK(m.KeepLevels, l.Id)
		want("l", f.LevelsAddFlds["x"][l.Id])
		sh := shapes[i]
		vv.Assert(f.Shapes[sh.Id] == sh && len(sh.Points) == 1 && sh.Points[0].Lat == 1 && sh.Points[0].Sequence == 1, "shape is unchanged")
		idOK(m.KeepShapes, sh.Id)
		want("sh", f.ShapesAddFlds["x"][sh.Id][1])
		t := trips[i]
		vv.Assert(f.Trips[t.Id] == t && t.Route == r && t.Service == sv && t.Shape == sh && *t.Block_id == "b"+vv.Itoa(i/2) && len(t.StopTimes) == 1 && t.StopTimes[0] == stime(s, 1, hms(i), hms(i), 0) && len(*t.Frequencies) == 1 && (*t.Frequencies)[0].Headway_secs == 5+i && len(*t.Attributions) == 1 && (*t.Attributions)[0] == atts[4*i+2], "trip is unchanged")
		idOK(m.KeepTrips, t.Id)
		want("t", f.TripsAddFlds["x"][t.Id])
		want("st", f.StopTimesAddFlds["x"][t.Id][1])
		want("fr", f.FrequenciesAddFlds["x"][t.Id][(*t.Frequencies)[0]])
		fa := fares[i]
		vv.Assert(f.FareAttributes[fa.Id] == fa && fa.Agency == a && len(fa.Rules) == 1 && fa.Rules[0].Route == r && fa.Rules[0].Origin_id == "z1", "fare is unchanged")
		idOK(m.KeepFares, fa.Id)
		want("f", f.FareAttributesAddFlds["x"][fa.Id])
		want("ru", f.FareRulesAddFlds["x"][fa.Id][fa.Rules[0]])
		pw := ways[i]
		vv.Assert(f.Pathways[pw.Id] == pw && pw.From_stop == stops[0] && pw.To_stop == s && pw.Mode == 1, "pathway is unchanged")
		idOK(m.KeepPathways, pw.Id)
		want("p", f.PathwaysAddFlds["x"][pw.Id])
		tv, ok := f.Transfers[gtfs.TransferKey{From_stop: s, To_stop: stops[0], From_route: r, From_trip: t}]
		vv.Assert(ok && tv.Min_transfer_time == i && tv.Transfer_type == 2, "transfer is unchanged")
		vv.Assert(f.Attributions[i] == atts[4*i+3], "attributions are kept")
		want("at", f.AttributionsAddFlds["x"][atts[4*i]])
		for k := 0; k < 4; k++ {
			x := atts[4*i+k]
			vv.Assert(x.Organization_name == ids[i], "attribution is unchanged")
			vv.Assert(!m.KeepAttributions || x.Id == ids[i]+vv.Itoa(k), "IDs to be kept are unchanged")
			vv.Assert(m.KeepAttributions || isNew(x.Id, 4*n), "other IDs are minimized")
			for j := 0; j < 4*i+k; j++ {
				vv.Assert(m.KeepAttributions || atts[j].Id != x.Id, "attribution IDs are distinct")
			}
		}
	}
	vv.ObsInt("trips", len(f.Trips))
}

// C13_many: 300 entities of every kind, with any base and prefix.
//
//vv:cases quick=2 thorough=4 timeout=300 ttimeout=2500
func C13_many(c int) {
	f := gtfsparser.NewFeed()
	const n = 300
	base := []int{2, 10, 16, 36}[vv.Split(vv.Int("base", 0, 3))]
	prefix := []string{"", "p"}[vv.Split(vv.Int("prefix", 0, 1))]
	var ag *gtfs.Agency
	for i := 0; i < n; i++ {
		id := vv.N("x", i)
		ag = addAgency(f, id)
		ag.Attributions = []*gtfs.Attribution{{Id: id}}
		f.Attributions = append(f.Attributions, &gtfs.Attribution{Id: id})
		l := &gtfs.Level{Id: id}
		f.Levels[id] = l
		s := addStop(f, id)
		s.Level = l
		f.Shapes[id] = &gtfs.Shape{Id: id}
		t := addTrip(f, id, addRoute(f, id, ag), addService(f, id, 127, day(0), day(0)))
		t.Shape = f.Shapes[id]
		f.FareAttributes[id] = &gtfs.FareAttribute{Id: id, Agency: ag}
		f.Pathways[id] = &gtfs.Pathway{Id: id, From_stop: s, To_stop: s}
	}
	vv.MapOrder(c % 2)
	processors.IDMinimizer{Prefix: prefix, Base: base}.Run(f)
	closed(f)
	vv.Assert(len(f.Trips) == n && len(f.Stops) == n && len(f.Routes) == n && len(f.Shapes) == n && len(f.Agencies) == n && len(f.Services) == n && len(f.FareAttributes) == n && len(f.Pathways) == n && len(f.Levels) == n && len(f.Attributions) == n, "every entity is present exactly once")
	ids := make(map[string]bool)
	for _, a := range f.Attributions {
		ids[a.Id] = true
	}
	for _, a := range f.Agencies {
		ids[a.Attributions[0].Id] = true
	}
	vv.Assert(len(ids) == 2*n, "attribution IDs are distinct")
	vv.ObsInt("trips", len(f.Trips))
}
