package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// C36_fields: every processor on a feed in which everything has an additional field;
// entities of a kind have equal or different values.
//
//vv:cases quick=56 thorough=168 timeout=300 ttimeout=2000 nomerge=1
func C36_fields(c int) {
	p := zzProcs[c%28]
	differ := c/28%2 == 1
	may := p.bits
	if c >= 112 {
		may = rAll
	} else if c >= 56 {
		may |= rLonely | rNoMeas | rNoTimes
	}
	r, b := rich(may, 0)
	f := r.f
	val := func(kind string, i int) string {
		if differ {
			return kind + vv.Itoa(i)
		}
		return kind
	}
	byStop, byAg, byRo := map[*gtfs.Stop]string{}, map[*gtfs.Agency]string{}, map[*gtfs.Route]string{}
	byLv, byPw, byFa := map[*gtfs.Level]string{}, map[*gtfs.Pathway]string{}, map[*gtfs.FareAttribute]string{}
	bySh, byRule, byFreq := map[*gtfs.Shape]string{}, map[*gtfs.FareAttributeRule]string{}, map[*gtfs.Frequency]string{}
	i := 0
	for id, x := range f.Stops {
		byStop[x] = val("stop", i)
		fld(f.StopsAddFlds, "x")[id] = byStop[x]
		i++
	}
	for id, x := range f.Agencies {
		byAg[x] = val("agency", i)
		fld(f.AgenciesAddFlds, "x")[id] = byAg[x]
		i++
	}
	for id, x := range f.Routes {
		byRo[x] = val("route", i)
		fld(f.RoutesAddFlds, "x")[id] = byRo[x]
		i++
	}
	for id, x := range f.Levels {
		byLv[x] = val("level", i)
		fld(f.LevelsAddFlds, "x")[id] = byLv[x]
		i++
	}
	for id, x := range f.Pathways {
		byPw[x] = val("pathway", i)
		fld(f.PathwaysAddFlds, "x")[id] = byPw[x]
		i++
	}
	f.FareRulesAddFlds["x"] = map[string]map[*gtfs.FareAttributeRule]string{}
	for id, x := range f.FareAttributes {
		byFa[x] = val("fare", i)
		fld(f.FareAttributesAddFlds, "x")[id] = byFa[x]
		m := map[*gtfs.FareAttributeRule]string{}
		for _, y := range x.Rules {
			byRule[y] = val("rule", i)
			m[y] = byRule[y]
			i++
		}
		f.FareRulesAddFlds["x"][id] = m
		i++
	}
	f.ShapesAddFlds["x"] = map[string]map[int]string{}
	for id, x := range f.Shapes {
		bySh[x] = val("shape", i)
		m := map[int]string{}
		for _, y := range x.Points {
			m[int(y.Sequence)] = bySh[x] + "/" + vv.Itoa(int(y.Lon*128+0.5))
		}
		f.ShapesAddFlds["x"][id] = m
		i++
	}
	f.StopTimesAddFlds["x"] = map[string]map[int]string{}
	f.FrequenciesAddFlds["x"] = map[string]map[*gtfs.Frequency]string{}
	names := map[string]string{}
	for id, x := range f.Trips {
		v := val("trip", i)
		n := "n" + v
		x.Short_name = &n
		names[n] = v
		fld(f.TripsAddFlds, "x")[id] = v
		m := map[int]string{}
		for k := range x.StopTimes {
			s := x.StopTimes[k].Sequence()
			m[s] = v + "/" + vv.Itoa(s)
		}
		f.StopTimesAddFlds["x"][id] = m
		if x.Frequencies != nil {
			m := map[*gtfs.Frequency]string{}
			for _, y := range *x.Frequencies {
				byFreq[y] = val("freq", i)
				m[y] = byFreq[y]
				i++
			}
			f.FrequenciesAddFlds["x"][id] = m
		}
		i++
	}
	f.TransfersAddFlds["x"] = map[gtfs.TransferKey]string{}
	for k, v := range f.Transfers {
		f.TransfersAddFlds["x"][k] = val("transfer", v.Min_transfer_time)
	}
	at := f.Attributions[0]
	f.AttributionsAddFlds["x"] = map[*gtfs.Attribution]string{at: "feed"}
	vv.MapOrder(c / 28 % 2)
	vv.SetCPU(1 + c%2)
	p.p().Run(f)

	for id, x := range f.Stops {
		if v, ok := byStop[x]; ok {
			vv.Assert(f.StopsAddFlds["x"][id] == v, "fields of stops")
		}
	}
	for id, x := range f.Agencies {
		vv.Assert(f.AgenciesAddFlds["x"][id] == byAg[x], "fields of agencies")
	}
	for id, x := range f.Routes {
		vv.Assert(f.RoutesAddFlds["x"][id] == byRo[x], "fields of routes")
	}
	for id, x := range f.Levels {
		vv.Assert(f.LevelsAddFlds["x"][id] == byLv[x], "fields of levels")
	}
	for id, x := range f.Pathways {
		vv.Assert(f.PathwaysAddFlds["x"][id] == byPw[x], "fields of pathways")
	}
	for id, x := range f.FareAttributes {
		vv.Assert(f.FareAttributesAddFlds["x"][id] == byFa[x], "fields of fares")
		for _, y := range x.Rules {
			if v, ok := byRule[y]; ok {
				vv.Assert(f.FareRulesAddFlds["x"][id][y] == v, "fields of fare rules")
			}
		}
	}
	for id, x := range f.Shapes {
		for _, y := range x.Points {
			// points keep their place
			vv.Assert(f.ShapesAddFlds["x"][id][int(y.Sequence)] == bySh[x]+"/"+vv.Itoa(int(y.Lon*128+0.5)), "fields of shape points")
		}
	}
	for id, x := range f.Trips {
		v := names[*x.Short_name]
		vv.Assert(f.TripsAddFlds["x"][id] == v, "fields of trips")
		for k := range x.StopTimes {
			s := x.StopTimes[k].Sequence()
			vv.Assert(f.StopTimesAddFlds["x"][id][s] == v+"/"+vv.Itoa(s), "fields of stop times")
		}
		if x.Frequencies != nil {
			for _, y := range *x.Frequencies {
				if w, ok := byFreq[y]; ok {
					vv.Assert(f.FrequenciesAddFlds["x"][id][y] == w, "fields of frequencies")
				}
			}
		}
	}
	for k, v := range f.Transfers {
		vv.Assert(f.TransfersAddFlds["x"][k] == val("transfer", v.Min_transfer_time), "fields of transfers")
	}
	vv.Assert(f.AttributionsAddFlds["x"][at] == "feed", "fields of attributions")
	vv.Cover("done", true)
	vv.ObsInt("bits", b)
}

// C36_merged: three trips with one additional field each, equal ones or not, on the same
// or equal services, or on services that contain, overlap or follow each other.
//
//vv:cases quick=30 thorough=60 timeout=300 ttimeout=2000 nomerge=1
func C36_merged(c int) {
	f := gtfsparser.NewFeed()
	kind, mode, order := c%5, c/5%3, c/15%2 // mode: exact, fuzzy, aggressive
	r := addRoute(f, "r", addAgency(f, "ag"))
	s1, s2 := addStop(f, "s1"), addStop(f, "s2")
	sa := addService(f, "sa", 127, day(0), day(6))
	sb := sa
	if kind > 0 {
		sb = addService(f, "sb", 127, day([]int{0, 0, 2, 4, 7}[kind]), day([]int{0, 6, 4, 9, 13}[kind]))
	}
	sc := []*gtfs.Service{sa, sb}[vv.Split(vv.Int("third", 0, 1))]
	was := map[*gtfs.Trip]string{}
	f.StopTimesAddFlds["x"] = map[string]map[int]string{}
	f.FrequenciesAddFlds["x"] = map[string]map[*gtfs.Frequency]string{}
	for i, s := range []*gtfs.Service{sa, sb, sc} {
		id := "t" + vv.Itoa(i)
		t := stTrip(f, id, r, s, "h", s1, s2)
		was[t] = []string{"", "u", "vw"}[vv.Split(vv.Int(id+"value", 0, 2))]
		if was[t] != "" {
			fld(f.TripsAddFlds, "x")[id] = was[t]
		}
		f.StopTimesAddFlds["x"][id] = map[int]string{1: id + "a", 2: id + "b"}
	}
	vv.SetCPU(1 + c%2)
	vv.MapOrder(order)
	processors.TripDuplicateRemover{Fuzzy: mode == 1, Aggressive: mode == 2, MaxDayDist: 7}.Run(f)
	left := 0
	for id, t := range f.Trips {
		left++
		v, k := was[t]
		vv.Assert(k, "trips are trips of the feed")
		if v != "" {
			vv.Assert(f.TripsAddFlds["x"][id] == v, "remaining trips keep their fields")
		} else if f.TripsAddFlds["x"][id] != "" {
			some := false
			for o, w := range was {
				some = some || f.Trips[o.Id] != o && w == f.TripsAddFlds["x"][id]
			}
			vv.Assert(some, "fields are filled in from removed trips only")
		}
		vv.Assert(f.StopTimesAddFlds["x"][id][1] == id+"a" && f.StopTimesAddFlds["x"][id][2] == id+"b", "remaining trips keep the fields of their stop times")
	}
	vv.Cover("merged", left < 3)
	vv.Cover("different values", left == 3)
}

// C36_folded: six trips of two kinds, which differ in their fields, at different minutes,
// folded into frequencies.
//
//vv:cases quick=6 thorough=12 timeout=300 ttimeout=2000 nomerge=1
func C36_folded(c int) {
	f := gtfsparser.NewFeed()
	addRoute(f, "r", addAgency(f, "ag"))
	addService(f, "s", 127, day(0), day(6))
	stops := []*gtfs.Stop{addStop(f, "a"), addStop(f, "b"), addStop(f, "c")}
	names := []string{"n", "mm"}
	f.StopTimesAddFlds["x"] = map[string]map[int]string{}
	menu := [][]int{{0, 10, 20}, {0, 10, 20, 25}, {0, 7, 14, 100}}[c%3]
	n := len(menu)
	menu = append(menu, 3*vv.Split(vv.Int("m1", 1, 10)), 90+vv.Split(vv.Int("m2", 0, 2))*10, 110)
	for i, m := range menu {
		id := "t" + vv.Itoa(i)
		t := freqTrip(f, id, stops, m)
		k := 0
		if i >= n {
			k = vv.Split(vv.Int(id+"kind", 0, 1))
		}
		t.Short_name = &names[k]
		fld(f.TripsAddFlds, "x")[id] = names[k] + "t"
		f.StopTimesAddFlds["x"][id] = map[int]string{1: names[k] + "1", 3: "", 5: names[k] + "5"}
	}
	vv.SetCPU(1 + c%2)
	vv.MapOrder(c / 3 % 2)
	p := processors.FrequencyMinimizer{MinHeadway: 300, MaxHeadway: 3600}
	p.Run(f)
	folded := 0
	for id, t := range f.Trips {
		if t.Frequencies != nil && len(*t.Frequencies) > 0 {
			folded++
		}
		v := *t.Short_name
		vv.Assert(f.TripsAddFlds["x"][id] == v+"t", "fields of trips")
		m := f.StopTimesAddFlds["x"][id]
		vv.Assert(m[1] == v+"1" && m[3] == "" && m[5] == v+"5", "fields of stop times")
	}
	vv.Cover("folded", folded > 0)
	vv.Cover("folded twice", folded > 1)
	vv.Cover("new trip", f.Trips["t0_2"] != nil)
}
