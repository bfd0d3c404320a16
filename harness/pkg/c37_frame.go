package zz_verif

import (
	"net/url"

	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// what a processor may change
const (
	aIds       = 1 << iota // IDs
	aAgRemoved             // agencies are removed, ...
	aRoRemoved             // ...
	aTrRemoved
	aSvRemoved
	aShRemoved
	aStRemoved
	aLvRemoved
	aTfRemoved
	aAtt        // attributions of agencies, routes and trips
	aRoAgency   // the agencies of routes and fares
	aTrRoute    // the routes of trips and fares
	aTrService  // the services of trips
	aTrShape    // the shapes of trips
	aTrText     // the attributes of trips
	aTrFreq     // frequencies
	aTrTimes    // the times of stop times
	aTrStops    // the stops of stop times
	aTrLess     // stop times are left out
	aTrMeasures // the measures of stop times
	aSvDates    // the dates of services
	aShLess     // points of shapes are left out
	aShMeasures // the measures of shapes
	aStParent   // parents
	aStNew      // stops are added
	aStPos      // positions
	aStPlatform // platform codes
	aTrNew      // trips are added
	aSvNew      // services are added
	aStLevel    // the levels of stops
	aTfNew      // transfers are added or changed
	aPw         // the ends of pathways
	aFaRules    // rules of fares are removed
)

const (
	aTripDup = aTrRemoved | aTrText | aTrMeasures | aTrShape | aAtt | aTrService | aSvDates | aSvNew | aTfRemoved
	aStopDup = aStRemoved | aLvRemoved | aStParent | aStLevel | aTrStops | aTfNew | aTfRemoved | aPw
)

// zzMay has what every processor may change.
var zzMay = map[string]int{
	"TooFastTripRemover":              aTrRemoved | aTfRemoved,
	"CompleteTripsGeoFilter":          aTrRemoved | aStRemoved | aTfRemoved | aPw,
	"OrphanRemover":                   aAgRemoved | aRoRemoved | aTrRemoved | aSvRemoved | aShRemoved | aStRemoved | aTfRemoved | aLvRemoved | aFaRules,
	"AgencyDuplicateRemover":          aAgRemoved | aRoAgency | aAtt,
	"StopParentAverager":              aStPos,
	"StopDuplicateRemover":            aStopDup,
	"StopDuplicateRemover fuzzy":      aStopDup,
	"StopReclusterer":                 aStNew | aStRemoved | aStParent | aTfNew | aTfRemoved | aPw,
	"PlatformCodeDropper":             aStPlatform,
	"ShapeRemeasurer":                 aShMeasures | aTrMeasures,
	"ShapeRemeasurer forced":          aShMeasures | aTrMeasures,
	"ShapeMinimizer":                  aShLess,
	"StopTimeRemeasurer":              aTrMeasures,
	"ShapeSnapper":                    aStNew | aTrStops,
	"ShapeDuplicateRemover":           aShRemoved | aTrShape | aTrMeasures,
	"RouteDuplicateRemover":           aRoRemoved | aTrRoute | aAtt | aTfNew | aTfRemoved | aFaRules,
	"ServiceDuplicateRemover":         aSvRemoved | aTrService,
	"AdjacentStopTimeGrouper":         aTrLess | aTrTimes | aTrMeasures,
	"ServiceMinimizer":                aSvDates,
	"TripDuplicateRemover":            aTripDup,
	"TripDuplicateRemover aggressive": aTripDup,
	"TripDuplicateRemover fuzzy":      aTripDup,
	"ServiceNonOverlapper":            aTrRemoved | aTrNew | aSvRemoved | aSvNew | aTfNew | aTfRemoved,
	"FrequencyMinimizer":              aTrRemoved | aTrNew | aTrFreq | aTrTimes | aTfRemoved,
	"ServiceCalDatesRem":              aSvDates | aSvNew | aSvRemoved | aTrNew | aTrService,
	"StopParentEnforcer":              aStNew | aStParent,
	"IDMinimizer":                     aIds,
	"IDMinimizer keep":                aIds,
}

// C37_frame: every processor on a feed in which every attribute has a value changes
// nothing but what it is there for.
//
//vv:cases quick=56 thorough=168 timeout=300 ttimeout=2000 nomerge=1
func C37_frame(c int) {
	p := zzProcs[c%28]
	differ := c/28%2 == 1
	may := p.bits
	if c >= 112 {
		may = rAll
	} else if c >= 56 {
		may |= rLonely | rNoMeas | rNoTimes
	}
	r, b := rich(may, 0)
	f := r.f
	u := &url.URL{Scheme: "http", Host: "a"}
	val := func(s string, i int) string {
		if differ {
			return s + vv.Itoa(i)
		}
		return s
	}
	one := func(i int) int {
		if differ {
			return 1 + i%2
		}
		return 1
	}
	uniform := !differ && (p.name == "FrequencyMinimizer" || p.name == "RouteDuplicateRemover" || p.name[:5] == "TripD")
	if uniform {
		r.se[1].SetEnd_date(day(5))
		r.ro[2].Attributions = []*gtfs.Attribution{{Organization_name: "org"}}
		r.fa[0].Rules[0].Route = r.ro[2]
		for i := 3; i < len(r.ro); i++ {
			r.fa[0].Rules = append(r.fa[0].Rules, &gtfs.FareAttributeRule{Route: r.ro[i], Origin_id: "z"})
		}
	}
	for i, x := range r.st {
		x.Code, x.Desc, x.Zone_id, x.Url, x.Wheelchair_boarding = "code", val("desc", i), "zone", u, int8(one(i))
	}
	if differ {
		r.st[1].Code, r.st[2].Code, r.st[3].Code = r.st[1].Platform_code, "", "3"
		r.st[3].Platform_code = "3"
		if b&rDupSh != 0 { // almost equal
			for i := range r.sh[1].Points {
				r.sh[1].Points[i].Lat += 0.000004
			}
		}
	}
	for i, x := range r.ag {
		x.Phone, x.Url, x.Fare_url = val("phone", i), u, u
	}
	for i, x := range r.ro {
		x.Long_name, x.Desc, x.Url, x.Color, x.Text_color = "long", "desc", u, "00ff00", val("text", i)
		x.Type, x.Sort_order, x.Continuous_pickup, x.Continuous_drop_off = 3, 7, 2, 3
	}
	for i, x := range r.tr {
		x.Direction_id, x.Wheelchair_accessible, x.Bikes_allowed = 1, int8(one(i)), 2
		if uniform {
			x.Shape, x.Block_id, x.Attributions = r.sh[0], nil, nil
			if _, in := f.Routes["r3"]; in {
				x.Route = r.ro[2+i%2]
			}
		}
		for k := range x.StopTimes {
			s := &x.StopTimes[k]
			s.SetPickup_type(1)
			s.SetDrop_off_type(2)
			s.SetContinuous_pickup(2)
			s.SetContinuous_drop_off(3)
		}
	}
	for i, x := range r.fa {
		x.Price, x.Currency_type, x.Payment_method, x.Transfers, x.Transfer_duration = val("1.0", i), "EUR", 1, 2, 3
		for _, y := range x.Rules {
			y.Destination_id, y.Contains_id = "y", "x"
		}
	}
	for _, x := range f.Pathways {
		x.Mode, x.Is_bidirectional, x.Traversal_time, x.Stair_count, x.Max_slope, x.Min_width, x.Signposted_as, x.Reversed_signposted_as = 2, true, 3, 4, 0.5, 2, "sign", "back"
	}
	fi := &gtfs.FeedInfo{Publisher_name: "pub", Publisher_url: u, Lang: "de", Start_date: day(0), End_date: day(6), Version: "1"}
	f.FeedInfos = append(f.FeedInfos, fi)

	// what was there
	fi0, at0 := *fi, *f.Attributions[0]
	ag, ro, tr := map[*gtfs.Agency]gtfs.Agency{}, map[*gtfs.Route]gtfs.Route{}, map[*gtfs.Trip]gtfs.Trip{}
	st, lv, pw := map[*gtfs.Stop]gtfs.Stop{}, map[*gtfs.Level]gtfs.Level{}, map[*gtfs.Pathway]gtfs.Pathway{}
	fa, ru, sh := map[*gtfs.FareAttribute]gtfs.FareAttribute{}, map[*gtfs.FareAttributeRule]gtfs.FareAttributeRule{}, map[*gtfs.Shape][]gtfs.ShapePoint{}
	fq, tf := map[*gtfs.Frequency]gtfs.Frequency{}, map[gtfs.TransferKey]gtfs.TransferVal{}
	sv, svDays, shId, nAtt := map[*gtfs.Service]gtfs.Service{}, map[*gtfs.Service][]bool{}, map[*gtfs.Shape]string{}, 0
	for _, x := range f.Agencies {
		ag[x] = *x
		nAtt += len(x.Attributions)
	}
	for _, x := range f.Routes {
		ro[x] = *x
		nAtt += len(x.Attributions)
	}
	for _, x := range f.Trips {
		c := *x
		c.StopTimes = append(gtfs.StopTimes{}, x.StopTimes...)
		if x.Frequencies != nil {
			l := append([]*gtfs.Frequency{}, *x.Frequencies...)
			c.Frequencies = &l
			for _, y := range l {
				fq[y] = *y
			}
		}
		tr[x] = c
	}
	for _, x := range f.Stops {
		st[x] = *x
	}
	for _, x := range f.Levels {
		lv[x] = *x
	}
	for _, x := range f.Pathways {
		pw[x] = *x
	}
	for _, x := range f.FareAttributes {
		c := *x
		c.Rules = append([]*gtfs.FareAttributeRule{}, x.Rules...)
		fa[x] = c
		for _, y := range x.Rules {
			ru[y] = *y
		}
	}
	for _, x := range f.Shapes {
		sh[x] = append([]gtfs.ShapePoint{}, x.Points...)
		shId[x] = x.Id
	}
	for _, x := range f.Services {
		sv[x] = *x
		svDays[x] = zzCal(x)
	}
	for k, v := range f.Transfers {
		tf[k] = v
	}

	vv.MapOrder(c / 28 % 2)
	vv.SetCPU(1 + c%2)
	p.p().Run(f)

	a, known := zzMay[p.name]
	vv.Assert(known, "processor is known")
	ok := func(bit int, cond bool, what string) {
		vv.Assert(a&bit != 0 || cond, what)
	}
	ok(aAgRemoved, len(f.Agencies) == len(ag), "agencies are removed or added")
	for _, x := range f.Agencies {
		o, k := ag[x]
		vv.Assert(k, "agencies are added")
		ok(aIds, x.Id == o.Id, "IDs of agencies")
		ok(aAtt, sameAtts(x.Attributions, o.Attributions), "attributions of agencies")
		vv.Assert(x.Name == o.Name && x.Url == o.Url && x.Timezone == o.Timezone && x.Lang == o.Lang && x.Phone == o.Phone && x.Fare_url == o.Fare_url && x.Email == o.Email, "attributes of agencies")
	}
	ok(aRoRemoved, len(f.Routes) == len(ro), "routes are removed or added")
	for _, x := range f.Routes {
		o, k := ro[x]
		vv.Assert(k, "routes are added")
		ok(aIds, x.Id == o.Id, "IDs of routes")
		ok(aRoAgency, x.Agency == o.Agency, "agencies of routes")
		ok(aAtt, sameAtts(x.Attributions, o.Attributions), "attributions of routes")
		vv.Assert(x.Short_name == o.Short_name && x.Long_name == o.Long_name && x.Desc == o.Desc && x.Type == o.Type && x.Url == o.Url && x.Color == o.Color && x.Text_color == o.Text_color && x.Sort_order == o.Sort_order && x.Continuous_pickup == o.Continuous_pickup && x.Continuous_drop_off == o.Continuous_drop_off, "attributes of routes")
	}
	nTr := 0
	for _, x := range f.Trips {
		o, k := tr[x]
		ok(aTrNew, k, "trips are added")
		if !k {
			continue
		}
		nTr++
		ok(aIds, x.Id == o.Id, "IDs of trips")
		ok(aTrRoute, x.Route == o.Route, "routes of trips")
		ok(aTrService, x.Service == o.Service, "services of trips")
		ok(aTrShape, x.Shape == o.Shape, "shapes of trips")
		ok(aTrText, x.Headsign == o.Headsign && x.Short_name == o.Short_name && x.Block_id == o.Block_id && x.Direction_id == o.Direction_id && x.Wheelchair_accessible == o.Wheelchair_accessible && x.Bikes_allowed == o.Bikes_allowed, "attributes of trips")
		if x.Attributions != nil && o.Attributions != nil {
			ok(aAtt, sameAtts(*x.Attributions, *o.Attributions), "attributions of trips")
		} else {
			ok(aAtt, x.Attributions == o.Attributions, "attributions of trips")
		}
		n, m := 0, 0
		if x.Frequencies != nil {
			n = len(*x.Frequencies)
		}
		if o.Frequencies != nil {
			m = len(*o.Frequencies)
		}
		ok(aTrFreq, n == m, "frequencies")
		for i := 0; i < n && i < m; i++ {
			y := (*x.Frequencies)[i]
			ok(aTrFreq, y == (*o.Frequencies)[i] && *y == fq[y], "frequencies")
		}
		ok(aTrLess, len(x.StopTimes) == len(o.StopTimes), "numbers of stop times")
		vv.Assert(len(x.StopTimes) <= len(o.StopTimes), "stop times are added")
		if len(x.StopTimes) != len(o.StopTimes) {
			continue
		}
		for i := range x.StopTimes {
			s, t := &x.StopTimes[i], &o.StopTimes[i]
			ok(aTrTimes, s.Arrival_time() == t.Arrival_time() && s.Departure_time() == t.Departure_time(), "times")
			ok(aTrStops, s.Stop() == t.Stop(), "stops of stop times")
			d, e := s.Shape_dist_traveled(), t.Shape_dist_traveled()
			ok(aTrMeasures, d == e || d != d && e != e, "measures of stop times")
			vv.Assert(s.Sequence() == t.Sequence() && s.Headsign() == t.Headsign() && s.Pickup_type() == t.Pickup_type() && s.Drop_off_type() == t.Drop_off_type() && s.Continuous_pickup() == t.Continuous_pickup() && s.Continuous_drop_off() == t.Continuous_drop_off() && s.Timepoint() == t.Timepoint(), "attributes of stop times")
		}
	}
	ok(aTrRemoved, nTr == len(tr), "trips are removed")
	nSv := 0
	for _, x := range f.Services {
		o, k := sv[x]
		ok(aSvNew, k, "services are added")
		if !k {
			continue
		}
		nSv++
		ok(aIds, x.Id() == o.Id(), "IDs of services")
		same := true
		for i, d := range zzCal(x) {
			same = same && d == svDays[x][i]
		}
		ok(aSvDates, same && x.RawDaymap() == o.RawDaymap() && x.Start_date() == o.Start_date() && x.End_date() == o.End_date(), "dates of services")
	}
	ok(aSvRemoved, nSv == len(sv), "services are removed")
	ok(aShRemoved, len(f.Shapes) == len(sh), "shapes are removed or added")
	for _, x := range f.Shapes {
		o, k := sh[x]
		vv.Assert(k, "shapes are added")
		ok(aIds, x.Id == shId[x], "IDs of shapes")
		ok(aShLess, len(x.Points) == len(o), "numbers of shape points")
		for i := 0; i < len(o) && len(o) == len(x.Points); i++ {
			vv.Assert(x.Points[i].Lat == o[i].Lat && x.Points[i].Lon == o[i].Lon, "positions of shape points")
			ok(aShLess, x.Points[i].Sequence == o[i].Sequence, "sequences of shape points")
			d, e := x.Points[i].Dist_traveled, o[i].Dist_traveled
			ok(aShMeasures, d == e || d != d && e != e, "measures of shapes")
		}
	}
	nSt := 0
	for _, x := range f.Stops {
		o, k := st[x]
		ok(aStNew, k, "stops are added")
		if !k {
			continue
		}
		nSt++
		ok(aIds, x.Id == o.Id, "IDs of stops")
		ok(aStPos, x.Lat == o.Lat && x.Lon == o.Lon, "positions of stops")
		ok(aStParent, x.Parent_station == o.Parent_station, "parents of stops")
		ok(aStLevel, x.Level == o.Level, "levels of stops")
		ok(aStPlatform, x.Platform_code == o.Platform_code, "platform codes")
		vv.Assert(x.Code == o.Code && x.Name == o.Name && x.Desc == o.Desc && x.Location_type == o.Location_type && x.Wheelchair_boarding == o.Wheelchair_boarding && x.Zone_id == o.Zone_id && x.Url == o.Url && x.Timezone == o.Timezone, "attributes of stops")
	}
	ok(aStRemoved, nSt == len(st), "stops are removed")
	ok(aLvRemoved, len(f.Levels) == len(lv), "levels are removed or added")
	for _, x := range f.Levels {
		o, k := lv[x]
		vv.Assert(k && x.Name == o.Name && x.Index == o.Index, "attributes of levels")
		ok(aIds, x.Id == o.Id, "IDs of levels")
	}
	ok(aPw, len(f.Pathways) == len(pw), "pathways are removed or added")
	for _, x := range f.Pathways {
		o, k := pw[x]
		vv.Assert(k && x.Mode == o.Mode && x.Is_bidirectional == o.Is_bidirectional && x.Length == o.Length && x.Traversal_time == o.Traversal_time && x.Stair_count == o.Stair_count && x.Max_slope == o.Max_slope && x.Min_width == o.Min_width && x.Signposted_as == o.Signposted_as && x.Reversed_signposted_as == o.Reversed_signposted_as, "attributes of pathways")
		ok(aPw, x.From_stop == o.From_stop && x.To_stop == o.To_stop, "ends of pathways")
		ok(aIds, x.Id == o.Id, "IDs of pathways")
	}
	vv.Assert(len(f.FareAttributes) == len(fa), "fares are removed or added")
	for _, x := range f.FareAttributes {
		o, k := fa[x]
		vv.Assert(k && x.Price == o.Price && x.Currency_type == o.Currency_type && x.Payment_method == o.Payment_method && x.Transfers == o.Transfers && x.Transfer_duration == o.Transfer_duration, "attributes of fares")
		ok(aIds, x.Id == o.Id, "IDs of fares")
		ok(aRoAgency, x.Agency == o.Agency, "agencies of fares")
		ok(aFaRules, len(x.Rules) == len(o.Rules), "rules of fares")
		for _, y := range x.Rules {
			q, k := ru[y]
			vv.Assert(k && y.Origin_id == q.Origin_id && y.Destination_id == q.Destination_id && y.Contains_id == q.Contains_id, "attributes of rules")
			ok(aTrRoute, y.Route == q.Route, "routes of rules")
		}
	}
	n := 0
	for k, v := range f.Transfers {
		o, in := tf[k]
		ok(aTfNew, in && v == o, "transfers are added or changed")
		if in {
			n++
		}
	}
	ok(aTfRemoved, n == len(tf), "transfers are removed")
	vv.Assert(len(f.FeedInfos) == 1 && f.FeedInfos[0] == fi && *fi == fi0, "feed infos")
	ok(aIds, len(f.Attributions) == 1 && *f.Attributions[0] == at0, "attributions of the feed")
	vv.Cover("done", true)
	vv.ObsInt("bits", b)
	vv.ObsInt("trips", nTr)
}

// zzCal are the exceptions of a service on the days around those of the feed: for each
// whether there is one, and whether it is an addition.
func zzCal(s *gtfs.Service) (ret []bool) {
	for i := -10; i < 20; i++ {
		v, in := s.Exceptions()[day(i)]
		ret = append(ret, in, v)
	}
	return ret
}

func sameAtts(a, b []*gtfs.Attribution) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
