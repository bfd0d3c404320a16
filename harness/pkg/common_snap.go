package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// snapshot is a copy of everything in a feed.
type snapshot struct {
	ag  []*gtfs.Agency
	agV []gtfs.Agency
	st  []*gtfs.Stop
	stV []gtfs.Stop
	ro  []*gtfs.Route
	roV []gtfs.Route
	se  []*gtfs.Service
	seI []string
	seM []uint8
	seS []gtfs.Date
	seE []gtfs.Date
	seX [][]bool
	sh  []*gtfs.Shape
	shP [][]gtfs.ShapePoint
	tr  []*gtfs.Trip
	trV []gtfs.Trip
	trT [][]gtfs.StopTime
	trF [][]gtfs.Frequency
	fa  []*gtfs.FareAttribute
	faV []gtfs.FareAttribute
	faR [][]gtfs.FareAttributeRule
	pw  []*gtfs.Pathway
	pwV []gtfs.Pathway
	le  []*gtfs.Level
	leV []gtfs.Level
	tk  []gtfs.TransferKey
	tv  []gtfs.TransferVal
	at  []*gtfs.Attribution
}

const snapDays = 4 // service exceptions are compared on day(-1) ... day(snapDays)

func excs(s *gtfs.Service) []bool {
	var r []bool
	for d := -1; d <= snapDays; d++ {
		v, ok := s.Exceptions()[day(d)]
		r = append(r, v, ok)
	}
	return r
}

func snap(f *gtfsparser.Feed) *snapshot {
	s := &snapshot{}
	for _, x := range f.Agencies {
		s.ag, s.agV = append(s.ag, x), append(s.agV, *x)
	}
	for _, x := range f.Stops {
		s.st, s.stV = append(s.st, x), append(s.stV, *x)
	}
	for _, x := range f.Routes {
		s.ro, s.roV = append(s.ro, x), append(s.roV, *x)
	}
	for _, x := range f.Services {
		s.se, s.seI, s.seM, s.seS, s.seE, s.seX = append(s.se, x), append(s.seI, x.Id()), append(s.seM, x.RawDaymap()), append(s.seS, x.Start_date()), append(s.seE, x.End_date()), append(s.seX, excs(x))
	}
	for _, x := range f.Shapes {
		s.sh, s.shP = append(s.sh, x), append(s.shP, append([]gtfs.ShapePoint{}, x.Points...))
	}
	for _, x := range f.Trips {
		s.tr, s.trV, s.trT = append(s.tr, x), append(s.trV, *x), append(s.trT, append([]gtfs.StopTime{}, x.StopTimes...))
		var fr []gtfs.Frequency
		if x.Frequencies != nil {
			for _, y := range *x.Frequencies {
				fr = append(fr, *y)
			}
		}
		s.trF = append(s.trF, fr)
	}
	for _, x := range f.FareAttributes {
		s.fa, s.faV = append(s.fa, x), append(s.faV, *x)
		var rs []gtfs.FareAttributeRule
		for _, y := range x.Rules {
			rs = append(rs, *y)
		}
		s.faR = append(s.faR, rs)
	}
	for _, x := range f.Pathways {
		s.pw, s.pwV = append(s.pw, x), append(s.pwV, *x)
	}
	for _, x := range f.Levels {
		s.le, s.leV = append(s.le, x), append(s.leV, *x)
	}
	for k, v := range f.Transfers {
		s.tk, s.tv = append(s.tk, k), append(s.tv, v)
	}
	s.at = append(s.at, f.Attributions...)
	return s
}

func sameAttrs(a, b []*gtfs.Attribution) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameAttrsP(a, b *[]*gtfs.Attribution) bool {
	if a == nil || b == nil {
		return a == b
	}
	return sameAttrs(*a, *b)
}

func samePos(a, b *gtfs.Stop) bool { return vv.And(a.Lat == b.Lat, a.Lon == b.Lon) }

func sameParent(a, b *gtfs.Stop) bool { return a.Parent_station == b.Parent_station }

// sameStopRest compares all but position, parent and platform code.
func sameStopRest(a, b *gtfs.Stop) bool {
	return vv.And(a.Id == b.Id, a.Code == b.Code, a.Name == b.Name, a.Desc == b.Desc, a.Location_type == b.Location_type, a.Wheelchair_boarding == b.Wheelchair_boarding, a.Zone_id == b.Zone_id, a.Url == b.Url, a.Level == b.Level, a.Timezone == b.Timezone, len(a.Translations) == len(b.Translations))
}

// sameTripRest compares all but stop times and shape.
func sameTripRest(a, b *gtfs.Trip) bool {
	return vv.And(a.Id == b.Id, a.Route == b.Route, a.Service == b.Service, a.Headsign == b.Headsign, a.Short_name == b.Short_name, a.Block_id == b.Block_id, a.Frequencies == b.Frequencies, sameAttrsP(a.Attributions, b.Attributions), a.Direction_id == b.Direction_id, a.Wheelchair_accessible == b.Wheelchair_accessible, a.Bikes_allowed == b.Bikes_allowed)
}

func sameTimes(a, b []gtfs.StopTime) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vv.And(ok, sameST(&a[i], &b[i], true))
	}
	return ok
}

// sameST compares two stop times, with or without their distance measures.
func sameST(a, b *gtfs.StopTime, dist bool) bool {
	ok := vv.And(a.Stop() == b.Stop(), a.Arrival_time() == b.Arrival_time(), a.Departure_time() == b.Departure_time(), a.Headsign() == b.Headsign(), a.Sequence() == b.Sequence(), a.Timepoint() == b.Timepoint(), a.Pickup_type() == b.Pickup_type(), a.Drop_off_type() == b.Drop_off_type(), a.Continuous_pickup() == b.Continuous_pickup(), a.Continuous_drop_off() == b.Continuous_drop_off())
	return vv.And(ok, vv.Or(!dist, eqDist(a.Shape_dist_traveled(), b.Shape_dist_traveled())))
}

func samePoints(a, b []gtfs.ShapePoint) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vv.And(ok, a[i].Lat == b[i].Lat, a[i].Lon == b[i].Lon, a[i].Sequence == b[i].Sequence, eqDist(a[i].Dist_traveled, b[i].Dist_traveled))
	}
	return ok
}

func eqDist(a, b float32) bool { return vv.Or(a == b, vv.And(a != a, b != b)) }

// what may change
const (
	mayDrop   = 1 << iota // entities may be removed
	mayMove               // positions of stops
	mayParent             // parents of stops
	mayPlat               // platform codes
	mayTimes              // stop times
	mayShape              // shapes of trips
	mayPoints             // points of shapes
	mayAdd                // entities may be added
)

// unaltered asserts that nothing but what may change differs from s.
func unaltered(f *gtfsparser.Feed, s *snapshot, may int) {
	drop := may&mayDrop != 0
	for i, x := range s.ag {
		if drop && f.Agencies[s.agV[i].Id] != x {
			continue
		}
		v := &s.agV[i]
		vv.Assert(f.Agencies[v.Id] == x, "agencies are kept")
		vv.Assert(vv.And(x.Id == v.Id, x.Name == v.Name, x.Url == v.Url, x.Timezone == v.Timezone, x.Lang == v.Lang, x.Phone == v.Phone, x.Fare_url == v.Fare_url, x.Email == v.Email, sameAttrs(x.Attributions, v.Attributions)), "agencies are unaltered")
	}
	for i, x := range s.st {
		v := &s.stV[i]
		if drop && f.Stops[v.Id] != x {
			continue
		}
		vv.Assert(f.Stops[v.Id] == x, "stops are kept")
		vv.Assert(sameStopRest(x, v), "stops are unaltered")
		vv.Assert(may&mayMove != 0 || samePos(x, v), "stop positions are unaltered")
		vv.Assert(may&mayParent != 0 || sameParent(x, v), "stop parents are unaltered")
		vv.Assert(may&mayPlat != 0 || x.Platform_code == v.Platform_code, "platform codes are unaltered")
	}
	for i, x := range s.ro {
		v := &s.roV[i]
		if drop && f.Routes[v.Id] != x {
			continue
		}
		vv.Assert(f.Routes[v.Id] == x, "routes are kept")
		vv.Assert(vv.And(x.Id == v.Id, x.Agency == v.Agency, x.Short_name == v.Short_name, x.Long_name == v.Long_name, x.Desc == v.Desc, x.Type == v.Type, x.Url == v.Url, x.Color == v.Color, x.Text_color == v.Text_color, x.Sort_order == v.Sort_order, x.Continuous_pickup == v.Continuous_pickup, x.Continuous_drop_off == v.Continuous_drop_off, sameAttrs(x.Attributions, v.Attributions)), "routes are unaltered")
	}
	for i, x := range s.se {
		if drop && f.Services[s.seI[i]] != x {
			continue
		}
		vv.Assert(f.Services[s.seI[i]] == x, "services are kept")
		e := excs(x)
		ok := vv.And(x.Id() == s.seI[i], x.RawDaymap() == s.seM[i], x.Start_date() == s.seS[i], x.End_date() == s.seE[i])
		for k := range e {
			ok = vv.And(ok, e[k] == s.seX[i][k])
		}
		vv.Assert(ok, "services are unaltered")
	}
	for i, x := range s.sh {
		if drop && f.Shapes[x.Id] != x {
			continue
		}
		vv.Assert(f.Shapes[x.Id] == x, "shapes are kept")
		vv.Assert(may&mayPoints != 0 || samePoints(x.Points, s.shP[i]), "shapes are unaltered")
	}
	for i, x := range s.tr {
		v := &s.trV[i]
		if drop && f.Trips[v.Id] != x {
			continue
		}
		vv.Assert(f.Trips[v.Id] == x, "trips are kept")
		vv.Assert(sameTripRest(x, v), "trips are unaltered")
		vv.Assert(may&mayShape != 0 || x.Shape == v.Shape, "shapes of trips are unaltered")
		vv.Assert(may&mayTimes != 0 || sameTimes(x.StopTimes, s.trT[i]), "stop times are unaltered")
		if x.Frequencies != nil {
			ok := len(*x.Frequencies) == len(s.trF[i])
			if ok {
				for k, y := range *x.Frequencies {
					ok = vv.And(ok, *y == s.trF[i][k])
				}
			}
			vv.Assert(ok, "frequencies are unaltered")
		}
	}
	for i, x := range s.fa {
		v := &s.faV[i]
		if drop && f.FareAttributes[v.Id] != x {
			continue
		}
		vv.Assert(f.FareAttributes[v.Id] == x, "fares are kept")
		ok := vv.And(x.Id == v.Id, x.Price == v.Price, x.Currency_type == v.Currency_type, x.Payment_method == v.Payment_method, x.Transfers == v.Transfers, x.Agency == v.Agency, x.Transfer_duration == v.Transfer_duration, len(x.Rules) == len(s.faR[i]))
		if len(x.Rules) == len(s.faR[i]) {
			for k, y := range x.Rules {
				ok = vv.And(ok, *y == s.faR[i][k])
			}
		}
		vv.Assert(ok, "fares are unaltered")
	}
	for i, x := range s.pw {
		v := &s.pwV[i]
		if drop && f.Pathways[v.Id] != x {
			continue
		}
		vv.Assert(f.Pathways[v.Id] == x, "pathways are kept")
		vv.Assert(vv.And(x.Id == v.Id, x.From_stop == v.From_stop, x.To_stop == v.To_stop, x.Mode == v.Mode, x.Is_bidirectional == v.Is_bidirectional, x.Length == v.Length, x.Traversal_time == v.Traversal_time, x.Stair_count == v.Stair_count, x.Max_slope == v.Max_slope, x.Min_width == v.Min_width, x.Signposted_as == v.Signposted_as, x.Reversed_signposted_as == v.Reversed_signposted_as), "pathways are unaltered")
	}
	for i, x := range s.le {
		v := &s.leV[i]
		if drop && f.Levels[v.Id] != x {
			continue
		}
		vv.Assert(f.Levels[v.Id] == x, "levels are kept")
		vv.Assert(vv.And(x.Id == v.Id, x.Index == v.Index, x.Name == v.Name), "levels are unaltered")
	}
	for i, k := range s.tk {
		v, ok := f.Transfers[k]
		if drop && !ok {
			continue
		}
		vv.Assert(ok, "transfers are kept")
		vv.Assert(v == s.tv[i], "transfers are unaltered")
	}
	vv.Assert(sameAttrs(f.Attributions, s.at), "attributions are unaltered")
	if may&mayAdd == 0 {
		vv.Assert(len(f.Agencies) <= len(s.ag) && len(f.Stops) <= len(s.st) && len(f.Routes) <= len(s.ro) && len(f.Services) <= len(s.se) && len(f.Shapes) <= len(s.sh) && len(f.Trips) <= len(s.tr) && len(f.FareAttributes) <= len(s.fa) && len(f.Pathways) <= len(s.pw) && len(f.Levels) <= len(s.le) && len(f.Transfers) <= len(s.tk), "nothing is added")
	}
}
