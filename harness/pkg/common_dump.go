package zz_verif

import (
	"sort"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// dmp collects the contents of a feed as text.
type dmp struct{ b []string }

func (d *dmp) s(x ...string) { d.b = append(d.b, x...) }
func (d *dmp) i(x ...int) {
	for _, v := range x {
		d.b = append(d.b, vv.Itoa(v))
	}
}

// f writes a coordinate or measure.
func (d *dmp) f(x ...float32) {
	for _, v := range x {
		switch {
		case v != v:
			d.b = append(d.b, "nan")
		default:
			d.b = append(d.b, vv.Itoa(int(float64(v)*1048576)))
		}
	}
}

func (d *dmp) p(x *string) {
	if x == nil {
		d.b = append(d.b, "nil")
	} else {
		d.b = append(d.b, *x)
	}
}

func (d *dmp) atts(x []*gtfs.Attribution) {
	for _, a := range x {
		d.s("att", a.Id, a.Organization_name)
	}
}

func sortedIds[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func stopId(s *gtfs.Stop) string {
	if s == nil {
		return "nil"
	}
	return s.Id
}

func routeId(s *gtfs.Route) string {
	if s == nil {
		return "nil"
	}
	return s.Id
}

func tripId(s *gtfs.Trip) string {
	if s == nil {
		return "nil"
	}
	return s.Id
}

func dtext(d gtfs.Date) string {
	return vv.Itoa(int(d.Year())) + "-" + vv.Itoa(int(d.Month())) + "-" + vv.Itoa(int(d.Day()))
}

// dump is the contents of a feed: equal feeds have equal dumps. The order of
// rules of a fare, of frequencies of a trip and of attributions does not count.
func dump(f *gtfsparser.Feed) []string {
	d := &dmp{}
	for _, k := range sortedIds(f.Agencies) {
		a := f.Agencies[k]
		d.s("agency", k, a.Id, a.Name)
		d.atts(a.Attributions)
	}
	for _, k := range sortedIds(f.Levels) {
		d.s("level", k, f.Levels[k].Id)
	}
	for _, k := range sortedIds(f.Stops) {
		s := f.Stops[k]
		d.s("stop", k, s.Id, s.Name, s.Platform_code, stopId(s.Parent_station))
		d.i(int(s.Location_type))
		d.f(s.Lat, s.Lon)
		if s.Level != nil {
			d.s(s.Level.Id)
		}
	}
	for _, k := range sortedIds(f.Routes) {
		r := f.Routes[k]
		d.s("route", k, r.Id, r.Short_name)
		if r.Agency != nil {
			d.s(r.Agency.Id)
		}
		d.atts(r.Attributions)
	}
	for _, k := range sortedIds(f.Services) {
		s := f.Services[k]
		d.s("service", k, s.Id(), dtext(s.Start_date()), dtext(s.End_date()))
		d.i(int(s.RawDaymap()))
		for i, x := range excs(s) {
			if x {
				d.i(i)
			}
		}
	}
	for _, k := range sortedIds(f.Shapes) {
		s := f.Shapes[k]
		d.s("shape", k, s.Id)
		for _, p := range s.Points {
			d.f(p.Lat, p.Lon, p.Dist_traveled)
			d.i(int(p.Sequence))
		}
	}
	for _, k := range sortedIds(f.Trips) {
		t := f.Trips[k]
		d.s("trip", k, t.Id, t.Route.Id, t.Service.Id())
		d.p(t.Headsign)
		d.p(t.Short_name)
		d.p(t.Block_id)
		if t.Shape != nil {
			d.s(t.Shape.Id)
		}
		for i := range t.StopTimes {
			x := &t.StopTimes[i]
			d.s(stopId(x.Stop()))
			d.i(x.Sequence(), x.Arrival_time().SecondsSinceMidnight(), x.Departure_time().SecondsSinceMidnight())
			d.f(x.Shape_dist_traveled())
		}
		if t.Frequencies != nil {
			for _, x := range *t.Frequencies {
				d.i(x.Start_time.SecondsSinceMidnight(), x.End_time.SecondsSinceMidnight(), x.Headway_secs)
			}
		}
		if t.Attributions != nil {
			d.atts(*t.Attributions)
		}
	}
	for _, k := range sortedIds(f.FareAttributes) {
		a := f.FareAttributes[k]
		d.s("fare", k, a.Id, a.Price)
		if a.Agency != nil {
			d.s(a.Agency.Id)
		}
		var rs []string
		for _, r := range a.Rules {
			rs = append(rs, routeId(r.Route)+" "+r.Origin_id)
		}
		sort.Strings(rs)
		d.s(rs...)
	}
	for _, k := range sortedIds(f.Pathways) {
		p := f.Pathways[k]
		d.s("pathway", k, p.Id, stopId(p.From_stop), stopId(p.To_stop))
	}
	var ts []string
	for k, v := range f.Transfers {
		ts = append(ts, stopId(k.From_stop)+" "+stopId(k.To_stop)+" "+routeId(k.From_route)+" "+routeId(k.To_route)+" "+tripId(k.From_trip)+" "+tripId(k.To_trip)+" "+vv.Itoa(v.Transfer_type))
	}
	sort.Strings(ts)
	d.s(ts...)
	d.atts(f.Attributions)
	return d.b
}
