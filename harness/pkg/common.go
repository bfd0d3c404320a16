// Package zz_verif holds the verification harnesses. It is laid over the
// repository with a build overlay; nothing of it lives in /repo.
package zz_verif

import (
	"net/mail"
	"net/url"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

var (
	urls = []*url.URL{
		{Scheme: "http", Host: "a.org"},
		{Scheme: "http", Host: "a.org"},
		{Scheme: "http", Host: "b.org"},
		{Scheme: "http", Host: "a.org", RawQuery: "b"},
		{Scheme: "https", Host: "a.org"},
		{Scheme: "http", Host: "a.org", Path: "/b"},
		{Scheme: "http", Host: "a.org", Fragment: "b"},
	}
	mails = []*mail.Address{
		{Name: "A", Address: "a@a.org"},
		{Name: "A", Address: "a@a.org"},
		{Name: "B", Address: "b@b.org"},
		{Name: "A", Address: "b@a.org"},
		{Name: "A", Address: "a@b.org"},
	}
)

// pickUrl is nil, one of two equal URLs, or one that differs in a part.
func pickUrl(name string) *url.URL {
	i := vv.Int(name, 0, len(urls))
	var r *url.URL
	for k, u := range urls {
		if i == k+1 {
			r = u
		}
	}
	return r
}

func pickMail(name string) *mail.Address {
	i := vv.Int(name, 0, len(mails))
	var r *mail.Address
	for k, u := range mails {
		if i == k+1 {
			r = u
		}
	}
	return r
}

func eqUrl(a, b *url.URL) bool {
	if a == nil || b == nil {
		return a == b
	}
	return vv.And(a.Host == b.Host, a.Scheme == b.Scheme, a.Path == b.Path, a.RawQuery == b.RawQuery, a.Fragment == b.Fragment)
}

func eqMail(a, b *mail.Address) bool {
	if a == nil || b == nil {
		return a == b
	}
	return vv.And(a.Address == b.Address, a.Name == b.Name)
}

func eqStrP(a, b *string) bool {
	if a == nil || b == nil {
		return a == b
	}
	return *a == *b
}

func tzOf(second bool) gtfs.Timezone {
	r := gtfs.Timezone{}
	if second {
		r, _ = gtfs.NewTimezone("UTC")
	}
	return r
}

func langOf(second bool) gtfs.LanguageISO6391 {
	r := gtfs.LanguageISO6391{}
	if second {
		r, _ = gtfs.NewLanguageISO6391("de")
	}
	return r
}

// pickStrP is nil or a pointer to one of two equal strings or a third.
func pickStrP(name string, s string, t string) *string {
	a, b, c := s, s, t
	i := vv.Int(name, 0, 3)
	r := &c
	if i == 0 {
		r = nil
	}
	if i == 1 {
		r = &a
	}
	if i == 2 {
		r = &b
	}
	return r
}

// fld is the additional column name, next to which there is an empty one.
func fld(m map[string]map[string]string, name string) map[string]string {
	if m[name] == nil {
		m["empty"] = make(map[string]string)
		m[name] = make(map[string]string)
	}
	return m[name]
}

func addStop(f *gtfsparser.Feed, id string) *gtfs.Stop {
	s := &gtfs.Stop{Id: id, Name: id, Lat: 1, Lon: 1}
	f.Stops[id] = s
	return s
}

func addAgency(f *gtfsparser.Feed, id string) *gtfs.Agency {
	a := &gtfs.Agency{Id: id, Name: "N"}
	f.Agencies[id] = a
	return a
}

func addRoute(f *gtfsparser.Feed, id string, a *gtfs.Agency) *gtfs.Route {
	r := &gtfs.Route{Id: id, Agency: a, Short_name: "R", Type: 3}
	f.Routes[id] = r
	return r
}

func addService(f *gtfsparser.Feed, id string, daymap uint8, start, end gtfs.Date) *gtfs.Service {
	s := gtfs.EmptyService()
	s.SetId(id)
	s.SetRawDaymap(daymap)
	s.SetStart_date(start)
	s.SetEnd_date(end)
	f.Services[id] = s
	return s
}

func addTrip(f *gtfsparser.Feed, id string, r *gtfs.Route, s *gtfs.Service) *gtfs.Trip {
	t := &gtfs.Trip{Id: id, Route: r, Service: s}
	f.Trips[id] = t
	return t
}

func hms(sec int) gtfs.Time {
	return gtfs.Time{Hour: int8(sec / 3600), Minute: int8(sec / 60 % 60), Second: int8(sec % 60)}
}

func noTime() gtfs.Time { return gtfs.Time{Hour: -1, Minute: -1, Second: -1} }

// st makes a stop time.
func stime(s *gtfs.Stop, seq int, arr, dep gtfs.Time, dist float32) gtfs.StopTime {
	x := gtfs.StopTime{}
	x.SetStop(s)
	x.SetSequence(seq)
	x.SetTimepoint(true)
	x.SetArrival_time(arr)
	x.SetDeparture_time(dep)
	x.SetShape_dist_traveled(dist)
	return x
}

// day is the n-th day after Monday 2024-01-01.
func day(n int) gtfs.Date {
	return gtfs.NewDate(1, 1, 2024).GetOffsettedDate(n)
}

// closed asserts that all entity references resolve inside the feed (C11).
func closed(f *gtfsparser.Feed) {
	for id, a := range f.Agencies {
		vv.Assert(a != nil && a.Id == id, "agency under its own ID")
	}
	for id, s := range f.Stops {
		vv.Assert(s != nil && s.Id == id, "stop under its own ID")
		if s.Parent_station != nil {
			vv.Assert(f.Stops[s.Parent_station.Id] == s.Parent_station, "parent station in feed")
		}
		if s.Level != nil {
			vv.Assert(f.Levels[s.Level.Id] == s.Level, "level in feed")
		}
	}
	for id, r := range f.Routes {
		vv.Assert(r != nil && r.Id == id, "route under its own ID")
		if r.Agency != nil {
			vv.Assert(f.Agencies[r.Agency.Id] == r.Agency, "agency of route in feed")
		}
	}
	for id, s := range f.Services {
		vv.Assert(s != nil && s.Id() == id, "service under its own ID")
	}
	for id, s := range f.Shapes {
		vv.Assert(s != nil && s.Id == id, "shape under its own ID")
	}
	for id, l := range f.Levels {
		vv.Assert(l != nil && l.Id == id, "level under its own ID")
	}
	for id, t := range f.Trips {
		vv.Assert(t != nil && t.Id == id, "trip under its own ID")
		vv.Assert(t.Route != nil && f.Routes[t.Route.Id] == t.Route, "route of trip in feed")
		vv.Assert(t.Service != nil && f.Services[t.Service.Id()] == t.Service, "service of trip in feed")
		if t.Shape != nil {
			vv.Assert(f.Shapes[t.Shape.Id] == t.Shape, "shape of trip in feed")
		}
		for i := range t.StopTimes {
			s := t.StopTimes[i].Stop()
			vv.Assert(s != nil && f.Stops[s.Id] == s, "stop of stop time in feed")
		}
	}
	for id, fa := range f.FareAttributes {
		vv.Assert(fa != nil && fa.Id == id, "fare under its own ID")
		if fa.Agency != nil {
			vv.Assert(f.Agencies[fa.Agency.Id] == fa.Agency, "agency of fare in feed")
		}
		for _, r := range fa.Rules {
			if r.Route != nil {
				vv.Assert(f.Routes[r.Route.Id] == r.Route, "route of fare rule in feed")
			}
		}
	}
	for id, p := range f.Pathways {
		vv.Assert(p != nil && p.Id == id, "pathway under its own ID")
		vv.Assert(p.From_stop != nil && f.Stops[p.From_stop.Id] == p.From_stop, "pathway origin in feed")
		vv.Assert(p.To_stop != nil && f.Stops[p.To_stop.Id] == p.To_stop, "pathway target in feed")
	}
	for tk := range f.Transfers {
		if tk.From_stop != nil {
			vv.Assert(f.Stops[tk.From_stop.Id] == tk.From_stop, "transfer origin in feed")
		}
		if tk.To_stop != nil {
			vv.Assert(f.Stops[tk.To_stop.Id] == tk.To_stop, "transfer target in feed")
		}
		if tk.From_route != nil {
			vv.Assert(f.Routes[tk.From_route.Id] == tk.From_route, "transfer origin route in feed")
		}
		if tk.To_route != nil {
			vv.Assert(f.Routes[tk.To_route.Id] == tk.To_route, "transfer target route in feed")
		}
		if tk.From_trip != nil {
			vv.Assert(f.Trips[tk.From_trip.Id] == tk.From_trip, "transfer origin trip in feed")
		}
		if tk.To_trip != nil {
			vv.Assert(f.Trips[tk.To_trip.Id] == tk.To_trip, "transfer target trip in feed")
		}
	}
}
