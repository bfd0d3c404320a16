package main

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// zzEnt is what is read under one ID: an entity of every kind.
type zzEnt struct {
	id, pid string
	stop    *gtfs.Stop
	agency  *gtfs.Agency
	fare    *gtfs.FareAttribute
	rule    *gtfs.FareAttributeRule
	service *gtfs.Service
	route   *gtfs.Route
	shape   *gtfs.Shape
	trip    *gtfs.Trip
	freq    *gtfs.Frequency
	level   *gtfs.Level
	path    *gtfs.Pathway
}

func zzFld(m map[string]map[string]string, id, v string) {
	if m["x"] == nil {
		m["x"] = map[string]string{}
	}
	m["x"][id] = v
}

// zzRead adds what is read under an ID.
func zzRead(f *gtfsparser.Feed, prefix, id string) *zzEnt {
	p := prefix + id
	e := &zzEnt{id: id, pid: p}
	e.level = &gtfs.Level{Id: p, Name: "level"}
	f.Levels[p] = e.level
	e.stop = &gtfs.Stop{Id: p, Name: "stop", Level: e.level}
	f.Stops[p] = e.stop
	e.agency = &gtfs.Agency{Id: p, Name: "agency"}
	f.Agencies[p] = e.agency
	e.route = &gtfs.Route{Id: p, Agency: e.agency}
	f.Routes[p] = e.route
	e.service = gtfs.EmptyService()
	e.service.SetId(p)
	f.Services[p] = e.service
	e.shape = &gtfs.Shape{Id: p, Points: gtfs.ShapePoints{{Lat: 1, Lon: 2}}}
	f.Shapes[p] = e.shape
	hs := ""
	b := p
	e.trip = &gtfs.Trip{Id: p, Route: e.route, Service: e.service, Shape: e.shape, Headsign: &hs, Block_id: &b}
	st := gtfs.StopTime{}
	st.SetStop(e.stop)
	st.SetSequence(1)
	e.trip.StopTimes = gtfs.StopTimes{st}
	e.freq = &gtfs.Frequency{Headway_secs: 60}
	e.trip.Frequencies = &[]*gtfs.Frequency{e.freq}
	f.Trips[p] = e.trip
	f.NumStopTimes++
	e.rule = &gtfs.FareAttributeRule{Route: e.route}
	e.fare = &gtfs.FareAttribute{Id: p, Price: "1", Agency: e.agency, Rules: []*gtfs.FareAttributeRule{e.rule}}
	f.FareAttributes[p] = e.fare
	e.path = &gtfs.Pathway{Id: p, From_stop: e.stop, To_stop: e.stop}
	f.Pathways[p] = e.path
	f.Transfers[gtfs.TransferKey{From_stop: e.stop, To_stop: e.stop, From_route: e.route, To_trip: e.trip}] = gtfs.TransferVal{Transfer_type: 1}

	zzFld(f.StopsAddFlds, p, "stop "+p)
	zzFld(f.AgenciesAddFlds, p, "agency "+p)
	zzFld(f.RoutesAddFlds, p, "route "+p)
	zzFld(f.TripsAddFlds, p, "trip "+p)
	zzFld(f.LevelsAddFlds, p, "level "+p)
	zzFld(f.PathwaysAddFlds, p, "pathway "+p)
	zzFld(f.FareAttributesAddFlds, p, "fare "+p)
	if f.StopTimesAddFlds["x"] == nil {
		f.StopTimesAddFlds["x"] = map[string]map[int]string{}
		f.ShapesAddFlds["x"] = map[string]map[int]string{}
		f.FrequenciesAddFlds["x"] = map[string]map[*gtfs.Frequency]string{}
		f.FareRulesAddFlds["x"] = map[string]map[*gtfs.FareAttributeRule]string{}
	}
	f.StopTimesAddFlds["x"][p] = map[int]string{1: "time " + p}
	f.ShapesAddFlds["x"][p] = map[int]string{1: "shape " + p}
	f.FrequenciesAddFlds["x"][p] = map[*gtfs.Frequency]string{e.freq: "frequency " + p}
	f.FareRulesAddFlds["x"][p] = map[*gtfs.FareAttributeRule]string{e.rule: "rule " + p}
	return e
}

var zzKeepNames = []string{"keep-station-ids", "keep-block-ids", "keep-fare-ids", "keep-shape-ids", "keep-route-ids", "keep-trip-ids", "keep-level-ids", "keep-pathway-ids", "keep-service-ids", "keep-agency-ids"}

// zzVerifC27_restore: three entities of all kinds, read from one or two feeds under IDs
// that may look like those with a prefix; the IDs of one kind (or of all) are to be kept.
//
//vv:cases quick=66 thorough=66 timeout=120 ttimeout=600 nomerge=1
func zzVerifC27_restore(c int) {
	kind := c % 11 // 10: all
	two := (c/11)%2 == 0
	menu := []string{"a", "b", "1#a", "0#b", "1#0#b"}
	pre := ""
	if !two {
		pre = "x"
		menu = []string{"a", "xa", "xxa", "b", ""}
		if c >= 33 {
			pre = "xx"
		}
		if c >= 44 {
			pre = "b"
			menu = []string{"a", "ba", "bb", "b", "bbb"}
		}
	} else if c >= 22 && c < 44 {
		pre = "x"
		menu = []string{"a", "b", "x1#a", "x0#a", "x1#x0#a"}
	} else if c >= 44 {
		pre = "1#"
		menu = []string{"a", "1#0#a", "0#a", "0#1#0#a", "b"}
	}
	paths := []string{"in"}
	if two {
		paths = []string{"in", "in2"}
	}
	var es []*zzEnt
	n := 0
	r := zzMain(func() {
		if kind == 10 {
			zzBool("keep-ids", true)
		} else {
			zzBool(zzKeepNames[kind], true)
		}
		zzStr("prefix", pre)
	}, paths, func(f *gtfsparser.Feed, path, prefix string) error {
		var was []string
		k := 3
		if two {
			k = 2 - len(es)/2
		}
		for i := 0; i < k; i++ {
			id := menu[vv.Split(vv.Int("id"+vv.Itoa(n), 0, len(menu)-1))]
			n++
			for _, w := range was {
				vv.Assume(w != id)
			}
			was = append(was, id)
			if len(es) > 0 && !two {
				// in any order of the IDs
				vv.Assume(es[len(es)-1].id < id)
			}
			es = append(es, zzRead(f, prefix, id))
		}
		if n == 3 {
			// a second trip on the same block, and one without
			b := es[0].pid
			f.Trips["second"] = &gtfs.Trip{Id: "second", Route: es[0].route, Service: es[0].service, Headsign: &b, Block_id: &b}
			f.Trips["third"] = &gtfs.Trip{Id: "third", Route: es[0].route, Service: es[0].service, Headsign: &b}
			switch {
			case vv.Tier() > 0 && kind != 10:
				vv.MapOrder(2)
			case kind == 10:
				vv.MapOrder(vv.Split(vv.Int("order", 0, 1)))
			default:
				// 4: entries added while iterating may be visited, too
				vv.MapOrder([]int{0, 1, 4}[vv.Split(vv.Int("order", 0, 2))])
			}
		}
		return nil
	}, true)
	vv.Assert(zzMissing == "", "the options exist")
	vv.Assert(r.feed != nil, "there is an output")
	f := r.feed
	ne := len(es)
	vv.Assert(ne == 3, "all is read")
	vv.Cover("restored", es[0].pid != es[0].stop.Id || kind != 0 && kind != 10)
	vv.ObsInt("stops", len(f.Stops))
	vv.ObsInt("pathways", len(f.Pathways))
	right := func(kd int, e *zzEnt, id string, there bool, what string) {
		if kd != kind && kind != 10 {
			vv.Assert(id == e.pid, "only IDs to be kept are restored: "+what)
			return
		}
		vv.Assert(id == e.id || id == e.pid, "the original ID, or that with the prefix: "+what)
		if id != e.id {
			for _, g := range es {
				// another one has the ID, or had it
				there = there || g != e && (g.pid == e.id)
			}
			vv.Assert(there, "the original ID is restored unless it is taken: "+what)
		}
	}
	vv.Assert(len(f.Stops) == ne && len(f.StopsAddFlds["x"]) == ne, "stops")
	vv.Assert(len(f.Agencies) == ne && len(f.AgenciesAddFlds["x"]) == ne, "agencies")
	vv.Assert(len(f.FareAttributes) == ne && len(f.FareAttributesAddFlds["x"]) == ne && len(f.FareRulesAddFlds["x"]) == ne, "fares")
	vv.Assert(len(f.Services) == ne, "services")
	vv.Assert(len(f.Routes) == ne && len(f.RoutesAddFlds["x"]) == ne, "routes")
	vv.Assert(len(f.Shapes) == ne && len(f.ShapesAddFlds["x"]) == ne, "shapes")
	vv.Assert(len(f.Trips) == ne+2 && len(f.TripsAddFlds["x"]) == ne && len(f.StopTimesAddFlds["x"]) == ne && len(f.FrequenciesAddFlds["x"]) == ne, "trips")
	vv.Assert(len(f.Levels) == ne && len(f.LevelsAddFlds["x"]) == ne, "levels")
	vv.Assert(len(f.Pathways) == ne && len(f.PathwaysAddFlds["x"]) == ne, "pathways")
	vv.Assert(len(f.Transfers) == ne, "transfers")
	for _, e := range es {
		id := e.stop.Id
		vv.Assert(f.Stops[id] == e.stop, "the stop has its ID as key")
		vv.Assert(f.StopsAddFlds["x"][id] == "stop "+e.pid, "additional fields of the stop")
		right(0, e, id, f.Stops[e.id] != nil, "stop")
		id = e.fare.Id
		vv.Assert(f.FareAttributes[id] == e.fare, "the fare has its ID as key")
		vv.Assert(f.FareAttributesAddFlds["x"][id] == "fare "+e.pid, "additional fields of the fare")
		vv.Assert(f.FareRulesAddFlds["x"][id][e.rule] == "rule "+e.pid, "additional fields of the fare rule")
		right(2, e, id, f.FareAttributes[e.id] != nil, "fare")
		id = e.shape.Id
		vv.Assert(f.Shapes[id] == e.shape, "the shape has its ID as key")
		vv.Assert(f.ShapesAddFlds["x"][id][1] == "shape "+e.pid, "additional fields of the shape")
		right(3, e, id, f.Shapes[e.id] != nil, "shape")
		id = e.route.Id
		vv.Assert(f.Routes[id] == e.route, "the route has its ID as key")
		vv.Assert(f.RoutesAddFlds["x"][id] == "route "+e.pid, "additional fields of the route")
		right(4, e, id, f.Routes[e.id] != nil, "route")
		id = e.trip.Id
		vv.Assert(f.Trips[id] == e.trip, "the trip has its ID as key")
		vv.Assert(f.TripsAddFlds["x"][id] == "trip "+e.pid, "additional fields of the trip")
		vv.Assert(f.StopTimesAddFlds["x"][id][1] == "time "+e.pid, "additional fields of the stop time")
		vv.Assert(f.FrequenciesAddFlds["x"][id][e.freq] == "frequency "+e.pid, "additional fields of the frequency")
		right(5, e, id, f.Trips[e.id] != nil, "trip")
		id = e.level.Id
		vv.Assert(f.Levels[id] == e.level, "the level has its ID as key")
		vv.Assert(f.LevelsAddFlds["x"][id] == "level "+e.pid, "additional fields of the level")
		right(6, e, id, f.Levels[e.id] != nil, "level")
		id = e.path.Id
		vv.Assert(f.Pathways[id] == e.path, "the pathway has its ID as key")
		vv.Assert(f.PathwaysAddFlds["x"][id] == "pathway "+e.pid, "additional fields of the pathway")
		right(7, e, id, f.Pathways[e.id] != nil, "pathway")
		id = e.service.Id()
		vv.Assert(f.Services[id] == e.service, "the service has its ID as key")
		right(8, e, id, f.Services[e.id] != nil, "service")
		id = e.agency.Id
		vv.Assert(f.Agencies[id] == e.agency, "the agency has its ID as key")
		vv.Assert(f.AgenciesAddFlds["x"][id] == "agency "+e.pid, "additional fields of the agency")
		right(9, e, id, f.Agencies[e.id] != nil, "agency")
		// references
		vv.Assert(e.trip.Route == e.route && e.trip.Service == e.service && e.trip.Shape == e.shape && e.route.Agency == e.agency, "references of the trip and route")
		vv.Assert(len(e.trip.StopTimes) == 1 && e.trip.StopTimes[0].Stop() == e.stop && e.stop.Level == e.level, "stop of the trip, and its level")
		vv.Assert(e.fare.Agency == e.agency && e.rule.Route == e.route && e.path.From_stop == e.stop && e.path.To_stop == e.stop, "references of the fare and pathway")
		// blocks
		vv.Assert(e.trip.Block_id != nil, "the trip is on a block")
		taken := false
		for _, g := range es {
			taken = taken || g != e && *g.trip.Block_id == e.id
		}
		right(1, e, *e.trip.Block_id, taken, "block")
		for _, g := range es {
			vv.Assert(g == e || *g.trip.Block_id != *e.trip.Block_id, "blocks stay apart")
		}
	}
	s, t := f.Trips["second"], f.Trips["third"]
	vv.Assert(s != nil && t != nil && t.Block_id == nil && s.Block_id != nil, "trips on a block, or not")
	vv.Assert(*s.Block_id == *es[0].trip.Block_id, "trips stay on the same block")
}
