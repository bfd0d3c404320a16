package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

func sameRoute(a, b *gtfs.Route) bool {
	return vv.And(a.Agency == b.Agency, a.Short_name == b.Short_name, a.Long_name == b.Long_name,
		a.Desc == b.Desc, a.Type == b.Type, eqUrl(a.Url, b.Url), a.Color == b.Color, a.Text_color == b.Text_color,
		a.Sort_order == b.Sort_order, a.Continuous_pickup == b.Continuous_pickup,
		a.Continuous_drop_off == b.Continuous_drop_off)
}

// C08_attributes: routes with arbitrary attributes, attributions and additional
// fields; the case selects the number of routes and the iteration order of maps.
//
//vv:cases quick=3 thorough=4 timeout=250 ttimeout=1500
func C08_attributes(c int) {
	n, order := 3, c-1
	if c == 0 {
		n, order = 2, 2
	}
	ids := []string{"aaa", "b", "cc"}
	f := gtfsparser.NewFeed()
	ag, ag2 := addAgency(f, "a"), addAgency(f, "b")
	sv := addService(f, "s", 127, day(0), day(6))
	rs := make([]*gtfs.Route, n)
	orig := make([]gtfs.Route, n)
	ts := make([]*gtfs.Trip, n)
	ex := make([]string, n)
	extra := fld(f.RoutesAddFlds, "x")
	for i := 0; i < n; i++ {
		r := addRoute(f, ids[i], ag)
		k := vv.Int(vv.N("agency", i), 0, 2)
		if k == 1 {
			r.Agency = ag2
		}
		if k == 2 {
			r.Agency = nil
		}
		r.Short_name = vv.Str(vv.N("short", i), "", "A", "AB", "a", "A ")
		r.Long_name = vv.Str(vv.N("long", i), "", "B", "b", "BB")
		r.Desc = vv.Str(vv.N("desc", i), "", "B", "B ")
		r.Type = int16(vv.IntOf(vv.N("type", i), 3, 2, 700))
		r.Url = pickUrl(vv.N("url", i))
		r.Color = vv.Str(vv.N("color", i), "", "FF0000", "FF00", "ff0000")
		r.Text_color = vv.Str(vv.N("tcolor", i), "", "FF0000", "00")
		r.Sort_order = vv.Int(vv.N("sort", i), -1, 2)
		r.Continuous_pickup = int8(vv.Int(vv.N("cpick", i), 0, 3))
		r.Continuous_drop_off = int8(vv.Int(vv.N("cdrop", i), 0, 3))
		r.Attributions = []*gtfs.Attribution{{Id: vv.N("t", i)}}
		ex[i] = vv.Str(vv.N("extra", i), "", "v", "V")
		extra[r.Id] = ex[i]
		rs[i] = r
		orig[i] = *r
		ts[i] = addTrip(f, vv.N("t", i), r, sv)
	}
	vv.MapOrder(order)
	processors.RouteDuplicateRemover{}.Run(f)
	closed(f)
	vv.Cover("merged", len(f.Routes) == 1)
	vv.Cover("kept", len(f.Routes) == n)
	vv.Assert(len(f.Trips) == n && len(f.Agencies) == 2 && len(f.Services) == 1, "nothing else is removed")
	for i := 0; i < n; i++ {
		r := ts[i].Route
		vv.Assert(sameRoute(r, &orig[i]), "trip keeps an equal route")
		vv.Assert(extra[r.Id] == ex[i], "additional fields of the route are kept")
		found := 0
		for _, b := range r.Attributions {
			found += vv.IteInt(b == orig[i].Attributions[0], 1, 0)
		}
		vv.Assert(found == 1, "attribution of route is kept once")
		_, in := f.Routes[ids[i]]
		for j := i + 1; j < n; j++ {
			_, jn := f.Routes[ids[j]]
			vv.Assert(!vv.And(in, jn, sameRoute(&orig[i], &orig[j]), ex[i] == ex[j]), "no equal routes remain")
		}
		vv.ObsBool(vv.N("in", i), in)
		vv.ObsStr(vv.N("route", i), r.Id)
	}
}

// C08_fares: equal routes with arbitrary fare rules (three fares, up to four
// rules, each for any route or none and with arbitrary zones).
//
//vv:cases quick=4 thorough=8 timeout=250 ttimeout=1500
func C08_fares(c int) {
	n := 2 + c/2%2
	f := gtfsparser.NewFeed()
	ids := []string{"aaa", "b", "cc"}
	sv := addService(f, "s", 127, day(0), day(6))
	rs := make([]*gtfs.Route, n)
	ts := make([]*gtfs.Trip, n)
	for i := 0; i < n; i++ {
		rs[i] = addRoute(f, ids[i], nil)
		ts[i] = addTrip(f, vv.N("t", i), rs[i], sv)
	}
	other := addRoute(f, "other", nil)
	other.Type = 1
	addTrip(f, "tother", other, sv)
	const nf = 3 // the last one without rules
	nr := 3
	if c >= 4 || c == 1 {
		nr = 4
	}
	fas := make([]*gtfs.FareAttribute, nf)
	for i := 0; i < nf; i++ {
		fas[i] = &gtfs.FareAttribute{Id: vv.N("f", i)}
		f.FareAttributes[fas[i].Id] = fas[i]
	}
	type rule struct {
		route, orig, dest, fare int
		p                       *gtfs.FareAttributeRule
	}
	rules := make([]rule, nr)
	zones := []string{"", "z"}
	for i := 0; i < nr; i++ {
		u := &rules[i]
		u.route = vv.Int(vv.N("rroute", i), 0, n+1)
		u.orig = vv.Int(vv.N("rorig", i), 0, 1)
		u.dest = vv.Int(vv.N("rdest", i), 0, 2)
		u.fare = 0
		if i == nr-1 && c%4 != 1 {
			u.fare = 1
		}
		u.p = &gtfs.FareAttributeRule{Origin_id: vv.IteStr(u.orig == 1, zones[1], zones[0]), Contains_id: vv.IteStr(u.dest == 1, zones[1], zones[0]), Destination_id: vv.IteStr(u.dest == 2, zones[1], zones[0])}
		for k := 0; k < n; k++ {
			if u.route == k {
				u.p.Route = rs[k]
			}
		}
		if u.route == n {
			u.p.Route = other
		}
		fas[u.fare].Rules = append(fas[u.fare].Rules, u.p)
	}
	vv.MapOrder(c % 2)
	processors.RouteDuplicateRemover{}.Run(f)
	closed(f)
	vv.Cover("merged", len(f.Routes) == 2)
	for q := 0; q < nf; q++ {
		fa, ok := f.FareAttributes[fas[q].Id]
		vv.Assert(ok, "fare is kept")
		for i := 0; i <= n; i++ {
			now := other
			if i < n {
				now = ts[i].Route
			}
			for o := 0; o < 2; o++ {
				for d := 0; d < 3; d++ {
					bef, aft := false, false
					for _, u := range rules {
						bef = vv.Or(bef, vv.And(u.fare == q, vv.Or(u.route == i, u.route == n+1), u.orig == o, u.dest == d))
					}
					for _, u := range fa.Rules {
						aft = vv.Or(aft, vv.And(vv.Or(u.Route == now, u.Route == nil), u.Origin_id == zones[o], u.Contains_id == zones[d%2], u.Destination_id == zones[d/2]))
					}
					vv.Assert(vv.Iff(bef, aft), "fares of a trip are the same")
				}
			}
		}
	}
	// routes with the same rules in every fare have to be merged
	for i := 0; i < n; i++ {
		_, in := f.Routes[ids[i]]
		for j := i + 1; j < n; j++ {
			_, jn := f.Routes[ids[j]]
			same := true
			for q := 0; q < nf; q++ {
				for o := 0; o < 2; o++ {
					for d := 0; d < 3; d++ {
						ci, cj := 0, 0
						for _, u := range rules {
							here := vv.And(u.fare == q, u.orig == o, u.dest == d)
							ci += vv.IteInt(vv.And(here, u.route == i), 1, 0)
							cj += vv.IteInt(vv.And(here, u.route == j), 1, 0)
						}
						same = vv.And(same, ci == cj)
					}
				}
			}
			vv.Assert(!vv.And(same, in, jn), "no equal routes remain")
		}
	}
	for i := 0; i < n; i++ {
		vv.ObsStr(vv.N("route", i), ts[i].Route.Id)
	}
}

// C08_groups: more routes that differ in one attribute, forming any number of groups.
//
//vv:cases quick=4 thorough=8 timeout=250 ttimeout=1500
func C08_groups(c int) {
	n := 4 + c/4
	f := gtfsparser.NewFeed()
	vv.SetCPU([]int{1, 3, 2, 8}[c%4])
	sv := addService(f, "s", 127, day(0), day(6))
	var kind [5]int
	var ts [5]*gtfs.Trip
	ids := []string{"aaa", "b", "cc", "dddd", "eeeee"}
	for i := 0; i < n; i++ {
		r := addRoute(f, ids[i], nil)
		kind[i] = vv.Int(vv.N("kind", i), 0, 2)
		r.Sort_order = kind[i]
		ts[i] = addTrip(f, vv.N("t", i), r, sv)
	}
	vv.MapOrder(c % 2)
	processors.RouteDuplicateRemover{}.Run(f)
	closed(f)
	vv.Cover("two groups", vv.And(kind[0] == kind[1], kind[2] == kind[3], kind[0] != kind[2]))
	for i := 0; i < n; i++ {
		vv.Assert(ts[i].Route.Sort_order == kind[i], "trip keeps an equal route")
		for j := i + 1; j < n; j++ {
			vv.Assert(vv.Iff(kind[i] == kind[j], ts[i].Route == ts[j].Route), "no equal routes remain")
		}
		vv.ObsStr(vv.N("route", i), ts[i].Route.Id)
	}
}

// C08_transfers: equal routes with arbitrary route-specific transfers.
//
//vv:cases quick=2 thorough=2 timeout=250 ttimeout=1500
func C08_transfers(c int) {
	f := gtfsparser.NewFeed()
	sv := addService(f, "s", 127, day(0), day(6))
	sa, sb := addStop(f, "sa"), addStop(f, "sb")
	rs := []*gtfs.Route{addRoute(f, "aa", nil), addRoute(f, "b", nil), addRoute(f, "other", nil)}
	rs[2].Type = 1
	var ts [3]*gtfs.Trip
	for i := range ts {
		ts[i] = addTrip(f, vv.N("t", i), rs[i], sv)
	}
	const k = 2
	var from, to [k]int
	var val [k]gtfs.TransferVal
	extra := make(map[gtfs.TransferKey]string)
	f.TransfersAddFlds["x"] = extra
	for i := 0; i < k; i++ {
		from[i], to[i] = vv.Int(vv.N("from", i), 0, 3), vv.Int(vv.N("to", i), 0, 3)
		tk := gtfs.TransferKey{From_stop: sa, To_stop: sb}
		for j := 0; j < 3; j++ {
			if from[i] == j {
				tk.From_route = rs[j]
			}
			if to[i] == j {
				tk.To_route = rs[j]
			}
		}
		val[i] = gtfs.TransferVal{Transfer_type: 2, Min_transfer_time: 60 * (i + 1)}
		f.Transfers[tk] = val[i]
		extra[tk] = vv.N("e", i)
	}
	vv.Assume(vv.Or(from[0] != from[1], to[0] != to[1]))
	vv.MapOrder(c)
	processors.RouteDuplicateRemover{}.Run(f)
	closed(f)
	vv.Assert(len(f.Routes) == 2, "no equal routes remain")
	var nf, nt [k]int
	ref := rs[0]
	if ts[1].Route == rs[1] {
		ref = rs[1]
	}
	for i := 0; i < k; i++ {
		// endpoints after the merge: 0 and 1 are the same route
		nf[i], nt[i] = vv.IteInt(from[i] == 1, 0, from[i]), vv.IteInt(to[i] == 1, 0, to[i])
	}
	same := vv.And(nf[0] == nf[1], nt[0] == nt[1])
	for i := 0; i < k; i++ {
		tk := gtfs.TransferKey{From_stop: sa, To_stop: sb}
		if nf[i] == 0 {
			tk.From_route = ref
		}
		if nf[i] == 2 {
			tk.From_route = rs[2]
		}
		if nt[i] == 0 {
			tk.To_route = ref
		}
		if nt[i] == 2 {
			tk.To_route = rs[2]
		}
		v, ok := f.Transfers[tk]
		vv.Assert(ok, "route-specific transfer is kept")
		vv.Assert(vv.Or(v == val[i], vv.And(same, v == val[1-i])), "value of the transfer is kept")
		vv.Assert(vv.Or(extra[tk] == vv.N("e", i), vv.And(same, extra[tk] == vv.N("e", 1-i))), "additional fields of the transfer are kept")
	}
	vv.Assert(len(f.Transfers) == vv.IteInt(same, 1, 2), "no other transfers")
	vv.ObsInt("transfers", len(f.Transfers))
}
