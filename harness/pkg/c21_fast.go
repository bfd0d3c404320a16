package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// mmPerDeg is the length of a degree on the equator in millimeters.
const mmPerDeg = 111319490

// C21_fast: a trip of 3 (4) stops on the equator whose legs have one of six
// lengths, with free times (some of them missing), on every type of route.
//
//vv:cases quick=14 thorough=28 timeout=400 ttimeout=2500 nomerge=1
func C21_fast(c int) {
	types := []int16{0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 715, 101, 1302, 405}
	limits := []int{100, 150, 500, 150, 80, 30, 50, 50, 50, 150, 150, 500, 50, 150}
	ty, limit := types[c%14], limits[c%14]
	f := gtfsparser.NewFeed()
	r := addRoute(f, "r", addAgency(f, "ag"))
	r.Type = ty
	sv := addService(f, "s", 127, day(0), day(1))
	n := 3
	if c >= 14 {
		n = 4
	}
	// legs in 1/1000 degrees: 0, 4.5, 6.7, 7.8, 9.8, 11 km
	menu := []int{0, 40, 60, 70, 88, 99}
	if n == 4 {
		menu = []int{0, 40, 70, 99}
	}
	t := addTrip(f, "t", r, sv)
	pos := make([]int, n)
	at := make([]int, n) // arrival
	de := make([]int, n) // departure
	set := make([]bool, n)
	last := 0
	for i := 0; i < n; i++ {
		p := vv.N("st", i)
		if i > 0 {
			pos[i] = pos[i-1] + menu[vv.Split(vv.Int(p+"leg", 0, len(menu)-1))]
		}
		s := addStop(f, vv.N("s", i))
		s.Lat, s.Lon = 0, float32(pos[i])/1000
		set[i] = vv.Split(vv.Int(p+"set", 0, 1)) == 1
		arr, dep := noTime(), noTime()
		if set[i] {
			m := vv.Int(p+"m", 0, 58)
			dw := 0
			if i > 0 && i < n-1 {
				dw = vv.Int(p+"dwell", 0, 1)
			}
			at[i] = 8*3600 + m*60
			de[i] = at[i] + 60*dw
			arr = gtfs.Time{Hour: 8, Minute: int8(m)}
			dep = gtfs.Time{Hour: 8, Minute: int8(m + dw)}
			vv.Assume(last <= at[i])
			last = de[i]
		}
		t.StopTimes = append(t.StopTimes, stime(s, i+1, arr, dep, 0))
	}
	addTrip(f, "t2", r, sv).StopTimes = gtfs.StopTimes{stime(f.Stops["s0"], 1, hms(0), hms(0), 0)}
	addTrip(f, "t3", r, sv)
	f.Transfers[gtfs.TransferKey{From_trip: t, To_trip: f.Trips["t2"]}] = gtfs.TransferVal{Transfer_type: 4}
	f.Transfers[gtfs.TransferKey{From_stop: f.Stops["s0"], To_stop: f.Stops["s1"]}] = gtfs.TransferVal{Transfer_type: 2}
	free(f, freePlatform|freeBoarding)
	before := snap(f)

	// dist*18 > limit*secs*5000 (dist in mm), with equal times counting as a minute
	tooFast := func(m, secs int) bool {
		d := m * (mmPerDeg / 1000)
		return vv.IteInt(secs == 0, 60, secs) <= (d*18-1)/(limit*5000)
	}
	// must: too fast where stops without travel time in between count as one;
	// may: too fast between any two stops that follow each other, or over 10 km
	must, may := false, false
	for j := 0; j < n; j++ {
		for i := j + 1; i < n; i++ {
			if !set[j] || !set[i] {
				continue
			}
			cons, first := true, true
			for k := 0; k < i; k++ {
				if set[k] && k > j {
					cons = vv.And(cons, at[k] == de[j])
				}
				if set[k] && k < j {
					first = vv.And(first, at[j] != de[k])
				}
			}
			d := pos[i] - pos[j]
			f := tooFast(d, at[i]-de[j])
			may = vv.Or(may, vv.And(f, vv.Or(d >= 90, vv.And(cons, d >= 63))))
			must = vv.Or(must, vv.And(f, vv.Or(d >= 90, vv.And(cons, first, d >= 63))))
		}
	}

	vv.MapOrder(c % 2)
	processors.TooFastTripRemover{}.Run(f)

	closed(f)
	unaltered(f, before, mayDrop)
	_, ok := f.Trips["t"]
	vv.Assert(vv.Implies(ok, !must), "too fast trips are removed")
	vv.Assert(vv.Implies(!ok, may), "other trips are kept")
	vv.Assert(f.Trips["t2"] != nil && f.Trips["t3"] != nil, "other trips are kept")
	vv.Assert(len(f.Stops) == n && len(f.Routes) == 1 && len(f.Services) == 1 && len(f.Agencies) == 1, "only trips are removed")
	nt := 1
	if ok {
		nt = 2
	}
	vv.Assert(len(f.Transfers) == nt, "only transfers of removed trips are removed")
	vv.Cover("removed", !ok)
	vv.Cover("kept", ok)
	vv.ObsBool("kept", ok)
}

// C21_types: trips over two stops 8 or 11 km apart with free times, on a route of
// any type, standard or extended.
//
//vv:cases quick=3 thorough=3 timeout=300 ttimeout=600
func C21_types(c int) {
	limits := map[int16]int{0: 100, 1: 150, 2: 500, 3: 150, 4: 80, 5: 30, 6: 50, 7: 50, 11: 50, 12: 150}
	f := gtfsparser.NewFeed()
	r := addRoute(f, "r", addAgency(f, "ag"))
	var types []int16
	for i := int16(0); i <= 12; i++ {
		if i < 8 || i > 10 {
			types = append(types, i)
		}
	}
	for i := int16(100); i <= 1702; i++ {
		// the extended types in use
		if i%100 <= 17 {
			types = append(types, i)
		}
	}
	k := vv.Split(vv.Int("type", 0, (len(types)-1-c)/3))
	r.Type = types[3*k+c]
	t := addTrip(f, "t", r, addService(f, "s", 127, day(0), day(1)))
	a, b := addStop(f, "a"), addStop(f, "b")
	far := vv.Split(vv.Int("far", 0, 1))
	d := []int{72, 99}[far]
	a.Lat, a.Lon, b.Lat, b.Lon = 0, 0, 0, float32(d)/1000
	h, m := vv.Int("h", 8, 9), vv.Int("m", 0, 59)
	t.StopTimes = gtfs.StopTimes{stime(a, 1, gtfs.Time{Hour: 8}, gtfs.Time{Hour: 8}, 0), stime(b, 2, gtfs.Time{Hour: int8(h), Minute: int8(m)}, gtfs.Time{Hour: 12}, 0)}
	free(f, freePlatform|freeBoarding)
	before := snap(f)

	processors.TooFastTripRemover{}.Run(f)

	closed(f)
	unaltered(f, before, mayDrop)
	limit, known := limits[gtfs.GetTypeFromExtended(r.Type)]
	secs := (h-8)*3600 + m*60
	fast := vv.IteInt(secs == 0, 60, secs) <= (d*(mmPerDeg/1000)*18-1)/(limit*5000+vv.IteInt(known, 0, 1))
	_, ok := f.Trips["t"]
	vv.Assert(ok == vv.Or(!known, !fast), "exactly the trips over the limit of their type are removed")
	vv.Cover("removed", !ok)
	vv.Cover("kept", ok)
	vv.ObsBool("kept", ok)
}
