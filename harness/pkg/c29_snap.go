package zz_verif

import (
	"math"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// C29_snap: two trips over free stops near or far from their shape, with or without
// measures.
//
//vv:cases quick=6 thorough=24 timeout=300 ttimeout=2500
func C29_snap(c int) {
	f := gtfsparser.NewFeed()
	nan := float32(math.NaN())
	const max = 100.0
	// straight, there and back, ring, one point, equal points, two points
	course := [][][2]float64{
		{{0, 0}, {400, 0}, {1000, 0}, {1500, 0}},
		{{0, 0}, {500, 0}, {1000, 0}, {500, 5}, {0, 5}},
		{{0, 0}, {700, 0}, {700, 700}, {0, 700}, {0, 0}},
		{{400, 0}},
		{{0, 0}, {0, 0}, {0, 0}, {400, 0}, {1500, 0}},
		{{0, 0}, {1500, 0}},
	}[c%6]
	s := &gtfs.Shape{Id: "s"}
	f.Shapes["s"] = s
	measured := vv.Split(vv.Int("measured", 0, 1)) == 1
	ms := make([]float64, len(course))
	d := 0.0
	for i, p := range course {
		if i > 0 {
			q := course[i-1]
			d += math.Sqrt((p[0]-q[0])*(p[0]-q[0]) + (p[1]-q[1])*(p[1]-q[1]))
		}
		ms[i] = d
		m := float32(d)
		if !measured {
			m = nan
		}
		s.Points = append(s.Points, gtfs.ShapePoint{Lat: float32(p[1] * degPerM), Lon: float32(p[0] * degPerM), Sequence: uint32(i), Dist_traveled: m})
	}
	r := addRoute(f, "r", addAgency(f, "ag"))
	sv := addService(f, "sv", 127, day(0), day(1))
	par := addStop(f, "par")
	par.Location_type = 1
	places := [][2]float64{{400, 50}, {200, -150}, {700, 300}}
	if c%6 == 2 {
		places[1] = [2]float64{50, 400} // near the last side of the ring
		places[2] = [2]float64{150, 420}
	}
	lv := &gtfs.Level{Id: "lv", Index: 1, Name: "L"}
	f.Levels["lv"] = lv
	ids := [][]string{{"a", "1#a", "b"}, {"a", "b", "1#1#b"}}[c/6%2]
	var stops []*gtfs.Stop
	for i, id := range ids {
		p := vv.N("st", i)
		pl := places[vv.Split(vv.Int(p, 0, len(places)-1))]
		st := addStop(f, id)
		st.Lat, st.Lon = float32(pl[1]*degPerM), float32(pl[0]*degPerM)
		st.Name = vv.Str(p+"name", "N", "M")
		st.Code, st.Desc, st.Zone_id, st.Platform_code = "c", "d", "z", "p"
		if i != 1 {
			st.Level = lv
		}
		st.Wheelchair_boarding = int8(vv.Int(p+"wh", 0, 2))
		st.Url = pickUrl(p + "url")
		if i == 0 {
			st.Parent_station = par
		}
		stops = append(stops, st)
	}
	t := addTrip(f, "t", r, sv)
	t.Shape = s
	for i, k := range []int{0, 1, 2, 0}[:3+c/12] {
		p := vv.N("x", i)
		m := nan
		switch vv.Split(vv.Int(p+"m", 0, 2)) {
		case 1:
			m = []float32{0, 400, 500, 1500}[i]
		case 2:
			m = []float32{100, 900, 1000, 9000}[i]
		}
		x := stime(stops[k], i+1, hms(60*i), hms(60*i+30), m)
		x.SetPickup_type(uint8(vv.Int(p+"pick", 0, 3)))
		x.SetDrop_off_type(uint8(vv.Int(p+"drop", 0, 3)))
		t.StopTimes = append(t.StopTimes, x)
	}
	u := addTrip(f, "u", r, sv)
	u.StopTimes = gtfs.StopTimes{stime(stops[0], 1, hms(0), hms(0), nan), stime(stops[1], 2, hms(60), hms(60), 700)}
	w := addTrip(f, "w", r, sv)
	w.Shape = s
	w.StopTimes = gtfs.StopTimes{stime(stops[0], 1, hms(0), hms(0), nan), stime(stops[1], 2, hms(60), hms(60), nan)}
	addTrip(f, "v", r, sv).Shape = s
	f.Transfers[gtfs.TransferKey{From_stop: stops[0], To_stop: stops[1]}] = gtfs.TransferVal{Transfer_type: 1}
	before := snap(f)
	vv.MapOrder(c / 6 % 2)

	processors.ShapeSnapper{MaxDist: max}.Run(f)

	closed(f)
	unaltered(f, before, mayTimes|mayAdd)
	xy := func(s *gtfs.Stop) (float64, float64) { return float64(s.Lon) / degPerM, float64(s.Lat) / degPerM }
	off := func(s *gtfs.Stop) float64 {
		x, y := xy(s)
		best := math.Inf(1)
		for i := range course {
			j := i - 1
			if i == 0 {
				j = 0
			}
			best = math.Min(best, segDist(x, y, course[j][0], course[j][1], course[i][0], course[i][1]))
		}
		return best
	}
	was := func(s *gtfs.Stop) bool {
		for _, o := range before.st {
			if o == s {
				return true
			}
		}
		return false
	}
	created := 0
	for i, x := range before.tr {
		vv.Assert(len(x.StopTimes) == len(before.trT[i]), "stop times are kept")
		if len(x.StopTimes) != len(before.trT[i]) {
			continue
		}
		for j := range x.StopTimes {
			a, b := &x.StopTimes[j], &before.trT[i][j]
			o, n := b.Stop(), a.Stop()
			vv.Assert(vv.And(a.Arrival_time() == b.Arrival_time(), a.Departure_time() == b.Departure_time(), a.Headsign() == b.Headsign(), a.Sequence() == b.Sequence(), a.Timepoint() == b.Timepoint(), a.Pickup_type() == b.Pickup_type(), a.Drop_off_type() == b.Drop_off_type(), eqDist(a.Shape_dist_traveled(), b.Shape_dist_traveled())), "stop times keep all but their stop")
			// distance to its place on the shape
			d := off(o)
			if m := float64(b.Shape_dist_traveled()); measured && m == m {
				for k := 1; k < len(course); k++ {
					if ms[k-1] <= m && m <= ms[k] && ms[k-1] < ms[k] {
						p, q := course[k-1], course[k]
						g := (m - ms[k-1]) / (ms[k] - ms[k-1])
						x, y := xy(o)
						d = math.Max(d, math.Hypot(x-p[0]-g*(q[0]-p[0]), y-p[1]-g*(q[1]-p[1])))
					}
				}
			}
			if n == o {
				// a stop far off everywhere, of a trip without measures to go by
				vv.Assert(x.Shape == nil || off(o) < max+2, "stops far off are snapped")
				continue
			}
			created++
			vv.Assert(x.Shape != nil, "trips without shape keep their stops")
			vv.Assert(d > max-2, "stops near their shape are kept")
			vv.Assert(!was(n), "stop times move to new stops")
			vv.Assert(off(n) < 2, "new stops are on the shape")
			if m := b.Shape_dist_traveled(); !measured || m != m {
				x1, y1 := xy(n)
				x0, y0 := xy(o)
				vv.Assert(math.Hypot(x1-x0, y1-y0) < off(o)+2, "without measures stops move to the nearest place on the shape")
			}
			vv.Assert(vv.And(n.Name == o.Name, n.Code == o.Code, n.Desc == o.Desc, n.Zone_id == o.Zone_id, n.Url == o.Url, n.Location_type == o.Location_type, n.Parent_station == o.Parent_station, n.Wheelchair_boarding == o.Wheelchair_boarding, n.Level == o.Level, n.Platform_code == o.Platform_code, n.Timezone == o.Timezone), "new stops are like the old ones")
		}
	}
	vv.Assert(len(f.Stops) == len(before.st)+created, "a stop is added for every stop time that is moved")
	vv.Cover("snapped", created > 0)
	vv.Cover("kept", created == 0)
	vv.ObsInt("created", created)
}
