package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// run is a single run of a trip, with its times in seconds (-1 if there are none).
type run struct {
	t       gtfs.Trip
	st      []gtfs.StopTime
	at      []int
	add     []string
	nonex   bool
	isTrip  bool // run of a trip without frequencies
	headway int
}

func secs(t gtfs.Time) int {
	if t.Hour < 0 {
		return -1
	}
	return int(t.Hour)*3600 + int(t.Minute)*60 + int(t.Second)
}

func runsOf(f *gtfsparser.Feed) (ret []run) {
	for _, t := range f.Trips {
		if len(t.StopTimes) == 0 {
			continue
		}
		ref := secs(t.StopTimes[0].Departure_time())
		add := func(shift int, r run) {
			r.t = *t
			r.st = append([]gtfs.StopTime{}, t.StopTimes...)
			r.add = append(r.add, f.TripsAddFlds["x"][t.Id])
			for i := range t.StopTimes {
				a, d := secs(t.StopTimes[i].Arrival_time()), secs(t.StopTimes[i].Departure_time())
				if a >= 0 {
					a, d = a+shift, d+shift
				}
				r.at = append(r.at, a, d)
				r.add = append(r.add, f.StopTimesAddFlds["x"][t.Id][t.StopTimes[i].Sequence()])
			}
			ret = append(ret, r)
		}
		if t.Frequencies == nil || len(*t.Frequencies) == 0 {
			add(0, run{isTrip: true})
			continue
		}
		for _, q := range *t.Frequencies {
			for s := secs(q.Start_time); s < secs(q.End_time); s += q.Headway_secs {
				add(s-ref, run{nonex: !q.Exact_times, headway: q.Headway_secs})
			}
		}
	}
	return ret
}

func sameRun(a, b *run) bool {
	if len(a.at) != len(b.at) {
		return false
	}
	ok := true
	for i := range a.at {
		if a.at[i] != b.at[i] {
			return false
		}
	}
	x, y := &a.t, &b.t
	ok = vv.And(x.Route == y.Route, x.Service == y.Service, eqStrP(x.Headsign, y.Headsign), eqStrP(x.Short_name, y.Short_name), eqStrP(x.Block_id, y.Block_id), x.Shape == y.Shape, x.Direction_id == y.Direction_id, x.Wheelchair_accessible == y.Wheelchair_accessible, x.Bikes_allowed == y.Bikes_allowed, sameAttrsP(x.Attributions, y.Attributions))
	for i := range a.st {
		p, q := &a.st[i], &b.st[i]
		pd, qd := p.Shape_dist_traveled(), q.Shape_dist_traveled()
		ok = vv.And(ok, p.Stop() == q.Stop(), p.Headsign() == q.Headsign(), p.Timepoint() == q.Timepoint(), p.Pickup_type() == q.Pickup_type(), p.Drop_off_type() == q.Drop_off_type(), p.Continuous_pickup() == q.Continuous_pickup(), p.Continuous_drop_off() == q.Continuous_drop_off())
		ok = vv.And(ok, vv.Or(vv.And(pd != pd, qd != qd), vv.And(pd-qd < 0.1, qd-pd < 0.1)))
	}
	for i := range a.add {
		ok = vv.And(ok, a.add[i] == b.add[i])
	}
	return ok
}

// freqTrip is a trip over three stops that starts at (minute) m.
func freqTrip(f *gtfsparser.Feed, id string, stops []*gtfs.Stop, m int) *gtfs.Trip {
	t := addTrip(f, id, f.Routes["r"], f.Services["s"])
	t.Headsign = &hsign
	for i, s := range stops {
		at := 8*3600 + m*60 + i*300
		dw := 30
		if i == 0 {
			dw = 0
		}
		x := stime(s, 2*i+1, hms(at), hms(at+dw), float32(i))
		x.SetHeadsign(&hsign)
		t.StopTimes = append(t.StopTimes, x)
	}
	return t
}

var hsign, hsign2 = "to", "elsewhere"

// vary changes attribute a of t.
func vary(f *gtfsparser.Feed, t *gtfs.Trip, a int) {
	st := &t.StopTimes[1]
	switch a {
	case 0:
		t.Headsign = &hsign2
	case 1:
		t.Short_name = &hsign2
	case 2:
		t.Direction_id = 1
	case 3:
		t.Block_id = &hsign2
	case 4:
		t.Shape = f.Shapes["sh"]
	case 5:
		t.Wheelchair_accessible = 1
	case 6:
		t.Bikes_allowed = 2
	case 7:
		t.Attributions = &[]*gtfs.Attribution{f.Attributions[0]}
	case 8:
		f.TripsAddFlds["x"][t.Id] = "v"
	case 9:
		f.StopTimesAddFlds["x"][t.Id] = map[int]string{t.StopTimes[1].Sequence(): "v"}
	case 10:
		t.Route = f.Routes["r2"]
	case 11:
		t.Service = f.Services["s2"]
	case 12:
		st.SetStop(f.Stops["d"])
	case 13:
		for i := range t.StopTimes {
			t.StopTimes[i].SetHeadsign(&hsign2)
		}
	case 14:
		st.SetPickup_type(2)
	case 15:
		st.SetDrop_off_type(1)
	case 16:
		st.SetContinuous_pickup(1)
	case 17:
		st.SetContinuous_drop_off(2)
	case 18:
		st.SetTimepoint(true)
	case 19:
		st.SetShape_dist_traveled(1.5)
	case 20: // not dist of its own
		st.SetShape_dist_traveled(nanF)
	case 21: // arrives later
		st.SetArrival_time(hms(secs(st.Arrival_time()) + 10))
	case 22: // departs later
		st.SetDeparture_time(hms(secs(st.Departure_time()) + 10))
	case 23: // stays at the first stop
		t.StopTimes[0].SetDeparture_time(hms(secs(t.StopTimes[0].Departure_time()) + 60))
	case 24: // stays longer at all stops
		for i := range t.StopTimes {
			t.StopTimes[i].SetDeparture_time(hms(secs(t.StopTimes[i].Departure_time()) + 60))
		}
	case 25: // no time
		st.SetArrival_time(noTime())
		st.SetDeparture_time(noTime())
	case 26: // a stop less
		t.StopTimes = t.StopTimes[:2]
	case 27: // other sequence numbers and additional fields
		for i := range t.StopTimes {
			t.StopTimes[i].SetSequence(i + 1)
		}
		f.StopTimesAddFlds["x"][t.Id] = map[int]string{1: "v"}
	case 28: // late at the end
		l := &t.StopTimes[len(t.StopTimes)-1]
		l.SetArrival_time(hms(secs(l.Arrival_time()) + 60))
		l.SetDeparture_time(hms(secs(l.Departure_time()) + 60))
	case 29: // slightly different distance
		st.SetShape_dist_traveled(1.006)
	case 30:
		st.SetShape_dist_traveled(1.012)
	}
}

const variations = 31

var nanF = func() float32 { var z float32; return z / z }()

func freqFeed() (*gtfsparser.Feed, []*gtfs.Stop) {
	f := gtfsparser.NewFeed()
	a := addAgency(f, "ag")
	addRoute(f, "r", a)
	addRoute(f, "r2", a)
	addService(f, "s", 127, day(0), day(1))
	addService(f, "s2", 127, day(0), day(1))
	f.Shapes["sh"] = &gtfs.Shape{Id: "sh", Points: gtfs.ShapePoints{{Lat: 1}, {Lat: 2, Sequence: 1}}}
	f.Attributions = append(f.Attributions, &gtfs.Attribution{Id: "at"})
	f.TripsAddFlds["empty"] = map[string]string{}
	f.StopTimesAddFlds["empty"] = map[string]map[int]string{}
	f.TripsAddFlds["x"] = map[string]string{}
	f.StopTimesAddFlds["x"] = map[string]map[int]string{}
	var stops []*gtfs.Stop
	for _, id := range []string{"a", "b", "c", "d"} {
		stops = append(stops, addStop(f, id))
	}
	return f, stops[:3]
}

// freqSearch runs the search and checks all runs, and the frequencies (strict).
func freqSearch(f *gtfsparser.Feed, min, max int, strict bool) {
	was := runsOf(f)
	old := make(map[*gtfs.Frequency]bool)
	nonex := []int{}
	for _, t := range f.Trips {
		if t.Frequencies != nil {
			for _, q := range *t.Frequencies {
				old[q] = true
				if !q.Exact_times {
					nonex = append(nonex, q.Headway_secs)
				}
			}
		}
	}
	ntrips := len(f.Trips)
	processors.FrequencyMinimizer{MinHeadway: min, MaxHeadway: max}.Run(f)
	closed(f)
	now := runsOf(f)
	sum := 0
	for i := range now {
		for _, x := range now[i].at {
			sum += x
		}
	}
	vv.ObsInt("runs", len(now))
	vv.ObsInt("times", sum)
	vv.Cover("compressed", len(f.Trips) < ntrips)
	vv.Cover("not compressed", len(f.Trips) == ntrips)
	if !strict {
		vv.Assert(len(was) == len(now), "the number of runs stays")
	}
	for i := range was {
		a, b := 0, 0
		for j := range was {
			if !strict || was[j].nonex == was[i].nonex {
				a += vv.IteInt(sameRun(&was[i], &was[j]), 1, 0)
			}
		}
		for j := range now {
			if !strict || now[j].nonex == was[i].nonex {
				b += vv.IteInt(sameRun(&was[i], &now[j]), 1, 0)
			}
		}
		if strict {
			vv.Assert(!was[i].nonex || a == b, "runs of non-exact frequencies stay non-exact")
			vv.Assert(was[i].nonex || a == b, "runs of trips and exact frequencies stay exact")
		} else {
			vv.Assert(a == b, "every run stays")
		}
	}
	if !strict {
		return
	}
	for _, t := range f.Trips {
		if t.Frequencies == nil {
			continue
		}
		for _, q := range *t.Frequencies {
			if old[q] {
				continue
			}
			vv.Assert(secs(q.Start_time) >= 0 && q.Start_time.Minute >= 0 && q.Start_time.Minute < 60 && q.Start_time.Second >= 0 && q.Start_time.Second < 60 && q.End_time.Minute >= 0 && q.End_time.Minute < 60 && q.End_time.Second >= 0 && q.End_time.Second < 60, "times are well formed")
			vv.Assert(secs(q.Start_time) < secs(q.End_time), "the start is before the end")
			vv.Assert(q.Headway_secs > 0, "the headway is positive")
			ok := min <= q.Headway_secs && q.Headway_secs <= max
			for _, h := range nonex {
				ok = ok || !q.Exact_times && h == q.Headway_secs
			}
			vv.Assert(ok, "the headway is within the limits")
		}
	}
}

// limits are the headways allowed.
func limits(c int) (int, int) {
	return []int{1, 600, 601}[c%3], []int{86400, 900, 1199}[c%3]
}

func freqStarts(c int, strict bool) {
	f, stops := freqFeed()
	min, max := limits(c)
	n, slots := 4, []int{0, 10, 20, 30, 45}
	if c >= 3 {
		n = 5
	}
	if c%3 == 2 {
		slots = []int{0, 11, 22, 40, 1000}
	}
	ids := []string{"t", "t_2", "u", "t_3", "w"}
	last := 0
	for i := 0; i < n; i++ {
		k := vv.Split(vv.Int(vv.N("start", i), 0, len(slots)-1))
		if i > 1 && n == 5 {
			vv.Assume(k >= last)
		}
		last = k
		t := freqTrip(f, ids[i], stops, slots[k])
		if c%3 == 1 {
			vary(f, t, 25) // a missing time
		}
	}
	// trips of another route whose IDs look like those of new trips
	for i, id := range []string{"t_4", "u_2"} {
		t := freqTrip(f, id, stops, 100+i*100)
		vary(f, t, 10)
	}
	vv.MapOrder([]int{0, 1, 2}[c/3%3])
	vv.SetCPU(1 + c%2)
	freqSearch(f, min, max, strict)
}

func freqVaried(c int, strict bool) {
	f, stops := freqFeed()
	n := 3 + c/12
	for i := 0; i < n; i++ {
		freqTrip(f, vv.N("t", i), stops, []int{0, 10, 20, 30}[i])
	}
	a := c%4*8 + vv.Split(vv.Int("attr", 0, 7))
	vv.Assume(a < variations)
	b := a
	switch a {
	case 27:
		b = 9
	case 29:
		b = 30
	case 9, 14, 22:
		b = a + 1
	}
	for i := 0; i < n; i++ {
		switch vv.Split(vv.Int(vv.N("v", i), 0, 2)) {
		case 1:
			vary(f, f.Trips[vv.N("t", i)], a)
		case 2:
			if a != b {
				vary(f, f.Trips[vv.N("t", i)], b)
			} else {
				vv.Assume(false)
			}
		}
	}
	vv.MapOrder([]int{0, 1, 2}[c/4%3])
	freqSearch(f, 1, 86400, strict)
}

func freqFreqs(c int, strict bool) {
	f, stops := freqFeed()
	min, max := limits(c)
	add := func(t *gtfs.Trip, from, to, headway int, exact bool) {
		if t.Frequencies == nil {
			t.Frequencies = &[]*gtfs.Frequency{}
		}
		*t.Frequencies = append(*t.Frequencies, &gtfs.Frequency{Start_time: hms(8*3600 + from*60), End_time: hms(8*3600 + to*60), Headway_secs: headway * 60, Exact_times: exact})
	}
	for i := 0; i < 3; i++ {
		k := vv.Split(vv.Int(vv.N("kind", i), 0, 10))
		m := 0
		if k < 4 {
			m = []int{0, 10, 20, 40}[k]
		}
		t := freqTrip(f, vv.N("t", i), stops, m)
		if c%3 == 1 && i > 0 {
			vary(f, t, 25)
		}
		if c%3 == 2 {
			vary(f, t, 23)
		}
		switch k {
		case 4:
			add(t, 0, 30, 10, true)
		case 5:
			add(t, 30, 60, 10, true)
		case 6:
			add(t, 0, 5, 10, true)
		case 7:
			add(t, 0, 30, 10, false)
		case 8:
			add(t, 20, 45, 12, false)
		case 9:
			add(t, 10, 15, 10, false)
		case 10:
			add(t, 0, 20, 10, true)
			add(t, 20, 20, 10, true)
			add(t, 30, 50, 15, false)
		}
	}
	vv.MapOrder([]int{0, 1, 2}[c/3%3])
	freqSearch(f, min, max, strict)
}

// freqAny: equal trips at any second within hours, with free times at the stops and
// free limits.
func freqAny(c int, strict bool) {
	f, stops := freqFeed()
	ids := []string{"t", "t_2", "u", "t_3", "w"}
	n := 3
	if c == 2 {
		n = 4
	}
	dwell := vv.Int("dwell", 0, 100)
	ride := vv.Int("ride", 0, 4000)
	for i := 0; i < n; i++ {
		anyTrip(f, ids[i], stops, vv.Int(vv.N("start", i), 0, 28800), dwell, ride)
	}
	min, max := 1, 86400
	if c == 1 {
		min = vv.Int("min", 1, 3600)
		max = vv.Int("max", 1, 86400)
	}
	freqSearch(f, min, max, strict)
}

func anyTrip(f *gtfsparser.Feed, id string, stops []*gtfs.Stop, k, dwell, ride int) *gtfs.Trip {
	t := addTrip(f, id, f.Routes["r"], f.Services["s"])
	t.Headsign = &hsign
	for j, s := range stops {
		at := 8*3600 + k + j*ride
		x := stime(s, 2*j+1, hms(at), hms(at+dwell), float32(j))
		x.SetHeadsign(&hsign)
		t.StopTimes = append(t.StopTimes, x)
	}
	return t
}

// freqWindows: a trip at any time besides one or two with frequencies of free windows
// and headways.
func freqWindows(c int, strict bool) {
	f, stops := freqFeed()
	dwell := vv.Int("dwell", 0, 100)
	anyTrip(f, "t", stops, vv.Int("start", 0, 7200), dwell, 600)
	n := 1 + c/4
	for i := 0; i < n; i++ {
		t := anyTrip(f, vv.N("f", i), stops, 0, dwell, 600)
		from := 8*3600 + vv.Int(vv.N("from", i), 0, 7200)
		h := vv.Int(vv.N("headway", i), 60, 1800)
		runs := 1 + vv.Split(vv.Int(vv.N("runs", i), 0, 2))
		to := from + runs*h - vv.Int(vv.N("less", i), 0, 59)
		t.Frequencies = &[]*gtfs.Frequency{{Start_time: hms(from), End_time: hms(to), Headway_secs: h, Exact_times: (c>>i)&1 == 0}}
	}
	freqSearch(f, 1, 86400, strict)
}
