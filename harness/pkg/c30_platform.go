package zz_verif

import (
	"math"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

func surroundings(f *gtfsparser.Feed, stops []*gtfs.Stop) {
	r := addRoute(f, "r", addAgency(f, "ag"))
	t := addTrip(f, "t", r, addService(f, "s", 127, day(0), day(1)))
	for i, s := range stops {
		t.StopTimes = append(t.StopTimes, stime(s, i+1, hms(i), hms(i), 0))
	}
	f.Transfers[gtfs.TransferKey{From_stop: stops[0], To_stop: stops[1]}] = gtfs.TransferVal{Transfer_type: 1}
	f.Pathways["p"] = &gtfs.Pathway{Id: "p", From_stop: stops[1], To_stop: stops[2]}
	fld(f.StopsAddFlds, "x")["s0"] = "v"
}

// C30_platform: five stops with free types, parents, codes and platform codes.
//
//vv:cases quick=1 thorough=3 timeout=300 ttimeout=2500
func C30_platform(c int) {
	f := gtfsparser.NewFeed()
	st := addStop(f, "st")
	st.Location_type = 1
	st.Platform_code = vv.Str("plst", "", "1")
	stops := []*gtfs.Stop{}
	for i := 0; i < 4; i++ {
		p := vv.N("s", i)
		s := addStop(f, p)
		s.Location_type = int8(vv.Split(vv.Int(p+"type", 0, 2)))
		if i == 3 && stops[0].Location_type == 0 {
			// a boarding area
			s.Location_type = 4
			s.Parent_station = stops[0]
		} else if s.Location_type == 2 || s.Location_type == 0 && vv.Split(vv.Int(p+"par", 0, 1)) == 1 {
			s.Parent_station = st
		}
		s.Code = vv.Str(p+"code", "", "1")
		s.Platform_code = vv.Str(p+"pl", "", "1", "A2")
		s.Name = "Name"
		s.Desc = vv.Str(p+"desc", "", "1")
		stops = append(stops, s)
	}
	surroundings(f, stops)
	before := snap(f)
	vv.MapOrder(c)
	processors.PlatformCodeDropper{}.Run(f)
	closed(f)
	unaltered(f, before, mayPlat)
	for i, s := range before.st {
		v := &before.stV[i]
		vv.Assert(s.Parent_station == nil || s.Platform_code == v.Platform_code, "platform codes of stops with parents are kept")
		vv.Assert(s.Parent_station != nil || s.Platform_code == "", "platform codes of stops without parents are dropped")
	}
	vv.Cover("kept", stops[0].Platform_code == "1")
	vv.Cover("dropped", vv.And(stops[0].Platform_code == "", before.stV[1].Platform_code != ""))
	vv.Assert(f.StopsAddFlds["x"]["s0"] == "v", "additional fields are kept")
}

// C30_average: two stations and four other stops on a grid near the equator.
//
//vv:cases quick=4 thorough=12 timeout=300 ttimeout=2500
func C30_average(c int) {
	f := gtfsparser.NewFeed()
	max := []float64{100, 100, 50, 300}[c%4]
	st, st2 := addStop(f, "st"), addStop(f, "st2")
	st.Location_type, st2.Location_type = 1, 1
	// 1/1024 degree is 108.7 m
	grid := []float32{0, 1.0 / 1024, 4.0 / 1024}
	if c >= 4 {
		grid = []float32{0, 1.0 / 2048, 1.0 / 1024, 2.0 / 1024, 4.0 / 1024}
	}
	pos := func(s *gtfs.Stop, p string) {
		s.Lat, s.Lon = 0, grid[vv.Split(vv.Int(p+"lon", 0, len(grid)-1))]
		if c%4 == 1 {
			s.Lat, s.Lon = s.Lon, s.Lat
		}
	}
	st2.Lat, st2.Lon = 0, grid[1]
	pos(st, "st")
	stops := []*gtfs.Stop{}
	for i := 0; i < 4; i++ {
		p := vv.N("s", i)
		s := addStop(f, p)
		s.Lat, s.Lon = 0, grid[1]
		if i == 3 {
			s.Parent_station = st2
		} else if i == 0 || vv.Split(vv.Int(p+"par", 0, 1)) == 1 {
			s.Parent_station = st
			pos(s, p)
			if i > 0 && c%4 == 2 && vv.Split(vv.Int(p+"lat", 0, 1)) == 1 {
				s.Lat = 1.0 / 1024
			}
			s.Location_type = int8(i)
		}
		stops = append(stops, s)
	}
	surroundings(f, stops)
	free(f, freePlatform|freeBoarding)
	before := snap(f)
	vv.MapOrder(c / 4 % 3)
	processors.StopParentAverager{MaxDist: max}.Run(f)
	closed(f)
	unaltered(f, before, mayMove)
	old := func(s *gtfs.Stop) *gtfs.Stop {
		for i, x := range before.st {
			if x == s {
				return &before.stV[i]
			}
		}
		return nil
	}
	for _, s := range before.st {
		if s != st {
			vv.Assert(samePos(s, old(s)), "only far away stations are moved")
		}
	}
	n, lat, lon, far := 0, 0.0, 0.0, false
	o := old(st)
	for _, s := range stops {
		if s.Parent_station == st {
			n++
			lat += float64(s.Lat)
			lon += float64(s.Lon)
			d := metersTo(float64(o.Lat), float64(o.Lon), float64(s.Lat), float64(s.Lon))
			vv.Assume(math.Abs(d-max) > 0.001)
			far = far || d > max
		}
	}
	lat, lon = lat/float64(n), lon/float64(n)
	farAvg := false
	for _, s := range stops {
		if s.Parent_station == st {
			d := metersTo(lat, lon, float64(s.Lat), float64(s.Lon))
			vv.Assume(math.Abs(d-max) > 0.001)
			farAvg = farAvg || d > max
		}
	}
	moved := !samePos(st, o)
	vv.Assert(!moved || far, "only far away stations are moved")
	if moved {
		vv.Assert(math.Abs(float64(st.Lat)-lat) < 1e-7 && math.Abs(float64(st.Lon)-lon) < 1e-7, "stations are moved to the average of their children")
	}
	vv.Assert(!moved || !farAvg, "stations are only moved to where they are close to all children")
	if far && !farAvg {
		vv.Assert(math.Abs(float64(st.Lat)-lat) < 1e-7 && math.Abs(float64(st.Lon)-lon) < 1e-7, "far away stations are moved to the average of their children")
	}
	vv.Cover("moved", moved)
	vv.Cover("far but kept", far && !moved)
	vv.Cover("kept", !moved)
	vv.ObsBool("moved", moved)
}
