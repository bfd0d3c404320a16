package zz_verif

import (
	"net/mail"
	"net/url"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// C28_returns: every processor on feeds in which any optional parts are missing.
//
//vv:cases quick=56 thorough=84 timeout=200 ttimeout=2000 nomerge=1
func C28_returns(c int) {
	p := zzProcs[c%28]
	may := p.bits
	if c >= 56 {
		may = rAll
	} else if c >= 28 {
		may = rAll &^ (p.bits | rDupAg | rDupSh)
	}
	r, b := rich(may, 0)
	if vv.Tier() > 0 {
		vv.MapOrder(vv.Split(vv.Int("order", 0, 1)))
	} else {
		vv.MapOrder(c / 28 % 2)
	}
	vv.SetCPU(2)
	done := false
	p.p().Run(r.f)
	done = true
	vv.ObsInt("bits", b)
	vv.Assert(done, "it returns")
}

// C28_small: every processor on an empty feed, and on feeds with little in them.
//
//vv:cases quick=28 thorough=28 timeout=200 ttimeout=600 nomerge=1
func C28_small(c int) {
	p := zzProcs[c]
	f := gtfsparser.NewFeed()
	b := 0
	on := func(i int) bool {
		if vv.Split(vv.Int(vv.N("on", i), 0, 1)) == 0 {
			return false
		}
		b |= 1 << i
		return true
	}
	var st []*gtfs.Stop
	var a *gtfs.Agency
	n := 1
	if on(0) {
		n = 2
	}
	if on(1) {
		for i := 0; i < n; i++ {
			a = addAgency(f, vv.N("ag", i))
		}
	}
	if on(2) {
		for i := 0; i < n; i++ {
			s := addStop(f, vv.N("st", i))
			st = append(st, s)
		}
		if on(3) {
			for _, s := range st {
				s.Location_type = 1
			}
			st = nil
		}
	}
	if on(4) {
		for i := 0; i < n; i++ {
			f.Shapes[vv.N("sh", i)] = &gtfs.Shape{Id: vv.N("sh", i), Points: gtfs.ShapePoints{{Lat: 1, Lon: 1, Sequence: 1}}}
		}
	}
	if on(5) {
		for i := 0; i < n; i++ {
			s := addService(f, vv.N("sv", i), 0, gtfs.Date{}, gtfs.Date{})
			s.SetExceptionTypeOn(day(0), int8(1+i))
		}
		if on(6) {
			r := addRoute(f, "r", a)
			for i := 0; i < n; i++ {
				h := ""
				t := addTrip(f, vv.N("t", i), r, f.Services["sv0"])
				t.Headsign = &h
				if s := f.Shapes["sh0"]; s != nil {
					t.Shape = s
				}
				for k, s := range st {
					x := stime(s, k+1, hms(k), hms(k), 0)
					x.SetHeadsign(t.Headsign)
					t.StopTimes = append(t.StopTimes, x)
				}
			}
		}
	}
	vv.MapOrder(0)
	vv.SetCPU(1 + b%2*3)
	done := false
	p.p().Run(f)
	done = true
	vv.ObsInt("b", b)
	vv.Assert(done, "it returns")
}

// C28_optional: every processor on a feed of entities that are equal but for optional
// attributes, which both, one, or none of them has; case: the processor.
//
//vv:cases quick=28 thorough=28 timeout=200 ttimeout=600 nomerge=1
func C28_optional(c int) {
	r, _ := rich(0, rDupAg|rDupSe|rDupSh|rDupSt|rDupTr)
	f := r.f
	// the routes and agencies are equal now, too
	r.ro[2].Short_name, r.ro[2].Agency = r.ro[0].Short_name, r.ro[0].Agency
	r.ro[1].Agency = r.ro[0].Agency
	r.ro[1].Attributions = nil
	// which is on which: bit i for the entity number i
	g := vv.Split(vv.Int("kind", 0, 3))
	on := func(i int) (bool, bool) {
		x := vv.Split(vv.Int(vv.N("on", i), 0, 3))
		return x&1 != 0, x&2 != 0
	}
	u := func(is bool) *url.URL {
		if !is {
			return nil
		}
		return &url.URL{Scheme: "http", Host: "u.de", Path: "/x"}
	}
	str := func(is bool) *string {
		if !is {
			return nil
		}
		s := "x"
		return &s
	}
	switch g {
	case 0:
		a, b := on(0)
		r.ag[0].Url, r.ag[1].Url = u(a), u(b)
		a, b = on(1)
		r.ag[0].Fare_url, r.ag[1].Fare_url = u(a), u(b)
		a, b = on(2)
		for i, x := range []bool{a, b} {
			if x {
				r.ag[i].Email = &mail.Address{Address: "a@b.c"}
			}
		}
	case 1:
		a, b := on(0)
		r.ro[0].Url, r.ro[1].Url, r.ro[2].Url = u(a), u(b), u(b)
		a, b = on(1)
		if !a {
			r.ro[0].Agency = nil
		}
		if !b {
			r.ro[1].Agency, r.ro[2].Agency = nil, nil
		}
		a, b = on(2)
		for i, x := range []bool{a, b} {
			if x {
				r.ro[i].Attributions = append(r.ro[i].Attributions, &gtfs.Attribution{Organization_name: "org", Url: u(a && b)})
			}
			if !x {
				r.fa[i].Agency = nil
			}
		}
	case 2:
		a, b := on(0)
		r.st[1].Url, r.st[2].Url, r.st[0].Url, r.st[5].Url = u(a), u(b), u(b), u(a)
		a, b = on(1)
		for i, x := range []bool{a, b} {
			r.st[1+i].Level, r.st[5*i].Level = nil, nil
			if x {
				r.st[1+i].Level, r.st[5*i].Level = f.Levels["l0"], f.Levels["l1"]
			}
		}
		a, b = on(2)
		if !a {
			r.st[1].Parent_station = nil
		}
		if !b {
			r.st[2].Parent_station = nil
		}
	case 3:
		a, b := on(0)
		for i, x := range []bool{a, b} {
			if !x {
				r.tr[i].Shape = nil
			}
		}
		a, b = on(1)
		r.tr[0].Short_name, r.tr[1].Short_name = str(a), str(b)
		r.tr[0].Block_id, r.tr[1].Block_id = str(b), str(a)
		a, b = on(2)
		for i, x := range []bool{a, b} {
			r.tr[i].Attributions, r.tr[i].Frequencies = nil, nil
			if x {
				r.tr[i].Attributions = &[]*gtfs.Attribution{{Organization_name: "org", Email: &mail.Address{Address: "a@b.c"}}}
				r.tr[i].Frequencies = &[]*gtfs.Frequency{{Start_time: hms(36000), End_time: hms(39600), Headway_secs: 600}}
			}
		}
	}
	vv.SetCPU(2)
	done := false
	zzProcs[c].p().Run(f)
	done = true
	vv.ObsInt("kind", g)
	vv.Assert(done, "it returns")
}
