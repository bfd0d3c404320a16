package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

func sameAgency(a, b *gtfs.Agency) bool {
	return vv.And(a.Name == b.Name, eqUrl(a.Url, b.Url), a.Timezone == b.Timezone, a.Lang == b.Lang,
		a.Phone == b.Phone, eqUrl(a.Fare_url, b.Fare_url), eqMail(a.Email, b.Email))
}

// C09_agencies: agencies with arbitrary attributes. The case selects the number
// of agencies and the iteration order of maps.
//
//vv:cases quick=3 thorough=4 timeout=200 ttimeout=1500
func C09_agencies(c int) {
	n, order := 3, c-1
	if c == 0 {
		n, order = 2, 2
	}
	ids := []string{"aaa", "b", "cc"}
	f := gtfsparser.NewFeed()
	as := make([]*gtfs.Agency, n)
	orig := make([]gtfs.Agency, n)
	extra := fld(f.AgenciesAddFlds, "x")
	ex := make([]string, n)
	att := make([]*gtfs.Attribution, n)
	for i := 0; i < n; i++ {
		a := addAgency(f, ids[i])
		a.Name = vv.Str(vv.N("name", i), "N", "M", "n", "N1", "N ")
		a.Url = pickUrl(vv.N("url", i))
		a.Timezone = tzOf(vv.Bool(vv.N("tz", i)))
		a.Lang = langOf(vv.Bool(vv.N("lang", i)))
		a.Phone = vv.Str(vv.N("phone", i), "", "1", "1 ", "10")
		a.Fare_url = pickUrl(vv.N("fareurl", i))
		a.Email = pickMail(vv.N("email", i))
		att[i] = &gtfs.Attribution{Id: vv.N("t", i)}
		if vv.Bool(vv.N("hasatt", i)) {
			a.Attributions = []*gtfs.Attribution{att[i]}
		}
		ex[i] = vv.Str(vv.N("extra", i), "", "v", "V")
		extra[a.Id] = ex[i]
		as[i] = a
		orig[i] = *a
	}
	rt := make([]*gtfs.Route, n)
	fa := make([]*gtfs.FareAttribute, n)
	for i := 0; i < n; i++ {
		rt[i] = addRoute(f, vv.N("r", i), as[i])
		fa[i] = &gtfs.FareAttribute{Id: vv.N("f", i), Agency: as[i]}
		f.FareAttributes[fa[i].Id] = fa[i]
	}
	rt0 := addRoute(f, "rx", nil)
	vv.MapOrder(order)
	processors.AgencyDuplicateRemover{}.Run(f)
	closed(f)
	vv.Assert(rt0.Agency == nil, "route without agency stays without")
	vv.Cover("merged", len(f.Agencies) == 1)
	for i := 0; i < n; i++ {
		vv.Assert(sameAgency(rt[i].Agency, &orig[i]), "route keeps an equal agency")
		vv.Assert(sameAgency(fa[i].Agency, &orig[i]), "fare keeps an equal agency")
		vv.Assert(extra[rt[i].Agency.Id] == ex[i], "additional fields of the agency are kept")
		for _, a := range orig[i].Attributions {
			found := 0
			for _, b := range rt[i].Agency.Attributions {
				found += vv.IteInt(a == b, 1, 0)
			}
			vv.Assert(found == 1, "attribution of agency is kept once")
		}
	}
	for i := 0; i < n; i++ {
		_, in := f.Agencies[ids[i]]
		if in {
			vv.Assert(sameAgency(as[i], &orig[i]), "remaining agency is unchanged")
		}
		for j := i + 1; j < n; j++ {
			_, jn := f.Agencies[ids[j]]
			vv.Assert(!vv.And(in, jn, sameAgency(as[i], as[j]), ex[i] == ex[j]), "no equal agencies remain")
		}
		vv.ObsBool(vv.N("in", i), in)
		vv.ObsStr(vv.N("agency", i), rt[i].Agency.Id)
	}
}

// C09_groups: more agencies that differ in one attribute, forming any number of groups.
//
//vv:cases quick=4 thorough=8 timeout=250 ttimeout=1500
func C09_groups(c int) {
	n := 4 + c/4
	f := gtfsparser.NewFeed()
	var kind [5]string
	var rt [5]*gtfs.Route
	ids := []string{"aaa", "b", "cc", "dddd", "eeeee"}
	for i := 0; i < n; i++ {
		a := addAgency(f, ids[i])
		kind[i] = vv.Str(vv.N("kind", i), "a", "b", "c")
		a.Name = kind[i]
		rt[i] = addRoute(f, vv.N("r", i), a)
	}
	vv.SetCPU([]int{1, 3, 2, 8}[c%4])
	vv.MapOrder(c % 2)
	processors.AgencyDuplicateRemover{}.Run(f)
	closed(f)
	vv.Cover("two groups", vv.And(kind[0] == kind[1], kind[2] == kind[3], kind[0] != kind[2]))
	for i := 0; i < n; i++ {
		vv.Assert(rt[i].Agency.Name == kind[i], "route keeps an equal agency")
		for j := i + 1; j < n; j++ {
			vv.Assert(vv.Iff(kind[i] == kind[j], rt[i].Agency == rt[j].Agency), "no equal agencies remain")
		}
		vv.ObsStr(vv.N("agency", i), rt[i].Agency.Id)
	}
}
